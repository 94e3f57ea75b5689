// C07: numeric and string conversions are exact or refused
package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	goreflect "reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/conv"
	"verifmc/mc"
)

// val is a mathematical value
type val struct {
	nan  bool
	inf  int
	neg0 bool
	r    *big.Rat
	src  string // type it came from
	exp  bool   // a text with an exponent
	text string
}

func (v val) String() string {
	switch {
	case v.nan:
		return "NaN"
	case v.inf != 0:
		return fmt.Sprintf("%+dInf", v.inf)
	case v.neg0:
		return "-0"
	}
	return v.r.RatString()
}

func ofFloat(f float64, src string) val {
	switch {
	case math.IsNaN(f):
		return val{nan: true, src: src}
	case math.IsInf(f, 0):
		return val{inf: map[bool]int{true: 1, false: -1}[f > 0], src: src}
	}
	return val{neg0: f == 0 && math.Signbit(f), r: new(big.Rat).SetFloat64(f), src: src}
}

func ofBigFloat(f *big.Float) val {
	if f.IsInf() {
		return val{inf: f.Sign(), src: "*big.Float"}
	}
	r, _ := f.Rat(nil)
	return val{neg0: f.Sign() == 0 && f.Signbit(), r: r, src: "*big.Float"}
}

// value gives the mathematical value of anything numeric
func value(x any) val {
	rv := goreflect.ValueOf(x)
	src := rv.Kind().String()
	switch {
	case rv.CanInt():
		return val{r: new(big.Rat).SetInt64(rv.Int()), src: src}
	case rv.CanUint():
		return val{r: new(big.Rat).SetInt(new(big.Int).SetUint64(rv.Uint())), src: src}
	case rv.CanFloat():
		return ofFloat(rv.Float(), src)
	}
	switch b := x.(type) {
	case *big.Int:
		return val{r: new(big.Rat).SetInt(b), src: "*big.Int"}
	case *big.Float:
		return ofBigFloat(b)
	case *big.Rat:
		return val{r: new(big.Rat).Set(b), src: "*big.Rat"}
	}
	panic(fmt.Sprintf("no value for %T", x))
}

func show(x any) string {
	switch b := x.(type) {
	case *big.Float:
		if b == nil {
			return "<nil>"
		}
		return fmt.Sprintf("%s@%d", b.Text('p', 0), b.Prec())
	}
	return fmt.Sprintf("%T(%v)", x, x)
}

func fits(r *big.Rat, lo, hi *big.Int) bool {
	return r.IsInt() && r.Num().Cmp(lo) >= 0 && r.Num().Cmp(hi) <= 0
}

var limits = map[string][2]*big.Int{}

func init() {
	two := big.NewInt(2)
	for bits, n := range map[int]string{8: "int8", 16: "int16", 32: "int32", 64: "int64", 640: "int"} {
		if bits == 640 {
			bits = strconv.IntSize
		}
		top := new(big.Int).Exp(two, big.NewInt(int64(bits-1)), nil)
		limits[n] = [2]*big.Int{new(big.Int).Neg(top), new(big.Int).Sub(top, big.NewInt(1))}
		all := new(big.Int).Exp(two, big.NewInt(int64(bits)), nil)
		limits["u"+n] = [2]*big.Int{new(big.Int), all.Sub(all, big.NewInt(1))}
	}
}

// expect says whether the result of a conversion of v to type tgt is right
func expect(tgt string, v val, got any, err error) (bool, string) {
	if lim, isInt := limits[tgt]; isInt {
		ok := !v.nan && v.inf == 0 && fits(v.r, lim[0], lim[1])
		if !ok {
			return err != nil, "an error"
		}
		return err == nil && value(got).r.Cmp(v.r) == 0, "the same value"
	}
	switch tgt {
	case "*big.Int":
		if v.nan || v.inf != 0 || !v.r.IsInt() {
			return err != nil, "an error"
		}
		return err == nil && value(got).r.Cmp(v.r) == 0, "the same value"
	case "*big.Rat":
		if v.nan || v.inf != 0 {
			return err != nil, "an error"
		}
		return err == nil && value(got).r.Cmp(v.r) == 0, "the same value"
	case "*big.Float":
		if v.nan {
			return err != nil, "an error"
		}
		if err != nil {
			return false, "no error"
		}
		g := value(got)
		if v.inf != 0 || g.inf != 0 {
			return g.inf == v.inf, "the same infinity"
		}
		if v.src == "*big.Rat" || v.src == "string" {
			if pow2 := new(big.Int).And(v.r.Denom(), new(big.Int).Sub(v.r.Denom(), big.NewInt(1))).Sign() == 0; pow2 && (!v.exp || v.r.Num().BitLen() <= 53) {
				return g.r.Cmp(v.r) == 0, "the same value"
			}
			return near(v.r, g.r, 52), "the nearest value"
		}
		return g.r.Cmp(v.r) == 0 && (!v.neg0 || g.neg0), "the same value"
	case "float64":
		if v.nan {
			return err == nil && math.IsNaN(got.(float64)), "NaN"
		}
		if v.inf != 0 {
			return err == nil && math.IsInf(got.(float64), v.inf), "the same infinity"
		}
		f, exact := v.r.Float64()
		if exact && (f == 0) == (v.r.Sign() == 0) {
			return err == nil && got.(float64) == f && (!v.neg0 || math.Signbit(got.(float64))), "the same value"
		}
		if v.src == "string" {
			return err != nil || got.(float64) == f, "the nearest value or an error"
		}
		return err != nil, "an error"
	case "float32":
		if v.nan {
			return err == nil && math.IsNaN(float64(got.(float32))), "NaN"
		}
		if v.inf != 0 {
			return err == nil && math.IsInf(float64(got.(float32)), v.inf), "the same infinity"
		}
		f, exact := v.r.Float32()
		// Float32 claims that values that become 0 are exact
		if exact && (f == 0) == (v.r.Sign() == 0) {
			return err == nil && got.(float32) == f && (!v.neg0 || math.Signbit(float64(got.(float32)))), "the same value"
		}
		// values that are not exact may be rounded (as documented for float64), never beyond the range
		mx := new(big.Rat).SetFloat64(math.MaxFloat32)
		mn := new(big.Rat).SetFloat64(math.SmallestNonzeroFloat32)
		abs := new(big.Rat).Abs(v.r)
		if abs.Cmp(mx) > 0 || abs.Cmp(mn) < 0 {
			return err != nil, "an error"
		}
		if v.src == "float64" {
			return err == nil && got.(float32) == f, "the nearest value"
		}
		if v.r.IsInt() && strings.Contains(v.src, "int") {
			return err != nil, "an error"
		}
		return err != nil || got.(float32) == f, "the nearest value or an error"
	}
	panic(tgt)
}

func near(a, b *big.Rat, bits uint) bool {
	if a.Cmp(b) == 0 {
		return true
	}
	d := new(big.Rat).Sub(a, b)
	d.Abs(d)
	lim := new(big.Rat).Abs(a)
	lim.Mul(lim, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), bits)))
	return d.Cmp(lim) <= 0
}

// expectString says whether s is a right string for x
func expectString(x any, s string) (bool, string) {
	switch b := x.(type) {
	case *big.Int:
		return s == b.String(), b.String()
	case *big.Rat:
		return s == b.String(), b.String()
	case *big.Float:
		if b.IsInf() {
			return s == b.String(), b.String()
		}
		back, _, err := big.ParseFloat(s, 10, b.Prec(), b.Mode())
		if b.Prec() == 0 {
			return s == "0", "0"
		}
		ok := err == nil && back.Cmp(b) == 0 && back.Signbit() == b.Signbit()
		if !ok && err == nil && b.MinPrec() == 1 {
			// the shortest string math/big gives for a power of two may denote its lower neighbour
			x, _ := b.Rat(nil)
			y, _ := back.Rat(nil)
			ok = near(x, y, b.Prec()-1)
		}
		return ok, "a string that gives the same value back"
	case string:
		return s == b, b
	}
	rv := goreflect.ValueOf(x)
	w := ""
	switch {
	case rv.CanInt():
		w = strconv.FormatInt(rv.Int(), 10)
	case rv.CanUint():
		w = strconv.FormatUint(rv.Uint(), 10)
	default:
		w = strconv.FormatFloat(rv.Float(), 'f', -1, rv.Type().Bits())
	}
	return s == w, w
}

type (
	mI8  int8
	mU16 uint16
	mI64 int64
	mF64 float64
	mF32 float32
)

// what a type says of its values has nothing to do with their number
func (mI8) String() string  { return "99" }
func (mU16) Error() string  { return "98" }
func (mI64) String() string { return "many" }
func (mF64) String() string { return "97.5" }

func (mF32) MarshalText() ([]byte, error)    { return []byte("96"), nil }
func (mI64) Format(s fmt.State, verb rune)   { io.WriteString(s, "95") }
func (v *mI8) UnmarshalText(b []byte) error  { *v = 94; return nil }
func (v *mF64) UnmarshalText(b []byte) error { *v = 93; return nil }

var targets = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "*big.Int", "*big.Float", "*big.Rat", "string"}

// outcome of one way of converting
type res struct {
	got any
	err error
}

// ways runs every way of converting i to O. To is always the first.
func ways[I, O constraint.Numeric | string](c *mc.C, i I) (rs []res) {
	var o O
	err := conv.To(i, &o)
	rs = append(rs, res{o, err})
	var o2 O
	rs = append(rs, res{got: nil})
	pv := mc.Try(func() { conv.MustTo(i, &o2) })
	rs[1] = res{o2, asErr(c, pv)}
	var o3 O
	err = conv.AnyTo(i, &o3)
	rs = append(rs, res{o3, err})
	c.Ops(3)
	// the reflection based version has no conversions between equal types
	if it, ot := goreflect.TypeOf(i), goreflect.TypeOf(o); it != ot {
		var o4 O
		err = conv.ReflectTo(goreflect.ValueOf(i), goreflect.ValueOf(&o4))
		rs = append(rs, res{o4, err})
		var o5 O
		pv := mc.Try(func() { conv.MustReflectTo(goreflect.ValueOf(i), goreflect.ValueOf(&o5)) })
		rs = append(rs, res{o5, asErr(c, pv)})
		c.Ops(2)
	}
	return
}

func waysBig[I constraint.Numeric | string, O interface {
	*big.Int | *big.Float | *big.Rat
	constraint.BigOps[O]
}](c *mc.C, i I) (rs []res) {
	rs = ways[I, O](c, i)
	var o O
	err := conv.ToBigOps(i, &o)
	rs = append(rs, res{o, err})
	var o2 O
	pv := mc.Try(func() { conv.MustToBigOps(i, &o2) })
	rs = append(rs, res{o2, asErr(c, pv)})
	c.Ops(2)
	for n, r := range rs {
		for m := range n {
			apart(c, fmt.Sprintf("%T converted to %T (ways %d and %d)", i, o, m, n), rs[m].got, r.got)
		}
	}
	return
}

// apart checks that two results are not the same object, what is done to one would change the other
func apart(c *mc.C, what string, a, b any) {
	same := false
	switch x := a.(type) {
	case *big.Int:
		y, _ := b.(*big.Int)
		same = x != nil && x == y
	case *big.Float:
		y, _ := b.(*big.Float)
		same = x != nil && x == y
	case *big.Rat:
		y, _ := b.(*big.Rat)
		same = x != nil && x == y
	}
	if same {
		c.Fail("shared", "%s: two results are the same object, of the value %s", what, show(a))
	}
}

func asErr(c *mc.C, pv any) error {
	if pv == nil {
		return nil
	}
	err, isa := pv.(error)
	c.Check(isa, "panic", "a Must conversion panicked with %T %v instead of an error", pv, pv)
	var re interface{ RuntimeError() }
	c.Check(!errors.As(err, &re), "panic", "a Must conversion panicked with %v", err)
	return err
}

func convert[I constraint.Numeric | string](c *mc.C, tgt string, i I) []res {
	switch tgt {
	case "int":
		return ways[I, int](c, i)
	case "int8":
		return ways[I, int8](c, i)
	case "int16":
		return ways[I, int16](c, i)
	case "int32":
		return ways[I, int32](c, i)
	case "int64":
		return ways[I, int64](c, i)
	case "uint":
		return ways[I, uint](c, i)
	case "uint8":
		return ways[I, uint8](c, i)
	case "uint16":
		return ways[I, uint16](c, i)
	case "uint32":
		return ways[I, uint32](c, i)
	case "uint64":
		return ways[I, uint64](c, i)
	case "float32":
		return ways[I, float32](c, i)
	case "float64":
		return ways[I, float64](c, i)
	case "*big.Int":
		return waysBig[I, *big.Int](c, i)
	case "*big.Float":
		return waysBig[I, *big.Float](c, i)
	case "*big.Rat":
		return waysBig[I, *big.Rat](c, i)
	}
	return ways[I, string](c, i)
}

// check converts i to the chosen target
func check[I constraint.Numeric | string](c *mc.C, i I, v val) {
	tgt := mc.Pick(c, targets)
	c.Op("%s to %s", show(i), tgt)
	for w, r := range convert(c, tgt, i) {
		ok, want := false, ""
		if tgt == "string" {
			ok, want = expectString(i, fmt.Sprint(r.got))
			ok = ok && r.err == nil
		} else {
			ok, want = expect(tgt, v, r.got, r.err)
		}
		if !ok {
			c.Fail(tgt, "%s converted to %s (way %d): expected %s, got %s, error %v", show(i), tgt, w, want, show(r.got), r.err)
		}
		if w == 0 {
			if r.err != nil {
				c.Outcome("err " + tgt)
			} else {
				c.Outcome(tgt + show(r.got))
			}
			c.State(show(i) + tgt)
		}
	}
}

func ints[I constraint.Integer](vals []I) func(c *mc.C) {
	return func(c *mc.C) {
		i := mc.Pick(c, vals)
		checkAny(c, i)
	}
}

func checkAny(c *mc.C, x any) {
	v := value(x)
	switch i := x.(type) {
	case int:
		check(c, i, v)
	case int8:
		check(c, i, v)
	case int16:
		check(c, i, v)
	case int32:
		check(c, i, v)
	case int64:
		check(c, i, v)
	case uint:
		check(c, i, v)
	case uint8:
		check(c, i, v)
	case uint16:
		check(c, i, v)
	case uint32:
		check(c, i, v)
	case uint64:
		check(c, i, v)
	case float32:
		check(c, i, v)
	case float64:
		check(c, i, v)
	case *big.Int:
		check(c, i, v)
	case *big.Float:
		check(c, i, v)
	case *big.Rat:
		check(c, i, v)
	}
}

// wide gives the integers around the limits of every type and of every mantissa
func wide() (res []*big.Int) {
	seen := map[string]bool{}
	add := func(b *big.Int) {
		for _, s := range []int64{1, -1} {
			x := new(big.Int).Mul(b, big.NewInt(s))
			if !seen[x.String()] {
				seen[x.String()] = true
				res = append(res, x)
			}
		}
	}
	for i := int64(0); i <= 12; i++ {
		add(big.NewInt(i))
	}
	for _, k := range []uint{7, 8, 10, 15, 16, 23, 24, 25, 31, 32, 33, 52, 53, 54, 60, 61, 62, 63, 64, 65, 80, 100, 127, 128, 129, 1023, 1024, 1025} {
		p := new(big.Int).Lsh(big.NewInt(1), k)
		for d := int64(-3); d <= 3; d++ {
			add(new(big.Int).Add(p, big.NewInt(d)))
		}
		add(new(big.Int).Add(p, new(big.Int).Rsh(p, 1)))
		add(new(big.Int).Add(p, new(big.Int).Rsh(p, 23)))
		add(new(big.Int).Add(p, new(big.Int).Rsh(p, 24)))
		add(new(big.Int).Add(p, new(big.Int).Rsh(p, 52)))
		add(new(big.Int).Add(p, new(big.Int).Rsh(p, 53)))
	}
	ten := big.NewInt(1)
	for k := 0; k <= 40; k++ {
		add(new(big.Int).Set(ten))
		add(new(big.Int).Add(ten, big.NewInt(1)))
		add(new(big.Int).Sub(ten, big.NewInt(1)))
		ten = new(big.Int).Mul(ten, big.NewInt(10))
	}
	s, _ := new(big.Int).SetString("1234567890123456789012345678901234567890", 10)
	for s.Sign() > 0 {
		add(new(big.Int).Set(s))
		s = new(big.Int).Quo(s, big.NewInt(10))
	}
	return
}

func floats() (res []float64) {
	base := []float64{0, 1, 0.1, 0.2, 0.3, 0.5, 1.25, 2.5, 1.0 / 3, 1e-1, 123.456, 1234567.891, 12345678901, 12345678901.5, 1e10, 1e15 + 0.3, 1e18, 1e19, 1e20, 1e22, 1e38, 4e38, 1e100, 1e300,
		1e-10, 1e-30, 1e-44, 1e-45, 1e-46, 1e-300, 5e-324, math.MaxFloat32, math.MaxFloat64, math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat32 / 2, math.Pi, math.E,
		math.Inf(1), math.NaN(), 16777217, 16777216.5, 33554431, 0.30000000000000004}
	for _, k := range []int{7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 62, 63, 64, 65, 127, 128} {
		p := math.Ldexp(1, k)
		base = append(base, p, p-1, p+1, p-0.5, p+0.5, math.Nextafter(p, 0), math.Nextafter(p, math.Inf(1)))
	}
	// float32 neighbours
	for _, f := range []float32{1, 0.1, 1 << 24, math.MaxFloat32, 1e-38} {
		base = append(base, float64(f), float64(math.Nextafter32(f, 0)), float64(f)*(1-1e-9))
	}
	for _, f := range base {
		res = append(res, f, -f)
	}
	return
}

func bigFloats() (res []*big.Float) {
	for _, f := range floats() {
		if !math.IsNaN(f) {
			res = append(res, big.NewFloat(f))
		}
	}
	for _, prec := range []uint{1, 4, 24, 53, 64, 65, 100, 200, 1000} {
		for _, s := range []string{"0", "1", "0.1", "1.25", "12345678901234567890.12345", "1267650600228229401496703205377", "3e40", "1e-40", "-7.5", "9007199254740993", "18446744073709551615", "18446744073709551616"} {
			f, _, _ := big.ParseFloat(s, 10, prec, big.ToNearestEven)
			res = append(res, f)
		}
	}
	res = append(res, new(big.Float))
	return
}

func bigRats() (res []*big.Rat) {
	for _, s := range []string{"0", "1", "-1", "1/2", "1/3", "-2/3", "5/4", "-5/4", "1/10", "7/1000", "22/7", "12345678901/1000", "12345678901/8", "123456789012345678901/8", "1/3000000000000000000000",
		"1e-60", "1e-400", "1e60", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775807/2", "16777217", "9007199254740993", "9007199254740993/2",
		"99999999999999999999999999999999999999999999/7", "1/1267650600228229401496703205376", "2e-324", "1/13582985290493858492773514283592667786034938469317445497485196697278130927542418487205392083207560592298578262953847383475038725543234929971155548342800628721885763499406390331782864144164680730766837160526223176512798435772129956553355286032203080380775759732320198985094884004069116123084147875437183658467465148948790552744165376", "1/1461501637330902918203684832716283019655932542976", "3/13582985290493858492773514283592667786034938469317445497485196697278130927542418487205392083207560592298578262953847383475038725543234929971155548342800628721885763499406390331782864144164680730766837160526223176512798435772129956553355286032203080380775759732320198985094884004069116123084147875437183658467465148948790552744165376", "1/1267650600228229401496703205377"} {
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			panic(s)
		}
		res = append(res, r)
	}
	return
}

func inRange[T any](vals []*big.Int, name string, f func(*big.Int) T) (res []T) {
	l := limits[name]
	for _, v := range vals {
		if v.Cmp(l[0]) >= 0 && v.Cmp(l[1]) <= 0 {
			res = append(res, f(v))
		}
	}
	return
}

// strings: what text is which value
var (
	intRe   = regexp.MustCompile(`^[+-]?[0-9]+$`)
	uintRe  = regexp.MustCompile(`^[0-9]+$`)
	floatRe = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
	ratRe   = regexp.MustCompile(`^[+-]?[0-9]+/[0-9]+$`)
)

// checkString converts a string to a numeric target
func checkString(c *mc.C, s string) {
	tgt := mc.Pick(c, targets[:len(targets)-1])
	c.Op("string %q to %s", s, tgt)
	rs := convert(c, tgt, s)
	var (
		re  = floatRe
		v   val
		bad bool
	)
	if lim, isInt := limits[tgt]; isInt {
		if re = intRe; lim[0].Sign() == 0 {
			re = uintRe
		}
	} else if tgt == "*big.Int" {
		re = intRe
	}
	switch {
	case re.MatchString(s):
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			panic(s)
		}
		v = val{r: r, src: "string", exp: strings.ContainsAny(s, "eE"), neg0: r.Sign() == 0 && strings.HasPrefix(s, "-")}
	case tgt == "*big.Rat" && ratRe.MatchString(s):
		r, ok := new(big.Rat).SetString(s)
		if bad = !ok; ok {
			v = val{r: r, src: "string"}
		}
	case s == "NaN" && (tgt == "float32" || tgt == "float64"):
		v = val{nan: true}
	case (s == "+Inf" || s == "Inf") && re == floatRe && tgt != "*big.Rat":
		v = val{inf: 1}
	case s == "-Inf" && re == floatRe && tgt != "*big.Rat":
		v = val{inf: -1}
	default:
		bad = true
	}
	for w, r := range rs {
		if bad && tgt == "*big.Rat" && r.err == nil {
			// a ratio may also be given in the other notations math/big knows
			x, ok := new(big.Rat).SetString(s)
			c.Check(ok && x.Cmp(r.got.(*big.Rat)) == 0, tgt, "string %q converted to *big.Rat (way %d): got %s", s, w, show(r.got))
			continue
		}
		if bad {
			c.Check(r.err != nil, tgt, "string %q converted to %s (way %d): expected an error, got %s", s, tgt, w, show(r.got))
			c.Outcome("err")
			continue
		}
		ok, want := expect(tgt, v, r.got, r.err)
		c.Check(ok, tgt, "string %q converted to %s (way %d): expected %s, got %s, error %v", s, tgt, w, want, show(r.got), r.err)
		c.Outcome(show(r.got))
	}
	c.State(s + tgt)
}

func main() {
	mc.Main("C07", "model_checking", []string{"math/big and strconv are the reference arithmetic", "wide types are represented by the values around the limits of every type and mantissa"}, func(r *mc.Run) {
		all8 := func(i int) int8 { return int8(i - 128) }
		var a8 []int8
		var u8 []uint8
		for i := 0; i < 256; i++ {
			a8 = append(a8, all8(i))
			u8 = append(u8, uint8(i))
		}
		r.Explore("int8", "all int8 x 16 targets x all ways", -1, ints(a8))
		r.Explore("uint8", "all uint8 x 16 targets x all ways", -1, ints(u8))
		var a16 []int16
		var u16 []uint16
		for i := 0; i < 65536; i++ {
			a16 = append(a16, int16(i-32768))
			u16 = append(u16, uint16(i))
		}
		if r.Thorough {
			r.Explore("int16", "all int16 x 16 targets x all ways", -1, ints(a16))
			r.Explore("uint16", "all uint16 x 16 targets x all ways", -1, ints(u16))
		} else {
			w := wide()
			r.Explore("int16", "boundary int16 x 16 targets x all ways", -1, ints(inRange(w, "int16", func(b *big.Int) int16 { return int16(b.Int64()) })))
			r.Explore("uint16", "boundary uint16 x 16 targets x all ways", -1, ints(inRange(w, "uint16", func(b *big.Int) uint16 { return uint16(b.Uint64()) })))
		}
		w := wide()
		r.Explore("int32", "boundary values x 16 targets x all ways", -1, ints(inRange(w, "int32", func(b *big.Int) int32 { return int32(b.Int64()) })))
		r.Explore("uint32", "boundary values x 16 targets x all ways", -1, ints(inRange(w, "uint32", func(b *big.Int) uint32 { return uint32(b.Uint64()) })))
		r.Explore("int64", "boundary values x 16 targets x all ways", -1, ints(inRange(w, "int64", func(b *big.Int) int64 { return b.Int64() })))
		r.Explore("uint64", "boundary values x 16 targets x all ways", -1, ints(inRange(w, "uint64", func(b *big.Int) uint64 { return b.Uint64() })))
		r.Explore("int", "boundary values x 16 targets x all ways", -1, ints(inRange(w, "int", func(b *big.Int) int { return int(b.Int64()) })))
		r.Explore("uint", "boundary values x 16 targets x all ways", -1, ints(inRange(w, "uint", func(b *big.Int) uint { return uint(b.Uint64()) })))
		r.Explore("big.Int", "boundary values x 16 targets x all ways", -1, func(c *mc.C) { checkAny(c, new(big.Int).Set(mc.Pick(c, w))) })
		fs := floats()
		r.Explore("float64", "boundary values x 16 targets x all ways", -1, func(c *mc.C) { checkAny(c, mc.Pick(c, fs)) })
		r.Explore("float32", "boundary values x 16 targets x all ways", -1, func(c *mc.C) { checkAny(c, float32(mc.Pick(c, fs))) })
		bf := bigFloats()
		r.Explore("big.Float", "boundary values and precisions x 16 targets x all ways", -1, func(c *mc.C) { checkAny(c, new(big.Float).Copy(mc.Pick(c, bf))) })
		br := bigRats()
		r.Explore("big.Rat", "boundary values x 16 targets x all ways", -1, func(c *mc.C) { checkAny(c, new(big.Rat).Set(mc.Pick(c, br))) })
		n := r.Budget(4, 6)
		r.Explore("strings", fmt.Sprintf("all strings of up to %d of 9 characters x 15 targets x all ways", n), -1, func(c *mc.C) {
			s := ""
			for i := c.Choose(n + 1); i > 0; i-- {
				s += mc.Pick(c, []string{"1", "0", "9", "-", "+", ".", "e", "/", " "})
			}
			checkString(c, s)
		})
		var texts = []string{"NaN", "+Inf", "-Inf", "Inf", "nan", "infinit", "0x10", "1_000", "١", "1.25", "-1.25", "100000.25", "1e3", "1e400", "1.5e-3", "0.5e1", "12345678901234567890", "1234567890123456789012",
			"0.30000000000000004", "123456789.123456789", "5e-324", "3.4028235e38", "16777217", "-0", "-0.0", "9007199254740993", "1x", "x1", "1 ", " 1", "1.2.3", "--1", "1e", "e1", "1/0", "0/1", "22/7", "-22/7", "22/-7"}
		for _, b := range w {
			if b.BitLen() < 140 {
				texts = append(texts, b.String())
			}
		}
		r.Explore("texts", "texts of special and of all boundary values x 15 targets x all ways", -1, func(c *mc.C) { checkString(c, mc.Pick(c, texts)) })
		top := r.Budget(4096, 16384)
		r.Explore("long", fmt.Sprintf("big integers, ratios, big floats and texts of up to %d digits (around the powers of two): one digit repeated, a power of ten and its neighbours, digits before and after a point, leading and trailing zeros, to all targets all ways", top), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(top))
			if n == 0 {
				c.Prune()
			}
			zeros := strings.Repeat("0", n)
			digits := mc.Pick(c, []string{strings.Repeat("1", n), strings.Repeat("9", n), "1" + zeros, "1" + zeros[1:] + "1", "1" + strings.Repeat("27", n/2)})
			b, _ := new(big.Int).SetString(digits, 10)
			neg := c.Bool()
			sign := ""
			if neg {
				b.Neg(b)
				sign = "-"
			}
			switch k := c.Choose(8); k {
			case 0:
				checkAny(c, b)
			case 1:
				checkAny(c, new(big.Rat).SetFrac(b, big.NewInt(mc.Pick(c, []int64{2, 3, 10, 1 << 40}))))
			case 2:
				checkAny(c, new(big.Rat).SetFrac(big.NewInt(mc.Pick(c, []int64{1, -7})), b))
			case 3:
				checkAny(c, new(big.Float).SetPrec(uint(n)).SetInt(b))
			case 4:
				checkString(c, sign+digits)
			case 5:
				checkString(c, sign+zeros+mc.Pick(c, []string{"1", "255", "256.5", "0"}))
			case 6:
				checkString(c, sign+mc.Pick(c, []string{"1", "0.25", "128.0"})+mc.Pick(c, []string{"." + zeros, zeros}))
			default:
				checkString(c, sign+digits[:n/2]+"."+digits[n/2:])
			}
		})
		r.Explore("bits", "the number of bits of every integer and float type, subtypes included", -1, func(c *mc.C) {
			type my16 int16
			type myf float32
			got := []int{conv.NumBits(0), conv.NumBits(int8(1)), conv.NumBits(int16(-1)), conv.NumBits(int32(0)), conv.NumBits(int64(0)), conv.NumBits(uint(0)), conv.NumBits(uint8(0)), conv.NumBits(uint16(0)), conv.NumBits(uint32(0)), conv.NumBits(uint64(0)), conv.NumBits(float32(0)), conv.NumBits(0.0), conv.NumBits(my16(0)), conv.NumBits(myf(0))}
			want := []int{strconv.IntSize, 8, 16, 32, 64, strconv.IntSize, 8, 16, 32, 64, 32, 64, 16, 32}
			c.Ops(len(got))
			c.Check(fmt.Sprint(got) == fmt.Sprint(want), "bits", "NumBits gives %v, expected %v", got, want)
		})
		r.Explore("string-copy", "string to string", -1, func(c *mc.C) {
			s := mc.Pick(c, texts)
			for _, r := range ways[string, string](c, s) {
				c.Check(r.err == nil && r.got == any(s), "string", "%q to string: got %v, %v", s, r.got, r.err)
			}
		})
		r.Explore("subtypes", "subtypes of the basic types as source and target, boundary values", -1, subtypes)
		r.Explore("exact", "the single purpose functions that give a float32, and the ratio free parser", -1, func(c *mc.C) { exact(c, w, bf, br, texts) })
		r.Explore("named", "all remaining single purpose functions and their Must versions, boundary values", -1, func(c *mc.C) { named(c, w, fs, bf, br, texts) })
		r.Explore("direct", "all generic functions between integers and floats and their Must versions, all pairs of 12 source and 14 target types, and the big types and strings, subtypes (with methods of their own) included, boundary values", -1, func(c *mc.C) { direct(c, w, fs) })
		r.Explore("independent", "big values: source and result never share memory, all pairs of big types x targets nil, set, same", -1, func(c *mc.C) { independent(c, w, bf, br) })
		r.Explore("refused", "nil, invalid and unsupported targets and sources are refused with an error", -1, refused)
		r.Explore("nil", "nil big numbers converted to every type in every way: copied as nil, or refused", -1, nils)
	})
}

func sub[I, O constraint.Numeric | string](c *mc.C, tgt string, i I, v val) {
	var o O
	err := conv.To(i, &o)
	c.Op("%T(%v) to %T = %v, %v", i, i, o, o, err)
	g := any(o)
	switch tgt {
	case "float64":
		g = goreflect.ValueOf(o).Float()
	case "float32":
		g = float32(goreflect.ValueOf(o).Float())
	}
	ok, want := false, ""
	if tgt == "string" {
		base := any(i)
		if k := goreflect.ValueOf(i); k.Kind() == goreflect.String {
			base = k.String()
		}
		ok, want = expectString(base, goreflect.ValueOf(o).String())
		ok = ok && err == nil
	} else {
		ok, want = expect(tgt, v, g, err)
	}
	c.Check(ok, tgt, "%T(%v) converted to %T: expected %s, got %v, %v", i, i, o, want, o, err)
	var o2 O
	err2 := conv.AnyTo(any(i), &o2)
	c.Check((err == nil) == (err2 == nil), "anyto", "To and AnyTo disagree on %T(%v) to %T: %v, %v", i, i, o, err, err2)
	c.Outcome(fmt.Sprint(tgt, g, err != nil))
	c.State(fmt.Sprintf("%T %v %T", i, i, o))
}

func subAll[I constraint.Numeric | string](c *mc.C, i I, v val) {
	switch c.Choose(8) {
	case 0:
		sub[I, mI8](c, "int8", i, v)
	case 1:
		sub[I, mU16](c, "uint16", i, v)
	case 2:
		sub[I, mI64](c, "int64", i, v)
	case 3:
		sub[I, mF64](c, "float64", i, v)
	case 4:
		sub[I, mF32](c, "float32", i, v)
	case 5:
		sub[I, int](c, "int", i, v)
	case 6:
		sub[I, *big.Rat](c, "*big.Rat", i, v)
	case 7:
		sub[I, *big.Int](c, "*big.Int", i, v)
	}
}

func subtypes(c *mc.C) {
	nums := []int64{0, 1, -1, 127, -128, 128, -129, 255, 65535, 65536, -32769, 1 << 24, 1<<24 + 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64}
	switch c.Choose(5) {
	case 0:
		i := mI8(mc.Pick(c, nums[:5]))
		subAll(c, i, value(i))
	case 1:
		i := mU16(mc.Pick(c, []uint16{0, 1, 127, 128, 255, 256, 65535}))
		subAll(c, i, value(i))
	case 2:
		i := mI64(mc.Pick(c, nums))
		subAll(c, i, value(i))
	case 3:
		i := mF64(mc.Pick(c, []float64{0, 1, -1, 0.5, 0.1, 127, 128, 1 << 24, 1<<24 + 1, 1 << 53, 1e30, 1e300, math.Inf(1)}))
		subAll(c, i, value(i))
	case 4:
		i := mF32(mc.Pick(c, []float32{0, 1, -1, 0.5, 0.1, 127, 128, 1 << 24, 1e30, float32(math.Inf(-1))}))
		subAll(c, i, value(i))
	}
}

func exact(c *mc.C, w []*big.Int, bf []*big.Float, br []*big.Rat, texts []string) {
	var (
		o    float32
		err  error
		v    val
		what string
	)
	switch c.Choose(3) {
	case 0:
		b := mc.Pick(c, w)
		v, what = value(b), show(b)
		err = conv.BigIntToFloat32(b, &o)
	case 1:
		b := mc.Pick(c, bf)
		v, what = value(b), show(b)
		err = conv.BigFloatToFloat32(b, &o)
	case 2:
		b := mc.Pick(c, br)
		v, what = value(b), show(b)
		err = conv.BigRatToFloat32(b, &o)
	}
	c.Op("%s to float32 = %v, %v", what, o, err)
	if v.inf != 0 {
		c.Check(err == nil && math.IsInf(float64(o), v.inf), "float32", "%s converted to float32: got %v, %v", what, o, err)
		return
	}
	f, ok := v.r.Float32()
	ok = ok && (f == 0) == (v.r.Sign() == 0)
	c.Check(ok == (err == nil), "float32", "%s converted to float32: exact %v, error %v", what, ok, err)
	c.Check(err != nil || o == f, "float32", "%s converted to float32: got %v", what, o)
	c.Outcome(fmt.Sprint(f, err != nil))
	c.State(what)
}

// one calls a function and its Must version
func one[I, O any](c *mc.C, name, tgt string, i I, v val, f func(I, *O) error, must func(I, *O)) {
	var o, o2 O
	err := f(i, &o)
	c.Op("%s(%s) = %s, %v", name, show(i), show(o), err)
	ok, want := expect(tgt, v, basic(o), err)
	c.Check(ok, name, "%s(%s): expected %s, got %s, %v", name, show(i), want, show(o), err)
	var o3 O
	f(i, &o3)
	apart(c, name, any(o), any(o3))
	if must != nil {
		pv := asErr(c, mc.Try(func() { must(i, &o2) }))
		c.Check((pv == nil) == (err == nil), name, "Must%s(%s) panicked with %v, but the error is %v", name, show(i), pv, err)
		if err == nil {
			ok, want := expect(tgt, v, basic(o2), nil)
			c.Check(ok, name, "Must%s(%s): expected %s, got %s", name, show(i), want, show(o2))
		}
	}
	c.Outcome(fmt.Sprint(name, v, err != nil))
}

func plain[I, O any](f func(I, *O)) func(I, *O) error {
	return func(i I, o *O) error { f(i, o); return nil }
}

// basic makes a float of a subtype a float
func basic(o any) any {
	switch v := goreflect.ValueOf(o); v.Kind() {
	case goreflect.Float32:
		return float32(v.Float())
	case goreflect.Float64:
		return v.Float()
	}
	return o
}

// fromSigned: all functions from such a type to a type of a fixed size, subtypes included
func fromSigned[I constraint.SignedInteger](c *mc.C, i I) {
	v := value(i)
	switch c.Choose(19) {
	case 0:
		one(c, "IntToInt", "int8", i, v, conv.IntToInt[I, int8], conv.MustIntToInt[I, int8])
	case 1:
		one(c, "IntToInt", "int8", i, v, conv.IntToInt[I, mI8], conv.MustIntToInt[I, mI8])
	case 2:
		one(c, "IntToInt", "int16", i, v, conv.IntToInt[I, int16], conv.MustIntToInt[I, int16])
	case 3:
		one(c, "IntToInt", "int32", i, v, conv.IntToInt[I, int32], conv.MustIntToInt[I, int32])
	case 4:
		one(c, "IntToInt", "int64", i, v, conv.IntToInt[I, mI64], conv.MustIntToInt[I, mI64])
	case 5:
		one(c, "IntToInt", "int", i, v, conv.IntToInt[I, int], conv.MustIntToInt[I, int])
	case 6:
		one(c, "IntToUint", "uint8", i, v, conv.IntToUint[I, uint8], conv.MustIntToUint[I, uint8])
	case 7:
		one(c, "IntToUint", "uint16", i, v, conv.IntToUint[I, mU16], conv.MustIntToUint[I, mU16])
	case 8:
		one(c, "IntToUint", "uint32", i, v, conv.IntToUint[I, uint32], conv.MustIntToUint[I, uint32])
	case 9:
		one(c, "IntToUint", "uint64", i, v, conv.IntToUint[I, uint64], conv.MustIntToUint[I, uint64])
	case 10:
		one(c, "IntToUint", "uint", i, v, conv.IntToUint[I, uint], conv.MustIntToUint[I, uint])
	case 11:
		one(c, "IntToFloat", "float32", i, v, conv.IntToFloat[I, float32], conv.MustIntToFloat[I, float32])
	case 12:
		one(c, "IntToFloat", "float32", i, v, conv.IntToFloat[I, mF32], conv.MustIntToFloat[I, mF32])
	case 13:
		one(c, "IntToFloat", "float64", i, v, conv.IntToFloat[I, mF64], conv.MustIntToFloat[I, mF64])
	case 14:
		one(c, "IntToBigInt", "*big.Int", i, v, plain(conv.IntToBigInt[I]), nil)
	case 15:
		one(c, "IntegerToBigInt", "*big.Int", i, v, plain(conv.IntegerToBigInt[I]), nil)
	case 16:
		one(c, "IntToBigFloat", "*big.Float", i, v, plain(conv.IntToBigFloat[I]), nil)
	case 17:
		one(c, "IntToBigRat", "*big.Rat", i, v, plain(conv.IntToBigRat[I]), nil)
	case 18:
		want, got := strconv.FormatInt(int64(i), 10), conv.IntToString(i)
		c.Check(got == want, "IntToString", "IntToString(%s) of a %T = %s", want, i, got)
	}
	c.State(show(i))
}

// fromUnsigned: all functions from such a type to a type of a fixed size, subtypes included
func fromUnsigned[I constraint.UnsignedInteger](c *mc.C, i I) {
	v := value(i)
	switch c.Choose(19) {
	case 0:
		one(c, "UintToInt", "int8", i, v, conv.UintToInt[I, int8], conv.MustUintToInt[I, int8])
	case 1:
		one(c, "UintToInt", "int8", i, v, conv.UintToInt[I, mI8], conv.MustUintToInt[I, mI8])
	case 2:
		one(c, "UintToInt", "int16", i, v, conv.UintToInt[I, int16], conv.MustUintToInt[I, int16])
	case 3:
		one(c, "UintToInt", "int32", i, v, conv.UintToInt[I, int32], conv.MustUintToInt[I, int32])
	case 4:
		one(c, "UintToInt", "int64", i, v, conv.UintToInt[I, mI64], conv.MustUintToInt[I, mI64])
	case 5:
		one(c, "UintToInt", "int", i, v, conv.UintToInt[I, int], conv.MustUintToInt[I, int])
	case 6:
		one(c, "UintToUint", "uint8", i, v, conv.UintToUint[I, uint8], conv.MustUintToUint[I, uint8])
	case 7:
		one(c, "UintToUint", "uint16", i, v, conv.UintToUint[I, mU16], conv.MustUintToUint[I, mU16])
	case 8:
		one(c, "UintToUint", "uint32", i, v, conv.UintToUint[I, uint32], conv.MustUintToUint[I, uint32])
	case 9:
		one(c, "UintToUint", "uint64", i, v, conv.UintToUint[I, uint64], conv.MustUintToUint[I, uint64])
	case 10:
		one(c, "UintToUint", "uint", i, v, conv.UintToUint[I, uint], conv.MustUintToUint[I, uint])
	case 11:
		one(c, "IntToFloat", "float32", i, v, conv.IntToFloat[I, float32], conv.MustIntToFloat[I, float32])
	case 12:
		one(c, "IntToFloat", "float32", i, v, conv.IntToFloat[I, mF32], conv.MustIntToFloat[I, mF32])
	case 13:
		one(c, "IntToFloat", "float64", i, v, conv.IntToFloat[I, mF64], conv.MustIntToFloat[I, mF64])
	case 14:
		one(c, "UintToBigInt", "*big.Int", i, v, plain(conv.UintToBigInt[I]), nil)
	case 15:
		one(c, "IntegerToBigInt", "*big.Int", i, v, plain(conv.IntegerToBigInt[I]), nil)
	case 16:
		one(c, "UintToBigFloat", "*big.Float", i, v, plain(conv.UintToBigFloat[I]), nil)
	case 17:
		one(c, "UintToBigRat", "*big.Rat", i, v, plain(conv.UintToBigRat[I]), nil)
	case 18:
		want, got := strconv.FormatUint(uint64(i), 10), conv.UintToString(i)
		c.Check(got == want, "UintToString", "UintToString(%s) of a %T = %s", want, i, got)
	}
	c.State(show(i))
}

// fromFloat: all functions from such a type to a type of a fixed size, subtypes included
func fromFloat[I constraint.Float](c *mc.C, i I) {
	v := value(i)
	switch c.Choose(18) {
	case 0:
		one(c, "FloatToInt", "int8", i, v, conv.FloatToInt[I, int8], conv.MustFloatToInt[I, int8])
	case 1:
		one(c, "FloatToInt", "int8", i, v, conv.FloatToInt[I, mI8], conv.MustFloatToInt[I, mI8])
	case 2:
		one(c, "FloatToInt", "int16", i, v, conv.FloatToInt[I, int16], conv.MustFloatToInt[I, int16])
	case 3:
		one(c, "FloatToInt", "int32", i, v, conv.FloatToInt[I, int32], conv.MustFloatToInt[I, int32])
	case 4:
		one(c, "FloatToInt", "int64", i, v, conv.FloatToInt[I, mI64], conv.MustFloatToInt[I, mI64])
	case 5:
		one(c, "FloatToInt", "int", i, v, conv.FloatToInt[I, int], conv.MustFloatToInt[I, int])
	case 6:
		one(c, "FloatToUint", "uint8", i, v, conv.FloatToUint[I, uint8], conv.MustFloatToUint[I, uint8])
	case 7:
		one(c, "FloatToUint", "uint16", i, v, conv.FloatToUint[I, mU16], conv.MustFloatToUint[I, mU16])
	case 8:
		one(c, "FloatToUint", "uint32", i, v, conv.FloatToUint[I, uint32], conv.MustFloatToUint[I, uint32])
	case 9:
		one(c, "FloatToUint", "uint64", i, v, conv.FloatToUint[I, uint64], conv.MustFloatToUint[I, uint64])
	case 10:
		one(c, "FloatToUint", "uint", i, v, conv.FloatToUint[I, uint], conv.MustFloatToUint[I, uint])
	case 11:
		one(c, "FloatToFloat", "float32", i, v, conv.FloatToFloat[I, float32], conv.MustFloatToFloat[I, float32])
	case 12:
		one(c, "FloatToFloat", "float32", i, v, conv.FloatToFloat[I, mF32], conv.MustFloatToFloat[I, mF32])
	case 13:
		one(c, "FloatToFloat", "float64", i, v, conv.FloatToFloat[I, mF64], conv.MustFloatToFloat[I, mF64])
	case 14:
		one(c, "FloatToBigInt", "*big.Int", i, v, conv.FloatToBigInt[I], conv.MustFloatToBigInt[I])
	case 15:
		one(c, "FloatToBigFloat", "*big.Float", i, v, conv.FloatToBigFloat[I], conv.MustFloatToBigFloat[I])
	case 16:
		one(c, "FloatToBigRat", "*big.Rat", i, v, conv.FloatToBigRat[I], conv.MustFloatToBigRat[I])
	case 17:
		s := conv.FloatToString(i)
		back, err := strconv.ParseFloat(s, 64)
		c.Check(err == nil && (I(back) == i || i != i && back != back), "FloatToString", "FloatToString(%v) of a %T = %s", float64(i), i, s)
	}
	c.State(show(i))
}

// direct: every generic function between types of fixed sizes
func direct(c *mc.C, w []*big.Int, fs []float64) {
	n := c.Choose(12)
	if n >= 10 {
		f := mc.Pick(c, fs)
		if n == 10 {
			fromFloat(c, mF32(f))
		} else {
			fromFloat(c, mF64(f))
		}
		return
	}
	b := mc.Pick(c, w)
	if lim := limits[[]string{"int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint"}[n]]; b.Cmp(lim[0]) < 0 || b.Cmp(lim[1]) > 0 {
		c.Prune()
	}
	switch n {
	case 0:
		fromSigned(c, mI8(b.Int64()))
	case 1:
		fromSigned(c, int16(b.Int64()))
	case 2:
		fromSigned(c, int32(b.Int64()))
	case 3:
		fromSigned(c, mI64(b.Int64()))
	case 4:
		fromSigned(c, int(b.Int64()))
	case 5:
		fromUnsigned(c, uint8(b.Uint64()))
	case 6:
		fromUnsigned(c, mU16(b.Uint64()))
	case 7:
		fromUnsigned(c, uint32(b.Uint64()))
	case 8:
		fromUnsigned(c, uint64(b.Uint64()))
	case 9:
		fromUnsigned(c, uint(b.Uint64()))
	}
}

func named(c *mc.C, w []*big.Int, fs []float64, bf []*big.Float, br []*big.Rat, texts []string) {
	switch c.Choose(7) {
	case 0: // int64
		b := mc.Pick(c, w)
		if !b.IsInt64() {
			c.Prune()
		}
		i := b.Int64()
		v := value(i)
		one(c, "IntToInt", "int32", i, v, conv.IntToInt[int64, int32], conv.MustIntToInt[int64, int32])
		one(c, "IntToUint", "uint32", i, v, conv.IntToUint[int64, uint32], conv.MustIntToUint[int64, uint32])
		one(c, "IntToUint", "uint64", i, v, conv.IntToUint[int64, uint64], conv.MustIntToUint[int64, uint64])
		one(c, "IntToFloat", "float64", i, v, conv.IntToFloat[int64, float64], conv.MustIntToFloat[int64, float64])
		one(c, "IntToFloat", "float32", i, v, conv.IntToFloat[int64, float32], conv.MustIntToFloat[int64, float32])
		one(c, "IntToBigInt", "*big.Int", i, v, plain(conv.IntToBigInt[int64]), nil)
		one(c, "IntegerToBigInt", "*big.Int", i, v, plain(conv.IntegerToBigInt[int64]), nil)
		one(c, "IntToBigFloat", "*big.Float", i, v, plain(conv.IntToBigFloat[int64]), nil)
		one(c, "IntToBigRat", "*big.Rat", i, v, plain(conv.IntToBigRat[int64]), nil)
		c.Check(conv.IntToString(i) == b.String(), "IntToString", "IntToString(%d) = %s", i, conv.IntToString(i))
	case 1: // uint64
		b := mc.Pick(c, w)
		if !b.IsUint64() {
			c.Prune()
		}
		i := b.Uint64()
		v := value(i)
		one(c, "UintToInt", "int64", i, v, conv.UintToInt[uint64, int64], conv.MustUintToInt[uint64, int64])
		one(c, "UintToInt", "int32", i, v, conv.UintToInt[uint64, int32], conv.MustUintToInt[uint64, int32])
		one(c, "UintToUint", "uint16", i, v, conv.UintToUint[uint64, uint16], conv.MustUintToUint[uint64, uint16])
		one(c, "IntToFloat", "float64", i, v, conv.IntToFloat[uint64, float64], conv.MustIntToFloat[uint64, float64])
		one(c, "UintToBigInt", "*big.Int", i, v, plain(conv.UintToBigInt[uint64]), nil)
		one(c, "IntegerToBigInt", "*big.Int", i, v, plain(conv.IntegerToBigInt[uint64]), nil)
		one(c, "UintToBigFloat", "*big.Float", i, v, plain(conv.UintToBigFloat[uint64]), nil)
		one(c, "UintToBigRat", "*big.Rat", i, v, plain(conv.UintToBigRat[uint64]), nil)
		c.Check(conv.UintToString(i) == b.String(), "UintToString", "UintToString(%d) = %s", i, conv.UintToString(i))
	case 2: // float64
		i := mc.Pick(c, fs)
		v := value(i)
		one(c, "FloatToInt", "int64", i, v, conv.FloatToInt[float64, int64], conv.MustFloatToInt[float64, int64])
		one(c, "FloatToInt", "int8", i, v, conv.FloatToInt[float64, int8], conv.MustFloatToInt[float64, int8])
		one(c, "FloatToUint", "uint64", i, v, conv.FloatToUint[float64, uint64], conv.MustFloatToUint[float64, uint64])
		one(c, "FloatToUint", "uint16", i, v, conv.FloatToUint[float64, uint16], conv.MustFloatToUint[float64, uint16])
		one(c, "FloatToFloat", "float32", i, v, conv.FloatToFloat[float64, float32], conv.MustFloatToFloat[float64, float32])
		one(c, "FloatToBigInt", "*big.Int", i, v, conv.FloatToBigInt[float64], conv.MustFloatToBigInt[float64])
		one(c, "FloatToBigFloat", "*big.Float", i, v, conv.FloatToBigFloat[float64], conv.MustFloatToBigFloat[float64])
		one(c, "FloatToBigRat", "*big.Rat", i, v, conv.FloatToBigRat[float64], conv.MustFloatToBigRat[float64])
		s := conv.FloatToString(i)
		back, err := strconv.ParseFloat(s, 64)
		c.Check(err == nil && (back == i || i != i && back != back), "FloatToString", "FloatToString(%v) = %s", i, s)
	case 3: // big.Int
		i := new(big.Int).Set(mc.Pick(c, w))
		v := value(i)
		one(c, "BigIntToInt64", "int64", i, v, conv.BigIntToInt64, conv.MustBigIntToInt64)
		one(c, "BigIntToUint64", "uint64", i, v, conv.BigIntToUint64, conv.MustBigIntToUint64)
		one(c, "BigIntToFloat32", "float32", i, v, conv.BigIntToFloat32, conv.MustBigIntToFloat32)
		one(c, "BigIntToFloat64", "float64", i, v, conv.BigIntToFloat64, conv.MustBigIntToFloat64)
		one(c, "BigIntToBigFloat", "*big.Float", i, v, plain(conv.BigIntToBigFloat), nil)
		one(c, "BigIntToBigRat", "*big.Rat", i, v, plain(conv.BigIntToBigRat), nil)
		c.Check(conv.BigIntToString(i) == v.String(), "BigIntToString", "BigIntToString(%v)", i)
	case 4: // big.Float
		i := new(big.Float).Copy(mc.Pick(c, bf))
		v := value(i)
		one(c, "BigFloatToInt64", "int64", i, v, conv.BigFloatToInt64, conv.MustBigFloatToInt64)
		one(c, "BigFloatToUint64", "uint64", i, v, conv.BigFloatToUint64, conv.MustBigFloatToUint64)
		one(c, "BigFloatToFloat32", "float32", i, v, conv.BigFloatToFloat32, conv.MustBigFloatToFloat32)
		one(c, "BigFloatToFloat64", "float64", i, v, conv.BigFloatToFloat64, conv.MustBigFloatToFloat64)
		one(c, "BigFloatToBigInt", "*big.Int", i, v, conv.BigFloatToBigInt, conv.MustBigFloatToBigInt)
		one(c, "BigFloatToBigRat", "*big.Rat", i, v, conv.BigFloatToBigRat, conv.MustBigFloatToBigRat)
		ok, want := expectString(i, conv.BigFloatToString(i))
		c.Check(ok, "BigFloatToString", "BigFloatToString(%s) = %s, expected %s", show(i), conv.BigFloatToString(i), want)
	case 5: // big.Rat
		i := new(big.Rat).Set(mc.Pick(c, br))
		v := value(i)
		one(c, "BigRatToInt64", "int64", i, v, conv.BigRatToInt64, conv.MustBigRatToInt64)
		one(c, "BigRatToUint64", "uint64", i, v, conv.BigRatToUint64, conv.MustBigRatToUint64)
		one(c, "BigRatToFloat32", "float32", i, v, conv.BigRatToFloat32, conv.MustBigRatToFloat32)
		one(c, "BigRatToFloat64", "float64", i, v, conv.BigRatToFloat64, conv.MustBigRatToFloat64)
		one(c, "BigRatToBigInt", "*big.Int", i, v, conv.BigRatToBigInt, conv.MustBigRatToBigInt)
		one(c, "BigRatToBigFloat", "*big.Float", i, v, plain(conv.BigRatToBigFloat), nil)
		c.Check(conv.BigRatToString(i) == i.String(), "BigRatToString", "BigRatToString(%v)", i)
		s := conv.BigRatToNormalizedString(i)
		back, ok := new(big.Rat).SetString(s)
		c.Op("BigRatToNormalizedString(%v) = %s", i, s)
		c.Check(ok && !strings.Contains(s, "/"), "normalized", "BigRatToNormalizedString(%v) = %s is not a number", i, s)
		c.Check(ok && near(i, back, 50) && (!i.IsInt() || s == i.Num().String()), "normalized", "BigRatToNormalizedString(%v) = %s", i, s)
	case 6: // string
		s := mc.Pick(c, texts)
		r, ok := new(big.Rat).SetString(s)
		v := val{r: r, src: "string", exp: strings.ContainsAny(s, "eE")}
		chk := func(name, tgt string, re *regexp.Regexp, got any, err error, pv any) {
			c.Op("%s(%q) = %s, %v", name, s, show(got), err)
			c.Check((asErr(c, pv) == nil) == (err == nil), name, "Must%s(%q) panicked with %v, but the error is %v", name, s, pv, err)
			if !ok || !re.MatchString(s) {
				special := (s == "NaN" && strings.HasPrefix(tgt, "float")) || (strings.HasSuffix(s, "Inf") && strings.Contains(strings.ToLower(tgt), "float") && !strings.Contains(s, " "))
				if x, isRat := got.(*big.Rat); err == nil && isRat && ok && !strings.HasSuffix(name, "FloatStringToBigRat") {
					special = x.Cmp(r) == 0
				}
				c.Check(err != nil || special, name, "%s(%q): expected an error, got %s", name, s, show(got))
				return
			}
			good, want := expect(tgt, v, got, err)
			c.Check(good, name, "%s(%q): expected %s, got %s, %v", name, s, want, show(got), err)
		}
		str(chk, "StringToInt64", "int64", intRe, s, conv.StringToInt64, conv.MustStringToInt64)
		str(chk, "StringToUint64", "uint64", uintRe, s, conv.StringToUint64, conv.MustStringToUint64)
		str(chk, "StringToFloat32", "float32", floatRe, s, conv.StringToFloat32, conv.MustStringToFloat32)
		str(chk, "StringToFloat64", "float64", floatRe, s, conv.StringToFloat64, conv.MustStringToFloat64)
		str(chk, "StringToBigInt", "*big.Int", intRe, s, conv.StringToBigInt, conv.MustStringToBigInt)
		str(chk, "StringToBigFloat", "*big.Float", floatRe, s, conv.StringToBigFloat, conv.MustStringToBigFloat)
		str(chk, "StringToBigRat", "*big.Rat", bigRatRe, s, conv.StringToBigRat, conv.MustStringToBigRat)
		str(chk, "FloatStringToBigRat", "*big.Rat", floatRe, s, conv.FloatStringToBigRat, conv.MustFloatStringToBigRat)
	}
}

var bigRatRe = regexp.MustCompile(floatRe.String() + "|" + ratRe.String())

func str[O any](chk func(name, tgt string, re *regexp.Regexp, got any, err error, pv any), name, tgt string, re *regexp.Regexp, s string, f func(string, *O) error, must func(string, *O)) {
	var o, o2 O
	err := f(s, &o)
	chk(name, tgt, re, o, err, mc.Try(func() { must(s, &o2) }))
	if err == nil {
		chk("Must"+name, tgt, re, o2, nil, nil)
	}
}

// mutate changes a big value in place, in a way that writes into the memory it has
func mutate(x any) {
	switch b := x.(type) {
	case *big.Int:
		for i, bits := 0, b.Bits(); i < len(bits); i++ {
			bits[i] ^= 0x55
		}
	case *big.Float:
		// halving the precision rounds in place
		if !b.IsInf() && b.Sign() != 0 {
			b.Sub(b, new(big.Float).Quo(b, big.NewFloat(3)))
			b.SetPrec(b.Prec()/2 + 1)
			b.Neg(b)
		}
	case *big.Rat:
		for i, bits := 0, b.Num().Bits(); i < len(bits); i++ {
			bits[i] ^= 0x55
		}
		b.Neg(b)
	}
}

func independent(c *mc.C, w []*big.Int, bf []*big.Float, br []*big.Rat) {
	ops := c.Bool()
	pre := c.Choose(3)
	tgt := c.Choose(3)
	switch c.Choose(3) {
	case 0:
		i := new(big.Int).Set(mc.Pick(c, w))
		indepTo(c, i, i, nil, nil, tgt, pre, ops)
	case 1:
		i := new(big.Float).Copy(mc.Pick(c, bf))
		indepTo(c, i, nil, i, nil, tgt, pre, ops)
	case 2:
		i := new(big.Rat).Set(mc.Pick(c, br))
		indepTo(c, i, nil, nil, i, tgt, pre, ops)
	}
}

func indepTo[I interface {
	*big.Int | *big.Float | *big.Rat
}](c *mc.C, i I, si *big.Int, sf *big.Float, sr *big.Rat, tgt, pre int, ops bool) {
	switch tgt {
	case 0:
		var o *big.Int
		if pre == 1 {
			o = new(big.Int).Lsh(big.NewInt(77), 200)
		} else if pre == 2 {
			if o = si; o == nil {
				c.Prune()
			}
		}
		indepAny(c, any(i), o, ops)
	case 1:
		var o *big.Float
		if pre == 1 {
			o = big.NewFloat(77)
		} else if pre == 2 {
			if o = sf; o == nil {
				c.Prune()
			}
		}
		indepAny(c, any(i), o, ops)
	case 2:
		var o *big.Rat
		if pre == 1 {
			o = big.NewRat(77, 78)
		} else if pre == 2 {
			if o = sr; o == nil {
				c.Prune()
			}
		}
		indepAny(c, any(i), o, ops)
	}
}

func indepAny[O interface {
	*big.Int | *big.Float | *big.Rat
	constraint.BigOps[O]
}](c *mc.C, i any, o O, ops bool) {
	switch x := i.(type) {
	case *big.Int:
		indepGo(c, x, o, ops)
	case *big.Float:
		indepGo(c, x, o, ops)
	case *big.Rat:
		indepGo(c, x, o, ops)
	}
}

func indepGo[I interface {
	*big.Int | *big.Float | *big.Rat
}, O interface {
	*big.Int | *big.Float | *big.Rat
	constraint.BigOps[O]
}](c *mc.C, i I, old O, ops bool) {
	var (
		before = show(any(i))
		v0     = value(any(i))
		o      = old
		err    error
	)
	if ops {
		err = conv.ToBigOps(i, &o)
	} else {
		err = conv.To(i, &o)
	}
	c.Op("%s converted to %T = %s, %v", before, o, show(any(o)), err)
	if err != nil {
		return
	}
	ok, want := expect(fmt.Sprintf("%T", o), v0, any(o), nil)
	c.Check(ok, "value", "%s converted to %T: expected %s, got %s", before, o, want, show(any(o)))
	c.Check(show(any(i)) == before, "source", "%s converted to %T: the source became %s", before, o, show(any(i)))
	c.Check(any(i) != any(o), "same", "%s converted to %T gives the same pointer", before, o)
	v := show(any(o))
	mutate(any(i))
	c.Check(show(any(o)) == v, "shared", "%s converted to %T: changing the source changes the result from %s to %s", before, o, v, show(any(o)))
	after := show(any(i))
	mutate(any(o))
	c.Check(show(any(i)) == after, "shared", "%s converted to %T: changing the result changes the source", before, o)
	c.Outcome(v)
	c.State(before + fmt.Sprintf("%T", o))
}

// nilTo converts a nil pointer to a big number in all ways: a nil of the same type is copied, no other number or string stands for it
func nilTo[O constraint.Numeric | string](c *mc.C, i, old any) {
	for way := 0; way < 4; way++ {
		o := old.(O)
		same := goreflect.TypeOf(i) == goreflect.TypeOf(o)
		var err error
		pv := mc.Try(func() {
			switch way {
			case 0:
				switch x := i.(type) {
				case *big.Int:
					err = conv.To(x, &o)
				case *big.Float:
					err = conv.To(x, &o)
				case *big.Rat:
					err = conv.To(x, &o)
				}
			case 1:
				err = conv.AnyTo(i, &o)
			case 2:
				err = conv.ReflectTo(goreflect.ValueOf(i), goreflect.ValueOf(&o))
			case 3:
				switch x := any(&o).(type) {
				case **big.Int:
					err = nilToBig(i, x)
				case **big.Float:
					err = nilToBig(i, x)
				case **big.Rat:
					err = nilToBig(i, x)
				default:
					err = mc.ErrCustom
				}
			}
		})
		what := fmt.Sprintf("a nil %T converted to %T, way %d", i, o, way)
		c.Op("%s: %v, %v, panic %v", what, o, err, pv)
		gotNil := goreflect.ValueOf(&o).Elem().Kind() == goreflect.Pointer && goreflect.ValueOf(o).IsNil()
		c.Check(pv == nil, "nil-panic", "%s: panic %v", what, pv)
		if same && way != 2 {
			c.Check(err == nil && gotNil, "nil-copy", "%s gives %v, %v", what, o, err)
		}
		c.Check(err != nil || gotNil, "nil-number", "%s gives %v", what, o)
	}
}

func nilToBig[O constraint.BigOps[O]](i any, o *O) error {
	switch x := i.(type) {
	case *big.Int:
		return conv.ToBigOps(x, o)
	case *big.Float:
		return conv.ToBigOps(x, o)
	}
	return conv.ToBigOps(i.(*big.Rat), o)
}

func nils(c *mc.C) {
	i := mc.Pick(c, []any{(*big.Int)(nil), (*big.Float)(nil), (*big.Rat)(nil)})
	switch old := mc.Pick(c, []any{3, int8(3), int16(3), int32(3), int64(3), uint(3), uint8(3), uint16(3), uint32(3), uint64(3), float32(3), 3.0, "3",
		big.NewInt(3), big.NewFloat(3), big.NewRat(3, 1), (*big.Int)(nil), (*big.Float)(nil), (*big.Rat)(nil)}).(type) {
	case int:
		nilTo[int](c, i, old)
	case int8:
		nilTo[int8](c, i, old)
	case int16:
		nilTo[int16](c, i, old)
	case int32:
		nilTo[int32](c, i, old)
	case int64:
		nilTo[int64](c, i, old)
	case uint:
		nilTo[uint](c, i, old)
	case uint8:
		nilTo[uint8](c, i, old)
	case uint16:
		nilTo[uint16](c, i, old)
	case uint32:
		nilTo[uint32](c, i, old)
	case uint64:
		nilTo[uint64](c, i, old)
	case float32:
		nilTo[float32](c, i, old)
	case float64:
		nilTo[float64](c, i, old)
	case string:
		nilTo[string](c, i, old)
	case *big.Int:
		nilTo[*big.Int](c, i, old)
	case *big.Float:
		nilTo[*big.Float](c, i, old)
	case *big.Rat:
		nilTo[*big.Rat](c, i, old)
	}
}

func refused(c *mc.C) {
	var (
		s   string
		n   int
		err error
		pv  any
	)
	switch k := c.Choose(9 + 14); k {
	default:
		type point struct{ X int }
		to := []any{&n, &n, (*int)(nil), n, big.Int{}, big.NewInt(1), big.NewFloat(1), big.NewRat(1, 1), &point{}, new(any), new([]int), new(bool), new(map[string]int), "a"}
		from := []any{nil, point{}, 1, 1, 1, 1, "1", "1", 1, 1, "1", 1, 1, 1}
		pv = mc.Try(func() {
			i, o := goreflect.ValueOf(from[k-9]), goreflect.ValueOf(to[k-9])
			if c.Bool() {
				err = conv.ReflectTo(i, o)
				return
			}
			if mp := mc.Try(func() { conv.MustReflectTo(i, o) }); mp != nil {
				if _, isa := mp.(runtime.Error); isa {
					panic(mp)
				}
				err = mp.(error)
			}
		})
	case 0:
		pv = mc.Try(func() { err = conv.To(1, (*int)(nil)) })
	case 1:
		pv = mc.Try(func() { err = conv.To("1", (**big.Int)(nil)) })
	case 2:
		pv = mc.Try(func() { err = conv.ToBigOps(1, (**big.Rat)(nil)) })
	case 3:
		pv = mc.Try(func() { err = conv.AnyTo(nil, &n) })
	case 4:
		pv = mc.Try(func() { err = conv.AnyTo(struct{}{}, &n) })
	case 5:
		pv = mc.Try(func() { err = conv.AnyTo([]int{1}, &s) })
	case 6:
		pv = mc.Try(func() { err = conv.AnyTo(&n, &s) })
	case 7:
		pv = mc.Try(func() { err = conv.AnyTo(true, &n) })
	case 8:
		pv = mc.Try(func() { err = conv.AnyTo(1i, &n) })
	}
	c.Op("err %v panic %v", err, pv)
	c.Check(pv == nil && err != nil, "refused", "expected an error, got %v, panic %v", err, pv)
}
