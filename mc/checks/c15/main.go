// C15: JSON values and path searches
package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/bantling/micro/encoding/json"
	"verifmc/jsn"
	"verifmc/mc"
)

type (
	mystr string
	mynum int32
)

// leaf is a Go value with the canonical JSON it stands for ("" = an error), and what ToAny returns for it
type leaf struct {
	v     any
	canon string
	any   any
}

func num(v any, text string) leaf { return leaf{v, jsn.Number(text), nil} }

// what a type says of its values has nothing to do with the JSON they stand for
type (
	label string
	text  string
	mark  uint8
	part  float64
)

func (label) String() string              { return "other" }
func (text) MarshalText() ([]byte, error) { return []byte("other"), nil }
func (mark) MarshalJSON() ([]byte, error) { return []byte("8"), nil }
func (part) Error() string                { return "0.75" }

var leaves = []leaf{
	{"s", jsn.String("s"), "s"},
	{1, jsn.Number("1"), nil},
	{nil, "null", nil},
	{true, "true", true},
	{json.NumberString("-1.5e3"), jsn.Number("-1500"), nil},
	{make(chan int), "", nil},
}

func rat(s string) *big.Rat { r, _ := new(big.Rat).SetString(s); return r }
func flt(s string) *big.Float {
	f, _, err := big.ParseFloat(s, 10, 200, big.ToNearestEven)
	if err != nil {
		panic(err)
	}
	return f
}
func bint(s string) *big.Int { i, _ := new(big.Int).SetString(s, 10); return i }

var scalars = []leaf{
	{"", jsn.String(""), ""}, {"null", jsn.String("null"), "null"}, {"12", jsn.String("12"), "12"}, {"é\"\x00", jsn.String("é\"\x00"), "é\"\x00"},
	{mystr("m"), jsn.String("m"), "m"},
	{label("l"), jsn.String("l"), "l"}, {text("t"), jsn.String("t"), "t"}, num(time.Month(3), "3"), num(time.Duration(-1500), "-1500"), num(mark(7), "7"), num(part(0.5), "0.5"),
	{true, "true", true}, {false, "false", false}, {nil, "null", nil},
	{(*big.Int)(nil), "null", nil}, {(*big.Float)(nil), "null", nil}, {(*big.Rat)(nil), "null", nil},
	num(int(-7), "-7"), num(int8(-128), "-128"), num(int16(-32768), "-32768"), num(int32(math.MinInt32), "-2147483648"), num(int64(math.MinInt64), "-9223372036854775808"),
	num(uint(7), "7"), num(uint8(255), "255"), num(uint16(65535), "65535"), num(uint32(math.MaxUint32), "4294967295"), num(uint64(math.MaxUint64), "18446744073709551615"),
	num(mynum(12), "12"), num(float32(-2.5), "-2.5"), num(float32(0.1), "0.1"), num(0.1, "0.1"), num(1e21, "1e21"), num(1e-9, "1e-9"), num(5e-324, "5e-324"), num(math.MaxFloat64, "1.7976931348623157e308"), num(-0.0, "0"),
	num(bint("123456789012345678901234567890"), "123456789012345678901234567890"), num(flt("12345678901234567890.125"), "12345678901234567890.125"), num(flt("1e40"), "1e40"),
	num(rat("1/4"), "0.25"), num(rat("-3/1"), "-3"), num(rat("1/10"), "0.1"), num(rat("12345678901/100000"), "123456.78901"),
	num(json.NumberString("1E5"), "100000"), num(json.NumberString("0"), "0"), num(json.NumberString("-0.10"), "-0.1"),
	{math.Inf(1), "", nil}, {math.Inf(-1), "", nil}, {math.NaN(), "", nil}, {float32(math.Inf(1)), "", nil}, {new(big.Float).SetInf(true), "", nil},
	{json.NumberString(""), "", nil}, {json.NumberString("x1"), "", nil}, {json.NumberString("1/3"), "", nil}, {json.NumberString("+1"), "", nil}, {json.NumberString(" 1"), "", nil},
	{make(chan int), "", nil}, {func() {}, "", nil}, {struct{ A int }{1}, "", nil}, {map[int]any{}, "", nil}, {[]int{1}, "", nil}, {[1]any{}, "", nil},
}

// gen builds a Go value, the JSON it stands for, whether it cannot be converted, and what ToAny must return
func gen(c *mc.C, budget *int, depth int, ls []leaf) (v any, canon string, bad bool, back any) {
	*budget--
	k := 0
	if depth > 0 {
		k = c.Choose(3)
	}
	switch k {
	case 1:
		l, bl := []any{}, []any{}
		var cl []string
		for *budget > 0 && c.Bool() {
			e, ec, b, eb := gen(c, budget, depth-1, ls)
			l, cl, bl, bad = append(l, e), append(cl, ec), append(bl, eb), bad || b
		}
		return l, jsn.Array(cl), bad, bl
	case 2:
		m, cm, bm := map[string]any{}, map[string]string{}, map[string]any{}
		for *budget > 0 && len(m) < 3 && c.Bool() {
			k := []string{"k", "", "l.[0]"}[len(m)]
			e, ec, b, eb := gen(c, budget, depth-1, ls)
			m[k], cm[k], bm[k], bad = e, ec, eb, bad || b
		}
		return m, jsn.Object(cm), bad, bm
	}
	x := mc.Pick(c, ls)
	back = x.any
	if strings.HasPrefix(x.canon, "#") {
		back = json.NumberString(x.canon)
	}
	return x.v, x.canon, x.canon == "", back
}

// norm makes the numbers in what ToAny returns comparable
func norm(v any) any {
	switch x := v.(type) {
	case json.NumberString:
		return json.NumberString(jsn.Number(string(x)))
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = norm(e)
		}
		return m
	case []any:
		if x == nil {
			return x // is not an empty list
		}
		l := []any{}
		for _, e := range x {
			l = append(l, norm(e))
		}
		return l
	}
	return v
}

func toValue(v any) (json.Value, error) {
	switch x := v.(type) {
	case map[string]any:
		v, err := json.ToValue(x)
		if m, merr := json.MapToValue(x); (err == nil) != (merr == nil) || err == nil && jsn.Value(m) != jsn.Value(v) {
			return m, fmt.Errorf("MapToValue and ToValue differ: %v, %v", err, merr)
		}
		return v, err
	case []any:
		return json.ToValue(x)
	}
	// anything goes as an element
	res, err := json.SliceToValue([]any{v})
	if err != nil {
		return json.Value{}, err
	}
	return res.AsSlice()[0], nil
}

// accessors: which succeed for which type
func accessors(c *mc.C, v json.Value, typ json.Type, what string) {
	p := func(f func()) bool { return mc.Try(f) != nil }
	for _, a := range []struct {
		name string
		bad  bool
		ok   bool
	}{
		{"AsMap", p(func() { v.AsMap() }), typ == json.Object},
		{"AsSlice", p(func() { v.AsSlice() }), typ == json.Array},
		{"AsString", p(func() { v.AsString() }), typ == json.String || typ == json.Number || typ == json.Boolean},
		{"AsNumber", p(func() { v.AsNumber() }), typ == json.Number},
		{"AsBool", p(func() { v.AsBool() }), typ == json.Boolean},
		{"ToMap", p(func() { v.ToMap() }), typ == json.Object},
		{"ToSlice", p(func() { v.ToSlice() }), typ == json.Array},
	} {
		c.Check(a.bad != a.ok, "accessor", "%s: %s of a value of type %v: panics: %v", what, a.name, typ, a.bad)
	}
	c.Check(v.IsNull() == (typ == json.Null), "accessor", "%s: IsNull is %v", what, v.IsNull())
	c.Check(v.IsDocument() == (typ == json.Object || typ == json.Array), "accessor", "%s: IsDocument is %v", what, v.IsDocument())
	c.Ops(9)
}

func typeOf(canon string) json.Type {
	switch canon[0] {
	case '{':
		return json.Object
	case '[':
		return json.Array
	case '"':
		return json.String
	case '#':
		return json.Number
	case 'n':
		return json.Null
	}
	return json.Boolean
}

func judge(c *mc.C, v any, canon string, bad bool, back any) {
	jv, err := toValue(v)
	c.Op("%#v -> %s %v", v, jsn.Value(jv), err)
	if bad {
		c.Check(err != nil && jv.Type() == json.Invalid, "accepted", "%#v cannot be JSON, got %s, %v", v, jsn.Value(jv), err)
		c.Outcome("error")
		return
	}
	c.Check(err == nil, "rejected", "%#v: %v", v, err)
	c.Check(jsn.Value(jv) == canon, "value", "%#v: expected %s, got %s", v, canon, jsn.Value(jv))
	c.Check(jv.Type() == typeOf(canon), "type", "%#v: type %v", v, jv.Type())
	accessors(c, jv, jv.Type(), canon)
	got := norm(jv.ToAny())
	c.Check(reflect.DeepEqual(got, norm2(back)), "to-any", "%s: ToAny returned %#v", canon, got)
	switch jv.Type() {
	case json.Object:
		c.Check(reflect.DeepEqual(norm(jv.ToMap()), norm2(back)), "to-map", "%s: ToMap returned %#v", canon, jv.ToMap())
	case json.Array:
		c.Check(reflect.DeepEqual(norm(jv.ToSlice()), norm2(back)), "to-slice", "%s: ToSlice returned %#v", canon, jv.ToSlice())
	case json.String:
		c.Check(jsn.String(jv.AsString()) == canon, "as-string", "%s: AsString returned %q", canon, jv.AsString())
	case json.Number:
		c.Check(jsn.Number(jv.AsString()) == canon, "as-string", "%s: AsString returned %q", canon, jv.AsString())
	case json.Boolean:
		c.Check(jv.AsString() == canon && fmt.Sprint(jv.AsBool()) == canon, "as-string", "%s: AsString returned %q", canon, jv.AsString())
	}
	c.State(canon)
	c.Outcome(canon)
}

// norm2: expected numbers are in canonical notation already
func norm2(v any) any { return v }

// scramble changes everything that can be changed in a Go value
func scramble(v any) {
	switch x := v.(type) {
	case map[string]any:
		for _, e := range x {
			scramble(e)
		}
		for k := range x {
			x[k] = "scrambled"
		}
		x["new"] = "scrambled"
	case []any:
		for i, e := range x {
			scramble(e)
			x[i] = "scrambled"
		}
	case *big.Int:
		if x != nil {
			x.SetInt64(99)
		}
	}
}

// path is the reference: splits a path into keys (strings) and indexes (*big.Int), ok = false if it is not a path
func path(s string) (parts []any, ok bool) {
	if s == "" {
		return nil, false
	}
	for len(s) > 0 {
		switch s[0] {
		case '.':
			i := strings.IndexAny(s[1:], ".[]")
			if i < 0 {
				i = len(s) - 1
			}
			if i == 0 {
				return nil, false
			}
			parts = append(parts, s[1:i+1])
			s = s[i+1:]
		case '[':
			i := strings.IndexByte(s, ']')
			if i < 2 {
				return nil, false
			}
			for _, b := range s[1:i] {
				if b < '0' || b > '9' {
					return nil, false
				}
			}
			parts = append(parts, bint(s[1:i]))
			s = s[i+1:]
		default:
			return nil, false
		}
	}
	return parts, true
}

func walk(v any, parts []any) (any, bool) {
	for _, p := range parts {
		switch k := p.(type) {
		case string:
			m, ok := v.(map[string]any)
			if !ok {
				return nil, false
			}
			if v, ok = m[k]; !ok {
				return nil, false
			}
		case *big.Int:
			l, ok := v.([]any)
			if !ok || k.Cmp(big.NewInt(int64(len(l)))) >= 0 {
				return nil, false
			}
			v = l[k.Int64()]
		}
	}
	return v, true
}

func main() {
	mc.Main("C15", "model_checking", []string{"a number of a type with a fixed precision stands for the shortest decimal that is read as it"}, func(r *mc.Run) {
		r.Explore("scalars", fmt.Sprintf("%d scalars of all types and what is no JSON value, alone, in arrays and in objects, up to 2 levels deep", len(scalars)), -1, func(c *mc.C) {
			b := 1
			v, canon, bad, back := gen(c, &b, 0, scalars)
			for d := c.Choose(3); d > 0; d-- {
				if c.Bool() {
					v, canon, back = []any{1, v, "x"}, jsn.Array([]string{"#1", canon, jsn.String("x")}), []any{json.NumberString("#1"), back, "x"}
				} else {
					v, canon, back = map[string]any{"a": v, "b": 1}, jsn.Object(map[string]string{"a": canon, "b": "#1"}), map[string]any{"a": back, "b": json.NumberString("#1")}
				}
			}
			judge(c, v, canon, bad, back)
		})
		r.Explore("generic", "ToValue, MustToValue, NumberToValue, MustNumberToValue of every type in their constraints", -1, func(c *mc.C) {
			var v json.Value
			var err error
			var want string
			must := c.Bool()
			switch c.Choose(23) {
			case 19:
				v, want = json.BoolToValue(true), `true`
			case 20:
				v, want = json.BoolToValue(false), `false`
			case 21:
				v, err = json.MapToValue(map[string]json.Value{"a": json.TrueValue})
				want = `{"a":true,}`
			case 22:
				v, err = json.SliceToValue([]json.Value{json.NullValue})
				want = `[null]`
			case 0:
				v, err, want = one(must, map[string]any{"a": 1}, `{"a":#1,}`)
			case 1:
				v, err, want = one(must, map[string]json.Value{"a": json.NullValue}, `{"a":null,}`)
			case 2:
				v, err, want = one(must, []any{true}, `[true]`)
			case 3:
				v, err, want = one(must, []json.Value{json.FalseValue}, `[false]`)
			case 4:
				v, err, want = one(must, "x", `"x"`)
			case 5:
				v, err, want = one(must, json.NumberString("1"), `#1`)
			case 6:
				v, err, want = one(must, true, `true`)
			case 7:
				v, err, want = number(c, must, int8(math.MinInt8))
			case 8:
				v, err, want = number(c, must, int16(math.MinInt16))
			case 9:
				v, err, want = number(c, must, int32(math.MinInt32))
			case 10:
				v, err, want = number(c, must, int64(math.MinInt64))
			case 11:
				v, err, want = number(c, must, uint8(math.MaxUint8))
			case 12:
				v, err, want = number(c, must, uint16(math.MaxUint16))
			case 13:
				v, err, want = number(c, must, uint32(math.MaxUint32))
			case 14:
				v, err, want = number(c, must, uint64(math.MaxUint64))
			case 15:
				v, err, want = number(c, must, uint(math.MaxUint))
			case 16:
				v, err, want = number(c, must, math.MinInt)
			case 17:
				v, err, want = number(c, must, float32(0.3))
			case 18:
				v, err, want = number(c, must, 0.3)
			}
			c.Op("%s %v", jsn.Value(v), err)
			c.Check(err == nil && jsn.Value(v) == want, "value", "expected %s, got %s, %v", want, jsn.Value(v), err)
			accessors(c, v, typeOf(want), want)
		})
		nodes := r.Budget(5, 6)
		r.Explore("trees", fmt.Sprintf("all maps, slices and scalars of up to %d nodes and 3 levels, one kind of which is no JSON value", nodes), -1, func(c *mc.C) {
			b := nodes
			v, canon, bad, back := gen(c, &b, 3, leaves)
			judge(c, v, canon, bad, back)
		})
		r.Explore("independence", "all trees of up to 4 nodes: changing the Go value a value was made of, or one that was made of it, does not change it", -1, func(c *mc.C) {
			b := 4
			v, canon, bad, back := gen(c, &b, 3, append([]leaf{{bint("5"), "#5", nil}}, leaves[:4]...))
			if bad {
				c.Prune()
			}
			jv, err := toValue(v)
			c.Check(err == nil, "rejected", "%#v: %v", v, err)
			scramble(v)
			c.Check(jsn.Value(jv) == canon, "shared-source", "%s became %s when the Go value it was made of changed", canon, jsn.Value(jv))
			a := jv.ToAny()
			scramble(a)
			c.Check(jsn.Value(jv) == canon, "shared-result", "%s became %s when the result of ToAny changed", canon, jsn.Value(jv))
			c.Check(reflect.DeepEqual(norm(jv.ToAny()), back), "shared-result", "%s: ToAny returns %#v", canon, jv.ToAny())
			c.Op("%s", canon)
			c.State(canon)
		})
		r.Explore("invalid", "the invalid value has no type and no content", -1, func(c *mc.C) {
			var v json.Value
			c.Op("zero value")
			c.Check(v.Type() == json.Invalid && v.ToAny() == nil, "type", "type %v", v.Type())
			accessors(c, v, json.Invalid, "zero value")
		})
		n := r.Budget(6, 7)
		r.Explore("number-strings", fmt.Sprintf("all strings of up to %d of - + . e E 0 1 9 and a space or newline at either end: exactly the numbers of JSON are numbers, and they stay as they are", n), -1, func(c *mc.C) {
			s := ""
			for i := c.Choose(n + 1); i > 0; i-- {
				s += mc.Pick(c, []string{"0", "1", "9", "-", "+", ".", "e", "E"})
			}
			switch c.Choose(4) {
			case 1:
				s = " " + s
			case 2:
				s += "\n"
			case 3:
				s += "x"
			}
			v, err := json.NumberToValue(json.NumberString(s))
			c.Op("%q %v", s, err)
			w := jsn.Number(s)
			c.Outcome(fmt.Sprint(w, err != nil))
			if strings.HasPrefix(w, "<") {
				c.Check(err != nil, "accepted", "%q is not a number, got %s", s, jsn.Value(v))
				c.Check(v.Type() == json.Invalid, "value-with-error", "%q: got %s, %v", s, jsn.Value(v), err)
				c.Check(mc.Try(func() { json.MustNumberToValue(json.NumberString(s)) }) != nil, "accepted", "MustNumberToValue(%q) does not panic", s)
				return
			}
			c.State(w)
			c.Check(err == nil && jsn.Value(v) == w, "value", "%q: expected %s, got %s, %v", s, w, jsn.Value(v), err)
		})

		doc := map[string]any{
			"a": []any{[]any{1, map[string]any{"a": "x", "b": nil}}, "s", true, map[string]any{}},
			"b": map[string]any{"a": []any{}, "1": "one", "a b": []any{5}},
			"0": "zero",
		}
		docs := []any{doc, doc["a"], doc["b"], "scalar", nil}
		alpha := []string{".", "[", "]", "a", "b", "0", "1", "-"}
		n = r.Budget(7, 8)
		r.Explore("path-syntax", fmt.Sprintf("all strings of up to %d of %s: a path or not, and what it finds in five documents", n, strings.Join(alpha, " ")), -1, func(c *mc.C) {
			p := ""
			for i := c.Choose(n + 1); i > 0; i-- {
				p += mc.Pick(c, alpha)
			}
			search(c, p, docs)
		})
		parts := []string{".a", ".b", ".0", ".1", "[0]", "[1]", "[2]", "[3]", "[4]", "[00]", "[01]", "[09]", "[99999999999999999999]", "[9223372036854775807]", "[18446744073709551616]", ".a b", ".-1", ".é", ". ", ".\n"}
		n = r.Budget(4, 5)
		r.Explore("paths", fmt.Sprintf("all paths of up to %d of %d keys and indexes in five documents", n, len(parts)), -1, func(c *mc.C) {
			p := ""
			for i := 1 + c.Choose(n); i > 0; i-- {
				p += mc.Pick(c, parts)
			}
			search(c, p, docs)
		})
		r.Explore("indexes", "indexes next to the powers of two up to 2^130, alone, after a key, after an index, before a key, in five documents", -1, func(c *mc.C) {
			n := new(big.Int).Lsh(big.NewInt(1), uint(c.Choose(131)))
			n.Add(n, big.NewInt(int64(c.Choose(6)-2)))
			if n.Sign() < 0 {
				c.Prune()
			}
			search(c, fmt.Sprintf(mc.Pick(c, []string{"[%s]", ".a[%s]", ".b[%s]", "[0][%s]", "[1][%s]", "[%s].a", "[%s][0]"}), n), docs)
		})
		top := r.Budget(65536, 262144)
		r.Explore("long", fmt.Sprintf("strings, arrays, objects, keys, numbers of up to %d (around the powers of two) letters, elements, members, digits, nesting of up to 512, and paths to what is in them", top), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(top))
			if n == 0 {
				c.Prune()
			}
			at := mc.Pick(c, []int{0, n / 2, n - 1})
			has := func(v any, canon string, back any, p string, want string) {
				jv, err := toValue(v)
				c.Check(err == nil && jsn.Value(jv) == canon, "value", "%s of %d, %d: the value is %.300s, %v", p, n, at, jsn.Value(jv), err)
				c.Check(reflect.DeepEqual(norm(jv.ToAny()), back), "to-any", "%s of %d, %d: ToAny returned %.300s", p, n, at, fmt.Sprintf("%#v", jv.ToAny()))
				fn, err := json.ParsePath(p)
				c.Check(err == nil && fn != nil, "rejected", "%q is a path: %v", p, err)
				got, err := fn(jv)
				if want == "" {
					c.Check(err != nil && got.Type() == json.Invalid, "found", "%q does not exist, but %s was found, %v", p, jsn.Value(got), err)
				} else {
					c.Check(err == nil && jsn.Value(got) == want, "search", "%.300q: expected %s, got %s, %v", p, want, jsn.Value(got), err)
				}
				c.Ops(3)
			}
			k := c.Choose(9)
			c.Op("case %d of %d, %d", k, n, at)
			switch k {
			case 0: // elements
				var l, bl []any
				var cl []string
				for i := 0; i < n; i++ {
					s := fmt.Sprint(i)
					l, cl, bl = append(l, i), append(cl, jsn.Number(s)), append(bl, json.NumberString(jsn.Number(s)))
				}
				has(l, jsn.Array(cl), bl, fmt.Sprintf("[%d]", at), cl[at])
				has(l, jsn.Array(cl), bl, fmt.Sprintf("[%s%d]", strings.Repeat("0", at%40), at), cl[at])
				has(l, jsn.Array(cl), bl, fmt.Sprintf("[%d]", n), "")
			case 1: // members
				m, bm, cm := map[string]any{}, map[string]any{}, map[string]string{}
				for i := 0; i < n; i++ {
					s := fmt.Sprint("k", i)
					m[s], bm[s], cm[s] = s, s, jsn.String(s)
				}
				has(m, jsn.Object(cm), bm, fmt.Sprint(".k", at), jsn.String(fmt.Sprint("k", at)))
				has(m, jsn.Object(cm), bm, fmt.Sprint(".k", n), "")
			case 2: // letters
				s := strings.Repeat("a", at) + "é" + strings.Repeat("b", n-at)
				has([]any{s}, jsn.Array([]string{jsn.String(s)}), []any{s}, "[0]", jsn.String(s))
			case 3: // letters of a key
				s := strings.Repeat("a", at) + "é" + strings.Repeat("b", n-at)
				m := map[string]any{s: "here", s + "b": "there", s[:at]: "elsewhere"}
				has(m, jsn.Object(map[string]string{s: jsn.String("here"), s + "b": jsn.String("there"), s[:at]: jsn.String("elsewhere")}), m, "."+s, jsn.String("here"))
			case 4: // levels of arrays
				n = min(n, 512)
				v, canon, p := any("x"), jsn.String("x"), ""
				for i := 0; i < n; i++ {
					v, canon, p = []any{v}, jsn.Array([]string{canon}), p+"[0]"
				}
				has(v, canon, v, p, jsn.String("x"))
				has(v, canon, v, p+"[0]", "")
			case 5: // levels of objects
				n = min(n, 512)
				v, canon, p := any("x"), jsn.String("x"), ""
				for i := 0; i < n; i++ {
					s := fmt.Sprint("k", i%7)
					v, canon, p = map[string]any{s: v}, jsn.Object(map[string]string{s: canon}), "."+s+p
				}
				has(v, canon, v, p, jsn.String("x"))
				has(v, canon, v, p+".k0", "")
			case 6, 7, 8: // digits
				s := strings.Repeat("1", n)
				switch k {
				case 7:
					s = "-0." + strings.Repeat("0", at) + s + "e1"
				case 8:
					s = s[:at] + "3." + s[at:] + "E-12"
				}
				num := jsn.Number(s)
				has([]any{json.NumberString(s)}, jsn.Array([]string{num}), []any{json.NumberString(num)}, "[0]", num)
				if k == 6 {
					i := bint(s)
					has([]any{i}, jsn.Array([]string{num}), []any{json.NumberString(num)}, "[0]", num)
				}
			}
			c.Outcome(fmt.Sprint(k, n))
			c.State(fmt.Sprint(k, n, at))
		})
	})
}

func search(c *mc.C, p string, docs []any) {
	want, ok := path(p)
	fn, err := json.ParsePath(p)
	c.Op("path %q: %v", p, err)
	if !ok {
		c.Check(err != nil && fn == nil, "accepted", "%q is not a path, but there is no error", p)
		c.Outcome("not a path")
		return
	}
	if err != nil {
		// an index that is no int cannot be found in any array
		for _, w := range want {
			if i, isa := w.(*big.Int); isa && !i.IsInt64() {
				c.Outcome("huge")
				return
			}
		}
		c.Fail("rejected", "%q is a path: %v", p, err)
	}
	for _, d := range docs {
		jv, err := toValue(d)
		if err != nil {
			c.Fail("document", "%v is refused: %v", d, err)
		}
		w, found := walk(d, want)
		for _, jv := range []json.Value{jv, roomy(jv)} {
			searchIn(c, p, fn, jv, w, found)
		}
	}
}

// roomy is the same value, the arrays in which are made of slices that have room for more, in which there is something
func roomy(v json.Value) json.Value {
	switch v.Type() {
	case json.Object:
		m := map[string]json.Value{}
		for k, e := range v.AsMap() {
			m[k] = roomy(e)
		}
		return json.MustToValue(m)
	case json.Array:
		var l []json.Value
		for _, e := range v.AsSlice() {
			l = append(l, roomy(e))
		}
		n := len(l)
		return json.MustToValue(append(l, json.TrueValue, v, v)[:n])
	}
	return v
}

func searchIn(c *mc.C, p string, fn func(json.Value) (json.Value, error), jv json.Value, w any, found bool) {
	before := jsn.Value(jv)
	got, err := fn(jv)
	c.Ops(1)
	{
		c.Check(jsn.Value(jv) == before, "changed", "searching %q changed the document %s to %s", p, before, jsn.Value(jv))
		if !found {
			c.Check(err != nil, "found", "%q does not exist in %s, but %s was found", p, before, jsn.Value(got))
			c.Check(got.Type() == json.Invalid, "value-with-error", "%q in %s: %s along with %v", p, before, jsn.Value(got), err)
			c.Outcome("none")
			return
		}
		wv, _ := toValue(w)
		c.Check(err == nil && jsn.Value(got) == jsn.Value(wv), "search", "%q in %s: expected %s, got %s, %v", p, before, jsn.Value(wv), jsn.Value(got), err)
		c.Outcome(jsn.Value(wv))
		c.State(p)
	}
}

func one[T map[string]any | map[string]json.Value | []any | []json.Value | string | json.NumberString | bool](must bool, v T, w string) (json.Value, error, string) {
	if must {
		return json.MustToValue(v), nil, w
	}
	jv, err := json.ToValue(v)
	return jv, err, w
}

func number[T int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | float32 | float64](c *mc.C, must bool, v T) (jv json.Value, err error, w string) {
	w = jsn.Number(fmt.Sprint(v))
	if f, isa := any(v).(float64); isa {
		w = jsn.Number(strconv.FormatFloat(f, 'g', -1, 64))
	}
	if c.Bool() {
		if must {
			return json.MustToValue(v), nil, w
		}
		jv, err = json.ToValue(v)
		return
	}
	if must {
		return json.MustNumberToValue(v), nil, w
	}
	jv, err = json.NumberToValue(v)
	return
}
