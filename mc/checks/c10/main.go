// C10: arithmetic of floats and big values, ordering, and ranges
package main

import (
	"fmt"
	gomath "math"
	"math/big"
	"math/cmplx"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/math"
	"verifmc/mc"
)

type (
	mF64 float64
	mF32 float32
	mI   int
	mStr string
)

func rounded(de, dv *big.Int) *big.Int {
	n, d := new(big.Int).Abs(de), new(big.Int).Abs(dv)
	n.Lsh(n, 1)
	n.Add(n, d)
	d.Lsh(d, 1)
	q := n.Quo(n, d)
	if de.Sign() != dv.Sign() {
		q.Neg(q)
	}
	return q
}

func bigInts() (res []*big.Int) {
	for _, s := range []string{"0", "1", "2", "3", "4", "5", "7", "10", "11", "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103231", "9223372036854775807",
		"340282366920938463463374607431768211456", "340282366920938463463374607431768211455", "170141183460469231731687303715884105728", "100000000000000000000000000000000000000000000000001"} {
		b, _ := new(big.Int).SetString(s, 10)
		res = append(res, b)
		if b.Sign() != 0 {
			res = append(res, new(big.Int).Neg(b))
		}
	}
	return
}

func bigFloats() (res []*big.Float) {
	for _, prec := range []uint{24, 53, 100} {
		for _, s := range []string{"0", "-0", "1", "-1", "3", "-7", "0.1", "1e30", "-1e-30", "Inf", "-Inf"} {
			f, _, err := big.ParseFloat(s, 10, prec, big.ToNearestEven)
			if err != nil {
				panic(err)
			}
			res = append(res, f)
		}
	}
	return
}

func bigRats() (res []*big.Rat) {
	for _, s := range []string{"0", "1", "-1", "1/2", "-1/2", "1/3", "-7/3", "18446744073709551617/3", "3/18446744073709551617"} {
		r, _ := new(big.Rat).SetString(s)
		res = append(res, r)
	}
	return
}

// alias: what the quotient is before the division
const (
	aNil = iota
	aOther
	aDividend
	aDivisor
	aN
)

func quot[T any](alias int, a, b, other T) T {
	var z T
	switch alias {
	case aNil:
		return z
	case aOther:
		return other
	case aDividend:
		return a
	}
	return b
}

// fresh checks that a quotient that had no variable is neither an operand nor another quotient
func fresh[T interface {
	constraint.BigOps[T]
	constraint.Numeric
	comparable
}](c *mc.C, a, b, q T) {
	var q2, q3 T
	e2, e3 := math.Div(a, b, &q2), math.DivBigOps(a, b, &q3)
	c.Ops(2)
	c.Check(e2 == nil && e3 == nil && q2.Cmp(q) == 0 && q3.Cmp(q) == 0, "Div", "Div(%v, %v) is %v, then %v (%v), then %v (%v)", a, b, q, q2, e2, q3, e3)
	c.Check(q != a && q != b && q2 != a && q2 != b && q3 != a && q3 != b, "shared", "Div(%v, %v): the quotient is an operand", a, b)
	c.Check(q != q2 && q != q3 && q2 != q3, "shared", "Div(%v, %v): two quotients are the same object", a, b)
}

// itself divides a by a
func itself[T interface {
	constraint.BigOps[T]
	constraint.Numeric
}](ops bool, a T, q *T) error {
	if ops {
		return math.DivBigOps(a, a, q)
	}
	return math.Div(a, a, q)
}

func sameFloat(a, b float64) bool {
	return a == b && gomath.Signbit(a) == gomath.Signbit(b) || a != a && b != b
}

var floats = []float64{0, gomath.Copysign(0, -1), 1, -1, 0.5, 3, -7, 0.1, 1e-300, 1e300, -1e300, gomath.MaxFloat64, gomath.SmallestNonzeroFloat64, 1e30, gomath.MaxFloat32, gomath.Inf(1), gomath.Inf(-1), gomath.NaN()}

func floatOps[T constraint.Float](c *mc.C, f32 bool) {
	a, b := T(mc.Pick(c, floats)), T(mc.Pick(c, floats))
	q := T(5)
	err := math.Div(a, b, &q)
	c.Op("Div(%T %v, %v) = %v, %v", a, a, b, q, err)
	want := float64(a) / float64(b)
	if f32 {
		want = float64(float32(a) / float32(b))
	}
	c.Check(err == nil && sameFloat(float64(q), want), "Div", "Div(%T %v, %v) = %v, %v", a, a, b, q, err)
	v := a
	err = math.Abs(&v)
	c.Op("Abs(%T %v) = %v, %v", a, a, v, err)
	c.Check(err == nil && sameFloat(float64(v), gomath.Abs(float64(a))), "Abs", "Abs(%T %v) = %v, %v", a, a, v, err)
	c.Outcome(fmt.Sprint(want))
	c.State(fmt.Sprintf("%T %v %v", a, a, b))
}

func ordered[T constraint.Ordered](c *mc.C, vals []T) {
	// vals are ascending
	i, j := c.Choose(len(vals)), c.Choose(len(vals))
	want := 0
	if i < j {
		want = -1
	} else if i > j {
		want = 1
	}
	lo, hi := vals[i], vals[j]
	if i > j {
		lo, hi = hi, lo
	}
	a, b := vals[i], vals[j]
	got, mn, mx := math.CmpOrdered(a, b), math.MinOrdered(a, b), math.MaxOrdered(a, b)
	c.Op("%T %v, %v: cmp %d min %v max %v", a, a, b, got, mn, mx)
	c.Check(got == want, "CmpOrdered", "CmpOrdered(%T %v, %v) = %d", a, a, b, got)
	c.Check(mn == lo, "MinOrdered", "MinOrdered(%T %v, %v) = %v", a, a, b, mn)
	c.Check(mx == hi, "MaxOrdered", "MaxOrdered(%T %v, %v) = %v", a, a, b, mx)
	c.Outcome(fmt.Sprint(got, mn, mx))
	c.State(fmt.Sprintf("%T%v %v", a, a, b))
}

func complexes[T constraint.Complex](c *mc.C) {
	vals := []T{0, 1, -1, 1i, -1i, 3 + 4i, -5, 5i, 4 - 3i, 1 + 1i, 2, 5.5}
	big, small := 1e300, 1e-300
	if _, isa := any(vals).([]complex64); isa {
		big, small = 1e37, 1e-37
	}
	for _, f := range []float64{big, small} {
		// their squares are out of range
		for _, v := range []complex128{complex(f, 0), complex(0, -f), complex(2*f, 0), complex(-3*f, 4*f), complex(f, f), complex(3*f, 1)} {
			vals = append(vals, T(v))
		}
	}
	a, b := mc.Pick(c, vals), mc.Pick(c, vals)
	ma, mb := cmplx.Abs(complex128(a)), cmplx.Abs(complex128(b))
	want := 0
	if ma < mb {
		want = -1
	} else if ma > mb {
		want = 1
	}
	got, mn, mx := math.CmpComplex(a, b), math.MinComplex(a, b), math.MaxComplex(a, b)
	c.Op("%v, %v: cmp %d min %v max %v", a, b, got, mn, mx)
	c.Check(got == want, "CmpComplex", "CmpComplex(%v, %v) = %d", a, b, got)
	c.Check(mn == a && want <= 0 || mn == b && want >= 0, "MinComplex", "MinComplex(%v, %v) = %v", a, b, mn)
	c.Check(mx == a && want >= 0 || mx == b && want <= 0, "MaxComplex", "MaxComplex(%v, %v) = %v", a, b, mx)
	c.Outcome(fmt.Sprint(got, mn, mx))
}

func cmpOps[T interface {
	constraint.Cmp[T]
	fmt.Stringer
}](c *mc.C, vals []T) {
	a, b := mc.Pick(c, vals), mc.Pick(c, vals)
	as, bs := a.String(), b.String()
	mn, mx := math.MinCmp(a, b), math.MaxCmp(a, b)
	c.Op("%v, %v: min %v max %v", as, bs, mn, mx)
	c.Check(mn == a && a.Cmp(b) <= 0 || mn == b && b.Cmp(a) <= 0, "MinCmp", "MinCmp(%v, %v) = %v", as, bs, mn)
	c.Check(mx == a && a.Cmp(b) >= 0 || mx == b && b.Cmp(a) >= 0, "MaxCmp", "MaxCmp(%v, %v) = %v", as, bs, mx)
	c.Check(a.String() == as && b.String() == bs, "Cmp", "comparing %v, %v changed them to %v, %v", as, bs, a, b)
	c.Outcome(mn.String() + mx.String())
}

// distance compares by any negative or positive number, as constraint.Cmp allows
type distance int

func (d distance) Cmp(o distance) int { return int(d - o) }
func (d distance) String() string     { return fmt.Sprint(int(d)) }

func inside[T constraint.IntegerAndFloat](v, min T, minMode math.RangeMode, max T, maxMode math.RangeMode) bool {
	return (v > min || minMode == math.Closed && v == min) && (v < max || maxMode == math.Closed && v == max)
}

// ranges explores construction and then every sequence of values set
func ranges[T constraint.IntegerAndFloat](c *mc.C, vals []T, depth int) {
	modes := []math.RangeMode{math.Open, math.Closed}
	min, minMode, max, maxMode, val := mc.Pick(c, vals), mc.Pick(c, modes), mc.Pick(c, vals), mc.Pick(c, modes), mc.Pick(c, vals)
	var rg math.Range[T]
	pv := mc.Try(func() { rg = math.OfRange(min, minMode, max, maxMode, val) })
	c.Op("OfRange(%T %v, %v, %v, %v, %v): panic %v", min, min, minMode, max, maxMode, val, pv)
	if !(min < max && inside(val, min, minMode, max, maxMode)) {
		c.Check(pv != nil, "OfRange", "OfRange(%v, %v, %v, %v, %v): expected a panic", min, minMode, max, maxMode, val)
		c.Outcome("panic")
		return
	}
	c.Check(pv == nil, "OfRange", "OfRange(%v, %v, %v, %v, %v): unexpected panic %v", min, minMode, max, maxMode, val, pv)
	n := c.Choose(depth + 1)
	for i := 0; ; i++ {
		m, mm := rg.GetMin()
		x, xm := rg.GetMax()
		c.Check(m == min && mm == minMode && x == max && xm == maxMode, "bounds", "bounds changed from %v, %v, %v, %v to %v, %v, %v, %v", min, minMode, max, maxMode, m, mm, x, xm)
		c.Check(rg.GetValue() == val, "value", "expected the value %v, got %v", val, rg.GetValue())
		c.State(fmt.Sprint(min, minMode, max, maxMode, val))
		if i == n {
			break
		}
		v := mc.Pick(c, vals)
		cp, was := rg, val
		err := rg.SetValue(v)
		c.Op("SetValue(%v) = %v", v, err)
		ok := inside(v, min, minMode, max, maxMode)
		c.Check((err == nil) == ok, "SetValue", "range %v, %v, %v, %v: SetValue(%v) = %v", min, minMode, max, maxMode, v, err)
		if ok {
			val = v
		}
		c.Check(cp.GetValue() == was, "copy", "range %v, %v, %v, %v: SetValue(%v) changes the value of a copy from %v to %v", min, minMode, max, maxMode, v, was, cp.GetValue())
		c.Outcome(fmt.Sprint(v, err != nil))
	}
}

func main() {
	mc.Main("C10", "model_checking", []string{"math/big and the hardware are the reference arithmetic"}, func(r *mc.Run) {
		bi, bf, br := bigInts(), bigFloats(), bigRats()
		r.Explore("big.Int", "all pairs of boundary values, quotient nil, other, dividend or divisor, both functions", -1, func(c *mc.C) {
			ia, ib, alias := c.Choose(len(bi)), c.Choose(len(bi)), c.Choose(aN)
			a, b := new(big.Int).Set(bi[ia]), new(big.Int).Set(bi[ib])
			q := quot(alias, a, b, big.NewInt(77))
			pre := q
			var err error
			if c.Bool() {
				err = math.Div(a, b, &q)
			} else {
				err = math.DivBigOps(a, b, &q)
			}
			c.Op("Div(%v, %v) alias %d = %v, %v", bi[ia], bi[ib], alias, q, err)
			if bi[ib].Sign() == 0 {
				c.Check(err == math.DivByZeroErr, "Div", "Div(%v, 0) = %v, %v", bi[ia], q, err)
			} else {
				want := rounded(bi[ia], bi[ib])
				c.Check(err == nil && q.Cmp(want) == 0, "Div", "Div(%v, %v) alias %d = %v, %v, expected %v", bi[ia], bi[ib], alias, q, err, want)
				c.Check(alias == aNil || q == pre, "Div", "Div(%v, %v) alias %d replaced the pointer", bi[ia], bi[ib], alias)
				c.Outcome(want.String())
			}
			c.Check(alias == aDividend || a.Cmp(bi[ia]) == 0, "Div", "Div(%v, %v) changed the dividend to %v", bi[ia], bi[ib], a)
			c.Check(alias == aDivisor || b.Cmp(bi[ib]) == 0, "Div", "Div(%v, %v) changed the divisor to %v", bi[ia], bi[ib], b)
			if alias == aNil && err == nil {
				fresh(c, a, b, q)
			}
			v := new(big.Int).Set(bi[ia])
			err = math.Abs(&v)
			c.Check(err == nil && v.CmpAbs(bi[ia]) == 0 && v.Sign() >= 0, "Abs", "Abs(%v) = %v, %v", bi[ia], v, err)
			c.Ops(1)
			c.State(fmt.Sprint(bi[ia], bi[ib], alias))
		})
		limbs := r.Budget(12, 40)
		r.Explore("long", fmt.Sprintf("big integers of 64k and up to 64k+2 bits, k up to %d, divided by others, by what makes halves, by small ones: rounding, and what is left of the operands", limbs), -1, func(c *mc.C) {
			size := func() *big.Int {
				b := new(big.Int).Lsh(big.NewInt(1), uint(64*(1+c.Choose(limbs))+c.Choose(4)-1))
				switch c.Choose(3) {
				case 1:
					b.Sub(b, big.NewInt(1))
				case 2:
					b.Add(b, big.NewInt(3))
				}
				return b
			}
			b := size()
			var a *big.Int
			switch k := c.Choose(7); k {
			case 0, 1, 2: // around n + 1/2 times b
				a = new(big.Int).Lsh(b, 1)
				a.Mul(a, big.NewInt(int64(c.Choose(3))))
				a.Add(a, b)
				a.Add(a, big.NewInt(int64(k-1)))
				a.Rsh(a, 1)
			case 3:
				a, b = b, big.NewInt(mc.Pick(c, []int64{2, 3, 10, gomath.MaxInt64}))
			case 4:
				a = new(big.Int).Mul(b, b)
				a.Add(a, new(big.Int).Rsh(b, 1))
			case 5:
				a = new(big.Int).Rsh(b, uint(c.Choose(4)))
			default:
				a = new(big.Int).Lsh(b, 129)
				a.Sub(a, big.NewInt(1))
			}
			if c.Bool() {
				a.Neg(a)
			}
			if c.Bool() {
				b.Neg(b)
			}
			wa, wb, want := new(big.Int).Set(a), new(big.Int).Set(b), rounded(a, b)
			var q *big.Int
			err := math.Div(a, b, &q)
			c.Op("Div of %d by %d bits: %v", a.BitLen(), b.BitLen(), err)
			c.Check(err == nil && q.Cmp(want) == 0, "Div", "Div(%v, %v) = %v, %v, expected %v", wa, wb, q, err, want)
			c.Check(a.Cmp(wa) == 0 && b.Cmp(wb) == 0, "Div", "Div(%v, %v) changed the operands to %v, %v", wa, wb, a, b)
			var rq *big.Rat
			ra, rb := new(big.Rat).SetInt(a), new(big.Rat).SetInt(b)
			err = math.Div(ra, rb, &rq)
			c.Check(err == nil && rq.Cmp(new(big.Rat).SetFrac(wa, wb)) == 0, "Div", "Div(%v, %v) of ratios = %v, %v", wa, wb, rq, err)
			v := a
			err = math.Abs(&v)
			c.Check(err == nil && v.CmpAbs(wa) == 0 && v.Sign() >= 0, "Abs", "Abs(%v) = %v, %v", wa, v, err)
			mn, mx := math.MinCmp(wa, wb), math.MaxCmp(wa, wb)
			c.Check(mn.Cmp(mx) <= 0 && (wa.Cmp(wb) == 0 && mn.Cmp(wa) == 0 && mx.Cmp(wa) == 0 || mn == wa && mx == wb || mn == wb && mx == wa), "MinCmp", "of %v and %v, %v is less, %v is more", wa, wb, mn, mx)
			c.Ops(4)
			c.Outcome(want.String())
		})
		r.Explore("by-itself", "every big value divided by itself, the same pointer, the quotient nil, other or that pointer too, both functions", -1, func(c *mc.C) {
			alias, ops := mc.Pick(c, []int{aNil, aOther, aDividend}), c.Bool()
			switch c.Choose(3) {
			case 0:
				i := mc.Pick(c, bi)
				a := new(big.Int).Set(i)
				q := quot(alias, a, a, big.NewInt(77))
				err := itself(ops, a, &q)
				if alias == aNil && err == nil {
					fresh(c, a, a, q)
				}
				c.Op("Div(%v, itself) alias %d = %v, %v", i, alias, q, err)
				if i.Sign() == 0 {
					c.Check(err == math.DivByZeroErr, "Div", "Div(0, itself) = %v, %v", q, err)
				} else {
					c.Check(err == nil && q.Cmp(big.NewInt(1)) == 0, "Div", "Div(%v, itself) alias %d = %v, %v", i, alias, q, err)
					c.Check(alias == aDividend || a.Cmp(i) == 0, "Div", "Div(%v, itself) changed it to %v", i, a)
				}
			case 1:
				i := mc.Pick(c, br)
				a := new(big.Rat).Set(i)
				q := quot(alias, a, a, big.NewRat(77, 78))
				err := itself(ops, a, &q)
				if alias == aNil && err == nil {
					fresh(c, a, a, q)
				}
				c.Op("Div(%v, itself) alias %d = %v, %v", i, alias, q, err)
				if i.Sign() == 0 {
					c.Check(err == math.DivByZeroErr, "Div", "Div(0, itself) = %v, %v", q, err)
				} else {
					c.Check(err == nil && q.Cmp(big.NewRat(1, 1)) == 0, "Div", "Div(%v, itself) alias %d = %v, %v", i, alias, q, err)
					c.Check(alias == aDividend || a.Cmp(i) == 0, "Div", "Div(%v, itself) changed it to %v", i, a)
				}
			default:
				i := mc.Pick(c, bf)
				a := new(big.Float).Copy(i)
				q := quot(alias, a, a, big.NewFloat(77))
				err := itself(ops, a, &q)
				if alias == aNil && err == nil {
					fresh(c, a, a, q)
				}
				c.Op("Div(%v, itself) alias %d = %v, %v", i, alias, q, err)
				if i.Sign() == 0 || i.IsInf() {
					_, isa := err.(big.ErrNaN)
					c.Check(isa, "Div", "Div(%v, itself) = %v, %v, expected big.ErrNaN", i, q, err)
				} else {
					c.Check(err == nil && q.Cmp(big.NewFloat(1)) == 0, "Div", "Div(%v, itself) alias %d = %v, %v", i, alias, q, err)
					c.Check(alias == aDividend || a.Cmp(i) == 0, "Div", "Div(%v, itself) changed it to %v", i, a)
				}
			}
			c.Ops(1)
		})
		r.Explore("big.Rat", "as big.Int", -1, func(c *mc.C) {
			ia, ib, alias := c.Choose(len(br)), c.Choose(len(br)), c.Choose(aN)
			a, b := new(big.Rat).Set(br[ia]), new(big.Rat).Set(br[ib])
			q := quot(alias, a, b, big.NewRat(77, 78))
			var err error
			if c.Bool() {
				err = math.Div(a, b, &q)
			} else {
				err = math.DivBigOps(a, b, &q)
			}
			c.Op("Div(%v, %v) alias %d = %v, %v", br[ia], br[ib], alias, q, err)
			if br[ib].Sign() == 0 {
				c.Check(err == math.DivByZeroErr, "Div", "Div(%v, 0) = %v, %v", br[ia], q, err)
			} else {
				want := new(big.Rat).Mul(br[ia], new(big.Rat).Inv(br[ib]))
				c.Check(err == nil && q.Cmp(want) == 0, "Div", "Div(%v, %v) alias %d = %v, %v, expected %v", br[ia], br[ib], alias, q, err, want)
				c.Outcome(want.String())
			}
			c.Check(alias == aDividend || a.Cmp(br[ia]) == 0, "Div", "Div(%v, %v) changed the dividend to %v", br[ia], br[ib], a)
			c.Check(alias == aDivisor || b.Cmp(br[ib]) == 0, "Div", "Div(%v, %v) changed the divisor to %v", br[ia], br[ib], b)
			if alias == aNil && err == nil {
				fresh(c, a, b, q)
			}
			v := new(big.Rat).Set(br[ia])
			err = math.Abs(&v)
			c.Check(err == nil && v.Cmp(new(big.Rat).Abs(br[ia])) == 0, "Abs", "Abs(%v) = %v, %v", br[ia], v, err)
			c.Ops(1)
			c.State(fmt.Sprint(br[ia], br[ib], alias))
		})
		r.Explore("big.Float", "as big.Int, with infinities and signed zeros", -1, func(c *mc.C) {
			ia, ib, alias := c.Choose(len(bf)), c.Choose(len(bf)), c.Choose(aN)
			a, b := new(big.Float).Copy(bf[ia]), new(big.Float).Copy(bf[ib])
			q := quot(alias, a, b, big.NewFloat(77))
			var err error
			if c.Bool() {
				err = math.Div(a, b, &q)
			} else {
				err = math.DivBigOps(a, b, &q)
			}
			c.Op("Div(%v, %v) alias %d = %v, %v", bf[ia], bf[ib], alias, q, err)
			if bf[ia].IsInf() && bf[ib].IsInf() || bf[ia].Sign() == 0 && bf[ib].Sign() == 0 {
				_, isa := err.(big.ErrNaN)
				c.Check(isa, "Div", "Div(%v, %v) = %v, %v, expected big.ErrNaN", bf[ia], bf[ib], q, err)
			} else {
				want := new(big.Float).SetPrec(q.Prec())
				want.Quo(bf[ia], bf[ib])
				c.Check(err == nil && q.Cmp(want) == 0 && q.Signbit() == want.Signbit(), "Div", "Div(%v, %v) alias %d = %v, %v, expected %v", bf[ia], bf[ib], alias, q, err, want)
				c.Check(alias != aNil || q.Prec() >= max(bf[ia].Prec(), bf[ib].Prec()), "Div", "Div(%v, %v) has a precision of %d", bf[ia], bf[ib], q.Prec())
				c.Outcome(want.String())
			}
			c.Check(alias == aDividend || a.Cmp(bf[ia]) == 0, "Div", "Div(%v, %v) changed the dividend to %v", bf[ia], bf[ib], a)
			c.Check(alias == aDivisor || b.Cmp(bf[ib]) == 0, "Div", "Div(%v, %v) changed the divisor to %v", bf[ia], bf[ib], b)
			if alias == aNil && err == nil {
				fresh(c, a, b, q)
			}
			v := new(big.Float).Copy(bf[ia])
			err = math.Abs(&v)
			c.Check(err == nil && v.Cmp(new(big.Float).Abs(bf[ia])) == 0 && !v.Signbit(), "Abs", "Abs(%v) = %v, %v", bf[ia], v, err)
			c.Ops(1)
			c.State(fmt.Sprint(bf[ia], bf[ib], alias))
		})
		r.Explore("floats", "all pairs of 18 floats including NaN, infinities, signed zeros, of 4 types", -1, func(c *mc.C) {
			switch c.Choose(4) {
			case 0:
				floatOps[float64](c, false)
			case 1:
				floatOps[float32](c, true)
			case 2:
				floatOps[mF64](c, false)
			case 3:
				floatOps[mF32](c, true)
			}
		})
		r.Explore("order", "all pairs of boundary values of ordered, complex and big types", -1, func(c *mc.C) {
			switch c.Choose(15) {
			case 0:
				ordered(c, []int{gomath.MinInt, -1, 0, 1, gomath.MaxInt})
			case 1:
				ordered(c, []int8{-128, -1, 0, 1, 127})
			case 2:
				ordered(c, []uint64{0, 1, 1 << 63, gomath.MaxUint64})
			case 3:
				ordered(c, []float64{gomath.Inf(-1), -1e300, -1, -5e-324, 0, 5e-324, 1, 1e300, gomath.Inf(1)})
			case 4:
				ordered(c, []float32{float32(gomath.Inf(-1)), -1, 0, 1e-45, 16777216, float32(gomath.Inf(1))})
			case 5:
				ordered(c, []string{"", "A", "B", "a", "aa", "ab", "b", "é"})
			case 6:
				ordered(c, []mStr{"", "a", "b"})
			case 7:
				ordered(c, []mI{-2, 0, 3})
			case 8:
				complexes[complex128](c)
			case 9:
				complexes[complex64](c)
			case 10:
				cmpOps(c, copies(bi, func(x *big.Int) *big.Int { return new(big.Int).Set(x) }))
			case 11:
				cmpOps(c, copies(bf, func(x *big.Float) *big.Float { return new(big.Float).Copy(x) }))
			case 12:
				cmpOps(c, copies(br, func(x *big.Rat) *big.Rat { return new(big.Rat).Set(x) }))
			case 14:
				cmpOps(c, []distance{-1000, -1, 0, 1, 2, 1000})
			case 13:
				cmpOps(c, []math.Decimal{math.MustDecimal(0, 0), math.MustDecimal(100, 2), math.MustDecimal(99, 2), math.MustDecimal(1, 18), math.MustDecimal(-1, 0), math.MustDecimal(-1, 1)})
			}
		})
		d := r.Budget(2, 4)
		r.Explore("ranges", fmt.Sprintf("all ranges over 4 values and 2 modes of 4 types, every sequence of up to %d values set", d), -1, func(c *mc.C) {
			switch c.Choose(4) {
			case 0:
				ranges(c, []int{gomath.MinInt, 1, 2, gomath.MaxInt}, d)
			case 1:
				ranges(c, []float64{gomath.Inf(-1), 0, 0.5, gomath.NaN()}, d)
			case 2:
				ranges(c, []uint8{0, 1, 254, 255}, d)
			case 3:
				ranges(c, []mI{-1, 0, 1, 2}, d)
			}
		})
	})
}

func copies[T any](vals []T, f func(T) T) (res []T) {
	for _, v := range vals {
		res = append(res, f(v))
	}
	return
}
