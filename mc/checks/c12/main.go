// C12: decimal arithmetic is exact where possible, rounded once where not, and an error where it does not fit
package main

import (
	"fmt"
	"math/big"
	"slices"
	"strings"

	"github.com/bantling/micro/math"
	"verifmc/dec"
	"verifmc/mc"
)

var ops = []string{"+", "-", "*", "/"}

func call(op string, d, o math.Decimal) (math.Decimal, error) {
	switch op {
	case "+":
		return d.Add(o)
	case "-":
		return d.Sub(o)
	case "*":
		return d.Mul(o)
	}
	return d.Div(o)
}

func must(op string, d, o math.Decimal) math.Decimal {
	switch op {
	case "+":
		return d.MustAdd(o)
	case "-":
		return d.MustSub(o)
	case "*":
		return d.MustMul(o)
	}
	return d.MustDiv(o)
}

// expectation of an operation
type exp struct {
	val     dec.Frac
	fails   bool   // must fail
	mayFail bool   // may fail, or be val
	word    string // that the error has to contain
}

func overflow(sign int) string {
	if sign < 0 {
		return "underflow"
	}
	return "overflow"
}

func sum(d, o dec.D, neg bool) exp {
	ov := o.V
	if neg {
		ov = -ov
	}
	lo, hi := dec.D{V: d.V, S: d.S}, dec.D{V: ov, S: o.S}
	if lo.S > hi.S {
		lo, hi = hi, lo
	}
	// exact if the coarser value can take the digits of the finer one
	if diff := hi.S - lo.S; lo.V == 0 || dec.Digits(lo.V)+diff <= 18 {
		n := new(big.Int).Mul(big.NewInt(lo.V), dec.Pow[diff])
		n.Add(n, big.NewInt(hi.V))
		return exp{val: dec.Frac{Num: n, Den: dec.Pow[hi.S]}, fails: n.CmpAbs(dec.BigMax) > 0, word: overflow(n.Sign())}
	}
	// else the finer one is rounded
	n := new(big.Int).Add(hi.Frac().Round(lo.S), big.NewInt(lo.V))
	e := exp{val: dec.Frac{Num: n, Den: dec.Pow[lo.S]}, fails: n.CmpAbs(dec.BigMax) > 0}
	// values that are too close to the limit to be rounded are refused
	e.mayFail = lo.V > dec.MaxVal-5 || lo.V < -dec.MaxVal+5
	return e
}

func expect(op string, d, o dec.D) exp {
	switch op {
	case "+":
		return sum(d, o, false)
	case "-":
		return sum(d, o, true)
	case "*":
		n := new(big.Int).Mul(big.NewInt(d.V), big.NewInt(o.V))
		v, ok := dec.Frac{Num: n, Den: dec.Pow[d.S+o.S]}.Fit(d.S + o.S)
		return exp{val: v, fails: !ok, word: overflow(n.Sign())}
	}
	if o.V == 0 {
		return exp{fails: true, word: "/ 0"}
	}
	n := new(big.Int).Mul(big.NewInt(d.V), dec.Pow[o.S])
	m := new(big.Int).Mul(big.NewInt(o.V), dec.Pow[d.S])
	v, ok := dec.Frac{Num: n, Den: m}.Fit(dec.MaxScale)
	// documented: a divisor of 18 digits may have remainders that cannot be divided further
	abs := o.V
	if abs < 0 {
		abs = -abs
	}
	return exp{val: v, fails: !ok, mayFail: abs > 100_000_000_000_000_000, word: overflow(n.Sign() * m.Sign())}
}

func check(c *mc.C, op string, d, o math.Decimal) (math.Decimal, bool) {
	dd, oo := dec.Of(d), dec.Of(o)
	r, err := call(op, d, o)
	e := expect(op, dd, oo)
	rr := dec.Of(r)
	if c.Op("%s %s %s = %s, %v", dd.Show(), op, oo.Show(), rr.Show(), err); err != nil {
		c.Check(e.fails || e.mayFail, op, "%s %s %s: unexpected error %v, expected %v", dd.Show(), op, oo.Show(), err, e.val)
		c.Check(e.word == "" || strings.Contains(err.Error(), e.word), op, "%s %s %s: expected an error with %q, got %v", dd.Show(), op, oo.Show(), e.word, err)
		c.Check(r == (math.Decimal{}), op, "%s %s %s: value %s along with error %v", dd.Show(), op, oo.Show(), rr.Show(), err)
		c.Outcome(op + e.word)
		return r, false
	}
	c.Check(!e.fails, op, "%s %s %s = %s, expected an error", dd.Show(), op, oo.Show(), rr.Show())
	c.Check(rr.Valid, op, "%s %s %s = %s is not a valid decimal", dd.Show(), op, oo.Show(), rr.Show())
	if !rr.Frac().Same(e.val) {
		c.Fail(op, "%s %s %s = %s, expected %v", dd.Show(), op, oo.Show(), rr.Show(), e.val)
	}
	c.Check(rr.Norm == dd.Norm, op, "%s %s %s = %s, the normalization state changed", dd.Show(), op, oo.Show(), rr.Show())
	c.Check(rr.Norm == false || rr.Tidy(), op, "%s %s %s = %s is not normalized", dd.Show(), op, oo.Show(), rr.Show())
	c.Outcome(op + rr.Text)
	return r, true
}

func divInt(c *mc.C, d math.Decimal, o uint, parts bool) {
	dd := dec.Of(d)
	q, r, err := d.DivIntQuoRem(o)
	var mq, mr math.Decimal
	mustp := mc.Try(func() { mq, mr = d.MustDivIntQuoRem(o) })
	_, isErr := mustp.(error)
	c.Check(err == nil && mustp == nil && mq == q && mr == r || err != nil && isErr, "quorem", "MustDivIntQuoRem(%s, %d) = %s, %s, panic %v, not %s, %s, %v", dd.Show(), o, mq, mr, mustp, q, r, err)
	c.Op("DivIntQuoRem(%s, %d) = %s, %s, %v", dd.Show(), o, q, r, err)
	ip := dd.V / dec.Pow[dd.S].Int64()
	if ip < 0 {
		ip = -ip
	}
	if o == 0 || uint64(o) > uint64(ip) {
		c.Check(err != nil, "quorem", "DivIntQuoRem(%s, %d) = %s, %s, expected an error", dd.Show(), o, q, r)
		ps, err := d.DivIntAdd(o)
		mustp := mc.Try(func() { d.MustDivIntAdd(o) })
		_, isErr := mustp.(error)
		c.Check(isErr, "parts", "MustDivIntAdd(%s, %d): panic %v", dd.Show(), o, mustp)
		c.Check(err != nil && ps == nil, "parts", "DivIntAdd(%s, %d) = %v, %v, expected an error", dd.Show(), o, ps, err)
		c.Outcome("error")
		return
	}
	c.Check(err == nil, "quorem", "DivIntQuoRem(%s, %d): unexpected error %v", dd.Show(), o, err)
	qq, rr := dec.Of(q), dec.Of(r)
	c.Check(qq.Valid && rr.Valid && qq.S == dd.S && rr.S <= dd.S, "quorem", "DivIntQuoRem(%s, %d) = %s, %s", dd.Show(), o, qq.Show(), rr.Show())
	ru := rr.V * dec.Pow[dd.S-rr.S].Int64()
	bo := new(big.Int).SetUint64(uint64(o))
	n := new(big.Int).Mul(big.NewInt(qq.V), bo)
	n.Add(n, big.NewInt(ru))
	c.Check(n.Cmp(big.NewInt(dd.V)) == 0 && big.NewInt(ru).CmpAbs(bo) < 0 && (ru == 0 || (ru < 0) == (dd.V < 0)), "quorem", "DivIntQuoRem(%s, %d) = %s, %s", dd.Show(), o, qq.Show(), rr.Show())
	c.Check(qq.Norm == dd.Norm && rr.Norm == dd.Norm, "quorem", "DivIntQuoRem(%s, %d) changed the normalization state", dd.Show(), o)
	c.Outcome(q.String() + r.String())
	if !parts {
		return
	}
	ps, err := d.DivIntAdd(o)
	c.Op("DivIntAdd(%s, %d) = %v, %v", dd.Show(), o, len(ps), err)
	mustp = mc.Try(func() {
		ms := d.MustDivIntAdd(o)
		c.Check(slices.Equal(ms, ps), "parts", "MustDivIntAdd(%s, %d) differs from DivIntAdd", dd.Show(), o)
	})
	c.Check(mustp == nil, "parts", "MustDivIntAdd(%s, %d): panic %v", dd.Show(), o, mustp)
	c.Check(err == nil && uint(len(ps)) == o, "parts", "DivIntAdd(%s, %d): %d parts, %v", dd.Show(), o, len(ps), err)
	total, first, last := int64(0), dec.Of(ps[0]).V, int64(0)
	for i, p := range ps {
		pp := dec.Of(p)
		c.Check(pp.Valid && pp.S == dd.S && pp.Norm == dd.Norm, "parts", "DivIntAdd(%s, %d): part %d is %s", dd.Show(), o, i, pp.Show())
		total, last = total+pp.V, pp.V
		c.Check(pp.V == first || pp.V == qq.V, "parts", "DivIntAdd(%s, %d): part %d is %s", dd.Show(), o, i, pp.Show())
	}
	c.Check(total == dd.V, "parts", "DivIntAdd(%s, %d): the parts add up to %d / 10^%d", dd.Show(), o, total, dd.S)
	diff := first - last
	if dd.V < 0 {
		diff = -diff
	}
	c.Check(diff == 0 || diff == 1, "parts", "DivIntAdd(%s, %d): parts go from %d to %d", dd.Show(), o, first, last)
}

func pick(c *mc.C, vals []int64, scales []uint) math.Decimal {
	v, s := mc.Pick(c, vals), mc.Pick(c, scales)
	d, err := math.OfDecimal(v, s, false)
	if err != nil {
		panic(err)
	}
	return d
}

func main() {
	mc.Main("C12", "model_checking", []string{"exact integer arithmetic of math/big, rounded once to nearest, halves away from zero, is the reference"}, func(r *mc.Run) {
		vals := dec.Values(r.Thorough)
		scales := []uint{0, 1, 2, 9, 17, 18}
		if r.Thorough {
			scales = []uint{0, 1, 2, 3, 5, 8, 9, 10, 13, 16, 17, 18}
		}
		r.Explore("pairs", fmt.Sprintf("all pairs of %d values x %v scales, 4 operations, 4 signs", len(vals), len(scales)), -1, func(c *mc.C) {
			d, o := pick(c, vals, scales), pick(c, vals, scales)
			s := c.Choose(4)
			if s&1 != 0 {
				d = d.Negate()
			}
			if s&2 != 0 {
				o = o.Negate()
			}
			for _, op := range ops {
				check(c, op, d, o)
			}
		})
		n := int64(r.Budget(12, 30))
		r.Explore("small", fmt.Sprintf("all values within %d, all pairs of scales up to 2, both normalization states of both, 4 operations, Must versions", n), -1, func(c *mc.C) {
			mk := func() math.Decimal {
				return math.MustDecimal(int64(c.Choose(int(2*n+1)))-n, uint(c.Choose(3)), c.Bool())
			}
			d, o := mk(), mk()
			for _, op := range ops {
				v, ok := check(c, op, d, o)
				var w math.Decimal
				pv := mc.Try(func() { w = must(op, d, o) })
				_, isErr := pv.(error)
				c.Check(ok && pv == nil && w == v || !ok && isErr, op, "Must version of %s %s %s: %s, panic %v", d, op, o, w, pv)
			}
			c.State(fmt.Sprint(d, d.Normalized(), o))
		})
		h := r.Budget(3, 4)
		r.Explore("histories", fmt.Sprintf("all chains of %d operations with 7 operands, from 7 values, both normalization states", h), -1, func(c *mc.C) {
			set := []math.Decimal{math.MustDecimal(3, 0), math.MustDecimal(-7, 1), math.MustDecimal(125, 2), math.MustDecimal(999_999_999, 9), math.MustDecimal(1, 18), math.MustDecimal(999_999_999_999_999_999, 0), math.MustDecimal(-123_456_789_012_345_678, 17)}
			acc := mc.Pick(c, set)
			if c.Bool() {
				acc = math.MustDecimal(dec.Of(acc).V, acc.Scale(), false)
			}
			for i := 0; i < h; i++ {
				r, ok := check(c, mc.Pick(c, ops), acc, mc.Pick(c, set))
				if !ok {
					return
				}
				acc = r
				c.State(fmt.Sprint(acc, acc.Normalized()))
			}
		})
		r.Explore("parts", "all values within 400 with scales up to 2, both normalization states, all divisors up to 41", -1, func(c *mc.C) {
			d := math.MustDecimal(int64(c.Choose(801))-400, uint(c.Choose(3)), c.Bool())
			divInt(c, d, uint(c.Choose(42)), true)
		})
		r.Explore("many-parts", "large values with scales up to 2 into numbers of parts up to 100000, both signs", -1, func(c *mc.C) {
			v, s := mc.Pick(c, []int64{9_999_999, 10_000_000, 12_345_678, 99_999_999, 1_000_000_007, 999_999_999_999_999_999}), uint(c.Choose(3))
			if c.Bool() {
				v = -v
			}
			divInt(c, math.MustDecimal(v, s, c.Bool()), mc.Pick(c, []uint{255, 256, 257, 999, 1000, 1001, 32768, 65535, 65536, 65537, 99_999, 100_000}), true)
		})

		// products whose first 18 digits are nines, followed by more digits
		var nines [][2]int64
		nine := big.NewInt(999_999_999_999_999_999)
		for j := 0; j < 18; j++ {
			m := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(19+j)), nil)
			lo := dec.Pow[min(j+1, 17)].Int64()
			for y, found := lo, 0; y < lo+4000 && found < 12; y++ {
				x := new(big.Int).Div(new(big.Int).Sub(m, big.NewInt(1)), big.NewInt(y))
				p := new(big.Int).Mul(x, big.NewInt(y))
				for p.Cmp(m) < 0 && new(big.Int).Div(p, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(1+j)), nil)).Cmp(nine) == 0 {
					if x.Cmp(nine) <= 0 {
						nines, found = append(nines, [2]int64{x.Int64(), y}), found+1
					}
					x.Sub(x, big.NewInt(1))
					p.Sub(p, big.NewInt(y))
					if found >= 12 {
						break
					}
				}
			}
		}
		r.Explore("nines", fmt.Sprintf("%d pairs whose product begins with 18 nines, so that rounding may carry into a 19th digit, all pairs of scales, 4 signs, products, and quotients by the reverse", len(nines)), -1, func(c *mc.C) {
			p := mc.Pick(c, nines)
			s := c.Choose(4)
			d, o := math.MustDecimal(p[0], uint(c.Choose(19)), false), math.MustDecimal(p[1], uint(c.Choose(19)), false)
			if s&1 != 0 {
				d = d.Negate()
			}
			if s&2 != 0 {
				o = o.Negate()
			}
			check(c, "*", d, o)
			check(c, "*", o, d)
			check(c, "/", d, o)
		})
		r.Explore("quorem", "all special values and scales, both signs and normalization states, divisors around every limit", -1, func(c *mc.C) {
			d := pick(c, vals, scales)
			if c.Bool() {
				d = math.MustDecimal(-dec.Of(d).V, d.Scale(), true)
			}
			o := mc.Pick(c, []uint{0, 1, 2, 3, 7, 10, 99, 100, 1000, 1 << 31, 1 << 32, 99_999_999_999_999_999, 999_999_999_999_999_999, 1 << 63, 1<<63 - 1, 1<<64 - 1, 1<<63 + 1})
			divInt(c, d, o, o <= 100)
		})
	})
}
