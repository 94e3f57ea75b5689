// C11: decimals are constructed, parsed, printed, compared, normalized and aligned without changing their value
package main

import (
	"fmt"
	gomath "math"
	"math/big"
	"regexp"
	"strings"

	"github.com/bantling/micro/math"
	"verifmc/dec"
	"verifmc/mc"
)

var textRe = regexp.MustCompile(`^-?([0-9]+\.?[0-9]*|\.[0-9]+)$`)

func parse(c *mc.C, s string) {
	d, err := math.StringToDecimal(s)
	var m math.Decimal
	pv := mc.Try(func() { m = math.MustStringToDecimal(s) })
	dd := dec.Of(d)
	c.Op("StringToDecimal(%q) = %s, %v", s, dd.Show(), err)
	_, isErr := pv.(error)
	c.Check(err == nil && pv == nil && m == d || err != nil && isErr, "must", "StringToDecimal(%q) = %v, but MustStringToDecimal panics with %v", s, err, pv)
	if err != nil {
		c.Check(d == (math.Decimal{}), "parse", "StringToDecimal(%q) = %s along with %v", s, dd.Show(), err)
	}
	if !textRe.MatchString(s) {
		// documented: text without digits is accepted by the pattern
		c.Check(err != nil || (s == "-" || s == "." || s == "-.") && dd.V == 0, "parse", "StringToDecimal(%q) = %s, expected an error", s, dd.Show())
		c.Outcome("error")
		return
	}
	i, f, _ := strings.Cut(strings.TrimPrefix(s, "-"), ".")
	all := i + f
	if len(strings.TrimLeft(all, "0")) > 18 || len(f) > 18 {
		c.Check(err != nil, "parse", "StringToDecimal(%q) = %s, expected an error", s, dd.Show())
		c.Outcome("error")
		return
	}
	if err != nil && len(strings.TrimLeft(i, "0"))+len(f) > 18 {
		// zeros after the decimal point count as digits, if there is an integer part
		c.Outcome("error")
		return
	}
	r, ok := new(big.Rat).SetString(strings.Replace(s, "-.", "-0.", 1))
	if !ok {
		panic(s)
	}
	c.Check(err == nil && dd.Valid && dd.S == len(f), "parse", "StringToDecimal(%q) = %s, %v, expected a scale of %d", s, dd.Show(), err, len(f))
	c.Check(dd.Frac().Same(dec.Frac{Num: r.Num(), Den: r.Denom()}), "parse", "StringToDecimal(%q) = %s", s, dd.Show())
	c.Outcome(dd.Text)
	c.State(s)
}

// build constructs, and checks everything a single decimal can be asked
func build(c *mc.C, v int64, s uint, norm int) {
	var (
		d   math.Decimal
		err error
	)
	switch norm {
	case 0:
		d, err = math.OfDecimal(v, s)
	case 1:
		d, err = math.OfDecimal(v, s, true)
	case 2:
		d, err = math.OfDecimal(v, s, false)
	}
	var m math.Decimal
	pv := mc.Try(func() { m = math.MustDecimal(v, s, norm != 2) })
	c.Op("OfDecimal(%d, %d, %d) = %v, %v", v, s, norm, d, err)
	bad := v > dec.MaxVal || v < -dec.MaxVal || s > 18
	_, isErr := pv.(error)
	c.Check((err != nil) == bad && isErr == bad, "construct", "OfDecimal(%d, %d) = %v, %v, panic %v", v, s, d, err, pv)
	if bad {
		c.Outcome("error")
		return
	}
	c.Check(m == d, "construct", "OfDecimal(%d, %d, %d) = %v, but MustDecimal gives %v", v, s, norm, d, m)
	dd := dec.Of(d)
	want := dec.D{V: v, S: int(s)}
	c.Check(dd.Valid && dd.Frac().Same(want.Frac()), "construct", "OfDecimal(%d, %d, %d) = %s", v, s, norm, dd.Show())
	c.Check(dd.Norm == (norm != 2), "construct", "OfDecimal(%d, %d, %d): Normalized() is %v", v, s, norm, dd.Norm)
	if norm == 2 && v != 0 {
		c.Check(dd.S == int(s) && dd.V == v, "construct", "OfDecimal(%d, %d, %d) = %s", v, s, norm, dd.Show())
	} else {
		c.Check(dd.Tidy() && dd.S <= int(s), "construct", "OfDecimal(%d, %d, %d) = %s is not normalized", v, s, norm, dd.Show())
	}
	c.Outcome(dd.Text)
	c.State(dd.Show())

	// text and back
	back, err := math.StringToDecimal(d.String())
	c.Op("StringToDecimal(%s) = %v, %v", d, back, err)
	c.Check(err == nil && back.String() == d.String() && back.Scale() == d.Scale(), "roundtrip", "StringToDecimal(%s) = %v, %v", d, back, err)

	prec := len(strings.NewReplacer("-", "", ".", "").Replace(dd.Text))
	c.Check(d.Precision() == prec, "precision", "Precision of %s is %d", dd.Show(), d.Precision())
	sign := big.NewInt(v).Sign()
	c.Check(d.Sign() == sign, "sign", "Sign of %s is %d", dd.Show(), d.Sign())
	small := big.NewInt(dd.V).CmpAbs(dec.Pow[dd.S]) < 0
	c.Check(d.MagnitudeLessThanOne() == small, "magnitude", "MagnitudeLessThanOne of %s is %v", dd.Show(), d.MagnitudeLessThanOne())
	n := d.Negate()
	nn := dec.Of(n)
	c.Check(nn.Valid && nn.V == -dd.V && nn.S == dd.S && nn.Norm == dd.Norm && n.Negate() == d, "negate", "Negate of %s is %s", dd.Show(), nn.Show())
	z := d
	z.Normalize()
	zz := dec.Of(z)
	c.Op("Normalize(%s) = %s", dd.Show(), zz.Show())
	c.Check(zz.Valid && zz.Tidy() && zz.Frac().Same(dd.Frac()) && zz.Norm == dd.Norm, "normalize", "Normalize of %s is %s", dd.Show(), zz.Show())
	c.Ops(6)
}

func pair(c *mc.C, d, o math.Decimal) {
	dd, oo := dec.Of(d), dec.Of(o)
	// compare
	a := new(big.Int).Mul(big.NewInt(dd.V), dec.Pow[oo.S])
	b := new(big.Int).Mul(big.NewInt(oo.V), dec.Pow[dd.S])
	want := a.Cmp(b)
	got := d.Cmp(o)
	c.Op("%s cmp %s = %d", dd.Show(), oo.Show(), got)
	c.Check(got == want, "cmp", "%s cmp %s = %d", dd.Show(), oo.Show(), got)

	// same format
	f1, f2 := math.AdjustDecimalFormat(d, o)
	c.Op("AdjustDecimalFormat(%s, %s) = %q, %q", dd.Show(), oo.Show(), f1, f2)
	format(c, dd, oo, dd, f1)
	format(c, dd, oo, oo, f2)
	c.Check(len(f1) == len(f2) && strings.IndexByte(f1, '.') == strings.IndexByte(f2, '.'), "format", "AdjustDecimalFormat(%s, %s) = %q, %q", dd.Show(), oo.Show(), f1, f2)

	// same scale
	d1, o1 := d, o
	err := math.AdjustDecimalScale(&d1, &o1)
	d2, o2 := d, o
	pv := mc.Try(func() { math.MustAdjustDecimalScale(&d2, &o2) })
	r1, r2 := dec.Of(d1), dec.Of(o1)
	c.Op("AdjustDecimalScale(%s, %s) = %s, %s, %v", dd.Show(), oo.Show(), r1.Show(), r2.Show(), err)
	_, isErr := pv.(error)
	c.Check((err == nil) == (pv == nil) && (pv == nil || isErr) && d1 == d2 && o1 == o2, "scale", "AdjustDecimalScale(%s, %s) = %v, but the Must version panics with %v, or differs", dd.Show(), oo.Show(), err, pv)
	lo, hi, rlo, rhi := dd, oo, r1, r2
	if lo.S > hi.S {
		lo, hi, rlo, rhi = hi, lo, rhi, rlo
	}
	fits := lo.V == 0 || dec.Digits(lo.V)+hi.S-lo.S <= 18
	if err != nil {
		c.Check(!fits && (lo.V > dec.MaxVal-5 || lo.V < -dec.MaxVal+5), "scale", "AdjustDecimalScale(%s, %s): unexpected error %v", dd.Show(), oo.Show(), err)
		c.Check(d1 == d && o1 == o, "scale", "AdjustDecimalScale(%s, %s) failed, but changed them to %s, %s", dd.Show(), oo.Show(), r1.Show(), r2.Show())
		c.Outcome("error")
		return
	}
	c.Check(r1.Valid && r2.Valid && r1.S == r2.S && r1.Norm == dd.Norm && r2.Norm == oo.Norm, "scale", "AdjustDecimalScale(%s, %s) = %s, %s", dd.Show(), oo.Show(), r1.Show(), r2.Show())
	c.Check(rlo.Frac().Same(lo.Frac()), "scale", "AdjustDecimalScale(%s, %s) = %s, %s: the value with the smaller scale changed", dd.Show(), oo.Show(), r1.Show(), r2.Show())
	if fits {
		c.Check(rhi == hi, "scale", "AdjustDecimalScale(%s, %s) = %s, %s: the value with the larger scale changed", dd.Show(), oo.Show(), r1.Show(), r2.Show())
	} else {
		c.Check(rhi.S == lo.S && big.NewInt(rhi.V).Cmp(hi.Frac().Round(lo.S)) == 0, "scale", "AdjustDecimalScale(%s, %s) = %s, %s: the value with the larger scale is not rounded to nearest", dd.Show(), oo.Show(), r1.Show(), r2.Show())
	}
	c.Outcome(r1.Text + " " + r2.Text)
}

func format(c *mc.C, dd, oo, of dec.D, f string) {
	ok := f != "" && (f[0] == ' ' || f[0] == '-') && textRe.MatchString(strings.TrimPrefix(f, " "))
	if ok {
		r, isNum := new(big.Rat).SetString(strings.TrimPrefix(f, " "))
		ok = isNum && of.Frac().Same(dec.Frac{Num: r.Num(), Den: r.Denom()}) && (f[0] == '-') == (of.V < 0)
		// no more digits than one of them needs
		i, fr, _ := strings.Cut(f[1:], ".")
		need := 1
		for _, x := range []dec.D{dd, oo} {
			if n := dec.Digits(x.V) - x.S; n > need {
				need = n
			}
		}
		ok = ok && len(i) == need && (len(fr) == dd.S || len(fr) == oo.S) && len(fr) >= of.S
	}
	c.Check(ok, "format", "AdjustDecimalFormat(%s, %s): %q is not %s", dd.Show(), oo.Show(), f, of.Show())
}

func main() {
	mc.Main("C11", "model_checking", []string{"exact integer arithmetic of math/big is the reference"}, func(r *mc.Run) {
		n := r.Budget(6, 8)
		r.Explore("texts", fmt.Sprintf("all texts of up to %d of 0, 1, 9, -, ., x", n), -1, func(c *mc.C) {
			s := ""
			for i := c.Choose(n + 1); i > 0; i-- {
				s += mc.Pick(c, []string{"0", "1", "9", "-", ".", "x"})
			}
			parse(c, s)
		})
		r.Explore("long", "all numbers of up to 20 digits before and 20 after the point, of 4 leading and 4 repeated digits, with sign, prefix and suffix", -1, func(c *mc.C) {
			pre := mc.Pick(c, []string{"", "-", "+", " ", "--", "\n"})
			i, f := c.Choose(21), c.Choose(22)
			s := pre
			if i > 0 {
				s += mc.Pick(c, []string{"0", "1", "9"}) + strings.Repeat(mc.Pick(c, []string{"0", "9"}), i-1)
			}
			if f > 0 {
				s += "."
			}
			if f > 1 {
				s += mc.Pick(c, []string{"0", "9"}) + strings.Repeat(mc.Pick(c, []string{"0", "5"}), f-2)
			}
			parse(c, s+mc.Pick(c, []string{"", " ", "\n", ".", "e1"}))
		})
		vals := dec.Values(true)
		for _, v := range append([]int64{}, vals...) {
			if v != 0 {
				vals = append(vals, -v)
			}
		}
		all := append(append([]int64{}, vals...), dec.MaxVal+1, -dec.MaxVal-1, gomath.MaxInt64, gomath.MinInt64, gomath.MinInt64+1)
		for i := int64(-1000); i <= 1000; i++ {
			all = append(all, i)
		}
		r.Explore("single", fmt.Sprintf("all of %d values x 21 scales x 3 ways of construction", len(all)), -1, func(c *mc.C) {
			v := mc.Pick(c, all)
			s := mc.Pick(c, []uint{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, gomath.MaxUint32})
			build(c, v, s, c.Choose(3))
		})
		m := int64(r.Budget(30, 120))
		r.Explore("small-pairs", fmt.Sprintf("all pairs of values within %d and scales up to 2, denormalized", m), -1, func(c *mc.C) {
			mk := func() math.Decimal { return math.MustDecimal(int64(c.Choose(int(2*m+1)))-m, uint(c.Choose(3)), false) }
			d := mk()
			pair(c, d, mk())
		})
		pv := dec.Values(r.Thorough)
		scales := []uint{0, 1, 9, 17, 18}
		if r.Thorough {
			scales = []uint{0, 1, 2, 3, 5, 8, 9, 10, 13, 16, 17, 18}
		}
		r.Explore("pairs", fmt.Sprintf("all pairs of %d values x %d scales x 4 signs", len(pv), len(scales)), -1, func(c *mc.C) {
			mk := func() math.Decimal { return math.MustDecimal(mc.Pick(c, pv), mc.Pick(c, scales), false) }
			d, o := mk(), mk()
			s := c.Choose(4)
			if s&1 != 0 {
				d = d.Negate()
			}
			if s&2 != 0 {
				o = o.Negate()
			}
			pair(c, d, o)
		})
	})
}
