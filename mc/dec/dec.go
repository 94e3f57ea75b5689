// Package dec is the reference decimal arithmetic: exact integers, rounded once
package dec

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"github.com/bantling/micro/math"
)

const (
	MaxVal   = 999_999_999_999_999_999
	MaxScale = 18
)

var (
	Pow    [60]*big.Int
	BigMax = big.NewInt(MaxVal)
)

func init() {
	Pow[0] = big.NewInt(1)
	for i := 1; i < len(Pow); i++ {
		Pow[i] = new(big.Int).Mul(Pow[i-1], big.NewInt(10))
	}
}

// D is a decimal as observed: unscaled value, scale, and whether it is normalized
type D struct {
	V     int64
	S     int
	Norm  bool
	Valid bool
	Text  string
}

// Of observes a decimal
func Of(d math.Decimal) D {
	s := d.String()
	r := D{S: int(d.Scale()), Norm: d.Normalized(), Text: s}
	neg := strings.HasPrefix(s, "-")
	i, f, dot := strings.Cut(strings.TrimPrefix(s, "-"), ".")
	if len(f) != r.S || dot != (r.S > 0) || i == "" || (len(i) > 1 && i[0] == '0') || r.S > MaxScale {
		return r
	}
	v, err := strconv.ParseInt(i+f, 10, 64)
	if err != nil || v > MaxVal || v < 0 || (neg && v == 0) {
		return r
	}
	if neg {
		v = -v
	}
	r.V, r.Valid = v, true
	return r
}

// Tidy says whether a decimal is in normal form
func (d D) Tidy() bool { return d.S == 0 || d.V%10 != 0 }

// Frac is an exact value
type Frac struct{ Num, Den *big.Int }

func (d D) Frac() Frac { return Frac{big.NewInt(d.V), Pow[d.S]} }

func (f Frac) Same(o Frac) bool {
	return new(big.Int).Mul(f.Num, o.Den).Cmp(new(big.Int).Mul(o.Num, f.Den)) == 0
}

func (f Frac) String() string { return new(big.Rat).SetFrac(f.Num, f.Den).RatString() }

// Round is the unscaled value of f at a scale, rounded to nearest, halves away from zero
func (f Frac) Round(s int) *big.Int {
	n, d := new(big.Int).Abs(f.Num), new(big.Int).Abs(f.Den)
	n.Mul(n, Pow[s])
	n.Lsh(n, 1)
	n.Add(n, d)
	d.Lsh(d, 1)
	n.Quo(n, d)
	if f.Num.Sign()*f.Den.Sign() < 0 {
		n.Neg(n)
	}
	return n
}

// Fit is f rounded once to the largest scale that has at most 18 digits. False if there is none.
func (f Frac) Fit(maxScale int) (Frac, bool) {
	if maxScale > MaxScale {
		maxScale = MaxScale
	}
	// number of integer digits tells the scale within one
	n := new(big.Int).Quo(f.Num, f.Den)
	if digits := len(n.Text(10)); n.Sign() != 0 && maxScale > 19-digits {
		maxScale = 19 - digits
		if n.Sign() < 0 {
			maxScale++
		}
		if maxScale > MaxScale {
			maxScale = MaxScale
		}
	}
	for s := maxScale; s >= 0; s-- {
		if u := f.Round(s); u.CmpAbs(BigMax) <= 0 {
			return Frac{u, Pow[s]}, true
		}
	}
	return Frac{}, false
}

// Digits is the number of significant digits of a value, none for zero
func Digits(v int64) int {
	n := 0
	for ; v != 0; v /= 10 {
		n++
	}
	return n
}

// Values gives unscaled values that have something special
func Values(many bool) (res []int64) {
	seen := map[int64]bool{}
	add := func(v int64) {
		if v >= 0 && v <= MaxVal && !seen[v] {
			seen[v] = true
			res = append(res, v)
		}
	}
	for _, v := range []int64{0, 1, 2, 3, 5, 6, 7, 9, 10, 11, 15, 20, 45, 49, 50, 55, 95, 99, 101, 149, 150, 445, 449, 450, 451, 999, 1005, 9995} {
		add(v)
	}
	for _, k := range []int{2, 8, 9, 10, 16, 17, 18} {
		p := Pow[k].Int64()
		for _, d := range []int64{-6, -5, -4, -1, 0, 1} {
			add(p + d)
		}
		if many || k > 9 {
			for _, f := range []int64{3, 5} {
				add(p / 10 * f)
			}
		}
		add(p/2 - 1)
	}
	for _, v := range []int64{123_456_789_012_345_678, 333_333_333_333_333_333, 666_666_666_666_666_667, 499_999_999_999_999_999, 449_999_999_999_999_999, 444_444_444_444_444_445, 950_000_000_000_000_003, 285_714_285_714_285_714,
		922_337_203_685_477_580, 922_337_203_685_477_581, 3_037_000_499, 3_037_000_500, 4_294_967_295, 4_294_967_296, 1_000_000_007, 123_123_123_123_123_123, 456_456, 3_162_277_660, 94_999_999_995, 999_999_999_500_000_000} {
		add(v)
	}
	if many {
		for i := int64(0); i <= 30; i++ {
			add(i)
		}
		for k := 3; k < 18; k++ {
			add(Pow[k].Int64())
			add(Pow[k].Int64() - 1)
			add(5 * Pow[k-1].Int64())
			add(5*Pow[k-1].Int64() - 1)
		}
	}
	return
}

// Show prints a decimal and its flag
func (d D) Show() string {
	if !d.Valid {
		return fmt.Sprintf("INVALID(%s scale %d)", d.Text, d.S)
	}
	if d.Norm {
		return d.Text
	}
	return d.Text + "(denormalized)"
}
