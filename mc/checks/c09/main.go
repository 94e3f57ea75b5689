// C09: integer arithmetic reports overflow exactly when it occurs, and quotients are rounded to nearest
package main

import (
	"fmt"
	"math/big"
	goreflect "reflect"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/math"
	"verifmc/mc"
)

type (
	mI8  int8
	mI16 int16
	mI32 int32
	mI64 int64
	mU8  uint8
	mU16 uint16
	mU32 uint32
	mU64 uint64
	mI   int
	mU   uint
)

func bigOf[T constraint.Integer](v T) *big.Int {
	if rv := goreflect.ValueOf(v); rv.CanInt() {
		return big.NewInt(rv.Int())
	} else {
		return new(big.Int).SetUint64(rv.Uint())
	}
}

func limits[T constraint.Integer]() (lo, hi *big.Int) {
	var z T
	bits := uint(goreflect.TypeOf(z).Bits())
	one := big.NewInt(1)
	if goreflect.ValueOf(z).CanInt() {
		hi = new(big.Int).Lsh(one, bits-1)
		return new(big.Int).Neg(hi), hi.Sub(hi, one)
	}
	hi = new(big.Int).Lsh(one, bits)
	return new(big.Int), hi.Sub(hi, one)
}

func fromBig[T constraint.Integer](b *big.Int) T {
	var z T
	if goreflect.ValueOf(z).CanInt() {
		return T(b.Int64())
	}
	return T(b.Uint64())
}

// rounded is the quotient rounded to the nearest integer, halves away from zero
func rounded(de, dv *big.Int) *big.Int {
	n, d := new(big.Int).Abs(de), new(big.Int).Abs(dv)
	n.Lsh(n, 1)
	n.Add(n, d)
	d.Lsh(d, 1)
	q := n.Quo(n, d)
	if de.Sign() != dv.Sign() {
		q.Neg(q)
	}
	return q
}

func verdict[T constraint.Integer](c *mc.C, op string, a, b T, want *big.Int, got T, err error, lo, hi *big.Int) {
	c.Op("%s(%T %v, %v) = %v, %v", op, a, a, b, got, err)
	switch {
	case want.Cmp(hi) > 0:
		c.Check(err == math.OverflowErr, op, "%s(%T %v, %v): expected an overflow error, got %v, %v", op, a, a, b, got, err)
		c.Outcome(op + "overflow")
	case want.Cmp(lo) < 0:
		c.Check(err == math.UnderflowErr, op, "%s(%T %v, %v): expected an underflow error, got %v, %v", op, a, a, b, got, err)
		c.Outcome(op + "underflow")
	default:
		c.Check(err == nil && bigOf(got).Cmp(want) == 0, op, "%s(%T %v, %v): expected %v, got %v, %v", op, a, a, b, want, got, err)
		c.Outcome(op + want.String())
	}
}

func mulDiv[T constraint.Integer](c *mc.C, a, b T) {
	lo, hi := limits[T]()
	ba, bb := bigOf(a), bigOf(b)
	m := b
	err := math.Mul(a, &m)
	verdict(c, "Mul", a, b, new(big.Int).Mul(ba, bb), m, err, lo, hi)
	q := T(77)
	err = math.Div(a, b, &q)
	if bb.Sign() == 0 {
		c.Op("Div(%v, 0) = %v", a, err)
		c.Check(err == math.DivByZeroErr, "Div", "Div(%T %v, 0): expected a division by zero error, got %v, %v", a, a, q, err)
	} else {
		verdict(c, "Div", a, b, rounded(ba, bb), q, err, lo, hi)
	}
	c.State(fmt.Sprintf("%T %v %v", a, a, b))
}

func abs[T constraint.Integer](c *mc.C, a T) {
	lo, hi := limits[T]()
	v := a
	err := math.Abs(&v)
	c.Op("Abs(%T %v) = %v, %v", a, a, v, err)
	if ba := bigOf(a); ba.Sign() < 0 && ba.Cmp(lo) == 0 {
		c.Check(err != nil, "Abs", "Abs(%T %v): expected an error, got %v", a, a, v)
		c.Check(v == a, "Abs", "Abs(%T %v): expected the value to remain, got %v", a, a, v)
	} else {
		ba.Abs(ba)
		c.Check(ba.Cmp(hi) <= 0 && err == nil && bigOf(v).Cmp(ba) == 0, "Abs", "Abs(%T %v) = %v, %v", a, a, v, err)
	}
}

func signed[T constraint.SignedInteger](c *mc.C, a, b T) {
	lo, hi := limits[T]()
	ba, bb := bigOf(a), bigOf(b)
	v := b
	err := math.AddInt(a, &v)
	verdict(c, "AddInt", a, b, new(big.Int).Add(ba, bb), v, err, lo, hi)
	v = b
	err = math.SubInt(a, &v)
	verdict(c, "SubInt", a, b, new(big.Int).Sub(ba, bb), v, err, lo, hi)
	mulDiv(c, a, b)
}

func unsigned[T constraint.UnsignedInteger](c *mc.C, a, b T) {
	lo, hi := limits[T]()
	ba, bb := bigOf(a), bigOf(b)
	v := b
	err := math.AddUint(a, &v)
	verdict(c, "AddUint", a, b, new(big.Int).Add(ba, bb), v, err, lo, hi)
	v = b
	err = math.SubUint(a, &v)
	verdict(c, "SubUint", a, b, new(big.Int).Sub(ba, bb), v, err, lo, hi)
	mulDiv(c, a, b)
}

func all[T constraint.Integer]() (res []T) {
	lo, hi := limits[T]()
	for i := new(big.Int).Set(lo); i.Cmp(hi) <= 0; i.Add(i, big.NewInt(1)) {
		res = append(res, fromBig[T](i))
	}
	return
}

// boundary gives the values near zero, near the limits, their halves and their square roots
func boundary[T constraint.Integer](near int64) (res []T) {
	lo, hi := limits[T]()
	seen := map[string]bool{}
	add := func(b *big.Int) {
		for d := -near; d <= near; d++ {
			x := new(big.Int).Add(b, big.NewInt(d))
			if x.Cmp(lo) >= 0 && x.Cmp(hi) <= 0 && !seen[x.String()] {
				seen[x.String()] = true
				res = append(res, fromBig[T](x))
			}
		}
	}
	add(new(big.Int))
	for i := int64(-12); i <= 12; i++ {
		add(big.NewInt(i * 10))
	}
	for _, l := range []*big.Int{lo, hi} {
		add(l)
		for _, d := range []int64{2, 3, 4, 5, 7, 10, 100} {
			add(new(big.Int).Quo(l, big.NewInt(d)))
		}
		s := new(big.Int).Sqrt(new(big.Int).Abs(l))
		add(s)
		add(new(big.Int).Neg(s))
		add(new(big.Int).Lsh(s, 1))
	}
	for k := uint(7); k < 64; k += 8 {
		p := new(big.Int).Lsh(big.NewInt(1), k)
		add(p)
		add(new(big.Int).Neg(p))
		p = new(big.Int).Lsh(big.NewInt(1), k+1)
		add(p)
		add(new(big.Int).Neg(p))
	}
	return
}

func pairs[T constraint.Integer](vals []T, f func(c *mc.C, a, b T)) func(c *mc.C) {
	return func(c *mc.C) {
		a, b := mc.Pick(c, vals), mc.Pick(c, vals)
		f(c, a, b)
	}
}

// powers gives the values next to every power of two, and the small ones
func powers[T constraint.Integer](small int64) (res []T) {
	lo, hi := limits[T]()
	seen := map[string]bool{}
	add := func(b *big.Int) {
		if b.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 && !seen[b.String()] {
			seen[b.String()] = true
			res = append(res, fromBig[T](b))
		}
	}
	both := func(b *big.Int) {
		add(b)
		add(new(big.Int).Neg(b))
	}
	for i := int64(0); i <= small; i++ {
		both(big.NewInt(i))
	}
	for k := uint(4); k <= 64; k++ {
		for d := int64(-1); d <= 1; d++ {
			both(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(d)))
		}
	}
	return
}

// quotients divides values that are a quotient next to a power of two times a divisor next to a power of two and some more
func quotients[T constraint.Integer](small int64, f func(c *mc.C, a, b T)) func(c *mc.C) {
	vals := powers[T](small)
	lo, hi := limits[T]()
	return func(c *mc.C) {
		q, d := mc.Pick(c, vals), mc.Pick(c, vals)
		half := d / 2
		rem := bigOf(mc.Pick(c, []T{0, 1, half - 1, half, half + 1, d - 1}))
		n := new(big.Int).Mul(bigOf(q), bigOf(d))
		if n.Add(n, rem); n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
			c.Prune()
		}
		f(c, fromBig[T](n), d)
	}
}

// products multiplies values by what takes them next to a limit
func products[T constraint.Integer](small int64, f func(c *mc.C, a, b T)) func(c *mc.C) {
	vals := powers[T](small)
	lo, hi := limits[T]()
	return func(c *mc.C) {
		a := mc.Pick(c, vals)
		limit := mc.Pick(c, []*big.Int{lo, hi})
		d := int64(c.Choose(5) - 2)
		if a == 0 {
			c.Prune()
		}
		b := new(big.Int).Quo(limit, bigOf(a))
		if b.Add(b, big.NewInt(d)); b.Cmp(lo) < 0 || b.Cmp(hi) > 0 {
			c.Prune()
		}
		x, y := a, fromBig[T](b)
		if c.Bool() {
			x, y = y, x
		}
		f(c, x, y)
	}
}

func near[T constraint.Integer](r *mc.Run, name string, f func(c *mc.C, a, b T)) {
	small := int64(r.Budget(10, 40))
	r.Explore("quotients-"+name, fmt.Sprintf("quotients and divisors up to %d and next to all powers of two, with all remainders next to zero, to half the divisor, and to the divisor", small), -1, quotients(small, f))
	r.Explore("products-"+name, fmt.Sprintf("factors up to %d and next to all powers of two, times what takes them next to the limits", small), -1, products(small, f))
}

func main() {
	mc.Main("C09", "model_checking", []string{"math/big is the reference arithmetic", "types wider than 8 bits are represented by the values near zero, the limits, their fractions and their square roots"}, func(r *mc.Run) {
		around := int64(r.Budget(1, 4))
		r.Explore("int8", "all pairs of int8, add, subtract, multiply, divide", -1, pairs(all[int8](), signed[int8]))
		r.Explore("uint8", "all pairs of uint8", -1, pairs(all[uint8](), unsigned[uint8]))
		b := "all pairs of boundary values"
		r.Explore("int16", b, -1, pairs(boundary[int16](around), signed[int16]))
		r.Explore("int32", b, -1, pairs(boundary[int32](around), signed[int32]))
		r.Explore("int64", b, -1, pairs(boundary[int64](around), signed[int64]))
		r.Explore("int", b, -1, pairs(boundary[int](around), signed[int]))
		r.Explore("uint16", b, -1, pairs(boundary[uint16](around), unsigned[uint16]))
		r.Explore("uint32", b, -1, pairs(boundary[uint32](around), unsigned[uint32]))
		r.Explore("uint64", b, -1, pairs(boundary[uint64](around), unsigned[uint64]))
		r.Explore("uint", b, -1, pairs(boundary[uint](around), unsigned[uint]))
		near(r, "int16", signed[int16])
		near(r, "int32", signed[int32])
		near(r, "int64", signed[int64])
		near(r, "int", signed[int])
		near(r, "uint16", unsigned[uint16])
		near(r, "uint32", unsigned[uint32])
		near(r, "uint64", unsigned[uint64])
		near(r, "uint", unsigned[uint])
		near(r, "subtype", signed[mI64])
		few := r.Budget(6, 60)
		i16, u16 := all[int16](), all[uint16]()
		r.Explore("int16-all", fmt.Sprintf("every int16 with the values up to %d and the limits", few), -1, func(c *mc.C) {
			b := int16(c.Choose(2*few+3) - few)
			switch {
			case int(b) == few+1:
				b = 1<<15 - 1
			case int(b) == few+2:
				b = -1 << 15
			}
			signed(c, mc.Pick(c, i16), b)
		})
		r.Explore("uint16-all", fmt.Sprintf("every uint16 with the values up to %d and the limit", few), -1, func(c *mc.C) {
			b := uint16(c.Choose(few + 2))
			if int(b) == few+1 {
				b = 1<<16 - 1
			}
			unsigned(c, mc.Pick(c, u16), b)
		})
		r.Explore("subtypes", b+" of subtypes", -1, func(c *mc.C) {
			switch c.Choose(10) {
			case 0:
				pairs(boundary[mI8](1), signed[mI8])(c)
			case 1:
				pairs(boundary[mI64](0), signed[mI64])(c)
			case 2:
				pairs(boundary[mU32](0), unsigned[mU32])(c)
			case 3:
				pairs(boundary[mI](0), signed[mI])(c)
			case 4:
				pairs(boundary[mI16](0), signed[mI16])(c)
			case 5:
				pairs(boundary[mI32](0), signed[mI32])(c)
			case 6:
				pairs(boundary[mU8](0), unsigned[mU8])(c)
			case 7:
				pairs(boundary[mU16](0), unsigned[mU16])(c)
			case 8:
				pairs(boundary[mU64](0), unsigned[mU64])(c)
			case 9:
				pairs(boundary[mU](0), unsigned[mU])(c)
			}
		})
		r.Explore("abs", "all int8, uint8, int16 and uint16, boundary values of the others", -1, func(c *mc.C) {
			switch c.Choose(20) {
			case 0:
				abs(c, mc.Pick(c, all[int8]()))
			case 1:
				abs(c, mc.Pick(c, all[uint8]()))
			case 2:
				abs(c, mc.Pick(c, i16))
			case 3:
				abs(c, mc.Pick(c, u16))
			case 4:
				abs(c, mc.Pick(c, boundary[int32](around)))
			case 5:
				abs(c, mc.Pick(c, boundary[uint32](around)))
			case 6:
				abs(c, mc.Pick(c, boundary[int64](around)))
			case 7:
				abs(c, mc.Pick(c, boundary[uint64](around)))
			case 8:
				abs(c, mc.Pick(c, boundary[int](around)))
			case 9:
				abs(c, mc.Pick(c, boundary[uint](around)))
			case 10:
				abs(c, mc.Pick(c, boundary[mI8](around)))
			case 11:
				abs(c, mc.Pick(c, boundary[mI64](around)))
			case 12:
				abs(c, mc.Pick(c, boundary[mU32](around)))
			case 13:
				abs(c, mc.Pick(c, boundary[mI](around)))
			case 14:
				abs(c, mc.Pick(c, boundary[mI16](around)))
			case 15:
				abs(c, mc.Pick(c, boundary[mI32](around)))
			case 16:
				abs(c, mc.Pick(c, boundary[mU8](around)))
			case 17:
				abs(c, mc.Pick(c, boundary[mU16](around)))
			case 18:
				abs(c, mc.Pick(c, boundary[mU64](around)))
			case 19:
				abs(c, mc.Pick(c, boundary[mU](around)))
			}
		})
	})
}
