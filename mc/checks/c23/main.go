// C23: predicates and sorts agree with the order and nature of values
package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"
	"unsafe"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/funcs"
	"verifmc/mc"
)

// ==== comparisons

func ordered[T constraint.Ordered](r *mc.Run, name string, vals ...T) {
	r.Explore("compare-"+name, "all pairs of values", -1, func(c *mc.C) {
		a, b := mc.Pick(c, vals), mc.Pick(c, vals)
		show := func(op string, got, want bool) {
			c.Check(got == want, "compare", "%v %s %v is %t", b, op, a, got)
		}
		show("<", funcs.LessThan(a)(b), b < a)
		show("<=", funcs.LessThanEqual(a)(b), b <= a)
		show(">", funcs.GreaterThan(a)(b), b > a)
		show(">=", funcs.GreaterThanEqual(a)(b), b >= a)
		show("==", funcs.Equal(a)(b), b == a)
		show("!=", funcs.Not(funcs.Equal(a))(b), b != a)
		c.Ops(6)
		c.Outcome(fmt.Sprint(a < b, a == b))
	})
	n := r.Budget(5, 6)
	r.Explore("sort-"+name, fmt.Sprintf("all lists of up to %d of up to 5 values, sorted as ordered, and by a function", n), -1, func(c *mc.C) {
		vs := vals
		if len(vs) > 5 {
			vs = vs[:5]
		}
		list := anyList(c, vs, n)
		less := func(a, b T) bool { return a < b }
		sorted(c, list, less, funcs.SliceSortOrdered[T], "as ordered")
		desc := func(a, b T) bool { return a > b }
		sorted(c, list, desc, func(s []T) []T { return funcs.SliceSortBy(s, desc) }, "descending")
		c.Ops(2)
		c.Outcome(fmt.Sprint(list))
	})
	r.Explore("long-"+name, "lists of 10 to 300 values, in 12 arrangements, sorted", -1, func(c *mc.C) {
		size, step := mc.Pick(c, []int{10, 11, 12, 13, 20, 49, 50, 51, 100, 300}), mc.Pick(c, []int{0, 1, 2, 3, 5, 7, 11, 13, 17, 64, 99, 101})
		var list []T
		for i := 0; i < size; i++ {
			list = append(list, vals[(i*step+i/7)%len(vals)])
		}
		sorted(c, list, func(a, b T) bool { return a < b }, funcs.SliceSortOrdered[T], "as ordered")
		desc := func(a, b T) bool { return a > b }
		sorted(c, list, desc, func(s []T) []T { return funcs.SliceSortBy(s, desc) }, "descending")
	})
}

func anyList[T any](c *mc.C, vals []T, max int) []T {
	n := c.Choose(max+2) - 1
	if n < 0 {
		return nil
	}
	list := make([]T, 0, n)
	for i := 0; i < n; i++ {
		list = append(list, mc.Pick(c, vals))
	}
	return list
}

// sorted checks that sort arranges a copy of list in place, into a permutation, in order
func sorted[T comparable](c *mc.C, list []T, less func(a, b T) bool, sort func([]T) []T, what string) {
	in := append([]T(nil), list...)
	out := sort(in)
	c.Check(len(out) == len(in), "sort", "%v sorted %s is %v", list, what, out)
	count := map[T]int{}
	for _, v := range list {
		count[v]++
	}
	for i, v := range out {
		c.Check(in[i] == v, "in-place", "%v sorted %s is %v, but not in place: %v", list, what, out, in)
		c.Check(i == 0 || !less(v, out[i-1]), "sort", "%v sorted %s is %v", list, what, out)
		count[v]--
	}
	for _, n := range count {
		c.Check(n == 0, "sort", "%v sorted %s is %v", list, what, out)
	}
}

func signed[T constraint.Signed](r *mc.Run, name string, vals ...T) {
	r.Explore("sign-"+name, "all values", -1, func(c *mc.C) {
		v := mc.Pick(c, vals)
		c.Check(funcs.IsNegative[T]()(v) == (v < 0), "sign", "%v is negative: %t", v, v >= 0)
		c.Check(funcs.IsNonNegative[T]()(v) == (v >= 0), "sign", "%v is not negative: %t", v, v < 0)
		c.Check(funcs.IsPositive[T]()(v) == (v > 0), "sign", "%v is positive: %t", v, v <= 0)
		c.Ops(3)
		c.Outcome(fmt.Sprint(v < 0, v > 0))
	})
}

func same[T comparable](r *mc.Run, name string, vals ...T) {
	n := r.Budget(4, 5)
	r.Explore("in-"+name, fmt.Sprintf("all values in all lists of up to %d values", n), -1, func(c *mc.C) {
		list, v := anyList(c, vals, n), mc.Pick(c, vals)
		want := false
		for _, l := range list {
			want = want || l == v
		}
		filter := funcs.In(list...)
		c.Check(filter(v) == want && filter(v) == want, "in", "%v in %v: %t", v, list, !want)
		if len(list) > 0 {
			eq := funcs.Equal(list[0])
			c.Check(eq(v) == (list[0] == v) && eq(v) == (list[0] == v), "equal", "%v equals %v: %t", v, list[0], list[0] != v)
		}
		c.Ops(4)
		c.Outcome(fmt.Sprint(len(list), want))
	})
}

// ==== filters

// expr is an expression of filters over one input byte, whose bits are what the filters answer
type expr struct {
	kind string // bit, not, and, or
	bit  int
	args []*expr
}

func anyExpr(c *mc.C, depth, width int, bits *int) *expr {
	k := 0
	if depth > 0 {
		k = c.Choose(4)
	}
	switch k {
	case 0:
		*bits++
		return &expr{kind: "bit", bit: *bits - 1}
	case 1:
		return &expr{kind: "not", args: []*expr{anyExpr(c, depth-1, width, bits)}}
	}
	e := &expr{kind: []string{"and", "or"}[k-2]}
	for i := c.Choose(width + 1); i > 0; i-- {
		e.args = append(e.args, anyExpr(c, depth-1, width-1, bits))
	}
	return e
}

func (e *expr) filter(log *[]int) func(uint) bool {
	var fs []func(uint) bool
	for _, a := range e.args {
		fs = append(fs, a.filter(log))
	}
	switch e.kind {
	case "bit":
		return func(v uint) bool { *log = append(*log, e.bit); return v&(1<<e.bit) != 0 }
	case "not":
		return funcs.Not(fs[0])
	case "and":
		return funcs.And(fs...)
	}
	return funcs.Or(fs...)
}

func (e *expr) eval(v uint, log *[]int) bool {
	switch e.kind {
	case "bit":
		*log = append(*log, e.bit)
		return v&(1<<e.bit) != 0
	case "not":
		return !e.args[0].eval(v, log)
	case "and":
		for _, a := range e.args {
			if !a.eval(v, log) {
				return false
			}
		}
		return true
	}
	for _, a := range e.args {
		if a.eval(v, log) {
			return true
		}
	}
	return len(e.args) == 0
}

func (e *expr) String() string {
	if e.kind == "bit" {
		return fmt.Sprint(e.bit)
	}
	var s []string
	for _, a := range e.args {
		s = append(s, a.String())
	}
	return e.kind + "(" + strings.Join(s, ", ") + ")"
}

// ==== nil

// nilOf checks the nil tests for a type that can be nil, or cannot
func nilOf[T any](c *mc.C, nillable bool, vals ...T) {
	typ := reflect.TypeOf(&vals[0]).Elem()
	c.Ops(1)
	c.Check(funcs.Nillable(typ) == nillable, "nillable", "%v can be nil: %t", typ, !nillable)
	p := mc.Try(func() { funcs.MustBeNillable(typ) })
	c.Check((p == nil) == nillable, "nillable", "%v can be nil, %t, must panics with %v", typ, nillable, p)
	if !nillable {
		c.Check(mc.Try(func() { funcs.IsNil[T]() }) != nil && mc.Try(func() { funcs.IsNonNil[T]() }) != nil, "is-nil", "filters are made for %v", typ)
	}
	for _, v := range vals {
		isNil := nillable && reflect.ValueOf(v).IsNil()
		c.Check(funcs.IsNilValue(v) == isNil, "nil-value", "%#v of type %v is nil: %t", v, typ, !isNil)
		if nillable {
			c.Check(funcs.IsNil[T]()(v) == isNil, "is-nil", "%#v of type %v is nil: %t", v, typ, !isNil)
			c.Check(funcs.IsNonNil[T]()(v) != isNil, "is-nil", "%#v of type %v is not nil: %t", v, typ, isNil)
		}
		var res T
		p := mc.Try(func() { res = funcs.MustNonNilValue(v) })
		c.Check((p == nil) == (nillable && !isNil), "must-non-nil", "%#v of type %v must not be nil: panic %v", v, typ, p)
		if p == nil {
			c.Check(fmt.Sprintf("%#v", res) == fmt.Sprintf("%#v", v), "must-non-nil", "%#v of type %v becomes %#v", v, typ, res)
		}
	}
}

func zero[T any](c *mc.C, vals ...T) {
	for _, v := range vals {
		isZero := reflect.ValueOf(&v).Elem().IsZero()
		var res T
		p := mc.Try(func() { res = funcs.MustNonZero(v) })
		c.Check((p != nil) == isZero, "must-non-zero", "%#v of type %T: panic %v", v, v, p)
		if !isZero {
			c.Check(fmt.Sprintf("%#v", res) == fmt.Sprintf("%#v", v), "must-non-zero", "%#v of type %T becomes %#v", v, v, res)
		}
		c.Ops(1)
	}
}

func ternary[T comparable](c *mc.C, a, b T) {
	var (
		zv   T
		log  string
		cond = c.Bool()
		t    = func() T { log += "t"; return a }
		f    = func() T { log += "f"; return b }
		want = b
		call = "f"
	)
	if cond {
		want, call = a, "t"
	}
	got := funcs.Ternary(cond, a, b)
	c.Check(got == want, "ternary", "%t ? %v : %v is %v", cond, a, b, got)
	got = funcs.TernaryResult(cond, t, f)
	c.Check(got == want && log == call, "ternary", "%t ? %v : %v is %v, calling %s", cond, a, b, got, log)
	log = ""
	if cond {
		c.Check(funcs.TernaryResult(cond, t, nil) == a && log == "t", "ternary", "the function for true, alone, is not called once")
		c.Check(funcs.TernaryResult(cond, nil, f) == zv && log == "t", "ternary", "with no function for true, the result is not zero, or the other is called")
	} else {
		c.Check(funcs.TernaryResult(cond, nil, f) == b && log == "f", "ternary", "the function for false, alone, is not called once")
		c.Check(funcs.TernaryResult(cond, t, nil) == zv && log == "f", "ternary", "with no function for false, the result is not zero, or the other is called")
	}
	log = ""
	c.Check(funcs.TernaryResult[T](cond, nil, nil) == zv && log == "", "ternary", "with no functions, the result is not zero")
	c.Ops(5)
}

// distance compares by any negative or positive number, as constraint.Cmp allows
type distance int

func (d distance) Cmp(o distance) int { return int(d - o) }

func main() {
	mc.Main("C23", "bounded exhaustive", nil, func(r *mc.Run) {
		nan := math.NaN()
		ordered(r, "int", 0, 1, -1, math.MaxInt, math.MinInt, 2)
		ordered[int8](r, "int8", 0, 127, -128, -1, 1)
		ordered[uint64](r, "uint64", 0, 1, math.MaxUint64, 1<<63)
		ordered[uint8](r, "uint8", 0, 1, 255, 128)
		ordered(r, "float64", 0, math.Inf(1), math.Inf(-1), -0.5, math.MaxFloat64, math.SmallestNonzeroFloat64)
		ordered[float32](r, "float32", 0, -1, math.MaxFloat32, 0.5)
		ordered(r, "string", "", "a", "B", "aa", "é")
		r.Explore("compare-nan", "not a number with all floats", -1, func(c *mc.C) {
			v := mc.Pick(c, []float64{0, 1, nan, math.Inf(1)})
			for _, f := range []func(float64) func(float64) bool{funcs.LessThan[float64], funcs.LessThanEqual[float64], funcs.GreaterThan[float64], funcs.GreaterThanEqual[float64], funcs.Equal[float64]} {
				c.Check(!f(v)(nan) && !f(nan)(v), "nan", "not a number compares with %v", v)
			}
			c.Check(!funcs.In(v, nan)(nan) && !funcs.IsNegative[float64]()(nan) && !funcs.IsNonNegative[float64]()(nan) && !funcs.IsPositive[float64]()(nan), "nan", "not a number is in a list or has a sign")
			// whatever else is in the list
			var list []float64
			for i := c.Choose(5); i > 0; i-- {
				list = append(list, mc.Pick(c, []float64{nan, 2, 0, math.Inf(-1), 1}))
			}
			for _, x := range []float64{nan, 2, 0, math.Inf(-1), 1, 3} {
				in := false
				for _, l := range append(list, v) {
					in = in || l == x
				}
				c.Check(funcs.In(append([]float64{v}, list...)...)(x) == in, "in", "%v in %v and %v: expected %t", x, v, list, in)
			}
			c.Ops(15)
		})
		signed(r, "int", 0, 1, -1, math.MaxInt, math.MinInt)
		signed[int8](r, "int8", 0, 1, -1, 127, -128)
		signed[int16](r, "int16", 0, 1, -1, math.MaxInt16, math.MinInt16)
		signed[int32](r, "int32", 0, 1, -1, math.MaxInt32, math.MinInt32)
		signed[int64](r, "int64", 0, 1, -1, math.MaxInt64, math.MinInt64)
		signed(r, "float64", 0, math.Copysign(0, -1), 0.1, -0.1, math.Inf(1), math.Inf(-1), math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64)
		signed[float32](r, "float32", 0, float32(math.Copysign(0, -1)), 0.1, -0.1)
		p1, p2 := new(int), new(int)
		same(r, "int", 0, 1, -1)
		same(r, "string", "", "a", "A")
		same(r, "pointer", p1, p2, nil)
		same[any](r, "any", nil, 0, "", int64(0))
		same(r, "array", [2]int{}, [2]int{0, 1}, [2]int{1})

		// ==== filters

		for _, shape := range [][2]int{{3, 3}, {2, r.Budget(4, 6)}, {r.Budget(4, 5), 2}} {
			depth, width := shape[0], shape[1]
			r.Explore(fmt.Sprint("filters-", depth, "-", width), fmt.Sprintf("all expressions of and, or, not nested up to %d levels, up to %d arguments (fewer at each level), for all answers of the filters; calls stop as soon as the answer is known", depth, width), -1, func(c *mc.C) {
				bits := 0
				e := anyExpr(c, depth, width, &bits)
				if bits > 8 {
					c.Prune()
				}
				var got, want []int
				f := e.filter(&got)
				c.Check(len(got) == 0, "early", "%v calls filters when made", e)
				for v := uint(0); v < 1<<bits; v++ {
					got, want = nil, nil
					res, exp := f(v), e.eval(v, &want)
					c.Check(res == exp, "filter", "%v with answers %b is %t", e, v, res)
					c.Check(fmt.Sprint(got) == fmt.Sprint(want), "short-circuit", "%v with answers %b calls %v, expected %v", e, v, got, want)
				}
				c.Ops(1 << bits)
				c.Outcome(e.String())
			})
		}

		// ==== sorts

		n := r.Budget(4, 5)
		r.Explore("sort-complex", fmt.Sprintf("all lists of up to %d complex numbers", n), -1, func(c *mc.C) {
			list := anyList(c, []complex128{0, 3 + 4i, -5, 1, -1i, complex(0, math.Inf(1)), 4.9, 1e200, 2e200 + 1e200i, -3e200}, n)
			sorted(c, list, func(a, b complex128) bool { return math.Hypot(real(a), imag(a)) < math.Hypot(real(b), imag(b)) }, funcs.SliceSortComplex[complex128], "as complex")
			var list64 []complex64
			for _, z := range list {
				list64 = append(list64, complex64(z))
			}
			sorted(c, list64, func(a, b complex64) bool {
				return math.Hypot(float64(real(a)), float64(imag(a))) < math.Hypot(float64(real(b)), float64(imag(b)))
			}, funcs.SliceSortComplex[complex64], "as complex")
			c.Ops(2)
		})
		r.Explore("sort-cmp", fmt.Sprintf("all lists of up to %d big numbers", n), -1, func(c *mc.C) {
			huge, _ := new(big.Int).SetString("99999999999999999999", 10)
			ints := []*big.Int{big.NewInt(0), huge, big.NewInt(-1), new(big.Int).Neg(huge), big.NewInt(0), big.NewInt(7)}
			var (
				is []*big.Int
				rs []*big.Rat
				fs []*big.Float
				ds []distance
			)
			for i := c.Choose(n + 1); i > 0; i-- {
				v := mc.Pick(c, ints)
				is, rs, fs = append(is, v), append(rs, new(big.Rat).SetFrac(v, big.NewInt(3))), append(fs, new(big.Float).SetInt(v))
				ds = append(ds, distance(v.Sign()*v.BitLen()))
			}
			sorted(c, is, func(a, b *big.Int) bool { return a.Cmp(b) < 0 }, funcs.SliceSortCmp[*big.Int], "as big ints")
			sorted(c, rs, func(a, b *big.Rat) bool { return a.Cmp(b) < 0 }, funcs.SliceSortCmp[*big.Rat], "as big rats")
			sorted(c, fs, func(a, b *big.Float) bool { return a.Cmp(b) < 0 }, funcs.SliceSortCmp[*big.Float], "as big floats")
			sorted(c, ds, func(a, b distance) bool { return a < b }, funcs.SliceSortCmp[distance], "as distances")
			c.Ops(4)
		})
		perm := r.Budget(7, 8)
		r.Explore("sort-permutations", fmt.Sprintf("all permutations of %d structs, by each of two fields", perm), -1, func(c *mc.C) {
			type rec struct {
				a int
				b string
			}
			var left, list []rec
			for i := 0; i < perm; i++ {
				left = append(left, rec{i, strings.Repeat("x", (i*5)%perm)})
			}
			for len(left) > 0 {
				i := c.Choose(len(left))
				list = append(list, left[i])
				left = append(append([]rec{}, left[:i]...), left[i+1:]...)
			}
			byA, byB := func(x, y rec) bool { return x.a < y.a }, func(x, y rec) bool { return x.b > y.b }
			sorted(c, list, byA, func(s []rec) []rec { return funcs.SliceSortBy(s, byA) }, "by number")
			sorted(c, list, byB, func(s []rec) []rec { return funcs.SliceSortBy(s, byB) }, "by string")
			c.Ops(2)
		})

		top := r.Budget(65536, 131072)
		r.Explore("sort-long", fmt.Sprintf("lists of up to %d (around the powers of two) complex numbers, big numbers, numbers with an order of their own, structs, in 8 arrangements", top), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(top))
			pat := mc.Pick(c, []func(i int) int{
				func(i int) int { return i }, func(i int) int { return -i }, func(i int) int { return i * 7919 % 1009 }, func(i int) int { return i % 3 },
				func(i int) int { return 0 }, func(i int) int { return (i - n/2) * (i - n/2) }, func(i int) int { return i * (1 - i%2*2) }, func(i int) int { return (i*i + 3*i) % 127 },
			})
			type rec struct {
				a int
				b string
			}
			var (
				zs []complex128
				is []*big.Int
				rs []*big.Rat
				fs []*big.Float
				ds []distance
				ps []rec
			)
			for i := 0; i < n; i++ {
				v := pat(i)
				zs = append(zs, complex(float64(v), float64(i%5)))
				is, rs, fs = append(is, big.NewInt(int64(v))), append(rs, big.NewRat(int64(v), 3)), append(fs, big.NewFloat(float64(v)/4))
				ds, ps = append(ds, distance(v*1000)), append(ps, rec{v, fmt.Sprint(i % 10)})
			}
			byA, byB := func(x, y rec) bool { return x.a < y.a }, func(x, y rec) bool { return x.b > y.b || x.b == y.b && x.a < y.a }
			sorted(c, zs, func(a, b complex128) bool { return math.Hypot(real(a), imag(a)) < math.Hypot(real(b), imag(b)) }, funcs.SliceSortComplex[complex128], "as complex")
			sorted(c, is, func(a, b *big.Int) bool { return a.Cmp(b) < 0 }, funcs.SliceSortCmp[*big.Int], "as big ints")
			sorted(c, rs, func(a, b *big.Rat) bool { return a.Cmp(b) < 0 }, funcs.SliceSortCmp[*big.Rat], "as big rats")
			sorted(c, fs, func(a, b *big.Float) bool { return a.Cmp(b) < 0 }, funcs.SliceSortCmp[*big.Float], "as big floats")
			sorted(c, ds, func(a, b distance) bool { return a < b }, funcs.SliceSortCmp[distance], "as distances")
			sorted(c, ps, byA, func(s []rec) []rec { return funcs.SliceSortBy(s, byA) }, "by number")
			sorted(c, ps, byB, func(s []rec) []rec { return funcs.SliceSortBy(s, byB) }, "by string")
			c.Ops(7)
			c.Outcome(fmt.Sprint(n))
		})
		r.Explore("long-filters", fmt.Sprintf("in, and, or of up to %d (around the powers of two) values or filters, of which the first, the second, the one in the middle, the last but one, the last, or none decides", top), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(top))
			at := mc.Pick(c, []int{-1, 0, 1, n / 2, n - 2, n - 1})
			if at >= n || at < -1 {
				c.Prune()
			}
			var (
				ints    []int
				strs    []string
				vals    []any
				and, or []func(int) bool
				calls   int
			)
			for i := 0; i < n; i++ {
				ints, strs, vals = append(ints, 3*i), append(strs, strings.Repeat("x", i%64)+fmt.Sprint(i)), append(vals, i)
				hit := i == at
				and = append(and, func(int) bool { calls++; return !hit })
				or = append(or, func(int) bool { calls++; return hit })
			}
			vi, vs, va := 3*at, "", any("0")
			if at >= 0 {
				vs, va = strs[at], at
			}
			want := at >= 0
			c.Check(funcs.In(ints...)(vi) == want && funcs.In(strs...)(vs) == want && funcs.In(vals...)(va) == want, "in", "the value at %d of %d is in the list: expected %t", at, n, want)
			c.Check(!funcs.In(ints...)(3*n) && !funcs.In(ints...)(1), "in", "a value that is not in a list of %d is", n)
			num := n
			if at >= 0 {
				num = at + 1
			}
			res := funcs.And(and...)(0)
			c.Check(res == !want && calls == num, "and", "and of %d filters, false at %d, is %t after %d calls", n, at, res, calls)
			calls = 0
			res = funcs.Or(or...)(0)
			c.Check(res == (want || n == 0) && calls == num, "or", "or of %d filters, true at %d, is %t after %d calls", n, at, res, calls)
			c.Ops(7)
			c.Outcome(fmt.Sprint(n, at))
		})

		// ==== nil, zero, ternary, selection

		r.Explore("nil", "values of all kinds of types, nil and not", -1, func(c *mc.C) {
			var (
				i  = 1
				pp = &p1
				np *int
			)
			switch c.Choose(20) {
			case 0:
				nilOf(c, true, nil, &i)
			case 1:
				nilOf(c, true, nil, pp, &np)
			case 2:
				nilOf(c, true, nil, []int{}, []int{0})
			case 3:
				nilOf(c, true, nil, map[string]int{})
			case 4:
				nilOf(c, true, nil, func() {})
			case 5:
				nilOf(c, true, nil, make(chan int))
			case 6:
				nilOf(c, false, 0, 1)
			case 7:
				nilOf(c, false, "", "nil")
			case 8:
				nilOf(c, false, 0.0)
			case 9:
				nilOf(c, false, false, true)
			case 10:
				nilOf(c, false, struct{ p *int }{})
			case 11:
				nilOf(c, false, [1]*int{})
			case 12:
				nilOf(c, false, complex(0, 0))
			case 13:
				nilOf[big.Int](c, false, *big.NewInt(0))
			case 14:
				nilOf(c, true, nil, big.NewInt(0))
			case 15:
				c.Check(funcs.IsNilValue(nil), "nil-value", "nil is not nil")
				c.Check(funcs.IsNilValue(error(nil)), "nil-value", "a nil error is not nil")
				c.Check(funcs.IsNilValue(any(np)), "nil-value", "a nil pointer as any is not nil")
				c.Check(!funcs.IsNilValue(errors.New("")), "nil-value", "an error is nil")
				c.Check(mc.Try(func() { funcs.MustNonNilValue[error](nil) }) != nil, "must-non-nil", "a nil error is not nil")
				c.Check(mc.Try(func() { funcs.MustNonNilValue[any](np) }) != nil, "must-non-nil", "a nil pointer as any is not nil")
				c.Check(mc.Try(func() { funcs.MustNonNilValue[any](5) }) != nil, "must-non-nil", "5 as any could be nil")
				e := errors.New("")
				c.Check(funcs.MustNonNilValue(e) == e, "must-non-nil", "an error becomes something else")
			case 16:
				nilOf(c, true, mySlice(nil), mySlice{})
				nilOf(c, true, myFunc(nil))
			case 17:
				nilOf(c, true, (<-chan int)(nil))
				nilOf(c, true, (chan<- int)(nil))
			case 18:
				nilOf(c, false, uintptr(0))
				nilOf(c, false, int8(0), 1)
				nilOf(c, false, uint64(0), 1)
			default:
				nilOf(c, true, (*unsafe.Pointer)(nil))
			}
		})
		r.Explore("zero", "values of all kinds of types, zero and not", -1, func(c *mc.C) {
			i := 0
			zero(c, 0, 1, -1)
			zero(c, "", " ")
			zero(c, 0.0, 1e-300, nan)
			zero(c, false, true)
			zero(c, nil, &i)
			zero(c, nil, []int{}, []int{0})
			zero(c, nil, map[string]int{})
			zero(c, [2]int{}, [2]int{0, 1})
			zero(c, struct{ a, b int }{}, struct{ a, b int }{0, 1})
			zero[any](c, nil, 5)
			zero[error](c, nil, errors.New(""))
			zero(c, 0i, 1i)
			zero(c, nil, func() {})
			for _, s := range [][]int{nil, {}, {0}, {1, 2}} {
				var res []int
				p := mc.Try(func() { res = funcs.MustNonEmptySlice(s) })
				c.Check((p != nil) == (len(s) == 0) && (p != nil || fmt.Sprint(res) == fmt.Sprint(s)), "must-non-empty", "%#v: %v, panic %v", s, res, p)
			}
			c.Ops(4)
		})
		r.Explore("select", "all conditions, functions present or not, values of several types", -1, func(c *mc.C) {
			ternary(c, 1, 2)
			ternary(c, "", "a")
			ternary(c, p1, nil)
			ternary[error](c, nil, errors.New(""))
			ternary[any](c, 1, "1")
			a, b, d := mc.Pick(c, []int{0, 1}), mc.Pick(c, []string{"", "b"}), mc.Pick(c, []*int{nil, p1})
			c.Check(funcs.FirstValue2(a, b) == a && funcs.SecondValue2(a, b) == b, "select", "of (%v, %v), the first is %v, the second %v", a, b, funcs.FirstValue2(a, b), funcs.SecondValue2(a, b))
			c.Check(funcs.FirstValue3(a, b, d) == a && funcs.SecondValue3(a, b, d) == b && funcs.ThirdValue3(a, b, d) == d, "select", "of (%v, %v, %v), the wrong value is selected", a, b, d)
			c.Check(funcs.FirstValue2(1, 2) == 1 && funcs.SecondValue2(1, 2) == 2 && funcs.FirstValue3(1, 2, 3) == 1 && funcs.SecondValue3(1, 2, 3) == 2 && funcs.ThirdValue3(1, 2, 3) == 3, "select", "of values of the same type, the wrong one is selected")
		})
	})
}

type (
	mySlice []int
	myFunc  func()
)
