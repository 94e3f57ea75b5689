// C20: unions, optional values, results and tuples hold exactly what was put in
package main

import (
	"fmt"
	"io"
	"math/big"
	"reflect"
	"strings"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/tuple"
	"github.com/bantling/micro/union"
	ureflect "github.com/bantling/micro/union/reflect"
	"verifmc/mc"
)

// ==== unions

// box is access to a union of some kind: members by number
type box struct {
	n     int
	which func() union.Which
	get   func(i int) any
	set   func(i, k int)
	str   func() string
	copy  func() func() string // a copy of the union, which tells all about it later
}

var (
	whichs = []union.Which{union.T, union.U, union.V, union.W}
	aInt   = 5
	ints   = []int{0, -7}
	strs   = []string{"", "x y"}
	ptrs   = []*int{nil, &aInt}
	anys   = []any{nil, 3.5}
)

func values(i int) []any {
	switch i {
	case 0:
		return []any{ints[0], ints[1]}
	case 1:
		return []any{strs[0], strs[1]}
	case 2:
		return []any{ptrs[0], ptrs[1]}
	default:
		return anys
	}
}

func all(b *box) string {
	s := fmt.Sprint(b.which(), " ", b.str())
	for i := 0; i < b.n; i++ {
		p := mc.Try(func() { s += fmt.Sprintf(" %v", b.get(i)) })
		if p != nil {
			s += " -"
		}
	}
	return s
}

func two(u *union.Two[int, string]) *box {
	return &box{2, func() union.Which { return u.Which() }, func(i int) any {
		if i == 0 {
			return u.T()
		}
		return u.U()
	}, func(i, k int) {
		if i == 0 {
			u.SetT(ints[k])
		} else {
			u.SetU(strs[k])
		}
	}, func() string { return u.String() }, func() func() string { c := *u; return func() string { return all(two(&c)) } }}
}

func three(u *union.Three[int, string, *int]) *box {
	return &box{3, func() union.Which { return u.Which() }, func(i int) any {
		return []func() any{func() any { return u.T() }, func() any { return u.U() }, func() any { return u.V() }}[i]()
	}, func(i, k int) {
		[]func(){func() { u.SetT(ints[k]) }, func() { u.SetU(strs[k]) }, func() { u.SetV(ptrs[k]) }}[i]()
	}, func() string { return u.String() }, func() func() string { c := *u; return func() string { return all(three(&c)) } }}
}

func four(u *union.Four[int, string, *int, any]) *box {
	return &box{4, func() union.Which { return u.Which() }, func(i int) any {
		return []func() any{func() any { return u.T() }, func() any { return u.U() }, func() any { return u.V() }, func() any { return u.W() }}[i]()
	}, func(i, k int) {
		[]func(){func() { u.SetT(ints[k]) }, func() { u.SetU(strs[k]) }, func() { u.SetV(ptrs[k]) }, func() { u.SetW(anys[k]) }}[i]()
	}, func() string { return u.String() }, func() func() string { c := *u; return func() string { return all(four(&c)) } }}
}

// same: all members of the same type
func same(u *union.Four[int, int, int, int]) *box {
	return &box{4, func() union.Which { return u.Which() }, func(i int) any {
		return []func() int{u.T, u.U, u.V, u.W}[i]()
	}, func(i, k int) {
		[]func(int){u.SetT, u.SetU, u.SetV, u.SetW}[i](ints[k])
	}, func() string { return u.String() }, func() func() string { c := *u; return func() string { return all(same(&c)) } }}
}

func construct(c *mc.C) (b *box, m int, k int, isInts bool) {
	kind := c.Choose(4)
	n := []int{2, 3, 4, 4}[kind]
	m = c.Choose(n + 1)
	if m < n {
		k = c.Choose(2)
	}
	switch kind {
	case 0:
		var u union.Two[int, string]
		switch m {
		case 0:
			u = union.Of2T[int, string](ints[k])
		case 1:
			u = union.Of2U[int, string](strs[k])
		}
		b = two(&u)
	case 1:
		var u union.Three[int, string, *int]
		switch m {
		case 0:
			u = union.Of3T[int, string, *int](ints[k])
		case 1:
			u = union.Of3U[int, string, *int](strs[k])
		case 2:
			u = union.Of3V[int, string, *int](ptrs[k])
		}
		b = three(&u)
	case 2:
		var u union.Four[int, string, *int, any]
		switch m {
		case 0:
			u = union.Of4T[int, string, *int, any](ints[k])
		case 1:
			u = union.Of4U[int, string, *int, any](strs[k])
		case 2:
			u = union.Of4V[int, string, *int, any](ptrs[k])
		case 3:
			u = union.Of4W[int, string, *int, any](anys[k])
		}
		b = four(&u)
	default:
		var u union.Four[int, int, int, int]
		switch m {
		case 0:
			u = union.Of4T[int, int, int, int](ints[k])
		case 1:
			u = union.Of4U[int, int, int, int](ints[k])
		case 2:
			u = union.Of4V[int, int, int, int](ints[k])
		case 3:
			u = union.Of4W[int, int, int, int](ints[k])
		}
		b, isInts = same(&u), true
	}
	if m == n {
		m, k = 0, 0 // the zero union has a zero first value
	}
	return
}

func unions(d int) func(c *mc.C) {
	return func(c *mc.C) {
		b, m, k, isInts := construct(c)
		c.Op("member %d value %d", m, k)
		check := func() {
			vals := func(i int) any {
				if isInts {
					return ints[k]
				}
				return values(i)[k]
			}
			c.Check(b.which() == whichs[m] && b.which().String() == "TUVW"[m:m+1], "which", "the union has member %v, expected %v", b.which(), whichs[m])
			c.Check(b.str() == fmt.Sprintf("%v", vals(m)), "string", "the union is %q, expected %v", b.str(), vals(m))
			for i := 0; i < b.n; i++ {
				var got any
				p := mc.Try(func() { got = b.get(i) })
				if i == m {
					c.Check(p == nil && got == vals(m), "value", "member %v is %v (panic %v), expected %v", whichs[i], got, p, vals(m))
				} else {
					_, isErr := p.(error)
					c.Check(isErr, "other", "member %v is %v (panic %v), although the union has member %v", whichs[i], got, p, whichs[m])
				}
			}
		}
		check()
		for i, n := 0, c.Choose(d+1); i < n; i++ {
			before := all(b)
			cp := b.copy()
			m, k = c.Choose(b.n), c.Choose(2)
			c.Op("set member %d to value %d", m, k)
			b.set(m, k)
			check()
			c.Check(cp() == before, "copy", "a copy of the union changed from %s to %s", before, cp())
		}
		c.State(fmt.Sprint(b.n, m, k))
		c.Outcome(all(b))
	}
}

// ==== maybe

// opt is a value for an optional
type opt[T any] struct {
	v   T
	nil bool
}

func eq(a, b any) bool { return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b) }

func maybes[T any](vals []opt[T], d int) func(c *mc.C) {
	return func(c *mc.C) {
		var m union.Maybe[T]
		has, cur := false, -1
		// construct
		switch c.Choose(5) {
		case 0:
		case 1:
			m = union.Empty[T]()
		case 2:
			cur = c.Choose(len(vals))
			c.Op("Of(%v)", vals[cur].v)
			m = union.Of(vals[cur].v)
			has = !vals[cur].nil
		case 3:
			cur = c.Choose(len(vals))
			c.Op("Present(%v)", vals[cur].v)
			p := mc.Try(func() { m = union.Present(vals[cur].v) })
			if vals[cur].nil {
				_, isErr := p.(error)
				c.Check(isErr, "present-nil", "Present(nil) gives %v", p)
				return
			}
			c.Check(p == nil, "present", "Present(%v) panics with %v", vals[cur].v, p)
			has = true
		default:
			var l []T
			switch c.Choose(4) {
			case 0:
			case 1:
				l = []T{}
			case 2:
				cur = c.Choose(len(vals))
				l = []T{vals[cur].v}
			default:
				cur = c.Choose(len(vals))
				l = []T{vals[cur].v, vals[c.Choose(len(vals))].v}
			}
			c.Op("First(%v)", l)
			m = union.First(l)
			has = cur >= 0 && !vals[cur].nil
		}
		var zero T
		check := func() {
			c.Check(m.Present() == has && m.Empty() == !has, "present", "present %v, empty %v, expected present %v", m.Present(), m.Empty(), has)
			var got T
			p := mc.Try(func() { got = m.Get() })
			if has {
				c.Check(p == nil && eq(got, vals[cur].v), "get", "Get() = %v (panic %v), expected %v", got, p, vals[cur].v)
				c.Check(m.String() == fmt.Sprintf("%v", any(vals[cur].v)), "string", "String() = %s, expected %v", m.String(), vals[cur].v)
			} else {
				_, isErr := p.(error)
				c.Check(isErr, "get-empty", "Get() of an empty one gives %v (panic %v)", got, p)
				c.Check(strings.HasPrefix(m.String(), "Empty"), "string", "String() = %s of an empty one", m.String())
			}
			for _, o := range vals {
				want := o.v
				if has {
					want = vals[cur].v
				}
				got := m.OrElse(o.v)
				c.Check(eq(got, want), "or-else", "OrElse(%v) = %v, expected %v", o.v, got, want)
			}
			v, err := m.OrError(mc.ErrCustom)
			if has {
				c.Check(err == nil && eq(v, vals[cur].v), "or-error", "OrError() = %v, %v, expected %v", v, err, vals[cur].v)
			} else {
				c.Check(err == mc.ErrCustom && eq(v, zero), "or-error", "OrError() of an empty one = %v, %v", v, err)
			}
		}
		check()
		for i, n := 0, c.Choose(d+1); i < n; i++ {
			k := c.Choose(2*len(vals) + 1)
			cp, before := m, m.String()
			switch {
			case k == 2*len(vals):
				c.Op("SetEmpty()")
				m.SetEmpty()
				has = false
			case k%2 == 0:
				c.Op("Set(%v)", vals[k/2].v)
				m.Set(vals[k/2].v)
				cur = k / 2
				has = !vals[cur].nil
			default:
				err := m.SetOrError(vals[k/2].v)
				c.Op("SetOrError(%v) = %v", vals[k/2].v, err)
				c.Check((err != nil) == has, "set-or-error", "SetOrError(%v) = %v, present before: %v", vals[k/2].v, err, has)
				if !has {
					cur = k / 2
					has = !vals[cur].nil
				}
			}
			check()
			c.Check(cp.String() == before, "copy", "a copy changed from %s to %s", before, cp)
		}
		c.State(fmt.Sprint(has, cur))
		c.Outcome(fmt.Sprint(has, cur))
	}
}

// ==== results

func results[R any](vals []R, zero []bool) func(c *mc.C) {
	return func(c *mc.C) {
		k, e := c.Choose(len(vals)), c.Choose(3)
		v := vals[k]
		err := []error{nil, mc.ErrCustom, io.EOF}[e]
		var r union.Result[R]
		var zv R
		check := func(v R, err error, what string) {
			c.Op("%s", what)
			c.Check(r.HasResult() == (err == nil) && r.HasError() == (err != nil), "has", "%s: has result %v, has error %v", what, r.HasResult(), r.HasError())
			c.Check(eq(r.Get(), v) && r.Error() == err, "content", "%s: Get() = %v, Error() = %v", what, r.Get(), r.Error())
			s := fmt.Sprint(any(v))
			if err != nil {
				s = err.Error()
			}
			c.Check(r.String() == s, "string", "%s: String() = %s, expected %s", what, r, s)
			c.Outcome(s)
		}
		switch c.Choose(3) {
		case 0:
			r = union.OfResult(v)
			check(v, nil, fmt.Sprintf("OfResult(%v)", v))
		case 1:
			p := mc.Try(func() { r = union.OfError[R](err) })
			if err == nil {
				c.Check(p != nil, "nil-error", "OfError(nil) is accepted")
				return
			}
			c.Check(p == nil, "error", "OfError(%v) panics with %v", err, p)
			check(zv, err, fmt.Sprintf("OfError(%v)", err))
		default:
			p := mc.Try(func() { r = union.OfResultError(v, err) })
			if err != nil && !zero[k] {
				c.Check(p != nil, "both", "OfResultError(%v, %v) is accepted", v, err)
				return
			}
			c.Check(p == nil, "result-error", "OfResultError(%v, %v) panics with %v", v, err, p)
			check(v, err, fmt.Sprintf("OfResultError(%v, %v)", v, err))
		}
	}
}

// iterResults: the results of an iterator of any type
func iterResults[T any](vals []T) func(c *mc.C) {
	return func(c *mc.C) {
		n := c.Choose(3)
		it := iter.OfSlice(append([]T{}, vals[:min(n, len(vals))]...))
		end := iter.EOI
		if c.Bool() {
			it, end = iter.SetError(it, mc.ErrCustom), mc.ErrCustom
		}
		for i := 0; i < n+2; i++ {
			var r union.Result[T]
			p := mc.Try(func() { r = iter.Maybe(it) })
			c.Op("Maybe() = %v", r)
			c.Check(p == nil, "iter-maybe", "Maybe of an iterator of %T panics with %v", vals, p)
			if i < n && i < len(vals) {
				c.Check(r.HasResult() && eq(r.Get(), vals[i]), "iter-maybe", "Maybe() = %v, expected %v", r, vals[i])
			} else {
				c.Check(r.Error() == end, "iter-maybe", "Maybe() = %v, expected %v", r, end)
			}
		}
	}
}

// ==== reflection

type target[T any] struct {
	name string
	vals []T    // to hold, nil ones are empty
	bad  []any  // that are not a T
	none []bool // which vals are nil
}

// access goes through every way to reach an optional with 0 to 6 pointers, nil at each level
func access[T any](t target[T]) func(c *mc.C) {
	typ := reflect.TypeOf((*T)(nil)).Elem()
	return func(c *mc.C) {
		depth := c.Choose(7)
		nilAt := c.Choose(depth + 1) // 0: not nil, k: the k-th pointer from the outside is nil
		var m union.Maybe[T]
		cur := c.Choose(len(t.vals) + 1)
		if cur > 0 {
			m = union.Of(t.vals[cur-1])
		}
		addressable := depth > 0 || c.Bool()
		holder := struct{ F union.Maybe[T] }{m}
		// build the value
		mt := reflect.TypeOf(m)
		ty := mt
		for i := 0; i < depth; i++ {
			ty = reflect.PointerTo(ty)
		}
		var v reflect.Value
		if nilAt == 0 {
			v = reflect.ValueOf(&holder).Elem().Field(0)
			for i := 0; i < depth; i++ {
				if i == 0 {
					v = v.Addr()
				} else {
					p := reflect.New(v.Type())
					p.Elem().Set(v)
					v = p
				}
			}
			if !addressable {
				v = reflect.ValueOf(holder.F)
			}
		} else {
			inner := mt
			for i := 0; i < depth-nilAt+1; i++ {
				inner = reflect.PointerTo(inner)
			}
			v = reflect.Zero(inner)
			for i := 1; i < nilAt; i++ {
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				v = p
			}
		}
		c.Op("%s: %v, nil at %d, value %d, addressable %v", t.name, ty, nilAt, cur, addressable)
		c.Check(ureflect.GetMaybeType(ty) == typ, "type", "GetMaybeType(%v) = %v, expected %v", ty, ureflect.GetMaybeType(ty), typ)
		c.Check(v.Type() == ty, "harness", "%v %v", v.Type(), ty)
		checkIt := func(present bool, val any) {
			var got bool
			p := mc.Try(func() { got = ureflect.MaybeValueIsPresent(v) })
			c.Check(p == nil && got == present, "is-present", "MaybeValueIsPresent of a %v (nil at %d) is %v (panic %v), expected %v", ty, nilAt, got, p, present)
			var gv reflect.Value
			p = mc.Try(func() { gv = ureflect.GetMaybeValue(v) })
			c.Check(p == nil && gv.IsValid() == present, "get", "GetMaybeValue of a %v (nil at %d) is %v (panic %v), expected %v", ty, nilAt, gv, p, present)
			if present {
				c.Check(eq(gv.Interface(), val) && gv.Type() == typ, "get", "GetMaybeValue of a %v is %v, expected %v", ty, gv, val)
			}
		}
		has := cur > 0 && !t.none[cur-1] && nilAt == 0
		var val any
		if cur > 0 {
			val = t.vals[cur-1]
		}
		checkIt(has, val)
		// change it
		k := c.Choose(len(t.vals) + len(t.bad) + 2)
		var err error
		var p any
		settable := nilAt == 0 && addressable
		switch {
		case k < len(t.vals):
			nv := reflect.ValueOf(&t.vals[k]).Elem()
			p = mc.Try(func() { err = ureflect.SetMaybeValue(v, nv) })
			c.Op("SetMaybeValue(%v) = %v", t.vals[k], err)
			c.Check(p == nil && (err == nil) == settable, "set", "SetMaybeValue of a %v (nil at %d, addressable %v) to %v: %v (panic %v)", ty, nilAt, addressable, t.vals[k], err, p)
			if settable {
				has, val = !t.none[k], t.vals[k]
			}
		case k < len(t.vals)+len(t.bad):
			b := t.bad[k-len(t.vals)]
			p = mc.Try(func() { err = ureflect.SetMaybeValue(v, reflect.ValueOf(b)) })
			c.Op("SetMaybeValue(%v) = %v", b, err)
			c.Check(p == nil && err != nil, "set-bad", "SetMaybeValue of a %v to a %T: %v (panic %v), expected an error", ty, b, err, p)
		case k == len(t.vals)+len(t.bad):
			p = mc.Try(func() { err = ureflect.SetMaybeValueEmpty(v) })
			c.Op("SetMaybeValueEmpty() = %v", err)
			c.Check(p == nil && (err == nil) == settable, "set-empty", "SetMaybeValueEmpty of a %v (nil at %d, addressable %v): %v (panic %v)", ty, nilAt, addressable, err, p)
			if settable {
				has = false
			}
		default:
			p = mc.Try(func() { err = ureflect.SetMaybeValue(v, reflect.Value{}) })
			c.Check(p == nil && err != nil, "set-invalid", "SetMaybeValue of a %v to an invalid value: %v (panic %v), expected an error", ty, err, p)
		}
		checkIt(has, val)
		if nilAt == 0 && addressable {
			c.Check(holder.F.Present() == has && (!has || eq(holder.F.Get(), val)), "direct", "the optional itself is %v, expected %v", holder.F, val)
		}
		c.State(fmt.Sprint(ty, nilAt, has))
		c.Outcome(fmt.Sprint(has, err))
	}
}

type myMaybe[T any] struct{ v T }

func (m myMaybe[T]) Get() T        { return m.v }
func (m myMaybe[T]) Present() bool { return true }

type Maybe[T any] struct{ v T }

func (m Maybe[T]) Get() T        { return m.v }
func (m Maybe[T]) Present() bool { return true }

type embeds struct{ union.Maybe[int] }

func main() {
	mc.Main("C20", "model_checking", []string{"values are compared by how %#v shows them, pointers by address"}, func(r *mc.Run) {
		d := r.Budget(4, 5)
		r.Explore("unions", fmt.Sprintf("4 kinds of unions, all constructions, all histories of up to %d sets of all members to 2 values", d), -1, unions(d))
		b := fmt.Sprintf("all constructions, all histories of up to %d of set, set empty, set or error", d)
		lists := [][]int{nil, {}, {1}, {1}}
		r.Explore("unions-lists", fmt.Sprintf("3 kinds of unions of slices, which cannot be compared, all histories of up to %d sets of all members to 4 slices", d), -1, func(c *mc.C) {
			var (
				u2 union.Two[[]int, []int]
				u3 union.Three[[]int, []int, []int]
				u4 union.Four[[]int, []int, []int, []int]
			)
			kind := c.Choose(3)
			n := kind + 2
			set := [][]func([]int){{u2.SetT, u2.SetU}, {u3.SetT, u3.SetU, u3.SetV}, {u4.SetT, u4.SetU, u4.SetV, u4.SetW}}[kind]
			which := func() union.Which { return []union.Which{u2.Which(), u3.Which(), u4.Which()}[kind] }
			get := func(i int) []int {
				switch kind {
				case 0:
					return []func() []int{u2.T, u2.U}[i]()
				case 1:
					return []func() []int{u3.T, u3.U, u3.V}[i]()
				}
				return []func() []int{u4.T, u4.U, u4.V, u4.W}[i]()
			}
			for j, l := 0, c.Choose(d+1); j < l; j++ {
				m, k := c.Choose(n), c.Choose(len(lists))
				c.Op("set member %d of %d to %#v", m, n, lists[k])
				p := mc.Try(func() { set[m](lists[k]) })
				c.Check(p == nil, "set", "setting member %d panics with %v", m, p)
				for i := 0; i < n; i++ {
					var got []int
					p := mc.Try(func() { got = get(i) })
					if i != m {
						_, isErr := p.(error)
						c.Check(isErr, "other", "member %d is %#v (panic %v), the union has member %d", i, got, p, m)
						continue
					}
					same := p == nil && eq(got, lists[k]) && (len(got) == 0 || &got[0] == &lists[k][0])
					c.Check(same && which() == whichs[m], "value", "member %v is %#v (panic %v), expected %#v", which(), got, p, lists[k])
				}
				c.State(fmt.Sprint(n, m, k))
			}
			c.Outcome(fmt.Sprint(which()))
		})
		r.Explore("maybe-int", b, -1, maybes([]opt[int]{{0, false}, {1, false}, {-1, false}}, d))
		r.Explore("maybe-string", b, -1, maybes([]opt[string]{{"", false}, {"a", false}}, d))
		x, y := 1, 1
		r.Explore("maybe-pointer", b, -1, maybes([]opt[*int]{{nil, true}, {&x, false}, {&y, false}}, d))
		r.Explore("maybe-any", b, -1, maybes([]opt[any]{{nil, true}, {0, false}, {(*int)(nil), true}, {"a", false}}, d-1))
		r.Explore("maybe-error", b, -1, maybes([]opt[error]{{nil, true}, {io.EOF, false}}, d))
		r.Explore("maybe-slice", b, -1, maybes([]opt[[]int]{{nil, true}, {[]int{}, false}, {[]int{1}, false}}, d))
		r.Explore("maybe-map", b, -1, maybes([]opt[map[string]int]{{nil, true}, {map[string]int{}, false}}, d))
		r.Explore("maybe-func", b, -1, maybes([]opt[func()]{{nil, true}, {func() {}, false}}, d))
		r.Explore("maybe-chan", b, -1, maybes([]opt[chan int]{{nil, true}, {make(chan int), false}}, d))
		r.Explore("maybe-struct", b, -1, maybes([]opt[struct{ P *int }]{{struct{ P *int }{}, false}, {struct{ P *int }{&x}, false}}, d))
		r.Explore("maybe-array", b, -1, maybes([]opt[[2]int]{{[2]int{}, false}, {[2]int{1, 2}, false}}, d))
		r.Explore("maybe-maybe", b, -1, maybes([]opt[union.Maybe[int]]{{union.Empty[int](), false}, {union.Of(1), false}}, d))

		r.Explore("result-int", "all constructions", -1, results([]int{0, 1}, []bool{true, false}))
		r.Explore("result-pointer", "all constructions", -1, results([]*int{nil, &x}, []bool{true, false}))
		r.Explore("result-any", "all constructions", -1, results([]any{nil, "a", 7}, []bool{true, false, false}))
		r.Explore("result-error", "all constructions", -1, results([]error{nil, io.EOF}, []bool{true, false}))
		r.Explore("result-slice", "all constructions", -1, results([][]int{nil, {1}}, []bool{true, false}))
		r.Explore("result-func", "all constructions", -1, results([]func(){nil, func() {}}, []bool{true, false}))
		r.Explore("result-struct", "all constructions", -1, results([]struct{ A []int }{{}, {[]int{}}}, []bool{true, false}))

		r.Explore("iter-any", "results of iterators over interfaces, 0 to 2 elements, 2 ends", -1, iterResults([]any{nil, 1}))
		r.Explore("iter-error", "results of iterators over interfaces, 0 to 2 elements, 2 ends", -1, iterResults([]error{io.EOF, nil}))
		r.Explore("iter-slice", "results of iterators over slices, 0 to 2 elements, 2 ends", -1, iterResults([][]int{nil, {1}}))
		r.Explore("iter-func", "results of iterators over functions, 0 to 2 elements, 2 ends", -1, iterResults([]func(){nil, main}))

		r.Explore("tuples", "tuples of 2, 3, 4 members, all combinations of 3 values of different types", -1, func(c *mc.C) {
			vals := []any{nil, 1, "a b"}
			a, b, d, e := mc.Pick(c, vals), mc.Pick(c, vals), mc.Pick(c, vals), mc.Pick(c, vals)
			t2, t3, t4 := tuple.Of2(a, b), tuple.Of3(a, b, d), tuple.Of4(a, b, d, e)
			c.Op("%v %v %v", t2, t3, t4)
			p, q := t2.Values()
			c.Check(p == a && q == b && t2.T == a && t2.U == b && t2.String() == fmt.Sprintf("{T: %v, U: %v}", a, b), "two", "%v of %v %v", t2, a, b)
			p, q, s := t3.Values()
			c.Check(p == a && q == b && s == d && t3.T == a && t3.U == b && t3.V == d && t3.String() == fmt.Sprintf("{T: %v, U: %v, V: %v}", a, b, d), "three", "%v of %v %v %v", t3, a, b, d)
			p, q, s, u := t4.Values()
			c.Check(p == a && q == b && s == d && u == e && t4.T == a && t4.U == b && t4.V == d && t4.W == e && t4.String() == fmt.Sprintf("{T: %v, U: %v, V: %v, W: %v}", a, b, d, e), "four", "%v of %v %v %v %v", t4, a, b, d, e)
			c.Check(tuple.Of2Same(a, b) == t2 && tuple.Of3Same(a, b, d) == t3 && tuple.Of4Same(a, b, d, e) == t4, "same", "%v %v %v", t2, t3, t4)
			c.Outcome(t4.String())
		})

		r.Explore("reflect-int", "access through 0 to 6 pointers, nil at any level, addressable or not, all changes, wrong types", -1, access(target[int]{"int", []int{0, 5}, []any{"a", int8(1), 1.5, &x, nil}, []bool{false, false}}))
		r.Explore("reflect-string", "the same", -1, access(target[string]{"string", []string{"", "a"}, []any{1, []byte{1}}, []bool{false, false}}))
		r.Explore("reflect-pointer", "the same", -1, access(target[*big.Int]{"*big.Int", []*big.Int{nil, big.NewInt(3)}, []any{1, big.NewRat(1, 2)}, []bool{true, false}}))
		r.Explore("reflect-slice", "the same", -1, access(target[[]int]{"[]int", [][]int{nil, {}, {1}}, []any{1, []string{}}, []bool{true, false, false}}))
		r.Explore("reflect-struct", "the same", -1, access(target[struct{ A int }]{"struct", []struct{ A int }{{}, {1}}, []any{1, struct{ B int }{}}, []bool{false, false}}))
		r.Explore("reflect-error", "the same", -1, access(target[error]{"error", []error{io.EOF, nil}, []any{1, "a"}, []bool{false, true}}))
		r.Explore("reflect-maybe", "the same", -1, access(target[union.Maybe[int]]{"Maybe", []union.Maybe[int]{{}, union.Of(1)}, []any{1}, []bool{false, false}}))
		others := []any{0, "", nil, &x, []int{}, struct{}{}, union.Of2T[int, int](1), union.OfResult(1), myMaybe[int]{1}, &myMaybe[int]{1}, embeds{}, &embeds{}, func() {}, (*int)(nil), Maybe[int]{1}, &Maybe[int]{}, map[string]int{}, io.EOF}
		r.Explore("reflect-others", "what is not an optional value is refused", -1, func(c *mc.C) {
			o := mc.Pick(c, others)
			v := reflect.ValueOf(o)
			c.Op("%T", o)
			if o != nil {
				var t reflect.Type
				p := mc.Try(func() { t = ureflect.GetMaybeType(v.Type()) })
				c.Check(p == nil && t == nil, "type", "GetMaybeType(%T) = %v (panic %v)", o, t, p)
			}
			var pr bool
			p := mc.Try(func() { pr = ureflect.MaybeValueIsPresent(v) })
			c.Check(p == nil && !pr, "is-present", "MaybeValueIsPresent(%T) = %v (panic %v)", o, pr, p)
			var gv reflect.Value
			p = mc.Try(func() { gv = ureflect.GetMaybeValue(v) })
			c.Check(p == nil && !gv.IsValid(), "get", "GetMaybeValue(%T) = %v (panic %v)", o, gv, p)
			var err error
			p = mc.Try(func() { err = ureflect.SetMaybeValue(v, reflect.ValueOf(1)) })
			c.Check(p == nil && err != nil, "set", "SetMaybeValue(%T) = %v (panic %v)", o, err, p)
			p = mc.Try(func() { err = ureflect.SetMaybeValueEmpty(v) })
			c.Check(p == nil && err != nil, "set-empty", "SetMaybeValueEmpty(%T) = %v (panic %v)", o, err, p)
		})
	})
}
