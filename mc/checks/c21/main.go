// C21: collection helpers behave as the lists, maps and tables they document
package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/tuple"
	"verifmc/mc"
)

// ==== slices

// domain is a type of element with the values to use
type domain[T any] struct {
	name string
	vals []T
	same func(a, b T) bool
}

func eq[T comparable](name string, vals ...T) domain[T] {
	return domain[T]{name, vals, func(a, b T) bool { return a == b }}
}

// anySlice is a slice of up to max elements (-1 = nil), with guard elements beyond its length
func anySlice[T any](c *mc.C, d domain[T], max int) (slc, backing []T) {
	n := c.Choose(max+2) - 1
	if n < 0 {
		return nil, nil
	}
	spare := c.Choose(2) * 2
	backing = make([]T, 0, n+spare)
	for i := 0; i < n; i++ {
		backing = append(backing, mc.Pick(c, d.vals))
	}
	for i := 0; i < spare; i++ {
		backing = append(backing, d.vals[len(d.vals)-1])
	}
	return backing[:n:len(backing)], backing
}

func clone[T any](s []T) []T { return append([]T(nil), s...) }

func sameSlice[T any](d domain[T], a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !d.same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// removed is what removing val gives
func removed[T any](d domain[T], s []T, val T, all bool) []T {
	var out []T
	done := false
	for _, v := range s {
		if d.same(v, val) && !(done && !all) {
			done = true
			continue
		}
		out = append(out, v)
	}
	return out
}

func flags(c *mc.C) ([]bool, bool) {
	switch c.Choose(3) {
	case 0:
		return nil, false
	case 1:
		return []bool{false}, false
	}
	return []bool{funcs.ALL}, true
}

// anyType checks the helpers that accept elements of any type
func anyType[T any](r *mc.Run, d domain[T]) {
	n := r.Budget(4, 5)
	r.Explore("slices-"+d.name, fmt.Sprintf("nil and all slices of up to %d elements, with and without spare capacity, all helpers", n), -1, func(c *mc.C) {
		slc, backing := anySlice(c, d, n)
		orig, origBacking := clone(slc), clone(backing)
		untouched := func() {
			c.Check(sameSlice(d, slc, orig) && sameSlice(d, backing, origBacking), "argument", "the slice passed was %v and is %v (beyond its length %v, %v)", orig, slc, origBacking, backing)
		}
		c.Outcome(fmt.Sprint(len(slc), slc == nil))
		switch c.Choose(6) {
		case 0:
			res := slc
			var added []T
			for i := 0; i < 3; i++ {
				v := mc.Pick(c, d.vals)
				added = append(added, v)
				funcs.SliceAdd(&res, v)
				c.Check(sameSlice(d, res, append(clone(orig), added...)), "add", "%v with %v added is %v", orig, added, res)
			}
			c.Check(sameSlice(d, slc, orig), "argument", "the slice passed was %v and is %v", orig, slc)
		case 1:
			res := funcs.SliceCopy(slc)
			c.Check(res != nil && sameSlice(d, res, orig), "copy", "the copy of %v is %v", orig, res)
			// a copy is independent
			for i := range res {
				for _, v := range d.vals {
					if !d.same(v, res[i]) {
						res[i] = v
						break
					}
				}
			}
			untouched()
		case 2:
			var (
				idx = mc.Pick(c, []int{math.MinInt, -n - 2, -n - 1, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, n + 1, n + 2, math.MaxInt})
				def []T
				v   T
			)
			for i := c.Choose(3); i > 0; i-- {
				def = append(def, d.vals[i%len(d.vals)])
			}
			if len(def) > 0 {
				v = def[0]
			}
			if idx >= 0 && idx < len(orig) {
				v = orig[idx]
			} else if idx < 0 && idx >= -len(orig) {
				v = orig[len(orig)+idx]
			}
			res := funcs.SliceIndex(slc, idx, def...)
			c.Check(d.same(res, v), "index", "index %d of %v with default %v is %v, expected %v", idx, orig, def, res, v)
			untouched()
		case 3:
			res := funcs.SliceOf(slc...)
			c.Check(sameSlice(d, res, orig), "of", "the slice of %v is %v", orig, res)
			untouched()
		case 4:
			val, kind := mc.Pick(c, d.vals), reflect.ValueOf(&d.vals[0]).Elem().Kind()
			all, isAll := flags(c)
			if kind == reflect.Func || kind == reflect.Map || kind == reflect.Slice {
				// nil is not a value to point at
				if reflect.ValueOf(val).IsNil() {
					c.Prune()
				}
			}
			res := funcs.SliceRemoveUncomparable(slc, val, all...)
			want := removed(d, orig, val, isAll)
			c.Check(sameSlice(d, res, want), "remove", "%v without %v (%v) is %v, expected %v", orig, val, all, res, want)
			untouched()
		default:
			res := funcs.SliceReverse(slc)
			for i := range orig {
				c.Check(len(res) == len(orig) && d.same(res[i], orig[len(orig)-1-i]), "reverse", "%v reversed is %v", orig, res)
			}
			c.Check(sameSlice(d, slc, res), "reverse", "%v is reversed as %v, but not in place: %v", orig, res, slc)
			for i := len(orig); i < len(backing); i++ {
				c.Check(d.same(backing[i], origBacking[i]), "argument", "what is beyond the slice changes")
			}
		}
	})
}

// comparableType checks the helpers that accept comparable elements only
func comparableType[T comparable](r *mc.Run, d domain[T]) {
	n := r.Budget(4, 6)
	r.Explore("comparable-"+d.name, fmt.Sprintf("nil and all slices of up to %d elements: remove, to map, unique values", n), -1, func(c *mc.C) {
		slc, backing := anySlice(c, d, n)
		orig, origBacking := clone(slc), clone(backing)
		set := map[T]bool{}
		for _, v := range orig {
			set[v] = true
		}
		switch c.Choose(4) {
		case 0:
			val := mc.Pick(c, d.vals)
			all, isAll := flags(c)
			res := funcs.SliceRemove(slc, val, all...)
			want := removed(d, orig, val, isAll)
			c.Check(sameSlice(d, res, want), "remove", "%v without %v (%v) is %v, expected %v", orig, val, all, res, want)
		case 1:
			res := funcs.SliceToMap(slc)
			c.Check(res != nil && reflect.DeepEqual(res, set), "to-map", "%v to a map is %v", orig, res)
			c.Check(reflect.ValueOf(res).Pointer() != reflect.ValueOf(funcs.SliceToMap(slc)).Pointer(), "to-map", "%v to a map is the same map twice", orig)
		case 2:
			var calls []T
			res := funcs.SliceToMapBy(slc, func(v T) string { calls = append(calls, v); return fmt.Sprint(v) })
			again := funcs.SliceToMapBy(slc, func(v T) string { return "" })
			c.Check(reflect.ValueOf(res).Pointer() != reflect.ValueOf(again).Pointer(), "to-map", "%v to a map by a function is the same map twice", orig)
			want := map[string]bool{}
			for _, v := range orig {
				want[fmt.Sprint(v)] = true
			}
			c.Check(res != nil && reflect.DeepEqual(res, want), "to-map-by", "%v to a map is %v, expected %v", orig, res, want)
		default:
			res := funcs.SliceUniqueValues(slc)
			seen := map[T]bool{}
			for _, v := range res {
				c.Check(!seen[v], "unique", "the unique values of %v are %v", orig, res)
				seen[v] = true
			}
			c.Check(res != nil && reflect.DeepEqual(seen, set), "unique", "the unique values of %v are %v", orig, res)
		}
		c.Check(sameSlice(d, slc, orig) && sameSlice(d, backing, origBacking), "argument", "the slice passed was %v and is %v (beyond its length %v, %v)", orig, slc, origBacking, backing)
	})
}

type (
	ints   []int
	intss  []ints
	numInt int
)

// flatten checks flattening of elements of one type: shapes of one to four dimensions
func flatten[T any](r *mc.Run, d domain[T]) {
	n := r.Budget(2, 3)
	r.Explore("flatten-"+d.name, fmt.Sprintf("slices of 1 to 4 dimensions with nil and up to %d (3 in one dimension) elements each", n), -1, func(c *mc.C) {
		var want []T
		var leaf func(max int) []T
		left := 8
		leaf = func(max int) []T {
			k := c.Choose(max+2) - 1
			if k < 0 {
				return nil
			}
			s := make([]T, 0, k)
			for i := 0; i < k; i++ {
				v := mc.Pick(c, d.vals)
				s, want = append(s, v), append(want, v)
			}
			return s
		}
		var (
			val any
			dim = c.Choose(5) + 1
		)
		switch dim {
		case 1:
			val = leaf(3)
		case 2:
			val = dims(c, n, &left, func() []T { return leaf(n) })
		case 3:
			val = dims(c, n, &left, func() [][]T { return dims(c, n, &left, func() []T { return leaf(1) }) })
		case 4:
			val = dims(c, 1, &left, func() [][][]T {
				return dims(c, n, &left, func() [][]T { return dims(c, 1, &left, func() []T { return leaf(2) }) })
			})
		default:
			val = nil
		}
		before := fmt.Sprintf("%#v", val)
		res := funcs.SliceFlatten[T](val)
		c.Check(sameSlice(d, res, want), "flatten", "%#v (%d dimensions) flattened is %#v, expected %#v", val, dim, res, want)
		c.Check(val != nil || res != nil, "flatten", "nil is flattened to nil")
		c.Check(fmt.Sprintf("%#v", val) == before, "argument", "flattening changes %s to %#v", before, val)
		c.Outcome(fmt.Sprint(dim, len(want)))
	})
}

func dims[T any](c *mc.C, max int, left *int, each func() T) []T {
	n := c.Choose(max+2) - 1
	if n < 0 {
		return nil
	}
	s := make([]T, 0, n)
	for i := 0; i < n; i++ {
		s = append(s, each())
	}
	return s
}

// distance compares by any negative or positive number, as constraint.Cmp allows
type distance int

func (d distance) Cmp(o distance) int { return int(d - o) }

// long checks slices and maps of many elements, that patterns repeat in
func long[T int | string](r *mc.Run, name string, val func(i int) T) {
	n := r.Budget(70, 300)
	top := r.Budget(1024, 8192)
	var sizes []int
	for i := 0; i <= n; i++ {
		sizes = append(sizes, i)
	}
	for _, l := range mc.Lengths(top) {
		if l > n {
			sizes = append(sizes, l)
		}
	}
	huge := 65535 // the least of those that are beyond what 16 bits can count
	sizes = append(sizes, 32767, 32768, 32769, huge, huge+1, huge+2)
	r.Explore("long-"+name, fmt.Sprintf("slices of every length up to %d, and around the powers of two up to %d, and around 32768 and 65536, of different elements, of elements that repeat in five ways, and of zeros; all helpers", n, top), -1, func(c *mc.C) {
		var (
			d   = domain[T]{same: func(a, b T) bool { return a == b }}
			k   = mc.Pick(c, sizes)
			pat = mc.Pick(c, []func(i int) int{
				func(i int) int { return i }, func(i int) int { return i % 7 }, func(i int) int { return i / 5 },
				func(i int) int { return 0 }, func(i int) int { return k - i }, func(i int) int { return i * i % 31 },
			})
			orig  []T
			set   = map[T]bool{}
			first []T
			zero  T
		)
		if k >= 32767 && pat(1) == 0 {
			c.Prune()
		}
		for i := 0; i < k; i++ {
			v := val(pat(i))
			if !set[v] {
				first = append(first, v)
			}
			orig, set[v] = append(orig, v), true
		}
		slc := clone(orig)
		same := func(what string, got, want []T) {
			c.Check(sameSlice(d, got, want), what, "%s of %v is %v, expected %v", what, orig, got, want)
			c.Check(sameSlice(d, slc, orig), "argument", "the slice passed was %v and is %v", orig, slc)
		}
		same("copy", funcs.SliceCopy(slc), orig)
		same("of", funcs.SliceOf(slc...), orig)
		for _, x := range []T{val(0), val(3), val(k / 2), val(k - 1), zero} {
			same("remove", funcs.SliceRemove(slc, x), removed(d, orig, x, false))
			same("remove", funcs.SliceRemove(slc, x, funcs.ALL), removed(d, orig, x, true))
		}
		for _, i := range []int{0, k / 2, k - 1, -1, -k} {
			if k > 0 {
				same("index", []T{funcs.SliceIndex(slc, i)}, []T{orig[(i+k)%k]})
			}
		}
		var nested [][]T
		for at, w := 0, 0; at < k; w++ {
			end := at + w%4
			if end > k {
				end = k
			}
			nested, at = append(nested, slc[at:end:end]), end
		}
		same("flatten", funcs.SliceFlatten[T](nested), orig)
		same("flatten", funcs.SliceFlatten[T]([][]T{slc[:k/3], nil, slc[k/3 : k/2], {}, slc[k/2:]}), orig)
		same("flatten", funcs.SliceFlatten[T]([][][]T{nil, {slc}, {}, {nil, {}}}), orig)
		c.Check(reflect.DeepEqual(funcs.SliceToMap(slc), set), "to-map", "%v to a map is %v", orig, funcs.SliceToMap(slc))
		uniq := funcs.SliceUniqueValues(slc)
		seen := map[T]bool{}
		for _, v := range uniq {
			seen[v] = true
		}
		c.Check(len(uniq) == len(first) && reflect.DeepEqual(seen, set), "unique", "the unique values of %v are %v", orig, uniq)
		grown := []T{}
		mp := map[T]int{}
		for i, v := range orig {
			funcs.SliceAdd(&grown, v)
			mp[v] = i
		}
		same("add", grown, orig)
		pairs(c, mp, funcs.MapSortOrdered(mp), func(a, b T) bool { return a < b }, "in order")
		back := make([]T, k)
		for i, v := range orig {
			back[k-1-i] = v
		}
		same("copy", funcs.SliceReverse(funcs.SliceCopy(slc)), back)
		c.Ops(20 + k)
		c.Outcome(fmt.Sprint(len(first)))
	})
}

// ==== sorted results of maps

func pairs[K comparable, V any](c *mc.C, mp map[K]V, sorted []tuple.Two[K, V], less func(a, b K) bool, what string) {
	c.Check(len(sorted) == len(mp), "sorted", "%v sorted %s is %v", mp, what, sorted)
	seen := map[K]bool{}
	for i, p := range sorted {
		v, is := mp[p.T]
		c.Check(is && !seen[p.T] && reflect.DeepEqual(v, p.U), "sorted", "%v sorted %s is %v", mp, what, sorted)
		seen[p.T] = true
		c.Check(i == 0 || !less(p.T, sorted[i-1].T), "sorted", "%v sorted %s is %v", mp, what, sorted)
	}
}

// ==== ordered tables

func table[K int | string | float64, V any](r *mc.Run, name string, keys []K, d domain[V], removeValue func(mp *[]tuple.Two[K, []V], key K, v V, all ...bool)) {
	const n = 5 // 6 would take half an hour
	r.Explore("table-"+name, fmt.Sprintf("all histories of %d changes of a table of lists kept in order", n), -1, func(c *mc.C) {
		var (
			mp    []tuple.Two[K, []V]
			model = map[K][]V{}
			note  = func(f string, args ...any) { c.Op(f, args...) }
		)
		if c.Bool() {
			mp = []tuple.Two[K, []V]{}
		}
		for i := 0; i < n; i++ {
			switch op := c.Choose(5); op {
			case 0, 1:
				// adding is what makes a table
				k, v := mc.Pick(c, keys), d.vals[op]
				note("add %v %v", k, v)
				funcs.OrderedTuple2SliceAdd(&mp, k, v)
				model[k] = append(model[k], v)
			case 2:
				k := mc.Pick(c, keys)
				note("remove %v", k)
				funcs.OrderedTuple2SliceRemoveKey(&mp, k)
				delete(model, k)
			default:
				k, v, all := mc.Pick(c, keys), d.vals[0], op == 4
				note("remove %v %v %t", k, v, all)
				if all {
					removeValue(&mp, k, v, funcs.ALL)
				} else {
					removeValue(&mp, k, v)
				}
				if vs, is := model[k]; is {
					model[k] = removed(d, vs, v, all)
				}
			}
			var ks []K
			for k := range model {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
			c.Check(len(mp) == len(ks), "table", "the table is %v, expected %v", mp, model)
			for j, k := range ks {
				c.Check(mp[j].T == k && sameSlice(d, mp[j].U, model[k]), "table", "the table is %v, expected %v in order", mp, model)
				at, is := funcs.OrderedTuple2Search(mp, k)
				c.Check(at == j && is, "search", "%v in %v is found at %d, %t", k, mp, at, is)
			}
			c.State(fmt.Sprint(mp))
		}
	})
}

func main() {
	mc.Main("C21", "bounded exhaustive", nil, func(r *mc.Run) {
		var (
			a, b    = 1, 1
			fa      = func() int { return 1 }
			ma, mb  = map[string]int{"a": 1}, map[string]int{"a": 1}
			sa, sb  = []int{1}, []int{1}
			e1      = fmt.Errorf("e")
			pointer = func(x, y any) bool {
				vx, vy := reflect.ValueOf(x), reflect.ValueOf(y)
				if !vx.IsValid() || !vy.IsValid() {
					return vx.IsValid() == vy.IsValid()
				}
				return vx.Type() == vy.Type() && vx.Pointer() == vy.Pointer()
			}
		)
		anyType(r, eq("int", 0, 1, -2))
		anyType(r, eq("string", "", "a", "%d"))
		anyType(r, eq("pointer", &a, &b, nil))
		anyType(r, eq[any]("any", 1, nil, "1"))
		anyType(r, domain[func() int]{"func", []func() int{fa, func() int { return 2 }}, func(x, y func() int) bool { return pointer(x, y) }})
		anyType(r, domain[map[string]int]{"map", []map[string]int{ma, mb}, func(x, y map[string]int) bool { return pointer(x, y) }})
		anyType(r, domain[[]int]{"slice", [][]int{sa, sb}, func(x, y []int) bool { return pointer(x, y) }})
		comparableType(r, eq("int", 0, 1, -2))
		comparableType(r, eq("string", "", "a", "%d"))
		comparableType(r, eq("pointer", &a, &b, nil))
		comparableType(r, eq[any]("any", 1, nil, "1"))
		comparableType(r, eq("array", [2]int{}, [2]int{1}, [2]int{0, 1}))

		flatten(r, eq("int", 0, 7))
		flatten(r, eq[any]("any", nil, 7))
		flatten(r, eq[error]("error", nil, e1))
		flatten(r, eq("pointer", nil, &a))
		flatten(r, eq("struct", tuple.Of2(1, "a"), tuple.Of2(2, "")))

		r.Explore("flatten-types", "named slice types, slices in interfaces, and values that are not slices of the type", -1, func(c *mc.C) {
			type row struct {
				val  any
				want any // nil: must panic
				f    func(any) any
			}
			toInt := func(v any) any { return funcs.SliceFlatten[int](v) }
			toAny := func(v any) any { return funcs.SliceFlatten[any](v) }
			toStr := func(v any) any { return funcs.SliceFlatten[string](v) }
			rows := []row{
				{ints{1, 2}, []int{1, 2}, toInt},
				{ints(nil), []int{}, toInt},
				{intss{{1}, nil, {2, 3}}, []int{1, 2, 3}, toInt},
				{[]ints{{1}, {}, {2, 3}}, []int{1, 2, 3}, toInt},
				{[][]any{{1, []int{2}}, {nil}}, []any{1, []int{2}, nil}, toAny},
				{[]any{[]any{1}}, []any{[]any{1}}, toAny},
				{[][]string{{"a"}, {""}}, []string{"a", ""}, toStr},
				{[]int{}, nil, toStr},
				{[][]int{}, nil, toStr},
				{[]numInt{1}, nil, toInt},
				{[][]numInt{{1}}, nil, toInt},
				{[]any{1}, nil, toInt},
				{[]int{1}, nil, toAny},
				{5, nil, toInt},
				{"a", nil, toStr},
				{[2]int{}, nil, toInt},
				{[][2]int{}, nil, toInt},
				{map[int]int{}, nil, toInt},
				{&[]int{1}, nil, toInt},
				{(*int)(nil), nil, toInt},
				{[]*int{nil}, nil, toInt},
			}
			w := mc.Pick(c, rows)
			var res any
			p := mc.Try(func() { res = w.f(w.val) })
			if w.want == nil {
				_, isErr := p.(error)
				c.Check(isErr, "flatten-panic", "flattening %#v gives %#v, panic %v", w.val, res, p)
				c.Check(!strings.Contains(fmt.Sprint(p), "reflect"), "flatten-panic", "flattening %#v panics with %v", w.val, p)
				return
			}
			c.Check(p == nil && fmt.Sprint(res) == fmt.Sprint(w.want) && reflect.TypeOf(res) == reflect.TypeOf(w.want), "flatten", "flattening %#v gives %#v, panic %v", w.val, res, p)
		})

		// ==== maps

		keys := []string{"", "k"}
		n := r.Budget(4, 5)
		r.Explore("map", fmt.Sprintf("all histories of %d changes of a map", n), -1, func(c *mc.C) {
			var (
				mp    map[string]*int
				model = map[string]*int{}
				vals  = []*int{nil, &a, &b}
			)
			if c.Bool() {
				mp = map[string]*int{}
			}
			for i := 0; i <= n; i++ {
				for _, k := range []string{"", "k", "other"} {
					v, is := model[k]
					c.Check(funcs.MapTest(mp, k) == is, "test", "%q in %v: %t", k, mp, !is)
					c.Check(funcs.MapIndex(mp, k) == v, "index", "%q in %v gives %v", k, mp, funcs.MapIndex(mp, k))
					if !is {
						v = &b
					}
					c.Check(funcs.MapIndex(mp, k, &b) == v && funcs.MapIndex(mp, k, &b, &a) == v, "index", "%q in %v with a default gives %v", k, mp, funcs.MapIndex(mp, k, &b))
				}
				c.Check(len(mp) == len(model), "map", "the map is %v, expected %v", mp, model)
				list := funcs.MapKeysToSlice(mp)
				sort.Strings(list)
				c.Check(list != nil && len(list) == len(model), "keys", "the keys of %v are %v", mp, list)
				for j, k := range list {
					_, is := model[k]
					c.Check(is && (j == 0 || list[j-1] != k), "keys", "the keys of %v are %v", mp, list)
				}
				if i == n {
					break
				}
				if k := mc.Pick(c, keys); c.Choose(4) > 0 {
					v := mc.Pick(c, vals)
					c.Op("set %q", k)
					funcs.MapSet(&mp, k, v)
					model[k] = v
				} else {
					c.Op("unset %q", k)
					funcs.MapUnset(mp, k)
					delete(model, k)
				}
				c.State(fmt.Sprint(mp))
			}
		})
		n = r.Budget(5, 6)
		r.Explore("map2", fmt.Sprintf("all histories of %d changes of a map of maps", n), -1, func(c *mc.C) {
			var (
				mp    map[string]map[int]bool
				model = map[string]map[int]bool{}
			)
			switch c.Choose(3) {
			case 1:
				mp = map[string]map[int]bool{}
			case 2:
				mp = map[string]map[int]bool{"k": nil}
			}
			for i := 0; i <= n; i++ {
				total := 0
				for _, k := range []string{"", "k", "other"} {
					for _, l := range []int{0, 1, 2} {
						v, is := model[k][l]
						c.Check(funcs.Map2Test(mp, k, l) == is && mp[k][l] == v, "test", "(%q, %d) in %v: %t, expected %v", k, l, mp, !is, model)
					}
					c.Check(len(mp[k]) == len(model[k]), "map", "the map is %v, expected %v", mp, model)
					total += len(mp[k])
				}
				for _, m := range mp {
					total -= len(m)
				}
				c.Check(total == 0, "map", "the map is %v, expected %v", mp, model)
				if i == n {
					break
				}
				k, l := mc.Pick(c, keys), c.Choose(2)
				if op := c.Choose(3); op > 0 {
					c.Op("set %q %d", k, l)
					funcs.Map2Set(&mp, k, l, op == 1)
					if model[k] == nil {
						model[k] = map[int]bool{}
					}
					model[k][l] = op == 1
				} else {
					c.Op("unset %q %d", k, l)
					funcs.Map2Unset(mp, k, l)
					delete(model[k], l)
				}
				c.State(fmt.Sprint(mp))
			}
		})
		mapSlice(r, eq("int", 0, 1), funcs.MapSliceRemove[string, int], funcs.Map2SliceRemove[string, int, int])
		mapSlice(r, domain[map[string]int]{"uncomparable", []map[string]int{ma, mb}, func(x, y map[string]int) bool { return pointer(x, y) }},
			funcs.MapSliceRemoveUncomparable[string, map[string]int], funcs.Map2SliceRemoveUncomparable[string, int, map[string]int])

		r.Explore("map-sort", "all maps of up to 5 keys, sorted each way", -1, func(c *mc.C) {
			var (
				is = map[int]string{}
				ss = map[string]int{}
				fs = map[float64][]int{}
				cs = map[complex128]int{}
				bs = map[*big.Int]int{}
				ds = map[distance]string{}
				st = map[[1]int]*int{}
			)
			for i, k := range []int{5, -1, 0, 12, math.MinInt} {
				if c.Bool() {
					is[k] = fmt.Sprint("v", i)
					ss[fmt.Sprint(k)] = i
					fs[float64(k)/2] = []int{i}
					cs[complex(float64(k%6), float64(-i))] = i
					bs[big.NewInt(int64(k))] = i
					ds[distance(k%100)] = fmt.Sprint(i)
					st[[1]int{k}] = &a
				}
			}
			abs := func(z complex128) float64 { return math.Hypot(real(z), imag(z)) }
			desc := func(a, b [1]int) bool { return a[0] > b[0] }
			pairs(c, is, funcs.MapSortOrdered(is), func(a, b int) bool { return a < b }, "as ints")
			pairs(c, ss, funcs.MapSortOrdered(ss), func(a, b string) bool { return a < b }, "as strings")
			pairs(c, fs, funcs.MapSortOrdered(fs), func(a, b float64) bool { return a < b }, "as floats")
			pairs(c, cs, funcs.MapSortComplex(cs), func(a, b complex128) bool { return abs(a) < abs(b) }, "as complex")
			pairs(c, bs, funcs.MapSortCmp(bs), func(a, b *big.Int) bool { return a.Cmp(b) < 0 }, "as big ints")
			pairs(c, ds, funcs.MapSortCmp(ds), func(a, b distance) bool { return a < b }, "as distances")
			pairs(c, st, funcs.MapSortBy(st, desc), desc, "descending")
			c.Ops(7)
			c.Outcome(fmt.Sprint(len(is)))
		})
		n = r.Budget(130, 300)
		top := r.Budget(4096, 8192)
		r.Explore("map-sort-long", fmt.Sprintf("maps of every size up to %d, and around the powers of two up to %d, of four kinds of keys, sorted each way", n, top), -1, func(c *mc.C) {
			var sizes []int
			for i := 6; i <= n; i++ {
				sizes = append(sizes, i)
			}
			for _, l := range mc.Lengths(top) {
				if l > n {
					sizes = append(sizes, l)
				}
			}
			k := mc.Pick(c, sizes)
			pat := mc.Pick(c, []func(i int) int{
				func(i int) int { return i }, func(i int) int { return -3 * i }, func(i int) int { return (i - k/2) * 1000003 }, func(i int) int { return i % 2 * math.MaxInt32 * i },
			})
			var (
				is = map[int]string{}
				ss = map[string]int{}
				us = map[uint8]int{}
				fs = map[float64][]int{}
				cs = map[complex128]int{}
				bs = map[*big.Int]int{}
				ds = map[distance]string{}
				st = map[[1]int]*int{}
			)
			for i := 0; i < k; i++ {
				n := pat(i)
				is[n], ss[fmt.Sprint(n)], us[uint8(n)], fs[float64(n)/2] = fmt.Sprint("v", i), i, i, []int{i}
				cs[complex(float64(n), float64(i%3))], bs[big.NewInt(int64(n))], ds[distance(n)], st[[1]int{n}] = i, i, fmt.Sprint(i), &a
			}
			abs := func(z complex128) float64 { return math.Hypot(real(z), imag(z)) }
			desc := func(a, b [1]int) bool { return a[0] > b[0] }
			pairs(c, is, funcs.MapSortOrdered(is), func(a, b int) bool { return a < b }, "as ints")
			pairs(c, ss, funcs.MapSortOrdered(ss), func(a, b string) bool { return a < b }, "as strings")
			pairs(c, us, funcs.MapSortOrdered(us), func(a, b uint8) bool { return a < b }, "as bytes")
			pairs(c, fs, funcs.MapSortOrdered(fs), func(a, b float64) bool { return a < b }, "as floats")
			pairs(c, cs, funcs.MapSortComplex(cs), func(a, b complex128) bool { return abs(a) < abs(b) }, "as complex")
			pairs(c, bs, funcs.MapSortCmp(bs), func(a, b *big.Int) bool { return a.Cmp(b) < 0 }, "as big ints")
			pairs(c, ds, funcs.MapSortCmp(ds), func(a, b distance) bool { return a < b }, "as distances")
			pairs(c, st, funcs.MapSortBy(st, desc), desc, "descending")
			keys := funcs.MapKeysToSlice(is)
			seen := map[int]bool{}
			for _, k := range keys {
				_, in := is[k]
				c.Check(in && !seen[k], "keys", "the keys of %v are %v", is, keys)
				seen[k] = true
			}
			c.Check(len(keys) == len(is), "keys", "the keys of %v are %v", is, keys)
			c.Ops(9)
			c.Outcome(fmt.Sprint(len(is), len(us)))
		})
		top = r.Budget(256, 2048)
		r.Explore("tables-long", fmt.Sprintf("tables and maps of lists of every number of keys up to 40, and around the powers of two up to %d, added in four orders, each key found, removed in two orders", top), -1, func(c *mc.C) {
			var sizes []int
			for _, l := range mc.Lengths(top) {
				if l <= 40 || l > 62 {
					sizes = append(sizes, l)
				}
			}
			var (
				k     = mc.Pick(c, sizes)
				order = func(by, i int) int {
					switch by {
					case 0:
						return i
					case 1:
						return k - 1 - i
					case 2: // from both ends to the middle
						if i%2 == 0 {
							return i / 2
						}
						return k - 1 - i/2
					}
					// from the middle to both ends
					i = k - 1 - i
					if i%2 == 0 {
						return i / 2
					}
					return k - 1 - i/2
				}
				by  = c.Choose(4)
				out = c.Choose(4)
				mp  []tuple.Two[int, []int]
				ms  map[int][]int
				m2  map[int]map[int][]int
				per = func(key int) int { return 1 + key%3 }
			)
			look := func(is func(key int) bool, what string) {
				at := 0
				for key := 0; key < k; key++ {
					c.Check(len(ms[key]) == 0 || is(key), what, "%d keys, %s: the map has %d %v", k, what, key, ms[key])
					c.Check(len(m2[key%5][key]) == len(ms[key]), what, "%d keys, %s: the map of maps has %d %v", k, what, key, m2[key%5][key])
					if !is(key) {
						if at > 0 {
							i, found := funcs.OrderedTuple2Search(mp, 2*key)
							c.Check(!found && i == at-1, what, "%d keys, %s: %d, not in the table, is (%d, %t), expected %d", k, what, 2*key, i, found, at-1)
						}
						continue
					}
					i, found := funcs.OrderedTuple2Search(mp, 2*key)
					c.Check(found && i == at && at < len(mp) && mp[at].T == 2*key && len(mp[at].U) == per(key), what, "%d keys, %s: %d is (%d, %t), expected %d, the table has %v", k, what, 2*key, i, found, at, mp)
					i, found = funcs.OrderedTuple2Search(mp, 2*key+1)
					c.Check(!found && i == at, what, "%d keys, %s: %d, not in the table, is (%d, %t), expected %d", k, what, 2*key+1, i, found, at)
					at++
				}
				c.Check(len(mp) == at, what, "%d keys, %s: the table is %v", k, what, mp)
			}
			for n := 0; n < 3; n++ {
				for i := 0; i < k; i++ {
					if key := order(by, i); n < per(key) {
						funcs.OrderedTuple2SliceAdd(&mp, 2*key, n)
						funcs.MapSliceAdd(&ms, key, n)
						funcs.Map2SliceAdd(&m2, key%5, key, n)
					}
				}
			}
			look(func(key int) bool { return true }, "added")
			for key := 0; key < k; key++ {
				for n := 0; n < per(key); n++ {
					c.Check(mp[key].U[n] == n && ms[key][n] == n && m2[key%5][key][n] == n, "added", "the table has %v, the map has %v", mp, ms)
				}
			}
			gone := map[int]bool{}
			for i := 0; i < k; i++ {
				key := order(out, i)
				gone[key] = true
				funcs.OrderedTuple2SliceRemoveKey(&mp, 2*key)
				for n := 0; n < 3; n++ {
					funcs.MapSliceRemove(ms, key, n)
					funcs.Map2SliceRemove(m2, key%5, key, n)
				}
				if k <= 66 || i%61 == 0 || i == k-1 {
					look(func(key int) bool { return !gone[key] }, "removed")
				}
			}
			c.Ops(9 * k)
			c.Outcome(fmt.Sprint(k))
		})
		r.Explore("flatten-deep", "slices of 5 to 12 dimensions, one or two elements in each, an empty or nil one at each depth", -1, func(c *mc.C) {
			dim := 5 + c.Choose(8)
			wide := c.Choose(dim) // the dimension that has two
			void := c.Choose(dim+1) - 1
			isNil := c.Bool()
			next := 0
			var want []int
			// from outside to inside
			var mk func(typ reflect.Type, d int, cut bool) reflect.Value
			mk = func(typ reflect.Type, d int, cut bool) reflect.Value {
				if d == dim {
					next++
					want = append(want, next)
					return reflect.ValueOf(next)
				}
				if cut && d == void {
					if isNil {
						return reflect.Zero(typ)
					}
					return reflect.MakeSlice(typ, 0, 0)
				}
				s := reflect.MakeSlice(typ, 0, 2)
				s = reflect.Append(s, mk(typ.Elem(), d+1, cut))
				if d == wide {
					s = reflect.Append(s, mk(typ.Elem(), d+1, false))
				}
				return s
			}
			typ := reflect.TypeOf(0)
			for i := 0; i < dim; i++ {
				typ = reflect.SliceOf(typ)
			}
			val := mk(typ, 0, void >= 0).Interface()
			res := funcs.SliceFlatten[int](val)
			c.Op("flatten %v", val)
			c.Check(fmt.Sprint(res) == fmt.Sprint(want), "flatten", "%#v flattened is %#v, expected %#v", val, res, want)
			c.Outcome(fmt.Sprint(len(want)))
		})
		long(r, "int", func(i int) int { return i })
		long(r, "string", func(i int) string { return fmt.Sprint(i) })

		// ==== tables

		table(r, "int", []int{0, 3, -3}, eq("string", "a", "b"), funcs.OrderedTuple2SliceRemoveValue[int, string])
		table(r, "string", []string{"", "k", "kk"}, eq("string", "a", "b"), funcs.OrderedTuple2SliceRemoveValue[string, string])
		table(r, "float", []float64{0, 0.5, math.Inf(-1)}, domain[map[string]int]{"uncomparable", []map[string]int{ma, mb}, func(x, y map[string]int) bool { return pointer(x, y) }},
			funcs.OrderedTuple2SliceRemoveUncomparable[float64, map[string]int])
		table(r, "uncomparable", []int{0, 3, -3}, eq("string", "a", "b"), funcs.OrderedTuple2SliceRemoveUncomparable[int, string])

		size := r.Budget(16, 24)
		r.Explore("search", fmt.Sprintf("tables of up to %d keys of every size, every key to find, in the table, between its keys and beyond them", size), -1, func(c *mc.C) {
			var (
				k    = c.Choose(size + 1)
				gaps = c.Choose(4)
				mp   []tuple.Two[int, string]
			)
			at := 0
			for i := 0; i < k; i++ {
				at += 1 + (i*gaps)%3
				mp = append(mp, tuple.Of2(at, ""))
			}
			key := c.Choose(3*size+3) - 1
			want, found := -1, false
			for i, p := range mp {
				if p.T <= key {
					want, found = i, p.T == key
				}
			}
			got, is := funcs.OrderedTuple2Search(mp, key)
			if want == -1 && len(mp) > 0 {
				c.Check(!is && (got == -1 || got == 0), "search", "%d, smaller than all keys, in %v is found at (%d, %t)", key, mp, got, is)
				c.Check(got == -1, "smaller", "%d, smaller than all keys, in %v is %d, expected -1", key, mp, got)
				return
			}
			c.Check(got == want && is == found, "search", "%d in %v is (%d, %t), expected (%d, %t)", key, mp, got, is, want, found)
			c.Outcome(fmt.Sprint(got, is))
		})
	})
}

// mapSlice checks maps of lists, and maps of maps of lists
func mapSlice[V any](r *mc.Run, d domain[V], remove func(map[string][]V, string, V, ...bool), remove2 func(map[string]map[int][]V, string, int, V, ...bool)) {
	n := r.Budget(5, 6)
	r.Explore("map-slice-"+d.name, fmt.Sprintf("all histories of %d changes of a map of lists", n), -1, func(c *mc.C) {
		var mp map[string][]V
		model := map[string][]V{}
		if c.Bool() {
			mp = map[string][]V{"k": nil}
		}
		for i := 0; i < n; i++ {
			k, v := mc.Pick(c, []string{"", "k"}), mc.Pick(c, d.vals)
			switch op := c.Choose(3); op {
			case 0:
				c.Op("add %q %v", k, v)
				funcs.MapSliceAdd(&mp, k, v)
				model[k] = append(model[k], v)
			case 1:
				c.Op("remove %q %v", k, v)
				remove(mp, k, v)
				model[k] = removed(d, model[k], v, false)
			default:
				c.Op("remove all %q %v", k, v)
				remove(mp, k, v, funcs.ALL)
				model[k] = removed(d, model[k], v, true)
			}
			for _, k := range []string{"", "k", "other"} {
				c.Check(sameSlice(d, mp[k], model[k]), "map", "the map is %v, expected %v", mp, model)
			}
			for k := range mp {
				c.Check(k == "" || k == "k", "map", "the map is %v, expected %v", mp, model)
			}
			c.State(fmt.Sprint(mp))
		}
	})
	n = r.Budget(4, 5)
	r.Explore("map2-slice-"+d.name, fmt.Sprintf("all histories of %d changes of a map of maps of lists", n), -1, func(c *mc.C) {
		var mp map[string]map[int][]V
		type key struct {
			k string
			l int
		}
		model := map[key][]V{}
		switch c.Choose(4) {
		case 1:
			mp = map[string]map[int][]V{"k": nil}
		case 2:
			mp = map[string]map[int][]V{"k": {1: nil}}
		case 3:
			mp = map[string]map[int][]V{"": {1: []V{}}}
		}
		for i := 0; i < n; i++ {
			k, v := key{mc.Pick(c, []string{"", "k"}), c.Choose(2)}, mc.Pick(c, d.vals)
			switch op := c.Choose(3); op {
			case 0:
				c.Op("add %v %v", k, v)
				funcs.Map2SliceAdd(&mp, k.k, k.l, v)
				model[k] = append(model[k], v)
			case 1:
				c.Op("remove %v %v", k, v)
				remove2(mp, k.k, k.l, v)
				model[k] = removed(d, model[k], v, false)
			default:
				c.Op("remove all %v %v", k, v)
				remove2(mp, k.k, k.l, v, funcs.ALL)
				model[k] = removed(d, model[k], v, true)
			}
			for _, k := range []key{{"", 0}, {"", 1}, {"k", 0}, {"k", 1}, {"o", 0}} {
				c.Check(sameSlice(d, mp[k.k][k.l], model[k]), "map", "the map is %v, expected %v", mp, model)
			}
			for k, m := range mp {
				for l := range m {
					c.Check((k == "" || k == "k") && (l == 0 || l == 1), "map", "the map is %v, expected %v", mp, model)
				}
			}
			c.State(fmt.Sprint(mp))
		}
	})
}
