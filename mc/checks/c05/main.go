// C05: stream transforms are functions of lists
package main

import (
	"errors"
	"fmt"
	"maps"
	"math"
	"math/big"
	"math/cmplx"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
	"verifmc/mc"
)

var (
	errMap  = errors.New("mapper problem")
	errMore = errors.New("there is more")
)

// list is a finite stream: the values, and what ends it
type list struct {
	vals []int
	end  error
}

func (l list) String() string { return fmt.Sprintf("%v %v", l.vals, l.end) }

type op struct {
	name  string
	apply func(iter.Iter[int]) iter.Iter[int]
	model func(list) list
	eager bool // consumes the source when it is applied
}

func each(f func(int) ([]int, error)) func(list) list {
	return func(l list) (r list) {
		for _, v := range l.vals {
			vs, err := f(v)
			if err != nil {
				return list{r.vals, err}
			}
			r.vals = append(r.vals, vs...)
		}
		r.end = l.end
		return
	}
}

// whole: needs all values, gives nothing if the source fails
func whole(f func([]int) []int) func(list) list {
	return func(l list) list {
		if l.end != iter.EOI {
			return list{nil, l.end}
		}
		return list{f(append([]int{}, l.vals...)), iter.EOI}
	}
}

func odd(v int) bool   { return v%2 != 0 }
func small(v int) bool { return v < 2 }
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func boolOp(name string, t func(iter.Iter[int]) iter.Iter[bool], empty bool, pred func(int) bool, stop bool) op {
	return op{name: name, apply: func(it iter.Iter[int]) iter.Iter[int] { return stream.Map(b2i)(t(it)) }, model: func(l list) list {
		res := empty
		for _, v := range l.vals {
			if res = pred(v); res == stop {
				return list{[]int{b2i(res)}, iter.EOI}
			}
		}
		if l.end != iter.EOI {
			return list{nil, l.end}
		}
		return list{[]int{b2i(res)}, iter.EOI}
	}}
}

func fold(f func(a, b int) int, id ...int) func([]int) []int {
	return func(l []int) []int {
		l = append(append([]int{}, id...), l...)
		if len(l) == 0 {
			return nil
		}
		r := l[0]
		for _, v := range l[1:] {
			r = f(r, v)
		}
		return []int{r}
	}
}

func sub(a, b int) int { return 2*a - b }

func repeat(v int) []int {
	switch {
	case v < 0:
		return nil
	case v == 0:
		return make([]int, 0, 3)
	}
	n := v
	if n > 64 {
		n = 3 + v%7
	}
	r := make([]int, n)
	for i := range r {
		r[i] = v*10 + i
	}
	return r
}

// digest adds a value to a number written as text
func digest(s string, v int) string {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return strconv.Itoa((3*n + v%9973) % 9973)
}

func uniq(l []int, nth int) (r []int) {
	n := map[int]int{}
	for _, v := range l {
		if n[v]++; n[v] == nth {
			r = append(r, v)
		}
	}
	return
}

// drop and take are for uints that may exceed the length
func skip(n uint) op {
	return op{name: fmt.Sprintf("Skip(%d)", n), apply: stream.Skip[int](n), model: func(l list) list {
		if uint(len(l.vals)) <= n {
			return list{nil, l.end}
		}
		return list{l.vals[n:], l.end}
	}}
}

func limit(n uint) op {
	return op{name: fmt.Sprintf("Limit(%d)", n), apply: stream.Limit[int](n), model: func(l list) list {
		if uint(len(l.vals)) >= n {
			return list{l.vals[:n], iter.EOI}
		}
		return l
	}}
}

func round(sum, n int) int {
	q, r := sum/n, sum%n
	if r < 0 {
		r = -r
	}
	if 2*r >= n {
		if sum < 0 {
			return q - 1
		}
		return q + 1
	}
	return q
}

func abs(v int) int {
	if v < 0 {
		return -v
	}
	return v
}

var ops = []op{
	{name: "Map(+1)", apply: stream.Map(func(v int) int { return v + 1 }), model: each(func(v int) ([]int, error) { return []int{v + 1}, nil })},
	{name: "Map to string and back", apply: func(it iter.Iter[int]) iter.Iter[int] {
		return stream.Map(func(s string) int { return len(s) })(stream.Map(func(v int) string { return strings.Repeat("x", abs(v%1009)) })(it))
	}, model: each(func(v int) ([]int, error) { return []int{abs(v % 1009)}, nil })},
	{name: "MapError(2 fails)", apply: stream.MapError(func(v int) (int, error) {
		if v == 2 {
			return 7, errMap
		}
		return -v, nil
	}), model: each(func(v int) ([]int, error) {
		if v == 2 {
			return nil, errMap
		}
		return []int{-v}, nil
	})},
	{name: "Filter(odd)", apply: stream.Filter(odd), model: each(func(v int) ([]int, error) {
		if odd(v) {
			return []int{v}, nil
		}
		return nil, nil
	})},
	{name: "Filter(<2)", apply: stream.Filter(small), model: each(func(v int) ([]int, error) {
		if small(v) {
			return []int{v}, nil
		}
		return nil, nil
	})},
	skip(0), skip(1), skip(2), skip(math.MaxUint), limit(0), limit(1), limit(2), limit(math.MaxUint),
	{name: "Distinct", apply: stream.Distinct[int], model: func(l list) list { return list{uniq(l.vals, 1), l.end} }},
	{name: "Duplicate", apply: stream.Duplicate[int], model: func(l list) list { return list{uniq(l.vals, 2), l.end} }},
	{name: "Reverse", apply: stream.Reverse[int], eager: true, model: whole(func(l []int) []int {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		return l
	})},
	{name: "SortOrdered", apply: stream.SortOrdered[int], eager: true, model: whole(func(l []int) []int { sort.Ints(l); return l })},
	{name: "SortBy(descending)", apply: stream.SortBy(func(a, b int) bool { return a > b }), eager: true, model: whole(func(l []int) []int {
		sort.Sort(sort.Reverse(sort.IntSlice(l)))
		return l
	})},
	{name: "Reduce(2a-b)", apply: stream.Reduce(sub), model: whole(fold(sub))},
	{name: "Reduce(2a-b, 5)", apply: stream.Reduce(sub, 5), model: whole(fold(sub, 5))},
	{name: "ReduceTo(string)", apply: func(it iter.Iter[int]) iter.Iter[int] {
		return stream.Map(func(s string) int { return len(s)*100 + int(s[len(s)-1]) })(stream.ReduceTo(func(s string, v int) string { return s + string(rune('k'+v)) })(it))
	}, model: whole(func(l []int) []int {
		if len(l) == 0 {
			return nil
		}
		s := ""
		for _, v := range l {
			s += string(rune('k' + v))
		}
		return []int{len(s)*100 + int(s[len(s)-1])}
	})},
	{name: "ReduceTo(string, id)", apply: func(it iter.Iter[int]) iter.Iter[int] {
		return stream.Map(func(s string) int { return len(s)*10000 + int(s[0]) })(stream.ReduceTo(digest, "2")(it))
	}, model: whole(func(l []int) []int {
		s := "2"
		for _, v := range l {
			s = digest(s, v)
		}
		return []int{len(s)*10000 + int(s[0])}
	})},
	boolOp("ReduceToBool(odd, true, false)", stream.ReduceToBool(odd, true, false), true, odd, false),
	boolOp("ReduceToBool(odd, false, false)", stream.ReduceToBool(odd, false, false), false, odd, false),
	boolOp("ReduceToBool(odd, true, true)", stream.ReduceToBool(odd, true, true), true, odd, true),
	boolOp("AllMatch", stream.AllMatch(small), true, small, false),
	boolOp("AnyMatch", stream.AnyMatch(odd), false, odd, true),
	boolOp("NoneMatch", stream.NoneMatch(odd), true, func(v int) bool { return !odd(v) }, false),
	{name: "Count", apply: stream.Count[int], model: whole(func(l []int) []int { return []int{len(l)} })},
	{name: "ReduceToSlice, ExpandSlices", apply: func(it iter.Iter[int]) iter.Iter[int] { return stream.ExpandSlices(stream.ReduceToSlice(it)) }, model: whole(func(l []int) []int { return l })},
	{name: "ReduceToSlice, len", apply: func(it iter.Iter[int]) iter.Iter[int] {
		return stream.Map(func(l []int) int { return len(l) })(stream.ReduceToSlice(it))
	}, model: whole(func(l []int) []int { return []int{len(l)} })},
	{name: "ExpandSlices(repeat)", apply: func(it iter.Iter[int]) iter.Iter[int] { return stream.ExpandSlices(stream.Map(repeat)(it)) }, model: each(func(v int) ([]int, error) { return repeat(v), nil })},
	{name: "ReduceToMap, len", apply: func(it iter.Iter[int]) iter.Iter[int] {
		return stream.Map(func(m map[int]string) int { return len(m) })(stream.ReduceToMap(stream.Map(func(v int) tuple.Two[int, string] { return tuple.Of2(v, "x") })(it)))
	}, model: whole(func(l []int) []int { return []int{len(uniq(l, 1))} })},
	{name: "ExpandMaps(one)", apply: func(it iter.Iter[int]) iter.Iter[int] {
		return stream.Map(func(t tuple.Two[int, int]) int { return t.T * t.U })(stream.ExpandMaps(stream.Map(func(v int) map[int]int {
			switch v {
			case 0:
				return nil
			case 1:
				return map[int]int{}
			}
			return map[int]int{v: 3}
		})(it)))
	}, model: each(func(v int) ([]int, error) {
		if v == 0 || v == 1 {
			return nil, nil
		}
		return []int{v * 3}, nil
	})},
	{name: "Peek", apply: stream.Peek(func(int) {}), model: func(l list) list { return l }},
	{name: "Generator(running sum)", apply: stream.Generator(func() func(iter.Iter[int]) iter.Iter[int] {
		return func(it iter.Iter[int]) iter.Iter[int] {
			s := 0
			return stream.Map(func(v int) int { s += v; return s })(it)
		}
	}), model: func(l list) list {
		r, s := list{end: l.end}, 0
		for _, v := range l.vals {
			s += v
			r.vals = append(r.vals, s)
		}
		return r
	}},
	{name: "Max", apply: stream.Max[int], model: whole(fold(func(a, b int) int {
		if a > b {
			return a
		}
		return b
	}))},
	{name: "Min", apply: stream.Min[int], model: whole(fold(func(a, b int) int {
		if a < b {
			return a
		}
		return b
	}))},
	{name: "Sum", apply: stream.Sum[int], model: whole(fold(func(a, b int) int { return a + b }))},
	{name: "Abs", apply: stream.Abs[int], model: each(func(v int) ([]int, error) { return []int{abs(v)}, nil })},
	{name: "AvgInt", apply: stream.AvgInt[int], model: whole(func(l []int) []int {
		if len(l) == 0 {
			return nil
		}
		s := 0
		for _, v := range l {
			s += v
		}
		return []int{round(s, len(l))}
	})},
}

// source counts what is taken of it. Behind its end there are more values, nobody may ask for them
func source(c *mc.C, l list, pulls *int, own bool) iter.Iter[int] {
	ended := false
	fn := func() (int, error) {
		c.Check(!ended, "after-end", "the source was asked for more after its end")
		*pulls++
		if *pulls > len(l.vals) {
			ended = true
			return 0, l.end
		}
		return l.vals[*pulls-1], nil
	}
	if own {
		return mc.NewOwnIter(fn)
	}
	return iter.OfIter(fn)
}

func modelAll(p []op, l list) list {
	for _, o := range p {
		l = o.model(l)
	}
	return l
}

func names(p []op) string {
	var s []string
	for _, o := range p {
		s = append(s, o.name)
	}
	return strings.Join(s, " | ")
}

// input picks a list of up to n of the values -1 0 1 2, that ends or fails
func input(c *mc.C, n int) (l list) { return inputOf(c, n, 4) }

func inputOf(c *mc.C, n, kinds int) (l list) {
	l.end = iter.EOI
	if c.Bool() {
		l.end = mc.ErrCustom
	}
	for i := c.Choose(n + 1); i > 0; i-- {
		l.vals = append(l.vals, 2-c.Choose(kinds))
	}
	return
}

func judge(c *mc.C, p []op, l list) { judgeOf(c, p, l, false) }

// judgeOf takes a list of an iterator of micro, or of a type that micro does not know
func judgeOf(c *mc.C, p []op, l list, own bool) {
	ns := names(p)
	c.Op("%v | %s", l, ns)
	want := modelAll(p, l)
	pulls := 0
	it := source(c, l, &pulls, own)
	lazy := true
	for _, o := range p {
		it = o.apply(it)
		lazy = lazy && !o.eager
	}
	if lazy {
		c.Check(pulls == 0, "lazy", "%v | %s: %d elements were taken before the first was asked for", l, ns, pulls)
	}
	// enough tells if seeing n of the source is enough to know k results, or the end
	enough := func(n, k int, end bool) bool {
		m := modelAll(p, list{l.vals[:n], errMore})
		return len(m.vals) >= k && (!end || m.end != errMore)
	}
	for k := 0; ; k++ {
		v, err := it.Next()
		c.Ops(1)
		end := k >= len(want.vals)
		if end {
			c.Check(err == want.end && v == 0, "end", "%v | %s: expected %v, got (%d, %v) after %d elements", l, ns, want, v, err, k)
		} else {
			c.Check(err == nil && v == want.vals[k], "element", "%v | %s: expected %v, element %d is (%d, %v)", l, ns, want, k, v, err)
		}
		if lazy && pulls > 0 && (k < 66 || end || k&(k-1) == 0) {
			n := k + 1
			if end {
				n = k
			}
			c.Check(pulls <= len(l.vals)+1 && !enough(pulls-1, n, end), "lazy", "%v | %s: %d elements were taken for result %d, less are enough", l, ns, pulls, k)
		}
		if end {
			break
		}
	}
	for i := 0; i < 2; i++ {
		v, err := it.Next()
		c.Check(err == want.end && v == 0, "end", "%v | %s: the end %v is followed by (%d, %v)", l, ns, want.end, v, err)
	}
	c.Outcome(want.String())
	c.State(ns + want.String())
}

func pipeline(c *mc.C, n int) (p []op) {
	for i := 0; i < n; i++ {
		p = append(p, mc.Pick(c, ops))
	}
	return
}

// drain collects an iterator
func drain[T any](c *mc.C, it iter.Iter[T]) (res []T, err error) {
	for {
		v, e := it.Next()
		if e != nil {
			for i := 0; i < 2; i++ {
				_, e2 := it.Next()
				c.Check(e2 == e, "end", "the end %v is followed by %v", e, e2)
			}
			return res, e
		}
		res = append(res, v)
		c.Check(len(res) < 10_000, "endless", "the result does not end")
	}
}

// pick a list of up to n values of a domain
func pick[T any](c *mc.C, n int, dom ...T) (l []T) {
	for i := c.Choose(n + 1); i > 0; i-- {
		l = append(l, mc.Pick(c, dom))
	}
	return
}

func show[T any](l []T) string {
	var s []string
	for _, v := range l {
		s = append(s, fmt.Sprint(v))
	}
	return strings.Join(s, " ")
}

// ending makes an iterator of the values, that ends or fails
func ending[T any](c *mc.C, l []T) (iter.Iter[T], error) {
	switch c.Choose(4) {
	case 1:
		return iter.SetError(iter.OfSlice(l), mc.ErrCustom), mc.ErrCustom
	case 2:
		return mc.OwnIterOf(iter.EOI, l...), iter.EOI
	case 3:
		return mc.OwnIterOf(mc.ErrCustom, l...), mc.ErrCustom
	}
	return iter.OfSlice(l), iter.EOI
}

// sorted checks the result of a sort
func sorted[T comparable](c *mc.C, name string, t func(iter.Iter[T]) iter.Iter[T], le func(a, b T) bool, dom ...T) {
	l := pick(c, 5, dom...)
	it, end := ending(c, append([]T{}, l...))
	got, err := drain(c, t(it))
	c.Op("%s of %s: %s %v", name, show(l), show(got), err)
	c.Check(err == end, "end", "%s of %s: %v", name, show(l), err)
	c.Outcome(name + show(got))
	if end != iter.EOI {
		c.Check(len(got) == 0, "element", "%s of a failing source returns %s", name, show(got))
		return
	}
	c.Check(len(got) == len(l), "sorted", "%s of %s is %s", name, show(l), show(got))
	n := map[T]int{}
	for i := range l {
		n[l[i]]++
		n[got[i]]--
		if i > 0 {
			c.Check(le(got[i-1], got[i]), "sorted", "%s of %s is %s", name, show(l), show(got))
		}
	}
	for _, k := range n {
		c.Check(k == 0, "sorted", "%s of %s is %s", name, show(l), show(got))
	}
}

func le[T constraint.Ordered](a, b T) bool { return a <= b }

// extreme checks Max or Min
func extreme[T any](c *mc.C, name string, t func(iter.Iter[T]) iter.Iter[T], better func(a, b T) bool, dom ...T) {
	l := pick(c, 4, dom...)
	it, end := ending(c, l)
	got, err := drain(c, t(it))
	c.Op("%s of %s: %s %v", name, show(l), show(got), err)
	c.Check(err == end, "end", "%s of %s: %v", name, show(l), err)
	c.Outcome(name + show(got))
	if end != iter.EOI || len(l) == 0 {
		c.Check(len(got) == 0, "element", "%s of %s (%v) returns %s", name, show(l), end, show(got))
		return
	}
	best := l[0]
	for _, v := range l {
		if better(v, best) {
			best = v
		}
	}
	c.Check(len(got) == 1 && !better(best, got[0]) && !better(got[0], best), "extreme", "%s of %s is %s", name, show(l), show(got))
}

type number interface {
	int8 | int16 | int | uint8 | uint16 | uint | float64 | float32
}

// avg checks an average over a narrow type, that is an error exactly when a partial sum is out of range
func avg[T number](c *mc.C, name string, t func(iter.Iter[T]) iter.Iter[T], lo, hi int64, dom ...T) {
	l := pick(c, 4, dom...)
	it, end := ending(c, l)
	got, err := drain(c, t(it))
	c.Op("%s of %v: %v %v", name, l, got, err)
	c.Outcome(fmt.Sprint(name, got, err))
	s, over := int64(0), false
	for _, v := range l {
		s += int64(v)
		over = over || s < lo || s > hi
		if over {
			break
		}
	}
	if over {
		c.Check(err != nil && err != iter.EOI && err != mc.ErrCustom && len(got) == 0, "overflow", "%s of %v: the sum is out of range, got %v %v", name, l, got, err)
		return
	}
	c.Check(err == end, "end", "%s of %v: %v, expected %v", name, l, err, end)
	if end != iter.EOI || len(l) == 0 {
		c.Check(len(got) == 0, "element", "%s of %v (%v) returns %v", name, l, end, got)
		return
	}
	c.Check(len(got) == 1 && int64(got[0]) == int64(round(int(s), len(l))), "average", "%s of %v is %v", name, l, got)
}

func sum[T number](c *mc.C, name string, t func(iter.Iter[T]) iter.Iter[T], dom ...T) {
	l := pick(c, 4, dom...)
	it, end := ending(c, l)
	got, err := drain(c, t(it))
	c.Op("%s of %v: %v %v", name, l, got, err)
	c.Outcome(fmt.Sprint(name, got, err))
	c.Check(err == end, "end", "%s of %v: %v, expected %v", name, l, err, end)
	if end != iter.EOI || len(l) == 0 {
		c.Check(len(got) == 0, "element", "%s of %v (%v) returns %v", name, l, end, got)
		return
	}
	var s T
	for _, v := range l {
		s += v
	}
	c.Check(len(got) == 1 && got[0] == s, "sum", "%s of %v is %v", name, l, got)
}

// big values

func toRat(v any) *big.Rat {
	switch x := v.(type) {
	case *big.Int:
		return new(big.Rat).SetInt(x)
	case *big.Rat:
		return new(big.Rat).Set(x)
	case *big.Float:
		r, _ := x.Rat(nil)
		return r
	}
	panic("mc: type")
}

func bigs[T interface {
	constraint.BigOps[T]
	comparable
}](c *mc.C, kind string, exactAvg bool, dom func() []T) {
	d := dom()
	n := c.Choose(4)
	var l []T
	for i := c.Choose(4); i > 0; i-- {
		l = append(l, dom()[c.Choose(len(d))])
	}
	if c.Choose(8) == 1 {
		// a long one
		for i := 0; i < 40; i++ {
			l = append(l, dom()[i%len(d)])
		}
	}
	before := make([]*big.Rat, len(l))
	exact := new(big.Rat)
	prec := uint(0)
	// every addition may round once, to the precision of the elements so far
	tol, mag := new(big.Rat), new(big.Rat)
	for i, v := range l {
		before[i] = toRat(v)
		exact.Add(exact, before[i])
		if f, isa := any(v).(*big.Float); isa && f.Prec() > prec {
			prec = f.Prec()
		}
		mag.Add(mag, new(big.Rat).Abs(before[i]))
		tol.Add(tol, new(big.Rat).Quo(mag, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), prec))))
	}
	it, end := ending(c, l)
	name := kind + " " + []string{"Sum", "Avg", "Abs", "Abs"}[n]
	var got []T
	var err error
	switch n {
	case 0:
		got, err = drain(c, stream.SumBigOps(it))
	case 1:
		got, err = drain(c, stream.AvgBigOps(it))
	default:
		got, err = drain(c, stream.AbsBigOps(it))
	}
	c.Op("%s of %s (%v): %s, %v", name, show(l), end, show(got), err)
	c.Outcome(name + show(got) + fmt.Sprint(err))
	c.Check(err == end, "end", "%s of %s: %v, expected %v", name, show(l), err, end)
	for i, v := range l {
		c.Check(toRat(v).Cmp(before[i]) == 0, "changed", "%s of %s changed element %d, it was %v", name, show(l), i, before[i])
	}
	if n > 0 || len(l) > 1 {
		for i, v := range l {
			for _, g := range got {
				c.Check(any(g) != any(v), "shared", "%s of %s: a result is element %d", name, show(l), i)
			}
		}
	}
	if n >= 2 {
		c.Check(len(got) == len(l), "element", "%s of %s: %s", name, show(l), show(got))
		for i := range got {
			c.Check(toRat(got[i]).Cmp(new(big.Rat).Abs(before[i])) == 0, "abs", "%s of %s: %s", name, show(l), show(got))
		}
		return
	}
	if end != iter.EOI || len(l) == 0 {
		c.Check(len(got) == 0, "element", "%s of %s (%v): %s", name, show(l), end, show(got))
		return
	}
	c.Check(len(got) == 1, "element", "%s of %s: %s", name, show(l), show(got))
	g := toRat(got[0])
	if n == 1 {
		cnt := big.NewRat(int64(len(l)), 1)
		exact.Quo(exact, cnt)
		if kind == "*big.Int" {
			// rounded, halves away from zero
			h := new(big.Rat).Add(new(big.Rat).Abs(exact), big.NewRat(1, 2))
			q := new(big.Int).Quo(h.Num(), h.Denom())
			if exact.Sign() < 0 {
				q.Neg(q)
			}
			exact.SetInt(q)
		}
	}
	if kind == "*big.Float" {
		tol.Mul(tol, big.NewRat(2, 1))
		diff := new(big.Rat).Sub(g, exact)
		c.Check(diff.Abs(diff).Cmp(tol) <= 0, "value", "%s of %s is %s, exact is %s", name, show(l), show(got), exact.FloatString(30))
		return
	}
	c.Check(g.Cmp(exact) == 0, "value", "%s of %s is %s, expected %v", name, show(l), show(got), exact)
}

func bi(s string) *big.Int { i, _ := new(big.Int).SetString(s, 0); return i }
func bf(s string, prec uint) *big.Float {
	f, _, err := big.ParseFloat(s, 10, prec, big.ToNearestEven)
	if err != nil {
		panic(err)
	}
	return f
}

// distance compares by any negative or positive number, as constraint.Cmp allows
type distance int

func (d distance) Cmp(o distance) int { return int(d - o) }

// nils checks that a nil element is an element like any other
func nils[T comparable](c *mc.C, name string, vals ...T) {
	var (
		zv   T
		l    = pick(c, 4, vals...)
		src  = iter.OfSlice(append([]T{}, l...))
		it   iter.Iter[T]
		want []T
		what string
		all  = func(t string, i iter.Iter[T], w []T) { what, it, want = t, i, w }
		keep = func(f func(i int) bool) (r []T) {
			for i := range l {
				if f(i) {
					r = append(r, l[i])
				}
			}
			return
		}
		before = func(i int) (n int) {
			for _, v := range l[:i] {
				if v == l[i] {
					n++
				}
			}
			return
		}
		id    = func(v T) T { return v }
		isNil = func(v T) bool { return v == zv }
		nNil  = len(keep(func(i int) bool { return isNil(l[i]) }))
	)
	switch c.Choose(19) {
	case 0:
		all("Map", stream.Map(id)(src), l)
	case 1:
		all("MapError", stream.MapError(func(v T) (T, error) { return v, nil })(src), l)
	case 2:
		all("Filter(nil)", stream.Filter(isNil)(src), keep(func(i int) bool { return isNil(l[i]) }))
	case 3:
		all("Filter(not nil)", stream.Filter(func(v T) bool { return v != zv })(src), keep(func(i int) bool { return !isNil(l[i]) }))
	case 4:
		all("Skip(1)", stream.Skip[T](1)(src), keep(func(i int) bool { return i >= 1 }))
	case 5:
		all("Limit(2)", stream.Limit[T](2)(src), keep(func(i int) bool { return i < 2 }))
	case 6:
		all("Peek", stream.Peek(func(T) {})(src), l)
	case 7:
		all("Reverse", stream.Reverse(src), keep(func(i int) bool { return true }))
		for i, v := range l {
			want[len(l)-1-i] = v
		}
	case 8:
		all("Distinct", stream.Distinct(src), keep(func(i int) bool { return before(i) == 0 }))
	case 9:
		all("Duplicate", stream.Duplicate(src), keep(func(i int) bool { return before(i) == 1 }))
	case 10:
		all("ReduceToSlice, ExpandSlices", stream.ExpandSlices(stream.ReduceToSlice(src)), l)
	case 11:
		tgt := make([]T, len(l))
		all("ReduceIntoSlice, ExpandSlices", stream.ExpandSlices(stream.ReduceIntoSlice(tgt)(src)), l)
	case 12:
		all("ExpandSlices of pairs", stream.ExpandSlices(stream.Map(func(v T) []T { return []T{v, zv} })(src)), nil)
		for _, v := range l {
			want = append(want, v, zv)
		}
	case 13:
		first := c.Bool()
		r := func(a, b T) T {
			if first {
				return a
			}
			return b
		}
		all("Reduce", stream.Reduce(r)(src), nil)
		if len(l) > 0 {
			want = []T{r(l[0], l[len(l)-1])}
		}
	case 14:
		all("ReduceTo([]T), ExpandSlices", stream.ExpandSlices(stream.ReduceTo(func(a []T, v T) []T { return append(a, v) }, []T{})(src)), l)
	case 15:
		n, err := stream.Count(src).Next()
		c.Check(err == nil && n == len(l), "count", "%s %#v: Count is %d, %v", name, l, n, err)
		return
	case 16:
		k := c.Choose(3)
		b, err := []func(func(T) bool) func(iter.Iter[T]) iter.Iter[bool]{stream.AllMatch[T], stream.AnyMatch[T], stream.NoneMatch[T]}[k](isNil)(src).Next()
		exp := []bool{nNil == len(l), nNil > 0, nNil == 0}[k]
		c.Check(err == nil && b == exp, "match", "%s %#v: match %d is %v, %v", name, l, k, b, err)
		return
	case 17:
		m, err := stream.ReduceToMap(stream.Map(func(v T) tuple.Two[T, T] { return tuple.Of2(v, v) })(src)).Next()
		exp := map[T]T{}
		for _, v := range l {
			exp[v] = v
		}
		c.Check(err == nil && maps.Equal(m, exp), "map", "%s %#v: %v, %v", name, l, m, err)
		return
	default:
		all("SortBy(nil first)", stream.SortBy(func(a, b T) bool { return isNil(a) && !isNil(b) })(src), nil)
		got, err := drain(c, it)
		c.Check(err == iter.EOI && len(got) == len(l), "sort", "%s %#v: %#v, %v", name, l, got, err)
		for i, v := range got {
			c.Check(isNil(v) == (i < nNil), "sort", "%s %#v: %#v, %v", name, l, got, err)
		}
		return
	}
	got, err := drain(c, it)
	c.Op("%s %#v: %s", name, l, what)
	c.Check(err == iter.EOI && slices.Equal(got, want), "nil", "%s of %s %#v: %#v, %v, expected %#v", what, name, l, got, err, want)
	c.Outcome(fmt.Sprint(what, len(got)))
}

func main() {
	mc.Main("C05", "model_checking", []string{"the functions given to the transforms are functions of their arguments (Generator and Peek aside)"}, func(r *mc.Run) {
		n := r.Budget(4, 5)
		r.Explore("single", fmt.Sprintf("all %d transforms of all lists of up to %d of -1 0 1 2, that end or fail", len(ops), n+1), -1, func(c *mc.C) {
			judge(c, pipeline(c, 1), input(c, n+1))
		})
		r.Explore("pairs", fmt.Sprintf("all pipelines of two of %d transforms, all lists of up to %d of -1 0 1 2, that end or fail", len(ops), n), -1, func(c *mc.C) {
			judge(c, pipeline(c, 2), input(c, n))
		})
		r.Explore("own", fmt.Sprintf("all pipelines of one or two of %d transforms of an iterator of a foreign type, all lists of up to 3 of -1 0 1 2, that end or fail", len(ops)), -1, func(c *mc.C) {
			judgeOf(c, pipeline(c, 1+c.Choose(2)), input(c, 3), true)
		})
		r.Explore("counts", "skipping and limiting by all numbers next to powers of two up to 64 bits, lists of up to 4 of 0 1 2, that end or fail", -1, func(c *mc.C) {
			var n uint
			if b := c.Choose(65); b < 64 {
				n = 1 << b
			}
			n += uint(c.Choose(5)) - 2
			o := skip(n)
			if c.Bool() {
				o = limit(n)
			}
			judge(c, []op{o}, inputOf(c, 4, 3))
		})
		long := r.Budget(16384, 65536)
		r.Explore("long", fmt.Sprintf("all %d transforms of lists of all lengths up to 66 and around powers of two up to %d, in seven arrangements, that end or fail", len(ops), long), -1, func(c *mc.C) {
			o := mc.Pick(c, ops)
			l := list{end: mc.Pick(c, []error{iter.EOI, mc.ErrCustom})}
			n, k := mc.Pick(c, mc.Lengths(long)), c.Choose(7)
			for i := 0; i < n; i++ {
				l.vals = append(l.vals, []int{i, n - i, i % 2, -i % 3, i * 7919 % 101, n - 1 - abs(2*i-n), 1}[k])
			}
			judge(c, []op{o}, l)
		})
		r.Explore("longest", fmt.Sprintf("all %d transforms of lists of 32767 to 32769 and 65535 to 65537 elements, in three arrangements", len(ops)), -1, func(c *mc.C) {
			o := mc.Pick(c, ops)
			l := list{end: iter.EOI}
			n, k := mc.Pick(c, []int{32767, 32768, 32769, 65535, 65536, 65537, 65540}), c.Choose(3)
			for i := 0; i < n; i++ {
				l.vals = append(l.vals, []int{i, i % 2, (i + 1) % (n - 1)}[k])
			}
			judge(c, []op{o}, l)
		})
		n3 := r.Budget(3, 4)
		r.Explore("triples", fmt.Sprintf("all pipelines of three of %d transforms, all lists of up to %d of 0 1 2, that end or fail", len(ops), n3), -1, func(c *mc.C) {
			judge(c, pipeline(c, 3), inputOf(c, n3, 3))
		})
		r.Explore("quadruples", "all pipelines of four transforms, the lists 2, and 1 2", -1, func(c *mc.C) {
			judge(c, pipeline(c, 4), list{[][]int{{2}, {1, 2}}[c.Choose(2)], iter.EOI})
		})

		n = r.Budget(1, 2)
		r.Explore("reuse", fmt.Sprintf("a composition of up to two transforms applied to two lists (up to 2 elements) at once: all interleavings of asking either for the next element (after the first 8 in turn), up to %d beyond the end", n), -1, func(c *mc.C) {
			p := pipeline(c, 1+c.Choose(r.Budget(1, 2)))
			fn := func(it iter.Iter[int]) iter.Iter[int] {
				for _, o := range p {
					it = o.apply(it)
				}
				return it
			}
			in := func() list {
				if len(p) > 1 {
					return inputOf(c, 2, 2)
				}
				return input(c, 2)
			}
			ls := []list{in(), in()}
			own := c.Bool()
			var its []iter.Iter[int]
			var wants []list
			pulls := []int{0, 0}
			for i, l := range ls {
				its = append(its, fn(source(c, l, &pulls[i], own)))
				wants = append(wants, modelAll(p, l))
			}
			c.Op("%v and %v | %s", ls[0], ls[1], names(p))
			at := []int{0, 0}
			left := func(i int) bool { return at[i] < len(wants[i].vals)+n }
			for left(0) || left(1) {
				i := 0
				if !left(0) {
					i = 1
				} else if left(1) && at[0]+at[1] < 8 {
					i = c.Choose(2)
				} else if left(1) {
					i = (at[0] + at[1]) % 2
				}
				v, err := its[i].Next()
				c.Ops(1)
				if at[i] < len(wants[i].vals) {
					c.Check(err == nil && v == wants[i].vals[at[i]], "element", "%v and %v | %s: element %d of list %d is (%d, %v), expected %v", ls[0], ls[1], names(p), at[i], i, v, err, wants[i])
				} else {
					c.Check(err == wants[i].end, "end", "%v and %v | %s: the end of list %d is (%d, %v), expected %v", ls[0], ls[1], names(p), i, v, err, wants[i])
				}
				at[i]++
			}
			c.Outcome(fmt.Sprint(wants))
		})

		r.Explore("peek", "Peek after and before every transform sees every element that passes, once, in order", -1, func(c *mc.C) {
			o := mc.Pick(c, ops)
			l := input(c, 3)
			var before, after []int
			pulls := 0
			it := stream.Peek(func(v int) { after = append(after, v) })(o.apply(stream.Peek(func(v int) { before = append(before, v) })(source(c, l, &pulls, c.Bool()))))
			got, err := drain(c, it)
			want := o.model(l)
			c.Op("%v | %s: %v, %v", l, o.name, got, err)
			c.Check(show(after) == show(want.vals) && show(got) == show(want.vals), "peek", "%v | %s: Peek behind it saw %v of %v", l, o.name, after, want)
			c.Check(len(before) <= len(l.vals) && show(before) == show(l.vals[:len(before)]), "peek", "%v | %s: Peek before it saw %v", l, o.name, before)
			c.Check(len(before) == pulls || len(before) == pulls-1, "peek", "%v | %s: Peek before it saw %v, %d elements were taken", l, o.name, before, pulls)
			c.Outcome(show(before) + "/" + show(after))
		})

		r.Explore("generator", "Generator: one generated function per iterator, over all sequences of up to 5 applications to three iterators", -1, func(c *mc.C) {
			its := []iter.Iter[int]{iter.Of(1), iter.Of(2), iter.Of(3)}
			made := 0
			g := stream.Generator(func() func(iter.Iter[int]) iter.Iter[int] {
				made++
				me := made
				return func(it iter.Iter[int]) iter.Iter[int] { return iter.Of(me) }
			})
			last, want := -1, 0
			for i := 1 + c.Choose(5); i > 0; i-- {
				k := c.Choose(3)
				if k != last {
					want++
				}
				last = k
				v, err := g(its[k]).Next()
				c.Op("apply to iterator %d: generated %d, used %d", k, made, v)
				c.Check(err == nil && made == want && v == want, "generator", "%d functions were generated instead of %d, number %d was used", made, want, v)
			}
			c.Outcome(fmt.Sprint(made))
		})

		r.Explore("into-slice", "ReduceIntoSlice: targets of 0 to 4 elements, sources of 0 to 4, that end or fail", -1, func(c *mc.C) {
			tgt := make([]int, c.Choose(5))
			for i := range tgt {
				tgt[i] = 9
			}
			var l []int
			for i := c.Choose(5); i > 0; i-- {
				l = append(l, len(l)+1)
			}
			src, end := ending(c, l)
			it := stream.ReduceIntoSlice(tgt)(src)
			var got []int
			var err error
			pv := mc.Try(func() { got, err = it.Next() })
			c.Op("%d into %d (%v): %v %v %v", len(l), len(tgt), end, got, err, pv)
			c.Outcome(fmt.Sprint(got, err, pv != nil))
			if len(l) > len(tgt) {
				c.Check(pv != nil, "no-panic", "%d elements into %d: no panic", len(l), len(tgt))
				return
			}
			c.Check(pv == nil, "panic", "%d elements into %d: %v", len(l), len(tgt), pv)
			if end != iter.EOI {
				c.Check(err == end, "end", "expected %v, got %v", end, err)
				for _, v := range tgt {
					c.Check(v == 0, "not-zeroed", "the source fails, the target is %v", tgt)
				}
			} else {
				c.Check(err == nil && show(tgt[:len(l)]) == show(l) && len(got) >= len(l) && show(got[:len(l)]) == show(l), "into", "%v into %d: target %v, result %v, %v", l, len(tgt), tgt, got, err)
				if len(got) > 0 && len(tgt) > 0 {
					c.Check(&got[0] == &tgt[0], "into", "the result is not the target")
				}
				_, err = it.Next()
				c.Check(err == iter.EOI, "end", "second result: %v", err)
			}
		})

		r.Explore("maps", "ReduceToMap of all lists of up to 4 pairs of 2 keys and 3 values: the last one counts; ExpandMaps of up to 3 maps (nil, empty, one, two entries, nil keys and values)", -1, func(c *mc.C) {
			if c.Bool() {
				l := pick(c, 4, tuple.Of2("a", 1), tuple.Of2("a", 2), tuple.Of2("b", 1), tuple.Of2("b", 0))
				want := map[string]int{}
				for _, t := range l {
					want[t.T] = t.U
				}
				src, end := ending(c, l)
				got, err := drain(c, stream.ReduceToMap(src))
				c.Op("%v: %v %v", l, got, err)
				c.Outcome(fmt.Sprint(got))
				c.Check(err == end, "end", "%v: %v", l, err)
				if end == iter.EOI {
					c.Check(len(got) == 1 && fmt.Sprint(got[0]) == fmt.Sprint(want), "map", "%v: %v", l, got)
					again, _ := drain(c, stream.ReduceToMap(iter.OfSlice(l)))
					c.Check(len(again) == 1 && reflect.ValueOf(got[0]).Pointer() != reflect.ValueOf(again[0]).Pointer(), "map", "%v: the same map twice", l)
				} else {
					c.Check(len(got) == 0, "map", "%v fails: %v", l, got)
				}
				return
			}
			ms := pick(c, 3, nil, map[any]any{}, map[any]any{1: "x"}, map[any]any{2: nil, 3: 4}, map[any]any{nil: 5})
			var want []string
			for _, m := range ms {
				var part []string
				for k, v := range m {
					part = append(part, fmt.Sprintf("%v=%v", k, v))
				}
				sort.Strings(part)
				want = append(want, part...)
			}
			src, end := ending(c, ms)
			got, err := drain(c, stream.ExpandMaps(src))
			var l []string
			for at := 0; at < len(got); {
				// the entries of one map come in any order
				n := 1
				if got[at].T == 2 || got[at].T == 3 {
					n = 2
				}
				var part []string
				for ; n > 0 && at < len(got); n-- {
					part = append(part, fmt.Sprintf("%v=%v", got[at].T, got[at].U))
					at++
				}
				sort.Strings(part)
				l = append(l, part...)
			}
			c.Op("%v: %v %v", ms, got, err)
			c.Outcome(show(l))
			c.Check(err == end && show(l) == show(want), "expand", "%v: %v %v, expected %v", ms, l, err, want)
		})

		r.Explore("nils", "19 transforms of all lists of up to 4 values that may be nil, of 6 types", -1, func(c *mc.C) {
			switch c.Choose(6) {
			case 0:
				nils(c, "*int", nil, new(int))
			case 1:
				nils[any](c, "any", nil, 1, (*int)(nil))
			case 2:
				nils[error](c, "error", nil, iter.EOI, mc.ErrCustom)
			case 3:
				nils(c, "chan", nil, make(chan int))
			case 4:
				nils(c, "struct", struct{ p *int }{}, struct{ p *int }{new(int)})
			default:
				nils(c, "bool", false, true)
			}
		})
		r.Explore("sorts", "sorting lists of up to 5 values of 5 types: a sorted permutation", -1, func(c *mc.C) {
			switch c.Choose(7) {
			case 5:
				sorted(c, "SortCmp", stream.SortCmp[distance], func(a, b distance) bool { return a <= b }, -1000, -1, 0, 1, 7)
			case 0:
				sorted(c, "SortOrdered", stream.SortOrdered[int8], le[int8], -128, -1, 0, 127)
			case 1:
				sorted(c, "SortOrdered", stream.SortOrdered[string], le[string], "", "a", "aa", "B", "é")
			case 2:
				sorted(c, "SortOrdered", stream.SortOrdered[float64], le[float64], math.Inf(-1), -1.5, 0, 5e-324, math.Inf(1))
			case 3:
				sorted(c, "SortComplex", stream.SortComplex[complex128], func(a, b complex128) bool { return cmplx.Abs(a) <= cmplx.Abs(b) }, 0, 1, -2, 3i, -3, 2+2i)
			case 4:
				a, b, d, e := bi("-99999999999999999999"), bi("0"), bi("7"), bi("99999999999999999999")
				sorted(c, "SortCmp", stream.SortCmp[*big.Int], func(a, b *big.Int) bool { return a.Cmp(b) <= 0 }, a, b, d, e)
			default:
				sorted(c, "SortBy", stream.SortBy(func(a, b [2]int) bool { return a[0] < b[0] }), func(a, b [2]int) bool { return a[0] <= b[0] }, [2]int{1, 1}, [2]int{1, 2}, [2]int{2, 1}, [2]int{0, 3})
			}
		})
		r.Explore("extremes", "Max, Min, MaxCmp, MinCmp of lists of up to 4 values of 5 types", -1, func(c *mc.C) {
			ints := []int8{-128, -1, 0, 1, 127}
			strs := []string{"", "a", "ab", "b"}
			flts := []float64{math.Inf(-1), -1, 0, 1e-300, math.Inf(1)}
			switch c.Choose(12) {
			case 9:
				extreme(c, "MaxCmp", stream.MaxCmp[distance], func(a, b distance) bool { return a > b }, -1000, -1, 0, 1, 7)
			case 10:
				extreme(c, "MinCmp", stream.MinCmp[distance], func(a, b distance) bool { return a < b }, -1000, -1, 0, 1, 7)
			case 0:
				extreme(c, "Max", stream.Max[int8], func(a, b int8) bool { return a > b }, ints...)
			case 1:
				extreme(c, "Min", stream.Min[int8], func(a, b int8) bool { return a < b }, ints...)
			case 2:
				extreme(c, "Max", stream.Max[string], func(a, b string) bool { return a > b }, strs...)
			case 3:
				extreme(c, "Min", stream.Min[string], func(a, b string) bool { return a < b }, strs...)
			case 4:
				extreme(c, "Max", stream.Max[float64], func(a, b float64) bool { return a > b }, flts...)
			case 5:
				extreme(c, "Min", stream.Min[float64], func(a, b float64) bool { return a < b }, flts...)
			case 6:
				extreme(c, "MaxCmp", stream.MaxCmp[*big.Int], func(a, b *big.Int) bool { return a.Cmp(b) > 0 }, bi("-5"), bi("0"), bi("18446744073709551616"))
			case 7:
				extreme(c, "MinCmp", stream.MinCmp[*big.Int], func(a, b *big.Int) bool { return a.Cmp(b) < 0 }, bi("-5"), bi("0"), bi("18446744073709551616"))
			case 8:
				extreme(c, "MaxCmp", stream.MaxCmp[*big.Rat], func(a, b *big.Rat) bool { return a.Cmp(b) > 0 }, big.NewRat(1, 3), big.NewRat(1, 4), big.NewRat(-1, 3))
			default:
				extreme(c, "MinCmp", stream.MinCmp[*big.Float], func(a, b *big.Float) bool { return a.Cmp(b) < 0 }, bf("0.1", 53), bf("-0.1", 100), bf("7", 10))
			}
		})
		r.Explore("averages", "AvgInt and AvgUint of lists of up to 4 values around the limits of narrow types, that end or fail", -1, func(c *mc.C) {
			switch c.Choose(4) {
			case 0:
				avg(c, "AvgInt[int8]", stream.AvgInt[int8], -128, 127, -128, -127, -64, -2, -1, 0, 1, 2, 63, 126, 127)
			case 1:
				avg(c, "AvgInt[int16]", stream.AvgInt[int16], -32768, 32767, -32768, -16384, -1, 0, 3, 16384, 32767)
			case 2:
				avg(c, "AvgUint[uint8]", stream.AvgUint[uint8], 0, 255, 0, 1, 2, 3, 127, 128, 254, 255)
			default:
				avg(c, "AvgUint[uint16]", stream.AvgUint[uint16], 0, 65535, 0, 1, 2, 32767, 32768, 65535)
			}
		})
		r.Explore("wide-averages", "AvgInt and AvgUint of up to 3 values at the limits of 64 bits", -1, func(c *mc.C) {
			if c.Bool() {
				l := pick(c, 3, int64(math.MinInt64), math.MinInt64+1, -1, 0, 1, math.MaxInt64-1, math.MaxInt64)
				wide(c, "AvgInt", l, stream.AvgInt[int64], bi("-9223372036854775808"), bi("9223372036854775807"))
			} else {
				l := pick(c, 3, uint64(0), 1, 2, math.MaxInt64, math.MaxInt64+1, math.MaxUint64-1, math.MaxUint64)
				wide(c, "AvgUint", l, stream.AvgUint[uint64], new(big.Int), bi("18446744073709551615"))
			}
		})
		r.Explore("sums", "Sum of lists of up to 4 values of 5 types (integers wrap around)", -1, func(c *mc.C) {
			switch c.Choose(5) {
			case 0:
				sum(c, "Sum[int8]", stream.Sum[int8], -128, -1, 0, 5, 127)
			case 1:
				sum(c, "Sum[uint16]", stream.Sum[uint16], 0, 1, 65535)
			case 2:
				sum(c, "Sum[float64]", stream.Sum[float64], 0.1, -0.5, 1e300, 2)
			case 3:
				sum(c, "Sum[int]", stream.Sum[int], math.MaxInt, 1, -7)
			default:
				sum(c, "Sum[float32]", stream.Sum[float32], 0.1, 1e30, -1)
			}
		})
		r.Explore("abs", "Abs of lists of up to 3 values at the limits of int8 and int64: the smallest is an error", -1, func(c *mc.C) {
			l := pick(c, 3, int8(-128), -127, -1, 0, 127)
			got, err := drain(c, stream.Abs(iter.OfSlice(l)))
			c.Op("%v: %v %v", l, got, err)
			c.Outcome(fmt.Sprint(got, err))
			for i, v := range l {
				if v == -128 {
					c.Check(len(got) == i && err != iter.EOI, "abs", "Abs of %v: %v %v", l, got, err)
					return
				}
				a := v
				if a < 0 {
					a = -a
				}
				c.Check(len(got) > i && got[i] == a, "abs", "Abs of %v: %v %v", l, got, err)
			}
			c.Check(len(got) == len(l) && err == iter.EOI, "abs", "Abs of %v: %v %v", l, got, err)
		})
		r.Explore("big", "Sum, Avg and Abs of lists of up to 3 (or 43) *big.Int, *big.Rat, *big.Float, that end or fail: the exact result (*big.Float within the precision of the elements), sources unchanged", -1, func(c *mc.C) {
			switch c.Choose(3) {
			case 0:
				bigs(c, "*big.Int", false, func() []*big.Int {
					return []*big.Int{bi("-3"), bi("0"), bi("1"), bi("2"), bi("-18446744073709551617"), bi("99999999999999999999999")}
				})
			case 1:
				bigs(c, "*big.Rat", true, func() []*big.Rat {
					return []*big.Rat{big.NewRat(1, 3), big.NewRat(-1, 7), big.NewRat(0, 1), big.NewRat(1<<62, 3)}
				})
			default:
				bigs(c, "*big.Float", false, func() []*big.Float {
					return []*big.Float{bf("0.1", 53), bf("-1234567.25", 53), bf("1e20", 200), bf("0.3333333333333333333333333333", 100), bf("7", 24)}
				})
			}
		})
	})
}

func wide[T int64 | uint64](c *mc.C, name string, l []T, t func(iter.Iter[T]) iter.Iter[T], lo, hi *big.Int) {
	got, err := drain(c, t(iter.OfSlice(l)))
	c.Op("%s of %v: %v %v", name, l, got, err)
	c.Outcome(fmt.Sprint(got, err))
	s := new(big.Int)
	for _, v := range l {
		s.Add(s, bi(fmt.Sprint(v)))
		if s.Cmp(lo) < 0 || s.Cmp(hi) > 0 {
			c.Check(err != iter.EOI && len(got) == 0, "overflow", "%s of %v: the sum is out of range, got %v %v", name, l, got, err)
			return
		}
	}
	c.Check(err == iter.EOI, "end", "%s of %v: %v", name, l, err)
	if len(l) == 0 {
		c.Check(len(got) == 0, "element", "%s of nothing is %v", name, got)
		return
	}
	n := int64(len(l))
	a := new(big.Int).Abs(s)
	q := new(big.Int).Quo(new(big.Int).Add(new(big.Int).Lsh(a, 1), big.NewInt(n)), big.NewInt(2*n))
	if s.Sign() < 0 {
		q.Neg(q)
	}
	c.Check(len(got) == 1 && fmt.Sprint(got[0]) == q.String(), "average", "%s of %v is %v, expected %v", name, l, got, q)
}
