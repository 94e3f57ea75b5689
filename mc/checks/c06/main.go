// C06: Parallel gives the result of the sequential transform under every schedule
package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"sync"
	"testing"

	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"verifmc/mc"
)

type transform = func(iter.Iter[int]) iter.Iter[int]

func errOf(v int) error { return failures[v/10] }

var failures = func() (l []error) {
	for i := 0; i < 200; i++ {
		l = append(l, fmt.Errorf("element %d", i))
	}
	return
}()

// kind of transform: per element ones give the same as without Parallel, the others are applied to each bucket
type kind struct {
	name  string
	whole bool // a function of the bucket, not of its elements
	mk    func(point func(int), fails map[int]bool) transform
}

var kinds = []kind{
	{"Map", false, func(point func(int), _ map[int]bool) transform {
		return stream.Map(func(v int) int { point(v); return v + 1 })
	}},
	{"MapError", false, func(point func(int), fails map[int]bool) transform {
		return stream.MapError(func(v int) (int, error) {
			point(v)
			if fails[v] {
				return 0, errOf(v)
			}
			return v * 2, nil
		})
	}},
	{"Filter", false, func(point func(int), _ map[int]bool) transform {
		return stream.Filter(func(v int) bool { point(v); return v%20 == 0 })
	}},
	{"Expand", false, func(point func(int), _ map[int]bool) transform {
		return func(it iter.Iter[int]) iter.Iter[int] {
			return stream.ExpandSlices(stream.Map(func(v int) []int { point(v); return []int{v, v + 1, v + 2}[:v/10%4] })(it))
		}
	}},
	{"ExpandError", false, func(point func(int), fails map[int]bool) transform {
		return func(it iter.Iter[int]) iter.Iter[int] {
			return stream.MapError(func(v int) (int, error) {
				if v%10 == 2 {
					point(v)
				}
				if v%10 == 2 && fails[v-2] {
					return 0, errOf(v)
				}
				return v, nil
			})(stream.ExpandSlices(stream.Map(func(v int) []int { return []int{v, v + 1, v + 2} })(it)))
		}
	}},
	{"Reduce", true, func(point func(int), _ map[int]bool) transform {
		return stream.Reduce(func(a, b int) int { point(b); return 2*a + b })
	}},
	{"Reverse", true, func(point func(int), _ map[int]bool) transform {
		return func(it iter.Iter[int]) iter.Iter[int] {
			return stream.Reverse(stream.Peek(func(v int) { point(v) })(it))
		}
	}},
	{"Limit(1)", true, func(point func(int), _ map[int]bool) transform {
		return func(it iter.Iter[int]) iter.Iter[int] {
			return stream.Limit[int](1)(stream.Peek(func(v int) { point(v) })(it))
		}
	}},
}

var failing = []map[int]bool{{10: true, 30: true}, {0: true}}

func list(n int) (l []int) {
	for i := 0; i < n; i++ {
		l = append(l, i*10)
	}
	return
}

func drain[T any](it iter.Iter[T]) (res []T, err error) {
	for {
		v, e := it.Next()
		if e != nil {
			return res, e
		}
		res = append(res, v)
	}
}

func nopoint(int) {}

// buckets that the documentation promises, nil if it does not say
func buckets(n int, info []stream.PInfo) (sizes []int) {
	if n < 2 {
		if n == 1 {
			sizes = []int{1}
		}
		return
	}
	size := 0
	switch {
	case len(info) == 0:
		size = int(math.Round(math.Sqrt(float64(n))))
	case info[0].PUnit == stream.Items:
		size = max(1, info[0].N)
	default:
		t := min(n, max(1, info[0].N))
		for i := 0; i < t; i++ {
			s := n / t
			if i < n%t {
				s++
			}
			sizes = append(sizes, s)
		}
		return
	}
	for ; n > size; n -= size {
		sizes = append(sizes, size)
	}
	return append(sizes, n)
}

// expected result, by applying the transform to the buckets one after the other
func expected(n int, info []stream.PInfo, k kind, fails map[int]bool) (res []int, err error) {
	in := list(n)
	at := 0
	for _, s := range buckets(n, info) {
		r, e := drain(k.mk(nopoint, fails)(iter.OfSlice(in[at : at+s])))
		at += s
		if e != iter.EOI {
			return nil, e
		}
		res = append(res, r...)
	}
	return res, iter.EOI
}

func show(p []stream.PInfo) string {
	if len(p) == 0 {
		return "default"
	}
	return fmt.Sprintf("%d %s", p[0].N, map[stream.PUnit]string{stream.Threads: "threads", stream.Items: "items"}[p[0].PUnit])
}

func infos(c *mc.C, ns []int) []stream.PInfo {
	k := c.Choose(1 + 2*len(ns))
	if k == 0 {
		return nil
	}
	k--
	u := stream.Threads
	if k >= len(ns) {
		u, k = stream.Items, k-len(ns)
	}
	return []stream.PInfo{{N: ns[k], PUnit: u}}
}

func schedules(c *mc.C, t *testing.T, n int, info []stream.PInfo, k kind, fails map[int]bool, applyPoint bool) {
	c.Op("%s of %d elements, %s, failing %v", k.name, n, show(info), fails)
	want, wantErr := expected(n, info, k, fails)
	sizes := buckets(n, info)
	var got []int
	var err error
	var mu sync.Mutex
	seen := map[int][]int{} // by first element, the elements that were taken
	returned := false
	steps, first := 0, 0
	src := list(n)
	own := c.Bool() // the iterators are of a type that micro does not know
	mc.Bubble(t, c, func(s *mc.Sched) {
		point := func(v int) {
			s.Point(fmt.Sprintf("element %03d", v))
			mu.Lock()
			defer mu.Unlock()
			c.Check(!returned, "late", "element %d is processed after the call returned", v)
		}
		tr := func(it iter.Iter[int]) iter.Iter[int] {
			v, e := it.Next()
			if e != nil {
				c.Fail("bucket", "the transform is applied to a bucket without an element: %v", e)
			}
			it.Unread(v)
			if applyPoint {
				s.Point(fmt.Sprintf("bucket %03d", v))
			}
			next := func() (int, error) {
				x, e := it.Next()
				if e == nil {
					mu.Lock()
					seen[v] = append(seen[v], x)
					mu.Unlock()
				}
				return x, e
			}
			if own {
				return mc.NewOwnIter(k.mk(point, fails)(mc.NewOwnIter(next)).Next)
			}
			return k.mk(point, fails)(iter.OfIter(next))
		}
		from := iter.OfSlice(src)
		if own {
			from = mc.OwnIterOf(iter.EOI, src...)
		}
		res := stream.Parallel(tr, info...)(from)
		if n != 1 {
			mu.Lock()
			returned = true
			mu.Unlock()
		}
		got, err = drain(res)
		steps, first = s.Steps, s.First
		_, e := res.Next()
		c.Check(e == err, "end", "the end %v is followed by %v", err, e)
	})
	c.Check(err == wantErr, "error", "%s of %d, %s: the result ends with %v, expected %v", k.name, n, show(info), err, wantErr)
	if n == 1 && len(got) > 0 && err != iter.EOI {
		// no thread is needed, what comes before the problem may be delivered
		want, _ = drain(k.mk(nopoint, fails)(iter.OfSlice(src)))
	}
	c.Check(fmt.Sprint(got) == fmt.Sprint(want), "result", "%s of %d, %s: %v, expected %v", k.name, n, show(info), got, want)
	at := 0
	for _, sz := range sizes {
		s := seen[at*10]
		c.Check(len(s) <= sz, "bucket", "%s of %d, %s: a bucket has %v, buckets should be %v", k.name, n, show(info), s, sizes)
		for i, v := range s {
			c.Check(v == (at+i)*10, "bucket", "%s of %d, %s: a bucket has %v, buckets should be %v", k.name, n, show(info), s, sizes)
		}
		at += sz
	}
	c.Check(len(seen) <= len(sizes), "bucket", "%s of %d, %s: buckets %v, should be %v", k.name, n, show(info), seen, sizes)
	for i, v := range src {
		c.Check(v == i*10, "source", "the source slice became %v", src)
	}
	if applyPoint && steps > 0 {
		c.Check(first == len(sizes), "threads", "%s of %d, %s: %d threads at work instead of %d", k.name, n, show(info), first, len(sizes))
	}
	c.Outcome(fmt.Sprint(got, err))
	c.State(fmt.Sprint(n, show(info), k.name, fails, seen))
}

func main() {
	mc.WithBubbles(func(t *testing.T) {
		mc.Main("C06", "model_checking", []string{
			"threads are interleaved where they call functions given by the user; that the code between those points shares nothing is checked by a happens-before race detector on free runs of the same configurations",
		}, func(r *mc.Run) {
			n := r.Budget(4, 5)
			r.Explore("schedules", fmt.Sprintf("%d transforms, 0 to %d elements, default, 1 to 3 threads, buckets of 1 to 3: all orders in which the threads begin and process each element", len(kinds), n), -1, func(c *mc.C) {
				schedules(c, t, c.Choose(n+1), infos(c, []int{1, 2, 3}), mc.Pick(c, kinds), mc.Pick(c, failing), true)
			})
			n = r.Budget(9, 12)
			maxt := r.Budget(3, 4)
			r.Explore("long-schedules", fmt.Sprintf("Map and Filter of 5 to %d elements in up to %d threads: all orders in which the threads process the elements", n, maxt), -1, func(c *mc.C) {
				k := kinds[c.Choose(2)*2]
				schedules(c, t, 5+c.Choose(n-4), []stream.PInfo{{N: 2 + c.Choose(maxt-1), PUnit: stream.Threads}}, k, nil, false)
			})
			n = r.Budget(5, 6)
			r.Explore("failures", fmt.Sprintf("MapError of 1 to %d elements, or of what they are expanded to, every set of failing elements, default, 2 and 3 threads, buckets of 1 to 3: all orders in which the threads process the elements", n), -1, func(c *mc.C) {
				sz := 1 + c.Choose(n)
				fails := map[int]bool{}
				for i := 0; i < sz; i++ {
					if c.Bool() {
						fails[i*10] = true
					}
				}
				schedules(c, t, sz, infos(c, []int{2, 3}), kinds[1], fails, false)
			})
			r.Explore("failures-within", fmt.Sprintf("1 to %d elements that are expanded, where the last one of some fails: every set of failing elements, default, 2 and 3 threads, buckets of 2 and 3: all orders in which the threads process the elements", 3), -1, func(c *mc.C) {
				sz := 1 + c.Choose(3)
				fails := map[int]bool{}
				for i := 0; i < sz; i++ {
					if c.Bool() {
						fails[i*10] = true
					}
				}
				schedules(c, t, sz, infos(c, []int{2, 3}), kinds[4], fails, false)
			})
			r.Explore("source", "a source of micro or of a foreign type that fails with one of three errors after 0 to 5 elements: its error is the result, nothing is processed", -1, func(c *mc.C) {
				l := list(c.Choose(6))
				calls := 0
				var got []int
				var err error
				want := mc.Pick(c, []error{mc.ErrCustom, fmt.Errorf("wrapped: %w", iter.EOI), io.EOF})
				from := iter.SetError(iter.OfSlice(l), want)
				if c.Bool() {
					from = mc.OwnIterOf(want, l...)
				}
				mc.Bubble(t, c, func(s *mc.Sched) {
					it := stream.Parallel(func(it iter.Iter[int]) iter.Iter[int] { calls++; return it }, infos(c, []int{1, 2})...)(from)
					got, err = drain(it)
				})
				c.Op("source %v: %v %v", l, got, err)
				c.Check(errors.Is(err, want) && len(got) == 0 && calls == 0, "source-error", "source %v fails with %v: result %v, %v, %d buckets were transformed", l, want, got, err, calls)
			})
			n = r.Budget(40, 130)
			ns := []int{math.MinInt, -1, 0}
			for i := 1; i <= n+2; i++ {
				ns = append(ns, i)
			}
			ns = append(ns, math.MaxInt)
			r.Explore("sizes", fmt.Sprintf("Map, Filter, Expand, Reduce of 0 to %d elements with every number of threads and bucket size up to %d, and extreme ones (scheduled by the runtime)", n, n+2), -1, func(c *mc.C) {
				sz, info, k := c.Choose(n+1), infos(c, ns), kinds[[]int{0, 2, 3, 5}[c.Choose(4)]]
				want, wantErr := expected(sz, info, k, nil)
				src := list(sz)
				fn := stream.Parallel(k.mk(nopoint, nil), info...)
				for i := 0; i < 2; i++ {
					got, err := drain(fn(iter.OfSlice(src)))
					c.Op("%s of %d, %s: %v", k.name, sz, show(info), err)
					c.Check(err == wantErr && fmt.Sprint(got) == fmt.Sprint(want), "result", "%s of %d, %s: %v %v, expected %v %v", k.name, sz, show(info), got, err, want, wantErr)
				}
				c.Outcome(fmt.Sprint(want))
				c.State(fmt.Sprint(k.name, sz, show(info)))
			})
			top := r.Budget(4096, 16384)
			var large []int
			for _, l := range mc.Lengths(top) {
				if l > 40 {
					large = append(large, l)
				}
			}
			r.Explore("large", fmt.Sprintf("Map, Filter, Expand, Reduce of up to %d elements (around the powers of two), by default and with numbers of threads and bucket sizes of 1, 2, 3, 7, 8, 63 to 65, 256, 1000, n/2, n-1, n and n+1 (scheduled by the runtime)", top), -1, func(c *mc.C) {
				sz := mc.Pick(c, large)
				info, k := infos(c, []int{1, 2, 3, 7, 8, 63, 64, 65, 256, 1000, sz / 2, sz - 1, sz, sz + 1}), kinds[[]int{0, 2, 3, 5}[c.Choose(4)]]
				want, wantErr := expected(sz, info, k, nil)
				got, err := drain(stream.Parallel(k.mk(nopoint, nil), info...)(iter.OfSlice(list(sz))))
				c.Op("%s of %d, %s: %v", k.name, sz, show(info), err)
				at := 0
				for at < len(got) && at < len(want) && got[at] == want[at] {
					at++
				}
				c.Check(err == wantErr && at == len(want) && len(got) == at, "result", "%s of %d, %s: %d results, %v, expected %d, %v, different from result %d", k.name, sz, show(info), len(got), err, len(want), wantErr, at)
				c.Outcome(fmt.Sprint(len(want)))
				c.State(fmt.Sprint(k.name, sz, show(info)))
			})
			r.Explore("largest", "Map, Filter, Expand, Reduce of 32769 and 65540 elements, by default and with numbers of threads and bucket sizes of 1, 2, 3, 256, and n/2 (scheduled by the runtime)", -1, func(c *mc.C) {
				sz := mc.Pick(c, []int{32769, 65540})
				info, k := infos(c, []int{1, 2, 3, 256, sz / 2}), kinds[[]int{0, 2, 3, 5}[c.Choose(4)]]
				want, wantErr := expected(sz, info, k, nil)
				got, err := drain(stream.Parallel(k.mk(nopoint, nil), info...)(iter.OfSlice(list(sz))))
				c.Op("%s of %d, %s: %v", k.name, sz, show(info), err)
				at := 0
				for at < len(got) && at < len(want) && got[at] == want[at] {
					at++
				}
				c.Check(err == wantErr && at == len(want) && len(got) == at, "result", "%s of %d, %s: %d results, %v, expected %d, %v, different from result %d", k.name, sz, show(info), len(got), err, len(want), wantErr, at)
				c.Outcome(fmt.Sprint(len(want)))
			})
			r.Explore("types", "elements and results of different types (interfaces, nil, slices, structs), 0 to 7 elements, 1 to 3 threads", -1, func(c *mc.C) {
				sz, info := c.Choose(8), []stream.PInfo{{N: 1 + c.Choose(3), PUnit: stream.Threads}}
				src := list(sz)
				want := ""
				got := ""
				switch c.Choose(5) {
				case 0: // int to any
					got, want = both(src, func(v int) any {
						if v == 10 {
							return nil
						}
						return v
					}, info)
				case 1: // any to error
					var l []any
					for _, v := range src {
						l = append(l, v)
					}
					got, want = both(l, func(v any) error {
						if v == 20 {
							return nil
						}
						return failures[v.(int)/10]
					}, info)
				case 2: // any to any
					l := make([]any, sz)
					got, want = both(l, func(v any) any { return v == nil }, info)
				case 3: // error to any
					l := make([]error, sz)
					got, want = both(l, func(v error) any { return v }, info)
				default: // slices
					var l [][]int
					for _, v := range src {
						l = append(l, []int{v})
					}
					got, want = both(l, func(v []int) []int { return append(v, 1) }, info)
				}
				c.Op("%d elements: %s", sz, got)
				c.Check(got == want, "result", "%d elements: %s, expected %s", sz, got, want)
				c.Outcome(got)
			})
		})
	})
}

func both[T, U any](l []T, f func(T) U, info []stream.PInfo) (string, string) {
	g, e := drain(stream.Parallel(stream.Map(f), info...)(iter.OfSlice(l)))
	w, e2 := drain(stream.Map(f)(iter.OfSlice(l)))
	return fmt.Sprint(g, e), fmt.Sprint(w, e2)
}
