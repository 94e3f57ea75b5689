// C16: events reach the receivers in order after every history of changes
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/event"
	"verifmc/mc"
)

// receivers of several kinds, each adds its label

type ptr struct{ label string }

func (p *ptr) Process(s string) string { return s + p.label }

type val struct{ a, b string }

func (v val) Process(s string) string { return s + "(" + v.a + "|" + v.b + ")" }

type outer struct {
	inner
	label string
}

type inner struct{ label string }

func (o *outer) Process(s string) string { return s + o.label }
func (i *inner) Process(s string) string { return s + i.label }

type num int

func (n num) Process(s string) string { return s + fmt.Sprintf("#%d", int(n)) }

type text string

func (t text) Process(s string) string { return s + string(t) }

type empty1 struct{}
type empty2 struct{}

func (empty1) Process(s string) string { return s + "E1" }
func (empty2) Process(s string) string { return s + "E2" }

type nilable1 struct{ n int }
type nilable2 struct{ n int }

func (*nilable1) Process(s string) string { return s + "N1" }
func (*nilable2) Process(s string) string { return s + "N2" }

type rcvr struct {
	label string // what it adds, unique
	r     event.Receiver[string]
}

func fa(s string) string { return s + "fa" }
func fb(s string) string { return s + "fb" }

func basic() []rcvr {
	return []rcvr{{"A", &ptr{"A"}}, {"B", &ptr{"B"}}, {"fa", event.ReceiverFunc[string](fa)}}
}

func kinds() []rcvr {
	o := &outer{inner{"oi"}, "oo"}
	return []rcvr{
		{"A", &ptr{"A"}}, {"A'", &ptr{"A'"}},
		{"(1 2|3)", val{"1 2", "3"}}, {"(1|2 3)", val{"1", "2 3"}},
		{"oo", o}, {"oi", &o.inner},
		{"#1", num(1)}, {"1", text("1")}, {"#2", num(2)},
		{"E1", empty1{}}, {"E2", empty2{}},
		{"N1", (*nilable1)(nil)}, {"N2", (*nilable2)(nil)},
		{"fa", event.ReceiverFunc[string](fa)}, {"fb", event.ReceiverFunc[string](fb)},
	}
}

// mixer is a receiver that makes the result depend on the order
type mixer struct{ n uint64 }

func (s *mixer) Process(v uint64) uint64 { return v*1000003 + s.n }

// model: entries in order of registration
type entry[I constraint.Ordered] struct {
	id I
	r  int // index of the receiver
}

type model[I constraint.Ordered] []entry[I]

func (m model[I]) sorted() model[I] {
	s := append(model[I]{}, m...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].id < s[j].id })
	return s
}

func (m model[I]) remove(id I, r int, all bool) (n model[I]) {
	done := false
	for _, e := range m {
		if e.id == id && e.r == r && (all || !done) {
			done = true
			continue
		}
		n = append(n, e)
	}
	return
}

func (m model[I]) removeId(id I) (n model[I]) {
	for _, e := range m {
		if e.id != id {
			n = append(n, e)
		}
	}
	return
}

func (m model[I]) send(rs []rcvr) string {
	var sb strings.Builder
	for _, e := range m.sorted() {
		sb.WriteString(rs[e.r].label)
	}
	return sb.String()
}

// step applies one of the operations to both
func step[I constraint.Ordered](c *mc.C, reg *event.Registry[I, string], m model[I], ids []I, rs []rcvr) model[I] {
	n := len(ids) * len(rs)
	k := c.Choose(3*n + len(ids))
	if k >= 3*n {
		id := ids[k-3*n]
		c.Op("RemoveId(%v)", id)
		reg.RemoveId(id)
		return m.removeId(id)
	}
	id, r := ids[k/3/len(rs)], k/3%len(rs)
	switch k % 3 {
	case 0:
		c.Op("Register(%v, %s)", id, rs[r].label)
		reg.Register(id, rs[r].r)
		return append(append(model[I]{}, m...), entry[I]{id, r})
	case 1:
		c.Op("Remove(%v, %s)", id, rs[r].label)
		reg.Remove(id, rs[r].r)
		return m.remove(id, r, false)
	default:
		c.Op("Remove(%v, %s, true)", id, rs[r].label)
		reg.Remove(id, rs[r].r, true)
		return m.remove(id, r, true)
	}
}

func verify[I constraint.Ordered](c *mc.C, reg *event.Registry[I, string], m model[I], rs []rcvr) {
	want := "x" + m.send(rs)
	for i := 0; i < 2; i++ {
		got := reg.Send("x")
		c.Ops(1)
		c.Check(got == want, "send", "Send(x) = %s, expected %s", got, want)
	}
	c.State(fmt.Sprint(m))
	c.Outcome(want)
}

func histories[I constraint.Ordered](ids []I, rs func() []rcvr, depth int) func(c *mc.C) {
	return func(c *mc.C) {
		var reg event.Registry[I, string]
		var m model[I]
		l := rs()
		d := 1 + c.Choose(depth)
		for i := 0; i < d; i++ {
			m = step(c, &reg, m, ids, l)
			// every prefix is a history of its own
			if i == d-1 {
				verify(c, &reg, m, l)
			}
		}
	}
}

func main() {
	mc.Main("C16", "model_checking", []string{
		"identifiers are ordered (no NaN)",
		"functions count as the same receiver if they are the same function",
	}, func(r *mc.Run) {
		d := r.Budget(4, 5)
		r.Explore("histories", fmt.Sprintf("all histories of up to %d of register, remove, remove all, remove id, with 3 ids and 3 receivers", d), -1, histories([]int{1, 0, 7}, basic, d))
		d = r.Budget(6, 7)
		r.Explore("deep", fmt.Sprintf("all histories of up to %d operations with 3 ids and one receiver", d), -1, histories([]int{1, -1, 7}, func() []rcvr { return basic()[:1] }, d))
		d = r.Budget(4, 5)
		r.Explore("strings", fmt.Sprintf("all histories of up to %d operations with 4 strings as ids and one receiver", d), -1, histories([]string{"", "b", "a", "ab"}, func() []rcvr { return basic()[1:2] }, d))
		r.Explore("floats", fmt.Sprintf("all histories of up to %d operations with 3 floats as ids and one receiver", d), -1, histories([]float64{0, -0.5, 1e300}, func() []rcvr { return basic()[2:] }, d))
		n := r.Budget(6, 7)
		r.Explore("orders", fmt.Sprintf("registering %d ids in every order, removing any subset of them in two orders", n), -1, func(c *mc.C) {
			var reg event.Registry[int, string]
			var m model[int]
			rs := make([]rcvr, n)
			for i := range rs {
				rs[i] = rcvr{fmt.Sprint("r", i), &ptr{fmt.Sprint("r", i)}}
			}
			left := make([]int, n)
			for i := range left {
				left[i] = i
			}
			for len(left) > 0 {
				k := c.Choose(len(left))
				id := left[k]
				left = append(append([]int{}, left[:k]...), left[k+1:]...)
				c.Op("Register(%d)", id)
				reg.Register(id, rs[id].r)
				m = append(m, entry[int]{id, id})
				verify(c, &reg, m, rs)
			}
			up := c.Bool()
			for i := 0; i < n; i++ {
				id := i
				if !up {
					id = n - 1 - i
				}
				if c.Bool() {
					c.Op("RemoveId(%d)", id)
					reg.RemoveId(id)
					m = m.removeId(id)
					verify(c, &reg, m, rs)
				}
			}
		})
		long := r.Budget(130, 520)
		r.Explore("long", fmt.Sprintf("up to %d ids registered in four orders, or as many receivers of one id, twice or once; then one of them is removed (first or all, or the id), and it is registered again", long), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(long)[1:])
			var reg event.Registry[int, string]
			var m model[int]
			rs := make([]rcvr, n)
			for i := range rs {
				rs[i] = rcvr{fmt.Sprint("r", i), &ptr{fmt.Sprint("r", i)}}
			}
			ids, twice, order := c.Bool(), c.Bool(), c.Choose(4)
			id := func(x int) int {
				if ids {
					return x * 3
				}
				return 1
			}
			for i := 0; i < n; i++ {
				x := []int{i, n - 1 - i, i / 2, (i * 7919) % n}[order]
				if order == 2 && i%2 == 1 {
					x = n - 1 - i/2
				}
				for j := 0; j < 2; j++ {
					if j == 0 || twice {
						reg.Register(id(x), rs[x].r)
						m = append(m, entry[int]{id(x), x})
					}
				}
			}
			verify(c, &reg, m, rs)
			x := c.Choose(n)
			if n > 20 && x > 2 && x < n-2 && x != n/2 {
				c.Prune()
			}
			switch c.Choose(4) {
			case 0:
				reg.Remove(id(x), rs[x].r)
				m = m.remove(id(x), x, false)
			case 1:
				reg.Remove(id(x), rs[x].r, true)
				m = m.remove(id(x), x, true)
			case 2:
				reg.RemoveId(id(x))
				m = m.removeId(id(x))
			case 3: // an id between others
				reg.RemoveId(id(x) + 1)
				reg.Remove(id(x)+1, rs[x].r, true)
				reg.Register(id(x)+1, rs[x].r)
				m = append(m, entry[int]{id(x) + 1, x})
			}
			c.Op("%d registered in order %d (ids %t, twice %t), %d changed", n, order, ids, twice, x)
			verify(c, &reg, m, rs)
			reg.Register(id(x), rs[x].r)
			m = append(m, entry[int]{id(x), x})
			verify(c, &reg, m, rs)
		})
		r.Explore("longest", "32769 and 65540 receivers of one, two or 300 ids; then one of them (at either end or in the middle) is removed, or added", -1, func(c *mc.C) {
			n := mc.Pick(c, []int{32769, 65540})
			ids := mc.Pick(c, []int{1, 2, 300})
			at := mc.Pick(c, []int{0, 1, n / 2, n - 2, n - 1})
			var reg event.Registry[int, uint64]
			order := make([]int, n)
			rs := make([]*mixer, n)
			for i := range rs {
				rs[i] = &mixer{uint64(i)}
				order[i] = i
				reg.Register(i*ids/n, rs[i])
			}
			check := func(what string) {
				want := uint64(1)
				for _, i := range order {
					want = rs[i].Process(want)
				}
				got := reg.Send(1)
				c.Op("%d receivers of %d ids, %s %d: %d", n, ids, what, at, got)
				c.Check(got == want, "send", "%d receivers of %d ids, after %s %d: the event becomes %d, expected %d", n, ids, what, at, got, want)
			}
			check("registering all, then")
			id := at * ids / n
			reg.Remove(id, rs[at], c.Bool())
			order = append(order[:at:at], order[at+1:]...)
			check("removing")
			reg.Register(id, rs[at])
			last := at
			for last < len(order) && order[last]*ids/n == id {
				last++
			}
			order = append(order[:last:last], append([]int{at}, order[last:]...)...)
			check("registering")
		})
		r.Explore("receivers", "all lists of up to 3 of 15 receivers of all kinds (pointers, values that print alike, pointers to the same place, nil pointers, functions), one id; removing the first or all of any", -1, func(c *mc.C) {
			var reg event.Registry[int, string]
			var m model[int]
			rs := kinds()
			for i, k := 0, 1+c.Choose(3); i < k; i++ {
				x := c.Choose(len(rs))
				c.Op("Register(%s)", rs[x].label)
				reg.Register(3, rs[x].r)
				m = append(m, entry[int]{3, x})
			}
			verify(c, &reg, m, rs)
			x, all := c.Choose(len(rs)), c.Choose(3)
			c.Op("Remove(%s, %v)", rs[x].label, all)
			switch all {
			case 0:
				reg.Remove(3, rs[x].r)
			case 1:
				reg.Remove(3, rs[x].r, false)
			default:
				reg.Remove(3, rs[x].r, true)
			}
			m = m.remove(3, x, all == 2)
			verify(c, &reg, m, rs)
		})
		r.Explore("closures", "closures of one function literal are receivers of their own", -1, func(c *mc.C) {
			mk := func(l string) event.Receiver[string] {
				return event.ReceiverFunc[string](func(s string) string { return s + l })
			}
			rs := []rcvr{{"a", mk("a")}, {"b", mk("b")}, {"c", mk("c")}}
			var reg event.Registry[int, string]
			var m model[int]
			for i, k := 0, 1+c.Choose(3); i < k; i++ {
				x := c.Choose(len(rs))
				c.Op("Register(%s)", rs[x].label)
				reg.Register(3, rs[x].r)
				m = append(m, entry[int]{3, x})
			}
			want := m.send(rs)
			got := reg.Send("")
			c.Check(got == want, "send", "Send() = %s, expected %s", got, want)
			x, all := c.Choose(len(rs)), c.Bool()
			c.Op("Remove(%s, %v)", rs[x].label, all)
			reg.Remove(3, rs[x].r, all)
			want = m.remove(3, x, all).send(rs)
			got = reg.Send("")
			c.Check(got == want, "identity", "Send() = %s, expected %s", got, want)
		})
		r.Explore("during-send", "3 ids with 0 to 2 receivers each, any of which performs one operation (register, remove, remove all, remove id) while an event is sent: those that are not affected process it once, in order; the next event reaches all", -1, func(c *mc.C) {
			var reg event.Registry[int, string]
			var m model[int]
			ids := []int{1, 2, 3}
			var rs []rcvr
			actor := -1
			var act func()
			add := func(id int) {
				x := len(rs)
				l := fmt.Sprintf("<%d>", x)
				p := &fnRcvr{func(s string) string {
					if x == actor && act != nil {
						a := act
						act = nil
						a()
					}
					return s + l
				}}
				rs = append(rs, rcvr{l, p})
				reg.Register(id, p)
				m = append(m, entry[int]{id, x})
			}
			total := 0
			for _, id := range ids {
				for i, k := 0, c.Choose(3); i < k; i++ {
					add(id)
					total++
				}
			}
			if total == 0 {
				c.Prune()
			}
			actor = c.Choose(total)
			before := m
			c.Op("%v, %d acts", m, actor)
			op, idOp := c.Choose(3), c.Choose(5)
			tgt := 0
			if op == 1 {
				tgt = c.Choose(total)
			}
			all := c.Bool()
			if all && op != 1 {
				c.Prune()
			}
			if op == 1 && idOp > 0 {
				c.Prune()
			}
			extra := &ptr{"<new>"}
			var after model[int]
			act = func() {
				switch op {
				case 0:
					rs = append(rs, rcvr{"<new>", extra})
					c.Op("Register(%d, new)", idOp)
					reg.Register(idOp, extra)
					after = append(append(model[int]{}, before...), entry[int]{idOp, len(rs) - 1})
				case 1:
					c.Op("Remove(%d, %s)", before[tgt].id, rs[tgt].label)
					reg.Remove(before[tgt].id, rs[tgt].r, all)
					after = before.remove(before[tgt].id, tgt, all)
				default:
					c.Op("RemoveId(%d)", idOp)
					reg.RemoveId(idOp)
					after = before.removeId(idOp)
				}
			}
			got := reg.Send("")
			// those registered before and after must appear exactly once, in order; the others at most once
			keep := map[string]bool{}
			want := ""
			for _, e := range before.sorted() {
				for _, f := range after {
					if e == f {
						keep[rs[e.r].label] = true
						want += rs[e.r].label
					}
				}
			}
			kept := ""
			seen := map[string]bool{}
			for _, p := range strings.SplitAfter(got, ">") {
				if p != "" {
					c.Check(!seen[p], "twice", "during a change, receiver %s processed the event twice: %s", p, got)
					seen[p] = true
					if keep[p] {
						kept += p
					}
				}
			}
			c.Check(kept == want, "skipped", "during a change, the event was processed by %s, expected at least %s", got, want)
			verify(c, &reg, after, rs)
		})
		r.Explore("types", "events of other types, and the zero registry", -1, func(c *mc.C) {
			var reg event.Registry[string, int]
			c.Check(reg.Send(5) == 5, "send", "the zero registry changes the event")
			reg.RemoveId("a")
			reg.Remove("a", event.ReceiverFunc[int](func(i int) int { return i }))
			reg.Register("b", event.ReceiverFunc[int](func(i int) int { return i * 2 }))
			reg.Register("a", event.ReceiverFunc[int](func(i int) int { return i + 1 }))
			got := reg.Send(5)
			c.Check(got == 12, "send", "Send(5) = %d, expected 12", got)
			var none event.Registry[int, event.None]
			n := 0
			none.Register(1, event.ReceiverFunc[event.None](func(v event.None) event.None { n++; return v }))
			none.Send(event.None{})
			c.Check(n == 1, "send", "a receiver without data is called %d times", n)
		})
	})
}

type fnRcvr struct{ f func(string) string }

func (f *fnRcvr) Process(s string) string { return f.f(s) }
