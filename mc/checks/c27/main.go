// C27: uses that share nothing do not affect one another
package main

import (
	"fmt"
	"sync"
	"testing"

	"verifmc/mc"
	"verifmc/uses"
)

func none() {}

func main() {
	mc.WithBubbles(func(t *testing.T) {
		mc.Main("C27", "model_checking", []string{
			"uses are interleaved where they call readers, writers and functions of the user, and between calls; that nothing is shared in between is checked by a happens-before race detector on free runs of all pairs",
		}, func(r *mc.Run) { run(t, r) })
	})
}

// alone is the result of each use when there was no other yet
var alone [][2]string

func run(t *testing.T, r *mc.Run) {
	for _, u := range uses.All {
		var res [2]string
		for v := range res {
			res[v] = u.Make()(v, none)
		}
		alone = append(alone, res)
	}
	r.Explore("histories", fmt.Sprintf("all sequences of three of %d uses of two kinds of data, the last one the same as the first: each gives what it gives alone", len(uses.All)), -1, func(c *mc.C) {
		i, j, v := c.Choose(len(uses.All)), c.Choose(len(uses.All)), c.Choose(2)
		a, b := uses.All[i], uses.All[j]
		fa, fb := a.Make(), b.Make()
		check(c, a, v, fa(v, none), alone[i])
		check(c, b, 1-v, fb(1-v, none), alone[j])
		check(c, a, 1-v, fa(1-v, none), alone[i])
		check(c, a, v, fa(v, none), alone[i])
		check(c, b, v, fb(v, none), alone[j])
		c.Ops(5)
		c.Outcome(a.Name)
	})
	// both run a at once, with at most max points each
	both := func(c *mc.C, i, j, v, w, max int, fa, fb func(int, func()) string) {
		var got [2]string
		mc.Bubble(t, c, func(s *mc.Sched) {
			var wg sync.WaitGroup
			for k, f := range []func(int, func()) string{fa, fb} {
				wg.Add(1)
				go func() {
					defer wg.Done()
					n := 0
					point := func() {
						if n++; n <= max {
							s.Point(fmt.Sprint(string(rune('a'+k)), n))
						}
					}
					point()
					got[k] = f([]int{v, w}[k], point)
				}()
			}
			wg.Wait()
			c.Ops(s.Steps)
		})
		check(c, uses.All[i], v, got[0], alone[i])
		check(c, uses.All[j], w, got[1], alone[j])
	}
	near, far := r.Budget(5, 7), r.Budget(2, 4)
	r.Explore("same-package", fmt.Sprintf("all pairs of uses of the same package, all interleavings of up to %d points of each", near), -1, func(c *mc.C) {
		i := c.Choose(len(uses.All))
		j := i + c.Choose(len(uses.All)-i)
		a, b := uses.All[i], uses.All[j]
		if a.Group != b.Group {
			c.Prune()
		}
		max := near
		if a.Group == "stream" && i != j {
			max = near - 1
		}
		c.Op("%s/%s and %s/%s", a.Group, a.Name, b.Group, b.Name)
		both(c, i, j, 0, 1, max, a.Make(), b.Make())
		c.Outcome(a.Name + b.Name)
	})
	r.Explore("pairs", fmt.Sprintf("all pairs of uses, all interleavings of up to %d points of each", far), -1, func(c *mc.C) {
		i := c.Choose(len(uses.All))
		j := i + c.Choose(len(uses.All)-i)
		a, b := uses.All[i], uses.All[j]
		c.Op("%s/%s and %s/%s", a.Group, a.Name, b.Group, b.Name)
		both(c, i, j, 1, 0, far, a.Make(), b.Make())
		c.Outcome(a.Name + b.Name)
	})
	r.Explore("shared", fmt.Sprintf("two uses of one transform, predicate, composition, registry, mux, value, compiled path, or of what is only read: all interleavings of up to %d points of each", near), -1, func(c *mc.C) {
		i, v, w := c.Choose(len(uses.All)), c.Choose(2), c.Choose(2)
		a := uses.All[i]
		c.Op("%s/%s", a.Group, a.Name)
		f := a.Make()
		both(c, i, i, v, w, near, f, f)
		check(c, a, v, f(v, none), alone[i])
		c.Outcome(a.Name)
	})
}

func check(c *mc.C, u uses.Use, v int, got string, want [2]string) {
	c.Check(got == want[v], "affected", "%s/%s of data %d gives %q, alone it gives %q", u.Group, u.Name, v, got, want[v])
}
