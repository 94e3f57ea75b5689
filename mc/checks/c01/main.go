// C01: the iterator protocol
package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/bantling/micro/iter"
	"verifmc/mc"
)

type end struct {
	name string
	err  error
}

var ends = []end{{"EOI", iter.EOI}, {"EOF", io.EOF}, {"problem", mc.ErrCustom}, {"wrapped end", fmt.Errorf("lost: %w", iter.EOI)}}

type rec struct{ A, B int }

func drive[T comparable](c *mc.C, depth int, mk func(int) T) {
	var (
		zv    T
		n     = c.Choose(4)
		e     = mc.Pick(c, ends)
		wrap  = c.Choose(5)
		pos   int
		calls int
		over  bool
		// the model
		stack   []T
		mpos    int
		wantErr = e.err
	)
	src := func() (T, error) {
		calls++
		if over {
			c.Fail("called-after-end", "the iterating function was called again after it returned a non-nil error")
		}
		if pos == n {
			over = true
			return mk(99), e.err // an invalid value comes along with the error
		}
		pos++
		return mk(pos), nil
	}
	it := iter.OfIter(src)
	repl := errors.New("replacement")
	switch wrap {
	case 1:
		it = iter.SetError(it, repl)
		wantErr = repl
	case 2:
		it = iter.Concat(it)
	case 3:
		it = iter.OfIter(it.Next)
	case 4:
		// something was read ahead and pushed back before
		if v, err := it.Next(); err == nil {
			it.Unread(v)
		}
	}
	c.Op("source of %d values then %s, wrap %d", n, e.name, wrap)
	c.Check(calls == 0 || wrap == 4, "eager", "the source is called before Next is")
	for i := 0; i < depth; i++ {
		before := calls
		op := c.Choose(3)
		switch op {
		case 0, 1: // Next, or the same as a Result
			var (
				v   T
				err error
			)
			if op == 0 {
				v, err = it.Next()
				c.Op("Next() = %s", mc.Show(v, err))
			} else {
				res := iter.Maybe(it)
				if res.HasError() {
					err = res.Error()
				} else {
					v = res.Get()
				}
				c.Check(res.HasError() != res.HasResult(), "maybe", "a result both has a value and an error, or neither")
				c.Op("Maybe() = %s", mc.Show(v, err))
			}
			c.Outcome(mc.Show(v, err))
			switch {
			case len(stack) > 0:
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				c.Check(err == nil && v == w, "unread", "expected the value unread last %v, got %s", w, mc.Show(v, err))
				c.Check(calls == before, "source-called", "the source was called although there are unread values")
			case mpos < n:
				mpos++
				c.Check(err == nil && v == mk(mpos), "next", "expected value %d of the source, got %s", mpos, mc.Show(v, err))
				if wrap != 4 {
					c.Check(calls == before+1, "read-ahead", "one Next called the source %d times", calls-before)
				}
			default:
				c.Check(err == wantErr, "end", "expected error %v, got %v", wantErr, err)
				c.Check(v == zv, "zero", "expected a zero value along with an error, got %v", v)
			}
		case 2:
			v := mk(10 + i)
			it.Unread(v)
			stack = append(stack, v)
			c.Op("Unread(%v)", v)
			c.Check(calls == before, "source-called", "Unread called the source")
		}
		c.State(fmt.Sprint(n, e.name, wrap, mpos, over, stack))
	}
}

func main() {
	mc.Main("C01", "model_checking", []string{"value types int, string and a struct stand for all types"}, func(r *mc.Run) {
		d := r.Budget(9, 12)
		r.Explore("int", fmt.Sprintf("every source of 0..3 values x 4 ends x 5 ways of wrapping, every history of %d operations", d), -1, func(c *mc.C) {
			drive(c, d, func(i int) int { return i })
		})
		r.Explore("string", "as int, 5 operations", -1, func(c *mc.C) {
			drive(c, 5, func(i int) string { return fmt.Sprint("s", i) })
		})
		r.Explore("struct", "as int, 5 operations", -1, func(c *mc.C) {
			drive(c, 5, func(i int) rec { return rec{i, -i} })
		})
		top := r.Budget(1024, 4096)
		r.Explore("long", fmt.Sprintf("sources of up to %d values (around the powers of two) x 4 ends, of which some are read, then as many values are unread, all is read, in rounds", top), -1, func(c *mc.C) {
			n, un := mc.Pick(c, mc.Lengths(top)), mc.Pick(c, []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4097, 16385})
			e := mc.Pick(c, ends)
			pos, next := 0, 1000000
			over := false
			it := iter.OfIter(func() (int, error) {
				c.Check(!over, "called-after-end", "the iterating function was called again after it returned a non-nil error")
				if pos == n {
					over = true
					return 99, e.err
				}
				pos++
				return pos, nil
			})
			var stack []int
			at := 0
			read := func(num int) {
				for ; num > 0; num-- {
					v, err := it.Next()
					switch {
					case len(stack) > 0:
						w := stack[len(stack)-1]
						stack = stack[:len(stack)-1]
						c.Check(err == nil && v == w, "unread", "source of %d, %d unread: expected the value unread last %d, got %s", n, un, w, mc.Show(v, err))
					case at < n:
						at++
						c.Check(err == nil && v == at, "next", "source of %d, %d unread: expected value %d of the source, got %s", n, un, at, mc.Show(v, err))
					default:
						c.Check(err == e.err && v == 0, "end", "source of %d, %d unread: expected error %v, got %s", n, un, e.err, mc.Show(v, err))
					}
				}
			}
			for _, num := range []int{n / 2, un/2 + 1, n - n/2, n + 2*un + 2} {
				read(num)
				c.Check(pos == at, "read-ahead", "source of %d: %d values were taken to read %d", n, pos, at)
				for i := 0; i < un; i++ {
					next++
					it.Unread(next)
					stack = append(stack, next)
				}
			}
			read(2*un + 3)
			c.Op("source of %d then %s, %d unread", n, e.name, un)
			c.State(fmt.Sprint(n, un, e.name))
			c.Outcome(fmt.Sprint(n, un))
		})
		nilErr := error(nil)
		r.Explore("any", "as int, values that are nil, and others of different types, 5 operations", -1, func(c *mc.C) {
			drive(c, 5, func(i int) any { return []any{nil, "b", 3, nilErr, 4.5}[i%5] })
		})
		r.Explore("nil-function", "a nil iterating function is refused", -1, func(c *mc.C) {
			c.Op("OfIter(nil)")
			c.Check(mc.Try(func() { iter.OfIter[int](nil) }) != nil, "accepted", "OfIter(nil) did not panic")
		})
	})
}
