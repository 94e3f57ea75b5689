// C02: every iterator source delivers its data, once, in order, then its end
package main

import (
	"bytes"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/bantling/micro/iter"
	"verifmc/mc"
)

// drain checks that gen gives want, then the end error repeatedly
func drain[T any](c *mc.C, what string, gen func() (T, error), want []T, end error) {
	for i, w := range want {
		v, err := gen()
		c.Op("%s = %s", what, mc.Show(v, err))
		c.Check(err == nil && reflect.DeepEqual(v, w), "value", "%s: value %d: expected %#v, got %s", what, i, w, mc.Show(v, err))
	}
	var zv T
	for i := 0; i < 3; i++ {
		v, err := gen()
		c.Op("%s = %s", what, mc.Show(v, err))
		c.Check(err == end, "end", "%s: expected end %v on call %d after the last value, got %s", what, end, i+1, mc.Show(v, err))
		c.Check(reflect.DeepEqual(v, zv), "zero", "%s: expected a zero value along with an error, got %#v", what, v)
	}
	c.Outcome(fmt.Sprint(what, want, end))
	c.State(fmt.Sprint(what, want, end))
}

func slices(c *mc.C) {
	n := c.Choose(5)
	var s []int
	if n > 0 || c.Bool() {
		s = make([]int, 0, n)
	}
	for i := 0; i < n; i++ {
		s = append(s, c.Choose(3))
	}
	switch c.Choose(5) {
	case 0:
		drain(c, "SliceIterGen", iter.SliceIterGen(s), s, iter.EOI)
	case 1:
		drain(c, "OfSlice", iter.OfSlice(s).Next, s, iter.EOI)
	case 2:
		drain(c, "Of", iter.Of(s...).Next, s, iter.EOI)
	case 3:
		drain(c, "OfEmpty", iter.OfEmpty[int]().Next, nil, iter.EOI)
		drain(c, "NoValueIterGen", iter.NoValueIterGen[int](), nil, iter.EOI)
	case 4:
		drain(c, "OfOne", iter.OfOne(n).Next, []int{n}, iter.EOI)
		drain(c, "SingleValueIterGen", iter.SingleValueIterGen(&s), []*[]int{&s}, iter.EOI)
	}
}

func maps[K comparable, V any](name string, ks []K, vs []V) func(c *mc.C) {
	return func(c *mc.C) {
		m := map[K]V{}
		for _, k := range ks {
			if i := c.Choose(len(vs) + 1); i > 0 {
				m[k] = vs[i-1]
			}
		}
		if len(m) == 0 && c.Bool() {
			m = nil
		}
		gen := iter.MapIterGen(m)
		if c.Bool() {
			gen = iter.OfMap(m).Next
		}
		got := map[K]V{}
		c.Op("%s %v", name, m)
		for i := 0; i < len(m); i++ {
			t, err := gen()
			c.Op("= %s", mc.Show(t, err))
			c.Check(err == nil, "early-end", "%d of %d pairs, then %v", i, len(m), err)
			_, dup := got[t.T]
			c.Check(!dup, "twice", "key %v twice", t.T)
			got[t.T] = t.U
		}
		c.Check(len(m) == 0 || reflect.DeepEqual(m, got), "pairs", "expected %v, got %v", m, got)
		for i := 0; i < 2; i++ {
			_, err := gen()
			c.Check(err == iter.EOI, "end", "expected EOI, got %v", err)
		}
		c.State(fmt.Sprint(m))
		c.Outcome(fmt.Sprint(m))
	}
}

func label(k float64, v int) string {
	if k == 0 {
		return fmt.Sprint("0 ", v) // both zeros are the same key
	}
	return fmt.Sprint(k, v)
}

// maps with keys that are not equal to themselves
func nanMaps(c *mc.C) {
	m := map[float64]int{}
	want := map[string]int{}
	for i := c.Choose(4); i > 0; i-- {
		k, v := mc.Pick(c, []float64{math.NaN(), math.Copysign(0, -1), 0, 1, math.Inf(1)}), c.Choose(3)
		if old, have := m[k]; have {
			want[label(k, old)]--
		}
		m[k] = v
		want[label(k, v)]++
	}
	gen := iter.OfMap(m).Next
	got := map[string]int{}
	c.Op("%v", m)
	for range m {
		t, err := gen()
		c.Op("= %s", mc.Show(t, err))
		c.Check(err == nil, "early-end", "%v ends early: %v", m, err)
		got[label(t.T, t.U)]++
	}
	for k, n := range want {
		if n == 0 {
			delete(want, k)
		}
	}
	c.Check(reflect.DeepEqual(want, got), "pairs", "expected %v, got %v", want, got)
	_, err := gen()
	c.Check(err == iter.EOI, "end", "expected EOI, got %v", err)
	c.Outcome(fmt.Sprint(got))
}

func series(c *mc.C) {
	n := c.Choose(4)
	init := make([]int, n)
	for i := range init {
		init[i] = c.Choose(3) + 1
	}
	keep := append([]int{}, init...)
	calls := 0
	gen := iter.InfiniteIterGen(func(i int) int { calls++; return i*3 + 1 }, init...)
	acc := 0
	var want []int
	if n > 0 {
		want = append(want, keep[:n-1]...)
		acc = keep[n-1]
	}
	for len(want) < 8 {
		acc = acc*3 + 1
		want = append(want, acc)
	}
	for i, w := range want {
		v, err := gen()
		c.Op("infinite%v = %s", keep, mc.Show(v, err))
		c.Check(err == nil && v == w, "value", "initial values %v, value %d: expected %d, got %s", keep, i, w, mc.Show(v, err))
		exp := i + 1
		if n > 0 {
			exp = i + 1 - (n - 1)
		}
		if exp < 0 {
			exp = 0
		}
		c.Check(calls == exp, "calls", "initial values %v: %d calls of the function after %d values", keep, calls, i+1)
	}
	c.Check(reflect.DeepEqual(init, keep), "input", "the initial values were changed")
	c.State(fmt.Sprint(keep))
	c.Outcome(fmt.Sprint(want))
}

func fib(c *mc.C) {
	gen := iter.FibonnaciIterGen()
	other := iter.FibonnaciIterGen()
	a, b := 1, 1
	for i := 0; i < 90; i++ {
		v, err := gen()
		c.Op("fib = %s", mc.Show(v, err))
		c.Check(err == nil && v == a, "value", "Fibonacci number %d: expected %d, got %s", i, a, mc.Show(v, err))
		if i%7 == 0 {
			other() // generators do not share state
		}
		a, b = b, a+b
	}
}

// a problem that is no end although it wraps it
var wrapsEOI = fmt.Errorf("lost: %w", iter.EOI)

var dataEnds = append(append([]error{}, mc.Ends...), wrapsEOI)

// a reader that gives its bytes in every possible way
func readerBytes(maxLen int) func(c *mc.C) {
	return func(c *mc.C) {
		data := []byte{'a', 0, 'b', 0xff, 'b'}[:c.Choose(maxLen+1)]
		end := mc.Pick(c, dataEnds)
		rd := mc.Reader{C: c, Data: data, End: end}
		want := end
		if end == io.EOF {
			want = iter.EOI
		}
		var (
			src io.Reader
			cl  *mc.CloseReader
		)
		switch c.Choose(3) {
		case 0:
			src = &rd
		case 1:
			cl = &mc.CloseReader{Reader: rd}
			src = cl
		case 2:
			cl = &mc.CloseReader{Reader: rd, CloseErr: errors.New("close failed")}
			src = cl
			if end == io.EOF {
				want = cl.CloseErr
			}
		}
		if c.Bool() {
			src = mc.RichReader(src)
		}
		gen := iter.ReaderIterGen(src)
		if c.Bool() {
			gen = iter.OfReader(src).Next
		}
		c.Op("reader of %q, end %v, closer %v", data, end, cl != nil)
		for i, w := range data {
			v, err := gen()
			c.Op("= %s", mc.Show(v, err))
			c.Check(err == nil && v == w, "byte", "byte %d: expected %#x, got %s", i, w, mc.Show(v, err))
			c.Check(cl == nil || cl.Closed == 0, "closed-early", "closed before the last byte was read")
		}
		for i := 0; i < 3; i++ {
			v, err := gen()
			c.Op("= %s", mc.Show(v, err))
			c.Check(v == 0 && err == want, "end", "call %d after the last byte: expected %v, got %s", i+1, want, mc.Show(v, err))
		}
		c.Check(cl == nil || end != io.EOF || cl.Closed == 1, "close", "closed %d times at the end of the data", closed(cl))
		c.Outcome(fmt.Sprint(data, want))
		c.State(fmt.Sprint(data, want, cl != nil))
	}
}

func closed(cl *mc.CloseReader) int {
	if cl == nil {
		return -1
	}
	return cl.Closed
}

func nilReader(c *mc.C) {
	drain(c, "ReaderIterGen(nil)", iter.ReaderIterGen(nil), nil, iter.EOI)
	drain(c, "ReaderAsRunesIterGen(nil)", iter.ReaderAsRunesIterGen(nil), nil, iter.EOI)
	drain(c, "ReaderAsLinesIterGen(nil)", iter.ReaderAsLinesIterGen(nil), nil, iter.EOI)
	drain(c, "CSVIterGen(nil)", iter.CSVIterGen(nil), nil, iter.EOI)
}

// rows read back through a reader that splits the document anyhow
func checkCSV(c *mc.C, doc string, src io.Reader, end error) {
	var (
		ref  = csv.NewReader(strings.NewReader(doc))
		want [][]string
		werr error
	)
	for {
		row, err := ref.Read()
		if err != nil {
			werr = err
			break
		}
		want = append(want, row)
	}
	it := iter.OfCSV(src)
	for i, w := range want {
		v, err := it.Next()
		c.Op("= %s", mc.Show(v, err))
		if end != io.EOF && err == end {
			// a problem of the reader may surface before rows the document parser had buffered, never instead of an end
			werr = end
			break
		}
		c.Check(err == nil && reflect.DeepEqual(append([]string{}, v...), append([]string{}, w...)), "row", "document %q, row %d: expected %q, got %s", doc, i, w, mc.Show(v, err))
	}
	for i := 0; i < 2; i++ {
		v, err := it.Next()
		ok := v == nil
		switch {
		case werr == io.EOF && end == io.EOF:
			ok = ok && err == iter.EOI
		case werr == io.EOF || werr == end:
			ok = ok && err == end
		case end != io.EOF && err == end:
		default:
			ok = ok && err != nil && err != iter.EOI && (err.Error() == werr.Error() || end != io.EOF)
		}
		c.Check(ok, "row-end", "document %q: expected end %v (reader end %v), got %s", doc, werr, end, mc.Show(v, err))
	}
	c.Outcome(fmt.Sprint(want, werr))
	c.State(fmt.Sprint(want, werr))
}

func csvDocs(n, k int) func(c *mc.C) {
	return func(c *mc.C) {
		l := c.Choose(n + 1)
		b := make([]byte, l)
		for i := range b {
			b[i] = mc.Pick(c, []byte("a,\"\n\r# ;")[:k])
		}
		c.Op("document %q", b)
		checkCSV(c, string(b), bytes.NewReader(b), io.EOF)
	}
}

func csvRows(c *mc.C) {
	var (
		buf  bytes.Buffer
		w    = csv.NewWriter(&buf)
		rows = c.Choose(2) + 1
		cols = c.Choose(2) + 1
	)
	for i := 0; i < rows; i++ {
		row := make([]string, cols)
		for j := range row {
			row[j] = mc.Pick(c, []string{"x", "", "a b", "q\"q", "c,c", "n\nn"})
		}
		if cols == 1 && row[0] == "" {
			c.Prune() // an empty line, which readers of CSV skip
		}
		w.Write(row)
	}
	w.Flush()
	c.Op("document %q", buf.String())
	end := mc.Pick(c, dataEnds)
	var src io.Reader = &mc.Reader{C: c, Data: buf.Bytes(), End: end}
	if c.Bool() {
		src = mc.RichReader(src)
	}
	checkCSV(c, buf.String(), src, end)
}

// concatenation of every list of up to n iterators of every kind
func concat(n int) func(c *mc.C) {
	return func(c *mc.C) {
		var (
			k    = c.Choose(n + 1)
			its  []iter.Iter[int]
			want []int
			end  = iter.EOI
			seen []int
		)
		for i := 0; i < k; i++ {
			var it iter.Iter[int]
			ended := end != iter.EOI
			kind := c.Choose(10)
			seen = append(seen, kind)
			var vals []int
			switch kind {
			case 0:
				it = iter.OfEmpty[int]()
			case 1:
				it, vals = iter.Of(10*i+1), []int{10*i + 1}
			case 2:
				it, vals = iter.OfSlice([]int{10*i + 1, 10*i + 2}), []int{10*i + 1, 10*i + 2}
			case 3: // nil
			case 4:
				it, vals = iter.SetError(iter.Of(10*i+1), mc.ErrCustom), []int{10*i + 1}
			case 5:
				it, vals = iter.OfOne(10*i+1), []int{10*i + 5, 10*i + 1}
				it.Unread(10*i + 5)
			case 7:
				it, vals = iter.SetError(iter.Of(10*i+1), wrapsEOI), []int{10*i + 1}
			case 8: // of a foreign type
				it, vals = mc.OwnIterOf(iter.EOI, 10*i+1, 10*i+2), []int{10*i + 5, 10*i + 1, 10*i + 2}
				it.Unread(10*i + 5)
			case 9:
				it, vals = mc.OwnIterOf(mc.ErrCustom, 10*i+1), []int{10*i + 1}
			case 6: // exhausted before
				it = iter.Of(1)
				it.Next()
				it.Next()
			}
			its = append(its, it)
			if !ended {
				want = append(want, vals...)
				if kind == 4 || kind == 9 {
					end = mc.ErrCustom
				} else if kind == 7 {
					end = wrapsEOI
				}
			}
		}
		c.Op("concatenation of kinds %v", seen)
		if c.Bool() {
			drain(c, "Concat", iter.Concat(its...).Next, want, end)
		} else {
			drain(c, "ConcatIterGen", iter.ConcatIterGen(its), want, end)
		}
	}
}

// sources of all lengths around which buffers and tables grow
func long(max int) func(c *mc.C) {
	return func(c *mc.C) {
		var (
			n    = mc.Pick(c, mc.Lengths(max))
			vals = make([]int, n)
			row  = make([]string, n)
			text = make([]byte, n)
		)
		for i := range vals {
			vals[i] = (i*7919 + 1) % 1009
			row[i] = fmt.Sprint(vals[i])
			text[i] = byte(vals[i])
		}
		c.Op("%d elements", n)
		switch c.Choose(6) {
		case 0:
			drain(c, "Of", iter.Of(vals...).Next, vals, iter.EOI)
			drain(c, "OfSlice", iter.OfSlice(vals).Next, vals, iter.EOI)
		case 1:
			m, got := map[int]int{}, map[int]int{}
			for i, v := range vals {
				m[i] = v
			}
			it := iter.OfMap(m)
			for range vals {
				t, err := it.Next()
				c.Check(err == nil, "early-end", "%v", err)
				got[t.T] = t.U
			}
			_, err := it.Next()
			c.Check(err == iter.EOI && reflect.DeepEqual(m, got), "pairs", "%d of %d pairs, then %v", len(got), n, err)
		case 2:
			src := mc.NewChunks(c, string(text), io.EOF, mc.ErrCustom)
			end := src.End
			if end == io.EOF {
				end = iter.EOI
			}
			drain(c, "OfReader", iter.OfReader(src).Next, text, end)
		case 3:
			var its []iter.Iter[int]
			var want []int
			for i := range vals {
				if i%3 < 2 {
					its = append(its, iter.Of(vals[i], i))
					want = append(want, vals[i], i)
				} else {
					its = append(its, iter.OfEmpty[int]())
				}
			}
			drain(c, "Concat", iter.Concat(its...).Next, want, iter.EOI)
		case 4:
			var sep = mc.Pick(c, []string{",", "\n", " ", "\"\"", "x"})
			doc := strings.Join(row, sep)
			if c.Bool() {
				doc = "\"" + doc + "\",y"
			}
			src := mc.NewChunks(c, doc, io.EOF, mc.ErrCustom)
			checkCSV(c, doc, src, src.End)
		case 5: // what is given back comes again, the last first, then the rest
			it := iter.OfSlice(vals)
			for range vals {
				it.Next()
			}
			end := c.Bool()
			if end {
				it.Next()
			}
			for i := range vals {
				it.Unread(-vals[i])
			}
			for i := range vals {
				v, err := it.Next()
				c.Check(v == -vals[n-1-i] && err == nil, "unread", "value %d of %d given back: got %d, %v", i, n, v, err)
			}
			_, err := it.Next()
			c.Check(err == iter.EOI, "end", "%v", err)
		}
	}
}

// nils checks that nil values are values like any other
func nils[T any](c *mc.C, name string, vals ...T) {
	var s []T
	for i := c.Choose(4); i > 0; i-- {
		s = append(s, mc.Pick(c, vals))
	}
	c.Op("%s %#v", name, s)
	switch c.Choose(8) {
	case 0:
		drain(c, "Of", iter.Of(s...).Next, s, iter.EOI)
	case 1:
		drain(c, "OfSlice", iter.OfSlice(s).Next, s, iter.EOI)
	case 2:
		drain(c, "SliceIterGen", iter.SliceIterGen(s), s, iter.EOI)
	case 3:
		if len(s) != 1 {
			c.Prune()
		}
		drain(c, "OfOne", iter.OfOne(s[0]).Next, s, iter.EOI)
		drain(c, "SingleValueIterGen", iter.SingleValueIterGen(s[0]), s, iter.EOI)
	case 4:
		var its []iter.Iter[T]
		for _, v := range s {
			its = append(its, iter.OfOne(v), iter.OfEmpty[T]())
		}
		drain(c, "Concat", iter.Concat(its...).Next, s, iter.EOI)
	case 5:
		if len(s) == 0 {
			c.Prune()
		}
		gen := iter.InfiniteIterGen(func(v T) T { return v }, s...)
		for i := range 6 {
			want := s[min(i, len(s)-1)]
			v, err := gen()
			c.Check(err == nil && reflect.DeepEqual(v, want), "value", "InfiniteIterGen: value %d: expected %#v, got %s", i, want, mc.Show(v, err))
		}
	case 6: // given back, after the end
		it := iter.OfEmpty[T]()
		it.Next()
		for i := range s {
			it.Unread(s[len(s)-1-i])
		}
		drain(c, "Unread", it.Next, s, iter.EOI)
	default:
		drain(c, "SetError", iter.SetError(iter.OfSlice(s), mc.ErrCustom).Next, s, mc.ErrCustom)
	}
}

func setError(c *mc.C) {
	n := c.Choose(4)
	var want []int
	for i := 0; i < n; i++ {
		want = append(want, i+1)
	}
	first := mc.Pick(c, []error{iter.EOI, mc.ErrCustom, wrapsEOI})
	base := iter.OfSlice(want)
	if c.Bool() {
		base = mc.OwnIterOf(first, want...)
	} else if first != iter.EOI {
		base = iter.SetError(base, first)
	}
	repl := errors.New("replacement")
	drain(c, "SetError", iter.SetError(base, repl).Next, want, repl)
}

func main() {
	mc.Main("C02", "model_checking", []string{"encoding/csv is the reference for CSV", "small alphabets of values stand for all values"}, func(r *mc.Run) {
		r.Explore("slices", "all slices of up to 4 of 3 values", -1, slices)
		r.Explore("map-string-int", "all maps over 3 keys, 3 values", -1, maps("map", []string{"", "a", "b"}, []int{0, 1, 2}))
		r.Explore("map-any-any", "all maps over 4 keys, 3 values including nil", -1, maps("map", []any{nil, 1, "a", 1.5}, []any{nil, 1, "x"}))
		r.Explore("map-ptr", "all maps over 3 keys, nil and non-nil pointers and errors", -1, maps("map", []error{nil, io.EOF, mc.ErrCustom}, []*int{nil, new(int)}))
		r.Explore("map-nan", "all histories of up to 3 assignments to 5 keys including not a number and both zeros, 3 values", -1, nanMaps)
		r.Explore("series", "all lists of up to 3 initial values, 8 values", -1, series)
		r.Explore("fibonacci", "the first 90 numbers", -1, fib)
		n := r.Budget(4, 5)
		r.Explore("reader-bytes", fmt.Sprintf("up to %d bytes, every partition into reads, (0,nil), data along with the error, 5 ends, 3 kinds of closer, with Read alone or with the other methods of readers too", n), -1, readerBytes(n))
		r.Explore("nil-reader", "nil readers", -1, nilReader)
		n = r.Budget(6, 8)
		r.Explore("csv-documents", fmt.Sprintf("all strings of up to %d of 5 characters", n), -1, csvDocs(n, 5))
		r.Explore("csv-characters", fmt.Sprintf("all strings of up to %d of 8 characters", n-1), -1, csvDocs(n-1, 8))
		n = r.Budget(1, 2)
		r.Explore("csv-rows", fmt.Sprintf("all 1..2 x 1..2 tables over 6 fields, up to %d deviating reads, with Read alone or with other methods too", n), n, csvRows)
		r.Explore("nils", "all lists of up to 3 values that may be nil, of 9 types, of every source", -1, func(c *mc.C) {
			switch c.Choose(9) {
			case 0:
				nils(c, "*int", nil, new(int))
			case 1:
				nils[any](c, "any", nil, 1, (*int)(nil), []int(nil))
			case 2:
				nils[error](c, "error", nil, io.EOF, iter.EOI)
			case 3:
				nils(c, "[]int", nil, []int{}, []int{1})
			case 4:
				nils(c, "map", nil, map[int]int{}, map[int]int{1: 2})
			case 5:
				nils[func()](c, "func", nil)
			case 6:
				nils(c, "chan", nil, make(chan int))
			case 7:
				nils(c, "**int", nil, new(*int))
			default:
				nils(c, "struct", struct{ p *int }{}, struct{ p *int }{new(int)})
			}
		})
		n = r.Budget(4, 5)
		r.Explore("concat", fmt.Sprintf("all lists of up to %d of 8 kinds of iterator", n), -1, concat(n))
		l := r.Budget(65536, 262144)
		r.Explore("long", fmt.Sprintf("slices, maps, readers, concatenations, CSV rows and fields, and values given back of all lengths up to 66 and around powers of two up to %d", l), -1, long(l))
		r.Explore("set-error", "up to 3 values, 3 ends", -1, setError)
	})
}
