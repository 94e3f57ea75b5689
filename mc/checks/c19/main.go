// C19: writers and test doubles report exactly what was transferred
package main

import (
	"bytes"
	"errors"
	"fmt"
	goio "io"
	"math"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/bantling/micro/io"
	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/tuple"
	"verifmc/mc"
)

var errs = []error{mc.ErrCustom, goio.EOF, goio.ErrUnexpectedEOF}

func errorReader(n, d int) func(c *mc.C) {
	return func(c *mc.C) {
		input := []byte("abcdefgh")[:c.Choose(n+1)]
		if len(input) == 0 && c.Bool() {
			input = nil
		}
		keep := string(input)
		end := mc.Pick(c, errs)
		r := io.NewErrorReader(input, end)
		pos := 0
		c.Op("%d bytes, then %v", len(input), end)
		for i := 0; i < d; i++ {
			sz := c.Choose(n + 3)
			p := bytes.Repeat([]byte{'.'}, sz+2)
			var arg []byte
			if sz == n+2 {
				sz = 0 // nil
			} else {
				arg = p[1 : sz+1 : sz+1]
			}
			k, err := r.Read(arg)
			c.Op("Read(%d) = %d, %v", sz, k, err)
			wantN, wantErr := min(sz, len(input)-pos), error(nil)
			if pos == len(input) {
				wantErr = end
			}
			want := bytes.Repeat([]byte{'.'}, len(p))
			copy(want[1:], input[pos:pos+wantN])
			c.Check(k == wantN && err == wantErr, "read", "Read(%d) at %d of %d: (%d, %v), expected (%d, %v)", sz, pos, len(input), k, err, wantN, wantErr)
			c.Check(bytes.Equal(p, want), "data", "Read(%d) at %d of %q: buffer %q, expected %q", sz, pos, input, p, want)
			pos += wantN
		}
		c.Check(string(input) == keep, "input", "the input became %q", input)
		c.State(fmt.Sprint(len(input), pos))
		c.Outcome(fmt.Sprint(pos))
	}
}

func errorWriter(n, d int) func(c *mc.C) {
	return func(c *mc.C) {
		count := c.Choose(n+3) - 2
		end := mc.Pick(c, errs)
		w := io.NewErrorWriter(count, end)
		var got []byte
		c.Op("%d bytes, then %v", count, end)
		next := byte('a')
		for i := 0; i < d; i++ {
			c.Check(bytes.Equal(w.Output(), got), "output", "the output is %q, expected %q", w.Output(), got)
			var p []byte
			sz := c.Choose(n + 3)
			if sz == n+2 {
				sz = 0
			} else {
				p = make([]byte, sz)
				for j := range p {
					p[j] = next
					next++
				}
			}
			k, err := w.Write(p)
			c.Op("Write(%d) = %d, %v", sz, k, err)
			wantN, wantErr := 0, error(nil)
			switch {
			case count < 0:
			case len(got) == count:
				wantErr = end
			default:
				wantN = min(sz, count-len(got))
			}
			got = append(got, p[:wantN]...)
			for j := range p {
				p[j] = '!' // the writer must have its own copy
			}
			c.Check(k == wantN && err == wantErr, "write", "Write(%d) after %d of %d: (%d, %v), expected (%d, %v)", sz, len(got), count, k, err, wantN, wantErr)
		}
		c.Check(bytes.Equal(w.Output(), got), "output", "the output is %q, expected %q", w.Output(), got)
		c.State(fmt.Sprint(count, len(got)))
		c.Outcome(string(got))
	}
}

// sink is a writer which, in each call, accepts all, or fewer without an error, or fails with an error after any number of bytes
type sink struct {
	c     *mc.C
	got   []byte
	short bool  // a fault in the current operation
	err   error // the error of that fault
	after int   // bytes offered after the fault, in the same operation
}

func (s *sink) Write(p []byte) (int, error) {
	if s.short {
		s.after += len(p)
	}
	k := s.c.Deviate(1 + len(p) + len(p) + 1)
	switch {
	case k == 0:
		s.got = append(s.got, p...)
		return len(p), nil
	case k <= len(p):
		k--
		s.short = true
		s.c.Op("the writer takes %d of %d bytes", k, len(p))
		s.got = append(s.got, p[:k]...)
		return k, nil
	}
	k -= len(p) + 1
	s.short, s.err = true, errs[k%3]
	s.c.Op("the writer takes %d of %d bytes and fails with %v", k, len(p), s.err)
	s.got = append(s.got, p[:k]...)
	return k, s.err
}

// limited takes a number of bytes, then fails
type limited struct {
	left, after int
	end         error
	failed      bool
	once        bool // it takes more after it failed
	got         []byte
}

func (w *limited) Write(p []byte) (int, error) {
	if w.failed {
		w.after += len(p)
	}
	k := min(len(p), w.left)
	w.left -= k
	w.got = append(w.got, p[:k]...)
	if k < len(p) {
		if w.failed = true; w.once {
			w.left = math.MaxInt
		}
		return k, w.end
	}
	return k, nil
}

// dest is a writer with Write alone, or with other methods too
func dest(c *mc.C, s *sink) goio.Writer {
	if c.Bool() {
		return mc.RichWriter(s)
	}
	return s
}

// says checks that the error of a value that was cut short says what is documented: the byte or rune in hexadecimal, or how many bytes of the string were written
func says(c *mc.C, err error, vals any, parts []string, written int) {
	i := 0
	for ; written >= len(parts[i]); i++ {
		written -= len(parts[i])
	}
	msg := strings.ToLower(err.Error())
	var want string
	switch l := vals.(type) {
	case []byte:
		want = fmt.Sprintf("%x", l[i])
	case []rune:
		want = fmt.Sprintf("%x", l[i])
	case []string:
		want = fmt.Sprint(written)
		words := strings.FieldsFunc(msg, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) })
		c.Check(slices.Contains(words, want), "message", "%d bytes of %q were written, the error is %v", written, parts[i], err)
		if k := slices.Index(words, "runes"); k > 0 {
			n := fmt.Sprint(utf8.RuneCountInString(parts[i]))
			c.Check(words[k-1] == n || strings.Trim(words[k-1], "0123456789") != "", "runes", "%q has %s runes, the error is %v", parts[i], n, err)
		}
	}
	c.Check(strings.Contains(msg, want), "message", "%q was cut short after %d bytes, the error is %v", parts[i], written, err)
}

func faults[T any](vals []T, mk func(goio.Writer) writer.Writer[T], enc func(T) string, ops, n int) func(c *mc.C) {
	return func(c *mc.C) {
		s := &sink{c: c}
		w := mk(dest(c, s))
		for i := 0; i < ops; i++ {
			l := make([]T, c.Choose(n+1))
			var parts []string
			for j := range l {
				l[j] = mc.Pick(c, vals)
				parts = append(parts, enc(l[j]))
			}
			want := strings.Join(parts, "")
			s.got, s.short, s.err, s.after = nil, false, nil, 0
			err := w.Write(l...)
			c.Op("Write(%v) = %v", l, err)
			got := string(s.got)
			if !s.short {
				c.Check(err == nil && got == want, "write", "Write(%v) wrote %q, expected %q; error %v", l, got, want, err)
				continue
			}
			c.Check(err != nil, "unreported", "Write(%v) wrote only %q of %q, or failed with %v, and reports nothing", l, got, want, s.err)
			c.Check(s.err == nil || errors.Is(err, s.err), "other-error", "Write(%v) reports %v instead of %v", l, err, s.err)
			c.Check(strings.HasPrefix(want, got) && s.after == 0, "after", "Write(%v) wrote %q of %q, and %d bytes after the fault", l, got, want, s.after)
			if s.err == nil {
				says(c, err, any(l), parts, len(got))
			}
			c.Outcome(err.Error())
		}
		c.State(fmt.Sprint(s.short, s.err, len(s.got)))
	}
}

func eol() string {
	if runtime.GOOS == "windows" {
		return "\r\n"
	}
	return "\n"
}

func main() {
	mc.Main("C19", "model_checking", []string{
		"a writer function may use any number of writes of the underlying writer for a value",
	}, func(r *mc.Run) {
		n, d := r.Budget(5, 6), r.Budget(5, 6)
		r.Explore("failing-reader", fmt.Sprintf("inputs of 0 to %d bytes, 3 errors, all histories of %d reads of 0 to %d bytes or nil", n, d, n+1), -1, errorReader(n, d))
		r.Explore("failing-writer", fmt.Sprintf("-2 to %d bytes, 3 errors, all histories of %d writes of 0 to %d bytes or nil", n, d, n+1), -1, errorWriter(n, d))
		ops, k, dev := 3, 2, r.Budget(2, 3)
		b := fmt.Sprintf("all histories of %d writes of up to %d values, where the writer falls short or fails up to %d times, after every number of bytes, with Write alone or with other methods too", ops, k, dev)
		r.Explore("bytes", b, dev, faults([]byte{0, 'a', 0x80, 0xff}, writer.OfIOWriterAsBytes, func(v byte) string { return string([]byte{v}) }, ops, k))
		r.Explore("runes", b, dev, faults([]rune{'a', 'é', '日', '\U00010348'}, writer.OfIOWriterAsRunes, func(v rune) string { return string(utf8.AppendRune(nil, v)) }, ops, k))
		r.Explore("strings", b, dev, faults([]string{"", "a", "é日", "\U00010348\n"}, writer.OfIOWriterAsStrings, func(v string) string { return v }, ops, k))
		r.Explore("lines", b, dev, faults([]string{"", "a", "é日"}, writer.OfIOWriterAsLines, func(v string) string { return v + eol() }, ops, k))
		r.Explore("generated", "the same with the writing functions themselves, one value each: the four kinds, all faults", dev, func(c *mc.C) {
			s := &sink{c: c}
			dst := dest(c, s)
			var f func() error
			var want string
			switch c.Choose(4) {
			case 0:
				g := writer.IOWriterGen(dst)
				v := mc.Pick(c, []byte{0, 'a', 0xff})
				f, want = func() error { return g(v) }, string([]byte{v})
			case 1:
				g := writer.IOWriterAsRunesGen(dst)
				v := mc.Pick(c, []rune{0, 'a', 'é', '日', '\U00010348', utf8.MaxRune})
				f, want = func() error { return g(v) }, string(v)
			case 2:
				g := writer.IOWriterAsStringsGen(dst)
				v := mc.Pick(c, []string{"", "a", "é日"})
				f, want = func() error { return g(v) }, v
			default:
				g := writer.IOWriterAsLinesGen(dst)
				v := mc.Pick(c, []string{"", "a", "é日"})
				f, want = func() error { return g(v) }, v+eol()
			}
			for i := 0; i < 3; i++ {
				s.got, s.short, s.err = nil, false, nil
				err := f()
				c.Op("write %q = %v", want, err)
				c.Check((err != nil) == s.short, "unreported", "writing %q gives %v, the writer had %v (took %q)", want, err, s.err, s.got)
				c.Check(s.err == nil || errors.Is(err, s.err), "other-error", "writing %q reports %v instead of %v", want, err, s.err)
				c.Check(s.short || string(s.got) == want, "write", "writing %q wrote %q", want, s.got)
			}
		})
		long := r.Budget(65536, 262144)
		r.Explore("long", fmt.Sprintf("values of all lengths up to 66 and around powers of two up to %d, and as many values, written by the four kinds of writers that fail or fall short nowhere, at the end, or in the middle; read from a failing reader or written to a failing writer in four sizes", long), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(long))
			text := strings.Repeat("aé日\U00010348", n/10+1)[:n]
			if !utf8.ValidString(text) {
				text = strings.Repeat("a", n)
			}
			var want string
			var write func(goio.Writer) error
			switch c.Choose(7) {
			case 0:
				want, write = text, func(w goio.Writer) error { return writer.OfIOWriterAsBytes(w).Write([]byte(text)...) }
			case 1:
				want, write = text, func(w goio.Writer) error { return writer.OfIOWriterAsRunes(w).Write([]rune(text)...) }
			case 2:
				want, write = text+"b"+text, func(w goio.Writer) error { return writer.OfIOWriterAsStrings(w).Write(text, "b", text) }
			case 3:
				want, write = text+eol()+eol()+"c"+eol(), func(w goio.Writer) error { return writer.OfIOWriterAsLines(w).Write(text, "", "c") }
			case 4:
				l := strings.Split(text, "")
				want, write = strings.Join(append(l, ""), eol()), func(w goio.Writer) error { return writer.OfIOWriterAsLines(w).Write(l...) }
			case 5:
				end := mc.Pick(c, errs)
				rd := io.NewErrorReader([]byte(text), end)
				var got []byte
				p := make([]byte, mc.Pick(c, []int{1, 7, 512, 8192}))
				for {
					k, err := rd.Read(p)
					got = append(got, p[:k]...)
					if err != nil {
						c.Check(err == end && string(got) == text, "read", "%d of %d bytes, then %v", len(got), n, err)
						return
					}
					c.Check(k > 0, "progress", "Read(%d) gives nothing", len(p))
				}
			case 6:
				end := mc.Pick(c, errs)
				w := io.NewErrorWriter(n, end)
				size := mc.Pick(c, []int{7, 512, 8192, n + 3})
				all := text + strings.Repeat("b", 2*size)
				for i := 0; i <= n+size; i += size {
					part := all[i:min(i+size, len(all))]
					k, err := w.Write([]byte(part))
					left := max(n-i, 0)
					var wantErr error
					if left == 0 {
						wantErr = end
					}
					c.Check(k == min(len(part), left) && err == wantErr, "limited", "Write(%d) with %d left of %d gives %d, %v", len(part), left, n, k, err)
				}
				c.Check(string(w.Output()) == text, "output", "the output has %d bytes of %d", len(w.Output()), n)
				return
			}
			limit, end := len(want), error(nil)
			if k := c.Choose(5); k > 0 {
				limit = []int{0, len(want) / 2, max(len(want)-1, 0), len(want)}[k-1]
				end = mc.Pick(c, append([]error{nil}, errs...))
			}
			w := &limited{left: limit, end: end, once: end == nil}
			err := write(w)
			c.Op("%d bytes, to a writer that takes %d, then %v: %d, %v", len(want), limit, end, len(w.got), err)
			if limit == len(want) {
				c.Check(err == nil && string(w.got) == want, "write", "wrote %d of %d bytes, %v", len(w.got), len(want), err)
				return
			}
			if end == nil {
				// a writer that falls short without an error, once
				c.Check(string(w.got) == want || err != nil && strings.HasPrefix(want, string(w.got)), "short", "a writer takes only %d bytes of %d without an error, reported is %v, written are %d", limit, len(want), err, len(w.got))
				return
			}
			c.Check(err == end, "unreported", "%d of %d bytes are written, then the writer fails with %v, reported is %v", len(w.got), len(want), end, err)
			c.Check(strings.HasPrefix(want, string(w.got)) && w.after == 0, "after", "%d bytes are written after a failure", w.after)
		})
		r.Explore("contents", "strings and lines with every character up to U+2FFF, and those at boundaries, at the beginning, in the middle, and at the end, or alone (no ends of lines in lines)", -1, func(c *mc.C) {
			k := c.Choose(0x30 + 1)
			lines := c.Bool()
			var chars []rune
			for i := 0; i < 0x100; i++ {
				chars = append(chars, rune(k<<8+i))
			}
			if k == 0x30 {
				chars = []rune{0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffe, 0x1ffff, 0x1f600, 0xfffff, 0x100000, 0x10fffe, 0x10ffff}
			}
			var vals []string
			for _, ch := range chars {
				if s := string(ch); !lines || (ch != '\n' && ch != '\r') {
					vals = append(vals, s, s+"a", "a"+s, "a"+s+"a", s+s)
				}
			}
			for _, v := range vals {
				var sb bytes.Buffer
				w, want := writer.OfIOWriterAsStrings(&sb), v
				if lines {
					w, want = writer.OfIOWriterAsLines(&sb), v+eol()
				}
				err := w.Write(v)
				c.Op("%q", v)
				c.Check(err == nil && sb.String() == want, "write", "writing %q (line: %t) gives %q, %v", v, lines, sb.String(), err)
			}
		})
		r.Explore("all-runes", "every Unicode scalar value is encoded correctly", -1, func(c *mc.C) {
			hi := rune(c.Choose(0x110000 >> 8))
			var sb bytes.Buffer
			w := writer.OfIOWriterAsRunes(&sb)
			var want []byte
			for lo := rune(0); lo < 256; lo++ {
				v := hi<<8 | lo
				if v >= 0xd800 && v < 0xe000 {
					continue
				}
				want = utf8.AppendRune(want, v)
				err := w.Write(v)
				c.Ops(1)
				c.Check(err == nil && bytes.Equal(sb.Bytes(), want), "write", "writing U+%04X: %v, %x, expected %x", v, err, sb.Bytes(), want)
				sb.Reset()
				want = want[:0]
			}
			c.Outcome(fmt.Sprint(hi))
		})
		r.Explore("functions", "a writer of a function that fails at any value: what comes before is written in order, what comes after is not, the error is returned; all histories of 3 writes of up to 3 values", -1, func(c *mc.C) {
			var got []int
			at := c.Choose(11) - 1
			calls := 0
			w := writer.NewWriter(func(v int) error {
				calls++
				if calls-1 == at {
					return mc.ErrCustom
				}
				got = append(got, v)
				return nil
			})
			var want []int
			next, attempts := 0, 0
			for i := 0; i < 3; i++ {
				var l []int
				for j, k := 0, c.Choose(4); j < k; j++ {
					l = append(l, next)
					next++
				}
				var wantErr error
				for _, v := range l {
					attempts++
					if attempts-1 == at {
						wantErr = mc.ErrCustom
						break
					}
					want = append(want, v)
				}
				err := w.Write(l...)
				c.Op("Write(%v) = %v", l, err)
				c.Check(err == wantErr && reflect.DeepEqual(got, want) && calls == attempts, "write", "Write(%v) = %v, expected %v; written %v, expected %v", l, err, wantErr, got, want)
			}
			c.Outcome(fmt.Sprint(got))
		})
		r.Explore("collections", "slice and map writers: all histories of 3 writes of up to 3 values, targets nil, empty, with values and spare capacity", -1, func(c *mc.C) {
			if c.Bool() {
				var dst, want []int
				switch c.Choose(4) {
				case 0:
				case 1:
					dst = []int{}
				case 2:
					dst = []int{9, 8}
				default:
					dst = append(make([]int, 0, 5), 7)
				}
				want = append([]int{}, dst...)
				w := writer.OfSliceWriter(&dst)
				if c.Bool() {
					w = writer.NewWriter(writer.SliceWriterGen(&dst))
				}
				for i := 0; i < 3; i++ {
					l := make([]int, c.Choose(4))
					for j := range l {
						l[j] = i*10 + j
					}
					want = append(want, l...)
					err := w.Write(l...)
					c.Op("Write(%v) = %v", l, err)
					c.Check(err == nil && fmt.Sprint(dst) == fmt.Sprint(want), "slice", "Write(%v) = %v, the slice is %v, expected %v", l, err, dst, want)
					if c.Bool() {
						dst, want = dst[:0], nil // the owner of the slice may change it
					}
				}
				return
			}
			dst := map[string]int{"z": 1}
			want := map[string]int{"z": 1}
			w := writer.OfMapWriter(dst)
			if c.Bool() {
				w = writer.NewWriter(writer.MapWriterGen(dst))
			}
			for i := 0; i < 3; i++ {
				l := make([]tuple.Two[string, int], c.Choose(3))
				for j := range l {
					l[j] = tuple.Of2(mc.Pick(c, []string{"", "a", "z"}), i*10+j)
					want[l[j].T] = l[j].U
				}
				err := w.Write(l...)
				c.Op("Write(%v) = %v", l, err)
				c.Check(err == nil && reflect.DeepEqual(dst, want), "map", "Write(%v) = %v, the map is %v, expected %v", l, err, dst, want)
			}
		})
		r.Explore("nil", "a writer needs a function", -1, func(c *mc.C) {
			c.Check(mc.Try(func() { writer.NewWriter[int](nil) }) != nil, "nil", "a writer without a function is accepted")
		})
	})
}
