// C04: splitting into lines
package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/bantling/micro/iter"
	"verifmc/mc"
)

// lines is the reference: CRLF, CR and LF end a line, the end of the data ends a line that is not empty
func lines(s string, clean bool) (res []string) {
	cur := 0 // start of the line
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n':
			res = append(res, s[cur:i])
			i++
			cur = i + 1
		case s[i] == '\r' || s[i] == '\n':
			res = append(res, s[cur:i])
			cur = i + 1
		}
	}
	if cur < len(s) && clean {
		res = append(res, s[cur:])
	}
	return
}

func check(c *mc.C, s string, gen func() (string, error), want []string, ends ...error) {
	for i, w := range want {
		v, err := gen()
		c.Op("= %s", mc.Show(v, err))
		c.Check(err == nil && v == w, "line", "text %q: line %d: expected %q, got %s", s, i, w, mc.Show(v, err))
	}
	var first error
	for i := 0; i < 3; i++ {
		v, err := gen()
		c.Op("= %s", mc.Show(v, err))
		ok := false
		for _, e := range ends {
			ok = ok || err == e
		}
		if i == 0 {
			first = err
		}
		c.Check(ok && v == "" && err == first, "end", "text %q: call %d after the last line: expected %v, got %s", s, i+1, ends, mc.Show(v, err))
	}
	c.Outcome(fmt.Sprintf("%q %v", want, first))
	c.State(fmt.Sprintf("%q %v", s, first))
}

func gens(s string, which int) func() (string, error) {
	switch which {
	case 0:
		return iter.ReaderAsLinesIterGen(strings.NewReader(s))
	case 1:
		return iter.StringAsLinesIterGen(s)
	case 2:
		return iter.OfReaderAsLines(strings.NewReader(s)).Next
	default:
		return iter.OfStringAsLines(s).Next
	}
}

func main() {
	mc.Main("C04", "model_checking", []string{"every character is tried in texts of up to 4; in longer texts one ASCII and one two byte character stand for all that do not end a line"}, func(r *mc.Run) {
		n := r.Budget(8, 10)
		r.Explore("texts", fmt.Sprintf("all texts of up to %d of a, é, CR, LF", n), -1, func(c *mc.C) {
			s := ""
			for i := c.Choose(n + 1); i > 0; i-- {
				s += mc.Pick(c, []string{"a", "\r", "\n", "é"})
			}
			c.Op("text %q", s)
			check(c, s, gens(s, 0), lines(s, true), iter.EOI)
		})
		r.Explore("apis", "all texts of up to 5 of a, é, CR, LF, the three other ways", -1, func(c *mc.C) {
			s := ""
			for i := c.Choose(6); i > 0; i-- {
				s += mc.Pick(c, []string{"a", "\r", "\n", "é"})
			}
			w := 1 + c.Choose(3)
			c.Op("text %q way %d", s, w)
			check(c, s, gens(s, w), lines(s, true), iter.EOI)
		})
		k := r.Budget(3, 4)
		limit := r.Budget(0x300, 0x3000)
		r.Explore("characters", fmt.Sprintf("every character below U+%04X, separators, byte order marks and limits of encodings, in all texts of up to %d of it, a, CR, LF", limit, k), -1, func(c *mc.C) {
			special := []rune{0x07ff, 0x0800, 0x2028, 0x2029, 0x202a, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff}
			x := rune(c.Choose(limit + len(special)))
			if int(x) >= limit {
				x = special[int(x)-limit]
			}
			if x == '\r' || x == '\n' || x == 'a' {
				c.Prune()
			}
			s := ""
			for i := c.Choose(k + 1); i > 0; i-- {
				s += mc.Pick(c, []string{string(x), "\r", "\n", "a"})
			}
			c.Op("text %q", s)
			check(c, s, gens(s, c.Choose(2)), lines(s, true), iter.EOI)
		})
		r.Explore("invalid", "all texts of up to 5 of a, CR, LF, and an invalid byte", -1, func(c *mc.C) {
			s := ""
			for i := c.Choose(6); i > 0; i-- {
				s += mc.Pick(c, []string{"a", "\r", "\n", "\xff"})
			}
			valid, _, bad := strings.Cut(s, "\xff")
			w := c.Choose(4)
			c.Op("text %q way %d", s, w)
			if bad {
				check(c, s, gens(s, w), lines(valid, false), iter.InvalidUTF8EncodingError)
			} else {
				check(c, s, gens(s, w), lines(valid, true), iter.EOI)
			}
		})
		long := r.Budget(65536, 1<<20)
		r.Explore("long", fmt.Sprintf("a line of all lengths up to 66 and around powers of two up to %d bytes, up to 4097 short and empty lines, with each line end, delivered in reads of four sizes or with an empty read before each, 2 ends, all ways", long), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(long))
			nl := mc.Pick(c, []string{"\n", "\r", "\r\n", ""})
			s := ""
			switch k := c.Choose(3); {
			case k > 0 && n > 4097:
				c.Prune() // the lengths of lines
			case k == 0:
				ch := mc.Pick(c, []string{"a", "é"})
				s = "b" + nl + strings.Repeat(ch, n/len(ch)) + nl + "c"
			case k == 1:
				s = strings.Repeat(nl, n) + "c"
			case k == 2:
				s = strings.Repeat("a"+nl, n)
			}
			if w := c.Choose(4); w > 0 {
				check(c, s, gens(s, w), lines(s, true), iter.EOI)
				return
			}
			if src := mc.NewChunks(c, s, io.EOF, mc.ErrCustom); src.End == io.EOF {
				check(c, s, iter.OfReaderAsLines(src).Next, lines(s, true), iter.EOI)
			} else {
				check(c, s, iter.OfReaderAsLines(src).Next, lines(s, false), src.End)
			}
		})
		m := r.Budget(4, 5)
		r.Explore("reads", fmt.Sprintf("all texts of up to %d of a, é, CR, LF, every partition into reads, (0,nil), data along with the error, 4 ends, with Read alone or with other methods too", m), -1, func(c *mc.C) {
			s := ""
			for i := c.Choose(m + 1); i > 0; i-- {
				s += mc.Pick(c, []string{"a", "\r", "\n", "é"})
			}
			end := mc.Pick(c, mc.Ends)
			c.Op("text %q end %v", s, end)
			var src io.Reader = &mc.Reader{C: c, Data: []byte(s), End: end}
			if c.Bool() {
				src = mc.RichReader(src)
			}
			if end == io.EOF {
				check(c, s, iter.ReaderAsLinesIterGen(src), lines(s, true), iter.EOI)
			} else {
				check(c, s, iter.OfReaderAsLines(src).Next, lines(s, false), end)
			}
		})
	})
}
