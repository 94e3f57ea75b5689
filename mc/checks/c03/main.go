// C03: UTF-8 decoding of readers and strings
package main

import (
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"github.com/bantling/micro/iter"
	"verifmc/mc"
)

// expected runes of data, and what ends them: nil means the data ends cleanly
func expected(data []byte) (runes []rune, bad bool, rest []byte) {
	for len(data) > 0 {
		r, n := utf8.DecodeRune(data)
		if r == utf8.RuneError && n == 1 {
			return runes, true, data
		}
		runes = append(runes, r)
		data = data[n:]
	}
	return runes, false, nil
}

// need is how many bytes the first byte of a sequence announces
func need(b byte) int {
	switch {
	case b >= 0xF0 && b < 0xF8:
		return 4
	case b >= 0xE0:
		return 3
	default:
		return 2
	}
}

func check(c *mc.C, data []byte, gen func() (rune, error), end error) {
	runes, bad, rest := expected(data)
	for i, w := range runes {
		v, err := gen()
		if err != nil || v != w {
			c.Fail("rune", "bytes % x: rune %d: expected %U, got %U, %v", data, i, w, v, err)
		}
	}
	var first error
	for i := 0; i < 3; i++ {
		v, err := gen()
		ok := v == 0
		switch {
		case !bad && end == io.EOF:
			ok = ok && err == iter.EOI
		case !bad:
			ok = ok && err == end
		case end == io.EOF || len(rest) >= need(rest[0]) || rest[0] < 0xC0 || rest[0] >= 0xF8:
			ok = ok && err == iter.InvalidUTF8EncodingError
		default:
			// the problem of the reader prevents that all announced bytes are read, either is an answer
			ok = ok && (err == end || err == iter.InvalidUTF8EncodingError)
		}
		if i == 0 {
			first = err
		}
		if !ok || err != first {
			c.Fail("end", "bytes % x: call %d after the valid runes, end of reader %v: got %U, %v (first was %v)", data, i+1, end, v, err, first)
		}
	}
	c.Ops(len(runes) + 3)
	c.Outcome(fmt.Sprint(runes, first))
}

var alphabet = []byte{0x41, 0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4,
	0xF5, 0xF7, 0xF8, 0xFF}

func gens(c *mc.C, src string, which int) func() (rune, error) {
	switch which {
	case 0:
		return iter.ReaderAsRunesIterGen(strings.NewReader(src))
	case 1:
		return iter.OfReaderAsRunes(strings.NewReader(src)).Next
	case 2:
		return iter.StringAsRunesIterGen(src)
	default:
		return iter.OfStringAsRunes(src).Next
	}
}

func main() {
	mc.Main("C03", "model_checking", []string{"unicode/utf8 is the reference", "27 boundary bytes stand for all bytes where strings of 4 and more bytes are enumerated"}, func(r *mc.Run) {
		r.Explore("boundary-4", "all strings of up to 4 of 27 boundary bytes", -1, func(c *mc.C) {
			n := c.Choose(5)
			b := make([]byte, n)
			for i := range b {
				b[i] = mc.Pick(c, alphabet)
			}
			c.Op("bytes % x", b)
			check(c, b, gens(c, string(b), 0), io.EOF)
			c.State(string(b))
		})
		r.Explore("apis-3", "all strings of up to 3 of 27 boundary bytes, the other three ways to decode", -1, func(c *mc.C) {
			n := c.Choose(4)
			b := make([]byte, n)
			for i := range b {
				b[i] = mc.Pick(c, alphabet)
			}
			c.Op("bytes % x", b)
			check(c, b, gens(c, string(b), 1+c.Choose(3)), io.EOF)
		})
		if r.Thorough {
			r.Explore("all-3", "all strings of 3 bytes, followed by one of 3 tails", -1, func(c *mc.C) {
				b := []byte{byte(c.Choose(256)), byte(c.Choose(256)), byte(c.Choose(256))}
				b = append(b, mc.Pick(c, []string{"", "\x80", "z"})...)
				check(c, b, gens(c, string(b), 0), io.EOF)
			})
		}
		r.Explore("all-2", "all strings of 2 bytes, followed by one of 5 tails", -1, func(c *mc.C) {
			b := []byte{byte(c.Choose(256)), byte(c.Choose(256))}
			b = append(b, mc.Pick(c, []string{"", "\x80", "\x80\xbf", "\x9f\x80z", "z"})...)
			c.Op("bytes % x", b)
			check(c, b, gens(c, string(b), 0), io.EOF)
		})
		r.Explore("all-runes", "all 1112064 code points, alone and surrounded", -1, func(c *mc.C) {
			hi := c.Choose(0x1100)
			for lo := 0; lo < 256; lo++ {
				cp := rune(hi<<8 | lo)
				if !utf8.ValidRune(cp) {
					continue
				}
				s := string(cp)
				check(c, []byte(s), gens(c, s, 0), io.EOF)
				it := iter.OfStringAsRunes("a" + s + "b")
				for _, w := range []rune{'a', cp, 'b'} {
					if v, err := it.Next(); v != w || err != nil {
						c.Fail("string-rune", "%U: got %U, %v", w, v, err)
					}
				}
				_, err := it.Next()
				c.Check(err == iter.EOI, "string-end", "%U: got %v", cp, err)
			}
		})
		long := r.Budget(65536, 1<<20)
		r.Explore("long", fmt.Sprintf("texts of all lengths up to 66 and around powers of two up to %d bytes, of one to four byte characters, whole or cut, delivered in reads of four sizes or with an empty read before each, 2 ends, all ways to decode", long), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(long))
			ch := mc.Pick(c, []string{"a", "é", "€", "\U00010348", "aé€\U00010348"})
			s := strings.Repeat(ch, n/len(ch)+1)[:n]
			if w := c.Choose(3); w > 0 {
				check(c, []byte(s), gens(c, s, w+1), io.EOF)
				return
			}
			src := mc.NewChunks(c, s, io.EOF, mc.ErrCustom)
			check(c, []byte(s), iter.OfReaderAsRunes(src).Next, src.End)
		})
		var texts = []string{"", "a", "é", "ab", "€", "é!", "\U00010348", "a€", "€b", "éé", "\xc3", "\xe2\x82", "\xf0\x90\x8d", "a\xff", "\xe2\x41\x41", "\xed\xa0\x80", "\xc0\x80",
			"x\U00010348", "\xf0\x90\x8d\x88\x80"}
		d := r.Budget(6, -1)
		r.Explore("reads", fmt.Sprintf("%d texts, every partition into reads, (0,nil), data along with the error, 4 ends, up to %d deviations, with Read alone or with other methods too", len(texts), d), d, func(c *mc.C) {
			s := mc.Pick(c, texts)
			end := mc.Pick(c, mc.Ends)
			var src io.Reader = &mc.Reader{C: c, Data: []byte(s), End: end}
			if c.Bool() {
				src = mc.RichReader(src)
			}
			gen := iter.ReaderAsRunesIterGen(src)
			if c.Bool() {
				gen = iter.OfReaderAsRunes(src).Next
			}
			c.Op("bytes % x, end %v", s, end)
			check(c, []byte(s), gen, end)
		})
	})
}
