// Package jsn is a reference for JSON texts: a strict RFC 8259 parser over runes, written independently of the code under
// test, and a canonical notation for values
package jsn

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/bantling/micro/encoding/json"
)

// Kind of answer
type Kind int

const (
	OK         Kind = iota
	Invalid         // no continuation of the text is a document
	Incomplete      // the text is a proper prefix of documents
	Either          // the text contains an escape pair in the reverse order, about which nothing is said
)

func (k Kind) String() string { return [...]string{"ok", "invalid", "incomplete", "either"}[k] }

// Doc is the reference answer for a text
type Doc struct {
	Kind  Kind
	Canon string
	// for arrays: the canonical form of the elements that are known to be complete, and the offset (in runes) behind the
	// comma or bracket after them
	IsArray bool
	Elems   []string
	Ends    []int
	// what stands between the last of these commas and the end of the text or what is wrong, if it is a value; Open if it is
	// a number that goes up to the end of the text, so that it may go on
	Extra string
	Open  bool
}

type p struct {
	s   []rune
	i   int
	doc *Doc
	rev bool
}

type stop Kind

func (x *p) more() rune {
	if x.i >= len(x.s) {
		panic(stop(Incomplete))
	}
	r := x.s[x.i]
	x.i++
	return r
}

func (x *p) bad() { panic(stop(Invalid)) }

func (x *p) ws() {
	for x.i < len(x.s) && strings.ContainsRune(" \t\r\n", x.s[x.i]) {
		x.i++
	}
}

func hex(r rune) int {
	switch {
	case r >= '0' && r <= '9':
		return int(r - '0')
	case r >= 'a' && r <= 'f':
		return int(r-'a') + 10
	case r >= 'A' && r <= 'F':
		return int(r-'A') + 10
	}
	return -1
}

func (x *p) u4() rune {
	v := 0
	for i := 0; i < 4; i++ {
		h := hex(x.more())
		if h < 0 {
			x.bad()
		}
		v = v*16 + h
	}
	return rune(v)
}

func (x *p) str() string {
	var b strings.Builder
	for {
		r := x.more()
		switch {
		case r == '"':
			return b.String()
		case r < 0x20:
			x.bad()
		case r != '\\':
			b.WriteRune(r)
		default:
			switch e := x.more(); e {
			case '"', '\\', '/':
				b.WriteRune(e)
			case 'b':
				b.WriteByte(8)
			case 'f':
				b.WriteByte(12)
			case 'n':
				b.WriteByte(10)
			case 'r':
				b.WriteByte(13)
			case 't':
				b.WriteByte(9)
			case 'u':
				v := x.u4()
				if utf16.IsSurrogate(v) {
					if x.more() != '\\' {
						x.bad()
					}
					if x.more() != 'u' {
						x.bad()
					}
					w := x.u4()
					d := rune(0)
					switch {
					case v < 0xdc00 && w >= 0xdc00 && w <= 0xdfff:
						d = 0x10000 + (v-0xd800)<<10 + (w - 0xdc00)
					case v >= 0xdc00 && w >= 0xd800 && w < 0xdc00:
						x.rev = true
						d = 0x10000 + (w-0xd800)<<10 + (v - 0xdc00)
					default:
						x.bad()
					}
					b.WriteRune(d)
				} else {
					b.WriteRune(v)
				}
			default:
				x.bad()
			}
		}
	}
}

func digit(r rune) bool { return r >= '0' && r <= '9' }

// num: the text of a number that starts at i. A number at the very end of the text may go on
func (x *p) num() string {
	from := x.i
	if x.s[x.i] == '-' {
		x.i++
	}
	if d := x.more(); d == '0' {
		if x.i < len(x.s) && digit(x.s[x.i]) {
			x.bad()
		}
	} else if digit(d) {
		for x.i < len(x.s) && digit(x.s[x.i]) {
			x.i++
		}
	} else {
		x.bad()
	}
	digits := func() {
		if !digit(x.more()) {
			x.bad()
		}
		for x.i < len(x.s) && digit(x.s[x.i]) {
			x.i++
		}
	}
	if x.i < len(x.s) && x.s[x.i] == '.' {
		x.i++
		digits()
	}
	if x.i < len(x.s) && (x.s[x.i] == 'e' || x.s[x.i] == 'E') {
		x.i++
		if x.i >= len(x.s) {
			panic(stop(Incomplete))
		}
		if x.s[x.i] == '+' || x.s[x.i] == '-' {
			x.i++
		}
		digits()
	}
	return string(x.s[from:x.i])
}

func (x *p) word(w string) string {
	for _, r := range w[1:] {
		if x.more() != r {
			x.bad()
		}
	}
	return w
}

func (x *p) value(depth int) string {
	x.ws()
	switch r := x.more(); {
	case r == '{':
		m := map[string]string{}
		x.ws()
		if r := x.more(); r == '}' {
			return Object(m)
		}
		x.i--
		for {
			x.ws()
			if x.more() != '"' {
				x.bad()
			}
			k := x.str()
			if _, dup := m[k]; dup {
				x.bad()
			}
			x.ws()
			if x.more() != ':' {
				x.bad()
			}
			m[k] = x.value(depth + 1)
			x.ws()
			if r := x.more(); r == '}' {
				return Object(m)
			} else if r != ',' {
				x.bad()
			}
		}
	case r == '[':
		var l []string
		if depth == 0 {
			x.doc.IsArray = true
		}
		x.ws()
		if r := x.more(); r == ']' {
			return Array(l)
		}
		x.i--
		for {
			l = append(l, x.value(depth+1))
			if depth == 0 {
				x.doc.Extra, x.doc.Open = l[len(l)-1], l[len(l)-1][0] == '#' && x.i == len(x.s)
			}
			x.ws()
			r := x.more()
			if depth == 0 && (r == ',' || r == ']') {
				x.doc.Elems = append(x.doc.Elems, l[len(l)-1])
				x.doc.Ends = append(x.doc.Ends, x.i)
				x.doc.Extra = ""
			}
			if r == ']' {
				return Array(l)
			} else if r != ',' {
				x.bad()
			}
		}
	case r == '"':
		return String(x.str())
	case r == '-' || digit(r):
		x.i--
		return Number(x.num())
	case r == 't':
		return x.word("true")
	case r == 'f':
		return x.word("false")
	case r == 'n':
		return x.word("null")
	default:
		x.bad()
	}
	panic("unreachable")
}

// Parse a document
func Parse(s string) (d Doc) {
	x := &p{s: []rune(s), doc: &d}
	defer func() {
		if k, ok := recover().(stop); ok {
			d.Kind = Kind(k)
		}
		if x.rev {
			d.Kind = Either
		}
	}()
	x.ws()
	if r := x.more(); r != '{' && r != '[' {
		x.bad()
	}
	x.i--
	d.Canon = x.value(0)
	x.ws()
	if x.i < len(x.s) {
		x.bad()
	}
	return
}

// Object in canonical notation
func Object(m map[string]string) string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	b.WriteByte('{')
	for _, k := range keys {
		b.WriteString(strconv.QuoteToASCII(k) + ":" + m[k] + ",")
	}
	b.WriteByte('}')
	return b.String()
}

// Array in canonical notation
func Array(l []string) string { return "[" + strings.Join(l, ",") + "]" }

// String in canonical notation
func String(s string) string { return strconv.QuoteToASCII(s) }

// Number in canonical notation, from a JSON number text: sign, digits without zeros at either end, exponent
func Number(s string) string {
	x := &p{s: []rune(s), doc: &Doc{}}
	ok := func() (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		if len(x.s) == 0 || x.num() != s {
			return false
		}
		return true
	}()
	if !ok {
		return fmt.Sprintf("<not a number: %q>", s)
	}
	neg := s[0] == '-'
	s = strings.TrimPrefix(s, "-")
	exp := new(big.Int)
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		exp.SetString(strings.TrimPrefix(s[i+1:], "+"), 10)
		s = s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		exp.Sub(exp, big.NewInt(int64(len(s)-i-1)))
		s = s[:i] + s[i+1:]
	}
	s = strings.TrimLeft(s, "0")
	t := strings.TrimRight(s, "0")
	exp.Add(exp, big.NewInt(int64(len(s)-len(t))))
	if t == "" {
		return "#0"
	}
	if neg {
		t = "-" + t
	}
	if exp.Sign() == 0 {
		return "#" + t
	}
	return "#" + t + "e" + exp.String()
}

// Value of the code under test in canonical notation
func Value(v json.Value) string {
	switch v.Type() {
	case json.Object:
		m := map[string]string{}
		for k, e := range v.AsMap() {
			m[k] = Value(e)
		}
		return Object(m)
	case json.Array:
		var l []string
		for _, e := range v.AsSlice() {
			l = append(l, Value(e))
		}
		return Array(l)
	case json.String:
		return String(v.AsString())
	case json.Number:
		return Number(string(v.AsNumber()))
	case json.Boolean:
		return fmt.Sprint(v.AsBool())
	case json.Null:
		if !v.IsNull() {
			return "<null that is not null>"
		}
		return "null"
	}
	return "<invalid>"
}
