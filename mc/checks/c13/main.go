// C13: parsing JSON documents
package main

import (
	"fmt"
	"io"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/iter"
	"verifmc/jsn"
	"verifmc/mc"
)

// iterate collects at most n elements, and checks the end is repeated
func iterate(c *mc.C, text string, it iter.Iter[json.Value]) (vals []string, err error) {
	for n := 0; ; n++ {
		var v json.Value
		if v, err = it.Next(); err != nil {
			c.Check(v.Type() == json.Invalid, "value-with-error", "%q: Iterate returned %s along with %v", text, jsn.Value(v), err)
			break
		}
		vals = append(vals, jsn.Value(v))
		c.Check(n < 100_000, "endless", "%q: Iterate does not end", text)
	}
	for i := 0; i < 2; i++ {
		v, e := it.Next()
		c.Check(e == err && v.Type() == json.Invalid, "end", "%q: Next after the end: expected %v again, got %s %v", text, err, jsn.Value(v), e)
	}
	return
}

func list(l []string) string { return fmt.Sprintf("%q", l) }

// judge compares the outcome of Parse and Iterate of a text with the reference. end is the error the source ends with
func judge(c *mc.C, text string, mk func() io.Reader, end error) {
	d := jsn.Parse(text)
	c.Op("%q: %v", text, d.Kind)
	c.State(d.Kind.String() + d.Canon)
	v, err := parse.Parse(mk())
	if err != nil {
		c.Check(v.Type() == json.Invalid, "value-with-error", "%q: Parse returned %s along with %v", text, jsn.Value(v), err)
		c.Check(err != iter.EOI && err != io.EOF, "eof", "%q: Parse returned %v", text, err)
	}
	vals, ierr := iterate(c, text, parse.Iterate(mk()))
	c.Check(ierr != io.EOF, "eof", "%q: Iterate returned %v", text, ierr)
	c.Ops(2)
	failing := end != io.EOF
	switch {
	case d.Kind == jsn.Either:
		if err != nil {
			c.Outcome("either")
			return
		}
		c.Check(jsn.Value(v) == d.Canon || d.Canon == "", "value", "%q: expected %s or an error, got %s", text, d.Canon, jsn.Value(v))
	case d.Kind == jsn.OK && !failing:
		c.Check(err == nil, "rejected", "%q: Parse: %v", text, err)
		c.Check(jsn.Value(v) == d.Canon, "value", "%q: Parse: expected %s, got %s", text, d.Canon, jsn.Value(v))
		want := d.Elems
		if !d.IsArray {
			want = []string{d.Canon}
		}
		c.Check(ierr == iter.EOI, "rejected", "%q: Iterate: %v", text, ierr)
		c.Check(list(vals) == list(want), "value", "%q: Iterate: expected %s, got %s", text, want, vals)
	case d.Kind == jsn.Invalid || !failing:
		c.Check(err != nil, "accepted", "%q is not a document, Parse returned %s", text, jsn.Value(v))
		c.Check(ierr != iter.EOI, "accepted", "%q is not a document, Iterate ended after %s", text, vals)
	default: // the source fails before the text is known to be wrong
		c.Check(err == end, "source-error", "%q, then %v: Parse returned %s, %v", text, end, jsn.Value(v), err)
		c.Check(ierr == end, "source-error", "%q, then %v: Iterate returned %s, %v", text, end, vals, ierr)
	}
	if d.Kind != jsn.Either && d.Kind != jsn.OK && err != nil {
		// every element that is complete comes before the error, none that is not
		if d.IsArray {
			c.Check(len(vals) >= len(d.Elems) && list(vals[:len(d.Elems)]) == list(d.Elems), "elements", "%q: Iterate: expected %s before the error, got %s", text, d.Elems, vals)
			if more := vals[len(d.Elems):]; len(more) > 0 {
				// an element without a comma or bracket after it, which may come as well if it is complete
				c.Check(len(more) == 1 && more[0] == d.Extra && !(d.Open && failing), "elements", "%q: Iterate: expected %s (and perhaps %s) before the error, got %s", text, d.Elems, d.Extra, vals)
			}
		} else {
			c.Check(len(vals) == 0, "elements", "%q: Iterate: got %s before the error", text, vals)
		}
	}
	c.Outcome(fmt.Sprint(d.Kind, err != nil, vals))
}

// chosen gives readers that deliver a text in any way, all with Read alone, or all with other methods too
func chosen(c *mc.C, text string, end error) func() io.Reader {
	rich := c.Bool()
	return func() io.Reader {
		r := &mc.Reader{C: c, Data: []byte(text), End: end}
		if rich {
			return mc.RichReader(r)
		}
		return r
	}
}

func plain(text string) func() io.Reader {
	return func() io.Reader { return strings.NewReader(text) }
}

// closers of a text: what closes the open braces and brackets, ignoring strings with quotes
func closers(text string) string {
	var st []byte
	in := false
	for i := 0; i < len(text); i++ {
		switch b := text[i]; {
		case b == '"':
			in = !in
		case in:
		case b == '{':
			st = append(st, '}')
		case b == '[':
			st = append(st, ']')
		case (b == '}' || b == ']') && len(st) > 0:
			st = st[:len(st)-1]
		}
	}
	for i, j := 0, len(st)-1; i < j; i, j = i+1, j-1 {
		st[i], st[j] = st[j], st[i]
	}
	return string(st)
}

// apart tells that no map or list in a is one in b
func apart(a, b json.Value) bool {
	seen := map[any]bool{}
	var walk func(v json.Value, see func(any) bool) bool
	walk = func(v json.Value, see func(any) bool) bool {
		switch v.Type() {
		case json.Object:
			m := v.AsMap()
			if !see(reflect.ValueOf(m).Pointer()) {
				return false
			}
			for _, e := range m {
				if !walk(e, see) {
					return false
				}
			}
		case json.Array:
			l := v.AsSlice()
			if len(l) > 0 && !see(&l[0]) {
				return false
			}
			for _, e := range l {
				if !walk(e, see) {
					return false
				}
			}
		}
		return true
	}
	walk(a, func(p any) bool { seen[p] = true; return true })
	return walk(b, func(p any) bool { return !seen[p] })
}

func main() {
	mc.Main("C13", "model_checking", []string{
		"the reference is a strict parser for RFC 8259 texts whose top level is an object or array and whose objects have no duplicate keys; a surrogate pair in the reverse order may be accepted or not (an existing test accepts it)",
		"few strings, numbers and characters stand for all of their kind",
	}, func(r *mc.Run) {
		toks := []string{"[", "]", "{", "}", ",", ":", `"a"`, `"b"`, "1", "true", "null"}
		n, extra := r.Budget(7, 9), r.Budget(2, 3)
		r.Explore("tokens", fmt.Sprintf("all sequences of up to %d of the tokens %s, where at most %d tokens follow the first that makes the sequence wrong; each as is, and with all that is open closed", n, strings.Join(toks, " "), extra), -1, func(c *mc.C) {
			var text string
			for wrong := 0; ; {
				a := c.Choose(len(toks) + 2)
				if a >= len(toks) {
					if a == len(toks)+1 {
						cl := closers(text)
						if cl == "" {
							c.Prune()
						}
						text += cl
					}
					break
				}
				text += " " + toks[a]
				if jsn.Parse(text).Kind == jsn.Invalid {
					wrong++
				}
				if wrong > extra || strings.Count(text, " ") > n {
					c.Prune()
				}
			}
			judge(c, text, plain(text), io.EOF)
		})

		members := r.Budget(3, 4)
		r.Explore("members", fmt.Sprintf("all objects of up to %d members with 6 keys (two of them spelled in two ways) and 9 values (one of them an object with the same keys), as document and in an array", members), -1, func(c *mc.C) {
			keys := []string{`"a"`, `"\u0061"`, `""`, `"A"`, `"é"`, `"\u00E9"`}
			values := []string{"null", "false", "true", "0", "1", `""`, `"a"`, "[]", `{"a":null,"":{}}`}
			text := ""
			for i := c.Choose(members + 1); i > 0; i-- {
				text += "," + mc.Pick(c, keys) + ":" + mc.Pick(c, values)
			}
			text = "{" + strings.TrimPrefix(text, ",") + "}"
			if c.Bool() {
				text = "[" + text + "," + text + "]"
			}
			judge(c, text, plain(text), io.EOF)
		})

		pieces := []string{"a", "u", "0", "é", "😀", "/", "\x7f", "\u2028", "\ufffd", "\x1f", "\n", "\x00", `"`, `\`, `\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`,
			`\u0041`, `\u0022`, `\u005C`, `\u0000`, `\u001f`, `\u00e9`, `\u12`, `\u1`, `\uG000`, `\u00g0`, `\x`, `\U0041`, `\'`, `\ud834`, `\uDD1E`, `\uD834\uDD1e`, `\uDBFF\uDFFF`, `\ud800\udc00`, `\uD7ff`, `\uE000`, `\uFFFD`, `\uffff`}
		n = r.Budget(3, 4)
		r.Explore("strings", fmt.Sprintf("all strings of up to %d of %d pieces (characters, escapes, incomplete and illegal escapes, surrogates), as an element, and as a key beside the key A", n, len(pieces)), -1, func(c *mc.C) {
			asKey := c.Bool()
			s := ""
			for i := c.Choose(n + 1); i > 0; i-- {
				s += mc.Pick(c, pieces)
			}
			text := `["` + s + `"]`
			if asKey {
				text = `{"A":1,"` + s + `":2}`
			}
			judge(c, text, plain(text), io.EOF)
		})

		r.Explore("escapes", "every \\uXXXX escape, its digits in lower case, upper case, or only one of them in upper case, in an element, and in lower case as a key and followed by one more character", -1, func(c *mc.C) {
			esc := fmt.Sprintf("%04x", c.Choose(256)<<8|c.Choose(256))
			switch k := c.Choose(6); {
			case k == 1:
				if esc == strings.ToUpper(esc) {
					c.Prune()
				}
				esc = strings.ToUpper(esc)
			case k > 1:
				up := esc[:k-2] + strings.ToUpper(esc[k-2:k-1]) + esc[k-1:]
				if up == esc {
					c.Prune()
				}
				esc = up
			}
			text := `["\u` + esc + `"]`
			if esc == strings.ToLower(esc) {
				text = mc.Pick(c, []string{text, `["\u` + esc + `0"]`, `{"\u` + esc + `":0}`})
			}
			judge(c, text, plain(text), io.EOF)
		})

		r.Explore("surrogates", "a valid and an invalid pair of surrogate escapes and a single escape, where one character (and the next) is missing, doubled, or replaced by each ASCII character, or everything from there on is missing", -1, func(c *mc.C) {
			s := mc.Pick(c, []string{`\ud834\udd1e`, `\uD834\uD834`, `\udd1e\ud834`, `\u0041\ud834`})
			i := c.Choose(len(s))
			switch c.Choose(5) {
			case 0:
				s = s[:i] + string(rune(c.Choose(128))) + s[i+1:]
			case 1:
				j := c.Choose(len(s)-i) + 1
				s = s[:i] + s[i+j:]
			case 2:
				s = s[:i+1] + s[i:]
			case 3:
				s = s[:i] + string(rune(c.Choose(128))) + s[i:]
			case 4:
				if i+1 == len(s) {
					c.Prune()
				}
				s = s[:i] + mc.Pick(c, []string{`\`, "u", "U", `"`, "g", "0"}) + mc.Pick(c, []string{`\`, "u", "U", `"`, "g", "0", "x"}) + s[i+2:]
			}
			text := `["` + s + mc.Pick(c, []string{`"]`, ``, `\udd1e"]`})
			judge(c, text, plain(text), io.EOF)
		})

		n = r.Budget(6, 7)
		r.Explore("numbers", fmt.Sprintf("all texts of up to %d of - + . e E 0 1 9, as element and as the value of a key", n), -1, func(c *mc.C) {
			s := ""
			for i := 1 + c.Choose(n); i > 0; i-- {
				s += mc.Pick(c, []string{"0", "1", "9", "-", "+", ".", "e", "E"})
			}
			text := "[" + s + "]"
			if c.Bool() {
				text = `{"k":` + s + `}`
			}
			judge(c, text, plain(text), io.EOF)
		})

		r.Explore("digits", "long numbers: all of 1, 2, 20, 400 digits before and after the dot and in the exponent, each part optional, each leading digit 0 or 1", -1, func(c *mc.C) {
			ds := func(first string) string {
				return first + strings.Repeat("7", mc.Pick(c, []int{0, 1, 19, 399}))
			}
			s := mc.Pick(c, []string{"", "-"}) + ds(mc.Pick(c, []string{"0", "1"}))
			if c.Bool() {
				s += "." + ds("0")
			}
			if c.Bool() {
				s += mc.Pick(c, []string{"e", "E"}) + mc.Pick(c, []string{"", "+", "-"}) + ds(mc.Pick(c, []string{"0", "5"}))
			}
			text := "[" + s + mc.Pick(c, []string{"]", " ]", ",1]", "\n,2]", "true]", "a]", "\"\"]"})
			judge(c, text, plain(text), io.EOF)
		})

		r.Explore("words", "true, false, null, unchanged and with every single ASCII character inserted, deleted or replaced, before ] or , or the end", -1, func(c *mc.C) {
			w := mc.Pick(c, []string{"true", "false", "null"})
			switch c.Choose(4) {
			case 1:
				i := c.Choose(len(w))
				w = w[:i] + w[i+1:]
			case 2:
				i := c.Choose(len(w) + 1)
				w = w[:i] + string(rune(c.Choose(128))) + w[i:]
			case 3:
				i := c.Choose(len(w))
				w = w[:i] + string(rune(c.Choose(128))) + w[i+1:]
			}
			text := "[" + w + mc.Pick(c, []string{"]", ",1]", ""})
			judge(c, text, plain(text), io.EOF)
		})

		base := []rune(`{"a":[1,"b",true]}`)
		lim := r.Budget(0x300, 0x110000)
		bases := [][]rune{base, []rune(`[-12.5E+3,null,"\u00e9"]`)}
		var special []rune
		for ch := rune(lim); ch <= unicode.MaxRune; ch++ {
			switch {
			case unicode.In(ch, unicode.N, unicode.Z, unicode.Cf), ch >= 0xff00 && ch <= 0xffef, // digits, spaces, invisible, full width
				unicode.SimpleFold(ch) < 0x80, ch&0xfffe == 0xfffe, ch&0x7ff == 0 || ch&0x7ff == 0x7ff, ch == 0xfffd:
				if utf8.ValidRune(ch) {
					special = append(special, ch)
				}
			}
		}
		r.Explore("characters", fmt.Sprintf("every code point below %#x and %d others (all digits, spaces, invisible and full width characters, those around borders), inserted in and put in the place of every position of two documents", lim, len(special)), -1, func(c *mc.C) {
			k := c.Choose(lim + len(special))
			ch := rune(k)
			if k >= lim {
				ch = special[k-lim]
			} else if !utf8.ValidRune(ch) {
				c.Prune()
			}
			for _, base := range bases {
				for i := 0; i <= len(base); i++ {
					for l := 0; l <= 1 && i+l <= len(base); l++ {
						text := string(base[:i]) + string(ch) + string(base[i+l:])
						judge(c, text, plain(text), io.EOF)
					}
				}
			}
		})

		r.Explore("bytes", "every byte inserted in every position of a document: what is not UTF-8 is an error", -1, func(c *mc.C) {
			b := byte(c.Choose(128)) + 128
			i := c.Choose(len(base) + 1)
			text := string(base[:i]) + string([]byte{b}) + string(base[i:])
			v, err := parse.Parse(strings.NewReader(text))
			c.Op("%q", text)
			c.Check(err != nil, "accepted", "%q is not UTF-8, Parse returned %s", text, jsn.Value(v))
			_, ierr := iterate(c, text, parse.Iterate(strings.NewReader(text)))
			c.Check(ierr != iter.EOI, "accepted", "%q is not UTF-8, but Iterate accepts it", text)
		})

		tokens := []string{"{", "}", "[", "]", ":", ",", `"a"`, "1", "true", "nul", " ", "\n"}
		r.Explore("must", "all texts of up to 4 of 12 tokens: MustParse gives what Parse gives, or panics with its error", -1, func(c *mc.C) {
			text := ""
			for i := c.Choose(5); i > 0; i-- {
				text += mc.Pick(c, tokens)
			}
			var got json.Value
			v, err := parse.Parse(strings.NewReader(text))
			pv := mc.Try(func() { got = parse.MustParse(strings.NewReader(text)) })
			c.Op("%q", text)
			c.Ops(2)
			if err == nil {
				c.Check(pv == nil && jsn.Value(got) == jsn.Value(v), "must", "%q: MustParse gives %s, panics with %v, expected %s", text, jsn.Value(got), pv, jsn.Value(v))
				c.Check(apart(v, got), "shared", "%q: an object or array in the result is that of an earlier result, what is done to one changes the other", text)
			} else {
				perr, is := pv.(error)
				c.Check(is && perr.Error() == err.Error(), "must", "%q: MustParse gives %s, panics with %v, expected %v", text, jsn.Value(got), pv, err)
			}
		})

		r.Explore("space", "all ways to have nothing, one or two white space characters between the tokens of two documents (at most 3 places differ from nothing)", 3, func(c *mc.C) {
			var b strings.Builder
			for _, t := range mc.Pick(c, [][]string{{"", "{", `"a"`, ":", "[", "1", ",", "null", "]", ",", `"b"`, ":", "-1", "}"}, {"", "[", "{", "}", ",", "[", "]", ",", "2.5e1", ",", "false", "]"}}) {
				b.WriteString(t)
				b.WriteString([]string{"", " ", "\t", "\r", "\n", "\r\n", "  "}[c.Deviate(7)])
			}
			judge(c, b.String(), plain(b.String()), io.EOF)
		})

		docs := []string{`{"a":[1,"é\u00e9",{}],"b":null}`, ` [ 1.5e-3 , "\"x" , [] , {"k":false} ] `, `[]`, `{} `, `[-12,34,true]`, `{"a":1,}`, `[1,]`, `[01]`, `[1 2]`, `{"a" 1}`, `[tru]`, "[\"\x01\"]", `[1]x`, `{"a":1}]`, `[[1],[2,[3]],"4"]`, `["\uD834\uDD1E","\\"]`}
		dev := r.Budget(2, 3)
		r.Explore("reader", fmt.Sprintf("%d texts, all ways in which a reader can deliver them with at most %d short reads, empty reads, or an end that comes along with data, with Read alone or with other methods too", len(docs), dev), dev, func(c *mc.C) {
			text := mc.Pick(c, docs)
			judge(c, text, chosen(c, text, io.EOF), io.EOF)
		})

		r.Explore("failing-reader", fmt.Sprintf("the same texts, where the reader fails or ends after every number of bytes, with at most %d short reads, empty reads, or an end that comes along with data", dev-1), dev-1, func(c *mc.C) {
			text := mc.Pick(c, docs)
			k := c.Choose(len(text) + 1)
			if k < len(text) && text[k] >= 0x80 && text[k] < 0xc0 {
				c.Prune() // within a character
			}
			text = text[:k]
			end := mc.Pick(c, mc.Ends)
			judge(c, text, chosen(c, text, end), end)
		})

		long := r.Budget(65536, 262144)
		r.Explore("long", fmt.Sprintf("strings, keys, numbers, white space of all lengths up to 66 and around powers of two up to %d, arrays and objects up to %d, closed or not, delivered in reads of four sizes or with an empty read before each, 2 ends", long, long/16), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(long))
			rep := func(s string) string { return strings.Repeat(s, n) }
			var text string
			kind := c.Choose(6)
			if kind > 3 && n > long/16 {
				c.Prune()
			}
			switch kind {
			case 0:
				text = `["` + rep(mc.Pick(c, []string{"a", "é", "\U00010348", `\n`, `\u00e9`, `\ud834\udd1e`})) + `"]`
			case 1:
				text = `{"` + rep("k") + `":1,"` + rep("k") + `l":2}`
			case 2:
				text = "[1" + rep("0") + mc.Pick(c, []string{"", "." + rep("3"), "e" + rep("1")}) + "]"
			case 3:
				text = rep(mc.Pick(c, []string{" ", "\n", "\r\n"}))
				text = text + "[" + text + "1" + text + "]" + text
			case 4:
				text = "[" + rep(mc.Pick(c, []string{"1,", `"a",`, "[],", "{ } , "})) + mc.Pick(c, []string{"null]", "]", ",1]", "1,]", "1 2]", "1}", ":1]", "1]]"})
			case 5:
				var sb strings.Builder
				for i := 0; i < n; i++ {
					fmt.Fprintf(&sb, `"%d":%d,`, i, i)
				}
				text = "{" + sb.String() + mc.Pick(c, []string{`"":0}`, `"0":0}`, "}", `,"":0}`, `"":0,}`, `"" 0}`, `"":}`, `""}`, `1:0}`, `"":0]`, `"":0}}`})
			}
			if c.Bool() {
				text = text[:len(text)-1]
			}
			size, end, with := mc.Pick(c, []int{0, 1, 7, 4096, -7}), mc.Pick(c, []error{io.EOF, mc.ErrCustom}), c.Bool()
			judge(c, text, func() io.Reader { return &mc.Chunks{Data: []byte(text), Size: size, End: end, With: with} }, end)
		})

		r.Explore("depth", "arrays and objects nested 1 to 64, 1000 and 10000 deep, all closed, one not closed, one closed too often, one closed with the wrong one", -1, func(c *mc.C) {
			d := c.Choose(66) + 1
			if d > 64 {
				d = []int{1000, 10000}[d-65]
			}
			open, cl := "[", "]"
			if c.Bool() {
				open, cl = `{"a":`, "}"
			}
			in := "1"
			text := strings.Repeat(open, d) + in
			switch c.Choose(4) {
			case 0:
				text += strings.Repeat(cl, d)
			case 1:
				text += strings.Repeat(cl, d-1)
			case 2:
				text += strings.Repeat(cl, d+1)
			case 3:
				text += strings.Repeat(cl, d-1) + map[string]string{"]": "}", "}": "]"}[cl]
			}
			dd := jsn.Parse(text)
			v, err := parse.Parse(strings.NewReader(text))
			c.Op("depth %d: %v", d, dd.Kind)
			c.Check((err == nil) == (dd.Kind == jsn.OK), "depth", "nesting %d deep: expected %v, got %v", d, dd.Kind, err)
			if err == nil {
				c.Check(jsn.Value(v) == dd.Canon, "depth", "nesting %d deep: wrong value", d)
			}
		})
	})
}
