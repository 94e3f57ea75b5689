// C14: writing JSON
package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/encoding/json/write"
	"github.com/bantling/micro/io/writer"
	"verifmc/jsn"
	"verifmc/mc"
)

type tree struct {
	v     json.Value
	canon string
}

var pieces = []string{"a", `"`, `\`, "/", "\x00", "\x01", "\b", "\t", "\n", "\v", "\f", "\r", "\x1e", "\x1f", " ", "\x7f", "\u0080", "é", "\u2028", "\ud7ff", "\ue000", "\ufffd", "\uffff", "😀", "\U0010ffff", "u0041", "n", "<", "&"}

func str(c *mc.C, n int) string {
	s := ""
	for i := c.Choose(n + 1); i > 0; i-- {
		s += mc.Pick(c, pieces)
	}
	return s
}

func sv(s string) tree { return tree{json.StringToValue(s), jsn.String(s)} }

func num(s string) tree {
	return tree{json.MustNumberToValue(json.NumberString(s)), jsn.Number(s)}
}

var leaves = []tree{
	num("1"), sv("x"), {json.NullValue, "null"}, {json.TrueValue, "true"}, {json.FalseValue, "false"}, sv("\"\\\n"), num("-0.50E+02"),
}

// gen picks a value with at most *budget nodes
func gen(c *mc.C, budget *int, depth int) tree {
	*budget--
	k := 0
	if depth > 0 {
		k = c.Choose(3)
	}
	switch k {
	case 1:
		var l []json.Value
		var cl []string
		for *budget > 0 && c.Bool() {
			t := gen(c, budget, depth-1)
			l, cl = append(l, t.v), append(cl, t.canon)
		}
		return tree{json.MustSliceToValue(l), jsn.Array(cl)}
	case 2:
		m, cm := map[string]json.Value{}, map[string]string{}
		keys := []string{"k", "", "\"\t"}
		for *budget > 0 && len(m) < len(keys) && c.Bool() {
			k := keys[len(m)]
			t := gen(c, budget, depth-1)
			m[k], cm[k] = t.v, t.canon
		}
		return tree{json.MustMapToValue(m), jsn.Object(cm)}
	}
	return mc.Pick(c, leaves)
}

// judge writes the value within an array, as a document, and reads it
func judge(c *mc.C, t tree, which int) {
	var sb strings.Builder
	var dst = writer.OfIOWriterAsRunes(&sb)
	doc, canon := json.MustSliceToValue([]json.Value{t.v}), jsn.Array([]string{t.canon})
	var err error
	switch which {
	case 0:
		err = write.Write(doc, dst)
	case 1:
		err = write.WriteArray(doc, dst)
	case 2:
		write.MustWrite(doc, dst)
	case 3:
		write.MustWriteArray(doc, dst)
	case 4, 5, 6, 7:
		doc, canon = json.MustMapToValue(map[string]json.Value{"doc": t.v}), jsn.Object(map[string]string{"doc": t.canon})
		switch which {
		case 4:
			err = write.Write(doc, dst)
		case 5:
			err = write.WriteObject(doc, dst)
		case 6:
			write.MustWriteObject(doc, dst)
		default:
			write.MustWrite(doc, dst)
		}
	}
	c.Op("%s -> %q %v", canon, sb.String(), err)
	c.Check(err == nil, "error", "writing %s to a writer that does not fail: %v", canon, err)
	d := jsn.Parse(sb.String())
	c.Check(d.Kind == jsn.OK, "not-json", "writing %s: the text %q is not JSON (%v)", canon, sb.String(), d.Kind)
	c.Check(d.Canon == canon, "value", "writing %s: the text %q means %s", canon, sb.String(), d.Canon)
	v, err := parse.Parse(strings.NewReader(sb.String()))
	c.Check(err == nil && jsn.Value(v) == canon, "round-trip", "writing %s: the text %q is parsed as %s, %v", canon, sb.String(), jsn.Value(v), err)
	c.State(canon)
	c.Outcome(d.Canon)
	c.Ops(1)
}

// compatible reports if out can be the beginning of a text of v (whose objects have at most one key)
func compatible(full, out string) bool { return strings.HasPrefix(full, out) }

// ownWriter is a writer of runes of a type that micro does not know, that fails after a number of runes
type ownWriter struct {
	left, failed int
	got          []rune
}

func (w *ownWriter) Write(vals ...rune) error {
	for _, v := range vals {
		if w.left == 0 {
			w.failed++
			return mc.ErrCustom
		}
		w.left--
		w.got = append(w.got, v)
	}
	return nil
}

func main() {
	mc.Main("C14", "model_checking", []string{"strings are valid Unicode, values are not Invalid"}, func(r *mc.Run) {
		n := r.Budget(3, 4)
		r.Explore("strings", fmt.Sprintf("all strings of up to %d of %d characters and pieces, as a value and as a key", n, len(pieces)), -1, func(c *mc.C) {
			asKey := c.Bool()
			s := str(c, n)
			if !asKey {
				judge(c, sv(s), 0)
				return
			}
			judge(c, tree{json.MustMapToValue(map[string]json.Value{s: json.TrueValue}), jsn.Object(map[string]string{s: "true"})}, 0)
		})
		r.Explore("characters", "every Unicode scalar value below U+3000, and every one around the borders of UTF-8 and UTF-16", -1, func(c *mc.C) {
			sp := []rune{0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10fffe, 0x10ffff}
			k := c.Choose(0x3000 + len(sp))
			ch := rune(k)
			if k >= 0x3000 {
				ch = sp[k-0x3000]
			}
			if c.Bool() {
				judge(c, sv(string(ch)), 0)
				return
			}
			s := "x" + string(ch)
			judge(c, tree{json.MustMapToValue(map[string]json.Value{s: json.NullValue}), jsn.Object(map[string]string{s: "null"})}, 0)
		})
		nodes, depth := r.Budget(5, 6), 3
		r.Explore("trees", fmt.Sprintf("all values of up to %d nodes and %d levels, with %d kinds of leaves, up to 3 keys per object, through every writing function", nodes, depth, len(leaves)), -1, func(c *mc.C) {
			b := nodes
			judge(c, gen(c, &b, depth), c.Choose(8))
		})
		r.Explore("numbers", "numbers of all Go types at their limits, and number strings, keep their value when written", -1, func(c *mc.C) {
			v := mc.Pick(c, []any{int8(-128), uint8(255), int16(-32768), uint16(65535), int32(-1 << 31), uint32(1<<32 - 1), int64(-1 << 63), uint64(1<<64 - 1), 0, -1,
				float32(1.25), 1e300, 5e-324, -0.1, 1e21, 123456789.123456789})
			jv := json.MustSliceToValue([]any{v})
			txt := ""
			switch x := v.(type) {
			case float32:
				txt = fmt.Sprintf("%v", x)
			default:
				txt = fmt.Sprint(v)
			}
			judge(c, tree{jv.AsSlice()[0], jsn.Number(txt)}, c.Choose(8))
		})
		long := r.Budget(65536, 262144)
		r.Explore("long", fmt.Sprintf("strings, keys, numbers, arrays and objects of all lengths up to 66 and around powers of two up to %d, arrays and objects nested as deep (up to 1025)", long), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(long))
			k := c.Choose(7)
			var t tree
			switch k {
			case 0:
				t = sv(strings.Repeat(mc.Pick(c, pieces), n))
			case 1:
				s := strings.Repeat(mc.Pick(c, pieces), n)
				t = tree{json.MustMapToValue(map[string]json.Value{s: json.TrueValue}), jsn.Object(map[string]string{s: "true"})}
			case 2:
				t = num("-1" + strings.Repeat("2", n) + ".5" + strings.Repeat("0", n) + "e3")
			case 3:
				var l []json.Value
				var cl []string
				for i := 0; i < n; i++ {
					e := leaves[i%len(leaves)]
					l, cl = append(l, e.v), append(cl, e.canon)
				}
				t = tree{json.MustSliceToValue(l), jsn.Array(cl)}
			case 4:
				m, cm := map[string]json.Value{}, map[string]string{}
				for i := 0; i < n; i++ {
					e := leaves[i%len(leaves)]
					m[fmt.Sprint(i)], cm[fmt.Sprint(i)] = e.v, e.canon
				}
				t = tree{json.MustMapToValue(m), jsn.Object(cm)}
			default:
				if n > 1025 {
					c.Prune()
				}
				t = num("7")
				for i := 0; i < n; i++ {
					if k == 5 || i%2 == 0 {
						t = tree{json.MustSliceToValue([]json.Value{t.v}), jsn.Array([]string{t.canon})}
					} else {
						t = tree{json.MustMapToValue(map[string]json.Value{"k": t.v}), jsn.Object(map[string]string{"k": t.canon})}
					}
				}
			}
			judge(c, t, c.Choose(2)*4)
		})
		r.Explore("number-texts", "all number strings of up to 6 of - + . e E 0 1 9 that are numbers", -1, func(c *mc.C) {
			s := ""
			for i := 1 + c.Choose(6); i > 0; i-- {
				s += mc.Pick(c, []string{"0", "1", "9", "-", "+", ".", "e", "E"})
			}
			if strings.HasPrefix(jsn.Number(s), "<") {
				c.Prune()
			}
			judge(c, num(s), 0)
		})

		// an object with several keys has several texts, so here objects have one key
		one := func(k string, v any) map[string]any { return map[string]any{k: v} }
		docs := []any{[]any{}, map[string]any{}, []any{1, "é\"", one("k\n", []any{true, nil})}, one("a", one("b", []any{"😀", -1.5})), []any{[]any{[]any{}}, one("", "")}, "str\\ing", 12.5, nil, true}
		r.Explore("faults", "nine values, where the writer fails in every write, after every number of bytes of it, with Write alone or with other methods too", 1, func(c *mc.C) {
			src := mc.Pick(c, docs)
			jv := json.MustSliceToValue([]any{src}).AsSlice()[0]
			var sb strings.Builder
			c.Check(write.Write(jv, writer.OfIOWriterAsRunes(&sb)) == nil, "error", "%v cannot be written", src)
			w := &mc.Writer{C: c}
			var dst io.Writer = w
			if c.Bool() {
				dst = mc.RichWriter(w)
			}
			must := c.Bool()
			var err error
			if must {
				pv := mc.Try(func() { write.MustWrite(jv, writer.OfIOWriterAsRunes(dst)) })
				if pv != nil {
					var ok bool
					err, ok = pv.(error)
					c.Check(ok, "must", "MustWrite panics with %v", pv)
				}
			} else {
				err = write.Write(jv, writer.OfIOWriterAsRunes(dst))
			}
			c.Op("writing %q: %v after %q", sb.String(), err, w.Got)
			c.Check(err == w.Failed, "error-identity", "writing %s: the writer fails with %v, Write returns %v", sb.String(), w.Failed, err)
			c.Check(w.After == 0, "write-after-failure", "writing %s: %d more writes after the writer failed", sb.String(), w.After)
			c.Check(compatible(sb.String(), string(w.Got)), "prefix", "writing %s: %q was written before the failure", sb.String(), w.Got)
			if err == nil {
				c.Check(bytes.Equal(w.Got, []byte(sb.String())), "lost", "writing %s: only %q was written, without an error", sb.String(), w.Got)
			}
			c.State(fmt.Sprintf("%s %d %v", sb.String(), len(w.Got), err))
			c.Outcome(fmt.Sprintf("%q %v", w.Got, err))
		})
		r.Explore("own", "nine values, and a writer of a foreign type that fails after every number of runes, alone or along with others in a call, or never", -1, func(c *mc.C) {
			src := mc.Pick(c, docs)
			jv := json.MustSliceToValue([]any{src}).AsSlice()[0]
			var sb strings.Builder
			c.Check(write.Write(jv, writer.OfIOWriterAsRunes(&sb)) == nil, "error", "%v cannot be written", src)
			all := []rune(sb.String())
			w := &ownWriter{left: c.Choose(len(all) + 2)}
			err := write.Write(jv, w)
			c.Op("writing %q: %v after %q", sb.String(), err, string(w.got))
			var want error
			if w.failed > 0 {
				want = mc.ErrCustom
			}
			c.Check(err == want, "error-identity", "writing %s: the writer of runes fails with %v, Write returns %v", sb.String(), want, err)
			c.Check(w.failed < 2, "write-after-failure", "writing %s: more writes after the writer of runes failed", sb.String())
			c.Check(strings.HasPrefix(sb.String(), string(w.got)), "prefix", "writing %s: the writer of runes got %q", sb.String(), string(w.got))
			c.Check(err != nil || len(w.got) == len(all), "lost", "writing %s: the writer of runes only got %q, without an error", sb.String(), string(w.got))
			c.State(fmt.Sprint(sb.String(), len(w.got), err))
			c.Outcome(fmt.Sprintf("%q %v", string(w.got), err))
		})
	})
}
