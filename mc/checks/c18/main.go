// C18: request content is decoded by its declared type, or left alone
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/rest"
	"verifmc/jsn"
	"verifmc/mc"
)

func pack(s string, level int) []byte {
	var b bytes.Buffer
	w, _ := gzip.NewWriterLevel(&b, level)
	w.Write([]byte(s))
	w.Close()
	return b.Bytes()
}

// body counts what happens to it
type body struct {
	r      io.Reader
	reads  int
	closed int
}

func (b *body) Read(p []byte) (int, error) {
	b.reads++
	return b.r.Read(p)
}

func (b *body) Close() error { b.closed++; return nil }

func drain[T any](c *mc.C, it iter.Iter[T], show func(T) string) (l []string, err error) {
	for len(l) < 1_000_000 {
		v, e := it.Next()
		c.Ops(1)
		if e != nil {
			_, e2 := it.Next()
			c.Check(e2 != nil, "end", "the end %v is followed by a value", e)
			if e == iter.EOI {
				return l, nil
			}
			return l, e
		}
		l = append(l, show(v)) // the next row may use the same memory
	}
	c.Fail("endless", "the content never ends")
	return
}

// rowsOf is the reference: the rows of a document and whether it ends well
func rowsOf(doc string) (rows []string, ok bool) {
	r := csv.NewReader(strings.NewReader(doc))
	for {
		row, err := r.Read()
		if err == io.EOF {
			return rows, true
		}
		if err != nil {
			return rows, false
		}
		rows = append(rows, fmt.Sprintf("%q", row))
	}
}

// checkCSV compares the rows of a body; problem says that the body ends with an error, after the given document
func checkCSV(c *mc.C, it iter.Iter[[]string], doc string, problem error) {
	c.Check(it != nil, "refused", "CSV content is not recognized")
	l, err := drain(c, it, func(row []string) string { return fmt.Sprintf("%q", row) })
	want, ok := rowsOf(doc)
	c.Outcome(fmt.Sprint(l, err))
	if problem == nil {
		c.Check((err == nil) == ok && fmt.Sprint(l) == fmt.Sprint(want), "csv", "the rows of %q are %v, %v; expected %v", doc, l, err, want)
		return
	}
	c.Check(err != nil, "csv-problem", "the body fails with %v after %q, but the rows %v end well", problem, doc, l)
	c.Check(len(l) <= len(want), "csv", "the rows of %q are %v, expected at most %v", doc, l, want)
	for i := range l {
		c.Check(l[i] == want[i], "csv", "the rows of %q are %v, expected %v", doc, l, want)
	}
}

func checkJSON(c *mc.C, it iter.Iter[json.Value], doc string, problem error) {
	c.Check(it != nil, "refused", "JSON content is not recognized")
	l, err := drain(c, it, jsn.Value)
	c.Outcome(fmt.Sprint(l, err))
	ref := jsn.Parse(doc)
	var want []string
	if ref.IsArray {
		want = ref.Elems
	} else if ref.Kind == jsn.OK {
		want = []string{ref.Canon}
	}
	if ref.Kind == jsn.OK && problem == nil {
		c.Check(err == nil && fmt.Sprint(l) == fmt.Sprint(want), "json", "the values of %q are %v, %v; expected %v", doc, l, err, want)
		return
	}
	c.Check(err != nil, "json-problem", "%q followed by %v: the values %v end well", doc, problem, l)
	// the last one may be delivered before it is known that nothing valid follows
	c.Check(len(l) <= len(want)+1 && (ref.IsArray || len(l) == 0), "json", "the values of %q are %v, expected at most %v", doc, l, want)
	for i := range want {
		if i == len(l) {
			break
		}
		c.Check(l[i] == want[i], "json", "the values of %q are %v, expected %v", doc, l, want)
	}
}

var csvDocs = []string{"", "a", "a,b\n", "a,b\nc,d", "\"a\nb\",c\r\nd,\"e\"\"f\"\r\n", "a,b\nc\n", "\"a", "é,日\n,\n", "a\"b\n"}
var jsonDocs = []string{"[]", "{}", "[1]", `[1,"a",{"b":[true,null]}]`, `{"é":"\u0041","n":-1.5e3}`, "[1,]", "[1", `{"a":`, "", " ", "5", "[1]]", `[{"a":1}, [2]]`}

// mediaTypes: exactly the type, the type with something (either answer is fine), something else
var contentTypes = []struct{ v, kind string }{
	{"", "none"}, {"text/csv", "csv"}, {"application/json", "json"}, {"text/plain", "none"}, {"text/csvx", "none"}, {"xtext/csv", "none"},
	{"application/jsonl", "none"}, {"application/json-seq", "none"}, {"application/xml", "none"}, {"text/json", "none"}, {"application/csv", "none"}, {"gzip", "none"}, {"json", "none"}, {"csv", "none"},
	{"text", "none"}, {"application", "none"}, {"application/", "none"}, {"text/", "none"},
	{"text/csv; charset=utf-8", "csv?"}, {"application/json; charset=utf-8", "json?"}, {"Application/JSON", "json?"}, {"TEXT/CSV", "csv?"}, {" application/json", "json?"}, {"text/csv,application/json", "any"},
}

var encodings = []struct {
	v    string
	gzip bool
	any  bool
}{{"", false, false}, {"gzip", true, false}, {"deflate", false, false}, {"identity", false, false}, {"gzipx", false, false}, {"xgzip", false, false}, {"x-gzip", false, true}, {"br", false, false}, {"*", false, true},
	{"gzip, deflate", false, true}, {"gzip;q=0", false, true}, {"GZIP", false, true}, {"zip", false, false}, {"application/json", false, false}}

func request(method string, b io.ReadCloser) *http.Request {
	return &http.Request{Method: method, Header: http.Header{}, Body: b}
}

var errBody = errors.New("the connection broke")

func main() {
	mc.Main("C18", "model_checking", []string{
		"a content type with parameters or in another case, and a list of encodings, may be recognized or not",
		"a corrupt gzip header may be reported by a panic, as the function has no error result",
	}, func(r *mc.Run) {
		r.Explore("content-type", "24 content types x CSV and JSON documents x whether another header has a value", -1, func(c *mc.C) {
			ct := mc.Pick(c, contentTypes)
			isCSV := c.Bool()
			var doc string
			if isCSV {
				doc = mc.Pick(c, csvDocs)
			} else {
				doc = mc.Pick(c, jsonDocs)
			}
			b := &body{r: strings.NewReader(doc)}
			req := request(mc.Pick(c, []string{"GET", "POST"}), b)
			req.ContentLength = mc.Pick(c, []int64{int64(len(doc)), -1})
			if doc == "" && c.Bool() {
				req.Body = http.NoBody
			}
			with := req.Body
			switch c.Choose(4) {
			case 0:
				if ct.v != "" {
					req.Header.Set("Content-Type", ct.v)
				}
			case 1:
				req.Header.Set("content-type", ct.v)
				req.Header.Set("Accept", "text/csv")
				req.Header.Set("Content-Encoding", "application/json")
			case 2:
				req.Header.Set("CONTENT-TYPE", ct.v)
				req.Header.Add("Content-Type", "text/plain")
				req.Header.Set("Accept-Encoding", "gzip")
			default:
				if ct.v != "" {
					c.Prune()
				}
				req.Header = nil
			}
			c.Op("Content-Type %q, document %q", ct.v, doc)
			c.State(fmt.Sprint(ct, doc))
			if isCSV {
				it := rest.NegotiateCSVContent(req)
				c.Outcome(fmt.Sprint(it == nil))
				switch {
				case ct.kind == "csv" || (ct.kind == "csv?" || ct.kind == "any") && it != nil:
					checkCSV(c, it, doc, nil)
				case ct.kind == "csv?" || ct.kind == "any":
				default:
					c.Check(it == nil, "mistaken", "content type %q is taken for CSV", ct.v)
					c.Check(b.reads == 0 && b.closed == 0, "touched", "content type %q: the body is read %d times, closed %d times", ct.v, b.reads, b.closed)
				}
			} else {
				it := rest.NegotiateJSONContent(req)
				c.Outcome(fmt.Sprint(it == nil))
				switch {
				case ct.kind == "json" || (ct.kind == "json?" || ct.kind == "any") && it != nil:
					checkJSON(c, it, doc, nil)
				case ct.kind == "json?" || ct.kind == "any":
				default:
					c.Check(it == nil, "mistaken", "content type %q is taken for JSON", ct.v)
					c.Check(b.reads == 0 && b.closed == 0, "touched", "content type %q: the body is read %d times, closed %d times", ct.v, b.reads, b.closed)
				}
			}
			c.Check(req.Body == with, "touched", "the body of the request is replaced")
		})
		big := strings.Repeat("The quick brown fox. ", 4000)
		texts := []string{"", "a", "foobar", "foobar foobar foobar foobar", "\x1f\x8b\x08", big}
		r.Explore("encoding", "14 encodings x plain and compressed bodies", -1, func(c *mc.C) {
			e := mc.Pick(c, encodings)
			text := mc.Pick(c, texts)
			level := mc.Pick(c, []int{gzip.NoCompression, gzip.BestSpeed, gzip.BestCompression, gzip.HuffmanOnly, 100, 101})
			data := []byte(text)
			packed := level != 100
			switch level {
			case 100:
			case 101: // two members
				data = append(pack(text, 6), pack("xyz", 6)...)
				text += "xyz"
			default:
				data = pack(text, level)
			}
			b := &body{r: bytes.NewReader(data)}
			req := request("POST", b)
			switch c.Choose(3) {
			case 0:
				if e.v != "" {
					req.Header.Set("Accept-Encoding", e.v)
				}
			case 1:
				req.Header.Set("accept-encoding", e.v)
				req.Header.Add("accept-encoding", "br")
				req.Header.Set("Content-Type", "gzip")
			default:
				if e.v != "" {
					c.Prune()
				}
				req.Header = nil
			}
			c.Op("Accept-Encoding %q, packed %v", e.v, packed)
			c.State(fmt.Sprint(e, text, level))
			var rd io.Reader
			p := mc.Try(func() { rd = rest.AcceptGzip(req) })
			if e.any && (p != nil || rd != io.Reader(b)) {
				// recognized
				e.gzip = true
			}
			if !e.gzip {
				c.Check(p == nil && rd == io.Reader(b) && b.reads == 0 && b.closed == 0, "touched", "encoding %q: the body is not left alone (panic %v, %d reads)", e.v, p, b.reads)
				return
			}
			if packed {
				c.Check(p == nil && rd != nil, "gzip", "encoding %q: a compressed body is refused with %v", e.v, p)
				got, err := io.ReadAll(rd)
				c.Check(err == nil && string(got) == text, "gzip", "encoding %q: %d bytes of content, %v, expected %d", e.v, len(got), err, len(text))
				c.Outcome(string(got))
				return
			}
			if p == nil {
				got, err := io.ReadAll(rd)
				c.Check(err != nil, "gzip", "encoding %q: what is not compressed gives %q", e.v, got)
			}
		})
		corpus := [][]byte{pack("", 6), pack("a", 6), pack("foobar foobar foobar foobar", 9), pack("stored", 0), append(pack("ab", 6), pack("cd", 6)...)}
		plain := []string{"", "a", "foobar foobar foobar foobar", "stored", "abcd"}
		r.Explore("corrupt", "compressed bodies cut at every position, or with every byte changed to any of 8 others, or with something behind them: an error, or all of the content", -1, func(c *mc.C) {
			k := c.Choose(len(corpus))
			data := append([]byte{}, corpus[k]...)
			what := c.Choose(3)
			i := c.Choose(len(data))
			switch what {
			case 0:
				data = data[:i]
			case 1:
				data[i] ^= 1 << c.Choose(8)
			default:
				if i > 3 {
					c.Prune()
				}
				data = append(data, []byte("garbage")[:i+1]...)
			}
			req := request("POST", &body{r: bytes.NewReader(data)})
			req.Header.Set("Accept-Encoding", "gzip")
			var got []byte
			var err error
			p := mc.Try(func() { got, err = io.ReadAll(rest.AcceptGzip(req)) })
			c.Op("change %d at %d of %d: %q %v %v", what, i, len(data), got, err, p)
			c.Outcome(fmt.Sprint(string(got), err, p))
			if p != nil {
				return
			}
			full := plain[k]
			if err == nil {
				// cutting between two members gives the first one
				c.Check(string(got) == full || k == 4 && what == 0 && string(got) == "ab", "corrupt", "a damaged body gives %q, expected an error or %q", got, full)
			}
			if what == 0 || what == 2 {
				c.Check(strings.HasPrefix(full, string(got)), "corrupt", "a cut body gives %q, expected a part of %q", got, full)
				c.Check(err != nil || k == 4 && what == 0 && string(got) == "ab", "truncated", "a damaged body (%d at %d) gives %q without an error", what, i, got)
			}
		})
		long := r.Budget(65536, 262144)
		r.Explore("long", fmt.Sprintf("plain and compressed bodies of all lengths up to 66 and around powers of two up to %d, as text, CSV, and JSON, delivered in reads of four sizes or with an empty read before each, 2 ends", long), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(long))
			packed, kind := c.Bool(), c.Choose(3)
			doc := strings.Repeat("x", n)
			switch kind {
			case 1:
				doc = mc.Pick(c, []string{"a,b\n", "\"a\n\"\"\",b\r\n", "é"})
				doc = strings.Repeat(doc, n/len(doc)+1)
			case 2:
				doc = "[" + strings.Repeat("1,", n/2) + "\"" + strings.Repeat("x", n%7) + "\"]"
			}
			data := doc
			if packed {
				data = string(pack(doc, mc.Pick(c, []int{0, 6})))
			}
			src := mc.NewChunks(c, data, io.EOF, errBody)
			b := &body{r: src}
			req := request("POST", b)
			c.Op("kind %d, %d bytes of content", kind, len(doc))
			if packed {
				req.Header.Set("Accept-Encoding", "gzip")
				rd := rest.AcceptGzip(req)
				if kind == 0 {
					got, err := io.ReadAll(rd)
					c.Check(string(got) == doc, "gzip", "%d bytes of content, expected %d; %v", len(got), len(doc), err)
					c.Check((err == nil) == (src.End == io.EOF), "gzip-problem", "the body ends with %v, its content with %v", src.End, err)
					return
				}
				req.Body = io.NopCloser(rd)
			}
			problem := src.End
			if problem == io.EOF {
				problem = nil
			}
			switch kind {
			case 0:
				c.Check(rest.AcceptGzip(req) == io.Reader(b), "touched", "the body is not left alone")
			case 1:
				req.Header.Set("Content-Type", "text/csv")
				checkCSV(c, rest.NegotiateCSVContent(req), doc, problem)
			case 2:
				req.Header.Set("Content-Type", "application/json")
				checkJSON(c, rest.NegotiateJSONContent(req), doc, problem)
			}
		})
		d := r.Budget(2, 3)
		r.Explore("reads", fmt.Sprintf("compressed and plain CSV and JSON bodies that end well, or break after any number of bytes, up to %d deviating reads, read to the end, with Read alone or with other methods too", d), d, func(c *mc.C) {
			isCSV, packed := c.Bool(), c.Bool()
			var doc string
			if isCSV {
				doc = csvDocs[3+c.Choose(3)]
			} else {
				doc = jsonDocs[3+c.Choose(3)]
			}
			data := []byte(doc)
			if packed {
				data = pack(doc, 6)
			}
			cut := c.Choose(len(data) + 1)
			end := mc.Pick(c, []error{errBody, mc.ErrWrapsEOF})
			if cut == len(data) && c.Bool() {
				end = io.EOF
			}
			c.Op("document %q, packed %v, %d of %d bytes, then %v", doc, packed, cut, len(data), end)
			c.State(fmt.Sprint(doc, packed, cut, end))
			var br io.ReadCloser = &mc.CloseReader{Reader: mc.Reader{C: c, Data: data[:cut], End: end}}
			if c.Bool() {
				br = mc.RichReader(br).(io.ReadCloser)
			}
			req := request("POST", br)
			ct := "application/json"
			if isCSV {
				ct = "text/csv"
			}
			req.Header.Set("Content-Type", ct)
			if packed {
				req.Header.Set("Accept-Encoding", "gzip")
			}
			var rd io.Reader
			if p := mc.Try(func() { rd = rest.AcceptGzip(req) }); p != nil {
				if _, isa := p.(error); !isa || cut == len(data) && end == io.EOF {
					c.Fail("gzip", "a compressed body is refused with %v", p)
				}
				return
			}
			problem := error(nil)
			have := doc
			if end != io.EOF {
				problem = end
				if !packed {
					have = doc[:cut]
				}
			}
			if packed {
				req.Body = io.NopCloser(rd)
				if end != io.EOF && cut == len(data) {
					// everything is there, the reader of compressed data looks for another member, and finds the problem
					problem = end
				}
			}
			if isCSV {
				checkCSV(c, rest.NegotiateCSVContent(req), have, problem)
			} else {
				checkJSON(c, rest.NegotiateJSONContent(req), have, problem)
			}
		})
	})
}
