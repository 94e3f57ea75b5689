// Package uses has uses of all packages that share nothing but what is made once, for C27
package uses

import (
	"context"
	"errors"
	"fmt"
	goio "io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	goreflect "reflect"
	"strings"

	"github.com/bantling/micro/conv"
	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/encoding/json/write"
	"github.com/bantling/micro/event"
	"github.com/bantling/micro/funcs"
	"github.com/bantling/micro/io"
	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/math"
	"github.com/bantling/micro/reflect"
	"github.com/bantling/micro/rest"
	"github.com/bantling/micro/stream"
	"github.com/bantling/micro/tuple"
	"github.com/bantling/micro/union"
	ureflect "github.com/bantling/micro/union/reflect"
)

// Use is something to do, whose result does not depend on what else is done
type Use struct {
	Name  string
	Group string
	// Make makes what several may share, and gives a function that uses it. The function may be called any number of
	// times, and calls point at times when another use may go on. Variant v (0 or 1) says what data to use.
	Make func() func(v int, point func()) string
}

// source reads a text a few bytes at a time
type source struct {
	s     string
	n     int
	point func()
}

func (r *source) Read(p []byte) (int, error) {
	if r.s == "" {
		return 0, goio.EOF
	}
	n := r.n
	if n > len(r.s) {
		n = len(r.s)
	}
	n = copy(p, r.s[:n])
	r.s = r.s[n:]
	r.point()
	return n, nil
}

func parts(texts [2]string, v int, point func()) goio.Reader {
	return &source{texts[v], (len(texts[v]) + 3) / 4, point}
}

// sink writes to a buffer
type sink struct {
	strings.Builder
	point func()
}

func (w *sink) Write(p []byte) (int, error) {
	w.point()
	return w.Builder.Write(p)
}

// drain shows what an iterator delivers; each calls are points
func drain[T any](it iter.Iter[T], point func()) string {
	var b strings.Builder
	for i := 0; ; i++ {
		v, err := it.Next()
		if err != nil {
			fmt.Fprint(&b, err)
			return b.String()
		}
		fmt.Fprintf(&b, "%v,", v)
		if i%2 == 0 {
			point()
		}
	}
}

func try(f func() string) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = fmt.Sprint("panic ", p)
		}
	}()
	return f()
}

var numbers = [2][]int{{3, 1, 3}, {-2, 5, 7}}

// ints is a list whose elements come one at a time
func ints(v int, point func()) iter.Iter[int] {
	l, i := numbers[v], 0
	return iter.OfIter(func() (int, error) {
		if i == len(l) {
			return 0, iter.EOI
		}
		i++
		point()
		return l[i-1], nil
	})
}

func none() {}

// All are the uses
var All []Use

func use(group, name string, mk func() func(v int, point func()) string) {
	All = append(All, Use{name, group, mk})
}

// plain is a use that shares nothing
func plain(group, name string, run func(v int, point func()) string) {
	use(group, name, func() func(v int, point func()) string { return run })
}

// transform is a use that shares a transform. The transform has no functions of the user's own, or such without points.
func transform[U any](name string, mk func() func(iter.Iter[int]) iter.Iter[U]) {
	use("stream", name, func() func(v int, point func()) string {
		t := mk()
		return func(v int, point func()) string { return drain(t(ints(v, point)), none) }
	})
}

// steps calls functions one after the other
func steps(group, name string, mk func() []func(v int) string) {
	use(group, name, func() func(v int, point func()) string {
		fs := mk()
		return func(v int, point func()) string {
			var l []string
			for i, f := range fs {
				if i > 0 && i < 5 {
					point()
				}
				l = append(l, try(func() string { return f(v) }))
			}
			return strings.Join(l, ";")
		}
	})
}

var errOdd = errors.New("odd")

func init() {
	// ==== iter
	texts := [2]string{"aé€\U0001F600\n\r\nb", "x\r\ny,z\"\n"}
	csvs := [2]string{"a,\"b\nc\"\r\nd,e\n", "1,2,3\n\"4\",5,6"}
	plain("iter", "bytes", func(v int, p func()) string { return drain(iter.OfReader(parts(texts, v, p)), none) })
	plain("iter", "runes", func(v int, p func()) string { return drain(iter.OfReaderAsRunes(parts(texts, v, p)), none) })
	plain("iter", "lines", func(v int, p func()) string { return drain(iter.OfReaderAsLines(parts(texts, v, p)), none) })
	plain("iter", "csv", func(v int, p func()) string { return drain(iter.OfCSV(parts(csvs, v, p)), p) })
	plain("iter", "string-runes", func(v int, p func()) string { return drain(iter.OfStringAsRunes(texts[v]), p) })
	plain("iter", "string-lines", func(v int, p func()) string { return drain(iter.OfStringAsLines(texts[v]), p) })
	plain("iter", "slice", func(v int, p func()) string { return drain(iter.OfSlice(numbers[v]), p) })
	plain("iter", "map", func(v int, p func()) string { return drain(iter.OfMap(map[int]int{v: 1}), p) })
	plain("iter", "concat", func(v int, p func()) string {
		return drain(iter.Concat(ints(v, p), iter.OfEmpty[int](), iter.OfOne(v), iter.Of(1, v)), none)
	})
	plain("iter", "unread", func(v int, p func()) string {
		it := iter.SetError(ints(v, p), errOdd)
		it.Unread(9 + v)
		a := iter.Maybe(it).Get()
		it.Unread(a + 1)
		return drain(it, p)
	})
	plain("iter", "infinite", func(v int, p func()) string {
		next := iter.InfiniteIterGen(func(i int) int { p(); return i*2 + v }, 1, v)
		a, _ := next()
		b, _ := next()
		c, _ := next()
		d, _ := next()
		e, _ := next()
		return fmt.Sprint(a, b, c, d, e)
	})
	plain("iter", "fibonacci", func(v int, p func()) string {
		next, s := iter.FibonnaciIterGen(), ""
		for i := 0; i < 4+v; i++ {
			n, _ := next()
			s += fmt.Sprint(n, " ")
			if i < 4 {
				p()
			}
		}
		return s
	})
	// the same map and slice are read by both
	use("iter", "shared-slice-map", func() func(v int, p func()) string {
		l, m := []string{"a", "b", "c"}, map[string]int{"k": 1}
		return func(v int, p func()) string { return drain(iter.OfSlice(l), p) + drain(iter.OfMap(m), p) }
	})

	// ==== stream
	transform("Map", func() func(iter.Iter[int]) iter.Iter[string] {
		return stream.Map(func(i int) string { return fmt.Sprint(i) })
	})
	transform("MapError", func() func(iter.Iter[int]) iter.Iter[int] {
		return stream.MapError(func(i int) (int, error) {
			if i == 7 {
				return 0, errOdd
			}
			return i, nil
		})
	})
	transform("Filter", func() func(iter.Iter[int]) iter.Iter[int] { return stream.Filter(func(i int) bool { return i > 2 }) })
	transform("Reduce", func() func(iter.Iter[int]) iter.Iter[int] {
		return stream.Reduce(func(a, b int) int { return 10*a + b })
	})
	transform("Reduce-identity", func() func(iter.Iter[int]) iter.Iter[int] {
		return stream.Reduce(func(a, b int) int { return 10*a + b }, 4)
	})
	transform("ReduceTo", func() func(iter.Iter[int]) iter.Iter[string] {
		return stream.ReduceTo(func(a string, b int) string { return fmt.Sprint(a, b) }, "<")
	})
	transform("AllMatch", func() func(iter.Iter[int]) iter.Iter[bool] {
		return stream.AllMatch(func(i int) bool { return i > 0 })
	})
	transform("AnyMatch", func() func(iter.Iter[int]) iter.Iter[bool] {
		return stream.AnyMatch(func(i int) bool { return i == 1 })
	})
	transform("NoneMatch", func() func(iter.Iter[int]) iter.Iter[bool] {
		return stream.NoneMatch(func(i int) bool { return i == 7 })
	})
	transform("ReduceToSlice", func() func(iter.Iter[int]) iter.Iter[[]int] { return stream.ReduceToSlice[int] })
	plain("stream", "ReduceIntoSlice", func(v int, p func()) string {
		return drain(stream.ReduceIntoSlice(make([]int, 4))(ints(v, p)), none)
	})
	transform("ReduceToMap", func() func(iter.Iter[int]) iter.Iter[map[int]int] {
		pairs := stream.Map(func(i int) tuple.Two[int, int] { return tuple.Of2(i, -i) })
		return func(it iter.Iter[int]) iter.Iter[map[int]int] { return stream.ReduceToMap(pairs(it)) }
	})
	transform("ExpandSlices", func() func(iter.Iter[int]) iter.Iter[int] {
		m := stream.Map(func(i int) []int { return []int{i, i + 1} })
		return func(it iter.Iter[int]) iter.Iter[int] { return stream.ExpandSlices(m(it)) }
	})
	transform("ExpandMaps", func() func(iter.Iter[int]) iter.Iter[tuple.Two[int, int]] {
		m := stream.Map(func(i int) map[int]int { return map[int]int{i: i + 1} })
		return func(it iter.Iter[int]) iter.Iter[tuple.Two[int, int]] { return stream.ExpandMaps(m(it)) }
	})
	transform("Skip", func() func(iter.Iter[int]) iter.Iter[int] { return stream.Skip[int](2) })
	transform("Limit", func() func(iter.Iter[int]) iter.Iter[int] { return stream.Limit[int](2) })
	transform("Peek", func() func(iter.Iter[int]) iter.Iter[int] { return stream.Peek(func(int) {}) })
	// a generator says that it is not to be shared
	plain("stream", "Generator", func(v int, p func()) string {
		return drain(stream.Generator(func() func(iter.Iter[int]) iter.Iter[int] {
			sum := 0
			return stream.Map(func(i int) int { sum += i; return sum })
		})(ints(v, p)), none)
	})
	transform("Count", func() func(iter.Iter[int]) iter.Iter[int] { return stream.Count[int] })
	transform("Distinct", func() func(iter.Iter[int]) iter.Iter[int] { return stream.Distinct[int] })
	transform("Duplicate", func() func(iter.Iter[int]) iter.Iter[int] { return stream.Duplicate[int] })
	transform("Reverse", func() func(iter.Iter[int]) iter.Iter[int] { return stream.Reverse[int] })
	transform("SortOrdered", func() func(iter.Iter[int]) iter.Iter[int] { return stream.SortOrdered[int] })
	transform("SortBy", func() func(iter.Iter[int]) iter.Iter[int] {
		return stream.SortBy(func(a, b int) bool { return a > b })
	})
	transform("Abs", func() func(iter.Iter[int]) iter.Iter[int] { return stream.Abs[int] })
	transform("AvgInt", func() func(iter.Iter[int]) iter.Iter[int] { return stream.AvgInt[int] })
	transform("Max", func() func(iter.Iter[int]) iter.Iter[int] { return stream.Max[int] })
	transform("Min", func() func(iter.Iter[int]) iter.Iter[int] { return stream.Min[int] })
	transform("Sum", func() func(iter.Iter[int]) iter.Iter[int] { return stream.Sum[int] })
	bigs := stream.Map(func(i int) *big.Int { return big.NewInt(int64(i)) })
	rats := stream.Map(func(i int) *big.Rat { return big.NewRat(int64(i), 3) })
	transform("big-ints", func() func(iter.Iter[int]) iter.Iter[*big.Int] {
		return func(it iter.Iter[int]) iter.Iter[*big.Int] { return stream.SortCmp(stream.AbsBigOps(bigs(it))) }
	})
	transform("big-sum", func() func(iter.Iter[int]) iter.Iter[*big.Int] {
		return func(it iter.Iter[int]) iter.Iter[*big.Int] { return stream.SumBigOps(bigs(it)) }
	})
	transform("big-avg", func() func(iter.Iter[int]) iter.Iter[*big.Rat] {
		return func(it iter.Iter[int]) iter.Iter[*big.Rat] { return stream.AvgBigOps(rats(it)) }
	})
	transform("big-max", func() func(iter.Iter[int]) iter.Iter[*big.Int] {
		return func(it iter.Iter[int]) iter.Iter[*big.Int] { return stream.MaxCmp(bigs(it)) }
	})
	transform("composed", func() func(iter.Iter[int]) iter.Iter[[]string] {
		return funcs.Compose4(stream.Filter(func(i int) bool { return i != 1 }), stream.Skip[int](1), stream.Map(func(i int) string { return fmt.Sprint(i) }), stream.ReduceToSlice[string])
	})
	// the points are in the functions
	use("stream", "Map-points", func() func(v int, p func()) string {
		return func(v int, p func()) string {
			return drain(stream.Map(func(i int) int { p(); return i + 1 })(iter.OfSlice(numbers[v])), none)
		}
	})

	// ==== conversions and calculations
	steps("conv", "To", func() []func(int) string {
		return []func(int) string{
			func(v int) string { var o string; return fmt.Sprint(conv.To(float64(v)+0.25, &o), o) },
			func(v int) string { var o *big.Rat; return fmt.Sprint(conv.To(fmt.Sprint(v, "/3"), &o), o) },
			func(v int) string { var o int8; return fmt.Sprint(conv.To(127+v, &o), o) },
			func(v int) string { var o *big.Float; return fmt.Sprint(conv.To(big.NewInt(int64(v+5)), &o), o) },
			func(v int) string { var o *big.Int; return fmt.Sprint(conv.AnyTo(uint8(v+7), &o), o) },
			func(v int) string { var o *big.Int; return fmt.Sprint(conv.ToBigOps("12", &o), o) },
			func(v int) string {
				var o float32
				return fmt.Sprint(conv.ReflectTo(goreflect.ValueOf(v), goreflect.ValueOf(&o)), o)
			},
		}
	})
	steps("conv", "strings", func() []func(int) string {
		return []func(int) string{
			func(v int) string { return conv.IntToString(-v) + conv.UintToString(uint(v)) },
			func(v int) string { return conv.FloatToString(float32(v) + 0.1) },
			func(v int) string { return conv.BigRatToNormalizedString(big.NewRat(int64(v+1), 8)) },
			func(v int) string { return conv.BigFloatToString(big.NewFloat(float64(v) + 0.5)) },
		}
	})
	steps("math", "integers", func() []func(int) string {
		return []func(int) string{
			func(v int) string { x := int8(100); return fmt.Sprint(math.AddInt(int8(27+v), &x), x) },
			func(v int) string { x := uint8(3); return fmt.Sprint(math.SubUint(uint8(2+v), &x), x) },
			func(v int) string { x := int64(1) << 40; return fmt.Sprint(math.Mul(int64(1)<<(21+v*5), &x), x) },
			func(v int) string { var q int; return fmt.Sprint(math.Div(7, v, &q), q) },
			func(v int) string { x := -v; return fmt.Sprint(math.Abs(&x), x) },
			func(v int) string {
				q := new(big.Rat)
				return fmt.Sprint(math.DivBigOps(big.NewRat(int64(v), 3), big.NewRat(2, 7), &q), q)
			},
			func(v int) string { return fmt.Sprint(math.MaxCmp(big.NewInt(int64(v)), big.NewInt(1))) },
		}
	})
	use("math", "range", func() func(v int, p func()) string {
		r := math.OfRange(0, math.Closed, 5, math.Open, 1)
		return func(v int, p func()) string {
			mine := r
			var l []any
			for i := 0; i < 3; i++ {
				l = append(l, mine.SetValue(v*2+i*2), mine.GetValue())
				p()
			}
			return fmt.Sprint(l...)
		}
	})
	steps("math", "decimals", func() []func(int) string {
		a, b := math.MustStringToDecimal("12.50"), math.MustStringToDecimal("-0.125")
		c := []math.Decimal{math.MustStringToDecimal("3"), math.MustStringToDecimal("0.07")}
		return []func(int) string{
			func(v int) string { d, err := a.Add(c[v]); return fmt.Sprint(d, err) },
			func(v int) string { d, err := b.Mul(c[v]); return fmt.Sprint(d, err) },
			func(v int) string { d, err := a.Div(c[v]); return fmt.Sprint(d, err) },
			func(v int) string { d, err := a.DivIntAdd(uint(v + 3)); return fmt.Sprint(d, err) },
			func(v int) string { x, y := math.AdjustDecimalFormat(a, c[v]); return x + y },
			func(v int) string { x := a; x.Normalize(); return fmt.Sprint(x, a, a.Cmp(b)) },
			func(v int) string {
				d, err := math.StringToDecimal(fmt.Sprint("1.", v, "x"[:v]))
				return fmt.Sprint(d, err)
			},
		}
	})

	// ==== JSON
	docs := [2]string{`{"a":[1,"é\u0041",null],"b":{"c":-1.5e3}}`, `{"k":"v\n","a":[true,false]}`}
	arrays := [2]string{`[1,"é\u0041",{"b":null}]`, `["v\n",true,[-2]]`}
	show := func(j json.Value) string {
		w := &sink{point: none}
		write.MustWrite(j, writer.OfIOWriterAsRunes(w))
		return w.String()
	}
	plain("json", "Parse", func(v int, p func()) string {
		j, err := parse.Parse(parts(arrays, v, p))
		return fmt.Sprint(show(j), err)
	})
	plain("json", "Parse-object", func(v int, p func()) string {
		j, err := parse.Parse(parts(docs, v, p))
		return fmt.Sprint(len(j.AsMap()), show(j.AsMap()["a"]), err)
	})
	plain("json", "Parse-invalid", func(v int, p func()) string {
		_, err := parse.Parse(parts([2]string{`{"a":[1,2}`, `["abc`}, v, p))
		return fmt.Sprint(err)
	})
	plain("json", "Iterate", func(v int, p func()) string {
		it, s := parse.Iterate(parts(arrays, v, p)), ""
		for {
			j, err := it.Next()
			if err != nil {
				return s + fmt.Sprint(err)
			}
			s += show(j)
		}
	})
	use("json", "Write", func() func(v int, p func()) string {
		j := parse.MustParse(strings.NewReader(`["é\n",12]`))
		return func(v int, p func()) string {
			n := 0
			w := &sink{point: func() {
				if n++; n%4 == 0 {
					p()
				}
			}}
			err := write.Write(j, writer.OfIOWriterAsRunes(w))
			return fmt.Sprint(w.String(), err)
		}
	})
	use("json", "values", func() func(v int, p func()) string {
		j := parse.MustParse(strings.NewReader(docs[0]))
		return func(v int, p func()) string {
			s := show(j.AsMap()["a"])
			p()
			s += fmt.Sprint(j.ToMap())
			p()
			s += fmt.Sprint(j.AsMap()["a"].ToSlice())
			p()
			j2, err := json.ToValue(map[string]any{"x": []any{v, "s", nil}})
			return s + fmt.Sprint(j2.ToAny(), err)
		}
	})
	use("json", "ParsePath", func() func(v int, p func()) string {
		f, err := json.ParsePath(".a[1]")
		js := [2]json.Value{parse.MustParse(strings.NewReader(docs[0])), parse.MustParse(strings.NewReader(docs[1]))}
		return func(v int, p func()) string {
			var l []any
			for i := 0; i < 2; i++ {
				r, e := f(js[(v+i)%2])
				l = append(l, show(r), e, err)
				p()
				g, e := json.ParsePath([]string{".b.c", ".a[0]", ".a["}[v+i])
				if e == nil {
					r, e = g(js[0])
				}
				l = append(l, show(r), e)
				p()
			}
			return fmt.Sprint(l...)
		}
	})

	// ==== events
	use("event", "Send", func() func(v int, p func()) string {
		var reg event.Registry[int, *msg]
		for i := 0; i < 3; i++ {
			i := i
			reg.Register(i%2, event.ReceiverFunc[*msg](func(m *msg) *msg { m.point(); m.s += fmt.Sprint(i); return m }))
		}
		return func(v int, p func()) string { return reg.Send(&msg{fmt.Sprint(v), p}).s }
	})
	plain("event", "Register", func(v int, p func()) string {
		var reg event.Registry[int, string]
		for i := 0; i < 3; i++ {
			i := i
			reg.Register(v-i, event.ReceiverFunc[string](func(s string) string { return s + fmt.Sprint(v+i) }))
			p()
		}
		reg.RemoveId(v - 1)
		return reg.Send("s")
	})

	// ==== REST
	request := func(mux *rest.ServeMux, method, path string) string {
		rec := httptest.NewRecorder()
		mux.ServeHTTP(rec, &http.Request{Method: method, URL: &url.URL{Path: path}, Header: http.Header{}})
		return fmt.Sprint(rec.Code, rec.Body.String())
	}
	use("rest", "ServeHTTP", func() func(v int, p func()) string {
		mux := &rest.ServeMux{}
		mux.MustHandle("GET", "^/a/([^/]+)/(.*)$", rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, parts []string) {
			p, _ := r.Context().Value(key{}).(func())
			p()
			fmt.Fprint(w, parts)
			p()
			fmt.Fprint(w, parts)
		}))
		mux.MustHandle("GET", "^/b$", rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, parts []string) { fmt.Fprint(w, parts) }))
		return func(v int, p func()) string {
			rec := httptest.NewRecorder()
			req := (&http.Request{Method: "GET", URL: &url.URL{Path: fmt.Sprintf("/a/%d/x%d", v, v)}, Header: http.Header{}})
			req = req.WithContext(ctx{req.Context(), p})
			mux.ServeHTTP(rec, req)
			s := fmt.Sprint(rec.Code, rec.Body.String())
			p()
			s += request(mux, "GET", "/b")
			p()
			s += request(mux, "POST", "/b") + request(mux, "GET", fmt.Sprint("/", v))
			return s
		}
	})
	plain("rest", "Handle", func(v int, p func()) string {
		mux, s := &rest.ServeMux{}, ""
		for i := 0; i < 3; i++ {
			i := i
			err := mux.Handle("GET", []string{"^/a$", "(", "^/(.)$"}[(i+v)%3], rest.HandlerFunc(func(w http.ResponseWriter, r *http.Request, parts []string) { fmt.Fprint(w, i, parts) }))
			s += fmt.Sprint(err != nil)
			p()
		}
		return s + request(mux, "GET", "/a") + request(mux, "GET", "/b")
	})
	plain("rest", "content", func(v int, p func()) string {
		req := &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{"Content-Type": {[]string{"text/csv", "application/json"}[v]}}}
		if v == 0 {
			req.Body = goio.NopCloser(parts(csvs, v, p))
			return drain(rest.NegotiateCSVContent(req), p)
		}
		req.Body = goio.NopCloser(parts(arrays, v, p))
		it, s := rest.NegotiateJSONContent(req), ""
		for j, err := it.Next(); err == nil; j, err = it.Next() {
			s += show(j)
		}
		return s
	})

	// ==== writers
	plain("io", "writers", func(v int, p func()) string {
		w := &sink{point: p}
		writer.OfIOWriterAsBytes(w).Write('a', byte('0'+v))
		writer.OfIOWriterAsRunes(w).Write('é', rune('€'+v))
		writer.OfIOWriterAsStrings(w).Write("s", fmt.Sprint(v))
		return w.String()
	})
	plain("io", "lines", func(v int, p func()) string {
		w := &sink{point: p}
		writer.OfIOWriterAsLines(w).Write("l", fmt.Sprint(v), "m")
		return w.String()
	})
	plain("io", "collections", func(v int, p func()) string {
		var l []int
		m := map[int]int{}
		sw, mw := writer.OfSliceWriter(&l), writer.OfMapWriter(m)
		for i := v; i < v+3; i++ {
			sw.Write(i, i)
			mw.Write(tuple.Of2(i, v))
			p()
		}
		return fmt.Sprint(l, m)
	})
	plain("io", "errors", func(v int, p func()) string {
		w := io.NewErrorWriter(3+v, errOdd)
		r := io.NewErrorReader([]byte{1, byte(v), 3}, errOdd)
		var l []any
		for i := 0; i < 3; i++ {
			n, err := w.Write([]byte{byte(i), byte(v)})
			b := make([]byte, 2)
			k, err2 := r.Read(b)
			l = append(l, n, err, b, k, err2)
			p()
		}
		return fmt.Sprint(append(l, w.Output())...)
	})

	// ==== unions and tuples
	steps("union", "values", func() []func(int) string {
		a, m := union.Of2U[int, string]("u"), union.Of(5)
		return []func(int) string{
			func(v int) string { x := a; x.SetT(v); return fmt.Sprint(x, a) },
			func(v int) string { x := m; x.Set(v); x.SetEmpty(); return fmt.Sprint(x, m, x.OrElse(v)) },
			func(v int) string { return fmt.Sprint(a.T()) },
			func(v int) string { return fmt.Sprint(union.OfResultError(v, []error{nil, errOdd}[v])) },
			func(v int) string {
				x := m
				err := ureflect.SetMaybeValue(goreflect.ValueOf(&x), goreflect.ValueOf(v+8))
				return fmt.Sprint(x, err, ureflect.GetMaybeValue(goreflect.ValueOf(m)))
			},
			func(v int) string { return fmt.Sprint(tuple.Of4(v, "a", any(nil), 1.5), union.Of4W[int, int, int](v)) },
		}
	})

	// ==== funcs
	use("funcs", "predicates", func() func(v int, p func()) string {
		f := funcs.And(
			funcs.Or(func(n *num) bool { n.point(); return n.v == 3 }, func(n *num) bool { n.point(); return n.v > 4 }),
			funcs.Not(func(n *num) bool { n.point(); return n.v == 7 }))
		return func(v int, p func()) string {
			s := ""
			for _, i := range numbers[v][:2] {
				s += fmt.Sprint(f(&num{i, p}), " ")
			}
			return s
		}
	})
	steps("funcs", "comparisons", func() []func(int) string {
		in, lt, ge, pos := funcs.In(1, 2, 3), funcs.LessThan(1), funcs.GreaterThanEqual(1), funcs.IsPositive[int]()
		return []func(int) string{
			func(v int) string { return fmt.Sprint(in(v), in(v+3)) },
			func(v int) string { return fmt.Sprint(lt(v), ge(v)) },
			func(v int) string { return fmt.Sprint(pos(v), pos(v+1)) },
			func(v int) string { return fmt.Sprint(funcs.IsNil[*int]()(nil), funcs.Nillable(goreflect.TypeOf(v))) },
		}
	})
	use("funcs", "composed", func() func(v int, p func()) string {
		step := func(d int) func(*num) *num { return func(n *num) *num { n.point(); n.v = n.v*10 + d; return n } }
		f, g := funcs.Compose(step(1), step(2)), funcs.Compose3(step(3), step(4), func(n *num) int { return n.v })
		return func(v int, p func()) string { return fmt.Sprint(g(f(&num{v, p}))) }
	})
	plain("funcs", "slices", func(v int, p func()) string {
		l := funcs.SliceCopy(numbers[v])
		n := 0
		some := func() {
			if n++; n < 4 {
				p()
			}
		}
		a := funcs.SliceToMapBy(l, func(i int) string { some(); return fmt.Sprint(i) })
		b := funcs.SliceSortBy(funcs.SliceCopy(l), func(x, y int) bool { some(); return x < y })
		c := funcs.SliceFlatten[int]([][]int{l, {v}, nil, b})
		return fmt.Sprint(a, b, c, funcs.SliceRemove(l, 3, funcs.ALL), funcs.SliceReverse(l))
	})
	use("funcs", "shared-slices", func() func(v int, p func()) string {
		l, m := append(make([]int, 0, 8), 3, 1, 3, 2), map[int]string{1: "a", 0: "b"}
		return func(v int, p func()) string {
			a := fmt.Sprint(funcs.SliceCopy(l), funcs.SliceRemove(l, 3), funcs.SliceRemoveUncomparable(l, 3, funcs.ALL), len(funcs.SliceUniqueValues(l)))
			p()
			b := fmt.Sprint(funcs.SliceIndex(l, -1-v), funcs.SliceToMap(l), funcs.SliceFlatten[int]([][]int{l, l}))
			p()
			return a + b + fmt.Sprint(funcs.MapIndex(m, v), funcs.MapTest(m, v), funcs.MapSortOrdered(m), len(funcs.MapKeysToSlice(m)))
		}
	})
	plain("funcs", "tables", func(v int, p func()) string {
		var (
			t []tuple.Two[int, []string]
			m map[string]map[int][]int
		)
		for i := 0; i < 3; i++ {
			funcs.OrderedTuple2SliceAdd(&t, (v+i*2)%3, fmt.Sprint(i))
			funcs.Map2SliceAdd(&m, "k", i, v)
			p()
		}
		funcs.OrderedTuple2SliceRemoveValue(&t, v, "0")
		return fmt.Sprint(t, m)
	})
	plain("funcs", "TryTo", func(v int, p func()) string {
		s := ""
		p0 := try(func() string {
			funcs.TryTo(func() { p(); panic(fmt.Sprint("x", v)) }, func(e any) { p(); s += fmt.Sprint(e) }, func() { p(); s += "c" }, func() { s += "d" })
			return ""
		})
		return s + p0
	})
	plain("funcs", "supply", func(v int, p func()) string {
		f := funcs.SupplierCached(func() int { p(); return v + 1 })
		return fmt.Sprint(f(), f(), funcs.SupplierOf(v)(), funcs.TernaryResult(v == 0, func() int { p(); return 1 }, func() int { p(); return 2 }))
	})
	steps("funcs", "text", func() []func(int) string {
		return []func(int) string{
			func(v int) string { return funcs.SnakeToCamelCase([]string{"ab_cd_e", "x_yz"}[v]) },
			func(v int) string { return funcs.CamelCaseToSnakeCase([]string{"AbCdE", "XyzÜ"}[v]) },
			func(v int) string { x, err := funcs.AssertType[int]("m", []any{v, "s"}[v]); return fmt.Sprint(x, err) },
			func(v int) string { x, err := funcs.ConvertToSlice[int]("m", []any{v, 2}); return fmt.Sprint(x, err) },
			func(v int) string {
				x, err := funcs.ConvertToMap[string, int]("m", map[any]any{"k": v})
				return fmt.Sprint(x, err)
			},
		}
	})

	// ==== reflection
	steps("reflect", "types", func() []func(int) string {
		i := 5
		pi := &i
		typ := goreflect.TypeOf(struct{ A, B int }{})
		return []func(int) string{
			func(v int) string {
				return fmt.Sprint(reflect.DerefType(goreflect.TypeOf(&pi)), reflect.DerefValue(goreflect.ValueOf(&pi)), reflect.NumPointers(goreflect.TypeOf(&pi)))
			},
			func(v int) string {
				return fmt.Sprint(len(reflect.FieldsByName(typ)), reflect.GetFieldByName(typ, "AB"[v:v+1]).Name)
			},
			func(v int) string {
				type sub int
				return fmt.Sprint(reflect.TypeToBaseType(goreflect.TypeOf(sub(v))), reflect.ValueToBaseType(goreflect.ValueOf(sub(v))))
			},
			func(v int) string {
				x := v
				reflect.SetPointerValue(goreflect.ValueOf(&x), goreflect.ValueOf(v+1))
				return fmt.Sprint(x)
			},
			func(v int) string {
				return fmt.Sprint(reflect.IsBigPtr(goreflect.TypeOf(big.NewInt(1))), reflect.TypeAssert(goreflect.ValueOf(v), goreflect.TypeOf("")), reflect.IsNumeric(goreflect.TypeOf(v)))
			},
		}
	})
}

type msg struct {
	s     string
	point func()
}

type num struct {
	v     int
	point func()
}

type key struct{}

// ctx carries the points to a handler
type ctx struct {
	context.Context
	point func()
}

func (c ctx) Value(k any) any {
	if k == (key{}) {
		return c.point
	}
	return c.Context.Value(k)
}
