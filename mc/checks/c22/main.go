// C22: functions are combined, tried, cached and supplied exactly as documented
package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"strings"
	"unicode"

	"github.com/bantling/micro/funcs"
	"verifmc/mc"
)

// ==== composition

type (
	t0  []int
	t1  []int
	t2  []int
	t3  []int
	t4  []int
	t5  []int
	t6  []int
	t7  []int
	t8  []int
	t9  []int
	t10 []int
)

// steps makes functions that record that they were called
type steps struct {
	log     []int
	panicAt int
	value   any
}

func step[P, Q ~[]int](s *steps, i int) func(P) Q {
	return func(p P) Q {
		s.log = append(s.log, i)
		if s.panicAt == i {
			panic(s.value)
		}
		return append(append(Q(nil), p...), i)
	}
}

func composed(s *steps, n int) func() []int {
	var (
		f0 = step[t0, t1](s, 0)
		f1 = step[t1, t2](s, 1)
		f2 = step[t2, t3](s, 2)
		f3 = step[t3, t4](s, 3)
		f4 = step[t4, t5](s, 4)
		f5 = step[t5, t6](s, 5)
		f6 = step[t6, t7](s, 6)
		f7 = step[t7, t8](s, 7)
		f8 = step[t8, t9](s, 8)
		f9 = step[t9, t10](s, 9)
		in = t0{-1}
	)
	switch n {
	case 2:
		f := funcs.Compose2(f0, f1)
		return func() []int { return f(in) }
	case 3:
		f := funcs.Compose3(f0, f1, f2)
		return func() []int { return f(in) }
	case 4:
		f := funcs.Compose4(f0, f1, f2, f3)
		return func() []int { return f(in) }
	case 5:
		f := funcs.Compose5(f0, f1, f2, f3, f4)
		return func() []int { return f(in) }
	case 6:
		f := funcs.Compose6(f0, f1, f2, f3, f4, f5)
		return func() []int { return f(in) }
	case 7:
		f := funcs.Compose7(f0, f1, f2, f3, f4, f5, f6)
		return func() []int { return f(in) }
	case 8:
		f := funcs.Compose8(f0, f1, f2, f3, f4, f5, f6, f7)
		return func() []int { return f(in) }
	case 9:
		f := funcs.Compose9(f0, f1, f2, f3, f4, f5, f6, f7, f8)
		return func() []int { return f(in) }
	}
	f := funcs.Compose10(f0, f1, f2, f3, f4, f5, f6, f7, f8, f9)
	return func() []int { return f(in) }
}

// expectCall calls f and checks what it returns or panics with
func (s *steps) expectCall(c *mc.C, n int, f func() []int) {
	var res []int
	s.log = nil
	p := mc.Try(func() { res = f() })
	want := []int{}
	for i := 0; i < n; i++ {
		want = append(want, i)
		if i == s.panicAt {
			break
		}
	}
	c.Check(fmt.Sprint(s.log) == fmt.Sprint(want), "order", "the functions called are %v, expected %v", s.log, want)
	if s.panicAt >= 0 && s.panicAt < n {
		c.Check(p == s.value, "panic", "function %d panics with %v, the composed function with %v", s.panicAt, s.value, p)
		return
	}
	c.Check(p == nil && fmt.Sprint(res) == fmt.Sprint(append([]int{-1}, want...)), "result", "%d functions composed give %v, panic %v", n, res, p)
}

// ==== trying

type custom struct{ a, b int }

// fault is a way for a function to end
type fault struct {
	name  string
	f     func()
	value func(v any) bool
}

var (
	errTry = errors.New("try")
	// errors that wrap others: nothing but the very same is handed on
	errWrap  = fmt.Errorf("wrapped: %w", errTry)
	errWraps = fmt.Errorf("wrapped: %w, %w", errTry, io.EOF)
	errTwice = fmt.Errorf("again: %w", errWrap)
	nilErr   *custom
	aPtr     = &custom{}
	faults   = []fault{
		{"returns", func() {}, nil},
		{"panics with an error", func() { panic(errTry) }, func(v any) bool { return v == errTry }},
		{"panics with a string", func() { panic("s") }, func(v any) bool { return v == "s" }},
		{"panics with an empty string", func() { panic("") }, func(v any) bool { return v == "" }},
		{"panics with 0", func() { panic(0) }, func(v any) bool { return v == 0 }},
		{"panics with false", func() { panic(false) }, func(v any) bool { return v == false }},
		{"panics with a struct", func() { panic(custom{1, 2}) }, func(v any) bool { return v == custom{1, 2} }},
		{"panics with a pointer", func() { panic(aPtr) }, func(v any) bool { return v == aPtr }},
		{"panics with a nil pointer", func() { panic(nilErr) }, func(v any) bool { return v == nilErr }},
		{"panics with nil", func() { panic(nil) }, isA[*runtime.PanicNilError]},
		{"indexes out of range", func() { _ = []int{}[len(faultNames)-len(faultNames)] }, isA[runtime.Error]},
		{"uses a nil pointer", func() { nilErr.a++ }, isA[runtime.Error]},
		{"writes to a nil map", func() { map[string]int(nil)["a"] = 1 }, isA[runtime.Error]},
		{"panics with an error that wraps another", func() { panic(errWrap) }, func(v any) bool { return v == errWrap }},
		{"panics with an error that wraps two", func() { panic(errWraps) }, func(v any) bool { return v == errWraps }},
		{"panics with an error that wraps one that wraps one", func() { panic(errTwice) }, func(v any) bool { return v == errTwice }},
	}
	faultNames = []string{}
)

func isA[T any](v any) bool { _, is := v.(T); return is }

const exits = "exits the goroutine"

// tried is the tree of calls of one TryTo
type tried struct {
	fault   int // -1: exits
	closers []int
	catch   int // how panicFn ends
	inner   *tried
}

func (t *tried) String() string {
	s := "TryTo("
	if t.inner != nil {
		s += t.inner.String() + " then "
	}
	if t.fault < 0 {
		s += exits
	} else {
		s += faults[t.fault].name
	}
	for _, cl := range t.closers {
		s += ", closer " + faults[cl].name
	}
	return s + ", catch " + faults[t.catch].name + ")"
}

// run runs the real thing
func (t *tried) run(log *[]string, path string) {
	var closers []func()
	for i, cl := range t.closers {
		closers = append(closers, func() {
			*log = append(*log, fmt.Sprint(path, "closer", i))
			faults[cl].f()
		})
	}
	funcs.TryTo(
		func() {
			*log = append(*log, path+"try")
			if t.inner != nil {
				t.inner.run(log, path+"inner.")
			}
			if t.fault < 0 {
				runtime.Goexit()
			}
			faults[t.fault].f()
		},
		func(v any) {
			*log = append(*log, path+"catch "+describe(v))
			faults[t.catch].f()
		},
		closers...,
	)
	*log = append(*log, path+"after")
}

func describe(v any) string {
	if v == nil {
		return "nil"
	}
	for _, f := range faults {
		if f.value != nil && f.value(v) {
			if isA[runtime.Error](v) {
				return fmt.Sprint(reflect.TypeOf(v), v)
			}
			return fmt.Sprint(reflect.TypeOf(v), f.name)
		}
	}
	return fmt.Sprint("unknown ", v)
}

// model is what is expected: the way it ends is nil (returns), a fault, or exits
func (t *tried) model(log *[]string, path string) (panics int, exit bool) {
	*log = append(*log, path+"try")
	if t.inner != nil {
		if panics, exit = t.inner.model(log, path+"inner."); panics == 0 && !exit {
			*log = append(*log, path+"inner.after")
		}
	}
	if panics == 0 && !exit {
		if t.fault < 0 {
			exit = true
		} else {
			panics = t.fault
		}
	}
	for i := len(t.closers) - 1; i >= 0; i-- {
		*log = append(*log, fmt.Sprint(path, "closer", i))
		if t.closers[i] > 0 {
			panics = t.closers[i]
		}
	}
	if panics > 0 {
		*log = append(*log, path+"catch "+describe(panicOf(panics)))
		panics = t.catch
	}
	return
}

func panicOf(f int) any { return mc.Try(faults[f].f) }

func main() {
	mc.Main("C22", "bounded exhaustive", nil, func(r *mc.Run) {
		r.Explore("compose", "2 to 10 functions of different types, each one panicking in turn or none, composed twice, called three times", -1, func(c *mc.C) {
			n := c.Choose(9) + 2
			s := &steps{panicAt: -1}
			f := composed(s, n)
			c.Check(len(s.log) == 0, "order", "composing calls the functions")
			s.expectCall(c, n, f)
			s.panicAt, s.value = c.Choose(n+1)-1, mc.Pick(c, []any{errTry, "text", 0})
			s.expectCall(c, n, f)
			s.panicAt = -1
			s.expectCall(c, n, f)
			c.Outcome(fmt.Sprint(n, s.log))
		})
		r.Explore("compose-same", "1 to 6 functions of the same type, the same one several times, each one panicking in turn or none", -1, func(c *mc.C) {
			n := c.Choose(6) + 1
			s := &steps{panicAt: -1}
			var fns []func([]int) []int
			for i := 1; i < n; i++ {
				fns = append(fns, step[[]int, []int](s, i))
			}
			f := funcs.Compose(step[[]int, []int](s, 0), fns...)
			call := func() []int { return f([]int{-1}) }
			s.expectCall(c, n, call)
			s.panicAt, s.value = c.Choose(n+1)-1, any(errTry)
			s.expectCall(c, n, call)
			s.panicAt = -1
			s.expectCall(c, n, call)
			// numbers: any sequence of functions
			var (
				unary = []func(float64) float64{func(f float64) float64 { return f + 1 }, func(f float64) float64 { return f * 3 }, math.Abs, func(f float64) float64 { return -f }}
				names []func(float64) float64
				x     = -2.0
				want  = x
			)
			for i := 0; i < n; i++ {
				u := mc.Pick(c, unary)
				want = u(want)
				names = append(names, u)
			}
			got := funcs.Compose(names[0], names[1:]...)(x)
			c.Check(got == want, "result", "%d functions composed give %v, expected %v", n, got, want)
			c.Outcome(fmt.Sprint(n, got))
		})

		// ==== trying

		nc, short := r.Budget(4, 7), []int{0, 1, 3}
		r.Explore("try", fmt.Sprintf("every way for the function to end, up to %d closers that each end three ways, and four ways for the handler", nc), -1, func(c *mc.C) {
			t := &tried{fault: c.Choose(len(faults)+1) - 1}
			for i := c.Choose(nc + 1); i > 0; i-- {
				t.closers = append(t.closers, mc.Pick(c, short))
			}
			t.catch = mc.Pick(c, []int{0, 2, 6, 11, 13})
			checkTry(c, t)
		})
		r.Explore("try-closers", "up to 2 closers that end every way", -1, func(c *mc.C) {
			t := &tried{fault: mc.Pick(c, []int{-1, 0, 1, 10})}
			for i := c.Choose(3); i > 0; i-- {
				t.closers = append(t.closers, c.Choose(len(faults)))
			}
			checkTry(c, t)
		})
		many := r.Budget(300, 1100)
		r.Explore("many", fmt.Sprintf("%d, and around the powers of two up to that, functions composed and closers, one of them panicking or none", many), -1, func(c *mc.C) {
			sizes := append(mc.Lengths(many), many)
			n := mc.Pick(c, sizes)
			at := mc.Pick(c, []int{-1, 0, n / 2, n - 1})
			t := &tried{fault: mc.Pick(c, []int{0, 1})}
			for i := 0; i < n; i++ {
				t.closers = append(t.closers, 0)
			}
			if at >= 0 && at < n {
				t.closers[at] = 3
			}
			checkTry(c, t)
			if n == 0 {
				return
			}
			s := &steps{panicAt: at, value: errTry}
			var fns []func([]int) []int
			for i := 1; i < n; i++ {
				fns = append(fns, step[[]int, []int](s, i))
			}
			f := funcs.Compose(step[[]int, []int](s, 0), fns...)
			s.expectCall(c, n, func() []int { return f([]int{-1}) })
		})
		nest := r.Budget(3, 4)
		r.Explore("try-nested", fmt.Sprintf("tries inside tries, %d levels, up to 2 closers each", nest), -1, func(c *mc.C) {
			var t *tried
			for i := 0; i < nest; i++ {
				t = &tried{inner: t, fault: mc.Pick(c, []int{0, -1, 1, 10})}
				for j := c.Choose(3); j > 0; j-- {
					t.closers = append(t.closers, mc.Pick(c, []int{0, 2}))
				}
				t.catch = mc.Pick(c, []int{0, 4})
			}
			checkTry(c, t)
		})
		r.Explore("ignore", "a function whose result is ignored is called once per call, and its panics come out", -1, func(c *mc.C) {
			n, f := 0, faults[c.Choose(len(faults))]
			fn := funcs.IgnoreResult(func() error { n++; f.f(); return errTry })
			c.Check(n == 0, "ignore", "the function is called early")
			for i := 1; i < 4; i++ {
				p := mc.Try(fn)
				c.Check(n == i && (p == nil) == (f.value == nil) && (p == nil || f.value(p)), "ignore", "%s, called %d times of %d, panics with %v", f.name, n, i, p)
			}
		})

		// ==== suppliers

		r.Explore("suppliers", "suppliers of all kinds of values called up to 4 times, interleaved with another", -1, func(c *mc.C) {
			supplier(c, []int{0, 7})
			supplier(c, []string{"", "x"})
			supplier(c, []*custom{nil, aPtr})
			supplier(c, []error{nil, errTry})
			supplier(c, []bool{false, true})
		})

		// ==== must

		r.Explore("must", "errors of all kinds with values", -1, func(c *mc.C) {
			var (
				typedNil *myErr
				err      = mc.Pick(c, []error{nil, errTry, io.EOF, typedNil, &myErr{1}, fmt.Errorf("w: %w", io.EOF), valErr{}})
				i        = mc.Pick(c, []int{0, 5})
				s        = mc.Pick(c, []string{"", "x"})
				p        = mc.Pick(c, []*custom{nil, aPtr})
			)
			same := func(pv any, ok bool, what string) {
				if err == nil {
					c.Check(pv == nil && ok, "must", "%s without an error panics with %v or returns other values", what, pv)
				} else {
					c.Check(pv == any(err), "must", "%s with error %v (%T) panics with %v", what, err, err, pv)
				}
			}
			same(mc.Try(func() { funcs.Must(err) }), true, "Must")
			var (
				gi int
				gs string
				gp *custom
			)
			same(mc.Try(func() { gi = funcs.MustValue(i, err) }), gi == i, "MustValue")
			gi = 0
			pv := mc.Try(func() { gi, gs = funcs.MustValue2(i, s, err) })
			same(pv, gi == i && gs == s, "MustValue2")
			gi, gs = 0, ""
			pv = mc.Try(func() { gi, gs, gp = funcs.MustValue3(i, s, p, err) })
			same(pv, gi == i && gs == s && gp == p, "MustValue3")
			c.Outcome(fmt.Sprint(err == nil, i, s))
		})

		// ==== assertions

		values := []any{nil, 0, 5, int64(5), "", "x", 2.5, true, aPtr, nilErr, errTry, myInt(3), []any{}, []any{1}, []int{1}, map[string]any{}, func() {}, valErr{}, &myErr{2}}
		r.Explore("assert", "all kinds of values asserted to all kinds of types", -1, func(c *mc.C) {
			v, msg := mc.Pick(c, values), mc.Pick(c, []string{"", "name", "%d %s"})
			assertType[int](c, msg, v)
			assertType[int64](c, msg, v)
			assertType[string](c, msg, v)
			assertType[float64](c, msg, v)
			assertType[bool](c, msg, v)
			assertType[*custom](c, msg, v)
			assertType[myInt](c, msg, v)
			assertType[error](c, msg, v)
			assertType[[]any](c, msg, v)
			assertType[[]int](c, msg, v)
			assertType[map[string]any](c, msg, v)
			assertType[valErr](c, msg, v)
			assertType[fmt.Stringer](c, msg, v)
		})
		elems := []any{1, 0, "a", nil, int64(1), errTry}
		r.Explore("convert", "slices, slices of slices and maps of all mixes of elements", -1, func(c *mc.C) {
			n := c.Choose(4) - 1
			var (
				slc []any
				v   any
			)
			if n >= 0 {
				slc = []any{}
			}
			for i := 0; i < n; i++ {
				slc = append(slc, mc.Pick(c, elems))
			}
			v = slc
			toSlice[int](c, v)
			toSlice[string](c, v)
			toSlice[error](c, v)
			toMap[int](c, slc)
			toMap[string](c, slc)
			toMap[error](c, slc)
			c.Ops(6)
			c.Outcome(fmt.Sprint(n))
		})
		r.Explore("convert-other", "values that are not slices or maps of any", -1, func(c *mc.C) {
			v := mc.Pick(c, append([]any{[]string{"a"}, []error{}, [][]any{{1}}, map[int]any{1: 1}, map[string]int{"a": 1}, anys{1}, [1]any{1}, &[]any{1}}, values...))
			toSlice[int](c, v)
			toSlice2[int](c, v)
			if _, is := v.(map[string]any); !is {
				res, err := funcs.ConvertToMap[string, int]("name", v)
				c.Check(res == nil && err != nil && strings.Contains(err.Error(), "name"), "convert-map", "%#v to a map is %v, %v", v, res, err)
				p := mc.Try(func() { funcs.MustConvertToMap[string, int]("name", v) })
				c.Check(p != nil && err != nil && fmt.Sprint(p) == err.Error(), "must-convert", "%#v to a map panics with %v, expected %v", v, p, err)
			}
		})
		top := r.Budget(65536, 131072)
		r.Explore("convert-long", fmt.Sprintf("slices, slices of slices and maps of up to %d elements (around the powers of two), all of the type, or one of them not: the first, the second, the last, the one before, the one in the middle", top), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(top))
			at := mc.Pick(c, []int{-1, 0, 1, n / 2, n - 2, n - 1})
			slc, rows, wide := []any{}, []any{}, []any{}
			for i := 0; i < n; i++ {
				slc = append(slc, i)
				if i == at {
					slc[i] = "x"
				}
				rows = append(rows, []any{i, slc[i]})
			}
			wide = []any{[]any{}, slc, []any{1}}
			toSlice[int](c, slc)
			toSlice2[int](c, rows)
			toSlice2[int](c, wide)
			toMap[int](c, slc)
			c.Ops(4)
			c.Outcome(fmt.Sprint(at))
		})
		elems2 := []any{1, "a", nil, int64(1)}
		r.Explore("convert2", "slices of up to 3 values, slices of up to 2 elements and others", -1, func(c *mc.C) {
			n := c.Choose(r.Budget(3, 4))
			slc := []any{}
			for i := 0; i < n; i++ {
				if k := c.Choose(5); k == 4 {
					slc = append(slc, mc.Pick(c, []any{nil, 1, []int{1}, map[string]any{}}))
				} else if k == 3 {
					slc = append(slc, []any(nil))
				} else {
					row := []any{}
					for j := 0; j < k; j++ {
						row = append(row, mc.Pick(c, elems2))
					}
					slc = append(slc, row)
				}
			}
			toSlice2[int](c, slc)
			toSlice2[string](c, slc)
			c.Ops(2)
			c.Outcome(fmt.Sprint(n))
		})

		// ==== identifiers

		n := r.Budget(7, 8)
		r.Explore("camel", fmt.Sprintf("all camel case identifiers of up to %d characters: lower and upper case letters, digits, letters of several bytes", n), -1, func(c *mc.C) {
			id := word(c, []rune("abZ1éÉ"), n)
			if id != "" && !unicode.IsLetter([]rune(id)[0]) {
				c.Prune()
			}
			want := ""
			for i, ch := range id {
				if unicode.IsUpper(ch) && i > 0 {
					want += "_"
				}
				want += string(unicode.ToLower(ch))
			}
			got := funcs.CamelCaseToSnakeCase(id)
			c.Check(got == want, "snake", "%q to snake case is %q, expected %q", id, got, want)
			if id != "" {
				rs := []rune(id)
				rs[0] = unicode.ToUpper(rs[0])
				back := funcs.SnakeToCamelCase(got)
				c.Check(back == string(rs), "back", "%q to snake case is %q, back to camel case %q, expected %q", id, got, back, string(rs))
			}
			c.Outcome(got)
		})
		r.Explore("snake", fmt.Sprintf("all snake case identifiers of up to %d characters", n), -1, func(c *mc.C) {
			id := word(c, []rune("abZ1é_"), n)
			want := ""
			for _, w := range strings.Split(id, "_") {
				if rs := []rune(w); len(rs) > 0 {
					rs[0] = unicode.ToUpper(rs[0])
					want += string(rs)
				}
			}
			got := funcs.SnakeToCamelCase(id)
			c.Check(got == want, "camel", "%q to camel case is %q, expected %q", id, got, want)
			c.Outcome(got)
		})
		// identifiers made of words, the first letter of which is first and the others are next
		words := func(c *mc.C, ws [][]rune) {
			var camel, capital, snake string
			for i, w := range ws {
				up := string(unicode.ToUpper(w[0])) + string(w[1:])
				capital += up
				if i == 0 {
					camel = string(unicode.ToLower(w[0])) + string(w[1:])
				} else {
					camel += up
					snake += "_"
				}
				snake += string(unicode.ToLower(w[0])) + string(w[1:])
			}
			got := funcs.CamelCaseToSnakeCase(camel)
			c.Check(got == snake, "snake", "%q to snake case is %q, expected %q", camel, got, snake)
			got = funcs.CamelCaseToSnakeCase(capital)
			c.Check(got == snake, "snake", "%q to snake case is %q, expected %q", capital, got, snake)
			got = funcs.SnakeToCamelCase(snake)
			c.Check(got == capital, "camel", "%q to camel case is %q, expected %q", snake, got, capital)
			c.Ops(3)
			c.Outcome(snake)
		}
		// letters with both cases, and characters that have neither
		var cased, plain []rune
		last := rune(r.Budget(0x24F, 0x1FFFF))
		for ch := rune('0'); ch <= last; ch++ {
			switch {
			case unicode.IsLower(ch) && unicode.IsUpper(unicode.ToUpper(ch)) && unicode.ToLower(unicode.ToUpper(ch)) == ch:
				cased = append(cased, ch)
				plain = append(plain, ch)
			case unicode.IsDigit(ch) || unicode.IsLower(ch) || unicode.Is(unicode.Lo, ch):
				plain = append(plain, ch)
			}
		}
		r.Explore("letters", fmt.Sprintf("every letter up to U+%X that has two cases as the first letter of the first, the second or the third word, every other letter and digit in a word, alone and among others", last), -1, func(c *mc.C) {
			ws := [][]rune{[]rune("ab"), []rune("z9"), []rune("y")}
			at := c.Choose(3)
			if c.Bool() {
				ws[at] = append([]rune{mc.Pick(c, cased)}, ws[at][:c.Choose(2)]...)
			} else {
				ch := mc.Pick(c, plain)
				ws[at] = append(ws[at], ch)
				if c.Bool() {
					ws[at] = append(ws[at], 'k', ch)
				}
			}
			words(c, ws)
		})
		long := r.Budget(2048, 65536)
		r.Explore("long-identifiers", fmt.Sprintf("identifiers of up to 66 words, and around the powers of two up to %d, of 1 to 4 letters, and of one to three words of as many letters", long), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(long))
			var ws [][]rune
			switch k := c.Choose(7); k {
			case 0, 1, 2, 3:
				for i := 0; i < n; i++ {
					ws = append(ws, []rune([]string{"xyzé", "ab12", "é1éa"}[i%3])[:1+(k+i)%(k+1)])
				}
			default:
				for i := 4; i <= k; i++ {
					ws = append(ws, []rune("w"+strings.Repeat("l", n)))
				}
			}
			words(c, ws)
		})
	})
}

type (
	anys   []any
	myInt  int
	valErr struct{}
	myErr  struct{ i int }
)

func (valErr) Error() string { return "val" }
func (*myErr) Error() string { return "mine" }

func word(c *mc.C, alphabet []rune, max int) string {
	id := ""
	for i := c.Choose(max + 1); i > 0; i-- {
		id += string(mc.Pick(c, alphabet))
	}
	return id
}

func checkTry(c *mc.C, t *tried) {
	var (
		got, want []string
		escaped   any
		done      = make(chan struct{})
	)
	go func() {
		defer close(done)
		defer func() { escaped = recover() }()
		t.run(&got, "")
	}()
	<-done
	panics, exit := t.model(&want, "")
	if panics == 0 && !exit {
		want = append(want, "after")
	}
	if panics > 0 {
		c.Check(escaped != nil && describe(escaped) == describe(panicOf(panics)), "escape", "%s lets out a panic of %v, expected %s", t, escaped, faults[panics].name)
	} else {
		c.Check(escaped == nil, "escape", "%s lets out a panic of %v", t, escaped)
	}
	c.Check(strings.Join(got, "; ") == strings.Join(want, "; "), "try", "%s does %q, expected %q", t, got, want)
	c.Ops(len(want))
	c.Outcome(strings.Join(got, "; "))
}

func supplier[T comparable](c *mc.C, vals []T) {
	v, n := mc.Pick(c, vals), 0
	of := funcs.SupplierOf(v)
	cached := funcs.SupplierCached(func() T {
		n++
		if n > 1 {
			return vals[1]
		}
		return v
	})
	other := funcs.SupplierCached(func() T { return vals[1] })
	c.Check(n == 0, "supplier", "a cached supplier calls before it is called")
	for i := 0; i < 4; i++ {
		c.Check(of() == v, "supplier", "a supplier of %v does not supply it at call %d", v, i)
		c.Check(cached() == v && n == 1, "cached", "a cached supplier of %v does not repeat it at call %d, or calls %d times", v, i, n)
		c.Check(other() == vals[1], "cached", "another supplier supplies something else")
	}
}

// mentions says if an error has the message and both types
func mentions(err error, parts ...string) bool {
	for _, p := range parts {
		if err == nil || !strings.Contains(err.Error(), p) {
			return false
		}
	}
	return true
}

func assertType[T any](c *mc.C, msg string, v any) {
	var (
		typ      = reflect.TypeOf((*T)(nil)).Elem()
		res, err = funcs.AssertType[T](msg, v)
		is       = v != nil && reflect.TypeOf(v).AssignableTo(typ) && (typ.Kind() == reflect.Interface || reflect.TypeOf(v) == typ)
	)
	c.Ops(1)
	p := mc.Try(func() { funcs.MustAssertType[T](msg, v) })
	if is {
		c.Check(err == nil && fmt.Sprintf("%#v", any(res)) == fmt.Sprintf("%#v", v), "assert", "%#v is of type %v, the result is %#v, %v", v, typ, res, err)
		c.Check(p == nil, "must-assert", "%#v is of type %v, the must panics with %v", v, typ, p)
		return
	}
	c.Check(mentions(err, msg, fmt.Sprintf("%T", v)) && reflect.ValueOf(&res).Elem().IsZero(), "assert", "%#v is not of type %v, the result is %#v, %v", v, typ, res, err)
	if typ.Kind() != reflect.Interface {
		c.Check(mentions(err, typ.String()), "assert", "%#v is not of type %v, the error is %v", v, typ, err)
	}
	pe, isErr := p.(error)
	c.Check(isErr && err != nil && pe.Error() == err.Error(), "must-assert", "%#v is not of type %v, the must panics with %v", v, typ, p)
}

func toSlice[T comparable](c *mc.C, v any) {
	var (
		slc, is = v.([]any)
		want    []T
		bad     = -1
	)
	for i, e := range slc {
		t, isT := e.(T)
		if !isT {
			bad = i
			break
		}
		want = append(want, t)
	}
	before := fmt.Sprintf("%#v", v)
	res, err := funcs.ConvertToSlice[T]("name", v)
	p := mc.Try(func() { funcs.MustConvertToSlice[T]("name", v) })
	c.Check(is != (reflect.TypeOf(v) != reflect.TypeOf([]any{})), "oracle", "inconsistent")
	if !is || bad >= 0 {
		where := "name"
		if is {
			where = fmt.Sprintf("name[%d]", bad)
		}
		c.Check(res == nil && mentions(err, where), "convert", "%#v to a slice is %v, %v", v, res, err)
		pe, isErr := p.(error)
		c.Check(isErr && err != nil && pe.Error() == err.Error(), "must-convert", "%#v to a slice panics with %v, expected %v", v, p, err)
		return
	}
	c.Check(err == nil && p == nil && len(res) == len(want), "convert", "%#v to a slice is %v, %v", v, res, err)
	for i := range want {
		c.Check(i < len(res) && res[i] == want[i], "convert", "%#v to a slice is %v, %v", v, res, err)
	}
	for i := range res {
		var zv T
		res[i] = zv
	}
	c.Check(fmt.Sprintf("%#v", v) == before, "argument", "the value %s changes to %#v", before, v)
}

func toSlice2[T comparable](c *mc.C, v any) {
	var (
		slc, is = v.([]any)
		want    [][]T
		where   = "name"
		bad     = !is
	)
outer:
	for i, row := range slc {
		r, isRow := row.([]any)
		if !isRow {
			bad, where = true, fmt.Sprintf("name[%d]", i)
			break
		}
		w := []T{}
		for j, e := range r {
			t, isT := e.(T)
			if !isT {
				bad, where = true, fmt.Sprintf("name[%d][%d]", i, j)
				break outer
			}
			w = append(w, t)
		}
		want = append(want, w)
	}
	res, err := funcs.ConvertToSlice2[T]("name", v)
	p := mc.Try(func() { funcs.MustConvertToSlice2[T]("name", v) })
	if bad {
		c.Check(res == nil && mentions(err, where), "convert2", "%#v to a slice of slices is %v, %v", v, res, err)
		pe, isErr := p.(error)
		c.Check(isErr && err != nil && pe.Error() == err.Error(), "must-convert", "%#v to a slice of slices panics with %v, expected %v", v, p, err)
		return
	}
	c.Check(err == nil && p == nil && len(res) == len(want), "convert2", "%#v to a slice of slices is %v, %v", v, res, err)
	for i := range want {
		c.Check(fmt.Sprint(res[i]) == fmt.Sprint(want[i]), "convert2", "%#v to a slice of slices is %v, %v", v, res, err)
	}
}

func toMap[V comparable](c *mc.C, slc []any) {
	var (
		mp   map[int]any
		want = map[int]V{}
		bad  = map[int]bool{}
	)
	if slc != nil {
		mp = map[int]any{}
	}
	for i, e := range slc {
		mp[i-1] = e
		if v, isV := e.(V); isV {
			want[i-1] = v
		} else {
			bad[i-1] = true
		}
	}
	res, err := funcs.ConvertToMap[int, V]("name", mp)
	p := mc.Try(func() { funcs.MustConvertToMap[int, V]("name", mp) })
	c.Check((p == nil) == (err == nil), "must-convert", "%#v to a map is %v, %v, but the must panics with %v", mp, res, err, p)
	c.Check(len(mp) == len(slc), "argument", "the map changes to %v", mp)
	if len(bad) == 0 {
		c.Check(err == nil && res != nil && reflect.DeepEqual(res, want), "convert-map", "%#v to a map is %v, %v", mp, res, err)
		return
	}
	named := false
	for k := range bad {
		named = named || mentions(err, fmt.Sprintf("name[%d]", k))
	}
	c.Check(res == nil && named, "convert-map", "%#v to a map is %v, %v", mp, res, err)
}
