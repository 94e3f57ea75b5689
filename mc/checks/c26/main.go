// C26: descriptions of code hold exactly what they were made of
package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/bantling/micro/code"
	"github.com/bantling/micro/union"
	"verifmc/mc"
)

var (
	scalars = []code.ScalarType{code.Bool, code.Uint, code.Uint8, code.Uint16, code.Uint32, code.Uint64, code.Int, code.Int8, code.Int16, code.Int32, code.Int64,
		code.Float, code.Double, code.String, code.UUID, code.Date, code.DateTimeSecs, code.DateTimeMillis, code.DurationDays, code.DurationSecs, code.DurationMillis}
	aggregates = []code.AggregateType{code.JSON, code.Array, code.Enum, code.List, code.Map, code.Maybe, code.Object, code.Set}
	levels     = []code.AccessLevel{code.Private, code.Package, code.PackageSub, code.Public}
	unary      = []code.UnaryOperator{code.Inc, code.Dec, code.Neg, code.BitNot}
	binary     = []code.BinaryOperator{code.Add, code.Sub, code.Mul, code.Div, code.Concat, code.BitAnd, code.BitOr, code.BitXor, code.BitShiftLeft, code.BitShiftRight, code.BitShiftRightArithmetic}
	boolean    = []code.BooleanOperator{code.Not, code.And, code.Or, code.Lesser, code.LesserEquals, code.Equals, code.GreaterEquals, code.Greater, code.Ternary}
	lists      = [][]string{nil, {}, {"a"}, {"b", "a"}, {"a", "a", ""}}
	boundses   = [][]uint{nil, {}, {0}, {3}, {2, 1}, {1, 2, 3}}
)

// given is a list of no, one, or two access levels, and the one that counts
func given(c *mc.C) (l []code.AccessLevel, want code.AccessLevel) {
	for i := c.Choose(3); i > 0; i-- {
		l = append(l, mc.Pick(c, levels))
	}
	if len(l) > 0 {
		want = l[0]
	}
	return
}

// def builds a description of a type up to a depth, and a text that describes it; nil stands for a required type that is missing
func def(c *mc.C, depth int) (*code.TypeDef, string) {
	k := c.Choose(3)
	if depth > 0 {
		k = c.Choose(10)
	}
	if k == 2 {
		return nil, "nil"
	}
	acc, want := given(c)
	if depth == 0 && len(acc) > 1 {
		c.Prune()
	}
	missing := false
	child := func() (*code.TypeDef, string) {
		t, s := def(c, depth-1)
		missing = missing || t == nil
		return t, s
	}
	build := func(f func() *code.TypeDef) (t *code.TypeDef) {
		pv := mc.Try(func() { t = f() })
		if missing {
			// whatever it is made of is not there
			c.Check(pv != nil, "missing", "a type with a missing part is accepted: %+v", t)
			c.Outcome("refused")
			panic(over{})
		}
		c.Check(pv == nil, "refused", "panicked with %v", pv)
		return
	}
	var t *code.TypeDef
	var s string
	switch k {
	case 0:
		n := mc.Pick(c, []code.ScalarType{code.Bool, code.Int, code.DurationMillis})
		t, s = build(func() *code.TypeDef { return code.OfScalarType(n, acc...) }), fmt.Sprintf("%d", n)
	case 1:
		t, s = build(func() *code.TypeDef { return code.OfJSONType(acc...) }), fmt.Sprintf("%d", code.JSON)
	case 3:
		b := mc.Pick(c, boundses)
		e, es := child()
		t, s = build(func() *code.TypeDef { return code.OfArrayType(e, b, acc...) }), fmt.Sprintf("%d%v of %s", code.Array, b, es)
	case 4:
		b := mc.Pick(c, lists)
		if len(b) == 0 {
			e, _ := child()
			pv := mc.Try(func() { code.OfEnumType("e", e, b, acc...) })
			c.Check(pv != nil, "missing", "an enum without constants is accepted")
			c.Outcome("refused")
			panic(over{})
		}
		e, es := child()
		t, s = build(func() *code.TypeDef { return code.OfEnumType("e", e, b, acc...) }), fmt.Sprintf("%d e %q of %s", code.Enum, b, es)
	case 5:
		e, es := child()
		t, s = build(func() *code.TypeDef { return code.OfListType(e, acc...) }), fmt.Sprintf("%d of %s", code.List, es)
	case 6:
		a, as := child()
		e, es := child()
		t, s = build(func() *code.TypeDef { return code.OfMapType(a, e, acc...) }), fmt.Sprintf("%d %s to %s", code.Map, as, es)
	case 7:
		e, es := child()
		t, s = build(func() *code.TypeDef { return code.OfMaybeType(e, acc...) }), fmt.Sprintf("%d of %s", code.Maybe, es)
	case 8:
		b := mc.Pick(c, lists)
		e, es := child()
		if missing {
			c.Prune() // whether an object needs a base type is not documented
		}
		t, s = build(func() *code.TypeDef { return code.OfObjectType(e, "o", b, acc...) }), fmt.Sprintf("%d o %q of %s", code.Object, b, es)
	case 9:
		e, es := child()
		t, s = build(func() *code.TypeDef { return code.OfSetType(e, acc...) }), fmt.Sprintf("%d of %s", code.Set, es)
	}
	return t, fmt.Sprintf("(%d %s)", want, s)
}

type over struct{}

// show describes a type from what is in its description
func show(t *code.TypeDef) string {
	if t == nil {
		return "nil"
	}
	in := func(m union.Maybe[*code.TypeDef]) string {
		if m.Empty() {
			return "nothing"
		}
		return show(m.Get())
	}
	none := func(b bool) string {
		if b {
			return ""
		}
		return " and more"
	}
	s := fmt.Sprintf("(%d %d", t.Access, t.Typ)
	name, key, value, bounds := t.Name == "" && t.Names == nil, t.KeyType.Empty(), t.ValueType.Empty(), t.ArrayBounds == nil
	switch {
	case uint(t.Typ) < uint(code.JSON), t.Typ == code.Type(code.JSON):
		s += none(name && key && value && bounds)
	case t.Typ == code.Type(code.Array):
		s += fmt.Sprintf("%v of %s", t.ArrayBounds, in(t.ValueType)) + none(name && key)
	case t.Typ == code.Type(code.Enum), t.Typ == code.Type(code.Object):
		s += fmt.Sprintf(" %s %q of %s", t.Name, t.Names, in(t.ValueType)) + none(key && bounds)
	case t.Typ == code.Type(code.Map):
		s += fmt.Sprintf(" %s to %s", in(t.KeyType), in(t.ValueType)) + none(name && bounds)
	default:
		s += " of " + in(t.ValueType) + none(name && key && bounds)
	}
	return s + ")"
}

func same(a, b any) bool { return reflect.DeepEqual(a, b) }

func main() {
	mc.Main("C26", "model_checking", []string{"whether an object type needs a base type is not documented"}, func(r *mc.Run) {
		depth := r.Budget(2, 2)
		r.Explore("types", fmt.Sprintf("all descriptions of types nested up to %d deep, some parts missing, with no, one or two access levels", depth), -1, func(c *mc.C) {
			defer func() {
				if p := recover(); p != nil {
					if _, isa := p.(over); !isa {
						panic(p)
					}
				}
			}()
			d := 1 + c.Choose(depth)
			if d == 2 {
				// the outer type has one level, the inner ones any
				k := c.Choose(6)
				e, es := def(c, 1)
				missing := e == nil
				var t *code.TypeDef
				var s string
				pv := mc.Try(func() {
					switch k {
					case 0:
						t, s = code.OfListType(e, code.Public), fmt.Sprintf("%d of %s", code.List, es)
					case 1:
						t, s = code.OfSetType(e, code.Public), fmt.Sprintf("%d of %s", code.Set, es)
					case 2:
						t, s = code.OfMaybeType(e, code.Public), fmt.Sprintf("%d of %s", code.Maybe, es)
					case 3:
						t, s = code.OfArrayType(e, []uint{1}, code.Public), fmt.Sprintf("%d[1] of %s", code.Array, es)
					case 4:
						t, s = code.OfMapType(code.OfScalarType(code.String), e, code.Public), fmt.Sprintf("%d (0 %d) to %s", code.Map, code.String, es)
					case 5:
						t, s = code.OfMapType(e, code.OfScalarType(code.String), code.Public), fmt.Sprintf("%d %s to (0 %d)", code.Map, es, code.String)
					}
				})
				c.Op("%s %v", s, pv)
				c.Check(missing == (pv != nil), "missing", "a part is missing: %v, panicked with %v", missing, pv)
				if pv == nil {
					s = fmt.Sprintf("(%d %s)", code.Public, s)
					c.Check(show(t) == s, "type", "expected %s, got %s", s, show(t))
					c.State(s)
				}
				c.Outcome(s)
				return
			}
			t, s := def(c, 1)
			c.Op("%s", s)
			c.Check(show(t) == s, "type", "expected %s, got %s", s, show(t))
			c.State(s)
			c.Outcome(s)
		})
		top := r.Budget(65536, 131072)
		r.Explore("long", fmt.Sprintf("up to %d (around the powers of two) dimensions of an array, constants of an enum, parameters of an object, levels of nesting, letters of a name", top), -1, func(c *mc.C) {
			n := mc.Pick(c, mc.Lengths(top))
			var bounds []uint
			var names []string
			for i := 0; i < n; i++ {
				bounds, names = append(bounds, uint(n-i)), append(names, fmt.Sprint("n", i))
			}
			base := code.OfScalarType(code.String)
			bs := fmt.Sprintf("(0 %d)", code.String)
			var t *code.TypeDef
			var s string
			k := c.Choose(7)
			if n == 0 && k == 1 {
				c.Prune()
			}
			text := strings.Repeat("é", n)
			switch k {
			case 0:
				t, s = code.OfArrayType(base, bounds, code.Public), fmt.Sprintf("(%d %d%v of %s)", code.Public, code.Array, bounds, bs)
			case 1:
				t, s = code.OfEnumType(text, base, names, code.Public), fmt.Sprintf("(%d %d %s %q of %s)", code.Public, code.Enum, text, names, bs)
			case 2:
				t, s = code.OfObjectType(base, text, names, code.Public), fmt.Sprintf("(%d %d %s %q of %s)", code.Public, code.Object, text, names, bs)
			case 3, 4, 5, 6:
				n = min(n, 512)
				t = base
				pre, post := "", ""
				for i := 0; i < n; i++ {
					// inside out
					switch (k + i) % 4 {
					case 0:
						t, pre = code.OfListType(t), fmt.Sprintf("(0 %d of ", code.List)+pre
					case 1:
						t, pre = code.OfSetType(t), fmt.Sprintf("(0 %d of ", code.Set)+pre
					case 2:
						t, pre = code.OfMaybeType(t), fmt.Sprintf("(0 %d of ", code.Maybe)+pre
					case 3:
						t, pre = code.OfMapType(base, t), fmt.Sprintf("(0 %d %s to ", code.Map, bs)+pre
					}
					post += ")"
				}
				s = pre + bs + post
			}
			c.Op("case %d of %d", k, n)
			c.Check(show(t) == s, "type", "expected %s, got %s", s, show(t))
			v := code.OfLitVal(base, text)
			c.Check(same(v, code.Val{Kind: code.LitVal, Typ: base, Value: text}), "value", "a literal of %d letters is %+v", n, v)
			v = code.OfVarVal(true, base, text, code.Public)
			c.Check(same(v, code.Val{Kind: code.VarConst, Typ: base, Value: text, Access: union.Of(code.Public)}), "value", "a constant with a name of %d letters is %+v", n, v)
			c.Outcome(s)
		})
		r.Explore("kinds", "all types and operators are different, and of exactly one kind", -1, func(c *mc.C) {
			switch c.Choose(2) {
			case 0:
				seen := map[code.Type]bool{}
				for _, x := range scalars {
					t := code.Type(x)
					c.Op("scalar %d", t)
					c.Check(code.IsScalar(t) && !code.IsAggregate(t), "kind", "scalar type %d: %v %v", t, code.IsScalar(t), code.IsAggregate(t))
					c.Check(!seen[t], "twice", "type %d means two things", t)
					seen[t] = true
				}
				for _, x := range aggregates {
					t := code.Type(x)
					c.Op("aggregate %d", t)
					c.Check(!code.IsScalar(t) && code.IsAggregate(t), "kind", "aggregate type %d: %v %v", t, code.IsScalar(t), code.IsAggregate(t))
					c.Check(!seen[t], "twice", "type %d means two things", t)
					seen[t] = true
				}
			case 1:
				seen := map[code.Operator]bool{}
				chk := func(op code.Operator, un, bi, bo bool) {
					c.Op("operator %d", op)
					c.Check(op.IsUnary() == un && op.IsBinary() == bi && op.IsBoolean() == bo, "kind", "operator %d: unary %v, binary %v, boolean %v", op, op.IsUnary(), op.IsBinary(), op.IsBoolean())
					c.Check(!seen[op], "twice", "operator %d means two things", op)
					seen[op] = true
				}
				for _, o := range unary {
					chk(code.Operator(o), true, false, false)
				}
				for _, o := range binary {
					chk(code.Operator(o), false, true, false)
				}
				for _, o := range boolean {
					chk(code.Operator(o), false, false, true)
				}
			}
		})
		r.Explore("values", "all literals and variables with types that are there or missing, two texts, no, one or two access levels", -1, func(c *mc.C) {
			t := mc.Pick(c, []*code.TypeDef{nil, code.OfScalarType(code.Int), code.OfJSONType()})
			text := mc.Pick(c, []string{"", "1", "é"})
			acc, _ := given(c)
			want := code.Val{Typ: t, Value: text}
			var got code.Val
			k := c.Choose(3)
			pv := mc.Try(func() {
				switch k {
				case 0:
					got, want.Kind = code.OfLitVal(t, text), code.LitVal
				case 1, 2:
					want.Kind = []code.ValKind{code.VarVal, code.VarConst}[k-1]
					if len(acc) > 0 {
						want.Access = union.Of(acc[0])
					}
					got = code.OfVarVal(k == 2, t, text, acc...)
				}
			})
			c.Op("%+v %v", got, pv)
			c.Check((t == nil) == (pv != nil), "missing", "type %v: panicked with %v", t, pv)
			c.Check(pv != nil || same(got, want) && got.Typ == t, "value", "expected %+v, got %+v", want, got)
			c.Outcome(fmt.Sprintf("%+v", got.Kind))
			c.State(fmt.Sprint(got.Kind, got.Value, got.Access, pv))
		})
		r.Explore("expressions", "all operators with all operands, up to three of which are there or missing", -1, func(c *mc.C) {
			var l []*code.Val
			for i := 0; i < 3; i++ {
				var v *code.Val
				if c.Bool() {
					x := code.OfLitVal(code.OfScalarType(code.Int), fmt.Sprint(i))
					v = &x
				}
				l = append(l, v)
			}
			var e code.Expr
			var need int
			var op code.Operator
			n := 3
			var pv any
			switch c.Choose(3) {
			case 0:
				o := mc.Pick(c, unary)
				op, need = code.Operator(o), 1
				pv = mc.Try(func() { e = code.OfUnaryExpr(o, l[0]) })
			case 1:
				o := mc.Pick(c, binary)
				op, need = code.Operator(o), 2
				pv = mc.Try(func() { e = code.OfBinaryExpr(o, l[0], l[1]) })
			case 2:
				o := mc.Pick(c, boolean)
				op, need = code.Operator(o), 2
				if o == code.Not {
					need = 1
				} else if o == code.Ternary {
					need = 3
				}
				n = 1 + c.Choose(3)
				if n > need && o != code.Not {
					c.Prune() // more than there must be: not documented
				}
				pv = mc.Try(func() { e = code.OfBooleanExpr(o, l[0], l[1:n]...) })
			}
			c.Op("%d %v: %+v %v", op, l, e, pv)
			bad := n < need
			for i := 0; i < need && i < n; i++ {
				bad = bad || l[i] == nil
			}
			c.Check(bad == (pv != nil), "missing", "operator %d, operands %v of %d: panicked with %v", op, l[:n], need, pv)
			c.Outcome(fmt.Sprint(op, pv))
			c.State(fmt.Sprint(op, need, bad))
			if pv != nil {
				return
			}
			is := func(m union.Maybe[*code.Val], i int) bool {
				if i >= need {
					return m.Empty()
				}
				return m.Present() && m.Get() == l[i]
			}
			c.Check(e.Op == op && e.Val1 == l[0] && is(e.Val2, 1) && is(e.Val3, 2), "expression", "operator %d, operands %v: got %+v", op, l[:need], e)
		})
	})
}
