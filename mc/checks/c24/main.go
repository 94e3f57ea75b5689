// C24: reflection helpers classify and unwrap every kind of value without a crash
package main

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	goreflect "reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/bantling/micro/reflect"
	"verifmc/mc"
)

type (
	subBool    bool
	subInt     int
	subInt8    int8
	subInt16   int16
	subInt32   int32
	subInt64   int64
	subUint    uint
	subUint8   uint8
	subUint16  uint16
	subUint32  uint32
	subUint64  uint64
	subFloat32 float32
	subFloat64 float64
	subC64     complex64
	subC128    complex128
	subString  string
	subUintptr uintptr
	subSub     subInt
	subSlice   []int
	subMap     map[string]int
	subFunc    func()
	subChan    chan int
	subBig     big.Int
	ptrInt     *int
	ptrSub     *subInt
	ptrBig     *big.Int
	empty      struct{}
	inner      struct{ A, B int }
	embedded   struct {
		inner
		C int
	}
	tree struct {
		Value    string
		hidden   int
		Children []*tree
		Parent   *tree
		Any      any
	}
)

type (
	// named like other types
	Int   struct{ V int }
	Float struct{}
	Rat   string
)

// shadows are subtypes named like primitive types
func shadows() []kind {
	type (
		int32  rune
		uint8  int
		string bool
	)
	type float64 string
	type int int64
	return []kind{
		{val: int32(1), base: rune(0), prim: true, num: true, signed: true},
		{val: uint8(1), base: one - 1, prim: true, num: true, signed: true},
		{val: string(true), base: false, prim: true},
		{val: float64(true), base: false, prim: true},
		{val: int(1), base: int64(0), prim: true, num: true, signed: true},
	}
}

// twins are different types of the same name
func twins() []kind {
	var res []kind
	{
		type twin struct{ A int }
		type twinNum int
		res = append(res, kind{val: twin{1}}, kind{val: twinNum(1), base: 0, prim: true, num: true, signed: true})
	}
	{
		type twin struct{ A int }
		type twinNum int
		res = append(res, kind{val: twin{1}}, kind{val: twinNum(1), base: 0, prim: true, num: true, signed: true})
	}
	return res
}

// kind is a type and all there is to know about it
type kind struct {
	val      any // a value of the type, as the element of a slice for interface types
	base     any // a zero value of the base type, if it is a subtype of a primitive type
	prim     bool
	num      bool
	signed   bool
	unsigned bool
	nillable bool
	isNil    bool
	bigPtr   bool
	pointers int // how many pointers the type already is
	iface    bool
}

var (
	one   = 1
	sub   = subInt(2)
	bigI  = big.NewInt(3)
	theE  = errors.New("e")
	kinds = []kind{
		{val: true, prim: true},
		{val: 1, prim: true, num: true, signed: true},
		{val: int8(-1), prim: true, num: true, signed: true},
		{val: int16(1), prim: true, num: true, signed: true},
		{val: int32(1), prim: true, num: true, signed: true},
		{val: int64(1), prim: true, num: true, signed: true},
		{val: uint(1), prim: true, num: true, unsigned: true},
		{val: uint8(1), prim: true, num: true, unsigned: true},
		{val: uint16(1), prim: true, num: true, unsigned: true},
		{val: uint32(1), prim: true, num: true, unsigned: true},
		{val: uint64(1), prim: true, num: true, unsigned: true},
		{val: float32(1.5), prim: true, num: true},
		{val: 1.5, prim: true, num: true},
		{val: complex64(1i), prim: true},
		{val: 1i, prim: true},
		{val: "s", prim: true},
		{val: uintptr(1)},
		{val: subBool(true), base: false, prim: true},
		{val: subInt(1), base: int(0), prim: true, num: true, signed: true},
		{val: subInt8(1), base: int8(0), prim: true, num: true, signed: true},
		{val: subInt16(1), base: int16(0), prim: true, num: true, signed: true},
		{val: subInt32(1), base: int32(0), prim: true, num: true, signed: true},
		{val: subInt64(1), base: int64(0), prim: true, num: true, signed: true},
		{val: subUint(1), base: uint(0), prim: true, num: true, unsigned: true},
		{val: subUint8(1), base: uint8(0), prim: true, num: true, unsigned: true},
		{val: subUint16(1), base: uint16(0), prim: true, num: true, unsigned: true},
		{val: subUint32(1), base: uint32(0), prim: true, num: true, unsigned: true},
		{val: subUint64(1), base: uint64(0), prim: true, num: true, unsigned: true},
		{val: subFloat32(1.5), base: float32(0), prim: true, num: true},
		{val: subFloat64(1.5), base: float64(0), prim: true, num: true},
		{val: subC64(1i), base: complex64(0), prim: true},
		{val: subC128(1i), base: complex128(0), prim: true},
		{val: subString("s"), base: "", prim: true},
		{val: subSub(1), base: 0, prim: true, num: true, signed: true},
		{val: subUintptr(1)},
		{val: big.Word(1), base: uint(0), prim: true, num: true, unsigned: true},
		{val: big.Exact, base: int8(0), prim: true, num: true, signed: true},
		{val: time.Second, base: int64(0), prim: true, num: true, signed: true},
		{val: reflectKind, base: uint(0), prim: true, num: true, unsigned: true},
		{val: Int{1}},
		{val: &Float{}, nillable: true, pointers: 1},
		{val: Rat("1"), base: "", prim: true},
		{val: []int{1}, nillable: true},
		{val: []int(nil), nillable: true, isNil: true},
		{val: subSlice{}, nillable: true},
		{val: subSlice(nil), nillable: true, isNil: true},
		{val: map[string]int{}, nillable: true},
		{val: subMap(nil), nillable: true, isNil: true},
		{val: func() {}, nillable: true},
		{val: subFunc(nil), nillable: true, isNil: true},
		{val: make(chan int), nillable: true},
		{val: subChan(nil), nillable: true, isNil: true},
		{val: (<-chan int)(nil), nillable: true, isNil: true},
		{val: [2]int{1}},
		{val: [0]int{}},
		{val: empty{}},
		{val: inner{1, 2}},
		{val: tree{Value: "v"}},
		{val: *big.NewInt(1)},
		{val: subBig{}},
		{val: big.Float{}},
		{val: big.Rat{}},
		{val: unsafe.Pointer(&one)},
		{val: []any{1}, nillable: true, iface: true},
		{val: []any{nil}, nillable: true, isNil: true, iface: true},
		{val: []any{&one}, nillable: true, iface: true},
		{val: []error{theE}, nillable: true, iface: true},
		{val: []error{nil}, nillable: true, isNil: true, iface: true},
		{val: []io.Reader{nil}, nillable: true, isNil: true, iface: true},
	}
	reflectKind = goreflect.Int
	named       = append(shadows(), []kind{
		{val: ptrInt(&one), nillable: true, pointers: 1},
		{val: ptrInt(nil), nillable: true, isNil: true, pointers: 1},
		{val: ptrSub(&sub), nillable: true, pointers: 1},
		{val: ptrSub(nil), nillable: true, isNil: true, pointers: 1},
		{val: ptrBig(bigI), nillable: true, pointers: 1},
	}...)
	bigs = map[goreflect.Type]bool{
		goreflect.TypeOf((*big.Int)(nil)):   true,
		goreflect.TypeOf((*big.Float)(nil)): true,
		goreflect.TypeOf((*big.Rat)(nil)):   true,
	}
)

// subject is a value that is zero or more pointers to a value, perhaps with a nil pointer along the way
type subject struct {
	kind
	val    goreflect.Value
	typ    goreflect.Type
	leaf   goreflect.Value // the innermost value, invalid if a pointer is nil
	leafT  goreflect.Type
	depth  int
	levels []goreflect.Value // the value with 0, 1, ... pointers dereferenced, as far as there are some
}

func value(k kind) goreflect.Value {
	v := goreflect.ValueOf(k.val)
	if k.iface {
		return v.Index(0)
	}
	return v
}

func anySubject(c *mc.C, ks []kind, max int) *subject {
	k := mc.Pick(c, ks)
	s := &subject{kind: k, val: value(k), depth: c.Choose(max + 1)}
	s.leafT, s.leaf = s.val.Type(), s.val
	s.typ = s.leafT
	if k.pointers > 0 {
		s.leafT, s.leaf = s.typ.Elem(), s.val.Elem()
	}
	levels := []goreflect.Value{s.val}
	if s.depth > 0 {
		nilAt := c.Choose(s.depth+1) - 1 // how many pointers are inside of the nil pointer, -1 for none
		for i := 0; i < s.depth; i++ {
			ptr := goreflect.New(s.val.Type())
			if i == nilAt {
				ptr = goreflect.Zero(goreflect.PointerTo(s.val.Type()))
				s.leaf, levels = goreflect.Value{}, nil
			} else {
				ptr.Elem().Set(s.val)
			}
			s.val, s.typ = ptr, goreflect.PointerTo(s.typ)
			levels = append([]goreflect.Value{ptr}, levels...)
		}
		s.isNil = nilAt == s.depth-1
		s.nillable, s.prim, s.num, s.signed, s.unsigned = true, false, bigs[s.typ], false, false
	}
	s.levels, s.bigPtr = levels, bigs[s.typ]
	s.pointers = k.pointers + s.depth
	return s
}

func (s *subject) String() string {
	null := ""
	if !s.leaf.IsValid() {
		null = " with nil"
	}
	return s.typ.String() + null
}

// same says if values are the same: both invalid, or of the same type and content (by identity, for pointers)
func same(a, b goreflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	return a.Type() == b.Type() && fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b)
}

func classify(c *mc.C, s *subject) {
	t := s.typ
	is := func(what string, got, want bool) {
		c.Check(got == want, "classify", "%v is %s: %t", s, what, got)
	}
	is("a big pointer", reflect.IsBigPtr(t), s.bigPtr)
	is("a signed integer", reflect.IsSignedInteger(t), s.signed)
	is("an unsigned integer", reflect.IsUnsignedInteger(t), s.unsigned)
	is("numeric", reflect.IsNumeric(t), s.num || s.bigPtr)
	is("nillable as a type", reflect.IsNillable(t), s.nillable)
	is("nillable as a value", reflect.IsNillable(s.val), s.nillable)
	is("nil", reflect.IsNil(s.val), s.isNil)
	is("primitive as a type", reflect.IsPrimitive(t), s.prim)
	is("primitive as a value", reflect.IsPrimitive(s.val), s.prim)
	c.Check(reflect.NumPointers(t) == s.pointers, "pointers", "%v is %d pointers", s, reflect.NumPointers(t))
	c.Check(reflect.TypeOf(s.val) == t.String(), "type-of", "%v is of type %s", s, reflect.TypeOf(s.val))
	c.Ops(11)
}

func unwrap(c *mc.C, s *subject) {
	c.Check(reflect.DerefType(s.typ) == s.leafT, "deref", "%v is derefd to %v", s, reflect.DerefType(s.typ))
	max := s.typ
	for i := s.pointers; i > 1; i-- {
		max = max.Elem()
	}
	c.Check(reflect.DerefTypeMaxOnePtr(s.typ) == max, "deref-one", "%v is derefd to %v", s, reflect.DerefTypeMaxOnePtr(s.typ))
	got := reflect.DerefValue(s.val)
	c.Check(same(got, s.leaf), "deref-value", "%v is derefd to %v, expected %v", s, got, s.leaf)

	// dereferencing stops at one pointer, or at a nil pointer
	want := s.val
	for i := s.pointers; i > 1 && want.IsValid(); i-- {
		want = want.Elem()
	}
	got = reflect.DerefValueMaxOnePtr(s.val)
	c.Check(same(got, want), "deref-value-one", "%v is derefd to %v, expected %v", s, got, want)

	mt := reflect.ValueMaxOnePtrType(s.val)
	switch s.pointers {
	case 0, 1:
		c.Check(mt == s.leafT, "max-one", "%v has type %v", s, mt)
	default:
		c.Check(mt == nil, "max-one", "%v has type %v", s, mt)
	}

	fields := reflect.FieldsByName(s.typ)
	if s.typ.Kind() == goreflect.Struct && s.typ.NumField() > 0 {
		c.Check(len(fields) == s.typ.NumField(), "fields", "%v has fields %v", s, fields)
		for i := 0; i < s.typ.NumField(); i++ {
			f := s.typ.Field(i)
			g := fields[f.Name]
			c.Check(g.Name == f.Name && g.Type == f.Type && g.Offset == f.Offset && fmt.Sprint(g.Index) == fmt.Sprint(f.Index), "fields", "%v has field %v, expected %v", s, g, f)
			g = reflect.GetFieldByName(s.typ, f.Name)
			c.Check(g.Name == f.Name && g.Type == f.Type && g.Offset == f.Offset, "field", "%v has field %v, expected %v", s, g, f)
		}
		c.Check(mc.Try(func() { reflect.GetFieldByName(s.typ, "none") }) != nil, "field", "%v has field none", s)
	} else {
		c.Check(fields == nil, "fields", "%v has fields %v", s, fields)
	}
	c.Ops(7)
}

func toBase(c *mc.C, s *subject) {
	var baseT goreflect.Type
	if s.base != nil && s.depth == 0 && s.pointers == 0 {
		baseT = goreflect.TypeOf(s.base)
	}
	got := reflect.TypeToBaseType(s.typ)
	c.Check(got == baseT, "base-type", "the base type of %v is %v, expected %v", s, got, baseT)

	// a value is converted through at most one pointer
	var want goreflect.Type
	if s.base != nil {
		want = goreflect.TypeOf(s.base)
	}
	if s.leafT == goreflect.TypeOf(sub) {
		want = goreflect.TypeOf(0)
	}
	res := reflect.ValueToBaseType(s.val)
	switch {
	case want != nil && s.pointers == 0:
		c.Check(res.IsValid() && res.Type() == want && same(res, s.val.Convert(want)), "base-value", "%v as a base value is %v of type %v", s, res, reflect.TypeOf(res))
	case want != nil && s.pointers == 1:
		c.Check(res.IsValid() && res.Type() == goreflect.PointerTo(want) && res.Pointer() == s.val.Pointer(), "base-value", "%v as a base value is %v of type %v", s, res, reflect.TypeOf(res))
	default:
		c.Check(same(res, s.val), "base-value", "%v as a base value is %v of type %v", s, res, reflect.TypeOf(res))
	}
	c.Ops(2)
}

func assertion(c *mc.C, s *subject, types []goreflect.Type) {
	typ := mc.Pick(c, types)
	val := s.val
	concrete := s.typ
	if s.typ.Kind() == goreflect.Interface {
		concrete = nil
		if !s.isNil {
			concrete = val.Elem().Type()
		}
	}
	res := reflect.ResolveValueType(val)
	if concrete == nil {
		c.Check(!res.IsValid() || res.Kind() == goreflect.Interface, "resolve", "%v is resolved to %v", s, res)
	} else {
		c.Check(res.IsValid() && res.Type() == concrete, "resolve", "%v is resolved to %v of type %v", s, res, reflect.TypeOf(res))
		if s.typ.Kind() == goreflect.Interface {
			c.Check(same(res, val.Elem()), "resolve", "%v is resolved to %v", s, res)
		} else {
			c.Check(same(res, val), "resolve", "%v is resolved to %v", s, res)
		}
	}
	var msg []string
	if c.Bool() {
		msg = []string{mc.Pick(c, []string{"", "foo", "100%"})}
	}
	err := reflect.TypeAssert(val, typ, msg...)
	p := mc.Try(func() { reflect.MustTypeAssert(val, typ, msg...) })
	if typ == concrete {
		c.Check(err == nil && p == nil, "assert", "%v is not of type %v: %v, panic %v", s, typ, err, p)
	} else {
		c.Check(err != nil && strings.Contains(err.Error(), s.typ.String()) && strings.HasSuffix(err.Error(), "not "+typ.String()), "assert", "%v is of type %v: %v", s, typ, err)
		if len(msg) > 0 && msg[0] != "" {
			c.Check(err != nil && strings.HasPrefix(err.Error(), msg[0]+": "), "assert", "%v is of type %v: %v without prefix %s", s, typ, err, msg[0])
		} else {
			c.Check(err != nil && strings.HasPrefix(err.Error(), s.typ.String()), "assert", "%v is of type %v: %v", s, typ, err)
		}
		pe, isErr := p.(error)
		c.Check(isErr && err != nil && pe.Error() == err.Error(), "assert", "%v is of type %v: %v, panic %v", s, typ, err, p)
	}
	c.Ops(3)
	c.Outcome(fmt.Sprint(err))
}

func main() {
	mc.Main("C24", "bounded exhaustive", nil, func(r *mc.Run) {
		depth := r.Budget(9, 12)
		bound := fmt.Sprintf("values of all kinds of types, nil and not, subtypes, interfaces, with up to %d pointers to them and a nil pointer at every level", depth)
		all := append(append(append([]kind{}, kinds...), named...), twins()...)
		r.Explore("classify", bound, -1, func(c *mc.C) {
			s := anySubject(c, all, depth)
			classify(c, s)
			c.Outcome(s.String())
		})
		r.Explore("unwrap", bound, -1, func(c *mc.C) {
			s := anySubject(c, all, depth)
			unwrap(c, s)
			c.Outcome(s.String())
		})
		r.Explore("base", bound, -1, func(c *mc.C) {
			s := anySubject(c, all, depth)
			toBase(c, s)
			c.Outcome(s.String())
		})
		var types []goreflect.Type
		for _, k := range all {
			types = append(types, value(k).Type(), goreflect.PointerTo(value(k).Type()))
		}
		r.Explore("assert", bound+", asserted to all types", -1, func(c *mc.C) {
			assertion(c, anySubject(c, all, 2), types)
		})
		r.Explore("interfaces", "values of all kinds in interfaces: elements, fields (hidden too) and pointers", -1, func(c *mc.C) {
			k := mc.Pick(c, kinds)
			v := value(k)
			if v.Kind() == goreflect.Interface {
				c.Prune()
			}
			var holder goreflect.Value
			switch c.Choose(4) {
			case 0:
				holder = goreflect.ValueOf([]any{v.Interface()}).Index(0)
			case 1:
				x := v.Interface()
				holder = goreflect.ValueOf(&x).Elem()
			case 2:
				holder = goreflect.ValueOf(struct{ A any }{v.Interface()}).Field(0)
			default:
				holder = goreflect.ValueOf(struct{ a any }{v.Interface()}).Field(0)
			}
			res := reflect.ResolveValueType(holder)
			c.Check(same(res, v), "resolve", "%v in an interface is resolved to %v of type %v", v.Type(), res, reflect.TypeOf(res))
			c.Check(reflect.TypeAssert(holder, v.Type()) == nil, "assert", "%v in an interface is not of the type", v.Type())
			c.Check(reflect.TypeAssert(holder, goreflect.TypeOf(kind{})) != nil, "assert", "%v in an interface is of another type", v.Type())
			c.Ops(3)
		})
		r.Explore("invalid", "no value at all", -1, func(c *mc.C) {
			var v goreflect.Value
			c.Check(!reflect.DerefValue(v).IsValid() && !reflect.DerefValueMaxOnePtr(v).IsValid() && !reflect.ResolveValueType(v).IsValid(), "invalid", "no value is derefd or resolved to something")
			c.Check(reflect.IsNillable(v) && reflect.IsNil(v) && !reflect.IsPrimitive(v), "invalid", "no value is not nil, or primitive")
			c.Check(reflect.IsNillable(goreflect.TypeOf(error(nil))), "invalid", "the type of a nil error is not nillable")
			c.Check(reflect.ValueMaxOnePtrType(v) == nil, "invalid", "no value has a type")
			c.Check(reflect.TypeOf(v) == v.String(), "invalid", "no value is of type %s", reflect.TypeOf(v))
			err := reflect.TypeAssert(v, goreflect.TypeOf(0))
			c.Check(err != nil && strings.HasSuffix(err.Error(), "not int"), "assert", "no value is an int: %v", err)
			c.Ops(9)
		})
		r.Explore("fields", "fields of structs: nested, embedded, hidden, by every name", -1, func(c *mc.C) {
			typ := goreflect.TypeOf(mc.Pick(c, []any{tree{}, inner{}, embedded{}, struct{}{}, struct{ A struct{ B int } }{}}))
			names := []string{}
			for i := 0; i < typ.NumField(); i++ {
				names = append(names, typ.Field(i).Name)
			}
			fields := reflect.FieldsByName(typ)
			c.Check(len(fields) == len(names) && (len(names) > 0 || fields == nil), "fields", "%v has fields %v", typ, fields)
			for _, n := range []string{"", "A", "B", "C", "inner", "hidden", "Value", "Any", "Parent", "value"} {
				want, is := typ.FieldByName(n)
				var got goreflect.StructField
				p := mc.Try(func() { got = reflect.GetFieldByName(typ, n) })
				c.Check((p == nil) == is && got.Name == want.Name && fmt.Sprint(got.Index) == fmt.Sprint(want.Index) && got.Type == want.Type, "field", "%v has field %q: %v, panic %v", typ, n, got, p)
				_, isErr := p.(error)
				c.Check(p == nil || isErr && strings.Contains(fmt.Sprint(p), typ.String()), "field", "%v has no field %q, panic %v", typ, n, p)
			}
			c.Ops(11)
		})
		r.Explore("many-fields", "structs of up to 300 fields: every field is found by its name", -1, func(c *mc.C) {
			n := mc.Pick(c, append(mc.Lengths(256), 300))
			var fs []goreflect.StructField
			for i := 0; i < n; i++ {
				fs = append(fs, goreflect.StructField{Name: fmt.Sprintf("F%d", i), Type: value(kinds[i%len(kinds)]).Type()})
			}
			typ := goreflect.StructOf(fs)
			fields := reflect.FieldsByName(typ)
			c.Check(len(fields) == n, "fields", "a struct of %d fields has %d", n, len(fields))
			for i := 0; i < n; i++ {
				want := typ.Field(i)
				got, one := fields[want.Name], goreflect.StructField{}
				p := mc.Try(func() { one = reflect.GetFieldByName(typ, want.Name) })
				c.Check(got.Name == want.Name && got.Type == want.Type && got.Offset == want.Offset && fmt.Sprint(got.Index) == fmt.Sprint(want.Index), "fields", "field %d of %d is %v, expected %v", i, n, got, want)
				c.Check(p == nil && one.Name == want.Name && one.Type == want.Type && one.Offset == want.Offset && fmt.Sprint(one.Index) == fmt.Sprint(want.Index), "field", "field %d of %d is %v (panic %v), expected %v", i, n, one, p, want)
			}
			c.Ops(n)
			c.Outcome(fmt.Sprint(n))
		})
		r.Explore("set", "values of all pairs of primitive types set through 0 to 8 pointers, nil at every level", -1, func(c *mc.C) {
			prims := []kind{}
			for _, k := range kinds {
				if k.prim || k.nillable && !k.iface || k.val == (inner{1, 2}) {
					prims = append(prims, k)
				}
			}
			from, s := value(mc.Pick(c, prims)), anySubject(c, prims, 8)
			if from.Type().ConvertibleTo(s.leafT) && from.Kind() == goreflect.Slice && s.leafT.Kind() == goreflect.Array {
				c.Prune()
			}
			// neighbours of the value must stay, and so must the pointers
			before := make([]uintptr, 0, 4)
			for v := s.val; v.Kind() == goreflect.Pointer; v = v.Elem() {
				before = append(before, v.Pointer())
				if v.IsNil() {
					break
				}
			}
			old := fmt.Sprintf("%#v", s.kind.val)
			p := mc.Try(func() { reflect.SetPointerValue(s.val, from) })
			ok := s.depth > 0 && s.leaf.IsValid() && from.Type().ConvertibleTo(s.leafT)
			c.Check((p == nil) == ok, "set", "setting %v to a %v: panic %v", s, from.Type(), p)
			if ok {
				got := reflect.DerefValue(s.val)
				want := from.Convert(s.leafT)
				c.Check(same(got, want), "set", "setting %v to %v gives %v", s, from, got)
			}
			i := 0
			for v := s.val; v.Kind() == goreflect.Pointer; v = v.Elem() {
				c.Check(i < len(before) && v.Pointer() == before[i], "pointers", "setting %v changes a pointer", s)
				i++
				if v.IsNil() {
					break
				}
			}
			c.Check(fmt.Sprintf("%#v", s.kind.val) == old, "set", "setting %v changes another value", s)
			c.Ops(1)
			c.Outcome(fmt.Sprint(s, ok))
		})
	})
}
