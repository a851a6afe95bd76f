// P23: the type helpers agree with Go's type identity.
package main

import (
	ht "html/template"
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"reflect"
	tt "text/template"
	"time"

	xreflect "github.com/vipally/gx/reflect"
	. "vgx/pbt"
)

func main() {
	Main(Spec{
		Prop: "P23",
		Rule: "a case is a pair of types built by generated composition (basic and named types, pointers, slices, arrays, maps, channels, functions, structs) with generated contents: new values, type comparison, kind and the comparable-builtin test against Go's own type identity; non-trivial: at least one composed or named type",
		Checks: []Check{
			{Name: "types", Quick: 150000, Thorough: 5000000, Fn: types},
		},
	})
}

type I int
type S string
type F float64
type St struct {
	A int
	B string
}
type E struct{}

// types of equal names and layouts that are different ones
func local1() interface{} { type T int; return T(0) }
func local2() interface{} { type T int; return T(0) }
func local3() interface{} { type T struct{ A, B int }; return T{} }
func local4() interface{} { type T struct{ A, B int }; return T{} }
func local5() interface{} { type S string; return S("") }

type Gen[T any] struct{ V int }

var namesakes = []interface{}{local1(), local2(), local3(), local4(), local5(), S(""), Gen[int]{}, Gen[string]{},
	ht.Template{}, tt.Template{}, ht.HTML(""), mrand.Zipf{}, mrand2.Zipf{}, mrand.Rand{}, mrand2.Rand{},
	struct {
		A int `a:"1"`
	}{}, struct {
		A int `a:"2"`
	}{}, struct{ a int }{}, struct{ St }{}, struct{ St St }{}, (func(int))(nil), (func(...int))(nil), (func([]int))(nil),
	func(int) error { return nil }, (*error)(nil), (*interface{})(nil), (*interface{ Error() string })(nil), int32('a'), uint8('a')}

var basics = []interface{}{int(0), uint(0), int8(0), uint8(0), int16(0), uint16(0), int32(0), uint32(0), int64(0), uint64(0), "", float32(0), float64(0)}
var others = []interface{}{false, uintptr(0), complex64(0), complex128(0), I(0), S(""), F(0), St{}, E{}, time.Duration(0), time.Time{}, error(nil), struct{ A int }{}, reflect.Invalid}

func typ(g *G, depth int) (reflect.Type, bool) {
	k := 0
	if depth < 3 {
		k = g.N(10)
	} else {
		k = g.N(3)
	}
	switch k {
	default:
		return reflect.TypeOf(Pick(g, basics)), false
	case 2:
		v := Pick(g, others)
		if g.Bool() {
			v = Pick(g, namesakes)
		}
		if v == nil {
			v = 0
		}
		return reflect.TypeOf(v), true
	case 3:
		t, _ := typ(g, depth+1)
		return reflect.PtrTo(t), true
	case 4:
		t, _ := typ(g, depth+1)
		return reflect.SliceOf(t), true
	case 5:
		t, _ := typ(g, depth+1)
		return reflect.ArrayOf(g.N(3), t), true
	case 6:
		t, _ := typ(g, depth+1)
		return reflect.MapOf(reflect.TypeOf(Pick(g, basics)), t), true
	case 7:
		t, _ := typ(g, depth+1)
		return reflect.ChanOf(reflect.ChanDir(1+g.N(3)), t), true
	case 8:
		t, _ := typ(g, depth+1)
		return reflect.FuncOf([]reflect.Type{t}, nil, false), true
	case 9:
		t, _ := typ(g, depth+1)
		return reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: reflect.TypeOf(0)}}), true
	}
}

func fill(g *G, v reflect.Value) {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(1 + g.N(100)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(1 + g.N(100)))
	case reflect.String:
		v.SetString("full")
	case reflect.Float32, reflect.Float64:
		v.SetFloat(2.5)
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 3))
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
	case reflect.Chan:
		if v.Type().ChanDir() == reflect.BothDir {
			v.Set(reflect.MakeChan(v.Type(), 1))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(g, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(g, v.Field(i))
			}
		}
	}
}

func types(g *G) {
	ta, ca := typ(g, 0)
	tb, cb := typ(g, 0)
	switch g.N(5) {
	case 0:
		tb, cb = ta, ca
	case 1: // namesakes, alone or wrapped alike
		ta, tb = reflect.TypeOf(Pick(g, namesakes)), reflect.TypeOf(Pick(g, namesakes))
		ca, cb = true, true
		for n := g.N(3); n > 0; n-- {
			switch g.N(4) {
			case 0:
				ta, tb = reflect.PtrTo(ta), reflect.PtrTo(tb)
			case 1:
				ta, tb = reflect.SliceOf(ta), reflect.SliceOf(tb)
			case 2:
				ta, tb = reflect.ArrayOf(2, ta), reflect.ArrayOf(2, tb)
			case 3:
				ta, tb = reflect.MapOf(reflect.TypeOf(""), ta), reflect.MapOf(reflect.TypeOf(""), tb)
			}
		}
	}
	if ca || cb {
		g.NonTrivial()
	}
	va, vb := reflect.New(ta).Elem(), reflect.New(tb).Elem()
	if g.Bool() {
		fill(g, va)
	}
	if g.Bool() {
		fill(g, vb)
	}
	a, b := va.Interface(), vb.Interface()
	g.Logf("%v and %v", ta, tb)
	g.Check(xreflect.IsSameType(a, b) == (ta == tb), "IsSameType of %v and %v = %v", ta, tb, xreflect.IsSameType(a, b))
	g.Check(xreflect.IsSameType(b, a) == (ta == tb), "IsSameType of %v and %v = %v", tb, ta, xreflect.IsSameType(b, a))
	g.Check(xreflect.IsSameType(nil, nil) && !xreflect.IsSameType(a, nil) && !xreflect.IsSameType(nil, a), "IsSameType with nil and %v", ta)
	g.Check(xreflect.Kind(a) == ta.Kind(), "Kind of %v = %v", ta, xreflect.Kind(a))
	inner := false
	for _, x := range basics {
		inner = inner || reflect.TypeOf(x) == ta
	}
	g.Check(xreflect.IsCmpableInnterType(a) == inner, "IsCmpableInnterType of %v = %v", ta, xreflect.IsCmpableInnterType(a))
	n, m := xreflect.New(a), xreflect.New(a)
	rn, rm := reflect.ValueOf(n), reflect.ValueOf(m)
	g.Check(rn.Type() == reflect.PtrTo(ta), "New of a %v is a %v", ta, rn.Type())
	g.Check(!rn.IsNil() && rn.Elem().IsZero(), "New of a %v is not a new zero value: %v", ta, n)
	if ta.Size() > 0 {
		g.Check(rn.Pointer() != rm.Pointer(), "New of a %v gives the same object twice", ta)
		fill(g, rn.Elem())
		g.Check(rm.Elem().IsZero(), "objects made by New of a %v share memory", ta)
	}
}
