package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"
	"unsafe"

	amino "github.com/tendermint/go-amino"
)

func init() { props["C26"] = propC26 }

// Types whose representation isn't supported.
type (
	uAmFloat struct{ f float64 }
	uAmMap   struct{ m map[string]int }
	uAmFunc  struct{ f func() }
	uAmIface struct{ f interface{} }
	uAmMulti struct{ l [][]string }
	uIface   interface{ uIface() }
	uImpl    struct{ A int }
)

func (u uAmFloat) MarshalAmino() (float64, error)       { return u.f, nil }
func (u *uAmFloat) UnmarshalAmino(f float64) error      { u.f = f; return nil }
func (u uAmMap) MarshalAmino() (map[string]int, error)  { return u.m, nil }
func (u *uAmMap) UnmarshalAmino(m map[string]int) error { u.m = m; return nil }
func (u uAmFunc) MarshalAmino() (func(), error)         { return u.f, nil }
func (u *uAmFunc) UnmarshalAmino(f func()) error        { u.f = f; return nil }
func (u uAmIface) MarshalAmino() (interface{}, error)   { return u.f, nil }
func (u *uAmIface) UnmarshalAmino(f interface{}) error  { u.f = f; return nil }
func (u uAmMulti) MarshalAmino() ([][]string, error)    { return u.l, nil }
func (u *uAmMulti) UnmarshalAmino(l [][]string) error   { u.l = l; return nil }
func (uImpl) uIface()                                   {}

var errTest = errors.New("test")

var uTime = time.Unix(1e9, 5)

// unsup is a type that isn't supported in binary or in JSON, with values that
// hold data.
type unsup struct {
	name   string
	t      reflect.Type
	vals   []interface{}
	binary bool // not supported in binary
	json   bool // not supported in JSON
	opaque bool // a float: no value of a struct with such a field is accepted
}

func unsups() []unsup {
	n := 5
	ch := make(chan int)
	fn := func() {}
	one := func(name string, bin, js bool, vals ...interface{}) unsup {
		return unsup{name: name, t: rt(vals[0]), vals: vals, binary: bin, json: js}
	}
	iface := func(name string, p interface{}, vals ...interface{}) unsup {
		return unsup{name: name, t: reflect.TypeOf(p).Elem(), vals: vals, binary: true, json: true}
	}
	out := []unsup{
		one("float32", true, true, float32(1.5), float32(0)), one("float64", true, true, 1.5, 0.0),
		one("complex64", true, true, complex64(1)), one("complex128", true, true, complex128(1i)),
		one("chan", true, true, ch), one("<-chan", true, true, (<-chan int)(ch)), one("func", true, true, fn), one("func(int)string", true, true, func(int) string { return "" }),
		one("uintptr", true, true, uintptr(5)), one("unsafe.Pointer", true, true, unsafe.Pointer(&n)),
		one("map[string]int", true, false, map[string]int{"a": 1}), one("map[string]*int", true, false, map[string]*int{"a": nil}),
		one("map[int]int", true, true, map[int]int{1: 1}), one("map[bool]string", true, true, map[bool]string{true: "x"}),
		one("map[iface]int", true, true, map[interface{}]int{"a": 1}), one("map[[1]string]int", true, true, map[[1]string]int{{"a"}: 1}),
		one("map[string]chan", true, true, map[string]chan int{"a": ch}), one("map[string]float64", true, true, map[string]float64{"a": 1.5}),
		one("[]float64", true, true, []float64{1.5}), one("[2]float32", true, true, [2]float32{1, 2}), one("[]complex128", true, true, []complex128{1}),
		one("[]chan", true, true, []chan int{ch}), one("[]func", true, true, []func(){fn}), one("[1]uintptr", true, true, [1]uintptr{5}), one("[]map", true, false, []map[string]int{{"a": 1}}),
		one("[][]string", true, false, [][]string{{"a"}}), one("[2][2]string", true, false, [2][2]string{}), one("[][][]int", true, false, [][][]int{{{1}}}),
		one("[][]struct", true, false, [][]reprXY{{{1, ""}}}), one("[][][][]byte-like", true, false, [][][]string{{{"a"}}}), one("[][]interface", true, true, [][]interface{}{{1}}),
		one("[][2]string", true, false, [][2]string{{"a"}}), one("[2][]string", true, false, [2][]string{{"a"}}, [2][]string{}), one("[][2]int8", true, false, [][2]int8{{1, 2}}, [][2]int8{{}}),
		one("[2][]int", true, false, [2][]int{{1}, {2}}), one("[1][1]bool", true, false, [1][1]bool{{true}}), one("[][]uint16", true, false, [][]uint16{{1}}),
		one("[][1]struct", true, false, [][1]reprXY{{{1, ""}}}), one("[1][]time", true, false, [1][]reflectTime{{{}}}),
		one("[][]time", true, false, [][]reflectTime{{{}}}),
		one("uAmFloat", true, true, uAmFloat{1.5}), one("uAmMap", true, false, uAmMap{map[string]int{"a": 1}}), one("uAmFunc", true, true, uAmFunc{fn}),
		one("uAmIface", true, true, uAmIface{1}), one("uAmMulti", true, false, uAmMulti{[][]string{{"a"}}}),
		one("struct{float64}", true, true, struct{ A float64 }{1}, struct{ A float64 }{}), one("struct{*float64}", true, true, struct{ A *float64 }{new(float64)}),
		one("struct{chan}", true, true, struct{ A chan int }{ch}), one("struct{int,[]float32}", true, true, struct {
			A int
			B []float32
		}{1, []float32{1}}),
		iface("interface{}", (*interface{})(nil), 1, "s", uImpl{1}, &uImpl{1}, CStruct{A: 1}, []int{1}), iface("uIface", (*uIface)(nil), uImpl{1}, &uImpl{1}, uImpl{}),
		iface("error", (*error)(nil), errTest),
		iface("I1 unregistered", (*I1)(nil), Unreg{1}, &Unreg{1}, Unreg{}), iface("I1 nil pointer", (*I1)(nil), (*CStruct)(nil), (*CPtr)(nil), (*CInt)(nil)),
		iface("I2 unregistered", (*I2)(nil), uI2{1}),
	}
	return out
}

type reflectTime struct{ A int }
type uI2 struct{ A int }

func (uI2) I2m() {}

type uPos struct {
	name string
	f    func(v reflect.Value) reflect.Value // the value in a position where it's encoded
	deep bool                                // not a list element or field of t
}

func mkStruct(fs ...reflect.Value) func(tags ...string) reflect.Value {
	return func(tags ...string) reflect.Value {
		sf := make([]reflect.StructField, len(fs))
		for i, f := range fs {
			sf[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i+1), Type: f.Type()}
			if i < len(tags) {
				sf[i].Tag = reflect.StructTag(tags[i])
			}
		}
		out := reflect.New(reflect.StructOf(sf)).Elem()
		for i, f := range fs {
			out.Field(i).Set(f)
		}
		return out
	}
}

func uPositions() []uPos {
	val := reflect.ValueOf
	slice := func(vs ...reflect.Value) reflect.Value {
		out := reflect.MakeSlice(reflect.SliceOf(vs[0].Type()), 0, len(vs))
		return reflect.Append(out, vs...)
	}
	array := func(vs ...reflect.Value) reflect.Value {
		out := reflect.New(reflect.ArrayOf(len(vs), vs[0].Type())).Elem()
		for i, v := range vs {
			out.Index(i).Set(v)
		}
		return out
	}
	z := func(v reflect.Value) reflect.Value { return reflect.Zero(v.Type()) }
	inAny := func(v reflect.Value) reflect.Value {
		out := reflect.New(reflect.TypeOf((*interface{})(nil)).Elem()).Elem()
		out.Set(v)
		return out
	}
	return []uPos{
		{"top", func(v reflect.Value) reflect.Value { return v }, false},
		{"*top", func(v reflect.Value) reflect.Value { return ptrTo(v) }, false},
		{"{.}", func(v reflect.Value) reflect.Value { return mkStruct(v)() }, false},
		{"{int,.,int}", func(v reflect.Value) reflect.Value { return mkStruct(val(1), v, val(2))() }, false},
		{"{.+write_empty}", func(v reflect.Value) reflect.Value { return mkStruct(v)(`amino:"write_empty"`) }, false},
		{"{.+empty_elements}", func(v reflect.Value) reflect.Value { return mkStruct(v)(`amino:"empty_elements"`) }, false},
		{"{.+omitempty}", func(v reflect.Value) reflect.Value { return mkStruct(v)(`json:",omitempty"`) }, false},
		{"{.+fixed64}", func(v reflect.Value) reflect.Value { return mkStruct(v)(`binary:"fixed64"`) }, false},
		{"{*.}", func(v reflect.Value) reflect.Value { return mkStruct(ptrTo(v))() }, false},
		{"{**.}", func(v reflect.Value) reflect.Value { return mkStruct(ptrTo(ptrTo(v)))() }, false},
		{"{{.}}", func(v reflect.Value) reflect.Value { return mkStruct(mkStruct(v)())() }, false},
		{"{*{.},int}", func(v reflect.Value) reflect.Value { return mkStruct(ptrTo(mkStruct(v)()), val(1))() }, false},
		{"[]", func(v reflect.Value) reflect.Value { return slice(v) }, false},
		{"[]2nd", func(v reflect.Value) reflect.Value { return slice(z(v), v) }, false},
		{"[2]", func(v reflect.Value) reflect.Value { return array(z(v), v) }, false},
		{"[]*", func(v reflect.Value) reflect.Value { return slice(ptrTo(v)) }, false},
		{"{[]}", func(v reflect.Value) reflect.Value { return mkStruct(slice(v, v))() }, false},
		{"{[1]}", func(v reflect.Value) reflect.Value { return mkStruct(array(v), val(""))() }, false},
		{"{[]*}", func(v reflect.Value) reflect.Value { return mkStruct(slice(ptrTo(v)))() }, false},
		{"{*[]}", func(v reflect.Value) reflect.Value { return mkStruct(ptrTo(slice(v)))() }, false},
		{"[]{.}", func(v reflect.Value) reflect.Value { return slice(mkStruct(v)()) }, false},
		{"{[]{.}}", func(v reflect.Value) reflect.Value { return mkStruct(slice(mkStruct(v, val(1))()))() }, false},
		{"{[]*{.}}", func(v reflect.Value) reflect.Value { return mkStruct(slice(ptrTo(mkStruct(v, val(1))())))() }, false},
		{"map", func(v reflect.Value) reflect.Value {
			m := reflect.MakeMap(reflect.MapOf(rt(""), v.Type()))
			m.SetMapIndex(val("k"), v)
			return m
		}, false},
		{"{map{.}}", func(v reflect.Value) reflect.Value {
			s := mkStruct(v)()
			m := reflect.MakeMap(reflect.MapOf(rt(""), s.Type()))
			m.SetMapIndex(val("k"), s)
			return mkStruct(m)()
		}, false},
		{"{iface}", func(v reflect.Value) reflect.Value { return mkStruct(inAny(v))() }, true},
		{"{iface{.}}", func(v reflect.Value) reflect.Value { return mkStruct(inAny(mkStruct(v)()))() }, true},
		{"[]iface*{.}", func(v reflect.Value) reflect.Value { return slice(inAny(ptrTo(mkStruct(v)()))) }, true},
	}
}

// lenient: a struct field may hold a list of lists, which loses nothing.
func lenient(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return v.IsNil() || lenient(v.Elem())
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !lenient(v.Index(i)) || isList2(v.Type().Elem()) {
				return false
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !isList2(f.Type()) {
				if !lenient(f) {
					return false
				}
			} else if e := f.Type().Elem().Elem(); isList2(f.Type().Elem()) || !plainElem(e.Kind()) {
				return false
			}
		}
	case reflect.Map, reflect.Chan, reflect.Func, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
		return false
	}
	return true
}

// plainElem: booleans, integers, strings and structs.
func plainElem(k reflect.Kind) bool {
	return reflect.Bool <= k && k <= reflect.Uint64 || k == reflect.String || k == reflect.Struct
}

// isList2: a list of lists other than byte lists.
func isList2(t reflect.Type) bool {
	list := func(t reflect.Type) bool {
		return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem().Kind() != reflect.Uint8
	}
	return list(t) && list(t.Elem())
}

// C26: refusal of what isn't supported.
func propC26(c *Ctx) {
	us, ps := unsups(), uPositions()
	c.Bound("unsupported_types", len(us))
	c.Bound("positions", len(ps))
	c.Parallel(len(us), func(w, i int) {
		u := us[i]
		counts := map[string]int64{}
		for _, ps := range ps {
			key := u.name + " in " + ps.name
			c.Case(w, key, func() {
				for _, x := range u.vals {
					in := reflect.New(u.t).Elem()
					in.Set(reflect.ValueOf(x))
					if u.t.Kind() == reflect.Interface && strings.Contains(ps.name, "iface") {
						continue
					}
					v := ps.f(in)
					if v.Kind() == reflect.Interface {
						continue
					}
					mk := func() *amino.Codec {
						cdc := baseSetup.codec()
						if ps.deep { // what the interface holds is registered as far as that's possible
							cdc.RegisterInterface((*interface{})(nil), &amino.InterfaceOptions{Priority: []string{collName1, collName2}})
							e := v
							for e.Kind() != reflect.Interface {
								if e.Kind() == reflect.Struct {
									e = e.Field(0)
								} else {
									e = e.Index(0)
								}
							}
							try(func() { cdc.RegisterConcrete(e.Interface(), "held", nil) })
						}
						return cdc
					}
					for _, e := range encFns {
						if e.json && !u.json || !e.json && !u.binary {
							continue
						}
						cdc := mk()
						var b []byte
						var err error
						pv := try(func() { b, err = e.f(cdc, v.Interface()) })
						c.State(1)
						c.Transition(1)
						c.Trace(1)
						switch {
						case pv != nil:
							counts["panic"]++
						case err != nil:
							counts["error"]++
						case !e.json && strings.Contains(u.name, "][") && lenient(v):
							counts["list of lists in a field"]++
							p := reflect.New(v.Type())
							if e.name != "MarshalBinaryBare" || ps.deep {
								continue
							}
							if err := cdc.UnmarshalBinaryBare(b, p.Interface()); err != nil || !reflect.DeepEqual(p.Elem().Interface(), v.Interface()) {
								c.Violate(key, "%s(%#v) gives %x, which decodes to %#v, %v", e.name, v.Interface(), b, p.Elem().Interface(), err)
							}
						default:
							c.Violate(key, "%s(%T) gives %x (%q)", e.name, v.Interface(), b, b)
							return
						}
					}
				}
			})
		}
		c.AddOutcomes(counts)
	})
	unsupDecode(c, us, ps)
	nilElements(c)
	nilTop(c)
}

// unsupDecode: what encodes to a supported value in a position isn't accepted
// for an unsupported type in that position.
func unsupDecode(c *Ctx, us []unsup, ps []uPos) {
	type sub struct {
		name string
		v    interface{}
	}
	subs := []sub{
		{"int", 1}, {"int8", int8(-1)}, {"uint", uint(300)}, {"bool", true}, {"string", "a"}, {"string4", "\x01\x02\x03\x04"}, {"bytes", []byte{1, 2}},
		{"[]int", []int{1, 2}}, {"[1]int", [1]int{1}}, {"[]string", []string{"a", ""}}, {"struct", struct{ A int }{1}}, {"struct2", struct {
			A int
			B []int
		}{1, []int{1}}}, {"[]struct", []struct{ A int }{{1}, {}}}, {"F64", mkFixed()}, {"F32", mkFixed32()}, {"map", map[string]string{"a": "b"}}, {"time", uTime},
		{"CStruct", CStruct{A: 1}}, {"CInt", CInt(1)},
	}
	cdc0 := baseSetup.codec()
	for pi := range ps {
		for si := range subs {
			try(func() { cdc0.MarshalBinaryBare(ps[pi].f(reflect.ValueOf(subs[si].v)).Interface()) })
		}
	}
	c.Parallel(len(us), func(w, i int) {
		u := us[i]
		counts := map[string]int64{}
		cdc := baseSetup.codec()
		for _, ps := range ps {
			if ps.deep {
				continue
			}
			key := "decode " + u.name + " in " + ps.name
			c.Case(w, key, func() {
				in := reflect.New(u.t).Elem()
				in.Set(reflect.ValueOf(u.vals[0]))
				dst := ps.f(in)
				if dst.Kind() == reflect.Interface || u.t.Kind() == reflect.Interface && ps.name == "top" {
					dst = reflect.New(u.t).Elem()
				}
				// The decoder reads lists of lists as the encoder would have
				// written them: nothing is lost.
				okLists := strings.Contains(u.name, "][") || u.name == "uAmMulti"
				for _, sb := range subs {
					if strings.HasPrefix(u.name, "struct") {
						// the substitute has the same fields
						if (u.name == "struct{int,[]float32}") != (sb.name == "struct2") || strings.HasPrefix(sb.name, "C") || sb.name == "map" {
							continue
						}
					}
					if u.t.Kind() == reflect.Interface && strings.HasPrefix(u.name, "I") && strings.HasPrefix(sb.name, "C") {
						continue // registered
					}
					src := ps.f(reflect.ValueOf(sb.v))
					for _, d := range decFns {
						e := encFns[d.enc]
						if e.json && !u.json || !e.json && (!u.binary || okLists) {
							continue
						}
						var b []byte
						var err error
						if pv := try(func() { b, err = e.f(cdc, src.Interface()) }); pv != nil || err != nil {
							continue
						}
						p := reflect.New(dst.Type())
						pv := try(func() { err = d.f(cdc, b, p.Interface()) })
						c.State(1)
						c.Transition(1)
						c.Trace(1)
						switch {
						case pv != nil:
							counts["decode panic"]++
						case err != nil:
							counts["decode error"]++
						default:
							c.Violate(key, "%s(%x (%q), *%v) gives %#v", d.name, b, b, dst.Type(), p.Elem().Interface())
							return
						}
					}
				}
			})
		}
		c.AddOutcomes(counts)
	})
}

// nilElements: nil pointers to structs in lists with empty_elements.
func nilElements(c *Ctx) {
	elems := []reflect.Type{rt(struct{ A int }{}), rt(struct{ A, B string }{}), rt(struct{}{}), rt(uTime), rt(CStruct{}), rt(CNest{}), rt(struct {
		T []*CStruct `amino:"empty_elements"`
	}{}), rt(struct{ P *int }{})}
	tags := []string{`amino:"empty_elements"`, `amino:"empty_elements,write_empty"`, `amino:"unsafe,empty_elements"`, `json:"x,omitempty" amino:"empty_elements"`}
	type shape struct {
		name string
		f    func(l reflect.Value) reflect.Value
	}
	ps := uPositions()
	c.Parallel(len(elems), func(w, i int) {
		counts := map[string]int64{}
		cdc := baseSetup.codec()
		full := reflect.New(elems[i])
		for depth := 1; depth <= 2; depth++ {
			pt := elems[i]
			pv := full.Elem()
			for k := 0; k < depth; k++ {
				pt, pv = reflect.PtrTo(pt), ptrTo(pv)
			}
			for n := 1; n <= 3; n++ {
				for mask := 0; mask < 1<<uint(n); mask++ { // which elements are nil
					for _, arr := range []bool{false, true} {
						lt := reflect.SliceOf(pt)
						if arr {
							lt = reflect.ArrayOf(n, pt)
						}
						l := reflect.New(lt).Elem()
						if !arr {
							l.Set(reflect.MakeSlice(lt, n, n))
						}
						for k := 0; k < n; k++ {
							if mask&(1<<uint(k)) == 0 {
								l.Index(k).Set(pv)
							}
						}
						for _, tag := range tags {
							for _, pp := range append([]uPos{{"ptr", func(v reflect.Value) reflect.Value { return v }, false}}, ps...) {
								if pp.deep || strings.Contains(pp.name, "map") {
									continue
								}
								v := pp.f(mkStruct(reflect.ValueOf(1), l)("", tag))
								if pp.name == "ptr" { // the list itself behind a pointer
									v = mkStruct(reflect.ValueOf(1), ptrTo(l))("", tag)
								}
								key := fmt.Sprintf("nil elements %v depth %d n=%d mask=%d array=%v %s in %s", elems[i], depth, n, mask, arr, tag, pp.name)
								c.Case(w, key, func() {
									for _, e := range encFns[:3] {
										var b []byte
										var err error
										pv := try(func() { b, err = e.f(cdc, v.Interface()) })
										c.State(1)
										c.Transition(1)
										c.Trace(1)
										switch {
										case pv != nil:
											c.Violate(key, "%s(%T) panics: %v", e.name, v.Interface(), pv)
										case mask != 0 && err == nil:
											c.Violate(key, "%s(%T) gives %x", e.name, v.Interface(), b)
										case mask == 0 && err != nil && !(arr && strings.Contains(pp.name, "2")): // no zero arrays
											c.Violate(key, "%s(%T): %v", e.name, v.Interface(), err)
										case err != nil:
											counts["nil element refused"]++
										default:
											counts["no nil element"]++
										}
									}
								})
							}
						}
					}
				}
			}
		}
		c.AddOutcomes(counts)
	})
}

// nilTop: nil pointers at the top level, in binary.
func nilTop(c *Ctx) {
	ts := typeSpace(c.Thorough)
	c.Parallel(len(ts), func(w, i int) {
		key := "nil pointer to " + ts[i].key
		c.Case(w, key, func() {
			cdc := baseSetup.codec()
			for depth := 1; depth <= 3; depth++ {
				// *T, a pointer to a nil *T, ...
				v := reflect.Zero(reflect.PtrTo(ts[i].t))
				for k := 1; k < depth; k++ {
					v = ptrTo(v)
				}
				for _, e := range encFns[:3] {
					var b []byte
					var err error
					pv := try(func() { b, err = e.f(cdc, v.Interface()) })
					c.State(1)
					c.Transition(1)
					c.Trace(1)
					if pv == nil && err == nil {
						c.Violate(key, "%s of a nil pointer (depth %d) gives %x", e.name, depth, b)
					}
				}
			}
			c.Outcome("nil pointer refused")
		})
	})
}

func mkFixed() interface{} {
	type F uint64
	return reflect.ValueOf(struct {
		A F `binary:"fixed64"`
	}{5}).Interface()
}

func mkFixed32() interface{} {
	return struct {
		A int32 `binary:"fixed32"`
	}{5}
}
