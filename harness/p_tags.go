package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	amino "github.com/tendermint/go-amino"
)

func init() { props["C25"] = propC25 }

var (
	binTags = []string{"", "fixed32", "fixed64", "fixed", "fixed64,fixed32", "varint", "FIXED64"}
	amTags  = []string{"", "unsafe", "write_empty", "empty_elements",
		"unsafe,write_empty", "write_empty,unsafe", "unsafe,empty_elements", "empty_elements,unsafe", "write_empty,empty_elements", "empty_elements,write_empty",
		"unsafe,write_empty,empty_elements", "unsafe,empty_elements,write_empty", "write_empty,unsafe,empty_elements", "write_empty,empty_elements,unsafe",
		"empty_elements,unsafe,write_empty", "empty_elements,write_empty,unsafe",
		"x", "x,unsafe", "write_empty,x", "Unsafe", "unsafe2", "write-empty", "empty_element", ",write_empty", "empty_elements,", "unsafe,unsafe"}
	jsTags = []string{"", "n", ",omitempty", "n,omitempty", "n,", ",", "-,", "-,omitempty", "n,omitempty,x", "omitempty", "n,Omitempty", " ", "a b", "F2", "\u00e9<>&\\\"", "type", "value"}
)

func tagTypes() []reflect.Type {
	vs := []interface{}{false, int8(0), int16(0), int32(0), int64(0), 0, uint8(0), uint16(0), uint32(0), uint64(0), uint(0), float32(0), float64(0), "",
		MyInt(0), MyInt64(0), MyString(""), []byte{}, [3]byte{}, [0]byte{}, uTime, reprXY{}, Empty{}, MyStruct{}, struct {
			A int64
			B float64 `amino:"unsafe"`
			C uint32
		}{}, struct {
			A int64  `binary:"fixed64"`
			B uint32 `binary:"fixed32"`
			C *int   `amino:"write_empty"`
			D string `json:",omitempty"`
		}{},
		[]int64{}, []uint64{}, []int32{}, []uint32{}, []float64{}, []float32{}, []string{}, []bool{}, []int8{}, [2]int64{}, [2]uint32{}, [2]string{}, [0]int64{}, [0]string{}, [2]float64{},
		[]*int64{}, []*string{}, []*reprXY{}, []reprXY{}, []*Empty{}, [2]*reprXY{}, [][]byte{}, []uint16{}, []CI64{},
		(*int64)(nil), (*uint32)(nil), (*string)(nil), (*float64)(nil), (*reprXY)(nil), (*[]int64)(nil), (*[]byte)(nil), (**int32)(nil), (*bool)(nil),
		AmStr{}, AmInt{}, AmU32{}, AmStruct{}, AmList{}, AmStrs{}, AmI64(0), AmU32U(0), AmFlt(0), []AmI64{}, (*AmU32U)(nil), AmIntStr(0), AmSlRev{}, []AmStr{}, (*AmStr)(nil), AmTime{},
	}
	out := []reflect.Type{tI1, tI2, reflect.SliceOf(tI1)}
	for _, v := range vs {
		out = append(out, rt(v))
	}
	return out
}

// fixedRepr: fixed-width encodings of representations of another kind belong to the finding
// about mismatched types (see C02).
func fixedRepr(t reflect.Type, bin string) bool {
	t = deref(t)
	if isList(t) && !isAmM(t) {
		t = deref(t.Elem())
	}
	if bin == "" || !isAmM(t) {
		return false
	}
	s, _ := subT(t)
	return s.Kind() != t.Kind()
}

// conform compares the codec with the reference model for a value, both ways.
func (m *Model) conform(c *Ctx, cdc *amino.Codec, key string, v reflect.Value, counts map[string]int64) bool {
	t := v.Type()
	ev, ok := chase(v)
	if !ok {
		return true
	}
	c.State(1)
	want, werr := m.marshal(ev)
	var b []byte
	var err error
	pv := try(func() { b, err = cdc.MarshalBinaryBare(v.Interface()) })
	c.Transition(1)
	c.Trace(1)
	bad := pv != nil || err != nil
	if bad != (werr != nil) || !bad && !bytes.Equal(b, want) {
		c.Violate(key, "MarshalBinaryBare gives %x, %v, %v, want %x, %v; %v: %s", b, err, pv, want, werr, goType(t), show(v))
		return false
	}
	if !bad {
		p := reflect.New(t)
		pv := try(func() { err = cdc.UnmarshalBinaryBare(b, p.Interface()) })
		c.Transition(1)
		if pv != nil || err != nil {
			c.Violate(key, "UnmarshalBinaryBare(%x): %v, %v; %v: %s", b, err, pv, goType(t), show(v))
			return false
		}
		if d := diff(m.norm(v, eopts{num: 1}), p.Elem()); d != "" {
			c.Violate(key, "%x decodes to %s, want %s: %s; %v", b, show(p.Elem()), show(m.norm(v, eopts{num: 1})), d, goType(t))
			return false
		}
		counts["binary"]++
	} else {
		counts["binary refused"]++
	}
	jwant, werr := m.marshalJSON(v)
	pv = try(func() { b, err = cdc.MarshalJSON(v.Interface()) })
	c.Transition(1)
	c.Trace(1)
	bad = pv != nil || err != nil
	if bad != (werr != nil) {
		c.Violate(key, "MarshalJSON: %v, %v, want %v; %v: %s", err, pv, werr, goType(t), show(v))
		return false
	}
	if bad {
		counts["JSON refused"]++
		return true
	}
	n, perr := jparse(b)
	if perr != nil {
		c.Violate(key, "MarshalJSON gives %q: %v", b, perr)
		return false
	}
	if d := jdiff(jwant, n, ""); d != "" {
		c.Violate(key, "MarshalJSON gives %s: %s; %v: %s", b, d, goType(t), show(v))
		return false
	}
	p := reflect.New(t)
	pv = try(func() { err = cdc.UnmarshalJSON(b, p.Interface()) })
	c.Transition(1)
	if pv != nil || err != nil {
		c.Violate(key, "UnmarshalJSON(%s): %v, %v; %v: %s", b, err, pv, goType(t), show(v))
		return false
	}
	if d := diff(m.normJ(v, eopts{}), p.Elem()); d != "" {
		c.Violate(key, "%s decodes to %s, want %s: %s; %v", b, show(p.Elem()), show(m.normJ(v, eopts{})), d, goType(t))
		return false
	}
	counts["JSON"]++
	return true
}

// C25: tags and the selection of fields.
func propC25(c *Ctx) {
	types := tagTypes()
	m := newModel(baseSetup)
	c.Bound("types", len(types))
	c.Bound("binary_tags", len(binTags))
	c.Bound("amino_tags", len(amTags))
	c.Bound("json_tags", len(jsTags))
	c.Assume("no two fields of a struct share a JSON name")
	type combo struct{ bin, am, js string }
	var combos []combo
	for _, b := range binTags {
		for _, a := range amTags {
			combos = append(combos, combo{b, a, ""})
			if c.Thorough {
				for _, j := range jsTags[1:] {
					combos = append(combos, combo{b, a, j})
				}
			}
		}
	}
	if !c.Thorough {
		for _, j := range jsTags[1:] {
			for _, a := range []string{"", "unsafe,write_empty", "write_empty,empty_elements", "empty_elements,unsafe"} {
				for _, b := range []string{"", "fixed32", "fixed64"} {
					combos = append(combos, combo{b, a, j})
				}
			}
		}
	}
	nval := 6
	if c.Thorough {
		nval = 12
	}
	c.Bound("tag_combinations", len(combos))
	const chunk = 64
	nch := (len(combos) + chunk - 1) / chunk
	c.Parallel(len(types)*nch, func(w, i int) {
		t := types[i/nch]
		g := newGen(baseSetup)
		cdc := baseSetup.codec()
		counts := map[string]int64{}
		defer c.AddOutcomes(counts)
		lo := i % nch * chunk
		hi := lo + chunk
		if hi > len(combos) {
			hi = len(combos)
		}
		for _, co := range combos[lo:hi] {
			if fixedRepr(t, co.bin) {
				continue
			}
			f := spec{t: t, bin: co.bin, am: co.am, js: co.js}
			plain := spec{t: t}
			if k := deref(t).Kind(); k == reflect.Float32 || k == reflect.Float64 || isList(t) && (t.Elem().Kind() == reflect.Float32 || t.Elem().Kind() == reflect.Float64) {
				plain.t = rt(int64(0))
			}
			in := structOf(f)
			shapes := []reflect.Type{in, structOf(sStr, plain, f, plain, spec{t: tI1})}
			if co.js == "F2" {
				shapes[1] = structOf(f)
			}
			// The options of a field don't reach into structs.
			if co.js == "" || c.Thorough {
				shapes = append(shapes, structOf(spec{t: structOf(plain, spec{t: rt(int64(0))}, spec{t: reflect.SliceOf(rt(uint32(0)))}), bin: co.bin, am: co.am, js: co.js}, sInt),
					structOf(spec{t: reflect.SliceOf(in)}, sInt))
			}
			for si, st := range shapes {
				if si == 3 && plain.t != t && !containsStr(strings.Split(co.am, ","), "unsafe") {
					// Refused for its type alone, even if the list is empty.
					continue
				}
				key := fmt.Sprintf("tags %v binary:%q amino:%q json:%q #%d", t, co.bin, co.am, co.js, si)
				c.Case(w, key, func() {
					for _, v := range g.limited(st, 0, nval<<uint(2*(1-min(si, 1)))) {
						if !m.conform(c, cdc, key, v, counts) {
							return
						}
					}
				})
			}
		}
	})
	hiddenFields(c)
	manyFields(c)
	sameNames(c)
}

// settable returns the field, even if it isn't exported.
func settable(f reflect.Value) reflect.Value {
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

// hiddenVal is something for a field that isn't encoded.
func hiddenVal(t reflect.Type) reflect.Value {
	var x interface{}
	switch t.Kind() {
	case reflect.Chan:
		x = make(chan int, 1)
	case reflect.Func:
		x = func() {}
	case reflect.Float64:
		x = 1.5
	case reflect.Complex128:
		x = 2i
	case reflect.Map:
		x = map[int]int{1: 2}
	case reflect.Interface:
		x = errTest
	case reflect.Int8:
		x = int8(9)
	case reflect.String:
		x = "hidden"
	case reflect.Ptr:
		x = newInt(9)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Slice {
			x = [][]string{{"h"}}
		} else {
			x = []string{"h", "i"}
		}
	default:
		x = struct{ F float32 }{1.5}
	}
	return reflect.ValueOf(x)
}

func sameHidden(a, b reflect.Value) bool {
	if a.Kind() == reflect.Func || a.Kind() == reflect.Chan || a.Kind() == reflect.Ptr || a.Kind() == reflect.Map {
		return a.Pointer() == b.Pointer()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// hiddenFields: every pattern of encoded, json:"-" and unexported fields,
// against the struct of the encoded ones alone.
func hiddenFields(c *Ctx) {
	c.Bound("hidden_field_patterns", len(hiddenTypes))
	c.Parallel(len(hiddenTypes), func(w, i int) {
		t := rt(hiddenTypes[i])
		key := "hidden " + t.Name()
		var fs []reflect.StructField
		var idx []int
		for k := 0; k < t.NumField(); k++ {
			f := t.Field(k)
			if strings.HasPrefix(f.Name, "F") && f.Tag == "" {
				fs = append(fs, reflect.StructField{Name: f.Name, Type: f.Type})
				idx = append(idx, k)
			}
		}
		st := reflect.StructOf(fs)
		g := newGen(Setup{})
		cdc, scdc := amino.NewCodec(), amino.NewCodec()
		counts := map[string]int64{}
		defer c.AddOutcomes(counts)
		c.Case(w, key, func() {
			// wrap puts a value into a context; hidden says where it is there.
			for ctx := 0; ctx < 5; ctx++ {
				for _, sv := range g.vals(st, 0) {
					for _, fill := range []bool{false, true} {
						v := reflect.New(t).Elem()
						for j, k := range idx {
							v.Field(k).Set(sv.Field(j))
						}
						hide := func(v reflect.Value) {
							for k := 0; k < v.NumField(); k++ {
								if f := settable(v.Field(k)); fill && (len(idx) == 0 || !containsInt(idx, k)) {
									f.Set(hiddenVal(f.Type()))
								}
							}
						}
						hide(v)
						wrap := func(v reflect.Value) reflect.Value {
							switch ctx {
							case 1:
								return mkStruct(reflect.ValueOf(3), v, v)()
							case 2:
								return mkStruct(reflect.Append(reflect.MakeSlice(reflect.SliceOf(v.Type()), 0, 2), v, v), reflect.ValueOf(""))()
							case 3:
								return mkStruct(ptrTo(v), ptrTo(v))(`amino:"write_empty"`)
							case 4:
								l := reflect.New(reflect.ArrayOf(2, v.Type())).Elem()
								l.Index(1).Set(v)
								return mkStruct(l)()
							}
							return v
						}
						x, sx := wrap(v), wrap(sv)
						for ei, e := range encFns {
							var b, sb []byte
							var err, serr error
							pv := try(func() { b, err = e.f(cdc, x.Interface()) })
							try(func() { sb, serr = e.f(scdc, sx.Interface()) })
							c.State(1)
							c.Transition(1)
							c.Trace(1)
							if pv != nil || err != nil || serr != nil || !bytes.Equal(b, sb) {
								c.Violate(key, "%s(%s) gives %x (%q), %v, %v; the struct of the encoded fields %x (%q), %v", e.name, show(x), b, b, err, pv, sb, sb, serr)
								return
							}
							for _, d := range decFns {
								if d.enc != ei {
									continue
								}
								p, sp := reflect.New(x.Type()), reflect.New(sx.Type())
								if ctx == 0 {
									hide(p.Elem())
								}
								pv := try(func() { err = d.f(cdc, b, p.Interface()) })
								try(func() { serr = d.f(scdc, sb, sp.Interface()) })
								c.Transition(1)
								c.Trace(1)
								if pv != nil || err != nil || serr != nil {
									c.Violate(key, "%s(%x): %v, %v; the struct of the encoded fields: %v", d.name, b, err, pv, serr)
									return
								}
								if ctx == 0 {
									for k := 0; k < t.NumField(); k++ {
										if containsInt(idx, k) {
											continue
										}
										f := settable(p.Elem().Field(k))
										if fill && !sameHidden(f, hiddenVal2(v, k)) && !sameHiddenFill(f) || !fill && !f.IsZero() {
											c.Violate(key, "%s(%x) changes the field %s, which isn't encoded", d.name, b, t.Field(k).Name)
											return
										}
									}
								}
								// What's visible is the same.
								if a, b := visible(p.Elem(), t, st, idx), sp.Elem(); diff(b, a) != "" {
									c.Violate(key, "%s(%x) gives %s, the struct of the encoded fields %s", d.name, sb, show(a), show(b))
									return
								}
								counts["hidden fields "+map[bool]string{true: "filled", false: "empty"}[fill]]++
							}
						}
					}
				}
			}
		})
	})
}

func hiddenVal2(v reflect.Value, k int) reflect.Value { return settable(v.Field(k)) }

// sameHiddenFill compares kinds without identity.
func sameHiddenFill(f reflect.Value) bool {
	switch f.Kind() {
	case reflect.Chan, reflect.Func:
		return !f.IsNil()
	case reflect.Ptr:
		return !f.IsNil() && f.Elem().Int() == 9
	case reflect.Map:
		return f.Len() == 1
	}
	return false
}

func containsStr(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func containsInt(l []int, x int) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// visible replaces the structs of type t by structs of their encoded fields.
func visible(v reflect.Value, t, st reflect.Type, idx []int) reflect.Value {
	switch {
	case v.Type() == t:
		out := reflect.New(st).Elem()
		for j, k := range idx {
			out.Field(j).Set(v.Field(k))
		}
		return out
	case v.Kind() == reflect.Struct:
		var fs []reflect.Value
		var tags []string
		for i := 0; i < v.NumField(); i++ {
			fs = append(fs, visible(v.Field(i), t, st, idx))
			tags = append(tags, string(v.Type().Field(i).Tag))
		}
		return mkStruct(fs...)(tags...)
	case v.Kind() == reflect.Ptr && v.Type().Elem() == t:
		if v.IsNil() {
			return reflect.Zero(reflect.PtrTo(st))
		}
		return ptrTo(visible(v.Elem(), t, st, idx))
	case v.Kind() == reflect.Slice && v.Type().Elem() == t:
		if v.IsNil() {
			return reflect.Zero(reflect.SliceOf(st))
		}
		out := reflect.MakeSlice(reflect.SliceOf(st), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(visible(v.Index(i), t, st, idx))
		}
		return out
	case v.Kind() == reflect.Array && v.Type().Elem() == t:
		out := reflect.New(reflect.ArrayOf(v.Len(), st)).Elem()
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(visible(v.Index(i), t, st, idx))
		}
		return out
	}
	return v
}

// manyFields: numbers with keys of one, two and three bytes, with fields that
// aren't encoded in between.
func manyFields(c *Ctx) {
	m := newModel(baseSetup)
	counts := []int{14, 15, 16, 17, 126, 127, 128, 129, 2046, 2047, 2048, 2049}
	c.Parallel(len(counts), func(w, i int) {
		n := counts[i]
		key := fmt.Sprintf("%d fields", n)
		c.Case(w, key, func() {
			cdc := baseSetup.codec()
			g := newGen(baseSetup)
			out := map[string]int64{}
			for _, l := range []spec{sInt, sStr, sStrs, sPtr, {t: tI1}, {t: tTime}, {t: rt(int64(0)), bin: "fixed64"}, {t: rt([]uint32{}), bin: "fixed32"}, {t: rt([]reprXY{})}, {t: rt("")}} {
				var fs []spec
				for k := 0; k < n; k++ {
					if k%5 == 3 {
						fs = append(fs, spec{t: rt(uint16(0)), js: "-"})
					}
					fs = append(fs, sI8)
				}
				t := structOf(append(fs, l, spec{t: rt(1i), js: "-"}, sI8)...)
				last := t.NumField() - 3
				for _, v := range g.limited(l.t, 1, 12) {
					x := reflect.New(t).Elem()
					x.Field(last).Set(v)
					x.Field(0).SetInt(-1)
					x.Field(last + 2).SetInt(5)
					for k := 0; k < last; k++ {
						if x.Field(k).Kind() == reflect.Uint16 {
							x.Field(k).SetUint(7)
						}
					}
					y := reflect.New(t).Elem() // without what isn't encoded
					for k := 0; k <= last+2; k++ {
						if t.Field(k).Tag.Get("json") != "-" {
							y.Field(k).Set(x.Field(k))
						}
					}
					b, err := cdc.MarshalBinaryBare(x.Interface())
					b2, err2 := cdc.MarshalBinaryBare(y.Interface())
					if err != nil || err2 != nil || !bytes.Equal(b, b2) {
						c.Violate(key, "fields that aren't encoded matter: %x, %v; %x, %v", b, err, b2, err2)
						return
					}
					if !m.conform(c, cdc, key, y, out) {
						return
					}
				}
			}
			c.AddOutcomes(out)
		})
	})
}

// sameNames: distinct types of the same name, in all orders on one codec.
func sameNames(c *Ctx) {
	ts := localTypes()
	m := newModel(baseSetup)
	var orders [][]int
	for a := range ts {
		for b := range ts {
			for d := range ts {
				for e := range ts {
					orders = append(orders, []int{a, b, d, e})
				}
			}
		}
	}
	c.Bound("orders_of_same_named_types", len(orders))
	c.Parallel(len(orders), func(w, i int) {
		key := fmt.Sprintf("types of one name, order %v", orders[i])
		c.Case(w, key, func() {
			out := map[string]int64{}
			g := newGen(baseSetup)
			for _, f := range []func(t reflect.Type) reflect.Type{
				func(t reflect.Type) reflect.Type { return t },
				func(t reflect.Type) reflect.Type { return structOf(spec{t: t}, sInt) },
				func(t reflect.Type) reflect.Type { return structOf(sInt, spec{t: reflect.PtrTo(t)}) },
				func(t reflect.Type) reflect.Type {
					if t.Kind() != reflect.Struct {
						return structOf(spec{t: t}, spec{t: t})
					}
					return structOf(spec{t: reflect.SliceOf(t)})
				},
			} {
				cdc := baseSetup.codec()
				for _, k := range orders[i] {
					for _, v := range g.limited(f(ts[k]), 1, 20) {
						if !m.conform(c, cdc, key, v, out) {
							return
						}
					}
				}
			}
			c.AddOutcomes(out)
		})
	})
}
