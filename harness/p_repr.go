package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"

	amino "github.com/tendermint/go-amino"
)

func init() { props["C22"] = propC22 }

// subT replaces every type with a representation by what represents it in the
// end; ok is false if there's no such type.
func subT(t reflect.Type) (reflect.Type, bool) {
	if t == tTime {
		return t, true
	}
	if m, ok := t.MethodByName("MarshalAmino"); ok && t.Kind() != reflect.Interface {
		if t.Kind() == reflect.Ptr {
			e, ok := subT(t.Elem())
			return reflect.PtrTo(e), ok && e.Kind() != reflect.Interface
		}
		return subT(m.Type.Out(0))
	}
	switch t.Kind() {
	case reflect.Ptr:
		e, ok := subT(t.Elem())
		return reflect.PtrTo(e), ok && (e.Kind() != reflect.Interface || t.Elem().Kind() == reflect.Interface)
	case reflect.Slice, reflect.Array:
		e, ok := subT(t.Elem())
		if !ok || e == t.Elem() {
			return t, ok
		}
		if t.Kind() == reflect.Slice {
			return reflect.SliceOf(e), true
		}
		return reflect.ArrayOf(t.Len(), e), true
	case reflect.Map:
		e, ok := subT(t.Elem())
		if !ok || e == t.Elem() {
			return t, ok
		}
		return reflect.MapOf(t.Key(), e), true
	case reflect.Struct:
		if t.Name() != "" {
			return t, true
		}
		fs := make([]reflect.StructField, t.NumField())
		same := true
		for i := range fs {
			fs[i] = t.Field(i)
			e, ok := subT(fs[i].Type)
			if !ok {
				return t, false
			}
			same = same && e == fs[i].Type
			fs[i].Type = e
			fs[i].Offset, fs[i].Index = 0, nil
		}
		if same {
			return t, true
		}
		return reflect.StructOf(fs), true
	}
	return t, true
}

// subV represents a value.
func subV(v reflect.Value, t reflect.Type) (reflect.Value, error) {
	if v.Type() == t {
		return v, nil
	}
	out := reflect.New(t).Elem()
	if v.Kind() != reflect.Ptr && isAmM(v.Type()) {
		r, err := repr(v)
		if err != nil {
			return out, err
		}
		return subV(r, t)
	}
	set := func(dst, src reflect.Value) error {
		s, err := subV(src, dst.Type())
		if err == nil {
			dst.Set(s)
		}
		return err
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return out, nil
		}
		out.Set(reflect.New(t.Elem()))
		return out, set(out.Elem(), v.Elem())
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice {
			if v.IsNil() {
				return out, nil
			}
			out.Set(reflect.MakeSlice(t, v.Len(), v.Len()))
		}
		for i := 0; i < v.Len(); i++ {
			if err := set(out.Index(i), v.Index(i)); err != nil {
				return out, err
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return out, nil
		}
		out.Set(reflect.MakeMap(t))
		for _, k := range v.MapKeys() {
			e, err := subV(v.MapIndex(k), t.Elem())
			if err != nil {
				return out, err
			}
			out.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if err := set(out.Field(i), v.Field(i)); err != nil {
				return out, err
			}
		}
	default:
		panic(fmt.Sprintf("subV %v %v", v.Type(), t))
	}
	return out, nil
}

// lift is the inverse: it passes what was decoded to UnmarshalAmino.
func lift(r reflect.Value, t reflect.Type) (reflect.Value, error) {
	out := reflect.New(t).Elem()
	if t.Kind() != reflect.Ptr && isAmU(t) {
		um, _ := reflect.PtrTo(t).MethodByName("UnmarshalAmino")
		l, err := lift(r, um.Type.In(1))
		if err != nil {
			return out, err
		}
		return unrepr(t, l)
	}
	if r.Type() == t {
		return r, nil
	}
	set := func(dst, src reflect.Value) error {
		s, err := lift(src, dst.Type())
		if err == nil {
			dst.Set(s)
		}
		return err
	}
	switch t.Kind() {
	case reflect.Ptr:
		if r.IsNil() {
			return out, nil
		}
		out.Set(reflect.New(t.Elem()))
		return out, set(out.Elem(), r.Elem())
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice {
			if r.IsNil() {
				return out, nil
			}
			out.Set(reflect.MakeSlice(t, r.Len(), r.Len()))
		}
		for i := 0; i < r.Len(); i++ {
			if err := set(out.Index(i), r.Index(i)); err != nil {
				return out, err
			}
		}
	case reflect.Map:
		if r.IsNil() {
			return out, nil
		}
		out.Set(reflect.MakeMap(t))
		for _, k := range r.MapKeys() {
			e, err := lift(r.MapIndex(k), t.Elem())
			if err != nil {
				return out, err
			}
			out.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if err := set(out.Field(i), r.Field(i)); err != nil {
				return out, err
			}
		}
	default:
		panic(fmt.Sprintf("lift %v %v", r.Type(), t))
	}
	return out, nil
}

// reprSpace: contexts of the types with representations.
func reprSpace(thorough bool) (out []typeCase) {
	for _, tc := range mergedSpace(thorough, false) {
		if s, ok := subT(tc.t); ok && s != tc.t && !strings.HasPrefix(tc.key, "R:") && !strings.HasPrefix(tc.key, "H:") && !containsAny(tc.key, "CAm") {
			out = append(out, tc)
		}
	}
	return
}

func containsAny(s string, subs ...string) bool {
	for _, x := range subs {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

// amIn calls f for every value in v whose type has a representation.
func amIn(v reflect.Value, f func(v reflect.Value)) {
	if v.Type() == tTime {
		return
	}
	if v.Kind() != reflect.Ptr && isAmM(v.Type()) {
		f(v)
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			amIn(v.Elem(), f)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			amIn(v.Index(i), f)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			amIn(v.MapIndex(k), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				amIn(v.Field(i), f)
			}
		}
	}
}

// directT: in binary, the type's own kind says how a field of the type looks
// (its wire type and whether a list is repeated), the representation what's
// in it.  Where both say the same, the substitute encodes to the same bytes.
func directT(tc typeCase) bool {
	if strings.HasPrefix(tc.key, "T:") || mismatched(tc.t, map[reflect.Type]bool{}) {
		return false
	}
	ok := true
	seen := map[reflect.Type]bool{}
	var rec func(t reflect.Type, lists int)
	rec = func(t reflect.Type, lists int) {
		if seen[t] && lists == 0 || t == tTime {
			return
		}
		seen[t] = true
		if t.Kind() != reflect.Ptr && isAmM(t) {
			s, _ := subT(t)
			if isList(s) && (!isList(t) || lists > 0) {
				ok = false
			}
			return
		}
		switch t.Kind() {
		case reflect.Ptr:
			rec(t.Elem(), lists)
		case reflect.Slice, reflect.Array:
			rec(t.Elem(), lists+1)
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				rec(t.Field(i).Type, 0)
			}
		}
	}
	rec(tc.t, 0)
	return ok
}

// C22: representations.
func propC22(c *Ctx) {
	cases := reprSpace(c.Thorough)
	g := newGen(baseSetup)
	m := newModel(baseSetup)
	c.Assume("default values and default representations correspond; MarshalAmino methods have value receivers; in binary the key, the form of lists and the framing at top level follow the kind of the type itself")
	c.forTypes(cases, func(w int, tc typeCase, cdc *amino.Codec) {
		st, _ := subT(tc.t)
		counts := map[string]int64{}
		defer c.AddOutcomes(counts)
		if !c.Thorough && (tc.cap == 0 || tc.cap > 60) {
			tc.cap = 60
		}
		ptrs := strings.ContainsAny(tc.key, "*+")
		direct := directT(tc)
		omit := strings.Contains(tc.key, "omitempty")
		ndec := 0
		for _, v := range c.valuesOf(g, tc) {
			ev, ok := chase(v)
			if !ok {
				continue
			}
			s, serr := subV(v, st)
			if serr != nil {
				continue
			}
			what := func() string { return fmt.Sprintf("%v %s, represented by %s", goType(tc.t), show(v), show(s)) }
			c.State(1)
			hasDefault := false // values that may be omitted
			amIn(v, func(a reflect.Value) {
				r, _ := subT(a.Type())
				rv, _ := subV(a, r)
				hasDefault = hasDefault || rv.IsZero() || isDefault(rv) || a.Type() == rt(AmTime{})
			})
			want, werr := m.marshal(ev)
			for _, e := range encFns {
				var b, sb []byte
				var err, serr error
				pv := try(func() { b, err = e.f(cdc, v.Interface()) })
				c.Transition(1)
				c.Trace(1)
				if pv != nil {
					if st.Kind() == reflect.Map && !e.json {
						continue
					}
					if !strings.Contains(tc.key, "map") || e.json {
						c.Violate(tc.key, "%s panics: %v; %s", e.name, pv, what())
						return
					}
					continue
				}
				if e.name == "MarshalBinaryBare" && (werr != nil) != (err != nil) || e.name == "MarshalBinaryBare" && err == nil && !bytes.Equal(b, want) {
					c.Violate(tc.key, "%s gives %x, %v, want %x, %v; %s", e.name, b, err, want, werr, what())
					return
				}
				cmp := !omit
				if !e.json {
					cmp = direct && (!ptrs || !hasDefault && !strings.Contains(tc.key, "empty_elements"))
				}
				if !cmp {
					counts["kinds differ, compared with the model"]++
					continue
				}
				spv := try(func() { sb, serr = e.f(cdc, s.Interface()) })
				if spv != nil || (err != nil) != (serr != nil) || !bytes.Equal(b, sb) {
					c.Violate(tc.key, "%s gives %x (%q), %v, and for the representation %x (%q), %v, %v; %s", e.name, b, b, err, sb, sb, serr, spv, what())
					return
				}
				counts["encoded as the representation"]++
				// Decode it, and what's near it, both ways.
				if e.name == "MarshalJSONIndent" || e.name == "MarshalBinaryLengthPrefixedWriter" || e.name == "MarshalBinaryLengthPrefixed" || err != nil || ndec > 16 || !e.json && (ptrs || strings.Contains(tc.key, "map")) {
					continue
				}
				ndec++
				dec := func(in []byte) bool {
					d, sd := reflect.New(tc.t), reflect.New(st)
					var derr, serr error
					f := func(p reflect.Value) error {
						if e.json {
							return cdc.UnmarshalJSON(in, p.Interface())
						}
						return cdc.UnmarshalBinaryBare(in, p.Interface())
					}
					pv := try(func() { derr = f(d) })
					try(func() { serr = f(sd) })
					c.Transition(1)
					c.Trace(1)
					var l reflect.Value
					if serr == nil {
						l, serr = lift(sd.Elem(), tc.t)
					}
					switch {
					case pv != nil:
						c.Violate(tc.key, "decoding %x (%q) panics: %v", in, in, pv)
					case (derr != nil) != (serr != nil):
						c.Violate(tc.key, "decoding %x (%q) into *%v: %v, by way of the representation: %v", in, in, goType(tc.t), derr, serr)
					case derr != nil:
						counts["decoding fails either way"]++
						return true
					default:
						if x := diff(l, d.Elem()); x != "" {
							c.Violate(tc.key, "decoding %x (%q) gives %s, by way of the representation %s: %s", in, in, show(d.Elem()), show(l), x)
							return false
						}
						counts["decoded by way of the representation"]++
						return true
					}
					return false
				}
				if !dec(b) {
					return
				}
				if ndec > 3 && !c.Thorough {
					continue
				}
				ok := true
				if e.json && strings.Contains(tc.key, "AmTime") {
					continue // missing ones: their default isn't the default representation
				} else if e.json {
					n, err := jparse(b)
					if err == nil {
						n.edits(func(n *jnode) { ok = ok && dec([]byte(n.text())) })
					}
				} else if len(b) < 40 || c.Thorough {
					ok = mutations(b, false, dec)
				}
				if !ok {
					return
				}
			}
		}
	})
	reprHeld(c)
	reprFail(c)
}

// reprHeld: registered types with representations, in interfaces.
func reprHeld(c *Ctx) {
	leaves := amLeaves()
	anyT := reflect.TypeOf((*interface{})(nil)).Elem()
	c.Parallel(len(leaves), func(w, i int) {
		t := leaves[i].t
		st, _ := subT(t)
		if st.Kind() == reflect.Interface || strings.HasPrefix(t.Name(), "C") {
			return
		}
		g, m := newGen(Setup{}), newModel(Setup{})
		counts := map[string]int64{}
		defer c.AddOutcomes(counts)
		for _, asPtr := range []bool{false, true} {
			key := fmt.Sprintf("held %v ptr=%v", t, asPtr)
			c.Case(w, key, func() {
				reg := func(t reflect.Type) *amino.Codec {
					cdc := amino.NewCodec()
					cdc.RegisterInterface((*interface{})(nil), nil)
					p := reflect.New(t)
					if !asPtr {
						p = p.Elem()
					}
					cdc.RegisterConcrete(p.Interface(), "held/type", nil)
					return cdc
				}
				cdc, scdc := reg(t), reg(st)
				// In binary, the framing follows the kind (see above).
				same := t.Kind() == st.Kind() && (t.Kind() != reflect.Slice || t.Elem().Kind() == st.Elem().Kind())
				for _, v := range g.vals(t, 0) {
					s, err := subV(v, st)
					if err != nil {
						continue
					}
					hold := func(v reflect.Value) reflect.Value {
						if asPtr {
							v = ptrTo(v)
						}
						h := reflect.New(anyT).Elem()
						h.Set(v)
						return h
					}
					h, sh := hold(v), hold(s)
					ctx := []func(h reflect.Value) reflect.Value{
						func(h reflect.Value) reflect.Value { return h.Elem() },
						func(h reflect.Value) reflect.Value { return mkStruct(h)() },
						func(h reflect.Value) reflect.Value { return mkStruct(h)(`amino:"write_empty"`) },
						func(h reflect.Value) reflect.Value {
							return reflect.Append(reflect.MakeSlice(reflect.SliceOf(anyT), 0, 1), h, h)
						},
						func(h reflect.Value) reflect.Value { return mkStruct(mkStruct(reflect.ValueOf(1), h)(), h)() },
					}
					for k, f := range ctx {
						x, sx := f(h), f(sh)
						for _, e := range encFns {
							var b, sb []byte
							var err, serr error
							pv := try(func() { b, err = e.f(cdc, x.Interface()) })
							c.State(1)
							c.Transition(1)
							c.Trace(1)
							if pv != nil {
								c.Violate(key, "%s(%s) panics: %v", e.name, show(x), pv)
								return
							}
							if e.json || same && !(k == 0 && st.Kind() != t.Kind()) {
								try(func() { sb, serr = e.f(scdc, sx.Interface()) })
								if (err != nil) != (serr != nil) || !bytes.Equal(b, sb) {
									c.Violate(key, "%s(%s) gives %x (%q), %v, for the representation %x (%q), %v", e.name, show(x), b, b, err, sb, sb, serr)
									return
								}
								counts["encoded as the representation, registered"]++
							}
							if err != nil || k == 0 || e.name == "MarshalBinaryLengthPrefixedWriter" {
								continue
							}
							// And back.
							var d decFn
							for _, d = range decFns {
								if encFns[d.enc].name == e.name || d.enc == 3 && e.json {
									break
								}
							}
							p := reflect.New(x.Type())
							if pv := try(func() { err = d.f(cdc, b, p.Interface()) }); pv != nil || err != nil {
								c.Violate(key, "%s(%x (%q)) of %s: %v, %v", d.name, b, b, show(x), err, pv)
								return
							}
							var got reflect.Value
							found := 0
							amIn(p.Elem(), func(a reflect.Value) { got = a; found++ })
							norm := m.norm(v, eopts{num: 1})
							if e.json {
								norm = m.normJ(v, eopts{})
							}
							if found == 0 || got.Type() != t || diff(norm, got) != "" {
								c.Violate(key, "%s(%x (%q)) of %s gives %s", d.name, b, b, show(x), show(p.Elem()))
								return
							}
							counts["registered, round trip"]++
						}
					}
				}
			})
		}
	})
}

// ---- failing methods

var errRefused = errors.New("no representation")
var errReturned = errors.New("not representable")

// failing fails to marshal if bad, and always to unmarshal.
type failing[R any] struct {
	r   R
	bad bool
}

func (f failing[R]) MarshalAmino() (R, error) {
	if f.bad {
		return f.r, errRefused
	}
	return f.r, nil
}
func (f *failing[R]) UnmarshalAmino(r R) error { return errReturned }

// Of other kinds: the first element or the value -1 is bad.
type (
	failInt int32
	failStr string
	failSl  []string
	failArr [2]string
	failByt []byte
)

func (f failInt) MarshalAmino() (int32, error) {
	if f < 0 {
		return 0, errRefused
	}
	return int32(f), nil
}
func (f *failInt) UnmarshalAmino(int32) error { return errReturned }
func (f failStr) MarshalAmino() (string, error) {
	if f == "bad" {
		return "", errRefused
	}
	return string(f), nil
}
func (f *failStr) UnmarshalAmino(string) error { return errReturned }
func (f failSl) MarshalAmino() ([]string, error) {
	if f[0] == "bad" {
		return nil, errRefused
	}
	return f, nil
}
func (f *failSl) UnmarshalAmino([]string) error { return errReturned }
func (f failArr) MarshalAmino() (string, error) {
	if f[0] == "bad" {
		return "", errRefused
	}
	return f[0], nil
}
func (f *failArr) UnmarshalAmino(string) error { return errReturned }
func (f failByt) MarshalAmino() ([]byte, error) {
	if f[0] == 0 {
		return nil, errRefused
	}
	return f, nil
}
func (f *failByt) UnmarshalAmino([]byte) error { return errReturned }

// failOuter is represented by a type that fails.
type failOuter struct{ f failing[string] }

func (f failOuter) MarshalAmino() (failing[string], error)  { return f.f, nil }
func (f *failOuter) UnmarshalAmino(r failing[string]) error { f.f = r; return nil }
func failPair[R any](r R) [2]interface{} {
	return [2]interface{}{failing[R]{r: r}, failing[R]{r, true}}
}

// reprFail: errors of the methods are errors of the codec, wherever they happen.
func reprFail(c *Ctx) {
	pairs := [][2]interface{}{failPair("a"), failPair(int64(5)), failPair(int8(-3)), failPair(uint(7)), failPair(true), failPair([]byte{1}), failPair([2]byte{1, 2}),
		failPair(reprXY{1, "a"}), failPair([]int{1, 2}), failPair([]string{"a"}), failPair([]reprXY{{1, ""}}), failPair(uTime), failPair(AmStr{"x"}), failPair[I1](CStruct{A: 1}), failPair(struct{}{}),
		{failInt(5), failInt(-1)}, {failStr("a"), failStr("bad")}, {failSl{"a"}, failSl{"bad"}}, {failArr{"a"}, failArr{"bad"}}, {failByt{1}, failByt{0}},
		{failOuter{failing[string]{r: "a"}}, failOuter{failing[string]{"a", true}}}}
	anyT := reflect.TypeOf((*interface{})(nil)).Elem()
	c.Bound("failing_types", len(pairs))
	c.Parallel(len(pairs), func(w, i int) {
		good, bad := reflect.ValueOf(pairs[i][0]), reflect.ValueOf(pairs[i][1])
		t := good.Type()
		_, noU := good.Interface().(failing[struct{}]) // nothing is written for it
		g := newGen(Setup{})
		g.maxDepth = 20
		g.custom = func(x reflect.Type) ([]reflect.Value, bool) {
			if x != t {
				return nil, false
			}
			return []reflect.Value{good, bad}, true
		}
		counts := map[string]int64{}
		defer c.AddOutcomes(counts)
		newC := func() *amino.Codec {
			cdc := baseSetup.codec()
			cdc.RegisterInterface((*interface{})(nil), &amino.InterfaceOptions{Priority: []string{collName1, collName2}})
			cdc.RegisterConcrete(good.Interface(), "fails", nil)
			return cdc
		}
		plain, reg := baseSetup.codec(), newC()
		check := func(key string, cdc *amino.Codec, v reflect.Value, binary bool) bool {
			bads, goods := 0, 0
			amIn(v, func(a reflect.Value) {
				if a.Type() == t {
					if reflect.DeepEqual(a.Interface(), bad.Interface()) {
						bads++
					} else {
						goods++
					}
				}
			})
			for k, e := range encFns {
				if !e.json && !binary {
					continue
				}
				var b []byte
				var err error
				pv := try(func() { b, err = e.f(cdc, v.Interface()) })
				c.State(1)
				c.Transition(1)
				c.Trace(1)
				switch {
				case pv != nil:
					c.Violate(key, "%s(%s) panics: %v", e.name, show(v), pv)
					return false
				case bads > 0 && (err == nil || !strings.Contains(err.Error(), errRefused.Error())):
					c.Violate(key, "%s(%s): a MarshalAmino method fails, but the result is %x (%q), %v", e.name, show(v), b, b, err)
					return false
				case bads > 0:
					counts["MarshalAmino fails"]++
					continue
				case err != nil:
					c.Violate(key, "%s(%s): %v", e.name, show(v), err)
					return false
				}
				for _, d := range decFns {
					if d.enc != k || goods == 0 || noU && d.enc != 3 {
						continue
					}
					p := reflect.New(v.Type())
					pv := try(func() { err = d.f(cdc, b, p.Interface()) })
					c.Transition(1)
					c.Trace(1)
					if pv != nil || err == nil || !strings.Contains(err.Error(), errReturned.Error()) {
						c.Violate(key, "%s(%x (%q), *%v): an UnmarshalAmino method fails, but the result is %v, %v", d.name, b, b, v.Type(), err, pv)
						return false
					}
					counts["UnmarshalAmino fails"]++
				}
			}
			return true
		}
		l := spec{name: t.Name(), t: t}
		for _, s := range append(ctors(l, true), jsonCtors(l, true)...) {
			for _, f := range tagged(s) {
				for _, ct := range []typeCase{{key: "T:" + f.name, t: f.t}, {key: "{" + f.name + "}", t: structOf(f)}, {key: "{string," + f.name + ",[]string}", t: structOf(sStr, f, sStrs)},
					{key: "{*{" + f.name + "},int}", t: structOf(spec{t: reflect.PtrTo(structOf(f))}, sInt)}, {key: "[]{" + f.name + "}", t: reflect.SliceOf(structOf(f))},
					{key: "map{" + f.name + "}", t: reflect.MapOf(rt(""), structOf(f))}} {
					key := "fails " + t.String() + " " + ct.key
					c.Case(w, key, func() {
						binary := !strings.Contains(ct.key, "map")
						for _, v := range g.limited(ct.t, 1, 60) {
							if _, ok := chase(v); !ok {
								continue
							}
							if strings.Contains(f.name, "empty_elements") && strings.Contains(f.name, "*") {
								continue
							}
							if !check(key, plain, v, binary && !multi(v.Type())) {
								return
							}
						}
					})
				}
			}
		}
		// Encodings of default values: they are decoded into a representation, too.
		c.Case(w, "fails "+t.String()+" empty", func() {
			key := "fails " + t.String() + " empty"
			field := mkStruct(good)().Type()
			_, prefix := disfix("fails")
			for _, x := range []struct {
				cdc *amino.Codec
				t   reflect.Type
				in  []byte
			}{{plain, t, nil}, {plain, reflect.PtrTo(t), nil}, {plain, reflect.PtrTo(reflect.PtrTo(t)), nil}, {reg, t, prefix[:]},
				{plain, field, []byte{0x0a, 0}}, {plain, field, []byte{8, 0}}, {plain, structOf(sInt, spec{t: t}), []byte{0x12, 0}}, {plain, structOf(sInt, spec{t: t}), []byte{0x10, 0}},
				{plain, structOf(spec{t: field}), []byte{0x0a, 2, 0x0a, 0}}, {plain, structOf(spec{t: reflect.PtrTo(field)}), []byte{0x0a, 2, 8, 0}}} {
				for k := 0; k < 2; k++ {
					in := x.in
					if k == 1 {
						in = append([]byte{byte(len(in))}, in...)
					}
					p := reflect.New(x.t)
					var err error
					pv := try(func() {
						if k == 0 {
							err = x.cdc.UnmarshalBinaryBare(in, p.Interface())
						} else {
							err = x.cdc.UnmarshalBinaryLengthPrefixed(in, p.Interface())
						}
					})
					c.State(1)
					c.Transition(1)
					if pv != nil || err == nil {
						c.Violate(key, "decoding %x into *%v succeeds, although the UnmarshalAmino method always fails (panic %v)", in, x.t, pv)
						return
					}
				}
			}
		})
		// In interfaces.
		key := "fails " + t.String() + " held"
		c.Case(w, key, func() {
			for _, x := range []reflect.Value{good, bad, ptrTo(good), ptrTo(bad)} {
				h := reflect.New(anyT).Elem()
				h.Set(x)
				for _, v := range []reflect.Value{mkStruct(h)(), mkStruct(reflect.ValueOf(1), h)("", `amino:"write_empty"`), reflect.Append(reflect.MakeSlice(reflect.SliceOf(anyT), 1, 2), h), mkStruct(mkStruct(h)(), reflect.ValueOf(2))()} {
					if !check(key, reg, v, true) {
						return
					}
				}
			}
		})
	})
}

// multi: does the type contain multidimensional lists, counting representations?
func multi(t reflect.Type) bool {
	seen := map[reflect.Type]bool{}
	var rec func(t reflect.Type, lists int) bool
	rec = func(t reflect.Type, lists int) bool {
		if t == tTime {
			return false
		}
		if t.Kind() != reflect.Ptr && t.Kind() != reflect.Interface && isAmM(t) {
			m, _ := t.MethodByName("MarshalAmino")
			return rec(m.Type.Out(0), lists)
		}
		if seen[t] && lists == 0 {
			return false
		}
		seen[t] = true
		switch t.Kind() {
		case reflect.Ptr:
			return rec(t.Elem(), lists)
		case reflect.Slice, reflect.Array:
			return lists > 0 && !isByteList(t) || rec(t.Elem(), lists+1)
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				if rec(t.Field(i).Type, 0) {
					return true
				}
			}
		case reflect.Map:
			return rec(t.Elem(), 0)
		}
		return false
	}
	return rec(t, 0)
}
