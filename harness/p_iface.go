package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"

	amino "github.com/tendermint/go-amino"
)

func init() {
	props["C10"] = propC10
	props["C11"] = propC11
}

var tAny = reflect.TypeOf((*interface{})(nil)).Elem()

// holders are the positions an interface of type t may be in.
func holders(t reflect.Type) []struct {
	name string
	t    reflect.Type
} {
	type h = struct {
		name string
		t    reflect.Type
	}
	f := func(s ...spec) reflect.Type { return structOf(s...) }
	l, a := reflect.SliceOf(t), reflect.ArrayOf(2, t)
	return []h{
		{"field 1", f(spec{t: t}, sInt)},
		{"field 2", f(sStrs, spec{t: t}, sStrs)},
		{"field 17", f(sInt, sInt, sInt, sInt, sInt, sInt, sInt, sInt, sInt, sInt, sInt, sInt, sInt, sInt, sInt, sInt, spec{t: t}, sInt)},
		{"list field 1", f(spec{t: l}, sInt)},
		{"list field 2", f(sStr, spec{t: l}, sStrs)},
		{"array field", f(spec{t: a}, sInt)},
		{"top-level list", l},
		{"top-level array", a},
		{"nested field", f(spec{t: f(spec{t: t})}, sInt)},
		{"nested list", f(spec{t: reflect.SliceOf(f(spec{t: t}, spec{t: l}))}, sInt)},
		{"pointer to struct", f(spec{t: reflect.PtrTo(f(sInt, spec{t: t}))}, sInt)},
		{"list of pointers to structs", f(spec{t: reflect.SliceOf(reflect.PtrTo(f(spec{t: t}, sInt))), am: "empty_elements"})},
		{"write_empty field", f(spec{t: t, am: "write_empty"}, sInt)},
		{"unsafe field", f(spec{t: t, am: "unsafe"}, spec{t: l, am: "unsafe,write_empty"})},
		{"omitempty field", f(spec{t: t, js: "n,omitempty"}, sInt)},
		{"fixed field", f(spec{t: t, bin: "fixed64"}, spec{t: l, bin: "fixed32"})},
	}
}

func hasFixable(t reflect.Type, seen map[reflect.Type]bool) bool {
	// Custom representations: see the finding about them in C02.
	return isAmM(t) || isList(t) && isAmM(deref(t.Elem()))
}

// C10: dynamic types survive.
func propC10(c *Ctx) {
	ifaceSets(c)
	ifaceErrors(c)
	ifaceRoundTrips(c)
}

// ifaceRoundTrips: any supported type as a concrete type, registered as value
// and as pointer, in every position, with and without disambiguation.
func ifaceRoundTrips(c *Ctx) {
	var types []typeCase
	seen := map[reflect.Type]bool{}
	for _, tc := range decodeTypes(c.Thorough) {
		if t := deref(tc.t); !seen[t] && t.Kind() != reflect.Interface && newModel(baseSetup).concs[t] == nil && !mismatched(t, map[reflect.Type]bool{}) {
			seen[t] = true
			if !c.Thorough && (strings.HasPrefix(tc.key, "{[]string,") || strings.HasPrefix(tc.key, "{{")) {
				continue
			}
			types = append(types, typeCase{key: tc.key, t: t})
		}
	}
	c.Bound("concrete_types", len(types))
	c.Bound("positions", len(holders(tAny)))
	nval := 4
	if c.Thorough {
		nval = 30
	}
	c.Assume("concrete types of every kind of the type space of C06, except mismatched custom representations (finding of C02)")
	c.Parallel(len(types), func(w, i int) {
		tc := types[i]
		counts := map[string]int64{}
		defer c.AddOutcomes(counts)
		vals := newGen(baseSetup).limited(tc.t, 1, nval)
		for _, ptr := range []bool{false, true} {
			for _, always := range []bool{false, true} {
				if always && !c.Thorough && i%4 != 0 {
					continue
				}
				o := reflect.Zero(tc.t).Interface()
				if ptr {
					o = reflect.New(tc.t).Interface()
				}
				s := Setup{
					append(baseSetup.ifaces[:3:3], regIface{(*interface{})(nil), &amino.InterfaceOptions{AlwaysDisambiguate: always, Priority: []string{collName1, collName2}}}),
					append(baseSetup.concs[:len(baseSetup.concs):len(baseSetup.concs)], regConc{o, "the/type"}),
				}
				cdc, m := s.codec(), newModel(s)
				var ivs []reflect.Value
				put := func(v reflect.Value) {
					iv := reflect.New(tAny).Elem()
					iv.Set(v)
					ivs = append(ivs, iv)
				}
				for k, v := range vals {
					if _, err := m.marshal(v); err != nil || noTop(v) {
						continue
					}
					put(v)
					put(ptrTo(v))
					if k == 0 {
						put(ptrTo(ptrTo(v)))
					}
				}
				if len(ivs) == 0 {
					continue
				}
				key := fmt.Sprintf("%s ptr=%v always=%v", tc.key, ptr, always)
				c.Case(w, key, func() {
					for _, h := range holders(tAny) {
						if h.name == "fixed field" && hasFixable(tc.t, nil) {
							continue
						}
						k := key + " " + h.name
						g := newGen(s)
						g.custom = func(x reflect.Type) ([]reflect.Value, bool) {
							if x == tAny {
								return ivs, true
							}
							return nil, false
						}
						vs := g.limited(h.t, 1, 2*nval+12)
						vs = append(vs, g.limited(h.t, 3, 3)...)
						// Mixed with nil and another type in one list.
						if l := h.t; l.Kind() == reflect.Slice && l.Elem() == tAny {
							x := reflect.MakeSlice(l, 3, 3)
							x.Index(0).Set(ivs[len(ivs)-1])
							x.Index(2).Set(reflect.ValueOf(CStruct{A: 1}))
							vs = append(vs, x)
						}
						for _, v := range vs {
							if noTop(v) {
								continue
							}
							if !m.conform(c, cdc, k, v, counts) {
								return
							}
							if !dynamicTypes(c, cdc, k, v, m) {
								return
							}
						}
					}
					// Top level.
					for _, iv := range ivs {
						if !topIface(c, cdc, m, key+" top", iv, counts) {
							return
						}
					}
				})
			}
		}
	})
}

// topIface encodes a concrete value and decodes it as the interface.
func topIface(c *Ctx, cdc *amino.Codec, m *Model, key string, iv reflect.Value, counts map[string]int64) bool {
	t := iv.Type()
	v, ok := chase(iv.Elem())
	if !ok || noTop(v) {
		return true
	}
	c.State(1)
	c.Trace(1)
	want := m.norm(iv, eopts{num: 1})
	b, err := cdc.MarshalBinaryBare(iv.Interface())
	if err != nil {
		c.Violate(key, "MarshalBinaryBare: %v; %s", err, show(iv))
		return false
	}
	_, werr := m.unmarshal(b, t)
	for _, framed := range []bool{false, true} {
		p := reflect.New(t)
		f := cdc.UnmarshalBinaryBare
		in := b
		if framed {
			f, in = cdc.UnmarshalBinaryLengthPrefixed, lenPrefixed(b)
		}
		var err error
		if pv := try(func() { err = f(in, p.Interface()) }); pv != nil {
			c.Violate(key, "decoding %x as %v panics: %v", in, t, pv)
			return false
		}
		c.Transition(1)
		if mc := m.concs[v.Type()]; werr != nil && !m.ambiguous(m.ifaces[t], mc) && reflect.PtrTo(mc.t).Implements(t) && (mc.ptr || mc.t.Implements(t)) {
			c.Violate(key, "model: decoding %x as %v: %v", in, t, werr)
			return false
		}
		if (err != nil) != (werr != nil) {
			c.Violate(key, "decoding %x as %v: %v, want %v", in, t, err, werr)
			return false
		}
		if err == nil {
			if d := diff(want, p.Elem()); d != "" {
				c.Violate(key, "decoding %x as %v gives %s, want %s: %s", in, t, show(p.Elem()), show(want), d)
				return false
			}
			counts["top level"]++
		} else {
			counts["top level ambiguous"]++
		}
	}
	jb, err := cdc.MarshalJSON(iv.Interface())
	if jw, jerr := m.marshalJSON(iv.Elem()); (err != nil) != (jerr != nil) {
		c.Violate(key, "MarshalJSON: %v, want %v, %v; %s", err, jw, jerr, show(iv))
		return false
	}
	if err != nil {
		return true
	}
	p := reflect.New(t)
	if pv := try(func() { err = cdc.UnmarshalJSON(jb, p.Interface()) }); pv != nil || err != nil {
		c.Violate(key, "decoding %s as %v: %v, %v", jb, t, err, pv)
		return false
	}
	c.Transition(1)
	if want := m.normJ(iv, eopts{}); diff(want, p.Elem()) != "" {
		c.Violate(key, "decoding %s as %v gives %s, want %s: %s", jb, t, show(p.Elem()), show(want), diff(want, p.Elem()))
		return false
	}
	counts["top level JSON"]++
	return true
}

// dynamicTypes compares the dynamic types at the same positions before and
// after, independently of the model's values.
func dynamicTypes(c *Ctx, cdc *amino.Codec, key string, v reflect.Value, m *Model) bool {
	for i, e := range encFns[:2] {
		_ = i
		b, err := e.f(cdc, v.Interface())
		if err != nil {
			continue
		}
		for _, d := range decFns {
			if encFns[d.enc].name != e.name {
				continue
			}
			p := reflect.New(v.Type())
			if err := d.f(cdc, b, p.Interface()); err != nil {
				continue // judged before
			}
			c.Transition(1)
			a, z := dynOf(v, m, nil), dynOf(p.Elem(), m, nil)
			if strings.Join(a, ";") != strings.Join(z, ";") {
				c.Violate(key, "%s: dynamic types %v become %v; %s", d.name, a, z, show(v))
				return false
			}
		}
	}
	return true
}

func dynOf(v reflect.Value, m *Model, out []string) []string {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return append(out, "nil")
		}
		t := deref(v.Elem().Type())
		if mc := m.concs[t]; mc != nil && mc.ptr {
			t = reflect.PtrTo(t)
		}
		return append(out, t.String())
	case reflect.Ptr:
		if !v.IsNil() {
			return dynOf(v.Elem(), m, out)
		}
	case reflect.Struct:
		if v.Type() == tTime || isAmM(v.Type()) {
			return out
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" && f.Tag.Get("json") != "-" && f.Type.Kind() != reflect.Ptr {
				out = dynOf(v.Field(i), m, out)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out = dynOf(v.Index(i), m, out)
		}
	}
	return out
}

// ---- all sets of registrations

type (
	J1 interface{ J1m() }
	J2 interface{ J2m() }
	J3 interface{ J3m() }
	ja struct{ A int } // J1, J2
	jb struct{ B string }
	jc []byte
	jd int
	je struct{ E J1 }
	jf struct{ F *int }
)

func (ja) J1m()  {}
func (ja) J2m()  {}
func (*jb) J1m() {}
func (*jb) J3m() {}
func (jc) J2m()  {}
func (jc) J3m()  {}
func (jd) J1m()  {}
func (jd) J2m()  {}
func (jd) J3m()  {}
func (je) J1m()  {}
func (je) J3m()  {}
func (*jf) J1m() {}
func (jf) J2m()  {}

// ifaceSets: every set of registered interfaces and concrete types, in two
// orders; every value in every interface encodes, and decodes to the same
// type, if everything it takes is registered, and otherwise it's an error.
func ifaceSets(c *Ctx) {
	ifs := []interface{}{(*J1)(nil), (*J2)(nil), (*J3)(nil)}
	concs := []regConc{{ja{}, "j/a"}, {&jb{}, "j/b"}, {jc{}, "j/c"}, {jd(0), "j/d"}, {je{}, "j/e"}, {&jf{}, "j/f"}}
	one := 1
	vals := []interface{}{ja{}, ja{5}, &ja{6}, &jb{}, &jb{"x"}, jc{}, jc{1, 2}, jd(0), jd(7), je{}, je{ja{1}}, je{&jb{"y"}}, je{je{jd(3)}}, &jf{}, &jf{&one}}
	n := 1 << uint(len(ifs)+len(concs))
	c.Bound("sets_of_registrations", n*2)
	c.Parallel(n*2, func(w, i int) {
		set, rev := i%n, i/n == 1
		var s Setup
		for k, p := range ifs {
			if set>>uint(k)&1 != 0 {
				s.ifaces = append(s.ifaces, regIface{p, nil})
			}
		}
		for k, x := range concs {
			if set>>uint(len(ifs)+k)&1 != 0 {
				s.concs = append(s.concs, x)
			}
		}
		m := newModel(s)
		cdc := amino.NewCodec()
		if rev {
			for k := len(s.concs) - 1; k >= 0; k-- {
				cdc.RegisterConcrete(s.concs[k].o, s.concs[k].name, nil)
			}
			for k := len(s.ifaces) - 1; k >= 0; k-- {
				cdc.RegisterInterface(s.ifaces[k].ptr, nil)
			}
		} else {
			cdc = s.codec()
		}
		// Everything registered, to make input.
		var full Setup
		for _, p := range ifs {
			full.ifaces = append(full.ifaces, regIface{p, nil})
		}
		full.concs = concs
		fullC := full.codec()
		key := fmt.Sprintf("registered %09b reverse=%v", set, rev)
		counts := map[string]int64{}
		defer c.AddOutcomes(counts)
		c.Case(w, key, func() {
			for _, p := range ifs {
				it := reflect.TypeOf(p).Elem()
				for _, ht := range []reflect.Type{structOf(spec{t: it}, sInt), structOf(sInt, spec{t: reflect.SliceOf(it)}), reflect.SliceOf(it)} {
					for _, x := range append(vals, nil) {
						iv := reflect.New(it).Elem()
						if x != nil {
							if !rt(x).Implements(it) {
								continue
							}
							iv.Set(reflect.ValueOf(x))
						}
						hv := reflect.New(ht).Elem()
						switch {
						case ht.Kind() == reflect.Slice:
							hv.Set(reflect.Append(hv, iv))
						case ht.Field(0).Type == it:
							hv.Field(0).Set(iv)
						default:
							hv.Field(1).Set(reflect.Append(hv.Field(1), iv))
						}
						if _, ok := deref1(x).(je); ok && m.ifaces[reflect.TypeOf((*J1)(nil)).Elem()] == nil {
							continue // can't be handled at all, because of its field
						}
						if m.ifaces[it] == nil {
							if x != nil && !refused(c, cdc, fullC, key, hv, counts) {
								return
							}
							continue
						}
						if !m.conformNil(c, cdc, fullC, key, hv, counts) {
							return
						}
					}
				}
			}
		})
	})
}

func deref1(x interface{}) interface{} {
	if v := reflect.ValueOf(x); v.Kind() == reflect.Ptr {
		return v.Elem().Interface()
	}
	return x
}

// refused checks that nothing in an interface that isn't registered is
// encoded or decoded.
func refused(c *Ctx, cdc, full *amino.Codec, key string, v reflect.Value, counts map[string]int64) bool {
	for ei, e := range encFns {
		c.State(1)
		c.Transition(1)
		c.Trace(1)
		var b []byte
		var err error
		if pv := try(func() { b, err = e.f(cdc, v.Interface()) }); pv == nil && err == nil {
			c.Violate(key, "%s(%s) gives %x although the interface isn't registered", e.name, show(v), b)
			return false
		}
		if b, err = e.f(full, v.Interface()); err != nil {
			c.Violate(key, "%s(%s): %v", e.name, show(v), err)
			return false
		}
		for _, d := range decFns {
			if d.enc != ei {
				continue
			}
			p := reflect.New(v.Type())
			if pv := try(func() { err = d.f(cdc, b, p.Interface()) }); pv == nil && err == nil {
				c.Violate(key, "%s(%x) gives %s although the interface isn't registered", d.name, b, show(p.Elem()))
				return false
			}
			c.Transition(1)
		}
	}
	counts["interface isn't registered"]++
	return true
}

// conformNil compares the codec with the model for one value, and for its
// encodings by a codec that knows everything.
func (m *Model) conformNil(c *Ctx, cdc, full *amino.Codec, key string, v reflect.Value, counts map[string]int64) bool {
	if !m.conform(c, cdc, key, v, counts) {
		return false
	}
	t := v.Type()
	b, err := full.MarshalBinaryBare(v.Interface())
	if err == nil {
		want, werr := m.unmarshal(b, t)
		p := reflect.New(t)
		var err error
		pv := try(func() { err = cdc.UnmarshalBinaryBare(b, p.Interface()) })
		c.Transition(1)
		if pv != nil || (err != nil) != (werr != nil) || err == nil && diff(want, p.Elem()) != "" {
			c.Violate(key, "decoding %x as %v: %s, %v, %v, want %v; %s", b, goType(t), show(p.Elem()), err, pv, werr, show(v))
			return false
		}
		counts[fmt.Sprintf("known everywhere, known here: %v", err == nil)]++
	}
	j, err := full.MarshalJSON(v.Interface())
	if err == nil {
		n, _ := jparse(j)
		want, werr := m.unmarshalNode(n, t, reflect.Zero(t))
		p := reflect.New(t)
		var err error
		pv := try(func() { err = cdc.UnmarshalJSON(j, p.Interface()) })
		c.Transition(1)
		if pv != nil || (err != nil) != (werr != nil) || err == nil && diff(want, p.Elem()) != "" {
			c.Violate(key, "decoding %s as %v: %s, %v, %v, want %v; %s", j, goType(t), show(p.Elem()), err, pv, werr, show(v))
			return false
		}
	}
	return true
}

// ifaceErrors: encodings of every concrete type with other prefix bytes,
// disambiguation bytes and names, as every interface.
func ifaceErrors(c *Ctx) {
	m := newModel(baseSetup)
	base := baseSetup.codec()
	ifs := []reflect.Type{tI1, tI2, tI3}
	var heads [][]byte
	for _, mc := range m.order {
		heads = append(heads, mc.prefix[:], append([]byte{0}, append(append([]byte{}, mc.disamb[:]...), mc.prefix[:]...)...),
			append([]byte{0, 0}, mc.prefix[:]...), append([]byte{0, 0, 0, 0}, mc.prefix[:]...), append([]byte{0}, mc.disamb[:]...), append(append([]byte{}, mc.disamb[:]...), mc.prefix[:]...))
		for _, o := range m.order {
			heads = append(heads, append([]byte{0}, append(append([]byte{}, o.disamb[:]...), mc.prefix[:]...)...))
		}
		full := append([]byte{0}, append(append([]byte{}, mc.disamb[:]...), mc.prefix[:]...)...)
		for bit := 0; bit < 64; bit++ {
			b := append([]byte{}, full...)
			b[bit/8] ^= 1 << uint(bit%8)
			heads = append(heads, b)
			if bit >= 32 {
				heads = append(heads, b[4:])
			}
		}
	}
	type job struct {
		it   reflect.Type
		conc *mConc
	}
	var jobs []job
	for _, it := range ifs {
		for _, mc := range m.order {
			jobs = append(jobs, job{it, mc})
		}
	}
	var names []string
	for _, mc := range m.order {
		n := mc.name
		names = append(names, n, n+" ", " "+n, n+"/", strings.ToUpper(n), n[1:], n[:len(n)-1], n+"\x00")
	}
	names = append(names, "", "value", "type", "null", "j/a")
	sort.Strings(names)
	c.Bound("prefixes_tried", len(heads))
	c.Bound("names_tried", len(names))
	c.Parallel(len(jobs), func(w, i int) {
		j := jobs[i]
		key := fmt.Sprintf("bytes of others: %s as %v", j.conc.name, j.it)
		counts := map[string]int64{}
		defer c.AddOutcomes(counts)
		var bodies [][]byte
		var jbodies []string
		for _, v := range newGen(baseSetup).limited(j.conc.t, 2, 4) {
			b, err := m.marshal(v)
			if err != nil {
				continue
			}
			bodies = append(bodies, b[4:])
			if body, err := m.content(v, eopts{num: 1}, true); err == nil {
				bodies = append(bodies, body)
			}
			if n, err := m.jenc(v, eopts{}); err == nil {
				jbodies = append(jbodies, n.text())
			}
		}
		cdc := base
		ht := structOf(sInt, spec{t: j.it})
		lt := structOf(spec{t: reflect.SliceOf(j.it)})
		c.Case(w, key, func() {
			for _, h := range heads {
				for _, body := range bodies {
					x := append(append([]byte{}, h...), body...)
					for k, in := range [][]byte{x, append([]byte{0x12}, lenPrefixed(x)...), append([]byte{0x0a}, lenPrefixed(x)...)} {
						t := []reflect.Type{j.it, ht, lt}[k]
						want, werr := m.unmarshal(in, t)
						p := reflect.New(t)
						var err error
						pv := try(func() { err = cdc.UnmarshalBinaryBare(exact(in), p.Interface()) })
						c.State(1)
						c.Transition(1)
						c.Trace(1)
						if pv != nil || (err != nil) != (werr != nil) || err == nil && diff(want, p.Elem()) != "" {
							c.Violate(key, "decoding %x as %v: %s, %v, %v, want %v", in, t, show(p.Elem()), err, pv, werr)
							return
						}
						counts[fmt.Sprintf("foreign prefix accepted: %v", err == nil)]++
					}
				}
			}
			for _, name := range names {
				for _, body := range append(jbodies, "null", "{}") {
					x := `{"type":` + jquote(name) + `,"value":` + body + `}`
					for k, in := range []string{x, `{"F1":"0","F2":` + x + `}`, `{"F1":[null,` + x + `]}`} {
						t := []reflect.Type{j.it, ht, lt}[k]
						n, perr := jparse([]byte(in))
						if perr != nil {
							continue
						}
						want, werr := m.unmarshalNode(n, t, reflect.Zero(t))
						if werr == errDontCare {
							continue
						}
						p := reflect.New(t)
						var err error
						pv := try(func() { err = cdc.UnmarshalJSON(exact([]byte(in)), p.Interface()) })
						c.State(1)
						c.Transition(1)
						c.Trace(1)
						if pv != nil || (err != nil) != (werr != nil) || err == nil && diff(want, p.Elem()) != "" {
							c.Violate(key, "decoding %s as %v: %s, %v, %v, want %v", in, t, show(p.Elem()), err, pv, werr)
							return
						}
						counts[fmt.Sprintf("foreign name accepted: %v", err == nil)]++
					}
				}
			}
		})
	})
}

// ---- C11

type (
	xa struct{ A int } // J1, J2
	xb struct{ B string }
	xc struct{ C []byte } // J1, *J2
	xd string
	xe struct{ E int }
)

func (xa) J1m()  {}
func (xa) J2m()  {}
func (*xb) J1m() {}
func (*xb) J3m() {}
func (xc) J1m()  {}
func (*xc) J2m() {}
func (xd) J1m()  {}
func (xd) J3m()  {}
func (xe) J2m()  {}

// Pairs of names with the same prefix bytes, and names whose hash has zero
// bytes that are skipped (before, within), found by search.
var (
	collisions = [][2]string{{"t/15704", "t/59142"}, {"t/15699", "t/92495"}, {"t/14004", "t/305338"}, {"t/142409", "t/496404"}, {"t/35802", "t/205300"}}
	zeroNames  = []string{"t/53", "t/1066", "t/219", "t/50546", "t/97995", "t/9539514", "t/4167639"}
)

func propC11(c *Ctx) {
	// The bytes of a name.
	n := 2000000
	if c.Thorough {
		n = 40000000
	}
	const chunk = 50000
	c.Bound("names", n+65536+256+len(zeroNames))
	one := func(name string) {
		d, p := disfix(name)
		var gd amino.DisambBytes
		var gp amino.PrefixBytes
		pv := try(func() { gd, gp = amino.NameToDisfix(name) })
		if pv != nil || !bytes.Equal(gd.Bytes(), d[:]) || !bytes.Equal(gp.Bytes(), p[:]) || p[0] == 0 || d[0] == 0 {
			c.Violate("NameToDisfix", "NameToDisfix(%q) gives %x, %x, %v, want %x, %x", name, gd, gp, pv, d, p)
		}
	}
	c.Parallel(n/chunk, func(w, i int) {
		c.Case(w, "NameToDisfix", func() {
			for k := i * chunk; k < (i+1)*chunk; k++ {
				one(fmt.Sprintf("t/%d", k))
			}
			c.State(chunk)
			c.Transition(chunk)
		})
	})
	c.Case(0, "NameToDisfix", func() {
		for _, x := range zeroNames {
			one(x)
		}
		for i := 0; i < 65536; i++ {
			one(string([]byte{byte(i), byte(i >> 8)}))
			if i < 256 {
				one(string([]byte{byte(i)}))
			}
		}
		for l := 0; l < 600; l++ {
			one(strings.Repeat("n", l+1))
		}
		c.State(65536 + 256 + 600)
		c.Transition(65536 + 256 + 600)
	})
	c.Case(0, "byte types", func() { byteTypes(c) })
	// Registered, with zero bytes skipped: what's written.
	for _, name := range append(zeroNames, "c/x") {
		name := name
		c.Case(0, "prefix of "+name, func() {
			for _, ptr := range []bool{false, true} {
				for _, always := range []bool{false, true} {
					s := Setup{[]regIface{{(*J1)(nil), &amino.InterfaceOptions{AlwaysDisambiguate: always}}}, []regConc{{xa{}, name}}}
					if ptr {
						s.concs[0].o = &xa{}
					}
					clashes(c, "prefix of "+name, s, s.codec(), nil)
				}
			}
		})
	}
	// Clashes: every pair, kinds of types, priorities and registration orders.
	type concPair struct{ a, b, other interface{} }
	cps := []concPair{{xa{}, &xb{}, xd("")}, {xa{}, xc{}, &xb{}}, {&xa{}, &xc{}, xd("")}, {xd(""), &xb{}, xa{}}, {xa{}, xe{}, xc{}}, {xc{}, xd(""), xe{}}, {xe{}, xd(""), xa{}}}
	lists := func(a, b, o string) [][]string {
		return [][]string{nil, {a}, {b}, {a, b}, {b, a}, {o}, {a, o}, {o, b}, {a, o, b}, {b, "unknown", a}, {"unknown"}, {a, a}, {o, b, a, o}}
	}
	type job struct {
		pair [2]string
		cp   concPair
		p1   []string
		p2   []string
		alw  bool
	}
	var jobs []job
	for pi, pair := range collisions {
		for _, cp := range cps {
			ls := lists(pair[0], pair[1], "c/other")
			for i, p1 := range ls {
				for j, p2 := range ls {
					if !c.Thorough && pi > 0 && i != 3 && j != 3 {
						continue
					}
					for _, alw := range []bool{false, true} {
						jobs = append(jobs, job{pair, cp, p1, p2, alw})
					}
				}
			}
		}
	}
	orders := perms(5)
	c.Bound("pairs_of_names_with_the_same_prefix", len(collisions))
	c.Bound("setups_with_clashes", len(jobs)*len(orders))
	c.Parallel(len(jobs), func(w, i int) {
		j := jobs[i]
		key := fmt.Sprintf("clash %v %T %T %T prio %v %v always=%v", j.pair, j.cp.a, j.cp.b, j.cp.other, j.p1, j.p2, j.alw)
		counts := map[string]int64{}
		defer c.AddOutcomes(counts)
		ifs := []regIface{{(*J1)(nil), &amino.InterfaceOptions{Priority: j.p1, AlwaysDisambiguate: j.alw}}, {(*J2)(nil), &amino.InterfaceOptions{Priority: j.p2}}}
		cs := []regConc{{j.cp.a, j.pair[0]}, {j.cp.b, j.pair[1]}, {j.cp.other, "c/other"}}
		c.Case(w, key, func() {
			for _, ord := range orders {
				cdc := amino.NewCodec()
				var s Setup
				ok := true
				for _, k := range ord {
					next := Setup{s.ifaces[:len(s.ifaces):len(s.ifaces)], s.concs[:len(s.concs):len(s.concs)]}
					var pv interface{}
					if k < 2 {
						next.ifaces = append(next.ifaces, ifs[k])
						pv = try(func() { cdc.RegisterInterface(ifs[k].ptr, ifs[k].opts) })
					} else {
						next.concs = append(next.concs, cs[k-2])
						pv = try(func() { cdc.RegisterConcrete(cs[k-2].o, cs[k-2].name, nil) })
					}
					want := prioOK(newModel(next))
					c.State(1)
					c.Transition(1)
					if (pv == nil) != want {
						c.Violate(key, "registering in order %v: step %d: panic %v, want success %v", ord, k, pv, want)
						return
					}
					if pv != nil {
						ok = false
						break
					}
					s = next
				}
				c.Trace(1)
				counts[fmt.Sprintf("registered: %v", ok)]++
				if ok && !clashes(c, key, s, cdc, counts) {
					return
				}
			}
		})
	})
}

// byteTypes checks the exported types of prefix, disambiguation and both
// bytes: every length, and every single byte changed, added or dropped.
func byteTypes(c *Ctx) {
	names := append([]string{"c/x", "", "a"}, zeroNames...)
	for _, p := range collisions {
		names = append(names, p[0], p[1])
	}
	for _, name := range names {
		d, p := disfix(name)
		x := append(append([]byte{}, d[:]...), p[:]...)
		var db amino.DisambBytes
		var pb, np amino.PrefixBytes
		var df amino.DisfixBytes
		copy(db[:], d[:])
		copy(pb[:], p[:])
		if pv := try(func() {
			np = amino.NewPrefixBytes(p[:])
			df = amino.ConcreteInfo{Name: name, Disamb: db, Prefix: pb}.GetDisfix()
		}); pv != nil || np != pb || !bytes.Equal(df[:], x) {
			c.Violate("byte types", "NewPrefixBytes(%x) = %x; GetDisfix() = %x, %v, want %x", p, np, df, pv, x)
		}
		for _, f := range []struct {
			name  string
			bz    []byte
			bytes func() []byte
			equal func([]byte) bool
		}{
			{"PrefixBytes", p[:], pb.Bytes, pb.EqualBytes},
			{"DisambBytes", d[:], db.Bytes, db.EqualBytes},
			{"DisfixBytes", x, df.Bytes, df.EqualBytes},
		} {
			test := func(bz []byte) {
				c.State(1)
				c.Transition(1)
				var eq bool
				pv := try(func() { eq = f.equal(bz) })
				if pv != nil || eq != bytes.Equal(bz, f.bz) {
					c.Violate("byte types", "%s{%x}.EqualBytes(%x) = %v, %v", f.name, f.bz, bz, eq, pv)
				}
			}
			got := f.bytes()
			if !bytes.Equal(got, f.bz) {
				c.Violate("byte types", "%s{%x}.Bytes() = %x", f.name, f.bz, got)
			}
			got[0]++ // The caller's.
			if again := f.bytes(); !bytes.Equal(again, f.bz) {
				c.Violate("byte types", "%s{%x}.Bytes() = %x after changing an earlier result", f.name, f.bz, again)
			}
			for i := range f.bz {
				for b := 0; b < 256; b++ {
					y := append([]byte{}, f.bz...)
					y[i] = byte(b)
					test(y)
				}
				test(f.bz[:i])
				test(f.bz[i:])
			}
			for b := 0; b < 256; b++ {
				test(append(append([]byte{}, f.bz...), byte(b)))
				test(append([]byte{byte(b)}, f.bz...))
			}
			test(nil)
			test(f.bz)
		}
		// What's read from bytes that start with them, of every length.
		long := append(append([]byte{0}, x...), 8, 3)
		short := append(p[:len(p):len(p)], 8, 3, 0, 9, 9)
		for _, full := range [][]byte{long, short} {
			for l := 0; l <= len(full); l++ {
				c.State(1)
				c.Transition(1)
				bz := exact(full[:l])
				var gd amino.DisambBytes
				var gp amino.PrefixBytes
				var hd, hp bool
				var n int
				var err error
				pv := try(func() { gd, hd, gp, hp, n, err = amino.DecodeDisambPrefixBytes(bz) })
				need := 4
				if full[0] == 0 {
					need = 8
				}
				if l < need {
					if pv != nil || err == nil {
						c.Violate("byte types", "DecodeDisambPrefixBytes(%x) = %x %v, %x %v, %d, %v; %v, want an error", bz, gd, hd, gp, hp, n, err, pv)
					}
					continue
				}
				wd := amino.DisambBytes{}
				if need == 8 {
					wd = db
				}
				if pv != nil || err != nil || n != need || !hp || gp != pb || hd != (need == 8) || gd != wd {
					c.Violate("byte types", "DecodeDisambPrefixBytes(%x) = %x %v, %x %v, %d, %v; %v, want %x %v, %x, %d", bz, gd, hd, gp, hp, n, err, pv, wd, need == 8, pb, need)
				}
			}
		}
	}
	// Of other lengths: cut, or filled with zeros.
	for l := 0; l < 300; l++ {
		bz := bytes.Repeat([]byte{0xee}, l)
		var want amino.PrefixBytes
		copy(want[:], bz)
		var got amino.PrefixBytes
		if pv := try(func() { got = amino.NewPrefixBytes(bz) }); pv != nil || got != want {
			c.Violate("byte types", "NewPrefixBytes of %d bytes = %x, %v", l, got, pv)
		}
	}
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// clashes writes and reads every registered type in every interface.
func clashes(c *Ctx, key string, s Setup, cdc *amino.Codec, counts map[string]int64) bool {
	if counts == nil {
		counts = map[string]int64{}
		defer c.AddOutcomes(counts)
	}
	m := newModel(s)
	g := newGen(s)
	for _, i := range s.ifaces {
		it := reflect.TypeOf(i.ptr).Elem()
		for _, rc := range s.concs {
			ct := reflect.TypeOf(rc.o)
			if !ct.Implements(it) {
				continue
			}
			mc := m.concs[deref(ct)]
			for _, v := range g.limited(deref(ct), 3, 3) {
				iv := reflect.New(it).Elem()
				if ct.Kind() == reflect.Ptr {
					iv.Set(ptrTo(v))
				} else {
					iv.Set(v)
				}
				h := mkStruct(iv, reflect.ValueOf(1))()
				// mkStruct takes the dynamic type; the field is to be the interface.
				h = reflect.New(structOf(spec{t: it}, sInt)).Elem()
				h.Field(0).Set(iv)
				// Exactly the ambiguous ones have disambiguation bytes.
				b, err := cdc.MarshalBinaryBare(h.Interface())
				if err != nil {
					c.Violate(key, "MarshalBinaryBare: %v; %s", err, show(h))
					return false
				}
				head := append([]byte{}, mc.prefix[:]...)
				if m.ambiguous(m.ifaces[it], mc) {
					head = append(append([]byte{0}, mc.disamb[:]...), head...)
					counts["with disambiguation bytes"]++
				} else {
					counts["without disambiguation bytes"]++
				}
				if len(b) < 2+len(head) || !bytes.HasPrefix(b[2:], head) {
					c.Violate(key, "%s in a %v is written as %x, want the bytes %x", show(iv), it, b, head)
					return false
				}
				if !m.conform(c, cdc, key, h, counts) || !topIface(c, cdc, m, key, iv, counts) {
					return false
				}
			}
		}
	}
	return true
}
