package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() {
	props["C21"] = propC21
	props["C23"] = propC23
}

// mergedSpace is the type space for binary and for JSON, each type once.
func mergedSpace(thorough bool, pairs bool) (out []typeCase) {
	seen := map[string]bool{}
	for _, l := range [][]typeCase{typeSpace(thorough), jsonSpace(thorough)} {
		for _, tc := range l {
			if !seen[tc.key] && (pairs || !strings.HasPrefix(tc.key, "P:")) {
				seen[tc.key] = true
				out = append(out, tc)
			}
		}
	}
	return
}

// guarded returns a copy of b followed by spare capacity, and a function that
// says whether all of it is unchanged.
func guarded(b []byte) ([]byte, func() bool) {
	buf := append(append([]byte{}, b...), bytes.Repeat([]byte{0xA5}, 24)...)
	orig := append([]byte{}, buf...)
	return buf[:len(b)], func() bool { return bytes.Equal(buf, orig) }
}

func spoilBytes(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

type encFn struct {
	name string
	json bool
	f    func(cdc *amino.Codec, o interface{}) ([]byte, error)
}

var encFns = []encFn{
	{"MarshalBinaryBare", false, func(cdc *amino.Codec, o interface{}) ([]byte, error) { return cdc.MarshalBinaryBare(o) }},
	{"MarshalBinaryLengthPrefixed", false, func(cdc *amino.Codec, o interface{}) ([]byte, error) {
		return cdc.MarshalBinaryLengthPrefixed(o)
	}},
	{"MarshalBinaryLengthPrefixedWriter", false, func(cdc *amino.Codec, o interface{}) ([]byte, error) {
		var buf bytes.Buffer
		_, err := cdc.MarshalBinaryLengthPrefixedWriter(&buf, o)
		return buf.Bytes(), err
	}},
	{"MarshalJSON", true, func(cdc *amino.Codec, o interface{}) ([]byte, error) { return cdc.MarshalJSON(o) }},
	{"MarshalJSONIndent", true, func(cdc *amino.Codec, o interface{}) ([]byte, error) {
		return cdc.MarshalJSONIndent(o, "", " ")
	}},
}

type decFn struct {
	name string
	enc  int // index in encFns
	f    func(cdc *amino.Codec, b []byte, p interface{}) error
}

var decFns = []decFn{
	{"UnmarshalBinaryBare", 0, func(cdc *amino.Codec, b []byte, p interface{}) error { return cdc.UnmarshalBinaryBare(b, p) }},
	{"UnmarshalBinaryLengthPrefixed", 1, func(cdc *amino.Codec, b []byte, p interface{}) error {
		return cdc.UnmarshalBinaryLengthPrefixed(b, p)
	}},
	{"UnmarshalBinaryLengthPrefixedReader", 1, func(cdc *amino.Codec, b []byte, p interface{}) error {
		_, err := cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(b), p, 0)
		return err
	}},
	{"UnmarshalJSON", 3, func(cdc *amino.Codec, b []byte, p interface{}) error { return cdc.UnmarshalJSON(b, p) }},
}

// C21: no side effects on inputs, no shared memory.
func propC21(c *Ctx) {
	cases := append(mergedSpace(c.Thorough, c.Thorough), sizeSpace(c.Thorough, 'a')...)
	g := newGen(baseSetup)
	c.Assume("methods of the types themselves (MarshalAmino, UnmarshalAmino, MarshalJSON, UnmarshalJSON) share nothing and change nothing; strings are immutable, time zones shared")
	c.forTypes(cases, func(w int, tc typeCase, cdc *amino.Codec) {
		if !canDecodeTop(tc.t) {
			return
		}
		if !c.Thorough {
			tc.cap = 24
			if !strings.Contains(tc.key, "int}") {
				tc.cap = 60
			}
		}
		hasMap := strings.Contains(tc.key, "map[")
		for vi, v0 := range c.valuesOf(g, tc) {
			v := spare(v0)
			snap := clone(v)
			what := func() string { return fmt.Sprintf("value #%d of %v: %s", vi, goType(tc.t), show(snap)) }
			same := func(fn, when string) bool {
				if !reflect.DeepEqual(snap.Interface(), v.Interface()) {
					c.Violate(tc.key, "%s%s changed the value to %s; %s", fn, when, show(v), what())
					return false
				}
				if !spareIntact(v) {
					c.Violate(tc.key, "%s%s wrote into the spare capacity of a slice; %s", fn, when, what())
					return false
				}
				return true
			}
			c.State(1)
			c.Trace(1)
			encs := make([][]byte, len(encFns))
			for i, e := range encFns {
				if hasMap && !e.json {
					try(func() { e.f(cdc, v.Interface()) })
					if !same(e.name, "") {
						return
					}
					continue
				}
				var b []byte
				var err error
				pv := try(func() { b, err = e.f(cdc, v.Interface()) })
				c.Transition(1)
				if !same(e.name, "") {
					return
				}
				if pv != nil || err != nil {
					continue
				}
				pristine := append([]byte{}, b...)
				spoilBytes(b)
				if !same(e.name, ": changing the returned bytes") {
					return
				}
				b2, err := e.f(cdc, v.Interface())
				if err != nil || !bytes.Equal(b2, pristine) {
					c.Violate(tc.key, "%s gives %x, and after changing those bytes %x (%v); %s", e.name, pristine, b2, err, what())
					return
				}
				c.Transition(1)
				scribble(v)
				if !bytes.Equal(b2, pristine) {
					c.Violate(tc.key, "%s: changing the value changed the returned bytes from %x to %x; %s", e.name, pristine, b2, what())
					return
				}
				v = spare(v0)
				encs[i] = pristine
			}
			for _, d := range decFns {
				b := encs[d.enc]
				if b == nil {
					continue
				}
				in, intact := guarded(b)
				p := reflect.New(tc.t)
				var err error
				if pv := try(func() { err = d.f(cdc, in, p.Interface()) }); pv != nil || err != nil {
					continue // other properties
				}
				c.Transition(1)
				if !intact() {
					c.Violate(tc.key, "%s changed its input %x (or the capacity after it) to %x; %s", d.name, b, in[:cap(in)], what())
					return
				}
				got := clone(p.Elem())
				spoilBytes(in)
				if !reflect.DeepEqual(got.Interface(), p.Elem().Interface()) {
					c.Violate(tc.key, "%s of %x: changing the input changed the decoded value from %s to %s", d.name, b, show(got), show(p.Elem()))
					return
				}
				if s := overlapping(p.Elem()); s != "" {
					c.Violate(tc.key, "%s of %x into %v: in the decoded value %s", d.name, b, goType(tc.t), s)
					return
				}
				p2 := reflect.New(tc.t)
				in2, intact2 := guarded(b)
				if err := d.f(cdc, in2, p2.Interface()); err != nil || !reflect.DeepEqual(got.Interface(), p2.Elem().Interface()) {
					c.Violate(tc.key, "%s of %x gives %s and then %s (%v)", d.name, b, show(got), show(p2.Elem()), err)
					return
				}
				c.Transition(1)
				if s := shared(p.Elem(), p2.Elem()); s != "" {
					c.Violate(tc.key, "%s of %x into %v twice: %s", d.name, b, goType(tc.t), s)
					return
				}
				scribble(p.Elem())
				spoil(p.Elem())
				if !reflect.DeepEqual(got.Interface(), p2.Elem().Interface()) || !intact2() {
					c.Violate(tc.key, "%s of %x into %v twice: changing one changed the other (or the input)", d.name, b, goType(tc.t))
					return
				}
				p3 := reflect.New(tc.t)
				if err := d.f(cdc, in2, p3.Interface()); err != nil || !reflect.DeepEqual(got.Interface(), p3.Elem().Interface()) {
					c.Violate(tc.key, "%s of %x gives %s, and after changing that %s (%v)", d.name, b, show(got), show(p3.Elem()), err)
					return
				}
				c.Transition(1)
				if len(b) > 8 {
					c.Sample(d.name, "%s -> %x", what(), b)
				}
			}
		}
	})
}

// ---- C23

// holdsIface: does v hold a non-nil interface?
func holdsIface(v reflect.Value, depth int) bool {
	if depth > 20 {
		return false
	}
	switch v.Kind() {
	case reflect.Interface:
		return !v.IsNil()
	case reflect.Ptr:
		return !v.IsNil() && holdsIface(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if isByteList(v.Type()) {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if holdsIface(v.Index(i), depth+1) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if holdsIface(v.MapIndex(k), depth+1) {
				return true
			}
		}
	case reflect.Struct:
		if v.Type() == tTime {
			return false
		}
		for i := 0; i < v.NumField(); i++ {
			if holdsIface(v.Field(i), depth+1) {
				return true
			}
		}
	}
	return false
}

// inUTC copies a value with all times within it in UTC.
func inUTC(v reflect.Value) reflect.Value {
	out := clone(v)
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			break
		}
		if v.Kind() == reflect.Ptr {
			out.Elem().Set(inUTC(v.Elem()))
		} else {
			out.Set(inUTC(v.Elem()))
		}
	case reflect.Slice, reflect.Array:
		if !isByteList(v.Type()) {
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(inUTC(v.Index(i)))
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			out.SetMapIndex(k, inUTC(v.MapIndex(k)))
		}
	case reflect.Struct:
		if v.Type() == tTime {
			out.Set(reflect.ValueOf(v.Interface().(time.Time).Round(0).UTC()))
			break
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				out.Field(i).Set(inUTC(v.Field(i)))
			}
		}
	}
	return out
}

// spread picks at most n values over the whole list.
func spread(vs []reflect.Value, n int) []reflect.Value {
	if len(vs) <= n {
		return vs
	}
	var out []reflect.Value
	for i := 0; i < n; i++ {
		out = append(out, vs[i*(len(vs)-1)/(n-1)])
	}
	return out
}

// C23: decoding into a filled destination.
func propC23(c *Ctx) {
	cases := append(mergedSpace(c.Thorough, true), sizeSpace(c.Thorough, 'a')...)
	m := newModel(baseSetup)
	g := newGen(baseSetup)
	nOld, nNew, nMut, nDrop, nSkip := 8, 14, 1, 9, 4
	if c.Thorough {
		nOld, nNew, nMut, nDrop, nSkip = 20, 40, 4, 60, 1
	}
	c.Bound("prior_contents_x_encoded_values_per_type", fmt.Sprintf("%d x %d", nOld, nNew))
	c.Bound("documents_with_dropped_keys_per_value", nDrop)
	c.forTypes(cases, func(w int, tc typeCase, cdc *amino.Codec) {
		if !canDecodeTop(tc.t) {
			return
		}
		if tc.cap == 0 || tc.cap > 200 {
			tc.cap = 200
		}
		all := c.valuesOf(g, tc)
		nOld, nNew, nMut, nDrop := nOld, nNew, nMut, nDrop
		if tc.vs != nil { // sizes
			nOld, nNew, nMut, nDrop = 3, 4, 0, 1
			if c.Thorough {
				nOld, nNew = 6, 10
			}
		}
		olds := append([]reflect.Value{}, spread(all, nOld)...)
		for i := range olds {
			olds[i] = inUTC(olds[i]) // fields that aren't decoded keep the zone
		}
		check := func(old reflect.Value, b []byte, fresh reflect.Value, ferr error) bool {
			p := reflect.New(tc.t)
			p.Elem().Set(clone(old))
			var err error
			if pv := try(func() { err = cdc.UnmarshalBinaryBare(b, p.Interface()) }); pv != nil {
				c.Violate(tc.key, "UnmarshalBinaryBare(%x) into %v holding %s panics: %v", b, goType(tc.t), show(old), pv)
				return false
			}
			c.Transition(1)
			if err != nil && ferr == nil && holdsIface(old, 0) {
				return true
			}
			if (err == nil) != (ferr == nil) {
				c.Violate(tc.key, "UnmarshalBinaryBare(%x) into %v holding %s: error %v, but into a fresh one %v", b, goType(tc.t), show(old), err, ferr)
				return false
			}
			if err == nil {
				if d := diff(fresh, p.Elem()); d != "" {
					c.Violate(tc.key, "UnmarshalBinaryBare(%x) into %v holding %s gives %s, but into a fresh one %s (%s)", b, goType(tc.t), show(old), show(p.Elem()), show(fresh), d)
					return false
				}
			}
			c.State(1)
			c.Trace(1)
			return true
		}
		nm := 0
		news := spread(all, nNew)
		for ni := len(news) - 1; ni >= 0; ni-- {
			v := news[ni]
			ev, ok := chase(v)
			if !ok || ev.Kind() == reflect.Interface || noTop(ev) {
				continue
			}
			mb, merr := m.marshal(ev)
			if merr != nil {
				continue
			}
			b, err := cdc.MarshalBinaryBare(v.Interface())
			if err != nil || !bytes.Equal(mb, b) && len(mb) != len(b) {
				continue // C02
			}
			p := reflect.New(tc.t)
			ferr := cdc.UnmarshalBinaryBare(b, p.Interface())
			for _, old := range olds {
				if !check(old, b, p.Elem(), ferr) {
					return
				}
			}
			if ni > 0 {
				c.Sample("pair", "%x into %v holding %s", b, goType(tc.t), show(olds[len(olds)-1]))
			}
			if nm++; nm <= nMut && len(b) < 40 {
				k := 0
				if !mutations(b, false, func(b []byte) bool {
					p := reflect.New(tc.t)
					var ferr error
					if pv := try(func() { ferr = cdc.UnmarshalBinaryBare(b, p.Interface()) }); pv != nil {
						return true // C05
					}
					k++
					return check(olds[k%len(olds)], b, p.Elem(), ferr)
				}) {
					return
				}
			}
		}
		// JSON, where fields may be missing.
		for ni, v := range news {
			doc, err := m.marshalJSON(v)
			if err != nil {
				continue
			}
			text := []byte(doc.text())
			docs := []*jnode{doc}
			doc.drops(nDrop, func(d *jnode) { docs = append(docs, d) })
			nDocs := len(docs)
			if ni%4 == 3 && len(text) < 400 {
				doc.edits(func(d *jnode) {
					if len(docs) < nDocs+40 {
						docs = append(docs, d.copy())
					}
				})
			}
			for di, d := range docs {
				text := []byte(d.text())
				for oi, old := range olds {
					if di >= nDocs && oi != (di+ni)%len(olds) || di > 0 && di < nDocs && (oi+di+ni)%nSkip != 0 {
						continue
					}
					want, werr := m.unmarshalNode(d, tc.t, old)
					if werr == errDontCare {
						continue
					}
					p := reflect.New(tc.t)
					p.Elem().Set(clone(old))
					var err error
					if pv := try(func() { err = cdc.UnmarshalJSON(text, p.Interface()) }); pv != nil {
						c.Violate(tc.key, "UnmarshalJSON(%s) into %v holding %s panics: %v", text, goType(tc.t), show(old), pv)
						return
					}
					c.Transition(1)
					if err != nil && werr == nil && holdsIface(old, 0) {
						continue
					}
					if (err == nil) != (werr == nil) {
						c.Violate(tc.key, "UnmarshalJSON(%s) into %v holding %s: error %v, want %v", text, goType(tc.t), show(old), err, werr)
						return
					}
					if err == nil {
						if df := diff(want, p.Elem()); df != "" {
							c.Violate(tc.key, "UnmarshalJSON(%s) into %v holding %s gives %s, want %s (%s)", text, goType(tc.t), show(old), show(p.Elem()), show(want), df)
							return
						}
					}
					c.State(1)
					c.Trace(1)
				}
			}
		}
	})
}
