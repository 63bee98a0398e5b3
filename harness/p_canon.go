package main

import (
	"bytes"
	"fmt"
	"reflect"

	amino "github.com/tendermint/go-amino"
)

func init() {
	props["C03"] = propC03
}

// codecVariants are ways to make the same registrations.
func codecVariants() []func() *amino.Codec {
	s := baseSetup
	n := len(s.concs)
	if n%5 == 0 {
		panic("choose another stride")
	}
	return []func() *amino.Codec{
		func() *amino.Codec { // backwards
			cdc := amino.NewCodec()
			for i := range s.ifaces {
				x := s.ifaces[len(s.ifaces)-1-i]
				cdc.RegisterInterface(x.ptr, x.opts)
			}
			for i := range s.concs {
				x := s.concs[n-1-i]
				cdc.RegisterConcrete(x.o, x.name, nil)
			}
			return cdc
		},
		func() *amino.Codec { // permuted, interfaces in the middle
			cdc := amino.NewCodec()
			perm := func(from, to int) {
				for i := from; i < to; i++ {
					x := s.concs[(i*5+3)%n]
					cdc.RegisterConcrete(x.o, x.name, nil)
				}
			}
			perm(0, n/2)
			for _, x := range s.ifaces {
				cdc.RegisterInterface(x.ptr, x.opts)
			}
			perm(n/2, n)
			return cdc
		},
		func() *amino.Codec { return s.codec().Seal() },
	}
}

// C03: one value, one encoding.
func propC03(c *Ctx) {
	cases := typeSpace(c.Thorough)
	js := jsonSpace(c.Thorough)
	seen := map[string]bool{}
	for _, tc := range cases {
		seen[tc.key] = true
	}
	for _, tc := range js {
		if !seen[tc.key] {
			cases = append(cases, tc)
		}
	}
	cases = append(cases, sizeSpace(c.Thorough, 'a')...)
	m := newModel(baseSetup)
	g := newGen(baseSetup)
	g.badUTF8 = true
	mk := codecVariants()
	// Per worker, codecs that live on: their histories differ.
	variants := make([][]*amino.Codec, len(c.slots))
	c.Assume("codecs: registrations in declaration, reverse and strided order, interfaces before, amid and after; sealed or not; with the history of all types before; JSON methods have value receivers")
	c.Bound("codecs_per_value", 4)
	c.Bound("pointer_levels", 3)
	c.forTypes(cases, func(w int, tc typeCase, cdc *amino.Codec) {
		if variants[w] == nil {
			for _, f := range mk {
				variants[w] = append(variants[w], f())
			}
		}
		vs := c.valuesOf(g, tc)
		if !c.Thorough && len(vs) > 40 {
			vs = append(vs[:30:30], vs[len(vs)-10:]...)
		}
		for vi, v := range vs {
			what := func() string { return fmt.Sprintf("value #%d of %v: %s", vi, goType(tc.t), show(v)) }
			ev, ok := chase(v)
			var bz []byte
			var err error
			if ok {
				if _, err := m.marshal(ev); err == nil {
					if bz, err = cdc.MarshalBinaryBare(ev.Interface()); err != nil {
						c.Violate(tc.key, "MarshalBinaryBare: %v; %s", err, what())
						return
					}
				} else {
					ok = false
				}
			}
			var jb []byte
			_, jerr := m.marshalJSON(v)
			if jerr == nil {
				if jb, err = cdc.MarshalJSON(v.Interface()); err != nil {
					c.Violate(tc.key, "MarshalJSON: %v; %s", err, what())
					return
				}
			}
			if !ok && jerr != nil {
				continue
			}
			p := ev
			ptrs := []interface{}{ev.Interface()}
			for i := 0; i < 3; i++ {
				p = ptrTo(p)
				ptrs = append(ptrs, p.Interface())
			}
			p = v
			jptrs := []interface{}{v.Interface()}
			for i := 0; i < 3; i++ {
				p = ptrTo(p)
				jptrs = append(jptrs, p.Interface())
			}
			// What the first codec says for more pointers, and what the
			// others say for one number of pointers each.
			for k := 0; k < 3+len(variants[w]); k++ {
				cd, np := cdc, k+1
				if k >= 3 {
					cd, np = variants[w][k-3], (k+vi)%4
				}
				if ok {
					b, err := cd.MarshalBinaryBare(ptrs[np])
					if err != nil || !bytes.Equal(b, bz) {
						c.Violate(tc.key, "MarshalBinaryBare gives %x, but %x (%v) with %d pointers, codec variant %d; %s", bz, b, err, np, k, what())
						return
					}
					c.Transition(1)
				}
				if jerr == nil {
					b, err := cd.MarshalJSON(jptrs[np])
					if err != nil || !bytes.Equal(b, jb) {
						c.Violate(tc.key, "MarshalJSON gives %s, but %s (%v) with %d pointers, codec variant %d; %s", jb, b, err, np, k, what())
						return
					}
					c.Transition(1)
				}
			}
			// Decode and encode again.
			if ok && !noTop(ev) && !hasNilTime(ev, 0) {
				q := reflect.New(ev.Type())
				if err := cdc.UnmarshalBinaryBare(bz, q.Interface()); err != nil {
					c.Violate(tc.key, "UnmarshalBinaryBare(%x): %v; %s", bz, err, what())
					return
				}
				b, err := cdc.MarshalBinaryBare(q.Interface())
				if err != nil || !bytes.Equal(b, bz) {
					c.Violate(tc.key, "%x decodes to %s, which encodes as %x (%v); %s", bz, show(q.Elem()), b, err, what())
					return
				}
				c.Transition(2)
			}
			c.State(1)
			c.Trace(1)
			if len(bz) > 6 {
				c.Sample("value", "%s -> %x", what(), bz)
			}
		}
	})
}

// hasNilTime: a nil *time.Time is absent, and absent is 1970.
func hasNilTime(v reflect.Value, depth int) bool {
	t := v.Type()
	if depth > 30 || t == tTime {
		return false
	}
	if isAmM(t) {
		return false
	}
	switch t.Kind() {
	case reflect.Ptr:
		if deref(t) == tTime {
			_, ok := chase(v)
			return !ok
		}
		return !v.IsNil() && hasNilTime(v.Elem(), depth+1)
	case reflect.Interface:
		return !v.IsNil() && hasNilTime(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if hasNilTime(v.Index(i), depth+1) {
				return true
			}
		}
	case reflect.Struct:
		for _, f := range fields(t) {
			if hasNilTime(v.Field(f.idx), depth+1) {
				return true
			}
		}
	}
	return false
}
