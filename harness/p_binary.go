package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"sync/atomic"

	amino "github.com/tendermint/go-amino"
)

// forTypes explores the type space on all cores.  Codecs are shared between a
// few types of the same worker.
func (c *Ctx) forTypes(cases []typeCase, f func(w int, tc typeCase, cdc *amino.Codec)) {
	c.Bound("types", len(cases))
	cdcs := make([]*amino.Codec, len(c.slots))
	n := make([]int, len(c.slots))
	c.Parallel(len(cases), func(w, i int) {
		if cdcs[w] == nil || n[w] >= 40 {
			cdcs[w], n[w] = baseSetup.codec(), 0
		}
		n[w]++
		tc := cases[i]
		c.Case(w, tc.key, func() { f(w, tc, cdcs[w]) })
		if len(c.violations) > 0 {
			cdcs[w] = nil // may be broken
		}
	})
}

// goType names the type for messages.
func goType(t reflect.Type) string {
	s := t.String()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func (c *Ctx) valuesOf(g *gen, tc typeCase) []reflect.Value {
	if tc.vs != nil {
		return tc.vs()
	}
	return g.limited(tc.t, tc.lvl, tc.cap)
}

func init() {
	props["C01"] = propC01
	props["C02"] = propC02
}

// C01: every value of the type and value space survives a binary round trip.
func propC01(c *Ctx) {
	cases := append(typeSpace(c.Thorough), sizeSpace(c.Thorough, 'b')...)
	m := newModel(baseSetup)
	g := newGen(baseSetup)
	g.badUTF8 = true
	c.Bound("value_levels", "boundary alphabets per kind, pairs and triples of list elements, products of fields up to a cap")
	c.Assume("types are built from the leaf kinds, named and custom-representation types of types.go by pointers, lists, structs and interfaces up to nesting depth 4; no pointers to interfaces (not supported by design)")
	var skipped int64
	c.forTypes(cases, func(w int, tc typeCase, cdc *amino.Codec) {
		for vi, v := range c.valuesOf(g, tc) {
			o := v.Interface()
			what := func() string { return fmt.Sprintf("value #%d of %v: %s", vi, goType(tc.t), show(v)) }
			if v.Kind() == reflect.Ptr {
				if _, ok := chase(v); !ok {
					continue // can't be marshalled directly
				}
			}
			ev, _ := chase(v)
			if _, err := m.marshal(ev); err != nil {
				atomic.AddInt64(&skipped, 1)
				continue // refused, see C26
			}
			if noTop(ev) {
				continue
			}
			bz, err := cdc.MarshalBinaryBare(o)
			if err != nil {
				c.Violate(tc.key, "MarshalBinaryBare: %v; %s", err, what())
				return
			}
			want := m.norm(v, eopts{num: 1})
			p := reflect.New(tc.t)
			if err := cdc.UnmarshalBinaryBare(bz, p.Interface()); err != nil {
				c.Violate(tc.key, "UnmarshalBinaryBare(%x): %v; %s", bz, err, what())
				return
			}
			if d := diff(want, p.Elem()); d != "" {
				c.Violate(tc.key, "decoding %x gives a different value, at %s; %s; got %s", bz, d, what(), show(p.Elem()))
				return
			}
			lp, err := cdc.MarshalBinaryLengthPrefixed(o)
			if err != nil {
				c.Violate(tc.key, "MarshalBinaryLengthPrefixed: %v; %s", err, what())
				return
			}
			p = reflect.New(tc.t)
			if err := cdc.UnmarshalBinaryLengthPrefixed(lp, p.Interface()); err != nil {
				c.Violate(tc.key, "UnmarshalBinaryLengthPrefixed(%x): %v; %s", lp, err, what())
				return
			}
			if d := diff(want, p.Elem()); d != "" {
				c.Violate(tc.key, "length-prefixed: decoding %x gives a different value, at %s; %s", lp, d, what())
				return
			}
			c.State(1)
			c.Transition(4)
			c.Trace(1)
			if len(bz) > 12 && strings.Contains(tc.key, "I1") {
				c.Sample("interface", "%s -> %x", what(), bz)
			} else if len(bz) > 5 {
				c.Sample("value", "%s -> %x", what(), bz)
			}
		}
	})
	c.Bound("values_refused_by_the_model", skipped)
}

// noTop: the wire format has no encoding of a nil interface at top level, so
// neither of a value that it represents.
func noTop(v reflect.Value) bool {
	for isAmM(v.Type()) {
		r, err := repr(v)
		if err != nil {
			return false
		}
		v = r
	}
	return v.Kind() == reflect.Interface && v.IsNil()
}

// C02: the output is what the reference encoder says, and parses as proto3.
func propC02(c *Ctx) {
	cases := append(typeSpace(c.Thorough), sizeSpace(c.Thorough, 'b')...)
	m := newModel(baseSetup)
	g := newGen(baseSetup)
	g.badUTF8 = true
	c.Assume("the reference encoder in model.go states the wire format")
	c.forTypes(cases, func(w int, tc typeCase, cdc *amino.Codec) {
		for vi, v := range c.valuesOf(g, tc) {
			ev, ok := chase(v)
			if !ok {
				continue
			}
			want, err := m.marshal(ev)
			if err != nil {
				continue
			}
			bz, err := cdc.MarshalBinaryBare(v.Interface())
			if err != nil {
				c.Violate(tc.key, "MarshalBinaryBare: %v; value #%d of %v: %s", err, vi, goType(tc.t), show(v))
				return
			}
			if !bytes.Equal(bz, want) {
				c.Violate(tc.key, "MarshalBinaryBare gives %x, want %x; value #%d of %v: %s", bz, want, vi, goType(tc.t), show(v))
				return
			}
			body := bz
			if m.concs[ev.Type()] != nil {
				body = body[4:]
			}
			if pk, bad := protoShape(ev.Type()); bad == "" && pk {
				if err := parseWire(body); err != nil {
					c.Violate(tc.key, "%x isn't a sequence of proto3 fields: %v; value #%d of %v: %s", body, err, vi, goType(tc.t), show(v))
					return
				}
			}
			c.State(1)
			c.Transition(2)
			c.Trace(1)
			if len(bz) > 5 {
				c.Sample("encoding", "%v %s -> %x", goType(tc.t), show(v), bz)
			}
		}
	})
	// The representation's wire type doesn't match the type's own: the field
	// key lies about what follows.
	for _, x := range []struct {
		key string
		v   interface{}
	}{
		{"mismatch/struct-as-int64", struct{ F AmInt }{AmInt{300}}},
		{"mismatch/int-as-string", struct{ F AmIntStr }{5}},
		{"mismatch/slice-as-int64", struct{ F AmArrInt }{AmArrInt{3, 4}}},
		{"mismatch/string-as-int", struct{ F AmStrInt }{"77"}},
	} {
		x := x
		c.Case(0, x.key, func() {
			bz, err := amino.MarshalBinaryBare(x.v)
			if err != nil {
				c.Violate(x.key, "MarshalBinaryBare: %v", err)
				return
			}
			if err := parseWire(bz); err != nil {
				c.Violate(x.key, "%x of %T isn't a sequence of proto3 fields: %v", bz, x.v, err)
			}
			c.State(1)
			c.Transition(1)
			c.Trace(1)
		})
	}
}

// protoShape: does the encoding of the type consist of fields at top level?
// bad says why its parts may not (custom representations of another wire type).
func protoShape(t reflect.Type) (fields bool, bad string) {
	if mismatched(t, map[reflect.Type]bool{}) {
		return false, "representation with a different wire type"
	}
	if isAmM(t) {
		return false, ""
	}
	return true, ""
}

// mismatched: does t contain a type whose representation has another wire type?
func mismatched(t reflect.Type, seen map[reflect.Type]bool) bool {
	t = deref(t)
	if seen[t] {
		return false
	}
	seen[t] = true
	if mt, ok := t.MethodByName("MarshalAmino"); ok {
		r := mt.Type.Out(0)
		return (wireType(r, eopts{}) == wBytes) != (wireType(t, eopts{}) == wBytes) || mismatched(r, seen)
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return mismatched(t.Elem(), seen)
	case reflect.Struct:
		if t == tTime {
			return false
		}
		for _, f := range fields(t) {
			if mismatched(f.t, seen) {
				return true
			}
		}
	}
	return false
}

// parseWire splits bytes into proto3 fields.
func parseWire(b []byte) error {
	last := uint64(0)
	for len(b) > 0 {
		k, n := readUvarint(b)
		if n <= 0 || len(uvarint(k)) != n {
			return fmt.Errorf("bad key at %x", b)
		}
		b = b[n:]
		if k>>3 == 0 || k>>3 > 1<<29-1 {
			return fmt.Errorf("field number %d", k>>3)
		}
		if k>>3 < last {
			return fmt.Errorf("field number %d after %d", k>>3, last)
		}
		last = k >> 3
		switch k & 7 {
		case wVarint:
			if _, n = readUvarint(b); n <= 0 {
				return fmt.Errorf("bad varint at %x", b)
			}
		case w8:
			n = 8
		case w4:
			n = 4
		case wBytes:
			l, ln := readUvarint(b)
			if ln <= 0 || l > uint64(len(b)-ln) {
				return fmt.Errorf("bad length at %x", b)
			}
			n = ln + int(l)
		default:
			return fmt.Errorf("wire type %d", k&7)
		}
		if n > len(b) {
			return fmt.Errorf("truncated at %x", b)
		}
		b = b[n:]
	}
	return nil
}

// readUvarint returns n <= 0 if there's no uvarint of at most 64 bits.
func readUvarint(b []byte) (u uint64, n int) {
	for i, x := range b {
		if i == 9 && x > 1 || i > 9 {
			return 0, -1
		}
		u |= uint64(x&0x7f) << uint(7*i)
		if x < 0x80 {
			return u, i + 1
		}
	}
	return 0, 0
}
