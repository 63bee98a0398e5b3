package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"

	amino "github.com/tendermint/go-amino"
)

func init() {
	props["C05"] = propC05
	props["C06"] = propC06
}

// decodeTypes are the destination types for the exploration of inputs.
func decodeTypes(thorough bool) (out []typeCase) {
	seen := map[string]bool{}
	add := func(key string, t reflect.Type) {
		if !seen[key] {
			seen[key] = true
			out = append(out, typeCase{key: key, t: t, lvl: 1, cap: 25})
		}
	}
	for _, l := range allLeaves() {
		for _, s := range ctors(l, thorough) {
			if s.am == "" && s.bin == "" {
				add("T:"+s.name, s.t)
			}
			add("{"+s.name+"}", structOf(s))
			add("{"+s.name+",int}", structOf(s, sInt))
			add("{[]string,"+s.name+",[]string}", structOf(sStrs, s, sStrs))
			if thorough {
				add("{int,"+s.name+"}", structOf(sInt, s))
				add("{[2]string,"+s.name+",[2]int}", structOf(spec{t: rt([2]string{})}, s, spec{t: rt([2]int{})}))
			}
			if s.t.Kind() == reflect.Slice || s.t.Kind() == reflect.Array {
				f := s.addAm("empty_elements")
				add("{"+f.name+",int}", structOf(f, sInt))
			}
			add("{{"+s.name+"},int}", structOf(spec{t: structOf(s)}, sInt))
		}
	}
	for _, h := range handTypes() {
		add(h.key, h.t)
	}
	for _, c := range baseSetup.concs {
		t := reflect.TypeOf(c.o)
		add("T:"+deref(t).Name(), deref(t))
	}
	return
}

// exact copies b into a slice without spare capacity, so that no access beyond
// its end goes unnoticed.
func exact(b []byte) []byte {
	out := make([]byte, len(b))
	copy(out, b)
	return out[:len(out):len(out)]
}

func canDecodeTop(t reflect.Type) bool {
	return !(t.Kind() == reflect.Ptr && deref(t).Kind() == reflect.Interface)
}

func depths(c *Ctx) (depth, strlen, budget int) {
	if c.Thorough {
		return 4, 2, 60000
	}
	if c.Prop == "C05" {
		return 3, 1, 1200
	}
	return 3, 1, 2500
}

// forInputs calls f with every input of every type.
func (c *Ctx) forInputs(f func(w int, tc typeCase, cdc *amino.Codec, b []byte) bool) {
	cases := decodeTypes(c.Thorough)
	m := newModel(baseSetup)
	in := &inputs{m}
	g := newGen(baseSetup)
	depth, strlen, budget := depths(c)
	var mu sync.Mutex
	perDepth := map[int]int{}
	c.forTypes(cases, func(w int, tc typeCase, cdc *amino.Codec) {
		_, d := in.each(tc.t, depth, strlen, budget, func(b []byte) bool { return f(w, tc, cdc, b) })
		mu.Lock()
		perDepth[d]++
		mu.Unlock()
		if !c.Thorough && c.Prop == "C05" {
			tc.cap = 10
		}
		for _, v := range c.valuesOf(g, tc) {
			ev, ok := chase(v)
			if !ok {
				continue
			}
			bz, err := m.marshal(ev)
			if err != nil || len(bz) > 60 {
				continue
			}
			if !f(w, tc, cdc, bz) || !mutations(bz, c.Thorough && len(bz) < 20, func(b []byte) bool { return f(w, tc, cdc, b) }) {
				return
			}
		}
	})
	c.Bound("types_by_depth_of_token_sequences", fmt.Sprint(perDepth))
	c.Bound("all_byte_strings_up_to_length", strlen)
	c.Assume("inputs: all token sequences up to the stated depth (tokens: bytes, keys, whole fields with well-formed and malformed payloads nested up to 3 levels), all single-edit mutations of valid encodings, all byte strings up to the stated length")
}

// C05: no panic, no hang, on any input, into fresh and filled destinations.
func propC05(c *Ctx) {
	if s := os.Getenv("AMC_DEEP"); s != "" {
		var i, n int
		fmt.Sscanf(s, "%d/%d", &i, &n)
		d := deepTypes()[i]
		baseSetup.codec().UnmarshalBinaryBare(d.input(n, nil), reflect.New(d.t).Interface())
		os.Exit(0)
	}
	deepInputs(c)
	g := newGen(baseSetup)
	type pre struct {
		t    reflect.Type
		vals []reflect.Value
	}
	filled := make([]pre, len(c.slots)) // by worker
	c.forInputs(func(w int, tc typeCase, cdc *amino.Codec, b []byte) bool {
		if !canDecodeTop(tc.t) {
			return false
		}
		in := exact(b)
		call := func(what string, f func() error) bool {
			if pv := try(func() { f() }); pv != nil {
				c.Violate(tc.key, "%s(%x) into %v panics: %v", what, b, goType(tc.t), pv)
				return false
			}
			c.Transition(1)
			return true
		}
		c.State(1)
		c.Trace(1)
		p := reflect.New(tc.t)
		if !call("UnmarshalBinaryBare", func() error { return cdc.UnmarshalBinaryBare(in, p.Interface()) }) {
			return false
		}
		// Decode once more into what that left behind, also after errors.
		if !call("UnmarshalBinaryBare (again)", func() error { return cdc.UnmarshalBinaryBare(in, p.Interface()) }) {
			return false
		}
		p = reflect.New(tc.t)
		if !call("UnmarshalBinaryLengthPrefixed", func() error { return cdc.UnmarshalBinaryLengthPrefixed(in, p.Interface()) }) {
			return false
		}
		fl := &filled[w]
		if fl.t != tc.t {
			fl.t, fl.vals = tc.t, g.limited(tc.t, 2, 12)
		}
		if n := len(fl.vals); n > 0 {
			p = reflect.New(tc.t)
			p.Elem().Set(clone(fl.vals[len(b)%n]))
			if !call("UnmarshalBinaryBare (filled)", func() error { return cdc.UnmarshalBinaryBare(in, p.Interface()) }) {
				return false
			}
		}
		return true
	})
	// Primitive decoders and prefix bytes.
	decs := primDecoders()
	eachBytes := func(f func(b []byte)) {
		for l := 0; l <= 2; l++ {
			for i := 0; i < 1<<uint(8*l); i++ {
				b := []byte{byte(i >> 8), byte(i)}[2-l:]
				f(b)
			}
		}
		al := []byte{0, 1, 2, 8, 0x0a, 0x10, 0x7f, 0x80, 0x81, 0xff}
		var rec func(b []byte, left int)
		rec = func(b []byte, left int) {
			f(b)
			if left > 0 {
				for _, x := range al {
					rec(append(b[:len(b):len(b)], x), left-1)
				}
			}
		}
		rec(nil, 5)
		for _, h := range [][]byte{maxU64, overU64, longU64, maxU32, overU32, hugeLen63, secOver, nsOver} {
			for _, k := range [][]byte{nil, {8}, {0x10}, {8, 1, 0x10}} {
				b := append(append([]byte{}, k...), h...)
				f(b)
				mutations(b, true, func(b []byte) bool { f(b); return true })
			}
		}
	}
	c.Parallel(len(decs), func(w, i int) {
		d := decs[i]
		c.Case(w, "prim/"+d.name, func() {
			eachBytes(func(b []byte) {
				if pv := try(func() { d.dec(exact(b)) }); pv != nil {
					c.Violate("prim/"+d.name, "%s(%x) panics: %v", d.name, b, pv)
				}
				c.State(1)
				c.Transition(1)
			})
		})
	})
}

// C06: accepted exactly if the reference decoder accepts, with its value.
func propC06(c *Ctx) {
	m := newModel(baseSetup)
	counts := make([]map[string]int64, len(c.slots))
	for i := range counts {
		counts[i] = map[string]int64{}
	}
	c.forInputs(func(w int, tc typeCase, cdc *amino.Codec, b []byte) bool {
		if !canDecodeTop(tc.t) {
			return false
		}
		want, werr := m.unmarshal(b, tc.t)
		p := reflect.New(tc.t)
		err := cdc.UnmarshalBinaryBare(b[:len(b):len(b)], p.Interface())
		c.State(1)
		c.Transition(1)
		c.Trace(1)
		if (err == nil) != (werr == nil) {
			c.Violate(tc.key, "UnmarshalBinaryBare(%x) into %v: error %v, but the model says %v", b, goType(tc.t), err, werr)
			return false
		}
		cls := "rejected"
		if err == nil {
			cls = "accepted"
			if d := diff(want, p.Elem()); d != "" {
				c.Violate(tc.key, "UnmarshalBinaryBare(%x) into %v gives %s, want %s (%s)", b, goType(tc.t), show(p.Elem()), show(want), d)
				return false
			}
			if len(b) > 4 {
				c.Sample("accepted", "%x as %v: %s", b, goType(tc.t), show(want))
			}
		} else if len(b) > 4 && !bytes.Contains(b, []byte{0xff}) {
			c.Sample("rejected", "%x as %v: %v", b, goType(tc.t), err)
		}
		counts[w][cls]++
		return true
	})
	for _, m := range counts {
		c.AddOutcomes(m)
	}
}

// deepInputs decodes bytes that nest deeply, in processes of their own as the
// end of the stack is the end of the process.
func deepInputs(c *Ctx) {
	levels := []int{1000, 30000}
	if c.Thorough {
		levels = append(levels, 100000)
	}
	run := func(i, n int) (out string, err error) {
		cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
		cmd.Env = append(os.Environ(), fmt.Sprintf("AMC_DEEP=%d/%d", i, n))
		var b bytes.Buffer
		cmd.Stdout, cmd.Stderr = io.Discard, &limited{buf: &b, max: 1 << 12}
		err = cmd.Run()
		return b.String(), err
	}
	ds := deepTypes()
	c.ParallelN(4, len(ds), func(w, i int) {
		c.Case(w, ds[i].key, func() {
			for _, n := range levels {
				if out, err := run(i, n); err != nil {
					c.Violate(ds[i].key, "UnmarshalBinaryBare of bytes nested %d times into %v ends with %v: %s", n, ds[i].t, err, out)
				}
				c.State(1)
				c.Transition(1)
				c.Trace(1)
			}
		})
	})
	// As many levels as exhaust the stack, if each takes some.
	const n = 3000000
	c.Case(0, "stack-overflow", func() {
		out, err := run(0, n)
		if err != nil && strings.Contains(out, "stack") {
			c.Violate("stack-overflow", "UnmarshalBinaryBare of bytes nested %d times into %v ends with %v: %s", n, ds[0].t, err, out)
		}
		c.State(1)
		c.Transition(1)
		c.Trace(1)
	})
	c.Bound("nesting_levels", fmt.Sprint(levels))
}

// primDecoders are the exported Decode functions.
type primDec struct {
	name string
	dec  func(b []byte) (v interface{}, n int, err error)
}

func primDecoders() []primDec {
	return []primDec{
		{"DecodeInt8", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeInt8(b); return v, n, err }},
		{"DecodeInt16", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeInt16(b); return v, n, err }},
		{"DecodeInt32", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeInt32(b); return v, n, err }},
		{"DecodeInt64", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeInt64(b); return v, n, err }},
		{"DecodeVarint", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeVarint(b); return v, n, err }},
		{"DecodeByte", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeByte(b); return v, n, err }},
		{"DecodeUint8", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeUint8(b); return v, n, err }},
		{"DecodeUint16", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeUint16(b); return v, n, err }},
		{"DecodeUint32", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeUint32(b); return v, n, err }},
		{"DecodeUint64", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeUint64(b); return v, n, err }},
		{"DecodeUvarint", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeUvarint(b); return v, n, err }},
		{"DecodeBool", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeBool(b); return v, n, err }},
		{"DecodeFloat32", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeFloat32(b); return v, n, err }},
		{"DecodeFloat64", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeFloat64(b); return v, n, err }},
		{"DecodeTime", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeTime(b); return v, n, err }},
		{"DecodeByteSlice", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeByteSlice(b); return v, n, err }},
		{"DecodeString", func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeString(b); return v, n, err }},
		{"DecodeDisambPrefixBytes", func(b []byte) (interface{}, int, error) {
			d, hd, p, hp, n, err := amino.DecodeDisambPrefixBytes(b)
			return fmt.Sprint(d, hd, p, hp), n, err
		}},
	}
}
