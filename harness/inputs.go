package main

import (
	"bytes"
	"reflect"
)

// inputs enumerates byte strings that are near the encodings of a type: all
// sequences of tokens up to a length, where tokens are single bytes, keys,
// whole fields with good and bad payloads (recursively), lengths that don't
// match, and prefix bytes.
type inputs struct {
	m *Model
}

var (
	maxU64    = bytes.Join([][]byte{bytes.Repeat([]byte{0xff}, 9), {0x01}}, nil)
	overU64   = bytes.Join([][]byte{bytes.Repeat([]byte{0xff}, 9), {0x02}}, nil)
	longU64   = bytes.Join([][]byte{bytes.Repeat([]byte{0x80}, 10), {0x00}}, nil)
	maxU32    = []byte{0xff, 0xff, 0xff, 0xff, 0x0f}
	overU32   = []byte{0x80, 0x80, 0x80, 0x80, 0x10}
	minI32    = []byte{0x80, 0x80, 0x80, 0x80, 0xf8, 0xff, 0xff, 0xff, 0xff, 0x01}
	underI32  = []byte{0xff, 0xff, 0xff, 0xff, 0xf7, 0xff, 0xff, 0xff, 0xff, 0x01}
	maxI32    = []byte{0xff, 0xff, 0xff, 0xff, 0x07}
	overI32   = []byte{0x80, 0x80, 0x80, 0x80, 0x08}
	nonMin0   = []byte{0x80, 0x00}
	u16max    = []byte{0xff, 0xff, 0x03}
	u16over   = []byte{0x80, 0x80, 0x04}
	i16under  = []byte{0x81, 0x80, 0x04}
	u8max     = []byte{0xff, 0x01}
	u8over    = []byte{0x80, 0x02}
	i8under   = []byte{0x81, 0x02}
	secOver   = uvarint(maxSec + 1)
	secUnder  = uvarint(^uint64(-(minSec - 1) - 1))
	secMin    = uvarint(^uint64(-(minSec) - 1))
	secMax    = uvarint(maxSec)
	nsMax     = uvarint(999999999)
	nsOver    = uvarint(1000000000)
	nsOver32  = uvarint(1<<32 + 5)
	hugeLen63 = bytes.Join([][]byte{bytes.Repeat([]byte{0xff}, 8), {0x7f}}, nil) // MaxInt64
)

// payloads are encodings of a value without key: good ones first, then bad.
func (in *inputs) payloads(t reflect.Type, o eopts, depth int) [][]byte {
	t = deref(t)
	if um, ok := reflect.PtrTo(t).MethodByName("UnmarshalAmino"); ok {
		return in.payloads(um.Type.In(1), o, depth)
	}
	switch t.Kind() {
	case reflect.Bool:
		return [][]byte{{1}, {0}, {2}, {0x81, 0}, nonMin0, {}}
	case reflect.Int8:
		return [][]byte{{2}, {0}, u8max, u8over, i8under, nonMin0, maxU64, {0x80}}
	case reflect.Int16:
		return [][]byte{{2}, {0}, u16max, u16over, i16under, nonMin0, overU64, {0x80}}
	case reflect.Uint8:
		return [][]byte{{2}, {0}, u8max, u8over, nonMin0, maxU64, {0xff}}
	case reflect.Uint16:
		return [][]byte{{2}, {0}, u16max, u16over, nonMin0, maxU64, {0xff}}
	case reflect.Int32, reflect.Uint32:
		if o.f32 {
			return [][]byte{{1, 2, 3, 4}, {0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, {1, 2, 3}, {}}
		}
		if t.Kind() == reflect.Uint32 {
			return [][]byte{{2}, {0}, maxU32, overU32, maxU64, overU64, nonMin0}
		}
		return [][]byte{{2}, {0}, maxI32, overI32, minI32, underI32, overU64, nonMin0}
	case reflect.Int64, reflect.Uint64:
		if o.f64 {
			return [][]byte{{1, 2, 3, 4, 5, 6, 7, 8}, make([]byte, 8), bytes.Repeat([]byte{0xff}, 8), {1, 2, 3, 4, 5, 6, 7}, {}}
		}
		fallthrough
	case reflect.Int, reflect.Uint:
		return [][]byte{{2}, {0}, maxU64, overU64, longU64, nonMin0, {0x80}}
	case reflect.Float32:
		return [][]byte{{1, 2, 3, 0x40}, {0, 0, 0, 0}, {1, 2, 3}, {}}
	case reflect.Float64:
		return [][]byte{{1, 2, 3, 4, 5, 6, 7, 0x40}, make([]byte, 8), {1, 2, 3, 4, 5, 6, 7}, {}}
	case reflect.String:
		return [][]byte{{1, 'a'}, {0}, {2, 0xff, 0}, {2, 'a'}, {0x81, 0, 'b'}, hugeLen63, maxU64, {0x80}, {}}
	}
	if isByteList(t) {
		n := 2
		if t.Kind() == reflect.Array {
			n = t.Len()
		}
		out := [][]byte{lenPrefixed(bytes.Repeat([]byte{7}, n)), {0}, lenPrefixed(bytes.Repeat([]byte{9}, n+1)), hugeLen63, maxU64, {}}
		if n > 0 {
			out = append(out, lenPrefixed(make([]byte, n-1)), append([]byte{byte(n)}, make([]byte, n-1)...))
		}
		return out
	}
	// What has a length in front: good frames, and wrong lengths.
	var out [][]byte
	bodies := in.bodies(t, o, depth)
	for i, b := range bodies {
		out = append(out, lenPrefixed(b))
		if i < 4 {
			out = append(out, append(uvarint(uint64(len(b)+1)), b...)) // one too long
			if len(b) > 0 {
				out = append(out, append(uvarint(uint64(len(b)-1)), b...)) // one too short
			}
		}
	}
	return append(out, hugeLen63, overU64, []byte{0x80}, []byte{})
}

// bodies are contents of lists, structs, times and interfaces.
func (in *inputs) bodies(t reflect.Type, o eopts, depth int) (out [][]byte) {
	add := func(parts ...[]byte) { out = append(out, bytes.Join(parts, nil)) }
	if depth <= 0 {
		return [][]byte{{}, {0x08, 0x02}, {0x0a, 0x00}, {0}}
	}
	switch {
	case t == tTime:
		k1, k2 := []byte{0x08}, []byte{0x10}
		add()
		add(k1, []byte{5})
		add(k1, []byte{5}, k2, []byte{7})
		add(k2, []byte{7})
		add(k2, []byte{7}, k1, []byte{5})
		add(k1, []byte{5}, k1, []byte{6})
		add(k1, []byte{0}, k2, []byte{0})
		add(k1, secMax, k2, nsMax)
		add(k1, secMin)
		add(k1, secOver)
		add(k1, secUnder)
		add(k2, nsOver)
		add(k2, nsOver32)
		add(k1, []byte{5}, k2, []byte{7}, []byte{0x18, 1})
		add(k1, []byte{5}, []byte{0x12, 0})
		add([]byte{0x0a, 0})
		add(k1)
		add(k1, maxU64)
	case t.Kind() == reflect.Struct:
		toks := in.fieldTokens(t, depth-1, 5)
		add()
		for _, a := range toks {
			add(a)
		}
		n := len(toks)
		if n > 14 {
			n = 14
		}
		for _, a := range toks[:n] {
			for _, b := range toks[:n] {
				add(a, b)
			}
		}
	case t.Kind() == reflect.Interface:
		add()
		add([]byte{0})
		add([]byte{1, 2, 3, 4})
		add([]byte{0, 1, 2, 3, 4, 5, 6, 7})
		add([]byte{0, 0, 0, 0})
		n := 0
		for _, c := range in.m.order {
			if !reflect.PtrTo(c.t).Implements(t) && n > 20 {
				continue
			}
			n++
			add(c.prefix[:])
			add([]byte{0}, c.disamb[:], c.prefix[:])
			add([]byte{0}, c.disamb[:])
			add(c.prefix[:3])
			if n > 6 && depth < 2 {
				continue
			}
			var bs [][]byte
			if c.t.Kind() == reflect.Struct || isList(c.t) {
				bs = in.bodies(c.t, o, depth-1)
			} else {
				bs = in.payloads(c.t, o, depth-1)
			}
			for i, b := range bs {
				if i >= 6 {
					break
				}
				add(c.prefix[:], b)
				add([]byte{0}, c.disamb[:], c.prefix[:], b)
				add(c.prefix[:], key(1, wireType(c.t, eopts{})), b)
				add(c.prefix[:], b, []byte{0})
			}
		}
	default: // list
		et := t.Elem()
		packed := wireType(deref(et), o) != wBytes
		n := o.num
		if n == 0 {
			n = 1
		}
		eo := o
		eo.num = 1
		ps := in.payloads(et, eo, depth-1)
		max := len(ps)
		if max > 10 {
			max = 10
		}
		pre := func(b []byte) []byte { return b }
		if !packed {
			k := key(n, wBytes)
			pre = func(b []byte) []byte { return append(k[:len(k):len(k)], b...) }
		}
		add()
		for _, a := range ps {
			add(pre(a))
		}
		for i := 0; i < max; i++ {
			for j := 0; j < max; j++ {
				add(pre(ps[i]), pre(ps[j]))
			}
		}
		add(pre(ps[0]), pre(ps[0]), pre(ps[0]))
		if !packed {
			add(key(n+1, wBytes), ps[0])
			add(key(n, wVarint), []byte{1})
			add(key(n, wBytes))
			add(pre(ps[0]), key(n+1, wBytes), ps[0])
			add(pre(ps[0]), key(n+1, wVarint), []byte{1}, pre(ps[0]))
			add([]byte{0})
		}
	}
	return out
}

// fieldTokens are tokens of the contents of a struct type.
func (in *inputs) fieldTokens(t reflect.Type, depth, perField int) (out [][]byte) {
	fs := fields(t)
	show := fs
	if len(show) > 4 {
		show = append(append([]mField{}, fs[:2]...), fs[len(fs)-2:]...)
	}
	for _, f := range show {
		w := wireType(deref(f.t), f.o)
		var ps [][]byte
		et := f.t
		if unpackedField(f) {
			et = f.t.Elem()
			eo := f.o
			eo.num = 1
			ps = in.payloads(et, eo, depth)
		} else {
			ps = in.payloads(f.t, f.o, depth)
		}
		for i, p := range ps {
			if perField > 0 && i >= perField {
				break
			}
			out = append(out, append(key(f.o.num, w), p...))
		}
		out = append(out, key(f.o.num, w))
	}
	next := uint64(len(fs) + 1)
	out = append(out, append(key(next, wVarint), 1), append(key(next, wBytes), 1, 0x08), append(key(next+1, w4), 1, 2, 3, 4),
		append(key(next, w8), make([]byte, 8)...), append(key(next, 3), 0), append(key(0, wVarint), 1))
	if len(fs) > 0 {
		w := wireType(deref(fs[0].t), fs[0].o)
		out = append(out, append(key(1, (w+2)%4), 0, 0))
	}
	return out
}

// tokens for the top level of a type.
func (in *inputs) tokens(t reflect.Type) (out [][]byte) {
	seen := map[string]bool{}
	add := func(b []byte) {
		if !seen[string(b)] && len(b) > 0 {
			seen[string(b)] = true
			out = append(out, b)
		}
	}
	bt := deref(t)
	if bt.Kind() == reflect.Struct && bt != tTime && !isAmU(bt) {
		for _, b := range in.fieldTokens(bt, 2, 40) {
			add(b)
		}
	}
	for _, b := range [][]byte{{0}, {1}, {2}, {0x7f}, {0x80}, {0xff}, {0x08}, {0x0a}, {0x10}, {0x12}} {
		add(b)
	}
	return
}

// whole are whole inputs for the top level: framed bodies and payloads.
func (in *inputs) whole(t reflect.Type) (out [][]byte) {
	bt := deref(t)
	var pre []byte
	if c := in.m.concs[bt]; c != nil {
		pre = c.prefix[:]
	}
	add := func(parts ...[]byte) {
		out = append(out, bytes.Join(append([][]byte{pre}, parts...), nil))
	}
	o := eopts{num: 1}
	if bt.Kind() == reflect.Struct || isList(bt) || bt.Kind() == reflect.Interface {
		for _, b := range in.bodies(bt, o, 3) {
			add(b)
			add(b, []byte{0})
			if len(b) > 0 {
				add(b[:len(b)-1])
			}
		}
	}
	if bt.Kind() != reflect.Interface {
		for _, b := range in.payloads(bt, o, 2) {
			add(b)
			for _, w := range []int{wVarint, w8, wBytes, w4} {
				add(key(1, w), b)
			}
			add(key(2, wireType(bt, eopts{})), b)
			add(key(1, wireType(bt, eopts{})), b, []byte{0})
			add(key(1, wireType(bt, eopts{})), b, key(2, wVarint), []byte{1})
		}
	}
	return
}

// each calls f for all inputs: the whole ones, all sequences of at most depth
// tokens, and all byte strings of length at most 2 (strlen).
func (in *inputs) each(t reflect.Type, depth, strlen int, budget int, f func(b []byte) bool) (int, int) {
	n := 0
	call := func(b []byte) bool { n++; return f(b) }
	for _, b := range in.whole(t) {
		if !call(b) {
			return n, 0
		}
	}
	toks := in.tokens(t)
	var pre []byte
	if c := in.m.concs[deref(t)]; c != nil {
		pre = c.prefix[:]
	}
	// Go as deep as the budget allows.
	d, total := 1, len(toks)
	for d < depth && total*len(toks) <= budget {
		d++
		total *= len(toks)
	}
	var rec func(b []byte, left int) bool
	rec = func(b []byte, left int) bool {
		if !call(b) {
			return false
		}
		if left == 0 {
			return true
		}
		for _, tk := range toks {
			if !rec(append(b[:len(b):len(b)], tk...), left-1) {
				return false
			}
		}
		return true
	}
	if !rec(pre, d) {
		return n, d
	}
	buf := append([]byte{}, pre...)
	for l := 1; l <= strlen; l++ {
		cnt := 1 << uint(8*l)
		for i := 0; i < cnt; i++ {
			b := buf[:len(pre):len(pre)]
			for j := l - 1; j >= 0; j-- {
				b = append(b, byte(i>>uint(8*j)))
			}
			if !call(b) {
				return n, d
			}
		}
	}
	return n, d
}

// mutations of a valid encoding: every truncation, every byte replaced,
// deleted, doubled, and bytes inserted.
func mutations(b []byte, all bool, f func([]byte) bool) bool {
	try := func(parts ...[]byte) bool { return f(bytes.Join(parts, nil)) }
	for i := range b {
		if !try(b[:i]) || !try(b[:i], b[i+1:]) || !try(b[:i], b[i:i+1], b[i:]) {
			return false
		}
		step := 1
		reps := []byte{0, 1, 2, 0x7f, 0x80, 0xff, b[i] + 1, b[i] - 1, b[i] ^ 0x80, b[i] ^ 1, b[i] ^ 2, b[i] ^ 4, b[i] ^ 8, b[i] + 8, b[i] + 16}
		if all {
			for x := 0; x < 256; x += step {
				if !try(b[:i], []byte{byte(x)}, b[i+1:]) {
					return false
				}
			}
		} else {
			for _, x := range reps {
				if !try(b[:i], []byte{x}, b[i+1:]) {
					return false
				}
			}
		}
		for _, x := range []byte{0, 1, 8, 0x80, 0xff} {
			if !try(b[:i], []byte{x}, b[i:]) {
				return false
			}
		}
	}
	for _, x := range []byte{0, 1, 8, 10, 0x80, 0xff} {
		if !try(b, []byte{x}) {
			return false
		}
	}
	return true
}
