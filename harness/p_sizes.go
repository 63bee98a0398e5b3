package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"
)

// The size space: each kind of string, list, array, map, struct and recursive
// type in each position, in all sizes up to a bound and in sizes around the
// powers of two (where length prefixes and keys get longer, and where code may
// change its ways).

type szChain struct {
	V int
	N *szChain
}

type szTree struct {
	S string
	L []szTree
}

type szGroup struct {
	name string
	ns   []int
}

func span(a, b int) (out []int) {
	for ; a <= b; a++ {
		out = append(out, a)
	}
	return
}

// szGroups are the sizes: all up to 140, and around powers of two.
func szGroups(thorough bool, max int) (out []szGroup) {
	out = append(out, szGroup{"0-70", span(0, 70)}, szGroup{"71-140", span(71, 140)})
	if thorough {
		for a := 141; a < 1100; a += 60 {
			out = append(out, szGroup{fmt.Sprintf("%d-%d", a, a+59), span(a, a+59)})
		}
	}
	for k := 8; k <= 21; k++ {
		p := 1 << uint(k)
		if p > max {
			break
		}
		ns := []int{p - 1, p, p + 1}
		if k < 15 || thorough && k < 17 {
			ns = []int{p - 3, p - 2, p - 1, p, p + 1, p + 2, p + 3}
		}
		out = append(out, szGroup{fmt.Sprintf("2^%d", k), ns})
	}
	if max >= 1000 {
		out = append(out, szGroup{"1000", []int{300, 999, 1000, 1001}})
	}
	if max >= 10000 {
		out = append(out, szGroup{"10000", []int{10000, 10001}})
	}
	return
}

type szShape struct {
	name string
	t    reflect.Type
	bin  string
	max  int // greatest size
	mk   func(n int) reflect.Value
	js   bool // JSON only
	bo   bool // binary only
	few  bool // few sizes and positions
}

func szShapes() (out []szShape) {
	g := newGen(baseSetup)
	str := func(alpha string) func(n int) reflect.Value {
		rs := []rune(alpha)
		return func(n int) reflect.Value {
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteRune(rs[(i*7+i/5)%len(rs)])
			}
			return reflect.ValueOf(b.String())
		}
	}
	out = append(out,
		szShape{name: "string", t: rt(""), max: 1 << 17, mk: str("abcdefghij ")},
		szShape{name: "utf8", t: rt(""), max: 1 << 14, mk: str("aé€\"\\\n<\u2028😀")},
		szShape{name: "bytes", t: tBytes, max: 1 << 17, mk: func(n int) reflect.Value {
			b := make([]byte, n, n+1)
			for i := range b {
				b[i] = byte(i*31 + i>>8 + 1)
			}
			return reflect.ValueOf(b)
		}},
		szShape{name: "named-string", t: rt(CStr("")), max: 1 << 12, mk: func(n int) reflect.Value {
			return reflect.ValueOf(CStr(strings.Repeat("xyz", n/3+1)[:n]))
		}},
		szShape{name: "named-bytes", t: rt(CBytes{}), max: 1 << 12, mk: func(n int) reflect.Value {
			return reflect.ValueOf(CBytes(strings.Repeat("\x00z\xff", n/3+1)[:n]))
		}},
		szShape{name: "am-string", t: rt(AmStr{}), max: 1 << 12, mk: func(n int) reflect.Value {
			return reflect.ValueOf(AmStr{strings.Repeat("uvw", n/3+1)[:n]})
		}},
	)
	// Plain strings but for one character somewhere.
	for _, odd := range []string{"\"", "\\", "\n", "\x00", "\x1f", "\x7f", "<", ">", "&", "/", "é", "€", "😀", "\u2028", "\u2029", "\ufffd", "\u0085", "\xff", "\xc3", "\xed\xa0\x80"} {
		odd, with := odd, "with"
		if !utf8.ValidString(odd) {
			with = "with invalid"
		}
		out = append(out, szShape{name: fmt.Sprintf("string %s %+q", with, odd), t: rt(""), max: 1 << 13, few: true, js: true, mk: func(n int) reflect.Value {
			p := []int{n, 0, n / 2}[n%3]
			return reflect.ValueOf(strings.Repeat("p", p) + odd + strings.Repeat("q", n-p))
		}})
	}
	list := func(name string, et reflect.Type, bin string, max int, els []reflect.Value) {
		if len(els) == 0 {
			panic(name)
		}
		t := reflect.SliceOf(et)
		out = append(out, szShape{name: "[]" + name, t: t, bin: bin, max: max, mk: func(n int) reflect.Value {
			v := reflect.MakeSlice(t, n, n+2)
			for i := 0; i < n; i++ {
				v.Index(i).Set(els[(i+i/7)%len(els)])
			}
			return v
		}})
		// The same elements everywhere, or almost everywhere.
		for k, el := range els {
			for j, odd := range els {
				if len(els) > 4 && j != k && j != (k+1)%len(els) {
					continue
				}
				el, odd := el, odd
				out = append(out, szShape{name: fmt.Sprintf("[]%s=%d/%d", name, k, j), t: t, bin: bin, max: max, few: true, mk: func(n int) reflect.Value {
					v := reflect.MakeSlice(t, n, n)
					for i := 0; i < n; i++ {
						v.Index(i).Set(el)
					}
					if n > 0 {
						v.Index([]int{n - 1, 0, n / 2}[n%3]).Set(odd)
					}
					return v
				}})
			}
		}
	}
	for _, l := range scalarLeaves() {
		if l.t.Kind() == reflect.Uint8 || l.am != "" {
			continue
		}
		max := 1 << 9
		switch l.name {
		case "int64", "string", "bool":
			max = 1 << 16
		case "int", "uint32":
			max = 1 << 14
		}
		list(l.name, l.t, l.bin, max, g.limited(l.t, 1, 9))
	}
	noNil := func(vs []reflect.Value) (out []reflect.Value) {
		for _, v := range vs {
			if (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil() {
				continue
			}
			out = append(out, v)
		}
		return
	}
	st := structOf(sInt, sStr)
	list("bytes", tBytes, "", 1<<14, g.limited(tBytes, 1, 5))
	list("struct", st, "", 1<<14, g.limited(st, 1, 7))
	list("*struct", reflect.PtrTo(st), "", 1<<12, noNil(g.limited(reflect.PtrTo(st), 1, 7)))
	list("*int", reflect.PtrTo(rt(int64(0))), "", 1<<10, noNil(g.limited(reflect.PtrTo(rt(int64(0))), 1, 7)))
	list("time", tTime, "", 1<<10, g.limited(tTime, 1, 7))
	i1 := reflect.TypeOf((*I1)(nil)).Elem()
	list("I1", i1, "", 1<<10, noNil(g.limited(i1, 1, 30)))
	i2 := reflect.TypeOf((*I2)(nil)).Elem()
	list("I2", i2, "", 1<<10, noNil(g.limited(i2, 1, 30)))
	for _, v := range []interface{}{AmStr{}, AmInt{}, AmStruct{}, [3]byte{}, MyString("")} {
		list(rt(v).Name()+rt(v).Kind().String(), rt(v), "", 1<<9, g.limited(rt(v), 1, 5))
	}
	out = append(out,
		szShape{name: "chain", t: rt(&szChain{}), max: 1 << 9, mk: func(n int) reflect.Value {
			p := &szChain{}
			for i := 0; i < n; i++ {
				p = &szChain{i * i, p}
			}
			return reflect.ValueOf(p)
		}},
		szShape{name: "tree", t: rt(szTree{}), max: 1 << 9, mk: func(n int) reflect.Value {
			p := szTree{S: "leaf"}
			for i := 0; i < n; i++ {
				p = szTree{S: fmt.Sprint(i), L: []szTree{{S: "x"}, p}}
			}
			return reflect.ValueOf(p)
		}},
		szShape{name: "nest", t: rt(CNest{}), max: 1 << 8, mk: func(n int) reflect.Value {
			p := CNest{}
			for i := 0; i < n; i++ {
				p = CNest{I: p}
			}
			return reflect.ValueOf(p)
		}},
	)
	for _, m := range []interface{}{map[string]int{}, map[string]string{}, map[MyString][]int{}} {
		t := rt(m)
		els := g.limited(t.Elem(), 1, 4)
		out = append(out, szShape{name: t.String(), t: t, max: 1 << 10, js: true, mk: func(n int) reflect.Value {
			v := reflect.MakeMap(t)
			for i := 0; i < n; i++ {
				v.SetMapIndex(reflect.ValueOf(fmt.Sprintf("%d", (i*7919)%100003)).Convert(t.Key()), els[i%len(els)])
			}
			return v
		}})
	}
	return
}

// sizeSpace returns the cases; kind is 'b' (binary), 'j' (JSON) or 'a' (all).
func sizeSpace(thorough bool, kind byte) (out []typeCase) {
	for _, s := range szShapes() {
		if s.js && kind == 'b' || s.bo && kind == 'j' || s.bin != "" && kind != 'b' {
			continue
		}
		s := s
		f := spec{t: s.t, bin: s.bin}
		one := structOf(f)
		nested := structOf(spec{t: one}, sInt)
		in := func(t reflect.Type, vs ...reflect.Value) reflect.Value {
			v := reflect.New(t).Elem()
			for i, x := range vs {
				v.Field(i).Set(x)
			}
			return v
		}
		max := s.max
		if !thorough && max > 1<<10 {
			max = 1 << 10
			if s.max >= 1<<16 {
				max = s.max
			} else if s.max > 1<<12 {
				max = 1 << 12
			}
		}
		groups := szGroups(thorough, max)
		if s.few {
			g := szGroup{"some", append(span(1, 9), 15, 16, 17, 31, 32, 33, 63, 64, 65)}
			for k := 7; 1<<uint(k) <= s.max && (k <= 10 || thorough); k++ {
				g.ns = append(g.ns, 1<<uint(k)-1, 1<<uint(k), 1<<uint(k)+1)
			}
			if s.max >= 5000 {
				g.ns = append(g.ns, 5000, 5001, 5002)
			}
			groups = []szGroup{g}
		}
		for _, gr := range groups {
			gr := gr
			add := func(pos string, t reflect.Type, mk func(n int) reflect.Value) {
				out = append(out, typeCase{key: "N:" + pos + " " + s.name + s.bin + " " + gr.name, t: t, vs: func() (vs []reflect.Value) {
					for _, n := range gr.ns {
						if n <= s.max+3 {
							vs = append(vs, mk(n))
						}
					}
					return
				}})
			}
			if s.bin == "" && !s.few {
				add("top", s.t, s.mk)
			}
			add("field", one, func(n int) reflect.Value { return in(one, s.mk(n)) })
			if !s.few && (s.max > 1<<9 || thorough) {
				add("nested", nested, func(n int) reflect.Value { return in(nested, in(one, s.mk(n)), reflect.ValueOf(n)) })
				lt := reflect.SliceOf(one)
				add("element", lt, func(n int) reflect.Value {
					v := reflect.MakeSlice(lt, 3, 3)
					v.Index(0).Set(in(one, s.mk(n)))
					v.Index(2).Set(in(one, s.mk(n/2)))
					return v
				})
			}
			i1 := reflect.TypeOf((*I1)(nil)).Elem()
			if s.t.Implements(i1) && s.bin == "" && !s.few {
				t := structOf(spec{t: i1}, sInt)
				add("interface", t, func(n int) reflect.Value { return in(t, s.mk(n), reflect.ValueOf(n)) })
			}
		}
	}
	// Arrays and structs have a type for each size.
	sizes := append(span(0, 20), 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 1000)
	if thorough {
		sizes = append(span(0, 300), 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 16383, 16384, 16385)
	}
	g := newGen(baseSetup)
	for _, et := range []reflect.Type{rt(byte(0)), rt(int64(0)), rt(true), rt(""), tTime, structOf(sInt, sStr)} {
		els := g.limited(et, 1, 5)
		for _, n := range sizes {
			n := n
			t := reflect.ArrayOf(n, et)
			vs := func() []reflect.Value {
				zero, full, last, first := reflect.New(t).Elem(), reflect.New(t).Elem(), reflect.New(t).Elem(), reflect.New(t).Elem()
				for i := 0; i < n; i++ {
					if et.Kind() == reflect.Uint8 {
						full.Index(i).SetUint(uint64(i + 1))
					} else {
						full.Index(i).Set(els[i%len(els)])
					}
				}
				if n > 0 && et.Kind() != reflect.Uint8 {
					last.Index(n - 1).Set(els[len(els)-1])
					first.Index(0).Set(els[len(els)-1])
				}
				return []reflect.Value{zero, full, last, first}
			}
			key := fmt.Sprintf("[%d]%v", n, et.Kind())
			out = append(out, typeCase{key: "N:top " + key, t: t, vs: vs})
			one := structOf(spec{t: t}, sInt)
			out = append(out, typeCase{key: "N:field " + key, t: one, vs: func() (out []reflect.Value) {
				for _, v := range vs() {
					x := reflect.New(one).Elem()
					x.Field(0).Set(v)
					x.Field(1).SetInt(1)
					out = append(out, x)
				}
				return
			}})
		}
	}
	wide := append(span(1, 34), 62, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257, 2046, 2047, 2048, 2049)
	if thorough {
		wide = append(span(1, 300), 511, 512, 513, 1023, 1024, 1025, 2046, 2047, 2048, 2049)
	}
	for _, n := range wide {
		n := n
		for _, f := range []spec{sInt, sStr, sPtr, {name: "time", t: tTime}, {name: "ints", t: rt([]int{})}} {
			if n > 300 && f.name != "int" && f.name != "string" {
				continue
			}
			if !thorough && n%3 != 0 && n != 127 && n != 128 && n != 16 && f.name != "int" {
				continue
			}
			var fs []spec
			for i := 0; i < n; i++ {
				fs = append(fs, f)
			}
			var t reflect.Type
			el := g.limited(f.t, 1, 6)
			one := el[len(el)-1]
			out = append(out, typeCase{key: fmt.Sprintf("N:struct of %d %s", n, f.name), t: structOf(fs...), vs: func() []reflect.Value {
				t = structOf(fs...)
				var vs []reflect.Value
				add := func(idx ...int) {
					v := reflect.New(t).Elem()
					for _, i := range idx {
						v.Field(i).Set(one)
					}
					vs = append(vs, v)
				}
				add()
				add(span(0, n-1)...)
				add(n - 1)
				add(0, n-1)
				if n <= 40 || thorough && n <= 130 {
					for i := 0; i < n; i++ {
						add(i)
					}
				}
				v := reflect.New(t).Elem()
				for i := 0; i < n; i++ {
					v.Field(i).Set(el[i%len(el)])
				}
				return append(vs, v)
			}})
		}
	}
	return
}

var _ = time.Second
