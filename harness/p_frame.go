package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	amino "github.com/tendermint/go-amino"
)

func init() {
	props["C08"] = propC08
	props["C09"] = propC09
	props["C28"] = propC28
}

// lengthVariants calls f with length prefixes for a payload of l bytes.
func lengthVariants(l uint64, f func(prefix []byte)) {
	exact := uvarint(l)
	f(exact)
	for pad := 1; len(exact)+pad <= 11; pad++ { // not minimal
		p := append([]byte{}, exact...)
		p[len(p)-1] |= 0x80
		for i := 1; i < pad; i++ {
			p = append(p, 0x80)
		}
		f(append(p, 0))
	}
	for _, x := range []uint64{l - 1, l + 1, l + 2, l + 128, 0, 1 << 31, 1<<31 + l, 1 << 32, 1<<32 + l, 1<<63 - 1, 1 << 63, 1<<63 + l, 1<<64 - 1, -l, -l - 1} {
		f(uvarint(x))
	}
	f(nil)
	f([]byte{0x80})
	f(bytes.Repeat([]byte{0x80}, 9))
	f(bytes.Repeat([]byte{0xff}, 10))
	f(append(bytes.Repeat([]byte{0xff}, 9), 2))
	f(append(bytes.Repeat([]byte{0x80}, 9), byte(l)|2))
	p := append([]byte{}, exact...) // ten bytes, the last beyond 64 bits
	p[len(p)-1] |= 0x80
	for len(p) < 9 {
		p = append(p, 0x80)
	}
	f(append(p, 2))
}

// C08: exactly one frame.
func propC08(c *Ctx) {
	cases := decodeTypes(c.Thorough)
	m := newModel(baseSetup)
	g := newGen(baseSetup)
	counts := make([]map[string]int64, len(c.slots))
	for i := range counts {
		counts[i] = map[string]int64{}
	}
	check := func(w int, tc typeCase, cdc *amino.Codec, in []byte) bool {
		want, werr := reflect.Value{}, errors.New("framing")
		if l, n := readUvarint(in); n > 0 && l == uint64(len(in)-n) {
			want, werr = m.unmarshal(in[n:], tc.t)
		}
		p := reflect.New(tc.t)
		var err error
		if pv := try(func() { err = cdc.UnmarshalBinaryLengthPrefixed(in[:len(in):len(in)], p.Interface()) }); pv != nil {
			c.Violate(tc.key, "UnmarshalBinaryLengthPrefixed(%x) into %v panics: %v", in, goType(tc.t), pv)
			return false
		}
		c.State(1)
		c.Transition(1)
		c.Trace(1)
		if (err == nil) != (werr == nil) {
			c.Violate(tc.key, "UnmarshalBinaryLengthPrefixed(%x) into %v: error %v, but the model says %v", in, goType(tc.t), err, werr)
			return false
		}
		if err != nil {
			counts[w]["rejected"]++
			return true
		}
		counts[w]["accepted"]++
		if d := diff(want, p.Elem()); d != "" {
			c.Violate(tc.key, "UnmarshalBinaryLengthPrefixed(%x) into %v gives %s, want %s (%s)", in, goType(tc.t), show(p.Elem()), show(want), d)
			return false
		}
		return true
	}
	small := []byte{0, 1, 2, 3, 4, 8, 0x0a, 0x7f, 0x80, 0xff}
	c.forTypes(cases, func(w int, tc typeCase, cdc *amino.Codec) {
		if !canDecodeTop(tc.t) {
			return
		}
		n := 0
		vs := c.valuesOf(g, tc)
		for i := len(vs) - 1; i >= 0; i-- {
			v := vs[i]
			ev, ok := chase(v)
			if !ok || ev.Kind() == reflect.Interface {
				continue
			}
			if _, err := m.marshal(ev); err != nil {
				continue
			}
			bare, err := cdc.MarshalBinaryBare(v.Interface())
			lp, err2 := cdc.MarshalBinaryLengthPrefixed(v.Interface())
			if err != nil || err2 != nil || !bytes.Equal(lp, lenPrefixed(bare)) {
				c.Violate(tc.key, "MarshalBinaryLengthPrefixed gives %x (%v), MarshalBinaryBare %x (%v); %s", lp, err2, bare, err, show(v))
				return
			}
			c.Transition(2)
			c.State(1)
			if len(bare) > 4 {
				c.Sample("frame", "%v %s -> %x", goType(tc.t), show(v), lp)
			}
			if n++; n > 6 && !c.Thorough {
				continue
			}
			bodies := [][]byte{bare, append(append([]byte{}, bare...), 0), append(append([]byte{}, bare...), 0x7a, 1, 0)}
			if len(bare) > 0 {
				bodies = append(bodies, bare[:len(bare)-1])
			}
			for _, body := range bodies {
				stop := false
				lengthVariants(uint64(len(body)), func(p []byte) {
					stop = stop || !check(w, tc, cdc, append(append([]byte{}, p...), body...))
				})
				if stop {
					return
				}
			}
			for i := range lp {
				if !check(w, tc, cdc, lp[:i]) {
					return
				}
			}
			if !check(w, tc, cdc, append(append([]byte{}, lp...), lp...)) {
				return
			}
		}
		// All short strings.
		depth := 3
		if c.Thorough {
			depth = 4
		}
		var rec func(b []byte, left int) bool
		rec = func(b []byte, left int) bool {
			if !check(w, tc, cdc, b) {
				return false
			}
			if left == 0 {
				return true
			}
			for _, x := range small {
				if !rec(append(b[:len(b):len(b)], x), left-1) {
					return false
				}
			}
			return true
		}
		rec(nil, depth)
	})
	// Sizes around the steps of the length prefix.
	var sizes []int
	for _, x := range []int{0, 1, 126, 127, 128, 129, 16382, 16383, 16384, 16385, 1<<21 - 1, 1 << 21, 1<<21 + 1} {
		for d := -6; d <= 0; d++ {
			if x+d >= 0 {
				sizes = append(sizes, x+d)
			}
		}
	}
	c.Parallel(len(sizes), func(w, i int) {
		key := fmt.Sprintf("size/%d", sizes[i])
		c.Case(w, key, func() {
			cdc := baseSetup.codec()
			for _, o := range []interface{}{make([]byte, sizes[i]), struct{ A []byte }{make([]byte, sizes[i])}, CBytes(make([]byte, sizes[i]))} {
				bare, err := cdc.MarshalBinaryBare(o)
				lp, err2 := cdc.MarshalBinaryLengthPrefixed(o)
				if err != nil || err2 != nil || !bytes.Equal(lp, lenPrefixed(bare)) {
					c.Violate(key, "MarshalBinaryLengthPrefixed of a %T of length %d gives a %d byte frame (%v); MarshalBinaryBare: %d bytes (%v)", o, sizes[i], len(lp), err2, len(bare), err)
					return
				}
				p := reflect.New(rt(o))
				err = cdc.UnmarshalBinaryLengthPrefixed(lp, p.Interface())
				// An empty bare encoding is a frame, too.
				want := m.norm(reflect.ValueOf(o), eopts{num: 1})
				if err != nil || diff(want, p.Elem()) != "" {
					c.Violate(key, "UnmarshalBinaryLengthPrefixed of %T: %v", o, err)
				}
				c.State(1)
				c.Transition(3)
			}
		})
	})
	for _, m := range counts {
		c.AddOutcomes(m)
	}
}

// ---- C09

// choices is a script of decisions: replayed as far as it goes, then 0.
type choices struct {
	script []int
	max    []int
	pos    int
}

func (s *choices) pick(n int) int {
	if s.pos == len(s.script) {
		s.script = append(s.script, 0)
		s.max = append(s.max, n)
	}
	s.max[s.pos] = n
	k := s.script[s.pos]
	s.pos++
	return k
}

// next moves to the next script; false if there's none.
func (s *choices) next() bool {
	s.script, s.max = s.script[:s.pos], s.max[:s.pos]
	for i := len(s.script) - 1; i >= 0; i-- {
		if s.script[i]+1 < s.max[i] {
			s.script[i]++
			s.script, s.max, s.pos = s.script[:i+1], s.max[:i+1], 0
			return true
		}
	}
	return false
}

// chooser is a reader whose every answer is a choice.
type chooser struct {
	s      *choices
	data   []byte
	off    int
	zeros  int // consecutive empty reads so far
	maxZ   int
	failAt int // the reader fails once off reaches this, -1: never
	err    error
	reads  int
	asked  int // highest offset that was asked for
}

func (r *chooser) Read(p []byte) (int, error) {
	r.reads++
	if r.reads > 100000 {
		panic("endless reading")
	}
	if len(p) == 0 {
		return 0, nil
	}
	end, atEnd := len(r.data), error(io.EOF)
	if r.failAt >= 0 && r.failAt < end {
		end, atEnd = r.failAt, r.err
	}
	avail := end - r.off
	if avail > len(p) {
		avail = len(p)
	}
	if avail == 0 {
		return 0, atEnd
	}
	n := 0
	// 0: all; 1: all with the error, if that's the end; then fewer; then none.
	opts := avail
	last := r.off+avail == end
	if last {
		opts++
	}
	if r.zeros < r.maxZ {
		opts++
	}
	k := r.s.pick(opts)
	if k == 0 {
		n = avail
	} else if last && k == 1 {
		copy(p, r.data[r.off:r.off+avail])
		r.off += avail
		r.zeros = 0
		return avail, atEnd
	} else {
		if last {
			k--
		}
		n = avail - k // from avail-1 down to 0
	}
	if n == 0 {
		r.zeros++
		return 0, nil
	}
	r.zeros = 0
	copy(p, r.data[r.off:r.off+n])
	r.off += n
	return n, nil
}

// chooserWriter is a writer whose every answer is a choice.
type chooserWriter struct {
	s       *choices
	buf     bytes.Buffer
	failed  bool
	emitted int
}

func (w *chooserWriter) Write(p []byte) (int, error) {
	k := w.s.pick(len(p) + 2)
	if k == 0 {
		w.buf.Write(p)
		return len(p), nil
	}
	w.failed = true
	w.buf.Write(p[:k-1])
	return k - 1, errFaulty
}

// fullWriter fails after a number of bytes.
type fullWriter struct {
	buf  bytes.Buffer
	left int
}

func (w *fullWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		return w.buf.Write(p)
	}
	n, _ := w.buf.Write(p[:w.left])
	w.left = 0
	return n, errFaulty
}

type streamObj struct {
	name string
	v    interface{}
}

func streamObjs(thorough bool) []streamObj {
	out := []streamObj{
		{"empty", struct{}{}}, {"zero int", int8(0)}, {"int8", int8(-3)}, {"string", "ab"}, {"struct", reprXY{1, "x"}}, {"registered", CI8(4)},
		{"interface", struct{ F I1 }{CI8(1)}}, {"list", []string{"", "a"}}, {"bytes", []byte{1, 2, 3, 4, 5}},
	}
	if thorough {
		out = append(out, streamObj{"seven", []byte("1234567")}, streamObj{"nested", TimeInIn{V: 1}})
	}
	return out
}

func propC09(c *Ctx) {
	m := newModel(baseSetup)
	_ = m
	objs := streamObjs(c.Thorough)
	maxZ := 1
	type job struct {
		key string
		f   func(w int, cdc *amino.Codec)
	}
	var jobs []job
	add := func(key string, f func(w int, cdc *amino.Codec)) { jobs = append(jobs, job{key, f}) }
	c.Bound("objects", len(objs))
	c.Bound("consecutive_empty_reads", maxZ)
	c.Assume("readers: every sequence of short reads, single empty reads, data with or without the final error; streams of one to three frames")

	// decode reads objects of the given types off the stream in every way the
	// reader may answer, and hands each outcome to check.
	explore := func(cdc *amino.Codec, data []byte, types []reflect.Type, maxSize int64, failAt int, ferr error, mz int,
		check func(r *chooser, i int, n int64, v reflect.Value, err error) bool) bool {
		s := &choices{}
		for {
			r := &chooser{s: s, data: data, maxZ: mz, failAt: failAt, err: ferr}
			for i, t := range types {
				p := reflect.New(t)
				var n int64
				var err error
				if pv := try(func() { n, err = cdc.UnmarshalBinaryLengthPrefixedReader(r, p.Interface(), maxSize) }); pv != nil {
					err = fmt.Errorf("panic: %v", pv)
					return check(r, -1, 0, p.Elem(), err)
				}
				c.Transition(1)
				if !check(r, i, n, p.Elem(), err) {
					return false
				}
				if err != nil {
					break
				}
			}
			c.State(1)
			c.Trace(1)
			if !s.next() {
				return true
			}
		}
	}

	frames := map[string][]byte{}
	types := map[string]reflect.Type{}
	wants := map[string]reflect.Value{}
	base := baseSetup.codec()
	for _, o := range objs {
		b, err := base.MarshalBinaryLengthPrefixed(o.v)
		if err != nil {
			c.Violate("frames", "%v: %v", o.name, err)
			return
		}
		frames[o.name], types[o.name] = b, rt(o.v)
		wants[o.name] = m.norm(reflect.ValueOf(o.v), eopts{num: 1})
	}

	// One frame, every delivery, then the end of the stream.
	for _, o := range objs {
		o := o
		add("one/"+o.name, func(w int, cdc *amino.Codec) {
			f := frames[o.name]
			mz := maxZ
			if len(f) > 8 && !c.Thorough {
				mz = 0
			}
			explore(cdc, f, []reflect.Type{types[o.name], types[o.name]}, 0, -1, nil, mz, func(r *chooser, i int, n int64, v reflect.Value, err error) bool {
				if i == 0 {
					if err != nil || n != int64(len(f)) || r.off != len(f) || diff(wants[o.name], v) != "" {
						c.Violate("one/"+o.name, "reading %x with answers %v: n=%d, consumed %d, %s, %v", f, r.s.script, n, r.off, show(v), err)
						return false
					}
					return true
				}
				if i != 1 || err != io.EOF || n != 0 {
					c.Violate("one/"+o.name, "at the end of %x with answers %v: n=%d, %v", f, r.s.script, n, err)
					return false
				}
				return true
			})
			c.Sample("frame", "%s: %x", o.name, f)
		})
	}
	// Consecutive frames.
	for _, a := range objs {
		for _, b := range objs {
			a, b := a, b
			add("two/"+a.name+"/"+b.name, func(w int, cdc *amino.Codec) {
				fa, fb := frames[a.name], frames[b.name]
				if len(fa)+len(fb) > 11 && !c.Thorough || len(fa)+len(fb) > 15 {
					return
				}
				data := append(append([]byte{}, fa...), fb...)
				lens := []int{len(fa), len(fa) + len(fb)}
				names := []string{a.name, b.name}
				explore(cdc, data, []reflect.Type{types[a.name], types[b.name]}, 0, -1, nil, 0, func(r *chooser, i int, n int64, v reflect.Value, err error) bool {
					if i < 0 || err != nil || r.off != lens[i] || n != int64(len(frames[names[i]])) || diff(wants[names[i]], v) != "" {
						c.Violate("two/"+a.name+"/"+b.name, "object %d of %x with answers %v: n=%d, consumed %d, %s, %v", i, data, r.s.script, n, r.off, show(v), err)
						return false
					}
					return true
				})
			})
		}
	}
	add("three", func(w int, cdc *amino.Codec) {
		names := []string{"zero int", "int8", "string"}
		var data []byte
		var lens []int
		var ts []reflect.Type
		for _, n := range names {
			data = append(data, frames[n]...)
			lens = append(lens, len(data))
			ts = append(ts, types[n])
		}
		explore(cdc, data, ts, 0, -1, nil, 0, func(r *chooser, i int, n int64, v reflect.Value, err error) bool {
			if i < 0 || err != nil || r.off != lens[i] || n != int64(len(frames[names[i]])) || diff(wants[names[i]], v) != "" {
				c.Violate("three", "object %d of %x with answers %v: n=%d, consumed %d, %s, %v", i, data, r.s.script, n, r.off, show(v), err)
				return false
			}
			return true
		})
	})
	// Failures at every offset.
	for _, o := range objs {
		for _, e := range []error{errFaulty, io.EOF, io.ErrUnexpectedEOF} {
			o, e := o, e
			key := fmt.Sprintf("fail/%s/%v", o.name, e)
			add(key, func(w int, cdc *amino.Codec) {
				f := frames[o.name]
				for at := 0; at < len(f); at++ {
					explore(cdc, f, []reflect.Type{types[o.name]}, 0, at, e, 0, func(r *chooser, i int, n int64, v reflect.Value, err error) bool {
						if i < 0 || err == nil {
							c.Violate(key, "reading %x, failing after %d bytes, with answers %v: n=%d, %s, %v", f, at, r.s.script, n, show(v), err)
							return false
						}
						if n < 0 || n > int64(at) {
							c.Violate(key, "reading %x, failing after %d bytes: n=%d", f, at, n)
							return false
						}
						return true
					})
				}
			})
		}
	}
	// maxSize around the size of the frame.
	for _, o := range objs {
		o := o
		key := "max/" + o.name
		add(key, func(w int, cdc *amino.Codec) {
			f := frames[o.name]
			data := append(append([]byte{}, f...), 0xff, 0xff, 0xff)
			for max := int64(0); max <= int64(len(f))+2; max++ {
				ok := max == 0 || max >= int64(len(f))
				explore(cdc, data, []reflect.Type{types[o.name]}, max, -1, nil, 0, func(r *chooser, i int, n int64, v reflect.Value, err error) bool {
					if i < 0 || (err == nil) != ok {
						c.Violate(key, "reading %x with maxSize %d and answers %v: %v", f, max, r.s.script, err)
						return false
					}
					if !ok && int64(r.off) > max {
						c.Violate(key, "reading %x with maxSize %d: consumed %d", f, max, r.off)
						return false
					}
					if ok && r.off != len(f) {
						c.Violate(key, "reading %x with maxSize %d: consumed %d", f, max, r.off)
						return false
					}
					return true
				})
			}
		})
	}
	// Arbitrary streams: agreement with the slice decoder on the first frame.
	al := []byte{0, 1, 2, 3, 0x08, 0x7f, 0x80, 0x81, 0xff}
	arb := []reflect.Type{rt(int8(0)), rt(""), rt(struct{}{}), rt(reprXY{}), tI1, rt([]string{})}
	for _, t := range arb {
		t := t
		key := "arbitrary/" + t.String()
		depth := 4
		if c.Thorough {
			depth = 5
		}
		add(key, func(w int, cdc *amino.Codec) {
			one := func(b []byte, all bool) bool {
				l, ln := readUvarint(b)
				ok := ln > 0 && l <= uint64(len(b)-ln)
				want, size := reflect.Value{}, 0
				framed := ok
				if ok {
					var err error
					size = ln + int(l)
					if want, err = m.unmarshal(b[ln:size], t); err != nil {
						ok = false
					}
				}
				for _, max := range []int64{0, 1, 3, 1 << 20, 1<<63 - 1} {
					wok := ok && (max == 0 || int64(size) <= max)
					s := &choices{}
					for {
						r := &chooser{s: s, data: b, failAt: -1}
						p := reflect.New(t)
						var n int64
						var err error
						if pv := try(func() { n, err = cdc.UnmarshalBinaryLengthPrefixedReader(r, p.Interface(), max) }); pv != nil {
							c.Violate(key, "reading %x with maxSize %d panics: %v", b, max, pv)
							return false
						}
						c.Transition(1)
						c.State(1)
						if (err == nil) != wok {
							c.Violate(key, "reading %x with maxSize %d and answers %v: %v", b, max, s.script, err)
							return false
						}
						if wok && (n != int64(size) || r.off != size || diff(want, p.Elem()) != "") {
							c.Violate(key, "reading %x with maxSize %d and answers %v: n=%d, consumed %d, %s", b, max, s.script, n, r.off, show(p.Elem()))
							return false
						}
						if max > 0 && int64(r.off) > max || size > 0 && r.off > size {
							c.Violate(key, "reading %x with maxSize %d: consumed %d", b, max, r.off)
							return false
						}
						// Also if the contents are malformed.
						whole := framed && (max == 0 || int64(size) <= max)
						if n < 0 || n > int64(r.off) || whole && (n != int64(size) || r.off != size) {
							c.Violate(key, "reading %x with maxSize %d: n=%d, consumed %d", b, max, n, r.off)
							return false
						}
						if !all || !s.next() {
							break
						}
					}
				}
				return true
			}
			var rec func(b []byte, left int) bool
			rec = func(b []byte, left int) bool {
				if !one(b, len(b) <= 3) {
					return false
				}
				if left == 0 {
					return true
				}
				for _, x := range al {
					if !rec(append(b[:len(b):len(b)], x), left-1) {
						return false
					}
				}
				return true
			}
			rec(nil, depth)
			lengthVariants(4, func(p []byte) {
				one(append(append([]byte{}, p...), 1, 2, 3, 4), false)
				one(append(append([]byte{}, p...), 0x0a, 2, 0x61, 0x62), false)
			})
		})
	}
	// Writers.
	long := streamObj{"long", strings.Repeat("x", 200)} // whose length takes two bytes
	frames[long.name] = amino.MustMarshalBinaryLengthPrefixed(long.v)
	for _, o := range append(append([]streamObj{}, objs...), long) {
		o := o
		key := "write/" + o.name
		add(key, func(w int, cdc *amino.Codec) {
			s := &choices{}
			for {
				cw := &chooserWriter{s: s}
				n, err := cdc.MarshalBinaryLengthPrefixedWriter(cw, o.v)
				c.State(1)
				c.Transition(1)
				if n != int64(cw.buf.Len()) || (err != nil) != cw.failed || err != nil && !errors.Is(err, errFaulty) ||
					!bytes.HasPrefix(frames[o.name], cw.buf.Bytes()) || err == nil && cw.buf.Len() != len(frames[o.name]) {
					c.Violate(key, "answers %v: wrote %x, n=%d, %v", s.script, cw.buf.Bytes(), n, err)
					return
				}
				if !s.next() {
					break
				}
			}
		})
	}
	c.Parallel(len(jobs), func(w, i int) {
		c.Case(w, jobs[i].key, func() { jobs[i].f(w, baseSetup.codec()) })
	})
	// Large frames in a few fragmentations.
	c.Case(0, "large", func() {
		for _, size := range []int{500, 511, 512, 513, 1024, 4096, 70000} {
			o := struct {
				A []byte
				B int
			}{bytes.Repeat([]byte{7}, size), 5}
			f, _ := base.MarshalBinaryLengthPrefixed(o)
			for _, chunk := range []int{1, 2, 511, 512, 513, 4096, 1 << 20} {
				for _, eof := range []bool{false, true} {
					r := &chunkReader{data: append(append([]byte{}, f...), f...), chunk: chunk, eof: eof}
					for k := 1; k <= 2; k++ {
						p := reflect.New(rt(o))
						n, err := base.UnmarshalBinaryLengthPrefixedReader(r, p.Interface(), int64(len(f)))
						if err != nil || n != int64(len(f)) || r.off != k*len(f) || diff(reflect.ValueOf(o), p.Elem()) != "" {
							c.Violate("large", "object of %d bytes in chunks of %d: n=%d, consumed %d, %v", size, chunk, n, r.off, err)
							return
						}
						c.State(1)
						c.Transition(1)
					}
				}
			}
		}
	})
}

type chunkReader struct {
	data  []byte
	off   int
	chunk int
	eof   bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.off == len(r.data) {
		return 0, io.EOF
	}
	n := len(r.data) - r.off
	if n > r.chunk {
		n = r.chunk
	}
	n = copy(p, r.data[r.off:r.off+n])
	r.off += n
	if r.eof && r.off == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

// ---- C28

type outcome28 struct {
	b     []byte
	n     int64
	v     reflect.Value
	err   error
	panic bool
}

func (o outcome28) failed() bool { return o.err != nil || o.panic }

func enc28(f func() ([]byte, error)) (o outcome28) {
	if pv := try(func() { o.b, o.err = f() }); pv != nil {
		o = outcome28{panic: true}
	}
	return
}

func must28(f func() []byte) (o outcome28) {
	if pv := try(func() { o.b = f() }); pv != nil {
		o = outcome28{panic: true}
	}
	return
}

func dec28(t reflect.Type, f func(p interface{}) error) (o outcome28) {
	p := reflect.New(t)
	if pv := try(func() { o.err = f(p.Interface()) }); pv != nil {
		o.panic = true
	}
	o.v = p.Elem()
	return
}

// same: equal result; if must, a panic stands for an error.
func (o outcome28) same(x outcome28, must bool) string {
	if must {
		if o.failed() != x.panic || x.err != nil {
			return fmt.Sprintf("failed %v, but Must panicked %v", o.failed(), x.panic)
		}
	} else if (o.err != nil) != (x.err != nil) || o.panic != x.panic {
		return fmt.Sprintf("error %v, panic %v, but the other %v, %v", o.err, o.panic, x.err, x.panic)
	}
	if o.failed() {
		return ""
	}
	if !bytes.Equal(o.b, x.b) {
		return fmt.Sprintf("%q, but the other %q", o.b, x.b)
	}
	if o.v.IsValid() {
		if d := diff(o.v, x.v); d != "" {
			return "values differ at " + d
		}
	}
	return ""
}

func propC28(c *Ctx) {
	cases := decodeTypes(c.Thorough)
	for _, tc := range jsonSpace(false) {
		if strings.HasPrefix(tc.key, "T:") || strings.HasPrefix(tc.key, "{map") {
			tc.lvl, tc.cap = 1, 20
			cases = append(cases, tc)
		}
	}
	// Types that the codecs refuse.
	for i, t := range []reflect.Type{rt(complex64(0)), rt(make(chan int)), rt(float64(0)), rt(struct{ F float32 }{}), rt(struct{ F chan int }{}),
		rt(map[int]int{}), rt(struct{ E error }{}), rt([][]int{}), rt(func() {})} {
		cases = append(cases, typeCase{key: fmt.Sprintf("U:%d", i), t: t})
	}
	g := newGen(baseSetup)
	g.badUTF8 = true
	var classes = make([]map[string]int64, len(c.slots))
	for i := range classes {
		classes[i] = map[string]int64{}
	}
	c.Assume("package-level functions are compared with the methods of a new codec, the variants of methods with each other on a codec with registrations")
	c.forTypes(cases, func(w int, tc typeCase, cdc *amino.Codec) {
		empty := amino.NewCodec()
		bad := func(what, d string, v interface{}) {
			c.Violate(tc.key, "%s: %s; %v %s", what, d, goType(tc.t), show(reflect.ValueOf(v)))
		}
		var inputs, texts [][]byte
		vs := c.valuesOf(g, tc)
		if !c.Thorough && len(vs) > 12 {
			vs = append(vs[:6:6], vs[len(vs)-6:]...)
		}
		nilDone := false
		for _, v := range vs {
			o := v.Interface()
			if !nilDone && v.Kind() == reflect.Ptr && v.IsNil() {
				nilDone = true
			}
			for k, cd := range []*amino.Codec{cdc, empty} {
				bare := enc28(func() ([]byte, error) { return cd.MarshalBinaryBare(o) })
				lp := enc28(func() ([]byte, error) { return cd.MarshalBinaryLengthPrefixed(o) })
				js := enc28(func() ([]byte, error) { return cd.MarshalJSON(o) })
				ind := enc28(func() ([]byte, error) { return cd.MarshalJSONIndent(o, " ", "\t") })
				if d := bare.same(must28(func() []byte { return cd.MustMarshalBinaryBare(o) }), true); d != "" {
					bad("MustMarshalBinaryBare", d, o)
				}
				if d := lp.same(must28(func() []byte { return cd.MustMarshalBinaryLengthPrefixed(o) }), true); d != "" {
					bad("MustMarshalBinaryLengthPrefixed", d, o)
				}
				if d := js.same(must28(func() []byte { return cd.MustMarshalJSON(o) }), true); d != "" {
					bad("MustMarshalJSON", d, o)
				}
				if bare.failed() != lp.failed() {
					bad("MarshalBinaryLengthPrefixed", fmt.Sprintf("fails %v, MarshalBinaryBare %v", lp.failed(), bare.failed()), o)
				}
				var wbuf bytes.Buffer
				wr := enc28(func() ([]byte, error) {
					n, err := cd.MarshalBinaryLengthPrefixedWriter(&wbuf, o)
					if err == nil && n != int64(wbuf.Len()) {
						err = fmt.Errorf("n=%d for %d bytes", n, wbuf.Len())
					}
					return wbuf.Bytes(), err
				})
				if d := lp.same(wr, false); d != "" {
					bad("MarshalBinaryLengthPrefixedWriter", d, o)
				}
				for i := 0; i < len(lp.b) && i < 4; i++ {
					fw := &fullWriter{left: i}
					n, err := cd.MarshalBinaryLengthPrefixedWriter(fw, o)
					if err == nil || n != int64(i) || !bytes.Equal(fw.buf.Bytes(), lp.b[:i]) {
						bad("MarshalBinaryLengthPrefixedWriter", fmt.Sprintf("to a writer that fails after %d bytes: n=%d, %v, wrote %x", i, n, err, fw.buf.Bytes()), o)
						break
					}
				}
				if lp.failed() && wbuf.Len() > 0 {
					bad("MarshalBinaryLengthPrefixedWriter", "writes in spite of an error", o)
				}
				want := js
				if !js.failed() {
					var buf bytes.Buffer
					if err := json.Indent(&buf, js.b, " ", "\t"); err != nil {
						want = outcome28{err: err}
					} else {
						want.b = buf.Bytes()
					}
				}
				if d := want.same(ind, false); d != "" {
					bad("MarshalJSONIndent", d, o)
				}
				c.Transition(9)
				if bare.failed() {
					classes[w]["binary refused"]++
				} else {
					classes[w]["binary encoded"]++
				}
				if k == 1 { // against the package
					for _, x := range []struct {
						n    string
						a, b outcome28
						must bool
					}{
						{"MarshalBinaryBare", bare, enc28(func() ([]byte, error) { return amino.MarshalBinaryBare(o) }), false},
						{"MustMarshalBinaryBare", bare, must28(func() []byte { return amino.MustMarshalBinaryBare(o) }), true},
						{"MarshalBinaryLengthPrefixed", lp, enc28(func() ([]byte, error) { return amino.MarshalBinaryLengthPrefixed(o) }), false},
						{"MustMarshalBinaryLengthPrefixed", lp, must28(func() []byte { return amino.MustMarshalBinaryLengthPrefixed(o) }), true},
						{"MarshalJSON", js, enc28(func() ([]byte, error) { return amino.MarshalJSON(o) }), false},
						{"MarshalJSONIndent", ind, enc28(func() ([]byte, error) { return amino.MarshalJSONIndent(o, " ", "\t") }), false},
						{"MarshalBinaryLengthPrefixedWriter", lp, enc28(func() ([]byte, error) {
							var buf bytes.Buffer
							_, err := amino.MarshalBinaryLengthPrefixedWriter(&buf, o)
							return buf.Bytes(), err
						}), false},
					} {
						if d := x.a.same(x.b, x.must); d != "" {
							bad("package-level "+x.n, d, o)
						}
						c.Transition(1)
					}
				}
				if !bare.failed() && len(inputs) < 12 {
					inputs = append(inputs, bare.b)
				}
				if !js.failed() && len(texts) < 12 {
					texts = append(texts, js.b)
				}
			}
			c.State(1)
			c.Trace(1)
		}
		if !canDecodeTop(tc.t) {
			return
		}
		inputs = append(inputs, nil, []byte{0}, []byte{8}, []byte{8, 1}, []byte{0x0a, 0}, []byte{0x0a, 2, 8, 1}, []byte{0x80}, []byte{0x12, 1, 0x61})
		texts = append(texts, nil, []byte("null"), []byte("x"), []byte("{}"), []byte("[]"), []byte(`"1"`), []byte("1"), []byte("{"))
		for _, in := range append([][]byte{}, inputs...) {
			if len(in) > 1 {
				inputs = append(inputs, in[:len(in)-1])
			}
		}
		for k, cd := range []*amino.Codec{cdc, empty} {
			pkg := k == 1
			for _, in := range inputs {
				lpin := lenPrefixed(in)
				bare := dec28(tc.t, func(p interface{}) error { return cd.UnmarshalBinaryBare(in, p) })
				lp := dec28(tc.t, func(p interface{}) error { return cd.UnmarshalBinaryLengthPrefixed(lpin, p) })
				rd := func(f func(r io.Reader, p interface{}, max int64) (int64, error)) outcome28 {
					return dec28(tc.t, func(p interface{}) error {
						n, err := f(bytes.NewReader(lpin), p, 0)
						if err == nil && n != int64(len(lpin)) {
							return fmt.Errorf("n=%d", n)
						}
						return err
					})
				}
				must := func(f func(p interface{})) outcome28 {
					return dec28(tc.t, func(p interface{}) error { f(p); return nil })
				}
				type cmp struct {
					n    string
					a, b outcome28
					must bool
				}
				l := []cmp{
					{"UnmarshalBinaryLengthPrefixed against Bare", bare, lp, false},
					{"UnmarshalBinaryLengthPrefixedReader", lp, rd(cd.UnmarshalBinaryLengthPrefixedReader), false},
					{"MustUnmarshalBinaryBare", bare, must(func(p interface{}) { cd.MustUnmarshalBinaryBare(in, p) }), true},
					{"MustUnmarshalBinaryLengthPrefixed", lp, must(func(p interface{}) { cd.MustUnmarshalBinaryLengthPrefixed(lpin, p) }), true},
				}
				if pkg {
					l = append(l,
						cmp{"package-level UnmarshalBinaryBare", bare, dec28(tc.t, func(p interface{}) error { return amino.UnmarshalBinaryBare(in, p) }), false},
						cmp{"package-level UnmarshalBinaryLengthPrefixed", lp, dec28(tc.t, func(p interface{}) error { return amino.UnmarshalBinaryLengthPrefixed(lpin, p) }), false},
						cmp{"package-level UnmarshalBinaryLengthPrefixedReader", lp, rd(amino.UnmarshalBinaryLengthPrefixedReader), false},
						cmp{"package-level MustUnmarshalBinaryBare", bare, must(func(p interface{}) { amino.MustUnmarshalBinaryBare(in, p) }), true},
						cmp{"package-level MustUnmarshalBinaryLengthPrefixed", lp, must(func(p interface{}) { amino.MustUnmarshalBinaryLengthPrefixed(lpin, p) }), true},
					)
				}
				for _, x := range l {
					if d := x.a.same(x.b, x.must); d != "" {
						c.Violate(tc.key, "%s of %x into %v: %s", x.n, in, goType(tc.t), d)
						return
					}
					c.Transition(2)
				}
				if bare.failed() {
					classes[w]["binary rejected"]++
				} else {
					classes[w]["binary decoded"]++
				}
			}
			for _, in := range texts {
				js := dec28(tc.t, func(p interface{}) error { return cd.UnmarshalJSON(in, p) })
				must := dec28(tc.t, func(p interface{}) error { cd.MustUnmarshalJSON(in, p); return nil })
				if d := js.same(must, true); d != "" {
					c.Violate(tc.key, "MustUnmarshalJSON of %s into %v: %s", in, goType(tc.t), d)
					return
				}
				if pkg {
					if d := js.same(dec28(tc.t, func(p interface{}) error { return amino.UnmarshalJSON(in, p) }), false); d != "" {
						c.Violate(tc.key, "package-level UnmarshalJSON of %s into %v: %s", in, goType(tc.t), d)
						return
					}
				}
				c.Transition(2)
			}
			c.State(len(inputs) + len(texts))
		}
	})
	for _, m := range classes {
		c.AddOutcomes(m)
	}
}
