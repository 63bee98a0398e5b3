package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"sync/atomic"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() {
	props["C07"] = propC07
}

// prim is one exported Encode/Decode(/Size) family and its reference.
type prim struct {
	name string
	vals func(thorough bool) []interface{}
	enc  func(w io.Writer, v interface{}) error
	dec  func(b []byte) (interface{}, int, error)
	size func(v interface{}) int
	// reference
	ref    func(v interface{}) []byte
	refDec func(b []byte) (v interface{}, n int, ok bool)
	noTail bool // what follows may belong to the value
}

var interesting64 = func() (out []int64) {
	seen := map[int64]bool{}
	add := func(u uint64) {
		for _, x := range []int64{int64(u), -int64(u)} {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	for i := uint(0); i < 64; i++ {
		for d := -2; d <= 2; d++ {
			add(uint64(1)<<i + uint64(d))
		}
		for j := uint(0); j < i; j++ {
			add(uint64(1)<<i | uint64(1)<<j)
		}
	}
	add(0x0102030405060708)
	add(0xf1f2f3f4f5f6f7f8)
	return
}()

func refUvarint(b []byte) (uint64, int, bool) {
	u, n := readUvarint(b)
	return u, n, n > 0
}

func refVarint(b []byte) (int64, int, bool) {
	u, n, ok := refUvarint(b)
	return int64(u>>1) ^ -int64(u&1), n, ok
}

func refBytes(b []byte) (interface{}, int, bool) {
	l, n, ok := refUvarint(b)
	if !ok || l > uint64(len(b)-n) {
		return nil, 0, false
	}
	return append([]byte{}, b[n:n+int(l)]...), n + int(l), true
}

func refTime(b []byte) (interface{}, int, bool) {
	// field 1: seconds, field 2: nanos, each optional, both varint.
	var s, ns uint64
	n := 0
	key := func() (uint64, int, bool) { return refUvarint(b[n:]) }
	last := uint64(0)
	for n < len(b) && last < 2 {
		k, kn, ok := key()
		if !ok || k>>3 > 1<<29-1 {
			return nil, 0, false
		}
		if k == 0x08 && last == 0 {
			u, un, ok := refUvarint(b[n+kn:])
			if !ok || int64(u) < minSec || int64(u) > maxSec {
				return nil, 0, false
			}
			s, last = u, 1
			n += kn + un
			continue
		}
		if k == 0x10 && last < 2 {
			u, un, ok := refUvarint(b[n+kn:])
			if !ok || u > 999999999 {
				return nil, 0, false
			}
			ns, last = u, 2
			n += kn + un
			continue
		}
		break
	}
	return time.Unix(int64(s), int64(ns)).UTC(), n, true
}

func prims() []prim {
	ints := func(bits uint) func(bool) []interface{} {
		return func(thorough bool) (out []interface{}) {
			if bits <= 16 {
				for i := int64(-1) << (bits - 1); i < int64(1)<<(bits-1); i++ {
					out = append(out, i)
				}
				return
			}
			for _, x := range interesting64 {
				if bits == 64 || x >= math.MinInt32 && x <= math.MaxInt32 {
					out = append(out, x)
				}
			}
			return
		}
	}
	uints := func(bits uint) func(bool) []interface{} {
		return func(thorough bool) (out []interface{}) {
			if bits <= 16 {
				for i := uint64(0); i < uint64(1)<<bits; i++ {
					out = append(out, i)
				}
				return
			}
			for _, x := range interesting64 {
				if bits == 64 || uint64(x) <= math.MaxUint32 {
					out = append(out, uint64(x))
				}
			}
			return
		}
	}
	inRange := func(bits uint) func(b []byte) (interface{}, int, bool) {
		return func(b []byte) (interface{}, int, bool) {
			i, n, ok := refVarint(b)
			if min := int64(-1) << (bits - 1); !ok || i < min || i > -(min+1) {
				return nil, 0, false
			}
			return i, n, true
		}
	}
	uInRange := func(bits uint) func(b []byte) (interface{}, int, bool) {
		return func(b []byte) (interface{}, int, bool) {
			u, n, ok := refUvarint(b)
			if !ok || bits < 64 && u >= 1<<bits {
				return nil, 0, false
			}
			return u, n, true
		}
	}
	le := func(b []byte, n int) (uint64, bool) {
		if len(b) < n {
			return 0, false
		}
		if n == 4 {
			return uint64(binary.LittleEndian.Uint32(b)), true
		}
		return binary.LittleEndian.Uint64(b), true
	}
	zz := func(v interface{}) []byte { return zigzag(v.(int64)) }
	uv := func(v interface{}) []byte { return uvarint(v.(uint64)) }
	fl := func(size int) func(bool) []interface{} {
		return func(bool) (out []interface{}) {
			for _, x := range interesting64 {
				var f float64
				if size == 4 {
					f = float64(math.Float32frombits(uint32(x)))
				} else {
					f = math.Float64frombits(uint64(x))
				}
				if f == f {
					out = append(out, f)
				}
			}
			return append(out, 0.0, math.Inf(1), math.Inf(-1), math.Copysign(0, -1))
		}
	}
	strs := func(bool) (out []interface{}) {
		for _, n := range []int{0, 1, 2, 126, 127, 128, 129, 16383, 16384, 70000} {
			out = append(out, []byte(strings.Repeat("\xfe", n)), []byte(strings.Repeat("\x00", n)))
		}
		for i := 0; i < 65536; i++ {
			out = append(out, []byte{byte(i), byte(i >> 8)})
		}
		return
	}
	return []prim{
		{"Int8", ints(8), func(w io.Writer, v interface{}) error { return amino.EncodeInt8(w, int8(v.(int64))) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeInt8(b); return int64(v), n, err },
			nil, zz, inRange(8), false},
		{"Int16", ints(16), func(w io.Writer, v interface{}) error { return amino.EncodeInt16(w, int16(v.(int64))) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeInt16(b); return int64(v), n, err },
			nil, zz, inRange(16), false},
		{"Int32", ints(32), func(w io.Writer, v interface{}) error { return amino.EncodeInt32(w, int32(v.(int64))) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeInt32(b); return int64(v), n, err },
			nil, func(v interface{}) []byte { return fixed(uint64(v.(int64)), 4) },
			func(b []byte) (interface{}, int, bool) { u, ok := le(b, 4); return int64(int32(u)), 4, ok }, false},
		{"Int64", ints(64), func(w io.Writer, v interface{}) error { return amino.EncodeInt64(w, v.(int64)) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeInt64(b); return v, n, err },
			nil, func(v interface{}) []byte { return fixed(uint64(v.(int64)), 8) },
			func(b []byte) (interface{}, int, bool) { u, ok := le(b, 8); return int64(u), 8, ok }, false},
		{"Varint", ints(64), func(w io.Writer, v interface{}) error { return amino.EncodeVarint(w, v.(int64)) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeVarint(b); return v, n, err },
			func(v interface{}) int { return amino.VarintSize(v.(int64)) }, zz, inRange(64), false},
		{"Byte", uints(8), func(w io.Writer, v interface{}) error { return amino.EncodeByte(w, byte(v.(uint64))) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeByte(b); return uint64(v), n, err },
			nil, uv, uInRange(8), false},
		{"Uint8", uints(8), func(w io.Writer, v interface{}) error { return amino.EncodeUint8(w, byte(v.(uint64))) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeUint8(b); return uint64(v), n, err },
			nil, uv, uInRange(8), false},
		{"Uint16", uints(16), func(w io.Writer, v interface{}) error { return amino.EncodeUint16(w, uint16(v.(uint64))) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeUint16(b); return uint64(v), n, err },
			nil, uv, uInRange(16), false},
		{"Uint32", uints(32), func(w io.Writer, v interface{}) error { return amino.EncodeUint32(w, uint32(v.(uint64))) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeUint32(b); return uint64(v), n, err },
			nil, func(v interface{}) []byte { return fixed(v.(uint64), 4) },
			func(b []byte) (interface{}, int, bool) { u, ok := le(b, 4); return u, 4, ok }, false},
		{"Uint64", uints(64), func(w io.Writer, v interface{}) error { return amino.EncodeUint64(w, v.(uint64)) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeUint64(b); return v, n, err },
			nil, func(v interface{}) []byte { return fixed(v.(uint64), 8) },
			func(b []byte) (interface{}, int, bool) { u, ok := le(b, 8); return u, 8, ok }, false},
		{"Uvarint", uints(64), func(w io.Writer, v interface{}) error { return amino.EncodeUvarint(w, v.(uint64)) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeUvarint(b); return v, n, err },
			func(v interface{}) int { return amino.UvarintSize(v.(uint64)) }, uv, uInRange(64), false},
		{"Bool", func(bool) []interface{} { return []interface{}{false, true} },
			func(w io.Writer, v interface{}) error { return amino.EncodeBool(w, v.(bool)) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeBool(b); return v, n, err },
			nil, func(v interface{}) []byte {
				if v.(bool) {
					return []byte{1}
				}
				return []byte{0}
			},
			func(b []byte) (interface{}, int, bool) {
				if len(b) == 0 || b[0] > 1 {
					return nil, 0, false
				}
				return b[0] == 1, 1, true
			}, false},
		{"Float32", fl(4), func(w io.Writer, v interface{}) error { return amino.EncodeFloat32(w, float32(v.(float64))) },
			func(b []byte) (interface{}, int, error) {
				v, n, err := amino.DecodeFloat32(b)
				return float64(v), n, err
			},
			nil, func(v interface{}) []byte {
				return fixed(uint64(math.Float32bits(float32(v.(float64)))), 4)
			},
			func(b []byte) (interface{}, int, bool) {
				u, ok := le(b, 4)
				return float64(math.Float32frombits(uint32(u))), 4, ok
			}, false},
		{"Float64", fl(8), func(w io.Writer, v interface{}) error { return amino.EncodeFloat64(w, v.(float64)) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeFloat64(b); return v, n, err },
			nil, func(v interface{}) []byte { return fixed(math.Float64bits(v.(float64)), 8) },
			func(b []byte) (interface{}, int, bool) { u, ok := le(b, 8); return math.Float64frombits(u), 8, ok }, false},
		{"Time", func(bool) (out []interface{}) {
			for _, t := range timeVals(0) {
				out = append(out, t)
			}
			for _, x := range interesting64 {
				for _, ns := range []int64{0, 1, 999999999} {
					out = append(out, time.Unix(x, ns))
				}
			}
			for _, x := range []int64{minSec - 1, minSec, minSec + 1, maxSec - 1, maxSec, maxSec + 1} {
				for _, ns := range []int64{0, 1, 127, 128, 999999999} {
					out = append(out, time.Unix(x, ns).In(zoneP))
				}
			}
			return
		}, func(w io.Writer, v interface{}) error { return amino.EncodeTime(w, v.(time.Time)) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeTime(b); return v, n, err },
			nil, func(v interface{}) []byte {
				b, err := timeBody(v.(time.Time))
				if err != nil {
					return nil
				}
				return b
			}, refTime, true},
		{"ByteSlice", strs, func(w io.Writer, v interface{}) error { return amino.EncodeByteSlice(w, v.([]byte)) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeByteSlice(b); return v, n, err },
			func(v interface{}) int { return amino.ByteSliceSize(v.([]byte)) },
			func(v interface{}) []byte { return lenPrefixed(v.([]byte)) }, refBytes, false},
		{"String", strs, func(w io.Writer, v interface{}) error { return amino.EncodeString(w, string(v.([]byte))) },
			func(b []byte) (interface{}, int, error) { v, n, err := amino.DecodeString(b); return []byte(v), n, err },
			nil, func(v interface{}) []byte { return lenPrefixed(v.([]byte)) }, refBytes, false},
	}
}

func samePrim(a, b interface{}) bool {
	switch x := a.(type) {
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y) && y.Location() == time.UTC && y == y.Round(0)
	case float64:
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y) || x != x && y != y)
	}
	return a == b
}

// faultyWriter fails at the given call: with an error, or after half the data.
type faultyWriter struct {
	bytes.Buffer
	failAt, calls int
	partial       bool
}

var errFaulty = errors.New("writer failed")

func (f *faultyWriter) Write(p []byte) (int, error) {
	f.calls++
	if f.calls == f.failAt {
		if f.partial {
			n, _ := f.Buffer.Write(p[:len(p)/2])
			return n, errFaulty
		}
		return 0, errFaulty
	}
	return f.Buffer.Write(p)
}

// primInputs are byte strings for the Decode functions.
func primInputs(thorough bool, f func(b []byte)) {
	full := 2
	if thorough {
		full = 3
	}
	for l := 0; l <= full; l++ {
		for i := 0; i < 1<<uint(8*l); i++ {
			b := []byte{byte(i >> 16), byte(i >> 8), byte(i)}
			f(b[3-l:])
		}
	}
	al := []byte{0, 1, 2, 8, 0x10, 0x7f, 0x80, 0x81, 0xff}
	var rec func(b []byte, left int)
	rec = func(b []byte, left int) {
		f(b)
		if left > 0 {
			for _, x := range al {
				rec(append(b[:len(b):len(b)], x), left-1)
			}
		}
	}
	if thorough {
		rec(nil, 7)
	} else {
		rec(nil, 5)
	}
	// Long varints: all continuation patterns of two bytes, every last byte.
	for l := 5; l <= 10; l++ {
		for pat := 0; pat < 1<<uint(l); pat++ {
			b := make([]byte, l+1)
			for i := 0; i < l; i++ {
				b[i] = 0x80
				if pat>>uint(i)&1 == 1 {
					b[i] = 0xff
				}
			}
			if !thorough && l < 9 && pat&(pat+1) != 0 { // only runs of ones at the end
				continue
			}
			for last := 0; last < 256; last++ {
				b[l] = byte(last)
				f(b)
			}
		}
	}
	for _, pre := range [][]byte{{8}, {0x10}, {8, 1, 0x10}, {0x10, 1, 8}} {
		for _, x := range interesting64 {
			b := append(append([]byte{}, pre...), uvarint(uint64(x))...)
			f(b)
			f(append(b, 0x10, 5))
			f(append(b, 0x08, 5))
			f(append(b, 0x18, 5))
			f(b[:len(b)-1])
		}
	}
	for _, x := range interesting64 {
		f(uvarint(uint64(x)))
		f(append(uvarint(uint64(x)), 1, 2, 3))
		f(fixed(uint64(x), 8))
		f(fixed(uint64(x), 8)[:7])
	}
}

// C07: primitives.
// headWriter keeps what is written first and counts the rest.
type headWriter struct {
	head []byte
	n    int
}

func (h *headWriter) Write(p []byte) (int, error) {
	q := p
	for len(h.head) < 5 && len(q) > 0 {
		h.head, q = append(h.head, q[0]), q[1:]
	}
	h.n += len(p)
	return len(p), nil
}

// lengths: byte slices and strings of all lengths up to a bound, and around
// the lengths at which the prefix grows.
func lengths(c *Ctx) {
	top := 1<<21 + 3
	all := 1 << 15
	if c.Thorough {
		top, all = 1<<28+3, 1<<18
	}
	c.Bound("byte_slice_lengths", fmt.Sprintf("sizes of all up to %d, and encodings of all up to %d", 1<<21+3, all))
	zero := make([]byte, top)
	lens := []int{1<<16 - 1, 1 << 16, 1<<21 - 2, 1<<21 - 1, 1 << 21, 1<<21 + 1}
	if c.Thorough {
		lens = append(lens, 1<<28-2, 1<<28-1, 1<<28, 1<<28+1)
	}
	c.Parallel(8, func(w, i int) {
		key := fmt.Sprintf("lengths/%d", i)
		c.Case(w, key, func() {
			size := func(n int) bool {
				if got, want := amino.ByteSliceSize(zero[:n]), len(uvarint(uint64(n)))+n; got != want {
					c.Violate(key, "ByteSliceSize of %d bytes is %d, want %d", n, got, want)
					return false
				}
				c.State(1)
				c.Transition(1)
				c.Trace(1)
				return true
			}
			enc := func(n int) bool {
				pre := uvarint(uint64(n))
				check := func(name string, f func(io.Writer) error) bool {
					h := &headWriter{}
					err := f(h)
					if err != nil || h.n != len(pre)+n || !bytes.HasPrefix(append(h.head, 0, 0, 0, 0, 0), pre) {
						c.Violate(key, "%s of %d bytes writes %d bytes beginning with %x (%v), want the prefix %x", name, n, h.n, h.head, err, pre)
						return false
					}
					c.Transition(1)
					return true
				}
				return check("EncodeByteSlice", func(w io.Writer) error { return amino.EncodeByteSlice(w, zero[:n]) }) &&
					(n > 1<<22 || check("EncodeString", func(w io.Writer) error { return amino.EncodeString(w, string(zero[:n])) })) && size(n)
			}
			for n := i; n <= 1<<21+3; n += 8 {
				if !size(n) {
					return
				}
			}
			for n := i; n <= all; n += 8 {
				if !enc(n) {
					return
				}
			}
			for k := i; k < len(lens); k += 8 {
				n := lens[k]
				if !enc(n) {
					return
				}
				b := append(uvarint(uint64(n)), zero[:n]...)
				d, m, err := amino.DecodeByteSlice(b)
				if err != nil || m != len(b) || len(d) != n {
					c.Violate(key, "DecodeByteSlice of %d bytes gives %d bytes, n=%d, %v", n, len(d), m, err)
					return
				}
				d, m, err = amino.DecodeByteSlice(b[:len(b)-1])
				if err == nil {
					c.Violate(key, "DecodeByteSlice of %d bytes, the last of which is missing, gives %d bytes, n=%d", n, len(d), m)
					return
				}
				c.Transition(2)
			}
		})
	})
}

func propC07(c *Ctx) {
	lengths(c)
	ps := prims()
	c.Bound("families", len(ps))
	c.Assume("all values of 8 and 16 bits; of 32 and 64 bits all with at most two bits set or within 2 of a power of two, and their negations; all byte strings up to 2 (thorough 3) bytes, all over a boundary alphabet up to 5 (7), all continuation patterns of long varints")
	tails := [][]byte{nil, {0}, {0x80}, {0xff, 0xff}, {1, 2, 3, 4, 5, 6, 7, 8, 9}}
	var rejected int64
	c.Parallel(len(ps), func(w, i int) {
		p := ps[i]
		c.Case(w, "values/"+p.name, func() {
			for _, v := range p.vals(c.Thorough) {
				want := p.ref(v)
				var buf bytes.Buffer
				err := p.enc(&buf, v)
				if want == nil {
					if err == nil {
						c.Violate("values/"+p.name, "Encode%s(%v) gives no error", p.name, v)
						return
					}
					continue
				}
				if err != nil || !bytes.Equal(buf.Bytes(), want) {
					c.Violate("values/"+p.name, "Encode%s(%v) writes %x (%v), want %x", p.name, v, buf.Bytes(), err, want)
					return
				}
				if p.size != nil && p.size(v) != len(want) {
					c.Violate("values/"+p.name, "size of %s %v is %d, but it encodes as %x", p.name, v, p.size(v), want)
					return
				}
				for _, tail := range tails {
					if p.noTail && len(tail) > 0 {
						break
					}
					d, n, err := p.dec(exact(append(want[:len(want):len(want)], tail...)))
					if err != nil || n != len(want) || !samePrim(v, d) {
						c.Violate("values/"+p.name, "Decode%s(%x followed by %x) gives %v, %d (%v), want %v", p.name, want, tail, d, n, err, v)
						return
					}
					c.Transition(1)
				}
				// Every write may fail.
				for at := 1; ; at++ {
					fw := &faultyWriter{failAt: at}
					err := p.enc(fw, v)
					if fw.calls < at {
						break
					}
					if err == nil {
						c.Violate("values/"+p.name, "Encode%s(%v) ignores that write %d failed", p.name, v, at)
						return
					}
					fw = &faultyWriter{failAt: at, partial: true}
					if p.enc(fw, v) == nil {
						c.Violate("values/"+p.name, "Encode%s(%v) ignores that write %d was partial", p.name, v, at)
						return
					}
					c.Transition(2)
				}
				c.State(1)
				c.Transition(1)
				c.Trace(1)
			}
			c.Sample("family", "%s: %d values, last %v", p.name, len(p.vals(false)), p.vals(false)[len(p.vals(false))-1])
		})
		c.Case(w, "inputs/"+p.name, func() {
			primInputs(c.Thorough, func(b []byte) {
				want, wn, ok := p.refDec(b)
				v, n, err := p.dec(b)
				c.State(1)
				c.Transition(1)
				c.Trace(1)
				if n < 0 || n > len(b) {
					c.Violate("inputs/"+p.name, "Decode%s(%x) returns n=%d", p.name, b, n)
				}
				if p.noTail && ok && wn < len(b) {
					return // no property: something else follows
				}
				if ok != (err == nil) {
					c.Violate("inputs/"+p.name, "Decode%s(%x) gives %v, %d (%v), want %v, %v", p.name, b, v, n, err, want, ok)
				}
				if !ok {
					atomic.AddInt64(&rejected, 1)
					return
				}
				if n != wn || !samePrim(want, v) {
					c.Violate("inputs/"+p.name, "Decode%s(%x) gives %v, %d, want %v, %d", p.name, b, v, n, want, wn)
				}
			})
		})
	})
	c.Bound("inputs_rejected", rejected)
	// Prefix bytes.
	c.Case(0, "DecodeDisambPrefixBytes", func() {
		primInputs(c.Thorough, func(b []byte) {
			for _, tail := range [][]byte{nil, {9, 8, 7, 6, 5, 4, 3, 2, 1}} {
				in := exact(append(b[:len(b):len(b)], tail...))
				d, hd, pf, hp, n, err := amino.DecodeDisambPrefixBytes(in)
				var ok, wd, wp bool
				var wdb [3]byte
				var wpb [4]byte
				wn := 0
				switch {
				case len(in) >= 4 && in[0] != 0:
					ok, wp, wn = true, true, 4
					copy(wpb[:], in)
				case len(in) >= 8 && in[0] == 0 && in[4] != 0: // full
					ok, wd, wp, wn = true, true, true, 8
					copy(wdb[:], in[1:])
					copy(wpb[:], in[4:])
				default:
					continue // judged through decoding interfaces (C06)
				}
				if (err == nil) != ok || hd != wd || hp != wp || n != wn || d != amino.DisambBytes(wdb) || pf != amino.PrefixBytes(wpb) {
					c.Violate("DecodeDisambPrefixBytes", "%x gives %x %v %x %v n=%d %v", in, d, hd, pf, hp, n, err)
				}
				c.State(1)
				c.Transition(1)
			}
		})
	})
}
