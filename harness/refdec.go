package main

import (
	"encoding/binary"
	"errors"
	"math"
	"reflect"
	"time"
)

var errBad = errors.New("malformed")

// unmarshal is the reference for UnmarshalBinaryBare into a fresh variable.
func (m *Model) unmarshal(b []byte, t reflect.Type) (reflect.Value, error) {
	bt := deref(t)
	if bt.Kind() == reflect.Interface {
		return m.decIface(b, t, eopts{num: 1}, true)
	}
	if c := m.concs[bt]; c != nil {
		if len(b) < 4 || string(b[:4]) != string(c.prefix[:]) {
			return reflect.Value{}, errBad
		}
		b = b[4:]
	}
	v, n, err := m.decTop(b, bt)
	if err != nil {
		return v, err
	}
	if n != len(b) {
		return v, errBad
	}
	return ptrChain(t, v), nil
}

func (m *Model) decTop(b []byte, bt reflect.Type) (v reflect.Value, n int, err error) {
	if bt.Kind() == reflect.Struct || isRepeatedStruct(bt) {
		return m.dec(b, bt, eopts{num: 1}, true)
	}
	w := wireType(bt, eopts{})
	kn := 0
	empty := len(b) == 0
	if empty {
		b = []byte{0}
	} else {
		num, wire, n1, e := readKey(b)
		if e != nil || num != 1 || wire != w {
			return v, 0, errBad
		}
		kn = n1
	}
	v, n, err = m.dec(b[kn:], bt, eopts{num: 1}, w != wBytes)
	if empty && err == nil {
		if n != 1 {
			err = errBad
		}
		n = 0
	}
	return v, n + kn, err
}

func readKey(b []byte) (num uint64, wire, n int, err error) {
	k, n := readUvarint(b)
	if n <= 0 || k>>3 > 1<<29-1 {
		return 0, 0, 0, errBad
	}
	return k >> 3, int(k & 7), n, nil
}

func readFrame(b []byte) (body []byte, n int, err error) {
	l, ln := readUvarint(b)
	if ln <= 0 || l > uint64(len(b)-ln) {
		return nil, 0, errBad
	}
	return b[ln : ln+int(l)], ln + int(l), nil
}

// defaultOf is what an absent field or an empty element is.
func defaultOf(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch {
	case deref(t) == tTime:
		v.Set(ptrChain(t, reflect.ValueOf(epoch)))
	case t.Kind() == reflect.Struct && !isAmU(t):
		for _, f := range fields(t) {
			if f.t.Kind() == reflect.Struct || f.t.Kind() == reflect.Array {
				v.Field(f.idx).Set(defaultOf(f.t))
			}
		}
	case t.Kind() == reflect.Array && !isAmU(t):
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(defaultOf(t.Elem()))
		}
	}
	return v
}

// dec decodes what content encodes; n is how much of b it read.
func (m *Model) dec(b []byte, t reflect.Type, o eopts, bare bool) (v reflect.Value, n int, err error) {
	if t.Kind() == reflect.Ptr {
		v, n, err = m.dec(b, t.Elem(), o, bare)
		if err != nil {
			return
		}
		return ptrTo(v), n, nil
	}
	v = reflect.New(t).Elem()
	if isAmU(t) {
		um, _ := reflect.PtrTo(t).MethodByName("UnmarshalAmino")
		r, n, err := m.dec(b, um.Type.In(1), o, bare)
		if err != nil {
			return v, n, err
		}
		v, err = unrepr(t, r)
		return v, n, err
	}
	uv := func(min, max int64) {
		var u uint64
		u, n = readUvarint(b)
		if n <= 0 || int64(u) < min || int64(u) > max {
			err = errBad
			return
		}
		v.SetInt(int64(u))
	}
	uu := func(max uint64) {
		var u uint64
		u, n = readUvarint(b)
		if n <= 0 || u > max {
			err = errBad
			return
		}
		v.SetUint(u)
	}
	zz := func(min, max int64) {
		u, n1 := readUvarint(b)
		i := int64(u>>1) ^ -int64(u&1)
		if n1 <= 0 || i < min || i > max {
			err = errBad
			return
		}
		n = n1
		v.SetInt(i)
	}
	fix := func(size int) uint64 {
		if len(b) < size {
			err = errBad
			return 0
		}
		n = size
		if size == 4 {
			return uint64(binary.LittleEndian.Uint32(b))
		}
		return binary.LittleEndian.Uint64(b)
	}
	switch t.Kind() {
	case reflect.Bool:
		if len(b) == 0 || b[0] > 1 {
			return v, 0, errBad
		}
		v.SetBool(b[0] == 1)
		return v, 1, nil
	case reflect.Int8:
		zz(-128, 127)
	case reflect.Int16:
		zz(-32768, 32767)
	case reflect.Int32:
		if o.f32 {
			v.SetInt(int64(int32(fix(4))))
		} else {
			uv(math.MinInt32, math.MaxInt32)
		}
	case reflect.Int64:
		if o.f64 {
			v.SetInt(int64(fix(8)))
		} else {
			uv(math.MinInt64, math.MaxInt64)
		}
	case reflect.Int:
		uv(math.MinInt64, math.MaxInt64)
	case reflect.Uint8:
		uu(255)
	case reflect.Uint16:
		uu(65535)
	case reflect.Uint32:
		if o.f32 {
			v.SetUint(fix(4))
		} else {
			uu(math.MaxUint32)
		}
	case reflect.Uint64:
		if o.f64 {
			v.SetUint(fix(8))
		} else {
			uu(math.MaxUint64)
		}
	case reflect.Uint:
		uu(math.MaxUint64)
	case reflect.Float32:
		if !o.unsafe {
			return v, 0, errUnsupported
		}
		v.SetFloat(float64(math.Float32frombits(uint32(fix(4)))))
	case reflect.Float64:
		if !o.unsafe {
			return v, 0, errUnsupported
		}
		v.SetFloat(math.Float64frombits(fix(8)))
	case reflect.String:
		var body []byte
		body, n, err = readFrame(b)
		v.SetString(string(body))
	case reflect.Interface:
		if bare {
			v, err = m.decIface(b, t, o, true)
			return v, len(b), err
		}
		var body []byte
		body, n, err = readFrame(b)
		if err != nil || len(body) == 0 {
			return v, n, err
		}
		v, err = m.decIface(body, t, o, false)
		return v, n, err
	case reflect.Slice, reflect.Array:
		if isByteList(t) {
			var body []byte
			body, n, err = readFrame(b)
			if err != nil {
				return
			}
			if t.Kind() == reflect.Slice {
				if len(body) > 0 {
					v.Set(reflect.MakeSlice(t, len(body), len(body)))
				}
			} else if len(body) != t.Len() {
				return v, 0, errBad
			}
			for i, x := range body {
				v.Index(i).SetUint(uint64(x))
			}
			return
		}
		if bare {
			return m.decList(b, t, o, true)
		}
		var body []byte
		body, n, err = readFrame(b)
		if err != nil {
			return
		}
		v, _, err = m.decList(body, t, o, false)
	case reflect.Struct:
		body := b
		n = len(b)
		if !bare {
			body, n, err = readFrame(b)
			if err != nil {
				return
			}
		}
		if t == tTime {
			var tm time.Time
			tm, err = decTime(body)
			v.Set(reflect.ValueOf(tm))
			return
		}
		v, err = m.decStruct(body, t)
	default:
		err = errUnsupported
	}
	if n < 0 {
		n = 0
	}
	return
}

func decTime(b []byte) (time.Time, error) {
	var sec, ns uint64
	last := uint64(0)
	for len(b) > 0 {
		num, wire, n, err := readKey(b)
		if err != nil || wire != wVarint || num <= last || num > 2 {
			return epoch, errBad
		}
		last = num
		b = b[n:]
		u, n := readUvarint(b)
		if n <= 0 {
			return epoch, errBad
		}
		b = b[n:]
		if num == 1 {
			if int64(u) < minSec || int64(u) > maxSec {
				return epoch, errBad
			}
			sec = u
		} else {
			if u > 999999999 {
				return epoch, errBad
			}
			ns = u
		}
	}
	return time.Unix(int64(sec), int64(ns)).UTC(), nil
}

// decList decodes the elements of a list; if bare, a list of unpacked
// elements ends before the next higher field number.
func (m *Model) decList(b []byte, t reflect.Type, o eopts, bare bool) (v reflect.Value, n int, err error) {
	et := t.Elem()
	bt := deref(et)
	v = reflect.New(t).Elem()
	total := len(b)
	var elems []reflect.Value
	max := -1
	if t.Kind() == reflect.Array {
		max = t.Len()
	}
	if wireType(bt, o) != wBytes {
		for len(b) > 0 && (max < 0 || len(elems) < max) {
			e, n, err := m.dec(b, et, o, false)
			if err != nil {
				return v, 0, err
			}
			if et.Kind() == reflect.Ptr && isDefault(e) {
				e = reflect.Zero(et)
			}
			b = b[n:]
			elems = append(elems, e)
		}
		if len(b) > 0 {
			return v, 0, errBad
		}
	} else {
		for len(b) > 0 {
			num, wire, n, err := readKey(b)
			if err != nil || num < o.num {
				return v, 0, errBad
			}
			if num > o.num {
				if !bare {
					return v, 0, errBad
				}
				break
			}
			if wire != wBytes || max >= 0 && len(elems) == max {
				return v, 0, errBad
			}
			b = b[n:]
			if len(b) > 0 && b[0] == 0 && !(o.emptyElems && et.Kind() == reflect.Ptr && bt.Kind() == reflect.Struct) {
				b = b[1:]
				elems = append(elems, defaultOf(et))
				continue
			}
			eo := o
			eo.num = 1
			e, n, err := m.dec(b, et, eo, false)
			if err != nil {
				return v, 0, err
			}
			b = b[n:]
			elems = append(elems, e)
		}
	}
	if max >= 0 && len(elems) != max {
		return v, 0, errBad
	}
	if max < 0 && len(elems) > 0 {
		v.Set(reflect.MakeSlice(t, len(elems), len(elems)))
	}
	for i, e := range elems {
		v.Index(i).Set(e)
	}
	return v, total - len(b), nil
}

func (m *Model) decStruct(b []byte, t reflect.Type) (v reflect.Value, err error) {
	v = defaultOf(t)
	fs := fields(t)
	for _, f := range fs { // absent
		v.Field(f.idx).Set(defaultOf(f.t))
	}
	last := uint64(0)
	i := 0
	for len(b) > 0 {
		num, wire, n, err := readKey(b)
		if err != nil || num == 0 || num < last || num == last && num <= uint64(len(fs)) {
			return v, errBad
		}
		last = num
		// An array in a field of its own can't be absent between others.
		for ; i < len(fs) && uint64(i+1) < num; i++ {
			if fs[i].t.Kind() == reflect.Array && unpackedField(fs[i]) && fs[i].t.Len() > 0 {
				return v, errBad
			}
		}
		if num > uint64(len(fs)) {
			b = b[n:]
			switch wire {
			case wVarint:
				_, n = readUvarint(b)
			case w8:
				n = 8
			case w4:
				n = 4
			case wBytes:
				_, n, err = readFrame(b)
			default:
				return v, errBad
			}
			if err != nil || n <= 0 || n > len(b) {
				return v, errBad
			}
			b = b[n:]
			continue
		}
		f := fs[num-1]
		i = int(num)
		var fv reflect.Value
		if unpackedField(f) {
			fv, n, err = m.dec(b, f.t, f.o, true)
		} else {
			if wire != wireType(deref(f.t), f.o) {
				return v, errBad
			}
			b = b[n:]
			fv, n, err = m.dec(b, f.t, f.o, false)
		}
		if err != nil {
			return v, err
		}
		b = b[n:]
		v.Field(f.idx).Set(fv)
	}
	return v, nil
}

// decIface decodes prefix bytes and contents; top says that the contents of
// what isn't a struct have a field key.
func (m *Model) decIface(b []byte, t reflect.Type, o eopts, top bool) (v reflect.Value, err error) {
	v = reflect.New(t).Elem()
	mi := m.ifaces[t]
	if mi == nil {
		return v, errUnreg
	}
	if len(b) < 4 {
		return v, errBad
	}
	var c *mConc
	if b[0] == 0 {
		if len(b) < 8 {
			return v, errBad
		}
		for _, x := range m.order {
			if string(x.disamb[:]) == string(b[1:4]) && string(x.prefix[:]) == string(b[4:8]) {
				c = x
			}
		}
		b = b[8:]
	} else {
		var p [4]byte
		copy(p[:], b)
		if impl := m.implementers(t, p); len(impl) == 1 {
			c = impl[0]
		}
		b = b[4:]
	}
	if c == nil {
		return v, errUnreg
	}
	reg := c.t
	if c.ptr {
		reg = reflect.PtrTo(c.t)
	}
	if !reg.Implements(t) {
		return v, errBad
	}
	var cv reflect.Value
	var n int
	if isStructy := c.t.Kind() == reflect.Struct || isRepeatedStruct(c.t); !isStructy && top && (o.num == 1 || len(b) == 0) {
		cv, n, err = m.decTop(b, c.t)
	} else {
		cv, n, err = m.dec(b, c.t, o, true)
	}
	if err != nil {
		return v, err
	}
	if n != len(b) {
		return v, errBad
	}
	if c.ptr {
		cv = ptrTo(cv)
	}
	v.Set(cv)
	return v, nil
}
