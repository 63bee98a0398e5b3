package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"
)

// Model is the reference model of a codec: what is registered, and from that
// the wire format.  It's written from the documentation and shares no code
// with go-amino.
type Model struct {
	ifaces map[reflect.Type]*mIface
	concs  map[reflect.Type]*mConc
	order  []*mConc
	byName map[string]*mConc
}
type mIface struct {
	t      reflect.Type
	always bool
	prio   map[string]bool
}
type mConc struct {
	t      reflect.Type
	ptr    bool
	name   string
	disamb [3]byte
	prefix [4]byte
}

func disfix(name string) (d [3]byte, p [4]byte) {
	h := sha256.Sum256([]byte(name))
	b := bytes.TrimLeft(h[:], "\x00")
	copy(d[:], b)
	b = bytes.TrimLeft(b[3:], "\x00")
	copy(p[:], b)
	return
}

func newModel(s Setup) *Model {
	m := &Model{ifaces: map[reflect.Type]*mIface{}, concs: map[reflect.Type]*mConc{}, byName: map[string]*mConc{}}
	for _, i := range s.ifaces {
		t := reflect.TypeOf(i.ptr).Elem()
		mi := &mIface{t: t, prio: map[string]bool{}}
		if i.opts != nil {
			mi.always = i.opts.AlwaysDisambiguate
			for _, n := range i.opts.Priority {
				mi.prio[n] = true
			}
		}
		m.ifaces[t] = mi
	}
	for _, c := range s.concs {
		t := reflect.TypeOf(c.o)
		mc := &mConc{t: t, name: c.name}
		if t.Kind() == reflect.Ptr {
			mc.t, mc.ptr = t.Elem(), true
		}
		mc.disamb, mc.prefix = disfix(c.name)
		m.concs[mc.t] = mc
		m.byName[c.name] = mc
		m.order = append(m.order, mc)
	}
	return m
}

// implementers of the interface with the given prefix bytes.
func (m *Model) implementers(it reflect.Type, prefix [4]byte) (out []*mConc) {
	for _, c := range m.order {
		if c.prefix == prefix && reflect.PtrTo(c.t).Implements(it) {
			out = append(out, c)
		}
	}
	return
}

func (m *Model) ambiguous(i *mIface, c *mConc) bool {
	return i.always || len(m.implementers(i.t, c.prefix)) > 1
}

// eopts are the options that a field passes on to what it contains.
type eopts struct {
	f32, f64, unsafe, writeEmpty, emptyElems, omitempty bool
	num                                                 uint64
}

type mField struct {
	idx  int
	name string
	t    reflect.Type
	o    eopts
}

// fields are the fields that are encoded, in order.
func fields(t reflect.Type) (out []mField) {
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		js := sf.Tag.Get("json")
		if sf.PkgPath != "" || js == "-" {
			continue
		}
		f := mField{idx: i, name: sf.Name, t: sf.Type}
		if p := strings.Split(js, ","); p[0] != "" {
			f.name = p[0]
			f.o.omitempty = len(p) > 1 && p[1] == "omitempty"
		} else {
			f.o.omitempty = len(p) > 1 && p[1] == "omitempty"
		}
		f.o.f32 = sf.Tag.Get("binary") == "fixed32"
		f.o.f64 = sf.Tag.Get("binary") == "fixed64"
		for _, a := range strings.Split(sf.Tag.Get("amino"), ",") {
			switch a {
			case "unsafe":
				f.o.unsafe = true
			case "write_empty":
				f.o.writeEmpty = true
			case "empty_elements":
				f.o.emptyElems = true
			}
		}
		f.o.num = uint64(len(out) + 1)
		out = append(out, f)
	}
	return
}

func deref(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t
}

// wire types
const (
	wVarint = 0
	w8      = 1
	wBytes  = 2
	w4      = 5
)

func wireType(t reflect.Type, o eopts) int {
	switch t.Kind() {
	case reflect.Int64, reflect.Uint64:
		if o.f64 {
			return w8
		}
		return wVarint
	case reflect.Int32, reflect.Uint32:
		if o.f32 {
			return w4
		}
		return wVarint
	case reflect.Float64:
		return w8
	case reflect.Float32:
		return w4
	case reflect.Bool, reflect.Int8, reflect.Int16, reflect.Int, reflect.Uint8, reflect.Uint16, reflect.Uint:
		return wVarint
	}
	return wBytes
}

func uvarint(u uint64) []byte {
	var out []byte
	for u >= 0x80 {
		out = append(out, byte(u)|0x80)
		u >>= 7
	}
	return append(out, byte(u))
}
func zigzag(i int64) []byte           { return uvarint(uint64(i)<<1 ^ uint64(i>>63)) }
func key(num uint64, wire int) []byte { return uvarint(num<<3 | uint64(wire)) }
func lenPrefixed(b []byte) []byte     { return append(uvarint(uint64(len(b))), b...) }
func fixed(n uint64, size int) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, n)
	return b[:size]
}
func isAmM(t reflect.Type) bool            { _, ok := t.MethodByName("MarshalAmino"); return ok }
func isAmU(t reflect.Type) bool            { _, ok := reflect.PtrTo(t).MethodByName("UnmarshalAmino"); return ok }
func isRepeatedStruct(t reflect.Type) bool { return isList(t) && t.Elem().Kind() == reflect.Struct }

// repr calls MarshalAmino.
func repr(v reflect.Value) (reflect.Value, error) {
	out := v.MethodByName("MarshalAmino").Call(nil)
	if !out[1].IsNil() {
		return out[0], out[1].Interface().(error)
	}
	return out[0], nil
}

func unrepr(t reflect.Type, r reflect.Value) (reflect.Value, error) {
	p := reflect.New(t)
	out := p.MethodByName("UnmarshalAmino").Call([]reflect.Value{r})
	if !out[0].IsNil() {
		return p.Elem(), out[0].Interface().(error)
	}
	return p.Elem(), nil
}

// chase dereferences all pointers; ok is false if one is nil.
func chase(v reflect.Value) (reflect.Value, bool) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return v, false
		}
		v = v.Elem()
	}
	return v, true
}

// isDefault: nil pointers, zero numbers, empty strings and lists, nil
// interfaces; not bools, floats, structs or arrays.
func isDefault(v reflect.Value) bool {
	v, ok := chase(v)
	if !ok {
		return true
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint() == 0
	case reflect.String, reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Interface:
		return v.IsNil()
	case reflect.Chan, reflect.Func:
		return v.IsNil()
	}
	return false
}

var (
	errUnsupported = errors.New("unsupported")
	errTime        = errors.New("time out of range")
	errNilElem     = errors.New("nil element with empty_elements")
	errUnreg       = errors.New("unregistered")
)

const (
	minSec = -62135596800
	maxSec = 253402300799
)

func lone0(b []byte) bool { return len(b) == 1 && b[0] == 0 }

// marshal is the reference for MarshalBinaryBare of a non-pointer value.
func (m *Model) marshal(v reflect.Value) ([]byte, error) {
	t := v.Type()
	var body []byte
	var err error
	if t.Kind() == reflect.Struct || isRepeatedStruct(t) {
		body, err = m.content(v, eopts{num: 1}, true)
	} else {
		w := wireType(t, eopts{})
		body, err = m.content(v, eopts{num: 1}, w != wBytes)
		if lone0(body) {
			body = nil
		} else {
			body = append(key(1, w), body...)
		}
	}
	if err != nil {
		return nil, err
	}
	if c := m.concs[t]; c != nil {
		body = append(c.prefix[:len(c.prefix):len(c.prefix)], body...)
	}
	return body, nil
}

// content encodes a value without its key; lists, structs and interfaces get
// their length in front unless bare.
func (m *Model) content(v reflect.Value, o eopts, bare bool) ([]byte, error) {
	t := v.Type()
	frame := func(b []byte, err error) ([]byte, error) {
		if err != nil {
			return nil, err
		}
		if bare {
			return b, nil
		}
		return lenPrefixed(b), nil
	}
	if isAmM(t) {
		r, err := repr(v)
		if err != nil {
			return nil, err
		}
		return m.content(r, o, bare)
	}
	switch t.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return []byte{1}, nil
		}
		return []byte{0}, nil
	case reflect.Int8, reflect.Int16:
		return zigzag(v.Int()), nil
	case reflect.Int32:
		if o.f32 {
			return fixed(uint64(v.Int()), 4), nil
		}
		return uvarint(uint64(v.Int())), nil
	case reflect.Int64:
		if o.f64 {
			return fixed(uint64(v.Int()), 8), nil
		}
		return uvarint(uint64(v.Int())), nil
	case reflect.Int:
		return uvarint(uint64(v.Int())), nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint:
		return uvarint(v.Uint()), nil
	case reflect.Uint32:
		if o.f32 {
			return fixed(v.Uint(), 4), nil
		}
		return uvarint(v.Uint()), nil
	case reflect.Uint64:
		if o.f64 {
			return fixed(v.Uint(), 8), nil
		}
		return uvarint(v.Uint()), nil
	case reflect.Float32:
		if !o.unsafe {
			return nil, errUnsupported
		}
		return fixed(uint64(math.Float32bits(float32(v.Float()))), 4), nil
	case reflect.Float64:
		if !o.unsafe {
			return nil, errUnsupported
		}
		return fixed(math.Float64bits(v.Float()), 8), nil
	case reflect.String:
		return lenPrefixed([]byte(v.String())), nil
	case reflect.Interface:
		if v.IsNil() {
			return []byte{0}, nil
		}
		return frame(m.ifaceBody(v, o))
	case reflect.Slice, reflect.Array:
		if isByteList(t) {
			return lenPrefixed(bytesOf(v)), nil
		}
		if !listElemOK(t.Elem()) {
			return nil, errUnsupported
		}
		return frame(m.listBody(v, o))
	case reflect.Struct:
		return frame(m.structBody(v))
	}
	return nil, errUnsupported
}

func bytesOf(v reflect.Value) []byte {
	b := make([]byte, v.Len())
	for i := range b {
		b[i] = byte(v.Index(i).Uint())
	}
	return b
}

func (m *Model) ifaceBody(v reflect.Value, o eopts) ([]byte, error) {
	mi := m.ifaces[v.Type()]
	if mi == nil {
		return nil, errUnreg
	}
	cv, ok := chase(v.Elem())
	if !ok {
		return nil, errUnsupported // nil pointer in an interface
	}
	c := m.concs[cv.Type()]
	if c == nil {
		return nil, errUnreg
	}
	var out []byte
	if m.ambiguous(mi, c) {
		out = append(append(out, 0), c.disamb[:]...)
	}
	out = append(out, c.prefix[:]...)
	b, err := m.content(cv, o, true)
	return append(out, b...), err
}

func (m *Model) listBody(v reflect.Value, o eopts) ([]byte, error) {
	et := v.Type().Elem()
	bt := deref(et)
	out := []byte{}
	if wireType(bt, o) != wBytes {
		for i := 0; i < v.Len(); i++ {
			e, ok := chase(v.Index(i))
			if !ok {
				e = reflect.Zero(bt)
			}
			b, err := m.content(e, o, false)
			if err != nil {
				return nil, err
			}
			out = append(out, b...)
		}
		return out, nil
	}
	for i := 0; i < v.Len(); i++ {
		e := v.Index(i)
		out = append(out, key(o.num, wBytes)...)
		if isDefault(e) {
			if o.emptyElems && et.Kind() == reflect.Ptr && bt.Kind() == reflect.Struct {
				return nil, errNilElem
			}
			out = append(out, 0)
			continue
		}
		e, _ = chase(e)
		eo := o
		eo.num = 1
		b, err := m.content(e, eo, false)
		if err != nil {
			return nil, err
		}
		out = append(out, b...)
	}
	return out, nil
}

// unpackedField: is a field of this type written as repeated fields?
func unpackedField(f mField) bool {
	for isList(f.t) && isAmM(f.t) {
		mt, _ := f.t.MethodByName("MarshalAmino")
		f.t = mt.Type.Out(0)
	}
	return isList(f.t) && wireType(deref(f.t.Elem()), f.o) == wBytes
}

func (m *Model) structBody(v reflect.Value) ([]byte, error) {
	if v.Type() == tTime {
		return timeBody(v.Interface().(time.Time))
	}
	out := []byte{}
	for _, f := range fields(v.Type()) {
		if k := f.t.Kind(); (k == reflect.Float32 || k == reflect.Float64) && !f.o.unsafe {
			return nil, errUnsupported
		}
	}
	for _, f := range fields(v.Type()) {
		fv, ok := chase(v.Field(f.idx))
		if !ok || isDefault(fv) && !f.o.writeEmpty {
			continue
		}
		if unpackedField(f) {
			var b []byte
			var err error
			if isAmM(fv.Type()) {
				b, err = m.content(fv, f.o, true)
			} else {
				b, err = m.listBody(fv, f.o)
			}
			if err != nil {
				return nil, err
			}
			out = append(out, b...)
			continue
		}
		b, err := m.content(fv, f.o, false)
		if err != nil {
			return nil, err
		}
		if lone0(b) && !f.o.writeEmpty && f.t.Kind() != reflect.Ptr {
			continue
		}
		out = append(append(out, key(f.o.num, wireType(fv.Type(), f.o))...), b...)
	}
	return out, nil
}

func timeBody(t time.Time) ([]byte, error) {
	s, ns := t.Unix(), t.Nanosecond()
	if s < minSec || s > maxSec {
		return nil, errTime
	}
	out := []byte{}
	if s != 0 {
		out = append(append(out, 0x08), uvarint(uint64(s))...)
	}
	if ns != 0 {
		out = append(append(out, 0x10), uvarint(uint64(ns))...)
	}
	return out, nil
}

// ---- what a round trip yields

// norm is the value that decoding the encoding of v must yield.
func (m *Model) norm(v reflect.Value, o eopts) reflect.Value {
	t := v.Type()
	if t.Kind() == reflect.Ptr { // top-level, or below a non-nil pointer
		if v.IsNil() {
			return v
		}
		return ptrTo(m.norm(v.Elem(), o))
	}
	out := reflect.New(t).Elem()
	if t == tTime {
		out.Set(reflect.ValueOf(v.Interface().(time.Time).Round(0).UTC()))
		return out
	}
	if isAmM(t) {
		r, err := repr(v)
		if err != nil {
			return out
		}
		u, err := unrepr(t, m.norm(r, o))
		if err != nil {
			panic(err)
		}
		return u
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Array:
		n := v.Len()
		if t.Kind() == reflect.Slice {
			if n == 0 {
				return out
			}
			out.Set(reflect.MakeSlice(t, n, n))
		}
		for i := 0; i < n; i++ {
			out.Index(i).Set(m.normElem(v.Index(i), o))
		}
	case reflect.Interface:
		if v.IsNil() {
			return out
		}
		cv, _ := chase(v.Elem())
		cv = m.norm(cv, o)
		if m.concs[cv.Type()].ptr {
			cv = ptrTo(cv)
		}
		out.Set(cv)
	case reflect.Struct:
		for _, f := range fields(t) {
			out.Field(f.idx).Set(m.normField(v.Field(f.idx), f.o))
		}
	default:
		out.Set(v)
	}
	return out
}

func zeroPtr(t reflect.Type) reflect.Value {
	if deref(t) == tTime {
		return ptrChain(t, reflect.ValueOf(epoch))
	}
	return reflect.Zero(t)
}

// ptrChain builds pointers to v up to type t.
func ptrChain(t reflect.Type, v reflect.Value) reflect.Value {
	if t.Kind() != reflect.Ptr {
		return v
	}
	return ptrTo(ptrChain(t.Elem(), v))
}

func (m *Model) normField(v reflect.Value, o eopts) reflect.Value {
	if v.Kind() != reflect.Ptr {
		return m.norm(v, o)
	}
	e, ok := chase(v)
	if !ok || isDefault(e) && !o.writeEmpty {
		return zeroPtr(v.Type())
	}
	return m.norm(v, o)
}

func (m *Model) normElem(v reflect.Value, o eopts) reflect.Value {
	if v.Kind() != reflect.Ptr {
		return m.norm(v, o)
	}
	bt := deref(v.Type())
	e, ok := chase(v)
	if wireType(bt, o) != wBytes { // packed: can't tell nil from a default
		if !ok {
			e = reflect.Zero(bt)
		}
		if isDefault(e) {
			return reflect.Zero(v.Type())
		}
		return ptrChain(v.Type(), m.norm(e, o))
	}
	if !ok {
		return zeroPtr(v.Type())
	}
	if isDefault(e) {
		return reflect.Zero(v.Type())
	}
	o.num = 1
	if b, err := m.content(e, o, false); err == nil && len(b) > 0 && b[0] == 0 && !(o.emptyElems && bt.Kind() == reflect.Struct) {
		return zeroPtr(v.Type())
	}
	return ptrChain(v.Type(), m.norm(e, o))
}

// ---- strict equality of decoded values

// diff returns "" if a (expected) and b are equal: nil-ness of slices and
// pointers, dynamic types, time in UTC without monotonic reading.
func diff(a, b reflect.Value) string { return diff1(a, b, "", 0) }

func diff1(a, b reflect.Value, path string, depth int) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: type %v, want %v", path, b.Type(), a.Type())
	}
	if depth > 60 {
		return ""
	}
	t := a.Type()
	if t == tTime && a.CanInterface() && b.CanInterface() {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) || y.Location() != time.UTC || y != y.Round(0) {
			return fmt.Sprintf("%s: time %v, want %v", path, y, x)
		}
		return ""
	}
	switch t.Kind() {
	case reflect.Ptr:
		if deref(t) == tTime && a.CanInterface() && (a.IsNil() || b.IsNil()) {
			// nil and 1970 are the same, for nil pointers to times.
			x, okA := chase(a)
			y, okB := chase(b)
			if (!okA || x.Interface().(time.Time).Equal(epoch)) && (!okB || y.Interface().(time.Time).Equal(epoch)) {
				return ""
			}
			return fmt.Sprintf("%s: %v, want %v", path, b, a)
		}
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil is %v, want %v", path, b.IsNil(), a.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		return diff1(a.Elem(), b.Elem(), path+"*", depth+1)
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil is %v, want %v", path, b.IsNil(), a.IsNil())
		}
		if a.IsNil() {
			return ""
		}
		return diff1(a.Elem(), b.Elem(), path+".(iface)", depth+1)
	case reflect.Slice:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil is %v, want %v", path, b.IsNil(), a.IsNil())
		}
		fallthrough
	case reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d, want %d", path, b.Len(), a.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff1(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return fmt.Sprintf("%s: map of %d, nil %v, want %d, %v", path, b.Len(), b.IsNil(), a.Len(), a.IsNil())
		}
		for _, k := range a.MapKeys() {
			bv := b.MapIndex(k)
			if !bv.IsValid() {
				return fmt.Sprintf("%s: no key %v", path, k)
			}
			if d := diff1(a.MapIndex(k), bv, fmt.Sprintf("%s[%v]", path, k), depth+1); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if d := diff1(a.Field(i), b.Field(i), path+"."+t.Field(i).Name, depth+1); d != "" {
				return d
			}
		}
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if math.Float64bits(x) != math.Float64bits(y) && !(x != x && y != y) {
			return fmt.Sprintf("%s: %v, want %v", path, y, x)
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v, want %v", path, b, a)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %v, want %v", path, b.Int(), a.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %v, want %v", path, b.Uint(), a.Uint())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q, want %q", path, b.String(), a.String())
		}
	}
	return ""
}

// show prints a value with its pointers followed.
func show(v reflect.Value) string {
	s := show1(v, 0)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func show1(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "invalid"
	}
	if depth > 12 {
		return "…"
	}
	t := v.Type()
	if t == tTime && v.CanInterface() {
		return v.Interface().(time.Time).Format(time.RFC3339Nano)
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + show1(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return fmt.Sprintf("(%v)%s", v.Elem().Type(), show1(v.Elem(), depth+1))
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			return "nil[]"
		}
		if isByteList(t) {
			return fmt.Sprintf("x%x", bytesOf(v))
		}
		var p []string
		for i := 0; i < v.Len() && i < 20; i++ {
			p = append(p, show1(v.Index(i), depth+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case reflect.Struct:
		var p []string
		for i := 0; i < v.NumField(); i++ {
			p = append(p, t.Field(i).Name+":"+show1(v.Field(i), depth+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	return fmt.Sprintf("%v", v)
}
