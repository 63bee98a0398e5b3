package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// jnode is a JSON document: kind n(ull), t(rue), f(alse), #, ", [, {.
type jnode struct {
	k     byte
	s     string // string, or literal of a number
	items []*jnode
	keys  []string // of objects
}

func jnull() *jnode            { return &jnode{k: 'n'} }
func jstr(s string) *jnode     { return &jnode{k: '"', s: s} }
func jnum(s string) *jnode     { return &jnode{k: '#', s: s} }
func jlist(l ...*jnode) *jnode { return &jnode{k: '[', items: l} }
func jobj() *jnode             { return &jnode{k: '{'} }
func (j *jnode) put(k string, v *jnode) *jnode {
	j.keys = append(j.keys, k)
	j.items = append(j.items, v)
	return j
}
func jbool(b bool) *jnode {
	if b {
		return &jnode{k: 't'}
	}
	return &jnode{k: 'f'}
}

// get returns the last member with the key.
func (j *jnode) get(k string) *jnode {
	for i := len(j.keys) - 1; i >= 0; i-- {
		if j.keys[i] == k {
			return j.items[i]
		}
	}
	return nil
}

func (j *jnode) dupKeys() bool {
	m := map[string]bool{}
	for _, k := range j.keys {
		if m[k] {
			return true
		}
		m[k] = true
	}
	return false
}

func (j *jnode) copy() *jnode {
	o := &jnode{k: j.k, s: j.s, keys: append([]string(nil), j.keys...)}
	for _, i := range j.items {
		o.items = append(o.items, i.copy())
	}
	return o
}

func (j *jnode) text() string {
	var b strings.Builder
	j.write(&b)
	return b.String()
}

func jquote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func (j *jnode) write(b *strings.Builder) {
	switch j.k {
	case 'n':
		b.WriteString("null")
	case 't':
		b.WriteString("true")
	case 'f':
		b.WriteString("false")
	case '#':
		b.WriteString(j.s)
	case '"':
		b.WriteString(jquote(j.s))
	case '[':
		b.WriteByte('[')
		for i, e := range j.items {
			if i > 0 {
				b.WriteByte(',')
			}
			e.write(b)
		}
		b.WriteByte(']')
	case '{':
		b.WriteByte('{')
		for i, e := range j.items {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(jquote(j.keys[i]))
			b.WriteByte(':')
			e.write(b)
		}
		b.WriteByte('}')
	}
}

// jparse parses one JSON document.
func jparse(b []byte) (*jnode, error) {
	if !json.Valid(b) {
		return nil, errors.New("invalid JSON")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	n, err := jparse1(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, errors.New("more than one document")
	}
	return n, nil
}

func jparse1(d *json.Decoder) (*jnode, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case nil:
		return jnull(), nil
	case bool:
		return jbool(x), nil
	case json.Number:
		return jnum(string(x)), nil
	case string:
		return jstr(x), nil
	case json.Delim:
		n := &jnode{k: byte(x)}
		for d.More() {
			if x == '{' {
				kt, err := d.Token()
				if err != nil {
					return nil, err
				}
				n.keys = append(n.keys, kt.(string))
			}
			e, err := jparse1(d)
			if err != nil {
				return nil, err
			}
			n.items = append(n.items, e)
		}
		_, err := d.Token()
		return n, err
	}
	return nil, fmt.Errorf("token %v", t)
}

// jdiff compares documents: order of keys matters, numbers by value.
func jdiff(want, got *jnode, path string) string {
	if want.k != got.k {
		return fmt.Sprintf("%s: %s, want %s", path, got.text(), want.text())
	}
	switch want.k {
	case '"':
		if want.s != got.s {
			return fmt.Sprintf("%s: %q, want %q", path, got.s, want.s)
		}
	case '#':
		if want.s == got.s {
			return ""
		}
		x, err1 := strconv.ParseFloat(want.s, 64)
		y, err2 := strconv.ParseFloat(got.s, 64)
		// Numbers of more than 53 bits are never emitted by 32-bit kinds.
		if err1 != nil || err2 != nil || x != y || math.Signbit(x) != math.Signbit(y) {
			return fmt.Sprintf("%s: %s, want %s", path, got.s, want.s)
		}
	case '[', '{':
		if len(want.items) != len(got.items) {
			return fmt.Sprintf("%s: %d items, want %d", path, len(got.items), len(want.items))
		}
		for i := range want.items {
			p := fmt.Sprintf("%s[%d]", path, i)
			if want.k == '{' {
				if want.keys[i] != got.keys[i] {
					return fmt.Sprintf("%s: key %q, want %q", path, got.keys[i], want.keys[i])
				}
				p = path + "." + want.keys[i]
			}
			if d := jdiff(want.items[i], got.items[i], p); d != "" {
				return d
			}
		}
	}
	return ""
}

// validUTF8 is what a JSON string can hold of s.
func validUTF8(s string) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

// ---- encoding

var tJM = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
var tJU = reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()

// marshalJSON is the reference for MarshalJSON.
func (m *Model) marshalJSON(v reflect.Value) (*jnode, error) {
	c := m.concs[deref(v.Type())]
	n, err := m.jenc(v, eopts{})
	if err != nil {
		return nil, err
	}
	if c != nil {
		n = jobj().put("type", jstr(c.name)).put("value", n)
	}
	return n, nil
}

func (m *Model) jenc(v reflect.Value, o eopts) (*jnode, error) {
	v, ok := chase(v)
	if !ok {
		return jnull(), nil
	}
	t := v.Type()
	if t == tTime {
		tm := v.Interface().(time.Time).UTC()
		if y := tm.Year(); y < 0 || y > 9999 {
			return nil, errTime
		}
		return jstr(tm.Format(time.RFC3339Nano)), nil
	}
	if t.Implements(tJM) {
		b, err := v.Interface().(json.Marshaler).MarshalJSON()
		if err != nil {
			return nil, err
		}
		return jparse(b)
	}
	if isAmM(t) {
		r, err := repr(v)
		if err != nil {
			return nil, err
		}
		return m.jenc(r, o)
	}
	switch t.Kind() {
	case reflect.Bool:
		return jbool(v.Bool()), nil
	case reflect.Int64, reflect.Int:
		return jstr(strconv.FormatInt(v.Int(), 10)), nil
	case reflect.Uint64, reflect.Uint:
		return jstr(strconv.FormatUint(v.Uint(), 10)), nil
	case reflect.Int8, reflect.Int16, reflect.Int32:
		return jnum(strconv.FormatInt(v.Int(), 10)), nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return jnum(strconv.FormatUint(v.Uint(), 10)), nil
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if !o.unsafe || math.IsNaN(f) || math.IsInf(f, 0) {
			return nil, errUnsupported
		}
		// Shortest literal that identifies the value in its own width.
		return jnum(strconv.FormatFloat(f, 'g', -1, t.Bits())), nil
	case reflect.String:
		return jstr(validUTF8(v.String())), nil
	case reflect.Interface:
		if m.ifaces[t] == nil && t.NumMethod() > 0 {
			return nil, errUnreg
		}
		if v.IsNil() {
			return jnull(), nil
		}
		cv, ok := chase(v.Elem())
		if !ok {
			return nil, errUnsupported
		}
		c := m.concs[cv.Type()]
		if c == nil {
			return nil, errUnreg
		}
		n, err := m.jenc(cv, o)
		if err != nil {
			return nil, err
		}
		return jobj().put("type", jstr(c.name)).put("value", n), nil
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			return jnull(), nil
		}
		if isByteList(t) {
			return jstr(base64.StdEncoding.EncodeToString(bytesOf(v))), nil
		}
		n := jlist()
		for i := 0; i < v.Len(); i++ {
			e, err := m.jenc(v.Index(i), o)
			if err != nil {
				return nil, err
			}
			n.items = append(n.items, e)
		}
		return n, nil
	case reflect.Map:
		if t.Key().Kind() != reflect.String {
			return nil, errUnsupported
		}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		n := jobj()
		for _, k := range ks {
			e, err := m.jenc(v.MapIndex(k), o)
			if err != nil {
				return nil, err
			}
			n.put(validUTF8(k.String()), e)
		}
		return n, nil
	case reflect.Struct:
		for _, f := range fields(t) {
			if k := f.t.Kind(); (k == reflect.Float32 || k == reflect.Float64) && !f.o.unsafe {
				return nil, errUnsupported
			}
		}
		n := jobj()
		for _, f := range fields(t) {
			fv := v.Field(f.idx)
			if f.o.omitempty && jempty(fv) {
				continue
			}
			e, err := m.jenc(fv, f.o)
			if err != nil {
				return nil, err
			}
			n.put(validUTF8(f.name), e)
		}
		return n, nil
	}
	return nil, errUnsupported
}

// jempty: does omitempty omit the field?  Zero values, empty strings and lists,
// also behind pointers.
func jempty(v reflect.Value) bool {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return true
		}
		e, ok := chase(v)
		if !ok {
			return true
		}
		switch e.Kind() {
		case reflect.String, reflect.Slice, reflect.Array:
			return e.Len() == 0
		}
		return false
	}
	switch v.Kind() {
	case reflect.String, reflect.Slice, reflect.Array:
		if v.Len() == 0 {
			return true
		}
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	case reflect.Map:
		return v.IsNil()
	}
	return reflect.DeepEqual(v.Interface(), reflect.Zero(v.Type()).Interface())
}

// ---- what a JSON round trip yields

func (m *Model) normJ(v reflect.Value, o eopts) reflect.Value {
	t := v.Type()
	out := reflect.New(t).Elem()
	if t.Kind() == reflect.Ptr {
		e, ok := chase(v)
		if !ok {
			return out
		}
		if n, err := m.jenc(e, o); err == nil && n.k == 'n' {
			return out
		}
		return ptrTo(m.normJ(v.Elem(), o))
	}
	if t == tTime {
		out.Set(reflect.ValueOf(v.Interface().(time.Time).Round(0).UTC()))
		return out
	}
	if t.Implements(tJM) {
		out.Set(v)
		return out
	}
	if isAmM(t) {
		r, err := repr(v)
		if err != nil {
			return out
		}
		if n, err := m.jenc(r, o); err == nil && n.k == 'n' {
			return out
		}
		u, err := unrepr(t, m.normJ(r, o))
		if err != nil {
			panic(err)
		}
		return u
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Array:
		n := v.Len()
		if t.Kind() == reflect.Slice {
			if n == 0 {
				return out
			}
			out.Set(reflect.MakeSlice(t, n, n))
		}
		for i := 0; i < n; i++ {
			out.Index(i).Set(m.normJ(v.Index(i), o))
		}
	case reflect.Map:
		out.Set(reflect.MakeMap(t))
		for _, k := range v.MapKeys() {
			out.SetMapIndex(k, m.normJ(v.MapIndex(k), o))
		}
	case reflect.Interface:
		if v.IsNil() {
			return out
		}
		cv, _ := chase(v.Elem())
		cv = m.normJ(cv, o)
		if m.concs[cv.Type()].ptr {
			cv = ptrTo(cv)
		}
		out.Set(cv)
	case reflect.Struct:
		for _, f := range fields(t) {
			fv := v.Field(f.idx)
			if f.o.omitempty && jempty(fv) {
				continue
			}
			out.Field(f.idx).Set(m.normJ(fv, f.o))
		}
	default:
		out.Set(v)
	}
	return out
}

// ---- decoding

var (
	errJSON     = errors.New("document doesn't match")
	errDontCare = errors.New("not specified")
	reTime      = regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d{1,9})?Z$`)
	reLoose     = regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)T(\d):(\d\d):(\d\d)([.,]\d+)?Z$|^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)[.,]\d+Z$`)
	reInt       = regexp.MustCompile(`^(0|-?[1-9]\d*|-0)$`)
)

// unmarshalJSON is the reference for UnmarshalJSON into *old (old may be the
// zero value).  errDontCare: the property says nothing.
func (m *Model) unmarshalJSON(b []byte, t reflect.Type, old reflect.Value) (reflect.Value, error) {
	n, err := jparse(b)
	if err != nil {
		return reflect.Value{}, err
	}
	return m.unmarshalNode(n, t, old)
}

func (m *Model) unmarshalNode(n *jnode, t reflect.Type, old reflect.Value) (reflect.Value, error) {
	if c := m.concs[deref(t)]; c != nil {
		name, data, err := unwrap(n)
		if err != nil {
			return reflect.Value{}, err
		}
		if name != c.name {
			return reflect.Value{}, errJSON
		}
		n = data
	}
	return m.jdec(n, t, eopts{}, old)
}

func unwrap(n *jnode) (string, *jnode, error) {
	if n.k == 'n' {
		return "", nil, errJSON
	}
	if n.k != '{' {
		return "", nil, errJSON
	}
	for i, k := range n.keys {
		if l := strings.ToLower(k); (l == "type" || l == "value") && l != k {
			return "", nil, errDontCare
		}
		if k == "type" && n.items[i].k != '"' && n.dupKeys() {
			return "", nil, errDontCare
		}
	}
	tn, vn := n.get("type"), n.get("value")
	if n.dupKeys() {
		return "", nil, errDontCare
	}
	if tn == nil || vn == nil || tn.k != '"' || tn.s == "" {
		return "", nil, errJSON
	}
	return tn.s, vn, nil
}

func (m *Model) jdec(n *jnode, t reflect.Type, o eopts, old reflect.Value) (reflect.Value, error) {
	out := reflect.New(t).Elem()
	none := reflect.Value{}
	if n.k == 'n' {
		return out, nil
	}
	if t.Kind() == reflect.Ptr {
		eo := reflect.Zero(t.Elem())
		if old.IsValid() && !old.IsNil() {
			eo = old.Elem()
		}
		e, err := m.jdec(n, t.Elem(), o, eo)
		if err != nil {
			return none, err
		}
		return ptrTo(e), nil
	}
	if t == tTime {
		if n.k != '"' {
			return none, errJSON
		}
		tm, ok := jtime(n.s)
		if !ok {
			if reLoose.MatchString(n.s) {
				return none, errDontCare // leniency of package time
			}
			return none, errJSON
		}
		out.Set(reflect.ValueOf(tm))
		return out, nil
	}
	if reflect.PtrTo(t).Implements(tJU) {
		p := reflect.New(t)
		if err := p.Interface().(json.Unmarshaler).UnmarshalJSON([]byte(n.text())); err != nil {
			return none, err
		}
		return p.Elem(), nil
	}
	if um, ok := reflect.PtrTo(t).MethodByName("UnmarshalAmino"); ok {
		rt := um.Type.In(1)
		r, err := m.jdec(n, rt, o, reflect.Zero(rt))
		if err != nil {
			return none, err
		}
		return unrepr(t, r)
	}
	switch t.Kind() {
	case reflect.Bool:
		if n.k != 't' && n.k != 'f' {
			return none, errJSON
		}
		out.SetBool(n.k == 't')
		return out, nil
	case reflect.Int64, reflect.Int, reflect.Uint64, reflect.Uint:
		if n.k != '"' {
			return none, errJSON
		}
		return jint(out, n.s)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Uint8, reflect.Uint16, reflect.Uint32:
		if n.k != '#' {
			return none, errJSON
		}
		return jint(out, n.s)
	case reflect.Float32, reflect.Float64:
		if !o.unsafe {
			return none, errUnsupported
		}
		if n.k != '#' {
			return none, errJSON
		}
		f, err := strconv.ParseFloat(n.s, t.Bits())
		if err != nil {
			return none, errJSON
		}
		out.SetFloat(f)
		return out, nil
	case reflect.String:
		if n.k != '"' {
			return none, errJSON
		}
		out.SetString(n.s)
		return out, nil
	case reflect.Interface:
		if m.ifaces[t] == nil && t.NumMethod() > 0 {
			return none, errUnreg
		}
		name, data, err := unwrap(n)
		if err != nil {
			return none, err
		}
		c := m.byName[name]
		if c == nil {
			return none, errJSON
		}
		ct := c.t
		if c.ptr {
			ct = reflect.PtrTo(ct)
		}
		if !ct.Implements(t) {
			return none, errJSON
		}
		v, err := m.jdec(data, c.t, o, reflect.Zero(c.t))
		if err != nil {
			return none, err
		}
		if c.ptr {
			v = ptrTo(v)
		}
		out.Set(v)
		return out, nil
	case reflect.Slice, reflect.Array:
		if isByteList(t) {
			if n.k == '[' {
				return none, errDontCare
			}
			if n.k != '"' {
				return none, errJSON
			}
			b, err := base64.StdEncoding.DecodeString(n.s)
			if err != nil {
				return none, errJSON
			}
			if t.Kind() == reflect.Array && len(b) != t.Len() {
				return none, errJSON
			}
			if t.Kind() == reflect.Slice {
				if len(b) == 0 {
					return out, nil
				}
				out.Set(reflect.MakeSlice(t, len(b), len(b)))
			}
			for i := range b {
				out.Index(i).SetUint(uint64(b[i]))
			}
			return out, nil
		}
		if n.k != '[' {
			return none, errJSON
		}
		if t.Kind() == reflect.Array {
			if len(n.items) != t.Len() {
				return none, errJSON
			}
		} else if len(n.items) == 0 {
			return out, nil
		} else {
			out.Set(reflect.MakeSlice(t, len(n.items), len(n.items)))
		}
		dont := error(nil)
		for i := range n.items {
			eo := reflect.Zero(t.Elem())
			if t.Kind() == reflect.Array && old.IsValid() {
				eo = old.Index(i)
			}
			e, err := m.jdec(n.items[i], t.Elem(), o, eo)
			if err == errDontCare {
				dont = err
				continue
			}
			if err != nil {
				return none, err
			}
			out.Index(i).Set(e)
		}
		return out, dont
	case reflect.Map:
		if n.k != '{' || t.Key().Kind() != reflect.String {
			return none, errJSON
		}
		out.Set(reflect.MakeMap(t))
		dont := error(nil)
		for i, k := range n.keys {
			if n.get(k) != n.items[i] {
				continue // duplicate
			}
			e, err := m.jdec(n.items[i], t.Elem(), o, reflect.Zero(t.Elem()))
			if err == errDontCare {
				dont = err
				continue
			}
			if err != nil {
				return none, err
			}
			out.SetMapIndex(reflect.ValueOf(k).Convert(t.Key()), e)
		}
		return out, dont
	case reflect.Struct:
		if n.k != '{' {
			return none, errJSON
		}
		if old.IsValid() {
			out.Set(old)
		}
		for _, f := range fields(t) {
			if k := f.t.Kind(); (k == reflect.Float32 || k == reflect.Float64) && !f.o.unsafe {
				return none, errUnsupported
			}
		}
		dont := error(nil)
		for _, f := range fields(t) {
			fn := n.get(f.name)
			if fn == nil {
				if !f.o.omitempty {
					out.Field(f.idx).Set(reflect.Zero(f.t))
				}
				continue
			}
			fo := reflect.Zero(f.t)
			if old.IsValid() {
				fo = old.Field(f.idx)
			}
			e, err := m.jdec(fn, f.t, f.o, fo)
			if err == errDontCare {
				dont = err
				continue
			}
			if err != nil {
				return none, err
			}
			out.Field(f.idx).Set(e)
		}
		return out, dont
	}
	return none, errUnsupported
}

func jint(out reflect.Value, s string) (reflect.Value, error) {
	if !reInt.MatchString(s) {
		return reflect.Value{}, errJSON
	}
	if out.CanInt() {
		i, err := strconv.ParseInt(s, 10, out.Type().Bits())
		if err != nil {
			return reflect.Value{}, errJSON
		}
		out.SetInt(i)
		return out, nil
	}
	if s == "-0" {
		return reflect.Value{}, errDontCare
	}
	u, err := strconv.ParseUint(s, 10, out.Type().Bits())
	if err != nil {
		return reflect.Value{}, errJSON
	}
	out.SetUint(u)
	return out, nil
}

func jtime(s string) (time.Time, bool) {
	p := reTime.FindStringSubmatch(s)
	if p == nil {
		return time.Time{}, false
	}
	var n [7]int
	for i := 1; i <= 6; i++ {
		n[i], _ = strconv.Atoi(p[i])
	}
	ns := 0
	if p[7] != "" {
		ns, _ = strconv.Atoi((p[7][1:] + "000000000")[:9])
	}
	if n[4] > 23 || n[5] > 59 || n[6] > 59 || n[2] < 1 || n[2] > 12 {
		return time.Time{}, false
	}
	t := time.Date(n[1], time.Month(n[2]), n[3], n[4], n[5], n[6], ns, time.UTC)
	if t.Day() != n[3] {
		return time.Time{}, false
	}
	return t, true
}
