package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

func init() { props["C18"] = propC18 }

// Types with methods that DeepCopy honours, or not.  Copies made by a method
// are marked.
type (
	dVal   struct{ S string }             // value receiver, returns the type
	dPtr   struct{ S string }             // pointer receiver, returns a pointer
	dPtrV  struct{ S string }             // pointer receiver, returns the type
	dValP  struct{ S string }             // value receiver, returns a pointer
	dArg   struct{ S string }             // has an argument: not honoured
	dTwo   struct{ S string }             // two results: not honoured
	dAny   struct{ S string }             // returns interface{}: not honoured
	dOther struct{ S string }             // returns another type: not honoured
	dSl    []string                       // slice
	dMap   map[string]string              // map
	dInt   int                            // number
	dStr   string                         // string
	dArr   [2]string                      // array
	dHid   struct{ p *int }               // hidden pointer
	dHidP  struct{ p *int }               // the same, pointer receiver
	dBoth  struct{ S string }             // DeepCopy and a representation
	dAmHid struct{ m map[string]*int }    // hidden state, representation
	dAmPtr struct{ l []int }              // pointer receiver MarshalAmino
	dAmMis struct{ S []string }           // methods of different representations: not honoured
	dAmNoU struct{ S []string }           // only MarshalAmino
	dAmNoM struct{ S []string }           // only UnmarshalAmino
	dAmSl  []int                          // slice with representation
	dIface interface{ DeepCopy() dIface } // interface with the method
	dImpl  struct{ S []string }
	dAnyI  interface{ X() }
	dSlI   []string // slice in dAnyI
	dRec   struct {
		M map[string]*dRec
		L []dRec
		V int
	}
)

func (d dVal) DeepCopy() dVal        { return dVal{d.S + "'"} }
func (d *dPtr) DeepCopy() *dPtr      { return &dPtr{d.S + "'"} }
func (d *dPtrV) DeepCopy() dPtrV     { return dPtrV{d.S + "'"} }
func (d dValP) DeepCopy() *dValP     { return &dValP{d.S + "'"} }
func (d dArg) DeepCopy(int) dArg     { return dArg{d.S + "'"} }
func (d dTwo) DeepCopy() (dTwo, int) { return dTwo{d.S + "'"}, 0 }
func (d dAny) DeepCopy() interface{} { return dAny{d.S + "'"} }
func (d dOther) DeepCopy() dVal      { return dVal{d.S + "'"} }
func (d dSl) DeepCopy() dSl          { return append(append(dSl{}, d...), "'") }
func (d dMap) DeepCopy() dMap {
	out := dMap{"'": ""}
	for k, v := range d {
		out[k] = v
	}
	return out
}
func (d dInt) DeepCopy() dInt { return d + 1000 }
func (d dStr) DeepCopy() dStr { return d + "'" }
func (d dArr) DeepCopy() dArr { return dArr{d[1], d[0] + "'"} }
func (d dHid) DeepCopy() dHid {
	if d.p == nil {
		return d
	}
	n := *d.p + 1000
	return dHid{&n}
}
func (d *dHidP) DeepCopy() *dHidP {
	if d.p == nil {
		return &dHidP{}
	}
	n := *d.p + 1000
	return &dHidP{&n}
}
func (d dBoth) DeepCopy() dBoth                { return dBoth{d.S + "'"} }
func (d dBoth) MarshalAmino() (string, error)  { return d.S + "!", nil }
func (d *dBoth) UnmarshalAmino(s string) error { d.S = s; return nil }
func (d dAmHid) MarshalAmino() (map[string]int, error) {
	m := map[string]int{}
	for k, v := range d.m {
		m[k] = *v
	}
	return m, nil
}
func (d *dAmHid) UnmarshalAmino(m map[string]int) error {
	d.m = map[string]*int{}
	for k, v := range m {
		v := v
		d.m[k] = &v
	}
	return nil
}
func (d *dAmPtr) MarshalAmino() ([]int, error) { return append([]int{7}, d.l...), nil }
func (d *dAmPtr) UnmarshalAmino(l []int) error { d.l = l; return nil }
func (d dAmMis) MarshalAmino() (string, error) { return "", errors.New("called") }
func (d *dAmMis) UnmarshalAmino(int) error     { return errors.New("called") }
func (d dAmNoU) MarshalAmino() (string, error) { return "", errors.New("called") }
func (d *dAmNoM) UnmarshalAmino(string) error  { return errors.New("called") }
func (d dAmSl) MarshalAmino() (string, error)  { return fmt.Sprint(len(d)), nil }
func (d *dAmSl) UnmarshalAmino(s string) error { *d = dAmSl{len(s)}; return nil }
func (d dImpl) DeepCopy() dIface               { return dImpl{append([]string{"'"}, d.S...)} }
func (d dSlI) X()                              {}
func (d dMapI) X()                             {}
func (d *dPtrI) X()                            {}

type dMapI map[string][]int
type dPtrI struct{ L [][]int }

// refCopy is the reference for DeepCopy.
func refCopy(v reflect.Value) reflect.Value {
	t := v.Type()
	out := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func:
		if v.IsNil() {
			return out
		}
	}
	recv := 1
	if t.Kind() == reflect.Interface {
		recv = 0
	}
	if m, ok := t.MethodByName("DeepCopy"); ok && m.Type.NumIn() == recv && m.Type.NumOut() == 1 {
		switch r := m.Type.Out(0); {
		case r == t:
			return v.MethodByName("DeepCopy").Call(nil)[0]
		case t.Kind() == reflect.Ptr && r == t.Elem():
			return ptrTo(v.MethodByName("DeepCopy").Call(nil)[0])
		}
	}
	pt := t
	if t.Kind() != reflect.Ptr {
		pt = reflect.PtrTo(t)
	}
	ma, ok1 := pt.MethodByName("MarshalAmino")
	ua, ok2 := pt.MethodByName("UnmarshalAmino")
	if ok1 && ok2 && ma.Type.Out(0) == ua.Type.In(1) {
		p := v
		if t.Kind() != reflect.Ptr {
			p = ptrTo(v)
		}
		r := p.MethodByName("MarshalAmino").Call(nil)
		if !r[1].IsNil() {
			panic(r[1].Interface())
		}
		n := reflect.New(pt.Elem())
		if e := n.MethodByName("UnmarshalAmino").Call(r[:1])[0]; !e.IsNil() {
			panic(e.Interface())
		}
		if t.Kind() == reflect.Ptr {
			return n
		}
		return n.Elem()
	}
	switch t.Kind() {
	case reflect.Ptr:
		return ptrTo(refCopy(v.Elem()))
	case reflect.Interface:
		out.Set(refCopy(v.Elem()))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(refCopy(v.Index(i)))
		}
	case reflect.Slice:
		out.Set(reflect.MakeSlice(t, v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(refCopy(v.Index(i)))
		}
	case reflect.Map:
		out.Set(reflect.MakeMap(t))
		for _, k := range v.MapKeys() {
			out.SetMapIndex(k, refCopy(v.MapIndex(k)))
		}
	case reflect.Struct:
		if t == tTime {
			return v
		}
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				out.Field(i).Set(refCopy(v.Field(i)))
			}
		}
	default:
		return v
	}
	return out
}

type memRange struct{ from, to uintptr }

// memory lists the memory that v refers to (not v itself): pointees, backing
// arrays with their spare capacity, maps.
func memory(v reflect.Value, path string, f func(path string, r memRange)) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			if n := v.Type().Elem().Size(); n > 0 {
				f(path, memRange{v.Pointer(), v.Pointer() + n})
			}
			memory(v.Elem(), path+"*", f)
		}
	case reflect.Interface:
		if !v.IsNil() {
			memory(v.Elem(), path+".(iface)", f)
		}
	case reflect.Slice:
		if n := v.Type().Elem().Size() * uintptr(v.Cap()); n > 0 {
			f(path, memRange{v.Pointer(), v.Pointer() + n})
		}
		if isByteList(v.Type()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			memory(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f)
		}
	case reflect.Array:
		if isByteList(v.Type()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			memory(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f)
		}
	case reflect.Map:
		if !v.IsNil() {
			f(path, memRange{v.Pointer(), v.Pointer() + 1})
			for _, k := range v.MapKeys() {
				memory(v.MapIndex(k), fmt.Sprintf("%s[%v]", path, k), f)
			}
		}
	case reflect.Struct:
		if v.Type() == tTime {
			return // the location is shared and immutable
		}
		for i := 0; i < v.NumField(); i++ {
			memory(v.Field(i), path+"."+v.Type().Field(i).Name, f)
		}
	}
}

// shared reports memory that both values refer to.
func shared(a, b reflect.Value) string {
	var ra []memRange
	var pa []string
	memory(a, "", func(p string, r memRange) { ra, pa = append(ra, r), append(pa, p) })
	res := ""
	memory(b, "", func(p string, r memRange) {
		for i, x := range ra {
			if x.from < r.to && r.from < x.to && res == "" {
				res = fmt.Sprintf("%s of the first and %s of the second share memory", pa[i], p)
			}
		}
	})
	return res
}

// overlapping reports parts of one value that share memory with each other.
func overlapping(v reflect.Value) string {
	var rs []memRange
	var ps []string
	res := ""
	memory(v, "", func(p string, r memRange) {
		for i, x := range rs {
			if x.from < r.to && r.from < x.to && res == "" {
				// An element of a backing array isn't reached twice.
				res = fmt.Sprintf("%s and %s share memory", ps[i], p)
			}
		}
		rs, ps = append(rs, r), append(ps, p)
	})
	return res
}

// scribble changes everything that v refers to (not v itself), and the spare
// capacity of slices.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && v.Type().Elem().Size() > 0 {
			scribble(v.Elem())
			spoil(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Slice:
		s := v.Slice(0, v.Cap())
		for i := 0; i < s.Len(); i++ {
			if !isByteList(v.Type()) {
				scribble(s.Index(i))
			}
			spoil(s.Index(i))
		}
	case reflect.Array:
		if !isByteList(v.Type()) {
			for i := 0; i < v.Len(); i++ {
				scribble(v.Index(i))
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Value{})
		}
		if !v.IsNil() && v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("scribbled").Convert(v.Type().Key()), reflect.New(v.Type().Elem()).Elem())
		}
	case reflect.Struct:
		if v.Type() == tTime {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i))
			}
		}
	}
}

// spoil changes a settable value in place.
func spoil(v reflect.Value) {
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 0x55)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 0x55)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float() + 1)
	case reflect.String:
		v.SetString(v.String() + "scribbled")
	case reflect.Struct:
		if v.Type() == tTime {
			v.Set(reflect.ValueOf(time.Unix(77, 77)))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				spoil(v.Field(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			spoil(v.Index(i))
		}
	default:
		v.Set(reflect.Zero(v.Type()))
	}
}

// copySpace: types by nesting for DeepCopy, with values.
func copySpace(thorough bool) (out []typeCase) {
	for _, tc := range typeSpace(thorough) {
		if thorough || !strings.HasPrefix(tc.key, "P:") {
			out = append(out, tc)
		}
	}
	out = append(out, jsonSpace(thorough)...)
	var leaves []spec
	for _, o := range []interface{}{dVal{}, dPtr{}, dPtrV{}, dValP{}, dArg{}, dTwo{}, dAny{}, dOther{}, dSl{}, dMap{}, dInt(0), dStr(""), dArr{},
		dHid{}, dHidP{}, dBoth{}, dAmHid{}, dAmPtr{}, dAmMis{}, dAmNoU{}, dAmNoM{}, dAmSl{}, dImpl{}, dSlI{}, dMapI{}, dPtrI{}, dRec{},
		map[string]string{}, map[int][]string{}, map[MyString]map[string][]int{}, [][]int{}, [][][]string{}, [2][]int{}, [][2]*int{},
		time.Time{}, []byte{}, "", 0, 1.5, Hidden{}, Dashed{}, Tree{}, JVal{}} {
		leaves = append(leaves, spec{name: rt(o).String(), t: rt(o)})
	}
	for _, p := range []interface{}{(*dIface)(nil), (*dAnyI)(nil), (*interface{})(nil), (*error)(nil), (*I1)(nil)} {
		t := reflect.TypeOf(p).Elem()
		leaves = append(leaves, spec{name: t.String(), t: t})
	}
	var ctor func(s spec) []spec
	ctor = func(s spec) []spec {
		p := reflect.PtrTo
		bare := spec{}
		l := []spec{s,
			s.with("*"+s.name, p(s.t)), s.with("[]"+s.name, reflect.SliceOf(s.t)), s.with("[2]"+s.name, reflect.ArrayOf(2, s.t)),
			s.with("map["+s.name, reflect.MapOf(rt(""), s.t)),
			bare.with("{"+s.name+",int}", structOf(s, sInt)),
		}
		return l
	}
	seen := map[string]bool{}
	for _, l := range leaves {
		for _, s := range ctor(l) {
			for _, s2 := range ctor(s) {
				if !seen[s2.name] {
					seen[s2.name] = true
					out = append(out, typeCase{key: "D:" + s2.name, t: s2.t, lvl: 1, cap: 60})
				}
				if thorough {
					for _, s3 := range ctor(s2) {
						if !seen[s3.name] {
							seen[s3.name] = true
							out = append(out, typeCase{key: "D:" + s3.name, t: s3.t, lvl: 2, cap: 40})
						}
					}
				}
			}
		}
	}
	return
}

// copyVals adds to the generator what it can't build: hidden contents,
// dynamic values that aren't registered.
func copyVals(g *gen, tc typeCase) []reflect.Value {
	if tc.vs != nil {
		return tc.vs()
	}
	one, two := 1, 2
	vals := map[reflect.Type][]interface{}{
		rt(dHid{}):   {dHid{}, dHid{&one}},
		rt(dHidP{}):  {dHidP{}, dHidP{&one}},
		rt(dAmHid{}): {dAmHid{map[string]*int{}}, dAmHid{map[string]*int{"a": &one, "b": &two}}},
		rt(dAmPtr{}): {dAmPtr{}, dAmPtr{[]int{1, 2}}},
	}
	any := []interface{}{1, "s", []int{1, 2}, []int(nil), map[string][]int{"a": {1}}, map[string]int(nil), &one, (*int)(nil), &dPtr{"p"}, (*dPtr)(nil), dVal{"v"}, dPtr{"x"},
		[2][]int{{1}, nil}, struct{ A []interface{} }{[]interface{}{[]string{"x"}, nil}}, time.Unix(5, 6).In(zoneP), [][]byte{{1}, nil, {}}, dHid{&two}, dAmHid{map[string]*int{"z": &one}}, error(errFaulty)}
	ifs := map[reflect.Type][]interface{}{
		reflect.TypeOf((*dIface)(nil)).Elem():      {dImpl{[]string{"a"}}},
		reflect.TypeOf((*dAnyI)(nil)).Elem():       {dSlI{"a", "b"}, dSlI(nil), dMapI{"a": {1}}, &dPtrI{[][]int{{1}}}, (*dPtrI)(nil)},
		reflect.TypeOf((*interface{})(nil)).Elem(): any[:len(any)-1],
	}
	g.custom = func(t reflect.Type) ([]reflect.Value, bool) {
		if l, ok := vals[t]; ok {
			var out []reflect.Value
			for _, o := range l {
				out = append(out, reflect.ValueOf(o))
			}
			return out, true
		}
		if l, ok := ifs[t]; ok {
			out := []reflect.Value{reflect.Zero(t)}
			for _, o := range l {
				iv := reflect.New(t).Elem()
				iv.Set(reflect.ValueOf(o))
				out = append(out, iv)
			}
			return out, true
		}
		return nil, false
	}
	return g.limited(tc.t, tc.lvl, tc.cap)
}

// C18: DeepCopy.
func propC18(c *Ctx) {
	cases := append(copySpace(c.Thorough), sizeSpace(c.Thorough, 'a')...)
	c.Assume("values are trees (no cycles); map keys hold no pointers; custom methods themselves share nothing")
	c.forTypes(cases, func(w int, tc typeCase, _ *amino.Codec) {
		g := newGen(baseSetup)
		for vi, v := range copyVals(g, tc) {
			if v.Kind() == reflect.Interface {
				if v.IsNil() {
					continue
				}
				v = v.Elem()
			}
			v = spare(v)
			snap := clone(v)
			what := func() string { return fmt.Sprintf("value #%d of %v: %s", vi, goType(tc.t), show(snap)) }
			want := refCopy(v)
			var r interface{}
			if pv := try(func() { r = amino.DeepCopy(v.Interface()) }); pv != nil {
				c.Violate(tc.key, "DeepCopy panics: %v; %s", pv, what())
				return
			}
			c.State(1)
			c.Transition(1)
			c.Trace(1)
			got := reflect.ValueOf(r)
			if !got.IsValid() || got.Type() != v.Type() {
				c.Violate(tc.key, "DeepCopy returns a %T; %s", r, what())
				return
			}
			if !reflect.DeepEqual(want.Interface(), r) {
				c.Violate(tc.key, "DeepCopy returns %s, want %s; %s", show(got), show(want), what())
				return
			}
			if !reflect.DeepEqual(snap.Interface(), v.Interface()) {
				c.Violate(tc.key, "DeepCopy changed the original to %s; %s", show(v), what())
				return
			}
			if s := shared(v, got); s != "" {
				c.Violate(tc.key, "DeepCopy: %s; %s", s, what())
				return
			}
			gsnap := refCopyPlain(got)
			scribble(got)
			if !reflect.DeepEqual(snap.Interface(), v.Interface()) {
				c.Violate(tc.key, "changing the copy changed the original to %s; %s", show(v), what())
				return
			}
			r = amino.DeepCopy(v.Interface())
			if !reflect.DeepEqual(want.Interface(), r) {
				c.Violate(tc.key, "a second DeepCopy returns %s, want %s; %s", show(reflect.ValueOf(r)), show(want), what())
				return
			}
			scribble(v)
			if !reflect.DeepEqual(gsnap.Interface(), r) {
				c.Violate(tc.key, "changing the original changed the copy to %s; %s", show(reflect.ValueOf(r)), what())
				return
			}
			if len(tc.key) > 12 {
				c.Sample("copy", "%s", what())
			}
		}
	})
	// Methods that fail.
	c.Case(0, "failing", func() {
		for _, o := range []interface{}{AmErr{1}, &AmErr{1}, struct{ A AmErr }{AmErr{1}}, []AmErr{{0}, {1}}, map[string]AmErr{"a": {1}}, AmErr{2}, &AmErr{2}, []interface{}{AmErr{2}}} {
			c.State(1)
			if pv := try(func() { amino.DeepCopy(o) }); pv == nil || !strings.Contains(fmt.Sprint(pv), "refused") {
				c.Violate("failing", "DeepCopy(%#v) ends with %v, not with the method's error", o, pv)
			}
		}
		if amino.DeepCopy(nil) != nil {
			c.Violate("failing", "DeepCopy(nil) isn't nil")
		}
	})
}

// refCopyPlain copies a value with its hidden contents (for comparison only).
func refCopyPlain(v reflect.Value) reflect.Value { return clone(v) }

// spare copies a value so that slices get spare capacity with non-zero
// contents.
func spare(v reflect.Value) reflect.Value {
	t := v.Type()
	out := reflect.New(t).Elem()
	out.Set(v)
	if t == tTime {
		return out
	}
	switch t.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			out.Set(ptrTo(spare(v.Elem())))
		}
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(spare(v.Elem()))
		}
	case reflect.Slice:
		if v.IsNil() {
			break
		}
		s := reflect.MakeSlice(t, v.Len()+3, v.Len()+3)
		for i := 0; i < s.Len(); i++ {
			if i < v.Len() {
				s.Index(i).Set(spare(v.Index(i)))
			} else {
				fillSpare(s.Index(i))
			}
		}
		out.Set(s.Slice(0, v.Len()))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(spare(v.Index(i)))
		}
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMap(t)
			for _, k := range v.MapKeys() {
				m.SetMapIndex(k, spare(v.MapIndex(k)))
			}
			out.Set(m)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				out.Field(i).Set(spare(v.Field(i)))
			}
		}
	}
	return out
}

func fillSpare(v reflect.Value) {
	switch v.Kind() {
	case reflect.Uint8:
		v.SetUint(0xee)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(99)
	case reflect.String:
		v.SetString("spare")
	}
}

// spareIntact checks that the spare capacity is as spare left it.
func spareIntact(v reflect.Value) bool {
	ok := true
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			return spareIntact(v.Elem())
		}
	case reflect.Slice:
		if v.IsNil() {
			return true
		}
		s := v.Slice(0, v.Cap())
		for i := v.Len(); i < s.Len() && i < v.Len()+3; i++ {
			want := reflect.New(v.Type().Elem()).Elem()
			fillSpare(want)
			ok = ok && reflect.DeepEqual(want.Interface(), s.Index(i).Interface())
		}
		if isByteList(v.Type()) {
			return ok
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			ok = ok && spareIntact(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			ok = ok && spareIntact(v.MapIndex(k))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				ok = ok && spareIntact(v.Field(i))
			}
		}
	}
	return ok
}
