package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"
)

// ---- type space

// spec is a field: a type and the tag it needs.
type spec struct {
	name string
	t    reflect.Type
	bin  string // binary tag
	am   string // amino tag
	js   string // json tag
}

func (s spec) tag() reflect.StructTag {
	var parts []string
	if s.bin != "" {
		parts = append(parts, fmt.Sprintf("binary:%q", s.bin))
	}
	if s.am != "" {
		parts = append(parts, fmt.Sprintf("amino:%q", s.am))
	}
	if s.js != "" {
		parts = append(parts, fmt.Sprintf("json:%q", s.js))
	}
	return reflect.StructTag(strings.Join(parts, " "))
}

func (s spec) with(name string, t reflect.Type) spec { s.name, s.t = name, t; return s }

func (s spec) addAm(tag string) spec {
	if s.am != "" {
		s.am += ","
	}
	s.am += tag
	s.name += "+" + tag
	return s
}

func structOf(fields ...spec) reflect.Type {
	fs := make([]reflect.StructField, len(fields))
	for i, f := range fields {
		fs[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i+1), Type: f.t, Tag: f.tag()}
	}
	return reflect.StructOf(fs)
}

func scalarLeaves() []spec {
	return []spec{
		{name: "bool", t: rt(false)}, {name: "int8", t: rt(int8(0))}, {name: "int16", t: rt(int16(0))},
		{name: "int32", t: rt(int32(0))}, {name: "int64", t: rt(int64(0))}, {name: "int", t: rt(int(0))},
		{name: "uint8", t: rt(uint8(0))}, {name: "uint16", t: rt(uint16(0))}, {name: "uint32", t: rt(uint32(0))},
		{name: "uint64", t: rt(uint64(0))}, {name: "uint", t: rt(uint(0))},
		{name: "fint64", t: rt(int64(0)), bin: "fixed64"}, {name: "fuint64", t: rt(uint64(0)), bin: "fixed64"},
		{name: "fint32", t: rt(int32(0)), bin: "fixed32"}, {name: "fuint32", t: rt(uint32(0)), bin: "fixed32"},
		{name: "float32", t: rt(float32(0)), am: "unsafe"}, {name: "float64", t: rt(float64(0)), am: "unsafe"},
		{name: "string", t: rt("")},
		{name: "MyInt", t: rt(MyInt(0))}, {name: "MyString", t: rt(MyString(""))}, {name: "MyInt64", t: rt(MyInt64(0)), bin: "fixed64"},
	}
}

func otherLeaves() []spec {
	return []spec{
		{name: "bytes", t: tBytes}, {name: "arr0b", t: rt([0]byte{})}, {name: "arr3b", t: rt([3]byte{})},
		{name: "MyBytes", t: rt(MyBytes{})}, {name: "MyByteSl", t: rt(MyByteSl{})}, {name: "MyByteAr", t: rt(MyByteAr{})},
		{name: "time", t: tTime}, {name: "struct", t: rt(reprXY{})}, {name: "Empty", t: rt(Empty{})},
		{name: "TimeIn", t: rt(TimeIn{})}, {name: "TimeInIn", t: rt(TimeInIn{})},
		{name: "MyStruct", t: rt(MyStruct{})}, {name: "CStruct", t: rt(CStruct{})}, {name: "CBytes", t: rt(CBytes{})},
		{name: "MyInts", t: rt(MyInts{})},
	}
}

func ifaceLeaves() []spec {
	return []spec{{name: "I1", t: tI1}, {name: "I2", t: tI2}, {name: "I3", t: tI3}}
}

func amLeaves() []spec {
	var out []spec
	for _, v := range []interface{}{AmStr{}, AmInt{}, AmI8{}, AmU32{}, AmBool{}, AmBytes{}, AmArr{}, AmStruct{}, AmEmpty{},
		AmTime{}, AmList{}, AmStrs{}, AmAm{}, AmAmI{}, AmI64(0), AmU32U(0), AmIntStr(0), AmIntS(0), AmStrInt(""), AmSlStr{}, AmArrInt{}, AmSlRev{}, AmArrStr{}, AmSlInts{}, AmSlSt{}, AmIface{}, CAm{}, CAmI{}, CAmS{}} {
		out = append(out, spec{name: rt(v).Name(), t: rt(v)})
	}
	return append(out, spec{name: "fAmI64", t: rt(AmI64(0)), bin: "fixed64"}, spec{name: "fAmU32U", t: rt(AmU32U(0)), bin: "fixed32"},
		spec{name: "AmFlt", t: rt(AmFlt(0)), am: "unsafe"})
}

func allLeaves() []spec {
	l := scalarLeaves()
	l = append(l, otherLeaves()...)
	l = append(l, ifaceLeaves()...)
	return append(l, amLeaves()...)
}

// isList: slices and arrays except of bytes.
func isByteList(t reflect.Type) bool {
	return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem().Kind() == reflect.Uint8
}
func isList(t reflect.Type) bool {
	return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem().Kind() != reflect.Uint8
}

// listElemOK: may t be the element type of a list (no multidimensional lists
// but of bytes)?
func listElemOK(t reflect.Type) bool {
	if !isList(t) {
		return true
	}
	for isList(t) {
		t = t.Elem()
	}
	return isByteList(t)
}

// ctors applies the type constructors to a leaf.
func ctors(l spec, deep bool) []spec {
	t := l.t
	out := []spec{l}
	add := func(n string, t reflect.Type) { out = append(out, l.with(n+l.name, t)) }
	isI := t.Kind() == reflect.Interface
	if !isI {
		add("*", reflect.PtrTo(t))
		add("**", reflect.PtrTo(reflect.PtrTo(t)))
	}
	if listElemOK(t) {
		add("[]", reflect.SliceOf(t))
		add("[2]", reflect.ArrayOf(2, t))
		add("[0]", reflect.ArrayOf(0, t))
		add("[1]", reflect.ArrayOf(1, t))
		add("*[]", reflect.PtrTo(reflect.SliceOf(t)))
		add("*[2]", reflect.PtrTo(reflect.ArrayOf(2, t)))
		if !isI {
			add("[]*", reflect.SliceOf(reflect.PtrTo(t)))
			add("[2]*", reflect.ArrayOf(2, reflect.PtrTo(t)))
			add("[]**", reflect.SliceOf(reflect.PtrTo(reflect.PtrTo(t))))
			if deep {
				add("[2]**", reflect.ArrayOf(2, reflect.PtrTo(reflect.PtrTo(t))))
				add("***", reflect.PtrTo(reflect.PtrTo(reflect.PtrTo(t))))
			}
		}
		if isByteList(t) {
			add("[][]", reflect.SliceOf(reflect.SliceOf(t)))
			add("[2][]", reflect.ArrayOf(2, reflect.SliceOf(t)))
			add("[][2]", reflect.SliceOf(reflect.ArrayOf(2, t)))
		}
	}
	// Within a struct, the tag goes inside.
	in := structOf(l)
	bare := spec{}
	addB := func(n string, t reflect.Type) { out = append(out, bare.with(n+"{"+l.name+"}", t)) }
	addB("", in)
	addB("*", reflect.PtrTo(in))
	addB("[]", reflect.SliceOf(in))
	addB("[]*", reflect.SliceOf(reflect.PtrTo(in)))
	addB("[2]", reflect.ArrayOf(2, in))
	if deep {
		addB("*{}", reflect.PtrTo(structOf(bare.with("", in))))
		if listElemOK(t) {
			addB("[]{[]}", reflect.SliceOf(structOf(l.with("", reflect.SliceOf(t)))))
		}
		addB("{*{}}", structOf(bare.with("", reflect.PtrTo(in))))
		addB("{[]{}}", structOf(bare.with("", reflect.SliceOf(in))))
		addB("{[]*{}}", structOf(bare.with("", reflect.SliceOf(reflect.PtrTo(in)))))
		if !isI {
			addB("{*}", structOf(l.with("", reflect.PtrTo(t))))
		}
	}
	return out
}

// tagged returns the field with further amino tags.
func tagged(s spec) []spec {
	out := []spec{s, s.addAm("write_empty")}
	if s.t.Kind() == reflect.Slice || s.t.Kind() == reflect.Array {
		out = append(out, s.addAm("empty_elements"))
		out = append(out, s.addAm("write_empty").addAm("empty_elements"))
	}
	return out
}

// typeCase is one type of the type space.
type typeCase struct {
	key string
	t   reflect.Type
	lvl int                    // level of detail of its values
	cap int                    // bound on the number of values, 0: none
	vs  func() []reflect.Value // if not nil, the values
}

var (
	sInt   = spec{name: "int", t: rt(int(0))}
	sStr   = spec{name: "string", t: rt("")}
	sStrs  = spec{name: "[]string", t: rt([]string{})}
	sI8    = spec{name: "int8", t: rt(int8(0))}
	sPtr   = spec{name: "*int", t: rt((*int)(nil))}
	sBytes = spec{name: "bytes", t: tBytes}
)

// handTypes are declared types that reflection can't construct.
func handTypes() []typeCase {
	var out []typeCase
	for _, v := range []interface{}{Tree{}, LinkedList{}, RecSlice{}, RecPtrSlice{}, MutA{}, MutB{}, Hidden{}, Dashed{},
		Embed{}, EmbedPtr{}, EmbedTwo{}, EmbedLower{}, NoExported{}, TimeIn{}, TimeInIn{}, Names{}, CNest{}, CTime{}} {
		t := rt(v)
		out = append(out, typeCase{key: "H:" + t.Name(), t: t, cap: 400})
		out = append(out, typeCase{key: "H:[]" + t.Name(), t: reflect.SliceOf(t), lvl: 1, cap: 60})
		out = append(out, typeCase{key: "H:[]*" + t.Name(), t: reflect.SliceOf(reflect.PtrTo(t)), lvl: 1, cap: 60})
		out = append(out, typeCase{key: "H:{" + t.Name() + "}", t: structOf(spec{t: t}, sInt), lvl: 1, cap: 60})
	}
	for i, t := range localTypes() {
		out = append(out, typeCase{key: fmt.Sprintf("H:Local%d", i), t: t})
	}
	return out
}

// typeSpace enumerates the types; wide adds the contexts of fields.
func typeSpace(thorough bool) []typeCase {
	var out []typeCase
	seen := map[string]bool{}
	add := func(key string, t reflect.Type, lvl, cap int) {
		if seen[key] {
			return
		}
		seen[key] = true
		out = append(out, typeCase{key: key, t: t, lvl: lvl, cap: cap})
	}
	capN := 120
	if thorough {
		capN = 1500
	}
	for _, l := range allLeaves() {
		for _, s := range ctors(l, thorough) {
			// Top level.
			if s.am == "" && s.bin == "" {
				if s.t.Kind() != reflect.Interface {
					add("T:"+s.name, s.t, 0, 0)
				}
			}
			for _, f := range tagged(s) {
				n := f.name
				add("{"+n+"}", structOf(f), 0, 0)
				add("{"+n+",int}", structOf(f, sInt), 1, capN)
				add("{string,"+n+",[]string}", structOf(sStr, f, sStrs), 1, capN)
				add("{[]string,"+n+",*int}", structOf(sStrs, f, sPtr), 1, capN)
				var many []spec
				for i := 0; i < 15; i++ {
					many = append(many, sI8)
				}
				add("{int8*15,"+n+",string}", structOf(append(many, f, sStr)...), 2, 60)
				one := structOf(f)
				add("[]{"+n+"}", reflect.SliceOf(one), 1, capN)
				add("{{"+n+"},int}", structOf(spec{t: one}, sInt), 1, capN)
				add("{*{"+n+"},int}", structOf(spec{t: reflect.PtrTo(one)}, sInt), 1, capN)
				add("{[]{"+n+"},int}", structOf(spec{t: reflect.SliceOf(one)}, sInt), 1, capN)
				add("{[]*{"+n+"}+empty_elements,int}", structOf(spec{t: reflect.SliceOf(reflect.PtrTo(one)), am: "empty_elements"}, sInt), 1, capN)
				if thorough {
					add("{[2]*{"+n+"},int}", structOf(spec{t: reflect.ArrayOf(2, reflect.PtrTo(one))}, sInt), 1, capN)
					add("{{int,"+n+"}+write_empty,string}", structOf(spec{t: structOf(sInt, f), am: "write_empty"}, sStr), 1, capN)
					add("[]*{"+n+",string}", reflect.SliceOf(reflect.PtrTo(structOf(f, sStr))), 1, capN)
					for i := 15; i < 130; i++ {
						many = append(many[:i:i], sI8)
					}
				}
			}
		}
	}
	// All ordered pairs of fields.
	pl := append(append([]spec{}, scalarLeaves()...), otherLeaves()...)
	pl = append(pl, ifaceLeaves()...)
	var pairs []spec
	for _, l := range pl {
		pairs = append(pairs, l)
		if l.t.Kind() != reflect.Interface && !isList(l.t) {
			pairs = append(pairs, l.with("*"+l.name, reflect.PtrTo(l.t)))
		}
		if listElemOK(l.t) {
			pairs = append(pairs, l.with("[]"+l.name, reflect.SliceOf(l.t)))
		}
	}
	pcap := 9
	if thorough {
		pcap = 60
	}
	for _, a := range pairs {
		for _, b := range pairs {
			add("P:{"+a.name+","+b.name+"}", structOf(a, b), 2, pcap)
		}
	}
	out = append(out, handTypes()...)
	return out
}

// ---- value space

var (
	zoneP = time.FixedZone("plus", 5*3600+1800)
	epoch = time.Unix(0, 0).UTC()
)

func timeVals(lvl int) []time.Time {
	switch lvl {
	case 0:
		return []time.Time{epoch, {}, epoch.Add(1), epoch.Add(-1), epoch.Add(-time.Second), epoch.Add(time.Second),
			time.Unix(1<<31, 5), time.Unix(1, 999999999).In(zoneP), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC),
			time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(2020, 2, 29, 1, 2, 3, 120000000, zoneP), time.Now(), time.Unix(0, 0).In(zoneP),
			time.Unix(-62135596800, 0).In(zoneP)}
	case 1:
		return []time.Time{epoch, {}, time.Unix(1e9, 5).In(zoneP)}
	default:
		return []time.Time{epoch, time.Unix(1e9, 5).UTC()}
	}
}

func stringVals(lvl int) []string {
	switch lvl {
	case 0:
		return []string{"", "a", "\x00", "abc", strings.Repeat("x", 127), strings.Repeat("y", 128), "\"<&>\\/\n\t\x7f", "é\u2028\U0001F600", "null", "-12"}
	case 1:
		return []string{"", "a", "\x00é"}
	default:
		return []string{"", "z"}
	}
}

func byteVals(lvl int) [][]byte {
	switch lvl {
	case 0:
		return [][]byte{nil, {}, {0}, {1, 2, 3}, {0x80, 0xff}, make([]byte, 127), make([]byte, 128)}
	case 1:
		return [][]byte{nil, {}, {0}, {1, 0xff}}
	default:
		return [][]byte{nil, {7, 8}}
	}
}

func intVals(bits, lvl int) []int64 {
	min, max := int64(-1)<<uint(bits-1), int64(1)<<uint(bits-1)-1
	switch lvl {
	case 0:
		var out []int64
		for _, n := range []int64{0, 1, -1, 2, 63, 64, -64, -65, 127, 128, -128, -129, 8191, 8192, 16383, 16384, 1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1,
			1<<53 + 1, min, max, min + 1, max - 1} {
			if n >= min && n <= max {
				out = append(out, n)
			}
		}
		return out
	case 1:
		return []int64{0, 1, -1, min, max}
	default:
		return []int64{0, 5}
	}
}

func uintVals(bits, lvl int) []uint64 {
	max := uint64(1)<<uint(bits) - 1
	if bits == 64 {
		max = math.MaxUint64
	}
	switch lvl {
	case 0:
		var out []uint64
		for _, n := range []uint64{0, 1, 127, 128, 255, 256, 16383, 16384, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1 << 63, max, max - 1} {
			if n <= max {
				out = append(out, n)
			}
		}
		return out
	case 1:
		return []uint64{0, 1, max}
	default:
		return []uint64{0, 5}
	}
}

func floatVals(lvl int) []float64 {
	switch lvl {
	case 0:
		return []float64{0, math.Copysign(0, -1), 1, -1.5, 1e30, math.SmallestNonzeroFloat32, 1e21, 1e-7, 256}
	case 1:
		return []float64{0, 1.5, -2}
	default:
		return []float64{0, 2.5}
	}
}

// gen produces values; setup says which concrete types interfaces may hold.
type gen struct {
	setup    Setup
	maxDepth int
	badUTF8  bool
	negZero  bool
	custom   func(t reflect.Type) ([]reflect.Value, bool)
}

func newGen(s Setup) *gen { return &gen{setup: s, maxDepth: 7} }

// lvlMax is the coarsest level.
const lvlMax = 3

func (g *gen) vals(t reflect.Type, lvl int) []reflect.Value { return g.vals1(t, lvl, 0) }

// limited returns at most cap values, coarsening the level before cutting.
func (g *gen) limited(t reflect.Type, lvl, cap int) []reflect.Value {
	for {
		vs := g.vals(t, lvl)
		if cap == 0 || len(vs) <= cap {
			return vs
		}
		if lvl >= lvlMax {
			return vs[:cap]
		}
		lvl++
	}
}

func conv(v interface{}, t reflect.Type) reflect.Value { return reflect.ValueOf(v).Convert(t) }

func (g *gen) vals1(t reflect.Type, lvl, depth int) []reflect.Value {
	zero := reflect.New(t).Elem()
	if depth > g.maxDepth {
		return []reflect.Value{zero}
	}
	if g.custom != nil {
		if l, ok := g.custom(t); ok {
			return l
		}
	}
	if t == tTime {
		var out []reflect.Value
		for _, v := range timeVals(lvl) {
			out = append(out, reflect.ValueOf(v))
		}
		return out
	}
	if um, ok := reflect.PtrTo(t).MethodByName("UnmarshalAmino"); ok {
		var out []reflect.Value
		for _, rv := range g.vals1(um.Type.In(1), lvl, depth+1) {
			p := reflect.New(t)
			if e := p.MethodByName("UnmarshalAmino").Call([]reflect.Value{rv}); e[0].IsNil() {
				out = append(out, p.Elem())
			}
		}
		return out
	}
	var out []reflect.Value
	addC := func(v interface{}) { out = append(out, conv(v, t)) }
	switch t.Kind() {
	case reflect.Bool:
		addC(false)
		addC(true)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		for _, v := range intVals(t.Bits(), lvl) {
			addC(v)
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		for _, v := range uintVals(t.Bits(), lvl) {
			addC(v)
		}
	case reflect.Float32, reflect.Float64:
		for _, v := range floatVals(lvl) {
			addC(v)
		}
	case reflect.String:
		for _, v := range stringVals(lvl) {
			addC(v)
		}
		if g.badUTF8 && lvl == 0 {
			addC("\xff\xfe")
		}
	case reflect.Ptr:
		out = append(out, zero)
		for _, v := range g.vals1(t.Elem(), lvl, depth+1) {
			out = append(out, ptrTo(v))
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			for _, b := range byteVals(lvl) {
				v := reflect.Zero(t)
				if b != nil {
					v = reflect.MakeSlice(t, len(b), len(b))
					for i := range b {
						v.Index(i).SetUint(uint64(b[i]))
					}
				}
				out = append(out, v)
			}
			break
		}
		out = append(out, zero, reflect.MakeSlice(t, 0, 0))
		mk := func(es ...reflect.Value) {
			v := reflect.MakeSlice(t, len(es), len(es)+1)
			for i, e := range es {
				v.Index(i).Set(e)
			}
			out = append(out, v)
		}
		l1 := g.vals1(t.Elem(), lvl, depth+1)
		for _, a := range l1 {
			mk(a)
		}
		l2 := g.vals1(t.Elem(), lvl+1, depth+2)
		if len(l2) > 5 {
			l2 = l2[:5]
		}
		if lvl < lvlMax {
			for _, a := range l2 {
				for _, b := range l2 {
					mk(a, b)
				}
			}
			if len(l2) > 1 {
				mk(l2[len(l2)-1], l2[0], l2[1])
				mk(l2[0], l2[0], l2[0])
			}
		}
		if lvl == 0 && len(l1) > 0 {
			var many []reflect.Value
			for i := 0; i < 130; i++ {
				many = append(many, l1[i%len(l1)])
			}
			mk(many...)
		}
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			out = append(out, zero)
			if t.Len() > 0 {
				v := reflect.New(t).Elem()
				for i := 0; i < v.Len(); i++ {
					v.Index(i).SetUint(uint64(i + 200))
				}
				out = append(out, v)
				if lvl == 0 {
					v = reflect.New(t).Elem()
					v.Index(v.Len() - 1).SetUint(1)
					out = append(out, v)
				}
			}
			break
		}
		el := g.vals1(t.Elem(), lvl+1, depth+1)
		if t.Len() == 1 {
			el = g.vals1(t.Elem(), lvl, depth+1)
		}
		out = product(t, t.Len(), func(v reflect.Value, i int) reflect.Value { return v.Index(i) },
			func(int) []reflect.Value { return el }, 60)
	case reflect.Struct:
		var idx []int
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath == "" && f.Tag.Get("json") != "-" {
				idx = append(idx, i)
			}
		}
		flvl := lvl
		if len(idx) > 1 {
			flvl++
		}
		if len(idx) > 4 {
			flvl++
		}
		fv := make([][]reflect.Value, len(idx))
		for i, fi := range idx {
			fv[i] = g.vals1(t.Field(fi).Type, flvl, depth+1)
		}
		capN := 300 >> uint(2*lvl)
		if depth > 0 {
			capN >>= 2
		}
		if len(idx) == 1 || capN < 4 {
			capN = 4
		}
		if len(idx) == 1 {
			capN = 1 << 20
		}
		out = product(t, len(idx), func(v reflect.Value, i int) reflect.Value { return v.Field(idx[i]) },
			func(i int) []reflect.Value { return fv[i] }, capN)
	case reflect.Map:
		out = append(out, zero, reflect.MakeMap(t))
		kv := g.vals1(t.Key(), 1, depth+1)
		ev := g.vals1(t.Elem(), lvl+1, depth+1)
		for _, e := range ev {
			m := reflect.MakeMap(t)
			m.SetMapIndex(kv[len(kv)-1], e)
			out = append(out, m)
		}
		if len(ev) > 1 && len(kv) > 1 {
			m := reflect.MakeMap(t)
			for i, k := range kv {
				m.SetMapIndex(k, ev[i%len(ev)])
			}
			out = append(out, m)
		}
	case reflect.Interface:
		out = append(out, zero)
		if lvl > lvlMax || depth >= g.maxDepth-1 {
			return out
		}
		n := 0
		for _, rc := range g.setup.concs {
			ct := reflect.TypeOf(rc.o)
			if !ct.Implements(t) {
				continue
			}
			if lvl >= 2 && n >= 3 {
				break
			}
			vs := g.vals1(ct, lvl+1, depth+2)
			k := 0
			for _, v := range vs {
				if v.Kind() == reflect.Ptr && v.IsNil() {
					continue
				}
				k++
				if (lvl >= 1 && k > 3) || k > 8 {
					break
				}
				iv := reflect.New(t).Elem()
				iv.Set(v)
				out = append(out, iv)
				if v.Kind() != reflect.Ptr && reflect.PtrTo(ct).Implements(t) && k == 2 && lvl == 0 {
					iv := reflect.New(t).Elem()
					iv.Set(ptrTo(v))
					out = append(out, iv)
				}
			}
			n++
		}
	default:
		out = append(out, zero)
	}
	return out
}

func ptrTo(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

// product enumerates the product of n alphabets, if it has at most cap
// elements; else every value of every position with the others first at their
// first and then at their last value, and all pairs of the last values.
func product(t reflect.Type, n int, at func(reflect.Value, int) reflect.Value, alpha func(int) []reflect.Value, cap int) []reflect.Value {
	total := 1
	for i := 0; i < n && total <= cap; i++ {
		total *= len(alpha(i))
	}
	var out []reflect.Value
	mk := func(pick func(i int) int) {
		v := reflect.New(t).Elem()
		for i := 0; i < n; i++ {
			a := alpha(i)
			at(v, i).Set(a[pick(i)])
		}
		out = append(out, v)
	}
	if total <= cap {
		idx := make([]int, n)
		for k := 0; k < total; k++ {
			r := k
			for i := n - 1; i >= 0; i-- {
				idx[i] = r % len(alpha(i))
				r /= len(alpha(i))
			}
			mk(func(i int) int { return idx[i] })
		}
		return out
	}
	last := func(i int) int { return len(alpha(i)) - 1 }
	mk(func(int) int { return 0 })
	mk(last)
	for p := 0; p < n; p++ {
		for x := 1; x < len(alpha(p)); x++ {
			mk(func(i int) int {
				if i == p {
					return x
				}
				return 0
			})
			if x < len(alpha(p))-1 {
				mk(func(i int) int {
					if i == p {
						return x
					}
					return last(i)
				})
			}
		}
		mk(func(i int) int {
			if i == p {
				return 0
			}
			return last(i)
		})
	}
	return out
}
