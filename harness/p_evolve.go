package main

import (
	"fmt"
	"reflect"
	"strings"

	amino "github.com/tendermint/go-amino"
)

func init() { props["C19"] = propC19 }

// convert maps a value to another version of its type: structs field by field
// (missing ones at their defaults), interfaces by dyn.
func convert(v reflect.Value, t reflect.Type, dyn map[reflect.Type]reflect.Type) reflect.Value {
	if v.Type() == t {
		return v
	}
	out := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			out.Set(ptrTo(convert(v.Elem(), t.Elem(), dyn)))
		}
	case reflect.Slice:
		if !v.IsNil() {
			out.Set(reflect.MakeSlice(t, v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				out.Index(i).Set(convert(v.Index(i), t.Elem(), dyn))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(convert(v.Index(i), t.Elem(), dyn))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if i < v.NumField() {
				out.Field(i).Set(convert(v.Field(i), t.Field(i).Type, dyn))
			} else {
				out.Field(i).Set(defaultOf(t.Field(i).Type))
			}
		}
	}
	if v.Kind() == reflect.Struct && t.NumField() < v.NumField() && t.NumField() == 0 {
		return out
	}
	return out
}

// convertDyn is convert for values with interfaces that hold versioned types.
func convertDyn(v reflect.Value, t reflect.Type, dyn map[reflect.Type]reflect.Type) reflect.Value {
	out := reflect.New(t).Elem()
	switch {
	case t.Kind() == reflect.Interface:
		if v.IsNil() {
			return out
		}
		e := v.Elem()
		if to, ok := dyn[e.Type()]; ok {
			e = convertDyn(e, to, dyn)
		}
		out.Set(e)
		return out
	case t.Kind() == reflect.Ptr && !v.IsNil():
		out.Set(ptrTo(convertDyn(v.Elem(), t.Elem(), dyn)))
		return out
	case t.Kind() == reflect.Slice && !v.IsNil():
		out.Set(reflect.MakeSlice(t, v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(convertDyn(v.Index(i), t.Elem(), dyn))
		}
		return out
	case t.Kind() == reflect.Struct && t != v.Type() || t.Kind() == reflect.Struct && len(dyn) > 0 && t.Name() == "":
		for i := 0; i < t.NumField(); i++ {
			if i < v.NumField() {
				out.Field(i).Set(convertDyn(v.Field(i), t.Field(i).Type, dyn))
			} else {
				out.Field(i).Set(defaultOf(t.Field(i).Type))
			}
		}
		return out
	}
	return convert(v, t, dyn)
}

// wrap puts a versioned struct type in a context.
var evoContexts = []struct {
	name string
	f    func(t reflect.Type) reflect.Type
}{
	{"T:", func(t reflect.Type) reflect.Type { return t }},
	{"{}", func(t reflect.Type) reflect.Type { return structOf(spec{t: t}, sInt) }},
	{"{*}", func(t reflect.Type) reflect.Type { return structOf(sStr, spec{t: reflect.PtrTo(t)}, sStrs) }},
	{"{[]}", func(t reflect.Type) reflect.Type { return structOf(spec{t: reflect.SliceOf(t)}, sInt) }},
	{"{[]*}", func(t reflect.Type) reflect.Type {
		return structOf(spec{t: reflect.SliceOf(reflect.PtrTo(t))}, sInt)
	}},
	{"{[]*}+empty", func(t reflect.Type) reflect.Type {
		return structOf(spec{t: reflect.SliceOf(reflect.PtrTo(t)), am: "empty_elements"}, sStr)
	}},
	{"[2]", func(t reflect.Type) reflect.Type { return reflect.ArrayOf(2, t) }},
	{"{{*{}}}", func(t reflect.Type) reflect.Type {
		return structOf(spec{t: structOf(spec{t: reflect.PtrTo(structOf(spec{t: t}, sI8))}, sInt)}, sStr)
	}},
}

func evoName(fs []spec) string {
	s := ""
	for _, f := range fs {
		s += f.name + ","
	}
	return s
}

// C19: structs extended by fields at the end.
func propC19(c *Ctx) {
	m := newModel(baseSetup)
	g := newGen(baseSetup)
	type pair struct {
		base, ext []spec
		ctx       int // -1: in an interface
	}
	var pairs []pair
	var specs, few []spec
	seen := map[string]bool{}
	for _, l := range allLeaves() {
		for _, s := range ctors(l, c.Thorough) {
			if s.t.Kind() == reflect.Ptr && s.t.Elem().Kind() == reflect.Ptr && !c.Thorough {
				continue
			}
			// A representation of another wire type than the type's is a
			// finding of C02: such fields don't parse.
			if !seen[s.name] && !mismatched(structOf(s), map[reflect.Type]bool{}) {
				seen[s.name] = true
				specs = append(specs, s)
			}
		}
	}
	few = []spec{sInt, sStrs, {name: "time", t: tTime}, {name: "*reprXY", t: rt(&reprXY{})}, {name: "[]reprXY", t: rt([]reprXY{})}, {name: "float64", t: rt(1.0), am: "unsafe"}, {name: "I1", t: tI1}, {name: "fixed32", t: rt(int32(0)), bin: "fixed32"}}
	var many []spec
	for i := 0; i < 14; i++ {
		many = append(many, sI8)
	}
	ctxs := func(f func(ctx int)) {
		for i := -1; i < len(evoContexts); i++ {
			f(i)
		}
	}
	for _, e := range specs {
		e := e
		ctxs(func(x int) {
			pairs = append(pairs, pair{nil, []spec{e}, x}, pair{[]spec{sInt}, []spec{e, sStr}, x}, pair{[]spec{sStrs}, []spec{e}, x})
			if x <= 1 || c.Thorough {
				pairs = append(pairs, pair{append(many[:14:14], sStr), []spec{e, sInt}, x})
				if x == 0 {
					pairs = append(pairs, pair{many, []spec{sI8, e}, x})
				}
			}
			if x <= 1 || c.Thorough {
				for _, f := range few {
					pairs = append(pairs, pair{[]spec{e}, []spec{f}, x})
				}
			}
		})
	}
	c.Bound("type_pairs", len(pairs))
	evoSizes(c)
	c.Assume("no custom representation with another wire type than its type's (finding of C02)")
	anyT := reflect.TypeOf((*interface{})(nil)).Elem()
	base := baseSetup.codec()
	capN := 10
	if c.Thorough {
		capN = 60
	}
	c.Parallel(len(pairs), func(w, i int) {
		pr := pairs[i]
		ctx := "iface"
		if pr.ctx >= 0 {
			ctx = evoContexts[pr.ctx].name
		}
		key := fmt.Sprintf("%s {%s + %s}", ctx, evoName(pr.base), evoName(pr.ext))
		c.Case(w, key, func() {
			at, bt := structOf(pr.base...), structOf(append(pr.base[:len(pr.base):len(pr.base)], pr.ext...)...)
			oldC, newC := base, base
			mOld, mNew := m, m
			gOld, gNew := g, g
			toOld, toNew := map[reflect.Type]reflect.Type{}, map[reflect.Type]reflect.Type{}
			if pr.ctx < 0 {
				mk := func(t reflect.Type) (*amino.Codec, *Model, *gen) {
					s := Setup{append(baseSetup.ifaces[:3:3], regIface{(*interface{})(nil), nil}), append(baseSetup.concs[:3:3], regConc{reflect.Zero(t).Interface(), "evo"})}
					g := newGen(s)
					g.custom = func(x reflect.Type) ([]reflect.Value, bool) {
						if x != anyT {
							return nil, false
						}
						var out []reflect.Value
						for _, v := range newGen(baseSetup).limited(t, 1, capN) {
							iv := reflect.New(anyT).Elem()
							iv.Set(v)
							out = append(out, iv)
						}
						return out, true
					}
					return s.codec(), newModel(s), g
				}
				oldC, mOld, gOld = mk(at)
				newC, mNew, gNew = mk(bt)
				toOld[bt], toNew[at] = at, bt
				at, bt = structOf(spec{t: anyT}, spec{t: reflect.SliceOf(anyT)}, sInt), structOf(spec{t: anyT}, spec{t: reflect.SliceOf(anyT)}, sInt)
			} else {
				at, bt = evoContexts[pr.ctx].f(at), evoContexts[pr.ctx].f(bt)
			}
			step := func(dir string, g *gen, m *Model, from, to *amino.Codec, ft, tt reflect.Type, dyn map[reflect.Type]reflect.Type) bool {
				for _, v := range g.limited(ft, 1, capN) {
					if _, err := m.marshal(v); err != nil {
						continue
					}
					b, err := from.MarshalBinaryBare(v.Interface())
					if err != nil {
						c.Violate(key, "MarshalBinaryBare: %v; %s", err, show(v))
						return false
					}
					want := convertDyn(m.norm(v, eopts{num: 1}), tt, dyn)
					p := reflect.New(tt)
					var derr error
					if pv := try(func() { derr = to.UnmarshalBinaryBare(b, p.Interface()) }); pv != nil {
						derr = fmt.Errorf("panic: %v", pv)
					}
					c.State(1)
					c.Transition(2)
					c.Trace(1)
					if derr != nil {
						c.Violate(key, "%s: decoding %x (of %s) as %v: %v", dir, b, show(v), goType(tt), derr)
						return false
					}
					if d := diff(want, p.Elem()); d != "" {
						c.Violate(key, "%s: decoding %x (of %s) as %v gives %s, want %s (%s)", dir, b, show(v), goType(tt), show(p.Elem()), show(want), d)
						return false
					}
					if len(b) > 10 {
						c.Sample(dir, "%s as %v: %s -> %x", goType(ft), goType(tt), show(v), b)
					}
				}
				return true
			}
			_ = step("new to old", gNew, mNew, newC, oldC, bt, at, toOld) && step("old to new", gOld, mOld, oldC, newC, at, bt, toNew)
		})
	})
}

// evoSizes: added fields of all sizes, and any number of added fields.
func evoSizes(c *Ctx) {
	m := newModel(baseSetup)
	type pair struct {
		tc   typeCase
		keep int
	}
	var pairs []pair
	for _, tc := range sizeSpace(c.Thorough, 'b') {
		switch {
		case strings.HasPrefix(tc.key, "N:struct of "):
			n := tc.t.NumField()
			for _, k := range []int{0, 1, n / 2, n - 2, n - 1} {
				if k >= 0 && k < n {
					pairs = append(pairs, pair{tc, k})
				}
			}
		case strings.HasPrefix(tc.key, "N:top "):
			pairs = append(pairs, pair{tc, -1})
		}
	}
	c.Bound("type_pairs_with_sizes", len(pairs))
	c.Parallel(len(pairs), func(w, i int) {
		pr := pairs[i]
		key := fmt.Sprintf("%s keeping %d", pr.tc.key, pr.keep)
		c.Case(w, key, func() {
			at, bt := reflect.TypeOf(0), pr.tc.t
			vs := pr.tc.vs()
			if pr.keep < 0 {
				if mismatched(bt, map[reflect.Type]bool{}) {
					return
				}
				// Between fields that stay and that go.
				at = structOf(sInt)
				bt = structOf(sInt, spec{t: pr.tc.t}, sStr)
				for k, v := range vs {
					x := reflect.New(bt).Elem()
					x.Field(0).SetInt(int64(k + 1))
					x.Field(1).Set(v)
					x.Field(2).SetString("end")
					vs[k] = x
				}
			} else {
				var fs []reflect.StructField
				for k := 0; k < pr.keep; k++ {
					fs = append(fs, bt.Field(k))
				}
				at = reflect.StructOf(fs)
			}
			cdc := baseSetup.codec()
			step := func(dir string, v reflect.Value, to reflect.Type) bool {
				if _, err := m.marshal(v); err != nil {
					return true
				}
				b, err := cdc.MarshalBinaryBare(v.Interface())
				if err != nil {
					c.Violate(key, "MarshalBinaryBare: %v; %s", err, show(v))
					return false
				}
				want := convert(m.norm(v, eopts{num: 1}), to, nil)
				p := reflect.New(to)
				var derr error
				if pv := try(func() { derr = cdc.UnmarshalBinaryBare(b, p.Interface()) }); pv != nil {
					derr = fmt.Errorf("panic: %v", pv)
				}
				c.State(1)
				c.Transition(2)
				c.Trace(1)
				if derr != nil {
					c.Violate(key, "%s: decoding the %d bytes of %s: %v", dir, len(b), show(v), derr)
					return false
				}
				if d := diff(want, p.Elem()); d != "" {
					c.Violate(key, "%s: decoding the %d bytes of %s gives %s, want %s (%s)", dir, len(b), show(v), show(p.Elem()), show(want), d)
					return false
				}
				return true
			}
			for _, v := range vs {
				old := convert(v, at, nil)
				la, lb := reflect.SliceOf(at), reflect.SliceOf(bt)
				l := reflect.MakeSlice(lb, 2, 2)
				l.Index(0).Set(v)
				lo := reflect.MakeSlice(la, 2, 2)
				lo.Index(1).Set(old)
				if !step("new to old", v, at) || !step("old to new", old, bt) || !step("new to old, in lists", l, la) || !step("old to new, in lists", lo, lb) {
					return
				}
			}
		})
	})
}
