package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync/atomic"
	"unicode/utf8"

	amino "github.com/tendermint/go-amino"
)

func init() {
	props["C13"] = propC13
	props["C14"] = propC14
	props["C15"] = propC15
}

// jsonCtors applies the constructors that only JSON supports.
func jsonCtors(l spec, deep bool) []spec {
	t := l.t
	var out []spec
	add := func(n string, t reflect.Type) { out = append(out, l.with(n+l.name, t)) }
	str, mystr := rt(""), rt(MyString(""))
	add("map[string]", reflect.MapOf(str, t))
	add("map[MyString]", reflect.MapOf(mystr, t))
	if deep || l.name == "int" || l.name == "string" || l.name == "AmStruct" {
		add("map[JKey]", reflect.MapOf(rt(JKey("")), t))
	}
	add("*map[string]", reflect.PtrTo(reflect.MapOf(str, t)))
	add("[]map[string]", reflect.SliceOf(reflect.MapOf(str, t)))
	if t.Kind() != reflect.Interface {
		add("map[string]*", reflect.MapOf(str, reflect.PtrTo(t)))
	}
	if isByteList(t) || !isList(t) || deep {
		add("map[string][]", reflect.MapOf(str, reflect.SliceOf(t)))
		add("[][]", reflect.SliceOf(reflect.SliceOf(t)))
		add("[2][]", reflect.ArrayOf(2, reflect.SliceOf(t)))
	}
	if deep {
		add("map[string]map[string]", reflect.MapOf(str, reflect.MapOf(mystr, t)))
		add("[][2]", reflect.SliceOf(reflect.ArrayOf(2, t)))
		add("[]*map[string]", reflect.SliceOf(reflect.PtrTo(reflect.MapOf(str, t))))
		add("[]*[]", reflect.SliceOf(reflect.PtrTo(reflect.SliceOf(t))))
	}
	return out
}

// jsonSpace are the types for JSON.
func jsonSpace(thorough bool) []typeCase {
	var out []typeCase
	seen := map[string]bool{}
	add := func(key string, t reflect.Type, lvl, cap int) {
		if !seen[key] {
			seen[key] = true
			out = append(out, typeCase{key: key, t: t, lvl: lvl, cap: cap})
		}
	}
	capN := 60
	if thorough {
		capN = 800
	}
	leaves := allLeaves()
	leaves = append(leaves, spec{name: "JVal", t: rt(JVal{})})
	for _, l := range leaves {
		if l.bin != "" {
			continue
		}
		ss := append(ctors(l, thorough), jsonCtors(l, thorough)...)
		for _, s := range ss {
			if s.am == "" && s.t.Kind() != reflect.Interface {
				add("T:"+s.name, s.t, 0, 0)
			}
			om := s
			om.js, om.name = ",omitempty", s.name+"+omitempty"
			for _, f := range []spec{s, om} {
				n := f.name
				add("{"+n+"}", structOf(f), 0, 0)
				add("{"+n+",int}", structOf(f, sInt), 1, capN)
				add("{[]string,"+n+",*int}", structOf(sStrs, f, sPtr), 1, capN)
				one := structOf(f)
				add("[]{"+n+"}", reflect.SliceOf(one), 1, capN)
				add("map[string]{"+n+"}", reflect.MapOf(rt(""), one), 1, capN)
				add("{{"+n+"},int}", structOf(spec{t: one}, sInt), 1, capN)
				add("{*{"+n+"}+omitempty,int}", structOf(spec{t: reflect.PtrTo(one), js: "p,omitempty"}, sInt), 1, capN)
				if thorough {
					add("{{"+n+"}+omitempty,int}", structOf(spec{t: one, js: "o,omitempty"}, sInt), 1, capN)
					add("{[2]{"+n+"},int}", structOf(spec{t: reflect.ArrayOf(2, one)}, sInt), 1, capN)
					add("[]*{"+n+",string}", reflect.SliceOf(reflect.PtrTo(structOf(f, sStr))), 1, capN)
				}
			}
		}
	}
	out = append(out, handTypes()...)
	for _, c := range baseSetup.concs {
		t := deref(reflect.TypeOf(c.o))
		add("R:"+t.Name(), t, 0, 0)
		add("R:*"+t.Name(), reflect.PtrTo(t), 0, 0)
	}
	return out
}

// C13: JSON round trip.
func propC13(c *Ctx) {
	textMethods(c)
	cases := append(jsonSpace(c.Thorough), sizeSpace(c.Thorough, 'j')...)
	m := newModel(baseSetup)
	g := newGen(baseSetup)
	var skipped int64
	c.Assume("strings and map keys are valid UTF-8; no two fields share a JSON name; MarshalJSON methods have value receivers")
	c.forTypes(cases, func(w int, tc typeCase, cdc *amino.Codec) {
		if strings.Contains(tc.key, "string with invalid") {
			return
		}
		for vi, v := range c.valuesOf(g, tc) {
			if _, err := m.marshalJSON(v); err != nil {
				atomic.AddInt64(&skipped, 1)
				continue
			}
			what := func() string { return fmt.Sprintf("value #%d of %v: %s", vi, goType(tc.t), show(v)) }
			want := m.normJ(v, eopts{})
			b, err := cdc.MarshalJSON(v.Interface())
			if err != nil {
				c.Violate(tc.key, "MarshalJSON: %v; %s", err, what())
				return
			}
			ind, err := cdc.MarshalJSONIndent(v.Interface(), "\t", "  ")
			if err != nil {
				c.Violate(tc.key, "MarshalJSONIndent: %v; %s", err, what())
				return
			}
			for _, text := range [][]byte{b, ind} {
				p := reflect.New(tc.t)
				if err := cdc.UnmarshalJSON(text, p.Interface()); err != nil {
					c.Violate(tc.key, "UnmarshalJSON(%s): %v; %s", text, err, what())
					return
				}
				if d := diff(want, p.Elem()); d != "" {
					c.Violate(tc.key, "decoding %s gives a different value, at %s; %s; got %s", text, d, what(), show(p.Elem()))
					return
				}
			}
			c.State(1)
			c.Transition(4)
			c.Trace(1)
			if len(b) > 20 && strings.Contains(tc.key, "I1") {
				c.Sample("interface", "%s -> %s", what(), b)
			} else if len(b) > 10 {
				c.Sample("value", "%s -> %s", what(), b)
			}
		}
	})
	c.Bound("values_refused_by_the_model", skipped)
}

// textMethods: whether or not the methods are honoured, the value comes back.
func textMethods(c *Ctx) {
	g := newGen(baseSetup)
	var types []reflect.Type
	for _, v := range []interface{}{JTxtS(""), JTxtI(0), JTxtL(0), JTxtB(false)} {
		l := spec{name: rt(v).Name(), t: rt(v)}
		for _, s := range append(ctors(l, true), jsonCtors(l, true)...) {
			types = append(types, s.t, structOf(s, sInt))
			s.js = "n,omitempty"
			types = append(types, structOf(s), reflect.MapOf(rt(v), s.t))
			if rt(v).Kind() != reflect.String {
				types = types[:len(types)-1]
			}
		}
	}
	c.Bound("types_with_text_methods", len(types))
	m := newModel(baseSetup)
	cdc := baseSetup.codec()
	c.Parallel(len(types), func(w, i int) {
		t := types[i]
		key := "text methods " + t.String()
		c.Case(w, key, func() {
			for _, v := range g.limited(t, 1, 40) {
				want := m.normJ(v, eopts{})
				b, err := cdc.MarshalJSON(v.Interface())
				p := reflect.New(t)
				if err == nil {
					err = cdc.UnmarshalJSON(b, p.Interface())
				}
				c.State(1)
				c.Transition(2)
				c.Trace(1)
				if err != nil || diff(want, p.Elem()) != "" {
					c.Violate(key, "%s encodes to %s and decodes to %s, %v", show(v), b, show(p.Elem()), err)
					return
				}
			}
		})
	})
}

// C14: the output is the document that the reference encoder says.
func propC14(c *Ctx) {
	cases := append(jsonSpace(c.Thorough), sizeSpace(c.Thorough, 'j')...)
	m := newModel(baseSetup)
	g := newGen(baseSetup)
	g.badUTF8 = true
	c.Assume("documents are compared as parsed by encoding/json: order of keys, strings, literal numbers by value")
	c.forTypes(cases, func(w int, tc typeCase, cdc *amino.Codec) {
		for vi, v := range c.valuesOf(g, tc) {
			want, err := m.marshalJSON(v)
			if err != nil {
				continue
			}
			what := func() string { return fmt.Sprintf("value #%d of %v: %s", vi, goType(tc.t), show(v)) }
			b, err := cdc.MarshalJSON(v.Interface())
			if err != nil {
				c.Violate(tc.key, "MarshalJSON: %v; %s", err, what())
				return
			}
			if !utf8.Valid(b) {
				c.Violate(tc.key, "MarshalJSON gives %+q, which isn't valid UTF-8; %s", b, what())
				return
			}
			got, err := jparse(b)
			if err != nil {
				c.Violate(tc.key, "MarshalJSON gives %s: %v; %s", b, err, what())
				return
			}
			if d := jdiff(want, got, ""); d != "" {
				c.Violate(tc.key, "MarshalJSON gives %s, different at %s; %s", b, d, what())
				return
			}
			b2, err := cdc.MarshalJSON(v.Interface())
			if err != nil || !bytes.Equal(b, b2) {
				c.Violate(tc.key, "MarshalJSON gives %s and then %s (%v); %s", b, b2, err, what())
				return
			}
			ind, err := cdc.MarshalJSONIndent(v.Interface(), ">", "\t")
			var buf bytes.Buffer
			json.Indent(&buf, b, ">", "\t")
			if err != nil || !bytes.Equal(ind, buf.Bytes()) {
				c.Violate(tc.key, "MarshalJSONIndent gives %s (%v), want %s; %s", ind, err, buf.Bytes(), what())
				return
			}
			c.State(1)
			c.Transition(3)
			c.Trace(1)
			if len(b) > 20 {
				c.Sample("document", "%v %s -> %s", goType(tc.t), show(v), b)
			}
		}
	})
}

// ---- C15

var jAtoms = []*jnode{
	jnull(), jbool(true), jbool(false), jnum("0"), jnum("-1"), jnum("127"), jnum("128"), jnum("-128"), jnum("-129"), jnum("255"), jnum("256"),
	jnum("-32769"), jnum("65536"), jnum("2147483648"), jnum("4294967296"), jnum("1.5"), jnum("1e2"), jnum("1e400"), jnum("1e39"), jnum("-0"),
	jstr(""), jstr("a"), jstr("\x00é\""), jstr("0"), jstr("-1"), jstr("5"), jstr("05"), jstr("+5"), jstr("1.5"), jstr("1e2"), jstr(" 5"), jstr("5 "), jstr("null"), jstr("0x5"), jstr("1_0"), jstr("-"),
	jstr("9223372036854775807"), jstr("9223372036854775808"), jstr("-9223372036854775808"), jstr("-9223372036854775809"),
	jstr("18446744073709551615"), jstr("18446744073709551616"),
	jstr("AQID"), jstr("AQIDBA=="), jstr("AQI"), jstr("!!!!"), jstr("AQ=="),
	jstr("2020-02-29T01:02:03.5Z"), jstr("2019-02-29T01:02:03Z"), jstr("2020-01-01T00:00:00+01:00"), jstr("2020-01-01T00:00:00"), jstr("2020-01-01T24:00:00Z"), jstr("Z"), jstr("0001-01-01T00:00:00Z"), jstr("9999-12-31T23:59:59.999999999Z"), jstr("10000-01-01T00:00:00Z"),
	jlist(), jlist(jnull()), jlist(jnum("1"), jnum("2")), jlist(jstr("1"), jstr("2")), jlist(jlist()), jlist(jobj()),
	jobj(), jobj().put("F1", jnull()), jobj().put("A", jstr("1")), jobj().put("x", jnum("1")).put("y", jstr("5")),
	jobj().put("type", jstr("c/struct")).put("value", jobj().put("A", jstr("7"))),
	jobj().put("type", jstr("c/int")).put("value", jstr("7")),
	jobj().put("value", jstr("7")).put("type", jstr("c/int")),
	jobj().put("type", jstr("c/int")).put("value", jnull()),
	jobj().put("type", jstr("c/ptr")).put("value", jnull()),
	jobj().put("type", jstr("c/int")).put("value", jnum("7")),
	jobj().put("type", jstr("c/int")),
	jobj().put("value", jstr("7")),
	jobj().put("type", jstr("")).put("value", jstr("7")),
	jobj().put("type", jnull()).put("value", jstr("7")),
	jobj().put("type", jnum("1")).put("value", jstr("7")),
	jobj().put("type", jstr("nope")).put("value", jstr("7")),
	jobj().put("type", jstr("c/only2")).put("value", jobj()),
	jobj().put("type", jstr(collName1)).put("value", jobj()),
	jobj().put("type", jstr("c/int")).put("value", jstr("7")).put("z", jnum("1")),
	jobj().put("type", jstr("c/ami")).put("value", jstr("7")),
	jobj().put("type", jstr("c/nest")).put("value", jobj().put("I", jobj().put("type", jstr("c/i8")).put("value", jnum("300")))),
}

// edits calls f with every document that differs from n in one place.
func (n *jnode) edits(f func(*jnode)) {
	root := n.copy()
	var rec func(at *jnode)
	rec = func(at *jnode) {
		save := *at
		for _, a := range jAtoms {
			*at = *a
			f(root)
		}
		*at = *jlist(save.copy())
		f(root)
		*at = *jobj().put("F1", save.copy())
		f(root)
		*at = save
		with := func(keys []string, items []*jnode) {
			at.keys, at.items = keys, items
			f(root)
			at.keys, at.items = save.keys, save.items
		}
		cut := func(i int) ([]string, []*jnode) {
			its := append(append([]*jnode{}, save.items[:i]...), save.items[i+1:]...)
			if at.k != '{' {
				return nil, its
			}
			return append(append([]string{}, save.keys[:i]...), save.keys[i+1:]...), its
		}
		if at.k == '[' || at.k == '{' {
			for i := range save.items {
				with(cut(i))
				if i > 3 {
					break
				}
			}
		}
		if at.k == '[' {
			with(nil, append(append([]*jnode{}, save.items...), jnull()))
			if len(save.items) > 0 {
				with(nil, append(append([]*jnode{}, save.items...), save.items[0]))
			}
		}
		if at.k == '{' {
			for _, k := range []string{"zzz", "F1", "type", "f1"} {
				if save.contains(k) {
					continue
				}
				with(append(append([]string{}, save.keys...), k), append(append([]*jnode{}, save.items...), jobj().put("q", jlist(jnum("1")))))
				with(append([]string{k}, save.keys...), append([]*jnode{jnull()}, save.items...))
			}
			if l := len(save.items); l > 1 { // rotate
				with(append(append([]string{}, save.keys[1:]...), save.keys[0]), append(append([]*jnode{}, save.items[1:]...), save.items[0]))
				if l > 2 {
					with(append(append([]string{}, save.keys[l-1:]...), save.keys[:l-1]...), append(append([]*jnode{}, save.items[l-1:]...), save.items[:l-1]...))
				}
			}
			for i := range save.keys {
				for _, k := range []string{"", save.keys[i] + "x", strings.ToUpper(save.keys[i]), strings.ToLower(save.keys[i])} {
					if k == save.keys[i] || save.contains(k) {
						continue
					}
					ks := append([]string{}, save.keys...)
					ks[i] = k
					with(ks, save.items)
				}
				if i > 5 {
					break
				}
			}
		}
		for i, e := range save.items {
			if i > 3 {
				break
			}
			rec(e)
		}
	}
	rec(root)
}

// drops calls f with copies of the document in which an object lacks one of its
// keys, or all of them, or in which a value is null, at most max times.
func (n *jnode) drops(max int, f func(*jnode)) {
	root := n.copy()
	var rec func(at *jnode)
	emit := func() {
		if max--; max >= 0 {
			f(root.copy())
		}
	}
	rec = func(at *jnode) {
		if max <= 0 {
			return
		}
		save := *at
		if at.k == '{' && len(save.items) > 0 {
			at.keys, at.items = nil, nil
			emit()
			for i := range save.items {
				if i >= 8 {
					break
				}
				at.keys = append(append([]string{}, save.keys[:i]...), save.keys[i+1:]...)
				at.items = append(append([]*jnode{}, save.items[:i]...), save.items[i+1:]...)
				emit()
			}
		}
		if at.k != 'n' {
			*at = *jnull()
			emit()
		}
		*at = save
		for i, e := range save.items {
			if i > 3 {
				break
			}
			rec(e)
		}
	}
	rec(root)
}

func (n *jnode) contains(k string) bool { return n.get(k) != nil }

// jTokens for sequences of tokens that needn't be valid JSON.
var jTokens = []string{"{", "}", "[", "]", ",", ":", "null", "true", "0", "-1", "1.5", "300", `""`, `"a"`, `"5"`, `"F1"`, `"AQID"`,
	`"2020-01-01T00:00:00Z"`, `"type"`, `"value"`, `"c/int"`, `"`, " ", "nul", `\`, "\xff", `"\u00`}

func propC15(c *Ctx) {
	m := newModel(baseSetup)
	g := newGen(baseSetup)
	cases := jsonSpace(false)
	if !c.Thorough { // contexts matter less here than documents
		var few []typeCase
		for _, tc := range cases {
			if strings.HasPrefix(tc.key, "map[string]{") || strings.HasPrefix(tc.key, "{[]string") || strings.HasPrefix(tc.key, "[]{") {
				continue
			}
			few = append(few, tc)
		}
		cases = few
	}
	counts := make([]map[string]int64, len(c.slots))
	for i := range counts {
		counts[i] = map[string]int64{}
	}
	filled := make([]struct {
		t  reflect.Type
		vs []reflect.Value
	}, len(c.slots))
	one := func(w int, tc typeCase, cdc *amino.Codec, text []byte, doc *jnode) bool {
		if !canDecodeTop(tc.t) {
			return false
		}
		c.State(1)
		c.Trace(1)
		fl := &filled[w]
		if fl.t != tc.t {
			fl.t, fl.vs = tc.t, g.limited(tc.t, 2, 6)
		}
		olds := []reflect.Value{reflect.Zero(tc.t)}
		if n := len(fl.vs); n > 0 {
			olds = append(olds, fl.vs[len(text)%n])
		}
		var perr error
		if doc == nil {
			doc, perr = jparse(text)
		}
		for oi, old := range olds {
			p := reflect.New(tc.t)
			p.Elem().Set(clone(old))
			in := exact(text)
			var err error
			if pv := try(func() { err = cdc.UnmarshalJSON(in, p.Interface()) }); pv != nil {
				c.Violate(tc.key, "UnmarshalJSON(%s) into %v panics: %v", text, goType(tc.t), pv)
				return false
			}
			c.Transition(1)
			want, werr := reflect.Value{}, perr
			if perr == nil {
				want, werr = m.unmarshalNode(doc, tc.t, old)
			}
			cls := "accepted"
			if werr == errDontCare {
				cls = "unspecified"
			} else if (err == nil) != (werr == nil) {
				c.Violate(tc.key, "UnmarshalJSON(%s) into %v: error %v, but the model says %v", text, goType(tc.t), err, werr)
				return false
			} else if err != nil {
				cls = "rejected"
				if oi == 0 && len(text) > 10 {
					c.Sample("rejected", "%s as %v: %v", text, goType(tc.t), err)
				}
			} else if d := diff(want, p.Elem()); d != "" {
				c.Violate(tc.key, "UnmarshalJSON(%s) into %v holding %s gives %s, want %s (%s)", text, goType(tc.t), show(old), show(p.Elem()), show(want), d)
				return false
			} else if len(text) > 10 {
				c.Sample("accepted", "%s as %v: %s", text, goType(tc.t), show(want))
			}
			if oi == 0 {
				counts[w][cls]++
			}
		}
		return true
	}
	nvals, npair := 2, 0
	if c.Thorough {
		nvals, npair = 12, 1
	}
	c.forTypes(cases, func(w int, tc typeCase, cdc *amino.Codec) {
		ok := true
		try1 := func(text []byte) {
			if ok {
				ok = one(w, tc, cdc, text, nil)
			}
		}
		tryN := func(d *jnode) {
			if ok {
				ok = one(w, tc, cdc, []byte(d.text()), d)
			}
		}
		for _, a := range jAtoms {
			try1([]byte(a.text()))
			try1([]byte(" " + a.text() + "\n"))
		}
		tc.lvl, tc.cap = 1, 60
		vs := c.valuesOf(g, tc)
		docs := 0
		seen := map[string]bool{}
		for i := len(vs) - 1; i >= 0 && ok; i-- { // fullest first
			doc, err := m.marshalJSON(vs[i])
			if err != nil {
				continue
			}
			text := doc.text()
			if seen[text] || len(text) > 300 {
				continue
			}
			seen[text] = true
			try1([]byte(text))
			if docs++; docs > nvals || !c.Thorough && strings.Contains(tc.key, ",int}") {
				continue
			}
			doc.edits(tryN)
			if docs <= npair && len(text) < 60 {
				doc.edits(func(d *jnode) {
					if ok {
						d.edits(tryN)
					}
				})
			}
			if docs <= 2 { // truncated and damaged text
				for i := 0; i < len(text); i++ {
					try1([]byte(text[:i]))
					try1([]byte(text[:i] + text[i+1:]))
					for _, x := range []string{"\"", "}", "]", ",", "\\", " ", "\x00"} {
						try1([]byte(text[:i] + x + text[i:]))
					}
				}
				try1([]byte(text + text))
				try1([]byte(text + "x"))
			}
		}
	})
	// Sequences of tokens.
	depth := 3
	if c.Thorough {
		depth = 4
	}
	var tcs []typeCase
	for _, tc := range cases {
		if strings.HasPrefix(tc.key, "T:") || strings.HasPrefix(tc.key, "R:") {
			if c.Thorough || !strings.ContainsAny(tc.key[3:], "{*") && !strings.Contains(tc.key, "[2]") && !strings.Contains(tc.key, "[0]") && !strings.Contains(tc.key, "[1]") && !strings.Contains(tc.key, "MyS") && !strings.Contains(tc.key, "[]map") && !strings.Contains(tc.key, "[][]") {
				tcs = append(tcs, tc)
			}
		}
	}
	for _, x := range []interface{}{new(I1), new(I2), new(I3)} {
		t := rt(x).Elem()
		tcs = append(tcs, typeCase{key: "T:" + t.Name(), t: t})
	}
	c.Bound("token_sequences_up_to", depth)
	c.Bound("token_sequence_types", len(tcs))
	c.forTypes(tcs, func(w int, tc typeCase, cdc *amino.Codec) {
		key := tc.key
		var rec func(b []byte, left int) bool
		rec = func(b []byte, left int) bool {
			tc.key = key
			if !one(w, tc, cdc, b, nil) {
				return false
			}
			if left == 0 {
				return true
			}
			for _, x := range jTokens {
				if !rec(append(b[:len(b):len(b)], x...), left-1) {
					return false
				}
			}
			return true
		}
		rec(nil, depth)
	})
	for _, m := range counts {
		c.AddOutcomes(m)
	}
}
