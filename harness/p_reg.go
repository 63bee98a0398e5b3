package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"

	amino "github.com/tendermint/go-amino"

	"verif/amc/ctlsync"
)

func init() {
	props["C12"] = propC12
	props["C17"] = propC17
}

type (
	QI1 interface{ Q1() }
	QI2 interface{ Q2() }
	QA  struct{ A int }
	QB  struct{ B int }
	QD  struct{ D string }
	QE  int
	QH1 struct{ I QI1 }
	QH2 struct{ I QI2 }
)

func (QA) Q1()  {}
func (QA) Q2()  {}
func (QB) Q1()  {}
func (QB) Q2()  {}
func (*QD) Q1() {}
func (QE) Q2()  {}

// regOp is a registration call.
type regOp struct {
	name    string
	iface   *regIface
	conc    *regConc
	seal    bool
	invalid bool
}

func regOps() []regOp {
	ri := func(n string, p interface{}, o *amino.InterfaceOptions) regOp {
		return regOp{name: n, iface: &regIface{p, o}}
	}
	rc := func(n string, o interface{}, name string) regOp {
		return regOp{name: n, conc: &regConc{o, name}}
	}
	inv := func(r regOp) regOp { r.invalid = true; return r }
	prio := &amino.InterfaceOptions{Priority: []string{collName2, collName1}}
	half := &amino.InterfaceOptions{Priority: []string{collName1, "q/d"}}
	var i1 QI1
	return []regOp{
		ri("I1", (*QI1)(nil), nil),
		ri("I1prio", (*QI1)(nil), prio),
		ri("I1half", (*QI1)(nil), half),
		ri("I2", (*QI2)(nil), nil),
		ri("I2always+prio", (*QI2)(nil), &amino.InterfaceOptions{AlwaysDisambiguate: true, Priority: prio.Priority}),
		rc("A", QA{}, collName1),
		rc("&A", &QA{}, collName1),
		rc("A'", QA{}, "q/a"),
		rc("B", QB{}, collName2),
		rc("B=A", QB{}, collName1),
		rc("&B'", &QB{}, "q/a"),
		rc("&D", &QD{}, "q/d"),
		rc("D", QD{}, collName2),
		rc("E", QE(0), "q/e"),
		rc("B#", QB{}, disfixName1),
		rc("E#", QE(0), disfixName2),
		{name: "Seal", seal: true},
		inv(ri("nonptr", QA{}, nil)),
		inv(ri("ptr-to-struct", &QA{}, nil)),
		inv(rc("ptr-to-iface", &i1, "q/i")),
		inv(rc("ptr-ptr", func() **QA { p := &QA{}; return &p }(), "q/pp")),
		inv(ri("nil iface", nil, nil)),
		inv(rc("nil conc", nil, "q/nil")),
	}
}

// apply calls the operation; misuse says that it would block forever.
func (o regOp) apply(cdc *amino.Codec) (panicked bool, misuse string) {
	pv := try(func() {
		switch {
		case o.seal:
			if cdc.Seal() != cdc {
				panic("Seal returns something else")
			}
		case o.iface != nil:
			cdc.RegisterInterface(o.iface.ptr, o.iface.opts)
		default:
			cdc.RegisterConcrete(o.conc.o, o.conc.name, nil)
		}
	})
	if b, ok := pv.(ctlsync.Blocked); ok {
		misuse = b.Msg
	}
	return pv != nil, misuse
}

// Two names with the same disambiguation and prefix bytes (found by search):
// only the first can be registered.
const disfixName1, disfixName2 = "51f663c77ee707", "47f2d04b2e2d65"

func disfixBoth(name string) (b [7]byte) {
	d, p := disfix(name)
	copy(b[copy(b[:], d[:]):], p[:])
	return
}

// regState is the model's state: what's been registered, in order.
type regState struct {
	s      Setup
	sealed bool
}

func (st regState) key() string {
	var b strings.Builder
	for _, i := range st.s.ifaces {
		fmt.Fprintf(&b, "i%v%v;", reflect.TypeOf(i.ptr), i.opts)
	}
	for _, c := range st.s.concs {
		fmt.Fprintf(&b, "c%T%s;", c.o, c.name)
	}
	fmt.Fprint(&b, st.sealed)
	return b.String()
}

func prioOK(m *Model) bool {
	for _, i := range m.ifaces {
		for _, c := range m.order {
			if reflect.PtrTo(c.t).Implements(i.t) && len(m.implementers(i.t, c.prefix)) > 1 && !i.prio[c.name] {
				return false
			}
		}
	}
	return true
}

// step is the model of a registration call.
func (st regState) step(o regOp) (regState, bool) {
	if o.seal {
		st.sealed = true
		return st, true
	}
	if st.sealed || o.invalid {
		return st, false
	}
	n := st
	if o.iface != nil {
		for _, i := range st.s.ifaces {
			if reflect.TypeOf(i.ptr) == reflect.TypeOf(o.iface.ptr) {
				return st, false
			}
		}
		n.s.ifaces = append(st.s.ifaces[:len(st.s.ifaces):len(st.s.ifaces)], *o.iface)
	} else {
		for _, c := range st.s.concs {
			if deref(reflect.TypeOf(c.o)) == deref(reflect.TypeOf(o.conc.o)) || c.name == o.conc.name || disfixBoth(c.name) == disfixBoth(o.conc.name) {
				return st, false
			}
		}
		n.s.concs = append(st.s.concs[:len(st.s.concs):len(st.s.concs)], *o.conc)
	}
	if !prioOK(newModel(n.s)) {
		return st, false
	}
	return n, true
}

func conformErr(err error, pv interface{}) bool { return err != nil || pv != nil }

// probe compares everything observable with the model; it returns the first
// difference.
func (st regState) probe(cdc *amino.Codec) string {
	m := newModel(st.s)
	vals := []interface{}{QA{3}, QB{4}, &QD{"d"}, QE(5)}
	names := []string{collName1, collName2, "q/a", "q/d", "q/e", disfixName1, disfixName2}
	type holder struct {
		mk  func(v interface{}) (interface{}, bool)
		new func() interface{}
		it  reflect.Type
	}
	hs := []holder{
		{func(v interface{}) (interface{}, bool) { x, ok := v.(QI1); return QH1{x}, ok }, func() interface{} { return &QH1{} }, reflect.TypeOf((*QI1)(nil)).Elem()},
		{func(v interface{}) (interface{}, bool) { x, ok := v.(QI2); return QH2{x}, ok }, func() interface{} { return &QH2{} }, reflect.TypeOf((*QI2)(nil)).Elem()},
	}
	for _, v := range vals {
		ev, _ := chase(reflect.ValueOf(v))
		for _, h := range hs {
			hv, ok := h.mk(v)
			if !ok {
				continue
			}
			want, werr := m.marshal(reflect.ValueOf(hv))
			var bz, js []byte
			var err, jerr error
			pv := try(func() { bz, err = cdc.MarshalBinaryBare(hv) })
			if b, ok := pv.(ctlsync.Blocked); ok {
				return b.Msg
			}
			if conformErr(err, pv) != (werr != nil) || werr == nil && !bytes.Equal(bz, want) {
				return fmt.Sprintf("encoding %T in %v gives %x, %v, %v; want %x, %v", v, h.it, bz, err, pv, want, werr)
			}
			pv = try(func() { js, jerr = cdc.MarshalJSON(hv) })
			if conformErr(jerr, pv) != (werr != nil) {
				return fmt.Sprintf("JSON of %T in %v gives %s, %v, %v; want error %v", v, h.it, js, jerr, pv, werr)
			}
			if werr == nil {
				if name := m.concs[ev.Type()].name; !bytes.Contains(js, []byte(fmt.Sprintf(`{"type":%q,"value":`, name))) {
					return fmt.Sprintf("JSON of %T in %v is %s, without type %q", v, h.it, js, name)
				}
			}
		}
	}
	bodies := map[string][]byte{"q/d": {0x0a, 1, 'd'}}
	for _, n := range names {
		d, p := disfix(n)
		body := bodies[n]
		jval := `{"A":"3","B":"4"}`
		if n == "q/d" {
			jval = `{"D":"d"}`
		}
		if c := m.byName[n]; c != nil && c.t.Kind() == reflect.Int {
			body, jval = []byte{5}, `"5"`
		} else if body == nil {
			body = []byte{8, 3}
		}
		short := append(p[:len(p):len(p)], body...)
		long := append(append([]byte{0}, d[:]...), short...)
		for _, h := range hs {
			for _, bz := range [][]byte{short, long} {
				bz = append([]byte{0x0a}, lenPrefixed(bz)...)
				dst := h.new()
				var err error
				pv := try(func() { err = cdc.UnmarshalBinaryBare(exact(bz), dst) })
				if b, ok := pv.(ctlsync.Blocked); ok {
					return b.Msg
				}
				want, werr := m.unmarshal(bz, reflect.TypeOf(dst).Elem())
				if pv != nil || (err != nil) != (werr != nil) {
					return fmt.Sprintf("decoding %x (%s) in %v: %v, %v; want %v", bz, n, h.it, err, pv, werr)
				}
				if err == nil {
					if d := diff(want, reflect.ValueOf(dst).Elem()); d != "" {
						return fmt.Sprintf("decoding %x (%s) in %v: %s", bz, n, h.it, d)
					}
				}
			}
			dst := h.new()
			var err error
			pv := try(func() { err = cdc.UnmarshalJSON([]byte(fmt.Sprintf(`{"I":{"type":%q,"value":%s}}`, n, jval)), dst) })
			if b, ok := pv.(ctlsync.Blocked); ok {
				return b.Msg
			}
			c := m.byName[n]
			wantOK := c != nil && m.ifaces[h.it] != nil && (c.t.Implements(h.it) || c.ptr && reflect.PtrTo(c.t).Implements(h.it))
			if pv != nil || (err == nil) != wantOK {
				return fmt.Sprintf("JSON decoding of %q in %v: %v, %v; want success: %v", n, h.it, err, pv, wantOK)
			}
			if wantOK {
				got := reflect.ValueOf(dst).Elem().Field(0).Elem().Type()
				if got.Kind() == reflect.Ptr != c.ptr || deref(got) != c.t {
					return fmt.Sprintf("JSON decoding of %q in %v gives a %v", n, h.it, got)
				}
			}
		}
	}
	// The registered types, in order of their registration.
	var b bytes.Buffer
	if err := cdc.PrintTypes(&b); err != nil {
		return fmt.Sprintf("PrintTypes: %v", err)
	}
	lines := strings.Split(strings.TrimSuffix(b.String(), "\n"), "\n")
	if len(lines) != 2+len(m.order) {
		return fmt.Sprintf("PrintTypes shows %d lines for %d types:\n%s", len(lines), len(m.order), b.String())
	}
	for i, c := range m.order {
		cols := strings.Split(lines[2+i], "|")
		if len(cols) < 5 || strings.TrimSpace(cols[1]) != c.t.Name() || strings.TrimSpace(cols[2]) != c.name ||
			strings.TrimSpace(cols[3]) != fmt.Sprintf("0x%X", c.prefix[:]) {
			return fmt.Sprintf("PrintTypes line %d is %q, want %v %s %X", i, lines[2+i], c.t, c.name, c.prefix)
		}
	}
	// Sealed?  (The last probe, as it changes the codec.)
	if pv := try(func() { cdc.RegisterInterface((*interface{ QNever() })(nil), nil) }); (pv != nil) != st.sealed {
		return fmt.Sprintf("sealed should be %v, but registering gives %v", st.sealed, pv)
	}
	return ""
}

// runRegs replays a history on a fresh codec and on the model, comparing
// the outcome of every call and the probes at the end.
func runRegs(ops []regOp, hist []int) (st regState, msg string) {
	cdc := amino.NewCodec()
	for i, h := range hist {
		o := ops[h]
		n, ok := st.step(o)
		panicked, misuse := o.apply(cdc)
		if misuse != "" {
			return st, fmt.Sprintf("call %d (%s): %s", i, o.name, misuse)
		}
		if panicked == ok {
			return st, fmt.Sprintf("call %d (%s): panics: %v, want %v", i, o.name, panicked, !ok)
		}
		st = n
	}
	return st, st.probe(cdc)
}

func histName(ops []regOp, hist []int) string {
	var p []string
	for _, h := range hist {
		p = append(p, ops[h].name)
	}
	return strings.Join(p, ",")
}

// propC12: explicit-state exploration of the registry.
func propC12(c *Ctx) {
	ops := regOps()
	// All histories up to a depth, without assuming that the model's state
	// determines the codec's.
	depth := 4
	if c.Thorough {
		depth = 5
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ops)
	}
	c.Bound("operations", len(ops))
	c.Bound("all_histories_up_to_depth", depth)
	var mu sync.Mutex
	check := func(w int, hist []int) (st regState, ok bool) {
		key := histName(ops, hist)
		ok = true
		c.Case(w, key, func() {
			var msg string
			st, msg = runRegs(ops, hist)
			if msg != "" {
				c.Violate(key, "after %s: %s", key, msg)
				ok = false
			}
			c.Transition(len(hist))
			c.Trace(1)
		})
		return
	}
	c.Parallel(total, func(w, i int) {
		hist := make([]int, depth)
		for j := depth - 1; j >= 0; j-- {
			hist[j] = i % len(ops)
			i /= len(ops)
		}
		check(w, hist) // covers shorter ones, too: most calls fail or commute
	})
	// All states, breadth first, to the fixpoint; from each state every call
	// and, if it fails, every call after that.
	type node struct {
		st   regState
		hist []int
	}
	seen := map[string]bool{regState{}.key(): true}
	level := []node{{}}
	d := 0
	maxD := 7
	if c.Thorough {
		maxD = 99
	}
	for len(level) > 0 && d < maxD && !c.Over() {
		c.State(len(level))
		var next []node
		c.Parallel(len(level), func(w, i int) {
			n := level[i]
			for o := range ops {
				hist := append(n.hist[:len(n.hist):len(n.hist)], o)
				st, ok := n.st.step(ops[o])
				if ok {
					mu.Lock()
					k := st.key()
					isNew := !seen[k]
					seen[k] = true
					if isNew {
						next = append(next, node{st, hist})
					}
					mu.Unlock()
				}
				if _, good := check(w, hist); !good {
					return
				}
				if !ok && (c.Thorough || d < 4) {
					// A refused call, then one more.
					for o2 := range ops {
						if _, ok2 := n.st.step(ops[o2]); ok2 {
							if _, good := check(w, append(hist[:len(hist):len(hist)], o2)); !good {
								return
							}
						}
					}
				}
			}
		})
		level = next
		d++
	}
	c.Bound("registry_states", len(seen))
	c.Bound("breadth_first_depth", d)
	if len(level) > 0 {
		c.Bound("states_beyond_depth", len(level))
	}
	c.Case(0, "PrintTypes", func() { printFaults(c) })
	c.Sample("history", "%s", histName(ops, []int{5, 0, 8}))
	c.Assume("registering a type that the codec encoded or decoded before is a don't-care (it's refused); names aren't empty")
}

// limitWriter takes a number of bytes, and fails then.
type limitWriter struct {
	b      bytes.Buffer
	room   int
	failed int
}

func (w *limitWriter) Write(b []byte) (int, error) {
	if w.failed > 0 {
		w.failed++
		return 0, errors.New("written after an error")
	}
	if len(b) > w.room {
		n := w.room
		w.room = 0
		w.failed = 1
		w.b.Write(b[:n])
		return n, errQ
	}
	w.room -= len(b)
	return w.b.Write(b)
}

// printFaults prints every order of some types of fixed and variable length to
// a writer that fails after any number of bytes.
func printFaults(c *Ctx) {
	regs := []regConc{{QA{}, "q/a"}, {&printArr{}, "print/array"}, {printB(0), "print/int8"}, {xa{}, "t/53"}}
	for _, ord := range perms(len(regs)) {
		for n := 0; n <= len(regs); n++ {
			cdc := amino.NewCodec()
			var want [][]string
			for _, k := range ord[:n] {
				cdc.RegisterConcrete(regs[k].o, regs[k].name, nil)
				_, p := disfix(regs[k].name)
				want = append(want, []string{deref(reflect.TypeOf(regs[k].o)).Name(), regs[k].name, fmt.Sprintf("0x%X", p[:])})
			}
			var full bytes.Buffer
			if err := cdc.PrintTypes(&full); err != nil {
				c.Violate("PrintTypes", "PrintTypes: %v", err)
				return
			}
			lines := strings.Split(full.String(), "\n")
			if len(lines) != 3+n || lines[2+n] != "" {
				c.Violate("PrintTypes", "PrintTypes of %d types shows %q", n, full.String())
				return
			}
			for i, w := range want {
				cols := strings.Split(lines[2+i], "|")
				for k := range w {
					if len(cols) < 5 || strings.TrimSpace(cols[1+k]) != w[k] {
						c.Violate("PrintTypes", "PrintTypes line %d is %q, want %v", i, lines[2+i], w)
						return
					}
				}
			}
			for room := 0; room <= full.Len(); room++ {
				c.State(1)
				c.Transition(1)
				w := &limitWriter{room: room}
				var err error
				pv := try(func() { err = cdc.PrintTypes(w) })
				if pv != nil || (err == nil) != (room == full.Len()) || err != nil && !errors.Is(err, errQ) || w.b.String() != full.String()[:room] {
					c.Violate("PrintTypes", "PrintTypes to a writer that fails after %d of %d bytes: %v, %v; written %q", room, full.Len(), err, pv, w.b.String())
					return
				}
			}
		}
	}
}

type (
	printArr [20]byte
	printB   int8
)

// ---- C17

// useOp is any call that isn't a registration.
type useOp struct {
	name string
	f    func(cdc *amino.Codec) (interface{}, error)
}

type (
	qBadF  struct{ F float64 }
	qBadL  struct{ L [][]int }
	qBadC  struct{ C chan int }
	qBadM  struct{ M map[string]int }
	qBadIn struct{ In struct{ P *qBadF } }
	qUnreg struct{ X interface{ QUnreg() } }
	qFailM struct{ S string }
	qHold  struct {
		A int
		F qFailM
		I QI1
		L []qFailM
	}
	qAmF struct{ x int }
)

var errQ = errors.New("refused")

func (q qFailM) MarshalAmino() (string, error) {
	switch q.S {
	case "fail":
		return "", errQ
	case "panic":
		panic("marshaler panics")
	}
	return q.S, nil
}
func (q *qFailM) UnmarshalAmino(s string) error {
	switch s {
	case "failu":
		return errQ
	case "panicu":
		panic("unmarshaler panics")
	}
	q.S = s
	return nil
}
func (q qAmF) MarshalAmino() (qBadF, error) { return qBadF{1}, nil }
func (q *qAmF) UnmarshalAmino(qBadF) error  { return nil }

func useOps() []useOp {
	mar := func(n string, v interface{}) useOp {
		return useOp{n, func(cdc *amino.Codec) (interface{}, error) { return cdc.MarshalBinaryBare(v) }}
	}
	js := func(n string, v interface{}) useOp {
		return useOp{n, func(cdc *amino.Codec) (interface{}, error) { return cdc.MarshalJSON(v) }}
	}
	un := func(n string, b []byte, mk func() interface{}) useOp {
		return useOp{n, func(cdc *amino.Codec) (interface{}, error) {
			p := mk()
			err := cdc.UnmarshalBinaryBare(exact(b), p)
			return showJ(p), err
		}}
	}
	unj := func(n, b string, mk func() interface{}) useOp {
		return useOp{n, func(cdc *amino.Codec) (interface{}, error) {
			p := mk()
			err := cdc.UnmarshalJSON([]byte(b), p)
			return showJ(p), err
		}}
	}
	hold := func() interface{} { return &qHold{} }
	var nilp *qHold
	_, pA := disfix(collName1)
	ifa := append([]byte{0x1a}, lenPrefixed(append(pA[:len(pA):len(pA)], 8, 3))...)
	return []useOp{
		mar("ok", qHold{A: 1, F: qFailM{"s"}, L: []qFailM{{"a"}, {""}}}),
		mar("iface", qHold{I: QA{3}}),
		js("json iface", qHold{I: QA{3}}),
		mar("float", qBadF{1}), mar("multidim", qBadL{[][]int{{1}}}), mar("chan", qBadC{make(chan int)}),
		mar("map", qBadM{map[string]int{"a": 1}}), mar("nested float", qBadIn{}), mar("unregistered iface", qUnreg{}),
		mar("nil ptr", nilp), mar("nil", nil), mar("marshaler fails", qHold{F: qFailM{"fail"}}),
		mar("marshaler panics", qHold{A: 7, F: qFailM{"panic"}}), mar("late element fails", qHold{L: []qFailM{{"x"}, {"fail"}}}),
		mar("nil in iface", qHold{I: (*QD)(nil)}), mar("repr unsupported", qAmF{}), mar("unregistered conc", qHold{I: QB{1}}),
		js("json nil in iface", qHold{I: (*QD)(nil)}), js("json chan", qBadC{make(chan int)}), js("json intmap", map[int]int{1: 2}),
		js("json marshaler fails", []qFailM{{"fail"}}), js("json marshaler panics", []qFailM{{"ok"}, {"panic"}}), js("json unregistered conc", qHold{I: QB{1}}), js("json multidim", qBadL{[][]int{{1}}}),
		un("decode ok", []byte{8, 1, 0x12, 1, 's'}, hold), un("decode iface", ifa, hold),
		un("decode truncated", []byte{8, 1, 0x12, 9, 's'}, hold), un("unmarshaler fails", []byte{0x12, 5, 'f', 'a', 'i', 'l', 'u'}, hold),
		un("unmarshaler panics", append([]byte{0x12, 6}, "panicu"...), hold), un("decode float", []byte{9, 0, 0, 0, 0, 0, 0, 0, 0}, func() interface{} { return &qBadF{} }),
		un("decode unknown prefix", []byte{0x1a, 4, 1, 2, 3, 4}, hold), un("decode nonptr", []byte{8, 1}, func() interface{} { return qHold{} }),
		un("decode chan", []byte{8, 1}, func() interface{} { return &qBadC{} }), un("decode nil", []byte{8, 1}, func() interface{} { return nil }),
		un("decode repr unsupported", []byte{9, 0, 0, 0, 0, 0, 0, 0, 0}, func() interface{} { return &qAmF{} }),
		unj("json decode ok", `{"A":"1","F":"s","L":["x"]}`, hold), unj("json unknown name", `{"I":{"type":"nope","value":{}}}`, hold),
		unj("json bad", `{"A":1`, hold), unj("json unmarshaler fails", `{"L":["a","failu"]}`, hold), unj("json unmarshaler panics", `{"F":"panicu"}`, hold),
		unj("json decode float", `{"F":1}`, func() interface{} { return &qBadF{} }), unj("json decode multidim", `{"L":[["1"]]}`, func() interface{} { return &qBadL{} }),
		{"lp writer fails", func(cdc *amino.Codec) (interface{}, error) {
			return cdc.MarshalBinaryLengthPrefixedWriter(failWriter{}, qHold{A: 1})
		}},
		{"reader fails", func(cdc *amino.Codec) (interface{}, error) {
			p := hold()
			n, err := cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader([]byte{9, 1}), p, 0)
			return fmt.Sprint(n, showJ(p)), err
		}},
		{"reader maxSize<0", func(cdc *amino.Codec) (interface{}, error) {
			p := hold()
			n, err := cdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader([]byte{9, 1}), p, -1)
			return fmt.Sprint(n, showJ(p)), err
		}},
		{"must panics", func(cdc *amino.Codec) (interface{}, error) {
			return cdc.MustMarshalBinaryBare(qHold{F: qFailM{"fail"}}), nil
		}},
		{"print fails", func(cdc *amino.Codec) (interface{}, error) { return nil, cdc.PrintTypes(failWriter{}) }},
		{"print panics", func(cdc *amino.Codec) (interface{}, error) { return nil, cdc.PrintTypes(panicWriter{}) }},
		{"print", func(cdc *amino.Codec) (interface{}, error) {
			var b bytes.Buffer
			err := cdc.PrintTypes(&b)
			return b.String(), err
		}},
	}
}

type failWriter struct{}

func (failWriter) Write(b []byte) (int, error) { return 0, errQ }

type panicWriter struct{}

func (panicWriter) Write(b []byte) (int, error) { panic("writer panics") }

func (o useOp) run(cdc *amino.Codec) (res, misuse string) {
	var v interface{}
	var err error
	pv := try(func() { v, err = o.f(cdc) })
	if b, ok := pv.(ctlsync.Blocked); ok {
		return "", b.Msg
	}
	switch {
	case pv != nil:
		res = "panic"
	case err != nil:
		res = "error"
	default:
		res = outcome(v, nil)
	}
	return
}

// propC17: all histories up to a depth of calls that succeed, fail or panic;
// afterwards, everything is as on a fresh codec with the same registrations.
func propC17(c *Ctx) {
	regs := regOps()
	byName := map[string]regOp{}
	for _, o := range regs {
		byName[o.name] = o
	}
	uses := useOps()
	base := Setup{ifaces: []regIface{{(*QI1)(nil), nil}}, concs: []regConc{{QA{}, collName1}}}
	type anyOp struct {
		reg *regOp
		use *useOp
	}
	var ops []anyOp
	for i := range uses {
		ops = append(ops, anyOp{use: &uses[i]})
	}
	for _, n := range []string{"I1", "I2", "I2always+prio", "A", "B", "B=A", "&B'", "&D", "E", "Seal", "nonptr", "ptr-ptr", "nil conc"} {
		o := byName[n]
		ops = append(ops, anyOp{reg: &o})
	}
	name := func(o anyOp) string {
		if o.use != nil {
			return o.use.name
		}
		return o.reg.name
	}
	// What each call gives on a fresh codec with some registrations.
	var mu sync.Mutex
	fresh := map[string][]string{}
	want := func(st regState) []string {
		k := st.key()
		mu.Lock()
		r, ok := fresh[k]
		mu.Unlock()
		if ok {
			return r
		}
		for _, u := range uses {
			cdc := st.s.codec()
			if st.sealed {
				cdc.Seal()
			}
			res, misuse := u.run(cdc)
			if misuse != "" {
				res = "blocks"
			}
			r = append(r, res)
		}
		mu.Lock()
		fresh[k] = r
		mu.Unlock()
		return r
	}
	useIdx := map[string]int{}
	for i, u := range uses {
		useIdx[u.name] = i
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ops)
	}
	c.Bound("operations", len(ops))
	c.Bound("history_length_before_the_probes", depth)
	c.Parallel(total, func(w, i int) {
		var hist []anyOp
		var names []string
		for j := 0; j < depth; j++ {
			hist = append(hist, ops[i%len(ops)])
			names = append(names, name(hist[j]))
			i /= len(ops)
		}
		key := strings.Join(names, ",")
		c.Case(w, key, func() {
			cdc := base.codec()
			st := regState{s: base}
			seenB := false // QB may have been encountered
			for j, o := range hist {
				if o.use != nil {
					exp := want(st)[useIdx[o.use.name]]
					got, misuse := o.use.run(cdc)
					if misuse != "" {
						c.Violate(key, "call %d of %s: %s", j, key, misuse)
						return
					}
					if got != exp {
						c.Violate(key, "call %d of %s gives %s, but %s on a fresh codec", j, key, got, exp)
						return
					}
					if strings.Contains(o.use.name, "unregistered conc") {
						seenB = true
					}
				} else {
					panicked, misuse := o.reg.apply(cdc)
					if misuse != "" {
						c.Violate(key, "call %d of %s: %s", j, key, misuse)
						return
					}
					n, ok := st.step(*o.reg)
					if panicked == ok {
						if !(seenB && o.reg.conc != nil && deref(reflect.TypeOf(o.reg.conc.o)) == reflect.TypeOf(QB{})) {
							c.Violate(key, "call %d of %s panics: %v, want %v", j, key, panicked, !ok)
							return
						}
						n = st
					}
					st = n
				}
			}
			exp := want(st)
			for u := range uses {
				got, misuse := uses[u].run(cdc)
				if misuse != "" {
					c.Violate(key, "%s after %s: %s", uses[u].name, key, misuse)
					return
				}
				if got != exp[u] {
					c.Violate(key, "%s after %s gives %s, but %s on a fresh codec", uses[u].name, key, got, exp[u])
					return
				}
			}
			if msg := st.probe(cdc); msg != "" {
				c.Violate(key, "after %s and all calls once more: %s", key, msg)
			}
			c.State(1)
			c.Transition(depth + len(uses))
			c.Trace(1)
			if i%7 == 0 {
				c.Sample("history", "%s", key)
			}
		})
	})
	oc := map[string]int64{}
	for _, r := range want(regState{s: base}) {
		cls := r
		if r != "panic" && r != "error" && r != "blocks" {
			cls = "ok"
		}
		if cls == "blocks" {
			c.Violate("fresh", "a call blocks forever on a fresh codec")
		}
		oc[cls]++
	}
	c.AddOutcomes(oc)
	c.Assume("types that a failed or successful call encountered can't be registered any more; that is not counted as a trace")
}
