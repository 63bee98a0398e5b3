package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"

	amino "github.com/tendermint/go-amino"
)

func init() { props["C24"] = propC24 }

// Lengths that claim more than is there. The first ones would show a wrong
// allocation without exhausting the memory.
var (
	claims1 = []uint64{200, 1 << 16, 1 << 20, 1 << 24, 1 << 28}
	claims2 = []uint64{1<<31 - 1, 1 << 31, 1 << 32, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}
)

const (
	allocBase   = 8 << 10 // what a call may allocate whatever its input
	allocFactor = 16      // and per byte of input and byte of the largest element
)

// elemSize is the size of the largest thing the decoder may have to allocate
// for an element of the input.
func elemSize(t reflect.Type, seen map[reflect.Type]bool) uintptr {
	if seen[t] {
		return 0
	}
	seen[t] = true
	max := t.Size()
	see := func(t reflect.Type) {
		if s := elemSize(t, seen); s > max {
			max = s
		}
	}
	if um, ok := reflect.PtrTo(t).MethodByName("UnmarshalAmino"); ok {
		see(um.Type.In(1))
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		see(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			see(t.Field(i).Type)
		}
	case reflect.Interface:
		for _, c := range baseSetup.concs {
			see(reflect.TypeOf(c.o))
		}
	}
	return max
}

// meter measures what a call allocates. There must be nothing else running.
type meter struct {
	c     *Ctx
	batch []measured
	used  uint64 // bound of the batch
	worst float64
	at    string
	m0    runtime.MemStats
}

type measured struct {
	key, what string
	bound     uint64
	f         func()
}

func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// call has f measured, by itself if a group of calls allocates more than one
// of them may.
func (m *meter) call(key, what string, bound uint64, f func()) {
	m.batch = append(m.batch, measured{key, what, bound, f})
	if len(m.batch) >= 24 {
		m.flush()
	}
}

func (m *meter) flush() {
	if len(m.batch) == 0 {
		return
	}
	min := m.batch[0].bound
	for _, x := range m.batch {
		if x.bound < min {
			min = x.bound
		}
	}
	total := allocated(func() {
		for _, x := range m.batch {
			if pv := try(x.f); pv != nil {
				m.c.Violate(x.key, "%s panics: %v", x.what, pv)
			}
		}
	})
	m.c.State(len(m.batch))
	m.c.Transition(len(m.batch))
	m.c.Trace(len(m.batch))
	if total > min {
		for _, x := range m.batch {
			n := allocated(func() { try(x.f) })
			if r := float64(n) / float64(x.bound); r > m.worst {
				m.worst, m.at = r, fmt.Sprintf("%s: %d of %d", x.what, n, x.bound)
			}
			if n > x.bound {
				if again := allocated(func() { try(x.f) }); again > x.bound {
					m.c.Violate(x.key, "%s allocates %d bytes, want at most %d", x.what, again, x.bound)
				}
			}
		}
	}
	m.batch = m.batch[:0]
}

// feed is a reader that hands out data in chunks and counts, then fails or,
// if endless, goes on with zeros.
type feed struct {
	data    []byte
	n       int
	chunk   int
	endless bool
}

func (r *feed) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.chunk > 0 && len(p) > r.chunk {
		p = p[:r.chunk]
	}
	k := 0
	if r.n < len(r.data) {
		k = copy(p, r.data[r.n:])
	} else if r.endless {
		for i := range p {
			p[i] = 0
		}
		k = len(p)
	} else {
		return 0, io.EOF
	}
	r.n += k
	return k, nil
}

type allocResult struct {
	States, Transitions, Traces int64
	Violations                  []violation
	Known                       []string
	Truncated                   bool
	Outcomes                    map[string]int64
	Worst                       float64
	At                          string
	Bounds                      map[string]interface{}
}

// C24: memory in proportion to the input. Processes of their own, of which
// each does one thing at a time, measure.
func propC24(c *Ctx) {
	if s := os.Getenv("AMC_SHARD"); s != "" {
		var i, n int
		fmt.Sscanf(s, "%d/%d", &i, &n)
		allocShard(c, i, n)
		return
	}
	n := runtime.NumCPU()
	if c.Only != "" {
		n = 1
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	worst, at := 0.0, ""
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
			cmd.Env = append(os.Environ(), fmt.Sprintf("AMC_SHARD=%d/%d", i, n))
			var out, serr bytes.Buffer
			cmd.Stdout = &out
			cmd.Stderr = &limited{buf: &serr, max: 1 << 16}
			err := cmd.Run()
			var r allocResult
			lines := strings.Split(strings.TrimSpace(out.String()), "\n")
			if err != nil || json.Unmarshal([]byte(lines[len(lines)-1]), &r) != nil {
				key := "shard " + strconv.Itoa(i)
				for _, l := range lines {
					if strings.HasPrefix(l, "case ") {
						key = strings.TrimPrefix(l, "case ")
					}
				}
				c.Violate(key, "the measuring process died: %v\n%s", err, serr.String())
				return
			}
			c.State(int(r.States))
			c.Transition(int(r.Transitions))
			c.Trace(int(r.Traces))
			c.AddOutcomes(r.Outcomes)
			for _, v := range r.Violations {
				c.Violate(v.Key, "%s", v.Msg)
			}
			if r.Truncated {
				c.truncated = 1
			}
			mu.Lock()
			if r.Worst > worst {
				worst, at = r.Worst, r.At
			}
			for k, v := range r.Bounds {
				c.bounds[k] = v
			}
			mu.Unlock()
		}(i)
	}
	wg.Wait()
	c.Bound("bytes_allowed", fmt.Sprintf("%d + %d * len(input) * (16 + size of the largest element)", allocBase, allocFactor))
	c.Bound("closest_to_the_bound", fmt.Sprintf("%.2f: %s", worst, at))
	c.Bound("claimed_lengths", fmt.Sprint(claims1, claims2))
	c.Assume("allocation is what runtime.MemStats.TotalAlloc counts for a single goroutine; input nested at most 12 levels deep, and 10 to 20000 levels in recursive types")
}

func allocShard(c *Ctx, shard, nshards int) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	m := &meter{c: c}
	model := newModel(baseSetup)
	g := newGen(baseSetup)
	in := &inputs{model}
	var cdc *amino.Codec
	cases := decodeTypes(c.Thorough)
	c.Bound("types", len(cases))
	done := func() {
		m.flush()
		c.mu.Lock()
		r := allocResult{c.states, c.transitions, c.traces, c.violations, nil, c.truncated != 0, c.outcomes, m.worst, m.at, c.bounds}
		b, _ := json.Marshal(r)
		fmt.Printf("\n%s\n", b)
		os.Exit(0)
	}
	nvals := 6
	if c.Thorough {
		nvals = 25
	}
	for phase, claims := range [][]uint64{claims1, claims2} {
		for i, tc := range cases {
			if i%nshards != shard || !canDecodeTop(tc.t) {
				continue
			}
			if c.Over() {
				done()
			}
			if cdc == nil || i/nshards%40 == 0 {
				cdc = baseSetup.codec()
			}
			fmt.Printf("case %s\n", tc.key)
			c.Case(0, tc.key, func() { allocType(c, m, model, g, in, cdc, tc, phase, claims, nvals) })
			m.flush()
			if c.Violations() > 5 {
				done()
			}
		}
		if phase == 0 {
			for i, d := range deepTypes() {
				if i%nshards == shard {
					fmt.Printf("case %s\n", d.key)
					c.Case(0, d.key, func() { allocDeep(m, d) })
					m.flush()
				}
			}
		}
		if shard == 0 {
			fmt.Printf("case primitives\n")
			c.Case(0, "primitives", func() { allocPrims(m, claims) })
			m.flush()
		}
		if c.Violations() > 0 {
			break // before asking for lengths that may end the process
		}
	}
	done()
}

func allocPrims(m *meter, claims []uint64) {
	for _, l := range claims {
		for _, body := range []int{0, 1, 100} {
			b := append(uvarint(l), make([]byte, body)...)
			if uint64(body) >= l {
				continue
			}
			for _, d := range primDecoders() {
				d := d
				m.call("primitives", fmt.Sprintf("%s(%x)", d.name, b), 2048, func() { d.dec(b) })
			}
		}
	}
}

func allocType(c *Ctx, m *meter, model *Model, g *gen, in *inputs, cdc *amino.Codec, tc typeCase, phase int, claims []uint64, nvals int) {
	size := uint64(16 + elemSize(tc.t, map[reflect.Type]bool{}))
	bound := func(n int) uint64 { return allocBase + uint64(tc.t.Size())*2 + allocFactor*uint64(n)*size }
	// What's parsed on first use doesn't count.
	try(func() { cdc.UnmarshalBinaryBare(nil, reflect.New(tc.t).Interface()) })
	for _, b := range in.whole(tc.t) {
		try(func() { cdc.UnmarshalBinaryBare(b, reflect.New(tc.t).Interface()) })
	}
	ways := func(b []byte, framed bool) {
		what := func(s string) string {
			if len(b) > 60 {
				return fmt.Sprintf("%s(%x... (%d bytes)) into %v", s, b[:60], len(b), goType(tc.t))
			}
			return fmt.Sprintf("%s(%x) into %v", s, b, goType(tc.t))
		}
		m.call(tc.key, what("UnmarshalBinaryBare"), bound(len(b)), func() { cdc.UnmarshalBinaryBare(b, reflect.New(tc.t).Interface()) })
		if !framed {
			return
		}
		m.call(tc.key, what("UnmarshalBinaryLengthPrefixed"), bound(len(b)), func() { cdc.UnmarshalBinaryLengthPrefixed(b, reflect.New(tc.t).Interface()) })
		for _, chunk := range []int{0, 1} {
			chunk := chunk
			m.call(tc.key, what("UnmarshalBinaryLengthPrefixedReader"), bound(len(b)), func() {
				cdc.UnmarshalBinaryLengthPrefixedReader(&feed{data: b, chunk: chunk}, reflect.New(tc.t).Interface(), 0)
			})
		}
		for _, max := range []int64{1, 5, 100, 4096} {
			max := max
			m.call(tc.key, what(fmt.Sprintf("UnmarshalBinaryLengthPrefixedReader, maxSize %d,", max)), bound(int(max)), func() {
				r := &feed{data: b, endless: true}
				cdc.UnmarshalBinaryLengthPrefixedReader(r, reflect.New(tc.t).Interface(), max)
				if int64(r.n) > max {
					c.Violate(tc.key, "UnmarshalBinaryLengthPrefixedReader with maxSize %d reads %d bytes of %x...", max, r.n, b)
				}
			})
		}
	}
	seen := map[string]bool{}
	counts := map[string]int64{}
	var encs [][]byte
	for _, v := range g.limited(tc.t, 1, nvals) {
		ev, ok := chase(v)
		if !ok {
			continue
		}
		b, err := model.marshal(ev)
		if err != nil || len(b) > 60 || seen[string(b)] {
			continue
		}
		seen[string(b)] = true
		encs = append(encs, b)
		// A claim at each position, with and without what follows.
		for i := 0; i <= len(b); i++ {
			for _, l := range claims {
				x := append(append([]byte{}, b[:i]...), uvarint(l)...)
				ways(x, i == 0)
				counts["claims at the end"]++
				if i < len(b) {
					x = append(x[:len(x):len(x)], b[i+1:]...)
					ways(x, i == 0)
					counts["claims in front of data"]++
				}
			}
		}
	}
	if phase > 0 {
		c.AddOutcomes(counts)
		return
	}
	// Frames about as long as maxSize.
	for _, max := range []int64{1, 2, 3, 100, 128, 129, 130, 131, 4096} {
		for l := max - 4; l <= max+1; l++ {
			if l < 0 {
				continue
			}
			for _, pad := range []int{0, 1} {
				max, b := max, append(uvarint(uint64(l)), 0x0a)
				if pad > 0 {
					b = append([]byte{byte(l) | 0x80, byte(l>>7) | 0x80, byte(l >> 14)}, 0x0a)
				}
				m.call(tc.key, fmt.Sprintf("UnmarshalBinaryLengthPrefixedReader(%x...), maxSize %d, into %v", b, max, goType(tc.t)), bound(int(max)), func() {
					r := &feed{data: b, endless: true}
					cdc.UnmarshalBinaryLengthPrefixedReader(r, reflect.New(tc.t).Interface(), max)
					if int64(r.n) > max {
						c.Violate(tc.key, "UnmarshalBinaryLengthPrefixedReader with maxSize %d reads %d bytes of %x...", max, r.n, b)
					}
				})
			}
		}
	}
	// Inputs that are long: what's allocated mustn't grow faster.
	var pre []byte
	if cc := model.concs[deref(tc.t)]; cc != nil {
		pre = cc.prefix[:]
	}
	toks := append(in.tokens(tc.t), encs...)
	for _, tk := range toks {
		if len(tk) == 0 || len(tk) > 100 {
			continue
		}
		for _, n := range []int{6000} {
			b := append(append([]byte{}, pre...), bytes.Repeat(tk, n/len(tk)+1)...)
			ways(b, false)
			counts["long inputs"]++
			f := lenPrefixed(b)
			m.call(tc.key, fmt.Sprintf("UnmarshalBinaryLengthPrefixedReader of %x repeated to %d bytes into %v", tk, len(b), goType(tc.t)), bound(len(f)), func() {
				cdc.UnmarshalBinaryLengthPrefixedReader(&feed{data: f}, reflect.New(tc.t).Interface(), 0)
			})
			// The same inside the first field.
			if deref(tc.t).Kind() == reflect.Struct {
				ways(append(append([]byte{}, pre...), append([]byte{0x0a}, f...)...), false)
			}
		}
	}
	c.AddOutcomes(counts)
}

// Types that hold themselves, and what's written before the inner one's bytes.
type deepType struct {
	key  string
	t    reflect.Type
	head func(inner int) []byte
	tail []byte
	pre  []byte // at the very beginning
}

type (
	dpArr  struct{ A [1]*dpArr }
	dpAm   struct{ in *dpAm }
	dpAmR  struct{ N *dpAm }
	dpList []dpList
	dpPtrs []*dpPtrs
	dpMut  struct {
		S string
		M *dpMut2
	}
	dpMut2 struct{ L []dpMut }
)

func (d dpAm) MarshalAmino() (dpAmR, error)  { return dpAmR{d.in}, nil }
func (d *dpAm) UnmarshalAmino(r dpAmR) error { d.in = r.N; return nil }

func deepTypes() []deepType {
	_, p := disfix("c/nest")
	key := func(k byte, more ...byte) func(int) []byte {
		return func(n int) []byte { return append(append([]byte{k}, uvarint(uint64(n+len(more)))...), more...) }
	}
	return []deepType{
		{"deep/pointer", rt(szChain{}), key(0x12), nil, nil},
		{"deep/pointer, then a field", rt(szChain{}), func(n int) []byte { return append([]byte{8, 2}, key(0x12)(n)...) }, nil, nil},
		{"deep/list of structs", rt(szTree{}), key(0x12), nil, nil},
		{"deep/list of structs, siblings", rt(szTree{}), key(0x12), []byte{0x12, 3, 0x0a, 1, 'x'}, nil},
		{"deep/list of lists", rt(dpList{}), key(0x0a), nil, nil},
		{"deep/list of pointers", rt(dpPtrs{}), key(0x0a), nil, nil},
		{"deep/array", rt(dpArr{}), key(0x0a), nil, nil},
		{"deep/representation", rt(dpAm{}), key(0x0a), nil, nil},
		{"deep/interface", rt(CNest{}), key(0x0a, p[:]...), nil, p[:]},
		{"deep/mutual", rt(dpMut{}), func(n int) []byte { h := key(0x0a)(n); return append(key(0x12)(n+len(h)), h...) }, nil, nil},
	}
}

// input nests levels times, around core.
func (d deepType) input(levels int, core []byte) []byte {
	var heads [][]byte
	n := len(core)
	for i := 0; i < levels; i++ {
		h := d.head(n)
		heads = append(heads, h)
		n += len(h) + len(d.tail)
	}
	out := append(make([]byte, 0, n+4), d.pre...)
	for i := levels - 1; i >= 0; i-- {
		out = append(out, heads[i]...)
	}
	out = append(out, core...)
	for i := 0; i < levels; i++ {
		out = append(out, d.tail...)
	}
	return out
}

// allocDeep decodes deeply nested messages: what's allocated mustn't depend
// on how the bytes nest.
func allocDeep(m *meter, d deepType) {
	cdc := baseSetup.codec()
	elem := uint64(16 + elemSize(d.t, map[reflect.Type]bool{}))
	levels := []int{10, 100, 1000, 5000, 20000}
	try(func() { cdc.UnmarshalBinaryBare(d.input(2, nil), reflect.New(d.t).Interface()) })
	for _, n := range levels {
		b := d.input(n, nil)
		if n == 10 {
			if err := cdc.UnmarshalBinaryBare(b, reflect.New(d.t).Interface()); err != nil {
				m.c.Violate(d.key, "UnmarshalBinaryBare(%x): %v", b, err)
				return
			}
		}
		bad := d.input(n, []byte{0xff})
		for _, x := range [][]byte{b, bad, b[:len(b)-1], append(b[:len(b):len(b)], 0)} {
			x := x
			bound := allocBase + allocFactor*uint64(len(x))*elem
			m.call(d.key, fmt.Sprintf("UnmarshalBinaryBare(%x..., %d bytes nested %d times) into %v", x[:10], len(x), n, d.t), bound, func() {
				cdc.UnmarshalBinaryBare(x, reflect.New(d.t).Interface())
			})
			m.flush()
			f := lenPrefixed(x)
			m.call(d.key, fmt.Sprintf("UnmarshalBinaryLengthPrefixedReader(%x..., %d bytes nested %d times) into %v", f[:10], len(f), n, d.t), bound+uint64(len(f))*8, func() {
				cdc.UnmarshalBinaryLengthPrefixedReader(&feed{data: f}, reflect.New(d.t).Interface(), 0)
			})
			m.flush()
		}
	}
}
