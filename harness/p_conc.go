package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"

	amino "github.com/tendermint/go-amino"

	"verif/amc/ctlsync"
)

func init() { props["C16"] = propC16 }

// ---- types and operations

type (
	KI  interface{ KIm() }
	KJ  interface{ KJm() }
	KC  struct{ A int }    // registered from the start
	KC1 struct{ A int }    // registered by operations; prefix bytes collide
	KC2 struct{ B string } // "
	KP  struct{ L []KT2 }  // registered by pointer
	KT1 struct {
		A int
		B KT2
		M map[string]int `json:",omitempty"`
	}
	KT2 struct {
		S string
		L []*KT3
	}
	KT3  struct{ X, Y int8 }
	KAm  struct{ s string }
	KIn  struct{ I KI }
	KJn  struct{ J KJ }
	KBad struct{ F float64 }
)

func (KC) KIm()                               {}
func (KC) KJm()                               {}
func (KC1) KIm()                              {}
func (KC1) KJm()                              {}
func (KC2) KIm()                              {}
func (*KP) KIm()                              {}
func (k KAm) MarshalAmino() (KT3, error)      { return KT3{int8(len(k.s)), 0}, nil }
func (k *KAm) UnmarshalAmino(r KT3) (e error) { k.s = strings.Repeat("x", int(r.X)); return nil }

func concCodec() *amino.Codec {
	cdc := amino.NewCodec()
	cdc.RegisterInterface((*KI)(nil), &amino.InterfaceOptions{Priority: []string{collName1, collName2}})
	cdc.RegisterConcrete(KC{}, "k/c", nil)
	return cdc
}

type concOp struct {
	name string
	f    func(cdc *amino.Codec) string
}

func outcome(v interface{}, err error) string {
	if err != nil {
		return "error"
	}
	switch v := v.(type) {
	case []byte:
		return fmt.Sprintf("%x", v)
	}
	return fmt.Sprintf("%+v", v)
}

func (o concOp) run(cdc *amino.Codec) (res string, misuse string) {
	defer func() {
		if r := recover(); r != nil {
			res = "panic"
			if b, ok := r.(ctlsync.Blocked); ok {
				misuse = b.Msg
			}
			if e, ok := r.(runtime.Error); ok && strings.Contains(e.Error(), "nil pointer") {
				res = "nil dereference"
			}
		}
	}()
	return o.f(cdc), ""
}

var (
	kt1     = KT1{A: 5, B: KT2{S: "s", L: []*KT3{{1, 2}, {3, 4}}}}
	coll1Bz = func() (prefixed, disambiguated []byte) {
		d, p := disfix(collName1)
		body := append(p[:len(p):len(p)], 8, 7)
		prefixed = append([]byte{0x0a, byte(len(body))}, body...)
		body = append(append([]byte{0}, d[:]...), body...)
		disambiguated = append([]byte{0x0a, byte(len(body))}, body...)
		return
	}
	coll1JSON = fmt.Sprintf(`{"I":{"type":%q,"value":{"A":"7"}}}`, collName1)
)

func concOps() []concOp {
	kt1Bz := []byte{8, 5, 0x12, 0x0f, 0x0a, 1, 's', 0x12, 4, 8, 2, 0x10, 4, 0x12, 4, 8, 6, 0x10, 8}
	pbz, dbz := coll1Bz()
	mar := func(v interface{}) func(*amino.Codec) string {
		return func(cdc *amino.Codec) string { return outcome(cdc.MarshalBinaryBare(v)) }
	}
	return []concOp{
		{"MarshalT1", mar(&kt1)},
		{"UnmarshalT1", func(cdc *amino.Codec) string {
			var v KT1
			err := cdc.UnmarshalBinaryBare(kt1Bz, &v)
			return outcome(showJ(v), err)
		}},
		{"JSONT1", func(cdc *amino.Codec) string { return outcome(cdc.MarshalJSON(kt1)) }},
		{"UnJSONT2", func(cdc *amino.Codec) string {
			var v KT2
			err := cdc.UnmarshalJSON([]byte(`{"S":"q","L":[{"X":1,"Y":2},null]}`), &v)
			return outcome(showJ(v), err)
		}},
		{"MarshalAm", mar([]KAm{{"ab"}, {""}})},
		{"UnmarshalAm", func(cdc *amino.Codec) string {
			var v KAm
			err := cdc.UnmarshalBinaryBare([]byte{8, 6}, &v)
			return outcome(showJ(v), err)
		}},
		{"MarshalC", mar(KIn{KC{3}})},
		{"UnmarshalC", func(cdc *amino.Codec) string {
			_, p := disfix("k/c")
			var v KIn
			err := cdc.UnmarshalBinaryBare(append([]byte{0x0a, 6}, append(p[:len(p):len(p)], 8, 7)...), &v)
			return outcome(showJ(v), err)
		}},
		{"MarshalC1", mar(KIn{KC1{7}})},
		{"UnmarshalC1", func(cdc *amino.Codec) string {
			var v KIn
			err := cdc.UnmarshalBinaryBare(pbz, &v)
			return outcome(showJ(v), err)
		}},
		{"UnmarshalDisambC1", func(cdc *amino.Codec) string {
			var v KIn
			err := cdc.UnmarshalBinaryBare(dbz, &v)
			return outcome(showJ(v), err)
		}},
		{"JSONC1", func(cdc *amino.Codec) string { return outcome(cdc.MarshalJSON(KIn{KC1{7}})) }},
		{"UnJSONC1", func(cdc *amino.Codec) string {
			var v KIn
			err := cdc.UnmarshalJSON([]byte(coll1JSON), &v)
			return outcome(showJ(v), err)
		}},
		{"RegisterC1", func(cdc *amino.Codec) string { cdc.RegisterConcrete(KC1{}, collName1, nil); return "ok" }},
		{"RegisterC2", func(cdc *amino.Codec) string { cdc.RegisterConcrete(KC2{}, collName2, nil); return "ok" }},
		{"RegisterC2SameName", func(cdc *amino.Codec) string { cdc.RegisterConcrete(KC2{}, collName1, nil); return "ok" }},
		{"RegisterP", func(cdc *amino.Codec) string { cdc.RegisterConcrete(&KP{}, "k/p", nil); return "ok" }},
		{"RegisterT1", func(cdc *amino.Codec) string { cdc.RegisterConcrete(KT1{}, "k/t1", nil); return "ok" }},
		{"RegisterJ", func(cdc *amino.Codec) string { cdc.RegisterInterface((*KJ)(nil), nil); return "ok" }},
		{"MarshalJ", mar(KJn{KC{3}})},
		{"Seal", func(cdc *amino.Codec) string { return fmt.Sprint(cdc.Seal() == cdc) }},
		{"PrintTypes", func(cdc *amino.Codec) string {
			var b bytes.Buffer
			err := cdc.PrintTypes(&b)
			return outcome(b.String(), err)
		}},
		{"MarshalBad", mar(KBad{1})},
		{"MarshalT3LenPrefixed", func(cdc *amino.Codec) string { return outcome(cdc.MarshalBinaryLengthPrefixed(KT3{1, 2})) }},
	}
}

func showJ(v interface{}) string { b, _ := json.Marshal(v); return fmt.Sprintf("%T%s", v, b) }

// finalProbes look at everything that the operations may have changed.
func finalProbes() []concOp {
	ops := concOps()
	by := map[string]concOp{}
	for _, o := range ops {
		by[o.name] = o
	}
	var out []concOp
	for _, n := range []string{"PrintTypes", "MarshalT1", "MarshalC1", "UnmarshalDisambC1", "UnmarshalC1", "UnJSONC1", "MarshalC", "MarshalJ"} {
		out = append(out, by[n])
	}
	out = append(out, concOp{"MarshalC2", func(cdc *amino.Codec) string { return outcome(cdc.MarshalBinaryBare(KIn{KC2{"z"}})) }},
		concOp{"JSONP", func(cdc *amino.Codec) string { return outcome(cdc.MarshalJSON(KIn{&KP{}})) }},
		concOp{"isSealed", func(cdc *amino.Codec) string {
			cdc.RegisterInterface((*interface{ Never() })(nil), nil)
			return "unsealed"
		}})
	return out
}

// ---- scenarios

type scenario struct {
	key   string
	ops   [][]concOp // per thread
	bound int        // preemptions
}

func scenarios(thorough bool) (out []scenario) {
	ops := concOps()
	pb2, pb3, pb4 := 3, 2, 2
	if thorough {
		pb2, pb3, pb4 = 5, 3, 3
	}
	by := map[string]concOp{}
	for _, o := range ops {
		by[o.name] = o
	}
	for i, a := range ops {
		for _, b := range ops[i:] {
			out = append(out, scenario{a.name + " | " + b.name, [][]concOp{{a}, {b}}, pb2})
		}
	}
	// Threads of two operations, and three threads.
	pick := []string{"MarshalC1", "UnmarshalC1", "RegisterC1", "RegisterC2", "Seal", "PrintTypes", "RegisterJ", "MarshalT1"}
	if thorough {
		pick = append(pick, "UnmarshalDisambC1", "JSONC1", "RegisterT1", "MarshalJ", "UnJSONC1", "RegisterC2SameName", "MarshalBad", "MarshalAm")
	}
	for i, a := range pick {
		for j, b := range pick[i:] {
			for _, d := range pick[i+j:] {
				out = append(out, scenario{a + " | " + b + " | " + d, [][]concOp{{by[a]}, {by[b]}, {by[d]}}, pb3})
			}
		}
	}
	pick2 := [][2]string{{"RegisterC1", "MarshalC1"}, {"RegisterC2", "UnmarshalC1"}, {"MarshalC1", "MarshalC1"}, {"Seal", "RegisterC1"},
		{"RegisterC1", "Seal"}, {"UnmarshalC1", "UnmarshalDisambC1"}, {"RegisterJ", "RegisterC1"}, {"MarshalT1", "RegisterT1"},
		{"MarshalBad", "RegisterC1"}, {"PrintTypes", "PrintTypes"}, {"UnmarshalT1", "UnmarshalT1"}, {"Seal", "PrintTypes"}}
	for i, a := range pick2 {
		for _, b := range pick2[i:] {
			out = append(out, scenario{a[0] + "," + a[1] + " | " + b[0] + "," + b[1],
				[][]concOp{{by[a[0]], by[a[1]]}, {by[b[0]], by[b[1]]}}, pb4})
		}
	}
	return
}

type shardResult struct {
	Key, Msg            string
	Schedules, Steps    int64
	Scenarios, Distinct int64
	Cut                 int64
	Sample              string
}

type opRec struct {
	thr, idx   int
	begin, end int
	res        string
}

// explore runs all schedules of a scenario within its bound; it returns
// what's wrong.
func (s *scenario) explore(r *shardResult, limit int) string {
	probes := finalProbes()
	total := 0
	for _, t := range s.ops {
		total += len(t)
	}
	finish := func(cdc *amino.Codec) (string, string) {
		var parts []string
		for _, p := range probes {
			res, misuse := p.run(cdc)
			if misuse != "" {
				return "", p.name + ": " + misuse
			}
			parts = append(parts, p.name+"="+res)
		}
		return strings.Join(parts, "; "), ""
	}
	// Results of sequential executions, by order.
	seqCache := map[string]string{}
	seq := func(order []int) (string, string) {
		k := fmt.Sprint(order)
		if v, ok := seqCache[k]; ok {
			return v, ""
		}
		cdc := concCodec()
		next := make([]int, len(s.ops))
		res := make([][]string, len(s.ops))
		for _, t := range order {
			v, misuse := s.ops[t][next[t]].run(cdc)
			if misuse != "" {
				return "", misuse
			}
			next[t]++
			res[t] = append(res[t], v)
		}
		f, misuse := finish(cdc)
		v := fmt.Sprint(res) + f
		seqCache[k] = v
		return v, misuse
	}
	w := new(ctlsync.World)
	seen := map[string]bool{}
	n := 0
	for {
		cdc := concCodec()
		recs := make([][]opRec, len(s.ops))
		var misuses [ctlsync.MaxThreads]string
		fs := make([]func(), len(s.ops))
		for t := range s.ops {
			t := t
			recs[t] = make([]opRec, len(s.ops[t]))
			fs[t] = func() {
				for i, o := range s.ops[t] {
					b := ctlsync.Now()
					v, m := o.run(cdc)
					recs[t][i] = opRec{t, i, b, ctlsync.Now(), v}
					if m != "" {
						misuses[t] = o.name + ": " + m
					}
				}
			}
		}
		w.Run(fs)
		n++
		r.Schedules++
		r.Steps += int64(w.NChoices)
		trace := func() string {
			var tr []string
			for i := 0; i < w.NChoices; i++ {
				tr = append(tr, strconv.Itoa(int(w.Taken[i])))
			}
			return "choices " + strings.Join(tr, "")
		}
		if w.Deadlock {
			return "deadlock: every goroutine waits for a lock; " + trace()
		}
		if w.Runaway {
			return "an operation doesn't end; " + trace()
		}
		if w.Diverged {
			return "" // not deterministic; can't be explored
		}
		for _, m := range misuses {
			if m != "" {
				return m + "; " + trace()
			}
		}
		f, misuse := finish(cdc)
		if misuse != "" {
			return "afterwards: " + misuse + "; " + trace()
		}
		var all []opRec
		res := make([][]string, len(s.ops))
		for t := range recs {
			for _, o := range recs[t] {
				all = append(all, o)
				res[t] = append(res[t], o.res)
			}
		}
		got := fmt.Sprint(res) + f
		seen[got] = true
		// Some sequential order that respects real time must give the same.
		var seqErr string
		done := make([]int, len(s.ops))
		var rec func(order []int) bool
		rec = func(order []int) bool {
			if len(order) == total {
				v, m := seq(order)
				if m != "" {
					seqErr = m
				}
				return v == got
			}
			for t := range s.ops {
				if done[t] == len(s.ops[t]) {
					continue
				}
				o := recs[t][done[t]]
				ok := true
				for t2 := range s.ops {
					for i := done[t2]; i < len(s.ops[t2]); i++ {
						if recs[t2][i].end < o.begin {
							ok = false
						}
					}
				}
				if !ok {
					continue
				}
				done[t]++
				if rec(append(order[:len(order):len(order)], t)) {
					return true
				}
				done[t]--
			}
			return false
		}
		if !rec(nil) {
			if seqErr != "" {
				return "even sequentially: " + seqErr
			}
			var tl []string
			for _, o := range all {
				tl = append(tl, fmt.Sprintf("%s[%d..%d]=%s", s.ops[o.thr][o.idx].name, o.begin, o.end, o.res))
			}
			return "no sequential order of the operations gives this: " + strings.Join(tl, ", ") + "; then " + f + "; " + trace()
		}
		// Next schedule.
		cost := make([]int, w.NChoices+1)
		for i := 0; i < w.NChoices; i++ {
			cost[i+1] = cost[i]
			if w.CurOn[i] && w.Taken[i] != 0 {
				cost[i+1]++
			}
		}
		i := w.NChoices - 1
		for ; i >= 0; i-- {
			if w.Taken[i]+1 >= w.Alts[i] {
				continue
			}
			c := cost[i]
			if w.CurOn[i] {
				c++
			}
			if c <= s.bound {
				break
			}
		}
		if i < 0 {
			break
		}
		if n >= limit {
			r.Cut++
			break
		}
		copy(w.Script[:i], w.Taken[:i])
		w.Script[i] = w.Taken[i] + 1
		w.ScriptLen = i + 1
	}
	r.Distinct += int64(len(seen))
	if len(seen) > 1 && r.Sample == "" {
		r.Sample = fmt.Sprintf("%s: %d schedules, %d different outcomes, e.g. choices %v", s.key, n, len(seen), w.Taken[:w.NChoices])
	}
	return ""
}

// propC16 explores in several processes, because the controlled scheduler
// runs one execution at a time, and because a data race ends the process.
func propC16(c *Ctx) {
	if sh := os.Getenv("AMC_SHARD"); sh != "" {
		concShard(c, sh)
		return
	}
	scs := scenarios(c.Thorough)
	c.Bound("scenarios", len(scs))
	c.Bound("threads", "2 threads x 1 operation, 3 x 1, 2 x 2")
	c.Bound("race_detector", ctlsync.RaceEnabled)
	c.Bound("preemption_bound", map[string]int{"2x1": scs[0].bound, "others": scs[len(scs)-1].bound})
	c.Assume("schedules differ at synchronization operations only; that this suffices is what the happens-before race detection on every schedule establishes")
	shards := runtime.NumCPU()
	if c.Only != "" {
		shards = 1
	}
	var mu sync.Mutex
	var tot shardResult
	c.ParallelN(shards, shards, func(_, i int) {
		for attempt := 0; ; attempt++ {
			out := filepath.Join(workDir, fmt.Sprintf("shard%d.json", i))
			os.Remove(out)
			args := []string{"-child", "-prop", "C16", "-tier", tierName, "-repo", repoDir, "-work", workDir}
			if c.Only != "" {
				args = append(args, "-only", c.Only)
			}
			cmd := exec.Command("/proc/self/exe", args...)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0",
				fmt.Sprintf("AMC_SHARD=%d/%d/%s", i, shards, out))
			var buf bytes.Buffer
			cmd.Stderr = &buf
			err := cmd.Run()
			b, _ := os.ReadFile(out)
			var r shardResult
			if err == nil && json.Unmarshal(b, &r) == nil {
				mu.Lock()
				tot.Schedules += r.Schedules
				tot.Steps += r.Steps
				tot.Scenarios += r.Scenarios
				tot.Distinct += r.Distinct
				tot.Cut += r.Cut
				mu.Unlock()
				c.State(int(r.Schedules))
				c.Trace(int(r.Schedules))
				c.Transition(int(r.Steps))
				if r.Sample != "" {
					c.Sample("schedules", "%s", r.Sample)
				}
				if r.Msg != "" {
					c.Violate(r.Key, "%s", r.Msg)
				}
				return
			}
			// Races and crashes name the scenario last printed.
			key := "crash"
			txt := buf.String()
			if j := strings.LastIndex(txt, "SCENARIO "); j >= 0 {
				key = strings.SplitN(txt[j+9:], "\n", 2)[0]
				txt = txt[j:]
			}
			if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 66 || attempt > 0 {
				c.Violate(key, "exit: %v\n%s", err, txt)
				return
			}
		}
	})
	c.Bound("schedules_cut_at_the_limit_in_scenarios", tot.Cut)
	c.AddOutcomes(map[string]int64{"scenarios explored": tot.Scenarios, "distinct outcomes summed over scenarios": tot.Distinct})
}

func concShard(c *Ctx, sh string) {
	p := strings.SplitN(sh, "/", 3)
	me, _ := strconv.Atoi(p[0])
	of, _ := strconv.Atoi(p[1])
	limit := 20000
	if c.Thorough {
		limit = 400000
	}
	var r shardResult
	for i, s := range scenarios(c.Thorough) {
		if c.Only != "" && s.key != c.Only || c.Only == "" && i%of != me {
			continue
		}
		if c.Over() {
			r.Cut++
			continue
		}
		fmt.Fprintln(os.Stderr, "SCENARIO "+s.key)
		r.Scenarios++
		if msg := s.explore(&r, limit); msg != "" {
			r.Key, r.Msg = s.key, msg
			break
		}
	}
	b, _ := json.Marshal(r)
	os.WriteFile(p[2], b, 0o644)
	os.Exit(0)
}
