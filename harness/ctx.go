package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx is the state of one run of one property's exploration.
type Ctx struct {
	Prop     string
	Thorough bool
	Seed     int
	Only     string // if set, only run the case with this key (replay)
	start    time.Time
	deadline time.Time

	states, transitions, traces int64
	truncated                   int32 // a bound was cut short by the internal deadline

	mu          sync.Mutex
	samples     []string
	sampleEvery map[string]int
	bounds      map[string]interface{}
	outcomes    map[string]int64
	violations  []violation
	assumptions []string
	known       map[string]string // key -> description
	knownSeen   map[string]bool

	slots []slot
}

type slot struct {
	start int64 // unix nano at which the running case started, 0 if idle
	key   atomic.Value
	_     [64]byte
}

type violation struct{ Key, Msg string }

func newCtx(prop, tier string, seed int, only string) *Ctx {
	c := &Ctx{Prop: prop, Thorough: tier == "thorough", Seed: seed, Only: only, start: time.Now(),
		sampleEvery: map[string]int{}, bounds: map[string]interface{}{}, outcomes: map[string]int64{},
		known: map[string]string{}, knownSeen: map[string]bool{}}
	budget := 400 * time.Second
	if c.Thorough {
		budget = 720 * time.Second
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
		budget = time.Duration(n) * time.Second
	}
	c.deadline = c.start.Add(budget)
	c.slots = make([]slot, runtime.NumCPU()*2)
	return c
}

// Over reports whether the internal time budget is used up; the run then ends
// without a verdict on what was left, and says so.
func (c *Ctx) Over() bool {
	if time.Now().After(c.deadline) {
		atomic.StoreInt32(&c.truncated, 1)
		return true
	}
	return false
}

func (c *Ctx) State(n int)      { atomic.AddInt64(&c.states, int64(n)) }
func (c *Ctx) Transition(n int) { atomic.AddInt64(&c.transitions, int64(n)) }
func (c *Ctx) Trace(n int)      { atomic.AddInt64(&c.traces, int64(n)) }

func (c *Ctx) Bound(name string, v interface{}) {
	c.mu.Lock()
	c.bounds[name] = v
	c.mu.Unlock()
}

func (c *Ctx) Assume(s string) {
	c.mu.Lock()
	c.assumptions = append(c.assumptions, s)
	c.mu.Unlock()
}

// Outcome counts distinct classes of observed behaviour, to show that the
// exploration isn't vacuous.
func (c *Ctx) Outcome(kind string) {
	c.mu.Lock()
	c.outcomes[kind]++
	c.mu.Unlock()
}

func (c *Ctx) AddOutcomes(m map[string]int64) {
	c.mu.Lock()
	for k, v := range m {
		c.outcomes[k] += v
	}
	c.mu.Unlock()
}

// Sample keeps a few actual cases of each kind.
func (c *Ctx) Sample(kind, format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sampleEvery[kind] >= 2 {
		return
	}
	c.sampleEvery[kind]++
	s := fmt.Sprintf(format, args...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	c.samples = append(c.samples, kind+": "+s)
}

// Violate reports that the property is broken in the case named key.
func (c *Ctx) Violate(key, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	c.mu.Lock()
	defer c.mu.Unlock()
	if d, ok := c.known[key]; ok {
		if !c.knownSeen[key] {
			c.knownSeen[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, d)
		}
		return
	}
	for _, v := range c.violations {
		if v.Key == key {
			return
		}
	}
	if len(c.violations) < 50 {
		if len(msg) > 4000 {
			msg = msg[:4000] + "..."
		}
		c.violations = append(c.violations, violation{key, msg})
	}
}

func (c *Ctx) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.violations)
}

// Case runs f as one case in the given worker slot, turning panics of f that
// f didn't handle into violations; keys select cases on replay.
func (c *Ctx) Case(w int, key string, f func()) {
	if c.Only != "" && c.Only != key {
		return
	}
	s := &c.slots[w]
	s.key.Store(key)
	atomic.StoreInt64(&s.start, time.Now().UnixNano())
	defer func() {
		atomic.StoreInt64(&s.start, 0)
		if r := recover(); r != nil {
			c.Violate(key, "panic: %v\n%s", r, debug.Stack())
		}
	}()
	f()
}

// watchdog turns a case that doesn't end into a violation.
func (c *Ctx) watchdog() {
	const limit = 200 * time.Second
	for {
		time.Sleep(2 * time.Second)
		now := time.Now().UnixNano()
		for i := range c.slots {
			st := atomic.LoadInt64(&c.slots[i].start)
			if st != 0 && time.Duration(now-st) > limit {
				key := c.slots[i].key.Load().(string)
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				c.Violate(key, "the case didn't end within %v:\n%s", limit, buf[:n])
				c.Finish()
			}
		}
	}
}

// Parallel runs f(worker, i) for i in [0, n) on all cores.
func (c *Ctx) Parallel(n int, f func(w, i int)) {
	c.ParallelN(runtime.NumCPU(), n, f)
}

func (c *Ctx) ParallelN(workers, n int, f func(w, i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Over() {
					return
				}
				f(w, i)
			}
		}(w)
	}
	wg.Wait()
}

func (c *Ctx) loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> <description>
		if !strings.HasPrefix(line, "finding: property="+c.Prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(line, "finding: property="+c.Prop+" key=")
		i := strings.IndexByte(rest, ' ')
		if i < 0 {
			continue
		}
		c.known[rest[:i]] = rest[i+1:]
	}
}

var (
	evidencePath string
	replayDir    string
	tierName     string
	finishOnce   sync.Mutex
)

// Finish writes the evidence and ends the process with 0 or 1.
func (c *Ctx) Finish() {
	finishOnce.Lock() // never unlocked: the first caller ends the process
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.Only == "" {
		c.writeEvidence()
	}
	if len(c.violations) == 0 {
		fmt.Printf("OK property=%s states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs\n", c.Prop,
			c.states, c.transitions, c.traces, c.truncated == 0, time.Since(c.start).Seconds())
		os.Exit(0)
	}
	for i, v := range c.violations {
		if i >= 5 && os.Getenv("VERIF_ALL") == "" {
			break
		}
		path := c.writeReplay(v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
		msg := v.Msg
		if len(msg) > 1500 {
			msg = msg[:1500] + "..."
		}
		fmt.Printf("  case %s: %s\n", v.Key, msg)
	}
	os.Exit(1)
}

func (c *Ctx) writeReplay(v violation) string {
	os.MkdirAll(replayDir, 0o755)
	h := sha256.Sum256([]byte(v.Key))
	path := filepath.Join(replayDir, fmt.Sprintf("%s-%x.json", c.Prop, h[:6]))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": c.Prop, "tier": tierName, "case": v.Key, "message": v.Msg,
		"replay": fmt.Sprintf("/verif/check %s %s --only '%s'", c.Prop, tierName, v.Key),
	}, "", "  ")
	os.WriteFile(path, b, 0o644)
	return path
}

func (c *Ctx) writeEvidence() {
	samples := c.samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	cov := map[string]interface{}{
		"states": c.states, "transitions": c.transitions,
		"traces_validated_against_impl": c.traces,
		"samples":                       samples, "exhaustive": c.truncated == 0,
		"bounds": c.bounds,
	}
	if len(c.outcomes) > 0 {
		keys := make([]string, 0, len(c.outcomes))
		for k := range c.outcomes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if len(keys) > 60 {
			cov["distinct_outcomes_total"] = len(keys)
			keys = keys[:60]
		}
		o := map[string]int64{}
		for _, k := range keys {
			o[k] = c.outcomes[k]
		}
		cov["outcomes"] = o
	}
	ev := map[string]interface{}{
		"property": c.Prop, "tier": tierName, "seed": c.Seed, "level": "model_checking",
		"coverage": cov, "assumptions": c.assumptions,
		"wall_s": time.Since(c.start).Seconds(), "violations": len(c.violations),
	}
	if c.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(evidencePath), 0o755)
	os.WriteFile(evidencePath, append(b, '\n'), 0o644)
}

// try calls f and returns what it panicked with, if it did.
func try(f func()) (pv interface{}) {
	defer func() {
		if r := recover(); r != nil {
			pv = r
		}
	}()
	f()
	return nil
}
