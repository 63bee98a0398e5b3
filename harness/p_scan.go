package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync/atomic"
	"time"
)

func init() { props["C27"] = propC27 }

var reANSI = regexp.MustCompile("\x1b\\[[0-9;]*m")

// scanField is a key that the model finds, and its value.
type scanField struct {
	key, val   []byte
	num        uint64
	wire       int
	shown      []string // what the line of the value has to show
	incomplete bool
}

// scanModel says what aminoscan has to find: complete fields and keys, and
// how many bytes they take; ok if nothing is left over.
func scanModel(b []byte) (fs []scanField, n int, ok bool) {
	for len(b) > n {
		u, k := varintAt(b[n:])
		if k == 0 {
			return fs, n, false
		}
		f := scanField{key: b[n : n+k], num: u >> 3, wire: int(u & 7), incomplete: true}
		n += k
		rest := b[n:]
		v := -1
		switch f.wire {
		case wVarint:
			if u, k := varintAt(rest); k > 0 {
				v = k
				f.shown = []string{fmt.Sprintf("i64:%d", int64(u>>1)^-int64(u&1)), fmt.Sprintf("u64:%d", u)}
			}
		case w8:
			if len(rest) >= 8 {
				v = 8
			}
		case w4:
			if len(rest) >= 4 {
				v = 4
			}
		case wBytes:
			if u, k := varintAt(rest); k > 0 && u <= uint64(len(rest)-k) {
				v = k + int(u)
				f.shown = []string{fmt.Sprintf("(%d bytes)", u)}
			}
		}
		if v < 0 {
			return append(fs, f), n, false
		}
		f.val, f.incomplete = rest[:v], false
		fs = append(fs, f)
		n += v
	}
	return fs, n, true
}

// varintAt is the varint at the start of b and its length, 0 if there's none
// or it exceeds 64 bits.
func varintAt(b []byte) (u uint64, n int) {
	for i, x := range b {
		if i == 9 && x > 1 {
			return 0, 0
		}
		u |= uint64(x&0x7f) << uint(7*i)
		if x < 0x80 {
			return u, i + 1
		}
		if i == 9 {
			return 0, 0
		}
	}
	return 0, 0
}

type cut struct {
	buf  bytes.Buffer
	over func()
}

func (l *cut) Write(p []byte) (int, error) {
	if l.buf.Len() > 1<<21 {
		l.over()
		return 0, fmt.Errorf("too much output")
	}
	return l.buf.Write(p)
}

// runScan runs aminoscan to its end.
func runScan(args ...string) (out string, problem string) {
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(workDir, "aminoscan"), args...)
	o := &cut{over: cancel}
	var serr bytes.Buffer
	cmd.Stdout, cmd.Stderr = o, &limited{buf: &serr, max: 4096}
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	if o.buf.Len() > 1<<21 {
		return "", "prints without end"
	}
	if err != nil {
		return "", fmt.Sprintf("%v: %s", err, serr.String())
	}
	return o.buf.String(), ""
}

// C27: aminoscan, as a user runs it.
func propC27(c *Ctx) {
	var wrong int64
	one := func(b []byte) {
		if atomic.LoadInt64(&wrong) > 20 {
			return
		}
		c.State(1)
		c.Transition(1)
		c.Trace(1)
		bad := func(format string, args ...interface{}) {
			atomic.AddInt64(&wrong, 1)
			c.Violate("scan "+hex.EncodeToString(b), "aminoscan %X: "+format, append([]interface{}{b}, args...)...)
		}
		raw, problem := runScan(fmt.Sprintf("%X", b))
		if problem != "" {
			bad("%s", problem)
			return
		}
		fs, n, ok := scanModel(b)
		lines := strings.Split(strings.TrimRight(reANSI.ReplaceAllString(raw, ""), "\n"), "\n")
		last := lines[len(lines)-1]
		want := fmt.Sprintf("%X %d ", b, n)
		if !strings.HasPrefix(last, want) || (last == want+"<nil>") != ok {
			bad("the last line is %q, want %q with an error: %v", last, want, !ok)
			return
		}
		// What's parsed isn't red, the rest is.
		rawLines := strings.Split(strings.TrimRight(raw, "\n"), "\n")
		rl := rawLines[len(rawLines)-1]
		if i := strings.LastIndex(rl, ANSIred); i >= 0 {
			rest := rl[i+len(ANSIred):]
			if j := strings.Index(rest, "\x1b[0m"); j < 0 || rest[:j] != fmt.Sprintf("%X", b[n:]) {
				bad("the rest is shown as %q, want %X", rest, b[n:])
				return
			}
		}
		// The lines of the fields before.
		var got []string
		for _, l := range lines[:len(lines)-1] {
			if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "##") {
				got = append(got, l)
			}
		}
		k := 0
		next := func() string {
			if k++; k > len(got) {
				return ""
			}
			return got[k-1]
		}
		for _, f := range fs {
			l := next()
			if !strings.HasPrefix(l, fmt.Sprintf("%X ", f.key)) || f.num < 1<<32 && !strings.Contains(l, fmt.Sprintf("@%d ", f.num)) {
				bad("the line of the key %X (field %d) is %q", f.key, f.num, l)
				return
			}
			if f.incomplete {
				break
			}
			l = next()
			if !strings.HasPrefix(l, fmt.Sprintf("%X", f.val)) {
				bad("the line of the value %X is %q", f.val, l)
				return
			}
			for _, s := range f.shown {
				if !strings.Contains(l, s) {
					bad("the line of the value %X is %q, want %q in it", f.val, l, s)
					return
				}
			}
		}
		if k != len(got) {
			bad("prints lines for more than the fields: %q", got)
			return
		}
		if len(b) > 5 {
			c.Sample(fmt.Sprintf("well-formed: %v", ok), "%X: %s", b, last)
		}
		c.Outcome(fmt.Sprintf("well-formed: %v", ok))
	}
	var ins [][]byte
	seen := map[string]bool{}
	add := func(b []byte) {
		if !seen[string(b)] {
			seen[string(b)] = true
			ins = append(ins, append([]byte{}, b...))
		}
	}
	// All short strings.
	add(nil)
	for i := 0; i < 256; i++ {
		add([]byte{byte(i)})
	}
	if c.Thorough {
		for i := 0; i < 65536; i++ {
			add([]byte{byte(i), byte(i >> 8)})
		}
	} else {
		for i := 0; i < 256; i++ {
			for _, x := range []byte{0, 1, 2, 8, 0x0a, 0x7f, 0x80, 0xff} {
				add([]byte{byte(i), x})
				add([]byte{x, byte(i)})
			}
		}
	}
	// All sequences of a few bytes.
	al := []byte{0x00, 0x01, 0x02, 0x08, 0x09, 0x0a, 0x0d, 0x80}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	var rec func(b []byte, left int)
	rec = func(b []byte, left int) {
		add(b)
		if left > 0 {
			for _, x := range al {
				rec(append(b[:len(b):len(b)], x), left-1)
			}
		}
	}
	rec(nil, depth)
	// All sequences of keys and values, good and bad.
	keys := [][]byte{key(1, 0), key(1, 1), key(2, 2), key(3, 5), key(1, 3), key(16, 4), key(1<<29-1, 0), key(1, 6), key(7, 7), {0x88, 0}, maxU64, overU64, longU64, {0x80}, key(0, 0)}
	vals := [][]byte{{}, {0}, {5}, maxU64, overU64, longU64, {0x80, 0}, {1, 'a'}, {3, 'a', 0x80, 0xff}, {2, 1}, {1, 2, 3, 4}, {1, 2, 3, 4, 5, 6, 7}, {1, 2, 3, 4, 5, 6, 7, 8}, hugeLen63, lenPrefixed(bytes.Repeat([]byte{0xaa}, 130)), {0xff}}
	for _, k := range keys {
		for _, v := range vals {
			f := append(append([]byte{}, k...), v...)
			add(f)
			for _, k2 := range keys[:8] {
				add(append(f[:len(f):len(f)], k2...))
				for _, v2 := range vals[:9] {
					x := append(append(f[:len(f):len(f)], k2...), v2...)
					add(x)
				}
			}
		}
	}
	// Cuts of a long one.
	var long []byte
	for _, p := range [][]byte{key(1, 0), {5}, key(2, 2), {3, 1, 2, 3}, key(3, 5), {1, 2, 3, 4}, key(300, 1), make([]byte, 8), key(4, 0), maxU64, key(1, 2), {0}} {
		long = append(long, p...)
	}
	for i := range long {
		add(long[:i])
		add(append(append([]byte{}, long[:i]...), long[i+1:]...))
		add(append(append(append([]byte{}, long[:i]...), 0x80), long[i:]...))
	}
	c.Bound("byte_strings", len(ins))
	c.Bound("sequences_of_few_bytes_up_to_length", depth)
	c.Assume("hex digits in capitals; the wire type's name isn't judged; a field number of 2^32 or more neither")
	c.Parallel(len(ins), func(w, i int) {
		c.Case(w, "scan "+hex.EncodeToString(ins[i]), func() { one(ins[i]) })
	})
	// The other modes.
	for _, name := range append(zeroNames, "a", "c/x", oddName, "with space", strings.Repeat("n", 300), "-x", "--color") {
		name := name
		c.Case(0, "name "+name, func() {
			d, p := disfix(name)
			out, problem := runScan("--concrete-name=" + name)
			c.State(1)
			c.Transition(1)
			if want := fmt.Sprintf("%X", d); problem != "" || !strings.Contains(out, want) || !strings.Contains(out, fmt.Sprintf("%X", p)) {
				c.Violate("name "+name, "aminoscan --concrete-name=%q prints %q, %s, want %X and %X", name, out, problem, d, p)
			}
		})
	}
	for i := 0; i < 256; i++ {
		b := []byte{byte(i), 'x', byte(255 - i)}
		c.Case(0, "color "+hex.EncodeToString(b), func() {
			var want string
			for _, x := range b {
				if x > ' ' && x < 0x7f {
					want += string(rune(x))
				} else {
					want += fmt.Sprintf("%02X", x)
				}
			}
			out, problem := runScan("--color", hex.EncodeToString(b))
			c.State(1)
			c.Transition(1)
			if got := strings.TrimRight(reANSI.ReplaceAllString(out, ""), "\n"); problem != "" || got != want {
				c.Violate("color "+hex.EncodeToString(b), "aminoscan --color %x prints %q, %s, want %q", b, got, problem, want)
			}
		})
	}
}

const ANSIred = "\x1b[31m"
