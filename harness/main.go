package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"time"
)

var props = map[string]func(*Ctx){}

var repoDir, workDir string

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	verif := flag.String("verif", "/verif", "")
	only := flag.String("only", "", "")
	child := flag.Bool("child", false, "")
	flag.StringVar(&repoDir, "repo", "/repo", "")
	flag.StringVar(&workDir, "work", "", "")
	flag.Parse()
	f, ok := props[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	tierName = *tier
	evidencePath = filepath.Join(*verif, "evidence", *prop+".json")
	replayDir = filepath.Join(*verif, "replays")
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	if !*child {
		supervise(*prop)
		return
	}
	debug.SetMemoryLimit(20 << 30)
	c := newCtx(*prop, *tier, seed, *only)
	c.loadKnown(filepath.Join(*verif, "known-findings.txt"))
	go c.watchdog()
	f(c)
	c.Finish()
}

// supervise runs the exploration in a child process, because the code under
// test may bring the process down (stack overflow, deadlock, concurrent map
// access, exhausted memory).  A run that dies twice is a violation.
func supervise(prop string) {
	var last string
	for attempt := 0; attempt < 2; attempt++ {
		cmd := exec.Command("/proc/self/exe", append([]string{"-child"}, os.Args[1:]...)...)
		var buf bytes.Buffer
		cmd.Stdout = os.Stdout
		cmd.Stderr = io.MultiWriter(os.Stderr, &limited{buf: &buf, max: 1 << 20})
		err := cmd.Run()
		if err == nil {
			os.Exit(0)
		}
		if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 1 {
			os.Exit(1)
		}
		last = fmt.Sprintf("the exploring process died: %v\n%s", err, buf.String())
		fmt.Fprintf(os.Stderr, "attempt %d: exploring process died: %v\n", attempt, err)
		time.Sleep(2 * time.Second)
	}
	c := newCtx(prop, tierName, 0, "")
	c.Violate("crash", "%s", last)
	c.Finish()
}

type limited struct {
	buf *bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.buf.Len() < l.max {
		l.buf.Write(p)
	}
	return len(p), nil
}
