//go:build go1.21

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	realos "os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/bytesparadise/libasciidoc/verifsim/sim"
)

// Every simulated run takes place in a process of its own (12 ms), so that no
// run sees the process-wide state another one left behind, and so that
// replaying a run needs nothing but its scenario.

const childWall = 240 * time.Second

// Exec runs scenarios
type Exec struct {
	bin   string
	slots chan struct{}
	mu    sync.Mutex
	cache map[string]*refEntry
	env   []string

	Runs    int64
	RefRuns int64
}

type refEntry struct {
	once sync.Once
	res  *RunResult
	err  error
}

func newExec(bin string, par int) *Exec {
	return &Exec{bin: bin, slots: make(chan struct{}, par), cache: map[string]*refEntry{}}
}

// infra is an error of the machinery: the check ends with neither 0 nor 1
type infra struct{ msg string }

func (i infra) Error() string { return i.msg }

// Run executes a scenario in a fresh process
func (e *Exec) Run(sc *Scenario) (*RunResult, error) {
	in, err := json.Marshal(sc)
	if err != nil {
		return nil, infra{err.Error()}
	}
	return e.runBytes(in)
}

func (e *Exec) runBytes(in []byte) (*RunResult, error) {
	e.slots <- struct{}{}
	defer func() { <-e.slots }()
	var lastErr error
	for try := 0; try < 2; try++ {
		atomic.AddInt64(&e.Runs, 1)
		ctx, cancel := context.WithTimeout(context.Background(), childWall)
		cmd := exec.CommandContext(ctx, e.bin, "run")
		cmd.Stdin = bytes.NewReader(in)
		var out bytes.Buffer
		errb := &tail{max: 64 << 10}
		cmd.Stdout = &out
		cmd.Stderr = errb
		cmd.Env = append(realos.Environ(), e.env...)
		err := cmd.Run()
		late := ctx.Err() != nil
		cancel()
		if late && err != nil {
			return nil, infra{fmt.Sprintf("watchdog: a run took more than %v; scenario: %s", childWall, clip(string(in), 2000))}
		}
		res := &RunResult{}
		if i := bytes.LastIndex(out.Bytes(), []byte("\nRESULT ")); i >= 0 {
			if err := json.Unmarshal(out.Bytes()[i+8:], res); err != nil {
				return nil, infra{"bad result: " + err.Error()}
			}
			if res.Unsupported != "" {
				return nil, infra{"the code under test uses something the simulator does not model: " + res.Unsupported}
			}
			if res.Races > 0 {
				res.RaceText = errb.String()
			}
			return res, nil
		}
		s := errb.String()
		switch {
		case strings.Contains(s, "goroutine stack exceeds"):
			res.Crash = "fatal error: stack overflow"
			res.Stack = clip(s, 4000)
			return res, nil
		case strings.Contains(s, "fatal error: concurrent map"):
			res.Crash = "fatal error: concurrent map access"
			res.Stack = clip(s, 4000)
			return res, nil
		}
		lastErr = infra{fmt.Sprintf("a run ended without a result (%v): %s", err, clip(s, 4000))}
		// out of memory on a loaded machine, say: once more
		time.Sleep(200 * time.Millisecond)
	}
	return nil, lastErr
}

// forget the results of the reference scenarios
func (e *Exec) forget() {
	e.mu.Lock()
	e.cache = map[string]*refEntry{}
	e.mu.Unlock()
}

// Ref executes a reference scenario, once per distinct scenario
func (e *Exec) Ref(sc *Scenario) (*RunResult, error) {
	in, err := json.Marshal(sc)
	if err != nil {
		return nil, infra{err.Error()}
	}
	k := string(in)
	e.mu.Lock()
	en := e.cache[k]
	if en == nil {
		if len(e.cache) > 4000 {
			e.cache = map[string]*refEntry{}
		}
		en = &refEntry{}
		e.cache[k] = en
	}
	e.mu.Unlock()
	en.once.Do(func() {
		atomic.AddInt64(&e.RefRuns, 1)
		en.res, en.err = e.runBytes(in)
	})
	return en.res, en.err
}

type tail struct {
	b   []byte
	max int
}

// Write keeps the beginning
func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < t.max {
		n := t.max - len(t.b)
		if n > len(p) {
			n = len(p)
		}
		t.b = append(t.b, p[:n]...)
	}
	return len(p), nil
}

// String returns what was kept
func (t *tail) String() string { return string(t.b) }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// childMain runs one scenario, read from stdin
func childMain() int {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	if !sim.RaceEnabled {
		runtime.GOMAXPROCS(1)
	}
	sc := &Scenario{}
	if err := json.NewDecoder(realos.Stdin).Decode(sc); err != nil {
		fmt.Fprintln(realos.Stderr, err)
		return 3
	}
	stdout := realos.Stdout
	if null, err := realos.OpenFile("/dev/null", realos.O_RDWR, 0); err == nil {
		realos.Stdout = null
		realos.Stdin = null
		if realos.Getenv("SIM_STDERR") == "" {
			// fatal errors of the runtime still reach file descriptor 2
			realos.Stderr = null
		}
	}
	res := RunScenario(sc)
	if !sc.WantFS {
		res.Before, res.After, res.AfterFiles, res.FSLog = nil, nil, nil, nil
	}
	if !sc.Rec {
		res.Trace = nil
	}
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(stdout, err)
		return 3
	}
	stdout.WriteString("\nRESULT ")
	stdout.Write(b)
	return 0
}
