package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Bins are the executables for each mode.
var Bins = map[Mode]string{}

// cpuLimit is the CPU time (not wall time) after which a case that normally
// takes milliseconds counts as runaway.
const cpuLimit = 60 * time.Second

// wallLimit is when the harness gives up on a case without a verdict.
const wallLimit = 240 * time.Second

// child is a running executor process.
type child struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	ans    chan []byte
	stderr *tail
	done   chan struct{}
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(t.buf, p...)
	if len(t.buf) > 1<<18 {
		// keep the head (the panic message) and the newest part
		t.buf = append(t.buf[:1<<16:1<<16], t.buf[len(t.buf)-(1<<16):]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.buf)
}

func startChild(m Mode) (*child, error) {
	bin := Bins[m]
	cmd := exec.Command(bin, "child")
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	switch m {
	case Fake:
		cmd.Env = append(cmd.Env, "GOMAXPROCS=1")
	case Race:
		cmd.Env = append(cmd.Env, "GOMAXPROCS=1", "GORACE=halt_on_error=1 exitcode=66")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{w}
	c := &child{cmd: cmd, in: in, ans: make(chan []byte, 1), stderr: &tail{}, done: make(chan struct{})}
	cmd.Stderr = c.stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	go func() {
		br := bufio.NewReaderSize(r, 1<<20)
		for {
			l, err := br.ReadBytes('\n')
			if err != nil {
				break
			}
			c.ans <- l
		}
		r.Close()
		cmd.Wait()
		close(c.done)
	}()
	return c, nil
}

func (c *child) kill() {
	c.in.Close()
	c.cmd.Process.Kill()
	go func() {
		for range c.ans {
		}
	}()
	<-c.done
}

// cpu returns the CPU time the child has used.
func (c *child) cpu() time.Duration {
	b, err := os.ReadFile("/proc/" + strconv.Itoa(c.cmd.Process.Pid) + "/stat")
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.Atoi(f[11])
	k, _ := strconv.Atoi(f[12])
	return time.Duration(u+k) * 10 * time.Millisecond
}

// Executor runs cases, keeping one child per mode alive between cases.
type Executor struct {
	children map[Mode]*child
}

// NewExecutor returns an Executor.
func NewExecutor() *Executor { return &Executor{children: map[Mode]*child{}} }

// Close ends all children.
func (e *Executor) Close() {
	for m, c := range e.children {
		c.kill()
		delete(e.children, m)
	}
}

// Exec runs one case of a check.
func (e *Executor) Exec(ck *Check, raw json.RawMessage) Outcome {
	c := e.children[ck.Mode]
	if c == nil {
		var err error
		if c, err = startChild(ck.Mode); err != nil {
			return Outcome{Inconclusive: "cannot start child: " + err.Error()}
		}
		e.children[ck.Mode] = c
	}
	drop := func() {
		c.kill()
		delete(e.children, ck.Mode)
	}
	line, _ := json.Marshal(request{Check: ck.ID(), Case: raw})
	cpu0 := c.cpu()
	start := time.Now()
	if _, err := c.in.Write(append(line, '\n')); err != nil {
		// The child died between cases: judge its crash against this case.
		<-c.done
		o := e.crashed(c)
		drop()
		return o
	}
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
	for {
		select {
		case b := <-c.ans:
			var o Outcome
			if err := json.Unmarshal(b, &o); err != nil {
				o.Inconclusive = "bad answer: " + string(b)
			}
			if ck.Fresh || o.Violation != "" || o.Inconclusive != "" {
				drop()
			}
			return o
		case <-c.done:
			select {
			case b := <-c.ans: // answered, then died
				var o Outcome
				if json.Unmarshal(b, &o) == nil && o.Violation != "" {
					drop()
					return o
				}
			default:
			}
			o := e.crashed(c)
			drop()
			return o
		case <-tick.C:
			if cpu := c.cpu() - cpu0; cpu > cpuLimit {
				drop()
				return Outcome{Violation: fmt.Sprintf("runaway: the case used %v of CPU time without finishing (cases normally take milliseconds)", cpu)}
			}
			if time.Since(start) > wallLimit {
				drop()
				return Outcome{Inconclusive: fmt.Sprintf("no answer from the child within %v", wallLimit)}
			}
		}
	}
}

// crashed classifies the death of a child.
func (e *Executor) crashed(c *child) Outcome {
	s := c.stderr.String()
	st := c.cmd.ProcessState
	switch {
	case strings.Contains(s, "WARNING: DATA RACE"):
		i := strings.Index(s, "WARNING: DATA RACE")
		rep := s[i:]
		if FromRepo(rep) {
			return Outcome{Violation: "data race reported:\n" + trimStack(rep)}
		}
		return Outcome{Inconclusive: "data race inside the harness:\n" + trimStack(rep)}
	case strings.Contains(s, "out of memory") || strings.Contains(s, "cannot allocate memory"):
		return Outcome{Inconclusive: "child ran out of memory"}
	case strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:"):
		i := strings.Index(s, "panic:")
		j := strings.Index(s, "fatal error:")
		if i < 0 || (j >= 0 && j < i) {
			// A fatal error (deadlock, unlock of an unlocked mutex, ...): any goroutine counts.
			if FromRepo(s[j:]) {
				return Outcome{Violation: "the process died in the code under test:\n" + trimStack(s[j:])}
			}
		} else {
			// A panic: the panicking goroutine is the first one dumped.
			first := s[i:]
			if k := strings.Index(first, "\ngoroutine "); k >= 0 {
				if e := strings.Index(first[k+1:], "\n\n"); e >= 0 {
					first = first[:k+1+e]
				}
			}
			if FromRepo(first) {
				return Outcome{Violation: "the process crashed in the code under test:\n" + trimStack(first)}
			}
		}
	}
	return Outcome{Inconclusive: fmt.Sprintf("child died (%v): %s", st, trimStack(s))}
}
