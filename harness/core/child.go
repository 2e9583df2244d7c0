package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

type request struct {
	Check string          `json:"check"`
	Case  json.RawMessage `json:"case"`
}

// ChildMain executes cases read from stdin and answers on descriptor 3
// (descriptors 1 and 2 carry playback headers under faketime).
func ChildMain() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	debug.SetTraceback("all")
	out := os.NewFile(3, "answers")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var rq request
		if err := json.Unmarshal(line, &rq); err != nil {
			panic(err)
		}
		c := Lookup(rq.Check)
		if c == nil {
			panic("unknown check " + rq.Check)
		}
		o := execute(c, rq.Case)
		b, _ := json.Marshal(o)
		if _, err := out.Write(append(b, '\n')); err != nil {
			return
		}
	}
}

// execute runs a case in its own goroutine, under a limit in the child's time.
func execute(c *Check, raw json.RawMessage) Outcome {
	done := make(chan Outcome, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				o := Outcome{}
				if _, rt := r.(runtime.Error); rt && !FromRepo(st) {
					// An index or a pointer the judgement takes for granted
					// is not there: the outcome is none that can be right.
					o.Violation = fmt.Sprintf("outcome that can't be judged: %v\n%s", r, trimStack(st))
				} else if FromRepo(st) {
					o.Violation = fmt.Sprintf("panic in the code under test: %v\n%s", r, trimStack(st))
				} else {
					o.Inconclusive = fmt.Sprintf("harness panic: %v\n%s", r, st)
				}
				done <- o
			}
		}()
		done <- c.Run(raw)
	}()
	tm := time.NewTimer(c.VirtualLimit)
	defer tm.Stop()
	select {
	case o := <-done:
		return o
	case <-tm.C:
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		return Outcome{Violation: fmt.Sprintf("hung: the case did not finish within %v of (%s) time\n%s", c.VirtualLimit, c.Mode, trimStack(string(buf)))}
	}
}

// FromRepo tells whether a stack trace passes through the code under test.
func FromRepo(stack string) bool {
	return strings.Contains(stack, "github.com/ti-mo/comfo/")
}

func trimStack(s string) string {
	if len(s) > 6000 {
		s = s[:6000] + "\n..."
	}
	return s
}
