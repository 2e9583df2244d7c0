package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"comfoverif/core"
	"comfoverif/fu"

	"pgregory.net/rapid"
)

// Checks of the built program for what clients and lines do to it: callers that
// go away (C30), broken connections (C31), and calls that wait (C33).

type liveCall struct {
	M     string           `json:"m"`
	A     map[string]int64 `json:"a,omitempty"`
	J     bool             `json:"j,omitempty"`
	At    int              `json:"at,omitempty"`    // ms
	Leave int              `json:"leave,omitempty"` // ms after the request was sent
	Part  int              `json:"part,omitempty"`  // only so many bytes of the request are sent, 0 all
	Reset bool             `json:"rst,omitempty"`
}

type liveCase struct {
	Unit   fu.State   `json:"unit"`
	Serial bool       `json:"serial,omitempty"`
	Debug  bool       `json:"debug,omitempty"`
	Delay  int        `json:"d,omitempty"` // of the unit's answers
	How    string     `json:"how,omitempty"`
	Busy   *liveCall  `json:"busy,omitempty"`
	C      []liveCall `json:"c"`
	Then   liveCall   `json:"then"`
}

type live struct {
	t    *target
	p    *prog
	addr string
	mode string // "", silent
	o    *core.Outcome
}

func startLive(c liveCase, o *core.Outcome) *live {
	lv := &live{o: o, addr: freeAddr()}
	mode := "tcp"
	if c.Serial {
		lv.t, mode = ptyTarget(c.Unit), "serial"
	} else {
		lv.t = tcpTarget(c.Unit)
	}
	lv.t.l.Pick = func(fu.Req, int) fu.Reply {
		if lv.mode == "silent" {
			return fu.Reply{Kind: "silent"}
		}
		return fu.Reply{Kind: "ok", Delay: c.Delay}
	}
	args := []string{"--mode", mode, "--target", lv.t.name, "--listen", lv.addr}
	if c.Debug {
		args = append(args, "--debug")
	}
	lv.p = startProg(lv.addr, args, nil)
	lv.p.hc.Timeout = 40 * time.Second
	o.Label(mode)
	if !lv.p.serving(lv.addr) {
		o.Failf("not serving: %s", lv.p.out.String())
	}
	return lv
}

func (lv *live) close() {
	lv.p.stop()
	lv.t.close()
}

// done ends a case.
func (lv *live) done() {
	if lv.p.exited(0) {
		lv.o.Violation = lv.p.crash()
	}
	if pr := lv.t.l.Problems(); pr != "" {
		lv.o.Failf("%s", pr)
	}
}

func (lv *live) show(st fu.State, when string) {
	for _, cat := range categories {
		if lv.o.Violation != "" {
			return
		}
		if r := lv.p.call(getterOf[cat], nil, encOf(cat&1 == 0)); r.Bad != "" {
			lv.o.Failf("%s, %s: %s", when, getterOf[cat], r.Bad)
		} else if w, _ := rpcText(cat, *st.Field(cat)); r.Text() != w {
			lv.o.Failf("%s, %s returned %q, must be %q", when, getterOf[cat], r, w)
		}
	}
}

func (lv *live) flush(want, when string) {
	if r := lv.p.call("FlushCache", map[string]int64{"Cache": flushAll}, "pb"); !r.OK || r.F["Success"] != want {
		lv.o.Failf("%s, FlushCache returned %v %s, must be Success=%s", when, r, r.Bad, want)
	}
}

// cpu is the processor time the program has used.
func (lv *live) cpu() time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", lv.p.cmd.Process.Pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	var n time.Duration
	for _, i := range []int{11, 12} {
		k, _ := strconv.Atoi(f[i])
		n += time.Duration(k) * 10 * time.Millisecond
	}
	return n
}

// abandon makes a call and goes away.
func (lv *live) abandon(c liveCall) {
	time.Sleep(ms(c.At))
	var body []byte
	ct := "application/protobuf"
	if c.J {
		body, ct = encodeJSON(methods[c.M].in, c.A), "application/json"
	} else {
		body = encodePB(methods[c.M].in, c.A)
	}
	b := []byte(fmt.Sprintf("POST %s%s HTTP/1.1\r\nHost: x\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n%s", twirpPath, c.M, ct, len(body), body))
	if c.Part > 0 {
		b = b[:max(1, len(b)-c.Part)]
	}
	k, err := net.DialTimeout("tcp", lv.addr, 5*time.Second)
	if err != nil {
		return
	}
	k.Write(b)
	time.Sleep(ms(c.Leave))
	if c.Reset {
		k.(*net.TCPConn).SetLinger(0)
	}
	k.Close()
}

// then is a setter call that has to work.
func (lv *live) then(c liveCall, when string) {
	if lv.o.Violation != "" {
		return
	}
	before := lv.t.state()
	sp := setters[c.M]
	pl := sp.plan(*before.Field(sp.cache), c.A)
	r := lv.p.call(c.M, c.A, encOf(c.J))
	if r.Bad != "" || pl.refuse == r.OK || r.OK && (r.F["Modified"] != fmt.Sprint(pl.cmd != 0) || r.F[sp.tgt] != fmt.Sprint(pl.tgt) || !pl.origOpen && r.F[sp.orig] != fmt.Sprint(pl.orig)) {
		lv.o.Failf("%s, %s(%s) with %s returned %v %s; must be refused: %v, modified: %v, original %d, target %d", when, c.M, argText(c.A), sp.cacheText(*before.Field(sp.cache)), r, r.Bad, pl.refuse, pl.cmd != 0, pl.orig, pl.tgt)
	}
}

func runAway(raw json.RawMessage) core.Outcome {
	c := core.Decode[liveCase](raw)
	return thrice(func() (o core.Outcome) {
		lv := startLive(c, &o)
		defer lv.close()
		if o.Violation != "" {
			return
		}
		before := lv.t.state()
		mark := lv.t.l.Requests()
		var wg sync.WaitGroup
		for _, a := range c.C {
			wg.Add(1)
			o.Evals++
			o.Label("gone: " + a.M)
			go func() {
				defer wg.Done()
				lv.abandon(a)
			}()
		}
		wg.Wait()
		// Waits for the calls that go on.
		for i := 0; i < 60; i++ {
			n := lv.t.l.Requests()
			time.Sleep(1100 * time.Millisecond)
			if lv.t.l.Requests() == n {
				break
			}
		}
		allowed := func(e fu.Exch) bool {
			for _, a := range c.C {
				if a.Part > 0 {
					continue // not a whole request
				}
				sp, ok := setters[a.M]
				if !ok {
					continue
				}
				if e.Cmd == sp.set {
					return true
				}
			}
			return false
		}
		for _, e := range lv.t.log()[mark:] {
			if !e.IsGet && !allowed(e) {
				o.Failf("request %#02x %x was sent although no complete call asked for it", e.Cmd, []byte(e.Data))
			}
		}
		if len(c.C) == 1 && setters[c.C[0].M].plan != nil {
			a := c.C[0]
			sp := setters[a.M]
			pl := sp.plan(*before.Field(sp.cache), a.A)
			want := fu.NewUnit(before)
			if pl.cmd == fu.CSetProf {
				pl.data = profData(before.Prof, int(a.A["Mode"])-1, byte(pl.tgt))
			}
			if pl.cmd != 0 {
				want.Apply(fu.Req{Cmd: pl.cmd, Data: pl.data})
			}
			x, y, z := lv.t.state(), before.Clone(), want.State.Clone()
			x.Fans, y.Fans, z.Fans = nil, nil, nil
			if !x.Equal(y) && (a.Part > 0 || !x.Equal(z)) {
				o.Failf("after %+v, the unit's state is %+v", a, x)
			}
		}
		lv.flush("true", "after callers went away")
		lv.show(lv.t.state(), "after callers went away")
		lv.then(c.Then, "after callers went away")
		lv.done()
		o.NonTrivial = true
		return
	})
}

func runBroken(raw json.RawMessage) core.Outcome {
	c := core.Decode[liveCase](raw)
	return thrice(func() (o core.Outcome) {
		lv := startLive(c, &o)
		defer lv.close()
		if o.Violation != "" {
			return
		}
		o.Label("connection: " + c.How)
		var wg sync.WaitGroup
		if c.Busy != nil {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := lv.p.call(c.Busy.M, c.Busy.A, encOf(c.Busy.J))
				if r.Bad != "" {
					o.Failf("%s, when the connection to the unit broke: %s", c.Busy.M, r.Bad)
				}
			}()
			time.Sleep(ms(c.Busy.At))
		}
		lv.t.mu.Lock()
		hang := lv.t.hang
		lv.t.mu.Unlock()
		hang(c.How)
		wg.Wait()
		if o.Violation != "" {
			return
		}
		// What the service knows is what it served right afterwards.
		known := map[byte]string{}
		for _, cat := range categories {
			r := lv.p.call(getterOf[cat], nil, "pb")
			if r.Bad != "" || !r.OK {
				o.Failf("after the connection broke, %s returned %v %s", getterOf[cat], r, r.Bad)
				return
			}
			known[cat] = r.Text()
			if w, _ := rpcText(cat, *c.Unit.Field(cat)); c.Busy == nil && r.Text() != w {
				o.Failf("after the connection broke, %s returned %q, the last reading was %q", getterOf[cat], r, w)
			}
		}
		c0, t0 := lv.cpu(), time.Now()
		for _, a := range c.C {
			o.Evals++
			time.Sleep(ms(a.At))
			s := time.Now()
			switch {
			case a.M == "FlushCache":
				lv.flush("false", "after the connection broke")
			case setters[a.M].plan != nil:
				if c.Busy != nil {
					break
				}
				sp := setters[a.M]
				pl := sp.plan(*c.Unit.Field(sp.cache), a.A)
				r := lv.p.call(a.M, a.A, encOf(a.J))
				switch {
				case r.Bad != "":
					o.Failf("after the connection broke, %s: %s", a.M, r.Bad)
				case pl.refuse || pl.cmd != 0:
					if r.OK || pl.refuse && pl.invalid && r.Code != "invalid_argument" {
						o.Failf("after the connection broke, %s(%s) returned %v", a.M, argText(a.A), r)
					}
				case !r.OK || r.F["Modified"] != "false":
					o.Failf("after the connection broke, %s(%s) returned %v, must be unmodified", a.M, argText(a.A), r)
				}
			}
			if d := time.Since(s); d > 15*time.Second {
				o.Failf("after the connection broke, %s took %v", a.M, d)
			}
			for _, cat := range categories {
				if r := lv.p.call(getterOf[cat], nil, encOf(a.J)); r.Text() != known[cat] {
					o.Failf("after the connection broke, %s returned %q, the last reading was %q", getterOf[cat], r, known[cat])
				}
			}
			if o.Violation != "" {
				return
			}
		}
		if d := time.Since(t0); lv.cpu()-c0 > d/3+300*time.Millisecond {
			o.Failf("after the connection broke, the program used %v of processor time in %v", lv.cpu()-c0, d)
		}
		lv.done()
		o.NonTrivial = true
		return
	})
}

func runAvail(raw json.RawMessage) core.Outcome {
	c := core.Decode[liveCase](raw)
	return thrice(func() (o core.Outcome) {
		lv := startLive(c, &o)
		defer lv.close()
		if o.Violation != "" {
			return
		}
		lv.t.l.With(func() {
			lv.t.l.Unit.NoFollow = true
			if c.How == "silent" {
				lv.mode = "silent"
			}
		})
		o.Label(c.How)
		limit := 2 * time.Second
		if c.How == "silent" {
			limit = 5 * time.Second
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			t0 := time.Now()
			r := lv.p.call(c.Busy.M, c.Busy.A, encOf(c.Busy.J))
			mu.Lock()
			defer mu.Unlock()
			if r.Bad != "" {
				o.Failf("%s of a unit that is %s: %s", c.Busy.M, c.How, r.Bad)
			}
			if time.Since(t0) > 900*time.Millisecond {
				o.NonTrivial = true
			}
		}()
		for _, a := range c.C {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(ms(a.At))
				t0 := time.Now()
				r := lv.p.call(a.M, nil, encOf(a.J))
				d := time.Since(t0)
				mu.Lock()
				defer mu.Unlock()
				o.Evals++
				if r.Bad != "" || !r.OK || d > limit {
					o.Failf("%s, %d ms after %s of a unit that is %s, took %v and returned %v %s", a.M, a.At, c.Busy.M, c.How, d, r, r.Bad)
				}
			}()
		}
		wg.Wait()
		lv.done()
		return
	})
}

func gLiveSetter(t *rapid.T, l string) (c liveCall) {
	c.M, c.A = gSetterCall(t, l)
	c.J = rapid.Bool().Draw(t, l+"j")
	return
}

// gLiveUnit is a unit whose percentages tell its profiles apart.
func gLiveUnit(t *rapid.T) fu.State {
	u := gUnitRange(t, "u")
	for m := range 4 {
		u.SetInOut(m, byte(20+m), byte(30+m))
	}
	return u
}

func gAway(t *rapid.T) any {
	c := liveCase{Unit: gLiveUnit(t), Serial: rapid.IntRange(0, 3).Draw(t, "ser") == 0, Debug: rapid.IntRange(0, 3).Draw(t, "dbg") == 0}
	c.Delay = rapid.SampledFrom([]int{1, 20, 60}).Draw(t, "d")
	for k := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 4, 4, 30, 70}).Draw(t, "n"); k > 0; k-- {
		var a liveCall
		switch rapid.IntRange(0, 4).Draw(t, "k") {
		case 0:
			a.M = getterOf[gCat(t, "cat")]
		case 1, 2:
			a.M, a.A = "FlushCache", map[string]int64{"Cache": rapid.SampledFrom([]int64{0, 1, 2, 3, 4, 10, 10}).Draw(t, "cache")}
		default:
			a = gLiveSetter(t, "s")
		}
		a.At = rapid.SampledFrom([]int{0, 0, 5, 30}).Draw(t, "at")
		a.Leave = rapid.SampledFrom([]int{0, 1, 5, 10, 25, 60, 130}).Draw(t, "leave")
		a.Reset = rapid.Bool().Draw(t, "rst")
		if rapid.IntRange(0, 3).Draw(t, "part") == 0 {
			a.Part = rapid.SampledFrom([]int{1, 1, 2, 5, 30, 80}).Draw(t, "missing")
			if len(encodePB(methods[a.M].in, a.A)) == 0 && !a.J {
				a.Part = max(a.Part, 1)
			}
		}
		c.C = append(c.C, a)
	}
	c.Then = gLiveSetter(t, "then")
	return c
}

func gBroken(t *rapid.T) any {
	c := liveCase{Unit: gLiveUnit(t), Serial: rapid.IntRange(0, 2).Draw(t, "ser") == 0, Debug: rapid.IntRange(0, 3).Draw(t, "dbg") == 0}
	c.Delay = rapid.SampledFrom([]int{1, 20}).Draw(t, "d")
	c.How = "hung up"
	if !c.Serial {
		c.How = rapid.SampledFrom([]string{"closed", "closed", "reset", "half"}).Draw(t, "how")
	}
	if rapid.IntRange(0, 2).Draw(t, "busy") == 0 {
		b := gLiveSetter(t, "b")
		if rapid.Bool().Draw(t, "bf") {
			b = liveCall{M: "FlushCache", A: map[string]int64{"Cache": flushAll}}
		}
		b.At = rapid.SampledFrom([]int{0, 3, 10, 25, 40}).Draw(t, "at")
		c.Busy = &b
	}
	for k := rapid.IntRange(1, 5).Draw(t, "n"); k > 0; k-- {
		a := liveCall{M: "GetTemps"} // only a wait
		switch rapid.IntRange(0, 3).Draw(t, "k") {
		case 0:
			a = liveCall{M: "FlushCache"}
		case 1, 2:
			a = gLiveSetter(t, "s")
		}
		a.At = rapid.SampledFrom([]int{0, 10, 300, 1000}).Draw(t, "at2")
		c.C = append(c.C, a)
	}
	return c
}

func gAvail(t *rapid.T) any {
	c := liveCase{Unit: gLiveUnit(t), Serial: rapid.IntRange(0, 3).Draw(t, "ser") == 0, Debug: rapid.IntRange(0, 3).Draw(t, "dbg") == 0, Delay: 1}
	c.How = rapid.SampledFrom([]string{"slow", "slow", "silent"}).Draw(t, "how")
	tgt := int64(c.Unit.Prof[8])%4 + 1
	b := liveCall{M: "SetFanSpeed", A: map[string]int64{"Abs": tgt}, J: rapid.Bool().Draw(t, "j")}
	if c.How == "silent" {
		switch rapid.IntRange(0, 2).Draw(t, "b") {
		case 0:
			b.M, b.A = "FlushCache", map[string]int64{"Cache": flushAll}
		case 1:
			b.M, b.A = "SetFanProfile", map[string]int64{"Mode": 2, "TargetSpeed": 77}
		}
	}
	c.Unit.Fans[0] = c.Unit.In(int(tgt)-1) + 1
	c.Busy = &b
	for k := rapid.IntRange(1, 8).Draw(t, "n"); k > 0; k-- {
		c.C = append(c.C, liveCall{M: getterOf[gCat(t, "cat")], J: rapid.Bool().Draw(t, "gj"), At: rapid.SampledFrom([]int{10, 100, 300, 700, 1500, 3000}).Draw(t, "at")})
	}
	return c
}

func init() {
	core.Register(&core.Check{
		Prop: "C30", Name: "program", Mode: core.Real, Quick: 200, Thorough: 6000, VirtualLimit: 200 * time.Second,
		Rule: "the built program with a unit on TCP or a pseudo terminal; 1-70 clients that send a call, or part of one, and disconnect (orderly or with a reset) 0-130 ms later. Oracle: an abandoned setter has its whole effect or none (none if it was not sent completely); then a flush succeeds, all getters equal the unit's state, and a setter gives the right reply. Violated only if three executions fail. Non-trivial: all",
		Run:  runAway, Gen: gAway,
	})
	core.Register(&core.Check{
		Prop: "C31", Name: "program", Mode: core.Real, Quick: 200, Thorough: 6000, VirtualLimit: 200 * time.Second,
		Rule: "the built program; the unit's TCP connection is closed, half closed or reset, or its terminal hung up, idle or in the middle of a call; then flushes, setters, waits, and all getters after each. Oracle: the program stays up and uses little processor time (from /proc), flushes and necessary changes fail, refusals and unmodified replies are as ever, getters give the last readings. Violated only if three executions fail. Non-trivial: all",
		Run:  runBroken, Gen: gBroken,
	})
	core.Register(&core.Check{
		Prop: "C33", Name: "program", Mode: core.Real, Quick: 60, Thorough: 3000, VirtualLimit: 200 * time.Second,
		Rule: "the built program; a setter or flush over HTTP that has to wait for slow fans or a silent unit, and 1-8 getters over HTTP during it. Oracle: each is answered within 2 s (slow fans) or 5 s (silent unit). Violated only if three executions fail. Non-trivial: the call took more than 0.9 s",
		Run:  runAvail, Gen: gAvail,
	})
}
