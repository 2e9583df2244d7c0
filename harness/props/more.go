package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
	"weak"

	"comfoverif/core"
	"comfoverif/fu"

	"github.com/ti-mo/comfo/comfoserver"
	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"github.com/twitchtv/twirp"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// --- C29: several connections ---

// Connections of different Go types.
type valueConn struct{ *fu.Line } // comparable
type sliceConn struct {           // not comparable
	*fu.Line
	name []byte
}

type connPlan struct {
	Unit fu.State  `json:"unit"`
	Kind int       `json:"k"` // 0 pointer, 1 comparable struct, 2 struct that is not comparable
	At   int       `json:"at"`
	S    []recStep `json:"s"`
}

type c29Case struct {
	C   []connPlan `json:"c"`
	Seq bool       `json:"seq,omitempty"` // one operation at a time
}

func asConn(l *fu.Line, kind int) io.ReadWriter {
	switch kind {
	case 1:
		return valueConn{l}
	case 2:
		return sliceConn{l, []byte("unit")}
	}
	return l
}

func runC29(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c29Case](raw)
	var mu sync.Mutex
	fail := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		o.Failf(f, a...)
	}
	lost, after := 0, 0
	type state struct {
		l    *fu.Line
		conn io.ReadWriter
		cur  []fu.Reply
		k    int
		bad  bool // nothing more can be said
		hurt bool // an exchange failed
		n    int  // requests its operations wrote
		want fu.State
	}
	var st []*state
	for _, p := range c.C {
		u := fu.NewUnit(p.Unit)
		u.NoFollow = true
		s := &state{l: fu.NewLine(u), want: p.Unit.Clone()}
		defer s.l.Close()
		s.conn = asConn(s.l, p.Kind)
		s.l.Pick = func(r fu.Req, n int) fu.Reply {
			s.k++
			if s.k <= len(s.cur) {
				return s.cur[s.k-1]
			}
			return fu.Reply{Kind: "ok", Delay: 3}
		}
		st = append(st, s)
	}
	step := func(ci, i int, r recStep) {
		s, kind := st[ci], c.C[ci].Kind
		name := fmt.Sprintf("connection %d (kind %d), step %d: %v", ci, kind, i, r.Op)
		s.cur, s.k = r.R, 0
		prompt := true
		for _, x := range r.R {
			prompt = prompt && x.Prompt()
		}
		mark := s.l.Requests()
		text, err := r.Op.Do(s.conn)
		var in []fu.Exch
		s.l.With(func() {
			for _, e := range s.l.Log[mark:] {
				in = append(in, *e)
				s.bad = s.bad || e.Close
			}
		})
		s.n += len(in)
		var cmds []byte
		switch r.Op.Op {
		case "profile":
			cmds = []byte{fu.CProf, fu.CSetProf}
		default:
			cmds = []byte{opCmd[r.Op.Op]}
		}
		for j, e := range in {
			cmd := e.Cmd
			if e.R.Kind == "werr" {
				cmd = e.WCmd
			}
			if j >= len(cmds) || cmd != cmds[j] {
				fail("%s: request %#02x arrived at its unit", name, cmd)
				return
			}
		}
		switch {
		case s.bad || kind == 2 && s.hurt:
		case prompt && err != nil:
			fail("%s failed (%v) although its unit answered promptly", name, err)
		case prompt:
			mu.Lock()
			if lost > 0 {
				after++
			}
			mu.Unlock()
			if r.Op.IsRead() {
				if w, _ := fu.Text(opCmd[r.Op.Op], *s.want.Field(opCmd[r.Op.Op])); w != text {
					fail("%s returned %s, its unit holds %s", name, text, w)
				}
			}
		case err == nil:
			fail("%s succeeded (%s) without an answer", name, text)
		}
		if !prompt {
			s.hurt = true
			mu.Lock()
			lost++
			mu.Unlock()
		}
		s.l.With(func() { s.want = s.l.Unit.State.Clone() })
		time.Sleep(ms(r.Gap) + time.Duration(37+11*ci)*time.Microsecond)
	}
	if c.Seq {
		for i := 0; ; i++ {
			any := false
			for ci, p := range c.C {
				if i < len(p.S) {
					any = true
					step(ci, i, p.S[i])
				}
			}
			if !any {
				break
			}
		}
	} else {
		var wg sync.WaitGroup
		for ci, p := range c.C {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						fail("panic: %v\n%s", r, debug.Stack())
					}
				}()
				time.Sleep(ms(p.At))
				for i, r := range p.S {
					step(ci, i, r)
				}
			}()
		}
		wg.Wait()
	}
	for ci, s := range st {
		if n := s.l.Requests(); n != s.n {
			fail("connection %d: %d requests arrived, its operations wrote %d", ci, n, s.n)
		}
		if p := s.l.Problems(); p != "" {
			fail("connection %d: %s", ci, p)
		}
	}
	if after > 0 {
		o.NonTrivial = true
		o.Label("answered after failures")
	}
	return
}

func gC29(t *rapid.T) any {
	c := c29Case{Seq: rapid.Bool().Draw(t, "seq")}
	for i := rapid.IntRange(2, 4).Draw(t, "conns"); i > 0; i-- {
		p := connPlan{Unit: gState(t, "u"), Kind: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "kind"), At: rapid.SampledFrom([]int{0, 0, 1, 500, 1001}).Draw(t, "at")}
		for k := rapid.IntRange(1, 6).Draw(t, "n"); k > 0; k-- {
			s := recStep{Op: gAnyOp(t, "op", false)}
			n := 1
			if s.Op.Op == "profile" {
				n = 2
			}
			at := -1
			if rapid.IntRange(0, 2).Draw(t, "lost") == 0 {
				at = rapid.IntRange(0, n-1).Draw(t, "lat")
			}
			for j := 0; j < n; j++ {
				r := fu.Reply{Kind: "ok", Delay: rapid.SampledFrom([]int{0, 1, 5, 200}).Draw(t, "d")}
				if j == at {
					switch rapid.IntRange(0, 2).Draw(t, "how") {
					case 0:
						r = fu.Reply{Kind: "silent"}
					case 1:
						r = fu.Reply{Kind: "trunc", N: 1}
					default:
						r = fu.Reply{Kind: "ok", Delay: rapid.SampledFrom([]int{1150, 1500, 2500}).Draw(t, "ld")}
					}
				}
				s.R = append(s.R, r)
				if j == at {
					break
				}
			}
			s.Gap = rapid.SampledFrom([]int{0, 0, 10, 400, 3000}).Draw(t, "gap")
			p.S = append(p.S, s)
		}
		c.C = append(c.C, p)
	}
	return c
}

// conns: connections that were closed are let go of.
type closeCase struct {
	Unit fu.State   `json:"unit"`
	Ops  []LibOp    `json:"ops"`
	R    []fu.Reply `json:"r"`
	Kind int        `json:"k"`
	N    int        `json:"n"`
}

func runConns(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[closeCase](raw)
	var ws []weak.Pointer[fu.Line]
	time.Sleep(10 * time.Second)
	before := runtime.NumGoroutine()
	one := func(i int) {
		l := fu.NewLine(fu.NewUnit(c.Unit))
		l.Strict = false
		l.Pick = func(r fu.Req, n int) fu.Reply { return c.R[(i+n)%len(c.R)] }
		ws = append(ws, weak.Make(l))
		for k := range c.Ops {
			if _, err := c.Ops[k].Do(asConn(l, c.Kind)); err != nil {
				o.NonTrivial = true
			}
		}
		l.Close()
	}
	for i := range c.N {
		one(i)
	}
	time.Sleep(20 * time.Second)
	runtime.GC()
	time.Sleep(time.Second)
	runtime.GC()
	left := 0
	for _, w := range ws {
		if w.Value() != nil {
			left++
		}
	}
	if left > 3 {
		o.Failf("%d of %d closed connections are still referenced", left, c.N)
	}
	if n := runtime.NumGoroutine() - before; n > maxLeft {
		o.Failf("%d goroutines are left behind after %d connections were closed", n, c.N)
	}
	return
}

// --- C30: callers that go away ---

// callCtx is callHandler (or, with direct, a call without HTTP) with a context.
func callCtx(ctx context.Context, h http.Handler, method string, args map[string]int64, enc string) (r rpcResp) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if !core.FromRepo(st) {
				panic(p)
			}
			r = rpcResp{Bad: fmt.Sprintf("panic while serving %s: %v\n%s", method, p, st), msg: methods[method].out}
		}
	}()
	var body []byte
	ct := "application/protobuf"
	if enc == "json" {
		body, ct = encodeJSON(methods[method].in, args), "application/json"
	} else {
		body = encodePB(methods[method].in, args)
	}
	rq := httptest.NewRequest("POST", "/twirp/comfo.api.Comfo/"+method, bytes.NewReader(body)).WithContext(ctx)
	rq.Header.Set("Content-Type", ct)
	w := httptest.NewRecorder()
	h.ServeHTTP(w, rq)
	return parseResp(method, enc, w.Code, w.Header().Get("Content-Type"), w.Body.Bytes())
}

type awayCall struct {
	M      string           `json:"m"`
	A      map[string]int64 `json:"a,omitempty"`
	J      bool             `json:"j,omitempty"`
	At     int              `json:"at"`
	Cancel int              `json:"c"`            // ms after the call began; 0: before
	Dl     bool             `json:"dl,omitempty"` // by a deadline
}

type awayStep struct {
	Gone  []awayCall `json:"gone"`
	Then  awayCall   `json:"then"`
	Flush int64      `json:"f"`           // what is flushed afterwards, first with a silent unit
	Wait  int        `json:"w,omitempty"` // ms before that; the calls may be under way still
}

type awayCase struct {
	Unit   fu.State   `json:"unit"`
	Delays []int      `json:"d"`
	Lag    int        `json:"lag"`
	S      []awayStep `json:"s"`
}

func runC30(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[awayCase](raw)
	s := newServer(c.Unit, &o)
	s.l.Unit.LagIn, s.l.Unit.LagOut = c.Lag, c.Lag
	s.boot()
	n := 0
	s.l.With(func() {
		s.l.Pick = func(r fu.Req, _ int) fu.Reply {
			n++
			if q := s.next[r.Cmd]; len(q) > 0 {
				s.next[r.Cmd] = q[1:]
				return q[0]
			}
			return fu.Reply{Kind: "ok", Delay: c.Delays[n%len(c.Delays)]}
		}
	})
	state := func() (st fu.State) {
		s.l.With(func() { st = s.l.Unit.State.Clone() })
		return
	}
	// bounded runs f, which has to return within some time.
	bounded := func(what string, d time.Duration, f func() rpcResp) (r rpcResp, ok bool) {
		done := make(chan rpcResp, 1)
		go func() { done <- f() }()
		select {
		case r = <-done:
			return r, true
		case <-time.After(d):
			o.Failf("%s did not return within %v", what, d)
			return r, false
		}
	}
	flush := func(arg int64, want string) bool {
		r, ok := bounded(fmt.Sprintf("FlushCache(%d)", arg), time.Minute, func() rpcResp {
			return s.call("FlushCache", map[string]int64{"Cache": arg}, "pb").R
		})
		if ok && (!r.OK || r.F["Success"] != want) {
			o.Failf("FlushCache(%d) returned %v, must be Success=%s", arg, r, want)
		}
		return o.Violation == ""
	}
	for i, st := range c.S {
		if !flush(flushAll, "true") {
			return
		}
		before := state()
		mark := s.l.Requests()
		var wg sync.WaitGroup
		res := make([]rpcResp, len(st.Gone))
		cut := make([]bool, len(st.Gone))
		for k, g := range st.Gone {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(ms(g.At) + time.Duration(13+k)*time.Microsecond)
				var ctx context.Context
				var cancel func()
				if g.Dl {
					ctx, cancel = context.WithTimeout(context.Background(), ms(g.Cancel))
				} else {
					ctx, cancel = context.WithCancel(context.Background())
					if g.Cancel == 0 {
						cancel()
					} else {
						t := time.AfterFunc(ms(g.Cancel)+3*time.Microsecond, cancel)
						defer t.Stop()
					}
				}
				defer cancel()
				res[k] = callCtx(ctx, s.h, g.M, g.A, encOf(g.J))
				cut[k] = ctx.Err() != nil
			}()
		}
		// They have to return, in the time the calls may take.
		all := make(chan bool)
		go func() { wg.Wait(); close(all) }()
		if st.Wait > 0 {
			time.Sleep(ms(st.Wait))
		} else {
			select {
			case <-all:
			case <-time.After(2 * time.Minute):
				o.Failf("step %d: %+v did not return", i, st.Gone)
				return
			}
		}
		if len(st.Gone) == 1 && setters[st.Gone[0].M].plan != nil && st.Wait == 0 {
			// What the unit was told is known to everybody.
			s.nap(1500 * time.Millisecond)
			for _, e := range s.exchanges()[mark:] {
				if !e.IsGet {
					cat := setters[st.Gone[0].M].cache
					now := state()
					w, _ := rpcText(cat, *now.Field(cat))
					if r := s.call(getterOf[cat], nil, "pb").R; r.Text() != w {
						o.Failf("step %d: after %+v went away, %s returned %q, the unit holds %q", i, st.Gone[0], getterOf[cat], r, w)
					}
				}
			}
		}
		if st.Flush >= 0 {
			cats := flushCats(st.Flush)
			if len(cats) > 0 && st.Wait == 0 {
				s.nap(ms(1))
				s.script(cats[0], fu.Reply{Kind: "silent"})
				if !flush(st.Flush, "false") {
					return
				}
				s.script(cats[0])
			}
			if want := map[bool]string{true: "true", false: "false"}[len(cats) > 0]; !flush(st.Flush, want) {
				return
			}
		}
		select {
		case <-all:
		case <-time.After(2 * time.Minute):
			o.Failf("step %d: %+v did not return", i, st.Gone)
			return
		}
		for k, g := range st.Gone {
			o.Evals++
			if res[k].Bad != "" && !cut[k] {
				o.Failf("%s(%s): %s", g.M, argText(g.A), res[k].Bad)
			}
			if cut[k] {
				o.NonTrivial = true
				o.Label("given up: " + g.M)
			}
		}
		if len(st.Gone) == 1 && setters[st.Gone[0].M].plan != nil {
			// The call may go on after its caller is gone, but has all or none of its effect.
			s.nap(15 * time.Second)
			g := st.Gone[0]
			sp := setters[g.M]
			pl := sp.plan(*before.Field(sp.cache), g.A)
			var sets []fu.Exch
			for _, e := range s.exchanges()[mark:] {
				if !e.IsGet {
					sets = append(sets, e)
				}
			}
			if pl.cmd == fu.CSetProf {
				pl.data = profData(before.Prof, int(g.A["Mode"])-1, byte(pl.tgt))
			}
			switch {
			case (pl.refuse || pl.cmd == 0) && len(sets) > 0,
				len(sets) > 1,
				len(sets) == 1 && (sets[0].Cmd != pl.cmd || !bytes.Equal(sets[0].Data, pl.data)):
				o.Failf("step %d: %s(%s), given up after %d ms, sent %v", i, g.M, argText(g.A), g.Cancel, sets)
			case len(sets) == 0 && pl.cmd != 0 && res[0].OK:
				o.Failf("step %d: %s(%s), given up after %d ms, succeeded without sending anything", i, g.M, argText(g.A), g.Cancel)
			}
		}
		s.nap(15 * time.Second)
		// Everybody else is served as ever.
		if !flush(flushAll, "true") {
			return
		}
		now := state()
		g := st.Then
		sp := setters[g.M]
		pl := sp.plan(*now.Field(sp.cache), g.A)
		r, ok := bounded(g.M, time.Minute, func() rpcResp { return s.call(g.M, g.A, encOf(g.J)).R })
		if !ok {
			return
		}
		d := fmt.Sprintf("step %d: %s(%s) with %s after callers went away returned %v", i, g.M, argText(g.A), sp.cacheText(*now.Field(sp.cache)), r)
		switch {
		case pl.refuse:
			if r.OK {
				o.Failf("%s, must be refused", d)
			}
		case !r.OK || r.F["Modified"] != fmt.Sprint(pl.cmd != 0) || r.F[sp.tgt] != fmt.Sprint(pl.tgt) || !pl.origOpen && r.F[sp.orig] != fmt.Sprint(pl.orig):
			o.Failf("%s, must be modified %v, original %d, target %d", d, pl.cmd != 0, pl.orig, pl.tgt)
		}
		if !flush(flushAll, "true") {
			return
		}
		now = state()
		for _, cat := range categories {
			w, _ := rpcText(cat, *now.Field(cat))
			if r := s.call(getterOf[cat], nil, "pb").R; r.Text() != w {
				o.Failf("step %d: after callers went away, %s returned %q, the unit holds %q", i, getterOf[cat], r, w)
			}
		}
		if o.Violation != "" {
			return
		}
	}
	s.finish()
	return
}

func gSetterCall(t *rapid.T, l string) (m string, a map[string]int64) {
	switch rapid.IntRange(0, 2).Draw(t, l) {
	case 0:
		return "SetFanSpeed", gSpeedArgs(t)
	case 1:
		return "SetComfortTemp", map[string]int64{"ComfortTemp": gU32(t, l+"ct", 0, 107)}
	}
	return "SetFanProfile", map[string]int64{"Mode": gU32(t, l+"m", 1, 4), "TargetSpeed": gU32(t, l+"ts", 15, 100)}
}

func gC30(t *rapid.T) any {
	c := awayCase{Unit: gUnitRange(t, "u"), Lag: rapid.SampledFrom([]int{0, 0, 1, 4}).Draw(t, "lag")}
	for i := rapid.IntRange(1, 3).Draw(t, "nd"); i > 0; i-- {
		c.Delays = append(c.Delays, rapid.SampledFrom([]int{1, 4, 20, 110, 300}).Draw(t, "d"))
	}
	call := func(l string) (a awayCall) {
		a.J = rapid.Bool().Draw(t, l+"j")
		switch rapid.IntRange(0, 5).Draw(t, l+"k") {
		case 0, 1:
			a.M = "FlushCache"
			a.A = map[string]int64{"Cache": rapid.SampledFrom([]int64{0, 1, 2, 3, 4, 10, 10, 7}).Draw(t, l+"c")}
		case 2:
			a.M = getterOf[gCat(t, l+"cat")]
		default:
			a.M, a.A = gSetterCall(t, l+"s")
		}
		a.At = rapid.SampledFrom([]int{0, 0, 1, 50, 400}).Draw(t, l+"at")
		a.Cancel = rapid.SampledFrom([]int{0, 1, 2, 5, 30, 115, 301, 900, 2000}).Draw(t, l+"cancel")
		a.Dl = rapid.Bool().Draw(t, l+"dl")
		return
	}
	for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
		st := awayStep{Flush: rapid.SampledFrom([]int64{-1, 0, 1, 2, 3, 4, 10, 5}).Draw(t, "f")}
		for k := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "ng"); k > 0; k-- {
			st.Gone = append(st.Gone, call("g"))
		}
		st.Then.M, st.Then.A = gSetterCall(t, "then")
		st.Then.J = rapid.Bool().Draw(t, "tj")
		if rapid.IntRange(0, 2).Draw(t, "w") == 0 {
			st.Wait = rapid.SampledFrom([]int{1, 20, 310, 1000}).Draw(t, "wms")
		}
		c.S = append(c.S, st)
	}
	return c
}

// --- C31: lost connection ---

type lostStep struct {
	K   string           `json:"k"` // get call flush wait
	Cat byte             `json:"c,omitempty"`
	M   string           `json:"m,omitempty"`
	A   map[string]int64 `json:"a,omitempty"`
	J   bool             `json:"j,omitempty"`
	Ms  int              `json:"ms,omitempty"`
}

type lostCase struct {
	Unit   fu.State   `json:"unit"`
	Before int        `json:"b"`            // ms after start-up
	Busy   string     `json:"bu,omitempty"` // a call that is under way at that time
	R      string     `json:"r"`            // what reads fail with
	W      string     `json:"w,omitempty"`  // what writes fail with, if they do
	S      []lostStep `json:"s"`
	Next   fu.State   `json:"next"` // the unit when the connection works again
	Speed  byte       `json:"sp"`
	Back   int        `json:"back,omitempty"` // instead of a flush, wait as long as this category may take
}

func lineErr(s string) error {
	switch s {
	case "":
		return nil
	case "eof":
		return io.EOF
	case "closed":
		return io.ErrClosedPipe
	}
	return errors.New("injected: " + s)
}

func runC31(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[lostCase](raw)
	s := newServer(c.Unit, &o)
	s.l.Strict = false // on a dead line exchanges are over at once
	s.boot()
	s.nap(ms(c.Before))
	var wg sync.WaitGroup
	if c.Busy != "" {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.call(c.Busy, map[string]int64{"Abs": int64(c.Unit.Prof[8])%4 + 1, "ComfortTemp": 33, "Cache": flushAll}, "pb")
		}()
		s.nap(ms(2))
	}
	s.l.Die(lineErr(c.R), lineErr(c.W))
	wg.Wait()
	s.nap(10 * time.Millisecond)
	died := s.l.Now()
	extra := map[byte]int{}
	sets := 0
	for _, st := range c.S {
		o.Evals++
		t0 := s.l.Now()
		switch st.K {
		case "wait":
			s.nap(ms(st.Ms))
			continue
		case "get":
			s.get(st.Cat, encOf(st.J))
		case "flush":
			for _, cat := range categories {
				extra[cat]++
			}
			if r := s.call("FlushCache", map[string]int64{"Cache": flushAll}, encOf(st.J)).R; !r.OK || r.F["Success"] != "false" {
				o.Failf("FlushCache on a lost connection returned %v", r)
			}
		case "call":
			sp := setters[st.M]
			v := s.reading(sp.cache)
			if v == nil {
				continue
			}
			pl := sp.plan(v, st.A)
			r := s.call(st.M, st.A, encOf(st.J)).R
			if pl.cmd != 0 {
				sets++
				extra[fu.CProf]++
			}
			switch {
			case (pl.refuse || pl.cmd != 0) && r.OK:
				o.Failf("%s(%s) on a lost connection returned %v", st.M, argText(st.A), r)
			case pl.refuse && pl.invalid && r.Code != "invalid_argument":
				o.Failf("%s(%s) on a lost connection returned %v, must be an invalid argument", st.M, argText(st.A), r)
			case !pl.refuse && pl.cmd == 0 && (!r.OK || r.F["Modified"] != "false"):
				o.Failf("%s(%s) on a lost connection returned %v, must be unmodified", st.M, argText(st.A), r)
			}
		}
		if d := s.l.Now() - t0; d > 15*time.Second {
			o.Failf("%+v took %v on a lost connection", st, d)
		}
	}
	// No faster pace either.
	ex := s.exchanges()
	count := map[byte]int{}
	for _, e := range ex {
		if e.T > died && e.R.Kind != "werr" {
			if e.IsGet {
				count[e.Cmd]++
			} else {
				count[0]++
			}
		}
	}
	for _, cat := range categories {
		if lim := int((s.l.Now()-died)/period[cat]) + 2 + extra[cat]; count[cat] > lim {
			o.Failf("%s were requested %d times within %v of a lost connection, %d times by calls", catName[cat], count[cat], s.l.Now()-died, extra[cat])
		}
	}
	if count[0] > sets {
		o.Failf("%d set requests for %d calls on a lost connection", count[0], sets)
	}
	o.NonTrivial = true
	o.Label("reads fail with " + c.R)
	if c.W != "" {
		o.Label("writes fail")
	}
	// The connection works again.
	s.l.With(func() { *s.l.Unit = *fu.NewUnit(c.Next) })
	s.l.Die(nil, nil)
	known := categories
	if c.Back == 0 {
		s.nap(1100 * time.Millisecond)
		if r := s.call("FlushCache", map[string]int64{"Cache": flushAll}, "pb").R; !r.OK || r.F["Success"] != "true" {
			o.Failf("FlushCache on a restored connection returned %v", r)
		}
	} else { // or as they are refreshed
		s.nap(2*period[categories[c.Back-1]] + 8*time.Second)
		known = nil
		for _, cat := range categories {
			if period[cat] <= period[categories[c.Back-1]] {
				known = append(known, cat)
			}
		}
	}
	for _, cat := range known {
		w, _ := rpcText(cat, *c.Next.Field(cat))
		if r := s.call(getterOf[cat], nil, "pb").R; r.Text() != w {
			o.Failf("on a restored connection, %s returned %q, the unit holds %q", getterOf[cat], r, w)
		}
	}
	if c.Back > 0 {
		s.call("FlushCache", map[string]int64{"Cache": flushAll}, "pb")
	}
	pl := planSpeed(c.Next.Prof, map[string]int64{"Abs": int64(c.Speed)})
	if r := s.call("SetFanSpeed", map[string]int64{"Abs": int64(c.Speed)}, "pb").R; !r.OK || r.F["Modified"] != fmt.Sprint(pl.cmd != 0) {
		o.Failf("on a restored connection, SetFanSpeed(%d) returned %v", c.Speed, r)
	}
	s.finish()
	return
}

func gC31(t *rapid.T) any {
	c := lostCase{Unit: gUnitRange(t, "u"), Next: gUnitRange(t, "n"), Speed: rapid.ByteRange(1, 4).Draw(t, "sp")}
	c.Before = rapid.SampledFrom([]int{0, 3, 4990, 5004, 5008, 12000, 400000}).Draw(t, "b")
	c.Busy = rapid.SampledFrom([]string{"", "", "SetFanSpeed", "SetComfortTemp", "FlushCache"}).Draw(t, "busy")
	c.Back = rapid.IntRange(0, 6).Draw(t, "back")
	c.R = rapid.SampledFrom([]string{"eof", "closed", "input/output error"}).Draw(t, "r")
	c.W = rapid.SampledFrom([]string{"", "closed", "broken pipe"}).Draw(t, "w")
	for i := rapid.IntRange(2, 12).Draw(t, "n"); i > 0; i-- {
		st := lostStep{K: rapid.SampledFrom([]string{"get", "get", "call", "call", "flush", "wait"}).Draw(t, "k"), J: rapid.Bool().Draw(t, "j")}
		switch st.K {
		case "get":
			st.Cat = gCat(t, "cat")
		case "call":
			st.M, st.A = gSetterCall(t, "s")
		case "wait":
			st.Ms = rapid.SampledFrom([]int{1, 700, 5000, 61000, 400000, 4000000}).Draw(t, "ms")
		}
		c.S = append(c.S, st)
	}
	return c
}

// The same for the library alone.
type lostLib struct {
	Unit fu.State `json:"unit"`
	S    []struct {
		Op   LibOp  `json:"op"`
		R    string `json:"r,omitempty"`
		W    string `json:"w,omitempty"`
		Gap  int    `json:"g,omitempty"`
		Lost bool   `json:"l,omitempty"` // the unit does not answer (on a working line)
	} `json:"s"`
	Kind int `json:"k,omitempty"`
}

func runLostLib(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[lostLib](raw)
	u := fu.NewUnit(c.Unit)
	u.NoFollow = true
	l := fu.NewLine(u)
	l.Strict = false
	defer l.Close()
	lost := false
	l.Pick = func(fu.Req, int) fu.Reply {
		if lost {
			return fu.Reply{Kind: "silent"}
		}
		return fu.Reply{Kind: "ok", Delay: 3}
	}
	dead := false
	for i, s := range c.S {
		l.Die(lineErr(s.R), lineErr(s.W))
		lost = s.Lost
		before := l.Unit.State.Clone()
		t0 := l.Now()
		text, err := s.Op.Do(l)
		d := l.Now() - t0
		broken := s.R != "" || s.W != ""
		switch {
		case broken && err == nil:
			o.Failf("step %d: %v succeeded on a lost connection", i, s.Op)
		case broken && d > 1500*time.Millisecond, d > 3*time.Second:
			o.Failf("step %d: %v took %v", i, s.Op, d)
		case broken:
			dead = true
			time.Sleep(20 * time.Millisecond)
			l.Clear()
		case s.Lost && err == nil:
			o.Failf("step %d: %v succeeded without an answer", i, s.Op)
		case !s.Lost && err != nil:
			o.Failf("step %d: %v failed (%v) on a working connection", i, s.Op, err)
		case !s.Lost:
			if s.Op.IsRead() {
				if w, _ := fu.Text(opCmd[s.Op.Op], *before.Field(opCmd[s.Op.Op])); w != text {
					o.Failf("step %d: %v returned %s, the unit holds %s", i, s.Op, text, w)
				}
			}
			if dead {
				o.NonTrivial = true
				o.Label("works again")
			}
		}
		time.Sleep(ms(s.Gap) + 37*time.Microsecond)
	}
	if p := l.Problems(); p != "" {
		o.Failf("%s", p)
	}
	return
}

func gLostLib(t *rapid.T) any {
	var c lostLib
	c.Unit = gState(t, "u")
	n := rapid.IntRange(2, 8).Draw(t, "n")
	for i := range n + 1 {
		c.S = append(c.S, struct {
			Op   LibOp  `json:"op"`
			R    string `json:"r,omitempty"`
			W    string `json:"w,omitempty"`
			Gap  int    `json:"g,omitempty"`
			Lost bool   `json:"l,omitempty"`
		}{Op: gAnyOp(t, "op", false)})
		s := &c.S[i]
		if i < n {
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 0, 1:
				s.R = rapid.SampledFrom([]string{"eof", "closed", "input/output error"}).Draw(t, "r")
				s.W = rapid.SampledFrom([]string{"", "closed"}).Draw(t, "w")
			case 2:
				s.Lost = true
			}
			s.Gap = rapid.SampledFrom([]int{0, 5, 1000}).Draw(t, "gap")
		}
	}
	return c
}

// --- C32: Go clients ---

// echo implements the service with prepared replies.
type echo struct {
	got   proto.Message
	name  string
	reply proto.Message
	err   error
	n     int
}

func serveEcho[T proto.Message](e *echo, name string, in proto.Message) (T, error) {
	e.n++
	e.name, e.got = name, in
	if e.err != nil {
		var z T
		return z, e.err
	}
	return e.reply.(T), nil
}

func (e *echo) GetBootInfo(_ context.Context, in *rpc.Noop) (*rpc.BootInfo, error) {
	return serveEcho[*rpc.BootInfo](e, "GetBootInfo", in)
}
func (e *echo) GetTemps(_ context.Context, in *rpc.Noop) (*rpc.Temps, error) {
	return serveEcho[*rpc.Temps](e, "GetTemps", in)
}
func (e *echo) GetBypass(_ context.Context, in *rpc.Noop) (*rpc.Bypass, error) {
	return serveEcho[*rpc.Bypass](e, "GetBypass", in)
}
func (e *echo) GetFans(_ context.Context, in *rpc.Noop) (*rpc.Fans, error) {
	return serveEcho[*rpc.Fans](e, "GetFans", in)
}
func (e *echo) GetFanProfiles(_ context.Context, in *rpc.Noop) (*rpc.FanProfiles, error) {
	return serveEcho[*rpc.FanProfiles](e, "GetFanProfiles", in)
}
func (e *echo) GetErrors(_ context.Context, in *rpc.Noop) (*rpc.Errors, error) {
	return serveEcho[*rpc.Errors](e, "GetErrors", in)
}
func (e *echo) SetFanSpeed(_ context.Context, in *rpc.FanSpeedTarget) (*rpc.FanSpeedModified, error) {
	return serveEcho[*rpc.FanSpeedModified](e, "SetFanSpeed", in)
}
func (e *echo) SetComfortTemp(_ context.Context, in *rpc.ComfortTarget) (*rpc.ComfortModified, error) {
	return serveEcho[*rpc.ComfortModified](e, "SetComfortTemp", in)
}
func (e *echo) SetFanProfile(_ context.Context, in *rpc.FanProfileTarget) (*rpc.FanProfileModified, error) {
	return serveEcho[*rpc.FanProfileModified](e, "SetFanProfile", in)
}
func (e *echo) FlushCache(_ context.Context, in *rpc.FlushCacheRequest) (*rpc.FlushCacheResponse, error) {
	return serveEcho[*rpc.FlushCacheResponse](e, "FlushCache", in)
}

type doerFunc func(*http.Request) (*http.Response, error)

func (f doerFunc) Do(r *http.Request) (*http.Response, error) { return f(r) }

type clientCall struct {
	M     string            `json:"m"`
	J     bool              `json:"j,omitempty"`
	U     [4]uint32         `json:"u"` // request fields
	B     bool              `json:"b,omitempty"`
	RU    [12]uint32        `json:"ru"` // reply fields
	RS    string            `json:"rs,omitempty"`
	RB    [2]bool           `json:"rb"`
	Code  string            `json:"code,omitempty"`
	Msg   string            `json:"msg,omitempty"`
	Meta  map[string]string `json:"meta,omitempty"`
	Plain bool              `json:"plain,omitempty"`
	// Way is what happens to the reply on its way: "" nothing, status, cut, fail
	Way    string `json:"way,omitempty"`
	Status int    `json:"st,omitempty"`
	Page   string `json:"pg,omitempty"`
}

func (c clientCall) reply() proto.Message {
	f := func(i int) float32 { return math.Float32frombits(c.RU[i]) }
	u, s, b := c.RU, c.RS, c.RB
	switch c.M {
	case "GetBootInfo":
		return &rpc.BootInfo{MajorVersion: u[0], MinorVersion: u[1], BetaVersion: u[2], DeviceName: s}
	case "GetTemps":
		return &rpc.Temps{Comfort: f(0), OutsideAir: f(1), SupplyAir: f(2), InsideAir: f(3), ExhaustAir: f(4), GeoHeat: f(5), Reheating: f(6), KitchenHood: f(7)}
	case "GetBypass":
		return &rpc.Bypass{Factor: u[0], Level: u[1], Correction: u[2], SummerMode: b[0]}
	case "GetFans":
		return &rpc.Fans{InPercent: u[0], OutPercent: u[1], InSpeed: u[2], OutSpeed: u[3]}
	case "GetFanProfiles":
		return &rpc.FanProfiles{OutAway: u[0], OutLow: u[1], OutMid: u[2], OutHigh: u[3], InFanActive: b[0], InAway: u[4], InLow: u[5], InMid: u[6], InHigh: u[7], CurrentOut: u[8], CurrentIn: u[9], CurrentMode: u[10]}
	case "GetErrors":
		return &rpc.Errors{Filter: b[0]}
	case "SetFanSpeed":
		return &rpc.FanSpeedModified{Modified: b[0], OriginalSpeed: u[0], TargetSpeed: u[1], ReqTime: s}
	case "SetComfortTemp":
		return &rpc.ComfortModified{Modified: b[0], OriginalTemp: u[0], TargetTemp: u[1], ReqTime: s}
	case "SetFanProfile":
		return &rpc.FanProfileModified{Modified: b[0], OriginalSpeed: u[0], TargetSpeed: u[1], ReqTime: s}
	case "FlushCache":
		return &rpc.FlushCacheResponse{Success: b[0], ReqTime: s}
	}
	panic("harness: method " + c.M)
}

func (c clientCall) call(cl rpc.Comfo) (in, out proto.Message, err error) {
	ctx := context.Background()
	no := &rpc.Noop{}
	switch c.M {
	case "GetBootInfo":
		out, err = wrap(cl.GetBootInfo(ctx, no))
	case "GetTemps":
		out, err = wrap(cl.GetTemps(ctx, no))
	case "GetBypass":
		out, err = wrap(cl.GetBypass(ctx, no))
	case "GetFans":
		out, err = wrap(cl.GetFans(ctx, no))
	case "GetFanProfiles":
		out, err = wrap(cl.GetFanProfiles(ctx, no))
	case "GetErrors":
		out, err = wrap(cl.GetErrors(ctx, no))
	case "SetFanSpeed":
		x := &rpc.FanSpeedTarget{Abs: c.U[0], Rel: c.B}
		in = proto.Clone(x)
		out, err = wrap(cl.SetFanSpeed(ctx, x))
	case "SetComfortTemp":
		x := &rpc.ComfortTarget{ComfortTemp: c.U[0]}
		in = proto.Clone(x)
		out, err = wrap(cl.SetComfortTemp(ctx, x))
	case "SetFanProfile":
		x := &rpc.FanProfileTarget{Mode: c.U[0], TargetSpeed: c.U[1]}
		in = proto.Clone(x)
		out, err = wrap(cl.SetFanProfile(ctx, x))
	case "FlushCache":
		x := &rpc.FlushCacheRequest{Cache: comfoserver.CacheType(int32(c.U[0]))}
		in = proto.Clone(x)
		out, err = wrap(cl.FlushCache(ctx, x))
	}
	if in == nil {
		in = no
	}
	return
}

func wrap[T proto.Message](m T, err error) (proto.Message, error) {
	if err != nil {
		return nil, err
	}
	return m, nil
}

func runC32(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[clientCall](raw)
	e := &echo{reply: c.reply()}
	if c.Code != "" {
		te := twirp.NewError(twirp.ErrorCode(c.Code), c.Msg)
		for k, v := range c.Meta {
			te = te.WithMeta(k, v)
		}
		e.err = te
		if c.Plain {
			e.err = errors.New(c.Msg)
		}
	}
	h := rpc.NewComfoServer(e, nil)
	sent := 0
	do := doerFunc(func(r *http.Request) (*http.Response, error) {
		sent++
		if c.Way == "fail" {
			return nil, errors.New("injected: connection refused")
		}
		// As received by a server.
		b, _ := io.ReadAll(r.Body)
		rq := httptest.NewRequest(r.Method, r.URL.String(), bytes.NewReader(b))
		rq.Header = r.Header.Clone()
		w := httptest.NewRecorder()
		h.ServeHTTP(w, rq)
		switch c.Way {
		case "status": // something in between answers instead
			w = httptest.NewRecorder()
			w.Header().Set("Location", "http://elsewhere/")
			w.WriteHeader(c.Status)
			w.WriteString(c.Page)
		case "cut": // the connection breaks in the middle of the reply
			rs := w.Result()
			rs.Body = io.NopCloser(io.MultiReader(io.LimitReader(rs.Body, 3), errReader{}))
			return rs, nil
		}
		return w.Result(), nil
	})
	base := "http://unit.example:3094"
	var cl rpc.Comfo
	if c.J {
		cl = rpc.NewComfoJSONClient(base, do)
	} else {
		cl = rpc.NewComfoProtobufClient(base, do)
	}
	in, out, err := c.call(cl)
	o.NonTrivial = true
	o.Label(c.M)
	if sent != 1 {
		o.Failf("%s sent %d requests", c.M, sent)
	}
	if c.Way == "fail" || c.Way == "cut" || c.Way == "status" {
		o.Label("way: " + c.Way)
		var te twirp.Error
		if err == nil {
			o.Failf("%s returned %v although no reply came through (%s %d)", c.M, out, c.Way, c.Status)
		} else if !errors.As(err, &te) {
			o.Failf("%s returned an error that is no Twirp error: %v", c.M, err)
		}
		return
	}
	if e.n != 1 || e.name != c.M || !proto.Equal(in, e.got) {
		o.Failf("%s(%v) reached the service %d times as %s(%v)", c.M, in, e.n, e.name, e.got)
	}
	if c.Code == "" {
		if err != nil {
			o.Failf("%s failed (%v), the service replied %v", c.M, err, e.reply)
		} else if !proto.Equal(out, e.reply) {
			o.Failf("%s returned %v, the service replied %v", c.M, out, e.reply)
		}
		return
	}
	o.Label("error")
	te, ok := err.(twirp.Error)
	switch {
	case !ok:
		o.Failf("%s returned %v, %v instead of a Twirp error", c.M, out, err)
	case c.Plain:
		if te.Code() != twirp.Internal || te.Msg() != c.Msg {
			o.Failf("%s: the service's error %q arrived as %s %q", c.M, c.Msg, te.Code(), te.Msg())
		}
	case te.Code() != twirp.ErrorCode(c.Code) || te.Msg() != c.Msg:
		o.Failf("%s: the service's error %s %q arrived as %s %q", c.M, c.Code, c.Msg, te.Code(), te.Msg())
	default:
		for k, v := range c.Meta {
			if te.Meta(k) != v {
				o.Failf("%s: error metadata %q=%q arrived as %q", c.M, k, v, te.Meta(k))
			}
		}
	}
	return
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errors.New("injected: connection reset") }

func gC32(t *rapid.T) any {
	c := clientCall{J: rapid.Bool().Draw(t, "j"), B: rapid.Bool().Draw(t, "b")}
	c.M = rapid.SampledFrom([]string{"GetBootInfo", "GetTemps", "GetBypass", "GetFans", "GetFanProfiles", "GetErrors", "SetFanSpeed", "SetComfortTemp", "SetFanProfile", "FlushCache"}).Draw(t, "m")
	u := func(l string) uint32 {
		switch rapid.IntRange(0, 3).Draw(t, l+"k") {
		case 0:
			return rapid.SampledFrom([]uint32{0, 1, 127, 128, 255, 256, 1 << 31, math.MaxUint32, math.Float32bits(20.5), math.Float32bits(-20), 0x7FC00000, 0x7F800000, 0xFF800000, 0x80000000}).Draw(t, l)
		case 1:
			return uint32(rapid.Byte().Draw(t, l))
		}
		return rapid.Uint32().Draw(t, l)
	}
	for i := range c.U {
		c.U[i] = u("u")
	}
	for i := range c.RU {
		c.RU[i] = u("r")
	}
	if rapid.IntRange(0, 3).Draw(t, "zero") == 0 {
		c.U = [4]uint32{}
	}
	c.RS = strings.ToValidUTF8(rapid.StringN(0, 20, -1).Draw(t, "s"), "?")
	c.RB = [2]bool{rapid.Bool().Draw(t, "b0"), rapid.Bool().Draw(t, "b1")}
	if rapid.IntRange(0, 2).Draw(t, "err") == 0 {
		c.Code = rapid.SampledFrom([]string{"canceled", "unknown", "invalid_argument", "malformed", "deadline_exceeded", "not_found", "bad_route", "already_exists",
			"permission_denied", "unauthenticated", "resource_exhausted", "failed_precondition", "aborted", "out_of_range", "unimplemented", "internal", "unavailable", "data_loss"}).Draw(t, "code")
		c.Msg = strings.ToValidUTF8(rapid.StringN(1, 30, -1).Draw(t, "msg"), "?")
		c.Plain = rapid.IntRange(0, 4).Draw(t, "plain") == 0
		for k := rapid.IntRange(0, 2).Draw(t, "nm"); k > 0; k-- {
			if c.Meta == nil {
				c.Meta = map[string]string{}
			}
			c.Meta[rapid.StringMatching(`[a-z_]{1,8}`).Draw(t, "mk")] = strings.ToValidUTF8(rapid.StringN(0, 10, -1).Draw(t, "mv"), "?")
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "way?") == 0 {
		c.Way = rapid.SampledFrom([]string{"status", "status", "cut", "fail"}).Draw(t, "way")
		c.Status = rapid.SampledFrom([]int{201, 202, 203, 204, 206, 300, 301, 302, 307, 400, 401, 403, 404, 429, 418, 500, 502, 503, 504}).Draw(t, "st")
		c.Page = rapid.SampledFrom([]string{"", "", "<html>no service</html>", "{}", "null", "\x08\x01", `{"code":"ok","msg":""}`, `{"Modified":true}`}).Draw(t, "page")
	}
	return c
}

// --- C33: getters while others wait ---

type availCase struct {
	Unit   fu.State `json:"unit"`
	M      string   `json:"m"` // a setter, or FlushCache
	T      int64    `json:"t"`
	Mode   string   `json:"mode"` // slow: the fans do not follow; silent: no more answers, from the At-th request
	At     int      `json:"at"`
	Phase  int      `json:"ph"`
	Delay  int      `json:"d"`
	Get    []int    `json:"g"` // ms after the call began
	Cats   []byte   `json:"c"`
	Serial bool     `json:"ser,omitempty"`
}

func runC33(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[availCase](raw)
	s := newServer(c.Unit, &o)
	s.boot()
	s.nap(ms(c.Phase))
	n := 0
	s.l.With(func() {
		if c.Mode == "slow" {
			s.l.Unit.NoFollow = true
		}
		s.l.Pick = func(fu.Req, int) fu.Reply {
			n++
			if c.Mode == "silent" && n > c.At {
				return fu.Reply{Kind: "silent"}
			}
			return fu.Reply{Kind: "ok", Delay: c.Delay}
		}
	})
	t0 := s.l.Now()
	fin := make(chan rec, 1)
	go func() {
		fin <- s.call(c.M, map[string]int64{"Abs": c.T, "ComfortTemp": c.T, "Mode": c.T, "TargetSpeed": c.T, "Cache": flushAll}, "pb")
	}()
	limit := 2 * time.Second
	if c.Mode == "silent" {
		limit = 5 * time.Second
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i, at := range c.Get {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(ms(at) + time.Duration(17+i)*time.Microsecond)
			r := s.call(getterOf[c.Cats[i]], nil, "pb")
			mu.Lock()
			defer mu.Unlock()
			o.Evals++
			if d := r.E - r.S; d > limit {
				o.Failf("%s took %v, %v after %s began (%s)", r.Method, d, r.S-t0, c.M, c.Mode)
			}
			s.wantGetter(s.exchanges(), c.Cats[i], r)
		}()
	}
	wg.Wait()
	f := <-fin
	if f.E-f.S > 2*time.Second {
		o.NonTrivial = true
		o.Label("during a long " + f.Method)
	}
	s.finish()
	return
}

func gC33(t *rapid.T) any {
	c := availCase{Unit: gUnitRange(t, "u"), Mode: rapid.SampledFrom([]string{"slow", "silent", "silent"}).Draw(t, "mode")}
	c.M = rapid.SampledFrom([]string{"SetFanSpeed", "SetFanSpeed", "SetFanSpeed", "SetComfortTemp", "SetFanProfile", "FlushCache"}).Draw(t, "m")
	c.At = rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5}).Draw(t, "at")
	c.Phase = rapid.SampledFrom([]int{0, 700, 3900, 4990}).Draw(t, "ph")
	c.Delay = rapid.SampledFrom([]int{1, 5, 200}).Draw(t, "d")
	c.T = rapid.Int64Range(1, 4).Draw(t, "t")
	if c.M == "SetFanSpeed" {
		if c.T == int64(c.Unit.Prof[8]) {
			c.T = c.T%4 + 1
		}
		// the fans are elsewhere
		c.Unit.Fans[0] = c.Unit.In(int(c.T)-1) + 1
	}
	for k := rapid.IntRange(1, 8).Draw(t, "n"); k > 0; k-- {
		c.Get = append(c.Get, rapid.SampledFrom([]int{0, 1, 3, 250, 999, 1001, 1600, 3000, 6000, 9000}).Draw(t, "g"))
		c.Cats = append(c.Cats, gCat(t, "cat"))
	}
	return c
}

func init() {
	core.Register(&core.Check{
		Prop: "C29", Name: "lines", Mode: core.Fake, Quick: 30000, Thorough: 600000,
		Rule: "2-4 connections to units in different random states, of pointer, comparable and non-comparable types; 1-6 library operations on each, in turn or concurrently, answered promptly, late, in part or not at all. Oracle: each unit sees exactly the requests of its own operations; a promptly answered operation succeeds with its own unit's values, an unanswered one fails. Non-trivial: an operation was answered after another one had failed",
		Run:  runC29, Gen: gC29,
	})
	core.Register(&core.Check{
		Prop: "C29", Name: "closed", Mode: core.Fake, Quick: 100, Thorough: 3000,
		Rule: "20-60 connections, used for 1-3 operations each (failed or not) and closed. Oracle: weak pointers: at most 3 are still referenced after a garbage collection, and goroutines are bounded. Non-trivial: an operation failed",
		Run:  runConns,
		Gen: func(t *rapid.T) any {
			c := closeCase{Unit: gState(t, "u"), Kind: rapid.SampledFrom([]int{0, 1, 2}).Draw(t, "kind"), N: rapid.IntRange(20, 60).Draw(t, "n")}
			for i := rapid.IntRange(1, 3).Draw(t, "ops"); i > 0; i-- {
				c.Ops = append(c.Ops, gAnyOp(t, "op", false))
			}
			for i := rapid.IntRange(1, 3).Draw(t, "nr"); i > 0; i-- {
				if rapid.Bool().Draw(t, "good") {
					c.R = append(c.R, gQuick(t, "r"))
				} else {
					c.R = append(c.R, gLost(t, "r"))
				}
			}
			return c
		},
	})
	core.Register(&core.Check{
		Prop: "C30", Name: "away", Mode: core.Fake, Fresh: true, Quick: 3000, Thorough: 40000, VirtualLimit: 10 * time.Hour,
		Rule: "1-4 rounds: 1-3 concurrent calls (setters, flushes, getters) whose contexts are cancelled or time out before, during or after the call; then a flush of a silent and of a responsive unit, a setter, and all getters. Oracle: every call returns; an abandoned setter sent its one request or nothing; the later calls give what the unit's state requires. Non-trivial: a context ended before its call",
		Run:  runC30, Gen: gC30,
	})
	core.Register(&core.Check{
		Prop: "C31", Name: "service", Mode: core.Fake, Fresh: true, Quick: 3000, Thorough: 40000, VirtualLimit: 100 * time.Hour,
		Rule: "the line dies at a random moment of the service's life (reads fail with end of file or an error, writes fail or vanish), with or without a call under way; 2-12 calls and waits; then the line works again with a changed unit. Oracle: getters give the last readings, refusals and unmodified replies are as ever, everything else reports failure within 15 s; requests stay within the refresh pace; afterwards everything works. A busy loop shows as a case that uses a minute of CPU time. Non-trivial: all",
		Run:  runC31, Gen: gC31,
	})
	core.Register(&core.Check{
		Prop: "C31", Name: "library", Mode: core.Fake, Quick: 4000, Thorough: 100000,
		Rule: "3-9 library operations on a line that is dead, silent or working at each of them. Oracle: errors within 1.5 s on a dead line, the unit's values on a working one. Non-trivial: worked after having been dead",
		Run:  runLostLib, Gen: gLostLib,
	})
	core.Register(&core.Check{
		Prop: "C32", Name: "clients", Mode: core.Fake, Quick: 40000, Thorough: 800000,
		Rule: "one call of the generated protobuf or JSON client against the generated server with a recording implementation: any field values, any error code, message and metadata, and replies that are lost, cut or replaced on their way. Oracle: request and reply arrive unchanged. Non-trivial: all",
		Run:  runC32, Gen: gC32,
	})
	core.Register(&core.Check{
		Prop: "C33", Name: "available", Mode: core.Fake, Fresh: true, Quick: 3000, Thorough: 40000,
		Rule: "a setter or flush that has to wait (fans that never follow, a unit that falls silent at some request) and 1-8 getters started at random moments during it. Oracle: each getter returns within 2 s (responsive unit) or 5 s (silent unit), with the last reading. Non-trivial: the call took more than 2 s",
		Run:  runC33, Gen: gC33,
	})
}
