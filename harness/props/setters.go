package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"slices"
	"strconv"
	"sync"
	"time"

	"comfoverif/core"
	"comfoverif/fu"

	"github.com/ti-mo/comfo/comfoserver"
	"pgregory.net/rapid"
)

// Checks of the setters. The oracle for one call is a pure function of the
// cached reading and the arguments; which reading is cached is known from the
// line's log.

// plan is what a setter has to do.
type plan struct {
	refuse    bool   // an error, nothing sent
	invalid   bool   // the error must be an invalid argument
	cmd       byte   // the command to send, 0 for none (unmodified)
	data      fu.Hex // its payload; nil: depends on the profiles read in the course of the call
	orig, tgt int64
	origOpen  bool // the original value is not representable
}

// planSpeed is SetFanSpeed's specification.
func planSpeed(prof []byte, a map[string]int64) plan {
	mode, abs := int64(prof[8]), a["Abs"]
	var t int64
	switch {
	case abs != 0 && a["Rel"] != 0:
		return plan{refuse: true, invalid: true}
	case abs != 0:
		t = abs
	case a["Rel"] != 0:
		t = mode + 1
	default:
		t = mode - 1
	}
	if t < 1 || t > 4 {
		return plan{refuse: true, invalid: true}
	}
	p := plan{orig: mode, tgt: t}
	if t != mode {
		p.cmd, p.data = fu.CSpeed, fu.Hex{byte(t)}
	}
	return p
}

// planTemp is SetComfortTemp's.
func planTemp(temps []byte, a map[string]int64) plan {
	t, c := a["ComfortTemp"], int64(fu.Temp(temps[0]))
	if t > 107 {
		return plan{refuse: true}
	}
	p := plan{orig: c, tgt: t, origOpen: c < 0}
	if t != c {
		p.cmd, p.data = fu.CSetTemp, fu.Hex{byte((t + 20) * 2)}
	}
	return p
}

// planProfile is SetFanProfile's.
func planProfile(prof []byte, a map[string]int64) plan {
	m, t := a["Mode"], a["TargetSpeed"]
	if m < 1 || m > 4 || t < 15 || t > 100 {
		return plan{refuse: true, invalid: true}
	}
	s := fu.State{Prof: prof}
	p := plan{orig: int64(s.In(int(m - 1))), tgt: t}
	if p.orig != t {
		p.cmd = fu.CSetProf
	}
	return p
}

type setterSpec struct {
	plan       func(cached []byte, a map[string]int64) plan
	cache      byte   // category whose cached reading matters
	orig, tgt  string // reply fields
	set        byte
	readsFirst bool
}

var setters = map[string]setterSpec{
	"SetFanSpeed":    {planSpeed, fu.CProf, "OriginalSpeed", "TargetSpeed", fu.CSpeed, false},
	"SetComfortTemp": {planTemp, fu.CTemps, "OriginalTemp", "TargetTemp", fu.CSetTemp, false},
	"SetFanProfile":  {planProfile, fu.CProf, "OriginalSpeed", "TargetSpeed", fu.CSetProf, true},
}

// profData is the payload of a profile update that sets one profile.
func profData(prof []byte, mode int, v byte) fu.Hex {
	s := fu.State{Prof: append(fu.Hex(nil), prof...)}
	s.SetInOut(mode, v, v)
	p := s.Prof
	return fu.Hex{p[0], p[1], p[2], p[3], p[4], p[5], p[10], p[11]}
}

// sureAck tells that the unit acknowledged a set in time, with nothing that could disturb.
func sureAck(e fu.Exch) bool { return e.R.Prompt() && !e.Dirty && !e.IsGet }

// sureRead is the same for reads.
func sureRead(e fu.Exch) bool {
	_, bad := fu.Text(e.Cmd, e.Answer)
	return e.R.Prompt() && !e.Dirty && e.IsGet && !bad
}

// judgeSetter checks one finished setter call (nothing else but background
// refreshes was going on, and the fans follow the speed at once).
func (s *srv) judgeSetter(c rec, before fu.State) {
	o := s.o
	if c.R.Bad != "" {
		return
	}
	sp := setters[c.Method]
	ex := s.exchanges()
	in := ex[c.LogS:c.LogE]
	var sets, tries []fu.Exch // set requests received, and those that could not be written
	to := c.E
	for _, e := range in {
		if e.R.Kind == "werr" {
			if e.WCmd == fu.CSpeed || e.WCmd == fu.CSetProf || e.WCmd == fu.CSetTemp {
				tries = append(tries, e)
			}
		} else if !e.IsGet {
			sets = append(sets, e)
			to = min(to, e.T-1)
		}
	}
	vals, open := held(ex, sp.cache, c.S, to)
	if open || len(vals) == 0 {
		return
	}
	var firstErr string
	for _, v := range vals {
		p := sp.plan(v, c.Args)
		follows := true
		if c.Method == "SetFanSpeed" && p.tgt >= 1 && p.tgt <= 4 {
			m, cached := int(p.tgt)-1, fu.State{Prof: v}
			follows = cached.In(m) == before.In(m) && cached.Out(m) == before.Out(m)
		}
		if e := s.matches(c, sp, p, in, sets, tries, follows); e == "" {
			return
		} else if firstErr == "" {
			firstErr = e
		}
	}
	o.Failf("%v with %s cached: %s", c, sp.cacheText(vals[0]), firstErr)
}

func (sp setterSpec) cacheText(v []byte) string { t, _ := rpcText(sp.cache, v); return t }

// matches compares a call with its plan.
func (s *srv) matches(c rec, sp setterSpec, p plan, in, sets, tries []fu.Exch, follows bool) string {
	num := func(k string) int64 { v, _ := strconv.ParseInt(c.R.F[k], 10, 64); return v }
	if p.refuse {
		if c.R.OK {
			return "must be refused"
		}
		if p.invalid && c.R.Code != "invalid_argument" {
			return "must be refused as an invalid argument"
		}
		if len(sets)+len(tries) > 0 {
			return fmt.Sprintf("must be refused, but a request was sent: %v", sets)
		}
		s.o.Label("refused")
		return ""
	}
	if p.cmd == 0 {
		if len(sets)+len(tries) > 0 {
			return fmt.Sprintf("changes nothing, but a request was sent: %v", sets)
		}
		if !c.R.OK {
			return "must succeed"
		}
		if c.R.F["Modified"] != "false" || (!p.origOpen && num(sp.orig) != p.orig) || num(sp.tgt) != p.tgt {
			return fmt.Sprintf("must be unmodified, original %d, target %d", p.orig, p.tgt)
		}
		s.o.Label("unmodified")
		return ""
	}
	if len(sets)+len(tries) > 1 {
		return fmt.Sprintf("one request is enough, sent: %v", sets)
	}
	if sp.readsFirst { // the profiles are read before they are written
		var read *fu.Exch
		for i := range in {
			if in[i].Cmd == fu.CProf && in[i].IsGet {
				read = &in[i]
				break
			}
			if !in[i].IsGet && in[i].R.Kind != "werr" {
				break
			}
		}
		if read == nil || !sureRead(*read) {
			if read != nil {
				if _, ok, op := readOK(*read); ok || op {
					return "" // cannot be told what it made of it
				}
			}
			if len(sets) > 0 {
				return "the profiles were written although they were not read"
			}
			if c.R.OK {
				return "must fail, the profiles could not be read"
			}
			s.o.Label("read failed")
			return ""
		}
		p.data = profData(read.Answer, int(c.Args["Mode"])-1, byte(p.tgt))
	}
	if len(tries) == 1 {
		if c.R.OK {
			return "must fail, the request could not be written"
		}
		s.o.Label("write failed")
		return ""
	}
	if len(sets) == 0 {
		return fmt.Sprintf("must send %#02x %v", p.cmd, p.data)
	}
	e := sets[0]
	if e.Dirty {
		return ""
	}
	if e.Cmd != p.cmd || !bytes.Equal(e.Data, p.data) {
		return fmt.Sprintf("must send %#02x %x, sent %#02x %x", p.cmd, []byte(p.data), e.Cmd, []byte(e.Data))
	}
	if !setOK(e) {
		if c.R.OK {
			return "must fail, the unit did not acknowledge"
		}
		s.o.Label("not acknowledged")
		return ""
	}
	if !c.R.OK {
		if sureAck(e) && follows {
			return "must succeed, the unit acknowledged"
		}
		return ""
	}
	if c.R.F["Modified"] != "true" || (!p.origOpen && num(sp.orig) != p.orig) || num(sp.tgt) != p.tgt {
		return fmt.Sprintf("must be modified, original %d, target %d", p.orig, p.tgt)
	}
	s.o.Label("modified")
	return ""
}

type setStep struct {
	K    string           `json:"k"` // call set script flush wait mode
	M    string           `json:"m,omitempty"`
	A    map[string]int64 `json:"a,omitempty"`
	Cat  byte             `json:"c,omitempty"`
	Data fu.Hex           `json:"d,omitempty"`
	R    []fu.Reply       `json:"r,omitempty"`
	Ms   int              `json:"ms,omitempty"`
	Arg  int64            `json:"arg,omitempty"`
	J    bool             `json:"j,omitempty"`
}

type setCase struct {
	Unit fu.State  `json:"unit"`
	S    []setStep `json:"s"`
}

// unchanged compares the unit's state before and after a call outside of what the call is for.
func unchanged(before, after fu.State, c rec) string {
	a, b := before.Clone(), after.Clone()
	switch c.Method {
	case "SetFanSpeed":
		for _, i := range []int{6, 7, 8} {
			a.Prof[i], b.Prof[i] = 0, 0
		}
		a.Fans, b.Fans = nil, nil
	case "SetComfortTemp":
		a.Temps[0], b.Temps[0] = 0, 0
	case "SetFanProfile":
		if m := c.Args["Mode"]; m >= 1 && m <= 4 {
			a.SetInOut(int(m-1), 0, 0)
			b.SetInOut(int(m-1), 0, 0)
		}
	}
	if !a.Equal(b) {
		return fmt.Sprintf("%v changed more than it should: profiles %x became %x, temperatures %x became %x", c, []byte(before.Prof), []byte(after.Prof), []byte(before.Temps), []byte(after.Temps))
	}
	return ""
}

func runSetters(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[setCase](raw)
	s := newServer(c.Unit, &o)
	s.boot()
	snap := func() (st fu.State) {
		s.l.With(func() { st = s.l.Unit.State.Clone() })
		return
	}
	for _, st := range c.S {
		switch st.K {
		case "set":
			s.l.With(func() { *s.l.Unit.Field(st.Cat) = append(fu.Hex(nil), st.Data...) })
		case "mode": // somebody changes the speed on the unit itself
			s.l.With(func() { s.l.Unit.Prof[8] = st.Data[0] })
		case "script":
			s.script(st.Cat, st.R...)
		case "wait":
			s.nap(ms(st.Ms))
		case "flush":
			f := s.call("FlushCache", map[string]int64{"Cache": st.Arg}, encOf(st.J))
			if !f.R.OK {
				o.Failf("%v", f)
			}
		case "call":
			o.Evals++
			s.nap(0)
			before := snap()
			f := s.call(st.M, st.A, encOf(st.J))
			after := snap()
			if st.M == "SetFanProfile" { // the profiles it reads at first are not kept
				s.l.With(func() {
					for _, e := range s.l.Log[f.LogS:f.LogE] {
						if e.R.Kind != "werr" && !e.IsGet {
							break
						}
						if e.Cmd == fu.CProf {
							e.Direct = true
							break
						}
					}
				})
			}
			s.judgeSetter(f, before)
			if ex := s.exchanges(); f.LogS == f.LogE || !ex[f.LogS].Dirty {
				o.Failf2(unchanged(before, after, f))
			}
			sp := setters[st.M]
			// What the getter shows when the call returns.
			g := s.get(sp.cache, encOf(st.J))
			if f.R.OK && f.R.F["Modified"] == "true" && g.R.OK {
				ex := s.exchanges()
				var last *fu.Exch
				sent := false
				for i := f.LogS; i < f.LogE; i++ {
					e := &ex[i]
					if e.R.Kind == "werr" && e.WCmd == sp.cache {
						last = e
					}
					if e.R.Kind != "werr" && !e.IsGet {
						sent, last = true, nil
					}
					if e.R.Kind != "werr" && e.Cmd == sp.cache && sent {
						last = e
					}
				}
				closed := last == nil || sureRead(*last)
				if closed {
					w, _ := rpcText(sp.cache, *after.Field(sp.cache))
					if g.R.Text() != w {
						o.Failf("after %v, %s returned %q, the unit holds %q", f, g.Method, g.R.Text(), w)
					}
					show := map[string]string{}
					switch st.M {
					case "SetFanSpeed":
						show["CurrentMode"] = fmt.Sprint(f.R.F["TargetSpeed"])
					case "SetComfortTemp":
						show["Comfort"] = fmt.Sprint(st.A["ComfortTemp"])
					case "SetFanProfile":
						if m := st.A["Mode"]; m < 1 || m > 4 {
							o.Failf("%v was not refused", f)
							return
						}
						n := []string{"Away", "Low", "Mid", "High"}[st.A["Mode"]-1]
						show["In"+n], show["Out"+n] = fmt.Sprint(st.A["TargetSpeed"]), fmt.Sprint(st.A["TargetSpeed"])
					}
					for k, v := range show {
						if g.R.F[k] != v {
							o.Failf("after %v, %s returned %s=%s", f, g.Method, k, g.R.F[k])
						}
					}
				} else {
					o.Label("closing read failed")
				}
			}
			s.l.With(func() { s.next = map[byte][]fu.Reply{} })
			s.settle()
			s.calm()
			for _, l := range []string{"modified", "refused", "not acknowledged", "write failed", "read failed", "closing read failed"} {
				for _, x := range o.Labels {
					if x == l {
						o.NonTrivial = true
					}
				}
			}
		}
	}
	s.finish()
	return
}

// gU32 draws a 32-bit value near the given interesting ones, or an alias of one modulo 2^8, 2^16, ...
func gU32(t *rapid.T, l string, lo, hi int64) int64 {
	switch rapid.IntRange(0, 7).Draw(t, l+"kind") {
	case 0: // around the bounds
		v := rapid.SampledFrom([]int64{lo - 2, lo - 1, lo, hi, hi + 1, hi + 2, 255, 256, 127, 128}).Draw(t, l+"b")
		return max(0, v)
	case 1: // alias of a good value
		v := rapid.Int64Range(lo, hi).Draw(t, l+"v")
		m := rapid.SampledFrom([]int64{1 << 8, 1 << 9, 1 << 16, 1 << 24, 1 << 31, 1<<32 - 1<<8}).Draw(t, l+"m")
		return v + m
	case 2:
		return int64(rapid.Uint32().Draw(t, l+"any"))
	default:
		return rapid.Int64Range(lo, hi).Draw(t, l)
	}
}

// gSetReply draws how the unit answers a set: usually not well.
func gSetReply(t *rapid.T, l string) fu.Reply {
	switch rapid.IntRange(0, 5).Draw(t, l+"k") {
	case 0:
		return gOK(t, l)
	case 1:
		return fu.Reply{Kind: "silent", Apply: rapid.Bool().Draw(t, l+"apply")}
	case 2:
		return fu.Reply{Kind: "werr", N: rapid.IntRange(0, 9).Draw(t, l+"n")}
	case 3:
		return fu.Reply{Kind: "raw", B: fu.Hex{0x07, 0x0F}}
	case 4:
		return fu.Reply{Kind: "ok", Delay: 1300}
	}
	return gFault(t, l)
}

// gPct draws a percentage, preferring 15-100.
func gPct(t *rapid.T, l string) byte {
	if rapid.IntRange(0, 4).Draw(t, l+"odd") == 0 {
		return rapid.SampledFrom([]byte{0, 1, 7, 14, 101, 200, 255}).Draw(t, l+"o")
	}
	return rapid.ByteRange(15, 100).Draw(t, l)
}

// gUnitRange draws a unit with profiles in range.
func gUnitRange(t *rapid.T, l string) fu.State {
	u := gState(t, l)
	for m := 0; m < 4; m++ {
		u.SetInOut(m, gPct(t, l+"in"), gPct(t, l+"out"))
	}
	u.Prof[8] = gMode(t, l+"mode")
	return u
}

func gMode(t *rapid.T, l string) byte {
	if rapid.IntRange(0, 4).Draw(t, l+"odd") == 0 {
		return rapid.SampledFrom([]byte{0, 5, 6, 7, 200, 254, 255}).Draw(t, l+"o")
	}
	return rapid.ByteRange(1, 4).Draw(t, l)
}

func gSpeedArgs(t *rapid.T) map[string]int64 {
	a := map[string]int64{}
	if rapid.Bool().Draw(t, "abs?") {
		a["Abs"] = gU32(t, "abs", 1, 4)
	}
	if rapid.IntRange(0, 2).Draw(t, "rel?") == 0 {
		a["Rel"] = 1
	}
	return a
}

func gWait(t *rapid.T) setStep {
	return setStep{K: "wait", Ms: rapid.SampledFrom([]int{0, 3, 40, 900, 4900, 5100, 320000}).Draw(t, "ms")}
}

func gSetHistory(t *rapid.T, method string) any {
	c := setCase{Unit: gUnitRange(t, "u")}
	sp := setters[method]
	for i := rapid.IntRange(1, 8).Draw(t, "n"); i > 0; i-- {
		switch rapid.IntRange(0, 7).Draw(t, "pre") {
		case 0, 1: // the unit changes, and the service learns of it
			d := gField(t, "d", sp.cache)
			if sp.cache == fu.CProf {
				x := gUnitRange(t, "d2")
				d = x.Prof
			}
			c.S = append(c.S, setStep{K: "set", Cat: sp.cache, Data: d}, setStep{K: "flush", Arg: flushArg[sp.cache], J: rapid.Bool().Draw(t, "j")})
		case 2: // it changes unnoticed
			if method == "SetFanSpeed" {
				c.S = append(c.S, setStep{K: "mode", Data: fu.Hex{gMode(t, "um")}})
			} else {
				d := gField(t, "d", sp.cache)
				if sp.cache == fu.CProf {
					x := gUnitRange(t, "d2")
					d = x.Prof
				}
				c.S = append(c.S, setStep{K: "set", Cat: sp.cache, Data: d})
			}
		case 3, 4: // the set is answered badly
			c.S = append(c.S, setStep{K: "script", Cat: sp.set, R: []fu.Reply{gSetReply(t, "sr")}})
		case 5: // reads are
			var rs []fu.Reply
			for k := rapid.IntRange(1, 3).Draw(t, "nr"); k > 0; k-- {
				if rapid.Bool().Draw(t, "good") {
					rs = append(rs, gOK(t, "r"))
				} else {
					rs = append(rs, gReadFault(t, "r"))
				}
			}
			c.S = append(c.S, setStep{K: "script", Cat: sp.cache, R: rs})
		case 6:
			c.S = append(c.S, gWait(t))
		}
		st := setStep{K: "call", M: method, J: rapid.Bool().Draw(t, "j")}
		switch method {
		case "SetFanSpeed":
			st.A = gSpeedArgs(t)
		case "SetComfortTemp":
			st.A = map[string]int64{"ComfortTemp": gU32(t, "ct", 0, 107)}
		case "SetFanProfile":
			st.A = map[string]int64{"Mode": gU32(t, "m", 1, 4), "TargetSpeed": gU32(t, "ts", 15, 100)}
			if k := rapid.IntRange(0, 5).Draw(t, "one"); k == 0 {
				st.A["Mode"] = rapid.Int64Range(1, 4).Draw(t, "m2")
			} else if k == 1 {
				st.A["TargetSpeed"] = rapid.Int64Range(15, 100).Draw(t, "ts2")
			}
			if rapid.IntRange(0, 5).Draw(t, "same") == 0 && st.A["Mode"] >= 1 && st.A["Mode"] <= 4 {
				st.A["TargetSpeed"] = int64(c.Unit.In(int(st.A["Mode"] - 1)))
			}
		}
		if method == "SetComfortTemp" && rapid.IntRange(0, 5).Draw(t, "same") == 0 {
			st.A["ComfortTemp"] = int64(max(0, fu.Temp(c.Unit.Temps[0])))
		}
		c.S = append(c.S, st)
		if rapid.IntRange(0, 5).Draw(t, "again") == 0 {
			c.S = append(c.S, st)
		}
	}
	return c
}

// --- C18: convergence ---

type fanEvent struct {
	At  int  `json:"at"`
	In  byte `json:"in"`
	Out byte `json:"out"`
}

type c18Case struct {
	Unit          fu.State   `json:"unit"`
	Target        byte       `json:"t"`
	Phase         int        `json:"ph"` // ms waited before the call
	LagIn, LagOut int        `json:"-"`
	Lag           [2]int     `json:"lag"`
	Events        []fanEvent `json:"ev,omitempty"` // instead of following, the fans take these values
	Polls         []fu.Reply `json:"polls,omitempty"`
	Close         []fu.Reply `json:"close,omitempty"`
	J             bool       `json:"j,omitempty"`
}

func runC18(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c18Case](raw)
	s := newServer(c.Unit, &o)
	s.l.Unit.LagIn, s.l.Unit.LagOut = c.Lag[0], c.Lag[1]
	s.l.Unit.NoFollow = len(c.Events) > 0
	s.boot()
	s.nap(ms(c.Phase))
	s.l.With(func() {
		s.next[fu.CFans] = append([]fu.Reply(nil), c.Polls...)
		s.next[fu.CProf] = append([]fu.Reply(nil), c.Close...)
	})
	if len(c.Events) > 0 {
		go func() {
			t := 0
			for _, e := range c.Events {
				time.Sleep(ms(e.At-t) + 11*time.Microsecond)
				t = e.At
				s.l.With(func() { s.l.Unit.Fans[0], s.l.Unit.Fans[1] = e.In, e.Out })
			}
		}()
	}
	mode := c.Unit.Prof[8]
	wantIn, wantOut := c.Unit.In(int(c.Target)-1), c.Unit.Out(int(c.Target)-1)
	f := s.call("SetFanSpeed", map[string]int64{"Abs": int64(c.Target)}, encOf(c.J))
	if c.Target == mode {
		return
	}
	var gProf, gFans rec
	if f.R.OK {
		gProf = s.get(fu.CProf, encOf(c.J))
		gFans = s.get(fu.CFans, encOf(c.J))
	}
	// A background refresh reads temperatures and fans, in whatever order. See
	// whether one was under way in the end.
	s.nap(1400 * time.Millisecond)
	ex := s.exchanges()
	var temps []time.Duration
	for _, e := range ex {
		if e.Cmd == fu.CTemps || e.WCmd == fu.CTemps {
			temps = append(temps, e.T)
		}
	}
	background := func(t time.Duration) bool {
		for _, at := range temps {
			if max(t-at, at-t) < 1300*time.Millisecond {
				return true
			}
		}
		return false
	}
	var setAt time.Duration = -1
	type read struct {
		t                        time.Duration
		match, open, ambig, sure bool
	}
	var reads []read
	bg := 0
	closeTried, closeOK := false, false
	for i := f.LogS; i < f.LogE; i++ {
		e := ex[i]
		cmd := e.Cmd
		if e.R.Kind == "werr" {
			cmd = e.WCmd
		}
		switch {
		case cmd == fu.CSpeed && setAt < 0 && e.R.Kind != "werr" && setOK(e):
			setAt = e.T
		case cmd == fu.CFans && setAt >= 0:
			r := read{t: e.T, ambig: background(e.T), sure: sureRead(e)}
			if e.R.Kind != "werr" {
				p, ok, op := readOK(e)
				r.open = op
				r.match = ok && p[0] == wantIn && p[1] == wantOut
			}
			reads = append(reads, r)
		case cmd == fu.CProf && setAt >= 0:
			closeTried = true
			closeOK = sureRead(e)
		}
	}
	if setAt < 0 {
		o.Failf("%v sent no speed command that the unit acknowledged, although it answers", f)
		return
	}
	for _, at := range temps {
		if at > setAt-1300*time.Millisecond && (len(reads) == 0 || at < reads[len(reads)-1].t+1300*time.Millisecond) {
			bg++
		}
	}
	o.Evals = max(1, len(reads))
	maybe, certain := false, false
	for _, r := range reads {
		maybe = maybe || r.match || r.open
		certain = certain || r.match && !r.ambig && r.sure
	}
	show := func() string {
		var t []string
		for _, r := range reads {
			t = append(t, fmt.Sprintf("%v match=%v", r.t, r.match))
		}
		return fmt.Sprint(t)
	}
	switch {
	case f.R.OK && !maybe:
		o.Failf("%v succeeded although the unit never reported in %d out %d: %s", f, wantIn, wantOut, show())
	case !f.R.OK && certain:
		o.Failf("%v failed although the unit reported in %d out %d: %s", f, wantIn, wantOut, show())
	case !f.R.OK && len(reads) < 10:
		o.Failf("%v gave up after %d polls: %s", f, len(reads), show())
	case len(reads) > 10+bg:
		o.Failf("%v took %d polls: %s", f, len(reads), show())
	}
	for i := 1; i < len(reads); i++ {
		a, b := reads[i-1], reads[i]
		if a.sure && !a.ambig && !b.ambig && bg == 0 {
			if d := b.t - a.t; d < 300*time.Millisecond || d > 1000*time.Millisecond {
				o.Failf("%v: %v between two polls", f, d)
			}
		}
	}
	if f.R.OK {
		if !closeTried {
			o.Failf("%v did not read the profiles in the end", f)
		}
		g := gProf
		if closeOK && (g.R.F["CurrentMode"] != fmt.Sprint(c.Target)) {
			o.Failf("after %v, GetFanProfiles returned %v", f, g.R)
		}
		g = gFans
		if bg == 0 && len(reads) > 0 && reads[len(reads)-1].match && (g.R.F["InPercent"] != fmt.Sprint(wantIn) || g.R.F["OutPercent"] != fmt.Sprint(wantOut)) {
			o.Failf("after %v, GetFans returned %v", f, g.R)
		}
		o.Label(fmt.Sprintf("succeeded after %d polls", min(len(reads), 11)))
		o.NonTrivial = len(reads) > 1
	} else {
		o.Label("failed")
		o.NonTrivial = true
	}
	s.finish()
	return
}

func gC18(t *rapid.T) any {
	c := c18Case{Unit: gUnitRange(t, "u"), J: rapid.Bool().Draw(t, "j")}
	if rapid.IntRange(0, 3).Draw(t, "near") == 0 { // profiles that share percentages
		v := rapid.SliceOfN(rapid.ByteRange(15, 100), 2, 2).Draw(t, "v")
		for m := 0; m < 4; m++ {
			c.Unit.SetInOut(m, rapid.SampledFrom(v).Draw(t, "vi"), rapid.SampledFrom(v).Draw(t, "vo"))
		}
	}
	if m := c.Unit.Prof[8]; m >= 1 && m <= 4 && rapid.Bool().Draw(t, "running") {
		c.Unit.Fans[0], c.Unit.Fans[1] = c.Unit.In(int(m)-1), c.Unit.Out(int(m)-1)
	}
	c.Target = rapid.ByteRange(1, 4).Draw(t, "t")
	if c.Target == c.Unit.Prof[8] {
		c.Target = c.Target%4 + 1
	}
	c.Phase = rapid.SampledFrom([]int{0, 10, 1000, 2500, 4000, 4990}).Draw(t, "ph")
	lag := func(l string) int { return rapid.SampledFrom([]int{0, 0, 1, 2, 4, 7, 8, 9, 10, 11, 12, 30}).Draw(t, l) }
	c.Lag = [2]int{lag("li"), lag("lo")}
	if rapid.IntRange(0, 3).Draw(t, "same") == 0 {
		c.Lag[1] = c.Lag[0]
	}
	if rapid.IntRange(0, 2).Draw(t, "ev") == 0 {
		in, out := c.Unit.In(int(c.Target)-1), c.Unit.Out(int(c.Target)-1)
		at := 0
		for k := rapid.IntRange(1, 5).Draw(t, "nev"); k > 0; k-- {
			at += rapid.SampledFrom([]int{3, 200, 500, 510, 1000, 2200}).Draw(t, "at")
			e := fanEvent{At: at, In: in, Out: out}
			switch rapid.IntRange(0, 4).Draw(t, "how") {
			case 0:
				e.In++
			case 1:
				e.Out--
			case 2:
				e.In, e.Out = out, in
			case 3:
				e.In, e.Out = rapid.Byte().Draw(t, "ei"), rapid.Byte().Draw(t, "eo")
			}
			c.Events = append(c.Events, e)
		}
	}
	if rapid.Bool().Draw(t, "faults") {
		for k := rapid.IntRange(1, 12).Draw(t, "np"); k > 0; k-- {
			switch rapid.IntRange(0, 5).Draw(t, "pf") {
			case 0:
				c.Polls = append(c.Polls, gReadFault(t, "p"))
			case 1:
				c.Polls = append(c.Polls, fu.Reply{Kind: "silent"})
			default:
				c.Polls = append(c.Polls, fu.Reply{Kind: "ok", Delay: 4})
			}
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "close") == 0 {
		c.Close = []fu.Reply{gReadFault(t, "cr")}
	}
	return c
}

// --- C21: linearizability ---

type c21Call struct {
	M string           `json:"m"`
	A map[string]int64 `json:"a,omitempty"`
	J bool             `json:"j,omitempty"`
}

type c21Case struct {
	Unit   fu.State    `json:"unit"`
	G      [][]c21Call `json:"g"`
	At     []int       `json:"at"`
	Delays []int       `json:"d"`
	Lag    int         `json:"lag"`
	Phase  int         `json:"ph"`
}

// seqState is what the setters depend on: profiles and comfort temperature.
type seqState struct {
	prof  [14]byte
	temps byte
}

// step executes a call in the sequential model and gives the reply's text.
func (s *seqState) step(c c21Call) string {
	sp := setters[c.M]
	var p plan
	if sp.cache == fu.CTemps {
		p = sp.plan([]byte{s.temps}, c.A)
	} else {
		p = sp.plan(s.prof[:], c.A)
	}
	if p.refuse {
		return "error"
	}
	if p.cmd != 0 {
		st := fu.State{Prof: s.prof[:]}
		switch c.M {
		case "SetFanSpeed":
			m := int(p.tgt) - 1
			s.prof[6], s.prof[7], s.prof[8] = st.Out(m), st.In(m), byte(p.tgt)
		case "SetComfortTemp":
			s.temps = p.data[0]
		case "SetFanProfile":
			st.SetInOut(int(c.A["Mode"])-1, byte(p.tgt), byte(p.tgt))
		}
	}
	orig := fmt.Sprint(p.orig)
	if p.origOpen {
		orig = "*"
	}
	return fmt.Sprintf("%v %s %d", p.cmd != 0, orig, p.tgt)
}

func runC21(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c21Case](raw)
	s := newServer(c.Unit, &o)
	s.l.Unit.LagIn, s.l.Unit.LagOut = c.Lag, c.Lag
	s.boot()
	s.nap(ms(c.Phase))
	n := 0
	s.l.With(func() {
		s.l.Pick = func(r fu.Req, _ int) fu.Reply {
			n++
			return fu.Reply{Kind: "ok", Delay: c.Delays[n%len(c.Delays)]}
		}
	})
	type done struct {
		call c21Call
		rec  rec
	}
	var mu sync.Mutex
	var all []done
	var wg sync.WaitGroup
	for i, g := range c.G {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.nap(ms(c.At[i]))
			for _, cl := range g {
				r := s.call(cl.M, cl.A, encOf(cl.J))
				mu.Lock()
				all = append(all, done{cl, r})
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	var st fu.State
	s.l.With(func() { st = s.l.Unit.State.Clone() })
	var calls []done
	overlap := false
	for _, d := range all {
		if setters[d.call.M].plan == nil {
			if !d.rec.R.OK || (d.call.M == "FlushCache" && d.rec.R.F["Success"] != "true") {
				o.Failf("%v although the unit answers everything", d.rec)
			}
			continue
		}
		for _, x := range calls {
			if x.rec.S < d.rec.E && d.rec.S < x.rec.E {
				overlap = true
			}
		}
		calls = append(calls, d)
	}
	text := func(d done) string {
		if !d.rec.R.OK {
			return "error"
		}
		sp := setters[d.call.M]
		return fmt.Sprintf("%s %s %s", d.rec.R.F["Modified"], d.rec.R.F[sp.orig], d.rec.R.F[sp.tgt])
	}
	same := func(want string, d done) bool {
		got := text(d)
		if want == got {
			return true
		}
		var m, a, b, m2, a2, b2 string
		fmt.Sscan(want, &m, &a, &b)
		fmt.Sscan(got, &m2, &a2, &b2)
		return a == "*" && m == m2 && b == b2
	}
	init := seqState{temps: c.Unit.Temps[0]}
	copy(init.prof[:], c.Unit.Prof)
	used := make([]bool, len(calls))
	type key struct {
		mask int
		s    seqState
	}
	dead := map[key]bool{}
	var search func(cur seqState, left, mask int) bool
	search = func(cur seqState, left, mask int) bool {
		if left == 0 {
			return bytes.Equal(cur.prof[:], st.Prof) && cur.temps == st.Temps[0]
		}
		k := key{mask, cur}
		if dead[k] {
			return false
		}
		for i := range calls {
			if used[i] {
				continue
			}
			first := true // nobody else must come before
			for j := range calls {
				if !used[j] && j != i && calls[j].rec.E < calls[i].rec.S {
					first = false
				}
			}
			if !first {
				continue
			}
			next := cur
			if w := next.step(calls[i].call); !same(w, calls[i]) {
				continue
			}
			used[i] = true
			if search(next, left-1, mask|1<<i) {
				return true
			}
			used[i] = false
		}
		dead[k] = true
		return false
	}
	o.Evals = len(calls)
	if o.Violation == "" && !search(init, len(calls), 0) {
		var t []string
		for _, d := range calls {
			t = append(t, d.rec.String())
		}
		o.Failf("no order of the calls explains their replies and the unit's final profiles %x and comfort temperature %d; in the beginning %x and %d; calls %q",
			[]byte(st.Prof), fu.Temp(st.Temps[0]), []byte(c.Unit.Prof), fu.Temp(c.Unit.Temps[0]), t)
	}
	for _, cat := range categories {
		s.get(cat, "pb")
	}
	if overlap {
		o.NonTrivial = true
		o.Label("overlapping setters")
	}
	s.finish()
	return
}

func gC21(t *rapid.T) any {
	c := c21Case{Unit: gUnitRange(t, "u")}
	c.Lag = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "lag")
	c.Phase = rapid.SampledFrom([]int{0, 3000, 4500, 4990}).Draw(t, "ph")
	for i := rapid.IntRange(1, 4).Draw(t, "nd"); i > 0; i-- {
		c.Delays = append(c.Delays, rapid.SampledFrom([]int{0, 1, 4, 20, 110, 300}).Draw(t, "d"))
	}
	focus := rapid.IntRange(0, 3).Draw(t, "focus")
	budget := 7
	for i := rapid.IntRange(2, 5).Draw(t, "g"); i > 0; i-- {
		c.At = append(c.At, rapid.SampledFrom([]int{0, 0, 0, 1, 7, 60, 600}).Draw(t, "at"))
		var g []c21Call
		for k := rapid.IntRange(1, 3).Draw(t, "k"); k > 0; k-- {
			cl := c21Call{J: rapid.Bool().Draw(t, "j")}
			x := focus
			if rapid.IntRange(0, 2).Draw(t, "mix") == 0 {
				x = rapid.IntRange(0, 5).Draw(t, "m")
			}
			if x <= 3 {
				if budget == 0 {
					x = 4
				} else {
					budget--
				}
			}
			switch x {
			case 0:
				cl.M, cl.A = "SetFanSpeed", map[string]int64{}
				switch rapid.IntRange(0, 2).Draw(t, "sp") {
				case 0:
					cl.A["Rel"] = 1
				case 1:
					cl.A["Abs"] = rapid.Int64Range(1, 5).Draw(t, "abs")
				}
			case 1:
				cl.M, cl.A = "SetComfortTemp", map[string]int64{"ComfortTemp": rapid.SampledFrom([]int64{18, 19, 20, 21, 108}).Draw(t, "ct")}
			case 2, 3:
				cl.M, cl.A = "SetFanProfile", map[string]int64{"Mode": rapid.Int64Range(1, 4).Draw(t, "m1"), "TargetSpeed": rapid.SampledFrom([]int64{15, 40, 41, 100}).Draw(t, "ts")}
			case 4:
				cl.M, cl.A = "FlushCache", map[string]int64{"Cache": rapid.SampledFrom([]int64{0, 1, 2, 3, 4, 10}).Draw(t, "fa")}
			default:
				cl.M = getterOf[gCat(t, "get")]
			}
			g = append(g, cl)
		}
		c.G = append(c.G, g)
	}
	return c
}

// --- C24: data races and mixtures ---

type c24Call struct {
	M   string           `json:"m"`
	A   map[string]int64 `json:"a,omitempty"`
	Lib *LibOp           `json:"lib,omitempty"`
	J   bool             `json:"j,omitempty"`
	Ms  int              `json:"ms,omitempty"`

	// Own: on a cache object, M being "Update" or "UpdateCaches", A "cat" and "force".
	Own    bool `json:"own,omitempty"`
	Direct bool `json:"x,omitempty"` // without HTTP
	Late   bool `json:"l,omitempty"` // the reply is looked at in the end
}

type c24Case struct {
	Unit  fu.State    `json:"unit"`
	Stamp bool        `json:"stamp"` // every answer to a read is a different one
	G     [][]c24Call `json:"g"`
	R     []fu.Reply  `json:"r"`
}

func runC24(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c24Case](raw)
	s := newServer(c.Unit, &o)
	v := 0
	n := 0
	s.l.Pick = func(r fu.Req, _ int) fu.Reply {
		v++
		if f := s.l.Unit.Field(r.Cmd); c.Stamp && f != nil {
			for i := range *f {
				(*f)[i] = byte(40 + v%80)
			}
		}
		if len(c.R) == 0 {
			return fu.Reply{Kind: "ok", Delay: 1}
		}
		n++
		return c.R[n%len(c.R)]
	}
	s.boot()
	var wg sync.WaitGroup
	type got struct {
		cat byte
		r   rec
	}
	// Nothing here synchronises the callers with each other or with the line, which
	// would hide a lack of synchronisation in the code under test.
	gots := make([][]got, len(c.G))
	own := map[byte]*copyOf{}
	for _, cat := range categories {
		own[cat] = newCopy(cat)
	}
	for i, g := range c.G {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var out []got
			var late []func()
			for _, cl := range g {
				if cl.Ms > 0 {
					s.nap(ms(cl.Ms))
				}
				r := rec{Method: cl.M, Args: cl.A}
				switch {
				case cl.Lib != nil:
					cl.Lib.Do(s.l)
					continue
				case cl.Own && cl.M == "UpdateCaches":
					comfoserver.UpdateCaches(cl.A["force"] == 1)
					continue
				case cl.Own:
					cat := byte(cl.A["cat"])
					own[cat].upd(cl.A["force"] == 1)
					own[cat].last()
					r.Method = getterOf[cat]
					r.R = directResp(r.Method, own[cat].pb())
					out = append(out, got{cat, r})
				case cl.Direct:
					m, err := callDirect(cl.M, cl.A)
					if err != nil {
						continue
					}
					out = append(out, got{catOf(cl.M), r})
					g := &out[len(out)-1]
					if !cl.Late {
						g.r.R = directResp(cl.M, m)
						continue
					}
					n := len(out) - 1
					late = append(late, func() { out[n].r.R = directResp(cl.M, m) })
				default:
					r.R = callHandler(s.h, cl.M, cl.A, encOf(cl.J))
					out = append(out, got{catOf(cl.M), r})
				}
			}
			for _, f := range late {
				f()
			}
			gots[i] = out
		}()
	}
	wg.Wait()
	ex := s.exchanges()
	for _, g := range slices.Concat(gots...) {
		o.Evals++
		if g.r.R.Bad != "" {
			o.Failf("%s(%s): %s", g.r.Method, argText(g.r.Args), g.r.R.Bad)
		}
		if g.cat == 0 {
			continue
		}
		// Library calls of this process read too, but do not fill the cache:
		// any answer ever sent will do, a mixture of two will not.
		ok := false
		for _, e := range ex {
			if e.Cmd == g.cat && e.IsGet {
				if t, bad := rpcText(g.cat, e.Answer); !bad && t == g.r.R.Text() {
					ok = true
				}
			}
		}
		if !ok && g.r.R.OK {
			zero := true
			for k, v := range g.r.R.F {
				zero = zero && (v == "0" || v == "false" || v == `""`)
				_ = k
			}
			if !zero {
				o.Failf("%v, which the unit never reported", g.r)
			}
		}
	}
	o.NonTrivial = len(c.G) > 1
	s.finish()
	return
}

// runC09Service: calls of the service, its refreshes and library calls share one line.
func runC09Service(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c24Case](raw)
	s := newServer(c.Unit, &o)
	s.boot()
	n, faults := 0, false
	for _, r := range c.R {
		faults = faults || !r.Prompt()
	}
	s.l.With(func() {
		s.l.Pick = func(r fu.Req, _ int) fu.Reply {
			n++
			if n <= len(c.R) {
				return c.R[n-1]
			}
			return fu.Reply{Kind: "ok", Delay: 2}
		}
	})
	own := map[byte]*copyOf{}
	for _, cat := range categories {
		own[cat] = newCopy(cat)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	fail := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		o.Failf(f, a...)
	}
	type span struct {
		g    int
		s, e time.Duration
	}
	var spans []span
	for i, g := range c.G {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, cl := range g {
				s.nap(ms(cl.Ms))
				st := s.l.Now()
				if cl.Lib != nil {
					text, err := cl.Lib.Do(s.l)
					if cl.Lib.Refused() != (err != nil) && (!faults || cl.Lib.Refused()) {
						fail("%v ended with %s although the unit answered every request", *cl.Lib, errStr(err))
					}
					if err == nil && cl.Lib.IsRead() {
						ok := false
						s.l.With(func() {
							for _, e := range s.l.Log {
								if e.Cmd == opCmd[cl.Lib.Op] && e.T >= st {
									if w, bad := fu.Text(e.Cmd, e.Answer); !bad && w == text {
										ok = true
									}
								}
							}
						})
						if !ok {
							fail("%v returned %s, which was not an answer to it", *cl.Lib, text)
						}
					}
				} else if cl.Own {
					var err error
					if cl.M == "UpdateCaches" {
						err = comfoserver.UpdateCaches(cl.A["force"] == 1)
					} else {
						err = own[byte(cl.A["cat"])].upd(cl.A["force"] == 1)
					}
					if err != nil && !faults {
						fail("%s(%s) ended with %v although the unit answered every request", cl.M, argText(cl.A), err)
					}
				} else {
					r := callHandler(s.h, cl.M, cl.A, encOf(cl.J))
					if r.Bad != "" {
						fail("%s(%s): %s", cl.M, argText(cl.A), r.Bad)
					}
					if cl.M == "FlushCache" && r.OK && r.F["Success"] != "true" && !faults {
						fail("%s(%s) returned %v although the unit answered every request", cl.M, argText(cl.A), r)
					}
				}
				mu.Lock()
				o.Evals++
				spans = append(spans, span{i, st, s.l.Now()})
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for i, a := range spans {
		for _, b := range spans[:i] {
			o.NonTrivial = o.NonTrivial || a.g != b.g && a.s < b.e && b.s < a.e
		}
	}
	if faults {
		o.Label("with faults")
	}
	s.finish()
	return
}

func gC09Service(t *rapid.T) any {
	c := gC24(t).(c24Case)
	c.Stamp, c.R = false, nil
	bad := rapid.Bool().Draw(t, "faults")
	for i := rapid.IntRange(1, 40).Draw(t, "replies"); i > 0; i-- {
		if bad && rapid.IntRange(0, 5).Draw(t, "lost") == 0 {
			c.R = append(c.R, gLost(t, "r"))
		} else {
			c.R = append(c.R, gOK(t, "r"))
		}
	}
	for _, g := range c.G {
		for i := range g {
			g[i].Direct, g[i].Late = false, false
		}
	}
	return c
}

func gC24(t *rapid.T) any {
	c := c24Case{Unit: gUnitRange(t, "u"), Stamp: rapid.Bool().Draw(t, "stamp")}
	for k := rapid.IntRange(0, 3).Draw(t, "nr"); k > 0; k-- {
		if rapid.IntRange(0, 3).Draw(t, "bad") == 0 {
			c.R = append(c.R, fu.Reply{Kind: "silent"})
		} else {
			c.R = append(c.R, fu.Reply{Kind: "ok", Delay: rapid.SampledFrom([]int{0, 0, 1, 30}).Draw(t, "d")})
		}
	}
	for i := rapid.IntRange(2, 8).Draw(t, "g"); i > 0; i-- {
		var g []c24Call
		for k := rapid.IntRange(1, 8).Draw(t, "k"); k > 0; k-- {
			cl := c24Call{J: rapid.Bool().Draw(t, "j"), Ms: rapid.SampledFrom([]int{0, 0, 0, 1, 20, 500, 4995, 5000, 300000}).Draw(t, "ms")}
			switch rapid.IntRange(0, 9).Draw(t, "m") {
			case 8:
				cl.Own, cl.M, cl.A = true, "Update", map[string]int64{"cat": int64(gCat(t, "oc")), "force": rapid.Int64Range(0, 1).Draw(t, "of")}
			case 9:
				cl.Own, cl.M, cl.A = true, "UpdateCaches", map[string]int64{"force": rapid.Int64Range(0, 1).Draw(t, "of")}
			case 0:
				cl.M, cl.A = "SetFanSpeed", map[string]int64{"Abs": rapid.Int64Range(0, 4).Draw(t, "abs")}
			case 1:
				cl.M, cl.A = "SetComfortTemp", map[string]int64{"ComfortTemp": rapid.Int64Range(0, 110).Draw(t, "ct")}
			case 2:
				cl.M, cl.A = "SetFanProfile", map[string]int64{"Mode": rapid.Int64Range(1, 4).Draw(t, "m1"), "TargetSpeed": rapid.Int64Range(15, 100).Draw(t, "ts")}
			case 3:
				cl.M, cl.A = "FlushCache", map[string]int64{"Cache": rapid.SampledFrom([]int64{0, 1, 2, 3, 4, 10, 10}).Draw(t, "fa")}
			case 4:
				op := gAnyOp(t, "lib", false)
				cl.M, cl.Lib = "lib", &op
			default:
				cl.M = getterOf[gCat(t, "get")]
			}
			if cl.Own {
				// nothing else
			} else if cl.Lib == nil {
				cl.Direct = rapid.IntRange(0, 3).Draw(t, "direct") > 0
				cl.Late = cl.Direct && rapid.Bool().Draw(t, "late")
			}
			g = append(g, cl)
		}
		c.G = append(c.G, g)
	}
	return c
}

func init() {
	const hist = "histories of 1-16 calls, with both encodings, between which the unit changes (known to the service or not), the answers to the set and to reads are faulty, lost, late or correct, and up to 5 min pass. Oracle: a pure function of the cached reading (known from the line's log) and the arguments gives refusal, unmodified or the exact request; the reply, the requests on the line, the unit's state and the getter afterwards must agree with it. "
	core.Register(&core.Check{
		Prop: "C17", Name: "speed", Mode: core.Fake, Fresh: true, Quick: 4000, Thorough: 60000, VirtualLimit: 10 * time.Hour,
		Rule: hist + "Arguments: absolute 0, 1-4, bounds, aliases modulo 2^8 to 2^31, any 32-bit value; relative both ways; modes 0-4 and odd ones on the unit. Non-trivial: some call sent a request, was refused, or was not acknowledged",
		Run:  runSetters, Gen: func(t *rapid.T) any { return gSetHistory(t, "SetFanSpeed") },
	})
	core.Register(&core.Check{
		Prop: "C18", Name: "converge", Mode: core.Fake, Fresh: true, Quick: 4000, Thorough: 60000, VirtualLimit: 10 * time.Hour,
		Rule: "a speed change after which each fan follows after 0-30 polls, or takes scripted values (off by one, swapped, random, right for a while) at scripted times, with faulty or lost polls and closing read, at various phases of the background refresh. Oracle: over the fan reads the unit saw after its acknowledgement: success needs a match, a match needs success, failure needs ten polls, never more, about 0.5 s apart; getters afterwards. Non-trivial: more than one poll, or failure",
		Run:  runC18, Gen: gC18,
	})
	core.Register(&core.Check{
		Prop: "C19", Name: "comfort", Mode: core.Fake, Fresh: true, Quick: 4000, Thorough: 60000, VirtualLimit: 10 * time.Hour,
		Rule: hist + "Arguments: 0-107, bounds, aliases, any 32-bit value, the cached value itself; negative cached values included. Non-trivial as for C17",
		Run:  runSetters, Gen: func(t *rapid.T) any { return gSetHistory(t, "SetComfortTemp") },
	})
	core.Register(&core.Check{
		Prop: "C20", Name: "profile", Mode: core.Fake, Fresh: true, Quick: 4000, Thorough: 60000, VirtualLimit: 10 * time.Hour,
		Rule: hist + "Arguments: profiles 1-4 and 15-100 %, bounds, aliases, any 32-bit value, the cached value itself. Non-trivial as for C17",
		Run:  runSetters, Gen: func(t *rapid.T) any { return gSetHistory(t, "SetFanProfile") },
	})
	core.Register(&core.Check{
		Prop: "C21", Name: "linear", Mode: core.Fake, Fresh: true, Quick: 4000, Thorough: 60000, VirtualLimit: 10 * time.Hour,
		Rule: "2-5 concurrent callers with 1-3 calls each (at most 7 setters, plus getters and flushes), any answer delays up to 0.3 s, fans that follow after up to 3 polls, at various phases of the refresh; the unit answers everything. Oracle: exhaustive search for a sequential order, consistent with real time, that explains all replies and the unit's final state; hang detection in virtual time. Non-trivial: two setters overlapped",
		Run:  runC21, Gen: gC21,
	})
	core.Register(&core.Check{
		Prop: "C09", Name: "service", Mode: core.Fake, Fresh: true, Quick: 3000, Thorough: 60000, VirtualLimit: 10 * time.Hour,
		Rule: "2-8 concurrent goroutines with 1-8 RPC, library or cache object calls each on the service's line, waits that meet its refreshes; fragmented, slow, late, partial and missing answers. Oracle: the invariants of C09/library over the line's history; library reads return an answer of the unit to that command; without faults nothing fails. Non-trivial: calls overlap",
		Run:  runC09Service, Gen: gC09Service,
	})
	core.Register(&core.Check{
		Prop: "C24", Name: "races", Mode: core.Race, Fresh: true, Quick: 1000, Thorough: 30000, VirtualLimit: 10 * time.Hour,
		Rule: "2-8 concurrent goroutines with 1-8 RPC, library or cache object calls each, waits that meet the background refreshes, lost answers; in half of the cases every answer to a read carries a new stamp in all bytes. Oracle: Go's race detector; every getter's reply equals one answer of the unit. Non-trivial: all (at least two goroutines)",
		Run:  runC24, Gen: gC24,
	})
}
