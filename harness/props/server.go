package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"comfoverif/core"
	"comfoverif/fu"

	"github.com/ti-mo/comfo/comfoserver"
	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"pgregory.net/rapid"
)

// srv is the service under test, running on a line to the model unit. There is
// one per process, since the service's state is global: server checks use Fresh.
type srv struct {
	l       *fu.Line
	h       http.Handler
	next    map[byte][]fu.Reply // scripted replies by request command
	def     fu.Reply
	down    map[byte]fu.Reply // by request command, instead of def
	startup time.Duration // how long StartCaches took
	phase   time.Duration // of the fast refresh
	o       *core.Outcome
}

// newServer prepares the service; boot starts it.
func newServer(u fu.State, o *core.Outcome) *srv {
	s := &srv{l: fu.NewLine(fu.NewUnit(u)), next: map[byte][]fu.Reply{}, def: fu.Reply{Kind: "ok", Delay: 4}, o: o}
	s.l.Pick = s.pick
	s.h = rpc.NewComfoServer(&comfoserver.Server{}, nil)
	return s
}

// pick runs with the line's lock held.
func (s *srv) pick(r fu.Req, n int) fu.Reply {
	if q := s.next[r.Cmd]; len(q) > 0 {
		s.next[r.Cmd] = q[1:]
		return q[0]
	}
	if r, ok := s.down[r.Cmd]; ok {
		return r
	}
	return s.def
}

// script sets the replies to the next requests with a command.
func (s *srv) script(cmd byte, r ...fu.Reply) {
	s.l.With(func() { s.next[cmd] = r })
}

func (s *srv) boot() {
	t := s.l.Now()
	comfoserver.StartCaches(s.l)
	s.startup = s.l.Now() - t
}

// rec is one finished call.
type rec struct {
	Method string
	Args   map[string]int64
	R      rpcResp
	S, E   time.Duration
	// LogS and LogE are the numbers of requests the unit had seen.
	LogS, LogE int
}

func (c rec) String() string {
	return fmt.Sprintf("%s(%s) [%v-%v] -> %v", c.Method, argText(c.Args), c.S, c.E, c.R)
}

func argText(a map[string]int64) string {
	var s []string
	for k, v := range a {
		s = append(s, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// call executes an RPC and records it.
func (s *srv) call(method string, args map[string]int64, enc string) rec {
	c := rec{Method: method, Args: args, S: s.l.Now(), LogS: s.l.Requests()}
	c.R = callHandler(s.h, method, args, enc)
	c.E, c.LogE = s.l.Now(), s.l.Requests()
	if c.R.Bad != "" {
		s.o.Failf("%s(%s): %s", method, argText(args), c.R.Bad)
	}
	return c
}

// nap lets time pass, never by a multiple of a millisecond, so that nothing is
// due at the very instant the next step begins.
func (s *srv) nap(d time.Duration) { time.Sleep(d + 37*time.Microsecond) }

// exchanges copies the line's log.
func (s *srv) exchanges() (out []fu.Exch) {
	s.l.With(func() {
		for _, e := range s.l.Log {
			out = append(out, *e)
		}
	})
	return
}

// readOK tells whether an exchange was a successful read, as seen from the line:
// the unit sent a right answer and the service acknowledged it.
// open: it cannot be told.
func readOK(e fu.Exch) (payload []byte, ok, open bool) {
	if e.R.Kind == "werr" || !e.IsGet {
		return nil, false, false
	}
	if e.Dirty && e.Acks > 0 {
		return nil, false, true
	}
	p, must, fail := fu.Judge(e.Stream[:e.Sent], e.Cmd, true)
	if fail || e.Acks == 0 {
		return nil, false, false
	}
	if !must {
		return nil, false, true
	}
	if _, bad := fu.Text(e.Cmd, p); bad {
		return nil, false, false
	}
	return p, true, false
}

// setOK tells whether the unit acknowledged a set, and the service took it.
func setOK(e fu.Exch) bool {
	if e.R.Kind == "werr" || e.IsGet {
		return false
	}
	return e.Acks > 0 && bytes.HasPrefix(e.Stream[:e.Sent], fu.Ack)
}

// held lists the payloads the getter of a category may serve for a call during
// [from, to]: the last successful reading before, and those during the call.
// nil with open false: none yet.
func held(ex []fu.Exch, cmd byte, from, to time.Duration) (vals [][]byte, open bool) {
	for _, e := range ex {
		if e.Cmd != cmd || e.R.Kind == "werr" || e.T > to || e.Direct {
			continue
		}
		p, ok, op := readOK(e)
		if op {
			open = true
			continue
		}
		if !ok || e.AckAt > to {
			continue
		}
		if e.AckAt < from {
			vals, open = nil, false
		}
		vals = append(vals, p)
	}
	return
}

// wantGetter checks a getter's reply against the readings on record.
func (s *srv) wantGetter(ex []fu.Exch, cmd byte, c rec) {
	if !c.R.OK {
		if c.R.Bad == "" {
			s.o.Failf("%s failed: %v", c.Method, c.R)
		}
		return
	}
	vals, open := held(ex, cmd, c.S, c.E)
	if open {
		return
	}
	var texts []string
	for _, v := range vals {
		t, _ := rpcText(cmd, v)
		if t == c.R.Text() {
			return
		}
		texts = append(texts, t)
	}
	if len(vals) == 0 { // nothing read so far: all fields zero
		return
	}
	s.o.Failf("%s returned %q at %v, the last reading was %q", c.Method, c.R.Text(), c.S, strings.Join(texts, `" or "`))
}

// get calls a getter and checks it.
func (s *srv) get(cmd byte, enc string) rec {
	c := s.call(getterOf[cmd], nil, enc)
	s.wantGetter(s.exchanges(), cmd, c)
	return c
}

// reading is the last successful reading of a category (nil: none or unclear).
func (s *srv) reading(cmd byte) []byte {
	now := s.l.Now()
	v, open := held(s.exchanges(), cmd, now+1, now+1)
	if open || len(v) == 0 {
		return nil
	}
	return v[len(v)-1]
}

// during lists the exchanges with a command whose request was written in [from, to].
func during(ex []fu.Exch, c rec, cmds ...byte) (out []fu.Exch) {
	for i := c.LogS; i < c.LogE && i < len(ex); i++ {
		for _, cmd := range cmds {
			if ex[i].Cmd == cmd && ex[i].R.Kind != "werr" {
				out = append(out, ex[i])
			}
		}
	}
	return
}

// attempts is during, with failed writes (whose command is unknown) included.
func attempts(ex []fu.Exch, c rec) (out []fu.Exch) {
	if c.LogE > len(ex) {
		c.LogE = len(ex)
	}
	return ex[c.LogS:c.LogE]
}

func (s *srv) finish() {
	if p := s.l.Problems(); p != "" {
		s.o.Failf("%s", p)
	}
}

// settle waits until no exchange can be under way.
func (s *srv) settle() { s.nap(10 * time.Millisecond) }

// calm drops what is left on the line of badly answered requests, once no exchange is under way.
func (s *srv) calm() {
	for range 10 {
		busy := false
		s.l.With(func() {
			if n := len(s.l.Log); n > 0 {
				e := s.l.Log[n-1]
				busy = e.R.Kind != "werr" && e.Acks == 0 && (e.IsGet || e.DoneAt < 0) && s.l.Now()-e.T < 1100*time.Millisecond
			}
		})
		if !busy {
			s.l.Clear()
			s.settle()
			return
		}
		s.nap(ms(300))
	}
}

func encOf(j bool) string {
	if j {
		return "json"
	}
	return "pb"
}

// --- C14: fields ---

type c14Case struct {
	S []fu.State `json:"s"`
	J bool       `json:"j"`
}

func runC14(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c14Case](raw)
	s := newServer(c.S[0], &o)
	s.boot()
	for i, st := range c.S {
		if i > 0 {
			s.l.With(func() { s.l.Unit.State = st.Clone() })
			f := s.call("FlushCache", map[string]int64{"Cache": flushAll}, encOf(c.J))
			if !f.R.OK || f.R.F["Success"] != "true" {
				o.Failf("flush failed although the unit answered everything: %v", f)
			}
		}
		for _, cat := range categories {
			want, _ := rpcText(cat, *st.Field(cat))
			for _, enc := range []string{"pb", "json"} {
				o.Evals++
				if r := s.call(getterOf[cat], nil, enc); r.R.Text() != want {
					o.Failf("%s (%s) returned %q, the unit's answer %x means %q", getterOf[cat], enc, r.R, []byte(*st.Field(cat)), want)
				}
			}
		}
	}
	o.NonTrivial = true
	o.Distinct = len(c.S)
	s.finish()
	return
}

// --- C15: last good reading ---

type srvStep struct {
	K    string     `json:"k"` // set flush get wait outage
	Cat  byte       `json:"c,omitempty"`
	Arg  int64      `json:"arg,omitempty"`
	Data fu.Hex     `json:"d,omitempty"`
	R    []fu.Reply `json:"r,omitempty"`
	Ms   int        `json:"ms,omitempty"`
	J    bool       `json:"j,omitempty"`
}

type srvCase struct {
	Unit fu.State  `json:"unit"`
	S    []srvStep `json:"s"`
}

func runC15(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[srvCase](raw)
	s := newServer(c.Unit, &o)
	s.boot()
	begin := s.l.Now()
	flushes := map[byte]int{}
	gets := 0
	failedBefore := false
	for _, st := range c.S {
		switch st.K {
		case "set":
			s.l.With(func() { *s.l.Unit.Field(st.Cat) = append(fu.Hex(nil), st.Data...) })
		case "script":
			s.script(st.Cat, st.R...)
		case "flush":
			for _, cat := range flushCats(st.Arg) {
				flushes[cat]++
			}
			f := s.call("FlushCache", map[string]int64{"Cache": st.Arg}, encOf(st.J))
			if !f.R.OK {
				o.Failf("%v", f)
			} else if f.R.F["Success"] != "true" {
				failedBefore = true
			}
		case "wait":
			s.nap(ms(st.Ms))
		case "get":
			gets++
			o.Evals++
			s.get(st.Cat, encOf(st.J))
		case "burst": // many getters must not add traffic
			for i := 0; i < 30; i++ {
				gets++
				s.get(categories[i%6], encOf(st.J))
			}
		}
	}
	o.Failf2(paceProblem(s.exchanges(), begin, s.l.Now(), flushes))
	for _, cat := range categories {
		s.get(cat, "pb")
	}
	s.finish()
	if gets > 0 && failedBefore {
		o.NonTrivial = true
		o.Label("failed refresh before a getter")
	}
	return
}

var period = map[byte]time.Duration{fu.CTemps: 5 * time.Second, fu.CFans: 5 * time.Second, fu.CProf: 5 * time.Minute,
	fu.CBypass: 5 * time.Minute, fu.CBoot: time.Hour, fu.CErrs: time.Hour}

// paceProblem checks that no category is read more often than once per period
// after the start-up reads, beyond the reads asked for.
func paceProblem(ex []fu.Exch, begin, end time.Duration, extra map[byte]int) string {
	count := map[byte]int{}
	for _, e := range ex {
		if e.T > begin {
			count[e.Cmd]++
		}
	}
	for _, cat := range categories {
		lim := int((end-begin)/period[cat]) + 1 + extra[cat]
		if count[cat] > lim {
			return fmt.Sprintf("%s were read %d times in %v after start-up with %d reads asked for", catName[cat], count[cat], end-begin, extra[cat])
		}
	}
	for _, e := range ex {
		if !e.IsGet && e.R.Kind != "werr" {
			return fmt.Sprintf("a getter or refresh sent request %#02x", e.Cmd)
		}
	}
	if n := count[fu.CHours] + count[fu.CFirm]; n > 0 {
		return "hours or firmware information were requested although no category holds them"
	}
	return ""
}

func gCat(t *rapid.T, l string) byte { return rapid.SampledFrom(categories).Draw(t, l) }

// gReadFault draws a fault for a read reply that ends within its exchange.
func gReadFault(t *rapid.T, l string) fu.Reply {
	if rapid.IntRange(0, 2).Draw(t, l+"late") == 0 {
		return gLost(t, l)
	}
	return gFault(t, l)
}

func gC15(t *rapid.T) any {
	c := srvCase{Unit: gState(t, "u")}
	for i := rapid.IntRange(3, 25).Draw(t, "n"); i > 0; i-- {
		st := srvStep{K: rapid.SampledFrom([]string{"set", "set", "script", "script", "flush", "flush", "get", "get", "wait", "burst", "burst", "outage"}).Draw(t, "k"), J: rapid.Bool().Draw(t, "j")}
		switch st.K {
		case "set":
			st.Cat = gCat(t, "c")
			st.Data = gField(t, "d", st.Cat)
		case "script":
			st.Cat = gCat(t, "c")
			for k := rapid.IntRange(1, 3).Draw(t, "nr"); k > 0; k-- {
				if rapid.IntRange(0, 3).Draw(t, "good") == 0 {
					st.R = append(st.R, gOK(t, "r"))
				} else {
					st.R = append(st.R, gReadFault(t, "r"))
				}
			}
		case "flush":
			st.Arg = rapid.SampledFrom([]int64{0, 1, 2, 3, 4, 10, 10, 5, 11}).Draw(t, "a")
		case "get":
			st.Cat = gCat(t, "c")
		case "wait":
			st.Ms = rapid.SampledFrom([]int{1, 30, 700, 2500, 5000, 5001, 12000, 61000, 400000, 5000000}).Draw(t, "ms")
		case "outage": // a category fails for some periods, with getters in the meantime
			cat := gCat(t, "c")
			most := 20 // an hour takes hundreds of refreshes of the other categories
			switch {
			case period[cat] > time.Hour/2:
				most = 1
			case period[cat] > time.Minute:
				most = 3
			}
			n := rapid.IntRange(1, most).Draw(t, "periods")
			r := gReadFault(t, "r")
			st = srvStep{K: "script", Cat: cat}
			for range n {
				st.R = append(st.R, r)
			}
			gap := int(period[cat]/time.Millisecond) * rapid.IntRange(1, n).Draw(t, "wait")
			c.S = append(c.S, st, srvStep{K: "wait", Ms: gap}, srvStep{K: "burst"})
			st = srvStep{K: "burst", J: true}
		}
		c.S = append(c.S, st)
	}
	return c
}

// --- C16: flush ---

type c16Case struct {
	Unit  fu.State      `json:"unit"`
	S     []srvStep     `json:"s"`
	Conc  bool          `json:"conc,omitempty"`
	Flush []flushCaller `json:"f,omitempty"` // concurrent phase
	Bad   fu.Hex        `json:"bad,omitempty"`
	BadR  fu.Reply      `json:"badr,omitempty"`
}

type flushCaller struct {
	At   int     `json:"at"`
	Args []int64 `json:"a"`
	J    bool    `json:"j,omitempty"`
}

func runC16(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c16Case](raw)
	s := newServer(c.Unit, &o)
	s.boot()
	booted := s.l.Now()
	s.nap(11*time.Second + 300*time.Millisecond)
	// When does the background refresh run?
	var phase time.Duration = -1
	for _, e := range s.exchanges() {
		if e.T > booted && (e.Cmd == fu.CTemps || e.Cmd == fu.CFans) {
			phase = e.T % (5 * time.Second)
			break
		}
	}
	// background tells whether reads of temperatures and fans in [from, to] may be due to it.
	background := func(from, to time.Duration) bool {
		if phase < 0 {
			return false
		}
		from -= 2200 * time.Millisecond // the reads may take that long
		to += 50 * time.Millisecond
		k := (from - phase) / (5 * time.Second)
		for x := k - 1; x <= (to-phase)/(5*time.Second)+1; x++ {
			if t := phase + x*5*time.Second; t >= from && t <= to {
				return true
			}
		}
		return false
	}
	check := func(f rec, ex []fu.Exch, concurrent bool) {
		o.Evals++
		if !f.R.OK {
			o.Failf("%v", f)
			return
		}
		want := flushCats(f.Args["Cache"])
		all, open := true, false
		wanted := map[byte]bool{}
		for _, cat := range want {
			wanted[cat] = true
			var in []fu.Exch
			for _, e := range during(ex, f, cat) {
				in = append(in, e)
			}
			werr := false
			for _, e := range attempts(ex, f) {
				werr = werr || e.R.Kind == "werr"
			}
			if len(in) == 0 && !werr {
				o.Failf("%v did not read %s", f, catName[cat])
				return
			}
			if len(in) == 0 {
				all = false
				continue
			}
			if !concurrent {
				if len(in) > 1 && !((cat == fu.CTemps || cat == fu.CFans) && background(f.S, f.E)) {
					o.Failf("%v read %s %d times", f, catName[cat], len(in))
				}
				if len(in) > 1 {
					open = true
				}
			}
			okAny, okAll := false, true
			for _, e := range in {
				_, ok, op := readOK(e)
				open = open || op
				okAny, okAll = okAny || ok, okAll && ok
			}
			if okAny != okAll {
				open = true // several reads, cannot tell which one was for this flush
			}
			all = all && okAll
		}
		if !concurrent {
			for _, e := range attempts(ex, f) {
				if e.R.Kind == "werr" || wanted[e.Cmd] {
					continue
				}
				if (e.Cmd == fu.CTemps || e.Cmd == fu.CFans) && background(f.S, f.E) {
					continue
				}
				o.Failf("%v also sent request %#02x", f, e.Cmd)
			}
		}
		if len(want) == 0 {
			all = false
		}
		got := f.R.F["Success"] == "true"
		if open {
			return
		}
		if got && !all {
			o.Failf("%v reported success although not everything asked for was read", f)
		}
		if !got && all {
			o.Failf("%v reported failure although everything asked for was read", f)
		}
		if len(want) > 0 && !all {
			o.Label("failed flush")
			o.NonTrivial = true
		}
		if len(want) == 0 {
			o.Label("unknown category")
		}
	}
	for _, st := range c.S {
		switch st.K {
		case "set":
			s.l.With(func() { *s.l.Unit.Field(st.Cat) = append(fu.Hex(nil), st.Data...) })
		case "script":
			s.script(st.Cat, st.R...)
		case "wait":
			s.nap(ms(st.Ms))
		case "flush":
			cats := flushCats(st.Arg)
			var now []fu.Hex
			s.l.With(func() {
				for _, cat := range cats {
					now = append(now, append(fu.Hex(nil), *s.l.Unit.Field(cat)...))
				}
			})
			f := s.call("FlushCache", map[string]int64{"Cache": st.Arg}, encOf(st.J))
			check(f, s.exchanges(), false)
			for i, cat := range cats {
				g := s.get(cat, encOf(st.J))
				if want, bad := rpcText(cat, now[i]); f.R.OK && f.R.F["Success"] == "true" && !bad && g.R.Text() != want {
					open := false
					for _, e := range during(s.exchanges(), f, cat) {
						_, _, op := readOK(e)
						open = open || op
					}
					if !open {
						o.Failf("after a successful flush, %s returned %q, the unit holds %q", getterOf[cat], g.R.Text(), want)
					}
				}
			}
			s.script(st.Cat) // no leftovers of the script
			s.l.With(func() { s.next = map[byte][]fu.Reply{} })
			s.settle()
		}
	}
	if len(c.Flush) > 0 {
		s.settle()
		s.l.Clear()
		bad := map[byte]bool{}
		for _, b := range c.Bad {
			bad[b] = true
		}
		s.l.With(func() {
			s.l.Pick = func(r fu.Req, n int) fu.Reply {
				if bad[r.Cmd] {
					return c.BadR
				}
				return s.def
			}
		})
		recs := make([][]rec, len(c.Flush))
		var wg sync.WaitGroup
		for i, fc := range c.Flush {
			wg.Add(1)
			go func() {
				defer wg.Done()
				s.nap(ms(fc.At))
				for _, a := range fc.Args {
					recs[i] = append(recs[i], s.call("FlushCache", map[string]int64{"Cache": a}, encOf(fc.J)))
				}
			}()
		}
		wg.Wait()
		s.settle()
		ex := s.exchanges()
		n := 0
		for _, rs := range recs {
			for _, f := range rs {
				n++
				check(f, ex, true)
				ok := len(flushCats(f.Args["Cache"])) > 0
				for _, cat := range flushCats(f.Args["Cache"]) {
					ok = ok && !bad[cat]
				}
				dirty := false
				for _, e := range during(ex, f, categories...) {
					dirty = dirty || e.Dirty
				}
				if f.R.OK && !(ok && dirty) && (f.R.F["Success"] == "true") != ok {
					o.Failf("%v, but the unit answers all but %x", f, []byte(c.Bad))
				}
			}
		}
		if n > 1 {
			o.NonTrivial = true
			o.Label("concurrent flushes")
		}
	}
	s.finish()
	return
}

func gC16(t *rapid.T) any {
	c := c16Case{Unit: gState(t, "u")}
	arg := func(l string) int64 {
		if rapid.IntRange(0, 4).Draw(t, l+"odd") == 0 {
			return rapid.SampledFrom([]int64{5, 6, 9, 11, 100, 256, 266, -1, 2147483647, -2147483648}).Draw(t, l)
		}
		return rapid.SampledFrom([]int64{0, 1, 2, 3, 4, 10, 10}).Draw(t, l)
	}
	for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
		for k := rapid.IntRange(0, 3).Draw(t, "chg"); k > 0; k-- {
			st := srvStep{K: "set", Cat: gCat(t, "c")}
			st.Data = gField(t, "d", st.Cat)
			c.S = append(c.S, st)
		}
		for k := rapid.IntRange(0, 2).Draw(t, "bad"); k > 0; k-- {
			st := srvStep{K: "script", Cat: gCat(t, "c"), R: []fu.Reply{gReadFault(t, "r")}}
			c.S = append(c.S, st)
		}
		c.S = append(c.S, srvStep{K: "flush", Arg: arg("a"), J: rapid.Bool().Draw(t, "j")})
		if rapid.Bool().Draw(t, "w") {
			c.S = append(c.S, srvStep{K: "wait", Ms: rapid.SampledFrom([]int{1, 20, 900, 2300}).Draw(t, "ms")})
		}
	}
	if len(c.S) == 0 || rapid.Bool().Draw(t, "conc") {
		for i := rapid.IntRange(2, 5).Draw(t, "g"); i > 0; i-- {
			f := flushCaller{At: rapid.SampledFrom([]int{0, 0, 1, 3, 9, 40}).Draw(t, "at"), J: rapid.Bool().Draw(t, "fj")}
			for k := rapid.IntRange(1, 3).Draw(t, "k"); k > 0; k-- {
				f.Args = append(f.Args, arg("fa"))
			}
			c.Flush = append(c.Flush, f)
		}
		for k := rapid.IntRange(0, 2).Draw(t, "nb"); k > 0; k-- {
			c.Bad = append(c.Bad, gCat(t, "b"))
		}
		c.BadR = rapid.SampledFrom([]fu.Reply{{Kind: "silent"}, {Kind: "silent"}, {Kind: "raw", B: fu.Hex{0x41}}, {Kind: "noack"}, {Kind: "ok", Delay: 1400}}).Draw(t, "badr")
	}
	return c
}

// --- C22: background refresh ---

type c22Case struct {
	Unit fu.State  `json:"unit"`
	S    []srvStep `json:"s"` // set (at this time), get, wait, down, up
	// Down is how the unit fails during an outage.
	Down fu.Reply `json:"down"`
}

func runC22(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c22Case](raw)
	s := newServer(c.Unit, &o)
	s.boot()
	begin := s.l.Now()
	type span struct {
		v        string
		from, to time.Duration
	}
	hist := map[byte][]span{}
	const end = time.Duration(1<<62 - 1)
	for _, cat := range categories {
		v, _ := rpcText(cat, *c.Unit.Field(cat))
		hist[cat] = []span{{v, -1, end}}
	}
	type out struct{ from, to time.Duration }
	var outs []out
	catOuts := map[byte][]out{}
	failing := map[byte]int{} // categories to indices in catOuts
	s.down = map[byte]fu.Reply{}
	flushed := map[byte]bool{} // by clients
	isDown := false
	up := func() {
		if isDown {
			isDown = false
			outs[len(outs)-1].to = s.l.Now()
			s.l.With(func() { s.def = fu.Reply{Kind: "ok", Delay: 4} })
		}
	}
	for _, st := range c.S {
		now := s.l.Now()
		switch st.K {
		case "set":
			s.l.With(func() { *s.l.Unit.Field(st.Cat) = append(fu.Hex(nil), st.Data...) })
			h := hist[st.Cat]
			h[len(h)-1].to = now
			v, _ := rpcText(st.Cat, st.Data)
			hist[st.Cat] = append(h, span{v, now, end})
		case "down":
			if !isDown {
				isDown = true
				outs = append(outs, out{now, end})
				s.l.With(func() { s.def = c.Down })
			}
		case "up":
			up()
		case "fail": // a single category
			if _, ok := failing[st.Cat]; !ok {
				failing[st.Cat] = len(catOuts[st.Cat])
				catOuts[st.Cat] = append(catOuts[st.Cat], out{now, end})
				s.l.With(func() { s.down[st.Cat] = c.Down })
			}
		case "work":
			if i, ok := failing[st.Cat]; ok {
				delete(failing, st.Cat)
				catOuts[st.Cat][i].to = now
				s.l.With(func() { delete(s.down, st.Cat) })
			}
		case "gc":
			runtime.GC()
		case "wait":
			s.nap(ms(st.Ms))
		case "busy": // a client that flushes something again and again
			flushed[st.Cat] = true
			for range st.Arg {
				s.call("FlushCache", map[string]int64{"Cache": int64(flushArg[st.Cat])}, "pb")
				s.nap(ms(st.Ms))
			}
		case "get":
			g := s.call(getterOf[st.Cat], nil, encOf(st.J))
			o.Evals++
			const slack = 8 * time.Second // the worker may be busy with failing reads
			since := g.S - 2*period[st.Cat] - 100*time.Millisecond
			if len(catOuts) > 0 {
				since -= 1200 * time.Millisecond // the read before it takes its time to fail
			}
			disturbed := false
			for _, x := range append(append([]out(nil), outs...), catOuts[st.Cat]...) {
				if x.to+slack >= since && x.from <= g.E {
					disturbed = true
				}
			}
			if disturbed {
				since = -1
			}
			ok, fresh := false, false
			var allowed []string
			for _, h := range hist[st.Cat] {
				if h.to >= since && h.from <= g.E {
					allowed = append(allowed, h.v)
					if h.v == g.R.Text() {
						ok = true
					}
				}
				if h.from > 0 && h.from < since {
					fresh = true
				}
			}
			if !ok {
				o.Failf("%s returned %q at %v, the unit held %q since %v (two periods earlier)", g.Method, g.R.Text(), g.S, allowed, since)
			}
			if fresh && !disturbed {
				o.NonTrivial = true
				o.Label("change picked up: " + catName[st.Cat])
				if len(failing) > 0 {
					o.Label("while another category fails")
				}
				for _, x := range outs {
					if x.to < since {
						o.Label("resumed after an outage")
					}
				}
			}
		}
	}
	up()
	extra := map[byte]int{}
	for cat := range flushed {
		extra[cat] = 1 << 30
	}
	o.Failf2(paceProblem(s.exchanges(), begin, s.l.Now(), extra))
	// No burst after a pause either.
	ex := s.exchanges()
	for _, cat := range categories {
		var ts []time.Duration
		for _, e := range ex {
			if e.Cmd == cat && e.T > begin && !flushed[cat] {
				ts = append(ts, e.T)
			}
		}
		for i := 2; i < len(ts); i++ {
			if d := ts[i] - ts[i-2]; d < period[cat]*9/10 {
				o.Failf("%s were read three times within %v", catName[cat], d)
			}
		}
	}
	s.finish()
	return
}

func gC22(t *rapid.T) any {
	c := c22Case{Unit: gState(t, "u")}
	c.Down = rapid.SampledFrom([]fu.Reply{{Kind: "silent"}, {Kind: "raw", B: fu.Hex{0x41, 0x41}, Delay: 3}, {Kind: "trunc", N: 5}, {Kind: "werr", N: 3}, {Kind: "noack", Delay: 2}, {Kind: "ok", Delay: 1300},
		{Kind: "raw", B: fu.Hex{0x07, 0xF3}, End: "err", Delay: 1}}).Draw(t, "downr")
	scale := rapid.IntRange(0, 5).Draw(t, "scale")
	cats := [][]byte{{fu.CTemps, fu.CFans}, {fu.CTemps, fu.CFans}, {fu.CTemps, fu.CFans}, {fu.CProf, fu.CBypass}, {fu.CProf, fu.CBypass}, {fu.CBoot, fu.CErrs}}[scale]
	p := int(period[cats[0]] / time.Millisecond)
	out := rapid.Bool().Draw(t, "outages")
	part := c.Down.Delay < 1000 && rapid.Bool().Draw(t, "partial")
	wait := func() {
		c.S = append(c.S, srvStep{K: "wait", Ms: rapid.SampledFrom([]int{p / 50, p / 10, p / 3, p * 9 / 10, p, p * 11 / 10, p * 3 / 2, p*2 + 500, p * 3}).Draw(t, "ms")})
	}
	var busy byte
	if rapid.IntRange(0, 3).Draw(t, "busy") == 0 {
		busy = rapid.SampledFrom([]byte{fu.CBoot, fu.CBypass, fu.CTemps, fu.CFans, fu.CProf}).Draw(t, "busyc")
	}
	for i := rapid.IntRange(2, 14).Draw(t, "n"); i > 0; i-- {
		switch rapid.IntRange(0, 5).Draw(t, "k") {
		case 0, 1:
			cat := rapid.SampledFrom(cats).Draw(t, "c")
			if rapid.IntRange(0, 5).Draw(t, "any") == 0 {
				cat = gCat(t, "c2")
			}
			c.S = append(c.S, srvStep{K: "set", Cat: cat, Data: gField(t, "d", cat)})
		case 2:
			if out {
				c.S = append(c.S, srvStep{K: rapid.SampledFrom([]string{"down", "up"}).Draw(t, "ud")})
			}
		case 3:
			if rapid.Bool().Draw(t, "gc") {
				c.S = append(c.S, srvStep{K: "gc"})
			}
		case 4:
			if part {
				c.S = append(c.S, srvStep{K: rapid.SampledFrom([]string{"fail", "fail", "work"}).Draw(t, "fw"), Cat: rapid.SampledFrom(cats).Draw(t, "fc")})
			}
		}
		if busy > 0 {
			// as long as a wait, at a pace that is at most the period's
			ms := p / rapid.SampledFrom([]int{1, 2, 3, 7, 20}).Draw(t, "pace")
			c.S = append(c.S, srvStep{K: "busy", Cat: busy, Ms: ms, Arg: int64(rapid.SampledFrom([]int{p, p*2 + 500, p * 3}).Draw(t, "long")/ms + 1)})
		} else {
			wait()
		}
		for k := rapid.IntRange(0, 2).Draw(t, "gets"); k > 0; k-- {
			c.S = append(c.S, srvStep{K: "get", Cat: rapid.SampledFrom(cats).Draw(t, "gc2"), J: rapid.Bool().Draw(t, "j")})
		}
	}
	// In the end the unit is up, something changed, and two periods pass.
	c.S = append(c.S, srvStep{K: "up"})
	for _, cat := range cats {
		if rapid.Bool().Draw(t, "works") {
			c.S = append(c.S, srvStep{K: "work", Cat: cat})
		}
		if rapid.Bool().Draw(t, "last") {
			c.S = append(c.S, srvStep{K: "set", Cat: cat, Data: gField(t, "ld", cat)})
		}
	}
	c.S = append(c.S, srvStep{K: "wait", Ms: 2*p + 9000})
	for _, cat := range cats {
		c.S = append(c.S, srvStep{K: "get", Cat: cat})
	}
	return c
}

// --- C23: start-up ---

type c23Case struct {
	Unit  fu.State   `json:"unit"`
	Start []fu.Reply `json:"r"` // by category, for its first read
	Later fu.Reply   `json:"l"` // how the unit behaves for a while afterwards
	Down  int        `json:"down"`
	Long  bool       `json:"long,omitempty"`
	Stay  bool       `json:"stay,omitempty"` // not only the first read of each category is answered that way
}

func runC23(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c23Case](raw)
	s := newServer(c.Unit, &o)
	for i, cat := range categories {
		s.next[cat] = []fu.Reply{c.Start[i]}
		for c.Stay && len(s.next[cat]) < 100 {
			s.next[cat] = append(s.next[cat], c.Start[i])
		}
	}
	booted := make(chan bool)
	go func() { s.boot(); close(booted) }()
	select {
	case <-booted:
	case <-time.After(30 * time.Second):
		o.Failf("start-up does not return, the unit answers it with %+v (again and again: %v)", c.Start, c.Stay)
		return
	}
	if s.startup > 10*time.Second {
		o.Failf("start-up took %v", s.startup)
	}
	s.l.With(func() { clear(s.next) })
	s.def = c.Later
	ex := s.exchanges()
	seen := map[byte]int{}
	werr := 0
	for _, e := range ex {
		if e.R.Kind == "werr" {
			werr++
			continue
		}
		seen[e.Cmd]++
	}
	good := 0
	for i, cat := range categories {
		g := s.call(getterOf[cat], nil, encOf(i%2 == 0))
		if !g.R.OK {
			o.Failf("%v right after start-up", g)
		}
		// A category counts as answered if its first read got a right answer in
		// time, and nothing left over from the previous exchange could disturb it.
		clean := c.Start[i].Prompt()
		if clean {
			for j := range categories {
				if k := c.Start[j].Kind; j != i && !(c.Start[j].OK() || k == "silent" || k == "werr" || k == "trunc") {
					clean = false
				}
			}
		}
		want, _ := rpcText(cat, *c.Unit.Field(cat))
		if clean && g.R.Text() != want {
			o.Failf("after start-up, %s returned %q although the unit answered %q at once", g.Method, g.R.Text(), want)
		}
		vals, open := held(s.exchanges(), cat, g.S, g.E)
		if len(vals) > 0 && !open {
			good++
			s.wantGetter(s.exchanges(), cat, g)
		}
	}
	if good < 6 {
		o.NonTrivial = true
		o.Label(fmt.Sprintf("%d of 6 answered", good))
	} else {
		o.Label("all answered")
	}
	// After the unit works again, everything fills in.
	s.nap(ms(c.Down))
	s.l.With(func() { s.def = fu.Reply{Kind: "ok", Delay: 4} })
	until := 2*time.Minute + 9*time.Second
	fill := []byte{fu.CTemps, fu.CFans}
	switch {
	case c.Long:
		until, fill = 2*time.Hour+9*time.Second, categories
	case len(raw)%2 == 0:
		until, fill = 10*time.Minute+9*time.Second, []byte{fu.CTemps, fu.CFans, fu.CProf, fu.CBypass}
	}
	s.nap(until)
	for _, cat := range fill {
		want, _ := rpcText(cat, *c.Unit.Field(cat))
		if g := s.call(getterOf[cat], nil, "pb"); g.R.Text() != want {
			o.Failf("%v after the unit answered start-up with %+v, %s still returns %q, the unit holds %q", until, c.Start, g.Method, g.R.Text(), want)
		}
	}
	s.finish()
	return
}

func gC23(t *rapid.T) any {
	c := c23Case{Unit: gState(t, "u"), Long: rapid.IntRange(0, 3).Draw(t, "long") == 0, Stay: rapid.Bool().Draw(t, "stay")}
	how := rapid.IntRange(0, 3).Draw(t, "how")
	for range categories {
		switch {
		case how == 0, how == 1 && rapid.Bool().Draw(t, "ok"):
			c.Start = append(c.Start, gOK(t, "r"))
		case how == 2:
			c.Start = append(c.Start, fu.Reply{Kind: "silent"})
		case rapid.Bool().Draw(t, "simple"):
			c.Start = append(c.Start, rapid.SampledFrom([]fu.Reply{{Kind: "silent"}, {Kind: "trunc", N: 7}, {Kind: "werr", N: 2}, {Kind: "ok", Delay: 1500}, {Kind: "ok", Delay: 20}}).Draw(t, "s"))
		default:
			c.Start = append(c.Start, gReadFault(t, "r"))
		}
	}
	c.Later = rapid.SampledFrom([]fu.Reply{{Kind: "ok", Delay: 4}, {Kind: "silent"}, {Kind: "raw", B: fu.Hex{0x41}}, {Kind: "trunc", N: 9}}).Draw(t, "later")
	c.Down = rapid.SampledFrom([]int{0, 3000, 60000, 7200000}).Draw(t, "down")
	return c
}

func init() {
	core.Register(&core.Check{
		Prop: "C14", Name: "fields", Mode: core.Fake, Fresh: true, Quick: 4000, Thorough: 60000,
		Rule: "1-4 random unit states (all bytes, flags 0/1/other, names with white space, control characters and a non-ASCII letter), one after the other, each after a successful start-up or flush. Oracle: independent meaning of every payload byte against each of the six getters, in protobuf (decoded by field number) and JSON (by field name). Non-trivial: all; distinct counted as states",
		Run:  runC14,
		Gen: func(t *rapid.T) any {
			c := c14Case{J: rapid.Bool().Draw(t, "j")}
			for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
				c.S = append(c.S, gState(t, "s"))
			}
			return c
		},
	})
	core.Register(&core.Check{
		Prop: "C15", Name: "lastgood", Mode: core.Fake, Fresh: true, Quick: 4000, Thorough: 60000, VirtualLimit: 100 * time.Hour,
		Rule: "histories of 3-25 steps: the unit's values change, the answers to coming reads of a category are scripted (faults, late, correct), flushes, waits of 1 ms to 80 min (background refresh), single getters and bursts of 30. Oracle: the unit's log of acknowledged right answers gives the only value(s) a getter may return; reads counted against flushes and periods, so that a getter that causes traffic is seen. Non-trivial: a flush failed",
		Run:  runC15, Gen: gC15,
	})
	core.Register(&core.Check{
		Prop: "C16", Name: "flush", Mode: core.Fake, Fresh: true, Quick: 4000, Thorough: 60000,
		Rule: "histories of flushes of every kind (and unknown ones, negative, huge) while values change and reads are faulty, then 2-5 concurrent callers with 1-3 flushes each while some categories fail. Oracle: the categories read during each flush, the success of each read as seen by the unit, the values served afterwards; with concurrency, each caller's outcome is that of its own categories. Non-trivial: a failed flush or several concurrent ones",
		Run:  runC16, Gen: gC16,
	})
	core.Register(&core.Check{
		Prop: "C22", Name: "refresh", Mode: core.Fake, Fresh: true, Quick: 3000, Thorough: 40000, VirtualLimit: 1000 * time.Hour,
		Rule: "2-14 rounds of unit changes, outages (six kinds of failure) of the unit or of one category, garbage collections and waits of 1/50 to 3 periods, some filled with flushes of one category, at the 5 s, 5 min or 1 h scale, with getters in between. Oracle: every getter returns a value the unit held within the last two periods (any earlier one only after an outage within that time); reads per category are bounded by one per period, and never three within a period. Non-trivial: a change older than two periods was served",
		Run:  runC22, Gen: gC22,
	})
	core.Register(&core.Check{
		Prop: "C23", Name: "startup", Mode: core.Fake, Fresh: true, Quick: 3000, Thorough: 40000, VirtualLimit: 1000 * time.Hour,
		Rule: "the six initial reads answered correctly, slowly, faultily or not at all (all subsets), followed by up to 2 h of further failure, then a working unit for 2 min, 10 min or 2 h. Oracle: start-up returns within 10 s; every category whose read was answered is served at once, the getters never fail, the rest is served after two of its periods. Non-trivial: some read failed",
		Run:  runC23, Gen: gC23,
	})
}
