package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"slices"
	"strings"
	"sync"
	"time"

	"comfoverif/core"
	"comfoverif/fu"

	"github.com/ti-mo/comfo/comfoserver"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// --- C35: the cache objects as a Go API ---

// copyOf is a cache object of the program's own.
type copyOf struct {
	upd  func(bool) error
	poll func(int, uint8) error
	pb   func() proto.Message
	last func() time.Time
	// the model
	text string
	at   time.Duration // when it was last refreshed
	have bool
	raw  time.Time
	lost bool // the model does not know
}

func newCopy(cat byte) *copyOf {
	switch cat {
	case fu.CBoot:
		c := &comfoserver.BootInfoCache{}
		return &copyOf{upd: c.Update, pb: func() proto.Message { return c.Protobuf() }, last: func() time.Time { c.CacheLock.Lock(); defer c.CacheLock.Unlock(); return c.LastUpdated }}
	case fu.CBypass:
		c := &comfoserver.BypassCache{}
		return &copyOf{upd: c.Update, pb: func() proto.Message { return c.Protobuf() }, last: func() time.Time { c.CacheLock.Lock(); defer c.CacheLock.Unlock(); return c.LastUpdated }}
	case fu.CTemps:
		c := &comfoserver.TempCache{}
		return &copyOf{upd: c.Update, pb: func() proto.Message { return c.Protobuf() }, last: func() time.Time { c.CacheLock.Lock(); defer c.CacheLock.Unlock(); return c.LastUpdated }}
	case fu.CFans:
		c := &comfoserver.FanCache{}
		return &copyOf{upd: c.Update, poll: c.UpdatePoll, pb: func() proto.Message { return c.Protobuf() }, last: func() time.Time { c.CacheLock.Lock(); defer c.CacheLock.Unlock(); return c.LastUpdated }}
	case fu.CProf:
		c := &comfoserver.FanProfilesCache{}
		return &copyOf{upd: c.Update, pb: func() proto.Message { return c.Protobuf() }, last: func() time.Time { c.CacheLock.Lock(); defer c.CacheLock.Unlock(); return c.LastUpdated }}
	case fu.CErrs:
		c := &comfoserver.ErrorsCache{}
		return &copyOf{upd: c.Update, pb: func() proto.Message { return c.Protobuf() }, last: func() time.Time { c.CacheLock.Lock(); defer c.CacheLock.Unlock(); return c.LastUpdated }}
	}
	panic("harness: no such category")
}

type cacheStep struct {
	K     string     `json:"k"` // set update many all poll get wait
	Cat   byte       `json:"c,omitempty"`
	Obj   int        `json:"o,omitempty"`
	Force bool       `json:"f,omitempty"`
	N     int        `json:"n,omitempty"`
	Data  fu.Hex     `json:"d,omitempty"`
	R     []fu.Reply `json:"r,omitempty"`
	// All: the replies by category.
	All   map[string][]fu.Reply `json:"all,omitempty"`
	Ms    int                   `json:"ms,omitempty"` // poll: the speed
	There int                   `json:"th,omitempty"` // poll: the fans get there with this reading; -1: never
}

type cacheCase struct {
	Unit fu.State    `json:"unit"`
	S    []cacheStep `json:"s"`
}

func runC35(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[cacheCase](raw)
	s := newServer(c.Unit, &o)
	s.boot()
	begin := s.l.Now()
	epoch := time.Now().Add(-s.l.Now()) // the line's zero
	// owner of the logged exchanges that are not the service's: 'o' the check's, '?' unknown
	owner := map[int]byte{}
	objs := map[byte][]*copyOf{}
	for _, cat := range categories {
		objs[cat] = []*copyOf{newCopy(cat), newCopy(cat)}
	}
	text := func(cat byte, m proto.Message) string {
		r := directResp(getterOf[cat], m)
		return r.Text()
	}
	// nothing read: all fields zero
	for _, cat := range categories {
		for _, x := range objs[cat] {
			x.text = text(cat, x.pb())
		}
	}
	// hit: may a refresh of the service's own fall into the window?
	hit := func(from, to time.Duration) bool {
		for k := (from-begin)/(5*time.Second) - 1; ; k++ {
			t := begin + k*5*time.Second
			if t > to+50*time.Millisecond {
				return false
			}
			if k > 0 && t >= from-400*time.Millisecond {
				return true
			}
		}
	}
	// blur gives up on what happened since the start of a call that met a refresh.
	blur := func(w rec) {
		s.nap(ms(300))
		for k := w.LogS; k < s.l.Requests(); k++ {
			owner[k] = '?'
		}
	}
	// untouched checks every object but one against the model.
	untouched := func(but *copyOf, where string) {
		for _, cat := range categories {
			for i, x := range objs[cat] {
				if x == but {
					continue
				}
				if g := text(cat, x.pb()); g != x.text && !x.lost {
					o.Failf("%s: copy %d of the %s, not refreshed meanwhile, changed from %q to %q", where, i, catName[cat], x.text, g)
				}
				if t := x.last(); !x.lost && !t.Equal(x.raw) {
					o.Failf("%s: copy %d of the %s, not refreshed meanwhile, changed its time from %v to %v", where, i, catName[cat], x.raw, t)
				}
			}
		}
	}
	adopt := func(cat byte, x *copyOf) {
		x.text, x.raw, x.lost = text(cat, x.pb()), x.last(), false
		x.have = !x.raw.IsZero()
		x.at = x.raw.Sub(epoch)
	}
	// settled checks an object after its updates, the last successful of which read p.
	settled := func(cat byte, x *copyOf, p []byte, before time.Time, beforeText string, w rec, where string) {
		now, at := text(cat, x.pb()), x.last()
		if p == nil {
			if now != beforeText || !at.Equal(before) {
				o.Failf("%s: no read succeeded, but it changed from %q (%v) to %q (%v)", where, beforeText, before, now, at)
			}
		} else {
			if want, _ := rpcText(cat, p); now != want {
				o.Failf("%s: holds %q after the unit answered %q", where, now, want)
			}
			if t := at.Sub(epoch); t < w.S-time.Millisecond || t > w.E+time.Millisecond {
				o.Failf("%s: says that it was refreshed at %v (%v)", where, t, at)
			}
			adopt(cat, x)
		}
		untouched(x, where)
	}
	judged, failed, unforced := 0, false, 0
	update := func(i int, st cacheStep, n int, force bool) {
		x := objs[st.Cat][st.Obj%2]
		s.calm()
		s.script(st.Cat, st.R...)
		before, beforeText := x.raw, x.text
		w := rec{S: s.l.Now(), LogS: s.l.Requests()}
		errs := make([]error, n)
		seen := make([]string, n)
		var wg sync.WaitGroup
		for k := range n {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[k] = x.upd(force)
				seen[k] = text(st.Cat, x.pb())
			}()
		}
		wg.Wait()
		w.E, w.LogE = s.l.Now(), s.l.Requests()
		s.script(st.Cat)
		where := fmt.Sprintf("step %d: %d update(s) (force %v) of copy %d of the %s at %v-%v", i, n, force, st.Obj%2, catName[st.Cat], w.S, w.E)
		ex := s.exchanges()
		amb := hit(w.S, w.E)
		for k := w.LogS; k < w.LogE; k++ {
			owner[k] = 'o'
			if amb {
				owner[k] = '?'
			}
		}
		if amb || x.lost {
			adopt(st.Cat, x)
			untouched(x, where)
			blur(w)
			return
		}
		o.Evals++
		judged++
		if !force {
			unforced++
		}
		reads, oks, open := 0, 0, false
		var last []byte
		held := []string{beforeText}
		for _, e := range attempts(ex, w) {
			cmd := e.Cmd
			if e.R.Kind == "werr" {
				cmd = e.WCmd
			}
			if cmd != st.Cat {
				o.Failf("%s sent request %#02x", where, cmd)
			}
			reads++
			p, ok, op := readOK(e)
			open = open || op
			if ok {
				oks++
				last = p
				tx, _ := rpcText(st.Cat, p)
				held = append(held, tx)
			}
		}
		if open {
			adopt(st.Cat, x)
			return
		}
		nerr := 0
		for _, e := range errs {
			if e != nil {
				nerr++
			}
		}
		age := time.Hour
		if x.have {
			age = w.S - x.at
		}
		switch {
		case force:
			if reads != n {
				o.Failf("%s read the unit %d times", where, reads)
			}
		case age < 4*time.Second: // fresh
			if reads > 0 {
				o.Failf("%s read the unit although it was refreshed %v before", where, age)
			}
		case age > 5*time.Second: // due
			want := n
			if oks > 0 {
				want = reads
			}
			if reads == 0 || reads != want || oks > 1 && w.E-w.S < 4*time.Second {
				o.Failf("%s, due, read the unit %d times, %d of them successfully", where, reads, oks)
			}
		}
		if nerr != reads-oks {
			o.Failf("%s: %d of %d reads succeeded, and %d updates failed (%v)", where, oks, reads, nerr, errors.Join(errs...))
		}
		for _, v := range seen {
			if !slices.Contains(held, v) {
				o.Failf("%s: held %q in between, the values are %q", where, v, held)
			}
		}
		failed = failed || nerr > 0
		settled(st.Cat, x, last, before, beforeText, w, where)
	}
	// served checks what the service itself serves: not the copies.
	served := func(cat byte) {
		r := s.call(getterOf[cat], nil, "pb")
		if !r.R.OK {
			o.Failf("%v", r)
			return
		}
		var vals []string
		open := false
		for i, e := range s.exchanges() {
			if e.Cmd != cat || e.R.Kind == "werr" || owner[i] == 'o' || e.T > r.E {
				continue
			}
			p, ok, op := readOK(e)
			open = open || op
			if !ok || e.AckAt > r.E {
				continue
			}
			if e.AckAt < r.S && owner[i] != '?' {
				vals, open = nil, false
			}
			t, _ := rpcText(cat, p)
			vals = append(vals, t)
		}
		if open || len(vals) == 0 {
			return
		}
		for _, v := range vals {
			if v == r.R.Text() {
				return
			}
		}
		o.Failf("%s returned %q at %v, the service's last reading was %q", r.Method, r.R.Text(), r.S, strings.Join(vals, `" or "`))
	}
	for i, st := range c.S {
		switch st.K {
		case "set":
			s.l.With(func() { *s.l.Unit.Field(st.Cat) = append(fu.Hex(nil), st.Data...) })
		case "wait":
			s.nap(ms(st.Ms))
		case "update":
			update(i, st, 1, st.Force)
		case "many":
			update(i, st, 2+st.N%6, st.Force)
		case "get":
			s.settle()
			served(st.Cat)
		case "all": // the service's own objects
			s.calm()
			for _, cat := range categories {
				s.script(cat, st.All[fmt.Sprint(cat)]...)
			}
			w := rec{S: s.l.Now(), LogS: s.l.Requests()}
			err := comfoserver.UpdateCaches(st.Force)
			w.E, w.LogE = s.l.Now(), s.l.Requests()
			for _, cat := range categories {
				s.script(cat)
			}
			where := fmt.Sprintf("step %d: updating all (force %v) at %v-%v", i, st.Force, w.S, w.E)
			untouched(nil, where)
			if hit(w.S, w.E) {
				blur(w)
				break
			}
			reads, bad, open := map[byte]int{}, 0, false
			for _, e := range attempts(s.exchanges(), w) {
				cmd := e.Cmd
				if e.R.Kind == "werr" {
					cmd = e.WCmd
				}
				reads[cmd]++
				_, ok, op := readOK(e)
				open = open || op
				if !ok {
					bad++
				}
			}
			if open {
				break
			}
			o.Evals++
			judged++
			n := 0
			for _, cat := range categories {
				n += reads[cat]
				if st.Force && reads[cat] != 1 || reads[cat] > 1 {
					o.Failf("%s read the %s %d times", where, catName[cat], reads[cat])
				}
			}
			if !st.Force {
				for _, cat := range categories {
					// the service's last refresh of its own
					last, sure := time.Duration(-time.Hour), true
					for k, e := range s.exchanges()[:w.LogS] {
						if e.Cmd != cat || owner[k] == 'o' {
							continue
						}
						_, ok, op := readOK(e)
						if op || owner[k] == '?' {
							sure = false
						} else if ok {
							last, sure = e.T, true
						}
					}
					switch {
					case sure && w.E-last < 3900*time.Millisecond && reads[cat] > 0:
						o.Failf("%s read the %s, refreshed %v before", where, catName[cat], w.S-last)
					case sure && w.S-last > 9*time.Second && reads[cat] == 0:
						o.Failf("%s did not read the %s, last refreshed %v before", where, catName[cat], w.S-last)
					case sure:
						unforced++
					}
				}
			}
			if n != w.LogE-w.LogS {
				o.Failf("%s: %d requests are not reads of the categories", where, w.LogE-w.LogS-n)
			}
			if (err != nil) != (bad > 0) {
				o.Failf("%s: %d of %d reads failed, and it returned %v", where, bad, n, err)
			}
			failed = failed || bad > 0
			for _, cat := range categories {
				served(cat)
			}
		case "poll": // waiting for the fans to reach a profile the service holds
			s.calm()
			r := s.call("GetFanProfiles", nil, "pb")
			if st.There >= 0 && st.Ms >= 1 && st.Ms <= 4 {
				s.l.With(func() {
					s.l.Unit.LagIn, s.l.Unit.LagOut = st.There, st.There
					s.l.Unit.Apply(fu.Req{Cmd: fu.CSpeed, Data: []byte{byte(st.Ms)}})
				})
			}
			s.script(fu.CFans, st.R...)
			x := objs[fu.CFans][st.Obj%2]
			before, beforeText := x.raw, x.text
			w := rec{S: s.l.Now(), LogS: s.l.Requests()}
			err := x.poll(st.N, uint8(st.Ms))
			w.E, w.LogE = s.l.Now(), s.l.Requests()
			s.script(fu.CFans)
			where := fmt.Sprintf("step %d: waiting up to %d readings for speed %d at %v-%v", i, st.N, st.Ms, w.S, w.E)
			amb := hit(w.S, w.E) || x.lost || !r.R.OK
			for k := w.LogS; k < w.LogE; k++ {
				owner[k] = 'o'
				if amb {
					owner[k] = '?'
				}
			}
			if amb {
				adopt(fu.CFans, x)
				untouched(x, where)
				blur(w)
				break
			}
			valid := st.Ms >= 1 && st.Ms <= 4
			var names [2]string
			if valid {
				names = [...][2]string{{"InAway", "OutAway"}, {"InLow", "OutLow"}, {"InMid", "OutMid"}, {"InHigh", "OutHigh"}}[st.Ms-1]
			}
			reads, at, open := 0, 0, false
			var last []byte
			for _, e := range attempts(s.exchanges(), w) {
				if e.R.Kind != "werr" && e.Cmd != fu.CFans || e.R.Kind == "werr" && e.WCmd != fu.CFans {
					o.Failf("%s sent request %#02x", where, e.Cmd)
				}
				reads++
				p, ok, op := readOK(e)
				open = open || op
				if ok {
					last = p
				}
				if ok && valid && at == 0 && fmt.Sprint(p[0]) == r.R.F[names[0]] && fmt.Sprint(p[1]) == r.R.F[names[1]] {
					at = reads
				}
			}
			if open {
				adopt(fu.CFans, x)
				break
			}
			o.Evals++
			judged++
			switch {
			case reads > st.N:
				o.Failf("%s took %d readings", where, reads)
			case !valid && (err == nil || reads > 0):
				o.Failf("%s: no such speed, but %d readings and %v", where, reads, err)
			case (err == nil) != (at > 0):
				o.Failf("%s: the fans were seen there with reading %d (0: never), but it returned %v", where, at, err)
			case at > 0 && at != reads:
				o.Failf("%s: seen there with reading %d, but %d were taken", where, at, reads)
			case at == 0 && valid && reads != st.N:
				o.Failf("%s: gave up after %d readings", where, reads)
			}
			if at > 0 {
				o.Label("fans seen there")
			}
			settled(fu.CFans, x, last, before, beforeText, w, where)
			served(fu.CFans)
		}
	}
	s.settle()
	for _, cat := range categories {
		served(cat)
	}
	s.finish()
	if judged > 0 && failed && unforced > 0 {
		o.NonTrivial = true
		o.Label("a failed and an unforced update")
	}
	return
}

func gC35(t *rapid.T) any {
	c := cacheCase{Unit: gState(t, "u")}
	replies := func(l string, max int) (r []fu.Reply) {
		for k := rapid.IntRange(0, max).Draw(t, l+"nr"); k > 0; k-- {
			if rapid.Bool().Draw(t, l+"good") {
				r = append(r, gOK(t, l))
			} else {
				r = append(r, gReadFault(t, l))
			}
		}
		return
	}
	// mostly one or two categories, so that the same copies are met again
	few := []byte{gCat(t, "few1"), gCat(t, "few2")}
	cat := func() byte {
		if rapid.IntRange(0, 5).Draw(t, "other") == 0 {
			return gCat(t, "c")
		}
		return rapid.SampledFrom(few).Draw(t, "fc")
	}
	for i := rapid.IntRange(3, 25).Draw(t, "n"); i > 0; i-- {
		st := cacheStep{K: rapid.SampledFrom([]string{"set", "set", "update", "update", "update", "update", "update", "many", "wait", "wait", "wait", "get", "all", "poll"}).Draw(t, "k")}
		switch st.K {
		case "set":
			st.Cat = cat()
			st.Data = gField(t, "d", st.Cat)
		case "update", "many":
			st.Cat = cat()
			st.Obj = rapid.IntRange(0, 1).Draw(t, "o")
			st.Force = rapid.IntRange(0, 2).Draw(t, "f") == 0
			m := 1
			if st.K == "many" {
				st.N = rapid.IntRange(0, 5).Draw(t, "n")
				m = 5
			}
			st.R = replies("r", m)
		case "get":
			st.Cat = cat()
		case "all":
			st.Force = rapid.IntRange(0, 3).Draw(t, "f") > 0
			st.All = map[string][]fu.Reply{}
			for _, x := range categories {
				if r := replies(fmt.Sprint("r", x), 1); len(r) > 0 {
					st.All[fmt.Sprint(x)] = r
				}
			}
		case "poll":
			st.Ms = rapid.IntRange(0, 5).Draw(t, "speed")
			st.N = rapid.IntRange(0, 4).Draw(t, "n")
			st.R = replies("r", 4)
			st.Obj = rapid.IntRange(0, 1).Draw(t, "o")
			st.There = rapid.IntRange(-1, 3).Draw(t, "there")
		case "wait":
			st.Ms = rapid.SampledFrom([]int{1, 30, 700, 1500, 2500, 3000, 3900, 4600, 5000, 5100, 6000, 12000, 61000, 400000, 5000000}).Draw(t, "ms")
		}
		c.S = append(c.S, st)
	}
	return c
}

func init() {
	core.Register(&core.Check{
		Prop: "C35", Name: "cache", Mode: core.Fake, Fresh: true, Quick: 4000, Thorough: 60000, VirtualLimit: 100 * time.Hour,
		Rule: "histories of 3-25 steps on two cache objects per category of the caller's own, beside the running service: the unit's values change, forced and unforced updates, 2-7 concurrent updates of one object, UpdateCaches, UpdatePoll, waits of 1 ms to 80 min, reads answered correctly, slowly, faultily or not at all. Oracle: a model of each object (value and time of its last successful update) and the unit's log. Non-trivial: some update failed and some unforced one was judged",
		Run:  runC35, Gen: gC35,
	})
}
