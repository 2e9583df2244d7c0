package fu

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"time"
)

// Reply scripts how the unit answers one request.
type Reply struct {
	// Kind: ok silent raw flip drop ins trunc cmd size noack ctl pre flood werr
	Kind  string `json:"k"`
	Delay int    `json:"d,omitempty"` // ms before the first byte
	Cuts  []int  `json:"c,omitempty"` // sizes of the pieces delivered; the rest is one piece
	Gaps  []int  `json:"g,omitempty"` // ms before the second, third, ... piece
	N     int    `json:"n,omitempty"`
	B     Hex    `json:"b,omitempty"`
	End   string `json:"e,omitempty"` // after the last piece: "" silence, "eof", "err", "eof+" (in the same read)
	Apply bool   `json:"a,omitempty"` // the unit executes a set although it does not answer well
	WLat  int    `json:"w,omitempty"` // ms the request takes to be written
	// Empty: pieces of no bytes are delivered as such.
	Empty bool `json:"em,omitempty"`
	// AckErr makes writing the ACK for this answer fail.
	AckErr bool `json:"ae,omitempty"`
}

// OK tells whether the reply is a correct one.
func (r Reply) OK() bool { return (r.Kind == "ok" || r.Kind == "") && !r.AckErr }

// Prompt tells whether it is a correct answer in good time.
func (r Reply) Prompt() bool { return r.OK() && r.Duration() < 900 }

// Duration is the time in ms from the request to the last byte of the answer.
func (r Reply) Duration() int {
	d := r.Delay
	for i := range r.Cuts {
		if i < len(r.Gaps) {
			d += r.Gaps[i]
		}
	}
	return d
}

// Correct is the right answer to a request.
func Correct(cmd byte, answer []byte, isGet bool) []byte {
	out := append([]byte(nil), Ack...)
	if isGet {
		out = append(out, Frame(cmd+1, answer)...)
	}
	return out
}

// Stream is the bytes the unit sends under this reply.
func (r Reply) Stream(cmd byte, answer []byte, isGet bool) []byte {
	c := Correct(cmd, answer, isGet)
	at := func() int { return r.N % len(c) }
	switch r.Kind {
	case "", "ok":
		return c
	case "silent", "werr":
		return nil
	case "raw", "flood":
		return append([]byte(nil), r.B...)
	case "flip":
		c[at()] ^= r.B[0]
		return c
	case "drop":
		i := at()
		return append(c[:i:i], c[i+1:]...)
	case "ins":
		i := at()
		return append(append(append([]byte(nil), c[:i]...), r.B...), c[i:]...)
	case "trunc":
		return c[:at()]
	case "cmd":
		return append(append([]byte(nil), Ack...), Frame(r.B[0], answer)...)
	case "size":
		d := append([]byte(nil), answer...)
		for len(d) < r.N {
			d = append(d, r.B...)
		}
		return append(append([]byte(nil), Ack...), Frame(cmd+1, d[:r.N])...)
	case "sum": // a frame with a consistent shape but a wrong checksum or length byte
		b := Body(cmd+1, answer)
		if r.N%2 == 0 {
			b[len(b)-1] ^= r.B[0]
		} else {
			b[2] ^= r.B[0]
		}
		out := append(append([]byte(nil), Ack...), esc, cBeg)
		return append(append(out, b...), esc, cEnd)
	case "noack":
		return c[2:]
	case "ctl":
		c[1] = r.B[0]
		return c
	case "pre":
		return append(append([]byte(nil), r.B...), c...)
	}
	panic("harness: unknown reply kind " + r.Kind)
}

// Judge says what an operation must make of the bytes received before silence
// or end of stream. must: it has to succeed with payload; fail: it has to fail;
// neither: the properties leave it open.
func Judge(stream []byte, cmd byte, isGet bool) (payload []byte, must, fail bool) {
	if !bytes.HasPrefix(stream, Ack) {
		return nil, false, true
	}
	if !isGet {
		return nil, true, false
	}
	s := stream[2:]
	if !bytes.HasPrefix(s, []byte{esc, cBeg}) {
		return nil, false, true
	}
	s = s[2:]
	// The strict reading: length-delimited, 0x07 always doubled in the payload.
	if len(s) >= 3 {
		n, i := int(s[2]), 3
		var d []byte
		ok := true
		for ok && len(d) < n {
			switch {
			case i >= len(s):
				ok = false
			case s[i] == esc && (i+1 >= len(s) || s[i+1] != esc):
				ok = false
			default:
				if s[i] == esc {
					i++
				}
				d = append(d, s[i])
				i++
			}
		}
		if ok && len(s) >= i+3 && s[i] == Checksum(s[1], d) && s[i+1] == esc && s[i+2] == cEnd {
			if s[1] == cmd+1 && len(d) == Size(cmd) {
				return d, s[0] == 0, false
			}
			return nil, false, true
		}
	}
	// Any lenient reading (lone 0x07 dropped) that some reader might accept.
	for i := 0; i+1 < len(s); i++ {
		if s[i] == esc && s[i+1] == cEnd {
			if c, d, ok := ValidBody(s[:i]); ok && c == cmd+1 && len(d) == Size(cmd) {
				return nil, false, false
			}
		}
	}
	return nil, false, true
}

// Exch is one request seen by the unit.
type Exch struct {
	T       time.Duration // when the request was completely written
	Cmd     byte
	Data    Hex
	R       Reply
	IsGet   bool
	Answer  Hex           // payload of the correct answer
	Sent    int           // bytes of the stream delivered so far
	Stream  Hex           // what is delivered
	DoneAt  time.Duration // when the last piece was delivered; -1 before
	Acks    int
	AckAt   time.Duration
	Applied bool
	// Dirty: something from before may reach the host at the start of this
	// exchange, which may then be given up at once.
	Dirty bool
	// AckTried: the host's ACK could not be written.
	AckTried bool
	// Close: something arrived while the request was being written, or just before.
	Close bool
	// Direct marks a read whose result is not kept by the service.
	Direct bool
	// WCmd is the command whose request could not be written (Kind werr).
	WCmd byte
}

// ErrLine is what faults on the line yield.
var ErrLine = errors.New("injected line fault")

type item struct {
	b   []byte
	err error
}

type waiter struct {
	p    []byte
	n    int
	err  error
	done chan struct{}
}

// Line is the in-memory connection between host and unit. Reads block until
// something arrives and cannot be cancelled, as on a serial port.
type Line struct {
	delivering atomic.Int32
	mu         sync.Mutex
	Unit       *Unit
	Script     []Reply // one per request; afterwards Default
	Default    Reply
	// Pick, if set, chooses the reply instead (called with the lock held).
	Pick func(r Req, n int) Reply

	// Generic, if set, replaces the unit: any request gets the answer it returns.
	Generic func(r Req) (answer []byte, isGet, ok bool)

	next    int
	chosen  []Reply
	queue   []item
	waiters []*waiter
	closed  bool
	dead    error
	deadW   error
	cleared bool
	gen     int // generation of the current answer; a new request cancels older ones
	writing int
	pushed  time.Duration // when something was last sent to the host
	wsince  time.Duration // when the current write began
	parser  HostParser
	start   time.Time

	Log  []*Exch
	Bad  []string // deviations observed on the host side
	Acks int      // ACKs outside any exchange
	// GiveUp is how long after a request an unanswered exchange counts as given up.
	GiveUp time.Duration
	// Strict reports requests written before the previous exchange is over.
	Strict bool
	// BytesToUnit counts everything the host wrote.
	BytesToUnit int
	// LatentWrites holds the write latency of the next Write calls when no script entry applies.
	WriteLat int
}

// NewLine returns a line to the given unit.
func NewLine(u *Unit) *Line {
	l := &Line{Unit: u, Default: Reply{Kind: "ok", Delay: 5}, start: time.Now(), GiveUp: 850 * time.Millisecond, Strict: true}
	l.parser.OnAck = l.onAck
	l.parser.OnReq = l.onReq
	return l
}

// Now is the time since the line was made.
func (l *Line) Now() time.Duration { return time.Since(l.start) }

// Read implements io.Reader.
func (l *Line) Read(p []byte) (int, error) {
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return 0, io.ErrClosedPipe
	}
	if l.dead != nil && len(l.queue) == 0 {
		l.mu.Unlock()
		return 0, l.dead
	}
	w := &waiter{p: p, done: make(chan struct{})}
	l.waiters = append(l.waiters, w)
	l.serve()
	l.mu.Unlock()
	<-w.done
	return w.n, w.err
}

// serve matches queued items with waiting readers, first come first served.
func (l *Line) serve() {
	for len(l.waiters) > 0 && len(l.queue) > 0 {
		w, it := l.waiters[0], &l.queue[0]
		w.n = copy(w.p, it.b)
		it.b = it.b[w.n:]
		if len(it.b) == 0 {
			w.err = it.err
			l.queue = l.queue[1:]
		}
		l.waiters = l.waiters[1:]
		close(w.done)
	}
	if l.dead != nil && len(l.queue) == 0 {
		for _, w := range l.waiters {
			w.err = l.dead
			close(w.done)
		}
		l.waiters = nil
	}
}

func (l *Line) push(it item) {
	if l.dead != nil {
		return
	}
	l.pushed = l.Now()
	l.queue = append(l.queue, it)
	l.serve()
}

// Waiting is the number of blocked readers.
func (l *Line) Waiting() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.waiters)
}

// Clear drops everything that is under way to the host.
func (l *Line) Clear() {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.gen++
	l.queue = nil
	l.cleared = true
}

// Inject delivers bytes to the host at once.
func (l *Line) Inject(b []byte) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.push(item{b: append([]byte(nil), b...)})
}

// peek returns the reply the next request will get.
func (l *Line) peek() Reply {
	if l.next < len(l.Script) {
		return l.Script[l.next]
	}
	return l.Default
}

// Write implements io.Writer.
func (l *Line) Write(p []byte) (int, error) {
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return 0, io.ErrClosedPipe
	}
	if l.writing > 0 {
		l.bad("two writes to the line overlap (%x)", p)
	}
	if l.deadW != nil {
		l.mu.Unlock()
		return 0, l.deadW
	}
	if e := l.last(); bytes.Equal(p, Ack) && e != nil && e.R.AckErr && e.Acks == 0 && !e.AckTried {
		e.AckTried = true
		l.mu.Unlock()
		return 0, ErrLine
	}
	l.writing++
	l.wsince = l.Now()
	// Does this write complete a request? Then its reply is chosen now.
	lat := l.WriteLat
	var rep Reply
	var repCmd byte
	dry := HostParser{buf: append([]byte(nil), l.parser.buf...)}
	done := false
	dry.OnReq = func(r Req) {
		if done {
			return
		}
		done = true
		repCmd = r.Cmd
		if l.Pick != nil {
			rep = l.Pick(r, l.next)
		} else {
			rep = l.peek()
		}
		l.next++
		if rep.WLat > 0 {
			lat = rep.WLat
		}
	}
	dry.Feed(p)
	held := append([]byte(nil), p...)
	l.mu.Unlock()
	if lat > 0 {
		time.Sleep(time.Duration(lat) * time.Millisecond)
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	l.writing--
	if !bytes.Equal(held, p) {
		l.bad("buffer changed while being written: %x became %x", held, p)
	}
	if done && rep.Kind == "werr" {
		k := rep.N % len(p)
		l.BytesToUnit += k
		l.parser.buf = nil
		e := &Exch{T: l.Now(), R: rep, DoneAt: l.Now(), WCmd: repCmd, Dirty: l.dirty(l.Now())}
		l.Log = append(l.Log, e)
		l.gen++
		if len(rep.B) > 0 { // something is heard all the same
			e.Stream, e.DoneAt = rep.B, -1
			go l.deliver(e, l.gen)
		}
		return k, ErrLine
	}
	l.BytesToUnit += len(p)
	if done {
		l.chosen = append(l.chosen, rep)
	}
	l.parser.Feed(held)
	if l.parser.Err != "" {
		l.bad("%s", l.parser.Err)
		l.parser.Err = ""
		l.parser.buf = nil
	}
	l.chosen = nil
	return len(p), nil
}

func (l *Line) bad(f string, a ...any) {
	if len(l.Bad) < 20 {
		l.Bad = append(l.Bad, fmt.Sprintf("at %v: ", l.Now())+fmt.Sprintf(f, a...))
	}
}

// Last is the current exchange.
func (l *Line) last() *Exch {
	if len(l.Log) == 0 {
		return nil
	}
	return l.Log[len(l.Log)-1]
}

func (l *Line) onAck() {
	e := l.last()
	if e == nil || e.R.Kind == "werr" || e.AckTried {
		l.Acks++
		l.bad("ACK outside any exchange")
		return
	}
	e.Acks++
	e.AckAt = l.Now()
	if e.Acks > 1 {
		l.bad("second ACK in the exchange for command %#02x", e.Cmd)
	}
}

// dirty tells whether something of earlier exchanges may reach the next one.
func (l *Line) dirty(now time.Duration) bool {
	p := l.last()
	if p == nil {
		return false
	}
	d := len(l.queue) > 0 || (!p.R.OK() && !p.AckTried && (p.Sent > 0 || p.R.End != ""))
	if !l.cleared {
		// The host may have taken an earlier answer for this one's.
		early := p.Acks > 0 && (p.DoneAt < 0 || p.AckAt < p.DoneAt)
		chain := p.Dirty && (p.DoneAt < 0 || now-p.DoneAt < 1100*time.Millisecond)
		d = d || early || chain
	}
	return d
}

func (l *Line) onReq(r Req) {
	now := l.Now()
	rep := Reply{Kind: "silent"}
	if len(l.chosen) > 0 {
		rep = l.chosen[0]
		l.chosen = l.chosen[1:]
	}
	if p := l.last(); p != nil && l.Strict && p.R.Kind != "werr" && p.Acks == 0 && !p.AckTried && !p.Dirty {
		// The previous exchange is unfinished: it must have been given up.
		deviates := false
		if p.DoneAt >= 0 || p.Sent > 0 {
			_, must, _ := Judge(p.Stream[:p.Sent], p.Cmd, p.IsGet)
			deviates = !must && p.Sent > 0 && !bytes.HasPrefix(Correct(p.Cmd, p.Answer, p.IsGet), p.Stream[:p.Sent])
			if p.DoneAt >= 0 && p.R.End != "" {
				deviates = true
			}
		}
		if now-p.T < l.GiveUp && !deviates {
			l.bad("request %#02x written %v after request %#02x, whose exchange was neither finished nor given up", r.Cmd, now-p.T, p.Cmd)
		}
	}
	e := &Exch{T: now, Cmd: r.Cmd, Data: append(Hex(nil), r.Data...), R: rep, DoneAt: -1}
	e.Dirty = l.dirty(now)
	l.cleared = false
	e.Close = l.pushed > 0 && l.pushed >= l.wsince-20*time.Microsecond
	l.Log = append(l.Log, e)
	before := l.Unit.State.Clone()
	wi, wo, li, lo := l.Unit.wantIn, l.Unit.wantOut, l.Unit.leftIn, l.Unit.leftOut
	var ans []byte
	var isGet, ok bool
	if l.Generic != nil {
		ans, isGet, ok = l.Generic(r)
	} else {
		ans, isGet, ok = l.Unit.Apply(r)
	}
	if !ok {
		l.bad("request %#02x with payload %x is not one the unit knows", r.Cmd, r.Data)
		rep = Reply{Kind: "silent"}
		e.R = rep
	}
	e.IsGet, e.Answer, e.Applied = isGet, ans, ok
	e.Stream = rep.Stream(r.Cmd, ans, isGet)
	if !rep.OK() && !rep.Apply && (isGet || !bytes.HasPrefix(e.Stream, Ack)) {
		l.Unit.State = before
		l.Unit.wantIn, l.Unit.wantOut, l.Unit.leftIn, l.Unit.leftOut = wi, wo, li, lo
		e.Applied = false
	}
	l.gen++
	go l.deliver(e, l.gen)
}

// Quiesce waits until nothing is being delivered any more.
func (l *Line) Quiesce() {
	for l.delivering.Load() > 0 {
		time.Sleep(100 * time.Millisecond)
	}
}

// deliver sends the answer, piece by piece, until a new request cancels it.
func (l *Line) deliver(e *Exch, gen int) {
	l.delivering.Add(1)
	defer l.delivering.Add(-1)
	r := e.R
	sleep := func(ms int) bool {
		if ms > 0 {
			time.Sleep(time.Duration(ms) * time.Millisecond)
		}
		l.mu.Lock()
		if l.gen != gen || l.closed {
			l.mu.Unlock()
			return false
		}
		return true
	}
	if r.Kind == "silent" {
		return
	}
	if r.Kind == "flood" {
		gap := 1
		if len(r.Gaps) > 0 && r.Gaps[0] > 0 {
			gap = r.Gaps[0]
		}
		if !sleep(r.Delay) {
			return
		}
		l.mu.Unlock()
		for until := l.Now() + 3*time.Second; l.Now() < until; {
			if !sleep(gap) {
				return
			}
			if len(l.queue) < 1000 {
				l.push(item{b: append([]byte(nil), e.Stream...)})
			}
			l.mu.Unlock()
		}
		return
	}
	rest := []byte(e.Stream)
	first := true
	for i := 0; first || len(rest) > 0; i++ {
		gap := r.Delay
		if !first {
			gap = 0
			if i-1 < len(r.Gaps) {
				gap = r.Gaps[i-1]
			}
		}
		first = false
		if !sleep(gap) {
			return
		}
		n := len(rest)
		if i < len(r.Cuts) && r.Cuts[i] < n {
			n = r.Cuts[i]
		}
		if n == 0 && len(rest) > 0 {
			if r.Empty { // a Read that returns nothing
				l.push(item{})
			}
			l.mu.Unlock()
			continue
		}
		e.Sent += n
		it := item{b: append([]byte(nil), rest[:n]...)}
		rest = rest[n:]
		if len(rest) == 0 {
			e.DoneAt = l.Now()
			if r.End == "eof+" {
				it.err = io.EOF
			}
		}
		if len(it.b) > 0 || it.err != nil {
			l.push(it)
		}
		if len(rest) == 0 {
			switch r.End {
			case "eof":
				l.push(item{err: io.EOF})
			case "err":
				l.push(item{err: ErrLine})
			}
		}
		l.mu.Unlock()
	}
}

// Answer starts delivering an answer without any request (for readers driven directly).
func (l *Line) Answer(cmd byte, data []byte, r Reply) {
	l.mu.Lock()
	defer l.mu.Unlock()
	e := &Exch{T: l.Now(), Cmd: cmd, R: r, IsGet: true, Answer: data, DoneAt: -1, Acks: 1}
	e.Stream = r.Stream(cmd, data, true)
	l.gen++
	go l.deliver(e, l.gen)
}

// Die makes every further read fail (after what is queued), and every write if
// w is not nil. Nil errors bring the line back to life.
func (l *Line) Die(r, w error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if r != nil || l.dead != nil { // nothing gets through a dead line, or survives it
		l.queue = nil
		l.gen++
	}
	l.dead, l.deadW = r, w
	l.serve()
}

// Close releases all blocked readers.
func (l *Line) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.closed = true
	for _, w := range l.waiters {
		w.err = io.ErrClosedPipe
		close(w.done)
	}
	l.waiters = nil
	return nil
}

// With runs f under the line's lock.
func (l *Line) With(f func()) {
	l.mu.Lock()
	defer l.mu.Unlock()
	f()
}

// Requests is how many requests were seen.
func (l *Line) Requests() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.Log)
}

// Problems returns the first deviation seen on the host side.
func (l *Line) Problems() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.Bad) > 0 {
		return l.Bad[0]
	}
	return ""
}

// Readable tells whether the bytes hold an ACK and a well-formed frame (by a
// lenient reading) whose command is the reply to cmd, of whatever size.
func Readable(stream []byte, cmd byte) bool {
	if !bytes.HasPrefix(stream, append(append([]byte(nil), Ack...), esc, cBeg)) {
		return false
	}
	s := stream[4:]
	for i := 0; i+1 < len(s); i++ {
		if s[i] == esc && s[i+1] == cEnd {
			if c, _, ok := ValidBody(s[:i]); ok && c == cmd+1 {
				return true
			}
		}
	}
	return false
}
