package props

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"comfoverif/core"
	"comfoverif/fu"

	"pgregory.net/rapid"
)

// Checks of the built program. They run in real time, against a model unit on
// loopback TCP or on a pseudo terminal. A case is judged violated only if it
// fails three times in a row, so that a stall of the machine raises no alarm.

var portNo = 20000 + os.Getpid()*7%20000

// localIP is a loopback address of this process's own.
func localIP() string {
	p := os.Getpid()
	ip := fmt.Sprintf("127.%d.%d.%d", 1+(p>>16)&0x3F, p>>8&0xFF, 1+p&0x7F)
	l, err := net.Listen("tcp", ip+":0")
	if err != nil {
		return "127.0.0.1"
	}
	l.Close()
	return ip
}

// freeAddr is an address nobody listens on.
func freeAddr() string {
	ip := localIP()
	for range 2000 {
		portNo++
		if portNo > 60000 {
			portNo = 20000
		}
		a := fmt.Sprintf("%s:%d", ip, portNo)
		if l, err := net.Listen("tcp", a); err == nil {
			l.Close()
			return a
		}
	}
	panic("harness: no free port")
}

// target is a unit the program can connect to.
type target struct {
	name string // address or device
	l    *fu.Line
	mu   sync.Mutex
	n    int // connections
	stop []func()
	hang func(how string) // breaks the connection
	tty  *os.File
}

func newTarget(u fu.State) *target {
	t := &target{l: fu.NewLine(fu.NewUnit(u))}
	t.l.Strict = false // in real time nothing is exact
	return t
}

// pump joins a connection and the model's line.
func (t *target) pump(c io.ReadWriteCloser) {
	go func() {
		buf := make([]byte, 4096)
		for {
			n, err := c.Read(buf)
			if n > 0 {
				t.mu.Lock()
				t.n |= 1 << 20 // something arrived
				t.mu.Unlock()
				t.l.Write(append([]byte(nil), buf[:n]...))
			}
			if err != nil {
				return
			}
		}
	}()
	go func() {
		buf := make([]byte, 4096)
		for {
			n, err := t.l.Read(buf)
			if n > 0 {
				c.Write(buf[:n])
			}
			if err == io.ErrClosedPipe {
				return
			}
		}
	}()
}

// tcpTarget listens for the program.
func tcpTarget(u fu.State) *target {
	t := newTarget(u)
	ln, err := net.Listen("tcp", localIP()+":0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	t.name = ln.Addr().String()
	t.stop = append(t.stop, func() { ln.Close() })
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			t.mu.Lock()
			t.n++
			t.stop = append(t.stop, func() { c.Close() })
			first := t.n&0xFFFFF == 1
			if first {
				t.hang = func(how string) {
					switch how {
					case "reset":
						c.(*net.TCPConn).SetLinger(0)
						c.Close()
					case "half":
						c.(*net.TCPConn).CloseWrite()
					default:
						c.Close()
					}
				}
			}
			t.mu.Unlock()
			if first {
				t.pump(c)
			}
		}
	}()
	return t
}

// ptyTarget opens a pseudo terminal.
func ptyTarget(u fu.State) *target {
	t := newTarget(u)
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var no uint32
	var unlock int32
	for _, a := range []struct{ r, p uintptr }{{syscall.TIOCGPTN, uintptr(unsafe.Pointer(&no))}, {syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))}} {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), a.r, a.p); e != 0 {
			panic("harness: pty: " + e.Error())
		}
	}
	t.name = fmt.Sprintf("/dev/pts/%d", no)
	// Keeps the terminal from being hung up before the program opens it.
	s, err := os.OpenFile(t.name, os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	t.stop = append(t.stop, func() { m.Close(); s.Close() })
	t.hang = func(string) { m.Close(); s.Close() }
	t.tty = s
	t.pump(m)
	return t
}

// termios tells what is wrong with the settings of the terminal, the unit's being 9600 baud, 8N1, raw.
func (t *target) termios() string {
	var a syscall.Termios
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, t.tty.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&a))); e != 0 {
		return ""
	}
	const cbaud = 0x100F
	for _, x := range []struct {
		bad  bool
		what string
	}{
		{a.Cflag&cbaud != syscall.B9600, "the speed is not 9600 baud"},
		{a.Cflag&syscall.CSIZE != syscall.CS8, "not 8 data bits"},
		{a.Cflag&syscall.PARENB != 0, "parity"},
		{a.Cflag&syscall.CSTOPB != 0, "two stop bits"},
		{a.Lflag&(syscall.ICANON|syscall.ECHO|syscall.ISIG) != 0, "not raw (line discipline)"},
		{a.Iflag&(syscall.ICRNL|syscall.INLCR|syscall.IGNCR|syscall.IXON|syscall.IXOFF|syscall.ISTRIP) != 0, "not raw (input)"},
		{a.Oflag&syscall.OPOST != 0, "not raw (output)"},
	} {
		if x.bad {
			return "terminal settings: " + x.what
		}
	}
	return ""
}

func (t *target) touched() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.n > 0
}

func (t *target) close() {
	t.l.Close()
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, f := range t.stop {
		f()
	}
}

func (t *target) state() (s fu.State) {
	t.l.With(func() { s = t.l.Unit.State.Clone() })
	return
}

func (t *target) log() (out []fu.Exch) {
	t.l.With(func() {
		for _, e := range t.l.Log {
			out = append(out, *e)
		}
	})
	return
}

// prog is the running program.
type prog struct {
	cmd  *exec.Cmd
	out  *syncBuf
	done chan struct{}
	base string
	hc   *http.Client
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.b.Len() > 1<<20 {
		return len(p), nil
	}
	return s.b.Write(p)
}

func (s *syncBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

func startProg(addr string, args, env []string) *prog {
	p := &prog{out: &syncBuf{}, done: make(chan struct{}), base: "http://" + addr}
	p.cmd = exec.Command(os.Getenv("COMFO_VERIF_BIN"), args...)
	p.cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent"}, env...)
	p.cmd.Dir = filepath.Dir(os.Getenv("COMFO_VERIF_BIN"))
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	go func() {
		p.cmd.Wait()
		close(p.done)
	}()
	p.hc = &http.Client{Timeout: 90 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 4},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	return p
}

func (p *prog) stop() {
	p.cmd.Process.Kill()
	<-p.done
	p.hc.CloseIdleConnections()
}

// exited tells whether the program has ended, waiting up to d for that.
func (p *prog) exited(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

func listening(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, 2*time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

// serving waits until the program listens, or has ended.
func (p *prog) serving(addr string) bool {
	for range 3000 {
		if listening(addr) {
			return true
		}
		if p.exited(10 * time.Millisecond) {
			return false
		}
	}
	return false
}

// call executes an RPC over HTTP.
func (p *prog) call(method string, args map[string]int64, enc string) (r rpcResp) {
	return p.callAs(method, args, enc, 0, 0, "")
}

// pieces is a reader that yields n bytes at a time, a little apart.
type pieces struct {
	b []byte
	n int
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.b[:min(p.n, len(p.b))])
	p.b = p.b[n:]
	time.Sleep(2 * time.Millisecond)
	return n, nil
}

// callAs makes a call with a padded body, sent in pieces, in one of several equivalent forms of HTTP request.
func (p *prog) callAs(method string, args map[string]int64, enc string, pad, cut int, form string) (r rpcResp) {
	var body []byte
	ct := "application/protobuf"
	if enc == "json" {
		body, ct = encodeJSON(methods[method].in, args), "application/json"
		body = append(bytes.Repeat([]byte(" "), pad), body...)
	} else {
		body = encodePB(methods[method].in, args)
		if pad > 0 { // field 1000, length-delimited, first
			x := binary.AppendUvarint(nil, 1000<<3|2)
			x = binary.AppendUvarint(x, uint64(pad))
			body = append(append(x, bytes.Repeat([]byte{0x41}, pad)...), body...)
		}
	}
	var rd io.Reader = bytes.NewReader(body)
	if cut > 0 {
		rd = &pieces{body, max(cut, len(body)/20)}
	}
	rq, _ := http.NewRequest("POST", p.base+"/twirp/comfo.api.Comfo/"+method, rd)
	rq.Header.Set("Content-Type", ct)
	hc := p.hc
	switch form {
	case "charset":
		rq.Header.Set("Content-Type", ct+"; charset=utf-8")
	case "caps":
		rq.Header.Set("Content-Type", strings.ToUpper(ct))
	case "query":
		rq.URL.RawQuery = "a=1&b=%20"
	case "expect":
		rq.Header.Set("Expect", "100-continue")
		hc = &http.Client{Timeout: p.hc.Timeout, Transport: &http.Transport{ExpectContinueTimeout: 20 * time.Second, DisableKeepAlives: true}}
	case "close":
		rq.Close = true
	case "headers":
		for i := range 60 {
			rq.Header.Set(fmt.Sprintf("X-Filler-%d", i), strings.Repeat("x", 200))
		}
		rq.Header.Set("Accept-Encoding", "gzip, br")
		rq.Header.Set("Origin", "http://elsewhere.example")
		rq.Header.Set("Authorization", "Basic eDp5")
	case "http10":
		k, err := net.DialTimeout("tcp", strings.TrimPrefix(p.base, "http://"), 5*time.Second)
		if err != nil {
			return rpcResp{Bad: "no connection: " + err.Error(), msg: methods[method].out}
		}
		defer k.Close()
		k.SetDeadline(time.Now().Add(p.hc.Timeout))
		fmt.Fprintf(k, "POST /twirp/comfo.api.Comfo/%s HTTP/1.0\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n%s", method, ct, len(body), body)
		rs, err := http.ReadResponse(bufio.NewReader(k), nil)
		if err != nil {
			return rpcResp{Bad: "no reply: " + err.Error(), msg: methods[method].out}
		}
		b, err := io.ReadAll(rs.Body)
		if err != nil {
			return rpcResp{Bad: "no complete reply: " + err.Error(), msg: methods[method].out}
		}
		return parseResp(method, enc, rs.StatusCode, rs.Header.Get("Content-Type"), b)
	}
	rs, err := hc.Do(rq)
	if err != nil {
		return rpcResp{Bad: "no reply: " + err.Error(), msg: methods[method].out}
	}
	defer rs.Body.Close()
	b, err := io.ReadAll(rs.Body)
	if err != nil {
		return rpcResp{Bad: "no complete reply: " + err.Error(), msg: methods[method].out}
	}
	return parseResp(method, enc, rs.StatusCode, rs.Header.Get("Content-Type"), b)
}

// crash describes a program that died by itself.
func (p *prog) crash() string {
	s := p.out.String()
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[len(s)-3000:]
	}
	return fmt.Sprintf("the program ended by itself (%v): %s", p.cmd.ProcessState, s)
}

// thrice judges a case by up to three executions.
func thrice(f func() core.Outcome) (o core.Outcome) {
	for i := range 3 {
		if o = f(); o.Violation == "" {
			if i > 0 {
				o.Label("repeated")
			}
			return
		}
	}
	return
}

// --- C25: end to end ---

type e2eStep struct {
	K    string           `json:"k"` // set call
	Cat  byte             `json:"c,omitempty"`
	Data fu.Hex           `json:"d,omitempty"`
	M    string           `json:"m,omitempty"`
	A    map[string]int64 `json:"a,omitempty"`
	J    bool             `json:"j,omitempty"`
	Pad  int              `json:"pad,omitempty"` // white space around the JSON body, or an unknown field in the other
	Cut  int              `json:"cut,omitempty"` // the request's body arrives in pieces of this size
	Ms   int              `json:"ms,omitempty"`
	Form string           `json:"form,omitempty"` // of the HTTP request
	N    int              `json:"n,omitempty"`    // calls made at the same time
}

var forms = []string{"", "", "", "charset", "caps", "query", "expect", "close", "headers", "http10"}

type e2eCase struct {
	Serial bool       `json:"serial"`
	Debug  bool       `json:"debug,omitempty"`
	Unit   fu.State   `json:"unit"`
	Def    []fu.Reply `json:"def"`
	S      []e2eStep  `json:"s"`
	Slow   string     `json:"slow,omitempty"` // lag never silent
}

func runE2E(raw json.RawMessage) core.Outcome {
	c := core.Decode[e2eCase](raw)
	return thrice(func() core.Outcome { return e2eOnce(c) })
}

func e2eOnce(c e2eCase) (o core.Outcome) {
	var t *target
	mode := "tcp"
	if c.Serial {
		t, mode = ptyTarget(c.Unit), "serial"
	} else {
		t = tcpTarget(c.Unit)
	}
	defer t.close()
	silent := false
	n := 0
	t.l.Pick = func(fu.Req, int) fu.Reply {
		if silent {
			return fu.Reply{Kind: "silent"}
		}
		if len(c.Def) == 0 {
			return fu.Reply{Kind: "ok"}
		}
		n++
		return c.Def[n%len(c.Def)]
	}
	addr := freeAddr()
	args := []string{"--mode", mode, "--target", t.name, "--listen", addr}
	if c.Debug {
		args = append(args, "--debug")
	}
	p := startProg(addr, args, nil)
	defer p.stop()
	if !p.serving(addr) {
		o.Failf("not serving: %s", p.out.String())
		return
	}
	o.Label(mode)
	if c.Serial {
		if bad := t.termios(); bad != "" {
			o.Failf("%s", bad)
		}
	}
	form := ""
	show := func(cats ...byte) {
		for _, cat := range cats {
			st := t.state()
			for _, enc := range []string{"pb", "json"} {
				o.Evals++
				r := p.callAs(getterOf[cat], nil, enc, 0, 0, form)
				if w, _ := rpcText(cat, *st.Field(cat)); r.Text() != w {
					o.Failf("%s (%s) returned %q, the unit holds %q", getterOf[cat], enc, r, w)
				}
			}
		}
	}
	show(categories...)
	for i, st := range c.S {
		if o.Violation != "" {
			break
		}
		form = st.Form
		switch st.K {
		case "wait":
			time.Sleep(ms(st.Ms))
			show(categories...)
		case "par":
			// Many calls at once: each gets the reply to itself.
			now := t.state()
			var wg sync.WaitGroup
			bad := make([]string, st.N)
			for j := range st.N {
				wg.Add(1)
				o.Evals++
				go func() {
					defer wg.Done()
					enc := encOf((i+j)%2 == 0)
					if j%7 == 3 {
						if r := p.callAs("FlushCache", map[string]int64{"Cache": flushAll}, enc, 0, 0, st.Form); !r.OK || r.F["Success"] != "true" {
							bad[j] = fmt.Sprintf("one of %d concurrent calls, FlushCache, returned %v %s", st.N, r, r.Bad)
						}
						return
					}
					cat := categories[(i+j)%len(categories)]
					r := p.callAs(getterOf[cat], nil, enc, 0, 0, st.Form)
					if w, _ := rpcText(cat, *now.Field(cat)); r.Text() != w {
						bad[j] = fmt.Sprintf("one of %d concurrent calls, %s, returned %q %s, the unit holds %q", st.N, getterOf[cat], r, r.Bad, w)
					}
				}()
			}
			wg.Wait()
			for _, b := range bad {
				if b != "" {
					o.Failf("%s", b)
				}
			}
			o.Label("concurrent calls")
		case "set":
			t.l.With(func() { *t.l.Unit.Field(st.Cat) = append(fu.Hex(nil), st.Data...) })
			a := int64(flushAll)
			if v, ok := flushArg[st.Cat]; ok && i%2 == 0 {
				a = v
			}
			if r := p.call("FlushCache", map[string]int64{"Cache": a}, encOf(st.J)); !r.OK || r.F["Success"] != "true" {
				o.Failf("flush failed although the unit answers everything: %v", r)
			}
			show(st.Cat)
		case "call":
			o.Evals++
			before := t.state()
			mark := t.l.Requests()
			r := p.callAs(st.M, st.A, encOf(st.J), st.Pad, st.Cut, st.Form)
			if r.Bad != "" {
				o.Failf("%s(%s): %s", st.M, argText(st.A), r.Bad)
				break
			}
			var sets []fu.Exch
			for _, e := range t.log()[mark:] {
				if !e.IsGet {
					sets = append(sets, e)
				}
			}
			sp := setters[st.M]
			pl := sp.plan(*before.Field(sp.cache), st.A)
			if pl.cmd == fu.CSetProf {
				pl.data = profData(before.Prof, int(st.A["Mode"])-1, byte(pl.tgt))
			}
			want := fu.NewUnit(before)
			d := fmt.Sprintf("%s(%s) with %s returned %v", st.M, argText(st.A), sp.cacheText(*before.Field(sp.cache)), r)
			switch {
			case pl.refuse:
				if r.OK || pl.invalid && r.Code != "invalid_argument" || len(sets) > 0 {
					o.Failf("%s, must be refused; requests: %v", d, sets)
				}
				o.Label("refused")
			case pl.cmd == 0:
				if !r.OK || r.F["Modified"] != "false" || len(sets) > 0 || r.F[sp.tgt] != fmt.Sprint(pl.tgt) {
					o.Failf("%s, must be unmodified; requests: %v", d, sets)
				}
				o.Label("unmodified")
			default:
				want.Apply(fu.Req{Cmd: pl.cmd, Data: pl.data})
				if !r.OK || r.F["Modified"] != "true" || r.F[sp.tgt] != fmt.Sprint(pl.tgt) || !pl.origOpen && r.F[sp.orig] != fmt.Sprint(pl.orig) {
					o.Failf("%s, must be modified, original %d, target %d", d, pl.orig, pl.tgt)
				}
				if len(sets) != 1 || sets[0].Cmd != pl.cmd || !bytes.Equal(sets[0].Data, pl.data) {
					o.Failf("%s, must send %#02x %x once; requests: %v", d, pl.cmd, []byte(pl.data), sets)
				}
				o.Label("modified")
				o.NonTrivial = true
			}
			after := t.state()
			a, b := want.State.Clone(), after.Clone()
			a.Fans, b.Fans = nil, nil
			if !a.Equal(b) {
				o.Failf("%s: the unit's state became %+v, must be %+v", d, b, a)
			}
			show(sp.cache)
			if st.M == "SetFanSpeed" && r.OK {
				show(fu.CFans)
			}
		}
	}
	if o.Violation == "" && c.Slow != "" { // every call gets its reply, however long it takes
		o.NonTrivial = true
		o.Label("slow " + c.Slow)
		tgt := int64(c.Unit.Prof[8])%4 + 1
		switch c.Slow {
		case "lag", "never":
			t.l.With(func() {
				m := int(tgt) - 1
				t.l.Unit.Fans[0], t.l.Unit.Fans[1] = t.l.Unit.In(m)+1, t.l.Unit.Out(m)+1
				t.l.Unit.LagIn, t.l.Unit.LagOut = 8, 8
				t.l.Unit.NoFollow = c.Slow == "never"
			})
			r := p.call("SetFanSpeed", map[string]int64{"Abs": tgt}, encOf(c.Serial))
			if r.Bad != "" || r.OK == (c.Slow == "never") {
				o.Failf("a speed change the fans follow (%s) returned %v %s", c.Slow, r, r.Bad)
			}
		case "silent":
			t.l.With(func() { silent = true })
			r := p.call("FlushCache", map[string]int64{"Cache": flushAll}, encOf(c.Serial))
			if !r.OK || r.F["Success"] != "false" {
				o.Failf("a flush of an unresponsive unit returned %v %s", r, r.Bad)
			}
			t.l.With(func() { silent = false })
			time.Sleep(1100 * time.Millisecond)
			if r := p.call("FlushCache", map[string]int64{"Cache": flushAll}, encOf(c.Serial)); !r.OK || r.F["Success"] != "true" {
				o.Failf("a flush after the unit's silence returned %v %s", r, r.Bad)
			}
			show(categories...)
		}
	}
	if p.exited(0) {
		o.Failf("%s", p.crash())
	}
	if pr := t.l.Problems(); pr != "" {
		o.Failf("%s", pr)
	}
	return
}

func gE2E(t *rapid.T) any {
	c := e2eCase{Serial: rapid.Bool().Draw(t, "serial"), Unit: gUnitRange(t, "u"), Debug: rapid.IntRange(0, 3).Draw(t, "debug") == 0}
	for k := rapid.IntRange(0, 3).Draw(t, "nd"); k > 0; k-- {
		r := fu.Reply{Kind: "ok", Delay: rapid.IntRange(0, 3).Draw(t, "d")}
		r.Cuts, r.Gaps = gCuts(t, "cuts", 30, 12)
		c.Def = append(c.Def, r)
	}
	for k := rapid.IntRange(2, 10).Draw(t, "n"); k > 0; k-- {
		st := e2eStep{J: rapid.Bool().Draw(t, "j"), Form: rapid.SampledFrom(forms).Draw(t, "form")}
		switch x := rapid.IntRange(0, 6).Draw(t, "k"); x {
		case 6:
			st.K, st.N = "par", rapid.SampledFrom([]int{2, 8, 40}).Draw(t, "par")
		case 0, 1, 2:
			st.K, st.M = "call", []string{"SetFanSpeed", "SetComfortTemp", "SetFanProfile"}[x]
			st.Pad = rapid.SampledFrom([]int{0, 0, 0, 10, 600, 5000}).Draw(t, "pad")
			st.Cut = rapid.SampledFrom([]int{0, 0, 0, 1, 7}).Draw(t, "cut")
			switch x {
			case 0:
				st.A = gSpeedArgs(t)
			case 1:
				st.A = map[string]int64{"ComfortTemp": gU32(t, "ct", 0, 107)}
			case 2:
				st.A = map[string]int64{"Mode": gU32(t, "m", 1, 4), "TargetSpeed": gU32(t, "ts", 15, 100)}
			}
		default:
			st.K, st.Cat = "set", gCat(t, "cat")
			st.Data = gField(t, "data", st.Cat)
			if st.Cat == fu.CProf {
				u := gUnitRange(t, "prof")
				st.Data = u.Prof
			}
		}
		c.S = append(c.S, st)
	}
	return c
}

func fixedE2E(tier string) (out []any) {
	u := e2eUnit(1)
	// connections that live longer than any time-out set once, and quiet stretches
	for _, ser := range []bool{false, true} {
		wait, n := 12500, 1
		if tier == "thorough" {
			wait, n = 65000, 2
		}
		c := e2eCase{Serial: ser, Unit: u}
		for i := range n {
			c.S = append(c.S, e2eStep{K: "wait", Ms: wait})
			next := e2eUnit(byte(i) + 2)
			for _, cat := range categories {
				c.S = append(c.S, e2eStep{K: "set", Cat: cat, Data: *next.Field(cat)})
			}
			c.S = append(c.S, e2eStep{K: "call", M: "SetFanSpeed", A: map[string]int64{"Abs": int64(i) + 3}}, e2eStep{K: "call", M: "SetComfortTemp", A: map[string]int64{"ComfortTemp": 25}})
		}
		out = append(out, c)
	}
	for _, pad := range []int{0, 511, 512, 513, 4096, 70000} {
		for _, j := range []bool{false, true} {
			c := e2eCase{Debug: pad != 4096, Unit: u}
			for _, cut := range []int{0, 100} {
				c.S = append(c.S, e2eStep{K: "call", M: "SetComfortTemp", A: map[string]int64{"ComfortTemp": int64(22 + cut/50)}, J: j, Pad: pad, Cut: cut})
			}
			out = append(out, c)
		}
	}
	for _, slow := range []string{"lag", "never", "silent"} {
		for _, ser := range []bool{false, true} {
			out = append(out, e2eCase{Serial: ser, Unit: u, Slow: slow})
		}
	}
	return
}

// e2eUnit is an ordinary unit, marked by its name and temperatures.
func e2eUnit(n byte) fu.State {
	return fu.State{
		Temps:  fu.Hex{80 + n, 61, 70, 82, 66, 0, 60, 58, 20},
		Bypass: fu.Hex{0, 0, 10, 20, n, 0, 1},
		Fans:   fu.Hex{35, 36, 4, 0x57, 4, 0x60},
		Hours:  make(fu.Hex, 20),
		Boot:   append(fu.Hex{1, 2, n}, fmt.Sprintf("Unit %d    ", n)[:10]...),
		Firm:   append(fu.Hex{3, 4, n}, "CA350     "...),
		Prof:   fu.Hex{15, 35, 50, 16, 36, 51, 35, 36, 2, 1, 70, 71, 0, 0},
		Errs:   make(fu.Hex, 17),
	}
}

// --- C26: malformed requests ---

type badReq struct {
	How   string `json:"how"`
	M     string `json:"m,omitempty"`
	Path  string `json:"p,omitempty"`
	CType string `json:"ct,omitempty"`
	Body  fu.Hex `json:"b,omitempty"`
	Raw   fu.Hex `json:"raw,omitempty"` // bytes on the connection instead
}

type badCase struct {
	Unit fu.State `json:"unit"`
	R    []badReq `json:"r"`
	J    bool     `json:"j"`
}

func runC26(raw json.RawMessage) core.Outcome {
	c := core.Decode[badCase](raw)
	return thrice(func() core.Outcome { return badOnce(c) })
}

func badOnce(c badCase) (o core.Outcome) {
	t := tcpTarget(c.Unit)
	defer t.close()
	addr := freeAddr()
	p := startProg(addr, []string{"--mode=tcp", "--target=" + t.name, "--listen=" + addr}, nil)
	defer p.stop()
	if !p.serving(addr) {
		o.Failf("not serving: %s", p.out.String())
		return
	}
	begin := time.Now()
	mark := t.l.Requests()
	init := t.state()
	for _, b := range c.R {
		o.Evals++
		o.Label(b.How)
		if len(b.Raw) > 0 {
			status, err := rawHTTP(addr, b.Raw)
			if err == nil && (status < 400 || status > 499) {
				o.Failf("%s: %q got status %d", b.How, []byte(b.Raw), status)
			}
		} else {
			rq, err := http.NewRequest(b.M, p.base+b.Path, bytes.NewReader(b.Body))
			if err != nil {
				panic("harness: " + err.Error())
			}
			if b.CType != "" {
				rq.Header.Set("Content-Type", b.CType)
			}
			rs, err := p.hc.Do(rq)
			if err != nil {
				o.Failf("%s: %s %s (%s) %x got no reply: %v", b.How, b.M, b.Path, b.CType, []byte(b.Body), err)
				break
			}
			io.Copy(io.Discard, rs.Body)
			rs.Body.Close()
			if rs.StatusCode < 400 || rs.StatusCode > 499 {
				o.Failf("%s: %s %s (%s) %x %q got status %d", b.How, b.M, b.Path, b.CType, []byte(b.Body), []byte(b.Body), rs.StatusCode)
			}
		}
		if o.Violation != "" {
			break
		}
	}
	for _, e := range t.log()[mark:] {
		// Only the background refresh of these two is due so soon.
		if (e.Cmd == fu.CTemps || e.Cmd == fu.CFans) && e.IsGet && time.Since(begin) > 4*time.Second {
			continue
		}
		o.Failf("a malformed request made the service send %#02x %x to the unit", e.Cmd, []byte(e.Data))
	}
	if !t.state().Equal(init) {
		o.Failf("a malformed request changed the unit")
	}
	for _, cat := range categories {
		w, _ := rpcText(cat, *init.Field(cat))
		if r := p.call(getterOf[cat], nil, encOf(c.J)); r.Text() != w {
			o.Failf("after malformed requests, %s returned %q, the unit holds %q", getterOf[cat], r, w)
		}
	}
	tgt := int64(init.Prof[8])%4 + 1
	if r := p.call("SetFanSpeed", map[string]int64{"Abs": tgt}, encOf(c.J)); !r.OK || int64(t.state().Prof[8]) != tgt {
		o.Failf("after malformed requests, SetFanSpeed(%d) returned %v; the unit's speed is %d", tgt, r, t.state().Prof[8])
	}
	if p.exited(0) {
		o.Violation = p.crash()
	}
	if pr := t.l.Problems(); pr != "" {
		o.Failf("%s", pr)
	}
	o.NonTrivial = true
	return
}

// rawHTTP sends bytes on a connection of their own and gives the reply's status.
func rawHTTP(addr string, b []byte) (int, error) {
	c, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return 0, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(10 * time.Second))
	if _, err := c.Write(b); err != nil {
		return 0, err
	}
	c.(*net.TCPConn).CloseWrite()
	rs, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return 0, err
	}
	rs.Body.Close()
	return rs.StatusCode, nil
}

const twirpPath = "/twirp/comfo.api.Comfo/"

// gBadPB draws bytes that are no protobuf message: well-formed fields, then a flaw.
func gBadPB(t *rapid.T, msg string) (b fu.Hex) {
	for k := rapid.IntRange(0, 2).Draw(t, "pre"); k > 0; k-- {
		n := uint64(rapid.IntRange(1, 9).Draw(t, "num"))
		switch rapid.IntRange(0, 2).Draw(t, "wt") {
		case 0:
			b = uvarint(uvarint(b, n<<3), uint64(rapid.Uint32().Draw(t, "v")))
		case 1:
			b = append(uvarint(b, n<<3|5), 1, 2, 3, 4)
		default:
			b = append(uvarint(uvarint(b, (n+20)<<3|2), 2), 'a', 'b')
		}
	}
	tag := func(wt uint64) { b = uvarint(b, uint64(rapid.IntRange(1, 2000).Draw(t, "tag"))<<3|wt) }
	switch rapid.IntRange(0, 10).Draw(t, "flaw") {
	case 0:
		tag(0)
	case 1:
		b = append(uvarint(b, 1<<3), 0x80)
	case 2: // a varint without end
		b = uvarint(b, 1<<3)
		for k := rapid.IntRange(1, 9).Draw(t, "cont"); k > 0; k-- {
			b = append(b, 0xFF)
		}
	case 3: // a varint too long
		b = append(uvarint(b, 1<<3), bytes.Repeat([]byte{0xFF}, 11)...)
	case 4: // a length past the end
		tag(2)
		n := rapid.IntRange(1, 100000).Draw(t, "len")
		b = append(uvarint(b, uint64(n)), bytes.Repeat([]byte{'x'}, rapid.IntRange(0, min(n-1, 40)).Draw(t, "have"))...)
	case 5:
		tag(5)
		b = append(b, bytes.Repeat([]byte{1}, rapid.IntRange(0, 3).Draw(t, "have"))...)
	case 6:
		tag(1)
		b = append(b, bytes.Repeat([]byte{1}, rapid.IntRange(0, 7).Draw(t, "have"))...)
	case 7: // field number zero
		b = append(b, 0x00, 0x01)
	case 8: // unknown wire types
		tag(uint64(rapid.IntRange(6, 7).Draw(t, "wt67")))
		b = append(b, 1)
	case 9: // the end of a group that was not begun
		tag(4)
	case 10: // a group that is not ended
		tag(3)
	}
	return
}

// gBadJSON draws text that is no JSON object for the message.
func gBadJSON(t *rapid.T, msg string) fu.Hex {
	f := messages[msg]
	if len(f) == 0 || rapid.IntRange(0, 2).Draw(t, "syntax") == 0 {
		s := rapid.SampledFrom([]string{"", " ", "{", "[]", "1", `"x"`, "{]", `{"a"`, `{"a":`, `{"a":1`, `{"a" 1}`, "tru", "true", "[{}]", "{'a':1}", "\xff", "\x00", "<a/>", "a=1&b=2", `{"a":01}`, `{,}`, `{"a":1,}`, `{"a":"\x"}`}).Draw(t, "js")
		if len(f) > 0 {
			s = strings.ReplaceAll(s, `"a"`, `"`+f[0].Name+`"`)
		}
		return fu.Hex(s)
	}
	x := f[rapid.IntRange(0, len(f)-1).Draw(t, "field")]
	var v string
	switch x.Kind {
	case 'u':
		v = rapid.SampledFrom([]string{"-1", "1.5", "4294967296", "18446744073709551617", "1e30", "-2147483648", `"x"`, `""`, "true", "{}", "[1]", `"1.5"`, `"-1"`, "0.1"}).Draw(t, "v")
	case 'b':
		v = rapid.SampledFrom([]string{"0", "1", `"true"`, `"false"`, "{}", "[true]", "1.5"}).Draw(t, "v")
	case 'e':
		v = rapid.SampledFrom([]string{"1.5", "{}", "[0]", "true", "false", "2147483648", "-2147483649", "1e30", `{"Cache":10}`}).Draw(t, "v")
	}
	return fu.Hex(fmt.Sprintf(`{"%s":%s}`, x.Name, v))
}

func gC26(t *rapid.T) any {
	c := badCase{Unit: gUnitRange(t, "u"), J: rapid.Bool().Draw(t, "j")}
	for m := 0; m < 4; m++ { // so that the final speed change is confirmed
		c.Unit.SetInOut(m, byte(20+m), byte(30+m))
	}
	var names []string
	for _, m := range []string{"GetTemps", "GetBootInfo", "GetFans", "SetFanSpeed", "SetComfortTemp", "SetFanProfile", "FlushCache", "SetFanSpeed", "SetComfortTemp", "SetFanProfile", "FlushCache"} {
		names = append(names, m)
	}
	good := map[string]map[string]int64{"SetFanSpeed": {"Abs": 3}, "SetComfortTemp": {"ComfortTemp": 19}, "SetFanProfile": {"Mode": 2, "TargetSpeed": 44}, "FlushCache": {"Cache": 10}}
	for k := rapid.IntRange(5, 60).Draw(t, "n"); k > 0; k-- {
		m := rapid.SampledFrom(names).Draw(t, "m")
		j := rapid.Bool().Draw(t, "enc")
		b := badReq{M: "POST", Path: twirpPath + m, CType: "application/protobuf", Body: encodePB(methods[m].in, good[m])}
		if j {
			b.CType, b.Body = "application/json", encodeJSON(methods[m].in, good[m])
		}
		switch rapid.IntRange(0, 6).Draw(t, "how") {
		case 0:
			b.How = "path"
			b.Path = rapid.SampledFrom([]string{"/", "/" + m, "/twirp/" + m, "/twirp/comfo.Comfo/" + m, "/twirp/comfo.api/" + m, "/comfo.api.Comfo/" + m, "/twirp/comfo.api.comfo/" + m,
				twirpPath + m + "x", twirpPath + strings.ToLower(m), twirpPath + m[1:], twirpPath, twirpPath + m + "/x", "/api" + twirpPath + m, twirpPath + "Reset", twirpPath + m + "%20", "/favicon.ico", twirpPath + m + "/" + m,
				twirpPath + m + "/", twirpPath + m + "/?", "/twirp/comfo.api.Comfo." + m, "/TWIRP/comfo.api.Comfo/" + m, twirpPath + m + ".json", twirpPath + m + "%2F", twirpPath + m + ";x", "/x" + twirpPath + m, "/twirp" + twirpPath + m}).Draw(t, "path")
		case 1:
			b.How = "method"
			b.M = rapid.SampledFrom([]string{"GET", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "post", "FOO"}).Draw(t, "method")
		case 2:
			b.How = "content type"
			b.CType = rapid.SampledFrom([]string{"", "text/plain", "application/xml", "application/x-www-form-urlencoded", "application/grpc", "json", "protobuf", "application", "application/", "*/*", "application/protobufx", "multipart/form-data; boundary=x"}).Draw(t, "ct")
		case 3, 4:
			b.How, b.CType, b.Body = "protobuf", "application/protobuf", gBadPB(t, methods[m].in)
		case 5:
			b.How, b.CType, b.Body = "json", "application/json", gBadJSON(t, methods[m].in)
		case 6:
			b = badReq{How: "raw"}
			head := fmt.Sprintf("POST %s%s HTTP/1.1\r\nHost: x\r\nContent-Type: application/protobuf\r\nContent-Length: ", twirpPath, m)
			switch rapid.IntRange(0, 5).Draw(t, "rawk") {
			case 0:
				b.Raw = gBytes(t, "raw", 1, 60)
				for i := range b.Raw { // whatever it is, no request line
					if b.Raw[i] == ' ' {
						b.Raw[i] = '_'
					}
				}
			case 1: // cut off in its head
				b.Raw = fu.Hex(head)
				b.Raw = b.Raw[:rapid.IntRange(1, len(b.Raw)).Draw(t, "cut")]
			case 2: // the body ends early
				b.Raw = fu.Hex(head + "9\r\n\r\n\x08\x02")
			case 3:
				b.Raw = fu.Hex(head + "-1\r\n\r\n")
			case 4:
				b.Raw = fu.Hex(head + "2\r\nContent-Length: 3\r\n\r\n\x08\x02\x08")
			case 5:
				b.Raw = fu.Hex(head + "x\r\n\r\n\x08\x02")
			}
		}
		c.R = append(c.R, b)
	}
	return c
}

// --- C27: configuration ---

type cfgVal struct {
	Flag string `json:"f,omitempty"` // the value given by flag
	FSet bool   `json:"fs,omitempty"`
	Eq   bool   `json:"eq,omitempty"` // --flag=value
	Env  string `json:"e,omitempty"`
	ESet bool   `json:"es,omitempty"`
	Bare string `json:"b,omitempty"` // value of the variable without prefix, which means nothing
}

type cfgCase struct {
	Mode, Target, Listen, Debug cfgVal
	Defaults                    bool `json:"defaults,omitempty"` // nothing but the unit's whereabouts is given
}

func (v cfgVal) eff(def string) string {
	if v.FSet {
		return v.Flag
	}
	if v.ESet {
		return v.Env
	}
	return def
}

func runC27(raw json.RawMessage) core.Outcome {
	c := core.Decode[cfgCase](raw)
	return thrice(func() core.Outcome { return cfgOnce(c) })
}

func cfgOnce(c cfgCase) (o core.Outcome) {
	dir, err := os.MkdirTemp("", "comfocfg")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	os.WriteFile(dir+"/file", []byte("x"), 0o600)
	units := map[string]*target{}
	names := map[string]string{"@dir": dir, "@file": dir + "/file", "@none": dir + "/none", "@refused": freeAddr(), "@noport": localIP(), "@badport": localIP() + ":99999"}
	// Names beginning with @ stand for things made for this run.
	res := func(s string) string {
		switch s {
		case "@tcp1", "@tcp2", "@tcp3":
			if units[s] == nil {
				units[s] = tcpTarget(e2eUnit(s[4] - '0'))
			}
			return units[s].name
		case "@pty1", "@pty2":
			if units[s] == nil {
				units[s] = ptyTarget(e2eUnit(s[4] - '0' + 3))
			}
			return units[s].name
		case "@l1", "@l2", "@l3":
			if names[s] == "" {
				names[s] = freeAddr()
			}
		}
		if n, ok := names[s]; ok {
			return n
		}
		return s
	}
	defer func() {
		for _, u := range units {
			u.close()
		}
	}()
	var args, env []string
	for _, k := range []struct {
		n string
		v cfgVal
	}{{"mode", c.Mode}, {"target", c.Target}, {"listen", c.Listen}, {"debug", c.Debug}} {
		if k.v.FSet {
			switch {
			case k.n == "debug" && k.v.Flag == "true" && !k.v.Eq:
				args = append(args, "--debug")
			case k.v.Eq || k.n == "debug":
				args = append(args, "--"+k.n+"="+res(k.v.Flag))
			default:
				args = append(args, "--"+k.n, res(k.v.Flag))
			}
		}
		if k.v.ESet {
			env = append(env, "COMFO_"+strings.ToUpper(k.n)+"="+res(k.v.Env))
		}
		if k.v.Bare != "" {
			env = append(env, strings.ToUpper(k.n)+"="+res(k.v.Bare))
		}
	}
	mode, tgt, listen := c.Mode.eff("serial"), c.Target.eff("/dev/ttyUSB0"), c.Listen.eff("[::]:3094")
	debug := map[string]bool{"true": true, "1": true, "t": true, "TRUE": true, "True": true}[c.Debug.eff("false")]
	if tgt == "/dev/ttyUSB0" {
		if _, err := os.Stat(tgt); err == nil {
			o.Inconclusive = tgt + " exists here"
			return
		}
	}
	works := mode == "tcp" && strings.HasPrefix(tgt, "@tcp") || mode == "serial" && strings.HasPrefix(tgt, "@pty")
	dial := res(listen)
	if listen == "[::]:3094" {
		dial = "127.0.0.1:3094"
		if listening(dial) {
			o.Inconclusive = "port 3094 is in use"
			return
		}
	}
	p := startProg(dial, args, env)
	defer p.stop()
	d := fmt.Sprintf("started with arguments %q and environment %q", args, env)
	o.NonTrivial = true
	if works {
		o.Label("works " + mode)
		if !p.serving(dial) {
			if l, err := net.Listen("tcp", ":3094"); listen == "[::]:3094" && err != nil {
				o.Inconclusive = "port 3094 is in use"
				return
			} else if err == nil {
				l.Close()
			}
			o.Failf("%s: must serve on %s, but does not: %s", d, res(listen), p.out.String())
			return
		}
		st := units[tgt].state()
		w, _ := rpcText(fu.CBoot, st.Boot)
		if r := p.call("GetBootInfo", nil, "json"); r.Text() != w {
			o.Failf("%s: must serve the unit at %s (%s), but GetBootInfo returned %q", d, res(tgt), w, r.Text()+r.Bad)
		}
		if listen == "[::]:3094" {
			o.Label("default listen address")
			if !listening("127.0.0.2:3094") {
				o.Failf("%s: must listen on all addresses", d)
			}
			if l, err := net.Listen("tcp", "[::1]:0"); err == nil {
				l.Close()
				if !listening("[::1]:3094") {
					o.Failf("%s: must listen on all addresses, including IPv6", d)
				}
			}
		}
		for _, k := range []string{"@l1", "@l2", "@l3"} {
			if a := names[k]; a != "" && k != listen && listening(a) {
				o.Failf("%s: must listen on %s, but listens on %s", d, res(listen), a)
			}
		}
	} else {
		o.Label("fails")
		if !p.exited(30 * time.Second) {
			o.Failf("%s: must exit, since mode is %q and target %q, but goes on: %s", d, mode, res(tgt), p.out.String())
			return
		}
		if p.cmd.ProcessState.ExitCode() == 0 {
			o.Failf("%s: must exit with a non-zero status", d)
		}
		if strings.HasPrefix(listen, "@") && listening(res(listen)) {
			panic("harness: somebody else listens")
		}
		if (mode == "serial" || mode == "tcp") && tgt == "/dev/ttyUSB0" && !strings.Contains(p.out.String(), tgt) {
			o.Failf("%s: must try %s: %s", d, tgt, p.out.String())
		}
	}
	for k, u := range units {
		if u.touched() != (works && k == tgt) && !(k == tgt) {
			o.Failf("%s: must use the unit at %s in mode %s, but connected to %s", d, res(tgt), mode, u.name)
		}
	}
	if got := strings.Contains(p.out.String(), "level=DEBUG"); got != debug {
		o.Failf("%s: debug logging is %v, must be %v: %s", d, got, debug, p.out.String())
	}
	if debug {
		o.Label("debug")
	}
	return
}

func gCfg(t *rapid.T, l string, flags, envs []string) (v cfgVal) {
	switch rapid.IntRange(0, 4).Draw(t, l+"how") {
	case 0, 1:
		v.FSet = true
	case 2:
		v.ESet = true
	case 3:
		v.FSet, v.ESet = true, true
	}
	if v.FSet {
		v.Flag, v.Eq = rapid.SampledFrom(flags).Draw(t, l+"f"), rapid.Bool().Draw(t, l+"eq")
	}
	if v.ESet {
		v.Env = rapid.SampledFrom(envs).Draw(t, l+"e")
	}
	if rapid.IntRange(0, 3).Draw(t, l+"bare") == 0 {
		v.Bare = rapid.SampledFrom(envs).Draw(t, l+"b")
	}
	return
}

func gC27(t *rapid.T) any {
	var c cfgCase
	modes := []string{"tcp", "tcp", "tcp", "serial", "serial", "udp", "tcp4", "usb", "serial ", "x"}
	c.Mode = gCfg(t, "mode", modes, modes)
	// Mostly targets that suit the mode.
	tg := func(l string) []string {
		switch m := c.Mode.eff("serial"); {
		case rapid.IntRange(0, 3).Draw(t, l) == 0:
			return []string{"@dir", "@file", "@none", "@refused", "@noport", "@badport", "@pty1", "@tcp1"}
		case m == "serial":
			return []string{"@pty1", "@pty2"}
		}
		return []string{"@tcp1", "@tcp2", "@tcp3"}
	}
	f, e := tg("tf"), tg("te")
	c.Target = gCfg(t, "target", f, e)
	c.Listen = gCfg(t, "listen", []string{"@l1", "@l2"}, []string{"@l2", "@l3"})
	if !c.Listen.FSet && !c.Listen.ESet { // the default port is another check's
		c.Listen.ESet, c.Listen.Env = true, "@l1"
	}
	c.Debug = gCfg(t, "debug", []string{"true", "true", "false"}, []string{"true", "1", "t", "TRUE", "True", "false", "0", "f", "FALSE"})
	return c
}

func fixedC27(string) (out []any) {
	u := cfgVal{FSet: true, Flag: "@tcp1"}
	p := cfgVal{ESet: true, Env: "@pty1"}
	return []any{
		cfgCase{Mode: cfgVal{FSet: true, Flag: "tcp"}, Target: u},
		cfgCase{Mode: cfgVal{ESet: true, Env: "tcp"}, Target: u, Debug: cfgVal{ESet: true, Env: "1"}},
		cfgCase{Target: p},
		cfgCase{Target: p, Debug: cfgVal{FSet: true, Flag: "true"}},
		cfgCase{},
		cfgCase{Mode: cfgVal{FSet: true, Flag: "tcp"}},
		cfgCase{Mode: cfgVal{Bare: "tcp"}, Target: cfgVal{Bare: "@tcp1"}, Listen: cfgVal{Bare: "@l1"}, Debug: cfgVal{Bare: "true"}},
	}
}

func init() {
	core.Register(&core.Check{
		Prop: "C25", Name: "e2e", Mode: core.Real, Quick: 600, Thorough: 12000, VirtualLimit: 200 * time.Second, Fixed: fixedE2E,
		Rule: "the built program with a model unit on loopback TCP or a pseudo terminal: unit states of any bytes, answers cut into pieces, 2-10 steps of unit changes with flush, setter calls, and 2-40 concurrent calls, in both encodings and several forms of HTTP request (charset, capitals, query, HTTP/1.0, Expect, chunks, many headers); the terminal settings; enumerated: speed changes confirmed late or never, and flushes of a silent unit, on both transports. Oracle: getters equal the unit's state; setters by the same pure functions as C17, C19 and C20; the unit's state and requests. Violated only if three executions fail. Non-trivial: a setter changed the unit",
		Run:  runE2E, Gen: gE2E,
	})
	core.Register(&core.Check{
		Prop: "C26", Name: "malformed", Mode: core.Real, Quick: 3000, Thorough: 60000, VirtualLimit: 200 * time.Second,
		Rule: "5-60 malformed requests to the built program: wrong path, method, content type, protobuf with truncated or impossible fields, JSON with syntax or type errors, raw bytes and cut connections. Oracle: 4xx each, nothing sent to the unit, then all getters and a speed change work. Non-trivial: all",
		Run:  runC26, Gen: gC26,
	})
	core.Register(&core.Check{
		Prop: "C27", Name: "config", Mode: core.Real, Quick: 3000, Thorough: 100000, VirtualLimit: 200 * time.Second,
		Rule: "each setting by flag (both spellings), environment, both, or neither, also variables without prefix; TCP and serial units, wrong kinds of targets, unknown modes. Oracle: reference resolution; which unit is served, on which address, debug lines, exit status. Non-trivial: all",
		Run:  runC27, Gen: gC27,
	})
	core.Register(&core.Check{
		Prop: "C27", Name: "defaults", Mode: core.Real, Serial: true, VirtualLimit: 200 * time.Second, Fixed: fixedC27,
		Rule: "enumerated: default listen address, mode and target. Oracle and rule as for config",
		Run:  runC27,
	})
}
