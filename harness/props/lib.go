package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"runtime"
	"slices"
	"time"

	"comfoverif/core"
	"comfoverif/fu"

	"github.com/ti-mo/comfo/libcomfo"
	"pgregory.net/rapid"
)

// --- C04: a read yields data only from a complete, valid, matching reply ---

type exCase struct {
	Unit fu.State   `json:"unit"`
	Op   LibOp      `json:"op"`
	R    []fu.Reply `json:"r"`
}

// received is what reached the host in time, and whether it is certain which
// side of the time-out every piece fell on.
func received(r fu.Reply, stream []byte) (got []byte, ended, clear bool) {
	if r.Kind == "silent" || r.Kind == "werr" {
		return nil, false, true
	}
	t := 0
	rest := stream
	clear = true
	for i := 0; i == 0 || len(rest) > 0; i++ {
		if i == 0 {
			t += r.Delay
		} else if i-1 < len(r.Gaps) {
			t += r.Gaps[i-1]
		}
		n := len(rest)
		if i < len(r.Cuts) && r.Cuts[i] < n {
			n = r.Cuts[i]
		}
		if t > 900 && t < 1100 {
			return nil, false, false
		}
		if t >= 1100 {
			return got, false, true
		}
		got = append(got, rest[:n]...)
		rest = rest[n:]
	}
	return got, r.End != "", true
}

func runC04(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[exCase](raw)
	l := fu.NewLine(fu.NewUnit(c.Unit))
	defer l.Close()
	l.Script = c.R
	l.Default = fu.Reply{Kind: "silent"}
	cmd := opCmd[c.Op.Op]
	r := c.R[0]
	text, err := c.Op.Do(l)
	time.Sleep(ms(50))
	l.With(func() {
		if len(l.Log) != 1 {
			o.Failf("%d requests were written for one read", len(l.Log))
			return
		}
		e := l.Log[0]
		stream, ended, clear := received(r, e.Stream)
		_ = ended
		if !clear {
			o.Label("at the time-out")
			return
		}
		payload, must, fail := fu.Judge(stream, cmd, true)
		if r.Kind == "werr" {
			must, fail = false, true
		}
		if must {
			want, bad := fu.Text(cmd, payload)
			switch {
			case bad && err == nil:
				o.Failf("%s returned %s from the undecodable payload %x", c.Op.Op, text, payload)
			case !bad && err != nil:
				o.Failf("%s failed (%v) although the unit answered %x", c.Op.Op, err, stream)
			case !bad && text != want:
				o.Failf("%s returned %s, the unit sent %s", c.Op.Op, text, want)
			}
			if e.Acks != 1 {
				o.Failf("%d ACKs after a valid reply to %s", e.Acks, c.Op.Op)
			}
			o.Label("valid reply")
			return
		}
		if !fail {
			o.Label("left open")
			return
		}
		o.Label("bad: " + r.Kind)
		o.NonTrivial = true
		if err == nil {
			o.Failf("%s returned %q without error although the unit sent %x (end %q)", c.Op.Op, text, stream, r.End)
		}
		if e.Acks > 0 && !fu.Readable(stream, cmd) {
			o.Failf("%s acknowledged %x, which is no readable reply to %#02x", c.Op.Op, stream, cmd)
		}
	})
	if p := l.Problems(); p != "" {
		o.Failf("%s", p)
	}
	return
}

// --- C05 ---

func runC05(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[exCase](raw)
	l := fu.NewLine(fu.NewUnit(c.Unit))
	defer l.Close()
	l.Script = c.R
	l.Default = fu.Reply{Kind: "silent"}
	_, err := c.Op.Do(l)
	time.Sleep(ms(50))
	l.With(func() {
		i := 0
		if c.Op.Op == "profile" { // a read first
			if len(l.Log) == 0 {
				o.Failf("no request was written")
				return
			}
			e := l.Log[0]
			stream, _, clear := received(c.R[0], e.Stream)
			_, must, fail := fu.Judge(stream, fu.CProf, true)
			if !clear || (!must && !fail && c.R[0].Kind != "werr") {
				o.Label("open")
				return
			}
			if c.R[0].End != "" {
				o.Label("open") // the end of the line may be met by the second exchange
				return
			}
			if !must {
				o.Label("failed read")
				o.NonTrivial = true
				if err == nil {
					o.Failf("%v succeeded although its profile read was answered with %x", c.Op, stream)
				}
				if len(l.Log) > 1 {
					o.Failf("%v wrote profiles although reading them failed", c.Op)
				}
				return
			}
			i = 1
		}
		if len(l.Log) != i+1 {
			o.Failf("%d requests were written for %v, want %d (%v)", len(l.Log), c.Op, i+1, err)
			return
		}
		e, r := l.Log[i], c.R[i]
		stream, _, clear := received(r, e.Stream)
		if r.Kind != "werr" && (e.IsGet || !clear) {
			o.Label("open")
			return
		}
		_, must, _ := fu.Judge(stream, e.Cmd, false)
		if r.Kind == "werr" {
			must = false
		}
		if must && err != nil {
			o.Failf("%v failed (%v) although the unit acknowledged it (%x)", c.Op, err, stream)
		}
		if !must && err == nil {
			o.Failf("%v reported success although the unit answered %x (%s, end %q)", c.Op, stream, r.Kind, r.End)
		}
		if !must {
			o.Label("not acknowledged: " + r.Kind + " " + r.End)
			o.NonTrivial = true
		} else {
			o.Label("acknowledged")
			if !r.OK() || len(r.Cuts) > 0 {
				o.NonTrivial = true
			}
		}
	})
	if p := l.Problems(); p != "" {
		o.Failf("%s", p)
	}
	return
}

// --- C06 ---

type c06Case struct {
	Unit fu.State `json:"unit"`
	Ops  []LibOp  `json:"ops,omitempty"`
	Enum string   `json:"enum,omitempty"`
	M    byte     `json:"m,omitempty"`
	// R are the answers to the first requests. Without any, the unit answers everything well.
	R []fu.Reply `json:"r,omitempty"`
}

// c06Faulty checks what a call writes that may meet a faulty answer: its
// requests once each, and nothing else but an ACK behind each of them.
func c06Faulty(tp *tap, op LibOp) string {
	tp.w = nil
	_, err := op.Do(tp)
	w := tp.w
	strip := func(f []byte) bool {
		if !bytes.HasPrefix(w, f) {
			return false
		}
		w = bytes.TrimPrefix(w[len(f):], fu.Ack)
		return true
	}
	if op.Refused() {
		if len(w) > 0 || err == nil {
			return fmt.Sprintf("%v, which is out of range, wrote %x and ended with %s", op, w, errStr(err))
		}
		return ""
	}
	if op.Op != "profile" {
		if !strip(fu.Frame(opCmd[op.Op], op.Wire())) || len(w) > 0 {
			return fmt.Sprintf("%v wrote %x, want one request %x", op, tp.w, fu.Frame(opCmd[op.Op], op.Wire()))
		}
		return ""
	}
	if !strip(fu.Frame(fu.CProf, nil)) {
		return fmt.Sprintf("%v wrote %x, want one read of the profiles first", op, tp.w)
	}
	if len(w) == 0 {
		if err == nil {
			return fmt.Sprintf("%v succeeded and wrote only %x", op, tp.w)
		}
		return ""
	}
	// What was read may have been anything, the profile to set is known.
	var data []byte
	for i := 5; i < len(w) && len(data) < 8; i++ {
		if w[i] == 7 {
			i++
		}
		if i < len(w) {
			data = append(data, w[i])
		}
	}
	if len(data) != 8 || !strip(fu.Frame(fu.CSetProf, data)) || len(w) > 0 {
		return fmt.Sprintf("%v wrote %x, want at most one write of the profiles after the read", op, tp.w)
	}
	if o, i := [4]int{0, 1, 2, 6}[op.M], [4]int{3, 4, 5, 7}[op.M]; data[o] != op.V || data[i] != op.V {
		return fmt.Sprintf("%v wrote profiles %x", op, data)
	}
	return ""
}

// tap records everything written.
type tap struct {
	*fu.Line
	w []byte
}

func (t *tap) Write(p []byte) (int, error) { t.w = append(t.w, p...); return t.Line.Write(p) }

func c06One(u *fu.Unit, tp *tap, op LibOp) string {
	tp.w = nil
	before := u.State.Clone()
	var want []byte
	add := func(cmd byte, d []byte) { want = append(append(want, fu.Frame(cmd, d)...), fu.Ack...) }
	if !op.Refused() {
		switch op.Op {
		case "profile":
			add(fu.CProf, nil)
			p := before.Prof
			w := []byte{p[0], p[1], p[2], p[3], p[4], p[5], p[10], p[11]}
			o := [4]int{0, 1, 2, 6}
			i := [4]int{3, 4, 5, 7}
			w[o[op.M]], w[i[op.M]] = op.V, op.V
			add(fu.CSetProf, w)
		default:
			add(opCmd[op.Op], op.Wire())
		}
	}
	_, err := op.Do(tp)
	if (err != nil) != op.Refused() {
		return fmt.Sprintf("%v ended with %s", op, errStr(err))
	}
	if !bytes.Equal(tp.w, want) {
		return fmt.Sprintf("%v wrote %x, want %x", op, tp.w, want)
	}
	return ""
}

func runC06(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c06Case](raw)
	u := fu.NewUnit(c.Unit)
	l := fu.NewLine(u)
	defer l.Close()
	l.Default = fu.Reply{Kind: "ok"}
	tp := &tap{Line: l}
	do := func(op LibOp) {
		if o.Violation != "" {
			return
		}
		o.Evals++
		l.With(func() { l.Log = nil })
		if len(c.R) > 0 {
			o.Failf2(c06Faulty(tp, op))
		} else {
			o.Failf2(c06One(u, tp, op))
		}
		if op.Refused() {
			o.Label("refused " + op.Op)
		} else {
			o.Label(op.Op)
		}
	}
	switch c.Enum {
	case "":
		l.Script = c.R
		for i, op := range c.Ops {
			if len(c.R) > 0 && i > 0 {
				time.Sleep(ms(2500))
			}
			do(op)
			if len(c.R) > 0 {
				o.Label("faulty answers")
				o.NonTrivial = true
			}
			if !op.IsRead() {
				o.NonTrivial = true
			}
		}
	case "bytes":
		for v := 0; v < 256; v++ {
			do(LibOp{Op: "speed", V: byte(v)})
			do(LibOp{Op: "comfort", V: byte(v)})
		}
		for _, r := range readOps {
			do(LibOp{Op: r})
		}
		o.NonTrivial, o.Distinct = true, o.Evals
	case "profile":
		for v := 0; v < 256; v++ {
			do(LibOp{Op: "profile", M: c.M, V: byte(v)})
		}
		o.NonTrivial, o.Distinct = true, o.Evals
	}
	if p := l.Problems(); p != "" {
		o.Failf("%s", p)
	}
	return
}

// --- C07 ---

type c07Case struct {
	Cmd   byte   `json:"cmd"` // response code
	Data  fu.Hex `json:"data"`
	Data2 fu.Hex `json:"data2"`
	Enum  string `json:"enum,omitempty"`
}

var respOf = func() map[byte]byte {
	m := map[byte]byte{}
	for _, c := range fu.ReadCmds {
		m[c+1] = c
	}
	return m
}()

func c07One(code byte, data []byte) (libcomfo.Response, string) {
	buf := append([]byte(nil), data...)
	r, err := libcomfo.DecodeResponse(libcomfo.Packet{Command: code, Data: buf})
	if !bytes.Equal(buf, data) {
		return nil, "decoding changed its input"
	}
	rd, known := respOf[code]
	if !known {
		if err == nil {
			return nil, fmt.Sprintf("unknown response %#02x with payload %x was decoded as %T", code, data, r)
		}
		return nil, ""
	}
	want, bad := fu.Text(rd, data)
	if bad {
		if err == nil {
			return nil, fmt.Sprintf("response %#02x with payload %x was decoded as %s", code, data, textOf(r))
		}
		return nil, ""
	}
	if err != nil {
		return nil, fmt.Sprintf("response %#02x with payload %x was refused: %v", code, data, err)
	}
	if g := textOf(r); g != want {
		return nil, fmt.Sprintf("response %#02x with payload %x was decoded as %s, want %s", code, data, g, want)
	}
	for i := range buf { // the result must not depend on the buffer afterwards
		buf[i] ^= 0x55
	}
	if g := textOf(r); g != want {
		return nil, fmt.Sprintf("result %s changed to %s with the input buffer", want, g)
	}
	return r, ""
}

func c07Lookup(p *libcomfo.FanProfiles, speed int) string {
	in, out, err := p.Lookup(uint8(speed))
	var wi, wo byte
	switch speed {
	case 1:
		wi, wo = p.InAway, p.OutAway
	case 2:
		wi, wo = p.InLow, p.OutLow
	case 3:
		wi, wo = p.InMid, p.OutMid
	case 4:
		wi, wo = p.InHigh, p.OutHigh
	default:
		if err == nil {
			return fmt.Sprintf("looking up profile %d succeeded", speed)
		}
		return ""
	}
	if err != nil || in != wi || out != wo {
		return fmt.Sprintf("looking up profile %d gave in %d out %d (%v), want %d %d", speed, in, out, err, wi, wo)
	}
	return ""
}

func runC07(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c07Case](raw)
	one := func(code byte, d []byte) libcomfo.Response {
		o.Evals++
		r, v := c07One(code, d)
		o.Failf2(v)
		if p, ok := r.(*libcomfo.FanProfiles); ok && v == "" {
			for s := 0; s < 256; s++ {
				o.Failf2(c07Lookup(p, s))
			}
		}
		return r
	}
	switch c.Enum {
	case "bytes": // every value at every position
		for i := range c.Data {
			for v := 0; v < 256; v++ {
				d := append([]byte(nil), c.Data...)
				d[i] = byte(v)
				one(c.Cmd, d)
			}
		}
		o.NonTrivial, o.Distinct = true, o.Evals
		return
	case "sizes": // every size for every code
		for code := 0; code < 256; code++ {
			for n := 0; n <= 40; n++ {
				d := bytes.Repeat([]byte{c.Data[0]}, n)
				one(byte(code), d)
			}
			one(byte(code), bytes.Repeat(c.Data[:1], 255))
			one(byte(code), nil)
		}
		o.NonTrivial, o.Distinct = true, o.Evals
		return
	case "raw": // every raw fan speed
		for v := 0; v < 65536; v++ {
			one(c.Cmd, []byte{1, 2, byte(v >> 8), byte(v), 0x10, 0})
			one(c.Cmd, []byte{1, 2, 0x10, 0, byte(v >> 8), byte(v)})
		}
		o.NonTrivial, o.Distinct = true, o.Evals
		return
	}
	a := one(c.Cmd, c.Data)
	var ta string
	if a != nil {
		ta = textOf(a)
		o.NonTrivial = true
		o.Label("decoded")
	} else {
		o.Label("refused")
	}
	one(c.Cmd, c.Data2)
	for _, rd := range fu.ReadCmds { // later decodings of any type
		if len(c.Data2) == fu.Size(rd) {
			one(rd+1, c.Data2)
		}
	}
	if a != nil && textOf(a) != ta {
		o.Failf("a later decoding changed an earlier result from %s to %s", ta, textOf(a))
	}
	return
}

// --- C08 ---

type histStep struct {
	Op   *LibOp    `json:"op,omitempty"`
	Unit *fu.State `json:"unit,omitempty"` // the unit changes by itself
	R    fu.Reply  `json:"r"`
	R2   fu.Reply  `json:"r2"`
}

type histCase struct {
	Unit fu.State   `json:"unit"`
	S    []histStep `json:"s"`
}

func runC08(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[histCase](raw)
	u := fu.NewUnit(c.Unit)
	u.NoFollow = true
	l := fu.NewLine(u)
	defer l.Close()
	model := c.Unit.Clone()
	var cur histStep
	k := 0
	l.Pick = func(r fu.Req, n int) fu.Reply {
		k++
		if k == 2 {
			return cur.R2
		}
		return cur.R
	}
	sets, reads := 0, 0
	for i, s := range c.S {
		if s.Unit != nil {
			model = s.Unit.Clone()
			l.With(func() { l.Unit.State = s.Unit.Clone() })
			continue
		}
		cur, k = s, 0
		op := *s.Op
		text, err := op.Do(l)
		if op.Refused() {
			if err == nil {
				o.Failf("step %d: %v was not refused", i, op)
			}
		} else if err != nil {
			o.Failf("step %d: %v failed: %v", i, op, err)
			return
		}
		if op.IsRead() {
			reads++
			want, bad := fu.Text(opCmd[op.Op], *model.Field(opCmd[op.Op]))
			if bad {
				panic("harness: undecodable state")
			}
			if text != want {
				o.Failf("step %d: %s returned %s, the unit holds %s", i, op.Op, text, want)
			}
		} else if !op.Refused() {
			sets++
			// The model is the statement of the property, not the wire protocol.
			switch op.Op {
			case "speed":
				model.Prof[8] = op.V
				if op.V >= 1 {
					model.Prof[6], model.Prof[7] = model.Out(int(op.V-1)), model.In(int(op.V-1))
				}
			case "comfort":
				model.Temps[0] = (op.V + 20) * 2
			case "profile":
				model.SetInOut(int(op.M), op.V, op.V)
			case "profiles":
				p := op.Profiles()
				model.SetInOut(0, p.InAway, p.OutAway)
				model.SetInOut(1, p.InLow, p.OutLow)
				model.SetInOut(2, p.InMid, p.OutMid)
				model.SetInOut(3, p.InHigh, p.OutHigh)
			}
		}
		var have fu.State
		l.With(func() { have = l.Unit.State.Clone() })
		if !have.Equal(model) {
			o.Failf("step %d: after %v the unit holds %+v, want %+v", i, op, have, model)
			return
		}
	}
	if p := l.Problems(); p != "" {
		o.Failf("%s", p)
	}
	o.NonTrivial = sets > 0 && reads > 0
	if o.NonTrivial {
		o.Label("sets and reads")
	}
	return
}

// --- C09, C10: concurrency ---

type conc struct {
	At  int     `json:"at"` // ms before the first call
	Ops []LibOp `json:"ops"`
	Gap int     `json:"gap,omitempty"` // ms between calls
}

type concCase struct {
	Unit  fu.State   `json:"unit"`
	G     []conc     `json:"g"`
	R     []fu.Reply `json:"r"` // replies, by order of arrival at the unit (repeated)
	Stamp bool       `json:"stamp,omitempty"`
	Noise []conc     `json:"noise,omitempty"` // other callers
}

func runC09(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[concCase](raw)
	u := fu.NewUnit(c.Unit)
	l := fu.NewLine(u)
	defer l.Close()
	faults := false
	for _, r := range c.R {
		faults = faults || !r.Prompt()
	}
	l.Pick = func(r fu.Req, n int) fu.Reply {
		if n < len(c.R) {
			return c.R[n]
		}
		return fu.Reply{Kind: "ok", Delay: 2}
	}
	type res struct {
		g, i       int
		op         LibOp
		text       string
		err        error
		start, end time.Duration
	}
	out := make(chan res, 100)
	fin := make(chan string, len(c.G))
	n := 0
	for gi, g := range c.G {
		n += len(g.Ops)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					fin <- fmt.Sprint("panic: ", r)
				}
			}()
			time.Sleep(ms(g.At))
			for i, op := range g.Ops {
				s := l.Now()
				t, err := op.Do(l)
				out <- res{gi, i, op, t, err, s, l.Now()}
				time.Sleep(ms(g.Gap))
			}
			fin <- ""
		}()
	}
	for range c.G {
		if e := <-fin; e != "" {
			o.Failf("%s", e)
		}
	}
	close(out)
	overlap := false
	var all []res
	for r := range out {
		for _, p := range all {
			if p.g != r.g && p.start < r.end && r.start < p.end {
				overlap = true
			}
		}
		all = append(all, r)
		if r.op.Refused() != (r.err != nil) && (!faults || r.op.Refused()) {
			o.Failf("%v ended with %s although the unit answered every request", r.op, errStr(r.err))
		}
		if r.err == nil && r.op.IsRead() {
			// Some answer to this command sent during the call must be the one returned.
			ok := false
			l.With(func() {
				for _, e := range l.Log {
					if e.Cmd == opCmd[r.op.Op] && e.T >= r.start && e.T <= r.end {
						if w, bad := fu.Text(e.Cmd, e.Answer); !bad && w == r.text {
							ok = true
						}
					}
				}
			})
			if !ok {
				o.Failf("%v returned %s, which was not an answer to it", r.op, r.text)
			}
		}
	}
	if p := l.Problems(); p != "" {
		o.Failf("%s", p)
	}
	if overlap && len(c.G) > 1 {
		o.NonTrivial = true
		o.Label("overlapping calls")
	}
	if faults {
		o.Label("with faults")
	}
	return
}

func runC10(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[concCase](raw)
	l := fu.NewLine(fu.NewUnit(c.Unit))
	defer l.Close()
	l.Pick = func(r fu.Req, n int) fu.Reply { return c.R[n%len(c.R)] }
	fin := make(chan error, len(c.G))
	var ops []LibOp
	for _, g := range c.G {
		ops = append(ops, g.Ops[0])
		go func() {
			var err error
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
				}
				fin <- err
			}()
			time.Sleep(ms(g.At))
			_, err = g.Ops[0].Do(l)
		}()
	}
	rest := make(chan bool, len(c.Noise))
	for _, g := range c.Noise {
		go func() {
			defer func() { rest <- true }()
			time.Sleep(ms(g.At))
			for _, op := range g.Ops {
				op.Do(l)
			}
		}()
	}
	defer func() {
		for range c.Noise {
			<-rest
		}
	}()
	for range c.G {
		if err := <-fin; err != nil {
			o.Failf("an update failed although the unit answered everything: %v", err)
			return
		}
	}
	have := l.Unit.State.Prof
	match := false
	permute(len(ops), func(p []int) bool {
		m := c.Unit.Clone()
		for _, i := range p {
			op := ops[i]
			if op.Op == "profile" {
				m.SetInOut(int(op.M), op.V, op.V)
			} else {
				f := op.Profiles()
				m.SetInOut(0, f.InAway, f.OutAway)
				m.SetInOut(1, f.InLow, f.OutLow)
				m.SetInOut(2, f.InMid, f.OutMid)
				m.SetInOut(3, f.InHigh, f.OutHigh)
			}
		}
		if bytes.Equal(m.Prof, have) {
			match = true
		}
		return !match
	})
	if !match {
		o.Failf("profiles %x after the concurrent updates %v of %x: no order of the updates gives that", have, ops, c.Unit.Prof)
	}
	if p := l.Problems(); p != "" {
		o.Failf("%s", p)
	}
	// Interleaved in time: some call began before another one was over.
	o.NonTrivial = len(ops) > 1
	for _, op := range ops {
		o.Label(op.Op)
	}
	return
}

func permute(n int, f func([]int) bool) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func() bool
	rec = func() bool {
		if len(p) == n {
			return f(p)
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				if !rec() {
					return false
				}
				p = p[:len(p)-1]
				used[i] = false
			}
		}
		return true
	}
	rec()
}

// --- C11: recovery; C13: resources ---

type recStep struct {
	Op  LibOp      `json:"op"`
	R   []fu.Reply `json:"r"` // one per exchange of the operation
	Gap int        `json:"gap,omitempty"`
	Set fu.Hex     `json:"set,omitempty"` // new payload of the read's category before the step
	// Wrong: the last reply is a wrong one that arrives in time.
	Wrong bool `json:"wrong,omitempty"`
}

type recCase struct {
	Unit fu.State  `json:"unit"`
	S    []recStep `json:"s"`
	Rep  int       `json:"rep,omitempty"` // how often all steps but the last one happen
}

func runC11(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[recCase](raw)
	u := fu.NewUnit(c.Unit)
	u.NoFollow = true
	l := fu.NewLine(u)
	defer l.Close()
	var cur []fu.Reply
	k := 0
	l.Pick = func(r fu.Req, n int) fu.Reply {
		k++
		if k <= len(cur) {
			return cur[k-1]
		}
		return fu.Reply{Kind: "ok", Delay: 3}
	}
	lost := 0
	steps := slices.Concat(slices.Repeat(c.S[:len(c.S)-1], max(1, c.Rep)), c.S[len(c.S)-1:])
	for i, s := range steps {
		if s.Set != nil {
			l.With(func() { *l.Unit.Field(opCmd[s.Op.Op]) = append(fu.Hex(nil), s.Set...) })
		}
		cur, k = s.R, 0
		prompt, wrong, ackErr := true, false, false
		for _, r := range s.R {
			ackErr = ackErr || r.AckErr
			prompt = prompt && r.Prompt()
			wrong = wrong || s.Wrong
		}
		var want string
		l.With(func() {
			if s.Op.IsRead() {
				want, _ = fu.Text(opCmd[s.Op.Op], *l.Unit.Field(opCmd[s.Op.Op]))
			}
		})
		text, err := s.Op.Do(l)
		if prompt {
			if err != nil {
				o.Failf("step %d: %v failed (%v) although the unit answered it promptly, after %d unanswered requests", i, s.Op, err, lost)
				return
			}
			if text != want {
				o.Failf("step %d: %v returned %s, its answer was %s, after %d unanswered requests", i, s.Op, text, want, lost)
				return
			}
			if lost > 0 {
				o.NonTrivial = true
				o.Label("recovered")
			}
		} else {
			lost++
			acked := false
			l.With(func() { acked = len(l.Log) > 0 && l.Log[len(l.Log)-1].Acks > 0 })
			if ackErr { // the outcome is open, but nothing is left of the answer
				o.Label("ACK not written")
				time.Sleep(ms(s.Gap) + 37*time.Microsecond)
				continue
			}
			if wrong && (err == nil || k > len(s.R) || acked) {
				// A wrong answer that begins with a right one. What is left of it is open.
				o.Label("open: wrong answer accepted")
				return
			}
			if err == nil {
				o.Failf("step %d: %v succeeded (%s) without an answer", i, s.Op, text)
				return
			}
		}
		// Not a multiple of a millisecond after any request, so that nothing
		// arrives at the very instant the next operation is started.
		time.Sleep(ms(s.Gap) + 37*time.Microsecond)
		if wrong { // until the wrong answer has arrived in full
			o.Label("after a wrong answer")
			time.Sleep(ms(s.R[len(s.R)-1].Duration()))
		}
	}
	if p := l.Problems(); p != "" {
		o.Failf("%s", p)
	}
	return
}

// gLost draws the reply of a unit that leaves a request unanswered or answers late.
func gLost(t *rapid.T, l string) fu.Reply {
	switch rapid.IntRange(0, 5).Draw(t, l+"lost") {
	case 0, 1:
		return fu.Reply{Kind: "silent", Apply: rapid.Bool().Draw(t, l+"apply")}
	case 2: // part of the answer, then silence
		return fu.Reply{Kind: "trunc", N: rapid.IntRange(1, 40).Draw(t, l+"n"), Delay: rapid.SampledFrom([]int{0, 10, 500}).Draw(t, l+"d")}
	case 3: // late in two pieces, the first of them in time or not
		return fu.Reply{Kind: "ok", Delay: rapid.SampledFrom([]int{100, 500, 1300}).Draw(t, l+"d"),
			Cuts: []int{rapid.IntRange(1, 8).Draw(t, l+"c")}, Gaps: []int{rapid.SampledFrom([]int{1200, 1500, 3000}).Draw(t, l+"g")}}
	default:
		return fu.Reply{Kind: "ok", Delay: rapid.SampledFrom([]int{1150, 1200, 1500, 2500, 6000}).Draw(t, l+"d")}
	}
}

func gC11(t *rapid.T) any {
	c := recCase{Unit: gState(t, "u")}
	if rapid.IntRange(0, 19).Draw(t, "long") == 0 {
		c.Rep = rapid.SampledFrom([]int{5, 30, 150}).Draw(t, "rep")
	}
	for i := rapid.IntRange(2, 8).Draw(t, "n"); i > 0; i-- {
		var s recStep
		s.Op = gAnyOp(t, "op", false)
		n := 1
		if s.Op.Op == "profile" {
			n = 2
		}
		lost := rapid.IntRange(0, 2).Draw(t, "lost") > 0
		at := rapid.IntRange(0, n-1).Draw(t, "at")
		for j := 0; j < n; j++ {
			if lost && j == at && rapid.IntRange(0, 5).Draw(t, "ackerr") == 0 {
				r := gQuick(t, "r")
				r.AckErr = true
				s.R = append(s.R, r)
				break
			}
			if lost && j == at && rapid.IntRange(0, 3).Draw(t, "wrong") == 0 {
				r := gFault(t, "r")
				r.End = ""
				if r.Kind == "flood" {
					r.Kind = "raw"
				}
				s.Wrong = true
				s.R = append(s.R, r)
				break
			}
			if lost && j == at {
				r := gLost(t, "r")
				if !s.Op.IsRead() && j == n-1 { // the answer to a set is two bytes long
					if r.Kind == "trunc" {
						r.N = 1
					}
					if len(r.Cuts) > 0 {
						r.Cuts[0] = 1
					}
				}
				if r.Kind == "trunc" && r.N > 1 { // stay short of the whole answer
					r.N = 1 + (r.N-1)%9
				}
				s.R = append(s.R, r)
				break
			}
			s.R = append(s.R, gQuick(t, "r"))
		}
		if s.Op.IsRead() && rapid.Bool().Draw(t, "chg") {
			s.Set = gField(t, "set", opCmd[s.Op.Op])
		}
		s.Gap = rapid.SampledFrom([]int{0, 0, 1, 300, 1000, 4000, 10000}).Draw(t, "gap")
		c.S = append(c.S, s)
	}
	// The history ends with a prompt answer.
	op := gReadOp(t, "last")
	c.S = append(c.S, recStep{Op: op, R: []fu.Reply{gQuick(t, "lastr")}, Set: gField(t, "lastset", opCmd[op.Op])})
	return c
}

// --- C12 ---

func runC12(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[exCase](raw)
	l := fu.NewLine(fu.NewUnit(c.Unit))
	defer l.Close()
	l.Script = c.R
	l.Default = fu.Reply{Kind: "silent"}
	start := l.Now()
	_, err := c.Op.Do(l)
	end := l.Now()
	l.With(func() {
		n := len(l.Log)
		if n == 0 {
			if len(c.R) > 0 && !c.Op.Refused() {
				o.Failf("no request was written")
			}
			return
		}
		var wlat time.Duration
		for _, r := range c.R {
			wlat += ms(r.WLat)
		}
		// Each exchange: at most about a second from its request to the next request or the return.
		for i, e := range l.Log {
			e2 := end
			if i+1 < n {
				e2 = l.Log[i+1].T - ms(l.Log[i+1].R.WLat)
			}
			if d := e2 - e.T; d > 1200*time.Millisecond+ms(c.R[min(i, len(c.R)-1)].WLat+l.WriteLat*2) {
				o.Failf("%v: exchange %d took %v after its request (reply %+v)", c.Op, i, d, e.R)
			}
		}
		if d := end - start; d > time.Duration(n)*1500*time.Millisecond+wlat {
			o.Failf("%v took %v", c.Op, d)
		}
		last := c.R[min(n, len(c.R))-1]
		if last.OK() && last.Duration() <= 850 && err != nil && n == len(c.R) {
			o.Failf("%v failed (%v) although the answer was complete after %d ms", c.Op, err, last.Duration())
		}
		if d := last.Duration(); last.OK() && d > 200 && d <= 850 {
			o.Label("slow but in time")
			o.NonTrivial = true
		}
		if !last.OK() || last.Duration() > 1000 {
			o.Label("unanswered: " + last.Kind)
			o.NonTrivial = true
		}
	})
	if p := l.Problems(); p != "" {
		o.Failf("%s", p)
	}
	return
}

func gC12(t *rapid.T) any {
	c := exCase{Unit: gState(t, "u"), Op: gAnyOp(t, "op", false)}
	n := 1
	if c.Op.Op == "profile" {
		n = rapid.IntRange(1, 2).Draw(t, "nth")
	}
	for i := 0; i < n-1; i++ {
		c.R = append(c.R, gOK(t, "first"))
	}
	var r fu.Reply
	switch rapid.IntRange(0, 6).Draw(t, "how") {
	case 0:
		r = fu.Reply{Kind: "silent"}
	case 1:
		r = gLost(t, "r")
	case 2: // trickle
		r = fu.Reply{Kind: "ok", Delay: rapid.IntRange(0, 900).Draw(t, "d")}
		for i := 0; i < 40; i++ {
			r.Cuts = append(r.Cuts, 1)
			r.Gaps = append(r.Gaps, rapid.SampledFrom([]int{60, 150, 300, 600, 950}).Draw(t, "g"))
		}
	case 3, 4: // endless bytes
		r = fu.Reply{Kind: "flood", B: gRawAnswer(t, "b"), Delay: rapid.SampledFrom([]int{0, 10, 500}).Draw(t, "d"), Gaps: []int{rapid.SampledFrom([]int{1, 3, 50, 300}).Draw(t, "g")}}
		switch rapid.IntRange(0, 3).Draw(t, "fl") {
		case 0:
			r.B = fu.Hex{rapid.SampledFrom([]byte{0x00, 0x41, 0x07, 0x0F}).Draw(t, "fb")}
		case 1:
			r.B = append(fu.Hex(nil), fu.Ack...)
		case 2:
			r.B = gBytes(t, "noise", 1, 64)
		}
	case 5: // in time
		total := rapid.SampledFrom([]int{300, 700, 850}).Draw(t, "total")
		r = fu.Reply{Kind: "ok", Delay: rapid.IntRange(0, total).Draw(t, "d")}
		left := total - r.Delay
		for i := rapid.IntRange(0, 5).Draw(t, "k"); i > 0 && left > 0; i-- {
			g := rapid.IntRange(0, left).Draw(t, "g")
			left -= g
			r.Cuts = append(r.Cuts, rapid.IntRange(1, 8).Draw(t, "c"))
			r.Gaps = append(r.Gaps, g)
		}
	default:
		r = gFault(t, "f")
	}
	r.WLat = rapid.SampledFrom([]int{0, 0, 10, 700, 3000}).Draw(t, "wlat")
	c.R = append(c.R, r)
	if c.Op.Op == "profile" && n == 1 && r.OK() {
		c.R = append(c.R, fu.Reply{Kind: "silent"})
	}
	return c
}

// --- C13 ---

type c13Case struct {
	Unit fu.State   `json:"unit"`
	Ops  []LibOp    `json:"ops"`
	R    []fu.Reply `json:"r"`
	N    int        `json:"n"`
	Gap  int        `json:"gap"`
	Par  int        `json:"par,omitempty"` // concurrent callers
}

// maxLeft is how many goroutines a connection may keep.
const maxLeft = 8

func gC13(t *rapid.T) any {
	c := c13Case{Unit: gState(t, "u"), N: rapid.IntRange(20, 150).Draw(t, "N"), Gap: rapid.SampledFrom([]int{0, 10, 1000, 5000}).Draw(t, "gap"), Par: rapid.IntRange(1, 4).Draw(t, "par")}
	for i := rapid.IntRange(1, 4).Draw(t, "no"); i > 0; i-- {
		c.Ops = append(c.Ops, gAnyOp(t, "op", false))
	}
	for i := rapid.IntRange(1, 6).Draw(t, "nr"); i > 0; i-- {
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			c.R = append(c.R, gQuick(t, "r"))
		case 1:
			c.R = append(c.R, gFault(t, "r"))
		default:
			c.R = append(c.R, gLost(t, "r"))
		}
	}
	return c
}

func runMemory(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c13Case](raw)
	l := fu.NewLine(fu.NewUnit(c.Unit))
	defer l.Close()
	l.Strict = false
	l.Pick = func(r fu.Req, n int) fu.Reply { return c.R[n%len(c.R)] }
	failed := 0
	run := func(n int) uint64 {
		for i := range n {
			if _, err := c.Ops[i%len(c.Ops)].Do(l); err != nil {
				failed++
			}
			if l.Quiesce(); i%8 == 0 {
				time.Sleep(time.Second)
			}
			l.With(func() {
				if len(l.Log) > 10 {
					l.Log = append([]*fu.Exch(nil), l.Log[len(l.Log)-2:]...)
				}
			})
		}
		time.Sleep(10 * time.Second)
		l.Clear()
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	a := run(c.N / 5)
	b := run(c.N - c.N/5)
	if b > a+100<<10 {
		// The collector and the runtime's own caches have moments, too.
		if d := run(c.N); d > b+100<<10 {
			o.Failf("%d more bytes are in use after %d operations, and %d more after another %d (%d failed)", b-a, c.N, d-b, c.N, failed)
		}
	}
	o.NonTrivial = failed > 0
	return
}

func runC13(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c13Case](raw)
	l := fu.NewLine(fu.NewUnit(c.Unit))
	defer l.Close()
	l.Strict = false
	l.Pick = func(r fu.Req, n int) fu.Reply { return c.R[n%len(c.R)] }
	time.Sleep(10 * time.Second) // leftovers of earlier cases
	before := runtime.NumGoroutine()
	par := max(1, c.Par)
	fin := make(chan bool, par)
	failed, fine := 0, 0
	for g := 0; g < par; g++ {
		go func() {
			for i := g; i < c.N; i += par {
				if _, err := c.Ops[i%len(c.Ops)].Do(l); err != nil {
					failed++ // GOMAXPROCS is 1 and this is only a statistic
				} else {
					fine++
				}
				time.Sleep(ms(c.Gap))
			}
			fin <- true
		}()
	}
	for g := 0; g < par; g++ {
		<-fin
	}
	time.Sleep(10 * time.Second)
	left := runtime.NumGoroutine() - before
	if left > maxLeft {
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		o.Failf("%d goroutines are left behind after %d failed and %d successful operations\n%s", left, failed, fine, buf[:min(len(buf), 3000)])
	}
	if failed > 0 {
		o.NonTrivial = true
		o.Label("failures")
	}
	if fine > 0 {
		o.Label("successes")
	}
	return
}

func init() {
	core.Register(&core.Check{
		Prop: "C04", Name: "read", Mode: core.Fake, Quick: 160000, Thorough: 3200000,
		Rule: "one read of any of the eight kinds from a random unit, answered correctly or with one fault: silence, protocol elements and noise, one byte flipped, dropped or inserted, truncation, another command, another size, wrong checksum or length, missing ACK, wrong control sequence, prefix, short write; arbitrary fragmentation; followed by silence, EOF or a read error. Oracle: strict and lenient reference readers of the bytes sent decide must-succeed, must-fail or open; ACKs counted. Non-trivial: the answer must be refused",
		Run:  runC04,
		Gen: func(t *rapid.T) any {
			c := exCase{Unit: gState(t, "u"), Op: gReadOp(t, "op")}
			switch rapid.IntRange(0, 5).Draw(t, "how") {
			case 0:
				c.R = []fu.Reply{gOK(t, "r")}
				c.R[0].End = rapid.SampledFrom([]string{"", "eof", "err", "eof+"}).Draw(t, "end")
			case 1:
				c.R = []fu.Reply{gLost(t, "r")}
			default:
				c.R = []fu.Reply{gFault(t, "r")}
			}
			if c.Op.Op == "fans" && rapid.IntRange(0, 3).Draw(t, "zero") == 0 {
				i := rapid.SampledFrom([]int{2, 4}).Draw(t, "zf")
				c.Unit.Fans[i], c.Unit.Fans[i+1] = 0, 0
			}
			return c
		},
		Fixed: func(tier string) (out []any) {
			// Every truncation, every single-byte change to a special value, each with every ending.
			var s fu.State
			for _, c := range fu.ReadCmds {
				d := make(fu.Hex, fu.Size(c))
				for i := range d {
					d[i] = byte(0x20 + i)
				}
				*s.Field(c) = d
			}
			for _, op := range readOps {
				n := len(fu.Correct(opCmd[op], *s.Field(opCmd[op]), true))
				for i := 0; i < n; i++ {
					for _, end := range []string{"", "eof", "err", "eof+"} {
						out = append(out, exCase{s, LibOp{Op: op}, []fu.Reply{{Kind: "trunc", N: i, End: end}}})
						out = append(out, exCase{s, LibOp{Op: op}, []fu.Reply{{Kind: "drop", N: i, End: end}}})
					}
					for _, x := range []byte{1, 0x80, 0xFF} {
						out = append(out, exCase{s, LibOp{Op: op}, []fu.Reply{{Kind: "flip", N: i, B: fu.Hex{x}}}})
					}
				}
				for c := 0; c < 256; c++ {
					out = append(out, exCase{s, LibOp{Op: op}, []fu.Reply{{Kind: "cmd", B: fu.Hex{byte(c)}}}})
				}
				for n := 0; n < 40; n++ {
					out = append(out, exCase{s, LibOp{Op: op}, []fu.Reply{{Kind: "size", N: n, B: fu.Hex{3}}}})
				}
			}
			return
		},
	})
	core.Register(&core.Check{
		Prop: "C05", Name: "set", Mode: core.Fake, Quick: 160000, Thorough: 3200000,
		Rule: "one set operation (speed, comfort, bulk profiles, single profile; arguments in range) whose exchange is answered with an ACK (fragmented, followed by noise, EOF or errors) or with one of the faults of C04. Oracle: success exactly if the bytes that arrived in time begin with an ACK; a failed profile read is not followed by a write. Non-trivial: not acknowledged, or acknowledged in an unusual way",
		Run:  runC05,
		Gen: func(t *rapid.T) any {
			c := exCase{Unit: gState(t, "u"), Op: gSetOp(t, "op", false)}
			bad := func() fu.Reply {
				switch rapid.IntRange(0, 4).Draw(t, "how") {
				case 0:
					return gLost(t, "r")
				case 1:
					r := gOK(t, "r")
					r.End = rapid.SampledFrom([]string{"", "eof", "err", "eof+"}).Draw(t, "end")
					return r
				case 2:
					r := fu.Reply{Kind: "raw", B: append(append(fu.Hex(nil), fu.Ack...), gRawAnswer(t, "tail")...)}
					r.Cuts, r.Gaps = gCuts(t, "cut", 6, 200)
					return r
				}
				return gFault(t, "r")
			}
			if c.Op.Op == "profile" && rapid.IntRange(0, 3).Draw(t, "readok") > 0 {
				c.R = append(c.R, gQuick(t, "r0"))
			}
			c.R = append(c.R, bad())
			if c.Op.Op == "profile" && len(c.R) == 1 {
				c.R = append(c.R, fu.Reply{Kind: "ok"})
			}
			return c
		},
		Fixed: func(tier string) (out []any) {
			var s fu.State
			for _, c := range fu.ReadCmds {
				*s.Field(c) = make(fu.Hex, fu.Size(c))
			}
			ops := []LibOp{{Op: "speed", V: 2}, {Op: "comfort", V: 21}, {Op: "profiles", P: fu.Hex{1, 2, 3, 4, 5, 6, 7, 8}}, {Op: "profile", M: 1, V: 50}}
			for _, op := range ops {
				var pre []fu.Reply
				if op.Op == "profile" {
					pre = []fu.Reply{{Kind: "ok"}}
				}
				add := func(r fu.Reply) { out = append(out, exCase{s, op, append(append([]fu.Reply(nil), pre...), r)}) }
				for _, end := range []string{"", "eof", "err", "eof+"} {
					add(fu.Reply{Kind: "silent"})
					add(fu.Reply{Kind: "raw", End: end})
					add(fu.Reply{Kind: "ok", End: end})
					add(fu.Reply{Kind: "ok", Cuts: []int{1}, Gaps: []int{100}, End: end})
					for b := 0; b < 256; b++ {
						add(fu.Reply{Kind: "raw", B: fu.Hex{byte(b)}, End: end})
						add(fu.Reply{Kind: "raw", B: fu.Hex{7, byte(b)}, End: end})
						add(fu.Reply{Kind: "raw", B: fu.Hex{byte(b), 7, 0xF3}, End: end})
					}
				}
				for n := 0; n < 16; n++ {
					add(fu.Reply{Kind: "werr", N: n})
					add(fu.Reply{Kind: "werr", N: n, B: fu.Ack})
					add(fu.Reply{Kind: "werr", N: n, B: fu.Ack, Delay: 100})
				}
			}
			return
		},
	})
	core.Register(&core.Check{
		Prop: "C06", Name: "wire", Mode: core.Fake, Quick: 60000, Thorough: 1200000,
		Rule: "histories of 1-6 library calls with arguments in and out of range against a responsive unit in a random state; enumerated: all 256 arguments of speed and comfort, and all 65536 mode/percentage pairs of the single-profile call. Oracle: the exact bytes written, from the protocol description; in a third of the histories answers are damaged, missing, late or fail, and each call may then write its requests only once each, with an ACK behind each at most. Non-trivial: contains a set or faulty answers",
		Run:  runC06,
		Gen: func(t *rapid.T) any {
			c := c06Case{Unit: gState(t, "u")}
			for i := rapid.IntRange(1, 6).Draw(t, "n"); i > 0; i-- {
				c.Ops = append(c.Ops, gAnyOp(t, "op", true))
			}
			if rapid.IntRange(0, 2).Draw(t, "faulty") == 0 {
				for range c.Ops {
					if rapid.IntRange(0, 3).Draw(t, "good") == 0 {
						c.R = append(c.R, gOK(t, "r"))
					} else {
						c.R = append(c.R, gReadFault(t, "r"))
					}
				}
			}
			return c
		},
		Fixed: func(tier string) (out []any) {
			var s fu.State
			for _, c := range fu.ReadCmds {
				d := make(fu.Hex, fu.Size(c))
				for i := range d {
					d[i] = byte(0x20 + i)
				}
				*s.Field(c) = d
			}
			out = append(out, c06Case{Unit: s, Enum: "bytes"})
			for m := 0; m < 256; m++ {
				out = append(out, c06Case{Unit: s, Enum: "profile", M: byte(m)})
			}
			return
		},
	})
	core.Register(&core.Check{
		Prop: "C07", Name: "layout", Mode: core.Fake, Quick: 240000, Thorough: 4800000,
		Rule: "a response code with a payload of the right or another size, decoded, then a second payload decoded, then the buffers overwritten; enumerated: every byte value at every position of every response, every size 0-40 of every code, every raw fan speed; profile lookup with all 256 numbers. Oracle: reference decoder. Non-trivial: the payload decodes",
		Run:  runC07,
		Gen: func(t *rapid.T) any {
			rd := rapid.SampledFrom(fu.ReadCmds).Draw(t, "rd")
			c := c07Case{Cmd: rd + 1, Data: gField(t, "d", rd), Data2: gField(t, "e", rd)}
			switch rapid.IntRange(0, 7).Draw(t, "odd") {
			case 0:
				c.Cmd = gByte(t, "cmd")
			case 1:
				c.Data = gBytes(t, "d2", 0, 30)
				if rd == fu.CFans || rd == fu.CBoot || rd == fu.CFirm {
					for len(c.Data) == fu.Size(rd) {
						c.Data = append(c.Data, 1)
					}
				}
			case 2:
				if rd == fu.CFans {
					i := rapid.SampledFrom([]int{2, 4}).Draw(t, "z")
					c.Data[i], c.Data[i+1] = 0, 0
				}
			}
			if other, ok := respOf[c.Cmd]; ok && other != rd && len(c.Data) == fu.Size(other) {
				c.Cmd = rd + 1 // equal sizes: boot and firmware only, kept in domain
			}
			return c
		},
		Fixed: func(tier string) (out []any) {
			for _, rd := range fu.ReadCmds {
				n := 1
				if tier == "thorough" {
					n = 8
				}
				for k := 0; k < n; k++ {
					d := make(fu.Hex, fu.Size(rd))
					for i := range d {
						d[i] = byte(0x21 + i*(k+1) + 3*k&0x3F)
						if d[i] > 0x7E {
							d[i] -= 0x40
						}
						if d[i] > 0x7E {
							d[i] -= 0x40
						}
					}
					out = append(out, c07Case{Cmd: rd + 1, Data: d, Enum: "bytes"})
				}
			}
			for _, b := range []byte{0x41, 0x20, 0x01} {
				out = append(out, c07Case{Data: fu.Hex{b}, Enum: "sizes"})
			}
			out = append(out, c07Case{Cmd: fu.CFans + 1, Data: fu.Hex{1}, Enum: "raw"})
			return
		},
	})
	core.Register(&core.Check{
		Prop: "C08", Name: "history", Mode: core.Fake, Quick: 50000, Thorough: 1000000,
		Rule: "histories of 1-20 steps: any library call (arguments in and out of range; answers correct, any fragmentation and latency below a second), or a change of the unit by itself. Oracle: a model of the unit updated by the meaning of each call; the unit's whole state is compared after every step and every read with the model. Non-trivial: contains an accepted set and a read",
		Run:  runC08,
		Gen: func(t *rapid.T) any {
			c := histCase{Unit: gState(t, "u")}
			for i := rapid.IntRange(1, 20).Draw(t, "n"); i > 0; i-- {
				var s histStep
				if rapid.IntRange(0, 9).Draw(t, "chg") == 0 {
					u := gState(t, "v")
					s.Unit = &u
				} else {
					op := gAnyOp(t, "op", true)
					s.Op = &op
					s.R, s.R2 = gOK(t, "r"), gQuick(t, "r2")
				}
				c.S = append(c.S, s)
			}
			return c
		},
	})
	gConc := func(t *rapid.T, ops func(*rapid.T) LibOp, gs, per int) (c concCase) {
		c.Unit = gState(t, "u")
		for i := rapid.IntRange(2, gs).Draw(t, "g"); i > 0; i-- {
			g := conc{At: rapid.SampledFrom([]int{0, 0, 1, 2, 5, 11, 30}).Draw(t, "at"), Gap: rapid.SampledFrom([]int{0, 0, 1, 7}).Draw(t, "gap")}
			for k := rapid.IntRange(1, per).Draw(t, "k"); k > 0; k-- {
				g.Ops = append(g.Ops, ops(t))
			}
			c.G = append(c.G, g)
		}
		return
	}
	core.Register(&core.Check{
		Prop: "C09", Name: "library", Mode: core.Fake, Quick: 30000, Thorough: 600000,
		Rule: "2-6 concurrent callers with 1-4 library calls each on one line; write and answer latencies, fragmentation, and in half the cases some unanswered or late exchanges. Oracle: invariants over the line's history (writes never overlap or tear, no request while an earlier exchange is neither acknowledged nor a second old), and every read returns an answer the unit gave to that command during the call. Non-trivial: calls of different callers overlap",
		Run:  runC09,
		Gen: func(t *rapid.T) any {
			c := gConc(t, func(t *rapid.T) LibOp { return gAnyOp(t, "op", true) }, 6, 4)
			bad := rapid.Bool().Draw(t, "bad")
			for i := rapid.IntRange(1, 24).Draw(t, "nr"); i > 0; i-- {
				if bad && rapid.IntRange(0, 5).Draw(t, "b") == 0 {
					c.R = append(c.R, gLost(t, "r"))
				} else {
					c.R = append(c.R, gQuick(t, "r"))
				}
			}
			return c
		},
	})
	core.Register(&core.Check{
		Prop: "C10", Name: "profiles", Mode: core.Fake, Quick: 70000, Thorough: 1400000,
		Rule: "2-5 concurrent profile updates (single-profile and bulk, mixed), at times among up to two callers that read, with drawn start times, latencies and fragmentation against a responsive unit. Oracle: the unit's final profiles equal those of at least one of all orders of the updates. Non-trivial: at least two updates",
		Run:  runC10,
		Gen: func(t *rapid.T) any {
			c := gConc(t, func(t *rapid.T) LibOp {
				o := LibOp{Op: rapid.SampledFrom([]string{"profile", "profile", "profiles"}).Draw(t, "op")}
				if o.Op == "profile" {
					o.M, o.V = rapid.ByteRange(0, 3).Draw(t, "m"), rapid.ByteRange(0, 100).Draw(t, "v")
				} else {
					for i := 0; i < 8; i++ {
						o.P = append(o.P, rapid.ByteRange(0, 100).Draw(t, "p"))
					}
				}
				return o
			}, 5, 1)
			for i := rapid.IntRange(0, 3).Draw(t, "noise"); i > 1; i-- {
				n := conc{At: rapid.IntRange(0, 60).Draw(t, "nat")}
				for k := rapid.IntRange(1, 5).Draw(t, "nops"); k > 0; k-- {
					n.Ops = append(n.Ops, LibOp{Op: rapid.SampledFrom(readOps).Draw(t, "nop")})
				}
				c.Noise = append(c.Noise, n)
			}
			for i := rapid.IntRange(1, 6).Draw(t, "nr"); i > 0; i-- {
				c.R = append(c.R, gQuick(t, "r"))
			}
			return c
		},
	})
	core.Register(&core.Check{
		Prop: "C11", Name: "recovery", Mode: core.Fake, Quick: 100000, Thorough: 2000000, VirtualLimit: 20 * time.Hour,
		Rule: "histories of 2-8 calls (in 1 of 20 cases repeated up to 150 times), two thirds of them unanswered, answered in part, or answered after the time-out (late answers arrive between calls, or are dropped when the next request comes), with pauses of 0-10 s and changing unit values, ending with a prompt answer. Oracle: every promptly answered call succeeds and returns exactly its own answer; unanswered ones fail. Non-trivial: a prompt answer after an unanswered request",
		Run:  runC11,
		Gen:  gC11,
	})
	core.Register(&core.Check{
		Prop: "C12", Name: "bounded", Mode: core.Fake, Quick: 60000, Thorough: 1200000, VirtualLimit: time.Minute,
		Rule: "one call answered by silence, a partial or late answer, a trickle of single bytes, endless noise or protocol elements at various rates, a fault, or a correct answer spread over up to 850 ms; slow writes. Oracle: in virtual time each exchange is over 1.2 s after its request, and answers complete within 850 ms are accepted. Non-trivial: unanswered, or complete only after 200 ms",
		Run:  runC12,
		Gen:  gC12,
	})
	core.Register(&core.Check{
		Prop: "C13", Name: "memory", Mode: core.Fake, Quick: 400, Thorough: 12000, VirtualLimit: 100 * time.Hour,
		Rule: "5000 operations with a cycle of 1-6 replies as for resources, on a line that forgets its history; the heap after a garbage collection before and after the last 4000. Oracle: less than 100 KB more. Non-trivial: some operation failed",
		Run:  runMemory,
		Gen: func(t *rapid.T) any {
			c := gC13(t).(c13Case)
			c.N, c.Par, c.Gap = 5000, 1, 0
			return c
		},
	})
	core.Register(&core.Check{
		Prop: "C13", Name: "resources", Mode: core.Fake, Quick: 18000, Thorough: 360000, VirtualLimit: 4 * time.Hour,
		Rule: "20-150 operations by 1-4 callers with a cycle of 1-6 replies: silent, late, truncated, faulty, ended by EOF or errors, or correct. Oracle: ten (virtual) seconds after the last one, at most 8 more goroutines exist than before. Non-trivial: some operation failed",
		Run:  runC13,
		Gen:  gC13,
	})
}
