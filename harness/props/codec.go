package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"slices"
	"time"

	"comfoverif/core"
	"comfoverif/fu"

	"github.com/ti-mo/comfo/libcomfo"
	"pgregory.net/rapid"
)

// --- C01 ---

type c01Case struct {
	Cmd  byte   `json:"cmd"`
	Data fu.Hex `json:"data,omitempty"`
	Sel  int    `json:"sel,omitempty"` // enumeration block
}

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }

func c01One(cmd byte, data []byte) string {
	in := append([]byte(nil), data...)
	want := data
	b, err := libcomfo.MarshalPacket(libcomfo.Packet{Command: cmd, Data: in})
	var s sink
	ok, werr := libcomfo.WritePacket(libcomfo.Packet{Command: cmd, Data: in}, &s)
	if !bytes.Equal(in, want) {
		return fmt.Sprintf("encoding changed its input %x to %x", want, in)
	}
	if len(data) > 255 {
		if err == nil || werr == nil || ok || len(s.b) > 0 {
			return fmt.Sprintf("payload of %d bytes was not refused (%v, %v, %v, %d bytes written)", len(data), err, ok, werr, len(s.b))
		}
		return ""
	}
	if err != nil || werr != nil {
		return fmt.Sprintf("encoding command %#02x payload %x failed: %v / %v", cmd, data, err, werr)
	}
	// What was encoded must not change when something else is encoded.
	other := make([]byte, len(data))
	for i := range other {
		other[i] = ^data[i]
	}
	if _, err := libcomfo.MarshalPacket(libcomfo.Packet{Command: ^cmd, Data: other}); err != nil {
		return fmt.Sprintf("encoding command %#02x payload %x failed: %v", ^cmd, other, err)
	}
	ref := fu.Body(cmd, data)
	if !bytes.Equal(b, ref) {
		return fmt.Sprintf("command %#02x payload %x encodes to %x, want %x", cmd, data, b, ref)
	}
	if !bytes.Equal(s.b, fu.Frame(cmd, data)) {
		return fmt.Sprintf("command %#02x payload %x is written as %x, want %x", cmd, data, s.b, fu.Frame(cmd, data))
	}
	p, err := libcomfo.UnmarshalPacket(b)
	if err != nil || p.Command != cmd || !bytes.Equal(p.Data, data) {
		return fmt.Sprintf("command %#02x payload %x decodes back to %#02x %x (%v)", cmd, data, p.Command, p.Data, err)
	}
	if !bytes.Equal(b, ref) {
		return fmt.Sprintf("decoding changed its input %x to %x", ref, b)
	}
	// What was decoded must not change with its input.
	for i := range b {
		b[i] = ^b[i]
	}
	if !bytes.Equal(p.Data, data) {
		return fmt.Sprintf("payload %x became %x when the input to the decoding was overwritten", data, p.Data)
	}
	return ""
}

func runC01(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c01Case](raw)
	try := func(cmd byte, d []byte) {
		o.Evals++
		o.Distinct++
		if v := c01One(cmd, d); v != "" {
			o.Failf("%s", v)
		}
	}
	switch c.Sel {
	case 1: // all commands with all one-byte payloads, and none
		for cmd := 0; cmd < 256; cmd++ {
			try(byte(cmd), nil)
			try(byte(cmd), []byte{})
			for b := 0; b < 256; b++ {
				try(byte(cmd), []byte{byte(b)})
			}
		}
		o.NonTrivial = true
	case 2: // all two-byte payloads, and three special bytes, for one command
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				try(c.Cmd, []byte{byte(a), byte(b)})
			}
		}
		sp := []byte{0x07, 0x0F, 0xF0, 0xF3, 0, 1, 0xFF, 6, 8}
		for _, a := range sp {
			for _, b := range sp {
				for _, d := range sp {
					for _, e := range sp {
						try(c.Cmd, []byte{a, b, d, e})
					}
				}
			}
		}
		o.NonTrivial = true
	case 3: // all lengths 0-600, uniform bytes
		for n := 0; n <= 600; n++ {
			for _, b := range []byte{0x07, 0x00, 0xFF, 0x0F, 0x41} {
				try(c.Cmd, bytes.Repeat([]byte{b}, n))
			}
			d := make([]byte, n)
			for i := range d {
				d[i] = byte(i)
			}
			try(c.Cmd, d)
		}
		for _, n := range []int{1 << 10, 1<<15 + 3, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<16 + 255, 1<<17 + 7, 1 << 20, 1<<24 + 9} {
			try(c.Cmd, make([]byte, n))
			try(c.Cmd, bytes.Repeat([]byte{0x07}, n))
		}
		o.NonTrivial = true
	default:
		o.Failf2(c01One(c.Cmd, c.Data))
		if bytes.IndexByte(c.Data, 7) >= 0 {
			o.Label("has 0x07")
			o.NonTrivial = true
		}
		if len(c.Data) > 255 {
			o.Label("too long")
			o.NonTrivial = true
		}
		if len(c.Data) <= 255 && fu.Checksum(c.Cmd, c.Data) == 7 {
			o.Label("checksum 0x07")
		}
	}
	return
}

// --- C02 ---

type c02Case struct {
	In   fu.Hex `json:"in,omitempty"`
	Cmd  byte   `json:"cmd,omitempty"`
	Data fu.Hex `json:"data,omitempty"`
	All  bool   `json:"all,omitempty"` // all single-byte replacements and all cuts of the frame
}

func c02Decode(in []byte, mustFail bool) string {
	buf := append([]byte(nil), in...)
	p, err := libcomfo.UnmarshalPacket(buf)
	if !bytes.Equal(buf, in) {
		return fmt.Sprintf("decoding changed its input %x to %x", in, buf)
	}
	if err != nil {
		return ""
	}
	if mustFail {
		return fmt.Sprintf("damaged frame %x was accepted as %#02x %x", in, p.Command, p.Data)
	}
	cmd, data, ok := fu.ValidBody(in)
	if !ok {
		return fmt.Sprintf("malformed frame %x was accepted as %#02x %x", in, p.Command, p.Data)
	}
	if p.Command != cmd || !bytes.Equal(p.Data, data) {
		return fmt.Sprintf("frame %x decoded to %#02x %x, want %#02x %x", in, p.Command, p.Data, cmd, data)
	}
	return ""
}

func runC02(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c02Case](raw)
	if !c.All {
		o.Failf2(c02Decode(c.In, false))
		if _, _, ok := fu.ValidBody(c.In); ok {
			o.Label("valid")
		}
		o.NonTrivial = len(c.In) >= 4
		return
	}
	b := fu.Body(c.Cmd, c.Data)
	for i := 1; i < len(b); i++ {
		for v := 0; v < 256; v++ {
			if byte(v) == b[i] {
				continue
			}
			m := append([]byte(nil), b...)
			m[i] = byte(v)
			o.Evals++
			o.Failf2(c02Decode(m, true))
		}
	}
	for i := 0; i < len(b); i++ {
		o.Evals++
		o.Failf2(c02Decode(b[:i], true))
	}
	for v := 0; v < 256; v++ { // the leading byte is not covered; appended bytes are
		m := append([]byte(nil), b...)
		m[0] = byte(v)
		o.Evals += 2
		o.Failf2(c02Decode(m, false))
		o.Failf2(c02Decode(append(m, byte(v)), false))
	}
	o.NonTrivial = true
	return
}

// --- C03 ---

type c03Ex struct {
	Cmd  byte     `json:"cmd"`
	Data fu.Hex   `json:"data,omitempty"`
	R    fu.Reply `json:"r"`
	Via  int      `json:"via,omitempty"` // 0 QueryPacket, 1 ReadPacket
}

type c03Case struct {
	Ex []c03Ex `json:"ex"`
}

func runC03(raw json.RawMessage) (o core.Outcome) {
	c := core.Decode[c03Case](raw)
	l := fu.NewLine(fu.NewUnit(fu.State{}))
	defer l.Close()
	cur := 0
	l.Generic = func(r fu.Req) ([]byte, bool, bool) { return c.Ex[cur].Data, true, true }
	l.Pick = func(r fu.Req, n int) fu.Reply { return c.Ex[cur].R }
	var got []libcomfo.Packet
	for i, e := range c.Ex {
		cur = i
		var p libcomfo.Packet
		var err error
		if e.Via == 1 {
			l.Answer(e.Cmd, e.Data, e.R)
			p, err = libcomfo.ReadPacket(l, time.NewTimer(time.Second), true)
			time.Sleep(ms(5))
		} else {
			p, err = libcomfo.QueryPacket(libcomfo.Packet{Command: e.Cmd, Expect: true}, l)
		}
		if err != nil {
			o.Failf("exchange %d: reply %x (cuts %v) failed: %v", i, fu.Correct(e.Cmd, e.Data, true), e.R.Cuts, err)
			return
		}
		if p.Command != e.Cmd+1 || !bytes.Equal(p.Data, e.Data) {
			o.Failf("exchange %d: reply with command %#02x payload %x was read as %#02x %x", i, e.Cmd+1, e.Data, p.Command, p.Data)
			return
		}
		got = append(got, p)
		wire := fu.Body(e.Cmd+1, e.Data)
		for j := 0; j+1 < len(wire); j++ {
			if wire[j] == 7 && (wire[j+1] == 0x0F || wire[j+1] == 0xF0 || wire[j+1] == 0xF3) {
				o.Label("control bytes inside the frame")
				o.NonTrivial = true
			}
		}
		if bytes.IndexByte(wire, 7) >= 0 {
			o.Label("0x07 inside the frame")
			o.NonTrivial = true
		}
		if wire[len(wire)-1] == 7 {
			o.Label("checksum 0x07")
		}
		if wire[2] == 7 {
			o.Label("length 7")
		}
		if len(e.R.Cuts) > 0 {
			o.Label("fragmented")
		}
	}
	for i, e := range c.Ex {
		if !bytes.Equal(got[i].Data, e.Data) {
			o.Failf("packet of exchange %d changed from %x to %x after later exchanges", i, e.Data, got[i].Data)
		}
	}
	if p := l.Problems(); p != "" {
		o.Failf("%s", p)
	}
	return
}

func gC03(t *rapid.T) any {
	var c c03Case
	for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
		var e c03Ex
		e.Cmd = gByte(t, "cmd")
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 6, 7, 7, 7, 9, 14, 15, 17, 20, 240, 243, 255, -1}).Draw(t, "len")
		if n < 0 {
			n = rapid.IntRange(0, 255).Draw(t, "len2")
		}
		if rapid.IntRange(0, 2).Draw(t, "real") == 0 {
			e.Cmd = rapid.SampledFrom(fu.ReadCmds).Draw(t, "rc")
			n = fu.Size(e.Cmd)
		}
		e.Data = gPayload(t, "data", e.Cmd+1, n)
		e.R = fu.Reply{Kind: "ok", Delay: rapid.SampledFrom([]int{0, 1, 100}).Draw(t, "delay")}
		e.R.Cuts, e.R.Gaps = gCuts(t, "cut", n+9, 500)
		if len(e.R.Cuts) > 0 && rapid.IntRange(0, 3).Draw(t, "empty") == 0 {
			e.R.Empty = true
			at := rapid.IntRange(0, len(e.R.Cuts)-1).Draw(t, "at")
			z := make([]int, rapid.SampledFrom([]int{1, 2, 20}).Draw(t, "zeros"))
			e.R.Cuts = slices.Insert(e.R.Cuts, at, z...)
			if at <= len(e.R.Gaps) {
				e.R.Gaps = slices.Insert(e.R.Gaps, at, z...)
			}
		}
		e.Via = rapid.IntRange(0, 1).Draw(t, "via")
		c.Ex = append(c.Ex, e)
	}
	return c
}

// c03Enum: for each frame, every way of cutting it in two, and byte by byte.
func c03Fixed(tier string) (out []any) {
	sp := []byte{0x07, 0x0F, 0xF0, 0xF3, 0x41}
	add := func(cmd byte, d []byte) {
		n := len(fu.Correct(cmd, d, true))
		var ex []c03Ex
		for k := 0; k <= n; k++ {
			g := []int{0}
			if k%2 == 0 {
				g = []int{3}
			}
			ex = append(ex, c03Ex{Cmd: cmd, Data: d, R: fu.Reply{Kind: "ok", Delay: 1, Cuts: []int{k}, Gaps: g}})
		}
		cuts := make([]int, n)
		for i := range cuts {
			cuts[i] = 1
		}
		ex = append(ex, c03Ex{Cmd: cmd, Data: d, R: fu.Reply{Kind: "ok", Delay: 1, Cuts: cuts}})
		out = append(out, c03Case{ex})
	}
	depth := 3
	if tier == "thorough" {
		depth = 5
	}
	var rec func(d []byte)
	rec = func(d []byte) {
		add(0xD1, append([]byte(nil), d...))
		if len(d) == depth {
			return
		}
		for _, b := range sp {
			rec(append(d, b))
		}
	}
	rec(nil)
	// All first payload bytes behind length byte 7, and every checksum value.
	for b := 0; b < 256; b++ {
		out = append(out, c03Case{[]c03Ex{
			{Cmd: 0xDF, Data: fu.Hex{byte(b), 1, 2, 3, 4, 5, 6}, R: fu.Reply{Kind: "ok"}},
			{Cmd: 0xDF, Data: fu.Hex{1, byte(b), 7, 0x0F, 4, 5, 6}, R: fu.Reply{Kind: "ok", Cuts: []int{8}}},
			{Cmd: 0xD1, Data: fu.Hex{7, byte(b), 7, 7, 15, 7}, R: fu.Reply{Kind: "ok"}},
		}})
	}
	return
}

func init() {
	core.Register(&core.Check{
		Prop: "C01", Name: "codec", Mode: core.Fake, Quick: 120000, Thorough: 2400000,
		Rule: "a command and a payload of 0-600 bytes (half the bytes from {07,0F,F0,F3,00,...}; checksums steered to special values); enumerated: every command with every 0- and 1-byte payload, all 2-byte and special 4-byte payloads, uniform payloads of every length 0-600 and up to 16 MB. Oracle: own encoder, round trip, inputs unchanged, results unchanged by later encodings or by overwriting the input. Non-trivial: payload contains 0x07 or exceeds 255 bytes; enumerated inputs are distinct by construction",
		Run:  runC01,
		Gen: func(t *rapid.T) any {
			c := c01Case{Cmd: gByte(t, "cmd")}
			n := rapid.SampledFrom([]int{0, 1, 2, 7, 8, 100, 127, 128, 254, 255, 256, 257, 510, 512, -1}).Draw(t, "n")
			if n < 0 {
				n = rapid.IntRange(0, 600).Draw(t, "n2")
			}
			c.Data = gPayload(t, "d", c.Cmd, n)
			return c
		},
		Fixed: func(tier string) (out []any) {
			out = append(out, c01Case{Sel: 1}, c01Case{Sel: 3, Cmd: 0xD1}, c01Case{Sel: 3, Cmd: 0xFF})
			for _, cmd := range []byte{0, 7, 0xCF, 0xFF} {
				out = append(out, c01Case{Sel: 2, Cmd: cmd})
			}
			return
		},
	})
	core.Register(&core.Check{
		Prop: "C02", Name: "decode", Mode: core.Fake, Quick: 100000, Thorough: 2000000,
		Rule: "(a) a frame and all its single-byte replacements, all its truncations and one-byte extensions; (b) a frame with 1-3 random edits, or bytes assembled from protocol elements. Oracle: a decoder written from the format; replacements and truncations must all fail. Non-trivial: at least 4 bytes long",
		Run:  runC02,
		Gen: func(t *rapid.T) any {
			var c c02Case
			switch rapid.IntRange(0, 4).Draw(t, "how") {
			case 4: // a length byte that is wrong, or right but for its missing high bits, and a fitting checksum
				c.Cmd = gByte(t, "cmd")
				k := rapid.SampledFrom([]int{0, 1, 2, 4, 7, 10, 13, 14}).Draw(t, "len")
				n := k + rapid.SampledFrom([]int{0, 256, 512, 1, 128}).Draw(t, "more")
				data := gPayload(t, "d", c.Cmd, n)
				b := fu.Body(c.Cmd, data)
				if b[2] != byte(k) {
					b[len(b)-1] += byte(k) - b[2]
					b[2] = byte(k)
				}
				c.In = b
			case 0:
				c.All = true
				c.Cmd = gByte(t, "cmd")
				n := rapid.IntRange(0, 24).Draw(t, "n")
				c.Data = gPayload(t, "d", c.Cmd, n)
			case 1:
				c.In = gBytes(t, "in", 0, 12)
			case 2:
				c.In = gRawAnswer(t, "raw")
			default:
				cmd := gByte(t, "cmd")
				b := fu.Body(cmd, gPayload(t, "d", cmd, rapid.IntRange(0, 30).Draw(t, "n")))
				for k := rapid.IntRange(0, 3).Draw(t, "edits"); k > 0 && len(b) > 0; k-- {
					i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
					switch rapid.IntRange(0, 3).Draw(t, "edit") {
					case 0:
						b = append(b[:i:i], b[i+1:]...)
					case 1:
						b = append(append(append([]byte(nil), b[:i]...), gByte(t, "ins")), b[i:]...)
					case 2:
						b[i] = gByte(t, "set")
					case 3: // make length and checksum fit again
						if len(b) >= 4 {
							data := fu.Unescape(b[3 : len(b)-1])
							b[2], b[len(b)-1] = byte(len(data)), fu.Checksum(b[1], data)
						}
					}
				}
				c.In = b
			}
			return c
		},
		Fixed: func(tier string) (out []any) {
			for _, d := range []fu.Hex{nil, {7}, {7, 7}, {1}, {0, 7, 0}, {7, 7, 7}, {15, 7, 15}, {7, 0, 7, 255, 7, 7, 240}} {
				for _, cmd := range []byte{0, 7, 0xD2, 0xFF} {
					out = append(out, c02Case{All: true, Cmd: cmd, Data: d})
				}
			}
			// payloads too long for the length byte
			for n := 250; n <= 780; n++ {
				d := bytes.Repeat([]byte{0x41}, n)
				b := fu.Body(0xD2, d)
				out = append(out, c02Case{In: b})
			}
			for _, n := range []int{1<<16 - 1, 1 << 16, 1<<16 + 4, 1<<17 + 9} {
				out = append(out, c02Case{In: fu.Body(0xD2, bytes.Repeat([]byte{0x41}, n))})
			}
			// long frames, damaged everywhere
			for _, n := range []int{64, 128, 254, 255} {
				d := make(fu.Hex, n)
				for i := range d {
					d[i] = byte(i*3 + n)
				}
				out = append(out, c02Case{All: true, Cmd: 0xD2, Data: d})
			}
			return
		},
	})
	core.Register(&core.Check{
		Prop: "C03", Name: "reply", Mode: core.Fake, Quick: 100000, Thorough: 2000000,
		Rule:  "1-3 exchanges on one line, each answered by ACK and a well-formed frame with any command and a payload of 0-255 bytes (dense in 07/0F/F0/F3, checksum steered), cut into arbitrary reads with gaps; read by the query function and by the packet reader; enumerated: all payloads up to length 3 (thorough 5) over {07,0F,F0,F3,41}, each at every split point, and special positions with all byte values. Oracle: payload and command equal what was framed; earlier packets unchanged. Non-trivial: the frame contains 0x07",
		Run:   runC03,
		Gen:   gC03,
		Fixed: c03Fixed,
	})
}
