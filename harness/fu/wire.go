// Package fu holds the harness's own model of the ventilation unit: its wire
// format, its state, and a line (connection) that misbehaves on demand. It is
// written from the protocol description and shares no code with comfo.
package fu

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
)

// Hex is a byte string that is written in hex in JSON.
type Hex []byte

// MarshalJSON writes hex.
func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }

// UnmarshalJSON reads hex.
func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	v, err := hex.DecodeString(s)
	*h = v
	return err
}

const (
	esc   = 0x07
	cAck  = 0xF3
	cBeg  = 0xF0
	cEnd  = 0x0F
	magic = 173
)

// Ack is the acknowledgement sequence.
var Ack = []byte{esc, cAck}

// Checksum is (command + length + payload + 173) mod 256.
func Checksum(cmd byte, data []byte) byte {
	s := int(cmd) + len(data) + magic
	for _, b := range data {
		s += int(b)
	}
	return byte(s % 256)
}

// Escape doubles each 0x07.
func Escape(data []byte) (out []byte) {
	for _, b := range data {
		if b == esc {
			out = append(out, esc)
		}
		out = append(out, b)
	}
	return
}

// Unescape undoes Escape; a 0x07 that is not doubled is kept.
func Unescape(b []byte) (out []byte) {
	for i := 0; i < len(b); i++ {
		out = append(out, b[i])
		if b[i] == esc && i+1 < len(b) && b[i+1] == esc {
			i++
		}
	}
	return
}

// Body is the frame between the start and end sequences.
func Body(cmd byte, data []byte) []byte {
	out := []byte{0, cmd, byte(len(data))}
	out = append(out, Escape(data)...)
	return append(out, Checksum(cmd, data))
}

// Frame is a whole frame with start and end sequences.
func Frame(cmd byte, data []byte) []byte {
	out := []byte{esc, cBeg}
	out = append(out, Body(cmd, data)...)
	return append(out, esc, cEnd)
}

// Req is a parsed request frame.
type Req struct {
	Cmd  byte
	Data []byte
}

// HostParser strictly parses the host-to-unit byte stream: ACKs and frames.
type HostParser struct {
	buf []byte
	// OnAck and OnReq are called for each complete element.
	OnAck func()
	OnReq func(Req)
	// Err is the first deviation from the wire format.
	Err string
}

// Pending tells how many bytes of an incomplete element are held.
func (p *HostParser) Pending() int { return len(p.buf) }

// Feed parses more bytes.
func (p *HostParser) Feed(b []byte) {
	p.buf = append(p.buf, b...)
	for p.Err == "" {
		n := p.step()
		if n == 0 {
			return
		}
		p.buf = p.buf[n:]
	}
}

func (p *HostParser) bad(f string, a ...any) int {
	p.Err = fmt.Sprintf(f, a...) + fmt.Sprintf(" in %x", p.buf)
	return 0
}

func (p *HostParser) step() int {
	b := p.buf
	if len(b) >= 1 && b[0] != esc {
		return p.bad("host sent a byte outside any sequence")
	}
	if len(b) < 2 {
		return 0
	}
	switch b[1] {
	case cAck:
		if p.OnAck != nil {
			p.OnAck()
		}
		return 2
	case cBeg:
	default:
		return p.bad("host sent an unknown control sequence")
	}
	if len(b) < 5 {
		return 0
	}
	if b[2] != 0 {
		return p.bad("first command byte is not zero")
	}
	cmd, n := b[3], int(b[4])
	i := 5
	var data []byte
	for len(data) < n {
		if i >= len(b) {
			return 0
		}
		if b[i] == esc {
			if i+1 >= len(b) {
				return 0
			}
			if b[i+1] != esc {
				return p.bad("0x07 not doubled in payload")
			}
			i++
		}
		data = append(data, b[i])
		i++
	}
	if len(b) < i+3 {
		return 0
	}
	if b[i] != Checksum(cmd, data) {
		return p.bad("wrong checksum")
	}
	if b[i+1] != esc || b[i+2] != cEnd {
		return p.bad("missing end sequence")
	}
	if p.OnReq != nil {
		p.OnReq(Req{cmd, data})
	}
	return i + 3
}

// ValidBody is the reference verdict on a byte string given to a frame
// decoder: the payload it must yield, or false. A lone 0x07 in the payload
// region stands for nothing.
func ValidBody(in []byte) (cmd byte, data []byte, ok bool) {
	if len(in) < 4 {
		return 0, nil, false
	}
	reg := in[3 : len(in)-1]
	data = []byte{}
	for i := 0; i < len(reg); {
		switch {
		case reg[i] != esc:
			data = append(data, reg[i])
			i++
		case i+1 < len(reg) && reg[i+1] == esc:
			data = append(data, esc)
			i += 2
		default:
			i++
		}
	}
	if int(in[2]) != len(data) || in[len(in)-1] != Checksum(in[1], data) {
		return 0, nil, false
	}
	return in[1], data, true
}
