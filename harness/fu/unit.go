package fu

import (
	"bytes"
	"fmt"
	"strings"
)

// Request commands.
const (
	CFans     = 0x0B
	CBoot     = 0x67
	CFirm     = 0x69
	CSpeed    = 0x99
	CProf     = 0xCD
	CSetProf  = 0xCF
	CTemps    = 0xD1
	CSetTemp  = 0xD3
	CErrs     = 0xD9
	CHours    = 0xDD
	CBypass   = 0xDF
	AnyReadRq = 0
)

// State is the unit's state, as the raw payloads of its answers.
type State struct {
	Temps  Hex `json:"temps"`  // 9
	Bypass Hex `json:"bypass"` // 7
	Fans   Hex `json:"fans"`   // 6
	Hours  Hex `json:"hours"`  // 20
	Boot   Hex `json:"boot"`   // 13
	Firm   Hex `json:"firm"`   // 13
	Prof   Hex `json:"prof"`   // 14
	Errs   Hex `json:"errs"`   // 17
}

// Size is the payload size of the answer to a read command.
func Size(cmd byte) int {
	switch cmd {
	case CTemps:
		return 9
	case CBypass:
		return 7
	case CFans:
		return 6
	case CHours:
		return 20
	case CBoot, CFirm:
		return 13
	case CProf:
		return 14
	case CErrs:
		return 17
	}
	return -1
}

// Field returns the raw payload for a read command.
func (s *State) Field(cmd byte) *Hex {
	switch cmd {
	case CTemps:
		return &s.Temps
	case CBypass:
		return &s.Bypass
	case CFans:
		return &s.Fans
	case CHours:
		return &s.Hours
	case CBoot:
		return &s.Boot
	case CFirm:
		return &s.Firm
	case CProf:
		return &s.Prof
	case CErrs:
		return &s.Errs
	}
	return nil
}

// Clone copies the state.
func (s State) Clone() State {
	c := s
	for _, cmd := range ReadCmds {
		f := c.Field(cmd)
		*f = append(Hex(nil), *f...)
	}
	return c
}

// ReadCmds are all read commands.
var ReadCmds = []byte{CTemps, CBypass, CFans, CHours, CBoot, CFirm, CProf, CErrs}

// Profile percentages by mode 0-3 (away, low, mid, high).
var outIdx = [4]int{0, 1, 2, 10}
var inIdx = [4]int{3, 4, 5, 11}

// Out and In give a profile's percentages; mode is 0-3.
func (s *State) Out(mode int) byte { return s.Prof[outIdx[mode]] }

// In gives the supply percentage of a profile.
func (s *State) In(mode int) byte { return s.Prof[inIdx[mode]] }

// SetInOut sets a profile's percentages.
func (s *State) SetInOut(mode int, in, out byte) { s.Prof[inIdx[mode]], s.Prof[outIdx[mode]] = in, out }

// Unit is the stateful unit.
type Unit struct {
	State
	// FanLag is how many fan reads after a speed change still report the old
	// percentages (in, out separately). Negative: for ever.
	LagIn, LagOut   int
	NoFollow        bool // the fans do not follow the speed
	wantIn, wantOut int  // pending percentages, -1 none
	leftIn, leftOut int
}

// NewUnit returns a unit in the given state.
func NewUnit(s State) *Unit { return &Unit{State: s.Clone(), wantIn: -1, wantOut: -1} }

// Apply executes a request and returns the answer payload (nil for a set).
// ok is false if the unit does not know the request.
func (u *Unit) Apply(r Req) (answer []byte, isGet, ok bool) {
	if f := u.Field(r.Cmd); f != nil {
		if len(r.Data) != 0 {
			return nil, false, false
		}
		if r.Cmd == CFans {
			u.settle()
		}
		return append([]byte(nil), *f...), true, true
	}
	switch r.Cmd {
	case CSpeed:
		if len(r.Data) != 1 || r.Data[0] > 4 {
			return nil, false, false
		}
		v := r.Data[0]
		u.Prof[8] = v
		if v >= 1 {
			m := int(v - 1)
			u.Prof[6], u.Prof[7] = u.Out(m), u.In(m)
			if u.NoFollow {
				break
			}
			u.wantIn, u.wantOut = int(u.In(m)), int(u.Out(m))
			u.leftIn, u.leftOut = u.LagIn, u.LagOut
		}
	case CSetTemp:
		if len(r.Data) != 1 {
			return nil, false, false
		}
		u.Temps[0] = r.Data[0]
	case CSetProf:
		if len(r.Data) != 8 {
			return nil, false, false
		}
		d := r.Data
		u.Prof[0], u.Prof[1], u.Prof[2], u.Prof[10] = d[0], d[1], d[2], d[6]
		u.Prof[3], u.Prof[4], u.Prof[5], u.Prof[11] = d[3], d[4], d[5], d[7]
	default:
		return nil, false, false
	}
	return nil, false, true
}

func (u *Unit) settle() {
	if u.wantIn >= 0 {
		if u.leftIn == 0 {
			u.Fans[0] = byte(u.wantIn)
			u.wantIn = -1
		} else if u.leftIn > 0 {
			u.leftIn--
		}
	}
	if u.wantOut >= 0 {
		if u.leftOut == 0 {
			u.Fans[1] = byte(u.wantOut)
			u.wantOut = -1
		} else if u.leftOut > 0 {
			u.leftOut--
		}
	}
}

func be(b []byte) (v uint32) {
	for _, x := range b {
		v = v<<8 | uint32(x)
	}
	return
}

// Temp is the documented value of a temperature byte, in whole degrees.
func Temp(b byte) int { return int(b)/2 - 20 }

func temps(p []byte) string {
	return fmt.Sprintf("comfort=%d outside=%d supply=%d inside=%d exhaust=%d geo=%d reheat=%d kitchen=%d",
		Temp(p[0]), Temp(p[1]), Temp(p[2]), Temp(p[3]), Temp(p[4]), Temp(p[6]), Temp(p[7]), Temp(p[8]))
}

// Text is the reference decoding of the answer to a read command, as
// canonical text. err tells that it must be refused.
func Text(cmd byte, p []byte) (s string, err bool) {
	if len(p) != Size(cmd) {
		return "", true
	}
	switch cmd {
	case CTemps:
		return temps(p), false
	case CBypass:
		return fmt.Sprintf("factor=%d level=%d corr=%d summer=%v", p[2], p[3], p[4], p[6] == 1), false
	case CFans:
		in, out := be(p[2:4]), be(p[4:6])
		if in == 0 || out == 0 {
			return "", true
		}
		return fmt.Sprintf("in=%d out=%d inrpm=%d outrpm=%d", p[0], p[1], 1875000/in, 1875000/out), false
	case CHours:
		return fmt.Sprintf("away=%d low=%d mid=%d high=%d frost=%d reheat=%d bypass=%d filter=%d",
			be(p[0:3]), be(p[3:6]), be(p[6:9]), be(p[17:20]), be(p[9:11]), be(p[11:13]), be(p[13:15]), be(p[15:17])), false
	case CBoot, CFirm:
		return fmt.Sprintf("major=%d minor=%d beta=%d name=%q", p[0], p[1], p[2], strings.TrimSpace(string(p[3:13]))), false
	case CProf:
		return fmt.Sprintf("out=%d/%d/%d/%d in=%d/%d/%d/%d active=%v curout=%d curin=%d mode=%d",
			p[0], p[1], p[2], p[10], p[3], p[4], p[5], p[11], p[9] == 1, p[6], p[7], p[8]), false
	case CErrs:
		return fmt.Sprintf("filter=%v", p[8] == 1), false
	}
	return "", true
}

// Equal compares two states.
func (s State) Equal(o State) bool {
	for _, c := range ReadCmds {
		if !bytes.Equal(*s.Field(c), *o.Field(c)) {
			return false
		}
	}
	return true
}
