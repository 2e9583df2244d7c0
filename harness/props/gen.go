// Package props holds the checks, one file per group of properties.
package props

import (
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"time"

	"comfoverif/core"
	"comfoverif/fu"

	"github.com/ti-mo/comfo/libcomfo"
	"pgregory.net/rapid"
)

// special bytes of the protocol and of the integer domains.
var special = []byte{0x07, 0x07, 0x07, 0x0F, 0xF0, 0xF3, 0x00, 0x01, 0x02, 0x7F, 0x80, 0xFE, 0xFF, 173, 256 - 173}

// gByte draws a byte, half the time a special one.
func gByte(t *rapid.T, l string) byte {
	if rapid.Bool().Draw(t, l+"?") {
		return rapid.SampledFrom(special).Draw(t, l+"s")
	}
	return rapid.Byte().Draw(t, l)
}

// gBytes draws between lo and hi bytes.
func gBytes(t *rapid.T, l string, lo, hi int) fu.Hex {
	n := rapid.IntRange(lo, hi).Draw(t, l+"n")
	out := make(fu.Hex, n)
	dense := rapid.IntRange(0, 3).Draw(t, l+"dense")
	for i := range out {
		switch dense {
		case 0:
			out[i] = rapid.Byte().Draw(t, l)
		case 1: // mostly control bytes
			out[i] = rapid.SampledFrom([]byte{0x07, 0x07, 0x0F, 0xF0, 0xF3, 0x00}).Draw(t, l)
		default:
			out[i] = gByte(t, l)
		}
	}
	return out
}

// gPayload draws a payload of exactly n bytes, sometimes arranged so that its
// checksum for command cmd is an awkward value.
func gPayload(t *rapid.T, l string, cmd byte, n int) fu.Hex {
	d := gBytes(t, l, n, n)
	if n > 0 && rapid.IntRange(0, 2).Draw(t, l+"fix") == 0 {
		want := rapid.SampledFrom([]byte{0x07, 0x0F, 0xF0, 0xF3, 0x00, 0xFF}).Draw(t, l+"sum")
		i := rapid.IntRange(0, n-1).Draw(t, l+"at")
		d[i] += want - fu.Checksum(cmd, d)
	}
	return d
}

// gName draws a device name of ten bytes: printable or control ASCII, sometimes
// a two-byte letter, other white space or any bytes, padded in various ways.
func gName(t *rapid.T, l string) fu.Hex {
	kind := rapid.IntRange(0, 7).Draw(t, l+"kind")
	out := make(fu.Hex, 10)
	if kind == 6 {
		for i := range out {
			out[i] = rapid.Byte().Draw(t, l+"any")
		}
		return out
	}
	for i := range out {
		switch kind {
		case 0:
			out[i] = rapid.SampledFrom([]byte(" \t\n\r\v\fAz")).Draw(t, l)
		case 1:
			out[i] = rapid.ByteRange(0, 0x7E).Draw(t, l)
		default:
			out[i] = rapid.ByteRange(0x20, 0x7E).Draw(t, l)
		}
	}
	if kind == 2 {
		copy(out[rapid.IntRange(0, 8).Draw(t, l+"u"):], "é")
	}
	if kind == 7 {
		w := rapid.SampledFrom([]string{"\u0085", "\u00a0", "\u2003", "\u3000", "\u200b", "\ufeff"}).Draw(t, l+"w")
		if rapid.Bool().Draw(t, l+"end") {
			copy(out[10-len(w):], w)
		} else {
			copy(out, w)
		}
	}
	if kind == 3 {
		for i := rapid.IntRange(0, 9).Draw(t, l+"pad"); i < 10; i++ {
			out[i] = ' '
		}
		for i := 0; i < rapid.IntRange(0, 4).Draw(t, l+"lpad"); i++ {
			out[i] = ' '
		}
	}
	return out
}

// gField draws the payload of one answer that is not to be refused.
func gField(t *rapid.T, l string, cmd byte) fu.Hex {
	n := fu.Size(cmd)
	d := gPayload(t, l, cmd+1, n)
	switch cmd {
	case fu.CBoot, fu.CFirm:
		copy(d[3:], gName(t, l+"name"))
	case fu.CFans:
		for i := 2; i < 6; i += 2 { // raw speed zero is refused
			if rapid.IntRange(0, 7).Draw(t, l+"fast") == 0 {
				d[i], d[i+1] = 0, rapid.ByteRange(1, 40).Draw(t, l+"raw")
			}
			if d[i] == 0 && d[i+1] == 0 {
				d[i+1] = 1
			}
		}
	case fu.CBypass:
		d[6] = rapid.SampledFrom([]byte{0, 1, 1, 2, 7, 255}).Draw(t, l+"flag")
	case fu.CErrs:
		d[8] = rapid.SampledFrom([]byte{0, 1, 1, 2, 7, 255}).Draw(t, l+"flag")
	case fu.CProf:
		d[9] = rapid.SampledFrom([]byte{0, 1, 1, 2, 7, 255}).Draw(t, l+"flag")
	}
	return d
}

// gState draws a whole unit state.
func gState(t *rapid.T, l string) fu.State {
	var s fu.State
	for _, c := range fu.ReadCmds {
		*s.Field(c) = gField(t, fmt.Sprintf("%s%02x", l, c), c)
	}
	return s
}

// gCuts draws a fragmentation of n bytes with gaps adding up to at most maxMs.
func gCuts(t *rapid.T, l string, n, maxMs int) (cuts, gaps []int) {
	k := 0
	switch rapid.IntRange(0, 4).Draw(t, l+"mode") {
	case 0:
	case 1: // byte by byte
		for i := 0; i < n && i < 600; i++ {
			cuts = append(cuts, 1)
		}
		if rapid.Bool().Draw(t, l+"slow") && n > 0 {
			if g := maxMs / (n + 1); g > 0 {
				for range cuts {
					gaps = append(gaps, g)
				}
			}
		}
		return
	case 2:
		k = 1
	default:
		k = rapid.IntRange(1, 6).Draw(t, l+"k")
	}
	for i := 0; i < k; i++ {
		cuts = append(cuts, rapid.IntRange(1, max(1, n)).Draw(t, l+"c"))
		g := rapid.SampledFrom([]int{0, 0, 1, 5, 40, maxMs / 8}).Draw(t, l+"g")
		gaps = append(gaps, min(g, maxMs/8))
	}
	return
}

// gOK draws a correct reply with arbitrary fragmentation, complete within about 0.8 s.
func gOK(t *rapid.T, l string) fu.Reply {
	r := fu.Reply{Kind: "ok", Delay: rapid.SampledFrom([]int{0, 1, 5, 30, 200, 400}).Draw(t, l+"delay")}
	r.Cuts, r.Gaps = gCuts(t, l+"cut", 30, 350)
	if k := len(r.Cuts); k > 1 && rapid.IntRange(0, 7).Draw(t, l+"empty") == 0 {
		r.Empty = true
		r.Cuts[rapid.IntRange(0, k-1).Draw(t, l+"eat")] = 0
	}
	return r
}

// gQuick draws a correct reply that takes a few milliseconds.
func gQuick(t *rapid.T, l string) fu.Reply {
	r := fu.Reply{Kind: "ok", Delay: rapid.SampledFrom([]int{0, 1, 3, 10}).Draw(t, l+"delay"), WLat: rapid.SampledFrom([]int{0, 0, 1, 4}).Draw(t, l+"wlat")}
	if rapid.IntRange(0, 3).Draw(t, l+"frag") == 0 {
		r.Cuts, r.Gaps = gCuts(t, l+"cut", 30, 40)
	}
	return r
}

// gFault draws a reply that is (usually) not a correct one.
func gFault(t *rapid.T, l string) fu.Reply {
	k := rapid.SampledFrom([]string{"silent", "raw", "raw", "flip", "flip", "drop", "ins", "trunc", "trunc", "cmd", "size", "sum", "sum", "noack", "ctl", "pre", "werr"}).Draw(t, l+"kind")
	r := fu.Reply{Kind: k, Delay: rapid.SampledFrom([]int{0, 1, 30, 400}).Draw(t, l+"delay")}
	switch k {
	case "raw":
		r.B = gRawAnswer(t, l+"raw")
	case "flip", "sum":
		r.N = rapid.IntRange(0, 60).Draw(t, l+"at")
		r.B = fu.Hex{rapid.ByteRange(1, 255).Draw(t, l+"xor")}
	case "drop", "trunc":
		r.N = rapid.IntRange(0, 60).Draw(t, l+"at")
	case "ins":
		r.N = rapid.IntRange(0, 60).Draw(t, l+"at")
		r.B = gBytes(t, l+"ins", 1, 3)
	case "cmd":
		r.B = fu.Hex{gByte(t, l+"cmd")}
		if rapid.Bool().Draw(t, l+"known") {
			r.B[0] = rapid.SampledFrom(fu.ReadCmds).Draw(t, l+"kc") + rapid.ByteRange(0, 1).Draw(t, l+"kd")
		}
	case "size":
		r.N = rapid.IntRange(0, 40).Draw(t, l+"size")
		r.B = gBytes(t, l+"pad", 1, 1)
	case "ctl":
		r.B = fu.Hex{rapid.SampledFrom([]byte{0xF0, 0x0F, 0x07, 0x00, 0xF4}).Draw(t, l+"ctl")}
	case "pre":
		r.B = gRawAnswer(t, l+"pre")
	case "werr":
		r.N = rapid.IntRange(0, 30).Draw(t, l+"short")
		if rapid.Bool().Draw(t, l+"heard") {
			r.B = rapid.SampledFrom([]fu.Hex{fu.Ack, {7, 0xF3, 7, 0xF0}, {7}, {0xF3}}).Draw(t, l+"what")
		}
		return r
	}
	r.Cuts, r.Gaps = gCuts(t, l+"cut", 30, 300)
	r.End = rapid.SampledFrom([]string{"", "", "eof", "err", "eof+"}).Draw(t, l+"end")
	return r
}

// gRawAnswer draws bytes made of protocol elements and noise.
func gRawAnswer(t *rapid.T, l string) (out fu.Hex) {
	for i := rapid.IntRange(1, 4).Draw(t, l+"n"); i > 0; i-- {
		switch rapid.IntRange(0, 6).Draw(t, l+"el") {
		case 0:
			out = append(out, 0x07, 0xF3)
		case 1:
			out = append(out, 0x07, 0xF0)
		case 2:
			out = append(out, 0x07, 0x0F)
		case 3:
			out = append(out, 0x07, 0x07)
		case 4:
			c := rapid.SampledFrom(fu.ReadCmds).Draw(t, l+"c")
			out = append(out, fu.Body(c+1, gPayload(t, l+"p", c+1, fu.Size(c)))...)
		default:
			out = append(out, gBytes(t, l+"noise", 1, 5)...)
		}
	}
	return
}

// LibOp is one libcomfo call.
type LibOp struct {
	Op string `json:"op"` // a read: temps bypass fans hours boot firm prof errs; a set: speed comfort profile profiles
	V  byte   `json:"v,omitempty"`
	M  byte   `json:"m,omitempty"`
	P  fu.Hex `json:"p,omitempty"` // profiles: eight percentages in wire order
}

var readOps = []string{"temps", "bypass", "fans", "hours", "boot", "firm", "prof", "errs"}

var opCmd = map[string]byte{"temps": fu.CTemps, "bypass": fu.CBypass, "fans": fu.CFans, "hours": fu.CHours,
	"boot": fu.CBoot, "firm": fu.CFirm, "prof": fu.CProf, "errs": fu.CErrs,
	"speed": fu.CSpeed, "comfort": fu.CSetTemp, "profiles": fu.CSetProf, "profile": fu.CProf}

// IsRead tells reads from sets.
func (o LibOp) IsRead() bool {
	switch o.Op {
	case "speed", "comfort", "profile", "profiles":
		return false
	}
	return true
}

// Refused tells whether the arguments are out of range.
func (o LibOp) Refused() bool {
	switch o.Op {
	case "speed":
		return o.V > 4
	case "comfort":
		return o.V > 107
	case "profile":
		return o.M > 3 || o.V > 100
	}
	return false
}

func gReadOp(t *rapid.T, l string) LibOp {
	return LibOp{Op: rapid.SampledFrom(readOps).Draw(t, l)}
}

// gSetOp draws a set with arguments in range, or out of range if wild.
func gSetOp(t *rapid.T, l string, wild bool) LibOp {
	o := LibOp{Op: rapid.SampledFrom([]string{"speed", "comfort", "profile", "profiles"}).Draw(t, l)}
	switch o.Op {
	case "speed":
		o.V = rapid.ByteRange(0, 4).Draw(t, l+"v")
		if wild && rapid.IntRange(0, 3).Draw(t, l+"w") == 0 {
			o.V = rapid.ByteRange(5, 255).Draw(t, l+"v")
		}
	case "comfort":
		o.V = rapid.ByteRange(0, 107).Draw(t, l+"v")
		if wild && rapid.IntRange(0, 3).Draw(t, l+"w") == 0 {
			o.V = rapid.SampledFrom([]byte{106, 107, 108, 109, 127, 128, 236, 255}).Draw(t, l+"v")
		}
	case "profile":
		o.M = rapid.ByteRange(0, 3).Draw(t, l+"m")
		o.V = rapid.ByteRange(0, 100).Draw(t, l+"v")
		if wild && rapid.IntRange(0, 3).Draw(t, l+"w") == 0 {
			if rapid.Bool().Draw(t, l+"wm") {
				o.M = rapid.ByteRange(4, 255).Draw(t, l+"m")
			} else {
				o.V = rapid.ByteRange(101, 255).Draw(t, l+"v")
			}
		}
	case "profiles":
		o.P = make(fu.Hex, 8)
		for i := range o.P {
			o.P[i] = rapid.ByteRange(0, 100).Draw(t, l+"p")
		}
	}
	return o
}

// gAnyOp draws any call.
func gAnyOp(t *rapid.T, l string, wild bool) LibOp {
	if rapid.Bool().Draw(t, l+"r") {
		return gReadOp(t, l)
	}
	return gSetOp(t, l, wild)
}

// Wire is the request payload of a set.
func (o LibOp) Wire() []byte {
	switch o.Op {
	case "speed":
		return []byte{o.V}
	case "comfort":
		return []byte{(o.V + 20) * 2}
	case "profiles":
		return o.P
	}
	return nil
}

// Profiles builds the bulk argument. The fields not sent are set to noise.
func (o LibOp) Profiles() *libcomfo.FanProfiles {
	p := o.P
	return &libcomfo.FanProfiles{OutAway: p[0], OutLow: p[1], OutMid: p[2], InAway: p[3], InLow: p[4], InMid: p[5],
		OutHigh: p[6], InHigh: p[7], CurrentOut: 0xA1, CurrentIn: 0xA2, CurrentMode: 0xA3, InFanActive: true}
}

// Do executes the call; text is the canonical form of what a read returned.
func (o LibOp) Do(conn io.ReadWriter) (text string, err error) {
	switch o.Op {
	case "temps":
		v, e := libcomfo.GetTemperatures(conn)
		return textOf(&v), e
	case "bypass":
		v, e := libcomfo.GetBypass(conn)
		return textOf(&v), e
	case "fans":
		v, e := libcomfo.GetFans(conn)
		return textOf(&v), e
	case "hours":
		v, e := libcomfo.GetHours(conn)
		return textOf(&v), e
	case "boot":
		v, e := libcomfo.GetBootloader(conn)
		return textOf(&v), e
	case "firm":
		v, e := libcomfo.GetFirmware(conn)
		return textOf(&v), e
	case "prof":
		v, e := libcomfo.GetFanProfiles(conn)
		return textOf(&v), e
	case "errs":
		v, e := libcomfo.GetErrors(conn)
		return textOf(&v), e
	case "speed":
		return "", libcomfo.SetSpeed(o.V, conn)
	case "comfort":
		return "", libcomfo.SetComfort(o.V, conn)
	case "profile":
		return "", libcomfo.SetFanProfile(o.M, o.V, conn)
	case "profiles":
		p := o.Profiles()
		q := *p
		e := libcomfo.SetFanProfiles(p, conn)
		if *p != q {
			panic("github.com/ti-mo/comfo/ SetFanProfiles changed its argument") // reported as a violation
		}
		return "", e
	}
	panic("harness: unknown op " + o.Op)
}

// String names the call.
func (o LibOp) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

// textOf is the canonical text of a decoded response (compare fu.Text).
func textOf(r libcomfo.Response) string {
	switch v := r.(type) {
	case *libcomfo.Temps:
		f := func(x float32) string {
			if x != float32(int(x)) {
				return fmt.Sprint(x)
			}
			return fmt.Sprint(int(x))
		}
		return fmt.Sprintf("comfort=%s outside=%s supply=%s inside=%s exhaust=%s geo=%s reheat=%s kitchen=%s",
			f(float32(v.Comfort)), f(float32(v.OutsideAir)), f(float32(v.SupplyAir)), f(float32(v.InsideAir)),
			f(float32(v.ExhaustAir)), f(float32(v.GeoHeat)), f(float32(v.Reheating)), f(float32(v.KitchenHood)))
	case *libcomfo.Bypass:
		return fmt.Sprintf("factor=%d level=%d corr=%d summer=%v", v.Factor, v.Level, v.Correction, v.SummerMode)
	case *libcomfo.Fans:
		return fmt.Sprintf("in=%d out=%d inrpm=%d outrpm=%d", v.InPercent, v.OutPercent, v.InSpeed, v.OutSpeed)
	case *libcomfo.Hours:
		return fmt.Sprintf("away=%d low=%d mid=%d high=%d frost=%d reheat=%d bypass=%d filter=%d",
			v.FanAway, v.FanLow, v.FanMid, v.FanHigh, v.FrostProtect, v.Reheating, v.BypassOpen, v.Filter)
	case *libcomfo.BootInfo:
		return fmt.Sprintf("major=%d minor=%d beta=%d name=%q", v.MajorVersion, v.MinorVersion, v.BetaVersion, v.DeviceName)
	case *libcomfo.FanProfiles:
		return fmt.Sprintf("out=%d/%d/%d/%d in=%d/%d/%d/%d active=%v curout=%d curin=%d mode=%d",
			v.OutAway, v.OutLow, v.OutMid, v.OutHigh, v.InAway, v.InLow, v.InMid, v.InHigh, v.InFanActive, v.CurrentOut, v.CurrentIn, v.CurrentMode)
	case *libcomfo.Errors:
		return fmt.Sprintf("filter=%v", v.Filter)
	}
	return fmt.Sprintf("unexpected type %T", r)
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// must2 abbreviates errors.
func errStr(err error) string {
	if err == nil {
		return "success"
	}
	return "error " + strings.TrimSpace(err.Error())
}

var _ = core.Fake
