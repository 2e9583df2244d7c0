package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"runtime/debug"
	"strconv"
	"strings"
	"unicode/utf8"

	"comfoverif/core"
	"comfoverif/fu"

	"github.com/ti-mo/comfo/comfoserver"
	rpc "github.com/ti-mo/comfo/rpc/comfo"
	"google.golang.org/protobuf/proto"
)

// The RPC interface as documented (comfo.proto): own tables, own encoders.

type pbField struct {
	Name string
	Num  int
	Kind byte // u uint32, b bool, s string, f float, e enum
}

var messages = map[string][]pbField{
	"Noop":               {},
	"BootInfo":           {{"MajorVersion", 1, 'u'}, {"MinorVersion", 2, 'u'}, {"BetaVersion", 3, 'u'}, {"DeviceName", 4, 's'}},
	"Bypass":             {{"Factor", 1, 'u'}, {"Level", 2, 'u'}, {"Correction", 3, 'u'}, {"SummerMode", 4, 'b'}},
	"Errors":             {{"Filter", 1, 'b'}},
	"Fans":               {{"InPercent", 1, 'u'}, {"OutPercent", 2, 'u'}, {"InSpeed", 3, 'u'}, {"OutSpeed", 4, 'u'}},
	"Temps":              {{"Comfort", 1, 'f'}, {"OutsideAir", 2, 'f'}, {"SupplyAir", 3, 'f'}, {"InsideAir", 4, 'f'}, {"ExhaustAir", 5, 'f'}, {"GeoHeat", 6, 'f'}, {"Reheating", 7, 'f'}, {"KitchenHood", 8, 'f'}},
	"FanProfiles":        {{"OutAway", 1, 'u'}, {"OutLow", 2, 'u'}, {"OutMid", 3, 'u'}, {"OutHigh", 4, 'u'}, {"InFanActive", 5, 'b'}, {"InAway", 6, 'u'}, {"InLow", 7, 'u'}, {"InMid", 8, 'u'}, {"InHigh", 9, 'u'}, {"CurrentOut", 10, 'u'}, {"CurrentIn", 11, 'u'}, {"CurrentMode", 12, 'u'}},
	"ComfortTarget":      {{"ComfortTemp", 1, 'u'}},
	"ComfortModified":    {{"Modified", 1, 'b'}, {"OriginalTemp", 2, 'u'}, {"TargetTemp", 3, 'u'}, {"ReqTime", 4, 's'}},
	"FanProfileTarget":   {{"Mode", 1, 'u'}, {"TargetSpeed", 2, 'u'}},
	"FanProfileModified": {{"Modified", 1, 'b'}, {"OriginalSpeed", 2, 'u'}, {"TargetSpeed", 3, 'u'}, {"ReqTime", 4, 's'}},
	"FanSpeedTarget":     {{"Abs", 1, 'u'}, {"Rel", 2, 'b'}},
	"FanSpeedModified":   {{"Modified", 1, 'b'}, {"OriginalSpeed", 2, 'u'}, {"TargetSpeed", 3, 'u'}, {"ReqTime", 4, 's'}},
	"FlushCacheRequest":  {{"Cache", 1, 'e'}},
	"FlushCacheResponse": {{"Success", 1, 'b'}, {"ReqTime", 2, 's'}},
}

type rpcMethod struct{ in, out string }

var methods = map[string]rpcMethod{
	"GetBootInfo": {"Noop", "BootInfo"}, "GetTemps": {"Noop", "Temps"}, "GetBypass": {"Noop", "Bypass"}, "GetFans": {"Noop", "Fans"},
	"GetFanProfiles": {"Noop", "FanProfiles"}, "GetErrors": {"Noop", "Errors"},
	"SetFanSpeed": {"FanSpeedTarget", "FanSpeedModified"}, "SetComfortTemp": {"ComfortTarget", "ComfortModified"},
	"SetFanProfile": {"FanProfileTarget", "FanProfileModified"}, "FlushCache": {"FlushCacheRequest", "FlushCacheResponse"},
}

// getters in the order of the categories below.
var categories = []byte{fu.CBoot, fu.CBypass, fu.CTemps, fu.CFans, fu.CProf, fu.CErrs}

var getterOf = map[byte]string{fu.CBoot: "GetBootInfo", fu.CBypass: "GetBypass", fu.CTemps: "GetTemps", fu.CFans: "GetFans",
	fu.CProf: "GetFanProfiles", fu.CErrs: "GetErrors"}

var catName = map[byte]string{fu.CBoot: "boot info", fu.CBypass: "bypass", fu.CTemps: "temperatures", fu.CFans: "fans", fu.CProf: "profiles", fu.CErrs: "errors"}

// flushArg is the request value for each category; all is 10.
var flushArg = map[byte]int64{fu.CBoot: 0, fu.CFans: 1, fu.CTemps: 2, fu.CProf: 3, fu.CBypass: 4}

const flushAll = 10

func flushCats(arg int64) []byte {
	if arg == flushAll {
		return categories
	}
	for c, a := range flushArg {
		if a == arg {
			return []byte{c}
		}
	}
	return nil
}

// rpcText is what the getter of a category must return for a payload, as text.
func rpcText(cmd byte, p []byte) (string, bool) {
	if _, bad := fu.Text(cmd, p); bad {
		return "", true
	}
	var v []any
	b := func(x byte) bool { return x == 1 }
	switch cmd {
	case fu.CBoot:
		// RPC strings are UTF-8, which the unit's need not be.
		name := strings.ToValidUTF8(strings.TrimSpace(string(p[3:13])), "\uFFFD")
		v = []any{p[0], p[1], p[2], strconv.Quote(name)}
	case fu.CBypass:
		v = []any{p[2], p[3], p[4], b(p[6])}
	case fu.CErrs:
		v = []any{b(p[8])}
	case fu.CFans:
		v = []any{p[0], p[1], 1875000 / (int(p[2])<<8 | int(p[3])), 1875000 / (int(p[4])<<8 | int(p[5]))}
	case fu.CTemps:
		for _, i := range []int{0, 1, 2, 3, 4, 6, 7, 8} {
			v = append(v, fu.Temp(p[i]))
		}
	case fu.CProf:
		v = []any{p[0], p[1], p[2], p[10], b(p[9]), p[3], p[4], p[5], p[11], p[6], p[7], p[8]}
	}
	var s []string
	for i, f := range messages[methods[getterOf[cmd]].out] {
		s = append(s, fmt.Sprintf("%s=%v", f.Name, v[i]))
	}
	return strings.Join(s, " "), false
}

func uvarint(b []byte, v uint64) []byte { return binary.AppendUvarint(b, v) }

// encodePB encodes a request message.
func encodePB(msg string, args map[string]int64) (out []byte) {
	for _, f := range messages[msg] {
		v, ok := args[f.Name]
		if !ok {
			continue
		}
		out = uvarint(out, uint64(f.Num)<<3)
		out = uvarint(out, uint64(v))
	}
	return
}

// encodeJSON encodes a request message.
func encodeJSON(msg string, args map[string]int64) []byte {
	m := map[string]any{}
	for _, f := range messages[msg] {
		if v, ok := args[f.Name]; ok {
			if f.Kind == 'b' {
				m[f.Name] = v != 0
			} else {
				m[f.Name] = v
			}
		}
	}
	b, _ := json.Marshal(m)
	return b
}

func zero(k byte) string {
	switch k {
	case 'b':
		return "false"
	case 's':
		return `""`
	}
	return "0"
}

// decodePB decodes a reply message into text per field.
func decodePB(msg string, b []byte) (map[string]string, error) {
	out := map[string]string{}
	for _, f := range messages[msg] {
		out[f.Name] = zero(f.Kind)
	}
	for len(b) > 0 {
		key, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, fmt.Errorf("bad tag")
		}
		b = b[n:]
		var fld *pbField
		for i, f := range messages[msg] {
			if f.Num == int(key>>3) {
				fld = &messages[msg][i]
			}
		}
		if fld == nil {
			return nil, fmt.Errorf("unknown field number %d", key>>3)
		}
		switch key & 7 {
		case 0:
			v, n := binary.Uvarint(b)
			if n <= 0 || (fld.Kind != 'u' && fld.Kind != 'b' && fld.Kind != 'e') {
				return nil, fmt.Errorf("bad varint for %s", fld.Name)
			}
			b = b[n:]
			if fld.Kind == 'b' {
				out[fld.Name] = fmt.Sprint(v != 0)
			} else {
				out[fld.Name] = fmt.Sprint(v)
			}
		case 2:
			v, n := binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < v || fld.Kind != 's' {
				return nil, fmt.Errorf("bad string for %s", fld.Name)
			}
			s := string(b[n : n+int(v)])
			if !utf8.ValidString(s) {
				return nil, fmt.Errorf("invalid UTF-8 in %s", fld.Name)
			}
			out[fld.Name] = strconv.Quote(s)
			b = b[n+int(v):]
		case 5:
			if len(b) < 4 || fld.Kind != 'f' {
				return nil, fmt.Errorf("bad float for %s", fld.Name)
			}
			out[fld.Name] = fmtFloat(float64(math.Float32frombits(binary.LittleEndian.Uint32(b))))
			b = b[4:]
		default:
			return nil, fmt.Errorf("unexpected wire type %d for %s", key&7, fld.Name)
		}
	}
	return out, nil
}

func fmtFloat(v float64) string {
	if v == math.Trunc(v) && math.Abs(v) < 1e9 {
		return strconv.FormatInt(int64(v), 10)
	}
	return fmt.Sprint(v)
}

// decodeJSON decodes a reply message into text per field.
func decodeJSON(msg string, b []byte) (map[string]string, error) {
	out := map[string]string{}
	for _, f := range messages[msg] {
		out[f.Name] = zero(f.Kind)
	}
	var m map[string]any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&m); err != nil {
		return nil, err
	}
	for k, v := range m {
		var fld *pbField
		for i, f := range messages[msg] {
			if f.Name == k {
				fld = &messages[msg][i]
			}
		}
		if fld == nil {
			return nil, fmt.Errorf("unknown field %q", k)
		}
		switch x := v.(type) {
		case bool:
			if fld.Kind != 'b' {
				return nil, fmt.Errorf("bool for %s", k)
			}
			out[k] = fmt.Sprint(x)
		case string:
			if fld.Kind != 's' {
				return nil, fmt.Errorf("string for %s", k)
			}
			out[k] = strconv.Quote(x)
		case json.Number:
			switch fld.Kind {
			case 'f':
				f, _ := x.Float64()
				out[k] = fmtFloat(f)
			case 'u':
				out[k] = x.String()
			default:
				return nil, fmt.Errorf("number for %s", k)
			}
		default:
			return nil, fmt.Errorf("odd value for %s", k)
		}
	}
	return out, nil
}

// rpcResp is the reply to a call.
type rpcResp struct {
	OK     bool
	Status int
	Code   string // Twirp error code
	Msg    string
	F      map[string]string
	Bad    string // protocol violation: crash, undecodable reply, ...
	msg    string
}

// Text is the reply without ReqTime, as text.
func (r rpcResp) Text() string {
	if r.Bad != "" {
		return "BAD " + r.Bad
	}
	if !r.OK {
		return "error " + r.Code
	}
	var s []string
	for _, f := range messages[r.msg] {
		if f.Name != "ReqTime" {
			s = append(s, f.Name+"="+r.F[f.Name])
		}
	}
	return strings.Join(s, " ")
}

func (r rpcResp) String() string {
	if !r.OK && r.Bad == "" {
		return fmt.Sprintf("error %s (%s)", r.Code, r.Msg)
	}
	return r.Text()
}

// parseResp interprets an HTTP reply to a call.
func parseResp(method, enc string, status int, ctype string, body []byte) (r rpcResp) {
	m := methods[method]
	r.msg, r.Status = m.out, status
	if status != 200 {
		var e struct{ Code, Msg string }
		if err := json.Unmarshal(body, &e); err != nil || e.Code == "" {
			r.Bad = fmt.Sprintf("status %d with body %.200q", status, body)
			return
		}
		r.Code, r.Msg = e.Code, e.Msg
		return
	}
	var err error
	if enc == "json" {
		r.F, err = decodeJSON(m.out, body)
	} else {
		r.F, err = decodePB(m.out, body)
	}
	want := map[string]string{"json": "application/json", "pb": "application/protobuf"}[enc]
	if err == nil && !strings.HasPrefix(ctype, want) {
		err = fmt.Errorf("content type %q", ctype)
	}
	if err != nil {
		r.Bad = fmt.Sprintf("undecodable %s reply to %s: %v (%x)", enc, method, err, body)
		return
	}
	r.OK = true
	return
}

// callHandler executes a call on a handler in memory.
func callHandler(h http.Handler, method string, args map[string]int64, enc string) (r rpcResp) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if !core.FromRepo(st) {
				panic(p)
			}
			r = rpcResp{Bad: fmt.Sprintf("panic while serving %s: %v\n%s", method, p, st), msg: methods[method].out}
		}
	}()
	var body []byte
	ct := "application/protobuf"
	if enc == "json" {
		body, ct = encodeJSON(methods[method].in, args), "application/json"
	} else {
		body = encodePB(methods[method].in, args)
	}
	rq := httptest.NewRequest("POST", "/twirp/comfo.api.Comfo/"+method, bytes.NewReader(body))
	rq.Header.Set("Content-Type", ct)
	w := httptest.NewRecorder()
	h.ServeHTTP(w, rq)
	return parseResp(method, enc, w.Code, w.Header().Get("Content-Type"), w.Body.Bytes())
}

// catOf is the category a getter serves (0: no getter).
func catOf(method string) byte {
	for c, m := range getterOf {
		if m == method {
			return c
		}
	}
	return 0
}

// callDirect calls a method of the service without HTTP and encodings.
func callDirect(method string, a map[string]int64) (proto.Message, error) {
	s, ctx := rpc.Comfo(&comfoserver.Server{}), context.Background()
	u := func(k string) uint32 { return uint32(a[k]) }
	switch method {
	case "GetBootInfo":
		return s.GetBootInfo(ctx, &rpc.Noop{})
	case "GetTemps":
		return s.GetTemps(ctx, &rpc.Noop{})
	case "GetBypass":
		return s.GetBypass(ctx, &rpc.Noop{})
	case "GetFans":
		return s.GetFans(ctx, &rpc.Noop{})
	case "GetFanProfiles":
		return s.GetFanProfiles(ctx, &rpc.Noop{})
	case "GetErrors":
		return s.GetErrors(ctx, &rpc.Noop{})
	case "SetFanSpeed":
		return s.SetFanSpeed(ctx, &rpc.FanSpeedTarget{Abs: u("Abs"), Rel: a["Rel"] != 0})
	case "SetComfortTemp":
		return s.SetComfortTemp(ctx, &rpc.ComfortTarget{ComfortTemp: u("ComfortTemp")})
	case "SetFanProfile":
		return s.SetFanProfile(ctx, &rpc.FanProfileTarget{Mode: u("Mode"), TargetSpeed: u("TargetSpeed")})
	case "FlushCache":
		return s.FlushCache(ctx, &rpc.FlushCacheRequest{Cache: comfoserver.CacheType(a["Cache"])})
	}
	panic("harness: unknown method " + method)
}

// directResp interprets the reply of a direct call.
func directResp(method string, m proto.Message) rpcResp {
	b, err := proto.Marshal(m)
	if err != nil {
		return rpcResp{Bad: err.Error()}
	}
	return parseResp(method, "pb", 200, "application/protobuf", b)
}
