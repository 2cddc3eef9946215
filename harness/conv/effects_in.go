// Package conv holds the converter checks (C01-C07). This file is the model of
// the system-to-panel direction: effects of messages and an independent reader
// of the ASCII grammar. It shares no code with the library's converters.
package conv

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
)

// Eff is one effect on a panel: what (Kind), on what (Target), and to which value.
type Eff struct{ Kind, Target, Detail string }

func (e Eff) String() string { return e.Kind + "[" + e.Target + "] " + e.Detail }

// Txt is the normalised meaning of a text state.
type Txt struct {
	Value, Format, SIcon, MIcon int64
	Title                       string
	Header                      bool
	Line1, Line2                string
	Value2, Pair                int64
	Scale, RLo, RHi, LLo, LHi   int64
	Face, TFace                 int64
	W, H, TW, TH                int64
	Fixed                       bool
	Pad, Spacing, Unformatted   int64
	Inv                         bool
	Pixel, Back                 string
}

func (t Txt) detail() string { return fmt.Sprintf("%+v", t) }

// norm applies the grammar's equivalences between text states.
func (t Txt) norm() Txt {
	switch t.Format {
	case 7:
		t.Value = 0
		t.Unformatted = 0
	case 10, 11:
		t.Value = 0
		t.Header = false
		t.Pair = 0
	default:
		t.Unformatted = 0
	}
	if t.Title == "" {
		t.Header = false
	}
	if t.Scale == 0 {
		t.RLo, t.RHi, t.LLo, t.LHi = 0, 0, 0, 0
	}
	return t
}

func quant(v uint32) int { // 8 bit channel to 2 bits
	if v > 255 {
		v = 255
	}
	return int(v) * 3 / 255
}

func colourText(c *rwp.Color) string {
	if c == nil {
		return ""
	}
	if c.ColorRGB != nil {
		return fmt.Sprintf("rgb%d%d%d", quant(c.ColorRGB.Red), quant(c.ColorRGB.Green), quant(c.ColorRGB.Blue))
	}
	if c.ColorIndex != nil && c.ColorIndex.Index != 0 {
		return fmt.Sprintf("idx%d", c.ColorIndex.Index)
	}
	return "" // default colour
}

func textOf(t *rwp.HWCText) Txt {
	o := Txt{
		Value: int64(t.IntegerValue), Format: int64(t.Formatting), SIcon: int64(t.StateIcon), MIcon: int64(t.ModifierIcon),
		Title: t.Title, Header: t.SolidHeaderBar, Line1: t.Textline1, Line2: t.Textline2, Value2: int64(t.IntegerValue2), Pair: int64(t.PairMode),
		Inv: t.Inverted, Pixel: colourText(t.PixelColor), Back: colourText(t.BackgroundColor),
	}
	if s := t.Scale; s != nil {
		o.Scale, o.RLo, o.RHi, o.LLo, o.LHi = int64(s.ScaleType), int64(s.RangeLow), int64(s.RangeHigh), int64(s.LimitLow), int64(s.LimitHigh)
	}
	if s := t.TextStyling; s != nil {
		if f := s.TextFont; f != nil {
			o.Face, o.W, o.H = int64(f.FontFace), int64(f.TextWidth), int64(f.TextHeight)
		}
		if f := s.TitleFont; f != nil {
			o.TFace, o.TW, o.TH = int64(f.FontFace), int64(f.TextWidth), int64(f.TextHeight)
		}
		o.Fixed, o.Pad, o.Spacing, o.Unformatted = s.FixedWidth, int64(s.TitleBarPadding), int64(s.ExtraCharacterSpacing), int64(s.UnformattedFontSize)
	}
	if o.Pair == 0 && (o.Line2 != "" || o.Value2 != 0) {
		o.Pair = 1
	}
	return o.norm()
}

// A text of several lines is written on one line. White space around the line
// breaks may go, except that a break which parts two tokens of an SVG stays
// white space; everything inside a line stays as it is.
const (
	joint    = '\uE0F0' // any white space or none
	hardJoin = '\uE0F1' // at least one white space
)

func flat(s string, svg bool) string {
	var sb strings.Builder
	prev := ""
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l == "" {
			continue
		}
		if prev != "" {
			a, _ := utf8.DecodeLastRuneInString(prev)
			b, _ := utf8.DecodeRuneInString(l)
			if svg && !strings.ContainsRune("<>=", a) && !strings.ContainsRune("<>=/", b) {
				sb.WriteRune(hardJoin)
			} else {
				sb.WriteRune(joint)
			}
		}
		sb.WriteString(l)
		prev = l
	}
	return sb.String()
}

// joins tells whether got is want with its joints filled with white space.
func joins(got, want string) bool {
	for want != "" {
		i := strings.IndexFunc(want, func(r rune) bool { return r == joint || r == hardJoin })
		if i < 0 {
			return got == want
		}
		if !strings.HasPrefix(got, want[:i]) {
			return false
		}
		r, n := utf8.DecodeRuneInString(want[i:])
		got, want = got[i:], want[i+n:]
		rest := strings.TrimLeftFunc(got, unicode.IsSpace)
		if r == hardJoin && len(rest) == len(got) {
			return false
		}
		got = rest
	}
	return got == ""
}

func imageDetail(kind int, w, h int64, off bool, x, y int64, data []byte) string {
	if !off {
		x, y = 0, 0
	}
	return fmt.Sprintf("type=%d %dx%d offset=%v(%d,%d) len=%d data=%x", kind, w, h, off, x, y, len(data), data)
}

func netDetail(n *rwp.NetworkConfig) string {
	return fmt.Sprintf("%v|%q|%q|%q|%q|%q|%v", n.GetDhcp(), n.GetAddress(), n.GetNetmask(), n.GetGateway(), n.GetFirstDns(), n.GetSecondDns(), n.GetNoDefaultRoute())
}

var flowName = map[rwp.InboundMessage_FlowMsg]string{1: "ping", 2: "ack", 3: "nack"}
var regName = []string{"mem", "flag", "shift", "state"}

func regEff(r *rwp.Register) []Eff {
	if int(r.Reg) < 0 || int(r.Reg) > 3 {
		return nil
	}
	return []Eff{{"reg-" + regName[r.Reg], r.Id, fmt.Sprint(r.Value)}}
}

func stateEffs(s *rwp.HWCState) (out []Eff) {
	for _, id := range s.HWCIDs {
		t := fmt.Sprint(id)
		add := func(k, d string, a ...any) { out = append(out, Eff{k, t, fmt.Sprintf(d, a...)}) }
		if m := s.HWCMode; m != nil {
			add("mode", "state=%d out=%v blink=%d", m.State, m.Output, m.BlinkPattern)
		}
		if c := s.HWCColor; c != nil {
			if c.ColorRGB != nil {
				add("colour", "rgb%d%d%d", quant(c.ColorRGB.Red), quant(c.ColorRGB.Green), quant(c.ColorRGB.Blue))
			} else if c.ColorIndex != nil {
				add("colour", "idx%d", c.ColorIndex.Index)
			}
		}
		if e := s.HWCExtended; e != nil {
			add("ext", "interp=%d value=%d", e.Interpretation, e.Value)
		}
		if x := s.HWCText; x != nil && !proto.Equal(x, &rwp.HWCText{}) {
			add("text", "%s", textOf(x).detail())
		}
		if g := s.HWCGfx; g != nil && !proto.Equal(g, &rwp.HWCGfx{}) {
			add("image", "%s", imageDetail(int(g.ImageType), int64(g.W), int64(g.H), g.XYoffset, int64(g.X), int64(g.Y), g.ImageData))
		}
		if p := s.PublishRawADCValues; p != nil {
			add("adc", "%v", p.Enabled)
		}
		if p := s.Processors; p != nil {
			b, _ := json.Marshal(p)
			add("proc", "%s", b)
		}
	}
	return
}

// inboundEffects lists the effects of one message.
func inboundEffects(m *rwp.InboundMessage) (out []Eff) {
	if n := flowName[m.FlowMessage]; n != "" {
		out = append(out, Eff{"flow", n, ""})
	}
	if c := m.Command; c != nil {
		b := func(on bool, k string) {
			if on {
				out = append(out, Eff{"cmd", k, ""})
			}
		}
		n := func(k string, d string, a ...any) { out = append(out, Eff{"cmd", k, fmt.Sprintf(d, a...)}) }
		b(c.ActivatePanel, "activate")
		b(c.SendPanelInfo, "list")
		b(c.ReportHWCavailability, "map")
		b(c.SendPanelTopology, "topology?")
		b(c.SendBurninProfile, "burnin?")
		b(c.SendCalibrationProfile, "calibration?")
		b(c.SendNetworkConfig, "network?")
		b(c.SendRegisters, "registers?")
		b(c.GetConnections, "connections?")
		b(c.GetRunTimeStats, "runtime?")
		b(c.ClearAll, "clear")
		b(c.ClearLEDs, "clearleds")
		b(c.ClearDisplays, "cleardisplays")
		b(c.GetSleepTimeout, "sleep?")
		b(c.WakeUp, "wakeup")
		b(c.Reboot, "reboot")
		if v := c.PanelBrightness; v != nil {
			n("brightness", "leds=%d oleds=%d", v.LEDs, v.OLEDs)
		}
		if v := c.SetCalibrationProfile; v != nil {
			n("setcalibration", "%s", flat(v.Json, false))
		}
		if v := c.SetNetworkConfig; v != nil {
			n("setnetwork", "%s", netDetail(v))
		}
		if v := c.SimulateEnvironmentalHealth; v != nil && v.RunMode >= 0 && v.RunMode <= 2 {
			n("simhealth", "%d", v.RunMode)
		}
		if v := c.SetSleepTimeout; v != nil {
			n("sleeptimer", "%d", v.Value)
		}
		if v := c.SetSleepMode; v != nil {
			n("sleepmode", "%d", uint32(v.Mode))
		}
		if v := c.SetSleepScreenSaver; v != nil {
			n("screensaver", "%d", uint32(v.Type))
		}
		if v := c.SetDimmedGain; v != nil {
			n("dimmedgain", "%d", v.Value)
		}
		if v := c.SetHeartBeatTimer; v != nil {
			n("heartbeat", "%d", v.Value)
		}
		if v := c.PublishSystemStat; v != nil {
			n("sysstat", "%d", v.PeriodSec)
		}
		if v := c.LoadCPU; v != nil {
			n("loadcpu", "%d", uint32(v.Level))
		}
		if v := c.SetWebserverEnabled; v != nil {
			n("webserver", "%v", v.Enabled)
		}
		if v := c.JSONconfig; v != nil {
			n("json", "%v", v.Outbound)
		}
	}
	for _, s := range m.States {
		out = append(out, stateEffs(s)...)
	}
	for _, r := range m.Registers {
		out = append(out, regEff(r)...)
	}
	return
}

// ---- the independent reader of inbound ASCII lines ----

type inReader struct {
	// image transfer in progress
	img struct {
		active     bool
		key, ids   string
		kind       int
		next, max  int64
		w, h, x, y int64
		off        bool
		data       []byte
	}
	restarts   bool // a transfer may be given up for a new one
	inTransfer bool // set after a line when a transfer is not finished
}

var plainCmd = map[string]string{
	"ActivePanel=1": "activate", "list": "list", "map": "map", "PanelTopology?": "topology?", "BurninProfile?": "burnin?",
	"CalibrationProfile?": "calibration?", "NetworkConfig?": "network?", "Registers?": "registers?", "Connections?": "connections?",
	"RunTimeStats?": "runtime?", "Clear": "clear", "ClearLEDs": "clearleds", "ClearDisplays": "cleardisplays", "SleepTimer?": "sleep?",
	"WakeUp!": "wakeup", "Reboot": "reboot",
}
var numCmd = map[string]string{
	"HeartBeatTimer": "heartbeat", "DimmedGain": "dimmedgain", "PublishSystemStat": "sysstat", "LoadCPU": "loadcpu", "SleepTimer": "sleeptimer",
	"SleepMode": "sleepmode", "SleepScreenSaver": "screensaver",
}

func allDigits(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func splitIDs(s string) ([]string, bool) {
	p := strings.Split(s, ",")
	for i, v := range p {
		if !allDigits(v) {
			return nil, false
		}
		n, err := strconv.ParseUint(v, 10, 32)
		if err != nil {
			return nil, false
		}
		p[i] = strconv.FormatUint(n, 10)
	}
	return p, true
}

func colourField(v int64) string {
	if v <= 0 {
		return ""
	}
	if v&0x40 != 0 {
		return fmt.Sprintf("rgb%d%d%d", (v>>4)&3, (v>>2)&3, v&3)
	}
	if v&31 == 0 {
		return ""
	}
	return fmt.Sprintf("idx%d", v&31)
}

// readText reads the 21 fields of an HWCt# line.
func readText(arg string) (Txt, error) {
	f := strings.Split(arg, "|")
	str := func(i int) string {
		if i < len(f) {
			return f[i]
		}
		return ""
	}
	var bad error
	num := func(i int) int64 {
		s := str(i)
		if s == "" {
			return 0
		}
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			bad = fmt.Errorf("field %d of the text line is not a number: %q", i, s)
		}
		return v
	}
	if len(f) > 21 {
		return Txt{}, fmt.Errorf("text line has %d fields", len(f))
	}
	t := Txt{Format: num(1), SIcon: num(2) & 3, MIcon: num(2) >> 3 & 7, Title: str(3), Header: num(4) == 0, Line1: str(5), Line2: str(6), Value2: num(7), Pair: num(8)}
	if str(0) == "" && t.Format == 0 {
		t.Format = 7 // no value at all: hide it
	}
	if t.Format == 10 || t.Format == 11 {
		t.Unformatted = num(0)
	} else {
		t.Value = num(0)
	}
	if t.Pair == 0 && (str(6) != "" || str(7) != "") {
		t.Pair = 1
	}
	t.Scale, t.RLo, t.RHi, t.LLo, t.LHi = num(9), num(10), num(11), num(12), num(13)
	t.Face, t.TFace, t.Fixed = num(15)&7, num(15)>>3&7, num(15)>>6&1 == 1
	t.W, t.H, t.TW, t.TH = num(16)&3, num(16)>>2&3, num(16)>>4&3, num(16)>>6&3
	t.Pad, t.Spacing = num(17)&3, num(17)>>2&7
	t.Inv = num(18) > 0
	t.Pixel, t.Back = colourField(num(19)), colourField(num(20))
	return t.norm(), bad
}

// read interprets one line. grammar=false: the line is not part of the grammar.
func (r *inReader) read(line string) (out []Eff, grammar bool, err error) {
	r.inTransfer = false
	if strings.ContainsAny(line, "\n") {
		return nil, false, fmt.Errorf("line break inside the line %q", line)
	}
	switch line {
	case "":
		return nil, true, nil
	case "ping", "ack", "nack":
		return []Eff{{"flow", line, ""}}, true, nil
	}
	if k, ok := plainCmd[line]; ok {
		return []Eff{{"cmd", k, ""}}, true, nil
	}
	if line[0] == '{' {
		s := &rwp.HWCState{}
		if e := json.Unmarshal([]byte(line), s); e != nil {
			return nil, false, e
		}
		return stateEffs(s), true, nil
	}
	key, arg, ok := strings.Cut(line, "=")
	if !ok {
		return nil, false, nil
	}
	cmd := func(k, d string, a ...any) ([]Eff, bool, error) {
		return []Eff{{"cmd", k, fmt.Sprintf(d, a...)}}, true, nil
	}
	u32 := func(s string) (uint32, bool) {
		if !allDigits(s) {
			return 0, false
		}
		v, e := strconv.ParseUint(s, 10, 32)
		return uint32(v), e == nil
	}
	if k, ok := numCmd[key]; ok {
		if v, ok := u32(arg); ok {
			return cmd(k, "%d", v)
		}
		return nil, false, nil
	}
	switch key {
	case "Webserver", "JSONonOutbound":
		if v, ok := u32(arg); ok {
			return cmd(map[string]string{"Webserver": "webserver", "JSONonOutbound": "json"}[key], "%v", v > 0)
		}
		return nil, false, nil
	case "PanelBrightness":
		a, b, two := strings.Cut(arg, ",")
		if !two {
			b = a
		}
		va, oka := u32(a)
		vb, okb := u32(b)
		if oka && okb {
			return cmd("brightness", "leds=%d oleds=%d", va, vb)
		}
		return nil, false, nil
	case "SetCalibrationProfile":
		return cmd("setcalibration", "%s", flat(arg, false))
	case "SetNetworkConfig":
		n := &rwp.NetworkConfig{}
		if e := json.Unmarshal([]byte(arg), n); e != nil {
			return nil, false, nil
		}
		return cmd("setnetwork", "%s", netDetail(n))
	case "SimulateEnvironmentalHealth":
		for i, s := range []string{"Normal", "Safemode", "Blocked"} {
			if s == arg {
				return cmd("simhealth", "%d", i)
			}
		}
		return nil, false, nil
	}
	if kind, ids, ok := strings.Cut(key, "#"); ok && strings.HasPrefix(kind, "HWC") {
		if strings.HasPrefix(kind, "HWCg") {
			return r.readImage(kind, ids, arg)
		}
		idl, okIDs := splitIDs(ids)
		if !okIDs {
			return nil, false, nil
		}
		var d, k string
		if kind == "HWCt" {
			t, e := readText(arg)
			if e != nil {
				return nil, false, e
			}
			k, d = "text", t.detail()
		} else {
			if !allDigits(arg) {
				return nil, false, fmt.Errorf("value of %q is not a number", line)
			}
			v, e := strconv.ParseInt(arg, 10, 64)
			if e != nil {
				return nil, false, e
			}
			switch kind {
			case "HWC":
				k, d = "mode", fmt.Sprintf("state=%d out=%v blink=%d", v&15, v&0x20 != 0, v>>8&15)
			case "HWCx":
				k, d = "ext", fmt.Sprintf("interp=%d value=%d", v>>12&15, v&0xFFF)
			case "HWCc":
				k = "colour"
				if v&0x40 != 0 {
					d = fmt.Sprintf("rgb%d%d%d", v>>4&3, v>>2&3, v&3)
				} else {
					d = fmt.Sprintf("idx%d", v&31)
				}
			case "HWCrawADCValues":
				k, d = "adc", fmt.Sprint(v == 1)
			default:
				return nil, false, nil
			}
		}
		for _, id := range idl {
			out = append(out, Eff{k, id, d})
		}
		return out, true, nil
	}
	for i, p := range []string{"Mem", "Flag#", "Shift", "State"} {
		if id, ok := strings.CutPrefix(key, p); ok {
			for _, c := range []byte(id) {
				if !(c >= '0' && c <= '9' || c >= 'A' && c <= 'Z') {
					return nil, false, nil
				}
			}
			v, ok := u32(arg)
			if !ok {
				return nil, false, nil
			}
			if i == 1 {
				if id == "" {
					id = "0"
				}
				n, e := strconv.ParseUint(id, 10, 63)
				if e != nil {
					return nil, false, nil
				}
				id = fmt.Sprint(n)
				if v > 0 {
					v = 1
				}
			}
			return []Eff{{"reg-" + regName[i], id, fmt.Sprint(v)}}, true, nil
		}
	}
	return nil, false, nil
}

// readImage follows a clean run of numbered graphics lines; any irregularity is an error.
func (r *inReader) readImage(kind, ids, arg string) ([]Eff, bool, error) {
	types := map[string]int{"HWCg": 0, "HWCgRGB": 1, "HWCgGray": 2}
	ty, ok := types[kind]
	idl, okIDs := splitIDs(ids)
	head, b64, okC := strings.Cut(arg, ":")
	if !ok || !okIDs || !okC {
		return nil, false, nil
	}
	data, e := base64.StdEncoding.DecodeString(b64)
	if e != nil {
		return nil, false, fmt.Errorf("bad base64: %v", e)
	}
	if len(data) > 170 {
		return nil, false, fmt.Errorf("graphics line carries %d bytes", len(data))
	}
	idx, adv, hasAdv := strings.Cut(head, "/")
	if !allDigits(idx) {
		return nil, false, nil
	}
	n, _ := strconv.ParseInt(idx, 10, 64)
	g := &r.img
	if n == 0 {
		if g.active && !r.restarts {
			return nil, false, fmt.Errorf("a new transfer starts before the last one is finished")
		}
		g.active, g.key, g.ids, g.kind, g.next, g.data = true, kind, ids, ty, 0, nil
		g.max, g.w, g.h, g.off, g.x, g.y = 2, 64, 32, false, 0, 0
		if hasAdv {
			var parts []int64
			for i, s := range strings.Split(strings.Replace(adv, "x", ",", 1), ",") {
				if !allDigits(s) || i > 4 {
					return nil, false, fmt.Errorf("bad header %q", adv)
				}
				v, _ := strconv.ParseInt(s, 10, 64)
				parts = append(parts, v)
			}
			if len(parts) != 3 && len(parts) != 5 {
				return nil, false, fmt.Errorf("bad header %q", adv)
			}
			g.max, g.w, g.h = parts[0], parts[1], parts[2]
			if len(parts) == 5 {
				g.off, g.x, g.y = true, parts[3], parts[4]
			}
		}
	} else if hasAdv {
		return nil, false, fmt.Errorf("header on line %d", n)
	}
	if !g.active || g.key != kind || g.ids != ids || g.next != n {
		return nil, false, fmt.Errorf("graphics line %d of %s#%s is not the next one", n, kind, ids)
	}
	g.data = append(g.data, data...)
	g.next++
	if n < g.max {
		r.inTransfer = true
		return nil, true, nil
	}
	g.active = false
	var out []Eff
	for _, id := range idl {
		out = append(out, Eff{"image", id, imageDetail(g.kind, g.w, g.h, g.off, g.x, g.y, g.data)})
	}
	return out, true, nil
}

// section orders effects inside one message: what has to stay ahead of what.
func section(e Eff) int {
	switch {
	case e.Kind == "flow", e.Kind == "cmd":
		return 0
	case strings.HasPrefix(e.Kind, "reg-"):
		return 2
	}
	return 1
}

// canonical sorts the effects of one message by section and target, keeping
// the order of the effects on one target.
func canonical(in []Eff) []Eff {
	out := append([]Eff(nil), in...)
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if section(a) != section(b) {
			return section(a) < section(b)
		}
		if a.Kind != b.Kind {
			return a.Kind < b.Kind
		}
		return a.Target < b.Target
	})
	return out
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func diffEffs(got, want []Eff) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = got[i].String()
		}
		if i < len(want) {
			w = want[i].String()
		}
		if g != w && !joins(g, w) {
			return fmt.Errorf("effect %d: got %s, want %s", i, clip(g), clip(w))
		}
	}
	return nil
}
