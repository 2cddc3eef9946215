package conv

import (
	"fmt"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"rwpverif/core"
	"unicode/utf8"
)

// Msgs carries protobuf messages in a case as wire bytes.
type Msgs [][]byte

func packIn(ms []*rwp.InboundMessage) (out Msgs) {
	for _, m := range ms {
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
		if err != nil {
			panic(err)
		}
		out = append(out, b)
	}
	return
}

func (p Msgs) in() (out []*rwp.InboundMessage) {
	for _, b := range p {
		m := &rwp.InboundMessage{}
		if err := proto.Unmarshal(b, m); err != nil {
			panic(core.Invalid("message: %v", err))
		}
		out = append(out, m)
	}
	return
}

func packOut(ms []*rwp.OutboundMessage) (out Msgs) {
	for _, m := range ms {
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
		if err != nil {
			panic(err)
		}
		out = append(out, b)
	}
	return
}

func (p Msgs) out() (out []*rwp.OutboundMessage) {
	for _, b := range p {
		m := &rwp.OutboundMessage{}
		if err := proto.Unmarshal(b, m); err != nil {
			panic(core.Invalid("message: %v", err))
		}
		out = append(out, m)
	}
	return
}

func genID() *rapid.Generator[uint32] {
	return rapid.Custom(func(t *rapid.T) uint32 {
		switch rapid.IntRange(0, 6).Draw(t, "idkind") {
		case 6:
			return uint32(core.Ints(0, 1<<32-1).Draw(t, "id"))
		case 0:
			return rapid.Uint32().Draw(t, "id")
		case 1:
			return rapid.SampledFrom([]uint32{0, 1, 9, 10, 99, 100, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1}).Draw(t, "id")
		default:
			return rapid.Uint32Range(0, 60).Draw(t, "id")
		}
	})
}

func genU32() *rapid.Generator[uint32] {
	return rapid.OneOf(rapid.Uint32Range(0, 20), rapid.Uint32(), rapid.Map(core.Ints(0, 1<<32-1), func(i int64) uint32 { return uint32(i) }),
		rapid.SampledFrom([]uint32{0, 1, 2, 10, 100, 999, 1000, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1}))
}

func genI32() *rapid.Generator[int32] {
	return rapid.OneOf(rapid.Int32Range(-20, 20), rapid.Int32(), rapid.Map(core.Ints(-1<<31, 1<<31-1), func(i int64) int32 { return int32(i) }),
		rapid.SampledFrom([]int32{0, 1, -1, 500, -500, 1000, 65535, -65536, 1<<31 - 1, -1 << 31, -1<<31 + 1}))
}

var textRunes = []rune("abcXYZ019 .:,;#=/{}[]()<>%&+-_!?*'\"\\$@^~`äøåÆ€漢😀")

// genText makes printable text without the field separator and line breaks.
func genText() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.Just(""),
		rapid.StringOfN(rapid.SampledFrom(textRunes), 0, 12, -1),
		rapid.StringOfN(rapid.RuneFrom(textRunes), 1, 40, -1),
		genMined("field"),
		genMined("field"),
		rapid.Custom(func(t *rapid.T) string {
			n := core.Count(t, 0, 60, 700, "length")
			return cut(strings.Repeat(rapid.StringOfN(rapid.SampledFrom(textRunes), 1, 12, -1).Draw(t, "part"), n), n)
		}),
		rapid.SampledFrom([]string{"0", "1", "-5", " ", " x ", "=", "HWC#1=4", "Title", "Two words"}),
	)
}

// genMined puts a string of the library's source into some text.
func genMined(kind string) *rapid.Generator[string] {
	ok := map[string]func(string) bool{
		"field": func(s string) bool { return !strings.ContainsAny(s, "|\n\r") },
		"line":  func(s string) bool { return !strings.Contains(s, "\n") },
	}[kind]
	return rapid.Custom(func(t *rapid.T) string {
		around := rapid.OneOf(rapid.Just(""), rapid.StringOfN(rapid.SampledFrom(textRunes), 1, 3, -1))
		return around.Draw(t, "before") + core.Strings(kind, ok).Draw(t, "mined") + around.Draw(t, "after")
	})
}

// cut shortens a text to at most n bytes.
func cut(s string, n int) string {
	for len(s) > n {
		_, l := utf8.DecodeLastRuneInString(s)
		s = s[:len(s)-l]
	}
	return s
}

func b32(t *rapid.T, hi int, l string) int { return rapid.IntRange(0, hi).Draw(t, l) }

func genRGB(t *rapid.T) *rwp.ColorRGB {
	c := rapid.OneOf(rapid.Uint32Range(0, 255), rapid.SampledFrom([]uint32{0, 84, 85, 86, 127, 128, 169, 170, 171, 254, 255}))
	return &rwp.ColorRGB{Red: c.Draw(t, "r"), Green: c.Draw(t, "g"), Blue: c.Draw(t, "b")}
}

func genColor(t *rapid.T) *rwp.Color {
	switch b32(t, 7, "colkind") {
	case 0:
		return &rwp.Color{}
	case 1, 2, 3:
		return &rwp.Color{ColorRGB: genRGB(t)}
	case 4:
		return &rwp.Color{ColorRGB: genRGB(t), ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(b32(t, 31, "idx"))}}
	default:
		return &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(b32(t, 31, "idx"))}}
	}
}

func genHWCText(t *rapid.T) *rwp.HWCText {
	x := &rwp.HWCText{
		IntegerValue:   genI32().Draw(t, "value"),
		Formatting:     rwp.HWCText_FormattingE(b32(t, 12, "fmt")),
		Title:          genText().Draw(t, "title"),
		SolidHeaderBar: rapid.Bool().Draw(t, "bar"),
		Textline1:      genText().Draw(t, "l1"),
		Textline2:      genText().Draw(t, "l2"),
	}
	if rapid.Bool().Draw(t, "icons") {
		x.StateIcon = rwp.HWCText_StateIconE(b32(t, 3, "si"))
		x.ModifierIcon = rwp.HWCText_ModifierIconE(b32(t, 7, "mi"))
	}
	if rapid.Bool().Draw(t, "v2?") {
		x.IntegerValue2 = genI32().Draw(t, "v2")
	}
	if rapid.Bool().Draw(t, "pair?") {
		x.PairMode = rwp.HWCText_PairModeE(b32(t, 4, "pair"))
	}
	if rapid.Bool().Draw(t, "scale?") {
		x.Scale = &rwp.HWCText_ScaleM{ScaleType: rwp.HWCText_ScaleM_ScaleTypeE(b32(t, 3, "sct")), RangeLow: genI32().Draw(t, "rl"), RangeHigh: genI32().Draw(t, "rh"), LimitLow: genI32().Draw(t, "ll"), LimitHigh: genI32().Draw(t, "lh")}
	}
	if rapid.Bool().Draw(t, "style?") {
		s := &rwp.HWCText_TextStyle{}
		if rapid.Bool().Draw(t, "tf?") {
			s.TextFont = &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(b32(t, 7, "ff")), TextWidth: uint32(b32(t, 3, "fw")), TextHeight: uint32(b32(t, 3, "fh"))}
		}
		if rapid.Bool().Draw(t, "ttf?") {
			s.TitleFont = &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(b32(t, 7, "tff")), TextWidth: uint32(b32(t, 3, "tfw")), TextHeight: uint32(b32(t, 3, "tfh"))}
		}
		s.FixedWidth = rapid.Bool().Draw(t, "fixed")
		s.TitleBarPadding = uint32(b32(t, 3, "pad"))
		s.ExtraCharacterSpacing = uint32(b32(t, 7, "spc"))
		s.UnformattedFontSize = uint32(b32(t, 4, "ufs"))
		x.TextStyling = s
	}
	x.Inverted = rapid.Bool().Draw(t, "inv")
	if rapid.Bool().Draw(t, "pix?") {
		x.PixelColor = genColor(t)
	}
	if rapid.Bool().Draw(t, "bg?") {
		x.BackgroundColor = genColor(t)
	}
	return x
}

// genBytes makes n pseudo-random bytes from one drawn seed (cheap for big images).
func genBytes(t *rapid.T, n int) []byte {
	seed := rapid.Uint32().Draw(t, "fill")
	b := make([]byte, n)
	s := seed | 1
	for i := range b {
		s ^= s << 13
		s ^= s >> 17
		s ^= s << 5
		b[i] = byte(s >> 8)
	}
	return b
}

// genLen favours the chunk boundaries.
func genLen(t *rapid.T, lo, hi int) int {
	n := 0
	switch b32(t, 3, "lenkind") {
	case 0:
		n = 170*b32(t, 6, "k") + rapid.IntRange(-2, 2).Draw(t, "d")
	case 1:
		n = rapid.IntRange(lo, 20).Draw(t, "n")
	case 2:
		n = rapid.IntRange(lo, 1100).Draw(t, "n")
	default:
		n = rapid.IntRange(lo, hi).Draw(t, "n")
	}
	if n < lo {
		n = lo
	}
	if n > hi {
		n = hi
	}
	return n
}

func genGfx(t *rapid.T, max int) *rwp.HWCGfx {
	g := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(b32(t, 2, "it")), W: genU32().Draw(t, "w"), H: genU32().Draw(t, "h")}
	if rapid.Bool().Draw(t, "off") {
		g.XYoffset, g.X, g.Y = true, genU32().Draw(t, "x"), genU32().Draw(t, "y")
	}
	g.ImageData = genBytes(t, genLen(t, 1, max))
	return g
}

func genState(t *rapid.T) *rwp.HWCState {
	n := core.Count(t, 0, 4, 150, "ids")
	s := &rwp.HWCState{HWCIDs: rapid.SliceOfN(genID(), n, n).Draw(t, "ids")}
	if b32(t, 9, "few") > 0 && len(s.HWCIDs) == 0 {
		s.HWCIDs = []uint32{genID().Draw(t, "id1")}
	}
	parts := b32(t, 63, "parts")
	if b32(t, 2, "single") > 0 {
		parts = 1 << b32(t, 5, "part")
	}
	if parts&1 != 0 {
		s.HWCMode = &rwp.HWCMode{State: rwp.HWCMode_StateE(b32(t, 5, "st")), Output: rapid.Bool().Draw(t, "out"), BlinkPattern: uint32(b32(t, 15, "blink"))}
	}
	if parts&2 != 0 {
		s.HWCColor = &rwp.HWCColor{}
		k := b32(t, 6, "ck")
		if k&1 != 0 || k == 6 {
			s.HWCColor.ColorRGB = genRGB(t)
		}
		if k == 0 || k == 2 || k == 4 || k == 3 {
			s.HWCColor.ColorIndex = &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(b32(t, 31, "ci"))}
		}
	}
	if parts&4 != 0 {
		s.HWCExtended = &rwp.HWCExtended{Interpretation: rwp.HWCExtended_InterpretationE(b32(t, 15, "in")), Value: uint32(b32(t, 4095, "val"))}
	}
	if parts&8 != 0 {
		s.HWCText = genHWCText(t)
	}
	if parts&16 != 0 {
		s.HWCGfx = genGfx(t, 1500)
	}
	if parts&32 != 0 {
		s.PublishRawADCValues = &rwp.PublishRawADCValues{Enabled: rapid.Bool().Draw(t, "adc")}
	}
	return s
}

func genNet(t *rapid.T) *rwp.NetworkConfig {
	ip := rapid.SampledFrom([]string{"", "10.0.0.1", "255.255.255.0", "192.168.10.250", "8.8.8.8", "x=y,z"})
	return &rwp.NetworkConfig{Dhcp: rapid.Bool().Draw(t, "dhcp"), Address: ip.Draw(t, "a"), Netmask: ip.Draw(t, "m"), Gateway: ip.Draw(t, "g"), FirstDns: ip.Draw(t, "d1"), SecondDns: ip.Draw(t, "d2"), NoDefaultRoute: rapid.Bool().Draw(t, "ndr")}
}

// genJSONText makes a JSON-like payload, possibly indented over several lines.
func genJSONText(t *rapid.T, multiline bool) string {
	var sb strings.Builder
	n := b32(t, 5, "entries")
	nl := func() {
		if multiline && rapid.Bool().Draw(t, "nl") {
			sb.WriteString(rapid.SampledFrom([]string{"\n", "\n\t", "\n  ", "\r\n", " \n "}).Draw(t, "brk"))
		}
	}
	sb.WriteString("{")
	for i := 0; i < n; i++ {
		nl()
		if i > 0 {
			sb.WriteString(",")
		}
		nl()
		fmt.Fprintf(&sb, "%q:", genText().Draw(t, "k"))
		nl()
		fmt.Fprintf(&sb, "%q", genText().Draw(t, "v"))
		nl()
	}
	sb.WriteString("}")
	return sb.String()
}

func genCommand(t *rapid.T) *rwp.Command {
	c := &rwp.Command{}
	n := rapid.IntRange(1, 4).Draw(t, "ncmd")
	if b32(t, 9, "all") == 0 {
		n = 30
	}
	for i := 0; i < n; i++ {
		switch b32(t, 28, "cmd") {
		case 0:
			c.ActivatePanel = true
		case 1:
			c.SendPanelInfo = true
		case 2:
			c.ReportHWCavailability = true
		case 3:
			c.SendPanelTopology = true
		case 4:
			c.SendBurninProfile = true
		case 5:
			c.SendCalibrationProfile = true
		case 6:
			c.SendNetworkConfig = true
		case 7:
			c.SendRegisters = true
		case 8:
			c.GetConnections = true
		case 9:
			c.GetRunTimeStats = true
		case 10:
			c.ClearAll = true
		case 11:
			c.ClearLEDs = true
		case 12:
			c.ClearDisplays = true
		case 13:
			c.GetSleepTimeout = true
		case 14:
			c.WakeUp = true
		case 15:
			c.Reboot = true
		case 16:
			c.PanelBrightness = &rwp.Brightness{LEDs: genU32().Draw(t, "leds"), OLEDs: genU32().Draw(t, "oleds")}
		case 17:
			c.SetCalibrationProfile = &rwp.CalibrationProfile{Json: genJSONText(t, true)}
		case 18:
			c.SetNetworkConfig = genNet(t)
		case 19:
			c.SimulateEnvironmentalHealth = &rwp.Environment{RunMode: rwp.Environment_RunModeE(b32(t, 2, "rm"))}
		case 20:
			c.SetSleepTimeout = &rwp.SleepTimeout{Value: genU32().Draw(t, "v")}
		case 21:
			c.SetSleepMode = &rwp.SleepMode{Mode: rwp.SleepMode_SlpMode(b32(t, 10, "v"))}
		case 22:
			c.SetSleepScreenSaver = &rwp.SleepScreenSaver{Type: rwp.SleepScreenSaver_SlpScrSaver(b32(t, 10, "v"))}
		case 23:
			c.SetDimmedGain = &rwp.DimmedGain{Value: genU32().Draw(t, "v")}
		case 24:
			c.SetHeartBeatTimer = &rwp.HeartBeatTimer{Value: genU32().Draw(t, "v")}
		case 25:
			c.PublishSystemStat = &rwp.PublishSystemStat{PeriodSec: genU32().Draw(t, "v")}
		case 26:
			c.LoadCPU = &rwp.LoadCPU{Level: rwp.LoadCPU_LevelE(b32(t, 6, "v"))}
		case 27:
			c.SetWebserverEnabled = &rwp.WebserverState{Enabled: rapid.Bool().Draw(t, "v")}
		case 28:
			c.JSONconfig = &rwp.JSONconfig{Outbound: rapid.Bool().Draw(t, "v")}
		}
	}
	return c
}

func genRegID() *rapid.Generator[string] {
	return rapid.OneOf(rapid.Just(""), rapid.StringOfN(rapid.SampledFrom([]rune("ABCXYZ0123456789")), 1, 6, -1), rapid.SampledFrom([]string{"A", "B", "Z", "0", "12", "A1"}))
}

func genRegister(t *rapid.T) *rwp.Register {
	r := &rwp.Register{Reg: rwp.Register_RegisterE(b32(t, 3, "reg"))}
	if r.Reg == rwp.Register_FLAG {
		r.Id = fmt.Sprint(rapid.OneOf(rapid.Uint32Range(0, 100), rapid.Uint32()).Draw(t, "flag"))
		r.Value = uint32(b32(t, 1, "fv"))
	} else {
		r.Id = genRegID().Draw(t, "rid")
		r.Value = genU32().Draw(t, "rv")
	}
	return r
}

func genInbound(t *rapid.T) *rwp.InboundMessage {
	m := &rwp.InboundMessage{}
	parts := b32(t, 15, "mparts")
	if parts&1 != 0 {
		m.FlowMessage = rwp.InboundMessage_FlowMsg(b32(t, 3, "flow"))
	}
	if parts&2 != 0 {
		m.Command = genCommand(t)
	}
	if parts&4 != 0 {
		n := core.Count(t, 1, 3, 80, "nst")
		for i := 0; i < n; i++ {
			m.States = append(m.States, genState(t))
		}
	}
	if parts&8 != 0 {
		n := rapid.IntRange(1, 3).Draw(t, "nreg")
		for i := 0; i < n; i++ {
			m.Registers = append(m.Registers, genRegister(t))
		}
	}
	return m
}
