package conv

import (
	"fmt"
	"strings"
	"unicode/utf8"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"pgregory.net/rapid"
	"rwpverif/core"
)

// genWord makes text for identity fields: printable, possibly with separators.
func genWord() *rapid.Generator[string] {
	return rapid.OneOf(genText(), genText(), rapid.SampledFrom([]string{"SK_RACKFUSION", "123456-ABC", "v1.2.3-pre4", "a|b;c", "ping", "map=1:1", "HWC#1=Down", "x;y"}))
}

// genItem makes one element of an address list.
func genItem() *rapid.Generator[string] {
	return rapid.OneOf(rapid.SampledFrom([]string{"10.0.0.1", "192.168.10.99:9923", "::1", "host name", "a", "x=1"}),
		rapid.StringOfN(rapid.SampledFrom([]rune("abc0189.:-_=,")), 1, 15, -1))
}

func genItems(t *rapid.T) []string {
	n := core.Count(t, 0, 4, 80, "items")
	return rapid.SliceOfN(genItem(), n, n).Draw(t, "items")
}

func genAvail(t *rapid.T) map[uint32]uint32 {
	m := map[uint32]uint32{}
	for n := core.Count(t, 0, 6, 300, "map"); n > 0; n-- {
		m[genID().Draw(t, "hwc")] = genU32().Draw(t, "to")
	}
	return m
}

func genEdge(t *rapid.T) rwp.BinaryEvent_EdgeID {
	return rapid.SampledFrom([]rwp.BinaryEvent_EdgeID{0, 0, 1, 2, 4, 8, 16}).Draw(t, "edge")
}

func genEvent(t *rapid.T) *rwp.HWCEvent {
	e := &rwp.HWCEvent{HWCID: genID().Draw(t, "hwc")}
	if rapid.Bool().Draw(t, "ts") {
		e.Timestamp = genU32().Draw(t, "tsv")
	}
	// an event carries one report, or (rarely) several
	kinds := []int{b32(t, 5, "ev")}
	for b32(t, 11, "more") == 0 && len(kinds) < 4 {
		kinds = append(kinds, b32(t, 5, "ev2"))
	}
	for _, k := range kinds {
		genEventPart(t, e, k)
	}
	return e
}

func genEventPart(t *rapid.T, e *rwp.HWCEvent, k int) {
	switch k {
	case 0, 1:
		e.Binary = &rwp.BinaryEvent{Pressed: rapid.Bool().Draw(t, "p"), Edge: genEdge(t)}
	case 2:
		e.Pulsed = &rwp.PulsedEvent{Value: genI32().Draw(t, "v")}
	case 3:
		e.Absolute = &rwp.AbsoluteEvent{Value: genU32().Draw(t, "v")}
	case 4:
		e.Speed = &rwp.SpeedEvent{Value: genI32().Draw(t, "v")}
	case 5:
		e.RawAnalog = &rwp.RawAnalogEvent{Value: genU32().Draw(t, "v")}
	}
}

func genFloat(t *rapid.T) float32 {
	return rapid.OneOf(rapid.Float32Range(-120, 200), rapid.SampledFrom([]float32{0, 0.05, 0.25, -100, 1.2375, 99.95, 45.65, 1e6, -0.04, 16777216})).Draw(t, "f")
}

func genSysStat(t *rapid.T) *rwp.SystemStat {
	s := &rwp.SystemStat{}
	for _, f := range sysInts {
		if f.key == "CPUUsage" {
			s.CPUUsage = genU32().Draw(t, "cpu")
		} else {
			f.put(s, int64(genI32().Draw(t, f.key)))
		}
	}
	bits := b32(t, 255, "bits")
	for i, f := range sysBools {
		*f.get(s) = bits>>i&1 == 1
	}
	for _, f := range sysFloats {
		*f.get(s) = genFloat(t)
	}
	return s
}

func genSupport(t *rapid.T) *rwp.RawPanelSupport {
	s := &rwp.RawPanelSupport{}
	bits := rapid.OneOf(rapid.IntRange(0, 8191), rapid.SampledFrom([]int{0, 8191, 1, 2, 4096})).Draw(t, "caps")
	for i, f := range supportFlags {
		*f.get(s) = bits>>i&1 == 1
	}
	return s
}

// genSVGText makes SVG-like text; multi-line ones break between elements only
// when tame, and anywhere else otherwise.
func genSVGText(t *rapid.T, breaks bool) string {
	var sb strings.Builder
	nl := func() {
		if breaks && b32(t, 2, "nl") == 0 {
			sb.WriteString(rapid.SampledFrom([]string{"\n", "\n\t", " \n", "\r\n", "\n\n   ", "\t\n"}).Draw(t, "brk"))
		}
	}
	sb.WriteString("<svg")
	nl()
	sb.WriteString(" width=\"100\"")
	nl()
	sb.WriteString(">")
	for i := b32(t, 4, "els"); i > 0; i-- {
		nl()
		switch b32(t, 6, "el") {
		case 4:
			sb.WriteString("<!--")
			nl()
			sb.WriteString(rapid.SampledFrom([]string{" a > b ", " note", "<g/>", "x-"}).Draw(t, "cm"))
			nl()
			sb.WriteString(" -->")
		case 5:
			sb.WriteString("<![CDATA[a")
			nl()
			sb.WriteString("<b]]>")
		case 6:
			sb.WriteString(rapid.SampledFrom([]string{"<?xml version=\"1.0\"?>", "<!DOCTYPE svg>", "<g>", "</g>", "&amp;&#10;", "<title/>", "<defs>", "</defs>", "// x", "/* y */", "# z"}).Draw(t, "misc"))
			nl()
		case 0:
			sb.WriteString("<path d=\"M 0 0")
			for j := b32(t, 4, "pts"); j > 0; j-- {
				nl()
				fmt.Fprintf(&sb, " L %d,%d", b32(t, 99, "x"), b32(t, 99, "y"))
			}
			nl()
			sb.WriteString(" z\"/>")
		case 1:
			sb.WriteString("<text>")
			nl()
			sb.WriteString(rapid.OneOf(rapid.StringOfN(rapid.SampledFrom([]rune("ab c;{}9")), 0, 8, -1), genMined("line")).Draw(t, "tx"))
			nl()
			sb.WriteString("</text>")
		case 2:
			sb.WriteString("<rect")
			q := rapid.SampledFrom([]string{"'", "\""}).Draw(t, "quote")
			for j, a := range []string{"x", "y", "class", "data-α"}[:1+b32(t, 3, "attrs")] {
				nl()
				fmt.Fprintf(&sb, " %s=%s%d%s", a, q, j, q)
			}
			nl()
			sb.WriteString("/>")
		default:
			sb.WriteString("<style>.a{fill:red;")
			nl()
			sb.WriteString("stroke:blue}")
			nl()
			sb.WriteString("</style>")
		}
	}
	nl()
	sb.WriteString("</svg>")
	s := sb.String()
	if breaks && b32(t, 3, "anywhere") == 0 { // between any two characters
		for i := 1 + b32(t, 3, "nany"); i > 0; i-- {
			at := rapid.IntRange(0, len(s)).Draw(t, "at")
			for at < len(s) && !utf8.RuneStart(s[at]) {
				at++
			}
			s = s[:at] + "\n" + s[at:]
		}
	}
	return s
}

func genInfo(t *rapid.T) *rwp.PanelInfo {
	p := &rwp.PanelInfo{}
	n := rapid.IntRange(1, 5).Draw(t, "ninfo")
	for i := 0; i < n; i++ {
		switch b32(t, 9, "inf") {
		case 0:
			p.Model = genWord().Draw(t, "w")
		case 1:
			p.Serial = genWord().Draw(t, "w")
		case 2:
			p.SoftwareVersion = genWord().Draw(t, "w")
		case 3:
			p.Name = genWord().Draw(t, "w")
		case 4:
			p.Platform = genWord().Draw(t, "w")
		case 5:
			p.BluePillReady = rapid.Bool().Draw(t, "b")
		case 6:
			p.MaxClients = genU32().Draw(t, "n")
		case 7:
			p.LockedToIPs = genItems(t)
		case 8:
			p.PanelType = rwp.PanelInfo_PanelTypeE(b32(t, 5, "pt"))
		case 9:
			p.RawPanelSupport = genSupport(t)
		}
	}
	return p
}

func genOutbound(t *rapid.T) *rwp.OutboundMessage {
	m := &rwp.OutboundMessage{}
	n := rapid.IntRange(1, 3).Draw(t, "nparts")
	if b32(t, 14, "all") == 0 {
		n = 30
	}
	for i := 0; i < n; i++ {
		switch b32(t, 22, "part") {
		case 0:
			m.FlowMessage = rapid.SampledFrom([]rwp.OutboundMessage_FlowMsg{0, 1, 2, 3, 4, 5, 100}).Draw(t, "flow")
		case 1:
			m.PanelInfo = genInfo(t)
		case 2:
			m.PanelTopology = &rwp.PanelTopology{Json: rapid.SampledFrom([]string{"", genJSONText(t, true)}).Draw(t, "tj"), Svgbase: rapid.SampledFrom([]string{"", genSVGText(t, true)}).Draw(t, "ts")}
		case 3:
			m.BurninProfile = &rwp.BurninProfile{Json: genJSONText(t, true)}
		case 4:
			m.NetworkConfig = genNet(t)
		case 5:
			m.CalibrationProfile = &rwp.CalibrationProfile{Json: genJSONText(t, true)}
		case 6:
			m.DefaultCalibrationProfile = &rwp.CalibrationProfile{Json: genJSONText(t, true)}
		case 7:
			m.SleepTimeout = &rwp.SleepTimeout{Value: genU32().Draw(t, "v")}
		case 8:
			m.SleepState = &rwp.SleepState{IsSleeping: rapid.Bool().Draw(t, "v")}
		case 9:
			m.HeartBeatTimer = &rwp.HeartBeatTimer{Value: genU32().Draw(t, "v")}
		case 10:
			m.DimmedGain = &rwp.DimmedGain{Value: genU32().Draw(t, "v")}
		case 11:
			m.Connections = &rwp.Connections{Connection: genItems(t)}
		case 12:
			m.RunTimeStats = &rwp.RunTimeStats{BootsCount: genU32().Draw(t, "a"), TotalUptime: genU32().Draw(t, "b"), SessionUptime: genU32().Draw(t, "c"), ScreenSaveOnTime: genU32().Draw(t, "d")}
		case 13:
			m.ErrorMessage = &rwp.Message{Message: genWord().Draw(t, "em")}
		case 14:
			m.Message = &rwp.Message{Message: genWord().Draw(t, "ms")}
		case 15:
			m.HWCavailability = genAvail(t)
		case 16:
			m.EnvironmentalHealth = &rwp.Environment{RunMode: rwp.Environment_RunModeE(b32(t, 2, "eh"))}
		case 17:
			m.SysStat = genSysStat(t)
		case 18:
			for i := core.Count(t, 1, 4, 120, "nreg"); i > 0; i-- {
				m.Registers = append(m.Registers, genRegister(t))
			}
		default:
			for i := core.Count(t, 1, 6, 300, "nev"); i > 0; i-- {
				m.Events = append(m.Events, genEvent(t))
			}
		}
	}
	return m
}

var badOutLines = []string{
	"HWC#1=Foo", "HWC#1=down", "HWC#1=Downs", "HWC#1=Encoder:3", "HWC#1=AbsX:3", "hwc#1=Down", "HWC1=Down", "xHWC#1=Down", "HWCx#1=3", "HWCt#1=a|b", "HWCz#1=Down", "HWC#5x4=Down", "HWC#5-4=Up",
	"#1=Down", "Down", "=Down", "maps=1:1", "Map=1:1", "xmap=1:1", "map", "_modelx=a", "_Model=a", "model=a", "x_model=a", "_serialno=1", "serial=1", "_versions=1", "_type=BPI",
	"panelType=BPI", "_supports=ASCII", "support=ASCII", "_sleeping=1", "isSleeping=1", "sleepTimer=1", "_sleepTimers=1", "_topology=x", "_panelTopology=x", "_panelTopology_svg=x", "_panelTopology_HWCs=x",
	"_burnin=x", "burninProfile=x", "_network=x", "networkConfig={}", "_calibration=x", "_default=x", "_serverMode=x", "_heartBeat=1", "heartBeatTimer=1", "_DimmedGain=1", "Dimmed=1", "connections=1", "_connection=1",
	"_boots=1", "bootsCount=1", "_uptime=1", "_screenSaver=1", "ErrorMsgs=1", "errorMsg=1", "Error=1", "msg=1", "Msgs=1", "xMsg=1", "Environmental=Normal", "EnvironmentalHealths=Normal", "SysStats=CPUUsage:1:", "Sys=1", "sysStat=CPUUsage:1:",
	"Mems=1", "mem1=3", "Flags#1=1", "Flag1=1", "Shiftx=1", "state=1", "Stat=1", "xMemA=4", "pings", "PING", "ackk", "bsy", "rdy", "LIST", "list=1", "ActivePanel=1", "Clear", "HeartBeatTimer=5", "SleepTimer=5", "PanelBrightness=3", "hello world", "=", "=5",
}

func genBadOutLine(t *rapid.T) string {
	if rapid.Bool().Draw(t, "fixed") {
		return rapid.SampledFrom(badOutLines).Draw(t, "bad")
	}
	k := "zz" + rapid.StringOfN(rapid.SampledFrom([]rune("abcdefgh_")), 1, 8, -1).Draw(t, "key")
	return k + rapid.SampledFrom([]string{"", "#1", "#1.4", "A"}).Draw(t, "tgt") + rapid.SampledFrom([]string{"", "=", "=1", "=Down", "=Enc:1", "=1:1", "=Normal", "=ASCII,Binary"}).Draw(t, "arg")
}

// genOutLine makes one well-formed panel line, or a bad one.
func genOutLine(t *rapid.T, bad bool) Line {
	one := func(f string, a ...any) Line { return Line{L: []byte(fmt.Sprintf(f, a...))} }
	id := func() uint32 { return genID().Draw(t, "id") }
	k := b32(t, 19, "linekind")
	if !bad && k == 19 {
		k = 0
	}
	switch k {
	case 0, 1, 2:
		edge := ""
		if rapid.Bool().Draw(t, "edge?") {
			edge = fmt.Sprintf(".%d", rapid.SampledFrom([]int{0, 1, 2, 4, 8, 16}).Draw(t, "edge"))
		}
		return one("HWC#%d%s=%s", id(), edge, rapid.SampledFrom([]string{"Down", "Up", "Press"}).Draw(t, "bin"))
	case 3, 4:
		return one("HWC#%d=%s:%d", id(), rapid.SampledFrom([]string{"Enc", "Speed"}).Draw(t, "ek"), genI32().Draw(t, "v"))
	case 5, 6:
		return one("HWC#%d=%s:%d", id(), rapid.SampledFrom([]string{"Abs", "Raw"}).Draw(t, "ek"), genU32().Draw(t, "v"))
	case 7:
		return one("map=%d:%d", id(), genU32().Draw(t, "v"))
	case 8:
		return one("%s", rapid.SampledFrom([]string{"ping", "ack", "nack", "BSY", "RDY", "list", ""}).Draw(t, "w"))
	case 9, 10:
		w := genWord().Draw(t, "w")
		if w == "" {
			w = "x"
		}
		return one("%s=%s", rapid.SampledFrom([]string{"_model", "_serial", "_version", "_name", "_platform", "ErrorMsg", "Msg"}).Draw(t, "sk"), w)
	case 11:
		j := genJSONText(t, false)
		if rapid.Bool().Draw(t, "svg") {
			j = genSVGText(t, false)
		}
		return one("%s=%s", rapid.SampledFrom([]string{"_panelTopology_svgbase", "_panelTopology_HWC", "_burninProfile", "_calibrationProfile", "_defaultCalibrationProfile"}).Draw(t, "pk"), j)
	case 12:
		return one("%s=%s", rapid.SampledFrom([]string{"_serverModeMaxClients", "_sleepTimer", "_heartBeatTimer", "DimmedGain", "_bootsCount", "_totalUptimeMin", "_sessionUptimeMin", "_screenSaverOnMin"}).Draw(t, "nk"), dec(t))
	case 13:
		return one("%s=%d", rapid.SampledFrom([]string{"_isSleeping", "_bluePillReady"}).Draw(t, "bk"), b32(t, 1, "bv"))
	case 14:
		sep := rapid.SampledFrom([]string{";", "; ", " ; "}).Draw(t, "sep")
		return one("%s=%s", rapid.SampledFrom([]string{"_serverModeLockToIP", "_connections"}).Draw(t, "lk"), strings.Join(append(genItems(t), genItem().Draw(t, "item")), sep))
	case 15:
		switch b32(t, 2, "word") {
		case 0:
			return one("_panelType=%s", panelTypeWord[rwp.PanelInfo_PanelTypeE(rapid.IntRange(1, 5).Draw(t, "pt"))])
		case 1:
			return one("EnvironmentalHealth=%s", healthWord[b32(t, 2, "h")])
		}
		return one("_networkConfig=%s", jsonLine(genNet(t)))
	case 16:
		var ws []string
		for _, f := range supportFlags {
			ws = append(ws, f.word)
		}
		ws = rapid.Permutation(ws).Draw(t, "perm")
		ws = ws[:rapid.IntRange(1, len(ws)).Draw(t, "ncap")]
		if b32(t, 4, "foreign") == 0 { // words which a later version may have
			for i := core.Count(t, 1, 3, 60, "nforeign"); i > 0; i-- {
				at := rapid.IntRange(0, len(ws)).Draw(t, "at")
				ws = append(ws[:at:at], append([]string{rapid.SampledFrom([]string{"zzNew", "zzASCII", "zz", "zzBinary2"}).Draw(t, "fw")}, ws[at:]...)...)
			}
		}
		return one("_support=%s", strings.Join(ws, ","))
	case 17:
		var ks []string
		for _, f := range sysInts {
			v := int64(genI32().Draw(t, "v"))
			if f.key == "CPUUsage" && v < 0 {
				v = -v
			}
			ks = append(ks, fmt.Sprintf("%s:%d:", f.key, v))
		}
		for _, f := range sysBools {
			ks = append(ks, fmt.Sprintf("%s:%d:", f.key, b32(t, 1, "v")))
		}
		for _, f := range sysFloats {
			ks = append(ks, fmt.Sprintf("%s:%.*f:", f.key, b32(t, 3, "prec"), genFloat(t)))
		}
		ks = rapid.Permutation(ks).Draw(t, "perm")
		ks = ks[:rapid.IntRange(1, len(ks)).Draw(t, "nstat")]
		if b32(t, 4, "foreign") == 0 { // statistics which a later version may have
			for i := core.Count(t, 1, 3, 60, "nforeign"); i > 0; i-- {
				at := rapid.IntRange(0, len(ks)).Draw(t, "at")
				ks = append(ks[:at:at], append([]string{rapid.SampledFrom([]string{"zzFanSpeed:3:", "zzLoad:0.25:", "zzMode:on:"}).Draw(t, "fk")}, ks[at:]...)...)
			}
		}
		s := strings.Join(ks, "")
		if rapid.Bool().Draw(t, "colon") {
			s = strings.TrimSuffix(s, ":")
		}
		return one("SysStat=%s", s)
	case 18:
		switch b32(t, 3, "reg") {
		case 0, 1, 2:
			return one("%s%s=%s", rapid.SampledFrom([]string{"Mem", "Shift", "State"}).Draw(t, "rk"), genRegID().Draw(t, "rid"), dec(t))
		}
		return one("Flag#%s=%s", rapid.SampledFrom([]string{"", "0", "1", "7", "63", "100", "4294967295"}).Draw(t, "fid"), dec(t))
	default:
		return Line{L: []byte(genBadOutLine(t)), Bad: true}
	}
}
