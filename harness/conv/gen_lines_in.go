package conv

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"unicode"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"pgregory.net/rapid"
	"rwpverif/core"
)

// Line is one ASCII line of a case; JSON lines carry the messages they encode,
// and lines outside the grammar are marked.
type Line struct {
	L   []byte
	M   Msgs `json:",omitempty"`
	Bad bool `json:",omitempty"`
}

func genIDList(t *rapid.T) string {
	n := core.Count(t, 1, 3, 120, "nids")
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, fmt.Sprint(genID().Draw(t, "id")))
	}
	return strings.Join(p, ",")
}

func dec(t *rapid.T) string {
	s := fmt.Sprint(genU32().Draw(t, "num"))
	if b32(t, 15, "lz") == 0 {
		s = "00" + s
	}
	return s
}

// genTextArg builds the argument of a text line with any subset of fields.
func genTextArg(t *rapid.T) string {
	f := make([]string, rapid.IntRange(1, 21).Draw(t, "nf"))
	dense := b32(t, 3, "dense")
	for i := range f {
		if b32(t, 3, "has") < dense {
			continue
		}
		switch i {
		case 0, 7, 10, 11, 12, 13:
			f[i] = fmt.Sprint(genI32().Draw(t, "i"))
		case 1:
			f[i] = fmt.Sprint(b32(t, 12, "fmt"))
		case 2:
			f[i] = fmt.Sprint(b32(t, 63, "ic"))
		case 3, 5, 6:
			f[i] = genText().Draw(t, "s")
		case 4:
			f[i] = fmt.Sprint(b32(t, 2, "bar"))
		case 8:
			f[i] = fmt.Sprint(b32(t, 4, "pair"))
		case 9:
			f[i] = fmt.Sprint(b32(t, 3, "sc"))
		case 14:
			f[i] = rapid.SampledFrom([]string{"", "0", "1", "7"}).Draw(t, "res")
		case 15:
			f[i] = fmt.Sprint(b32(t, 127, "font"))
		case 16:
			f[i] = fmt.Sprint(b32(t, 255, "size"))
		case 17:
			f[i] = fmt.Sprint(b32(t, 31, "set"))
		case 18:
			f[i] = fmt.Sprint(b32(t, 1, "inv"))
		default:
			f[i] = fmt.Sprint(b32(t, 255, "col"))
		}
	}
	if len(f) > 1 && (f[1] == "10" || f[1] == "11") {
		f[0] = strings.TrimPrefix(f[0], "-") // a font size
	}
	return strings.Join(f, "|")
}

func gfxKey(kind int) string { return []string{"HWCg", "HWCgRGB", "HWCgGray"}[kind] }

// genImageLines makes one clean run of graphics lines.
func genImageLines(t *rapid.T, ids string) (out []string) {
	key := gfxKey(b32(t, 2, "kind"))
	simple := b32(t, 2, "simple") == 0
	max := 2
	head := ""
	if !simple {
		max = core.Count(t, 0, rapid.SampledFrom([]int{4, 4, 12}).Draw(t, "usual"), 130, "max")
		head = fmt.Sprintf("/%d,%dx%d", max, genU32().Draw(t, "w"), genU32().Draw(t, "h"))
		if rapid.Bool().Draw(t, "off") {
			head += fmt.Sprintf(",%d,%d", genU32().Draw(t, "x"), genU32().Draw(t, "y"))
		}
	}
	for i := 0; i <= max; i++ {
		n := 170
		if b32(t, 2, "len") == 0 {
			n = rapid.IntRange(0, 170).Draw(t, "n")
		}
		out = append(out, fmt.Sprintf("%s#%s=%d%s:%s", key, ids, i, head, base64.StdEncoding.EncodeToString(genBytes(t, n))))
		head = ""
	}
	return
}

func jsonLine(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

var badInLines = []string{
	"HWCz#1=5", "hwc#1=2", "HWC1=2", "HWCC#1=3", "HWCtt#1=1", "HWCgrgb#1=0/0,1x1:AA==", "ActivePanel=0", "ActivePanel", "ActivePanel=11", "lists", "LIST", "maps", "map=1:1",
	"PanelTopology", "PanelTopology??", "BurninProfile", "clear", "ClearLED", "ClearDisplay", "Clear=1", "WakeUp", "reboot", "Reboot=1", "SleepTimer", "Sleep=5", "Heartbeat=5",
	"HeartBeatTimers=5", "XHeartBeatTimer=5", "Brightness=3", "PanelBrightnes=3,4", "Mems=1", "mem1=3", "Flags#1=1", "Flag1=1", "Shiftx=1", "state=1", "Stat=1", "XMemA=4",
	"pings", "PING", "acks", "BSY", "RDY", "_model=SK_1", "_serial=123", "HWC#1=Down:1x", "Webservers=1", "JSON=1", "JSONonInbound=1", "SetCalibration={}", "NetworkConfig=1",
	"SetNetwork={\"Dhcp\":true}", "SimulateEnvironment=Normal", "HWCrawADC#1=1", "#1=3", "=", "=5", "xHWC#1=4", "xHWCx#1=4", "xHWCc#1=4", "xHWCt#1=4", "xHWCg#1=0/0,1x1:AA==", "hello world", "RunTimeStat?", "Register?",
}

func genBadInLine(t *rapid.T) string {
	if rapid.Bool().Draw(t, "fixed") {
		s := rapid.SampledFrom(badInLines).Draw(t, "bad")
		if s != "HWC#1=Down:1x" {
			return s
		}
		return "nothing"
	}
	// a random keyword that is no keyword of the grammar (all of those start
	// with an upper case letter or are one of six words), with an argument
	k := rapid.StringOfN(rapid.SampledFrom([]rune("abcdefgh_")), 1, 8, -1).Draw(t, "key")
	if b32(t, 2, "q") == 0 {
		return "zz" + k + "?"
	}
	return "zz" + k + rapid.SampledFrom([]string{"", "#1", "#1,2", "A"}).Draw(t, "tgt") + "=" + rapid.SampledFrom([]string{"", "1", "65535", "1,2", "Normal", "{}", "a|b|c"}).Draw(t, "arg")
}

// genInLines makes one well-formed line (or run of lines), or a bad one.
func genInLines(t *rapid.T, bad bool) []Line {
	one := func(f string, a ...any) []Line { return []Line{{L: []byte(fmt.Sprintf(f, a...))}} }
	k := b32(t, 15, "linekind")
	if !bad && k == 15 {
		k = 3
	}
	switch k {
	case 0:
		return one("HWC#%s=%d", genIDList(t), rapid.Uint16().Draw(t, "v"))
	case 1:
		return one("HWCx#%s=%d", genIDList(t), rapid.Uint16().Draw(t, "v"))
	case 2:
		return one("HWCc#%s=%d", genIDList(t), rapid.Uint16().Draw(t, "v"))
	case 3, 4, 5:
		return one("HWCt#%s=%s", genIDList(t), genTextArg(t))
	case 6:
		return one("HWCrawADCValues#%s=%d", genIDList(t), b32(t, 1, "v"))
	case 7:
		var out []Line
		ids := genIDList(t)
		if b32(t, 3, "abandoned") == 0 { // a transfer is given up for the next one
			part := genImageLines(t, ids)
			for _, l := range part[:b32(t, len(part)-1, "upto")] {
				out = append(out, Line{L: []byte(l)})
			}
			if rapid.Bool().Draw(t, "elsewhere") {
				ids = genIDList(t)
			}
		}
		for _, l := range genImageLines(t, ids) {
			out = append(out, Line{L: []byte(l)})
		}
		return out
	case 8:
		ks := []string{"ping", "ack", "nack", ""}
		for _, s := range sortedKeys(plainCmd) {
			ks = append(ks, s)
		}
		return one("%s", rapid.SampledFrom(ks).Draw(t, "kw"))
	case 9:
		return one("%s=%s", rapid.SampledFrom(sortedKeys(numCmd)).Draw(t, "nk"), dec(t))
	case 10:
		switch b32(t, 5, "sub") {
		case 0:
			return one("PanelBrightness=%s", dec(t))
		case 1:
			return one("PanelBrightness=%s,%s", dec(t), dec(t))
		case 2:
			return one("%s=%s", rapid.SampledFrom([]string{"Webserver", "JSONonOutbound"}).Draw(t, "k"), dec(t))
		case 3:
			return one("SetCalibrationProfile=%s", genJSONText(t, false))
		case 4:
			return one("SetNetworkConfig=%s", jsonLine(genNet(t)))
		default:
			return one("SimulateEnvironmentalHealth=%s", rapid.SampledFrom([]string{"Normal", "Safemode", "Blocked"}).Draw(t, "h"))
		}
	case 11, 12:
		switch b32(t, 3, "reg") {
		case 0:
			return one("Mem%s=%s", genRegID().Draw(t, "id"), dec(t))
		case 1:
			return one("Shift%s=%s", genRegID().Draw(t, "id"), dec(t))
		case 2:
			return one("State%s=%s", genRegID().Draw(t, "id"), dec(t))
		default:
			return one("Flag#%s=%s", rapid.SampledFrom([]string{"", "0", "1", "7", "63", "100", "4294967295", "007"}).Draw(t, "id"), dec(t))
		}
	case 13:
		s := genState(t)
		return []Line{{L: jsonLine(s), M: packIn([]*rwp.InboundMessage{{States: []*rwp.HWCState{s}}})}}
	case 14:
		var ms []*rwp.InboundMessage
		for i := rapid.IntRange(0, 3).Draw(t, "njson"); i > 0; i-- {
			ms = append(ms, genInbound(t))
		}
		if ms == nil {
			return []Line{{L: []byte("[]"), M: Msgs{}}}
		}
		return []Line{{L: jsonLine(ms), M: packIn(ms)}}
	default:
		return []Line{{L: []byte(genBadInLine(t)), Bad: true}}
	}
}

func sortedKeys[V any](m map[string]V) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// tidy reports whether trimming white space leaves the line alone.
func tidy(s string) bool { return strings.TrimFunc(s, unicode.IsSpace) == s }
