package conv

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strings"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"pgregory.net/rapid"
	"rwpverif/core"
)

// Large content: real topologies, profiles and images take hundreds of
// kilobytes on one line, and one call may carry thousands of parts.

func genBigLen(t *rapid.T) int {
	switch b32(t, 3, "lenkind") {
	case 0:
		return rapid.SampledFrom([]int{1 << 10, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 20}).Draw(t, "pow") + rapid.IntRange(-2, 2).Draw(t, "d")
	case 1:
		return int(core.Ints(200, 1<<20).Draw(t, "dict")) + rapid.IntRange(-1, 1).Draw(t, "d")
	}
	return rapid.IntRange(1000, 400000).Draw(t, "len")
}

// genBig makes JSON or SVG text of about n bytes, exactly n for unformatted.
func genBig(t *rapid.T, n int, multi bool) string {
	br := ""
	if multi {
		br = rapid.SampledFrom([]string{"\n", "\n\t", "\r\n  ", "\n\n"}).Draw(t, "br")
	}
	var sb strings.Builder
	open, row, end := "{", `"%d":{"x":%d,"txt":"Cam %[1]d"},`, `"end":0}`
	if rapid.Bool().Draw(t, "svg") {
		open, row, end = "<svg>", `<rect id="%d" x="%d"/>`, "</svg>"
	}
	sb.WriteString(open)
	wide := rapid.Bool().Draw(t, "wide") // one part takes all the room
	if wide {
		s := fmt.Sprintf(row, 1, 2)
		i := strings.Index(s, `2`) // inside the row
		sb.WriteString(br + s[:i] + strings.Repeat("7", max(0, n-sb.Len()-len(s)-len(end)-2*len(br))) + s[i:])
	} else {
		for i := 0; sb.Len() < n-len(end)-40-len(br); i++ {
			sb.WriteString(br)
			fmt.Fprintf(&sb, row, i, i*i)
		}
	}
	sb.WriteString(br)
	if pad := n - sb.Len() - len(end); !wide && open == "{" && pad > 6 {
		sb.WriteString(`"p":"` + strings.Repeat("p", pad-7) + `",`)
	}
	sb.WriteString(end)
	return sb.String()
}

func genBigOut(t *rapid.T) c03Case {
	m := &rwp.OutboundMessage{}
	n := genBigLen(t)
	switch b32(t, 9, "part") {
	case 0:
		m.PanelTopology = &rwp.PanelTopology{Json: genBig(t, n, true), Svgbase: "<svg/>"}
	case 1:
		m.PanelTopology = &rwp.PanelTopology{Svgbase: genBig(t, n, true), Json: genBig(t, n/2, false)}
	case 2:
		m.BurninProfile = &rwp.BurninProfile{Json: genBig(t, n, true)}
	case 3:
		m.CalibrationProfile = &rwp.CalibrationProfile{Json: genBig(t, n, true)}
	case 4:
		m.DefaultCalibrationProfile = &rwp.CalibrationProfile{Json: genBig(t, n, false)}
	case 5:
		m.ErrorMessage, m.Message = &rwp.Message{Message: genBig(t, n, false)}, &rwp.Message{Message: genBig(t, n/3, false)}
	case 6:
		m.PanelInfo = &rwp.PanelInfo{Model: genBig(t, min(n, 70000), false), Name: "a", SoftwareVersion: "1"}
	case 7:
		for i := 0; i < n/20; i++ {
			m.Events = append(m.Events, &rwp.HWCEvent{HWCID: uint32(i), Absolute: &rwp.AbsoluteEvent{Value: uint32(i * 3)}})
		}
	case 8:
		m.HWCavailability = map[uint32]uint32{}
		for i := 0; i < n/20; i++ {
			m.HWCavailability[uint32(i)] = uint32(i * 7)
		}
	default:
		m.Connections = &rwp.Connections{}
		for i := 0; i < n/15; i++ {
			m.Connections.Connection = append(m.Connections.Connection, fmt.Sprintf("10.0.%d.%d:99", i/250, i%250))
		}
	}
	return c03Case{packOut([]*rwp.OutboundMessage{{FlowMessage: 1}, m, {FlowMessage: 2}})}
}

func genBigIn(t *rapid.T) c01Case {
	m := &rwp.InboundMessage{}
	n := genBigLen(t)
	ids := func(k int) (out []uint32) {
		for i := 0; i < k; i++ {
			out = append(out, uint32(i+k))
		}
		return
	}
	switch b32(t, 5, "part") {
	case 0:
		m.Command = &rwp.Command{SetCalibrationProfile: &rwp.CalibrationProfile{Json: genBig(t, n, true)}}
	case 1:
		m.States = []*rwp.HWCState{{HWCIDs: ids(3), HWCText: &rwp.HWCText{Formatting: 10, Title: genBig(t, n, false), Textline1: genBig(t, n/9, false)}}}
	case 2: // many components
		m.States = []*rwp.HWCState{{HWCIDs: ids(n / 30), HWCMode: &rwp.HWCMode{State: 4, BlinkPattern: 3}, HWCColor: &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: 5}}, HWCText: &rwp.HWCText{Title: "a"}}}
	case 3: // many states
		for i := 0; i < n/40; i++ {
			m.States = append(m.States, &rwp.HWCState{HWCIDs: []uint32{uint32(i)}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(i % 6)}, HWCText: &rwp.HWCText{IntegerValue: int32(i), Title: fmt.Sprint(i)}})
		}
	case 4:
		for i := 0; i < n/30; i++ {
			m.Registers = append(m.Registers, &rwp.Register{Reg: rwp.Register_MEM, Id: "A", Value: uint32(i)})
		}
	default:
		k := min(n, 60000)
		m.States = []*rwp.HWCState{{HWCIDs: ids(1 + n%7), HWCGfx: &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(n % 3), W: 300, H: 200, ImageData: bytes.Repeat([]byte{1, 2, 7}, k/3+1)[:k]}}}
	}
	return c01Case{packIn([]*rwp.InboundMessage{{FlowMessage: 1}, m, {FlowMessage: 2}})}
}

func genBigInLines(t *rapid.T) c02Case {
	one := func(f string, a ...any) Line { return Line{L: []byte(fmt.Sprintf(f, a...))} }
	n := genBigLen(t)
	ls := []Line{one("ping")}
	switch b32(t, 6, "part") {
	case 5: // one line with many messages
		var ms []*rwp.InboundMessage
		for i := 0; i < n/120; i++ {
			ms = append(ms, &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{uint32(i)}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(i % 6)}}}})
		}
		ls = append(ls, Line{L: jsonLine(ms), M: packIn(ms)})
	case 6: // a transfer in many lines
		data := bytes.Repeat([]byte{1, 2, 7, 0, 255}, n/25+1)
		chunk := rapid.SampledFrom([]int{30, 64, 169, 170}).Draw(t, "chunk")
		total := (len(data) + chunk - 1) / chunk
		for i := 0; i < total; i++ {
			head := fmt.Sprintf("%s#%d=%d", gfxKey(n%3), 5, i)
			if i == 0 {
				head += fmt.Sprintf("/%d,200x100", total-1)
			}
			ls = append(ls, one("%s:%s", head, base64.StdEncoding.EncodeToString(data[i*chunk:min(len(data), (i+1)*chunk)])))
		}
	case 0:
		ls = append(ls, one("SetCalibrationProfile=%s", genBig(t, n, false)))
	case 1:
		ls = append(ls, one("HWCt#7=|||%s|1|%s", genBig(t, n, false), genBig(t, n/5, false)))
	case 2:
		var s []string
		for i := 0; i < n/6; i++ {
			s = append(s, fmt.Sprint(i*3))
		}
		ls = append(ls, one("HWC%s#%s=4", rapid.SampledFrom([]string{"", "c", "x"}).Draw(t, "key"), strings.Join(s, ",")))
	case 3:
		for i := 0; i < n/40; i++ {
			ls = append(ls, one("HWCt#%d=%d", i, i), one("HWC#%d=%d", i, i%5))
		}
	default:
		st := &rwp.HWCState{HWCIDs: []uint32{1, 2}, HWCText: &rwp.HWCText{Title: genBig(t, n, false)}}
		ls = append(ls, Line{L: jsonLine(st), M: packIn([]*rwp.InboundMessage{{States: []*rwp.HWCState{st}}})})
	}
	return c02Case{append(ls, one("ping"))}
}

func genBigOutLines(t *rapid.T) c04Case {
	one := func(f string, a ...any) Line { return Line{L: []byte(fmt.Sprintf(f, a...))} }
	n := genBigLen(t)
	ls := []Line{one("ping")}
	switch b32(t, 3, "part") {
	case 0, 1:
		ls = append(ls, one("%s=%s", rapid.SampledFrom([]string{"_panelTopology_svgbase", "_panelTopology_HWC", "_burninProfile", "_calibrationProfile", "_defaultCalibrationProfile", "_model", "ErrorMsg", "Msg"}).Draw(t, "k"), genBig(t, n, false)))
	case 2:
		for i := 0; i < n/30; i++ {
			ls = append(ls, one("HWC#%d=Abs:%d", i, i%1001), one("map=%d:%d", i, i*2))
		}
	default:
		var s []string
		for i := 0; i < n/15; i++ {
			s = append(s, fmt.Sprintf("10.0.%d.%d:99", i/250, i%250))
		}
		ls = append(ls, one("_connections=%s", strings.Join(s, ";")))
	}
	return c04Case{append(ls, one("ping"))}
}
