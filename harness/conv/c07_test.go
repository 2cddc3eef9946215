package conv

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"unicode"

	rapi "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
	"rwpverif/core"
)

// genBroken makes text with white space and line breaks anywhere.
func genBroken() *rapid.Generator[string] {
	runes := []rune("ab<>/=\"'{}[]:;,|# \n\n\n\t\r\v\f  ä漢%\\")
	return rapid.OneOf(
		rapid.StringOfN(rapid.SampledFrom(runes), 0, 12, -1),
		rapid.StringOfN(rapid.SampledFrom(runes), 0, 60, -1),
		rapid.SampledFrom([]string{"\n", "a\nb", "\na", "a\n", "\n\n", "a\r\nb", "x\nping\ny", "t\nHWC#1=4", "<svg>\n</svg>", "a>\nb", "a\nb>\nc"}),
		genMined("any"),
		rapid.Custom(func(t *rapid.T) string { return genMined("any").Draw(t, "a") + "\n" + genMined("any").Draw(t, "b") }),
		rapid.Custom(func(t *rapid.T) string { return genSVGText(t, true) }),
		rapid.Custom(func(t *rapid.T) string { return genJSONText(t, true) }),
	)
}

// noBreaks replaces every line feed in a message's strings by a space.
func noBreaks(m protoreflect.Message) {
	fix := func(v protoreflect.Value) protoreflect.Value {
		return protoreflect.ValueOfString(strings.ReplaceAll(v.String(), "\n", " "))
	}
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		text, sub := f.Kind() == protoreflect.StringKind, f.Message() != nil
		switch {
		case f.IsMap():
			if f.MapValue().Message() != nil {
				v.Map().Range(func(_ protoreflect.MapKey, e protoreflect.Value) bool { noBreaks(e.Message()); return true })
			}
		case f.IsList():
			for i := 0; i < v.List().Len(); i++ {
				if text {
					v.List().Set(i, fix(v.List().Get(i)))
				} else if sub {
					noBreaks(v.List().Get(i).Message())
				}
			}
		case text:
			m.Set(f, fix(v))
		case sub:
			noBreaks(v.Message())
		}
		return true
	})
}

// sameContent compares strings in any order without white space and without
// the line feeds which JSON writes as \n.
func sameContent(a, b []string) error {
	norm := func(in []string) (out []string) {
		for _, s := range in {
			if strings.HasPrefix(s, "{") || strings.HasPrefix(s, "SetNetworkConfig=") || strings.HasPrefix(s, "_networkConfig=") {
				s = strings.ReplaceAll(s, `\n`, "")
			}
			out = append(out, squash(s))
		}
		sort.Strings(out)
		return
	}
	x, y := norm(a), norm(b)
	if len(x) != len(y) {
		return fmt.Errorf("%d strings with line feeds in the fields, %d with spaces for them", len(x), len(y))
	}
	for i := range x {
		if x[i] != y[i] {
			return fmt.Errorf("with line feeds in a field the content is %q, with spaces for them %q", clip(x[i]), clip(y[i]))
		}
	}
	return nil
}

type c07Case struct {
	In, Out Msgs
}

func hasBreak(b []byte) bool { return strings.Contains(string(b), "\n") }

// oneLineEach checks the strings and that their stream splits back into them.
func oneLineEach(lines []string) error {
	var sb strings.Builder
	for i, l := range lines {
		if strings.Contains(l, "\n") {
			return fmt.Errorf("string %d contains a line feed: %q", i, clip(l))
		}
		sb.WriteString(l + "\n")
	}
	got := strings.Split(sb.String(), "\n")
	got = got[:len(got)-1]
	if len(got) != len(lines) {
		return fmt.Errorf("the stream splits into %d lines, not %d", len(got), len(lines))
	}
	return nil
}

// spaced makes every run of white space one space.
func spaced(s string) string { return strings.Join(strings.Fields(s), " ") }

func spacedLines(s string) string {
	l := strings.Split(s, "\n")
	for i := range l {
		l[i] = spaced(l[i])
	}
	return strings.Join(l, "\n")
}

// keptContent checks one flattened payload of a message encoded on its own.
func keptContent(lines []string, key, payload string) error {
	n := 0
	for _, l := range lines {
		if v, ok := strings.CutPrefix(l, key+"="); ok {
			n++
			if squash(v) != squash(payload) {
				return fmt.Errorf("%s: %q was flattened to %q", key, clip(payload), clip(v))
			}
			if strings.HasSuffix(key, "svgbase") && !joins(spaced(v), flat(spacedLines(payload), true)) {
				return fmt.Errorf("%s: %q was flattened to %q, which joins what the line breaks parted", key, clip(payload), clip(v))
			}
		}
	}
	if n != 1 && !(n == 0 && squash(payload) == "") {
		return fmt.Errorf("%d %s lines for the payload %q", n, key, clip(payload))
	}
	return nil
}

func checkC07(c c07Case, info *core.Info) error {
	ins, outs := c.In.in(), c.Out.out()
	broken := false
	for _, b := range append(append(Msgs{}, c.In...), c.Out...) {
		broken = broken || hasBreak(b)
	}
	info.NonTrivial(broken)
	info.LabelIf(broken, "line feed in some field")
	if err := oneLineEach(rapi.InboundMessagesToRawPanelASCIIstrings(ins)); err != nil {
		return err
	}
	if err := oneLineEach(rapi.OutboundMessagesToRawPanelASCIIstrings(outs)); err != nil {
		return err
	}
	if broken { // with spaces for the line feeds the strings are the same, except for white space
		for _, m := range ins {
			m = proto.Clone(m).(*rwp.InboundMessage) // a copy loses -0
			n := proto.Clone(m).(*rwp.InboundMessage)
			noBreaks(n.ProtoReflect())
			if err := sameContent(rapi.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{m}), rapi.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{n})); err != nil {
				return err
			}
		}
		for _, m := range outs {
			m = proto.Clone(m).(*rwp.OutboundMessage)
			n := proto.Clone(m).(*rwp.OutboundMessage)
			noBreaks(n.ProtoReflect())
			if err := sameContent(rapi.OutboundMessagesToRawPanelASCIIstrings([]*rwp.OutboundMessage{m}), rapi.OutboundMessagesToRawPanelASCIIstrings([]*rwp.OutboundMessage{n})); err != nil {
				return err
			}
		}
	}
	for _, m := range ins {
		if p := m.GetCommand().GetSetCalibrationProfile(); p != nil {
			info.Label("calibration profile to the panel")
			if err := keptContent(rapi.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{m}), "SetCalibrationProfile", p.Json); err != nil {
				return err
			}
		}
	}
	for _, m := range outs {
		lines := rapi.OutboundMessagesToRawPanelASCIIstrings([]*rwp.OutboundMessage{m})
		for _, f := range []struct {
			has      bool
			key, val string
		}{
			{m.PanelTopology != nil, "_panelTopology_svgbase", m.GetPanelTopology().GetSvgbase()},
			{m.PanelTopology != nil, "_panelTopology_HWC", m.GetPanelTopology().GetJson()},
			{m.BurninProfile != nil, "_burninProfile", m.GetBurninProfile().GetJson()},
			{m.CalibrationProfile != nil, "_calibrationProfile", m.GetCalibrationProfile().GetJson()},
			{m.DefaultCalibrationProfile != nil, "_defaultCalibrationProfile", m.GetDefaultCalibrationProfile().GetJson()},
			{m.ErrorMessage != nil, "ErrorMsg", m.GetErrorMessage().GetMessage()},
			{m.Message != nil, "Msg", m.GetMessage().GetMessage()},
		} {
			if f.has {
				info.Label("payload " + f.key)
				if err := keptContent(lines, f.key, f.val); err != nil {
					return err
				}
			}
		}
		// every other text field survives as well, except for white space
		if cBindingAvailable() {
			b := packOut([]*rwp.OutboundMessage{m})[0]
			if strings.ContainsRune(string(b), 0) {
				continue // a C string ends there
			}
			s, err := cb.encode(b)
			if err != nil {
				return err
			}
			if n := strings.Count(s, "\n") + 1; len(lines) > 0 && n != len(lines) {
				return fmt.Errorf("C binding: %d lines for %d strings", n, len(lines))
			}
		}
	}
	return nil
}

func TestC07(t *testing.T) {
	r := core.Start(t, "C07")
	defer r.Finish()
	// one string field at a time, with a break at every position of short texts
	var texts []string
	for _, base := range []string{"", "a", "ab>c", "<p d='M 1 2'/>", "{\"a\": \"b c\"}"} {
		for i := 0; i <= len(base); i++ {
			for _, br := range []string{"\n", "\r\n", "\n ", " \n", "\n\n", "\n\t\n"} {
				texts = append(texts, base[:i]+br+base[i:])
			}
		}
	}
	core.Enumerate(r, "each-field", func(yield func(c07Case) bool) {
		for _, s := range texts {
			for k := 0; k < 22; k++ {
				if !yield(fieldCase(k, s)) {
					return
				}
			}
		}
	}, checkC07)
	core.Explore(r, "messages", core.Size{Quick: 16000, Thorough: 600000}, func(t *rapid.T) c07Case {
		o := genProtoOpts{str: genBroken(), dense: 1 + b32(t, 5, "dense"), maxRep: 3}
		c := c07Case{}
		if rapid.Bool().Draw(t, "in") {
			c.In = packIn([]*rwp.InboundMessage{genAny(t, &rwp.InboundMessage{}, o)})
		} else {
			c.Out = packOut([]*rwp.OutboundMessage{genAny(t, &rwp.OutboundMessage{}, o)})
		}
		return c
	}, checkC07)
	core.Explore(r, "documents", core.Size{Quick: 40000, Thorough: 1500000}, func(t *rapid.T) c07Case {
		s := genBroken().Draw(t, "doc")
		return fieldCase(rapid.IntRange(0, 6).Draw(t, "field"), s)
	}, checkC07)
	core.Explore(r, "large", core.Size{Quick: 150, Thorough: 6000}, func(t *rapid.T) c07Case {
		return fieldCase(rapid.IntRange(0, 21).Draw(t, "field"), genBig(t, genBigLen(t), true))
	}, checkC07)
}

// fieldCase puts the text into one string field.
func fieldCase(k int, s string) c07Case {
	out := func(m *rwp.OutboundMessage) c07Case { return c07Case{Out: packOut([]*rwp.OutboundMessage{m})} }
	in := func(m *rwp.InboundMessage) c07Case { return c07Case{In: packIn([]*rwp.InboundMessage{m})} }
	info := func(p *rwp.PanelInfo) c07Case { return out(&rwp.OutboundMessage{PanelInfo: p}) }
	text := func(x *rwp.HWCText) c07Case {
		return in(&rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{1, 2}, HWCText: x}}})
	}
	switch k {
	case 0:
		return out(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: s, Json: "{}"}})
	case 1:
		return out(&rwp.OutboundMessage{PanelTopology: &rwp.PanelTopology{Svgbase: "<svg/>", Json: s}})
	case 2:
		return out(&rwp.OutboundMessage{BurninProfile: &rwp.BurninProfile{Json: s}})
	case 3:
		return out(&rwp.OutboundMessage{CalibrationProfile: &rwp.CalibrationProfile{Json: s}})
	case 4:
		return out(&rwp.OutboundMessage{DefaultCalibrationProfile: &rwp.CalibrationProfile{Json: s}})
	case 5:
		return out(&rwp.OutboundMessage{ErrorMessage: &rwp.Message{Message: s}, Message: &rwp.Message{Message: s + "x"}})
	case 6:
		return in(&rwp.InboundMessage{Command: &rwp.Command{SetCalibrationProfile: &rwp.CalibrationProfile{Json: s}}})
	case 7:
		return info(&rwp.PanelInfo{Model: s})
	case 8:
		return info(&rwp.PanelInfo{Serial: s})
	case 9:
		return info(&rwp.PanelInfo{SoftwareVersion: s})
	case 10:
		return info(&rwp.PanelInfo{Name: s})
	case 11:
		return info(&rwp.PanelInfo{Platform: s})
	case 12:
		return info(&rwp.PanelInfo{LockedToIPs: []string{s, "10.0.0.1", s}})
	case 13:
		return out(&rwp.OutboundMessage{Connections: &rwp.Connections{Connection: []string{s, s}}})
	case 14:
		return out(&rwp.OutboundMessage{NetworkConfig: &rwp.NetworkConfig{Address: s, Gateway: s}})
	case 15:
		return out(&rwp.OutboundMessage{Registers: []*rwp.Register{{Reg: 0, Id: s}, {Reg: 1, Id: s}, {Reg: 2, Id: s}, {Reg: 3, Id: s}}})
	case 16:
		return in(&rwp.InboundMessage{Registers: []*rwp.Register{{Reg: 0, Id: s}, {Reg: 1, Id: s}, {Reg: 2, Id: s}, {Reg: 3, Id: s}}})
	case 17:
		return text(&rwp.HWCText{Title: s})
	case 18:
		return text(&rwp.HWCText{Textline1: s})
	case 19:
		return text(&rwp.HWCText{Textline2: s})
	case 20:
		return in(&rwp.InboundMessage{Command: &rwp.Command{SetNetworkConfig: &rwp.NetworkConfig{Address: s, Netmask: s}}})
	default:
		return in(&rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{1}, Processors: &rwp.Processors{}, HWCText: &rwp.HWCText{Title: s}}}})
	}
}

// squash drops all white space.
func squash(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}
