package conv

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	rapi "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"rwpverif/core"
)

type c02Case struct {
	Lines []Line
}

// expectIn reads every line independently: effects per line, in order.
func expectIn(lines []Line) ([][]Eff, error) {
	rd := &inReader{restarts: true}
	var out [][]Eff
	for i, l := range lines {
		if l.Bad {
			out = append(out, nil)
			continue
		}
		if len(l.L) > 0 && (l.L[0] == '{' || l.L[0] == '[') {
			var e []Eff
			for _, m := range l.M.in() {
				e = append(e, inboundEffects(m)...)
			}
			out = append(out, e)
			continue
		}
		e, ok, err := rd.read(string(l.L))
		if err != nil || !ok {
			return nil, core.Invalid("line %d %q is not readable: %v %v", i, l.L, ok, err)
		}
		out = append(out, e)
	}
	return out, nil
}

func strs(lines []Line) (out []string) {
	for _, l := range lines {
		out = append(out, string(l.L))
	}
	return
}

func effsOfAll(ms []*rwp.InboundMessage) (out []Eff) {
	for _, m := range ms {
		out = append(out, inboundEffects(m)...)
	}
	return
}

func calibrations(ms []*rwp.InboundMessage) (out []string) {
	for _, m := range ms {
		if p := m.GetCommand().GetSetCalibrationProfile(); p != nil {
			out = append(out, p.Json)
		}
	}
	return
}

var emptyIn = &rwp.InboundMessage{}

func checkC02(c c02Case, info *core.Info) error {
	want, err := expectIn(c.Lines)
	if err != nil {
		return err
	}
	var flat []Eff
	var calib []string
	stream, bad := true, 0
	for i, e := range want {
		flat = append(flat, e...)
		l := string(c.Lines[i].L)
		stream = stream && tidy(l)
		if v, ok := strings.CutPrefix(l, "SetCalibrationProfile="); ok {
			calib = append(calib, v)
		}
		for _, m := range c.Lines[i].M.in() {
			calib = append(calib, calibrations([]*rwp.InboundMessage{m})...)
		}
		if c.Lines[i].Bad {
			bad++
		}
		for _, x := range e {
			info.Label("effect:" + x.Kind)
		}
		info.LabelIf(strings.HasPrefix(l, "{"), "json state")
		info.LabelIf(strings.HasPrefix(l, "["), "json messages")
	}
	info.LabelIf(bad > 0, "non-grammar line")
	info.NonTrivial(len(flat) > 0 || bad > 0)

	lines := strs(c.Lines)
	check := func(how string, ms []*rwp.InboundMessage) error {
		for _, m := range ms {
			if m == nil {
				return fmt.Errorf("%s: nil message", how)
			}
		}
		if err := diffEffs(effsOfAll(ms), flat); err != nil {
			return fmt.Errorf("%s of %q: %v", how, clip(strings.Join(lines, "\n")), err)
		}
		if got := calibrations(ms); !reflect.DeepEqual(got, calib) {
			return fmt.Errorf("%s: calibration payloads %q, want %q", how, got, calib)
		}
		return nil
	}
	if err := check("decoding", rapi.RawPanelASCIIstringsToInboundMessages(lines)); err != nil {
		return err
	}
	// one line at a time: the effects of a line come out with that line
	rd := &rapi.ASCIIreader{}
	var all []*rwp.InboundMessage
	for i, l := range lines {
		ms := rd.Parse(l)
		all = append(all, ms...)
		if c.Lines[i].Bad {
			for _, m := range ms {
				if !proto.Equal(m, emptyIn) {
					return fmt.Errorf("line %q outside the grammar gives %v", l, m)
				}
			}
		} else if stream {
			// a second value or label pairs the lines, also when field 8 is left out
			if _, arg, ok := strings.Cut(l, "="); ok && strings.HasPrefix(l, "HWCt#") {
				if t, err := readText(arg); err == nil && t.Pair > 0 {
					for _, m := range ms {
						for _, s := range m.States {
							if s.HWCText != nil && int64(s.HWCText.PairMode) != t.Pair {
								return fmt.Errorf("line %d %q: the pair mode is %d, not %d", i, clip(l), s.HWCText.PairMode, t.Pair)
							}
						}
					}
				}
			}
			if err := diffEffs(effsOfAll(ms), want[i]); err != nil {
				return fmt.Errorf("streaming line %d %q: %v", i, clip(l), err)
			}
		}
	}
	if stream {
		return check("streaming", all)
	}
	return nil
}

func TestC02(t *testing.T) {
	r := core.Start(t, "C02")
	defer r.Finish()
	for _, key := range []string{"HWC#", "HWCx#", "HWCc#"} {
		core.Enumerate(r, "all-"+strings.TrimSuffix(key, "#"), func(yield func(c02Case) bool) {
			for lo := 0; lo < 65536; lo += 256 {
				var ls []Line
				for v := lo; v < lo+256; v++ {
					ls = append(ls, Line{L: []byte(fmt.Sprintf("%s%d=%d", key, v%100, v))})
				}
				if !yield(c02Case{ls}) {
					return
				}
			}
		}, checkC02)
	}
	// every value of each packed or enumerated text field, alone and with a title
	core.Enumerate(r, "text-fields", func(yield func(c02Case) bool) {
		for f, hi := range []int{1: 12, 2: 63, 4: 2, 8: 4, 9: 3, 15: 127, 16: 255, 17: 31, 18: 1, 19: 255, 20: 255} {
			if hi == 0 {
				continue
			}
			for _, base := range []string{"", "5", "5|0|0|Title||one|two|7", "0|10||T", "|||T||only"} {
				var ls []Line
				for v := 0; v <= hi; v++ {
					p := strings.Split(base, "|")
					for len(p) <= f {
						p = append(p, "")
					}
					p[f] = fmt.Sprint(v)
					ls = append(ls, Line{L: []byte("HWCt#4=" + strings.Join(p, "|"))})
				}
				if !yield(c02Case{ls}) {
					return
				}
			}
		}
	}, checkC02)
	core.Enumerate(r, "keywords", func(yield func(c02Case) bool) {
		ks := append(sortedKeys(plainCmd), "ping", "ack", "nack")
		for _, n := range sortedKeys(numCmd) {
			for _, v := range []string{"0", "1", "2", "10", "65535", "65536", "2147483647", "2147483648", "4294967295"} {
				ks = append(ks, n+"="+v)
			}
		}
		for _, k := range ks {
			if !yield(c02Case{[]Line{{L: []byte(k)}}}) {
				return
			}
		}
		for _, k := range badInLines {
			if k == "HWC#1=Down:1x" {
				continue
			}
			if !yield(c02Case{[]Line{{L: []byte(k), Bad: true}}}) {
				return
			}
		}
	}, checkC02)
	core.Explore(r, "lines", core.Size{Quick: 25000, Thorough: 1200000}, func(t *rapid.T) c02Case {
		var ls []Line
		n := rapid.IntRange(1, 6).Draw(t, "nl")
		if b32(t, 29, "many") == 0 {
			n = 25
		}
		for i := 0; i < n; i++ {
			ls = append(ls, genInLines(t, true)...)
		}
		return c02Case{ls}
	}, checkC02)
	core.Explore(r, "texts", core.Size{Quick: 40000, Thorough: 2000000}, func(t *rapid.T) c02Case {
		var ls []Line
		for i := 0; i <= b32(t, 2, "n"); i++ {
			ls = append(ls, Line{L: []byte(fmt.Sprintf("HWCt#%s=%s", genIDList(t), genTextArg(t)))})
		}
		return c02Case{ls}
	}, checkC02)
	core.Explore(r, "large", core.Size{Quick: 150, Thorough: 6000}, genBigInLines, checkC02)
}
