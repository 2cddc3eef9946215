package conv

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	rapi "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"pgregory.net/rapid"
	"rwpverif/core"
)

type c01Case struct {
	Msgs Msgs
}

// compareGroups reads the lines with the independent reader and compares the
// effects message by message.
func compareGroups(lines []string, ms []*rwp.InboundMessage) error {
	rd := &inReader{}
	var got []Eff
	for i, l := range lines {
		e, ok, err := rd.read(l)
		if err != nil {
			return fmt.Errorf("line %d %q: %v", i, clip(l), err)
		}
		if !ok {
			return fmt.Errorf("line %d %q is not part of the grammar", i, clip(l))
		}
		got = append(got, e...)
	}
	if rd.img.active {
		return fmt.Errorf("the last image transfer is not finished")
	}
	for k, m := range ms {
		want := inboundEffects(m)
		n := len(want)
		if n > len(got) {
			return fmt.Errorf("message %d: %v", k, diffEffs(canonical(got), canonical(want)))
		}
		if err := diffEffs(canonical(got[:n]), canonical(want)); err != nil {
			return fmt.Errorf("message %d: %v", k, err)
		}
		states := false
		for _, e := range got[:n] {
			if section(e) == 1 {
				states = true
			} else if states && e.Kind == "cmd" && (e.Target == "clear" || e.Target == "clearleds" || e.Target == "cleardisplays") {
				return fmt.Errorf("message %d: %s wipes the states of the same message", k, e.Target)
			}
		}
		got = got[n:]
	}
	if len(got) > 0 {
		return fmt.Errorf("extra effect %s", clip(got[0].String()))
	}
	return nil
}

func checkC01(c c01Case, info *core.Info) error {
	ms := c.Msgs.in()
	n := 0
	for _, m := range ms {
		for _, e := range inboundEffects(m) {
			n++
			info.Label("effect:" + e.Kind)
		}
		for _, s := range m.States {
			info.LabelIf(len(s.HWCIDs) > 1, "state to several components")
		}
	}
	info.LabelIf(len(ms) > 1, "several messages")
	info.NonTrivial(n > 0)
	lines := rapi.InboundMessagesToRawPanelASCIIstrings(ms)
	// the call must not change what it was given
	for i, m := range c.Msgs.in() {
		if d := diffEffs(inboundEffects(ms[i]), inboundEffects(m)); d != nil {
			return fmt.Errorf("the encoder changed its input message %d: %v", i, d)
		}
	}
	if err := compareGroups(lines, ms); err != nil {
		return err
	}
	if len(ms) == 0 {
		return nil
	}
	// the same message objects with other content
	for i, m := range c.Msgs.in() {
		core.Into(ms[(i+1)%len(ms)], m)
	}
	if err := compareGroups(rapi.InboundMessagesToRawPanelASCIIstrings(ms), ms); err != nil {
		return fmt.Errorf("the messages edited in place, encoded again: %v", err)
	}
	return nil
}

func stateMsg(s ...*rwp.HWCState) []*rwp.InboundMessage {
	return []*rwp.InboundMessage{{States: s}}
}

// genTextMsgs favours the text line: one state, one or two components.
func genTextMsgs(t *rapid.T) c01Case {
	var ms []*rwp.InboundMessage
	for i := 0; i <= b32(t, 2, "n"); i++ {
		ms = append(ms, stateMsg(&rwp.HWCState{HWCIDs: rapid.SliceOfN(genID(), 1, 3).Draw(t, "ids"), HWCText: genHWCText(t)})...)
	}
	return c01Case{packIn(ms)}
}

func TestC01(t *testing.T) {
	r := core.Start(t, "C01")
	defer r.Finish()
	core.Enumerate(r, "modes", func(yield func(c01Case) bool) {
		for st := 0; st <= 5; st++ {
			var ss []*rwp.HWCState
			for b := 0; b <= 15; b++ {
				for o := 0; o < 2; o++ {
					ss = append(ss, &rwp.HWCState{HWCIDs: []uint32{uint32(b), uint32(o + 20)}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(st), Output: o == 1, BlinkPattern: uint32(b)}})
				}
			}
			if !yield(c01Case{packIn(stateMsg(ss...))}) {
				return
			}
		}
	}, checkC01)
	core.Enumerate(r, "extended", func(yield func(c01Case) bool) {
		for in := 0; in <= 15; in++ {
			for lo := 0; lo < 4096; lo += 512 {
				var ss []*rwp.HWCState
				for v := lo; v < lo+512; v++ {
					ss = append(ss, &rwp.HWCState{HWCIDs: []uint32{uint32(v)}, HWCExtended: &rwp.HWCExtended{Interpretation: rwp.HWCExtended_InterpretationE(in), Value: uint32(v)}})
				}
				if !yield(c01Case{packIn(stateMsg(ss...))}) {
					return
				}
			}
		}
	}, checkC01)
	rgb := func(a, b, c int) *rwp.ColorRGB {
		return &rwp.ColorRGB{Red: uint32(a), Green: uint32(b), Blue: uint32(c)}
	}
	// per red value one case; quick: a grid round the quantisation steps plus all
	// 256 values of every channel; thorough: all 2^24 triples
	grid := []int{0, 1, 84, 85, 86, 127, 169, 170, 171, 254, 255}
	core.Enumerate(r, "colours", func(yield func(c01Case) bool) {
		for red := 0; red < 256; red++ {
			var ss []*rwp.HWCState
			add := func(c *rwp.ColorRGB) {
				ss = append(ss, &rwp.HWCState{HWCIDs: []uint32{uint32(red)}, HWCColor: &rwp.HWCColor{ColorRGB: c}})
			}
			for _, a := range grid {
				for _, b := range grid {
					add(rgb(red, a, b))
					add(rgb(a, red, b))
					add(rgb(a, b, red))
				}
			}
			if red < 32 {
				ss = append(ss, &rwp.HWCState{HWCIDs: []uint32{1, 2}, HWCColor: &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(red)}}})
				ss = append(ss, &rwp.HWCState{HWCIDs: []uint32{3}, HWCText: &rwp.HWCText{PixelColor: &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(red)}}, BackgroundColor: &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(31 - red)}}}})
			}
			ss = append(ss, &rwp.HWCState{HWCIDs: []uint32{4}, HWCText: &rwp.HWCText{PixelColor: &rwp.Color{ColorRGB: rgb(red, 255-red, 85)}, BackgroundColor: &rwp.Color{ColorRGB: rgb(170, red, 255-red)}}})
			if !yield(c01Case{packIn(stateMsg(ss...))}) {
				return
			}
		}
	}, checkC01)
	if r.Thorough {
		core.Enumerate(r, "all-rgb", func(yield func([2]int) bool) {
			for red := 0; red < 256; red++ {
				for g := 0; g < 256; g += 16 {
					if !yield([2]int{red, g}) {
						return
					}
				}
			}
		}, func(c [2]int, info *core.Info) error {
			info.NonTrivial(true)
			var ss []*rwp.HWCState
			for g := c[1]; g < c[1]+16; g++ {
				for b := 0; b < 256; b++ {
					ss = append(ss, &rwp.HWCState{HWCIDs: []uint32{1}, HWCColor: &rwp.HWCColor{ColorRGB: rgb(c[0], g, b)}})
				}
			}
			ms := stateMsg(ss...)
			return compareGroups(rapi.InboundMessagesToRawPanelASCIIstrings(ms), ms)
		})
	}
	core.Enumerate(r, "image-lengths", func(yield func(c01Case) bool) {
		max := 700
		if r.Thorough {
			max = 2500
		}
		for n := 1; n <= max; n++ {
			g := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(n % 3), W: uint32(n), H: uint32(n / 3), XYoffset: n%2 == 0, X: uint32(n % 7), Y: uint32(n % 5)}
			for i := 0; i < n; i++ {
				g.ImageData = append(g.ImageData, byte(i*7+n))
			}
			if !yield(c01Case{packIn(stateMsg(&rwp.HWCState{HWCIDs: []uint32{uint32(n), 7}, HWCGfx: g}))}) {
				return
			}
		}
	}, checkC01)
	core.Enumerate(r, "big-images", func(yield func(c01Case) bool) {
		for k, n := range []int{8192, 16999, 17001, 32768, 65535, 65536, 131072, 153600, 170000, 172000, 307200, 499999, 614400} {
			g := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(k % 3), W: 320, H: uint32(n / 640), XYoffset: k%2 == 0, X: 7, Y: 9, ImageData: payload(k, n)}
			if !yield(c01Case{packIn(stateMsg(&rwp.HWCState{HWCIDs: []uint32{uint32(k), 900}, HWCGfx: g}))}) {
				return
			}
		}
	}, checkC01)
	core.Explore(r, "messages", core.Size{Quick: 24000, Thorough: 1000000}, func(t *rapid.T) c01Case {
		var ms []*rwp.InboundMessage
		n := rapid.IntRange(1, 4).Draw(t, "nmsgs")
		if b32(t, 19, "many") == 0 {
			n = rapid.IntRange(0, 12).Draw(t, "nmsgs2")
		}
		for i := 0; i < n; i++ {
			ms = append(ms, genInbound(t))
		}
		return c01Case{packIn(ms)}
	}, checkC01)
	core.Explore(r, "texts", core.Size{Quick: 40000, Thorough: 2000000}, genTextMsgs, checkC01)
	core.Explore(r, "images", core.Size{Quick: 3000, Thorough: 150000}, func(t *rapid.T) c01Case {
		var ss []*rwp.HWCState
		for i := 0; i <= b32(t, 2, "n"); i++ {
			ss = append(ss, &rwp.HWCState{HWCIDs: rapid.SliceOfN(genID(), 1, 3).Draw(t, "ids"), HWCGfx: genGfx(t, 6000)})
		}
		return c01Case{packIn(stateMsg(ss...))}
	}, checkC01)
	// Processors have a JSON line only, which carries the state once more
	core.Explore(r, "processors", core.Size{Quick: 2500, Thorough: 60000}, func(t *rapid.T) c01Case {
		var ms []*rwp.InboundMessage
		for i := 0; i <= b32(t, 2, "n"); i++ {
			s := genState(t)
			if b32(t, 2, "alone") == 0 {
				s = &rwp.HWCState{HWCIDs: s.HWCIDs}
			}
			if b32(t, 4, "with") > 0 {
				s.Processors = &rwp.Processors{}
				fillMessage(t, s.Processors.ProtoReflect(), genProtoOpts{str: genText(), dense: 6, maxRep: 3}, 3)
			}
			ms = append(ms, stateMsg(s)...)
		}
		return c01Case{packIn(ms)}
	}, func(c c01Case, info *core.Info) error {
		ms := c.Msgs.in()
		final := func(es []Eff) map[string]string {
			out := map[string]string{}
			for _, e := range es {
				out[e.Kind+"#"+e.Target] = e.Detail
			}
			return out
		}
		for k, m := range ms {
			var got []Eff
			rd := &inReader{}
			for i, l := range rapi.InboundMessagesToRawPanelASCIIstrings(ms[k : k+1]) {
				if strings.HasPrefix(l, "{") {
					s := &rwp.HWCState{}
					if err := json.Unmarshal([]byte(l), s); err != nil {
						return fmt.Errorf("message %d, line %d %q: %v", k, i, clip(l), err)
					}
					info.Label("JSON state line")
					got = append(got, stateEffs(s)...)
					continue
				}
				e, ok, err := rd.read(l)
				if err != nil || !ok {
					return fmt.Errorf("message %d, line %d %q is not readable: %v", k, i, clip(l), err)
				}
				got = append(got, e...)
			}
			g, w := final(got), final(inboundEffects(m))
			info.NonTrivial(len(w) > 0)
			for _, x := range []map[string]string{g, w} {
				for _, key := range core.SortedKeys(x) {
					if g[key] != w[key] {
						return fmt.Errorf("message %d: %s becomes %s, not %s", k, key, clip(g[key]), clip(w[key]))
					}
				}
			}
		}
		return nil
	})
	core.Explore(r, "large", core.Size{Quick: 150, Thorough: 6000}, genBigIn, checkC01)
}
