package conv

import (
	"fmt"
	"strings"
	"testing"

	rapi "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"pgregory.net/rapid"
	"rwpverif/core"
)

type c03Case struct {
	Msgs Msgs
}

var loose = outMode{}
var exact = outMode{exact: true}

func compareOutGroups(lines []string, ms []*rwp.OutboundMessage) error {
	var got []Eff
	for i, l := range lines {
		e, ok, err := loose.readOut(l)
		if err != nil {
			return fmt.Errorf("line %d %q: %v", i, clip(l), err)
		}
		if !ok {
			return fmt.Errorf("line %d %q is not part of the grammar", i, clip(l))
		}
		got = append(got, e...)
	}
	for k, m := range ms {
		want := loose.outboundEffects(m)
		n := len(want)
		if n > len(got) {
			return fmt.Errorf("message %d: %v", k, diffEffs(canonicalOut(got), canonicalOut(want)))
		}
		if err := diffEffs(canonicalOut(got[:n]), canonicalOut(want)); err != nil {
			return fmt.Errorf("message %d: %v", k, err)
		}
		got = got[n:]
	}
	if len(got) > 0 {
		return fmt.Errorf("extra report %s", clip(got[0].String()))
	}
	return nil
}

func checkC03(c c03Case, info *core.Info) error {
	ms := c.Msgs.out()
	n := 0
	for _, m := range ms {
		for _, e := range loose.outboundEffects(m) {
			n++
			k := e.Kind
			if k == "info" {
				k = e.Target
			}
			info.Label("report:" + k)
		}
	}
	info.LabelIf(len(ms) > 1, "several messages")
	info.NonTrivial(n > 0)
	if err := compareOutGroups(rapi.OutboundMessagesToRawPanelASCIIstrings(ms), ms); err != nil {
		return err
	}
	if len(ms) > 0 { // the same message objects with other content
		es := c.Msgs.out()
		for i, m := range c.Msgs.out() {
			core.Into(es[(i+1)%len(es)], m)
		}
		rapi.OutboundMessagesToRawPanelASCIIstrings(ms)
		for i, m := range es {
			core.Into(ms[i], m)
		}
		if err := compareOutGroups(rapi.OutboundMessagesToRawPanelASCIIstrings(ms), ms); err != nil {
			return fmt.Errorf("the messages edited in place, encoded again: %v", err)
		}
		ms = c.Msgs.out()
	}
	if cBindingAvailable() {
		info.Label("also through the C binding")
		for i := range ms {
			s, err := cb.encode(c.Msgs[i])
			if err != nil {
				return err
			}
			var lines []string
			if s != "" {
				lines = strings.Split(s, "\n")
			}
			if err := compareOutGroups(lines, ms[i:i+1]); err != nil {
				return fmt.Errorf("C binding: %v", err)
			}
		}
	}
	return nil
}

func TestC03(t *testing.T) {
	r := core.Start(t, "C03")
	defer r.Finish()
	ids := []uint32{0, 1, 9, 10, 255, 65536, 1 << 31, 1<<32 - 1}
	i32s := []int32{0, 1, -1, 9, -9, 10, 500, -500, 1000, 65535, -65536, 1<<31 - 1, -1 << 31}
	u32s := []uint32{0, 1, 9, 10, 500, 1000, 65535, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	core.Enumerate(r, "events", func(yield func(c03Case) bool) {
		for _, id := range ids {
			var ev []*rwp.HWCEvent
			for _, e := range []int{0, 1, 2, 4, 8, 16} {
				for p := 0; p < 2; p++ {
					ev = append(ev, &rwp.HWCEvent{HWCID: id, Binary: &rwp.BinaryEvent{Pressed: p == 1, Edge: rwp.BinaryEvent_EdgeID(e)}})
				}
			}
			for _, v := range i32s {
				ev = append(ev, &rwp.HWCEvent{HWCID: id, Pulsed: &rwp.PulsedEvent{Value: v}}, &rwp.HWCEvent{HWCID: id, Speed: &rwp.SpeedEvent{Value: v}})
			}
			for _, v := range u32s {
				ev = append(ev, &rwp.HWCEvent{HWCID: id, Absolute: &rwp.AbsoluteEvent{Value: v}}, &rwp.HWCEvent{HWCID: id, RawAnalog: &rwp.RawAnalogEvent{Value: v}})
			}
			if !yield(c03Case{packOut([]*rwp.OutboundMessage{{Events: ev}})}) {
				return
			}
		}
	}, checkC03)
	core.Enumerate(r, "capabilities", func(yield func(c03Case) bool) {
		for lo := 0; lo < 8192; lo += 64 {
			var ms []*rwp.OutboundMessage
			for v := lo; v < lo+64; v++ {
				s := &rwp.RawPanelSupport{}
				for i, f := range supportFlags {
					*f.get(s) = v>>i&1 == 1
				}
				ms = append(ms, &rwp.OutboundMessage{PanelInfo: &rwp.PanelInfo{RawPanelSupport: s, PanelType: rwp.PanelInfo_PanelTypeE(v % 6)}})
			}
			if !yield(c03Case{packOut(ms)}) {
				return
			}
		}
	}, checkC03)
	core.Explore(r, "messages", core.Size{Quick: 40000, Thorough: 1500000}, func(t *rapid.T) c03Case {
		var ms []*rwp.OutboundMessage
		n := rapid.IntRange(1, 4).Draw(t, "nmsgs")
		if b32(t, 19, "many") == 0 {
			n = rapid.IntRange(0, 12).Draw(t, "nmsgs2")
		}
		for i := 0; i < n; i++ {
			ms = append(ms, genOutbound(t))
		}
		return c03Case{packOut(ms)}
	}, checkC03)
	core.Explore(r, "events", core.Size{Quick: 30000, Thorough: 1000000}, func(t *rapid.T) c03Case {
		var ms []*rwp.OutboundMessage
		for i := rapid.IntRange(1, 3).Draw(t, "nmsgs"); i > 0; i-- {
			m := &rwp.OutboundMessage{}
			for j := rapid.IntRange(0, 8).Draw(t, "nev"); j > 0; j-- {
				m.Events = append(m.Events, genEvent(t))
			}
			ms = append(ms, m)
		}
		return c03Case{packOut(ms)}
	}, checkC03)
	core.Explore(r, "large", core.Size{Quick: 150, Thorough: 6000}, genBigOut, checkC03)
}
