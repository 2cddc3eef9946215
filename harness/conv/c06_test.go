package conv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	rapi "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
	"rwpverif/core"
)

type strCase struct {
	Lines [][]byte
	State []byte `json:",omitempty"` // serialised reader state to start from
}

func checkStrings(c strCase, info *core.Info) error {
	var ls []string
	for _, l := range c.Lines {
		ls = append(ls, string(l))
		info.NonTrivial(len(l) > 0)
	}
	for i, m := range rapi.RawPanelASCIIstringsToInboundMessages(ls) {
		if m == nil {
			return fmt.Errorf("inbound decoder: message %d is nil", i)
		}
		info.LabelIf(len(m.States) > 0, "decoded state")
		info.LabelIf(m.Command != nil, "decoded command")
	}
	for i, m := range rapi.RawPanelASCIIstringsToOutboundMessages(ls) {
		if m == nil {
			return fmt.Errorf("outbound decoder: message %d is nil", i)
		}
		info.LabelIf(len(m.Events) > 0, "decoded event")
		info.LabelIf(m.PanelInfo != nil, "decoded panel info")
	}
	// the messages belong to the caller: what is done to them changes no later result
	if len(ls) < 60 && len(strings.Join(ls, "")) < 20000 {
		first, firstOut := rapi.RawPanelASCIIstringsToInboundMessages(ls), rapi.RawPanelASCIIstringsToOutboundMessages(ls)
		a, b := marshalAll(first), marshalAll(firstOut)
		for _, m := range first {
			scribble(m.ProtoReflect())
		}
		for _, m := range firstOut {
			scribble(m.ProtoReflect())
		}
		if a2, b2 := marshalAll(rapi.RawPanelASCIIstringsToInboundMessages(ls)), marshalAll(rapi.RawPanelASCIIstringsToOutboundMessages(ls)); a2 != a || b2 != b {
			return fmt.Errorf("decoding again gives another result after the caller has changed the messages it got")
		}
	}
	rd := &rapi.ASCIIreader{}
	if c.State != nil {
		if json.Unmarshal(c.State, rd) == nil {
			info.Label("restored reader state")
		}
	}
	for _, l := range ls {
		for i, m := range rd.Parse(l) {
			if m == nil {
				return fmt.Errorf("reader: message %d of %q is nil", i, clip(l))
			}
		}
		if js, err := json.Marshal(rd); err != nil {
			return fmt.Errorf("reader state: %v", err)
		} else if err := json.Unmarshal(js, &rapi.ASCIIreader{}); err != nil {
			return fmt.Errorf("reader state: %v", err)
		}
	}
	return nil
}

// scribble changes every populated field in place.
func scribble(m protoreflect.Message) {
	type kv struct {
		f protoreflect.FieldDescriptor
		v protoreflect.Value
	}
	var fs []kv
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		fs = append(fs, kv{f, v})
		return true
	})
	other := func(f protoreflect.FieldDescriptor, v protoreflect.Value) protoreflect.Value {
		switch f.Kind() {
		case protoreflect.BoolKind:
			return protoreflect.ValueOfBool(!v.Bool())
		case protoreflect.EnumKind:
			return protoreflect.ValueOfEnum(v.Enum() + 3)
		case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
			return protoreflect.ValueOfUint32(uint32(v.Uint()) + 77)
		case protoreflect.Int32Kind, protoreflect.Sint32Kind:
			return protoreflect.ValueOfInt32(int32(v.Int()) + 77)
		case protoreflect.FloatKind:
			return protoreflect.ValueOfFloat32(77)
		case protoreflect.StringKind:
			return protoreflect.ValueOfString("scribbled")
		case protoreflect.BytesKind:
			for i, b := 0, v.Bytes(); i < len(b); i++ {
				b[i] ^= 0xff
			}
		}
		return v
	}
	for _, x := range fs {
		switch {
		case x.f.IsMap():
			x.v.Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
				if x.f.MapValue().Kind() != protoreflect.MessageKind {
					x.v.Map().Set(k, other(x.f.MapValue(), v))
				} else if v.Message().IsValid() {
					scribble(v.Message())
				}
				return true
			})
		case x.f.IsList():
			for i := 0; i < x.v.List().Len(); i++ {
				if e := x.v.List().Get(i); x.f.Kind() == protoreflect.MessageKind {
					if e.Message().IsValid() {
						scribble(e.Message())
					}
				} else {
					x.v.List().Set(i, other(x.f, e))
				}
			}
		case x.f.Kind() == protoreflect.MessageKind:
			scribble(x.v.Message())
		default:
			m.Set(x.f, other(x.f, x.v))
		}
	}
}

type wireCase struct {
	In, Out []byte
}

func checkWire(c wireCase, info *core.Info) error {
	in, out := &rwp.InboundMessage{}, &rwp.OutboundMessage{}
	if c.In != nil && proto.Unmarshal(c.In, in) == nil {
		info.NonTrivial(len(c.In) > 0)
		info.Label("inbound message")
		rapi.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{in, {}, in})
	}
	if c.Out != nil && proto.Unmarshal(c.Out, out) == nil {
		info.NonTrivial(len(c.Out) > 0)
		info.Label("outbound message")
		rapi.OutboundMessagesToRawPanelASCIIstrings([]*rwp.OutboundMessage{out, {}, out})
	}
	return nil
}

func genHostileLine(t *rapid.T) []byte {
	var base []byte
	switch b32(t, 9, "src") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
	case 1:
		return []byte(rapid.StringOfN(rapid.SampledFrom([]rune("HWCtgxcRGBay#=|,:./0123456789-{}[]\"nul")), 0, 40, -1).Draw(t, "chars"))
	case 2: // JSON-looking, with nulls and wrong types anywhere
		atoms := rapid.SampledFrom([]string{"null", "{}", "[]", "1", "-1", "\"x\"", "true", "[null]", "{\"HWCIDs\":null}", "{\"HWCIDs\":[1],\"HWCText\":null}", "{\"HWCText\":{\"Formatting\":10}}", "{\"States\":[null]}", "{\"States\":[{\"HWCIDs\":[1],\"HWCGfx\":{\"ImageData\":null}}]}", "{\"Command\":null}", "{\"HWCMode\":{\"State\":999}}", "{\"HWCIDs\":[-1]}", "{\"FlowMessage\":7}", "1e999", "{\"Registers\":[null]}"})
		s := strings.Join(rapid.SliceOfN(atoms, 0, 4).Draw(t, "atoms"), ",")
		return []byte(rapid.SampledFrom([]string{"[%s]", "{\"States\":[%s]}", "[%s", "{%s", "{\"HWCText\":%s}", "[[%s]]", "%s"}).Draw(t, "wrap")[0:0] + strings.Replace(rapid.SampledFrom([]string{"[%s]", "{\"States\":[%s]}", "[%s", "{%s", "{\"HWCText\":%s}", "[[%s]]", "{\"HWCIDs\":[1],\"HWCGfx\":%s}"}).Draw(t, "wrap2"), "%s", s, 1))
	case 3: // huge numbers
		n := rapid.SampledFrom([]string{"99999999999999999999", "-1", "18446744073709551616", "9223372036854775807", "4294967296", "00000000", ""}).Draw(t, "n")
		f := rapid.SampledFrom([]string{"HWC#%s=%s", "HWCx#1,%s,=%s", "HWCg#%s=%s:AAAA", "HWCg#1=0/%s,%sx4:AAAA", "HWCgRGB#1=0/1,2x3,%s,%s:", "HWCt#1=%s|%s|%s", "HWC#%s.%s=Press", "HWC#1=Enc:%s%s", "map=%s:%s", "Mem%s=%s", "Flag#%s=%s", "PanelBrightness=%s,%s", "SysStat=CPUUsage:%s:%s", "_sleepTimer=%s%s", "SleepTimer=%s%s"}).Draw(t, "f")
		return []byte(strings.ReplaceAll(f, "%s", n))
	case 4:
		base = genOutLine(t, true).L
	default:
		ls := genInLines(t, true)
		base = ls[b32(t, len(ls)-1, "which")].L
	}
	// an almost grammatical line
	b := append([]byte(nil), base...)
	for m := b32(t, 3, "muts"); m > 0 && len(b) > 0; m-- {
		i := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		switch b32(t, 4, "mut") {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b[i] = rapid.Byte().Draw(t, "byte")
		case 2:
			b = append(b[:i:i], append([]byte(rapid.SampledFrom([]string{"=", "|", ",", ":", "\n", "#", "-", "9999999999", "\x00", "{", "\xff", core.Strings("any", nil).Draw(t, "mined"), fmt.Sprint(core.Ints(-1<<40, 1<<40).Draw(t, "minedn"))}).Draw(t, "ins")), b[i:]...)...)
		case 3:
			b = b[:i]
		default:
			j := rapid.IntRange(0, len(b)-1).Draw(t, "pos2")
			b[i], b[j] = b[j], b[i]
		}
	}
	return b
}

func genStrings(t *rapid.T) strCase {
	c := strCase{}
	for n := rapid.IntRange(1, 5).Draw(t, "n"); n > 0; n-- {
		c.Lines = append(c.Lines, genHostileLine(t))
	}
	if b32(t, 3, "state") == 0 {
		st := rapi.ASCIIreader{HWCGfx_count: int(genI32().Draw(t, "cnt")), HWCGfx_max: int(genI32().Draw(t, "max")), HWCGfx_ImageType: rapid.SampledFrom([]string{"", "HWCg#", "HWCgRGB#", "x"}).Draw(t, "ty"), HWCGfx_HWClist: rapid.SampledFrom([]string{"", "1", "1,2", "x"}).Draw(t, "list")}
		for n := b32(t, 2, "bufn"); n > 0; n-- {
			st.HWCGfx = append(st.HWCGfx, string(genHostileLine(t)))
		}
		c.State, _ = json.Marshal(st)
		if rapid.Bool().Draw(t, "next") { // a line the restored reader would take
			c.Lines = append(c.Lines, []byte(fmt.Sprintf("%s%s=%d:AAAA", st.HWCGfx_ImageType, st.HWCGfx_HWClist, st.HWCGfx_count+1)))
		}
	}
	return c
}

func genWire(t *rapid.T) wireCase {
	o := genProtoOpts{str: rapid.OneOf(genText(), genBroken()), wild: true, dense: 1 + b32(t, 8, "dense"), maxRep: 2}
	c := wireCase{}
	var b []byte
	if rapid.Bool().Draw(t, "in") {
		b = packIn([]*rwp.InboundMessage{genAny(t, &rwp.InboundMessage{}, o)})[0]
	} else {
		b = packOut([]*rwp.OutboundMessage{genAny(t, &rwp.OutboundMessage{}, o)})[0]
	}
	for m := b32(t, 4, "muts") - 2; m > 0 && len(b) > 0; m-- {
		i := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		b[i] = rapid.Byte().Draw(t, "byte")
	}
	// a message of one kind is often a message of the other one as well
	c.In, c.Out = b, b
	return c
}

// ---- concurrent calls ----

type raceCase struct {
	Lines   [][]byte
	In, Out Msgs
}

func encodeSorted(ls []string) string {
	s := append([]string(nil), ls...)
	sort.Strings(s)
	return strings.Join(s, "\n")
}

func marshalAll[M proto.Message](ms []M) string {
	var b bytes.Buffer
	for _, m := range ms {
		x, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
		fmt.Fprintf(&b, "%x\n", x)
	}
	return b.String()
}

type convResult struct{ dIn, dOut, stream, eIn, eOut string }

// convertAll runs every converter once; the messages are shared between callers.
func convertAll(ls []string, ins []*rwp.InboundMessage, outs []*rwp.OutboundMessage) (r convResult) {
	r.dIn = marshalAll(rapi.RawPanelASCIIstringsToInboundMessages(ls))
	r.dOut = marshalAll(rapi.RawPanelASCIIstringsToOutboundMessages(ls))
	rd := &rapi.ASCIIreader{}
	for _, l := range ls {
		r.stream += marshalAll(rd.Parse(l)) + ";"
	}
	r.eIn = strings.Join(rapi.InboundMessagesToRawPanelASCIIstrings(ins), "\n")
	r.eOut = encodeSorted(rapi.OutboundMessagesToRawPanelASCIIstrings(outs)) // map entries have no order
	return
}

func checkRace(c raceCase, info *core.Info) error {
	var ls []string
	for _, l := range c.Lines {
		ls = append(ls, string(l))
	}
	info.NonTrivial(len(ls) > 0 && len(c.In)+len(c.Out) > 0)
	ins, outs := c.In.in(), c.Out.out()
	const workers = 8
	got := make([]convResult, workers)
	errs := make([]error, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[w] = core.Protect(func() error {
				<-start
				a, b := ins, outs
				if w%4 == 3 { // own copies
					a, b = c.In.in(), c.Out.out()
				}
				for i := 0; i < 2; i++ {
					got[w] = convertAll(ls, a, b)
				}
				return nil
			})
		}()
	}
	close(start)
	wg.Wait()
	want := convertAll(ls, c.In.in(), c.Out.out())
	for w := range got {
		if errs[w] != nil {
			return errs[w]
		}
		if !reflect.DeepEqual(got[w], want) {
			return fmt.Errorf("a concurrent call gives another result than a lone one: %+v, want %+v", got[w], want)
		}
	}
	return nil
}

// broadCase has every keyword, enumeration value and packed value in it.
func broadCase(rot int) raceCase {
	c := raceCase{}
	add := func(f string, a ...any) { c.Lines = append(c.Lines, []byte(fmt.Sprintf(f, a...))) }
	for v := 0; v < 128; v++ {
		add("HWCc#%d=%d", v, v)
		add("HWCt#%d=%d|%d|%d|t|1|a|b|3|%d||||||||||||%d|%d|%d", v, v, v%13, v%32, v%5, v%2, v, 127-v)
		add("HWC#%d=%d", v, v*512+v)
		add("HWCx#%d=%d", v, v*512+v)
		add("HWCg#%d=0/0,8x8:AAAA", v)
		add("HWC#%d=Enc:%d", v, v)
		add("HWC#%d.%d=Press", v, v)
		add("map=%d:%d", v, v+1)
	}
	for _, k := range append(sortedKeys(plainCmd), "ping", "ack", "nack", "RDY", "BSY", "Sleeping=1") {
		add("%s", k)
	}
	for _, k := range sortedKeys(numCmd) {
		add("%s=5", k)
	}
	for _, k := range []string{"Mem", "Shift", "State", "Flag#"} {
		add("%sA1=5", k)
	}
	var in []*rwp.InboundMessage
	var out []*rwp.OutboundMessage
	for v := 0; v < 64; v++ {
		col := &rwp.Color{ColorRGB: &rwp.ColorRGB{Red: uint32(v%4) * 85, Green: uint32(v/4%4) * 85, Blue: uint32(v/16) * 85}}
		idx := &rwp.Color{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(v % 20)}}
		in = append(in, &rwp.InboundMessage{States: []*rwp.HWCState{{HWCIDs: []uint32{uint32(v)}, HWCColor: &rwp.HWCColor{ColorRGB: col.ColorRGB}, HWCMode: &rwp.HWCMode{State: rwp.HWCMode_StateE(v % 8)}, HWCText: &rwp.HWCText{Formatting: rwp.HWCText_FormattingE(v % 14), Title: fmt.Sprint(v), PixelColor: col, BackgroundColor: idx, Inverted: v%2 == 0}, HWCGfx: &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(v % 3), ImageData: payload(v, 200)}}}})
		out = append(out, &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(v), Binary: &rwp.BinaryEvent{Pressed: v%2 == 0, Edge: rwp.BinaryEvent_EdgeID(v % 17)}}, {HWCID: uint32(v), Speed: &rwp.SpeedEvent{Value: int32(v)}}}, PanelInfo: &rwp.PanelInfo{Model: "m", PanelType: rwp.PanelInfo_PanelTypeE(v % 7), RawPanelSupport: &rwp.RawPanelSupport{ASCII: true, System: v%2 == 0}}, PanelTopology: &rwp.PanelTopology{Svgbase: "<svg>\n</svg>", Json: "{\n}"}, SysStat: &rwp.SystemStat{CPUUsage: uint32(v)}})
	}
	c.Lines = append(c.Lines[rot*97:], c.Lines[:rot*97]...)
	c.In, c.Out = packIn(in), packOut(out)
	return c
}

func TestC06(t *testing.T) {
	r := core.Start(t, "C06")
	defer r.Finish()
	// concurrency first: whatever the converters might set up on first use is
	// set up under concurrent calls then (every shard is its own process)
	core.Explore(r, "cold", core.Size{Quick: 8, Thorough: 8}, func(t *rapid.T) raceCase { return broadCase(rapid.IntRange(0, 7).Draw(t, "rot")) }, checkRace)
	core.Explore(r, "concurrent", core.Size{Quick: 2000, Thorough: 60000}, func(t *rapid.T) raceCase {
		c := raceCase{}
		for n := rapid.IntRange(1, 6).Draw(t, "n"); n > 0; n-- {
			if rapid.Bool().Draw(t, "dir") {
				for _, l := range genInLines(t, true) {
					c.Lines = append(c.Lines, l.L)
				}
			} else {
				c.Lines = append(c.Lines, genOutLine(t, true).L)
			}
		}
		c.In = packIn([]*rwp.InboundMessage{genInbound(t), genInbound(t)})
		c.Out = packOut([]*rwp.OutboundMessage{genOutbound(t), genOutbound(t)})
		return c
	}, checkRace)
	core.Explore(r, "strings", core.Size{Quick: 24000, Thorough: 900000}, genStrings, checkStrings)
	core.Explore(r, "wire", core.Size{Quick: 16000, Thorough: 600000}, genWire, checkWire)
	// each sub-message alone with each format, every other part absent
	core.Enumerate(r, "sparse", func(yield func(wireCase) bool) {
		mk := func(x *rwp.HWCState) bool {
			x.HWCIDs = []uint32{1}
			return yield(wireCase{In: packIn(stateMsg(x))[0]})
		}
		for f := -2; f < 40; f++ {
			for k := 0; k < 16; k++ {
				x := &rwp.HWCText{Formatting: rwp.HWCText_FormattingE(f)}
				if k&1 != 0 {
					x.TextStyling = &rwp.HWCText_TextStyle{}
				}
				if k&2 != 0 {
					x.Scale = &rwp.HWCText_ScaleM{}
				}
				if k&4 != 0 {
					x.PixelColor, x.BackgroundColor = &rwp.Color{}, &rwp.Color{}
				}
				if k&8 != 0 {
					x.Title, x.PairMode = "t", 99
				}
				if !mk(&rwp.HWCState{HWCText: x}) {
					return
				}
			}
		}
		for _, s := range []*rwp.HWCState{{}, {HWCColor: &rwp.HWCColor{}}, {HWCColor: &rwp.HWCColor{ColorRGB: &rwp.ColorRGB{}}}, {HWCGfx: &rwp.HWCGfx{}}, {HWCGfx: &rwp.HWCGfx{W: 5}}, {HWCGfx: &rwp.HWCGfx{ImageType: 77, ImageData: []byte{1}}}, {Processors: &rwp.Processors{}}, {HWCMode: &rwp.HWCMode{}}, {HWCExtended: &rwp.HWCExtended{}}, {PublishRawADCValues: &rwp.PublishRawADCValues{}}} {
			if !mk(s) {
				return
			}
		}
	}, checkWire)
	core.Explore(r, "long", core.Size{Quick: 60, Thorough: 2000}, func(t *rapid.T) strCase {
		unit := genHostileLine(t)
		n := rapid.SampledFrom([]int{1000, 20000, 60000}).Draw(t, "times")
		if len(unit)*n > 2000000 {
			n = 2000000 / len(unit)
		}
		pre := rapid.SampledFrom([]string{"", "HWCt#1=", "HWCg#1=0/0,1x1:", "{\"a\":", "[", "_model=", "HWC#", "SysStat="}).Draw(t, "pre")
		return strCase{Lines: [][]byte{[]byte(pre), bytes.Repeat(unit, n), append([]byte(pre), bytes.Repeat(unit, n)...)}}
	}, checkStrings)
	// with the debug output of the helpers switched on
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		keep := os.Stdout
		os.Stdout = null
		rapi.DebugRWPhelpers = true
		core.Explore(r, "debug-strings", core.Size{Quick: 600, Thorough: 20000}, genStrings, checkStrings)
		core.Explore(r, "debug-wire", core.Size{Quick: 600, Thorough: 20000}, genWire, checkWire)
		rapi.DebugRWPhelpers = false
		os.Stdout = keep
		null.Close()
	}
}
