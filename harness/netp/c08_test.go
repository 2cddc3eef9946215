package netp

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	rapi "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"rwpverif/conv"
	"rwpverif/core"
)

// Spec describes one message of the panel compactly.
type Spec struct {
	Kind string // event, size, wire, multi, line, longline
	N    int    // id or size
	Wire []byte `json:",omitempty"`
	Line string `json:",omitempty"`
	CRLF bool   `json:",omitempty"`
}

// text makes n position dependent characters.
func text(n, salt int) string {
	b := make([]byte, n)
	x := uint32(salt)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = "abcdefghijklmnopqrstuvwxyz012345"[x>>27]
	}
	return string(b)
}

// sized makes a message whose encoding has n bytes, or as near as possible below.
func sized(n, salt int) *rwp.OutboundMessage {
	if n < 2 {
		return &rwp.OutboundMessage{}
	}
	for l := n; l >= 0; l-- {
		m := &rwp.OutboundMessage{Message: &rwp.Message{Message: text(l, salt)}}
		if proto.Size(m) == n {
			return m
		}
		m.FlowMessage = rwp.OutboundMessage_PING
		if proto.Size(m) == n {
			return m
		}
		if n-proto.Size(m) > 8 {
			break
		}
	}
	return &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_PING}
}

// encode gives the bytes on the wire and the messages they stand for.
func encode(specs []Spec, ascii bool) (parts [][]byte, want [][]*rwp.OutboundMessage) {
	for i, s := range specs {
		if ascii {
			line := s.Line
			switch s.Kind {
			case "event":
				line = fmt.Sprintf("HWC#%d=Down", s.N)
			case "longline":
				line = "_model=" + text(s.N, i)
			}
			end := "\n"
			if s.CRLF {
				end = "\r\n"
			}
			parts = append(parts, []byte(line+end))
			want = append(want, rapi.RawPanelASCIIstringsToOutboundMessages([]string{line}))
			continue
		}
		var m *rwp.OutboundMessage
		p := s.Wire
		switch s.Kind {
		case "event":
			m = &rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(s.N), Binary: &rwp.BinaryEvent{Pressed: true}}}}
		case "size":
			m = sized(s.N, i)
		case "multi": // every boundary inside is the end of a message that decodes
			m = &rwp.OutboundMessage{}
			for k := 0; k < s.N; k++ {
				m.Events = append(m.Events, &rwp.HWCEvent{HWCID: uint32(i*100 + k), Binary: &rwp.BinaryEvent{Pressed: k%2 == 0}})
			}
		}
		if m != nil {
			p = mustMarshal(m)
		} else {
			m = &rwp.OutboundMessage{}
			if err := proto.Unmarshal(p, m); err != nil {
				panic(core.Invalid("message: %v", err))
			}
		}
		parts = append(parts, Frame(p))
		want = append(want, []*rwp.OutboundMessage{m})
	}
	return
}

func flat(ls [][]*rwp.OutboundMessage) (out []*rwp.OutboundMessage) {
	for _, l := range ls {
		out = append(out, l...)
	}
	return
}

type cut struct {
	At int // offset in the stream
	Ms int // pause there
}

type segCase struct {
	Ascii bool
	Msgs  []Spec
	Cuts  []cut
	Chop  int    // additionally cut every so many bytes, 0: never
	Idle  []int  // long pauses before these messages
	First int    // pause before the first byte
	Long  int    `json:",omitempty"` // length of the long pauses in ms, if not 2400
	Hold  int    `json:",omitempty"` // the consumer of the messages pauses this many ms
	Tail  []byte `json:",omitempty"` // the beginning of a message with which the panel leaves
}

func checkSeg(c segCase, info *core.Info) error {
	p := NewPanel()
	defer p.Close()
	cl := StartClient(p.Addr, nil, true)
	defer cl.Cancel()
	conn, err := p.Accept(3 * time.Second)
	if err != nil {
		return err
	}
	defer conn.Close()
	if err := conn.Negotiate(cl, c.Ascii, 1); err != nil {
		return err
	}
	parts, want := encode(c.Msgs, c.Ascii)
	stream := bytes.Join(parts, nil)
	pause := map[int]int{}
	off := 0
	isIdle := map[int]bool{}
	for _, i := range c.Idle {
		isIdle[i] = true
	}
	bounds := map[int]bool{}
	for i, pt := range parts {
		if isIdle[i] {
			if c.Long > 0 {
				pause[off] += c.Long
			} else {
				pause[off] += 2400
			}
			info.Label("idle pause of 2.4 s or more between messages")
		}
		bounds[off] = true
		off += len(pt)
	}
	if c.First > 0 {
		pause[0] += c.First
		info.LabelIf(c.First > 2000, "idle pause of more than 2 s after negotiation")
	}
	for _, ct := range c.Cuts {
		if ct.At > 0 && ct.At < len(stream) {
			pause[ct.At] += ct.Ms
			if !bounds[ct.At] {
				info.Label("cut inside a message")
				info.NonTrivial(true)
				info.LabelIf(ct.Ms > 2000, "pause of more than 2 s inside a line")
			}
		}
	}
	if c.Chop > 0 {
		info.NonTrivial(true)
		info.LabelIf(c.Chop == 1, "one byte at a time")
	}
	info.LabelIf(c.Ascii, "ascii")
	info.LabelIf(!c.Ascii, "binary")
	info.LabelIf(len(stream) > 100000, "stream over 100 kB")
	info.NonTrivial(len(c.Idle) > 0)
	if c.Hold > 0 {
		info.LabelIf(c.Hold > 2000, "consumer pauses for more than 2 s")
		info.NonTrivial(true)
		cl.Hold(time.Duration(c.Hold) * time.Millisecond)
	}
	conn.SetWriteDeadline(time.Now().Add(30 * time.Second))
	last := 0
	write := func(to int) error {
		if to > last {
			if _, err := conn.Write(stream[last:to]); err != nil {
				return core.Soft("the client ended the connection in a valid stream, at byte %d of %d: %v, callbacks %v", to, len(stream), err, cl.Calls())
			}
			last = to
		}
		return nil
	}
	for i := 0; i < len(stream); i++ {
		ms, ok := pause[i]
		chop := c.Chop > 0 && i%c.Chop == 0
		if !ok && !chop {
			continue
		}
		if err := write(i); err != nil {
			return err
		}
		switch {
		case ms > 0:
			time.Sleep(time.Duration(ms) * time.Millisecond)
		case chop && len(stream) < 20000:
			time.Sleep(200 * time.Microsecond)
		default:
			time.Sleep(time.Millisecond)
		}
	}
	if err := write(len(stream)); err != nil {
		return err
	}
	exp := flat(want)
	cl.WaitMsgs(len(exp), 4*time.Second+time.Duration(c.Hold)*time.Millisecond)
	time.Sleep(30 * time.Millisecond)
	if err := compareMsgs(cl.Msgs(), exp); err != nil {
		if calls := cl.Calls(); len(calls) != 1 {
			return core.Soft("%v; callbacks %v", err, calls)
		}
		return err
	}
	if calls := cl.Calls(); len(calls) != 1 {
		return core.Soft("the connection ended in a valid stream: %v", calls)
	}
	if len(c.Tail) > 0 { // no message
		info.Label("the panel leaves within a message")
		conn.Write(c.Tail)
		time.Sleep(5 * time.Millisecond)
		conn.Close()
		if !cl.WaitCalls(2, 6*time.Second) {
			return core.Soft("no disconnect callback: %v", cl.Calls())
		}
		time.Sleep(5 * time.Millisecond)
		if err := compareMsgs(cl.Msgs(), exp); err != nil {
			return fmt.Errorf("after the panel left with %q: %w", c.Tail, err)
		}
	}
	return cl.Stop()
}

func dictInts(lo, hi int64) *rapid.Generator[int] {
	return rapid.Map(core.Ints(lo, hi), func(i int64) int { return int(i) })
}

func genSpecs(t *rapid.T, ascii bool, max int, big bool) (out []Spec) {
	n := core.Count(t, 1, max, max+40, "n")
	for i := 0; i < n; i++ {
		s := Spec{}
		if ascii {
			s.CRLF = rapid.Bool().Draw(t, "crlf")
			switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
			case k < 3:
				s.Kind, s.N = "event", rapid.IntRange(0, 300).Draw(t, "id")
			case k < 4 && big:
				s.Kind, s.N = "longline", rapid.OneOf(rapid.SampledFrom([]int{900, 1000, 1001, 4000, 4090, 4096, 4097, 9000, 65530, 65536, 65537, 150000, 600000}), dictInts(100, 600000)).Draw(t, "len")
			case k < 5:
				s.Kind, s.Line = "line", rapid.SampledFrom([]string{"", "_model=A\rB", "_serial=\r1\r\r2", "ping", "ack", "nack", "BSY", "RDY", "list", "unknown line", "map=1:2", "_model=x", "HWC#1=Enc:-1", "HWC#3=Press"}).Draw(t, "l")
			default:
				s.Kind = "line"
				l := conv.GenOutLine(t, true)
				l = strings.TrimSpace(strings.NewReplacer("\n", "", "\r", "").Replace(l))
				s.Line = l
			}
		} else {
			switch k := rapid.IntRange(0, 10).Draw(t, "kind"); {
			case k < 3:
				s.Kind, s.N = "event", rapid.IntRange(0, 300).Draw(t, "id")
			case k == 10:
				s.Kind, s.N = "multi", rapid.IntRange(0, 12).Draw(t, "events")
			case k < 5 && big:
				s.Kind, s.N = "size", rapid.OneOf(rapid.SampledFrom([]int{995, 996, 997, 999, 1000, 1001, 1004, 4095, 4096, 4097, 16380, 65535, 65536, 131072, 300000, 499998, 499999}), dictInts(0, 499999), rapid.IntRange(0, 499999)).Draw(t, "len")
			case k < 7:
				s.Kind, s.N = "size", rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 2000), dictInts(0, 5000)).Draw(t, "len")
			default:
				s.Kind, s.Wire = "wire", mustMarshal(conv.GenOutbound(t))
			}
		}
		out = append(out, s)
	}
	return
}

func streamLen(specs []Spec, ascii bool) (int, []int) {
	parts, _ := encode(specs, ascii)
	n := 0
	var starts []int
	for _, p := range parts {
		starts = append(starts, n)
		n += len(p)
	}
	return n, starts
}

// genSeg cuts at random; the pauses inside one frame stay far below 2 s.
func genSeg(big bool, max int) func(t *rapid.T) segCase {
	return func(t *rapid.T) segCase {
		c := segCase{Ascii: rapid.Bool().Draw(t, "ascii")}
		c.Msgs = genSpecs(t, c.Ascii, max, big)
		n, starts := streamLen(c.Msgs, c.Ascii)
		switch rapid.IntRange(0, 5).Draw(t, "mode") {
		case 0:
			c.Chop = 1
			if n > 1200 {
				c.Chop = n / 300
			}
		case 1:
			c.Chop = rapid.IntRange(2, 9).Draw(t, "chop")
			if n/c.Chop > 600 {
				c.Chop = n / 300
			}
		}
		for k := rapid.IntRange(0, 10).Draw(t, "cuts"); k > 0; k-- {
			at := 0
			if rapid.Bool().Draw(t, "nearStart") { // around headers and line ends
				at = rapid.SampledFrom(starts).Draw(t, "start") + rapid.IntRange(-3, 5).Draw(t, "off")
			} else {
				at = rapid.IntRange(0, n).Draw(t, "at")
			}
			c.Cuts = append(c.Cuts, cut{at, rapid.IntRange(1, 50).Draw(t, "ms")})
		}
		return c
	}
}

// genHold: the consumer is slow for a while; it gets all messages all the same.
func genHold(t *rapid.T) segCase {
	c := genSeg(false, 6)(t)
	c.Chop = 0
	c.Cuts = nil
	c.Hold = rapid.SampledFrom([]int{700, 2500, 5500}).Draw(t, "hold")
	if rapid.IntRange(0, 5).Draw(t, "idle") == 0 {
		c.Hold, c.Long = 0, 12500
		c.Idle = []int{rapid.IntRange(0, len(c.Msgs)-1).Draw(t, "at")}
	}
	return c
}

// genTail: the panel leaves in the middle of a message.
func genTail(t *rapid.T) segCase {
	c := genSeg(false, 4)(t)
	c.Chop = 0
	last := genSpecs(t, c.Ascii, 1, false)[:1]
	n, _ := streamLen(last, c.Ascii)
	parts, _ := encode(last, c.Ascii)
	c.Tail = parts[0]
	if !c.Ascii || n < 3 {
		c.Tail = c.Tail[:rapid.IntRange(0, len(c.Tail)-1).Draw(t, "tail")]
	} else {
		c.Tail = bytes.TrimSuffix(c.Tail, []byte("\n")) // all but the line feed
		if rapid.Bool().Draw(t, "part") {
			c.Tail = c.Tail[:rapid.IntRange(0, len(c.Tail)).Draw(t, "tail")]
		}
	}
	return c
}

func genIdle(t *rapid.T) segCase {
	c := genSeg(false, 5)(t)
	c.Chop = 0
	n, _ := streamLen(c.Msgs, c.Ascii)
	if rapid.Bool().Draw(t, "idleFirst") {
		c.First = 2400
	}
	for k := rapid.IntRange(0, 2).Draw(t, "idles"); k > 0; k-- {
		c.Idle = append(c.Idle, rapid.IntRange(0, len(c.Msgs)-1).Draw(t, "idle"))
	}
	if rapid.Bool().Draw(t, "slow") {
		ms := rapid.SampledFrom([]int{1000, 1700}).Draw(t, "ms")
		if c.Ascii {
			ms = rapid.SampledFrom([]int{1000, 2600}).Draw(t, "ms")
		}
		c.Cuts = []cut{{rapid.IntRange(1, max(1, n-1)).Draw(t, "slowAt"), ms}}
		if _, starts := streamLen(c.Msgs, c.Ascii); !c.Ascii && rapid.IntRange(0, 2).Draw(t, "both") == 0 {
			// a slow header and a slow payload
			i := rapid.IntRange(0, len(starts)-1).Draw(t, "frame")
			end := n
			if i+1 < len(starts) {
				end = starts[i+1]
			}
			c.Cuts = []cut{{starts[i] + rapid.IntRange(1, 3).Draw(t, "inHeader"), 1500}}
			if end > starts[i]+4 {
				c.Cuts = append(c.Cuts, cut{rapid.IntRange(starts[i]+4, end-1).Draw(t, "inPayload"), 1500})
			}
		}
	}
	return c
}

// cutsCase sends a short stream once for every second cut point.
type cutsCase struct {
	Ascii bool
	Msgs  []Spec
	First int
	From  int // first value of the second cut point
	To    int
}

func checkCuts(c cutsCase, info *core.Info) error {
	p := NewPanel()
	defer p.Close()
	cl := StartClient(p.Addr, nil, true)
	defer cl.Cancel()
	conn, err := p.Accept(3 * time.Second)
	if err != nil {
		return err
	}
	defer conn.Close()
	if err := conn.Negotiate(cl, c.Ascii, 1); err != nil {
		return err
	}
	parts, want := encode(c.Msgs, c.Ascii)
	stream := bytes.Join(parts, nil)
	once := flat(want)
	var exp []*rwp.OutboundMessage
	info.NonTrivial(true)
	info.LabelIf(c.Ascii, "ascii")
	info.LabelIf(!c.Ascii, "binary")
	for j := max(c.From, c.First); j <= min(c.To, len(stream)); j++ {
		for _, seg := range [][]byte{stream[:c.First], stream[c.First:j], stream[j:]} {
			if len(seg) == 0 {
				continue
			}
			if _, err := conn.Write(seg); err != nil {
				return core.Soft("the client ended the connection at cuts %d,%d: %v", c.First, j, err)
			}
			time.Sleep(1500 * time.Microsecond)
		}
		exp = append(exp, once...)
		cl.WaitMsgs(len(exp), 4*time.Second)
		if err := compareMsgs(cl.Msgs(), exp); err != nil {
			if core.IsSoft(err) {
				return core.Soft("cut at %d and %d: %v", c.First, j, err)
			}
			return fmt.Errorf("cut at %d and %d: %v", c.First, j, err)
		}
	}
	time.Sleep(10 * time.Millisecond)
	if err := compareMsgs(cl.Msgs(), exp); err != nil {
		return err
	}
	return cl.Stop()
}

func TestC08(t *testing.T) {
	r := core.Start(t, "C08")
	defer r.Finish()
	r.NoWatch()
	// every single and double cut of short streams
	var all []cutsCase
	streams := []cutsCase{
		{Msgs: []Spec{{Kind: "event", N: 5}, {Kind: "size", N: 0}, {Kind: "event", N: 200}}},
		{Msgs: []Spec{{Kind: "size", N: 12}, {Kind: "size", N: 2}}},
		{Ascii: true, Msgs: []Spec{{Kind: "event", N: 5, CRLF: true}, {Kind: "line", Line: "ping"}, {Kind: "line", Line: "map=1:2"}}},
		{Ascii: true, Msgs: []Spec{{Kind: "line", Line: ""}, {Kind: "line", Line: "_model=AB", CRLF: true}, {Kind: "line", Line: "", CRLF: true}, {Kind: "event", N: 12}}},
	}
	if r.Thorough {
		streams = append(streams,
			cutsCase{Msgs: []Spec{{Kind: "event", N: 1}, {Kind: "event", N: 300}, {Kind: "size", N: 0}, {Kind: "size", N: 0}, {Kind: "size", N: 30}}},
			cutsCase{Ascii: true, Msgs: []Spec{{Kind: "event", N: 1}, {Kind: "event", N: 300, CRLF: true}, {Kind: "line", Line: "_serial=12", CRLF: true}, {Kind: "line", Line: "RDY"}}})
	}
	for _, s := range streams {
		n, _ := streamLen(s.Msgs, s.Ascii)
		for i := 0; i <= n; i++ {
			s.First, s.From, s.To = i, i, n
			all = append(all, s)
		}
	}
	core.BatchList(r, "cuts", 24, all, checkCuts)
	core.Batch(r, "segments", core.Size{Quick: 900, Thorough: 30000}, 24, genSeg(false, 8), checkSeg)
	core.Batch(r, "large", core.Size{Quick: 160, Thorough: 6000}, 12, genSeg(true, 5), checkSeg)
	core.Batch(r, "hold", core.Size{Quick: 60, Thorough: 1200}, 60, genHold, checkSeg)
	core.Batch(r, "tail", core.Size{Quick: 240, Thorough: 6000}, 40, genTail, checkSeg)
	core.Batch(r, "idle", core.Size{Quick: 220, Thorough: 6000}, 40, genIdle, checkSeg)
}
