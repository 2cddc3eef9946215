package netp

import (
	"fmt"
	"io"
	"net"
	"strings"
	"testing"
	"time"

	rapi "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"pgregory.net/rapid"
	"rwpverif/conv"
	"rwpverif/core"
)

type probeCase struct {
	Client bool   // the reconnecting client, otherwise the stand-alone detector
	Class  string // ack, other, silence, rdy, map, error, text
	Reply  []byte // bytes of the reply
	Delay  int    // ms before the reply
	Split  int    // the reply is sent in two parts cut here
	More   []int  // further cuts
	Gap    int    // ms between the parts
	Close  bool   // the panel closes after the reply
	ErrMsg string
	Early  bool // a message is submitted before the answer
}

// checkProbe: an answer that comes too late on a busy machine gives another
// verdict, so that every failure has to repeat when the case runs alone.
func checkProbe(c probeCase, info *core.Info) error {
	if err := checkProbe1(c, info); err != nil {
		return core.Soft("%w", err)
	}
	return nil
}

func checkProbe1(c probeCase, info *core.Info) error {
	info.Label("class: " + c.Class)
	info.LabelIf(c.Client, "reconnecting client")
	info.LabelIf(!c.Client, "stand-alone detector")
	info.LabelIf(c.Delay >= 1000, "late reply")
	info.LabelIf(c.Split > 0, "reply in parts")
	info.LabelIf(c.Split > 0 && c.Class != "ack", "text reply in parts")
	info.LabelIf(len(c.Reply) > 1000, "reply over 1000 bytes")
	info.LabelIf(c.Close, "closed after the reply")
	info.NonTrivial(true)
	p := NewPanel()
	defer p.Close()

	var cl *Client
	type det struct{ binary bool }
	detCh := make(chan det, 1)
	var own net.Conn
	if c.Client {
		cl = StartClient(p.Addr, &rapi.ConnectToPanelConfig{ReConnectionRetryPeriod: 60, NoConnectionRetryPeriod: 60}, true)
		defer cl.Cancel()
	} else {
		var err error
		if own, err = net.Dial("tcp", p.Addr); err != nil {
			return core.Soft("dial: %v", err)
		}
		defer own.Close()
		go func() { detCh <- det{rapi.AutoDetectIfPanelEncodingIsBinary(own, p.Addr)} }()
	}
	conn, err := p.Accept(3 * time.Second)
	if err != nil {
		return err
	}
	defer conn.Close()
	start := time.Now()
	if err := conn.ExpectProbe(); err != nil {
		return err
	}
	early := &rwp.InboundMessage{Command: &rwp.Command{SendPanelInfo: true, SetDimmedGain: &rwp.DimmedGain{Value: 7}}}
	sent := make(chan bool)
	if c.Early {
		info.Label("a submission waits for the verdict")
		go func() {
			select {
			case cl.To <- []*rwp.InboundMessage{early}:
			case <-sent:
			}
		}()
		defer close(sent)
	}
	// nothing follows the probe before the answer
	if c.Delay > 0 {
		d := c.Delay
		if c.Class == "silence" {
			d = 1500
		}
		if err := conn.Quiet(time.Duration(d) * time.Millisecond); err != nil {
			if d > 1000 { // this process may run late
				return core.Soft("before the answer: %v", err)
			}
			return fmt.Errorf("before the answer: %w", err)
		}
	}
	if c.Class != "silence" {
		if c.Split > 0 && c.Split < len(c.Reply) {
			at := 0
			for _, cut := range append([]int{c.Split}, c.More...) {
				if cut <= at || cut >= len(c.Reply) {
					continue
				}
				conn.Write(c.Reply[at:cut])
				time.Sleep(time.Duration(c.Gap) * time.Millisecond)
				at = cut
			}
			conn.Write(c.Reply[at:])
		} else {
			conn.Write(c.Reply)
		}
	}
	answered := time.Now()
	if c.Close {
		conn.CloseWrite()
	}
	wantBinary := c.Class == "ack"
	limit := 1500 * time.Millisecond
	if c.Class == "silence" || c.Class == "text" || c.Class == "other" {
		limit = 4 * time.Second
	}
	var isBinary bool
	if c.Client {
		if !cl.WaitCalls(1, limit) {
			return core.Soft("no connect callback %v after the answer", time.Since(answered))
		}
		cb := cl.Calls()[0]
		if !cb.Connect {
			return fmt.Errorf("the first callback is %v", cb)
		}
		isBinary = cb.Binary
		if c.Class == "silence" && cb.At.Sub(start) < 1850*time.Millisecond {
			return core.Soft("the client waited only %v for an answer", cb.At.Sub(start))
		}
		if c.Class != "other" {
			want := ""
			if c.Class == "error" {
				want = c.ErrMsg
			}
			if cb.ErrorMsg != want {
				return fmt.Errorf("the error message handed over is %q, not %q", cb.ErrorMsg, want)
			}
		}
	} else {
		select {
		case d := <-detCh:
			isBinary = d.binary
			if c.Class == "silence" && time.Since(start) < 1850*time.Millisecond {
				return core.Soft("the detector waited only %v for an answer", time.Since(start))
			}
		case <-time.After(limit):
			return core.Soft("the detector has not returned %v after the answer", time.Since(answered))
		}
	}
	if c.Class == "other" {
		// any answer that is a frame: only the bytes on the wire must be
		// consistent with the verdict
		wantBinary = isBinary
	}
	if isBinary != wantBinary {
		return core.Soft("an answer of class %s (%q, delay %d ms, cut %d) is taken for binary=%v", c.Class, clipB(c.Reply), c.Delay, c.Split, isBinary)
	}
	flush := func() error {
		if wantBinary {
			return nil
		}
		b, err := conn.ReadN(1, time.Second)
		if err != nil {
			return core.Soft("no line feed after an ASCII answer: %v", err)
		}
		if b[0] != '\n' {
			return fmt.Errorf("an ASCII panel got %q instead of a line feed", b)
		}
		return nil
	}
	if err := flush(); err != nil {
		return err
	}
	if c.Close {
		// the end of the connection follows, with no more bytes before it
		if c.Client {
			conn.SetReadDeadline(time.Now().Add(3 * time.Second))
			b := make([]byte, 16)
			n, err := conn.Read(b)
			if n > 0 {
				return fmt.Errorf("unexpected bytes %q", b[:n])
			}
			if err != io.EOF && isTimeout(err) {
				return core.Soft("the client keeps a connection the panel has closed")
			}
		}
	} else {
		// other traffic comes after the flush, and nothing else does
		submitted := func(m *rwp.InboundMessage) error {
			want := Frame(mustMarshal(m))
			if !wantBinary {
				want = nil
				for _, l := range rapi.InboundMessagesToRawPanelASCIIstrings([]*rwp.InboundMessage{m}) {
					want = append(want, l+"\n"...)
				}
			}
			b, err := conn.ReadN(len(want), 2*time.Second)
			if err != nil {
				return core.Soft("a submission arrives as %q: %v", b, err)
			}
			if string(b) != string(want) {
				return fmt.Errorf("a submission arrives as %q, not %q", b, want)
			}
			return nil
		}
		if c.Early {
			if err := submitted(early); err != nil {
				return err
			}
		}
		if err := conn.Quiet(80 * time.Millisecond); err != nil {
			return fmt.Errorf("after the probe: %w", err)
		}
		if c.Client {
			m := &rwp.InboundMessage{FlowMessage: rwp.InboundMessage_ACK}
			cl.To <- []*rwp.InboundMessage{m}
			if err := submitted(m); err != nil {
				return err
			}
		}
	}
	if c.Client {
		return cl.Stop()
	}
	return nil
}

func genProbe(t *rapid.T) probeCase {
	c := probeCase{Client: rapid.Bool().Draw(t, "client")}
	classes := []string{"ack", "ack", "ack", "silence", "rdy", "map", "other"}
	if c.Client {
		classes = append(classes, "error", "text", "error", "text")
	}
	c.Class = rapid.SampledFrom(classes).Draw(t, "class")
	c.Delay = rapid.OneOf(rapid.SampledFrom([]int{0, 0, 1, 10, 400, 1000, 1400, 1700}), rapid.IntRange(0, 1500), rapid.IntRange(1400, 1800)).Draw(t, "delay")
	end := rapid.SampledFrom([]string{"\n", "\r\n"}).Draw(t, "end")
	word := func(n int) string {
		return rapid.StringOfN(rapid.SampledFrom([]rune("abcXYZ 0123456789.,;:=_#äö")), 0, n, -1).Draw(t, "word")
	}
	switch c.Class {
	case "ack":
		m := &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK}
		if rapid.IntRange(0, 2).Draw(t, "more") == 0 { // an acknowledge that carries more
			m = conv.GenOutbound(t)
			m.FlowMessage = rwp.OutboundMessage_ACK
		}
		c.Reply = Frame(mustMarshal(m))
		if n := rapid.IntRange(0, 30).Draw(t, "long"); n < 3 {
			m.Events = append(m.Events, &rwp.HWCEvent{HWCID: 1, Binary: &rwp.BinaryEvent{Pressed: true}})
			m.PanelTopology = &rwp.PanelTopology{Svgbase: strings.Repeat("x", []int{950, 1000, 60000}[n])}
			c.Reply = Frame(mustMarshal(m))
		}
	case "other":
		m := conv.GenOutbound(t)
		if m.FlowMessage == rwp.OutboundMessage_ACK {
			m.FlowMessage = rwp.OutboundMessage_HELLO
		}
		if len(mustMarshal(m)) == 0 || len(mustMarshal(m)) > 900 {
			m = &rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_BSY}
		}
		c.Reply = Frame(mustMarshal(m))
	case "rdy":
		c.Reply = []byte("RDY" + end)
		for k := rapid.IntRange(-2, 3).Draw(t, "lines"); k > 0; k-- {
			c.Reply = append(c.Reply, word(20)+end...)
		}
	case "map":
		s := fmt.Sprintf("map=%d:%d%s", rapid.IntRange(1, 200).Draw(t, "m"), rapid.IntRange(0, 200).Draw(t, "v"), end)
		for k := rapid.IntRange(0, 4).Draw(t, "lines"); k > 0; k-- {
			s += fmt.Sprintf("map=%d:1%s", k, end)
		}
		c.Reply = []byte(s)
	case "error":
		c.ErrMsg = "E" + word(40) + "."
		if rapid.IntRange(0, 3).Draw(t, "long message?") == 0 {
			c.ErrMsg = text(rapid.SampledFrom([]int{100, 127, 128, 129, 255, 256, 257, 500, 600, 900, 985}).Draw(t, "length"), 5)
		}
		c.Reply = []byte("ErrorMsg=" + c.ErrMsg + end)
		for k := rapid.IntRange(0, 2).Draw(t, "lines"); k > 0; k-- {
			c.Reply = append(c.Reply, "more text"+end...)
		}
	case "text":
		first := rapid.SampledFrom([]string{"hello", "nack", "BSY", "ack", "list", "Welcome to the panel", "x", "", "_model=AB", "HWC#1=Down", "Error", "This is ErrorMsg=no"}).Draw(t, "text")
		c.Reply = []byte(first + end)
		for k := rapid.IntRange(0, 2).Draw(t, "lines"); k > 0; k-- {
			c.Reply = append(c.Reply, word(20)+end...)
		}
	}
	// an answer in several segments; other texts are recognized by what
	// comes first
	if n := len(c.Reply); n > 1 && (c.Class == "ack" || c.Class == "rdy" || c.Class == "map" || c.Class == "error") && rapid.IntRange(0, 2).Draw(t, "split?") == 0 {
		c.Split = rapid.IntRange(1, min(n-1, 40)).Draw(t, "split")
		if rapid.Bool().Draw(t, "far") {
			c.Split = rapid.IntRange(1, n-1).Draw(t, "split")
		}
		c.Gap = rapid.SampledFrom([]int{5, 50, 300, 700}).Draw(t, "gap")
		c.Delay = min(c.Delay, 1000)
		if c.Gap <= 50 {
			for k, at := rapid.IntRange(0, 6).Draw(t, "more cuts"), c.Split; k > 0 && at < n-1; k-- {
				at = rapid.IntRange(at+1, min(n-1, at+4)).Draw(t, "cut")
				c.More = append(c.More, at)
			}
		}
	}
	if c.Class != "silence" {
		c.Close = rapid.IntRange(0, 3).Draw(t, "close") == 0
	}
	c.Early = c.Client && !c.Close && rapid.IntRange(0, 2).Draw(t, "early") == 0
	return c
}

func TestC12(t *testing.T) {
	r := core.Start(t, "C12")
	defer r.Finish()
	r.NoWatch()
	var all []probeCase
	for _, client := range []bool{false, true} {
		for _, d := range []int{0, 100, 700, 1300, 1600, 1850} {
			all = append(all, probeCase{Client: client, Class: "ack", Reply: Ack, Delay: d})
			for _, s := range []string{"RDY\n", "RDY\r\n"} {
				all = append(all, probeCase{Client: client, Class: "rdy", Reply: []byte(s), Delay: d})
			}
			for _, s := range []string{"map=1:1\n", "map=1:1\r\n", "map=1:1\nmap=2:2\n"} {
				all = append(all, probeCase{Client: client, Class: "map", Reply: []byte(s), Delay: d})
			}
			if client {
				for _, cls := range []bool{false, true} {
					all = append(all, probeCase{Client: true, Class: "error", Reply: []byte("ErrorMsg=Busy\n"), ErrMsg: "Busy", Delay: d, Close: cls},
						probeCase{Client: true, Class: "error", Reply: []byte("ErrorMsg=Too many\r\n"), ErrMsg: "Too many", Delay: d, Close: cls})
				}
			}
		}
		for i := 1; i < len(Ack); i++ {
			all = append(all, probeCase{Client: client, Class: "ack", Reply: Ack, Split: i, Gap: 60})
		}
		type reply struct{ class, text, msg string }
		replies := []reply{{"rdy", "RDY\n", ""}, {"rdy", "RDY\r\n", ""}, {"map", "map=12:3\n", ""}, {"rdy", "RDY\nlist\n", ""}}
		if client {
			replies = append(replies, reply{"error", "ErrorMsg=Busy now\n", "Busy now"}, reply{"error", "ErrorMsg=No.\r\n", "No."})
		}
		for _, x := range replies {
			for i := 1; i < len(x.text); i++ {
				all = append(all, probeCase{Client: client, Class: x.class, Reply: []byte(x.text), ErrMsg: x.msg, Split: i, Gap: 60, Close: i%4 == 3})
			}
		}
		long := Frame(mustMarshal(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK, PanelTopology: &rwp.PanelTopology{Json: strings.Repeat("{}", 700)}}))
		all = append(all, probeCase{Client: client, Class: "ack", Reply: long}, probeCase{Client: client, Class: "ack", Reply: long, Split: 990, Gap: 60})
		all = append(all, probeCase{Client: client, Class: "silence"}, probeCase{Client: client, Class: "silence", Delay: 1})
	}
	core.BatchList(r, "classes", 40, all, checkProbe)
	core.Batch(r, "replies", core.Size{Quick: 900, Thorough: 30000}, 60, genProbe, checkProbe)
}
