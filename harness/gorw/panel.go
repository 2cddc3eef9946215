// Package gorw checks the high-level client against scripted loopback panels.
package gorw

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/SKAARHOJ/rawpanel-lib/gorwp"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"rwpverif/core"
)

func marshal(m proto.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

func frame(p []byte) []byte {
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(p))), p...)
}

var probe = frame(marshal(&rwp.InboundMessage{FlowMessage: rwp.InboundMessage_PING}))

// panel is the scripted panel's end of one connection.
type panel struct {
	c     *net.TCPConn
	ascii bool

	mu     sync.Mutex
	change chan struct{}
	acks   int
	pings  int
	req    bool // the initial request arrived
	led    []ledMsg
	texts  int
	light  int
	other  []string
	ended  error
}

// ledMsg is one piece of feedback.
type ledMsg struct {
	ID    uint32
	Color uint32
}

func (p *panel) note(f func()) {
	p.mu.Lock()
	f()
	close(p.change)
	p.change = make(chan struct{})
	p.mu.Unlock()
}

func (p *panel) wait(d time.Duration, cond func() bool) bool {
	end := time.NewTimer(d)
	defer end.Stop()
	for {
		p.mu.Lock()
		ok, ch := cond(), p.change
		p.mu.Unlock()
		if ok {
			return true
		}
		select {
		case <-ch:
		case <-end.C:
			p.mu.Lock()
			defer p.mu.Unlock()
			return cond()
		}
	}
}

// accept plays the panel's side of the detection.
func accept(l net.Listener, ascii, silent bool) (*panel, error) {
	l.(*net.TCPListener).SetDeadline(time.Now().Add(5 * time.Second))
	c, err := l.Accept()
	if err != nil {
		return nil, core.Soft("the client does not connect: %v", err)
	}
	p := &panel{c: c.(*net.TCPConn), ascii: ascii, change: make(chan struct{})}
	b := make([]byte, len(probe))
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	if _, err := io.ReadFull(c, b); err != nil || !bytes.Equal(b, probe) {
		return p, core.Soft("the probe is %x (%v)", b, err)
	}
	if !silent {
		if ascii {
			c.Write([]byte("RDY\n"))
		} else {
			c.Write(frame(marshal(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK})))
		}
	}
	c.SetReadDeadline(time.Time{})
	go p.read()
	// the panel speaks when it is spoken to
	if !p.wait(6*time.Second, func() bool { return p.req || p.ended != nil }) {
		return p, core.Soft("no request for information from the client")
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.req {
		return p, core.Soft("no request for information from the client (%v)", p.ended)
	}
	return p, nil
}

// read takes in what the client sends.
func (p *panel) read() {
	r := bufio.NewReader(p.c)
	for {
		var err error
		if p.ascii {
			var line string
			if line, err = r.ReadString('\n'); err == nil {
				p.line(strings.TrimSuffix(line, "\n"))
			}
		} else {
			h := make([]byte, 4)
			if _, err = io.ReadFull(r, h); err == nil {
				n := binary.LittleEndian.Uint32(h)
				if n > 1<<20 {
					err = fmt.Errorf("a frame of %d bytes", n)
				} else {
					b := make([]byte, n)
					if _, err = io.ReadFull(r, b); err == nil {
						m := &rwp.InboundMessage{}
						if err = proto.Unmarshal(b, m); err == nil {
							p.message(m)
						}
					}
				}
			}
		}
		if err != nil {
			p.note(func() { p.ended = err })
			return
		}
	}
}

func (p *panel) message(m *rwp.InboundMessage) {
	p.note(func() {
		switch m.FlowMessage {
		case rwp.InboundMessage_ACK:
			p.acks++
		case rwp.InboundMessage_PING:
			p.pings++
		}
		if m.Command != nil {
			p.req = p.req || m.Command.SendPanelInfo && m.Command.SendPanelTopology
		}
		if m.Command != nil && m.Command.PanelBrightness != nil {
			p.light++
		}
		for _, s := range m.States {
			if s.HWCText != nil {
				p.texts++
				continue
			}
			for _, id := range s.HWCIDs {
				c := uint32(0)
				if s.HWCColor != nil && s.HWCColor.ColorIndex != nil {
					c = uint32(s.HWCColor.ColorIndex.Index)
				}
				p.led = append(p.led, ledMsg{id, c})
			}
		}
	})
}

func (p *panel) line(l string) {
	p.note(func() {
		switch {
		case l == "ack":
			p.acks++
		case l == "ping":
			p.pings++
		case l == "list" || l == "PanelTopology?":
			p.req = true
		case strings.HasPrefix(l, "HWCc#"):
			id, v, _ := strings.Cut(l[5:], "=")
			i, _ := strconv.Atoi(id)
			c, _ := strconv.Atoi(v)
			p.led = append(p.led, ledMsg{uint32(i), uint32(c) & 31})
		case strings.HasPrefix(l, "HWCt#"):
			p.texts++
		case strings.HasPrefix(l, "PanelBrightness="):
			p.light++
		default:
			p.other = append(p.other, l)
		}
	})
}

// send writes the bytes in the given segments, repeated as necessary.
func (p *panel) send(b []byte, cuts []int, gapMs int) {
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if len(cuts) > 0 {
			n = min(max(cuts[i%len(cuts)], 1), len(b))
			if i > 400 { // enough of it
				n = len(b)
			}
		}
		p.c.SetWriteDeadline(time.Now().Add(20 * time.Second))
		if _, err := p.c.Write(b[:n]); err != nil {
			return
		}
		b = b[n:]
		if len(b) > 0 && gapMs > 0 && i < 20 {
			time.Sleep(time.Duration(gapMs) * time.Millisecond)
		}
	}
}

// event of one component, possibly of several kinds at once (binary mode)
type event struct {
	ID      uint32
	Kinds   string // letters b p a s r
	Pressed bool
	Press   bool `json:",omitempty"` // down and up
	Edge    int
	Val     int
	Stamp   uint32 `json:",omitempty"` // time (binary mode)
}

// msg is one message of the panel.
type msg struct {
	Events []event `json:",omitempty"`
	Ping   bool    `json:",omitempty"`
	Ack    bool    `json:",omitempty"`
	Model  string  `json:",omitempty"`
	Serial string  `json:",omitempty"`
	Name   string  `json:",omitempty"`
	Json   string  `json:",omitempty"`
	Svg    string  `json:",omitempty"`
	Avail  [][2]uint32
	Pad    int    `json:",omitempty"` // this many bytes of SVG
	Full   int    `json:",omitempty"` // as much SVG as makes this many bytes
	Noise  int    `json:",omitempty"` // something that concerns nobody
	Extra  int    `json:",omitempty"` // more of that: bits of extras
	Text   string `json:",omitempty"` // a message text, which ends the frame
}

// extras is what a panel may tell along with everything else; none of it
// concerns the handlers or what the client remembers.
var extras = []struct {
	set  func(o *rwp.OutboundMessage)
	line string
}{
	{func(o *rwp.OutboundMessage) { o.SleepState = &rwp.SleepState{IsSleeping: true} }, "_isSleeping=1"},
	{func(o *rwp.OutboundMessage) { o.SleepTimeout = &rwp.SleepTimeout{Value: 7} }, "_sleepTimer=7"},
	{func(o *rwp.OutboundMessage) {
		o.Connections = &rwp.Connections{Connection: []string{"10.0.0.1", "::1"}}
	}, "_connections=10.0.0.1;"},
	{func(o *rwp.OutboundMessage) { o.HeartBeatTimer = &rwp.HeartBeatTimer{Value: 3000} }, "_heartBeatTimer=3000"},
	{func(o *rwp.OutboundMessage) { o.DimmedGain = &rwp.DimmedGain{Value: 5} }, "DimmedGain=5"},
	{func(o *rwp.OutboundMessage) { o.RunTimeStats = &rwp.RunTimeStats{BootsCount: 3, TotalUptime: 4} }, "_bootsCount=3"},
	{func(o *rwp.OutboundMessage) { o.SysStat = &rwp.SystemStat{CPUUsage: 3, CPUTemp: 40.5} }, "SysStat=CPUUsage:3:CPUTemp:40.5:"},
	{func(o *rwp.OutboundMessage) { o.Message = &rwp.Message{Message: "hi"} }, "Msg=hi"},
	{func(o *rwp.OutboundMessage) { o.ErrorMessage = &rwp.Message{Message: "oops"} }, "ErrorMsg=oops"},
	{func(o *rwp.OutboundMessage) { o.EnvironmentalHealth = &rwp.Environment{} }, "EnvironmentalHealth=Safemode"},
	{func(o *rwp.OutboundMessage) { o.Registers = []*rwp.Register{{Id: "A", Value: 2}} }, "Flag#3=1"},
	{func(o *rwp.OutboundMessage) { o.BurninProfile = &rwp.BurninProfile{Json: "{}"} }, "_burninProfile={}"},
	{func(o *rwp.OutboundMessage) { o.CalibrationProfile = &rwp.CalibrationProfile{Json: "{}"} }, "_calibrationProfile={}"},
	{func(o *rwp.OutboundMessage) { o.NetworkConfig = &rwp.NetworkConfig{Dhcp: true} }, "what=ever"},
	{func(o *rwp.OutboundMessage) { o.BusStatus = &rwp.BusStatus{} }, "_maxClients=4"},
	{flow(rwp.OutboundMessage_NACK), "nack"},
	{flow(rwp.OutboundMessage_BSY), "BSY"},
	{flow(rwp.OutboundMessage_RDY), "RDY"},
	{flow(rwp.OutboundMessage_HELLO), ""},
}

func flow(f rwp.OutboundMessage_FlowMsg) func(*rwp.OutboundMessage) {
	return func(o *rwp.OutboundMessage) {
		if o.FlowMessage == 0 {
			o.FlowMessage = f
		}
	}
}

func (e *event) proto() *rwp.HWCEvent {
	o := &rwp.HWCEvent{HWCID: e.ID, Timestamp: e.Stamp}
	for _, k := range e.Kinds {
		switch k {
		case 'b':
			o.Binary = &rwp.BinaryEvent{Pressed: e.Pressed, Edge: rwp.BinaryEvent_EdgeID(e.Edge)}
		case 'p':
			o.Pulsed = &rwp.PulsedEvent{Value: int32(e.Val)}
		case 'a':
			o.Absolute = &rwp.AbsoluteEvent{Value: uint32(e.Val)}
		case 's':
			o.Speed = &rwp.SpeedEvent{Value: int32(e.Val)}
		case 'r':
			o.RawAnalog = &rwp.RawAnalogEvent{Value: uint32(e.Val)}
		}
	}
	return o
}

func (m *msg) encode(ascii bool) []byte {
	if m.Full > 0 {
		c := *m
		c.Full, c.Pad = 0, m.Full
		c.Pad -= len(c.encode(false)) - 4 - m.Full
		return c.encode(ascii)
	}
	if ascii {
		return []byte(m.lines())
	}
	o := &rwp.OutboundMessage{}
	if m.Ping {
		o.FlowMessage = rwp.OutboundMessage_PING
	}
	if m.Ack {
		o.FlowMessage = rwp.OutboundMessage_ACK
	}
	for _, e := range m.split() {
		o.Events = append(o.Events, e.proto())
	}
	if m.Model != "" || m.Serial != "" || m.Name != "" {
		o.PanelInfo = &rwp.PanelInfo{Model: m.Model, Serial: m.Serial, Name: m.Name}
	}
	if m.Json != "" || m.Svg != "" || m.Pad > 0 {
		o.PanelTopology = &rwp.PanelTopology{Json: m.Json, Svgbase: m.Svg + strings.Repeat("x", m.Pad)}
	}
	if len(m.Avail) > 0 {
		o.HWCavailability = map[uint32]uint32{}
		for _, a := range m.Avail {
			o.HWCavailability[a[0]] = a[1]
		}
	}
	switch m.Noise {
	case 1:
		o.PanelInfo = &rwp.PanelInfo{Model: m.Model, Serial: m.Serial, Name: m.Name, SoftwareVersion: "v1.2"}
	case 2:
		o.SleepState = &rwp.SleepState{IsSleeping: true}
	case 3:
		o.Connections = &rwp.Connections{Connection: []string{"10.0.0.1"}}
	}
	for i, x := range extras {
		if m.Extra>>i&1 > 0 {
			x.set(o)
		}
	}
	if m.Text != "" {
		o.Message = &rwp.Message{Message: m.Text}
	}
	return frame(marshal(o))
}

func (m *msg) lines() string {
	var sb strings.Builder
	ln := func(f string, a ...any) { fmt.Fprintf(&sb, f+"\n", a...) }
	for i, x := range extras {
		if m.Extra>>i&1 > 0 && x.line != "" {
			ln("%s", x.line)
		}
	}
	if m.Model != "" {
		ln("_model=%s", m.Model)
	}
	if m.Serial != "" {
		ln("_serial=%s", m.Serial)
	}
	if m.Name != "" {
		ln("_name=%s", m.Name)
	}
	if m.Json != "" {
		ln("_panelTopology_HWC=%s", m.Json)
	}
	if m.Svg != "" || m.Pad > 0 {
		ln("_panelTopology_svgbase=%s%s", m.Svg, strings.Repeat("x", m.Pad))
	}
	for _, a := range m.Avail {
		ln("map=%d:%d", a[0], a[1])
	}
	for _, e := range m.Events {
		id := fmt.Sprintf("HWC#%d", e.ID)
		switch e.Kinds[0] {
		case 'b':
			if e.Edge > 0 {
				id += fmt.Sprintf(".%d", e.Edge)
			}
			word := "Up"
			if e.Press {
				word = "Press"
			} else if e.Pressed {
				word = "Down"
			}
			ln("%s=%s", id, word)
		case 'p':
			ln("%s=Enc:%d", id, e.Val)
		case 'a':
			ln("%s=Abs:%d", id, e.Val)
		case 's':
			ln("%s=Speed:%d", id, e.Val)
		case 'r':
			ln("%s=Raw:%d", id, e.Val)
		}
	}
	switch m.Noise {
	case 1:
		ln("_version=v1.2")
	case 2:
		ln("_isSleeping=1")
	case 3:
		sb.WriteString("\r\n")
	}
	if m.Ping {
		ln("ping")
	}
	if m.Ack {
		ln("ack")
	}
	return sb.String()
}

// split writes out presses.
func (m *msg) split() (out []event) {
	for _, e := range m.Events {
		if e.Press {
			e.Press, e.Pressed = false, true
			out = append(out, e)
			e.Pressed = false
		}
		out = append(out, e)
	}
	return
}

// lateID is the first id bound while events are flowing.
const lateID = 50

// normalise makes the message one that the mode can carry.
func (m *msg) normalise(ascii bool) {
	early := false
	for i := range m.Events {
		early = early || m.Events[i].ID < lateID
	}
	var events []event
	for _, e := range m.Events {
		if early && e.ID >= lateID && e.ID < lateID+10 {
			continue // these have messages of their own
		}
		if e.Kinds == "" {
			e.Kinds = "b"
		}
		if ascii {
			e.Kinds = e.Kinds[:1]
		}
		if e.Kinds != "b" {
			e.Press = false
		}
		if strings.ContainsAny(e.Kinds, "ar") {
			e.Val = max(e.Val, -e.Val)
		}
		events = append(events, e)
	}
	m.Events = events
	if ascii {
		m.Ack = m.Ack && len(m.Events) == 0
	} else if m.Ack {
		m.Ping = false
	}
}

// avail reads the availability, for which there is no getter.
func avail(rp *gorwp.RawPanel) (map[uint32]uint32, bool) {
	rp.State.RLock()
	defer rp.State.RUnlock()
	v := reflect.ValueOf(&rp.State).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf(map[uint32]uint32{}) {
			out := map[uint32]uint32{}
			for it := f.MapRange(); it.Next(); {
				out[uint32(it.Key().Uint())] = uint32(it.Value().Uint())
			}
			return out, true
		}
	}
	return nil, false
}

type session struct {
	rp     *gorwp.RawPanel
	p      *panel
	ctx    context.Context
	cancel context.CancelFunc
	err    error
	took   time.Duration
	done   chan struct{}
}

func listen() net.Listener {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	return l
}

// connect starts Connect and brings the panel to the point where the request has arrived.
func connect(ascii, silent bool) (*session, error) {
	l := listen()
	defer l.Close()
	s := &session{done: make(chan struct{})}
	s.ctx, s.cancel = context.WithCancel(context.Background())
	go func() {
		defer close(s.done)
		s.rp, s.err = gorwp.Connect(l.Addr().String(), s.ctx, s.cancel)
	}()
	var err error
	s.p, err = accept(l, ascii, silent)
	return s, err
}

func (s *session) end() {
	s.cancel()
	if s.p != nil {
		s.p.c.Close()
	}
}
