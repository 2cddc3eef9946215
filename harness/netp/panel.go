// Package netp checks the connection layer against scripted loopback panels.
package netp

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime/pprof"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	rapi "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"rwpverif/core"
)

// Probe is the length-prefixed ping every new connection starts with.
var Probe = Frame(mustMarshal(&rwp.InboundMessage{FlowMessage: rwp.InboundMessage_PING}))

// Ack is the reply of a binary panel.
var Ack = Frame(mustMarshal(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK}))

func mustMarshal(m proto.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// Frame prefixes the payload with its length.
func Frame(p []byte) []byte {
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(p))), p...)
}

// Callback is one call of onconnect or ondisconnect.
type Callback struct {
	Connect   bool
	Binary    bool
	ErrorMsg  string
	Cancelled bool // argument of ondisconnect
	CtxDone   bool // the context was cancelled when it was called
	At        time.Time
}

func (c Callback) String() string {
	if c.Connect {
		return fmt.Sprintf("connect(%q, binary=%v)", c.ErrorMsg, c.Binary)
	}
	return fmt.Sprintf("disconnect(%v)", c.Cancelled)
}

// Client is one running ConnectToPanel call with everything it reported.
type Client struct {
	To     chan []*rwp.InboundMessage
	from   chan []*rwp.OutboundMessage
	Cancel context.CancelFunc
	WG     sync.WaitGroup
	Done   chan struct{} // closed when ConnectToPanel returned
	label  string

	mu     sync.Mutex
	change chan struct{}
	calls  []Callback
	msgs   []*rwp.OutboundMessage
	lists  int
	nilMsg bool
	hold   chan struct{} // when set, the consumer waits for it
}

var clientNo atomic.Int64

// StartClient runs ConnectToPanel against the address.
func StartClient(addr string, cfg *rapi.ConnectToPanelConfig, useWG bool) *Client {
	return startClientQ(addr, cfg, useWG, 0)
}

func startClientQ(addr string, cfg *rapi.ConnectToPanelConfig, useWG bool, queue int) *Client {
	ctx, cancel := context.WithCancel(context.Background())
	c := &Client{
		To:     make(chan []*rwp.InboundMessage, queue),
		from:   make(chan []*rwp.OutboundMessage),
		Cancel: cancel,
		Done:   make(chan struct{}),
		change: make(chan struct{}),
		label:  fmt.Sprintf("client-%d", clientNo.Add(1)),
	}
	var wg *sync.WaitGroup
	if useWG {
		wg = &c.WG
	}
	go c.consume()
	go pprof.Do(context.Background(), pprof.Labels("rwpclient", c.label), func(context.Context) {
		rapi.ConnectToPanel(addr, c.To, c.from, ctx, wg,
			func(e string, bin bool, _ net.Conn) {
				c.note(Callback{Connect: true, ErrorMsg: e, Binary: bin, CtxDone: ctx.Err() != nil, At: time.Now()})
			},
			func(x bool) {
				c.note(Callback{Cancelled: x, CtxDone: ctx.Err() != nil, At: time.Now()})
			}, cfg)
		close(c.Done)
	})
	return c
}

func (c *Client) consume() {
	for {
		c.mu.Lock()
		h := c.hold
		c.mu.Unlock()
		if h != nil {
			<-h
		}
		select {
		case l := <-c.from:
			c.mu.Lock()
			c.lists++
			for _, m := range l {
				if m == nil {
					c.nilMsg = true
				}
				c.msgs = append(c.msgs, m)
			}
			close(c.change)
			c.change = make(chan struct{})
			c.mu.Unlock()
		case <-c.Done:
			// the call returned: whatever is delivered now comes too late,
			// but must not block a goroutine that is still there
			select {
			case l := <-c.from:
				c.mu.Lock()
				c.msgs = append(c.msgs, l...)
				c.mu.Unlock()
			case <-time.After(3 * time.Second):
				return
			}
		}
	}
}

func (c *Client) note(cb Callback) {
	c.mu.Lock()
	c.calls = append(c.calls, cb)
	close(c.change)
	c.change = make(chan struct{})
	c.mu.Unlock()
}

// Wait blocks until the condition (evaluated under the lock) holds.
func (c *Client) Wait(d time.Duration, cond func() bool) bool {
	end := time.NewTimer(d)
	defer end.Stop()
	for {
		c.mu.Lock()
		ok := cond()
		ch := c.change
		c.mu.Unlock()
		if ok {
			return true
		}
		select {
		case <-ch:
		case <-end.C:
			c.mu.Lock()
			defer c.mu.Unlock()
			return cond()
		}
	}
}

// WaitMsgs waits for n delivered messages.
func (c *Client) WaitMsgs(n int, d time.Duration) bool {
	return c.Wait(d, func() bool { return len(c.msgs) >= n })
}

// WaitCalls waits for n callbacks.
func (c *Client) WaitCalls(n int, d time.Duration) bool {
	return c.Wait(d, func() bool { return len(c.calls) >= n })
}

// Calls returns the callbacks so far.
func (c *Client) Calls() []Callback {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Callback(nil), c.calls...)
}

// Msgs returns the delivered messages so far.
func (c *Client) Msgs() []*rwp.OutboundMessage {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]*rwp.OutboundMessage(nil), c.msgs...)
}

// Hold makes the consumer of the messages pause.
func (c *Client) Hold(d time.Duration) {
	ch := make(chan struct{})
	c.mu.Lock()
	c.hold = ch
	c.mu.Unlock()
	time.AfterFunc(d, func() {
		c.mu.Lock()
		c.hold = nil
		c.mu.Unlock()
		close(ch)
	})
}

// ReturnBound is how long after the cancellation the call may still run: the
// probe window of 2 s is the longest wait that a cancellation need not cut.
const ReturnBound = 4500 * time.Millisecond

// Stop cancels and checks that the call returns and leaves nothing behind.
func (c *Client) Stop() error {
	at := time.Now()
	c.Cancel()
	select {
	case <-c.Done:
	case <-time.After(ReturnBound):
		select { // do not leave it running
		case <-c.Done:
		case <-time.After(8 * time.Second):
		}
		return core.Soft("%v after the cancellation the call has not returned (callbacks %v)", ReturnBound, c.Calls())
	}
	ok := make(chan struct{})
	go func() { c.WG.Wait(); close(ok) }()
	select {
	case <-ok:
	case <-time.After(ReturnBound):
		return core.Soft("the wait group has not drained %v after the cancellation", time.Since(at))
	}
	for i := 0; ; i++ {
		left := c.goroutines()
		if left == "" {
			break
		}
		if time.Since(at) > ReturnBound {
			return core.Soft("goroutines are left after the call returned:\n%s", left)
		}
		time.Sleep(20 * time.Millisecond)
	}
	return c.CheckCalls()
}

// goroutines lists what still runs on behalf of this client.
func (c *Client) goroutines() string {
	var sb strings.Builder
	pprof.Lookup("goroutine").WriteTo(&sb, 1)
	for _, blk := range strings.Split(sb.String(), "\n\n") {
		if strings.Contains(blk, `"rwpclient":"`+c.label+`"`) && strings.Contains(blk, "rawpanel-lib") {
			return blk
		}
	}
	return ""
}

// CheckCalls checks the rules every history of callbacks obeys.
func (c *Client) CheckCalls() error {
	calls := c.Calls()
	for i, cb := range calls {
		if cb.Connect != (i%2 == 0) {
			return fmt.Errorf("connect and disconnect do not alternate: %v", calls)
		}
		if !cb.Connect && cb.Cancelled {
			if !cb.CtxDone {
				return fmt.Errorf("callback %d reports a cancellation that has not happened: %v", i, calls)
			}
			if i != len(calls)-1 {
				return fmt.Errorf("a callback follows the cancelled disconnect: %v", calls)
			}
		}
	}
	select {
	case <-c.Done:
		if len(calls)%2 != 0 {
			return fmt.Errorf("the call returned without a disconnect for its last connect: %v", calls)
		}
	default:
	}
	return nil
}

// Panel is a listening socket.
type Panel struct {
	L    net.Listener
	Addr string
}

// NewPanel listens on a free loopback port.
func NewPanel() *Panel {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	return &Panel{l, l.Addr().String()}
}

// Close closes the listener.
func (p *Panel) Close() { p.L.Close() }

// Conn is the panel's end of one connection.
type Conn struct {
	*net.TCPConn
	At time.Time
}

// Accept waits for a connection.
func (p *Panel) Accept(d time.Duration) (*Conn, error) {
	p.L.(*net.TCPListener).SetDeadline(time.Now().Add(d))
	c, err := p.L.Accept()
	if err != nil {
		return nil, core.Soft("the client does not connect within %v: %v", d, err)
	}
	return &Conn{c.(*net.TCPConn), time.Now()}, nil
}

// ReadN reads exactly n bytes.
func (c *Conn) ReadN(n int, d time.Duration) ([]byte, error) {
	c.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, n)
	m, err := io.ReadFull(c, b)
	return b[:m], err
}

// ExpectProbe reads the probe.
func (c *Conn) ExpectProbe() error {
	b, err := c.ReadN(len(Probe), 3*time.Second)
	if err != nil {
		return core.Soft("no probe: %x, %v", b, err)
	}
	if string(b) != string(Probe) {
		return fmt.Errorf("the probe is %x, not %x", b, Probe)
	}
	return nil
}

// Quiet checks that nothing arrives for the given time.
func (c *Conn) Quiet(d time.Duration) error {
	c.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, 64)
	n, err := c.Read(b)
	if n > 0 {
		return fmt.Errorf("unexpected bytes %q", b[:n])
	}
	if !isTimeout(err) {
		return core.Soft("the connection ended: %v", err)
	}
	return nil
}

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

// WaitClosed waits until the client has closed its end; other bytes are an error.
func (c *Conn) WaitClosed(d time.Duration) error {
	c.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, 4096)
	for {
		n, err := c.Read(b)
		if n > 0 {
			return fmt.Errorf("unexpected bytes %q", b[:n])
		}
		if err != nil {
			if isTimeout(err) {
				return core.Soft("the client has not closed its socket within %v", d)
			}
			return nil
		}
	}
}

// Negotiate plays the panel's side up to the connect callback: binary with the
// acknowledge, ASCII with the ready word.
func (c *Conn) Negotiate(cl *Client, ascii bool, calls int) error {
	if err := c.ExpectProbe(); err != nil {
		return err
	}
	if ascii {
		c.Write([]byte("RDY\n"))
		b, err := c.ReadN(1, 3*time.Second)
		if err != nil || b[0] != '\n' {
			return core.Soft("an ASCII panel got %q (%v) instead of one line feed", b, err)
		}
	} else {
		c.Write(Ack)
	}
	if !cl.WaitCalls(calls, 3*time.Second) {
		return core.Soft("no connect callback: %v", cl.Calls())
	}
	last := cl.Calls()[calls-1]
	if !last.Connect || last.Binary == ascii {
		// an answer that comes too late on a busy machine has this effect too
		return core.Soft("after negotiation in ascii=%v the callback is %v", ascii, last)
	}
	return nil
}

// msgBytes is the canonical form used to compare messages.
func msgBytes(m proto.Message) string { return string(mustMarshal(m)) }

// compareMsgs checks that exactly the expected messages were delivered.
func compareMsgs(got []*rwp.OutboundMessage, want []*rwp.OutboundMessage) error {
	for i, m := range got {
		if m == nil {
			return fmt.Errorf("message %d is nil", i)
		}
		if i >= len(want) {
			return fmt.Errorf("a message too many, number %d of %d: %s", i, len(want), clipMsg(m))
		}
		if msgBytes(m) != msgBytes(want[i]) {
			return fmt.Errorf("message %d is %s, not %s", i, clipMsg(m), clipMsg(want[i]))
		}
	}
	if len(got) < len(want) {
		return core.Soft("%d of %d messages were delivered", len(got), len(want))
	}
	return nil
}

func clipMsg(m proto.Message) string {
	s := fmt.Sprintf("{%v}", m)
	if len(s) > 300 {
		s = s[:300] + fmt.Sprintf("... (%d)", len(s))
	}
	return s
}
