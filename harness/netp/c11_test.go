package netp

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	rapi "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"pgregory.net/rapid"
	"rwpverif/core"
)

// lifeConn is one connection of the panel's script.
type lifeConn struct {
	Ascii bool
	Msgs  []Spec
	Drop  int // the panel drops the connection after this many bytes of the stream
	// how: fin, rst; mute: the panel neither answers the probe nor drops
	How  string
	Wait int // ms between the last byte and the drop
	Down int // the panel's port is closed for this many ms after the drop
}

// lifeCase is a history of connections that ends with a cancellation.
type lifeCase struct {
	Absent int // the panel's port is closed for this many ms first
	NoConn int // config: retry period without a connection (0: default of 3 s)
	ReConn int // config: retry period after a loss (0: default of 1 s)
	NoCfg  bool
	NoWG   bool
	Conns  []lifeConn
	// Cancel tells when the context is cancelled:
	//  start: at once    absent: while the panel refuses    stuck: while the dial hangs
	//  mute: during negotiation     idle: connected         frame: inside a frame
	//  retry: between a loss and the next attempt           write: while a write blocks
	//  eof: right after the panel dropped
	Cancel string
	Delay  int // ms after entering that phase
	Load   int // lists submitted by a goroutine throughout
}

var reserved atomic.Uint32

// reserve finds a port nobody listens on. It is one of a loopback address of
// its own: a port of 127.0.0.1 could be given to the panel of another case
// meanwhile, or the dialling socket itself could get it.
func reserve() string {
	n := reserved.Add(1)
	l, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 20+os.Getpid()%200, n>>8&255, n&255|1))
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

// stuckPanel listens with a full backlog, so that a dial hangs.
func stuckPanel() (string, func(), error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return "", nil, err
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		syscall.Close(fd)
		return "", nil, err
	}
	if err := syscall.Listen(fd, 0); err != nil {
		syscall.Close(fd)
		return "", nil, err
	}
	sa, _ := syscall.Getsockname(fd)
	addr := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	var fill []net.Conn
	done := func() {
		for _, c := range fill {
			c.Close()
		}
		syscall.Close(fd)
	}
	for i := 0; i < 8; i++ {
		c, err := net.DialTimeout("tcp", addr, 300*time.Millisecond)
		if err != nil {
			return addr, done, nil
		}
		fill = append(fill, c)
	}
	done()
	return "", nil, os.ErrInvalid
}

func checkLife(c lifeCase, info *core.Info) error {
	info.NonTrivial(true)
	info.Label("cancel: " + c.Cancel)
	noConn, reConn := 3*time.Second, time.Second
	var cfg *rapi.ConnectToPanelConfig
	if !c.NoCfg {
		cfg = &rapi.ConnectToPanelConfig{NoConnectionRetryPeriod: c.NoConn, ReConnectionRetryPeriod: c.ReConn}
		if c.NoConn != 0 {
			noConn = time.Duration(c.NoConn) * time.Second
		}
		if c.ReConn != 0 {
			reConn = time.Duration(c.ReConn) * time.Second
		}
	}
	if c.Cancel == "stuck" {
		addr, done, err := stuckPanel()
		if err != nil {
			info.Label("the backlog could not be filled")
			return nil
		}
		defer done()
		cl := StartClient(addr, cfg, !c.NoWG)
		defer cl.Cancel()
		time.Sleep(time.Duration(c.Delay) * time.Millisecond)
		return cl.Stop()
	}
	if c.Absent > 0 || c.Cancel == "absent" {
		addr := reserve()
		began := time.Now()
		cl := StartClient(addr, cfg, !c.NoWG)
		defer cl.Cancel()
		defer load(cl, c.Load)()
		if c.Cancel == "absent" {
			time.Sleep(time.Duration(c.Delay) * time.Millisecond)
			if n := len(cl.Calls()); n != 0 {
				return fmt.Errorf("callbacks without a connection: %v", cl.Calls())
			}
			return cl.Stop()
		}
		time.Sleep(time.Duration(c.Absent) * time.Millisecond)
		l, err := net.Listen("tcp", addr)
		if err != nil {
			return nil // somebody else took the port
		}
		p := &Panel{l, addr}
		info.Label("panel appears late")
		var earliest time.Time
		if c.Absent >= 300 && c.Load == 0 { // a submission makes it try at once
			earliest = began.Add(noConn - 150*time.Millisecond)
		}
		// the next attempt after the port is open
		n := time.Since(began)/noConn + 1
		return life(c, p, cl, earliest, time.Until(began.Add(n*noConn))+1500*time.Millisecond, noConn, reConn, info)
	}
	p := NewPanel()
	for _, lc := range c.Conns {
		if lc.Down > 0 { // a port that it can have again
			p.Close()
			addr := reserve()
			l, err := net.Listen("tcp", addr)
			if err != nil {
				return nil
			}
			p = &Panel{l, addr}
			break
		}
	}
	cl := StartClient(p.Addr, cfg, !c.NoWG)
	defer cl.Cancel()
	defer load(cl, c.Load)()
	return life(c, p, cl, time.Time{}, 2*time.Second, noConn, reConn, info)
}

// load submits lists all the time.
func load(cl *Client, n int) func() {
	stop := make(chan struct{})
	end := make(chan struct{})
	go func() {
		defer close(end)
		for i := 0; i < n; i++ {
			select {
			case cl.To <- []*rwp.InboundMessage{{States: []*rwp.HWCState{{HWCIDs: []uint32{1}, HWCMode: &rwp.HWCMode{State: 4}}}}}:
			case <-stop:
				return
			}
			time.Sleep(3 * time.Millisecond)
		}
	}()
	return func() { close(stop); <-end }
}

// drain reads and ignores what the client sends.
func drain(conn *Conn) chan struct{} {
	ch := make(chan struct{})
	conn.SetReadDeadline(time.Time{})
	go func() {
		b := make([]byte, 65536)
		for {
			if _, err := conn.Read(b); err != nil {
				close(ch)
				return
			}
		}
	}()
	return ch
}

func life(c lifeCase, p *Panel, cl *Client, earliest time.Time, firstWait, noConn, reConn time.Duration, info *core.Info) error {
	defer func() { p.Close() }()
	delay := time.Duration(c.Delay) * time.Millisecond
	if c.Cancel == "start" {
		time.Sleep(delay)
		return cl.Stop()
	}
	var want []*rwp.OutboundMessage
	calls := 0
	wait := firstWait
	var lost time.Time
	var closed []chan struct{}
	accept := func() (*Conn, error) {
		conn, err := p.Accept(wait)
		if err != nil {
			return nil, err
		}
		if conn.At.Before(earliest) {
			return nil, core.Soft("the client tries again %v before the retry period of %v is over", earliest.Sub(conn.At), noConn)
		}
		if !lost.IsZero() {
			if d := conn.At.Sub(lost); d < reConn-150*time.Millisecond {
				return nil, fmt.Errorf("the client reconnects after %v, the retry period is %v", d, reConn)
			}
		}
		return conn, nil
	}
	negotiate := func(conn *Conn, ascii bool) error {
		if err := conn.Negotiate(cl, ascii, calls+1); err != nil {
			return err
		}
		calls++
		closed = append(closed, drain(conn))
		return nil
	}
	// finish cancels in the phase the script is in and checks the end
	finish := func(expectConnected bool) error {
		if err := cl.Stop(); err != nil {
			return err
		}
		for i, ch := range closed {
			select {
			case <-ch:
			case <-time.After(time.Second):
				return core.Soft("the socket of connection %d is still open after the call returned", i)
			}
		}
		if expectConnected {
			cs := cl.Calls()
			if n := len(cs); n == 0 || cs[n-1].Connect || !cs[n-1].Cancelled {
				return core.Soft("cancelled while connected, the callbacks are %v", cs)
			}
		}
		time.Sleep(20 * time.Millisecond)
		w := want
		if got := len(cl.Msgs()); c.Cancel == "eof" && got < len(want) {
			w = want[:got] // cancelled before the client has read everything
		}
		if err := compareMsgs(cl.Msgs(), w); err != nil {
			return err
		}
		return cl.CheckCalls()
	}
	for ci, lc := range c.Conns {
		conn, err := accept()
		if err != nil {
			return fmt.Errorf("connection %d: %w", ci, err)
		}
		defer conn.Close()
		lastOne := ci == len(c.Conns)-1
		if lc.How == "mute" {
			if err := conn.ExpectProbe(); err != nil {
				return fmt.Errorf("connection %d: %w", ci, err)
			}
			info.Label("silent panel")
			if lastOne && c.Cancel == "mute" {
				time.Sleep(delay)
				closed = append(closed, drain(conn))
				return finish(false)
			}
			// drops during negotiation: the client may or may not call back
			time.Sleep(time.Duration(lc.Wait) * time.Millisecond)
			conn.Close()
			lost = time.Now()
			wait = reConn + 5*time.Second
			cl.Wait(5*time.Second, func() bool { return len(cl.calls) == calls+2 })
			if n := len(cl.Calls()); n == calls+1 {
				return core.Soft("connection %d: lost during negotiation, connect was reported but no disconnect", ci)
			} else {
				calls = n
			}
			lost = time.Time{}
			continue
		}
		if err := negotiate(conn, lc.Ascii); err != nil {
			return fmt.Errorf("connection %d: %w", ci, err)
		}
		parts, ms := encode(lc.Msgs, lc.Ascii)
		stream := bytes.Join(parts, nil)
		drop := min(lc.Drop, len(stream))
		if lc.Drop < 0 {
			drop = len(stream)
		}
		off := 0
		partial := false
		for i, pt := range parts {
			if off+len(pt) <= drop {
				want = append(want, ms[i]...)
			} else if off < drop {
				partial = true
			}
			off += len(pt)
		}
		info.LabelIf(partial, "drop inside a message")
		info.LabelIf(lc.Ascii, "ascii")
		info.LabelIf(!lc.Ascii, "binary")
		info.LabelIf(calls > 1, "after a reconnect")
		if _, err := conn.Write(stream[:drop]); err != nil {
			return core.Soft("connection %d: %v", ci, err)
		}
		if lastOne && (c.Cancel == "idle" || c.Cancel == "frame") {
			if !cl.WaitMsgs(len(want), 3*time.Second) {
				return core.Soft("connection %d: %d of %d messages", ci, len(cl.Msgs()), len(want))
			}
			time.Sleep(delay)
			return finish(delay < 1500*time.Millisecond || (c.Cancel == "idle" && !partial))
		}
		time.Sleep(time.Duration(lc.Wait) * time.Millisecond)
		if lc.How == "rst" {
			// the kernel may discard what the client has not read yet
			cl.WaitMsgs(len(want), 3*time.Second)
			conn.SetLinger(0)
			info.Label("connection reset")
		}
		lost = time.Now()
		conn.Close()
		wait = reConn + 1500*time.Millisecond
		if lc.Ascii {
			wait += time.Second
		}
		if lc.Down > 0 && !(lastOne && (c.Cancel == "eof" || c.Cancel == "retry")) {
			info.Label("the panel is gone for a while")
			p.Close()
			time.Sleep(time.Duration(lc.Down) * time.Millisecond)
			l, err := net.Listen("tcp", p.Addr)
			if err != nil {
				return nil
			}
			p = &Panel{l, p.Addr}
			wait += noConn
		}
		if lastOne && c.Cancel == "eof" {
			time.Sleep(delay)
			return finish(false)
		}
		if !cl.WaitCalls(calls+1, 3*time.Second) {
			return core.Soft("connection %d: no disconnect was reported: %v", ci, cl.Calls())
		}
		calls++
		if cb := cl.Calls()[calls-1]; cb.Connect || cb.Cancelled {
			return fmt.Errorf("connection %d: after the loss the callback is %v", ci, cb)
		}
		cl.WaitMsgs(len(want), time.Second)
		if err := compareMsgs(cl.Msgs(), want); err != nil {
			return fmt.Errorf("connection %d: %w", ci, err)
		}
		if lastOne && c.Cancel == "retry" {
			time.Sleep(delay)
			before := len(cl.Calls())
			connected := before != calls
			if err := finish(false); err != nil {
				return err
			}
			if !connected && len(cl.Calls()) > before {
				return core.Soft("cancelled in the retry wait, then %v", cl.Calls()[before:])
			}
			return nil
		}
	}
	// one more connection that works, then the end
	conn, err := accept()
	if err != nil {
		return fmt.Errorf("last connection: %w", err)
	}
	defer conn.Close()
	if c.Cancel == "write" {
		// the panel does not read: a large submission blocks in the socket
		if err := conn.Negotiate(cl, false, calls+1); err != nil {
			return err
		}
		calls++
		conn.SetReadBuffer(65536)
		stop := make(chan struct{})
		defer close(stop)
		go func() {
			for i := 0; i < 40; i++ {
				select {
				case cl.To <- []*rwp.InboundMessage{{States: []*rwp.HWCState{{HWCIDs: []uint32{7}, HWCGfx: &rwp.HWCGfx{ImageData: make([]byte, 480000)}}}}}:
				case <-stop:
					return
				}
			}
		}()
		time.Sleep(400*time.Millisecond + delay)
		if err := finish(true); err != nil {
			return err
		}
		// reading what is in the buffers shows whether the socket was closed
		ch := drain(conn)
		select {
		case <-ch:
		case <-time.After(10 * time.Second):
			return core.Soft("the socket is still open after the call returned")
		}
		return nil
	}
	if err := negotiate(conn, false); err != nil {
		return fmt.Errorf("last connection: %w", err)
	}
	conn.Write(Frame(mustMarshal(sized(33, 1))))
	want = append(want, sized(33, 1))
	cl.WaitMsgs(len(want), 3*time.Second)
	if err := compareMsgs(cl.Msgs(), want); err != nil {
		return fmt.Errorf("last connection: %w", err)
	}
	return finish(true)
}

func genLifeConn(t *rapid.T) lifeConn {
	lc := lifeConn{Ascii: rapid.Bool().Draw(t, "ascii")}
	lc.Msgs = genSpecs(t, lc.Ascii, 4, false)
	n, starts := streamLen(lc.Msgs, lc.Ascii)
	switch rapid.IntRange(0, 3).Draw(t, "dropAt") {
	case 0:
		lc.Drop = rapid.SampledFrom(append(starts, n)).Draw(t, "boundary")
	case 1:
		lc.Drop = rapid.SampledFrom(starts).Draw(t, "near") + rapid.IntRange(0, 6).Draw(t, "off")
	default:
		lc.Drop = rapid.IntRange(0, n).Draw(t, "drop")
	}
	lc.How = rapid.SampledFrom([]string{"fin", "fin", "rst"}).Draw(t, "how")
	lc.Wait = rapid.SampledFrom([]int{0, 0, 1, 20, 300}).Draw(t, "wait")
	if rapid.IntRange(0, 7).Draw(t, "down?") == 0 {
		lc.Down = rapid.SampledFrom([]int{50, 1100, 2500}).Draw(t, "down")
	}
	return lc
}

func genLife(t *rapid.T) lifeCase {
	c := lifeCase{NoConn: 1, ReConn: 1}
	if rapid.IntRange(0, 5).Draw(t, "nocfg") == 0 {
		c.NoCfg = true
	} else {
		c.ReConn = rapid.SampledFrom([]int{0, 1, 1, 1, 2}).Draw(t, "reconn")
	}
	c.NoWG = rapid.IntRange(0, 6).Draw(t, "nowg") == 0
	if rapid.Bool().Draw(t, "load?") {
		c.Load = 2000
	}
	for n := rapid.IntRange(0, 2).Draw(t, "conns"); n > 0; n-- {
		c.Conns = append(c.Conns, genLifeConn(t))
	}
	delays := rapid.SampledFrom([]int{0, 0, 1, 5, 50, 200, 700})
	c.Delay = delays.Draw(t, "delay")
	kinds := []string{"end", "end", "idle", "idle", "frame", "retry", "retry", "eof", "mute", "start", "write", "absent", "stuck"}
	c.Cancel = rapid.SampledFrom(kinds).Draw(t, "cancel")
	switch c.Cancel {
	case "idle", "frame", "retry", "eof", "mute":
		lc := genLifeConn(t)
		n, starts := streamLen(lc.Msgs, lc.Ascii)
		switch c.Cancel {
		case "idle":
			lc.Drop = n
		case "frame":
			last := starts[len(starts)-1]
			lc.Drop = last + rapid.IntRange(1, max(1, n-last-1)).Draw(t, "inside")
		case "mute":
			lc.How = "mute"
			c.Delay = rapid.SampledFrom([]int{0, 1, 300, 1500, 1980, 2000, 2020}).Draw(t, "muteDelay")
		case "retry":
			c.ReConn, c.NoCfg = rapid.SampledFrom([]int{1, 8, 20}).Draw(t, "longRetry"), false
			if len(c.Conns) > 1 {
				c.Conns = c.Conns[:1]
			}
			if c.ReConn > 1 {
				c.Conns = nil
			}
		}
		c.Conns = append(c.Conns, lc)
	case "absent":
		c.NoConn = rapid.SampledFrom([]int{1, 8, 20, 0}).Draw(t, "noconn")
		c.Conns = nil
	case "stuck", "start":
		c.Conns = nil
	default:
		if rapid.IntRange(0, 3).Draw(t, "late") == 0 {
			c.Absent = rapid.IntRange(1, 1500).Draw(t, "absent")
			c.NoConn = rapid.SampledFrom([]int{1, 1, 2, 5, 0}).Draw(t, "noconn")
		}
		if c.Absent == 0 { // it must not matter for a panel that is there
			c.NoConn = rapid.SampledFrom([]int{0, 1, 9, 30}).Draw(t, "noconn")
			for _, lc := range c.Conns {
				if lc.Down > 0 {
					c.NoConn = min(c.NoConn, 2)
				}
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "muteFirst") == 0 {
			c.Conns = append([]lifeConn{{How: "mute", Wait: rapid.SampledFrom([]int{0, 100, 1900}).Draw(t, "muteWait")}}, c.Conns...)
		}
	}
	return c
}

func TestC11(t *testing.T) {
	r := core.Start(t, "C11")
	defer r.Finish()
	r.NoWatch()
	// every offset of short streams in both modes
	var all []lifeCase
	for _, ascii := range []bool{false, true} {
		specs := []Spec{{Kind: "event", N: 5}, {Kind: "size", N: 0}, {Kind: "multi", N: 3}}
		if ascii {
			specs = []Spec{{Kind: "event", N: 5, CRLF: true}, {Kind: "line", Line: "ping"}, {Kind: "event", N: 9}}
		}
		n, _ := streamLen(specs, ascii)
		for k := 0; k <= n; k++ {
			how := "fin"
			if k%5 == 4 {
				how = "rst"
			}
			all = append(all, lifeCase{NoConn: 1, ReConn: 1, Conns: []lifeConn{{Ascii: ascii, Msgs: specs, Drop: k, How: how}}, Cancel: "end"})
			all = append(all, lifeCase{NoConn: 1, ReConn: 9, Conns: []lifeConn{{Ascii: ascii, Msgs: specs, Drop: k, How: how}}, Cancel: "frame"})
		}
	}
	// each phase at several moments
	for _, d := range []int{0, 1, 20, 500, 1500} {
		for _, ph := range []string{"start", "absent", "stuck", "write"} {
			all = append(all, lifeCase{NoConn: 9, ReConn: 9, Cancel: ph, Delay: d})
		}
		lc := lifeConn{Msgs: []Spec{{Kind: "event", N: 5}}, Drop: -1, How: "fin"}
		for _, asc := range []bool{false, true} {
			lc.Ascii = asc
			for _, ph := range []string{"idle", "retry", "eof"} {
				all = append(all, lifeCase{NoConn: 9, ReConn: 9, Cancel: ph, Delay: d, Conns: []lifeConn{lc}})
			}
		}
		lc.How = "mute"
		all = append(all, lifeCase{NoConn: 9, ReConn: 9, Cancel: "mute", Delay: d, Conns: []lifeConn{lc}})
	}
	// the retry periods
	for _, n := range []int{0, 1, 2, 4, 7} {
		for _, absent := range []int{300, 1300} {
			all = append(all, lifeCase{NoConn: n, ReConn: 1, Absent: absent, Cancel: "end"})
		}
		for _, m := range []int{0, 1, 3} {
			lc := lifeConn{Msgs: []Spec{{Kind: "event", N: 5}}, Drop: -1, How: "fin", Down: 1200}
			lc2 := lc
			lc2.Ascii, lc2.Down = true, 0
			all = append(all, lifeCase{NoConn: n, ReConn: m, Conns: []lifeConn{lc, lc2}, Cancel: "end"})
		}
	}
	all = append(all, lifeCase{NoCfg: true, Absent: 500, Cancel: "end"})
	// the period stays the same
	all = append(all, lifeCase{NoConn: 1, ReConn: 1, Absent: 6300, Cancel: "end"}, lifeCase{NoConn: 2, ReConn: 1, Absent: 12300, Cancel: "end"})
	for _, ascii := range []bool{false, true} {
		many := lifeCase{NoConn: 1, ReConn: 1, Cancel: "end"}
		for k := 0; k < 9; k++ {
			many.Conns = append(many.Conns, lifeConn{Ascii: ascii != (k%4 == 3), Msgs: []Spec{{Kind: "event", N: k + 1}}, Drop: -1, How: "fin"})
		}
		all = append(all, many)
	}
	core.BatchList(r, "moments", 50, all, checkLife)
	core.Batch(r, "histories", core.Size{Quick: 440, Thorough: 14000}, 40, genLife, checkLife)
}
