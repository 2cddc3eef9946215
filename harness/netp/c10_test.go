package netp

import (
	"fmt"
	"runtime"
	"testing"
	"time"

	rapi "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"rwpverif/conv"
	"rwpverif/core"
)

// faultConn is what the panel does on one connection.
type faultConn struct {
	Before []Spec // valid frames before the fault
	// over: header at or above the limit; header/payload: the frame stops
	// after Stop bytes; bad: a payload that is no protobuf; none: nothing
	Fault  string
	Length uint32 // header value of the faulty frame
	Stop   int    // bytes of the faulty frame that are sent
	// the payload of a frame that stops is one text of that Length or, when
	// given, these messages one after the other (protobuf merges them, so that
	// every boundary inside ends something that decodes)
	Parts  []Spec `json:",omitempty"`
	Junk   []byte // bytes that follow an over-limit header, or a bad payload
	Pieces int    // ms between the pieces of the faulty frame, 0: one piece
	Late   int    // ms after which a stalled frame is continued, 0: never
	After  []Spec // valid frames after a bad payload
}

// broken is the whole of the frame that stops.
func (fc *faultConn) broken(ci int) []byte {
	if len(fc.Parts) > 0 {
		parts, _ := encode(fc.Parts, false)
		var p []byte
		for _, b := range parts {
			p = append(p, b[4:]...)
		}
		return Frame(p)
	}
	return Frame(mustMarshal(sized(int(fc.Length), ci)))
}

type faultCase struct {
	Conns []faultConn
}

func checkFault(c faultCase, info *core.Info) error {
	p := NewPanel()
	defer p.Close()
	cl := StartClient(p.Addr, &rapi.ConnectToPanelConfig{NoConnectionRetryPeriod: 1, ReConnectionRetryPeriod: 1}, true)
	defer cl.Cancel()
	var want []*rwp.OutboundMessage
	optional := map[int]bool{} // positions where one partial message may be delivered
	match := func() error {
		cl.Wait(time.Second, func() bool { return matchOptional(cl.msgs, want, optional) == nil })
		got := cl.Msgs()
		return matchOptional(got, want, optional)
	}
	calls := 0
	for ci, fc := range c.Conns {
		info.Label("fault: " + fc.Fault)
		info.NonTrivial(fc.Fault != "none")
		var conn *Conn
		var err error
		if conn, err = p.Accept(4 * time.Second); err != nil {
			return fmt.Errorf("connection %d: %w", ci, err)
		}
		defer conn.Close()
		calls++
		if err := conn.Negotiate(cl, false, calls); err != nil {
			return fmt.Errorf("connection %d: %w", ci, err)
		}
		send := func(specs []Spec) error {
			parts, ms := encode(specs, false)
			for _, pt := range parts {
				if _, err := conn.Write(pt); err != nil {
					return core.Soft("connection %d: the client ended it among valid frames: %v", ci, err)
				}
			}
			want = append(want, flat(ms)...)
			return nil
		}
		arrived := func() error {
			cl.Wait(3*time.Second, func() bool { return matchOptional(cl.msgs, want, optional) == nil })
			time.Sleep(20 * time.Millisecond)
			if err := match(); err != nil {
				return fmt.Errorf("connection %d: %w", ci, err)
			}
			if n := len(cl.Calls()); n != calls {
				return core.Soft("connection %d ended among valid frames: %v", ci, cl.Calls())
			}
			return nil
		}
		if err := send(fc.Before); err != nil {
			return err
		}
		switch fc.Fault {
		case "none", "bad":
			if fc.Fault == "bad" {
				m := &rwp.OutboundMessage{}
				if proto.Unmarshal(fc.Junk, m) != nil {
					optional[len(want)] = true
					info.Label("payload does not decode")
				} else {
					want = append(want, m)
					info.LabelIf(len(fc.Junk) == 0, "empty payload")
				}
				f := Frame(fc.Junk)
				if fc.Pieces > 0 && len(f) > 6 {
					conn.Write(f[:5])
					time.Sleep(time.Duration(fc.Pieces) * time.Millisecond)
					f = f[5:]
				}
				if _, err := conn.Write(f); err != nil {
					return core.Soft("connection %d: %v", ci, err)
				}
			}
			if err := send(fc.After); err != nil {
				return err
			}
			if err := arrived(); err != nil {
				return err
			}
			if ci < len(c.Conns)-1 {
				conn.Close()
			} else {
				return cl.Stop()
			}
		default:
			// the broken frame
			var f []byte
			if fc.Fault == "over" {
				f = append(Frame(nil), fc.Junk...)
				f[0], f[1], f[2], f[3] = byte(fc.Length), byte(fc.Length>>8), byte(fc.Length>>16), byte(fc.Length>>24)
			} else {
				f = fc.broken(ci)
				if f = f[:min(fc.Stop, len(f)-1)]; len(f) > 4 && proto.Unmarshal(f[4:], &rwp.OutboundMessage{}) == nil {
					info.Label("the part that arrived would decode")
				}
				if len(f) == 0 {
					f = f[:1]
				}
			}
			rest := f
			if fc.Pieces > 0 && len(f) > 1 {
				conn.Write(f[:1])
				time.Sleep(time.Duration(fc.Pieces) * time.Millisecond)
				rest = f[1:]
			}
			conn.Write(rest) // may fail when the client has already dropped us
			sentAt := time.Now()
			limit := time.Second
			if fc.Fault != "over" {
				limit = 2700 * time.Millisecond
			}
			if fc.Late > 0 && fc.Fault != "over" { // continue after the timeout
				full := fc.broken(ci)
				tail := append(append([]byte{}, full[len(f):]...), Frame(mustMarshal(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_HELLO}))...)
				timer := time.AfterFunc(time.Duration(fc.Late)*time.Millisecond, func() { conn.Write(tail) })
				defer timer.Stop()
				info.Label("frame continued after the timeout")
			}
			if !cl.WaitCalls(calls+1, limit) {
				return core.Soft("connection %d: no disconnect %v after a broken frame (%s, length %d, %d bytes sent): %v", ci, time.Since(sentAt).Round(time.Millisecond), fc.Fault, fc.Length, len(f), cl.Calls())
			}
			// the client must not have given up too early on a frame that is only slow
			if fc.Fault != "over" && time.Since(sentAt) < 300*time.Millisecond && fc.Pieces == 0 {
				return core.Soft("connection %d: dropped only %v after the last byte", ci, time.Since(sentAt))
			}
			if err := conn.WaitClosed(time.Second); err != nil {
				return fmt.Errorf("connection %d: %w", ci, err)
			}
		}
		calls++
		if !cl.WaitCalls(calls, 3*time.Second) {
			return core.Soft("connection %d: no disconnect: %v", ci, cl.Calls())
		}
		if cb := cl.Calls()[calls-1]; cb.Connect || cb.Cancelled {
			return fmt.Errorf("connection %d: the callback after the fault is %v", ci, cb)
		}
		if err := match(); err != nil {
			return fmt.Errorf("connection %d: %w", ci, err)
		}
	}
	// it reconnects and works
	conn, err := p.Accept(4 * time.Second)
	if err != nil {
		return fmt.Errorf("after the last fault: %w", err)
	}
	defer conn.Close()
	if err := conn.Negotiate(cl, false, calls+1); err != nil {
		return fmt.Errorf("after the last fault: %w", err)
	}
	conn.Write(Frame(mustMarshal(sized(33, 1))))
	want = append(want, sized(33, 1))
	cl.Wait(3*time.Second, func() bool { return matchOptional(cl.msgs, want, optional) == nil })
	if err := match(); err != nil {
		return fmt.Errorf("after the last fault: %w", err)
	}
	return cl.Stop()
}

// matchOptional compares, allowing one extra message at the marked positions
// (a frame whose payload does not decode may or may not give a message).
func matchOptional(got, want []*rwp.OutboundMessage, optional map[int]bool) error {
	var rec func(g, w int, used bool) bool
	rec = func(g, w int, used bool) bool {
		if g == len(got) && w == len(want) {
			return true
		}
		if w < len(want) && g < len(got) && got[g] != nil && msgBytes(got[g]) == msgBytes(want[w]) && rec(g+1, w+1, false) {
			return true
		}
		if optional[w] && !used && g < len(got) && got[g] != nil && rec(g+1, w, true) {
			return true
		}
		return false
	}
	if len(optional) == 0 {
		return compareMsgs(got, want)
	}
	if rec(0, 0, false) {
		return nil
	}
	err := fmt.Errorf("%d messages were delivered where %d valid ones were sent around payloads that do not decode", len(got), len(want))
	if len(got) < len(want) {
		return core.Soft("%v", err)
	}
	return err
}

func genFaultConn(t *rapid.T, last bool) faultConn {
	fc := faultConn{}
	small := func(n int) []Spec {
		if rapid.Bool().Draw(t, "none") {
			return nil
		}
		return genSpecs(t, false, n, false)
	}
	fc.Before = small(4)
	kinds := []string{"over", "over", "header", "payload", "bad", "bad"}
	fc.Fault = rapid.SampledFrom(kinds).Draw(t, "fault")
	switch fc.Fault {
	case "over":
		fc.Length = genOver().Draw(t, "length")
		fc.Junk = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "junk")
		if rapid.Bool().Draw(t, "framesInside") { // bytes that look like frames must not be delivered
			fc.Junk = append(fc.Junk, Frame(mustMarshal(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK}))...)
		}
		fc.Pieces = rapid.SampledFrom([]int{0, 0, 5, 300}).Draw(t, "pieces")
	case "header":
		fc.Length = rapid.SampledFrom([]uint32{0, 2, 10, 300, 70000, 499999}).Draw(t, "length")
		fc.Stop = rapid.IntRange(1, 3).Draw(t, "stop")
		fc.Late = rapid.SampledFrom([]int{0, 0, 3000}).Draw(t, "late")
	case "payload":
		fc.Length = rapid.OneOf(rapid.SampledFrom([]uint32{2, 8, 10, 300, 5000, 70000, 499999}), rapid.Uint32Range(2, 499999), rapid.Map(core.Ints(2, 499999), func(i int64) uint32 { return uint32(i) })).Draw(t, "length")
		switch rapid.IntRange(0, 3).Draw(t, "where") {
		case 0:
			fc.Stop = 4
		case 1:
			fc.Stop = int(fc.Length) + 3
		default:
			fc.Stop = rapid.IntRange(4, int(fc.Length)+3).Draw(t, "stop")
		}
		if rapid.IntRange(0, 2).Draw(t, "parts?") == 0 {
			fc.Parts = genSpecs(t, false, 4, false)
			if n, starts := streamLen(fc.Parts, false); n-4*len(starts) < 2 {
				fc.Parts = []Spec{{Kind: "multi", N: 3}}
			}
			f := fc.broken(0)
			fc.Length = uint32(len(f) - 4)
			fc.Stop = rapid.IntRange(4, len(f)-1).Draw(t, "inside")
			for try := 0; try < 20 && proto.Unmarshal(f[4:fc.Stop], &rwp.OutboundMessage{}) != nil; try++ {
				fc.Stop = rapid.IntRange(4, len(f)-1).Draw(t, "boundary")
			}
		}
		fc.Pieces = rapid.SampledFrom([]int{0, 0, 0, 200}).Draw(t, "pieces")
		fc.Late = rapid.SampledFrom([]int{0, 0, 3000}).Draw(t, "late")
	case "bad":
		fc.Junk = genJunk(t)
		fc.Pieces = rapid.SampledFrom([]int{0, 0, 5, 300}).Draw(t, "pieces")
		fc.After = genSpecs(t, false, 4, false)
	}
	return fc
}

func genOver() *rapid.Generator[uint32] {
	return rapid.OneOf(
		rapid.SampledFrom([]uint32{500000, 500001, 524288, 1 << 20, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<31 + 10, 1<<32 - 1, 1<<32 - 4, 0x20202020, 0x50545448}),
		rapid.Map(core.Ints(500000, 1<<32-1), func(i int64) uint32 { return uint32(i) }),
		rapid.Uint32Range(500000, 1<<32-1))
}

func genJunk(t *rapid.T) []byte {
	switch rapid.IntRange(0, 5).Draw(t, "junkKind") {
	case 0:
		return nil
	case 1:
		return rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "junk")
	case 2: // a valid message cut short
		b := mustMarshal(conv.GenOutbound(t))
		if len(b) > 1 {
			b = b[:rapid.IntRange(1, len(b)-1).Draw(t, "cut")]
		}
		return b
	case 3: // many bytes
		return []byte(text(rapid.IntRange(1000, 120000).Draw(t, "n"), 3))
	case 4: // a payload that itself looks like a frame
		return Frame(Frame(mustMarshal(&rwp.OutboundMessage{FlowMessage: rwp.OutboundMessage_ACK})))
	default:
		b := append([]byte{}, mustMarshal(conv.GenOutbound(t))...)
		if len(b) > 0 {
			b[rapid.IntRange(0, len(b)-1).Draw(t, "flip")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		}
		return b
	}
}

func genFault(max int) func(t *rapid.T) faultCase {
	return func(t *rapid.T) faultCase {
		c := faultCase{}
		n := rapid.IntRange(1, max).Draw(t, "conns")
		for i := 0; i < n; i++ {
			c.Conns = append(c.Conns, genFaultConn(t, i == n-1))
		}
		return c
	}
}

// memCase announces lengths; the memory the client takes must not follow them.
type memCase struct {
	Lengths []uint32
	Ascii   bool
}

func checkMem(c memCase, info *core.Info) error {
	p := NewPanel()
	defer p.Close()
	cl := StartClient(p.Addr, &rapi.ConnectToPanelConfig{NoConnectionRetryPeriod: 1, ReConnectionRetryPeriod: 1}, true)
	defer cl.Cancel()
	info.NonTrivial(true)
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	for i, l := range c.Lengths {
		conn, err := p.Accept(4 * time.Second)
		if err != nil {
			return err
		}
		defer conn.Close()
		if err := conn.Negotiate(cl, false, 2*i+1); err != nil {
			return err
		}
		conn.Write([]byte{byte(l), byte(l >> 8), byte(l >> 16), byte(l >> 24), 1, 2, 3})
		if !cl.WaitCalls(2*i+2, time.Second) {
			return core.Soft("no disconnect after the length %d", l)
		}
	}
	runtime.ReadMemStats(&after)
	if d := after.TotalAlloc - before.TotalAlloc; d > 8<<20 {
		return fmt.Errorf("%d bytes were allocated for lengths %v", d, c.Lengths)
	}
	return cl.Stop()
}

func TestC10(t *testing.T) {
	r := core.Start(t, "C10")
	defer r.Finish()
	r.NoWatch()
	// one after the other, so that the allocations belong to the case
	var mem []memCase
	for _, l := range []uint32{500000, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 0x44332211, 600000} {
		mem = append(mem, memCase{Lengths: []uint32{l}})
	}
	core.BatchList(r, "memory", 1, mem, checkMem)
	// every stop position in the header and in short payloads
	var all []faultCase
	for _, l := range []uint32{0, 2, 10, 300, 499999} {
		for stop := 1; stop <= 3; stop++ {
			all = append(all, faultCase{[]faultConn{{Before: []Spec{{Kind: "event", N: 3}}, Fault: "header", Length: l, Stop: stop}}})
		}
	}
	for stop := 4; stop < 4+12; stop++ {
		all = append(all, faultCase{[]faultConn{{Before: []Spec{{Kind: "event", N: 3}, {Kind: "size", N: 50}}, Fault: "payload", Length: 12, Stop: stop}}})
	}
	multi := faultConn{Before: []Spec{{Kind: "event", N: 3}}, Fault: "payload", Parts: []Spec{{Kind: "multi", N: 3}, {Kind: "size", N: 6}}}
	multi.Length = uint32(len(multi.broken(0)) - 4)
	for multi.Stop = 4; multi.Stop < 4+int(multi.Length); multi.Stop++ {
		all = append(all, faultCase{[]faultConn{multi}})
	}
	for _, l := range []uint32{500000, 500001, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1} {
		for _, before := range [][]Spec{nil, {{Kind: "size", N: 20}}} {
			all = append(all, faultCase{[]faultConn{{Before: before, Fault: "over", Length: l, Junk: Ack}}})
		}
	}
	all = append(all, faultCase{[]faultConn{{Before: []Spec{{Kind: "size", N: 499999}, {Kind: "size", N: 499998}}, Fault: "none"}}})
	core.BatchList(r, "positions", 40, all, checkFault)
	core.Batch(r, "faults", core.Size{Quick: 240, Thorough: 8000}, 40, genFault(3), checkFault)
}
