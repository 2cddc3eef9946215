package netp

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"time"

	rapi "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"rwpverif/conv"
	"rwpverif/core"
)

// InMsg is one message to the panel: wire bytes, or a large image.
type InMsg struct {
	Wire []byte `json:",omitempty"`
	Gfx  int    `json:",omitempty"` // image of this many bytes
}

type subCase struct {
	Ascii   bool
	Subs    [][][]InMsg // per submitter the message lists
	Pause   []int       // per submitter the pause between lists (ms)
	Traffic int         // bursts sent by the panel meanwhile
	Slow    int         // the panel starts reading after this many ms and reads in small pieces
	Hold    int         // the consumer of panel messages pauses this many ms
	Queue   int         // capacity of the channel
}

// build makes the lists; each non-empty one starts with a message of its own
// that carries a unique tag.
func (c *subCase) build() (out [][][]*rwp.InboundMessage) {
	for s, lists := range c.Subs {
		var ls [][]*rwp.InboundMessage
		for k, l := range lists {
			var ms []*rwp.InboundMessage
			for i, im := range l {
				m := &rwp.InboundMessage{}
				if im.Gfx > 0 {
					m.States = []*rwp.HWCState{{HWCIDs: []uint32{7}, HWCGfx: &rwp.HWCGfx{W: 64, H: 32, ImageData: []byte(text(im.Gfx, s*100+k))}}}
				} else if err := proto.Unmarshal(im.Wire, m); err != nil {
					panic(err)
				}
				if i == 0 {
					tag := &rwp.HWCState{HWCIDs: []uint32{uint32(1000000 + s*10000 + k)}, HWCMode: &rwp.HWCMode{State: 4}}
					ms = append(ms, &rwp.InboundMessage{States: []*rwp.HWCState{tag}})
				}
				ms = append(ms, m)
			}
			ls = append(ls, ms)
		}
		if s%2 == 0 { // the lists are parts of one array
			var all []*rwp.InboundMessage
			for _, l := range ls {
				all = append(all, l...)
			}
			n := 0
			for k := range ls {
				m := len(ls[k])
				ls[k] = all[n : n+m]
				n += m
			}
		}
		out = append(out, ls)
	}
	return
}

func checkSub(c subCase, info *core.Info) error {
	p := NewPanel()
	defer p.Close()
	cl := startClientQ(p.Addr, nil, true, c.Queue)
	defer cl.Cancel()
	conn, err := p.Accept(3 * time.Second)
	if err != nil {
		return err
	}
	defer conn.Close()
	if c.Slow > 0 {
		conn.SetReadBuffer(65536)
	}
	if err := conn.Negotiate(cl, c.Ascii, 1); err != nil {
		return err
	}
	lists := c.build()
	// what each list must look like on the wire; messages are cloned first so
	// that a writer that changes them is noticed
	type chunk struct {
		data []byte                // ascii
		msgs []*rwp.InboundMessage // binary
	}
	var want [][]chunk
	total, bytesTotal := 0, 0
	for _, ls := range lists {
		var cs []chunk
		for _, l := range ls {
			ck := chunk{}
			for _, m := range l {
				ck.msgs = append(ck.msgs, proto.Clone(m).(*rwp.InboundMessage))
				bytesTotal += proto.Size(m)
			}
			if c.Ascii {
				var sb strings.Builder
				for _, line := range rapi.InboundMessagesToRawPanelASCIIstrings(ck.msgs) {
					sb.WriteString(line + "\n")
				}
				ck.data = []byte(sb.String())
			}
			if len(l) > 0 {
				cs = append(cs, ck)
				total++
			}
		}
		want = append(want, cs)
	}
	info.LabelIf(c.Ascii, "ascii")
	info.LabelIf(!c.Ascii, "binary")
	info.LabelIf(len(c.Subs) > 1, "several submitters")
	info.LabelIf(c.Traffic > 0, "traffic from the panel")
	info.LabelIf(c.Slow > 0, "slow panel")
	info.LabelIf(c.Hold > 0, "consumer pauses")
	info.LabelIf(bytesTotal > 200000, "more than 200 kB")
	info.NonTrivial(total > 1)
	cl.Hold(time.Duration(c.Hold) * time.Millisecond)

	var wg sync.WaitGroup
	stop := make(chan struct{})
	for s := range lists {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, l := range lists[s] {
				select {
				case cl.To <- l:
				case <-stop:
					return
				}
				if s < len(c.Pause) && c.Pause[s] > 0 && k < 20 {
					time.Sleep(time.Duration(c.Pause[s]) * time.Millisecond)
				}
			}
		}()
	}
	var sent int
	wg.Add(1)
	go func() {
		defer wg.Done()
		for b := 0; b < c.Traffic; b++ {
			var buf []byte
			for i := 0; i < 20; i++ {
				if c.Ascii {
					buf = append(buf, fmt.Sprintf("HWC#%d=Down\n", b+1)...)
				} else {
					buf = append(buf, Frame(mustMarshal(&rwp.OutboundMessage{Events: []*rwp.HWCEvent{{HWCID: uint32(b + 1), Binary: &rwp.BinaryEvent{Pressed: true}}}}))...)
				}
			}
			conn.SetWriteDeadline(time.Now().Add(10 * time.Second))
			if _, err := conn.Write(buf); err != nil {
				return
			}
			sent += 20
			time.Sleep(time.Millisecond)
		}
	}()
	defer func() { close(stop); conn.Close(); cl.Cancel(); wg.Wait() }()

	// read the stream as the panel
	time.Sleep(time.Duration(c.Slow) * time.Millisecond)
	next := make([]int, len(want))
	rd := panelReader{conn, c.Slow > 0}
	hdr := make([]byte, 4)
	for left := total; left > 0; left-- {
		owner := -1
		if c.Ascii {
			// the first line tells the owner
			var first []byte
			one := make([]byte, 1)
			for {
				if _, err := io.ReadFull(rd, one); err != nil {
					return core.Soft("%d lists are missing: %v", left, err)
				}
				first = append(first, one[0])
				if one[0] == '\n' {
					break
				}
				if len(first) > 100000 {
					break
				}
			}
			for s := range want {
				if next[s] < len(want[s]) && bytes.HasPrefix(want[s][next[s]].data, first) {
					owner = s
				}
			}
			if owner < 0 {
				return fmt.Errorf("no submission that is due starts with the line %q", first)
			}
			ck := want[owner][next[owner]]
			rest := make([]byte, len(ck.data)-len(first))
			n, err := io.ReadFull(rd, rest)
			if !bytes.Equal(rest[:n], ck.data[len(first):len(first)+n]) {
				return fmt.Errorf("list %d of submitter %d is not the converter's lines: %q, want %q", next[owner], owner, clipB(rest[:n]), clipB(ck.data[len(first):]))
			}
			if err != nil {
				return core.Soft("list %d of submitter %d is incomplete: %v", next[owner], owner, err)
			}
		} else {
			var ck chunk
			for i := 0; owner < 0 || i < len(ck.msgs); i++ {
				if n, err := io.ReadFull(rd, hdr); err != nil {
					return core.Soft("%d lists are missing (header bytes %x): %v", left, hdr[:n], err)
				}
				ln := binary.LittleEndian.Uint32(hdr)
				if ln > 4000000 {
					return fmt.Errorf("a frame of length %d", ln)
				}
				payload := make([]byte, ln)
				if _, err := io.ReadFull(rd, payload); err != nil {
					return core.Soft("a frame of length %d is incomplete: %v", ln, err)
				}
				m := &rwp.InboundMessage{}
				if err := proto.Unmarshal(payload, m); err != nil {
					return fmt.Errorf("a payload of %d bytes does not decode: %v", ln, err)
				}
				if owner < 0 {
					for s := range want {
						if next[s] < len(want[s]) && proto.Equal(want[s][next[s]].msgs[0], m) {
							owner = s
						}
					}
					if owner < 0 {
						return fmt.Errorf("no submission that is due starts with %s", clipMsg(m))
					}
					ck = want[owner][next[owner]]
				} else if !proto.Equal(ck.msgs[i], m) {
					return fmt.Errorf("message %d of list %d of submitter %d is %s, want %s", i, next[owner], owner, clipMsg(m), clipMsg(ck.msgs[i]))
				}
			}
		}
		next[owner]++
	}
	conn.SetReadDeadline(time.Now().Add(40 * time.Millisecond))
	if n, err := conn.Read(hdr); n > 0 {
		return fmt.Errorf("bytes after the last submission: %q", hdr[:n])
	} else if !isTimeout(err) {
		return core.Soft("the connection ended: %v", err)
	}
	wg.Wait()
	cl.WaitMsgs(sent, 4*time.Second)
	if n := len(cl.Msgs()); n != sent {
		return core.Soft("%d of %d messages of the panel were delivered", n, sent)
	}
	for s := range lists {
		j := 0
		for _, l := range lists[s] {
			if len(l) == 0 {
				continue
			}
			for i := range l {
				if !proto.Equal(l[i], want[s][j].msgs[i]) {
					return fmt.Errorf("the submitted message was changed: %s, was %s", clipMsg(l[i]), clipMsg(want[s][j].msgs[i]))
				}
			}
			j++
		}
	}
	return cl.Stop()
}

// panelReader gives every read 8 s; a slow panel takes smaller pieces with
// pauses.
type panelReader struct {
	c    *Conn
	slow bool
}

func (p panelReader) Read(b []byte) (int, error) {
	if p.slow && len(b) > 20000 {
		b = b[:20000]
		time.Sleep(time.Millisecond)
	}
	p.c.SetReadDeadline(time.Now().Add(8 * time.Second))
	return p.c.Read(b)
}

func clipB(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

func genSub(t *rapid.T) subCase {
	c := subCase{Ascii: rapid.Bool().Draw(t, "ascii")}
	c.Queue = rapid.SampledFrom([]int{0, 0, 1, 10}).Draw(t, "queue")
	if rapid.IntRange(0, 3).Draw(t, "traffic?") > 0 {
		c.Traffic = rapid.IntRange(1, 60).Draw(t, "traffic")
	}
	if rapid.IntRange(0, 4).Draw(t, "slow?") == 0 {
		c.Slow = rapid.IntRange(1, 250).Draw(t, "slow")
	}
	if rapid.IntRange(0, 4).Draw(t, "hold?") == 0 {
		c.Hold = rapid.IntRange(1, 300).Draw(t, "hold")
	}
	subs := rapid.SampledFrom([]int{1, 1, 2, 3, 5}).Draw(t, "submitters")
	budget := 3000000
	for s := 0; s < subs; s++ {
		var lists [][]InMsg
		for n := rapid.IntRange(1, 14).Draw(t, "lists"); n > 0; n-- {
			var l []InMsg
			k := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 6}).Draw(t, "msgs")
			if rapid.IntRange(0, 14).Draw(t, "many?") == 0 {
				k = rapid.IntRange(20, 120).Draw(t, "many")
			}
			for i := 0; i < k; i++ {
				if k < 10 && rapid.IntRange(0, 7).Draw(t, "big") == 0 {
					g := rapid.OneOf(rapid.SampledFrom([]int{500, 4000, 65000, 200000, 499990, 500000, 900000}), dictInts(0, 900000)).Draw(t, "gfx")
					if c.Ascii && g > 65000 {
						g = 65000
					}
					if budget -= g; budget > 0 {
						l = append(l, InMsg{Gfx: g})
						continue
					}
				}
				if k >= 10 && i%5 != 0 {
					l = append(l, InMsg{})
					continue
				}
				l = append(l, InMsg{Wire: mustMarshal(conv.GenInbound(t))})
			}
			lists = append(lists, l)
		}
		c.Subs = append(c.Subs, lists)
		c.Pause = append(c.Pause, rapid.SampledFrom([]int{0, 0, 0, 1, 10}).Draw(t, "pause"))
	}
	return c
}

// genBack makes more than the socket buffers hold for a panel that stops
// reading for some seconds.
func genBack(t *rapid.T) subCase {
	c := subCase{Ascii: rapid.Bool().Draw(t, "ascii"), Slow: rapid.SampledFrom([]int{1200, 2600, 3500}).Draw(t, "slow")}
	c.Traffic = rapid.IntRange(0, 40).Draw(t, "traffic")
	subs := rapid.IntRange(1, 3).Draw(t, "submitters")
	for s := 0; s < subs; s++ {
		var lists [][]InMsg
		for n := 12 / subs; n > 0; n-- {
			l := []InMsg{{Gfx: 600000}}
			if c.Ascii {
				l = []InMsg{{Gfx: 65000}, {Gfx: 65000}, {Gfx: 65000}, {Gfx: 65000}, {Gfx: 65000}, {Gfx: 65000}}
			}
			for k := rapid.IntRange(0, 2).Draw(t, "more"); k > 0; k-- {
				l = append(l, InMsg{Wire: mustMarshal(conv.GenInbound(t))})
			}
			lists = append(lists, l)
		}
		c.Subs = append(c.Subs, lists)
	}
	return c
}

// genLate: submissions long after the connection was made and after the last
// traffic from the panel.
func genLate(t *rapid.T) subCase {
	c := subCase{Ascii: rapid.Bool().Draw(t, "ascii"), Traffic: rapid.IntRange(0, 8).Draw(t, "traffic")}
	for s := rapid.IntRange(1, 2).Draw(t, "submitters"); s > 0; s-- {
		var lists [][]InMsg
		for n := 3; n > 0; n-- {
			lists = append(lists, []InMsg{{Wire: mustMarshal(conv.GenInbound(t))}})
		}
		c.Subs = append(c.Subs, lists)
		c.Pause = append(c.Pause, rapid.SampledFrom([]int{2300, 3300}).Draw(t, "pause"))
	}
	return c
}

func TestC09(t *testing.T) {
	r := core.Start(t, "C09")
	defer r.Finish()
	r.NoWatch()
	core.Batch(r, "submit", core.Size{Quick: 1000, Thorough: 40000}, 8, genSub, checkSub)
	core.Batch(r, "late", core.Size{Quick: 24, Thorough: 480}, 24, genLate, checkSub)
	core.Batch(r, "backpressure", core.Size{Quick: 24, Thorough: 600}, 6, genBack, checkSub)
}
