package gorw

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/SKAARHOJ/rawpanel-lib/gorwp"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"github.com/SKAARHOJ/rawpanel-lib/topology"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"rwpverif/core"
)

// bindings of a case
type binding struct {
	ID       uint32
	Kind     string // b p a s t
	Feedback int    // messages sent per call
	SlowMs   int    // the first calls take this long
	By       int    // bound by the first call of that binding (1-based), 0: from the start
	AtOnce   bool   // replaced by another one in its own first call
}

type step struct {
	Msgs  []msg
	Burst int   // repeats the events of the first message
	Cuts  []int // segments
	GapMs int
	Pause int // before
}

type flowCase struct {
	Ascii    bool
	Bindings []binding
	Steps    []step
	Churn    bool // handlers are registered from elsewhere all the time
	Readers  bool // the state is read from elsewhere all the time
	End      int
	EndLen   uint32
	Tail     []msg
}

const (
	endNone = iota
	endOverLimit
	endTruncated   // and the panel closes its side
	endStalled     // and goes on much later
	endUndecodable // a frame of the right length that is no message
	endClose
	endTail // closes in the middle of the text that ends a frame, or of a line
	ends
)

const markerID = 9999

// rec is one handler call.
type rec struct {
	ID   uint32
	Kind string
	Val  string
}

func (r rec) String() string { return fmt.Sprintf("%s#%d(%s)", r.Kind, r.ID, r.Val) }

type recorder struct {
	mu    sync.Mutex
	calls []rec
	sent  []ledMsg
	texts int
	light int
	gen   map[int]int // handlers bound since the first
	count map[int]int
	mark  chan struct{}
	snaps []snap
}

type snap struct {
	call                int // number of calls before
	model, serial, name string
	top                 string // title of the topology
}

func protoText(e *rwp.HWCEvent) string {
	c := proto.Clone(e).(*rwp.HWCEvent)
	c.Timestamp = 0
	return strings.Join(strings.Fields(prototext.Format(c)), " ")
}

func (r *recorder) call(rp *gorwp.RawPanel, c *flowCase, i int, k rec) {
	b := c.Bindings[i]
	r.mu.Lock()
	r.calls = append(r.calls, k)
	r.count[i]++
	first := r.count[i] == 1
	slow := r.count[i] <= 3
	n := len(r.calls)
	r.mu.Unlock()
	s := snap{n - 1, rp.State.GetModel(), rp.State.GetSerial(), rp.State.GetName(), ""}
	if t := rp.State.GetTopology(); t != nil {
		s.top = t.Title
	}
	r.mu.Lock()
	r.snaps = append(r.snaps, s)
	r.mu.Unlock()
	if slow && b.SlowMs > 0 {
		time.Sleep(time.Duration(b.SlowMs) * time.Millisecond)
	}
	for f := 0; f < b.Feedback; f++ {
		switch (n + f) % 11 {
		case 3:
			r.mu.Lock()
			r.texts++
			r.mu.Unlock()
			rp.SetRWPText(k.ID, "title", "one", "two", true)
			continue
		case 8:
			r.mu.Lock()
			r.light++
			r.mu.Unlock()
			rp.SetBrightness(1 + f%8)
			continue
		}
		m := ledMsg{k.ID, uint32((n + f) % 17)}
		r.mu.Lock()
		r.sent = append(r.sent, m)
		r.mu.Unlock()
		if f%3 == 2 {
			rp.SendRawState(&rwp.HWCState{HWCIDs: []uint32{m.ID}, HWCColor: &rwp.HWCColor{ColorIndex: &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(m.Color)}}})
		} else {
			rp.SetLEDColorByIndex(m.ID, rwp.ColorIndex_Colors(m.Color), rwp.HWCMode_ON)
		}
	}
	if first {
		if b.AtOnce {
			r.mu.Lock()
			r.gen[i]++
			r.mu.Unlock()
			r.bind(rp, c, i)
		}
		for j := range c.Bindings {
			if c.Bindings[j].By == i+1 {
				r.bind(rp, c, j)
			}
		}
	}
}

// statusName and edgeName tell by the names of the library's constants, which
// a handler compares with. (No switch: it would not compile if two of them
// became equal.)
func statusName(s gorwp.BinaryStatus) (out string) {
	if s == gorwp.Up {
		out += "Up"
	}
	if s == gorwp.Down {
		out += "Down"
	}
	return
}

func edgeName(e gorwp.BinaryEdge) (out string) {
	for _, n := range []struct {
		e    gorwp.BinaryEdge
		name rwp.BinaryEvent_EdgeID
	}{{gorwp.None, rwp.BinaryEvent_UNKNOWN}, {gorwp.Top, rwp.BinaryEvent_TOP}, {gorwp.Left, rwp.BinaryEvent_LEFT}, {gorwp.Bottom, rwp.BinaryEvent_BOTTOM}, {gorwp.Right, rwp.BinaryEvent_RIGHT}, {gorwp.Encoder, rwp.BinaryEvent_ENCODER}} {
		if e == n.e {
			out += n.name.String()
		}
	}
	return
}

func (r *recorder) bind(rp *gorwp.RawPanel, c *flowCase, i int) {
	b := c.Bindings[i]
	r.mu.Lock()
	by := ""
	if r.gen[i] > 0 {
		by = " second handler"
	}
	r.mu.Unlock()
	switch b.Kind {
	case "b":
		rp.BindBinary(b.ID, func(id uint32, st gorwp.BinaryStatus, e gorwp.BinaryEdge) {
			r.call(rp, c, i, rec{id, "b", statusName(st) + "," + edgeName(e) + by})
		})
	case "p":
		rp.BindPulsed(b.ID, func(id uint32, v int) { r.call(rp, c, i, rec{id, "p", fmt.Sprint(v) + by}) })
	case "a":
		rp.BindAbsolute(b.ID, func(id uint32, v int) { r.call(rp, c, i, rec{id, "a", fmt.Sprint(v) + by}) })
	case "s":
		rp.BindIntensity(b.ID, func(id uint32, v int) { r.call(rp, c, i, rec{id, "s", fmt.Sprint(v) + by}) })
	case "t":
		rp.BindTrigger(b.ID, func(id uint32, e *rwp.HWCEvent) { r.call(rp, c, i, rec{id, "t", protoText(e) + by}) })
	}
}

// expect lists, per event, the calls it must lead to. bound says which
// bindings are in place and is updated.
func expect(c *flowCase, e event, bound []bool, fires []int) []rec {
	var out []rec
	fired := []int{}
	for i, b := range c.Bindings {
		if b.ID != e.ID || !bound[i] {
			continue
		}
		by := ""
		if b.AtOnce && fires[i] > 0 {
			by = " second handler"
		}
		switch {
		case b.Kind == "t":
			out = append(out, rec{e.ID, "t", protoText(e.proto()) + by})
		case !strings.Contains(e.Kinds, b.Kind):
			continue
		case b.Kind == "b":
			st := "Up"
			if e.Pressed {
				st = "Down"
			}
			out = append(out, rec{e.ID, "b", st + "," + rwp.BinaryEvent_EdgeID(e.Edge).String() + by})
		default:
			out = append(out, rec{e.ID, b.Kind, fmt.Sprint(e.Val) + by})
		}
		fired = append(fired, i)
	}
	for _, i := range fired {
		fires[i]++
		for j := range c.Bindings {
			if c.Bindings[j].By == i+1 {
				bound[j] = true
			}
		}
	}
	return out
}

func sortRecs(r []rec) []rec {
	r = slices.Clone(r)
	sort.Slice(r, func(a, b int) bool { return r[a].String() < r[b].String() })
	return r
}

// initial is what the panel tells after the request.
func initial() msg {
	return msg{Model: "M0", Serial: "S0", Name: "N0", Json: `{"title":"T0","HWc":[{"id":1,"x":1,"y":2,"txt":"a","type":3}],"typeIndex":{"3":{"in":"b"}}}`, Svg: "<svg/>"}
}

func checkFlow(c flowCase, info *core.Info) error {
	for i := range c.Steps {
		st := &c.Steps[i]
		for j := range st.Msgs {
			st.Msgs[j].normalise(c.Ascii)
		}
		if st.Burst > 1 && len(st.Msgs) > 0 {
			var events []event
			for n := 0; n < st.Burst; n++ {
				for _, e := range st.Msgs[0].Events {
					e.Val += n
					events = append(events, e)
				}
			}
			st.Msgs[0].Events = events
		}
	}
	for j := range c.Tail {
		c.Tail[j].normalise(c.Ascii)
	}
	if c.Ascii && c.End != endClose && c.End != endTail {
		c.End = endNone // there are no frames
	}

	s, err := connect(c.Ascii, false)
	defer s.end()
	if err != nil {
		return err
	}
	first := initial()
	s.p.send(first.encode(c.Ascii), nil, 0)
	select {
	case <-s.done:
	case <-time.After(6 * time.Second):
		return core.Soft("Connect does not return")
	}
	if s.err != nil {
		return core.Soft("Connect fails although everything was sent: %v", s.err)
	}
	rp := s.rp

	r := &recorder{count: map[int]int{}, gen: map[int]int{}, mark: make(chan struct{})}
	bound, fires := make([]bool, len(c.Bindings)), make([]int, len(c.Bindings))
	for i, b := range c.Bindings {
		if b.By == 0 {
			r.bind(rp, &c, i)
			bound[i] = true
		}
	}
	marks := 0
	rp.BindTrigger(markerID, func(uint32, *rwp.HWCEvent) {
		r.mu.Lock()
		marks++
		if marks == 1 {
			close(r.mark)
		}
		r.mu.Unlock()
	})

	stop := make(chan struct{})
	var wg sync.WaitGroup
	defer func() {
		close(stop)
		gone := make(chan struct{})
		go func() { wg.Wait(); close(gone) }()
		select {
		case <-gone:
		case <-time.After(3 * time.Second): // stuck in the library
		}
	}()
	background := func(f func(int)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
					f(i)
					if i%16 == 15 {
						time.Sleep(time.Millisecond)
					}
				}
			}
		}()
	}
	if c.Churn {
		info.Label("registration from elsewhere")
		background(func(i int) {
			if b := i % (len(c.Bindings) + 1); b < len(c.Bindings) && c.Bindings[b].By == 0 && !c.Bindings[b].AtOnce {
				r.bind(rp, &c, b)
			}
			id := uint32(2000 + i%40)
			rp.BindBinary(id, func(uint32, gorwp.BinaryStatus, gorwp.BinaryEdge) {})
			rp.BindPulsed(id, func(uint32, int) {})
			rp.BindAbsolute(id, func(uint32, int) {})
			rp.BindIntensity(id, func(uint32, int) {})
			rp.BindTrigger(id, func(uint32, *rwp.HWCEvent) {})
		})
	}
	if c.Readers {
		background(func(i int) {
			_, _, _ = rp.State.GetModel(), rp.State.GetName(), rp.State.GetSerial()
			if t := rp.State.GetTopology(); t != nil {
				t.GetHWCs()
			}
			rp.IsInitialized()
		})
	}

	// the panel's messages
	var want [][]rec
	pings, events := 0, 0
	last := first
	avails := map[uint32]uint32{}
	// identity by the number of calls that precede it
	type change struct {
		calls int
		val   string
	}
	models, serials, names, tops := []change{{0, "M0"}}, []change{{0, "S0"}}, []change{{0, "N0"}}, []change{{0, "T0"}}
	calls := 0
	var pending []byte
	for k := range c.Steps {
		st := &c.Steps[k]
		if st.Pause > 0 {
			time.Sleep(time.Duration(st.Pause) * time.Millisecond)
		}
		var out []byte
		for j := range st.Msgs {
			m := &st.Msgs[j]
			out = append(out, m.encode(c.Ascii)...)
			for _, e := range m.split() {
				events++
				if w := expect(&c, e, bound, fires); len(w) > 0 {
					want = append(want, w)
					calls += len(w)
				}
			}
			if m.Ping {
				pings++
			}
			if m.Model != "" {
				last.Model = m.Model
				models = append(models, change{calls, m.Model})
			}
			if m.Serial != "" {
				last.Serial = m.Serial
				serials = append(serials, change{calls, m.Serial})
			}
			if m.Name != "" {
				last.Name = m.Name
				names = append(names, change{calls, m.Name})
			}
			if m.Json != "" {
				last.Json = m.Json
				var t struct{ Title string }
				json.Unmarshal([]byte(m.Json), &t)
				tops = append(tops, change{calls, t.Title})
			}
			for _, a := range m.Avail {
				avails[a[0]] = a[1]
			}
		}
		if k == len(c.Steps)-1 && c.End != endNone {
			pending = out // goes out together with what ends it
			break
		}
		s.p.send(out, st.Cuts, st.GapMs)
	}
	marker := msg{Events: []event{{ID: markerID, Kinds: "b", Pressed: true}}}
	pending = append(pending, marker.encode(c.Ascii)...)
	info.Label("end %d", c.End)
	info.LabelIf(c.Ascii, "ascii")
	info.LabelIf(pings > 0, "pings")
	info.LabelIf(events > 200, "burst")
	info.NonTrivial(calls > 0)
	var cuts []int
	if n := len(c.Steps); n > 0 {
		cuts = c.Steps[n-1].Cuts
	}
	limit := time.Duration(15)*time.Second + time.Duration(calls)*2*time.Millisecond

	// what ends it
	tail := func() (b []byte) {
		for i := range c.Tail {
			b = append(b, c.Tail[i].encode(c.Ascii)...)
		}
		return append(b, marker.encode(c.Ascii)...)
	}
	inner := msg{Events: []event{{ID: markerID, Kinds: "b"}, {ID: markerID, Kinds: "p", Val: 3}}, Model: "BROKEN"}
	switch c.End {
	case endOverLimit:
		n := max(c.EndLen, 500000)
		if n < 900000 { // otherwise a complete and valid message
			info.Label("complete frame of too many bytes")
			inner.Full = int(n)
			pending = append(pending, inner.encode(false)...)
		} else {
			pending = binary.LittleEndian.AppendUint32(pending, n)
		}
		pending = append(pending, tail()...)
	case endStalled: // the rest would be text, so it matters that it comes too late
		inner.Text = strings.Repeat("y", 60)
		f := inner.encode(false)
		pending = append(pending, f[:len(f)-1-int(c.EndLen)%30]...)
	case endTruncated:
		f := inner.encode(false)
		f = frame(append(f[4:], make([]byte, 40)...)) // complete events, but more to come
		pending = append(pending, f[:len(f)-1-int(c.EndLen)%30]...)
	case endTail:
		if c.Ascii { // the part that is there reads like a line
			pending = append(pending, []string{"HWC#9999=Down", "HWC#9999=Abs:12", "HWC#9999.4=Press", "_model=BROKEN", "HWC#9999=Enc:1\r", "_serial=BROKEN", "ping"}[c.EndLen%7]...)
		} else { // the rest would be text
			inner.Text = strings.Repeat("y", 60)
			f := inner.encode(false)
			pending = append(pending, f[:len(f)-1-int(c.EndLen)%40]...)
		}
	case endUndecodable:
		f := inner.encode(false)
		pending = append(pending, frame(append(f[4:], [][]byte{{0x0a, 0xff}, {0xff, 0xff}, {0x07}, {0x00}, {0x2a, 0x7f, 1}}[c.EndLen%5]...))...)
		pending = append(pending, tail()...)
	}
	s.p.send(pending, cuts, 0)
	if c.End == endTruncated || c.End == endClose || c.End == endTail {
		s.p.c.CloseWrite()
	}

	select {
	case <-r.mark:
	case <-time.After(limit):
		r.mu.Lock()
		defer r.mu.Unlock()
		return core.Soft("the dispatch stalls: %d of %d handler calls after %v", len(r.calls), calls, limit)
	}
	if c.End == endStalled {
		s.p.wait(3500*time.Millisecond, func() bool { return s.p.ended != nil })
		f := append(bytes.Repeat([]byte("y"), 1+int(c.EndLen)%30), tail()...)
		s.p.send(f, nil, 0)
	}
	if c.End != endNone {
		s.p.wait(1200*time.Millisecond, func() bool { return s.p.ended != nil })
		time.Sleep(60 * time.Millisecond)
	}

	// everything dispatched, and nothing else
	r.mu.Lock()
	got := slices.Clone(r.calls)
	snaps := slices.Clone(r.snaps)
	sent, texts, light := slices.Clone(r.sent), r.texts, r.light
	marked := marks
	r.mu.Unlock()
	at := 0
	for i, w := range want {
		if at+len(w) > len(got) {
			return fmt.Errorf("event %d of %d with %v: only %d handler calls, %d before it (last: %v)", i, len(want), w, len(got), at, got[max(0, len(got)-3):])
		}
		if g := sortRecs(got[at : at+len(w)]); !slices.Equal(g, sortRecs(w)) {
			return fmt.Errorf("event %d of %d leads to the handler calls %v, want %v", i, len(want), g, w)
		}
		at += len(w)
	}
	if len(got) > at {
		return fmt.Errorf("%d handler calls too many, the first: %v", len(got)-at, got[at])
	}
	if marked != 1 {
		return fmt.Errorf("%d events of the broken frame or behind it were dispatched (end %d)", marked-1, c.End)
	}

	// state
	check := func(what, got string, hist []change, upTo int) error {
		ok := false
		for i, h := range hist {
			later := i == len(hist)-1 || hist[i+1].calls > upTo
			if h.val == got && later {
				ok = true
			}
		}
		if !ok {
			return fmt.Errorf("after %d handler calls %s is %q, the panel's history (calls, value) is %v", upTo, what, got, hist)
		}
		return nil
	}
	for _, sn := range snaps {
		for _, e := range []error{check("the model", sn.model, models, sn.call), check("the serial", sn.serial, serials, sn.call), check("the name", sn.name, names, sn.call), check("the title of the topology", sn.top, tops, sn.call)} {
			if e != nil {
				return e
			}
		}
	}
	if m, sr, n := rp.State.GetModel(), rp.State.GetSerial(), rp.State.GetName(); m != last.Model || sr != last.Serial || n != last.Name {
		return fmt.Errorf("model, serial, name are %q, %q, %q, last received %q, %q, %q", m, sr, n, last.Model, last.Serial, last.Name)
	}
	wantTop := &topology.Topology{}
	if err := json.Unmarshal([]byte(last.Json), wantTop); err != nil {
		return core.Invalid("topology %s: %v", last.Json, err)
	}
	top := rp.State.GetTopology()
	if top == nil {
		return fmt.Errorf("no topology")
	}
	gotJS, _ := json.Marshal(top)
	if wantJS, _ := json.Marshal(wantTop); !bytes.Equal(gotJS, wantJS) {
		return fmt.Errorf("the topology is %s, last received %s", gotJS, last.Json)
	}
	if a, ok := avail(rp); ok {
		for k, v := range avails {
			if a[k] != v {
				return fmt.Errorf("the availability of %d is %d, last received %d", k, a[k], v)
			}
		}
		for k := range a {
			if _, ok := avails[k]; !ok {
				return fmt.Errorf("there is an availability of %d, none was received", k)
			}
		}
	}

	// what the panel received
	full := c.End == endNone
	if full {
		if !s.p.wait(8*time.Second, func() bool {
			return s.p.acks >= pings && len(s.p.led) >= len(sent) && s.p.texts >= texts && s.p.light >= light
		}) {
			s.p.mu.Lock()
			defer s.p.mu.Unlock()
			return core.Soft("the panel got %d acknowledges for %d pings, %d of %d colours, %d of %d texts and %d of %d brightnesses", s.p.acks, pings, len(s.p.led), len(sent), s.p.texts, texts, s.p.light, light)
		}
		time.Sleep(20 * time.Millisecond)
	}
	s.p.mu.Lock()
	defer s.p.mu.Unlock()
	if s.p.acks > pings {
		return fmt.Errorf("%d acknowledges for %d pings", s.p.acks, pings)
	}
	if len(s.p.led) > len(sent) || s.p.texts > texts || s.p.light > light {
		return fmt.Errorf("the panel got %d colours, %d texts and %d brightnesses, %d, %d and %d were sent", len(s.p.led), s.p.texts, s.p.light, len(sent), texts, light)
	}
	for i, l := range s.p.led {
		if l != sent[i] {
			return fmt.Errorf("feedback message %d reached the panel as %v, sent was %v", i, l, sent[i])
		}
	}
	if full && s.p.ended != nil {
		return core.Soft("the client ended the connection: %v", s.p.ended)
	}
	return nil
}

// ---- initialisation

type initStep struct {
	DelayMs int
	M       msg
	Cuts    []int
	Close   bool // the panel closes its side
	Cancel  bool // the application cancels
}

type initCase struct {
	Ascii, Silent bool
	Steps         []initStep
}

func checkInit(c initCase, info *core.Info) error {
	s, err := connect(c.Ascii, c.Ascii && c.Silent)
	defer s.end()
	if err != nil {
		return err
	}
	start := time.Now()
	var have msg
	total, complete, open := 0, -1, true
	script := make(chan struct{})
	go func() {
		defer close(script)
		for _, st := range c.Steps {
			time.Sleep(time.Duration(st.DelayMs) * time.Millisecond)
			switch {
			case st.Cancel:
				s.cancel()
			case st.Close:
				s.p.c.CloseWrite()
			default:
				st.M.normalise(c.Ascii)
				s.p.send(st.M.encode(c.Ascii), st.Cuts, 0)
			}
		}
	}()
	for _, st := range c.Steps {
		total += st.DelayMs
		if st.Cancel || st.Close {
			open = false
		}
		if !open || complete >= 0 {
			continue
		}
		m := st.M
		for _, p := range [][2]*string{{&have.Model, &m.Model}, {&have.Serial, &m.Serial}, {&have.Json, &m.Json}, {&have.Svg, &m.Svg}} {
			if *p[1] != "" {
				*p[0] = *p[1]
			}
		}
		if have.Model != "" && have.Serial != "" && have.Json != "" && have.Svg != "" {
			complete = total
		}
	}
	select {
	case <-s.done:
	case <-time.After(8 * time.Second):
		return core.Soft("Connect does not return within 8 s")
	}
	took := time.Since(start)
	model := ""
	if s.err == nil {
		if s.rp == nil {
			return fmt.Errorf("Connect returns neither a panel nor an error")
		}
		model = s.rp.State.GetModel()
	} else if s.rp != nil {
		return fmt.Errorf("Connect returns a panel together with the error %v", s.err)
	}
	<-script
	info.NonTrivial(true)
	info.LabelIf(complete >= 0 && complete <= 1700, "complete in time")
	info.LabelIf(complete < 0, "never complete")
	info.LabelIf(complete > 1700, "late")
	info.LabelIf(!open, "ends early")
	switch {
	case complete < 0 && s.err == nil:
		return fmt.Errorf("Connect succeeds after %v although not all of model (%q), serial (%q), topology JSON (%q) and SVG (%q) arrived", took, have.Model, have.Serial, have.Json, have.Svg)
	case complete >= 0 && complete <= 1700 && s.err != nil:
		return core.Soft("Connect fails after %v (%v) although everything arrived within %d ms", took, s.err, complete)
	case complete >= 2400 && s.err == nil:
		return core.Soft("Connect succeeds after %v although the last part arrived after %d ms", took, complete)
	case complete >= 0 && complete <= 1700 && model == "":
		return fmt.Errorf("no model after connecting")
	}
	return nil
}

// ---- generators

// dictID avoids the components that handlers bind.
func dictID() *rapid.Generator[uint32] {
	return rapid.Map(core.Ints(0, 1<<32-1), func(i int64) uint32 {
		if i >= lateID && i < lateID+10 || i == markerID {
			return lateID - 1
		}
		return uint32(i)
	})
}

func genEvent(t *rapid.T) event {
	id := rapid.OneOf(rapid.Uint32Range(1, 6), rapid.Uint32Range(1, 6), rapid.Uint32Range(1, 12), rapid.Uint32Range(lateID, lateID+3), rapid.SampledFrom([]uint32{0, 100, 65535, 1 << 20}), dictID()).Draw(t, "id")
	kinds := rapid.SampledFrom([]string{"b", "b", "p", "a", "s", "r", "bp", "ba", "pas", "bpasr", "ps", "as"}).Draw(t, "kinds")
	var stamp uint32
	if rapid.IntRange(0, 2).Draw(t, "stamped") == 0 {
		stamp = rapid.SampledFrom([]uint32{1, 2, 1000, 1000, 1 << 31, 1<<32 - 1}).Draw(t, "stamp")
	}
	return event{ID: id, Stamp: stamp, Kinds: kinds, Pressed: rapid.Bool().Draw(t, "pressed"), Press: rapid.IntRange(0, 9).Draw(t, "press") == 9,
		Edge: rapid.SampledFrom([]int{0, 0, 1, 2, 4, 8, 16}).Draw(t, "edge"),
		Val:  rapid.OneOf(rapid.IntRange(-3, 3), rapid.IntRange(-1000, 1000), rapid.SampledFrom([]int{0, 1000, -500, 500, 65536, 2147483000, -2147483000}), rapid.Map(core.Ints(-2147483000, 2147483000), func(i int64) int { return int(i) })).Draw(t, "val")}
}

func genMsg(t *rapid.T) msg {
	return genMsgOf(t, rapid.IntRange(0, 100).Draw(t, "message"))
}

// genInfo is about what the client remembers.
func genInfo(t *rapid.T) msg { return genMsgOf(t, rapid.IntRange(68, 96).Draw(t, "message")) }

func genMsgOf(t *rapid.T, n int) msg {
	var m msg
	if rapid.IntRange(0, 4).Draw(t, "more") == 0 {
		for i := rapid.IntRange(1, 3).Draw(t, "extras"); i > 0; i-- {
			m.Extra |= 1 << rapid.IntRange(0, len(extras)-1).Draw(t, "extra")
		}
	}
	switch {
	case n < 55:
		m.Events = rapid.SliceOfN(rapid.Custom(genEvent), 1, core.Count(t, 1, 5, 80, "most")).Draw(t, "events")
	case n < 65:
		m.Ping = true
		if rapid.Bool().Draw(t, "with events") {
			m.Events = rapid.SliceOfN(rapid.Custom(genEvent), 1, 2).Draw(t, "events")
		}
	case n < 70:
		m.Ack = true
		m.Events = rapid.SliceOfN(rapid.Custom(genEvent), 0, 2).Draw(t, "events")
	case n < 80:
		k := rapid.IntRange(1, 7).Draw(t, "info")
		num := rapid.IntRange(1, 99).Draw(t, "num")
		if k&1 > 0 {
			m.Model = fmt.Sprintf("M%d", num)
		}
		if k&2 > 0 {
			m.Serial = fmt.Sprintf("S%d", num)
		}
		if k&4 > 0 {
			m.Name = fmt.Sprintf("Näme %d", num)
		}
	case n < 86:
		m.Json = genTopology(t)
	case n < 88:
		m.Svg = rapid.SampledFrom(svgStarts).Draw(t, "start") + "<svg>" + rapid.StringMatching(`[a-z ]{0,30}`).Draw(t, "svg") + "</svg>"
		if rapid.IntRange(0, 4).Draw(t, "big") == 4 {
			m.Pad = rapid.SampledFrom([]int{1000, 65536, 300000, 499900}).Draw(t, "pad")
			if rapid.Bool().Draw(t, "full") {
				m.Full, m.Pad = 499999, 0 // the biggest one
			}
		}
	case n < 97:
		for i := rapid.IntRange(1, 4).Draw(t, "avail"); i > 0; i-- {
			m.Avail = append(m.Avail, [2]uint32{rapid.OneOf(rapid.Uint32Range(1, 4), rapid.Uint32Range(1, 4), rapid.SampledFrom([]uint32{0, 65535, 65536, 1<<32 - 1})).Draw(t, "of"), rapid.OneOf(rapid.SampledFrom([]uint32{0, 0, 1, 2, 7, 100}), rapid.SampledFrom([]uint32{0, 0, 1, 2, 7, 100}), rapid.SampledFrom([]uint32{255, 256, 65535, 65536, 1<<32 - 1})).Draw(t, "to")})
		}
	default:
		m.Noise = rapid.IntRange(0, 3).Draw(t, "noise")
	}
	return m
}

// What stands before the root element of the SVG of a panel
var svgStarts = []string{"", "", "", `<?xml version="1.0" encoding="UTF-8"?>`, "<!-- a panel -->", " "}

func genTopology(t *rapid.T) string {
	var parts []string
	if rapid.IntRange(0, 3).Draw(t, "titled") > 0 {
		parts = append(parts, fmt.Sprintf(`"title":"T%d"`, rapid.IntRange(1, 99).Draw(t, "title")))
	}
	if n := rapid.IntRange(-1, 5).Draw(t, "components"); n >= 0 {
		var hw []string
		for i := 0; i < n; i++ {
			opt := rapid.SampledFrom([]string{"", "", `,"typeOverride":{"w":9,"disp":{"w":64,"h":32}}`, `,"UIparent":3`, `,"typeOverride":{"out":"rgb","sub":[{"_":"r","_x":1,"_y":2}]}`}).Draw(t, "opt")
			hw = append(hw, fmt.Sprintf(`{"id":%d,"x":%d,"y":%d,"txt":"c","type":%d%s}`, rapid.IntRange(1, 99).Draw(t, "cid"), i, i, rapid.IntRange(1, 4).Draw(t, "ctype"), opt))
		}
		parts = append(parts, `"HWc":[`+strings.Join(hw, ",")+`]`)
	}
	var types []string
	for i := 1; i <= 4; i++ {
		if rapid.Bool().Draw(t, "has type") {
			types = append(types, fmt.Sprintf(`"%d":%s`, i, rapid.SampledFrom([]string{`{"in":"b"}`, `{"w":20,"h":30,"out":"mono","in":"b4","desc":"Button"}`, `{"in":"pb","sub":[{"_":"c","_x":0,"_y":-5,"r":3}],"disp":{"w":112,"h":32,"type":"gray"}}`, `{}`, `{"rotate":90.5,"render":"txt"}`}).Draw(t, "type")))
		}
	}
	if len(types) > 0 || rapid.Bool().Draw(t, "no types") {
		parts = append(parts, `"typeIndex":{`+strings.Join(types, ",")+`}`)
	}
	return "{" + strings.Join(parts, ",") + "}"
}

func genCuts(t *rapid.T) []int {
	switch rapid.IntRange(0, 4).Draw(t, "cuts") {
	case 0, 1:
		return nil
	case 2:
		return []int{1}
	case 3:
		return rapid.SliceOfN(rapid.IntRange(1, 9), 1, 6).Draw(t, "small")
	}
	return rapid.SliceOfN(rapid.IntRange(1, 1500), 1, 5).Draw(t, "sizes")
}

func genFlow(t *rapid.T) flowCase {
	c := flowCase{Ascii: rapid.Bool().Draw(t, "ascii"), Churn: rapid.Bool().Draw(t, "churn"), Readers: rapid.Bool().Draw(t, "readers")}
	seen := map[string]bool{}
	for i := rapid.IntRange(1, 9).Draw(t, "bindings"); i > 0; i-- {
		b := binding{ID: rapid.OneOf(rapid.Uint32Range(1, 6), rapid.Uint32Range(1, 6), rapid.SampledFrom([]uint32{0, 100, 65535, 1 << 20, lateID}), dictID()).Draw(t, "bid"), Kind: rapid.SampledFrom([]string{"b", "p", "a", "s", "t"}).Draw(t, "bkind"),
			Feedback: rapid.SampledFrom([]int{0, 1, 1, 2, 3, 12}).Draw(t, "feedback"), AtOnce: rapid.IntRange(0, 5).Draw(t, "atonce") == 5}
		if rapid.IntRange(0, 7).Draw(t, "slow") == 7 {
			b.SlowMs = rapid.IntRange(1, 60).Draw(t, "slowms")
		}
		key := fmt.Sprint(b.ID, b.Kind)
		if seen[key] {
			continue
		}
		seen[key] = true
		c.Bindings = append(c.Bindings, b)
	}
	// some are bound by a handler
	if rapid.Bool().Draw(t, "late") {
		early := len(c.Bindings)
		for i := rapid.IntRange(1, 3).Draw(t, "latebindings"); i > 0; i-- {
			by := rapid.IntRange(1, early).Draw(t, "by")
			b := binding{ID: lateID + uint32(i), Kind: rapid.SampledFrom([]string{"b", "t", "p"}).Draw(t, "latekind"), Feedback: i % 2, By: by}
			if c.Bindings[by-1].ID < lateID {
				c.Bindings = append(c.Bindings, b)
			}
		}
	}
	for i := rapid.IntRange(1, 6).Draw(t, "steps"); i > 0; i-- {
		st := step{Cuts: genCuts(t)}
		st.Msgs = rapid.SliceOfN(rapid.Custom(genMsg), 1, 8).Draw(t, "msgs")
		if len(c.Bindings) > 0 { // more events that meet a binding
			for _, m := range st.Msgs {
				for k := range m.Events {
					if rapid.IntRange(0, 3).Draw(t, "bound") == 0 {
						m.Events[k].ID = c.Bindings[rapid.IntRange(0, len(c.Bindings)-1).Draw(t, "to")].ID
					}
				}
			}
		}
		switch rapid.IntRange(0, 9).Draw(t, "pace") {
		case 8:
			st.GapMs = rapid.IntRange(1, 25).Draw(t, "gap")
		case 9:
			st.Pause = rapid.IntRange(1, 60).Draw(t, "pause")
			if rapid.IntRange(0, 5).Draw(t, "long pause") == 5 {
				st.Pause = rapid.SampledFrom([]int{1100, 2150, 2400, 3300}).Draw(t, "pause")
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "burst") == 3 {
			st.Burst = rapid.IntRange(20, 300).Draw(t, "times")
			// a burst of events of bound components
			e := genEvent(t)
			b := c.Bindings[rapid.IntRange(0, len(c.Bindings)-1).Draw(t, "which")]
			e.ID, e.Kinds, e.Press = b.ID, "b", false
			if b.Kind != "t" {
				e.Kinds = b.Kind
			}
			st.Msgs[0] = msg{Events: []event{e}}
			if rapid.Bool().Draw(t, "then pings") { // while there is feedback left to send
				st.Cuts = nil
				for j := rapid.IntRange(1, 4).Draw(t, "pings"); j > 0; j-- {
					st.Msgs = slices.Insert(st.Msgs, 1, msg{Ping: true})
				}
			}
		}
		c.Steps = append(c.Steps, st)
	}
	if rapid.IntRange(0, 2).Draw(t, "ends") == 2 {
		c.End = rapid.SampledFrom([]int{endOverLimit, endOverLimit, endTruncated, endUndecodable, endUndecodable, endClose, endStalled, endTail, endTail}).Draw(t, "end")
		c.EndLen = rapid.OneOf(rapid.SampledFrom([]uint32{500000, 500000, 500001, 500004, 600000, 1 << 31, 1<<31 - 1, 1<<32 - 1, 0x00ffffff}), rapid.Uint32Range(500000, 1<<32-1), rapid.Uint32Range(0, 60)).Draw(t, "endlen")
		c.Tail = rapid.SliceOfN(rapid.Custom(genMsg), 0, 4).Draw(t, "tail")
	}
	return c
}

// genState: histories of what the client remembers.
func genState(t *rapid.T) flowCase {
	c := flowCase{Ascii: rapid.Bool().Draw(t, "ascii"), Readers: rapid.IntRange(0, 3).Draw(t, "readers") == 3, Bindings: []binding{{ID: 1, Kind: "b"}, {ID: 2, Kind: "t"}, {ID: 3, Kind: "p"}, {ID: 3, Kind: "a"}}}
	for i := rapid.IntRange(1, 4).Draw(t, "steps"); i > 0; i-- {
		st := step{Cuts: genCuts(t)}
		for j := rapid.IntRange(1, 12).Draw(t, "n"); j > 0; j-- {
			m := genInfo(t)
			if !c.Ascii && rapid.IntRange(0, 3).Draw(t, "merge") == 0 { // several subjects at once
				o := genInfo(t)
				if m.Json == "" {
					m.Json = o.Json
				}
				if m.Avail == nil {
					m.Avail = o.Avail
				}
				if m.Model == "" {
					m.Model, m.Name = o.Model, o.Name
				}
			}
			if rapid.IntRange(0, 2).Draw(t, "probe") == 0 {
				m.Events = append(m.Events, genEvent(t))
			}
			st.Msgs = append(st.Msgs, m)
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

func genInit(t *rapid.T) initCase {
	c := initCase{Ascii: rapid.Bool().Draw(t, "ascii"), Silent: rapid.IntRange(0, 7).Draw(t, "silent") == 7}
	parts := rapid.Permutation([]string{"model", "serial", "json", "svg"}).Draw(t, "order")
	if rapid.IntRange(0, 2).Draw(t, "missing") == 2 {
		parts = parts[:rapid.IntRange(0, 3).Draw(t, "parts")]
	}
	var steps []initStep
	cur := initStep{}
	for _, p := range parts {
		switch p {
		case "model":
			cur.M.Model = "M1"
		case "serial":
			cur.M.Serial = "S1"
		case "json":
			cur.M.Json = genTopology(t)
		case "svg":
			cur.M.Svg = rapid.SampledFrom(svgStarts).Draw(t, "start") + "<svg/>"
		}
		if rapid.Bool().Draw(t, "split") {
			cur.Cuts = genCuts(t)
			steps = append(steps, cur)
			cur = initStep{}
		}
	}
	cur.M.Name = "name"
	if rapid.IntRange(0, 2).Draw(t, "more") == 0 {
		cur.M.Extra = 1 << rapid.IntRange(0, len(extras)-1).Draw(t, "extra")
	}
	steps = append(steps, cur)
	if rapid.Bool().Draw(t, "noise") {
		steps = append(steps, initStep{M: genMsg(t)})
		if m := &steps[len(steps)-1].M; true {
			m.Model, m.Serial, m.Json, m.Svg, m.Pad, m.Full = "", "", "", "", 0, 0
		}
		k := rapid.IntRange(0, len(steps)-1).Draw(t, "at")
		steps[k], steps[len(steps)-1] = steps[len(steps)-1], steps[k]
	}
	left := 1650
	for i := range steps {
		steps[i].DelayMs = rapid.SampledFrom([]int{0, 0, 5, 60, 300, 1100, 1650}).Draw(t, "delay")
		steps[i].DelayMs = min(steps[i].DelayMs, left)
		left -= steps[i].DelayMs
	}
	switch rapid.IntRange(0, 5).Draw(t, "special") {
	case 3: // late
		at := rapid.IntRange(0, len(steps)-1).Draw(t, "lateat")
		if rapid.IntRange(0, 2).Draw(t, "last one late") > 0 {
			at = len(steps) - 1
		}
		left := rapid.SampledFrom([]int{2400, 2450, 2500, 2700, 3100}).Draw(t, "late by")
		for i := range steps[:at] {
			left -= steps[i].DelayMs
		}
		steps[at].DelayMs = max(left, 0)
	case 4:
		steps = slices.Insert(steps, rapid.IntRange(0, len(steps)).Draw(t, "closeat"), initStep{Close: true, DelayMs: rapid.SampledFrom([]int{0, 10}).Draw(t, "closedelay")})
	case 5:
		at := rapid.IntRange(0, len(steps)-1).Draw(t, "cancelat")
		steps = slices.Insert(steps, at, initStep{Cancel: true, DelayMs: rapid.SampledFrom([]int{0, 100}).Draw(t, "canceldelay")})
		// what comes just before the cancellation may or may not be seen
		if at > 0 {
			steps[at].DelayMs = 300
		}
	}
	c.Steps = steps
	return c
}

func TestC19(t *testing.T) {
	r := core.Start(t, "C19")
	defer r.Finish()
	r.NoWatch()
	core.Batch(r, "init", core.Size{Quick: 160, Thorough: 6000}, 16, genInit, checkInit)
	core.Batch(r, "state", core.Size{Quick: 240, Thorough: 10000}, 8, genState, checkFlow)
	core.Batch(r, "flow", core.Size{Quick: 400, Thorough: 20000}, 8, genFlow, checkFlow)
}
