package conv

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"

	rapi "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"rwpverif/core"
)

// GLine is one line of a history: a chunk of a transfer or another line.
type GLine struct {
	Key   int    `json:"k,omitempty"` // format
	IDs   string `json:"i,omitempty"` // "" = pass-through line
	Idx   int    `json:"n,omitempty"`
	Adv   bool   `json:"a,omitempty"`
	Max   int    `json:"m,omitempty"`
	W     uint32 `json:"w,omitempty"`
	H     uint32 `json:"h,omitempty"`
	Off   bool   `json:"o,omitempty"`
	X     uint32 `json:"x,omitempty"`
	Y     uint32 `json:"y,omitempty"`
	Data  []byte `json:"d,omitempty"`
	Other string `json:"p,omitempty"` // the pass-through line
}

type c05Case struct {
	Lines   []GLine
	Restore []bool `json:",omitempty"` // streaming: pass the state through JSON before line i
}

func (g GLine) text() string {
	if g.IDs == "" {
		return g.Other
	}
	s := fmt.Sprintf("%s#%s=%d", gfxKey(g.Key), g.IDs, g.Idx)
	if g.Adv {
		s += fmt.Sprintf("/%d,%dx%d", g.Max, g.W, g.H)
		if g.Off {
			s += fmt.Sprintf(",%d,%d", g.X, g.Y)
		}
	}
	return s + ":" + base64.StdEncoding.EncodeToString(g.Data)
}

// head gives what a chunk 0 announces.
func (g GLine) head() (max int, detail func(data []byte) string) {
	w, h, off, x, y := g.W, g.H, g.Off, g.X, g.Y
	max = g.Max
	if !g.Adv {
		max, w, h, off, x, y = 2, 64, 32, false, 0, 0
	}
	return max, func(d []byte) string { return imageDetail(g.Key, int64(w), int64(h), off, int64(x), int64(y), d) }
}

func (g GLine) sameTransfer(o GLine) bool { return g.IDs != "" && g.Key == o.Key && g.IDs == o.IDs }

// cleanEnds finds every clean consecutive run (only pass-through lines in
// between): the index of its last line -> the index of its chunk 0.
func cleanEnds(ls []GLine) map[int]int {
	out := map[int]int{}
	start, next := -1, 0
	for i, l := range ls {
		if l.IDs == "" {
			continue
		}
		if l.Idx == 0 {
			start, next = i, 0
		}
		if start < 0 || !l.sameTransfer(ls[start]) || l.Idx != next {
			start = -1
			continue
		}
		max, _ := ls[start].head()
		if l.Idx == max {
			out[i] = start
			start = -1
			continue
		}
		next++
	}
	return out
}

// consists tells whether the delivered image is made of chunks 0..N, in order,
// of the transfer started at s, using lines up to and including last (and last
// itself when must is set).
func consists(ls []GLine, s, last int, must bool, im string) bool {
	max, detail := ls[s].head()
	var try func(pos, idx int, data []byte) bool
	try = func(pos, idx int, data []byte) bool {
		if idx > max {
			return false
		}
		for i := pos; i <= last; i++ {
			l := ls[i]
			if i > s && l.sameTransfer(ls[s]) && l.Idx == 0 {
				return false // a newer transfer to the same place has started
			}
			if !l.sameTransfer(ls[s]) || l.Idx != idx {
				continue
			}
			d := append(append([]byte(nil), data...), l.Data...)
			if idx == max {
				if (!must || i == last) && detail(d) == im {
					return true
				}
				continue
			}
			if try(i+1, idx+1, d) {
				return true
			}
		}
		return false
	}
	return try(s, 0, nil)
}

type delivery struct {
	line int // -1 when unknown (batch)
	ids  string
	kind int
	im   string
	msg  *rwp.InboundMessage
	snap []byte
}

// deliveries extracts the images of returned messages.
func deliveries(ms []*rwp.InboundMessage, line int) (out []delivery) {
	for _, m := range ms {
		for _, s := range m.GetStates() {
			if g := s.GetHWCGfx(); g != nil {
				var ids []string
				for _, id := range s.HWCIDs {
					ids = append(ids, fmt.Sprint(id))
				}
				b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
				out = append(out, delivery{line, strings.Join(ids, ","), int(g.ImageType), imageDetail(int(g.ImageType), int64(g.W), int64(g.H), g.XYoffset, int64(g.X), int64(g.Y), g.ImageData), m, b})
			}
		}
	}
	return
}

// judge applies the property to the deliveries of one feeding discipline.
func judge(how string, ls []GLine, ds []delivery) error {
	clean := cleanEnds(ls)
	atLine := map[int]int{}
	may := make([]map[int]bool, len(ds)) // the transfers an image can be made of, by first line
	for k, d := range ds {
		if b, _ := (proto.MarshalOptions{Deterministic: true}).Marshal(d.msg); d.msg != nil && string(b) != string(d.snap) {
			return fmt.Errorf("%s: image %d was altered after delivery", how, k)
		}
		may[k] = map[int]bool{}
		for s, l := range ls {
			if l.IDs == "" || l.Idx != 0 || l.Key != d.kind || l.IDs != d.ids {
				continue
			}
			last, must := len(ls)-1, false
			if d.line >= 0 {
				last, must = d.line, true
			}
			if s <= last && consists(ls, s, last, must, d.im) {
				may[k][s] = true
			}
		}
		atLine[d.line]++
	}
	// Equal transfers give equal images, so pair images and transfers such that
	// every clean run has an image (augmenting paths keep what is paired), and
	// then such that every image has a transfer.
	of, by := map[int]int{}, map[int]int{} // start -> image, image -> start
	var forStart, forImage func(x int, seen map[int]bool) bool
	forStart = func(s int, seen map[int]bool) bool {
		for k := range ds {
			if !may[k][s] || seen[k] {
				continue
			}
			seen[k] = true
			if o, ok := by[k]; !ok || forStart(o, seen) {
				of[s], by[k] = k, s
				return true
			}
		}
		return false
	}
	forImage = func(k int, seen map[int]bool) bool {
		for s := range ls {
			if !may[k][s] || seen[s] {
				continue
			}
			seen[s] = true
			if o, ok := of[s]; !ok || forImage(o, seen) {
				of[s], by[k] = k, s
				return true
			}
		}
		return false
	}
	var missing []int
	for end, start := range clean {
		if !forStart(start, map[int]bool{}) {
			missing = append(missing, end)
		}
	}
	for k, d := range ds {
		if _, ok := by[k]; !ok && !forImage(k, map[int]bool{}) {
			return fmt.Errorf("%s: image %d for %s#%s (line %d) is not made of chunks 0..N of one undelivered transfer: %s", how, k, gfxKey(d.kind), d.ids, d.line, clip(d.im))
		}
	}
	sort.Ints(missing)
	for _, end := range missing {
		return fmt.Errorf("%s: the clean run of lines %d..%d delivered no image", how, clean[end], end)
	}
	for end := range clean {
		if len(ds) > 0 && ds[0].line >= 0 && atLine[end] != 1 {
			return fmt.Errorf("%s: the clean run ending at line %d delivered %d images there", how, end, atLine[end])
		}
	}
	return nil
}

func checkC05(c c05Case, info *core.Info) error {
	ls := c.Lines
	chunks, pass := 0, 0
	var lines []string
	for _, l := range ls {
		lines = append(lines, l.text())
		if l.IDs != "" {
			chunks++
		} else {
			pass++
		}
	}
	nc := len(cleanEnds(ls))
	info.NonTrivial(chunks > 1)
	info.LabelIf(nc > 0, "contains a clean run")
	info.LabelIf(nc == 0, "no clean run")
	info.LabelIf(nc > 1, "several clean runs")
	info.LabelIf(pass > 0, "pass-through lines")

	// what the other lines mean, line by line
	passEffs := func(i int, ms []*rwp.InboundMessage) error {
		if ls[i].IDs != "" {
			return nil
		}
		want, _, err := (&inReader{}).read(ls[i].Other)
		if err != nil {
			return nil
		}
		return diffEffs(effsOfAll(ms), want)
	}

	ds := deliveries(rapi.RawPanelASCIIstringsToInboundMessages(lines), -1)
	info.LabelIf(len(ds) > 0, "an image is delivered")
	info.LabelIf(len(ds) > nc, "delivered although interrupted")
	if err := judge("batch", ls, ds); err != nil {
		return err
	}
	stream := func(how string, feed func(i int, line string) ([]*rwp.InboundMessage, error)) error {
		var ds []delivery
		for i, line := range lines {
			ms, err := feed(i, line)
			if err != nil {
				return err
			}
			d := deliveries(ms, i)
			if len(d) > 1 || len(d) == 1 && ls[i].IDs == "" {
				return fmt.Errorf("%s: line %d %q delivers %d images", how, i, clip(line), len(d))
			}
			if ls[i].IDs != "" && len(effsOfAll(ms)) > len(d)*strings.Count(ls[i].IDs+",", ",") {
				return fmt.Errorf("%s: chunk line %d has other effects than an image", how, i)
			}
			if err := passEffs(i, ms); err != nil {
				return fmt.Errorf("%s: line %d %q: %v", how, i, clip(line), err)
			}
			ds = append(ds, d...)
		}
		return judge(how, ls, ds)
	}
	rd := &rapi.ASCIIreader{}
	if err := stream("streaming", func(i int, line string) ([]*rwp.InboundMessage, error) { return rd.Parse(line), nil }); err != nil {
		return err
	}
	rd2 := &rapi.ASCIIreader{}
	if err := stream("streaming with serialised state", func(i int, line string) ([]*rwp.InboundMessage, error) {
		if i >= len(c.Restore) || c.Restore[i] {
			js, err := json.Marshal(rd2)
			if err != nil {
				return nil, err
			}
			rd2 = &rapi.ASCIIreader{}
			if err := json.Unmarshal(js, rd2); err != nil {
				return nil, err
			}
		}
		return rd2.Parse(line), nil
	}); err != nil {
		return err
	}
	if cBindingAvailable() && len(c.Restore) > 0 {
		info.Label("also through the C binding")
		var state []byte
		return stream("C binding", func(i int, line string) ([]*rwp.InboundMessage, error) {
			b, st, err := cb.parse(line, state)
			if err != nil {
				return nil, err
			}
			state = st
			if b == nil {
				return nil, nil
			}
			m := &rwp.InboundMessage{}
			return []*rwp.InboundMessage{m}, proto.Unmarshal(b, m)
		})
	}
	return nil
}

var passLines = []string{"ping", "HWC#3=4", "HWCc#1,2=130", "HWCt#1=5||||", "list", "", "MemA=5", "Clear", "unknown line", "{\"HWCIDs\":[4],\"HWCMode\":{\"State\":3}}", "HWCx#1=4100"}

func payload(tag, n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(tag + i*31)
	}
	return d
}

// genRun makes the lines of one transfer.
func genRun(t *rapid.T, tag int, maxMax int) (out []GLine) {
	l := GLine{Key: b32(t, 2, "key"), IDs: rapid.SampledFrom([]string{"1", "2", "1,2", "3"}).Draw(t, "ids")}
	if b32(t, 2, "few") > 0 {
		l.Key, l.IDs = 0, "1"
	}
	max := 2
	if b32(t, 3, "adv") > 0 {
		if b32(t, 15, "long") == 0 { // two and three digits in the line number
			maxMax = rapid.SampledFrom([]int{12, 12, 12, 105}).Draw(t, "maxmax")
		}
		l.Adv, l.Max, l.W, l.H = true, b32(t, maxMax, "max"), genU32().Draw(t, "w"), genU32().Draw(t, "h")
		max = l.Max
		if rapid.Bool().Draw(t, "off") {
			l.Off, l.X, l.Y = true, genU32().Draw(t, "x"), genU32().Draw(t, "y")
		}
	}
	for i := 0; i <= max; i++ {
		c := l
		if i > 0 {
			c = GLine{Key: l.Key, IDs: l.IDs}
		}
		c.Idx = i
		n := rapid.SampledFrom([]int{1, 2, 5, 170, 3, 0}).Draw(t, "n")
		c.Data = payload(tag*16+i, n)
		out = append(out, c)
	}
	return
}

func genHistory(t *rapid.T) c05Case {
	var ls []GLine
	runs := rapid.IntRange(1, 4).Draw(t, "runs")
	for k := 0; k < runs; k++ {
		ls = append(ls, genRun(t, k*5+1, 4)...)
	}
	pick := func(l string) int { return rapid.IntRange(0, len(ls)-1).Draw(t, l) }
	ins := func(at int, l GLine) { ls = append(ls[:at], append([]GLine{l}, ls[at:]...)...) }
	for m := rapid.IntRange(0, 5).Draw(t, "muts"); m > 0 && len(ls) > 0; m-- {
		switch b32(t, 8, "mut") {
		case 0: // drop
			i := pick("i")
			ls = append(ls[:i], ls[i+1:]...)
		case 1: // repeat in place
			i := pick("i")
			ins(i, ls[i])
		case 2: // copy elsewhere
			ins(pick("j"), ls[pick("i")])
		case 3: // swap neighbours
			if i := pick("i"); i+1 < len(ls) {
				ls[i], ls[i+1] = ls[i+1], ls[i]
			}
		case 4: // trailing chunk with the next indices
			i := pick("i")
			l := ls[i]
			if l.IDs != "" {
				ins(i+1, GLine{Key: l.Key, IDs: l.IDs, Idx: l.Idx + 1 + b32(t, 1, "skip"), Data: payload(90+m, 3)})
			}
		case 5: // a chunk for another place or format
			i := pick("i")
			l := ls[i]
			if l.IDs != "" {
				n := GLine{Key: l.Key, IDs: l.IDs, Idx: l.Idx + b32(t, 1, "d"), Data: payload(70+m, 3)}
				if rapid.Bool().Draw(t, "ids") {
					n.IDs = rapid.SampledFrom([]string{"1", "2", "1,2"}).Draw(t, "oids")
				} else {
					n.Key = b32(t, 2, "okey")
				}
				ins(i+b32(t, 1, "after"), n)
			}
		case 6, 7: // other lines in between
			ins(pick("i"), GLine{Other: rapid.SampledFrom(passLines).Draw(t, "pass")})
		case 8: // cut off
			ls = ls[:pick("i")+1]
		}
	}
	c := c05Case{Lines: ls}
	for range ls {
		c.Restore = append(c.Restore, rapid.Bool().Draw(t, "rest"))
	}
	return c
}

type imgCase struct {
	Msg   Msgs
	Pass  []int // after how many lines a pass-through line comes in
	Words []string
}

// checkImage: the library's own lines for an image reassemble to that image.
func checkImage(c imgCase, info *core.Info) error {
	ms := c.Msg.in()
	lines := rapi.InboundMessagesToRawPanelASCIIstrings(ms)
	if err := compareGroups(lines, ms); err != nil {
		return fmt.Errorf("the produced lines: %v", err)
	}
	info.NonTrivial(len(lines) > 0)
	info.LabelIf(len(lines) > 3, "more than 3 lines")
	for i, p := range c.Pass {
		if len(lines) > 0 {
			at := p % (len(lines) + 1)
			lines = append(lines[:at], append([]string{c.Words[i%len(c.Words)]}, lines[at:]...)...)
			info.Label("interleaved lines")
		}
	}
	want := []Eff{}
	rd := &inReader{}
	var per [][]Eff
	for _, l := range lines {
		e, _, err := rd.read(l)
		if err != nil {
			return fmt.Errorf("%q: %v", clip(l), err)
		}
		want = append(want, e...)
		per = append(per, e)
	}
	if err := diffEffs(effsOfAll(rapi.RawPanelASCIIstringsToInboundMessages(lines)), want); err != nil {
		return fmt.Errorf("batch: %v", err)
	}
	sr := &rapi.ASCIIreader{}
	sj := &rapi.ASCIIreader{}
	var state []byte
	for i, l := range lines {
		if err := diffEffs(effsOfAll(sr.Parse(l)), per[i]); err != nil {
			return fmt.Errorf("streaming line %d: %v", i, err)
		}
		js, _ := json.Marshal(sj)
		sj = &rapi.ASCIIreader{}
		if err := json.Unmarshal(js, sj); err != nil {
			return err
		}
		if err := diffEffs(effsOfAll(sj.Parse(l)), per[i]); err != nil {
			return fmt.Errorf("streaming with serialised state, line %d: %v", i, err)
		}
		if cBindingAvailable() {
			b, st, err := cb.parse(l, state)
			if err != nil {
				return err
			}
			state = st
			var got []Eff
			if b != nil {
				m := &rwp.InboundMessage{}
				if err := proto.Unmarshal(b, m); err != nil {
					return err
				}
				got = inboundEffects(m)
			}
			if err := diffEffs(got, per[i]); err != nil {
				return fmt.Errorf("C binding line %d: %v", i, err)
			}
		}
	}
	return nil
}

func TestC05(t *testing.T) {
	r := core.Start(t, "C05")
	defer r.Finish()
	if !cBindingAvailable() {
		r.Note("C binding not built", 1)
	}
	// all histories up to a bounded length over an alphabet of chunk lines
	alphabet := func(n int) (a []GLine) {
		for _, tgt := range []struct {
			ids string
			key int
		}{{"1", 0}, {"2", 0}, {"1", 1}} {
			top := n + 1
			if tgt.ids != "1" || tgt.key != 0 {
				top = n
			}
			for i := 0; i <= top; i++ {
				l := GLine{IDs: tgt.ids, Key: tgt.key, Idx: i}
				if i == 0 && n != 2 {
					l.Adv, l.Max, l.W, l.H, l.Off, l.X, l.Y = true, n, 8, 4, tgt.key == 1, 3, 2
				}
				a = append(a, l)
			}
		}
		return append(a, GLine{Other: "HWC#7=4"})
	}
	enum := func(name string, n, length int) {
		a := alphabet(n)
		core.Enumerate(r, name, func(yield func(c05Case) bool) {
			idx := make([]int, length)
			for {
				var ls []GLine
				for i, k := range idx {
					l := a[k]
					if l.IDs != "" {
						l.Data = payload(10+i*7, 2)
					}
					ls = append(ls, l)
				}
				if !yield(c05Case{Lines: ls}) {
					return
				}
				p := length - 1
				for p >= 0 {
					idx[p]++
					if idx[p] < len(a) {
						break
					}
					idx[p] = 0
					p--
				}
				if p < 0 {
					return
				}
			}
		}, checkC05)
	}
	if r.Thorough {
		enum("all-histories-N1", 1, 6)
		enum("all-histories-N2", 2, 6)
		enum("all-histories-N0", 0, 7)
	} else {
		enum("all-histories-N1", 1, 5)
		enum("all-histories-N2", 2, 5)
		enum("all-histories-N0", 0, 5)
	}
	core.Explore(r, "histories", core.Size{Quick: 20000, Thorough: 800000}, genHistory, checkC05)
	core.Explore(r, "images", core.Size{Quick: 2500, Thorough: 100000}, func(t *rapid.T) imgCase {
		var ss []*rwp.HWCState
		for i := 0; i <= b32(t, 2, "n"); i++ {
			ss = append(ss, &rwp.HWCState{HWCIDs: rapid.SliceOfN(genID(), 1, 3).Draw(t, "ids"), HWCGfx: genGfx(t, 6000)})
		}
		return imgCase{packIn(stateMsg(ss...)), rapid.SliceOfN(rapid.IntRange(0, 200), 0, 4).Draw(t, "pass"), []string{rapid.SampledFrom(passLines).Draw(t, "w1"), rapid.SampledFrom(passLines).Draw(t, "w2")}}
	}, checkImage)
	// many lines: every number of digits a line number can take
	core.Enumerate(r, "big-images", func(yield func(imgCase) bool) {
		sizes := []int{1530, 1699, 1700, 1701, 1870, 1871, 9999, 16830, 16999, 17000, 17001, 17170, 17171, 20000, 40960, 65535, 65536, 153600, 170000, 170001, 172000}
		if r.Thorough {
			sizes = append(sizes, 307200, 614400, 1700001)
		}
		for k, n := range sizes {
			g := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(k % 3), W: 320, H: uint32(n / 640), XYoffset: k%2 == 0, X: 7, Y: 9, ImageData: payload(k, n)}
			if !yield(imgCase{Msg: packIn(stateMsg(&rwp.HWCState{HWCIDs: []uint32{uint32(k)}, HWCGfx: g})), Pass: []int{1, 50}, Words: []string{"HWC#3=4"}}) {
				return
			}
		}
	}, checkImage)
	core.Enumerate(r, "image-lengths", func(yield func(imgCase) bool) {
		max := 360
		if r.Thorough {
			max = 4000
		}
		for n := 0; n <= max; n++ {
			g := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(n % 3), W: uint32(n + 1), H: uint32(n / 3), XYoffset: n%2 == 0, X: uint32(n % 7), Y: uint32(n % 5), ImageData: payload(n, n)}
			if !yield(imgCase{Msg: packIn(stateMsg(&rwp.HWCState{HWCIDs: []uint32{uint32(n), 7}, HWCGfx: g})), Pass: []int{1}, Words: []string{"HWC#3=4"}}) {
				return
			}
		}
	}, func(c imgCase, info *core.Info) error {
		if ms := c.Msg.in(); len(ms[0].States[0].HWCGfx.ImageData) == 0 {
			// no line carries an empty image: nothing must come out of what there is
			lines := rapi.InboundMessagesToRawPanelASCIIstrings(ms)
			for _, d := range deliveries(rapi.RawPanelASCIIstringsToInboundMessages(lines), -1) {
				if !strings.Contains(d.im, "len=0 ") {
					return fmt.Errorf("an empty image turns into %s", clip(d.im))
				}
			}
			return nil
		}
		return checkImage(c, info)
	})
}
