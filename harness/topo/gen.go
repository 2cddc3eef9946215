// Package topo checks the topology package.
package topo

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode/utf8"

	"rwpverif/core"

	tp "github.com/SKAARHOJ/rawpanel-lib/topology"
	"pgregory.net/rapid"
)

// Own mirror types, so that cases, the reference resolver and comparisons do
// not use the code under test.

type Disp struct {
	W, H, Subidx   int
	Type           string
	Shrink, Border int
}

type Sub struct {
	Kind                  string
	X, Y, W, H, R, Rx, Ry int
	Style                 string
	Idx                   int
}

type Def struct {
	W, H                       int
	Out, In, Desc, Ext, Render string
	Subidx                     int
	Rotate                     float32
	Disp                       *Disp
	Sub                        []Sub
}

type Comp struct {
	Id               uint32
	X, Y             int
	Txt              string
	Type             uint32
	Over             *Def
	UIparent, UIyang uint32
}

type TypeEntry struct {
	Key uint32
	Def Def
}

type Topo struct {
	Title string
	HWc   []Comp
	Index []TypeEntry
}

func (d *Disp) lib() *tp.TopologyHWcTypeDef_Display {
	if d == nil {
		return nil
	}
	return &tp.TopologyHWcTypeDef_Display{W: d.W, H: d.H, Subidx: d.Subidx, Type: d.Type, Shrink: d.Shrink, Border: d.Border}
}

func fromDisp(d *tp.TopologyHWcTypeDef_Display) *Disp {
	if d == nil {
		return nil
	}
	return &Disp{d.W, d.H, d.Subidx, d.Type, d.Shrink, d.Border}
}

func (d *Def) fill(l *tp.TopologyHWcTypeDef) {
	l.W, l.H, l.Out, l.In, l.Desc, l.Ext, l.Render = d.W, d.H, d.Out, d.In, d.Desc, d.Ext, d.Render
	l.Subidx, l.Rotate, l.Disp = d.Subidx, d.Rotate, d.Disp.lib()
	for _, s := range d.Sub {
		l.Sub = append(l.Sub, tp.TopologyHWcTypeDefSubEl{ObjType: s.Kind, X: s.X, Y: s.Y, W: s.W, H: s.H, R: s.R, Rx: s.Rx, Ry: s.Ry, Style: s.Style, Idx: s.Idx})
	}
}

func fromDef(l *tp.TopologyHWcTypeDef) *Def {
	if l == nil {
		return nil
	}
	d := &Def{W: l.W, H: l.H, Out: l.Out, In: l.In, Desc: l.Desc, Ext: l.Ext, Render: l.Render, Subidx: l.Subidx, Rotate: l.Rotate, Disp: fromDisp(l.Disp)}
	for _, s := range l.Sub {
		d.Sub = append(d.Sub, Sub{s.ObjType, s.X, s.Y, s.W, s.H, s.R, s.Rx, s.Ry, s.Style, s.Idx})
	}
	return d
}

// lib makes the library's value.
func (t *Topo) lib() *tp.Topology {
	l := &tp.Topology{Title: t.Title}
	for _, c := range t.HWc {
		h := tp.TopologyHWcomponent{Id: c.Id, X: c.X, Y: c.Y, Txt: c.Txt, Type: c.Type, UIparent: c.UIparent, UIyang: c.UIyang}
		if c.Over != nil {
			h.TypeOverride = &tp.TopologyHWcTypeDef{}
			c.Over.fill(h.TypeOverride)
		}
		l.HWc = append(l.HWc, h)
	}
	l.TypeIndex = map[uint32]tp.TopologyHWcTypeDef{}
	for _, e := range t.Index {
		var d tp.TopologyHWcTypeDef
		e.Def.fill(&d)
		l.TypeIndex[e.Key] = d
	}
	return l
}

// into gives an existing value this content, in place as far as possible.
func (t *Topo) into(l *tp.Topology) {
	b := t.lib()
	l.Title = b.Title
	for i := range b.HWc {
		if i >= len(l.HWc) {
			l.HWc = append(l.HWc, b.HWc[i:]...)
			break
		}
		old := l.HWc[i].TypeOverride
		l.HWc[i] = b.HWc[i]
		if o := t.HWc[i].Over; o != nil && old != nil {
			*old = tp.TopologyHWcTypeDef{}
			o.fill(old)
			l.HWc[i].TypeOverride = old
		}
	}
	if l.HWc = l.HWc[:len(b.HWc)]; len(b.HWc) == 0 {
		l.HWc = nil
	}
	for k := range l.TypeIndex {
		if _, ok := b.TypeIndex[k]; !ok {
			delete(l.TypeIndex, k)
		}
	}
	for _, e := range t.Index {
		var d tp.TopologyHWcTypeDef
		e.Def.fill(&d)
		l.TypeIndex[e.Key] = d
	}
}

// fromLib is the inverse; the type index is sorted by key.
func fromLib(l *tp.Topology) *Topo {
	t := &Topo{Title: l.Title}
	for i := range l.HWc {
		h := &l.HWc[i]
		t.HWc = append(t.HWc, Comp{h.Id, h.X, h.Y, h.Txt, h.Type, fromDef(h.TypeOverride), h.UIparent, h.UIyang})
	}
	var keys []int
	for k := range l.TypeIndex {
		keys = append(keys, int(k))
	}
	sort.Ints(keys)
	for _, k := range keys {
		d := l.TypeIndex[uint32(k)]
		t.Index = append(t.Index, TypeEntry{uint32(k), *fromDef(&d)})
	}
	return t
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// normal sorts the index and removes duplicate keys (the last one counts).
func (t *Topo) normal() {
	m := map[uint32]Def{}
	for _, e := range t.Index {
		m[e.Key] = e.Def
	}
	t.Index = nil
	for k, d := range m {
		t.Index = append(t.Index, TypeEntry{k, d})
	}
	sort.Slice(t.Index, func(a, b int) bool { return t.Index[a].Key < t.Index[b].Key })
}

func (t *Topo) base(key uint32) (Def, bool) {
	for _, e := range t.Index {
		if e.Key == key {
			return e.Def, true
		}
	}
	return Def{}, false
}

// resolve is the reference overlay.
func (t *Topo) resolve(c *Comp) Def {
	d, _ := t.base(c.Type)
	o := c.Over
	if o == nil {
		return d
	}
	pickI := func(p *int, v int) {
		if v != 0 {
			*p = v
		}
	}
	pickS := func(p *string, v string) {
		if v != "" {
			*p = v
		}
	}
	pickI(&d.W, o.W)
	pickI(&d.H, o.H)
	pickI(&d.Subidx, o.Subidx)
	pickS(&d.Out, o.Out)
	pickS(&d.In, o.In)
	pickS(&d.Ext, o.Ext)
	pickS(&d.Desc, o.Desc)
	pickS(&d.Render, o.Render)
	if o.Rotate != 0 {
		d.Rotate = o.Rotate
	}
	if o.Disp != nil {
		d.Disp = o.Disp
	}
	if len(o.Sub) > 0 {
		d.Sub = o.Sub
	}
	return d
}

// ---- generators

var inKinds = []string{"", "b", "b4", "b2h", "b2v", "pb", "p", "gpi", "av", "ah", "ar", "a", "iv", "ih", "ir", "i", "rg", "rb", "mono", "unknown", "B", "bb", "b4x"}

func genIn(t *rapid.T) string {
	s := rapid.SampledFrom(inKinds).Draw(t, "in")
	switch rapid.IntRange(0, 3).Draw(t, "list") {
	case 0:
		s += "," + rapid.SampledFrom(inKinds).Draw(t, "in2")
		if rapid.Bool().Draw(t, "three") {
			s += ", " + rapid.SampledFrom(inKinds).Draw(t, "in3")
		}
	}
	if rapid.IntRange(0, 15).Draw(t, "mined") == 9 {
		return core.Strings("plain", plain).Draw(t, "in0")
	}
	return s
}

// word draws a listed word, now and then one from the dictionary.
func word(words ...string) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		if rapid.IntRange(0, 11).Draw(t, "mined") == 9 {
			return core.Strings("plain", plain).Draw(t, "word")
		}
		return rapid.SampledFrom(words).Draw(t, "word")
	})
}

func genTxt() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"", "A", "Cam 1", "One|Two", "|Two", "One|", "|", "One|Two|Three", "One||Three", "ä<&>\"'|é漢", " x | y "}),
		rapid.StringOfN(rapid.SampledFrom([]rune("ab|<>&\"'ä漢 \n\t%\\/{}")), 0, 14, -1),
		rapid.StringN(0, 8, -1),
		core.Strings("plain", plain),
		rapid.StringOfN(rapid.SampledFrom([]rune("ab |ä")), 15, 300, -1),
	)
}

func genInt(lo, hi int) *rapid.Generator[int] {
	return rapid.OneOf(rapid.IntRange(lo, hi), rapid.IntRange(lo, hi), rapid.SampledFrom([]int{0, 1, 2, lo, hi}), rapid.Map(core.Ints(int64(lo), int64(hi)), func(i int64) int { return int(i) }))
}

// plain accepts what is valid UTF-8, as JSON carries nothing else.
func plain(s string) bool { return utf8.ValidString(s) }

func genSubs(t *rapid.T) (out []Sub) {
	for n := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 6}).Draw(t, "subs"); n > 0; n-- {
		s := Sub{Kind: word("r", "c", "d", "r", "c", "", "x", "rc").Draw(t, "kind")}
		s.X, s.Y = genInt(-300, 300).Draw(t, "sx"), genInt(-300, 300).Draw(t, "sy")
		s.W, s.H, s.R = genInt(0, 300).Draw(t, "sw"), genInt(0, 300).Draw(t, "sh"), genInt(0, 90).Draw(t, "sr")
		s.Rx, s.Ry = rapid.SampledFrom([]int{0, 0, 3, -2}).Draw(t, "rx"), rapid.SampledFrom([]int{0, 0, 4}).Draw(t, "ry")
		s.Style = word("", "", "fill:#123", "fill:\"<&>").Draw(t, "style")
		s.Idx = rapid.IntRange(-3, 12).Draw(t, "idx")
		out = append(out, s)
	}
	return
}

func genDisp(t *rapid.T) *Disp {
	return &Disp{genInt(0, 400).Draw(t, "dw"), genInt(0, 200).Draw(t, "dh"), rapid.IntRange(-2, 7).Draw(t, "dsub"),
		word("", "gray", "color", "text", "<&>").Draw(t, "dtype"), rapid.IntRange(0, 3).Draw(t, "shrink"), rapid.IntRange(0, 5).Draw(t, "border")}
}

func genRotate() *rapid.Generator[float32] {
	return rapid.OneOf(rapid.SampledFrom([]float32{0, 0, 90, 45, -30, 180, 0.5, -0.125, 359.9, 1e-3, 1e6}), rapid.Map(rapid.Float32Range(-400, 400), func(f float32) float32 {
		if math.IsNaN(float64(f)) {
			return 1
		}
		if f == 0 { // no negative zero: JSON leaves it out
			return 0
		}
		return f
	}))
}

// genDef makes a definition; with sparse every attribute is absent half the time.
func genDef(t *rapid.T, sparse bool) Def {
	mask := 0x7ff
	if sparse {
		mask = rapid.OneOf(rapid.IntRange(0, 0x7ff), rapid.Map(rapid.IntRange(0, 10), func(i int) int { return 1 << i })).Draw(t, "mask")
	}
	has := func(b int) bool { return mask>>b&1 != 0 }
	d := Def{}
	if has(0) {
		d.W = genInt(0, 600).Draw(t, "w")
	}
	if has(1) {
		d.H = rapid.OneOf(rapid.Just(0), genInt(0, 500)).Draw(t, "h")
	}
	if has(2) {
		d.Out = word("", "rgb", "rg", "mono", "rb", "mono,x").Draw(t, "out")
	}
	if has(3) {
		d.In = genIn(t)
	}
	if has(4) {
		d.Desc = word("", "Button", "a <b> & c", "{}", "ö").Draw(t, "desc")
	}
	if has(5) {
		d.Ext = word("", "pos", "steps", "steps,pos", "pos,steps", "ledbarsteps", "x").Draw(t, "ext")
	}
	if has(6) {
		d.Render = word("", "txt", "hwcid", "txt,hwcid", "invtxt", "invtxt,txt", "other", " txt", "txt90").Draw(t, "render")
	}
	if has(7) {
		d.Subidx = rapid.IntRange(0, 5).Draw(t, "subidx")
		if !sparse {
			d.Subidx = rapid.IntRange(-1, 5).Draw(t, "subidx2")
		}
	}
	if has(8) {
		d.Rotate = genRotate().Draw(t, "rotate")
	}
	if has(9) && (sparse || rapid.Bool().Draw(t, "disp?")) {
		d.Disp = genDisp(t)
	}
	if has(10) {
		d.Sub = genSubs(t)
	}
	return d
}

func genKey() *rapid.Generator[uint32] {
	return rapid.OneOf(rapid.Uint32Range(1, 6), rapid.SampledFrom([]uint32{1, 2, 3, 250, 250, 999999, 1000000, math.MaxUint32}), rapid.Uint32Range(1, 300), rapid.Map(core.Ints(1, math.MaxUint32), func(i int64) uint32 { return uint32(i) }))
}

// genTopo makes a topology. With indexed every component's type is in the
// index or 0.
func genTopo(t *rapid.T, indexed bool, max int) *Topo {
	tt := &Topo{Title: word("", "Panel", "a<b>\"&ö").Draw(t, "title")}
	for n := rapid.IntRange(0, 6).Draw(t, "types"); n > 0; n-- {
		tt.Index = append(tt.Index, TypeEntry{genKey().Draw(t, "key"), genDef(t, rapid.Bool().Draw(t, "sparseType"))})
	}
	tt.normal()
	var keys []uint32
	for _, e := range tt.Index {
		keys = append(keys, e.Key)
	}
	n := core.Count(t, 0, max, max+60, "comps")
	for i := 0; i < n; i++ {
		c := Comp{Id: uint32(i + 1)}
		switch rapid.IntRange(0, 6).Draw(t, "idkind") {
		case 2:
			c.Id = genKey().Draw(t, "dictid")
		case 0:
			c.Id = rapid.Uint32Range(0, 6).Draw(t, "dup")
		case 1:
			c.Id = rapid.SampledFrom([]uint32{0, 7, 1000, math.MaxInt32, math.MaxUint32}).Draw(t, "oddid")
		}
		c.X, c.Y = genInt(-50, 4000).Draw(t, "x"), genInt(-50, 3000).Draw(t, "y")
		c.Txt = genTxt().Draw(t, "txt")
		switch k := rapid.IntRange(0, 9).Draw(t, "typekind"); {
		case k == 0:
		case k == 1 && !indexed:
			c.Type = genKey().Draw(t, "missing")
		case len(keys) > 0:
			c.Type = rapid.SampledFrom(keys).Draw(t, "type")
		}
		if rapid.IntRange(0, 2).Draw(t, "over?") > 0 {
			d := genDef(t, true)
			c.Over = &d
		}
		c.UIparent = rapid.SampledFrom([]uint32{0, 0, 3}).Draw(t, "uip")
		c.UIyang = rapid.SampledFrom([]uint32{0, 0, 4}).Draw(t, "uiy")
		tt.HWc = append(tt.HWc, c)
	}
	return tt
}

func sameDef(got *Def, want Def, what string) error {
	if got == nil {
		return fmt.Errorf("%s: nil", what)
	}
	if js(got) != js(&want) {
		return fmt.Errorf("%s: got %s, want %s", what, js(got), js(&want))
	}
	return nil
}

func firstToken(s string) string { return strings.Split(s, ",")[0] }
