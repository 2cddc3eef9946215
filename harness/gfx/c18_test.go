package gfx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"os/exec"
	"slices"
	"strings"
	"sync"
	"testing"

	lib "github.com/SKAARHOJ/rawpanel-lib"
	mg "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"rwpverif/core"
)

// Own form of a text state, so that cases are plain JSON.

type font struct{ Face, W, H int }

type col struct {
	Rgb     bool
	Idx     bool
	R, G, B uint32
	I       int32
}

type text struct {
	Int, Int2      int32
	Fmt            int32
	State, Mod     int32
	Title, L1, L2  string
	Solid          bool
	Pair           int32
	HasScale       bool
	Scale          [5]int32 // type, low, high, limit low, limit high
	HasStyle       bool
	TitleF, TextF  *font
	Fixed          bool
	Pad, Space, Un uint32
	Inv            bool
	Pix, Bg        *col
}

func (c *col) lib() *rwp.Color {
	if c == nil {
		return nil
	}
	l := &rwp.Color{}
	if c.Rgb {
		l.ColorRGB = &rwp.ColorRGB{Red: c.R, Green: c.G, Blue: c.B}
	}
	if c.Idx {
		l.ColorIndex = &rwp.ColorIndex{Index: rwp.ColorIndex_Colors(c.I)}
	}
	return l
}

// the documented index colours as rrggbb
var indexColors = []int{0b111111, 0, 0b111111, 0b111101, 0b110000, 0b110101, 0b110011, 0b010011, 0b110100, 0b111100, 0b000011, 0b000111, 0b011011, 0b001111, 0b011100, 0b001100, 0b001101, 0b101010, 0b010101}

// want565 is the colour requested, def where the state has none.
func (c *col) want565(def uint16) (v uint16, known bool) {
	switch {
	case c == nil:
		return def, true
	case c.Rgb:
		q := func(v uint32) int { return int(min(v, 255)) * 3 / 255 }
		return to565(q(c.R)<<4 | q(c.G)<<2 | q(c.B)), true
	case c.Idx:
		if c.I < 0 {
			return 0, false
		}
		i := int(c.I & 31)
		if i >= len(indexColors) {
			i = 0 // the default
		}
		return to565(indexColors[i]), true
	}
	return 0, false
}

func (f *font) lib() *rwp.HWCText_TextStyle_Font {
	if f == nil {
		return nil
	}
	return &rwp.HWCText_TextStyle_Font{FontFace: rwp.HWCText_TextStyle_Font_FontFaceE(f.Face), TextWidth: uint32(f.W), TextHeight: uint32(f.H)}
}

func (s *text) lib() *rwp.HWCText {
	l := &rwp.HWCText{IntegerValue: s.Int, IntegerValue2: s.Int2, Formatting: rwp.HWCText_FormattingE(s.Fmt), StateIcon: rwp.HWCText_StateIconE(s.State),
		ModifierIcon: rwp.HWCText_ModifierIconE(s.Mod), Title: s.Title, Textline1: s.L1, Textline2: s.L2, SolidHeaderBar: s.Solid,
		PairMode: rwp.HWCText_PairModeE(s.Pair), Inverted: s.Inv, PixelColor: s.Pix.lib(), BackgroundColor: s.Bg.lib()}
	if s.HasScale {
		l.Scale = &rwp.HWCText_ScaleM{ScaleType: rwp.HWCText_ScaleM_ScaleTypeE(s.Scale[0]), RangeLow: s.Scale[1], RangeHigh: s.Scale[2], LimitLow: s.Scale[3], LimitHigh: s.Scale[4]}
	}
	if s.HasStyle {
		l.TextStyling = &rwp.HWCText_TextStyle{TitleFont: s.TitleF.lib(), TextFont: s.TextF.lib(), FixedWidth: s.Fixed, TitleBarPadding: s.Pad, ExtraCharacterSpacing: s.Space, UnformattedFontSize: s.Un}
	}
	return l
}

func fillNil(l *rwp.HWCText) {
	if l.TextStyling == nil {
		l.TextStyling = &rwp.HWCText_TextStyle{}
	}
	if l.TextStyling.TextFont == nil {
		l.TextStyling.TextFont = &rwp.HWCText_TextStyle_Font{}
	}
	if l.TextStyling.TitleFont == nil {
		l.TextStyling.TitleFont = &rwp.HWCText_TextStyle_Font{}
	}
	if l.Scale == nil {
		l.Scale = &rwp.HWCText_ScaleM{}
	}
}

type tileCase struct {
	T              text
	W, H           int
	Shrink, Border int
	// values of the strength bar, ascending
	Other *text `json:",omitempty"`
	// Other is rendered from the object that then becomes T
	InPlace bool `json:",omitempty"`
}

type tile struct {
	w, h int
	b    []byte
	rgb  []byte
	pix  uint16
	bg   uint16
}

func (t *tile) at(x, y int) bool { return bitAt(t.b, (t.w+7)/8, x, y) }

func render(s *text, w, h, shrink, border int) (*tile, error) {
	return renderOf(s.lib(), w, h, shrink, border)
}

func renderOf(l *rwp.HWCText, w, h, shrink, border int) (*tile, error) {
	in := proto.Clone(l).(*rwp.HWCText)
	img := lib.WriteDisplayTileNew(l, w, h, shrink, border)
	fillNil(in)
	after := proto.Clone(l).(*rwp.HWCText)
	fillNil(after)
	if !proto.Equal(in, after) {
		return nil, fmt.Errorf("the input state changed from %v to %v", in, after)
	}
	t := &tile{w, h, img.GetImgSlice(), img.GetImgSliceRGB(), img.OLEDPixelColor, img.OLEDBckgColor}
	if img.Width != w || img.Height != h || len(t.b) != (w+7)/8*h || len(t.rgb) != 2*w*h {
		return nil, fmt.Errorf("the image is %dx%d with %d and %d bytes, want %dx%d", img.Width, img.Height, len(t.b), len(t.rgb), w, h)
	}
	return t, nil
}

// active is the area left by shrink and border.
func active(w, h, shrink, border int) rect {
	if border > 0 {
		return rect{border, border, w - border, h - border}
	}
	return rect{0, 0, w - shrink&1, h - shrink>>1&1}
}

func (t *tile) ink(r rect) (b rect) {
	b = rect{math.MaxInt, math.MaxInt, math.MinInt, math.MinInt}
	for y := max(r.y0, 0); y < min(r.y1, t.h); y++ {
		for x := max(r.x0, 0); x < min(r.x1, t.w); x++ {
			if t.at(x, y) {
				b.x0, b.y0, b.x1, b.y1 = min(b.x0, x), min(b.y0, y), max(b.x1, x+1), max(b.y1, y+1)
			}
		}
	}
	return
}

func printable(s string) bool {
	for _, r := range s {
		if r < 32 || r > 126 {
			return false
		}
	}
	return true
}

func checkTile(c tileCase, info *core.Info) error {
	pos := c.T
	pos.Inv = false
	neg := c.T
	neg.Inv = true
	t, err := render(&pos, c.W, c.H, c.Shrink, c.Border)
	if err != nil {
		return err
	}
	a := active(c.W, c.H, c.Shrink, c.Border)
	lit := 0
	for y := 0; y < c.H; y++ {
		for x := 0; x < c.W; x++ {
			if t.at(x, y) {
				lit++
				if !a.has(x, y) {
					return fmt.Errorf("pixel %d,%d is lit outside the active area %v of %dx%d", x, y, a, c.W, c.H)
				}
			}
		}
	}
	info.NonTrivial(lit > 0)
	if c.T.Fmt >= 0 && c.T.Fmt <= 12 {
		info.Label("formatting %d", c.T.Fmt)
	} else {
		info.Label("formatting beyond 12")
	}
	info.LabelIf(c.Border > 0, "border")
	info.LabelIf(c.T.Pair > 0, "pair")
	info.LabelIf(c.T.HasScale && c.T.Scale[0] > 0, "scale")
	n, err := render(&neg, c.W, c.H, c.Shrink, c.Border)
	if err != nil {
		return err
	}
	for y := 0; y < c.H; y++ {
		for x := 0; x < c.W; x++ {
			if t.at(x, y) == n.at(x, y) {
				return fmt.Errorf("pixel %d,%d is %v in both the plain and the inverted image", x, y, t.at(x, y))
			}
		}
	}
	// colours of the export
	pix, pk := c.T.Pix.want565(0xffff)
	bg, bk := c.T.Bg.want565(0)
	for _, im := range []*tile{t, n} {
		for y := 0; y < c.H; y++ {
			for x := 0; x < c.W; x++ {
				i := 2 * (y*c.W + x)
				got := uint16(im.rgb[i])<<8 | uint16(im.rgb[i+1])
				if im.at(x, y) && pk && got != pix || !im.at(x, y) && bk && got != bg {
					return fmt.Errorf("pixel %d,%d (lit: %v) is exported as %04x; the state requests pixel %04x, background %04x", x, y, im.at(x, y), got, pix, bg)
				}
			}
		}
	}
	// the same again, after another one, which may be the same state object
	// before an edit
	obj := pos.lib()
	if c.Other != nil {
		o := c.Other.lib()
		if _, err := renderOf(o, c.W, c.H, c.Shrink, c.Border); err != nil {
			return err
		}
		if c.InPlace {
			info.Label("state edited in place")
			core.Into(o, obj)
			obj = o
		}
	}
	t2, err := renderOf(obj, c.W, c.H, c.Shrink, c.Border)
	if err != nil {
		return err
	}
	if !bytes.Equal(t.b, t2.b) || !bytes.Equal(t.rgb, t2.rgb) {
		return fmt.Errorf("rendering the same state again gives another image")
	}
	// absent sub-messages mean empty ones
	full := pos
	if !full.HasStyle || full.TitleF == nil || full.TextF == nil || !full.HasScale {
		info.Label("absent sub-messages")
		if !full.HasStyle {
			full.Fixed, full.Pad, full.Space, full.Un = false, 0, 0, 0
			full.TitleF, full.TextF = nil, nil
		}
		full.HasStyle = true
		if full.TitleF == nil {
			full.TitleF = &font{}
		}
		if full.TextF == nil {
			full.TextF = &font{}
		}
		if !full.HasScale {
			full.HasScale, full.Scale = true, [5]int32{}
		}
		t3, err := render(&full, c.W, c.H, c.Shrink, c.Border)
		if err != nil {
			return err
		}
		if !bytes.Equal(t.b, t3.b) {
			return fmt.Errorf("absent sub-messages render differently from empty ones")
		}
	}
	return nil
}

// ---- centring

func checkCentre(c tileCase, info *core.Info) error {
	s := c.T
	s.Inv = false
	t, err := render(&s, c.W, c.H, c.Shrink, c.Border)
	if err != nil {
		return err
	}
	a := active(c.W, c.H, c.Shrink, c.Border)
	aw, ah := a.x1-a.x0, a.y1-a.y0
	// reference: each line on a canvas of its own
	face, fw, fh := 0, 0, 0
	un, space := 0, 0
	if s.HasStyle {
		un, space = int(s.Un), int(s.Space)
		if s.TextF != nil {
			face, fw, fh = s.TextF.Face, s.TextF.W&3, s.TextF.H&3
		}
	}
	sz := min(max(un, 1), 4)
	if fw == 0 {
		fw = sz
	}
	if fh == 0 {
		fh = sz
	}
	lines := []string{s.Title}
	areas := []rect{a}
	if s.Fmt == 11 {
		lines = []string{s.L1, s.L2}
		mid := a.y0 + ah/2
		areas = []rect{{a.x0, a.y0, a.x1, mid}, {a.x0, mid, a.x1, a.y1}}
	}
	for i, line := range lines {
		ref := &mg.MonoImg{}
		ref.NewImage(c.W+40, 80)
		ref.SetFont(face, true)
		ref.SetTextSize(fw, fh)
		ref.SetCharSpacingCompensation(byte(space))
		ref.SetTextWrap(false)
		ref.SetTextColor(true)
		lh := int(ref.LineHeight())
		sw := ref.StrWidth(line)
		if sw > aw || lh*len(lines) > ah || aw <= 0 {
			info.Label("does not fit")
			return nil
		}
		if line == "" || strings.TrimSpace(line) != line {
			continue
		}
		blank := false // the first and last glyph have ink
		runes := []rune(line)
		for _, c := range []rune{runes[0], runes[len(runes)-1]} {
			one := &mg.MonoImg{}
			one.NewImage(40, 40)
			one.SetFont(face, true)
			one.SetTextColor(true)
			one.RenderText(string(c))
			blank = blank || bytes.Count(one.GetImgSlice(), []byte{0}) == len(one.GetImgSlice())
		}
		if blank {
			info.Label("text with a blank margin")
			continue
		}
		ref.RenderText(line)
		rt := &tile{w: c.W + 40, h: 80, b: ref.GetImgSlice()}
		want := rt.ink(rect{0, 0, rt.w, rt.h})
		got := t.ink(areas[i])
		if want.empty() {
			continue
		}
		info.NonTrivial(true)
		info.Label("%d lines", len(lines))
		if got.empty() {
			return fmt.Errorf("line %q fits the active area %v but is not rendered", line, areas[i])
		}
		left, right := got.x0-a.x0, a.x1-got.x1
		if left-right > 2 || right-left > 2 { // the middle is off by more than a pixel
			return fmt.Errorf("line %q is not centred: %d pixels left of it and %d right in the active area %v (ink %v)", line, left, right, a, got)
		}
		if got.x1-got.x0 != want.x1-want.x0 || got.y1-got.y0 != want.y1-want.y0 {
			return fmt.Errorf("line %q has ink %v, on a canvas of its own %v: it is cut although it fits %v", line, got, want, areas[i])
		}
		for y := 0; y < want.y1-want.y0; y++ {
			for x := 0; x < want.x1-want.x0; x++ {
				if t.at(got.x0+x, got.y0+y) != rt.at(want.x0+x, want.y0+y) {
					return fmt.Errorf("line %q: pixel %d,%d of the ink differs from the line rendered on a canvas of its own", line, x, y)
				}
			}
		}
	}
	return nil
}

// ---- strength bar

type barCase struct {
	C      tileCase
	Values []int32
}

func checkBar(c barCase, info *core.Info) error {
	if c.C.T.Fmt != 7 {
		return checkBarBehind(c, info)
	}
	var prev *tile
	var first int
	for i, v := range c.Values {
		s := c.C.T
		s.Int, s.Inv = v, false
		t, err := render(&s, c.C.W, c.C.H, c.C.Shrink, c.C.Border)
		if err != nil {
			return err
		}
		n := 0
		for y := 0; y < t.h; y++ {
			for x := 0; x < t.w; x++ {
				if t.at(x, y) {
					n++
				} else if prev != nil && prev.at(x, y) {
					return fmt.Errorf("range %d..%d: pixel %d,%d is lit for %d but not for the larger value %d", s.Scale[1], s.Scale[2], x, y, c.Values[i-1], v)
				}
			}
		}
		if prev == nil {
			first = n
		} else if n > first {
			info.NonTrivial(true)
		}
		prev = t
	}
	return nil
}

// checkBarBehind is checkBar where the value is shown as a text too: what a
// strength bar adds to the other kinds of scale is lit for every larger value.
func checkBarBehind(c barCase, info *core.Info) error {
	var bar [][2]int
	var last int32
	for _, v := range c.Values {
		s := c.C.T
		s.Int, s.Inv = v, false
		var t [4]*tile
		for k := 1; k <= 3; k++ {
			s.Scale[0] = int32(k)
			var err error
			if t[k], err = render(&s, c.C.W, c.C.H, c.C.Shrink, c.C.Border); err != nil {
				return err
			}
		}
		for _, p := range bar {
			if !t[1].at(p[0], p[1]) {
				return fmt.Errorf("formatting %d, range %d..%d: pixel %d,%d of the bar is lit for %d but not for the larger value %d", s.Fmt, s.Scale[1], s.Scale[2], p[0], p[1], last, v)
			}
		}
		n := len(bar)
		bar = nil
		for y := 0; y < c.C.H; y++ {
			for x := 0; x < c.C.W; x++ {
				if t[1].at(x, y) && (!t[2].at(x, y) || !t[3].at(x, y)) {
					bar = append(bar, [2]int{x, y})
				}
			}
		}
		info.Label("bar behind a value")
		info.LabelIf(len(bar) > n, "bar behind a value grows")
		if n > 0 {
			info.NonTrivial(true)
		}
		last = v
	}
	return nil
}

// ---- centring of the content of a tile

type contentCase struct {
	C tileCase
}

func checkContent(c contentCase, info *core.Info) error {
	s := c.C.T
	t, err := render(&s, c.C.W, c.C.H, c.C.Shrink, c.C.Border)
	if err != nil {
		return err
	}
	a := active(c.C.W, c.C.H, c.C.Shrink, c.C.Border)
	// text that certainly fits, whatever size and font the tile takes for it
	line := s.L1 + s.L2
	if s.L1 == s.L2 {
		line = s.L1
	}
	if s.Fmt != 7 {
		line = fmt.Sprintf("%+06d.dB", s.Int)
	}
	face, fw, space := 0, 2, 0
	if s.HasStyle {
		space = int(s.Space)
		if s.TextF != nil {
			face, fw = s.TextF.Face, max(fw, s.TextF.W&3)
		}
	}
	for _, f := range []int{face, 2} {
		ref := &mg.MonoImg{}
		ref.NewImage(8, 8)
		ref.SetFont(f, true)
		ref.SetTextSize(fw, 2)
		ref.SetCharSpacingCompensation(byte(space))
		if ref.StrWidth(line) > a.x1-a.x0 {
			info.Label("may not fit")
			return nil
		}
	}
	ink := t.ink(a)
	if ink.empty() || ink.y0 == a.y0 || ink.y1 == a.y1 {
		info.Label("too large or not shown")
		return nil
	}
	info.NonTrivial(true)
	info.Label("formatting %d", s.Fmt)
	info.LabelIf(s.Pair > 0, "pair")
	left, right := ink.x0-a.x0, a.x1-ink.x1
	if left-right > 2 || right-left > 2 {
		return fmt.Errorf("the only content is not centred: %d pixels left of it and %d right in the active area %v (ink %v)", left, right, a, ink)
	}
	return nil
}

func genContent(t *rapid.T) contentCase {
	c := contentCase{C: genTile(t)}
	c.C.Other, c.C.InPlace = nil, false
	s := &c.C.T
	s.Inv, s.Solid, s.Fixed = false, false, false
	s.State, s.Mod, s.HasScale = 0, 0, false
	s.Pair = int32(rapid.IntRange(0, 1).Draw(t, "pairmode"))
	s.Title, s.L1, s.L2 = "", "", ""
	if rapid.Bool().Draw(t, "value") {
		s.Fmt = rapid.SampledFrom([]int32{0, 1, 2, 3, 4, 6, 8, 9, 12}).Draw(t, "valuefmt")
		s.Int = int32(rapid.OneOf(uni(-99, 999), uni(-9999, 99999)).Draw(t, "v"))
		s.Int2 = s.Int
		return c
	}
	s.Fmt = 7
	str := rapid.StringOfN(rapid.RuneFrom([]rune("ABCDEHKLMNabcdefghkmnopqrsuvwxyz0234589 .-/")), 1, 9, -1)
	l := strings.Trim(str.Draw(t, "l"), " .-/")
	if l == "" {
		l = "x"
	}
	if s.L1 = l; s.Pair == 1 {
		switch rapid.IntRange(0, 2).Draw(t, "which") {
		case 0:
			s.L1, s.L2 = "", l
		case 1:
			s.L2 = l
		}
	}
	return c
}

// ---- generators

func genString(t *rapid.T, name string) string {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"", "", "A", "CAM 1", "Gain", "Hello World", "iiiii", "WWWWWWWW", "0.5", "~!\"", "|", " lead", "trail ", "two\nlines", "cr\rlf", "æøå", "漢字", "\x00\x7f"}),
		rapid.StringOfN(rapid.RuneFrom(nil, &asciiTable), 0, 14, -1),
		rapid.StringOfN(rapid.RuneFrom(nil, &asciiTable), 20, 90, -1),
		core.Strings("any", nil),
		rapid.StringOfN(rapid.RuneFrom(nil, &asciiTable), 90, 400, -1),
		rapid.StringN(0, 10, -1)).Draw(t, name)
}

func genI32() *rapid.Generator[int32] {
	return rapid.OneOf(rapid.Int32Range(-1000, 1000), rapid.Int32Range(-20, 20), rapid.SampledFrom([]int32{0, 1, -1, 100, 255, math.MaxInt32, math.MinInt32, math.MaxInt32 - 1, math.MinInt32 + 1, 2000000000, -2000000000}), rapid.Int32(), rapid.Map(core.Ints(math.MinInt32, math.MaxInt32), func(i int64) int32 { return int32(i) }))
}

func genFont(t *rapid.T) *font {
	if rapid.IntRange(0, 2).Draw(t, "font?") == 0 {
		return nil
	}
	return &font{uni(0, 7).Draw(t, "face"), uni(0, 3).Draw(t, "tw"), uni(0, 3).Draw(t, "th")}
}

func genCol(t *rapid.T) *col {
	switch uni(0, 7).Draw(t, "col") {
	case 0, 1, 2:
		return &col{Idx: true, I: int32(uni(0, 31).Draw(t, "index"))}
	case 3, 4, 5:
		ch := rapid.OneOf(rapid.Map(uni(0, 255), func(v int) uint32 { return uint32(v) }), rapid.SampledFrom([]uint32{0, 84, 85, 86, 169, 170, 171, 254, 255}))
		return &col{Rgb: true, R: ch.Draw(t, "r"), G: ch.Draw(t, "g"), B: ch.Draw(t, "b"), Idx: rapid.IntRange(0, 9).Draw(t, "both") == 9, I: 4}
	case 6:
		return nil
	}
	return &col{}
}

func genState(t *rapid.T) text {
	s := text{Int: genI32().Draw(t, "int"), Int2: genI32().Draw(t, "int2")}
	s.Fmt = int32(rapid.OneOf(uni(0, 12), uni(0, 12), uni(0, 12), uni(0, 12), uni(0, 12), uni(13, 40), rapid.SampledFrom([]int{-1, 1000, math.MaxInt32, math.MinInt32})).Draw(t, "fmt"))
	s.State = int32(rapid.OneOf(uni(0, 3), rapid.SampledFrom([]int{4, -1, 99})).Draw(t, "state"))
	s.Mod = int32(rapid.OneOf(uni(0, 7), rapid.SampledFrom([]int{8, -1, 99})).Draw(t, "mod"))
	s.Title, s.L1, s.L2 = genString(t, "title"), genString(t, "line1"), genString(t, "line2")
	s.Solid = rapid.Bool().Draw(t, "solid")
	s.Pair = int32(rapid.OneOf(uni(0, 4), rapid.SampledFrom([]int{0, 0, 5, -1, 77})).Draw(t, "pair"))
	if s.HasScale = rapid.Bool().Draw(t, "scale?"); s.HasScale {
		s.Scale[0] = int32(rapid.OneOf(uni(0, 3), rapid.SampledFrom([]int{4, -1, 50})).Draw(t, "scaletype"))
		for i := 1; i < 5; i++ {
			s.Scale[i] = genI32().Draw(t, "range")
		}
		if rapid.IntRange(0, 4).Draw(t, "degenerate") == 0 {
			s.Scale[2] = s.Scale[1]
		}
	}
	if s.HasStyle = rapid.IntRange(0, 3).Draw(t, "style?") > 0; s.HasStyle {
		s.TitleF, s.TextF = genFont(t), genFont(t)
		s.Fixed = rapid.Bool().Draw(t, "fixed")
		s.Pad, s.Space = uint32(uni(0, 3).Draw(t, "pad")), uint32(uni(0, 3).Draw(t, "space"))
		s.Un = uint32(rapid.OneOf(uni(0, 4), rapid.SampledFrom([]int{0, 5, 255})).Draw(t, "un"))
	}
	s.Inv = rapid.Bool().Draw(t, "inv")
	s.Pix, s.Bg = genCol(t), genCol(t)
	return s
}

var tiles = [][2]int{{64, 32}, {64, 38}, {112, 32}, {128, 32}, {48, 24}, {64, 48}, {256, 20}, {256, 64}, {86, 48}, {52, 24}, {64, 64}, {96, 26}, {128, 64}}

func genTile(t *rapid.T) tileCase {
	c := tileCase{T: genState(t)}
	switch uni(0, 4).Draw(t, "dims") {
	case 0:
		c.W, c.H = uni(0, 256).Draw(t, "w"), uni(0, 64).Draw(t, "h")
	case 1:
		c.W, c.H = uni(0, 30).Draw(t, "w"), uni(0, 40).Draw(t, "h")
	case 2:
		c.W, c.H = rapid.SampledFrom([]int{0, 1, 2, 3, 7, 8, 255, 256}).Draw(t, "w"), rapid.SampledFrom([]int{0, 1, 2, 7, 8, 31, 32, 47, 48, 64}).Draw(t, "h")
	default:
		d := rapid.SampledFrom(tiles).Draw(t, "tile")
		c.W, c.H = d[0], d[1]
	}
	c.Shrink, c.Border = uni(0, 3).Draw(t, "shrink"), max(0, uni(-3, 3).Draw(t, "border"))
	if rapid.IntRange(0, 9).Draw(t, "other?") == 0 {
		o := genState(t)
		c.Other, c.InPlace = &o, rapid.Bool().Draw(t, "in place")
	}
	return c
}

func genCentre(t *rapid.T) tileCase {
	c := genTile(t)
	c.Other = nil
	for try := 0; c.W < 24 && try < 1; try++ {
		d := rapid.SampledFrom(tiles).Draw(t, "tile2")
		c.W, c.H = d[0], d[1]
	}
	c.T.Fmt = int32(rapid.IntRange(10, 11).Draw(t, "centrefmt"))
	c.T.Fixed = false
	str := rapid.Map(rapid.OneOf(
		rapid.StringOfN(rapid.RuneFrom(nil, &asciiTable), 0, 16, -1),
		rapid.StringOfN(rapid.RuneFrom(nil, &asciiTable), 0, 6, -1),
		rapid.StringOfN(rapid.OneOf(rapid.RuneFrom(nil, &asciiTable), rapid.Map(uni(1, 700), func(v int) rune { return rune(v) })), 0, 8, -1)),
		func(s string) string {
			return strings.TrimSpace(strings.Map(func(r rune) rune { // no line breaks
				if r&255 == 10 || r&255 == 13 {
					return -1
				}
				return r
			}, s))
		})
	c.T.Title, c.T.L1, c.T.L2 = str.Draw(t, "t"), str.Draw(t, "l1"), str.Draw(t, "l2")
	return c
}

func genBar(t *rapid.T) barCase {
	c := barCase{C: genTile(t)}
	c.C.Other = nil
	if uni(0, 3).Draw(t, "real") > 0 {
		d := rapid.SampledFrom(tiles).Draw(t, "tile2")
		c.C.W, c.C.H = d[0], d[1]
		c.C.T.Title = ""
	}
	s := &c.C.T
	s.HasScale = true
	if rapid.IntRange(0, 2).Draw(t, "hidden") > 0 || s.Fmt == 10 || s.Fmt == 11 {
		s.Fmt = 7
	}
	s.Scale[0] = 1
	if s.Scale[2] < s.Scale[1] {
		s.Scale[1], s.Scale[2] = s.Scale[2], s.Scale[1]
	}
	if s.Scale[1] == s.Scale[2] {
		if s.Scale[2] == math.MaxInt32 {
			s.Scale[1]--
		} else {
			s.Scale[2]++
		}
	}
	lo, hi := int64(s.Scale[1]), int64(s.Scale[2])
	vals := map[int32]bool{}
	for n := rapid.IntRange(1, 6).Draw(t, "values"); n >= 0; n-- {
		f := rapid.OneOf(rapid.Int64Range(-2, 2), rapid.Map(uni(0, 1000), func(v int) int64 { return (hi - lo) * int64(v) / 1000 }), rapid.Map(genI32(), func(v int32) int64 { return int64(v) - lo }), rapid.Just(hi-lo)).Draw(t, "value")
		v := min(max(lo+f, math.MinInt32), math.MaxInt32)
		vals[int32(v)] = true
	}
	vals[s.Scale[1]], vals[s.Scale[2]] = true, true
	for v := range vals {
		c.Values = append(c.Values, v)
	}
	slices.Sort(c.Values)
	return c
}

// ---- independence of what was rendered before, in fresh processes

func TestMain(m *testing.M) {
	if os.Getenv("RWP_RENDER_CHILD") == "" {
		os.Exit(m.Run())
	}
	var cases []tileCase
	if err := json.NewDecoder(os.Stdin).Decode(&cases); err != nil {
		os.Exit(3)
	}
	out := []string{}
	for _, c := range cases {
		var img *tile
		if err := core.Protect(func() (err error) { img, err = render(&c.T, c.W, c.H, c.Shrink, c.Border); return }); err != nil {
			out = append(out, err.Error())
			continue
		}
		h := fnv.New64a()
		h.Write(img.b)
		h.Write(img.rgb)
		out = append(out, fmt.Sprintf("%016x", h.Sum64()))
	}
	// and at the same time
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range cases {
				i := (k*7 + g) % len(cases)
				c := cases[i]
				var img *tile
				core.Protect(func() (err error) { img, err = render(&c.T, c.W, c.H, c.Shrink, c.Border); return })
				if img != nil {
					h := fnv.New64a()
					h.Write(img.b)
					h.Write(img.rgb)
					if s := fmt.Sprintf("%016x", h.Sum64()); s != out[i] {
						fmt.Fprintf(os.Stderr, "[\"state %d renders differently next to other renderings\"]", i)
						os.Exit(0)
					}
				}
			}
		}()
	}
	wg.Wait()
	json.NewEncoder(os.Stderr).Encode(out)
	os.Exit(0)
}

type orderCase struct{ Cases []tileCase }

func renderChild(cases []tileCase) ([]string, error) {
	js, _ := json.Marshal(cases)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "RWP_RENDER_CHILD=1", "LOG=fatal")
	cmd.Stdin = bytes.NewReader(js)
	var buf bytes.Buffer
	cmd.Stderr = &buf
	if err := cmd.Run(); err != nil {
		return nil, err
	}
	var out []string
	err := json.Unmarshal(buf.Bytes(), &out)
	if err == nil && len(out) != len(cases) {
		err = fmt.Errorf("%v", out)
	}
	return out, err
}

func checkOrder(c orderCase, info *core.Info) error {
	info.NonTrivial(len(c.Cases) > 1)
	rev := slices.Clone(c.Cases)
	slices.Reverse(rev)
	a, err := renderChild(c.Cases)
	if err != nil {
		return fmt.Errorf("the render process fails: %v", err)
	}
	b, err := renderChild(rev)
	if err != nil {
		return fmt.Errorf("the render process fails: %v", err)
	}
	for i := range a {
		if j := len(a) - 1 - i; a[i] != b[j] {
			return fmt.Errorf("state %d renders differently (%s, %s) after the states before it than after those behind it", i, a[i], b[j])
		}
	}
	return nil
}

func genOrder(t *rapid.T) orderCase {
	return orderCase{rapid.SliceOfN(rapid.Custom(genTile), 2, 40).Draw(t, "cases")}
}

func TestC18(t *testing.T) {
	r := core.Start(t, "C18")
	defer r.Finish()
	core.Explore(r, "tile", core.Size{Quick: 80000, Thorough: 3000000}, genTile, checkTile)
	core.Explore(r, "centre", core.Size{Quick: 80000, Thorough: 3000000}, genCentre, checkCentre)
	core.Explore(r, "order", core.Size{Quick: 480, Thorough: 16000}, genOrder, checkOrder)
	core.Explore(r, "bar", core.Size{Quick: 60000, Thorough: 2000000}, genBar, checkBar)
	// every mode with every index colour on small and large tiles
	core.Enumerate(r, "modes", func(yield func(tileCase) bool) {
		for f := int32(0); f <= 13; f++ {
			for i := int32(0); i < 32; i++ {
				for k, d := range [][2]int{{0, 0}, {1, 1}, {64, 32}, {112, 48}} {
					s := text{Fmt: f, Title: "Title", L1: "One", L2: "Two", Int: -i, Int2: i * 1000, Pair: i % 5, State: i % 4, Mod: (i + f) % 8, Solid: i%2 == 0,
						Pix: &col{Idx: true, I: i}, Bg: &col{Idx: true, I: 31 - i}, HasScale: i%3 > 0, Scale: [5]int32{1 + i%3, -10, 10, -5, 5}}
					if !yield(tileCase{T: s, W: d[0], H: d[1], Shrink: int(i) % 4, Border: k % 4}) {
						return
					}
				}
			}
		}
	}, checkTile)
	core.Explore(r, "centre-content", core.Size{Quick: 16000, Thorough: 600000}, genContent, checkContent)
}
