package gfx

import (
	"fmt"
	"testing"

	mg "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	"pgregory.net/rapid"
	"rwpverif/core"
)

type textCase struct {
	S       string
	Runes   []int  // instead of S
	Bytes   []byte // instead of S
	Font    int
	Prop    bool
	Spacing int
	H, V    int
	X, Y    int
	X2, Y2  int
	Prev    *textCase `json:",omitempty"`
	Mode    int       `json:",omitempty"` // 1: dark text on a lit canvas, 2: inverted, 4: in a bounding box
}

func (c *textCase) text() string {
	if len(c.Bytes) > 0 { // may be no UTF-8
		return string(c.Bytes)
	}
	if len(c.Runes) == 0 {
		return c.S
	}
	s := ""
	for _, r := range c.Runes {
		s += string(rune(r))
	}
	return s
}

type rendering struct {
	tile
	ink   rect
	width int // reported
	line  int
}

// draw renders a string on a canvas that holds it with a margin.
func draw(c *textCase, s string, h, v, spacing, x, y int) *rendering {
	return drawOn(&mg.MonoImg{}, c, s, h, v, spacing, x, y)
}

// drawOn renders on a given image object.
func drawOn(img *mg.MonoImg, c *textCase, s string, h, v, spacing, x, y int) *rendering {
	w := x + (len(s)+1)*(10*h+spacing) + 24
	ht := y + 10*max(v, h) + 16
	bx, by := 0, 0
	if c.Mode&4 != 0 {
		bx, by = 9, 5
	}
	dark, inv := c.Mode&1 != 0, c.Mode&2 != 0
	img.NewImage(w+bx, ht+by)
	img.InvertPixels(inv)
	if dark != inv { // what the text leaves alone
		for i := range img.GetImgSlice() {
			img.GetImgSlice()[i] = 0xff
		}
	}
	if bx > 0 {
		img.SetBoundingBox(bx, by, w, ht)
	}
	img.SetFont(c.Font, c.Prop)
	img.SetCharSpacingCompensation(byte(spacing))
	img.SetTextSize(h, v)
	img.SetTextWrap(false)
	img.SetTextColor(!dark)
	img.SetCursor(x, y)
	img.RenderText(s)
	if c.Mode != 0 { // what has changed, seen from the box
		all := tile{w: w + bx, h: ht + by, b: img.GetImgSlice()}
		seen := tile{w: w, h: ht, b: make([]byte, (w+7)/8*ht)}
		stray := 0
		for py := 0; py < all.h; py++ {
			for px := 0; px < all.w; px++ {
				if all.at(px, py) != (dark != inv) {
					if px < bx || py < by {
						stray++
					} else {
						seen.b[(py-by)*((w+7)/8)+(px-bx)/8] |= 0x80 >> ((px - bx) % 8)
					}
				}
			}
		}
		r := &rendering{tile: seen, width: img.StrWidth(s), line: int(img.LineHeight())}
		if r.ink = r.tile.ink(rect{0, 0, w, ht}); stray > 0 { // outside of the box
			r.ink = rect{-bx, -by, w, ht}
		}
		return r
	}
	r := &rendering{tile: tile{w: w, h: ht, b: img.GetImgSlice()}, width: img.StrWidth(s), line: int(img.LineHeight())}
	r.ink = r.tile.ink(rect{0, 0, w, ht})
	return r
}

// moved reports the first pixel of a that is not in b moved by dx, dy, or the other way round.
func moved(a, b *rendering, dx, dy int) error {
	if a.ink.empty() != b.ink.empty() {
		return fmt.Errorf("ink %v here, %v there", a.ink, b.ink)
	}
	if a.ink.empty() {
		return nil
	}
	if want := (rect{a.ink.x0 + dx, a.ink.y0 + dy, a.ink.x1 + dx, a.ink.y1 + dy}); want != b.ink {
		return fmt.Errorf("ink %v, want %v", b.ink, want)
	}
	for y := a.ink.y0; y < a.ink.y1; y++ {
		for x := a.ink.x0; x < a.ink.x1; x++ {
			if a.at(x, y) != b.at(x+dx, y+dy) {
				return fmt.Errorf("pixel %d,%d is %v, at %d,%d it is %v", x, y, a.at(x, y), x+dx, y+dy, b.at(x+dx, y+dy))
			}
		}
	}
	return nil
}

// enlarged compares a size 1 rendering at (0,0) with one at (x0, y0) of size (h, v).
func enlarged(a, b *rendering, h, v, x0, y0 int) error {
	if a.ink.empty() {
		if !b.ink.empty() {
			return fmt.Errorf("ink %v, none at size 1", b.ink)
		}
		return nil
	}
	if want := (rect{a.ink.x0*h + x0, a.ink.y0*v + y0, a.ink.x1*h + x0, a.ink.y1*v + y0}); want != b.ink {
		return fmt.Errorf("ink %v, want %v", b.ink, want)
	}
	for y := b.ink.y0; y < b.ink.y1; y++ {
		for x := b.ink.x0; x < b.ink.x1; x++ {
			if sx, sy := (x-x0)/h, (y-y0)/v; b.at(x, y) != a.at(sx, sy) {
				return fmt.Errorf("pixel %d,%d is %v, its pixel %d,%d at size 1 is %v", x, y, b.at(x, y), sx, sy, a.at(sx, sy))
			}
		}
	}
	return nil
}

// hasBreak: a line feed starts a new line, like wrapping.
func hasBreak(s string) bool {
	for _, r := range s {
		if byte(r) == 10 {
			return true
		}
	}
	return false
}

func checkText(c textCase, info *core.Info) error {
	s := c.text()
	if hasBreak(s) {
		info.Label("line feed")
		return nil
	}
	return checkTextLaws(c, s, info, false)
}

func checkTextLaws(c textCase, s string, info *core.Info, literal bool) error {
	h, v := max(c.H, 1), c.V
	if v == 0 {
		v = h
	}
	desc := fmt.Sprintf("%q in font %d (proportional: %v, spacing %d) at size %dx%d", s, c.Font, c.Prop, c.Spacing, h, v)
	r := draw(&c, s, c.H, c.V, c.Spacing, c.X, c.Y)
	info.NonTrivial(!r.ink.empty())
	info.LabelIf(h != v, "uneven size")
	info.LabelIf(c.Spacing > 0, "spacing")
	info.LabelIf(c.Prop, "proportional")
	info.LabelIf(c.Mode&1 > 0, "dark text")
	info.LabelIf(c.Mode&2 > 0, "inverted")
	info.LabelIf(c.Mode&4 > 0, "in a box")
	if c.Mode != 0 { // the text is the same as in the plain mode
		plain := c
		plain.Mode = 0
		if err := moved(draw(&plain, s, c.H, c.V, c.Spacing, c.X, c.Y), r, 0, 0); err != nil {
			return fmt.Errorf("%s in mode %d: %v", desc, c.Mode, err)
		}
	}
	if !r.ink.empty() {
		b := rect{c.X, c.Y, c.X + r.width + h, c.Y + r.line}
		if r.ink.x0 < b.x0 || r.ink.y0 < b.y0 || r.ink.x1 > b.x1 || r.ink.y1 > b.y1 {
			return fmt.Errorf("%s at %d,%d has ink %v outside its box %v (width %d, line height %d)", desc, c.X, c.Y, r.ink, b, r.width, r.line)
		}
	}
	if m := draw(&c, s, c.H, c.V, c.Spacing, c.X2, c.Y2); true {
		if err := moved(r, m, c.X2-c.X, c.Y2-c.Y); err != nil {
			return fmt.Errorf("%s moved from %d,%d to %d,%d: %v", desc, c.X, c.Y, c.X2, c.Y2, err)
		}
		if m.width != r.width || m.line != r.line {
			return fmt.Errorf("%s: the metrics depend on the cursor", desc)
		}
	}
	if c.Prev != nil { // on an object that has rendered something else before
		info.Label("object used before")
		img := &mg.MonoImg{}
		p := *c.Prev
		drawOn(img, &p, p.text(), p.H, p.V, p.Spacing, p.X, p.Y)
		again := drawOn(img, &c, s, c.H, c.V, c.Spacing, c.X, c.Y)
		if err := moved(r, again, 0, 0); err != nil {
			return fmt.Errorf("%s is rendered differently after %q in font %d (proportional: %v): %v", desc, p.text(), p.Font, p.Prop, err)
		}
		if again.width != r.width || again.line != r.line {
			return fmt.Errorf("%s has the metrics %d, %d, after %q in font %d (proportional: %v) they are %d, %d", desc, r.width, r.line, p.text(), p.Font, p.Prop, again.width, again.line)
		}
	}
	if h == 1 || c.Spacing == 0 || len([]rune(s)) < 2 || literal {
		// nothing between the characters that is not enlarged
		one := draw(&c, s, 1, 1, c.Spacing, 0, 0)
		if err := enlarged(one, r, h, v, c.X, c.Y); err != nil {
			return fmt.Errorf("%s is not its size 1 rendering enlarged: %v", desc, err)
		}
		return nil
	}
	// the extra spacing between characters is in display pixels: the glyphs
	// are enlarged, the spacing is kept
	info.Label("enlarged glyphs with kept spacing")
	want := &rendering{tile: tile{w: r.w, h: r.h, b: make([]byte, len(r.b))}}
	img := &mg.MonoImg{}
	img.NewImage(1, 1)
	img.SetFont(c.Font, c.Prop)
	x := c.X
	for _, ch := range s {
		if byte(ch) == 13 { // takes no room
			continue
		}
		g := draw(&c, string(ch), 1, 1, 0, 0, 0)
		for gy := g.ink.y0; gy < g.ink.y1; gy++ {
			for gx := g.ink.x0; gx < g.ink.x1; gx++ {
				if g.at(gx, gy) {
					for j := 0; j < v; j++ {
						for i := 0; i < h; i++ {
							px, py := x+gx*h+i, c.Y+gy*v+j
							want.b[py*((want.w+7)/8)+px/8] |= 0x80 >> (px % 8)
						}
					}
				}
			}
		}
		x += int(img.GetCharWidth(byte(ch)))*h + c.Spacing
	}
	want.ink = want.tile.ink(rect{0, 0, want.w, want.h})
	if err := moved(want, r, 0, 0); err != nil {
		return fmt.Errorf("%s differs from its enlarged glyphs next to each other: %v", desc, err)
	}
	return nil
}

// checkChar: a single character with a background, straight from DrawChar.
func checkChar(c textCase, info *core.Info) error {
	h, v := max(c.H, 1), max(c.V, 1)
	ch := byte(c.Runes[0])
	on := func(lit bool, color, bg bool, h, v, x, y int) *rendering {
		img := &mg.MonoImg{}
		w, ht := x+12*h+9, y+10*v+7
		img.NewImage(w, ht)
		if lit {
			for i := range img.GetImgSlice() {
				img.GetImgSlice()[i] = 0xff
			}
		}
		img.SetFont(c.Font, c.Prop)
		img.DrawChar(x, y, ch, color, bg, h, v)
		r := &rendering{tile: tile{w: w, h: ht, b: make([]byte, (w+7)/8*ht)}}
		t := tile{w: w, h: ht, b: img.GetImgSlice()}
		for py := 0; py < ht; py++ {
			for px := 0; px < w; px++ {
				if t.at(px, py) != lit {
					r.b[py*((w+7)/8)+px/8] |= 0x80 >> (px % 8)
				}
			}
		}
		r.ink = r.tile.ink(rect{0, 0, w, ht})
		return r
	}
	for _, lit := range []bool{false, true} {
		for k := 0; k < 4; k++ {
			color, bg := k&1 != 0, k&2 != 0
			r := on(lit, color, bg, h, v, c.X, c.Y)
			info.NonTrivial(!r.ink.empty())
			desc := fmt.Sprintf("character %d in font %d (proportional: %v) at size %dx%d, colour %v on %v over a canvas of %v", ch, c.Font, c.Prop, h, v, color, bg, lit)
			if err := moved(r, on(lit, color, bg, h, v, c.X2, c.Y2), c.X2-c.X, c.Y2-c.Y); err != nil {
				return fmt.Errorf("%s moved from %d,%d to %d,%d: %v", desc, c.X, c.Y, c.X2, c.Y2, err)
			}
			if err := enlarged(on(lit, color, bg, 1, 1, 0, 0), r, h, v, c.X, c.Y); err != nil {
				return fmt.Errorf("%s is not its size 1 rendering enlarged: %v", desc, err)
			}
			img := &mg.MonoImg{}
			img.NewImage(1, 1)
			img.SetFont(c.Font, c.Prop)
			img.SetTextSize(h, v)
			if b := (rect{c.X, c.Y, c.X + img.StrWidth(string(rune(ch))) + h, c.Y + int(img.LineHeight())}); !r.ink.empty() && (r.ink.x0 < b.x0 || r.ink.y0 < b.y0 || r.ink.x1 > b.x1 || r.ink.y1 > b.y1) {
				return fmt.Errorf("%s has ink %v outside its box %v", desc, r.ink, b)
			}
		}
	}
	return nil
}

// clipCase: the text on a canvas that shows only a part of it. The right edge
// never cuts into the box, where the library drops whole characters.
type clipCase struct {
	textCase
	Slack, Rows int // columns right of the box, height of the canvas
}

func checkClip(c clipCase, info *core.Info) error {
	s := c.text()
	if hasBreak(s) {
		info.Label("line feed")
		return nil
	}
	c.Mode = 0
	const x0, y0 = 3, 2
	ref := draw(&c.textCase, s, c.H, c.V, c.Spacing, x0, y0)
	w, h := c.X+ref.width+c.Slack, c.Rows
	if w <= 0 || h <= 0 {
		info.Label("nothing to see")
		return nil
	}
	img := &mg.MonoImg{}
	bx, by := 0, 0
	if c.X2 > 0 { // seen through a box
		bx, by = c.X2, c.Y2
		info.Label("in a box")
	}
	cw, ch := w+2*bx, h+2*by
	img.NewImage(cw, ch)
	if bx > 0 {
		img.SetBoundingBox(bx, by, w, h)
	}
	img.SetFont(c.Font, c.Prop)
	img.SetCharSpacingCompensation(byte(c.Spacing))
	img.SetTextSize(c.H, c.V)
	img.SetTextWrap(false)
	img.SetTextColor(true)
	img.SetCursor(c.X, c.Y)
	img.RenderText(s)
	got := tile{w: cw, h: ch, b: img.GetImgSlice()}
	lit, lost := 0, 0
	for y := 0; y < ch; y++ {
		for x := 0; x < cw; x++ {
			tx, ty := x-bx, y-by
			rx, ry := tx-c.X+x0, ty-c.Y+y0
			want := tx >= 0 && ty >= 0 && tx < w && ty < h && rx >= 0 && ry >= 0 && rx < ref.w && ry < ref.h && ref.at(rx, ry)
			if want {
				lit++
			}
			if got.at(x, y) != want {
				return fmt.Errorf("%q in font %d (proportional: %v, spacing %d) at size %dx%d and %d,%d in %dx%d at %d,%d of a canvas %dx%d: pixel %d,%d is %v, in the text it is %v", s, c.Font, c.Prop, c.Spacing, c.H, c.V, c.X, c.Y, w, h, bx, by, cw, ch, x, y, got.at(x, y), want)
			}
		}
	}
	for y := ref.ink.y0; y < ref.ink.y1; y++ {
		for x := ref.ink.x0; x < ref.ink.x1; x++ {
			if ref.at(x, y) {
				lost++
			}
		}
	}
	info.NonTrivial(lit > 0)
	info.LabelIf(lit > 0 && lit < lost, "cut")
	info.LabelIf(c.Slack == 0, "fits exactly")
	return nil
}

func genClip(t *rapid.T) clipCase {
	c := clipCase{textCase: genOneText(t), Slack: max(0, uni(-3, 6).Draw(t, "slack")), Rows: uni(1, 40).Draw(t, "rows")}
	c.X, c.Y = uni(-50, 12).Draw(t, "cx"), uni(-36, 40).Draw(t, "cy")
	c.X2, c.Y2 = max(0, uni(-4, 9).Draw(t, "bx")), uni(0, 9).Draw(t, "by")
	return c
}

func genTextCase(t *rapid.T) textCase {
	c := genOneText(t)
	if uni(0, 2).Draw(t, "prev") == 0 {
		p := genOneText(t)
		if rapid.Bool().Draw(t, "same text") {
			p.S, p.Runes, p.Bytes = c.S, c.Runes, c.Bytes
		}
		c.Prev = &p
	}
	if uni(0, 3).Draw(t, "mode?") == 0 {
		c.Mode = uni(1, 7).Draw(t, "mode")
	}
	return c
}

func spacingGen() *rapid.Generator[int] {
	return rapid.Custom(func(t *rapid.T) int {
		if n := uni(-2, 4).Draw(t, "some"); n < 4 {
			return max(0, n)
		}
		return uni(0, 40).Draw(t, "much")
	})
}

func genOneText(t *rapid.T) textCase {
	c := textCase{Font: uni(0, 3).Draw(t, "font"), Prop: rapid.Bool().Draw(t, "prop"), H: uni(1, 4).Draw(t, "h"), V: uni(0, 4).Draw(t, "v"),
		Spacing: spacingGen().Draw(t, "spacing"), X: uni(0, 20).Draw(t, "x"), Y: uni(0, 12).Draw(t, "y"), X2: uni(0, 40).Draw(t, "x2"), Y2: uni(0, 30).Draw(t, "y2")}
	switch uni(0, 7).Draw(t, "kind") {
	case 0, 1:
		c.S = rapid.StringOfN(rapid.RuneFrom(nil, &asciiTable), 0, 10, -1).Draw(t, "s")
	case 2, 3:
		for n := rapid.IntRange(0, 8).Draw(t, "n"); n > 0; n-- {
			c.Runes = append(c.Runes, uni(0, 255).Draw(t, "rune"))
		}
	case 4:
		c.S = rapid.StringN(0, 8, -1).Draw(t, "s")
	case 5:
		c.Bytes = rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, "b")
	case 6:
		c.S = rapid.StringOfN(rapid.RuneFrom(nil, &asciiTable), 10, 40, -1).Draw(t, "s")
	case 7:
		c.S = core.Strings("any", nil).Draw(t, "s")
	}
	return c
}

// fixed inputs: readings of the statement in which the library falls short
type namedText struct{ Name string }

var fixedTexts = map[string]textCase{
	"spacing":   {S: "AB", Prop: true, Spacing: 1, H: 2, V: 1, X2: 5, Y2: 3},
	"line feed": {S: "A\nB", Prop: true, H: 1, V: 1, X: 4, X2: 9, Y2: 3},
}

func checkNamedText(n namedText, info *core.Info) error {
	c, ok := fixedTexts[n.Name]
	if !ok {
		return nil
	}
	if err := checkTextLaws(c, c.text(), info, true); err != nil {
		return fmt.Errorf("%s: %v", n.Name, err)
	}
	return nil
}

func TestC20(t *testing.T) {
	r := core.Start(t, "C20")
	defer r.Finish()
	for _, name := range core.SortedKeys(fixedTexts) {
		core.Enumerate(r, "fixed", func(yield func(namedText) bool) { yield(namedText{name}) }, checkNamedText)
	}
	core.Explore(r, "clip", core.Size{Quick: 240000, Thorough: 3000000}, genClip, checkClip)
	// settings at the ends of their ranges
	core.Enumerate(r, "extremes", func(yield func(textCase) bool) {
		for sp := 0; sp < 256; sp++ {
			for f := 0; f < 3; f++ {
				if !yield(textCase{S: "Aj 1", Font: f, Prop: sp%3 > 0, Spacing: sp, H: 1, V: 1 + sp%3, X: 4, Y: f, X2: 11, Y2: 7}) ||
					!yield(textCase{Runes: []int{65, 250, 105}, Font: f, Prop: sp%2 > 0, Spacing: sp, H: 2 + sp%2, V: 1, X: 1, Y: f, X2: 0, Y2: 3}) {
					return
				}
			}
		}
		for i, n := range []int{5, 6, 7, 8, 15, 16, 17, 31, 32, 33, 40, 42, 43, 63, 64, 65} {
			for _, o := range []int{1, 2, 7, n} {
				for k := 0; k < 4; k++ {
					h, v := n, o
					if k%2 > 0 {
						h, v = o, n
					}
					if !yield(textCase{S: []string{"W", "gi", "@", "|"}[(i+k)%4], Font: (i + k) % 3, Prop: k < 2, H: h, V: v, X: 5, Y: 3, X2: 2, Y2: 6}) {
						return
					}
				}
			}
		}
		for k, n := range []int{127, 128, 255, 256, 257} {
			if !yield(textCase{S: "A", Font: k % 3, Prop: true, H: n, V: 1, X: 5, Y: 3, X2: 2, Y2: 6}) || !yield(textCase{S: "A", Font: k % 3, Prop: true, H: 1, V: n, X: 5, Y: 3, X2: 2, Y2: 6}) {
				return
			}
		}
	}, checkText)
	core.Explore(r, "text", core.Size{Quick: 480000, Thorough: 6000000}, genTextCase, checkText)
	// every character in every font, mode and size
	core.Enumerate(r, "characters", func(yield func(textCase) bool) {
		for ch := 0; ch < 256; ch++ {
			for f := 0; f < 3; f++ {
				for hv := 0; hv < 16; hv++ {
					for sp := 0; sp < 4; sp += 3 {
						for _, p := range []bool{false, true} {
							if !yield(textCase{Runes: []int{ch}, Font: f, Prop: p, Spacing: sp, H: 1 + hv/4, V: 1 + hv%4, X: ch % 9, Y: f, X2: 11, Y2: 7}) {
								return
							}
						}
					}
				}
			}
		}
	}, checkText)
	core.Enumerate(r, "backgrounds", func(yield func(textCase) bool) {
		for ch := 0; ch < 256; ch++ {
			for f := 0; f < 3; f++ {
				for hv := 0; hv < 9; hv++ {
					if !yield(textCase{Runes: []int{ch}, Font: f, Prop: (ch+hv)%2 == 0, H: 1 + hv/3, V: 1 + hv%3, X: ch % 9, Y: f, X2: 11, Y2: 7}) {
						return
					}
				}
			}
		}
	}, checkChar)
	// every ordered pair of characters
	core.Enumerate(r, "pairs", func(yield func(textCase) bool) {
		for a := 32; a < 129; a++ {
			for b := 32; b < 129; b++ {
				k := a*97 + b
				if !yield(textCase{Runes: []int{a, b}, Font: k % 3, Prop: k%5 > 0, Spacing: k / 3 % 4, H: 1 + k%4, V: 1 + k/4%3, X: k % 7, Y: k % 5, X2: 13, Y2: 2}) {
					return
				}
			}
		}
	}, checkText)
}
