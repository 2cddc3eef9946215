package gfx

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	mg "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	"pgregory.net/rapid"
	"rwpverif/core"
)

// op is one drawing or state operation.
type op struct {
	K string
	A []int
	S []byte `json:",omitempty"` // text or bitmap
	C bool   `json:",omitempty"` // colour
	D bool   `json:",omitempty"`
	E bool   `json:",omitempty"`
}

type drawCase struct {
	W, H int
	Fill []byte // pattern repeated over the buffer at the start
	Ops  []op
}

type rect struct{ x0, y0, x1, y1 int } // x1, y1 exclusive

func sat(v, d int) int { // saturating addition
	s := v + d
	if d > 0 && s < v {
		return math.MaxInt
	}
	if d < 0 && s > v {
		return math.MinInt
	}
	return s
}

func box(x, y, w, h int) rect {
	if w <= 0 || h <= 0 {
		return rect{}
	}
	return rect{x, y, sat(x, w), sat(y, h)}
}

func (r rect) empty() bool { return r.x0 >= r.x1 || r.y0 >= r.y1 }

func (r rect) has(x, y int) bool { return x >= r.x0 && x < r.x1 && y >= r.y0 && y < r.y1 }

// state mirrors the settings that matter for the reference.
type state struct {
	bx, by, bw, bh int
	inv            bool
	cx, cy         int
	sh, sv         int
	wrap           bool
	spacing        int
	tc             bool
	cursorKnown    bool
}

const (
	must = iota // exactly these pixels, with this colour
	may         // only these pixels
)

// effect is what an operation may do, in coordinates of the bounding box.
type effect struct {
	kind   int
	rects  []rect
	color  bool
	colors int // may: 1 one colour, 2 any
	bits   func(x, y int) (set, val bool)
	shape  func(x, y int) bool // may: the rounded footprint within rects
}

// dist is the distance of a pixel to the rectangle x0..x1, y0..y1 (inclusive).
func dist(x, y, x0, y0, x1, y1 int) float64 {
	dx, dy := max(x0-x, x-x1, 0), max(y0-y, y-y1, 0)
	return math.Hypot(float64(dx), float64(dy))
}

func modest(a []int) bool {
	for _, v := range a {
		if abs(v) > 1<<30 || v == math.MinInt {
			return false
		}
	}
	return true
}

func apply(img *mg.MonoImg, o op, s *state) {
	a := o.A
	switch o.K {
	case "pixel":
		img.DrawPixel(a[0], a[1], o.C)
	case "hline":
		img.DrawFastHLine(a[0], a[1], a[2], o.C)
	case "vline":
		img.DrawFastVLine(a[0], a[1], a[2], o.C)
	case "rect":
		img.FillRect(a[0], a[1], a[2], a[3], o.C)
	case "round":
		img.DrawRoundRect(a[0], a[1], a[2], a[3], a[4], o.C)
	case "fillround":
		img.FillRoundRect(a[0], a[1], a[2], a[3], a[4], o.C)
	case "circle":
		img.DrawCircleHelper(a[0], a[1], a[2], a[3], o.C)
	case "fillcircle":
		img.FillCircleHelper(a[0], a[1], a[2], a[3], a[4], o.C)
	case "bitmap":
		img.DrawBitmap(a[0], a[1], o.S, a[2], a[3], o.C, o.D, o.E)
	case "char":
		img.DrawChar(a[0], a[1], byte(a[2]), o.C, o.D, a[3], a[4])
	case "text":
		img.RenderText(string(o.S))
	case "bbox":
		img.SetBoundingBox(a[0], a[1], a[2], a[3])
		s.bx, s.by, s.bw, s.bh = a[0], a[1], a[2], a[3]
	case "invert":
		img.InvertPixels(o.C)
		s.inv = o.C
	case "font":
		img.SetFont(a[0], o.C)
	case "size":
		img.SetTextSize(a[0], a[1])
		s.sh, s.sv = a[0], a[1]
		if s.sh <= 0 {
			s.sh = 1
		}
		if s.sv == 0 {
			s.sv = s.sh
		}
	case "cursor":
		img.SetCursor(a[0], a[1])
		s.cx, s.cy, s.cursorKnown = a[0], a[1], true
	case "wrap":
		img.SetTextWrap(o.C)
		s.wrap = o.C
	case "color":
		img.SetTextColor(o.C)
		s.tc = o.C
	case "spacing":
		img.SetCharSpacingCompensation(byte(a[0]))
		s.spacing = int(byte(a[0]))
	}
}

func abs(v int) int {
	if v < 0 {
		return -v
	}
	return v
}

// effectOf says what an operation may do. It is called before the operation.
func effectOf(img *mg.MonoImg, o op, s *state) (e effect, draws bool) {
	a := o.A
	e.color = o.C
	switch o.K {
	case "pixel":
		e.rects = []rect{box(a[0], a[1], 1, 1)}
	case "hline":
		e.rects = []rect{box(a[0], a[1], a[2], 1)}
	case "vline":
		e.rects = []rect{box(a[0], a[1], 1, a[2])}
	case "rect":
		e.rects = []rect{box(a[0], a[1], a[2], a[3])}
	case "round", "fillround":
		e.kind, e.colors = may, 1
		x, y, w, h, r := a[0], a[1], a[2], a[3], a[4]
		if w > 0 && h > 0 && r >= 0 && 2*r <= w && 2*r <= h {
			e.rects = []rect{box(x, y, w, h)}
			if modest(a) { // to one pixel
				e.shape = func(px, py int) bool {
					d := dist(px, py, x+r, y+r, x+w-r-1, y+h-r-1)
					inside := min(px-x, py-y, x+w-1-px, y+h-1-py) > 0
					return d <= float64(r)+1 && (o.K == "fillround" || !inside || r > 1 && d >= float64(r)-1)
				}
			}
		} else { // degenerate: the corners may reach out
			m := 2*abs(r) + 1
			e.rects = []rect{{sat(x, -m+min(w, 0)), sat(y, -m+min(h, 0)), sat(x, m+max(w, 0)), sat(y, m+max(h, 0))}}
		}
	case "circle":
		e.kind, e.colors = may, 1
		x, y, r, c := a[0], a[1], a[2], a[3]
		if r > 0 {
			if modest(a[:3]) {
				e.shape = func(px, py int) bool { return math.Abs(dist(px, py, x, y, x, y)-float64(r)) <= 1 }
			}
			for bit, q := range []rect{
				{sat(x, -r), sat(y, -r), sat(x, 1), sat(y, 1)}, // 1: top left
				{x, sat(y, -r), sat(x, r+1), sat(y, 1)},        // 2: top right
				{x, y, sat(x, r+1), sat(y, r+1)},               // 4: bottom right
				{sat(x, -r), y, sat(x, 1), sat(y, r+1)},        // 8: bottom left
			} {
				if c&(1<<bit) != 0 {
					e.rects = append(e.rects, q)
				}
			}
		}
	case "fillcircle":
		e.kind, e.colors = may, 1
		x, y, r, c, d := a[0], a[1], a[2], a[3], max(a[4], 0)
		if r > 0 {
			if modest(a[:3]) && d < 1<<30 {
				e.shape = func(px, py int) bool { return dist(px, py, x, y, x, y+d) <= float64(r)+1 }
			}
			if c&1 != 0 {
				e.rects = append(e.rects, rect{x, sat(y, -r), sat(x, r+1), sat(y, r+1+d)})
			}
			if c&2 != 0 {
				e.rects = append(e.rects, rect{sat(x, -r), sat(y, -r), sat(x, 1), sat(y, r+1+d)})
			}
		}
	case "bitmap":
		x, y, w, h := a[0], a[1], a[2], a[3]
		bw := (w + 7) / 8
		e.rects = []rect{box(x, y, w, h)}
		e.bits = func(px, py int) (bool, bool) {
			i, j := px-x, py-y
			idx := j*bw + i/8
			if idx >= len(o.S) {
				return false, false
			}
			bit := o.S[idx]>>(7-i%8)&1 != 0
			if o.D {
				bit = !bit
			}
			if bit {
				return true, o.C
			}
			return o.E, !o.C
		}
	case "char":
		e.kind, e.colors = may, 1
		if o.C != o.D {
			e.colors = 2
		}
		h := 8
		e.rects = []rect{box(a[0], a[1], int(img.GetCharWidth(byte(a[2])))*max(a[3], 1), h*max(a[4], 1))}
	case "text":
		e.kind, e.colors = may, 1
		e.color = s.tc
		switch {
		case !s.cursorKnown:
			e.rects = []rect{{math.MinInt, math.MinInt, math.MaxInt, math.MaxInt}}
		case s.wrap:
			e.rects = []rect{{min(0, s.cx), s.cy, math.MaxInt, math.MaxInt}}
			if s.sv < 0 {
				e.rects[0].y0 = math.MinInt
			}
			s.cursorKnown = false
		default:
			x, y := s.cx, s.cy
			lh := int(img.LineHeight())
			for _, r := range string(o.S) {
				c := byte(r)
				switch c {
				case 10:
					if s.sv < 0 {
						s.cursorKnown = false
						e.rects = []rect{{math.MinInt, math.MinInt, math.MaxInt, math.MaxInt}}
						return e, true
					}
					x, y = 0, sat(y, lh)
				case 13:
				default:
					cw := int(img.GetCharWidth(c)) * s.sh
					e.rects = append(e.rects, box(x, y, cw, 8*max(s.sv, 1)))
					x = sat(x, cw+s.spacing)
				}
			}
			s.cx, s.cy = x, y
		}
	default:
		return e, false
	}
	return e, true
}

func bitAt(b []byte, stride, x, y int) bool { return b[y*stride+x/8]>>(7-x%8)&1 != 0 }

const margin = 64

func checkDraw(c drawCase, info *core.Info) error {
	stride := (c.W + 7) / 8
	mk := func(w, h int) *mg.MonoImg {
		b := make([]byte, (w+7)/8*h)
		img := &mg.MonoImg{}
		if len(c.Fill) > 0 {
			for i := range b {
				b[i] = c.Fill[i%len(c.Fill)]
			}
		}
		if err := img.CreateFromBytes(w, h, b); err != nil {
			panic(err)
		}
		return img
	}
	img := mk(c.W, c.H)
	prev := append([]byte{}, img.GetImgSlice()...)
	if len(prev) != stride*c.H {
		return fmt.Errorf("buffer of %d bytes for %dx%d", len(prev), c.W, c.H)
	}
	s := &state{bw: c.W, bh: c.H, sh: 1, sv: 1, wrap: true, cursorKnown: true}
	var settings []op // state operations so far, for the second canvas
	drew, clipped := 0, 0
	for n, o := range c.Ops {
		e, draws := effectOf(img, o, s)
		s2 := *s
		// the operation's region of influence and where it is on the canvas
		apply(img, o, s)
		now := img.GetImgSlice()
		where := fmt.Sprintf("step %d %s%v color=%v on %dx%d, box %d,%d %dx%d, inverted %v", n, o.K, o.A, o.C, c.W, c.H, s.bx, s.by, s.bw, s.bh, s.inv)
		if len(now) != stride*c.H || img.Width != c.W || img.Height != c.H {
			return fmt.Errorf("%s: the buffer has %d bytes now, size %dx%d", where, len(now), img.Width, img.Height)
		}
		if !draws {
			settings = append(settings, o)
			if !bytes.Equal(now, prev) {
				return fmt.Errorf("%s: a setting changed pixels", where)
			}
			continue
		}
		drew++
		info.LabelIf(true, "op: "+o.K)
		clip := rect{max(0, s.bx), max(0, s.by), min(c.W, sat(s.bx, s.bw)), min(c.H, sat(s.by, s.bh))}
		if s.bw <= 0 || s.bh <= 0 {
			clip = rect{}
		}
		// the same operation on a larger canvas, margin pixels of room around
		var big *mg.MonoImg
		bigStride := 0
		if e.kind == may && o.K != "char" && o.K != "text" && n < 12 {
			big = &mg.MonoImg{}
			bw, bh := c.W+2*margin, c.H+2*margin
			big.NewImage(bw, bh)
			bigStride = (bw + 7) / 8
			big.SetBoundingBox(s.bx+margin, s.by+margin, bw+1000, bh+1000)
			if abs(s.bx) > 1<<40 || abs(s.by) > 1<<40 {
				big = nil
			} else {
				o2 := o
				o2.C = true
				apply(big, o2, &s2)
			}
		}
		changed := false
		for y := 0; y < c.H; y++ {
			for x := 0; x < stride*8; x++ {
				was, is := bitAt(prev, stride, x, y), bitAt(now, stride, x, y)
				if x >= c.W {
					if was != is {
						return fmt.Errorf("%s: padding bit %d,%d changed", where, x, y)
					}
					continue
				}
				changed = changed || was != is
				inClip := clip.has(x, y)
				inFoot := false
				rx, ry := x-s.bx, y-s.by
				if inClip {
					for _, r := range e.rects {
						if r.has(rx, ry) {
							inFoot = true
							break
						}
					}
				}
				if inFoot && e.shape != nil {
					inFoot = e.shape(rx, ry)
				}
				want, val := inClip && inFoot, e.color
				if want && e.bits != nil {
					want, val = e.bits(rx, ry)
				}
				val = val != s.inv
				if !want {
					if was != is {
						return fmt.Errorf("%s: pixel %d,%d changed, outside clip %v or footprint %v", where, x, y, clip, e.rects)
					}
					continue
				}
				if e.kind == must {
					if is != val {
						return fmt.Errorf("%s: pixel %d,%d is %v, want %v (was %v)", where, x, y, is, val, was)
					}
					continue
				}
				if e.colors == 1 && was != is && is != val {
					return fmt.Errorf("%s: pixel %d,%d was changed to %v, the colour is %v", where, x, y, is, val)
				}
				if big != nil {
					lit := bitAt(big.GetImgSlice(), bigStride, x+margin, y+margin)
					if lit && is != val {
						return fmt.Errorf("%s: pixel %d,%d of the shape is missing", where, x, y)
					}
					if !lit && is != was {
						return fmt.Errorf("%s: pixel %d,%d changed, but is no part of the shape drawn on a larger canvas", where, x, y)
					}
				}
			}
		}
		for _, r := range e.rects {
			if !r.empty() && (r.x0 < clip.x0-s.bx || r.y0 < clip.y0-s.by || r.x1 > clip.x1-s.bx || r.y1 > clip.y1-s.by) {
				clipped++
				break
			}
		}
		info.NonTrivial(changed)
		copy(prev, now)
	}
	info.LabelIf(clipped > 0, "footprint reaches over the clip rectangle")
	info.LabelIf(drew > 0 && c.W%8 != 0, "width not divisible by 8")
	info.LabelIf(c.W == 0 || c.H == 0, "empty canvas")
	return nil
}

var extreme = []int{math.MinInt, math.MinInt + 1, math.MinInt32 - 1, math.MinInt32, -1 << 20, 1 << 20, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt - 1, math.MaxInt, 1 << 60, -1 << 60, 1<<61 + 1, -(1<<61 + 3)}

// uni spreads over lo..hi more evenly than rapid, which prefers small numbers.
func uni(lo, hi int) *rapid.Generator[int] {
	return rapid.Map(rapid.Uint32(), func(v uint32) int {
		return lo + int((v*2654435761)>>5)%(hi-lo+1)
	})
}

func dictInts(lo, hi int64) *rapid.Generator[int] {
	return rapid.Map(core.Ints(lo, hi), func(i int64) int { return int(i) })
}

func coord(n int, wild bool) *rapid.Generator[int] {
	tame := []*rapid.Generator[int]{uni(-3, n+3), uni(0, max(n-1, 0)), uni(-12, 4), rapid.SampledFrom([]int{-9, -8, -7, -1, 0, 1, 7, 8, n - 1, n, n + 1}), dictInts(-300, 300)}
	if !wild {
		return rapid.OneOf(tame...)
	}
	return rapid.OneOf(tame[0], uni(-300, 300), uni(-20, 0), rapid.SampledFrom([]int{255, 256, -256, n}), rapid.SampledFrom(extreme))
}

func size(n int, wild bool) *rapid.Generator[int] {
	if !wild {
		return rapid.OneOf(uni(1, n+3), uni(1, 12), uni(0, 70), dictInts(0, 300))
	}
	return rapid.OneOf(rapid.IntRange(0, n+3), rapid.IntRange(-5, 12), rapid.IntRange(0, 300), rapid.SampledFrom([]int{0, 1, n, n + 1, 8, -1, math.MinInt}))
}

func genText(t *rapid.T) []byte {
	return []byte(rapid.OneOf(
		rapid.StringOfN(rapid.RuneFrom(nil, &asciiTable), 0, 12, -1),
		rapid.StringN(0, 6, -1),
		core.Strings("any", nil),
		rapid.StringOfN(rapid.SampledFrom([]rune("Ai \n\r\x00~\x7f\x80ÿĀ漢")), 0, 8, -1)).Draw(t, "text"))
}

func genOp(t *rapid.T, w, h int) op {
	k := rapid.SampledFrom([]string{"pixel", "pixel", "hline", "vline", "rect", "rect", "round", "fillround", "circle", "fillcircle", "bitmap", "char", "text", "text",
		"bbox", "bbox", "invert", "font", "size", "cursor", "cursor", "wrap", "color", "spacing"}).Draw(t, "op")
	o := op{K: k, C: rapid.Bool().Draw(t, "color")}
	wild := rapid.IntRange(0, 4).Draw(t, "wild") == 4
	x := func() int { return coord(w, wild).Draw(t, "x") }
	y := func() int { return coord(h, wild).Draw(t, "y") }
	sw := func() int { return size(w, wild).Draw(t, "w") }
	sh := func() int { return size(h, wild).Draw(t, "h") }
	r := func() int {
		return rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(-3, 40), rapid.IntRange(0, 100), dictInts(-3, 100)).Draw(t, "r")
	}
	corner := func() int {
		return rapid.OneOf(rapid.SampledFrom([]int{1, 2, 4, 8, 15, 3}), rapid.IntRange(-1, 31), dictInts(-1, 255)).Draw(t, "corner")
	}
	small := func(v int) int { return min(max(v, -400), 400) }
	switch k {
	case "pixel":
		o.A = []int{x(), y()}
	case "hline":
		o.A = []int{x(), y(), sw()}
	case "vline":
		o.A = []int{x(), y(), sh()}
	case "rect":
		o.A = []int{x(), y(), sw(), sh()}
		// the end of a row of huge negative origin is far away as well
		if o.A[2] == math.MinInt {
			o.A[2] = -3
		}
	case "round", "fillround":
		o.A = []int{x(), y(), small(sw()), small(sh()), r()}
	case "circle":
		o.A = []int{x(), y(), r(), corner()}
	case "fillcircle":
		o.A = []int{x(), y(), r(), corner(), rapid.IntRange(-30, 60).Draw(t, "delta")}
	case "bitmap":
		bw, bh := rapid.IntRange(-2, 40).Draw(t, "bw"), rapid.IntRange(-2, 30).Draw(t, "bh")
		full := max(0, (bw+7)/8*bh)
		n := rapid.OneOf(rapid.Just(full), rapid.IntRange(0, full+3)).Draw(t, "len")
		o.A = []int{x(), y(), bw, bh}
		o.S = make([]byte, n)
		p := rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, "pattern")
		for i := range o.S {
			o.S[i] = p[i%len(p)]
		}
		o.D, o.E = rapid.Bool().Draw(t, "inverted"), rapid.Bool().Draw(t, "all")
	case "char":
		o.D = rapid.Bool().Draw(t, "bg")
		o.A = []int{x(), y(), rapid.IntRange(0, 255).Draw(t, "c"), rapid.IntRange(-1, 12).Draw(t, "sizeH"), rapid.IntRange(-1, 12).Draw(t, "sizeV")}
	case "text":
		o.S = genText(t)
	case "bbox":
		if wild {
			bw := rapid.OneOf(rapid.IntRange(0, w+3), rapid.IntRange(0, 20), rapid.IntRange(-5, 300), rapid.SampledFrom(extreme)).Draw(t, "bw")
			bh := rapid.OneOf(rapid.IntRange(0, h+3), rapid.IntRange(0, 20), rapid.IntRange(-5, 300), rapid.SampledFrom(extreme)).Draw(t, "bh")
			o.A = []int{x(), y(), bw, bh}
		} else {
			o.A = []int{uni(-4, w/2+1).Draw(t, "bx"), uni(-4, h/2+1).Draw(t, "by"), uni(1, w+6).Draw(t, "bw"), uni(1, h+6).Draw(t, "bh")}
		}
	case "font":
		o.A = []int{rapid.IntRange(-1, 7).Draw(t, "font")}
	case "size":
		o.A = []int{rapid.IntRange(-1, 9).Draw(t, "sh"), rapid.IntRange(-1, 9).Draw(t, "sv")}
	case "cursor":
		o.A = []int{x(), y()}
	case "spacing":
		o.A = []int{rapid.SampledFrom([]int{0, 1, 2, 3, 9, 200, 255}).Draw(t, "spacing")}
	default:
		o.A = []int{}
	}
	return o
}

func genDraw(t *rapid.T) drawCase {
	c := drawCase{}
	dim := rapid.OneOf(uni(1, 40), uni(0, 64), uni(3, 24), dictInts(0, 140), rapid.SampledFrom([]int{64, 63, 17, 16, 15, 9, 8, 7, 1, 0}))
	c.W, c.H = dim.Draw(t, "width"), dim.Draw(t, "height")
	c.Fill = rapid.SampledFrom([][]byte{nil, {0xff}, {0xaa, 0x0f, 0x33}, {0x01, 0x80, 0xfe, 0x7f, 0x55}}).Draw(t, "fill")
	n := core.Count(t, 1, 9, 60, "ops")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, genOp(t, c.W, c.H))
	}
	return c
}

// pixelCase sweeps every coordinate of a window around a small canvas.
type pixelCase struct {
	W, H, Bx, By, Bw, Bh int
	Inv                  bool
}

func checkPixels(c pixelCase, info *core.Info) error {
	stride := (c.W + 7) / 8
	img := &mg.MonoImg{}
	img.NewImage(c.W, c.H)
	img.SetBoundingBox(c.Bx, c.By, c.Bw, c.Bh)
	img.InvertPixels(c.Inv)
	info.NonTrivial(c.W > 0 && c.H > 0)
	buf := img.GetImgSlice()
	for y := -12; y <= c.H+12; y++ {
		for x := -20; x <= c.W+20; x++ {
			for _, color := range []bool{true, false} {
				for i := range buf {
					buf[i] = 0
					if color == c.Inv {
						buf[i] = 0xff
					}
				}
				img.DrawPixel(x, y, color)
				cx, cy := x+c.Bx, y+c.By
				in := x >= 0 && y >= 0 && x < c.Bw && y < c.Bh && cx >= 0 && cy >= 0 && cx < c.W && cy < c.H
				for i, b := range img.GetImgSlice() {
					want := byte(0)
					if color == c.Inv {
						want = 0xff
					}
					if in && i == cy*stride+cx/8 {
						want ^= 0x80 >> (cx % 8)
					}
					if b != want {
						return fmt.Errorf("pixel %d,%d color %v: byte %d (row %d, column %d) is %08b, want %08b", x, y, color, i, i/stride, i%stride, b, want)
					}
				}
			}
		}
	}
	return nil
}

func TestC16(t *testing.T) {
	r := core.Start(t, "C16")
	defer r.Finish()
	core.Explore(r, "draw", core.Size{Quick: 1200000, Thorough: 40000000}, genDraw, checkDraw)
	core.Enumerate(r, "pixels", func(yield func(pixelCase) bool) {
		for _, w := range []int{0, 1, 7, 8, 9, 16, 17} {
			for h := 0; h <= 3; h++ {
				for _, bx := range []int{-9, -3, 0, 2, 8} {
					for _, by := range []int{-1, 0, 1} {
						for _, bw := range []int{-1, 0, 1, 5, 8, 40} {
							for _, bh := range []int{0, 1, 2, 30} {
								for _, inv := range []bool{false, true} {
									if !yield(pixelCase{w, h, bx, by, bw, bh, inv}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}, checkPixels)
}
