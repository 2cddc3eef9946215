package gfx

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"testing"

	lib "github.com/SKAARHOJ/rawpanel-lib"
	mg "github.com/SKAARHOJ/rawpanel-lib/ibeam_lib_monogfx"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"pgregory.net/rapid"
	"rwpverif/core"
)

// data expands a pattern to n bytes; position dependent, so that a byte taken
// from the wrong place shows.
func expand(pattern []byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		p := byte(0)
		if len(pattern) > 0 {
			p = pattern[i%len(pattern)]
		}
		if len(pattern) > 1 {
			p ^= byte(i / len(pattern) * 37)
		}
		b[i] = p
	}
	return b
}

type monoCase struct {
	W, H    int
	Pattern []byte
	Extra   int // data longer than needed
	Pix, Bg int // colours handed to the setters, -1: not called
	Raw     bool
	PixRaw  uint16 // with Raw: colours set directly
	BgRaw   uint16
	Used    int `json:",omitempty"`
}

// to565 is the documented mapping: rrggbb to bbbbbggg gggrrrrr.
func to565(c int) uint16 {
	five := []uint16{0, 10, 20, 31}
	six := []uint16{0, 21, 42, 63}
	return five[c&3]<<11 | six[c>>2&3]<<5 | five[c>>4&3]
}

func checkMono(c monoCase, info *core.Info) error {
	stride := (c.W + 7) / 8
	data := expand(c.Pattern, stride*c.H+c.Extra)
	keep := append([]byte{}, data...)
	bit := func(x, y int) bool { return bitAt(keep, stride, x, y) }
	img := &mg.MonoImg{}
	if err := img.CreateFromBytes(c.W, c.H, data); err != nil {
		return fmt.Errorf("CreateFromBytes with enough data: %v", err)
	}
	info.NonTrivial(c.W > 0 && c.H > 0)
	info.LabelIf(c.W%2 == 1, "odd width")
	info.LabelIf(c.W%8 != 0, "partial byte")
	pix, bg := uint16(0xffff), uint16(0)
	if c.Raw {
		pix, bg = c.PixRaw, c.BgRaw
		img.OLEDPixelColor, img.OLEDBckgColor = pix, bg
	} else {
		if c.Pix >= 0 {
			img.SetOLEDPixelColor(c.Pix)
			pix = to565(c.Pix)
		}
		if c.Bg >= 0 {
			img.SetOLEDBckgColor(c.Bg)
			bg = to565(c.Bg)
		}
		if img.OLEDPixelColor != pix || img.OLEDBckgColor != bg {
			return fmt.Errorf("colours %d/%d are %016b/%016b, want %016b/%016b", c.Pix, c.Bg, img.OLEDPixelColor, img.OLEDBckgColor, pix, bg)
		}
	}
	rgb := img.GetImgSliceRGB()
	if len(rgb) != c.W*c.H*2 {
		return fmt.Errorf("RGB export of %dx%d has %d bytes", c.W, c.H, len(rgb))
	}
	for y := 0; y < c.H; y++ {
		for x := 0; x < c.W; x++ {
			want := bg
			if bit(x, y) {
				want = pix
			}
			i := 2 * (y*c.W + x)
			if got := uint16(rgb[i])<<8 | uint16(rgb[i+1]); got != want {
				return fmt.Errorf("RGB export of %dx%d: pixel %d,%d is %04x, want %04x", c.W, c.H, x, y, got, want)
			}
		}
	}
	gray := img.GetImgSliceGray()
	if len(gray) != c.W*c.H/2 {
		return fmt.Errorf("grey export of %dx%d has %d bytes", c.W, c.H, len(gray))
	}
	if c.W%2 == 0 {
		gp, gb := mg.RGB16BitToGray(pix)>>4, mg.RGB16BitToGray(bg)>>4
		for y := 0; y < c.H; y++ {
			for x := 0; x < c.W; x++ {
				want := gb
				if bit(x, y) {
					want = gp
				}
				i := y*c.W + x
				got := gray[i/2] >> 4
				if i%2 == 1 {
					got = gray[i/2] & 15
				}
				if got != want {
					return fmt.Errorf("grey export of %dx%d: pixel %d,%d is %x, want %x", c.W, c.H, x, y, got, want)
				}
			}
		}
	}
	for _, invert := range []bool{false, true} {
		o := img.ConvertToImage(invert)
		if o.Bounds() != image.Rect(0, 0, c.W, c.H) {
			return fmt.Errorf("image of %dx%d has bounds %v", c.W, c.H, o.Bounds())
		}
		for y := 0; y < c.H; y++ {
			for x := 0; x < c.W; x++ {
				want := color.RGBA{255, 255, 255, 255}
				if bit(x, y) != invert {
					want = color.RGBA{0, 0, 0, 255}
				}
				if got := color.RGBAModel.Convert(o.At(x, y)); got != want {
					return fmt.Errorf("image of %dx%d (invert %v): pixel %d,%d is %v, want %v", c.W, c.H, invert, x, y, got, want)
				}
			}
		}
		back := &mg.MonoImg{}
		switch c.Used { // an image object may have had other contents before
		case 1: // of the same size
			back.CreateFromImage(img.ConvertToImage(!invert))
		case 2:
			back.NewImage(c.W+c.Extra, c.H+3)
			back.SetTextSize(2, 2)
			back.SetCursor(0, 0)
			back.RenderText("A")
			back.InvertPixels(true)
			back.FillRect(0, 0, c.W, c.H+1, true)
		case 3:
			back.CreateFromBytes(c.W, c.H, bytes.Repeat([]byte{0xff}, stride*c.H))
		}
		info.LabelIf(c.Used > 0, "object used before")
		back.CreateFromImage(o)
		if back.Width != c.W || back.Height != c.H || len(back.GetImgSlice()) != stride*c.H {
			return fmt.Errorf("back from an image: %dx%d, %d bytes", back.Width, back.Height, len(back.GetImgSlice()))
		}
		for y := 0; y < c.H; y++ {
			for x := 0; x < c.W; x++ {
				if bitAt(back.GetImgSlice(), stride, x, y) != (bit(x, y) != invert) {
					return fmt.Errorf("round trip of %dx%d through an image (invert %v): pixel %d,%d differs", c.W, c.H, invert, x, y)
				}
			}
		}
		if !invert {
			// what came back exports the same
			back.OLEDPixelColor, back.OLEDBckgColor = pix, bg
			if !bytes.Equal(back.GetImgSliceRGB(), rgb) || c.W%2 == 0 && !bytes.Equal(back.GetImgSliceGray(), gray) {
				return fmt.Errorf("exports differ after the round trip of %dx%d", c.W, c.H)
			}
		}
	}
	if !bytes.Equal(img.GetImgSlice(), keep) {
		return fmt.Errorf("an export changed the image")
	}
	return nil
}

func dimGen(max int) *rapid.Generator[int] {
	return rapid.OneOf(uni(1, 40), uni(0, max), dictInts(0, 300), rapid.SampledFrom([]int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65, max}))
}

func genPattern(t *rapid.T) []byte {
	return rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 1, 40), rapid.SampledFrom([][]byte{{0}, {0xff}, {0xaa}, {0x80, 0x01}, {1, 2, 4, 8, 16, 32, 64, 128, 7, 11, 13}})).Draw(t, "pattern")
}

func genMono(t *rapid.T) monoCase {
	c := monoCase{W: dimGen(130).Draw(t, "w"), H: dimGen(70).Draw(t, "h"), Pattern: genPattern(t)}
	c.Used = rapid.IntRange(0, 3).Draw(t, "used")
	c.Extra = rapid.SampledFrom([]int{0, 0, 1, 20}).Draw(t, "extra")
	col := rapid.OneOf(rapid.IntRange(-1, 63), rapid.IntRange(0, 255), rapid.SampledFrom([]int{1 << 20, 0x7fffffff}))
	c.Pix, c.Bg = col.Draw(t, "pix"), col.Draw(t, "bg")
	if rapid.IntRange(0, 2).Draw(t, "raw") == 0 {
		c.Raw = true
		c.PixRaw, c.BgRaw = rapid.Uint16().Draw(t, "pixraw"), rapid.Uint16().Draw(t, "bgraw")
	}
	return c
}

// ---- graphics states

type gfxCase struct {
	Type    int32
	W, H    int
	Pattern []byte
	Len     int // bytes of data
	Tw, Th  int // target canvas
	Xy      bool
}

func need(typ int32, w, h int) int {
	switch rwp.HWCGfx_ImageTypeE(typ) {
	case rwp.HWCGfx_RGB16bit:
		return 2 * w * h
	case rwp.HWCGfx_Gray4bit:
		return (w*h + 1) / 2
	}
	return (w + 7) / 8 * h
}

// stored gives the documented expansion of a pixel, if the data covers it.
func (c *gfxCase) stored(data []byte, x, y int) (col color.RGBA, ok bool) {
	col.A = 255
	switch rwp.HWCGfx_ImageTypeE(c.Type) {
	case rwp.HWCGfx_RGB16bit:
		i := 2 * (y*c.W + x)
		if i+1 >= len(data) {
			return col, false
		}
		v := int(data[i])<<8 | int(data[i+1])
		col.R, col.G, col.B = uint8(v&31*255/31), uint8(v>>5&63*255/63), uint8(v>>11&31*255/31)
		return col, true
	case rwp.HWCGfx_Gray4bit:
		i := y*c.W + x
		if i/2 >= len(data) {
			return col, false
		}
		v := data[i/2] >> 4
		if i%2 == 1 {
			v = data[i/2] & 15
		}
		col.R, col.G, col.B = v*17, v*17, v*17
		return col, true
	}
	i := y*((c.W+7)/8) + x/8
	if i >= len(data) {
		return col, false
	}
	if data[i]>>(7-x%8)&1 != 0 {
		col.R, col.G, col.B = 255, 255, 255
	}
	return col, true
}

func checkGfx(c gfxCase, info *core.Info) error {
	data := expand(c.Pattern, c.Len)
	keep := append([]byte{}, data...)
	g := &rwp.HWCGfx{ImageType: rwp.HWCGfx_ImageTypeE(c.Type), W: uint32(c.W), H: uint32(c.H), ImageData: data}
	if c.Xy {
		g.XYoffset, g.X, g.Y = true, 3, 2
	}
	what := fmt.Sprintf("%s %dx%d with %d of %d bytes", g.ImageType, c.W, c.H, c.Len, need(c.Type, c.W, c.H))
	info.Label(g.ImageType.String())
	switch n := need(c.Type, c.W, c.H); {
	case c.Len < n:
		info.Label("data too short")
	case c.Len > n:
		info.Label("data too long")
	}
	info.NonTrivial(c.W > 0 && c.H > 0 && c.Len > 0)
	match := func(routine string, img image.Image, ox, oy int) error {
		for y := 0; y < c.H; y++ {
			for x := 0; x < c.W; x++ {
				if !image.Pt(x+ox, y+oy).In(img.Bounds()) {
					continue
				}
				want, ok := c.stored(keep, x, y)
				if !ok {
					continue
				}
				if got := color.RGBAModel.Convert(img.At(x+ox, y+oy)); got != want {
					return fmt.Errorf("%s of %s: pixel %d,%d is %v, want %v", routine, what, x, y, got, want)
				}
			}
		}
		return nil
	}
	exact := func(routine string, img image.Image) error {
		if img.Bounds() != image.Rect(0, 0, c.W, c.H) {
			return fmt.Errorf("%s of %s: size %v", routine, what, img.Bounds())
		}
		return match(routine, img, 0, 0)
	}
	// through PNG
	if c.Type > 2 { // none of the formats: no panic is all
		lib.ConvertGfxStateToPngBytes(&rwp.HWCState{HWCGfx: g})
		lib.RwpImgToImage(g, c.Tw, c.Th)
		return nil
	}
	b, err := lib.ConvertGfxStateToPngBytes(&rwp.HWCState{HWCGfx: g, HWCIDs: []uint32{1}})
	if c.W > 0 && c.H > 0 {
		if err != nil {
			return fmt.Errorf("PNG of %s: %v", what, err)
		}
		img, err := png.Decode(bytes.NewReader(b))
		if err != nil {
			return fmt.Errorf("PNG of %s does not decode: %v", what, err)
		}
		if err := exact("PNG", img); err != nil {
			return err
		}
	}
	// directly
	if err := exact("RwpImgToImage", lib.RwpImgToImage(g, c.W, c.H)); err != nil {
		return err
	}
	switch g.ImageType {
	case rwp.HWCGfx_RGB16bit:
		err = exact("CreateImgObjectFromRGBBytes", lib.CreateImgObjectFromRGBBytes(c.W, c.H, data))
	case rwp.HWCGfx_Gray4bit:
		err = exact("CreateImgObjectFromGrayBytes", lib.CreateImgObjectFromGrayBytes(c.W, c.H, data))
	case rwp.HWCGfx_MONO:
		m := &mg.MonoImg{}
		if c.Xy { // with other contents before
			m.CreateFromBytes(c.W, c.H, bytes.Repeat([]byte{0xa5}, c.W*c.H+8))
		}
		cerr := m.CreateFromBytes(c.W, c.H, append([]byte{}, data...))
		if (cerr != nil) != (c.Len < need(c.Type, c.W, c.H)) {
			return fmt.Errorf("CreateFromBytes of %s: error %v", what, cerr)
		}
		if err = exact("ConvertToImage", m.ConvertToImage(true)); err == nil && c.W > 0 && len(m.GetImgSliceRGB()) != 2*c.W*c.H {
			err = fmt.Errorf("RGB export of %s: %d bytes", what, len(m.GetImgSliceRGB()))
		}
	}
	if err != nil {
		return err
	}
	// on another canvas, centred
	img := lib.RwpImgToImage(g, c.Tw, c.Th)
	if img.Bounds() != image.Rect(0, 0, c.Tw, c.Th) {
		return fmt.Errorf("RwpImgToImage of %s to %dx%d: size %v", what, c.Tw, c.Th, img.Bounds())
	}
	info.LabelIf(c.Tw < c.W || c.Th < c.H, "target smaller than the image")
	info.LabelIf(c.Tw > c.W && c.Th > c.H, "target larger than the image")
	if err := match(fmt.Sprintf("RwpImgToImage to %dx%d", c.Tw, c.Th), img, (c.Tw-c.W)/2, (c.Th-c.H)/2); err != nil {
		return err
	}
	if !bytes.Equal(g.ImageData, keep) || g.W != uint32(c.W) || g.H != uint32(c.H) {
		return fmt.Errorf("a conversion changed the state")
	}
	// the same state object and the same buffer with other contents
	for i := range data {
		data[i] ^= byte(0x5a + 31*i)
	}
	keep = append([]byte{}, data...)
	if err := exact("RwpImgToImage after an edit", lib.RwpImgToImage(g, c.W, c.H)); err != nil {
		return err
	}
	if c.W > 0 && c.H > 0 {
		b, err := lib.ConvertGfxStateToPngBytes(&rwp.HWCState{HWCGfx: g, HWCIDs: []uint32{1}})
		if err != nil {
			return fmt.Errorf("PNG of %s after an edit: %v", what, err)
		}
		img, err := png.Decode(bytes.NewReader(b))
		if err != nil {
			return fmt.Errorf("PNG of %s after an edit does not decode: %v", what, err)
		}
		return exact("PNG after an edit", img)
	}
	return nil
}

func genGfx(t *rapid.T) gfxCase {
	c := gfxCase{Type: rapid.SampledFrom([]int32{0, 1, 2, 0, 1, 2, 0, 1, 2, 7}).Draw(t, "type"), Pattern: genPattern(t), Xy: rapid.Bool().Draw(t, "xy")}
	if rapid.IntRange(0, 30).Draw(t, "large") == 0 {
		c.W, c.H = uni(0, 400).Draw(t, "w"), uni(0, 300).Draw(t, "h")
	} else {
		c.W, c.H = dimGen(96).Draw(t, "w"), dimGen(48).Draw(t, "h")
	}
	n := need(c.Type, c.W, c.H)
	switch rapid.IntRange(0, 3).Draw(t, "len") {
	case 0, 1:
		c.Len = n
	case 2:
		c.Len = uni(0, n).Draw(t, "short")
	case 3:
		c.Len = max(0, n+rapid.SampledFrom([]int{-1, 1, -2, 2, 100}).Draw(t, "off"))
	}
	switch rapid.IntRange(0, 2).Draw(t, "target") {
	case 0:
		c.Tw, c.Th = c.W, c.H
	case 1:
		c.Tw, c.Th = uni(0, 120).Draw(t, "tw"), uni(0, 70).Draw(t, "th")
	case 2:
		c.Tw, c.Th = max(0, c.W+uni(-9, 9).Draw(t, "dw")), max(0, c.H+uni(-9, 9).Draw(t, "dh"))
	}
	return c
}

// luma: the grey value of every colour against the standard weights.
type lumaCase struct{ Block int }

func checkLuma(c lumaCase, info *core.Info) error {
	info.NonTrivial(true)
	for v := c.Block * 1024; v < (c.Block+1)*1024; v++ {
		r, g, b := float64(v&31)/31, float64(v>>5&63)/63, float64(v>>11)/31
		want := 255 * (0.299*r + 0.587*g + 0.114*b)
		if got := float64(mg.RGB16BitToGray(uint16(v))); got < want-1.5 || got > want+1.5 {
			return fmt.Errorf("the grey value of %04x (r %.2f g %.2f b %.2f) is %v, want about %.1f", v, r, g, b, got, want)
		}
	}
	return nil
}

func TestC17(t *testing.T) {
	r := core.Start(t, "C17")
	defer r.Finish()
	core.Explore(r, "mono", core.Size{Quick: 40000, Thorough: 1500000}, genMono, checkMono)
	core.Explore(r, "gfx", core.Size{Quick: 40000, Thorough: 1500000}, genGfx, checkGfx)
	core.Enumerate(r, "colours", func(yield func(monoCase) bool) {
		for p := 0; p < 256; p++ {
			for _, b := range []int{p, 255 - p, (p * 7) & 63} {
				if !yield(monoCase{W: 10, H: 3, Pattern: []byte{0x5a, 0x80, 0x3c, 0x40, 0xff, 0}, Pix: p, Bg: b}) {
					return
				}
			}
		}
	}, checkMono)
	core.Enumerate(r, "sizes", func(yield func(monoCase) bool) {
		for w := 0; w <= 33; w++ {
			for h := 0; h <= 5; h++ {
				if !yield(monoCase{W: w, H: h, Pattern: []byte{0x35, 0xca, 0x81, 0x7e, 0x11}, Pix: 0b110110, Bg: 0b000111}) {
					return
				}
			}
		}
	}, checkMono)
	// every amount of data for small images
	core.Enumerate(r, "lengths", func(yield func(gfxCase) bool) {
		for typ := int32(0); typ < 3; typ++ {
			for _, w := range []int{0, 1, 2, 3, 7, 8, 9, 17} {
				for _, h := range []int{0, 1, 2, 3, 5} {
					for n := 0; n <= need(typ, w, h)+2; n++ {
						if !yield(gfxCase{Type: typ, W: w, H: h, Pattern: []byte{0x35, 0xca, 0x81, 0x7e, 0x11}, Len: n, Tw: w + 3, Th: max(0, h-1)}) {
							return
						}
					}
				}
			}
		}
	}, checkGfx)
	// long and tall ones
	core.Enumerate(r, "strips", func(yield func(gfxCase) bool) {
		for i, n := range []int{255, 256, 257, 511, 1023, 1025, 2040, 2041, 2048, 2049, 4096, 4099, 16384, 32768, 65535, 65536, 65539, 131073} {
			for typ := int32(0); typ < 3; typ++ {
				w, h := n, 1+i%3
				for k := 0; k < 2; k++ {
					if !yield(gfxCase{Type: typ, W: w, H: h, Pattern: []byte{0x35, 0xca, 0x81, 0x7e, 0x11, 0x90, 0x6b}, Len: need(typ, w, h), Tw: w + 1 - 2*k, Th: h}) {
						return
					}
					w, h = h, w
				}
			}
		}
	}, checkGfx)
	core.Enumerate(r, "strips-mono", func(yield func(monoCase) bool) {
		for i, n := range []int{255, 256, 257, 511, 1023, 1025, 2040, 2041, 2048, 2049, 4096, 4098, 16384, 32768, 65535, 65536, 65538, 131074} {
			w, h := n, 1+i%3
			for k := 0; k < 2; k++ {
				if !yield(monoCase{W: w, H: h, Pattern: []byte{0x35, 0xca, 0x81, 0x7e, 0x11, 0x90, 0x6b}, Pix: 0b110110, Bg: 0b000111}) {
					return
				}
				w, h = h, w
			}
		}
	}, checkMono)
	core.Enumerate(r, "luma", func(yield func(lumaCase) bool) {
		for i := 0; i < 64; i++ {
			if !yield(lumaCase{i}) {
				return
			}
		}
	}, checkLuma)
}
