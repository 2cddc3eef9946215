package topo

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"testing"

	tp "github.com/SKAARHOJ/rawpanel-lib/topology"
	"pgregory.net/rapid"
	"rwpverif/core"
)

// ---- an own XML tree

type node struct {
	Name string
	Attr []string // name=value in document order
	Kids []*node
	Text string
}

func (n *node) attr(k string) string {
	for _, a := range n.Attr {
		if strings.HasPrefix(a, k+"=") {
			return a[len(k)+1:]
		}
	}
	return ""
}

func (n *node) has(k string) bool {
	for _, a := range n.Attr {
		if strings.HasPrefix(a, k+"=") {
			return true
		}
	}
	return false
}

type xmlDoc struct {
	Root *node
	Pi   []string
	Dirs []string
}

func rawName(n xml.Name) string {
	if n.Space != "" {
		return n.Space + ":" + n.Local
	}
	return n.Local
}

// parseXML reads a whole document strictly: matching tags, one root, nothing
// but white space around it, no attribute twice. Text of mixed content is
// kept in place as kid nodes named #.
func parseXML(s string) (*xmlDoc, error) {
	// the decoder's own well-formedness rules
	d := xml.NewDecoder(strings.NewReader(s))
	for {
		if _, err := d.Token(); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
	}
	d = xml.NewDecoder(strings.NewReader(s))
	doc := &xmlDoc{}
	var stack []*node
	for {
		tok, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := tok.(type) {
		case xml.StartElement:
			n := &node{Name: rawName(x.Name)}
			seen := map[string]bool{}
			for _, a := range x.Attr {
				k := rawName(a.Name)
				if seen[k] {
					return nil, fmt.Errorf("attribute %s twice in <%s>", k, n.Name)
				}
				seen[k] = true
				n.Attr = append(n.Attr, k+"="+a.Value)
			}
			if len(stack) == 0 {
				if doc.Root != nil {
					return nil, fmt.Errorf("second root <%s>", n.Name)
				}
				doc.Root = n
			} else {
				p := stack[len(stack)-1]
				p.Kids = append(p.Kids, n)
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) == 0 {
				if strings.TrimSpace(string(x)) != "" {
					return nil, fmt.Errorf("text %q outside the root", string(x))
				}
				continue
			}
			p := stack[len(stack)-1]
			if len(p.Kids) > 0 && p.Kids[len(p.Kids)-1].Name == "#" {
				p.Kids[len(p.Kids)-1].Text += string(x)
			} else {
				p.Kids = append(p.Kids, &node{Name: "#", Text: string(x)})
			}
		case xml.ProcInst:
			doc.Pi = append(doc.Pi, fmt.Sprintf("%s at depth %d", x.Target+" "+string(x.Inst), len(stack)))
		case xml.Directive:
			doc.Dirs = append(doc.Dirs, string(x))
		}
	}
	if doc.Root == nil {
		return nil, fmt.Errorf("no root element")
	}
	return doc, nil
}

// tidy folds the text of leaves into Text and drops white space between
// elements.
func (n *node) tidy(trim bool) {
	if len(n.Kids) == 1 && n.Kids[0].Name == "#" {
		n.Text = n.Kids[0].Text
		if trim {
			n.Text = strings.TrimSpace(n.Text)
		}
		n.Kids = nil
		return
	}
	var kids []*node
	for _, k := range n.Kids {
		if k.Name == "#" {
			if k.Text = strings.TrimSpace(k.Text); k.Text == "" {
				continue
			}
		} else {
			k.tidy(trim)
		}
		kids = append(kids, k)
	}
	n.Kids = kids
}

// ---- reference

type mapEntry struct{ Id, V uint32 }

type svgCase struct {
	T      *Topo
	HasMap bool
	Map    []mapEntry
	Base   string
	// nil: GenerateCompositeSVG, otherwise labels, hwcid, type, display size
	Opts []bool
}

func escaped(s string) string {
	// characters XML cannot carry are replaced
	var b strings.Builder
	xml.EscapeText(&b, []byte(s))
	d, err := parseXML("<a>" + b.String() + "</a>")
	if err != nil {
		panic(err)
	}
	d.Root.tidy(false)
	return d.Root.Text
}

func elem(name string, kv ...string) string {
	return name + "|" + strings.Join(kv, "|")
}

var geoAttr = map[string][]string{
	"rect":   {"id", "x", "y", "width", "height", "transform"},
	"circle": {"id", "cx", "cy", "r", "transform"},
	"text":   {"x", "y", "transform", "text-anchor"},
}

// describe gives the part of an added element that is checked.
func describe(n *node) (string, error) {
	l, ok := geoAttr[n.Name]
	if !ok {
		return "", fmt.Errorf("unexpected element <%s> %v", n.Name, n.Attr)
	}
	var kv []string
	main := n.has("id")
	for _, a := range l {
		if n.has(a) {
			kv = append(kv, a+"="+n.attr(a))
		}
	}
	if n.Name == "text" {
		kv = append(kv, "text="+n.Text)
	} else if !main {
		for _, a := range []string{"rx", "ry", "style"} {
			if n.has(a) {
				kv = append(kv, a+"="+n.attr(a))
			}
		}
	}
	return elem(n.Name, kv...), nil
}

// expect lists the elements the topology adds.
func (c *svgCase) expect(opts []bool) (out []string, visible int) {
	labels, hwcid, types, disp := opts[0], opts[1], opts[2], opts[3]
	m := map[uint32]uint32{}
	for _, e := range c.Map {
		m[e.Id] = e.V
	}
	for i := range c.T.HWc {
		h := &c.T.HWc[i]
		if c.HasMap && m[h.Id] == 0 {
			continue
		}
		visible++
		d := c.T.resolve(h)
		rot := func(r float32) []string {
			if r == 0 {
				return nil
			}
			return []string{fmt.Sprintf("transform=rotate(%03f %d %d)", r, h.X, h.Y)}
		}
		kv := func(k string, v int) string { return k + "=" + strconv.Itoa(v) }
		add := func(name string, a ...[]string) {
			var all []string
			for _, x := range a {
				all = append(all, x...)
			}
			out = append(out, elem(name, all...))
		}
		id := []string{"id=HWc" + strconv.FormatUint(uint64(h.Id), 10)}
		if d.H > 0 {
			add("rect", id, []string{kv("x", h.X-d.W/2), kv("y", h.Y-d.H/2), kv("width", d.W), kv("height", d.H)}, rot(d.Rotate))
		} else {
			add("circle", id, []string{kv("cx", h.X), kv("cy", h.Y), kv("r", d.W/2)}, rot(d.Rotate))
		}
		for _, s := range d.Sub {
			var extra []string
			if s.Rx != 0 {
				extra = append(extra, kv("rx", s.Rx))
			}
			if s.Ry != 0 {
				extra = append(extra, kv("ry", s.Ry))
			}
			if s.Style != "" {
				extra = append(extra, "style="+s.Style)
			}
			switch s.Kind {
			case "r":
				add("rect", []string{kv("x", h.X+s.X), kv("y", h.Y+s.Y), kv("width", s.W), kv("height", s.H)}, rot(d.Rotate), extra)
			case "c":
				add("circle", []string{kv("cx", h.X+s.X), kv("cy", h.Y+s.Y), kv("r", s.R)}, rot(d.Rotate), extra)
			}
		}
		render := map[string]bool{}
		for _, o := range strings.Split(d.Render, ",") {
			render[o] = true
		}
		half := d.H / 2
		if d.H <= 0 {
			half = d.W / 2
		}
		mid := []string{"text-anchor=middle"}
		txt := func(s string) []string { return []string{"text=" + escaped(s)} }
		if labels || render["txt"] {
			lines := strings.Split(h.Txt, "|")
			if len(lines) > 1 && lines[1] != "" {
				lines = lines[:2]
			} else {
				lines = lines[:1]
			}
			r := d.Rotate
			if d.H > 2*d.W {
				r += 90
			}
			for a, s := range lines {
				add("text", []string{kv("x", h.X), kv("y", h.Y+27+30*a-15*len(lines))}, rot(r), mid, txt(s))
			}
		}
		if types {
			add("text", []string{kv("x", h.X), kv("y", h.Y-half-2)}, rot(d.Rotate), mid, txt(fmt.Sprintf("[TYPE=%d]", h.Type)))
		}
		if disp && d.Disp != nil {
			x, y := h.X, h.Y-half-2
			if k := d.Disp.Subidx; k >= 0 && k < len(d.Sub) {
				x, y = h.X+d.Sub[k].X+d.Sub[k].W/2, h.Y+d.Sub[k].Y+d.Sub[k].H/2
			}
			s := fmt.Sprintf("%dx%d", d.Disp.W, d.Disp.H)
			if d.Disp.Type != "" {
				s += " " + d.Disp.Type
			}
			add("text", []string{kv("x", x), kv("y", y)}, rot(d.Rotate), mid, txt(s))
		}
		if hwcid || render["hwcid"] {
			if d.H > 0 {
				add("text", []string{kv("x", h.X-(d.W/2-4)), kv("y", h.Y-half+20)}, rot(d.Rotate), txt(strconv.FormatUint(uint64(h.Id), 10)))
			} else {
				add("text", []string{kv("x", h.X), kv("y", h.Y-half+20)}, rot(d.Rotate), mid, txt(strconv.FormatUint(uint64(h.Id), 10)))
			}
		}
	}
	return
}

// ---- own JSON form of a topology

func ownJSON(t *Topo) string {
	type obj = map[string]any
	def := func(d *Def) obj {
		o := obj{"subidx": d.Subidx}
		put := func(k string, v any, on bool) {
			if on {
				o[k] = v
			}
		}
		put("w", d.W, d.W != 0)
		put("h", d.H, d.H != 0)
		put("out", d.Out, d.Out != "")
		put("in", d.In, d.In != "")
		put("desc", d.Desc, d.Desc != "")
		put("ext", d.Ext, d.Ext != "")
		put("render", d.Render, d.Render != "")
		put("rotate", d.Rotate, d.Rotate != 0)
		if p := d.Disp; p != nil {
			o["disp"] = obj{"w": p.W, "h": p.H, "subidx": p.Subidx, "type": p.Type, "shrink": p.Shrink, "txtborder": p.Border}
		}
		var subs []obj
		for _, s := range d.Sub {
			subs = append(subs, obj{"_": s.Kind, "_x": s.X, "_y": s.Y, "_w": s.W, "_h": s.H, "r": s.R, "rx": s.Rx, "ry": s.Ry, "style": s.Style, "_idx": s.Idx})
		}
		put("sub", subs, len(subs) > 0)
		return o
	}
	top := obj{"title": t.Title}
	hwc := []obj{}
	for i := range t.HWc {
		h := &t.HWc[i]
		o := obj{"id": h.Id, "x": h.X, "y": h.Y, "txt": h.Txt, "type": h.Type}
		if h.Over != nil {
			o["typeOverride"] = def(h.Over)
		}
		hwc = append(hwc, o)
	}
	top["HWc"] = hwc
	idx := obj{}
	for i := range t.Index {
		idx[strconv.Itoa(int(t.Index[i].Key))] = def(&t.Index[i].Def)
	}
	top["typeIndex"] = idx
	b, err := json.Marshal(top)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// sameTopo makes sure the own JSON form means what the case says; label text
// that is no UTF-8 changes in any JSON form.
func jsonForm(t *Topo) (string, *Topo, error) {
	s := ownJSON(t)
	l := &tp.Topology{}
	if err := json.Unmarshal([]byte(s), l); err != nil {
		return "", nil, err
	}
	return s, fromLib(l), nil
}

func checkSVG(c svgCase, info *core.Info) error {
	tj, back, err := jsonForm(c.T)
	if err != nil {
		return fmt.Errorf("the topology JSON %s does not parse: %v", tj, err)
	}
	c.T.Title = back.Title
	for i := range c.T.HWc {
		if i < len(back.HWc) {
			c.T.HWc[i].Txt = back.HWc[i].Txt
			c.T.HWc[i].UIparent, c.T.HWc[i].UIyang = 0, 0
		}
	}
	if js(c.T) != js(back) {
		return fmt.Errorf("the topology JSON %s is read as %s, not %s", tj, js(back), js(c.T))
	}
	var m map[uint32]uint32
	if c.HasMap {
		m = map[uint32]uint32{}
		for _, e := range c.Map {
			m[e.Id] = e.V
		}
	}
	before := fmt.Sprint(m)
	opts := c.Opts
	var outs []string
	if opts == nil {
		opts = []bool{true, true, false, false}
		outs = append(outs, tp.GenerateCompositeSVG(tj, c.Base, m), tp.GenerateCompositeSVG(tj, c.Base, m))
	} else {
		for i := 0; i < 2; i++ {
			d := tp.GenerateCompositeSVGdoc(tj, c.Base, m, opts[0], opts[1], opts[2], opts[3])
			if d == nil {
				return fmt.Errorf("no document for a valid base SVG")
			}
			if i == 0 {
				outs = append(outs, d.XMLPretty(), d.XML())
			} else {
				outs = append(outs, d.XMLPretty())
			}
		}
	}
	if outs[0] != outs[len(outs)-1] {
		return fmt.Errorf("two runs differ: %s / %s", outs[0], outs[len(outs)-1])
	}
	if s := fmt.Sprint(m); s != before {
		return fmt.Errorf("the availability map changed from %s to %s", before, s)
	}
	want, visible := c.expect(opts)
	info.NonTrivial(visible > 0)
	info.LabelIf(c.HasMap && visible == 0 && len(c.T.HWc) > 0, "all components masked")
	info.LabelIf(visible > 0 && visible < len(c.T.HWc), "some components masked")
	info.LabelIf(!c.HasMap, "no map")
	info.LabelIf(c.Opts == nil, "GenerateCompositeSVG")
	for i, out := range outs {
		if i == 2 {
			continue
		}
		if err := checkDoc(out, c.Base, want); err != nil {
			return fmt.Errorf("%v\n  output: %s", err, clip(out, 3000))
		}
	}
	return nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// checkDoc compares an output with the base plus the wanted elements.
func checkDoc(out, base string, want []string) error {
	if out == "" {
		return fmt.Errorf("empty result for a valid base SVG")
	}
	b, err := parseXML(base)
	if err != nil {
		return core.Invalid("base does not parse: %v", err)
	}
	o, err := parseXML(out)
	if err != nil {
		return fmt.Errorf("the output is not well-formed: %v", err)
	}
	if strings.Join(o.Pi, "\n") != strings.Join(b.Pi, "\n") || strings.Join(o.Dirs, "\n") != strings.Join(b.Dirs, "\n") {
		return fmt.Errorf("declarations changed: %q %q, were %q %q", o.Pi, o.Dirs, b.Pi, b.Dirs)
	}
	b.Root.tidy(true)
	o.Root.tidy(false)
	if b.Root.Name != o.Root.Name || strings.Join(b.Root.Attr, "\x00") != strings.Join(o.Root.Attr, "\x00") {
		return fmt.Errorf("the root changed: <%s %q>, was <%s %q>", o.Root.Name, o.Root.Attr, b.Root.Name, b.Root.Attr)
	}
	if b.Root.Text != "" { // a root with text only
		return core.Invalid("base with text in the root")
	}
	if len(o.Root.Kids) < len(b.Root.Kids) {
		return fmt.Errorf("base content is missing: %d of %d children", len(o.Root.Kids), len(b.Root.Kids))
	}
	for i, k := range b.Root.Kids {
		if g, w := js(o.Root.Kids[i]), js(k); g != w {
			return fmt.Errorf("base content changed: %s, was %s", g, w)
		}
	}
	var got []string
	for _, k := range o.Root.Kids[len(b.Root.Kids):] {
		d, err := describe(k)
		if err != nil {
			return err
		}
		if len(k.Kids) > 0 {
			return fmt.Errorf("the added %s has children", d)
		}
		got = append(got, d)
	}
	w := append([]string{}, want...)
	sort.Strings(w)
	sort.Strings(got)
	for i := 0; i < len(w) || i < len(got); i++ {
		switch {
		case i >= len(got) || i < len(w) && w[i] < got[i]:
			return fmt.Errorf("missing: %q (added: %q)", w[i], got)
		case i >= len(w) || got[i] < w[i]:
			return fmt.Errorf("not expected: %q (expected: %q)", got[i], w)
		}
	}
	return nil
}

// ---- base documents

var elemNames = []string{"g", "rect", "circle", "path", "defs", "text", "title", "style", "linearGradient", "stop", "x-y.z", "é"}

func genXMLText(t *rapid.T) string {
	s := rapid.OneOf(
		rapid.SampledFrom([]string{"a", "Panel & Co", "<b>", "äö漢", "]]>", ".a{fill:#fff}\n.b{x:y}", "HWc1", "two  spaces"}),
		rapid.StringOfN(rapid.SampledFrom([]rune("ab<>&\"' é;#{}\n")), 0, 12, -1)).Draw(t, "text")
	return strings.TrimSpace(s)
}

func xmlEsc(t *rapid.T, s string) string {
	var b strings.Builder
	num := rapid.Bool().Draw(t, "numeric")
	for _, r := range s {
		switch {
		case r == '<' || r == '&' || r == '>' || r == '"' || r == '\'':
			if num {
				fmt.Fprintf(&b, "&#x%x;", r)
			} else {
				b.WriteString(map[rune]string{'<': "&lt;", '>': "&gt;", '&': "&amp;", '"': "&quot;", '\'': "&apos;"}[r])
			}
		case r > 127 && num:
			fmt.Fprintf(&b, "&#%d;", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func genAttrs(t *rapid.T) string {
	var b strings.Builder
	names := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"id", "x", "y", "width", "height", "viewBox", "fill", "style", "d", "class", "data-x", "xmlns2", "points"}), 0, 5, func(s string) string { return s }).Draw(t, "attrs")
	for _, n := range names {
		v := rapid.SampledFrom([]string{"", "1", "HWc1", "0 0 100 200", "M0,0\n  L10,10\n\tZ", "fill:#fff;\n stroke:none", "a&b<c>\"'", " lead", "é漢"}).Draw(t, "value")
		q := rapid.SampledFrom([]string{"\"", "'"}).Draw(t, "quote")
		b.WriteString(rapid.SampledFrom([]string{" ", "\n  ", "\t"}).Draw(t, "ws"))
		b.WriteString(n + rapid.SampledFrom([]string{"=", " = "}).Draw(t, "eq") + q + xmlEsc(t, v) + q)
	}
	return b.String()
}

func genElem(t *rapid.T, depth int) string {
	name := rapid.SampledFrom(elemNames).Draw(t, "elem")
	open := "<" + name + genAttrs(t)
	ws := rapid.SampledFrom([]string{"", " ", "\n"}).Draw(t, "ws")
	kind := rapid.IntRange(0, 4).Draw(t, "elemkind")
	switch {
	case kind == 0:
		return open + ws + "/>"
	case kind == 1:
		return open + ws + "></" + name + ws + ">"
	case kind == 2 || depth >= 4:
		s := genXMLText(t)
		pad := rapid.SampledFrom([]string{"", " ", "\n\t"}).Draw(t, "pad")
		if rapid.IntRange(0, 3).Draw(t, "cdata") == 0 && !strings.Contains(s, "]]>") && s != "" {
			return open + "><![CDATA[" + s + "]]></" + name + ">"
		}
		return open + ">" + pad + xmlEsc(t, s) + pad + "</" + name + ">"
	}
	return open + ">" + genContent(t, depth+1) + "</" + name + ">"
}

func genContent(t *rapid.T, depth int) string {
	var b strings.Builder
	for n := rapid.IntRange(0, 4).Draw(t, "kids"); n > 0; n-- {
		b.WriteString(rapid.SampledFrom([]string{"", "\n", "  ", "<!-- a comment <x> -->", "\r\n"}).Draw(t, "between"))
		b.WriteString(genElem(t, depth))
	}
	b.WriteString(rapid.SampledFrom([]string{"", "\n", "<!-- end -->"}).Draw(t, "tail"))
	return b.String()
}

func genBase(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "basekind") {
	case 0:
		return rapid.SampledFrom([]string{"<svg/>", "<svg></svg>", `<svg width="10" height="20" xmlns="http://www.w3.org/2000/svg"></svg>`, "<svg>\n</svg>\n", `<?xml version="1.0" encoding="UTF-8"?><svg/>`, "\ufeff<svg/>"[3:]}).Draw(t, "minimal")
	}
	s := rapid.SampledFrom([]string{"", "", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"no\"?>"}).Draw(t, "header")
	s += rapid.SampledFrom([]string{"", "", "<!-- made by hand -->\n", "<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\">\n"}).Draw(t, "doctype")
	s += "<svg" + rapid.SampledFrom([]string{"", ` xmlns="http://www.w3.org/2000/svg"`, "\n   version=\"1.1\"\n   viewBox=\"0 0 100\n 200\"\n"}).Draw(t, "rootattr") + ">"
	s += genContent(t, 0) + "</svg>"
	s += rapid.SampledFrom([]string{"", "\n", "<!-- after -->\n"}).Draw(t, "after")
	return s
}

func genSVG(t *rapid.T) svgCase {
	c := svgCase{T: genTopo(t, rapid.IntRange(0, 2).Draw(t, "indexed") > 0, 7), Base: genBase(t)}
	for i := range c.T.HWc {
		c.T.HWc[i].UIparent, c.T.HWc[i].UIyang = 0, 0
	}
	switch rapid.IntRange(0, 4).Draw(t, "mapkind") {
	case 0, 1:
	case 2:
		c.HasMap = true
	default:
		c.HasMap = true
		seen := map[uint32]bool{}
		add := func(id, v uint32) {
			if !seen[id] {
				seen[id] = true
				c.Map = append(c.Map, mapEntry{id, v})
			}
		}
		for _, h := range c.T.HWc {
			switch rapid.IntRange(0, 3).Draw(t, "masked") {
			case 0:
			case 1:
				add(h.Id, 0)
			default:
				add(h.Id, rapid.SampledFrom([]uint32{1, h.Id, 2, 1<<32 - 1, 256, 1 << 31}).Draw(t, "to"))
			}
		}
		add(rapid.SampledFrom([]uint32{0, 3, 77}).Draw(t, "other"), rapid.Uint32Range(0, 2).Draw(t, "otherv"))
	}
	if rapid.IntRange(0, 1).Draw(t, "doc") == 1 {
		c.Opts = []bool{rapid.Bool().Draw(t, "labels"), rapid.Bool().Draw(t, "hwcid"), rapid.Bool().Draw(t, "types"), rapid.Bool().Draw(t, "disp")}
	}
	return c
}

// ---- bases that do not parse

type badCase struct {
	Base string
	// the base is certainly no well-formed document; otherwise only a panic counts
	Bad bool
	// topology text, any
	Topo string
	Map  bool
}

func checkBad(c badCase, info *core.Info) error {
	bad := c.Bad
	if !bad {
		d := xml.NewDecoder(strings.NewReader(c.Base))
		root := false
		for {
			tok, err := d.Token()
			if err == io.EOF {
				bad = !root
				break
			}
			if err != nil {
				bad = true
				break
			}
			if _, ok := tok.(xml.StartElement); ok {
				root = true
			}
		}
	}
	info.NonTrivial(bad)
	info.LabelIf(bad, "not well-formed")
	info.LabelIf(!bad, "accepted by the decoder")
	var m map[uint32]uint32
	if c.Map {
		m = map[uint32]uint32{1: 1}
	}
	s := tp.GenerateCompositeSVG(c.Topo, c.Base, m)
	d := tp.GenerateCompositeSVGdoc(c.Topo, c.Base, m, true, true, true, true)
	if bad && s != "" {
		return fmt.Errorf("the base does not parse, but the result is %s", clip(s, 500))
	}
	if bad && d != nil {
		return fmt.Errorf("the base does not parse, but there is a document: %s", clip(d.XML(), 500))
	}
	if !bad {
		if _, err := parseXML(c.Base); err == nil && (s == "" || d == nil) {
			return fmt.Errorf("nothing for a base that parses")
		}
	}
	return nil
}

var badBases = []string{"", " ", "\n", "<!-- only -->", "hello", "<?xml version=\"1.0\"?>", "<!DOCTYPE svg>", "<svg", "<svg>", "<svg><g></svg>", "<svg></SVG>", "</svg>", "<svg a=1/>", "<svg a/>", "<svg a=\"1/>", "<svg>&unknown;</svg>", "<svg>&</svg>", "<svg><</svg>", "<svg>\xff</svg>", "<svg a=\"\xc3\"/>", "<svg>\x00</svg>", "<svg><![CDATA[</svg>", "<svg><!-- </svg>", "<>", "< svg/>", "<svg><g></g>", "<?xml version=\"1.0\" encoding=\"iso-8859-1\"?><svg/>", "<?xml version=\"2.0\"?><svg/>", "\x89PNG\r\n", "{\"a\":1}", "<svg></g></svg>", "<svg><1/></svg>", "&lt;svg/&gt;"}

func genBad(t *rapid.T) badCase {
	c := badCase{Map: rapid.Bool().Draw(t, "map")}
	c.Topo = rapid.OneOf(rapid.SampledFrom([]string{"", "{}", "null", "[]", "{", `{"HWc":[{"id":1,"type":3}]}`, `{"HWc":"x","typeIndex":5}`, `{"HWc":[{"id":-1,"type":"x"},{"id":2,"type":1}],"typeIndex":{"1":{"w":10,"h":5},"x":{}}}`, `{"HWc":[null,{"id":1,"type":1,"typeOverride":{"sub":[null]}}],"typeIndex":null}`}),
		rapid.Custom(func(t *rapid.T) string { return ownJSON(genTopo(t, false, 3)) })).Draw(t, "topo")
	if rapid.IntRange(0, 3).Draw(t, "fixed") == 0 {
		c.Base = rapid.SampledFrom(badBases).Draw(t, "bad")
		c.Bad = true
		return c
	}
	b := []byte(genBase(t))
	for n := rapid.IntRange(1, 3).Draw(t, "mutations"); n > 0 && len(b) > 0; n-- {
		i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		switch rapid.IntRange(0, 4).Draw(t, "mut") {
		case 0:
			b = b[:i]
		case 1:
			b = append(b[:i:i], b[i+1:]...)
		case 2:
			b = append(b[:i:i], append([]byte{rapid.SampledFrom([]byte("<>/\"'&;= a\x00\xff")).Draw(t, "ins")}, b[i:]...)...)
		case 3:
			j := rapid.IntRange(i, len(b)).Draw(t, "to")
			b = append(b[:i:i], b[j:]...)
		case 4:
			b[i] = rapid.SampledFrom([]byte("<>/\"'&;= a\x00\xff")).Draw(t, "set")
		}
	}
	c.Base = string(b)
	return c
}

// ---- base documents whose content the library's XML tree cannot carry

type fidelityCase struct{ Name, Base string }

var fidelity = []fidelityCase{
	{"prefixed attribute", `<svg xmlns:xlink="http://www.w3.org/1999/xlink"><use xlink:href="#a"/></svg>`},
	{"prefixed element", `<svg xmlns:s="http://example.org/s"><s:view a="1"/></svg>`},
	{"two attributes with one local name", `<svg xmlns:i="http://example.org/i"><g id="a" i:id="b"/></svg>`},
	{"text before a child element", `<svg><text>a<tspan>b</tspan></text></svg>`},
	{"text around a child element", `<svg><text>a<tspan>b</tspan>c</text></svg>`},
	{"text with a comment inside", `<svg><text>a<!-- x -->b</text></svg>`},
	{"CDATA with white space around", "<svg><style>\n<![CDATA[.a{fill:red}]]>\n</style></svg>"},
	{"processing instruction inside the root", `<?xml version="1.0" encoding="UTF-8"?><svg><?app data?></svg>`},
	{"style sheet processing instruction", `<?xml version="1.0" encoding="UTF-8"?><?xml-stylesheet href="a.css"?><svg/>`},
	// these are carried
	{"plain", `<svg><g><title>t</title></g></svg>`},
	{"CDATA alone", "<svg><style><![CDATA[.a{fill:red}]]></style></svg>"},
	{"deeply nested", strings.Repeat("<g a=\"1\">", 60) + "<x>t</x>" + strings.Repeat("</g>", 60)},
}

// A case is the name alone, so that shrinking cannot change the document.
type fidelityName struct{ Name string }

func checkFidelity(n fidelityName, info *core.Info) error {
	var c fidelityCase
	for _, f := range fidelity {
		if f.Name == n.Name {
			c = f
		}
	}
	if c.Name == "" {
		return nil
	}
	info.NonTrivial(true)
	out := tp.GenerateCompositeSVG(`{"HWc":[{"id":1,"x":5,"y":6,"txt":"L","type":1}],"typeIndex":{"1":{"w":10,"h":8}}}`, c.Base, nil)
	sc := svgCase{T: &Topo{HWc: []Comp{{Id: 1, X: 5, Y: 6, Txt: "L", Type: 1}}, Index: []TypeEntry{{1, Def{W: 10, H: 8}}}}}
	want, _ := sc.expect([]bool{true, true, false, false})
	if err := checkDoc(out, c.Base, want); err != nil {
		return fmt.Errorf("base SVG with %s: %v; output %s", c.Name, err, out)
	}
	return nil
}

func TestC15(t *testing.T) {
	r := core.Start(t, "C15")
	defer r.Finish()
	core.Explore(r, "svg", core.Size{Quick: 48000, Thorough: 600000}, genSVG, checkSVG)
	core.Explore(r, "large", core.Size{Quick: 240, Thorough: 4000}, genLargeSVG, checkLargeSVG)
	core.Explore(r, "bad", core.Size{Quick: 80000, Thorough: 600000}, genBad, checkBad)
	for _, f := range fidelity { // one by one: a finding must not hide the rest
		core.Enumerate(r, "fidelity", func(yield func(fidelityName) bool) { yield(fidelityName{f.Name}) }, checkFidelity)
	}
	core.Enumerate(r, "fixed", func(yield func(badCase) bool) {
		for _, b := range badBases {
			for _, m := range []bool{false, true} {
				if !yield(badCase{b, true, `{"HWc":[{"id":1,"type":1}],"typeIndex":{"1":{"w":3}}}`, m}) {
					return
				}
			}
		}
	}, checkBad)
}
