package topo

import (
	"pgregory.net/rapid"
	"rwpverif/core"
)

// Large panels: hundreds of components and types, made of copies of a small
// topology, so that a failure shrinks.

type largeCase struct {
	Look *lookCase
	Tr   *trCase
	SVG  *svgCase
	K    int
}

func genTimes(t *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(10, 150), rapid.SampledFrom([]int{16, 32, 64, 128, 256, 300})).Draw(t, "times")
}

// grow has every component and type k times, with other ids.
func (t *Topo) grow(k int) *Topo {
	out := &Topo{Title: t.Title}
	shift := func(v uint32, r, step int) uint32 {
		if v == 0 || v == 250 {
			return v
		}
		return v + uint32(r*step)
	}
	for r := 0; r < k; r++ {
		for _, e := range t.Index {
			if r == 0 || e.Key != 250 {
				e.Key = shift(e.Key, r, 7919)
				if e.Key != 0 {
					out.Index = append(out.Index, e)
				}
			}
		}
	}
	out.normal()
	known := map[uint32]bool{}
	for _, e := range out.Index {
		known[e.Key] = true
	}
	for r := 0; r < k; r++ {
		for _, h := range t.HWc {
			h.Id += uint32(r * 10007)
			h.X += r
			if key := shift(h.Type, r, 7919); known[key] || !known[h.Type] {
				h.Type = key
			}
			out.HWc = append(out.HWc, h)
		}
	}
	return out
}

func (c *largeCase) label(info *core.Info, t *Topo) {
	info.LabelIf(len(t.HWc) > 255, "more than 255 components")
	info.LabelIf(len(t.HWc) > 1023, "more than 1023 components")
	info.LabelIf(len(t.Index) > 255, "more than 255 types")
}

func genLargeLook(t *rapid.T) largeCase {
	c := genLook(t)
	return largeCase{Look: &c, K: min(genTimes(t), 1+1300/(1+len(c.T.HWc)))}
}

func checkLargeLook(c largeCase, info *core.Info) error {
	l := *c.Look
	l.T = l.T.grow(c.K)
	if l.Edit != nil {
		l.Edit = l.Edit.grow(min(c.K, 1+1300/(1+len(l.Edit.HWc))))
	}
	c.label(info, l.T)
	return checkLook(l, info)
}

func genLargeTr(t *rapid.T) largeCase {
	c := genTr(t)
	return largeCase{Tr: &c, K: genTimes(t)}
}

func checkLargeTr(c largeCase, info *core.Info) error {
	l := *c.Tr
	l.T = l.T.grow(c.K)
	c.label(info, l.T)
	return checkTr(l, info)
}

func genLargeSVG(t *rapid.T) largeCase {
	c := genSVG(t)
	return largeCase{SVG: &c, K: genTimes(t)}
}

func checkLargeSVG(c largeCase, info *core.Info) error {
	l := *c.SVG
	l.T = l.T.grow(c.K)
	l.Map = nil
	seen := map[uint32]bool{}
	for r := 0; r < c.K; r++ {
		for _, e := range c.SVG.Map {
			if e.Id += uint32(r * 10007); !seen[e.Id] {
				seen[e.Id] = true
				l.Map = append(l.Map, e)
			}
		}
	}
	c.label(info, l.T)
	return checkSVG(l, info)
}
