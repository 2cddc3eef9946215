package topo

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"

	tp "github.com/SKAARHOJ/rawpanel-lib/topology"
	"pgregory.net/rapid"
	"rwpverif/core"
)

type trCase struct {
	T *Topo
	// operations applied in turn: json, seq, random, clean, unused
	Ops []string
}

func parse(s string) (*tp.Topology, error) {
	l := &tp.Topology{}
	return l, json.Unmarshal([]byte(s), l)
}

// roundTrip checks serialisation of the current state.
func roundTrip(l *tp.Topology) error {
	want := js(fromLib(l))
	s1 := l.ToJSON()
	if s2 := l.JSONstring(); s2 != s1 {
		return fmt.Errorf("the serialisers disagree: %s / %s", s1, s2)
	}
	if got := js(fromLib(l)); got != want {
		return fmt.Errorf("serialising changed the topology: %s was %s", got, want)
	}
	p, err := parse(s1)
	if err != nil {
		return fmt.Errorf("the JSON does not parse: %v: %s", err, s1)
	}
	if got := js(fromLib(p)); got != want {
		return fmt.Errorf("after a round trip: %s, was %s (JSON %s)", got, want, s1)
	}
	if s2 := p.ToJSON(); s2 != s1 {
		return fmt.Errorf("serialisation is no fixpoint: %s then %s", s1, s2)
	}
	// indented and parsed again it is the same as well
	var buf bytes.Buffer
	if json.Indent(&buf, []byte(s1), "", " ") == nil {
		p2, err := parse(buf.String())
		if err != nil || js(fromLib(p2)) != want {
			return fmt.Errorf("the indented JSON gives another topology (%v)", err)
		}
	}
	return nil
}

func resolveAll(t *Topo) (out []string) {
	for i := range t.HWc {
		out = append(out, js(t.resolve(&t.HWc[i])))
	}
	return
}

func checkTr(c trCase, info *core.Info) error {
	l := c.T.lib()
	if err := roundTrip(l); err != nil {
		return err
	}
	info.NonTrivial(len(c.T.HWc) > 0 && len(c.Ops) > 0)
	for n, op := range c.Ops {
		before := fromLib(l)
		info.Label("op: " + op)
		switch op {
		case "edit": // the same object with other content
			if n%2 == 0 && len(l.HWc) > 0 {
				for i := range l.HWc {
					l.HWc[i].X++
					if o := l.HWc[i].TypeOverride; o != nil {
						o.W, o.Desc = o.W+1, "edited"
					}
				}
				for k, d := range l.TypeIndex {
					d.H++
					l.TypeIndex[k] = d
				}
			} else {
				c.T.into(l)
			}
		case "json":
			p, err := parse(l.ToJSON())
			if err != nil {
				return err
			}
			l = p
		case "seq", "random":
			l.RandomizeTypes(op == "seq")
			after := fromLib(l)
			if err := renumbered(before, after, op == "seq"); err != nil {
				return fmt.Errorf("step %d (%s): %v", n, op, err)
			}
		case "clean":
			l.CleanSections()
			after := fromLib(l)
			want := *before
			want.HWc = nil
			removed := 0
			for _, h := range before.HWc {
				if h.Type != 250 {
					want.HWc = append(want.HWc, h)
				} else {
					removed++
				}
			}
			if js(after) != js(&want) {
				return fmt.Errorf("step %d: CleanSections gives %s, want %s", n, js(after), js(&want))
			}
			info.LabelIf(removed > 1, "several section markers removed")
			info.LabelIf(removed == len(before.HWc) && removed > 0, "all components were markers")
		}
		if err := roundTrip(l); err != nil {
			return fmt.Errorf("step %d (%s): %v", n, op, err)
		}
	}
	return nil
}

func renumbered(before, after *Topo, seq bool) error {
	if len(after.Index) != len(before.Index) {
		return fmt.Errorf("%d types became %d", len(before.Index), len(after.Index))
	}
	if seq {
		for i, e := range after.Index {
			if e.Key != uint32(i+1) {
				return fmt.Errorf("type id %d at place %d of sequential numbering", e.Key, i)
			}
		}
	}
	if len(after.HWc) != len(before.HWc) || after.Title != before.Title {
		return fmt.Errorf("the component list changed: %s was %s", js(after), js(before))
	}
	for i := range before.HWc {
		a, b := after.HWc[i], before.HWc[i]
		if a.Type == 0 != (b.Type == 0) {
			return fmt.Errorf("component %d: type %d became %d, 0 means disabled", i, b.Type, a.Type)
		}
		if ra, rb := js(after.resolve(&a)), js(before.resolve(&b)); ra != rb {
			return fmt.Errorf("component %d resolves to %s, was %s", i, ra, rb)
		}
		a.Type, b.Type = 0, 0
		if js(a) != js(b) {
			return fmt.Errorf("component %d changed: %s was %s", i, js(a), js(b))
		}
	}
	// components of one type stay together, of different types apart
	m := map[uint32]uint32{}
	for i := range before.HWc {
		if n, ok := m[before.HWc[i].Type]; ok && n != after.HWc[i].Type {
			return fmt.Errorf("type %d was split into %d and %d", before.HWc[i].Type, n, after.HWc[i].Type)
		}
		m[before.HWc[i].Type] = after.HWc[i].Type
	}
	rev := map[uint32]uint32{}
	for o, n := range m {
		if p, ok := rev[n]; ok && p != o {
			return fmt.Errorf("types %d and %d both became %d", o, p, n)
		}
		rev[n] = o
	}
	// the set of definitions is the same
	count := map[string]int{}
	for _, e := range before.Index {
		count[js(e.Def)]++
	}
	for _, e := range after.Index {
		count[js(e.Def)]--
	}
	for d, n := range count {
		if n != 0 {
			return fmt.Errorf("the definition %s occurs %d times less", d, n)
		}
	}
	return nil
}

func genTr(t *rapid.T) trCase {
	c := trCase{T: genTopo(t, true, 9)}
	// section markers anywhere
	if rapid.IntRange(0, 2).Draw(t, "markers?") == 0 {
		if _, ok := c.T.base(250); !ok && rapid.Bool().Draw(t, "inIndex") {
			c.T.Index = append(c.T.Index, TypeEntry{250, Def{Desc: "Section"}})
			c.T.normal()
		}
		if _, ok := c.T.base(250); ok {
			for i := range c.T.HWc {
				if rapid.Bool().Draw(t, "marker") {
					c.T.HWc[i].Type = 250
				}
			}
		}
	}
	c.Ops = rapid.SliceOfN(rapid.SampledFrom([]string{"json", "seq", "seq", "random", "random", "clean", "clean", "edit"}), 1, 6).Draw(t, "ops")
	return c
}

type manyCase struct {
	Types int
	Times int
	Seq   bool
}

// checkMany renumbers a large index again and again: the random ids collide
// and hit every value of their range sooner or later.
func checkMany(c manyCase, info *core.Info) error {
	info.NonTrivial(true)
	t := &Topo{HWc: []Comp{{Id: 1, Type: 0, Txt: "disabled"}}}
	for i := 0; i < c.Types; i++ {
		t.Index = append(t.Index, TypeEntry{uint32(i + 1), Def{W: i + 1}})
		t.HWc = append(t.HWc, Comp{Id: uint32(i + 2), Type: uint32(i + 1)})
	}
	l := t.lib()
	for n := 0; n < c.Times; n++ {
		l.RandomizeTypes(c.Seq)
		if len(l.TypeIndex) != c.Types {
			return fmt.Errorf("round %d: %d types became %d", n, c.Types, len(l.TypeIndex))
		}
		for i := range l.HWc {
			d := l.GetTypeDefWithOverride(&l.HWc[i])
			if d.W != i {
				return fmt.Errorf("round %d: component %d of type %d resolves to the definition of type %d (its type id is now %d)", n, i, i, d.W, l.HWc[i].Type)
			}
			if i > 0 && l.HWc[i].Type == 0 {
				return fmt.Errorf("round %d: component %d got type 0, which means disabled", n, i)
			}
		}
	}
	return nil
}

func TestC14(t *testing.T) {
	r := core.Start(t, "C14")
	defer r.Finish()
	core.Explore(r, "transform", core.Size{Quick: 24000, Thorough: 1000000}, genTr, checkTr)
	core.Explore(r, "large", core.Size{Quick: 160, Thorough: 4000}, genLargeTr, checkLargeTr)
	// every pattern of markers among up to ten components
	core.Enumerate(r, "markers", func(yield func(trCase) bool) {
		for n := 0; n <= 10; n++ {
			for mask := 0; mask < 1<<n; mask++ {
				tt := &Topo{Index: []TypeEntry{{1, Def{W: 1}}, {250, Def{Desc: "s"}}}}
				for i := 0; i < n; i++ {
					c := Comp{Id: uint32(i + 1), Type: 1}
					if mask>>i&1 != 0 {
						c.Type = 250
					}
					tt.HWc = append(tt.HWc, c)
				}
				if !yield(trCase{tt, []string{"clean", "clean"}}) {
					return
				}
			}
		}
	}, checkTr)
	times := 150
	if r.Thorough {
		times = 5000
	}
	var many []manyCase
	for i := 0; i < 6; i++ {
		many = append(many, manyCase{5000, times, false})
	}
	many = append(many, manyCase{1, 5, true}, manyCase{2, 50, true}, manyCase{40, 50, true}, manyCase{3000, 3, true}, manyCase{20000, 2, false}, manyCase{3, 3000, false})
	core.Enumerate(r, "many", func(yield func(manyCase) bool) {
		for _, m := range many {
			if !yield(m) {
				return
			}
		}
	}, checkMany)
}
