package topo

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	tp "github.com/SKAARHOJ/rawpanel-lib/topology"
	"pgregory.net/rapid"
	"rwpverif/core"
)

type lookCase struct {
	T    *Topo
	Ids  []uint32 // further ids to look up
	Edit *Topo    `json:",omitempty"` // what the topology becomes afterwards
	Key  []int    // further positions
}

// predicates checks the derived answers of a definition against the reference,
// twice on the same object and once on a copy of its own.
func predicates(l *tp.TopologyHWcTypeDef, d Def) error {
	for range 2 {
		if err := predicates1(l, d); err != nil {
			return err
		}
	}
	var own tp.TopologyHWcTypeDef
	d.fill(&own)
	return predicates1(&own, d)
}

func predicates1(l *tp.TopologyHWcTypeDef, d Def) error {
	in := firstToken(d.In)
	is := func(l ...string) bool {
		for _, x := range l {
			if in == x {
				return true
			}
		}
		return false
	}
	button := is("b", "b4", "b2h", "b2v", "pb")
	steps := 0
	if d.Ext == "steps" && len(d.Sub) > 0 {
		lo, hi := d.Sub[0].Idx, d.Sub[0].Idx
		for _, s := range d.Sub {
			lo, hi = min(lo, s.Idx), max(hi, s.Idx)
		}
		steps = hi - lo + 1
	}
	bar := 0
	if strings.Contains(d.Ext, "steps") {
		bar = len(d.Sub)
	}
	type chk struct {
		name      string
		got, want any
	}
	list := []chk{
		{"GetInputType", l.GetInputType(), in},
		{"IsButton", l.IsButton(), button},
		{"IsBinary", l.IsBinary(), button || in == "gpi"},
		{"IsPulsed", l.IsPulsed(), is("pb", "p")},
		{"IsAbsolute", l.IsAbsolute(), is("av", "ah", "ar", "a")},
		{"IsIntensity", l.IsIntensity(), is("iv", "ih", "ir", "i")},
		{"HasDisplay", l.HasDisplay(), d.Disp != nil},
		{"DisplayInfo", js(fromDisp(l.DisplayInfo())), js(d.Disp)},
		{"IsMotorized", l.IsMotorized(), d.Ext == "pos"},
		{"LedBarSteps", l.LedBarSteps(), bar},
	}
	if d.Ext != "steps" || len(d.Sub) > 0 {
		list = append(list, chk{"HasSteps", l.HasSteps(), steps})
	}
	// the documented LED kinds: only the clear cases
	led := func(s string) bool { return s == "rgb" || s == "rg" || s == "rb" || s == "mono" }
	if d.Out == "rgb" {
		list = append(list, chk{"HasLED", l.HasLED(), true})
	} else if !led(d.Out) && !led(d.In) {
		list = append(list, chk{"HasLED", l.HasLED(), false})
	}
	for _, c := range list {
		if c.got != c.want {
			return fmt.Errorf("%s is %v, not %v, for %s", c.name, c.got, c.want, js(d))
		}
	}
	return nil
}

// shared reduces a definition to what both resolvers overlay.
func shared(d Def) Def {
	d.Desc, d.Render = "", ""
	return d
}

func checkLook(c lookCase, info *core.Info) error {
	return core.WithTimeout(func() error { return checkLook1(c, info) })
}

func checkLook1(c lookCase, info *core.Info) error {
	l := c.T.lib()
	if err := lookOn(l, c, info); err != nil {
		return err
	}
	if c.Edit != nil { // the same object with other content
		info.Label("topology edited between look-ups")
		c.Edit.into(l)
		c.T = c.Edit
		if err := lookOn(l, c, info); err != nil {
			return fmt.Errorf("after the topology was edited: %v", err)
		}
	}
	return nil
}

func lookOn(l *tp.Topology, c lookCase, info *core.Info) error {
	before := js(fromLib(l))
	if before != js(c.T) {
		return core.Invalid("%s / %s", before, js(c.T))
	}
	jsonBefore := l.ToJSON()
	overs := 0
	dup := map[uint32]bool{}
	for i := range c.T.HWc {
		if c.T.HWc[i].Over != nil {
			overs++
		}
		info.LabelIf(dup[c.T.HWc[i].Id], "duplicate id")
		dup[c.T.HWc[i].Id] = true
		if _, ok := c.T.base(c.T.HWc[i].Type); !ok && c.T.HWc[i].Type != 0 {
			info.Label("type missing from the index")
		}
	}
	info.NonTrivial(overs > 0)
	info.LabelIf(overs > 0, "with overrides")
	info.LabelIf(len(c.T.HWc) == 0, "no components")

	for round := 0; round < 2; round++ {
		// lists
		var ids, disp []uint32
		for i := range c.T.HWc {
			ids = append(ids, c.T.HWc[i].Id)
			if c.T.resolve(&c.T.HWc[i]).Disp != nil {
				disp = append(disp, c.T.HWc[i].Id)
			}
		}
		if got := l.GetHWCs(); fmt.Sprint(got) != fmt.Sprint(ids) {
			return fmt.Errorf("GetHWCs gives %v, not %v", got, ids)
		}
		if got := l.GetHWCsWithDisplay(); fmt.Sprint(got) != fmt.Sprint(disp) {
			return fmt.Errorf("GetHWCsWithDisplay gives %v, not %v", got, disp)
		}
		// by position
		for i := range c.T.HWc {
			want := c.T.resolve(&c.T.HWc[i])
			got := l.GetTypeDefWithOverride(&l.HWc[i])
			if err := sameDef(fromDef(&got), want, fmt.Sprintf("GetTypeDefWithOverride of component %d", i)); err != nil {
				return err
			}
			if err := predicates(&got, want); err != nil {
				return err
			}
			if err := sameDef(fromDef(&got), want, "after the predicates"); err != nil {
				return err
			}
			second := l.GetHWCTypeDefinition(i)
			if second == nil {
				return fmt.Errorf("GetHWCTypeDefinition(%d) is nil", i)
			}
			if _, ok := c.T.base(c.T.HWc[i].Type); ok {
				if err := sameDef(ptr(shared(*fromDef(second))), shared(want), fmt.Sprintf("GetHWCTypeDefinition(%d)", i)); err != nil {
					return err
				}
				if err := predicates(second, *fromDef(second)); err != nil {
					return err
				}
			}
			// what was handed out is the caller's
			scribble(&got)
			scribble(second)
		}
		for _, k := range c.Key {
			if k >= len(c.T.HWc) {
				if d := l.GetHWCTypeDefinition(k); d == nil || js(fromDef(d)) != js(&Def{}) {
					return fmt.Errorf("GetHWCTypeDefinition(%d) of %d components is not the empty definition", k, len(c.T.HWc))
				}
			}
		}
		// by id
		for _, id := range append(append([]uint32{}, ids...), c.Ids...) {
			var comp *Comp
			for i := range c.T.HWc {
				if c.T.HWc[i].Id == id {
					comp = &c.T.HWc[i]
					break
				}
			}
			x, y := l.GetHWCxy(id)
			txt := l.GetHWCtext(id)
			def, err := l.GetHWCtype(id)
			cd := l.GetHWCDefinitionFromHWCid(int(id))
			td := l.GetHWCTypeDefinitionFromHWCid(int(id))
			if cd == nil || td == nil {
				return fmt.Errorf("a look-up of id %d gives nil", id)
			}
			if comp == nil {
				info.Label("unknown id looked up")
				if x != -1 || y != -1 || txt != "" || def != nil || err == nil {
					return fmt.Errorf("unknown id %d: %d,%d %q %v %v", id, x, y, txt, def, err)
				}
				if js(fromDef(td)) != js(&Def{}) || cd.Id != 0 || cd.X != 0 || cd.Y != 0 || cd.Txt != "" || cd.Type != 0 || cd.TypeOverride != nil {
					return fmt.Errorf("unknown id %d: the definitions are not empty", id)
				}
				continue
			}
			if x != comp.X || y != comp.Y || txt != comp.Txt {
				return fmt.Errorf("id %d: %d,%d %q instead of %d,%d %q", id, x, y, txt, comp.X, comp.Y, comp.Txt)
			}
			if err != nil {
				return fmt.Errorf("GetHWCtype(%d): %v", id, err)
			}
			want := c.T.resolve(comp)
			if err := sameDef(fromDef(def), want, fmt.Sprintf("GetHWCtype(%d)", id)); err != nil {
				return err
			}
			if err := predicates(def, want); err != nil {
				return err
			}
			if got := (Comp{cd.Id, cd.X, cd.Y, cd.Txt, cd.Type, fromDef(cd.TypeOverride), cd.UIparent, cd.UIyang}); js(got) != js(*comp) {
				return fmt.Errorf("GetHWCDefinitionFromHWCid(%d): %s, not %s", id, js(got), js(*comp))
			}
			if _, ok := c.T.base(comp.Type); ok {
				if err := sameDef(ptr(shared(*fromDef(td))), shared(want), fmt.Sprintf("GetHWCTypeDefinitionFromHWCid(%d)", id)); err != nil {
					return err
				}
			}
			scribble(def)
			scribble(td)
		}
		if after := js(fromLib(l)); after != before {
			return fmt.Errorf("a look-up changed the topology: %s was %s", after, before)
		}
		if after := l.ToJSON(); after != jsonBefore {
			return fmt.Errorf("a look-up changed the serialised form: %s was %s", after, jsonBefore)
		}
		if after := l.JSONstring(); after != jsonBefore {
			return fmt.Errorf("the two serialisers disagree: %s, %s", after, jsonBefore)
		}
	}
	return nil
}

// scribble changes the attributes of a resolved definition that are no
// references.
func scribble(d *tp.TopologyHWcTypeDef) {
	d.W, d.H, d.Out, d.In, d.Ext, d.Desc, d.Rotate = d.W+1000, 0, "rgb", "gpi", "steps", "scribbled", d.Rotate+1
}

func ptr[T any](v T) *T { return &v }

func genLook(t *rapid.T) lookCase {
	c := lookCase{T: genTopo(t, false, 7)}
	c.Ids = rapid.SliceOfN(rapid.OneOf(genKey(), rapid.Uint32Range(0, 12), rapid.SampledFrom([]uint32{999, 1 << 31, 1<<32 - 1})), 1, 4).Draw(t, "ids")
	c.Key = rapid.SliceOfN(rapid.IntRange(0, 20), 0, 2).Draw(t, "keys")
	switch rapid.IntRange(0, 3).Draw(t, "edit") {
	case 0:
		c.Edit = genTopo(t, false, 7)
	case 1: // the same components, some of their attributes changed
		e := *c.T
		e.HWc = append([]Comp(nil), c.T.HWc...)
		e.Index = append([]TypeEntry(nil), c.T.Index...)
		for i := range e.HWc {
			switch rapid.IntRange(0, 3).Draw(t, "change") {
			case 0:
				d := genDef(t, true)
				e.HWc[i].Over = &d
			case 1:
				e.HWc[i].Over = nil
				e.HWc[i].X++
			}
		}
		for i := range e.Index {
			if rapid.Bool().Draw(t, "type") {
				e.Index[i].Def = genDef(t, true)
			}
		}
		c.Edit = &e
	}
	return c
}

// checkShared runs all look-ups from several goroutines.
func checkShared(c lookCase, info *core.Info) error {
	info.NonTrivial(len(c.T.HWc) > 0)
	return core.WithTimeout(func() error {
		l := c.T.lib()
		var wg sync.WaitGroup
		errs := make([]error, 4)
		for w := range errs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[w] = core.Protect(func() error {
					for i := range c.T.HWc {
						id := c.T.HWc[i].Id
						x, y := l.GetHWCxy(id)
						_, _ = x, y
						l.GetHWCtext(id)
						l.GetHWCs()
						l.GetHWCsWithDisplay()
						d, err := l.GetHWCtype(id)
						if err != nil {
							return err
						}
						for k := range c.T.HWc {
							if c.T.HWc[k].Id == id {
								if err := sameDef(fromDef(d), c.T.resolve(&c.T.HWc[k]), "GetHWCtype"); err != nil {
									return err
								}
								break
							}
						}
					}
					return nil
				})
			}()
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
		return nil
	})
}

func TestC13(t *testing.T) {
	r := core.Start(t, "C13")
	defer r.Finish()
	// every subset of override attributes over a full and an empty base type
	full := Def{W: 10, H: 20, Out: "rgb", In: "b4", Desc: "d", Ext: "pos", Render: "txt", Subidx: 1, Rotate: 5, Disp: &Disp{W: 64, H: 32}, Sub: []Sub{{Kind: "r", X: 1}}}
	over := Def{W: 11, H: 21, Out: "mono", In: "av", Desc: "e", Ext: "steps", Render: "hwcid", Subidx: 2, Rotate: 6, Disp: &Disp{W: 65, H: 33}, Sub: []Sub{{Kind: "c", X: 2, Idx: 1}, {Kind: "c", X: 2, Idx: 4}}}
	core.Enumerate(r, "subsets", func(yield func(lookCase) bool) {
		for _, base := range []*Def{nil, {}, &full} {
			for mask := 0; mask < 1<<11; mask++ {
				o := over
				drop := func(b int) bool { return mask>>b&1 == 0 }
				if drop(0) {
					o.W = 0
				}
				if drop(1) {
					o.H = 0
				}
				if drop(2) {
					o.Out = ""
				}
				if drop(3) {
					o.In = ""
				}
				if drop(4) {
					o.Desc = ""
				}
				if drop(5) {
					o.Ext = ""
				}
				if drop(6) {
					o.Render = ""
				}
				if drop(7) {
					o.Subidx = 0
				}
				if drop(8) {
					o.Rotate = 0
				}
				if drop(9) {
					o.Disp = nil
				}
				if drop(10) {
					o.Sub = nil
				}
				tt := &Topo{HWc: []Comp{{Id: 5, Type: 3}, {Id: 9, Type: 3, Over: &o}, {Id: 4, Type: 3}}}
				if base != nil {
					tt.Index = []TypeEntry{{3, *base}}
				}
				if !yield(lookCase{T: tt, Ids: []uint32{9, 1}, Key: []int{3}}) {
					return
				}
			}
		}
	}, checkLook)
	// every input kind, alone and in lists
	core.Enumerate(r, "inputs", func(yield func(lookCase) bool) {
		for _, a := range inKinds {
			for _, b := range append([]string{"-"}, inKinds...) {
				in := a + "," + b
				if b == "-" {
					in = a
				}
				for _, o := range []*Def{nil, {In: in}} {
					base := Def{In: in, Out: "rgb"}
					if o != nil {
						base.In = "p"
					}
					if !yield(lookCase{T: &Topo{HWc: []Comp{{Id: 1, Type: 3, Over: o}}, Index: []TypeEntry{{3, base}}}}) {
						return
					}
				}
			}
		}
	}, checkLook)
	core.Explore(r, "look", core.Size{Quick: 24000, Thorough: 1200000}, genLook, checkLook)
	core.Explore(r, "large", core.Size{Quick: 160, Thorough: 4000}, genLargeLook, checkLargeLook)
	core.Explore(r, "shared", core.Size{Quick: 1500, Thorough: 60000}, genLook, checkShared)
}
