package conv

import (
	"fmt"
	"strings"
	"testing"

	rapi "github.com/SKAARHOJ/rawpanel-lib"
	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"rwpverif/core"
)

type c04Case struct {
	Lines []Line
}

var emptyOut = &rwp.OutboundMessage{}

func checkC04(c c04Case, info *core.Info) error {
	var want []Eff
	lines := strs(c.Lines)
	bad := 0
	for i, l := range c.Lines {
		if l.Bad {
			bad++
			continue
		}
		e, ok, err := exact.readOut(lines[i])
		if err != nil || !ok {
			return core.Invalid("line %q is not readable: %v %v", lines[i], ok, err)
		}
		want = append(want, e...)
		for _, x := range e {
			k := x.Kind
			if k == "info" {
				k = x.Target
			}
			info.Label("report:" + k)
		}
		info.LabelIf(strings.HasSuffix(lines[i], "=Press"), "press line")
	}
	info.LabelIf(bad > 0, "non-grammar line")
	info.NonTrivial(len(want) > 0 || bad > 0)
	ms := rapi.RawPanelASCIIstringsToOutboundMessages(lines)
	var got []Eff
	for _, m := range ms {
		if m == nil {
			return fmt.Errorf("nil message")
		}
		got = append(got, exact.outboundEffects(m)...)
	}
	if err := diffEffs(got, want); err != nil {
		return fmt.Errorf("%q: %v", clip(strings.Join(lines, "\n")), err)
	}
	for i, l := range c.Lines {
		one := rapi.RawPanelASCIIstringsToOutboundMessages([]string{lines[i]})
		if l.Bad {
			for _, m := range one {
				if !proto.Equal(m, emptyOut) {
					return fmt.Errorf("line %q outside the grammar gives %v", lines[i], m)
				}
			}
		}
	}
	return nil
}

func TestC04(t *testing.T) {
	r := core.Start(t, "C04")
	defer r.Finish()
	core.Enumerate(r, "events", func(yield func(c04Case) bool) {
		for _, id := range []string{"0", "1", "9", "10", "007", "255", "65536", "2147483648", "4294967295"} {
			var ls []Line
			add := func(s string) { ls = append(ls, Line{L: []byte("HWC#" + id + s)}) }
			for _, e := range []string{"", ".0", ".1", ".2", ".4", ".8", ".16"} {
				for _, k := range []string{"Down", "Up", "Press"} {
					add(e + "=" + k)
				}
			}
			for _, v := range []string{"0", "1", "9", "10", "500", "1000", "65535", "2147483647"} {
				for _, k := range []string{"Enc", "Speed", "Abs", "Raw"} {
					add("=" + k + ":" + v)
				}
				add("=Enc:-" + v)
				add("=Speed:-" + v)
			}
			add("=Enc:-2147483648")
			add("=Speed:-2147483648")
			for _, v := range []string{"2147483648", "4294967295"} {
				add("=Abs:" + v)
				add("=Raw:" + v)
			}
			if !yield(c04Case{ls}) {
				return
			}
		}
	}, checkC04)
	core.Enumerate(r, "non-grammar", func(yield func(c04Case) bool) {
		for _, b := range badOutLines {
			if !yield(c04Case{[]Line{{L: []byte(b), Bad: true}}}) {
				return
			}
		}
	}, checkC04)
	core.Enumerate(r, "capabilities", func(yield func(c04Case) bool) {
		for v := 1; v < 8192; v++ {
			var w []string
			for i, f := range supportFlags {
				if v>>i&1 == 1 {
					w = append(w, f.word)
				}
			}
			if v%2 == 0 { // another order
				for i, j := 0, len(w)-1; i < j; i, j = i+1, j-1 {
					w[i], w[j] = w[j], w[i]
				}
			}
			if !yield(c04Case{[]Line{{L: []byte("_support=" + strings.Join(w, ","))}}}) {
				return
			}
		}
	}, checkC04)
	core.Explore(r, "lines", core.Size{Quick: 60000, Thorough: 2500000}, func(t *rapid.T) c04Case {
		var ls []Line
		n := rapid.IntRange(1, 6).Draw(t, "nl")
		if b32(t, 29, "many") == 0 {
			n = 30
		}
		for i := 0; i < n; i++ {
			ls = append(ls, genOutLine(t, true))
		}
		return c04Case{ls}
	}, checkC04)
	core.Explore(r, "large", core.Size{Quick: 150, Thorough: 6000}, genBigOutLines, checkC04)
}
