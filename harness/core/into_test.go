package core

import (
	"testing"

	rwp "github.com/SKAARHOJ/rawpanel-lib/ibeam_rawpanel"
	"google.golang.org/protobuf/proto"
)

func TestInto(t *testing.T) {
	a := &rwp.HWCState{HWCIDs: []uint32{1, 2, 3}, HWCText: &rwp.HWCText{Title: "a", TextStyling: &rwp.HWCText_TextStyle{FixedWidth: true}}, HWCGfx: &rwp.HWCGfx{ImageData: []byte{1, 2, 3}}}
	b := &rwp.HWCState{HWCIDs: []uint32{4}, HWCText: &rwp.HWCText{Textline1: "b", TextStyling: &rwp.HWCText_TextStyle{}}, HWCGfx: &rwp.HWCGfx{ImageData: []byte{9, 8}}, HWCMode: &rwp.HWCMode{State: 4}}
	for _, p := range [][2]*rwp.HWCState{{a, b}, {b, a}, {a, a}} {
		d := proto.Clone(p[0]).(*rwp.HWCState)
		txt, img := d.HWCText, &d.HWCGfx.ImageData[0]
		Into(d, p[1])
		if !proto.Equal(d, p[1]) {
			t.Errorf("%v, want %v", d, p[1])
		}
		if d.HWCText != txt || len(d.HWCGfx.ImageData) < 3 && &d.HWCGfx.ImageData[0] != img {
			t.Errorf("not in place")
		}
	}
}
