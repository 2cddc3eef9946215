// Server side of the C-binding checks: laid over /repo/rawpanel-lib-c as a
// test file, it answers requests on file descriptors 3 (in) and 4 (out) with
// the results of the exported functions.
package main

import (
	"bufio"
	"encoding/binary"
	"io"
	"os"
	"testing"
	"unsafe"
)

func TestVerifServer(t *testing.T) {
	in, out := bufio.NewReader(os.NewFile(3, "in")), bufio.NewWriter(os.NewFile(4, "out"))
	read := func() ([]byte, bool) {
		var h [4]byte
		if _, err := io.ReadFull(in, h[:]); err != nil {
			os.Exit(0)
		}
		n := int32(binary.LittleEndian.Uint32(h[:]))
		if n < 0 {
			return nil, false
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(in, b); err != nil {
			os.Exit(0)
		}
		return b, true
	}
	write := func(b []byte, present bool) {
		var h [4]byte
		n := int32(-1)
		if present {
			n = int32(len(b))
		}
		binary.LittleEndian.PutUint32(h[:], uint32(n))
		out.Write(h[:])
		out.Write(b)
	}
	cp := func(p unsafe.Pointer, n int) []byte {
		if p == nil {
			return nil
		}
		return append([]byte{}, unsafe.Slice((*byte)(p), n)...)
	}
	for {
		op, _ := read()
		switch string(op) {
		case "parse":
			ascii, _ := read()
			state, has := read()
			if !has {
				state = nil
			}
			mp, mn, sp, sn := RawPanelASCIIstringToInboundMessage(string(ascii), state)
			write(cp(mp, mn), mp != nil)
			write(cp(sp, sn), sp != nil)
		case "encode":
			b, _ := read()
			p := unsafe.Pointer(OutboundMessageToRawPanelASCIIstring(b))
			var s []byte
			for i := 0; ; i++ {
				c := *(*byte)(unsafe.Add(p, i))
				if c == 0 {
					break
				}
				s = append(s, c)
			}
			write(s, true)
		}
		out.Flush()
	}
}
