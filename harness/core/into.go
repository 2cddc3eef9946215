package core

import (
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Into gives dst the content of src in place: messages, lists and byte fields
// that exist in both stay the objects they are. A caller who keeps one object
// and edits it between two calls does this.
func Into(dst, src proto.Message) { into(dst.ProtoReflect(), proto.Clone(src).ProtoReflect()) }

func into(d, s protoreflect.Message) {
	fs := d.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if !s.Has(f) {
			d.Clear(f)
			continue
		}
		switch {
		case f.IsMap():
			d.Set(f, s.Get(f))
		case f.IsList():
			if !d.Has(f) {
				d.Set(f, s.Get(f))
				continue
			}
			dl, sl := d.Mutable(f).List(), s.Get(f).List()
			if dl.Len() > sl.Len() {
				dl.Truncate(sl.Len())
			}
			for k := 0; k < sl.Len(); k++ {
				switch {
				case k >= dl.Len():
					dl.Append(sl.Get(k))
				case f.Message() != nil:
					into(dl.Get(k).Message(), sl.Get(k).Message())
				default:
					dl.Set(k, sl.Get(k))
				}
			}
		case f.Message() != nil:
			if d.Has(f) {
				into(d.Mutable(f).Message(), s.Get(f).Message())
			} else {
				d.Set(f, s.Get(f))
			}
		case f.Kind() == protoreflect.BytesKind:
			b := s.Get(f).Bytes()
			if d.Has(f) {
				if o := d.Get(f).Bytes(); cap(o) >= len(b) {
					o = o[:len(b)]
					copy(o, b)
					b = o
				}
			}
			d.Set(f, protoreflect.ValueOfBytes(b))
		default:
			d.Set(f, s.Get(f))
		}
	}
}
