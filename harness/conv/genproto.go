package conv

import (
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

// genProtoOpts shapes arbitrary messages.
type genProtoOpts struct {
	str    *rapid.Generator[string]
	wild   bool // enums and numbers out of range
	dense  int  // chance (of 10) that a field is present
	maxRep int
}

// fillMessage sets arbitrary fields by reflection.
func fillMessage(t *rapid.T, m protoreflect.Message, o genProtoOpts, depth int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if b32(t, 9, "set") >= o.dense {
			continue
		}
		if depth <= 0 && fd.Kind() == protoreflect.MessageKind {
			continue
		}
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			for n := b32(t, o.maxRep, "mapn"); n > 0; n-- {
				k := genScalar(t, fd.MapKey(), o).MapKey()
				if fd.MapValue().Kind() == protoreflect.MessageKind {
					v := mp.NewValue()
					fillMessage(t, v.Message(), o, depth-1)
					mp.Set(k, v)
				} else {
					mp.Set(k, genScalar(t, fd.MapValue(), o))
				}
			}
		case fd.IsList():
			l := m.Mutable(fd).List()
			for n := b32(t, o.maxRep, "listn"); n > 0; n-- {
				if fd.Kind() == protoreflect.MessageKind {
					fillMessage(t, l.AppendMutable().Message(), o, depth-1)
				} else {
					l.Append(genScalar(t, fd, o))
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			fillMessage(t, m.Mutable(fd).Message(), o, depth-1)
		default:
			m.Set(fd, genScalar(t, fd, o))
		}
	}
}

func genScalar(t *rapid.T, fd protoreflect.FieldDescriptor, o genProtoOpts) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(rapid.Bool().Draw(t, "b"))
	case protoreflect.EnumKind:
		if o.wild && b32(t, 2, "wild") == 0 {
			return protoreflect.ValueOfEnum(protoreflect.EnumNumber(genI32().Draw(t, "e")))
		}
		vs := fd.Enum().Values()
		return protoreflect.ValueOfEnum(vs.Get(b32(t, vs.Len()-1, "ev")).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(genI32().Draw(t, "i"))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(rapid.Int64().Draw(t, "i"))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(genU32().Draw(t, "u"))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(rapid.Uint64().Draw(t, "u"))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(rapid.Float32().Draw(t, "f"))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(rapid.Float64().Draw(t, "f"))
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(o.str.Draw(t, "s"))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(genBytes(t, genLen(t, 0, 1200)))
	}
	panic("kind " + fd.Kind().String())
}

func genAny[M proto.Message](t *rapid.T, m M, o genProtoOpts) M {
	fillMessage(t, m.ProtoReflect(), o, 4)
	return m
}
