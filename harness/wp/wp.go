// Package wp holds the wirepath model and generators of C18 and C19.
package wp

import (
	"fmt"
	"math"
	"strings"

	pb "github.com/google/xtoproto/proto/wirepath"
	"github.com/google/xtoproto/verifharness/gen"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

// Offset is a repeated-field slot.
type Offset int64

// Key is a map-key slot.
type Key struct {
	Kind protoreflect.Kind
	Val  interface{}
}

// Elem is one element of a path.
type Elem struct {
	Self bool
	Num  int32
	Name string
	Slot interface{} // nil, Offset or Key
}

// KeyKinds are the kinds a map key may have.
var KeyKinds = []protoreflect.Kind{protoreflect.StringKind, protoreflect.Int32Kind, protoreflect.Int64Kind, protoreflect.Uint32Kind, protoreflect.Uint64Kind,
	protoreflect.Sint32Kind, protoreflect.Sint64Kind, protoreflect.Fixed32Kind, protoreflect.Fixed64Kind, protoreflect.Sfixed32Kind, protoreflect.Sfixed64Kind, protoreflect.BoolKind}

func (k Key) String() string { return fmt.Sprintf("%v %q", k.Kind, fmt.Sprint(k.Val)) }

// Describe writes a path out.
func Describe(p []Elem) string {
	var b strings.Builder
	for i, e := range p {
		if i > 0 {
			b.WriteString(" -> ")
		}
		if e.Self {
			b.WriteString("self")
		} else {
			fmt.Fprintf(&b, "field %d", e.Num)
		}
		if e.Name != "" {
			b.WriteString(" name " + e.Name)
		}
		switch s := e.Slot.(type) {
		case Offset:
			fmt.Fprintf(&b, " offset %d", s)
		case Key:
			fmt.Fprintf(&b, " key %s", s)
		}
	}
	return b.String()
}

// Proto builds the protobuf of a path.
func Proto(p []Elem) *pb.WirePath {
	var top *pb.WirePath
	for i := len(p) - 1; i >= 0; i-- {
		e := p[i]
		w := &pb.WirePath{FieldName: e.Name, Child: top}
		if e.Self {
			w.Element = &pb.WirePath_SpecialPath_{SpecialPath: pb.WirePath_SELF}
		} else {
			w.Element = &pb.WirePath_FieldNumber{FieldNumber: e.Num}
		}
		switch s := e.Slot.(type) {
		case Offset:
			w.Slot = &pb.WirePath_RepeatedFieldOffset{RepeatedFieldOffset: int64(s)}
		case Key:
			switch s.Kind {
			case protoreflect.StringKind:
				w.Slot = &pb.WirePath_MapKeyString{MapKeyString: s.Val.(string)}
			case protoreflect.Int32Kind:
				w.Slot = &pb.WirePath_MapKeyInt32{MapKeyInt32: s.Val.(int32)}
			case protoreflect.Int64Kind:
				w.Slot = &pb.WirePath_MapKeyInt64{MapKeyInt64: s.Val.(int64)}
			case protoreflect.Uint32Kind:
				w.Slot = &pb.WirePath_MapKeyUint32{MapKeyUint32: s.Val.(uint32)}
			case protoreflect.Uint64Kind:
				w.Slot = &pb.WirePath_MapKeyUint64{MapKeyUint64: s.Val.(uint64)}
			case protoreflect.Sint32Kind:
				w.Slot = &pb.WirePath_MapKeySint32{MapKeySint32: s.Val.(int32)}
			case protoreflect.Sint64Kind:
				w.Slot = &pb.WirePath_MapKeySint64{MapKeySint64: s.Val.(int64)}
			case protoreflect.Fixed32Kind:
				w.Slot = &pb.WirePath_MapKeyFixed32{MapKeyFixed32: s.Val.(uint32)}
			case protoreflect.Fixed64Kind:
				w.Slot = &pb.WirePath_MapKeyFixed64{MapKeyFixed64: s.Val.(uint64)}
			case protoreflect.Sfixed32Kind:
				w.Slot = &pb.WirePath_MapKeySfixed32{MapKeySfixed32: s.Val.(int32)}
			case protoreflect.Sfixed64Kind:
				w.Slot = &pb.WirePath_MapKeySfixed64{MapKeySfixed64: s.Val.(int64)}
			case protoreflect.BoolKind:
				w.Slot = &pb.WirePath_MapKeyBool{MapKeyBool: s.Val.(bool)}
			}
		}
		top = w
	}
	return top
}

// KeyVal draws a value of a map-key kind.
func KeyVal(t gen.D, kind protoreflect.Kind, label string) interface{} {
	switch kind {
	case protoreflect.StringKind:
		if gen.OneIn(t, 500, label+".long") {
			return strings.Repeat(gen.Pick(t, label+".piece", "a", "é", "/", "\"", "\\", "\n"), gen.Pick(t, label+".times", 33, 257, 1030, 4100))
		}
		return gen.Text(t, 8, label)
	case protoreflect.BoolKind:
		return gen.Bool(t, label)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return int32(gen.Int64(t, label))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return uint32(gen.Int64(t, label))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return uint64(gen.Int64(t, label))
	default:
		return gen.Int64(t, label)
	}
}

// Name draws a protobuf identifier, often none.
func Name(t gen.D, label string) string {
	if gen.Bool(t, label+".none") {
		return ""
	}
	return rapid.StringMatching(`[A-Za-z][A-Za-z0-9_]{0,8}`).Draw(t, label)
}

// Path draws a path with no message in mind.
func Path(t gen.D, maxLen int) []Elem {
	n := gen.Int(t, 1, maxLen, "elems")
	var out []Elem
	for i := 0; i < n; i++ {
		if gen.OneIn(t, 8, "self") {
			out = append(out, Elem{Self: true})
			continue
		}
		e := Elem{Name: Name(t, "name")}
		switch gen.Int(t, 0, 3, "num.kind") {
		case 0:
			e.Num = gen.Pick[int32](t, "num.edge", 1, 15, 16, 2047, 2048, 1<<29-1, 19000, math.MaxInt32)
		default:
			e.Num = int32(gen.Int(t, 1, 30, "num"))
		}
		switch gen.Int(t, 0, 3, "slot") {
		case 0:
			if gen.OneIn(t, 4, "off.big") {
				e.Slot = Offset(rapid.Int64Range(0, math.MaxInt64).Draw(t, "off.any"))
			} else {
				e.Slot = Offset(gen.Int(t, 0, 20, "off"))
			}
		case 1, 2:
			k := gen.Pick(t, "key.kind", KeyKinds...)
			if gen.OneIn(t, 2, "key.str") {
				k = protoreflect.StringKind
			}
			e.Slot = Key{k, KeyVal(t, k, "key")}
		}
		out = append(out, e)
	}
	return out
}
