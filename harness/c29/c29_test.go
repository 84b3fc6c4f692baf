package c29

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"testing"

	"github.com/google/go-cmp/cmp"
	"github.com/google/xtoproto/internal/protoreflectcmp"
	"github.com/google/xtoproto/proto/wirepath/testproto"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/testing/protocmp"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/known/structpb"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "random pairs of repeated values of every element kind (generated and dynamic protobuf lists, unset lists, typed and generic slices; equal, near-equal with one element changed, added, dropped or swapped, and unrelated), bare and inside structs, maps and interfaces, with and without the element type compared; non-trivial: at least one is a protobuf list and at least one is not empty; distinct by pair")
}

var kinds = []descriptorpb.FieldDescriptorProto_Type{
	descriptorpb.FieldDescriptorProto_TYPE_BOOL, descriptorpb.FieldDescriptorProto_TYPE_INT32, descriptorpb.FieldDescriptorProto_TYPE_SINT32, descriptorpb.FieldDescriptorProto_TYPE_SFIXED32,
	descriptorpb.FieldDescriptorProto_TYPE_INT64, descriptorpb.FieldDescriptorProto_TYPE_SINT64, descriptorpb.FieldDescriptorProto_TYPE_SFIXED64, descriptorpb.FieldDescriptorProto_TYPE_UINT32,
	descriptorpb.FieldDescriptorProto_TYPE_FIXED32, descriptorpb.FieldDescriptorProto_TYPE_UINT64, descriptorpb.FieldDescriptorProto_TYPE_FIXED64, descriptorpb.FieldDescriptorProto_TYPE_FLOAT,
	descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, descriptorpb.FieldDescriptorProto_TYPE_STRING, descriptorpb.FieldDescriptorProto_TYPE_BYTES, descriptorpb.FieldDescriptorProto_TYPE_ENUM,
	descriptorpb.FieldDescriptorProto_TYPE_MESSAGE, descriptorpb.FieldDescriptorProto_TYPE_MESSAGE, descriptorpb.FieldDescriptorProto_TYPE_MESSAGE,
}

// goKind is the Go type that values of each of the kinds have.
var goKind = []string{"bool", "int32", "int32", "int32", "int64", "int64", "int64", "uint32", "uint32", "uint64", "uint64", "float32", "float64", "string", "bytes", "enum",
	"xtoproto.wirepath.internal.Example", "xtoproto.wirepath.internal.Friend", "google.protobuf.Value"}

var holder = func() protoreflect.MessageDescriptor {
	f := &descriptorpb.FileDescriptorProto{Name: proto.String("verif_c29.proto"), Package: proto.String("verif"), Syntax: proto.String("proto3"),
		Dependency: []string{(&testproto.Example{}).ProtoReflect().Descriptor().ParentFile().Path(), "google/protobuf/struct.proto"},
		EnumType:   []*descriptorpb.EnumDescriptorProto{{Name: proto.String("E"), Value: []*descriptorpb.EnumValueDescriptorProto{{Name: proto.String("A"), Number: proto.Int32(0)}, {Name: proto.String("B"), Number: proto.Int32(1)}}}}}
	m := &descriptorpb.DescriptorProto{Name: proto.String("L")}
	for i, k := range kinds {
		k := k
		fd := &descriptorpb.FieldDescriptorProto{Name: proto.String(fmt.Sprintf("f%d", i)), Number: proto.Int32(int32(i + 1)), Type: &k, Label: descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()}
		switch k {
		case descriptorpb.FieldDescriptorProto_TYPE_ENUM:
			fd.TypeName = proto.String(".verif.E")
		case descriptorpb.FieldDescriptorProto_TYPE_MESSAGE:
			fd.TypeName = proto.String("." + goKind[i])
		}
		m.Field = append(m.Field, fd)
	}
	f.MessageType = []*descriptorpb.DescriptorProto{m}
	d, err := protodesc.NewFile(f, protoregistry.GlobalFiles)
	if err != nil {
		pbt.Infra("%v", err)
	}
	return d.Messages().Get(0)
}()

func drawMessage(t *pbt.T, kind string) proto.Message {
	switch kind {
	case "xtoproto.wirepath.internal.Example":
		m := &testproto.Example{ColName: gen.Pick(t.T, "col", "", "a", "b")}
		if gen.OneIn(t.T, 3, "child") {
			m.Child = &testproto.Example{ColumnIndex: int32(gen.Int(t.T, 0, 2, "idx"))}
		}
		for gen.OneIn(t.T, 3, "imports") {
			m.ProtoImports = append(m.ProtoImports, gen.Pick(t.T, "imp", "", "x", "y"))
		}
		if gen.OneIn(t.T, 4, "map") {
			m.ModbusValues = map[int32]string{int32(gen.Int(t.T, 0, 2, "key")): "v", 9: ""}
		}
		return m
	case "xtoproto.wirepath.internal.Friend":
		return &testproto.Friend{Name: gen.Pick(t.T, "name", "", "a", "b")}
	}
	switch gen.Int(t.T, 0, 3, "value") {
	case 0:
		return &structpb.Value{}
	case 1:
		return &structpb.Value{Kind: &structpb.Value_NullValue{}}
	case 2:
		return &structpb.Value{Kind: &structpb.Value_NumberValue{NumberValue: float64(gen.Int(t.T, 0, 2, "num"))}}
	}
	v := &structpb.ListValue{}
	for gen.OneIn(t.T, 2, "more") {
		v.Values = append(v.Values, &structpb.Value{Kind: &structpb.Value_BoolValue{BoolValue: gen.Bool(t.T, "b")}})
	}
	return &structpb.Value{Kind: &structpb.Value_ListValue{ListValue: v}}
}

// drawElem draws an element as the Go value that a protoreflect.Value of the
// kind holds, messages as proto.Message.
func drawElem(t *pbt.T, kind string) interface{} {
	switch kind {
	case "bool":
		return gen.Bool(t.T, "bool")
	case "int32":
		return int32(gen.Int64(t.T, "i32"))
	case "int64":
		return gen.Int64(t.T, "i64")
	case "uint32":
		return uint32(gen.Int64(t.T, "u32"))
	case "uint64":
		return uint64(gen.Int64(t.T, "u64"))
	case "float32":
		return float32(gen.Float64(t.T, "f32", false))
	case "float64":
		return gen.Float64(t.T, "f64", false)
	case "string":
		return gen.Text(t.T, 4, "string")
	case "bytes":
		// No nil: cmp tells a nil slice from an empty one, and so may the option.
		return []byte(gen.Pick(t.T, "bytes", "", "a", "b", "\x00"))
	case "enum":
		return protoreflect.EnumNumber(gen.Int(t.T, -1, 2, "enum"))
	}
	return drawMessage(t, kind)
}

func equalElem(a, b interface{}) bool {
	switch x := a.(type) {
	case proto.Message:
		y, ok := b.(proto.Message)
		return ok && proto.Equal(x, y)
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	}
	return a == b
}

// A rep is one repeated value in one of its Go forms.
type rep struct {
	kind    string
	elems   []interface{}
	form    string // list, dynamic, unset, slice, generic
	value   interface{}
	isList  bool
	generic bool
}

func isMessage(kind string) bool { return len(kind) > 8 }

func clone(e interface{}) interface{} {
	switch x := e.(type) {
	case proto.Message:
		return proto.Clone(x)
	case []byte:
		if x == nil {
			return x
		}
		return append([]byte{}, x...)
	}
	return e
}

func toValue(e interface{}) protoreflect.Value {
	if m, ok := e.(proto.Message); ok {
		return protoreflect.ValueOfMessage(m.ProtoReflect())
	}
	return protoreflect.ValueOf(e)
}

func fieldOf(t *pbt.T, kind string) protoreflect.FieldDescriptor {
	var is []int
	for i, k := range goKind {
		if k == kind {
			is = append(is, i)
		}
	}
	return holder.Fields().Get(is[gen.Int(t.T, 0, len(is)-1, "field")])
}

// build gives a repeated value one of its forms.
func build(t *pbt.T, kind string, elems []interface{}) *rep {
	r := &rep{kind: kind, elems: elems}
	forms := []string{"dynamic", "slice"}
	if kind == "string" || kind == "xtoproto.wirepath.internal.Example" || kind == "google.protobuf.Value" {
		forms = append(forms, "list", "list")
	}
	if isMessage(kind) {
		forms = append(forms, "generic")
	}
	if len(elems) == 0 {
		forms = append(forms, "unset", "dynamicunset", "nilslice")
	}
	r.form = gen.Pick(t.T, "form", forms...)
	var own []interface{}
	for _, e := range elems {
		own = append(own, clone(e))
	}
	switch r.form {
	case "dynamic", "dynamicunset":
		m := dynamicpb.NewMessage(holder)
		fd := fieldOf(t, kind)
		r.isList = true
		if r.form == "dynamicunset" {
			r.value = m.Get(fd).List()
			break
		}
		l := m.Mutable(fd).List()
		for _, e := range own {
			if pm, ok := e.(proto.Message); ok && gen.OneIn(t.T, 3, "dynamicelem") {
				// A dynamic message that equals the generated one.
				b, err := proto.Marshal(pm)
				if err != nil {
					pbt.Infra("%v", err)
				}
				d := dynamicpb.NewMessage(pm.ProtoReflect().Descriptor())
				if err := proto.Unmarshal(b, d); err != nil {
					pbt.Infra("%v", err)
				}
				e = proto.Message(d)
			}
			l.Append(toValue(e))
		}
		r.value = l
	case "list", "unset":
		r.isList = true
		var m protoreflect.Message
		var name protoreflect.Name
		switch kind {
		case "string":
			m, name = (&testproto.Example{}).ProtoReflect(), "proto_imports"
		case "xtoproto.wirepath.internal.Example":
			m, name = (&testproto.Example{}).ProtoReflect(), "children"
		case "google.protobuf.Value":
			m, name = (&structpb.ListValue{}).ProtoReflect(), "values"
		default:
			m, name = dynamicpb.NewMessage(holder), fieldOf(t, kind).Name()
		}
		fd := m.Descriptor().Fields().ByName(name)
		if r.form == "unset" {
			r.value = m.Get(fd).List()
			break
		}
		l := m.Mutable(fd).List()
		for _, e := range own {
			l.Append(toValue(e))
		}
		r.value = l
	case "generic":
		r.generic = true
		s := []proto.Message{}
		for _, e := range own {
			s = append(s, e.(proto.Message))
		}
		r.value = s
	default:
		var proto0 interface{}
		switch kind {
		case "bool":
			proto0 = false
		case "int32":
			proto0 = int32(0)
		case "int64":
			proto0 = int64(0)
		case "uint32":
			proto0 = uint32(0)
		case "uint64":
			proto0 = uint64(0)
		case "float32":
			proto0 = float32(0)
		case "float64":
			proto0 = float64(0)
		case "string":
			proto0 = ""
		case "bytes":
			proto0 = []byte(nil)
		case "enum":
			proto0 = protoreflect.EnumNumber(0)
		case "xtoproto.wirepath.internal.Example":
			proto0 = (*testproto.Example)(nil)
		case "xtoproto.wirepath.internal.Friend":
			proto0 = (*testproto.Friend)(nil)
		default:
			proto0 = (*structpb.Value)(nil)
		}
		st := reflect.SliceOf(reflect.TypeOf(proto0))
		s := reflect.MakeSlice(st, 0, 0)
		if r.form == "nilslice" {
			s = reflect.Zero(st)
		}
		for _, e := range own {
			s = reflect.Append(s, reflect.ValueOf(e))
		}
		r.value = s.Interface()
	}
	return r
}

// equal is the reference; it is only asked when one side is a list.
func equal(x, y *rep, ignoreType bool) bool {
	if isMessage(x.kind) != isMessage(y.kind) {
		return false
	}
	if x.kind != y.kind && !(isMessage(x.kind) && ignoreType) {
		return false
	}
	if x.generic != y.generic && !ignoreType {
		return false
	}
	if len(x.elems) != len(y.elems) {
		return false
	}
	for i := range x.elems {
		if !equalElem(x.elems[i], y.elems[i]) {
			return false
		}
	}
	return true
}

type box struct {
	Name string
	V    interface{}
}

func show(r *rep) string {
	s := ""
	for _, e := range r.elems {
		s += fmt.Sprintf(" %#v", e)
		if m, ok := e.(proto.Message); ok {
			s = s[:len(s)-len(fmt.Sprintf(" %#v", e))] + fmt.Sprintf(" {%v}", m)
		}
	}
	return fmt.Sprintf("%s of %s [%s ]", r.form, r.kind, s)
}

func compare(x, y interface{}, opts ...cmp.Option) (eq bool, diff, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("%v\n%s", r, debug.Stack())
		}
	}()
	eq = cmp.Equal(x, y, opts...)
	diff = cmp.Diff(x, y, opts...)
	return eq, diff, ""
}

func TestCompare(t *testing.T) {
	pbt.Check(t, 12000, func(t *pbt.T) {
		kind := gen.Pick(t.T, "kind", append(goKind, goKind[16:]...)...)
		var elems []interface{}
		for i, n := 0, gen.Int(t.T, 0, 4, "n"); i < n; i++ {
			elems = append(elems, drawElem(t, kind))
		}
		if few := len(elems); few > 0 && gen.OneIn(t.T, 40, "long") {
			for n := gen.Pick(t.T, "longer", 20, 70, 140, 300, 1100); len(elems) < n; {
				elems = append(elems, clone(elems[len(elems)-few]))
			}
			t.Class("long")
		}
		x := build(t, kind, elems)
		other := append([]interface{}{}, elems...)
		kind2 := kind
		switch gen.Int(t.T, 0, 8, "change") {
		case 0:
			if len(other) > 0 {
				at := gen.Int(t.T, 0, len(other)-1, "at")
				if gen.OneIn(t.T, 3, "last") {
					at = len(other) - 1
				}
				other[at] = drawElem(t, kind)
			}
		case 1:
			i := gen.Int(t.T, 0, len(other), "ins")
			other = append(append(append([]interface{}{}, other[:i]...), drawElem(t, kind)), other[i:]...)
		case 2:
			if len(other) > 0 {
				i := gen.Int(t.T, 0, len(other)-1, "drop")
				other = append(append([]interface{}{}, other[:i]...), other[i+1:]...)
			}
		case 3:
			if len(other) > 1 {
				i := gen.Int(t.T, 0, len(other)-2, "swap")
				other[i], other[i+1] = other[i+1], other[i]
			}
		case 4:
			kind2, other = gen.Pick(t.T, "kind2", goKind...), nil
			for i, n := 0, gen.Int(t.T, 0, 2, "n2"); i < n; i++ {
				other = append(other, drawElem(t, kind2))
			}
		}
		y := build(t, kind2, other)
		ignore := gen.Bool(t.T, "ignore")
		opts := []cmp.Option{protocmp.Transform(), protoreflectcmp.Transform()}
		if ignore {
			opts[1] = protoreflectcmp.Transform(protoreflectcmp.IgnoreElementType())
		}
		if gen.Bool(t.T, "order") {
			opts[0], opts[1] = opts[1], opts[0]
		}
		wrap := gen.Int(t.T, 0, 3, "wrap")
		wrapped := func(v interface{}) interface{} {
			switch wrap {
			case 1:
				return box{"n", v}
			case 2:
				return map[string]interface{}{"k": v, "other": 1}
			case 3:
				return []interface{}{"first", v}
			}
			return v
		}
		t.Case((x.isList || y.isList) && len(x.elems)+len(y.elems) > 0, fmt.Sprintf("%s against %s, ignore type %v, wrapped %d", show(x), show(y), ignore, wrap))
		desc := fmt.Sprintf("%s against %s, element type ignored %v, wrapped %d", show(x), show(y), ignore, wrap)
		eq, diff, panicked := compare(wrapped(x.value), wrapped(y.value), opts...)
		if panicked != "" {
			t.Fatalf("%s: panic %s", desc, panicked)
		}
		var want bool
		if x.isList || y.isList {
			want = equal(x, y, ignore)
		} else {
			// Without a list, the option changes nothing.
			plain, _, p := compare(wrapped(x.value), wrapped(y.value), protocmp.Transform())
			if p != "" {
				pbt.Infra("%s: %s", desc, p)
			}
			want = plain
		}
		t.Class(fmt.Sprintf("%s/%s equal %v", x.form, y.form, want))
		if eq != want || (diff == "") != want {
			t.Fatalf("%s: Equal says %v and Diff %q; want %v", desc, eq, diff, want)
		}
		back, _, _ := compare(wrapped(y.value), wrapped(x.value), opts...)
		if back != eq {
			t.Fatalf("%s: %v, and the other way round %v", desc, eq, back)
		}
		if self, _, p := compare(wrapped(x.value), wrapped(x.value), opts...); !self {
			t.Fatalf("%s does not equal itself (%s)", desc, p)
		}
	})
}

func TestRegressions(t *testing.T) {
	opts := []cmp.Option{protocmp.Transform(), protoreflectcmp.Transform()}
	pbt.Regression(t, "unset-list", func() string {
		fd := (&testproto.Example{}).ProtoReflect().Descriptor().Fields().ByName("children")
		eq, _, p := compare((&testproto.Example{}).ProtoReflect().Get(fd).List(), []*testproto.Example{}, opts...)
		if !eq {
			return "an unset list differs from an empty slice " + p
		}
		return ""
	})
	pbt.Regression(t, "message-with-messages", func() string {
		m := &testproto.Example{Children: []*testproto.Example{{}}}
		fd := m.ProtoReflect().Descriptor().Fields().ByName("children")
		v := &testproto.Example{Children: []*testproto.Example{m}}
		eq, _, p := compare(v.ProtoReflect().Get(fd).List(), []*testproto.Example{m}, opts...)
		if !eq {
			return "a list of a message that has a list of messages differs from the slice of it " + p
		}
		return ""
	})
}
