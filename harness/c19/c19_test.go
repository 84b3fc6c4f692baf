package c19

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	pb "github.com/google/xtoproto/proto/wirepath"
	"github.com/google/xtoproto/proto/wirepath/testproto"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/wp"
	"github.com/google/xtoproto/wirepath"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "messages of three schemas (one dynamic with every scalar kind and every map key kind) with paths that follow the message, most of them bent in one place; non-trivial: at least two elements or a slot; distinct by message and path")
}

// node is the model of a value: a message is a map of field number to node
// (set fields only), a list a slice, a map a map from Go key to node.
type msg struct {
	d protoreflect.MessageDescriptor
	f map[protoreflect.FieldNumber]interface{}
}

type list struct {
	d  protoreflect.FieldDescriptor
	es []interface{}
}

type mapv struct {
	d  protoreflect.FieldDescriptor
	es map[interface{}]interface{}
}

var scalars = []descriptorpb.FieldDescriptorProto_Type{
	descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, descriptorpb.FieldDescriptorProto_TYPE_FLOAT, descriptorpb.FieldDescriptorProto_TYPE_INT64, descriptorpb.FieldDescriptorProto_TYPE_UINT64,
	descriptorpb.FieldDescriptorProto_TYPE_INT32, descriptorpb.FieldDescriptorProto_TYPE_FIXED64, descriptorpb.FieldDescriptorProto_TYPE_FIXED32, descriptorpb.FieldDescriptorProto_TYPE_BOOL,
	descriptorpb.FieldDescriptorProto_TYPE_STRING, descriptorpb.FieldDescriptorProto_TYPE_BYTES, descriptorpb.FieldDescriptorProto_TYPE_UINT32, descriptorpb.FieldDescriptorProto_TYPE_SFIXED32,
	descriptorpb.FieldDescriptorProto_TYPE_SFIXED64, descriptorpb.FieldDescriptorProto_TYPE_SINT32, descriptorpb.FieldDescriptorProto_TYPE_SINT64,
}

// schema is a dynamic file whose message M has a field of every scalar kind,
// a list of some, maps with every key kind, a oneof and itself. All variants
// have the same names; rot turns the kinds of the scalar fields, and proto2
// gives them explicit defaults.
func schema(rot int, proto2 bool) protoreflect.MessageDescriptor {
	opt, rep := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
	m := &descriptorpb.DescriptorProto{Name: proto.String("M")}
	num := int32(0)
	add := func(f *descriptorpb.FieldDescriptorProto) {
		num++
		f.Number = proto.Int32(num)
		f.Name = proto.String(fmt.Sprintf("f%d", num))
		m.Field = append(m.Field, f)
	}
	for i := range scalars {
		f := &descriptorpb.FieldDescriptorProto{Label: opt, Type: scalars[(i+rot)%len(scalars)].Enum()}
		if proto2 {
			switch f.GetType() {
			case descriptorpb.FieldDescriptorProto_TYPE_BOOL:
				f.DefaultValue = proto.String("true")
			case descriptorpb.FieldDescriptorProto_TYPE_STRING, descriptorpb.FieldDescriptorProto_TYPE_BYTES:
				f.DefaultValue = proto.String("dflt")
			case descriptorpb.FieldDescriptorProto_TYPE_FLOAT, descriptorpb.FieldDescriptorProto_TYPE_DOUBLE:
				f.DefaultValue = proto.String("1.5")
			default:
				f.DefaultValue = proto.String("7")
			}
		}
		add(f)
	}
	enum := descriptorpb.FieldDescriptorProto_TYPE_ENUM.Enum()
	message := descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
	e := &descriptorpb.FieldDescriptorProto{Label: opt, Type: enum, TypeName: proto.String(".verif.E")}
	if proto2 {
		e.DefaultValue = proto.String("E1")
	}
	add(e)
	add(&descriptorpb.FieldDescriptorProto{Label: opt, Type: message, TypeName: proto.String(".verif.M")})
	for _, s := range []int{2, 4, 8, 9, 0, 7} {
		add(&descriptorpb.FieldDescriptorProto{Label: rep, Type: scalars[s].Enum()})
	}
	add(&descriptorpb.FieldDescriptorProto{Label: rep, Type: enum, TypeName: proto.String(".verif.E")})
	add(&descriptorpb.FieldDescriptorProto{Label: rep, Type: message, TypeName: proto.String(".verif.M")})
	add(&descriptorpb.FieldDescriptorProto{Label: opt, Type: message, TypeName: proto.String(".verif.M"), OneofIndex: proto.Int32(0)})
	add(&descriptorpb.FieldDescriptorProto{Label: opt, Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), OneofIndex: proto.Int32(0)})
	m.OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("o")}}
	for _, k := range scalars {
		switch k {
		case descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, descriptorpb.FieldDescriptorProto_TYPE_FLOAT, descriptorpb.FieldDescriptorProto_TYPE_BYTES:
			continue
		}
		val := &descriptorpb.FieldDescriptorProto{Name: proto.String("value"), Number: proto.Int32(2), Label: opt, Type: message, TypeName: proto.String(".verif.M")}
		switch num % 4 {
		case 1:
			val.Type, val.TypeName = descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), nil
		case 2:
			val.Type, val.TypeName = enum, proto.String(".verif.E")
		}
		entry := fmt.Sprintf("F%dEntry", num+1)
		m.NestedType = append(m.NestedType, &descriptorpb.DescriptorProto{Name: proto.String(entry), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)},
			Field: []*descriptorpb.FieldDescriptorProto{{Name: proto.String("key"), Number: proto.Int32(1), Label: opt, Type: k.Enum()}, val}})
		add(&descriptorpb.FieldDescriptorProto{Label: rep, Type: message, TypeName: proto.String(".verif.M." + entry)})
	}
	syntax := "proto3"
	if proto2 {
		syntax = "proto2"
	}
	fd, err := protodesc.NewFile(&descriptorpb.FileDescriptorProto{Name: proto.String("verif.proto"), Package: proto.String("verif"), Syntax: proto.String(syntax),
		MessageType: []*descriptorpb.DescriptorProto{m},
		EnumType: []*descriptorpb.EnumDescriptorProto{{Name: proto.String("E"), Value: []*descriptorpb.EnumValueDescriptorProto{
			{Name: proto.String("E0"), Number: proto.Int32(0)}, {Name: proto.String("E1"), Number: proto.Int32(7)}}}}}, nil)
	if err != nil {
		pbt.Infra("schema: %v", err)
	}
	return fd.Messages().Get(0)
}

// Two builds of one schema and two other schemas, all of the same full name, as
// a program sees them that loads schemas again.
var dynamic = []protoreflect.MessageDescriptor{schema(0, false), schema(0, false), schema(4, false), schema(0, true)}

func newMessage(t *pbt.T) proto.Message {
	switch gen.Int(t.T, 0, 9, "schema") {
	case 0, 1:
		return &testproto.Example{}
	case 2, 3:
		return &pb.WirePath{}
	case 4:
		return dynamicpb.NewMessage((&testproto.Example{}).ProtoReflect().Descriptor())
	}
	return dynamicpb.NewMessage(gen.Pick(t.T, "dynamic", dynamic...))
}

// scalar draws a value of a scalar field in the model's form, which is the Go
// value protoreflect uses (bytes as a string in a struct).
type byteString struct{ s string }

func scalar(t *pbt.T, fd protoreflect.FieldDescriptor) interface{} {
	switch fd.Kind() {
	case protoreflect.BytesKind:
		return byteString{gen.Text(t.T, 4, "bytes")}
	case protoreflect.DoubleKind:
		return gen.Float64(t.T, "double", false)
	case protoreflect.FloatKind:
		return float32(gen.Float64(t.T, "float", false))
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		return vs.Get(gen.Int(t.T, 0, vs.Len()-1, "enum")).Number()
	}
	return wp.KeyVal(t.T, fd.Kind(), "scalar")
}

func toValue(v interface{}) protoreflect.Value {
	if b, ok := v.(byteString); ok {
		return protoreflect.ValueOfBytes([]byte(b.s))
	}
	return protoreflect.ValueOf(v)
}

func fill(t *pbt.T, m protoreflect.Message, depth int) *msg {
	out := &msg{m.Descriptor(), map[protoreflect.FieldNumber]interface{}{}}
	fds := m.Descriptor().Fields()
	n := gen.Int(t.T, 0, 4, "fields")
	for i := 0; i < n; i++ {
		fd := fds.Get(gen.Int(t.T, 0, fds.Len()-1, "field"))
		if _, ok := out.f[fd.Number()]; ok {
			continue
		}
		composite := fd.Message() != nil && !fd.IsMap() || fd.IsMap() && fd.MapValue().Message() != nil
		if depth == 0 && composite {
			continue
		}
		if od := fd.ContainingOneof(); od != nil {
			if was := m.WhichOneof(od); was != nil {
				delete(out.f, was.Number())
			}
		}
		switch {
		case fd.IsMap():
			mv := &mapv{fd, map[interface{}]interface{}{}}
			pm := m.Mutable(fd).Map()
			for k := gen.Int(t.T, 1, 3, "entries"); k > 0; k-- {
				key := wp.KeyVal(t.T, fd.MapKey().Kind(), "mapkey")
				var v interface{}
				var pv protoreflect.Value
				if fd.MapValue().Message() != nil {
					pv = pm.NewValue()
					v = fill(t, pv.Message(), depth-1)
				} else {
					v = scalar(t, fd.MapValue())
					pv = toValue(v)
				}
				mv.es[key] = v
				pm.Set(protoreflect.ValueOf(key).MapKey(), pv)
			}
			out.f[fd.Number()] = mv
		case fd.IsList():
			l := &list{fd, nil}
			pl := m.Mutable(fd).List()
			for k := gen.Int(t.T, 1, 3, "elements"); k > 0; k-- {
				if fd.Message() != nil {
					pv := pl.NewElement()
					l.es = append(l.es, fill(t, pv.Message(), depth-1))
					pl.Append(pv)
				} else {
					v := scalar(t, fd)
					l.es = append(l.es, v)
					pl.Append(toValue(v))
				}
			}
			out.f[fd.Number()] = l
		case fd.Message() != nil:
			nv := m.NewField(fd)
			out.f[fd.Number()] = fill(t, nv.Message(), depth-1)
			m.Set(fd, nv)
		default:
			v := scalar(t, fd)
			out.f[fd.Number()] = v
			m.Set(fd, toValue(v))
		}
	}
	return out
}

// get is the model's field access: unset fields have their default.
func get(m *msg, fd protoreflect.FieldDescriptor) interface{} {
	if v, ok := m.f[fd.Number()]; ok {
		return v
	}
	switch {
	case fd.IsMap():
		return &mapv{fd, nil}
	case fd.IsList():
		return &list{fd, nil}
	case fd.Message() != nil:
		return &msg{fd.Message(), nil}
	case fd.HasDefault() && fd.Kind() == protoreflect.BytesKind:
		return byteString{string(fd.Default().Bytes())}
	case fd.HasDefault():
		return fd.Default().Interface()
	}
	switch fd.Kind() {
	case protoreflect.BytesKind:
		return byteString{""}
	case protoreflect.DoubleKind:
		return float64(0)
	case protoreflect.FloatKind:
		return float32(0)
	case protoreflect.EnumKind:
		return protoreflect.EnumNumber(0)
	case protoreflect.StringKind:
		return ""
	case protoreflect.BoolKind:
		return false
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return int32(0)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return uint32(0)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return uint64(0)
	}
	return int64(0)
}

type missing struct{}

// eval is the reference: the value, or an error, or unsaid: SELF of a value
// that is no message, and a key of another kind of the same Go type.
func eval(v interface{}, p []wp.Elem) (res interface{}, isErr, unsaid bool) {
	if len(p) == 0 {
		return v, false, false
	}
	m, ok := v.(*msg)
	if !ok {
		for _, e := range p {
			if !e.Self || e.Slot != nil {
				return nil, true, false
			}
		}
		return nil, true, true
	}
	e := p[0]
	var cur interface{} = m
	if !e.Self {
		fd := m.d.Fields().ByNumber(protoreflect.FieldNumber(e.Num))
		if fd == nil {
			return nil, true, false
		}
		cur = get(m, fd)
	}
	switch s := e.Slot.(type) {
	case wp.Offset:
		l, ok := cur.(*list)
		if !ok || s < 0 || int64(s) >= int64(len(l.es)) {
			return nil, true, false
		}
		cur = l.es[s]
	case wp.Key:
		mv, ok := cur.(*mapv)
		if !ok {
			return nil, true, false
		}
		if kk := mv.d.MapKey().Kind(); kk != s.Kind {
			if goType(kk) != goType(s.Kind) {
				return nil, true, false
			}
			unsaid = true
		}
		x, ok := mv.es[s.Val]
		if !ok {
			x = missing{}
		}
		cur = x
	}
	r, ie, us := eval(cur, p[1:])
	return r, ie, us || unsaid
}

func goType(k protoreflect.Kind) string {
	return fmt.Sprintf("%T", zero(k))
}

func zero(k protoreflect.Kind) interface{} {
	switch k {
	case protoreflect.StringKind:
		return ""
	case protoreflect.BoolKind:
		return false
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return int32(0)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return uint32(0)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return uint64(0)
	}
	return int64(0)
}

// same compares a value with the model and says where they differ.
func same(v protoreflect.Value, want interface{}) string {
	switch w := want.(type) {
	case missing:
		if v.IsValid() {
			return fmt.Sprintf("got %v for a missing map key", v)
		}
		return ""
	case *msg:
		m, ok := v.Interface().(protoreflect.Message)
		if !ok {
			return fmt.Sprintf("got %T, want a message", v.Interface())
		}
		if m.Descriptor().FullName() != w.d.FullName() {
			return fmt.Sprintf("got a %s, want a %s", m.Descriptor().FullName(), w.d.FullName())
		}
		fds := w.d.Fields()
		for i := 0; i < fds.Len(); i++ {
			fd := fds.Get(i)
			mfd := m.Descriptor().Fields().ByNumber(fd.Number())
			if _, set := w.f[fd.Number()]; !set && (fd.Message() != nil || fd.IsList() || fd.ContainingOneof() != nil) {
				if m.Has(mfd) {
					return fmt.Sprintf("field %d is set", fd.Number())
				}
				continue
			}
			if d := same(m.Get(mfd), get(w, fd)); d != "" {
				return fmt.Sprintf("field %d: %s", fd.Number(), d)
			}
		}
		return ""
	case *list:
		l, ok := v.Interface().(protoreflect.List)
		if !ok {
			return fmt.Sprintf("got %T, want a list", v.Interface())
		}
		if l.Len() != len(w.es) {
			return fmt.Sprintf("got %d elements, want %d", l.Len(), len(w.es))
		}
		for i, e := range w.es {
			if d := same(l.Get(i), e); d != "" {
				return fmt.Sprintf("element %d: %s", i, d)
			}
		}
		return ""
	case *mapv:
		m, ok := v.Interface().(protoreflect.Map)
		if !ok {
			return fmt.Sprintf("got %T, want a map", v.Interface())
		}
		if m.Len() != len(w.es) {
			return fmt.Sprintf("got %d entries, want %d", m.Len(), len(w.es))
		}
		for k, e := range w.es {
			if d := same(m.Get(protoreflect.ValueOf(k).MapKey()), e); d != "" {
				return fmt.Sprintf("entry %v: %s", k, d)
			}
		}
		return ""
	case byteString:
		b, ok := v.Interface().([]byte)
		if !ok || string(b) != w.s {
			return fmt.Sprintf("got %v, want bytes %q", v, w.s)
		}
		return ""
	case float64:
		f, ok := v.Interface().(float64)
		if !ok || math.Float64bits(f) != math.Float64bits(w) {
			return fmt.Sprintf("got %v, want %v", v, w)
		}
		return ""
	case float32:
		f, ok := v.Interface().(float32)
		if !ok || math.Float32bits(f) != math.Float32bits(w) {
			return fmt.Sprintf("got %v, want %v", v, w)
		}
		return ""
	}
	if v.Interface() != want {
		return fmt.Sprintf("got %T %v, want %T %v", v.Interface(), v, want, want)
	}
	return ""
}

// follow draws a path that goes along the message, now and then to a place
// that is unset, and rarely where there is nothing.
func follow(t *pbt.T, root *msg) []wp.Elem {
	var p []wp.Elem
	var cur interface{} = root
	for n := gen.Int(t.T, 1, 6, "steps"); n > 0; n-- {
		m, ok := cur.(*msg)
		if !ok {
			if !gen.OneIn(t.T, 6, "go on") {
				break
			}
			p = append(p, wp.Elem{Num: int32(gen.Int(t.T, 1, 12, "beyond"))})
			continue
		}
		if gen.OneIn(t.T, 10, "self") {
			e := wp.Elem{Self: true}
			if gen.OneIn(t.T, 4, "selfslot") {
				e.Slot = slot(t, nil)
			}
			p = append(p, e)
			continue
		}
		fds := m.d.Fields()
		fd := fds.Get(gen.Int(t.T, 0, fds.Len()-1, "field"))
		if len(m.f) > 0 && !gen.OneIn(t.T, 4, "unset") {
			var set []int
			for k := range m.f {
				set = append(set, int(k))
			}
			sort.Ints(set)
			fd = fds.ByNumber(protoreflect.FieldNumber(gen.Pick(t.T, "set", set...)))
		}
		e := wp.Elem{Num: int32(fd.Number()), Name: wp.Name(t.T, "name")}
		if gen.OneIn(t.T, 4, "knownname") {
			// The number says which field it is, whatever the name.
			e.Name = string(fds.Get(gen.Int(t.T, 0, fds.Len()-1, "namesake")).Name())
		}
		cur = get(m, fd)
		switch c := cur.(type) {
		case *list:
			if len(c.es) > 0 && !gen.OneIn(t.T, 5, "noslot") {
				i := gen.Int(t.T, 0, len(c.es)-1, "index")
				e.Slot, cur = wp.Offset(i), c.es[i]
			}
		case *mapv:
			if gen.OneIn(t.T, 6, "missing") {
				k := wp.KeyVal(t.T, c.d.MapKey().Kind(), "missing key")
				e.Slot = wp.Key{Kind: c.d.MapKey().Kind(), Val: k}
				if cur = c.es[k]; cur == nil {
					cur = missing{}
				}
			} else if len(c.es) > 0 && !gen.OneIn(t.T, 5, "noslot") {
				keys := make([]interface{}, 0, len(c.es))
				for k := range c.es {
					keys = append(keys, k)
				}
				sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
				k := gen.Pick(t.T, "key", keys...)
				e.Slot, cur = wp.Key{Kind: c.d.MapKey().Kind(), Val: k}, c.es[k]
			}
		}
		if gen.OneIn(t.T, 12, "bend") {
			switch gen.Int(t.T, 0, 3, "how") {
			case 0:
				e.Num = gen.Pick[int32](t.T, "nonum", 0, -1, 999, math.MaxInt32, math.MinInt32)
			case 1:
				e.Slot = nil
			default:
				e.Slot = slot(t, cur)
			}
		}
		p = append(p, e)
	}
	return p
}

func slot(t *pbt.T, cur interface{}) interface{} {
	if gen.Bool(t.T, "offset") {
		n := 0
		if l, ok := cur.(*list); ok {
			n = len(l.es)
		}
		return wp.Offset(gen.Pick(t.T, "offset", int64(n), int64(n)+1, 0, -1, 3, math.MaxInt64, math.MinInt64, 1<<32, 1<<31, -1<<32))
	}
	k := gen.Pick(t.T, "kind", wp.KeyKinds...)
	return wp.Key{Kind: k, Val: wp.KeyVal(t.T, k, "key")}
}

func text(m proto.Message) string {
	s := fmt.Sprint(m)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func encode(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(m)
	if err != nil {
		pbt.Infra("marshal: %v", err)
	}
	return string(b)
}

func TestEvaluation(t *testing.T) {
	pbt.Check(t, 120000, func(t *pbt.T) {
		within := newMessage(t)
		root := fill(t, within.ProtoReflect(), 3)
		var p []wp.Elem
		if gen.OneIn(t.T, 6, "free") {
			p = wp.Path(t.T, 4)
		} else {
			p = follow(t, root)
		}
		slots := false
		for _, e := range p {
			slots = slots || e.Slot != nil
		}
		t.Case(len(p) > 1 || slots, fmt.Sprintf("%s in %s{%s}", wp.Describe(p), within.ProtoReflect().Descriptor().FullName(), text(within)))
		wpb := wp.Proto(p)
		keepPath := proto.Clone(wpb)
		path, err := wirepath.FromProto(wpb)
		if err != nil {
			t.Fatalf("FromProto: %v", err)
		}
		before := encode(within)
		got, err := wirepath.GetValue(path, within)
		if encode(within) != before {
			t.Fatalf("evaluation changed the message")
		}
		if !proto.Equal(keepPath, wpb) {
			t.Fatalf("evaluation changed the path")
		}
		want, isErr, unsaid := eval(root, p)
		if _, ok := want.(missing); ok {
			t.Class("missing map key")
		} else if isErr {
			t.Class("error")
		} else {
			t.Class(strings.TrimPrefix(fmt.Sprintf("%T", want), "*c19."))
		}
		if err != nil {
			if err.Error() == "" {
				t.Fatalf("an error without a text")
			}
			if !isErr && !unsaid {
				t.Fatalf("error %v, want a value", err)
			}
			return
		}
		if isErr {
			if !unsaid {
				t.Fatalf("value %v, want an error", got)
			}
			return
		}
		if d := same(got, want); d != "" {
			t.Fatalf("%s", d)
		}
		// The same path, spelled out, is the same place.
		plain := true
		for _, e := range p {
			plain = plain && (e.Num > 0 || e.Self && e.Slot == nil)
			if o, ok := e.Slot.(wp.Offset); ok && o < 0 {
				plain = false
			}
		}
		if plain && !unsaid {
			if parsed, err := wirepath.ParseString(path.String()); err == nil {
				again, err := wirepath.GetValue(parsed, within)
				if err != nil {
					t.Fatalf("error for the path parsed from its text %q: %v", path, err)
				}
				if d := same(again, want); d != "" {
					t.Fatalf("path parsed from its text %q: %s", path, d)
				}
			}
		}
	})
}

// TestOddPaths evaluates path messages as they come off the wire, with unset
// parts, against messages of any kind: a value or an error, never a panic, and
// an unset element is SELF.
func TestOddPaths(t *testing.T) {
	pbt.Check(t, 40000, func(t *pbt.T) {
		within := newMessage(t)
		root := fill(t, within.ProtoReflect(), 2)
		p := follow(t, root)
		w := wp.Proto(p)
		model := append([]wp.Elem{}, p...)
		i := 0
		for c := w; c != nil; c = c.Child {
			if gen.OneIn(t.T, 4, "unset") || model[i].Self && gen.Bool(t.T, "unsetself") {
				switch gen.Int(t.T, 0, 1, "what") {
				case 0:
					c.Element = nil
				default:
					c.Element = &pb.WirePath_SpecialPath_{SpecialPath: pb.WirePath_SpecialPath(gen.Pick[int32](t.T, "special", 1, 0, 2, -1))}
				}
				model[i].Self = c.Element == nil || c.GetSpecialPath() == pb.WirePath_SELF
				model[i].Num = 0
			}
			i++
		}
		t.Case(len(p) > 1, fmt.Sprintf("%v in %s{%s}", w, within.ProtoReflect().Descriptor().FullName(), text(within)))
		path, err := wirepath.FromProto(w)
		if err != nil {
			return
		}
		_ = path.String()
		before := encode(within)
		got, err := wirepath.GetValue(path, within)
		if encode(within) != before {
			t.Fatalf("evaluation changed the message")
		}
		want, isErr, unsaid := eval(root, model)
		if unsaid {
			return
		}
		if (err != nil) != isErr {
			t.Fatalf("got %v, error %v; want an error: %v", got, err, isErr)
		}
		if err == nil {
			if d := same(got, want); d != "" {
				t.Fatalf("%s", d)
			}
		}
	})
}

// TestLarge evaluates paths into long lists, large maps and deep messages.
func TestLarge(t *testing.T) {
	pbt.Check(t, 60, func(t *pbt.T) {
		d := gen.Pick(t.T, "dynamic", dynamic...)
		m := dynamicpb.NewMessage(d)
		var at protoreflect.Message = m
		var p []wp.Elem
		var nest, lists, maps []protoreflect.FieldDescriptor
		for i := 0; i < d.Fields().Len(); i++ {
			switch fd := d.Fields().Get(i); {
			case fd.IsMap() && (fd.MapKey().Kind() == protoreflect.Int64Kind || fd.MapKey().Kind() == protoreflect.StringKind):
				maps = append(maps, fd)
			case fd.IsList() && fd.Kind() == protoreflect.Int64Kind:
				lists = append(lists, fd)
			case !fd.IsList() && !fd.IsMap() && fd.Message() != nil:
				nest = append(nest, fd)
			}
		}
		name := func(fd protoreflect.FieldDescriptor) string {
			if gen.Bool(t.T, "named") {
				return string(fd.Name())
			}
			return ""
		}
		for i, n := 0, gen.Pick(t.T, "depth", 0, 0, 1, 20, 65, 130, 300, 1100); i < n; i++ {
			fd := nest[i%len(nest)]
			at = at.Mutable(fd).Message()
			p = append(p, wp.Elem{Num: int32(fd.Number()), Name: name(fd)})
			if gen.OneIn(t.T, 9, "self") {
				p = append(p, wp.Elem{Self: true})
			}
		}
		size := gen.Pick(t.T, "size", 3, 129, 257, 1100, 33000, 65536, 65537, 70000)
		var want interface{}
		wantErr := false
		if gen.Bool(t.T, "list") {
			fd := gen.Pick(t.T, "lists", lists...)
			l := at.Mutable(fd).List()
			for i := 0; i < size; i++ {
				l.Append(protoreflect.ValueOfInt64(int64(i)*3 + 1))
			}
			i := gen.Pick(t.T, "index", 0, 1, 2, size-1, size-2, size/2, size, size+1, size+65536, size+1<<32, 1<<32, 1<<16)
			p = append(p, wp.Elem{Num: int32(fd.Number()), Name: name(fd), Slot: wp.Offset(i)})
			want, wantErr = int64(i)*3+1, i >= size
		} else {
			fd := gen.Pick(t.T, "maps", maps...)
			mv := at.Mutable(fd).Map()
			size = min(size, 3000)
			key := func(i int) interface{} {
				if fd.MapKey().Kind() == protoreflect.StringKind {
					return fmt.Sprintf("key%d", i)
				}
				return int64(i) << 31
			}
			i := gen.Int(t.T, 0, size-1, "key")
			for j := 0; j < size; j++ {
				v := mv.NewValue()
				switch fd.MapValue().Kind() {
				case protoreflect.StringKind:
					v = protoreflect.ValueOfString(fmt.Sprint(j))
					want = fmt.Sprint(i)
				case protoreflect.MessageKind:
					f := v.Message().Descriptor().Fields().ByName("f4")
					for k := 0; k < v.Message().Descriptor().Fields().Len(); k++ {
						if x := v.Message().Descriptor().Fields().Get(k); x.Kind() == protoreflect.Int64Kind && !x.IsList() && !x.IsMap() {
							f = x
						}
					}
					v.Message().Set(f, protoreflect.ValueOfInt64(int64(j)+5))
					want = f
				default:
					want = protoreflect.EnumNumber(i % 2 * 7)
					v = protoreflect.ValueOfEnum(protoreflect.EnumNumber(j % 2 * 7))
				}
				mv.Set(protoreflect.ValueOf(key(j)).MapKey(), v)
			}
			p = append(p, wp.Elem{Num: int32(fd.Number()), Name: name(fd), Slot: wp.Key{Kind: fd.MapKey().Kind(), Val: key(i)}})
			if f, ok := want.(protoreflect.FieldDescriptor); ok {
				p = append(p, wp.Elem{Num: int32(f.Number()), Name: name(f)})
				want = int64(i) + 5
			}
		}
		t.Case(true, fmt.Sprintf("%d elements, %d values: ... %s", len(p), size, wp.Describe(p[len(p)-1:])))
		path, err := wirepath.FromProto(wp.Proto(p))
		if err != nil {
			t.Fatalf("FromProto: %v", err)
		}
		got, err := wirepath.GetValue(path, m)
		if wantErr {
			if err == nil {
				t.Fatalf("value %v, want an error", got)
			}
			return
		}
		if err != nil {
			t.Fatalf("error %v, want %v", err, want)
		}
		if got.Interface() != want {
			t.Fatalf("value %v, want %v", got, want)
		}
	})
}
