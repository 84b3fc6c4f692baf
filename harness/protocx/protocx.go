// Package protocx runs the protobuf compiler on generated files and looks
// messages up in what it reports.
package protocx

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
)

// Compile writes the files below a new directory in parent and compiles all of
// them in one protoc run. On failure the text of protoc's complaints is
// returned.
func Compile(parent string, files map[string]string) (*descriptorpb.FileDescriptorSet, string) {
	dir, err := os.MkdirTemp(parent, "protoc")
	if err != nil {
		return nil, "HARNESS: " + err.Error()
	}
	defer os.RemoveAll(dir)
	var names []string
	for n, text := range files {
		if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0o755); err != nil {
			return nil, "HARNESS: " + err.Error()
		}
		if err := os.WriteFile(filepath.Join(dir, n), []byte(text), 0o644); err != nil {
			return nil, "HARNESS: " + err.Error()
		}
		names = append(names, n)
	}
	sort.Strings(names)
	out := filepath.Join(dir, "set.bin")
	cmd := exec.Command("protoc", append([]string{"-I" + dir, "--include_source_info", "--include_imports", "--descriptor_set_out=" + out}, names...)...)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	if err := cmd.Run(); err != nil {
		if stderr.Len() == 0 {
			return nil, "HARNESS: protoc: " + err.Error()
		}
		return nil, stderr.String()
	}
	data, err := os.ReadFile(out)
	if err != nil {
		return nil, "HARNESS: " + err.Error()
	}
	set := &descriptorpb.FileDescriptorSet{}
	if err := proto.Unmarshal(data, set); err != nil {
		return nil, "HARNESS: " + err.Error()
	}
	return set, ""
}

// File returns the descriptor of the named file.
func File(set *descriptorpb.FileDescriptorSet, name string) *descriptorpb.FileDescriptorProto {
	for _, f := range set.File {
		if f.GetName() == name {
			return f
		}
	}
	return nil
}

var scalars = map[descriptorpb.FieldDescriptorProto_Type]string{
	descriptorpb.FieldDescriptorProto_TYPE_DOUBLE: "double", descriptorpb.FieldDescriptorProto_TYPE_FLOAT: "float",
	descriptorpb.FieldDescriptorProto_TYPE_INT64: "int64", descriptorpb.FieldDescriptorProto_TYPE_UINT64: "uint64",
	descriptorpb.FieldDescriptorProto_TYPE_INT32: "int32", descriptorpb.FieldDescriptorProto_TYPE_FIXED64: "fixed64",
	descriptorpb.FieldDescriptorProto_TYPE_FIXED32: "fixed32", descriptorpb.FieldDescriptorProto_TYPE_BOOL: "bool",
	descriptorpb.FieldDescriptorProto_TYPE_STRING: "string", descriptorpb.FieldDescriptorProto_TYPE_BYTES: "bytes",
	descriptorpb.FieldDescriptorProto_TYPE_UINT32: "uint32", descriptorpb.FieldDescriptorProto_TYPE_SFIXED32: "sfixed32",
	descriptorpb.FieldDescriptorProto_TYPE_SFIXED64: "sfixed64", descriptorpb.FieldDescriptorProto_TYPE_SINT32: "sint32",
	descriptorpb.FieldDescriptorProto_TYPE_SINT64: "sint64",
}

// TypeName is the type of a field as one writes it in a .proto file: a scalar
// name or the full name of a message.
func TypeName(f *descriptorpb.FieldDescriptorProto) string {
	if s, ok := scalars[f.GetType()]; ok {
		return s
	}
	return strings.TrimPrefix(f.GetTypeName(), ".")
}

// Comment returns the leading comment of field i of the first message of the
// file.
func Comment(f *descriptorpb.FileDescriptorProto, i int) string {
	for _, l := range f.GetSourceCodeInfo().GetLocation() {
		p := l.GetPath()
		if len(p) == 4 && p[0] == 4 && p[1] == 0 && p[2] == 2 && int(p[3]) == i {
			return l.GetLeadingComments()
		}
	}
	return ""
}
