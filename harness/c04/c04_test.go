package c04

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/google/xtoproto/csvtoproto"
	pb "github.com/google/xtoproto/proto/recordtoproto"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/protocx"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "batches of 1..30 random mappings (scalar and message types, odd but legal names, tags up to the limit, arbitrary column names and comments, ignored columns full of rubbish, extra fields, overlapping imports), each batch compiled by one protoc run and compared through the descriptors; every batch and every mapping counts as an evaluation; non-trivial: one with a comment or column name that holds a line break, quote, comment mark or more than 80 characters; distinct by mapping")
}

type typ struct{ name, imp string }

var scalars = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "bool", "string", "bytes"}

var messages = []typ{
	{"google.protobuf.Timestamp", "google/protobuf/timestamp.proto"}, {"google.protobuf.Duration", "google/protobuf/duration.proto"},
	{"google.protobuf.Any", "google/protobuf/any.proto"}, {"google.protobuf.Struct", "google/protobuf/struct.proto"},
	{"google.protobuf.NullValue", "google/protobuf/struct.proto"}, {"google.protobuf.Int32Value", "google/protobuf/wrappers.proto"},
	{"depq.Thing", "dep/types.proto"}, {"depq.Color", "dep/types.proto"},
	{"depR.Thing", "dep/Types.proto"}, {"deps.Thing", " dep/spaced  name.proto "}, {"depu.Thing", "dep/ünï.proto"}, {"depv.Thing", "dep/it's_#1%20;.proto"},
}

// The files that mappings may import; all but the well-known ones hold a Thing.
func deps() map[string]string {
	files := map[string]string{"dep/types.proto": depProto}
	for _, m := range messages {
		if p, ok := strings.CutSuffix(m.name, ".Thing"); ok && p != "depq" {
			files[m.imp] = fmt.Sprintf("syntax = \"proto3\";\npackage %s;\nmessage Thing {}\n", p)
		}
	}
	return files
}

const depProto = "syntax = \"proto3\";\npackage depq;\nmessage Thing {}\nenum Color { RED = 0; }\n"

func drawType(t *pbt.T) (string, []string) {
	if gen.OneIn(t.T, 3, "msgtype") {
		m := gen.Pick(t.T, "mtype", messages...)
		imps := []string{m.imp}
		if gen.OneIn(t.T, 3, "twice") {
			imps = append(imps, m.imp)
		}
		return m.name, imps
	}
	ty := gen.Pick(t.T, "stype", scalars...)
	if gen.OneIn(t.T, 6, "unneeded") {
		var imps []string
		for n := gen.Int(t.T, 1, 3, "nimps"); n > 0; n-- {
			imps = append(imps, gen.Pick(t.T, "imp", messages...).imp)
		}
		return ty, imps
	}
	return ty, nil
}

func comment(t *pbt.T) string {
	if gen.OneIn(t.T, 900, "hugecomment") {
		return strings.Repeat(gen.Pick(t.T, "hugeunit", "word ", "w", "a b\n", "*/ "), gen.Pick(t.T, "hugetimes", 300, 1100, 1700, 4000)) + "end"
	}
	switch gen.Int(t.T, 0, 7, "comment") {
	case 7: // many lines
		var b strings.Builder
		odd := gen.Pick(t.T, "oddline", "*/", "/*", "// x", "}", "\"", "", "x", "message M {")
		n := gen.Pick(t.T, "lines", 11, 25, 60, 120)
		at := gen.Int(t.T, 0, n-1, "at")
		line := gen.Pick(t.T, "line", "line", "some words and more", "  indented", "")
		for i := 0; i < n; i++ {
			if i == at {
				b.WriteString(odd)
			} else {
				b.WriteString(line)
			}
			b.WriteString("\n")
		}
		return b.String()
	case 0:
		return ""
	case 1:
		return gen.Pick(t.T, "odd", "*/", "/* x", "// y", "\n", "a\n\nb", "\n\na", "a\n", " ", "a\r\nb", "a\rb", "}", "\x00", "x\x00y", "\\", "\\n", "a\tb", "# %d %s", strings.Repeat("w", 200),
			strings.Repeat("word ", 60), "  indented\n    more", "a\u2028b", "\ufeff")
	case 2:
		return gen.Text(t.T, 120, "long")
	case 3:
		var b strings.Builder
		for i, n := 0, gen.Int(t.T, 1, 40, "words"); i < n; i++ {
			b.WriteString(strings.Repeat(gen.Pick(t.T, "ch", "a", "é", "x1", "日"), gen.Int(t.T, 1, 12, "wl")))
			b.WriteString(gen.Pick(t.T, "ws", " ", " ", " ", "  ", "\n", "\n\n", "\t"))
		}
		return b.String()
	}
	return gen.Text(t.T, 20, "short")
}

func fieldName(t *pbt.T, used map[string]bool) string {
	for i := 0; ; i++ {
		var n string
		switch gen.Int(t.T, 0, 3, "fname") {
		case 0:
			n = gen.Pick(t.T, "odd", "message", "string", "import", "option", "reserved", "repeated", "package", "syntax", "to", "max", "true", "inf", "A", "camelCase", "UPPER_CASE",
				"x__y", "trailing_", "_leading", "a1", "a_1b", "google", "rpc", "returns", "enum", "oneof", "map", "bool", "int32", "stream", "extensions", "optional", "group", "service", "weak", "public", "nan")
		case 1:
			n = gen.Ident(t.T, "f") + strconv.Itoa(i)
		default:
			n = gen.Ident(t.T, "f")
		}
		k := strings.ToLower(strings.ReplaceAll(n, "_", ""))
		if !used[k] {
			used[k] = true
			return n
		}
	}
}

func tag(t *pbt.T, used map[int32]bool) int32 {
	for {
		var n int
		switch gen.Int(t.T, 0, 4, "tagkind") {
		case 0:
			n = gen.Pick(t.T, "tagedge", 1, 15, 16, 18999, 20000, 536870911, 536870910, 2047, 2048)
		case 1:
			n = gen.Int(t.T, 1, 536870911, "tagany")
		default:
			n = gen.Int(t.T, 1, 60, "tag")
		}
		if n >= 19000 && n <= 19999 || used[int32(n)] {
			continue
		}
		used[int32(n)] = true
		return int32(n)
	}
}

type wantField struct {
	name, typ string
	tag       int32
	comment   string
	colName   string // "" with isCol false
	isCol     bool
}

func mapping(t *pbt.T, i int) (*pb.RecordProtoMapping, []wantField, []string) {
	m := &pb.RecordProtoMapping{}
	pkg := gen.Pick(t.T, "pkg", "", "", fmt.Sprintf("p%d", i), fmt.Sprintf("p%d.q.r_s", i), fmt.Sprintf("P%d.message.string", i), fmt.Sprintf("_p%d", i))
	m.PackageName = pkg
	m.MessageName = gen.Pick(t.T, "msg", "M", "Record", "my_message", "lower", "Timestamp", "X1", "_M", "A_b")
	if pkg == "" {
		m.MessageName += fmt.Sprintf("%dx", i)
	}
	names, tags := map[string]bool{}, map[int32]bool{}
	var want []wantField
	imps := map[string]bool{}
	n := gen.Int(t.T, 0, 6, "cols")
	if gen.OneIn(t.T, 200, "manycols") {
		n = gen.Pick(t.T, "howmany", 40, 101, 130, 260)
	}
	for j := 0; j < n; j++ {
		c := &pb.ColumnToFieldMapping{ColName: gen.Text(t.T, 14, "col"), ColumnIndex: int32(gen.Int(t.T, 0, 9, "idx"))}
		if gen.OneIn(t.T, 12, "longcol") {
			c.ColName = strings.Repeat(gen.Pick(t.T, "lc", "long ", "x"), 40)
		}
		if gen.OneIn(t.T, 4, "ignored") {
			// Whatever an ignored column holds contributes nothing.
			c.Ignored = true
			c.Comment = comment(t)
			c.ProtoName = gen.Pick(t.T, "iname", "", "bad name", "1", "dup", "ok")
			c.ProtoType = gen.Pick(t.T, "itype", "", "nonsense type", "int32", "google.protobuf.Timestamp")
			c.ProtoTag = int32(gen.Pick(t.T, "itag", 0, -1, 1, 19500))
			if gen.Bool(t.T, "iimp") {
				c.ProtoImports = []string{gen.Pick(t.T, "iimport", "no/such.proto", "google/protobuf/api.proto")}
			}
			m.ColumnToFieldMappings = append(m.ColumnToFieldMappings, c)
			continue
		}
		c.Comment = comment(t)
		c.ProtoName = fieldName(t, names)
		c.ProtoTag = tag(t, tags)
		c.ProtoType, c.ProtoImports = drawType(t)
		switch c.ProtoType {
		case "google.protobuf.Timestamp":
			c.ParsingInfo = &pb.ColumnToFieldMapping_TimeFormat{TimeFormat: &pb.TimeFormat{GoLayout: "2006-01-02"}}
		case "google.protobuf.Duration":
			c.ParsingInfo = &pb.ColumnToFieldMapping_DurationFormat{DurationFormat: &pb.DurationFormat{GoUnitSuffix: "s"}}
		}
		for _, p := range c.ProtoImports {
			imps[p] = true
		}
		m.ColumnToFieldMappings = append(m.ColumnToFieldMappings, c)
		want = append(want, wantField{c.ProtoName, c.ProtoType, c.ProtoTag, c.Comment, c.ColName, true})
	}
	for j, k := 0, gen.Int(t.T, 0, 3, "extras"); j < k; j++ {
		d := &pb.FieldDefinition{ProtoName: fieldName(t, names), ProtoTag: tag(t, tags), Comment: comment(t)}
		d.ProtoType, d.ProtoImports = drawType(t)
		for _, p := range d.ProtoImports {
			imps[p] = true
		}
		m.ExtraFieldDefinitions = append(m.ExtraFieldDefinitions, d)
		want = append(want, wantField{d.ProtoName, d.ProtoType, d.ProtoTag, d.Comment, "", false})
	}
	if gen.Bool(t.T, "goopts") {
		m.GoOptions = &pb.GoOptions{GoPackageName: "x", ProtoImport: "y/z"}
	}
	var sorted []string
	for p := range imps {
		sorted = append(sorted, p)
	}
	sort.Strings(sorted)
	return m, want, sorted
}

// checkComment compares the comment protoc found with the text it should hold.
// Line breaks of the text are kept; others may be put in at white space; white
// space at line ends does not count, and NUL characters cannot be kept.
func checkComment(got string, w wantField) string {
	nul := func(s string) string { return strings.ReplaceAll(s, "\x00", "\ufffd") }
	if w.comment == "" && !w.isCol {
		if got != "" {
			return fmt.Sprintf("comment %q, want none", got)
		}
		return ""
	}
	lines := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
	next := 0
	if w.comment != "" {
		for _, l := range strings.Split(nul(w.comment), "\n") {
			words := strings.Fields(l)
			var have []string
			for first := true; first || len(have) < len(words); first = false {
				if next >= len(lines) {
					return fmt.Sprintf("comment %q ends before line %q of %q", got, l, w.comment)
				}
				more := strings.Fields(lines[next])
				if !first && len(more) == 0 {
					// A blank line in the middle of a line is tolerated.
					next++
					continue
				}
				have = append(have, more...)
				next++
			}
			if strings.Join(have, "\x00") != strings.Join(words, "\x00") {
				return fmt.Sprintf("comment %q: line %q of %q is given as %q", got, l, w.comment, have)
			}
		}
	}
	if w.isCol {
		q := strings.Join(strings.Fields(nul(strconv.Quote(w.colName))), "\x00")
		if rest := strings.Join(strings.Fields(strings.Join(lines[next:], "\n")), "\x00"); !strings.Contains(rest, q) {
			return fmt.Sprintf("comment %q does not name the column %q after the comment", got, w.colName)
		}
	} else if next != len(lines) {
		return fmt.Sprintf("comment %q goes on after %q", got, w.comment)
	}
	return ""
}

func odd(s string) bool {
	return len(s) > 78 || strings.ContainsAny(s, "\n\"\\/*\x00\r")
}

func TestProto(t *testing.T) {
	pbt.Check(t, 350, func(t *pbt.T) {
		n := gen.Int(t.T, 1, 30, "mappings")
		files := deps()
		var ms []*pb.RecordProtoMapping
		var wants [][]wantField
		var imports [][]string
		var desc []string
		nontrivial := false
		for i := 0; i < n; i++ {
			m, w, imps := mapping(t, i)
			ms, wants, imports = append(ms, m), append(wants, w), append(imports, imps)
			b, _ := prototext.MarshalOptions{}.Marshal(m)
			desc = append(desc, string(b))
			one := false
			for _, f := range w {
				one = one || odd(f.comment) || odd(f.colName)
			}
			t.Sub(one, string(b))
			nontrivial = nontrivial || one
		}
		t.Case(nontrivial, strings.Join(desc, "\n"))
		for i, m := range ms {
			before := proto.Clone(m)
			code, goCode, err := csvtoproto.GenerateCode(m, true, false)
			if err != nil || goCode != "" {
				t.Fatalf("GenerateCode(%v, true, false): %v, Go code %q", m, err, goCode)
			}
			if !proto.Equal(before, m) {
				t.Fatalf("GenerateCode changed the mapping: %v, was %v", m, before)
			}
			files[fmt.Sprintf("f%d.proto", i)] = code
		}
		set, complaint := protocx.Compile(pbt.Scratch("c04"), files)
		if strings.HasPrefix(complaint, "HARNESS") {
			pbt.Infra("%s", complaint)
		}
		if set == nil {
			t.Fatalf("the .proto is not valid: %s\n%q", complaint, files)
		}
		for i, m := range ms {
			f := protocx.File(set, fmt.Sprintf("f%d.proto", i))
			checkFile(t, f, m, wants[i], imports[i])
		}
	})
}

func checkFile(t *pbt.T, f *descriptorpb.FileDescriptorProto, m *pb.RecordProtoMapping, want []wantField, imports []string) {
	if f.GetSyntax() != "proto3" || f.GetPackage() != m.GetPackageName() {
		t.Fatalf("syntax %q, package %q for %v", f.GetSyntax(), f.GetPackage(), m)
	}
	if strings.Join(f.GetDependency(), " ") != strings.Join(imports, " ") || len(f.GetPublicDependency())+len(f.GetWeakDependency()) != 0 {
		t.Fatalf("imports %q, want %q, for %v", f.GetDependency(), imports, m)
	}
	if len(f.GetMessageType()) != 1 || len(f.GetEnumType())+len(f.GetService())+len(f.GetExtension()) != 0 || f.GetMessageType()[0].GetName() != m.GetMessageName() {
		t.Fatalf("declares %v, want message %s", f, m.GetMessageName())
	}
	d := f.GetMessageType()[0]
	if len(d.GetNestedType())+len(d.GetEnumType())+len(d.GetOneofDecl())+len(d.GetReservedName())+len(d.GetReservedRange())+len(d.GetExtensionRange()) != 0 || len(d.GetField()) != len(want) {
		t.Fatalf("message %v, want fields %v", d, want)
	}
	for j, w := range want {
		g := d.GetField()[j]
		if g.GetName() != w.name || g.GetNumber() != w.tag || protocx.TypeName(g) != w.typ || g.GetLabel() != descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL || g.GetProto3Optional() {
			t.Fatalf("field %d is %v, want %s %s = %d", j, g, w.typ, w.name, w.tag)
		}
		if c := checkComment(protocx.Comment(f, j), w); c != "" {
			t.Fatalf("field %s: %s", w.name, c)
		}
		if w.typ == "google.protobuf.Timestamp" {
			t.Class("timestamp")
		}
	}
	t.Class("files")
}

// TestFlags: GenerateCode gives what is asked for and nothing else, each
// output the same whether or not the other is asked for.
func TestFlags(t *testing.T) {
	pbt.Check(t, 1500, func(t *pbt.T) {
		m, _, _ := mapping(t, 0)
		goPossible := true
		switch gen.Int(t.T, 0, 3, "go") {
		case 0:
			m.GoOptions, goPossible = nil, false
		case 1:
			m.GoOptions, goPossible = &pb.GoOptions{ProtoImport: "a/b"}, false
		default:
			m.GoOptions = &pb.GoOptions{GoPackageName: "x", ProtoImport: "y/z"}
		}
		for _, c := range m.ColumnToFieldMappings {
			if c.Ignored {
				continue
			}
			switch c.ProtoType {
			case "int32", "int64", "float", "double", "string", "google.protobuf.Timestamp", "google.protobuf.Duration":
			default:
				goPossible = false
			}
		}
		b, _ := prototext.MarshalOptions{}.Marshal(m)
		t.Case(true, string(b))
		before := proto.Clone(m)
		p1, g1, err1 := csvtoproto.GenerateCode(m, true, false)
		p2, g2, err2 := csvtoproto.GenerateCode(m, false, true)
		p3, g3, err3 := csvtoproto.GenerateCode(m, true, true)
		p4, g4, err4 := csvtoproto.GenerateCode(m, false, false)
		if !proto.Equal(before, m) {
			t.Fatalf("GenerateCode changed the mapping: %v", m)
		}
		if err1 != nil || g1 != "" || p1 == "" {
			t.Fatalf("proto only: %q %q %v", p1, g1, err1)
		}
		if err4 != nil || p4+g4 != "" {
			t.Fatalf("neither: %q %q %v", p4, g4, err4)
		}
		if (err2 == nil) != goPossible || (err3 == nil) != goPossible {
			t.Fatalf("Go code: %v and %v, want ok=%v", err2, err3, goPossible)
		}
		if p2 != "" || !goPossible && p3+g2+g3 != "" {
			t.Fatalf("unrequested output, or output with an error: %q %q %q", p2, g2, p3)
		}
		if goPossible {
			t.Class("go possible")
			if p3 != p1 || g3 != g2 || g2 == "" {
				t.Fatalf("the outputs depend on which are asked for")
			}
		}
	})
}

func TestRegressions(t *testing.T) {
	compile := func(m *pb.RecordProtoMapping) string {
		code, _, err := csvtoproto.GenerateCode(m, true, false)
		if err != nil {
			return err.Error()
		}
		if set, c := protocx.Compile(pbt.Scratch("c04"), map[string]string{"f.proto": code}); set == nil {
			return c
		}
		return ""
	}
	pbt.Regression(t, "no-package", func() string { return compile(&pb.RecordProtoMapping{MessageName: "M"}) })
	pbt.Regression(t, "nul-in-comment", func() string {
		return compile(&pb.RecordProtoMapping{MessageName: "M", PackageName: "p", ExtraFieldDefinitions: []*pb.FieldDefinition{{ProtoName: "a", ProtoType: "int32", ProtoTag: 1, Comment: "a\x00b"}}})
	})
}
