package c02

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/google/xtoproto/csvinfer"
	pb "github.com/google/xtoproto/proto/recordtoproto"
	"github.com/google/xtoproto/recordinfer"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/protocx"
	"github.com/google/xtoproto/verifharness/tab"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "random tables (integer, float, time, near-integer, near-time, digit, text and mixed columns under arbitrary column names) x zones x options; non-trivial: a column that is not text, or at least two columns; distinct by table and options")
}

func infer(rows [][]string, o *recordinfer.Options) (*recordinfer.InferredProto, error) {
	b := recordinfer.NewRecordBasedInferrer(o)
	for i, r := range rows {
		if err := b.AddRow(r); err != nil {
			return nil, err
		}
		if i == 1 && len(rows)%4 == 3 || i == len(rows)-2 && len(rows)%7 == 5 {
			// What is built in between must not show in the result.
			if ip, err := b.Build(); err == nil {
				ip.Mapping()
				ip.Code()
			}
		}
	}
	if len(rows)%5 == 0 {
		b.Build()
	}
	return b.Build()
}

func options(t *pbt.T) (*recordinfer.Options, string) {
	o := &recordinfer.Options{MessageName: gen.Pick(t.T, "msg", "Record", "M", "my_message", "Foo2"), TimestampLocation: tab.Location(t.T)}
	if !gen.OneIn(t.T, 4, "nopkg") {
		o.PackageName = gen.Pick(t.T, "pkg", "a", "a.b", "x1.y_z")
	}
	if gen.Bool(t.T, "gopkg") {
		o.GoPackageName = gen.Ident(t.T, "gopkgname")
	}
	if gen.Bool(t.T, "goimport") {
		o.GoProtoImport = gen.Pick(t.T, "import", "example.com/x", "a/b/c")
	}
	return o, fmt.Sprintf("msg=%s pkg=%q go=%q import=%q loc=%v", o.MessageName, o.PackageName, o.GoPackageName, o.GoProtoImport, o.TimestampLocation)
}

var fieldRE = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*$`)
var plainRE = regexp.MustCompile(`^[a-z]+([ _()]+[a-z]+)*$`)
var sepRE = regexp.MustCompile(`[ _()]+`)

func TestInfer(t *testing.T) {
	pbt.Check(t, 10000, func(t *pbt.T) {
		o, odesc := options(t)
		rows := tab.Table(t.T, 5, 14, o.TimestampLocation)
		if gen.OneIn(t.T, 80, "long") {
			rows = tab.Stretch(t.T, rows)
			t.Class("long")
		} else if gen.OneIn(t.T, 80, "wide") {
			rows = tab.Wide(t.T)
			t.Class("wide")
		} else if gen.OneIn(t.T, 40, "longtexts") {
			rows = tab.Long(t.T, rows)
			t.Class("long texts")
		}
		types := make([]string, len(rows[0]))
		interesting := len(types) > 1
		for i := range types {
			types[i] = tab.Type(tab.Values(rows, i), o.TimestampLocation)
			t.Class(types[i])
			interesting = interesting || types[i] != "string"
		}
		t.Case(interesting, fmt.Sprintf("%s rows=%q", odesc, rows))
		res, err := infer(rows, o)
		if err != nil {
			t.Fatalf("inference failed: %v", err)
		}
		m := res.Mapping()
		if m.GetPackageName() != o.PackageName || m.GetMessageName() != o.MessageName || len(m.ExtraFieldDefinitions) != 0 ||
			m.GetGoOptions().GetGoPackageName() != o.GoPackageName || m.GetGoOptions().GetProtoImport() != o.GoProtoImport {
			t.Fatalf("the mapping does not carry the options: %v", m)
		}
		if len(m.GetColumnToFieldMappings()) != len(types) {
			t.Fatalf("%d columns mapped, want %d", len(m.GetColumnToFieldMappings()), len(types))
		}
		names := map[string]int{}
		for i, c := range m.GetColumnToFieldMappings() {
			vs := tab.Values(rows, i)
			if c.GetColName() != rows[0][i] || int(c.GetColumnIndex()) != i || int(c.GetProtoTag()) != i+1 || c.GetIgnored() {
				t.Fatalf("column %d (%q): name %q, index %d, tag %d, ignored %v", i, rows[0][i], c.GetColName(), c.GetColumnIndex(), c.GetProtoTag(), c.GetIgnored())
			}
			if c.GetProtoType() != types[i] {
				t.Fatalf("column %d: type %s, want %s for %q", i, c.GetProtoType(), types[i], vs)
			}
			if types[i] == "google.protobuf.Timestamp" {
				f := c.GetTimeFormat()
				known := false
				for _, l := range tab.Layouts {
					known = known || l == f.GetGoLayout()
				}
				if f == nil || !known || !tab.LayoutFits(f.GetGoLayout(), vs, o.TimestampLocation) {
					t.Fatalf("column %d: time format %v does not parse every value of %q", i, f, vs)
				}
				zone := ""
				if o.TimestampLocation != nil {
					zone = o.TimestampLocation.String()
				}
				if f.GetTimeZoneName() != zone {
					t.Fatalf("column %d: zone %q, want %q", i, f.GetTimeZoneName(), zone)
				}
				if strings.Join(c.GetProtoImports(), " ") != "google/protobuf/timestamp.proto" {
					t.Fatalf("column %d: imports %q", i, c.GetProtoImports())
				}
				t.Class("layout " + f.GetGoLayout())
			} else if c.GetParsingInfo() != nil || len(c.GetProtoImports()) != 0 {
				t.Fatalf("column %d of type %s has imports %q and format %v", i, types[i], c.GetProtoImports(), c.GetParsingInfo())
			}
			if !fieldRE.MatchString(c.GetProtoName()) {
				t.Fatalf("column %d: field name %q is not an identifier", i, c.GetProtoName())
			}
			if j, dup := names[jsonKey(c.GetProtoName())]; dup {
				t.Fatalf("columns %d and %d get conflicting field names (%q)", j, i, c.GetProtoName())
			}
			names[jsonKey(c.GetProtoName())] = i
			checkComment(t, c.GetComment(), vs)
		}
		for i, c := range m.GetColumnToFieldMappings() {
			// A name made of words gives those words, unless another column's does too.
			if h := rows[0][i]; plainRE.MatchString(h) {
				want := sepRE.ReplaceAllString(h, "_")
				clash := false
				for j, o := range rows[0] {
					clash = clash || j != i && jsonKey(alnum(o)) == jsonKey(want)
				}
				if !clash && c.GetProtoName() != want {
					t.Fatalf("column %q becomes field %q, want %q", h, c.GetProtoName(), want)
				}
			}
		}
		// The result is a function of the input.
		again, err := infer(rows, o)
		if err != nil || !proto.Equal(again.Mapping(), m) || again.Code() != res.Code() {
			t.Fatalf("a second inference differs: %v\n%v\n%v", err, again.Mapping(), m)
		}
		if !proto.Equal(res.Mapping(), m) {
			t.Fatalf("a second Mapping() differs: %v\n%v", res.Mapping(), m)
		}
		// The text form is the mapping merged over the template.
		template := template(t)
		before := proto.Clone(template)
		want := proto.Clone(template)
		proto.Merge(want, m)
		text := res.FormattedMapping(template)
		got := &pb.RecordProtoMapping{}
		if err := prototext.Unmarshal([]byte(text), got); err != nil {
			t.Fatalf("FormattedMapping is no text proto: %v\n%s", err, text)
		}
		if !proto.Equal(got, want) {
			t.Fatalf("FormattedMapping reads as %v, want %v", got, want)
		}
		if !proto.Equal(before, template) || !proto.Equal(res.Mapping(), m) {
			t.Fatalf("FormattedMapping changed its template or the result")
		}
	})
}

func template(t *pbt.T) *pb.RecordProtoMapping {
	m := &pb.RecordProtoMapping{}
	if gen.Bool(t.T, "tpkg") {
		m.PackageName = "tpkg"
	}
	if gen.Bool(t.T, "tgo") {
		m.GoOptions = &pb.GoOptions{GoPackageName: "tgo", ProtoImport: "t/go"}
	}
	if gen.OneIn(t.T, 3, "tcol") {
		m.ColumnToFieldMappings = append(m.ColumnToFieldMappings, &pb.ColumnToFieldMapping{ColName: "template", ProtoName: "t", ProtoTag: 77, ProtoType: "string"})
	}
	if gen.OneIn(t.T, 3, "textra") {
		m.ExtraFieldDefinitions = append(m.ExtraFieldDefinitions, &pb.FieldDefinition{ProtoName: "extra", ProtoType: "string", ProtoTag: 99})
	}
	return m
}

func jsonKey(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

func alnum(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return -1
	}, s)
}

var commentRE = regexp.MustCompile(`(?s)^Field type inferred from (\d+) unique values in (\d+) rows; (\d+) most common: (.*)$`)

// checkComment reads the statistical comment back and compares it with the values.
func checkComment(t *pbt.T, comment string, vs []string) {
	counts := map[string]int{}
	for _, v := range vs {
		counts[v]++
	}
	var top []int
	for _, n := range counts {
		top = append(top, n)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(top)))
	if len(top) > 5 {
		top = top[:5]
	}
	m := commentRE.FindStringSubmatch(comment)
	if m == nil {
		t.Fatalf("comment %q does not say what it should", comment)
	}
	if m[1] != strconv.Itoa(len(counts)) || m[2] != strconv.Itoa(len(vs)) || m[3] != strconv.Itoa(len(top)) {
		t.Fatalf("comment %q; want %d unique values, %d rows, %d shown", comment, len(counts), len(vs), len(top))
	}
	rest := m[4]
	seen := map[string]bool{}
	for i, n := range top {
		if i > 0 {
			if !strings.HasPrefix(rest, "; ") {
				t.Fatalf("comment %q: want %d values", comment, len(top))
			}
			rest = rest[2:]
		}
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			t.Fatalf("comment %q: no quoted value at %q", comment, rest)
		}
		v, _ := strconv.Unquote(q)
		rest = rest[len(q):]
		tail := fmt.Sprintf(" (%d)", n)
		if counts[v] != n || seen[v] || !strings.HasPrefix(rest, tail) {
			t.Fatalf("comment %q: value %q occurs %d times; shown value %d should occur %d times", comment, v, counts[v], i, n)
		}
		seen[v] = true
		rest = rest[len(tail):]
	}
	if rest != "" {
		t.Fatalf("comment %q goes on after the last value: %q", comment, rest)
	}
}

// TestCode gives Code() of many inferences to the protobuf compiler at once.
func TestCode(t *testing.T) {
	pbt.Check(t, 40, func(t *pbt.T) {
		n := gen.Int(t.T, 1, 25, "files")
		files := map[string]string{}
		var maps []*pb.RecordProtoMapping
		var descs []string
		for i := 0; i < n; i++ {
			o, odesc := options(t)
			if o.PackageName == "" {
				o.MessageName = fmt.Sprintf("%s%d", o.MessageName, i)
			} else {
				o.PackageName += fmt.Sprintf(".p%d", i)
			}
			rows := tab.Table(t.T, 8, 2, o.TimestampLocation)
			res, err := infer(rows, o)
			if err != nil {
				t.Fatalf("inference failed: %v for %q", err, rows)
			}
			descs = append(descs, fmt.Sprintf("%s %q", odesc, rows[0]))
			files[fmt.Sprintf("f%d.proto", i)] = res.Code()
			maps = append(maps, res.Mapping())
		}
		t.Case(true, strings.Join(descs, "\n"))
		set, complaint := protocx.Compile(pbt.Scratch("c02"), files)
		if strings.HasPrefix(complaint, "HARNESS") {
			pbt.Infra("%s", complaint)
		}
		if set == nil {
			t.Fatalf("the .proto files are not valid:\n%s\n%s", complaint, files)
		}
		for i, m := range maps {
			f := protocx.File(set, fmt.Sprintf("f%d.proto", i))
			if f.GetPackage() != m.GetPackageName() || len(f.GetMessageType()) != 1 || f.GetMessageType()[0].GetName() != m.GetMessageName() || f.GetSyntax() != "proto3" {
				t.Fatalf("file %d: package %q, messages %v; want %q, %q", i, f.GetPackage(), f.GetMessageType(), m.GetPackageName(), m.GetMessageName())
			}
			fs := f.GetMessageType()[0].GetField()
			if len(fs) != len(m.GetColumnToFieldMappings()) {
				t.Fatalf("file %d: %d fields, want %d", i, len(fs), len(m.GetColumnToFieldMappings()))
			}
			for j, c := range m.GetColumnToFieldMappings() {
				if fs[j].GetName() != c.GetProtoName() || fs[j].GetNumber() != c.GetProtoTag() || protocx.TypeName(fs[j]) != c.GetProtoType() {
					t.Fatalf("file %d, field %d: %v, want %v", i, j, fs[j], c)
				}
			}
		}
	})
}

// Recorded inputs of repaired defects.
func TestRegressions(t *testing.T) {
	mapping := func(loc *time.Location, csv string) (*pb.RecordProtoMapping, string, string) {
		r, err := csvinfer.InferProto(csv, &recordinfer.Options{MessageName: "M", PackageName: "p", TimestampLocation: loc})
		if err != nil {
			return nil, "", err.Error()
		}
		return r.Mapping(), r.Code(), ""
	}
	pbt.Regression(t, "code-imports", func() string {
		_, code, e := mapping(time.UTC, "a,b\n2020-01-02,2020-01-03\n")
		if e != "" {
			return e
		}
		if set, c := protocx.Compile(pbt.Scratch("c02"), map[string]string{"f.proto": code}); set == nil {
			return c
		}
		return ""
	})
	pbt.Regression(t, "field-names", func() string {
		m, code, e := mapping(time.UTC, "1st,,a b,a_b,A B\n1,2,3,4,5\n")
		if e != "" {
			return e
		}
		if set, c := protocx.Compile(pbt.Scratch("c02"), map[string]string{"f.proto": code}); set == nil {
			return fmt.Sprint(c, m)
		}
		return ""
	})
	pbt.Regression(t, "kitchen", func() string {
		m, _, e := mapping(time.UTC, "a\n3:04PM\n")
		if e != "" {
			return e
		}
		if ty := m.ColumnToFieldMappings[0].ProtoType; ty != "string" {
			return "a time of day without a date is inferred as " + ty + ", which cannot hold it"
		}
		return ""
	})
	pbt.Regression(t, "no-package", func() string {
		r, err := csvinfer.InferProto("a\n1\n", &recordinfer.Options{MessageName: "M"})
		if err != nil {
			return err.Error()
		}
		if set, c := protocx.Compile(pbt.Scratch("c02"), map[string]string{"f.proto": r.Code()}); set == nil {
			return c
		}
		return ""
	})
}
