package c28

import (
	"context"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/google/xtoproto/csvinfer"
	"github.com/google/xtoproto/csvtoproto"
	pb "github.com/google/xtoproto/proto/recordtoproto"
	spb "github.com/google/xtoproto/proto/service"
	"github.com/google/xtoproto/recordinfer"
	"github.com/google/xtoproto/service"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/tab"
	"github.com/google/xtoproto/xmlinfer"
	"google.golang.org/protobuf/proto"
)

const childEnv = "VERIF_C28_CHILD"

func TestMain(m *testing.M) {
	if in := os.Getenv(childEnv); in != "" {
		child(in)
		return
	}
	pbt.Main(m, "random batches of 2..12 calls of the entry points (record inference, CSV inference, mapping formatting, code generation, XML inference, both service calls) on random inputs, each made alone, again in other orders with others in between, by concurrent goroutines that share every input (under the race detector), and in a fresh process with another time zone, locale, working directory and processor count; each batch and each call counts; non-trivial: a call that gives output; distinct by input")
}

// A call is one use of an entry point; its fields are its inputs.
type call struct {
	Kind     string
	Rows     [][]string
	Text     string
	Msg, Pkg string
	Go, Imp  string
	Zone     string // "" is none
	Mapping  []byte
	Template []byte
	GenProto bool
	GenGo    bool
	Req      []byte

	// Set by prepare and shared between all who make the call.
	opts     *recordinfer.Options
	mapping  *pb.RecordProtoMapping
	template *pb.RecordProtoMapping
	inferReq *spb.InferRequest
	genReq   *spb.GenerateCodeRequest
}

func enc(m proto.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		pbt.Infra("%v", err)
	}
	return b
}

func must(err error) {
	if err != nil {
		pbt.Infra("%v", err)
	}
}

func (c *call) prepare() {
	c.opts = &recordinfer.Options{MessageName: c.Msg, PackageName: c.Pkg, GoPackageName: c.Go, GoProtoImport: c.Imp}
	if c.Zone != "" {
		loc, err := time.LoadLocation(c.Zone)
		must(err)
		c.opts.TimestampLocation = loc
	}
	c.mapping, c.template = &pb.RecordProtoMapping{}, &pb.RecordProtoMapping{}
	must(proto.Unmarshal(c.Mapping, c.mapping))
	must(proto.Unmarshal(c.Template, c.template))
	c.inferReq, c.genReq = &spb.InferRequest{}, &spb.GenerateCodeRequest{}
	if c.Kind == "svcinfer" {
		must(proto.Unmarshal(c.Req, c.inferReq))
	}
	if c.Kind == "svcgenerate" {
		must(proto.Unmarshal(c.Req, c.genReq))
	}
}

// snapshot renders the inputs as they are now.
func (c *call) snapshot() string {
	o := c.opts
	return fmt.Sprintf("%q %q %q %q %q %q %v %x %x %x %x", c.Rows, c.Text, o.MessageName, o.PackageName, o.GoPackageName, o.GoProtoImport, o.TimestampLocation,
		enc(c.mapping), enc(c.template), enc(c.inferReq), enc(c.genReq))
}

type world struct {
	svc spb.XToProtoServiceServer
}

type sink struct {
	mu  sync.Mutex
	out []string
}

type sinkKey struct{}

func newWorld() *world {
	return &world{service.New("/w",
		func(ctx context.Context, p string) ([]byte, error) { return nil, errors.New("no files") },
		func(ctx context.Context, p string, data []byte) error {
			s := ctx.Value(sinkKey{}).(*sink)
			s.mu.Lock()
			defer s.mu.Unlock()
			s.out = append(s.out, fmt.Sprintf("%q: %q", p, data))
			return nil
		})}
}

func describe(ip *recordinfer.InferredProto, template *pb.RecordProtoMapping) string {
	m := ip.Mapping()
	s := fmt.Sprintf("mapping %x\ncode %s\ntext %s", enc(m), ip.Code(), ip.FormattedMapping(template))
	// What is done to a result must not show in later ones.
	if m.GoOptions != nil {
		m.GoOptions.ProtoImport, m.GoOptions.GoPackageName = "changed", "changed"
	}
	for _, c := range m.ColumnToFieldMappings {
		if f := c.GetTimeFormat(); f != nil {
			f.GoLayout, f.TimeZoneName = "changed", "changed"
		}
		for i := range c.ProtoImports {
			c.ProtoImports[i] = "changed"
		}
		c.ProtoName, c.Comment = "changed", "changed"
	}
	m.MessageName, m.ColumnToFieldMappings = "changed", nil
	if again := fmt.Sprintf("mapping %x\ncode %s\ntext %s", enc(ip.Mapping()), ip.Code(), ip.FormattedMapping(template)); again != s {
		return "after its first mapping was changed the result gives\n" + again + "\nwhich was\n" + s
	}
	return s
}

// run makes the call and returns everything it gives; "error" for any error.
func (c *call) run(w *world) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic: %v", r)
		}
	}()
	switch c.Kind {
	case "infer":
		b := recordinfer.NewRecordBasedInferrer(c.opts)
		for _, r := range c.Rows {
			if err := b.AddRow(r); err != nil {
				return "error"
			}
		}
		ip, err := b.Build()
		if err != nil {
			return "error"
		}
		return describe(ip, c.template)
	case "csv":
		ip, err := csvinfer.InferProto(c.Text, c.opts)
		if err != nil {
			return "error"
		}
		return describe(ip, c.template)
	case "generate":
		p, g, err := csvtoproto.GenerateCode(c.mapping, c.GenProto, c.GenGo)
		if err != nil {
			return "error"
		}
		return "proto " + p + "\ngo " + g
	case "xml":
		r, err := xmlinfer.Infer(xml.NewDecoder(strings.NewReader(c.Text)))
		if err != nil {
			return "error"
		}
		s, err := r.ProtoFile()
		if err != nil {
			return "error"
		}
		again, err := r.ProtoFile()
		if err != nil || again != s {
			return fmt.Sprintf("a second ProtoFile of one result differs: %v\n%s\nwas\n%s", err, again, s)
		}
		return s
	case "svcinfer", "svcgenerate":
		s := &sink{}
		ctx := context.WithValue(context.Background(), sinkKey{}, s)
		var resp proto.Message
		var err error
		if c.Kind == "svcinfer" {
			resp, err = w.svc.Infer(ctx, c.inferReq)
		} else {
			resp, err = w.svc.GenerateCode(ctx, c.genReq)
		}
		if err != nil {
			return "error"
		}
		return fmt.Sprintf("%x\n%s", enc(resp), strings.Join(s.out, "\n"))
	}
	return "no such kind"
}

// child makes the calls of a file in a fresh process.
func child(in string) {
	data, err := os.ReadFile(in)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	var calls []*call
	if err := json.Unmarshal(data, &calls); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	w := newWorld()
	outs := make([]string, len(calls))
	for i := len(calls) - 1; i >= 0; i-- {
		calls[i].prepare()
		outs[i] = fmt.Sprintf("%x", calls[i].run(w))
	}
	b, _ := json.Marshal(outs)
	if err := os.WriteFile(in+".out", b, 0o600); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}

func runChild(calls []*call) ([]string, error) {
	dir := pbt.Scratch("c28")
	defer os.RemoveAll(dir)
	b, err := json.Marshal(calls)
	must(err)
	in := filepath.Join(dir, "calls.json")
	must(os.WriteFile(in, b, 0o600))
	exe, err := os.Executable()
	must(err)
	cmd := exec.Command(exe)
	cmd.Dir = dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "TZ=") && !strings.HasPrefix(e, "LC_ALL=") && !strings.HasPrefix(e, "GOMAXPROCS=") && !strings.HasPrefix(e, "HOME=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, childEnv+"="+in, "TZ=Asia/Tokyo", "LC_ALL=tr_TR.UTF-8", "GOMAXPROCS=2", "HOME="+dir)
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("%v: %s", err, out)
	}
	res, err := os.ReadFile(in + ".out")
	must(err)
	var outs []string
	must(json.Unmarshal(res, &outs))
	for i := range outs {
		var s string
		if _, err := fmt.Sscanf(outs[i], "%x", &s); err != nil && outs[i] != "" {
			return nil, err
		}
		outs[i] = s
	}
	return outs, nil
}

func drawMapping(t *pbt.T) *pb.RecordProtoMapping {
	m := &pb.RecordProtoMapping{PackageName: gen.Pick(t.T, "pkg", "", "a.b", "p"), MessageName: gen.Pick(t.T, "msg", "M", "Record", "my_msg", "New")}
	for i, n := 0, gen.Int(t.T, 0, 7, "cols"); i < n; i++ {
		c := &pb.ColumnToFieldMapping{ColName: gen.Text(t.T, 6, "col"), Comment: gen.Text(t.T, 8, "comment"), ColumnIndex: int32(gen.Int(t.T, 0, 5, "idx")),
			ProtoName: gen.Pick(t.T, "name", "x", "get_x", "reset", "string", "f", "a_b") + gen.Pick(t.T, "suffix", "", "_1", "2") + strings.Repeat("z", i), ProtoTag: int32(gen.Pick(t.T, "tag", 40, 3, 2, 17, 1) + 50*i), Ignored: gen.OneIn(t.T, 6, "ignored")}
		c.ProtoType = gen.Pick(t.T, "type", "int32", "int64", "float", "double", "string", "google.protobuf.Timestamp", "google.protobuf.Timestamp", "google.protobuf.Duration", "depq.Thing")
		if c.ProtoType == "depq.Thing" && !gen.OneIn(t.T, 4, "unmappable") {
			c.ProtoType = "string"
		}
		switch c.ProtoType {
		case "google.protobuf.Timestamp":
			c.ProtoImports = []string{"google/protobuf/timestamp.proto"}
			c.ParsingInfo = &pb.ColumnToFieldMapping_TimeFormat{TimeFormat: &pb.TimeFormat{GoLayout: gen.Pick(t.T, "layout", tab.Layouts...), TimeZoneName: gen.Pick(t.T, "zone", "", "UTC", "Europe/London")}}
		case "google.protobuf.Duration":
			c.ProtoImports = []string{"google/protobuf/duration.proto"}
			if gen.Bool(t.T, "unit") {
				c.ParsingInfo = &pb.ColumnToFieldMapping_DurationFormat{DurationFormat: &pb.DurationFormat{GoUnitSuffix: "s"}}
			}
		}
		for gen.OneIn(t.T, 3, "moreimports") {
			c.ProtoImports = append(c.ProtoImports, gen.Pick(t.T, "imp", "z.proto", "a.proto", "b/c.proto", "google/protobuf/any.proto", "google/protobuf/timestamp.proto"))
		}
		m.ColumnToFieldMappings = append(m.ColumnToFieldMappings, c)
	}
	for i, n := 0, gen.Int(t.T, 0, 3, "extras"); i < n; i++ {
		m.ExtraFieldDefinitions = append(m.ExtraFieldDefinitions, &pb.FieldDefinition{ProtoName: fmt.Sprintf("extra%d", i), ProtoTag: int32(5000 - i), ProtoType: gen.Pick(t.T, "etype", "int32", "google.protobuf.Any"), ProtoImports: []string{gen.Pick(t.T, "eimp", "google/protobuf/any.proto", "y.proto", "a.proto")}, Comment: gen.Text(t.T, 5, "ecomment")})
	}
	if !gen.OneIn(t.T, 6, "nogo") {
		m.GoOptions = &pb.GoOptions{GoPackageName: gen.Pick(t.T, "gopkg", "conv", "x"), ProtoImport: gen.Pick(t.T, "goimp", "a/b", "example.com/time")}
	}
	return m
}

func drawXML(t *pbt.T) string {
	var b strings.Builder
	var elem func(depth int)
	names := []string{"a", "b", "c", "d", "item", "Item", "a-b", "é"}
	val := func() string { return gen.Pick(t.T, "value", "1", "2", "3.5", "x", "y", "z", "", "w", "7", "8", "9") }
	elem = func(depth int) {
		n := gen.Pick(t.T, "name", names...)
		b.WriteString("<" + n)
		for i, k := 0, gen.Int(t.T, 0, 2, "attrs"); i < k; i++ {
			b.WriteString(" " + gen.Pick(t.T, "attr", names...) + `="` + val() + `"`)
		}
		b.WriteString(">")
		if depth < 3 {
			for i, k := 0, gen.Int(t.T, 0, 4, "kids"); i < k; i++ {
				elem(depth + 1)
			}
		}
		b.WriteString(val() + "</" + n + ">")
	}
	for i, k := 0, gen.Int(t.T, 1, 2, "roots"); i < k; i++ {
		elem(0)
	}
	s := b.String()
	if gen.OneIn(t.T, 12, "broken") {
		s = s[:len(s)-1]
	}
	return s
}

func drawCall(t *pbt.T) *call {
	c := &call{Kind: gen.Pick(t.T, "kind", "infer", "csv", "generate", "generate", "xml", "svcinfer", "svcgenerate")}
	options := func() {
		c.Msg, c.Pkg = gen.Pick(t.T, "msg", "Record", "M"), gen.Pick(t.T, "pkg", "", "a.b")
		if gen.Bool(t.T, "go") {
			c.Go, c.Imp = "gopkg", "a/b"
		}
		if gen.Bool(t.T, "zoned") {
			c.Zone = gen.Pick(t.T, "zone", gen.Zones...)
		}
		if gen.Bool(t.T, "template") {
			c.Template = enc(drawMapping(t))
		}
	}
	loc := func() *time.Location {
		if c.Zone == "" {
			return nil
		}
		l, err := time.LoadLocation(c.Zone)
		must(err)
		return l
	}
	switch c.Kind {
	case "infer":
		options()
		c.Rows = tab.Table(t.T, 4, 12, loc())
	case "csv":
		options()
		c.Text = gen.CSV(t.T, tab.Table(t.T, 4, 12, loc()), "csv")
	case "generate":
		c.Mapping = enc(drawMapping(t))
		c.GenProto, c.GenGo = gen.Bool(t.T, "proto"), gen.Bool(t.T, "gocode")
		if !c.GenProto && !c.GenGo {
			c.GenProto, c.GenGo = true, true
		}
	case "xml":
		c.Text = drawXML(t)
	case "svcinfer":
		options()
		c.Req = enc(&spb.InferRequest{MessageName: c.Msg, PackageName: c.Pkg, GoPackageName: c.Go, GoProtoImport: c.Imp, TimestampLocation: c.Zone,
			ExampleInputs: []*spb.InputFile{{Spec: &spb.InputFile_InputContent{InputContent: []byte(gen.CSV(t.T, tab.Table(t.T, 4, 12, loc()), "csv"))}}}})
	case "svcgenerate":
		c.Req = enc(&spb.GenerateCodeRequest{Mapping: drawMapping(t), ProtoDefinition: &spb.GenerateCodeRequest_ProtoDefinition{Directory: "d"}, Converter: &spb.GenerateCodeRequest_Converter{GoFileName: gen.Pick(t.T, "gofile", "", "x.go")}})
	}
	return c
}

func TestDeterminism(t *testing.T) {
	pbt.Check(t, 160, func(t *pbt.T) {
		var calls []*call
		for i, n := 0, gen.Int(t.T, 2, 12, "calls"); i < n; i++ {
			if i > 0 && gen.OneIn(t.T, 6, "same") {
				// An equal call with inputs of its own.
				d := *calls[gen.Int(t.T, 0, i-1, "of")]
				calls = append(calls, &d)
				continue
			}
			calls = append(calls, drawCall(t))
		}
		t.Case(true, "")
		w := newWorld()
		want := make([]string, len(calls))
		before := make([]string, len(calls))
		show := func(c *call) string {
			return fmt.Sprintf("%s rows %q text %q options %v mapping %v template %v request %v %v", c.Kind, c.Rows, c.Text, *c.opts, c.mapping, c.template, c.inferReq, c.genReq)
		}
		for i, c := range calls {
			c.prepare()
			before[i] = c.snapshot()
			want[i] = c.run(w)
			t.Sub(want[i] != "error", show(c))
			t.Class(fmt.Sprintf("%s error %v", c.Kind, want[i] == "error"))
			if strings.HasPrefix(want[i], "panic") || strings.HasPrefix(want[i], "after its first") || strings.HasPrefix(want[i], "a second") {
				t.Fatalf("%s: %s", show(c), want[i])
			}
		}
		compare := func(when string, i int, got string) string {
			if got != want[i] {
				return fmt.Sprintf("%s: %s gives\n%s\nwhich was first\n%s", when, show(calls[i]), got, want[i])
			}
			return ""
		}
		for i := range calls {
			for j := range calls {
				if j != i && string(calls[i].Req) == string(calls[j].Req) && calls[i].Kind == calls[j].Kind && reflect.DeepEqual(calls[i].Rows, calls[j].Rows) && calls[i].Text == calls[j].Text && before[i] == before[j] &&
					calls[i].GenProto == calls[j].GenProto && calls[i].GenGo == calls[j].GenGo {
					t.Class("equal calls")
					if msg := compare("an equal call", j, want[i]); msg != "" {
						t.Fatalf("%s", msg)
					}
				}
			}
		}
		// Again, in other orders.
		for k := 0; k < 2; k++ {
			for range calls {
				i := gen.Int(t.T, 0, len(calls)-1, "again")
				if msg := compare("made again", i, calls[i].run(w)); msg != "" {
					t.Fatalf("%s", msg)
				}
			}
		}
		// By several goroutines that share the inputs.
		var wg sync.WaitGroup
		msgs := make([]string, 4)
		for g := range msgs {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for k := range calls {
					i := (k*(g+1) + g) % len(calls)
					if msg := compare("made concurrently", i, calls[i].run(w)); msg != "" && msgs[g] == "" {
						msgs[g] = msg
					}
					runtime.Gosched()
				}
			}(g)
		}
		wg.Wait()
		for _, m := range msgs {
			if m != "" {
				t.Fatalf("%s", m)
			}
		}
		for i, c := range calls {
			if s := c.snapshot(); s != before[i] {
				t.Fatalf("inputs of %s were\n%s\nand are now\n%s", c.Kind, before[i], s)
			}
		}
		if gen.OneIn(t.T, 8, "process") {
			t.Class("another process")
			outs, err := runChild(calls)
			if err != nil {
				t.Fatalf("another process fails: %v", err)
			}
			for i := range calls {
				if msg := compare("in another process", i, outs[i]); msg != "" {
					t.Fatalf("%s", msg)
				}
			}
		}
	})
}

func TestRegressions(t *testing.T) {
	pbt.Regression(t, "local-zone", func() string {
		c := &call{Kind: "infer", Msg: "M", Rows: [][]string{{"a"}, {"Mon Jan  1 03:00:00 JST 0001"}}}
		c.prepare()
		outs, err := runChild([]*call{c})
		if err != nil {
			return err.Error()
		}
		if got := c.run(newWorld()); got != outs[0] {
			return fmt.Sprintf("with TZ=UTC\n%s\nwith TZ=Asia/Tokyo\n%s", got, outs[0])
		}
		return ""
	})
	pbt.Regression(t, "adjusted-mapping", func() string {
		b := recordinfer.NewRecordBasedInferrer(&recordinfer.Options{MessageName: "M", GoPackageName: "x"})
		b.AddRow([]string{"a"})
		b.AddRow([]string{"1"})
		ip, err := b.Build()
		if err != nil {
			return err.Error()
		}
		ip.Mapping().GoOptions.GoPackageName = "y"
		if got := ip.Mapping().GoOptions.GoPackageName; got != "x" {
			return "after the caller changed a mapping, the next one has Go package " + got
		}
		return ""
	})
}
