package c30

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/google/xtoproto/csvinfer"
	"github.com/google/xtoproto/csvtoproto"
	pb "github.com/google/xtoproto/proto/recordtoproto"
	spb "github.com/google/xtoproto/proto/service"
	"github.com/google/xtoproto/recordinfer"
	"github.com/google/xtoproto/verifharness/cmdx"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/tab"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "runs of the xtoproto command in a scratch directory full of other files, as an unprivileged user: inference from random CSV files, request files, and requests in JSON as the build rules send them, with paths of every form, old outputs in place, and one fault (missing, unreadable or unusable inputs, bad requests, places that cannot be written to); non-trivial: a run that writes a file or meets a fault; distinct by the arguments and files")
}

// section returns the message printed behind the last line that holds the label, or that in front of the next label.
func section(stdout, label string) string {
	stdout = "\n" + stdout
	i := strings.LastIndex(stdout, "\n"+label+":\n")
	if i < 0 {
		return ""
	}
	s := stdout[i+len(label)+3:]
	for _, l := range []string{"InferResponse", "GenerateCodeRequest", "GenerateCodeResponse"} {
		if j := strings.Index(s, "\n"+l+":\n"); j >= 0 {
			s = s[:j+1]
		}
	}
	return s
}

func printed(stdout, label string, want proto.Message) string {
	got := want.ProtoReflect().New().Interface()
	s := section(stdout, label)
	if err := prototext.Unmarshal([]byte(s), got); err != nil {
		return fmt.Sprintf("%s printed as\n%s\ndoes not parse: %v", label, cmdx.Clip(s), err)
	}
	if !proto.Equal(got, want) {
		return fmt.Sprintf("%s printed as\n%s\nwant\n%s", label, cmdx.Clip(s), cmdx.Clip(prototext.Format(want)))
	}
	return ""
}

func infer(text string) (*pb.RecordProtoMapping, error) {
	ip, err := csvinfer.InferProto(text, &recordinfer.Options{MessageName: "MyMessage", PackageName: "mypackage", GoPackageName: "example", GoProtoImport: "not/sure", TimestampLocation: time.UTC})
	if err != nil {
		return nil, err
	}
	return ip.Mapping(), nil
}

func csvText(t *pbt.T) string {
	if gen.OneIn(t.T, 25, "big") {
		// Many rows, or many columns and so much code.
		rows, cols := gen.Pick(t.T, "rows", 1, 1, 3000, 30000), 3
		if rows == 1 {
			cols = gen.Pick(t.T, "cols", 100, 900)
		}
		var b strings.Builder
		for r := 0; r <= rows; r++ {
			for c := 0; c < cols; c++ {
				if c > 0 {
					b.WriteByte(',')
				}
				if r == 0 {
					fmt.Fprintf(&b, "column%d", c)
				} else {
					fmt.Fprint(&b, (r*7+c)%1000)
				}
			}
			b.WriteByte('\n')
		}
		t.Class("big")
		return b.String()
	}
	return strings.ReplaceAll(gen.CSV(t.T, tab.Table(t.T, 4, 5, time.UTC), "csv"), "\r\r", "\r")
}

// spell writes the path of a file below dir in a form that means the same for a process in dir.
func spell(t *pbt.T, dir, p string) string {
	switch gen.Int(t.T, 0, 3, "spelling") {
	case 0:
		return filepath.Join(dir, p)
	case 1:
		return "./" + p
	case 2:
		return "other/../" + p
	}
	return p
}

func flag(t *pbt.T, name, value string) []string {
	switch gen.Int(t.T, 0, 2, "flagform") {
	case 0:
		return []string{"-" + name, value}
	case 1:
		return []string{"--" + name + "=" + value}
	}
	return []string{"-" + name + "=" + value}
}

// scene is a run to be made and what it should do.
type scene struct {
	args    []string
	outputs map[string]string // by path below the directory; not there if ok is false
	touched []string          // files that a failing run may have written before it failed
	ok      bool
	checks  func(stdout string) string
	desc    string
}

// output prepares the place of one output file: perhaps an old file, perhaps something that is in the way.
func output(t *pbt.T, dir, p string, s *scene, fault string) {
	switch {
	case fault == "blocked" && !strings.HasPrefix(path.Dir(p), ".."):
		s.ok = false
		switch gen.Int(t.T, 0, 1, "block") {
		case 0:
			os.MkdirAll(filepath.Join(dir, p), 0755) // a directory where the file should be
		case 1:
			if d := path.Dir(p); d != "." && d != "/" {
				os.RemoveAll(filepath.Join(dir, d))
				cmdx.Put(dir, d, "in the way")
			} else {
				os.MkdirAll(filepath.Join(dir, p), 0755)
			}
		}
	case gen.OneIn(t.T, 3, "old"):
		cmdx.Put(dir, p, strings.Repeat("an older and longer output\n", gen.Pick(t.T, "oldlen", 0, 1, 4000)))
	}
}

func inferScene(t *pbt.T, dir string) *scene {
	s := &scene{ok: true, outputs: map[string]string{}}
	fault := ""
	if gen.OneIn(t.T, 3, "faulty") {
		fault = gen.Pick(t.T, "fault", "missing", "directory", "unusable", "no flag", "blocked", "unreadable")
	}
	text := csvText(t)
	csv := gen.Pick(t.T, "csvname", "in.csv", "data/in put.csv", "ü.csv", "generated.txt")
	ws := gen.Pick(t.T, "ws", "ws", "a/b/c", "deep/er/ws dir", ".", "data", "")
	switch fault {
	case "missing":
	case "directory":
		os.MkdirAll(filepath.Join(dir, csv), 0755)
	case "unusable":
		text = gen.Pick(t.T, "text", "a\n", "a,b\n1\n", "a\n\"x\n", "\n\n", "", "a,b\n1,2\n3\n", "\"", "x")
		fallthrough
	default:
		cmdx.Put(dir, csv, text)
	}
	args := flag(t, "csv", spell(t, dir, csv))
	if fault == "no flag" {
		args = nil
	}
	w := ws
	if ws != "" {
		w = spell(t, dir, ws)
	}
	if gen.Bool(t.T, "order") {
		s.args = append(flag(t, "default_workspace", w), args...)
	} else {
		s.args = append(args, flag(t, "default_workspace", w)...)
	}
	s.ok = fault == ""
	p, g := path.Join(ws, "generated/example.proto"), path.Join(ws, "generated/exampleconv.go")
	if fault == "blocked" && gen.Bool(t.T, "blockproto") {
		output(t, dir, p, s, fault)
	} else {
		output(t, dir, p, s, "")
		output(t, dir, g, s, fault)
	}
	if fault == "blocked" {
		s.touched = []string{p, g}
	}
	if fault == "unreadable" {
		if !cmdx.Unprivileged() {
			t.Excluded("unreadable file without another user")
			return nil
		}
		defer os.Chmod(filepath.Join(dir, csv), 0) // cmdx.Own() below keeps it so
		s.desc = "unreadable"
	}
	s.desc = fmt.Sprintf("fault %q csv %q", fault, cmdx.Clip(text))
	m, err := infer(text)
	if fault == "" && err != nil {
		t.Excluded("table that cannot be inferred")
		return nil
	}
	if s.ok {
		pc, gc, err := csvtoproto.GenerateCode(m, true, true)
		if err != nil {
			t.Excluded("mapping that cannot be generated")
			return nil
		}
		s.outputs = map[string]string{p: pc, g: gc}
		s.checks = func(stdout string) string {
			if r := printed(stdout, "InferResponse", &spb.InferResponse{BestMappingCandidate: &spb.MappingSet{TopLevelMapping: m}}); r != "" {
				return r
			}
			return printed(stdout, "GenerateCodeResponse", &spb.GenerateCodeResponse{
				ProtoFile:       &spb.GenerateCodeResponse_File{WorkspaceRelativePath: "generated/example.proto", NewContents: []byte(pc)},
				ConverterGoFile: &spb.GenerateCodeResponse_File{WorkspaceRelativePath: "generated/exampleconv.go", NewContents: []byte(gc)},
			})
		}
	}
	return s
}

// requestScene makes a run that issues a request: one of the build rules in JSON, or a request file as it is.
func requestScene(t *pbt.T, dir string) *scene {
	s := &scene{ok: true, outputs: map[string]string{}}
	bazel := !gen.OneIn(t.T, 3, "direct")
	fault := ""
	if gen.OneIn(t.T, 3, "faulty") {
		fault = gen.Pick(t.T, "fault", "missing", "bad request", "bad request", "no mapping", "no go options", "blocked", "bad type")
		if bazel && gen.OneIn(t.T, 4, "badjson") {
			fault = "bad JSON"
		}
	}
	text := csvText(t)
	m, err := infer(text)
	if err != nil {
		t.Excluded("table that cannot be inferred")
		return nil
	}
	req := &spb.GenerateCodeRequest{Mapping: m}
	m.MessageName = gen.Pick(t.T, "msg", "MyMessage", "Record", "TradeReport")
	m.PackageName = gen.Pick(t.T, "pkg", "", "a.b")
	m.GoOptions = &pb.GoOptions{GoPackageName: gen.Pick(t.T, "gopkg", "conv", "x"), ProtoImport: "a/b"}
	switch fault {
	case "no mapping":
		req.Mapping = nil
	case "no go options":
		m.GoOptions = nil
	case "bad type":
		m.ColumnToFieldMappings = append(m.ColumnToFieldMappings, &pb.ColumnToFieldMapping{ColName: "zz", ProtoName: "zz", ProtoTag: 100, ProtoType: "foo.Bar"})
	}
	root := gen.Pick(t.T, "root", "bazel-out/bin", "out", ".")
	short := gen.Pick(t.T, "short", "x.go", "pkg/conv/x_converter.go", "external/a/b.go", "a b/c.go")
	if gen.OneIn(t.T, 3, "proto") {
		req.ProtoDefinition = &spb.GenerateCodeRequest_ProtoDefinition{Directory: gen.Pick(t.T, "pdir", "", "protos", "pkg"), ProtoFileName: gen.Pick(t.T, "pname", "y.proto", "")}
	}
	reqPath := gen.Pick(t.T, "reqname", "req.pbtxt", "pkg/codegen_request.pbtxt")
	reqArg := spell(t, dir, reqPath)
	wsArg := gen.Pick(t.T, "defaultws", "default", "", "default/ws")
	var ws string // where the outputs belong, below dir
	goOut := !bazel
	if bazel {
		ws, goOut = root, true
		// The rule's output replaces these.
		if gen.Bool(t.T, "replaced") {
			req.WorkspacePath = "elsewhere"
			req.Converter = &spb.GenerateCodeRequest_Converter{Directory: "wrong", GoFileName: "wrong.go"}
		}
		rootArg := root
		if gen.Bool(t.T, "absroot") {
			rootArg = filepath.Join(dir, root)
		}
		b, _ := json.Marshal(map[string]interface{}{"partial_request_path": reqArg, "converter_go_output": map[string]string{"short_path": short, "path": root + "/" + short, "root": rootArg}})
		j := string(b)
		if fault == "bad JSON" {
			j = gen.Pick(t.T, "badj", j[:len(j)-1], "{", "[]", j+"}", "x", `{"partial_request_path": 5}`)
		}
		s.args = flag(t, "codegen_request_json", j)
	} else {
		ws = wsArg
		if gen.Bool(t.T, "ownws") {
			req.WorkspacePath = spell(t, dir, root)
			ws = root
		}
		req.Converter = &spb.GenerateCodeRequest_Converter{Directory: path.Dir(short), GoFileName: path.Base(short)}
		if gen.OneIn(t.T, 4, "noconv") {
			goOut, req.Converter = false, nil
		}
		s.args = flag(t, "codegen_request", reqArg)
		if gen.OneIn(t.T, 3, "override") {
			if goOut && gen.Bool(t.T, "other") {
				req.Converter = &spb.GenerateCodeRequest_Converter{Directory: "wrong", GoFileName: "wrong.go"}
			}
			goOut = true
			s.args = append(s.args, flag(t, "codegen_convert_go_out", short)...)
		}
	}
	if gen.Bool(t.T, "wsfirst") {
		s.args = append(flag(t, "default_workspace", wsArg), s.args...)
	} else {
		s.args = append(s.args, flag(t, "default_workspace", wsArg)...)
	}
	s.desc = fmt.Sprintf("fault %q request %s", fault, cmdx.Clip(fmt.Sprint(req)))
	rt, err := (prototext.MarshalOptions{Multiline: true}).Marshal(req)
	if err != nil {
		t.Excluded("request without a text form")
		return nil
	}
	switch fault {
	case "missing":
	case "bad request":
		cmdx.Put(dir, reqPath, gen.Pick(t.T, "badreq", "mapping {", "nonsense", "mapping: 5", string(rt)+"}", "no_such_field: 1", string(rt)+"\nno_such_field: 1", "no_such_field: 1 "+string(rt), string(rt)+" mappings {}", string(rt)+"\nconverter { no_such: 'x' }", "[a.b.Ext]: 1", string(rt)+string(rt), "99: 1", "\x00"))
	default:
		cmdx.Put(dir, reqPath, string(rt))
	}
	s.ok = fault == ""
	if fault == "no go options" && !goOut {
		s.ok = true
	}
	if fault == "bad type" && !goOut {
		t.Excluded("unknown type without Go output")
		return nil
	}
	resp := &spb.GenerateCodeResponse{}
	var paths []string
	pc, gc, err := csvtoproto.GenerateCode(m, req.ProtoDefinition != nil, goOut)
	if err != nil && s.ok {
		t.Excluded("mapping that cannot be generated")
		return nil
	}
	if d := req.ProtoDefinition; d != nil {
		n := d.ProtoFileName
		if n == "" {
			n = map[string]string{"MyMessage": "my_message", "Record": "record", "TradeReport": "trade_report"}[m.MessageName] + ".proto"
		}
		s.outputs[path.Join(ws, d.Directory, n)] = pc
		paths = append(paths, path.Join(ws, d.Directory, n))
		resp.ProtoFile = &spb.GenerateCodeResponse_File{WorkspaceRelativePath: path.Join(d.Directory, n), NewContents: []byte(pc)}
	}
	if goOut {
		s.outputs[path.Join(ws, short)] = gc
		paths = append(paths, path.Join(ws, short))
		resp.ConverterGoFile = &spb.GenerateCodeResponse_File{WorkspaceRelativePath: path.Clean(short), NewContents: []byte(gc)}
	}
	if fault == "blocked" && len(paths) == 0 {
		s.ok = true
	}
	for i, p := range paths {
		f := ""
		if fault == "blocked" && i == len(paths)-1 {
			f = fault
		}
		output(t, dir, p, s, f)
	}
	if fault == "blocked" {
		s.touched = paths
		if _, err := os.Stat(filepath.Join(dir, reqPath)); err != nil {
			cmdx.Put(dir, "other/x", "") // the request went when the way was blocked: still a fault
		}
	}
	s.checks = func(stdout string) string { return printed(stdout, "GenerateCodeResponse", resp) }
	return s
}

func TestCommand(t *testing.T) {
	exe := cmdx.Build("cmd/xtoproto")
	pbt.Check(t, 1500, func(t *pbt.T) {
		dir := pbt.Scratch("cmd")
		defer os.RemoveAll(dir)
		for _, p := range []string{"other/keep.txt", "generated/keep.txt", "keep.go", "ws/keep.proto"} {
			cmdx.Put(dir, p, "keep "+p)
		}
		var s *scene
		if gen.Bool(t.T, "mode") {
			s = inferScene(t, dir)
		} else {
			s = requestScene(t, dir)
		}
		if s == nil {
			return
		}
		var places []string
		for p := range s.outputs {
			places = append(places, p)
		}
		sort.Strings(places)
		for _, p := range places {
			// An old output may be much like the new one.
			if text := s.outputs[p]; s.ok && len(text) > 1 && gen.OneIn(t.T, 5, "alike") {
				switch gen.Int(t.T, 0, 3, "alikekind") {
				case 0:
					text = strings.Repeat("x", len(text))
				case 1:
					i := gen.Int(t.T, 0, len(text)-1, "changed")
					text = text[:i] + "~" + text[i+1:]
				case 2:
					text += "// more"
				case 3:
					text = text[:len(text)/2]
				}
				cmdx.Put(dir, p, text)
			}
		}
		before := cmdx.Tree(dir)
		cmdx.Own(dir)
		tz := gen.Pick(t.T, "tz", "UTC", "America/New_York", "Asia/Tokyo")
		stdout, stderr, code := cmdx.Run(dir, exe, []string{"TZ=" + tz}, s.args)
		shown := strings.ReplaceAll(fmt.Sprintf("%q in a directory with %s", s.args, s.desc), dir, "DIR")
		t.Case(!s.ok || len(s.outputs) > 0, shown)
		got := cmdx.Tree(dir)
		if s.ok {
			if code != 0 {
				t.Fatalf("%s: exit %d\n%s", shown, code, stderr)
			}
			want := map[string]string{}
			for k, v := range before {
				want[k] = v
			}
			for k, v := range s.outputs {
				want[k] = v
			}
			if d := cmdx.Diff(got, want, nil); d != "" {
				t.Fatalf("%s: %s", shown, d)
			}
			if r := s.checks(stdout); r != "" {
				t.Fatalf("%s: %s", shown, r)
			}
			return
		}
		if code <= 0 || strings.Contains(stderr, "goroutine ") {
			t.Fatalf("%s: exit %d, want a failure; standard error:\n%s\noutput:\n%s", shown, code, stderr, cmdx.Clip(stdout))
		}
		if strings.TrimSpace(stderr) == "" {
			t.Fatalf("%s: failed without a message", shown)
		}
		touched := map[string]bool{}
		for _, p := range s.touched {
			touched[p] = true
		}
		if d := cmdx.Diff(got, before, func(p string) bool { return touched[p] }); d != "" {
			t.Fatalf("%s: failed (%s), but %s", shown, stderr, d)
		}
		t.Class("fault")
	})
}
