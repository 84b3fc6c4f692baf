package c37

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/google/xtoproto/csvinfer"
	"github.com/google/xtoproto/csvtoproto"
	pb "github.com/google/xtoproto/proto/recordtoproto"
	spb "github.com/google/xtoproto/proto/service"
	"github.com/google/xtoproto/recordinfer"
	"github.com/google/xtoproto/verifharness/cmdx"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/tab"
	"google.golang.org/protobuf/encoding/prototext"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "packages with random targets of the repository's Bazel rules, evaluated on a stand-in of Bazel, whose actions are then run in a directory that holds their declared inputs only: converter libraries made by the real xtoproto command from random requests, and the rules that copy generated .pb.go files; non-trivial: a package with a target that builds; distinct by the targets and requests")
}

type obj = map[string]interface{}

type action struct {
	Kind, Tool, Command        string
	Inputs, Outputs, Arguments []string
}

type answer struct {
	Failed, Error string
	Rules         []struct {
		Name       string
		Visibility []string
		Outs       []string
		OutPaths   []string `json:"out_paths"`
		Actions    []action
	}
	Libraries []map[string]interface{}
	Writes    []struct {
		Name       string
		Files      map[string]string
		Visibility []string
	}
}

var (
	bzlOnce sync.Once
	bzlIn   io.Writer
	bzlOut  *bufio.Reader
)

// evaluate has the stand-in of Bazel answer a request.
func evaluate(req obj) *answer {
	bzlOnce.Do(func() {
		cmd := exec.Command("python3", filepath.Join(os.Getenv("VERIF_HARNESS"), "c37", "bzl.py"))
		cmd.Stderr = os.Stderr
		in, _ := cmd.StdinPipe()
		out, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			pbt.Infra("starting python3: %v", err)
		}
		bzlIn, bzlOut = in, bufio.NewReaderSize(out, 1<<20)
	})
	b, _ := json.Marshal(req)
	if _, err := fmt.Fprintf(bzlIn, "%s\n", b); err != nil {
		pbt.Infra("%v", err)
	}
	line, err := bzlOut.ReadBytes('\n')
	if err != nil {
		pbt.Infra("the stand-in of Bazel ended: %v", err)
	}
	a := &answer{}
	if err := json.Unmarshal(line, a); err != nil {
		pbt.Infra("%v", err)
	}
	return a
}

func repo() string { return os.Getenv("VERIF_REPO") }

// importPath maps a Go library's label to its import path by the conventions of rules_go and Gazelle.
func importPath(label string) string {
	l := strings.SplitN(strings.TrimPrefix(label, "@"), "//", 2)
	pkg := strings.SplitN(l[1], ":", 2)[0]
	switch l[0] {
	case "xtoproto":
		if fs, _ := filepath.Glob(filepath.Join(repo(), pkg, "*.go")); len(fs) == 0 {
			return "no such package " + label
		}
		return "github.com/google/xtoproto/" + pkg
	case "org_golang_google_protobuf":
		return "google.golang.org/protobuf/" + pkg
	}
	return ""
}

func same(a, b []string) bool {
	return strings.Join(a, "\n") == strings.Join(b, "\n") && len(a) == len(b)
}

func texts(v interface{}) []string {
	var out []string
	l, _ := v.([]interface{})
	for _, x := range l {
		s, _ := x.(string)
		out = append(out, s)
	}
	return out
}

func visibility(t *pbt.T) []string {
	return gen.Pick(t.T, "visibility", nil, []string{"//visibility:public"}, []string{"//visibility:private"}, []string{"//a:__pkg__", "//b/c:__subpackages__"})
}

// run carries out an action in a directory with the declared inputs, and the directories of the declared outputs, and no more.
func run(t *pbt.T, shown string, a action, tool string, files map[string]string) map[string]string {
	dir := pbt.Scratch("exec")
	defer os.RemoveAll(dir)
	for _, p := range a.Inputs {
		if text, ok := files[p]; ok {
			cmdx.Put(dir, p, text)
		} else {
			t.Fatalf("%s: action with an input %q that nothing makes", shown, p)
		}
	}
	for _, p := range a.Outputs {
		os.MkdirAll(filepath.Join(dir, path.Dir(p)), 0755)
	}
	before := cmdx.Tree(dir)
	cmdx.Own(dir)
	exe, args := tool, a.Arguments
	if a.Kind == "run_shell" {
		exe, args = "/bin/bash", append([]string{"-c", a.Command, ""}, a.Arguments...)
	}
	_, stderr, code := cmdx.Run(dir, exe, []string{"TZ=UTC"}, args)
	if code != 0 {
		t.Fatalf("%s: the action %q exits with %d: %s", shown, args, code, stderr)
	}
	got := cmdx.Tree(dir)
	made := map[string]string{}
	for _, p := range a.Outputs {
		text, ok := got[p]
		if !ok {
			var all []string
			for q := range got {
				all = append(all, q)
			}
			sort.Strings(all)
			t.Fatalf("%s: the action %q did not make its output %q, but %q", shown, args, p, all)
		}
		made[p] = text
		delete(got, p)
	}
	if d := cmdx.Diff(got, before, nil); d != "" {
		t.Fatalf("%s: the action %q: %s", shown, args, d)
	}
	return made
}

type place struct{ repo, pkg, root string }

func somewhere(t *pbt.T) place {
	p := place{pkg: gen.Pick(t.T, "pkg", "", "conv", "a/b", "examples/example01/converter", "proto/x.y-z"),
		root: gen.Pick(t.T, "root", "bazel-out/k8-fastbuild/bin", "bazel-out/darwin_arm64-opt-ST-0123456789ab/bin", "bazel-out/x")}
	if gen.OneIn(t.T, 3, "external") {
		p.repo = gen.Pick(t.T, "repo", "other", "com_github_x_y")
	}
	return p
}

// label gives the label of a file or target of the package in one of its forms.
func (p place) label(t *pbt.T, name string) string {
	switch gen.Int(t.T, 0, 3, "label") {
	case 0:
		return ":" + name
	case 1:
		if p.repo == "" {
			return "//" + p.pkg + ":" + name
		}
	}
	return name
}

func (p place) full(name string) string { return "@" + p.repo + "//" + p.pkg + ":" + name }

func (p place) path(name string) string {
	if p.repo != "" {
		return path.Join("external", p.repo, p.pkg, name)
	}
	return path.Join(p.pkg, name)
}

func TestConverterLibrary(t *testing.T) {
	exe := cmdx.Build("cmd/xtoproto")
	pbt.Check(t, 400, func(t *pbt.T) {
		pl := somewhere(t)
		names := []string{"conv", "x", "a-b", "my.conv", "sub/dir/c", "conv2", "Lib_1"}
		n := gen.Int(t.T, 1, 3, "libraries")
		files := map[string]string{}
		shared := []string{"@third//party:lib", "//protos:shared"}
		type library struct {
			name, out, code string
			deps, vis       []string
			kw              obj
		}
		var libs []*library
		var calls []obj
		generated := []string{}
		desc := ""
		for i := 0; i < n; i++ {
			k := gen.Int(t.T, 0, len(names)-1, "name")
			l := &library{name: names[k], kw: obj{}, vis: visibility(t)}
			names = append(names[:k:k], names[k+1:]...)
			m, err := csvInfer(csvText(t))
			if err != nil {
				t.Excluded("table that cannot be inferred")
				return
			}
			m.GoOptions.ProtoImport = gen.Pick(t.T, "protoimport", "a/b", "example.com/protos/shared")
			_, code, err := csvtoproto.GenerateCode(m, false, true)
			if err != nil {
				t.Excluded("mapping that cannot be generated")
				return
			}
			l.code = code
			req := &spb.GenerateCodeRequest{Mapping: m}
			if gen.OneIn(t.T, 4, "overridden") {
				req.WorkspacePath = "elsewhere"
				req.Converter = &spb.GenerateCodeRequest_Converter{Directory: "wrong", GoFileName: "wrong.go"}
			}
			rt, err := (prototext.MarshalOptions{Multiline: true}).Marshal(req)
			if err != nil {
				t.Excluded("request without a text form")
				return
			}
			rname := fmt.Sprintf("%s%d.pbtxt", gen.Pick(t.T, "request", "codegen_request", "sub/req ü", "r"), i)
			if gen.OneIn(t.T, 4, "generated") {
				generated = append(generated, pl.full(rname))
				files[path.Join(pl.root, pl.path(rname))] = string(rt)
			} else {
				files[pl.path(rname)] = string(rt)
			}
			args := obj{"name": l.name, "request": pl.label(t, rname), "importpath": "example.com/" + l.name}
			call := obj{"macro": "go_xtoproto_converter_library", "args": args}
			switch gen.Int(t.T, 0, 3, "deps") {
			case 0:
				if gen.Bool(t.T, "none") {
					args["deps"] = nil
				}
			case 1:
				l.deps = shared
				call["shared_args"] = obj{"deps": "DEPS"}
			case 2:
				l.deps = []string{}
				args["deps"] = l.deps
			case 3:
				l.deps = []string{"//" + l.name + ":protos"}
				args["deps"] = l.deps
			}
			if l.vis != nil || gen.Bool(t.T, "visset") {
				args["visibility"] = l.vis
			}
			for _, k := range []string{"tags", "testonly", "gc_goopts"} {
				if gen.OneIn(t.T, 3, "kw") {
					v := obj{"tags": []string{"manual"}, "testonly": true, "gc_goopts": []string{"-N"}}[k]
					l.kw[k], args[k] = v, v
				}
			}
			libs = append(libs, l)
			calls = append(calls, call)
			b, _ := json.Marshal(call)
			desc += string(b) + " "
		}
		shown := fmt.Sprintf("package //%s of %q with root %q: %s", pl.pkg, pl.repo, pl.root, desc)
		t.Case(true, shown)
		a := evaluate(obj{"bzl": filepath.Join(repo(), "bazel/defs.bzl"), "repo": pl.repo, "pkg": pl.pkg, "root": pl.root, "calls": calls,
			"shared": obj{"DEPS": shared}, "generated": generated})
		if a.Failed != "" || a.Error != "" {
			t.Fatalf("%s: %s%s", shown, a.Failed, a.Error)
		}
		if len(a.Libraries) != len(libs) {
			t.Fatalf("%s: %d libraries", shown, len(a.Libraries))
		}
		makers := map[string]int{}
		for i, r := range a.Rules {
			for _, o := range r.Outs {
				makers[o] = i
			}
		}
		for i, l := range libs {
			got := a.Libraries[i]
			if got["name"] != l.name || got["importpath"] != "example.com/"+l.name || !same(texts(got["visibility"]), l.vis) {
				t.Fatalf("%s: library %d is %v", shown, i, got)
			}
			for k, v := range l.kw {
				if fmt.Sprint(got[k]) != fmt.Sprint(v) {
					t.Fatalf("%s: library %q has %s = %v, want %v", shown, l.name, k, got[k], v)
				}
			}
			srcs := texts(got["srcs"])
			if len(srcs) != 1 {
				t.Fatalf("%s: library %q has sources %q", shown, l.name, srcs)
			}
			mk, ok := makers[srcs[0]]
			if !ok {
				t.Fatalf("%s: nothing makes %q", shown, srcs[0])
			}
			r := a.Rules[mk]
			if !same(r.Visibility, l.vis) {
				t.Fatalf("%s: rule %q has visibility %q", shown, r.Name, r.Visibility)
			}
			if len(r.Actions) != 1 || len(r.Actions[0].Outputs) != 1 {
				t.Fatalf("%s: rule %q has actions %v", shown, r.Name, r.Actions)
			}
			if tool := r.Actions[0].Tool; !strings.HasSuffix(tool, "//cmd/xtoproto:xtoproto") {
				t.Fatalf("%s: rule %q runs %q", shown, r.Name, tool)
			}
			made := run(t, shown, r.Actions[0], exe, files)
			if text := made[r.Actions[0].Outputs[0]]; text != l.code {
				t.Fatalf("%s: %q holds\n%s\nwant\n%s", shown, r.Actions[0].Outputs[0], cmdx.Clip(text), cmdx.Clip(l.code))
			}
			// What the file imports is among the dependencies.
			has := map[string]bool{"a/b": true, "example.com/protos/shared": true}
			left := map[string]bool{}
			for _, d := range texts(got["deps"]) {
				has[importPath(d)] = true
				left[d] = true
			}
			for _, d := range l.deps {
				if w := evaluateLabel(pl, d); !left[w] {
					t.Fatalf("%s: library %q has lost its dependency %q: %q", shown, l.name, d, texts(got["deps"]))
				}
			}
			f, err := parser.ParseFile(token.NewFileSet(), "x.go", l.code, parser.ImportsOnly)
			if err != nil {
				t.Fatalf("%s: %v", shown, err)
			}
			for _, im := range f.Imports {
				p, _ := strconv.Unquote(im.Path.Value)
				if strings.Contains(strings.SplitN(p, "/", 2)[0], ".") && !has[p] {
					t.Fatalf("%s: library %q imports %q, which is not among its dependencies %q", shown, l.name, p, texts(got["deps"]))
				}
			}
		}
		if pl.repo != "" {
			t.Class("external repository")
		}
		if n > 1 {
			t.Class("several libraries")
		}
	})
}

// evaluateLabel gives a dependency's label in full.
func evaluateLabel(pl place, l string) string {
	repo := pl.repo
	if strings.HasPrefix(l, "@") {
		i := strings.Index(l, "//")
		repo, l = l[1:i], l[i:]
	}
	return "@" + repo + l
}

func TestCopiedSources(t *testing.T) {
	pbt.Check(t, 250, func(t *pbt.T) {
		pl := somewhere(t)
		files, libs := map[string]string{}, obj{}
		lib := func(i int) (label string, n int, importpath string) {
			n = gen.Pick(t.T, "sources", 1, 1, 1, 1, 1, 1, 1, 1, 0, 2)
			name := fmt.Sprintf("p%d_go_proto", i)
			importpath = gen.Pick(t.T, "importpath", "example.com/p", "example.com/p", "example.com/q")
			srcs := []string{}
			for j := 0; j < n; j++ {
				p := path.Join(pl.root, pl.path(fmt.Sprintf("p%d_go_proto_/%s/f%d.pb.go", i, importpath, j)))
				files[p] = fmt.Sprintf("// %s %d\n%s", p, j, gen.Pick(t.T, "text", "", "package p\n", "\x00\xff\r\n", "x"))
				srcs = append(srcs, p)
			}
			libs[pl.full(name)] = obj{"importpath": importpath, "srcs": srcs}
			return pl.label(t, name), n, importpath
		}
		vis := visibility(t)
		type target struct {
			name, src string
			lib       string
			ok        bool
		}
		var targets []target
		var calls []obj
		ok := true
		srcs := []string{"b.pb.go", "recordtoproto.pb.go", "sub/b.pb.go", "x-1 y.pb.go", "d e/b.pb.go"}
		macro := !gen.OneIn(t.T, 3, "rule")
		for i := gen.Int(t.T, 1, 3, "targets") - 1; i >= 0; i-- {
			tg := target{name: fmt.Sprintf("%s%d", gen.Pick(t.T, "name", "write_generated_protos", "w"), i)}
			k := gen.Int(t.T, 0, len(srcs)-1, "src")
			tg.src = srcs[k]
			srcs = append(srcs[:k:k], srcs[k+1:]...)
			if macro {
				l, n, _ := lib(i)
				tg.lib = l
				ok = ok && n == 1
				args := obj{"name": tg.name, "go_proto_library": l, "src": tg.src}
				if vis != nil {
					args["visibility"] = vis
				}
				calls = append(calls, obj{"macro": "write_go_proto_srcs", "args": args})
			} else {
				deps, total, first := []string{}, 0, ""
				for j := gen.Pick(t.T, "deps", 1, 1, 1, 1, 2, 3, 0); j > 0; j-- {
					l, n, ip := lib(i*10 + j)
					deps = append(deps, l)
					total += n
					if n == 1 {
						tg.lib = l
					}
					if first != "" && first != ip {
						ok = false
					}
					first = ip
				}
				ok = ok && total == 1
				args := obj{"name": tg.name, "deps": deps}
				if gen.OneIn(t.T, 6, "noout") {
					ok = false
				} else {
					args["out"] = tg.src
				}
				calls = append(calls, obj{"macro": "output_go_library_srcs", "args": args})
			}
			targets = append(targets, tg)
		}
		b, _ := json.Marshal(calls)
		lb, _ := json.Marshal(libs)
		shown := fmt.Sprintf("package //%s of %q with root %q: %s with libraries %s", pl.pkg, pl.repo, pl.root, b, lb)
		t.Case(true, shown)
		a := evaluate(obj{"bzl": filepath.Join(repo(), "bazel/write_go_generated_srcs.bzl"), "repo": pl.repo, "pkg": pl.pkg, "root": pl.root, "calls": calls, "libs": libs})
		if a.Error != "" || (a.Failed != "") == ok {
			t.Fatalf("%s: failed %q %s, want it to be built: %t", shown, a.Failed, a.Error, ok)
		}
		if !ok {
			t.Class("refused")
			return
		}
		if len(a.Rules) != len(targets) {
			t.Fatalf("%s: %d rules", shown, len(a.Rules))
		}
		for i, tg := range targets {
			r := a.Rules[i]
			if len(r.Outs) != 1 || len(r.Actions) != 1 || !same(r.Actions[0].Outputs, r.OutPaths) {
				t.Fatalf("%s: rule %+v", shown, r)
			}
			if macro {
				w := a.Writes[i]
				if w.Name != tg.name || !same(w.Visibility, vis) || len(w.Files) != 1 || w.Files[tg.src] != r.Outs[0] || r.Outs[0] == pl.full(tg.src) {
					t.Fatalf("%s: target %q writes %v, rule %+v", shown, tg.name, w, r)
				}
			} else if r.Outs[0] != pl.full(tg.src) {
				t.Fatalf("%s: rule %+v", shown, r)
			}
			name := strings.TrimPrefix(tg.lib[strings.LastIndex(tg.lib, ":")+1:], ":")
			src := libs[pl.full(name)].(obj)["srcs"].([]string)[0]
			made := run(t, shown, r.Actions[0], "", files)
			if got := made[r.OutPaths[0]]; got != files[src] {
				t.Fatalf("%s: %q holds %q, want %q", shown, r.OutPaths[0], got, files[src])
			}
		}
		t.Class("copied")
	})
}

func csvText(t *pbt.T) string {
	return strings.ReplaceAll(gen.CSV(t.T, tab.Table(t.T, 4, 5, time.UTC), "csv"), "\r\r", "\r")
}

func csvInfer(text string) (*pb.RecordProtoMapping, error) {
	ip, err := csvinfer.InferProto(text, &recordinfer.Options{MessageName: "MyMessage", PackageName: "mypackage", GoPackageName: "example", GoProtoImport: "not/sure", TimestampLocation: time.UTC})
	if err != nil {
		return nil, err
	}
	return ip.Mapping(), nil
}
