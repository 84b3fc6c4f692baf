package c33

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/google/xtoproto/verifharness/cmdx"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "runs of generate_pb_go_files over random runfiles trees (generated files below the import path at any depth and under any configuration directory, files and links, look-alikes, other files) with old outputs in place, given as a directory or a manifest, and one fault (a dangling link, a place that cannot be written to); non-trivial: at least one file to collect and one not to; distinct by tree and arguments")
}

const defaultPath = "github.com/google/xtoproto/proto"

func TestCollect(t *testing.T) {
	exe := cmdx.Build("releasing/generate_pb_go_files")
	pbt.Check(t, 300, func(t *pbt.T) {
		dir := pbt.Scratch("collect")
		defer os.RemoveAll(dir)
		imp := gen.Pick(t.T, "import", defaultPath, defaultPath, "example.com/x", "proto")
		fault := ""
		if gen.OneIn(t.T, 5, "faulty") {
			fault = gen.Pick(t.T, "fault", "dangling", "blocked", "unreadable")
		}
		manifest := gen.OneIn(t.T, 3, "manifest")
		files := map[string]string{}  // runfiles by path
		target := map[string]string{} // those to collect, by place below the output directory
		var list []string
		link := map[string]bool{}
		add := func(p, text, place string) {
			for q := range files { // a path is a file or a directory
				if q == p || strings.HasPrefix(q, p+"/") || strings.HasPrefix(p, q+"/") {
					return
				}
			}
			if place != "" {
				for q := range target {
					if q == place || strings.HasPrefix(q, place+"/") || strings.HasPrefix(place, q+"/") {
						return
					}
				}
				target[place] = text
			}
			files[p] = text
			list = append(list, p)
		}
		for i, n := 0, gen.Int(t.T, 0, 8, "files"); i < n; i++ {
			place := gen.Pick(t.T, "name", "a.go", "a.pb.go", "b.pb.go", "a_grpc.pb.go", ".go", "ü.pb.go", "x.go.go", "go.go", "a_test.go", "a_linux.go", "_a.go", ".a.pb.go", "doc.go", "a b.go", "zz_generated.pb.go")
			if manifest {
				place = strings.ReplaceAll(place, " ", "-") // a manifest cannot hold it
			}
			for j, m := 0, gen.Int(t.T, 0, 3, "depth"); j < m; j++ {
				place = gen.Pick(t.T, "dir", "service", "wirepath", "testproto", "x_go_proto_", "proto", "a-b", "v2") + "/" + place
			}
			prefix := gen.Pick(t.T, "config", "", "main/", "main/proto/service/linux_amd64_stripped/service_go_proto%/", "main/proto/service_go_proto_/", "ext/bazel-out/k8-fastbuild/bin/", "w/")
			text := fmt.Sprintf("package p // %d %s", i, gen.Text(t.T, 20, "text"))
			if gen.OneIn(t.T, 8, "odd") {
				text = gen.Pick(t.T, "oddtext", "", "\ufeffpackage p\n", "package p\r\n", "\n\n package p \n\n", "\x00\xff\xfe", "// +build ignore\n\npackage p\n", "package p")
			}
			if gen.OneIn(t.T, 12, "large") {
				text += strings.Repeat("\n// more", gen.Pick(t.T, "size", 5000, 40000))
			}
			switch gen.Int(t.T, 0, 7, "kind") {
			case 0: // not a Go file
				add(prefix+imp+"/"+place+gen.Pick(t.T, "ext", ".txt", ".gox", "~", ".proto"), text, "")
			case 1: // not below the import path
				if p := prefix + gen.Pick(t.T, "elsewhere", "other/", "github.com/google/xtoproto/", "github.com/google/", imp+"x/", "cmd/"); !strings.Contains("/"+p+place, "/"+imp+"/") && !strings.Contains(p+place, imp+"/") {
					add(p+place, text, "")
				}
			default:
				if i := strings.Index(prefix+imp+"/"+place, imp+"/"); i == len(prefix) {
					add(prefix+imp+"/"+place, text, place)
				}
			}
		}
		ws := gen.Pick(t.T, "workspace", "main", "")
		run := filepath.Join(dir, "tool.runfiles")
		os.MkdirAll(run, 0755)
		var lines []string
		sort.Strings(list)
		for i, p := range list {
			if manifest {
				cmdx.Put(dir, fmt.Sprintf("store/%d", i), files[p])
				lines = append(lines, path.Join("main", p)+" "+filepath.Join(dir, fmt.Sprintf("store/%d", i)))
				continue
			}
			if link[p] = gen.Bool(t.T, "link"); link[p] {
				cmdx.Put(dir, fmt.Sprintf("store/%d", i), files[p])
				os.MkdirAll(filepath.Join(run, ws, path.Dir(p)), 0755)
				if err := os.Symlink(filepath.Join(dir, fmt.Sprintf("store/%d", i)), filepath.Join(run, ws, p)); err != nil {
					pbt.Infra("%v", err)
				}
			} else {
				cmdx.Put(run, path.Join(ws, p), files[p])
			}
		}
		env := []string{"RUNFILES_DIR=" + run}
		if ws != "" && gen.Bool(t.T, "named") {
			env = append(env, "TEST_WORKSPACE="+ws)
		}
		if manifest {
			cmdx.Put(dir, "MANIFEST", strings.Join(lines, "\n")+"\n")
			env = []string{"RUNFILES_MANIFEST_FILE=" + filepath.Join(dir, "MANIFEST")}
			if gen.Bool(t.T, "both") {
				env = append(env, "RUNFILES_DIR="+run)
			} else {
				env = append(env, "TEST_SRCDIR="+run)
			}
		}
		out := gen.Pick(t.T, "out", "out", "deep/er/out", "cwd/a b")
		cmdx.Put(dir, "cwd/keep", "keep")
		cmdx.Put(dir, "out/keep.txt", "keep")
		var places []string
		for p := range target {
			places = append(places, p)
		}
		sort.Strings(places)
		for _, p := range places {
			if gen.OneIn(t.T, 4, "old") {
				// Longer, or like the new file in some way.
				text := target[p]
				switch gen.Int(t.T, 0, 4, "oldkind") {
				case 0:
					text = strings.Repeat("x", len(text))
				case 1:
					text = "~" + text[len(text)/2:] + text[:len(text)/2]
				case 2:
					text += "// more"
				case 3:
					text = text[:len(text)/2]
				default:
					text = strings.Repeat("old", 500)
				}
				cmdx.Put(dir, path.Join(out, p), text)
			}
		}
		secret := ""
		if len(places) == 0 {
			fault = ""
		}
		if fault != "" {
			p := gen.Pick(t.T, "victim", places...)
			switch fault {
			case "blocked":
				os.RemoveAll(filepath.Join(dir, out, p))
				os.MkdirAll(filepath.Join(dir, out, p), 0755)
			case "unreadable":
				fault = ""
				for _, q := range list {
					if target[p] == files[q] && !manifest && !link[q] && cmdx.Unprivileged() {
						secret = filepath.Join(run, ws, q)
						fault = "unreadable"
					}
				}
			case "dangling":
				fault = ""
				for i, q := range list {
					if target[p] == files[q] && (manifest || link[q]) {
						os.Remove(filepath.Join(dir, fmt.Sprintf("store/%d", i)))
						fault = "dangling"
					}
				}
			}
		}
		before := cmdx.Tree(dir)
		cmdx.Own(dir)
		if secret != "" {
			os.Chmod(secret, 0)
		}
		arg := filepath.Join(dir, out)
		if gen.Bool(t.T, "relative") {
			arg, _ = filepath.Rel(filepath.Join(dir, "cwd"), arg)
		}
		args := []string{"-output_dir=" + arg}
		if imp != defaultPath || gen.Bool(t.T, "explicit") {
			args = append(args, "-import_path", imp)
		}
		desc := strings.ReplaceAll(fmt.Sprintf("fault %q args %q env %q files %q", fault, args, env, files), dir, "DIR")
		t.Case(len(target) > 0 && len(files) > len(target), desc)
		stdout, stderr, code := cmdx.Run(filepath.Join(dir, "cwd"), exe, env, args)
		got := cmdx.Tree(dir)
		may := func(string) bool { return false }
		if fault == "" {
			if code != 0 {
				t.Fatalf("%s: exit %d\n%s%s", desc, code, stdout, stderr)
			}
			for p, text := range target {
				before[path.Join(out, p)] = text
			}
			t.Class("collected")
		} else {
			if code <= 0 || strings.Contains(stderr, "goroutine ") || strings.TrimSpace(stderr) == "" {
				t.Fatalf("%s: exit %d\n%s%s", desc, code, stdout, stderr)
			}
			ours := map[string]bool{}
			for p := range target {
				ours[path.Join(out, p)] = true
			}
			may = func(p string) bool { return ours[p] }
			t.Class("fault " + fault)
		}
		if d := cmdx.Diff(got, before, may); d != "" {
			t.Fatalf("%s: %s", desc, d)
		}
	})
}
