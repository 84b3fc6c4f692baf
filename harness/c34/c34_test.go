package c34

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/google/xtoproto/verifharness/cmdx"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "runs of make_release on random git workspaces (branches, ignored and stray files, generated files in subdirectories) with a stand-in for bazel that writes random generated and web files, as they are or with one step made to fail; non-trivial: every run with generated files; distinct by workspace, arguments and fault")
}

// The stand-in for bazel copies what it is to have generated to where it is told to.
const bazel = `#!/bin/bash
D=%s
echo "$*" >> "$D/log"
out=
for ((i = 1; i <= $#; i++)); do
  case "${!i}" in
    -output_dir=*|--output_dir=*) out=${!i#*=};;
    -output_dir|--output_dir) j=$((i + 1)); out=${!j};;
  esac
done
case "$*" in
  *generate_pb_go_files*) what=gen;;
  *xtoproto_web*) what=web;;
  *) echo "what is $*?"; exit 7;;
esac
[ -e "$D/fail-early-$what" ] && exit 3
# As under bazel, the command runs elsewhere.
cd / || exit 8
mkdir -p "$out" && cp -R "$D/$what/." "$out" || exit 9
[ -e "$D/fail-late-$what" ] && { echo "it breaks"; exit 1; }
exit 0
`

var gitEnv = []string{"GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_GLOBAL=/dev/null", "GIT_AUTHOR_NAME=a", "GIT_AUTHOR_EMAIL=a@b", "GIT_COMMITTER_NAME=a", "GIT_COMMITTER_EMAIL=a@b", "GIT_TERMINAL_PROMPT=0", "LC_ALL=C.UTF-8"}

func git(dir string, args ...string) (string, bool) {
	out, stderr, code := cmdx.Run(dir, "/usr/bin/git", gitEnv, args)
	if code != 0 {
		return stderr, false
	}
	return strings.TrimSuffix(out, "\n"), true
}

func mustGit(dir string, args ...string) string {
	out, ok := git(dir, args...)
	if !ok {
		pbt.Infra("git %q: %s", args, out)
	}
	return out
}

// files lists what a commit holds.
func files(dir, commit string) map[string]string {
	m := map[string]string{}
	for _, p := range strings.Split(mustGit(dir, "ls-tree", "-r", "-z", "--name-only", commit), "\x00") {
		if p != "" {
			out, _, code := cmdx.Run(dir, "/usr/bin/git", gitEnv, []string{"cat-file", "blob", commit + ":" + p})
			if code != 0 {
				pbt.Infra("git cat-file %s:%s", commit, p)
			}
			m[p] = out
		}
	}
	return m
}

func sorted(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// The steps, in order; a fault makes one of them fail.
var faults = map[string]int{
	"no tag": 0, "no workspace": 0, "no working directory": 0, "changed": 1, "staged": 1, "deleted": 1, "no repository": 1,
	"branch exists": 2, "no main": 2, "generator fails early": 3, "generator fails late": 3, "nothing generated": 5, "commit refused": 5, "tag exists": 6, "bad tag": 6,
	"staging blocked": 7, "web fails early": 8, "web fails late": 8, "no gh-pages": 9, "no origin": 9, "pages branch exists": 9, "checkout blocked": 10, "copy blocked": 11,
}

func TestRelease(t *testing.T) {
	if _, err := exec.LookPath("git"); err != nil {
		pbt.Infra("no git: %v", err)
	}
	exe := cmdx.Build("releasing/make_release")
	var names []string
	for f := range faults {
		names = append(names, f)
	}
	sort.Strings(names)
	pbt.Check(t, 140, func(t *pbt.T) {
		dir := pbt.Scratch("release")
		defer os.RemoveAll(dir)
		fault := ""
		if !gen.OneIn(t.T, 3, "faultless") {
			fault = gen.Pick(t.T, "fault", names...)
		}
		step, faulty := 99, fault != ""
		if faulty {
			step = faults[fault]
		}
		ws := filepath.Join(dir, gen.Pick(t.T, "ws", "ws", "work space", "w[s]"))
		staging := filepath.Join(dir, gen.Pick(t.T, "staging", "staging", "deep/er/st", "st age", "st[x]", "st*", "st{a,b}"))
		suffix := gen.Pick(t.T, "suffix", "v006c", "", "-1", "_é")
		tag := gen.Pick(t.T, "tag", "v0.0.6", "v1", "t/x", "v1-rc.1")
		if fault == "bad tag" {
			tag = gen.Pick(t.T, "badtag", "v 1", "v..1", "v1.lock", "a~b")
		}
		release, pages := "release"+suffix, "gh-pages-release"+suffix

		// The workspace.
		tracked := map[string]string{".gitignore": "*.pb.go\n/ignored\n", "README": "read me\n", "proto/a.proto": "syntax"}
		for i, n := 0, gen.Int(t.T, 0, 3, "tracked"); i < n; i++ {
			tracked[gen.Pick(t.T, "trackedname", "proto/service/s.proto", "go.mod", "x/y.go", "proto/BUILD", "index")] = gen.Text(t.T, 10, "content")
		}
		put := func(base string, m map[string]string) {
			for _, p := range sorted(m) {
				cmdx.Put(base, p, m[p])
			}
		}
		os.MkdirAll(ws, 0755)
		put(ws, tracked)
		cmdx.Own(dir)
		first := "main"
		if fault == "no main" {
			first = "trunk"
		}
		mustGit(ws, "init", "-q", "-b", first)
		mustGit(ws, "add", "-A")
		mustGit(ws, "commit", "-q", "-m", "first")
		if gen.Bool(t.T, "otherbranch") { // work goes on elsewhere
			mustGit(ws, "checkout", "-q", "-b", "feature")
			tracked2 := map[string]string{"feature.txt": "f"}
			put(ws, tracked2)
			cmdx.Own(dir)
			mustGit(ws, "add", "-A")
			mustGit(ws, "commit", "-q", "-m", "feature")
		}
		head := mustGit(ws, "rev-parse", "HEAD")
		mainCommit := ""
		if fault != "no main" {
			mainCommit = mustGit(ws, "rev-parse", "main")
		}
		// Files that are in no commit.
		stray := map[string]string{}
		pbgo := map[string]string{} // to be committed
		for i, n := 0, gen.Int(t.T, 0, 2, "stray"); i < n; i++ {
			stray[gen.Pick(t.T, "strayname", "ignored", "notes.txt", "x/elsewhere.pb.go", "proto/notes", "proto/x.go")] = "stray"
		}
		if fault != "nothing generated" && gen.OneIn(t.T, 3, "leftover") {
			pbgo["proto/old/left.pb.go"] = "left over"
		}
		put(ws, stray)
		put(ws, pbgo)
		// What bazel makes.
		web := map[string]string{}
		os.MkdirAll(filepath.Join(dir, "gen"), 0755)
		os.MkdirAll(filepath.Join(dir, "web"), 0755)
		if fault != "nothing generated" {
			for i, n := 0, gen.Int(t.T, 1, 3, "generated"); i < n; i++ {
				p := gen.Pick(t.T, "genname", "a.pb.go", "service/s.pb.go", "service/deep/d e.pb.go", "é.pb.go", "[x].pb.go", "b_grpc.pb.go", "service/a.pb.go", "other/a.pb.go", "service/deep/s.pb.go", ".hidden/h.pb.go", "x_test.pb.go")
				text := "package p // " + gen.Text(t.T, 8, "gentext")
				cmdx.Put(filepath.Join(dir, "gen"), p, text)
				pbgo["proto/"+p] = text
			}
			if gen.OneIn(t.T, 3, "notpb") {
				cmdx.Put(filepath.Join(dir, "gen"), "zz/plain.go", "package p")
			}
		}
		for i, n := 0, gen.Int(t.T, 1, 3, "webfiles"); i < n; i++ {
			p := gen.Pick(t.T, "webname", "index.html", "playground/index.html", "playground/playground.wasm", "third_party/x.js", ".nojekyll", "a b.css", "-r")
			web[p] = gen.Text(t.T, 8, "webtext")
		}
		if fault == "copy blocked" {
			web["index.html"] = "x"
		}
		put(filepath.Join(dir, "web"), web)
		cmdx.Put(dir, "bin/bazel", fmt.Sprintf(bazel, "'"+dir+"'"))
		os.Chmod(filepath.Join(dir, "bin/bazel"), 0755)
		// The main repository with the pages.
		old := map[string]string{"old.html": "old", "CNAME": "x"}
		if gen.Bool(t.T, "oldindex") {
			old["index.html"] = "old index"
			old["playground/index.html"] = "old"
		}
		if fault == "copy blocked" {
			delete(old, "index.html")
			old["index.html/x"] = "a directory"
		}
		origin := filepath.Join(dir, "origin.git")
		os.MkdirAll(origin, 0755)
		put(origin, old)
		cmdx.Own(dir)
		mustGit(origin, "init", "-q", "-b", gen.Pick(t.T, "originmain", "main", "gh-pages"))
		mustGit(origin, "add", "-A")
		mustGit(origin, "commit", "-q", "-m", "pages")
		if fault == "no gh-pages" {
			mustGit(origin, "checkout", "-q", "-b", "pages")
			mustGit(origin, "branch", "-f", "main")
			git(origin, "branch", "-D", "gh-pages")
		} else if mustGit(origin, "branch", "--show-current") != "gh-pages" {
			mustGit(origin, "branch", "gh-pages")
		}
		pagesCommit := mustGit(origin, "rev-parse", "HEAD")

		switch fault {
		case "changed":
			cmdx.Put(ws, "README", "read me again\n")
		case "staged":
			cmdx.Put(ws, "README", "read me again\n")
			mustGit(ws, "add", "README")
		case "deleted":
			os.Remove(filepath.Join(ws, "README"))
		case "no repository":
			os.RemoveAll(filepath.Join(ws, ".git"))
		case "branch exists":
			mustGit(ws, "branch", release)
		case "generator fails early", "generator fails late", "web fails early", "web fails late":
			w := strings.Fields(fault)
			cmdx.Put(dir, "fail-"+w[2]+"-"+map[string]string{"generator": "gen", "web": "web"}[w[0]], "")
		case "commit refused":
			cmdx.Put(ws, ".git/hooks/pre-commit", "#!/bin/bash\nexit 1\n")
			os.Chmod(filepath.Join(ws, ".git/hooks/pre-commit"), 0755)
		case "tag exists":
			mustGit(ws, "tag", tag)
		case "staging blocked":
			cmdx.Put(filepath.Dir(staging), "blocker", "")
			staging = filepath.Join(filepath.Dir(staging), "blocker", "staging")
		case "no origin":
			origin += "x"
		case "pages branch exists":
			mustGit(ws, "branch", pages)
		case "checkout blocked":
			cmdx.Put(ws, "CNAME", "my own")
		}
		cmdx.Own(dir)
		if fault != "no repository" {
			// diff-index takes a file whose owner has changed for changed.
			git(ws, "update-index", "-q", "--refresh")
		}

		env := append([]string{"PATH=" + filepath.Join(dir, "bin") + ":/usr/bin:/bin"}, gitEnv...)
		cwd := ws
		where := gen.Int(t.T, 0, 2, "where")
		if where < 2 {
			cwd = dir
		}
		stagingArg := staging
		if gen.OneIn(t.T, 4, "relativestaging") {
			stagingArg, _ = filepath.Rel(cwd, staging)
		}
		args := []string{"--staging", stagingArg, "--google_xproto_repository", origin}
		if suffix != "" {
			args = append(args, "--branch_suffix="+suffix)
		}
		if fault != "no tag" {
			args = append(args, "--tag", tag)
		} else if gen.Bool(t.T, "emptytag") {
			args = append(args, "--tag=")
		}
		switch where {
		case 0:
			args = append(args, "--workspace", ws)
		case 1:
			args = append(args, "--workspace", gen.Pick(t.T, "wsarg", filepath.Base(ws), "./"+filepath.Base(ws)+"/"))
		}
		run := exe
		runArgs := args
		switch fault {
		case "no workspace":
			args = append(args, "--workspace", filepath.Join(dir, "nowhere"))
			runArgs = args
		case "no working directory":
			// The directory that it is started in is gone.
			os.MkdirAll(filepath.Join(dir, "gone"), 0777)
			cmdx.Own(dir)
			args = []string{"--staging", staging, "--google_xproto_repository", origin, "--tag", tag}
			run, runArgs = "/bin/bash", append([]string{"-c", `cd ../gone 2>/dev/null || cd ./gone && rmdir "$PWD" && exec "$@"`, "x", exe}, args...)
		}
		desc := fmt.Sprintf("args %q in %s, fault %q, tracked %q, stray %q, generated %q, web %q, pages %q", args, cwd, fault, tracked, stray, pbgo, web, old)
		t.Case(len(pbgo) > 0, strings.ReplaceAll(desc, dir, "DIR"))
		t.Class("fault " + fault)
		before := ""
		if fault != "no repository" {
			before = mustGit(ws, "for-each-ref")
		}
		treeBefore := plain(cmdx.Tree(ws))
		stdout, stderr, code := cmdx.Run(cwd, run, env, runArgs)
		fail := func(format string, a ...interface{}) {
			t.Fatalf("%s\n%s\nexit %d\n%s\n%s", fmt.Sprintf(format, a...), desc, code, stdout, stderr)
		}
		log, _ := os.ReadFile(filepath.Join(dir, "log"))
		ran := func(what string) bool { return strings.Contains(string(log), what) }
		if fault == "no repository" {
			if code == 0 || len(log) > 0 || cmdx.Diff(plain(cmdx.Tree(ws)), treeBefore, nil) != "" {
				fail("the workspace is no repository, and it went on")
			}
			return
		}
		// What there is now.
		tagCommit, hasTag := git(ws, "rev-parse", "-q", "--verify", "refs/tags/"+tag+"^{commit}")
		relCommit, hasRel := git(ws, "rev-parse", "-q", "--verify", "refs/heads/"+release)
		pgCommit, hasPages := git(ws, "rev-parse", "-q", "--verify", "refs/heads/"+pages)
		if mainCommit != "" && mustGit(ws, "rev-parse", "main") != mainCommit {
			fail("main has moved")
		}
		if faulty {
			if code == 0 {
				fail("a step fails, and it reports success")
			}
			if strings.TrimSpace(stderr) == "" {
				fail("it fails without a word")
			}
			if strings.Contains(stdout, "git push") {
				fail("it fails and asks for a push")
			}
		} else if code != 0 {
			fail("it fails")
		}
		if step <= 2 {
			if now := mustGit(ws, "for-each-ref"); now != before {
				fail("it changed the refs, which were\n%s\nto\n%s", before, now)
			}
			if mustGit(ws, "rev-parse", "HEAD") != head {
				fail("it moved HEAD")
			}
			if d := cmdx.Diff(plain(cmdx.Tree(ws)), treeBefore, nil); d != "" {
				fail("it changed files: %s", d)
			}
			if len(log) > 0 {
				fail("it went on to generate: %s", log)
			}
			return
		}
		if !hasRel {
			fail("there is no branch %q", release)
		}
		if !ran("generate_pb_go_files") {
			fail("nothing was generated")
		}
		if step <= 5 {
			if relCommit != mainCommit || hasTag {
				fail("the generated files were not made or committed; the branch is at %s (main %s), the tag at %s", relCommit, mainCommit, tagCommit)
			}
		} else {
			// The release: main and the generated files.
			if p := mustGit(ws, "rev-parse", relCommit+"^@"); p != mainCommit {
				fail("the release follows %q, want main (%s)", p, mainCommit)
			}
			want := files(ws, mainCommit)
			for p, s := range pbgo {
				want[p] = s
			}
			if d := cmdx.Diff(files(ws, relCommit), want, nil); d != "" {
				fail("the release is wrong: %s", d)
			}
			if fault == "tag exists" && tagCommit != head {
				fail("the tag was moved")
			}
			if step > 6 && tagCommit != relCommit {
				fail("the tag is at %q, the release at %s", tagCommit, relCommit)
			}
		}
		if step <= 7 && ran("xtoproto_web") {
			fail("it went on to make the pages: %s", log)
		}
		if step <= 9 {
			if hasPages != (fault == "pages branch exists") || hasPages && pgCommit != head {
				fail("the branch of the pages was made or moved: %s", pgCommit)
			}
			if mustGit(ws, "symbolic-ref", "HEAD") != "refs/heads/"+release {
				fail("it went to another branch")
			}
			return
		}
		// The pages: those of the main repository with the new files over them.
		if pgCommit != pagesCommit {
			fail("the branch of the pages is at %q, want %s", pgCommit, pagesCommit)
		}
		if step <= 10 {
			if b, _ := os.ReadFile(filepath.Join(ws, "CNAME")); string(b) != "my own" {
				fail("a file of the user was overwritten")
			}
			return
		}
		if mustGit(ws, "symbolic-ref", "HEAD") != "refs/heads/"+pages {
			fail("the branch of the pages is not checked out")
		}
		want := map[string]string{}
		for _, m := range []map[string]string{stray, old} {
			for p, s := range m {
				want[p] = s
			}
		}
		if _, err := os.Stat(filepath.Join(dir, "gen/zz/plain.go")); err == nil {
			want["proto/zz/plain.go"] = "package p"
		}
		got := plain(cmdx.Tree(ws))
		if step == 11 {
			for p, s := range old {
				if got[p] != s && web[p] == "" {
					fail("the page %q is damaged", p)
				}
			}
			return
		}
		for p, s := range web {
			want[p] = s
		}
		if d := cmdx.Diff(got, want, nil); d != "" {
			fail("the files at the end are wrong: %s", d)
		}
		if !strings.Contains(stdout, tag) || !strings.Contains(stdout, pages) {
			fail("the output does not name the tag and the branch to push")
		}
	})
}

// plain leaves out git's own files.
func plain(m map[string]string) map[string]string {
	out := map[string]string{}
	for p, s := range m {
		if !strings.HasPrefix(p, ".git/") {
			out[p] = s
		}
	}
	return out
}
