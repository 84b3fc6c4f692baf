package c32

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"testing/fstest"
	"time"

	"github.com/google/xtoproto/verifharness/cmdx"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "HTTP requests (GET, HEAD and ranges; paths of the static files and of other files beside them, plain, escaped, with dot segments, doubled and trailing slashes, and arbitrary ones) to xtoproto_web over random runfiles trees, and runs that write the static files out, with missing files and places; non-trivial: a path that is not that of a static file spelled plainly; distinct by request")
}

// sources is where the runfiles of the static files are.
var sources = map[string]string{
	"playground.wasm":       "playground/playground.wasm",
	"index.html":            "playground/index.html",
	"playground.html":       "playground/index.html",
	"prism-theme-dark.css":  "playground/prism-theme-dark.css",
	"prism-theme-light.css": "playground/prism-theme-light.css",
	"wasm_exec.js":          "third_party/wasm_exec.js",
}

var others = []string{"playground/playground.go", "playground/secret.html", "third_party/secret.js", "secret.txt", "playground/playground.wasm.bak", "proto/x.pb.go"}

func content(t *pbt.T, p string) string {
	switch gen.Int(t.T, 0, 5, "content") {
	case 0:
		return ""
	case 1:
		return p + " " + strings.Repeat("\x00asm\xff", gen.Pick(t.T, "size", 1, 10, 20000, 300000))
	}
	return p + " " + gen.Text(t.T, 40, "text")
}

// runfiles makes a runfiles tree below dir, without one of the files if missing is given.
func runfiles(t *pbt.T, dir, missing string) (env []string, files map[string]string) {
	files = map[string]string{}
	ws := gen.Pick(t.T, "workspace", "com_github_google_xtoproto", "main", "")
	for _, p := range append([]string{"playground/playground.wasm", "playground/index.html", "playground/prism-theme-dark.css", "playground/prism-theme-light.css", "third_party/wasm_exec.js"}, others...) {
		files[p] = content(t, p)
		if p != missing {
			cmdx.Put(dir, path.Join("run", ws, p), files[p])
		} else {
			delete(files, p)
		}
	}
	env = []string{"RUNFILES_DIR=" + filepath.Join(dir, "run")}
	if ws != "" {
		if gen.Bool(t.T, "named") {
			env = append(env, "TEST_WORKSPACE="+ws)
		}
	} else {
		env = append(env, "TEST_WORKSPACE=.")
	}
	return env, files
}

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		pbt.Infra("%v", err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// serve starts the server. The function that stops it gives what it printed.
func serve(dir, exe string, env []string) (addr string, stop func() string) {
	for try := 0; try < 5; try++ {
		addr = fmt.Sprintf("127.0.0.1:%d", freePort())
		cmd := cmdx.Command(dir, exe, env, []string{"-addr=" + addr})
		var log bytes.Buffer
		cmd.Stdout, cmd.Stderr = &log, &log
		if err := cmd.Start(); err != nil {
			pbt.Infra("starting the server: %v", err)
		}
		ended := make(chan struct{})
		go func() { cmd.Wait(); close(ended) }()
		stop = func() string { cmd.Process.Kill(); <-ended; return log.String() }
		for i := 0; i < 1500; i++ {
			c, err := net.Dial("tcp", addr)
			if err == nil {
				c.Close()
				select {
				case <-ended:
				default:
					return addr, stop
				}
			}
			select {
			case <-ended:
				i = 1 << 20 // the port was taken in the meantime
			case <-time.After(20 * time.Millisecond):
			}
		}
		stop()
	}
	return "", nil
}

// target draws a request path.
func target(t *pbt.T) string {
	var names []string
	for n := range sources {
		names = append(names, "/"+n)
	}
	sortStrings(names)
	all := append(append([]string{"/", "/", ""}, names...), names...)
	for _, o := range others {
		all = append(all, "/"+o, "/"+path.Base(o))
	}
	all = append(all, "/playground/index.html", "/third_party/wasm_exec.js", "/playground", "/playground/", "/etc/passwd", "/run", "/.", "/..", "/Index.html", "/playground.wasm/x", "/index.htm", "/prism-theme-dark", "/../run/secret.txt", "/favicon.ico")
	p := gen.Pick(t.T, "target", all...)
	for i, n := 0, gen.Int(t.T, -2, 2, "bends"); i < n; i++ {
		j := gen.Int(t.T, 0, len(p), "where")
		switch gen.Int(t.T, 0, 5, "bend") {
		case 0:
			p = p[:j] + gen.Pick(t.T, "insert", "/", "//", "/./", "/../", "/x/../", "%2e", "%2f", "%00", ".", "%5c..", "?", "#", ";", "%") + p[j:]
		case 1:
			if j < len(p) {
				p = p[:j] + fmt.Sprintf("%%%02X", p[j]) + p[j+1:]
			}
		case 2:
			p += "/"
		case 3:
			p = gen.Pick(t.T, "prefix", "/x/..", "/.", "/..", "/", "/playground/..", "/%2e%2e") + p
		case 4:
			if j < len(p) {
				p = p[:j] + p[j+1:]
			}
		case 5:
			p += gen.Pick(t.T, "query", "?", "?x=1", "?../secret.txt", "?/index.html")
		}
	}
	return p
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// clean returns the path that a target means.
func clean(target string) string {
	u, err := url.ParseRequestURI(target)
	if err != nil {
		return ""
	}
	return path.Clean("/" + u.Path)
}

// static2 gives the static files by their names on the web.
func static2(files map[string]string) fstest.MapFS {
	m := fstest.MapFS{}
	for n, src := range sources {
		if c, ok := files[src]; ok {
			m[n] = &fstest.MapFile{Data: []byte(c)}
		}
	}
	return m
}

// model answers a request with net/http's own file server over the static files alone.
func model(m fstest.MapFS, method, target, header string) (status int, loc, body string) {
	r, err := http.ReadRequest(bufio.NewReader(strings.NewReader(wire(method, target, header))))
	if err != nil {
		return 400, "", ""
	}
	w := httptest.NewRecorder()
	http.FileServer(http.FS(m)).ServeHTTP(w, r)
	if method == "HEAD" {
		w.Body.Reset()
	}
	return w.Code, w.Header().Get("Location"), w.Body.String()
}

func wire(method, target, header string) string {
	return fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\n%sConnection: close\r\n\r\n", method, target, header)
}

func TestServer(t *testing.T) {
	exe := cmdx.Build("cmd/xtoproto_web", "-race")
	pbt.Check(t, 12, func(t *pbt.T) {
		dir := pbt.Scratch("web")
		defer os.RemoveAll(dir)
		missing := ""
		if gen.OneIn(t.T, 4, "missing") {
			missing = gen.Pick(t.T, "which", "playground/index.html", "third_party/wasm_exec.js", "playground/prism-theme-dark.css")
		}
		env, files := runfiles(t, dir, missing)
		cmdx.Put(dir, "cwd/keep", "")
		cmdx.Own(dir)
		addr, stop := serve(filepath.Join(dir, "cwd"), exe, env)
		if stop == nil {
			t.Fatalf("the server does not listen")
		}
		defer stop()
		before := cmdx.Tree(dir)
		var names []string
		for n := range sources {
			names = append(names, n)
		}
		sortStrings(names)
		// As browsers do: everything at once.
		answers := make([]string, 24)
		var wg sync.WaitGroup
		for i := range answers {
			n := gen.Pick(t.T, "atonce", names...)
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				status, _, body, err := ask(addr, "GET", "/"+n, "")
				want, present := files[sources[n]]
				if n == "index.html" { // a redirection
					want, present = "", false
				}
				if err != nil || present && (status != 200 || body != want) || !present && status == 200 {
					answers[i] = fmt.Sprintf("%s, asked for beside others: status %d, %v, body %q", n, status, err, cmdx.Clip(body))
				}
			}(i)
		}
		wg.Wait()
		for _, a := range answers {
			if a != "" {
				t.Fatalf("%s", a)
			}
		}
		for i := 0; i < 250; i++ {
			method := gen.Pick(t.T, "method", "GET", "GET", "GET", "HEAD")
			target := target(t)
			if target == "" || target[0] != '/' {
				target = "/" + target
			}
			name := strings.TrimPrefix(clean(target), "/")
			src, static := sources[name]
			want, present := files[src]
			header := ""
			lo, hi := 0, len(want)
			if present && len(want) > 2 && gen.OneIn(t.T, 5, "range") {
				lo = gen.Int(t.T, 0, len(want)-1, "lo")
				hi = gen.Int(t.T, lo+1, len(want), "hi")
				header = fmt.Sprintf("Range: bytes=%d-%d\r\n", lo, hi-1)
			}
			key := fmt.Sprintf("%s %s %s", method, target, header)
			t.Sub(target != "/"+name, key)
			status, loc, body, err := ask(addr, method, target, header)
			if err != nil {
				t.Fatalf("%s: %v", key, err)
			}
			if missing != "" && (name == "" || static && !present) {
				if status == 200 && (method == "GET" && name != "" || strings.Contains(body, "secret")) || status < 200 {
					t.Fatalf("%s: status %d, body %q for a file that is not there", key, status, cmdx.Clip(body))
				}
				t.Class("missing")
				continue
			}
			wstatus, wloc, wbody := model(static2(files), method, target, header)
			if status != wstatus || loc != wloc || wstatus < 400 && body != wbody {
				t.Fatalf("%s: status %d, location %q, body %q\nwant status %d, location %q, body %q", key, status, loc, cmdx.Clip(body), wstatus, wloc, cmdx.Clip(wbody))
			}
			for _, o := range others {
				if len(files[o]) > 4 && strings.Contains(body, files[o]) {
					t.Fatalf("%s: gives away %s", key, o)
				}
			}
			t.Class(fmt.Sprint("status ", status))
		}
		if d := cmdx.Diff(cmdx.Tree(dir), before, nil); d != "" {
			t.Fatalf("serving changed files: %s", d)
		}
		if log := stop(); strings.Contains(log, "DATA RACE") {
			t.Fatalf("requests race:\n%s", cmdx.Clip(log))
		}
	})
}

func ask(addr, method, target, header string) (status int, loc, body string, err error) {
	c, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if err != nil {
		return 0, "", "", err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(30 * time.Second))
	io.WriteString(c, wire(method, target, header))
	resp, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: method})
	if err != nil {
		return 0, "", "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, resp.Header.Get("Location"), string(b), err
}

func TestOutput(t *testing.T) {
	exe := cmdx.Build("cmd/xtoproto_web")
	pbt.Check(t, 120, func(t *pbt.T) {
		dir := pbt.Scratch("pages")
		defer os.RemoveAll(dir)
		fault := ""
		missing := ""
		if gen.OneIn(t.T, 3, "faulty") {
			fault = gen.Pick(t.T, "fault", "no place", "missing", "blocked")
		}
		if fault == "missing" {
			missing = gen.Pick(t.T, "which", "playground/index.html", "third_party/wasm_exec.js", "playground/prism-theme-dark.css", "playground/playground.wasm", "playground/prism-theme-light.css")
		}
		env, files := runfiles(t, dir, missing)
		cmdx.Put(dir, "cwd/keep", "keep")
		out := gen.Pick(t.T, "out", "cwd", "cwd/out", "cwd/a b")
		if fault != "no place" {
			cmdx.Put(dir, out+"/README.md", "keep")
		} else {
			out = "cwd/nowhere"
		}
		var names []string
		for n := range sources {
			names = append(names, n)
		}
		sortStrings(names)
		for _, n := range names {
			if fault != "no place" && gen.OneIn(t.T, 4, "old") {
				// Longer, or like the new file in some way.
				text := files[sources[n]]
				switch gen.Int(t.T, 0, 4, "oldkind") {
				case 0:
					text = strings.Repeat("x", len(text))
				case 1:
					text = "~" + text[len(text)/2:] + text[:len(text)/2]
				case 2:
					text += "more"
				case 3:
					text = text[:len(text)/2]
				default:
					text = strings.Repeat("old", 1000)
				}
				cmdx.Put(dir, out+"/"+n, text)
			}
		}
		if fault == "blocked" {
			p := filepath.Join(dir, out, gen.Pick(t.T, "blockedfile", "index.html", "wasm_exec.js", "playground.wasm"))
			os.Remove(p)
			os.MkdirAll(p, 0755)
		}
		cmdx.Own(dir)
		before := cmdx.Tree(dir)
		arg := filepath.Join(dir, out)
		if gen.Bool(t.T, "relative") {
			arg, _ = filepath.Rel(filepath.Join(dir, "cwd"), arg)
		}
		args := []string{"-output_dir=" + arg}
		t.Case(true, fmt.Sprintf("fault %q %q, files %q", fault, strings.ReplaceAll(args[0], dir, "DIR"), files))
		stdout, stderr, code := cmdx.Run(filepath.Join(dir, "cwd"), exe, env, args)
		got := cmdx.Tree(dir)
		places := map[string]bool{}
		for n, src := range sources {
			places[path.Join(out, n)] = true
			if fault == "" {
				before[path.Join(out, n)] = files[src]
			}
		}
		if fault == "" {
			if code != 0 {
				t.Fatalf("exit %d\n%s%s", code, stdout, stderr)
			}
			if d := cmdx.Diff(got, before, nil); d != "" {
				t.Fatalf("%s", d)
			}
			return
		}
		if code <= 0 || strings.Contains(stderr, "goroutine ") || strings.TrimSpace(stderr) == "" {
			t.Fatalf("fault %q: exit %d\n%s%s", fault, code, stdout, stderr)
		}
		if d := cmdx.Diff(got, before, func(p string) bool { return places[p] }); d != "" {
			t.Fatalf("fault %q: %s", fault, d)
		}
		t.Class("fault " + fault)
	})
}
