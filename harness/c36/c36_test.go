package c36

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	spb "github.com/google/xtoproto/proto/service"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/playx"
	"github.com/google/xtoproto/verifharness/tab"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "users' edits, in bursts, of the playground page's three texts, the page and its scripts run by node on a stand-in of a browser, the program there before, while or after the page is; a stand-in program with any answers, and the real one; non-trivial: at least one edit; distinct by the edits and answers")
}

const (
	inferBox, codegenBox, csvBox = "infer-request", "gen-request", "csv"
)

type scenario struct {
	Page    string        `json:"page"`
	Late    string        `json:"late"`
	Prism   string        `json:"prism"`
	Steps   [][][2]string `json:"steps"`
	Answers []string      `json:"answers"`
	Wasm    string        `json:"wasm,omitempty"`
	Exec    string        `json:"exec,omitempty"`
}

type point struct {
	State map[string]string
	Calls [][]string
}

type outcome struct {
	Trace  []point
	Log    []string
	Thrown []string
	Broken string
}

type browser struct {
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
	log bytes.Buffer
}

func open() *browser {
	node, err := exec.LookPath("node")
	if err != nil {
		pbt.Infra("no node: %v", err)
	}
	b := &browser{cmd: exec.Command(node, filepath.Join(os.Getenv("VERIF_HARNESS"), "c36", "page.js"))}
	b.cmd.Env = []string{"PATH=/usr/bin:/bin"}
	b.cmd.Stderr = &b.log
	b.in, _ = b.cmd.StdinPipe()
	out, _ := b.cmd.StdoutPipe()
	b.out = bufio.NewReaderSize(out, 1<<20)
	if err := b.cmd.Start(); err != nil {
		pbt.Infra("starting node: %v", err)
	}
	return b
}

func (b *browser) close() {
	b.in.Close()
	b.cmd.Process.Kill()
	b.cmd.Wait()
}

func (b *browser) play(s scenario) (*outcome, error) {
	j, err := json.Marshal(s)
	if err != nil {
		return nil, err
	}
	if _, err := b.in.Write(append(j, '\n')); err != nil {
		return nil, err
	}
	type res struct {
		l   []byte
		err error
	}
	c := make(chan res, 1)
	go func() {
		l, err := b.out.ReadBytes('\n')
		c <- res{l, err}
	}()
	select {
	case r := <-c:
		if r.err != nil {
			return nil, r.err
		}
		o := &outcome{}
		return o, json.Unmarshal(r.l, o)
	case <-time.After(4 * time.Minute):
		return nil, errors.New("no answer")
	}
}

// answer is what the program gives for a request: the JSON, and what the page
// is to show of it.
type answer struct {
	json           string
	err            string
	proto, conv    [2]string // name and contents
	infer, codegen string
}

func page() string { return filepath.Join(repo(), "playground", "index.html") }

func repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// anyText draws the contents of a box or file.
func anyText(t *pbt.T, label string) string {
	switch gen.Int(t.T, 0, 7, label+".kind") {
	case 0:
		return gen.Pick(t.T, label+".edge", "x", "<b>&amp;</b>", "// café — 价格 😀\n", "\ufeffx", "a\u2028b", "\u0080\u00ff\u0100\u07ff\u0800\uffff\U00010000\U0010ffff", "null", "0", "a\x00b", "\ttab\n\n", "</script>", "false")
	case 1:
		return strings.Repeat(gen.Pick(t.T, label+".unit", "line\n", "é", "😀", "价,"), gen.Pick(t.T, label+".times", 65, 1030, 9000, 70000))
	}
	s := strings.ToValidUTF8(gen.Text(t.T, 12, label), "\ufffd")
	if s == "" {
		return "syntax"
	}
	return s
}

// drawAnswer draws any answer of the program's form.
func drawAnswer(t *pbt.T) answer {
	type resp struct {
		Error   string                    `json:"error"`
		Infer   *spb.InferResponse        `json:"infer_response"`
		Codegen *spb.GenerateCodeResponse `json:"codegen_response"`
		Request *playx.Request            `json:"request"`
	}
	var a answer
	var r resp
	if gen.OneIn(t.T, 4, "fails") {
		a.err = anyText(t, "error")
		r.Error = a.err
		if gen.Bool(t.T, "inferred") {
			r.Infer = &spb.InferResponse{}
		}
	} else {
		a.proto = [2]string{anyText(t, "protoname"), anyText(t, "proto")}
		a.conv = [2]string{anyText(t, "convname"), anyText(t, "conv")}
		a.infer, a.codegen = anyText(t, "infer"), anyText(t, "codegen")
		r.Infer = &spb.InferResponse{}
		r.Codegen = &spb.GenerateCodeResponse{
			ProtoFile:       &spb.GenerateCodeResponse_File{WorkspaceRelativePath: a.proto[0], NewContents: []byte(a.proto[1])},
			ConverterGoFile: &spb.GenerateCodeResponse_File{WorkspaceRelativePath: a.conv[0], NewContents: []byte(a.conv[1])},
		}
		r.Request = &playx.Request{Infer: a.infer, Codegen: a.codegen, CSV: "zz"}
	}
	b, err := json.MarshalIndent(r, "", "  ")
	if err != nil {
		pbt.Infra("%v", err)
	}
	a.json = string(b)
	return a
}

// lf is what a text area makes of line ends.
func lf(s string) string { return strings.NewReplacer("\r\n", "\n", "\r", "\n").Replace(s) }

func brief(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q...(%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// shows compares what the page shows with an answer.
func shows(st map[string]string, a answer) string {
	want := map[string]string{"errors": a.err}
	if a.err == "" {
		want["code-proto"], want["code-proto-filename"] = a.proto[1], a.proto[0]
		want["code-go"], want["code-go-filename"] = a.conv[1], a.conv[0]
	}
	for _, id := range []string{"errors", "code-proto", "code-proto-filename", "code-go", "code-go-filename"} {
		w, ok := want[id]
		if !ok {
			continue
		}
		if got, has := st[id]; !has || got != w {
			return fmt.Sprintf("%s is %s, want %s", id, brief(got), brief(w))
		}
	}
	return ""
}

// drawEdits draws what a user does: bursts of changes of boxes.
func drawEdits(t *pbt.T, csv func(label string) string, request func(id string) string) [][][2]string {
	var steps [][][2]string
	for i, n := 0, gen.Int(t.T, 0, 4, "steps"); i < n; i++ {
		var burst [][2]string
		for j, k := 0, gen.Pick(t.T, "burst", 1, 1, 1, 2, 3); j < k; j++ {
			switch gen.Int(t.T, 0, 4, "box") {
			case 0:
				burst = append(burst, [2]string{inferBox, request(inferBox)})
			case 1:
				burst = append(burst, [2]string{codegenBox, request(codegenBox)})
			default:
				burst = append(burst, [2]string{csvBox, csv("csv")})
			}
		}
		steps = append(steps, burst)
	}
	return steps
}

// The program's answers, whatever they are, come onto the page.
func TestPage(t *testing.T) {
	b := open()
	defer func() { b.close() }()
	var start *outcome
	pbt.Check(t, 2000, func(t *pbt.T) {
		s := scenario{Page: page(), Late: gen.Pick(t.T, "when", "early", "between", "late"), Prism: gen.Pick(t.T, "prism", "none", "works", "throws")}
		var answers []answer
		for i, n := 0, gen.Int(t.T, 1, 6, "answers"); i < n; i++ {
			answers = append(answers, drawAnswer(t))
			s.Answers = append(s.Answers, answers[i].json)
		}
		s.Steps = drawEdits(t, func(l string) string { return gen.Pick(t.T, "emptycsv", "", anyText(t, l)) },
			func(id string) string { return gen.Pick(t.T, "emptybox", "", anyText(t, id)) })
		var key strings.Builder
		for _, st := range s.Steps {
			fmt.Fprintf(&key, "%d:", len(st))
			for _, e := range st {
				fmt.Fprintf(&key, " %s=%s", e[0], brief(e[1]))
			}
		}
		for _, a := range s.Answers {
			key.WriteString("\n" + brief(a))
		}
		t.Case(len(s.Steps) > 0, fmt.Sprintf("%s %s %s", s.Late, s.Prism, key.String()))
		t.Class("program " + s.Late)
		o, err := b.play(s)
		if err != nil {
			log := b.log.String()
			b.close()
			b = open()
			t.Fatalf("the page ended: %v %s", err, brief(log))
		}
		if o.Broken != "" {
			t.Fatalf("the stand-in failed: %s", o.Broken)
		}
		faults := fmt.Sprintf("; thrown %q, console %q", o.Thrown, o.Log)
		boxes := map[string]string{}
		if len(o.Trace) == 0 {
			t.Fatalf("nothing shown")
		}
		steps := s.Steps
		// The boxes at the start are those of the page.
		if start == nil {
			first, err := b.play(scenario{Page: s.Page, Late: "between", Prism: "none", Answers: []string{`{"error":"x"}`}})
			if err != nil || len(first.Trace) != 1 {
				t.Fatalf("the page without edits: %v", err)
			}
			start = first
		}
		for _, id := range []string{inferBox, codegenBox, csvBox} {
			v, ok := start.Trace[0].State[id]
			if !ok {
				t.Fatalf("the page has no box %s", id)
			}
			boxes[id] = v
		}
		called := 0
		for i, p := range o.Trace {
			var burst [][2]string
			if s.Late == "late" {
				if i < len(steps) {
					burst = steps[i]
				}
			} else if i > 0 {
				burst = steps[i-1]
			}
			for _, e := range burst {
				boxes[e[0]] = lf(e[1])
			}
			if len(p.Calls) == 0 {
				t.Fatalf("step %d: the program is not asked%s", i, faults)
			}
			var last answer
			for j, c := range p.Calls {
				if j == len(p.Calls)-1 {
					if want := []string{boxes[inferBox], boxes[codegenBox], boxes[csvBox]}; fmt.Sprintf("%q", c) != fmt.Sprintf("%q", want) {
						t.Fatalf("step %d: the program is asked with %s, but the boxes hold %s%s", i, brief(fmt.Sprint(c)), brief(fmt.Sprint(want)), faults)
					}
				}
				last = answers[called%len(answers)]
				called++
				if last.err == "" {
					if boxes[inferBox] == "" {
						boxes[inferBox] = lf(last.infer)
					}
					if boxes[codegenBox] == "" {
						boxes[codegenBox] = lf(last.codegen)
					}
				}
			}
			if m := shows(p.State, last); m != "" {
				t.Fatalf("step %d: %s%s", i, m, faults)
			}
			for id, v := range boxes {
				if p.State[id] != v {
					t.Fatalf("step %d: box %s holds %s, want %s%s", i, id, brief(p.State[id]), brief(v), faults)
				}
			}
		}
	}, pbt.MustTerminate())
}

var wasm, execJS string

func build() {
	if wasm != "" {
		return
	}
	w := filepath.Join(os.Getenv("VERIF_WORK"), "playground.wasm")
	cmd := exec.Command("go", "build", "-modfile="+os.Getenv("VERIF_MODFILE"), "-overlay="+os.Getenv("VERIF_OVERLAY"), "-o", w, "github.com/google/xtoproto/playground")
	cmd.Dir = os.Getenv("VERIF_HARNESS")
	cmd.Env = append(os.Environ(), "GOOS=js", "GOARCH=wasm", "CGO_ENABLED=0")
	if out, err := cmd.CombinedOutput(); err != nil {
		pbt.Infra("building the playground: %v\n%s", err, out)
	}
	goroot, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		pbt.Infra("go env: %v", err)
	}
	wasm, execJS = w, filepath.Join(strings.TrimSpace(string(goroot)), "lib", "wasm", "wasm_exec.js")
}

// files takes the two files of a native answer.
func files(r *playx.Response) (a answer) {
	a.err = r.Error
	if r.Error != "" {
		return a
	}
	b, err := json.Marshal(r.Codegen)
	if err != nil {
		pbt.Infra("%v", err)
	}
	var c struct {
		Proto struct {
			Name string `json:"workspace_relative_path"`
			Text []byte `json:"new_contents"`
		} `json:"proto_file"`
		Conv struct {
			Name string `json:"workspace_relative_path"`
			Text []byte `json:"new_contents"`
		} `json:"converter_go_file"`
	}
	if err := json.Unmarshal(b, &c); err != nil {
		pbt.Infra("%v", err)
	}
	a.proto = [2]string{c.Proto.Name, string(c.Proto.Text)}
	a.conv = [2]string{c.Conv.Name, string(c.Conv.Text)}
	return a
}

// With the real program the page shows what the service infers and generates.
func TestProgram(t *testing.T) {
	build()
	pbt.Check(t, 12, func(t *pbt.T) {
		s := scenario{Page: page(), Late: gen.Pick(t.T, "when", "early", "between", "late"), Prism: "none", Wasm: wasm, Exec: execJS}
		s.Steps = drawEdits(t, func(l string) string {
			if gen.OneIn(t.T, 5, "unusable") {
				return gen.Pick(t.T, "text", "", "a\n", "\"", "a,b\n1\n")
			}
			rows := tab.Table(t.T, 4, 4, time.UTC)
			rows[0][0] += gen.Pick(t.T, "suffix", "", " é", " 价格", " 😀")
			return strings.ToValidUTF8(gen.CSV(t.T, rows, l), "?")
		}, func(id string) string {
			if id == inferBox {
				return playx.InferText(t)
			}
			return playx.CodegenText(t)
		})
		t.Case(len(s.Steps) > 0, fmt.Sprintf("%s %q", s.Late, s.Steps))
		b := open()
		defer b.close()
		o, err := b.play(s)
		if err != nil || o.Broken != "" || len(o.Trace) == 0 {
			t.Fatalf("the page ended: %v %s %v", err, brief(b.log.String()), o)
		}
		faults := fmt.Sprintf("; thrown %q, console %q", o.Thrown, o.Log)
		for i, p := range o.Trace {
			if len(p.Calls) == 0 {
				t.Fatalf("step %d: the program is not asked%s", i, faults)
			}
			c := p.Calls[len(p.Calls)-1]
			want, req1, req2 := playx.Native(playx.Request{Infer: c[0], Codegen: c[1], CSV: c[2]})
			a := files(want)
			if a.err != "" {
				// Its wording may differ.
				if p.State["errors"] == "" {
					t.Fatalf("step %d: no error shown, want %q%s", i, a.err, faults)
				}
				continue
			}
			if m := shows(p.State, a); m != "" {
				t.Fatalf("step %d: %s%s", i, m, faults)
			}
			for k, w := range map[string]proto.Message{inferBox: req1, codegenBox: req2} {
				asked := c[0]
				if k == codegenBox {
					asked = c[1]
				}
				if asked != "" {
					if p.State[k] != asked {
						t.Fatalf("step %d: box %s holds %s, was %s%s", i, k, brief(p.State[k]), brief(asked), faults)
					}
					continue
				}
				got := proto.Clone(w)
				proto.Reset(got)
				if err := prototext.Unmarshal([]byte(p.State[k]), got); err != nil || !proto.Equal(got, w) {
					t.Fatalf("step %d: box %s holds %s (%v), want %v%s", i, k, brief(p.State[k]), err, w, faults)
				}
			}
		}
	})
}
