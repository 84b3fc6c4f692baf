package c31

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	spb "github.com/google/xtoproto/proto/service"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/playx"
	"github.com/google/xtoproto/verifharness/tab"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "requests to the playground's WebAssembly program on a page without a file system (run by node): random CSV texts, usable or not, with request texts that set any of the fields, are malformed or name unknown zones, several to one page; the answers against the service called natively, and the effective request sent again; non-trivial: a request text that is not empty, or a text that cannot be used; distinct by the three texts")
}

type page struct {
	in   io.WriteCloser
	out  *bufio.Reader
	cmd  *exec.Cmd
	log  *bytes.Buffer
	mu   sync.Mutex
	dead bool
}

var wasm string

func build() {
	if wasm != "" {
		return
	}
	w := filepath.Join(os.Getenv("VERIF_WORK"), "playground.wasm")
	cmd := exec.Command("go", "build", "-modfile="+os.Getenv("VERIF_MODFILE"), "-overlay="+os.Getenv("VERIF_OVERLAY"), "-o", w, "github.com/google/xtoproto/playground")
	cmd.Dir = os.Getenv("VERIF_HARNESS")
	cmd.Env = append(os.Environ(), "GOOS=js", "GOARCH=wasm", "CGO_ENABLED=0")
	if out, err := cmd.CombinedOutput(); err != nil {
		pbt.Infra("building the playground: %v\n%s", err, out)
	}
	wasm = w
}

func open() *page {
	node, err := exec.LookPath("node")
	if err != nil {
		pbt.Infra("no node: %v", err)
	}
	goroot, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		pbt.Infra("go env: %v", err)
	}
	h := os.Getenv("VERIF_HARNESS")
	p := &page{cmd: exec.Command(node, filepath.Join(h, "c31", "page.js"), filepath.Join(strings.TrimSpace(string(goroot)), "lib", "wasm", "wasm_exec.js"), wasm), log: &bytes.Buffer{}}
	p.cmd.Env = []string{"PATH=/usr/bin:/bin"}
	p.cmd.Stderr = p.log
	p.in, _ = p.cmd.StdinPipe()
	out, _ := p.cmd.StdoutPipe()
	p.out = bufio.NewReaderSize(out, 1<<20)
	if err := p.cmd.Start(); err != nil {
		pbt.Infra("starting node: %v", err)
	}
	var ready struct{ Ready bool }
	if err := p.read(&ready); err != nil || !ready.Ready {
		p.close()
		pbt.Infra("the page did not offer its function: %v\n%s", err, p.log)
	}
	return p
}

func (p *page) read(v interface{}) error {
	type line struct {
		b   []byte
		err error
	}
	c := make(chan line, 1)
	go func() {
		b, err := p.out.ReadBytes('\n')
		c <- line{b, err}
	}()
	select {
	case l := <-c:
		if l.err != nil {
			return fmt.Errorf("the page ended: %w", l.err)
		}
		return json.Unmarshal(l.b, v)
	case <-time.After(60 * time.Second):
		return errors.New("no answer within a minute")
	}
}

func (p *page) close() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

type (
	request  = playx.Request
	response = playx.Response
)

func (p *page) call(r request) (*response, string) {
	b, _ := json.Marshal([]string{r.Infer, r.Codegen, r.CSV})
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		return nil, fmt.Sprintf("the page ended: %v\n%s", err, p.log)
	}
	var a struct {
		Answer *string
		Thrown string
		Ended  bool
	}
	if err := p.read(&a); err != nil {
		p.close()
		return nil, fmt.Sprintf("%v\n%s", err, p.log)
	}
	if a.Answer == nil {
		p.close()
		return nil, fmt.Sprintf("no answer: thrown %q, ended %v\n%s", a.Thrown, a.Ended, p.log)
	}
	resp := &response{}
	if err := json.Unmarshal([]byte(*a.Answer), resp); err != nil {
		return nil, fmt.Sprintf("answer %q is no JSON: %v", *a.Answer, err)
	}
	return resp, ""
}

func show(v interface{}) string {
	b, _ := json.MarshalIndent(v, "", " ")
	if len(b) > 3000 {
		b = append(b[:3000], "..."...)
	}
	return string(b)
}

// nearly changes one character of a text, if any.
func nearly(t *pbt.T, s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return "x"
	}
	i := gen.Int(t.T, 0, len(rs)-1, "at")
	rs[i] = gen.Pick(t.T, "to", 'x', '7', ',', '\n', ' ')
	return string(rs)
}

// widen repeats the columns under other names.
func widen(rows [][]string, times int) [][]string {
	out := make([][]string, len(rows))
	for i := 0; i < times; i++ {
		for j, r := range rows {
			for _, v := range r {
				if j == 0 {
					v = fmt.Sprintf("%s %d", v, i)
				}
				out[j] = append(out[j], v)
			}
		}
	}
	return out
}

func TestPage(t *testing.T) {
	build()
	var pages []*page
	var mu sync.Mutex
	borrow := func() *page {
		mu.Lock()
		defer mu.Unlock()
		if n := len(pages); n > 0 {
			p := pages[n-1]
			pages = pages[:n-1]
			return p
		}
		return open()
	}
	defer func() {
		for _, p := range pages {
			p.close()
		}
	}()
	pbt.Check(t, 400, func(t *pbt.T) {
		zone := time.UTC
		if gen.OneIn(t.T, 3, "otherzone") {
			zone = gen.Zone(t.T, "zone")
		}
		p := borrow()
		var last request
		for i, n := 0, gen.Int(t.T, 1, 3, "requests"); i < n; i++ {
			r := request{Infer: playx.InferText(t), Codegen: playx.CodegenText(t)}
			unusable := gen.OneIn(t.T, 5, "unusable")
			if i > 0 && gen.Bool(t.T, "akin") {
				// As a user goes on: one of the three texts changes.
				switch gen.Int(t.T, 0, 3, "changed") {
				case 0:
					r.Infer, r.CSV = last.Infer, last.CSV
				case 1:
					r.Codegen, r.CSV = last.Codegen, last.CSV
				case 2:
					r.Infer, r.Codegen, r.CSV = last.Infer, last.Codegen, nearly(t, last.CSV)
				default:
					r = last
				}
			} else if unusable {
				r.CSV = gen.Pick(t.T, "text", "a\n", "a,b\n1\n", "a\n\"x\n", "\n\n", "", "a,b\n1,2\n3\n", "\"", "x")
			} else {
				rows := tab.Table(t.T, 4, 4, zone)
				if gen.OneIn(t.T, 4, "long") {
					i, j := gen.Int(t.T, 0, len(rows)-1, "row"), gen.Int(t.T, 0, len(rows[0])-1, "col")
					rows[i][j] = strings.Repeat(gen.Pick(t.T, "unit", "x", "word ", "é", "7"), gen.Int(t.T, 70, 200, "length"))
				}
				if gen.OneIn(t.T, 40, "wide") {
					rows = widen(rows, gen.Int(t.T, 100, 250, "times"))
				}
				r.CSV = strings.ToValidUTF8(strings.ReplaceAll(gen.CSV(t.T, rows, "csv"), "\r\r", "\r"), "?")
			}
			last = r
			t.Case(r.Infer != "" || r.Codegen != "" || unusable, fmt.Sprintf("%q", r))
			want, req1, req2 := playx.Native(r)
			got, wrong := p.call(r)
			if wrong != "" {
				t.Fatalf("%q: %s", r, wrong)
			}
			if s := compare(got, want, req1, req2, r.CSV); s != "" {
				t.Fatalf("%q: %s", r, s)
			}
			if got.Effectiv != nil {
				again, wrong := p.call(*got.Effectiv)
				if wrong != "" {
					t.Fatalf("%q, its effective request sent again: %s", r, wrong)
				}
				if s := compare(again, want, req1, req2, r.CSV); s != "" {
					t.Fatalf("%q, its effective request sent again: %s", r, s)
				}
			}
			t.Class(fmt.Sprintf("error %v", want.Error != ""))
		}
		mu.Lock()
		pages = append(pages, p)
		mu.Unlock()
	})
	runtime.KeepAlive(pages)
}

func compare(got, want *response, req1 *spb.InferRequest, req2 *spb.GenerateCodeRequest, csv string) string {
	if (got.Error != "") != (want.Error != "") {
		return fmt.Sprintf("error %q, want %q", got.Error, want.Error)
	}
	if !reflect.DeepEqual(got.Infer, want.Infer) {
		return fmt.Sprintf("infer_response\n%s\nwant\n%s", show(got.Infer), show(want.Infer))
	}
	if !reflect.DeepEqual(got.Codegen, want.Codegen) {
		return fmt.Sprintf("codegen_response\n%s\nwant\n%s", show(got.Codegen), show(want.Codegen))
	}
	if want.Error != "" {
		return ""
	}
	e := got.Effectiv
	if e == nil {
		return "no effective request"
	}
	if e.CSV != csv {
		return fmt.Sprintf("effective CSV %q", e.CSV)
	}
	g1, g2 := &spb.InferRequest{}, &spb.GenerateCodeRequest{}
	if err := prototext.Unmarshal([]byte(e.Infer), g1); err != nil || !proto.Equal(g1, req1) {
		return fmt.Sprintf("effective infer request %q (%v), want %v", e.Infer, err, req1)
	}
	if err := prototext.Unmarshal([]byte(e.Codegen), g2); err != nil || !proto.Equal(g2, req2) {
		return fmt.Sprintf("effective codegen request %q (%v), want %v", e.Codegen, err, req2)
	}
	return ""
}
