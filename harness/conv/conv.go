// Package conv compiles generated converters together with the messages
// generated for them and runs them on CSV texts.
package conv

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// Job is one generated converter and what to run it on.
type Job struct {
	Proto, Go string
	Message   string // Go name not needed; used for messages of errors only
	Runs      []Run
	// Together says that the files are read by several goroutines at once, before the hooks are added.
	Together bool
}

// Run is one CSV file to read. Hooks are added before it and stay.
type Run struct {
	CSV   string
	Mode  string // "read", "all", "message", "factory"
	Hooks []Hook
	Extra int // reads after the end
	Opts  int // number of reader options passed
}

// Hook is a row hook that fails on the given calls (counted from 0, over all runs).
type Hook struct {
	ID     int
	FailOn []int
	Late   bool // added when the reader has been made
}

// Step is the outcome of one read.
type Step struct {
	Msg string // the message written out, "<nil>" for none
	Err string // "" for none, "EOF" for io.EOF
}

// Event is one hook call.
type Event struct {
	Hook   int
	Msg    string
	Errs   int
	OptsOK bool
}

// Result is the outcome of one Run.
type Result struct {
	NewErr string
	Steps  []Step
	Events []Event
	Panic  string
}

const driver = `package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/google/xtoproto/csvtoprotoparse"
	"github.com/google/xtoproto/protocp"
	"github.com/google/xtoproto/verifharness/conv"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	%s
)

type reader[M any] interface {
	Read() (M, error)
	ReadAll() ([]M, error)
	ReadMessage() (proto.Message, error)
	Options() []csvtoprotoparse.ReaderOption
}

func dump(m proto.Message) string {
	if m == nil || !m.ProtoReflect().IsValid() {
		return "<nil>"
	}
	r := m.ProtoReflect()
	fs := r.Descriptor().Fields()
	var out []string
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		v := r.Get(f)
		s := ""
		switch f.Kind() {
		case protoreflect.FloatKind, protoreflect.DoubleKind:
			s = fmt.Sprintf("%%x", math.Float64bits(v.Float()))
		case protoreflect.StringKind:
			s = fmt.Sprintf("%%q", v.String())
		case protoreflect.MessageKind:
			s = "unset"
			if r.Has(f) {
				sub := v.Message()
				sf := sub.Descriptor().Fields()
				s = ""
				for j := 0; j < sf.Len(); j++ {
					s += fmt.Sprintf("/%%v", sub.Get(sf.Get(j)).Interface())
				}
			}
		default:
			s = fmt.Sprint(v.Interface())
		}
		out = append(out, fmt.Sprintf("%%06d=%%s", f.Number(), s))
	}
	sort.Strings(out)
	if len(r.GetUnknown()) > 0 {
		out = append(out, "unknown fields")
	}
	return strings.Join(out, " ")
}

func run[R reader[M], M proto.Message](job conv.Job, newReader func(io.Reader, ...csvtoprotoparse.ReaderOption) (R, error), add func(func(R, M, []error) error), newMsg func(io.Reader, ...csvtoprotoparse.ReaderOption) (protocp.MessageReader, error), sample M) (results []conv.Result) {
	var events []conv.Event
	opts := 0
	msg := func(m M) string { return dump(m) }
	errText := func(err error) string {
		if err == nil {
			return ""
		}
		if err == io.EOF {
			return "EOF"
		}
		if errors.Is(err, io.EOF) {
			return "taken for the end of the file: " + err.Error()
		}
		return "error: " + err.Error()
	}
	one := func(r conv.Run, alone bool) (res conv.Result) {
		if alone {
			events = nil
			opts = r.Opts
		}
		defer func() {
			if alone {
				res.Events = events
			}
			if p := recover(); p != nil {
				res.Panic = fmt.Sprint(p)
			}
		}()
		hooks := func(late bool) { for _, h := range r.Hooks {
			if h.Late != late || !alone {
				continue
			}
			h, calls := h, 0
			add(func(rd R, m M, errs []error) error {
				events = append(events, conv.Event{Hook: h.ID, Msg: msg(m), Errs: len(errs), OptsOK: len(rd.Options()) == opts})
				n := calls
				calls++
				for _, f := range h.FailOn {
					if f == n {
						return fmt.Errorf("hook %%d fails", h.ID)
					}
				}
				return nil
			})
		} }
		hooks(false)
		var o []csvtoprotoparse.ReaderOption
		for i := 0; i < r.Opts; i++ {
			o = append(o, i)
		}
		if r.Mode == "factory" {
			rd, err := newMsg(strings.NewReader(r.CSV), o...)
			hooks(true)
			if err != nil {
				res.NewErr = errText(err)
				return
			}
			for left := r.Extra; left >= 0 && len(res.Steps) < 100000; {
				m, err := rd.ReadMessage()
				if err == io.EOF {
					left--
				}
				res.Steps = append(res.Steps, conv.Step{dump(m), errText(err)})
			}
			return
		}
		rd, err := newReader(strings.NewReader(r.CSV), o...)
		hooks(true)
		if err != nil {
			res.NewErr = errText(err)
			return
		}
		switch r.Mode {
		case "all":
			ms, err := rd.ReadAll()
			for _, m := range ms {
				res.Steps = append(res.Steps, conv.Step{msg(m), ""})
			}
			res.Steps = append(res.Steps, conv.Step{"", errText(err)})
		default:
			for left := r.Extra; left >= 0 && len(res.Steps) < 100000; {
				var s string
				var err error
				if r.Mode == "message" {
					var m proto.Message
					m, err = rd.ReadMessage()
					s = dump(m)
				} else {
					var m M
					m, err = rd.Read()
					s = msg(m)
				}
				if err == io.EOF {
					left--
				}
				res.Steps = append(res.Steps, conv.Step{s, errText(err)})
			}
		}
		return
	}
	together := make([][]conv.Result, 4)
	if job.Together {
		var wg sync.WaitGroup
		for g := range together {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range job.Runs {
					together[g] = append(together[g], one(job.Runs[(i+g)%%len(job.Runs)], false))
				}
			}()
		}
		wg.Wait()
	}
	hooked := false
	for i, r := range job.Runs {
		res := one(r, true)
		hooked = hooked || len(r.Hooks) > 0
		for g := 0; job.Together && !hooked && g < len(together); g++ {
			n := len(job.Runs)
			if got := together[g][(i-g%%n+n)%%n]; !reflect.DeepEqual(got, res) && res.Panic == "" {
				res.Panic = fmt.Sprintf("read at the same time as others, the file gives %%+v instead of %%+v", got, res)
			}
		}
		results = append(results, res)
	}
	if s := dump(sample); s == "<nil>" {
		results[0].Panic = "Sample is nil"
	}
	return results
}

func main() {
	var jobs []conv.Job
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		panic(err)
	}
	var out [][]conv.Result
%s
	if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
		panic(err)
	}
}
`

// Run builds all converters into one program and runs it. On failure the
// second result says why; texts starting with HARNESS are not the fault of the
// generated code.
func RunAll(parent string, jobs []Job) ([][]Result, string) {
	dir, err := os.MkdirTemp(parent, "conv")
	if err != nil {
		return nil, "HARNESS: " + err.Error()
	}
	defer os.RemoveAll(dir)
	work, harness := os.Getenv("VERIF_WORK"), os.Getenv("VERIF_HARNESS")
	var base struct{ Replace map[string]string }
	data, err := os.ReadFile(os.Getenv("VERIF_OVERLAY"))
	if err != nil {
		return nil, "HARNESS: " + err.Error()
	}
	if err := json.Unmarshal(data, &base); err != nil {
		return nil, "HARNESS: " + err.Error()
	}
	root := "github.com/google/xtoproto/verifharness/zzgen"
	put := func(name, text string) string {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			return "HARNESS: " + err.Error()
		}
		base.Replace[filepath.Join(harness, "zzgen", name)] = p
		return ""
	}
	args := []string{"-I" + filepath.Join(dir, "proto"), "--plugin=protoc-gen-go=" + filepath.Join(work, "protoc-gen-go")}
	var ms, names []string
	imports, calls := "", ""
	for i, j := range jobs {
		name := fmt.Sprintf("m%d.proto", i)
		os.MkdirAll(filepath.Join(dir, "proto"), 0o755)
		if err := os.WriteFile(filepath.Join(dir, "proto", name), []byte(j.Proto), 0o644); err != nil {
			return nil, "HARNESS: " + err.Error()
		}
		ms = append(ms, fmt.Sprintf("M%s=%s/pb%d", name, root, i))
		names = append(names, name)
		if e := put(fmt.Sprintf("c%d/converter.go", i), j.Go); e != "" {
			return nil, e
		}
		imports += fmt.Sprintf("c%d %q\n\t", i, fmt.Sprintf("%s/c%d", root, i))
		calls += fmt.Sprintf("\tout = append(out, run(jobs[%d], c%d.NewReader, c%d.AddReaderParseRowHook, c%d.NewMessageReader, c%d.Sample))\n", i, i, i, i, i)
	}
	for _, n := range []string{"timestamp", "duration", "any", "struct", "wrappers"} {
		ms = append(ms, fmt.Sprintf("Mgoogle/protobuf/%s.proto=google.golang.org/protobuf/types/known/%spb", n, n))
	}
	goOut := filepath.Join(dir, "goout")
	os.MkdirAll(goOut, 0o755)
	args = append(args, "--go_out="+strings.Join(ms, ",")+",paths=source_relative:"+goOut)
	if out, err := exec.Command("protoc", append(args, names...)...).CombinedOutput(); err != nil {
		return nil, "protoc: " + string(out)
	}
	for i := range jobs {
		base.Replace[filepath.Join(harness, "zzgen", fmt.Sprintf("pb%d/m.pb.go", i))] = filepath.Join(goOut, fmt.Sprintf("m%d.pb.go", i))
	}
	if e := put("driver/main.go", fmt.Sprintf(driver, imports, calls)); e != "" {
		return nil, e
	}
	ov := filepath.Join(dir, "overlay.json")
	data, _ = json.Marshal(base)
	if err := os.WriteFile(ov, data, 0o644); err != nil {
		return nil, "HARNESS: " + err.Error()
	}
	exe := filepath.Join(dir, "driver.exe")
	cmd := exec.Command("go", "build", "-modfile="+os.Getenv("VERIF_MODFILE"), "-overlay="+ov, "-ldflags=-s -w", "-o", exe, "./zzgen/driver")
	cmd.Dir = harness
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, "go build: " + string(out)
	}
	in, _ := json.Marshal(jobs)
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Minute)
	defer cancel()
	cmd = exec.CommandContext(ctx, exe)
	cmd.Stdin = bytes.NewReader(in)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		return nil, "running the converters: " + err.Error() + "\n" + stderr.String()
	}
	var res [][]Result
	if err := json.Unmarshal(stdout.Bytes(), &res); err != nil {
		return nil, "HARNESS: output of the converters: " + err.Error()
	}
	return res, ""
}

// Field is one field of an expected message.
type Field struct {
	Tag  int32
	Text string
}

// Value gives the written-out value a cell should convert to; ok is false if
// it should not convert. rowOK is false if it decodes but cannot be held in
// the message.
func Value(protoType, cell, layout, zone, unit string) (text string, ok, holdable bool) {
	switch protoType {
	case "int32", "int64":
		bits := 64
		if protoType == "int32" {
			bits = 32
		}
		n, err := strconv.ParseInt(cell, 10, bits)
		return fmt.Sprint(n), err == nil, true
	case "float":
		f, err := strconv.ParseFloat(cell, 32)
		return fmt.Sprintf("%x", math.Float64bits(float64(float32(f)))), err == nil, true
	case "double":
		f, err := strconv.ParseFloat(cell, 64)
		return fmt.Sprintf("%x", math.Float64bits(f)), err == nil, true
	case "string":
		return fmt.Sprintf("%q", cell), true, true
	case "google.protobuf.Timestamp":
		if zone == "" {
			zone = "UTC"
		}
		loc, err := time.LoadLocation(zone)
		if err != nil {
			panic("HARNESS: " + err.Error())
		}
		t, err := time.ParseInLocation(layout, cell, loc)
		if err != nil {
			return "", false, true
		}
		y := t.UTC().Year()
		return fmt.Sprintf("/%d/%d", t.Unix(), t.Nanosecond()), true, y >= 1 && y <= 9999
	case "google.protobuf.Duration":
		d, err := time.ParseDuration(cell + unit)
		if err != nil {
			return "", false, true
		}
		return fmt.Sprintf("/%d/%d", int64(d/time.Second), int64(d%time.Second)), true, true
	}
	panic("HARNESS: type " + protoType)
}

// Zero is the written-out zero value of a type of an unmapped field.
func Zero(protoType string) string {
	switch protoType {
	case "int32", "int64":
		return "0"
	case "float", "double":
		return "0"
	case "string":
		return `""`
	}
	return "unset"
}

// Dump writes the fields out as the driver does.
func Dump(fs []Field) string {
	var out []string
	for _, f := range fs {
		out = append(out, fmt.Sprintf("%06d=%s", f.Tag, f.Text))
	}
	sortStrings(out)
	return strings.Join(out, " ")
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
