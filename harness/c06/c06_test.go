package c06

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"strings"
	"syscall"
	"testing"

	"github.com/google/xtoproto/csvtoproto"
	pb "github.com/google/xtoproto/proto/recordtoproto"
	spb "github.com/google/xtoproto/proto/service"
	"github.com/google/xtoproto/service"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "random GenerateCode requests (mappings that can and cannot be generated, workspaces, directories and file names relative, absolute and absent, either, both or no output) x write failures of every kind at either write, on one service used several times, against a recording file writer (no file is touched); non-trivial: a request with at least one output; distinct by request and failure")
}

type write struct {
	path string
	data []byte
}

type ctxKey struct{}

var causes = []struct {
	err  error
	code codes.Code
}{
	{os.ErrNotExist, codes.NotFound}, {os.ErrPermission, codes.PermissionDenied}, {errors.New("disk full"), codes.Unknown}, {io.ErrUnexpectedEOF, codes.Unknown},
	{&os.PathError{Op: "open", Path: "p", Err: syscall.ENOENT}, codes.NotFound}, {&os.PathError{Op: "open", Path: "p", Err: syscall.EACCES}, codes.PermissionDenied},
	{&os.PathError{Op: "open", Path: "p", Err: syscall.EISDIR}, codes.Unknown}, {fmt.Errorf("writing: %w", &os.PathError{Op: "open", Path: "p", Err: syscall.EPERM}), codes.PermissionDenied},
	{fmt.Errorf("writing: %w", os.ErrNotExist), codes.NotFound}, {os.ErrExist, codes.Unknown}, {context.Canceled, codes.Unknown},
}

// Cause draws an error and the code it should be reported with.
func cause(t *pbt.T) (error, codes.Code) {
	c := causes[gen.Int(t.T, 0, len(causes)-1, "cause")]
	return c.err, c.code
}

// message draws a message name and its snake-case form.
func message(t *pbt.T) (string, string) {
	n := gen.Int(t.T, 0, 3, "words")
	var words []string
	for i := 0; i < n; i++ {
		words = append(words, gen.Pick(t.T, "word", "foo", "bar", "trade", "record", "id", "account", "ab"))
	}
	name := ""
	switch gen.Int(t.T, 0, 2, "style") {
	case 0:
		name = strings.Join(words, "_")
	default:
		for _, w := range words {
			name += strings.ToUpper(w[:1]) + w[1:]
		}
	}
	return name, strings.Join(words, "_")
}

func mapping(t *pbt.T) (m *pb.RecordProtoMapping, snake string, goOK bool) {
	m = &pb.RecordProtoMapping{PackageName: gen.Pick(t.T, "pkg", "", "a.b")}
	m.MessageName, snake = message(t)
	goOK = true
	for i, n := 0, gen.Int(t.T, 0, 3, "cols"); i < n; i++ {
		c := &pb.ColumnToFieldMapping{ColName: gen.Text(t.T, 5, "col"), ProtoName: fmt.Sprintf("f%d", i), ProtoTag: int32(i + 1), ProtoType: gen.Pick(t.T, "type", "int32", "string", "double", "int64"), Ignored: gen.OneIn(t.T, 5, "ignored")}
		if gen.OneIn(t.T, 8, "badtype") {
			c.ProtoType = gen.Pick(t.T, "bad", "bytes", "", "foo.Bar")
			goOK = goOK && c.Ignored
		}
		m.ColumnToFieldMappings = append(m.ColumnToFieldMappings, c)
	}
	switch gen.Int(t.T, 0, 7, "goopts") {
	case 0:
		goOK = false
	case 1:
		m.GoOptions, goOK = &pb.GoOptions{ProtoImport: "x"}, false
	default:
		m.GoOptions = &pb.GoOptions{GoPackageName: gen.Pick(t.T, "gopkg", "x", "conv"), ProtoImport: "a/b"}
	}
	// There is no Go code for a message without a name.
	return m, snake, goOK && snake != ""
}

func dir(t *pbt.T) string {
	return gen.Pick(t.T, "dir", "", "", "d", "a/b", "a/b/", "./a", "a/../c", "..", "a//b", "/abs", "/", " x", "ü")
}

func name(t *pbt.T, ext string) string {
	return gen.Pick(t.T, "file", "", "", "", "x"+ext, "same", "sub/y"+ext, "/abs"+ext, "z", "a b"+ext, "../up"+ext)
}

// split spells the path of a file, mostly at the root or in the directory d.
func split(t *pbt.T, base string) (dir, file string) {
	type s struct{ dir, pre string }
	x := gen.Pick(t.T, "split", s{"", ""}, s{".", ""}, s{"d/..", ""}, s{"", "./"}, s{"", "d/../"}, s{"d", "../"}, s{"d", ""}, s{"", "d/"}, s{"d/", "./"}, s{"d/e", "../"}, s{"", "d//"}, s{"D", ""})
	return x.dir, x.pre + base
}

func TestGenerateCode(t *testing.T) {
	pbt.Check(t, 2500, func(t *pbt.T) {
		defaultWS := gen.Pick(t.T, "defaultws", "/work/space", "rel/ws", "", "/", ".", "/work/./space/")
		var writes []write
		var reads int
		failAt, failErr, failCode := -1, error(nil), codes.OK
		ctxOK := true
		svc := service.New(defaultWS,
			func(ctx context.Context, p string) ([]byte, error) { reads++; return nil, errors.New("no reads") },
			func(ctx context.Context, p string, data []byte) error {
				ctxOK = ctxOK && ctx.Value(ctxKey{}) == "mine"
				writes = append(writes, write{p, append([]byte{}, data...)})
				if len(writes)-1 == failAt {
					return failErr
				}
				return nil
			})
		ctx := context.WithValue(context.Background(), ctxKey{}, "mine")
		for k, n := 0, gen.Int(t.T, 1, 3, "requests"); k < n; k++ {
			req := &spb.GenerateCodeRequest{}
			var snake string
			goOK := false
			if !gen.OneIn(t.T, 12, "nomapping") {
				req.Mapping, snake, goOK = mapping(t)
			}
			req.WorkspacePath = gen.Pick(t.T, "ws", "", "", "/other/ws", "ws2", "/w/../v", ".", "./", "..", "a/..", "ws2/", "/")
			if gen.OneIn(t.T, 5, "noproto") == false {
				req.ProtoDefinition = &spb.GenerateCodeRequest_ProtoDefinition{Directory: dir(t), ProtoFileName: name(t, ".proto"), UpdateBuildRules: gen.Bool(t.T, "upd")}
			}
			if gen.OneIn(t.T, 3, "nogo") == false {
				req.Converter = &spb.GenerateCodeRequest_Converter{Directory: dir(t), GoFileName: name(t, ".go"), UpdateBuildRules: gen.Bool(t.T, "updgo")}
			}
			if p, c := req.ProtoDefinition, req.Converter; p != nil && c != nil && gen.OneIn(t.T, 4, "together") {
				// One file, spelled in two ways, or nearly.
				base := gen.Pick(t.T, "base", "same", "foo.go", snake+".go", snake+".proto")
				p.Directory, p.ProtoFileName = split(t, base)
				c.Directory, c.GoFileName = split(t, base)
				if base == snake+".go" && gen.Bool(t.T, "left out") {
					c.Directory, c.GoFileName = gen.Pick(t.T, "odir", "", ".", "d/.."), ""
				} else if base == snake+".proto" && gen.Bool(t.T, "left out") {
					p.Directory, p.ProtoFileName = gen.Pick(t.T, "odir", "", ".", "d/.."), ""
				}
			}
			writes, reads, failAt, failErr, failCode = nil, 0, -1, nil, codes.OK
			if gen.OneIn(t.T, 4, "fail") {
				failAt = gen.Int(t.T, 0, 1, "failat")
				failErr, failCode = cause(t)
			}
			b, _ := prototext.MarshalOptions{}.Marshal(req)
			t.Case(req.ProtoDefinition != nil || req.Converter != nil, fmt.Sprintf("default %q, write %d fails with %v, request %s", defaultWS, failAt, failErr, b))
			before := proto.Clone(req)
			resp, err := svc.GenerateCode(ctx, req)
			if !proto.Equal(before, req) {
				t.Fatalf("the request was changed: %v", req)
			}
			if reads != 0 || !ctxOK {
				t.Fatalf("%d files read, context passed on: %v", reads, ctxOK)
			}

			// What is asked for.
			ws := req.WorkspacePath
			if ws == "" {
				ws = defaultWS
			}
			type out struct{ rel, full string }
			var wantProto, wantGo *out
			invalid := req.Mapping == nil
			place := func(dir, file, def, ext string) *out {
				if file == "" {
					file = snake + ext
					if snake == "" {
						file = def
					}
				}
				if strings.HasPrefix(dir, "/") || strings.HasPrefix(file, "/") {
					invalid = true
				}
				return &out{path.Join(dir, file), path.Join(ws, dir, file)}
			}
			if p := req.ProtoDefinition; p != nil {
				wantProto = place(p.Directory, p.ProtoFileName, "untitled_record.proto", ".proto")
			}
			if p := req.Converter; p != nil {
				wantGo = place(p.Directory, p.GoFileName, "untitled_record_converter.go", ".go")
				invalid = invalid || !goOK
			}
			if wantProto != nil && wantGo != nil && wantProto.full == wantGo.full {
				invalid = true
				t.Class("one path for both outputs")
			}
			if invalid {
				t.Class("invalid")
				if status.Code(err) != codes.InvalidArgument || resp != nil {
					t.Fatalf("answer %v, %v; want InvalidArgument", resp, err)
				}
				if len(writes) != 0 {
					t.Fatalf("a rejected request writes %q", writes)
				}
				continue
			}
			protoCode, goCode, gerr := csvtoproto.GenerateCode(req.Mapping, wantProto != nil, wantGo != nil)
			if gerr != nil {
				t.Fatalf("csvtoproto.GenerateCode: %v", gerr)
			}
			var want []write
			if wantProto != nil {
				want = append(want, write{wantProto.full, []byte(protoCode)})
			}
			if wantGo != nil {
				want = append(want, write{wantGo.full, []byte(goCode)})
			}
			for _, w := range writes {
				known := 0
				for _, x := range want {
					if x.path == w.path && bytes.Equal(x.data, w.data) {
						known++
					}
				}
				if known == 0 {
					t.Fatalf("writes %q to %q, want %q", w.data, w.path, want)
				}
			}
			if failAt >= 0 && failAt < len(want) {
				t.Class("write fails")
				if status.Code(err) != failCode || err == nil || resp != nil {
					t.Fatalf("a write failing with %v (%T) gives %v, %v; want %v", failErr, failErr, resp, err, failCode)
				}
				if len(writes) > len(want) {
					t.Fatalf("%d writes", len(writes))
				}
				continue
			}
			if err != nil {
				t.Fatalf("rejected: %v", err)
			}
			if len(writes) != len(want) || len(want) == 2 && writes[0].path == writes[1].path {
				t.Fatalf("writes %q, want %q", writes, want)
			}
			t.Class(fmt.Sprintf("written %d", len(want)))
			file := func(o *out, code string) *spb.GenerateCodeResponse_File {
				if o == nil {
					return nil
				}
				return &spb.GenerateCodeResponse_File{WorkspaceRelativePath: o.rel, NewContents: []byte(code)}
			}
			wantResp := &spb.GenerateCodeResponse{ProtoFile: file(wantProto, protoCode), ConverterGoFile: file(wantGo, goCode)}
			if !proto.Equal(resp, wantResp) {
				t.Fatalf("answer %v, want %v", resp, wantResp)
			}
		}
	})
}

func TestRegressions(t *testing.T) {
	m := &pb.RecordProtoMapping{MessageName: "M", PackageName: "p", GoOptions: &pb.GoOptions{GoPackageName: "x", ProtoImport: "y"}}
	run := func(req *spb.GenerateCodeRequest, werr error) (int, codes.Code) {
		n := 0
		svc := service.New("/w", nil, func(ctx context.Context, p string, data []byte) error { n++; return werr })
		_, err := svc.GenerateCode(context.Background(), req)
		return n, status.Code(err)
	}
	pbt.Regression(t, "wrapped-cause", func() string {
		_, c := run(&spb.GenerateCodeRequest{Mapping: m, ProtoDefinition: &spb.GenerateCodeRequest_ProtoDefinition{}}, fmt.Errorf("x: %w", os.ErrNotExist))
		if c != codes.NotFound {
			return "a wrapped os.ErrNotExist is reported as " + c.String()
		}
		return ""
	})
	pbt.Regression(t, "paths-before-writes", func() string {
		n, c := run(&spb.GenerateCodeRequest{Mapping: m, ProtoDefinition: &spb.GenerateCodeRequest_ProtoDefinition{}, Converter: &spb.GenerateCodeRequest_Converter{Directory: "/abs"}}, nil)
		if n != 0 || c != codes.InvalidArgument {
			return fmt.Sprintf("an absolute directory for the .go file: %d files written, code %v", n, c)
		}
		return ""
	})
	pbt.Regression(t, "one-path", func() string {
		n, c := run(&spb.GenerateCodeRequest{Mapping: m, ProtoDefinition: &spb.GenerateCodeRequest_ProtoDefinition{ProtoFileName: "x"}, Converter: &spb.GenerateCodeRequest_Converter{GoFileName: "x"}}, nil)
		if n != 0 || c != codes.InvalidArgument {
			return fmt.Sprintf("both outputs in one file: %d files written, code %v", n, c)
		}
		return ""
	})
}
