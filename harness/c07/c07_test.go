package c07

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/google/xtoproto/csvinfer"
	spb "github.com/google/xtoproto/proto/service"
	"github.com/google/xtoproto/recordinfer"
	"github.com/google/xtoproto/service"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"github.com/google/xtoproto/verifharness/tab"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
)

func TestMain(m *testing.M) {
	pbt.Main(m, "random Infer requests (tables as CSV text, unusable texts, inline and by path, none and several examples, every option, known and unknown zones) x read failures of every kind, on one service over an in-memory file system that records every access; non-trivial: a request that gets an answer or fails in the read; distinct by request and failure")
}

type ctxKey struct{}

var causes = []struct {
	err  error
	code codes.Code
}{
	{os.ErrNotExist, codes.NotFound}, {os.ErrPermission, codes.PermissionDenied}, {errors.New("bad disk"), codes.Unknown}, {io.EOF, codes.Unknown},
	{&os.PathError{Op: "open", Path: "p", Err: syscall.ENOENT}, codes.NotFound}, {&os.PathError{Op: "open", Path: "p", Err: syscall.EACCES}, codes.PermissionDenied},
	{&os.PathError{Op: "read", Path: "p", Err: syscall.EISDIR}, codes.Unknown}, {fmt.Errorf("x: %w", &os.PathError{Op: "open", Path: "p", Err: syscall.EPERM}), codes.PermissionDenied},
	{fmt.Errorf("x: %w", os.ErrNotExist), codes.NotFound}, {context.DeadlineExceeded, codes.Unknown},
}

func TestInfer(t *testing.T) {
	pbt.Check(t, 4000, func(t *pbt.T) {
		files := map[string][]byte{}
		var reads []string
		writes := 0
		var readErr error
		ctxOK := true
		svc := service.New("/ws",
			func(ctx context.Context, p string) ([]byte, error) {
				ctxOK = ctxOK && ctx.Value(ctxKey{}) == 7
				reads = append(reads, p)
				if readErr != nil {
					return nil, readErr
				}
				return files[p], nil
			},
			func(ctx context.Context, p string, data []byte) error { writes++; return nil })
		ctx := context.WithValue(context.Background(), ctxKey{}, 7)
		for k, n := 0, gen.Int(t.T, 1, 4, "requests"); k < n; k++ {
			loc := time.UTC
			req := &spb.InferRequest{
				InputFormat: gen.Pick(t.T, "format", spb.Format_CSV, spb.Format_UNSPECIFIED_FORMAT),
				MessageName: gen.Pick(t.T, "msg", "M", "", "Record"), PackageName: gen.Pick(t.T, "pkg", "", "p.q"),
				GoPackageName: gen.Pick(t.T, "gopkg", "", "x"), GoProtoImport: gen.Pick(t.T, "imp", "", "a/b"),
			}
			badZone := false
			switch gen.Int(t.T, 0, 4, "zonekind") {
			case 0:
				req.TimestampLocation = gen.Pick(t.T, "badzone", "Nowhere/Land", "utc+1", "../etc/passwd", "America/", "Europe/London ")
				if gen.Bool(t.T, "nearzone") {
					z := gen.Zone(t.T, "near").String()
					req.TimestampLocation = gen.Pick(t.T, "spelling", strings.ToLower(z), strings.ToUpper(z), z+" ", " "+z, z+"/", z+"x", strings.ReplaceAll(z, "/", " "), strings.ReplaceAll(z, "_", " "))
				}
				l, err := time.LoadLocation(req.TimestampLocation)
				if badZone = err != nil; !badZone {
					loc = l
				}
			case 1, 2:
				loc = gen.Zone(t.T, "zone")
				req.TimestampLocation = loc.String()
			}
			// The example.
			var text string
			if gen.OneIn(t.T, 5, "unusable") {
				text = gen.Pick(t.T, "text", "a\n", "a,b\n1\n", "a\n\"x\n", "\n\n", "", "a,b\n1,2\n3\n", "\"", "x")
			} else {
				rows := tab.Table(t.T, 4, 6, loc)
				if gen.OneIn(t.T, 400, "long") {
					rows = tab.Stretch(t.T, rows)
				} else if gen.OneIn(t.T, 200, "longtexts") {
					rows = tab.Long(t.T, rows)
				}
				text = gen.CSV(t.T, rows, "csv")
				if gen.OneIn(t.T, 10, "returns") {
					text = strings.ReplaceAll(text, "\n", gen.Pick(t.T, "newline", "\r\r\n", "\n\n", "\r\n\r\n", "\n\r\n"))
				}
				if len(text) > 1<<16 {
					t.Class("large")
				}
				if len(text) > 1<<20 {
					t.Class("very large")
				}
			}
			// What a path means is up to the function that reads.
			path := gen.Pick(t.T, "path", "dir/data.csv", "dir/data.csv", "/dir/data.csv", "gs://bucket/x.csv", "./data.csv", "a/../data.csv", "dir//data.csv", "dir/", " data.csv ", "~/data.csv", "$HOME/x", "C:\\x.csv", "dir/\u00e9.CSV", "%64ata.csv", "..", "data.csv?x#y")
			files = map[string][]byte{}
			for i, p := range []string{"data.csv", "dir/data.csv", "/ws/dir/data.csv", "/ws/data.csv", "dir", "gs:/bucket/x.csv", "", strings.TrimSpace(path), strings.ToLower(path)} {
				files[p] = []byte(fmt.Sprintf("other\n%d\n", i))
			}
			files[path] = []byte(text)
			reads, writes, readErr = nil, 0, nil
			code := codes.OK
			inline := func(s string) *spb.InputFile {
				return &spb.InputFile{Spec: &spb.InputFile_InputContent{InputContent: []byte(s)}}
			}
			byPath := &spb.InputFile{Spec: &spb.InputFile_InputPath{InputPath: path}}
			usable := true
			mode := gen.Pick(t.T, "mode", "inline", "path", "path", "none", "two", "empty", "nopath")
			switch mode {
			case "inline":
				req.ExampleInputs = []*spb.InputFile{inline(text)}
				usable = text != ""
			case "path":
				req.ExampleInputs = []*spb.InputFile{byPath}
				if gen.OneIn(t.T, 4, "readfails") {
					c := causes[gen.Int(t.T, 0, len(causes)-1, "cause")]
					readErr, code = c.err, c.code
				}
			case "two":
				req.ExampleInputs = []*spb.InputFile{inline("a\n1\n"), gen.Pick(t.T, "second", inline("a\n1\n"), byPath, &spb.InputFile{})}
				usable = false
			case "empty":
				req.ExampleInputs = []*spb.InputFile{{}}
				usable = false
			case "nopath":
				req.ExampleInputs = []*spb.InputFile{{Spec: &spb.InputFile_InputPath{}}}
				usable = false
			default:
				usable = false
			}
			b, _ := prototext.MarshalOptions{}.Marshal(req)
			want, werr := csvinfer.InferProto(text, &recordinfer.Options{MessageName: req.MessageName, PackageName: req.PackageName, GoPackageName: req.GoPackageName, GoProtoImport: req.GoProtoImport, TimestampLocation: loc})
			t.Case(usable && !badZone && (werr == nil || readErr != nil), fmt.Sprintf("text %q, reads fail with %v, request %s", text, readErr, b))
			before := proto.Clone(req)
			resp, err := svc.Infer(ctx, req)
			if !proto.Equal(before, req) || !ctxOK {
				t.Fatalf("the request was changed (%v) or the context not passed on", req)
			}
			if writes != 0 {
				t.Fatalf("Infer writes a file")
			}
			wantReads := ""
			switch {
			case badZone || !usable:
				code = codes.InvalidArgument
			case readErr != nil:
			case werr != nil:
				code = codes.Unknown
			}
			if !badZone && mode == "path" {
				wantReads = path
			}
			if got := strings.Join(reads, "|"); got != wantReads && !(badZone && got == "") {
				t.Fatalf("reads %q, want %q", got, wantReads)
			}
			t.Class(code.String())
			if code != codes.OK {
				if status.Code(err) != code || err == nil || resp != nil {
					t.Fatalf("answer %v, %v; want %v", resp, err, code)
				}
				continue
			}
			if err != nil {
				t.Fatalf("rejected: %v", err)
			}
			wantResp := &spb.InferResponse{BestMappingCandidate: &spb.MappingSet{TopLevelMapping: want.Mapping()}}
			if !proto.Equal(resp, wantResp) {
				t.Fatalf("answer %v, want %v", resp, wantResp)
			}
			// The other way of passing the example gives the same answer.
			other := proto.Clone(req).(*spb.InferRequest)
			if mode == "inline" {
				other.ExampleInputs = []*spb.InputFile{byPath}
			} else {
				other.ExampleInputs = []*spb.InputFile{inline(text)}
			}
			resp2, err := svc.Infer(ctx, other)
			if err != nil || !proto.Equal(resp2, resp) {
				t.Fatalf("passed the other way: %v, %v; want %v", resp2, err, resp)
			}
		}
	})
}

func TestRegressions(t *testing.T) {
	pbt.Regression(t, "wrapped-cause", func() string {
		svc := service.New("/w", func(ctx context.Context, p string) ([]byte, error) { return nil, fmt.Errorf("x: %w", os.ErrPermission) }, nil)
		_, err := svc.Infer(context.Background(), &spb.InferRequest{ExampleInputs: []*spb.InputFile{{Spec: &spb.InputFile_InputPath{InputPath: "p"}}}})
		if c := status.Code(err); c != codes.PermissionDenied {
			return "a wrapped os.ErrPermission is reported as " + c.String()
		}
		return ""
	})
}
