// Package playx has what C31 and C36 know of the playground: its defaults, the
// answers the service gives natively, and texts for its boxes.
package playx

import (
	"context"
	"encoding/json"
	"errors"

	pb "github.com/google/xtoproto/proto/recordtoproto"
	spb "github.com/google/xtoproto/proto/service"
	"github.com/google/xtoproto/service"
	"github.com/google/xtoproto/verifharness/gen"
	"github.com/google/xtoproto/verifharness/pbt"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
)

// Request holds the texts of the three boxes.
type Request struct {
	Infer   string `json:"infer_request"`
	Codegen string `json:"codegen_request"`
	CSV     string `json:"csv"`
}

// Response is the answer to a request.
type Response struct {
	Error    string      `json:"error"`
	Infer    interface{} `json:"infer_response"`
	Codegen  interface{} `json:"codegen_response"`
	Effectiv *Request    `json:"request"`
}

// plain is the form that v takes in JSON.
func plain(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		pbt.Infra("%v", err)
	}
	var x interface{}
	if err := json.Unmarshal(b, &x); err != nil {
		pbt.Infra("%v", err)
	}
	return x
}

// Native answers the request with the service itself.
func Native(r Request) (resp *Response, req1 *spb.InferRequest, req2 *spb.GenerateCodeRequest) {
	svc := service.New("/ws",
		func(ctx context.Context, p string) ([]byte, error) { return nil, errors.New("no files") },
		func(ctx context.Context, p string, data []byte) error { return nil })
	req1 = &spb.InferRequest{GoPackageName: "example", GoProtoImport: "generated/example_go_proto", InputFormat: spb.Format_CSV, MessageName: "ExampleRecord", PackageName: "mycompany.mypackage"}
	req2 = &spb.GenerateCodeRequest{
		ProtoDefinition: &spb.GenerateCodeRequest_ProtoDefinition{Directory: "generated", ProtoFileName: "example.proto", UpdateBuildRules: true},
		Converter:       &spb.GenerateCodeRequest_Converter{Directory: "generated/go", GoFileName: "exampleconv.go", UpdateBuildRules: true},
	}
	over1, over2 := &spb.InferRequest{}, &spb.GenerateCodeRequest{}
	if err := prototext.Unmarshal([]byte(r.Infer), over1); err != nil {
		return &Response{Error: err.Error()}, nil, nil
	}
	if err := prototext.Unmarshal([]byte(r.Codegen), over2); err != nil {
		return &Response{Error: err.Error()}, nil, nil
	}
	proto.Merge(req1, over1)
	proto.Merge(req2, over2)
	req1.ExampleInputs = []*spb.InputFile{{Spec: &spb.InputFile_InputContent{InputContent: []byte(r.CSV)}}}
	resp1, err := svc.Infer(context.Background(), req1)
	if err != nil {
		return &Response{Error: err.Error()}, nil, nil
	}
	resp = &Response{Infer: plain(resp1)}
	req2.Mapping = resp1.GetBestMappingCandidate().GetTopLevelMapping()
	resp2, err := svc.GenerateCode(context.Background(), req2)
	if err != nil {
		resp.Error = err.Error()
		return resp, nil, nil
	}
	resp.Codegen = plain(resp2)
	req1.ExampleInputs = nil
	return resp, req1, req2
}

func text(t *pbt.T, m proto.Message) string {
	o := prototext.MarshalOptions{Multiline: gen.Bool(t.T, "multiline")}
	b, err := o.Marshal(m)
	if err != nil {
		return ""
	}
	return gen.Pick(t.T, "lead", "", "", "# comment\n", " \n") + string(b)
}

// InferText draws the text of an infer request.
func InferText(t *pbt.T) string {
	r := &spb.InferRequest{}
	switch gen.Int(t.T, 0, 7, "infertext") {
	case 0, 1:
		return ""
	case 2:
		return gen.Pick(t.T, "badtext", "x", "message_name: 5", "message_name: \"a", "no_such_field: 1", "{", "input_format: XML", "\x00", "message_name: 'a' message_name: 'b'")
	}
	if gen.Bool(t.T, "msg") {
		r.MessageName = gen.Pick(t.T, "msgname", "M", "Record", "TradeReport")
	}
	if gen.Bool(t.T, "pkg") {
		r.PackageName = gen.Pick(t.T, "pkgname", "p", "a.b.c")
	}
	if gen.Bool(t.T, "gopkg") {
		r.GoPackageName = gen.Pick(t.T, "gopkgname", "conv", "x")
	}
	if gen.Bool(t.T, "imp") {
		r.GoProtoImport = gen.Pick(t.T, "impname", "a/b", "example.com/p")
	}
	if gen.Bool(t.T, "zone") {
		r.TimestampLocation = gen.Pick(t.T, "zonename", "UTC", "America/New_York", "Europe/London", "Asia/Kolkata", "Pacific/Apia", "Nowhere/Land", "../x")
	}
	if gen.OneIn(t.T, 5, "inputs") { // the CSV text stands in for these
		r.ExampleInputs = []*spb.InputFile{{Spec: &spb.InputFile_InputPath{InputPath: "x.csv"}}, {Spec: &spb.InputFile_InputContent{InputContent: []byte("zz\n1\n")}}}
	}
	if gen.OneIn(t.T, 5, "format") {
		r.InputFormat = spb.Format_CSV
	}
	return text(t, r)
}

// CodegenText draws the text of a request to generate code.
func CodegenText(t *pbt.T) string {
	r := &spb.GenerateCodeRequest{}
	switch gen.Int(t.T, 0, 7, "codegentext") {
	case 0, 1:
		return ""
	case 2:
		return gen.Pick(t.T, "badtext", "x", "converter: 5", "converter {", "no_such_field: 1", "workspace_path: 'a' workspace_path: 'b'")
	}
	if gen.Bool(t.T, "ws") {
		r.WorkspacePath = gen.Pick(t.T, "wspath", "/w", "rel")
	}
	if gen.Bool(t.T, "proto") {
		r.ProtoDefinition = &spb.GenerateCodeRequest_ProtoDefinition{Directory: gen.Pick(t.T, "pdir", "", "protos", "/abs"), ProtoFileName: gen.Pick(t.T, "pname", "", "x.proto", "same")}
	}
	if gen.Bool(t.T, "conv") {
		r.Converter = &spb.GenerateCodeRequest_Converter{Directory: gen.Pick(t.T, "cdir", "", "conv", "generated", "protos", "../x"), GoFileName: gen.Pick(t.T, "cname", "", "x.go", "same", "/abs.go")}
	}
	if gen.OneIn(t.T, 5, "mapping") { // the inferred mapping stands in for this
		r.Mapping = &pb.RecordProtoMapping{MessageName: "Other"}
	}
	return text(t, r)
}
