module github.com/google/xtoproto/verifharness

go 1.26

require (
	github.com/golang/protobuf v1.4.2
	github.com/google/go-cmp v0.5.3
	github.com/google/xtoproto v0.0.0
	github.com/jhump/protoreflect v1.8.0
	github.com/stoewer/go-strcase v1.2.0
	golang.org/x/sync v0.0.0-20201020160332-67f06af15bc9
	google.golang.org/protobuf v1.25.1-0.20200805231151-a709e31e5d12
	pgregory.net/rapid v1.3.0
)

require (
	github.com/golang/glog v0.0.0-20160126235308-23def4e6c14b // indirect
	github.com/mitchellh/go-wordwrap v1.0.0 // indirect
	golang.org/x/net v0.0.0-20201021035429-f5854403a974 // indirect
	golang.org/x/sys v0.0.0-20210119212857-b64e53b001e4 // indirect
	golang.org/x/text v0.3.3 // indirect
	google.golang.org/genproto v0.0.0-20200526211855-cb27e3aa2013 // indirect
	google.golang.org/grpc v1.30.0 // indirect
)

replace github.com/google/xtoproto => /repo
