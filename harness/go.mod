module verif/harness

go 1.23.0

require github.com/bazelbuild/buildtools v0.0.0

require (
	github.com/golang/protobuf v1.5.0 // indirect
	google.golang.org/protobuf v1.33.0 // indirect
)

replace github.com/bazelbuild/buildtools => /repo
