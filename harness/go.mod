module github.com/teamlint/baron/zzverif

go 1.23

require (
	github.com/pkg/errors v0.9.1
	github.com/sirupsen/logrus v1.7.0
	github.com/teamlint/baron v0.0.0
	google.golang.org/protobuf v1.25.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/kr/pretty v0.1.0 // indirect
	github.com/kr/text v0.1.0 // indirect
	golang.org/x/sys v0.0.0-20201020230747-6e5568b54d1a // indirect
)

replace github.com/teamlint/baron => /repo
