#!/bin/sh
# Nothing is built ahead: every check rebuilds from /repo. This only looks
# whether the tools the checks need are there.
set -e
export PATH=/opt/vp/bin:/opt/veriftools/go1.27.3/bin:$PATH
go version
protoc --version
command -v protoc-gen-go protoc-gen-go-grpc python3
test -d /root/go/pkg/mod/cache/download/pgregory.net/rapid
