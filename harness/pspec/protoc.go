package pspec

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

// Compiled is what the protobuf compiler made of a definition.
type Compiled struct {
	Dir    string
	Protos []string // paths, in file order
	GoFile map[string]string
	Gen    *protogen.Plugin
	Set    *descriptorpb.FileDescriptorSet
}

// Write writes the .proto files into dir.
func (s *Spec) Write(dir string) ([]string, error) {
	var out []string
	for _, f := range s.Files {
		p := filepath.Join(dir, f.Name+".proto")
		if err := os.WriteFile(p, []byte(s.Text(f)), 0666); err != nil {
			return nil, err
		}
		out = append(out, p)
	}
	return out, nil
}

// Compile writes the files into dir and runs protoc with the two Go plugins
// there. An error means the definition is not valid (a fault of the
// generator), or that protoc could not run.
func (s *Spec) Compile(dir string, repo string) (*Compiled, error) {
	ps, err := s.Write(dir)
	if err != nil {
		return nil, err
	}
	set := filepath.Join(dir, "set.bin")
	args := []string{"--experimental_allow_proto3_optional", "--proto_path=" + dir, "-I" + filepath.Join(repo, "third_party/googleapis"),
		"--go_out=" + dir, "--go_opt=paths=source_relative", "--go-grpc_out=" + dir, "--go-grpc_opt=paths=source_relative",
		"--descriptor_set_out=" + set, "--include_imports"}
	cmd := exec.Command("protoc", append(args, ps...)...)
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("protoc: %v: %s", err, out)
	}
	b, err := os.ReadFile(set)
	if err != nil {
		return nil, err
	}
	os.Remove(set)
	c := &Compiled{Dir: dir, Protos: ps, GoFile: map[string]string{}, Set: &descriptorpb.FileDescriptorSet{}}
	if err := proto.Unmarshal(b, c.Set); err != nil {
		return nil, err
	}
	req := &pluginpb.CodeGeneratorRequest{ProtoFile: c.Set.File, Parameter: proto.String("paths=source_relative")}
	for _, f := range s.Files {
		req.FileToGenerate = append(req.FileToGenerate, f.Name+".proto")
	}
	c.Gen, err = protogen.Options{}.New(req)
	if err != nil {
		return nil, err
	}
	for _, f := range s.Files {
		for _, suf := range []string{".pb.go", "_grpc.pb.go"} {
			p := filepath.Join(dir, f.Name+suf)
			b, err := os.ReadFile(p)
			if os.IsNotExist(err) && suf == "_grpc.pb.go" {
				continue
			}
			if err != nil {
				return nil, err
			}
			c.GoFile[p] = string(b)
		}
	}
	return c, nil
}

// IsGeneratorFault tells a definition protoc rejects from a protoc that could
// not run.
func IsGeneratorFault(err error) bool {
	return err != nil && strings.Contains(err.Error(), ".proto:")
}
