package svcdefc

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
	"pgregory.net/rapid"

	"github.com/teamlint/baron/internal/parsesvcname"
	"github.com/teamlint/baron/pkg"
	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/vt"
)

// ident draws a protobuf identifier.
func ident() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		first := rapid.SampledFrom([]byte("abzABZ_x")).Draw(t, "first")
		rest := rapid.SliceOfN(rapid.SampledFrom([]byte("abyzABYZ__01289_x")), 0, 9).Draw(t, "rest")
		return string(first) + string(rest)
	})
}

type nameCase struct{ Svc, Rpc, Msg, Nested, Deep, Enum, Field, Map, Oneof, Opt string }

func protocNames(cs []nameCase) (*protogen.Plugin, error) {
	dir := vt.Scratch("names")
	defer os.RemoveAll(dir)
	var b strings.Builder
	b.WriteString("syntax = \"proto3\";\npackage p;\noption go_package = \"example.com/p;p\";\n")
	for i, c := range cs {
		// the proto names of one case are kept apart from those of the others
		// by the number at the front of the top-level names
		fmt.Fprintf(&b, `message %s {
  message %s { message %s { int32 f = 1; } enum %s { V%d = 0; } }
  message K { string %s = 1; }
  message L { map<string, int32> %s = 1; }
  message O { oneof %s { string %s = 1; } }
}
service %s { rpc %s (%s) returns (%s); }
`, c.Msg, c.Nested, c.Deep, c.Enum, i, c.Field, c.Map, c.Oneof, c.Opt, c.Svc, c.Rpc, "."+"p."+c.Msg, ".p."+c.Msg)
	}
	f := filepath.Join(dir, "n.proto")
	os.WriteFile(f, []byte(b.String()), 0666)
	out := filepath.Join(dir, "set")
	if msg, err := exec.Command("protoc", "--proto_path="+dir, "--descriptor_set_out="+out, f).CombinedOutput(); err != nil {
		return nil, vt.Infra{Err: fmt.Errorf("protoc: %v: %s\n%s", err, msg, b.String())}
	}
	raw, err := os.ReadFile(out)
	if err != nil {
		return nil, vt.Infra{Err: err}
	}
	set := &descriptorpb.FileDescriptorSet{}
	if err := proto.Unmarshal(raw, set); err != nil {
		return nil, vt.Infra{Err: err}
	}
	g, err := protogen.Options{}.New(&pluginpb.CodeGeneratorRequest{ProtoFile: set.File, FileToGenerate: []string{"n.proto"}})
	if err != nil {
		return nil, vt.Infra{Err: err}
	}
	return g, nil
}

func TestC11(t *testing.T) {
	rep := vt.Start(t, "C11", "random identifiers of letters, digits and (leading, trailing, repeated) underscores, as names of services, rpcs, messages at three depths, enums, fields, maps and oneofs; compared with the names protoc and protogen give; non-trivial: the names of a case contain an underscore or digit")
	rep.Assume("where protoc-gen-go appends '_' to a field name that clashes with a generated method, the name before that is meant")
	rep.Check(t, 11, vt.N(600, 12000), func(rt *rapid.T) {
		var cs []nameCase
		used := map[string]bool{}
		for n := rapid.IntRange(1, 60).Draw(rt, "n"); n > 0; n-- {
			c := nameCase{ident().Draw(rt, "svc"), ident().Draw(rt, "rpc"), ident().Draw(rt, "msg"), ident().Draw(rt, "nested"), ident().Draw(rt, "deep"),
				ident().Draw(rt, "enum"), ident().Draw(rt, "field"), ident().Draw(rt, "map"), ident().Draw(rt, "oneof"), ident().Draw(rt, "opt")}
			if used[c.Svc] || used[c.Msg] || c.Svc == c.Msg || c.Deep == c.Enum || c.Oneof == c.Opt || c.Deep == c.Nested ||
				strings.EqualFold(c.Nested, "K") || strings.EqualFold(c.Nested, "L") || strings.EqualFold(c.Nested, "O") {
				continue
			}
			if c.Msg == "p" || c.Svc == "p" {
				continue // would be confused with the package
			}
			if m := strings.Trim(c.Map, "_"); m == "" || m[0] <= '9' {
				continue // the entry message would have an invalid name
			}
			used[c.Svc], used[c.Msg] = true, true
			cs = append(cs, c)
		}
		if len(cs) == 0 {
			return
		}
		g, err := protocNames(cs)
		if err != nil {
			rep.FailErr(rt, cs, err)
		}
		file := g.Files[0]
		for i, c := range cs {
			txt := fmt.Sprintf("%+v", c)
			rep.Case(strings.ContainsAny(txt, "_0123456789"), txt, func() interface{} { return c })
			eq := func(what, name, got, want string) {
				rep.Class(what)
				if got != want {
					rep.Fail(rt, c, "%s %q: baron derives %q, the protobuf compiler %q", what, name, got, want)
				}
			}
			goName := func(what, name, want string) {
				eq(what, name, pkg.GoCamelCase(name), want)
				eq(what+" (again)", want, pkg.GoCamelCase(want), want)
			}
			base := func(name, got string) string {
				if got == pkg.GoCamelCase(name)+"_" {
					return strings.TrimSuffix(got, "_")
				}
				return got
			}
			m := file.Messages[i]
			svc := file.Services[i]
			goName("service", c.Svc, svc.GoName)
			goName("rpc", c.Rpc, svc.Methods[0].GoName)
			goName("message", c.Msg, m.GoIdent.GoName)
			goName("nested message", c.Msg+"."+c.Nested, m.Messages[0].GoIdent.GoName)
			goName("nested message", c.Msg+"."+c.Nested+"."+c.Deep, m.Messages[0].Messages[0].GoIdent.GoName)
			goName("enum", c.Msg+"."+c.Nested+"."+c.Enum, m.Messages[0].Enums[0].GoIdent.GoName)
			k := m.Messages[1].Fields[0]
			goName("field", c.Field, base(c.Field, k.GoName))
			eq("JSON name", c.Field, pkg.JSONCamelCase(c.Field), k.Desc.JSONName())
			l := m.Messages[2]
			goName("map field", c.Map, base(c.Map, l.Fields[0].GoName))
			eq("map entry", c.Map, pkg.MapEntryName(c.Map), string(l.Messages[0].Desc.Name()))
			o := m.Messages[3]
			goName("oneof", c.Oneof, base(c.Oneof, o.Oneofs[0].GoName))
			goName("oneof option", c.Opt, base(c.Opt, o.Fields[0].GoName))
		}
	})
}

func listing(dir string) string {
	var ls []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			ls = append(ls, fmt.Sprintf("%s %q", p, b))
		} else {
			ls = append(ls, p)
		}
		return nil
	})
	return strings.Join(ls, "\n")
}

func TestC29(t *testing.T) {
	rep := vt.Start(t, "C29", "one to four definition files of one package, at most one of them with a service, looked up by absolute or relative paths in any order and (when they do not import each other) by content; the name must be the one protogen gives, and the directories of the definitions, of temporary files and the working directory must be as before; non-trivial: several files, or a service name whose Go name differs")
	gopath := []string{os.Getenv("GOPATH")}
	tmp := vt.Scratch("tmp")
	defer os.RemoveAll(tmp)
	cwd, _ := os.Getwd()
	rep.Check(t, 29, vt.N(450, 8000), func(rt *rapid.T) {
		o := pspec.Opts{MaxFiles: 4, MaxMsgs: 2, MaxRpcs: 2, NoService: true, Streaming: true, External: true}
		o.LocalRefs = rapid.Bool().Draw(rt, "local")
		s := pspec.Gen(o).Draw(rt, "spec")
		perm := rapid.Permutation(s.Files).Draw(rt, "order")
		relative := rapid.Bool().Draw(rt, "relative")
		c, done, err := Compile(s)
		if err != nil {
			rep.FailErr(rt, s.Whole(), err)
		}
		done()
		want := ""
		if svc := s.Service(); svc != nil {
			for _, f := range c.Gen.Files {
				if f.Generate && len(f.Services) > 0 {
					want = f.Services[0].GoName
				}
			}
			rep.Class("with a service")
		} else {
			rep.Class("without a service")
		}
		dir := vt.Scratch("defs")
		defer os.RemoveAll(dir)
		if _, err := s.Write(dir); err != nil {
			panic(err)
		}
		empty := vt.Scratch("cwd")
		defer os.RemoveAll(empty)
		os.Setenv("TMPDIR", tmp)
		var paths []string
		work := empty
		for _, f := range perm {
			p := filepath.Join(dir, f.Name+".proto")
			if relative {
				work = filepath.Dir(dir)
				p = filepath.Join(filepath.Base(dir), f.Name+".proto")
				if len(perm)%2 == 0 {
					work, p = dir, f.Name+".proto"
				}
			}
			paths = append(paths, p)
		}
		before := listing(dir) + listing(tmp) + listing(empty)
		judge := func(how string, look func() (string, error)) {
			var got string
			var err error
			rep.Guard(rt, s.Whole(), func() { got, err = look() })
			rep.Class(how)
			switch {
			case want == "" && err == nil:
				rep.Fail(rt, s.Whole(), "%s: no service is defined, got the name %q", how, got)
			case want != "" && err != nil:
				rep.Fail(rt, s.Whole(), "%s: %v", how, err)
			case want != got:
				rep.Fail(rt, s.Whole(), "%s: got %q, want %q", how, got, want)
			}
			if after := listing(dir) + listing(tmp) + listing(empty); after != before {
				rep.Fail(rt, s.Whole(), "%s: files were left or changed:\n%s\nbefore:\n%s", how, after, before)
			}
		}
		func() {
			os.Chdir(work)
			defer os.Chdir(cwd)
			judge(fmt.Sprintf("by %d paths, relative=%v", len(paths), relative), func() (string, error) { return parsesvcname.FromPaths(gopath, paths) })
		}()
		if o.LocalRefs {
			var rs []io.Reader
			for _, f := range perm {
				rs = append(rs, strings.NewReader(s.Text(f)))
			}
			judge(fmt.Sprintf("by content of %d files", len(rs)), func() (string, error) { return parsesvcname.FromReaders(gopath, rs) })
		}
		rep.Case(len(perm) > 1 || (want != "" && want != s.Service().Name), s.Whole(), func() interface{} { return s.Whole() })
	})
}
