// Package cli decides the properties of the command: failing runs and the
// starter definition.
package cli

import (
	"fmt"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/zzverif/baroncli"
	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/vt"
)

// protoc says whether the protobuf compiler accepts the files.
func protoc(files map[string]string) (bool, string, error) {
	d := vt.Scratch("pc")
	defer os.RemoveAll(d)
	args := []string{"--experimental_allow_proto3_optional", "--proto_path=" + d, "-I" + filepath.Join(vt.RepoDir(), "third_party/googleapis"), "--descriptor_set_out=" + filepath.Join(d, "out.bin"),
		"--go_out=" + d, "--go_opt=paths=source_relative", "--go-grpc_out=" + d, "--go-grpc_opt=paths=source_relative"}
	var ps []string
	for n, txt := range files {
		p := filepath.Join(d, n)
		if err := os.WriteFile(p, []byte(txt), 0666); err != nil {
			return false, "", vt.Infra{Err: err}
		}
		ps = append(ps, p)
	}
	sort.Strings(ps)
	out, err := exec.Command("protoc", append(args, ps...)...).CombinedOutput()
	if err == nil {
		return true, "", nil
	}
	if _, ok := err.(*exec.ExitError); !ok {
		return false, "", vt.Infra{Err: err}
	}
	return false, string(out), nil
}

type scenario struct {
	Spec   *pspec.Spec
	Files  map[string]string // the definition as given to the command
	How    string            // what is wrong with it
	User   map[string]string // previous files, by path in the service directory
	Handle string            // what the existing service file is like
	Args   []string
	Order  []string
	Extra  map[string]string
}

func (x scenario) describe() interface{} {
	return map[string]interface{}{"definition": x.Files, "damage": x.How, "previous files": x.User, "service file": x.Handle, "args": x.Args}
}

var opts = pspec.Opts{MaxFiles: 2, MaxMsgs: 3, MaxRpcs: 4, External: true, Streaming: true, Conflicts: true}

var badService = []string{"", "package service\nfunc (", "not Go", "package service\n\nfunc (s *x) Get() {\n", "package service\nimport \"a\nfunc F() {}\n", "\x00\x01", "package service\n\n<<<<<<< HEAD\nfunc A() {}\n=======\n>>>>>>> x\n", "{}", "package\n"}

var userTexts = []string{"", "package x\nfunc  F( ) {  }\n", "not Go at all {{{\n", "package service // mine\n", "\xff\x00", strings.Repeat("// long\n", 400) + "package y\n"}

func lower(s *pspec.Spec) string {
	if v := s.Service(); v != nil {
		return strings.ToLower(goCamel(v.Name))
	}
	return "none"
}

// goCamel is the Go name of a service (as protoc-gen-go makes it).
func goCamel(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '.' && i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z':
		case c == '.':
			b = append(b, '_')
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '_' && i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z':
		case c >= '0' && c <= '9':
			b = append(b, c)
		default:
			if c >= 'a' && c <= 'z' {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z'; i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}

func genScenario(rt *rapid.T) scenario {
	s := pspec.Gen(opts).Draw(rt, "spec")
	x := scenario{Spec: s, Files: map[string]string{}, User: map[string]string{}, Extra: map[string]string{}}
	for _, f := range s.Files {
		x.Files[f.Name+".proto"] = s.Text(f)
		x.Order = append(x.Order, f.Name+".proto")
	}
	last := s.Files[len(s.Files)-1]
	name := last.Name + ".proto"
	text := x.Files[name]
	switch k := rapid.IntRange(0, 13).Draw(rt, "damage"); {
	case k < 3:
		x.How = "none"
	case k < 5:
		x.How = "cut off"
		x.Files[name] = text[:rapid.IntRange(0, len(text)-1).Draw(rt, "cut")]
	case k < 7:
		x.How = "a piece deleted"
		i := rapid.IntRange(0, len(text)-1).Draw(rt, "at")
		j := min(len(text), i+rapid.SampledFrom([]int{1, 1, 2, 5, 30}).Draw(rt, "len"))
		x.Files[name] = text[:i] + text[j:]
	case k == 7:
		x.How = "a piece inserted"
		i := rapid.IntRange(0, len(text)).Draw(rt, "at")
		x.Files[name] = text[:i] + rapid.SampledFrom([]string{"{", "}", "\"", "/*", ";", "service", "rpc X(A) returns (B);", "\x00", "message {}", "(", "import \"nope.proto\";"}).Draw(rt, "what") + text[i:]
	case k == 8:
		x.How = "a line doubled"
		ls := strings.SplitAfter(text, "\n")
		i := rapid.IntRange(0, len(ls)-1).Draw(rt, "at")
		ls[i] += ls[i]
		x.Files[name] = strings.Join(ls, "")
	case k == 9:
		x.How = "a file missing"
		x.Order = append(x.Order, "missing.proto")
	case k == 10:
		x.How = "a word changed"
		ws := strings.Split(text, " ")
		i := rapid.IntRange(0, len(ws)-1).Draw(rt, "at")
		ws[i] = rapid.SampledFrom([]string{"foo", "Nope", "0", "returns", "rpc", "string", "google.protobuf.Empty"}).Draw(rt, "word")
		x.Files[name] = strings.Join(ws, " ")
	case k == 11:
		x.How = "unsupported annotation"
		x.Files[name] = strings.Replace(text, "option (google.api.http) = {", "option (google.api.http) = { "+rapid.SampledFrom([]string{"get \"/x\"", "get: /x", "post: \"/a\" body:", "additional_bindings", "custom { kind: \"X\" }", "get: 'x", "", "}"}).Draw(rt, "ann"), 1)
	case k >= 12:
		x.How = "valid but unusual"
		switch rapid.IntRange(0, 7).Draw(rt, "unusual") {
		case 0:
			text = strings.Replace(text, "option (google.api.http) = {", "option (google.api.http) = {;", 1)
			text = strings.Replace(text, "{;", "{", 1)
			text = strings.Replace(text, "\"\n", "\",\n", 1)
		case 1:
			text = strings.Replace(text, "\n  rpc ", "\n  option deprecated = true;\n  rpc ", 1)
		case 2:
			text = strings.Replace(text, "additional_bindings {", "additional_bindings: {", 1)
		case 3:
			text = strings.Replace(text, "\n  rpc ", "\n  ;\n  rpc ", 1)
		case 4:
			text = strings.Replace(text, ": \"/", ": \"\" \"/", 1)
		default:
			i := strings.LastIndex(text, "service ")
			if i >= 0 {
				text = text[:i] + strings.Replace(text[i:], "\n}\n", "\n  rpc Extra (google.protobuf."+rapid.SampledFrom([]string{"Empty", "StringValue"}).Draw(rt, "xreq")+") returns (google.protobuf.Empty) { option (google.api.http) = { "+rapid.SampledFrom([]string{"get: \"/extra\"", "post: \"/extra\" body: \"*\"", "put: \"/extra/{value}\""}).Draw(rt, "xann")+" }; }\n}\n", 1)
				text = strings.Replace(text, ";\n", ";\nimport \"google/protobuf/empty.proto\";\nimport \"google/protobuf/wrappers.proto\";\n", 1)
			}
		}
		x.Files[name] = text
	}
	l := lower(s)
	has := rapid.IntRange(0, 5).Draw(rt, "prev") > 0
	if has {
		for _, f := range []string{"cmd/" + l + "/main.go", "cmd/" + l + "-client/main.go", "server/endpoints.go", "server/interrupt.go", "server/wrapper.go", "service/wrapper.go"} {
			if rapid.Bool().Draw(rt, "has") {
				x.User[f] = rapid.SampledFrom(userTexts).Draw(rt, "text")
			}
		}
		switch rapid.IntRange(0, 3).Draw(rt, "svc") {
		case 0:
			x.Handle = "absent"
		case 1, 2:
			x.Handle = "bad"
			x.User["service/service.go"] = rapid.SampledFrom(badService).Draw(rt, "bad")
		default:
			x.Handle = "good"
			x.User["service/service.go"] = "package service\n\nimport pb \"example.com/ws/api\"\n\n// mine\ntype " + l + "Service struct { pb.X }\n\nfunc helper() {}\n"
		}
		for _, f := range []string{"README.md", "service/mine.go", "server/more.go", "cmd/tool/main.go", "middleware/m.go", "go.txt", "service/service.go.orig", "svc/x.go"} {
			if rapid.IntRange(0, 2).Draw(rt, "extra") > 0 {
				x.Extra[f] = rapid.SampledFrom(userTexts).Draw(rt, "text")
			}
		}
	}
	if rapid.Bool().Draw(rt, "client") {
		x.Args = append(x.Args, "-c")
	}
	x.Args = append(x.Args, rapid.SampledFrom([][]string{nil, nil, {"-t=grpc"}, {"--transport=nats"}, {"-v"}, {"-d"}}).Draw(rt, "arg")...)
	x.Args = append(x.Args, rapid.SampledFrom([][]string{nil, nil, {"-o", "./"}, {"--svcout=./out/mine"}}).Draw(rt, "out")...)
	return x
}

func (x scenario) dir() string {
	for _, a := range x.Args {
		if strings.HasPrefix(a, "--svcout") {
			return "out/mine"
		}
	}
	return lower(x.Spec) + "-service"
}

// owned says whether baron or protoc may write the path.
func (x scenario) generatorOwned(p string) bool {
	if strings.HasPrefix(p, "api/") && (strings.HasSuffix(p, ".pb.go") || strings.HasSuffix(p, ".pb.baron.go")) {
		return true
	}
	return strings.HasSuffix(p, "/server/server.go")
}

func check(rep *vt.Rep, x scenario) error {
	ok, why, err := protoc(x.Files)
	if err != nil {
		return err
	}
	if x.How == "a file missing" {
		ok, why = false, "missing.proto: no such file"
	}
	w, err := baroncli.New()
	if err != nil {
		return err
	}
	defer w.Close()
	dir := x.dir()
	for n, t := range x.Files {
		w.Write("api/"+n, t)
	}
	for n, t := range x.User {
		w.Write(dir+"/"+n, t)
	}
	for n, t := range x.Extra {
		w.Write(dir+"/"+n, t)
	}
	w.Write("notes.txt", "mine")
	w.Write("other/main.go", "package main\n")
	w.Write("api/notes.md", "mine")
	before := w.Tree()
	args := append([]string{}, x.Args...)
	for _, n := range x.Order {
		args = append(args, "api/"+n)
	}
	r, err := w.Run(".", args...)
	if err != nil {
		return err
	}
	after := w.Tree()
	if r.Hung {
		return fmt.Errorf("baron %v does not end", args)
	}
	if strings.Contains(r.Out, "goroutine ") && strings.Contains(r.Out, "panic: ") {
		return fmt.Errorf("baron %v crashes instead of reporting an error:\n%s", args, r.Out)
	}
	valid := ok && x.How == "none"
	badFile := false
	if t, has := x.User["service/service.go"]; has {
		_, perr := parser.ParseFile(token.NewFileSet(), "", t, parser.ParseComments)
		badFile = perr != nil
	}
	hasService := false
	for _, t := range x.Files {
		hasService = hasService || strings.Contains(t, "service ")
	}
	switch {
	case !ok && r.Code == 0:
		return fmt.Errorf("baron %v exits with 0 although the definition is invalid: %s\n%s", args, why, r.Out)
	case valid && badFile && x.Spec.Service() != nil && r.Code == 0:
		return fmt.Errorf("baron %v exits with 0 although service/service.go is not valid Go:\n%s", args, r.Out)
	case valid && !badFile && r.Code != 0:
		return fmt.Errorf("baron %v exits with %d:\n%s", args, r.Code, r.Out)
	case r.Code == 0 && ok && x.How != "none" && hasService && !has(after, dir+"/server/server.go") && sameService(x) && x.Spec.Service() != nil && !strings.Contains(dir, "none") && definesService(x):
		return fmt.Errorf("baron %v exits with 0 but generates no server:\n%s", args, r.Out)
	}
	if r.Code != 0 && strings.TrimSpace(r.Out) == "" {
		return fmt.Errorf("baron %v fails without a message", args)
	}
	rep.Class(fmt.Sprintf("exit=%v protoc=%v", r.Code != 0, ok), "damage: "+x.How, "service file: "+x.Handle)
	for p, was := range before {
		got, there := after[p]
		if x.generatorOwned(p) && there {
			continue
		}
		rel := strings.TrimPrefix(p, dir+"/")
		user, mine := x.User[rel]
		if !there {
			return fmt.Errorf("baron %v (exit %d) removed %s\n%s", args, r.Code, p, r.Out)
		}
		if was == got {
			continue
		}
		if r.Code == 0 && mine && (rel == "service/service.go" || formatted(user) == got) {
			continue
		}
		return fmt.Errorf("baron %v (exit %d) changed %s, is\n%s\nwas\n%s\noutput:\n%s", args, r.Code, p, got, was, r.Out)
	}
	if r.Code != 0 {
		// nothing half-done in the service directory
		for p := range after {
			if _, had := before[p]; !had && !x.generatorOwned(p) && !strings.HasSuffix(p, "/") {
				return fmt.Errorf("baron %v (exit %d) made %s\n%s", args, r.Code, p, r.Out)
			}
		}
	}
	rep.Case(r.Code != 0 && len(x.User) > 0, fmt.Sprint(x.describe()), x.describe)
	return nil
}

func has(m map[string]string, k string) bool { _, ok := m[k]; return ok }

// sameService: the damage left the service's name alone.
func sameService(x scenario) bool {
	v := x.Spec.Service()
	if v == nil {
		return false
	}
	for _, t := range x.Files {
		if strings.Contains(t, "service "+v.Name+" {") {
			return true
		}
	}
	return false
}

// definesService asks protoc whether the damaged files still define one.
func definesService(x scenario) bool {
	d := vt.Scratch("ds")
	defer os.RemoveAll(d)
	args := []string{"--experimental_allow_proto3_optional", "--proto_path=" + d, "-I" + filepath.Join(vt.RepoDir(), "third_party/googleapis"), "--go-grpc_out=" + d, "--go-grpc_opt=paths=source_relative"}
	for n, t := range x.Files {
		os.WriteFile(filepath.Join(d, n), []byte(t), 0666)
		args = append(args, filepath.Join(d, n))
	}
	exec.Command("protoc", args...).Run()
	m, _ := filepath.Glob(filepath.Join(d, "*_grpc.pb.go"))
	return len(m) > 0
}

func formatted(s string) string {
	b, err := format.Source([]byte(s))
	if err != nil {
		return s
	}
	return string(b)
}

func TestC17(t *testing.T) {
	rep := vt.Start(t, "C17", "random definitions, damaged in random ways (cut off, pieces deleted, inserted or doubled, words changed, files missing, unsupported annotations) or sound, given to the command in a scratch module with random previous files; protoc says whether the definition is valid, go/parser whether the service file is; non-trivial: a failing run in a directory with user-owned files")
	rep.Assume("files named by the old layout (svc/server/cli, svc/client/cli, cmd/NAME-server) are cleaned up by design", "a definition without any service ends the run with success by design")
	rep.Check(t, 17, vt.N(90, 2400), func(rt *rapid.T) {
		xs := rapid.SliceOfN(rapid.Custom(genScenario), 4, 12).Draw(rt, "runs")
		i, err := vt.Parallel(len(xs), func(i int) error { return check(rep, xs[i]) })
		if err != nil {
			rep.FailErr(rt, xs[i].describe(), err)
		}
	})
}
