package cli

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/zzverif/baroncli"
	"github.com/teamlint/baron/zzverif/vt"
)

type startRun struct {
	Alias  string
	Given  bool // false: no name given
	OutDir string
	Exists string // content of an existing file, when HasOld
	HasOld bool
	Flag   string
	Cwd    string     // where it runs
	Also   [][]string // options which do not matter
	After  bool       // they follow the names
	InWay  bool       // a file is where the directory should be
}

var aliasWords = []string{"foo", "Foo", "fooBar", "FOO", "x", "A", "user", "v1", "echo", "service", "message", "type", "func", "rpc", "returns", "option", "import", "package", "syntax", "enum", "google", "status", "start", "int32", "string", "stream", "http", "api", "request", "ok", "fail", "proto", "protocol", "proto", "server", "client", "test"}

func genStart(rt *rapid.T) startRun {
	var x startRun
	n := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 3}).Draw(rt, "words")
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(rapid.SampledFrom([]string{"-", "_", " ", "-", "_", "", ".", "__", "- "}).Draw(rt, "sep"))
		}
		b.WriteString(rapid.SampledFrom(aliasWords).Draw(rt, "word"))
		if rapid.IntRange(0, 6).Draw(rt, "num") == 0 {
			b.WriteString(fmt.Sprint(rapid.IntRange(0, 99).Draw(rt, "n")))
		}
	}
	x.Alias = b.String()
	if x.Alias == "" && rapid.Bool().Draw(rt, "ident") {
		x.Alias = rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_-]{0,12}`).Draw(rt, "alias")
	}
	if rapid.IntRange(0, 19).Draw(rt, "special") == 0 {
		x.Alias = rapid.SampledFrom([]string{"status-request", "StatusRequest", "status_response", "service-status", "OK", "FAIL", "o-k", "Status", "status-", "a_", "a--b", "google.api", "my.protocol", "x.proto.v1"}).Draw(rt, "sp")
	}
	if x.Alias != "" && rapid.IntRange(0, 7).Draw(rt, "suffix") == 0 {
		x.Alias += ".proto"
	}
	x.OutDir = rapid.SampledFrom([]string{"", "", ".", "api", "a/b", "./deep/er/", "/abs/x", "with space", "api", "..", "../sib", "../../up/er", "a/../b", "api/..", "x.proto", "-", "ünï"}).Draw(rt, "out")
	if x.Alias == "" {
		x.OutDir = ""
	}
	x.Given = x.Alias != ""
	x.HasOld = rapid.IntRange(0, 3).Draw(rt, "old") == 0
	if x.HasOld {
		x.Exists = rapid.SampledFrom([]string{"", "mine", "syntax = \"proto3\";\npackage foo;\n", "\x00\xff", strings.Repeat("long\n", 500)}).Draw(rt, "content")
	}
	x.Flag = rapid.SampledFrom([]string{"-s", "--start"}).Draw(rt, "flag")
	x.Cwd = rapid.SampledFrom([]string{".", ".", "sub", "sub/cwd", "api"}).Draw(rt, "cwd")
	for _, a := range [][]string{{"-v"}, {"-d"}, {"-c"}, {"--debug"}, {"-t", "grpc"}, {"-o", "out"}, {"--svcout=./made/"}, {"--svcdef=false"}} {
		if rapid.IntRange(0, 7).Draw(rt, "also") == 0 {
			x.Also = append(x.Also, a)
		}
	}
	x.After = rapid.Bool().Draw(rt, "after")
	if x.OutDir == "api" || x.OutDir == "a/b" || x.OutDir == "../sib" {
		x.InWay = rapid.IntRange(0, 3).Draw(rt, "inway") == 0
	}
	return x
}

var svcLine = regexp.MustCompile(`(?m)^service\s+([A-Za-z0-9_]+)\s*\{`)

func checkStart(rep *vt.Rep, x startRun) error {
	alias := x.Alias
	if alias == "" {
		alias = "start"
	}
	alias = strings.TrimSuffix(alias, ".proto")
	pkg := strings.ToLower(strings.NewReplacer("-", "", " ", "").Replace(alias))
	svc := goCamel(strings.NewReplacer("-", "_", " ", "_").Replace(alias))
	w, err := baroncli.New()
	if err != nil {
		return err
	}
	defer w.Close()
	dir := x.OutDir
	arg := dir
	if filepath.IsAbs(dir) {
		dir = dir[1:]
		arg = filepath.Join(w.Dir, dir)
	}
	if !filepath.IsAbs(x.OutDir) {
		dir = filepath.Join("run/in", x.Cwd, dir)
	}
	cwd := filepath.Join("run/in", x.Cwd)
	rel := filepath.Clean(filepath.Join(dir, pkg+".proto"))
	if x.InWay && !strings.HasPrefix(cwd+"/", dir+"/") {
		x.HasOld = false
	} else {
		x.InWay = false
	}
	w.Write(cwd+"/here.txt", "mine")
	w.Write("notes.txt", "mine")
	if !x.InWay {
		w.Write("api/other.proto", "mine too")
	} else {
		w.Write(dir, "in the way")
	}
	if x.HasOld {
		w.Write(rel, x.Exists)
	}
	args := []string{x.Flag}
	if !x.After {
		for _, a := range x.Also {
			args = append(args, a...)
		}
	}
	if x.Given {
		args = append(args, x.Alias)
		if arg != "" {
			if arg == "-" {
				arg = "./-"
			}
			args = append(args, arg)
		}
	}
	if x.After {
		for _, a := range x.Also {
			args = append(args, a...)
		}
	}
	before := w.Tree()
	r, err := w.Run(cwd, args...)
	if err != nil {
		return err
	}
	after := w.Tree()
	rep.Class(fmt.Sprintf("exists=%v", x.HasOld), fmt.Sprintf("in the way=%v", x.InWay), fmt.Sprintf("other options=%v", len(x.Also) > 0), fmt.Sprintf("dir=%v", x.OutDir != ""))
	rep.Case(x.HasOld || x.OutDir != "" || svc != "Start", fmt.Sprint(x), func() interface{} { return x })
	if r.Hung || strings.Contains(r.Out, "goroutine ") {
		return fmt.Errorf("baron %q: %s", args, r.Out)
	}
	for p, was := range before {
		if got, ok := after[p]; !ok || got != was {
			return fmt.Errorf("baron %q changed %s to %q", args, p, got)
		}
	}
	if x.HasOld || x.InWay {
		if r.Code == 0 {
			return fmt.Errorf("baron %q exits with 0 although %s exists", args, map[bool]string{true: dir, false: rel}[x.InWay])
		}
		for p := range after {
			if _, ok := before[p]; !ok {
				return fmt.Errorf("baron %q made %s", args, p)
			}
		}
		return nil
	}
	if r.Code != 0 {
		return fmt.Errorf("baron %q: exit %d: %s", args, r.Code, r.Out)
	}
	text, ok := after[rel]
	if !ok {
		return fmt.Errorf("baron %q did not make %s: %s", args, rel, r.Out)
	}
	for p := range after {
		if _, ok := before[p]; !ok && p != rel && !strings.HasSuffix(p, "/") {
			return fmt.Errorf("baron %q made %s besides %s", args, p, rel)
		}
	}
	m := svcLine.FindStringSubmatch(text)
	if m == nil || m[1] != svc {
		return fmt.Errorf("baron %q: the service is %q, not %s", args, m, svc)
	}
	if !strings.Contains(text, "package "+pkg+";") {
		return fmt.Errorf("baron %q: the package is not %s:\n%s", args, pkg, text)
	}
	known := ""
	for _, n := range []string{"StatusRequest", "StatusResponse", "ServiceStatus", "OK", "FAIL"} {
		if svc == n {
			known = n
		}
	}
	valid, why, err := protoc(map[string]string{pkg + ".proto": text})
	if err != nil {
		return err
	}
	if !valid && known != "" {
		if what, ok := vt.Known("C28", "name-"+known); ok {
			rep.KnownOnce("name-"+known, what)
			return nil
		}
	}
	if !valid {
		return fmt.Errorf("baron %q: protoc rejects the starter: %s\n%s", args, why, text)
	}
	// a second time nothing changes
	r, err = w.Run(cwd, args...)
	if err != nil {
		return err
	}
	if r.Code == 0 {
		return fmt.Errorf("baron %q a second time: exit 0", args)
	}
	if got := w.Tree()[rel]; got != text {
		return fmt.Errorf("baron %q a second time changed the file", args)
	}
	r, err = w.Run(filepath.Dir(rel), filepath.Base(rel))
	if err != nil {
		return err
	}
	if r.Code != 0 {
		return fmt.Errorf("baron rejects its own starter %s (%d): %s", rel, r.Code, r.Out)
	}
	l := strings.ToLower(svc)
	if _, ok := w.Tree()[filepath.Join(filepath.Dir(rel), l+"-service/server/server.go")]; !ok {
		return fmt.Errorf("baron %s generates no service: %s", rel, r.Out)
	}
	return nil
}

func TestC28(t *testing.T) {
	rep := vt.Start(t, "C28", "random package names (words joined by -, _, blank or dot, keywords, digits, capitals, .proto suffix) and directories, with or without an existing file, given to baron --start in a scratch module; the file must have the documented name, package and service, be accepted by protoc and by baron, and be the only file made or changed; non-trivial: not the default name in the current directory")
	rep.Assume("package names are letters, digits, -, _, blanks and dots, starting with a letter")
	// the listed findings, every time
	for _, a := range []string{"status-request", "status-response", "service-status", "OK", "FAIL"} {
		x := startRun{Alias: a, Given: true, Flag: "-s"}
		if err := checkStart(rep, x); err != nil {
			rep.FailErr(t, x, err)
		}
	}
	rep.Check(t, 28, vt.N(90, 2400), func(rt *rapid.T) {
		xs := rapid.SliceOfN(rapid.Custom(genStart), 3, 10).Draw(rt, "runs")
		i, err := vt.Parallel(len(xs), func(i int) error { return checkStart(rep, xs[i]) })
		if err != nil {
			rep.FailErr(rt, xs[i], err)
		}
	})
}
