package cli

import (
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/zzverif/baroncli"
	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/vt"
)

// layout is where the definitions are, where the command runs and where the
// service should go. All directories are relative to the scratch directory.
type layout struct {
	Spec    *pspec.Spec
	Modules map[string]string // module path by directory
	Mode    string            // "modules", "workspace" or "gopath"
	Defs    string
	Other   string // where a second definition is, if elsewhere
	Cwd     string
	Out     *string // svcout; nil: not given
	Args    []string
	Spell   []string // how the definitions are named on the command line
	Flag    string
	GoPath2 bool
	Second  bool // baron is only in the second directory of GOPATH
}

func (l layout) describe() interface{} {
	out := "(none)"
	if l.Out != nil {
		out = *l.Out
	}
	return map[string]interface{}{"definition": l.Spec.Whole(), "modules": l.Modules, "mode": l.Mode, "definitions in": l.Defs, "another in": l.Other, "run in": l.Cwd, "svcout": out, "args": l.Args, "definitions as": l.Spell}
}

const gopathDir = "gp"

// pkgPath is the import path of a directory, "" if it has none.
func (l layout) pkgPath(dir string) string {
	if l.Mode == "gopath" {
		rel, err := filepath.Rel(gopathDir+"/src", dir)
		if err != nil || strings.HasPrefix(rel, "..") || rel == "." {
			return ""
		}
		return rel
	}
	for d := dir; d != "." && d != ""; d = filepath.Dir(d) {
		if m, ok := l.Modules[d]; ok {
			rel, _ := filepath.Rel(d, dir)
			if rel == "." {
				return m
			}
			return m + "/" + rel
		}
	}
	return ""
}

// service is the directory of the service as the documentation of svcout has
// it.
func (l layout) service() string {
	name := lower(l.Spec) + "-service"
	if l.Out == nil || *l.Out == "" {
		return filepath.Join(l.Cwd, name)
	}
	o := *l.Out
	var d string
	if o == "." || o == ".." || strings.HasPrefix(o, "./") || strings.HasPrefix(o, "../") {
		d = filepath.Join(l.Cwd, o)
	} else {
		d = filepath.Join(gopathDir, "src", o)
	}
	if strings.HasSuffix(o, "/") {
		d = filepath.Join(d, name)
	}
	return d
}

var layoutOpts = pspec.Opts{MaxFiles: 3, MaxMsgs: 2, MaxRpcs: 3}

func genLayout(rt *rapid.T) layout {
	pick := func(label string, xs ...string) string { return rapid.SampledFrom(xs).Draw(rt, label) }
	l := layout{Mode: pick("mode", "modules", "modules", "modules", "modules", "workspace", "gopath")}
	for {
		l.Spec = pspec.Gen(layoutOpts).Draw(rt, "spec")
		if l.Spec.Service() != nil {
			break
		}
	}
	sub := func(base string) string {
		return filepath.Join(base, pick("sub", ".", ".", "api", "a-b/v1.2", "internal/Up", "testdata/pb", "x_1", "api/api"))
	}
	bases := []string{"m", "m", "m", "m/nest", "m/nest/deep", "other", gopathDir + "/src/example.com/gp"}
	if l.Mode == "gopath" {
		bases = []string{gopathDir + "/src/old.org/p", gopathDir + "/src/old.org/p", gopathDir + "/src/old.org/q/r"}
		l.Modules = map[string]string{}
	} else {
		l.Modules = map[string]string{
			"m":                               pick("mod", "example.com/ws", "example.com/ws/v2", "example.com/Team/my-svc.go", "ws.test"),
			"m/nest":                          pick("nested", "example.com/nested", "example.com/ws/nest", "a.test/b/c"),
			"other":                           pick("other", "other.org/x", "other.org/x/v3"),
			gopathDir + "/src/example.com/gp": "example.com/gp",
		}
		if rapid.Bool().Draw(rt, "deep") {
			l.Modules["m/nest/deep"] = "deep.test/d"
		}
	}
	l.Defs = sub(pick("defbase", bases...))
	if rapid.IntRange(0, 2).Draw(rt, "same") == 0 {
		l.Cwd = l.Defs
	} else if rapid.Bool().Draw(rt, "near") {
		l.Cwd = sub(bases[0])
	} else {
		l.Cwd = sub(pick("cwdbase", bases...))
	}
	outs := []string{"-", "-", "-", "", ".", "./", "./out", "./out/", "./deep/er", "./deep/v2/", "./out//", "./x/../y"}
	for _, o := range []string{"..", "../", "../out", "../out/"} {
		if l.pkgPath(filepath.Join(l.Cwd, o)) != "" {
			outs = append(outs, o)
		}
	}
	if l.Mode == "gopath" {
		outs = append(outs, "old.org/q", "old.org/q/", "old.org/p/svc", "new.test/x/", "plain", "plain/")
	} else {
		outs = append(outs, "example.com/gp", "example.com/gp/", "example.com/gp/x/y", "example.com/gp/x/y/")
	}
	if o := pick("out", outs...); o != "-" {
		l.Out = &o
		l.Flag = pick("flag", "-o ", "-o=", "--svcout ", "--svcout=")
		if o == "" && l.Flag == "-o=" {
			l.Flag = "-o " // the flag package takes "-o=" as "-o", "="
		}
	}
	if rapid.Bool().Draw(rt, "client") {
		l.Args = append(l.Args, "-c")
	}
	l.GoPath2 = rapid.IntRange(0, 2).Draw(rt, "gopath2") == 0
	l.Second = rapid.Bool().Draw(rt, "second")
	if len(l.Spec.Files) > 1 && rapid.IntRange(0, 9).Draw(rt, "elsewhere") == 0 {
		l.Other = filepath.Join(l.Defs, pick("otherdir", "..", "sub", "sub/x"))
	}
	for range l.Spec.Files {
		l.Spell = append(l.Spell, pick("spell", "plain", "plain", "dot", "abs", "round"))
	}
	return l
}

func (l layout) args(w *baroncli.WS) (args []string) {
	args = append(args, l.Args...)
	if l.Out != nil {
		if strings.HasSuffix(l.Flag, " ") {
			args = append(args, strings.TrimSpace(l.Flag), *l.Out)
		} else {
			args = append(args, l.Flag+*l.Out)
		}
	}
	for i, f := range l.Spec.Files {
		d := l.Defs
		if l.Other != "" && i == 1 {
			d = l.Other
		}
		rel, err := filepath.Rel(l.Cwd, d)
		if err != nil {
			panic(err)
		}
		name := f.Name + ".proto"
		p := filepath.Join(rel, name)
		switch l.Spell[i] {
		case "dot":
			p = "./" + p
		case "abs":
			p = filepath.Join(w.Dir, d, name)
		case "round":
			p = rel + "/../" + filepath.Base(d) + "/" + name
		}
		args = append(args, p)
	}
	return
}

// lines is a text's lines in order, with the packages replaced.
func lines(text string, pkgs ...string) string {
	for i, p := range pkgs {
		text = strings.ReplaceAll(text, strconv.Quote(p), fmt.Sprintf("%q", fmt.Sprint("PKG", i)))
	}
	ls := strings.Split(text, "\n")
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

func (l layout) check(rep *vt.Rep) error {
	w := &baroncli.WS{Dir: vt.Scratch("lay")}
	defer w.Close()
	for d, m := range l.Modules {
		w.Write(d+"/go.mod", "module "+m+"\n\ngo 1.23\n")
	}
	for _, d := range []string{l.Defs, l.Cwd, gopathDir + "/src/github.com/teamlint", "gp2/src/github.com/teamlint"} {
		if err := os.MkdirAll(filepath.Join(w.Dir, d), 0777); err != nil {
			return vt.Infra{Err: err}
		}
	}
	for i, d := range []string{gopathDir, "gp2"} {
		if i == 0 && l.GoPath2 && l.Second {
			continue // baron is in the second one alone
		}
		if err := os.Symlink(vt.RepoDir(), filepath.Join(w.Dir, d, "src/github.com/teamlint/baron")); err != nil {
			return vt.Infra{Err: err}
		}
	}
	for i, f := range l.Spec.Files {
		d := l.Defs
		if l.Other != "" && i == 1 {
			d = l.Other
		}
		w.Write(d+"/"+f.Name+".proto", l.Spec.Text(f))
	}
	env := []string{"GOPATH=" + filepath.Join(w.Dir, gopathDir), "GO111MODULE=on", "GOWORK=off"}
	if l.GoPath2 {
		env[0] += ":" + filepath.Join(w.Dir, "gp2")
	}
	switch l.Mode {
	case "workspace":
		t := "go 1.23\n"
		for d := range l.Modules {
			t += "use ./" + d + "\n"
		}
		w.Write("go.work", t)
		env[2] = "GOWORK="
	case "gopath":
		env[1] = "GO111MODULE=off"
	}
	args := l.args(w)
	before := w.Tree()
	r, err := w.RunEnv(env, l.Cwd, args...)
	if err != nil {
		return err
	}
	after := w.Tree()
	what := fmt.Sprintf("in %s, baron %v", l.Cwd, args)
	if l.Other != "" {
		if r.Code == 0 {
			return fmt.Errorf("%s: the definitions are in two directories (%s and %s), but it exits with 0\n%s", what, l.Defs, l.Other, r.Out)
		}
		for p := range after {
			if _, had := before[p]; !had {
				return fmt.Errorf("%s (exit %d) makes %s\n%s", what, r.Code, p, r.Out)
			}
		}
		rep.Class("definitions in two directories")
		rep.Case(false, "", nil)
		return nil
	}
	if r.Code != 0 {
		return fmt.Errorf("%s: exit %d\n%s", what, r.Code, r.Out)
	}
	svc, low := l.service(), lower(l.Spec)
	expect := map[string]bool{}
	for _, f := range l.Spec.Files {
		expect[l.Defs+"/"+f.Name+".pb.go"] = true
		if f.Service != nil {
			expect[l.Defs+"/"+f.Name+"_grpc.pb.go"] = true
		}
	}
	expect[l.Defs+"/"+l.Spec.Files[0].Name+".pb.baron.go"] = true
	for _, f := range []string{"cmd/" + low + "/main.go", "server/endpoints.go", "server/interrupt.go", "server/server.go", "server/wrapper.go", "service/service.go", "service/wrapper.go"} {
		expect[svc+"/"+f] = true
	}
	if len(l.Args) > 0 {
		expect[svc+"/cmd/"+low+"-client/main.go"] = true
	}
	for p := range after {
		if _, had := before[p]; !had && !expect[p] && !strings.HasSuffix(p, "/") {
			return fmt.Errorf("%s makes %s; expected the service in %s", what, p, svc)
		}
	}
	for p := range expect {
		if _, ok := after[p]; !ok {
			return fmt.Errorf("%s does not make %s\n%s", what, p, r.Out)
		}
	}
	for p, t := range before {
		if after[p] != t {
			return fmt.Errorf("%s changes %s", what, p)
		}
	}
	pb, sp := l.pkgPath(l.Defs), l.pkgPath(svc)
	allowed := map[string]bool{pb: true, sp + "/service": true, sp + "/server": true}
	seen := map[string]bool{}
	for p := range expect {
		af, err := parser.ParseFile(token.NewFileSet(), p, after[p], parser.ImportsOnly)
		if err != nil {
			return fmt.Errorf("%s: %s: %v", what, p, err)
		}
		for _, im := range af.Imports {
			q, _ := strconv.Unquote(im.Path.Value)
			host, _, _ := strings.Cut(q, "/")
			if host == "github.com" || host == "google.golang.org" || host != "" && !strings.Contains(host, ".") && !allowed[q] && stdLike[host] {
				continue
			}
			if !allowed[q] {
				return fmt.Errorf("%s: %s imports %q; the definitions are package %q, the service %q", what, p, q, pb, sp)
			}
			seen[q] = true
			if strings.HasPrefix(p, svc+"/service/") && q != pb || filepath.Dir(p) == l.Defs && svc != l.Defs {
				return fmt.Errorf("%s: %s imports %q", what, p, q)
			}
		}
	}
	for q := range allowed {
		if !seen[q] {
			return fmt.Errorf("%s: nothing generated imports %q", what, q)
		}
	}
	// What is generated depends on the place only by the packages imported.
	base, err := baroncli.New()
	if err != nil {
		return err
	}
	defer base.Close()
	bargs := append([]string{}, l.Args...)
	for _, f := range l.Spec.Files {
		base.Write("api/"+f.Name+".proto", l.Spec.Text(f))
		bargs = append(bargs, "api/"+f.Name+".proto")
	}
	rb, err := base.Run(".", bargs...)
	if err != nil {
		return err
	}
	if rb.Code != 0 {
		return fmt.Errorf("baron %v: exit %d\n%s", bargs, rb.Code, rb.Out)
	}
	ref := base.Tree()
	bsp := "example.com/ws/" + low + "-service"
	for p := range expect {
		q := "api/" + strings.TrimPrefix(p, l.Defs+"/")
		if strings.HasPrefix(p, svc+"/") && filepath.Dir(p) != l.Defs {
			q = low + "-service/" + strings.TrimPrefix(p, svc+"/")
		}
		if strings.HasPrefix(q, "/") {
			return vt.Infra{Err: fmt.Errorf("%s, %s: %s", p, l.Defs, q)}
		}
		want, ok := ref[q]
		if !ok {
			return fmt.Errorf("baron %v does not make %s", bargs, q)
		}
		if a, b := lines(after[p], pb, sp+"/service", sp+"/server"), lines(want, "example.com/ws/api", bsp+"/service", bsp+"/server"); a != b {
			return fmt.Errorf("%s: %s depends on the place otherwise than by its imports; here\n%s\nelsewhere\n%s", what, p, after[p], want)
		}
	}
	// Once more: nothing is new, nothing changes.
	r, err = w.RunEnv(env, l.Cwd, args...)
	if err != nil {
		return err
	}
	if r.Code != 0 {
		return fmt.Errorf("%s, once more: exit %d\n%s", what, r.Code, r.Out)
	}
	again := w.Tree()
	for p, t := range again {
		if u, ok := after[p]; !ok || u != t {
			return fmt.Errorf("%s, once more, makes or changes %s, is\n%s\nwas\n%s", what, p, t, u)
		}
	}
	out := "none"
	if l.Out != nil {
		out = strconv.Quote(*l.Out)
	}
	rep.Class("mode: "+l.Mode, "svcout: "+out, fmt.Sprintf("run where the definitions are: %v", l.Cwd == l.Defs), "definitions in the module at "+l.moduleDir(l.Defs))
	for _, s := range l.Spell {
		rep.Class("definitions named: " + s)
	}
	rep.Case(l.moduleDir(l.Defs) != l.moduleDir(svc) || l.Cwd != filepath.Dir(svc), fmt.Sprint(l.describe()), l.describe)
	return nil
}

func (l layout) moduleDir(d string) string {
	for ; d != "." && d != "/"; d = filepath.Dir(d) {
		if _, ok := l.Modules[d]; ok {
			return d
		}
	}
	return "(none)"
}

// stdLike are the first elements of the standard packages that generated code
// imports.
var stdLike = map[string]bool{"bytes": true, "context": true, "encoding": true, "errors": true, "flag": true, "fmt": true, "io": true, "log": true, "net": true, "os": true, "strconv": true, "strings": true, "sync": true, "syscall": true, "time": true, "reflect": true, "math": true, "sort": true, "path": true, "runtime": true, "unsafe": true, "regexp": true, "unicode": true, "bufio": true, "slices": true, "maps": true, "embed": true, "html": true, "text": true, "crypto": true, "container": true, "iter": true, "cmp": true, "hash": true, "mime": true, "expvar": true}

func TestC33(t *testing.T) {
	rep := vt.Start(t, "C33", "random layouts: modules, nested modules, a workspace or a GOPATH without modules; definitions, the directory the command runs in and the svcout option in random places of them, spelled in several ways. The oracle is the documented meaning of svcout, the module path of the nearest go.mod for the imports, and a run in the plainest layout for everything else; non-trivial: the service is in another module than the definitions or not below the directory the command runs in")
	rep.Check(t, 33, vt.N(60, 900), func(rt *rapid.T) {
		ls := rapid.SliceOfN(rapid.Custom(genLayout), 4, 12).Draw(rt, "layouts")
		i, err := vt.Parallel(len(ls), func(i int) error { return ls[i].check(rep) })
		if err != nil {
			rep.FailErr(rt, ls[i].describe(), err)
		}
	})
}
