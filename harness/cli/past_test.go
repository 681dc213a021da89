package cli

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/zzverif/baroncli"
	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/vt"
)

// step is one run of the command in the life of a service.
type step struct {
	Spec   *pspec.Spec
	Files  map[string]string
	Order  []string
	First  string // the definition named first, without .proto
	Has    map[string]bool
	Rpcs   int
	Args   []string
	Damage string
	Drop   bool   // files of earlier definitions are deleted before
	Edit   bool   // the user appends to the service file afterwards
	Link   string // this is moved elsewhere afterwards, a link is left
	Odd    string // something other than a file or directory left afterwards
	Times  string // what becomes of the modification times before
	How    string
	Mine   [][2]string // C39: the user writes these files of the service afterwards
}

func (s step) describe() interface{} {
	return map[string]interface{}{"definitions": s.Files, "args": append(append([]string{}, s.Args...), s.Order...), "damage": s.Damage, "old definitions deleted before": s.Drop, "service file edited after": s.Edit, "moved elsewhere and linked to after": s.Link, "left in the service afterwards": s.Odd, "modification times before": s.Times, "change": s.How, "the user writes afterwards": s.Mine}
}

var pastOpts = pspec.Opts{MaxFiles: 3, MaxMsgs: 3, MaxRpcs: 5, LocalRefs: true, Streaming: true}

// place puts the service with the chosen rpcs into the i-th file and gives the
// texts; the definition is put back afterwards.
func place(s *pspec.Spec, i int, name string, keep []bool) (map[string]string, map[string]bool) {
	svc := s.Service()
	var was *pspec.File
	for _, f := range s.Files {
		if f.Service != nil {
			was = f
		}
	}
	oldName, oldRpcs := svc.Name, svc.Rpcs
	svc.Name, svc.Rpcs = name, nil
	for j, r := range oldRpcs {
		if keep[j] {
			svc.Rpcs = append(svc.Rpcs, r)
		}
	}
	at := s.Files[i]
	oldAt := at.ServiceAt
	was.Service = nil
	at.Service = svc
	if at != was {
		at.ServiceAt = len(at.Msgs)
	}
	files, has := map[string]string{}, map[string]bool{}
	for _, f := range s.Files {
		files[f.Name+".proto"] = s.Text(f)
		has[f.Name] = f.Service != nil
	}
	at.ServiceAt = oldAt
	at.Service = nil
	was.Service = svc
	svc.Name, svc.Rpcs = oldName, oldRpcs
	return files, has
}

func genHistory(rt *rapid.T) (out []step) {
	var specs []*pspec.Spec
	for len(specs) < 2 {
		s := pspec.Gen(pastOpts).Draw(rt, "spec")
		if s.Service() == nil {
			continue
		}
		for i, f := range s.Files {
			f.Name = []string{"a", "b_x", "c"}[i]
		}
		specs = append(specs, s)
	}
	cur := 0
	client := false
	for n := rapid.IntRange(2, 5).Draw(rt, "steps"); len(out) < n; {
		x := step{How: "other rpcs, other file"}
		if rapid.IntRange(0, 3).Draw(rt, "switch") == 0 {
			cur = 1 - cur
			x.How = "another definition"
		}
		s := specs[cur]
		x.Spec = s
		var keep []bool
		for range s.Service().Rpcs {
			keep = append(keep, rapid.IntRange(0, 3).Draw(rt, "keep") > 0)
			if keep[len(keep)-1] {
				x.Rpcs++
			}
		}
		name := rapid.SampledFrom([]string{"Echo", "Echo", "Echo", "Echo", "echo", "Other"}).Draw(rt, "name")
		at := rapid.IntRange(0, len(s.Files)-1).Draw(rt, "at")
		x.Files, x.Has = place(s, at, name, keep)
		for _, f := range s.Files {
			x.Order = append(x.Order, "api/"+f.Name+".proto")
		}
		k := rapid.IntRange(0, len(x.Order)-1).Draw(rt, "order")
		x.Order = append(append([]string{}, x.Order[k:]...), x.Order[:k]...)
		x.First = strings.TrimSuffix(filepath.Base(x.Order[0]), ".proto")
		client = client || rapid.IntRange(0, 2).Draw(rt, "client") == 0
		if client {
			x.Args = append(x.Args, "-c")
		}
		x.Args = append(x.Args, rapid.SampledFrom([]string{"-t=all", "-t=grpc", "-t=nats", "-v"}).Draw(rt, "transport"))
		x.Drop = rapid.IntRange(0, 3).Draw(rt, "drop") == 0
		x.Edit = rapid.IntRange(0, 2).Draw(rt, "edit") == 0
		x.Times = rapid.SampledFrom([]string{"", "", "definitions old", "all the same", "generated files of tomorrow"}).Draw(rt, "times")
		if rapid.IntRange(0, 2).Draw(rt, "move") == 0 {
			x.Link = rapid.SampledFrom([]string{"", "/service", "/service", "/server", "/cmd", "/cmd/NAME", "/service/service.go", "/service/wrapper.go", "/server/endpoints.go", "api"}).Draw(rt, "what")
			if x.Link != "api" {
				x.Link = "SVC" + x.Link
			}
		}
		if rapid.IntRange(0, 2).Draw(rt, "odd") == 0 {
			x.Odd = rapid.SampledFrom([]string{"SVC", "SVC/service", "SVC/cmd", "SVC/server", "SVC/cmd/NAME"}).Draw(rt, "in") + " " + rapid.SampledFrom([]string{"lock", "pipe", "link up", "directory"}).Draw(rt, "odd")
		}
		for _, f := range []string{"cmd/NAME/main.go", "server/endpoints.go", "server/wrapper.go", "server/interrupt.go", "service/wrapper.go", "cmd/NAME-client/main.go"} {
			if rapid.IntRange(0, 7).Draw(rt, "mine") == 0 {
				x.Mine = append(x.Mine, [2]string{f, rapid.SampledFrom([]string{"", "\n", "package mine\n", "not Go", "\x00\xff"}).Draw(rt, "content")})
			}
		}
		if rapid.IntRange(0, 5).Draw(rt, "bad") == 0 && len(out) < n-1 {
			last := filepath.Base(x.Order[len(x.Order)-1])
			x.Damage = rapid.SampledFrom([]string{"message {", "service", "rpc X (Nope) returns (Nope);", "}", "message Dup {} message Dup {}"}).Draw(rt, "damage")
			x.Files[last] += "\n" + x.Damage + "\n"
		}
		out = append(out, x)
	}
	return
}

// handlers are the signatures of the methods of a service file.
func handlers(src string) ([]string, error) {
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, "", src, 0)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, d := range af.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || !ast.IsExported(f.Name.Name) {
			continue
		}
		f.Body = nil
		var b bytes.Buffer
		printer.Fprint(&b, fset, f)
		out = append(out, b.String())
	}
	sort.Strings(out)
	return out, nil
}

// setTimes gives the files of the module the modification times a checkout, a
// copy or an odd clock would leave.
func setTimes(w *baroncli.WS, how string) error {
	for p := range w.Through() {
		def := strings.HasPrefix(p, "api/") && strings.HasSuffix(p, ".proto")
		var to time.Time
		switch {
		case how == "definitions old" && def:
			to = time.Now().Add(-1000 * time.Hour)
		case how == "all the same":
			to = time.Unix(1500000000, 0)
		case how == "generated files of tomorrow" && !def:
			to = time.Now().Add(24 * time.Hour)
		default:
			continue
		}
		if err := os.Chtimes(filepath.Join(w.Dir, p), to, to); err != nil && !os.IsNotExist(err) {
			return err
		}
	}
	return nil
}

// disturb does what is to happen after the run, and returns the link made.
func (x step) disturb(rep *vt.Rep, w *baroncli.WS, svc string) (links []string) {
	names := strings.NewReplacer("SVC", svc, "NAME", strings.TrimSuffix(svc, "-service"))
	if l := names.Replace(x.Link); l != "" && w.MoveAway(l) {
		links = append(links, l)
		rep.Class("moved elsewhere: " + x.Link)
	}
	if x.Odd != "" {
		dir, what, _ := strings.Cut(names.Replace(x.Odd), " ")
		if w.Odd(dir, what) {
			rep.Class("left in the service: " + what)
		}
	}
	return
}

func checkHistory(rep *vt.Rep, steps []step) error {
	w, err := baroncli.New()
	if err != nil {
		return err
	}
	defer w.Close()
	edits := map[string]int{} // by service directory
	stale := 0
	var links []string
	for n, x := range steps {
		what := fmt.Sprintf("run %d, baron %v", n+1, append(append([]string{}, x.Args...), x.Order...))
		if x.Drop {
			for p := range w.Through() {
				if strings.HasPrefix(p, "api/") && strings.HasSuffix(p, ".proto") {
					if err := w.Remove(p); err != nil {
						return vt.Infra{Err: err}
					}
				}
			}
		}
		for p, t := range x.Files {
			w.Write("api/"+p, t)
		}
		if err := setTimes(w, x.Times); err != nil {
			return vt.Infra{Err: err}
		}
		before := w.Through()
		args := append(append([]string{}, x.Args...), x.Order...)
		r, err := w.Run(".", args...)
		if err != nil {
			return err
		}
		if x.Damage != "" {
			if r.Code == 0 {
				return fmt.Errorf("%s exits with 0, definitions %v", what, x.Files)
			}
			continue
		}
		if r.Code != 0 {
			return fmt.Errorf("%s: exit %d\n%s", what, r.Code, r.Out)
		}
		after := w.Through()
		for _, l := range links {
			if !w.IsLink(l) {
				return fmt.Errorf("%s replaces the link %s", what, l)
			}
		}
		f, err := baroncli.New()
		if err != nil {
			return err
		}
		for p, t := range x.Files {
			f.Write("api/"+p, t)
		}
		r, err = f.Run(".", args...)
		fresh := f.Tree()
		f.Close()
		if err != nil {
			return err
		}
		if r.Code != 0 {
			return fmt.Errorf("%s in a new module: exit %d\n%s", what, r.Code, r.Out)
		}
		var svc string
		for p := range fresh {
			if strings.HasSuffix(p, "/service/service.go") {
				svc = strings.TrimSuffix(p, "/service/service.go")
			}
		}
		if svc == "" {
			return fmt.Errorf("%s in a new module makes no service file", what)
		}
		for p, want := range fresh {
			got, ok := after[p]
			if !ok {
				return fmt.Errorf("%s leaves no %s\n%s", what, p, r.Out)
			}
			if strings.HasPrefix(p, "api/") || p == svc+"/server/server.go" {
				if got != want {
					return fmt.Errorf("%s: %s depends on the runs before, is\n%s\nin a new module\n%s", what, p, got, want)
				}
			}
		}
		for p, was := range before {
			if _, ok := fresh[p]; !ok && after[p] != was {
				return fmt.Errorf("%s changed %s, which has nothing to do with it", what, p)
			}
		}
		for p := range after {
			_, a := before[p]
			_, b := fresh[p]
			if !a && !b {
				return fmt.Errorf("%s makes %s, in a new module it does not", what, p)
			}
		}
		sp := svc + "/service/service.go"
		a, err := handlers(after[sp])
		if err != nil {
			return fmt.Errorf("%s: %v\n%s", what, err, after[sp])
		}
		b, err := handlers(fresh[sp])
		if err != nil {
			return fmt.Errorf("%s: %v\n%s", what, err, fresh[sp])
		}
		if strings.Join(a, "\n") != strings.Join(b, "\n") {
			return fmt.Errorf("%s: the handlers depend on the runs before, are\n%s\nin a new module\n%s", what, strings.Join(a, "\n"), strings.Join(b, "\n"))
		}
		for i := 0; i < edits[svc]; i++ {
			if !strings.Contains(after[sp], fmt.Sprintf("// note %d of mine\nfunc mine%d() int { return %d }\n", i, i, i)) {
				return fmt.Errorf("%s lost what the user wrote in %s:\n%s", what, sp, after[sp])
			}
		}
		if x.Edit {
			i := edits[svc]
			edits[svc]++
			w.Write(sp, after[sp]+fmt.Sprintf("\n// note %d of mine\nfunc mine%d() int { return %d }\n", i, i, i))
		}
		links = append(links, x.disturb(rep, w, svc)...)
		for name, has := range x.Has {
			if _, was := before["api/"+name+"_grpc.pb.go"]; was && !has {
				stale++
			}
		}
		rep.Class("modification times: "+x.Times, "change: "+x.How, fmt.Sprintf("the service was in another file before: %v", stale > 0), fmt.Sprintf("run %d", n+1))
	}
	rep.Case(len(steps) > 1 && stale > 0, fmt.Sprint(steps), func() interface{} { return describeAll(steps) })
	return nil
}

func describeAll(steps []step) (out []interface{}) {
	for _, s := range steps {
		out = append(out, s.describe())
	}
	return
}

func TestC34(t *testing.T) {
	rep := vt.Start(t, "C34", "random histories of runs in one module: the definition is replaced or its rpcs change, the service moves between the files or is renamed, files are added, dropped and reordered, options change, runs fail, the user appends to the service file; after every run the generator-owned files and the handlers are compared with a run in a new module; non-trivial: a definition file that had the service before no longer has it")
	rep.Check(t, 34, vt.N(40, 700), func(rt *rapid.T) {
		hs := rapid.SliceOfN(rapid.Custom(genHistory), 4, 12).Draw(rt, "histories")
		i, err := vt.Parallel(len(hs), func(i int) error { return checkHistory(rep, hs[i]) })
		if err != nil {
			rep.FailErr(rt, describeAll(hs[i]), err)
		}
	})
}

// job is a definition and options for one of several runs at a time.
type job struct {
	Spec *pspec.Spec
	Args []string
	Dir  string // of the module it is in; jobs may share one
}

func TestC35(t *testing.T) {
	rep := vt.Start(t, "C35", "groups of runs started at the same time, of random definitions with few names for files, packages and services, some in one module (with definitions and services in directories of their own), all with one TMPDIR; each must leave what it leaves when it runs alone; non-trivial: two runs of a group have the same service name")
	one := func(w *baroncli.WS, j job, d string) (baroncli.Result, error) {
		args := append([]string{}, j.Args...)
		if d != "." {
			args = append(args, "-o", "./"+d+"/svc")
		}
		for _, f := range j.Spec.Files {
			p := d + "/api/" + f.Name + ".proto"
			w.Write(p, j.Spec.Text(f))
			args = append(args, p)
		}
		return w.Run(".", args...)
	}
	rep.Check(t, 35, vt.N(30, 400), func(rt *rapid.T) {
		n := rapid.IntRange(4, 16).Draw(rt, "n")
		var jobs []job
		for len(jobs) < n {
			s := pspec.Gen(pspec.Opts{MaxFiles: 2, MaxMsgs: 3, MaxRpcs: 3}).Draw(rt, "spec")
			if s.Service() == nil {
				continue
			}
			s.Service().Name = rapid.SampledFrom([]string{"Echo", "Echo", "Other"}).Draw(rt, "name")
			for i, f := range s.Files {
				f.Name = []string{"types", "svc"}[i]
			}
			j := job{Spec: s, Args: rapid.SampledFrom([][]string{nil, {"-c"}, {"-t=grpc"}, {"-c", "-t=nats"}}).Draw(rt, "args")}
			jobs = append(jobs, j)
		}
		shared := rapid.Bool().Draw(rt, "one module")
		describe := func() interface{} {
			var out []interface{}
			for _, j := range jobs {
				out = append(out, map[string]interface{}{"definition": j.Spec.Whole(), "args": j.Args})
			}
			return map[string]interface{}{"runs": out, "in one module": shared}
		}
		run := func(together bool) (trees []map[string]string, err error) {
			var ws []*baroncli.WS
			for i := range jobs {
				if i > 0 && shared {
					ws = append(ws, ws[0])
					continue
				}
				w, err := baroncli.New()
				if err != nil {
					return nil, err
				}
				defer w.Close()
				ws = append(ws, w)
			}
			errs := make([]error, len(jobs))
			do := func(i int) {
				d := "."
				if shared {
					d = fmt.Sprintf("p%d", i)
				}
				r, err := one(ws[i], jobs[i], d)
				if err == nil && r.Code != 0 {
					err = fmt.Errorf("run %d of %d (at the same time: %v): exit %d\n%s", i+1, len(jobs), together, r.Code, r.Out)
				}
				errs[i] = err
			}
			if together {
				done := make(chan bool)
				for i := range jobs {
					go func(i int) { do(i); done <- true }(i)
				}
				for range jobs {
					<-done
				}
			} else {
				for i := range jobs {
					do(i)
				}
			}
			for _, e := range errs {
				if e != nil {
					return nil, e
				}
			}
			for i, w := range ws {
				if i > 0 && shared {
					break
				}
				trees = append(trees, w.Tree())
			}
			return
		}
		alone, err := run(false)
		if err != nil {
			rep.FailErr(rt, describe(), err)
		}
		for k := 0; k < 2; k++ {
			both, err := run(true)
			if err != nil {
				rep.FailErr(rt, describe(), err)
			}
			for i := range alone {
				for p, want := range alone[i] {
					if got, ok := both[i][p]; !ok || got != want {
						rep.FailErr(rt, describe(), fmt.Errorf("runs at the same time: %s (run %d) is\n%s\nalone\n%s", p, i+1, got, want))
					}
				}
				for p := range both[i] {
					if _, ok := alone[i][p]; !ok {
						rep.FailErr(rt, describe(), fmt.Errorf("runs at the same time make %s (run %d), alone they do not", p, i+1))
					}
				}
			}
		}
		names := map[string]int{}
		for _, j := range jobs {
			names[j.Spec.Service().Name]++
		}
		rep.Add("runs at the same time", 2*len(jobs))
		rep.Class(fmt.Sprintf("in one module: %v", shared), fmt.Sprintf("runs: %d", len(jobs)))
		rep.Case(names["Echo"] > 1 || names["Other"] > 1, fmt.Sprint(describe()), describe)
	})
}
