package cli

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/teamlint/baron/zzverif/baroncli"
	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/vt"
)

// project is a module in which a service was generated, edited by its user,
// and whose definition was changed since; after is the tree an undisturbed run
// leaves.
type project struct {
	spec          *pspec.Spec
	dir           string // of the service
	args          []string
	before, after map[string]string
	took          time.Duration
	rerun         bool
}

func (p *project) user(path string) bool {
	if !strings.HasPrefix(path, p.dir+"/") {
		return false
	}
	return strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "server/server.go")
}

// newProject draws one. fresh: nothing was generated before.
func newProject(r *rand.Rand, s *pspec.Spec, fresh bool) (*project, error) {
	p := &project{spec: s, dir: lower(s) + "-service"}
	w, err := baroncli.New()
	if err != nil {
		return nil, err
	}
	defer w.Close()
	if r.Intn(2) == 0 {
		p.args = append(p.args, "-c")
	}
	p.args = append(p.args, "-t="+[]string{"all", "grpc", "nats"}[r.Intn(3)])
	for _, f := range s.Files {
		w.Write("api/"+f.Name+".proto", s.Text(f))
		p.args = append(p.args, "api/"+f.Name+".proto")
	}
	run := func() error {
		x, err := w.Run(".", p.args...)
		if err == nil && x.Code != 0 {
			err = fmt.Errorf("baron %v: exit %d\n%s", p.args, x.Code, x.Out)
		}
		return err
	}
	if !fresh {
		svc := s.Service()
		all := svc.Rpcs
		// the user's code is for an earlier version of the service
		var some []*pspec.Rpc
		for _, x := range all {
			if r.Intn(3) > 0 {
				some = append(some, x)
			}
		}
		svc.Rpcs = some
		f := s.Files[len(s.Files)-1]
		w.Write("api/"+f.Name+".proto", s.Text(f))
		err := run()
		svc.Rpcs = all
		w.Write("api/"+f.Name+".proto", s.Text(f))
		if err != nil {
			return nil, err
		}
		for path, text := range w.Tree() {
			if p.user(path) && r.Intn(3) > 0 || path == p.dir+"/service/service.go" {
				pad := strings.Repeat(fmt.Sprintf("// note %d of the user of %s\n", r.Intn(1000), path), r.Intn(1200))
				w.Write(path, text+"\n"+pad+"\nfunc myOwn"+fmt.Sprint(r.Intn(1000))+"() {}\n")
			}
		}
	}
	p.before = w.Tree()
	start := time.Now()
	if err := run(); err != nil {
		return nil, err
	}
	p.took = time.Since(start)
	p.after = w.Tree()
	return p, nil
}

// fault is one disturbance of a run.
type fault struct {
	Kind string // limit, timed, strace
	Via  []string
	Kill time.Duration
}

func (p *project) faults(r *rand.Rand, n int, strace bool) (out []fault) {
	var users []string
	largest := 0
	for path, text := range p.after {
		if p.user(path) {
			users = append(users, path)
		}
		largest = max(largest, len(text))
	}
	sort.Strings(users)
	for i := 0; i < n; i++ {
		k := r.Intn(5)
		switch {
		case k == 0:
			out = append(out, fault{Kind: "killed at a random time", Kill: time.Duration(r.Int63n(int64(p.took) * 5 / 4))})
		case k < 3 || !strace || len(users) == 0:
			limit := r.Intn(largest + largest/10)
			if r.Intn(2) == 0 {
				// below the size of a file of the user, which is then often
				// the only one that cannot be written
				limit = r.Intn(1 + len(p.after[p.dir+"/service/service.go"]))
			}
			out = append(out, fault{Kind: "limited file size", Via: []string{"prlimit", fmt.Sprintf("--fsize=%d", limit)}})
		default:
			u := users[r.Intn(len(users))]
			if r.Intn(2) == 0 {
				u = p.dir + "/service/service.go"
			}
			inj := []string{
				"openat:signal=KILL", "write:signal=KILL", "write:signal=KILL", "close:signal=KILL", "%file:signal=KILL",
				"write:error=ENOSPC", "write:error=EIO", "openat:error=EACCES", "/^rename:error=EACCES", "/^rename:signal=KILL", "/truncate:signal=KILL", "/^(open|write|rename|close|unlink|fchmod|fsync):signal=KILL",
			}[r.Intn(12)]
			inj += fmt.Sprintf(":when=%d", 1+r.Intn(4))
			out = append(out, fault{Kind: "strace " + strings.SplitN(inj, ":when", 2)[0], Via: []string{"strace", "-f", "-qq", "-o", "/dev/null", "-P", "@/" + u, "-e", "inject=" + inj}})
		}
	}
	return
}

// disturb runs under a fault and checks what it leaves, then runs again.
func (p *project) disturb(rep *vt.Rep, f fault) error {
	w, err := baroncli.New()
	if err != nil {
		return err
	}
	defer w.Close()
	for path, text := range p.before {
		if !strings.HasSuffix(path, "/") {
			w.Write(path, text)
		}
	}
	mine := filepath.Join(w.Dir, p.dir, "service/service.go")
	_, had := p.before[p.dir+"/service/service.go"]
	if had {
		if err := os.Chmod(mine, 0640); err != nil {
			return vt.Infra{Err: err}
		}
	}
	via := append([]string{}, f.Via...)
	for i, a := range via {
		via[i] = strings.Replace(a, "@", w.Dir, 1)
	}
	x, err := w.RunVia(via, f.Kill, ".", p.args...)
	if err != nil {
		return err
	}
	left := w.Tree()
	undone, changed := 0, 0
	for path, want := range p.after {
		if !p.user(path) {
			continue
		}
		was, had := p.before[path]
		got, has := left[path]
		if had && was != want {
			changed++
		}
		switch {
		case !has && !had, has && got == want:
		case had && has && got == was:
			undone++
		default:
			return fmt.Errorf("baron %v, disturbed (%s %v %v), left %s neither as it was nor as it should be: exists %v, has %d bytes instead of %d (was %d)\noutput:\n%s", p.args, f.Kind, f.Via, f.Kill, path, has, len(got), len(want), len(was), x.Out)
		}
		if !has || got != want {
			undone++
		}
	}
	for path, was := range p.before {
		if got, has := left[path]; p.user(path) && p.after[path] == was && (!has || got != was) {
			return fmt.Errorf("baron %v, disturbed (%s %v %v), changed %s", p.args, f.Kind, f.Via, f.Kill, path)
		}
	}
	if undone > 0 && x.Code == 0 {
		return fmt.Errorf("baron %v, disturbed (%s %v), did not write everything but exits with 0\n%s", p.args, f.Kind, f.Via, x.Out)
	}
	y, err := w.Run(".", p.args...)
	if err != nil {
		return err
	}
	if y.Code != 0 {
		return fmt.Errorf("after a run disturbed (%s %v %v) baron %v fails: exit %d\n%s", f.Kind, f.Via, f.Kill, p.args, y.Code, y.Out)
	}
	again := w.Tree()
	if info, err := os.Stat(mine); had && (err != nil || info.Mode() != 0640) {
		return fmt.Errorf("baron %v changed the permissions of service/service.go: %v, %v", p.args, info, err)
	}
	for path, want := range p.after {
		if strings.HasSuffix(path, ".go") && again[path] != want {
			return fmt.Errorf("after a run disturbed (%s %v %v) baron %v makes a different %s:\n%s\nexpected:\n%s", f.Kind, f.Via, f.Kill, p.args, path, again[path], want)
		}
	}
	for path := range again {
		if _, ok := p.after[path]; !ok && strings.HasSuffix(path, ".go") {
			return fmt.Errorf("after a run disturbed (%s %v %v) baron %v leaves %s", f.Kind, f.Via, f.Kill, p.args, path)
		}
	}
	rep.Class("fault: "+f.Kind, fmt.Sprintf("exit=%d", x.Code), fmt.Sprintf("fresh=%v", p.before[p.dir+"/service/service.go"] == ""))
	rep.Case(x.Code != 0 && undone+changed > 0, fmt.Sprint(f, p.args, p.spec.Whole()), func() interface{} {
		return map[string]interface{}{"fault": f, "args": p.args, "definition": p.spec.Whole()}
	})
	return nil
}

func TestC32(t *testing.T) {
	rep := vt.Start(t, "C32", "services generated from random definitions are edited and the definition is changed; runs on them (and first runs) are disturbed: killed at a random time, killed or failed at a system call on a user's file (strace -e inject), or run under a random limit of the file size, so that some write fails; every user-owned file must then be as before or as after an undisturbed run, and a run again must lead to what an undisturbed run leads to; non-trivial: a run that failed with a user's file to write")
	strace := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-P", "/nowhere", "-e", "inject=write:error=EIO:when=1", "true").Run() == nil
	rep.Extra("strace", strace)
	gen := pspec.Gen(opts)
	base := int(vt.RapidSeed()%1000003)*3 + 1
	n, per := vt.N(24, 160), vt.N(24, 100)
	var specs []*pspec.Spec
	for k := 0; len(specs) < n; k++ {
		if s := gen.Example(base + k); s.Service() != nil {
			specs = append(specs, s)
		}
	}
	i, err := vt.Parallel(n, func(i int) error {
		r := rand.New(rand.NewSource(int64(vt.RapidSeed()) + int64(i)))
		p, err := newProject(r, specs[i], i%4 == 3)
		if err != nil {
			return err
		}
		for _, f := range p.faults(r, per, strace) {
			if err := p.disturb(rep, f); err != nil {
				return err
			}
		}
		return nil
	})
	if err != nil {
		rep.FailErr(t, map[string]interface{}{"definition": specs[i].Whole()}, err)
	}
}
