package gen

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/format"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/gengokit/generator"
	"github.com/teamlint/baron/svcdef"
	"github.com/teamlint/baron/zzverif/baroncli"
	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/svcdefc"
	"github.com/teamlint/baron/zzverif/vt"
)

var outOpts = pspec.Opts{MaxFiles: 2, MaxMsgs: 4, MaxRpcs: 6, Conflicts: true, NearNames: true, Streaming: true}

func genConf(t *rapid.T) gengokit.Config {
	c := conf()
	c.Transport = rapid.SampledFrom([]string{"all", "grpc", "nats"}).Draw(t, "transport")
	c.GenClient = rapid.Bool().Draw(t, "client")
	return c
}

// everything is all files of a run, the baron file included.
func everything(sd *svcdef.Svcdef, c gengokit.Config, prev map[string]string, baron string) (out map[string]string, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	out, err = generate(sd, c, prev)
	if err != nil {
		return nil, err
	}
	if err := generator.GenerateBaronFile(sd, c, baron); err != nil {
		return nil, err
	}
	b, err := os.ReadFile(baron)
	if err != nil {
		return nil, err
	}
	out["pb.baron.go"] = string(b)
	return out, nil
}

func diff(a, b map[string]string) string {
	for _, k := range sortedKeys(a) {
		x, ok := b[k]
		if !ok {
			return k + " is missing"
		}
		if x != a[k] {
			return fmt.Sprintf("%s differs:\n%s", k, lineDiff(a[k], x))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return k + " is new"
		}
	}
	return ""
}

func lineDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return fmt.Sprintf("line %d: %q is missing", i+1, x[i])
		}
		if x[i] != y[i] {
			return fmt.Sprintf("line %d: %q, was %q", i+1, y[i], x[i])
		}
	}
	return fmt.Sprintf("%d lines more", len(y)-len(x))
}

type childJob struct {
	Dir         string // with the .proto and .pb.go files
	Protos, Gos []string
	Conf        gengokit.Config
	Prev        map[string]string
}

// childRun is the generation of a job, in this process.
func childRun(j childJob) (map[string]string, error) {
	read := func(ps []string) map[string]string {
		m := map[string]string{}
		for _, p := range ps {
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			m[p] = string(b)
		}
		return m
	}
	sd, err := svcdefc.NewFrom(read(j.Gos), read(j.Protos))
	if err != nil {
		return nil, err
	}
	return everything(sd, j.Conf, j.Prev, filepath.Join(j.Dir, "out.pb.baron.go"))
}

func TestMain(m *testing.M) {
	if p := os.Getenv("VERIF_GEN_CHILD"); p != "" {
		b, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		var j childJob
		if err := json.Unmarshal(b, &j); err != nil {
			panic(err)
		}
		out, err := childRun(j)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		b, _ = json.Marshal(out)
		if err := os.WriteFile(p+".out", b, 0666); err != nil {
			panic(err)
		}
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// freshProcess is childRun in a new process.
func freshProcess(j childJob) (map[string]string, error) {
	p := filepath.Join(j.Dir, "job.json")
	b, err := json.Marshal(j)
	if err != nil {
		return nil, vt.Infra{Err: err}
	}
	if err := os.WriteFile(p, b, 0666); err != nil {
		return nil, vt.Infra{Err: err}
	}
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_GEN_CHILD="+p)
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, vt.Infra{Err: fmt.Errorf("child: %v\n%s", err, out)}
	}
	b, err = os.ReadFile(p + ".out")
	if err != nil {
		return nil, vt.Infra{Err: err}
	}
	m := map[string]string{}
	return m, json.Unmarshal(b, &m)
}

func keysOf(m map[string]string) (ks []string) { return sortedKeys(m) }

func TestC15(t *testing.T) {
	rep := vt.Start(t, "C15", "random definitions and configurations, with no previous files or with a service file that lacks some handlers and holds edits; generated from service models built afresh (other map orders), in the same and in other processes: all files byte-identical; then regenerated on top of its own output: no file changes; non-trivial: at least two rpcs and, with previous files, at least one handler to add")
	rep.Check(t, 15, vt.N(150, 3000), func(rt *rapid.T) {
		n := rapid.IntRange(1, 8).Draw(rt, "n")
		type cas struct {
			s    *pspec.Spec
			c    gengokit.Config
			prev bool
		}
		var cs []cas
		var edits []func(string) string
		for i := 0; i < n; i++ {
			cs = append(cs, cas{pspec.Gen(outOpts).Draw(rt, "spec"), genConf(rt), rapid.Bool().Draw(rt, "prev")})
		}
		// the edits draw from rapid, so they are made before the parallel part
		// from the plan of which chunks to drop
		plans := make([][]int, n)
		for i := range plans {
			plans[i] = rapid.SliceOfN(rapid.IntRange(0, 3), 8, 8).Draw(rt, "plan")
			pl := plans[i]
			edits = append(edits, func(src string) string { return planned(pl, src) })
		}
		i, err := vt.Parallel(n, func(i int) error {
			x := cs[i]
			c, done, err := svcdefc.Compile(x.s)
			if err != nil {
				return err
			}
			defer done()
			j := childJob{Dir: c.Dir, Protos: c.Protos, Gos: keysOf(c.GoFile), Conf: x.c}
			first, err := childRun(j)
			if err != nil {
				return fmt.Errorf("valid definition rejected: %v", err)
			}
			missing := false
			if x.prev {
				j.Prev = map[string]string{}
				for k, v := range first {
					j.Prev[k] = v
				}
				delete(j.Prev, "pb.baron.go")
				old := j.Prev[servicePath]
				j.Prev[servicePath] = edits[i](old)
				missing = strings.Count(j.Prev[servicePath], "\nfunc (") < strings.Count(old, "\nfunc (")
				j.Prev["service/wrapper.go"] += "\n// mine\nvar    mine =  1\n"
				if first, err = childRun(j); err != nil {
					return fmt.Errorf("regenerating: %v", err)
				}
			}
			for k := 0; k < 4; k++ {
				again, err := childRun(j)
				if err != nil {
					return fmt.Errorf("repeated: %v", err)
				}
				if d := diff(first, again); d != "" {
					return fmt.Errorf("generated once more from the same input: %s", d)
				}
			}
			again, err := freshProcess(j)
			if err != nil {
				return err
			}
			if d := diff(first, again); d != "" {
				return fmt.Errorf("generated from the same input in another process: %s", d)
			}
			j.Prev = map[string]string{}
			for k, v := range first {
				j.Prev[k] = v
			}
			delete(j.Prev, "pb.baron.go")
			if again, err = childRun(j); err != nil {
				return fmt.Errorf("on its own output: %v", err)
			}
			if d := diff(first, again); d != "" {
				return fmt.Errorf("generated on top of its own output: %s", d)
			}
			rep.Class(fmt.Sprintf("previous=%v missing=%v", x.prev, missing), "transport="+x.c.Transport)
			txt := x.s.Whole()
			rep.Case(len(x.s.Service().Rpcs) >= 2 && (!x.prev || missing), txt+fmt.Sprint(x.c.Transport, x.prev, plans[i]), func() interface{} {
				return map[string]interface{}{"definition": txt, "transport": x.c.Transport, "previous": x.prev, "files": keysOf(first)}
			})
			return nil
		})
		if err != nil {
			rep.FailErr(rt, map[string]interface{}{"definition": cs[i].s.Whole(), "transport": cs[i].c.Transport, "client": cs[i].c.GenClient, "previous": cs[i].prev, "plan": plans[i]}, err)
		}
	})
}

// planned drops or edits the functions of a generated file.
func planned(plan []int, src string) string {
	parts := strings.Split(src, "\nfunc (")
	var out []string
	for i, p := range parts {
		if i > 0 {
			switch plan[i%len(plan)] {
			case 0, 1:
				continue
			case 2:
				p = strings.Replace(p, "{\n", "{\n\t// mine\n", 1)
			}
		}
		out = append(out, p)
	}
	return strings.Join(out, "\nfunc (") + "\n"
}

// documented is the set of files of the service directory.
func documented(svc string, client bool) []string {
	l := strings.ToLower(svc)
	fs := []string{"cmd/" + l + "/main.go", "server/endpoints.go", "server/interrupt.go", "server/server.go", "server/wrapper.go", "service/service.go", "service/wrapper.go"}
	if client {
		fs = append(fs, "cmd/"+l+"-client/main.go")
	}
	sort.Strings(fs)
	return fs
}

func userOwned(f string) bool { return f != servicePath && f != "server/server.go" }

// kept says whether got is the user's text, up to formatting.
func kept(was, got string) bool {
	if was == got {
		return true
	}
	b, err := format.Source([]byte(was))
	return err == nil && (string(b) == got || tokens(string(b)) == tokens(got))
}

var userTexts = []string{
	"", "package x\n", "package x\nfunc  F( ) {  }\n\n\n\nvar x=1 // c\n", "not Go at all {{{\n", "package service\n\nimport \"fmt\"\n\n// mine\nfunc init() { fmt.Println(\"{{.Service.Name}}\") }\n",
	"/* only a comment */", "package server // no newline", "\xff\xfe binary \x00", "package main\r\nfunc main() {}\r\n", strings.Repeat("// long\n", 300) + "package y\n",
}

func TestC16(t *testing.T) {
	rep := vt.Start(t, "C16", "random definitions and configurations generated on top of random previous files (user-owned files with random content, generator-owned ones with garbage, other files besides), through the generator and (a smaller number) through the command in a scratch module; the file set must be the documented one, user-owned files keep their content, generator-owned ones equal those of a fresh run, all other files stay; non-trivial: at least two previous user-owned files")
	texts := func(rt *rapid.T) map[string]string {
		m := map[string]string{}
		for _, k := range []string{"cmd", "client", "server/endpoints.go", "server/interrupt.go", "server/wrapper.go", "service/wrapper.go"} {
			if rapid.IntRange(0, 2).Draw(rt, "has") > 0 {
				m[k] = rapid.SampledFrom(userTexts).Draw(rt, "text") + rapid.SampledFrom([]string{"", "// tail\n"}).Draw(rt, "tail")
			}
		}
		return m
	}
	place := func(svc string, m map[string]string) map[string]string {
		out := map[string]string{}
		for k, v := range m {
			switch k {
			case "cmd":
				k = "cmd/" + strings.ToLower(svc) + "/main.go"
			case "client":
				k = "cmd/" + strings.ToLower(svc) + "-client/main.go"
			}
			out[k] = v
		}
		return out
	}
	type cas struct {
		s, old *pspec.Spec
		c      gengokit.Config
		texts  map[string]string
		server string
		args   []string
	}
	draw := func(rt *rapid.T) cas {
		x := cas{s: pspec.Gen(outOpts).Draw(rt, "spec"), c: genConf(rt), texts: texts(rt), server: rapid.SampledFrom(userTexts).Draw(rt, "server")}
		return x
	}
	describe := func(x cas) interface{} {
		return map[string]interface{}{"definition": x.s.Whole(), "transport": x.c.Transport, "client": x.c.GenClient, "previous": x.texts, "previous server.go and pb.baron.go": x.server}
	}
	rep.Check(t, 16, vt.N(120, 3000), func(rt *rapid.T) {
		xs := make([]cas, rapid.IntRange(1, 10).Draw(rt, "n"))
		for i := range xs {
			xs[i] = draw(rt)
		}
		i, err := vt.Parallel(len(xs), func(i int) error {
			x := xs[i]
			c, done, err := svcdefc.Compile(x.s)
			if err != nil {
				return err
			}
			defer done()
			svc := svcName(c)
			want := documented(svc, x.c.GenClient)
			j := childJob{Dir: c.Dir, Protos: c.Protos, Gos: keysOf(c.GoFile), Conf: x.c}
			fresh, err := childRun(j)
			if err != nil {
				return fmt.Errorf("valid definition rejected: %v", err)
			}
			baron := fresh["pb.baron.go"]
			delete(fresh, "pb.baron.go")
			if got := keysOf(fresh); fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Errorf("files of a first run: %v, documented: %v", got, want)
			}
			prev := place(svc, x.texts)
			j.Prev = map[string]string{"server/server.go": x.server, "server/mine.go": x.server, "service/mine.go": "package service\n", "README.md": "x", "service/service.go.bak": "package x"}
			for k, v := range prev {
				j.Prev[k] = v
			}
			if err := os.WriteFile(filepath.Join(c.Dir, "out.pb.baron.go"), []byte(x.server+baron+"// the old one was longer\n"), 0666); err != nil {
				return vt.Infra{Err: err}
			}
			got, err := childRun(j)
			if err != nil {
				return fmt.Errorf("with previous files: %v", err)
			}
			if got["pb.baron.go"] != baron {
				return fmt.Errorf("pb.baron.go is not regenerated: %s", lineDiff(baron, got["pb.baron.go"]))
			}
			delete(got, "pb.baron.go")
			if ks := keysOf(got); fmt.Sprint(ks) != fmt.Sprint(want) {
				return fmt.Errorf("files of a later run: %v, documented: %v", ks, want)
			}
			n := 0
			for _, f := range want {
				was, had := prev[f]
				if !userOwned(f) || !had {
					if got[f] != fresh[f] {
						return fmt.Errorf("%s is not as on a first run: %s", f, lineDiff(fresh[f], got[f]))
					}
					continue
				}
				n++
				if !kept(was, got[f]) {
					return fmt.Errorf("user-owned %s changed, is\n%s\nwas\n%s", f, got[f], was)
				}
			}
			rep.Class(fmt.Sprintf("client=%v", x.c.GenClient), "transport="+x.c.Transport)
			rep.Case(n >= 2, fmt.Sprint(describe(x)), func() interface{} { return describe(x) })
			return nil
		})
		if err != nil {
			rep.FailErr(rt, describe(xs[i]), err)
		}
	})
	if rep.Violated() {
		return
	}
	rep.Check(t, 1616, vt.N(14, 300), func(rt *rapid.T) {
		xs := make([]cas, rapid.IntRange(4, 8).Draw(rt, "n"))
		for i := range xs {
			xs[i] = draw(rt)
			// the arguments
			if xs[i].c.GenClient {
				xs[i].args = append(xs[i].args, rapid.SampledFrom([]string{"-c", "--client", "--client=true"}).Draw(rt, "c"))
			}
			if xs[i].c.Transport != "all" || rapid.Bool().Draw(rt, "explicit") {
				xs[i].args = append(xs[i].args, rapid.SampledFrom([]string{"-t=", "--transport="}).Draw(rt, "t")+xs[i].c.Transport)
			}
		}
		i, err := vt.Parallel(len(xs), func(i int) error {
			return viaCommand(rep, xs[i].s, xs[i].c, place, xs[i].texts, xs[i].server, xs[i].args, i%3)
		})
		if err != nil {
			rep.FailErr(rt, describe(xs[i]), err)
		}
	})
}

func svcName(c *pspec.Compiled) string {
	for _, f := range c.Gen.Files {
		if f.Generate && len(f.Services) > 0 {
			return f.Services[0].GoName
		}
	}
	return ""
}

func viaCommand(rep *vt.Rep, s *pspec.Spec, conf gengokit.Config, place func(string, map[string]string) map[string]string, texts map[string]string, server string, args []string, out int) error {
	c, done, err := svcdefc.Compile(s)
	if err != nil {
		return err
	}
	svc := svcName(c)
	done()
	w, err := baroncli.New()
	if err != nil {
		return err
	}
	defer w.Close()
	for _, f := range s.Files {
		w.Write("api/"+f.Name+".proto", s.Text(f))
	}
	dir := strings.ToLower(svc) + "-service"
	switch out {
	case 1:
		args = append(args, "-o", "./deep/er/")
		dir = "deep/er/" + dir
	case 2:
		args = append(args, "--svcout=./svcs/mine")
		dir = "svcs/mine"
	}
	for _, f := range s.Files {
		args = append(args, "api/"+f.Name+".proto")
	}
	run := func() error {
		r, err := w.Run(".", args...)
		if err != nil {
			return err
		}
		if r.Code != 0 {
			return fmt.Errorf("baron %v: exit %d\n%s", args, r.Code, r.Out)
		}
		return nil
	}
	before := w.Tree()
	if err := run(); err != nil {
		return err
	}
	first := w.Tree()
	// exactly the documented files are new
	want := map[string]bool{}
	for _, f := range documented(svc, conf.GenClient) {
		want[dir+"/"+f] = true
	}
	for _, f := range s.Files {
		want["api/"+f.Name+".pb.go"] = true
		if f.Service != nil {
			want["api/"+f.Name+"_grpc.pb.go"] = true
		}
	}
	baron := "api/" + s.Files[0].Name + ".pb.baron.go"
	want[baron] = true
	for p, text := range first {
		if strings.HasSuffix(p, "/") || p == "go.mod" || p == "go.sum" {
			continue
		}
		if was, ok := before[p]; ok {
			if was != text {
				return fmt.Errorf("baron %v changed %s", args, p)
			}
			continue
		}
		if !want[p] {
			return fmt.Errorf("baron %v made %s", args, p)
		}
		delete(want, p)
	}
	if len(want) > 0 {
		return fmt.Errorf("baron %v: not made: %v", args, want)
	}
	// now with the user's files
	prev := map[string]string{}
	for k, v := range place(svc, texts) {
		prev[dir+"/"+k] = v
	}
	others := map[string]string{dir + "/server/mine.go": "package server\n", dir + "/middleware/m.go": "package middleware", dir + "/README.md": "hi", dir + "/cmd/other/main.go": "package main  //x", dir + "/service/sub/x.go": "not go", "api/mine.go": "package other\n", dir + "/server.go": "package  root\n"}
	delete(others, "api/mine.go") // would be another package there
	delete(others, dir+"/server.go")
	for k, v := range prev {
		w.Write(k, v)
	}
	for k, v := range others {
		w.Write(k, v)
	}
	w.Write(dir+"/server/server.go", server)
	w.Write(baron, first[baron]+server)
	if err := run(); err != nil {
		return err
	}
	second := w.Tree()
	for p, v := range second {
		was, had := prev[p]
		rel := strings.TrimPrefix(p, dir+"/")
		switch {
		case others[p] != "":
			if v != others[p] {
				return fmt.Errorf("%s, which baron does not generate, changed to %q", p, v)
			}
		case had && userOwned(rel):
			if !kept(was, v) {
				return fmt.Errorf("user-owned %s changed, is\n%s\nwas\n%s", p, v, was)
			}
		case strings.HasSuffix(p, "/"):
		default:
			if v != first[p] {
				return fmt.Errorf("%s is not as on the first run: %s", p, lineDiff(first[p], v))
			}
		}
	}
	for _, m := range []map[string]string{first, prev, others} {
		for p := range m {
			if _, ok := second[p]; !ok {
				return fmt.Errorf("%s is gone", p)
			}
		}
	}
	rep.Class("through the command")
	h := sha256.Sum256([]byte(fmt.Sprint(second)))
	rep.Case(len(prev) >= 2, fmt.Sprintf("%x", h), nil)
	return nil
}
