// Package wire decides the properties of generated services: it generates
// services from random definitions with the command built from the tree under
// test, compiles them in a scratch module, and runs them under generated
// inputs.
package wire

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/format"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/teamlint/baron/zzverif/baroncli"
	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/svcdefc"
	"github.com/teamlint/baron/zzverif/vt"
)

// Case is one definition and the options of the generation.
type Case struct {
	Spec      *pspec.Spec
	Transport string // all, grpc, nats
	Client    bool
}

func (c *Case) describe() interface{} {
	return map[string]interface{}{"definition": c.Spec.Whole(), "transport": c.Transport, "client": c.Client}
}

// built is a case in the workspace.
type built struct {
	id    string // s0, s1, ...
	c     *Case
	svc   string // Go name of the service
	dir   string // of the generated service, relative to the workspace
	names *names
	// err is what went wrong, an Infra error or a violation
	err error
}

// workspace is a scratch module with generated services.
type workspace struct {
	dir string
	bs  []*built
}

func (w *workspace) close() { os.RemoveAll(w.dir) }

func modCache() string {
	if d := os.Getenv("GOMODCACHE"); d != "" {
		return d
	}
	return "/root/go/pkg/mod"
}

// newWorkspace makes the module; its go.sum is filled in by the go command.
func newWorkspace() (*workspace, error) {
	w := &workspace{dir: vt.Scratch("wire")}
	b, err := os.ReadFile(filepath.Join(vt.VerifDir(), "drv/go.mod.in"))
	if err != nil {
		return nil, vt.Infra{Err: err}
	}
	s := strings.NewReplacer("@STUBS@", filepath.Join(vt.VerifDir(), "stubs"), "@WS@", w.dir).Replace(string(b))
	if err := os.WriteFile(filepath.Join(w.dir, "go.mod"), []byte(s), 0666); err != nil {
		return nil, vt.Infra{Err: err}
	}
	// the cached x/net asks for a newer x/text than the cache has
	src := filepath.Join(modCache(), "golang.org/x/net@v0.61.0")
	for _, d := range []string{"http2", "http2/hpack", "http/httpguts", "idna", "internal/timeseries", "internal/httpcommon", "internal/httpsfv", "trace"} {
		es, err := os.ReadDir(filepath.Join(src, d))
		if os.IsNotExist(err) {
			continue
		}
		if err != nil {
			return nil, vt.Infra{Err: err}
		}
		os.MkdirAll(filepath.Join(w.dir, "xnet", d), 0777)
		for _, e := range es {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(src, d, e.Name()))
			if err != nil {
				return nil, vt.Infra{Err: err}
			}
			if err := os.WriteFile(filepath.Join(w.dir, "xnet", d, e.Name()), b, 0666); err != nil {
				return nil, vt.Infra{Err: err}
			}
		}
	}
	mod := "module golang.org/x/net\n\ngo 1.23\n\nrequire golang.org/x/text v0.8.0\n"
	if err := os.WriteFile(filepath.Join(w.dir, "xnet/go.mod"), []byte(mod), 0666); err != nil {
		return nil, vt.Infra{Err: err}
	}
	return w, nil
}

func write(p, text string) {
	if err := os.MkdirAll(filepath.Dir(p), 0777); err != nil {
		panic(vt.Infra{Err: err})
	}
	if err := os.WriteFile(p, []byte(text), 0666); err != nil {
		panic(vt.Infra{Err: err})
	}
}

// add generates the cases, all at once; a case's err tells what failed.
func (w *workspace) add(cases []*Case) {
	base := len(w.bs)
	for i, c := range cases {
		w.bs = append(w.bs, &built{id: fmt.Sprintf("s%d", base+i), c: c})
	}
	vt.Parallel(len(cases), func(i int) error {
		b := w.bs[base+i]
		defer func() {
			if p := recover(); p != nil {
				b.err = vt.Infra{Err: fmt.Errorf("panic: %v", p)}
			}
		}()
		b.err = w.generate(b)
		return nil
	})
}

func (w *workspace) generate(b *built) error {
	c, done, err := svcdefc.Compile(b.c.Spec)
	if err != nil {
		return err
	}
	b.names = namesOf(c)
	b.svc = b.names.Service
	done()
	ws, err := baroncli.New()
	if err != nil {
		return err
	}
	defer ws.Close()
	ws.Write("go.mod", "module example.com/ws/"+b.id+"\n\ngo 1.23\n")
	args := []string{"-t=" + b.c.Transport}
	if b.c.Client {
		args = append(args, "-c")
	}
	for _, f := range b.c.Spec.Files {
		ws.Write("api/"+f.Name+".proto", b.c.Spec.Text(f))
		args = append(args, "api/"+f.Name+".proto")
	}
	r, err := ws.Run(".", args...)
	if err != nil {
		return err
	}
	if r.Code != 0 {
		return fmt.Errorf("baron %v: exit %d\n%s", args, r.Code, tail(r.Out, 1500))
	}
	b.dir = b.id + "/" + strings.ToLower(b.svc) + "-service"
	for p, text := range ws.Tree() {
		if strings.HasSuffix(p, ".go") {
			write(filepath.Join(w.dir, b.id, p), text)
		}
	}
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// files are the generated files of a case.
func (w *workspace) files(b *built) map[string]string {
	out := map[string]string{}
	filepath.Walk(filepath.Join(w.dir, b.id), func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			x, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(filepath.Join(w.dir, b.id), p)
			out[rel] = string(x)
		}
		return nil
	})
	return out
}

// formatted checks that every file baron generated is gofmt-formatted Go.
func (w *workspace) formatted(b *built) error {
	fs := w.files(b)
	var ps []string
	for p := range fs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if strings.HasPrefix(p, "api/") && !strings.HasSuffix(p, ".pb.baron.go") {
			continue // the compiler's
		}
		x, err := format.Source([]byte(fs[p]))
		if err != nil {
			return fmt.Errorf("%s is not Go: %v", p, err)
		}
		if string(x) != fs[p] {
			return fmt.Errorf("%s is not gofmt-formatted", p)
		}
	}
	return nil
}

var pos = regexp.MustCompile(`(?m)\.go:\d+(:\d+)?: `)

type listed struct {
	ImportPath string
	Error      *struct{ Err string }
	DepsErrors []struct{ Err string }
}

// compile compiles every package of the live cases and sets the err of those
// that do not compile.
func (w *workspace) compile() error {
	args := []string{"list", "-e", "-export", "-json=ImportPath,Error,DepsErrors"}
	live := 0
	for _, b := range w.bs {
		if b.err == nil {
			args = append(args, "./"+b.id+"/...")
			live++
		}
	}
	if live == 0 {
		return nil
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = w.dir
	cmd.Env = append(os.Environ(), "PWD="+w.dir)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	runErr := cmd.Run()
	dec := json.NewDecoder(&out)
	seen := map[string]int{}
	for dec.More() {
		var l listed
		if err := dec.Decode(&l); err != nil {
			return vt.Infra{Err: fmt.Errorf("go list: %v\n%s", err, tail(errb.String(), 3000))}
		}
		id := strings.Split(strings.TrimPrefix(l.ImportPath, "example.com/ws/"), "/")[0]
		seen[id]++
		var msgs []string
		if l.Error != nil {
			msgs = append(msgs, l.Error.Err)
		}
		for _, d := range l.DepsErrors {
			msgs = append(msgs, d.Err)
		}
		if len(msgs) == 0 {
			continue
		}
		for _, b := range w.bs {
			if b.id == id && b.err == nil {
				m := strings.Join(msgs, "\n")
				if !pos.MatchString(m) && !strings.Contains(m, "import") {
					return vt.Infra{Err: fmt.Errorf("go list: %s", m)}
				}
				b.err = fmt.Errorf("package %s does not compile: %s", l.ImportPath, tail(m, 3000))
			}
		}
	}
	for _, b := range w.bs {
		if b.err == nil && seen[b.id] == 0 {
			return vt.Infra{Err: fmt.Errorf("go list: nothing about %s: %v\n%s", b.id, runErr, tail(errb.String(), 3000))}
		}
	}
	return nil
}
