// Package baroncli builds the command and runs it in scratch modules.
package baroncli

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/teamlint/baron/zzverif/vt"
)

var (
	once sync.Once
	exe  string
	err  error
)

// Build builds the command from the tree under test, once.
func Build() (string, error) {
	once.Do(func() {
		d := vt.Scratch("bin")
		exe = filepath.Join(d, "baron")
		cmd := exec.Command("go", "build", "-ldflags", "-X main.version=v1 -X main.date=d1", "-o", exe, "github.com/teamlint/baron/cmd/baron")
		cmd.Dir = filepath.Join(os.Getenv("VERIF_SCRATCH"), "harness")
		if out, e := cmd.CombinedOutput(); e != nil {
			err = vt.Infra{Err: fmt.Errorf("building the command: %v\n%s", e, out)}
		}
	})
	return exe, err
}

// WS is a scratch module.
type WS struct{ Dir string }

// New makes a scratch module with an api directory.
func New() (*WS, error) {
	w := &WS{vt.Scratch("ws")}
	if err := os.WriteFile(filepath.Join(w.Dir, "go.mod"), []byte("module example.com/ws\n\ngo 1.23\n"), 0666); err != nil {
		return nil, vt.Infra{Err: err}
	}
	return w, nil
}

func (w *WS) Close() { os.RemoveAll(w.Dir) }

func (w *WS) Write(path, text string) {
	p := filepath.Join(w.Dir, path)
	if err := os.MkdirAll(filepath.Dir(p), 0777); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(text), 0666); err != nil {
		panic(err)
	}
}

// both keeps what is written to it and passes it on.
type both struct {
	mu   sync.Mutex
	buf  bytes.Buffer
	next *both
}

func (b *both) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.next != nil {
		b.next.Write(p)
	}
	return b.buf.Write(p)
}

func (b *both) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.buf.String()
}

// Result of a run.
type Result struct {
	Code int
	Out  string // both standard output and standard error
	Std  string // standard output
	Hung bool
}

// Run runs the command in dir (relative to the module).
func (w *WS) Run(dir string, args ...string) (Result, error) {
	return w.run(nil, nil, 0, dir, args...)
}

// RunEnv is Run with more environment variables.
func (w *WS) RunEnv(env []string, dir string, args ...string) (Result, error) {
	return w.run(env, nil, 0, dir, args...)
}

// RunVia is Run through a wrapping command; if killAfter is not 0 the command
// is killed after that time.
func (w *WS) RunVia(via []string, killAfter time.Duration, dir string, args ...string) (Result, error) {
	return w.run(nil, via, killAfter, dir, args...)
}

func (w *WS) run(env, via []string, killAfter time.Duration, dir string, args ...string) (Result, error) {
	exe, err := Build()
	if err != nil {
		return Result{}, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	line := append(append(append([]string{}, via...), exe), args...)
	cmd := exec.CommandContext(ctx, line[0], line[1:]...)
	cmd.Dir = filepath.Join(w.Dir, dir)
	cmd.Env = append(os.Environ(), "PWD="+cmd.Dir, "GOFLAGS=") // as users have it: go list leaves go.mod alone
	cmd.Env = append(cmd.Env, env...)
	var out, std both
	std.next = &out
	cmd.Stdout, cmd.Stderr = &std, &out
	cmd.WaitDelay = 5 * time.Second
	if killAfter > 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	}
	e := cmd.Start()
	if e == nil && killAfter > 0 {
		t := time.AfterFunc(killAfter, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
		e = cmd.Wait()
		t.Stop()
	} else if e == nil {
		e = cmd.Wait()
	}
	r := Result{Out: out.String(), Std: std.String()}
	if ctx.Err() != nil {
		r.Hung = true
	}
	if e != nil {
		r.Code = -1
		if x, ok := e.(*exec.ExitError); ok {
			r.Code = x.ExitCode()
		} else if !r.Hung {
			return r, vt.Infra{Err: e}
		}
	}
	return r, nil
}

// Tree is every file below the module with its content, and every directory
// (with a trailing slash).
func (w *WS) Tree() map[string]string {
	out := map[string]string{}
	filepath.Walk(w.Dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(w.Dir, p)
		if rel == "." {
			return nil
		}
		if info.IsDir() {
			out[rel+"/"] = ""
			return nil
		}
		if info.Mode()&os.ModeSymlink != 0 {
			l, _ := os.Readlink(p)
			out[rel] = "-> " + l
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		out[rel] = string(b)
		return nil
	})
	return out
}

// Through is Tree with links replaced by what they lead to.
func (w *WS) Through() map[string]string {
	out := map[string]string{}
	var add func(rel string)
	add = func(rel string) {
		es, err := os.ReadDir(filepath.Join(w.Dir, rel))
		if err != nil {
			panic(err)
		}
		for _, e := range es {
			p := filepath.Join(rel, e.Name())
			info, err := os.Stat(filepath.Join(w.Dir, p))
			if err != nil {
				out[p] = "leads nowhere"
				continue
			}
			if info.IsDir() {
				if e.Type()&os.ModeSymlink != 0 {
					here, _ := filepath.EvalSymlinks(filepath.Join(w.Dir, rel))
					if to, _ := filepath.EvalSymlinks(filepath.Join(w.Dir, p)); strings.HasPrefix(here+"/", to+"/") {
						out[p] = "leads up"
						continue
					}
				}
				out[p+"/"] = ""
				add(p)
				continue
			}
			if !info.Mode().IsRegular() {
				out[p] = info.Mode().String()
				continue
			}
			b, err := os.ReadFile(filepath.Join(w.Dir, p))
			if err != nil {
				panic(err)
			}
			out[p] = string(b)
		}
	}
	add("")
	return out
}

// MoveAway moves a file or directory out of the module and leaves a link. It
// does nothing if there is none, or a link already.
func (w *WS) MoveAway(path string) bool {
	p := filepath.Join(w.Dir, path)
	info, err := os.Lstat(p)
	if err != nil || info.Mode()&os.ModeSymlink != 0 {
		return false
	}
	to := filepath.Join(vt.Scratch("store"), filepath.Base(path))
	if err := os.Rename(p, to); err != nil {
		panic(err)
	}
	if err := os.Symlink(to, p); err != nil {
		panic(err)
	}
	return true
}

// Odd leaves something other than a file or directory in dir, if there is one.
func (w *WS) Odd(dir, what string) bool {
	d := filepath.Join(w.Dir, dir)
	if info, err := os.Stat(d); err != nil || !info.IsDir() {
		return false
	}
	var err error
	switch what {
	case "lock": // of an editor
		err = os.Symlink("me@host.1234:5678", filepath.Join(d, ".#service.go"))
	case "pipe":
		err = syscall.Mkfifo(filepath.Join(d, "pipe"), 0666)
	case "link up":
		err = os.Symlink("..", filepath.Join(d, "service"))
	case "directory":
		err = os.Mkdir(filepath.Join(d, "testdata"), 0777)
	}
	return err == nil
}

// IsLink tells whether there is a link.
func (w *WS) IsLink(path string) bool {
	info, err := os.Lstat(filepath.Join(w.Dir, path))
	return err == nil && info.Mode()&os.ModeSymlink != 0
}

// Copy makes another scratch module with the same files.
func (w *WS) Copy() (*WS, error) {
	n := &WS{vt.Scratch("ws")}
	for p, c := range w.Tree() {
		if strings.HasSuffix(p, "/") {
			os.MkdirAll(filepath.Join(n.Dir, p), 0777)
		} else {
			n.Write(p, c)
		}
	}
	return n, nil
}

// Remove deletes a file.
func (w *WS) Remove(path string) error { return os.Remove(filepath.Join(w.Dir, path)) }
