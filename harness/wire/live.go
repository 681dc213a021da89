package wire

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/teamlint/baron/zzverif/vt"
)

// commands builds the generated commands of a case: the server's and, if it
// has one, the client's.
func (w *workspace) commands(b *built) (server, client string, err error) {
	es, err := os.ReadDir(filepath.Join(w.dir, b.dir, "cmd"))
	if err != nil {
		return "", "", fmt.Errorf("no commands were generated: %v", err)
	}
	for _, e := range es {
		exe := filepath.Join(w.dir, "exe-"+b.id, e.Name())
		cmd := exec.Command("go", "build", "-trimpath", "-o", exe, "./"+b.dir+"/cmd/"+e.Name())
		cmd.Dir = w.dir
		cmd.Env = append(os.Environ(), "PWD="+w.dir)
		if msg, err := cmd.CombinedOutput(); err != nil {
			if !pos.MatchString(string(msg)) {
				return "", "", vt.Infra{Err: fmt.Errorf("go build: %v\n%s", err, tail(string(msg), 2000))}
			}
			return "", "", fmt.Errorf("command %s does not build: %s", e.Name(), tail(string(msg), 2000))
		}
		if strings.HasSuffix(e.Name(), "-client") {
			client = exe
		} else {
			server = exe
		}
	}
	if server == "" {
		return "", "", fmt.Errorf("no server command was generated")
	}
	return server, client, nil
}

// process is a running command.
type process struct {
	cmd  *exec.Cmd
	out  bytes.Buffer
	mu   sync.Mutex
	done chan struct{}
	err  error
}

func (p *process) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.Write(b)
}

func (p *process) output() string { p.mu.Lock(); defer p.mu.Unlock(); return p.out.String() }

func start(exe string, args, env []string) (*process, error) {
	p := &process{cmd: exec.Command(exe, args...), done: make(chan struct{})}
	p.cmd.Env = append([]string{"PATH=/usr/bin:/bin", "NATS_STUB_TCP=1", "GODEBUG=" + os.Getenv("GODEBUG")}, env...)
	p.cmd.Dir = filepath.Dir(exe)
	p.cmd.Stdout, p.cmd.Stderr = p, p
	p.cmd.WaitDelay = 5 * time.Second
	if err := p.cmd.Start(); err != nil {
		return nil, vt.Infra{Err: err}
	}
	go func() { p.err = p.cmd.Wait(); close(p.done) }()
	return p, nil
}

func (p *process) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// wait reports whether the process ended in that time.
func (p *process) wait(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

func (p *process) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

var ports struct {
	sync.Mutex
	next int
}

// freePort is a port that nobody listens on, below the ephemeral ones, and
// that was not handed out before (or long ago).
func freePort() int {
	ports.Lock()
	defer ports.Unlock()
	if ports.next == 0 {
		ports.next = 20000 + os.Getpid()%10*1000
	}
	for i := 0; i < 12000; i++ {
		p := ports.next
		if ports.next++; ports.next >= 32000 {
			ports.next = 20000
		}
		if portFree(p) {
			return p
		}
	}
	panic(vt.Infra{Err: errors.New("no free port")})
}

func portFree(p int) bool {
	ln, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
	if err != nil {
		return false
	}
	ln.Close()
	return true
}

// kindAt tells what listens at an address: "" nothing, "debug", "http" or
// "grpc" (something that does not talk HTTP/1.1).
func kindAt(addr string) string {
	c, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return ""
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(5 * time.Second))
	fmt.Fprintf(c, "GET /debug/pprof/cmdline HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", addr)
	br := bufio.NewReader(c)
	if b, _ := br.Peek(5); string(b) != "HTTP/" {
		return "grpc"
	}
	r, err := http.ReadResponse(br, nil)
	if err != nil {
		return "http"
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	if r.StatusCode == 200 && len(b) > 0 {
		return "debug"
	}
	return "http"
}
