package wire

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/vt"
)

const patience = 20 * time.Second

// loggingWrapper is a wrapper file a user could write: it notes the name of
// every endpoint that is called.
const loggingWrapper = `package service

import (
	"context"
	"fmt"
	"os"

	"github.com/go-kit/kit/endpoint"

	pb "example.com/ws/@ID@/api"
)

func WrapEndpoints(in pb.Endpoints) pb.Endpoints {
	in.WrapAllLabeledExcept(func(name string, next endpoint.Endpoint) endpoint.Endpoint {
		return func(ctx context.Context, request interface{}) (interface{}, error) {
			f, err := os.OpenFile(os.Getenv("CALL_LOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666)
			if err != nil {
				panic(err)
			}
			fmt.Fprintln(f, name)
			f.Close()
			return next(ctx, request)
		}
	})
	return in
}

func WrapService(in pb.@SVC@Server) pb.@SVC@Server { return in }
`

// loggingOptions is a server/wrapper.go a user could write: it notes the
// transport of every call.
const loggingOptions = `package server

import (
	"context"
	"net/http"
	"os"

	grpctransport "github.com/go-kit/kit/transport/grpc"
	httptransport "github.com/go-kit/kit/transport/http"
	natstransport "github.com/go-kit/kit/transport/nats"
	"github.com/nats-io/nats.go"
	"google.golang.org/grpc/metadata"
)

func note(ctx context.Context, transport string) context.Context {
	f, err := os.OpenFile(os.Getenv("CALL_LOG")+"-"+transport, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666)
	if err != nil {
		panic(err)
	}
	f.WriteString("x")
	f.Close()
	return ctx
}

func GRPCServerOptions() []grpctransport.ServerOption {
	return []grpctransport.ServerOption{grpctransport.ServerBefore(func(ctx context.Context, _ metadata.MD) context.Context { return note(ctx, "grpc") })}
}

func HTTPServerOptions() []httptransport.ServerOption {
	return []httptransport.ServerOption{httptransport.ServerBefore(func(ctx context.Context, _ *http.Request) context.Context { return note(ctx, "http") })}
}

func NATSSubscriberOptions() []natstransport.SubscriberOption {
	return []natstransport.SubscriberOption{natstransport.SubscriberBefore(func(ctx context.Context, _ *nats.Msg) context.Context { return note(ctx, "nats") })}
}
`

// event is a step of a history with a running server.
type event struct {
	Kind string // http, grpc, nats, garbage-http, garbage-grpc, garbage-nats, client
	Rpc  int
	Bind int
	Data string `json:",omitempty"`
}

type history struct {
	HTTP, GRPC, NATS, Debug bool
	Events                  []event
	Signal                  string // INT, TERM
	// Taken: the address of that server is taken before the start.
	Taken string `json:",omitempty"`
}

func drawHistory(r *rand.Rand, c *Case, client bool) *history {
	h := &history{Debug: r.Intn(3) == 0, Signal: []string{"INT", "TERM"}[r.Intn(2)]}
	bound := anyBound(c.Spec)
	h.HTTP = r.Intn(4) > 0
	h.GRPC = r.Intn(4) > 0
	h.NATS = r.Intn(4) > 0
	if client {
		h.HTTP, h.GRPC, h.NATS = true, true, true
	}
	serving := []string{}
	if h.HTTP && bound {
		serving = append(serving, "http")
	}
	if h.GRPC && c.Transport != "nats" {
		serving = append(serving, "grpc")
	}
	if h.NATS && c.Transport != "grpc" {
		serving = append(serving, "nats")
	}
	if r.Intn(6) == 0 && !client {
		t := append([]string{}, serving...)
		if h.Debug {
			t = append(t, "debug")
		}
		if len(t) > 0 {
			h.Taken = t[r.Intn(len(t))]
			return h
		}
	}
	rpcs := unary(c.Spec)
	if len(serving) == 0 || len(rpcs) == 0 {
		return h
	}
	for i := 3 + r.Intn(10); i > 0; i-- {
		e := event{Kind: serving[r.Intn(len(serving))], Rpc: r.Intn(len(rpcs))}
		switch {
		case client && r.Intn(6) == 0:
			e = event{Kind: "client"}
		case r.Intn(4) == 0:
			e.Kind = "garbage-" + e.Kind
			b := make([]byte, r.Intn(40))
			r.Read(b)
			e.Data = string(b)
			switch r.Intn(4) {
			case 0:
				e.Data = []string{"", "null", "[]", "{", "\"x\"", "{\"a\":", "1e400", "{\"@type\":1}"}[r.Intn(8)]
			case 1:
				e.Data = "GET / HTTP/1.1\r\nHost: x\r\nContent-Length: 99999\r\n\r\n" + e.Data
			case 2:
				e.Data = "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + e.Data
			}
		case e.Kind == "http":
			for len(rpcs[e.Rpc].Bindings) == 0 {
				e.Rpc = r.Intn(len(rpcs))
			}
			e.Bind = r.Intn(len(rpcs[e.Rpc].Bindings))
		}
		h.Events = append(h.Events, e)
	}
	if client {
		h.Events = append(h.Events, event{Kind: "client"})
	}
	return h
}

// pathFor fills the variables of a binding's path.
func pathFor(m *pspec.Msg, b pspec.Binding) string {
	var ps []string
	for _, p := range strings.Split(b.Path, "/") {
		if pre, name, suf, ok := pspec.CutSeg(p); ok {
			v := "1"
			for _, f := range m.Fields {
				if f.Name == name {
					switch {
					case f.Type.Enum:
						v = "0"
					case f.Type.Scalar == "bool":
						v = "true"
					case f.Type.Scalar == "string":
						v = "x1"
					}
				}
			}
			p = pre + v + suf
		}
		ps = append(ps, p)
	}
	return strings.Join(ps, "/")
}

// natsCall asks the broker to carry a request and returns the reply.
func natsCall(addr, subject string, data []byte, limit time.Duration) ([]byte, error) {
	c, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		return nil, vt.Infra{Err: err}
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(limit))
	enc := json.NewEncoder(c)
	inbox := "_PROBE." + c.LocalAddr().String()
	enc.Encode(&natsFrame{Op: "sub", Sid: 1, Subject: inbox})
	enc.Encode(&natsFrame{Op: "pub", Subject: subject, Reply: inbox, Data: data})
	var f natsFrame
	if err := json.NewDecoder(c).Decode(&f); err != nil {
		return nil, err
	}
	if len(f.Header["Status"]) > 0 {
		return nil, fmt.Errorf("no responders")
	}
	return f.Data, nil
}

func (h *history) run(x *runnable, c *Case, scratch string) (what string, err error) {
	pn := func() string { return fmt.Sprintf("127.0.0.1:%d", freePort()) }
	httpAddr, grpcAddr, natsAddr, debugAddr := pn(), pn(), pn(), pn()
	args := []string{"-debug.addr", debugAddr}
	if h.HTTP {
		args = append(args, "-http.addr", httpAddr)
	}
	if h.GRPC {
		args = append(args, "-grpc.addr", grpcAddr)
	}
	if h.NATS {
		args = append(args, "-nats.addr", natsAddr)
	}
	if h.Debug {
		args = append(args, "-debug")
	}
	var br *broker
	if h.NATS && h.Taken != "nats" {
		if br, err = newBroker(natsAddr); err != nil {
			return "", vt.Infra{Err: err}
		}
		defer br.close()
	}
	if a := map[string]string{"http": httpAddr, "grpc": grpcAddr, "debug": debugAddr}[h.Taken]; a != "" {
		ln, err := net.Listen("tcp", a)
		if err != nil {
			return "", vt.Infra{Err: err}
		}
		defer ln.Close()
	}
	calls := filepath.Join(scratch, "calls")
	os.Remove(calls)
	p, err := start(x.server, args, []string{"CALL_LOG=" + calls})
	if err != nil {
		return "", err
	}
	defer p.kill()
	fail := func(format string, a ...interface{}) (string, error) {
		return fmt.Sprintf(format, a...) + fmt.Sprintf("\nserver flags: %q\nserver output:\n%s", args, tail(p.output(), 3000)), nil
	}
	if h.Taken != "" {
		if !p.wait(patience) {
			return fail("the %s server cannot start, but the command goes on", h.Taken)
		}
		return "", nil
	}
	rpcs := unary(c.Spec)
	want := map[string]string{}
	if h.HTTP && anyBound(c.Spec) {
		want[httpAddr] = "http"
	}
	if h.GRPC && c.Transport != "nats" {
		want[grpcAddr] = "grpc"
	}
	if h.Debug {
		want[debugAddr] = "debug"
	}
	natsOn := h.NATS && c.Transport != "grpc"
	for deadline := time.Now().Add(patience); ; time.Sleep(5 * time.Millisecond) {
		missing := ""
		for a, k := range want {
			if got := kindAt(a); got != k {
				missing = fmt.Sprintf("no %s server at %s (%q)", k, a, got)
			}
		}
		if natsOn && br.subscriptions() != len(rpcs) {
			missing = fmt.Sprintf("%d of %d rpcs subscribed to NATS", br.subscriptions(), len(rpcs))
		}
		if p.ended() {
			return fail("the server ended at once: %v", p.err)
		}
		if missing == "" {
			break
		}
		if time.Now().After(deadline) {
			return fail("%s", missing)
		}
	}
	if !h.Debug && kindAt(debugAddr) != "" {
		return fail("debug server without -debug")
	}
	var subjects []string
	if natsOn {
		subjects = br.subjects()
	}
	noted := func(transport string) int {
		b, _ := os.ReadFile(calls + "-" + transport)
		return len(b)
	}
	for _, tr := range []string{"http", "grpc", "nats"} {
		os.Remove(calls + "-" + tr)
	}
	for _, e := range h.Events {
		before := noted(e.Kind)
		switch e.Kind {
		case "http":
			r := rpcs[e.Rpc]
			b := r.Bindings[e.Bind]
			var body io.Reader
			if b.Body != "" {
				body = strings.NewReader("{}")
			}
			req, err := http.NewRequest(strings.ToUpper(b.Verb), "http://"+httpAddr+pathFor(c.Spec.Msg(r.Req.Ref), b), body)
			if err != nil {
				return "", vt.Infra{Err: err}
			}
			cl := http.Client{Timeout: patience, Transport: &http.Transport{DisableKeepAlives: true}}
			resp, err := cl.Do(req)
			if err != nil {
				return fail("%s %s (%s): %v", req.Method, req.URL, r.Name, err)
			}
			out, _ := io.ReadAll(resp.Body)
			resp.Body.Close()
			var m map[string]interface{}
			if resp.StatusCode != 200 || json.Unmarshal(out, &m) != nil {
				return fail("%s %s (%s): status %d, body %q", req.Method, req.URL, r.Name, resp.StatusCode, out)
			}
		case "grpc":
			r := rpcs[e.Rpc]
			out, err := grpcEmpty(grpcAddr, "/"+x.b.names.Full+"/"+r.Name)
			if err != nil || len(out) != 0 {
				return fail("gRPC call of %s: response %q, error %v", r.Name, out, err)
			}
		case "nats":
			s := subjects[e.Rpc%len(subjects)]
			out, err := natsCall(natsAddr, s, []byte("{}"), patience)
			if _, ok := err.(vt.Infra); ok {
				return "", err
			}
			var m map[string]interface{}
			if err != nil || json.Unmarshal(out, &m) != nil || m["$error"] != nil {
				return fail("NATS request to %s: response %q, error %v", s, out, err)
			}
		case "garbage-http", "garbage-grpc":
			a := map[string]string{"garbage-http": httpAddr, "garbage-grpc": grpcAddr}[e.Kind]
			conn, err := net.DialTimeout("tcp", a, patience)
			if err != nil {
				return fail("%s at %s: %v", e.Kind, a, err)
			}
			conn.Write([]byte(e.Data))
			conn.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
			conn.Read(make([]byte, 100))
			conn.Close()
		case "garbage-nats":
			if _, err := natsCall(natsAddr, subjects[e.Rpc%len(subjects)], []byte(e.Data), patience); err != nil {
				if _, ok := err.(vt.Infra); ok {
					return "", err
				}
				return fail("NATS request %q: no reply: %v", e.Data, err)
			}
		case "client":
			os.Remove(calls)
			cl, err := start(x.client, []string{"-http.addr", httpAddr, "-grpc.addr", grpcAddr, "-nats.addr", natsAddr}, nil)
			if err != nil {
				return "", err
			}
			ended := cl.wait(2 * patience)
			cl.kill()
			if !ended || cl.err != nil {
				return fail("the client command: ended %v, %v\n%s", ended, cl.err, tail(cl.output(), 2000))
			}
			want := map[string]int{}
			for _, r := range rpcs {
				n := x.b.names.Methods[r.Name].Go
				if c.Transport != "nats" {
					want[n]++
				}
				if c.Transport != "grpc" {
					want[n]++
				}
				if len(r.Bindings) > 0 {
					want[n]++
				}
			}
			got := map[string]int{}
			b, _ := os.ReadFile(calls)
			for _, l := range strings.Fields(string(b)) {
				got[l]++
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fail("the client command made the calls %v, expected %v\n%s", got, want, tail(cl.output(), 2000))
			}
		}
		switch e.Kind {
		case "http", "grpc", "nats":
			if noted(e.Kind) <= before {
				return fail("the option in the server's wrapper file did not see the %s call", e.Kind)
			}
		}
		if p.ended() {
			return fail("the server ended after %s %q: %v", e.Kind, e.Data, p.err)
		}
	}
	sig := map[string]syscall.Signal{"INT": syscall.SIGINT, "TERM": syscall.SIGTERM}[h.Signal]
	visible := len(want) > 0 || natsOn && len(rpcs) > 0
	if !visible {
		time.Sleep(100 * time.Millisecond) // let it reach its wait for signals
	}
	p.cmd.Process.Signal(sig)
	if !p.wait(patience) {
		return fail("the server goes on after SIG%s", h.Signal)
	}
	if p.cmd.ProcessState.ExitCode() < 0 && visible {
		return fail("the server was killed by SIG%s instead of ending: %v", h.Signal, p.err)
	}
	return "", nil
}

func (b *broker) subjects() (out []string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	seen := map[string]bool{}
	for _, s := range b.subs {
		if !seen[s.subject] {
			seen[s.subject] = true
			out = append(out, s.subject)
		}
	}
	sort.Strings(out)
	return
}

// judge is run, again if it failed: with other ports, as another process may
// have taken one.
func (h *history) judge(x *runnable, c *Case, scratch string) (what string, err error) {
	for i := 0; i < 3; i++ {
		what, err = h.run(x, c, scratch)
		if what == "" && err == nil {
			return "", nil
		}
	}
	return what, err
}

func (h *history) shrink(x *runnable, c *Case, scratch, what string) (*history, string) {
	deadline := time.Now().Add(2 * time.Minute)
	try := func(n history) bool {
		if time.Now().After(deadline) {
			return false
		}
		w, err := n.judge(x, c, scratch)
		if err == nil && w != "" {
			*h, what = n, w
			return true
		}
		return false
	}
	for i := 0; i < len(h.Events); {
		n := *h
		n.Events = append(append([]event{}, h.Events[:i]...), h.Events[i+1:]...)
		if !try(n) {
			i++
		}
	}
	return h, what
}

// plainPaths: an empty request fits the paths of all bindings.
func plainPaths(s *pspec.Spec) bool {
	for _, r := range unary(s) {
		m := s.Msg(r.Req.Ref)
		for _, b := range r.Bindings {
			for _, v := range pspec.PathVars(b.Path) {
				for _, f := range m.Fields {
					if f.Name == v && (f.Type.Scalar == "string" || f.Label != "") {
						return false
					}
				}
			}
		}
	}
	return true
}

func TestC31(t *testing.T) {
	rep := vt.Start(t, "C31", "random definitions are generated and the server and client commands are built and run as processes on loopback ports, under random histories: valid calls of random rpcs over HTTP, gRPC and NATS (a stand-in over TCP), garbage sent to any of them, runs of the generated client command, a taken address, SIGINT or SIGTERM at the end; non-trivial: a history with a call or a taken address")
	w, err := newWorkspace()
	if err != nil {
		rep.FailErr(t, nil, err)
	}
	defer w.close()
	n := vt.N(8, 32)
	cases := liveCases(n, false, func(*pspec.Spec) bool { return true })
	cases = append(cases, liveCases(n, true, func(s *pspec.Spec) bool { return anyRpc(s) && plainPaths(s) })...)
	w.add(cases)
	per := vt.N(24, 150)
	type result struct {
		x    *runnable
		hs   []*history
		what string
	}
	rs := make([]*result, len(w.bs))
	i, err := vt.Parallel(len(w.bs), func(i int) (err error) {
		x := &runnable{b: w.bs[i]}
		rs[i] = &result{x: x}
		if x.b.err != nil {
			return x.b.err
		}
		if x.b.c.Client {
			write(filepath.Join(w.dir, x.b.dir, "service/wrapper.go"), strings.NewReplacer("@ID@", x.b.id, "@SVC@", x.b.svc).Replace(loggingWrapper))
		}
		write(filepath.Join(w.dir, x.b.dir, "server/wrapper.go"), loggingOptions)
		if x.server, x.client, err = w.commands(x.b); err != nil {
			return err
		}
		if (x.client != "") != x.b.c.Client {
			return fmt.Errorf("client command generated: %v, asked for: %v", x.client != "", x.b.c.Client)
		}
		r := rand.New(rand.NewSource(int64(vt.RapidSeed()) + int64(i)))
		scratch := filepath.Dir(x.server)
		for k := 0; k < per; k++ {
			h := drawHistory(r, x.b.c, x.b.c.Client)
			what, err := h.judge(x, x.b.c, scratch)
			if err != nil {
				return err
			}
			if what != "" {
				h, rs[i].what = h.shrink(x, x.b.c, scratch, what)
				rs[i].hs = append(rs[i].hs, h)
				return nil
			}
			rs[i].hs = append(rs[i].hs, h)
		}
		return nil
	})
	if err != nil {
		rep.FailErr(t, w.bs[i].c.describe(), err)
	}
	for i, r := range rs {
		c := w.bs[i].c
		if r.what != "" {
			rep.Fail(t, map[string]interface{}{"case": c.describe(), "history": r.hs[len(r.hs)-1]}, "%s\ndefinition:\n%s", r.what, c.Spec.Whole())
		}
		for _, h := range r.hs {
			b, _ := json.Marshal(h)
			var buf bytes.Buffer
			buf.Write(b)
			for _, e := range h.Events {
				rep.Class("event " + e.Kind)
			}
			if h.Taken != "" {
				rep.Class("taken " + h.Taken)
			} else {
				rep.Class("SIG" + h.Signal)
			}
			rep.Class("transport " + c.Transport)
			rep.Case(len(h.Events) > 0 || h.Taken != "", c.Spec.Whole()+buf.String(), func() interface{} {
				return map[string]interface{}{"history": h, "definition": c.Spec.Whole()}
			})
		}
	}
}
