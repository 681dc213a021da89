// Package drvtest runs generated services under generated calls.
package drvtest

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"time"

	grpctransport "github.com/go-kit/kit/transport/grpc"
	httptransport "github.com/go-kit/kit/transport/http"
	natstransport "github.com/go-kit/kit/transport/nats"
	"github.com/nats-io/nats.go"
	"google.golang.org/grpc"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"example.com/ws/drv"
)

// Binding is an HTTP rule and where it locates each field.
type Binding struct {
	Verb, Path string
	Vars       []string
	At         map[string]string
}

func (b *Binding) at(fd protoreflect.FieldDescriptor) string { return b.At[string(fd.Name())] }

type Rpc struct {
	Name, Go string
	Bindings []*Binding
}

// at is where a generated client may carry a field: it uses one of the rpc's
// bindings, and values must suit each.
func (r *Rpc) at(fd protoreflect.FieldDescriptor) string {
	loc := "body"
	for _, b := range r.Bindings {
		switch b.at(fd) {
		case "path":
			return "path"
		case "query":
			loc = "query"
		}
	}
	return loc
}

// Spec is what the definition says about a target.
type Spec struct {
	ID   string
	Rpcs []*Rpc
}

func (s *Spec) bound() (out []*Rpc) {
	for _, r := range s.Rpcs {
		if len(r.Bindings) > 0 {
			out = append(out, r)
		}
	}
	return
}

// Input is what the check gives the driver.
type Input struct {
	Mode   string
	Seed   uint64
	Checks int
	Specs  []*Spec
}

// Result is what the driver found about one target.
type Result struct {
	ID      string
	Evals   int
	Keys    []string
	Classes map[string]int
	Samples []interface{}
	Fail    string
	Case    interface{}
	mu      sync.Mutex
	first   time.Time // when the first failure was found
}

func (r *Result) note(nontrivial bool, sample interface{}, classes ...string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.Fail != "" {
		return // shrinking
	}
	r.Evals++
	if nontrivial {
		h := fnv.New64a()
		fmt.Fprint(h, r.ID, sample)
		r.Keys = append(r.Keys, fmt.Sprintf("%x", h.Sum64()))
		if len(r.Samples) < 2 {
			r.Samples = append(r.Samples, sample)
		}
	}
	for _, c := range classes {
		r.Classes[c]++
	}
}

func (r *Result) fail(t *rapid.T, c interface{}, format string, args ...interface{}) {
	r.mu.Lock()
	if r.first.IsZero() {
		r.first = time.Now()
	}
	r.Fail = fmt.Sprintf(format, args...)
	if len(r.Fail) > 6000 {
		r.Fail = r.Fail[:6000]
	}
	r.Case = c
	r.mu.Unlock()
	t.Fatalf("failed")
}

// env is a running target.
type env struct {
	s   *Spec
	tg  *drv.Target
	svc *drv.Svc
	res *Result

	// set by start
	trace []string
	mu    sync.Mutex
	inst  *drv.Instance
	srv   *httptest.Server
	host  string // the HTTP client is given this name of the server
	bare  bool   // the HTTP client is given the address without its scheme
	conn  *grpc.ClientConn
	gs    *grpc.Server
	nc    *nats.Conn

	// options for the servers
	httpOpts []httptransport.ServerOption
	grpcOpts []grpctransport.ServerOption
	natsOpts []natstransport.SubscriberOption
}

func (e *env) log(s string) {
	e.mu.Lock()
	e.trace = append(e.trace, s)
	e.mu.Unlock()
}

// start runs the target's servers.
func (e *env) start(h drv.Hooks) {
	e.inst = e.tg.New(e.svc, h)
	if e.inst.HTTP != nil {
		e.srv = httptest.NewServer(e.inst.HTTP(e.httpOpts...))
	}
	lis := bufconn.Listen(1 << 20)
	e.gs = grpc.NewServer(grpc.UnaryInterceptor(func(ctx context.Context, req interface{}, _ *grpc.UnaryServerInfo, h grpc.UnaryHandler) (rep interface{}, err error) {
		defer func() {
			if x := recover(); x != nil {
				err = fmt.Errorf("the server panicked: %v\n%s", x, debug.Stack())
			}
		}()
		return h(ctx, req)
	}), grpc.MaxRecvMsgSize(64<<20), grpc.MaxSendMsgSize(64<<20))
	e.inst.GRPC(e.gs, e.grpcOpts...)
	go e.gs.Serve(lis)
	var err error
	e.conn, err = grpc.Dial("bufnet", grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(64<<20), grpc.MaxCallSendMsgSize(64<<20)),
		grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return lis.Dial() }))
	if err != nil {
		panic(err)
	}
	e.nc, _ = nats.Connect(fmt.Sprintf("%s-%p", e.s.ID, e.inst))
	if err := e.inst.NATS(e.nc, e.natsOpts...); err != nil {
		panic(fmt.Sprint("ServeNATS: ", err))
	}
}

func (e *env) close() {
	e.conn.Close()
	e.gs.Stop()
	if e.srv != nil {
		e.srv.CloseClientConnections()
		e.srv.Close()
	}
	e.nc.Close()
}

func (e *env) client(transport string, ho []httptransport.ClientOption, gro []grpctransport.ClientOption) drv.Caller {
	var c drv.Caller
	var err error
	switch transport {
	case "http":
		addr := e.srv.URL
		if e.host != "" {
			addr = "http://" + e.host
			ho = append(ho, httptransport.SetClient(e.resolver(e.host)))
		}
		if e.bare {
			addr = strings.TrimPrefix(addr, "http://")
		}
		c, err = e.inst.HTTPClient(addr, ho...)
	case "grpc":
		c, err = e.inst.GRPCClient(e.conn, gro...)
	case "nats":
		c, err = e.inst.NATSClient(e.nc)
	case "direct":
		c = e.inst.Direct
	}
	if err != nil {
		panic(fmt.Sprintf("%s client: %v", transport, err))
	}
	return c
}

// resolver is an HTTP client that knows the address of the server by a name.
func (e *env) resolver(name string) *http.Client {
	if !strings.Contains(name, ":") {
		name += ":80"
	}
	return &http.Client{Transport: &http.Transport{DisableKeepAlives: true, DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
		if addr != name {
			return nil, fmt.Errorf("the client of an instance %s connects to %s", name, addr)
		}
		var d net.Dialer
		return d.DialContext(ctx, "tcp", e.srv.Listener.Addr().String())
	}}}
}

func show(m proto.Message) string {
	if m == nil {
		return "<nil>"
	}
	b, err := protojson.MarshalOptions{AllowPartial: true, UseProtoNames: true, UseEnumNumbers: true}.Marshal(m)
	if err != nil {
		return fmt.Sprintf("%v (%v)", m, err)
	}
	s := string(b)
	if len(s) > 2500 {
		s = s[:2500] + "..."
	}
	return s
}

type prop func(t *rapid.T, e *env)

var modes = map[string]prop{}

// needsHTTP: the property is about bindings.
var needsHTTP = map[string]bool{"C18": true, "C19": true, "C20": true, "C21": true, "C22": true}

func TestDrv(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("DRV_IN"))
	if err != nil {
		t.Fatal(err)
	}
	var in Input
	if err := json.Unmarshal(b, &in); err != nil {
		t.Fatal(err)
	}
	flag.Set("rapid.checks", fmt.Sprint(in.Checks))
	flag.Set("rapid.seed", fmt.Sprint(in.Seed))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "15s")
	p := modes[in.Mode]
	if p == nil {
		t.Fatal("no mode ", in.Mode)
	}
	var mu sync.Mutex
	var out []*Result
	t.Run("all", func(t *testing.T) {
		for _, s := range in.Specs {
			s := s
			tg := drv.Targets[s.ID]
			if tg == nil {
				t.Fatal("no target ", s.ID)
			}
			t.Run(s.ID, func(t *testing.T) {
				t.Parallel()
				e := &env{s: s, tg: tg, svc: &drv.Svc{}, res: &Result{ID: s.ID, Classes: map[string]int{}}}
				mu.Lock()
				out = append(out, e.res)
				mu.Unlock()
				if needsHTTP[in.Mode] && len(s.bound()) == 0 || len(s.Rpcs) == 0 {
					return
				}
				if in.Mode != "C26" && in.Mode != "C41" {
					e.start(drv.Hooks{})
					defer e.close()
				}
				rapid.Check(t, func(t *rapid.T) {
					// Looking for smaller cases of a failure ends here, also
					// within one of rapid's steps.
					if !e.res.first.IsZero() && time.Since(e.res.first) > 20*time.Second {
						return
					}
					defer func() {
						// a panic of the generated code is a failure, not a crash
						if x := recover(); x != nil {
							st := string(debug.Stack())
							if strings.Contains(fmt.Sprintf("%T", x), "rapid.") {
								panic(x)
							}
							e.res.fail(t, nil, "panic: %v\n%s", x, st)
						}
					}()
					p(t, e)
				})
			})
		}
	})
	b, err = json.Marshal(out)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(os.Getenv("DRV_OUT"), b, 0666); err != nil {
		t.Fatal(err)
	}
}

const callTimeout = 20 * time.Second
