package wire

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/vt"
)

// What the driver reads and writes; see drv/drvtest.
type drvBinding struct {
	Verb, Path string
	Vars       []string
	At         map[string]string
}
type drvRpc struct {
	Name, Go string
	Bindings []*drvBinding
}
type drvSpec struct {
	ID   string
	Rpcs []*drvRpc
}
type drvInput struct {
	Mode   string
	Seed   uint64
	Checks int
	Specs  []*drvSpec
}
type drvResult struct {
	ID      string
	Evals   int
	Keys    []string
	Classes map[string]int
	Samples []interface{}
	Fail    string
	Case    interface{}
}

// unary lists the rpcs of a case that the generated service has.
func unary(s *pspec.Spec) (out []*pspec.Rpc) {
	for _, r := range s.Service().Rpcs {
		if !r.RS && !r.PS {
			out = append(out, r)
		}
	}
	return
}

func (b *built) drvSpec() *drvSpec {
	d := &drvSpec{ID: b.id}
	for _, r := range unary(b.c.Spec) {
		x := &drvRpc{Name: r.Name, Go: b.names.Methods[r.Name].Go}
		m := b.c.Spec.Msg(r.Req.Ref)
		for _, bd := range r.Bindings {
			y := &drvBinding{Verb: bd.Verb, Path: bd.Path, Vars: pspec.PathVars(bd.Path), At: map[string]string{}}
			for _, f := range m.Fields {
				y.At[f.Name] = bd.Locate(f)
			}
			x.Bindings = append(x.Bindings, y)
		}
		d.Rpcs = append(d.Rpcs, x)
	}
	return d
}

// wrapperFile replaces the user-owned wrapper of the service.
const wrapperFile = `package service

import pb "example.com/ws/@ID@/api"

var HookEndpoints func(in *pb.Endpoints)
var HookService func(in pb.@SVC@Server) pb.@SVC@Server

func WrapEndpoints(in pb.Endpoints) pb.Endpoints {
	if HookEndpoints != nil {
		HookEndpoints(&in)
	}
	return in
}

func WrapService(in pb.@SVC@Server) pb.@SVC@Server {
	if HookService != nil {
		return HookService(in)
	}
	return in
}
`

const glueHead = `package glue

import (
	"context"
	"fmt"
	"net/http"
	"sync"

	grpctransport "github.com/go-kit/kit/transport/grpc"
	httptransport "github.com/go-kit/kit/transport/http"
	natstransport "github.com/go-kit/kit/transport/nats"
	"github.com/nats-io/nats.go"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"

	"example.com/ws/drv"
	pb "example.com/ws/@ID@/api"
	"example.com/ws/@DIR@/server"
	"example.com/ws/@DIR@/service"
)

var (
	_ http.Handler
	_ httptransport.ClientOption
	mu sync.Mutex
)

type impl struct {
	pb.Unimplemented@SVC@Server
	s *drv.Svc
}

type proxy struct {
	pb.@SVC@Server
	hook func(string)
}

func caller(c pb.@SVC@Server) drv.Caller {
	return func(ctx context.Context, method string, in proto.Message) (proto.Message, error) {
		switch method {
@CASES@		}
		return nil, fmt.Errorf("no method %s", method)
	}
}

func init() {
	drv.Register(&drv.Target{ID: "@ID@", Methods: []drv.Method{
@METHODS@	}, New: func(s *drv.Svc, h drv.Hooks) *drv.Instance {
		mu.Lock()
		defer mu.Unlock()
		service.HookEndpoints, service.HookService = nil, nil
		if h.Endpoints != nil {
			service.HookEndpoints = func(in *pb.Endpoints) { h.Endpoints(in) }
		}
		if h.Service != nil {
			service.HookService = func(in pb.@SVC@Server) pb.@SVC@Server { return &proxy{in, h.Service} }
		}
		endpoints := server.NewEndpoints(&impl{s: s})
		return &drv.Instance{
			Direct: caller(endpoints),
			GRPC: func(s *grpc.Server, o ...grpctransport.ServerOption) {
				pb.Register@SVC@Server(s, pb.MakeGRPCServer(endpoints, append(server.GRPCServerOptions(), o...)...))
			},
			GRPCClient: func(conn *grpc.ClientConn, o ...grpctransport.ClientOption) (drv.Caller, error) {
				c, err := pb.NewGRPCClient(conn, o...)
				if err != nil {
					return nil, err
				}
				return caller(c), nil
			},
			NATS: func(conn *nats.Conn, o ...natstransport.SubscriberOption) error {
				return pb.ServeNATS(conn, pb.MakeNATSServer(endpoints, append(server.NATSSubscriberOptions(), o...)...))
			},
			NATSClient: func(conn *nats.Conn, o ...natstransport.PublisherOption) (drv.Caller, error) {
				c, err := pb.NewNATSClient(conn, o...)
				if err != nil {
					return nil, err
				}
				return caller(c), nil
			},
			ContextValuesToGRPCMetadata: pb.ContextValuesToGRPCMetadata,
@HTTP@		}
	}})
}
`

const glueHTTP = `			HTTP: func(o ...httptransport.ServerOption) http.Handler {
				return pb.MakeHTTPHandler(endpoints, append(server.HTTPServerOptions(), o...)...)
			},
			HTTPClient: func(addr string, o ...httptransport.ClientOption) (drv.Caller, error) {
				c, err := pb.NewHTTPClient(addr, o...)
				if err != nil {
					return nil, err
				}
				return caller(c), nil
			},
			CtxValuesToSend: pb.CtxValuesToSend,
`

const glueMethod = `
func (i *impl) @M@(ctx context.Context, in *pb.@IN@) (*pb.@OUT@, error) {
	out, err := i.s.Serve(ctx, "@M@", in)
	if err != nil {
		return nil, err
	}
	return out.(*pb.@OUT@), nil
}

func (p *proxy) @M@(ctx context.Context, in *pb.@IN@) (*pb.@OUT@, error) {
	p.hook("@M@")
	return p.@SVC@Server.@M@(ctx, in)
}
`

// glue writes what connects a generated service to the driver.
func (w *workspace) glue(b *built) {
	var cases, methods, impl strings.Builder
	http := ""
	for _, r := range unary(b.c.Spec) {
		m := b.names.Methods[r.Name]
		fmt.Fprintf(&cases, "\t\tcase %q:\n\t\t\treturn out(c.%s(ctx, in.(*pb.%s)))\n", m.Go, m.Go, m.In)
		fmt.Fprintf(&methods, "\t\t{Go: %q, In: func() proto.Message { return &pb.%s{} }, Out: func() proto.Message { return &pb.%s{} }},\n", m.Go, m.In, m.Out)
		impl.WriteString(strings.NewReplacer("@M@", m.Go, "@IN@", m.In, "@OUT@", m.Out, "@SVC@", b.svc).Replace(glueMethod))
		if len(r.Bindings) > 0 {
			http = glueHTTP
		}
	}
	impl.WriteString(`
// out keeps a nil response from looking like a message.
func out[M interface {
	comparable
	proto.Message
}](m M, err error) (proto.Message, error) {
	var none M
	if m == none {
		return nil, err
	}
	return m, err
}
`)
	rep := strings.NewReplacer("@ID@", b.id, "@DIR@", b.dir, "@SVC@", b.svc, "@CASES@", cases.String(), "@METHODS@", methods.String(), "@HTTP@", http)
	write(filepath.Join(w.dir, b.id, "glue/glue.go"), rep.Replace(glueHead)+impl.String())
	write(filepath.Join(w.dir, b.dir, "service/wrapper.go"), rep.Replace(wrapperFile))
}

func copyDir(from, to string) error {
	es, err := os.ReadDir(from)
	if err != nil {
		return err
	}
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err != nil {
			return err
		}
		write(filepath.Join(to, e.Name()), string(b))
	}
	return nil
}

var inCase = regexp.MustCompile(`example\.com/ws/(s\d+)/`)
var dataRace = "WARNING: DATA RACE"

// runOpts says how the driver runs.
type runOpts struct {
	mode   string
	checks int
	seed   uint64
	race   bool
}

// run generates the cases, compiles them with the driver and runs it. The
// result has an entry per case; one that does not generate or compile fails.
func run(cases []*Case, o runOpts) ([]*drvResult, error) {
	w, err := newWorkspace()
	if err != nil {
		return nil, err
	}
	defer w.close()
	w.add(cases)
	for _, b := range w.bs {
		if b.err == nil {
			w.glue(b)
		}
	}
	for _, d := range []string{"drv", "drvtest"} {
		if err := copyDir(filepath.Join(vt.VerifDir(), "drv", d), filepath.Join(w.dir, d)); err != nil {
			return nil, vt.Infra{Err: err}
		}
	}
	if err := w.compile(); err != nil {
		return nil, err
	}
	out := make([]*drvResult, len(cases))
	byID := map[string]*drvResult{}
	in := drvInput{Mode: o.mode, Seed: o.seed, Checks: o.checks}
	all := "package drvtest\n\nimport (\n"
	for i, b := range w.bs {
		out[i] = &drvResult{ID: b.id}
		byID[b.id] = out[i]
		if e, ok := b.err.(vt.Infra); ok {
			return nil, e
		}
		if b.err != nil {
			out[i].Fail = b.err.Error()
			continue
		}
		in.Specs = append(in.Specs, b.drvSpec())
		all += fmt.Sprintf("\t_ \"example.com/ws/%s/glue\"\n", b.id)
	}
	if len(in.Specs) == 0 {
		return out, nil
	}
	write(filepath.Join(w.dir, "drvtest/all_test.go"), all+")\n")
	exe := filepath.Join(w.dir, "drv.test")
	args := []string{"test", "-c", "-trimpath", "-o", exe}
	if o.race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./drvtest")...)
	cmd.Dir = w.dir
	cmd.Env = append(os.Environ(), "PWD="+w.dir)
	if msg, err := cmd.CombinedOutput(); err != nil {
		return nil, vt.Infra{Err: fmt.Errorf("building the driver: %v\n%s", err, tail(string(msg), 3000))}
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(vt.N(600, 3600))*time.Second)
	defer cancel()
	// a crash of the process is one case's: run the others again without it
	for tries := 0; len(in.Specs) > 0; tries++ {
		jb, err := json.Marshal(in)
		if err != nil {
			return nil, vt.Infra{Err: err}
		}
		write(filepath.Join(w.dir, "in.json"), string(jb))
		os.Remove(filepath.Join(w.dir, "out.json"))
		cmd := exec.CommandContext(ctx, exe, "-test.run", "^TestDrv$", "-test.timeout", "0")
		cmd.Dir = w.dir
		cmd.Env = append(os.Environ(), "DRV_IN="+filepath.Join(w.dir, "in.json"), "DRV_OUT="+filepath.Join(w.dir, "out.json"),
			"GOLANG_PROTOBUF_REGISTRATION_CONFLICT=ignore", "GOTRACEBACK=all")
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		cmd.WaitDelay = 5 * time.Second

		runErr := cmd.Run()
		if ctx.Err() != nil {
			return nil, vt.Infra{Err: fmt.Errorf("the driver ran out of time")}
		}
		if _, race, ok := strings.Cut(buf.String(), dataRace); ok {
			race, _, _ = strings.Cut(race, "==================")
			m := inCase.FindStringSubmatch(race)
			if m == nil || byID[m[1]] == nil {
				return nil, vt.Infra{Err: fmt.Errorf("a data race outside of generated code:\n%s", tail(race, 6000))}
			}
			byID[m[1]].Fail = "concurrent calls race: " + dataRace + race
			return out, nil
		}
		if b, err := os.ReadFile(filepath.Join(w.dir, "out.json")); err == nil {
			var rs []*drvResult
			if err := json.Unmarshal(b, &rs); err != nil {
				return nil, vt.Infra{Err: err}
			}
			for _, r := range rs {
				*byID[r.ID] = *r
			}
			if len(rs) != len(in.Specs) || runErr != nil && !anyFail(rs) {
				return nil, vt.Infra{Err: fmt.Errorf("driver: %v, %d results for %d cases\n%s", runErr, len(rs), len(in.Specs), tail(buf.String(), 3000))}
			}
			return out, nil
		}
		// crashed before it wrote its results
		msg := buf.String()
		at := strings.Index(msg, "fatal error: ")
		if p := strings.Index(msg, "panic: "); at < 0 || p >= 0 && p < at {
			at = p
		}
		if at < 0 {
			return nil, vt.Infra{Err: fmt.Errorf("driver: %v\n%s", runErr, tail(msg, 3000))}
		}
		stack := msg[at:]
		if i := strings.Index(stack, "\n\ngoroutine "); i >= 0 {
			if j := strings.Index(stack[i+2:], "\n\n"); j >= 0 {
				stack = stack[:i+2+j] // the goroutine that crashed
			}
		}
		m := inCase.FindStringSubmatch(stack)
		if m == nil || byID[m[1]] == nil || tries > 3 {
			return nil, vt.Infra{Err: fmt.Errorf("driver: %v\n%s", runErr, tail(msg[at:], 6000))}
		}
		byID[m[1]].Fail = "the server crashed: " + tail(stack, 3000)
		var rest []*drvSpec
		for _, s := range in.Specs {
			if s.ID != m[1] {
				rest = append(rest, s)
			}
		}
		in.Specs = rest
	}
	return out, nil
}

func anyFail(rs []*drvResult) bool {
	for _, r := range rs {
		if r.Fail != "" {
			return true
		}
	}
	return false
}

var runSpec = pspec.Opts{MaxFiles: 2, MaxMsgs: 4, MaxRpcs: 6, External: true, NearNames: true, Streaming: true, Wire: true}

// runCheck decides a property with the driver: batches of generated services,
// each run with generated calls.
func runCheck(t *testing.T, rep *vt.Rep, mode string, batches, size, checks int, opts pspec.Opts, use func(*pspec.Spec) bool) {
	gen := pspec.Gen(opts)
	base := int(vt.RapidSeed()%1000003) * 7
	k := 0
	for n := 0; n < batches; n++ {
		var cs []*Case
		for len(cs) < size {
			s := gen.Example(base + k)
			k++
			if use(s) {
				cs = append(cs, &Case{Spec: s, Transport: "all"})
			}
		}
		o := runOpts{mode: mode, checks: checks, seed: vt.RapidSeed() + uint64(n)*31, race: mode == "C37"}
		start := time.Now()
		res, err := run(cs, o)
		if err != nil {
			rep.FailErr(t, nil, err)
		}
		t.Logf("batch %d: %v", n, time.Since(start))
		for i, r := range res {
			if os.Getenv("VERIF_WIRE_ALL") != "" {
				if r.Fail != "" {
					t.Logf("ALL %d: %s", i, r.Fail)
					if os.Getenv("VERIF_WIRE_ALL") == "2" {
						t.Logf("%s", cs[i].Spec.Whole())
					}
				}
				continue
			}
			if r.Fail != "" {
				c, fail := cs[i], r
				deadline := time.Now().Add(time.Duration(vt.N(100, 600)) * time.Second)
				fails := func(cs []*Case) ([]string, error) {
					out := make([]string, len(cs))
					var live []*Case
					var at []int
					for j, c := range cs {
						if use(c.Spec) {
							live = append(live, c)
							at = append(at, j)
						}
					}
					if time.Now().After(deadline) || len(live) == 0 {
						return out, nil
					}
					rs, err := run(live, o)
					if err != nil {
						return nil, err
					}
					for j, r := range rs {
						out[at[j]] = r.Fail
						if r.Fail != "" {
							fail = r
							break
						}
					}
					return out, nil
				}
				c, what := shrink(c, r.Fail, fails, 12)
				rep.Fail(t, map[string]interface{}{"definition": c.Spec.Whole(), "call": fail.Case}, "%s\ndefinition:\n%s", what, c.Spec.Whole())
			}
			for _, key := range r.Keys {
				rep.Case(true, key, nil)
			}
			for j := r.Evals - len(r.Keys); j > 0; j-- {
				rep.Case(false, "", nil)
			}
			for c, n := range r.Classes {
				for ; n > 0; n-- {
					rep.Class(c)
				}
			}
			for _, s := range r.Samples {
				rep.Sample(map[string]interface{}{"call": s, "definition": cs[i].Spec.Whole()})
			}
			rep.Add("services", 1)
		}
	}
}

func anyRpc(s *pspec.Spec) bool { return len(unary(s)) > 0 }

func anyBound(s *pspec.Spec) bool {
	for _, r := range unary(s) {
		if len(r.Bindings) > 0 {
			return true
		}
	}
	return false
}
