package wire

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/vt"
)

// port is an address of a drawn case: a distinct number for the case, and how
// it is written.
type addr struct {
	n    int
	form string // "127.0.0.1", "", "0.0.0.0"; "PORT" is a port alone
}

// opt is a flag or an environment variable of a case.
type opt struct {
	flag  bool
	name  string
	val   string // if addr is nil
	addr  *addr
	style int // how the flag is written
}

func (o *opt) value(port []int) string {
	if o.addr == nil {
		return o.val
	}
	if o.addr.form == "PORT" {
		return fmt.Sprint(port[o.addr.n])
	}
	return fmt.Sprintf("%s:%d", o.addr.form, port[o.addr.n])
}

type settings struct{ opts []*opt }

func drawSettings(r *rand.Rand) *settings {
	s := &settings{}
	n := 0
	mk := func(form string) *addr { n++; return &addr{n - 1, form} }
	form := func() string { return []string{"127.0.0.1", "127.0.0.1", "127.0.0.1", "", "0.0.0.0"}[r.Intn(5)] }
	// a case leans towards few or many settings
	rare := r.Intn(3)
	some := func(in int) bool { return r.Intn(in+rare) == 0 }
	for _, x := range []struct{ flag, env string }{{"http.addr", "HTTP_ADDR"}, {"grpc.addr", "GRPC_ADDR"}, {"nats.addr", "NATS_ADDR"}, {"debug.addr", "DEBUG_ADDR"}} {
		f := form
		if x.flag == "nats.addr" {
			f = func() string { return []string{"127.0.0.1", "nats://127.0.0.1"}[r.Intn(2)] }
		}
		if some(2) {
			s.opts = append(s.opts, &opt{name: x.env, addr: mk(f())})
		} else if some(4) {
			s.opts = append(s.opts, &opt{name: x.env})
		}
		for i := 0; i < 2; i++ {
			if some(2 + 2*i) {
				s.opts = append(s.opts, &opt{flag: true, name: x.flag, addr: mk(f()), style: r.Intn(4)})
			} else if x.flag != "debug.addr" && some(6) {
				// an empty debug address would be port 80
				s.opts = append(s.opts, &opt{flag: true, name: x.flag, style: r.Intn(4)})
			}
		}
	}
	if some(2) {
		s.opts = append(s.opts, &opt{name: "PORT", addr: mk("PORT")})
	} else if some(4) {
		s.opts = append(s.opts, &opt{name: "PORT"})
	}
	if some(2) {
		s.opts = append(s.opts, &opt{name: "DEBUG", val: []string{"true", "TRUE", "True", "tRuE", "false", "False", "1", "yes", "", "0", "on", "t", "tru", "true ", "truest"}[r.Intn(15)]})
	}
	for i := 0; i < 2; i++ {
		if some(2 + 2*i) {
			s.opts = append(s.opts, &opt{flag: true, name: "debug", val: []string{"true", "false", "1", "0", "t", "f", "T", "F", "TRUE", "FALSE", "True", "False"}[r.Intn(12)], style: r.Intn(4)})
		}
	}
	r.Shuffle(len(s.opts), func(i, j int) { s.opts[i], s.opts[j] = s.opts[j], s.opts[i] })
	return s
}

func (s *settings) render(port []int) (args, env []string) {
	for _, o := range s.opts {
		v := o.value(port)
		if !o.flag {
			env = append(env, o.name+"="+v)
			continue
		}
		switch {
		case o.name == "debug" && o.style == 2 && strings.ContainsAny(v[:1], "t1T"):
			args = append(args, "-debug")
		case o.style == 0 && o.name != "debug":
			args = append(args, "-"+o.name, v)
		case o.style == 1 && o.name != "debug":
			args = append(args, "--"+o.name, v)
		case o.style == 3:
			args = append(args, "--"+o.name+"="+v)
		default:
			args = append(args, "-"+o.name+"="+v)
		}
	}
	return
}

// effective is the reference model: flag, else environment, else default.
func (s *settings) effective(port []int) map[string]string {
	env := map[string]string{}
	for _, o := range s.opts {
		if !o.flag {
			env[o.name] = o.value(port)
		}
	}
	m := map[string]string{"http": env["HTTP_ADDR"], "grpc": env["GRPC_ADDR"], "nats": env["NATS_ADDR"], "debug.addr": env["DEBUG_ADDR"], "debug": fmt.Sprint(strings.EqualFold(env["DEBUG"], "true"))}
	if m["http"] == "" && env["PORT"] != "" {
		m["http"] = ":" + env["PORT"]
	}
	if m["debug.addr"] == "" {
		m["debug.addr"] = ":5060"
	}
	for _, o := range s.opts {
		if !o.flag {
			continue
		}
		v := o.value(port)
		switch o.name {
		case "debug":
			m["debug"] = fmt.Sprint(strings.ContainsAny(v[:1], "t1T"))
		case "debug.addr":
			m["debug.addr"] = v
		default:
			m[strings.TrimSuffix(o.name, ".addr")] = v
		}
	}
	return m
}

var port5060 sync.RWMutex

// spec's services that C30 runs.
type runnable struct {
	b      *built
	server string
	client string
}

// try runs one case; what is the violation, if any. again asks for a second
// opinion with other ports.
func (s *settings) try(x *runnable, limit time.Duration) (what string, again bool, err error) {
	port := make([]int, 16)
	for _, o := range s.opts {
		if o.addr != nil {
			port[o.addr.n] = freePort()
		}
	}
	eff := s.effective(port)
	want := map[string]string{} // address → kind
	at := func(a string) string { return "127.0.0.1" + a[strings.LastIndex(a, ":"):] }
	tr := x.b.c.Transport
	if eff["http"] != "" {
		want[at(eff["http"])] = "http"
	}
	if eff["grpc"] != "" && tr != "nats" {
		want[at(eff["grpc"])] = "grpc"
	}
	if eff["debug"] == "true" {
		want[at(eff["debug.addr"])] = "debug"
	}
	if _, ok := want["127.0.0.1:5060"]; ok {
		port5060.Lock()
		defer port5060.Unlock()
		if !portFree(5060) {
			return "", false, nil
		}
	}
	brokers := map[string]*broker{}
	for _, o := range s.opts {
		if (o.name == "nats.addr" || o.name == "NATS_ADDR") && o.addr != nil {
			a := at(o.value(port))
			b, err := newBroker(a)
			if err != nil {
				return "the port was taken: " + err.Error(), true, nil
			}
			defer b.close()
			brokers[a] = b
		}
	}
	args, env := s.render(port)
	p, err := start(x.server, args, env)
	if err != nil {
		return "", false, err
	}
	defer p.kill()
	describe := func() string {
		return fmt.Sprintf("\nservice generated with -t=%s\nflags: %q\nenvironment: %q\nexpected settings: %v\noutput:\n%s", tr, args, env, eff, tail(p.output(), 1500))
	}
	deadline := time.Now().Add(limit)
	for {
		missing := ""
		for a, k := range want {
			if got := kindAt(a); got != k {
				missing = fmt.Sprintf("expected the %s server at %s, found %q", k, a, got)
			}
		}
		for a, b := range brokers {
			if a == at("x:"+strings.TrimPrefix(eff["nats"], "nats://")) && tr != "grpc" && b.connections() == 0 {
				missing = fmt.Sprintf("expected a connection to NATS at %s", a)
			}
		}
		if p.ended() {
			return "the server ended: " + fmt.Sprint(p.err) + describe(), true, nil
		}
		if missing == "" {
			break
		}
		if time.Now().After(deadline) {
			return missing + describe(), true, nil
		}
		time.Sleep(5 * time.Millisecond)
	}
	if len(want) == 0 {
		time.Sleep(60 * time.Millisecond)
	}
	// nothing else, and wildcard addresses on all interfaces
	for _, o := range s.opts {
		if o.addr == nil || o.name == "nats.addr" || o.name == "NATS_ADDR" {
			continue
		}
		a := at(":" + fmt.Sprint(port[o.addr.n]))
		if k := kindAt(a); k != want[a] {
			return fmt.Sprintf("expected %q at %s, found %q", want[a], a, k) + describe(), true, nil
		}
		if want[a] != "" {
			all := o.addr.form != "127.0.0.1"
			if k := kindAt("127.0.0.2" + a[len("127.0.0.1"):]); (k != "") != all {
				return fmt.Sprintf("%s: listens on another interface too: %v, expected %v", a, k != "", all) + describe(), true, nil
			}
		}
	}
	for a, b := range brokers {
		if n := b.connections(); n > 0 && (a != at("x:"+strings.TrimPrefix(eff["nats"], "nats://")) || tr == "grpc") {
			return fmt.Sprintf("unexpected connection to NATS at %s", a) + describe(), true, nil
		}
	}
	if p.ended() {
		return "the server ended: " + fmt.Sprint(p.err) + describe(), true, nil
	}
	return "", false, nil
}

// judge is try with a second and third opinion.
func (s *settings) judge(x *runnable, limit time.Duration) (string, error) {
	for i := 0; ; i++ {
		what, again, err := s.try(x, limit)
		if err != nil {
			return "", err
		}
		if i == 9 && strings.HasPrefix(what, "the port was taken") {
			return "", vt.Infra{Err: fmt.Errorf("%s", what)}
		}
		if !again || i >= 2 && !strings.HasPrefix(what, "the port was taken") {
			return what, nil
		}
	}
}

func (s *settings) shrink(x *runnable, what string) (*settings, string) {
	for i := 0; i < len(s.opts); {
		c := &settings{append(append([]*opt{}, s.opts[:i]...), s.opts[i+1:]...)}
		if w, err := c.judge(x, 4*time.Second); err == nil && w != "" {
			s, what = c, w
		} else {
			i++
		}
	}
	return s, what
}

// liveCases draws definitions to be run as commands.
func liveCases(n int, client bool, use func(*pspec.Spec) bool) (out []*Case) {
	gen := pspec.Gen(runSpec)
	base := int(vt.RapidSeed()%1000003)*11 + 5
	for k := 0; len(out) < n; k++ {
		s := gen.Example(base + k)
		if use(s) {
			out = append(out, &Case{Spec: s, Transport: []string{"all", "all", "grpc", "nats"}[len(out)%4], Client: client})
		}
	}
	return
}

func TestC30(t *testing.T) {
	rep := vt.Start(t, "C30", "random definitions are generated and their server commands are built and run unmodified as processes on loopback ports, with random combinations of flags (in every spelling, repeated, empty) and environment variables; which servers listen where, and which NATS broker (a stand-in over TCP) is connected to, is compared with a reference model of the precedence; non-trivial: at least one setting given in two ways")
	w, err := newWorkspace()
	if err != nil {
		rep.FailErr(t, nil, err)
	}
	defer w.close()
	w.add(liveCases(vt.N(6, 16), false, anyBound))
	xs := make([]*runnable, len(w.bs))
	i, err := vt.Parallel(len(w.bs), func(i int) (err error) {
		x := &runnable{b: w.bs[i]}
		if x.b.err != nil {
			return x.b.err
		}
		x.server, x.client, err = w.commands(x.b)
		xs[i] = x
		return err
	})
	if err != nil {
		rep.FailErr(t, w.bs[i].c.describe(), err)
	}
	n := vt.N(1600, 20000)
	cases := make([]*settings, n)
	whats := make([]string, n)
	r := rand.New(rand.NewSource(int64(vt.RapidSeed())))
	for i := range cases {
		cases[i] = drawSettings(r)
	}
	var mu sync.Mutex
	failed := false
	if _, err := vt.Parallel(n, func(i int) error {
		mu.Lock()
		stop := failed
		mu.Unlock()
		if stop {
			return nil
		}
		what, err := cases[i].judge(xs[i%len(xs)], 15*time.Second)
		whats[i] = what
		if what != "" {
			mu.Lock()
			failed = true
			mu.Unlock()
		}
		return err
	}); err != nil {
		rep.FailErr(t, nil, err)
	}
	port := make([]int, 16)
	for i := range port {
		port[i] = 1000 + i
	}
	for i, s := range cases {
		if whats[i] != "" {
			s, what := s.shrink(xs[i%len(xs)], whats[i])
			args, env := s.render(port)
			rep.Fail(t, map[string]interface{}{"definition": xs[i%len(xs)].b.c.describe(), "flags": args, "environment": env}, "%s", what)
		}
		args, env := s.render(port)
		ways := map[string]int{}
		twice := false
		for _, o := range s.opts {
			k := strings.ToLower(strings.SplitN(strings.TrimSuffix(strings.ReplaceAll(o.name, ".", "_"), "_ADDR"), "_", 2)[0])
			if k == "port" {
				k = "http"
			}
			if k == "debug" && strings.Contains(strings.ToLower(o.name), "addr") {
				k = "debug.addr"
			}
			ways[k]++
			twice = twice || ways[k] > 1
			kind := "env "
			if o.flag {
				kind = "flag "
			}
			if o.addr == nil && o.val == "" {
				rep.Class(kind + o.name + " empty")
			} else {
				rep.Class(kind + o.name)
			}
		}
		rep.Case(twice, fmt.Sprint(args, env, i%len(xs)), func() interface{} { return map[string]interface{}{"flags": args, "environment": env} })
	}
}
