package drvtest

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/nats-io/nats.go"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

func init() {
	modes["C18"] = func(t *rapid.T, e *env) { exchange(t, e, "http") }
	modes["C24"] = func(t *rapid.T, e *env) { exchange(t, e, "grpc") }
	modes["C25"] = func(t *rapid.T, e *env) {
		if rapid.IntRange(0, 4).Draw(t, "garbage") == 0 {
			garbage(t, e)
			return
		}
		exchange(t, e, "nats")
	}
}

// pending is one call of an exchange.
type pending struct {
	rpc     *Rpc
	in, out proto.Message
	err     error
	served  int
	got     proto.Message
	gotErr  error
}

type call struct{ Rpc, Request, Response, Error string }

func calls(ps []*pending) (out []call) {
	for _, p := range ps {
		c := call{Rpc: p.rpc.Go, Request: show(p.in)}
		if p.err != nil {
			c.Error = p.err.Error()
		} else {
			c.Response = show(p.out)
		}
		out = append(out, c)
	}
	return
}

// exchange makes some concurrent calls through a generated client; every one
// must reach its own rpc with its own request and be given its own answer.
func exchange(t *rapid.T, e *env, transport string) {
	rpcs := e.s.Rpcs
	if transport == "http" {
		rpcs = e.s.bound()
	}
	var ps []*pending
	n := rapid.SampledFrom([]int{1, 1, 1, 2, 4}).Draw(t, "calls")
next:
	for len(ps) < n {
		n--
		r := rapid.SampledFrom(rpcs).Draw(t, "rpc")
		var at func(protoreflect.FieldDescriptor) string
		if transport == "http" {
			at = r.at
		}
		m := e.tg.Method(r.Go)
		p := &pending{rpc: r, in: newMessage(t, m.In, at)}
		if transport != "http" && rapid.IntRange(0, 4).Draw(t, "fails") == 0 {
			msg := rapid.SampledFrom([]string{"no", "", "with \"quotes\" and \n lines", "ä", "{\"a\":1}", "rpc error"}).Draw(t, "err")
			p.err = errors.New(msg)
			if transport == "grpc" && rapid.Bool().Draw(t, "status") {
				p.err = status.Error(codes.Code(rapid.IntRange(1, 16).Draw(t, "code")), msg)
			}
		} else {
			p.out = newMessage(t, m.Out, nil)
		}
		for _, q := range ps {
			if q.rpc == p.rpc && proto.Equal(q.in, p.in) {
				continue next
			}
		}
		n++
		ps = append(ps, p)
	}
	var mu sync.Mutex
	var odd []string
	e.svc.Set(func(_ context.Context, method string, in proto.Message) (proto.Message, error) {
		mu.Lock()
		defer mu.Unlock()
		for _, p := range ps {
			if p.rpc.Go == method && proto.Equal(p.in, in) {
				p.served++
				if p.err != nil {
					return nil, p.err
				}
				return proto.Clone(p.out), nil
			}
		}
		odd = append(odd, fmt.Sprintf("%s was called with %s", method, show(in)))
		return nil, errors.New("unexpected call")
	})
	defer e.svc.Set(nil)
	if transport == "http" {
		e.bare = rapid.Bool().Draw(t, "bare")
		e.host = rapid.SampledFrom([]string{"", "", "", "gateway:8080", "httpbin:8080", "http-gateway.local:80", "http:5050", "https.example:1", "localhttp", "http2"}).Draw(t, "host")
		defer func() { e.bare, e.host = false, "" }()
	}
	c := e.client(transport, nil, nil)
	var wg sync.WaitGroup
	for _, p := range ps {
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					p.gotErr = fmt.Errorf("panic: %v", x)
				}
			}()
			ctx, cancel := context.WithTimeout(context.Background(), callTimeout)
			defer cancel()
			p.got, p.gotErr = c(ctx, p.rpc.Go, proto.Clone(p.in))
		}()
	}
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	cs := calls(ps)
	nt := false
	classes := []string{transport + fmt.Sprintf(" calls=%d", len(ps))}
	for _, p := range ps {
		nt = nt || interesting(p.in)
		if p.err != nil {
			classes = append(classes, transport+" error")
		}
		if p.out != nil && interesting(p.out) {
			classes = append(classes, transport+" response")
		}
		if transport == "http" {
			p.in.ProtoReflect().Range(func(fd protoreflect.FieldDescriptor, _ protoreflect.Value) bool {
				if l := p.rpc.at(fd); l != "body" {
					classes = append(classes, l+" "+fieldKind(fd))
				}
				return true
			})
		}
	}
	e.res.note(nt, cs, classes...)
	for i, p := range ps {
		what := ""
		switch {
		case p.served == 0 && len(odd) > 0:
			what = fmt.Sprintf("the service did not receive the request; instead %s (client: %v)", strings.Join(odd, "; "), p.gotErr)
		case p.served == 0:
			what = fmt.Sprintf("the service was not called; the client got %s, %v", show(p.got), p.gotErr)
		case p.served > 1:
			what = fmt.Sprintf("the service was called %d times", p.served)
		case p.err == nil && p.gotErr != nil:
			what = fmt.Sprintf("the service answered, the client got the error %v", p.gotErr)
		case p.err == nil && !proto.Equal(p.got, p.out):
			what = fmt.Sprintf("the client got the response %s", show(p.got))
		case p.err != nil && p.gotErr == nil:
			what = fmt.Sprintf("the service returned an error, the client got the response %s", show(p.got))
		case p.err != nil && transport == "grpc":
			w, g := status.Convert(p.err), status.Convert(p.gotErr)
			if w.Code() != g.Code() || w.Message() != g.Message() {
				what = fmt.Sprintf("the client got the error %v", p.gotErr)
			}
		case p.err != nil && !strings.Contains(p.gotErr.Error(), p.err.Error()):
			what = fmt.Sprintf("the client got the error %v", p.gotErr)
		}
		if what != "" {
			e.res.fail(t, cs, "%s: call %d of %d, rpc %s, request %s, response %s, error %q: %s", transport, i+1, len(ps), p.rpc.Go, cs[i].Request, cs[i].Response, cs[i].Error, what)
		}
	}
	if len(odd) > 0 {
		e.res.fail(t, cs, "%s: %s", transport, strings.Join(odd, "; "))
	}
}

// garbage sends a message that is not the request's JSON to an rpc over NATS.
func garbage(t *rapid.T, e *env) {
	r := rapid.SampledFrom(e.s.Rpcs).Draw(t, "rpc")
	m := e.tg.Method(r.Go)
	// the subject is what the client publishes to
	var mu sync.Mutex
	var subject string
	calls := 0
	sub, err := e.nc.Subscribe(">", func(m *nats.Msg) {
		mu.Lock()
		if m.Reply != "" && subject == "" {
			subject = m.Subject
		}
		mu.Unlock()
	})
	if err != nil {
		panic(err)
	}
	e.svc.Set(func(_ context.Context, method string, in proto.Message) (proto.Message, error) {
		mu.Lock()
		calls++
		mu.Unlock()
		return e.tg.Method(method).Out(), nil
	})
	defer e.svc.Set(nil)
	valid := func() {
		ctx, cancel := context.WithTimeout(context.Background(), callTimeout)
		defer cancel()
		if _, err := e.client("nats", nil, nil)(ctx, r.Go, m.In()); err != nil {
			e.res.fail(t, map[string]string{"rpc": r.Go}, "nats: rpc %s, empty request: %v", r.Go, err)
		}
	}
	valid()
	for i := 0; ; i++ {
		mu.Lock()
		ok := subject != ""
		mu.Unlock()
		if ok {
			break
		}
		if i > 2000 {
			panic("the request was not seen")
		}
		time.Sleep(time.Millisecond)
	}
	sub.Unsubscribe()
	good := jsonMessage(t, newMessage(t, m.In, nil).ProtoReflect(), nil)
	var data string
	switch k := rapid.IntRange(0, 3).Draw(t, "kind"); k {
	case 0:
		data = rapid.SampledFrom([]string{"", "x", "{", "[]", "1", "null x", "\"s\"", "{a:1}", "{}{}", "\xff"}).Draw(t, "text")
	case 1:
		data = good[:rapid.IntRange(1, len(good)-1).Draw(t, "cut")]
	case 2:
		data = good + rapid.SampledFrom([]string{"x", "{}", "}", ",", "\x00"}).Draw(t, "trail")
	default:
		data = "[" + good + "]"
	}
	c := map[string]string{"rpc": r.Go, "message": short(data)}
	e.res.note(true, c, "nats garbage")
	rep, err := e.nc.Request(subject, []byte(data), callTimeout)
	mu.Lock()
	n := calls
	mu.Unlock()
	switch {
	case n != 1:
		e.res.fail(t, c, "nats: the message %.300q for rpc %s, which is not a request, reached the service", data, r.Go)
	case err != nil:
		e.res.fail(t, c, "nats: the message %.300q for rpc %s was not answered: %v", data, r.Go, err)
	case len(rep.Data) == 0:
		e.res.fail(t, c, "nats: the message %.300q for rpc %s was answered with nothing", data, r.Go)
	}
	valid()
}

func fieldKind(fd protoreflect.FieldDescriptor) string {
	s := fd.Kind().String()
	if fd.IsList() {
		s = "repeated " + s
	}
	if fd.HasOptionalKeyword() {
		s = "optional " + s
	}
	if o := fd.ContainingOneof(); o != nil && !o.IsSynthetic() {
		s = "oneof " + s
	}
	return s
}
