package drvtest

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

func init() {
	modes["C36"] = cancelled
	modes["C37"] = together
}

// heldCall is a call that the service holds until its context ends.
type heldCall struct {
	Transport, Rpc, Request, How string
	AfterMs                      int
}

// cancelled makes a call that its caller gives up. The caller is told at once,
// the service hears of it (over HTTP and gRPC, which can say so), calls at the
// same time are not disturbed and the server goes on.
func cancelled(t *rapid.T, e *env) {
	transports := []string{"grpc", "nats", "direct"}
	if len(e.s.bound()) > 0 {
		transports = append(transports, "http", "http")
	}
	tr := rapid.SampledFrom(transports).Draw(t, "transport")
	rpcs := e.s.Rpcs
	if tr == "http" {
		rpcs = e.s.bound()
	}
	r := rapid.SampledFrom(rpcs).Draw(t, "rpc")
	m := e.tg.Method(r.Go)
	var at func(protoreflect.FieldDescriptor) string
	if tr == "http" {
		at = r.at
	}
	in := newMessage(t, m.In, at)
	how := rapid.SampledFrom([]string{"cancelled", "cancelled", "deadline", "deadline", "cancelled before", "deadline before"}).Draw(t, "how")
	ms := rapid.SampledFrom([]int{0, 1, 3, 10, 30}).Draw(t, "ms")
	hc := heldCall{tr, r.Go, show(in), how, ms}
	limit := 10 * time.Second
	if e.res.Fail != "" {
		limit = time.Second // smaller cases of the failure are being looked for
	}

	release := make(chan bool)
	arrived := make(chan bool, 10)
	type end struct {
		err      error
		deadline bool
	}
	ended := make(chan end, 10)
	e.svc.Set(func(ctx context.Context, method string, got proto.Message) (proto.Message, error) {
		_, dl := ctx.Deadline()
		arrived <- true
		select {
		case <-ctx.Done():
			ended <- end{ctx.Err(), dl}
			return nil, ctx.Err()
		case <-release:
			ended <- end{nil, dl}
			return nil, errors.New("released")
		}
	})
	defer e.svc.Set(nil)
	var once sync.Once
	free := func() { once.Do(func() { close(release) }) }
	defer free()
	var ctx context.Context
	var cancel context.CancelFunc
	switch how {
	case "deadline":
		ctx, cancel = context.WithTimeout(context.Background(), time.Duration(5+ms)*time.Millisecond)
	case "deadline before":
		ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
	default:
		ctx, cancel = context.WithCancel(context.Background())
	}
	defer cancel()
	if how == "cancelled before" {
		cancel()
	}
	type answer struct {
		out proto.Message
		err error
	}
	c := e.client(tr, nil, nil)
	answered := make(chan answer, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				answered <- answer{nil, fmt.Errorf("panic: %v", x)}
			}
		}()
		out, err := c(ctx, r.Go, proto.Clone(in))
		answered <- answer{out, err}
	}()
	reached := false
	if how == "cancelled" {
		select {
		case <-arrived:
			reached = true
			arrived <- true
		case a := <-answered:
			e.res.fail(t, hc, "%s: rpc %s, request %s: the service holds the call, but the client got %s, %v", tr, r.Go, hc.Request, show(a.out), a.err)
		case <-time.After(limit):
			e.res.fail(t, hc, "%s: rpc %s, request %s: the call does not reach the service", tr, r.Go, hc.Request)
		}
		time.Sleep(time.Duration(ms) * time.Millisecond)
		cancel()
	}
	what := fmt.Sprintf("%s: rpc %s, request %s, %s: ", tr, r.Go, hc.Request, how)
	var a answer
	select {
	case a = <-answered:
	case <-time.After(limit):
		e.res.fail(t, hc, "%sthe client still waits %v after its context ended", what, limit)
	}
	e.res.note(true, hc, tr+" "+how)
	if a.err == nil {
		e.res.fail(t, hc, "%sthe client got the response %s", what, show(a.out))
	}
	want, code := context.Canceled, codes.Canceled
	if strings.HasPrefix(how, "deadline") {
		want, code = context.DeadlineExceeded, codes.DeadlineExceeded
	}
	if !errors.Is(a.err, want) && status.Code(a.err) != code && !strings.Contains(a.err.Error(), want.Error()) {
		e.res.fail(t, hc, "%sthe client got the error %v", what, a.err)
	}
	select {
	case <-arrived:
		reached = true
	default:
	}
	if reached && tr != "nats" {
		select {
		case x := <-ended:
			if x.err == nil {
				e.res.fail(t, hc, "%sthe service was not told", what)
			}
			if tr != "http" && how == "deadline" && !x.deadline {
				e.res.fail(t, hc, "%sthe service was not told the deadline", what)
			}
		case <-time.After(limit):
			e.res.fail(t, hc, "%sthe service's context has not ended %v later", what, limit)
		}
	}
	free() // over NATS the service is still busy
	e.svc.Set(func(_ context.Context, method string, _ proto.Message) (proto.Message, error) {
		return e.tg.Method(method).Out(), nil
	})
	ctx2, cancel2 := context.WithTimeout(context.Background(), limit)
	defer cancel2()
	// A request that was given up before may still arrive; only the answer
	// counts.
	if _, err := c(ctx2, r.Go, proto.Clone(in)); err != nil {
		e.res.fail(t, hc, "%sthe next call through the client fails: %v", what, err)
	}
}

// together makes many calls at the same time over all transports, through
// clients that the callers share. The driver is built with the race detector.
func together(t *rapid.T, e *env) {
	type one struct {
		tr      string
		r       *Rpc
		in, out proto.Message
		want    proto.Message
		err     error
		got     proto.Message
		gotErr  error
	}
	transports := []string{"grpc", "nats", "direct"}
	if len(e.s.bound()) > 0 {
		transports = append(transports, "http", "http")
	}
	clients := map[string]func(context.Context, string, proto.Message) (proto.Message, error){}
	for _, tr := range transports {
		clients[tr] = e.client(tr, nil, nil)
	}
	var cs []*one
	var show1 []map[string]string
	for n := rapid.IntRange(2, 12).Draw(t, "calls"); len(cs) < n; {
		x := &one{tr: rapid.SampledFrom(transports).Draw(t, "transport")}
		rpcs := e.s.Rpcs
		var at func(protoreflect.FieldDescriptor) string
		if x.tr == "http" {
			rpcs = e.s.bound()
		}
		x.r = rapid.SampledFrom(rpcs).Draw(t, "rpc")
		if x.tr == "http" {
			at = x.r.at
		}
		m := e.tg.Method(x.r.Go)
		x.in, x.out = newMessage(t, m.In, at), newMessage(t, m.Out, nil)
		if rapid.IntRange(0, 3).Draw(t, "fails") == 0 {
			x.err = fmt.Errorf("no %d", len(cs))
		}
		// calls with equal requests have equal answers
		for _, y := range cs {
			if y.r == x.r && proto.Equal(y.in, x.in) {
				x.out, x.err = y.out, y.err
			}
		}
		cs = append(cs, x)
		show1 = append(show1, map[string]string{"transport": x.tr, "rpc": x.r.Go, "request": show(x.in), "response": show(x.out), "error": fmt.Sprint(x.err)})
	}
	var mu sync.Mutex
	odd := ""
	e.svc.Set(func(_ context.Context, method string, in proto.Message) (proto.Message, error) {
		for _, x := range cs {
			if x.r.Go == method && proto.Equal(x.in, in) {
				if x.err != nil {
					return nil, x.err
				}
				return proto.Clone(x.out), nil
			}
		}
		mu.Lock()
		odd = fmt.Sprintf("%s was called with %s", method, show(in))
		mu.Unlock()
		return nil, errors.New("unexpected call")
	})
	defer e.svc.Set(nil)
	var wg sync.WaitGroup
	start := make(chan bool)
	for _, x := range cs {
		x := x
		wg.Add(1)
		in := proto.Clone(x.in)
		go func() {
			defer wg.Done()
			defer func() {
				if y := recover(); y != nil {
					x.gotErr = fmt.Errorf("panic: %v", y)
				}
			}()
			ctx, cancel := context.WithTimeout(context.Background(), 3*callTimeout)
			defer cancel()
			<-start
			x.got, x.gotErr = clients[x.tr](ctx, x.r.Go, in)
		}()
	}
	close(start)
	wg.Wait()
	e.res.note(len(cs) > 3, show1, fmt.Sprintf("calls at a time: %d", len(cs)))
	mu.Lock()
	defer mu.Unlock()
	if odd != "" {
		e.res.fail(t, show1, "%d calls at a time: %s", len(cs), odd)
	}
	for i, x := range cs {
		switch {
		case x.err == nil && x.gotErr != nil:
			e.res.fail(t, show1, "%d calls at a time: call %d (%s, rpc %s) got the error %v", len(cs), i+1, x.tr, x.r.Go, x.gotErr)
		case x.err == nil && !proto.Equal(x.got, x.out):
			e.res.fail(t, show1, "%d calls at a time: call %d (%s, rpc %s) got the response %s, the service returned %s", len(cs), i+1, x.tr, x.r.Go, show(x.got), show(x.out))
		case x.err != nil && (x.gotErr == nil || !strings.Contains(x.gotErr.Error(), x.err.Error())):
			e.res.fail(t, show1, "%d calls at a time: call %d (%s, rpc %s) got %s, %v, the service returned the error %v", len(cs), i+1, x.tr, x.r.Go, show(x.got), x.gotErr, x.err)
		}
	}
}
