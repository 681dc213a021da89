package drvtest

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/go-kit/kit/transport"
	grpctransport "github.com/go-kit/kit/transport/grpc"
	httptransport "github.com/go-kit/kit/transport/http"
	natstransport "github.com/go-kit/kit/transport/nats"
	"github.com/nats-io/nats.go"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"example.com/ws/drv"
)

func init() {
	modes["C41"] = options
}

// optKey is a context value that a before function sets.
type optKey string

// events is what the options' functions did during a call.
type events struct {
	mu             sync.Mutex
	server, client []string
	status         int
	header         http.Header
	body           string // of an HTTP response or a NATS reply
	md             metadata.MD
	missing        string // what the service's context does not have
}

func (v *events) s(a ...interface{}) {
	v.mu.Lock()
	v.server = append(v.server, fmt.Sprint(a...))
	v.mu.Unlock()
}

func (v *events) c(a ...interface{}) {
	v.mu.Lock()
	v.client = append(v.client, fmt.Sprint(a...))
	v.mu.Unlock()
}

// side is the options of a server or a client, in order: before, after,
// finalizer, encoder (of errors), handler (of errors), type (of the content),
// doer (an HTTP client of one's own).
type side []string

func (s side) has(k string) bool {
	for _, x := range s {
		if x == k {
			return true
		}
	}
	return false
}

// of lists the functions of a kind that run in a call.
func (s side) of(k string) (out []string) {
	for i, x := range s {
		if x == k {
			out = append(out, fmt.Sprintf("%s%d", k, i))
		}
	}
	return
}

func drawSide(t *rapid.T, label string, many []string, one ...string) side {
	var out side
	for _, k := range rapid.SliceOfN(rapid.SampledFrom(append(append([]string{}, many...), one...)), 0, 5).Draw(t, label) {
		single := false
		for _, x := range one {
			single = single || x == k
		}
		if single && out.has(k) {
			continue // go-kit keeps the last one
		}
		out = append(out, k)
	}
	return out
}

const (
	vfType   = "application/vnd.vf+json"
	vfStatus = 418
	vfBody   = "an error of the encoder's"
)

type doer struct{ v func() *events }

func (d doer) Do(r *http.Request) (*http.Response, error) {
	d.v().c("doer")
	return http.DefaultClient.Do(r)
}

// options starts servers and clients with random options and calls every rpc.
// Each of the options has its effect on every call, in the order given, and
// what servers do without options is still done.
func options(t *rapid.T, e *env) {
	var v *events // of the call at hand
	var vmu sync.Mutex
	cur := func() *events {
		vmu.Lock()
		defer vmu.Unlock()
		return v
	}
	hs := drawSide(t, "httpServer", []string{"before", "before", "after", "after", "finalizer"}, "encoder", "handler", "type")
	gs := drawSide(t, "grpcServer", []string{"before", "before", "after", "after", "finalizer"}, "handler")
	ns := drawSide(t, "natsServer", []string{"before", "before", "after", "after"}, "finalizer", "encoder", "handler")
	hc := drawSide(t, "httpClient", []string{"before", "before", "after", "after", "finalizer"}, "doer")
	gc := drawSide(t, "grpcClient", []string{"before", "before", "after", "after", "finalizer"})
	nc := drawSide(t, "natsClient", []string{"before", "before", "after", "after"}, "finalizer")
	info := map[string]interface{}{"HTTP server": hs, "gRPC server": gs, "NATS server": ns, "HTTP client": hc, "gRPC client": gc, "NATS client": nc}

	e.httpOpts, e.grpcOpts, e.natsOpts = nil, nil, nil
	handler := transport.ErrorHandlerFunc(func(_ context.Context, err error) { cur().s("handler: ", err) })
	for i, k := range hs {
		id := fmt.Sprintf("%s%d", k, i)
		switch k {
		case "before":
			e.httpOpts = append(e.httpOpts, httptransport.ServerBefore(func(ctx context.Context, _ *http.Request) context.Context {
				cur().s(id)
				return context.WithValue(ctx, optKey(id), id)
			}))
		case "after":
			e.httpOpts = append(e.httpOpts, httptransport.ServerAfter(func(ctx context.Context, w http.ResponseWriter) context.Context {
				cur().s(id)
				w.Header().Set("Vf-"+id, id)
				return ctx
			}))
		case "finalizer":
			e.httpOpts = append(e.httpOpts, httptransport.ServerFinalizer(func(_ context.Context, code int, _ *http.Request) { cur().s(id, " ", code) }))
		case "encoder":
			e.httpOpts = append(e.httpOpts, httptransport.ServerErrorEncoder(func(_ context.Context, err error, w http.ResponseWriter) {
				cur().s("encoder: ", err)
				w.Header().Set("Content-Type", vfType)
				w.WriteHeader(vfStatus)
				io.WriteString(w, vfBody)
			}))
		case "handler":
			e.httpOpts = append(e.httpOpts, httptransport.ServerErrorHandler(handler))
		case "type":
			e.httpOpts = append(e.httpOpts, httptransport.ServerAfter(httptransport.SetContentType(vfType)))
		}
	}
	for i, k := range gs {
		id := fmt.Sprintf("%s%d", k, i)
		switch k {
		case "before":
			e.grpcOpts = append(e.grpcOpts, grpctransport.ServerBefore(func(ctx context.Context, _ metadata.MD) context.Context {
				cur().s(id)
				return context.WithValue(ctx, optKey(id), id)
			}))
		case "after":
			e.grpcOpts = append(e.grpcOpts, grpctransport.ServerAfter(func(ctx context.Context, h, tr *metadata.MD) context.Context {
				cur().s(id)
				if *h == nil {
					*h = metadata.MD{}
				}
				(*h)["vf-"+id] = []string{id}
				return ctx
			}))
		case "finalizer":
			e.grpcOpts = append(e.grpcOpts, grpctransport.ServerFinalizer(func(_ context.Context, err error) { cur().s(id, " ", err) }))
		case "handler":
			e.grpcOpts = append(e.grpcOpts, grpctransport.ServerErrorHandler(handler))
		}
	}
	for i, k := range ns {
		id := fmt.Sprintf("%s%d", k, i)
		switch k {
		case "before":
			e.natsOpts = append(e.natsOpts, natstransport.SubscriberBefore(func(ctx context.Context, _ *nats.Msg) context.Context {
				cur().s(id)
				return context.WithValue(ctx, optKey(id), id)
			}))
		case "after":
			e.natsOpts = append(e.natsOpts, natstransport.SubscriberAfter(func(ctx context.Context, _ *nats.Conn) context.Context {
				cur().s(id)
				return ctx
			}))
		case "finalizer":
			e.natsOpts = append(e.natsOpts, natstransport.SubscriberFinalizer(func(context.Context, *nats.Msg) { cur().s(id) }))
		case "encoder":
			e.natsOpts = append(e.natsOpts, natstransport.SubscriberErrorEncoder(func(_ context.Context, err error, reply string, conn *nats.Conn) {
				cur().s("encoder: ", err)
				conn.Publish(reply, []byte(vfBody))
			}))
		case "handler":
			e.natsOpts = append(e.natsOpts, natstransport.SubscriberErrorHandler(handler))
		}
	}
	e.start(drv.Hooks{})
	defer func() {
		e.close()
		e.httpOpts, e.grpcOpts, e.natsOpts = nil, nil, nil
	}()

	var ho []httptransport.ClientOption
	for i, k := range hc {
		id := fmt.Sprintf("%s%d", k, i)
		switch k {
		case "before":
			ho = append(ho, httptransport.ClientBefore(func(ctx context.Context, r *http.Request) context.Context {
				cur().c(id)
				r.Header.Set("Vf-"+id, id)
				return ctx
			}))
		case "after":
			ho = append(ho, httptransport.ClientAfter(func(ctx context.Context, _ *http.Response) context.Context {
				cur().c(id)
				return ctx
			}))
		case "finalizer":
			ho = append(ho, httptransport.ClientFinalizer(func(context.Context, error) { cur().c(id) }))
		case "doer":
			ho = append(ho, httptransport.SetClient(doer{cur}))
		}
	}
	ho = append(ho, httptransport.ClientAfter(func(ctx context.Context, r *http.Response) context.Context {
		v := cur()
		v.mu.Lock()
		v.status, v.header = r.StatusCode, r.Header
		v.mu.Unlock()
		return ctx
	}))
	var gro []grpctransport.ClientOption
	for i, k := range gc {
		id := fmt.Sprintf("%s%d", k, i)
		switch k {
		case "before":
			gro = append(gro, grpctransport.ClientBefore(func(ctx context.Context, md *metadata.MD) context.Context {
				cur().c(id)
				(*md)["vf-"+id] = []string{id}
				return ctx
			}))
		case "after":
			gro = append(gro, grpctransport.ClientAfter(func(ctx context.Context, _, _ metadata.MD) context.Context {
				cur().c(id)
				return ctx
			}))
		case "finalizer":
			gro = append(gro, grpctransport.ClientFinalizer(func(context.Context, error) { cur().c(id) }))
		}
	}
	gro = append(gro, grpctransport.ClientAfter(func(ctx context.Context, h, _ metadata.MD) context.Context {
		v := cur()
		v.mu.Lock()
		v.md = h
		v.mu.Unlock()
		return ctx
	}))
	var no []natstransport.PublisherOption
	for i, k := range nc {
		id := fmt.Sprintf("%s%d", k, i)
		switch k {
		case "before":
			no = append(no, natstransport.PublisherBefore(func(ctx context.Context, _ *nats.Msg) context.Context {
				cur().c(id)
				return ctx
			}))
		case "after":
			no = append(no, natstransport.PublisherAfter(func(ctx context.Context, _ *nats.Msg) context.Context {
				cur().c(id)
				return ctx
			}))
		case "finalizer":
			no = append(no, natstransport.PublisherFinalizer(func(context.Context, *nats.Msg) { cur().c(id) }))
		}
	}
	no = append(no, natstransport.PublisherAfter(func(ctx context.Context, m *nats.Msg) context.Context {
		v := cur()
		v.mu.Lock()
		v.body = string(m.Data)
		v.mu.Unlock()
		return ctx
	}))
	clients := map[string]drv.Caller{"grpc": e.client("grpc", nil, gro)}
	if len(e.s.bound()) > 0 {
		clients["http"] = e.client("http", ho, nil)
	}
	c, err := e.inst.NATSClient(e.nc, no...)
	if err != nil {
		panic(fmt.Sprint("nats client: ", err))
	}
	clients["nats"] = c
	servers := map[string]side{"http": hs, "raw": hs, "grpc": gs, "nats": ns}
	ends := map[string]side{"http": hc, "grpc": gc, "nats": nc}

	type planned struct {
		rpc *Rpc
		b   *Binding
		tr  string
	}
	var plan []planned
	for _, r := range e.s.Rpcs {
		trs := []string{"grpc", "nats"}
		if len(r.Bindings) > 0 {
			trs = append(trs, "http")
		}
		plan = append(plan, planned{r, nil, rapid.SampledFrom(trs).Draw(t, "transport")})
		for _, b := range r.Bindings {
			plan = append(plan, planned{r, b, "raw"})
		}
	}
	// long services: some of the rpcs each time
	for len(plan) > 8 {
		i := rapid.IntRange(0, len(plan)-1).Draw(t, "leave")
		plan = append(plan[:i:i], plan[i+1:]...)
	}
	ran := false
	for _, p := range plan {
		if len(servers[p.tr]) > 0 || len(ends[p.tr]) > 0 {
			ran = true
		}
	}
	e.res.note(ran, info, fmt.Sprintf("calls=%d", len(plan)))

	for _, p := range plan {
		r, m := p.rpc, e.tg.Method(p.rpc.Go)
		srv, end := servers[p.tr], ends[p.tr]
		outcome := rapid.SampledFrom([]string{"response", "response", "error"}).Draw(t, "outcome")
		var at func(protoreflect.FieldDescriptor) string
		switch {
		case p.tr == "http":
			at = r.at
		case p.b != nil:
			at = p.b.at
		}
		in := newMessage(t, m.In, at)
		var raw rawReq
		if p.b != nil {
			unset(t, p.b, in.ProtoReflect())
			raw, _ = write(t, p.b, in.ProtoReflect())
			if raw.HasBody && rapid.IntRange(0, 3).Draw(t, "badBody") == 0 {
				raw.Body = "{" + raw.Body
				outcome = "undecoded"
			}
		}
		msg := ""
		var ret error
		if outcome == "error" {
			msg = rapid.StringMatching(`[a-z]{1,5}( [a-z]{1,5})?`).Draw(t, "msg")
			ret = errors.New(msg)
		}
		what := fmt.Sprintf("%s call of %s (%s) with server options %v", p.tr, r.Go, outcome, srv)
		if p.b != nil {
			what = fmt.Sprintf("request %s (%s) with server options %v", raw, outcome, srv)
		} else {
			what += fmt.Sprintf(" and client options %v", end)
		}
		e.res.mu.Lock()
		if e.res.Fail == "" {
			e.res.Classes[p.tr+" "+outcome]++
			for _, k := range srv {
				e.res.Classes[p.tr+" server "+k]++
			}
			for _, k := range end {
				e.res.Classes[p.tr+" client "+k]++
			}
		}
		e.res.mu.Unlock()

		now := &events{}
		vmu.Lock()
		v = now
		vmu.Unlock()
		e.svc.Set(func(ctx context.Context, method string, _ proto.Message) (proto.Message, error) {
			now.s("call")
			for _, id := range srv.of("before") {
				if ctx.Value(optKey(id)) != id {
					now.missing = "what the server's " + id + " put there"
				}
			}
			if p.tr == "http" || p.tr == "grpc" {
				for _, id := range end.of("before") {
					for _, k := range []string{"vf-" + id, "Vf-" + strings.ToUpper(id[:1]) + id[1:]} {
						if p.tr == "http" && k[0] == 'V' {
							k = http.CanonicalHeaderKey(k)
						} else if k[0] == 'V' {
							continue
						}
						if ctx.Value(k) != id {
							now.missing = fmt.Sprintf("the value %s that the client's %s sent", k, id)
						}
					}
				}
			}
			return m.Out(), ret
		})
		ctx, cancel := context.WithTimeout(context.Background(), callTimeout)
		var err error
		if p.b != nil {
			var resp *http.Response
			resp, now.body, err = e.do(raw)
			if err == nil {
				now.status, now.header = resp.StatusCode, resp.Header
			}
		} else {
			_, err = clients[p.tr](ctx, r.Go, in)
		}
		cancel()

		// what should have happened
		code := http.StatusOK
		want := srv.of("before")
		if outcome != "undecoded" {
			want = append(want, "call")
		}
		failed := outcome != "response"
		if !failed {
			want = append(want, srv.of("after")...)
		}
		if failed && srv.has("handler") {
			want = append(want, "handler: "+msg)
		}
		if failed {
			code = http.StatusInternalServerError
			if outcome == "undecoded" {
				code = http.StatusBadRequest
			}
			if srv.has("encoder") {
				want = append(want, "encoder: "+msg)
				code = vfStatus
			}
		}
		for _, id := range srv.of("finalizer") {
			switch p.tr {
			case "http", "raw":
				id += fmt.Sprint(" ", code)
			case "grpc":
				id += " <nil>"
				if failed {
					id = strings.TrimSuffix(id, "<nil>") + msg
				}
			}
			want = append(want, id)
		}
		var wantClient []string
		if p.b == nil {
			wantClient = end.of("before")
			if end.has("doer") {
				wantClient = append(wantClient, "doer")
			}
			if !failed || p.tr != "grpc" {
				wantClient = append(wantClient, end.of("after")...)
			}
			wantClient = append(wantClient, end.of("finalizer")...)
		}
		// the server's finalizers run after the response
		deadline := time.Now().Add(5 * time.Second)
		if e.res.Fail != "" {
			deadline = time.Now().Add(300 * time.Millisecond)
		}
		var server, client []string
		for {
			now.mu.Lock()
			server = append([]string(nil), now.server...)
			client = append([]string(nil), now.client...)
			now.mu.Unlock()
			if len(server) >= len(want) || time.Now().After(deadline) {
				break
			}
			time.Sleep(time.Millisecond)
		}
		if outcome == "undecoded" {
			// how the error reads is not said here
			for i, s := range server {
				for _, k := range []string{"handler: ", "encoder: "} {
					if strings.HasPrefix(s, k) {
						server[i] = k
					}
				}
			}
		}
		now.mu.Lock()
		status, header, body, md, missing := now.status, now.header, now.body, now.md, now.missing
		now.mu.Unlock()
		bad := func(format string, a ...interface{}) {
			e.res.fail(t, info, "%s: %s", what, fmt.Sprintf(format, a...))
		}
		if p.b == nil && (err != nil) != failed || p.b != nil && err != nil {
			bad("error %v", err)
		}
		if !same(server, want) {
			bad("the server did %q, should be %q", server, want)
		}
		if !same(client, wantClient) {
			bad("the client did %q, should be %q", client, wantClient)
		}
		if missing != "" {
			bad("the service's context does not have %s", missing)
		}
		switch p.tr {
		case "http", "raw":
			if status != code {
				bad("the response has status %d, should be %d", status, code)
			}
			typ := "application/json; charset=utf-8"
			if !failed && srv.has("type") || failed && srv.has("encoder") {
				typ = vfType
			}
			if header.Get("Content-Type") != typ {
				bad("the response has content type %q, should be %q", header.Get("Content-Type"), typ)
			}
			if !failed {
				for _, id := range srv.of("after") {
					if header.Get("Vf-"+id) != id {
						bad("the response lacks the header that the server's %s set", id)
					}
				}
			}
			if p.tr == "raw" && failed && srv.has("encoder") && body != vfBody {
				bad("the response's body is %q, the error encoder wrote %q", body, vfBody)
			}
		case "grpc":
			if !failed {
				for _, id := range srv.of("after") {
					if got := md["vf-"+id]; len(got) != 1 || got[0] != id {
						bad("the response lacks the header that the server's %s set", id)
					}
				}
			}
		case "nats":
			if failed && srv.has("encoder") && body != vfBody {
				bad("the reply is %q, the error encoder wrote %q", body, vfBody)
			}
		}
	}
	e.svc.Set(nil)
}

func same(a, b []string) bool { return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b) }
