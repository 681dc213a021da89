package drvtest

import (
	"context"
	"fmt"
	"net/textproto"
	"reflect"
	"strconv"
	"strings"

	"github.com/go-kit/kit/endpoint"
	grpctransport "github.com/go-kit/kit/transport/grpc"
	httptransport "github.com/go-kit/kit/transport/http"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"example.com/ws/drv"
)

func init() {
	modes["C23"] = metadataSent
	modes["C26"] = middleware
}

type notString struct{ s string }

func metadataSent(t *rapid.T, e *env) {
	transports := []string{"grpc"}
	if len(e.s.bound()) > 0 {
		transports = append(transports, "http", "http")
	}
	tr := rapid.SampledFrom(transports).Draw(t, "transport")
	rpcs := e.s.Rpcs
	if tr == "http" {
		rpcs = e.s.bound()
	}
	rpc := rapid.SampledFrom(rpcs).Draw(t, "rpc")
	// names are distinct regardless of case
	names := rapid.SliceOfNDistinct(rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9]{0,5}([-_.][a-zA-Z0-9]{1,6}){0,2}`), 1, rapid.SampledFrom([]int{3, 5, 16}).Draw(t, "nnames"), strings.ToLower).Draw(t, "names")
	for i, n := range names {
		names[i] = "vf" + n
		if rapid.Bool().Draw(t, "upper") {
			names[i] = "Vf" + n
		}
		if strings.HasSuffix(strings.ToLower(n), "-bin") {
			names[i] += "x"
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), callTimeout)
	defer cancel()
	want := map[string]string{}
	var selected, absent []string
	for _, n := range names {
		v := rapid.StringMatching(`([!-~]([ -~]{0,8}[!-~])?)?`).Draw(t, "value")
		sel := rapid.IntRange(0, 3).Draw(t, "selected") > 0
		if sel {
			selected = append(selected, n)
		}
		switch k := rapid.IntRange(0, 5).Draw(t, "set"); {
		case k == 0:
			absent = append(absent, n)
		case k == 1:
			ctx = context.WithValue(ctx, n, notString{v})
			absent = append(absent, n)
		case sel:
			ctx = context.WithValue(ctx, n, v)
			want[n] = v
		default:
			ctx = context.WithValue(ctx, n, v)
			absent = append(absent, n)
		}
	}
	m := e.tg.Method(rpc.Go)
	var in proto.Message
	if tr == "http" {
		in = newMessage(t, m.In, rpc.at)
	} else {
		in = newMessage(t, m.In, nil)
	}
	info := map[string]interface{}{"transport": tr, "rpc": rpc.Go, "selected": selected, "sent": want, "absent": absent}
	e.res.note(len(want) > 0, info, tr, fmt.Sprintf("sent=%d", len(want)), fmt.Sprintf("absent=%d", len(absent)))
	n := 0
	what := ""
	e.svc.Set(func(ctx context.Context, _ string, in proto.Message) (proto.Message, error) {
		n++
		for k, v := range want {
			for _, f := range []string{strings.ToLower(k), textproto.CanonicalMIMEHeaderKey(k)} {
				if got, ok := ctx.Value(f).(string); !ok || got != v {
					what = fmt.Sprintf("the service's context has %q for %q, sent was %q", ctx.Value(f), f, v)
				}
			}
		}
		for _, k := range absent {
			for _, f := range []string{strings.ToLower(k), textproto.CanonicalMIMEHeaderKey(k)} {
				if got := ctx.Value(f); got != nil {
					what = fmt.Sprintf("the service's context has %q for %q, which was not sent", got, f)
				}
			}
		}
		if tr == "http" {
			if ctx.Value("transport") != "HTTPJSON" {
				what = fmt.Sprintf("the service's context has transport %v", ctx.Value("transport"))
			}
			// the client uses one of the bindings
			url, _ := ctx.Value("request-url").(string)
			ok := false
			for _, b := range rpc.Bindings {
				ok = ok || b.fits(url, in.ProtoReflect())
			}
			if !ok {
				what = fmt.Sprintf("the service's context has request-url %q, which is no path of the request %s", ctx.Value("request-url"), show(in))
			}
		}
		return m.Out(), nil
	})
	defer e.svc.Set(nil)
	var ho []httptransport.ClientOption
	if tr == "http" {
		ho = append(ho, e.inst.CtxValuesToSend(selected...))
	}
	c := e.client(tr, ho, []grpctransport.ClientOption{grpctransport.ClientBefore(e.inst.ContextValuesToGRPCMetadata(selected))})
	_, err := c(ctx, rpc.Go, in)
	switch {
	case err != nil:
		e.res.fail(t, info, "%s %s with metadata %v: %v", tr, rpc.Go, want, err)
	case n != 1:
		e.res.fail(t, info, "%s %s with metadata %v: the service was called %d times", tr, rpc.Go, want, n)
	case what != "":
		e.res.fail(t, info, "%s %s, selected %q: %s", tr, rpc.Go, selected, what)
	}
}

// fits: path is the binding's for the request.
func (b *Binding) fits(path string, in protoreflect.Message) bool {
	segs, ts := strings.Split(path, "/"), strings.Split(b.Path, "/")
	if len(segs) != len(ts) {
		return false
	}
	for i, s := range ts {
		pre, name, suf, ok := cutSeg(s)
		if !ok {
			if s != segs[i] {
				return false
			}
			continue
		}
		if !strings.HasPrefix(segs[i], pre) || !strings.HasSuffix(segs[i], suf) || len(segs[i]) <= len(pre+suf) {
			return false
		}
		segs[i] = strings.TrimSuffix(strings.TrimPrefix(segs[i], pre), suf)
		fd := in.Descriptor().Fields().ByName(name)
		want := text(fd, in.Get(fd))
		if k := fd.Kind(); k == protoreflect.FloatKind || k == protoreflect.DoubleKind {
			// a number may be written in several forms
			f, err := strconv.ParseFloat(segs[i], 64)
			if err != nil {
				return false
			}
			if k == protoreflect.FloatKind {
				f = float64(float32(f))
			}
			if g := in.Get(fd).Float(); f != g && f == f {
				return false
			}
			continue
		}
		if segs[i] != want {
			return false
		}
	}
	return true
}

// op wraps the endpoints of a service.
type op struct {
	Label    string
	Labelled bool
	Excluded []string
}

func middleware(t *rapid.T, e *env) {
	var all []string
	for _, r := range e.s.Rpcs {
		all = append(all, r.Go)
	}
	var ops []op
	for i := rapid.IntRange(0, 5).Draw(t, "nops"); i > 0; i-- {
		ex := rapid.SliceOfNDistinct(rapid.SampledFrom(all), 0, len(all), rapid.ID[string]).Draw(t, "excluded")
		ops = append(ops, op{fmt.Sprintf("m%d", len(ops)), rapid.Bool().Draw(t, "labelled"), ex})
	}
	// one that does not exist, somewhere
	var ghost string
	if rapid.IntRange(0, 4).Draw(t, "ghost") == 0 && len(ops) > 0 {
		ghost = rapid.SampledFrom([]string{"", "Nope", all[0] + "x", strings.ToLower(all[0]) + "_", all[0] + "Endpoint"}).Draw(t, "name")
		for _, a := range all {
			if a == ghost {
				ghost = ""
				return
			}
		}
		o := &ops[len(ops)-1]
		at := rapid.IntRange(0, len(o.Excluded)).Draw(t, "at")
		o.Excluded = append(append(append([]string{}, o.Excluded[:at]...), ghost), o.Excluded[at:]...)
	}
	hasGhost := len(ops) > 0 && func() bool {
		for _, x := range ops[len(ops)-1].Excluded {
			found := false
			for _, a := range all {
				found = found || a == x
			}
			if !found {
				return true
			}
		}
		return false
	}()
	svcHook := rapid.Bool().Draw(t, "wrapService")
	info := map[string]interface{}{"ops": ops, "rpcs": all, "wrapService": svcHook}
	nt := len(ops) > 0 && len(all) > 1
	e.res.note(nt, info, fmt.Sprintf("ops=%d", len(ops)), fmt.Sprintf("unknown name=%v", hasGhost))
	var panicked []int
	wrapped := 0
	h := drv.Hooks{Endpoints: func(w drv.Wrapper) {
		for i, o := range ops {
			o := o
			func() {
				defer func() {
					if recover() != nil {
						panicked = append(panicked, i)
					}
				}()
				if o.Labelled {
					w.WrapAllLabeledExcept(func(name string, next endpoint.Endpoint) endpoint.Endpoint {
						wrapped++
						return func(ctx context.Context, r interface{}) (interface{}, error) {
							e.log(o.Label + ":" + name)
							return next(ctx, r)
						}
					}, o.Excluded...)
				} else {
					w.WrapAllExcept(func(next endpoint.Endpoint) endpoint.Endpoint {
						wrapped++
						return func(ctx context.Context, r interface{}) (interface{}, error) {
							e.log(o.Label)
							return next(ctx, r)
						}
					}, o.Excluded...)
				}
			}()
		}
	}}
	if svcHook {
		h.Service = func(m string) { e.log("service:" + m) }
	}
	e.start(h)
	defer e.close()
	if hasGhost {
		if !reflect.DeepEqual(panicked, []int{len(ops) - 1}) {
			e.res.fail(t, info, "wrapping %+v of the endpoints %v: the operations %v panicked, the last one names an endpoint that does not exist", ops, all, panicked)
		}
		return
	}
	if len(panicked) > 0 {
		e.res.fail(t, info, "wrapping %+v of the endpoints %v: the operations %v panicked", ops, all, panicked)
	}
	excluded := func(o op, rpc string) bool {
		for _, x := range o.Excluded {
			if x == rpc {
				return true
			}
		}
		return false
	}
	for _, rpc := range e.s.Rpcs {
		var want []string
		for i := len(ops) - 1; i >= 0; i-- {
			if o := ops[i]; !excluded(o, rpc.Go) {
				if o.Labelled {
					want = append(want, o.Label+":"+rpc.Go)
				} else {
					want = append(want, o.Label)
				}
			}
		}
		if svcHook {
			want = append(want, "service:"+rpc.Go)
		}
		want = append(want, "call:"+rpc.Go)
		e.svc.Set(func(_ context.Context, m string, _ proto.Message) (proto.Message, error) {
			e.log("call:" + m)
			return e.tg.Method(m).Out(), nil
		})
		trs := []string{"direct", "grpc", "nats"}
		if len(rpc.Bindings) > 0 {
			trs = append(trs, "http")
		}
		tr := rapid.SampledFrom(trs).Draw(t, "transport")
		m := e.tg.Method(rpc.Go)
		in := m.In()
		if tr == "http" {
			in = newMessage(t, m.In, rpc.at)
		}
		e.mu.Lock()
		e.trace = nil
		e.mu.Unlock()
		ctx, cancel := context.WithTimeout(context.Background(), callTimeout)
		_, err := e.client(tr, nil, nil)(ctx, rpc.Go, in)
		cancel()
		e.mu.Lock()
		got := e.trace
		e.mu.Unlock()
		if err != nil {
			e.res.fail(t, info, "wrapping %+v of the endpoints %v: calling %s over %s: %v", ops, all, rpc.Go, tr, err)
		}
		if !reflect.DeepEqual(got, want) {
			e.res.fail(t, info, "wrapping %+v of the endpoints %v: a call of %s over %s went through %v, should be %v", ops, all, rpc.Go, tr, got, want)
		}
	}
}
