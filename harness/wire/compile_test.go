package wire

import (
	"fmt"
	"os"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/vt"
)

func genCase(o pspec.Opts) *rapid.Generator[*Case] {
	return rapid.Custom(func(t *rapid.T) *Case {
		return &Case{
			Spec:      pspec.Gen(o).Draw(t, "spec"),
			Transport: rapid.SampledFrom([]string{"all", "grpc", "nats"}).Draw(t, "transport"),
			Client:    rapid.Bool().Draw(t, "client"),
		}
	})
}

var compileOpts = pspec.Opts{MaxFiles: 2, MaxMsgs: 4, MaxRpcs: 6, External: true, NearNames: true, Streaming: true, Wire: true}

func TestC12(t *testing.T) {
	rep := vt.Start(t, "C12", "a definition (1-2 files, nested messages, enums, all field kinds, oneofs, well-known types, streaming rpcs, custom verbs and additional bindings), a transport and the client flag are drawn; baron runs on it and every package of the result is compiled; non-trivial: at least one rpc with an HTTP binding and a request with fields")
	fails := func(cs []*Case) ([]string, error) {
		w, err := newWorkspace()
		if err != nil {
			return nil, err
		}
		defer w.close()
		w.add(cs)
		for _, b := range w.bs {
			if b.err == nil {
				b.err = w.formatted(b)
			}
		}
		if err := w.compile(); err != nil {
			return nil, err
		}
		out := make([]string, len(cs))
		for i, b := range w.bs {
			if e, ok := b.err.(vt.Infra); ok {
				return nil, e
			}
			if b.err != nil {
				out[i] = b.err.Error()
			}
		}
		return out, nil
	}
	probes := probes()
	res, err := fails(probeCases(probes))
	if err != nil {
		rep.FailErr(t, nil, err)
	}
	for i, m := range res {
		if m == "" {
			continue
		}
		if what, ok := vt.Known("C12", probes[i].id); ok {
			rep.KnownOnce(probes[i].id, what)
			continue
		}
		rep.Fail(t, probes[i].c.describe(), "%s", m)
	}
	batches, size := vt.N(4, 60), 20
	gen := genCase(compileOpts)
	for k := 0; k < batches; k++ {
		cs := make([]*Case, size)
		for i := range cs {
			cs[i] = gen.Example(int(vt.RapidSeed()%1000003) + k*size + i)
		}
		start := time.Now()
		res, err := fails(cs)
		if err != nil {
			rep.FailErr(t, nil, err)
		}
		t.Logf("batch %d: %v", k, time.Since(start))
		for i, m := range res {
			c := cs[i]
			if m != "" && os.Getenv("VERIF_WIRE_ALL") != "" {
				t.Logf("ALL %d: %s", i, m)
				continue
			}
			if m != "" {
				c, m = shrink(c, m, fails, vt.N(12, 40))
				rep.Fail(t, c.describe(), "%s", m)
			}
			note(rep, c)
		}
	}
}

// probes are definitions with names outside the drawn domain.
type probe struct {
	id string
	c  *Case
}

func probes() []probe {
	mk := func(svc, msg string, rpcs ...string) *Case {
		s := &pspec.Spec{Package: "probe", GoPackage: "example.com/x/probe"}
		f := &pspec.File{Name: "probe", Msgs: []*pspec.Msg{{Name: msg, Fields: []*pspec.Field{{Name: "a", Num: 1, Type: pspec.TypeRef{Scalar: "string"}}}}}}
		f.Service = &pspec.Service{Name: svc}
		f.ServiceAt = 1
		for i, r := range rpcs {
			f.Service.Rpcs = append(f.Service.Rpcs, &pspec.Rpc{Name: r, Req: pspec.TypeRef{Ref: msg}, Resp: pspec.TypeRef{Ref: msg}, Relative: true, Annotated: true,
				Bindings: []pspec.Binding{{Verb: "get", Path: fmt.Sprintf("/r%d/{a}", i)}}})
		}
		s.Files = []*pspec.File{f}
		return &Case{Spec: s, Transport: "all", Client: true}
	}
	return []probe{
		{"service-named-HTTP", mk("HTTP", "M", "Get")},
		{"service-named-GRPC", mk("GRPC", "M", "Get")},
		{"service-named-NATS", mk("NATS", "M", "Get")},
		{"message-named-Endpoints", mk("Svc", "Endpoints", "Get")},
		{"message-named-LabeledMiddleware", mk("Svc", "LabeledMiddleware", "Get")},
		{"rpc-named-GetEndpoint", mk("Svc", "M", "Get", "GetEndpoint")},
		{"rpc-named-WrapAllExcept", mk("Svc", "M", "WrapAllExcept")},
		{"rpc-named-WrapAllLabeledExcept", mk("Svc", "M", "WrapAllLabeledExcept")},
	}
}

func probeCases(ps []probe) (out []*Case) {
	for _, p := range ps {
		out = append(out, p.c)
	}
	return
}

func note(rep *vt.Rep, c *Case) {
	nontrivial := false
	svc := c.Spec.Service()
	rep.Class("transport="+c.Transport, fmt.Sprintf("client=%v", c.Client), fmt.Sprintf("rpcs=%d", len(svc.Rpcs)))
	for _, r := range svc.Rpcs {
		m := c.Spec.Msg(r.Req.Ref)
		if len(r.Bindings) > 0 && len(m.Fields) > 0 {
			nontrivial = true
		}
		for _, b := range r.Bindings {
			if b.Custom {
				rep.Class("binding=custom")
			} else {
				rep.Class("binding=" + b.Verb)
			}
			for _, f := range m.Fields {
				kind := f.Type.Scalar
				switch {
				case f.Key != "":
					kind = "map"
				case f.Type.Enum:
					kind = "enum"
				case kind == "":
					kind = "message"
				}
				if f.Label != "" {
					kind = f.Label + " " + kind
				}
				if f.Oneof != "" {
					kind = "oneof " + kind
				}
				if loc := b.Locate(f); loc != "body" {
					rep.Class(loc + ": " + kind)
				}
			}
		}
	}
	rep.Case(nontrivial, c.Spec.Whole()+c.Transport, func() interface{} { return c.describe() })
}
