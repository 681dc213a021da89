package svcdefc

import (
	"fmt"
	"os"
	"testing"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/svcdef"
	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/vt"
)

var modelOpts = pspec.Opts{MaxFiles: 3, MaxMsgs: 4, MaxRpcs: 5, NoService: true, Streaming: true, External: true, Conflicts: true, NearNames: true}

func wholes(ss []*pspec.Spec) []string {
	var out []string
	for _, s := range ss {
		out = append(out, s.Whole())
	}
	return out
}

// modelCheck runs check on the model of batches of generated definitions.
func modelCheck(t *testing.T, rep *vt.Rep, salt uint64, n int, opts pspec.Opts, check func(s *pspec.Spec, c *pspec.Compiled, sd *svcdef.Svcdef) (bool, error)) {
	rep.Check(t, salt, n/8, func(rt *rapid.T) {
		ss := rapid.SliceOfN(pspec.Gen(opts), 1, 12).Draw(rt, "specs")
		i, err := vt.Parallel(len(ss), func(i int) error {
			s := ss[i]
			c, done, err := Compile(s)
			if err != nil {
				return err
			}
			defer done()
			sd, err := Build(s, c)
			if err != nil {
				return fmt.Errorf("valid definition rejected: %v", err)
			}
			nt, err := check(s, c, sd)
			if err == nil && len(s.Files) == 1 && i%3 == 0 {
				// the same through the definition's text
				rep.Class("from text")
				buildMu.Lock()
				sd, err = svcdef.NewFromString(s.Text(s.Files[0]), []string{os.Getenv("GOPATH")})
				buildMu.Unlock()
				if err != nil {
					err = fmt.Errorf("NewFromString rejects a valid definition: %v", err)
				} else if _, err = check(s, c, sd); err != nil {
					err = fmt.Errorf("NewFromString: %v", err)
				}
			}
			txt := s.Whole()
			rep.Class(fmt.Sprintf("files=%d", len(s.Files)))
			rep.Case(nt, txt, func() interface{} { return txt })
			return err
		})
		if err != nil {
			rep.FailErr(rt, ss[i].Whole(), err)
		}
	})
}

func TestC08(t *testing.T) {
	rep := vt.Start(t, "C08", "random proto3 definitions in one to three files (nested messages and enums, scalars of all kinds, repeated, optional, maps, oneofs, well-known types, clashing and oddly spelled names) compiled by protoc and its Go plugins; the model built from the generated Go code is compared with the descriptors and the Go names protogen assigns; non-trivial: at least three fields, one of them not a plain scalar")
	modelCheck(t, rep, 8, vt.N(2400, 40000), modelOpts, func(s *pspec.Spec, c *pspec.Compiled, sd *svcdef.Svcdef) (bool, error) {
		n, special := 0, 0
		s.Walk(func(_ *pspec.File, _ string, m *pspec.Msg) {
			for _, f := range m.Fields {
				n++
				if f.Type.Scalar == "" || f.Label != "" || f.Key != "" || f.Oneof != "" {
					special++
				}
				switch {
				case f.Oneof != "":
					rep.Class("oneof option")
				case f.Key != "":
					rep.Class("map")
				case f.Label != "":
					rep.Class(f.Label)
				default:
					rep.Class("plain field")
				}
			}
		})
		return n >= 3 && special > 0, CheckTypes(c, sd)
	})
}

func TestC09(t *testing.T) {
	rep := vt.Start(t, "C09", "random definitions as for C08, with services of zero to five rpcs (some streaming, nested request types, odd names, messages in other files, interfaces and oneofs called server or client) or without a service; the model's service is compared with the descriptors; non-trivial: at least one unary rpc, or no service")
	modelCheck(t, rep, 9, vt.N(2400, 40000), modelOpts, func(s *pspec.Spec, c *pspec.Compiled, sd *svcdef.Svcdef) (bool, error) {
		svc := s.Service()
		unary, stream := 0, 0
		if svc != nil {
			for _, r := range svc.Rpcs {
				if r.RS || r.PS {
					stream++
				} else {
					unary++
				}
			}
		}
		rep.Class(fmt.Sprintf("service=%v", svc != nil), fmt.Sprintf("streaming=%v", stream > 0))
		return unary > 0 || svc == nil, CheckService(c, sd)
	})
}

func TestC10(t *testing.T) {
	rep := vt.Start(t, "C10", "random annotated services (main and additional bindings, custom verbs, up to three path parameters, body '*', a field or none, odd field spellings); each binding of the model is compared with the location rule applied to the annotation; non-trivial: at least one annotated rpc whose request has fields")
	rep.Assume("path templates and bodies name non-oneof top-level fields by their proto names")
	o := modelOpts
	o.NoService = false
	modelCheck(t, rep, 10, vt.N(2400, 40000), o, func(s *pspec.Spec, c *pspec.Compiled, sd *svcdef.Svcdef) (bool, error) {
		nt := false
		for _, r := range s.Service().Rpcs {
			if r.Annotated {
				rep.Class(fmt.Sprintf("bindings=%d", len(r.Bindings)))
				nt = nt || len(s.Msg(r.Req.Ref).Fields) > 0
			}
		}
		return nt, CheckBindings(s, c, sd)
	})
}
