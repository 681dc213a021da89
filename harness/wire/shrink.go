package wire

import (
	"encoding/json"

	"github.com/teamlint/baron/zzverif/pspec"
)

func clone(c *Case) *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	n := &Case{}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

// reductions are smaller variants of a case. Not all need be valid.
func reductions(c *Case) (out []*Case) {
	try := func(f func(n *Case) bool) {
		n := clone(c)
		if f(n) && valid(n.Spec) {
			out = append(out, n)
		}
	}
	svc := c.Spec.Service()
	// half of the rpcs, then single ones
	if k := len(svc.Rpcs); k > 2 {
		try(func(n *Case) bool { s := n.Spec.Service(); s.Rpcs = s.Rpcs[:k/2]; return true })
		try(func(n *Case) bool { s := n.Spec.Service(); s.Rpcs = s.Rpcs[k/2:]; return true })
	}
	for i := range svc.Rpcs {
		try(func(n *Case) bool { s := n.Spec.Service(); s.Rpcs = append(s.Rpcs[:i:i], s.Rpcs[i+1:]...); return true })
		for j := range svc.Rpcs[i].Bindings {
			try(func(n *Case) bool {
				r := n.Spec.Service().Rpcs[i]
				r.Bindings = append(r.Bindings[:j:j], r.Bindings[j+1:]...)
				r.Annotated = len(r.Bindings) > 0
				return true
			})
		}
	}
	// messages not in use, then fields
	var walk func(pre string, ms []*pspec.Msg, set func(n *Case) *[]*pspec.Msg)
	walk = func(pre string, ms []*pspec.Msg, get func(n *Case) *[]*pspec.Msg) {
		for i, m := range ms {
			try(func(n *Case) bool { p := get(n); *p = append((*p)[:i:i], (*p)[i+1:]...); return true })
			for j := range m.Fields {
				try(func(n *Case) bool {
					x := (*get(n))[i]
					x.Fields = append(x.Fields[:j:j], x.Fields[j+1:]...)
					return true
				})
				if m.Fields[j].JSON != "" {
					try(func(n *Case) bool { (*get(n))[i].Fields[j].JSON = ""; return true })
				}
			}
			for j := range m.Enums {
				try(func(n *Case) bool {
					x := (*get(n))[i]
					x.Enums = append(x.Enums[:j:j], x.Enums[j+1:]...)
					return true
				})
			}
			walk(pre+m.Name+".", m.Nested, func(n *Case) *[]*pspec.Msg { return &(*get(n))[i].Nested })
		}
	}
	for fi, f := range c.Spec.Files {
		walk("", f.Msgs, func(n *Case) *[]*pspec.Msg { return &n.Spec.Files[fi].Msgs })
		for j := range f.Enums {
			try(func(n *Case) bool {
				x := n.Spec.Files[fi]
				x.Enums = append(x.Enums[:j:j], x.Enums[j+1:]...)
				return true
			})
		}
		if len(c.Spec.Files) > 1 && f.Service == nil {
			try(func(n *Case) bool {
				n.Spec.Files = append(n.Spec.Files[:fi:fi], n.Spec.Files[fi+1:]...)
				return true
			})
		}
	}
	if c.Client {
		try(func(n *Case) bool { n.Client = false; return true })
	}
	if c.Spec.Package != "x" {
		try(func(n *Case) bool { n.Spec.Package = "x"; return true })
	}
	return
}

// valid: every reference of the definition still resolves.
func valid(s *pspec.Spec) bool {
	ok := true
	ref := func(t pspec.TypeRef) {
		if t.Ref == "" {
			return
		}
		if t.Enum && s.EnumNamed(t.Ref) == nil || !t.Enum && s.Msg(t.Ref) == nil {
			ok = false
		}
	}
	s.Walk(func(_ *pspec.File, _ string, m *pspec.Msg) {
		for _, f := range m.Fields {
			ref(f.Type)
		}
	})
	svc := s.Service()
	if svc == nil {
		return false
	}
	for _, r := range svc.Rpcs {
		ref(r.Req)
		ref(r.Resp)
		if !ok {
			return false
		}
		m := s.Msg(r.Req.Ref)
		for _, b := range r.Bindings {
			names := append(pspec.PathVars(b.Path), b.Body)
			for _, v := range names {
				if v == "" || v == "*" {
					continue
				}
				found := false
				for _, f := range m.Fields {
					found = found || f.Name == v && f.Oneof == ""
				}
				ok = ok && found
			}
		}
	}
	return ok
}

// shrink looks for the smallest failing variant, a batch of variants at a
// time; fails tells which of the cases fail.
func shrink(c *Case, what string, fails func([]*Case) ([]string, error), rounds int) (*Case, string) {
	for ; rounds > 0; rounds-- {
		cand := reductions(c)
		if len(cand) == 0 {
			break
		}
		better := false
		for len(cand) > 0 && !better {
			n := min(len(cand), 12)
			res, err := fails(cand[:n])
			if err != nil {
				return c, what
			}
			for i, m := range res {
				if m != "" {
					c, what, better = cand[i], m, true
					break
				}
			}
			cand = cand[n:]
		}
		if !better {
			break
		}
	}
	return c, what
}
