package svcparse_test

import (
	"fmt"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/svcdef/svcparse"
	cmp "github.com/teamlint/baron/zzverif/parsecmp"
	"github.com/teamlint/baron/zzverif/svctext"
	"github.com/teamlint/baron/zzverif/vt"
)

func TestC03(t *testing.T) {
	rep := vt.Start(t, "C03", "a random abstract service is written with random comment groups (single-line runs, block comments, mixes, with and without a detached comment further up) directly above random rpcs, option blocks and binding fields, and with unrelated comments in other gaps; non-trivial: at least one described construct and one annotated rpc")
	rep.Check(t, 3, vt.N(15000, 200000), func(rt *rapid.T) {
		s := svctext.Gen().Draw(rt, "svc")
		text, desc := svctext.Commented(rt, s.Tokens())
		var p cmp.Parsed
		rep.Guard(rt, text, func() { p = cmp.Parse(text) })
		n, _, cust := cmp.NHTTP(s)
		rep.Class(fmt.Sprintf("descriptions=%d", min(len(desc), 8)), fmt.Sprintf("custom=%v", cust > 0))
		rep.Case(n > 0 && len(desc) > 0, text, func() interface{} { return text })
		if p.Err != nil {
			rep.Fail(rt, text, "commented definition rejected: %v", p.Err)
		}
		if d := cmp.Diff(wantDesc(s, desc), gotDesc(p.Svc, s)); d != "" {
			rep.Fail(rt, text, "descriptions differ\n%s", d)
		}
	})
}

func bindingDesc(b svctext.Binding, id string, desc map[string]string) string {
	out := ""
	for j, k := range b.Fields {
		out += fmt.Sprintf("%s=%q %q; ", k.Kind, k.Value, desc[fmt.Sprintf("%s/f/%d", id, j)])
	}
	out += "custom "
	for j, k := range b.Custom {
		out += fmt.Sprintf("%s=%q %q; ", k.Kind, k.Value, desc[fmt.Sprintf("%s/c/%d", id, j)])
	}
	return out
}

func wantDesc(s svctext.Svc, desc map[string]string) []string {
	out := []string{}
	for i, r := range s.Rpcs {
		if r.Form != "http" {
			continue
		}
		id := fmt.Sprintf("b/%d/main", i)
		out = append(out, fmt.Sprintf("rpc %s %q", r.Name, desc[fmt.Sprintf("rpc/%d", i)]), fmt.Sprintf(" main %q %s", desc[id], bindingDesc(r.Main, id, desc)))
		var bs []string
		for j, b := range r.Additional {
			bs = append(bs, " add "+bindingDesc(b, fmt.Sprintf("b/%d/add%d", i, j), desc))
		}
		sort.Strings(bs)
		out = append(out, bs...)
	}
	return out
}

// gotDesc picks the binding that is the main one: the one whose description
// and fields are those of the option block; the order of the bindings of an
// rpc is not part of the property, the option block's is the only one that
// may be described.
func gotDesc(s *svcparse.Service, want svctext.Svc) []string {
	out := []string{}
	var https []svctext.Rpc
	for _, r := range want.Rpcs {
		if r.Form == "http" {
			https = append(https, r)
		}
	}
	for i, m := range s.Methods {
		out = append(out, fmt.Sprintf("rpc %s %q", m.Name, m.Description))
		// main: last in the list unless another one matches its values and is described
		main := -1
		for j, b := range m.HTTPBindings {
			if i < len(https) && cmp.FieldsKey(b.Fields) == cmp.KVsKey(https[i].Main.Fields) && cmp.FieldsKey(b.CustomHTTPPattern) == cmp.KVsKey(https[i].Main.Custom) {
				if main < 0 || b.Description != "" || m.HTTPBindings[main].Description == "" {
					main = j
				}
			}
		}
		var bs []string
		for j, b := range m.HTTPBindings {
			fs := ""
			for _, f := range b.Fields {
				fs += fmt.Sprintf("%s=%q %q; ", f.Kind, f.Value, f.Description)
			}
			fs += "custom "
			for _, f := range b.CustomHTTPPattern {
				fs += fmt.Sprintf("%s=%q %q; ", f.Kind, f.Value, f.Description)
			}
			if j == main {
				out = append(out, fmt.Sprintf(" main %q %s", b.Description, fs))
			} else {
				bs = append(bs, " add "+fs)
			}
		}
		sort.Strings(bs)
		out = append(out, bs...)
	}
	return out
}
