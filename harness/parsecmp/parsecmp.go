// Package parsecmp compares what baron's service parser reports with the
// abstract service a text was rendered from.
package parsecmp

import (
	"fmt"
	"sort"
	"strings"

	"github.com/teamlint/baron/svcdef/svcparse"
	"github.com/teamlint/baron/zzverif/svctext"
)

type Parsed struct {
	Svc *svcparse.Service
	Err error
}

func Parse(text string) Parsed {
	lex := svcparse.NewSvcLexer(strings.NewReader(text))
	s, err := svcparse.ParseService(lex)
	return Parsed{s, err}
}

func FieldsKey(fs []*svcparse.Field) string {
	var b strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&b, "%s|%s=%q;", f.Kind, f.Name, f.Value)
	}
	return b.String()
}

func KVsKey(fs []svctext.KV) string {
	var b strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&b, "%s|%s=%q;", f.Kind, f.Kind, f.Value)
	}
	return b.String()
}

// expected is the canonical form of the abstract service: the bindings of an
// rpc are compared as a multiset (baron lists additional bindings first).
func Expected(s svctext.Svc) []string {
	out := []string{"service " + s.Name}
	for _, r := range s.Rpcs {
		if r.Form != "http" {
			continue
		}
		out = append(out, fmt.Sprintf("rpc %s (%s) (%s)", r.Name, r.Req[len(r.Req)-1], r.Resp[len(r.Resp)-1]))
		var bs []string
		for _, b := range append([]svctext.Binding{r.Main}, r.Additional...) {
			bs = append(bs, "  binding "+KVsKey(b.Fields)+" custom "+KVsKey(b.Custom))
		}
		sort.Strings(bs)
		out = append(out, bs...)
	}
	return out
}

func Actual(s *svcparse.Service) []string {
	if s == nil {
		return []string{"<nil>"}
	}
	out := []string{"service " + s.Name}
	for _, m := range s.Methods {
		out = append(out, fmt.Sprintf("rpc %s (%s) (%s)", m.Name, m.RequestType, m.ResponseType))
		var bs []string
		for _, b := range m.HTTPBindings {
			bs = append(bs, "  binding "+FieldsKey(b.Fields)+" custom "+FieldsKey(b.CustomHTTPPattern))
		}
		sort.Strings(bs)
		out = append(out, bs...)
	}
	return out
}

func Diff(want, got []string) string {
	if strings.Join(want, "\n") == strings.Join(got, "\n") {
		return ""
	}
	return "want:\n" + strings.Join(want, "\n") + "\ngot:\n" + strings.Join(got, "\n")
}

func NHTTP(s svctext.Svc) (n, add, cust int) {
	for _, r := range s.Rpcs {
		if r.Form == "http" {
			n++
			add += len(r.Additional)
			for _, b := range append([]svctext.Binding{r.Main}, r.Additional...) {
				if b.Custom != nil {
					cust++
				}
			}
		}
	}
	return
}
