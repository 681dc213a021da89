// Package tmpl decides the property of path templates and binding labels.
package tmpl

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/gengokit/httptransport"
	"github.com/teamlint/baron/svcdef"
	"github.com/teamlint/baron/zzverif/vt"
)

type seg struct {
	Lit   string
	Param string // set: a parameter
	Pre   string // text of the segment before the parameter
	Suf   string // and behind it
	Go    string // Go name of the field
	Enum  bool
}

type tmplCase struct {
	Segs  []seg
	Vals  []string
	Slash bool // the template ends in a slash
	Extra int  // segments more (or less) than the template has
}

func (c tmplCase) template() string {
	var b strings.Builder
	for _, s := range c.Segs {
		b.WriteByte('/')
		if s.Param != "" {
			b.WriteString(s.Pre + "{" + s.Param + "}" + s.Suf)
		} else {
			b.WriteString(s.Lit)
		}
	}
	if c.Slash {
		b.WriteByte('/')
	}
	return b.String()
}

func (c tmplCase) filled() string {
	var b strings.Builder
	for i, s := range c.Segs {
		b.WriteByte('/')
		if s.Param != "" {
			b.WriteString(c.Vals[i])
		} else {
			b.WriteString(s.Lit)
		}
	}
	if c.Slash {
		b.WriteByte('/')
	}
	return b.String()
}

var names = [][2]string{{"a", "A"}, {"b", "B"}, {"user_id", "UserId"}, {"userId", "UserId_"}, {"id", "Id"}, {"x1", "X1"}, {"a_1", "A_1"}, {"_lead", "XLead"}, {"trail_", "Trail_"}, {"two__under", "Two_Under"}, {"ID", "ID"}, {"name", "Name"}, {"v2_beta", "V2Beta"}, {"kind", "Kind"}, {"longer_field_name_9", "LongerFieldName_9"}}

var gen = rapid.Custom(func(t *rapid.T) tmplCase {
	var c tmplCase
	n := rapid.IntRange(1, 8).Draw(t, "n")
	perm := rapid.Permutation(names).Draw(t, "names")
	partly := rapid.IntRange(0, 3).Draw(t, "partly") == 0
	for i := 0; i < n; i++ {
		if rapid.Bool().Draw(t, "param") {
			nm := perm[i]
			if nm[0] == "userId" {
				nm = [2]string{"uid", "Uid"}
			}
			c.Segs = append(c.Segs, seg{Param: nm[0], Go: nm[1], Enum: rapid.IntRange(0, 4).Draw(t, "enum") == 0})
			if partly && rapid.Bool().Draw(t, "this") {
				x := &c.Segs[len(c.Segs)-1]
				x.Pre = rapid.SampledFrom([]string{"", "", "v", "no-", "@", "req."}).Draw(t, "pre")
				x.Suf = rapid.SampledFrom([]string{":cancel", ":undo", "", ".json", "-x", "$"}).Draw(t, "suf")
			}
			c.Vals = append(c.Vals, rapid.OneOf(rapid.SampledFrom([]string{"1", "-5", "a b", "ü", "{a}", "{", "}", "v1", "%20", "a.b", "?", "x=y&z", "+"}), rapid.StringMatching(`[^/]{1,12}`)).Draw(t, "val"))
		} else {
			c.Segs = append(c.Segs, seg{Lit: rapid.SampledFrom([]string{"v1", "sum", "a", "b", "items", "user_id", "a-b", "v1.2", "UPPER", "x~y", "1", "id", "req", "fmt.Sprint"}).Draw(t, "lit")})
			c.Vals = append(c.Vals, "")
		}
	}
	c.Slash = rapid.IntRange(0, 7).Draw(t, "slash") == 0
	c.Extra = rapid.SampledFrom([]int{0, 0, 0, 1, 2, -1}).Draw(t, "extra")
	return c
})

func TestC27(t *testing.T) {
	rep := vt.Start(t, "C27", "random path templates of literal and parameter segments filled with random non-empty values; the values read back, the parameter positions, the rejection of other numbers of segments, and the sections for clients (parsed as Go expressions) are compared with the template as generated; and random methods with up to 120 bindings for the labels; non-trivial: at least one parameter and one literal")
	rep.Check(t, 27, vt.N(300000, 6000000), func(rt *rapid.T) {
		c := gen.Draw(rt, "case")
		var err error
		var p interface{}
		func() {
			defer func() { p = recover() }()
			err = check(c)
		}()
		if p != nil {
			rep.Fail(rt, c, "panic: %v", p)
		}
		if err != nil {
			rep.FailErr(rt, c, err)
		}
		np, nl := 0, 0
		for _, s := range c.Segs {
			if s.Param != "" {
				np++
			} else {
				nl++
			}
		}
		rep.Class(fmt.Sprintf("params=%d", np), fmt.Sprintf("extra=%d", c.Extra))
		rep.Case(np > 0 && nl > 0, fmt.Sprint(c), func() interface{} { return c })
	})
	rep.Check(t, 2727, vt.N(300, 10000), func(rt *rapid.T) {
		n := rapid.OneOf(rapid.IntRange(1, 120), rapid.IntRange(1, 1200)).Draw(rt, "bindings")
		name := rapid.SampledFrom([]string{"Sum", "Get", "A", "GetOne", "X_1"}).Draw(rt, "name")
		if err := labels(name, n); err != nil {
			rep.FailErr(rt, map[string]interface{}{"method": name, "bindings": n}, err)
		}
		rep.Class("labels")
	})
}

func labels(name string, n int) error {
	m := &svcdef.ServiceMethod{Name: name, RequestType: &svcdef.FieldType{Name: "Req"}, ResponseType: &svcdef.FieldType{Name: "Resp"}}
	for i := 0; i < n; i++ {
		m.Bindings = append(m.Bindings, &svcdef.HTTPBinding{Verb: "get", Path: fmt.Sprintf("/p%d", i)})
	}
	h := httptransport.NewHelper(&svcdef.Service{Name: "S", Methods: []*svcdef.ServiceMethod{m}})
	if len(h.Methods) != 1 || len(h.Methods[0].Bindings) != n {
		return fmt.Errorf("the helper does not list %d bindings of one method", n)
	}
	seen := map[string]int{}
	for i, b := range h.Methods[0].Bindings {
		if j, ok := seen[b.Label]; ok {
			return fmt.Errorf("bindings %d and %d of a method have the same label %s", j, i, b.Label)
		}
		seen[b.Label] = i
		if !token.IsIdentifier(b.Label) || !strings.HasPrefix(b.Label, name) {
			return fmt.Errorf("label %q of binding %d is not an identifier that starts with the method's name", b.Label, i)
		}
		if b.PathTemplate != fmt.Sprintf("/p%d", i) {
			return fmt.Errorf("binding %d has the path %s", i, b.PathTemplate)
		}
	}
	return nil
}

func check(c tmplCase) error {
	tm := c.template()
	for _, s := range c.Segs {
		if s.Pre+s.Suf != "" {
			// these are for clients only
			return sections(c, tm)
		}
	}
	want := map[string]int{}
	for i, s := range c.Segs {
		if s.Param != "" {
			want[s.Param] = i + 1
		}
	}
	got := httptransport.BuildParamMap(tm)
	if len(got) != len(want) {
		return fmt.Errorf("BuildParamMap(%q) = %v, want %v", tm, got, want)
	}
	for k, v := range want {
		if got[k] != v {
			return fmt.Errorf("BuildParamMap(%q)[%q] = %d, want %d", tm, k, got[k], v)
		}
	}
	url := c.filled()
	switch {
	case c.Extra > 0:
		url = strings.TrimSuffix(url, "/") + strings.Repeat("/more", c.Extra)
	case c.Extra < 0:
		url = strings.TrimSuffix(url, "/")
		url = url[:strings.LastIndex(url, "/")]
	}
	vals, err := httptransport.PathParams(url, tm)
	if c.Extra != 0 {
		if err == nil {
			return fmt.Errorf("PathParams(%q, %q) = %v, although the number of segments differs", url, tm, vals)
		}
	} else {
		if err != nil {
			return fmt.Errorf("PathParams(%q, %q): %v", url, tm, err)
		}
		if len(vals) != len(want) {
			return fmt.Errorf("PathParams(%q, %q) = %v", url, tm, vals)
		}
		for i, s := range c.Segs {
			if s.Param == "" {
				continue
			}
			if v, ok := vals[s.Param]; !ok || v != c.Vals[i] {
				return fmt.Errorf("PathParams(%q, %q)[%q] = %q, want %q", url, tm, s.Param, v, c.Vals[i])
			}
		}
	}
	return sections(c, tm)
}

func sections(c tmplCase, tm string) error {
	b := &httptransport.Binding{PathTemplate: tm}
	for _, s := range c.Segs {
		if s.Param != "" {
			b.Fields = append(b.Fields, &httptransport.Field{Name: s.Go, QueryParamName: s.Param, CamelName: s.Go, Location: "path", IsEnum: s.Enum, IsBaseType: !s.Enum, GoType: "string"})
		}
	}
	secs := b.PathSections()
	wantN := len(c.Segs) + 1
	if c.Slash {
		wantN++
	}
	if len(secs) != wantN {
		return fmt.Errorf("PathSections of %q: %d sections, want %d: %q", tm, len(secs), wantN, secs)
	}
	for i, s := range secs {
		e, err := parser.ParseExpr(s)
		if err != nil {
			return fmt.Errorf("section %q of %q is no expression: %v", s, tm, err)
		}
		if i == 0 || i > len(c.Segs) {
			if !isLit(e, "") {
				return fmt.Errorf("section %d of %q is %s, want an empty literal", i, tm, s)
			}
			continue
		}
		w := c.Segs[i-1]
		if w.Param == "" {
			if !isLit(e, w.Lit) {
				return fmt.Errorf("section %d of %q is %s, want the literal %q", i, tm, s, w.Lit)
			}
			continue
		}
		var refs []string
		braces := false
		ast.Inspect(e, func(n ast.Node) bool {
			if x, ok := n.(*ast.BasicLit); ok && strings.ContainsAny(x.Value, "{}") {
				braces = true
			}
			if x, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := x.X.(*ast.Ident); ok && id.Name == "req" {
					refs = append(refs, x.Sel.Name)
				}
			}
			return true
		})
		if braces || len(refs) != 1 || refs[0] != w.Go && refs[0] != "Get"+w.Go {
			return fmt.Errorf("section %d of %q is %s, want a use of the field %s", i, tm, s, w.Go)
		}
	}
	return nil
}

func isLit(e ast.Expr, want string) bool {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	l, ok := e.(*ast.BasicLit)
	if !ok || l.Kind != token.STRING {
		return false
	}
	s, err := strconv.Unquote(l.Value)
	return err == nil && s == want
}
