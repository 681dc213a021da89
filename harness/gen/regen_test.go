package gen

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/scanner"
	"go/token"
	"io"
	"regexp"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/gengokit/generator"
	"github.com/teamlint/baron/svcdef"
	"github.com/teamlint/baron/zzverif/vt"
)

const servicePath = "service/service.go"

func conf() gengokit.Config {
	return gengokit.Config{GoPackage: "example.com/echo/echo-service", PBPackage: "example.com/echo", ServicePath: "/nonexistent-verif", PBPath: "/nonexistent-verif", Version: "v", VersionDate: "d", Transport: "all"}
}

func readAll(m map[string]io.Reader) (map[string]string, error) {
	out := map[string]string{}
	for k, r := range m {
		b, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		out[k] = string(b)
	}
	return out, nil
}

func generate(sd *svcdef.Svcdef, c gengokit.Config, prev map[string]string) (map[string]string, error) {
	c.PreviousFiles = map[string]io.Reader{}
	for k, v := range prev {
		c.PreviousFiles[k] = strings.NewReader(v)
	}
	m, err := generator.GenerateGokit(sd, c)
	if err != nil {
		return nil, err
	}
	return readAll(m)
}

type sample struct {
	Definition []Method
	File       string
}

func (f File) sample() sample { return sample{f.Methods, f.Source()} }

func regenerate(rep *vt.Rep, rt *rapid.T, f File) string {
	var out map[string]string
	var err error
	rep.Guard(rt, f.sample(), func() { out, err = generate(f.SvcDef(), conf(), map[string]string{servicePath: f.Source()}) })
	if err != nil {
		rep.Fail(rt, f.sample(), "a valid service file is rejected: %v", err)
	}
	return out[servicePath]
}

func classes(rep *vt.Rep, f File) (handlers, removed, user int) {
	for _, d := range f.Decls {
		rep.Class(d.Kind)
		switch {
		case d.Removed:
			removed++
		case d.Handler != nil:
			handlers++
		default:
			user++
		}
	}
	return
}

func TestC13(t *testing.T) {
	rep := vt.Start(t, "C13", "random service files (handlers with varied names, receivers and bodies, user types, variables, constants, functions and methods, comments everywhere, unusual formatting) regenerated from a changed definition; every kept declaration must come out with the same text, doc comment and order, formatted, and every comment outside removed functions exactly once; without removals the whole file is compared; non-trivial: at least three kept declarations besides the imports")
	rep.Assume("comments of removed functions may stay behind or not", "exported methods of user types are not user code to keep (they are removed by design)")
	rep.Check(t, 13, vt.N(8000, 200000), func(rt *rapid.T) {
		f := GenFile().Draw(rt, "file")
		handlers, removed, user := classes(rep, f)
		all, want, err := f.Expected()
		if err != nil {
			rep.FailErr(rt, f.sample(), vt.Infra{Err: fmt.Errorf("%v\n%s", err, f.Source())})
		}
		out := regenerate(rep, rt, f)
		odd := false
		for _, d := range f.Decls {
			odd = odd || d.Kind == "odd handler"
		}
		rep.Class(fmt.Sprintf("removed=%v", removed > 0))
		rep.Case(handlers+user >= 3, f.Source()+fmt.Sprint(f.Methods), func() interface{} { return f.sample() })
		got, err := declsOf(out)
		if err != nil {
			rep.Fail(rt, f.sample(), "the regenerated file is not valid Go: %v\n%s", err, out)
		}
		for i, w := range want {
			if i >= len(got) {
				rep.Fail(rt, f.sample(), "declaration lost:\n%s\nregenerated file:\n%s", w.Text, out)
			}
			if f.plain(w, got[i].Text) != f.plain(w, w.Text) {
				rep.Fail(rt, f.sample(), "declaration changed, is\n%s\nwas\n%s\nregenerated file:\n%s", got[i].Text, w.Text, out)
			}
			if tokens(got[i].Doc) != tokens(w.Doc) && !(removed > 0 && strings.HasSuffix(tokens(got[i].Doc), tokens(w.Doc))) {
				rep.Fail(rt, f.sample(), "doc comment changed, is\n%s\nwas\n%s\nof\n%s\nregenerated file:\n%s", got[i].Doc, w.Doc, w.Text, out)
			}
		}
		marks := append([]string{}, f.Loose...)
		for _, d := range f.Decls {
			if !d.Removed {
				marks = append(marks, d.Comments...)
			}
		}
		for _, c := range marks {
			if n := strings.Count(out, c); n != 1 {
				rep.Fail(rt, f.sample(), "the comment %s occurs %d times in the regenerated file:\n%s", c, n, out)
			}
		}
		if removed == 0 && !odd && len(got) >= len(want) {
			// everything up to the added handlers
			head := out
			if len(got) > len(want) {
				head = out[:strings.LastIndex(out, got[len(want)].Text)]
			}
			if tokens(head) != tokens(all) {
				rep.Fail(rt, f.sample(), "the file changed although no declaration was removed, is\n%s\nwas\n%s", head, all)
			}
		}
	})
}

func TestC14(t *testing.T) {
	rep := vt.Start(t, "C14", "as C13; the exported functions of the regenerated file must be the constructor (if there was one) and one handler per rpc, with the service's receiver and the current types; non-trivial: a handler is added or removed or has new types")
	rep.Assume("a handler whose signature is not (context, *pb.X) (*pb.Y, error) is kept as it is")
	rep.Check(t, 14, vt.N(8000, 200000), func(rt *rapid.T) {
		f := GenFile().Draw(rt, "file")
		handlers, removed, _ := classes(rep, f)
		out := regenerate(rep, rt, f)
		rep.Case(removed > 0 || handlers < len(f.Methods) || handlers > 0, f.Source()+fmt.Sprint(f.Methods), func() interface{} { return f.sample() })
		checkHandlers(rep, rt, f, out)
		// and once more from another definition
		f2 := f
		perm := rapid.Permutation(rpcPool).Draw(rt, "rpcs2")
		f2.Methods = nil
		for i := rapid.IntRange(0, 5).Draw(rt, "nrpc2"); i > 0; i-- {
			f2.Methods = append(f2.Methods, Method{perm[i], rapid.SampledFrom(typePool).Draw(rt, "req"), rapid.SampledFrom(typePool).Draw(rt, "resp")})
		}
		var m map[string]string
		var err error
		rep.Guard(rt, f.sample(), func() { m, err = generate(f2.SvcDef(), conf(), map[string]string{servicePath: out}) })
		if err != nil {
			rep.Fail(rt, f.sample(), "regenerating a regenerated file: %v", err)
		}
		checkHandlers(rep, rt, f2, m[servicePath])
	})
}

func checkHandlers(rep *vt.Rep, rt *rapid.T, f File, out string) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "x.go", out, parser.ParseComments)
	if err != nil {
		rep.Fail(rt, f.sample(), "not valid Go: %v\n%s", err, out)
	}
	if b, err := format.Source([]byte(out)); err != nil || string(b) != out {
		rep.Fail(rt, f.sample(), "not formatted:\n%s", out)
	}
	byName := map[string]Method{}
	for _, m := range f.Methods {
		byName[m.Name] = m
	}
	odd := map[string]bool{}
	hadNew := 0
	for _, d := range f.Decls {
		if d.Kind == "odd handler" {
			odd[d.Name] = true
		}
		if d.Kind == "constructor" {
			hadNew++
		}
	}
	seen := map[string]int{}
	news := 0
	expr := func(e ast.Expr) string {
		return out[fset.Position(e.Pos()).Offset:fset.Position(e.End()).Offset]
	}
	recvWant := "*" + strings.ToLower(f.Svc) + "Service"
	for _, d := range file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || !fd.Name.IsExported() {
			continue
		}
		n := fd.Name.Name
		if n == "NewService" && fd.Recv == nil {
			news++
			continue
		}
		seen[n]++
		m, ok := byName[n]
		if !ok {
			rep.Fail(rt, f.sample(), "exported function %s, which is no rpc, is still there:\n%s", n, out)
		}
		if fd.Recv == nil || len(fd.Recv.List) != 1 || expr(fd.Recv.List[0].Type) != recvWant {
			rep.Fail(rt, f.sample(), "handler %s has not the receiver %s:\n%s", n, recvWant, out)
		}
		if odd[n] {
			continue
		}
		base := func(e ast.Expr) string { // "*alias.Type" -> "*.Type"
			s := expr(e)
			if i := strings.Index(s, "."); i >= 0 && strings.HasPrefix(s, "*") {
				return "*" + s[i:]
			}
			return s
		}
		if fd.Type.Params.NumFields() != 2 || base(fd.Type.Params.List[1].Type) != "*."+m.Req {
			rep.Fail(rt, f.sample(), "handler %s: request type is not %s:\n%s", n, m.Req, out)
		}
		if fd.Type.Results.NumFields() != 2 || base(fd.Type.Results.List[0].Type) != "*."+m.Resp {
			rep.Fail(rt, f.sample(), "handler %s: response type is not %s:\n%s", n, m.Resp, out)
		}
	}
	for _, m := range f.Methods {
		if seen[m.Name] != 1 {
			rep.Fail(rt, f.sample(), "%d handlers of the rpc %s:\n%s", seen[m.Name], m.Name, out)
		}
	}
	if news != hadNew {
		rep.Fail(rt, f.sample(), "%d constructors, were %d:\n%s", news, hadNew, out)
	}
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var pbType = regexp.MustCompile(`pb\.[A-Za-z0-9_]+`)

// plain leaves the message types out of a handler with an unusual signature:
// whether they are updated is not specified.
func (f File) plain(w formatted, text string) string {
	for _, d := range f.Decls {
		if d.Kind == "odd handler" && d.Name == w.Name {
			text = pbType.ReplaceAllString(text, "pb.T")
			break
		}
	}
	return tokens(text)
}

// tokens is the text as a list of tokens and comments, so that layout which
// gofmt chooses by context does not count.
func tokens(text string) string {
	var s scanner.Scanner
	fset := token.NewFileSet()
	src := []byte(text)
	s.Init(fset.AddFile("x", -1, len(src)), src, nil, scanner.ScanComments)
	var b strings.Builder
	for {
		_, tok, lit := s.Scan()
		switch {
		case tok == token.EOF:
			return b.String()
		case tok == token.SEMICOLON:
			// written or implied alike
			continue
		case tok == token.COMMENT:
			ls := strings.Split(lit, "\n")
			for i := range ls {
				ls[i] = strings.TrimSpace(ls[i])
			}
			lit = strings.Join(ls, "\n")
		}
		if lit == "" {
			lit = tok.String()
		}
		b.WriteString(lit)
		b.WriteString("\n")
	}
}
