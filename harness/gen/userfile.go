// Package gen decides the properties of regeneration.
package gen

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"strings"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/svcdef"
)

// Method is an rpc of the current definition.
type Method struct{ Name, Req, Resp string }

// Decl is one declaration of a user's service file.
type Decl struct {
	Kind string
	Name string
	// Text renders the declaration; for a handler, with the given types.
	Text func(req, resp string) string
	// Removed: an exported function that is no rpc of the definition, or not a
	// method of the service.
	Removed bool
	// Handler of an rpc of the current definition, with the usual signature.
	Handler *Method
	// Comments are the marks of the comments in and above the declaration.
	Comments []string
}

// File is a service file a user may have.
type File struct {
	Svc     string // Go name of the service
	Methods []Method
	Decls   []Decl
	Header  string
	// Loose comments between declarations.
	Loose []string
	sep   []string
}

// SvcDef is the current definition.
func (f File) SvcDef() *svcdef.Svcdef {
	sd := &svcdef.Svcdef{PkgName: "pb", Service: &svcdef.Service{Name: f.Svc}}
	msgs := map[string]*svcdef.Message{}
	ft := func(n string) *svcdef.FieldType {
		if msgs[n] == nil {
			msgs[n] = &svcdef.Message{Name: n}
			sd.Messages = append(sd.Messages, msgs[n])
		}
		return &svcdef.FieldType{Name: n, Message: msgs[n], StarExpr: true}
	}
	for _, m := range f.Methods {
		sd.Service.Methods = append(sd.Service.Methods, &svcdef.ServiceMethod{Name: m.Name, RequestType: ft(m.Req), ResponseType: ft(m.Resp)})
	}
	return sd
}

// Source is the file before the run.
func (f File) Source() string { return f.render(false) }

// render renders the file; updated says that handlers have the current types
// (and nothing is removed).
func (f File) render(updated bool) string {
	var b strings.Builder
	b.WriteString(f.Header)
	for i, d := range f.Decls {
		b.WriteString(f.sep[i])
		req, resp := "OldRequest", "OldResponse"
		if updated && d.Handler != nil {
			req, resp = d.Handler.Req, d.Handler.Resp
		}
		b.WriteString(d.Text(req, resp))
	}
	b.WriteString(f.sep[len(f.Decls)])
	return b.String()
}

var rpcPool = []string{"Get", "List", "Sum", "Update", "A", "GetX", "Getx", "Delete_Item", "Ping", "New", "NewService", "NewServiceX", "String"}

// some are the beginning, or a continuation, of the types of the earlier file
var typePool = []string{"SumRequest", "SumResponse", "M", "A_B", "Empty", "OldRequest", "X1", "User_Profile", "Old", "OldReq", "OldRequestV2", "OldResponse", "OldResponseX", "Request", "Response"}
var svcPool = []string{"Echo", "UserService", "A", "Order_API", "HTTP", "Echo2"}

type maker struct {
	t *rapid.T
	n int
}

// mark makes a comment mark that occurs once.
func (m *maker) mark() string { m.n++; return fmt.Sprintf("c%dc", m.n) }

func (m *maker) pick(label string, xs ...string) string {
	return rapid.SampledFrom(xs).Draw(m.t, label)
}

func (m *maker) chance(n int) bool { return rapid.IntRange(0, n-1).Draw(m.t, "chance") == 0 }

func (m *maker) stmts(d *Decl, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		m.n++
		c := func() string { x := m.mark(); d.Comments = append(d.Comments, x); return x }
		switch rapid.IntRange(0, 15).Draw(m.t, "stmt") {
		case 0:
			fmt.Fprintf(&b, "x%d := %d // %s\n", m.n, m.n, c())
		case 1:
			b.WriteString("_ = `raw {{.X}} \n  multi\t// not a comment\n`\n")
		case 2:
			b.WriteString("if err := do(1,2 ); err!=nil {\n return nil,err }\n")
		case 3:
			fmt.Fprintf(&b, "/* %s */ _ = \"a\\\"b\"\n", c())
		case 4:
			b.WriteString("for i := 0; i < 3; i++ { continue }\n")
		case 5:
			b.WriteString("go func() { defer recover() }()\n")
		case 6:
			fmt.Fprintf(&b, "switch v := any(s).(type) {\ncase nil:\n// %s\ndefault: _ = v }\n", c())
		case 7:
			fmt.Fprintf(&b, "// %s\n// second line\n", c())
		case 8:
			fmt.Fprintf(&b, "/*\n   %s\n     indented\n*/\n", c())
		case 9:
			fmt.Fprintf(&b, "L%d:\nfor { break L%d }\n", m.n, m.n)
		case 10:
			fmt.Fprintf(&b, "_ = map[string]int{\n\"a\": 1, // %s\n\"bbb\":   2,\n}\n", c())
		case 11:
			b.WriteString("var a,  b = 1+2 *3, 'x'\n")
		case 12:
			b.WriteString("select { case <-ch: default: }\n\n\n\n")
		case 13:
			fmt.Fprintf(&b, "type t%d struct { A int `json:\"a\"`; B,C string }\n", m.n)
		case 14:
			b.WriteString("{ _ = func(x ...int) (y int) { return } (1,2,  3) }\n")
		default:
			b.WriteString("var resp pb.OldRequest\n_ = pb.OldResponse{}\n")
		}
	}
	return b.String()
}

// doc makes a comment directly above a declaration.
func (m *maker) doc(d *Decl) string {
	switch rapid.IntRange(0, 5).Draw(m.t, "doc") {
	case 0, 1:
		x := m.mark()
		d.Comments = append(d.Comments, x)
		return "// " + x + " does things.\n"
	case 2:
		x, y := m.mark(), m.mark()
		d.Comments = append(d.Comments, x, y)
		return "// " + x + "\n//\n// more " + y + "\n"
	case 3:
		x := m.mark()
		d.Comments = append(d.Comments, x)
		return "/* " + x + "\n  block */\n"
	}
	return ""
}

func (m *maker) body(d *Decl) string {
	n := rapid.SampledFrom([]int{0, 1, 1, 2, 4}).Draw(m.t, "nstmt")
	if n == 0 {
		return m.pick("empty", "{}", "{\n}", "{ panic(1) }")
	}
	return "{\n" + m.stmts(d, n) + m.pick("end", "return nil, nil\n", "") + "}"
}

func fixed(s string) func(string, string) string {
	return func(string, string) string { return s }
}

func (m *maker) method(recvType, name string, me *Method) Decl {
	d := Decl{Kind: "method", Name: name, Handler: me}
	doc := m.doc(&d)
	recv := m.pick("recv", "s ", "svc ", "_ ", "") + recvType
	pb := m.pick("alias", "pb", "pb", "pb", "echopb")
	params := m.pick("params", "ctx context.Context, in *%s", "ctx context.Context, in *%s", "c context.Context, request *%s", "_ context.Context, _ *%s", "context.Context, *%s")
	results := m.pick("results", "(*%s, error)", "(*%s, error)", "(resp *%s, err error)", "(*%s,error)")
	if me != nil && m.chance(12) {
		// a signature that is not a handler's
		d.Handler = nil
		d.Kind = "odd handler"
		params = m.pick("odd", "", "a, b int", "a, b *%s", "ctx context.Context, in *%s, more int", "ctx context.Context, in ...*%s", "x struct{}, f func(*%s) error")
		results = m.pick("oddr", "", "error", "(a, b *%s)", "(x, y error)", "(a, b, c int)", "(int, error)", "(*%s, error)")
	}
	body := m.body(&d)
	sub := func(s, typ string) string {
		if strings.Contains(s, "%s") {
			return fmt.Sprintf(s, pb+"."+typ)
		}
		return s
	}
	d.Text = func(req, resp string) string {
		return doc + "func (" + recv + ") " + name + "(" + sub(params, req) + ") " + sub(results, resp) + " " + body
	}
	return d
}

func (m *maker) other(lower string, i int) Decl {
	d := Decl{Kind: "user code", Name: fmt.Sprintf("u%d", i)}
	doc := m.doc(&d)
	u := d.Name
	c := func() string { x := m.mark(); d.Comments = append(d.Comments, x); return x }
	var s string
	switch rapid.IntRange(0, 20).Draw(m.t, "other") {
	case 0:
		s = fmt.Sprintf("type %s struct {\n a int // %s\n  Bcd string `x:\"y\"`\n}", u, c())
	case 1:
		s = fmt.Sprintf("type T%s interface { Do(x int) error; pb.EchoServer }", u)
	case 2:
		s = fmt.Sprintf("var %s, V%s = 1,2 // %s", u, u, c())
	case 3:
		s = fmt.Sprintf("var (\n // %s\n %s   = 1\n\n Ex%s string\n)", c(), u, u)
	case 4:
		s = fmt.Sprintf("const (\n C%s = iota\n %s // %s\n)", u, u, c())
	case 5:
		s = "func " + u + "(x, y int) error " + m.body(&d)
	case 6:
		s = "func (s *" + lower + "Service) " + m.helper(&d) + " " + m.body(&d)
	case 7:
		s = "func (" + m.pick("hrecv", "o *other", "s "+lower+"Service", "other", "s *"+lower+"Service") + ") " + m.helper(&d) + " " + m.body(&d)
	case 8:
		s = "func init() " + m.body(&d)
	case 9:
		s = "func " + u + "[T any, U comparable](x T) (y U) " + m.body(&d)
	case 10:
		s = "type G" + u + "[T any] struct{ x T }"
	case 11:
		s = "type " + u + " = pb.OldRequest"
	case 12:
		s = fmt.Sprintf("var _ pb.EchoServer = (*%sService)(nil)", lower)
	case 13:
		s = fmt.Sprintf("type (\n A%s int\n\n // %s\n %s func(a int, pb string) (*pb.OldResponse, error)\n)", u, c(), u)
	case 14:
		s = fmt.Sprintf("var %s = func() int { // %s\n return 1\n}()", u, c())
	case 15:
		s = fmt.Sprintf("var (\n // %s\n)", c())
	case 16:
		s = m.pick("empty", "var ()", "const ()", "type ()")
	case 17:
		s = "func " + m.pick("blank", "", "(s *"+lower+"Service) ") + "_() " + m.body(&d)
	case 18:
		s = "//go:noinline\nfunc " + u + "() " + m.body(&d)
	case 19:
		s = fmt.Sprintf("//go:generate echo %s\nvar %s, _ = 1, 2", u, u)
	default:
		s = "func (" + m.pick("grecv", "g *G[T]", "*G[K]", "g G[T, U]") + ") " + u + "() {}"
	}
	d.Text = fixed(doc + s)
	return d
}

// helper is the name and signature of an unexported method.
func (m *maker) helper(d *Decl) string {
	if m.chance(2) {
		// like a handler that is not exported
		n := m.pick("rpcname", rpcPool...)
		if m.chance(2) {
			d.Name = strings.ToLower(n)
		} else {
			d.Name += n
		}
	}
	return d.Name + m.pick("hsig", "(ctx context.Context)", "()", "(a int, b string) string", "(ctx context.Context, in *pb.OldRequest) (*pb.OldResponse, error)", "(a, b int) (int, error)", "(in *pb.OldRequest) error", "(ctx context.Context, f func(int) error) (x *pb.OldResponse, err error)", "(xs ...*pb.OldRequest) (a, b int)")
}

// NewService is the constructor as users have it.
func (m *maker) constructor(lower string) Decl {
	d := Decl{Kind: "constructor", Name: "NewService"}
	doc := m.doc(&d)
	s := m.pick("new", "func NewService() *"+lower+"Service ", "func NewService(db *sql.DB, opts ...Option) pb.EchoServer ", "func NewService() (s *"+lower+"Service) ") + m.body(&d)
	d.Text = fixed(doc + s)
	return d
}

// GenFile draws a definition and a service file from an earlier one.
func GenFile() *rapid.Generator[File] {
	return rapid.Custom(func(t *rapid.T) File {
		m := &maker{t: t}
		f := File{Svc: rapid.SampledFrom(svcPool).Draw(t, "svc")}
		lower := strings.ToLower(f.Svc)
		names := rapid.Permutation(rpcPool).Draw(t, "rpcs")
		now := rapid.IntRange(0, 6).Draw(t, "nrpc")
		for i := 0; i < now; i++ {
			f.Methods = append(f.Methods, Method{names[i], rapid.SampledFrom(typePool).Draw(t, "req"), rapid.SampledFrom(typePool).Draw(t, "resp")})
		}
		imports := m.pick("imports", "import (\n\t\"context\"\n\tpb \"example.com/echo\"\n)", "import \"context\"\nimport pb \"example.com/echo\"", "import (\n\tpb \"example.com/echo\"\n\t\"fmt\" // x\n\n\t\"context\"\n\t_ \"embed\"\n)")
		f.Header = m.pick("head", "", "// Copyright\n\n", "// +build !x\n\n", "//go:build !x\n\n", "/* License */\n\n// Package service is mine.\n") + "package service\n\n" + imports + "\n"
		var ds []Decl
		if m.chance(6) == false {
			ds = append(ds, m.constructor(lower))
		}
		d := Decl{Kind: "user code", Name: lower + "Service"}
		doc := m.doc(&d)
		d.Text = fixed(doc + "type " + lower + "Service struct {\n\tpb.Unimplemented" + f.Svc + "Server\n\tdb  *sql.DB\n}")
		ds = append(ds, d)
		for i := 0; i < now; i++ {
			if m.chance(3) {
				continue // new in the definition
			}
			me := f.Methods[i]
			ds = append(ds, m.method("*"+lower+"Service", me.Name, &me))
		}
		// no longer, or never, handlers of the definition
		for i := now; i < len(names) && m.chance(2); i++ {
			d := m.method("*"+lower+"Service", names[i], nil)
			d.Removed, d.Kind = true, "handler without rpc"
			ds = append(ds, d)
		}
		for i := rapid.IntRange(0, 6).Draw(t, "nother"); i > 0; i-- {
			ds = append(ds, m.other(lower, i))
		}
		for i := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "nstray"); i > 0; i-- {
			name := rapid.SampledFrom(names).Draw(t, "strayname")
			var d Decl
			switch rapid.IntRange(0, 3).Draw(t, "stray") {
			case 0:
				if name == "NewService" {
					name = "Newservice" // not the constructor
				}
				d = Decl{}
				doc := m.doc(&d)
				body := m.body(&d)
				d.Text = fixed(doc + "func " + name + "(ctx context.Context, in *pb.OldRequest) (*pb.OldResponse, error) " + body)
			case 1:
				d = m.method(m.pick("orecv", "*other", "other", lower+"Service", "*"+f.Svc+"Service", "*x"+lower+"Service", "*G[T]"), name, nil)
			case 2:
				d = m.method("*"+lower+"Service", fmt.Sprintf("Exported%d", i), nil)
			default:
				d.Text = fixed(fmt.Sprintf("func Helper%d() {}", i))
			}
			if d.Name == "" {
				d.Name = name
			}
			d.Removed, d.Kind, d.Handler = true, "exported non-handler", nil
			ds = append(ds, d)
		}
		f.Decls = rapid.Permutation(ds).Draw(t, "order")
		for i := 0; i <= len(ds); i++ {
			s := m.pick("sep", "\n\n", "\n", "\n\n\n\n", "\n\n")
			if m.chance(6) {
				c := m.mark()
				f.Loose = append(f.Loose, c)
				s = "\n\n" + m.pick("loose", "// %s", "/* %s */", "// %s\n// goes on") + "\n\n"
				s = fmt.Sprintf(s, c)
			}
			if i == len(ds) && m.chance(3) {
				s = strings.TrimRight(s, "\n")
			}
			f.sep = append(f.sep, s)
		}
		return f
	})
}

// declText is the source of a declaration in a formatted file, without its doc
// comment, and the doc comment.
func declText(fset *token.FileSet, src string, d ast.Decl) (text, doc string) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var g *ast.CommentGroup
	switch x := d.(type) {
	case *ast.FuncDecl:
		g = x.Doc
	case *ast.GenDecl:
		g = x.Doc
	}
	if g != nil {
		doc = src[off(g.Pos()):off(g.End())]
	}
	return src[off(d.Pos()):off(d.End())], doc
}

type formatted struct{ Text, Doc, Name, Recv string }

func declsOf(src string) ([]formatted, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var out []formatted
	for _, d := range f.Decls {
		var x formatted
		x.Text, x.Doc = declText(fset, src, d)
		if fd, ok := d.(*ast.FuncDecl); ok {
			x.Name = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				t := fd.Recv.List[0].Type
				x.Recv = src[fset.Position(t.Pos()).Offset:fset.Position(t.End()).Offset]
			}
		}
		out = append(out, x)
	}
	return out, nil
}

// Expected is the file with the current types in its handlers, formatted, as
// declarations; the removed ones are left out.
func (f File) Expected() (all string, kept []formatted, err error) {
	b, err := format.Source([]byte(f.render(true)))
	if err != nil {
		return "", nil, err
	}
	all = string(b)
	ds, err := declsOf(all)
	if err != nil {
		return "", nil, err
	}
	nimp := len(ds) - len(f.Decls)
	for i, d := range ds {
		if i < nimp || !f.Decls[i-nimp].Removed {
			kept = append(kept, d)
		}
	}
	return all, kept, nil
}

func (f File) anyRemoved() bool {
	for _, d := range f.Decls {
		if d.Removed {
			return true
		}
	}
	return false
}
