// Package svctext models the text of a proto service definition with HTTP
// annotations, independently of baron: an abstract service, the tokens it is
// written with, and renderings of those tokens in any layout.
package svctext

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

type KV struct{ Kind, Value string }

type Binding struct {
	Fields    []KV
	Custom    []KV // nil: no custom pattern
	CustomPos int  // number of Fields written before the custom block
}

type Rpc struct {
	Name                  string
	Req, Resp             []string // qualified name parts
	ReqStream, RespStream bool
	Form                  string // "semi", "empty", "options" (other options only), "http"
	Before, After         []Opt  // other options around the annotation
	Main                  Binding
	Additional            []Binding
}

type Svc struct {
	Name string
	Rpcs []Rpc
	Own  [][]Opt // the service's own options, before each rpc and at the end
}

// Opt is an option that is no annotation, or an empty statement.
type Opt struct{ Toks []string }

var otherOptions = [][]string{
	{"deprecated", "=", "true"},
	{"idempotency_level", "=", "NO_SIDE_EFFECTS"},
	{"(", "my", ".", "opt", ")", "=", "\"google.api.http {\""},
	{"(", "my", ".", "opt", ")", ".", "a", "=", "12"},
	{"(", "openapi", ")", "=", "{", "get", ":", "\"/not/a/path\"", "nested", "{", "post", ":", "\"}\"", "}", "}"},
	{"(", "google", ".", "api", ".", "method_signature", ")", "=", "\"a,b;c\""},
}

func genOpts(t *rapid.T, min int) []Opt {
	n := rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2}).Draw(t, "nopt")
	if n < min {
		n = min
	}
	var out []Opt
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 4).Draw(t, "empty") == 0 {
			out = append(out, Opt{})
			continue
		}
		out = append(out, Opt{rapid.SampledFrom(otherOptions).Draw(t, "oopt")})
	}
	return out
}

// Tok is one token; Role marks the constructs a description can attach to.
type Tok struct {
	Text string
	Role string
	Lit  bool   // a string literal,
	Val  string // of this value
}

var identChars = []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
var identStart = identChars[:52]

// Keywords of the grammar are legal identifiers in proto, and must not confuse
// the parser when used as names.
var trickyNames = []string{"service", "rpc", "option", "returns", "get", "post", "custom", "additional_bindings", "body", "Service", "Rpc", "stream_", "google", "api", "http", "message"}

func Ident() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		if rapid.IntRange(0, 9).Draw(t, "tricky") == 0 {
			return rapid.SampledFrom(trickyNames).Draw(t, "name")
		}
		n := rapid.IntRange(0, 9).Draw(t, "len")
		var b strings.Builder
		if rapid.IntRange(0, 7).Draw(t, "us") == 0 {
			b.WriteByte('_')
		}
		b.WriteRune(rapid.SampledFrom(identStart).Draw(t, "c0"))
		for i := 0; i < n; i++ {
			b.WriteRune(rapid.SampledFrom(identChars).Draw(t, "c"))
		}
		return b.String()
	})
}

var valueRunes = []rune(`abcXYZ019/{}._-*:=? ,;'()[]<>#%&|~^$@!+` + "\"\\\n\tλ世")

// Value is the content of a string literal.
func Value() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 5).Draw(t, "vk") {
		case 0:
			return "*"
		case 1, 2:
			n := rapid.IntRange(1, 4).Draw(t, "segs")
			var b strings.Builder
			for i := 0; i < n; i++ {
				if rapid.Bool().Draw(t, "par") {
					b.WriteString("/{" + Ident().Draw(t, "pn") + "}")
				} else {
					b.WriteString("/" + Ident().Draw(t, "ps"))
				}
			}
			return b.String()
		case 3:
			return rapid.SampledFrom([]string{"", "//", "/*", "*/", "}", "{", "service", "//x", "/* x */", "a\"b", `\`, "};", "additional_bindings { get: \"/x\" }"}).Draw(t, "odd")
		default:
			rs := rapid.SliceOfN(rapid.SampledFrom(valueRunes), 0, 14).Draw(t, "vr")
			return string(rs)
		}
	})
}

// Quote writes a string literal both protobuf and Go read as v.
func Quote(v string) string { return QuoteWith(v, '"') }

// QuoteWith uses the given quote, single or double.
func QuoteWith(v string, q rune) string {
	var b strings.Builder
	b.WriteRune(q)
	for _, r := range v {
		switch r {
		case q:
			b.WriteByte('\\')
			b.WriteRune(q)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\t':
			b.WriteString(`\t`)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteRune(q)
	return b.String()
}

var kinds = []string{"get", "put", "post", "delete", "patch", "body", "response_body", "selector"}

func genBinding(t *rapid.T) Binding {
	var b Binding
	nf := rapid.IntRange(0, 3).Draw(t, "nf")
	for i := 0; i < nf; i++ {
		k := rapid.SampledFrom(kinds).Draw(t, "kind")
		b.Fields = append(b.Fields, KV{k, Value().Draw(t, "val")})
	}
	if rapid.IntRange(0, 2).Draw(t, "cust") == 0 {
		b.Custom = []KV{}
		nc := rapid.IntRange(1, 3).Draw(t, "nc")
		for i := 0; i < nc; i++ {
			k := rapid.SampledFrom([]string{"kind", "path"}).Draw(t, "ck")
			b.Custom = append(b.Custom, KV{k, Value().Draw(t, "cv")})
		}
		b.CustomPos = rapid.IntRange(0, len(b.Fields)).Draw(t, "cpos")
	}
	return b
}

func qname(t *rapid.T) []string {
	n := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "qn")
	var p []string
	for i := 0; i < n; i++ {
		s := Ident().Draw(t, "q")
		if s == "stream" {
			s = "stream_"
		}
		p = append(p, s)
	}
	if rapid.IntRange(0, 5).Draw(t, "dot") == 0 {
		p = append([]string{""}, p...) // fully qualified: a leading dot
	}
	return p
}

func Gen() *rapid.Generator[Svc] { return GenMax(6) }

func GenMax(max int) *rapid.Generator[Svc] {
	return rapid.Custom(func(t *rapid.T) Svc {
		s := Svc{Name: Ident().Draw(t, "svc")}
		n := rapid.IntRange(0, max).Draw(t, "nrpc")
		for i := 0; i < n; i++ {
			r := Rpc{
				Name: Ident().Draw(t, "rpc"), Req: qname(t), Resp: qname(t),
				ReqStream:  rapid.IntRange(0, 7).Draw(t, "rs") == 0,
				RespStream: rapid.IntRange(0, 7).Draw(t, "ps") == 0,
				Form:       rapid.SampledFrom([]string{"http", "http", "http", "http", "semi", "empty", "options"}).Draw(t, "form"),
			}
			if r.Form == "options" {
				r.Before = genOpts(t, 1)
			}
			if r.Form == "http" {
				r.Before, r.After = genOpts(t, 0), genOpts(t, 0)
				r.Main = genBinding(t)
				na := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3}).Draw(t, "nadd")
				for j := 0; j < na; j++ {
					r.Additional = append(r.Additional, genBinding(t))
				}
			}
			s.Rpcs = append(s.Rpcs, r)
		}
		own := rapid.IntRange(0, 2).Draw(t, "own") == 0
		for i := 0; i <= n && own; i++ {
			s.Own = append(s.Own, genOpts(t, 0))
		}
		return s
	})
}

// Tokens of the service block, in order.
func (s Svc) Tokens() []Tok {
	var out []Tok
	add := func(ts ...string) {
		for _, x := range ts {
			out = append(out, Tok{Text: x})
		}
	}
	role := func(text, role string) { out = append(out, Tok{Text: text, Role: role}) }
	qual := func(parts []string) {
		for i, p := range parts {
			if i > 0 {
				add(".")
			}
			if p != "" { // an empty first part: fully qualified
				add(p)
			}
		}
	}
	kv := func(k KV, r string) {
		role(k.Kind, r)
		add(":")
		out = append(out, Tok{Text: Quote(k.Value), Lit: true, Val: k.Value})
	}
	opts := func(os []Opt) {
		for _, o := range os {
			if len(o.Toks) > 0 {
				add("option")
			}
			add(o.Toks...)
			add(";")
		}
	}
	add("service", s.Name, "{")
	for i, r := range s.Rpcs {
		if i < len(s.Own) {
			opts(s.Own[i])
		}
		role("rpc", fmt.Sprintf("rpc/%d", i))
		add(r.Name, "(")
		if r.ReqStream {
			add("stream")
		}
		qual(r.Req)
		add(")", "returns", "(")
		if r.RespStream {
			add("stream")
		}
		qual(r.Resp)
		add(")")
		switch r.Form {
		case "semi":
			add(";")
			continue
		case "empty":
			add("{", "}")
			continue
		}
		add("{")
		opts(r.Before)
		if r.Form == "options" {
			add("}")
			continue
		}
		bind := func(b Binding, id string) {
			cust := func() {
				add("custom", "{")
				for j, k := range b.Custom {
					kv(k, fmt.Sprintf("%s/c/%d", id, j))
				}
				add("}")
			}
			for j, k := range b.Fields {
				if b.Custom != nil && b.CustomPos == j {
					cust()
				}
				kv(k, fmt.Sprintf("%s/f/%d", id, j))
			}
			if b.Custom != nil && b.CustomPos == len(b.Fields) {
				cust()
			}
		}
		id := fmt.Sprintf("b/%d/main", i)
		role("option", id)
		add("(", "google", ".", "api", ".", "http", ")", "=", "{")
		bind(r.Main, id)
		for j, b := range r.Additional {
			id := fmt.Sprintf("b/%d/add%d", i, j)
			role("additional_bindings", id)
			add("{")
			bind(b, id)
			add("}")
		}
		add("}", ";")
		opts(r.After)
		add("}")
	}
	if len(s.Own) > len(s.Rpcs) {
		opts(s.Own[len(s.Rpcs)])
	}
	add("}")
	return out
}

func isWord(s string) bool {
	for _, r := range s {
		if r == '_' || (r >= '0' && r <= '9') || (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') {
			return true
		}
		return false
	}
	return false
}

// Plain renders the tokens in a fixed layout.
func Plain(toks []Tok) string {
	var b strings.Builder
	depth := 0
	for i, t := range toks {
		switch t.Text {
		case "{":
			b.WriteString(" {\n")
			depth++
			b.WriteString(strings.Repeat("  ", depth))
			continue
		case "}":
			depth--
			b.WriteString("\n" + strings.Repeat("  ", depth) + "}")
			if !(i+1 < len(toks) && toks[i+1].Text == ";") {
				b.WriteString("\n" + strings.Repeat("  ", depth))
			}
			continue
		case ";":
			b.WriteString(";\n" + strings.Repeat("  ", depth))
			continue
		}
		if strings.HasPrefix(t.Text, "\"") {
			b.WriteString(" " + t.Text + "\n" + strings.Repeat("  ", depth))
			continue
		}
		if i > 0 && isWord(t.Text) && isWord(toks[i-1].Text) {
			b.WriteByte(' ')
		}
		b.WriteString(t.Text)
	}
	return b.String() + "\n"
}

// CommentBody texts are meant to upset a scanner.
var commentWords = []string{"x", " ", "service", "rpc", "{", "}", "\"", "'", "*", "**", "/", "option", ";", "get: \"/lost\"", "//", "é", "\\", "additional_bindings", "0", "{}", "* /", "http://x.y/z", "\r", "\t", "\f", "\v", "\u2028", "\u0085", "\ufeff", "\r "}

func LineComment(t *rapid.T) string {
	return "//" + strings.Join(rapid.SliceOfN(rapid.SampledFrom(commentWords), 0, 5).Draw(t, "lc"), "") + rapid.SampledFrom([]string{"\n", "\n", "\r\n"}).Draw(t, "eol")
}

func BlockComment(t *rapid.T) string {
	ws := rapid.SliceOfN(rapid.SampledFrom(append([]string{"\n", "\n * "}, commentWords...)), 0, 6).Draw(t, "bc")
	c := strings.Join(ws, "")
	c = strings.ReplaceAll(c, "*/", "* ")
	if strings.HasPrefix(c, "/") { // "/*/" is still open, keep it simple
		c = " " + c
	}
	for strings.Contains(c, "*/") {
		c = strings.ReplaceAll(c, "*/", "* ")
	}
	return "/*" + c + "*/"
}

var blanks = []string{" ", "\n", "\t", "  ", "\n\n", " \n\t ", "\r\n", "\n    ", "\f", "\f\n", " \v"}

// Trivia is what may stand between two tokens.
func Trivia(t *rapid.T, need bool, comments bool) string {
	k := rapid.IntRange(0, 9).Draw(t, "tk")
	switch {
	case k < 3 && !need:
		return ""
	case k < 8 || !comments:
		return rapid.SampledFrom(blanks).Draw(t, "ws")
	}
	n := rapid.IntRange(1, 3).Draw(t, "ncom")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(rapid.SampledFrom(append([]string{""}, blanks...)).Draw(t, "w"))
		if rapid.Bool().Draw(t, "line") {
			b.WriteString(LineComment(t))
		} else {
			b.WriteString(BlockComment(t))
		}
	}
	b.WriteString(rapid.SampledFrom(append([]string{""}, blanks...)).Draw(t, "w"))
	return b.String()
}

// Layout renders the tokens with arbitrary trivia between them. comments says
// whether comments may appear.
func Layout(t *rapid.T, toks []Tok, comments bool) string {
	var b strings.Builder
	for i, tk := range toks {
		if i > 0 {
			b.WriteString(Trivia(t, isWord(tk.Text) && isWord(toks[i-1].Text), comments))
		}
		if tk.Lit && rapid.IntRange(0, 5).Draw(t, "quote") == 0 {
			b.WriteString(QuoteWith(tk.Val, '\''))
			continue
		}
		b.WriteString(tk.Text)
	}
	return b.String()
}

// Surround draws declarations to put before and after the service.
func Surround(t *rapid.T, comments bool) (before, after string) {
	tr := func() string {
		c := Trivia(t, true, comments)
		return c
	}
	var decl func(depth int) string
	field := func() string {
		return rapid.SampledFrom([]string{
			"string service = 1;", "int32 rpc=2 ;", "repeated service option = 3;", "map<string, string> returns = 4;",
			"string a = 1 [deprecated = true];", "service.v1.Msg m = 7;", "string s = 9 [json_name = \"service\"];", "string t = 10 [json_name=\"{\"];",
			"oneof service { string x = 11; int32 service_x = 12; }", "reserved 20, 21;", "reserved \"service\";", "string message=22;",
		}).Draw(t, "field")
	}
	decl = func(depth int) string {
		switch rapid.IntRange(0, 7).Draw(t, "decl") {
		case 0:
			return "enum " + Ident().Draw(t, "en") + " { ZERO" + fmt.Sprint(rapid.IntRange(0, 99).Draw(t, "e")) + " = 0; service = 1; }"
		case 1:
			return ";"
		case 2:
			return "option java_package = \"" + rapid.SampledFrom([]string{"a.service.b", "}", "{", "service X {", "//", "/*", "a\\\"b"}).Draw(t, "opt") + "\";"
		case 4:
			return "option java_package = '" + rapid.SampledFrom([]string{"a.service.b", "}", "{", "\"", "service X {", "//", "/*", "a\\'b", ""}).Draw(t, "opt1") + "';"
		case 3:
			return "message Empty" + fmt.Sprint(rapid.IntRange(0, 99).Draw(t, "e")) + " {}"
		default:
			var b strings.Builder
			b.WriteString("message ")
			b.WriteString(rapid.OneOf(Ident(), rapid.SampledFrom([]string{"service", "Service", "rpc", "service_", "myservice"})).Draw(t, "mn"))
			b.WriteString(tr() + "{")
			n := rapid.IntRange(0, 3).Draw(t, "nfield")
			for i := 0; i < n; i++ {
				b.WriteString(tr() + field())
			}
			if depth < 2 && rapid.IntRange(0, 3).Draw(t, "nest") == 0 {
				b.WriteString(tr() + decl(depth+1))
			}
			b.WriteString(tr() + "}")
			return b.String()
		}
	}
	var b strings.Builder
	if rapid.Bool().Draw(t, "hdrc") && comments {
		b.WriteString(LineComment(t))
	}
	b.WriteString("syntax = \"proto3\";" + tr())
	b.WriteString("package " + rapid.SampledFrom([]string{"echo", "a.b.c", "service", "a.service", "service.v1", "rpc"}).Draw(t, "pkg") + ";" + tr())
	b.WriteString("import \"google/api/annotations.proto\";" + tr())
	if rapid.Bool().Draw(t, "imp2") {
		b.WriteString("import public \"a/service.proto\";" + tr())
	}
	n := rapid.IntRange(0, 3).Draw(t, "nbefore")
	for i := 0; i < n; i++ {
		b.WriteString(decl(0) + tr())
	}
	before = b.String()
	b.Reset()
	n = rapid.IntRange(0, 2).Draw(t, "nafter")
	for i := 0; i < n; i++ {
		b.WriteString(tr() + decl(0))
	}
	b.WriteString(rapid.SampledFrom([]string{"", "\n", "\n\n"}).Draw(t, "end"))
	after = b.String()
	return before, after
}

// Commented renders the tokens with comment groups written directly above some
// of the described constructs (token roles), and unrelated comments in gaps
// where no described construct follows. It returns the text and the expected
// description per role.
func Commented(t *rapid.T, toks []Tok) (string, map[string]string) {
	desc := map[string]string{}
	var b strings.Builder
	for i, tk := range toks {
		need := i > 0 && isWord(tk.Text) && isWord(toks[i-1].Text)
		described := strings.HasPrefix(tk.Role, "rpc/") || strings.HasPrefix(tk.Role, "b/")
		if !described {
			if i > 0 {
				b.WriteString(Trivia(t, need, rapid.IntRange(0, 2).Draw(t, "noise") == 0))
			}
			b.WriteString(tk.Text)
			continue
		}
		b.WriteString(Trivia(t, need, false))
		if rapid.IntRange(0, 2).Draw(t, "desc") > 0 {
			if rapid.IntRange(0, 5).Draw(t, "detached") == 0 {
				b.WriteString(rapid.SampledFrom([]string{"// detached\n\n", "/* detached */\n\n", "/* above */\n"}).Draw(t, "det"))
			}
			g := Group(t)
			desc[tk.Role] = g
			b.WriteString(g)
			if !strings.HasSuffix(g, "\n") {
				b.WriteString(rapid.SampledFrom([]string{"\n", " ", "\n\t", ""}).Draw(t, "sep"))
			} else {
				b.WriteString(rapid.SampledFrom([]string{"", "  ", "\t"}).Draw(t, "ind"))
			}
		}
		b.WriteString(tk.Text)
	}
	return b.String(), desc
}

// Group is one comment group: one block comment, or consecutive single-line
// comments (or a mix with no line break between the comments but their own).
func Group(t *rapid.T) string {
	n := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "ncg")
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(rapid.SampledFrom([]string{"", "  ", "\t"}).Draw(t, "gi"))
		}
		if rapid.IntRange(0, 3).Draw(t, "gl") > 0 {
			b.WriteString(LineComment(t))
		} else {
			b.WriteString(BlockComment(t))
		}
	}
	return b.String()
}

// Piece is a stretch of scanner input that ends outside any string or comment.
type Piece struct {
	Text  string
	Whole bool // a string or a comment: must be a single unit
}

// Pieces draws a text for the scanner, every string and comment terminated.
func Pieces(t *rapid.T) []Piece {
	n := rapid.IntRange(0, 40).Draw(t, "np")
	var out []Piece
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 9).Draw(t, "piece") {
		case 0, 1:
			out = append(out, Piece{Text: rapid.SampledFrom([]string{"{", "}", "{", "}", ";", "(", ")", "=", ".", ":", "/ ", "/", "*", "-", "[", "]", ",", "\\", "*/", "世", "\x00"}).Draw(t, "sym")})
		case 2, 3:
			out = append(out, Piece{Text: rapid.OneOf(Ident(), rapid.SampledFrom([]string{"service", "rpc", "message", "9", "naïve", "package"})).Draw(t, "id")})
		case 4, 5:
			out = append(out, Piece{Text: rapid.SampledFrom(append([]string{"\r", "\u2028", "\u00a0", "\v\f"}, blanks...)).Draw(t, "ws")})
		case 6:
			out = append(out, Piece{LineComment(t), true})
		case 7:
			out = append(out, Piece{BlockComment(t), true})
		case 8:
			out = append(out, Piece{QuoteWith(Value().Draw(t, "v"), rapid.SampledFrom([]rune{'"', '"', '\''}).Draw(t, "q")), true})
		default:
			// a service head, so that the state machine of definitions is reached
			out = append(out, Piece{Text: rapid.SampledFrom([]string{"service S {", "service", "message M {", "rpc A(B) returns (C) {}", "package a.service;", "option x = { y: 1 };"}).Draw(t, "head")})
		}
	}
	// A '/' right before a '/' or a comment piece would start another comment.
	for i := range out {
		if !out[i].Whole && strings.HasSuffix(out[i].Text, "/") && (i+1 == len(out) || strings.HasPrefix(out[i+1].Text, "/") || strings.HasPrefix(out[i+1].Text, "*")) {
			out[i].Text += " "
		}
	}
	return out
}
