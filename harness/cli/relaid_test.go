package cli

import (
	"fmt"
	"go/scanner"
	"go/token"
	"regexp"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/teamlint/baron/zzverif/baroncli"
	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/svctext"
	"github.com/teamlint/baron/zzverif/vt"
)

// relaid is a definition and the same definition written differently.
type relaid struct {
	Args   []string
	Order  []string
	Plain  map[string]string
	Other  map[string]string
	Added  map[string]bool // files with declarations that the plain text lacks
	How    []string
	Rpcs   int
	Custom bool
}

func (x relaid) describe() interface{} {
	return map[string]interface{}{"args": x.Args, "order": x.Order, "plain": x.Plain, "written differently": x.Other, "differences": x.How}
}

var protoTok = regexp.MustCompile(`"(?:\\.|[^"\\])*"|\.?[A-Za-z_][A-Za-z0-9_]*(?:\.[A-Za-z_][A-Za-z0-9_]*)*|-?[0-9]+|\S`)

func wordy(s string) bool {
	c := s[len(s)-1]
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// unnested changes block comments that protoc finds to be nested.
func unnested(tr string) string {
	var b strings.Builder
	tr = strings.ReplaceAll(tr, "\ufeff", "_") // protoc-gen-go cannot take over such comments
	for tr != "" {
		end := 1
		switch {
		case strings.HasPrefix(tr, "//"):
			end = strings.Index(tr, "\n") + 1
		case strings.HasPrefix(tr, "/*"):
			end = strings.Index(tr[2:], "*/") + 4
			b.WriteString("/*" + strings.TrimRight(strings.ReplaceAll(tr[2:end-2], "/*", "/ *"), "/") + "*/")
			tr = tr[end:]
			continue
		}
		b.WriteString(tr[:end])
		tr = tr[end:]
	}
	return b.String()
}

// rewrite writes one file differently.
func rewrite(rt *rapid.T, text string, n int, how map[string]bool, custom bool, style string) (string, bool) {
	toks := protoTok.FindAllString(text, -1)
	added := false
	var out []string
	var stack []string         // what the open braces belong to
	var seen []map[string]bool // what was added there
	serial := 0
	extra := func(in string) {
		if style == "layout" || rapid.IntRange(0, 5).Draw(rt, "extra") > 0 {
			return
		}
		serial++
		id := fmt.Sprintf("%d%d", n, serial)
		var pool []string
		switch in {
		case "file":
			pool = []string{
				"message ZzMore" + id + " { string service = 1 ; repeated int32 rpc = 2 ; message ZzIn { } ZzIn in = 3 ; }",
				"enum ZzKind" + id + " { ZZ_NONE" + id + " = 0 ; ZZ_SERVICE" + id + " = 1 ; }", ";",
				"message ZzService" + id + " { oneof rpc { string returns = 1 ; bytes option = 2 ; } map < string , string > m = 3 ; }",
				"message ZzEmpty" + id + " { }",
			}
		case "message":
			pool = []string{"reserved 100001 , 100003 to 100009 ;", `reserved "zz_gone" , "service" ;`, "option deprecated = true ;", ";", "message ZzInner { string x = 1 ; }", "enum ZzWhich { ZZ_WHICH = 0 ; }"}
			if strings.Contains(text, " service =") || strings.Contains(text, " service=") {
				pool[1] = `reserved "zz_gone" ;`
			}
		case "service":
			pool = []string{"option deprecated = true ;", ";"}
			if custom {
				pool = append(pool, `option ( zz_service ) = "service X {" ;`)
			}
		case "rpc":
			pool = []string{"option deprecated = true ;", "option idempotency_level = NO_SIDE_EFFECTS ;", ";"}
			if custom {
				pool = append(pool, `option ( zz_rpc ) = { get : "/lost" note : "}" more { x : 1 } } ;`)
			}
		case "field":
			pool = []string{"[ deprecated = true ]"}
			if custom {
				pool = append(pool, `[ ( zz_field ) = "a;b" ]`, `[ ( zz_field ) = '"' , deprecated = false ]`)
			}
		}
		p := rapid.SampledFrom(pool).Draw(rt, "what")
		if k := regexp.MustCompile(`^(option [(] \S+|option \S+|reserved .|message ZzInner|enum ZzWhich)`).FindString(p); k != "" && in != "file" {
			// only given once
			if seen[len(seen)-1][k] {
				return
			}
			seen[len(seen)-1][k] = true
		}
		how[in+": "+regexp.MustCompile(`[0-9]+`).ReplaceAllString(p, "")] = true
		added = true
		out = append(out, "ADD "+p)
	}
	past := false // past the file's head
	for i, k := range toks {
		top := ""
		if len(stack) > 0 {
			top = stack[len(stack)-1]
		}
		if top == "" && !past && (k == "message" || k == "enum" || k == "service") {
			past = true
			if custom {
				if !strings.Contains(text, "google/protobuf/descriptor.proto") {
					out = append(out, `ADD import "google/protobuf/descriptor.proto" ;`)
				}
				x := fmt.Sprint(n)
				if n == 0 {
					x = ""
				}
				if x == "" {
					out = append(out, `ADD message ZzNote { string get = 1 ; string note = 2 ; message More { int32 x = 1 ; } More more = 3 ; }`,
						`ADD extend google.protobuf.ServiceOptions { string zz_service = 50001 ; }`, `ADD extend google.protobuf.MethodOptions { ZzNote zz_rpc = 50001 ; }`, `ADD extend google.protobuf.FieldOptions { string zz_field = 50001 ; }`)
				}
				added = true
				how["custom options"] = true
			}
			extra("file")
		}
		out = append(out, k)
		switch k {
		case "{":
			kind := "other"
			// the words since the last end of a declaration
			j := i - 1
			for j >= 0 && toks[j] != ";" && toks[j] != "{" && toks[j] != "}" {
				j--
			}
			switch toks[j+1] {
			case "message", "service", "rpc":
				kind = toks[j+1]
			}
			if kind == "rpc" && top != "service" || kind == "message" && top != "" && top != "message" {
				kind = "other"
			}
			stack = append(stack, kind)
			seen = append(seen, map[string]bool{})
			if kind != "other" {
				extra(kind)
			}
		case "}", ";":
			if k == "}" && len(stack) > 0 {
				stack, seen = stack[:len(stack)-1], seen[:len(seen)-1]
			}
			top = ""
			if len(stack) > 0 {
				top = stack[len(stack)-1]
			}
			if k == "}" && i+1 < len(toks) && toks[i+1] == ";" {
				break // the end of an option
			}
			switch {
			case len(stack) == 0 && past:
				extra("file")
			case top == "message" || top == "service" || top == "rpc":
				extra(top)
			}
		}
		// before the end of a field
		if top == "message" && i+1 < len(toks) && toks[i+1] == ";" && k != "]" && k != "}" && i > 0 && toks[i-1] == "=" {
			extra("field")
		}
	}
	var b strings.Builder
	prev := ""
	emit := func(k string) {
		need := prev != "" && wordy(prev) && wordy(k[:1])
		switch style {
		case "crlf", "plain":
			if prev != "" {
				b.WriteString(rapid.SampledFrom([]string{" ", " ", "\n"}).Draw(rt, "blank"))
			}
		case "one line":
			if need {
				b.WriteString(" ")
			}
		default:
			if prev != "" || rapid.Bool().Draw(rt, "first") {
				b.WriteString(unnested(svctext.Trivia(rt, need, style != "blanks")))
			}
		}
		if len(k) > 1 && k[0] == '"' && !strings.ContainsAny(k, `'\`) && rapid.IntRange(0, 5).Draw(rt, "quote") == 0 {
			b.WriteString("'" + k[1:len(k)-1] + "'")
		} else {
			b.WriteString(k)
		}
		prev = k
	}
	for _, k := range out {
		switch {
		case strings.HasPrefix(k, "ADD "):
			for _, y := range regexp.MustCompile(`"(?:\\.|[^"\\])*"|'[^']*'|\S+`).FindAllString(k[4:], -1) {
				emit(y)
			}
		default:
			emit(k)
		}
	}
	b.WriteString(rapid.SampledFrom([]string{"", "\n", "\n\n", "// the end\n", "/* the end */"}).Draw(rt, "end"))
	s := b.String()
	if style == "crlf" {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	if rapid.IntRange(0, 9).Draw(rt, "bom") == 0 {
		s = "\ufeff" + s
		how["byte order mark"] = true
	}
	how[style] = true
	return s, added
}

func genRelaid(rt *rapid.T) (x relaid) {
	s := pspec.Gen(pspec.Opts{MaxFiles: 2, MaxMsgs: 3, MaxRpcs: 4, LocalRefs: true, Streaming: true}).Draw(rt, "spec")
	x.Plain, x.Other, x.Added = map[string]string{}, map[string]string{}, map[string]bool{}
	how := map[string]bool{}
	style := rapid.SampledFrom([]string{"layout", "layout and more", "layout and more", "crlf", "one line", "blanks", "plain"}).Draw(rt, "style")
	for i, f := range s.Files {
		f.Name = []string{"a", "b_x"}[i]
		x.Order = append(x.Order, "api/"+f.Name+".proto")
	}
	// custom options are declared in the file that uses them
	x.Custom = style != "layout" && len(s.Files) == 1 && rapid.IntRange(0, 2).Draw(rt, "custom") == 0
	for i, f := range s.Files {
		n := f.Name + ".proto"
		x.Plain[n] = s.Text(f)
		x.Other[n], x.Added[n] = rewrite(rt, x.Plain[n], i, how, x.Custom, style)
	}
	x.Args = rapid.SampledFrom([][]string{nil, nil, {"-c"}, {"-t", "grpc"}, {"-c", "-t", "nats"}}).Draw(rt, "args")
	for k := range how {
		x.How = append(x.How, k)
	}
	sort.Strings(x.How)
	if v := s.Service(); v != nil {
		x.Rpcs = len(v.Rpcs)
	}
	return x
}

// goTokens are the tokens of a Go file without comments.
func goTokens(src string) string {
	fset := token.NewFileSet()
	var sc scanner.Scanner
	sc.Init(fset.AddFile("", -1, len(src)), []byte(src), nil, 0)
	var b strings.Builder
	for {
		_, tok, lit := sc.Scan()
		if tok == token.EOF {
			return b.String()
		}
		if tok == token.SEMICOLON {
			lit = ";"
		}
		b.WriteString(tok.String() + " " + lit + "\n")
	}
}

func checkRelaid(rep *vt.Rep, x relaid) error {
	w, err := baroncli.New()
	if err != nil {
		return err
	}
	defer w.Close()
	for n, text := range x.Plain {
		w.Write("api/"+n, text)
	}
	r1, err := w.Run(".", append(append([]string{}, x.Args...), x.Order...)...)
	if err != nil {
		return err
	}
	if r1.Code != 0 {
		return fmt.Errorf("the plain definition: exit %d\n%s", r1.Code, r1.Out)
	}
	t1 := w.Tree()
	w2, err := baroncli.New()
	if err != nil {
		return err
	}
	defer w2.Close()
	for n, text := range x.Other {
		w2.Write("api/"+n, text)
	}
	r2, err := w2.Run(".", append(append([]string{}, x.Args...), x.Order...)...)
	if err != nil {
		return err
	}
	rep.Class(x.How...)
	rep.Case(x.Rpcs > 0, fmt.Sprint(x.Other), x.describe)
	if r2.Code != 0 {
		ok, why, err := protoc(x.Other)
		if err != nil {
			return err
		}
		if !ok {
			return vt.Infra{Err: fmt.Errorf("the rewritten definition is not one: %s\n%v", why, x.Other)}
		}
		return fmt.Errorf("exit %d for a definition written differently\n%s", r2.Code, r2.Out)
	}
	t2 := w2.Tree()
	for p, a := range t1 {
		b, ok := t2[p]
		if !ok {
			return fmt.Errorf("%s is not made from the definition written differently", p)
		}
		if strings.HasSuffix(p, ".proto") || a == b {
			continue
		}
		if strings.HasSuffix(p, ".pb.go") {
			added := false
			for n, y := range x.Added {
				if strings.HasPrefix(p, "api/"+strings.TrimSuffix(n, ".proto")) {
					added = y
				}
			}
			if !added && goTokens(a) != goTokens(b) {
				return fmt.Errorf("%s differs by more than comments", p)
			}
			continue
		}
		return fmt.Errorf("%s differs: %s", p, firstDiff(a, b))
	}
	for p := range t2 {
		if _, ok := t1[p]; !ok {
			return fmt.Errorf("%s is made from the definition written differently", p)
		}
	}
	return nil
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			y := "(the end)"
			if i < len(lb) {
				y = lb[i]
			}
			return fmt.Sprintf("line %d: %q, written differently %q", i+1, la[i], y)
		}
	}
	return fmt.Sprintf("line %d: the end, written differently %q", len(la)+1, lb[len(la)])
}

func TestC43(t *testing.T) {
	rep := vt.Start(t, "C43", "pairs of definitions (one or two files): a random one, and the same one written differently: other white space and line ends, comments anywhere, other quotes, a byte order mark, unrelated messages, enums, reserved names, standard and custom options, empty statements; both given to baron, whose output has to be the same but for what the protobuf compiler makes of the additions; non-trivial: the service has an rpc")
	rep.Check(t, 43, vt.N(70, 1500), func(rt *rapid.T) {
		xs := rapid.SliceOfN(rapid.Custom(genRelaid), 4, 10).Draw(rt, "pairs")
		i, err := vt.Parallel(len(xs), func(i int) error { return checkRelaid(rep, xs[i]) })
		if err != nil {
			rep.FailErr(rt, xs[i].describe(), err)
		}
	})
}
