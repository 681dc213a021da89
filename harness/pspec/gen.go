package pspec

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Opts limits what is generated.
type Opts struct {
	MaxFiles  int
	MaxMsgs   int
	MaxRpcs   int
	NoService bool // sometimes no service at all
	Streaming bool
	External  bool // fields of well-known types
	Conflicts bool // field names that clash with generated methods
	LocalRefs bool // no references between files
	NearNames bool // rpc names that differ in case only
	// Wire: bindings put only what HTTP can carry into paths and queries, GET
	// has no body, and paths may be shared by several verbs.
	Wire bool
}

var ScalarTypes = []string{"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"}
var queryTypes = append(append([]string{}, ScalarTypes[:14]...), "string")
var keyTypes = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"}

var fieldNames = []string{"a", "b", "id", "ID", "name", "user_id", "userId", "UserName", "_lead", "trail_", "two__under", "a1", "a_1", "x_1y", "v2_beta", "type", "func", "range", "map", "select", "string", "error", "len", "int32_value", "req", "ctx", "err", "buf", "body", "values", "query_params", "path_params", "r", "w", "service", "rpc", "Http_status_code", "x9", "json", "data_list", "o_k", "URL_path", "s", "str_arr", "_x_y", "n_", "message_", "camelCase", "snake_case_name", "a_b_c_d", "i", "package", "import_path", "nil_value", "append", "status", "color", "kind", "state", "level_1", "e", "http_verb", "error_code", "Color", "XXX", "XXX_Id", "XXXL_size"}
var conflictNames = []string{"reset", "proto_message", "descriptor", "proto_reflect", "get_name", "get_a", "String", "get_id"}
var typeNames = []string{"Request", "Response", "M", "Msg", "User", "user_profile", "lowercase", "HTTPReply", "A1", "Sum_Request", "Empty", "Client", "Server", "Error", "X_y_Z", "Item", "Node", "isX", "service", "Any", "Status", "Config", "ListUsersRequest", "Thing2", "message_a", "Unsafe", "UnimplementedX", "Timestamp"}
var enumNames = []string{"Color", "kind", "State", "Level_1", "E", "HTTPVerb", "Client_kind", "Error_Code"}
var oneofNames = []string{"choice", "kind_of", "server", "client", "value", "oneOf", "x_or_y", "Result", "Server", "is", "date_range"}
var svcNames = []string{"Echo", "echo", "User_service", "UserService", "Server", "Client", "isOk", "Unsafe", "UnsafeThing", "HTTP", "a", "My2Service", "order_api", "X", "GRPC", "StartServer", "PaymentClient"}
var rpcNames = []string{"Get", "get", "ListUsers", "list_users", "Sum", "Concat", "Do1", "DoAll", "HTTPCall", "Type", "Range", "Send", "Recv", "Update_Item", "delete_item", "x", "Watch", "Upload", "Close", "Err", "New", "String", "Ping", "Context", "Endpoints", "Select", "Listusers", "LISTUsers", "Doall", "GetX", "Getx", "get_x", "_2aOddRPCName", "Import", "Map", "Go", "NewService"}

// namer hands out names that are distinct in a scope under every name
// derivation in use (Go name, JSON name, lower case).
type namer struct {
	used map[string]bool
	key  func(string) string
}

func newNamer() *namer { return &namer{map[string]bool{}, flat} }

func flat(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// goKey is equal for names with the same Go name.
func goKey(s string) string {
	var b strings.Builder
	up := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' && i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z' {
			up = true
			continue
		}
		if up {
			c = strings.ToUpper(string(c))[0]
		}
		up = c >= '0' && c <= '9' || c == '_'
		b.WriteByte(c)
	}
	return b.String()
}

func (n *namer) take(t *rapid.T, pool []string, label string) string {
	for i := 0; ; i++ {
		s := rapid.SampledFrom(pool).Draw(t, label)
		if i > 3 {
			s = fmt.Sprintf("%s%c%d", s, 'q'+rune(i%5), len(n.used))
		}
		if !n.used[n.key(s)] {
			n.used[n.key(s)] = true
			return s
		}
	}
}

// Gen draws a definition.
func Gen(o Opts) *rapid.Generator[*Spec] {
	return rapid.Custom(func(t *rapid.T) *Spec { return gen(t, o) })
}

type scopeType struct {
	ref  string
	enum bool
	file int
}

func gen(t *rapid.T, o Opts) *Spec {
	s := &Spec{
		Package:   rapid.SampledFrom([]string{"echo", "", "a.b.v1", "user_api", "Foo", "x"}).Draw(t, "pkg"),
		GoPackage: rapid.SampledFrom([]string{"example.com/x/echopb;pb", "example.com/x/echo", "./;echo", "example.com/a/user-api;userapi"}).Draw(t, "gopkg"),
	}
	nf := rapid.IntRange(1, max(1, o.MaxFiles)).Draw(t, "nfiles")
	top := newNamer()
	var types []scopeType
	fnames := newNamer()
	enumVal := 0
	genEnum := func(name, ref string, fi int) *Enum {
		e := &Enum{Name: name}
		n := rapid.IntRange(1, 4).Draw(t, "nval")
		for i := 0; i < n; i++ {
			enumVal++
			num := int32(i)
			if i > 0 {
				num = rapid.SampledFrom([]int32{int32(i), -int32(i), int32(i) * 1000, 2147483000 + int32(i)}).Draw(t, "num")
			}
			e.Values = append(e.Values, Value{fmt.Sprintf("V%d_%s", enumVal, rapid.SampledFrom([]string{"ZERO", "one", "Two_x"}).Draw(t, "vn")), num})
		}
		types = append(types, scopeType{ref, true, fi})
		return e
	}
	for fi := 0; fi < nf; fi++ {
		f := &File{Name: fnames.take(t, []string{"api", "types", "echo.v1", "user-types", "service", "A", "common_types", "x.pb", "start"}, "file")}
		s.Files = append(s.Files, f)
		ne := rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "nenum")
		for i := 0; i < ne; i++ {
			n := top.take(t, enumNames, "enum")
			f.Enums = append(f.Enums, genEnum(n, n, fi))
		}
		nm := rapid.IntRange(1, max(1, o.MaxMsgs)).Draw(t, "nmsg")
		var all []*Msg
		var shape func(parent string, depth int, used *namer, pre string) *Msg
		shape = func(parent string, depth int, used *namer, pre string) *Msg {
			m := &Msg{Name: used.take(t, typeNames, "msg")}
			full := parent + m.Name
			types = append(types, scopeType{full, false, fi})
			inner := newNamer()
			if depth < 2 {
				for i := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "nnest"); i > 0; i-- {
					m.Nested = append(m.Nested, shape(full+".", depth+1, inner, pre+m.Name))
				}
				for i := rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "nne"); i > 0; i-- {
					n := inner.take(t, enumNames, "enum")
					m.Enums = append(m.Enums, genEnum(n, full+"."+n, fi))
				}
			}
			all = append(all, m)
			return m
		}
		for i := 0; i < nm; i++ {
			f.Msgs = append(f.Msgs, shape("", 0, top, ""))
		}
		for _, m := range all {
			fillFields(t, o, m, types, fi)
		}
	}
	if o.NoService && rapid.IntRange(0, 7).Draw(t, "nosvc") == 0 {
		return s
	}
	fi := len(s.Files) - 1
	f := s.Files[fi]
	f.ServiceAt = rapid.IntRange(0, len(f.Msgs)).Draw(t, "svcat")
	pool := svcNames
	if o.Wire {
		// a service named HTTP, GRPC or NATS is a known finding of C12
		pool = nil
		for _, n := range svcNames {
			if n != "HTTP" && n != "GRPC" {
				pool = append(pool, n)
			}
		}
	}
	svc := &Service{Name: top.take(t, pool, "svc")}
	f.Service = svc
	var msgs []string
	if o.LocalRefs {
		types = inFile(types, fi)
	}
	for _, x := range types {
		if !x.enum {
			msgs = append(msgs, x.ref)
		}
	}
	rn := newNamer()
	if o.NearNames {
		rn.key = goKey
	}
	nr := rapid.IntRange(0, max(1, o.MaxRpcs)).Draw(t, "nrpc")
	for i := 0; i < nr; i++ {
		r := &Rpc{Name: rn.take(t, rpcNames, "rpc"),
			Req: TypeRef{Ref: rapid.SampledFrom(msgs).Draw(t, "req")}, Resp: TypeRef{Ref: rapid.SampledFrom(msgs).Draw(t, "resp")}}
		if o.Streaming && rapid.IntRange(0, 5).Draw(t, "stream") == 0 {
			r.RS = rapid.Bool().Draw(t, "rs")
			r.PS = rapid.Bool().Draw(t, "ps")
		}
		if !r.RS && !r.PS && rapid.IntRange(0, 3).Draw(t, "ann") > 0 {
			r.Annotated = true
			nb := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "nbind")
			for j := 0; j < nb; j++ {
				b := genBinding(t, s, r, i, j)
				if o.Wire {
					b = s.wire(t, svc, r, b)
				}
				r.Bindings = append(r.Bindings, b)
			}
		}
		r.Braces = !r.Annotated && rapid.Bool().Draw(t, "braces")
		r.Relative = rapid.IntRange(0, 3).Draw(t, "rel") > 0
		svc.Rpcs = append(svc.Rpcs, r)
	}
	return s
}

func inFile(types []scopeType, fi int) (out []scopeType) {
	for _, x := range types {
		if x.file == fi {
			out = append(out, x)
		}
	}
	return
}

func fillFields(t *rapid.T, o Opts, m *Msg, types []scopeType, fi int) {
	names := newNamer()
	// field names, nested type names and oneofs share a scope
	for _, n := range m.Nested {
		names.used[flat(n.Name)] = true
	}
	for _, n := range m.Enums {
		names.used[flat(n.Name)] = true
	}
	pool := fieldNames
	if o.Conflicts {
		pool = append(append([]string{}, fieldNames...), conflictNames...)
	}
	num := 0
	nextNum := func() int {
		num += rapid.SampledFrom([]int{1, 1, 1, 2, 100}).Draw(t, "num")
		if num >= 19000 && num < 20000 {
			num = 20000
		}
		return num
	}
	// often, for the wire, a message that a query can carry
	plain := o.Wire && rapid.IntRange(0, 2).Draw(t, "plain") == 0
	var enums []scopeType
	for _, x := range types {
		if x.enum && (!o.LocalRefs || x.file == fi) {
			enums = append(enums, x)
		}
	}
	typ := func() TypeRef {
		if plain {
			if len(enums) > 0 && rapid.IntRange(0, 2).Draw(t, "enumk") == 0 {
				x := rapid.SampledFrom(enums).Draw(t, "eref")
				return TypeRef{Ref: x.ref, Enum: true}
			}
			return TypeRef{Scalar: rapid.SampledFrom(queryTypes).Draw(t, "qscalar")}
		}
		switch k := rapid.IntRange(0, 9).Draw(t, "tk"); {
		case k < 6:
			return TypeRef{Scalar: rapid.SampledFrom(ScalarTypes).Draw(t, "scalar")}
		case k == 6 && o.External:
			return TypeRef{Ext: rapid.SampledFrom([]string{"google.protobuf.Timestamp", "google.protobuf.Duration", "google.protobuf.Struct", "google.protobuf.StringValue", "google.protobuf.Any"}).Draw(t, "ext")}
		default:
			pool := types
			if o.LocalRefs {
				pool = inFile(types, fi)
			}
			if len(pool) == 0 {
				return TypeRef{Scalar: "string"}
			}
			x := rapid.SampledFrom(pool).Draw(t, "ref")
			return TypeRef{Ref: x.ref, Enum: x.enum}
		}
	}
	// mk names a field; those of a message or enum type are often named after it
	mk := func(f *Field) *Field {
		if i := strings.LastIndex(f.Type.Ref, ".") + 1; f.Type.Ref != "" && rapid.IntRange(0, 2).Draw(t, "astype") == 0 {
			n := f.Type.Ref[i:]
			if rapid.Bool().Draw(t, "lower") {
				n = strings.ToLower(n)
			}
			if !names.used[flat(n)] {
				names.used[flat(n)] = true
				f.Name = n
				return f
			}
		}
		f.Name = names.take(t, pool, "fn")
		return f
	}
	n := rapid.IntRange(0, 6).Draw(t, "nfield")
	if plain {
		n += 4
	}
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, 11).Draw(t, "fk")
		if plain {
			k = []int{0, 0, 0, 6, 6, 8, 8, 8, 8, 10, 10, 10}[k]
		}
		switch {
		case k < 6:
			m.Fields = append(m.Fields, mk(&Field{Num: nextNum(), Type: typ()}))
		case k < 8:
			m.Fields = append(m.Fields, mk(&Field{Num: nextNum(), Type: typ(), Label: "repeated"}))
		case k < 9:
			m.Fields = append(m.Fields, mk(&Field{Num: nextNum(), Type: typ(), Label: "optional"}))
		case k < 10:
			m.Fields = append(m.Fields, mk(&Field{Num: nextNum(), Type: typ(), Key: rapid.SampledFrom(keyTypes).Draw(t, "key")}))
			names.used[flat(m.Fields[len(m.Fields)-1].Name)+"entry"] = true
		default:
			on := names.take(t, oneofNames, "oneof")
			no := rapid.IntRange(1, 3).Draw(t, "nopt")
			for j := 0; j < no; j++ {
				m.Fields = append(m.Fields, mk(&Field{Num: nextNum(), Type: typ(), Oneof: on}))
			}
		}
		if rapid.IntRange(0, 9).Draw(t, "json") == 0 {
			f := m.Fields[len(m.Fields)-1]
			f.JSON = fmt.Sprintf("j%dName", num)
		}
	}
}

// sufs are what may follow a variable in its segment.
var sufs = []string{":cancel", ":undo", "", ".json", "-x", ":cancel:now", "$"}

// genBinding draws one HTTP rule for the rpc; paths are distinct over the
// service (i, j number the rpc and the rule).
func genBinding(t *rapid.T, s *Spec, r *Rpc, i, j int) Binding {
	var b Binding
	m := s.Msg(r.Req.Ref)
	verbs := []string{"get", "put", "post", "delete", "patch"}
	b.Verb = rapid.SampledFrom(verbs).Draw(t, "verb")
	if rapid.IntRange(0, 5).Draw(t, "custom") == 0 {
		b.Custom = true
		b.Verb = rapid.SampledFrom([]string{"OPTIONS", "LIST", "post", "Search"}).Draw(t, "kind")
	}
	b.Path = rapid.SampledFrom([]string{"", "/v1", "/api/x"}).Draw(t, "pre") + fmt.Sprintf("/r%d/b%d", i, j)
	var cand []*Field
	for _, f := range m.Fields {
		if f.Oneof == "" {
			cand = append(cand, f)
		}
	}
	np := rapid.IntRange(0, min(3, len(cand))).Draw(t, "npath")
	perm := rapid.Permutation(cand).Draw(t, "perm")
	for k := 0; k < np; k++ {
		pre, suf := "", ""
		if rapid.IntRange(0, 4).Draw(t, "partly") == 0 {
			suf = rapid.SampledFrom(sufs).Draw(t, "suf")
			pre = rapid.SampledFrom([]string{"", "", "v", "no-", "x.", "@"}).Draw(t, "pre")
		}
		b.Path += "/" + pre + "{" + perm[k].Name + "}" + suf
		if rapid.Bool().Draw(t, "lit") {
			b.Path += "/" + rapid.SampledFrom([]string{"x", "items", "a-b", "v1.2", "UPPER", "items:batch", "~a"}).Draw(t, "seg")
		}
	}
	if rapid.IntRange(0, 7).Draw(t, "slash") == 0 {
		b.Path += "/"
	}
	if j > 0 && rapid.IntRange(0, 3).Draw(t, "same") == 0 {
		// the path of an earlier rule of the rpc, with its own body
		b.Path = r.Bindings[rapid.IntRange(0, j-1).Draw(t, "samej")].Path
	}
	bk := rapid.IntRange(0, 2).Draw(t, "bodyk")
	if bk < 2 && r.plain(s) && rapid.Bool().Draw(t, "nobody") {
		bk = 2
	}
	switch bk {
	case 0:
		b.Body = "*"
	case 1:
		if len(cand) > np {
			b.Body = perm[np+rapid.IntRange(0, len(cand)-np-1).Draw(t, "bf")].Name
		}
	}
	return b
}

// PathOK: the field can be a path segment.
func PathOK(f *Field) bool {
	return f.Oneof == "" && f.Key == "" && f.Label != "repeated" && (f.Type.Enum || f.Type.Scalar != "" && f.Type.Scalar != "bytes")
}

// QueryOK: the field can be a query parameter.
func QueryOK(f *Field) bool {
	return f.Key == "" && (f.Type.Enum || f.Type.Scalar != "" && f.Type.Scalar != "bytes")
}

// CutSeg takes the segment of a path template with a variable apart: what is
// before the variable, its name, and what is behind it.
func CutSeg(seg string) (pre, name, suf string, ok bool) {
	pre, rest, ok := strings.Cut(seg, "{")
	if !ok {
		return seg, "", "", false
	}
	name, suf, _ = strings.Cut(rest, "}")
	return pre, name, suf, true
}

// PathVars lists the fields a path template binds.
func PathVars(path string) (out []string) {
	for _, p := range strings.Split(path, "/") {
		if _, v, _, ok := CutSeg(p); ok {
			out = append(out, v)
		}
	}
	return
}

// Overlap: some path may fit both templates.
func Overlap(a, b string) bool {
	as, bs := strings.Split(a, "/"), strings.Split(b, "/")
	if len(as) != len(bs) {
		return false
	}
	for i, x := range as {
		ap, _, au, av := CutSeg(x)
		bp, _, bu, bv := CutSeg(bs[i])
		switch {
		case !av && !bv && ap != bp,
			av && !bv && !(strings.HasPrefix(bp, ap) && strings.HasSuffix(bp, au) && len(bp) > len(ap+au)),
			!av && bv && !(strings.HasPrefix(ap, bp) && strings.HasSuffix(ap, bu) && len(ap) > len(bp+bu)),
			av && bv && !(strings.HasPrefix(ap, bp) || strings.HasPrefix(bp, ap)),
			av && bv && !(strings.HasSuffix(au, bu) || strings.HasSuffix(bu, au)):
			return false
		}
	}
	return true
}

// Locate is where a binding carries a field: "path", "query" or "body".
func (b Binding) Locate(f *Field) string {
	if f.Oneof == "" {
		for _, v := range PathVars(b.Path) {
			if v == f.Name {
				return "path"
			}
		}
	}
	if b.Body == "*" || f.Oneof == "" && b.Body == f.Name {
		return "body"
	}
	return "query"
}

// wire bends a drawn binding into what HTTP can carry.
func (s *Spec) wire(t *rapid.T, svc *Service, r *Rpc, b Binding) Binding {
	m := s.Msg(r.Req.Ref)
	field := func(n string) *Field {
		for _, f := range m.Fields {
			if f.Name == n {
				return f
			}
		}
		return nil
	}
	// path variables must be carried by a path
	var ps []string
	for _, p := range strings.Split(b.Path, "/") {
		if _, v, _, ok := CutSeg(p); ok && !PathOK(field(v)) {
			continue
		}
		ps = append(ps, p)
	}
	b.Path = strings.Join(ps, "/")
	// the path of another binding, with another verb
	var earlier []Binding
	for _, x := range append(append([]*Rpc{}, svc.Rpcs...), r) {
		earlier = append(earlier, x.Bindings...)
	}
	if len(earlier) > 0 && rapid.IntRange(0, 3).Draw(t, "share") == 0 {
		e := rapid.SampledFrom(earlier).Draw(t, "shared")
		var own []*Field
		for _, f := range m.Fields {
			if PathOK(f) {
				own = append(own, f)
			}
		}
		if n := len(PathVars(e.Path)); n <= len(own) {
			perm := rapid.Permutation(own).Draw(t, "vars")
			k := 0
			var ps []string
			for _, p := range strings.Split(e.Path, "/") {
				if pre, _, suf, ok := CutSeg(p); ok {
					if rapid.IntRange(0, 3).Draw(t, "other verb") == 0 {
						suf = rapid.SampledFrom(sufs).Draw(t, "suf")
					}
					p = pre + "{" + perm[k].Name + "}" + suf
					k++
				}
				ps = append(ps, p)
			}
			b.Path = strings.Join(ps, "/")
		}
	}
	for _, v := range PathVars(b.Path) {
		if v == b.Body {
			b.Body = ""
		}
	}
	if b.Verb == "get" && !b.Custom {
		b.Body = ""
	}
	for _, f := range m.Fields {
		if b.Locate(f) == "query" && !QueryOK(f) {
			b.Body = "*"
		}
	}
	verbs := []string{"put", "post", "delete", "patch", "OPTIONS", "LIST", "Search"}
	used := func(v string) bool {
		for _, e := range earlier {
			if strings.EqualFold(e.Verb, v) && Overlap(e.Path, b.Path) {
				return true
			}
		}
		return strings.EqualFold(v, "get") && b.Body != ""
	}
	for i := 0; used(b.Verb); i++ {
		if i < len(verbs) {
			b.Verb, b.Custom = verbs[i], i >= 4
		} else {
			b.Verb, b.Custom = fmt.Sprintf("Y%d", i), true
		}
	}
	return b
}

// plain: a query can carry the whole request.
func (r *Rpc) plain(s *Spec) bool {
	for _, f := range s.Msg(r.Req.Ref).Fields {
		if !QueryOK(f) {
			return false
		}
	}
	return true
}
