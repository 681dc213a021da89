// Package pspec models proto3 definitions (messages, enums, a service with
// HTTP annotations, spread over files), renders them as .proto text and asks
// the protobuf compiler what they mean.
package pspec

import (
	"fmt"
	"sort"
	"strings"
)

type TypeRef struct {
	Scalar string // "int32", ...
	Ref    string // "Outer.Inner", relative to the package
	Enum   bool   // Ref is an enum
	Ext    string // "google.protobuf.Timestamp"
}

func (t TypeRef) String() string { return t.Scalar + t.Ref + t.Ext }

type Field struct {
	Name  string
	Num   int
	Label string // "", "repeated", "optional"
	Key   string // key type of a map
	Type  TypeRef
	Oneof string // name of the oneof it belongs to
	JSON  string // explicit json_name
}

type Msg struct {
	Name   string
	Fields []*Field // options of one oneof are consecutive
	Nested []*Msg
	Enums  []*Enum
}

type Value struct {
	Name string
	Num  int32
}

type Enum struct {
	Name   string
	Values []Value
}

// Binding is one HTTP rule.
type Binding struct {
	Verb   string // get, put, post, delete, patch, or any kind when Custom
	Custom bool
	Path   string
	Body   string // "", "*" or a field name
}

type Rpc struct {
	Name      string
	Req, Resp TypeRef
	RS, PS    bool // streaming
	Bindings  []Binding
	Annotated bool
	// Braces: an rpc without annotation is written with an empty block.
	Braces bool
	// Relative: the rpc's types are written without the package.
	Relative bool
}

type Service struct {
	Name string
	Rpcs []*Rpc
}

type File struct {
	Name    string // without .proto
	Msgs    []*Msg
	Enums   []*Enum
	Service *Service
	// ServiceAt is the number of messages written before the service.
	ServiceAt int
}

type Spec struct {
	Package   string
	GoPackage string
	Files     []*File
}

var extFiles = map[string]string{
	"google.protobuf.Timestamp":   "google/protobuf/timestamp.proto",
	"google.protobuf.Duration":    "google/protobuf/duration.proto",
	"google.protobuf.Struct":      "google/protobuf/struct.proto",
	"google.protobuf.Any":         "google/protobuf/any.proto",
	"google.protobuf.StringValue": "google/protobuf/wrappers.proto",
	"google.protobuf.Empty":       "google/protobuf/empty.proto",
	"google.protobuf.NullValue":   "google/protobuf/struct.proto",
}

func (s *Spec) Service() *Service {
	for _, f := range s.Files {
		if f.Service != nil {
			return f.Service
		}
	}
	return nil
}

// Walk calls f for every message with its full (relative) name.
func (s *Spec) Walk(f func(file *File, full string, m *Msg)) {
	var rec func(file *File, pre string, m *Msg)
	rec = func(file *File, pre string, m *Msg) {
		f(file, pre+m.Name, m)
		for _, n := range m.Nested {
			rec(file, pre+m.Name+".", n)
		}
	}
	for _, file := range s.Files {
		for _, m := range file.Msgs {
			rec(file, "", m)
		}
	}
}

func (s *Spec) WalkEnums(f func(file *File, full string, e *Enum)) {
	for _, file := range s.Files {
		for _, e := range file.Enums {
			f(file, e.Name, e)
		}
	}
	s.Walk(func(file *File, full string, m *Msg) {
		for _, e := range m.Enums {
			f(file, full+"."+e.Name, e)
		}
	})
}

func (s *Spec) Msg(full string) *Msg {
	var out *Msg
	s.Walk(func(_ *File, n string, m *Msg) {
		if n == full {
			out = m
		}
	})
	return out
}

func (s *Spec) EnumNamed(full string) *Enum {
	var out *Enum
	s.WalkEnums(func(_ *File, n string, e *Enum) {
		if n == full {
			out = e
		}
	})
	return out
}

// owner is the file that declares a type.
func (s *Spec) owner(ref string) *File {
	top := strings.SplitN(ref, ".", 2)[0]
	for _, f := range s.Files {
		for _, m := range f.Msgs {
			if m.Name == top {
				return f
			}
		}
		for _, e := range f.Enums {
			if e.Name == top {
				return f
			}
		}
	}
	return nil
}

func (s *Spec) ref(t TypeRef) string {
	switch {
	case t.Scalar != "":
		return t.Scalar
	case t.Ext != "":
		return "." + t.Ext
	default:
		// fully qualified: relative names can be captured by an inner scope
		if s.Package == "" {
			return "." + t.Ref
		}
		return "." + s.Package + "." + t.Ref
	}
}

// rpcRef is how an rpc names its request and response types.
func (s *Spec) rpcRef(r *Rpc, t TypeRef) string {
	if r.Relative && t.Ext == "" {
		return t.Ref
	}
	return s.ref(t)
}

// Text renders one file.
func (s *Spec) Text(f *File) string {
	var b strings.Builder
	imports := map[string]bool{}
	use := func(t TypeRef) {
		if t.Ext != "" {
			imports[extFiles[t.Ext]] = true
		}
		if t.Ref != "" {
			if o := s.owner(t.Ref); o != nil && o != f {
				imports[o.Name+".proto"] = true
			}
		}
	}
	var scan func(m *Msg)
	scan = func(m *Msg) {
		for _, fl := range m.Fields {
			use(fl.Type)
		}
		for _, n := range m.Nested {
			scan(n)
		}
	}
	for _, m := range f.Msgs {
		scan(m)
	}
	if f.Service != nil {
		for _, r := range f.Service.Rpcs {
			use(r.Req)
			use(r.Resp)
			if r.Annotated {
				imports["google/api/annotations.proto"] = true
			}
		}
	}
	b.WriteString("syntax = \"proto3\";\n\n")
	if s.Package != "" {
		fmt.Fprintf(&b, "package %s;\n\n", s.Package)
	}
	fmt.Fprintf(&b, "option go_package = %q;\n\n", s.GoPackage)
	var im []string
	for k := range imports {
		im = append(im, k)
	}
	sort.Strings(im)
	for _, k := range im {
		fmt.Fprintf(&b, "import %q;\n", k)
	}
	for _, e := range f.Enums {
		s.enum(&b, "", e)
	}
	for i, m := range f.Msgs {
		if f.Service != nil && f.ServiceAt == i {
			s.service(&b, f.Service)
		}
		s.msg(&b, "", m)
	}
	if f.Service != nil && f.ServiceAt >= len(f.Msgs) {
		s.service(&b, f.Service)
	}
	return b.String()
}

func (s *Spec) enum(b *strings.Builder, ind string, e *Enum) {
	fmt.Fprintf(b, "%senum %s {\n", ind, e.Name)
	for _, v := range e.Values {
		fmt.Fprintf(b, "%s  %s = %d;\n", ind, v.Name, v.Num)
	}
	fmt.Fprintf(b, "%s}\n", ind)
}

func (s *Spec) msg(b *strings.Builder, ind string, m *Msg) {
	fmt.Fprintf(b, "%smessage %s {\n", ind, m.Name)
	for _, e := range m.Enums {
		s.enum(b, ind+"  ", e)
	}
	for _, n := range m.Nested {
		s.msg(b, ind+"  ", n)
	}
	open := ""
	for _, f := range m.Fields {
		if f.Oneof != open {
			if open != "" {
				fmt.Fprintf(b, "%s  }\n", ind)
			}
			if f.Oneof != "" {
				fmt.Fprintf(b, "%s  oneof %s {\n", ind, f.Oneof)
			}
			open = f.Oneof
		}
		opt := ""
		if f.JSON != "" {
			opt = fmt.Sprintf(" [json_name = %q]", f.JSON)
		}
		switch {
		case f.Key != "":
			fmt.Fprintf(b, "%s  map<%s, %s> %s = %d%s;\n", ind, f.Key, s.ref(f.Type), f.Name, f.Num, opt)
		case f.Label != "":
			fmt.Fprintf(b, "%s  %s %s %s = %d%s;\n", ind, f.Label, s.ref(f.Type), f.Name, f.Num, opt)
		default:
			fmt.Fprintf(b, "%s  %s %s = %d%s;\n", ind, s.ref(f.Type), f.Name, f.Num, opt)
		}
	}
	if open != "" {
		fmt.Fprintf(b, "%s  }\n", ind)
	}
	fmt.Fprintf(b, "%s}\n", ind)
}

func (s *Spec) service(b *strings.Builder, v *Service) {
	fmt.Fprintf(b, "service %s {\n", v.Name)
	for _, r := range v.Rpcs {
		st := func(x bool) string {
			if x {
				return "stream "
			}
			return ""
		}
		fmt.Fprintf(b, "  rpc %s (%s%s) returns (%s%s)", r.Name, st(r.RS), s.rpcRef(r, r.Req), st(r.PS), s.rpcRef(r, r.Resp))
		if !r.Annotated || len(r.Bindings) == 0 {
			if r.Braces {
				b.WriteString(" {\n  }\n")
			} else {
				b.WriteString(";\n")
			}
			continue
		}
		b.WriteString(" {\n    option (google.api.http) = {\n")
		rule := func(ind string, x Binding) {
			if x.Custom {
				fmt.Fprintf(b, "%scustom {\n%s  kind: %q\n%s  path: %q\n%s}\n", ind, ind, x.Verb, ind, x.Path, ind)
			} else {
				fmt.Fprintf(b, "%s%s: %q\n", ind, x.Verb, x.Path)
			}
			if x.Body != "" {
				fmt.Fprintf(b, "%sbody: %q\n", ind, x.Body)
			}
		}
		rule("      ", r.Bindings[0])
		for _, x := range r.Bindings[1:] {
			b.WriteString("      additional_bindings {\n")
			rule("        ", x)
			b.WriteString("      }\n")
		}
		b.WriteString("    };\n  }\n")
	}
	b.WriteString("}\n")
}

// Whole is all files as one text, for samples and replay files.
func (s *Spec) Whole() string {
	var b strings.Builder
	for _, f := range s.Files {
		fmt.Fprintf(&b, "// ---- %s.proto\n%s\n", f.Name, s.Text(f))
	}
	return b.String()
}
