// Package svcdefc decides the properties of the service model and of name
// derivation.
package svcdefc

import (
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"sync"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/teamlint/baron/svcdef"
	"github.com/teamlint/baron/zzverif/pspec"
	"github.com/teamlint/baron/zzverif/vt"
)

// Build runs svcdef.New on the compiled definition.
func Build(s *pspec.Spec, c *pspec.Compiled) (*svcdef.Svcdef, error) {
	gofiles := map[string]io.Reader{}
	for p, txt := range c.GoFile {
		gofiles[p] = strings.NewReader(txt)
	}
	protos := map[string]io.Reader{}
	for i, f := range s.Files {
		protos[c.Protos[i]] = strings.NewReader(s.Text(f))
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	return svcdef.New(gofiles, protos)
}

// NewFrom runs svcdef.New on the texts of the files.
func NewFrom(gos, protos map[string]string) (*svcdef.Svcdef, error) {
	g, p := map[string]io.Reader{}, map[string]io.Reader{}
	for k, v := range gos {
		g[k] = strings.NewReader(v)
	}
	for k, v := range protos {
		p[k] = strings.NewReader(v)
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	return svcdef.New(g, p)
}

// baron does not promise that two analyses may run at once
var buildMu sync.Mutex

// Compile compiles the spec in a fresh directory, removed by the returned func.
func Compile(s *pspec.Spec) (*pspec.Compiled, func(), error) {
	dir := vt.Scratch("spec")
	done := func() { os.RemoveAll(dir) }
	c, err := s.Compile(dir, vt.RepoDir())
	if err != nil {
		done()
		return nil, nil, vt.Infra{Err: fmt.Errorf("%v\n%s", err, s.Whole())}
	}
	return c, done, nil
}

func allMessages(c *pspec.Compiled) (ms []*protogen.Message, es []*protogen.Enum) {
	var rec func(m *protogen.Message)
	rec = func(m *protogen.Message) {
		if m.Desc.IsMapEntry() {
			return
		}
		ms = append(ms, m)
		es = append(es, m.Enums...)
		for _, n := range m.Messages {
			rec(n)
		}
	}
	for _, f := range c.Gen.Files {
		if !f.Generate {
			continue
		}
		es = append(es, f.Enums...)
		for _, m := range f.Messages {
			rec(m)
		}
	}
	return
}

func goScalar(k protoreflect.Kind) string {
	switch k {
	case protoreflect.BoolKind:
		return "bool"
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return "int32"
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return "uint32"
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return "int64"
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return "uint64"
	case protoreflect.FloatKind:
		return "float32"
	case protoreflect.DoubleKind:
		return "float64"
	case protoreflect.StringKind:
		return "string"
	case protoreflect.BytesKind:
		return "[]byte"
	}
	return "?"
}

// elem describes the type of a field, element by element.
type elem struct {
	Type string // Go element type: "int32", "[]byte", message or enum name, "timestamppb.Timestamp"
	Msg  string // the model's own message it refers to
	Enum string
	Ptr  bool
}

func wantElem(c *pspec.Compiled, f *protogen.Field) elem {
	switch {
	case f.Enum != nil:
		e := elem{Type: f.Enum.GoIdent.GoName, Enum: f.Enum.GoIdent.GoName}
		return e
	case f.Message != nil:
		if !local(c, f.Message) {
			pkg := string(f.Message.GoIdent.GoImportPath)
			return elem{Type: pkg[strings.LastIndex(pkg, "/")+1:] + "." + f.Message.GoIdent.GoName, Ptr: true}
		}
		return elem{Type: f.Message.GoIdent.GoName, Msg: f.Message.GoIdent.GoName, Ptr: true}
	}
	return elem{Type: goScalar(f.Desc.Kind())}
}

func local(c *pspec.Compiled, m *protogen.Message) bool {
	for _, f := range c.Gen.Files {
		if f.Generate && f.Desc.Path() == m.Desc.ParentFile().Path() {
			return true
		}
	}
	return false
}

// gotElem reads the model's type; repeated says that one slice level is the
// repetition.
func gotElem(sd *svcdef.Svcdef, ft *svcdef.FieldType) (elem, bool, error) {
	e := elem{Type: ft.Name, Ptr: ft.StarExpr}
	rep := ft.ArrayType
	// bytes is modelled as a slice of "byte", repeated bytes as a slice of "[]byte"
	if rep && ft.Name == "byte" {
		e.Type, rep = "[]byte", false
	}
	if ft.Message != nil {
		e.Msg = ft.Message.Name
		own := false
		for _, m := range sd.Messages {
			own = own || m == ft.Message
		}
		if !own {
			return e, rep, fmt.Errorf("refers to a message %q that is not the model's own entry", e.Msg)
		}
	}
	if ft.Enum != nil {
		e.Enum = ft.Enum.Name
		own := false
		for _, m := range sd.Enums {
			own = own || m == ft.Enum
		}
		if !own {
			return e, rep, fmt.Errorf("refers to an enum %q that is not the model's own entry", e.Enum)
		}
	}
	return e, rep, nil
}

// CheckTypes compares the model's messages and enums with the compiler's.
func CheckTypes(c *pspec.Compiled, sd *svcdef.Svcdef) error {
	ms, es := allMessages(c)
	var want, got []string
	for _, m := range ms {
		want = append(want, m.GoIdent.GoName)
	}
	byName := map[string]*svcdef.Message{}
	unimpl := ""
	for _, f := range c.Gen.Files {
		if f.Generate && len(f.Services) > 0 {
			unimpl = "Unimplemented" + f.Services[0].GoName + "Server"
		}
	}
	for _, m := range sd.Messages {
		if m.Name == unimpl && len(m.Fields) == 0 {
			// the placeholder struct of the gRPC plugin, which the
			// repository's own test expects here
			continue
		}
		got = append(got, m.Name)
		byName[m.Name] = m
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, " ") != strings.Join(got, " ") {
		return fmt.Errorf("messages of the model: %v\ndeclared: %v", got, want)
	}
	want, got = nil, nil
	for _, e := range es {
		want = append(want, e.GoIdent.GoName)
	}
	for _, e := range sd.Enums {
		got = append(got, e.Name)
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, " ") != strings.Join(got, " ") {
		return fmt.Errorf("enums of the model: %v\ndeclared: %v", got, want)
	}
	for _, m := range ms {
		if err := checkMessage(c, sd, m, byName[m.GoIdent.GoName]); err != nil {
			return fmt.Errorf("message %s: %v", m.Desc.FullName(), err)
		}
	}
	return nil
}

func checkMessage(c *pspec.Compiled, sd *svcdef.Svcdef, m *protogen.Message, g *svcdef.Message) error {
	i := 0
	next := func() *svcdef.Field {
		i++
		if i > len(g.Fields) {
			return nil
		}
		return g.Fields[i-1]
	}
	for _, f := range m.Fields {
		if o := f.Oneof; o != nil && !o.Desc.IsSynthetic() {
			if o.Fields[0] != f {
				continue
			}
			gf := next()
			if gf == nil || gf.Name != o.GoName {
				return fmt.Errorf("oneof %s: model has %s here", o.GoName, fieldName(gf))
			}
			if len(gf.Type.Oneof) != len(o.Fields) {
				return fmt.Errorf("oneof %s: model has %d options, want %d", o.GoName, len(gf.Type.Oneof), len(o.Fields))
			}
			if gf.Type.Map != nil || gf.Type.ArrayType || gf.Type.StarExpr || gf.Type.Message != nil || gf.Type.Enum != nil {
				return fmt.Errorf("oneof %s has other attributes: %+v", o.GoName, *gf.Type)
			}
			// options in any order: the model groups wrapper types
			got := map[string]*svcdef.Field{}
			for _, of := range gf.Type.Oneof {
				got[of.PBFieldName] = of
			}
			for _, of := range o.Fields {
				w := wantElem(c, of)
				x := got[string(of.Desc.Name())]
				if x == nil {
					return fmt.Errorf("oneof %s lacks the option %s", o.GoName, of.Desc.Name())
				}
				if x.Name != of.GoName {
					return fmt.Errorf("oneof %s: option %s has the Go name %s, want %s", o.GoName, of.Desc.Name(), x.Name, of.GoName)
				}
				y := *x.Type
				y.Message = nil // holds the option's wrapper type
				ge, rep, err := gotElem(sd, &y)
				if err != nil {
					return fmt.Errorf("oneof %s: option %s: %v", o.GoName, of.Desc.Name(), err)
				}
				w.Msg = ""
				if ge != w || rep || x.Type.Map != nil {
					return fmt.Errorf("oneof %s: option %s has type %+v repeated=%v, want %+v", o.GoName, of.Desc.Name(), ge, rep, w)
				}
			}
			continue
		}
		gf := next()
		if gf == nil || gf.Name != f.GoName {
			return fmt.Errorf("field %s: model has %s here", f.GoName, fieldName(gf))
		}
		if gf.PBFieldName != string(f.Desc.Name()) {
			return fmt.Errorf("field %s: proto name %q, want %q", f.GoName, gf.PBFieldName, f.Desc.Name())
		}
		if gf.Type.Oneof != nil {
			return fmt.Errorf("field %s is not a oneof", f.GoName)
		}
		if f.Desc.IsMap() {
			if gf.Type.Map == nil {
				return fmt.Errorf("field %s is a map: %+v", f.GoName, *gf.Type)
			}
			if gf.Type.StarExpr || gf.Type.ArrayType || gf.Type.Message != nil || gf.Type.Enum != nil {
				return fmt.Errorf("map field %s has other attributes: %+v", f.GoName, *gf.Type)
			}
			if k := goScalar(f.Message.Fields[0].Desc.Kind()); gf.Type.Map.KeyType.Name != k {
				return fmt.Errorf("map field %s: key type %q, want %q", f.GoName, gf.Type.Map.KeyType.Name, k)
			}
			w := wantElem(c, f.Message.Fields[1])
			ge, rep, err := gotElem(sd, gf.Type.Map.ValueType)
			if err != nil {
				return fmt.Errorf("map field %s: %v", f.GoName, err)
			}
			if ge != w || rep {
				return fmt.Errorf("map field %s: value type %+v, want %+v", f.GoName, ge, w)
			}
			continue
		}
		if gf.Type.Map != nil {
			return fmt.Errorf("field %s is no map", f.GoName)
		}
		w := wantElem(c, f)
		if f.Desc.HasOptionalKeyword() && w.Type != "[]byte" {
			w.Ptr = true
		}
		ge, rep, err := gotElem(sd, gf.Type)
		if err != nil {
			return fmt.Errorf("field %s: %v", f.GoName, err)
		}
		if ge != w || rep != f.Desc.IsList() {
			return fmt.Errorf("field %s: type %+v repeated=%v, want %+v repeated=%v", f.GoName, ge, rep, w, f.Desc.IsList())
		}
	}
	if f := next(); f != nil {
		return fmt.Errorf("model has an extra field %s", f.Name)
	}
	return nil
}

func fieldName(f *svcdef.Field) string {
	if f == nil {
		return "no field"
	}
	return f.Name
}

// CheckService compares the model's service with the compiler's.
func CheckService(c *pspec.Compiled, sd *svcdef.Svcdef) error {
	var svc *protogen.Service
	for _, f := range c.Gen.Files {
		if f.Generate && len(f.Services) > 0 {
			svc = f.Services[0]
		}
	}
	if svc == nil {
		if sd.Service != nil {
			return fmt.Errorf("the model has a service %s, none is defined", sd.Service.Name)
		}
		return nil
	}
	if sd.Service == nil {
		return fmt.Errorf("the model lacks the service %s", svc.GoName)
	}
	if sd.Service.Name != svc.GoName {
		return fmt.Errorf("service name %q, want %q", sd.Service.Name, svc.GoName)
	}
	var want, got []string
	for _, m := range svc.Methods {
		if m.Desc.IsStreamingClient() || m.Desc.IsStreamingServer() {
			continue
		}
		want = append(want, fmt.Sprintf("%s(%s) %s", m.GoName, m.Input.GoIdent.GoName, m.Output.GoIdent.GoName))
	}
	for _, m := range sd.Service.Methods {
		got = append(got, fmt.Sprintf("%s(%s) %s", m.Name, m.RequestType.Name, m.ResponseType.Name))
	}
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		return fmt.Errorf("methods of the model:\n%s\ndeclared:\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	for _, m := range sd.Service.Methods {
		for _, ft := range []*svcdef.FieldType{m.RequestType, m.ResponseType} {
			own := false
			for _, x := range sd.Messages {
				own = own || (x == ft.Message && x.Name == ft.Name)
			}
			if !own {
				return fmt.Errorf("method %s: type %s does not refer to the model's own message", m.Name, ft.Name)
			}
		}
	}
	return nil
}

// CheckBindings compares the model's HTTP bindings with the annotations.
func CheckBindings(s *pspec.Spec, c *pspec.Compiled, sd *svcdef.Svcdef) error {
	svc := s.Service()
	if svc == nil {
		return nil
	}
	ms, _ := allMessages(c)
	byFull := map[string]*protogen.Message{}
	for _, m := range ms {
		byFull[string(m.Desc.FullName())] = m
	}
	k := 0
	for _, r := range svc.Rpcs {
		if r.RS || r.PS {
			continue
		}
		if k >= len(sd.Service.Methods) {
			return fmt.Errorf("rpc %s is missing", r.Name)
		}
		gm := sd.Service.Methods[k]
		k++
		full := r.Req.Ref
		if s.Package != "" {
			full = s.Package + "." + full
		}
		req := byFull[full]
		var want, got []string
		if r.Annotated {
			for _, b := range r.Bindings {
				want = append(want, wantBinding(req, b))
			}
		}
		for _, b := range gm.Bindings {
			str := fmt.Sprintf("%s %s", b.Verb, b.Path)
			for i, p := range b.Params {
				str += fmt.Sprintf("; %s in %s", p.Field.Name, p.Location)
				if gm.RequestType.Message == nil || i >= len(gm.RequestType.Message.Fields) || gm.RequestType.Message.Fields[i] != p.Field {
					return fmt.Errorf("rpc %s, binding %s %s: parameter %d is not field %d of the request", r.Name, b.Verb, b.Path, i, i)
				}
			}
			got = append(got, str)
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, "\n") != strings.Join(got, "\n") {
			return fmt.Errorf("bindings of rpc %s in the model:\n%s\nannotated:\n%s", r.Name, strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
	}
	return nil
}

func wantBinding(req *protogen.Message, b pspec.Binding) string {
	inPath := map[string]bool{}
	for _, v := range pspec.PathVars(b.Path) {
		inPath[v] = true
	}
	str := fmt.Sprintf("%s %s", b.Verb, b.Path)
	for _, f := range req.Fields {
		name, gon := string(f.Desc.Name()), f.GoName
		if o := f.Oneof; o != nil && !o.Desc.IsSynthetic() {
			if o.Fields[0] != f {
				continue
			}
			name, gon = "", o.GoName
		}
		loc := "query"
		switch {
		case inPath[name]:
			loc = "path"
		case b.Body == "*" || (b.Body != "" && b.Body == name):
			loc = "body"
		}
		str += fmt.Sprintf("; %s in %s", gon, loc)
	}
	return str
}
