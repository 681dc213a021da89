package drvtest

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

func init() {
	modes["C19"] = decode
	modes["C20"] = route
	modes["C21"] = malformed
	modes["C22"] = svcErrors
}

// rawReq is a hand-made HTTP request.
type rawReq struct {
	Verb, Path, Query string
	Body              string
	HasBody           bool
}

func (r rawReq) String() string {
	s := r.Verb + " " + r.Path
	if r.Query != "" {
		s += "?" + r.Query
	}
	if len(s) > 2500 {
		s = s[:2500] + "..."
	}
	if r.HasBody {
		b := r.Body
		if len(b) > 2500 {
			b = b[:2500] + "..."
		}
		s += " body " + b
	}
	return s
}

var httpClient = &http.Client{CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }, Timeout: callTimeout}

func (e *env) do(r rawReq) (*http.Response, string, error) {
	u := e.srv.URL + r.Path
	if r.Query != "" {
		u += "?" + r.Query
	}
	var body io.Reader
	if r.HasBody {
		body = strings.NewReader(r.Body)
	}
	q, err := http.NewRequest(r.Verb, u, body)
	if err != nil {
		return nil, "", err
	}
	if r.HasBody {
		q.Header.Set("Content-Type", "application/json")
	}
	resp, err := httpClient.Do(q)
	if err != nil {
		return nil, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp, string(b), err
}

// text is a scalar as path and query values are written.
func text(fd protoreflect.FieldDescriptor, v protoreflect.Value) string {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return strconv.FormatBool(v.Bool())
	case protoreflect.EnumKind:
		return strconv.Itoa(int(v.Enum()))
	case protoreflect.StringKind:
		return v.String()
	case protoreflect.FloatKind:
		return strconv.FormatFloat(v.Float(), 'g', -1, 32)
	case protoreflect.DoubleKind:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	}
	return fmt.Sprint(v.Interface())
}

// jsonValue writes a value as the protobuf JSON mapping says, in one of the
// forms it allows.
func jsonValue(t *rapid.T, fd protoreflect.FieldDescriptor, v protoreflect.Value) string {
	str := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return strconv.FormatBool(v.Bool())
	case protoreflect.EnumKind:
		if ev := fd.Enum().Values().ByNumber(v.Enum()); ev != nil && rapid.Bool().Draw(t, "enumName") {
			return str(string(ev.Name()))
		}
		return strconv.Itoa(int(v.Enum()))
	case protoreflect.StringKind:
		return str(v.String())
	case protoreflect.BytesKind:
		if rapid.Bool().Draw(t, "b64url") {
			return str(base64.URLEncoding.EncodeToString(v.Bytes()))
		}
		return str(base64.StdEncoding.EncodeToString(v.Bytes()))
	case protoreflect.FloatKind, protoreflect.DoubleKind:
		f := v.Float()
		switch {
		case math.IsNaN(f):
			return `"NaN"`
		case math.IsInf(f, 1):
			return `"Infinity"`
		case math.IsInf(f, -1):
			return `"-Infinity"`
		}
		return text(fd, v)
	case protoreflect.MessageKind:
		return jsonMessage(t, v.Message(), nil)
	}
	if rapid.Bool().Draw(t, "numString") {
		return str(text(fd, v))
	}
	return text(fd, v)
}

// jsonMessage writes the fields of m that keep chooses.
func jsonMessage(t *rapid.T, m protoreflect.Message, keep func(protoreflect.FieldDescriptor) bool) string {
	if isExternal(m.Descriptor()) {
		b, err := protojson.Marshal(m.Interface())
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	var out []string
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if !m.Has(fd) && (keep == nil || keep(fd)) && rapid.IntRange(0, 15).Draw(t, "null") == 0 {
			// null is what an unset field may be written as
			b, _ := json.Marshal(string(fd.Name()))
			out = append(out, string(b)+": null")
			continue
		}
		if !m.Has(fd) || keep != nil && !keep(fd) {
			continue
		}
		v := m.Get(fd)
		name := string(fd.Name())
		if rapid.Bool().Draw(t, "jsonName") {
			name = fd.JSONName()
		}
		var s string
		switch {
		case fd.IsMap():
			var kv []string
			v.Map().Range(func(k protoreflect.MapKey, x protoreflect.Value) bool {
				b, _ := json.Marshal(text(fd.MapKey(), k.Value()))
				kv = append(kv, string(b)+":"+jsonValue(t, fd.MapValue(), x))
				return true
			})
			sort.Strings(kv)
			s = "{" + strings.Join(kv, ",") + "}"
		case fd.IsList():
			var xs []string
			for j := 0; j < v.List().Len(); j++ {
				xs = append(xs, jsonValue(t, fd, v.List().Get(j)))
			}
			s = "[" + strings.Join(xs, ", ") + "]"
		default:
			s = jsonValue(t, fd, v)
		}
		b, _ := json.Marshal(name)
		out = append(out, string(b)+": "+s)
	}
	if rapid.IntRange(0, 7).Draw(t, "unknown") == 0 {
		// a key that no field has
		out = append(out, rapid.SampledFrom([]string{`"zz_unknown": 1`, `"zzUnknown": {"a": [null, {"b": "c"}]}`, `"": null`, `"zz.a b": "x"`, `"Zz": [1, "2", {}]`}).Draw(t, "unknownKey"))
	}
	if len(out) > 1 && rapid.Bool().Draw(t, "rev") {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return "{" + strings.Join(out, ", ") + "}"
}

func escapeQuery(t *rapid.T, s string) string {
	if rapid.Bool().Draw(t, "pct20") {
		return strings.ReplaceAll(url.QueryEscape(s), "+", "%20")
	}
	return url.QueryEscape(s)
}

// write makes the request that carries in by the binding, in one of the forms
// the annotation allows. Fields the caller left unset are not written.
func write(t *rapid.T, b *Binding, in protoreflect.Message) (rawReq, []string) {
	r := rawReq{Verb: strings.ToUpper(b.Verb)}
	var classes []string
	segs := strings.Split(b.Path, "/")
	fs := in.Descriptor().Fields()
	for i, s := range segs {
		if pre, name, suf, ok := cutSeg(s); ok {
			fd := fs.ByName(name)
			segs[i] = url.PathEscape(pre + text(fd, in.Get(fd)) + suf)
			classes = append(classes, "path "+fieldKind(fd))
		}
	}
	r.Path = strings.Join(segs, "/")
	var qs []string
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if b.at(fd) != "query" || !in.Has(fd) {
			continue
		}
		k := escapeQuery(t, string(fd.Name())) + "="
		if !fd.IsList() {
			qs = append(qs, k+escapeQuery(t, text(fd, in.Get(fd))))
			classes = append(classes, "query "+fieldKind(fd))
			continue
		}
		l := in.Get(fd).List()
		var xs []string
		comma := false
		for j := 0; j < l.Len(); j++ {
			xs = append(xs, text(fd, l.Get(j)))
			comma = comma || strings.Contains(xs[j], ",")
		}
		forms := []string{"multi"}
		if !comma {
			// one element that has a comma cannot be told from two
			forms = append(forms, "csv")
		}
		if fd.Kind() != protoreflect.StringKind {
			forms = append(forms, "json")
		}
		f := rapid.SampledFrom(forms).Draw(t, "listForm")
		classes = append(classes, "query "+f+" "+fieldKind(fd))
		switch f {
		case "multi":
			for _, x := range xs {
				qs = append(qs, k+escapeQuery(t, x))
			}
		case "csv":
			qs = append(qs, k+escapeQuery(t, strings.Join(xs, ",")))
		case "json":
			qs = append(qs, k+escapeQuery(t, "["+strings.Join(xs, ",")+"]"))
		}
	}
	if rapid.IntRange(0, 7).Draw(t, "unknownParam") == 0 {
		qs = append(qs, rapid.SampledFrom([]string{"zz_unknown=1", "zz=a&zz=b", "zz", "zz[0]=x", "Zz.a="}).Draw(t, "param"))
	}
	// parameters of different names may come in any order
	if len(qs) > 1 && rapid.Bool().Draw(t, "qrev") {
		sort.SliceStable(qs, func(i, j int) bool {
			return strings.SplitN(qs[i], "=", 2)[0] > strings.SplitN(qs[j], "=", 2)[0]
		})
	}
	r.Query = strings.Join(qs, "&")
	body := jsonMessage(t, in, func(fd protoreflect.FieldDescriptor) bool { return b.at(fd) == "body" })
	if body != "{}" || r.Verb != "GET" && rapid.Bool().Draw(t, "emptyBody") {
		r.Body, r.HasBody = body, true
		classes = append(classes, "body")
	}
	return r, classes
}

// seen records the calls the service gets.
type seen struct {
	mu    sync.Mutex
	calls []seenCall
}
type seenCall struct {
	rpc string
	in  proto.Message
}

func (e *env) watch(out func(rpc string) (proto.Message, error)) *seen {
	s := &seen{}
	e.svc.Set(func(_ context.Context, method string, in proto.Message) (proto.Message, error) {
		s.mu.Lock()
		defer s.mu.Unlock()
		s.calls = append(s.calls, seenCall{method, in})
		return out(method)
	})
	return s
}

func (e *env) empty(rpc string) (proto.Message, error) { return e.tg.Method(rpc).Out(), nil }

func (s *seen) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.calls) == 0 {
		return "no call"
	}
	var out []string
	for _, c := range s.calls {
		out = append(out, c.rpc+" "+show(c.in))
	}
	return strings.Join(out, "; ")
}

func (e *env) drawBinding(t *rapid.T) (*Rpc, *Binding) {
	r := rapid.SampledFrom(e.s.bound()).Draw(t, "rpc")
	return r, rapid.SampledFrom(r.Bindings).Draw(t, "binding")
}

// unset clears some fields that are not in the path, and what a parameter
// cannot say: the empty list.
func unset(t *rapid.T, b *Binding, in protoreflect.Message) {
	in.Range(func(fd protoreflect.FieldDescriptor, _ protoreflect.Value) bool { return true })
	fs := in.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		if fd := fs.Get(i); in.Has(fd) && b.at(fd) != "path" && rapid.IntRange(0, 3).Draw(t, "clear") == 0 {
			in.Clear(fd)
		}
	}
}

func decode(t *rapid.T, e *env) {
	rpc, b := e.drawBinding(t)
	in := newMessage(t, e.tg.Method(rpc.Go).In, b.at)
	unset(t, b, in.ProtoReflect())
	req, classes := write(t, b, in.ProtoReflect())
	s := e.watch(e.empty)
	defer e.svc.Set(nil)
	resp, body, err := e.do(req)
	c := map[string]string{"request": req.String(), "binding": b.Verb + " " + b.Path, "expected": show(in)}
	e.res.note(interesting(in), c, classes...)
	switch {
	case err != nil:
		e.res.fail(t, c, "binding %s %s of %s: %s: %v", b.Verb, b.Path, rpc.Go, req, err)
	case resp.StatusCode != 200:
		e.res.fail(t, c, "binding %s %s of %s: %s, meaning %s, was answered %d %s", b.Verb, b.Path, rpc.Go, req, show(in), resp.StatusCode, body)
	case len(s.calls) != 1 || s.calls[0].rpc != rpc.Go || !proto.Equal(s.calls[0].in, in):
		e.res.fail(t, c, "binding %s %s of %s: %s, meaning %s, reached the service as %s", b.Verb, b.Path, rpc.Go, req, show(in), s)
	}
}

// matching lists the bindings a verb and decoded path match.
func (e *env) matching(verb, path string) (out []string) {
	segs := strings.Split(path, "/")
	for _, r := range e.s.Rpcs {
	binding:
		for _, b := range r.Bindings {
			if strings.ToUpper(b.Verb) != verb {
				continue
			}
			ts := strings.Split(b.Path, "/")
			if len(ts) != len(segs) {
				continue
			}
			for i, s := range ts {
				if pre, _, suf, ok := cutSeg(s); ok {
					if strings.HasPrefix(segs[i], pre) && strings.HasSuffix(segs[i], suf) && len(segs[i]) > len(pre+suf) {
						continue
					}
				}
				if s != segs[i] {
					continue binding
				}
			}
			out = append(out, r.Go)
		}
	}
	return
}

func route(t *rapid.T, e *env) {
	// every binding, with values of its own
	for _, rpc := range e.s.bound() {
		for _, b := range rpc.Bindings {
			in := e.tg.Method(rpc.Go).In()
			fs := in.ProtoReflect().Descriptor().Fields()
			for _, v := range b.Vars {
				fd := fs.ByName(protoreflect.Name(v))
				in.ProtoReflect().Set(fd, genPath(t, fd, v))
			}
			segs := strings.Split(b.Path, "/")
			for i, s := range segs {
				if pre, name, suf, ok := cutSeg(s); ok {
					fd := fs.ByName(name)
					segs[i] = url.PathEscape(pre + text(fd, in.ProtoReflect().Get(fd)) + suf)
				}
			}
			req := rawReq{Verb: strings.ToUpper(b.Verb), Path: strings.Join(segs, "/")}
			s := e.watch(e.empty)
			resp, body, err := e.do(req)
			c := map[string]string{"request": req.String(), "binding": b.Verb + " " + b.Path, "rpc": rpc.Go}
			e.res.note(true, c, "match "+strings.ToUpper(b.Verb), fmt.Sprintf("vars=%d", len(b.Vars)))
			if err != nil || resp.StatusCode != 200 || len(s.calls) != 1 || s.calls[0].rpc != rpc.Go {
				code := 0
				if resp != nil {
					code = resp.StatusCode
				}
				e.res.fail(t, c, "%s, for binding %s %s of %s, was answered %d %s (%v); the service got %s", req, b.Verb, b.Path, rpc.Go, code, body, err, s)
			}
		}
	}
	// near misses
	for k := 0; k < 6; k++ {
		_, b := e.drawBinding(t)
		verb := strings.ToUpper(b.Verb)
		segs := strings.Split(b.Path, "/")
		for i, s := range segs {
			if pre, _, suf, ok := cutSeg(s); ok {
				segs[i] = pre + rapid.SampledFrom([]string{"1", "true", "x"}).Draw(t, "val") + suf
			}
		}
		how := rapid.SampledFrom([]string{"verb", "longer", "shorter", "slash", "literal", "case", "prefix", "drop"}).Draw(t, "miss")
		i := rapid.IntRange(1, len(segs)-1).Draw(t, "seg")
		switch how {
		case "verb":
			verb = rapid.SampledFrom([]string{"GET", "PUT", "POST", "DELETE", "PATCH", "OPTIONS", "LIST", "SEARCH", "COPY", "CUSTOM"}).Draw(t, "other")
		case "longer":
			segs = append(segs, "x")
		case "shorter":
			segs = segs[:len(segs)-1]
		case "slash":
			segs = append(segs, "")
		case "literal":
			segs[i] += "z"
		case "case":
			segs[i] = strings.ToUpper(segs[i])
		case "prefix":
			segs = append([]string{"", "pre"}, segs[1:]...)
		case "drop":
			segs = append(append([]string{}, segs[:i]...), segs[i+1:]...)
		}
		path := strings.Join(segs, "/")
		if path == "" {
			path = "/"
		}
		want := e.matching(verb, path)
		req := rawReq{Verb: verb, Path: path}
		s := e.watch(e.empty)
		resp, body, err := e.do(req)
		c := map[string]string{"request": req.String()}
		if len(want) > 0 {
			// it is another binding's; the values may be of the wrong type
			e.res.note(false, c, "miss that matches another")
			if err == nil {
				for _, x := range s.calls {
					if x.rpc != want[0] {
						e.res.fail(t, c, "%s matches a binding of %v and reached %s", req, want, s)
					}
				}
			}
			continue
		}
		e.res.note(true, c, "miss "+how)
		if err != nil {
			e.res.fail(t, c, "%s: %v", req, err)
		}
		if len(s.calls) > 0 || resp.StatusCode < 300 {
			e.res.fail(t, c, "%s matches no binding, was answered %d %s; the service got %s", req, resp.StatusCode, body, s)
		}
	}
	e.svc.Set(nil)
}

// bad draws a text that is no value of the field.
func bad(t *rapid.T, fd protoreflect.FieldDescriptor, path bool) (string, bool) {
	var c []string
	switch fd.Kind() {
	case protoreflect.BoolKind:
		c = []string{"maybe", "2", "truee", "-1", "yes"}
	case protoreflect.EnumKind, protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		c = []string{"x", "1.5", "2147483648", "-2147483649", "9999999999999999999999", "1e3", "0x10", "--1", "1 2"}
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		c = []string{"x", "1.5", "9223372036854775808", "-9223372036854775809", "0x10", "1-1"}
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		c = []string{"x", "-1", "4294967296", "1.5", "99999999999999999999"}
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		c = []string{"x", "-1", "18446744073709551616", "0.5"}
	case protoreflect.FloatKind:
		c = []string{"x", "1e39", "-1e400", "1.2.3", "1,5x"}
	case protoreflect.DoubleKind:
		c = []string{"x", "1e309", "-1e400", "1.2.3", "--1"}
	default:
		return "", false
	}
	switch fd.Kind() {
	case protoreflect.BoolKind, protoreflect.FloatKind, protoreflect.DoubleKind:
	default:
		// not how JSON writes numbers
		c = append(c, "0x10", "1_000", "0b11", "0o17", "1e+", "+-1")
	}
	if !path && !fd.IsList() {
		c = append(c, "")
	}
	return rapid.SampledFrom(c).Draw(t, "bad"), true
}

func malformed(t *rapid.T, e *env) {
	rpc, b := e.drawBinding(t)
	in := newMessage(t, e.tg.Method(rpc.Go).In, b.at)
	unset(t, b, in.ProtoReflect())
	m := in.ProtoReflect()
	req, _ := write(t, b, m)
	fs := m.Descriptor().Fields()
	var hows []string
	var paths, queries []protoreflect.FieldDescriptor
	oneofs := map[string][]protoreflect.FieldDescriptor{}
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if o := fd.ContainingOneof(); o != nil && !o.IsSynthetic() && b.at(fd) == "query" {
			oneofs[string(o.Name())] = append(oneofs[string(o.Name())], fd)
		}
		switch b.at(fd) {
		case "path":
			if fd.Kind() != protoreflect.StringKind {
				paths = append(paths, fd)
			}
		case "query":
			if fd.Kind() != protoreflect.StringKind {
				queries = append(queries, fd)
			}
		}
	}
	if len(paths) > 0 {
		hows = append(hows, "path")
	}
	if len(queries) > 0 {
		hows = append(hows, "query")
	}
	var several []string
	for o, f := range oneofs {
		if len(f) > 1 {
			several = append(several, o)
		}
	}
	sort.Strings(several)
	if len(several) > 0 {
		hows = append(hows, "oneof")
	}
	if req.Verb != "GET" {
		hows = append(hows, "body")
	}
	if len(hows) == 0 {
		return
	}
	how := rapid.SampledFrom(hows).Draw(t, "how")
	code := 0 // any error
	class := how
	switch how {
	case "path":
		fd := rapid.SampledFrom(paths).Draw(t, "field")
		x, _ := bad(t, fd, true)
		segs, ts := strings.Split(req.Path, "/"), strings.Split(b.Path, "/")
		for i, s := range ts {
			if pre, name, suf, _ := cutSeg(s); name == fd.Name() {
				segs[i] = url.PathEscape(pre + x + suf)
			}
		}
		req.Path = strings.Join(segs, "/")
		class += " " + fieldKind(fd)
	case "query":
		fd := rapid.SampledFrom(queries).Draw(t, "field")
		x, _ := bad(t, fd, false)
		class += " " + fieldKind(fd)
		if o := fd.ContainingOneof(); o != nil && !o.IsSynthetic() {
			// no other option
			for _, f := range oneofs[string(o.Name())] {
				req.Query = dropKey(req.Query, string(f.Name()))
			}
		}
		req.Query = dropKey(req.Query, string(fd.Name()))
		k := string(fd.Name()) + "="
		add := k + url.QueryEscape(x)
		if fd.IsList() {
			v := genScalar(t, fd, true, "good")
			switch rapid.IntRange(0, 3).Draw(t, "listForm") {
			case 0:
				add = k + url.QueryEscape(text(fd, v)) + "&" + add
			case 1:
				add = k + url.QueryEscape(text(fd, v)+","+x)
			case 2:
				add = k + url.QueryEscape("["+x+"]")
			}
		}
		if req.Query != "" {
			add = req.Query + "&" + add
		}
		req.Query = add
	case "oneof":
		o := rapid.SampledFrom(several).Draw(t, "oneof")
		f := oneofs[o]
		perm := rapid.Permutation(f).Draw(t, "options")
		for _, fd := range f {
			req.Query = dropKey(req.Query, string(fd.Name()))
		}
		for _, fd := range perm[:rapid.IntRange(2, len(f)).Draw(t, "n")] {
			if req.Query != "" {
				req.Query += "&"
			}
			req.Query += string(fd.Name()) + "=" + url.QueryEscape(short(text(fd, genScalar(t, fd, true, "opt"))))
		}
	case "body":
		code = 400
		req.HasBody = true
		good := jsonMessage(t, m, func(fd protoreflect.FieldDescriptor) bool { return b.at(fd) == "body" })
		kinds := []string{"text", "truncated", "array", "trailing", "binary", "long"}
		var nums []protoreflect.FieldDescriptor
		for i := 0; i < fs.Len(); i++ {
			if fd := fs.Get(i); !fd.IsMap() && !fd.IsList() && fd.Kind() != protoreflect.StringKind && fd.Kind() != protoreflect.BytesKind && fd.Kind() != protoreflect.MessageKind && fd.Kind() != protoreflect.EnumKind && b.at(fd) == "body" {
				nums = append(nums, fd)
			}
		}
		if len(nums) > 0 {
			kinds = append(kinds, "type", "type")
		}
		k := rapid.SampledFrom(kinds).Draw(t, "bodyKind")
		class += " " + k
		switch k {
		case "text":
			req.Body = rapid.SampledFrom([]string{"hello", "<xml/>", "{", "}", "nil", "{a:1}", "{'a':1}", " ", "\"s\"", "1", "null x", "{\"a\" 1}"}).Draw(t, "text")
		case "truncated":
			req.Body = good[:rapid.IntRange(1, len(good)-1).Draw(t, "cut")]
		case "array":
			req.Body = "[" + good + "]"
		case "trailing":
			req.Body = good + rapid.SampledFrom([]string{"x", "{}", "}", ",", "\x00"}).Draw(t, "trail")
		case "binary":
			req.Body = string(rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "bytes"))
			if json.Valid([]byte(req.Body)) {
				req.Body = "\xff"
			}
		case "long":
			req.Body = "x" + strings.Repeat(rapid.SampledFrom([]string{"y", "é", "{\"a\":"}).Draw(t, "rep"), rapid.SampledFrom([]int{2000, 9000, 50000}).Draw(t, "n"))
		case "type":
			fd := rapid.SampledFrom(nums).Draw(t, "field")
			x := rapid.SampledFrom([]string{`"x"`, `{}`, `[]`, `"1.5.1"`, `"true "`, `[1]`}).Draw(t, "value")
			req.Body = fmt.Sprintf("{%q: %s}", fd.Name(), x)
			class += " " + fd.Kind().String()
		}
	}
	c := map[string]string{"request": req.String(), "binding": b.Verb + " " + b.Path}
	e.res.note(true, c, class)
	s := e.watch(e.empty)
	defer e.svc.Set(nil)
	resp, body, err := e.do(req)
	if err != nil {
		e.res.fail(t, c, "%s: %v", req, err)
	}
	what := ""
	var obj map[string]interface{}
	switch {
	case len(s.calls) > 0:
		what = "reached the service as " + s.String()
	case resp.StatusCode < 400:
		what = "was accepted"
	case code != 0 && resp.StatusCode != code:
		what = fmt.Sprintf("was not answered with status %d", code)
	case json.Unmarshal([]byte(body), &obj) != nil || obj["error"] == nil || obj["error"] == "":
		what = "was not answered with a JSON error"
	case !strings.HasPrefix(resp.Header.Get("Content-Type"), "application/json"):
		what = "was answered with content type " + resp.Header.Get("Content-Type")
	}
	if what != "" {
		e.res.fail(t, c, "malformed %s request for binding %s %s of %s, %s: %s; status %d, body %.500s", class, b.Verb, b.Path, rpc.Go, req, what, resp.StatusCode, body)
	}
	// and the server still serves
	in2 := newMessage(t, e.tg.Method(rpc.Go).In, b.at)
	req2, _ := write(t, b, in2.ProtoReflect())
	s = e.watch(e.empty)
	resp, body, err = e.do(req2)
	if err != nil || resp.StatusCode != 200 || len(s.calls) != 1 || !proto.Equal(s.calls[0].in, in2) {
		e.res.fail(t, c, "after the malformed request %s the request %s was not served (%v %s); the service got %s", req, req2, err, body, s)
	}
}

func dropKey(q, key string) string {
	var out []string
	for _, p := range strings.Split(q, "&") {
		k, _ := url.QueryUnescape(strings.SplitN(p, "=", 2)[0])
		if p != "" && k != key {
			out = append(out, p)
		}
	}
	return strings.Join(out, "&")
}

// The errors a service may return.
type plainErr struct{ msg string }

func (e plainErr) Error() string { return e.msg }

type coder struct{ code int }

func (c coder) StatusCode() int { return c.code }

type headerer struct{ h http.Header }

func (h headerer) Headers() http.Header { return h.h }

type jsoner struct {
	b   []byte
	err error
}

func (j jsoner) MarshalJSON() ([]byte, error) { return j.b, j.err }

func mkErr(msg string, c *coder, h *headerer, j *jsoner) error {
	p := plainErr{msg}
	switch {
	case c == nil && h == nil && j == nil:
		return errors.New(msg)
	case h == nil && j == nil:
		return struct {
			plainErr
			coder
		}{p, *c}
	case c == nil && j == nil:
		return struct {
			plainErr
			headerer
		}{p, *h}
	case c == nil && h == nil:
		return struct {
			plainErr
			jsoner
		}{p, *j}
	case j == nil:
		return struct {
			plainErr
			coder
			headerer
		}{p, *c, *h}
	case h == nil:
		return struct {
			plainErr
			coder
			jsoner
		}{p, *c, *j}
	case c == nil:
		return struct {
			plainErr
			headerer
			jsoner
		}{p, *h, *j}
	}
	return struct {
		plainErr
		coder
		headerer
		jsoner
	}{p, *c, *h, *j}
}

func headerValue(t *rapid.T) string {
	return rapid.SampledFrom([]string{"v", "a b", "1", "x,y", "q=\"z\"", "ü"[:0] + "~", "{}"}).Draw(t, "hv") + rapid.StringMatching(`[!-~]{0,6}`).Draw(t, "hs")
}

func svcErrors(t *rapid.T, e *env) {
	rpc := rapid.SampledFrom(e.s.bound()).Draw(t, "rpc")
	b := rpc.Bindings[0]
	in := newMessage(t, e.tg.Method(rpc.Go).In, rpc.at)
	req, _ := write(t, b, in.ProtoReflect())
	msg := genString(t, "msg")
	if rapid.IntRange(0, 5).Draw(t, "ok") == 0 {
		success(t, e, rpc, req)
		return
	}
	var c *coder
	var h *headerer
	var j *jsoner
	var classes []string
	wantType := ""
	if rapid.Bool().Draw(t, "coder") {
		c = &coder{rapid.SampledFrom([]int{201, 202, 206, 400, 401, 403, 404, 409, 418, 422, 429, 499, 500, 501, 503, 511, 599, 600, 999}).Draw(t, "code")}
		classes = append(classes, "code")
	}
	if rapid.Bool().Draw(t, "headerer") {
		h = &headerer{http.Header{}}
		if rapid.IntRange(0, 3).Draw(t, "ownType") == 0 {
			wantType = rapid.SampledFrom([]string{"application/problem+json", "application/json", "text/json; charset=utf-8"}).Draw(t, "type")
			h.h.Set("Content-Type", wantType)
			classes = append(classes, "own content type")
		}
		names := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"X-A", "X-Request-Id", "Www-Authenticate", "Retry-After", "Set-Cookie", "X-B2", "Cache-Control", "Etag"}), 0, 3, rapid.ID[string]).Draw(t, "names")
		for _, n := range names {
			for i := rapid.IntRange(1, 3).Draw(t, "nv"); i > 0; i-- {
				h.h.Add(n, headerValue(t))
			}
			classes = append(classes, fmt.Sprintf("header values=%d", len(h.h[n])))
		}
	}
	var wantBody interface{} = map[string]interface{}{"error": msg}
	wantMsg := msg
	if rapid.IntRange(0, 2).Draw(t, "jsoner") == 0 {
		switch rapid.IntRange(0, 5).Draw(t, "jk") {
		case 2, 3:
			// any JSON
			wantMsg = ""
			x := rapid.SampledFrom([]string{"{}", "[]", "0", "null", "true", `""`, `"gone"`, `["a",1]`, `{"error":{"code":5}}`, `{"message":"m","error":null}`, `{"a":{"error":"x"}}`}).Draw(t, "own")
			json.Unmarshal([]byte(x), &wantBody)
			if x == "null" {
				wantBody = nil
			}
			j = &jsoner{[]byte(x), nil}
			classes = append(classes, "any own json")
		case 0:
			j = &jsoner{nil, errors.New("cannot")}
			classes = append(classes, "json fails")
		case 1:
			own := genString(t, "own")
			wantMsg = own
			wantBody = map[string]interface{}{"error": own, "code": 7.0}
			x, _ := json.Marshal(wantBody)
			j = &jsoner{x, nil}
			classes = append(classes, "own json with error")
		default:
			wantMsg = ""
			wantBody = map[string]interface{}{"detail": map[string]interface{}{"m": msg}}
			x, _ := json.Marshal(wantBody)
			j = &jsoner{x, nil}
			classes = append(classes, "own json")
		}
	}
	svcErr := mkErr(msg, c, h, j)
	code := 500
	if c != nil {
		code = c.code
	}
	info := map[string]interface{}{"rpc": rpc.Go, "request": req.String(), "message": short(msg), "code": code, "ownBody": j != nil}
	if h != nil {
		info["headers"] = h.h
	}
	e.res.note(c != nil || h != nil || j != nil || msg != "", info, classes...)
	s := e.watch(func(string) (proto.Message, error) { return nil, svcErr })
	defer e.svc.Set(nil)
	resp, body, err := e.do(req)
	if err != nil {
		e.res.fail(t, info, "%s: %v", req, err)
	}
	what := ""
	var got interface{}
	switch jerr := json.Unmarshal([]byte(body), &got); {
	case len(s.calls) != 1:
		what = "the service got " + s.String()
	case resp.StatusCode != code:
		what = fmt.Sprintf("the status is %d", resp.StatusCode)
	case jerr != nil || fmt.Sprint(got) != fmt.Sprint(wantBody):
		what = fmt.Sprintf("the body is %.300q", body)
	case wantType == "" && !strings.HasPrefix(resp.Header.Get("Content-Type"), "application/json"):
		what = "the content type is " + resp.Header.Get("Content-Type")
	case len(resp.Header["Content-Type"]) != 1:
		what = fmt.Sprintf("the content types are %q", resp.Header["Content-Type"])
	}
	if h != nil && what == "" {
		for k, vs := range h.h {
			if strings.Join(resp.Header.Values(k), "\n") != strings.Join(vs, "\n") {
				what = fmt.Sprintf("header %s is %q, should be %q", k, resp.Header.Values(k), vs)
			}
		}
	}
	if what != "" {
		e.res.fail(t, info, "%s: the service returned an error %.300q with code %d, %v: %s", rpc.Go, msg, code, info["headers"], what)
	}
	// the generated client
	ctx, cancel := context.WithTimeout(context.Background(), callTimeout)
	defer cancel()
	got2, err := e.client("http", nil, nil)(ctx, rpc.Go, in)
	if err == nil || !strings.Contains(err.Error(), strconv.Itoa(code)) || !strings.Contains(err.Error(), wantMsg) {
		e.res.fail(t, info, "%s: the service returned an error %.300q with code %d; the client got %s and the error %.300v", rpc.Go, msg, code, show(got2), err)
	}
}

// success: an answer is JSON with proto field names.
func success(t *rapid.T, e *env, rpc *Rpc, req rawReq) {
	out := newMessage(t, e.tg.Method(rpc.Go).Out, nil)
	e.watch(func(string) (proto.Message, error) { return out, nil })
	defer e.svc.Set(nil)
	c := map[string]string{"rpc": rpc.Go, "response": show(out)}
	e.res.note(interesting(out), c, "success")
	resp, body, err := e.do(req)
	if err != nil {
		e.res.fail(t, c, "%s: %v", req, err)
	}
	what := ""
	var obj map[string]json.RawMessage
	got := e.tg.Method(rpc.Go).Out()
	switch {
	case resp.StatusCode != 200:
		what = "wrong status"
	case !strings.HasPrefix(resp.Header.Get("Content-Type"), "application/json"):
		what = "wrong content type " + resp.Header.Get("Content-Type")
	case json.Unmarshal([]byte(body), &obj) != nil:
		what = "not a JSON object"
	case protojson.Unmarshal([]byte(body), got) != nil || !proto.Equal(got, out):
		what = "another message"
	}
	if what == "" {
		out.ProtoReflect().Range(func(fd protoreflect.FieldDescriptor, _ protoreflect.Value) bool {
			if _, ok := obj[string(fd.Name())]; !ok {
				what = "no key " + string(fd.Name())
			}
			return true
		})
	}
	if what != "" {
		e.res.fail(t, c, "%s: the service returned %s; the answer is %d %.1000s: %s", rpc.Go, show(out), resp.StatusCode, body, what)
	}
}

var _ = bytes.NewReader
