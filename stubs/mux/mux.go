// Package mux keeps the matching rules of gorilla/mux v1.8 for routers made
// of Methods, Path and Handler.
package mux

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"path"
	"regexp"
	"strings"
)

var ErrMethodMismatch = errors.New("method is not allowed")

type varsKey struct{}

// Vars returns the route variables of the request.
func Vars(r *http.Request) map[string]string {
	if rv := r.Context().Value(varsKey{}); rv != nil {
		return rv.(map[string]string)
	}
	return nil
}

func SetURLVars(r *http.Request, val map[string]string) *http.Request {
	return r.WithContext(context.WithValue(r.Context(), varsKey{}, val))
}

type Router struct {
	routes                  []*Route
	NotFoundHandler         http.Handler
	MethodNotAllowedHandler http.Handler
	skipClean               bool
	strictSlash             bool
	middlewares             []MiddlewareFunc
	useEncodedPath          bool
}

func NewRouter() *Router { return &Router{} }

func (r *Router) SkipClean(v bool) *Router { r.skipClean = v; return r }
func (r *Router) UseEncodedPath() *Router  { r.useEncodedPath = true; return r }

func (r *Router) StrictSlash(v bool) *Router { r.strictSlash = v; return r }

// MiddlewareFunc wraps the handlers of matched routes.
type MiddlewareFunc func(http.Handler) http.Handler

func (r *Router) Use(mwf ...MiddlewareFunc) { r.middlewares = append(r.middlewares, mwf...) }

type routeKey struct{}

// CurrentRoute returns the route that matched.
func CurrentRoute(r *http.Request) *Route {
	rt, _ := r.Context().Value(routeKey{}).(*Route)
	return rt
}

// Get returns the route of that name.
func (r *Router) Get(name string) *Route {
	for _, rt := range r.routes {
		if rt.name == name {
			return rt
		}
	}
	return nil
}

func (r *Router) NewRoute() *Route {
	rt := &Route{router: r}
	r.routes = append(r.routes, rt)
	return rt
}

func (r *Router) Methods(methods ...string) *Route { return r.NewRoute().Methods(methods...) }
func (r *Router) Path(tpl string) *Route           { return r.NewRoute().Path(tpl) }
func (r *Router) PathPrefix(tpl string) *Route     { return r.NewRoute().PathPrefix(tpl) }
func (r *Router) Handle(path string, h http.Handler) *Route {
	return r.NewRoute().Path(path).Handler(h)
}
func (r *Router) HandleFunc(path string, f func(http.ResponseWriter, *http.Request)) *Route {
	return r.NewRoute().Path(path).HandlerFunc(f)
}

type match struct {
	err     error
	handler http.Handler
	vars    map[string]string
}

func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	if !r.skipClean {
		p := req.URL.Path
		if r.useEncodedPath {
			p = req.URL.EscapedPath()
		}
		if c := cleanPath(p); c != p {
			u := *req.URL
			u.Path = c
			w.Header().Set("Location", u.String())
			w.WriteHeader(http.StatusMovedPermanently)
			return
		}
	}
	var m match
	var h http.Handler
	for _, rt := range r.routes {
		if rt.match(req, &m) {
			h = m.handler
			req = SetURLVars(req, m.vars)
			req = req.WithContext(context.WithValue(req.Context(), routeKey{}, rt))
			for i := len(r.middlewares) - 1; i >= 0; i-- {
				h = r.middlewares[i](h)
			}
			break
		}
	}
	if h == nil && m.err == ErrMethodMismatch {
		if h = r.MethodNotAllowedHandler; h == nil {
			h = http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) { w.WriteHeader(http.StatusMethodNotAllowed) })
		}
	}
	if h == nil {
		if h = r.NotFoundHandler; h == nil {
			h = http.NotFoundHandler()
		}
	}
	h.ServeHTTP(w, req)
}

type Route struct {
	router  *Router
	methods [][]string
	paths   []*template
	handler http.Handler
	name    string
	tpl     string
	err     error
}

func (r *Route) GetError() error { return r.err }

func (r *Route) Methods(methods ...string) *Route {
	up := make([]string, len(methods))
	for i, m := range methods {
		up[i] = strings.ToUpper(m)
	}
	r.methods = append(r.methods, up)
	return r
}

func (r *Route) Path(tpl string) *Route       { return r.addPath(tpl, false) }
func (r *Route) PathPrefix(tpl string) *Route { return r.addPath(tpl, true) }

func (r *Route) addPath(tpl string, prefix bool) *Route {
	if r.err != nil {
		return r
	}
	if tpl == "" || tpl[0] != '/' {
		r.err = fmt.Errorf("mux: path must start with a slash, got %q", tpl)
		return r
	}
	t, err := newTemplate(tpl, prefix, r.router.useEncodedPath)
	if err == nil && r.router.strictSlash && !prefix {
		// with or without the slash at the end, one redirects to the other
		t.slash = strings.HasSuffix(tpl, "/") && tpl != "/"
		t.strict = tpl != "/"
		t.re = regexp.MustCompile(strings.TrimSuffix(strings.TrimSuffix(t.re.String(), "$"), "/") + "[/]?$")
	}
	if err != nil {
		r.err = err
		return r
	}
	r.tpl += tpl
	r.paths = append(r.paths, t)
	return r
}

func (r *Route) Name(n string) *Route { r.name = n; return r }
func (r *Route) GetName() string      { return r.name }

// GetPathTemplate returns the template of the route's path.
func (r *Route) GetPathTemplate() (string, error) {
	if r.tpl == "" {
		return "", errors.New("mux: route doesn't have a path")
	}
	return r.tpl, nil
}

// GetMethods returns the route's methods.
func (r *Route) GetMethods() ([]string, error) {
	var out []string
	for _, ms := range r.methods {
		out = append(out, ms...)
	}
	if len(out) == 0 {
		return nil, errors.New("mux: route doesn't have methods")
	}
	return out, nil
}

func (r *Route) Handler(h http.Handler) *Route {
	if r.err == nil {
		r.handler = h
	}
	return r
}

func (r *Route) HandlerFunc(f func(http.ResponseWriter, *http.Request)) *Route {
	return r.Handler(http.HandlerFunc(f))
}

func (r *Route) match(req *http.Request, m *match) bool {
	if r.err != nil {
		return false
	}
	var mismatch error
	for _, ms := range r.methods {
		ok := false
		for _, x := range ms {
			ok = ok || x == req.Method
		}
		if !ok {
			mismatch = ErrMethodMismatch
		}
	}
	vars := map[string]string{}
	for _, t := range r.paths {
		p := req.URL.Path
		if t.encoded {
			p = req.URL.EscapedPath()
		}
		sub := t.re.FindStringSubmatch(p)
		if sub == nil {
			return false
		}
		for i, n := range t.names {
			vars[n] = sub[i+1]
		}
	}
	if mismatch != nil {
		m.err = mismatch
		return false
	}
	m.err = nil
	m.handler = r.handler
	for _, t := range r.paths {
		if p := req.URL.Path; t.strict && strings.HasSuffix(p, "/") != t.slash {
			u := *req.URL
			if u.Path = strings.TrimSuffix(p, "/"); t.slash {
				u.Path += "/"
			}
			m.handler = http.RedirectHandler(u.String(), http.StatusMovedPermanently)
		}
	}
	m.vars = vars
	return true
}

type template struct {
	strict  bool
	slash   bool // the template ends in a slash
	re      *regexp.Regexp
	names   []string
	encoded bool
}

func newTemplate(tpl string, prefix, encoded bool) (*template, error) {
	idxs, err := braceIndices(tpl)
	if err != nil {
		return nil, err
	}
	t := &template{encoded: encoded}
	var b strings.Builder
	b.WriteByte('^')
	end := 0
	for i := 0; i < len(idxs); i += 2 {
		raw := tpl[end:idxs[i]]
		end = idxs[i+1]
		parts := strings.SplitN(tpl[idxs[i]+1:end-1], ":", 2)
		name, patt := parts[0], "[^/]+"
		if len(parts) == 2 {
			patt = parts[1]
		}
		if name == "" || patt == "" {
			return nil, fmt.Errorf("mux: missing name or pattern in %q", tpl[idxs[i]:end])
		}
		fmt.Fprintf(&b, "%s(%s)", regexp.QuoteMeta(raw), patt)
		for _, n := range t.names {
			if n == name {
				return nil, fmt.Errorf("mux: duplicated route variable %q", name)
			}
		}
		t.names = append(t.names, name)
	}
	b.WriteString(regexp.QuoteMeta(tpl[end:]))
	if !prefix {
		b.WriteByte('$')
	}
	t.re, err = regexp.Compile(b.String())
	if err != nil {
		return nil, err
	}
	if t.re.NumSubexp() != len(t.names) {
		return nil, fmt.Errorf("route %s contains capture groups in its regexp", tpl)
	}
	return t, nil
}

func braceIndices(s string) ([]int, error) {
	var level, idx int
	var idxs []int
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '{':
			if level++; level == 1 {
				idx = i
			}
		case '}':
			if level--; level == 0 {
				idxs = append(idxs, idx, i+1)
			} else if level < 0 {
				return nil, fmt.Errorf("mux: unbalanced braces in %q", s)
			}
		}
	}
	if level != 0 {
		return nil, fmt.Errorf("mux: unbalanced braces in %q", s)
	}
	return idxs, nil
}

func cleanPath(p string) string {
	if p == "" {
		return "/"
	}
	if p[0] != '/' {
		p = "/" + p
	}
	np := path.Clean(p)
	if p[len(p)-1] == '/' && np != "/" {
		np += "/"
	}
	return np
}
