// Package http keeps go-kit v0.10's HTTP transport.
package http

import (
	"bytes"
	"context"
	"encoding/json"
	"encoding/xml"
	"io"
	"net/http"
	"net/url"

	"github.com/go-kit/kit/endpoint"
	"github.com/go-kit/kit/transport"
)

type contextKey int

const (
	ContextKeyRequestMethod contextKey = iota
	ContextKeyRequestURI
	ContextKeyRequestPath
	ContextKeyRequestProto
	ContextKeyRequestHost
	ContextKeyRequestRemoteAddr
	ContextKeyRequestXForwardedFor
	ContextKeyRequestXForwardedProto
	ContextKeyRequestAuthorization
	ContextKeyRequestReferer
	ContextKeyRequestUserAgent
	ContextKeyRequestXRequestID
	ContextKeyRequestAccept
	ContextKeyResponseHeaders
	ContextKeyResponseSize
)

type (
	RequestFunc         func(context.Context, *http.Request) context.Context
	ServerResponseFunc  func(context.Context, http.ResponseWriter) context.Context
	ClientResponseFunc  func(context.Context, *http.Response) context.Context
	DecodeRequestFunc   func(context.Context, *http.Request) (request interface{}, err error)
	EncodeRequestFunc   func(context.Context, *http.Request, interface{}) error
	CreateRequestFunc   func(context.Context, interface{}) (*http.Request, error)
	EncodeResponseFunc  func(context.Context, http.ResponseWriter, interface{}) error
	DecodeResponseFunc  func(context.Context, *http.Response) (response interface{}, err error)
	ErrorEncoder        func(ctx context.Context, err error, w http.ResponseWriter)
	ServerFinalizerFunc func(ctx context.Context, code int, r *http.Request)
	ClientFinalizerFunc func(ctx context.Context, err error)
)

type StatusCoder interface{ StatusCode() int }
type Headerer interface{ Headers() http.Header }

func SetContentType(contentType string) ServerResponseFunc {
	return SetResponseHeader("Content-Type", contentType)
}

func SetResponseHeader(key, val string) ServerResponseFunc {
	return func(ctx context.Context, w http.ResponseWriter) context.Context {
		w.Header().Set(key, val)
		return ctx
	}
}

func SetRequestHeader(key, val string) RequestFunc {
	return func(ctx context.Context, r *http.Request) context.Context {
		r.Header.Set(key, val)
		return ctx
	}
}

func PopulateRequestContext(ctx context.Context, r *http.Request) context.Context {
	for k, v := range map[contextKey]string{
		ContextKeyRequestMethod: r.Method, ContextKeyRequestURI: r.RequestURI, ContextKeyRequestPath: r.URL.Path,
		ContextKeyRequestProto: r.Proto, ContextKeyRequestHost: r.Host, ContextKeyRequestRemoteAddr: r.RemoteAddr,
		ContextKeyRequestXForwardedFor: r.Header.Get("X-Forwarded-For"), ContextKeyRequestXForwardedProto: r.Header.Get("X-Forwarded-Proto"),
		ContextKeyRequestAuthorization: r.Header.Get("Authorization"), ContextKeyRequestReferer: r.Header.Get("Referer"),
		ContextKeyRequestUserAgent: r.Header.Get("User-Agent"), ContextKeyRequestXRequestID: r.Header.Get("X-Request-Id"),
		ContextKeyRequestAccept: r.Header.Get("Accept"),
	} {
		ctx = context.WithValue(ctx, k, v)
	}
	return ctx
}

// Server wraps an endpoint and implements http.Handler.
type Server struct {
	e            endpoint.Endpoint
	dec          DecodeRequestFunc
	enc          EncodeResponseFunc
	before       []RequestFunc
	after        []ServerResponseFunc
	errorEncoder ErrorEncoder
	finalizer    []ServerFinalizerFunc
	errorHandler transport.ErrorHandler
}

type ServerOption func(*Server)

func NewServer(e endpoint.Endpoint, dec DecodeRequestFunc, enc EncodeResponseFunc, options ...ServerOption) *Server {
	s := &Server{e: e, dec: dec, enc: enc, errorEncoder: DefaultErrorEncoder, errorHandler: transport.Nop()}
	for _, o := range options {
		o(s)
	}
	return s
}

func ServerBefore(before ...RequestFunc) ServerOption {
	return func(s *Server) { s.before = append(s.before, before...) }
}
func ServerAfter(after ...ServerResponseFunc) ServerOption {
	return func(s *Server) { s.after = append(s.after, after...) }
}
func ServerErrorEncoder(ee ErrorEncoder) ServerOption { return func(s *Server) { s.errorEncoder = ee } }
func ServerErrorHandler(h transport.ErrorHandler) ServerOption {
	return func(s *Server) { s.errorHandler = h }
}
func ServerFinalizer(f ...ServerFinalizerFunc) ServerOption {
	return func(s *Server) { s.finalizer = append(s.finalizer, f...) }
}

type interceptingWriter struct {
	http.ResponseWriter
	code    int
	written int64
}

func (w *interceptingWriter) WriteHeader(code int) {
	w.code = code
	w.ResponseWriter.WriteHeader(code)
}
func (w *interceptingWriter) Write(p []byte) (int, error) {
	n, err := w.ResponseWriter.Write(p)
	w.written += int64(n)
	return n, err
}

func (s Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	ctx := r.Context()
	if len(s.finalizer) > 0 {
		iw := &interceptingWriter{w, http.StatusOK, 0}
		defer func() {
			ctx = context.WithValue(ctx, ContextKeyResponseHeaders, iw.Header())
			ctx = context.WithValue(ctx, ContextKeyResponseSize, iw.written)
			for _, f := range s.finalizer {
				f(ctx, iw.code, r)
			}
		}()
		w = iw
	}
	for _, f := range s.before {
		ctx = f(ctx, r)
	}
	request, err := s.dec(ctx, r)
	if err != nil {
		s.errorHandler.Handle(ctx, err)
		s.errorEncoder(ctx, err, w)
		return
	}
	response, err := s.e(ctx, request)
	if err != nil {
		s.errorHandler.Handle(ctx, err)
		s.errorEncoder(ctx, err, w)
		return
	}
	for _, f := range s.after {
		ctx = f(ctx, w)
	}
	if err := s.enc(ctx, w, response); err != nil {
		s.errorHandler.Handle(ctx, err)
		s.errorEncoder(ctx, err, w)
		return
	}
}

func NopRequestDecoder(context.Context, *http.Request) (interface{}, error) { return nil, nil }

func EncodeJSONResponse(_ context.Context, w http.ResponseWriter, response interface{}) error {
	w.Header().Set("Content-Type", "application/json; charset=utf-8")
	if h, ok := response.(Headerer); ok {
		for k, vs := range h.Headers() {
			for _, v := range vs {
				w.Header().Add(k, v)
			}
		}
	}
	code := http.StatusOK
	if sc, ok := response.(StatusCoder); ok {
		code = sc.StatusCode()
	}
	w.WriteHeader(code)
	if code == http.StatusNoContent {
		return nil
	}
	return json.NewEncoder(w).Encode(response)
}

func DefaultErrorEncoder(_ context.Context, err error, w http.ResponseWriter) {
	ct, body := "text/plain; charset=utf-8", []byte(err.Error())
	if m, ok := err.(json.Marshaler); ok {
		if b, e := m.MarshalJSON(); e == nil {
			ct, body = "application/json; charset=utf-8", b
		}
	}
	w.Header().Set("Content-Type", ct)
	if h, ok := err.(Headerer); ok {
		for k, vs := range h.Headers() {
			for _, v := range vs {
				w.Header().Add(k, v)
			}
		}
	}
	code := http.StatusInternalServerError
	if sc, ok := err.(StatusCoder); ok {
		code = sc.StatusCode()
	}
	w.WriteHeader(code)
	w.Write(body)
}

type HTTPClient interface {
	Do(req *http.Request) (*http.Response, error)
}

// Client wraps a URL and provides an endpoint.
type Client struct {
	client         HTTPClient
	req            CreateRequestFunc
	dec            DecodeResponseFunc
	before         []RequestFunc
	after          []ClientResponseFunc
	finalizer      []ClientFinalizerFunc
	bufferedStream bool
}

type ClientOption func(*Client)

func NewClient(method string, tgt *url.URL, enc EncodeRequestFunc, dec DecodeResponseFunc, options ...ClientOption) *Client {
	return NewExplicitClient(makeCreateRequestFunc(method, tgt, enc), dec, options...)
}

func NewExplicitClient(req CreateRequestFunc, dec DecodeResponseFunc, options ...ClientOption) *Client {
	c := &Client{client: http.DefaultClient, req: req, dec: dec}
	for _, o := range options {
		o(c)
	}
	return c
}

func SetClient(client HTTPClient) ClientOption { return func(c *Client) { c.client = client } }
func ClientBefore(before ...RequestFunc) ClientOption {
	return func(c *Client) { c.before = append(c.before, before...) }
}
func ClientAfter(after ...ClientResponseFunc) ClientOption {
	return func(c *Client) { c.after = append(c.after, after...) }
}
func ClientFinalizer(f ...ClientFinalizerFunc) ClientOption {
	return func(c *Client) { c.finalizer = append(c.finalizer, f...) }
}
func BufferedStream(buffered bool) ClientOption { return func(c *Client) { c.bufferedStream = buffered } }

type bodyWithCancel struct {
	io.ReadCloser
	cancel context.CancelFunc
}

func (b bodyWithCancel) Close() error {
	b.ReadCloser.Close()
	b.cancel()
	return nil
}

func (c Client) Endpoint() endpoint.Endpoint {
	return func(ctx context.Context, request interface{}) (interface{}, error) {
		ctx, cancel := context.WithCancel(ctx)
		var (
			resp *http.Response
			err  error
		)
		if c.finalizer != nil {
			defer func() {
				if resp != nil {
					ctx = context.WithValue(ctx, ContextKeyResponseHeaders, resp.Header)
					ctx = context.WithValue(ctx, ContextKeyResponseSize, resp.ContentLength)
				}
				for _, f := range c.finalizer {
					f(ctx, err)
				}
			}()
		}
		req, err := c.req(ctx, request)
		if err != nil {
			cancel()
			return nil, err
		}
		for _, f := range c.before {
			ctx = f(ctx, req)
		}
		resp, err = c.client.Do(req.WithContext(ctx))
		if err != nil {
			cancel()
			return nil, err
		}
		if c.bufferedStream {
			resp.Body = bodyWithCancel{ReadCloser: resp.Body, cancel: cancel}
		} else {
			defer resp.Body.Close()
			defer cancel()
		}
		for _, f := range c.after {
			ctx = f(ctx, resp)
		}
		response, err := c.dec(ctx, resp)
		if err != nil {
			return nil, err
		}
		return response, nil
	}
}

func makeCreateRequestFunc(method string, target *url.URL, enc EncodeRequestFunc) CreateRequestFunc {
	return func(ctx context.Context, request interface{}) (*http.Request, error) {
		req, err := http.NewRequest(method, target.String(), nil)
		if err != nil {
			return nil, err
		}
		if err = enc(ctx, req, request); err != nil {
			return nil, err
		}
		return req, nil
	}
}

func EncodeJSONRequest(c context.Context, r *http.Request, request interface{}) error {
	r.Header.Set("Content-Type", "application/json; charset=utf-8")
	if h, ok := request.(Headerer); ok {
		for k := range h.Headers() {
			r.Header.Set(k, h.Headers().Get(k))
		}
	}
	var b bytes.Buffer
	r.Body = io.NopCloser(&b)
	return json.NewEncoder(&b).Encode(request)
}

func EncodeXMLRequest(c context.Context, r *http.Request, request interface{}) error {
	r.Header.Set("Content-Type", "text/xml; charset=utf-8")
	var b bytes.Buffer
	r.Body = io.NopCloser(&b)
	return xml.NewEncoder(&b).Encode(request)
}
