// Package grpc keeps go-kit v0.10's gRPC transport.
package grpc

import (
	"context"
	"encoding/base64"
	"fmt"
	"reflect"
	"strings"

	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"

	"github.com/go-kit/kit/endpoint"
	"github.com/go-kit/kit/transport"
)

const binHdrSuffix = "-bin"

type contextKey int

const ContextKeyRequestMethod contextKey = iota

type (
	ClientRequestFunc   func(context.Context, *metadata.MD) context.Context
	ServerRequestFunc   func(context.Context, metadata.MD) context.Context
	ServerResponseFunc  func(ctx context.Context, header *metadata.MD, trailer *metadata.MD) context.Context
	ClientResponseFunc  func(ctx context.Context, header metadata.MD, trailer metadata.MD) context.Context
	DecodeRequestFunc   func(context.Context, interface{}) (request interface{}, err error)
	EncodeRequestFunc   func(context.Context, interface{}) (request interface{}, err error)
	EncodeResponseFunc  func(context.Context, interface{}) (response interface{}, err error)
	DecodeResponseFunc  func(context.Context, interface{}) (response interface{}, err error)
	ServerFinalizerFunc func(ctx context.Context, err error)
	ClientFinalizerFunc func(ctx context.Context, err error)
)

// EncodeKeyValue sanitizes a key-value pair for use in gRPC metadata headers.
func EncodeKeyValue(key, val string) (string, string) {
	key = strings.ToLower(key)
	if strings.HasSuffix(key, binHdrSuffix) {
		val = base64.StdEncoding.EncodeToString([]byte(val))
	}
	return key, val
}

func SetRequestHeader(key, val string) ClientRequestFunc {
	return func(ctx context.Context, md *metadata.MD) context.Context {
		key, val := EncodeKeyValue(key, val)
		(*md)[key] = append((*md)[key], val)
		return ctx
	}
}

func SetResponseHeader(key, val string) ServerResponseFunc {
	return func(ctx context.Context, md *metadata.MD, _ *metadata.MD) context.Context {
		key, val := EncodeKeyValue(key, val)
		(*md)[key] = append((*md)[key], val)
		return ctx
	}
}

type Handler interface {
	ServeGRPC(ctx context.Context, request interface{}) (context.Context, interface{}, error)
}

type Server struct {
	e            endpoint.Endpoint
	dec          DecodeRequestFunc
	enc          EncodeResponseFunc
	before       []ServerRequestFunc
	after        []ServerResponseFunc
	finalizer    []ServerFinalizerFunc
	errorHandler transport.ErrorHandler
}

type ServerOption func(*Server)

func NewServer(e endpoint.Endpoint, dec DecodeRequestFunc, enc EncodeResponseFunc, options ...ServerOption) *Server {
	s := &Server{e: e, dec: dec, enc: enc, errorHandler: transport.Nop()}
	for _, o := range options {
		o(s)
	}
	return s
}

func ServerBefore(before ...ServerRequestFunc) ServerOption {
	return func(s *Server) { s.before = append(s.before, before...) }
}
func ServerAfter(after ...ServerResponseFunc) ServerOption {
	return func(s *Server) { s.after = append(s.after, after...) }
}
func ServerErrorHandler(h transport.ErrorHandler) ServerOption {
	return func(s *Server) { s.errorHandler = h }
}
func ServerFinalizer(f ...ServerFinalizerFunc) ServerOption {
	return func(s *Server) { s.finalizer = append(s.finalizer, f...) }
}

func (s Server) ServeGRPC(ctx context.Context, req interface{}) (retctx context.Context, resp interface{}, err error) {
	md, ok := metadata.FromIncomingContext(ctx)
	if !ok {
		md = metadata.MD{}
	}
	if len(s.finalizer) > 0 {
		defer func() {
			for _, f := range s.finalizer {
				f(ctx, err)
			}
		}()
	}
	for _, f := range s.before {
		ctx = f(ctx, md)
	}
	var request, response, grpcResp interface{}
	request, err = s.dec(ctx, req)
	if err != nil {
		s.errorHandler.Handle(ctx, err)
		return ctx, nil, err
	}
	response, err = s.e(ctx, request)
	if err != nil {
		s.errorHandler.Handle(ctx, err)
		return ctx, nil, err
	}
	var mdHeader, mdTrailer metadata.MD
	for _, f := range s.after {
		ctx = f(ctx, &mdHeader, &mdTrailer)
	}
	grpcResp, err = s.enc(ctx, response)
	if err != nil {
		s.errorHandler.Handle(ctx, err)
		return ctx, nil, err
	}
	if len(mdHeader) > 0 {
		if err = grpc.SendHeader(ctx, mdHeader); err != nil {
			s.errorHandler.Handle(ctx, err)
			return ctx, nil, err
		}
	}
	if len(mdTrailer) > 0 {
		if err = grpc.SetTrailer(ctx, mdTrailer); err != nil {
			s.errorHandler.Handle(ctx, err)
			return ctx, nil, err
		}
	}
	return ctx, grpcResp, nil
}

// Client wraps a gRPC connection and provides a method that implements
// endpoint.Endpoint.
type Client struct {
	client    *grpc.ClientConn
	method    string
	enc       EncodeRequestFunc
	dec       DecodeResponseFunc
	grpcReply reflect.Type
	before    []ClientRequestFunc
	after     []ClientResponseFunc
	finalizer []ClientFinalizerFunc
}

type ClientOption func(*Client)

func NewClient(cc *grpc.ClientConn, serviceName string, method string, enc EncodeRequestFunc, dec DecodeResponseFunc, grpcReply interface{}, options ...ClientOption) *Client {
	c := &Client{
		client:    cc,
		method:    fmt.Sprintf("/%s/%s", serviceName, method),
		enc:       enc,
		dec:       dec,
		grpcReply: reflect.TypeOf(reflect.Indirect(reflect.ValueOf(grpcReply)).Interface()),
	}
	for _, o := range options {
		o(c)
	}
	return c
}

func ClientBefore(before ...ClientRequestFunc) ClientOption {
	return func(c *Client) { c.before = append(c.before, before...) }
}
func ClientAfter(after ...ClientResponseFunc) ClientOption {
	return func(c *Client) { c.after = append(c.after, after...) }
}
func ClientFinalizer(f ...ClientFinalizerFunc) ClientOption {
	return func(c *Client) { c.finalizer = append(c.finalizer, f...) }
}

func (c Client) Endpoint() endpoint.Endpoint {
	return func(ctx context.Context, request interface{}) (response interface{}, err error) {
		ctx, cancel := context.WithCancel(ctx)
		defer cancel()
		if c.finalizer != nil {
			defer func() {
				for _, f := range c.finalizer {
					f(ctx, err)
				}
			}()
		}
		ctx = context.WithValue(ctx, ContextKeyRequestMethod, c.method)
		req, err := c.enc(ctx, request)
		if err != nil {
			return nil, err
		}
		md := &metadata.MD{}
		for _, f := range c.before {
			ctx = f(ctx, md)
		}
		ctx = metadata.NewOutgoingContext(ctx, *md)
		var header, trailer metadata.MD
		grpcReply := reflect.New(c.grpcReply).Interface()
		if err = c.client.Invoke(ctx, c.method, req, grpcReply, grpc.Header(&header), grpc.Trailer(&trailer)); err != nil {
			return nil, err
		}
		for _, f := range c.after {
			ctx = f(ctx, header, trailer)
		}
		response, err = c.dec(ctx, grpcReply)
		if err != nil {
			return nil, err
		}
		return response, nil
	}
}

// Interceptor puts the name of the called method into the context.
func Interceptor(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, handler grpc.UnaryHandler) (interface{}, error) {
	return handler(context.WithValue(ctx, ContextKeyRequestMethod, info.FullMethod), req)
}
