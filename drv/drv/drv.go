// Package drv is what the glue of a generated service and the driver share.
package drv

import (
	"context"
	"fmt"
	"net/http"
	"sync"

	"github.com/go-kit/kit/endpoint"
	grpctransport "github.com/go-kit/kit/transport/grpc"
	httptransport "github.com/go-kit/kit/transport/http"
	natstransport "github.com/go-kit/kit/transport/nats"
	"github.com/nats-io/nats.go"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
)

// Caller calls an rpc by its Go name.
type Caller func(ctx context.Context, method string, in proto.Message) (proto.Message, error)

// Method is an rpc of a target.
type Method struct {
	Go      string
	In, Out func() proto.Message
}

// Wrapper is what generated Endpoints offer.
type Wrapper interface {
	WrapAllExcept(middleware endpoint.Middleware, excluded ...string)
	WrapAllLabeledExcept(middleware func(string, endpoint.Endpoint) endpoint.Endpoint, excluded ...string)
}

// Hooks are called by the service's wrapper file.
type Hooks struct {
	Endpoints func(Wrapper)
	Service   func(method string) // before every call of the wrapped service
}

// Instance is a running service.
type Instance struct {
	Direct     Caller
	HTTP       func(o ...httptransport.ServerOption) http.Handler
	HTTPClient func(addr string, o ...httptransport.ClientOption) (Caller, error)
	GRPC       func(s *grpc.Server, o ...grpctransport.ServerOption)
	GRPCClient func(conn *grpc.ClientConn, o ...grpctransport.ClientOption) (Caller, error)
	NATS       func(conn *nats.Conn, o ...natstransport.SubscriberOption) error
	NATSClient func(conn *nats.Conn, o ...natstransport.PublisherOption) (Caller, error)

	CtxValuesToSend             func(keys ...string) httptransport.ClientOption
	ContextValuesToGRPCMetadata func(keys []string) grpctransport.ClientRequestFunc
}

// Target is a generated service.
type Target struct {
	ID      string
	Methods []Method
	New     func(s *Svc, h Hooks) *Instance
}

func (t *Target) Method(name string) Method {
	for _, m := range t.Methods {
		if m.Go == name {
			return m
		}
	}
	panic("no method " + name)
}

var Targets = map[string]*Target{}

func Register(t *Target) { Targets[t.ID] = t }

// Handler is the service's side of a call.
type Handler func(ctx context.Context, method string, in proto.Message) (proto.Message, error)

// Svc is the service implementation of every target.
type Svc struct {
	mu sync.Mutex
	h  Handler
}

func (s *Svc) Set(h Handler) {
	s.mu.Lock()
	s.h = h
	s.mu.Unlock()
}

func (s *Svc) Serve(ctx context.Context, method string, in proto.Message) (proto.Message, error) {
	s.mu.Lock()
	h := s.h
	s.mu.Unlock()
	if h == nil {
		return nil, fmt.Errorf("unexpected call of %s", method)
	}
	return h(ctx, method, in)
}
