// Package nats keeps go-kit v0.10's NATS transport.
package nats

import (
	"context"
	"encoding/json"
	"time"

	"github.com/nats-io/nats.go"

	"github.com/go-kit/kit/endpoint"
	"github.com/go-kit/kit/transport"
)

type (
	RequestFunc             func(context.Context, *nats.Msg) context.Context
	SubscriberResponseFunc  func(context.Context, *nats.Conn) context.Context
	PublisherResponseFunc   func(context.Context, *nats.Msg) context.Context
	DecodeRequestFunc       func(context.Context, *nats.Msg) (request interface{}, err error)
	EncodeRequestFunc       func(context.Context, *nats.Msg, interface{}) error
	EncodeResponseFunc      func(context.Context, string, *nats.Conn, interface{}) error
	DecodeResponseFunc      func(context.Context, *nats.Msg) (response interface{}, err error)
	ErrorEncoder            func(ctx context.Context, err error, reply string, nc *nats.Conn)
	SubscriberFinalizerFunc func(ctx context.Context, msg *nats.Msg)
	PublisherFinalizerFunc  func(ctx context.Context, msg *nats.Msg)
)

type Subscriber struct {
	e            endpoint.Endpoint
	dec          DecodeRequestFunc
	enc          EncodeResponseFunc
	before       []RequestFunc
	after        []SubscriberResponseFunc
	errorEncoder ErrorEncoder
	finalizer    []SubscriberFinalizerFunc
	errorHandler transport.ErrorHandler
}

type SubscriberOption func(*Subscriber)

func NewSubscriber(e endpoint.Endpoint, dec DecodeRequestFunc, enc EncodeResponseFunc, options ...SubscriberOption) *Subscriber {
	s := &Subscriber{e: e, dec: dec, enc: enc, errorEncoder: DefaultErrorEncoder, errorHandler: transport.Nop()}
	for _, o := range options {
		o(s)
	}
	return s
}

func SubscriberBefore(before ...RequestFunc) SubscriberOption {
	return func(s *Subscriber) { s.before = append(s.before, before...) }
}
func SubscriberAfter(after ...SubscriberResponseFunc) SubscriberOption {
	return func(s *Subscriber) { s.after = append(s.after, after...) }
}
func SubscriberErrorEncoder(ee ErrorEncoder) SubscriberOption {
	return func(s *Subscriber) { s.errorEncoder = ee }
}
func SubscriberErrorHandler(h transport.ErrorHandler) SubscriberOption {
	return func(s *Subscriber) { s.errorHandler = h }
}
func SubscriberFinalizer(f ...SubscriberFinalizerFunc) SubscriberOption {
	return func(s *Subscriber) { s.finalizer = f }
}

func (s Subscriber) ServeMsg(nc *nats.Conn) func(msg *nats.Msg) {
	return func(msg *nats.Msg) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if len(s.finalizer) > 0 {
			defer func() {
				for _, f := range s.finalizer {
					f(ctx, msg)
				}
			}()
		}
		for _, f := range s.before {
			ctx = f(ctx, msg)
		}
		fail := func(err error) {
			s.errorHandler.Handle(ctx, err)
			if msg.Reply == "" {
				return
			}
			s.errorEncoder(ctx, err, msg.Reply, nc)
		}
		request, err := s.dec(ctx, msg)
		if err != nil {
			fail(err)
			return
		}
		response, err := s.e(ctx, request)
		if err != nil {
			fail(err)
			return
		}
		for _, f := range s.after {
			ctx = f(ctx, nc)
		}
		if msg.Reply == "" {
			return
		}
		if err := s.enc(ctx, msg.Reply, nc, response); err != nil {
			fail(err)
			return
		}
	}
}

func NopRequestDecoder(_ context.Context, _ *nats.Msg) (interface{}, error) { return nil, nil }

func EncodeJSONResponse(_ context.Context, reply string, nc *nats.Conn, response interface{}) error {
	b, err := json.Marshal(response)
	if err != nil {
		return err
	}
	return nc.Publish(reply, b)
}

func DefaultErrorEncoder(_ context.Context, err error, reply string, nc *nats.Conn) {
	type Response struct {
		Error string `json:"err"`
	}
	b, err := json.Marshal(Response{err.Error()})
	if err != nil {
		return
	}
	nc.Publish(reply, b)
}

type Publisher struct {
	publisher *nats.Conn
	subject   string
	enc       EncodeRequestFunc
	dec       DecodeResponseFunc
	before    []RequestFunc
	after     []PublisherResponseFunc
	finalizer []PublisherFinalizerFunc
	timeout   time.Duration
}

type PublisherOption func(*Publisher)

func NewPublisher(publisher *nats.Conn, subject string, enc EncodeRequestFunc, dec DecodeResponseFunc, options ...PublisherOption) *Publisher {
	p := &Publisher{publisher: publisher, subject: subject, enc: enc, dec: dec, timeout: 10 * time.Second}
	for _, o := range options {
		o(p)
	}
	return p
}

func PublisherBefore(before ...RequestFunc) PublisherOption {
	return func(p *Publisher) { p.before = append(p.before, before...) }
}
func PublisherAfter(after ...PublisherResponseFunc) PublisherOption {
	return func(p *Publisher) { p.after = append(p.after, after...) }
}
func PublisherTimeout(timeout time.Duration) PublisherOption {
	return func(p *Publisher) { p.timeout = timeout }
}
func PublisherFinalizer(f ...PublisherFinalizerFunc) PublisherOption {
	return func(p *Publisher) { p.finalizer = f }
}

func (p Publisher) Endpoint() endpoint.Endpoint {
	return func(ctx context.Context, request interface{}) (interface{}, error) {
		ctx, cancel := context.WithTimeout(ctx, p.timeout)
		defer cancel()
		var resp *nats.Msg
		if p.finalizer != nil {
			defer func() {
				for _, f := range p.finalizer {
					f(ctx, resp)
				}
			}()
		}
		msg := nats.Msg{Subject: p.subject}
		if err := p.enc(ctx, &msg, request); err != nil {
			return nil, err
		}
		for _, f := range p.before {
			ctx = f(ctx, &msg)
		}
		resp, err := p.publisher.RequestWithContext(ctx, msg.Subject, msg.Data)
		if err != nil {
			return nil, err
		}
		for _, f := range p.after {
			ctx = f(ctx, resp)
		}
		response, err := p.dec(ctx, resp)
		if err != nil {
			return nil, err
		}
		return response, nil
	}
}

func EncodeJSONRequest(_ context.Context, msg *nats.Msg, request interface{}) error {
	b, err := json.Marshal(request)
	if err != nil {
		return err
	}
	msg.Data = b
	return nil
}
