// Package nats is an in-memory stand-in for nats.go: every connection to the
// same address shares one broker (with NATS_STUB_TCP set, the broker is the one
// of package wire's broker.go, reached over TCP; see tcp.go). Delivery, queue groups and requests follow
// nats.go v1.11; a message handler runs on its subscription's own goroutine,
// one message at a time.
package nats

import (
	"context"
	"errors"
	"strconv"
	"strings"
	"sync"
	"time"
)

const DefaultURL = "nats://127.0.0.1:4222"

var (
	ErrTimeout          = errors.New("nats: timeout")
	ErrNoResponders     = errors.New("nats: no responders available for request")
	ErrConnectionClosed = errors.New("nats: connection closed")
	ErrBadSubject       = errors.New("nats: invalid subject")
	ErrBadSubscription  = errors.New("nats: invalid subscription")
	ErrMsgNoReply       = errors.New("nats: message does not have a reply")
)

type Header map[string][]string

func (h Header) Add(k, v string) { h[k] = append(h[k], v) }
func (h Header) Set(k, v string) { h[k] = []string{v} }
func (h Header) Get(k string) string {
	if v := h[k]; len(v) > 0 {
		return v[0]
	}
	return ""
}

type Msg struct {
	Subject string
	Reply   string
	Header  Header
	Data    []byte
	Sub     *Subscription
}

func NewMsg(subject string) *Msg { return &Msg{Subject: subject, Header: Header{}} }

func (m *Msg) Respond(data []byte) error {
	if m.Sub == nil {
		return ErrBadSubscription
	}
	if m.Reply == "" {
		return ErrMsgNoReply
	}
	return m.Sub.conn.Publish(m.Reply, data)
}

type MsgHandler func(msg *Msg)

type Option func(*Options) error
type Options struct {
	Url            string
	Name           string
	Timeout        time.Duration
	MaxReconnect   int
	ReconnectWait  time.Duration
	AllowReconnect bool
}

func Name(name string) Option { return func(o *Options) error { o.Name = name; return nil } }
func Timeout(t time.Duration) Option {
	return func(o *Options) error { o.Timeout = t; return nil }
}
func MaxReconnects(n int) Option {
	return func(o *Options) error { o.MaxReconnect = n; return nil }
}
func ReconnectWait(t time.Duration) Option {
	return func(o *Options) error { o.ReconnectWait = t; return nil }
}
func NoReconnect() Option {
	return func(o *Options) error { o.AllowReconnect = false; return nil }
}

type broker struct {
	mu   sync.Mutex
	subs []*Subscription
	next int
}

var (
	bmu     sync.Mutex
	brokers = map[string]*broker{}
)

// Conn is a connection to a broker.
type Conn struct {
	b      *broker
	t      *tcp
	mu     sync.Mutex
	closed bool
	subs   []*Subscription
}

// Connect connects to the broker of that address.
func Connect(url string, options ...Option) (*Conn, error) {
	if tcpMode() {
		return dial(url)
	}
	bmu.Lock()
	defer bmu.Unlock()
	b := brokers[url]
	if b == nil {
		b = &broker{}
		brokers[url] = b
	}
	return &Conn{b: b}, nil
}

type Subscription struct {
	Subject string
	Queue   string
	conn    *Conn
	cb      MsgHandler
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []*Msg
	closed  bool
}

// IsConnected tells whether the connection is open.
func (c *Conn) IsConnected() bool { return !c.IsClosed() }

func (c *Conn) FlushTimeout(time.Duration) error { return c.Flush() }

// RequestMsg is Request with a message.
func (c *Conn) RequestMsg(m *Msg, timeout time.Duration) (*Msg, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	r, err := c.RequestMsgWithContext(ctx, m)
	if err == context.DeadlineExceeded {
		err = ErrTimeout
	}
	return r, err
}

func (s *Subscription) IsValid() bool { s.mu.Lock(); defer s.mu.Unlock(); return !s.closed }

func (s *Subscription) Unsubscribe() error {
	if t := s.conn.t; t != nil {
		t.unsubscribe(s)
		s.close()
		return nil
	}
	b := s.conn.b
	b.mu.Lock()
	for i, x := range b.subs {
		if x == s {
			b.subs = append(b.subs[:i:i], b.subs[i+1:]...)
			break
		}
	}
	b.mu.Unlock()
	s.close()
	return nil
}

func (s *Subscription) close() {
	s.mu.Lock()
	s.closed = true
	s.cond.Broadcast()
	s.mu.Unlock()
}

func (s *Subscription) push(m *Msg) {
	s.mu.Lock()
	s.queue = append(s.queue, m)
	s.cond.Signal()
	s.mu.Unlock()
}

func (s *Subscription) run() {
	for {
		s.mu.Lock()
		for len(s.queue) == 0 && !s.closed {
			s.cond.Wait()
		}
		if s.closed {
			s.mu.Unlock()
			return
		}
		m := s.queue[0]
		s.queue = s.queue[1:]
		s.mu.Unlock()
		s.cb(m)
	}
}

func badSubject(s string) bool {
	if s == "" || strings.ContainsAny(s, " \t\r\n") {
		return true
	}
	for _, t := range strings.Split(s, ".") {
		if t == "" {
			return true
		}
	}
	return false
}

func (c *Conn) Subscribe(subj string, cb MsgHandler) (*Subscription, error) {
	return c.QueueSubscribe(subj, "", cb)
}

func (c *Conn) QueueSubscribe(subj, queue string, cb MsgHandler) (*Subscription, error) {
	if badSubject(subj) {
		return nil, ErrBadSubject
	}
	if cb == nil {
		return nil, ErrBadSubscription
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return nil, ErrConnectionClosed
	}
	s := &Subscription{Subject: subj, Queue: queue, conn: c, cb: cb}
	s.cond = sync.NewCond(&s.mu)
	c.subs = append(c.subs, s)
	if c.t != nil {
		c.t.subscribe(s)
		go s.run()
		return s, nil
	}
	c.b.mu.Lock()
	c.b.subs = append(c.b.subs, s)
	c.b.mu.Unlock()
	go s.run()
	return s, nil
}

func matches(pattern, subj string) bool {
	p, s := strings.Split(pattern, "."), strings.Split(subj, ".")
	for i, t := range p {
		if t == ">" {
			return len(s) > i
		}
		if i >= len(s) || t != "*" && t != s[i] {
			return false
		}
	}
	return len(p) == len(s)
}

func (c *Conn) Publish(subj string, data []byte) error {
	_, err := c.publish(&Msg{Subject: subj, Data: data})
	return err
}
func (c *Conn) PublishRequest(subj, reply string, data []byte) error {
	_, err := c.publish(&Msg{Subject: subj, Reply: reply, Data: data})
	return err
}
func (c *Conn) PublishMsg(m *Msg) error {
	_, err := c.publish(m)
	return err
}

// publish delivers to every plain subscription and to one member of each
// queue group.
func (c *Conn) publish(m *Msg) (int, error) {
	c.mu.Lock()
	closed := c.closed
	c.mu.Unlock()
	if closed {
		return 0, ErrConnectionClosed
	}
	if m.Subject == "" {
		return 0, ErrBadSubject
	}
	if c.t != nil {
		return -1, c.t.send(&frame{Op: "pub", Subject: m.Subject, Reply: m.Reply, Header: m.Header, Data: m.Data})
	}
	b := c.b
	b.mu.Lock()
	defer b.mu.Unlock()
	groups := map[string][]*Subscription{}
	var to []*Subscription
	for _, s := range b.subs {
		if !matches(s.Subject, m.Subject) {
			continue
		}
		if s.Queue == "" {
			to = append(to, s)
		} else {
			groups[s.Queue] = append(groups[s.Queue], s)
		}
	}
	for _, g := range groups {
		b.next++
		to = append(to, g[b.next%len(g)])
	}
	for _, s := range to {
		s.push(&Msg{Subject: m.Subject, Reply: m.Reply, Header: m.Header, Data: append([]byte(nil), m.Data...), Sub: s})
	}
	return len(to), nil
}

func (c *Conn) Request(subj string, data []byte, timeout time.Duration) (*Msg, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	m, err := c.RequestWithContext(ctx, subj, data)
	if err == context.DeadlineExceeded {
		err = ErrTimeout
	}
	return m, err
}

func (c *Conn) RequestWithContext(ctx context.Context, subj string, data []byte) (*Msg, error) {
	return c.RequestMsgWithContext(ctx, &Msg{Subject: subj, Data: data})
}

func (c *Conn) inbox() string {
	if c.t != nil {
		return c.t.inbox()
	}
	c.b.mu.Lock()
	defer c.b.mu.Unlock()
	c.b.next++
	return "_INBOX." + strconv.Itoa(c.b.next)
}

func (c *Conn) RequestMsgWithContext(ctx context.Context, m *Msg) (*Msg, error) {
	if ctx.Err() != nil {
		return nil, ctx.Err()
	}
	inbox := c.inbox()
	ch := make(chan *Msg, 16)
	s, err := c.Subscribe(inbox, func(m *Msg) {
		select {
		case ch <- m:
		default:
		}
	})
	if err != nil {
		return nil, err
	}
	defer s.Unsubscribe()
	n, err := c.publish(&Msg{Subject: m.Subject, Reply: inbox, Header: m.Header, Data: m.Data})
	if err != nil {
		return nil, err
	}
	if n == 0 {
		return nil, ErrNoResponders
	}
	select {
	case r := <-ch:
		if len(r.Data) == 0 && r.Header.Get("Status") == "503" {
			return nil, ErrNoResponders
		}
		return r, nil
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

func (c *Conn) Flush() error { return nil }
func (c *Conn) IsClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *Conn) Close() {
	c.mu.Lock()
	c.closed = true
	subs := c.subs
	c.subs = nil
	c.mu.Unlock()
	for _, s := range subs {
		s.Unsubscribe()
	}
	if c.t != nil {
		c.t.conn.Close()
	}
}

func (c *Conn) Drain() error { c.Close(); return nil }
