package wire

import (
	"encoding/json"
	"net"
	"sync"
)

// natsFrame is a line of the protocol of stubs/nats/tcp.go.
type natsFrame struct {
	Op      string
	Sid     int
	Subject string
	Queue   string
	Reply   string
	Header  map[string][]string
	Data    []byte
}

// broker is the NATS stand-in's server.
type broker struct {
	ln    net.Listener
	mu    sync.Mutex
	conns map[net.Conn]bool
	subs  []*brokerSub
	next  int
	seen  int // connections accepted so far
}

type brokerSub struct {
	conn    net.Conn
	enc     *json.Encoder
	sid     int
	subject string
	queue   string
}

func newBroker(addr string) (*broker, error) {
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, err
	}
	b := &broker{ln: ln, conns: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			b.mu.Lock()
			b.seen++
			b.conns[c] = true
			b.mu.Unlock()
			go b.serve(c)
		}
	}()
	return b, nil
}

func (b *broker) connections() int { b.mu.Lock(); defer b.mu.Unlock(); return b.seen }

// subscriptions is the number of live subscriptions.
func (b *broker) subscriptions() int { b.mu.Lock(); defer b.mu.Unlock(); return len(b.subs) }

func (b *broker) close() {
	b.ln.Close()
	b.mu.Lock()
	defer b.mu.Unlock()
	for c := range b.conns {
		c.Close()
	}
}

func (b *broker) serve(c net.Conn) {
	enc, dec := json.NewEncoder(c), json.NewDecoder(c)
	defer func() {
		b.mu.Lock()
		defer b.mu.Unlock()
		b.drop(func(s *brokerSub) bool { return s.conn == c })
		delete(b.conns, c)
		c.Close()
	}()
	for {
		var f natsFrame
		if dec.Decode(&f) != nil {
			return
		}
		b.mu.Lock()
		switch f.Op {
		case "sub":
			b.subs = append(b.subs, &brokerSub{c, enc, f.Sid, f.Subject, f.Queue})
		case "unsub":
			b.drop(func(s *brokerSub) bool { return s.conn == c && s.sid == f.Sid })
		case "pub":
			if b.deliver(&f) == 0 && f.Reply != "" {
				b.deliver(&natsFrame{Subject: f.Reply, Header: map[string][]string{"Status": {"503"}}})
			}
		}
		b.mu.Unlock()
	}
}

func (b *broker) drop(gone func(*brokerSub) bool) {
	var keep []*brokerSub
	for _, s := range b.subs {
		if !gone(s) {
			keep = append(keep, s)
		}
	}
	b.subs = keep
}

// deliver sends to every plain subscription and one of each queue group.
func (b *broker) deliver(f *natsFrame) int {
	var to []*brokerSub
	groups := map[string][]*brokerSub{}
	for _, s := range b.subs {
		if s.subject != f.Subject { // no wildcards: generated code has none
			continue
		}
		if s.queue == "" {
			to = append(to, s)
		} else {
			groups[s.queue] = append(groups[s.queue], s)
		}
	}
	for _, g := range groups {
		b.next++
		to = append(to, g[b.next%len(g)])
	}
	for _, s := range to {
		s.enc.Encode(&natsFrame{Op: "msg", Sid: s.sid, Subject: f.Subject, Reply: f.Reply, Header: f.Header, Data: f.Data})
	}
	return len(to)
}
