package nats

import (
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/url"
	"os"
	"strings"
	"sync"
	"time"
)

var ErrNoServers = errors.New("nats: no servers available for connection")

func tcpMode() bool { return os.Getenv("NATS_STUB_TCP") != "" }

// frame is a line of the stand-in's own protocol.
type frame struct {
	Op      string // sub, unsub, pub; msg from the broker
	Sid     int
	Subject string
	Queue   string
	Reply   string
	Header  Header
	Data    []byte
}

type tcp struct {
	conn net.Conn
	mu   sync.Mutex
	enc  *json.Encoder
	subs map[int]*Subscription
	ids  map[*Subscription]int
	next int
	n    int
}

// dial connects to the first server of the list that answers.
func dial(list string) (*Conn, error) {
	for _, a := range strings.Split(list, ",") {
		a = strings.TrimSpace(a)
		if !strings.Contains(a, "://") {
			a = "nats://" + a
		}
		u, err := url.Parse(a)
		if err != nil {
			return nil, err
		}
		port := u.Port()
		if port == "" {
			port = "4222"
		}
		conn, err := net.DialTimeout("tcp", net.JoinHostPort(u.Hostname(), port), 2*time.Second)
		if err != nil {
			continue
		}
		t := &tcp{conn: conn, enc: json.NewEncoder(conn), subs: map[int]*Subscription{}, ids: map[*Subscription]int{}}
		go t.read()
		return &Conn{t: t}, nil
	}
	return nil, ErrNoServers
}

func (t *tcp) send(f *frame) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.enc.Encode(f)
}

func (t *tcp) inbox() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.n++
	return fmt.Sprintf("_INBOX.%d.%s.%d", os.Getpid(), strings.NewReplacer(".", "-", ":", "-").Replace(t.conn.LocalAddr().String()), t.n)
}

func (t *tcp) subscribe(s *Subscription) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.next++
	t.subs[t.next] = s
	t.ids[s] = t.next
	t.enc.Encode(&frame{Op: "sub", Sid: t.next, Subject: s.Subject, Queue: s.Queue})
}

func (t *tcp) unsubscribe(s *Subscription) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if id, ok := t.ids[s]; ok {
		delete(t.ids, s)
		delete(t.subs, id)
		t.enc.Encode(&frame{Op: "unsub", Sid: id})
	}
}

func (t *tcp) read() {
	dec := json.NewDecoder(t.conn)
	for {
		var f frame
		if dec.Decode(&f) != nil {
			return
		}
		t.mu.Lock()
		s := t.subs[f.Sid]
		t.mu.Unlock()
		if s != nil {
			s.push(&Msg{Subject: f.Subject, Reply: f.Reply, Header: f.Header, Data: f.Data, Sub: s})
		}
	}
}
