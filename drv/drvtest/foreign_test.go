package drvtest

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strconv"
	"sync"
	"time"

	"github.com/nats-io/nats.go"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

func init() {
	modes["C42"] = foreign
}

// subject is what the generated client publishes an rpc's requests to.
func (e *env) subject(rpc string) string {
	nc, _ := nats.Connect(fmt.Sprintf("subject-%p-%d", e.inst, time.Now().UnixNano()))
	defer nc.Close()
	got := make(chan string, 10)
	if _, err := nc.Subscribe(">", func(m *nats.Msg) {
		if m.Reply != "" {
			got <- m.Subject
			nc.Publish(m.Reply, []byte("{}"))
		}
	}); err != nil {
		panic(err)
	}
	c, err := e.inst.NATSClient(nc)
	if err != nil {
		panic(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), callTimeout)
	defer cancel()
	go c(ctx, rpc, e.tg.Method(rpc).In())
	select {
	case s := <-got:
		return s
	case <-ctx.Done():
		panic("the request of the NATS client was not seen")
	}
}

// later puts fields into a message that its definition does not have (yet).
func later(t *rapid.T, m protoreflect.Message) (n int) {
	if isExternal(m.Descriptor()) {
		return 0
	}
	if rapid.IntRange(0, 1).Draw(t, "later") == 0 {
		n++
		var b []byte
		num := protowire.Number(rapid.IntRange(50000, 50010).Draw(t, "number"))
		switch rapid.IntRange(0, 4).Draw(t, "wire") {
		case 0:
			b = protowire.AppendVarint(protowire.AppendTag(b, num, protowire.VarintType), 7)
		case 1:
			b = protowire.AppendFixed32(protowire.AppendTag(b, num, protowire.Fixed32Type), 7)
		case 2:
			b = protowire.AppendFixed64(protowire.AppendTag(b, num, protowire.Fixed64Type), 7)
		case 3:
			b = protowire.AppendBytes(protowire.AppendTag(b, num, protowire.BytesType), []byte("later\xff"))
		default:
			b = protowire.AppendTag(protowire.AppendTag(b, num, protowire.StartGroupType), num, protowire.EndGroupType)
		}
		m.SetUnknown(b)
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Message() != nil && !fd.IsList() && !fd.IsMap() {
			n += later(t, v.Message())
		}
		return true
	})
	return n
}

// known is m without what its definition does not have.
func known(m proto.Message) proto.Message {
	out := proto.Clone(m)
	var clean func(m protoreflect.Message)
	clean = func(m protoreflect.Message) {
		m.SetUnknown(nil)
		m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			if fd.Message() != nil && !fd.IsList() && !fd.IsMap() {
				clean(v.Message())
			}
			return true
		})
	}
	clean(out.ProtoReflect())
	return out
}

// foreign calls a generated server as others would, and a generated client
// gets the responses of others: any spelling of the JSON mapping, and fields
// of a later version of the definition.
func foreign(t *rapid.T, e *env) {
	kinds := []string{"nats request", "nats response", "grpc"}
	if len(e.s.bound()) > 0 {
		kinds = append(kinds, "http response", "http response")
	}
	kind := rapid.SampledFrom(kinds).Draw(t, "kind")
	rpcs := e.s.Rpcs
	var at func(protoreflect.FieldDescriptor) string
	if kind == "http response" {
		rpcs = e.s.bound()
	}
	r := rapid.SampledFrom(rpcs).Draw(t, "rpc")
	if kind == "http response" {
		at = r.at
	}
	m := e.tg.Method(r.Go)
	in, out := newMessage(t, m.In, at), newMessage(t, m.Out, nil)
	info := map[string]interface{}{"kind": kind, "rpc": r.Go, "request": show(in), "response": show(out)}
	var mu sync.Mutex
	var seen []proto.Message
	e.svc.Set(func(_ context.Context, method string, in proto.Message) (proto.Message, error) {
		mu.Lock()
		defer mu.Unlock()
		if method == r.Go {
			seen = append(seen, proto.Clone(in))
		}
		return proto.Clone(out), nil
	})
	defer e.svc.Set(nil)
	fail := func(format string, a ...interface{}) {
		e.res.fail(t, info, "%s, rpc %s: %s", kind, r.Go, fmt.Sprintf(format, a...))
	}
	served := func() {
		mu.Lock()
		defer mu.Unlock()
		if len(seen) != 1 || !proto.Equal(known(seen[0]), in) {
			got := "nothing"
			if len(seen) > 0 {
				got = show(seen[0])
			}
			fail("the service was called %d times, with %s, should be %s", len(seen), got, show(in))
		}
	}
	returned := func(got proto.Message, err error) {
		if err != nil || !proto.Equal(known(got), out) {
			fail("the client returns %s, %v, the response is %s", show(got), err, show(out))
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), callTimeout)
	defer cancel()
	switch kind {
	case "nats request":
		text := jsonMessage(t, in.ProtoReflect(), nil)
		info["message"] = short(text)
		e.res.note(interesting(in), info, kind)
		rep, err := e.nc.Request(e.subject(r.Go), []byte(text), callTimeout)
		if err != nil {
			fail("the message %s: %v", short(text), err)
		}
		served()
		got := m.Out()
		if err := protojson.Unmarshal(rep.Data, got); err != nil || !proto.Equal(got, out) {
			fail("the reply is %s (%v), the response is %s", short(string(rep.Data)), err, show(out))
		}
	case "nats response":
		text := jsonMessage(t, out.ProtoReflect(), nil)
		info["message"] = short(text)
		e.res.note(interesting(out), info, kind)
		nc, _ := nats.Connect(fmt.Sprintf("foreign-%p-%d", e.inst, time.Now().UnixNano()))
		defer nc.Close()
		got := make(chan []byte, 10)
		if _, err := nc.Subscribe(">", func(m *nats.Msg) {
			if m.Reply != "" {
				got <- m.Data
				nc.Publish(m.Reply, []byte(text))
			}
		}); err != nil {
			panic(err)
		}
		c, err := e.inst.NATSClient(nc)
		if err != nil {
			panic(err)
		}
		returned(c(ctx, r.Go, proto.Clone(in)))
		req := m.In()
		select {
		case b := <-got:
			if err := protojson.Unmarshal(b, req); err != nil || !proto.Equal(req, in) {
				fail("the client sent %s (%v), the request is %s", short(string(b)), err, show(in))
			}
		default:
			fail("the client sent nothing")
		}
	case "http response":
		text := jsonMessage(t, out.ProtoReflect(), nil)
		info["message"] = short(text)
		ct := rapid.SampledFrom([]string{"application/json", "application/json; charset=utf-8", "text/plain", "", "Application/JSON;charset=UTF-8"}).Draw(t, "type")
		info["type"] = ct
		pieces := rapid.IntRange(0, 3).Draw(t, "pieces")
		e.res.note(interesting(out), info, kind)
		requests := 0
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			io.Copy(io.Discard, q.Body)
			mu.Lock()
			requests++
			mu.Unlock()
			w.Header().Set("X-Other", "1")
			if ct != "" {
				w.Header().Set("Content-Type", ct)
			}
			if pieces == 0 {
				w.Header().Set("Content-Length", strconv.Itoa(len(text)))
			}
			rest := text
			for i := pieces; i > 1; i-- {
				n := len(rest) / i
				io.WriteString(w, rest[:n])
				w.(http.Flusher).Flush()
				rest = rest[n:]
			}
			io.WriteString(w, rest)
		}))
		defer srv.Close()
		c, err := e.inst.HTTPClient(srv.URL)
		if err != nil {
			panic(err)
		}
		returned(c(ctx, r.Go, proto.Clone(in)))
		mu.Lock()
		defer mu.Unlock()
		if requests != 1 {
			fail("the client made %d requests", requests)
		}
	case "grpc":
		sent := proto.Clone(in)
		n := later(t, sent.ProtoReflect())
		// the response, too
		plain := out
		out = proto.Clone(out)
		n += later(t, out.ProtoReflect())
		info["later fields"] = n
		e.res.note(n > 0, info, kind)
		c := e.client("grpc", nil, nil)
		got, err := c(ctx, r.Go, sent)
		out = plain
		served()
		returned(got, err)
	}
}
