//go:build go1.24

package wire

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"time"
)

// grpcEmpty calls a method with an empty message and returns the response
// message, undecoded.
func grpcEmpty(addr, method string) ([]byte, error) {
	tr := &http.Transport{DisableKeepAlives: true}
	tr.Protocols = new(http.Protocols)
	tr.Protocols.SetUnencryptedHTTP2(true)
	defer tr.CloseIdleConnections()
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, "POST", "http://"+addr+method, bytes.NewReader(make([]byte, 5)))
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", "application/grpc")
	req.Header.Set("Te", "trailers")
	r, err := (&http.Client{Transport: tr}).Do(req)
	if err != nil {
		return nil, err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return nil, err
	}
	st := r.Trailer.Get("Grpc-Status")
	if st == "" {
		st = r.Header.Get("Grpc-Status")
	}
	if st != "0" {
		return nil, fmt.Errorf("gRPC status %s %s", st, r.Trailer.Get("Grpc-Message")+r.Header.Get("Grpc-Message"))
	}
	if len(b) < 5 {
		return nil, fmt.Errorf("gRPC response without a message")
	}
	return b[5:], nil
}
