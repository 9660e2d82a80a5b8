package rest

import (
	"io"
	"net/http"
	"strings"
	"testing"
)

type seedBody struct {
	io.Reader
	closed *int
}

func (b seedBody) Close() error { *b.closed++; return nil }

type seedTransport struct{ status, closed int }

func (s *seedTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: s.status, Header: http.Header{}, Request: r,
		Body: seedBody{strings.NewReader(`{"vector":[1,0,0]}`), &s.closed}}, nil
}

func TestSeedClosed(t *testing.T) {
	for _, status := range []int{200, 404, 503} {
		tr := &seedTransport{status: status}
		v := &Vectorizer{url: "http://example.invalid", client: &http.Client{Transport: tr}}
		_, _ = v.Corpi([]string{"x"})
		if tr.closed == 0 {
			t.Fatalf("the body of an answer with status %d is left open", status)
		}
	}
}
