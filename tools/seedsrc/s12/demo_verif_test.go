package rest

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestSeedRefusal(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(http.StatusUnprocessableEntity)
		fmt.Fprint(w, `{"vector":[0,0,0]}`)
	}))
	defer s.Close()
	v := &Vectorizer{url: s.URL, client: http.DefaultClient}
	if vec, err := v.Corpi([]string{"x"}); err == nil {
		t.Fatal("a refusal became", vec)
	}
}
