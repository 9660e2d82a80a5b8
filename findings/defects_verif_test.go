package document

// Demonstrations of the defects recorded in /verif/known_findings.json. Each test
// FAILS while the defect is present. Run through an overlay (see run.sh).

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
	"time"

	mockpost "github.com/ethersphere/bee/pkg/postage/mock"
	mockstorer "github.com/ethersphere/bee/pkg/storer/mock"
	"github.com/fairdatasociety/fairOS-dfs/pkg/blockstore/bee"
	"github.com/fairdatasociety/fairOS-dfs/pkg/blockstore/bee/mock"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
	mock2 "github.com/fairdatasociety/fairOS-dfs/pkg/ensm/eth/mock"
	"github.com/fairdatasociety/fairOS-dfs/pkg/logging"
	"github.com/fairdatasociety/fairOS-dfs/pkg/user"
	"github.com/sirupsen/logrus"
)

type vEnv struct {
	api  *dfs.API
	user string
}

func vNewEnv(t *testing.T) *vEnv {
	storer := mockstorer.New()
	beeUrl := mock.NewTestBeeServer(t, mock.TestServerOptions{
		Storer: storer, PreventRedirect: true, Post: mockpost.New(mockpost.WithAcceptAll())})
	logger := logging.New(io.Discard, logrus.ErrorLevel)
	mc := bee.NewBeeClient(beeUrl, mock.BatchOkStr, true, logger)
	users := user.NewUsers(mc, mock2.NewMockNamespaceManager(), 1000, time.Minute*60, logger)
	api := dfs.NewMockDfsAPI(mc, users, logger)
	if _, err := api.CreateUserV2("verifuser", "verifpasswordverif", "", ""); err != nil {
		t.Fatal(err)
	}
	return &vEnv{api: api, user: "verifuser"}
}

func (e *vEnv) client(t *testing.T, vecURL string) *Client {
	c, err := New(Config{VectorizerUrl: vecURL}, e.api)
	if err != nil {
		t.Fatal(err)
	}
	if err := c.Login(e.user, "verifpasswordverif"); err != nil {
		t.Fatal(err)
	}
	if err := c.OpenPod("Fave"); err != nil {
		t.Fatal(err)
	}
	return c
}

func vDoc(id string, vec ...float32) *Document {
	return &Document{ID: id, Properties: map[string]interface{}{"title": id, "vector": vec}}
}

func vCreate(t *testing.T, c *Client, name string) {
	if err := c.CreateCollection(&Collection{Name: name, Indexes: map[string]collection.IndexType{"title": collection.StringIndex}}); err != nil {
		t.Fatal(err)
	}
}

func vTry(t *testing.T, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%s: panic: %v", what, r)
		}
	}()
	f()
}

func vIDs(docs [][]byte) []string {
	var out []string
	for _, d := range docs {
		m := map[string]interface{}{}
		_ = json.Unmarshal(d, &m)
		out = append(out, fmt.Sprint(m["id"]))
	}
	return out
}

func vVectorizer(t *testing.T, status int, body string) string {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/vectorize" {
			w.WriteHeader(status)
			fmt.Fprint(w, body)
		}
	}))
	t.Cleanup(s.Close)
	return s.URL
}

// a document whose put fails must not make the collection unsearchable
func TestDefectPoisonedCollection(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	vCreate(t, c, "a")
	if err := c.AddDocuments("a", nil, vDoc("one", 1, 0, 0)); err != nil {
		t.Fatal(err)
	}
	bad := &Document{ID: "bad", Properties: map[string]interface{}{"vector": []float32{0, 1, 0}}}
	if err := c.AddDocuments("a", nil, bad); err == nil {
		t.Fatal("expected an error: indexed field missing")
	}
	docs, _, err := c.GetNearDocumentsByVector("a", []float32{1, 0, 0}, 3, 10)
	if err != nil {
		t.Fatalf("search fails for good after a rejected add: %v", err)
	}
	if ids := vIDs(docs); len(ids) != 1 || ids[0] != "one" {
		t.Fatal(ids)
	}
}

// ids must not be reused when a batch fails half way
func TestDefectIdReuse(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	vCreate(t, c, "a")
	bad := &Document{ID: "bad", Properties: map[string]interface{}{"title": "x", "vector": "nope"}}
	if err := c.AddDocuments("a", nil, vDoc("one", 1, 0, 0), bad); err == nil {
		t.Fatal("expected error")
	}
	if err := c.AddDocuments("a", nil, vDoc("two", 0, 1, 0)); err != nil {
		t.Fatal(err)
	}
	docs, _, err := c.GetNearDocumentsByVector("a", []float32{0, 1, 0}, 0.1, 10)
	if err != nil {
		t.Fatal(err)
	}
	if ids := vIDs(docs); len(ids) != 1 || ids[0] != "two" {
		t.Fatal("wrong documents", ids)
	}
}

// a document that cannot be indexed must not be acknowledged
func TestDefectSilentDrop(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	vCreate(t, c, "a")
	if err := c.AddDocuments("a", nil, vDoc("one", 1, 0, 0)); err != nil {
		t.Fatal(err)
	}
	if err := c.AddDocuments("a", nil, vDoc("two", 1, 0)); err == nil {
		t.Fatal("document with a 2-dimensional vector acknowledged and dropped")
	}
}

func TestDefectNegativeLimit(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	vCreate(t, c, "a")
	if err := c.AddDocuments("a", nil, vDoc("one", 1, 0, 0), vDoc("two", 0, 1, 0)); err != nil {
		t.Fatal(err)
	}
	vTry(t, "negative limit", func() { _, _, _ = c.GetNearDocumentsByVector("a", []float32{1, 0, 0}, 3, -1) })
}

func TestDefectDistsAligned(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	vCreate(t, c, "a")
	if err := c.AddDocuments("a", nil, vDoc("one", 1, 0, 0), vDoc("two", 0, 1, 0)); err != nil {
		t.Fatal(err)
	}
	docs, dists, err := c.GetNearDocumentsByVector("a", []float32{1, 0, 0}, 0.5, 0)
	if err != nil {
		t.Fatal(err)
	}
	if len(docs) != len(dists) {
		t.Fatal(len(docs), len(dists))
	}
}

func TestDefectIdenticalVectorDropped(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	vCreate(t, c, "a")
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 20; i++ {
		v := make([]float32, 33)
		for j := range v {
			v[j] = r.Float32()
		}
		id := fmt.Sprint("d", i)
		if err := c.AddDocuments("a", nil, vDoc(id, v...)); err != nil {
			t.Fatal(err)
		}
		docs, _, err := c.GetNearDocumentsByVector("a", v, 0.00001, 0)
		if err != nil {
			t.Fatal(err)
		}
		if ids := vIDs(docs); len(ids) != 1 || ids[0] != id {
			t.Fatal("exact match missing", id, ids)
		}
	}
}

func TestDefectEmptyCollectionSearch(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	vCreate(t, c, "a")
	docs, _, err := c.GetNearDocumentsByVector("a", []float32{1, 0}, 1, 10)
	if err != nil || len(docs) != 0 {
		t.Fatal("search on an empty collection:", docs, err)
	}
}

func TestDefectNoSession(t *testing.T) {
	e := vNewEnv(t)
	c, err := New(Config{}, e.api)
	if err != nil {
		t.Fatal(err)
	}
	vTry(t, "AddDocuments before login", func() {
		if err := c.AddDocuments("a", nil, vDoc("x", 1)); err == nil {
			t.Error("no error")
		}
	})
	vTry(t, "search before login", func() {
		if _, _, err := c.GetNearDocumentsByVector("a", []float32{1}, 1, 1); err == nil {
			t.Error("no error")
		}
	})
	vTry(t, "GetDocument before login", func() {
		if _, err := c.GetDocument("a", "id", "x"); err == nil {
			t.Error("no error")
		}
	})
}

// after a restart, GetDocument followed by a search must work
func TestDefectIndexMissing(t *testing.T) {
	e := vNewEnv(t)
	c := e.client(t, "")
	vCreate(t, c, "a")
	if err := c.AddDocuments("a", nil, vDoc("one", 1, 0, 0)); err != nil {
		t.Fatal(err)
	}
	c2 := e.client(t, "")
	if _, err := c2.GetDocument("a", "id", "one"); err != nil {
		t.Fatal(err)
	}
	vTry(t, "search after GetDocument on a restarted server", func() {
		if _, _, err := c2.GetNearDocumentsByVector("a", []float32{1, 0, 0}, 1, 1); err != nil {
			t.Error(err)
		}
	})
}

func TestDefectConcurrentAdds(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	vCreate(t, c, "a")
	if err := c.AddDocuments("a", nil, vDoc("seed", 1, 1, 1)); err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			v := []float32{0, 0, 0, 0}[:3]
			v[i%3] = float32(i + 1)
			if err := c.AddDocuments("a", nil, vDoc(fmt.Sprint("d", i), v[0]+1, v[1], v[2])); err != nil {
				t.Error(err)
			}
		}(i)
	}
	wg.Wait()
	seen := map[string]string{}
	for i := 0; i < 8; i++ {
		b, err := c.GetDocument("a", "id", fmt.Sprint("d", i))
		if err != nil {
			t.Error(err)
			continue
		}
		m := map[string]interface{}{}
		_ = json.Unmarshal(b, &m)
		k := fmt.Sprint(m["hnswId"])
		if o, ok := seen[k]; ok {
			t.Errorf("documents %s and d%d share id %s", o, i, k)
		}
		seen[k] = fmt.Sprint("d", i)
	}
}

func TestDefectInputPanics(t *testing.T) {
	url := vVectorizer(t, 200, `{"vector":[1,0,0]}`)
	c := vNewEnv(t).client(t, url)
	vCreate(t, c, "a")
	vTry(t, "non-string property to vectorize", func() {
		_ = c.AddDocuments("a", []string{"title"}, &Document{ID: "1", Properties: map[string]interface{}{"title": 3}})
	})
	vTry(t, "nil document", func() { _ = c.AddDocuments("a", []string{"title"}, nil) })
	vTry(t, "nil properties", func() { _ = c.AddDocuments("a", []string{"title"}, &Document{ID: "1"}) })
}

func TestDefectVectorizerError(t *testing.T) {
	url := vVectorizer(t, 500, `{}`)
	c := vNewEnv(t).client(t, url)
	vCreate(t, c, "a")
	vTry(t, "vectorizer answers 500 on add", func() {
		if err := c.AddDocuments("a", []string{"title"}, &Document{ID: "1", Properties: map[string]interface{}{"title": "x"}}); err == nil {
			t.Error("no error")
		}
	})
	vTry(t, "vectorizer answers 500 on search", func() {
		if _, _, err := c.GetNearDocuments("a", "x", 1, 1); err == nil {
			t.Error("no error")
		}
	})
}

func TestDefectUnlimitedTextSearch(t *testing.T) {
	url := vVectorizer(t, 200, `{"vector":[1,0,0]}`)
	c := vNewEnv(t).client(t, url)
	vCreate(t, c, "a")
	for i := 0; i < 5; i++ {
		if err := c.AddDocuments("a", nil, vDoc(fmt.Sprint("d", i), 1, float32(i), 0)); err != nil {
			t.Fatal(err)
		}
	}
	docs, _, err := c.GetNearDocuments("a", "x", 2, 0)
	if err != nil || len(docs) != 5 {
		t.Fatal(len(docs), err)
	}
}

func TestDefectDeleteReportsFailure(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	if err := c.DeleteCollection("never-created"); err == nil {
		t.Fatal("deleting a collection the storage refuses to delete is reported as success")
	}
}

// documents added after a restart must be indexed also when neighbours are not cached
func TestDefectAddAfterRestart(t *testing.T) {
	e := vNewEnv(t)
	c := e.client(t, "")
	vCreate(t, c, "a")
	r := rand.New(rand.NewSource(7))
	vec := func() []float32 {
		v := make([]float32, 8)
		for j := range v {
			v[j] = r.Float32()
		}
		return v
	}
	var docs []*Document
	for i := 0; i < 80; i++ {
		docs = append(docs, vDoc(fmt.Sprint("d", i), vec()...))
	}
	if err := c.AddDocuments("a", nil, docs...); err != nil {
		t.Fatal(err)
	}
	c2 := e.client(t, "")
	_ = c2
	c2 = e.client(t, "")
	if err := e.api.ClosePod("Fave", c2.sessionId); err == nil {
		if err := c2.OpenPod("Fave"); err != nil {
			t.Fatal(err)
		}
	}
	v := vec()
	if err := c2.AddDocuments("a", nil, vDoc("late", v...)); err != nil {
		t.Fatal(err)
	}
	out, _, err := c2.GetNearDocumentsByVector("a", v, 0.001, 0)
	if err != nil {
		t.Fatal(err)
	}
	if ids := vIDs(out); len(ids) != 1 || ids[0] != "late" {
		t.Fatal("document added after a restart is not found", ids)
	}
}
