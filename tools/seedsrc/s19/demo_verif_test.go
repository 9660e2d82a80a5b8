package document

import "testing"

func TestSeedMixedBatch(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	vCreate(t, c, "a")
	plain := &Document{ID: "plain", Properties: map[string]interface{}{"title": "plain"}}
	if err := c.AddDocuments("a", nil, vDoc("one", 1, 0, 0), plain, vDoc("two", 0, 1, 0), vDoc("three", 0, 0, 1)); err != nil {
		t.Fatal(err)
	}
	docs, _, err := c.GetNearDocumentsByVector("a", []float32{0, 0.1, 1}, 0.5, 1)
	if err != nil {
		t.Fatal(err)
	}
	if ids := vIDs(docs); len(ids) != 1 || ids[0] != "three" {
		t.Fatal("found", ids)
	}
}
