package document

import "testing"

func TestSeedRestart(t *testing.T) {
	e := vNewEnv(t)
	c := e.client(t, "")
	vCreate(t, c, "a")
	if err := c.AddDocuments("a", nil, vDoc("one", 1, 0, 0)); err != nil {
		t.Fatal(err)
	}
	c2 := e.client(t, "")
	docs, _, err := c2.GetNearDocumentsByVector("a", []float32{1, 0, 0}, 3, 10)
	if err != nil || len(docs) != 1 {
		t.Fatal(vIDs(docs), err)
	}
}
