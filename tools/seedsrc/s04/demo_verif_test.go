package document

import "testing"

func TestSeedNothingNear(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	vCreate(t, c, "a")
	if err := c.AddDocuments("a", nil, vDoc("one", 1, 0, 0), vDoc("two", 0, 1, 0)); err != nil {
		t.Fatal(err)
	}
	docs, dists, err := c.GetNearDocumentsByVector("a", []float32{0, 0, 1}, 0.5, 10)
	if err != nil {
		t.Fatal(err)
	}
	for i := range dists {
		if dists[i] > 0.5 {
			t.Fatalf("%v is %v away", vIDs(docs), dists[i])
		}
	}
}
