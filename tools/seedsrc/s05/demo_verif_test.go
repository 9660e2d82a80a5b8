package document

import "testing"

func TestSeedLookupsEnd(t *testing.T) {
	c := vNewEnv(t).client(t, vVectorizer(t, 200, `{"vector":[1,0,0]}`))
	vCreate(t, c, "a")
	if err := c.AddDocuments("a", nil, vDoc("one", 1, 0, 0), vDoc("two", 1, 0.1, 0), vDoc("three", 1, 0, 0.1)); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 20; i++ {
		docs, _, err := c.GetNearDocuments("a", "x", 1, 10)
		if err != nil {
			t.Fatal(err)
		}
		if len(docs) != 3 {
			t.Fatal("not all found", len(docs))
		}
		for _, d := range docs {
			if d == nil {
				t.Fatal("a document is missing in the answer")
			}
		}
	}
}
