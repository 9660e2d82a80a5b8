package document

import "testing"

func TestSeedNoVectorizer(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	vCreate(t, c, "a")
	if err := c.AddDocuments("a", nil, vDoc("one", 1, 0, 0)); err != nil {
		t.Fatal(err)
	}
	vTry(t, "search", func() {
		if _, _, err := c.GetNearDocuments("a", "hello", 1, 1); err == nil {
			t.Error("found without a vectorizer")
		}
	})
}
