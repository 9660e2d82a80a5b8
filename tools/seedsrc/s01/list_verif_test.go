package document

import "testing"

func TestSeedList(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	vCreate(t, c, "events")
	vCreate(t, c, "books")
	cols, err := c.GetCollections()
	if err != nil {
		t.Fatal(err)
	}
	got := map[string]bool{}
	for _, x := range cols {
		got[x.Name] = true
	}
	if len(cols) != 2 || !got["events"] || !got["books"] {
		t.Fatal(got)
	}
}
