package document

import "testing"

func TestSeedDeleteOne(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	vCreate(t, c, "Things")
	vCreate(t, c, "things")
	if err := c.DeleteCollection("Things"); err != nil {
		t.Fatal(err)
	}
	cs, err := c.GetCollections()
	if err != nil {
		t.Fatal(err)
	}
	if len(cs) != 1 || cs[0].Name != "things" {
		t.Fatal("left:", cs[0].Name)
	}
}
