package document

import (
	"testing"

	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
)

func TestSeedListed(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	if err := c.CreateCollection(&Collection{Name: "a", Indexes: map[string]collection.IndexType{"t": collection.StringIndex, "m": collection.MapIndex}}); err != nil {
		t.Fatal(err)
	}
	cs, err := c.GetCollections()
	if err != nil || len(cs) != 1 {
		t.Fatal(cs, err)
	}
	if cs[0].Indexes["m"] != collection.MapIndex || cs[0].Indexes["t"] != collection.StringIndex {
		t.Fatal("listed as", cs[0].Indexes)
	}
}
