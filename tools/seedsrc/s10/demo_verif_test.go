package hnsw

import (
	"context"
	"testing"

	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
)

func TestSeedDeleted(t *testing.T) {
	vec := func(ctx context.Context, id uint64) ([]float32, error) { return []float32{1, float32(id)}, nil }
	h, err := New(Config{RootPath: "not-used", ID: "not-used", MakeCommitLoggerThunk: MakeNoopCommitLogger,
		DistanceProvider: distancer.NewL2SquaredProvider(), VectorForIDThunk: vec, ClassName: "a"},
		UserConfig{MaxConnections: 30, EFConstruction: 60}, nil)
	if err != nil {
		t.Fatal(err)
	}
	for id := uint64(0); id < 4; id++ {
		h.indexCache.Add(id, &vertex{Id: id, Connections: [][]uint64{{}}, Vector: []float32{1, float32(id)}})
	}
	h.tombstones[2] = struct{}{}
	ids, _, err := h.flatSearch([]float32{1, 2}, 3, helpers.NewAllowList(0, 1, 2, 3))
	if err != nil {
		t.Fatal(err)
	}
	if len(ids) != 3 {
		t.Fatal(ids)
	}
	for _, id := range ids {
		if id == 2 {
			t.Fatal("deleted, but found", ids)
		}
	}
}
