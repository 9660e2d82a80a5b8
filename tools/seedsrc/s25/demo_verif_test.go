package hnsw

import (
	"context"
	"testing"

	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
)

func TestSeedDup(t *testing.T) {
	vec := func(ctx context.Context, id uint64) ([]float32, error) { return []float32{1, float32(id)}, nil }
	h, err := New(Config{RootPath: "not-used", ID: "not-used", MakeCommitLoggerThunk: MakeNoopCommitLogger,
		DistanceProvider: distancer.NewL2SquaredProvider(), VectorForIDThunk: vec, ClassName: "a"},
		UserConfig{MaxConnections: 30, EFConstruction: 60, EF: 60}, nil)
	if err != nil {
		t.Fatal(err)
	}
	all := []uint64{10, 40001, 40002, 40003}
	for _, id := range all {
		n := &vertex{Id: id, Connections: [][]uint64{{}}, Vector: []float32{1, float32(id)}}
		for _, other := range all {
			if other != id {
				n.Connections[0] = append(n.Connections[0], other)
			}
		}
		h.indexCache.Add(id, n)
	}
	h.entryPointID = 10
	ids, _, err := h.knnSearchByVector([]float32{1, 30000}, 10, 60, nil)
	if err != nil {
		t.Fatal(err)
	}
	t.Log(ids)
	seen := map[uint64]bool{}
	for _, id := range ids {
		if seen[id] {
			t.Fatal("twice", ids)
		}
		seen[id] = true
	}
}
