package hnsw

import (
	"context"
	"testing"

	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
)

// TestKnownEvictedUnwritten fails: the cache of nodes drops a node that was never
// written (known finding of C14)
func TestKnownEvictedUnwritten(t *testing.T) {
	h, err := New(Config{
		RootPath: "not-used", ID: "not-used", ClassName: "c",
		MakeCommitLoggerThunk: MakeNoopCommitLogger,
		DistanceProvider:      distancer.NewL2SquaredProvider(),
		VectorForIDThunk: func(ctx context.Context, id uint64) ([]float32, error) {
			return []float32{float32(id), 0}, nil
		},
	}, UserConfig{MaxConnections: 30, EFConstruction: 60}, nil)
	if err != nil {
		t.Fatal(err)
	}
	// the cache as insert() fills it, without the links
	for id := uint64(0); id <= 10000; id++ {
		h.indexCache.Add(id, &vertex{Id: id, Vector: []float32{float32(id), 0}})
	}
	if !h.indexCache.Contains(uint64(0)) {
		t.Fatal("node 0 was never written and is gone: a flush will not write it")
	}
}

// the entry point lies beyond the list of visited nodes
func TestFixedEntryPointTwice(t *testing.T) {
	vec := func(ctx context.Context, id uint64) ([]float32, error) { return []float32{1, float32(id)}, nil }
	h, err := New(Config{RootPath: "not-used", ID: "not-used", MakeCommitLoggerThunk: MakeNoopCommitLogger,
		DistanceProvider: distancer.NewL2SquaredProvider(), VectorForIDThunk: vec, ClassName: "a"},
		UserConfig{MaxConnections: 30, EFConstruction: 60, EF: 60}, nil)
	if err != nil {
		t.Fatal(err)
	}
	for id := uint64(30000); id < 30004; id++ {
		h.indexCache.Add(id, &vertex{Id: id, Connections: [][]uint64{{}}, Vector: []float32{1, float32(id)}})
	}
	h.entryPointID = 30000
	link := func(a, b uint64) {
		v, _ := h.indexCache.Get(a)
		n := v.(*vertex)
		n.Connections[0] = append(n.Connections[0], b)
	}
	for id := uint64(30001); id < 30004; id++ {
		link(30000, id)
		link(id, 30000)
	}
	ids, _, err := h.knnSearchByVector([]float32{1, 30000}, 10, 60, nil)
	if err != nil {
		t.Fatal(err)
	}
	t.Log(ids)
	seen := map[uint64]bool{}
	for _, id := range ids {
		if seen[id] {
			t.Fatal("twice", ids)
		}
		seen[id] = true
	}
}
