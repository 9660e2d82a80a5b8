package hnsw

import (
	"context"
	"testing"

	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
)

func TestSeedSettings(t *testing.T) {
	vec := func(ctx context.Context, id uint64) ([]float32, error) { return []float32{1, float32(id)}, nil }
	h, err := New(Config{RootPath: "not-used", ID: "not-used", MakeCommitLoggerThunk: MakeNoopCommitLogger,
		DistanceProvider: distancer.NewL2SquaredProvider(), VectorForIDThunk: vec, ClassName: "a"},
		UserConfig{MaxConnections: 30, EFConstruction: 60, EF: -1, DynamicEFMin: 100, DynamicEFMax: 500, DynamicEFFactor: 8}, nil)
	if err != nil {
		t.Fatal(err)
	}
	if ef := h.searchTimeEF(1); ef != 100 {
		t.Fatalf("ef of a search for one result is %d", ef)
	}
}
