package hnsw

import (
	"context"
	"io"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
)

func TestSeedNormalized(t *testing.T) {
	l := logrus.New()
	l.Out = io.Discard
	c := newShardedLockCache(func(ctx context.Context, id uint64) ([]float32, error) { return []float32{3, 4}, nil }, 2, l, true, time.Hour)
	for id := uint64(0); id < 5; id++ {
		v, err := c.get(context.Background(), id)
		if err != nil {
			t.Fatal(err)
		}
		if v[0] > 0.61 || v[0] < 0.59 {
			t.Fatalf("vector %d is not normalized: %v", id, v)
		}
	}
}
