package hnsw

import (
	"context"
	"io"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
)

func TestSeedCacheLock(t *testing.T) {
	l := logrus.New()
	l.Out = io.Discard
	c := newShardedLockCache(func(ctx context.Context, id uint64) ([]float32, error) { return []float32{1, 2}, nil }, 100, l, false, time.Hour)
	for i := 0; i < 2; i++ {
		if _, err := c.get(context.Background(), 1); err != nil {
			t.Fatal(err)
		}
	}
	done := make(chan bool)
	go func() {
		c.delete(context.Background(), 1)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("stuck")
	}
}
