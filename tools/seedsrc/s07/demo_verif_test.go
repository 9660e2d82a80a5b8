package hnsw

import (
	"sync"
	"testing"
)

func TestSeedTombstones(t *testing.T) {
	h := &hnsw{tombstones: map[uint64]struct{}{}, tombstoneLock: &sync.RWMutex{}, commitLog: &NoopCommitLogger{}, metrics: NewMetrics(nil, "", "")}
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(2)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				_ = h.addTombstone(uint64(w*10000 + i))
			}
		}(w)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				h.hasTombstone(uint64(i))
			}
		}()
	}
	wg.Wait()
}
