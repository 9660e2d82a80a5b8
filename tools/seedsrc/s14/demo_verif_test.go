package hnsw

import "testing"

func TestSeedPool(t *testing.T) {
	p := newPqMinWithIndexPool(8)
	for i := 0; i < 100; i++ {
		q := p.GetMin(4)
		if q.Len() != 0 {
			t.Fatal("left over", q.Len())
		}
		q.Insert(uint64(i), uint64(i), 1)
		p.Put(q)
	}
}
