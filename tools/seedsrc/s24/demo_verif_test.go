package visited

import "testing"

func TestSeedGrow(t *testing.T) {
	l := NewList(3000)
	n := uint64(l.Len() - 1)
	for id := uint64(0); id <= n; id++ {
		l.Visit(id)
	}
	l.Visit(n + 700)
	for id := uint64(0); id <= n; id++ {
		if !l.Visited(id) {
			t.Fatal("lost the mark of", id)
		}
	}
}
