package visited

import "testing"

func TestSeedWrap(t *testing.T) {
	l := NewList(5000)
	l.Visit(4000)
	for i := 0; i < 600; i++ {
		l.Reset()
		if l.Visited(4000) || l.Visited(10) {
			t.Fatal("a mark of an earlier search is left after reset", i)
		}
	}
}
