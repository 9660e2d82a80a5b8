package distancer

import "testing"

func TestSeedLengths(t *testing.T) {
	if _, _, err := NewCosineDistanceProvider().New([]float32{1, 0}).Distance([]float32{1, 0, 5}); err == nil {
		t.Fatal("vectors of different lengths are compared")
	}
	if _, _, err := NewCosineDistanceProvider().New([]float32{1, 0}).Distance([]float32{1}); err == nil {
		t.Fatal("vectors of different lengths are compared")
	}
}
