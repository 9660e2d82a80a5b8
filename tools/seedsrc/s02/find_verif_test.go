package document

import "testing"

func TestSeedFailedEntrypoint(t *testing.T) {
	c := vNewEnv(t).client(t, "")
	vCreate(t, c, "a")
	if err := c.AddDocuments("a", nil, vDoc("one", 1, 0, 0), vDoc("two", 0, 1, 0)); err != nil {
		t.Fatal(err)
	}
	if _, _, err := c.GetNearDocumentsByVector("a", []float32{1, 0, 0}, 3, 10); err != nil {
		t.Fatal(err)
	}
	kv := c.podInfo.GetKVStore()
	n := 0
	for _, key := range []string{"entrypoint", "ep", "entryPoint", "entrypointKey"} {
		if _, _, err := kv.KVGet("fave_a", key); err == nil {
			n++
			if err := kv.KVPut("fave_a", key, []byte("{broken")); err != nil {
				t.Fatal(err)
			}
		}
	}
	if n == 0 {
		t.Skip("stored in another way")
	}
	if _, _, err := c.GetNearDocumentsByVector("a", []float32{1, 0, 0}, 3, 10); err == nil {
		t.Fatal("the search succeeds although the stored entry point cannot be read")
	}
}
