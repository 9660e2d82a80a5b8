package document

import "testing"

func TestSeedNoPod(t *testing.T) {
	e := vNewEnv(t)
	c, err := New(Config{}, e.api)
	if err != nil {
		t.Fatal(err)
	}
	if err := c.Login(e.user, "verifpasswordverif"); err != nil {
		t.Fatal(err)
	}
	vTry(t, "delete", func() {
		if err := c.DeleteCollection("a"); err == nil {
			t.Error("deleted without a pod")
		}
	})
}
