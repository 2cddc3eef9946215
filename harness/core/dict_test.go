package core

import "testing"

func TestDict(t *testing.T) {
	dict.once.Do(mine)
	t.Log(len(dict.ints), dict.ints, len(dict.strs), dict.strs)
	if len(dict.ints) < 50 || len(dict.strs) < 50 {
		t.Fatal("no dictionary")
	}
}
