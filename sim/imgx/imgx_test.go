package imgx

import (
	"testing"
	"verifsim/simrt"
)

func TestBuild(t *testing.T) {
	for i := 0; i < 2000; i++ {
		s := DrawSpec(simrt.NewRand(uint64(i)))
		if _, err := ExpectOf(Build(s)); err != nil {
			t.Fatal(i, s, err)
		}
	}
}
