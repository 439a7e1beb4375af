package ttfx

import (
	"os"
	"testing"
	"verifsim/simrt"
)

func TestGen(t *testing.T) {
	for i := 0; i < 500; i++ {
		r := simrt.NewRand(uint64(i))
		s := DrawSpec(r)
		b := Build(s)
		f, err := Read(b)
		if err != nil {
			t.Fatal(i, s, err)
		}
		if len(f.Map) < 3 {
			t.Fatal(s, len(f.Map))
		}
		for g := 0; g < f.NumGlyphs; g++ {
			if _, err := f.Outline(g); err != nil {
				t.Fatal(i, s, err)
			}
		}
	}
	b, _ := os.ReadFile("/repo/test/res/LiberationSerif-Regular.ttf")
	f, err := Read(b)
	if err != nil {
		t.Fatal(err)
	}
	t.Log(len(f.Map), f.NumGlyphs, len(f.Kern), f.UPM)
	for g := 0; g < f.NumGlyphs; g++ {
		if _, err := f.Outline(g); err != nil {
			t.Fatal(err)
		}
	}
}
