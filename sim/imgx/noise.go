package imgx

import (
	"image"
	"image/color"
	"image/draw"

	"verifsim/simrt"
)

// NoiseKinds is the number of kinds of NoiseOf.
const NoiseKinds = 13

// tile is an image type of a program: it computes its pixels, slowly.
type tile struct {
	m    image.Image
	slow func()
	n    int
}

func (t *tile) ColorModel() color.Model { return t.m.ColorModel() }
func (t *tile) Bounds() image.Rectangle { return t.m.Bounds() }
func (t *tile) At(x, y int) color.Color {
	if t.n++; t.n%7 == 0 && t.slow != nil {
		t.slow()
	}
	return t.m.At(x, y)
}

// NoiseOf makes an in-memory image of a kind; slow is called now and then
// while a program-defined image is read.
func NoiseOf(r *simrt.Rand, w, h, kind int, slow func()) image.Image {
	src := Noise(r, w, h)
	b := src.Bounds()
	put := func(d draw.Image) image.Image {
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				d.Set(x, y, src.At(x, y))
			}
		}
		return d
	}
	switch kind {
	case 1: // with alpha
		for i := 3; i < len(src.Pix); i += 4 {
			src.Pix[i] = simrt.Pick(r, byte(0), 255, 128, byte(r.U64()))
		}
		return src
	case 2:
		return put(image.NewRGBA(b))
	case 3:
		return put(image.NewGray(b))
	case 4:
		return put(image.NewGray16(b))
	case 5:
		return put(image.NewNRGBA64(b))
	case 6, 7:
		n := simrt.Pick(r, 2, 4, 16, 256, 1+r.Intn(200))
		p := make(color.Palette, n)
		for i := range p {
			a := byte(255)
			if kind == 7 {
				a = simrt.Pick(r, byte(255), 255, 0, 100)
			}
			p[i] = color.NRGBA{byte(r.U64()), byte(r.U64()), byte(r.U64()), a}
		}
		m := image.NewPaletted(b, p)
		for i := range m.Pix {
			m.Pix[i] = byte(r.Intn(n))
		}
		return m
	case 8:
		m := image.NewYCbCr(b, simrt.Pick(r, image.YCbCrSubsampleRatio444, image.YCbCrSubsampleRatio420, image.YCbCrSubsampleRatio422))
		for _, p := range [][]byte{m.Y, m.Cb, m.Cr} {
			for i := range p {
				p[i] = byte(r.U64())
			}
		}
		return m
	case 9:
		return put(image.NewCMYK(b))
	case 10: // a part of a larger image
		return Noise(r, w+9, h+7).SubImage(image.Rect(5, 3, 5+w, 3+h))
	case 11:
		return &tile{m: src, slow: slow}
	case 12:
		return &tile{m: put(image.NewRGBA64(b)), slow: slow}
	}
	return src
}

// Spoil overwrites the pixels of an image of NoiseOf.
func Spoil(m image.Image) {
	fill := func(p []byte) {
		for i := range p {
			p[i] = 0x3C
		}
	}
	switch x := m.(type) {
	case *image.NRGBA:
		fill(x.Pix)
	case *image.RGBA:
		fill(x.Pix)
	case *image.RGBA64:
		fill(x.Pix)
	case *image.Gray:
		fill(x.Pix)
	case *image.Gray16:
		fill(x.Pix)
	case *image.NRGBA64:
		fill(x.Pix)
	case *image.CMYK:
		fill(x.Pix)
	case *image.Paletted:
		for i := range x.Pix {
			x.Pix[i] = 0
		}
	case *image.YCbCr:
		fill(x.Y)
		fill(x.Cb)
		fill(x.Cr)
	case *tile:
		Spoil(x.m)
	}
}

// Raw is everything an image of NoiseOf holds.
func Raw(m image.Image) []byte {
	switch x := m.(type) {
	case *image.NRGBA:
		return x.Pix
	case *image.RGBA:
		return x.Pix
	case *image.RGBA64:
		return x.Pix
	case *image.Gray:
		return x.Pix
	case *image.Gray16:
		return x.Pix
	case *image.NRGBA64:
		return x.Pix
	case *image.CMYK:
		return x.Pix
	case *image.Paletted:
		return x.Pix
	case *image.YCbCr:
		return append(append(append([]byte{}, x.Y...), x.Cb...), x.Cr...)
	case *tile:
		return Raw(x.m)
	}
	return nil
}
