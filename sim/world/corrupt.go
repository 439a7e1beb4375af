package world

import (
	"bytes"
	"image"

	"github.com/signintech/gopdf"

	"verifsim/pdfr"
	"verifsim/simrt"
)

// mutate damages a file the way disks, networks and attackers do.
func mutate(b []byte, font bool, seed uint64) ([]byte, string) {
	r := simrt.NewRand(seed)
	switch s := simrt.Mix(seed, 0xDA3A) % 5; {
	case s < 2 && font:
		return damageFont(b, r)
	case s < 2:
		return damagePNG(b, r)
	}
	c := append([]byte{}, b...)
	if len(c) == 0 {
		return c, "empty"
	}
	switch k := r.Intn(8); k {
	case 0:
		return c[:r.Intn(len(c))], "truncated"
	case 1: // torn write: the tail is zero
		for i := r.Intn(len(c)); i < len(c); i++ {
			c[i] = 0
		}
		return c, "zero tail"
	case 2: // lost block
		n := 1 + r.Intn(len(c))
		o := r.Intn(len(c))
		if o+n > len(c) {
			n = len(c) - o
		}
		return append(c[:o], c[o+n:]...), "lost block"
	case 3: // duplicated block
		n := 1 + r.Intn(len(c))
		o := r.Intn(len(c))
		if o+n > len(c) {
			n = len(c) - o
		}
		return append(append(append([]byte{}, c[:o+n]...), c[o:o+n]...), c[o+n:]...), "duplicated block"
	case 4: // bit flips
		for i := 0; i < 1+r.Intn(6); i++ {
			c[r.Intn(len(c))] ^= 1 << r.Intn(8)
		}
		return c, "bit flips"
	default: // a 1, 2 or 4 byte field takes an extreme value, mostly near the front
		for i := 0; i < 1+r.Intn(3); i++ {
			o := r.Intn(len(c))
			if r.P(0.6) {
				o = r.Intn(1 + min(len(c)-1, 400))
			}
			n := simrt.Pick(r, 1, 2, 4)
			v := simrt.Pick(r, uint32(0), 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 1, uint32(r.U64()))
			for j := 0; j < n && o+j < len(c); j++ {
				c[o+j] = byte(v >> (8 * uint(n-1-j)))
			}
		}
		return c, "field damage"
	}
}

// corrupt feeds a damaged file to a fresh document. I = [kind, index, seed, route].
func (r *DocRun) corrupt(op *Op, res *Res) {
	e := r.E
	var in []byte
	var how string
	font := op.I[0] == 0
	if font {
		in, how = mutate(e.FontB[op.I[1]], true, uint64(op.I[2]))
	} else {
		in, how = mutate(e.ImgB[op.I[1]], false, uint64(op.I[2]))
	}
	declared := 0
	if !font {
		if c, _, err := image.DecodeConfig(bytes.NewReader(in)); err == nil {
			if declared = c.Width * c.Height; declared > 1<<28 {
				r.Cnt["corrupt_giant_skipped"]++ // what the standard decoders need for it says nothing about gopdf
				return
			}
		}
	}
	r.Cnt["corrupt_"+how]++
	build := func(bad bool) (out []byte, failed bool) {
		d := &gopdf.GoPdf{}
		d.Start(gopdf.Config{PageSize: gopdf.Rect{W: 200, H: 300}})
		d.AddPage()
		d.Line(1, 2, 3, 4)
		if bad {
			var err error
			if font {
				o := gopdf.TtfOption{UseKerning: op.I[2]%2 == 0}
				switch op.I[3] {
				case 0:
					err = d.AddTTFFontDataWithOption("bad", in, o)
				case 1:
					err = d.AddTTFFontByReaderWithOption("bad", newReader(in, op.Src, r.Cnt), o)
				default:
					c := &gopdf.FontContainer{}
					if err = c.AddTTFFontDataWithOption("bad", in, o); err == nil {
						err = d.AddTTFFontFromFontContainer("bad", c)
					}
				}
				if err == nil {
					if err = d.SetFont("bad", "", 12); err == nil {
						if e1 := d.Text("A fi z0" + e.runes(op.I[1])); e1 != nil {
							r.Cnt["corrupt_text_error"]++
						}
						d.MeasureTextWidth("Kerning AV")
					}
					r.Cnt["corrupt_accepted"]++
					_, e2 := d.GetBytesPdfReturnErr()
					if e2 != nil {
						r.Cnt["corrupt_output_error"]++
					}
					return nil, false
				}
			} else {
				var h gopdf.ImageHolder
				switch op.I[3] {
				case 0:
					h, err = gopdf.ImageHolderByBytes(in)
				default:
					h, err = gopdf.ImageHolderByReader(newReader(in, op.Src, r.Cnt))
				}
				if err == nil {
					if op.I[3] == 2 {
						err = d.ImageByHolderWithOptions(h, gopdf.ImageOptions{X: 1, Y: 1, Mask: &gopdf.MaskOptions{Holder: h}})
					} else {
						err = d.ImageByHolder(h, 1, 1, nil)
					}
				}
				if err == nil {
					r.Cnt["corrupt_accepted"]++
					b, e2 := d.GetBytesPdfReturnErr()
					if e2 == nil {
						if p := pdfr.Parse(b); len(p.Errs) > 0 {
							r.viol("corrupt", "a damaged image (%s) was accepted and the document is malformed: %s", how, p.Errs[0])
						}
					}
					return nil, false
				}
			}
			failed = true
		}
		d.Line(5, 6, 7, 8)
		b, err := d.GetBytesPdfReturnErr()
		if err != nil {
			r.viol("corrupt", "the document cannot be written after a damaged file (%s) was refused: %v", how, err)
		}
		return b, failed
	}
	simrt.Meter()
	out, failed := build(true)
	if a := simrt.Metered(); a > 512<<20+32*uint64(declared) {
		r.viol("alloc", "a damaged file (%s, %d bytes) made gopdf allocate %d MiB", how, len(in), a>>20)
	}
	if failed {
		r.Cnt["corrupt_refused"]++
		if good, _ := build(false); !bytes.Equal(good, out) && op.I[3] != 2 {
			if op.I[0] == 0 || !semEqual(good, out) {
				r.viol("corrupt", "a refused damaged file (%s) changed the document", how)
			}
		}
	}
}

func semEqual(a, b []byte) bool {
	x, y := pdfr.Parse(a), pdfr.Parse(b)
	if len(x.Errs)+len(y.Errs) > 0 {
		return false
	}
	p, q := Extract(x), Extract(y)
	return len(p.Errs) == 0 && len(q.Errs) == 0 && diffSem(p, q) == ""
}
