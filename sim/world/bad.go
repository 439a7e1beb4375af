package world

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"

	"github.com/signintech/gopdf"

	"verifsim/simrt"
)

// badKinds are the calls that gopdf must refuse.
var badKinds = []string{
	"setfont", "style", "setcs", "addcs", "fill", "setpage", "kernover", "contfont", "rect", "radius",
	"fontdata", "fontreader", "fontpath", "image", "imagemask", "maskimage", "imagepath", "blend", "split0", "splitopt0", "nilimage", "source",
}

// bad draws a call that gopdf must refuse.
func (g *gdoc) bad() {
	r := g.r
	k := badKinds[r.Intn(len(badKinds))]
	o := Op{K: "bad", S: []string{k}, F: []float64{g.x(), g.y()}, I: []int{r.Intn(1 << 20)}}
	fam := "nosuch" + g.raw()
	if len(g.fams) > 0 && r.P(0.5) {
		fam = g.fams[r.Intn(len(g.fams))].name
	}
	switch k {
	case "setfont", "kernover", "contfont":
		fam = "nosuch" + simrt.Pick(r, "", "1", " ", "é")
	case "style":
		var free []int
		for st := 0; st < 4; st++ {
			used := false
			for _, f := range g.fams {
				used = used || f.name == fam && f.style == st
			}
			if !used {
				free = append(free, st)
			}
		}
		if free == nil {
			return
		}
		o.S = append(o.S, styleStr(r, free[r.Intn(len(free))], r.P(0.3)))
	case "addcs":
		if len(g.spaces) == 0 {
			return
		}
		fam = g.spaces[r.Intn(len(g.spaces))]
	}
	if k == "contfont" && g.w.Conts == 0 || k == "maskimage" && len(g.w.Images) == 0 {
		return
	}
	o.S = append([]string{k, fam}, o.S[1:]...)
	g.op(o)
}

// junk is what is not a font and not an image.
func junk(n int) []byte {
	b := []byte{}
	switch n % 7 {
	case 0:
	case 1:
		b = []byte("this is neither a font nor an image, whatever its name says")
	case 2:
		b = []byte("\x89PNG\r\n\x1a\n")
	case 3:
		b = []byte("\xff\xd8\xff\xe0\x00\x10JFIF\x00\x01")
	case 4:
		b = []byte("OTTO\x00\x09\x00\x80\x00\x03\x00\x10CFF \x00\x00\x00\x00\x00\x00\x00\xff\x00\x00\x00\x10")
	case 5:
		b = []byte("\x00\x01\x00\x00\x00\x02")
	default:
		b = bytes.Repeat([]byte{byte(n >> 8), byte(n >> 5)}, 300)
	}
	return b
}

// badSource draws a source of imports that gopdf must refuse.
func (g *gdoc) badSource() {
	r := g.r
	n := len(g.w.PDFs)
	ks := []string{"path", "dir"} // gofpdi never ends reading what is not a PDF
	if n > 0 {
		ks = append(ks, "nobox", "failing", "closed")
	}
	o := Op{K: "badsrc", S: []string{simrt.Pick(r, ks...)}, I: []int{r.Intn(1 << 20), 0}}
	if n > 0 {
		o.I[1] = r.Intn(n)
	}
	g.op(o)
}

// failSource fails for good after n bytes.
type failSource struct {
	io.ReadSeeker
	n int
}

var errSource = errors.New("the source is gone")

func (f *failSource) Read(b []byte) (int, error) {
	if f.n == 0 {
		return 0, errSource
	}
	if len(b) > f.n {
		b = b[:f.n]
	}
	n, err := f.ReadSeeker.Read(b)
	f.n -= n
	return n, err
}

// badSource imports from a source that gopdf must refuse.
func (r *DocRun) badSource(op *Op) error {
	g, n := r.G, op.I[0]
	var b []byte
	box := "/MediaBox"
	if i := op.I[1]; i < len(r.E.PDFs) {
		b, box = r.E.PDFs[i].B, r.E.PDFs[i].Box
	}
	switch op.S[0] {
	case "path":
		return g.ImportPagesFromSource(filepath.Join(r.E.Dir, "in", "no such source"), box)
	case "dir":
		return g.ImportPagesFromSource(filepath.Join(r.E.Dir, "in"), box)
	case "nobox":
		return g.ImportPagesFromSource(b, "/NoSuchBox")
	case "failing":
		return g.ImportPagesFromSource(&failSource{bytes.NewReader(b), n % 200}, box)
	case "closed":
		f, err := os.Open(filepath.Join(r.E.Dir, "in", fmt.Sprintf("pdf%d", op.I[1])))
		if err != nil {
			return nil
		}
		f.Close()
		return g.ImportPagesFromSource(f, box)
	}
	panic("simulator: no bad source " + op.S[0])
}

// bad makes a call that gopdf must refuse.
func (r *DocRun) bad(op *Op, res *Res) {
	g := r.G
	k, fam, n := op.S[0], op.S[1], op.I[0]
	fail := func(err error) { res.Err = errs(err) }
	holder := func(b []byte) gopdf.ImageHolder {
		h, err := gopdf.ImageHolderByReader(bytes.NewReader(b))
		if err != nil {
			fail(err)
		}
		return h
	}
	x, y := op.F[0], op.F[1]
	switch k {
	case "setfont":
		fail(g.SetFont(fam, "", 33))
	case "style":
		fail(g.SetFont(fam, op.S[2], 33))
	case "setcs":
		fail(g.SetColorSpace("no such space"))
	case "addcs":
		if n%2 == 0 {
			fail(g.AddColorSpaceRGB(fam, 9, 8, 7))
		} else {
			fail(g.AddColorSpaceCMYK(fam, 9, 8, 7, 6))
		}
	case "fill":
		fail(g.FillInPlaceHoldText("no such place", "text", gopdf.Left))
	case "setpage":
		fail(g.SetPage([]int{0, -1, g.GetNumberOfPages() + 1, 1 << 30}[n%4]))
	case "kernover":
		fail(g.KernOverride(fam, func(_ rune, _ rune, _ uint, _ uint, _ int16) int16 { return 700 }))
	case "contfont":
		fail(g.AddTTFFontFromFontContainer(fam, r.cont[n%len(r.cont)]))
	case "rect":
		fail(g.Rectangle(x, y, []float64{x, x - 3, x + 5}[n%3], []float64{y + 5, y + 5, y}[n%3], "D", 0, 0))
	case "radius":
		fail(g.Rectangle(x, y, x+5, y+3, "DF", []float64{3.5, 5.5}[n%2], 8))
	case "fontdata":
		if n%3 == 0 {
			fail(g.AddTTFFontData(fam, junk(n/3)))
		} else {
			fail(g.AddTTFFontDataWithOption(fam, junk(n/3), gopdf.TtfOption{UseKerning: true, Style: n / 7 % 4}))
		}
	case "fontreader":
		if n%3 == 0 {
			fail(g.AddTTFFontByReader(fam, bytes.NewReader(junk(n/3))))
		} else {
			fail(g.AddTTFFontByReaderWithOption(fam, bytes.NewReader(junk(n/3)), gopdf.TtfOption{Style: n / 7 % 4}))
		}
	case "fontpath":
		fail(g.AddTTFFont(fam, filepath.Join(r.E.Dir, "in", "no such font")))
	case "image":
		h := holder(junk(n))
		if h == nil {
			break
		}
		if n/7%2 == 0 {
			fail(g.ImageByHolder(h, x, y, &gopdf.Rect{W: 10, H: 10}))
		} else {
			fail(g.ImageByHolderWithOptions(h, gopdf.ImageOptions{X: x, Y: y, DegreeAngle: 30, Transparency: &gopdf.Transparency{Alpha: 0.4, BlendModeType: gopdf.Darken}}))
		}
	case "imagemask", "maskimage":
		h, m := holder(junk(n)), holder(junk(n+1))
		if k == "maskimage" { // the image is one, its mask is not
			h = holder(r.E.ImgB[n%len(r.E.ImgB)])
		}
		if h == nil || m == nil {
			break
		}
		fail(g.ImageByHolderWithOptions(h, gopdf.ImageOptions{X: x, Y: y, Rect: &gopdf.Rect{W: 10, H: 20}, Mask: &gopdf.MaskOptions{Holder: m, ImageOptions: gopdf.ImageOptions{X: x, Y: y}}}))
	case "imagepath":
		fail(g.Image(filepath.Join(r.E.Dir, "in", "no such image"), x, y, nil))
	case "blend":
		a := []float64{0.5, -0.01, 1.01, 2}[n%4]
		_, err := gopdf.NewTransparency(a, []string{"/NoSuchMode", "", "/Normal"}[n%4*2/3])
		fail(err)
	case "split0":
		_, err := g.SplitText("", 50)
		fail(err)
	case "splitopt0":
		_, err := g.SplitTextWithOption("", 50, wordBreaks)
		fail(err)
	case "nilimage":
		if n%2 == 0 {
			fail(g.ImageFrom(nil, x, y, nil))
		} else {
			fail(g.ImageFromWithOption(nil, gopdf.ImageFromOption{Format: "png", X: x, Y: y}))
		}
	case "source":
		fail(g.ImportPagesFromSource([]interface{}{7, nil, struct{}{}, bytes.Buffer{}}[n%4], "/MediaBox"))
	default:
		panic("simulator: no refused call " + k)
	}
	return
}
