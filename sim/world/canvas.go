package world

import (
	"fmt"
	"math"
	"strings"

	"verifsim/pdfr"
)

// mgs is the graphics state the reference model expects a viewer to have.
type mgs struct {
	ctm          pdfr.Mat
	fill, stroke pdfr.Color
	lw           float64
	dash         []float64 // elements then phase; empty: solid
	ca, CA       float64
	bm           string
	mask         *pdfr.MaskSem
	clip         []float64
	nclip        int
}

type mseg struct {
	op byte
	p  []float64
}

// canvas turns the model's drawing calls into the events a viewer shows.
type canvas struct {
	g     mgs
	stack []mgs
	evs   []item
	path  []mseg
	over  int // restores without a save
}

// item is one visible effect; text is one item per glyph.
type item struct {
	E pdfr.Ev
	G *gl
}

// gl is one shown glyph.
type gl struct {
	font   *mfont  // expected side only
	drift  float64 // expected side only: rounding that adds up within a run
	r      rune
	gid    int
	outl   uint64
	w      int
	x, y   float64
	vx, vy float64 // size vector
	tc     float64
}

func newCanvas() *canvas {
	return &canvas{g: mgs{ctm: pdfr.Mat{1, 0, 0, 1, 0, 0}, fill: pdfr.Color{Space: "G", V: []float64{0}}, stroke: pdfr.Color{Space: "G", V: []float64{0}}, lw: 1, ca: 1, CA: 1, bm: "Normal"}}
}

func (c *canvas) q() { c.stack = append(c.stack, c.g) }
func (c *canvas) Q() {
	if len(c.stack) == 0 {
		c.over++
		return
	}
	c.g = c.stack[len(c.stack)-1]
	c.stack = c.stack[:len(c.stack)-1]
}
func (c *canvas) cm(m pdfr.Mat) { c.g.ctm = m.Mul(c.g.ctm) }
func (c *canvas) m(x, y float64) {
	a, b := c.g.ctm.Apply(x, y)
	c.path = append(c.path, mseg{'m', []float64{a, b}})
}
func (c *canvas) l(x, y float64) {
	a, b := c.g.ctm.Apply(x, y)
	c.path = append(c.path, mseg{'l', []float64{a, b}})
}
func (c *canvas) c(p ...float64) {
	var o []float64
	for i := 0; i < 6; i += 2 {
		a, b := c.g.ctm.Apply(p[i], p[i+1])
		o = append(o, a, b)
	}
	c.path = append(c.path, mseg{'c', o})
}
func (c *canvas) h() { c.path = append(c.path, mseg{'h', nil}) }
func (c *canvas) re(x, y, w, h float64) {
	var o []float64
	for _, p := range [][2]float64{{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}} {
		a, b := c.g.ctm.Apply(p[0], p[1])
		o = append(o, a, b)
	}
	c.path = append(c.path, mseg{'r', o})
}

// clipPath intersects the clip with the current path and drops the path.
func (c *canvas) clipPath() {
	nc := append([]float64{}, c.g.clip...)
	for _, s := range c.path {
		nc = append(nc, s.p...)
	}
	c.g.clip = nc
	c.g.nclip++
	c.path = nil
}

func (c *canvas) paint(stroke, fill bool) {
	e := pdfr.Ev{Kind: "path", Clip: c.g.clip}
	var kb strings.Builder
	if stroke {
		n := 0
		if len(c.g.dash) > 0 {
			n = len(c.g.dash) - 1
		}
		fmt.Fprintf(&kb, "stroke:%s dash=%d ", c.g.stroke.Space, n)
		e.Col = append(e.Col, c.g.CA)
		e.Col = append(e.Col, c.g.stroke.V...)
		if n > 0 {
			e.Col = append(e.Col, c.g.dash...)
		}
		e.Col = append(e.Col, c.g.lw)
	}
	if fill {
		kb.WriteString("fill:" + c.g.fill.Space + " ")
		e.Col = append(e.Col, c.g.ca)
		e.Col = append(e.Col, c.g.fill.V...)
	}
	for _, s := range c.path {
		kb.WriteByte(s.op)
		e.N = append(e.N, s.p...)
	}
	fmt.Fprintf(&kb, " clips=%d", c.g.nclip)
	e.Key = kb.String()
	e.GS, e.Mask = c.g.bm, c.g.mask
	c.path = nil
	if len(e.N) > 0 {
		c.evs = append(c.evs, item{E: e})
	}
}

// style paints the way the D/F/DF styles of the API say.
func (c *canvas) style(s string, close bool) {
	switch s {
	case "F":
		c.paint(false, true)
	case "FD", "DF":
		if close {
			c.h()
		}
		c.paint(true, true)
	default:
		if close {
			c.h()
		}
		c.paint(true, false)
	}
}

func (c *canvas) gs(t *Tr) {
	c.g.ca, c.g.CA = t.A, t.A
	c.g.bm = strings.TrimPrefix(t.BM, "/")
	if c.g.bm == "" {
		c.g.bm = "Normal"
	}
}

// obj shows an XObject in the unit square of m.
func (c *canvas) obj(kind, key string, m pdfr.Mat) {
	n := m.Mul(c.g.ctm)
	c.evs = append(c.evs, item{E: pdfr.Ev{Kind: kind, Key: fmt.Sprintf("%s clips=%d", key, c.g.nclip), N: append([]float64{}, n[:]...), Clip: c.g.clip, Col: []float64{c.g.ca}, GS: c.g.bm, Mask: c.g.mask}})
}

// rotation about (x,y) in PDF coordinates.
func rot(deg, x, y float64) pdfr.Mat {
	a := deg * math.Pi / 180
	s, k := math.Sin(a), math.Cos(a)
	return pdfr.Mat{1, 0, 0, 1, -x, -y}.Mul(pdfr.Mat{k, s, -s, k, x, y})
}
