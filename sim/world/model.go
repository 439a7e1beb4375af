package world

import (
	"fmt"
	"image"
	"math"
	"strings"
	"time"

	"verifsim/imgx"
	"verifsim/pdfr"
	"verifsim/ttfx"
)

// mfont is a font of the model document.
type mfont struct {
	fam   string
	style int
	kern  bool
	sub   rune // replacement of missing characters; -1: the missing glyph
	over  int  // kern override delta
	hasOv bool
	f     *ttfx.Font
}

// glyph resolves one character the way the font promises.
func (m *mfont) glyph(r rune) (rune, int) {
	if g, ok := m.f.Map[r]; ok {
		return r, g
	}
	if m.sub < 0 {
		return r, 0
	}
	return m.sub, m.f.Map[m.sub]
}

// means tells whether a viewer's character r is a right reading of want.
func (m *mfont) means(r, want rune, gid int) bool {
	if r == want {
		return true
	}
	g, ok := m.f.Map[r]
	if ok {
		return g == gid
	}
	return gid == 0
}

// unit converts a font unit value to 1/1000 em, truncating.
func unit(n, upm int) int { return n * 1000 / upm }

type cellOpt struct {
	align, border, float int
	t                    *Tr
	cp, cl, ct           float64
}

// mtext is a run of text placed by one or more calls.
type mtext struct {
	font  *mfont
	size  float64
	style int
	sp    float64
	mode  string
	col   *pdfr.Color
	gray  float64
	x, y  float64
	ph    float64
	cell  bool
	rect  []float64
	opt   cellOpt
	lw    float64
	text  []rune
	setX  int
	hole  bool // placeholder
	shift float64
	cellW float64
	cellH float64
	textW float64
}

func (t *mtext) mergeable(o *mtext) bool {
	if t.rect != nil || t.opt.border != 0 || t.cell != o.cell || t.font != o.font || t.size != o.size || t.style != o.style || t.sp != o.sp ||
		t.mode != o.mode || t.gray != o.gray || t.y != o.y || t.setX != o.setX || t.hole != o.hole || o.rect != nil {
		return false
	}
	if (t.col == nil) != (o.col == nil) || t.col != nil && fmt.Sprint(*t.col) != fmt.Sprint(*o.col) {
		return false
	}
	if fmt.Sprint(t.opt.align, t.opt.border, t.opt.float, t.opt.cp, t.opt.cl, t.opt.ct) != fmt.Sprint(o.opt.align, o.opt.border, o.opt.float, o.opt.cp, o.opt.cl, o.opt.ct) ||
		(t.opt.t == nil) != (o.opt.t == nil) || t.opt.t != nil && *t.opt.t != *o.opt.t {
		return false
	}
	return t.x+t.cellW == o.x
}

// kernAt is the kerning before text[i], in 1/1000 em.
func (t *mtext) kernAt(i int) int {
	if i == 0 || !t.font.kern {
		return 0
	}
	f := t.font.f
	_, a := t.font.glyph(t.text[i-1])
	_, b := t.font.glyph(t.text[i])
	v := f.Kern[[2]int{a, b}]
	if t.font.hasOv {
		v += t.font.over
	}
	return unit(v, f.UPM)
}

func (m *mfont) width(g int) int { return m.f.Width(g) }

func typo(v, upm int, size float64) float64 { return float64(v) * 1000 / float64(upm) * size / 1000 }

// measure recomputes the extents of the run.
func (t *mtext) measure() {
	sum := 0
	f := t.font.f
	for i, r := range t.text {
		_, g := t.font.glyph(r)
		sum += t.font.width(g) + t.kernAt(i) + unit(int(float64(f.UPM)/t.size*t.sp), f.UPM)
	}
	t.textW = float64(sum) * (t.size / 1000)
	t.cellW = t.textW
	t.cellH = typo(f.TypoAsc, f.UPM, t.size) - typo(f.TypoDesc, f.UPM, t.size)
	if t.rect != nil {
		t.cellW, t.cellH = t.rect[0], t.rect[1]
	}
}

func (t *mtext) draw(c *canvas) {
	f := t.font.f
	asc, desc := typo(f.TypoAsc, f.UPM, t.size), typo(f.TypoDesc, f.UPM, t.size)
	x, y := t.x+t.shift, t.ph-t.y
	if t.cell {
		switch {
		case t.opt.align&2 != 0:
			x = t.x + t.cellW - t.textW
		case t.opt.align&16 != 0:
			x = t.x + t.cellW/2 - t.textW/2
		}
		switch {
		case t.opt.align&1 != 0:
			y -= t.cellH + desc
		case t.opt.align&32 != 0:
			y -= t.cellH/2 + (desc+asc)/2
		default:
			y -= asc
		}
	}
	if t.opt.t != nil {
		c.q()
		c.gs(t.opt.t)
	}
	if t.mode == "color" && t.col != nil {
		c.g.fill = *t.col
	}
	adj, first, last := 0, -1, -1
	if t.cell && t.opt.align&64 != 0 && t.rect != nil {
		gaps := 0
		for i, r := range t.text {
			if r != ' ' {
				if first < 0 {
					first = i
				}
				last = i
			}
		}
		for i, r := range t.text {
			if r == ' ' && i > first && i < last {
				gaps++
			}
		}
		if slack := t.cellW - t.textW; gaps > 0 && slack > 0 {
			adj = int(math.Round(-(slack / float64(gaps)) * 1000 / t.size))
		}
	}
	pen := 0.0
	for i, r := range t.text {
		_, g := t.font.glyph(r)
		pen += float64(t.kernAt(i)) / 1000 * t.size
		gx, gy := c.g.ctm.Apply(x+pen, y)
		w := t.font.width(g)
		o, _ := f.Outline(g)
		drift := 0.0
		if t.sp != 0 {
			// The spacing is printed with three decimals; text that continues
			// the text before it is one run with it.
			drift = 0.0006
		}
		// So is the font size.
		drift += math.Abs(t.size-math.Round(t.size*1000)/1000) * (float64(w) + abs(float64(t.kernAt(i)))) / 1000
		if n := len(c.evs); n > 0 {
			if p := c.evs[n-1].G; p != nil && (i > 0 || p.tc == t.sp && p.vx == c.g.ctm[0]*t.size && p.vy == c.g.ctm[1]*t.size) {
				drift += p.drift
			}
		}
		c.evs = append(c.evs, item{
			E: pdfr.Ev{Kind: "text", Key: fmt.Sprintf("font=%s fill:%s clips=%d", t.font.name(), c.g.fill.Space, c.g.nclip), Col: append([]float64{c.g.ca}, c.g.fill.V...), Clip: c.g.clip, GS: c.g.bm, Mask: c.g.mask},
			G: &gl{drift: drift, font: t.font, r: r, gid: g, outl: o, w: w, x: gx, y: gy, vx: c.g.ctm[0] * t.size, vy: c.g.ctm[1] * t.size, tc: t.sp},
		})
		pen += float64(w)/1000*t.size + t.sp
		if adj != 0 && r == ' ' && i > first && i < last {
			pen -= float64(adj) / 1000 * t.size
		}
	}
	if t.style&4 != 0 {
		def := func(v float64) float64 {
			if v == 0 {
				return 1
			}
			return v
		}
		upm := float64(f.UPM)
		a, d := float64(f.Asc)/upm*t.size, -float64(f.Desc)/upm*t.size
		base := a + ((a+d)-def(t.opt.cl)*t.size)/2
		c.re(t.x+t.shift, t.ph-t.y+float64(f.ULPos)/upm*t.size*def(t.opt.cp)-base, t.cellW, float64(f.ULThick)/upm*t.size*def(t.opt.ct))
		c.paint(false, true)
	}
	line := func(x1, y1, x2, y2 float64) {
		c.m(x1, y1)
		c.l(x2, y2)
		c.h()
		c.paint(true, false)
	}
	o := t.lw / 2
	top := t.ph - t.y
	if t.opt.border&4 != 0 {
		line(t.x-o, top, t.x+t.cellW+o, top)
	}
	if t.opt.border&8 != 0 {
		line(t.x, top, t.x, top-t.cellH)
	}
	if t.opt.border&2 != 0 {
		line(t.x+t.cellW, top, t.x+t.cellW, top-t.cellH)
	}
	if t.opt.border&1 != 0 {
		line(t.x-o, top-t.cellH, t.x+t.cellW+o, top-t.cellH)
	}
	if t.opt.t != nil {
		c.Q()
	}
}

func (m *mfont) name() string { return strings.NewReplacer(" ", "+", "/", "+").Replace(m.fam) }

type mlink struct {
	rect   [4]float64
	uri    string
	anchor string
}

type mpage struct {
	w, h  float64
	trim  []float64
	items []any // *mtext or func(*canvas)
	links []mlink
}

func (p *mpage) add(f func(*canvas)) { p.items = append(p.items, f) }

type mout struct {
	title string
	page  int
	level int
	y     float64
}

type mhole struct {
	t    *mtext
	w    float64
	size float64
	sp   float64
}

type manchor struct {
	page int
	y    float64
}

// Model is the executable reference: what the document must mean after the
// calls made so far.
type Model struct {
	E              *Env
	D              *DocSpec
	ID             int
	k              float64
	w, h           float64
	trim           []float64
	cfgTrim        []float64
	pages          []*mpage
	cur            int
	x, y           float64
	ml, mt, mb, mr float64
	fonts          []*mfont
	font           *mfont
	size           float64
	style          int
	sp             float64
	mode           string
	col            *pdfr.Color
	gray           float64
	lw             float64
	tr             *Tr
	setX           int
	header, footer []Op
	spaces         map[string]string
	spaceOrder     []string
	anchors        map[string]manchor
	outs           []mout
	holes          map[string][]mhole
	info           map[string]string
	inPage         bool
	conts          []map[string]*mfont
	tpls           [][2]int
	Imported       bool
	Unbal          map[int]bool // pages whose save/restore is unbalanced on purpose
}

// NewModel starts a document.
func NewModel(e *Env, id int) *Model {
	d := &e.W.Docs[id]
	m := &Model{E: e, D: d, ID: id, k: 1, ml: 10, mt: 10, mb: 10, mr: 10, mode: "gray", lw: 1, spaces: map[string]string{}, anchors: map[string]manchor{}, holes: map[string][]mhole{}, cur: -1}
	m.k = d.factor()
	m.w, m.h = d.W*m.k, d.H*m.k
	if d.P > 0 {
		m.w, m.h = named2[d.P-1][0], named2[d.P-1][1]
	}
	if d.Trim != [4]float64{} {
		m.cfgTrim = m.pts(d.Trim[:])
	}
	return m
}

// factor is the number of points of a unit of the document.
func (d *DocSpec) factor() float64 {
	if d.Conv != 0 {
		return d.Conv
	}
	return unitFactor(d.Unit)
}

func unitFactor(u int) float64 {
	switch u {
	case 2:
		return 72.0 / 25.4
	case 3:
		return 72.0 / 2.54
	case 4:
		return 72
	case 5:
		return 0.75
	}
	return 1
}

func (m *Model) page() *mpage { return m.pages[m.cur] }

func (m *Model) pts(f []float64) []float64 {
	o := make([]float64, len(f))
	for i := range f {
		o[i] = f[i] * m.k
	}
	return o
}

func cl(space string, i []int) *pdfr.Color {
	c := &pdfr.Color{Space: space}
	for _, v := range i {
		if space == "CMYK" {
			c.V = append(c.V, float64(v)/100)
		} else {
			c.V = append(c.V, float64(v)/255)
		}
	}
	return c
}

func rgbOrCMYK(i []int) *pdfr.Color {
	if len(i) == 4 {
		return cl("CMYK", i)
	}
	return cl("RGB", i)
}

// opaque transparency settings leave the state alone.
func trOf(t *Tr) *Tr {
	if t == nil || t.A == 1 && (t.BM == "" || t.BM == "/Normal") {
		return nil
	}
	return t
}

// trFor is the transparency of a drawing with an explicit setting t.
func (m *Model) trFor(t *Tr) *Tr {
	if t == nil {
		return m.tr
	}
	return trOf(t)
}

func (m *Model) newText(cell bool, rect []float64, opt cellOpt) *mtext {
	return &mtext{font: m.font, size: m.size, style: m.style, sp: m.sp, mode: m.mode, col: m.col, gray: m.gray, x: m.x, y: m.y, ph: m.page().h, cell: cell, rect: rect, opt: opt, lw: m.lw, setX: m.setX}
}

// put places text and moves the pen.
func (m *Model) put(t *mtext, s string) {
	p := m.page()
	var run *mtext
	if n := len(p.items); n > 0 {
		if last, ok := p.items[n-1].(*mtext); ok && last.mergeable(t) {
			run = last
		}
	}
	if run == nil {
		run = t
		p.items = append(p.items, t)
	}
	run.text = append(run.text, m.subst(s)...)
	run.measure()
	if !run.cell || run.opt.float == 0 || run.opt.float&2 != 0 {
		m.x = run.x + run.cellW
	}
	if run.opt.float&1 != 0 {
		m.y = run.y + run.cellH
	}
}

func (m *Model) subst(s string) []rune {
	var o []rune
	for _, r := range s {
		q, _ := m.font.glyph(r)
		o = append(o, q)
	}
	return o
}

// measureText is the width of s in points.
func (m *Model) measureText(s string) float64 {
	t := &mtext{font: m.font, size: m.size, sp: m.sp, text: m.subst(s)}
	t.measure()
	return t.textW
}

func (m *Model) lineHeight() float64 {
	f := m.font.f
	return typo(f.TypoAsc, f.UPM, m.size) - typo(f.TypoDesc, f.UPM, m.size)
}

// natural is an image's size without a rectangle, in points.
func natural(w, h int) (float64, float64) {
	a, b := w*72/128, h*72/128
	if a == 0 {
		a = b * w / h
	}
	if b == 0 {
		b = a * h / w
	}
	return float64(a), float64(b)
}

// Want is what the model expects of an operation.
type Want struct {
	Err  int // 0 must succeed, 1 must fail, 2 either
	V    []float64
	Skip bool
	Lost bool   // the model does not say what was drawn
	Bad  string // a result that is wrong
}

func (m *Model) addPage(w, h float64, trim []float64) {
	m.pages = append(m.pages, &mpage{w: w, h: h, trim: trim})
	m.cur = len(m.pages) - 1
	m.x, m.y = m.ml, m.mt
	for _, f := range [][]Op{m.header, m.footer} {
		if f != nil {
			for i := range f {
				m.Apply(&f[i], &Res{})
			}
			m.x, m.y = m.ml, m.mt
		}
	}
}

func (m *Model) newFont(op *Op, f int) *mfont {
	mf := &mfont{fam: op.S[0], style: 0, sub: ' ', f: m.E.Fonts[f]}
	if o, has := ttfOpt(op); has {
		mf.style = o.Style &^ 4
		mf.kern = o.UseKerning
		if op.I[3] == 1 {
			mf.sub = '?'
		}
	}
	return mf
}

func styleOf(s string) int {
	s = strings.ToUpper(s)
	v := 0
	if strings.Contains(s, "B") {
		v |= 2
	}
	if strings.Contains(s, "I") {
		v |= 1
	}
	if strings.Contains(s, "U") {
		v |= 4
	}
	return v
}

func clamp(v float64) float64 { return math.Max(0, math.Min(1, v)) }

// Apply advances the model by one operation.
func (m *Model) Apply(op *Op, res *Res) (w Want) {
	f := m.pts(op.F)
	if op.P > 0 {
		f[0], f[1] = named2[op.P-1][0], named2[op.P-1][1]
	}
	switch op.K {
	case "addpage":
		switch len(f) {
		case 0:
			m.addPage(m.w, m.h, m.defTrim())
		default:
			if f[0] == 0 {
				f[0], f[1] = m.w, m.h
			}
			trim := m.defTrim()
			if len(f) == 6 && (f[2] != 0 || f[3] != 0 || f[4] != 0 || f[5] != 0) {
				trim = f[2:6]
			}
			m.addPage(f[0], f[1], trim)
		}
	case "many":
		for i := 0; i < op.I[0]; i++ {
			for k := range op.Sub {
				m.Apply(&op.Sub[k], &Res{})
			}
		}
	case "setpage":
		if op.I[0] < 1 || op.I[0] > len(m.pages) {
			w.Err = 1
			break
		}
		m.cur = op.I[0] - 1
	case "font", "contfont":
		if res.Fired {
			w.Err = 1
			break
		}
		if op.K == "contfont" {
			mf := m.conts[op.I[0]][op.S[0]]
			if mf == nil {
				w.Err = 1
				break
			}
			c := *mf
			m.fonts = append(m.fonts, &c)
			break
		}
		m.fonts = append(m.fonts, m.newFont(op, op.I[0]))
	case "contadd":
		if res.Fired {
			w.Err = 1
		}
	case "cuse":
		w.Skip = true
	case "bad", "badsrc":
		w.Err = 1
	case "kernover":
		w.Err = 1
		for _, x := range m.fonts {
			if x.fam == op.S[0] {
				x.over, x.hasOv = op.I[0], true
				w.Err = 0
				break
			}
		}
	case "setfont":
		st := styleOf(op.S[1])
		w.Err = 1
		for _, x := range m.fonts {
			if x.fam == op.S[0] && x.style == st&^4 {
				m.font, m.size, m.style = x, op.F[0], st
				w.Err = 0
				break
			}
		}
	case "fontsize":
		m.size = op.F[0]
	case "spacing":
		m.sp = f[0]
	case "text":
		m.put(m.newText(false, nil, cellOpt{t: nil}), op.S[0])
	case "arabic":
		m.put(m.newText(false, nil, cellOpt{t: nil}), res.Lines[0])
	case "cell":
		m.put(m.newText(true, rectF(f), cellOpt{align: 12, float: 2}), op.S[0])
	case "cellopt":
		o := cellOpt{align: op.I[0], border: op.I[1], float: op.I[2], t: m.trFor(op.T)}
		if n := len(op.F); n%2 == 1 {
			o.cp, o.cl, o.ct = op.F[n-3], op.F[n-2], op.F[n-1]
			f = f[:n-3]
		}
		m.put(m.newText(true, rectF(f), o), op.S[0])
	case "multicell":
		m.multi(op, res, f, &w)
	case "mcell":
		m.mcell(op, f)
	case "setx":
		m.x = f[0]
		m.setX++
	case "sety":
		m.y = f[0]
	case "setxy":
		m.x, m.y = f[0], f[1]
		m.setX++
	case "newy", "newyno", "newxy":
		at := m.y
		if op.K == "newyno" {
			at = f[0]
		}
		y := f[0]
		if at+f[1] > m.page().h-m.mb {
			m.addPage(m.w, m.h, m.defTrim())
			y = m.mt
		}
		m.y = y
		if op.K == "newxy" {
			m.x = f[2]
			m.setX++
		}
	case "margin":
		switch op.S[0] {
		case "left", "oldleft":
			m.ml = f[0]
		case "top", "oldtop":
			m.mt = f[0]
		case "right":
			m.mr = f[0]
		case "bottom":
			m.mb = f[0]
		}
		for i := 0; i < 2; i++ {
			for _, v := range []float64{m.ml, m.mt, m.mr, m.mb} {
				w.V = append(w.V, v/m.k)
			}
		}
	case "units":
		a, b := op.F[0]*m.k, op.F[0]/m.k
		u := unitFactor(m.D.Unit)
		w.V = []float64{a, b, a, b, op.F[0] * u, op.F[0] / u}
	case "restart":
		c := m.conts
		*m = *NewModel(m.E, m.ID)
		m.conts = c
	case "margins":
		m.ml, m.mt, m.mr, m.mb = f[0], f[1], f[2], f[3]
	case "br":
		m.y += f[0]
		m.x = m.ml
	case "textcolor":
		m.mode, m.col = "color", rgbOrCMYK(op.I)
	case "fillcolor":
		c := *rgbOrCMYK(op.I)
		m.page().add(func(v *canvas) { v.g.fill = c })
	case "strokecolor":
		c := *rgbOrCMYK(op.I)
		m.page().add(func(v *canvas) { v.g.stroke = c })
	case "grayfill":
		m.mode, m.gray = "gray", op.F[0]
		c := pdfr.Color{Space: "G", V: []float64{clamp(op.F[0])}}
		m.page().add(func(v *canvas) { v.g.fill = c })
	case "graystroke":
		c := pdfr.Color{Space: "G", V: []float64{clamp(op.F[0])}}
		m.page().add(func(v *canvas) { v.g.stroke = c })
	case "lw":
		m.lw = f[0]
		m.page().add(func(v *canvas) { v.g.lw = f[0] })
	case "ltype":
		var d []float64
		switch op.S[0] {
		case "dashed":
			d = []float64{5, 2}
		case "dotted":
			d = []float64{2, 3, 11}
		}
		m.page().add(func(v *canvas) { v.g.dash = d })
	case "dash":
		if len(f) == 1 {
			f = nil
		}
		m.page().add(func(v *canvas) { v.g.dash = f })
	case "line":
		H, t := m.page().h, m.tr
		m.page().add(func(v *canvas) {
			v.q()
			if t != nil {
				v.gs(t)
			}
			v.m(f[0], H-f[1])
			v.l(f[2], H-f[3])
			v.paint(true, false)
			v.Q()
		})
	case "rectlo", "rectup", "rectopt":
		H := m.page().h
		up := op.K == "rectup" || op.K == "rectopt" && op.I[0] == 1
		st := ""
		var t *Tr
		if len(op.S) > 0 {
			t = m.trFor(op.T)
			st = op.S[0]
			if op.K == "rectopt" {
				st = map[string]string{"S": "D", "f": "F", "B": "DF", "": "D"}[st]
			}
		}
		y := f[1]
		if up {
			y += f[3]
		}
		m.page().add(func(v *canvas) {
			v.q()
			if t != nil {
				v.gs(t)
			}
			v.re(f[0], H-y, f[2], f[3])
			v.style(st, false)
			v.Q()
		})
	case "oval":
		H := m.page().h
		m.page().add(func(v *canvas) {
			const k = .55228
			cx, cy := (f[0]+f[2])/2, H-(f[1]+f[3])/2
			rx, ry := (f[2]-f[0])/2, (f[3]-f[1])/2
			v.m(cx, cy-ry)
			v.c(cx+rx*k, cy-ry, cx+rx, cy-ry*k, cx+rx, cy)
			v.c(cx+rx, cy+ry*k, cx+rx*k, cy+ry, cx, cy+ry)
			v.c(cx-rx*k, cy+ry, cx-rx, cy+ry*k, cx-rx, cy)
			v.c(cx-rx, cy-ry*k, cx-rx*k, cy-ry, cx, cy-ry)
			v.paint(true, false)
		})
	case "curve":
		H := m.page().h
		st := strings.ToUpper(strings.TrimSpace(op.S[0]))
		m.page().add(func(v *canvas) {
			v.m(f[0], H-f[1])
			v.c(f[2], H-f[3], f[4], H-f[5], f[6], H-f[7])
			v.style(st, false)
		})
	case "polygon":
		m.poly(f, op.S[0])
	case "clip":
		H := m.page().h
		m.page().add(func(v *canvas) {
			for i := 0; i < len(f); i += 2 {
				if i == 0 {
					v.m(f[i], H-f[i+1])
				} else {
					v.l(f[i], H-f[i+1])
				}
			}
			v.h()
			v.clipPath()
		})
	case "rectangle":
		x0, y0, x1, y1, r, n := op.F[0], op.F[1], op.F[2], op.F[3], op.F[4], op.I[0]
		if x1 <= x0 || y1 <= y0 || n > 0 && r > 0 && (r > x1-x0 || r > y1-y0) {
			w.Err = 1
			break
		}
		var p []float64
		add := func(x, y float64) { p = append(p, x*m.k, y*m.k) }
		if n <= 0 || r <= 0 {
			add(x0, y0)
			add(x1, y0)
			add(x1, y1)
			add(x0, y1)
		} else {
			for q := 0; q < 4; q++ {
				cx, cy := x0+r, y0+r
				if q == 1 || q == 2 {
					cx = x1 - r
				}
				if q >= 2 {
					cy = y1 - r
				}
				for i := 0; i <= n+1; i++ {
					a := math.Pi - float64(i)*math.Pi/2/float64(n+1) - float64(q)*math.Pi/2
					add(cx+r*math.Cos(a), cy-r*math.Sin(a))
				}
			}
		}
		m.poly(p, op.S[0])
	case "rotate":
		H := m.page().h
		a := op.F[0]
		m.page().add(func(v *canvas) {
			v.q()
			v.cm(rot(a, f[1], H-f[2]))
		})
	case "rotreset", "restore":
		m.page().add(func(v *canvas) { v.Q() })
	case "save":
		m.page().add(func(v *canvas) { v.q() })
	case "image":
		m.image(op, res, &w)
	case "imagefrom":
		m.imageFrom(op, res, &w)
	case "settr":
		m.tr = trOf(op.T)
	case "cleartr":
		m.tr = nil
	case "addcs":
		if _, dup := m.spaces[op.S[0]]; dup {
			w.Err = 1
			break
		}
		c := rgbOrCMYK(op.I)
		m.spaces[op.S[0]] = fmt.Sprintf("Sep(%s Device%s %.3f)", op.S[0], c.Space, c.V)
	case "setcs":
		s, ok := m.spaces[op.S[0]]
		if !ok {
			w.Err = 1
			break
		}
		m.page().add(func(v *canvas) { v.g.stroke = pdfr.Color{Space: s, V: []float64{1}} })
	case "extlink", "intlink":
		H := m.page().h
		l := mlink{rect: [4]float64{f[0], H - f[1], f[0] + f[2], H - f[1] - f[3]}}
		if op.K == "extlink" {
			l.uri = op.S[0]
		} else {
			l.anchor = op.S[0]
		}
		m.page().links = append(m.page().links, l)
	case "anchor":
		m.anchors[op.S[0]] = manchor{m.cur, m.page().h - m.y + m.size}
	case "outline":
		m.outs = append(m.outs, mout{op.S[0], m.cur, 0, 0})
	case "outlinepos":
		m.outs = append(m.outs, mout{op.S[0], m.cur, 0, m.page().h - m.y + 20})
	case "onodes":
		kids := map[int][]int{}
		for i, p := range op.I {
			kids[p] = append(kids[p], i)
		}
		var walk func(p, lv int)
		walk = func(p, lv int) {
			for _, i := range kids[p] {
				m.outs = append(m.outs, mout{op.S[i], m.cur, lv, m.page().h - m.y + 20})
				walk(i, lv+1)
			}
		}
		walk(-1, 0)
	case "header":
		m.header = op.Sub
	case "footer":
		m.footer = op.Sub
	case "ph":
		t := m.newText(false, nil, cellOpt{})
		t.hole = true
		t.measure()
		m.page().items = append(m.page().items, t)
		m.holes[op.S[0]] = append(m.holes[op.S[0]], mhole{t, f[0], m.size, m.sp})
		m.x += f[0]
	case "fill":
		hs, ok := m.holes[op.S[0]]
		if !ok {
			w.Err = 1
			break
		}
		for _, h := range hs {
			h.t.text = nil
			for _, r := range op.S[1] {
				q, _ := h.t.font.glyph(r)
				h.t.text = append(h.t.text, q)
			}
			h.t.measure()
			switch op.I[0] {
			case 2:
				h.t.shift = h.w - h.t.textW
			case 16:
				h.t.shift = (h.w - h.t.textW) / 2
			default:
				h.t.shift = 0
			}
		}
	case "usetpl":
		if n := len(m.tpls); n > 0 {
			t := m.tpls[op.I[0]%n]
			m.template(t[0], t[1], f[0], f[1], f[2], f[3])
		}
	case "psizes":
		src := m.E.PDFs[op.I[0]]
		for i := range src.W {
			for _, n := range boxNames {
				b := src.Boxes[i][n]
				w.V = append(w.V, b[2]-b[0], b[3]-b[1])
			}
		}
	case "import":
		m.Imported = true
		m.tpls = append(m.tpls, [2]int{op.I[0], op.I[1]})
		m.template(op.I[0], op.I[1], f[0], f[1], f[2], f[3])
	case "importall":
		m.Imported = true
		src := m.E.PDFs[op.I[0]]
		for i := range src.W {
			m.addPage(m.w, m.h, m.defTrim())
			m.template(op.I[0], i+1, 0, 0, src.W[i], src.H[i])
		}
	case "info":
		m.info = map[string]string{}
		for i, k := range []string{"Author", "Title", "Subject", "Creator", "Producer"} {
			if op.S[i] != "" {
				m.info[k] = op.S[i]
			}
		}
		if op.I[0] != 0 {
			m.info["CreationDate"] = pdfDate(infoTime(op))
		}
	case "compress", "corrupt":
	case "fit", "fitnl":
		fit := m.fit
		if op.K == "fitnl" {
			fit = m.fitLines
		}
		ok, h := fit(op.S[0], op.F[0], op.F[1])
		w.V = []float64{0, h}
		if ok {
			w.V[0] = 1
		}
	case "table":
		m.table(op, res, &w)
	case "measure":
		w.V = []float64{m.measureText(op.S[0]) / m.k, m.lineHeight() / m.k}
	case "exact":
	case "hasglyph":
		v := 0.0
		if g, ok := m.font.f.Map[rune(op.I[0])]; ok && g != 0 {
			v = 1
		}
		w.V = []float64{v}
	case "out":
		w.Err = 2
	default:
		panic("simulator: model has no op " + op.K)
	}
	return
}

func (m *Model) defTrim() []float64 { return m.cfgTrim }

func rectF(f []float64) []float64 {
	if len(f) < 2 {
		return nil
	}
	return f[:2]
}

func (m *Model) poly(f []float64, style string) {
	H, t := m.page().h, m.tr
	m.page().add(func(v *canvas) {
		v.q()
		if t != nil {
			v.gs(t)
		}
		for i := 0; i < len(f); i += 2 {
			if i == 0 {
				v.m(f[i], H-f[i+1])
			} else {
				v.l(f[i], H-f[i+1])
			}
		}
		v.style(style, true)
		v.Q()
	})
}

// multi is MultiCellWithOption over the lines the splitter returned.
func (m *Model) multi(op *Op, res *Res, f []float64, w *Want) {
	sep := ""
	if op.I[1] == 2 || op.I[1] == 3 {
		sep = "-"
	}
	w.Bad = m.checkSplit(op.S[0], op.F[0]*m.k, op.I[1]&1 == 1 || op.I[1] == 4, sep, res.Lines)
	lh := m.lineHeight()
	x := m.x
	h := f[1]
	n := len(res.Lines)
	if n > 1 {
		// the documented-by-behaviour first line offset, in units
		h = f[1] - (lh/m.k+1.5)*float64((n+1)/2)*m.k
	}
	for i, s := range res.Lines {
		al := op.I[0]
		if i == n-1 && al&64 != 0 {
			al = al&^64 | 8
		}
		m.put(m.newText(true, []float64{f[0], h}, cellOpt{align: al, float: 2, t: m.trFor(op.T)}), s)
		m.y += lh
		m.x = x
		m.setX++
	}
}

// mcell is MultiCell: greedy lines within the rectangle.
func (m *Model) mcell(op *Op, f []float64) {
	x, lh, total := m.x, m.lineHeight()/m.k, 0.0
	W, H := op.F[0], op.F[1]
	if len(op.I) == 2 {
		W = m.measureText(string([]rune(op.S[0])[:op.I[1]])) / m.k
	} else if len(op.I) > 0 {
		_, H = m.fit(op.S[0], op.F[0], 1e9)
	}
	var line []rune
	rs := []rune(string(m.subst(op.S[0])))
	flush := func() {
		m.put(m.newText(true, []float64{W * m.k, lh * m.k}, cellOpt{align: 12, float: 2}), string(line))
		m.y += lh * m.k
		m.x = x
		m.setX++
	}
	for i, r := range rs {
		if total+lh > H {
			break
		}
		if m.measureText(string(line))/m.k+m.measureText(string(r))/m.k > W {
			flush()
			total += lh
			line = nil
		}
		line = append(line, r)
		if i == len(rs)-1 {
			flush()
		}
	}
}

// imgDraw draws one image with the options of o, on a page of height H.
type imgDraw struct {
	key       string
	src       string // of which data
	w, h      float64
	x, y      float64
	angle     float64
	maskAngle float64
	withMask  bool
	vf, hf    bool
	crop      []float64
	t         *Tr
	mask      *pdfr.MaskSem
}

func (d *imgDraw) draw(c *canvas, H float64) {
	w, h := d.w, d.h
	if d.crop != nil {
		w, h = d.crop[2], d.crop[3]
	}
	if !d.withMask {
		c.q()
		c.cm(rot(d.angle, d.x+w/2, H-(d.y+h/2)))
		defer c.Q()
	}
	c.q()
	if d.t != nil {
		c.gs(d.t)
	}
	if d.mask != nil {
		c.g.mask = d.mask
	}
	if d.withMask { // the mask stays
		c.cm(rot(d.angle+d.maskAngle, d.x+w/2, H-(d.y+h/2)))
	}
	sx, sy := 1.0, 1.0
	if d.hf {
		sx = -1
	}
	if d.vf {
		sy = -1
	}
	c.cm(pdfr.Mat{sx, 0, 0, sy, 0, 0})
	x, y := d.x, H-d.y
	flip := func(x, y, w, h float64) (float64, float64) {
		if d.hf {
			x = -x - w
		}
		if d.vf {
			y = -y - h
		}
		return x, y
	}
	if d.crop != nil {
		cx, cy := flip(x, y-d.crop[3], d.crop[2], d.crop[3])
		c.re(cx, cy, d.crop[2], d.crop[3])
		c.clipPath()
		x, y = flip(x-d.crop[0], y+d.crop[1]-d.h, d.w, d.h)
	} else {
		x, y = flip(x, y-d.h, d.w, d.h)
	}
	c.obj("image", d.key, pdfr.Mat{d.w, 0, 0, d.h, x, y})
	c.evs[len(c.evs)-1].E.Src = d.src
	c.Q()
}

func (m *Model) imgOf(o *ImgOp, t *Tr, key string, nw, nh int) *imgDraw {
	d := &imgDraw{key: key, x: o.X * m.k, y: o.Y * m.k, angle: o.Angle, vf: o.V, hf: o.H, t: t}
	for _, v := range o.Crop {
		d.crop = append(d.crop, v*m.k)
	}
	if o.Rect != nil {
		d.w, d.h = o.Rect[0]*m.k, o.Rect[1]*m.k
		if o.Named > 0 {
			d.w, d.h = named2[o.Named-1][0], named2[o.Named-1][1]
		}
	} else {
		d.w, d.h = natural(nw, nh)
	}
	return d
}

func (m *Model) image(op *Op, res *Res, w *Want) {
	if res.Fired {
		w.Err = 1
		return
	}
	o, p := op.Img, m.page()
	e := m.E.ImgE[o.Idx]
	if res.Err != "" && (e.Refuse || o.Mask != nil && m.E.ImgE[o.Mask.Idx].Refuse) {
		w.Err = 1
		return
	}
	if op.S == nil || o.Route == "path" {
		c := *o
		c.Angle, c.V, c.H, c.Crop = 0, false, false, nil
		d := m.imgOf(&c, nil, e.Normal, e.W, e.H)
		d.src = m.E.ImgK[o.Idx]
		p.add(func(v *canvas) { d.draw(v, p.h) })
		return
	}
	d := m.imgOf(o, m.trFor(o.T), e.Normal, e.W, e.H)
	d.src = m.E.ImgK[o.Idx]
	if o.Mask != nil {
		k := o.Mask
		ke := m.E.ImgE[k.Idx]
		md := m.imgOf(k, m.trFor(k.T), ke.Mask, ke.W, ke.H)
		cv := newCanvas()
		md.draw(cv, p.h)
		ms := &pdfr.MaskSem{S: "Luminosity", BBox: k.BBox}
		if len(k.BBox) != 4 {
			ms.BBox = []float64{-2 * p.w, -2 * p.h, 2 * p.w, 2 * p.h}
		}
		for _, x := range cv.evs {
			ms.Evs = append(ms.Evs, x.E)
		}
		d.withMask, d.maskAngle, d.mask = true, k.Angle, ms
		d.key = e.Split
		d.src += " with a mask"
	}
	p.add(func(v *canvas) { d.draw(v, p.h) })
}

func (m *Model) imageFrom(op *Op, res *Res, w *Want) {
	o := op.Img
	var src image.Image = noiseOf(op, nil)
	var x imgx.Expect
	var err error
	switch o.Format {
	case "png":
		x, err = imgx.ExpectImage(src)
	case "jpeg":
		x, err = imgx.ExpectJPEG(src)
	default:
		w.Err = 1
		return
	}
	if err != nil || op.I[0]*op.I[1] == 0 || x.Deep && res.Err != "" { // it cannot be encoded, or is refused because of its depth
		w.Err = 1
		return
	}
	d := m.imgOf(o, nil, x.Normal, op.I[0], op.I[1])
	d.src = fmt.Sprint(o.Format, op.I)
	p := m.page()
	p.add(func(v *canvas) { d.draw(v, p.h) })
}

func (m *Model) template(src, page int, x, y, w, h float64) {
	s := m.E.PDFs[src]
	W, H := s.W[page-1], s.H[page-1]
	switch {
	case w == 0 && h == 0:
		w, h = W, H
	case w == 0:
		w = h * W / H
	case h == 0:
		h = w * H / W
	}
	key := s.Forms[page-1]
	p := m.page()
	p.add(func(v *canvas) {
		v.q()
		v.g.lw = 1
		v.g.stroke = pdfr.Color{Space: "G", V: []float64{0}}
		v.g.fill = pdfr.Color{Space: "G", V: []float64{0}}
		v.obj("form", key, s.Place(page-1, x, p.h-y-h, w, h))
		v.Q()
	})
}

// ExpPage is what one page must show.
type ExpPage struct {
	Media [4]float64
	Trim  []float64
	Items []item
	Links []mlink
	Open  int // saves without restore
	Over  int // restores without save
}

// Expected is what a serialisation made now must mean.
type Expected struct {
	Pages    []ExpPage
	Outlines []mout
	Anchors  map[string]manchor
	Info     map[string]string
	Fonts    []*mfont
}

// Expect renders the model.
func (m *Model) Expect() *Expected {
	x := &Expected{Outlines: append([]mout{}, m.outs...), Anchors: map[string]manchor{}, Info: m.info, Fonts: m.fonts}
	for k, v := range m.anchors {
		x.Anchors[k] = v
	}
	for _, p := range m.pages {
		c := newCanvas()
		for _, it := range p.items {
			switch v := it.(type) {
			case *mtext:
				v.draw(c)
			case func(*canvas):
				v(c)
			}
		}
		x.Pages = append(x.Pages, ExpPage{Media: [4]float64{0, 0, p.w, p.h}, Trim: p.trim, Items: c.evs, Links: append([]mlink{}, p.links...), Open: len(c.stack), Over: c.over})
	}
	return x
}

// pdfDate is a date as PDF writes it (ISO 32000-1, 7.9.4).
func pdfDate(t time.Time) string {
	_, off := t.Zone()
	sign := byte('+')
	if off < 0 {
		sign, off = '-', -off
	}
	return fmt.Sprintf("D:%s%c%02d'%02d'", t.Format("20060102150405"), sign, off/3600, off/60%60)
}

var boxNames = []string{"/MediaBox", "/CropBox", "/BleedBox", "/TrimBox", "/ArtBox"}
