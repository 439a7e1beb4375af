package world

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"

	"verifsim/imgx"
	"verifsim/simrt"
	"verifsim/ttfx"
)

// Profile says what kind of worlds a property is searched in.
type Profile struct {
	Name    string
	MinDoc  int
	MaxDoc  int
	MinOps  int
	MaxOps  int
	W       map[string]int // weight of each operation family
	Out     float64        // probability of serialising after an operation
	Routes  []string
	Sink    float64 // probability that a serialisation meets a failing writer
	DiskOut float64 // probability that a file write meets a failing disk
	Src     float64 // probability that a source fails
	Frag    float64 // probability that a source is fragmented
	Prot    float64
	Units   float64 // probability of a unit other than points
	Pages   float64 // probability of custom page sizes
	Comp    float64 // probability of changing the compression
	Conts   int
	Fonts   int
	Images  int
	PDFs    int
	Race    bool
	Header  float64
	Unbal   float64
	Options float64 // fonts with options
	Solo    bool
	Scrib   bool
	Big     float64 // probability of hundreds of objects
	Mute    bool
	Flat    bool // run every task to completion (no interleaving needed)
}

type gfam struct {
	name  string
	style int
	font  int
	over  bool
	runes []rune
}

type gdoc struct {
	r        *simrt.Rand
	p        *Profile
	w        *World
	d        *DocSpec
	id       int
	fonts    []*ttfx.Font
	runes    [][]rune
	fams     []gfam
	cur      *gfam
	size     float64
	under    bool
	k        float64
	pages    [][2]float64 // size in units
	page     int
	depth    int
	nfam     int
	anch     []string
	holes    []string
	spaces   []string
	nodes    bool
	flat     bool
	hdr      bool
	maskN    int
	inSub    bool
	tab      *TabOp // the last table: its layout may be drawn again
	tabID    int
	tabSize  float64
	tabFonts bool
	imgs     int
	imported int
	manual   int // source imported by hand, plus one
	lastRGB  []int
	rotated  int
	wild     bool
	kinds    []string
	cum      []int
}

func mappedRunes(f *ttfx.Font) []rune {
	var o []rune
	for r := range f.Map {
		o = append(o, r)
	}
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

// Gen draws a world.
func Gen(p *Profile, seed uint64) *World {
	r := simrt.NewRand(simrt.Mix(seed, 0xA11CE))
	w := &World{Profile: p.Name, Seed: seed}
	w.Policy = simrt.Policy{Mean: simrt.Pick(r, 3, 10, 40, 200, 1000, 5000), SeamWeight: simrt.Pick(r, 1, 1, 50, 400), ClockJumps: r.P(0.4)}
	if p.Flat {
		w.Policy.Mean = simrt.Pick(r, 0, 500, 20000)
	}
	w.Scrib, w.Mute = p.Scrib, p.Mute
	w.Drop = simrt.Pick(r, 0, 0, 1, 3)
	nf := 1 + r.Intn(max(1, p.Fonts))
	var fonts []*ttfx.Font
	var runes [][]rune
	for i := 0; i < nf; i++ {
		s := ttfx.DrawSpec(r)
		f, err := ttfx.Read(ttfx.Build(s))
		if err != nil {
			panic("simulator: " + err.Error())
		}
		w.Fonts = append(w.Fonts, s)
		fonts = append(fonts, f)
		runes = append(runes, mappedRunes(f))
	}
	if p.Images > 0 {
		n := 1 + r.Intn(p.Images)
		for i := 0; i < n; i++ {
			if i > 0 && r.P(0.12) {
				w.Images[i-1].Store = true
				w.Images = append(w.Images, imgx.Sibling(r, w.Images[i-1]))
			} else if i > 0 && r.P(0.3) {
				w.Images = append(w.Images, imgx.DrawMaskSpec(r))
			} else {
				w.Images = append(w.Images, imgx.DrawSpec(r))
			}
		}
	}
	if p.PDFs > 0 {
		n := 1 + r.Intn(p.PDFs)
		for i := 0; i < n; i++ {
			w.PDFs = append(w.PDFs, PDFSpec{Seed: r.U64() >> 16, Pages: r.Range(1, 4), Flate: r.P(0.5), Shared: r.P(0.4), Image: r.P(0.5), Nest: r.P(0.3), Sizes: r.P(0.2),
				Box: simrt.Pick(r, "", "", "", "/TrimBox", "/CropBox", "/BleedBox", "/ArtBox"), Org: r.P(0.3), Rot: simrt.Pick(r, 0, 0, 0, 0, 90, 180, 270, -90), Inh: r.P(0.25), Split: r.P(0.2), Rich: r.P(0.35)})
			if q := &w.PDFs[len(w.PDFs)-1]; q.Box != "" {
				q.NoBox = r.P(0.35)
			}
			if q := &w.PDFs[len(w.PDFs)-1]; q.Inh {
				q.Sizes = false
			}
		}
	}
	if p.Conts > 0 && r.P(0.9) {
		w.Conts = 1 + r.Intn(p.Conts)
		for c := 0; c < w.Conts; c++ {
			for k := 0; k < 1+r.Intn(2); k++ {
				f := r.Intn(nf)
				op := Op{K: "contadd", S: []string{fmt.Sprintf("shared%d", k), "data"}, I: []int{f, 0, 0, 0, c}}
				if r.P(0.5) {
					op.I[1], op.I[2], op.I[3] = simrt.Pick(r, 0, 0, 1, 2), r.Intn(2), 0
				}
				w.Pre = append(w.Pre, op)
			}
		}
	}
	nd := r.Range(p.MinDoc, p.MaxDoc)
	for i := 0; i < nd; i++ {
		w.Docs = append(w.Docs, DocSpec{})
	}
	for i := range w.Docs {
		g := &gdoc{r: simrt.NewRand(simrt.Mix(seed, 0xD0C, uint64(i))), p: p, w: w, d: &w.Docs[i], id: i, fonts: fonts, runes: runes}
		g.doc()
	}
	return w
}

func (g *gdoc) op(o Op) { g.d.Ops = append(g.d.Ops, o) }

func r2(v float64) float64 { return math.Round(v*100) / 100 }
func r1(v float64) float64 { return math.Round(v*10) / 10 }
func r3(v float64) float64 { return math.Round(v*1000) / 1000 }

func (g *gdoc) size2() [2]float64 {
	s := simrt.Pick(g.r, [2]float64{595, 842}, [2]float64{300, 200}, [2]float64{612, 792}, [2]float64{420, 595}, [2]float64{r1(150 + 700*g.r.F()), r1(150 + 700*g.r.F())})
	return [2]float64{r2(s[0] / g.k), r2(s[1] / g.k)}
}

// named is a page size of the package in units of the document.
func (g *gdoc) named(p int) [2]float64 {
	return [2]float64{named2[p-1][0] / g.k, named2[p-1][1] / g.k}
}

func (g *gdoc) doc() {
	r, p, d := g.r, g.p, g.d
	g.k = 1
	g.wild = r.P(0.3)
	if r.P(p.Units) {
		d.Unit = simrt.Pick(r, 2, 2, 3, 4, 5)
	} else {
		d.Unit = simrt.Pick(r, 0, 1)
	}
	if r.P(p.Units / 3) {
		d.Conv = simrt.Pick(r, 72.0/300, 72.0/150, 1.5, 20, 1)
	}
	g.k = d.factor()
	s := g.size2()
	if r.P(0.15) {
		d.P = 1 + r.Intn(len(pageSizes))
		s = g.named(d.P)
	}
	d.W, d.H = s[0], s[1]
	if r.P(p.Pages / 3) {
		copy(d.Trim[:], g.trim(s))
	}
	if r.P(p.Prot) {
		d.Prot = &Prot{Perm: simrt.Pick(r, 0, 4, 8, 16, 4|8|16|32), User: simrt.Pick(r, "", "u", "user secret", "0123456789abcdef0123456789abcdefLONGER", "p\xe4ss\x00\xff"), Owner: simrt.Pick(r, "", "o", "the owner", "ABCDEFGHIJKLMNOPQRSTUVWXYZ012345", "ABCDEFGHIJKLMNOPQRSTUVWXYZ012345 and more")}
	}
	d.Imp = r.P(0.15) || p.PDFs > 0 && r.P(0.3)
	g.pickKinds()
	g.begin()
	n := r.Range(p.MinOps, p.MaxOps)
	big := -1
	if r.P(p.Big) {
		big = r.Intn(n + 1)
	}
	again := -1
	if !g.hdr && r.P(0.06) {
		again = r.Intn(n + 1)
	}
	for i := 0; i < n; i++ {
		if i == again && !g.hdr {
			g.restart()
		}
		if i == big {
			g.many()
		}
		g.step()
		if r.P(p.Out) {
			g.out(false)
		}
	}
	if !r.P(p.Unbal) {
		g.balance()
	}
	g.out(true)
	if r.P(0.4) {
		g.out(true)
	}
}

// begin is what follows Start.
func (g *gdoc) begin() {
	r, p := g.r, g.p
	if r.P(p.Comp) {
		g.op(Op{K: "compress", I: []int{simrt.Pick(r, 0, 0, 1, 9, 6, -1, -2)}})
	}
	if r.P(0.15) {
		g.info()
	}
	if r.P(0.15) {
		g.op(Op{K: "margins", F: g.c4(30, 30, 30, 30)})
	}
	g.addFont()
	if r.P(0.5) {
		g.addFont()
	}
	if r.P(p.Header) {
		g.headers()
	}
	if g.useW("addcs") && r.P(0.5) {
		g.addcs()
	}
	g.addPage()
	g.setFont()
}

// restart starts another document on the same GoPdf.
func (g *gdoc) restart() {
	g.balance()
	g.op(Op{K: "restart"})
	g.fams, g.pages, g.anch, g.holes, g.spaces = nil, nil, nil, nil, nil
	g.depth, g.imported, g.rotated = 0, 0, 0
	g.nodes, g.flat, g.tab = false, false, nil
	g.begin()
}

func (g *gdoc) useW(k string) bool { return g.p.W[k] > 0 }

func (g *gdoc) pickKinds() {
	// swarm: every document uses a random subset of the families
	var ks []string
	for k := range g.p.W {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	t := 0
	for _, k := range ks {
		if g.p.W[k] <= 0 || g.p.W[k] < 50 && g.r.P(0.3) {
			continue
		}
		t += g.p.W[k]
		g.kinds = append(g.kinds, k)
		g.cum = append(g.cum, t)
	}
	if t == 0 {
		g.kinds, g.cum = []string{"text"}, []int{1}
	}
}

func (g *gdoc) step() {
	n := g.r.Intn(g.cum[len(g.cum)-1])
	i := sort.SearchInts(g.cum, n+1)
	g.emit(g.kinds[i])
}

// balance closes open graphics states of the page.
func (g *gdoc) balance() {
	for ; g.depth > 0; g.depth-- {
		g.op(Op{K: simrt.Pick(g.r, "restore", "rotreset")})
	}
}

func (g *gdoc) pw() float64 { return g.pages[g.page][0] }
func (g *gdoc) ph() float64 { return g.pages[g.page][1] }
func (g *gdoc) x() float64  { return g.at(g.pw()) }
func (g *gdoc) y() float64  { return g.at(g.ph()) }

// at is a position on a page of that length; in wild documents also on its
// edges, outside of it, and with all its decimals.
func (g *gdoc) at(n float64) float64 {
	r := g.r
	if !g.wild || !r.P(0.2) {
		return r2(r.F() * n)
	}
	return simrt.Pick(r, 0, n, r2(-r.F()*n), r2(n+r.F()*n), r.F()*n, -r.F()*n)
}

// len draws a length of up to m points, in units.
func (g *gdoc) ln(lo, hi float64) float64 { return r2((lo + g.r.F()*(hi-lo)) / g.k) }

// wl is a length that is also zero, negative or finely given in wild documents.
func (g *gdoc) wl(lo, hi float64) float64 {
	v := g.ln(lo, hi)
	if r := g.r; g.wild && r.P(0.2) {
		v = simrt.Pick(r, 0, -v, (lo+r.F()*(hi-lo))/g.k)
	}
	return v
}

func (g *gdoc) c4(a, b, c, d float64) []float64 {
	return []float64{g.ln(0, a), g.ln(0, b), g.ln(0, c), g.ln(0, d)}
}

func (g *gdoc) tr() *Tr {
	r := g.r
	bm := simrt.Pick(r, "", "/Normal", "/Hue", "/Color", "/Darken", "/Screen", "/Overlay", "/Lighten", "/Multiply", "/Exclusion", "/ColorBurn", "/HardLight", "/SoftLight", "/Difference", "/Saturation", "/Luminosity", "/ColorDodge")
	return &Tr{A: simrt.Pick(r, 0, 0.25, 0.5, 0.5, 0.75, 0.99, 1, 0.001, 0.251, 0.504, 0.496, 0.999, r2(r.F()), math.Round(r.F()*1000)/1000), BM: bm}
}

func (g *gdoc) trp(p float64) *Tr {
	if g.r.P(p) {
		return g.tr()
	}
	return nil
}

func (g *gdoc) rgb() (c []int) {
	r := g.r
	if k := len(g.lastRGB); k > 0 && r.P(0.35) { // one component differs
		c = append([]int{}, g.lastRGB...)
		if r.P(0.9) {
			c[r.Intn(k)] = simrt.Pick(r, 0, 1, 100, r.Intn(101))
		}
		if r.P(0.05) {
			c = c[:3]
		}
		return c
	}
	defer func() { g.lastRGB = c }()
	if r.P(0.1) {
		k := simrt.Pick(r, 0, 0, 100)
		return []int{k, k, k, k}[:r.Range(3, 4)]
	}
	if r.P(0.3) {
		return []int{r.Intn(101), r.Intn(101), r.Intn(101), r.Intn(101)}
	}
	return []int{r.Intn(256), r.Intn(256), r.Intn(256)}
}

func (g *gdoc) src(n int) *SrcPlan {
	r, p := g.r, g.p
	s := &SrcPlan{Seed: r.U64() >> 16, Mode: "whole"}
	if r.P(p.Frag) {
		s.Mode = simrt.Pick(r, "chunk", "one", "eofdata", "zero", "chunk")
	}
	if r.P(p.Src) {
		s.ErrAt = 1 + r.Intn(n+1)
		if r.P(0.2) {
			s.ErrAt = n + 1 // instead of end of file
		}
		s.ErrAll = r.P(0.4)
		s.Sticky = r.P(0.6)
		s.Err = simrt.Pick(r, ErrKinds...)
	}
	return s
}

func (g *gdoc) readDisk(n int) *DiskPlan {
	r, p := g.r, g.p
	var d *DiskPlan
	if r.P(p.Frag) {
		d = &DiskPlan{Chunk: simrt.Pick(r, 1, 7, 100, 4096)}
	}
	if r.P(p.Src) {
		if d == nil {
			d = &DiskPlan{}
		}
		if r.P(0.2) {
			d.Open = true
		} else {
			d.FailAt = 1 + r.Intn(n)
		}
		d.Err = simrt.Pick(r, "", "noent", "stale", "mfile")
	}
	return d
}

func (g *gdoc) addFont() {
	r := g.r
	if g.w.Conts > 0 && r.P(0.4) {
		o := g.w.Pre[r.Intn(len(g.w.Pre))]
		for _, f := range g.fams {
			if f.name == o.S[0] && f.style == o.I[1] {
				return
			}
		}
		g.op(Op{K: "contfont", S: []string{o.S[0]}, I: []int{o.I[4]}})
		// the last addition of a family to a container is the one in force
		for _, q := range g.w.Pre {
			if q.I[4] == o.I[4] && q.S[0] == o.S[0] {
				o = q
			}
		}
		g.fams = append(g.fams, gfam{name: o.S[0], style: o.I[1], font: o.I[0], over: true, runes: g.runes[o.I[0]]})
		return
	}
	f := r.Intn(len(g.fonts))
	name := fmt.Sprintf("fam%d", g.nfam)
	st := 0
	if r.P(0.1) {
		name = fmt.Sprintf("my fam/%d", g.nfam)
	} else if r.P(0.1) {
		name = fmt.Sprintf("%d", g.nfam) + g.raw()
	} else if g.nfam > 0 && r.P(0.12) { // differs in case, or by a space
		n := simrt.Pick(r, "Fam%d", "FAM%d", "fam%d ", "fam0%d")
		if n = fmt.Sprintf(n, r.Intn(g.nfam)); !slices.ContainsFunc(g.fams, func(f gfam) bool { return f.name == n }) {
			name = n
		}
	}
	op := Op{K: "font", S: []string{name, simrt.Pick(r, "data", "reader", "path")}, I: []int{f, 0, 0, 0}}
	if g.p.Race {
		op.S[1] = simrt.Pick(r, "data", "reader")
	}
	if r.P(g.p.Options) {
		st = simrt.Pick(r, 0, 0, 1, 2, 3)
		op.I[1], op.I[2] = st, r.Intn(2)
		if _, ok := g.fonts[f].Map['?']; ok && r.P(0.4) {
			op.I[3] = 1
		}
		if st == 0 && op.I[2] == 0 && op.I[3] == 0 {
			op.I[2] = 1
		}
	}
	// another style of a family that is there already
	multi := false
	if len(g.fams) > 0 && r.P(0.2) {
		x := g.fams[r.Intn(len(g.fams))]
		used := false
		for i := range g.fams {
			used = used || g.fams[i].name == x.name && g.fams[i].style == st
		}
		if !used {
			name, multi = x.name, true
			op.S[0] = name
		}
	}
	g.nfam++
	n := len(ttfx.Build(g.w.Fonts[f]))
	for try := 0; ; try++ {
		o := op
		o.I = append([]int{}, op.I...)
		faulty := false
		switch op.S[1] {
		case "reader":
			o.Src = g.src(n)
			faulty = o.Src.ErrAt > 0
		case "path":
			o.Disk = g.readDisk(n)
			faulty = o.Disk != nil && (o.Disk.Open || o.Disk.FailAt > 0)
		}
		if try > 2 {
			o.Src, o.Disk, faulty = nil, nil, false
		}
		g.op(o)
		if !faulty {
			break
		}
	}
	g.fams = append(g.fams, gfam{name: name, style: st, font: f, runes: g.runes[f]})
	if r.P(0.1) && !multi {
		g.op(Op{K: "kernover", S: []string{name}, I: []int{r.Intn(200) - 100}})
		g.fams[len(g.fams)-1].over = true
	}
}

func styleStr(r *simrt.Rand, st int, under bool) string {
	s := ""
	if st&2 != 0 {
		s += simrt.Pick(r, "B", "b")
	}
	if st&1 != 0 {
		s += simrt.Pick(r, "I", "i")
	}
	if under {
		s += "U"
	}
	return s
}

func (g *gdoc) setFont() {
	r := g.r
	f := &g.fams[r.Intn(len(g.fams))]
	g.size = simrt.Pick(r, 8, 10, 12, 14, 14, 9.5, 24, r1(5+r.F()*30))
	g.under = r.P(0.2)
	g.op(Op{K: "setfont", S: []string{f.name, styleStr(r, f.style, g.under)}, F: []float64{g.size}})
	if r.P(0.1) {
		st := f.style
		if g.under {
			st |= 4
		}
		g.d.Ops[len(g.d.Ops)-1].I = []int{st}
	}
	g.cur = f
}

func (g *gdoc) trim(s [2]float64) []float64 {
	return []float64{g.ln(0, 20), g.ln(0, 20), r2(s[0] - g.ln(1, 30)), r2(s[1] - g.ln(1, 30))}
}

func (g *gdoc) addPage() {
	r := g.r
	g.balanceMaybe()
	o := Op{K: "addpage"}
	s := [2]float64{g.d.W, g.d.H}
	if r.P(g.p.Pages) {
		s = g.size2()
		if r.P(0.25) {
			o.P = 1 + r.Intn(len(pageSizes))
			s = g.named(o.P)
		}
		o.F = []float64{s[0], s[1]}
		if r.P(0.3) {
			o.F = append(o.F, g.trim(s)...)
			if r.P(0.3) {
				s = [2]float64{g.d.W, g.d.H}
				o.F[0], o.F[1], o.P = 0, 0, 0
			}
		}
	}
	g.op(o)
	g.pages = append(g.pages, s)
	g.page = len(g.pages) - 1
}

// exactWidth splits text at exactly the width of some characters. The size
// makes all widths exact, whatever the order of additions.
func (g *gdoc) exactWidth() {
	r := g.r
	g.op(Op{K: "spacing", F: []float64{0}})
	g.size = simrt.Pick(r, 15.625, 31.25, 7.8125)
	g.op(Op{K: "fontsize", F: []float64{g.size}})
	s := []rune(g.str(2 + r.Intn(20)))
	n := 1 + r.Intn(len(s)-1)
	if r.P(0.7) {
		g.op(Op{K: "exact", S: []string{string(s)}, I: []int{n}})
	} else {
		g.op(Op{K: "mcell", S: []string{string(s)}, F: []float64{0, g.ln(40, 200)}, I: []int{2, n}})
	}
}

// exactHeight asks for a height that reaches exactly the bottom margin, or
// nearly.
func (g *gdoc) exactHeight() {
	r := g.r
	w, h, m := float64(r.Range(200, 900)), float64(r.Range(200, 900)), float64(r.Intn(80))
	g.balance()
	g.op(Op{K: "addpage", F: []float64{w, h}})
	g.pages = append(g.pages, [2]float64{w, h})
	g.page = len(g.pages) - 1
	g.op(Op{K: "margin", S: []string{"bottom"}, F: []float64{m}})
	y := float64(r.Intn(int(h - m)))
	g.op(Op{K: "setxy", F: []float64{g.x(), y}})
	d := h - m - y + simrt.Pick(r, 0, 0, 0, 0.25, -0.25)
	o := Op{K: simrt.Pick(r, "newy", "newyno", "newxy"), F: []float64{y, d}}
	if o.K == "newxy" {
		o.F = append(o.F, g.x())
	}
	g.op(o)
}

func (g *gdoc) balanceMaybe() {
	if !g.r.P(g.p.Unbal) {
		g.balance()
	}
	g.depth = 0
}

func (g *gdoc) str(n int) string {
	r := g.r
	var o []rune
	for i := 0; i < n; i++ {
		switch {
		case r.P(0.12):
			o = append(o, ' ')
		case r.P(0.05):
			o = append(o, simrt.Pick(r, 'Ж', '漢', 0x1F600, 0x2603, 'A'))
		default:
			o = append(o, g.cur.runes[r.Intn(len(g.cur.runes))])
		}
	}
	return string(o)
}

// para is a text for several lines.
func (g *gdoc) para() string {
	rs := []rune(g.str(4 + g.r.Intn(40)))
	if g.r.P(0.3) {
		for i := range rs {
			if g.r.P(0.1) {
				rs[i] = '\n'
			}
		}
	}
	return string(rs)
}

func (g *gdoc) text() string {
	if len(g.cur.runes) > 150 && g.r.P(0.15) { // enough characters for more than a block of the ToUnicode map
		return g.str(100 + g.r.Intn(150))
	}
	return g.str(1 + g.r.Intn(12))
}

// raw is a string of any characters.
func (g *gdoc) raw() string {
	r := g.r
	var o []rune
	for n := r.Intn(14); n > 0; n-- {
		switch r.Intn(8) {
		case 0, 1, 2:
			o = append(o, rune('a'+r.Intn(26)))
		case 3, 4:
			o = append(o, simrt.Pick(r, '(', ')', '\\', '<', '>', '[', ']', '{', '}', '/', '%', '#', ' '))
		case 5:
			o = append(o, simrt.Pick(r, '\r', '\n', '\t', '\b', '\f', 0, 0x7f, 0xa0, 'é', 0xff))
		case 6:
			c := rune(0x80 + r.Intn(0xFF00))
			if c >= 0xD800 && c < 0xE000 {
				c = 0x0D0A
			}
			o = append(o, c)
		default:
			o = append(o, rune(0x10000+r.Intn(0x100000)))
		}
	}
	return string(o)
}

// url is the target of a link.
func (g *gdoc) url() string {
	if g.r.P(0.4) {
		return g.raw()
	}
	return simrt.Pick(g.r, "http://x.org/a?b=(c)", "https://example.com/", "mailto:a@b", "http://x/\\y", "http://x/)")
}

// many repeats one operation until the document has hundreds of objects.
func (g *gdoc) many() {
	r := g.r
	if r.P(0.6) {
		var ks []string
		for _, k := range []string{"text", "cell", "path", "color", "outline", "anchor", "intlink", "settr", "stroke", "setfont", "ph", "fill", "setpage", "page", "image", "mask", "table", "move", "addcs", "usetpl", "spacing", "arabic"} {
			if g.useW(k) {
				ks = append(ks, k)
			}
		}
		if len(ks) > 0 { // many of one or two kinds
			n := r.Range(50, 300)
			a, b := simrt.Pick(r, ks...), simrt.Pick(r, ks...)
			for _, k := range []string{a, b} {
				if k == "image" || k == "mask" || k == "table" || k == "usetpl" {
					n = min(n, 60)
				}
			}
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					g.emit(a)
				} else {
					g.emit(b)
				}
			}
			return
		}
	}
	o := Op{K: "many", I: []int{r.Range(100, 500)}}
	if g.useW("page") && r.P(0.3) {
		o.I[0] = r.Range(30, 200)
		o.Sub = []Op{{K: "addpage"}}
		for i := 0; i < o.I[0]; i++ {
			g.pages = append(g.pages, [2]float64{g.d.W, g.d.H})
		}
		g.balanceMaybe()
		g.page = len(g.pages) - 1
	} else {
		o.Sub = []Op{{K: "extlink", S: []string{g.url()}, F: []float64{g.x(), g.y(), g.wl(5, 90), g.wl(5, 40)}}}
	}
	g.op(o)
}

func (g *gdoc) title() string {
	if g.r.P(0.4) {
		return g.raw()
	}
	return simrt.Pick(g.r, "Intro", "Chapter (1)", "back\\slash", "αβγ", "日本語", "x\n y", "))((", "é", "😀 smile", "", "a")
}

func (g *gdoc) info() {
	r := g.r
	t := func() string {
		if r.P(0.25) {
			return g.raw()
		}
		return simrt.Pick(r, "", "Ann", "A (B", "x\\y)", "日本", "ü😀", "plain text", "line\nfeed")
	}
	tm := 0
	if r.P(0.6) {
		tm = 1_000_000_000 + r.Intn(900_000_000)
	}
	zone := simrt.Pick(r, 0, 0, 60, -300, 330, -210, 345, 840, -720, 5, -15)
	g.op(Op{K: "info", S: []string{t(), t(), t(), t(), t()}, I: []int{tm, zone}})
}

func (g *gdoc) addcs() {
	n := fmt.Sprintf("Spot%d", len(g.spaces))
	if g.r.P(0.3) {
		n = fmt.Sprintf("PANTONE %d C", len(g.spaces)) + g.raw()
	}
	if k := len(g.spaces); k > 0 && g.r.P(0.15) { // names differ in case only
		if l := strings.ToLower(g.spaces[k-1]); l != g.spaces[k-1] && !slices.Contains(g.spaces, l) {
			n = l
		}
	}
	if len(g.spaces) > 0 && g.r.P(0.3) {
		n = g.spaces[g.r.Intn(len(g.spaces))] // a duplicate: must be refused
	} else {
		g.spaces = append(g.spaces, n)
	}
	g.op(Op{K: "addcs", S: []string{n}, I: g.rgb()})
}

func (g *gdoc) headers() {
	sub := func() []Op {
		save := g.d.Ops
		g.d.Ops = nil
		g.inSub = true
		g.pages = [][2]float64{{g.d.W, g.d.H}}
		g.page = 0
		f := &g.fams[g.r.Intn(len(g.fams))]
		g.cur = f
		g.op(Op{K: "setfont", S: []string{f.name, styleStr(g.r, f.style, false)}, F: []float64{9}})
		for i := 0; i < 1+g.r.Intn(3); i++ {
			switch g.r.Intn(6) {
			case 0, 1:
				g.op(Op{K: "setxy", F: []float64{g.x(), g.y()}})
				g.op(Op{K: "text", S: []string{g.text()}})
			case 2:
				g.emit("path")
			case 3:
				g.emit("color")
			case 4:
				g.emit("cell")
			case 5:
				g.emit("extlink")
			}
		}
		o := g.d.Ops
		g.d.Ops = save
		g.inSub = false
		g.pages = nil
		return o
	}
	if g.r.P(0.7) {
		g.op(Op{K: "header", Sub: sub()})
	}
	if g.r.P(0.6) {
		g.op(Op{K: "footer", Sub: sub()})
	}
	g.hdr = true
}

func (g *gdoc) emit(k string) {
	r := g.r
	switch k {
	case "text":
		g.op(Op{K: "text", S: []string{g.text()}})
		if r.P(0.03) && g.useW("color") { // from colour to the same gray and back
			c, v := g.rgb(), simrt.Pick(r, 0, 0, 0.5)
			for i, n := 0, r.Range(2, 5); i < n; i++ {
				if i%2 == 0 {
					g.op(Op{K: "textcolor", I: c})
				} else {
					g.op(Op{K: "grayfill", F: []float64{v}})
				}
				g.op(Op{K: "text", S: []string{g.text()}})
			}
		}
	case "arabic":
		g.op(Op{K: "arabic", S: []string{g.arText()}})
	case "cell":
		o := Op{K: "cell", S: []string{g.text()}}
		if r.P(0.5) {
			o.F = []float64{g.wl(20, 200), g.wl(10, 40)}
			if r.P(0.04) {
				o.P = 1 + r.Intn(len(pageSizes))
				s := g.named(o.P)
				o.F = s[:]
			}
		}
		if r.P(0.6) {
			o.K = "cellopt"
			o.I = []int{simrt.Pick(r, 0, 8, 2, 16, 8|4, 8|1, 16|32, 2|32, 2|1, 64), 0, simrt.Pick(r, 0, 2, 1, 2)}
			if o.F != nil && r.P(0.4) {
				o.I[1] = r.Intn(16)
			}
			o.T = g.trp(0.3)
			if r.P(0.15) {
				o.F = append(o.F, r2(0.5+r.F()), r2(0.5+r.F()), r2(0.5+r.F()))
			}
		}
		g.op(o)
	case "multicell":
		if g.under && r.P(0.7) {
			return
		}
		lo := math.Max(60, 3*g.size)
		if r.P(0.15) {
			lo = 2 // narrower than a character, perhaps
		}
		g.op(Op{K: "multicell", S: []string{g.para()}, F: []float64{g.ln(lo, lo+150), g.ln(60, 300)}, I: []int{simrt.Pick(r, 8, 2, 16, 64), r.Intn(5)}, T: g.trp(0.2)})
	case "mcell":
		lo := math.Max(60, 3*g.size)
		if r.P(0.15) {
			lo = 2
		}
		o := Op{K: "mcell", S: []string{g.str(4 + r.Intn(40))}, F: []float64{g.ln(lo, lo+150), g.ln(20, 200)}}
		if r.P(0.3) {
			o.I = []int{1}
		}
		g.op(o)
	case "move":
		switch r.Intn(5) {
		case 0:
			g.op(Op{K: "setx", F: []float64{g.x()}})
		case 1:
			g.op(Op{K: "sety", F: []float64{g.y()}})
		case 2, 3:
			g.op(Op{K: "setxy", F: []float64{g.x(), g.y()}})
		case 4:
			g.op(Op{K: "br", F: []float64{g.wl(2, 40)}})
		}
	case "margin":
		if r.P(0.2) {
			g.op(Op{K: "units", F: []float64{g.x()}})
			break
		}
		g.op(Op{K: "margin", S: []string{simrt.Pick(r, "left", "top", "right", "bottom", "bottom", "oldleft", "oldtop")}, F: []float64{g.ln(0, 60)}})
	case "newy":
		if g.k == 1 && r.P(0.2) {
			g.exactHeight()
			return
		}
		h := g.ln(5, 120)
		y := g.y()
		if r.P(0.3) {
			y = r2(g.ph() - g.ln(0, 60))
		}
		g.balance()
		switch r.Intn(3) {
		case 0:
			g.op(Op{K: "newy", F: []float64{y, h}})
		case 1:
			g.op(Op{K: "newyno", F: []float64{y, h}})
		case 2:
			g.op(Op{K: "newxy", F: []float64{y, h, g.x()}})
		}
		// a page may have been added: the model knows, the generator only needs
		// its own page list to stay an upper bound of what exists
	case "color":
		switch r.Intn(6) {
		case 0, 1:
			g.op(Op{K: "textcolor", I: g.rgb()})
		case 2:
			g.op(Op{K: "fillcolor", I: g.rgb()})
		case 3:
			g.op(Op{K: "strokecolor", I: g.rgb()})
		case 4:
			g.op(Op{K: "grayfill", F: []float64{simrt.Pick(r, 0, 0.25, 0.5, 0.75, 1, r2(r.F()))}})
		case 5:
			g.op(Op{K: "graystroke", F: []float64{simrt.Pick(r, 0, 0.25, 0.5, 1, r2(r.F()))}})
		}
	case "stroke":
		switch r.Intn(4) {
		case 0, 1:
			g.op(Op{K: "lw", F: []float64{math.Abs(g.wl(0.2, 6))}})
		case 2:
			g.op(Op{K: "ltype", S: []string{simrt.Pick(r, "dashed", "dotted", "", "solid")}})
		case 3:
			f := []float64{}
			for i := 0; i < r.Intn(4); i++ {
				f = append(f, g.ln(1, 10))
			}
			g.op(Op{K: "dash", F: append(f, g.ln(0, 5))})
		}
	case "path":
		g.path()
	case "rotate":
		g.op(Op{K: "rotate", F: []float64{simrt.Pick(r, 90, 45, -30, 180, 270, r1(r.F()*360)), g.x(), g.y()}})
		g.depth++
	case "save":
		g.op(Op{K: "save"})
		g.depth++
	case "unwind":
		if g.depth > 0 {
			g.depth--
			g.op(Op{K: simrt.Pick(r, "restore", "rotreset")})
		}
	case "clip":
		if g.depth == 0 {
			g.op(Op{K: "save"})
			g.depth++
		}
		var f []float64
		for i := 0; i < 3+r.Intn(3); i++ {
			f = append(f, g.x(), g.y())
		}
		g.op(Op{K: "clip", F: f})
	case "settr":
		if r.P(0.3) {
			g.op(Op{K: "cleartr"})
		} else {
			g.op(Op{K: "settr", T: g.tr()})
		}
	case "addcs":
		g.addcs()
	case "setcs":
		if len(g.spaces) == 0 || r.P(0.1) {
			g.op(Op{K: "setcs", S: []string{"NoSuchSpot"}})
		} else {
			g.op(Op{K: "setcs", S: []string{g.spaces[r.Intn(len(g.spaces))]}})
		}
	case "font":
		g.addFont()
		g.setFont()
	case "setfont":
		if r.P(0.1) {
			g.op(Op{K: "setfont", S: []string{"nosuchfamily", ""}, F: []float64{12}})
		} else if r.P(0.25) {
			g.size = simrt.Pick(r, 8, 10, 12, 9.5, 20)
			g.op(Op{K: "fontsize", F: []float64{g.size}})
		} else {
			g.setFont()
		}
	case "spacing":
		g.op(Op{K: "spacing", F: []float64{simrt.Pick(r, 0, 0, g.wl(0, 3))}})
	case "page":
		g.addPage()
	case "setpage":
		g.balanceMaybe()
		n := 1 + r.Intn(len(g.pages))
		if r.P(0.08) {
			g.op(Op{K: "setpage", I: []int{simrt.Pick(r, 0, -1, 1000)}})
			return
		}
		g.op(Op{K: "setpage", I: []int{n}})
		g.page = n - 1
	case "image":
		g.image(0)
	case "mask":
		g.image(1)
	case "imagefrom":
		m := &ImgOp{X: g.x(), Y: g.y(), Format: simrt.Pick(r, "png", "jpeg", "png", "jpeg"), Route: simrt.Pick(r, "", "opt")}
		if r.P(0.7) {
			m.Rect = []float64{g.ln(5, 150), g.ln(5, 150)}
		}
		if r.P(0.06) {
			m.Format = "bmp"
			m.Route = "opt"
		}
		sz := simrt.Pick(r, 3, 12, 12, 40, 120)
		o := Op{K: "imagefrom", Img: m, I: []int{1 + r.Intn(sz), 1 + r.Intn(sz), int(r.U64() >> 40), 0}}
		if r.P(0.6) {
			o.I[3] = r.Intn(imgx.NoiseKinds)
		}
		if r.P(0.03) { // cannot be encoded
			if m.Format == "jpeg" && r.P(0.5) {
				o.I[0], o.I[1], o.I[3] = 1<<16, 1, 3
			} else {
				o.I[r.Intn(2)], o.I[3] = 0, 0
			}
		}
		g.op(o)
	case "extlink":
		g.op(Op{K: "extlink", S: []string{g.url()}, F: []float64{g.x(), g.y(), g.wl(5, 90), g.wl(5, 40)}})
	case "intlink":
		a := anchorName(r)
		g.op(Op{K: "intlink", S: []string{a}, F: []float64{g.x(), g.y(), g.wl(5, 90), g.wl(5, 40)}})
	case "anchor":
		g.op(Op{K: "anchor", S: []string{anchorName(r)}})
	case "outline":
		switch {
		case g.nodes:
		case !g.flat && r.P(0.3):
			n := 1 + r.Intn(7)
			if r.P(0.3) {
				n = 8 + r.Intn(30)
			}
			o := Op{K: "onodes"}
			for i := 0; i < n; i++ {
				o.S = append(o.S, g.title())
				p := -1
				switch k := r.Intn(10); {
				case i == 0 || k < 3:
				case k < 6: // a sibling of the node before
					p = o.I[i-1]
				case k < 8: // its child
					p = i - 1
				default:
					p = r.Intn(i)
				}
				o.I = append(o.I, p)
			}
			g.nodes = true
			g.op(o)
		default:
			g.flat = true
			g.op(Op{K: simrt.Pick(r, "outline", "outlinepos"), S: []string{g.title()}})
		}
	case "ph":
		n := simrt.Pick(r, "p0", "p1", "p2", "P0", "p 1")
		g.op(Op{K: "setxy", F: []float64{g.x(), g.y()}})
		width := g.ln(10, 80)
		if r.P(0.1) {
			width = 0
		}
		g.op(Op{K: "ph", S: []string{n}, F: []float64{width}})
		g.holes = append(g.holes, n)
		if r.P(0.3) { // text goes on where the placeholder ends
			g.op(Op{K: "text", S: []string{g.text()}})
		}
		g.op(Op{K: "setxy", F: []float64{g.x(), g.y()}})
	case "fill":
		if len(g.holes) == 0 || r.P(0.08) {
			g.op(Op{K: "fill", S: []string{"nosuchhole", "x"}, I: []int{8}})
			return
		}
		var t []rune
		for i := 0; i < 1+r.Intn(6); i++ {
			t = append(t, simrt.Pick(r, 'a', '1', '2', 'é', 'B', g.cur.runes[r.Intn(len(g.cur.runes))]))
		}
		g.op(Op{K: "fill", S: []string{g.holes[r.Intn(len(g.holes))], string(t)}, I: []int{simrt.Pick(r, 8, 2, 16)}})
	case "import":
		i := r.Intn(len(g.w.PDFs))
		f := []float64{g.x(), g.y(), g.ln(30, 200), g.ln(30, 200)}
		if r.P(0.2) {
			f[2] = 0
		} else if r.P(0.2) {
			f[3] = 0
		} else if r.P(0.1) {
			f[2], f[3] = 0, 0
		}
		pg := 1 + r.Intn(g.w.PDFs[i].Pages)
		if g.w.PDFs[i].Sizes {
			pg = 1 // gofpdi takes the boxes of page 1 for every page
		}
		g.imported++
		route := simrt.Pick(r, "path", "stream", "streamvar")
		if g.d.Imp && g.w.PDFs[i].Box == "" && (g.manual == 0 || g.manual == i+1) && r.P(0.5) {
			route, g.manual = "manual", i+1 // gofpdi repeats its names for other sources
		}
		g.op(Op{K: "import", S: []string{route}, I: []int{i, pg}, F: f})
	case "usetpl":
		if g.imported > 0 {
			g.op(Op{K: "usetpl", I: []int{r.Intn(50)}, F: []float64{g.x(), g.y(), g.ln(30, 200), g.ln(30, 200)}})
		}
	case "psizes":
		g.op(Op{K: "psizes", S: []string{simrt.Pick(r, "path", "stream", "streamvar")}, I: []int{r.Intn(len(g.w.PDFs))}})
	case "importall":
		i := r.Intn(len(g.w.PDFs))
		if g.w.PDFs[i].Sizes {
			break
		}
		g.balance()
		g.op(Op{K: "importall", S: []string{simrt.Pick(r, "path", "bytes", "stream", "streamvar", "reader")}, I: []int{i}})
		for k := 0; k < g.w.PDFs[i].Pages; k++ {
			g.pages = append(g.pages, [2]float64{g.d.W, g.d.H})
		}
		g.page = len(g.pages) - 1
	case "info":
		g.info()
	case "measure":
		if g.k == 1 && r.P(0.15) {
			g.exactWidth()
			return
		}
		g.op(Op{K: "measure", S: []string{g.text()}})
	case "fit":
		o := Op{K: "fit", S: []string{g.str(4 + r.Intn(40))}, F: []float64{g.ln(30, 200), g.ln(20, 200)}}
		if r.P(0.5) {
			o.K, o.S[0] = "fitnl", g.para()
		}
		g.op(o)
	case "table":
		g.table()
	case "hasglyph":
		g.op(Op{K: "hasglyph", I: []int{int(simrt.Pick(r, 'A', 'z', '漢', g.cur.runes[r.Intn(len(g.cur.runes))]))}})
	case "cuse":
		if g.w.Conts == 0 {
			return
		}
		op := Op{K: "cuse", S: []string{simrt.Pick(r, "race0", "race1")}, I: []int{r.Intn(g.w.Conts)}}
		g.op(op)
	case "contadd":
		if g.w.Conts == 0 {
			return
		}
		f := r.Intn(len(g.fonts))
		op := Op{K: "contadd", S: []string{simrt.Pick(r, "race0", "race1"), simrt.Pick(r, "data", "reader")}, I: []int{f, 0, 0, 0, r.Intn(g.w.Conts)}}
		if op.S[1] == "reader" {
			op.Src = g.src(len(ttfx.Build(g.w.Fonts[f])))
		}
		g.op(op)
	case "badsrc":
		g.badSource()
	case "bad":
		g.bad()
	case "corruptfont":
		g.op(Op{K: "corrupt", I: []int{0, r.Intn(len(g.w.Fonts)), int(r.U64() >> 33), r.Intn(3)}, Src: g.src(100)})
	case "corruptimg":
		g.op(Op{K: "corrupt", I: []int{1, r.Intn(len(g.w.Images)), int(r.U64() >> 33), r.Intn(3)}, Src: g.src(100)})
	default:
		panic("simulator: generator has no " + k)
	}
}

func (g *gdoc) path() {
	r := g.r
	st := func(a ...string) string { return simrt.Pick(r, a...) }
	switch r.Intn(10) {
	case 0, 1:
		g.op(Op{K: "line", F: []float64{g.x(), g.y(), g.x(), g.y()}})
	case 2:
		o := Op{K: simrt.Pick(r, "rectlo", "rectup"), F: []float64{g.x(), g.y(), g.wl(2, 200), g.wl(2, 200)}}
		if r.P(0.6) {
			o.S = []string{st("D", "F", "DF", "FD", "")}
		}
		g.op(o)
	case 3:
		g.op(Op{K: "rectopt", F: []float64{g.x(), g.y(), g.wl(2, 200), g.wl(2, 200)}, S: []string{st("S", "f", "B")}, I: []int{r.Intn(2)}, T: g.trp(0.4)})
	case 4:
		g.op(Op{K: "oval", F: []float64{g.x(), g.y(), g.x(), g.y()}})
	case 5:
		g.op(Op{K: "curve", F: []float64{g.x(), g.y(), g.x(), g.y(), g.x(), g.y(), g.x(), g.y()}, S: []string{st("D", "F", "DF", "")}})
	case 6, 7:
		var f []float64
		n := 3 + r.Intn(4)
		if g.wild && r.P(0.2) {
			n = 1 + r.Intn(2)
		}
		for i := 0; i < n; i++ {
			f = append(f, g.x(), g.y())
		}
		g.op(Op{K: "polygon", F: f, S: []string{st("D", "F", "DF", "FD", "")}})
	case 8, 9:
		x, y := g.x(), g.y()
		w, h := g.ln(5, 150), g.ln(5, 150)
		o := Op{K: "rectangle", F: []float64{x, y, r2(x + w), r2(y + h), 0}, S: []string{st("D", "F", "DF", "")}, I: []int{0}}
		if r.P(0.5) {
			o.F[4] = r2(math.Min(w, h) * (0.1 + 0.4*r.F()))
			o.I[0] = 1 + r.Intn(5)
			switch {
			case r.P(0.1):
				o.F[4] = r2(math.Min(w, h) * (0.5 + 0.45*r.F()))
			case r.P(0.1): // as long as the shorter side
				x, y := float64(r.Intn(200)), float64(r.Intn(200))
				w, h := float64(5+r.Intn(100)), float64(5+r.Intn(100))
				o.F = []float64{x, y, x + w, y + h, math.Min(w, h)}
			}
		}
		if r.P(0.08) {
			o.F[2] = o.F[0]
		}
		g.op(o)
	}
}

func (g *gdoc) imgOp(idx int) *ImgOp {
	r := g.r
	m := &ImgOp{Idx: idx, X: g.x(), Y: g.y(), Route: simrt.Pick(r, "bytes", "reader", "holder", "scrib")}
	if r.P(0.7) {
		m.Rect = []float64{g.ln(5, 150), g.ln(5, 150)}
		if r.P(0.04) {
			m.Named = 1 + r.Intn(len(pageSizes))
			s := g.named(m.Named)
			m.Rect = s[:]
		}
	}
	return m
}

func (g *gdoc) image(mask int) {
	r := g.r
	m := g.imgOp(r.Intn(len(g.w.Images)))
	o := Op{K: "image", Img: m, Src: g.src(60)}
	opts := func(m *ImgOp) {
		if r.P(0.3) {
			m.Angle = simrt.Pick(r, 90, 45, -30, 180, r1(r.F()*360))
		}
		m.V, m.H = r.P(0.2), r.P(0.2)
		m.T = g.trp(0.35)
	}
	crop := func(m *ImgOp) {
		if m.Rect != nil && m.Named == 0 && r.P(0.2) {
			m.Crop = []float64{r3(m.Rect[0] * 0.2 * r.F()), r3(m.Rect[1] * 0.2 * r.F()), r3(m.Rect[0] * (0.2 + 0.5*r.F())), r3(m.Rect[1] * (0.2 + 0.5*r.F()))}
		}
	}
	switch {
	case mask == 1:
		var ms []int
		for i, s := range g.w.Images {
			if s.Kind == "png" && (s.CT == 4 || s.CT == 6) {
				ms = append(ms, i)
			}
		}
		if len(ms) == 0 {
			return
		}
		o.S = []string{"opt"}
		opts(m)
		crop(m)
		k := g.imgOp(ms[r.Intn(len(ms))])
		opts(k)
		crop(k)
		k.Route = simrt.Pick(r, "bytes", "holder", "reader")
		if r.P(0.3) {
			k.Reuse = 1 + r.Intn(2)
			for _, p := range g.d.Ops {
				if p.K == "image" && p.Img.Mask != nil && p.Img.Mask.Reuse == k.Reuse {
					c := *p.Img.Mask // the same options value is used again
					k = &c
				}
			}
		}
		if k.BBox == nil && r.P(0.4) && k.Reuse == 0 {
			k.BBox = []float64{r2(g.x() * g.k), r2(g.y() * g.k), r2(g.pw() * g.k), r2(g.ph() * g.k)}
		}
		m.Mask = k
	case r.P(0.2):
		m.Route = "path"
		if g.p.Race {
			m.Route = "bytes"
		} else {
			o.Disk = g.readDisk(40)
			if o.Disk == nil && r.P(0.4) {
				o.S = []string{"reused"}
			}
		}
	case r.P(0.6):
		o.S = []string{"opt"}
		opts(m)
		crop(m)
	}
	if m.Route != "path" && !g.p.Race && m.Reuse == 0 && r.P(0.1) {
		m.Route = "pathholder"
		o.Disk = g.readDisk(40)
	}
	if m.Route == "path" || m.Route == "pathholder" {
		o.Src = nil
	} else {
		o.Disk = nil
	}
	if m.Route != "reader" && (m.Mask == nil || m.Mask.Route != "reader") {
		o.Src = nil
	}
	g.op(o)
}

func (g *gdoc) out(final bool) {
	r, p := g.r, g.p
	o := Op{K: "out", S: []string{p.Routes[r.Intn(len(p.Routes))]}, I: []int{int(r.U64() >> 40)}}
	switch o.S[0] {
	case "writeto", "write":
		if r.P(p.Sink) {
			o.Sink = &SinkPlan{FailAt: 1 + r.Intn(simrt.Pick(r, 60, 2000, 20000)), Short: r.P(0.5), Once: r.P(0.4)}
			if r.P(0.15) {
				o.Sink.Lie, o.Sink.Short = true, false
			}
			o.Sink.Err = simrt.Pick(r, ErrKinds...)
		}
	case "path":
		if r.P(p.DiskOut) {
			o.Disk = &DiskPlan{Pre: r.P(0.3)}
			switch r.Intn(5) {
			case 0:
				o.Disk.Open = true
			case 1:
				o.Disk.Close = true
			default:
				o.Disk.FailAt, o.Disk.Short = 1+r.Intn(simrt.Pick(r, 60, 2000, 20000)), r.P(0.6)
			}
			o.Disk.Err = simrt.Pick(r, "", "quota", "noent", "rofs", "mfile", "stale")
		} else if r.P(0.4) {
			o.Disk = &DiskPlan{Pre: true}
		}
	}
	g.op(o)
	if r.P(0.35) && (o.Sink != nil || r.P(0.4)) {
		q := Op{K: "out", S: []string{p.Routes[r.Intn(len(p.Routes))]}, I: []int{int(r.U64() >> 40)}}
		g.op(q)
	}
	_ = final
}

func anchorName(r *simrt.Rand) string {
	return simrt.Pick(r, "a0", "a1", "a2", "a3", "A1", "a1 ")
}
