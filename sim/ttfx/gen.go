package ttfx

import (
	"encoding/binary"
	"sort"

	"verifsim/simrt"
)

// Spec describes a synthetic font; every field is part of the replay file.
type Spec struct {
	Seed      uint64 `json:"seed"`
	Glyphs    int    `json:"glyphs"`
	UPM       int    `json:"upm"`
	Short     bool   `json:"short,omitempty"`
	Cmap12    bool   `json:"cmap12,omitempty"`
	Kern      bool   `json:"kern,omitempty"`
	Composite bool   `json:"composite,omitempty"`
	Nested    bool   `json:"nested,omitempty"`
	OS2v1     bool   `json:"os2v1,omitempty"`
	NHM       int    `json:"nhm,omitempty"`   // hmtx entries, 0: all
	Bare      bool   `json:"bare,omitempty"`  // no cvt/fpgm/prep
	Heavy     bool   `json:"heavy,omitempty"` // glyphs with long programs
	RangeOff  bool   `json:"range_off,omitempty"`
}

// DrawSpec draws a font description.
func DrawSpec(r *simrt.Rand) Spec {
	n := r.Range(8, 120)
	if r.P(0.08) {
		n = r.Range(200, 700)
	}
	s := Spec{Seed: r.U64() >> 16, Glyphs: n, UPM: simrt.Pick(r, 1000, 2048, 1024, 512)}
	s.Short = r.P(0.5)
	s.Cmap12 = r.P(0.4)
	s.Kern = r.P(0.5)
	s.Composite = r.P(0.6)
	s.Nested = s.Composite && r.P(0.4)
	s.OS2v1 = r.P(0.2)
	s.Bare = r.P(0.3)
	s.RangeOff = r.P(0.4)
	if r.P(0.04) {
		s.Heavy, s.Short, s.Glyphs = true, false, r.Range(8, 20)
	}
	if r.P(0.3) {
		s.NHM = r.Range(1, s.Glyphs)
	}
	return s
}

type w struct{ b []byte }

func (w *w) u16(v ...int) {
	for _, x := range v {
		w.b = binary.BigEndian.AppendUint16(w.b, uint16(x))
	}
}
func (w *w) u32(v ...int) {
	for _, x := range v {
		w.b = binary.BigEndian.AppendUint32(w.b, uint32(x))
	}
}
func (w *w) pad(n int) {
	for len(w.b)%n != 0 {
		w.b = append(w.b, 0)
	}
}

// Runes is the pool of characters synthetic fonts map.
var Runes = func() []rune {
	var o []rune
	for c := rune(0x20); c < 0x7F; c++ {
		o = append(o, c)
	}
	for c := rune(0xA1); c < 0x17F; c++ {
		o = append(o, c)
	}
	for c := rune(0x391); c < 0x3C9; c++ {
		o = append(o, c)
	}
	for c := rune(0xE01); c < 0xE2F; c++ {
		o = append(o, c)
	}
	return o
}()

// HighRunes are outside the BMP.
var HighRunes = []rune{0x1F600, 0x1F601, 0x1F602, 0x1F680, 0x10400, 0x10401, 0x20000}

// Build makes the font program.
func Build(s Spec) []byte {
	r := simrt.NewRand(s.Seed)
	ng := s.Glyphs
	if ng < 4 {
		ng = 4
	}
	// glyph 0 .notdef, 1.. characters
	m := map[rune]int{}
	m[' '] = 1
	next := 2
	pool := append([]rune{}, Runes[1:]...)
	// favour a run of ASCII letters
	start := r.Intn(60)
	for i := 0; next < ng; i++ {
		var c rune
		if i < len(pool) && r.P(0.75) {
			c = pool[(start+i)%len(pool)]
		} else {
			c = pool[r.Intn(len(pool))]
		}
		if _, dup := m[c]; dup {
			next += 0
			if i > 4*ng {
				break
			}
			continue
		}
		if r.P(0.05) && len(m) > 3 {
			m[c] = 1 + r.Intn(next-1) // two characters share a glyph
			continue
		}
		m[c] = next
		next++
	}
	if s.Cmap12 {
		for i, c := range HighRunes {
			m[c] = 1 + (i*7+int(s.Seed%11))%(ng-1)
		}
	}
	// glyphs
	glyf := &w{}
	loca := []int{0}
	depth := make([]int, ng) // how deep the components of a glyph nest
	for g := 0; g < ng; g++ {
		at := len(glyf.b)
		nested := s.Nested && g > 6 && r.P(0.25)
		switch {
		case g == 1: // space: no outline
		case s.Composite && g > 3 && (nested || r.P(0.3)):
			glyf.u16(0xFFFF, 0, 0, r.Intn(900), r.Intn(900))
			nc := 1 + r.Intn(3)
			for k := 0; k < nc; k++ {
				fl := 0
				if r.P(0.5) {
					fl |= 1
				}
				sc := r.Intn(4)
				switch sc {
				case 1:
					fl |= 8
				case 2:
					fl |= 0x40
				case 3:
					fl |= 0x80
				}
				if k < nc-1 {
					fl |= 0x20
				}
				c := 2
				if nested {
					c = 2 + r.Intn(g-2)
				} else {
					c = 2 + r.Intn(2) // 2 and 3 are always simple
				}
				if !nested && r.P(0.3) {
					c = 0
				}
				if depth[c] >= 6 {
					c = 2
				}
				depth[g] = max(depth[g], depth[c]+1)
				glyf.u16(fl, c)
				if fl&1 != 0 {
					glyf.u16(r.Intn(300), r.Intn(300))
				} else {
					glyf.b = append(glyf.b, byte(r.Intn(100)), byte(r.Intn(100)))
				}
				for q := 0; q < []int{0, 1, 2, 4}[sc]; q++ {
					glyf.u16(0x2000 + r.Intn(0x2000))
				}
			}
		default:
			n := 1 + r.Intn(3)
			glyf.u16(n, r.Intn(50), -r.Intn(200), 400+r.Intn(500), 400+r.Intn(600))
			pts := 0
			for k := 0; k < n; k++ {
				pts += 3 + r.Intn(3)
				glyf.u16(pts - 1)
			}
			ins := r.Intn(4)
			if s.Heavy {
				ins = r.Range(10000, 30000)
			}
			glyf.u16(ins)
			for k := 0; k < ins; k++ {
				glyf.b = append(glyf.b, byte(r.U64()))
			}
			var fl []byte
			for k := 0; k < pts; k++ {
				fl = append(fl, 1|2|4|byte(r.Intn(2)*16)|byte(r.Intn(2)*32))
			}
			glyf.b = append(glyf.b, fl...)
			for k := 0; k < 2*pts; k++ {
				glyf.b = append(glyf.b, byte(r.U64()))
			}
		}
		if s.Short {
			for (len(glyf.b)-at)%2 != 0 {
				glyf.b = append(glyf.b, 0)
			}
		} else if r.P(0.5) {
			for (len(glyf.b)-at)%4 != 0 {
				glyf.b = append(glyf.b, 0)
			}
		}
		loca = append(loca, len(glyf.b))
	}
	nhm := s.NHM
	if nhm <= 0 || nhm > ng {
		nhm = ng
	}
	hmtx := &w{}
	for g := 0; g < ng; g++ {
		a := s.UPM/4 + r.Intn(s.UPM)
		if g > 2 && r.P(0.06) { // combining marks have no width
			a = simrt.Pick(r, 0, 0, s.UPM)
		}
		if g < nhm {
			hmtx.u16(a, r.Intn(50))
		} else {
			hmtx.u16(r.Intn(50))
		}
	}
	lo := &w{}
	for _, o := range loca {
		if s.Short {
			lo.u16(o / 2)
		} else {
			lo.u32(o)
		}
	}
	head := &w{}
	head.u32(0x10000, 0x10000, 0, 0x5F0F3CF5)
	head.u16(0, s.UPM)
	head.u32(0, 0, 0, 0)
	head.u16(-r.Intn(100), -300, 900, 900+r.Intn(300), 0, 8, 2)
	if s.Short {
		head.u16(0)
	} else {
		head.u16(1)
	}
	head.u16(0)
	hhea := &w{}
	hhea.u32(0x10000)
	asc, desc := s.UPM*8/10+r.Intn(s.UPM/10), -s.UPM*2/10-r.Intn(s.UPM/20)
	hhea.u16(asc, desc, 0, s.UPM, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, nhm)
	maxp := &w{}
	maxp.u32(0x10000)
	maxp.u16(ng, 40, 4, 40, 4, 2, 0, 0, 0, 0, 0, 0, 3, 3)
	// cmap
	var chars []int
	for c := range m {
		if c <= 0xFFFF {
			chars = append(chars, int(c))
		}
	}
	sort.Ints(chars)
	type sg struct{ s, e int }
	var segs []sg
	for _, c := range chars {
		if n := len(segs); n > 0 && segs[n-1].e == c-1 && (s.RangeOff || m[rune(c)]-m[rune(c-1)] == 1) {
			segs[n-1].e = c
		} else {
			segs = append(segs, sg{c, c})
		}
	}
	segs = append(segs, sg{0xFFFF, 0xFFFF})
	var ends, starts, deltas, ros, gids []int
	for i, g := range segs {
		ends = append(ends, g.e)
		starts = append(starts, g.s)
		if g.s == 0xFFFF {
			deltas = append(deltas, 1)
			ros = append(ros, 0)
			continue
		}
		lin := true
		for c := g.s; c <= g.e; c++ {
			if m[rune(c)]-m[rune(g.s)] != c-g.s {
				lin = false
			}
		}
		if lin {
			deltas = append(deltas, (m[rune(g.s)]-g.s)&0xFFFF)
			ros = append(ros, 0)
			continue
		}
		dl := 0
		if s.Seed%3 == 0 {
			dl = 3
		}
		deltas = append(deltas, dl)
		ros = append(ros, 2*(len(segs)-i)+2*len(gids))
		for c := g.s; c <= g.e; c++ {
			gids = append(gids, (m[rune(c)]-dl)&0xFFFF)
		}
	}
	f4 := &w{}
	f4.u16(4, 16+8*len(segs)+2*len(gids), 0, 2*len(segs), 2, 0, 0)
	f4.u16(ends...)
	f4.u16(0)
	f4.u16(starts...)
	f4.u16(deltas...)
	f4.u16(ros...)
	f4.u16(gids...)
	f4.pad(4)
	cm := &w{}
	nt := 2
	if s.Cmap12 {
		nt = 3
	}
	cm.u16(0, nt)
	o := 4 + 8*nt
	cm.u16(0, 3)
	cm.u32(o)
	cm.u16(3, 1)
	cm.u32(o)
	if s.Cmap12 {
		cm.u16(3, 10)
		cm.u32(o + len(f4.b))
	}
	cm.b = append(cm.b, f4.b...)
	if s.Cmap12 {
		var all []int
		for c := range m {
			all = append(all, int(c))
		}
		sort.Ints(all)
		f := &w{}
		f.u16(12, 0)
		f.u32(16+12*len(all), 0, len(all))
		for _, c := range all {
			f.u32(c, c, m[rune(c)])
		}
		cm.b = append(cm.b, f.b...)
	}
	// name
	ps := "SimFont-Regular"
	nm := &w{}
	nm.u16(0, 2, 6+24)
	nm.u16(1, 0, 0, 6, len(ps), 0)
	nm.u16(3, 1, 0x409, 6, 2*len(ps), len(ps))
	nm.b = append(nm.b, ps...)
	for _, c := range ps {
		nm.u16(int(c))
	}
	// OS/2
	os2 := &w{}
	if s.OS2v1 {
		os2.u16(1)
	} else {
		os2.u16(3)
	}
	os2.u16(s.UPM/2, 400, 5, 0)
	for i := 0; i < 11; i++ {
		os2.u16(0)
	}
	os2.b = append(os2.b, make([]byte, 10+16+4)...)
	os2.u16(64, chars[0], chars[len(chars)-1])
	os2.u16(asc-r.Intn(20), desc+r.Intn(20), 0, asc, -desc)
	os2.u32(0, 0)
	if !s.OS2v1 {
		os2.u16(s.UPM/2, s.UPM*7/10, 0, 0x20, 2)
	}
	post := &w{}
	post.u32(0x30000)
	post.u16(0, 0, -s.UPM/10, s.UPM/20)
	post.u32(0, 0, 0, 0, 0)
	tabs := map[string][]byte{"head": head.b, "hhea": hhea.b, "maxp": maxp.b, "hmtx": hmtx.b, "cmap": cm.b,
		"name": nm.b, "OS/2": os2.b, "post": post.b, "loca": lo.b, "glyf": glyf.b}
	if s.Kern {
		k := &w{}
		type pr struct{ l, r, v int }
		var prs []pr
		seen := map[[2]int]bool{}
		for i := 0; i < 40; i++ {
			p := pr{1 + r.Intn(ng-1), 1 + r.Intn(ng-1), r.Intn(s.UPM/4) - s.UPM/6}
			if !seen[[2]int{p.l, p.r}] {
				seen[[2]int{p.l, p.r}] = true
				prs = append(prs, p)
			}
		}
		k.u16(0, 1, 0, 14+6*len(prs), 1, len(prs), 0, 0, 0)
		for _, p := range prs {
			k.u16(p.l, p.r, p.v)
		}
		tabs["kern"] = k.b
	}
	if !s.Bare {
		tabs["cvt "] = []byte{0, 1, 0, 2}
		tabs["fpgm"] = []byte{1, 2, 3}
		tabs["prep"] = []byte{4, 5, 6, 7, 8}
	}
	var tags []string
	for t := range tabs {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	out := &w{}
	out.u32(0x10000)
	out.u16(len(tags), 128, 3, 16*len(tags)-128)
	off := 12 + 16*len(tags)
	for _, t := range tags {
		out.b = append(out.b, t...)
		sum := uint32(0)
		pb := append(append([]byte{}, tabs[t]...), 0, 0, 0)
		for i := 0; i+3 < len(pb); i += 4 {
			sum += binary.BigEndian.Uint32(pb[i:])
		}
		out.u32(int(sum), off, len(tabs[t]))
		off += (len(tabs[t]) + 3) &^ 3
	}
	for _, t := range tags {
		out.b = append(out.b, tabs[t]...)
		out.pad(4)
	}
	return out.b
}
