// Package ttfx is an independent TrueType reader and a generator of small
// synthetic fonts. It shares no code with the code under test.
package ttfx

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
)

// Font is what the properties need to know about a font program.
type Font struct {
	UPM, NumGlyphs         int
	Asc, Desc              int // hhea
	TypoAsc, TypoDesc      int
	ULPos, ULThick         int
	Adv                    []int
	Map                    map[rune]int
	Kern                   map[[2]int]int
	loca                   []int
	glyf                   []byte
	outl                   map[int]uint64
	XMin, YMin, XMax, YMax int
	lsb                    []int
	hint                   uint64 // cvt, fpgm and prep
}

func u16(b []byte, o int) int { return int(binary.BigEndian.Uint16(b[o:])) }
func s16(b []byte, o int) int { return int(int16(binary.BigEndian.Uint16(b[o:]))) }
func u32(b []byte, o int) int { return int(binary.BigEndian.Uint32(b[o:])) }

// Tables returns the table directory.
func Tables(b []byte) (m map[string][]byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("truncated font: %v", r)
		}
	}()
	if u32(b, 0) != 0x00010000 {
		return nil, fmt.Errorf("bad sfnt version")
	}
	m = map[string][]byte{}
	n := u16(b, 4)
	for i := 0; i < n; i++ {
		e := b[12+16*i:]
		o, l := u32(e, 8), u32(e, 12)
		if o+l > len(b) {
			return nil, fmt.Errorf("table %q runs past the font (%d+%d > %d)", e[:4], o, l, len(b))
		}
		m[string(e[:4])] = b[o : o+l]
	}
	return m, nil
}

// Directory checks what an embedded subset's table directory says: the search
// values, the order and place of the tables, and the checksums of those that
// are made for the subset.
func Directory(b []byte) string {
	n := u16(b, 4)
	sel := 0
	for 2<<sel <= n {
		sel++
	}
	if u16(b, 6) != 16<<sel || u16(b, 8) != sel || u16(b, 10) != 16*n-16<<sel {
		return fmt.Sprintf("search values %d %d %d of a directory of %d tables", u16(b, 6), u16(b, 8), u16(b, 10), n)
	}
	end := 12 + 16*n
	for i := 0; i < n; i++ {
		e := b[12+16*i:]
		tag, o, l := string(e[:4]), u32(e, 8), u32(e, 12)
		if i > 0 && tag <= string(b[12+16*i-16:12+16*i-12]) {
			return fmt.Sprintf("table %q is out of order", tag)
		}
		if o%4 != 0 || o < end {
			return fmt.Sprintf("table %q at %d lies over what is before it, up to %d", tag, o, end)
		}
		end = o + l
		if tag == "glyf" || tag == "loca" {
			sum := uint32(0)
			p := append(append([]byte{}, b[o:o+l]...), 0, 0, 0)
			for k := 0; k+3 < len(p); k += 4 {
				sum += uint32(u32(p, k))
			}
			if sum != uint32(u32(e, 4)) {
				return fmt.Sprintf("checksum %08x of table %q, want %08x", u32(e, 4), tag, sum)
			}
		}
	}
	return ""
}

// Read parses a font. cmap, OS/2, post and kern are optional (a subset embedded
// in a PDF has none).
func Read(b []byte) (f *Font, err error) {
	defer func() {
		if r := recover(); r != nil {
			f, err = nil, fmt.Errorf("malformed font: %v", r)
		}
	}()
	t, err := Tables(b)
	if err != nil {
		return nil, err
	}
	for _, k := range []string{"head", "hhea", "maxp", "hmtx", "loca", "glyf"} {
		if t[k] == nil {
			return nil, fmt.Errorf("no %q table", k)
		}
	}
	f = &Font{Map: map[rune]int{}, Kern: map[[2]int]int{}, outl: map[int]uint64{}}
	h := t["head"]
	if u32(h, 12) != 0x5F0F3CF5 {
		return nil, fmt.Errorf("bad head magic")
	}
	f.UPM = u16(h, 18)
	f.XMin, f.YMin, f.XMax, f.YMax = s16(h, 36), s16(h, 38), s16(h, 40), s16(h, 42)
	short := s16(h, 50) == 0
	f.NumGlyphs = u16(t["maxp"], 4)
	hh := t["hhea"]
	f.Asc, f.Desc = s16(hh, 4), s16(hh, 6)
	nh := u16(hh, 34)
	for i := 0; i < f.NumGlyphs; i++ {
		k := i
		if k >= nh {
			k = nh - 1
		}
		f.Adv = append(f.Adv, u16(t["hmtx"], 4*k))
		if i < nh {
			f.lsb = append(f.lsb, s16(t["hmtx"], 4*i+2))
		} else {
			f.lsb = append(f.lsb, s16(t["hmtx"], 4*nh+2*(i-nh)))
		}
	}
	for i := 0; i <= f.NumGlyphs; i++ {
		if short {
			f.loca = append(f.loca, 2*u16(t["loca"], 2*i))
		} else {
			f.loca = append(f.loca, u32(t["loca"], 4*i))
		}
		if i > 0 && f.loca[i] < f.loca[i-1] {
			return nil, fmt.Errorf("loca not monotonic at %d", i)
		}
		if f.loca[i] > len(t["glyf"]) {
			return nil, fmt.Errorf("loca[%d] past glyf", i)
		}
	}
	f.glyf = t["glyf"]
	hw := fnv.New64a()
	for _, k := range []string{"cvt ", "fpgm", "prep"} {
		fmt.Fprintf(hw, "%x;", t[k])
	}
	f.hint = hw.Sum64()
	if o := t["OS/2"]; o != nil {
		f.TypoAsc, f.TypoDesc = s16(o, 68), s16(o, 70)
	}
	if p := t["post"]; p != nil {
		f.ULPos, f.ULThick = s16(p, 8), s16(p, 10)
	}
	if c := t["cmap"]; c != nil {
		f.cmap(c)
	}
	if k := t["kern"]; k != nil && u16(k, 2) > 0 {
		o := 4
		np := u16(k, o+6)
		for i := 0; i < np; i++ {
			e := o + 14 + 6*i
			f.Kern[[2]int{u16(k, e), u16(k, e+2)}] = s16(k, e+4)
		}
	}
	return f, nil
}

func (f *Font) cmap(c []byte) {
	n := u16(c, 2)
	for i := 0; i < n; i++ {
		p, e, o := u16(c, 4+8*i), u16(c, 6+8*i), u32(c, 8+8*i)
		if p != 3 {
			continue
		}
		s := c[o:]
		switch {
		case e == 1 && u16(s, 0) == 4:
			seg := u16(s, 6) / 2
			end, start, delta, ro := 14, 16+2*seg, 16+4*seg, 16+6*seg
			for k := 0; k < seg; k++ {
				e, st, d, r := u16(s, end+2*k), u16(s, start+2*k), u16(s, delta+2*k), u16(s, ro+2*k)
				for ch := st; ch <= e && ch != 0xFFFF; ch++ {
					g := 0
					if r == 0 {
						g = (ch + d) & 0xFFFF
					} else {
						g = u16(s, ro+2*k+r+2*(ch-st))
						if g != 0 {
							g = (g + d) & 0xFFFF
						}
					}
					if g != 0 {
						f.Map[rune(ch)] = g
					}
				}
			}
		case e == 10 && u16(s, 0) == 12:
			ng := u32(s, 12)
			for k := 0; k < ng; k++ {
				st, en, g := u32(s, 16+12*k), u32(s, 20+12*k), u32(s, 24+12*k)
				for ch := st; ch <= en; ch++ {
					if ch > 0xFFFF {
						f.Map[rune(ch)] = g + ch - st
					}
				}
			}
		}
	}
}

// Outline digests all that makes a glyph: its outline, components included, the
// programs its instructions call, its metrics and its scale.
func (f *Font) Outline(g int) (h uint64, err error) {
	if v, ok := f.outl[g]; ok {
		return v, nil
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("glyph %d: malformed outline", g)
		}
	}()
	h, err = f.outline(g, 0)
	if err == nil {
		w := fnv.New64a()
		fmt.Fprint(w, h, f.hint, f.UPM, f.Adv[g], f.lsb[g])
		h = w.Sum64()
		f.outl[g] = h
	}
	return
}

func (f *Font) outline(g, depth int) (uint64, error) {
	if g < 0 || g >= f.NumGlyphs {
		return 0, fmt.Errorf("glyph %d out of range", g)
	}
	if depth > 16 {
		return 0, fmt.Errorf("glyph %d: components nested too deep", g)
	}
	d := f.glyf[f.loca[g]:f.loca[g+1]]
	w := fnv.New64a()
	if len(d) == 0 {
		return 1, nil
	}
	if s16(d, 0) >= 0 {
		// simple glyph: trailing padding is not part of it
		n := simpleLen(d)
		if n > len(d) {
			return 0, fmt.Errorf("glyph %d truncated", g)
		}
		w.Write(d[:n])
		return w.Sum64(), nil
	}
	w.Write(d[:10])
	o := 10
	for {
		fl, c := u16(d, o), u16(d, o+2)
		n := 4
		if fl&1 != 0 {
			n += 4
		} else {
			n += 2
		}
		switch {
		case fl&8 != 0:
			n += 2
		case fl&0x40 != 0:
			n += 4
		case fl&0x80 != 0:
			n += 8
		}
		w.Write(d[o : o+2])
		w.Write(d[o+4 : o+n])
		ch, err := f.outline(c, depth+1)
		if err != nil {
			return 0, err
		}
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], ch)
		w.Write(b[:])
		o += n
		if fl&0x20 == 0 {
			break
		}
	}
	return w.Sum64(), nil
}

func simpleLen(d []byte) int {
	nc := s16(d, 0)
	if nc == 0 {
		return 10
	}
	np := u16(d, 10+2*(nc-1)) + 1
	o := 10 + 2*nc
	o += 2 + u16(d, o)
	x, y := 0, 0
	for i := 0; i < np; {
		fl := d[o]
		o++
		r := 1
		if fl&8 != 0 {
			r += int(d[o])
			o++
		}
		for ; r > 0 && i < np; r-- {
			if fl&2 != 0 {
				x++
			} else if fl&16 == 0 {
				x += 2
			}
			if fl&4 != 0 {
				y++
			} else if fl&32 == 0 {
				y += 2
			}
			i++
		}
	}
	return o + x + y
}

// Width is the advance in thousandths of an em, truncated.
func (f *Font) Width(g int) int {
	if g >= len(f.Adv) {
		g = len(f.Adv) - 1
	}
	return f.Adv[g] * 1000 / f.UPM
}
