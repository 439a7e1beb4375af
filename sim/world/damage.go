package world

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"hash/crc32"
	"io"
	"sort"

	"verifsim/simrt"
)

var (
	b2 = binary.BigEndian.Uint16
	b4 = binary.BigEndian.Uint32
	p2 = binary.BigEndian.PutUint16
	p4 = binary.BigEndian.PutUint32
)

// damageFont damages a font with regard to its structure: the fields of one
// table, or components of composite glyphs that refer to each other.
func damageFont(c []byte, r *simrt.Rand) ([]byte, string) {
	c = append([]byte{}, c...)
	n := int(b2(c[4:]))
	tab := map[string][2]int{}
	var names []string
	for i := 0; i < n; i++ {
		e := c[12+16*i:]
		o, l := int(b4(e[8:])), int(b4(e[12:]))
		if o+l <= len(c) {
			tab[string(e[:4])] = [2]int{o, l}
			names = append(names, string(e[:4]))
		}
	}
	glyf, loca, head, maxp := tab["glyf"], tab["loca"], tab["head"], tab["maxp"]
	if r.P(0.3) && glyf[1] > 0 && head[1] >= 54 && maxp[1] >= 6 {
		num := int(b2(c[maxp[0]+4:]))
		long := b2(c[head[0]+50:]) != 0
		at := func(g int) int {
			if long {
				return glyf[0] + int(b4(c[loca[0]+4*g:]))
			}
			return glyf[0] + 2*int(b2(c[loca[0]+2*g:]))
		}
		var comp, simple []int
		for g := 0; g < num; g++ {
			if s, e := at(g), at(g+1); e >= s+16 && e <= len(c) {
				if int16(b2(c[s:])) < 0 {
					comp = append(comp, g)
				} else {
					simple = append(simple, g)
				}
			}
		}
		if len(comp) == 0 || r.P(0.2) { // make simple glyphs composite
			comp = append(comp, simple...)
		}
		if len(comp) > 0 {
			for k := 1 + r.Intn(3); k > 0; k-- {
				g, h := comp[r.Intn(len(comp))], comp[r.Intn(len(comp))]
				if r.P(0.4) {
					h = g
				}
				s := at(g)
				p2(c[s:], 0xFFFF)
				if r.P(0.3) { // more components follow than there are
					p2(c[s+10:], b2(c[s+10:])|32)
				}
				p2(c[s+12:], uint16(simrt.Pick(r, h, h, h, num, 0xFFFF)))
			}
			return c, "composite damage"
		}
	}
	t := tab[names[r.Intn(len(names))]]
	if r.P(0.3) { // the directory entry of a table
		e := c[12+16*r.Intn(n):]
		f := simrt.Pick(r, 8, 12)
		v := b4(e[f:])
		p4(e[f:], simrt.Pick(r, 0, v+1, v-1, v+2, v/2, v*2, uint32(len(c)), uint32(len(c))-v, 0xFFFFFFFF, 0x80000000))
		return c, "table directory damage"
	}
	if t[1] < 4 {
		return c, "table damage"
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		o := 2 * r.Intn(t[1]/2)
		if r.P(0.6) {
			o = 2 * r.Intn(min(t[1]/2, 40))
		}
		v := b2(c[t[0]+o:])
		p2(c[t[0]+o:], uint16(simrt.Pick(r, 0, 1, int(v)+1, int(v)-1, int(v)*2, 0xFFFF, 0x7FFF, 0x8000, r.Intn(65536), t[1], t[1]/2)))
	}
	return c, "table damage"
}

type chunk struct {
	name string
	data []byte
}

// damagePNG damages an image in its chunks; their checksums are right.
func damagePNG(b []byte, r *simrt.Rand) ([]byte, string) {
	if len(b) < 8 || string(b[1:4]) != "PNG" {
		return damageJPEG(b, r)
	}
	var cs []chunk
	idat := -1
	for o := 8; o+12 <= len(b); {
		n := int(b4(b[o:]))
		cs = append(cs, chunk{string(b[o+4 : o+8]), append([]byte{}, b[o+8:o+8+n]...)})
		if cs[len(cs)-1].name == "IDAT" && idat < 0 {
			idat = len(cs) - 1
		}
		o += 12 + n
	}
	how := ""
	for k := 1 + r.Intn(2); k > 0; k-- {
		i := r.Intn(len(cs))
		c := &cs[i]
		switch r.Intn(7) {
		case 0:
			how = "chunk lost"
			cs = append(cs[:i], cs[i+1:]...)
		case 1:
			how = "chunk repeated"
			cs = append(cs[:i+1], append([]chunk{*c}, cs[i+1:]...)...)
		case 2:
			how = "chunk moved"
			j := r.Intn(len(cs))
			cs[i], cs[j] = cs[j], cs[i]
		case 3:
			how = "header field"
			for j := range cs {
				if h := cs[j].data; cs[j].name == "IHDR" && len(h) == 13 {
					switch f := r.Intn(7); f {
					case 0, 1:
						v := b4(h[4*f:])
						p4(h[4*f:], simrt.Pick(r, 0, 1, v+1, v-1, v*2, 5000, 0x80000000, 0xFFFFFFFF))
					default:
						h[6+f] = byte(simrt.Pick(r, 0, 1, 2, 3, 4, 6, 7, 8, 16, 255, r.Intn(256)))
					}
				}
			}
		case 4:
			how = "chunk cut"
			if len(c.data) > 0 {
				c.data = c.data[:r.Intn(len(c.data))]
			}
		case 5:
			how = "chunk bytes"
			for j := r.Intn(4); j >= 0 && len(c.data) > 0; j-- {
				c.data[r.Intn(len(c.data))] = byte(r.Intn(256))
			}
		default:
			how = "scan lines"
			var z []byte
			for _, x := range cs {
				if x.name == "IDAT" {
					z = append(z, x.data...)
				}
			}
			zr, err := zlib.NewReader(bytes.NewReader(z))
			if err != nil || idat < 0 || idat >= len(cs) {
				break
			}
			raw, _ := io.ReadAll(zr)
			switch r.Intn(4) {
			case 0:
				raw = raw[:r.Intn(len(raw)+1)]
			case 1:
				raw = append(raw, make([]byte, 1+r.Intn(50))...)
			case 2:
				if len(raw) > 0 {
					raw[r.Intn(len(raw))] = byte(r.Intn(256))
				}
			default:
				if len(raw) > 0 {
					raw[0] = byte(5 + r.Intn(250))
				}
			}
			var w bytes.Buffer
			zw := zlib.NewWriter(&w)
			zw.Write(raw)
			zw.Close()
			var o []chunk
			done := false
			for _, x := range cs {
				if x.name == "IDAT" {
					if done {
						continue
					}
					done, x.data = true, w.Bytes()
				}
				o = append(o, x)
			}
			cs = o
		}
		if len(cs) == 0 {
			break
		}
	}
	out := append([]byte{}, b[:8]...)
	for _, c := range cs {
		var l [4]byte
		p4(l[:], uint32(len(c.data)))
		out = append(out, l[:]...)
		body := append([]byte(c.name), c.data...)
		out = append(out, body...)
		p4(l[:], crc32.ChecksumIEEE(body))
		out = append(out, l[:]...)
	}
	return out, how
}

// damageJPEG damages the segments of an image.
func damageJPEG(b []byte, r *simrt.Rand) ([]byte, string) {
	if len(b) < 4 || b[0] != 0xFF || b[1] != 0xD8 {
		return b, "unknown image"
	}
	var segs [][]byte
	o := 2
	for o+4 <= len(b) && b[o] == 0xFF && b[o+1] != 0xDA {
		n := 2 + int(b2(b[o+2:]))
		if o+n > len(b) {
			break
		}
		segs = append(segs, append([]byte{}, b[o:o+n]...))
		o += n
	}
	scan := append([]byte{}, b[o:]...)
	how := ""
	for k := 1 + r.Intn(2); k > 0 && len(segs) > 0; k-- {
		i := r.Intn(len(segs))
		s := segs[i]
		switch r.Intn(5) {
		case 0:
			how = "segment lost"
			segs = append(segs[:i], segs[i+1:]...)
		case 1:
			how = "segment repeated"
			segs = append(segs, s)
		case 2:
			how = "frame field"
			for _, s := range segs {
				if s[1] >= 0xC0 && s[1] <= 0xC2 && len(s) > 10 {
					switch r.Intn(4) {
					case 0:
						s[4] = byte(simrt.Pick(r, 0, 1, 12, 16, 255))
					case 1, 2:
						p2(s[5+2*r.Intn(2):], uint16(simrt.Pick(r, 0, 1, 3, 2000, 0xFFFF)))
					default:
						s[9] = byte(simrt.Pick(r, 0, 1, 2, 3, 4, 5, 255))
					}
				}
			}
		case 3:
			how = "segment bytes"
			if len(s) > 4 {
				s[4+r.Intn(len(s)-4)] = byte(r.Intn(256))
			}
		default:
			how = "scan cut"
			if len(scan) > 0 {
				scan = scan[:r.Intn(len(scan))]
			}
		}
	}
	out := append([]byte{}, b[:2]...)
	for _, s := range segs {
		out = append(out, s...)
	}
	return append(out, scan...), how
}

// runes are characters of a font.
func (e *Env) runes(i int) string {
	var rs []rune
	for c := range e.Fonts[i].Map {
		rs = append(rs, c)
	}
	sort.Slice(rs, func(a, b int) bool { return rs[a] < rs[b] })
	if len(rs) > 80 {
		rs = rs[:80]
	}
	return string(rs)
}
