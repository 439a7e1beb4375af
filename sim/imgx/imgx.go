// Package imgx generates image files and computes, from the file and from the
// image XObject in a PDF, a digest of the pixels a viewer would show. It shares
// no code with the code under test.
package imgx

import (
	"bytes"
	"compress/zlib"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"

	"verifsim/pdfr"
	"verifsim/simrt"
)

// Spec describes a generated image.
type Spec struct {
	Seed   uint64 `json:"seed"`
	Kind   string `json:"kind"` // png, jpeg, gif
	CT     int    `json:"ct"`   // png colour type; jpeg: 0 gray, 2 colour
	Depth  int    `json:"depth,omitempty"`
	W      int    `json:"w"`
	H      int    `json:"h"`
	Chunks int    `json:"chunks,omitempty"` // IDAT chunks
	TRNS   bool   `json:"trns,omitempty"`
	Alpha  bool   `json:"alpha,omitempty"`   // partly transparent palette entries
	Anc    bool   `json:"anc,omitempty"`     // ancillary chunks
	ZeroCh bool   `json:"zero_ch,omitempty"` // a zero-length ancillary chunk
	Inter  bool   `json:"inter,omitempty"`   // interlaced
	Store  bool   `json:"store,omitempty"`   // not compressed
	Tail   uint64 `json:"tail,omitempty"`    // differs from other tails only in the last bytes
	White  bool   `json:"white,omitempty"`   // a palette of white space
}

// DrawSpec draws an image description.
func DrawSpec(r *simrt.Rand) Spec {
	s := Spec{Seed: r.U64() >> 16, W: r.Range(1, 24), H: r.Range(1, 24)}
	if r.P(0.04) { // larger than the buffers on its way
		s.W, s.H = r.Range(40, 160), r.Range(40, 160)
	}
	if r.P(0.06) { // long and thin
		s.W = r.Range(60, 700)
		s.H = r.Range(1, 3)
		if r.P(0.5) {
			s.W, s.H = s.H, s.W
		}
	}
	switch r.Weighted([]int{24, 8, 4, 1}) {
	case 0:
		s.Kind = "png"
		s.CT = simrt.Pick(r, 0, 2, 3, 4, 6, 6)
		s.Depth = 8
		if s.CT == 0 || s.CT == 3 {
			s.Depth = simrt.Pick(r, 1, 2, 4, 8)
		}
		s.Chunks = r.Range(1, 4)
		s.TRNS = s.CT <= 3 && r.P(0.3)
		s.Alpha = s.TRNS && s.CT == 3 && r.P(0.5)
		s.Anc = r.P(0.4)
		s.ZeroCh = r.P(0.15)
		s.White = s.CT == 3 && r.P(0.1)
		if r.P(0.03) {
			s.Inter = true
		}
		if s.CT != 3 && r.P(0.03) {
			s.Depth, s.TRNS = 16, false
		}
	case 1:
		s.Kind = "jpeg"
		s.CT = simrt.Pick(r, 0, 2)
	case 2:
		s.Kind = "gif"
	case 3:
		s.Kind, s.CT = "jpeg", 4
	}
	return s
}

// Sibling describes an image that differs from another of the same size only
// in its last bytes.
func Sibling(r *simrt.Rand, s Spec) Spec {
	s.Tail = 1 + r.U64()>>16
	return s
}

// DrawMaskSpec draws an image with an alpha channel.
func DrawMaskSpec(r *simrt.Rand) Spec {
	if r.P(0.2) {
		return Spec{Seed: r.U64()>>16 | 1, Kind: "png", CT: 3, Depth: 8, TRNS: true, Alpha: true, W: r.Range(2, 20), H: r.Range(2, 20), Chunks: r.Range(1, 3)}
	}
	return Spec{Seed: r.U64() >> 16, Kind: "png", CT: simrt.Pick(r, 4, 6), Depth: 8, W: r.Range(1, 20), H: r.Range(1, 20), Chunks: r.Range(1, 3)}
}

func chunk(b *bytes.Buffer, typ string, data []byte) {
	var n [4]byte
	binary.BigEndian.PutUint32(n[:], uint32(len(data)))
	b.Write(n[:])
	b.WriteString(typ)
	b.Write(data)
	c := crc32.NewIEEE()
	c.Write([]byte(typ))
	c.Write(data)
	binary.BigEndian.PutUint32(n[:], c.Sum32())
	b.Write(n[:])
}

// Build encodes the image.
func Build(s Spec) []byte {
	r := simrt.NewRand(s.Seed)
	switch s.Kind {
	case "jpeg":
		var buf bytes.Buffer
		var im image.Image
		rc := image.Rect(0, 0, s.W, s.H)
		if s.CT == 4 {
			return cmyk(r, s)
		}
		if s.CT == 0 {
			g := image.NewGray(rc)
			for i := range g.Pix {
				g.Pix[i] = byte(r.U64())
			}
			if s.Tail > 0 {
				g.Pix[len(g.Pix)-1] ^= byte(s.Tail) | 64
			}
			im = g
		} else {
			n := Noise(r, s.W, s.H)
			if s.Tail > 0 {
				n.Pix[len(n.Pix)-2] ^= byte(s.Tail) | 64
			}
			im = n
		}
		if err := jpeg.Encode(&buf, im, nil); err != nil {
			panic(err)
		}
		return buf.Bytes()
	case "gif":
		pal := color.Palette{}
		for i := 0; i < 8; i++ {
			pal = append(pal, color.RGBA{byte(r.U64()), byte(r.U64()), byte(r.U64()), 255})
		}
		p := image.NewPaletted(image.Rect(0, 0, s.W, s.H), pal)
		for i := range p.Pix {
			p.Pix[i] = byte(r.Intn(8))
		}
		if s.Tail > 0 {
			p.Pix[len(p.Pix)-1] ^= 1 + byte(s.Tail%7)
		}
		var buf bytes.Buffer
		if err := gif.Encode(&buf, p, nil); err != nil {
			panic(err)
		}
		return buf.Bytes()
	}
	ch := map[int]int{0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[s.CT]
	bpp := (ch*s.Depth + 7) / 8
	var raw, prev []byte
	npal := 1 << min(s.Depth, 4)
	rows := func(w, h int) {
		if w == 0 || h == 0 {
			return
		}
		row := (ch*s.Depth*w + 7) / 8
		prev = make([]byte, row)
		for y := 0; y < h; y++ {
			line := make([]byte, row)
			for i := range line {
				line[i] = byte(r.U64())
			}
			if s.CT == 3 && s.Depth == 8 {
				for i := range line {
					line[i] = byte(r.Intn(npal))
				}
			}
			if s.Tail > 0 && y == h-1 && s.CT != 3 {
				line[0] ^= byte(s.Tail) | 128
			} else if s.Tail > 0 && y == h-1 {
				line[0] ^= 1 << (8 - min(s.Depth, 8)) // another entry of the palette
			}
			ft := r.Intn(5)
			raw = append(raw, byte(ft))
			for i := range line {
				var a, b, c byte
				if i >= bpp {
					a, c = line[i-bpp], prev[i-bpp]
				}
				b = prev[i]
				var p byte
				switch ft {
				case 1:
					p = a
				case 2:
					p = b
				case 3:
					p = byte((int(a) + int(b)) / 2)
				case 4:
					p = paeth(a, b, c)
				}
				raw = append(raw, line[i]-p)
			}
			prev = line
		}
	}
	if s.Inter {
		for _, p := range [][4]int{{0, 0, 8, 8}, {4, 0, 8, 8}, {0, 4, 4, 8}, {2, 0, 4, 4}, {0, 2, 2, 4}, {1, 0, 2, 2}, {0, 1, 1, 2}} {
			rows(max(0, (s.W-p[0]+p[2]-1)/p[2]), max(0, (s.H-p[1]+p[3]-1)/p[3]))
		}
	} else {
		rows(s.W, s.H)
	}
	var z bytes.Buffer
	zw := zlib.NewWriter(&z)
	if s.Store {
		zw, _ = zlib.NewWriterLevel(&z, zlib.NoCompression)
	}
	zw.Write(raw)
	zw.Close()
	var b bytes.Buffer
	b.WriteString("\x89PNG\r\n\x1a\n")
	hd := make([]byte, 13)
	binary.BigEndian.PutUint32(hd, uint32(s.W))
	binary.BigEndian.PutUint32(hd[4:], uint32(s.H))
	hd[8], hd[9] = byte(s.Depth), byte(s.CT)
	if s.Inter {
		hd[12] = 1
	}
	chunk(&b, "IHDR", hd)
	if s.Anc {
		chunk(&b, "gAMA", []byte{0, 0, 0xB1, 0x8F})
		chunk(&b, "tEXt", []byte("Comment\x00simulated"))
	}
	if s.ZeroCh {
		chunk(&b, "smPl", nil) // private ancillary, safe to ignore
	}
	if s.CT == 3 {
		pal := make([]byte, 3*npal)
		for i := range pal {
			pal[i] = byte(r.U64())
			if s.White {
				pal[i] = simrt.Pick(r, byte(9), 10, 11, 12, 13, 32)
			}
		}
		chunk(&b, "PLTE", pal)
	}
	if s.TRNS {
		switch s.CT {
		case 0:
			c := byte(r.Intn(1 << s.Depth))
			if s.Depth == 8 && r.P(0.8) {
				c = prev[r.Intn(len(prev))]
			}
			chunk(&b, "tRNS", []byte{0, c})
		case 2:
			// most often a colour of the image
			c := []byte{byte(r.U64()), byte(r.U64()), byte(r.U64())}
			if r.P(0.8) {
				k := 3 * r.Intn(len(prev)/3)
				c = prev[k : k+3]
			}
			chunk(&b, "tRNS", []byte{0, c[0], 0, c[1], 0, c[2]})
		case 3:
			k := r.Intn(npal)
			t := bytes.Repeat([]byte{255}, k+1)
			t[k] = 0
			if s.Alpha { // at least one entry that is neither opaque nor transparent
				for i := range t {
					t[i] = simrt.Pick(r, byte(0), 255, 128, 254, 1, byte(r.U64()))
				}
				t[k] = simrt.Pick(r, byte(77), 254, 1)
			}
			chunk(&b, "tRNS", t)
		}
	}
	d := z.Bytes()
	n := s.Chunks
	if n < 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		lo, hi := len(d)*i/n, len(d)*(i+1)/n
		if hi > lo {
			chunk(&b, "IDAT", d[lo:hi])
		}
	}
	chunk(&b, "IEND", nil)
	return b.Bytes()
}

// cmyk encodes a CMYK JPEG as Adobe programs do: inverted values, one flat
// colour per block.
func cmyk(r *simrt.Rand, s Spec) []byte {
	var b bytes.Buffer
	seg := func(m byte, d ...byte) {
		b.Write([]byte{0xFF, m, byte((len(d) + 2) >> 8), byte(len(d) + 2)})
		b.Write(d)
	}
	b.Write([]byte{0xFF, 0xD8})
	seg(0xEE, append([]byte("Adobe"), 0, 100, 0, 0, 0, 0, 0)...)
	seg(0xDB, append([]byte{0}, bytes.Repeat([]byte{8}, 64)...)...)
	seg(0xC0, 8, byte(s.H>>8), byte(s.H), byte(s.W>>8), byte(s.W), 4, 1, 0x11, 0, 2, 0x11, 0, 3, 0x11, 0, 4, 0x11, 0)
	// DC: sizes 0 to 11 in four bits each; AC: only the end of the block, in one bit.
	seg(0xC4, append(append([]byte{0x00, 0, 0, 0, 12}, make([]byte, 12)...), 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)...)
	seg(0xC4, append(append([]byte{0x10, 1}, make([]byte, 15)...), 0)...)
	seg(0xDA, 4, 1, 0, 2, 0, 3, 0, 4, 0, 0, 63, 0)
	var acc uint32
	var n uint
	put := func(v uint32, bits uint) {
		acc, n = acc<<bits|v&(1<<bits-1), n+bits
		for n >= 8 {
			c := byte(acc >> (n - 8))
			b.WriteByte(c)
			if c == 0xFF {
				b.WriteByte(0)
			}
			n -= 8
		}
	}
	blocks := (s.W + 7) / 8 * ((s.H + 7) / 8)
	var pred [4]int
	for i := 0; i < blocks; i++ {
		for c := range pred {
			v := r.Intn(255) - 127
			if s.Tail > 0 && i == blocks-1 && c == 3 {
				v = (v+128+int(s.Tail%200)+5)%255 - 127
			}
			d := v - pred[c]
			pred[c] = v
			k := uint(0)
			for a := max(d, -d); a > 0; a >>= 1 {
				k++
			}
			put(uint32(k), 4)
			if d < 0 {
				d += 1<<k - 1
			}
			put(uint32(d), k)
			put(0, 1)
		}
	}
	put(0x7F, 7)
	b.Write([]byte{0xFF, 0xD9})
	return b.Bytes()
}

// Noise is a random opaque RGBA image.
func Noise(r *simrt.Rand, w, h int) *image.NRGBA {
	m := image.NewNRGBA(image.Rect(0, 0, w, h))
	for i := range m.Pix {
		m.Pix[i] = byte(r.U64())
		if i%4 == 3 {
			m.Pix[i] = 255
		}
	}
	return m
}

func paeth(a, b, c byte) byte {
	p := int(a) + int(b) - int(c)
	pa, pb, pc := p-int(a), p-int(b), p-int(c)
	if pa < 0 {
		pa = -pa
	}
	if pb < 0 {
		pb = -pb
	}
	if pc < 0 {
		pc = -pc
	}
	if pa <= pb && pa <= pc {
		return a
	}
	if pb <= pc {
		return b
	}
	return c
}

// Expect is what the image file means.
type Expect struct {
	W, H   int
	Deep   bool   // 16 bits per sample, which gopdf refuses
	Refuse bool   // may be refused
	Normal string // drawn as an image
	Split  string // drawn without its own alpha (a mask is supplied)
	Mask   string // used as a mask: its alpha channel as luminosity
}

func dig(w, h int, px []byte) string {
	s := sha256.Sum256(px)
	return fmt.Sprintf("px %dx%d %s", w, h, hex.EncodeToString(s[:8]))
}

// pixels flattens an image to NRGBA bytes.
func pixels(m image.Image) []byte {
	b := m.Bounds()
	out := make([]byte, 0, 4*b.Dx()*b.Dy())
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			c := color.NRGBAModel.Convert(m.At(x, y)).(color.NRGBA)
			if n, ok := m.(*image.NRGBA); ok {
				c = n.NRGBAAt(x, y)
			}
			if p, ok := m.(*image.Paletted); ok {
				if q, ok := p.Palette[p.ColorIndexAt(x, y)].(color.NRGBA); ok {
					c = q
				}
			}
			out = append(out, c.R, c.G, c.B, c.A)
		}
	}
	return out
}

func variants(w, h int, px []byte) (n, s, m string) {
	sp := append([]byte{}, px...)
	mk := append([]byte{}, px...)
	for i := 0; i < len(px); i += 4 {
		sp[i+3] = 255
		mk[i], mk[i+1], mk[i+2], mk[i+3] = px[i+3], px[i+3], px[i+3], 255
	}
	return dig(w, h, px), dig(w, h, sp), dig(w, h, mk)
}

// ExpectOf decodes an image file with the standard library's decoders.
func ExpectOf(b []byte) (Expect, error) {
	cfg, f, err := image.DecodeConfig(bytes.NewReader(b))
	if err != nil {
		return Expect{}, err
	}
	e := Expect{W: cfg.Width, H: cfg.Height}
	switch cfg.ColorModel {
	case color.RGBA64Model, color.NRGBA64Model, color.Gray16Model, color.Alpha16Model:
		e.Deep, e.Refuse = true, true
	}
	if f == "png" && len(b) > 28 && b[28] != 0 { // interlaced
		e.Refuse = true
	}
	if f == "jpeg" {
		cs := "DeviceRGB"
		dec := ""
		switch cfg.ColorModel {
		case color.GrayModel:
			cs = "DeviceGray"
		case color.CMYKModel:
			cs = "DeviceCMYK"
			dec = " inverted"
		}
		h := sha256.Sum256(b)
		e.Normal = fmt.Sprintf("jpg %dx%d %s%s %s", e.W, e.H, cs, dec, hex.EncodeToString(h[:8]))
		e.Split = e.Normal
		return e, nil
	}
	m, _, err := image.Decode(bytes.NewReader(b))
	if err != nil {
		return e, err
	}
	e.Normal, e.Split, e.Mask = variants(e.W, e.H, pixels(m))
	return e, nil
}

// ExpectImage is ExpectOf for an in-memory image encoded losslessly.
func ExpectImage(m image.Image) (Expect, error) {
	var buf bytes.Buffer
	if err := png.Encode(&buf, m); err != nil {
		return Expect{}, err
	}
	return ExpectOf(buf.Bytes())
}

// ExpectJPEG is ExpectOf for an in-memory image encoded as JPEG.
func ExpectJPEG(m image.Image) (Expect, error) {
	var buf bytes.Buffer
	if err := jpeg.Encode(&buf, m, nil); err != nil {
		return Expect{}, err
	}
	return ExpectOf(buf.Bytes())
}

func unpredict(b []byte, colors, bpc, cols, rows int) ([]byte, error) {
	bpp := (colors*bpc + 7) / 8
	row := (colors*bpc*cols + 7) / 8
	if len(b) != (row+1)*rows {
		return nil, fmt.Errorf("image data is %d bytes, %d rows of %d need %d", len(b), rows, row+1, (row+1)*rows)
	}
	var out []byte
	prev := make([]byte, row)
	for y := 0; y < rows; y++ {
		ft := b[y*(row+1)]
		line := append([]byte{}, b[y*(row+1)+1:(y+1)*(row+1)]...)
		for i := range line {
			var a, c byte
			if i >= bpp {
				a, c = line[i-bpp], prev[i-bpp]
			}
			u := prev[i]
			switch ft {
			case 0:
			case 1:
				line[i] += a
			case 2:
				line[i] += u
			case 3:
				line[i] += byte((int(a) + int(u)) / 2)
			case 4:
				line[i] += paeth(a, u, c)
			default:
				return nil, fmt.Errorf("row %d: filter type %d", y, ft)
			}
		}
		out = append(out, line...)
		prev = line
	}
	return out, nil
}

func dint(d *pdfr.Doc, v any) int { i, _ := d.Get(v).(int); return i }

// samples returns the raw component samples of an image stream, one byte each.
func samples(d *pdfr.Doc, st *pdfr.Stream, colors int) ([]byte, int, error) {
	w, h, bpc := dint(d, st.D["Width"]), dint(d, st.D["Height"]), dint(d, st.D["BitsPerComponent"])
	if w <= 0 || h <= 0 || w > 1<<15 || h > 1<<15 {
		return nil, 0, fmt.Errorf("image is %dx%d", w, h)
	}
	if bpc != 1 && bpc != 2 && bpc != 4 && bpc != 8 {
		return nil, 0, fmt.Errorf("BitsPerComponent %d", bpc)
	}
	b, f, err := d.Data(st)
	if err != nil {
		return nil, 0, err
	}
	if f != "FlateDecode" && f != "" {
		return nil, 0, fmt.Errorf("filter %s", f)
	}
	row := (colors*bpc*w + 7) / 8
	if dp := d.Dict(st.D["DecodeParms"]); dp != nil && dint(d, dp["Predictor"]) >= 10 {
		c, bp, cl := 1, 8, 1
		if v, ok := dp["Colors"].(int); ok {
			c = v
		}
		if v, ok := dp["BitsPerComponent"].(int); ok {
			bp = v
		}
		if v, ok := dp["Columns"].(int); ok {
			cl = v
		}
		if c != colors || bp != bpc || cl != w {
			return nil, 0, fmt.Errorf("DecodeParms colours=%d bpc=%d columns=%d for an image with %d, %d, %d", c, bp, cl, colors, bpc, w)
		}
		if b, err = unpredict(b, c, bp, cl, h); err != nil {
			return nil, 0, err
		}
	} else if len(b) != row*h {
		return nil, 0, fmt.Errorf("image data is %d bytes, want %d", len(b), row*h)
	}
	out := make([]byte, 0, w*h*colors)
	for y := 0; y < h; y++ {
		line := b[y*row : (y+1)*row]
		for i := 0; i < w*colors; i++ {
			bit := i * bpc
			v := line[bit/8] >> (8 - bpc - bit%8) & byte(1<<bpc-1)
			out = append(out, v)
		}
	}
	return out, bpc, nil
}

// Digest is the pixel digest of an image XObject.
func Digest(d *pdfr.Doc, st *pdfr.Stream) (string, error) {
	w, h, bpc := dint(d, st.D["Width"]), dint(d, st.D["Height"]), dint(d, st.D["BitsPerComponent"])
	cs := d.Get(st.D["ColorSpace"])
	if d.Get(st.D["Filter"]) == pdfr.Name("DCTDecode") {
		cfg, err := jpeg.DecodeConfig(bytes.NewReader(st.Raw))
		if err != nil {
			return "", fmt.Errorf("DCT data: %v", err)
		}
		if cfg.Width != w || cfg.Height != h || bpc != 8 {
			return "", fmt.Errorf("DCT data is %dx%d, dictionary says %dx%d at %d bits", cfg.Width, cfg.Height, w, h, bpc)
		}
		dec := ""
		if a, ok := st.D["Decode"].(pdfr.Array); ok {
			dec = " dec" + fmt.Sprint(a)
			if fmt.Sprint(a) == "[1 0 1 0 1 0 1 0]" {
				dec = " inverted"
			}
		}
		hh := sha256.Sum256(st.Raw)
		return fmt.Sprintf("jpg %dx%d %v%s %s", w, h, cs, dec, hex.EncodeToString(hh[:8])), nil
	}
	colors := 0
	var pal []byte
	switch c := cs.(type) {
	case pdfr.Name:
		colors = map[pdfr.Name]int{"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}[c]
	case pdfr.Array:
		if len(c) == 4 && c[0] == pdfr.Name("Indexed") && c[1] == pdfr.Name("DeviceRGB") {
			colors = 1
			switch p := d.Get(c[3]).(type) {
			case *pdfr.Stream:
				b, _, err := d.Data(p)
				if err != nil {
					return "", err
				}
				pal = b
			case pdfr.Str:
				pal = p
			}
			if hv, _ := c[2].(int); len(pal) != 3*(hv+1) {
				return "", fmt.Errorf("palette of %d bytes for hival %v", len(pal), c[2])
			}
		}
	}
	if colors == 0 || colors == 4 {
		return "", fmt.Errorf("colour space %v", cs)
	}
	sm, bpc, err := samples(d, st, colors)
	if err != nil {
		return "", err
	}
	var alpha []byte
	if m, ok := d.Get(st.D["SMask"]).(*pdfr.Stream); ok {
		if dint(d, m.D["Width"]) != w || dint(d, m.D["Height"]) != h || d.Get(m.D["ColorSpace"]) != pdfr.Name("DeviceGray") {
			return "", fmt.Errorf("soft mask %v for a %dx%d image", m.D, w, h)
		}
		a, b, err := samples(d, m, 1)
		if err != nil {
			return "", fmt.Errorf("soft mask: %v", err)
		}
		if b != 8 {
			return "", fmt.Errorf("soft mask depth %d", b)
		}
		alpha = a
	} else if st.D["SMask"] != nil {
		return "", fmt.Errorf("SMask %v is not a stream", st.D["SMask"])
	}
	var key []int
	if a, ok := d.Get(st.D["Mask"]).(pdfr.Array); ok {
		for _, v := range a {
			i, ok := v.(int)
			if !ok {
				return "", fmt.Errorf("colour key %v", a)
			}
			key = append(key, i)
		}
		if len(key) != 2*colors {
			return "", fmt.Errorf("colour key %v for %d components", key, colors)
		}
	}
	px := make([]byte, 0, 4*w*h)
	maxv := 1<<bpc - 1
	for i := 0; i < w*h; i++ {
		var r, g, b byte
		a := byte(255)
		c := sm[i*colors : (i+1)*colors]
		switch {
		case pal != nil:
			k := 3 * int(c[0])
			if k+2 < len(pal) {
				r, g, b = pal[k], pal[k+1], pal[k+2]
			} else {
				return "", fmt.Errorf("palette index %d of %d", c[0], len(pal)/3)
			}
		case colors == 1:
			r = byte(int(c[0]) * 255 / maxv)
			g, b = r, r
		default:
			r, g, b = byte(int(c[0])*255/maxv), byte(int(c[1])*255/maxv), byte(int(c[2])*255/maxv)
		}
		if alpha != nil {
			a = alpha[i]
		}
		if key != nil {
			in := true
			for k := 0; k < colors; k++ {
				if int(c[k]) < key[2*k] || int(c[k]) > key[2*k+1] {
					in = false
				}
			}
			if in {
				a = 0
			}
		}
		px = append(px, r, g, b, a)
	}
	return dig(w, h, px), nil
}
