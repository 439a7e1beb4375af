package world

import (
	"bytes"
	"compress/zlib"
	"crypto/sha256"
	"encoding/hex"
	"fmt"

	"verifsim/pdfr"
	"verifsim/simrt"
)

// PDFSpec describes a source PDF for import, produced independently of gopdf.
type PDFSpec struct {
	Seed   uint64 `json:"seed"`
	Pages  int    `json:"pages"`
	Flate  bool   `json:"flate,omitempty"`
	Shared bool   `json:"shared,omitempty"` // pages share a resource dictionary object
	Image  bool   `json:"image,omitempty"`
	Nest   bool   `json:"nest,omitempty"`    // page tree with an intermediate node
	Sizes  bool   `json:"sizes,omitempty"`   // every page has its own size
	Box    string `json:"box,omitempty"`     // the box pages are imported by, /MediaBox when empty
	Org    bool   `json:"origin,omitempty"`  // boxes do not start at the origin
	Rot    int    `json:"rotate,omitempty"`  // pages are displayed turned
	Inh    bool   `json:"inherit,omitempty"` // boxes and rotation are inherited from the page tree
	Split  bool   `json:"split,omitempty"`   // contents are arrays of streams
	NoBox  bool   `json:"nobox,omitempty"`   // the box pages are imported by is not defined in the source
	Rich   bool   `json:"rich,omitempty"`    // resources hold objects of every kind
	White  bool   `json:"white,omitempty"`   // streams may begin with white space; only for the known finding
}

// SrcPDF is a built source.
type SrcPDF struct {
	B     []byte
	Box   string
	Rot   int
	R     [][4]float64 // the box of each page
	Boxes []map[string][4]float64
	W, H  []float64 // size of each page when displayed
	Forms []string  // key of the form XObject each page must become
}

// boxOf is the box n of a page: a crop box that is not defined is the media
// box, and any other box that is not defined is the crop box.
func boxOf(all map[string][4]float64, n string) [4]float64 {
	b, ok := all[n]
	switch {
	case ok:
		return b
	case n == "/CropBox":
		return all["/MediaBox"]
	}
	return boxOf(all, "/CropBox")
}

// richDict draws a dictionary of objects of every kind.
func richDict(r *simrt.Rand, depth int, add func(string) int) string {
	s := "<<"
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		name := simrt.Pick(r, "MC", "Astream", "endstream", "obj", "N#20a", "R", "true", "K")
		s += fmt.Sprintf("/%s%d %s ", name, i, richValue(r, depth+1, add))
	}
	return s + ">>"
}

// richValue draws the notation of an object.
func richValue(r *simrt.Rand, depth int, add func(string) int) string {
	k := r.Intn(13)
	if depth > 3 {
		k = r.Intn(9)
	}
	switch k {
	case 0, 1, 2: // a literal string
		s, open := "(", 0
		for i, n := 0, r.Intn(12); i < n; i++ {
			p := simrt.Pick(r, "a", "B", " ", "stream", "obj", "<", ">", "/", "%", "[", "1 0 R", "\\n", "\\r", "\\t", "\\b", "\\f", "\\(", "\\)", "\\\\", "\\101", "\\7", "\r", "\n", "\r\n", "\\\n", "\\\r\n", "\\\r", "\\x", "\xfe", "\x80", "(", ")")
			switch p {
			case "(":
				open++
			case ")":
				if open == 0 {
					continue
				}
				open--
			}
			s += p
		}
		for ; open > 0; open-- {
			s += ")"
		}
		return s + ")"
	case 3: // a hexadecimal string
		s := "<"
		for i, n := 0, r.Intn(12); i < n; i++ {
			s += simrt.Pick(r, "0", "7", "a", "F", "c", "9")
		}
		return s + ">"
	case 4:
		return fmt.Sprint(r.Intn(3000) - 1500)
	case 5:
		return fmt.Sprintf("%.3f", r.F()*20-10)
	case 6:
		return simrt.Pick(r, "true", "false", "null")
	case 7, 8:
		return simrt.Pick(r, "/Name", "/stream", "/A#20b", "/endobj", "/R")
	case 9:
		s := "["
		for i, n := 0, r.Intn(4); i < n; i++ {
			s += richValue(r, depth+1, add) + " "
		}
		return s + "]"
	case 10:
		return richDict(r, depth, add)
	}
	return fmt.Sprintf("%d 0 R", add(richValue(r, depth+1, add)))
}

// BuildPDF writes the source file.
func BuildPDF(s *PDFSpec) (*SrcPDF, error) {
	r := simrt.NewRand(simrt.Mix(s.Seed, 77))
	out := &SrcPDF{Box: s.Box, Rot: s.Rot}
	if out.Box == "" {
		out.Box = "/MediaBox"
	}
	type obj struct{ b []byte }
	objs := []obj{{}, {}} // 1 catalog, 2 pages
	add := func(b []byte) int { objs = append(objs, obj{b}); return len(objs) }
	stream := func(dict string, data []byte, flate bool) []byte {
		if flate {
			var z bytes.Buffer
			w := zlib.NewWriter(&z)
			w.Write(data)
			w.Close()
			data = z.Bytes()
			dict += " /Filter /FlateDecode"
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "<< %s /Length %d >>\nstream\n", dict, len(data))
		b.Write(data)
		b.WriteString("\nendstream")
		return b.Bytes()
	}
	font := add([]byte("<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>"))
	var resBody func(int) []byte
	resBody = func(pg int) []byte {
		var b bytes.Buffer
		fmt.Fprintf(&b, "<< /Font << /F1 %d 0 R >> /ProcSet [ /PDF /Text ]", font)
		gs := add([]byte(fmt.Sprintf("<< /Type /ExtGState /ca 0.%d /LW %d >>", 1+r.Intn(9), pg+1)))
		fmt.Fprintf(&b, " /ExtGState << /G%d %d 0 R >>", pg, gs)
		if s.Image {
			px := make([]byte, 12)
			for i := range px {
				px[i] = byte(33 + r.Intn(220)) // gofpdi swallows white space at the start of a stream
			}
			if s.White {
				px[0], px[1] = '\n', ' '
			}
			im := add(stream("/Type /XObject /Subtype /Image /Width 2 /Height 2 /BitsPerComponent 8 /ColorSpace /DeviceRGB", px, s.Flate))
			fmt.Fprintf(&b, " /XObject << /Im%d %d 0 R >>", pg, im)
		}
		b.WriteString(" >>")
		return b.Bytes()
	}
	plainBody := resBody
	resBody = func(pg int) []byte {
		b := plainBody(pg)
		if s.Rich {
			b = append(b[:len(b)-3], fmt.Sprintf(" /Properties %s >>", richDict(r, 0, func(v string) int { return add([]byte(v)) }))...)
		}
		return b
	}
	sharedRes := 0
	if s.Shared {
		sharedRes = add(resBody(0))
	}
	parent := 2
	nest := 0
	if s.Nest {
		nest = add(nil)
		parent = nest
	}
	var kids []int
	var contents [][]byte
	// gofpdi gives every imported page of a source the boxes of its first page,
	// so only first pages are imported from sources with several sizes.
	W, H := float64(100+r.Intn(400)), float64(100+r.Intn(400))
	q := simrt.NewRand(simrt.Mix(s.Seed, 78))
	boxes := func() map[string][4]float64 {
		var m [4]float64
		if s.Org {
			m[0], m[1] = float64(q.Intn(200)-100), float64(q.Intn(200)-100)
		}
		m[2], m[3] = m[0]+W, m[1]+H
		all := map[string][4]float64{"/MediaBox": m}
		for _, n := range []string{"/CropBox", "/BleedBox", "/TrimBox", "/ArtBox"} {
			if n != s.Box && q.P(0.3) || n == s.Box && !s.NoBox {
				all[n] = [4]float64{m[0] + float64(q.Intn(30)), m[1] + float64(q.Intn(30)), m[2] - float64(q.Intn(30)), m[3] - float64(q.Intn(30))}
			}
		}
		return all
	}
	all := boxes()
	boxText := func(all map[string][4]float64, names []string, rot bool) string {
		t := ""
		for _, n := range names {
			if b, ok := all[n]; ok {
				t += fmt.Sprintf(" %s [%d %d %d %d]", n, int(b[0]), int(b[1]), int(b[2]), int(b[3]))
			}
		}
		if s.Rot != 0 && rot {
			t += fmt.Sprintf(" /Rotate %d", s.Rot)
		}
		return t
	}
	inherit := ""
	if s.Inh {
		inherit = boxText(all, boxNames[:2], true)
	}
	for i := 0; i < s.Pages; i++ {
		if s.Sizes && i > 0 {
			W, H = float64(100+r.Intn(400)), float64(100+r.Intn(400))
			all = boxes()
		}
		bx := boxOf(all, out.Box)
		w, h := bx[2]-bx[0], bx[3]-bx[1]
		if s.Rot%180 != 0 {
			w, h = h, w
		}
		out.R, out.Boxes = append(out.R, bx), append(out.Boxes, all)
		out.W, out.H = append(out.W, w), append(out.H, h)
		gi := i
		if s.Shared {
			gi = 0
		}
		var c bytes.Buffer
		fmt.Fprintf(&c, "q /G%d gs %d %d m %d %d l S Q\n", gi, r.Intn(100), r.Intn(100), r.Intn(100), r.Intn(100))
		for k := 0; k < 1+r.Intn(4); k++ {
			fmt.Fprintf(&c, "%.2f %.2f %.2f rg %d %d %d %d re f\n", r.F(), r.F(), r.F(), r.Intn(90), r.Intn(90), 1+r.Intn(50), 1+r.Intn(50))
		}
		fmt.Fprintf(&c, "BT /F1 12 Tf %d %d Td (page %d of source %x) Tj ET", r.Intn(90), r.Intn(90), i+1, s.Seed&0xffffff)
		contents = append(contents, append([]byte{}, c.Bytes()...))
		cs := ""
		if s.Split {
			part := c.Bytes()
			for k := 0; k < 2; k++ { // cut after a line
				j := bytes.IndexByte(part, '\n')
				cs += fmt.Sprintf("%d 0 R ", add(stream("", part[:j+1], s.Flate)))
				part = part[j+1:]
			}
			cs = fmt.Sprintf("[ %s%d 0 R ]", cs, add(stream("", part, s.Flate)))
		} else {
			cs = fmt.Sprintf("%d 0 R", add(stream("", c.Bytes(), s.Flate)))
		}
		res := ""
		if s.Shared {
			res = fmt.Sprintf("%d 0 R", sharedRes)
		} else {
			res = string(resBody(i))
		}
		own := boxText(all, boxNames, true)
		if s.Inh {
			own = boxText(all, boxNames[2:], false)
		}
		p := add([]byte(fmt.Sprintf("<< /Type /Page /Parent %d 0 R%s /Resources %s /Contents %s >>", parent, own, res, cs)))
		kids = append(kids, p)
	}
	ks := ""
	for _, k := range kids {
		ks += fmt.Sprintf("%d 0 R ", k)
	}
	objs[0].b = []byte("<< /Type /Catalog /Pages 2 0 R >>")
	if s.Nest {
		objs[1].b = []byte(fmt.Sprintf("<< /Type /Pages /Kids [%d 0 R] /Count %d%s >>", nest, s.Pages, inherit))
		objs[nest-1].b = []byte(fmt.Sprintf("<< /Type /Pages /Parent 2 0 R /Kids [%s] /Count %d >>", ks, s.Pages))
	} else {
		objs[1].b = []byte(fmt.Sprintf("<< /Type /Pages /Kids [%s] /Count %d%s >>", ks, s.Pages, inherit))
	}
	var b bytes.Buffer
	b.WriteString("%PDF-1.7\n%\xe2\xe3\xcf\xd3\n\n")
	offs := make([]int, len(objs))
	for i, o := range objs {
		offs[i] = b.Len()
		fmt.Fprintf(&b, "%d 0 obj\n", i+1)
		b.Write(o.b)
		b.WriteString("\nendobj\n")
	}
	x := b.Len()
	fmt.Fprintf(&b, "xref\n0 %d\n0000000000 65535 f \n", len(objs)+1)
	for _, o := range offs {
		fmt.Fprintf(&b, "%010d 00000 n \n", o)
	}
	fmt.Fprintf(&b, "trailer\n<< /Size %d /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n", len(objs)+1, x)
	out.B = b.Bytes()
	d := pdfr.Parse(out.B)
	if len(d.Errs) > 0 {
		return nil, fmt.Errorf("generated source: %v", d.Errs)
	}
	for i, k := range kids {
		pg := d.Dict(d.Objs[k])
		if pdfr.Trace {
			fmt.Println("source", pdfr.Canon(d, pg["Resources"], 0))
		}
		rc := sha256.Sum256([]byte(pdfr.Canon(d, pg["Resources"], 0)))
		out.Forms = append(out.Forms, fmt.Sprintf("form:%s bbox=%.2f res=%s", pdfr.FormHash(contents[i]), out.R[i], hex.EncodeToString(rc[:8])))
	}
	return out, nil
}

// Place is the matrix that shows page i (from 0) in a rectangle, its lower left
// corner and its size.
func (s *SrcPDF) Place(i int, x, y, w, h float64) pdfr.Mat {
	b := s.R[i]
	var t pdfr.Mat // the page as it is displayed, its lower left corner at the origin
	switch (s.Rot%360 + 360) % 360 {
	case 90:
		t = pdfr.Mat{0, -1, 1, 0, -b[1], b[2]}
	case 180:
		t = pdfr.Mat{-1, 0, 0, -1, b[2], b[3]}
	case 270:
		t = pdfr.Mat{0, 1, -1, 0, b[3], -b[0]}
	default:
		t = pdfr.Mat{1, 0, 0, 1, -b[0], -b[1]}
	}
	return t.Mul(pdfr.Mat{w / s.W[i], 0, 0, h / s.H[i], x, y})
}
