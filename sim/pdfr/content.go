package pdfr

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
)

// Ev is one visible effect on a page: what a viewer would draw.
type Ev struct {
	Kind string    `json:"kind"` // text, path, image, form
	Key  string    `json:"key"`  // discrete attributes, canonical
	N    []float64 `json:"n"`    // numeric attributes, compared with a tolerance
	// text
	Runes []rune   `json:"runes,omitempty"`
	GIDs  []int    `json:"gids,omitempty"`
	Outl  []uint64 `json:"outl,omitempty"` // outline digest per glyph
	W     []int    `json:"w,omitempty"`    // advance per glyph, 1/1000 em
	// state
	GS   string   `json:"gs"` // blend mode
	Mask *MaskSem `json:"mask,omitempty"`
	// Clip: active clip polygons
	Clip []float64 `json:"clip,omitempty"`
	Col  []float64 `json:"col,omitempty"` // alpha(fill,stroke), colours

	obj int // image: its object number
	// Src: of what an expected image was made, "" not to tell
	Src string `json:"-"`
}

// MaskSem is a soft mask in effect.
type MaskSem struct {
	S    string
	BBox []float64
	Evs  []Ev
}

// Link is a link annotation.
type Link struct {
	Rect [4]float64
	URI  string
	Page int // destination page index, -1 for URIs
	Y    float64
}

// PageSem is the meaning of a page.
type PageSem struct {
	Media [4]float64
	Trim  []float64
	Evs   []Ev
	Imgs  []int // object number of every image in Evs
	Links []Link
}

// OutlineSem is one bookmark in pre-order.
type OutlineSem struct {
	Title string
	Page  int
	Level int
	Y     float64
}

// Sem is the meaning of a document.
type Sem struct {
	Pages    []PageSem
	Outlines []OutlineSem
	Info     map[string]string
	Errs     []string
}

func (s *Sem) errf(f string, a ...any) {
	if len(s.Errs) < 40 {
		s.Errs = append(s.Errs, fmt.Sprintf(f, a...))
	}
}

// Mat is a PDF matrix.
type Mat [6]float64

// Mul returns a×b (a applied first).
func (a Mat) Mul(b Mat) Mat {
	return Mat{
		a[0]*b[0] + a[1]*b[2], a[0]*b[1] + a[1]*b[3],
		a[2]*b[0] + a[3]*b[2], a[2]*b[1] + a[3]*b[3],
		a[4]*b[0] + a[5]*b[2] + b[4], a[4]*b[1] + a[5]*b[3] + b[5],
	}
}

// Apply maps a point.
func (a Mat) Apply(x, y float64) (float64, float64) {
	return a[0]*x + a[2]*y + a[4], a[1]*x + a[3]*y + a[5]
}

// Color is a colour in some space.
type Color struct {
	Space string
	V     []float64
}

type gstate struct {
	ctm      Mat
	fill     Color
	stroke   Color
	lw       float64
	dash     string
	dashN    []float64
	ca, CA   float64
	bm       string
	mask     *MaskSem
	clip     []float64
	nclip    int
	font     *FontRes
	size, tc float64
}

// FontRes is a Type0 font of the document.
type FontRes struct {
	Family string
	W      map[int]int
	DW     int
	ToUni  map[int][]rune
	Outl   func(gid int) (uint64, error)
	Err    []string
}

type extractor struct {
	d     *Doc
	s     *Sem
	fonts map[int]*FontRes
	imgs  map[int]string
	masks map[int]*MaskSem
	forms map[int]string
	depth int
	// FontParser digests an embedded font program
	fp func([]byte, []float64) (func(int) (uint64, error), []string)
	ip ImageDigester
}

// ImageDigester turns an image XObject into a digest of its pixels.
type ImageDigester func(d *Doc, st *Stream) (string, error)

func hash(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

// Extract interprets every page of a (decrypted) document.
func Extract(d *Doc, fp func([]byte, []float64) (func(int) (uint64, error), []string), ip ImageDigester) *Sem {
	s := &Sem{Info: map[string]string{}}
	x := &extractor{d: d, s: s, fonts: map[int]*FontRes{}, imgs: map[int]string{}, masks: map[int]*MaskSem{}, forms: map[int]string{}, fp: fp, ip: ip}
	root := d.Dict(d.Trailer["Root"])
	if root == nil || root["Type"] != Name("Catalog") {
		s.errf("trailer /Root is not a catalog: %v", root)
		return s
	}
	x.refs()
	pr, _ := root["Pages"].(Ref)
	pages := d.Dict(root["Pages"])
	if pages == nil || pages["Type"] != Name("Pages") {
		s.errf("catalog /Pages is not a page tree: %v", pages)
		return s
	}
	kids, _ := d.Get(pages["Kids"]).(Array)
	if c, ok := pages["Count"].(int); !ok || c != len(kids) {
		s.errf("page tree /Count %v with %d kids", pages["Count"], len(kids))
	}
	pageNo := map[int]int{}
	seen := map[int]bool{}
	for i, k := range kids {
		r, ok := k.(Ref)
		if !ok || seen[r.N] {
			s.errf("page tree kid %d is %v (not a reference, or listed twice)", i, k)
			continue
		}
		seen[r.N] = true
		pageNo[r.N] = i
	}
	for n, o := range d.Objs {
		if dd, ok := o.(Dict); ok && dd["Type"] == Name("Page") && !seen[n] {
			s.errf("page object %d is not in the page tree", n)
		}
	}
	for i, k := range kids {
		r, ok := k.(Ref)
		if !ok {
			continue
		}
		pg := d.Dict(r)
		if pg == nil || pg["Type"] != Name("Page") {
			s.errf("kid %d (%v) is not a page", i, k)
			s.Pages = append(s.Pages, PageSem{})
			continue
		}
		if pg["Parent"] != (Ref{pr.N, 0}) {
			s.errf("page %d: /Parent %v", i, pg["Parent"])
		}
		s.Pages = append(s.Pages, x.page(i, pg, pages, pageNo))
	}
	x.outlines(root, pageNo)
	if inf := d.Dict(d.Trailer["Info"]); inf != nil {
		for k, v := range inf {
			if st, ok := v.(Str); ok {
				s.Info[k] = TextString(st)
			} else {
				s.errf("info /%s is %T", k, v)
			}
		}
	}
	for _, f := range x.fonts {
		for _, e := range f.Err {
			s.errf("font %s: %s", f.Family, e)
		}
	}
	sort.Strings(s.Errs)
	return s
}

// refs checks that every reference resolves.
func (x *extractor) refs() {
	chk := func(where string, v any) {
		Walk(v, func(e any) {
			if r, ok := e.(Ref); ok {
				if _, ok := x.d.Objs[r.N]; !ok || r.G != 0 {
					x.s.errf("%s: reference %d %d R does not resolve", where, r.N, r.G)
				}
			}
		})
	}
	for n, o := range x.d.Objs {
		chk(fmt.Sprintf("object %d", n), o)
	}
	chk("trailer", x.d.Trailer)
}

// TextString decodes a PDF text string.
func TextString(b []byte) string {
	if len(b) >= 2 && b[0] == 0xFE && b[1] == 0xFF {
		var u []uint16
		for i := 2; i+1 < len(b); i += 2 {
			u = append(u, uint16(b[i])<<8|uint16(b[i+1]))
		}
		if len(b)%2 == 1 {
			return "<odd UTF-16> " + hex.EncodeToString(b)
		}
		return string(utf16.Decode(u))
	}
	return string(b)
}

func floats(d *Doc, v any, n int) ([]float64, bool) {
	a, ok := d.Get(v).(Array)
	if !ok || (n > 0 && len(a) != n) {
		return nil, false
	}
	o := make([]float64, len(a))
	for i := range a {
		f, ok := Num(d.Get(a[i]))
		if !ok {
			return nil, false
		}
		o[i] = f
	}
	return o, true
}

func (x *extractor) page(i int, pg, tree Dict, pageNo map[int]int) PageSem {
	d, s := x.d, x.s
	var p PageSem
	mb := pg["MediaBox"]
	if mb == nil {
		mb = tree["MediaBox"]
	}
	if f, ok := floats(d, mb, 4); ok {
		copy(p.Media[:], f)
	} else {
		s.errf("page %d: bad MediaBox %v", i, mb)
	}
	if t := pg["TrimBox"]; t != nil {
		f, ok := floats(d, t, 4)
		if !ok {
			s.errf("page %d: bad TrimBox %v", i, t)
		}
		p.Trim = f
	}
	res := d.Dict(pg["Resources"])
	if res == nil {
		s.errf("page %d has no resources", i)
	}
	var data []byte
	switch c := pg["Contents"].(type) {
	case nil:
	case Ref:
		st, ok := d.Get(c).(*Stream)
		if !ok {
			s.errf("page %d: /Contents %v is not a stream", i, c)
			break
		}
		b, _, err := d.Data(st)
		if err != nil {
			s.errf("page %d: content stream: %v", i, err)
		}
		data = b
	case Array:
		for _, e := range c {
			st, ok := d.Get(e).(*Stream)
			if !ok {
				s.errf("page %d: /Contents element %v is not a stream", i, e)
				continue
			}
			b, _, err := d.Data(st)
			if err != nil {
				s.errf("page %d: content stream: %v", i, err)
			}
			data = append(append(data, b...), '\n')
		}
	default:
		s.errf("page %d: /Contents is %T", i, c)
	}
	p.Evs = x.interp(fmt.Sprintf("page %d", i), data, res, Mat{1, 0, 0, 1, 0, 0})
	p.Imgs = images(p.Evs)
	if a := pg["Annots"]; a != nil {
		arr, ok := d.Get(a).(Array)
		if !ok {
			s.errf("page %d: /Annots is %T", i, a)
		}
		for _, e := range arr {
			an := d.Dict(e)
			if an == nil || an["Type"] != Name("Annot") || an["Subtype"] != Name("Link") {
				s.errf("page %d: annotation %v is %v", i, e, an)
				continue
			}
			l := Link{Page: -1}
			if f, ok := floats(d, an["Rect"], 4); ok {
				copy(l.Rect[:], f)
			} else {
				s.errf("page %d: link without /Rect", i)
			}
			if act := d.Dict(an["A"]); act != nil {
				u, ok := act["URI"].(Str)
				if act["S"] != Name("URI") || !ok {
					s.errf("page %d: link action %v", i, act)
				}
				l.URI = string(u)
			} else if r, y, ok := x.dest(an["Dest"], pageNo); ok {
				l.Page, l.Y = r, y
			} else if an["Dest"] != nil || an["A"] != nil {
				s.errf("page %d: link with neither action nor destination: %v", i, an)
			}
			p.Links = append(p.Links, l)
		}
	}
	return p
}

func (x *extractor) dest(v any, pageNo map[int]int) (int, float64, bool) {
	a, ok := x.d.Get(v).(Array)
	if !ok || len(a) != 5 || a[1] != Name("XYZ") {
		return 0, 0, false
	}
	r, ok := a[0].(Ref)
	if !ok {
		return 0, 0, false
	}
	n, ok := pageNo[r.N]
	if !ok {
		return 0, 0, false
	}
	y, _ := Num(a[3])
	return n, y, true
}

func (x *extractor) outlines(root Dict, pageNo map[int]int) {
	d, s := x.d, x.s
	o := root["Outlines"]
	if o == nil {
		return
	}
	od := d.Dict(o)
	if od == nil || od["Type"] != Name("Outlines") {
		s.errf("catalog /Outlines is not an outline dictionary: %v", od)
		return
	}
	seen := map[int]bool{}
	var walk func(parent Ref, pd Dict, level int) int
	walk = func(parent Ref, pd Dict, level int) int {
		if pd["First"] == nil && pd["Last"] == nil {
			return 0
		}
		cur, ok := pd["First"].(Ref)
		last, ok2 := pd["Last"].(Ref)
		if !ok || !ok2 {
			s.errf("outline /First %v /Last %v", pd["First"], pd["Last"])
			return 0
		}
		var prev Ref
		total := 0
		for {
			if seen[cur.N] {
				s.errf("outline item %d is linked twice", cur.N)
				return total
			}
			seen[cur.N] = true
			it := d.Dict(cur)
			if it == nil {
				s.errf("outline item %v is not a dictionary", cur)
				return total
			}
			if it["Parent"] != parent {
				s.errf("outline item %d: /Parent %v, want %v", cur.N, it["Parent"], parent)
			}
			if prev.N == 0 && it["Prev"] != nil || prev.N != 0 && it["Prev"] != prev {
				s.errf("outline item %d: /Prev %v, want %v", cur.N, it["Prev"], prev)
			}
			t, ok := it["Title"].(Str)
			if !ok {
				s.errf("outline item %d: /Title %v", cur.N, it["Title"])
			}
			pn, y, ok := x.dest(it["Dest"], pageNo)
			if !ok {
				s.errf("outline item %d: /Dest %v", cur.N, it["Dest"])
				pn = -1
			}
			total++
			s.Outlines = append(s.Outlines, OutlineSem{Title: TextString(t), Page: pn, Level: level, Y: y})
			n := walk(cur, it, level+1)
			if c, ok := it["Count"].(int); ok && abs(c) != n {
				s.errf("outline item %d: /Count %d with %d descendants", cur.N, c, n)
			}
			total += n
			nx, ok := it["Next"].(Ref)
			if !ok {
				if cur != last {
					s.errf("outline chain ends at %d, /Last is %d", cur.N, last.N)
				}
				return total
			}
			prev, cur = cur, nx
		}
	}
	r, _ := o.(Ref)
	n := walk(r, od, 0)
	if c, ok := od["Count"].(int); !ok || c > n || c < 0 {
		s.errf("outline dictionary /Count %v with %d items", od["Count"], n)
	}
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// interp runs a content stream.
func (x *extractor) interp(where string, data []byte, res Dict, base Mat) []Ev {
	d, s := x.d, x.s
	var evs []Ev
	if x.depth > 6 {
		s.errf("%s: forms nested too deep", where)
		return nil
	}
	x.depth++
	defer func() { x.depth-- }()
	g := gstate{ctm: base, fill: Color{"G", []float64{0}}, stroke: Color{"G", []float64{0}}, lw: 1, ca: 1, CA: 1, bm: "Normal", dash: "0"}
	var stack []gstate
	type seg struct {
		op byte
		p  []float64
	}
	var path []seg
	pendClip := ""
	var args []any
	inText := false
	var tm, tlm Mat
	l := &lexer{b: data}
	bad := func(f string, a ...any) { s.errf(where+": "+f, a...) }
	num := func(i int) float64 {
		f, ok := Num(args[i])
		if !ok {
			bad("operand %d is %v", i, args[i])
		}
		return f
	}
	need := func(op string, n int) bool {
		if len(args) != n {
			bad("operator %s with %d operands %v", op, len(args), args)
			return false
		}
		return true
	}
	resOf := func(cat string, n any) (any, bool) {
		nm, ok := n.(Name)
		if !ok {
			bad("%s resource name is %v", cat, n)
			return nil, false
		}
		dd := d.Dict(res[cat])
		v, ok := dd[string(nm)]
		if !ok {
			bad("/%s is not in the %s resources", nm, cat)
			return nil, false
		}
		return v, true
	}
	finish := func(stroke, fill bool) {
		if pendClip != "" {
			g.nclip++
			nc := append([]float64{}, g.clip...)
			for _, q := range path {
				nc = append(nc, q.p...)
			}
			g.clip = nc
			pendClip = ""
		}
		if (stroke || fill) && len(path) > 0 {
			e := Ev{Kind: "path", Clip: g.clip}
			var kb strings.Builder
			if stroke {
				kb.WriteString("stroke:" + g.stroke.Space + " dash=" + g.dash + " ")
				e.Col = append(e.Col, g.CA)
				e.Col = append(e.Col, g.stroke.V...)
				e.Col = append(e.Col, g.dashN...)
				e.Col = append(e.Col, g.lw)
			}
			if fill {
				kb.WriteString("fill:" + g.fill.Space + " ")
				e.Col = append(e.Col, g.ca)
				e.Col = append(e.Col, g.fill.V...)
			}
			for _, q := range path {
				kb.WriteByte(q.op)
				e.N = append(e.N, q.p...)
			}
			fmt.Fprintf(&kb, " clips=%d", g.nclip)
			e.Key = kb.String()
			e.GS, e.Mask = g.bm, g.mask
			evs = append(evs, e)
		}
		path = nil
	}
	pt := func(i int) []float64 {
		a, b := g.ctm.Apply(num(i), num(i+1))
		return []float64{a, b}
	}
	for {
		t := l.next(false)
		if l.err != nil {
			bad("content stream: %v", l.err)
			break
		}
		if _, ok := t.(eof); ok {
			break
		}
		op, ok := t.(Op)
		if !ok {
			args = append(args, t)
			if len(args) > 64 {
				bad("operand overflow")
				break
			}
			continue
		}
		switch op {
		case "q":
			if need("q", 0) {
				stack = append(stack, g)
			}
		case "Q":
			if len(stack) == 0 {
				// reported by callers that balance their state
				bad("Q without q")
				break
			}
			g = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
		case "cm":
			if need("cm", 6) {
				var m Mat
				for i := range m {
					m[i] = num(i)
				}
				g.ctm = m.Mul(g.ctm)
			}
		case "w":
			if need("w", 1) {
				g.lw = num(0)
			}
		case "J", "j", "M", "i", "ri":
			need(string(op), 1)
		case "d":
			if need("d", 2) {
				a, ok := args[0].(Array)
				if !ok {
					bad("dash array %v", args[0])
					break
				}
				g.dashN = nil
				for _, e := range a {
					f, ok := Num(e)
					if !ok {
						bad("dash array %v", a)
					}
					g.dashN = append(g.dashN, f)
				}
				g.dash = strconv.Itoa(len(a))
				if len(a) > 0 {
					g.dashN = append(g.dashN, num(1))
				}
			}
		case "g", "G", "rg", "RG", "k", "K":
			n := map[Op]int{"g": 1, "G": 1, "rg": 3, "RG": 3, "k": 4, "K": 4}[op]
			if need(string(op), n) {
				c := Color{Space: map[int]string{1: "G", 3: "RGB", 4: "CMYK"}[n]}
				for i := 0; i < n; i++ {
					c.V = append(c.V, num(i))
				}
				if op == "g" || op == "rg" || op == "k" {
					g.fill = c
				} else {
					g.stroke = c
				}
			}
		case "CS", "cs":
			if need(string(op), 1) {
				if v, ok := resOf("ColorSpace", args[0]); ok {
					c := Color{Space: x.colorSpace(where, v)}
					if op == "CS" {
						g.stroke = c
					} else {
						g.fill = c
					}
				}
			}
		case "SCN", "scn":
			c := &g.stroke
			if op == "scn" {
				c = &g.fill
			}
			c.V = nil
			for i := range args {
				c.V = append(c.V, num(i))
			}
		case "gs":
			if need("gs", 1) {
				if v, ok := resOf("ExtGState", args[0]); ok {
					x.extGState(where, v, &g, res)
				}
			}
		case "m":
			if need("m", 2) {
				path = append(path, seg{'m', pt(0)})
			}
		case "l":
			if need("l", 2) {
				path = append(path, seg{'l', pt(0)})
			}
		case "c":
			if need("c", 6) {
				path = append(path, seg{'c', append(append(pt(0), pt(2)...), pt(4)...)})
			}
		case "h":
			path = append(path, seg{'h', nil})
		case "re":
			if need("re", 4) {
				X, Y, W, H := num(0), num(1), num(2), num(3)
				var q []float64
				for _, c := range [][2]float64{{X, Y}, {X + W, Y}, {X + W, Y + H}, {X, Y + H}} {
					a, b := g.ctm.Apply(c[0], c[1])
					q = append(q, a, b)
				}
				path = append(path, seg{'r', q})
			}
		case "S":
			finish(true, false)
		case "s":
			path = append(path, seg{'h', nil})
			finish(true, false)
		case "f", "F", "f*":
			finish(false, true)
		case "B", "B*":
			finish(true, true)
		case "b", "b*":
			path = append(path, seg{'h', nil})
			finish(true, true)
		case "n":
			finish(false, false)
		case "W", "W*":
			pendClip = string(op)
		case "BT":
			if inText {
				bad("nested BT")
			}
			inText = true
			tm = Mat{1, 0, 0, 1, 0, 0}
			tlm = tm
		case "ET":
			if !inText {
				bad("ET without BT")
			}
			inText = false
		case "Tf":
			if need("Tf", 2) {
				if v, ok := resOf("Font", args[0]); ok {
					g.font = x.font(v)
				} else {
					g.font = nil
				}
				g.size = num(1)
			}
		case "Tc":
			if need("Tc", 1) {
				g.tc = num(0)
			}
		case "Td", "TD":
			if need(string(op), 2) {
				tlm = Mat{1, 0, 0, 1, num(0), num(1)}.Mul(tlm)
				tm = tlm
			}
		case "Tj", "TJ":
			if !need(string(op), 1) {
				break
			}
			if !inText {
				bad("%s outside a text object", op)
			}
			a, ok := args[0].(Array)
			if !ok {
				a = Array{args[0]}
			}
			if g.font == nil {
				bad("text shown without a font")
				break
			}
			e := Ev{Kind: "text", Clip: g.clip, GS: g.bm, Mask: g.mask}
			m := tm.Mul(g.ctm)
			e.N = append(e.N, m[0]*g.size, m[1]*g.size, g.tc)
			adv := 0.0
			for _, el := range a {
				if f, ok := Num(el); ok {
					adv -= f / 1000 * g.size
					continue
				}
				st, ok := el.(Str)
				if !ok || len(st)%2 != 0 {
					bad("TJ element %v", el)
					continue
				}
				for i := 0; i+1 < len(st); i += 2 {
					gid := int(st[i])<<8 | int(st[i+1])
					e.GIDs = append(e.GIDs, gid)
					e.N = append(e.N, m[4]+adv*m[0], m[5]+adv*m[1])
					w, ok := g.font.W[gid]
					if !ok {
						bad("glyph %d of font %s has no width", gid, g.font.Family)
						w = 1000
					}
					e.W = append(e.W, w)
					adv += float64(w)/1000*g.size + g.tc
					u, ok := g.font.ToUni[gid]
					if !ok {
						bad("glyph %d of font %s has no ToUnicode entry", gid, g.font.Family)
						u = []rune{0xFFFD}
					}
					e.Runes = append(e.Runes, u[0])
					if g.font.Outl != nil {
						o, err := g.font.Outl(gid)
						if err != nil {
							bad("glyph %d of font %s: %v", gid, g.font.Family, err)
						}
						e.Outl = append(e.Outl, o)
					}
				}
			}
			tm = Mat{1, 0, 0, 1, adv, 0}.Mul(tm)
			e.Key = fmt.Sprintf("font=%s fill:%s clips=%d", g.font.Family, g.fill.Space, g.nclip)
			e.Col = append(append(e.Col, g.ca), g.fill.V...)
			evs = append(evs, e)
		case "Do":
			if !need("Do", 1) {
				break
			}
			v, ok := resOf("XObject", args[0])
			if !ok {
				break
			}
			st, ok := d.Get(v).(*Stream)
			if !ok {
				bad("XObject %v is not a stream", args[0])
				break
			}
			r, _ := v.(Ref)
			switch st.D["Subtype"] {
			case Name("Image"):
				dg, ok := x.imgs[r.N]
				if !ok {
					var err error
					dg, err = x.ip(d, st)
					if err != nil {
						bad("image %d: %v", r.N, err)
						dg = "bad:" + err.Error()
					}
					x.imgs[r.N] = dg
				}
				evs = append(evs, Ev{Kind: "image", Key: fmt.Sprintf("%s clips=%d", dg, g.nclip), N: append([]float64{}, g.ctm[:]...), Clip: g.clip, Col: []float64{g.ca}, GS: g.bm, Mask: g.mask, obj: r.N})
			case Name("Form"):
				k := x.form(r.N, st, res)
				m := g.ctm
				if f, ok := floats(x.d, st.D["Matrix"], 6); ok {
					m = Mat{f[0], f[1], f[2], f[3], f[4], f[5]}.Mul(g.ctm)
				}
				evs = append(evs, Ev{Kind: "form", Key: fmt.Sprintf("%s clips=%d", k, g.nclip), N: append([]float64{}, m[:]...), Clip: g.clip, Col: []float64{g.ca}, GS: g.bm, Mask: g.mask})
			default:
				bad("XObject subtype %v", st.D["Subtype"])
			}
		default:
			bad("unknown operator %q", string(op))
		}
		args = args[:0]
	}
	if len(stack) > 0 {
		bad("%d unbalanced q", len(stack))
	}
	if inText {
		bad("unterminated text object")
	}
	return evs
}

// form digests a form XObject: its stream, matrix, bounding box and, resolved
// recursively, its resources.
func (x *extractor) form(n int, st *Stream, _ Dict) string {
	if k, ok := x.forms[n]; ok {
		return k
	}
	b, _, err := x.d.Data(st)
	if err != nil {
		x.s.errf("form %d: %v", n, err)
	}
	var sb strings.Builder
	if Trace {
		fmt.Println("form", string(b), x.canon(st.D["Resources"], 0))
	}
	sb.WriteString("form:" + FormHash(b))
	bb, ok := floats(x.d, st.D["BBox"], 4)
	if !ok {
		x.s.errf("form %d: bad /BBox %v", n, st.D["BBox"])
	}
	fmt.Fprintf(&sb, " bbox=%.2f", bb)
	sb.WriteString(" res=" + hash([]byte(x.canon(st.D["Resources"], 0))))
	x.forms[n] = sb.String()
	return sb.String()
}

// images lists the object numbers of the images in evs and removes them from
// there: they are not part of what is seen.
func images(evs []Ev) (o []int) {
	for i := range evs {
		if evs[i].Kind == "image" {
			o = append(o, evs[i].obj)
			evs[i].obj = 0
		}
	}
	return o
}

// FormHash digests a content stream up to white space.
func FormHash(b []byte) string {
	return hash(bytes.Join(bytes.Fields(b), []byte{' '}))
}

// Canon is a canonical rendering of an object with references resolved.
func (x *extractor) canon(v any, depth int) string { return Canon(x.d, v, depth) }

// Canon renders an object with its references resolved, for comparison.
// Trace prints what the keys of form XObjects stand for.
var Trace bool

func Canon(d *Doc, v any, depth int) string {
	if depth > 12 {
		return "..."
	}
	switch o := v.(type) {
	case Ref:
		return Canon(d, d.Objs[o.N], depth+1)
	case Dict:
		var ks []string
		for k := range o {
			if k == "Parent" || k == "Length" {
				continue
			}
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var sb strings.Builder
		sb.WriteString("<<")
		for _, k := range ks {
			sb.WriteString("/" + k + " " + Canon(d, o[k], depth+1) + " ")
		}
		return sb.String() + ">>"
	case Array:
		var sb strings.Builder
		sb.WriteString("[")
		for _, e := range o {
			sb.WriteString(Canon(d, e, depth+1) + " ")
		}
		return sb.String() + "]"
	case *Stream:
		b, _, err := d.Data(o)
		if err != nil {
			return "stream error " + err.Error()
		}
		return Canon(d, o.D, depth+1) + "stream:" + hash(b)
	case Str:
		return "(" + hex.EncodeToString(o) + ")"
	case Name:
		return "/" + string(o)
	case int:
		return strconv.FormatFloat(float64(o), 'f', 4, 64)
	case float64:
		return strconv.FormatFloat(o, 'f', 4, 64)
	}
	return fmt.Sprint(v)
}

func (x *extractor) colorSpace(where string, v any) string {
	a, ok := x.d.Get(v).(Array)
	if !ok || len(a) != 4 || a[0] != Name("Separation") {
		x.s.errf("%s: colour space %v", where, v)
		return "bad"
	}
	f := x.d.Dict(a[3])
	c1, ok := floats(x.d, f["C1"], 0)
	if !ok {
		x.s.errf("%s: colour space function %v", where, f)
	}
	return fmt.Sprintf("Sep(%v %v %.3f)", a[1], a[2], c1)
}

func (x *extractor) extGState(where string, v any, g *gstate, res Dict) {
	e := x.d.Dict(v)
	if e == nil {
		x.s.errf("%s: ExtGState %v is not a dictionary", where, v)
		return
	}
	for k, val := range e {
		switch k {
		case "Type":
		case "ca":
			g.ca, _ = Num(val)
		case "CA":
			g.CA, _ = Num(val)
		case "BM":
			n, _ := x.d.Get(val).(Name)
			g.bm = string(n)
		case "AIS":
		case "SMask":
			if x.d.Get(val) == Name("None") {
				g.mask = nil
				break
			}
			r, _ := val.(Ref)
			if m, ok := x.masks[r.N]; ok && r.N != 0 {
				g.mask = m
				break
			}
			g.mask = x.softMask(where, val, res)
			if r.N != 0 {
				x.masks[r.N] = g.mask
			}
		default:
			x.s.errf("%s: ExtGState key %s", where, k)
		}
	}
}

func (x *extractor) softMask(where string, val any, res Dict) *MaskSem {
	m := x.d.Dict(val)
	if m == nil || m["S"] == nil {
		x.s.errf("%s: soft mask %v", where, m)
		return &MaskSem{S: "bad"}
	}
	gst, ok := x.d.Get(m["G"]).(*Stream)
	if !ok || gst.D["Subtype"] != Name("Form") {
		x.s.errf("%s: soft mask group %v", where, m["G"])
		return &MaskSem{S: "bad"}
	}
	b, _, err := x.d.Data(gst)
	if err != nil {
		x.s.errf("%s: soft mask group: %v", where, err)
	}
	ms := &MaskSem{S: fmt.Sprint(m["S"])}
	ms.BBox, _ = floats(x.d, gst.D["BBox"], 4)
	if r := x.d.Dict(gst.D["Resources"]); r != nil {
		res = r
	}
	ms.Evs = x.interp(where+" mask", b, res, Mat{1, 0, 0, 1, 0, 0})
	images(ms.Evs)
	return ms
}

// Fl renders floats at one decimal (for keys).
func Fl(v []float64) string {
	var sb strings.Builder
	sb.WriteByte('[')
	for _, f := range v {
		r := math.Round(f*10) / 10
		if r == 0 {
			r = 0
		}
		fmt.Fprintf(&sb, "%.1f ", r)
	}
	return sb.String() + "]"
}

func (x *extractor) font(v any) *FontRes {
	r, _ := v.(Ref)
	if f, ok := x.fonts[r.N]; ok {
		return f
	}
	f := &FontRes{W: map[int]int{}, ToUni: map[int][]rune{}}
	x.fonts[r.N] = f
	bad := func(s string, a ...any) { f.Err = append(f.Err, fmt.Sprintf(s, a...)) }
	d := x.d
	fd := d.Dict(v)
	if fd == nil || fd["Type"] != Name("Font") || fd["Subtype"] != Name("Type0") || fd["Encoding"] != Name("Identity-H") {
		bad("font dictionary %v", fd)
		return f
	}
	n, _ := fd["BaseFont"].(Name)
	f.Family = string(n)
	df, ok := d.Get(fd["DescendantFonts"]).(Array)
	if !ok || len(df) != 1 {
		bad("DescendantFonts %v", fd["DescendantFonts"])
		return f
	}
	cid := d.Dict(df[0])
	if cid == nil || cid["Subtype"] != Name("CIDFontType2") {
		bad("descendant font %v", cid)
		return f
	}
	if cid["BaseFont"] != fd["BaseFont"] {
		bad("descendant BaseFont %v", cid["BaseFont"])
	}
	info := d.Dict(cid["CIDSystemInfo"])
	_, ok1 := info["Registry"].(Str)
	_, ok2 := info["Ordering"].(Str)
	_, ok3 := info["Supplement"].(int)
	if !ok1 || !ok2 || !ok3 {
		bad("CIDSystemInfo %v", info)
	}
	for _, k := range []string{"Ascent", "Descent", "CapHeight", "Flags", "ItalicAngle", "StemV"} {
		if _, ok := Num(d.Dict(cid["FontDescriptor"])[k]); !ok {
			bad("font descriptor without %s", k)
		}
	}
	if cid["CIDToGIDMap"] != nil && cid["CIDToGIDMap"] != Name("Identity") {
		bad("CIDToGIDMap %v", cid["CIDToGIDMap"])
	}
	w, _ := d.Get(cid["W"]).(Array)
	for i := 0; i+1 < len(w); {
		c, ok := w[i].(int)
		if !ok {
			bad("W array")
			break
		}
		if a, ok := w[i+1].(Array); ok {
			for k, e := range a {
				v, ok := Num(e)
				if !ok {
					bad("W array")
				}
				if o, dup := f.W[c+k]; dup && o != int(v) {
					bad("glyph %d has widths %d and %v", c+k, o, v)
				}
				f.W[c+k] = int(v)
			}
			i += 2
			continue
		}
		if i+2 >= len(w) {
			bad("W array")
			break
		}
		c2, ok1 := w[i+1].(int)
		v, ok2 := Num(w[i+2])
		if !ok1 || !ok2 || c2-c > 70000 {
			bad("W array")
			break
		}
		for k := c; k <= c2; k++ {
			f.W[k] = int(v)
		}
		i += 3
	}
	tu, ok := d.Get(fd["ToUnicode"]).(*Stream)
	if !ok {
		bad("no ToUnicode stream")
	} else if b, _, err := d.Data(tu); err != nil {
		bad("ToUnicode: %v", err)
	} else {
		f.cmap(b)
	}
	desc := d.Dict(cid["FontDescriptor"])
	if desc == nil || desc["FontName"] != fd["BaseFont"] {
		bad("font descriptor %v", desc)
		return f
	}
	ff, ok := d.Get(desc["FontFile2"]).(*Stream)
	if !ok {
		bad("no FontFile2")
		return f
	}
	b, _, err := d.Data(ff)
	if err != nil {
		bad("FontFile2: %v", err)
		return f
	}
	if ff.D["Length1"] != len(b) {
		bad("FontFile2 /Length1 %v, program has %d bytes", ff.D["Length1"], len(b))
	}
	var errs []string
	var bbox []float64
	bb, _ := d.Get(desc["FontBBox"]).(Array)
	for _, e := range bb {
		if v, ok := Num(e); ok {
			bbox = append(bbox, v)
		}
	}
	f.Outl, errs = x.fp(b, bbox)
	f.Err = append(f.Err, errs...)
	return f
}

// cmap reads a ToUnicode CMap.
func (f *FontRes) cmap(b []byte) {
	l := &lexer{b: b}
	var st []any
	var space [][2]int
	count := 0
	for {
		t := l.next(false)
		if l.err != nil {
			f.Err = append(f.Err, fmt.Sprintf("ToUnicode: %v", l.err))
			return
		}
		if _, ok := t.(eof); ok {
			return
		}
		op, ok := t.(Op)
		if !ok {
			st = append(st, t)
			continue
		}
		switch op {
		case "endcodespacerange":
			for i := 0; i+1 < len(st); i += 2 {
				a, ok1 := st[i].(Str)
				z, ok2 := st[i+1].(Str)
				if !ok1 || !ok2 || len(a) != len(z) || len(a) != 2 || string(a) > string(z) {
					f.Err = append(f.Err, fmt.Sprintf("ToUnicode: codespacerange %x %x for two byte codes", st[i], st[i+1]))
					return
				}
				space = append(space, [2]int{int(a[0])<<8 | int(a[1]), int(z[0])<<8 | int(z[1])})
			}
			st = nil
		case "endbfrange", "endbfchar":
			if op == "endbfchar" { // every character is a range of one
				var rs []any
				for i := 0; i+1 < len(st); i += 2 {
					rs = append(rs, st[i], st[i], st[i+1])
				}
				if len(st)%2 != 0 {
					rs = append(rs, nil)
				}
				st = rs
			}
			if len(st)/3 != count || count > 100 {
				f.Err = append(f.Err, fmt.Sprintf("ToUnicode: block of %d ranges declared to have %d", len(st)/3, count))
			}
			if len(st)%3 != 0 {
				f.Err = append(f.Err, "ToUnicode: malformed bfrange")
				return
			}
			for i := 0; i+2 < len(st); i += 3 {
				a, ok1 := st[i].(Str)
				z, ok2 := st[i+1].(Str)
				u, ok3 := st[i+2].(Str)
				if !ok1 || !ok2 || !ok3 || len(a) != 2 || len(z) != 2 || len(u) < 2 || len(u)%2 != 0 {
					f.Err = append(f.Err, fmt.Sprintf("ToUnicode: bfrange %v %v %v", st[i], st[i+1], st[i+2]))
					return
				}
				var us []uint16
				for k := 0; k < len(u); k += 2 {
					us = append(us, uint16(u[k])<<8|uint16(u[k+1]))
				}
				r := utf16.Decode(us)
				in := false
				for _, s := range space {
					in = in || s[0] <= int(a[0])<<8|int(a[1]) && int(z[0])<<8|int(z[1]) <= s[1]
				}
				if !in {
					f.Err = append(f.Err, fmt.Sprintf("ToUnicode: range %x %x is outside the code space", a, z))
				}
				for c := int(a[0])<<8 | int(a[1]); c <= int(z[0])<<8|int(z[1]); c++ {
					if _, dup := f.ToUni[c]; !dup {
						f.ToUni[c] = append([]rune{}, r...)
					}
					r[len(r)-1]++
				}
			}
			st = nil
		case "beginbfrange", "beginbfchar":
			count = -1
			if len(st) > 0 {
				if n, ok := st[len(st)-1].(int); ok {
					count = n
				}
			}
			st = nil
		default:
			st = nil
		}
	}
}
