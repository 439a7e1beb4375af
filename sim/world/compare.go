package world

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"verifsim/imgx"
	"verifsim/pdfr"
	"verifsim/ttfx"
)

// Extract reads the meaning of a parsed document.
func Extract(d *pdfr.Doc) *pdfr.Sem { return pdfr.Extract(d, fontProgram, imgx.Digest) }

func fontProgram(b []byte, bbox []float64) (func(int) (uint64, error), []string) {
	f, err := ttfx.Read(b)
	if err != nil {
		return nil, []string{"embedded font program: " + err.Error()}
	}
	if bad := ttfx.Directory(b); bad != "" {
		return f.Outline, []string{"embedded font program: " + bad}
	}
	k := 1000 / float64(f.UPM)
	if want := []float64{float64(f.XMin) * k, float64(f.YMin) * k, float64(f.XMax) * k, float64(f.YMax) * k}; !nearAll(bbox, want, 1) {
		return f.Outline, []string{fmt.Sprintf("FontBBox %v, the font program says %.1f", bbox, want)}
	}
	return f.Outline, nil
}

// diffSem names the first difference between two document meanings.
func diffSem(p, q *pdfr.Sem) string {
	if len(p.Pages) != len(q.Pages) {
		return fmt.Sprintf("%d pages and %d pages", len(p.Pages), len(q.Pages))
	}
	for i := range p.Pages {
		a, b := p.Pages[i], q.Pages[i]
		if a.Media != b.Media || !reflect.DeepEqual(a.Trim, b.Trim) {
			return fmt.Sprintf("page %d: boxes %v %v and %v %v", i+1, a.Media, a.Trim, b.Media, b.Trim)
		}
		if len(a.Links)+len(b.Links) > 0 && !reflect.DeepEqual(a.Links, b.Links) {
			return fmt.Sprintf("page %d: links %v and %v", i+1, a.Links, b.Links)
		}
		n := min(len(a.Evs), len(b.Evs))
		for k := 0; k < n; k++ {
			if !reflect.DeepEqual(a.Evs[k], b.Evs[k]) {
				return fmt.Sprintf("page %d item %d: %s and %s", i+1, k, brief(a.Evs[k]), brief(b.Evs[k]))
			}
		}
		if len(a.Evs) != len(b.Evs) {
			return fmt.Sprintf("page %d: %d and %d items", i+1, len(a.Evs), len(b.Evs))
		}
	}
	if len(p.Outlines)+len(q.Outlines) > 0 && !reflect.DeepEqual(p.Outlines, q.Outlines) {
		return fmt.Sprintf("outlines %v and %v", p.Outlines, q.Outlines)
	}
	if len(p.Info)+len(q.Info) > 0 && !reflect.DeepEqual(p.Info, q.Info) {
		return fmt.Sprintf("info %v and %v", p.Info, q.Info)
	}
	return ""
}

func brief(e pdfr.Ev) string {
	s := fmt.Sprintf("%s %s %.2f %q col=%.3f gs=%s", e.Kind, e.Key, e.N, string(e.Runes), e.Col, e.GS)
	if e.Mask != nil {
		s += fmt.Sprintf(" mask(%s %.1f, %d items)", e.Mask.S, e.Mask.BBox, len(e.Mask.Evs))
	}
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func (x item) String() string {
	if x.G != nil {
		g := x.G
		return fmt.Sprintf("glyph %q gid %d w %d at %.2f,%.2f size %.2f,%.2f tc %.2f [%s] col=%.3f gs=%s", g.r, g.gid, g.w, g.x, g.y, g.vx, g.vy, g.tc, x.E.Key, x.E.Col, x.E.GS)
	}
	return brief(x.E)
}

// flatten turns shown text into one item per glyph.
func flatten(evs []pdfr.Ev) []item {
	var o []item
	for _, e := range evs {
		if e.Kind != "text" {
			o = append(o, item{E: e})
			continue
		}
		for i := range e.Runes {
			g := &gl{r: e.Runes[i], gid: e.GIDs[i], w: e.W[i], vx: e.N[0], vy: e.N[1], tc: e.N[2], x: e.N[3+2*i], y: e.N[4+2*i]}
			if i < len(e.Outl) {
				g.outl = e.Outl[i]
			}
			o = append(o, item{E: pdfr.Ev{Kind: "text", Key: e.Key, Col: e.Col, Clip: e.Clip, GS: e.GS, Mask: e.Mask}, G: g})
		}
	}
	return o
}

const (
	tolPos = 0.06   // two printed decimals, combined through one or two matrices
	tolCol = 0.0021 // three printed decimals
)

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

// nearAll: the matrices that turn what lies off the page are printed to five
// decimals, so its place is less exact the further off it is.
func nearAll(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	far := 0.0
	for i := range b {
		far = math.Max(far, math.Abs(b[i])-1500)
	}
	tol += 5e-5 * far
	for i := range a {
		if !near(a[i], b[i], tol) {
			return false
		}
	}
	return true
}

type mism struct{ class, msg string }

// Debug prints the surroundings of the first difference.
var Debug bool

// sameItem compares what a viewer shows with what the model expects.
func sameItem(got, want item) *mism {
	bad := func(class, f string, a ...any) *mism { return &mism{class, fmt.Sprintf(f, a...)} }
	g, w := got.E, want.E
	switch w.Kind {
	case "text":
		a, b := got.G, want.G
		if !b.font.means(a.r, b.r, b.gid) {
			return bad("text", "character %q shown, want %q", a.r, b.r)
		}
		if a.w != b.w {
			return bad("fontsubset", "width of %q is %d, the font says %d", b.r, a.w, b.w)
		}
		if a.outl != b.outl {
			return bad("fontsubset", "the embedded glyph of %q differs from the font's", b.r)
		}
		gk, wk := strings.SplitN(g.Key, " ", 2), strings.SplitN(w.Key, " ", 2)
		if gk[0] != wk[0] {
			return bad("text", "%q is shown in %s, want %s", b.r, gk[0], wk[0])
		}
		if !near(a.vx, b.vx, 0.02+0.001*math.Abs(b.vx)) || !near(a.vy, b.vy, 0.02+0.001*math.Abs(b.vx)) || !near(a.tc, b.tc, 0.006) {
			return bad("text", "%q is shown at size (%.2f,%.2f) spacing %.3f, want (%.2f,%.2f) %.3f", b.r, a.vx, a.vy, a.tc, b.vx, b.vy, b.tc)
		}
		if !nearAll([]float64{a.x, a.y}, []float64{b.x, b.y}, tolPos+b.drift) {
			return bad("textpos", "%q is at (%.2f,%.2f), want (%.2f,%.2f)", b.r, a.x, a.y, b.x, b.y)
		}
		if gk[1] != wk[1] {
			return bad("gfx", "%q is drawn with %s, want %s", b.r, gk[1], wk[1])
		}
		if !nearAll(g.Col, w.Col, tolCol) {
			return bad("gfx", "%q is drawn with alpha and colour %.3f, want %.3f", b.r, g.Col, w.Col)
		}
	case "path":
		if g.Key != w.Key {
			c := "gfx"
			if keyPath(g.Key) != keyPath(w.Key) {
				c = "path"
			}
			return bad(c, "path drawn as %s, want %s", g.Key, w.Key)
		}
		if !nearAll(g.N, w.N, tolPos) {
			return bad("path", "path %s through %.2f, want %.2f", w.Key, g.N, w.N)
		}
		if !nearAll(g.Col, w.Col, 0.0061) {
			return bad("gfx", "path %s drawn with %.3f, want %.3f", w.Key, g.Col, w.Col)
		}
	default:
		if g.Key != w.Key {
			return bad(w.Kind, "%s is %s, want %s", w.Kind, g.Key, w.Key)
		}
		if !nearAll(g.N, w.N, tolPos) {
			return bad(w.Kind+"pos", "%s %s placed by %.2f, want %.2f", w.Kind, w.Key, g.N, w.N)
		}
		if !nearAll(g.Col, w.Col, tolCol) {
			return bad("gfx", "%s drawn with alpha %.3f, want %.3f", w.Kind, g.Col, w.Col)
		}
	}
	if len(g.Col) > 0 && len(w.Col) > 0 && !near(g.Col[0], w.Col[0], 0.0006) {
		return bad("gfx", "%s is drawn with alpha %.4f, want %.4f", w.Kind, g.Col[0], w.Col[0])
	}
	if g.GS != w.GS {
		return bad("gfx", "%s drawn with blend mode %s, want %s", w.Kind, g.GS, w.GS)
	}
	if !nearAll(g.Clip, w.Clip, tolPos) {
		return bad("clip", "%s clipped by %.2f, want %.2f", w.Kind, g.Clip, w.Clip)
	}
	if (g.Mask == nil) != (w.Mask == nil) {
		return bad("mask", "%s: soft mask in effect %v, want %v", w.Kind, g.Mask != nil, w.Mask != nil)
	}
	if g.Mask != nil {
		if g.Mask.S != w.Mask.S && g.Mask.S != "/"+w.Mask.S || !nearAll(g.Mask.BBox, w.Mask.BBox, tolPos) {
			return bad("mask", "soft mask %s %.2f, want %s %.2f", g.Mask.S, g.Mask.BBox, w.Mask.S, w.Mask.BBox)
		}
		if len(g.Mask.Evs) != len(w.Mask.Evs) {
			return bad("mask", "soft mask shows %d items, want %d", len(g.Mask.Evs), len(w.Mask.Evs))
		}
		for i := range g.Mask.Evs {
			if m := sameItem(item{E: g.Mask.Evs[i]}, item{E: w.Mask.Evs[i]}); m != nil {
				return bad("mask", "soft mask item %d: %s", i, m.msg)
			}
		}
	}
	return nil
}

// keyPath is the segment part of a path key.
func keyPath(k string) string {
	f := strings.Fields(k)
	for _, s := range f {
		if !strings.Contains(s, ":") && !strings.Contains(s, "=") {
			return s
		}
	}
	return ""
}

// judge compares an extracted document with what the model expects.
func judge(s *pdfr.Sem, x *Expected) []mism {
	var out []mism
	add := func(class, f string, a ...any) {
		if len(out) < 12 {
			out = append(out, mism{class, fmt.Sprintf(f, a...)})
		}
	}
	for _, e := range s.Errs {
		if i := strings.Index(e, "page "); i == 0 && (strings.Contains(e, "unbalanced q") || strings.Contains(e, "Q without q")) {
			var n int
			fmt.Sscanf(e, "page %d:", &n)
			if n < len(x.Pages) && (x.Pages[n].Open > 0 || x.Pages[n].Over > 0) {
				continue
			}
		}
		add("struct", "%s", e)
		if strings.HasPrefix(e, "font ") {
			add("fontsubset", "%s", e)
		}
	}
	if len(s.Pages) != len(x.Pages) {
		add("pages", "%d pages, want %d", len(s.Pages), len(x.Pages))
		return out
	}
	stored := map[string]int{}
	for i := range s.Pages {
		p, w := s.Pages[i], x.Pages[i]
		if !nearAll(p.Media[:], w.Media[:], 0.011) {
			add("pages", "page %d has MediaBox %v, want %v", i+1, p.Media, w.Media)
		}
		if !nearAll(p.Trim, w.Trim, 0.011) {
			add("pages", "page %d has TrimBox %v, want %v", i+1, p.Trim, w.Trim)
		}
		bad := len(out)
		judgeItems(i, flatten(p.Evs), w.Items, add)
		if len(out) == bad {
			n := 0
			for _, t := range w.Items {
				if t.E.Kind != "image" {
					continue
				}
				if o, ok := stored[t.E.Src]; ok && t.E.Src != "" && o != p.Imgs[n] {
					add("image", "page %d image %d: the image stored in object %d is drawn again, from object %d", i+1, n, o, p.Imgs[n])
				}
				stored[t.E.Src] = p.Imgs[n]
				n++
			}
		}
		if len(p.Links) != len(w.Links) {
			add("links", "page %d has %d links, want %d", i+1, len(p.Links), len(w.Links))
			continue
		}
		for k, l := range p.Links {
			e := w.Links[k]
			if !nearAll(l.Rect[:], e.rect[:], 0.02) {
				add("links", "page %d link %d covers %.2f, want %.2f", i+1, k, l.Rect, e.rect)
			}
			if e.anchor == "" {
				if l.URI != e.uri || l.Page >= 0 {
					add("links", "page %d link %d goes to %q page %d, want %q", i+1, k, l.URI, l.Page+1, e.uri)
				}
				continue
			}
			a, ok := x.Anchors[e.anchor]
			switch {
			case !ok && (l.Page >= 0 || l.URI != ""):
				add("links", "page %d link %d goes to page %d %q although the anchor %q is not set", i+1, k, l.Page+1, l.URI, e.anchor)
			case ok && (l.Page != a.page || !near(l.Y, a.y, 0.02)):
				add("links", "page %d link %d goes to page %d height %.2f, the anchor %q is on page %d height %.2f", i+1, k, l.Page+1, l.Y, e.anchor, a.page+1, a.y)
			}
		}
	}
	if len(s.Outlines) != len(x.Outlines) {
		add("outline", "%d outline items, want %d", len(s.Outlines), len(x.Outlines))
	} else {
		for i, o := range s.Outlines {
			e := x.Outlines[i]
			if o.Title != e.title || o.Page != e.page || o.Level != e.level || !near(o.Y, e.y, 0.02) {
				add("outline", "outline item %d is %q page %d level %d height %.2f, want %q page %d level %d height %.2f", i, o.Title, o.Page+1, o.Level, o.Y, e.title, e.page+1, e.level, e.y)
			}
		}
	}
	for k, v := range x.Info {
		if s.Info[k] != v {
			add("info", "info %s is %q, want %q", k, s.Info[k], v)
		}
	}
	for k, v := range s.Info {
		if _, ok := x.Info[k]; !ok {
			add("info", "info %s is %q, none was set", k, v)
		}
	}
	return out
}

func judgeItems(pg int, got, want []item, add func(string, string, ...any)) {
	n := 0
	for _, kind := range []string{"text", "path", "image", "form"} {
		var a, b []item
		for _, x := range got {
			if x.E.Kind == kind {
				a = append(a, x)
			}
		}
		for _, x := range want {
			if x.E.Kind == kind {
				b = append(b, x)
			}
		}
		for i := 0; i < len(a) || i < len(b); i++ {
			switch {
			case i >= len(a):
				add(kind, "page %d: %d %s items are missing, first %v", pg+1, len(b)-i, kind, b[i])
				n++
			case i >= len(b):
				add(kind, "page %d: %d %s items too many, first %v", pg+1, len(a)-i, kind, a[i])
				n++
			default:
				if m := sameItem(a[i], b[i]); m != nil {
					add(m.class, "page %d %s item %d: %s", pg+1, kind, i, m.msg)
					n++
					if Debug && kind == "text" {
						for j := max(0, i-12); j < i+12 && j < len(a) && j < len(b); j++ {
							fmt.Printf("  %d: %q g%d (%.3f,%.3f) w%d | want %q g%d (%.3f,%.3f) w%d\n", j, a[j].G.r, a[j].G.gid, a[j].G.x, a[j].G.y, a[j].G.w, b[j].G.r, b[j].G.gid, b[j].G.x, b[j].G.y, b[j].G.w)
						}
					}
				} else {
					continue
				}
			}
			break
		}
	}
	if n > 0 {
		return
	}
	for i := range got {
		if got[i].E.Kind != want[i].E.Kind {
			add("pages", "page %d: item %d is %v, want %v (drawing order)", pg+1, i, got[i], want[i])
			return
		}
	}
}
