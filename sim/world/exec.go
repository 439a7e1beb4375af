package world

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"image"
	"io"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/phpdave11/gofpdi"
	"github.com/signintech/gopdf"

	"verifsim/imgx"
	"verifsim/simrt"
)

// Res is what one operation returned.
type Res struct {
	Err   string    // "" for nil
	V     []float64 // returned numbers
	Fired bool      // an injected fault was delivered
	Skip  bool      // the operation could not be issued (harness condition)
	X, Y  float64   // GetX, GetY afterwards
	Pages int
	Out   []byte
	Done  bool // Out is claimed to be the complete document
	Lines []string
	Tab   [][]string // lines of the cells of a table
}

// contEvent is one operation on a font container.
type contEvent struct {
	Cont      int
	Fam       string
	Write     bool
	Val       int // font index stored or observed; -1 none
	Call, Ret int64
	Task      int
}

// DocRun is one document being built by one task.
type DocRun struct {
	E        *Env
	D        *DocSpec
	ID       int
	Solo     bool
	G        *gopdf.GoPdf
	Res      []Res
	Viol     []Violation
	Cnt      Counters
	Dead     bool
	hold     map[int]gopdf.ImageHolder
	masks    map[int]*gopdf.MaskOptions
	mem      []canary
	cont     []*gopdf.FontContainer
	Hist     []contEvent
	outl     []*gopdf.OutlineObj
	tpls     []int
	tabs     map[int]tabKept
	importer *gofpdi.Importer
	rs       io.ReadSeeker
	mine     []memCheck
	lent     []memCheck
	NoScrib  bool // callers do not reuse their arguments
	Mute     int  // only this serialisation takes place, if not 0
	op       int
}

type memCheck struct {
	what  string
	ok    func() bool
	spoil func()
}

func (r *DocRun) viol(class, f string, a ...any) {
	if len(r.Viol) < 20 {
		r.Viol = append(r.Viol, Violation{Class: class, Doc: r.ID, Op: r.op, Msg: fmt.Sprintf(f, a...)})
	}
}

func errs(err error) string {
	if err == nil {
		return ""
	}
	if s := err.Error(); s != "" {
		return s
	}
	return "error"
}

// NewRun prepares a document task.
func NewRun(e *Env, id int, conts []*gopdf.FontContainer) *DocRun {
	return &DocRun{E: e, D: &e.W.Docs[id], ID: id, Cnt: Counters{}, hold: map[int]gopdf.ImageHolder{}, masks: map[int]*gopdf.MaskOptions{}, cont: conts}
}

// frame names the innermost gopdf function of a panic.
func frame() string {
	pc := make([]uintptr, 64)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "signintech/gopdf") && !strings.Contains(f.Function, "verif") {
			return f.Function[strings.LastIndex(f.Function, "/")+1:]
		}
		if !more {
			return "?"
		}
	}
}

// Run executes the history.
func (r *DocRun) Run() {
	r.op = -1
	if !r.guard(r.start) {
		return
	}
	r.takeBack()
	for i := range r.D.Ops {
		r.op = i
		var res Res
		simrt.Seam(seamOp)
		ok := r.Mute > 0 && i != r.Mute && r.D.Ops[i].K == "out" || r.guard(func() { res = r.do(&r.D.Ops[i]) })
		if !ok {
			r.Dead = true
			r.Res = append(r.Res, res)
			return
		}
		r.takeBack()
		res.X, res.Y, res.Pages = r.G.GetX(), r.G.GetY(), r.G.GetNumberOfPages()
		r.Res = append(r.Res, res)
	}
	r.op = len(r.D.Ops)
	for _, c := range r.mine {
		if !c.ok() {
			r.viol("memory", "%s was modified", c.what)
		}
	}
}

// guard runs f within a step budget and turns a panic into a violation.
func (r *DocRun) guard(f func()) (ok bool) {
	defer func() {
		simrt.EndOp()
		if p := recover(); p != nil {
			switch v := p.(type) {
			case simrt.Hang:
				r.viol("hang", "%s does not return (%v)", r.opName(), v)
			case simrt.Exit:
				r.viol("exit", "%s ended the process with status %d", r.opName(), v.Code)
			default:
				s := fmt.Sprint(p)
				if strings.HasPrefix(s, "simulator:") {
					panic(p)
				}
				r.viol("panic", "%s panics in %s: %v", r.opName(), frame(), p)
			}
		}
	}()
	simrt.BeginOp()
	f()
	return true
}

func (r *DocRun) opName() string {
	if r.op < 0 || r.op >= len(r.D.Ops) {
		return "Start"
	}
	return r.D.Ops[r.op].K
}

func (r *DocRun) start() {
	d := r.D
	if r.G == nil {
		r.G = &gopdf.GoPdf{}
	}
	r.outl, r.tpls = nil, nil
	r.hold, r.masks = map[int]gopdf.ImageHolder{}, map[int]*gopdf.MaskOptions{} // a holder is read once
	cfg := gopdf.Config{Unit: d.Unit, ConversionForUnit: d.Conv, PageSize: *r.rect(d.P, []float64{d.W, d.H}), TrimBox: gopdf.Box{Left: d.Trim[0], Top: d.Trim[1], Right: d.Trim[2], Bottom: d.Trim[3]}}
	if d.Prot != nil {
		u := append(make([]byte, 0, 64), d.Prot.User...)
		o := append(make([]byte, 0, 64), d.Prot.Owner...)
		for _, b := range [][]byte{u, o} {
			full := b[:cap(b)]
			for i := len(b); i < cap(b); i++ {
				full[i] = 0xA5
			}
			c := append([]byte{}, full...)
			r.lend("the caller's password buffer", func() bool { return bytes.Equal(full, c) }, func() {
				for i := range full {
					full[i] = 'z'
				}
			})
		}
		cfg.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: d.Prot.Perm, UserPass: u, OwnerPass: o}
	}
	if !d.Imp {
		r.G.Start(cfg)
		return
	}
	// an importer serves one document: gofpdi remembers which objects it has written
	r.importer = gofpdi.NewImporter()
	r.G.StartWithImporter(cfg, r.importer)
}

// lend remembers something the caller owns. Either it must never change, or,
// in worlds whose callers reuse what they passed, it must not have changed
// during the call and is overwritten right after it.
func (r *DocRun) lend(what string, ok func() bool, spoil func()) {
	r.lent = append(r.lent, memCheck{what, ok, spoil})
}

// takeBack ends the loans of a call.
func (r *DocRun) takeBack() {
	for i, c := range r.lent {
		if !r.E.W.Scrib || simrt.Mix(r.E.W.Seed, 0x5C1B, uint64(r.op+1), uint64(i))%4 == 0 {
			r.mine = append(r.mine, c)
			continue
		}
		if !c.ok() {
			r.viol("memory", "%s was modified", c.what)
		}
		if c.spoil != nil && !r.NoScrib {
			c.spoil()
			r.Cnt["env_argument_reused"]++
		}
	}
	r.lent = r.lent[:0]
}

// watch remembers a caller-owned block that must not change.
func (r *DocRun) watch(what string, b []byte) {
	c := append([]byte{}, b...)
	r.mine = append(r.mine, memCheck{what, func() bool { return bytes.Equal(b, c) }, nil})
}

// rect is the rectangle a call is given: one of the caller's or one of the
// page sizes of the package, which all documents share.
func (r *DocRun) rect(named int, f []float64) *gopdf.Rect {
	if named > 0 {
		p := pageSizes[named-1]
		r.lend("a page size of the package", func() bool { return p.W == named2[named-1][0] && p.H == named2[named-1][1] }, nil)
		return p
	}
	return r.watchRect(rectOf(f))
}

func rectOf(f []float64) *gopdf.Rect {
	if len(f) < 2 {
		return nil
	}
	return &gopdf.Rect{W: f[0], H: f[1]}
}

// watchRect remembers a caller-owned rectangle.
func (r *DocRun) watchRect(p *gopdf.Rect) *gopdf.Rect {
	if p != nil {
		c := *p
		r.lend("the caller's Rect", func() bool { return *p == c }, func() { p.W, p.H = 3.25, 977 })
	}
	return p
}

func (r *DocRun) tr(t *Tr) *gopdf.Transparency {
	if t == nil {
		return nil
	}
	p := &gopdf.Transparency{Alpha: t.A, BlendModeType: gopdf.BlendModeType(t.BM)}
	r.lend("the caller's Transparency", func() bool {
		return p.Alpha == t.A && string(p.BlendModeType) == t.BM
	}, func() { p.Alpha, p.BlendModeType = 0.123, gopdf.Hue })
	return p
}

func u8(i []int, k int) uint8 { return uint8(i[k]) }

func (r *DocRun) run(ops []Op) {
	for i := range ops {
		r.do(&ops[i])
	}
}

func pts(f []float64) []gopdf.Point {
	var p []gopdf.Point
	for i := 0; i+1 < len(f); i += 2 {
		p = append(p, gopdf.Point{X: f[i], Y: f[i+1]})
	}
	return p
}

// ttfOpt builds the font option of an op: I = [font, style, kern, substitute].
func ttfOpt(op *Op) (gopdf.TtfOption, bool) {
	if op.I[1] == 0 && op.I[2] == 0 && op.I[3] == 0 {
		return gopdf.TtfOption{}, false
	}
	o := gopdf.TtfOption{Style: op.I[1], UseKerning: op.I[2] != 0}
	if op.I[3] == 1 {
		o.OnGlyphNotFoundSubstitute = func(rune) rune { return '?' }
	}
	return o, true
}

// do performs one operation. It must depend on nothing but the world.
func (r *DocRun) do(op *Op) (res Res) {
	g := r.G
	e := r.E
	r.Cnt["op_"+op.K]++
	fail := func(err error) { res.Err = errs(err) }
	switch op.K {
	case "addpage":
		if len(op.F) == 0 {
			g.AddPage()
			break
		}
		var o gopdf.PageOption
		if op.F[0] != 0 {
			o.PageSize = r.rect(op.P, op.F)
		}
		if len(op.F) == 6 {
			o.TrimBox = &gopdf.Box{Left: op.F[2], Top: op.F[3], Right: op.F[4], Bottom: op.F[5]}
			b, c := o.TrimBox, *o.TrimBox
			r.lend("the caller's Box", func() bool { return *b == c }, func() { *b = gopdf.Box{Left: 1, Top: 1, Right: 2, Bottom: 2} })
		}
		g.AddPageWithOption(o)
	case "restart":
		r.start()
	case "many":
		for i := 0; i < op.I[0]; i++ {
			r.run(op.Sub)
		}
	case "setpage":
		fail(g.SetPage(op.I[0]))
	case "font":
		r.font(op, &res)
	case "contadd":
		r.contAdd(op, &res)
	case "contfont":
		fail(g.AddTTFFontFromFontContainer(op.S[0], r.cont[op.I[0]]))
	case "cuse":
		r.contUse(op, &res)
	case "badsrc":
		fail(r.badSource(op))
	case "bad":
		r.bad(op, &res)
	case "kernover":
		d := int16(op.I[0])
		fail(g.KernOverride(op.S[0], func(_, _ rune, _, _ uint, v int16) int16 { return v + d }))
	case "setfont":
		if len(op.I) > 0 {
			fail(g.SetFontWithStyle(op.S[0], op.I[0], op.F[0]))
			break
		}
		var size any = op.F[0]
		if n := int(op.F[0]); float64(n) == op.F[0] {
			size = []any{n, op.F[0], uint8(n), int16(n), float32(n)}[(n+len(op.S[1]))%5]
		}
		fail(g.SetFont(op.S[0], op.S[1], size))
	case "fontsize":
		fail(g.SetFontSize(op.F[0]))
	case "spacing":
		fail(g.SetCharSpacing(op.F[0]))
	case "text":
		fail(g.Text(op.S[0]))
	case "arabic":
		t := gopdf.ToArabic(op.S[0])
		if bad := checkArabic(op.S[0], t); bad != "" {
			r.viol("arabic", "%s", bad)
		}
		res.Lines = []string{t}
		fail(g.Text(t))
	case "cell":
		fail(g.Cell(r.rect(op.P, op.F), op.S[0]))
	case "cellopt":
		o := gopdf.CellOption{Align: op.I[0], Border: op.I[1], Float: op.I[2], Transparency: r.tr(op.T)}
		f := op.F
		if len(f)%2 == 1 {
			o.CoefUnderlinePosition, o.CoefLineHeight, o.CoefUnderlineThickness = f[len(f)-3], f[len(f)-2], f[len(f)-1]
			f = f[:len(f)-3]
		}
		fail(g.CellWithOption(r.rect(op.P, f), op.S[0], o))
	case "multicell":
		o := gopdf.CellOption{Align: op.I[0], Border: 0, Float: gopdf.Right, Transparency: r.tr(op.T)}
		switch op.I[1] {
		case 1, 4:
			o.BreakOption = &gopdf.BreakOption{Mode: gopdf.BreakModeIndicatorSensitive, BreakIndicator: ' '}
		case 2:
			o.BreakOption = &gopdf.BreakOption{Separator: "-"}
		case 3:
			o.BreakOption = &gopdf.BreakOption{Mode: gopdf.BreakModeIndicatorSensitive, BreakIndicator: ' ', Separator: "-"}
		}
		ls, err := g.SplitTextWithOption(op.S[0], op.F[0], o.BreakOption)
		if o.BreakOption == nil {
			ls, err = g.SplitText(op.S[0], op.F[0])
		} else if op.I[1] == 4 {
			ls, err = g.SplitTextWithWordWrap(op.S[0], op.F[0])
		}
		if err == nil {
			res.Lines = ls
		}
		fail(g.MultiCellWithOption(r.watchRect(rectOf(op.F)), op.S[0], o))
	case "mcell":
		rect := rectOf(op.F)
		if len(op.I) == 2 {
			// exactly the width of the first characters
			var err error
			rect.W, err = g.MeasureTextWidth(string([]rune(op.S[0])[:op.I[1]]))
			fail(err)
		} else if len(op.I) > 0 {
			// exactly the height the text is said to need
			_, h, err := g.IsFitMultiCell(&gopdf.Rect{W: rect.W, H: 1e9}, op.S[0])
			fail(err)
			rect.H = h
			ok, h2, err := g.IsFitMultiCell(rect, op.S[0])
			if err == nil && (!ok || h2 != h) {
				r.viol("text", "IsFitMultiCell says %q needs the height %v, and then that it has %v in it and fits: %v", op.S[0], h, h2, ok)
			}
		}
		fail(g.MultiCell(r.watchRect(rect), op.S[0]))
	case "exact":
		r.exact(op.S[0], op.I[0])
	case "newy":
		g.SetNewY(op.F[0], op.F[1])
	case "newyno":
		g.SetNewYIfNoOffset(op.F[0], op.F[1])
	case "newxy":
		g.SetNewXY(op.F[0], op.F[2], op.F[1])
	case "margin":
		switch op.S[0] {
		case "left":
			g.SetMarginLeft(op.F[0])
		case "top":
			g.SetMarginTop(op.F[0])
		case "right":
			g.SetMarginRight(op.F[0])
		case "bottom":
			g.SetMarginBottom(op.F[0])
		case "oldleft":
			g.SetLeftMargin(op.F[0])
		case "oldtop":
			g.SetTopMargin(op.F[0])
		}
		a, b, c, d := g.Margins()
		res.V = []float64{a, b, c, d, g.MarginLeft(), g.MarginTop(), g.MarginRight(), g.MarginBottom()}
	case "units":
		a, b := op.F[0], op.F[0]
		g.UnitsToPointsVar(&a)
		g.PointsToUnitsVar(&b)
		res.V = []float64{g.UnitsToPoints(op.F[0]), g.PointsToUnits(op.F[0]), a, b, gopdf.UnitsToPoints(r.D.Unit, op.F[0]), gopdf.PointsToUnits(r.D.Unit, op.F[0])}
	case "margins":
		g.SetMargins(op.F[0], op.F[1], op.F[2], op.F[3])
	case "setx":
		g.SetX(op.F[0])
	case "sety":
		g.SetY(op.F[0])
	case "setxy":
		g.SetXY(op.F[0], op.F[1])
	case "br":
		g.Br(op.F[0])
	case "textcolor":
		if len(op.I) == 4 {
			g.SetTextColorCMYK(u8(op.I, 0), u8(op.I, 1), u8(op.I, 2), u8(op.I, 3))
		} else {
			g.SetTextColor(u8(op.I, 0), u8(op.I, 1), u8(op.I, 2))
		}
	case "fillcolor":
		if len(op.I) == 4 {
			g.SetFillColorCMYK(u8(op.I, 0), u8(op.I, 1), u8(op.I, 2), u8(op.I, 3))
		} else {
			g.SetFillColor(u8(op.I, 0), u8(op.I, 1), u8(op.I, 2))
		}
	case "strokecolor":
		if len(op.I) == 4 {
			g.SetStrokeColorCMYK(u8(op.I, 0), u8(op.I, 1), u8(op.I, 2), u8(op.I, 3))
		} else {
			g.SetStrokeColor(u8(op.I, 0), u8(op.I, 1), u8(op.I, 2))
		}
	case "grayfill":
		g.SetGrayFill(op.F[0])
	case "graystroke":
		g.SetGrayStroke(op.F[0])
	case "lw":
		g.SetLineWidth(op.F[0])
	case "ltype":
		g.SetLineType(op.S[0])
	case "dash":
		a := append([]float64{}, op.F[:len(op.F)-1]...)
		c := append([]float64{}, a...)
		g.SetCustomLineType(a, op.F[len(op.F)-1])
		for i := range a {
			if a[i] != c[i] {
				r.viol("memory", "SetCustomLineType modified the caller's dash array")
				break
			}
		}
		for i := range a { // the caller reuses its slice
			a[i] = 77
		}
	case "line":
		g.Line(op.F[0], op.F[1], op.F[2], op.F[3])
	case "rectlo", "rectup":
		f := op.F
		switch {
		case op.K == "rectlo" && len(op.S) == 0:
			g.RectFromLowerLeft(f[0], f[1], f[2], f[3])
		case op.K == "rectlo":
			g.RectFromLowerLeftWithStyle(f[0], f[1], f[2], f[3], op.S[0])
		case len(op.S) == 0:
			g.RectFromUpperLeft(f[0], f[1], f[2], f[3])
		default:
			g.RectFromUpperLeftWithStyle(f[0], f[1], f[2], f[3], op.S[0])
		}
	case "rectopt":
		o := gopdf.DrawableRectOptions{Rect: gopdf.Rect{W: op.F[2], H: op.F[3]}, X: op.F[0], Y: op.F[1], PaintStyle: gopdf.PaintStyle(op.S[0]), Transparency: r.tr(op.T)}
		if op.I[0] == 1 {
			fail(g.RectFromUpperLeftWithOpts(o))
		} else {
			fail(g.RectFromLowerLeftWithOpts(o))
		}
	case "oval":
		g.Oval(op.F[0], op.F[1], op.F[2], op.F[3])
	case "curve":
		f := op.F
		g.Curve(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], op.S[0])
	case "polygon", "clip":
		p := pts(op.F)
		c := append([]gopdf.Point{}, p...)
		if op.K == "clip" {
			g.ClipPolygon(p)
		} else {
			g.Polygon(p, op.S[0])
		}
		for i := range p {
			if p[i] != c[i] {
				r.viol("memory", "%s modified the caller's points", op.K)
				break
			}
		}
		for i := range p {
			p[i] = gopdf.Point{X: -999, Y: -999}
		}
	case "rectangle":
		f := op.F
		fail(g.Rectangle(f[0], f[1], f[2], f[3], op.S[0], f[4], op.I[0]))
	case "rotate":
		g.Rotate(op.F[0], op.F[1], op.F[2])
	case "rotreset":
		g.RotateReset()
	case "save":
		g.SaveGraphicsState()
	case "restore":
		g.RestoreGraphicsState()
	case "image":
		r.image(op, &res)
	case "imagefrom":
		m := op.Img
		pix := noiseOf(op, func() { simrt.Seam(seamRead) })
		was := memOf(pix)
		r.lend("the caller's image", func() bool { return memOf(pix) == was }, func() { imgx.Spoil(pix) })
		rect := r.rect(m.Named, m.Rect)
		if m.Format == "png" && m.Route == "" {
			fail(g.ImageFrom(pix, m.X, m.Y, rect))
		} else {
			fail(g.ImageFromWithOption(pix, gopdf.ImageFromOption{Format: m.Format, X: m.X, Y: m.Y, Rect: rect}))
		}
	case "settr":
		t := r.tr(op.T)
		fail(g.SetTransparency(*t))
	case "cleartr":
		g.ClearTransparency()
	case "addcs":
		if len(op.I) == 4 {
			fail(g.AddColorSpaceCMYK(op.S[0], u8(op.I, 0), u8(op.I, 1), u8(op.I, 2), u8(op.I, 3)))
		} else {
			fail(g.AddColorSpaceRGB(op.S[0], u8(op.I, 0), u8(op.I, 1), u8(op.I, 2)))
		}
	case "setcs":
		fail(g.SetColorSpace(op.S[0]))
	case "extlink":
		g.AddExternalLink(op.S[0], op.F[0], op.F[1], op.F[2], op.F[3])
	case "intlink":
		g.AddInternalLink(op.S[0], op.F[0], op.F[1], op.F[2], op.F[3])
	case "anchor":
		g.SetAnchor(op.S[0])
	case "outline":
		g.AddOutline(op.S[0])
	case "outlinepos":
		r.outl = append(r.outl, g.AddOutlineWithPosition(op.S[0]))
	case "onodes":
		r.nodes(op)
	case "header":
		sub := op.Sub
		g.AddHeader(func() { r.run(sub) })
	case "footer":
		sub := op.Sub
		g.AddFooter(func() { r.run(sub) })
	case "ph":
		fail(g.PlaceHolderText(op.S[0], op.F[0]))
	case "fill":
		fail(g.FillInPlaceHoldText(op.S[0], op.S[1], op.I[0]))
	case "import":
		r.imp(op, &res)
	case "usetpl":
		if len(r.tpls) > 0 {
			g.UseImportedTemplate(r.tpls[op.I[0]%len(r.tpls)], op.F[0], op.F[1], op.F[2], op.F[3])
		}
	case "psizes":
		var sz map[int]map[string]map[string]float64
		if op.S[0] == "path" {
			sz = g.GetPageSizes(filepath.Join(e.Dir, "in", fmt.Sprintf("pdf%d", op.I[0])))
		} else {
			sz = g.GetStreamPageSizes(r.stream(op.S[0], e.PDFs[op.I[0]].B))
		}
		for i := 1; i <= len(sz); i++ {
			for _, n := range boxNames {
				res.V = append(res.V, sz[i][n]["w"], sz[i][n]["h"])
			}
		}
	case "importall":
		src := e.PDFs[op.I[0]]
		switch op.S[0] {
		case "path":
			fail(g.ImportPagesFromSource(filepath.Join(e.Dir, "in", fmt.Sprintf("pdf%d", op.I[0])), src.Box))
		case "bytes":
			fail(g.ImportPagesFromSource(src.B, src.Box))
		default:
			if p := r.stream(op.S[0], src.B); op.S[0] == "reader" {
				fail(g.ImportPagesFromSource(*p, src.Box))
			} else {
				fail(g.ImportPagesFromSource(p, src.Box))
			}
		}
	case "info":
		in := gopdf.PdfInfo{Author: op.S[0], Title: op.S[1], Subject: op.S[2], Creator: op.S[3], Producer: op.S[4]}
		if op.I[0] != 0 {
			in.CreationDate = infoTime(op)
		}
		g.SetInfo(in)
		if g.GetInfo() != in {
			r.viol("info", "GetInfo differs from SetInfo")
		}
	case "compress":
		if op.I[0] == 0 {
			g.SetNoCompression()
		} else {
			g.SetCompressLevel(op.I[0])
		}
	case "measure":
		w, err := g.MeasureTextWidth(op.S[0])
		fail(err)
		h, err2 := g.MeasureCellHeightByText(op.S[0])
		if err == nil {
			fail(err2)
		}
		res.V = []float64{w, h}
	case "fit", "fitnl":
		f := g.IsFitMultiCell
		if op.K == "fitnl" {
			f = g.IsFitMultiCellWithNewline
		}
		ok, h, err := f(r.watchRect(rectOf(op.F)), op.S[0])
		fail(err)
		res.V = []float64{0, h}
		if ok {
			res.V[0] = 1
		}
	case "table":
		r.table(op, &res)
	case "hasglyph":
		ok, err := g.IsCurrFontContainGlyph(rune(op.I[0]))
		fail(err)
		res.V = []float64{0}
		if ok {
			res.V[0] = 1
		}
	case "out":
		r.out(op, &res)
	case "corrupt":
		r.corrupt(op, &res)
	default:
		panic("simulator: unknown op " + op.K)
	}
	return
}

// noiseOf is the image.Image of an imagefrom step.
func noiseOf(op *Op, slow func()) image.Image {
	kind := 0
	if len(op.I) > 3 {
		kind = op.I[3]
	}
	return imgx.NoiseOf(simrt.NewRand(uint64(op.I[2])), op.I[0], op.I[1], kind, slow)
}

// memOf sums the pixels of an image.
func memOf(m image.Image) string { return fmt.Sprintf("%x", sha256.Sum256(imgx.Raw(m))) }

// font loads a font by one of the three routes, through the environment.
func (r *DocRun) font(op *Op, res *Res) {
	e, g := r.E, r.G
	b := e.FontB[op.I[0]]
	o, has := ttfOpt(op)
	var err error
	switch op.S[1] {
	case "data":
		if has {
			err = g.AddTTFFontDataWithOption(op.S[0], b, o)
		} else {
			err = g.AddTTFFontData(op.S[0], b)
		}
	case "reader":
		s := newReader(b, op.Src, r.Cnt)
		if has {
			err = g.AddTTFFontByReaderWithOption(op.S[0], s, o)
		} else {
			err = g.AddTTFFontByReader(op.S[0], s)
		}
		res.Fired = s.Fired
	case "path":
		p := filepath.Join(e.Dir, "in", fmt.Sprintf("font%d", op.I[0]))
		p, st := r.diskIn(p, op.Disk)
		if has {
			err = g.AddTTFFontWithOption(op.S[0], p, o)
		} else {
			err = g.AddTTFFont(op.S[0], p)
		}
		if st != nil {
			res.Fired = st.fired
			e.Disk.set(p, nil)
		}
	}
	res.Err = errs(err)
	r.srcCheck("font", res)
}

// srcCheck: an error of the source must surface.
func (r *DocRun) srcCheck(what string, res *Res) {
	if res.Fired && res.Err == "" {
		r.viol("source", "%s: the source failed but the call reported success", what)
	}
}

// diskIn gives this operation its own copy of an input file when a disk plan
// applies, so that plans of different tasks do not meet.
func (r *DocRun) diskIn(p string, plan *DiskPlan) (string, *diskState) {
	if plan == nil {
		return p, nil
	}
	b, err := os.ReadFile(p)
	if err != nil {
		panic("simulator: " + err.Error())
	}
	q := filepath.Join(r.E.Dir, fmt.Sprintf("d%d", r.ID), filepath.Base(p))
	if _, err := os.Stat(q); err != nil {
		os.MkdirAll(filepath.Dir(q), 0755)
		if err := os.WriteFile(q, b, 0644); err != nil {
			panic("simulator: " + err.Error())
		}
	}
	return q, r.E.Disk.set(q, plan)
}

func (r *DocRun) contAdd(op *Op, res *Res) {
	e := r.E
	c := r.cont[op.I[4]]
	b := e.FontB[op.I[0]]
	o, has := ttfOpt(op)
	t0 := e.Now()
	var err error
	if op.S[1] == "reader" {
		s := newReader(b, op.Src, r.Cnt)
		if has {
			err = c.AddTTFFontByReaderWithOption(op.S[0], s, o)
		} else {
			err = c.AddTTFFontByReader(op.S[0], s)
		}
		res.Fired = s.Fired
	} else if has {
		err = c.AddTTFFontDataWithOption(op.S[0], b, o)
	} else {
		err = c.AddTTFFontData(op.S[0], b)
	}
	res.Err = errs(err)
	r.srcCheck("container font", res)
	if err == nil {
		r.Hist = append(r.Hist, contEvent{op.I[4], op.S[0], true, op.I[0], t0, e.Now(), r.ID})
	}
}

const contProbe = "AeZ 9x"

// contUse observes which font a container family currently names.
func (r *DocRun) contUse(op *Op, res *Res) {
	e := r.E
	d := &gopdf.GoPdf{}
	d.Start(gopdf.Config{PageSize: gopdf.Rect{W: 100, H: 100}})
	t0 := e.Now()
	err := d.AddTTFFontFromFontContainer(op.S[0], r.cont[op.I[0]])
	t1 := e.Now()
	ev := contEvent{op.I[0], op.S[0], false, -1, t0, t1, r.ID}
	if err == nil {
		if err := d.SetFont(op.S[0], "", 10); err != nil {
			r.viol("container", "SetFont of a font taken from the container: %v", err)
			return
		}
		w, err := d.MeasureTextWidth(contProbe)
		if err != nil {
			r.viol("container", "MeasureTextWidth of a font taken from the container: %v", err)
			return
		}
		ev.Val = -2
		same := 0
		for i, f := range e.Fonts {
			sum := 0
			for _, c := range contProbe {
				g, ok := f.Map[c]
				if !ok {
					g = f.Map[' ']
				}
				sum += f.Width(g)
			}
			if abs(float64(sum)*10/1000-w) < 1e-9 {
				ev.Val = i
				same++
			}
		}
		if ev.Val == -2 {
			r.viol("container", "the container returned a font whose %q is %v wide, which nobody stored", contProbe, w)
			return
		}
		if same > 1 {
			r.Cnt["container_ambiguous"]++
			return
		}
	} else if !errors.Is(err, gopdf.ErrFontNotFound) {
		r.viol("container", "AddTTFFontFromFontContainer: %v", err)
	}
	r.Hist = append(r.Hist, ev)
}

func (r *DocRun) holder(m *ImgOp, op *Op, res *Res) (gopdf.ImageHolder, error) {
	e := r.E
	b := e.ImgB[m.Idx]
	switch m.Route {
	case "reader":
		s := newReader(b, op.Src, r.Cnt)
		h, err := gopdf.ImageHolderByReader(s)
		res.Fired = res.Fired || s.Fired
		return h, err
	case "pathholder":
		p, st := r.diskIn(filepath.Join(e.Dir, "in", fmt.Sprintf("img%d", m.Idx)), op.Disk)
		h, err := gopdf.ImageHolderByPath(p)
		if st != nil {
			res.Fired = res.Fired || st.fired
			e.Disk.set(p, nil)
		}
		return h, err
	case "holder":
		if h := r.hold[m.Idx]; h != nil {
			return h, nil
		}
		h, err := gopdf.ImageHolderByBytes(b)
		if err == nil {
			r.hold[m.Idx] = h
		}
		return h, err
	case "scrib":
		c := append([]byte{}, b...)
		h, err := gopdf.ImageHolderByBytes(c)
		for i := range c { // the caller reuses its buffer
			c[i] = 0x5A
		}
		return h, err
	}
	return gopdf.ImageHolderByBytes(b)
}

func (r *DocRun) imgOpts(m *ImgOp) gopdf.ImageOptions {
	o := gopdf.ImageOptions{DegreeAngle: m.Angle, VerticalFlip: m.V, HorizontalFlip: m.H, X: m.X, Y: m.Y, Rect: r.rect(m.Named, m.Rect), Transparency: r.tr(m.T)}
	if len(m.Crop) == 4 {
		o.Crop = &gopdf.CropOptions{X: m.Crop[0], Y: m.Crop[1], Width: m.Crop[2], Height: m.Crop[3]}
		c, p := *o.Crop, o.Crop
		r.lend("the caller's CropOptions", func() bool { return *p == c }, func() { *p = gopdf.CropOptions{X: 1, Y: 2, Width: 3, Height: 4} })
	}
	return o
}

func (r *DocRun) image(op *Op, res *Res) {
	e, g, m := r.E, r.G, op.Img
	if m.Route == "path" {
		p := filepath.Join(e.Dir, "in", fmt.Sprintf("img%d", m.Idx))
		if len(op.S) > 0 { // the file at one path gets new content
			b, err := os.ReadFile(p)
			p = filepath.Join(e.Dir, fmt.Sprintf("d%d", r.ID), "reused")
			os.MkdirAll(filepath.Dir(p), 0755)
			if err == nil {
				err = os.WriteFile(p, b, 0644)
			}
			if err != nil {
				panic("simulator: " + err.Error())
			}
		}
		p, st := r.diskIn(p, op.Disk)
		res.Err = errs(g.Image(p, m.X, m.Y, r.rect(m.Named, m.Rect)))
		if st != nil {
			res.Fired = st.fired
			e.Disk.set(p, nil)
		}
		r.srcCheck("image", res)
		return
	}
	h, err := r.holder(m, op, res)
	if err != nil {
		res.Err = errs(err)
		return
	}
	r.srcCheck("image", res)
	if op.S == nil {
		res.Err = errs(g.ImageByHolder(h, m.X, m.Y, r.rect(m.Named, m.Rect)))
		return
	}
	o := r.imgOpts(m)
	if m.Mask != nil {
		k := m.Mask
		mo := r.masks[k.Reuse]
		if k.Reuse == 0 || mo == nil {
			mh, err := r.holder(k, op, res)
			if err != nil {
				res.Err = errs(err)
				return
			}
			n := len(r.lent)
			mo = &gopdf.MaskOptions{ImageOptions: r.imgOpts(k), Holder: mh}
			if k.Reuse != 0 { // used again: the caller keeps these as they are
				for i := n; i < len(r.lent); i++ {
					r.lent[i].spoil = nil
				}
			}
			if len(k.BBox) == 4 {
				mo.BBox = &[4]float64{k.BBox[0], k.BBox[1], k.BBox[2], k.BBox[3]}
			}
			if k.Reuse != 0 {
				r.masks[k.Reuse] = mo
			}
			x, y, rect := mo.X, mo.Y, mo.Rect
			box, bb := mo.BBox, [4]float64{}
			if box != nil {
				bb = *box
			}
			r.lend("the caller's MaskOptions", func() bool {
				return mo.X == x && mo.Y == y && mo.ImageOptions.Rect == rect && mo.BBox == box && (box == nil || *box == bb) && mo.Holder == mh
			}, nil)
			if k.Reuse == 0 {
				r.lent[len(r.lent)-1].spoil = func() {
					mo.X, mo.Y, mo.Holder, mo.Rect, mo.Crop, mo.Transparency = 1, 2, nil, nil, nil, nil
					if box != nil {
						*box = [4]float64{9, 9, 10, 10}
					}
				}
			}
		}
		o.Mask = mo
	}
	res.Err = errs(g.ImageByHolderWithOptions(h, o))
}

func (r *DocRun) nodes(op *Op) {
	// S titles, I parents (index into S, -1 root)
	var objs []*gopdf.OutlineObj
	for _, t := range op.S {
		objs = append(objs, r.G.AddOutlineWithPosition(t))
	}
	kids := map[int][]int{}
	for i, p := range op.I {
		kids[p] = append(kids[p], i)
	}
	var mk func(i int) *gopdf.OutlineNode
	mk = func(i int) *gopdf.OutlineNode {
		n := &gopdf.OutlineNode{Obj: objs[i]}
		for _, k := range kids[i] {
			n.Children = append(n.Children, mk(k))
		}
		return n
	}
	var ns gopdf.OutlineNodes
	for _, k := range kids[-1] {
		ns = append(ns, mk(k))
	}
	ns.Parse()
}

// stream makes the stream of a source: in a variable of its own, or in one
// that the caller uses for every stream.
func (r *DocRun) stream(route string, b []byte) *io.ReadSeeker {
	rs := io.ReadSeeker(bytes.NewReader(b))
	if route == "streamvar" {
		r.rs = rs
		return &r.rs
	}
	return &rs
}

func (r *DocRun) imp(op *Op, res *Res) {
	g, src := r.G, r.E.PDFs[op.I[0]]
	t := 0
	if op.S[0] == "manual" { // the caller drives its own importer
		m := r.importer
		m.SetSourceFile(filepath.Join(r.E.Dir, "in", fmt.Sprintf("pdf%d", op.I[0])))
		start := g.GetNextObjectID()
		m.SetNextObjectID(start)
		t = m.ImportPage(op.I[1], src.Box)
		g.ImportTemplates(m.PutFormXobjects())
		g.ImportObjects(m.GetImportedObjects(), start)
	} else if op.S[0] == "path" {
		t = g.ImportPage(filepath.Join(r.E.Dir, "in", fmt.Sprintf("pdf%d", op.I[0])), op.I[1], src.Box)
	} else {
		t = g.ImportPageStream(r.stream(op.S[0], src.B), op.I[1], src.Box)
	}
	r.tpls = append(r.tpls, t)
	g.UseImportedTemplate(t, op.F[0], op.F[1], op.F[2], op.F[3])
}

// out serialises the document by one route and judges the route's own contract.
func (r *DocRun) out(op *Op, res *Res) {
	g := r.G
	route := op.S[0]
	plan := SinkPlan{}
	if op.Sink != nil {
		plan = *op.Sink
	}
	switch route {
	case "writeto", "write":
		s := &simSink{p: plan, cnt: r.Cnt}
		var err error
		var n int64
		if route == "writeto" {
			n, err = g.WriteTo(s)
		} else {
			err = g.Write(s)
			n = int64(s.got.Len())
		}
		res.Err = errs(err)
		res.Fired = s.Fired
		switch {
		case s.Fired && err == nil:
			r.viol("sink", "%s: the writer reported an error but the call returned nil", route)
		case !s.Fired && err != nil:
			r.viol("sink", "%s: the writer accepted everything but the call returned %v", route, err)
		}
		if n != int64(s.got.Len()) && !(s.Fired && s.p.Lie) {
			r.viol("sink", "%s: returned count %d, the writer accepted %d bytes", route, n, s.got.Len())
		}
		res.Out = s.got.Bytes()
		res.Done = !s.Fired
	case "bytes":
		b := g.GetBytesPdf()
		r.watch("the slice returned by GetBytesPdf", b)
		res.Out, res.Done = b, true
	case "byteserr":
		b, err := g.GetBytesPdfReturnErr()
		res.Err = errs(err)
		if err == nil {
			r.watch("the slice returned by GetBytesPdfReturnErr", b)
			res.Out, res.Done = b, true
		} else {
			r.viol("routes", "GetBytesPdfReturnErr: %v", err)
		}
	case "read":
		if err := g.Close(); err != nil {
			r.viol("routes", "Close: %v", err)
		}
		var got []byte
		rn := simrt.NewRand(uint64(op.I[0]))
		for k := 0; ; k++ {
			simrt.Seam(seamRead)
			m := 1 + rn.Intn(5000)
			if rn.P(0.2) {
				m = 1 + rn.Intn(8)
			}
			p := make([]byte, m)
			n, err := g.Read(p)
			if n < 0 || n > m {
				r.viol("routes", "Read returned %d for a %d-byte buffer", n, m)
				return
			}
			if bytes.HasPrefix(p[:n], []byte("%PDF-")) && bytes.HasSuffix(bytes.TrimRight(got, "\r\n"), []byte("%%EOF")) {
				r.viol("routes", "Read starts again after the end of the document")
				return
			}
			got = append(got, p[:n]...)
			if err == io.EOF {
				break
			}
			if err != nil {
				r.viol("routes", "Read: %v", err)
				return
			}
			if k > 1_000_000 || len(got) > 1<<25 {
				r.viol("routes", "Read never reaches EOF")
				return
			}
		}
		n, err := g.Read(make([]byte, 8))
		if n != 0 || err != io.EOF {
			r.viol("routes", "Read after EOF returned %d, %v", n, err)
		}
		res.Out, res.Done = got, true
	case "path":
		p := filepath.Join(r.E.Dir, fmt.Sprintf("d%d", r.ID), "task-out.pdf")
		if r.Solo {
			p = filepath.Join(r.E.Dir, fmt.Sprintf("d%d-solo", r.ID), "task-out.pdf")
		}
		os.MkdirAll(filepath.Dir(p), 0755)
		if op.Disk != nil && op.Disk.Pre {
			if err := os.WriteFile(p, bytes.Repeat([]byte("old content\n"), 4000), 0644); err != nil {
				panic("simulator: " + err.Error())
			}
		} else if op.Disk != nil {
			os.Remove(p)
		}
		st := r.E.Disk.set(p, op.Disk)
		err := g.WritePdf(p)
		r.E.Disk.set(p, nil)
		res.Err = errs(err)
		if st != nil {
			res.Fired = st.fired
		}
		if res.Fired && err == nil {
			r.viol("disk", "WritePdf: the disk failed (%+v) but the call returned nil", *op.Disk)
		}
		if !res.Fired && err != nil {
			r.viol("disk", "WritePdf: the disk worked but the call returned %v", err)
		}
		if err == nil {
			b, rerr := os.ReadFile(p)
			if rerr != nil {
				r.viol("disk", "WritePdf reported success but the file cannot be read: %v", rerr)
				break
			}
			res.Out, res.Done = b, true
		}
	default:
		panic("simulator: route " + route)
	}
}

func abs(f float64) float64 {
	if f < 0 {
		return -f
	}
	return f
}

// infoTime is the creation date of an info call, in its time zone.
func infoTime(op *Op) time.Time {
	t := time.Unix(int64(op.I[0]), 0)
	if len(op.I) < 2 || op.I[1] == 0 {
		return t.UTC()
	}
	return t.In(time.FixedZone("", op.I[1]*60))
}

// exact splits a text at exactly the width of its first n characters, which
// are then on the first line. (Widths are whole numbers of binary fractions.)
func (r *DocRun) exact(text string, n int) {
	g, rs := r.G, []rune(text)
	m := func(s []rune) float64 {
		w, err := g.MeasureTextWidth(string(s))
		if err != nil {
			r.viol("error", "measuring %q: %v", string(s), err)
		}
		return w
	}
	w := 0.0
	for i := 0; i < n; i++ {
		w = math.Max(w, math.Max(m(rs[:i+1]), m(rs[:i])+m(rs[i:i+1])))
	}
	for i, o := range []*gopdf.BreakOption{nil, {Mode: gopdf.BreakModeStrict}, wordBreaks} {
		ls, err := g.SplitTextWithOption(text, w, o)
		if err != nil {
			r.viol("error", "splitting %q: %v", text, err)
			return
		}
		if c := len([]rune(ls[0])); c < n && (i < 2 || !strings.Contains(text, " ")) {
			r.viol("text", "%q is split after %d characters, though %d fit the width exactly", text, c, n)
		}
	}
	// A separator that fits exactly costs no more than the character before it.
	if n > 1 && n < len(rs) {
		o := &gopdf.BreakOption{Mode: gopdf.BreakModeStrict, Separator: "-"}
		v := m(rs[:n-1]) + m(rs[n-1:n]) + m([]rune("-"))
		if ls, err := g.SplitTextWithOption(text, math.Max(w, v), o); err != nil || len([]rune(ls[0])) < n {
			r.viol("text", "%q is split into %q (%v), though %d characters and the separator fit the width exactly", text, ls, err, n)
		}
	}
	_, h1, err1 := g.IsFitMultiCell(&gopdf.Rect{W: w, H: 1e9}, string(rs[:1]))
	_, h, err := g.IsFitMultiCell(&gopdf.Rect{W: w, H: 1e9}, string(rs[:n]))
	if err1 != nil || err != nil || h != h1 {
		r.viol("measure", "%q takes the height %v in its own width, and one line of it %v (%v, %v)", string(rs[:n]), h, h1, err, err1)
	}
}
