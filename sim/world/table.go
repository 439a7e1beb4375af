package world

import (
	"fmt"
	"math"
	"strings"

	"github.com/signintech/gopdf"

	"verifsim/simrt"
)

// TabStyle is the style of a cell, a header or a table.
type TabStyle struct {
	B    []int   `json:"b"` // top, left, right, bottom
	W    float64 `json:"w"`
	C    []int   `json:"c"`
	Fill []int   `json:"fill"`
	Text []int   `json:"text"`
	Font string  `json:"font,omitempty"`
	Size float64 `json:"size,omitempty"`
}

// TabCol is a column of a table.
type TabCol struct {
	H string  `json:"h"`
	W float64 `json:"w"`
	A string  `json:"a"`
}

// TabRow is a row of a table; with styles it is added by AddStyledRow.
type TabRow struct {
	Cells  []string    `json:"cells"`
	Styles []*TabStyle `json:"styles,omitempty"`
}

// TabOp draws a table.
type TabOp struct {
	X, Y, RH            float64
	Max                 int
	Twice               bool `json:",omitempty"` // the same layout is drawn twice
	ID                  int  `json:",omitempty"` // the layout, which may be drawn again by a later operation
	Cols                []TabCol
	Rows                []TabRow
	Table, Header, Cell *TabStyle `json:",omitempty"`
}

var (
	black      = []int{0, 0, 0}
	defTable   = &TabStyle{B: []int{1, 1, 1, 1}, W: 0.5, C: black, Fill: black, Text: black}
	defHeader  = &TabStyle{B: []int{1, 1, 1, 1}, W: 0.5, C: black, Fill: []int{240, 240, 240}, Text: black}
	wordBreaks = &gopdf.BreakOption{Mode: gopdf.BreakModeIndicatorSensitive, BreakIndicator: ' '}
)

func (t *TabOp) table() *TabStyle {
	if t.Table != nil {
		return t.Table
	}
	return defTable
}

func (t *TabOp) header() *TabStyle {
	if t.Header != nil {
		return t.Header
	}
	return defHeader
}

func (t *TabOp) cell() *TabStyle {
	if t.Cell != nil {
		return t.Cell
	}
	return defTable
}

// tabCell is one cell of a table that is drawn.
type tabCell struct {
	x, y, w float64
	text, a string
	head    bool
	st      *TabStyle
}

// cells are the cells of a table: the header, the rows, and empty rows up to
// the number of rows of the table.
func (t *TabOp) cells() (o []tabCell) {
	row := func(y float64, f func(i int) (string, string, *TabStyle), n int, head bool) {
		x := t.X
		for i := 0; i < n; i++ {
			s, a, st := f(i)
			o = append(o, tabCell{x: x, y: y, w: t.Cols[i].W, text: s, a: a, head: head, st: st})
			x += t.Cols[i].W
		}
	}
	y := t.Y
	row(y, func(i int) (string, string, *TabStyle) { return t.Cols[i].H, "center", t.header() }, len(t.Cols), true)
	for k := 0; k < len(t.Rows) || k < t.Max; k++ {
		y += t.RH
		if k >= len(t.Rows) {
			row(y, func(i int) (string, string, *TabStyle) { return "", t.Cols[i].A, t.cell() }, len(t.Cols), false)
			continue
		}
		r := t.Rows[k]
		row(y, func(i int) (string, string, *TabStyle) {
			st := t.cell()
			if r.Styles != nil {
				st = r.Styles[i]
			}
			return r.Cells[i], t.Cols[i].A, st
		}, len(r.Cells), false)
	}
	return
}

func (s *TabStyle) lib() gopdf.CellStyle {
	rgb := func(c []int) gopdf.RGBColor {
		return gopdf.RGBColor{R: uint8(c[0]), G: uint8(c[1]), B: uint8(c[2])}
	}
	return gopdf.CellStyle{
		BorderStyle: gopdf.BorderStyle{Top: s.B[0] != 0, Left: s.B[1] != 0, Right: s.B[2] != 0, Bottom: s.B[3] != 0, Width: s.W, RGBColor: rgb(s.C)},
		FillColor:   rgb(s.Fill), TextColor: rgb(s.Text), Font: s.Font, FontSize: s.Size,
	}
}

// table draws a table.
func (r *DocRun) table(op *Op, res *Res) {
	g, t := r.G, op.Tab
	k, ok := r.tabs[t.ID]
	if t.ID == 0 || !ok {
		k.l = g.NewTableLayout(t.X, t.Y, t.RH, t.Max)
	}
	r.tabLines(t, res)
	r.tabDescribe(k.l, t, k.cols, k.rows)
	l := k.l
	if t.ID != 0 {
		if r.tabs == nil {
			r.tabs = map[int]tabKept{}
		}
		r.tabs[t.ID] = tabKept{l, len(t.Cols), len(t.Rows)}
	}
	res.Err = errs(l.DrawTable())
	if t.Twice && res.Err == "" {
		r.tabLines(t, res)
		res.Err = errs(l.DrawTable())
	}
}

// tabLines asks the splitter for the lines of every cell.
func (r *DocRun) tabLines(t *TabOp, res *Res) {
	g := r.G
	for _, c := range t.cells() {
		if c.st.Font != "" && g.SetFont(c.st.Font, "", c.st.Size) != nil {
			break
		}
		if c.text == "" {
			continue
		}
		ls, err := g.SplitTextWithOption(c.text, c.w-4, wordBreaks)
		if err != nil {
			r.viol("error", "splitting %q: %v", c.text, err)
		}
		res.Tab = append(res.Tab, ls)
	}
}

// tabKept is a layout that was drawn and may be drawn again.
type tabKept struct {
	l          gopdf.TableLayout
	cols, rows int
}

// tabDescribe describes what the layout does not have yet.
func (r *DocRun) tabDescribe(l gopdf.TableLayout, t *TabOp, cols, rows int) {
	for _, c := range t.Cols[min(cols, len(t.Cols)):] {
		l.AddColumn(c.H, c.W, c.A)
	}
	if t.Table != nil {
		l.SetTableStyle(t.Table.lib())
	}
	if t.Header != nil {
		l.SetHeaderStyle(t.Header.lib())
	}
	if t.Cell != nil {
		l.SetCellStyle(t.Cell.lib())
	}
	var ss []string // the caller uses its slices for all rows
	var cs []gopdf.RowCell
	for _, row := range t.Rows[min(rows, len(t.Rows)):] {
		if row.Styles == nil {
			ss = append(ss[:0], row.Cells...)
			l.AddRow(ss)
			continue
		}
		cs = cs[:0]
		for i, s := range row.Cells {
			cs = append(cs, gopdf.NewRowCell(s, row.Styles[i].lib()))
		}
		l.AddStyledRow(cs)
	}
	for i := range ss {
		ss[i] = "spoiled"
	}
	for i := range cs {
		cs[i] = gopdf.NewRowCell("spoiled", gopdf.CellStyle{})
	}
}

// table is the model of a table: a composition of the other operations.
func (m *Model) table(op *Op, res *Res, w *Want) {
	k := m.tableOnce(op, res, w, 0)
	if op.Tab.Twice && !w.Lost {
		m.tableOnce(op, res, w, k)
	}
}

func (m *Model) tableOnce(op *Op, res *Res, w *Want, k int) int {
	t := op.Tab
	do := func(o Op) {
		x := m.Apply(&o, &Res{Lines: o.lines})
		if x.Bad != "" {
			w.Bad = x.Bad
		}
		if x.Err != 0 {
			w.Err, w.Lost = x.Err, true
		}
	}
	border := func(s *TabStyle, x1, y1, x2, y2 float64) {
		if s.W <= 0 {
			return
		}
		h := s.W / 2
		do(Op{K: "lw", F: []float64{s.W}})
		do(Op{K: "strokecolor", I: s.C})
		for i, l := range [][]float64{{x1 - h, y1, x2 + h, y1}, {x1 - h, y2, x2 + h, y2}, {x1, y1 - h, x1, y2 + h}, {x2, y1 - h, x2, y2 + h}} {
			if s.B[[]int{0, 3, 1, 2}[i]] != 0 {
				do(Op{K: "line", F: l})
			}
		}
	}
	for _, c := range t.cells() {
		if c.st.Fill[0]|c.st.Fill[1]|c.st.Fill[2] != 0 {
			do(Op{K: "fillcolor", I: c.st.Fill})
			do(Op{K: "rectup", F: []float64{c.x, c.y, c.w, t.RH}, S: []string{"F"}})
		}
		if !c.head {
			border(c.st, c.x, c.y, c.x+c.w, c.y+t.RH)
		}
		do(Op{K: "setxy", F: []float64{c.x + 2, c.y + 2}})
		do(Op{K: "textcolor", I: c.st.Text})
		if c.st.Font != "" {
			do(Op{K: "setfont", S: []string{c.st.Font, ""}, F: []float64{c.st.Size}})
		}
		if w.Lost {
			return k
		}
		if c.text == "" {
			continue
		}
		al := 8
		switch c.a {
		case "right":
			al = 2
		case "center":
			al = 16
		}
		if k >= len(res.Tab) {
			w.Lost = true
			return k
		}
		o := Op{K: "multicell", S: []string{c.text}, F: []float64{c.w - 4, t.RH - 4}, I: []int{al | 32, 1, 1}, lines: res.Tab[k]}
		k++
		do(o)
	}
	x := t.X
	for _, c := range t.Cols {
		x += c.W
	}
	border(t.table(), t.X, t.Y, x, t.Y+float64(t.Max+1)*t.RH)
	border(t.header(), t.X, t.Y, x, t.Y+t.RH)
	return k
}

func (g *gdoc) table() {
	r := g.r
	t := &TabOp{X: g.x(), Y: g.y(), RH: r2(g.ln(15, 50) + 4), Max: r.Intn(5), Twice: r.P(0.12)}
	col := func() {
		t.Cols = append(t.Cols, TabCol{H: g.cellText(), W: r2(math.Max(g.ln(40, 150), g.ln(3*g.size, 3*g.size+1)) + 4), A: simrt.Pick(r, "left", "right", "center")})
	}
	again := g.tab != nil && !g.inSub && g.size <= g.tabSize && r.P(0.4)
	if again { // the layout of an earlier operation, with more rows
		c := *g.tab
		t = &c
		t.Cols, t.Rows = append([]TabCol{}, t.Cols...), append([]TabRow{}, t.Rows...)
		if r.P(0.15) {
			col()
		}
	} else {
		for n := r.Range(1, 4); n > 0; n-- {
			col()
		}
	}
	fonts, bad := false, false // all styles name a font, or none does
	var reg []string
	for _, f := range g.fams {
		if f.style == 0 {
			reg = append(reg, f.name)
		}
	}
	fonts = len(reg) > 0 && !g.inSub && r.P(0.4)
	if again {
		fonts = g.tabFonts
	}
	one := r.P(0.4) // and all the same
	oneFont, oneSize := "", 0.0
	if fonts {
		oneFont, oneSize = simrt.Pick(r, reg...), simrt.Pick(r, 8, 10, 12.5)
	}
	style := func() *TabStyle {
		s := &TabStyle{W: simrt.Pick(r, 0, 0.5, 1, 2.5), C: g.rgb3(), Fill: simrt.Pick(r, black, g.rgb3()), Text: g.rgb3()}
		for i := 0; i < 4; i++ {
			s.B = append(s.B, simrt.Pick(r, 0, 1, 1))
		}
		if fonts {
			s.Font, s.Size = simrt.Pick(r, reg...), simrt.Pick(r, 8, 10, 12.5)
			if one {
				s.Font, s.Size = oneFont, oneSize
			}
			if r.P(0.01) {
				s.Font, bad = "no such font", true
			}
		}
		return s
	}
	if fonts && !again || r.P(0.5) {
		t.Header = style()
	}
	if fonts && !again || r.P(0.5) {
		t.Cell = style()
	}
	if r.P(0.5) {
		t.Table = style()
	}
	n := r.Intn(5)
	if again {
		n = r.Intn(t.Max - len(t.Rows) + 1)
	}
	for ; n > 0; n-- {
		row := TabRow{}
		cols := len(t.Cols)
		if r.P(0.1) {
			cols = r.Intn(cols + 1)
		}
		st := r.P(0.3)
		for i := 0; i < cols; i++ {
			row.Cells = append(row.Cells, g.cellText())
			if st {
				row.Styles = append(row.Styles, style())
			}
		}
		t.Rows = append(t.Rows, row)
	}
	if t.Max < len(t.Rows) { // otherwise the outer border is too small
		t.Max = len(t.Rows)
	}
	if g.tab = nil; !bad && !g.inSub {
		if !again {
			if t.Max++; r.P(0.6) {
				t.Max--
			}
			g.tabSize, g.tabFonts = g.size, fonts
			g.tabID++
			t.ID = g.tabID
		}
		c := *t
		g.tab = &c
	}
	g.op(Op{K: "table", Tab: t})
	if fonts { // which font is current now depends on the cells
		g.setFont()
	}
}

func (g *gdoc) rgb3() []int { return []int{g.r.Intn(256), g.r.Intn(256), g.r.Intn(256)} }

func (g *gdoc) cellText() string {
	if g.r.P(0.1) {
		return ""
	}
	return g.str(1 + g.r.Intn(16))
}

// checkSplit judges how a text was split into lines of a width: nothing gets
// lost, no line is too wide, and no line ends earlier than it has to.
func (m *Model) checkSplit(text string, W float64, words bool, sep string, lines []string) string {
	const eps = 1e-6
	rs := []rune(text)
	width := func(r ...rune) float64 { return m.measureText(string(r)) }
	// sum is the width of a line up to its last character and of that character,
	// which differ from that of both by their kerning.
	least := func(l []rune) float64 {
		w := width(l...)
		if n := len(l); n > 0 {
			w = math.Min(w, width(l[:n-1]...)+width(l[n-1]))
		}
		return w
	}
	most := func(l []rune) float64 {
		w := width(l...)
		if n := len(l); n > 0 {
			w = math.Max(w, width(l[:n-1]...)+width(l[n-1]))
		}
		return w
	}
	tol := eps * (1 + W)
	why := ""
	type key struct{ k, p int }
	dead := map[key]bool{}
	var match func(k, p int) bool
	match = func(k, p int) bool {
		if k == len(lines) {
			return p == len(rs)
		}
		if dead[key{k, p}] {
			return false
		}
		l := []rune(lines[k])
		last := k == len(lines)-1
		ok := func(l []rune, width float64) bool {
			if len(l) > 1 && width > W+tol {
				why = fmt.Sprintf("line %d is wider than %.4f: %.4f", k+1, W, width)
				return false
			}
			return true
		}
		if q := p + len(l); q <= len(rs) && string(rs[p:q]) == lines[k] && ok(l, least(l)) {
			switch {
			case q == len(rs):
				if last {
					return true
				}
			case rs[q] == '\n':
				if match(k+1, q+1) {
					return true
				}
			case !last:
				next := rs[q]
				if words && next == ' ' {
					// the next word, up to and with the space after it, must not fit
					e := q + 1
					for e < len(rs) && rs[e] != ' ' && rs[e] != '\n' {
						e++
					}
					if e < len(rs) && rs[e] == ' ' {
						e++
					}
					if most(rs[p:e]) <= W-tol {
						why = fmt.Sprintf("line %d ends before a word that fits", k+1)
					} else if len(l) > 0 && match(k+1, q+1) {
						return true
					}
				}
				switch {
				case len(l) == 0:
				case words && strings.ContainsRune(string(l[1:]), ' '):
					why = fmt.Sprintf("line %d is broken in the middle of a word", k+1)
				case most(rs[p:q+1]) <= W-tol:
					why = fmt.Sprintf("line %d ends before a character that fits", k+1)
				case match(k+1, q):
					return true
				}
			}
		}
		if n := len([]rune(sep)); n > 0 && len(l) > n && string(l[len(l)-n:]) == sep && !last {
			body := l[:len(l)-n]
			q := p + len(body)
			if q < len(rs) && string(rs[p:q]) == string(body) && rs[q] != '\n' && ok(l, math.Min(least(l), least(body)+width([]rune(sep)...))) {
				e := q
				for e < len(rs) && e < q+2 && rs[e] != '\n' {
					e++
				}
				switch more := append(append([]rune{}, rs[p:e]...), []rune(sep)...); {
				case words && strings.ContainsRune(string(body[1:]), ' '):
					why = fmt.Sprintf("line %d is broken in the middle of a word", k+1)
				case e == q+2 && most(rs[p:e])+width([]rune(sep)...) <= W-tol && most(more) <= W-tol:
					why = fmt.Sprintf("line %d ends before characters that fit", k+1)
				case match(k+1, q):
					return true
				}
			}
		}
		dead[key{k, p}] = true
		return false
	}
	if match(0, 0) {
		return ""
	}
	if why == "" {
		why = "the lines are not the text"
	}
	return fmt.Sprintf("%q splits into %q at width %.4f: %s", text, lines, W, why)
}

// fit is IsFitMultiCell: whether MultiCell draws all of a text, and its height.
func (m *Model) fit(s string, W, H float64) (bool, float64) {
	lh, total := m.lineHeight()/m.k, 0.0
	var line []rune
	rs := m.subst(s)
	for i, r := range rs {
		if total+lh > H {
			return false, total
		}
		if m.measureText(string(line))/m.k+m.measureText(string(r))/m.k > W {
			total += lh
			line = nil
		}
		line = append(line, r)
		if i == len(rs)-1 {
			total += lh
		}
	}
	return total <= H, total
}

// fitLines is IsFitMultiCellWithNewline.
func (m *Model) fitLines(s string, W, H float64) (bool, float64) {
	h := H
	for _, l := range strings.Split(s, "\n") {
		ok, t := m.fit(l, W, h)
		if !ok {
			return false, 0
		}
		h -= t
	}
	return true, H - h
}
