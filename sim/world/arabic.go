package world

import (
	"fmt"
	"sort"
	"strings"
)

// arForms: where the presentation forms of a letter begin, in the order
// isolated, final, initial, medial; right joining letters have the first two,
// the hamza the first one.
var arForms = map[rune]struct {
	at rune
	n  int
}{
	'\u0621': {0xFE80, 1}, '\u0622': {0xFE81, 2}, '\u0623': {0xFE83, 2}, '\u0624': {0xFE85, 2}, '\u0625': {0xFE87, 2},
	'\u0626': {0xFE89, 4}, '\u0627': {0xFE8D, 2}, '\u0628': {0xFE8F, 4}, '\u0629': {0xFE93, 2}, '\u062A': {0xFE95, 4},
	'\u062B': {0xFE99, 4}, '\u062C': {0xFE9D, 4}, '\u062D': {0xFEA1, 4}, '\u062E': {0xFEA5, 4}, '\u062F': {0xFEA9, 2},
	'\u0630': {0xFEAB, 2}, '\u0631': {0xFEAD, 2}, '\u0632': {0xFEAF, 2}, '\u0633': {0xFEB1, 4}, '\u0634': {0xFEB5, 4},
	'\u0635': {0xFEB9, 4}, '\u0636': {0xFEBD, 4}, '\u0637': {0xFEC1, 4}, '\u0638': {0xFEC5, 4}, '\u0639': {0xFEC9, 4},
	'\u063A': {0xFECD, 4}, '\u0641': {0xFED1, 4}, '\u0642': {0xFED5, 4}, '\u0643': {0xFED9, 4}, '\u0644': {0xFEDD, 4},
	'\u0645': {0xFEE1, 4}, '\u0646': {0xFEE5, 4}, '\u0647': {0xFEE9, 4}, '\u0648': {0xFEED, 2}, '\u0649': {0xFEEF, 2},
	'\u064A': {0xFEF1, 4}, '\u067E': {0xFB56, 4}, '\u0686': {0xFB7A, 4}, '\u0698': {0xFB8A, 2}, '\u06A9': {0xFB8E, 4},
	'\u06AF': {0xFB92, 4}, '\u06CC': {0xFBFC, 4},
	'\uFEF7': {0xFEF7, 2}, '\uFEFB': {0xFEFB, 2}, // lam-alef with hamza above, lam-alef
}

const (
	arShadda  = '\u0651'
	arTatweel = '\u0640'
	arAllah   = '\uFDF2'
)

// arMarks are the marks that belong to the letter before them.
var arMarks = []rune{0x64B, 0x64C, 0x64D, 0x64E, 0x64F, 0x650, 0x651, 0x652, 0x653, 0x654, 0x655, 0x656, 0x657, 0x658, 0x670}

// arShadded: one character for a shadda and a vowel.
var arShadded = map[rune]rune{0xFC60: 0x64E, 0xFC61: 0x64F, 0xFC62: 0x650, 0xFC5E: 0x64C, 0xFC5F: 0x64D, 0xFC63: 0x670}

func arMark(r rune) bool {
	for _, m := range arMarks {
		if r == m {
			return true
		}
	}
	return false
}

// arLetter is a shaped letter, or any other character, with its marks.
type arLetter struct {
	base  rune
	form  int // 0 isolated, 1 final, 2 initial, 3 medial
	marks []rune
}

func (l arLetter) String() string {
	return fmt.Sprintf("%c %s%q", l.base, [...]string{"isolated", "final", "initial", "medial"}[l.form], string(l.marks))
}

// arShape is what a shaper does: letters join their neighbours if both can.
func arShape(s string) (ls []arLetter) {
	s = strings.ReplaceAll(s, "\u0627\u0644\u0644\u0647", string(arAllah))
	for _, r := range s {
		n := len(ls)
		if arMark(r) {
			if n == 0 {
				ls = append(ls, arLetter{})
			}
			l := &ls[max(n-1, 0)]
			l.marks = append(l.marks, r)
			continue
		}
		if n > 0 && ls[n-1].base == '\u0644' && (r == '\u0627' || r == '\u0623') {
			ls[n-1].base = map[rune]rune{'\u0627': '\uFEFB', '\u0623': '\uFEF7'}[r]
			continue
		}
		ls = append(ls, arLetter{base: r})
	}
	joins := func(i int) (before, after bool) {
		if i < 0 || i >= len(ls) {
			return
		}
		if ls[i].base == arTatweel {
			return true, true
		}
		n := arForms[ls[i].base].n
		return n >= 2, n == 4
	}
	for i := range ls {
		before, after := joins(i)
		_, left := joins(i - 1)
		right, _ := joins(i + 1)
		if before && left {
			ls[i].form |= 1
		}
		if after && right {
			ls[i].form |= 2
		}
		if ls[i].base == arTatweel {
			ls[i].form = 0
		}
	}
	return ls
}

// arRead reads visually ordered text back, the last letter first.
func arRead(s string) (ls []arLetter) {
	base := map[rune]arLetter{}
	for b, f := range arForms {
		base[b] = arLetter{base: b}
		for i := 0; i < f.n; i++ {
			base[f.at+rune(i)] = arLetter{base: b, form: i}
		}
	}
	var marks []rune
	for _, r := range s { // marks stand before their letter
		if v, ok := arShadded[r]; ok {
			marks = append(marks, v, arShadda)
			continue
		}
		if arMark(r) {
			marks = append(marks, r)
			continue
		}
		l, ok := base[r]
		if !ok {
			l.base = r
		}
		l.marks, marks = marks, nil
		ls = append(ls, l)
	}
	if marks != nil {
		ls = append(ls, arLetter{marks: marks})
	}
	for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
		ls[i], ls[j] = ls[j], ls[i]
	}
	return ls
}

// checkArabic says what is wrong with the shaped text.
func checkArabic(in, out string) string {
	got, want := arRead(out), arShape(in)
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) {
			return fmt.Sprintf("%+q becomes %+q: %v is lost", in, out, want[i])
		}
		if i >= len(want) {
			return fmt.Sprintf("%+q becomes %+q: %v is not in it", in, out, got[i])
		}
		for _, l := range []*arLetter{&got[i], &want[i]} {
			sort.Slice(l.marks, func(a, b int) bool { return l.marks[a] < l.marks[b] })
		}
		if a, b := got[i].String(), want[i].String(); a != b {
			return fmt.Sprintf("%+q becomes %+q: letter %d is %s, want %s", in, out, i, a, b)
		}
	}
	return ""
}

// arText is a text to be shaped.
func (g *gdoc) arText() string {
	r := g.r
	var ls []rune
	for l := range arForms {
		if l < 0xFE00 {
			ls = append(ls, l)
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i] < ls[j] })
	var o []rune
	marked := false
	for n := r.Range(1, 14); n > 0; n-- {
		switch k := r.Intn(100); {
		case k < 50:
			o = append(o, ls[r.Intn(len(ls))])
		case k < 62:
			o = append(o, []rune("\u0644\u0627")...)
			if r.P(0.4) {
				o[len(o)-1] = '\u0623'
			}
			if r.P(0.4) {
				o = append(o, o[len(o)-1])
				o[len(o)-2] = arMarks[r.Intn(len(arMarks))]
			}
		case k < 75:
			// up to two marks a letter, a shadda and its vowel in either order
			if !marked {
				o = append(o, arMarks[r.Intn(len(arMarks))])
				if r.P(0.4) {
					o = append(o, arShadda)
				}
				if r.P(0.1) {
					o[len(o)-1], o = arShadda, append(o, 0x64E)
				}
				marked = true
			}
			continue
		case k < 82:
			o = append(o, ' ')
		case k < 86:
			o = append(o, arTatweel)
		case k < 90:
			o = append(o, rune('0'+r.Intn(10)))
		case k < 94:
			o = append(o, rune('a'+r.Intn(26)))
		case k < 97:
			o = append(o, []rune("\u0627\u0644\u0644\u0647")...)
		default:
			o = append(o, []rune{'\u060C', '.', '\u061F', '\u0660', 0x1F600}[r.Intn(5)])
		}
		marked = false
	}
	return string(o)
}
