// Package pdfr is an independent, strict reader for the PDF files the code
// under test produces. It shares no code with it.
package pdfr

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"strconv"
	"strings"
)

// Object model.
type (
	Name   string
	Str    []byte
	Ref    struct{ N, G int }
	Array  []any
	Dict   map[string]any
	Stream struct {
		D   Dict
		Raw []byte // as stored, decrypted if the document is
	}
	Null struct{}
	Op   string // content stream operator
)

// Doc is a parsed document.
type Doc struct {
	B       []byte
	Objs    map[int]any
	N       int // highest object number
	Offsets []int
	Trailer Dict
	Errs    []string
	Enc     *Enc
}

func (d *Doc) errf(f string, a ...any) {
	if len(d.Errs) < 40 {
		d.Errs = append(d.Errs, fmt.Sprintf(f, a...))
	}
}

type lexer struct {
	b   []byte
	p   int
	err error
}

func isWS(c byte) bool { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32 }
func isDelim(c byte) bool {
	return c == '(' || c == ')' || c == '<' || c == '>' || c == '[' || c == ']' || c == '{' || c == '}' || c == '/' || c == '%'
}

func (l *lexer) ws() {
	for l.p < len(l.b) {
		c := l.b[l.p]
		if isWS(c) {
			l.p++
		} else if c == '%' {
			for l.p < len(l.b) && l.b[l.p] != '\n' && l.b[l.p] != '\r' {
				l.p++
			}
		} else {
			return
		}
	}
}

func (l *lexer) fail(f string, a ...any) any {
	if l.err == nil {
		l.err = fmt.Errorf("at byte %d: %s", l.p, fmt.Sprintf(f, a...))
	}
	l.p = len(l.b)
	return nil
}

type eof struct{}
type closeArr struct{}
type closeDict struct{}

// next returns the next token or object. In object context (refs) "N G R" is
// folded into a Ref.
func (l *lexer) next(refs bool) any {
	l.ws()
	if l.p >= len(l.b) {
		return eof{}
	}
	c := l.b[l.p]
	switch {
	case c == '/':
		l.p++
		s := l.p
		for l.p < len(l.b) && !isWS(l.b[l.p]) && !isDelim(l.b[l.p]) {
			l.p++
		}
		raw := string(l.b[s:l.p])
		if strings.Contains(raw, "#") {
			var o []byte
			for i := 0; i < len(raw); i++ {
				if raw[i] == '#' {
					if i+2 >= len(raw) {
						return l.fail("bad # escape in name %q", raw)
					}
					v, err := strconv.ParseUint(raw[i+1:i+3], 16, 8)
					if err != nil {
						return l.fail("bad # escape in name %q", raw)
					}
					o = append(o, byte(v))
					i += 2
				} else {
					o = append(o, raw[i])
				}
			}
			raw = string(o)
		}
		return Name(raw)
	case c == '(':
		return l.litString()
	case c == '<':
		if l.p+1 < len(l.b) && l.b[l.p+1] == '<' {
			l.p += 2
			d := Dict{}
			for {
				k := l.next(refs)
				if l.err != nil {
					return nil
				}
				if _, ok := k.(closeDict); ok {
					return d
				}
				kn, ok := k.(Name)
				if !ok {
					return l.fail("dictionary key is %T %v, not a name", k, k)
				}
				v := l.next(refs)
				if l.err != nil {
					return nil
				}
				switch v.(type) {
				case closeDict, closeArr, eof, Op:
					return l.fail("dictionary key /%s has no value (%T)", kn, v)
				}
				if _, dup := d[string(kn)]; dup {
					return l.fail("duplicate dictionary key /%s", kn)
				}
				d[string(kn)] = v
			}
		}
		l.p++
		var hex []byte
		for {
			if l.p >= len(l.b) {
				return l.fail("unterminated hex string")
			}
			c := l.b[l.p]
			l.p++
			if c == '>' {
				break
			}
			if isWS(c) {
				continue
			}
			hex = append(hex, c)
		}
		if len(hex)%2 == 1 {
			hex = append(hex, '0')
		}
		out := make(Str, len(hex)/2)
		for i := range out {
			v, err := strconv.ParseUint(string(hex[2*i:2*i+2]), 16, 8)
			if err != nil {
				return l.fail(fmt.Sprintf("bad hex string %q", string(hex)))
			}
			out[i] = byte(v)
		}
		return out
	case c == '>':
		if l.p+1 < len(l.b) && l.b[l.p+1] == '>' {
			l.p += 2
			return closeDict{}
		}
		return l.fail("stray >")
	case c == '[':
		l.p++
		a := Array{}
		for {
			v := l.next(refs)
			if l.err != nil {
				return nil
			}
			switch v.(type) {
			case closeArr:
				return a
			case closeDict, eof, Op:
				return l.fail("bad array element %T %v", v, v)
			}
			a = append(a, v)
		}
	case c == ']':
		l.p++
		return closeArr{}
	case c == '{' || c == '}' || c == ')':
		return l.fail("stray %q", c)
	}
	s := l.p
	for l.p < len(l.b) && !isWS(l.b[l.p]) && !isDelim(l.b[l.p]) {
		l.p++
	}
	tok := string(l.b[s:l.p])
	switch tok {
	case "true":
		return true
	case "false":
		return false
	case "null":
		return Null{}
	}
	if c >= '0' && c <= '9' || c == '+' || c == '-' || c == '.' {
		if n, err := strconv.Atoi(tok); err == nil {
			if refs && n >= 0 && c != '+' && c != '-' {
				save := l.p
				l.ws()
				g := l.p
				for l.p < len(l.b) && l.b[l.p] >= '0' && l.b[l.p] <= '9' {
					l.p++
				}
				if l.p > g {
					gs := string(l.b[g:l.p])
					w := l.p
					l.ws()
					if l.p > w && l.p < len(l.b) && l.b[l.p] == 'R' && (l.p+1 == len(l.b) || isWS(l.b[l.p+1]) || isDelim(l.b[l.p+1])) {
						l.p++
						gn, _ := strconv.Atoi(gs)
						return Ref{n, gn}
					}
				}
				l.p = save
			}
			return n
		}
		okNum := true
		dots := 0
		for i, ch := range tok {
			if ch == '.' {
				dots++
			} else if ch >= '0' && ch <= '9' {
			} else if (ch == '+' || ch == '-') && i == 0 {
			} else {
				okNum = false
			}
		}
		if okNum && dots <= 1 {
			if f, err := strconv.ParseFloat(tok, 64); err == nil {
				return f
			}
		}
		return l.fail("bad number %q", tok)
	}
	return Op(tok)
}

func (l *lexer) litString() any {
	l.p++
	depth := 1
	out := Str{}
	for {
		if l.p >= len(l.b) {
			return l.fail("unterminated string")
		}
		c := l.b[l.p]
		l.p++
		switch c {
		case '(':
			depth++
			out = append(out, c)
		case ')':
			depth--
			if depth == 0 {
				return out
			}
			out = append(out, c)
		case '\\':
			if l.p >= len(l.b) {
				return l.fail("unterminated string")
			}
			e := l.b[l.p]
			l.p++
			switch e {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'b':
				out = append(out, 8)
			case 'f':
				out = append(out, 12)
			case '\r':
				if l.p < len(l.b) && l.b[l.p] == '\n' {
					l.p++
				}
			case '\n':
			default:
				if e >= '0' && e <= '7' {
					v := int(e - '0')
					for k := 0; k < 2 && l.p < len(l.b) && l.b[l.p] >= '0' && l.b[l.p] <= '7'; k++ {
						v = v*8 + int(l.b[l.p]-'0')
						l.p++
					}
					out = append(out, byte(v))
				} else {
					out = append(out, e)
				}
			}
		case '\r':
			if l.p < len(l.b) && l.b[l.p] == '\n' {
				l.p++
			}
			out = append(out, '\n')
		default:
			out = append(out, c)
		}
	}
}

// Parse reads a complete document. Every deviation is recorded in Errs.
func Parse(b []byte) *Doc {
	d := &Doc{B: b, Objs: map[int]any{}}
	hdr := "%PDF-1.7\n%\xe2\xe3\xcf\xd3\n"
	if !bytes.HasPrefix(b, []byte("%PDF-1.")) || len(b) < 16 || !bytes.HasPrefix(b[8:], []byte("\n%")) {
		d.errf("header is not a PDF header")
		return d
	}
	_ = hdr
	tail := b
	if !bytes.HasSuffix(tail, []byte("\n%%EOF\n")) {
		d.errf("document does not end with %%%%EOF")
		return d
	}
	i := bytes.LastIndex(b, []byte("startxref\n"))
	if i < 0 {
		d.errf("no startxref")
		return d
	}
	f := strings.Fields(string(b[i:]))
	if len(f) != 3 || f[2] != "%%EOF" {
		d.errf("malformed startxref section")
		return d
	}
	xo, err := strconv.Atoi(f[1])
	if err != nil || xo < 0 || xo >= len(b) || !bytes.HasPrefix(b[xo:], []byte("xref\n")) {
		d.errf("startxref %s does not point at the cross-reference table", f[1])
		return d
	}
	// cross-reference table: fixed 20-byte entries
	p := xo + 5
	nl := bytes.IndexByte(b[p:], '\n')
	var first, n int
	if nl < 0 {
		d.errf("truncated xref")
		return d
	}
	if k, _ := fmt.Sscanf(string(b[p:p+nl]), "%d %d", &first, &n); k != 2 || first != 0 || n < 1 {
		d.errf("bad xref subsection header %q", b[p:p+nl])
		return d
	}
	p += nl + 1
	if p+20*n > len(b) {
		d.errf("xref table shorter than its %d entries", n)
		return d
	}
	d.Offsets = make([]int, n)
	for k := 0; k < n; k++ {
		e := string(b[p : p+20])
		p += 20
		want := " 00000 n \n"
		if k == 0 {
			want = " 65535 f \n"
		}
		off, err := strconv.Atoi(strings.TrimLeft(e[:10], "0") + map[bool]string{true: "0", false: ""}[strings.Trim(e[:10], "0") == ""])
		if err != nil || e[10:] != want {
			d.errf("xref entry %d malformed: %q", k, e)
			return d
		}
		d.Offsets[k] = off
	}
	d.N = n - 1
	if !bytes.HasPrefix(b[p:], []byte("trailer\n")) {
		d.errf("no trailer after the xref table")
		return d
	}
	l := &lexer{b: b[:i], p: p + 8}
	t := l.next(true)
	if l.err != nil {
		d.errf("trailer: %v", l.err)
		return d
	}
	td, ok := t.(Dict)
	if !ok {
		d.errf("trailer is not a dictionary")
		return d
	}
	l.ws()
	if l.p != i {
		d.errf("garbage between trailer and startxref")
	}
	d.Trailer = td
	if sz, ok := td["Size"].(int); !ok || sz != n {
		d.errf("trailer /Size %v, xref has %d entries", td["Size"], n)
	}
	// objects: contiguous, each where the table says
	pos := 9
	for pos < len(b) && b[pos] != '\n' {
		pos++
	}
	for k := 1; k < n; k++ {
		for pos < len(b) && isWS(b[pos]) {
			pos++
		}
		if d.Offsets[k] != pos {
			d.errf("xref offset of object %d is %d, but the object's text starts at %d", k, d.Offsets[k], pos)
			// trust the table where it leads to the object
			pos = d.Offsets[k]
			if pos < 0 || pos >= len(b) {
				return d
			}
		}
		head := fmt.Sprintf("%d 0 obj\n", k)
		if !bytes.HasPrefix(b[pos:], []byte(head)) {
			d.errf("object %d: no %q at its xref offset", k, strings.TrimSpace(head))
			return d
		}
		np, obj, err := parseObj(b[:xo], pos+len(head))
		if err != nil {
			d.errf("object %d: %v", k, err)
			// resynchronise at the next object if there is one
			if k+1 < n {
				pos = d.Offsets[k+1]
				continue
			}
			return d
		}
		d.Objs[k] = obj
		pos = np
	}
	for pos < xo && isWS(b[pos]) {
		pos++
	}
	if pos != xo {
		d.errf("bytes between the last object and the xref table")
	}
	return d
}

func parseObj(b []byte, p int) (int, any, error) {
	l := &lexer{b: b, p: p}
	v := l.next(true)
	if l.err != nil {
		return 0, nil, l.err
	}
	switch x := v.(type) {
	case Op:
		if x == "endobj" {
			return 0, nil, fmt.Errorf("empty object")
		}
		return 0, nil, fmt.Errorf("unexpected token %q", string(x))
	case eof, closeArr, closeDict:
		return 0, nil, fmt.Errorf("unexpected %T", v)
	}
	l.ws()
	if dict, ok := v.(Dict); ok && bytes.HasPrefix(b[l.p:], []byte("stream\n")) {
		q := l.p + 7
		n, ok := dict["Length"].(int)
		if !ok {
			return 0, nil, fmt.Errorf("stream /Length is %v", dict["Length"])
		}
		if n < 0 || q+n > len(b) {
			return 0, nil, fmt.Errorf("stream /Length %d runs past the document", n)
		}
		e := q + n
		r := b[e:]
		switch {
		case bytes.HasPrefix(r, []byte("\nendstream\n")):
			e += 11
		case bytes.HasPrefix(r, []byte("endstream\n")):
			e += 10
		case bytes.HasPrefix(r, []byte("\r\nendstream\n")), bytes.HasPrefix(r, []byte("\n\nendstream\n")):
			e += 12
		default:
			k := bytes.Index(b[q:], []byte("endstream"))
			return 0, nil, fmt.Errorf("stream /Length %d, but endstream follows after %d bytes", n, k)
		}
		st := &Stream{D: dict, Raw: b[q : q+n]}
		l.p = e
		v = st
		l.ws()
	}
	if !bytes.HasPrefix(b[l.p:], []byte("endobj")) {
		end := l.p + 20
		if end > len(b) {
			end = len(b)
		}
		return 0, nil, fmt.Errorf("no endobj after the object, found %q", b[l.p:end])
	}
	return l.p + 6, v, nil
}

// Get resolves references.
func (d *Doc) Get(v any) any {
	for i := 0; i < 20; i++ {
		r, ok := v.(Ref)
		if !ok {
			return v
		}
		v = d.Objs[r.N]
	}
	return nil
}

// Dict resolves v to a dictionary (a stream's dictionary counts).
func (d *Doc) Dict(v any) Dict {
	switch x := d.Get(v).(type) {
	case Dict:
		return x
	case *Stream:
		return x.D
	}
	return nil
}

// Num converts a number object.
func Num(v any) (float64, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

// Inflate decodes a zlib stream completely and checks its checksum.
func Inflate(b []byte) ([]byte, error) {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

// Data returns the decoded data of a stream (FlateDecode or none). For image
// codecs the raw bytes are returned together with the filter's name.
func (d *Doc) Data(s *Stream) ([]byte, string, error) {
	f := d.Get(s.D["Filter"])
	if a, ok := f.(Array); ok {
		if len(a) == 0 {
			f = nil
		} else if len(a) == 1 {
			f = d.Get(a[0])
		} else {
			return nil, "", fmt.Errorf("filter chain %v", a)
		}
	}
	switch f {
	case nil:
		return s.Raw, "", nil
	case Name("FlateDecode"):
		b, err := Inflate(s.Raw)
		return b, "FlateDecode", err
	}
	n, ok := f.(Name)
	if !ok {
		return nil, "", fmt.Errorf("bad filter %v", f)
	}
	return s.Raw, string(n), nil
}

// Walk visits v and everything nested in it (not following references).
func Walk(v any, f func(any)) {
	f(v)
	switch x := v.(type) {
	case Dict:
		for _, e := range x {
			Walk(e, f)
		}
	case Array:
		for _, e := range x {
			Walk(e, f)
		}
	case *Stream:
		Walk(x.D, f)
	}
}
