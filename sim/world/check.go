package world

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math"
	"strings"

	"github.com/anishathalye/porcupine"

	"verifsim/pdfr"
)

// open parses a complete output, decrypting it with the user password.
func openPDF(b []byte, p *Prot) (*pdfr.Doc, []mism) {
	d := pdfr.Parse(b)
	var out []mism
	for i, e := range d.Errs {
		if i < 4 {
			out = append(out, mism{"struct", e})
		}
	}
	if len(out) > 0 {
		return d, out
	}
	if d.Encrypted() != (p != nil) {
		return d, []mism{{"enc", fmt.Sprintf("document encrypted: %v, protection configured: %v", d.Encrypted(), p != nil)}}
	}
	if p == nil {
		return d, nil
	}
	key, ok := d.UserKey([]byte(p.User))
	if !ok {
		return d, []mism{{"enc", "the user password does not open the document"}}
	}
	if p.Owner != "" {
		u := d.OwnerToUser([]byte(p.Owner))
		if k2, ok := d.UserKey(u); !ok || !bytes.Equal(k2, key) {
			return d, []mism{{"enc", "the owner password does not open the document"}}
		}
	}
	if p.User != "" {
		if _, ok := d.UserKey([]byte(p.User + "x")); ok && len(p.User) < 32 {
			return d, []mism{{"enc", "a wrong password opens the document"}}
		}
	}
	if want := int32(p.Perm); d.Enc != nil && d.Enc.P != permOf(want|192) {
		out = append(out, mism{"enc", fmt.Sprintf("permissions are %d, want %d", d.Enc.P, permOf(want))})
	}
	d.Decrypt(key)
	return d, out
}

func permOf(p int32) int { return int(-((p ^ 255) + 1)) }

// History is the verdict on one document's history.
func (r *DocRun) History(pre []map[string]*mfont) (viol []Violation) {
	add := func(op int, class, f string, a ...any) {
		if len(viol) < 20 {
			viol = append(viol, Violation{Class: class, Doc: r.ID, Op: op, Msg: fmt.Sprintf(f, a...)})
		}
	}
	m := NewModel(r.E, r.ID)
	m.conts = pre
	trust := true // the model still describes the document
	var last []byte
	var torn [][]byte
	fresh := false // last is a serialisation of the current state
	for i := range r.Res {
		if r.Dead && i == len(r.Res)-1 {
			break
		}
		op, res := &r.D.Ops[i], &r.Res[i]
		if op.K == "out" {
			if res.Done {
				r.judgeOut(m, i, res, trust, add)
				if fresh {
					r.sameOut(m, last, res.Out, i, "two serialisations of the same document", add)
				}
				for _, t := range torn {
					if !bytes.HasPrefix(res.Out, t) && !m.Imported {
						add(i, "readonly", "what a failing writer received (%d bytes) is not the beginning of the document written afterwards (%d bytes)", len(t), len(res.Out))
					}
				}
				last, fresh, torn = res.Out, true, nil
			} else if res.Fired && res.Out != nil {
				if fresh && !m.Imported && !bytes.HasPrefix(last, res.Out) {
					add(i, "readonly", "what a failing writer received (%d bytes) is not the beginning of the document", len(res.Out))
				}
				torn = append(torn, res.Out)
			}
			if trust {
				r.pen(m, i, op, res, add)
			}
			continue
		}
		fresh, torn = false, nil
		if !trust {
			continue
		}
		w := m.Apply(op, res)
		switch {
		case w.Bad != "":
			add(i, "text", "%s", w.Bad)
		case w.Skip:
		case w.Err == 0 && res.Err != "":
			add(i, "error", "%s failed: %s", op.K, res.Err)
			trust = false
		case w.Err == 1 && res.Err == "":
			add(i, "error", "%s reported success, an error was expected", op.K)
			trust = false
		case w.V != nil && res.V != nil && !nearAll(res.V, w.V, 1e-6):
			add(i, "measure", "%s returned %v, want %v", op.K, res.V, w.V)
		}
		if w.Lost {
			trust = false
		}
		if trust {
			trust = r.pen(m, i, op, res, add)
		}
	}
	return
}

// pen checks position and page count after an operation.
func (r *DocRun) pen(m *Model, i int, op *Op, res *Res, add func(int, string, string, ...any)) bool {
	if op.K == "cuse" || op.K == "corrupt" {
		return true
	}
	if res.Pages != len(m.pages) {
		add(i, "pages", "%d pages after %s, want %d", res.Pages, op.K, len(m.pages))
		return false
	}
	tol := 1e-6 * (1 + math.Abs(m.x) + math.Abs(m.y))
	if !near(res.X*m.k, m.x, tol) || !near(res.Y*m.k, m.y, tol) {
		add(i, "pen", "position after %s is (%.4f,%.4f), want (%.4f,%.4f)", op.K, res.X, res.Y, m.x/m.k, m.y/m.k)
		return false
	}
	return true
}

func (r *DocRun) judgeOut(m *Model, i int, res *Res, trust bool, add func(int, string, string, ...any)) {
	d, bad := openPDF(res.Out, r.D.Prot)
	for _, b := range bad {
		add(i, b.class, "%s", b.msg)
	}
	if len(bad) > 0 {
		return
	}
	r.Cnt["outputs_parsed"]++
	s := Extract(d)
	if !trust {
		for k, e := range s.Errs {
			if k < 3 && !strings.Contains(e, "unbalanced q") && !strings.Contains(e, "Q without q") {
				add(i, "struct", "%s", e)
			}
		}
		return
	}
	r.Cnt["outputs_judged"]++
	for _, p := range s.Pages {
		r.Cnt["items_judged"] += int64(len(p.Evs))
	}
	for _, x := range judge(s, m.Expect()) {
		add(i, x.class, "%s", x.msg)
	}
}

// sameOut compares two serialisations that must agree.
func (r *DocRun) sameOut(m *Model, a, b []byte, i int, what string, add func(int, string, string, ...any)) {
	if bytes.Equal(a, b) {
		return
	}
	if m != nil && !m.Imported {
		n := 0
		for n < len(a) && n < len(b) && a[n] == b[n] {
			n++
		}
		add(i, "readonly", "%s differ (lengths %d and %d, first difference at byte %d)", what, len(a), len(b), n)
		return
	}
	if d := semDiff(a, b, r.D.Prot); d != "" {
		add(i, "readonly", "%s differ: %s", what, d)
	}
}

func semDiff(a, b []byte, p *Prot) string {
	x, e1 := openPDF(a, p)
	y, e2 := openPDF(b, p)
	if len(e1)+len(e2) > 0 {
		return "" // reported elsewhere
	}
	return diffSem(Extract(x), Extract(y))
}

func usesImport(d *DocSpec) bool {
	for _, o := range d.Ops {
		if o.K == "import" || o.K == "importall" {
			return true
		}
	}
	return false
}

// Twin compares a run with the same document built alone.
func (r *DocRun) Twin(s *DocRun) (viol []Violation) {
	add := func(op int, f string, a ...any) {
		if len(viol) < 5 {
			viol = append(viol, Violation{Class: "isolation", Doc: r.ID, Op: op, Msg: fmt.Sprintf(f, a...)})
		}
	}
	if r.Dead || s.Dead {
		if r.Dead != s.Dead {
			add(len(r.Res)-1, "the document ended in a panic only when run %s", map[bool]string{true: "with others", false: "alone"}[r.Dead])
		}
		return
	}
	imp := usesImport(r.D) || r.D.Prot != nil && r.D.Prot.Owner == "" // a random owner password
	for i := range r.Res {
		a, b := &r.Res[i], &s.Res[i]
		op := &r.D.Ops[i]
		if op.K == "cuse" {
			continue
		}
		if strings.ReplaceAll(a.Err, "-solo", "") != strings.ReplaceAll(b.Err, "-solo", "") || a.Fired != b.Fired {
			add(i, "%s returned %q, alone it returns %q", op.K, a.Err, b.Err)
			return
		}
		if fmt.Sprint(a.V, a.X, a.Y, a.Pages, a.Lines) != fmt.Sprint(b.V, b.X, b.Y, b.Pages, b.Lines) {
			add(i, "%s left %v (%v,%v) %d pages %q, alone %v (%v,%v) %d pages %q", op.K, a.V, a.X, a.Y, a.Pages, a.Lines, b.V, b.X, b.Y, b.Pages, b.Lines)
			return
		}
		if bytes.Equal(a.Out, b.Out) {
			continue
		}
		if imp {
			if a.Done && b.Done {
				if d := semDiff(a.Out, b.Out, r.D.Prot); d != "" {
					add(i, "the output differs from the one made alone: %s", d)
				}
			}
			continue
		}
		n := 0
		for n < len(a.Out) && n < len(b.Out) && a.Out[n] == b.Out[n] {
			n++
		}
		if Debug {
			fmt.Printf("with others: %q\nalone: %q\n", a.Out[max(0, n-200):min(len(a.Out), n+200)], b.Out[max(0, n-200):min(len(b.Out), n+200)])
		}
		add(i, "the output (%d bytes) differs from the one made alone (%d bytes) at byte %d", len(a.Out), len(b.Out), n)
		return
	}
	return
}

// lastOut is the last serialisation, if another one went before it and the
// document does not depend on the schedule.
func (r *DocRun) lastOut() int {
	last, n := -1, 0
	for i := range r.Res {
		switch r.D.Ops[i].K {
		case "out":
			n++
			if r.Res[i].Done {
				last = i
			}
		case "cuse", "corrupt":
			return -1
		}
	}
	if r.Dead || n < 2 {
		return -1
	}
	return last
}

// Unwritten compares a run with the same document that was not serialised
// before the last serialisation.
func (r *DocRun) Unwritten(s *DocRun, last int) (viol []Violation) {
	add := func(op int, f string, a ...any) {
		if len(viol) < 5 {
			viol = append(viol, Violation{Class: "unwritten", Doc: r.ID, Op: op, Msg: fmt.Sprintf(f, a...)})
		}
	}
	if s.Dead {
		add(last, "the document ended in a panic only when not written before")
		return
	}
	for i := range r.Res[:last+1] {
		a, b := &r.Res[i], &s.Res[i]
		if r.D.Ops[i].K == "out" && i < last {
			continue
		}
		if strings.ReplaceAll(a.Err, "-solo", "") != strings.ReplaceAll(b.Err, "-solo", "") {
			add(i, "%s returned %q, without serialisations before it %q", r.D.Ops[i].K, a.Err, b.Err)
			return
		}
		if fmt.Sprint(a.V, a.X, a.Y, a.Pages, a.Lines) != fmt.Sprint(b.V, b.X, b.Y, b.Pages, b.Lines) {
			add(i, "%s left %v (%v,%v) %d pages %q, without serialisations before it %v (%v,%v) %d pages %q", r.D.Ops[i].K, a.V, a.X, a.Y, a.Pages, a.Lines, b.V, b.X, b.Y, b.Pages, b.Lines)
			return
		}
	}
	a, b := r.Res[last].Out, s.Res[last].Out
	if bytes.Equal(a, b) {
		return
	}
	// objects may come in another order, what a reader sees must not differ
	if d := semDiff(a, b, r.D.Prot); d != "" {
		add(last, "the document differs from the one that was not serialised before: %s", d)
	}
	return
}

// Linear checks the container histories against a register per family.
func Linear(runs []*DocRun, pre []Op) (viol []Violation, n int) {
	type key struct {
		c int
		f string
	}
	hist := map[key][]contEvent{}
	var keys []key
	for _, r := range runs {
		for _, e := range r.Hist {
			k := key{e.Cont, e.Fam}
			if hist[k] == nil {
				keys = append(keys, k)
			}
			hist[k] = append(hist[k], e)
		}
	}
	for _, k := range keys {
		init := -1
		for _, o := range pre {
			if o.I[4] == k.c && o.S[0] == k.f {
				init = o.I[0]
			}
		}
		model := porcupine.Model{
			Init: func() any { return init },
			Step: func(st, in, out any) (bool, any) {
				if in.(contEvent).Write {
					return true, in.(contEvent).Val
				}
				return st.(int) == in.(contEvent).Val, st
			},
			Equal: func(a, b any) bool { return a == b },
		}
		var ops []porcupine.Operation
		for _, e := range hist[k] {
			ops = append(ops, porcupine.Operation{ClientId: e.Task, Input: e, Output: e, Call: e.Call, Return: e.Ret})
		}
		n += len(ops)
		if len(ops) > 40 {
			continue
		}
		if !porcupine.CheckOperations(model, ops) {
			viol = append(viol, Violation{Class: "linear", Doc: -1, Op: -1, Msg: fmt.Sprintf("operations on family %q of container %d are not linearizable: %+v", k.f, k.c, hist[k])})
		}
	}
	return
}

// digest of everything a run returned, for the determinism self-check.
func digest(runs []*DocRun, dir string) uint64 {
	h := sha256.New()
	for _, r := range runs {
		for _, x := range r.Res {
			if usesImport(r.D) {
				x.Out = nil
			}
			fmt.Fprintf(h, "%q %v %v %v %v %v %d %v|", strings.ReplaceAll(x.Err, dir, ""), x.V, x.Fired, x.X, x.Y, x.Pages, len(x.Out), x.Done)
			h.Write(x.Out)
		}
		for _, v := range r.Viol {
			fmt.Fprint(h, strings.ReplaceAll(v.Msg, dir, ""))
		}
	}
	return binary.BigEndian.Uint64(h.Sum(nil))
}
