package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"verifsim/simrt"
	"verifsim/world"
)

// found is a violation met by the search.
type found struct {
	job  *job
	i    int
	v    world.Violation
	all  []world.Violation
	w    *world.World // with its schedule; nil if the process died
	text string       // report of the process, if it died
}

// attempt runs worlds in a fresh process and returns the violation of the last.
func (c *coord) attempt(ws []*world.World, race bool, like *world.Violation) (*world.Violation, *world.World, string) {
	f := filepath.Join(c.scratch, fmt.Sprintf("try%d.json", atomic.AddInt64(&c.procs, 1)))
	defer os.Remove(f)
	b, err := json.Marshal(Replay{Worlds: ws})
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(f, b, 0644); err != nil {
		fatal("%v", err)
	}
	bin := c.bin
	args := []string{"-f", f}
	if race {
		bin = c.racebin
		args = append(args, "-race")
	}
	o := c.spawn(bin, args...)
	switch o.Kind {
	case "ok":
		for _, m := range o.Msgs {
			if m.T != "world" || m.I != len(ws)-1 {
				continue
			}
			for _, v := range m.Viol {
				if matches(v, like) {
					return &v, m.World, ""
				}
			}
		}
	case "error":
	default:
		if o.Last != len(ws)-1 {
			break
		}
		if v := o.abnormal(); v != nil && matches(*v, like) {
			return v, nil, o.Stderr
		}
	}
	return nil, nil, ""
}

// tries is how often a history is run before it counts as not reproducing.
func (c *coord) tries(race bool) int {
	if race {
		return 10
	}
	return 1
}

// matches says whether v is the same failure as like.
func matches(v world.Violation, like *world.Violation) bool {
	if v.Class != like.Class {
		return false
	}
	switch v.Class {
	case "panic", "crash", "exit", "hang":
		return key(v.Msg) == key(like.Msg)
	}
	return true
}

// key is a message without its numbers.
func key(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r < '0' || r > '9' {
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

// settles are operations other operations depend on; they stay.
var settles = map[string]bool{"font": true, "contfont": true, "setfont": true, "addpage": true, "setpage": true, "addcs": true, "ph": true,
	"save": true, "restore": true, "rotate": true, "rotreset": true, "header": true, "footer": true, "clip": true, "contadd": true, "anchor": true, "margins": true, "compress": true, "importall": true}

// shrink reproduces a violation in a fresh process and makes its history
// smaller. It returns nil when it cannot be reproduced.
func (c *coord) shrink(f *found, limit time.Duration) *Replay {
	end := time.Now().Add(limit)
	race := f.job.Race
	rp := &Replay{Property: c.prop.ID, Race: race, Origin: fmt.Sprintf("profile %s, base seed %d, world %d", f.job.Prof, f.job.Base, f.i), Original: f.v.Msg}
	gen := func(i int) *world.World {
		return world.Gen(world.Profiles[f.job.Prof], worldSeed(f.job.Base, f.job.Prof, i))
	}
	target := gen(f.i)
	like := &f.v
	var pre []*world.World
	run := func(w *world.World) (*world.Violation, *world.World) {
		v, x, rep := c.attempt(append(append([]*world.World{}, pre...), w), race, like)
		if v != nil && rep != "" {
			f.text = rep
		}
		return v, x
	}
	// the race detector keeps a bounded history of accesses and misses some
	// races of some runs: one miss does not show that a race is gone
	sure := func(w *world.World) (v *world.Violation, x *world.World) {
		for n := 0; n < c.tries(race) && v == nil; n++ {
			v, x = run(w)
		}
		return
	}
	v, got := sure(target)
	if v == nil {
		for i := f.job.From; i < f.i; i++ {
			pre = append(pre, gen(i))
		}
		v, got = sure(target)
		if v == nil {
			return nil
		}
		// which of the worlds before are needed
		for n := len(pre); n > 0 && time.Now().Before(end); {
			n = (n + 1) / 2
			for a := 0; a < len(pre) && time.Now().Before(end); {
				b := min(a+n, len(pre))
				old := pre
				pre = append(append([]*world.World{}, old[:a]...), old[b:]...)
				if x, g := run(target); x != nil {
					v, got = x, g
				} else {
					pre = old
					a = b
				}
			}
			if n == 1 {
				break
			}
		}
	}
	cur := target
	try := func(edit func(w *world.World) bool) bool {
		if !time.Now().Before(end) {
			return false
		}
		w := cur.Clone()
		if !edit(w) {
			return false
		}
		x, g := run(w)
		if x == nil {
			return false
		}
		cur, v, got = w, x, g
		return true
	}
	// a run without interleaving, if that is enough
	try(func(w *world.World) bool { w.Replay, w.Sched = true, []simrt.Decision{}; return true })
	for d := range cur.Docs {
		if d == v.Doc && len(cur.Docs) > 1 {
			continue
		}
		try(func(w *world.World) bool {
			if len(w.Docs[d].Ops) == 0 {
				return false
			}
			w.Docs[d].Ops = nil
			return true
		})
	}
	if v.Doc >= 0 && v.Op >= 0 {
		try(func(w *world.World) bool {
			if v.Op+1 >= len(w.Docs[v.Doc].Ops) {
				return false
			}
			w.Docs[v.Doc].Ops = w.Docs[v.Doc].Ops[:v.Op+1]
			return true
		})
	}
	for d := range cur.Docs {
		for n := len(cur.Docs[d].Ops) / 2; n > 0; n /= 2 {
			for a := 0; a < len(cur.Docs[d].Ops); {
				if !try(func(w *world.World) bool {
					ops := w.Docs[d].Ops
					b := min(a+n, len(ops))
					keep := append([]world.Op{}, ops[:a]...)
					for _, o := range ops[a:b] {
						if settles[o.K] {
							keep = append(keep, o)
						}
					}
					keep = append(keep, ops[b:]...)
					w.Docs[d].Ops = keep
					return len(keep) < len(ops)
				}) {
					a += n
				}
				if !time.Now().Before(end) {
					break
				}
			}
		}
	}
	for d := range cur.Docs {
		for k := range cur.Docs[d].Ops {
			for _, clear := range []func(o *world.Op) bool{
				func(o *world.Op) bool {
					x := o.Src != nil && o.Src.Mode != "whole"
					if x {
						*o.Src = world.SrcPlan{Mode: "whole"}
					}
					return x
				},
				func(o *world.Op) bool { x := o.Sink != nil; o.Sink = nil; return x },
				func(o *world.Op) bool { x := o.Disk != nil; o.Disk = nil; return x },
			} {
				try(func(w *world.World) bool { return clear(&w.Docs[d].Ops[k]) })
			}
		}
	}
	try(func(w *world.World) bool { x := w.Drop != 0; w.Drop = 0; return x })
	// the schedule: fix it, then replace decisions by running on
	if !cur.Replay && got != nil && got.Replay {
		sched := got.Sched
		if try(func(w *world.World) bool { w.Replay, w.Sched = true, append([]simrt.Decision{}, sched...); return true }) {
			for lo, hi := 0, len(cur.Sched); lo < hi; { // shortest prefix that matters
				mid := (lo + hi) / 2
				if try(func(w *world.World) bool {
					if mid >= len(w.Sched) {
						return false
					}
					w.Sched = w.Sched[:mid]
					return true
				}) {
					hi = mid
				} else {
					lo = mid + 1
				}
				if !time.Now().Before(end) {
					break
				}
			}
			for n := len(cur.Sched) / 2; n > 0; n /= 2 {
				for a := 0; a < len(cur.Sched); {
					if !try(func(w *world.World) bool {
						b := min(a+n, len(w.Sched))
						w.Sched = append(append([]simrt.Decision{}, w.Sched[:a]...), w.Sched[b:]...)
						return true
					}) {
						a += n
					}
					if !time.Now().Before(end) {
						break
					}
				}
			}
		}
	}
	rp.Worlds = append(append([]*world.World{}, pre...), cur)
	// final: exact, twice
	f.text = ""
	a, _ := sure(cur)
	rep := f.text
	b, _ := sure(cur)
	if a == nil || b == nil {
		return nil
	}
	rp.Exact = *a == *b
	rp.Class, rp.Message, rp.Doc, rp.Op = a.Class, a.Msg, a.Doc, a.Op
	if len(rep) > 12000 {
		rep = rep[:12000]
	}
	rp.Report = rep
	for d := range cur.Docs {
		for k, o := range cur.Docs[d].Ops {
			j, _ := json.Marshal(o)
			rp.Trace = append(rp.Trace, fmt.Sprintf("task %d step %d: %s", d, k, j))
		}
	}
	if cur.Replay {
		for k, x := range cur.Sched {
			if k > 200 {
				break
			}
			rp.Trace = append(rp.Trace, fmt.Sprintf("schedule slice %d: task %d for %d ticks after a clock jump of %d ns", k, x.T, x.Q, x.J))
		}
		if len(cur.Sched) == 0 {
			rp.Trace = append(rp.Trace, "schedule: each task runs until it blocks or ends, in order")
		}
	} else {
		rp.Trace = append(rp.Trace, "schedule: drawn from the world's seed")
	}
	return rp
}
