package world

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"

	"github.com/signintech/gopdf"

	"verifsim/simrt"
)

// Result is the verdict on one world.
type Result struct {
	Viol   []Violation
	Cnt    Counters
	Stats  simrt.Stats
	SimNS  int64
	Inter  uint64
	Digest uint64
	Sched  []simrt.Decision
}

func init() {
	simrt.InstallHooks()
	y, sp, ex := simrt.Hooks()
	gopdf.VerifYield, gopdf.VerifSpawn, gopdf.VerifExit = y, sp, ex
	gopdf.VerifOn = true
}

// OnDeadlock receives a world whose tasks can no longer run. It must not return.
var OnDeadlock func(v Violation)

func (e *Env) conts(pre []Op) ([]*gopdf.FontContainer, []map[string]*mfont, error) {
	var cs []*gopdf.FontContainer
	var ms []map[string]*mfont
	for i := 0; i < e.W.Conts; i++ {
		cs = append(cs, &gopdf.FontContainer{})
		ms = append(ms, map[string]*mfont{})
	}
	m := &Model{E: e}
	for i := range pre {
		op := &pre[i]
		o, has := ttfOpt(op)
		var err error
		if has {
			err = cs[op.I[4]].AddTTFFontDataWithOption(op.S[0], e.FontB[op.I[0]], o)
		} else {
			err = cs[op.I[4]].AddTTFFontData(op.S[0], e.FontB[op.I[0]])
		}
		if err != nil {
			return nil, nil, err
		}
		ms[op.I[4]][op.S[0]] = m.newFont(op, op.I[0])
	}
	return cs, ms, nil
}

// RunWorld executes a world and judges it. solo also runs every document alone.
func RunWorld(w *World, dir string, race, solo bool) (*Result, error) {
	runtime.SimMapSeed(true, w.Seed)
	defer runtime.SimMapSeed(false, 0)
	e, err := NewEnv(w, dir)
	if err != nil {
		return nil, err
	}
	for i, b := range e.FontB {
		e.writeInput("font", i, b)
	}
	for i, b := range e.ImgB {
		e.writeInput("img", i, b)
	}
	for i, p := range e.PDFs {
		e.writeInput("pdf", i, p.B)
	}
	if !race {
		os.SimFS = e.Disk
		defer func() { os.SimFS = nil }()
	}
	conts, fams, err := e.conts(w.Pre)
	if err != nil {
		return &Result{Cnt: e.Cnt, Viol: []Violation{{Class: "container", Doc: -1, Op: -1, Msg: "adding a font to a container: " + err.Error()}}}, nil
	}
	res := &Result{Cnt: e.Cnt}
	simrt.SetPoolDrop(w.Drop)
	s := &simrt.Sim{Rng: simrt.NewRand(simrt.Mix(w.Seed, 1)), Policy: w.Policy, Race: race}
	if w.Replay {
		s.Replay = w.Sched
		if s.Replay == nil {
			s.Replay = []simrt.Decision{}
		}
	}
	simrt.DeadlockHook = func(s *simrt.Sim) {
		if OnDeadlock == nil {
			panic("simulator: deadlock")
		}
		OnDeadlock(Violation{Class: "deadlock", Doc: -1, Op: -1, Msg: fmt.Sprintf("no task can continue: %v", s.Deadlock)})
	}
	var runs []*DocRun
	for i := range w.Docs {
		runs = append(runs, NewRun(e, i, conts))
	}
	s.Run(func() {
		for i, r := range runs {
			s.Go(fmt.Sprintf("doc%d", i), r.Run)
		}
	})
	res.Stats, res.SimNS, res.Inter, res.Sched = s.Stats, int64(s.SimTime), s.Interleaving(), s.Record
	g, h, d := simrt.PoolStats()
	res.Cnt["pool_gets"] += int64(g)
	res.Cnt["pool_hits"] += int64(h)
	res.Cnt["pool_drops"] += int64(d)
	for _, r := range runs {
		res.Viol = append(res.Viol, r.Viol...)
		res.Cnt.Add(r.Cnt)
	}
	res.Viol = append(res.Viol, e.checkMem()...)
	lv, ln := Linear(runs, w.Pre)
	res.Viol = append(res.Viol, lv...)
	res.Cnt["container_events"] += int64(ln)
	res.Digest = digest(runs, dir)
	if race {
		return res, nil
	}
	for _, r := range runs {
		cnt := r.Cnt
		r.Cnt = Counters{}
		res.Viol = append(res.Viol, r.safely(func() []Violation { return r.History(fams) })...)
		res.Cnt.Add(r.Cnt)
		r.Cnt = cnt
	}
	if solo && (len(runs) > 1 || w.Scrib) {
		simrt.SetPoolDrop(0)
		for i, r := range runs {
			c2, _, err := e.conts(w.Pre)
			if err != nil {
				return nil, err
			}
			os.RemoveAll(filepath.Join(dir, fmt.Sprintf("d%d", i)))
			t := NewRun(e, i, c2)
			t.Solo, t.NoScrib = true, true
			z := &simrt.Sim{Rng: simrt.NewRand(simrt.Mix(w.Seed, 2, uint64(i))), Policy: simrt.Policy{}}
			z.Run(func() { z.Go("solo", t.Run) })
			res.Viol = append(res.Viol, r.safely(func() []Violation { return r.Twin(t) })...)
			if w.Scrib {
				for k := range res.Viol {
					if v := &res.Viol[k]; v.Class == "isolation" {
						v.Class, v.Msg = "memory", "after the caller reused what it had passed: "+v.Msg
					}
				}
			}
			res.Cnt["solo_runs"]++
		}
	}
	if solo && w.Mute {
		for i, r := range runs {
			last := r.lastOut()
			if last < 0 {
				continue
			}
			c2, _, err := e.conts(w.Pre)
			if err != nil {
				return nil, err
			}
			os.RemoveAll(filepath.Join(dir, fmt.Sprintf("d%d", i)))
			t := NewRun(e, i, c2)
			t.Solo, t.NoScrib, t.Mute = true, true, last
			z := &simrt.Sim{Rng: simrt.NewRand(simrt.Mix(w.Seed, 3, uint64(i))), Policy: simrt.Policy{}}
			z.Run(func() { z.Go("mute", t.Run) })
			res.Viol = append(res.Viol, r.safely(func() []Violation { return r.Unwritten(t, last) })...)
			res.Cnt["unwritten_runs"]++
		}
	}
	return res, nil
}

// safely runs a judgement. An output that defeats the reader is a violation.
func (r *DocRun) safely(f func() []Violation) (v []Violation) {
	defer func() {
		if x := recover(); x != nil {
			if Debug {
				fmt.Println(string(debug.Stack()))
			}
			v = append(v, Violation{Class: "struct", Doc: r.ID, Op: len(r.Res) - 1, Msg: fmt.Sprintf("the output defeats the reader: %v", x)})
		}
	}()
	return f()
}

// Keys lists the counters in order.
func (c Counters) Keys() []string {
	var k []string
	for x := range c {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
