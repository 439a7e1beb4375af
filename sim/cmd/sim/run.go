package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifsim/simrt"
	"verifsim/world"
)

// job is a batch of worlds run in one fresh process.
type job struct {
	Prof     string
	Base     uint64
	From, To int
	Race     bool
	out      *outcome
}

type coord struct {
	prop     *Prop
	bin      string
	racebin  string
	scratch  string
	procs    int64
	seed     uint64
	tier     string
	known    []Known
	replays  string
	evidence string
}

// Known is an entry of the known-findings file.
type Known struct {
	Property string       `json:"property"`
	ID       string       `json:"id"`
	Status   string       `json:"status"` // known, or fixed
	Commit   string       `json:"commit,omitempty"`
	What     string       `json:"what"`
	Class    string       `json:"class,omitempty"` // known: what the probe world must show
	Message  string       `json:"message,omitempty"`
	Probe    *world.World `json:"probe,omitempty"`
	Line     string       `json:"line,omitempty"`
}

func runMain(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	id := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "")
	bin := fs.String("bin", "", "worker binary")
	racebin := fs.String("racebin", "", "race-instrumented worker binary")
	ev := fs.String("evidence", "", "evidence file")
	replays := fs.String("replays", "", "directory of replay files")
	known := fs.String("known", "", "known-findings file")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	scale := fs.Float64("scale", 1, "multiplies the number of worlds")
	only := fs.String("profile", "", "only this profile")
	fs.Parse(args)
	c := &coord{bin: *bin, racebin: *racebin, seed: *seed, tier: *tier, replays: *replays, evidence: *ev}
	for i := range Props {
		if Props[i].ID == *id {
			c.prop = &Props[i]
		}
	}
	if c.prop == nil {
		fatal("unknown property %q", *id)
	}
	if *known != "" {
		b, err := os.ReadFile(*known)
		if err == nil {
			err = json.Unmarshal(b, &c.known)
		}
		if err != nil {
			fatal("known findings: %v", err)
		}
	}
	dir, err := os.MkdirTemp("", "verifsim")
	if err != nil {
		fatal("%v", err)
	}
	c.scratch = dir
	defer os.RemoveAll(dir)
	return c.run(*workers, *scale, *only)
}

func (c *coord) run(workers int, scale float64, only string) int {
	t0 := time.Now()
	budget := 560 * time.Second
	if c.tier == "thorough" {
		budget = 8 * time.Hour
	}
	knownN, bad := c.probe()
	var jobs []*job
	for _, p := range c.prop.Search {
		if only != "" && p.Profile != only {
			continue
		}
		n := p.Quick
		if c.tier == "thorough" {
			n = p.Quick * p.times()
		}
		n = int(float64(n) * scale)
		size := p.Batch
		if size == 0 {
			size = 24
		}
		for a := 0; a < n; a += size {
			jobs = append(jobs, &job{Prof: p.Profile, Base: c.seed, From: a, To: min(a+size, n), Race: p.Race})
		}
	}
	// the profiles advance together, so that a cut-off run covers them all
	sort.SliceStable(jobs, func(i, j int) bool {
		a, b := jobs[i], jobs[j]
		return float64(a.From)/float64(c.count(a)) < float64(b.From)/float64(c.count(b))
	})
	var next int64 = -1
	var stop atomic.Bool
	cut := false
	var mu sync.Mutex
	var wg sync.WaitGroup
	if bad {
		stop.Store(true)
	}
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(jobs) {
					return
				}
				if time.Since(t0) > budget {
					mu.Lock()
					cut = true
					mu.Unlock()
					return
				}
				j := jobs[i]
				j.out = c.runJob(j)
				if j.out.Kind != "ok" {
					stop.Store(true)
				}
				for _, m := range j.out.Msgs {
					if len(m.Viol) > 0 {
						stop.Store(true)
					}
				}
			}
		}()
	}
	wg.Wait()
	searchWall := time.Since(t0)
	sum := c.sum(jobs)
	code := 0
	violations := 0
	if bad {
		violations++
		code = 1
	}
	// the first violation in the order of the jobs
	var f *found
	for _, j := range jobs {
		if j.out == nil || f != nil || code != 0 {
			continue
		}
		for _, m := range j.out.Msgs {
			if len(m.Viol) > 0 {
				f = &found{job: j, i: m.I, v: m.Viol[0], all: m.Viol, w: m.World}
				break
			}
		}
		if f == nil && j.out.Kind != "ok" {
			switch v := j.out.abnormal(); {
			case v != nil:
				f = &found{job: j, i: j.out.Last, v: *v, text: j.out.Stderr}
			default:
				msg := ""
				for _, m := range j.out.Msgs {
					msg += m.Err
				}
				fmt.Fprintf(os.Stderr, "ERROR: worker ended with %s in world %d of %s (base seed %d): %s\n%s\n", j.out.Kind, j.out.Last, j.Prof, j.Base, msg, head(j.out.Stderr, 6000))
				code = 2
			}
		}
	}
	if f != nil {
		fmt.Printf("found: profile %s world %d: %v\n", f.job.Prof, f.i, f.v)
		limit := 60 * time.Second
		rp := c.shrink(f, limit)
		for _, v := range f.all[min(1, len(f.all)):] {
			if rp != nil {
				break
			}
			f.v = v
			rp = c.shrink(f, limit/2)
		}
		if rp == nil {
			fmt.Fprintf(os.Stderr, "ERROR: the violation could not be reproduced in a fresh process: %v\n", f.v)
			code = 2
		} else {
			violations++
			path := c.save(rp)
			fmt.Printf("%s\n", rp.Message)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop.ID, path)
			code = 1
		}
	}
	checked, differ := 0, 0
	if code == 0 {
		checked, differ = c.selfCheck(jobs)
	}
	sum.DeterminismChecked, sum.DeterminismDiffer = checked, differ
	if code != 2 {
		c.write(sum, t0, searchWall, violations, knownN, cut)
	}
	if code == 0 {
		if sum.Worlds == 0 {
			fmt.Fprintln(os.Stderr, "ERROR: nothing was explored")
			return 2
		}
		fmt.Printf("property %s held in %d simulated worlds (%d distinct histories and schedules), %.0f s\n", c.prop.ID, sum.Worlds, len(sum.distinct), time.Since(t0).Seconds())
	}
	return code
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (c *coord) count(j *job) int {
	for _, p := range c.prop.Search {
		if p.Profile == j.Prof && p.Race == j.Race {
			return max(1, p.Quick)
		}
	}
	return 1
}

func (c *coord) runJob(j *job) *outcome {
	bin := c.bin
	args := []string{"-p", j.Prof, "-s", fmt.Sprint(j.Base), "-from", fmt.Sprint(j.From), "-to", fmt.Sprint(j.To), "-classes", strings.Join(c.prop.classes(), ",")}
	if j.Race {
		bin = c.racebin
		args = append(args, "-race")
	}
	return c.spawn(bin, args...)
}

func (c *coord) save(rp *Replay) string {
	os.MkdirAll(c.replays, 0755)
	p := filepath.Join(c.replays, fmt.Sprintf("%s-%s-%d.json", c.prop.ID, rp.Class, c.seed))
	rp.Howto = "/verif/check.sh replay " + p
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(p, append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
	return p
}

// probe runs the histories of the known findings.
func (c *coord) probe() (n int, bad bool) {
	for i := range c.known {
		k := &c.known[i]
		if k.Property != c.prop.ID || k.Status != "known" || k.Probe == nil {
			continue
		}
		like := &world.Violation{Class: k.Class}
		f := filepath.Join(c.scratch, "probe.json")
		b, _ := json.Marshal(Replay{Worlds: []*world.World{k.Probe}})
		os.WriteFile(f, b, 0644)
		o := c.spawn(c.bin, "-f", f)
		seen := false
		for _, m := range o.Msgs {
			for _, v := range m.Viol {
				if v.Class == like.Class && strings.Contains(v.Msg, k.Message) {
					seen = true
				}
			}
			if m.Err != "" {
				fatal("known finding %s: %s", k.ID, m.Err)
			}
		}
		if seen {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
			n++
		}
	}
	return n, false
}

// selfCheck repeats a few batches in other processes and compares everything
// they did.
func (c *coord) selfCheck(jobs []*job) (checked, differ int) {
	var pick []*job
	seen := map[string]bool{}
	for _, j := range jobs {
		k := fmt.Sprint(j.Prof, j.Race)
		if j.out != nil && !seen[k] {
			seen[k] = true
			pick = append(pick, j)
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, j := range pick {
		wg.Add(1)
		go func() {
			defer wg.Done()
			short := *j
			short.To = min(j.To, j.From+6)
			o := c.runJob(&short)
			mu.Lock()
			defer mu.Unlock()
			for k, m := range o.Msgs {
				if m.T != "world" || k >= len(j.out.Msgs) {
					continue
				}
				checked++
				a, b := m, j.out.Msgs[k]
				if a.Digest != b.Digest || a.Inter != b.Inter || a.SimNS != b.SimNS {
					differ++
					fmt.Fprintf(os.Stderr, "warning: world %d of %s ran differently the second time\n", m.I, j.Prof)
				}
			}
		}()
	}
	wg.Wait()
	return
}

type profSum struct {
	Worlds int   `json:"worlds"`
	From   int   `json:"first_world"`
	To     int   `json:"last_world"`
	SimNS  int64 `json:"simulated_ns"`
	Race   bool  `json:"race_engine,omitempty"`
}

type summary struct {
	Worlds             int
	Prof               map[string]*profSum
	Cnt                world.Counters
	SimNS              int64
	Stats              simrt.Stats
	inter              map[uint64]bool
	distinct           map[[2]uint64]bool
	Other              map[string]int
	DeterminismChecked int
	DeterminismDiffer  int
}

func (c *coord) sum(jobs []*job) *summary {
	s := &summary{Prof: map[string]*profSum{}, Cnt: world.Counters{}, inter: map[uint64]bool{}, distinct: map[[2]uint64]bool{}, Other: map[string]int{}}
	for _, j := range jobs {
		if j.out == nil {
			continue
		}
		name := j.Prof
		if j.Race {
			name += " (race engine)"
		}
		p := s.Prof[name]
		if p == nil {
			p = &profSum{From: j.From, Race: j.Race}
			s.Prof[name] = p
		}
		for _, m := range j.out.Msgs {
			if m.T == "done" {
				s.Cnt.Add(m.Cnt)
			}
			if m.T != "world" {
				continue
			}
			s.Worlds++
			p.Worlds++
			p.To = max(p.To, m.I)
			p.SimNS += m.SimNS
			s.SimNS += m.SimNS
			s.inter[m.Inter] = true
			if m.Stats != nil && m.Stats.Steps+int64(m.Stats.Slices) > 2 {
				s.distinct[[2]uint64{m.Inter, m.Digest}] = true
			}
			if m.Stats != nil {
				s.Stats.Steps += m.Stats.Steps
				s.Stats.Slices += m.Stats.Slices
				s.Stats.Switches += m.Stats.Switches
				s.Stats.Jumps += m.Stats.Jumps
				s.Stats.Spawns += m.Stats.Spawns
				s.Stats.LockWaits += m.Stats.LockWaits
			}
			for _, o := range m.Other {
				s.Other[o]++
			}
		}
	}
	return s
}

func (c *coord) write(s *summary, t0 time.Time, search time.Duration, violations, known int, cut bool) {
	ops, faults, env := map[string]int64{}, map[string]int64{}, map[string]int64{}
	for k, v := range s.Cnt {
		switch {
		case strings.HasPrefix(k, "op_"):
			ops[k[3:]] = v
		case isFault(k):
			faults[k] = v
		default:
			env[k] = v
		}
	}
	if s.Stats.Jumps > 0 {
		faults["clock_jump"] = int64(s.Stats.Jumps)
	}
	var samples []any
	n := 0
	for _, p := range c.prop.Search {
		if n >= 2 {
			break
		}
		n++
		w := world.Gen(world.Profiles[p.Profile], worldSeed(c.seed, p.Profile, 0))
		var h []string
		for d := range w.Docs {
			for k, o := range w.Docs[d].Ops {
				if k >= 12 {
					h = append(h, fmt.Sprintf("task %d: and %d more steps", d, len(w.Docs[d].Ops)-k))
					break
				}
				b, _ := json.Marshal(o)
				h = append(h, fmt.Sprintf("task %d step %d: %s", d, k, b))
			}
		}
		samples = append(samples, map[string]any{"profile": p.Profile, "world": 0, "seed": w.Seed, "policy": w.Policy, "history": h})
	}
	hours := search.Hours()
	cov := map[string]any{
		"evaluations":            s.Worlds,
		"distinct_nontrivial":    len(s.distinct),
		"rule":                   "A case is a world: the histories of 1 to 4 documents, their inputs, the faults of their environment and a scheduling policy, all drawn from one seed; every document's calls are judged against the reference model and every output is parsed. Distinct: the pair (interleaving digest: the sequence of task and resume point at every switch; outcome digest: every result, position and output byte) was not seen before. Non-trivial: at least one statement of the code under test ran under the scheduler.",
		"samples":                samples,
		"profiles":               s.Prof,
		"runs_per_hour":          int(float64(s.Worlds) / hours),
		"seeds_per_hour":         int(float64(s.Worlds) / hours),
		"simulated_seconds":      float64(s.SimNS) / 1e9,
		"faults_injected":        faults,
		"operations":             ops,
		"environment":            env,
		"distinct_interleavings": len(s.inter),
		"interleaving_measure":   "digest of the sequence (task, site of the statement or I/O call it resumed at) over all task switches of a run",
		"scheduler":              s.Stats,
		"determinism":            map[string]int{"worlds_repeated_in_another_process": s.DeterminismChecked, "differing": s.DeterminismDiffer},
		"known_findings":         known,
		"cut_off_by_time":        cut,
		"real_components":        []string{"github.com/signintech/gopdf (instrumented with yield points, otherwise as in the working tree)", "github.com/phpdave11/gofpdi", "compress/zlib, image/*, crypto/*, io.Pipe, sync, os path handling of the Go standard library"},
		"stub_components":        []string{"goroutine scheduler (seeded, statement-level)", "clock (testing/synctest bubble, jumped by the scheduler)", "sync.Pool (deterministic, entries dropped by the seed)", "map iteration order and math/rand (seeded)", "disk below os.File (fault layer over scratch files)", "io.Reader sources and io.Writer sinks (simulated)"},
		"assumptions_checked":    "outputs are parsed by an independent PDF reader (pdfr), fonts and images by independent readers",
	}
	if len(s.Other) > 0 {
		cov["observations_outside_this_property"] = s.Other
	}
	doc := map[string]any{
		"property": c.prop.ID, "tier": c.tier, "seed": c.seed, "level": "exploration", "coverage": cov,
		"assumptions": c.prop.Assume, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	b, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	os.MkdirAll(filepath.Dir(c.evidence), 0755)
	if err := os.WriteFile(c.evidence, append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
}

func isFault(k string) bool {
	for _, p := range []string{"disk_", "sink_", "src_", "corrupt_", "pool_drops"} {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}

// replayMain replays a file and reports whether it fails exactly as recorded.
func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	bin := fs.String("bin", "", "")
	racebin := fs.String("racebin", "", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	var rp Replay
	if err == nil {
		err = json.Unmarshal(b, &rp)
	}
	if err != nil {
		fatal("%v", err)
	}
	dir, err := os.MkdirTemp("", "verifsim")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	c := &coord{bin: *bin, racebin: *racebin, scratch: dir}
	var v *world.Violation
	var rep string
	for n := 0; n < c.tries(rp.Race) && v == nil; n++ {
		v, _, rep = c.attempt(rp.Worlds, rp.Race, &world.Violation{Class: rp.Class, Msg: rp.Message})
	}
	if v == nil {
		fmt.Println("not reproduced: the history runs without this violation")
		return 0
	}
	for _, t := range rp.Trace {
		fmt.Println(t)
	}
	if rep != "" {
		fmt.Println(head(rep, 8000))
	}
	fmt.Println(v)
	if v.Msg == rp.Message && v.Doc == rp.Doc && v.Op == rp.Op {
		fmt.Println("reproduced exactly")
	} else {
		fmt.Println("recorded:", rp.Message)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, fs.Arg(0))
	return 1
}
