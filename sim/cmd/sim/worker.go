package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"

	"verifsim/simrt"
	"verifsim/world"
)

// msg is one line a worker sends to the coordinator.
type msg struct {
	T      string            `json:"t"` // start, world, done, error
	I      int               `json:"i"`
	Viol   []world.Violation `json:"viol,omitempty"`
	Other  []string          `json:"other,omitempty"` // classes outside the property
	Inter  uint64            `json:"inter,omitempty"`
	Digest uint64            `json:"digest,omitempty"`
	SimNS  int64             `json:"sim_ns,omitempty"`
	Stats  *simrt.Stats      `json:"stats,omitempty"`
	Cnt    world.Counters    `json:"cnt,omitempty"`
	World  *world.World      `json:"world,omitempty"` // a violating world with its schedule
	Err    string            `json:"err,omitempty"`
}

type emitter struct{ w *bufio.Writer }

func (e *emitter) send(m *msg) {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	e.w.Write(b)
	e.w.WriteByte('\n')
	e.w.Flush()
}

// worldSeed is the seed of world i of a profile.
func worldSeed(base uint64, profile string, i int) uint64 {
	h := fnv.New64a()
	h.Write([]byte(profile))
	return simrt.Mix(base, h.Sum64(), uint64(i)) >> 12
}

func classSet(s string) map[string]bool {
	if s == "" {
		return nil
	}
	m := map[string]bool{}
	for _, c := range strings.Split(s, ",") {
		m[c] = true
	}
	return m
}

func quiet() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(256 << 20)
}

var msGC runtime.MemStats

// gc collects between worlds, never inside one.
func gc() {
	runtime.ReadMemStats(&msGC)
	if msGC.HeapAlloc > 192<<20 {
		runtime.GC()
	}
}

// runOne runs one world in a fresh scratch directory.
func runOne(w *world.World, dir string, race, solo bool) (*world.Result, error) {
	rand.Seed(int64(w.Seed))
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0755); err != nil {
		return nil, err
	}
	res, err := world.RunWorld(w, dir, race, solo)
	os.RemoveAll(dir)
	return res, err
}

// workerMain runs worlds From..To of a profile, or the worlds of a file, in
// order in this process, and reports each.
func workerMain(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prof := fs.String("p", "", "profile")
	base := fs.Uint64("s", 1, "base seed")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	dir := fs.String("dir", "", "scratch directory")
	race := fs.Bool("race", false, "")
	classes := fs.String("classes", "", "violation classes that count")
	file := fs.String("f", "", "replay the worlds of this file instead")
	fs.Parse(args)
	quiet()
	out := &emitter{bufio.NewWriter(os.Stdout)}
	rel := classSet(*classes)
	var ws []*world.World
	n := *to - *from
	if *file != "" {
		var rp Replay
		b, err := os.ReadFile(*file)
		if err == nil {
			err = json.Unmarshal(b, &rp)
		}
		if err != nil {
			out.send(&msg{T: "error", Err: err.Error()})
			return 2
		}
		ws, n, *from = rp.Worlds, len(rp.Worlds), 0
	}
	total := world.Counters{}
	i := 0
	d := filepath.Join(*dir, "w")
	world.OnDeadlock = func(v world.Violation) {
		out.send(&msg{T: "world", I: i, Viol: []world.Violation{v}, World: current})
		os.RemoveAll(d)
		os.Exit(0)
	}
	for k := 0; k < n; k++ {
		i = *from + k
		var w *world.World
		if ws != nil {
			w = ws[k]
		} else {
			p := world.Profiles[*prof]
			if p == nil {
				out.send(&msg{T: "error", Err: "no profile " + *prof})
				return 2
			}
			w = world.Gen(p, worldSeed(*base, *prof, i))
		}
		out.send(&msg{T: "start", I: i})
		current = w
		res, err := runOne(w, d, *race, true)
		if err != nil {
			out.send(&msg{T: "error", I: i, Err: err.Error()})
			return 2
		}
		m := &msg{T: "world", I: i, Inter: res.Inter, Digest: res.Digest, SimNS: res.SimNS, Stats: &res.Stats}
		for _, v := range res.Viol {
			v.Msg = strings.ReplaceAll(v.Msg, d, "$DIR")
			if rel == nil || rel[v.Class] {
				m.Viol = append(m.Viol, v)
			} else {
				m.Other = append(m.Other, v.Class)
			}
		}
		total.Add(res.Cnt)
		if len(m.Viol) > 0 {
			c := w.Clone()
			c.Sched, c.Replay = res.Sched, true
			m.World = c
		}
		out.send(m)
		if len(m.Viol) > 0 && ws == nil {
			break // what follows in this process may be tainted
		}
		gc()
	}
	out.send(&msg{T: "done", Cnt: total})
	return 0
}

var current *world.World

// Replay is the file that reproduces a violation.
type Replay struct {
	Property string         `json:"property"`
	Class    string         `json:"class"`
	Doc      int            `json:"doc"`
	Op       int            `json:"op"`
	Message  string         `json:"message"`
	Race     bool           `json:"race,omitempty"`
	Exact    bool           `json:"exact"`  // replaying gave this very message, twice
	Origin   string         `json:"origin"` // where the search met it
	Original string         `json:"original_message,omitempty"`
	Howto    string         `json:"howto"`
	Trace    []string       `json:"trace,omitempty"` // the minimised history, readable
	Worlds   []*world.World `json:"worlds"`          // run in order in one process; the last one fails
	Report   string         `json:"report,omitempty"`
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}
