//go:debug randseednop=0

package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"

	"verifsim/pdfr"
	"verifsim/world"
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: sim run|worker|replay|dbg")
	}
	switch os.Args[1] {
	case "dbg":
		dbg(os.Args[2:])
	case "worker":
		os.Exit(workerMain(os.Args[2:]))
	case "run":
		os.Exit(runMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "world": // print a world: world PROFILE SEED
		var seed uint64
		fmt.Sscan(os.Args[3], &seed)
		b, _ := json.Marshal(world.Gen(world.Profiles[os.Args[2]], seed))
		fmt.Println(string(b))
	case "classes":
		for _, p := range Props {
			fmt.Println(p.ID, p.classes())
		}
	case "races": // does the property need the race engine
		for _, p := range Props {
			for _, s := range p.Search {
				if len(os.Args) > 2 && p.ID == os.Args[2] && s.Race {
					fmt.Println("yes")
					return
				}
			}
		}
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

func dbg(args []string) {
	fs := flag.NewFlagSet("dbg", flag.ExitOnError)
	prof := fs.String("p", "mix", "")
	seed := fs.Uint64("s", 1, "")
	n := fs.Int("n", 100, "")
	stop := fs.Int("stop", 10, "")
	race := fs.Bool("race", false, "")
	dump := fs.Int("dump", -1, "print the operations of this document")
	upto := fs.Int("upto", 1000, "")
	fs.BoolVar(&world.Debug, "v", false, "")
	fs.Parse(args)
	pdfr.Trace = world.Debug
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	dir, _ := os.MkdirTemp("", "simdbg")
	defer os.RemoveAll(dir)
	world.OnDeadlock = func(v world.Violation) { fmt.Println(v); os.RemoveAll(dir); os.Exit(3) }
	cnt := world.Counters{}
	bad := 0
	classes := map[string]int{}
	first := map[string]string{}
	for i := 0; i < *n; i++ {
		w := world.Gen(world.Profiles[*prof], *seed+uint64(i))
		rand.Seed(int64(w.Seed))
		if *dump >= 0 {
			fmt.Printf("conts %+v\n", w.Pre)
			b, _ := json.Marshal(w.Docs[*dump])
			var m map[string]any
			json.Unmarshal(b, &m)
			for k, v := range m {
				if k != "Ops" && k != "ops" {
					b, _ := json.Marshal(v)
					fmt.Println(k, string(b))
				}
			}
			for k, op := range w.Docs[*dump].Ops {
				if k > *upto {
					break
				}
				b, _ := json.Marshal(op)
				fmt.Println(k, string(b))
			}
		}
		d := fmt.Sprintf("%s/w%d", dir, i)
		os.MkdirAll(d, 0755)
		res, err := world.RunWorld(w, d, *race, true)
		os.RemoveAll(d)
		if err != nil {
			fmt.Println("ERROR", w.Seed, err)
			break
		}
		cnt.Add(res.Cnt)
		for _, v := range res.Viol {
			k := v.Class
			classes[k]++
			if first[k] == "" {
				first[k] = fmt.Sprintf("seed %d %v", w.Seed, v)
				fmt.Println(first[k])
			}
		}
		if len(res.Viol) > 0 {
			bad++
			if bad >= *stop {
				fmt.Println("stopped at", i)
				break
			}
		}
		if i%20 == 0 {
			runtime.GC()
		}
	}
	fmt.Println("bad worlds", bad, classes)
	for _, k := range cnt.Keys() {
		fmt.Printf("%s=%d ", k, cnt[k])
	}
	fmt.Println()
}
