// Command ovgen builds the simulation overlay: it takes the current sources of
// the package under test and of a few standard-library packages and writes
// copies in which every source of nondeterminism goes through the simulator:
//
//   - every statement of the package under test is preceded by a yield point,
//     so the simulator decides thread interleavings at statement granularity;
//   - every goroutine the package starts registers with the simulator;
//   - os file operations, mutexes, sync.Pool and map iteration order get seams.
//
// Nothing in /repo or in GOROOT is modified: the copies are used through
// 'go build -overlay'. With the simulator's hooks unset the code behaves as
// shipped.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "ovgen: "+f+"\n", a...); os.Exit(2) }

func main() {
	repo := flag.String("repo", "/repo", "repository root")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if *out == "" {
		die("-out required")
	}
	if err := os.MkdirAll(*out, 0755); err != nil {
		die("%v", err)
	}
	repl := map[string]string{}
	site := 0
	var sites []string
	for _, d := range []struct{ dir, sub string }{{".", "gopdf"}, {"fontmaker/core", "core"}} {
		dir := filepath.Join(*repo, d.dir)
		ents, err := os.ReadDir(dir)
		if err != nil {
			die("%v", err)
		}
		pkg := ""
		var names []string
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			src, err := os.ReadFile(filepath.Join(dir, n))
			if err != nil {
				die("%v", err)
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, n, src, parser.ParseComments)
			if err != nil {
				die("parse %s: %v", n, err)
			}
			if f.Name.Name == "main" || skipBuild(f) {
				continue
			}
			pkg = f.Name.Name
			ins := instrument(fset, f, &site, func(pos token.Position) {
				sites = append(sites, fmt.Sprintf("%s/%s:%d", d.sub, n, pos.Line))
			})
			dst := filepath.Join(*out, d.sub+"__"+n)
			if err := os.WriteFile(dst, apply(src, ins), 0644); err != nil {
				die("%v", err)
			}
			repl[filepath.Join(dir, n)] = dst
		}
		if pkg == "" {
			continue
		}
		hook := filepath.Join(*out, d.sub+"__zz_verif_sim_hooks.go")
		body := "package " + pkg + `

// VerifOn switches the simulator's yield points on.
var VerifOn bool

// Simulator entry points.
var (
	VerifYield func(site int32)
	VerifSpawn func()
	VerifExit  func()
)

func verifY(site int32) {
	if VerifOn {
		VerifYield(site)
	}
}

func verifSpawn() {
	if VerifOn {
		VerifSpawn()
	}
}

func verifExit() {
	if VerifOn {
		VerifExit()
	}
}
`
		if err := os.WriteFile(hook, []byte(body), 0644); err != nil {
			die("%v", err)
		}
		repl[filepath.Join(dir, "zz_verif_sim_hooks.go")] = hook
	}
	std(*out, repl)
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0644); err != nil {
		die("%v", err)
	}
}

func skipBuild(f *ast.File) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build ignore") || strings.HasPrefix(c.Text, "// +build ignore") {
				return true
			}
		}
	}
	return false
}

type insertion struct {
	off  int
	text string
}

func instrument(fset *token.FileSet, f *ast.File, site *int, rec func(token.Position)) []insertion {
	var ins []insertion
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			p := fset.Position(s.Pos())
			ins = append(ins, insertion{p.Offset, fmt.Sprintf("verifY(%d);", *site)})
			rec(p)
			*site++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.GoStmt:
			if fl, ok := x.Call.Fun.(*ast.FuncLit); ok {
				p := fset.Position(fl.Body.Lbrace)
				ins = append(ins, insertion{p.Offset + 1, "verifSpawn();defer verifExit();"})
			}
		}
		return true
	})
	// the clause lists of switch/select bodies were visited as blocks: drop
	// insertions placed right before 'case'/'default' keywords.
	drop := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			drop[fset.Position(x.Case).Offset] = true
		case *ast.CommClause:
			drop[fset.Position(x.Case).Offset] = true
		}
		return true
	})
	var keep []insertion
	for _, i := range ins {
		if drop[i.off] {
			continue
		}
		keep = append(keep, i)
	}
	sort.SliceStable(keep, func(a, b int) bool { return keep[a].off < keep[b].off })
	return keep
}

func apply(src []byte, ins []insertion) []byte {
	var out []byte
	last := 0
	for _, i := range ins {
		out = append(out, src[last:i.off]...)
		out = append(out, i.text...)
		last = i.off
	}
	return append(out, src[last:]...)
}

// ---- standard library seams ----

func std(out string, repl map[string]string) {
	root := runtime.GOROOT()
	if g := os.Getenv("GOROOT"); g != "" {
		root = g
	}
	edit := func(rel string, pairs ...string) {
		p := filepath.Join(root, "src", rel)
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		for i := 0; i < len(pairs); i += 2 {
			if pairs[i] == "" {
				s += pairs[i+1]
				continue
			}
			if strings.Count(s, pairs[i]) != 1 {
				die("std seam: %s: anchor %q found %d times", rel, pairs[i], strings.Count(s, pairs[i]))
			}
			s = strings.Replace(s, pairs[i], pairs[i+1], 1)
		}
		dst := filepath.Join(out, "std__"+strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(dst, []byte(s), 0644); err != nil {
			die("%v", err)
		}
		repl[p] = dst
	}
	// map iteration order and map hash seeds: from the simulator's seed
	edit("runtime/rand.go",
		"func maps_rand() uint64 {\n\treturn rand()\n", `func maps_rand() uint64 {
	if simMapOn {
		simMapSeed += 0x9E3779B97F4A7C15
		z := simMapSeed
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
		z = (z ^ (z >> 27)) * 0x94D049BB133111EB
		return z ^ (z >> 31)
	}
	return rand()
`, "", `
var simMapOn bool
var simMapSeed uint64

// SimMapSeed makes map seeds and iteration order a function of seed.
func SimMapSeed(on bool, seed uint64) { simMapOn = on; simMapSeed = seed }

// SimTask returns the simulated task of this goroutine.
func SimTask() unsafe.Pointer { return getg().labels }

// SimSetTask sets the simulated task of this goroutine.
func SimSetTask(p unsafe.Pointer) { getg().labels = p }
`)
	edit("internal/runtime/maps/runtime_alg.go",
		"hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9E3779B97F4A7C15 * uint64(i+1) & 0xffffffffffffffff)",
		"key[i] = bootstrapRand()", "key[i] = 0xD1B54A32D192ED03 * uint64(i+1)")
	// blocking on a lock held by a parked task becomes a scheduling point
	edit("internal/sync/mutex.go",
		"func (m *Mutex) lockSlow() {\n", `
// SimLockHook, when set, is called by a goroutine that would block on a lock.
// It returns false if the goroutine is not under the simulator's control.
var SimLockHook func() bool

func (m *Mutex) lockSlow() {
	if h := SimLockHook; h != nil {
		for h() {
			if m.TryLock() {
				return
			}
		}
	}
`)
	edit("sync/rwmutex.go",
		"func (rw *RWMutex) RLock() {\n", `func (rw *RWMutex) RLock() {
	if h := isync.SimLockHook; h != nil {
		for {
			if rw.TryRLock() {
				return
			}
			if !h() {
				break
			}
		}
	}
`, "func (rw *RWMutex) Lock() {\n", `func (rw *RWMutex) Lock() {
	if h := isync.SimLockHook; h != nil {
		for {
			if rw.TryLock() {
				return
			}
			if !h() {
				break
			}
		}
	}
`, "import (\n", "import (\n\tisync \"internal/sync\"\n", "", `
// SimSetLockHook installs the simulator's lock hook.
func SimSetLockHook(f func() bool) { isync.SimLockHook = f }
`)
	// sync.Pool: deterministic free list, emptied on demand
	edit("sync/pool.go",
		"func (p *Pool) Put(x any) {\n\tif x == nil {\n\t\treturn\n\t}\n", `func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if h := SimPool; h != nil && h.On() {
		if race.Enabled {
			race.ReleaseMerge(poolRaceAddr(x))
			race.Disable()
		}
		h.Put(p, x)
		if race.Enabled {
			race.Enable()
		}
		return
	}
`, "func (p *Pool) Get() any {\n", `func (p *Pool) Get() any {
	if h := SimPool; h != nil && h.On() {
		if race.Enabled {
			race.Disable()
		}
		x := h.Get(p)
		if race.Enabled {
			race.Enable()
			if x != nil {
				race.Acquire(poolRaceAddr(x))
			}
		}
		if x == nil && p.New != nil {
			x = p.New()
		}
		return x
	}
`, "", `
// SimPool, when set, replaces the per-P pools by the simulator's free lists.
var SimPool interface {
	On() bool
	Put(p *Pool, x any)
	Get(p *Pool) any
}
`)
	// bubbles without *testing.T
	edit("testing/synctest/synctest.go", "", `
// SimRun runs f in a new bubble.
func SimRun(f func()) { synctest.Run(f) }
`)
	// file operations
	edit("os/file_posix.go",
		"func (f *File) Close() error {\n\tif f == nil {\n\t\treturn ErrInvalid\n\t}\n", `func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if h := SimFS; h != nil && h.Mine(f.name) {
		err := f.file.close()
		if e := h.Close(f.name); e != nil && err == nil {
			err = &PathError{Op: "close", Path: f.name, Err: e}
		}
		return err
	}
`, "func (f *File) read(b []byte) (n int, err error) {\n", `func (f *File) read(b []byte) (n int, err error) {
	if h := SimFS; h != nil && len(b) > 0 && h.Mine(f.name) {
		k, e := h.Read(f.name, len(b))
		if e != nil {
			return 0, e
		}
		if k > 0 && k < len(b) {
			b = b[:k]
		}
	}
`, "func (f *File) write(b []byte) (n int, err error) {\n", `func (f *File) write(b []byte) (n int, err error) {
	if h := SimFS; h != nil && h.Mine(f.name) {
		k, e := h.Write(f.name, len(b))
		if e != nil || k < len(b) {
			if k > 0 {
				n, err = f.pfd.Write(b[:k])
				if err != nil {
					return n, err
				}
			}
			return n, e
		}
	}
`, "func (f *File) Sync() error {\n", `func (f *File) Sync() error {
	if f != nil {
		if h := SimFS; h != nil && h.Mine(f.name) {
			if e := h.Op("sync", f.name); e != nil {
				return &PathError{Op: "sync", Path: f.name, Err: e}
			}
		}
	}
`, "", `
// SimFS, when set, decides the outcome of file operations on the paths it
// claims as its own.
var SimFS interface {
	Mine(name string) bool
	Read(name string, n int) (int, error)
	Write(name string, n int) (int, error)
	Close(name string) error
	Op(op, name string) error
}
`)
	edit("os/file_unix.go",
		"func openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n", `func openFileNolog(name string, flag int, perm FileMode) (*File, error) {
	if h := SimFS; h != nil && h.Mine(name) {
		op := "open"
		if flag&(O_WRONLY|O_RDWR|O_CREATE) != 0 {
			op = "create"
		}
		if e := h.Op(op, name); e != nil {
			return nil, &PathError{Op: "open", Path: name, Err: e}
		}
	}
`, "func rename(oldname, newname string) error {\n", `func rename(oldname, newname string) error {
	if h := SimFS; h != nil && h.Mine(newname) {
		if e := h.Op("rename", newname); e != nil {
			return &LinkError{"rename", oldname, newname, e}
		}
	}
`)
	edit("os/proc.go", "func Exit(code int) {\n", `func Exit(code int) {
	if h := SimExit; h != nil {
		h(code)
	}
`, "", `
// SimExit, when set, is called before the process would exit.
var SimExit func(code int)
`)
	edit("os/stat.go",
		"func Stat(name string) (FileInfo, error) {\n", `func Stat(name string) (FileInfo, error) {
	if h := SimFS; h != nil && h.Mine(name) {
		if e := h.Op("stat", name); e != nil {
			return nil, &PathError{Op: "stat", Path: name, Err: e}
		}
	}
`)
}
