package simrt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/metrics"
	"sort"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"
)

// Policy says how the scheduler draws interleavings.
type Policy struct {
	Mean       int  `json:"mean"`        // mean slice length in ticks; 0 = run until blocked
	SeamWeight int  `json:"seam_weight"` // ticks charged at an I/O seam (a statement costs 1)
	ClockJumps bool `json:"clock_jumps,omitempty"`
}

// Decision is one scheduling step: task T runs for Q ticks (0: until it blocks).
type Decision struct {
	T int `json:"t"`
	Q int `json:"q"`
	J int `json:"j,omitempty"` // simulated nanoseconds the clock jumps first
}

// Hang is the panic value of a task that exceeded its step budget.
type Hang struct{ Steps int64 }

func (h Hang) Error() string { return fmt.Sprintf("no progress after %d steps", h.Steps) }

// Exit is the panic value of code that tried to end the process.
type Exit struct{ Code int }

func (e Exit) Error() string { return fmt.Sprintf("process exit %d", e.Code) }

const (
	stNew = iota
	stParked
	stRunning
	stDone
)

// Task is one simulated thread.
type Task struct {
	ID      int
	Name    string
	sim     *Sim
	wake    chan struct{}
	fd      [2]int // race engine
	quant   int64
	state   int
	site    int32
	Steps   int64 // statement-level steps executed
	opEnd   int64 // step budget of the current operation
	Spawned bool
	metered bool
	allocs  uint64 // bytes allocated since Meter, up to the last switch
	allocAt uint64
}

// Sim is one simulated run.
type Sim struct {
	Rng      *Rand
	Policy   Policy
	Replay   []Decision // nil: draw decisions
	Record   []Decision
	Race     bool
	Stats    Stats
	mu       sync.Mutex
	tasks    []*Task
	done     chan *Task
	schedFd  [2]int
	Deadlock []string
	ihash    uint64
	start    time.Time
	SimTime  time.Duration
}

// Stats counts what a run reached.
type Stats struct {
	Steps     int64
	Slices    int
	Switches  int
	Jumps     int
	Spawns    int
	LockWaits int
}

// OpBudget is the number of statement steps one API call may take; the
// heaviest calls of the profiles take some twelve million.
const OpBudget = 80_000_000

var cur *Sim

// Cur returns the running simulation.
func Cur() *Sim { return cur }

//go:norace
func self() *Task { return (*Task)(runtime.SimTask()) }

// Self returns the simulated task of the calling goroutine, or nil.
func Self() *Task { return self() }

// Yield is called before every statement of the code under test.
//
//go:norace
func Yield(site int32) {
	t := self()
	if t == nil {
		return
	}
	t.Steps++
	if t.opEnd != 0 && t.Steps > t.opEnd {
		t.opEnd = 0
		panic(Hang{OpBudget})
	}
	t.quant--
	if t.quant <= 0 {
		t.site = site
		t.yieldCPU()
	}
}

// Seam is called by the simulated environment on every I/O call.
//
//go:norace
func Seam(site int32) {
	t := self()
	if t == nil {
		return
	}
	t.Steps++
	t.quant -= int64(t.sim.Policy.SeamWeight)
	if t.quant <= 0 {
		t.site = -site - 1
		t.yieldCPU()
	}
}

// BeginOp starts the step budget of an operation on this task.
//
//go:norace
func BeginOp() {
	if t := self(); t != nil {
		t.opEnd = t.Steps + OpBudget
	}
}

// EndOp ends it.
//
//go:norace
func EndOp() {
	if t := self(); t != nil {
		t.opEnd = 0
	}
}

//go:norace
func lockHook() bool {
	t := self()
	if t == nil || t.state != stRunning {
		return false
	}
	t.sim.Stats.LockWaits++
	t.site = -1000
	t.yieldCPU()
	return true
}

// spawnHook runs first in a goroutine started by the code under test.
func spawnHook() {
	s := cur
	if s == nil {
		return
	}
	parent := self()
	runtime.SimSetTask(nil)
	if s.Race {
		return // runs outside the schedule; race worlds do not start any
	}
	name := "spawned"
	if parent != nil {
		name = parent.Name + "+"
	}
	t := s.newTask(name)
	t.Spawned = true
	s.Stats.Spawns++
	runtime.SimSetTask(unsafe.Pointer(t))
	s.park(t)
}

func exitHook() {
	t := self()
	if t == nil {
		return
	}
	runtime.SimSetTask(nil)
	t.state = stDone
}

func (s *Sim) newTask(name string) *Task {
	s.mu.Lock()
	t := &Task{ID: len(s.tasks), Name: name, sim: s, wake: make(chan struct{})}
	s.tasks = append(s.tasks, t)
	s.mu.Unlock()
	if s.Race {
		t.fd = mkpipe()
	}
	return t
}

// Meter starts counting the bytes this task allocates while it runs.
func Meter() {
	if t := self(); t != nil {
		t.metered, t.allocs, t.allocAt = true, 0, allocated()
	}
}

// Metered ends the count and returns it; other tasks' allocations are not in it.
func Metered() uint64 {
	t := self()
	if t == nil {
		return 0
	}
	t.metered = false
	return t.allocs + allocated() - t.allocAt
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

//go:norace
func (t *Task) yieldCPU() {
	if !t.metered {
		t.sim.park(t)
		return
	}
	t.allocs += allocated() - t.allocAt
	t.sim.park(t)
	t.allocAt = allocated()
}

//go:norace
func (s *Sim) park(t *Task) {
	if s.Race {
		s.parkRace(t)
		return
	}
	t.state = stParked
	<-t.wake
}

// Go adds a task; it starts when the scheduler first picks it.
func (s *Sim) Go(name string, fn func()) {
	t := s.newTask(name)
	go func() {
		runtime.SimSetTask(unsafe.Pointer(t))
		if s.Race {
			s.waitRace(t)
		} else {
			s.park(t)
		}
		fn()
		runtime.SimSetTask(nil)
		t.state = stDone
		if s.Race {
			s.exitRace(t)
		}
	}()
}

// InstallHooks connects the seams. Called once per process.
func InstallHooks() {
	sync.SimSetLockHook(lockHook)
	os.SimExit = func(code int) {
		if self() != nil {
			panic(Exit{code})
		}
	}
	sync.SimPool = pools
}

// Hooks returns the functions the instrumented package calls.
func Hooks() (yield func(int32), spawn, exit func()) { return Yield, spawnHook, exitHook }

// Run executes the tasks added by setup until all are done or none can run.
func (s *Sim) Run(setup func()) {
	cur = s
	defer func() { cur = nil }()
	pools.Reset()
	if s.Race {
		s.runRace(setup)
		return
	}
	synctest.SimRun(func() {
		s.start = time.Now()
		setup()
		s.loop()
		s.SimTime = time.Since(s.start)
	})
}

func (s *Sim) loop() {
	last := -1
	for {
		synctest.Wait()
		var ready []*Task
		alive := 0
		for _, t := range s.tasks {
			if t.state != stDone {
				alive++
			}
			if t.state == stParked {
				ready = append(ready, t)
			}
		}
		if alive == 0 {
			break
		}
		if len(ready) == 0 {
			for _, t := range s.tasks {
				if t.state != stDone {
					s.Deadlock = append(s.Deadlock, t.Name)
				}
			}
			sort.Strings(s.Deadlock)
			// release nothing: the caller reports and the process ends
			DeadlockHook(s)
			return
		}
		d := s.decide(ready)
		if d.J > 0 {
			s.Stats.Jumps++
			time.Sleep(time.Duration(d.J))
		}
		t := s.tasks[d.T]
		if d.Q == 0 {
			t.quant = 1 << 60
		} else {
			t.quant = int64(d.Q)
		}
		s.account(t, last)
		last = t.ID
		t.state = stRunning
		t.wake <- struct{}{}
	}
	for _, t := range s.tasks {
		s.Stats.Steps += t.Steps
	}
}

//go:norace
func (s *Sim) account(t *Task, last int) {
	s.Stats.Slices++
	if last != t.ID {
		s.Stats.Switches++
		s.ihash = (s.ihash ^ uint64(uint32(t.site)) ^ uint64(t.ID)<<40) * 0x100000001B3
		s.ihash ^= s.ihash >> 29
	}
}

// Interleaving is a digest of the schedule: the sequence of (task, resume site).
func (s *Sim) Interleaving() uint64 { return s.ihash }

// DeadlockHook is called when no task can run and some are not done.
var DeadlockHook = func(s *Sim) { panic("simulator: deadlock: " + fmt.Sprint(s.Deadlock)) }

//go:norace
func (s *Sim) decide(ready []*Task) Decision {
	k := s.Stats.Slices
	var d Decision
	if s.Replay != nil {
		if k < len(s.Replay) {
			d = s.Replay[k]
			ok := false
			for _, t := range ready {
				if t.ID == d.T {
					ok = true
				}
			}
			if !ok {
				d.T = ready[0].ID
			}
		} else {
			d = Decision{T: ready[0].ID}
		}
	} else {
		t := ready[s.Rng.Intn(len(ready))]
		d.T = t.ID
		if s.Policy.Mean > 0 {
			// roughly geometric
			u := s.Rng.F()
			q := 1
			for u > 0.5 && q < 1<<40 {
				q *= 2
				u = (u - 0.5) * 2
			}
			d.Q = 1 + s.Rng.Intn(s.Policy.Mean)*q
		}
		if s.Policy.ClockJumps && s.Rng.P(0.02) {
			d.J = 1 + s.Rng.Intn(1_000_000_000)*s.Rng.Intn(100)
		}
	}
	s.Record = append(s.Record, d)
	return d
}

// ---- deterministic pools ----

// poolSet is a set of LIFO free lists in fixed arrays: no map, no append, so
// that the race engine can use it without touching instrumented runtime paths.
type poolSet struct {
	keys [16]*sync.Pool
	ln   [16]int
	it   [16][256]any
	n    int
	// DropEvery drops every n-th item, as a garbage collection would.
	DropEvery         int
	Gets, Hits, Drops int
}

var pools = &poolSet{}

// SetPoolDrop makes the pools drop every n-th returned item (0: never).
func SetPoolDrop(n int) { pools.DropEvery = n }

// PoolStats returns gets, hits and drops since the run began.
func PoolStats() (int, int, int) { return pools.Gets, pools.Hits, pools.Drops }

func (p *poolSet) Reset() {
	d := p.DropEvery
	*p = poolSet{DropEvery: d}
}

//go:norace
func (p *poolSet) slot(k *sync.Pool) int {
	for i := range p.keys {
		if p.keys[i] == k {
			return i
		}
		if p.keys[i] == nil {
			p.keys[i] = k
			return i
		}
	}
	return -1
}

// On reports whether the calling goroutine is a simulated task.
//
//go:norace
func (p *poolSet) On() bool { return self() != nil }

//go:norace
func (p *poolSet) Put(k *sync.Pool, x any) {
	p.n++
	if p.DropEvery > 0 && p.n%p.DropEvery == 0 {
		p.Drops++
		return
	}
	i := p.slot(k)
	if i < 0 || p.ln[i] == len(p.it[i]) {
		return
	}
	p.it[i][p.ln[i]] = x
	p.ln[i]++
}

//go:norace
func (p *poolSet) Get(k *sync.Pool) any {
	p.Gets++
	i := p.slot(k)
	if i < 0 || p.ln[i] == 0 {
		return nil
	}
	p.ln[i]--
	x := p.it[i][p.ln[i]]
	p.it[i][p.ln[i]] = nil
	p.Hits++
	return x
}
