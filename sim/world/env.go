package world

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"

	"verifsim/imgx"
	"verifsim/simrt"
	"verifsim/ttfx"
)

// Counters count what a run injected and reached.
type Counters map[string]int64

// Add adds another set.
func (c Counters) Add(o Counters) {
	for k, v := range o {
		c[k] += v
	}
}

// I/O seam numbers (they only label scheduling points).
const (
	seamRead = iota + 1
	seamWrite
	seamDisk
	seamOp
)

var errBoom = errors.New("simulated I/O error")

// ErrKinds are the errors the environment reports: whatever the kind is, it is
// a failure (only io.EOF itself ends a source).
var ErrKinds = []string{"", "", "", "unexpected", "wrapped", "patherr", "closedpipe", "timeout", "canceled", "noprogress", "shortbuf", "shortwrite", "intr", "wrappedeof", "nomem"}

func ioErr(kind string) error {
	switch kind {
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "wrapped":
		return fmt.Errorf("transport: %w", io.ErrUnexpectedEOF)
	case "wrappedeof":
		return fmt.Errorf("connection lost: %w", io.EOF)
	case "patherr":
		return &os.PathError{Op: "transfer", Path: "/simulated", Err: syscall.EIO}
	case "closedpipe":
		return io.ErrClosedPipe
	case "timeout":
		return os.ErrDeadlineExceeded
	case "canceled":
		return context.Canceled
	case "noprogress":
		return io.ErrNoProgress
	case "shortbuf":
		return io.ErrShortBuffer
	case "shortwrite":
		return io.ErrShortWrite
	case "intr":
		return syscall.EINTR
	case "nomem":
		return syscall.ENOMEM
	}
	return errBoom
}

// simReader is a source with a plan.
type simReader struct {
	b     []byte
	off   int
	p     SrcPlan
	r     *simrt.Rand
	Fired bool
	fin   bool
	cnt   Counters
}

func newReader(b []byte, p *SrcPlan, cnt Counters) *simReader {
	if p == nil {
		p = &SrcPlan{Mode: "whole"}
	}
	return &simReader{b: b, p: *p, r: simrt.NewRand(p.Seed), cnt: cnt}
}

func (s *simReader) Read(p []byte) (int, error) {
	simrt.Seam(seamRead)
	if len(p) == 0 {
		return 0, nil
	}
	end := len(s.b)
	fail := false
	if s.p.ErrAt > 0 && (!s.Fired || s.p.Sticky) {
		e := s.p.ErrAt - 1
		if e <= end {
			end, fail = e, true
		}
	}
	if s.off >= end {
		if fail {
			s.Fired = true
			s.cnt["src_error"]++
			return 0, ioErr(s.p.Err)
		}
		return 0, io.EOF
	}
	n := end - s.off
	switch s.p.Mode {
	case "one":
		n = 1
	case "chunk", "eofdata", "zero":
		if s.p.Mode == "zero" && s.r.P(0.2) {
			s.cnt["src_zero_read"]++
			return 0, nil
		}
		m := 1 + s.r.Intn(64)
		if s.r.P(0.3) {
			m = 1 + s.r.Intn(2000)
		}
		if n > m {
			n = m
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n < len(p) && s.off+n < len(s.b) {
		s.cnt["src_short_read"]++
	}
	copy(p, s.b[s.off:s.off+n])
	s.off += n
	if s.off == end && (s.p.Mode == "eofdata" || s.p.ErrAll && fail) {
		if fail {
			s.Fired = true
			s.cnt["src_error_with_data"]++
			return n, ioErr(s.p.Err)
		}
		s.cnt["src_eof_with_data"]++
		return n, io.EOF
	}
	return n, nil
}

// simSink is a writer with a plan. It records what it accepted.
type simSink struct {
	p   SinkPlan
	got bytes.Buffer

	Fired bool
	calls int
	cnt   Counters
}

func (s *simSink) Write(p []byte) (int, error) {
	simrt.Seam(seamWrite)
	s.calls++
	if s.Fired && !s.p.Once {
		return 0, ioErr(s.p.Err)
	}
	if s.p.FailAt > 0 && !s.Fired && s.got.Len()+len(p) >= s.p.FailAt {
		s.Fired = true
		n := 0
		if s.p.Short {
			n = s.p.FailAt - 1 - s.got.Len()
			if n < 0 {
				n = 0
			}
		}
		if s.p.Lie {
			n = len(p)
		}
		s.got.Write(p[:n])
		switch {
		case s.p.Lie:
			s.cnt["sink_error_full_count"]++
		case s.p.Once:
			s.cnt["sink_error_once"]++
		default:
			s.cnt["sink_error_permanent"]++
		}
		if s.p.Short {
			s.cnt["sink_short_write"]++
		}
		return n, ioErr(s.p.Err)
	}
	s.got.Write(p)
	return len(p), nil
}

// disk is the simulated file system policy for paths under its directory.
type disk struct {
	mu    sync.Mutex
	dir   string
	plans map[string]*diskState
	cnt   Counters
}

type diskState struct {
	DiskPlan
	off   int
	fired bool
}

func (d *disk) Mine(name string) bool {
	return strings.HasPrefix(name, d.dir) && simrt.Self() != nil
}

func (d *disk) st(name string) *diskState {
	// temporary files next to the target share its plan
	d.mu.Lock()
	defer d.mu.Unlock()
	if s := d.plans[name]; s != nil {
		return s
	}
	dir := filepath.Dir(name)
	var keys []string
	for k := range d.plans {
		if filepath.Dir(k) == dir {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if strings.HasPrefix(k, filepath.Join(dir, "task-")) {
			return d.plans[k]
		}
	}
	return nil
}

func (d *disk) set(name string, p *DiskPlan) *diskState {
	d.mu.Lock()
	defer d.mu.Unlock()
	if p == nil {
		delete(d.plans, name)
		return nil
	}
	s := &diskState{DiskPlan: *p}
	d.plans[name] = s
	return s
}

func (d *disk) Read(name string, n int) (int, error) {
	simrt.Seam(seamDisk)
	s := d.st(name)
	if s == nil {
		return n, nil
	}
	k := n
	if s.Chunk > 0 && k > s.Chunk {
		k = s.Chunk
		d.cnt["disk_short_read"]++
	}
	if s.FailAt > 0 {
		if s.off >= s.FailAt-1 {
			s.fired = true
			d.cnt["disk_read_error"]++
			return 0, &os.PathError{Op: "read", Path: name, Err: errno(s.Err, syscall.EIO)}
		}
		if s.off+k > s.FailAt-1 {
			k = s.FailAt - 1 - s.off
		}
	}
	s.off += k
	return k, nil
}

func (d *disk) Write(name string, n int) (int, error) {
	simrt.Seam(seamDisk)
	s := d.st(name)
	if s == nil {
		return n, nil
	}
	if s.FailAt > 0 && s.off+n >= s.FailAt {
		k := 0
		if s.Short {
			k = s.FailAt - 1 - s.off
			if k < 0 {
				k = 0
			}
			d.cnt["disk_torn_write"]++
		}
		s.off += k
		s.fired = true
		d.cnt["disk_full"]++
		return k, &os.PathError{Op: "write", Path: name, Err: errno(s.Err, syscall.ENOSPC)}
	}
	s.off += n
	return n, nil
}

func (d *disk) Close(name string) error {
	simrt.Seam(seamDisk)
	s := d.st(name)
	if s != nil && s.DiskPlan.Close && !s.fired {
		s.fired = true
		d.cnt["disk_close_error"]++
		return &os.PathError{Op: "close", Path: name, Err: errno(s.Err, syscall.EIO)}
	}
	return nil
}

func (d *disk) Op(op, name string) error {
	simrt.Seam(seamDisk)
	s := d.st(name)
	if s == nil {
		return nil
	}
	if (op == "open" || op == "create") && s.Open {
		s.fired = true
		d.cnt["disk_open_error"]++
		return errno(s.Err, syscall.EACCES)
	}
	return nil
}

// errno is the system error of a disk fault.
func errno(kind string, def syscall.Errno) error {
	switch kind {
	case "quota":
		return syscall.EDQUOT
	case "noent":
		return syscall.ENOENT
	case "stale":
		return syscall.ESTALE
	case "rofs":
		return syscall.EROFS
	case "mfile":
		return syscall.EMFILE
	}
	return def
}

// Env is the shared part of a world.
type Env struct {
	W     *World
	Dir   string
	FontB [][]byte
	Fonts []*ttfx.Font
	ImgB  [][]byte
	ImgK  []string // which data are the same
	ImgE  []imgx.Expect
	PDFs  []*SrcPDF
	Cnt   Counters
	Disk  *disk
	clock int64
	mem   []canary
}

// Now is the logical clock of the run (one tick per harness step).
//
//go:norace
func (e *Env) Now() int64 { e.clock++; return e.clock }

type canary struct {
	what string
	b    []byte
	sum  [32]byte
	live bool
}

// guard remembers a block of memory gopdf must not write.
func (e *Env) guard(what string, b []byte) {
	e.mem = append(e.mem, canary{what: what, b: b, sum: sha256.Sum256(b), live: true})
}

func (e *Env) checkMem() []Violation {
	var v []Violation
	for _, c := range e.mem {
		if sha256.Sum256(c.b) != c.sum {
			v = append(v, Violation{Class: "memory", Doc: -1, Op: -1, Msg: c.what + " was overwritten"})
		}
	}
	return v
}

// NewEnv builds the inputs of a world.
func NewEnv(w *World, dir string) (*Env, error) {
	e := &Env{W: w, Dir: dir, Cnt: Counters{}}
	e.Disk = &disk{dir: dir, plans: map[string]*diskState{}, cnt: e.Cnt}
	for i, s := range w.Fonts {
		b := ttfx.Build(s)
		f, err := ttfx.Read(b)
		if err != nil {
			return nil, fmt.Errorf("font %d: %v", i, err)
		}
		e.FontB = append(e.FontB, b)
		e.Fonts = append(e.Fonts, f)
		e.guard(fmt.Sprintf("font data %d", i), b)
	}
	for i, s := range w.Images {
		b := imgx.Build(s)
		x, err := imgx.ExpectOf(b)
		if err != nil {
			return nil, fmt.Errorf("image %d: %v", i, err)
		}
		e.ImgB = append(e.ImgB, b)
		e.ImgK = append(e.ImgK, fmt.Sprintf("%x", sha256.Sum256(b)))
		e.ImgE = append(e.ImgE, x)
		e.guard(fmt.Sprintf("image data %d", i), b)
	}
	for i := range w.PDFs {
		p, err := BuildPDF(&w.PDFs[i])
		if err != nil {
			return nil, fmt.Errorf("source PDF %d: %v", i, err)
		}
		e.PDFs = append(e.PDFs, p)
		e.guard(fmt.Sprintf("source PDF %d", i), p.B)
	}
	return e, nil
}

func (e *Env) writeInput(kind string, i int, b []byte) string {
	p := filepath.Join(e.Dir, "in", fmt.Sprintf("%s%d", kind, i))
	if _, err := os.Stat(p); err != nil {
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, b, 0644); err != nil {
			panic("simulator: " + err.Error())
		}
	}
	return p
}
