package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifsim/world"
)

// outcome is what became of a worker process.
type outcome struct {
	Msgs   []msg
	Kind   string // ok, error, crash, race, stall, memory
	Last   int    // world being run when the process ended
	Stderr string
}

const (
	stallLimit  = 150 * time.Second // a world takes some 50 ms
	memoryLimit = 6 << 30
)

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

// tail keeps the first and the last part of what is written to it.
type tail struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.buf.Len() < 1<<20 {
		t.buf.Write(p)
	}
	return len(p), nil
}

// spawn runs one worker process to its end.
func (c *coord) spawn(bin string, args ...string) *outcome {
	o := &outcome{Last: -1, Kind: "ok"}
	dir := filepath.Join(c.scratch, fmt.Sprintf("p%d", atomic.AddInt64(&c.procs, 1)))
	defer os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	cmd := exec.Command(bin, append([]string{"worker", "-dir", dir}, args...)...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "TMPDIR="+dir, "GODEBUG=")
	errb := &tail{}
	cmd.Stderr = errb
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		fatal("pipe: %v", err)
	}
	if err := cmd.Start(); err != nil {
		fatal("starting a worker: %v", err)
	}
	var last atomic.Int64
	last.Store(time.Now().UnixNano())
	stop := make(chan struct{})
	var killed atomic.Value
	go func() {
		tk := time.NewTicker(200 * time.Millisecond)
		defer tk.Stop()
		for {
			select {
			case <-stop:
				return
			case <-tk.C:
			}
			why := ""
			if time.Since(time.Unix(0, last.Load())) > stallLimit {
				why = "stall"
			} else if rss(cmd.Process.Pid) > memoryLimit {
				why = "memory"
			}
			if why != "" {
				killed.Store(why)
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(3 * time.Second)
				cmd.Process.Kill()
				return
			}
		}
	}()
	sc := bufio.NewScanner(pipe)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	done := false
	for sc.Scan() {
		last.Store(time.Now().UnixNano())
		var m msg
		if json.Unmarshal(sc.Bytes(), &m) != nil {
			continue
		}
		switch m.T {
		case "start":
			o.Last = m.I
			continue
		case "done", "error":
			done = true
		case "world":
			o.Last = -1
		}
		o.Msgs = append(o.Msgs, m)
		if m.T == "error" {
			o.Kind = "error"
		}
	}
	err = cmd.Wait()
	close(stop)
	o.Stderr = errb.buf.String()
	if why, _ := killed.Load().(string); why != "" {
		o.Kind = why
		return o
	}
	if err != nil && o.Kind == "ok" {
		o.Kind = "crash"
		if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 66 {
			o.Kind = "race"
		}
	}
	_ = done
	return o
}

var reFrame = regexp.MustCompile(`(?m)^\s*(github\.com/(?:signintech/gopdf|phpdave11/gofpdi)[^\s]*?)\(`)
var reHead = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|runtime: goroutine stack exceeds.*|unexpected fault.*)$`)

// abnormal turns the end of a process into a violation if the code under test
// has to do with it; nil otherwise.
func (o *outcome) abnormal() *world.Violation {
	v := &world.Violation{Doc: -1, Op: -1}
	frames := reFrame.FindAllStringSubmatch(o.Stderr, -1)
	if len(frames) == 0 {
		return nil
	}
	top := frames[0][1]
	head := strings.TrimSpace(reHead.FindString(o.Stderr))
	switch o.Kind {
	case "race":
		if !strings.Contains(o.Stderr, "DATA RACE") {
			return nil
		}
		v.Class = "race"
		v.Msg = "data race: " + raceSites(o.Stderr)
	case "crash":
		v.Class = "crash"
		v.Msg = fmt.Sprintf("the process died in %s: %s", top, head)
	case "stall":
		v.Class = "hang"
		v.Msg = fmt.Sprintf("no progress for %v, in %s", stallLimit, top)
	case "memory":
		v.Class = "alloc"
		v.Msg = fmt.Sprintf("the process needs more than %d MiB of memory, in %s", memoryLimit>>20, top)
	default:
		return nil
	}
	return v
}

var reAccess = regexp.MustCompile(`(?m)^(Write|Read|Previous write|Previous read|Atomic \w+|Previous atomic \w+) at [^\n]*\n\s+([^\n]*)\n\s+([^\n]*)`)
var rePos = regexp.MustCompile(`([^/\s]+\.go:\d+)`)

// raceSites names the two accesses of a race report.
func raceSites(s string) string {
	var out []string
	for _, part := range regexp.MustCompile(`(?m)^(Write|Read|Previous write|Previous read)[^\n]* at [^\n]*:$`).FindAllStringIndex(s, -1) {
		seg := s[part[0]:]
		if i := strings.Index(seg, "\n\n"); i > 0 {
			seg = seg[:i]
		}
		kind := strings.ToLower(strings.SplitN(seg, " at ", 2)[0])
		fn := "?"
		if f := reFrame.FindStringSubmatch(seg); f != nil {
			fn = f[1]
			if i := strings.Index(seg, f[1]); i >= 0 {
				if p := rePos.FindString(seg[i+len(f[1]):]); p != "" {
					fn += " " + p
				}
			}
		}
		out = append(out, kind+" in "+fn)
		if len(out) == 2 {
			break
		}
	}
	return strings.Join(out, ", ")
}
