package simrt

import (
	"syscall"
	"unsafe"
)

// The race engine hands the single execution token from thread to thread
// through raw system calls that carry no happens-before edge for the race
// detector. Execution is still one task at a time in the order the seeded
// scheduler decides, but two accesses that only the simulator's token ordered
// are reported as a data race: the detector judges the program's own
// synchronisation, on a schedule the simulator controls.

func mkpipe() [2]int {
	var p [2]int
	if err := syscall.Pipe(p[:]); err != nil {
		panic(err)
	}
	return p
}

//go:norace
func rawRead(fd int) byte {
	var b [1]byte
	for {
		n, _, e := syscall.Syscall(syscall.SYS_READ, uintptr(fd), uintptr(unsafe.Pointer(&b[0])), 1)
		if e == syscall.EINTR || e == syscall.EAGAIN {
			continue
		}
		if n != 1 {
			panic("simulator: token read")
		}
		return b[0]
	}
}

//go:norace
func rawWrite(fd int, v byte) {
	b := [1]byte{v}
	for {
		n, _, e := syscall.Syscall(syscall.SYS_WRITE, uintptr(fd), uintptr(unsafe.Pointer(&b[0])), 1)
		if e == syscall.EINTR || e == syscall.EAGAIN {
			continue
		}
		if n != 1 {
			panic("simulator: token write")
		}
		return
	}
}

//go:norace
func (s *Sim) waitRace(t *Task) {
	rawRead(t.fd[0])
	t.state = stRunning
}

//go:norace
func (s *Sim) parkRace(t *Task) {
	t.state = stParked
	rawWrite(s.schedFd[1], 0)
	rawRead(t.fd[0])
	t.state = stRunning
}

//go:norace
func (s *Sim) exitRace(t *Task) {
	s.done <- t // the only synchronising edge: end of a task
	rawWrite(s.schedFd[1], 1)
}

//go:norace
func (s *Sim) runRace(setup func()) {
	s.schedFd = mkpipe()
	s.done = make(chan *Task, 64)
	setup()
	n := len(s.tasks)
	for _, t := range s.tasks {
		t.state = stParked
	}
	finished := make([]bool, n)
	left := n
	last := -1
	for left > 0 {
		var ready []*Task
		for i, t := range s.tasks {
			if !finished[i] {
				ready = append(ready, t)
			}
		}
		d := s.decide(ready)
		t := s.tasks[d.T]
		if d.Q == 0 {
			t.quant = 1 << 60
		} else {
			t.quant = int64(d.Q)
		}
		s.account(t, last)
		last = t.ID
		rawWrite(t.fd[1], 0)
		if rawRead(s.schedFd[0]) == 1 {
			finished[t.ID] = true
			left--
		}
	}
	for i := 0; i < n; i++ {
		<-s.done
	}
	for _, t := range s.tasks {
		s.Stats.Steps += t.Steps
		syscall.Close(t.fd[0])
		syscall.Close(t.fd[1])
	}
	syscall.Close(s.schedFd[0])
	syscall.Close(s.schedFd[1])
}
