package mon

import (
	"runtime/debug"
	"syscall"
)

const page = 4096

// Guarded is memory between two inaccessible pages.
type Guarded struct {
	all  []byte
	data []byte
}

func NewGuarded(size int) *Guarded {
	n := (size + page - 1) / page * page
	if n == 0 {
		n = page
	}
	all, err := syscall.Mmap(-1, 0, n+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("mon: mmap: " + err.Error())
	}
	g := &Guarded{all: all, data: all[page : page+n]}
	if syscall.Mprotect(all[:page], syscall.PROT_NONE) != nil || syscall.Mprotect(all[page+n:], syscall.PROT_NONE) != nil {
		panic("mon: mprotect")
	}
	return g
}

func (g *Guarded) Size() int { return len(g.data) }

// Place copies b to the end of the memory (next to the inaccessible page), or to
// its start, and returns the slice with no spare capacity. ReadOnly afterwards
// makes writes fault as well.
func (g *Guarded) Place(b []byte, atEnd bool) []byte {
	g.Writable()
	var s []byte
	if atEnd {
		off := len(g.data) - len(b)
		s = g.data[off:len(g.data):len(g.data)]
	} else {
		s = g.data[0:len(b):len(b)]
	}
	copy(s, b)
	return s
}

func (g *Guarded) Fill(v byte) {
	g.Writable()
	for i := range g.data {
		g.data[i] = v
	}
}

func (g *Guarded) All() []byte { return g.data }

func (g *Guarded) ReadOnly() { syscall.Mprotect(g.data, syscall.PROT_READ) }
func (g *Guarded) Writable() { syscall.Mprotect(g.data, syscall.PROT_READ|syscall.PROT_WRITE) }
func (g *Guarded) Free()     { syscall.Munmap(g.all) }

// NoAccess makes the memory inaccessible.
func (g *Guarded) NoAccess() { syscall.Mprotect(g.data, syscall.PROT_NONE) }

// FaultsPanic makes memory faults of this goroutine panics, which the case
// runner reports as violations.
func FaultsPanic() { debug.SetPanicOnFault(true) }
