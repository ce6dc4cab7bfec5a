package pbt

import (
	"runtime"
	"sync"
	"sync/atomic"
)

// Gate makes goroutines start at the same moment: it opens when all of them
// run, each on a processor of its own, if there are as many.
type Gate struct {
	n      int32
	armed  atomic.Int32 // n, once all of them are known
	ready  atomic.Int32 // how many are waiting, and running
	open   atomic.Bool
	jitter uint32
	wg     sync.WaitGroup
}

// How long a goroutine waits in one go, and how often until it does without
// the others.
const (
	gateSpin  = 3000
	gateTries = 12
)

// NewGate makes a gate. The goroutines start some instructions apart, by
// what jitter says; zero is not at all.
func NewGate(jitter int) *Gate { return &Gate{jitter: uint32(jitter)} }

// Go starts f in a goroutine of its own when the gate opens.
func (g *Gate) Go(f func()) {
	g.n++
	delay := uint32(0)
	if g.jitter != 0 {
		delay = (g.jitter * uint32(g.n) * 2654435761) >> (22 + 2*(g.jitter&3))
	}
	g.wg.Add(1)
	go func() {
		defer g.wg.Done()
		g.wait()
		for range delay {
			g.ready.Load()
		}
		f()
	}()
}

func (g *Gate) wait() {
	for tries := 0; ; {
		g.ready.Add(1)
		for range gateSpin {
			if g.open.Load() {
				return
			}
			if n := g.armed.Load(); n > 0 && g.ready.Load() >= n {
				g.open.Store(true)
			}
		}
		g.ready.Add(-1)
		if g.armed.Load() > 0 {
			if tries++; tries > gateTries {
				g.open.Store(true)
			}
		}
		runtime.Gosched()
	}
}

// Open lets them start.
func (g *Gate) Open() { g.armed.Store(g.n) }

// Wait waits until they have returned.
func (g *Gate) Wait() { g.wg.Wait() }
