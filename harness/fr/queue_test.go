package fr

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/internal/buffer"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// ---- C15

func runQueue(c *pbt.Ctx, ops []int) error {
	q := buffer.NewUnbounded[int]()
	var slot []int // at most one item that has to be ready
	var backlog []int
	disposed, closed := false, false
	next := 0
	for i, op := range ops {
		at := fmt.Sprintf("step %d of %v", i, ops[:i+1])
		switch op {
		case 0: // put
			ok := q.Put(next)
			if ok == disposed {
				return fmt.Errorf("%s: put answered %v, disposed %v", at, ok, disposed)
			}
			if !disposed {
				if len(slot) == 0 && len(backlog) == 0 {
					slot = append(slot, next)
				} else {
					backlog = append(backlog, next)
				}
			}
			next++
		case 1: // receive without waiting
			select {
			case v, ok := <-q.Get():
				switch {
				case len(slot) > 0:
					if !ok || v != slot[0] {
						return fmt.Errorf("%s: received %d (%v), want %d", at, v, ok, slot[0])
					}
					slot = nil
				case len(backlog) > 0: // it may be ready early
					if !ok || v != backlog[0] {
						return fmt.Errorf("%s: received %d (%v), want %d", at, v, ok, backlog[0])
					}
					backlog = backlog[1:]
				case ok:
					return fmt.Errorf("%s: received %d although there is nothing", at, v)
				case !disposed:
					return fmt.Errorf("%s: the channel is closed", at)
				}
			default:
				if len(slot) > 0 {
					return fmt.Errorf("%s: item %d is not ready", at, slot[0])
				}
				if closed {
					return fmt.Errorf("%s: the channel of an exhausted, disposed queue is still open", at)
				}
			}
		case 2: // load
			q.Load()
			switch {
			case len(backlog) > 0 && len(slot) == 0:
				slot, backlog = backlog[:1:1], backlog[1:]
			case len(backlog) == 0 && disposed:
				closed = true
			}
		case 3:
			c.NonTrivialIf(len(slot)+len(backlog) > 0)
			if len(backlog) > 0 {
				c.Label("disposed with backlog")
			}
			q.Dispose()
			disposed = true
			if len(backlog) == 0 {
				closed = true
			}
		}
	}
	// Drain by the documented protocol: everything accepted must still come out.
	rest := append(append([]int{}, slot...), backlog...)
	for _, want := range rest {
		select {
		case v, ok := <-q.Get():
			if !ok || v != want {
				return fmt.Errorf("draining after %v: received %d (%v), want %d", ops, v, ok, want)
			}
		default:
			if len(slot) == 0 {
				// The item still has to be loaded.
				q.Load()
				select {
				case v, ok := <-q.Get():
					if !ok || v != want {
						return fmt.Errorf("draining after %v: received %d (%v), want %d", ops, v, ok, want)
					}
				default:
					return fmt.Errorf("draining after %v: item %d is never delivered", ops, want)
				}
				break
			}
			return fmt.Errorf("draining after %v: item %d is not ready", ops, want)
		}
		slot = nil
		q.Load()
	}
	if disposed {
		q.Load()
		select {
		case v, ok := <-q.Get():
			if ok {
				return fmt.Errorf("after %v: extra item %d", ops, v)
			}
		default:
			return fmt.Errorf("after %v: the channel of the disposed queue is not closed", ops)
		}
	}
	return nil
}

type queueConc struct {
	Prod      []int // items per producer
	Consumers int
	DisposeAt int // percent of all items put when the queue is disposed; >100: after all
	Yield     int
}

func runQueueConc(c *pbt.Ctx, qc queueConc) error {
	c.NonTrivialIf(len(qc.Prod) > 1 || qc.DisposeAt <= 100)
	for round := 0; round < 3; round++ {
		q := buffer.NewUnbounded[[2]int]()
		total := 0
		for _, n := range qc.Prod {
			total += n
		}
		trigger := make(chan struct{})
		var once sync.Once
		var put atomic.Int64
		gate := pbt.NewGate(total)
		var cg sync.WaitGroup
		accepted := make([]int, len(qc.Prod))
		errs := make(chan error, len(qc.Prod)+qc.Consumers)
		for p, n := range qc.Prod {
			gate.Go(func() {
				refused := false
				for i := 0; i < n; i++ {
					if q.Put([2]int{p, i}) {
						accepted[p] = i + 1
						if refused {
							errs <- fmt.Errorf("a put was accepted after one was refused")
							return
						}
					} else {
						refused = true
					}
					if int(put.Add(1))*100 >= total*qc.DisposeAt {
						once.Do(func() { close(trigger) })
					}
					if qc.Yield > 0 && i%qc.Yield == 0 {
						runtime.Gosched()
					}
				}
			})
		}
		got := make([][][2]int, qc.Consumers)
		for k := 0; k < qc.Consumers; k++ {
			cg.Add(1)
			go func() {
				defer cg.Done()
				for v := range q.Get() {
					got[k] = append(got[k], v)
					q.Load()
				}
			}()
		}
		gate.Open()
		go func() { gate.Wait(); once.Do(func() { close(trigger) }) }()
		<-trigger
		q.Dispose()
		if q.Put([2]int{-1, 0}) {
			return fmt.Errorf("put accepted after dispose")
		}
		gate.Wait()
		cg.Wait()
		select {
		case err := <-errs:
			return err
		default:
		}
		n := 0
		seen := map[[2]int]bool{}
		for k := range got {
			last := map[int]int{}
			for _, v := range got[k] {
				if seen[v] {
					return fmt.Errorf("item %v delivered twice", v)
				}
				seen[v] = true
				n++
				if qc.Consumers == 1 {
					if l, ok := last[v[0]]; ok && l >= v[1] || !ok && v[1] != 0 || ok && v[1] != l+1 {
						return fmt.Errorf("producer %d: item %d follows %d", v[0], v[1], l)
					}
					last[v[0]] = v[1]
				}
			}
		}
		want := 0
		for _, a := range accepted {
			want += a
		}
		if n != want {
			return fmt.Errorf("%d items accepted, %d delivered", want, n)
		}
	}
	return nil
}

// runBursts puts and receives in bursts; -n receives n items.
func runBursts(c *pbt.Ctx, bursts []int) error {
	q := buffer.NewUnbounded[int]()
	put, got := 0, 0
	receive := func() error {
		select {
		case v, ok := <-q.Get():
			if !ok || v != got {
				return fmt.Errorf("received %d (%v), want %d of %d", v, ok, got, put)
			}
			got++
			q.Load()
			return nil
		default:
			return fmt.Errorf("item %d of %d is not ready", got, put)
		}
	}
	for _, n := range bursts {
		for ; n > 0; n-- {
			if !q.Put(put) {
				return fmt.Errorf("item %d is refused", put)
			}
			put++
		}
		c.NonTrivialIf(put-got > 1000)
		for ; n < 0 && got < put; n++ {
			if err := receive(); err != nil {
				return err
			}
		}
	}
	q.Dispose()
	for got < put {
		if err := receive(); err != nil {
			return fmt.Errorf("disposed: %w", err)
		}
	}
	if v, ok := <-q.Get(); ok {
		return fmt.Errorf("extra item %d", v)
	}
	return nil
}

func TestC15(t *testing.T) {
	pbt.Check(t, "C15",
		pbt.NewPart("bursts", 60, 600, "more than 1000 items are queued", func(t *rapid.T) []int {
			var bursts []int
			for i, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); i < n; i++ {
				b := rapid.SampledFrom([]int{3, 30, 300, 3000, 30000, 100000}).Draw(t, "scale")
				bursts = append(bursts, rapid.IntRange(b/3, b).Draw(t, "burst")*rapid.SampledFrom([]int{1, -1}).Draw(t, "sign"))
			}
			return bursts
		}, runBursts),
		pbt.NewPart("history", 15000, 150000, "disposed while items are queued", func(t *rapid.T) []int {
			return rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 0, 1, 2, 0, 3}), 1, 30).Draw(t, "ops")
		}, runQueue),
		pbt.NewPart("concurrent", 400, 4000, "several producers, or disposed while producing", func(t *rapid.T) queueConc {
			return queueConc{rapid.SliceOfN(rapid.IntRange(0, 400), 1, 5).Draw(t, "prod"), rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "c"),
				rapid.SampledFrom([]int{200, 0, 50, 90, 200}).Draw(t, "d"), rapid.SampledFrom([]int{0, 1, 7}).Draw(t, "y")}
		}, runQueueConc),
	)
}
