package rxp

import (
	"fmt"
	"slices"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// againCase subscribes to one publisher several times, one after the other:
// its source runs once per subscription, with other signals each time.
type againCase struct {
	Rounds []round
	Maps   []mapf
}

type round struct {
	Items  []int // of a flux
	End    sig
	Waits  int  // waiters registered before the subscription
	Later  bool // the source signals only after it was subscribed
	Finals bool // a final callback is there
}

func genAgain(items bool) func(t *rapid.T) againCase {
	return func(t *rapid.T) againCase {
		return againCase{
			Rounds: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) round {
				r := round{End: genSig(t), Waits: rapid.IntRange(0, 2).Draw(t, "waits"), Later: rapid.Bool().Draw(t, "later"), Finals: rapid.Bool().Draw(t, "finals")}
				if items {
					r.Items = rapid.SliceOfN(rapid.IntRange(0, 9), 0, 4).Draw(t, "items")
				}
				return r
			}), 2, 4).Draw(t, "rounds"),
			Maps: genMaps(t),
		}
	}
}

// waiters counts the end notifications of the waiters registered with it.
type waiters struct {
	mu  sync.Mutex
	all []*waiter
}

func (w *waiters) add(notify func(rx.FnFinally)) {
	x := &waiter{}
	w.mu.Lock()
	w.all = append(w.all, x)
	w.mu.Unlock()
	notify(func(s rx.SignalType) {
		w.mu.Lock()
		defer w.mu.Unlock()
		x.n++
		x.sig = s
	})
}

// check wants every waiter told once. Between two subscriptions the outcome
// of the last one is known, so only the waiters of the first one waited.
func (w *waiters) check() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	for i, x := range w.all {
		if x.n != 1 {
			return fmt.Errorf("waiter %d was notified %d times", i, x.n)
		}
	}
	return nil
}

func runMonoAgain(c *pbt.Ctx, ac againCase) error {
	c.NonTrivial()
	return pbt.Bubble(c.T, func() error {
		var sink mono.Sink[int]
		runs := 0
		m := mono.Create(func(s mono.Sink[int]) {
			r := ac.Rounds[min(runs, len(ac.Rounds)-1)]
			runs++
			sink = s
			if !r.Later {
				r.End.send(s)
			}
		})
		for _, f := range ac.Maps {
			m = mono.Map(m, f.tx)
		}
		ws := &waiters{}
		for i, r := range ac.Rounds {
			for range r.Waits {
				ws.add(m.Notify)
			}
			var got []sig
			var finals []rx.SignalType
			sub := mono.Subscribe[int]{
				OnSuccess: func(v int) { got = append(got, sig{V: v}) },
				OnError: func(err error) {
					s, _ := sigOf(0, err)
					got = append(got, s)
				},
			}
			if r.Finals {
				sub.Finally = func(s rx.SignalType) { finals = append(finals, s) }
			}
			m.Subscribe(sub)
			if runs != i+1 {
				return fmt.Errorf("subscription %d: the source ran %d times", i, runs)
			}
			if r.Later {
				r.End.send(sink)
			}
			pbt.Settle()
			want := applyMaps(ac.Maps, r.End)
			if len(got) != 1 || got[0] != want {
				return fmt.Errorf("subscription %d: delivered %v, want %v", i, got, want)
			}
			if r.Finals && (len(finals) != 1 || finals[0] != want.end()) {
				return fmt.Errorf("subscription %d: final callbacks %v after %v", i, finals, want)
			}
			if err := ws.check(); err != nil {
				return fmt.Errorf("subscription %d: %w", i, err)
			}
			v, err := m.Get()
			s, err := sigOf(v, err)
			if err != nil {
				return err
			}
			if s.Err != want.Err || s.V != want.V {
				return fmt.Errorf("subscription %d: polling gave %v, want %v", i, s, want)
			}
		}
		return nil
	})
}

func runFluxAgain(c *pbt.Ctx, ac againCase) error {
	c.NonTrivial()
	return pbt.Bubble(c.T, func() error {
		var sink flux.Sink[int]
		runs := 0
		signal := func(r round, s flux.Sink[int]) {
			for _, v := range r.Items {
				s.Next(v)
			}
			if r.End.Err {
				s.Error(testErr(r.End.V))
			} else {
				s.Complete()
			}
		}
		f := flux.Create(func(s flux.Sink[int]) {
			r := ac.Rounds[min(runs, len(ac.Rounds)-1)]
			runs++
			sink = s
			s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}})
			if !r.Later {
				signal(r, s)
			}
		})
		for _, m := range ac.Maps {
			f = flux.Map(f, m.tx)
		}
		ws := &waiters{}
		for i, r := range ac.Rounds {
			for range r.Waits {
				ws.add(f.Notify)
			}
			var got []int
			var ends []sig
			var finals []rx.SignalType
			sub := flux.Subscribe[int]{
				OnNext:     func(v int) { got = append(got, v) },
				OnComplete: func() { ends = append(ends, sig{}) },
				OnError: func(err error) {
					s, _ := sigOf(0, err)
					ends = append(ends, s)
				},
			}
			if r.Finals {
				sub.Finally = func(s rx.SignalType) { finals = append(finals, s) }
			}
			f.Subscribe(sub)
			if runs != i+1 {
				return fmt.Errorf("subscription %d: the source ran %d times", i, runs)
			}
			if r.Later {
				signal(r, sink)
			}
			pbt.Settle()
			var want []int
			end := sig{}
			if r.End.Err {
				end = r.End
			}
			for _, v := range r.Items {
				s := applyMaps(ac.Maps, sig{V: v})
				if s.Err {
					end = s
					break
				}
				want = append(want, s.V)
			}
			if !slices.Equal(got, want) || len(ends) != 1 || ends[0] != end {
				return fmt.Errorf("subscription %d: delivered %v and %v, want %v and %v", i, got, ends, want, end)
			}
			if r.Finals && (len(finals) != 1 || finals[0] != end.end()) {
				return fmt.Errorf("subscription %d: final callbacks %v after %v", i, finals, end)
			}
			if err := ws.check(); err != nil {
				return fmt.Errorf("subscription %d: %w", i, err)
			}
		}
		return nil
	})
}

// waitCase blocks on a flux whose callbacks take their time, and blocks on it
// again once it has ended.
type waitCase struct {
	Items  []int
	End    sig
	Later  bool
	Maps   []mapf
	Again  bool
	Cancel bool
}

func runWait(c *pbt.Ctx, wc waitCase) error {
	c.NonTrivial()
	return pbt.Bubble(c.T, func() error {
		signal := func(s flux.Sink[int]) {
			for _, v := range wc.Items {
				s.Next(v)
			}
			if wc.Cancel {
				return
			}
			if wc.End.Err {
				s.Error(testErr(wc.End.V))
			} else {
				s.Complete()
			}
		}
		f := flux.Create(func(s flux.Sink[int]) {
			s.OnSubscribe(flux.OnSubscribe{})
			if wc.Later {
				go func() {
					time.Sleep(3 * time.Hour)
					signal(s)
				}()
			} else {
				signal(s)
			}
		})
		for _, m := range wc.Maps {
			f = flux.Map(f, m.tx)
		}
		want, end := 0, sig{}
		if wc.End.Err {
			end = wc.End
		}
		failed := false
		for _, v := range wc.Items {
			s := applyMaps(wc.Maps, sig{V: v})
			if s.Err {
				end, failed = s, true
				break
			}
			want++
		}
		cancelled := wc.Cancel && !failed
		if cancelled {
			end = sig{}
		}
		var mu sync.Mutex
		items, ends, finals := 0, 0, 0
		count := func(n *int) {
			time.Sleep(time.Millisecond)
			mu.Lock()
			defer mu.Unlock()
			*n++
		}
		sub := flux.Subscribe[int]{
			OnNext:     func(int) { count(&items) },
			OnComplete: func() { count(&ends) },
			OnError:    func(error) { count(&ends) },
			Finally:    func(rx.SignalType) { count(&finals) },
		}
		if cancelled {
			go func() {
				time.Sleep(5 * time.Hour)
				f.Subscription().Cancel()
			}()
		}
		s, err := sigOf(0, blockFlux(f, sub))
		if err != nil {
			return err
		}
		mu.Lock()
		defer mu.Unlock()
		over := 1
		if cancelled {
			over = 0
		}
		if items != want || ends != over || finals != 1 {
			return fmt.Errorf("the blocking call returned after %d items, %d ends and %d final callbacks, want %d, %d and 1", items, ends, finals, want, over)
		}
		if s != end {
			return fmt.Errorf("the blocking call returned %v, want %v", s, end)
		}
		if !wc.Again || len(wc.Maps) > 0 {
			return nil
		}
		// The flux has ended: its outcome is known.
		if s, err = sigOf(0, blockFlux(f, flux.Subscribe[int]{})); err != nil {
			return err
		}
		if s != end {
			return fmt.Errorf("blocking on the ended flux returned %v, want %v", s, end)
		}
		return nil
	})
}

func genWait(t *rapid.T) waitCase {
	return waitCase{
		Items:  rapid.SliceOfN(rapid.IntRange(0, 9), 0, 4).Draw(t, "items"),
		End:    genSig(t),
		Later:  rapid.Bool().Draw(t, "later"),
		Maps:   genMaps(t),
		Again:  rapid.Bool().Draw(t, "again"),
		Cancel: rapid.IntRange(0, 3).Draw(t, "cancel") == 3,
	}
}
