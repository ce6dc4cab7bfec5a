package rxp

import (
	"fmt"
	"sync"
	"sync/atomic"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// A meeting is two or three calls of one object that happen at the same moment,
// many times over.

// monoMeet has a mono started and told its end.
type monoMeet struct {
	Proc     bool
	Before   bool  // it is started before
	Starts   []int // 0 Async, 1 Async and Notify, 2 Subscribe (once, and first)
	Sigs     []sig // at the same moment, unless it has to be started first
	Reps     int
	Waitings int
}

func runMonoMeet(c *pbt.Ctx, mc monoMeet) error {
	c.NonTrivialIf(len(mc.Starts)+len(mc.Sigs) > 1)
	if c.Replay {
		mc.Reps *= 25
	}
	for rep := range mc.Reps {
		if err := mc.meet(rep); err != nil {
			return fmt.Errorf("repetition %d: %w", rep, err)
		}
	}
	return nil
}

func (mc monoMeet) meet(rep int) error {
	var runs atomic.Int32
	var mu sync.Mutex
	var sink mono.Sink[int]
	var m mono.Mono[int]
	if mc.Proc {
		p := mono.NewProcessor[int]()
		m, sink = p, p
	} else {
		m = mono.Create(func(s mono.Sink[int]) {
			runs.Add(1)
			mu.Lock()
			defer mu.Unlock()
			sink = s
		})
	}
	var got []sig
	var ends, told []rx.SignalType
	notify := func() {
		m.Notify(func(s rx.SignalType) {
			mu.Lock()
			defer mu.Unlock()
			told = append(told, s)
		})
	}
	gate := pbt.NewGate(rep)
	want := mc.Waitings
	run := gate.Go
	if mc.Before {
		run = func(f func()) { f() }
	}
	for _, k := range mc.Starts {
		switch k {
		case 0:
			run(m.Async)
		case 1:
			want++
			run(func() {
				m.Async()
				notify()
			})
		case 2:
			run(func() {
				m.Subscribe(mono.Subscribe[int]{
					OnSuccess: func(v int) { mu.Lock(); got = append(got, sig{V: v}); mu.Unlock() },
					OnError: func(err error) {
						s, _ := sigOf(0, err)
						mu.Lock()
						got = append(got, s)
						mu.Unlock()
					},
					Finally: func(s rx.SignalType) { mu.Lock(); ends = append(ends, s); mu.Unlock() },
				})
			})
		}
	}
	for range mc.Waitings {
		gate.Go(notify)
	}
	now := mc.Proc || mc.Before
	if now {
		for _, s := range mc.Sigs {
			gate.Go(func() { s.send(sink) })
		}
	}
	gate.Open()
	gate.Wait()
	if n := runs.Load(); n != 1 && !mc.Proc {
		return fmt.Errorf("the source ran %d times", n)
	}
	if !now {
		for _, s := range mc.Sigs {
			s.send(sink)
		}
	}
	v, err := m.Get()
	s, err := sigOf(v, err)
	if err != nil {
		return fmt.Errorf("it was told its end, and %w", err)
	}
	ok := s == mc.Sigs[0]
	for _, x := range mc.Sigs[1:] {
		ok = ok || now && s == x
	}
	if !ok {
		return fmt.Errorf("told %v it has ended with %v", mc.Sigs, s)
	}
	mu.Lock()
	defer mu.Unlock()
	if len(told) != want {
		return fmt.Errorf("%d of %d that wait were notified", len(told), want)
	}
	for _, x := range told {
		if x != s.end() {
			return fmt.Errorf("it has ended with %v, one that waits was told %v", s, x)
		}
	}
	if mc.Starts[0] == 2 && (len(got) != 1 || got[0] != s || len(ends) != 1 || ends[0] != s.end()) {
		return fmt.Errorf("it has ended with %v, its subscriber was told %v, %v", s, got, ends)
	}
	return nil
}

func genMonoMeet(t *rapid.T) monoMeet {
	mc := monoMeet{
		Proc:     rapid.Bool().Draw(t, "proc"),
		Starts:   []int{rapid.IntRange(0, 2).Draw(t, "start")},
		Sigs:     rapid.SliceOfN(rapid.Custom(genSig), 1, 2).Draw(t, "sigs"),
		Waitings: rapid.IntRange(0, 1).Draw(t, "waiting"),
		Before:   rapid.Bool().Draw(t, "before"),
		Reps:     400,
	}
	if mc.Starts[0] != 2 {
		mc.Starts = append(mc.Starts, rapid.SliceOfN(rapid.IntRange(0, 1), 0, 2).Draw(t, "more")...)
	}
	return mc
}

// fluxMeet has a processor subscribed to while its source introduces itself.
type fluxMeet struct {
	Asks   []int // of the subscriber, 0 cancels
	Apart  bool  // the subscriber's, at the same moment too
	Items  int   // that the source delivers on being asked, and completes
	Reps   int
	Notify bool
}

func runFluxMeet(c *pbt.Ctx, mc fluxMeet) error {
	c.NonTrivialIf(len(mc.Asks) > 0)
	if c.Replay {
		mc.Reps *= 25
	}
	return pbt.Bubble(c.T, func() error {
		for rep := range mc.Reps {
			if err := mc.meet(rep); err != nil {
				return fmt.Errorf("repetition %d: %w", rep, err)
			}
		}
		return nil
	})
}

func (mc fluxMeet) meet(rep int) error {
	p := flux.NewProcessor[int]()
	var mu sync.Mutex
	asked, cancels, next := 0, 0, 0
	var got []int
	var told []rx.SignalType
	var ends []rx.SignalType
	completes, errs := 0, 0
	locked := func(f func()) { mu.Lock(); defer mu.Unlock(); f() }
	gate := pbt.NewGate(rep)
	act := func(n int) {
		if n == 0 {
			p.Subscription().Cancel()
		} else {
			p.Subscription().Request(n)
		}
	}
	subscribe := func() {
		p.Subscribe(flux.Subscribe[int]{
			OnNext:     func(v int) { locked(func() { got = append(got, v) }) },
			OnComplete: func() { locked(func() { completes++ }) },
			OnError:    func(error) { locked(func() { errs++ }) },
			Finally:    func(s rx.SignalType) { locked(func() { ends = append(ends, s) }) },
			NoRequest:  true,
		})
	}
	introduce := func() {
		p.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				locked(func() { asked += n })
				if mc.Apart {
					return
				}
				for range n {
					k := 0
					locked(func() { k = next; next++ })
					if k < mc.Items {
						p.Next(k)
					} else if k == mc.Items {
						p.Complete()
					}
				}
			},
			Cancel: func() { locked(func() { cancels++ }) },
		})
	}
	want, dropped := 0, false
	if mc.Apart {
		subscribe()
		for _, n := range mc.Asks {
			gate.Go(func() { act(n) })
		}
	} else {
		gate.Go(func() {
			subscribe()
			for _, n := range mc.Asks {
				act(n)
			}
		})
	}
	for _, n := range mc.Asks {
		want += n
		dropped = dropped || n == 0
		if dropped && !mc.Apart {
			break
		}
	}
	if mc.Notify {
		gate.Go(func() { p.Notify(func(s rx.SignalType) { locked(func() { told = append(told, s) }) }) })
	}
	gate.Go(introduce)
	gate.Open()
	gate.Wait()
	pbt.Settle() // items are asked for in the background
	mu.Lock()
	defer mu.Unlock()
	over := !mc.Apart && want > mc.Items
	switch {
	case asked > want, asked < want && !dropped && !over, asked < mc.Items && over && !dropped:
		return fmt.Errorf("the subscriber asked for %d items, the source was asked for %d", want, asked)
	case len(ends) > 1, completes > 1, errs > 0:
		return fmt.Errorf("it has ended with %v, %d completions and %d errors", ends, completes, errs)
	case dropped && len(ends) != 1, !dropped && over != (len(ends) == 1):
		return fmt.Errorf("it has ended with %v", ends)
	case len(ends) == 1 && (ends[0] == rx.SignalCancel) == (completes == 1), len(ends) == 0 && completes > 0:
		return fmt.Errorf("it has ended with %v, and %d completions", ends, completes)
	case len(ends) == 1 && ends[0] == rx.SignalCancel && cancels != 1, (len(ends) == 0 || ends[0] != rx.SignalCancel) && cancels != 0:
		return fmt.Errorf("it has ended with %v, the source was cancelled %d times", ends, cancels)
	case mc.Notify && len(told) != len(ends), len(told) == 1 && told[0] != ends[0]:
		return fmt.Errorf("it has ended with %v, one that waits was told %v", ends, told)
	}
	for i, v := range got {
		if v != i {
			return fmt.Errorf("delivered %v", got)
		}
	}
	if !mc.Apart && !dropped && len(got) != min(want, mc.Items) {
		return fmt.Errorf("asked for %d, delivered %v", want, got)
	}
	return nil
}

func genFluxMeet(t *rapid.T) fluxMeet {
	mc := fluxMeet{
		Apart:  rapid.Bool().Draw(t, "apart"),
		Asks:   rapid.SliceOfN(rapid.IntRange(0, 3), 0, 2).Draw(t, "asks"),
		Items:  rapid.IntRange(0, 4).Draw(t, "items"),
		Notify: rapid.Bool().Draw(t, "notify"),
		Reps:   400,
	}
	return mc
}

// fluxEnd has one that is subscribed to end in several ways.
type fluxEnd struct {
	End     int // 0 complete, 1 fail
	Items   int
	Cancel  bool
	Again   bool // it is ended by two
	Waiters int
	Reps    int
}

func runFluxEnd(c *pbt.Ctx, mc fluxEnd) error {
	c.NonTrivialIf(mc.Cancel || mc.Again || mc.Waiters > 0)
	if c.Replay {
		mc.Reps *= 25
	}
	return pbt.Bubble(c.T, func() error {
		for rep := range mc.Reps {
			if err := mc.meet(rep); err != nil {
				return fmt.Errorf("repetition %d: %w", rep, err)
			}
		}
		return nil
	})
}

func (mc fluxEnd) meet(rep int) error {
	var sink flux.Sink[int]
	var mu sync.Mutex
	locked := func(f func()) { mu.Lock(); defer mu.Unlock(); f() }
	cancels, items, late := 0, 0, 0
	var ends []string
	var finals, told []rx.SignalType
	f := flux.Create(func(s flux.Sink[int]) {
		sink = s
		s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() { locked(func() { cancels++ }) }})
	})
	f.Subscribe(flux.Subscribe[int]{
		OnNext: func(int) {
			locked(func() {
				items++
				if len(ends) > 0 {
					late++
				}
			})
		},
		OnComplete: func() { locked(func() { ends = append(ends, "complete") }) },
		OnError:    func(err error) { locked(func() { ends = append(ends, err.Error()) }) },
		Finally:    func(s rx.SignalType) { locked(func() { finals = append(finals, s) }) },
	})
	gate := pbt.NewGate(rep)
	end := func() {
		if mc.End == 0 {
			sink.Complete()
		} else {
			sink.Error(testErr(5))
		}
	}
	gate.Go(func() {
		for k := range mc.Items {
			sink.Next(k)
		}
		end()
	})
	if mc.Again {
		gate.Go(end)
	}
	if mc.Cancel {
		gate.Go(func() { f.Subscription().Cancel() })
	}
	for range mc.Waiters {
		gate.Go(func() { f.Notify(func(s rx.SignalType) { locked(func() { told = append(told, s) }) }) })
	}
	gate.Open()
	gate.Wait()
	pbt.Settle()
	mu.Lock()
	defer mu.Unlock()
	wantEnd, wantSignal := "complete", rx.SignalComplete
	if mc.End == 1 {
		wantEnd, wantSignal = testErr(5).Error(), rx.SignalError
	}
	if len(finals) != 1 {
		return fmt.Errorf("the final callbacks said %v", finals)
	}
	cancelled := finals[0] == rx.SignalCancel
	switch {
	case cancelled && (!mc.Cancel || len(ends) > 0 || cancels != 1),
		!cancelled && (finals[0] != wantSignal || len(ends) != 1 || ends[0] != wantEnd || cancels != 0):
		return fmt.Errorf("ended with %q, the final callback said %v, the source was cancelled %d times", ends, finals, cancels)
	case items > mc.Items, late > 0 && !mc.Again, !cancelled && !mc.Again && items != mc.Items:
		return fmt.Errorf("%d of %d items were delivered, %d of them late", items, mc.Items, late)
	case len(told) != mc.Waiters:
		return fmt.Errorf("%d of %d that wait were notified", len(told), mc.Waiters)
	}
	for _, s := range told {
		if s != finals[0] {
			return fmt.Errorf("one that waits was told %v, the final callback said %v", s, finals[0])
		}
	}
	return nil
}

func genFluxEnd(t *rapid.T) fluxEnd {
	return fluxEnd{
		End:     rapid.IntRange(0, 1).Draw(t, "end"),
		Items:   rapid.IntRange(0, 2).Draw(t, "items"),
		Cancel:  rapid.Bool().Draw(t, "cancel"),
		Again:   rapid.Bool().Draw(t, "again"),
		Waiters: rapid.IntRange(0, 2).Draw(t, "waiters"),
		Reps:    400,
	}
}
