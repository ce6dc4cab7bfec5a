// Package rxp checks the reactive types: mono, flux, flow and the payload
// transforms (C20 to C23).
package rxp

import (
	"errors"
	"fmt"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// sig is a terminal signal: a value, or an error when Err.
type sig struct {
	Err bool `json:",omitempty"`
	V   int
}

type testErr int

func (e testErr) Error() string { return fmt.Sprintf("error %d", int(e)) }

func (s sig) String() string {
	if s.Err {
		return fmt.Sprintf("error %d", s.V)
	}
	return fmt.Sprintf("value %d", s.V)
}

func (s sig) send(k mono.Sink[int]) {
	if s.Err {
		k.Error(testErr(s.V))
	} else {
		k.Success(s.V)
	}
}

func genSig(t *rapid.T) sig {
	return sig{rapid.Bool().Draw(t, "err"), rapid.IntRange(0, 9).Draw(t, "v")}
}

// mapf maps v to 10*v+K, or fails when v%10 == FailOn.
type mapf struct{ K, FailOn int }

func (m mapf) tx(v int) (int, error) {
	if v%10 == m.FailOn {
		return 0, testErr(100 + m.K)
	}
	return 10*v + m.K, nil
}

func genMaps(t *rapid.T) []mapf {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) mapf {
		return mapf{rapid.IntRange(1, 9).Draw(t, "k"), rapid.IntRange(0, 25).Draw(t, "fail")}
	}), 0, 3).Draw(t, "maps")
}

func applyMaps(maps []mapf, s sig) sig {
	for _, m := range maps {
		if s.Err {
			break
		}
		v, err := m.tx(s.V)
		if err != nil {
			s = sig{true, int(err.(testErr))}
		} else {
			s.V = v
		}
	}
	return s
}

func sigOf(v int, err error) (sig, error) {
	if err != nil {
		var te testErr
		if !errors.As(err, &te) {
			return sig{}, fmt.Errorf("unexpected error %v", err)
		}
		return sig{true, int(te)}, nil
	}
	return sig{false, v}, nil
}

// wantSignal is the end notification that matches an outcome.
func (s sig) end() rx.SignalType {
	if s.Err {
		return rx.SignalError
	}
	return rx.SignalComplete
}

const (
	kProcessor = iota
	kCreate
	kCreateNow
	kJust
	kError
)

type mop struct {
	K int
	S sig
}

const (
	opSubscribe = iota
	opNotify
	opSignal
	opBlock
	opAsync
	opGet
)

type monoCase struct {
	Kind  int
	First sig   // just, error, or the first signal of a source that signals at once
	More  []sig // its further signals
	Maps  []mapf
	Cb    int // callbacks present: 1 success, 2 error, 4 finally
	Enter int // what the terminal callback does itself: 1 notify, 2 get, 4 signal again
	Ops   []mop
}

// monoRun observes one mono.
type monoRun struct {
	mu      sync.Mutex
	log     []string
	got     []sig // terminal callbacks
	finals  []rx.SignalType
	waiters []*waiter
}

type waiter struct {
	n   int
	sig rx.SignalType
}

func (r *monoRun) notify(m mono.Mono[int]) {
	w := &waiter{}
	r.mu.Lock()
	r.waiters = append(r.waiters, w)
	r.mu.Unlock()
	m.Notify(func(s rx.SignalType) {
		r.mu.Lock()
		defer r.mu.Unlock()
		w.n++
		w.sig = s
		r.log = append(r.log, "notified")
	})
}

func (r *monoRun) subscribe(m mono.Mono[int], c monoCase, sink func() mono.Sink[int]) error {
	var bad error
	enter := func(s sig) {
		r.mu.Lock()
		r.got = append(r.got, s)
		r.log = append(r.log, s.String())
		r.mu.Unlock()
		if c.Enter&1 != 0 {
			r.notify(m)
		}
		if c.Enter&4 != 0 && sink() != nil {
			sink().Success(77)
			sink().Error(testErr(78))
		}
	}
	sub := mono.Subscribe[int]{}
	if c.Cb&1 != 0 {
		sub.OnSuccess = func(v int) { enter(sig{false, v}) }
	}
	if c.Cb&2 != 0 {
		sub.OnError = func(err error) {
			s, e := sigOf(0, err)
			if e != nil {
				bad = e
			}
			enter(s)
		}
	}
	if c.Cb&4 != 0 {
		sub.Finally = func(s rx.SignalType) {
			r.mu.Lock()
			r.finals = append(r.finals, s)
			r.log = append(r.log, "finally "+s.String())
			r.mu.Unlock()
			if c.Enter&1 != 0 {
				r.notify(m)
			}
		}
	}
	m.Subscribe(sub)
	return bad
}

func buildMono(c monoCase) (m mono.Mono[int], sink func() mono.Sink[int], runs *int) {
	var mu sync.Mutex
	var captured mono.Sink[int]
	runs = new(int)
	sink = func() mono.Sink[int] {
		mu.Lock()
		defer mu.Unlock()
		return captured
	}
	switch c.Kind {
	case kProcessor:
		p := mono.NewProcessor[int]()
		captured = p
		m = p
	case kCreate, kCreateNow:
		m = mono.Create(func(s mono.Sink[int]) {
			mu.Lock()
			*runs++
			captured = s
			mu.Unlock()
			if c.Kind == kCreateNow {
				c.First.send(s)
				for _, x := range c.More {
					x.send(s)
				}
			}
		})
	case kJust:
		m = mono.Just(c.First.V)
	case kError:
		m = mono.Error[int](testErr(c.First.V))
	}
	for _, f := range c.Maps {
		m = mono.Map(m, f.tx)
	}
	return m, sink, runs
}

func runMono(c *pbt.Ctx, mc monoCase) error {
	return pbt.Bubble(c.T, func() error { return runMonoIn(c, mc) })
}

func runMonoIn(c *pbt.Ctx, mc monoCase) error {
	m, sink, runs := buildMono(mc)
	r := &monoRun{}
	started, subscribed := false, false
	var outcome *sig // of the source
	switch mc.Kind {
	case kJust:
		outcome = &sig{false, mc.First.V}
	case kError:
		outcome = &sig{true, mc.First.V}
	}
	start := func() {
		started = true
		if mc.Kind == kCreateNow {
			f := mc.First
			outcome = &f
		}
	}
	type blocked struct {
		done bool
		v    int
		err  error
	}
	var blocks []*blocked
	check := func(at string) error {
		pbt.Settle()
		r.mu.Lock()
		defer r.mu.Unlock()
		ended := outcome != nil && (started || mc.Kind == kJust || mc.Kind == kError)
		var want sig
		if outcome != nil {
			want = applyMaps(mc.Maps, *outcome)
		}
		wantCb := subscribed && ended && (want.Err && mc.Cb&2 != 0 || !want.Err && mc.Cb&1 != 0)
		if wantCb != (len(r.got) == 1) || len(r.got) > 1 {
			return fmt.Errorf("%s: terminal callbacks %v, want %v (ended %v)", at, r.got, want, ended)
		}
		if wantCb && r.got[0] != want {
			return fmt.Errorf("%s: delivered %v, want %v", at, r.got[0], want)
		}
		wantFin := 0
		if subscribed && ended && mc.Cb&4 != 0 {
			wantFin = 1
		}
		if len(r.finals) != wantFin {
			return fmt.Errorf("%s: final callback ran %d times, want %d (log %v)", at, len(r.finals), wantFin, r.log)
		}
		if wantFin == 1 && r.finals[0] != want.end() {
			return fmt.Errorf("%s: final callback said %v after %v", at, r.finals[0], want)
		}
		if wantCb && wantFin == 1 {
			for _, l := range r.log {
				if l == want.String() {
					break
				}
				if l == "finally "+want.end().String() {
					return fmt.Errorf("%s: final callback before the signal: %v", at, r.log)
				}
			}
		}
		for i, w := range r.waiters {
			if ended && w.n != 1 || !ended && w.n != 0 {
				return fmt.Errorf("%s: waiter %d notified %d times (ended %v, log %v)", at, i, w.n, ended, r.log)
			}
			if ended && len(mc.Maps) == 0 && w.sig != want.end() {
				return fmt.Errorf("%s: waiter %d was told %v after %v", at, i, w.sig, want)
			}
		}
		for i, b := range blocks {
			if b.done != ended {
				return fmt.Errorf("%s: blocking call %d returned: %v, ended: %v", at, i, b.done, ended)
			}
			if b.done {
				s, err := sigOf(b.v, b.err)
				if err != nil {
					return err
				}
				if s.Err != want.Err || s.V != want.V {
					return fmt.Errorf("%s: blocking call %d returned %v, want %v", at, i, s, want)
				}
			}
		}
		if *runs > 1 {
			return fmt.Errorf("%s: the source ran %d times", at, *runs)
		}
		return nil
	}
	for i, op := range mc.Ops {
		at := fmt.Sprintf("kind %d, step %d (op %d)", mc.Kind, i, op.K)
		switch op.K {
		case opSubscribe:
			if started || subscribed {
				continue
			}
			start()
			subscribed = true
			if err := r.subscribe(m, mc, sink); err != nil {
				return err
			}
		case opNotify:
			r.notify(m)
		case opSignal:
			if sink() == nil {
				continue
			}
			if outcome == nil {
				s := op.S
				outcome = &s
			}
			op.S.send(sink())
		case opBlock:
			start()
			b := &blocked{}
			blocks = append(blocks, b)
			go func() {
				v, err := blockMono(m)
				b.v, b.err, b.done = v, err, true
			}()
		case opAsync:
			start()
			m.Async()
		case opGet:
			if outcome == nil || !started && mc.Kind != kJust && mc.Kind != kError {
				continue
			}
			pbt.Settle()
			v, err := m.Get()
			s, e := sigOf(v, err)
			if e != nil {
				return e
			}
			if want := applyMaps(mc.Maps, *outcome); s.Err != want.Err || s.V != want.V {
				return fmt.Errorf("%s: polling gave %v, want %v", at, s, want)
			}
		}
		if err := check(at); err != nil {
			return err
		}
	}
	if !started {
		start()
		m.Async()
		pbt.Settle()
	}
	pbt.Idle() // nobody gets tired of waiting
	if outcome == nil {
		if sink() == nil {
			return fmt.Errorf("starting the mono did not run its source")
		}
		outcome = &sig{false, 3}
		sink().Success(3)
	}
	c.NonTrivialIf(len(r.waiters)+len(blocks)+len(r.got)+len(r.finals) >= 2)
	if len(mc.Maps) > 0 {
		c.Label("mapped")
	}
	return check("end")
}

// monoConc races signals, waiters and blocking calls on one mono.
type monoConc struct {
	Proc    bool // processor instead of Create
	Sigs    []sig
	Waiters int
	Blocks  int
	Maps    []mapf
	Reps    int
	Lazy    bool // not subscribed to, only awaited
	Late    bool // a processor is subscribed to at the same time
}

func runMonoConc(c *pbt.Ctx, mc monoConc) error {
	c.NonTrivial()
	if c.Replay {
		mc.Reps *= 25
	}
	for rep := range mc.Reps {
		if err := pbt.Bubble(c.T, func() error { return runMonoConcIn(mc, rep) }); err != nil {
			return fmt.Errorf("repetition %d: %w", rep, err)
		}
	}
	return nil
}

func runMonoConcIn(mc monoConc, rep int) error {
	kind := kCreate
	if mc.Proc {
		kind = kProcessor
	}
	c := monoCase{Kind: kind, Maps: mc.Maps, Cb: 7}
	m, sink, runs := buildMono(c)
	r := &monoRun{}
	gate := pbt.NewGate(rep)
	run := gate.Go
	if mc.Late {
		run(func() { r.subscribe(m, c, sink) })
	} else if !mc.Lazy {
		if err := r.subscribe(m, c, sink); err != nil {
			return err
		}
	}
	if !mc.Lazy {
		for _, s := range mc.Sigs {
			run(func() { s.send(sink()) })
		}
	}
	for range mc.Waiters {
		run(func() {
			if mc.Lazy {
				m.Async()
			}
			r.notify(m)
		})
	}
	type res struct {
		v   int
		err error
	}
	results := make([]*res, mc.Blocks)
	for i := range mc.Blocks {
		run(func() {
			v, err := blockMono(m)
			results[i] = &res{v, err}
		})
	}
	gate.Open()
	pbt.Settle()
	if mc.Lazy {
		if n := *runs; n != 1 && !mc.Proc {
			return fmt.Errorf("awaited by several, the source ran %d times", n)
		}
		// The first one counts.
		mc.Sigs[0].send(sink())
		for _, s := range mc.Sigs[1:] {
			s.send(sink())
		}
		pbt.Settle()
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if mc.Lazy {
		r.got = []sig{applyMaps(mc.Maps, mc.Sigs[0])}
		r.finals = []rx.SignalType{r.got[0].end()}
	}
	if len(r.got) != 1 || len(r.finals) != 1 {
		return fmt.Errorf("terminal callbacks %v, final callbacks %v", r.got, r.finals)
	}
	ok := false
	for _, s := range mc.Sigs {
		ok = ok || applyMaps(mc.Maps, s) == r.got[0]
	}
	if !ok || r.finals[0] != r.got[0].end() {
		return fmt.Errorf("delivered %v then %v, signals %v", r.got, r.finals, mc.Sigs)
	}
	for i, w := range r.waiters {
		if w.n != 1 {
			return fmt.Errorf("waiter %d notified %d times", i, w.n)
		}
	}
	for i, b := range results {
		if b == nil {
			return fmt.Errorf("blocking call %d never returned", i)
		}
		s, err := sigOf(b.v, b.err)
		if err != nil {
			return err
		}
		if s != r.got[0] {
			return fmt.Errorf("blocking call %d returned %v, the subscriber got %v", i, s, r.got[0])
		}
	}
	if *runs > 1 {
		return fmt.Errorf("the source ran %d times", *runs)
	}
	return nil
}

func TestC20(t *testing.T) {
	pbt.Check(t, "C20",
		pbt.NewPart("history", 12000, 80000, "at least two observers (callbacks, waiters, blocking calls) saw the end",
			func(t *rapid.T) monoCase {
				return monoCase{
					Kind:  rapid.SampledFrom([]int{kProcessor, kCreate, kCreateNow, kJust, kError}).Draw(t, "kind"),
					First: genSig(t),
					More:  rapid.SliceOfN(rapid.Custom(genSig), 0, 2).Draw(t, "more"),
					Maps:  genMaps(t),
					Cb:    rapid.SampledFrom([]int{7, 7, 7, 0, 1, 2, 4, 5, 6, 3}).Draw(t, "cb"),
					Enter: rapid.SampledFrom([]int{0, 0, 1, 4, 5}).Draw(t, "enter"),
					Ops: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) mop {
						return mop{rapid.SampledFrom([]int{opSubscribe, opNotify, opSignal, opSignal, opBlock, opAsync, opGet}).Draw(t, "op"), genSig(t)}
					}), 1, 8).Draw(t, "ops"),
				}
			}, runMono),
		pbt.NewPart("concurrent", threads(250), threads(2000), "always",
			func(t *rapid.T) monoConc {
				mc := monoConc{
					Proc:    rapid.Bool().Draw(t, "proc"),
					Sigs:    rapid.SliceOfN(rapid.Custom(genSig), 1, 3).Draw(t, "sigs"),
					Waiters: rapid.IntRange(1, 3).Draw(t, "waiters"),
					Blocks:  rapid.IntRange(0, 2).Draw(t, "blocks"),
					Maps:    genMaps(t),
					Reps:    40,
					Lazy:    rapid.SampledFrom([]bool{false, false, true}).Draw(t, "lazy"),
				}
				if mc.Proc && !mc.Lazy && rapid.Bool().Draw(t, "late") {
					mc.Late, mc.Blocks = true, 0 // which would subscribe, too
				}
				return mc
			}, runMonoConc),
		pbt.NewPart("again", 1500, 12000, "always", genAgain(false), runMonoAgain),
		pbt.NewPart("meet", threads(250), threads(2500), "at least two calls", genMonoMeet, runMonoMeet),
	)
}
