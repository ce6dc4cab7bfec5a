package rxp

import (
	"fmt"
	"slices"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// Kinds of awaitables.
const (
	aProcessor = iota
	aJust
	aError
	aCreateNow
	aCreate
	aPreset // processor completed before the flow starts
	aMapped
	aNested // the mono of another flow, waiting for a processor
	aFluxSlice
	aFluxCreate
	aFluxProc
	aFluxCancel    // ends by being cancelled
	aFluxCancelled // has been cancelled before
	aReuse         // one awaited by an earlier step, or twice by this one
	aKinds
)

type awaitable struct {
	K int
	S sig
}

// Ways a step stops the flow.
const (
	goOn = iota
	stopErr
	stopErrGroup // an error along with awaitables
	stopFlowErr  // Flow.Error
	stopEnd
	stopEndGroup // End along with awaitables
	stopResult   // Success or Complete
	stopLater    // End, and Success or Complete afterwards
	stopLaterErr // End, and Flow.Error afterwards
)

type step struct {
	Await []awaitable
	Stop  int
	Set   bool // set the result (a mono's value, or an item of a flux)
	V     int
}

type flowCase struct {
	Flux  bool // the flow's result is a stream
	Steps []step
	Split int   // steps given in a second call of Steps
	Start int   // 0 subscribe, 1 async, 2 block
	Order []int // which pending awaitable completes next
	Early []int // completed before the flow starts
}

// pending is an awaitable under construction.
type pending struct {
	a       await.Awaitable
	finish  func() // nil: finishes by itself
	canPre  bool   // may finish before it is awaited
	done    bool
	started func() bool // the source runs
}

func build(k awaitable) *pending {
	p := &pending{started: func() bool { return true }}
	switch k.K {
	case aProcessor:
		m := mono.NewProcessor[int]()
		p.a, p.finish, p.canPre = m, func() { k.S.send(m) }, true
	case aPreset:
		m := mono.NewProcessor[int]()
		k.S.send(m)
		p.a = m
	case aMapped:
		m := mono.NewProcessor[int]()
		p.a, p.finish, p.canPre = mono.Map[int, int](m, mapf{1, 5}.tx), func() { k.S.send(m) }, true
	case aJust:
		p.a = mono.Just(k.S.V)
	case aError:
		p.a = mono.Error[int](testErr(k.S.V))
	case aCreateNow:
		p.a = mono.Create(func(s mono.Sink[int]) { k.S.send(s) })
	case aCreate:
		var sink mono.Sink[int]
		p.a = mono.Create(func(s mono.Sink[int]) { sink = s })
		p.finish = func() { k.S.send(sink) }
		p.started = func() bool { return sink != nil }
	case aNested:
		m := mono.NewProcessor[int]()
		f := flow.New[int]()
		f.Steps(func() (await.Group, error) { return await.All(m) },
			func() (await.Group, error) {
				v, err := m.Get()
				if err != nil {
					return nil, err
				}
				return f.Success(v)
			})
		p.a, p.finish, p.canPre = f.Mono(), func() { k.S.send(m) }, true
	case aFluxSlice:
		p.a = flux.FromSlice([]int{1, 2, 3}[:k.S.V%4])
	case aFluxCreate:
		var sink flux.Sink[int]
		p.a = flux.Create(func(s flux.Sink[int]) { sink = s })
		p.finish = func() {
			sink.Next(k.S.V)
			if k.S.Err {
				sink.Error(testErr(k.S.V))
			} else {
				sink.Complete()
			}
		}
		p.started = func() bool { return sink != nil }
	case aFluxProc:
		f := flux.NewProcessor[int]()
		begun := false
		f.OnSubscribe(flux.OnSubscribe{Request: func(int) { begun = true }})
		p.a = f
		p.finish = func() {
			f.Next(k.S.V)
			if k.S.Err {
				f.Error(testErr(k.S.V))
			} else {
				f.Complete()
			}
		}
		p.started = func() bool { return begun }
	case aFluxCancel, aFluxCancelled:
		begun := false
		f := flux.Create(func(s flux.Sink[int]) {
			begun = true
			s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}})
		})
		p.a = f
		cancel := func() { f.Subscription().Cancel() }
		if k.K == aFluxCancelled {
			f.Subscribe(flux.Subscribe[int]{NoRequest: true})
			cancel()
			break
		}
		p.finish = cancel
		p.started = func() bool { return begun }
	}
	p.done = p.finish == nil
	return p
}

func runFlow(c *pbt.Ctx, fc flowCase) error {
	return pbt.Bubble(c.T, func() error { return runFlowIn(c, fc) })
}

// flowRun is a flow under test.
type flowRun struct {
	fc     flowCase
	mu     sync.Mutex
	groups [][]*pending
	all    []*pending
	log    []int
	bad    error
	later  func() // sets the result afterwards
	fired  bool

	items    []int
	ends     []sig
	finals   []rx.SignalType
	notified int
	blocked  bool
	returned bool
	blockRes sig
}

func newFlowRun(fc flowCase) *flowRun {
	last := len(fc.Steps)
	for i, s := range fc.Steps {
		if s.Stop != goOn {
			last = i + 1
			break
		}
	}
	r := &flowRun{fc: fc, fired: true}
	if _, end := r.want(last); end == nil && fc.Start == 2 {
		r.fc.Start = 0 // blocking on a flow that sets no result never returns
	}
	r.fired = false
	for _, s := range fc.Steps {
		var g []*pending
		for _, a := range s.Await {
			var p *pending
			if a.K == aReuse && len(r.all) > 0 {
				p = r.all[a.S.V%len(r.all)]
			} else {
				if a.K == aReuse {
					a.K = aProcessor
				}
				p = build(a)
				r.all = append(r.all, p)
			}
			g = append(g, p)
		}
		r.groups = append(r.groups, g)
	}
	return r
}

// wantSteps is how many steps have started.
func (r *flowRun) wantSteps() int {
	for i, s := range r.fc.Steps {
		if s.Stop != goOn {
			return i + 1
		}
		for _, p := range r.groups[i] {
			if !p.done {
				return i + 1
			}
		}
	}
	return len(r.fc.Steps)
}

// want is what the steps that ran have set: items, and an end.
func (r *flowRun) want(n int) (items []int, end *sig) {
	for _, s := range r.fc.Steps[:n] {
		if s.Set && end == nil {
			if r.fc.Flux {
				items = append(items, s.V)
			} else {
				end = &sig{V: s.V}
			}
		}
		if end != nil {
			continue
		}
		switch s.Stop {
		case stopErr, stopErrGroup, stopFlowErr:
			end = &sig{true, s.V}
		case stopResult:
			end = &sig{V: s.V}
			if r.fc.Flux {
				end = &sig{}
			}
		case stopLater, stopLaterErr:
			if !r.fired {
				break
			}
			switch {
			case s.Stop == stopLaterErr:
				end = &sig{true, s.V}
			case r.fc.Flux:
				items = append(items, s.V)
				end = &sig{}
			default:
				end = &sig{V: s.V}
			}
		}
	}
	return items, end
}

func (r *flowRun) start() {
	fc := r.fc
	f := flow.New[int]()
	var steps []flow.StepFn
	for i, s := range fc.Steps {
		steps = append(steps, func() (await.Group, error) {
			r.mu.Lock()
			r.log = append(r.log, i)
			if i > 0 && r.bad == nil {
				for j, p := range r.groups[i-1] {
					if !p.done {
						r.bad = fmt.Errorf("step %d started before awaitable %d of step %d was told to finish", i, j, i-1)
					}
				}
			}
			r.mu.Unlock()
			if s.Set {
				if fc.Flux {
					f.Next(s.V)
				} else {
					f.Success(s.V)
				}
			}
			var g await.Group
			for _, p := range r.groups[i] {
				g = append(g, p.a)
			}
			switch s.Stop {
			case stopErr:
				return nil, testErr(s.V)
			case stopErrGroup:
				return g, testErr(s.V)
			case stopFlowErr:
				return f.Error(testErr(s.V))
			case stopEnd:
				return f.End()
			case stopEndGroup:
				f.End()
				return g, nil
			case stopResult:
				if fc.Flux {
					return f.Complete()
				}
				return f.Success(s.V)
			case stopLater, stopLaterErr:
				r.mu.Lock()
				r.later = func() {
					switch {
					case s.Stop == stopLaterErr:
						f.Error(testErr(s.V))
					case fc.Flux:
						f.Next(s.V)
						f.Complete()
					default:
						f.Success(s.V)
					}
				}
				r.mu.Unlock()
				return f.End()
			}
			return await.All(g...)
		})
	}
	split := min(fc.Split, len(steps))
	f.Steps(steps[:len(steps)-split]...)
	if split > 0 {
		f.Steps(steps[len(steps)-split:]...)
	}
	onEnd := func(s sig) { r.mu.Lock(); defer r.mu.Unlock(); r.ends = append(r.ends, s) }
	onErr := func(err error) {
		s, e := sigOf(0, err)
		if e != nil && r.bad == nil {
			r.bad = e
		}
		onEnd(s)
	}
	onFinal := func(s rx.SignalType) { r.mu.Lock(); defer r.mu.Unlock(); r.finals = append(r.finals, s) }
	onNotify := func(rx.SignalType) { r.mu.Lock(); defer r.mu.Unlock(); r.notified++ }
	if fc.Flux {
		fl := f.Flux()
		fl.Notify(onNotify)
		s := flux.Subscribe[int]{
			OnNext:     func(v int) { r.mu.Lock(); defer r.mu.Unlock(); r.items = append(r.items, v) },
			OnComplete: func() { onEnd(sig{}) },
			OnError:    onErr,
			Finally:    onFinal,
		}
		if fc.Start != 2 {
			fl.Subscribe(s)
			return
		}
		r.blocked = true
		go func() {
			err := blockFlux(fl, s)
			r.mu.Lock()
			defer r.mu.Unlock()
			r.returned = true
			r.blockRes, _ = sigOf(0, err)
		}()
		return
	}
	m := f.Mono()
	m.Notify(onNotify)
	switch fc.Start {
	case 0:
		m.Subscribe(mono.Subscribe[int]{
			OnSuccess: func(v int) { onEnd(sig{V: v}) },
			OnError:   onErr,
			Finally:   onFinal,
		})
	case 1:
		m.Async()
	default:
		r.blocked = true
		go func() {
			v, err := blockMono(m)
			r.mu.Lock()
			defer r.mu.Unlock()
			r.returned = true
			r.blockRes, _ = sigOf(v, err)
		}()
	}
}

func (r *flowRun) check(at string) error {
	pbt.Idle()
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.bad != nil {
		return fmt.Errorf("%s: %w", at, r.bad)
	}
	n := r.wantSteps()
	if len(r.log) != n {
		return fmt.Errorf("%s: steps %v ran, want the first %d", at, r.log, n)
	}
	for i, s := range r.log {
		if s != i {
			return fmt.Errorf("%s: steps ran in order %v", at, r.log)
		}
	}
	items, end := r.want(n)
	withCb := r.fc.Flux || r.fc.Start == 0
	ended := 0
	if end != nil {
		ended = 1
	}
	if r.fc.Flux && !slices.Equal(r.items, items) {
		return fmt.Errorf("%s: the flow's items were %v, want %v", at, r.items, items)
	}
	if withCb {
		if len(r.ends) != ended || ended == 1 && r.ends[0] != *end {
			return fmt.Errorf("%s: the flow's result was %v, want %v", at, r.ends, end)
		}
		if len(r.finals) != ended || ended == 1 && r.finals[0] != end.end() {
			return fmt.Errorf("%s: final callbacks %v after %v", at, r.finals, end)
		}
	}
	if r.notified != ended {
		return fmt.Errorf("%s: the flow's waiter was notified %d times, result %v", at, r.notified, end)
	}
	if r.blocked && (r.returned != (ended == 1) || r.returned && r.blockRes != *end) {
		return fmt.Errorf("%s: blocking returned %v (%v), want %v", at, r.returned, r.blockRes, end)
	}
	return nil
}

// fire sets the result that was left for later.
func (r *flowRun) fire() error {
	r.mu.Lock()
	later := r.later
	r.fired = r.fired || later != nil
	r.later = nil
	r.mu.Unlock()
	if later == nil {
		return nil
	}
	later()
	return r.check("result set after the steps")
}

func (r *flowRun) finish(p *pending) {
	r.mu.Lock()
	p.done = true
	r.mu.Unlock()
	p.finish()
}

func runFlowIn(c *pbt.Ctx, fc flowCase) error {
	r := newFlowRun(fc)
	for _, i := range fc.Early {
		if len(r.all) == 0 {
			break
		}
		if p := r.all[i%len(r.all)]; p.canPre && !p.done {
			r.finish(p)
		}
	}
	r.start()
	if err := r.check("start"); err != nil {
		return err
	}
	for k := 0; ; k++ {
		var open []*pending
		for _, p := range r.all {
			if !p.done && p.started() {
				open = append(open, p)
			}
		}
		if len(open) == 0 {
			break
		}
		i := 0
		if k < len(fc.Order) {
			i = fc.Order[k] % len(open)
		}
		r.finish(open[i])
		if err := r.check(fmt.Sprintf("completion %d", k)); err != nil {
			return err
		}
	}
	if err := r.fire(); err != nil {
		return err
	}
	c.NonTrivialIf(len(r.log) >= 2)
	if len(r.log) < len(fc.Steps) {
		c.Label("stopped early")
	}
	return r.check("end")
}

// runFlowConc finishes each step's awaitables concurrently.
func runFlowConc(c *pbt.Ctx, fc flowCase) error {
	c.NonTrivialIf(len(fc.Steps) > 1)
	reps := 30
	if c.Replay {
		reps *= 25
	}
	for rep := range reps {
		if err := pbt.Bubble(c.T, func() error { return runFlowConcIn(fc, rep) }); err != nil {
			return fmt.Errorf("repetition %d: %w", rep, err)
		}
	}
	return nil
}

func runFlowConcIn(fc flowCase, rep int) error {
	r := newFlowRun(fc)
	r.start()
	for k := 0; k <= len(fc.Steps); k++ {
		pbt.Settle()
		gate := pbt.NewGate(rep)
		for _, p := range r.all {
			if !p.done && p.started() {
				p.done = true
				gate.Go(p.finish)
			}
		}
		gate.Open()
		if err := r.check(fmt.Sprintf("round %d", k)); err != nil {
			return err
		}
	}
	return r.fire()
}

func TestC22(t *testing.T) {
	gen := func(t *rapid.T, kinds []int) flowCase {
		fc := flowCase{
			Flux:  rapid.IntRange(0, 2).Draw(t, "flux") == 2,
			Split: rapid.IntRange(0, 2).Draw(t, "split"),
			Start: rapid.IntRange(0, 2).Draw(t, "start"),
			Order: rapid.SliceOfN(rapid.IntRange(0, 5), 0, 8).Draw(t, "order"),
			Early: rapid.SliceOfN(rapid.IntRange(0, 9), 0, 2).Draw(t, "early"),
		}
		if rapid.IntRange(0, 1).Draw(t, "noearly") == 0 {
			fc.Early = nil
		}
		n := rapid.IntRange(1, 5).Draw(t, "n")
		for i := range n {
			s := step{V: rapid.IntRange(1, 40).Draw(t, "v")}
			s.Set = rapid.IntRange(0, 3).Draw(t, "set") == 3
			if i == n-1 {
				s.Stop = rapid.SampledFrom([]int{stopResult, stopErr, goOn, stopFlowErr, stopEnd, stopErrGroup, stopEndGroup, stopLater, stopLaterErr}).Draw(t, "stop")
			} else if rapid.IntRange(0, 9).Draw(t, "stops") == 9 { // not stopResult: whether the flow goes on after it is not specified
				s.Stop = rapid.SampledFrom([]int{stopErr, stopFlowErr, stopEnd, stopErrGroup, stopEndGroup, stopLater, stopLaterErr}).Draw(t, "stop")
			}
			s.Await = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) awaitable {
				return awaitable{rapid.SampledFrom(kinds).Draw(t, "kind"), genSig(t)}
			}), 1, 4).Draw(t, "await")
			fc.Steps = append(fc.Steps, s)
		}
		return fc
	}
	var kinds []int
	for k := range aKinds {
		kinds = append(kinds, k)
	}
	pbt.Check(t, "C22",
		pbt.NewPart("history", 12000, 80000, "at least two steps ran",
			func(t *rapid.T) flowCase { return gen(t, kinds) }, runFlow),
		pbt.NewPart("concurrent", threads(300), threads(2500), "more than one step",
			func(t *rapid.T) flowCase {
				fc := gen(t, []int{aProcessor, aCreate, aMapped, aNested, aJust, aFluxCreate})
				fc.Early = nil
				return fc
			}, runFlowConc),
	)
}
