package rxp

import (
	"fmt"
	"slices"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// Sources of a flux.
const (
	fSlice    = iota // flux.FromSlice
	fResponse        // Create with flux.SliceResponse
	fDemand          // Create with a demand-driven source of the harness
	fProc            // processor driven by the case
	fPush            // Create, driven by the case
	fPushNow         // Create, everything while subscribing
	fError
)

// Ways to ask for items.
const (
	rAuto    = iota // no OnRequest: everything
	rPattern        // OnRequest asks for the pattern's next number
	rManual         // NoRequest; the case asks
	rManual2        // OnRequest that asks for nothing; the case asks
	rInside         // NoRequest; the case asks, and every item for the pattern's next number
)

type fop struct{ K, N int }

const (
	foSubscribe = iota
	foRequest
	foCancel
	foNext
	foComplete
	foError
	foNotify
	foBlock
	foAsync
)

type fluxCase struct {
	Src      int
	Items    []int
	Fail     int  // the harness's source and fPushNow end with this error; 0 = completes
	Hold     bool // the source, where it is the harness's, hands over its subscription only later
	Deaf     bool // its subscription takes no requests
	Maps     []mapf
	Req      int
	Pattern  []int
	CancelAt int  // cancel within the n-th item callback; 0 = never
	Cb       bool // callbacks present
	Ops      []fop
}

func (fc fluxCase) demandDriven() bool {
	return fc.Src == fSlice || fc.Src == fResponse || fc.Src == fDemand
}

// fluxRun observes one flux and its source.
type fluxRun struct {
	mu        sync.Mutex
	fc        fluxCase
	f         flux.Flux[int]
	sink      flux.Sink[int]
	items     []int
	requested int // asked of the flux before its end
	terms     []sig
	finals    []rx.SignalType
	waiters   []*waiter
	late      []string
	pat       int
	runs      int
	srcReq    int // credit the source was given
	srcCancel int
	srcPos    int
	cancelled bool
	ended     bool // the subscriber saw an end, or cancelled
	bad       error
}

func (r *fluxRun) fail(format string, a ...any) {
	if r.bad == nil {
		r.bad = fmt.Errorf(format, a...)
	}
}

// addRequests adds without overflowing a 32-bit int.
func addRequests(a, b int) int { return int(min(int64(a)+int64(b), rx.RequestMax)) }

func (r *fluxRun) request(s rx.Subscription, n int) {
	r.mu.Lock()
	r.requested = addRequests(r.requested, n)
	r.mu.Unlock()
	s.Request(n)
}

func (r *fluxRun) onItem(v int) {
	r.mu.Lock()
	if r.ended {
		r.fail("item %d after the end (items %v, ends %v, cancelled %v)", v, r.items, r.terms, r.cancelled)
	}
	r.items = append(r.items, v)
	if r.fc.demandDriven() && len(r.items) > r.requested {
		r.fail("%d items %v for %d requested", len(r.items), r.items, r.requested)
	}
	cancel := len(r.items) == r.fc.CancelAt
	if cancel {
		r.cancelled, r.ended = true, true
	}
	more := 0
	if r.fc.Req == rInside && !cancel {
		more = r.fc.Pattern[r.pat%len(r.fc.Pattern)]
		r.pat++
	}
	r.mu.Unlock()
	if cancel {
		r.f.Subscription().Cancel()
	}
	if more > 0 {
		r.request(r.f.Subscription(), more)
	}
}

func (r *fluxRun) onEnd(s sig) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.ended {
		r.fail("%v after the end (ends %v, cancelled %v)", s, r.terms, r.cancelled)
	}
	if len(r.finals) > 0 {
		r.fail("%v after the final callback", s)
	}
	r.ended = true
	r.terms = append(r.terms, s)
}

func (r *fluxRun) notify() {
	w := &waiter{}
	r.waiters = append(r.waiters, w)
	r.f.Notify(func(s rx.SignalType) {
		r.mu.Lock()
		defer r.mu.Unlock()
		w.n++
		w.sig = s
	})
}

func (r *fluxRun) sub() flux.Subscribe[int] {
	s := flux.Subscribe[int]{}
	if r.fc.Cb {
		s.OnNext = r.onItem
		s.OnComplete = func() { r.onEnd(sig{}) }
		s.OnError = func(err error) {
			x, e := sigOf(0, err)
			if e != nil {
				r.fail("%v", e)
			}
			r.onEnd(x)
		}
		s.Finally = func(sg rx.SignalType) {
			r.mu.Lock()
			defer r.mu.Unlock()
			r.finals = append(r.finals, sg)
		}
	}
	switch r.fc.Req {
	case rPattern:
		s.OnRequest = func(sub rx.Subscription) {
			n := r.fc.Pattern[r.pat%len(r.fc.Pattern)]
			r.pat++
			if n > 0 {
				r.request(sub, n)
			}
		}
	case rManual, rInside:
		s.NoRequest = true
	case rManual2:
		s.OnRequest = func(rx.Subscription) {}
	default:
		r.requested = rx.RequestMax
	}
	return s
}

func (r *fluxRun) build() {
	fc := r.fc
	items := slices.Clone(fc.Items)
	emitEnd := func(s flux.Sink[int]) {
		if fc.Fail != 0 {
			s.Error(testErr(fc.Fail))
		} else {
			s.Complete()
		}
	}
	create := func(src func(s flux.Sink[int])) flux.Flux[int] {
		return flux.Create(func(s flux.Sink[int]) {
			r.runs++
			r.sink = s
			src(s)
		})
	}
	switch fc.Src {
	case fSlice:
		r.f = flux.FromSlice(items)
	case fResponse:
		r.f = create(func(s flux.Sink[int]) {
			s.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(s, items)})
		})
	case fDemand:
		r.f = create(func(s flux.Sink[int]) {
			if !fc.Hold {
				r.handOver()
			}
		})
	case fProc:
		p := flux.NewProcessor[int]()
		r.f = p
		r.sink = p
		if !fc.Hold {
			p.OnSubscribe(r.onSubscribe())
		}
	case fPush:
		r.f = create(func(s flux.Sink[int]) {
			if !fc.Hold {
				s.OnSubscribe(r.onSubscribe())
			}
		})
	case fPushNow:
		r.f = create(func(s flux.Sink[int]) {
			s.OnSubscribe(r.onSubscribe())
			for _, v := range items {
				s.Next(v)
			}
			emitEnd(s)
		})
	case fError:
		r.f = flux.Error[int](testErr(fc.Fail))
	}
	for _, m := range fc.Maps {
		r.f = flux.Map(r.f, m.tx)
	}
}

// onSubscribe only counts.
func (r *fluxRun) onSubscribe() flux.OnSubscribe {
	s := flux.OnSubscribe{
		Request: func(n int) { r.srcReq = addRequests(r.srcReq, n) },
		Cancel:  func() { r.mu.Lock(); defer r.mu.Unlock(); r.srcCancel++ },
	}
	if r.fc.Deaf {
		s.Request = nil
	}
	return s
}

// handOver gives the flux the demand-driven source's subscription.
func (r *fluxRun) handOver() {
	if r.fc.Src == fPush || r.fc.Src == fProc {
		r.sink.OnSubscribe(r.onSubscribe())
		return
	}
	r.sink.OnSubscribe(flux.OnSubscribe{
		Request: func(n int) {
			r.srcReq = addRequests(r.srcReq, n)
			if r.srcCancel > 0 {
				return
			}
			for r.srcPos < len(r.fc.Items) && r.srcPos < r.srcReq && r.srcCancel == 0 {
				r.srcPos++
				r.sink.Next(r.fc.Items[r.srcPos-1])
			}
			if r.srcPos == len(r.fc.Items) && r.srcCancel == 0 {
				if r.fc.Fail != 0 {
					r.sink.Error(testErr(r.fc.Fail))
				} else {
					r.sink.Complete()
				}
			}
		},
		Cancel: func() { r.mu.Lock(); defer r.mu.Unlock(); r.srcCancel++ },
	})
}

// model says what a subscriber must have seen: the source's signals (items,
// then an end or none) through the maps.
func (r *fluxRun) model(src []int, end *sig) (items []int, e *sig) {
	for _, v := range src {
		s := applyMaps(r.fc.Maps, sig{V: v})
		if s.Err {
			return items, &s
		}
		items = append(items, s.V)
	}
	return items, end
}

func runFlux(c *pbt.Ctx, fc fluxCase) error {
	return pbt.Bubble(c.T, func() error { return runFluxIn(c, fc) })
}

func runFluxIn(c *pbt.Ctx, fc fluxCase) error {
	r := &fluxRun{fc: fc}
	r.build()
	subscribed, handed := false, !fc.Hold || fc.Src != fDemand && fc.Src != fPush && fc.Src != fProc
	early := false   // an item came before the source handed over its subscription
	var pushed []int // what the case's own source signalled while subscribed
	var pushEnd *sig
	srcEnd := &sig{Err: fc.Fail != 0, V: fc.Fail}
	var blockErr error
	blocking, blockDone := false, false
	manual := fc.Req == rManual || fc.Req == rManual2 || fc.Req == rInside
	check := func(at string) error {
		pbt.Settle()
		r.mu.Lock()
		defer r.mu.Unlock()
		if r.bad != nil {
			return fmt.Errorf("%s: %w", at, r.bad)
		}
		if !subscribed {
			if len(r.items)+len(r.terms)+len(r.finals) > 0 {
				return fmt.Errorf("%s: signals without a subscription", at)
			}
			if fc.Src != fError {
				for i, w := range r.waiters {
					if w.n != 0 {
						return fmt.Errorf("%s: waiter %d notified before anything happened", at, i)
					}
				}
			}
			return nil
		}
		// What the source has signalled.
		src, end := pushed, pushEnd
		if fc.demandDriven() {
			src, end = fc.Items, srcEnd
			if fc.Src != fDemand {
				end = &sig{}
			}
			if !handed || r.requested == 0 {
				src, end = nil, nil
			} else if r.requested < len(src) {
				src, end = src[:r.requested], nil
			}
		}
		items, e := r.model(src, end)
		cancelled := r.cancelled
		if fc.Cb && fc.CancelAt > 0 && len(items) >= fc.CancelAt {
			items = items[:fc.CancelAt]
			if !cancelled {
				return fmt.Errorf("%s: item %d never came: %v", at, fc.CancelAt, r.items)
			}
		}
		if fc.Cb && !cancelled {
			if !slices.Equal(r.items, items) {
				return fmt.Errorf("%s: delivered %v, want %v (requested %d)", at, r.items, items, r.requested)
			}
			if (e != nil) != (len(r.terms) == 1) || len(r.terms) > 1 || e != nil && r.terms[0] != *e {
				return fmt.Errorf("%s: ends %v, want %v after %v", at, r.terms, e, items)
			}
		}
		if fc.Cb && cancelled {
			// A prefix, and nothing after the cancellation (checked as it happens).
			if len(r.items) > len(items) || !slices.Equal(r.items, items[:len(r.items)]) {
				return fmt.Errorf("%s: delivered %v before the cancellation, want a prefix of %v", at, r.items, items)
			}
		}
		over := e != nil || cancelled
		wantSig := rx.SignalCancel
		if !cancelled && e != nil {
			wantSig = e.end()
		}
		if fc.Cb {
			want := 0
			if over {
				want = 1
			}
			if len(r.finals) != want || want == 1 && r.finals[0] != wantSig {
				return fmt.Errorf("%s: final callbacks %v, want %d of %v", at, r.finals, want, wantSig)
			}
		}
		for i, w := range r.waiters {
			if over && w.n != 1 || !over && w.n != 0 {
				return fmt.Errorf("%s: waiter %d notified %d times, over: %v", at, i, w.n, over)
			}
			if over && len(fc.Maps) == 0 && w.sig != wantSig {
				return fmt.Errorf("%s: waiter %d was told %v, want %v", at, i, w.sig, wantSig)
			}
		}
		if blocking {
			if blockDone != over {
				return fmt.Errorf("%s: blocking call returned: %v, over: %v", at, blockDone, over)
			}
			if blockDone {
				s, err := sigOf(0, blockErr)
				if err != nil {
					return err
				}
				if !cancelled && s != *e || cancelled && s.Err {
					return fmt.Errorf("%s: blocking call returned %v, want %v (cancelled %v)", at, s, e, cancelled)
				}
			}
		}
		if r.srcCancel > 1 {
			return fmt.Errorf("%s: the source was cancelled %d times", at, r.srcCancel)
		}
		if cancelled && handed && fc.Src != fSlice && fc.Src != fResponse && fc.Src != fError && r.srcCancel != 1 {
			return fmt.Errorf("%s: the source was not told of the cancellation", at)
		}
		if !cancelled && !over && r.srcCancel != 0 {
			return fmt.Errorf("%s: the source was cancelled", at)
		}
		if (fc.Src == fPush || fc.Src == fProc) && !fc.Deaf && handed && !early && !over && r.srcReq != r.requested {
			return fmt.Errorf("%s: the subscriber asked for %d items, the source was asked for %d", at, r.requested, r.srcReq)
		}
		if r.runs > 1 {
			return fmt.Errorf("%s: the source ran %d times", at, r.runs)
		}
		return nil
	}
	subscribe := func(block bool) {
		subscribed = true
		s := r.sub()
		switch fc.Src {
		case fPushNow:
			pushed, pushEnd = fc.Items, srcEnd
		case fError:
			pushEnd = srcEnd
		}
		if !block {
			r.f.Subscribe(s)
			return
		}
		blocking = true
		go func() {
			err := blockFlux(r.f, s)
			r.mu.Lock()
			blockErr, blockDone = err, true
			r.mu.Unlock()
		}()
	}
	for i, op := range fc.Ops {
		at := fmt.Sprintf("source %d, step %d (op %d)", fc.Src, i, op.K)
		switch op.K {
		case foSubscribe, foBlock:
			if subscribed {
				// The second one hands over a withheld subscription.
				if !handed {
					handed = true
					r.handOver()
				}
				break
			}
			subscribe(op.K == foBlock)
		case foAsync:
			if !subscribed {
				if fc.Src == fError {
					continue
				}
				// A subscription without callbacks, past the maps.
				fc.Cb, fc.Req, fc.Maps, fc.CancelAt = false, rAuto, nil, 0
				r.fc, manual, subscribed, r.requested = fc, false, true, rx.RequestMax
				if fc.Src == fPushNow {
					pushed, pushEnd = fc.Items, srcEnd
				}
			}
			r.f.Async()
		case foRequest:
			if !subscribed || !manual {
				continue
			}
			r.request(r.f.Subscription(), op.N)
		case foCancel:
			if !subscribed || fc.Src == fError {
				continue
			}
			r.mu.Lock()
			if !r.ended && fc.Cb {
				r.cancelled, r.ended = true, true
			} else if !fc.Cb {
				r.mu.Unlock()
				continue
			}
			r.mu.Unlock()
			r.f.Subscription().Cancel()
		case foNext, foComplete, foError:
			if !subscribed || r.sink == nil || fc.Src != fProc && fc.Src != fPush {
				continue
			}
			over := pushEnd != nil
			switch op.K {
			case foNext:
				if !over {
					pushed = append(pushed, op.N)
				}
				early = early || !handed
				r.sink.Next(op.N)
			case foComplete:
				if !over {
					pushEnd = &sig{}
				}
				r.sink.Complete()
			default:
				if !over {
					pushEnd = &sig{true, 50 + op.N}
				}
				r.sink.Error(testErr(50 + op.N))
			}
		case foNotify:
			r.notify()
		}
		if err := check(at); err != nil {
			return err
		}
	}
	// Bring everything to an end.
	if !subscribed {
		subscribe(false)
	}
	if !handed {
		handed = true
		r.handOver()
	}
	if manual {
		r.request(r.f.Subscription(), len(fc.Items)+1)
	}
	pbt.Idle()
	if (fc.Src == fProc || fc.Src == fPush) && pushEnd == nil {
		pushEnd = &sig{}
		r.sink.Complete()
	}
	if fc.Req == rPattern && slices.Contains(fc.Pattern, 0) {
		pbt.Settle()
		r.request(r.f.Subscription(), len(fc.Items)+1)
	}
	c.NonTrivialIf(len(r.items) >= 2 || r.cancelled || len(r.terms) > 0 && r.terms[0].Err)
	if r.cancelled {
		c.Label("cancelled")
	}
	if fc.demandDriven() {
		c.Label("demand-driven")
	}
	return check("end")
}

// creditCase races the arrival of the source's subscription with requests.
type creditCase struct {
	Reqs  []int
	Items int
	Early int // items asked for before anything runs concurrently
	Reps  int
}

func runCredit(c *pbt.Ctx, cc creditCase) error {
	c.NonTrivial()
	if c.Replay {
		cc.Reps *= 25
	}
	for rep := range cc.Reps {
		if err := pbt.Bubble(c.T, func() error { return runCreditIn(cc, rep) }); err != nil {
			return fmt.Errorf("repetition %d: %w", rep, err)
		}
	}
	return nil
}

func runCreditIn(cc creditCase, rep int) error {
	var mu sync.Mutex
	given, pos := 0, 0
	var got []int
	ends := 0
	var sink flux.Sink[int]
	f := flux.Create(func(s flux.Sink[int]) { sink = s })
	f.Subscribe(flux.Subscribe[int]{
		OnNext:     func(v int) { got = append(got, v) },
		OnComplete: func() { ends++ },
		NoRequest:  true,
	})
	total := cc.Early
	if cc.Early > 0 {
		f.Subscription().Request(cc.Early)
	}
	gate := pbt.NewGate(rep)
	gate.Go(func() {
		sink.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
			mu.Lock()
			defer mu.Unlock()
			given += n
			for pos < cc.Items && pos < given {
				sink.Next(pos)
				pos++
			}
			if pos == cc.Items {
				sink.Complete()
			}
		}})
	})
	for _, n := range cc.Reqs {
		total += n
		gate.Go(func() {
			f.Subscription().Request(n)
		})
	}
	gate.Open()
	pbt.Settle()
	want := min(total, cc.Items)
	for i, v := range got {
		if v != i {
			return fmt.Errorf("delivered %v", got)
		}
	}
	done := 0
	if total >= cc.Items {
		done = 1
	}
	// After its end a flux need not pass on further requests.
	if given > total || given < want || len(got) != want || ends != done {
		return fmt.Errorf("requested %d of %d items: the source was asked for %d, %d delivered, %d completions", total, cc.Items, given, len(got), ends)
	}
	return nil
}

// raceCase races the source's signals, a cancellation and waiters.
type raceCase struct {
	Items   int
	Fail    bool
	Cancels int
	Waiters int
	Maps    []mapf
	Reps    int
}

func runRace(c *pbt.Ctx, rc raceCase) error {
	c.NonTrivial()
	if c.Replay {
		rc.Reps *= 25
	}
	for rep := range rc.Reps {
		if err := pbt.Bubble(c.T, func() error { return runRaceIn(rc, rep) }); err != nil {
			return fmt.Errorf("repetition %d: %w", rep, err)
		}
	}
	return nil
}

func runRaceIn(rc raceCase, rep int) error {
	var mu sync.Mutex
	var sink flux.Sink[int]
	var got []int
	var terms []sig
	var finals []rx.SignalType
	srcCancels := 0
	locked := func(f func()) { mu.Lock(); defer mu.Unlock(); f() }
	f := flux.Create(func(s flux.Sink[int]) {
		sink = s
		s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() { locked(func() { srcCancels++ }) }})
	})
	want, end := []int{}, &sig{Err: rc.Fail, V: 0}
	if rc.Fail {
		end.V = 7
	}
	for i := range rc.Items {
		s := applyMaps(rc.Maps, sig{V: i})
		if s.Err {
			end = &s
			break
		}
		want = append(want, s.V)
	}
	for _, m := range rc.Maps {
		f = flux.Map(f, m.tx)
	}
	f.Subscribe(flux.Subscribe[int]{
		OnNext:     func(v int) { locked(func() { got = append(got, v) }) },
		OnComplete: func() { locked(func() { terms = append(terms, sig{}) }) },
		OnError: func(err error) {
			s, _ := sigOf(0, err)
			locked(func() { terms = append(terms, s) })
		},
		Finally: func(s rx.SignalType) { locked(func() { finals = append(finals, s) }) },
	})
	gate := pbt.NewGate(rep)
	gate.Go(func() {
		for i := range rc.Items {
			sink.Next(i)
		}
		if rc.Fail {
			sink.Error(testErr(7))
		} else {
			sink.Complete()
		}
	})
	for range rc.Cancels {
		gate.Go(func() {
			f.Subscription().Cancel()
		})
	}
	waiters := make([][]rx.SignalType, rc.Waiters)
	for i := range waiters {
		gate.Go(func() {
			f.Notify(func(s rx.SignalType) { locked(func() { waiters[i] = append(waiters[i], s) }) })
		})
	}
	gate.Open()
	pbt.Settle()
	if len(finals) != 1 || len(terms) > 1 {
		return fmt.Errorf("ends %v, final callbacks %v", terms, finals)
	}
	if len(got) > len(want) || !slices.Equal(got, want[:len(got)]) {
		return fmt.Errorf("delivered %v, want a prefix of %v", got, want)
	}
	if len(terms) == 1 {
		// A transform's error and a cancellation may cross.
		crossed := len(rc.Maps) > 0 && end.Err && finals[0] == rx.SignalCancel
		if terms[0] != *end || len(got) != len(want) || finals[0] != end.end() && !crossed {
			return fmt.Errorf("delivered %v, ended with %v and %v, want %v, %v", got, terms, finals, want, end)
		}
	} else if finals[0] != rx.SignalCancel || rc.Cancels == 0 {
		return fmt.Errorf("no end signal but the final callback said %v after %v", finals[0], got)
	}
	failedMap := len(rc.Maps) > 0 && end.Err
	if srcCancels > 1 || !failedMap && (srcCancels == 1) != (finals[0] == rx.SignalCancel) {
		return fmt.Errorf("the source was cancelled %d times, the final callback said %v", srcCancels, finals[0])
	}
	for i, w := range waiters {
		if len(w) != 1 || len(rc.Maps) == 0 && w[0] != finals[0] {
			return fmt.Errorf("waiter %d was notified %v, the final callback said %v", i, w, finals[0])
		}
	}
	return nil
}

func TestC21(t *testing.T) {
	few := rapid.IntRange(1, 5)
	many := rapid.SampledFrom([]int{rx.RequestMax, rx.RequestMax - 1, 1 << 30})
	gen := func(t *rapid.T) fluxCase {
		fc := fluxCase{
			Src:   rapid.SampledFrom([]int{fSlice, fDemand, fProc, fResponse, fPush, fPushNow, fError}).Draw(t, "src"),
			Items: rapid.OneOf(rapid.SliceOfN(rapid.IntRange(0, 9), 0, 7), rapid.SliceOfN(rapid.IntRange(0, 9), 0, 7), rapid.SliceOfN(rapid.IntRange(0, 9), 8, 60)).Draw(t, "items"),
			Maps:  genMaps(t),
			Req:   rapid.SampledFrom([]int{rAuto, rPattern, rManual, rManual2, rInside}).Draw(t, "req"),
			Cb:    rapid.IntRange(0, 7).Draw(t, "cb") > 0,
		}
		if rapid.IntRange(0, 2).Draw(t, "fails") == 2 || fc.Src == fError {
			fc.Fail = rapid.IntRange(1, 40).Draw(t, "fail")
		}
		fc.Hold = rapid.IntRange(0, 3).Draw(t, "hold") == 3
		fc.Deaf = rapid.IntRange(0, 2).Draw(t, "deaf") == 2
		fc.Pattern = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(0, 9), many), 1, 3).Draw(t, "pattern")
		if rapid.IntRange(0, 3).Draw(t, "cancels") == 3 && fc.Cb {
			fc.CancelAt = rapid.IntRange(1, 5).Draw(t, "at")
		}
		ks := []int{foSubscribe, foRequest, foNotify, foRequest, foCancel, foBlock, foAsync}
		if fc.Src == fProc || fc.Src == fPush {
			ks = []int{foSubscribe, foNext, foNext, foNext, foComplete, foError, foNotify, foCancel, foBlock, foRequest, foAsync}
		}
		fc.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) fop {
			op := fop{K: rapid.SampledFrom(ks).Draw(t, "op")}
			if op.K == foRequest {
				op.N = rapid.OneOf(few, few, few, many).Draw(t, "n")
			} else {
				op.N = few.Draw(t, "n")
			}
			return op
		}), 1, 10).Draw(t, "ops")
		return fc
	}
	pbt.Check(t, "C21",
		pbt.NewPart("history", 15000, 120000, "at least two items, a cancellation or an error is delivered", gen, runFlux),
		pbt.NewPart("credit", threads(250), threads(2000), "always", func(t *rapid.T) creditCase {
			return creditCase{
				Reqs:  rapid.SliceOfN(rapid.IntRange(1, 4), 1, 4).Draw(t, "reqs"),
				Items: rapid.IntRange(0, 12).Draw(t, "items"),
				Early: rapid.IntRange(0, 2).Draw(t, "early"),
				Reps:  40,
			}
		}, runCredit),
		pbt.NewPart("race", threads(600), threads(5000), "always", func(t *rapid.T) raceCase {
			return raceCase{
				Items:   rapid.IntRange(0, 6).Draw(t, "items"),
				Fail:    rapid.Bool().Draw(t, "fail"),
				Cancels: rapid.IntRange(0, 3).Draw(t, "cancels"),
				Waiters: rapid.IntRange(0, 3).Draw(t, "waiters"),
				Maps:    genMaps(t),
				Reps:    40,
			}
		}, runRace),
		pbt.NewPart("again", 1500, 12000, "always", genAgain(true), runFluxAgain),
		pbt.NewPart("meet", threads(250), threads(2500), "the subscriber asks or cancels", genFluxMeet, runFluxMeet),
		pbt.NewPart("end", threads(250), threads(2500), "at least two calls", genFluxEnd, runFluxEnd),
		pbt.NewPart("blocking", threads(1500), threads(12000), "always", genWait, runWait),
	)
}
