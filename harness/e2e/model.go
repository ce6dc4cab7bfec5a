package e2e

import (
	"bytes"
	"fmt"
	"runtime"
	"slices"
	"strings"
	"weak"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// Run performs the operations, comparing with the model whenever everything
// has come to rest, then releases what is held and makes a last request from
// either side.
func (w *World) Run(ops []Op) error {
	defer close(w.stop)
	settled := true
	for _, op := range ops {
		w.mu.Lock()
		s := w.reqs[op.I]
		switch op.K {
		case OpStart:
			s.started = true
		case OpCancel:
			if settled && op.Settle && s.frozen < 0 && len(s.rec.ends) == 0 {
				s.frozen = len(s.rec.items)
			}
		}
		w.mu.Unlock()
		go w.do(op)
		settled = op.Settle
		if settled {
			if err := w.Check(); err != nil {
				return err
			}
		} else if w.Step != nil {
			w.Step()
		}
	}
	if err := w.Check(); err != nil {
		return err
	}
	// Whoever waits may have to wait for long.
	pbt.Idle()
	if err := w.Check(); err != nil {
		return fmt.Errorf("after three hours without anything to do: %w", err)
	}
	for _, s := range w.reqs {
		if s.started {
			go w.do(Op{K: OpRelease, I: s.id})
			if s.req.Kind == RC {
				go w.do(Op{K: OpInRelease, I: s.id})
			}
		}
	}
	if err := w.Check(); err != nil {
		return fmt.Errorf("after releasing everything: %w", err)
	}
	return w.Probe()
}

// Finish ends every request that has not ended yet and lets go of them all. It
// returns pointers that do not keep them.
func (w *World) Finish() []weak.Pointer[state] {
	w.mu.Lock()
	reqs := w.reqs
	w.mu.Unlock()
	for _, s := range reqs {
		w.mu.Lock()
		f := s.f
		ended := len(s.rec.finals) > 0
		w.mu.Unlock()
		if f != nil && !ended {
			w.enter(s.req.From, f.Subscription().Cancel)
		}
	}
	pbt.Settle()
	for _, s := range reqs {
		for k := range s.hops {
			w.mu.Lock()
			in := s.hops[k].in
			ended := len(s.hops[k].rec.finals) > 0
			w.mu.Unlock()
			if in != nil && !ended {
				w.enter(s.lastSide(), in.Subscription().Cancel)
			}
		}
	}
	pbt.Settle()
	out := make([]weak.Pointer[state], len(reqs))
	for k, s := range reqs {
		out[k] = weak.Make(s)
	}
	w.mu.Lock()
	w.reqs = nil
	w.mu.Unlock()
	return out
}

// Forgotten checks that of every group of requests of the same form at least
// some are no longer kept by anybody.
func Forgotten(reqs []Req, groups, copies int, ptrs []weak.Pointer[state]) error {
	for range 3 {
		runtime.GC()
	}
	for g := range groups {
		kept := 0
		for k := range copies {
			if ptrs[k*groups+g].Value() != nil {
				kept++
			}
		}
		if kept >= copies-1 {
			r := reqs[g]
			return fmt.Errorf("request %d (%s from side %d) has ended, but %d of %d requests like it are still kept",
				g, kindNames[r.Kind], r.From, kept, copies)
		}
	}
	return nil
}

// Probe makes one request from either side.
func (w *World) Probe() error {
	for side, c := range w.Callers {
		if c == nil {
			continue
		}
		s := w.add(Req{From: side, Kind: RR, Data: pbt.Blob{N: 20}, Items: []int{30}})
		s.started = true
		go w.do(Op{K: OpStart, I: s.id})
	}
	if err := w.Check(); err != nil {
		return fmt.Errorf("probe: %w", err)
	}
	return nil
}

// Check waits until everything has come to rest and compares with the model.
func (w *World) Check() error {
	pbt.Settle()
	if w.Settled != nil {
		w.Settled()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.errs) > 0 {
		return w.errs[0]
	}
	for _, s := range w.reqs {
		err := s.check()
		if err == nil && s.req.Too && !slices.Equal(s.notified, s.rec.finals) {
			err = fmt.Errorf("ended with %v, but who awaited it was notified of %v", s.rec.finals, s.notified)
		}
		if err != nil {
			r := s.req
			return fmt.Errorf("request %d (%s from side %d): %w", s.id, kindNames[r.Kind], r.From, err)
		}
	}
	return nil
}

// expectation is what the receiver of a flow of items is to see.
type expectation struct {
	salt  int
	id    int
	sizes []int
	fail  int
	open  bool // the publisher is allowed to publish
	asked int
	eager bool // ends without being asked if there is nothing
	one   payload.Payload
}

func (e *expectation) len() int {
	if e.one != nil {
		return 1
	}
	return len(e.sizes)
}

func (e *expectation) item(j int) payload.Payload {
	if e.one != nil {
		return e.one
	}
	return payload.New(itemData(e.id, e.salt, j, e.sizes[j]), itemMeta(e.id, e.salt, j, e.sizes[j]))
}

// count is how many items are delivered.
func (e *expectation) count() int {
	if !e.open {
		return 0
	}
	return min(e.asked, e.len())
}

func (e *expectation) ended() bool {
	if !e.open {
		return false
	}
	if e.len() == 0 {
		return e.eager || e.asked > 0
	}
	return e.asked >= e.len()
}

func (e *expectation) end() (string, rx.SignalType) {
	if err := failure(e.fail); err != nil {
		return "error " + err.Error(), rx.SignalError
	}
	return "complete", rx.SignalComplete
}

// prefix checks the items seen so far and the form of what was seen.
func (e *expectation) prefix(rec *recorder) error {
	if rec.late {
		return fmt.Errorf("an item after the end")
	}
	for j, p := range rec.items {
		if j >= e.len() {
			return fmt.Errorf("%d items, there are only %d", len(rec.items), e.len())
		}
		want := e.item(j)
		if err := pbt.EqBytes(fmt.Sprintf("item %d data", j), p.Data(), want.Data()); err != nil {
			return err
		}
		if !bytes.Equal(p.Metadata(), want.Metadata()) {
			return pbt.EqBytes(fmt.Sprintf("item %d metadata", j), p.Metadata(), want.Metadata())
		}
	}
	if len(rec.ends) > 1 || len(rec.finals) > 1 {
		return fmt.Errorf("ended with %q, finals %v", short(rec.ends), rec.finals)
	}
	if len(rec.ends) == 1 {
		want, sig := e.end()
		if rec.ends[0] != want {
			return fmt.Errorf("ended with %q, not %q", short(rec.ends), short([]string{want}))
		}
		if len(rec.items) != e.len() {
			return fmt.Errorf("ended after %d of %d items", len(rec.items), e.len())
		}
		if len(rec.finals) != 1 || rec.finals[0] != sig {
			return fmt.Errorf("finals %v after %q", rec.finals, short(rec.ends))
		}
	}
	return nil
}

func short(l []string) []string {
	out := make([]string, len(l))
	for i, s := range l {
		if len(s) > 60 {
			s = s[:60] + "..."
		}
		out[i] = s
	}
	return out
}

// all checks for exactly what is expected by now.
func (e *expectation) all(rec *recorder) error {
	if err := e.prefix(rec); err != nil {
		return err
	}
	if len(rec.items) != e.count() {
		return fmt.Errorf("%d items delivered, expected %d (requested %d of %d)", len(rec.items), e.count(), e.asked, e.len())
	}
	if e.ended() && len(rec.ends) != 1 {
		want, _ := e.end()
		return fmt.Errorf("not ended after %d items, expected %q", len(rec.items), short([]string{want}))
	}
	if !e.ended() && (len(rec.ends) != 0 || len(rec.finals) != 0) {
		return fmt.Errorf("ended early with %q %v (requested %d of %d)", short(rec.ends), rec.finals, e.asked, e.len())
	}
	return nil
}

// stopped checks what the receiver sees that has cancelled.
func (e *expectation) stopped(rec *recorder, frozen int) error {
	if err := e.prefix(rec); err != nil {
		return err
	}
	if len(rec.items) > e.count() {
		return fmt.Errorf("%d items delivered, expected at most %d", len(rec.items), e.count())
	}
	if frozen >= 0 && (len(rec.items) != frozen || len(rec.ends) != 0) {
		return fmt.Errorf("%d items and end %q after cancelling at %d", len(rec.items), short(rec.ends), frozen)
	}
	if len(rec.ends) == 0 && (len(rec.finals) != 1 || rec.finals[0] != rx.SignalCancel) {
		return fmt.Errorf("finals %v after cancelling", rec.finals)
	}
	return nil
}

func (rec *recorder) none() error {
	if len(rec.items)+len(rec.ends)+len(rec.finals) > 0 {
		return fmt.Errorf("got %d items, end %q, finals %v out of nothing", len(rec.items), short(rec.ends), rec.finals)
	}
	return nil
}

// told checks that a source whose items nobody wants any more was told.
func (src *source) told(what string) error {
	if src == nil || src.subs == 0 || src.finished {
		return nil
	}
	if src.cancels == 0 {
		return fmt.Errorf("the %s was not told to stop", what)
	}
	return nil
}

func (s *state) check() error {
	if !s.started {
		return nil
	}
	r := s.req
	valid := r.Op < 3 && r.Short == 0
	sent := r.Kind == RR || r.Kind == FNF || s.g > 0
	hops := 0
	if valid && sent {
		hops = 1
		if r.Relay {
			hops = 2
		}
	}
	cancelled := s.cancels > 0
	for k := range s.hops {
		want := 0
		if k < hops {
			want = 1
		}
		h := &s.hops[k]
		if cancelled && r.Style != Blocking {
			if h.invoked > want {
				return fmt.Errorf("the handler ran %d times", h.invoked)
			}
		} else if h.invoked != want {
			return fmt.Errorf("the handler ran %d times, expected %d", h.invoked, want)
		}
		if h.src != nil && h.src.cancels > 1 {
			return fmt.Errorf("the response was told to stop %d times", h.src.cancels)
		}
	}
	if s.inSrc != nil && s.inSrc.cancels > 1 {
		return fmt.Errorf("the channel input was told to stop %d times", s.inSrc.cancels)
	}

	if !sent {
		if cancelled {
			e := &expectation{}
			return e.stopped(&s.rec, -1)
		}
		return s.rec.none()
	}
	if !valid && r.Kind != FNF {
		if cancelled && len(s.rec.ends) == 0 {
			return nil
		}
		if len(s.rec.items) != 0 || len(s.rec.ends) != 1 && r.Style != Awaited ||
			len(s.rec.ends) == 1 && !strings.HasPrefix(s.rec.ends[0], "error ") ||
			len(s.rec.finals) != 1 || s.rec.finals[0] != rx.SignalError {
			return fmt.Errorf("an invalid request got %d items, end %q, finals %v", len(s.rec.items), short(s.rec.ends), s.rec.finals)
		}
		return nil
	}
	e := &expectation{id: s.id, sizes: r.Items, fail: r.Fail, asked: s.g, open: !r.Hold || s.released}
	h := s.lastHop()
	switch r.Kind {
	case FNF:
		return nil
	case RR:
		e.asked = 1
		e.sizes = e.sizes[:1]
		if r.Fail > 0 {
			e.sizes = nil
			e.eager = true
		}
		return e.all(&s.rec)
	case RC:
		in := &expectation{id: s.id, salt: inSalt, sizes: r.InItems, fail: r.InFail, eager: s.inSrc != nil && s.inSrc.eager,
			asked: h.g, open: !r.InHold || s.inReleased}
		if r.Mode == Echo {
			in.asked = s.g
			e = in
			break // the handler's input is what the requester gets
		}
		if err := s.checkIn(in, h, cancelled); err != nil {
			return fmt.Errorf("handler's input: %w", err)
		}
		if r.Mode == Collect {
			e.open = len(h.rec.ends) > 0
			e.fail = 0
			if e.open && r.InFail > 0 {
				e.sizes, e.fail, e.eager = nil, r.InFail, true
			} else {
				e.one = collected(h.rec.items)
			}
		}
	}
	if cancelled {
		if err := e.stopped(&s.rec, s.frozen); err != nil {
			return err
		}
		// One item may have been on its way to the callback.
		if n := len(s.rec.items); s.returned >= 0 && n > s.returned+1 {
			return fmt.Errorf("%d items were delivered after cancelling had returned", n-s.returned)
		}
		if len(s.rec.ends) == 0 {
			if err := h.src.told("response"); err != nil {
				return err
			}
			return s.inSrc.told("channel input")
		}
		return nil
	}
	if r.Style == Awaited {
		if e.ended() {
			_, sig := e.end()
			if len(s.rec.finals) != 1 || s.rec.finals[0] != sig {
				return fmt.Errorf("finals %v while awaited", s.rec.finals)
			}
		}
	} else if err := e.all(&s.rec); err != nil {
		return err
	}
	if h.src != nil && h.src.cancels > 0 {
		return fmt.Errorf("the response was told to stop although nobody cancelled")
	}
	if r.Style == Blocking && e.ended() {
		want, _ := e.end()
		if len(s.blockErr) != 1 || (s.blockErr[0] == nil) != (want == "complete") ||
			s.blockErr[0] != nil && "error "+s.blockErr[0].Error() != want {
			return fmt.Errorf("Block returned %v", s.blockErr)
		}
	}
	// Demand reaches the publisher in full.
	src := h.src
	if r.Kind == RC && r.Mode == Echo {
		src = s.inSrc
	}
	if (r.Style == Manual || r.Style == Chunks) && src != nil && !e.ended() && !sameDemand(src.asked, s.g) {
		return fmt.Errorf("%d items were requested but the publisher was asked for %d", s.g, src.asked)
	}
	return nil
}

// checkIn checks what the handler of a channel sees of the requester's items.
func (s *state) checkIn(in *expectation, h *hop, cancelled bool) error {
	r := s.req
	if h.in == nil {
		return nil
	}
	gone := cancelled || r.Mode == Independent && r.Fail > 0 && len(s.rec.ends)+len(s.rec.finals) > 0
	stop := h.cancels > 0 || r.InCancelAt > 0 && len(h.rec.items) >= r.InCancelAt
	switch {
	case gone:
		// There are no more items then, so the input ends, in whatever way.
		if cancelled && !stop && r.Fail == 0 && len(s.rec.ends) == 0 && len(h.rec.ends) != 1 {
			return fmt.Errorf("%d ends after the requester has cancelled", len(h.rec.ends))
		}
		rec := h.rec
		rec.ends, rec.finals = nil, nil
		return in.prefix(&rec)
	case stop:
		frozen := -1
		if r.InCancelAt > 0 && len(h.rec.items) >= r.InCancelAt {
			frozen = r.InCancelAt
		}
		if err := in.stopped(&h.rec, frozen); err != nil {
			return err
		}
		if len(h.rec.ends) == 0 {
			return s.inSrc.told("requester's source")
		}
		return nil
	}
	if err := in.all(&h.rec); err != nil {
		return err
	}
	if s.inSrc != nil {
		if s.inSrc.cancels > 0 {
			return fmt.Errorf("the requester's source was told to stop although nobody cancelled")
		}
		if (r.InStyle == Manual || r.InStyle == Chunks) && !in.ended() && !sameDemand(s.inSrc.asked, h.g) {
			return fmt.Errorf("%d items were requested but the source was asked for %d", h.g, s.inSrc.asked)
		}
	}
	return nil
}

// sameDemand compares demands. All that do not fit into a frame are unlimited.
func sameDemand(a, b int) bool {
	return min(a, rx.RequestMax) == min(b, rx.RequestMax)
}
