package rs

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"weak"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifharness/e2e"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// A clash is one stream of one endpoint on which everything happens at the same
// moment: the peer's frames arrive, the application asks for items or cancels
// what it reads, and it publishes what it sends. What the endpoint reads is
// called in here, and what it sends out, whoever has made the request.

// Frames of the peer.
const (
	clItem     = iota // of in
	clComplete        // of in
	clError           // of in
	clAsk             // for N of out
	clCancel          // out
	clFrames
)

type clashFrame struct {
	K, N int
}

type clashCase struct {
	Server  bool // the endpoint
	Respond bool // the peer makes the request
	Channel bool
	First   int          // items asked for with the request
	Frames  []clashFrame // of the peer
	Reads   []int        // how many the application asks for; 0 cancels
	Items   int          // of out
	End     int          // of out: 0 none, 1 complete, 2 error
	Early   bool         // nobody waits until the request has been handled
	Reps    int
}

func (c clashCase) hasIn() bool  { return c.Channel || !c.Respond }
func (c clashCase) hasOut() bool { return c.Channel || c.Respond }
func (c clashCase) has(k int) bool {
	return slices.ContainsFunc(c.Frames, func(f clashFrame) bool { return f.K == k })
}
func (c clashCase) dropsIn() bool { return c.hasIn() && slices.Contains(c.Reads, 0) }

// clash is one stream.
type clash struct {
	c  clashCase
	h  *handler.Handler
	id uint32

	mu       sync.Mutex
	in       flux.Flux[payload.Payload]
	got      []string
	ends     []string
	finals   []rx.SignalType
	out      flux.Sink[payload.Payload]
	asked    int // of out's source
	cancels  int // of out's source
	requests int
	sent     []frames.Frame
	begin    func() error // makes the request

	made, serving event // the request has been sent, and out been subscribed to
	stop          chan struct{}
}

// event is something that happens, in a moment or never.
type event struct {
	happened atomic.Bool
	c        chan struct{}
}

func (e *event) set() {
	e.happened.Store(true)
	close(e.c)
}

// wait waits for it until stop.
func (e *event) wait(stop chan struct{}) bool {
	for range 3000 {
		if e.happened.Load() {
			return true
		}
	}
	select {
	case <-e.c:
		return true
	case <-stop:
		return false
	}
}

func (s *clash) locked(f func()) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f()
}

// source publishes out.
func (s *clash) source() flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		s.locked(func() { s.out = sink })
		defer s.serving.set()
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) { s.locked(func() { s.asked += n }) },
			Cancel:  func() { s.locked(func() { s.cancels++ }) },
		})
	})
}

// read subscribes to in.
func (s *clash) read(in flux.Flux[payload.Payload]) {
	s.locked(func() { s.in = in })
	in.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext:     func(p payload.Payload) { s.locked(func() { s.got = append(s.got, string(p.Data())) }) },
		OnComplete: func() { s.locked(func() { s.ends = append(s.ends, "complete") }) },
		OnError:    func(err error) { s.locked(func() { s.ends = append(s.ends, "error "+err.Error()) }) },
		Finally:    func(sig rx.SignalType) { s.locked(func() { s.finals = append(s.finals, sig) }) },
		NoRequest:  true,
	})
}

// clashWorld is the endpoint's application.
type clashWorld struct {
	mu  sync.Mutex
	now *clash
}

func (w *clashWorld) current() *clash {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.now
}

func (w *clashWorld) RR(side, op int, ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	return mono.Just(payload.Payload(payload.New(nil)))
}
func (w *clashWorld) FNF(side, op int, ctx context.Context, p payload.Payload) {}
func (w *clashWorld) RS(side, op int, ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	return w.current().source()
}
func (w *clashWorld) RC(side, op int, ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	s := w.current()
	s.read(in)
	return s.source()
}

func clashItem(k int) string { return fmt.Sprint("item ", k) }

func runClash(ctx *pbt.Ctx, c clashCase) error {
	ctx.NonTrivialIf(len(c.Frames) > 0 && (len(c.Reads) > 0 || c.Items > 0 || c.End > 0))
	ctx.Label([]string{"requester", "responder"}[b2i(c.Respond)] + []string{" of a stream", " of a channel"}[b2i(c.Channel)])
	if ctx.Replay {
		c.Reps *= 25
	}
	return pbt.Bubble(ctx.T, func() error { return clashes(c) })
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func clashes(c clashCase) error {
	register()
	w := &clashWorld{}
	mode, id := handler.ClientMode, uint32(2) // of the peer's first stream
	if c.Server {
		mode, id = handler.ServerMode, 1
	}
	h := handler.New(context.WithValue(context.Background(), endKey{}, end{w, 1}), mode)
	h.SetFrameSender(func(f frames.Frame) error {
		s := w.current()
		s.mu.Lock()
		defer s.mu.Unlock()
		if _, ok := f.(*frames.RequestPayload); ok && !c.Respond {
			if s.requests++; s.requests == 1 {
				s.id = f.GetStreamID()
				s.made.set()
			}
		}
		if f.GetStreamID() == s.id {
			s.sent = append(s.sent, f)
		}
		return nil
	})
	kind := e2e.RS
	if c.Channel {
		kind = e2e.RC
	}
	var kept []weak.Pointer[clash]
	for rep := range c.Reps {
		s := &clash{c: c, h: h, stop: make(chan struct{})}
		s.made.c, s.serving.c = make(chan struct{}), make(chan struct{})
		w.mu.Lock()
		w.now = s
		w.mu.Unlock()
		meta := make([]byte, 8)
		binary.BigEndian.PutUint32(meta, index(kind, 0))
		if c.Respond {
			s.id = id
			id += 2
			t := frames.FrameTypeRequestStream
			if c.Channel {
				t = frames.FrameTypeRequestChannel
			}
			s.begin = func() error {
				return h.HandleFrame(&frames.RequestPayload{FrameType: t, StreamID: s.id, Metadata: meta, InitialN: uint32(c.First)})
			}
		} else {
			p := payload.New(nil, meta)
			if c.Channel {
				s.read(h.RequestChannel(context.Background(), p, s.source()))
			} else {
				s.read(h.RequestStream(context.Background(), p))
			}
			s.begin = func() error {
				s.in.Subscription().Request(c.First)
				return nil
			}
		}
		if !c.Early {
			if err := s.begin(); err != nil {
				return err
			}
			pbt.Settle()
			if s.in == nil && c.hasIn() || s.out == nil && c.hasOut() || !c.Respond && s.requests != 1 {
				return fmt.Errorf("the request has not been made, or not arrived")
			}
		}
		if err := s.run(rep); err != nil {
			return fmt.Errorf("repetition %d: %w", rep, err)
		}
		if err := s.check(); err != nil {
			return fmt.Errorf("repetition %d: %w; sent %v, got %q, ends %q %v", rep, err, s.list(), s.got, s.ends, s.finals)
		}
		if kept = append(kept, weak.Make(s)); rep == c.Reps-1 {
			kept = kept[:rep-1]
		}
	}
	w.mu.Lock()
	w.now = nil
	w.mu.Unlock()
	if c.over() {
		left := 0
		for range 3 {
			runtime.GC()
		}
		for _, k := range kept {
			if k.Value() != nil {
				left++
			}
		}
		if left > 0 { // of all but the last two
			return fmt.Errorf("%d of %d streams that have ended are kept", left, len(kept))
		}
	}
	runtime.KeepAlive(h)
	return nil
}

// over says whether the stream is over when everything has happened.
func (c clashCase) over() bool {
	in := !c.hasIn() || c.has(clComplete) || c.has(clError) || c.dropsIn()
	out := !c.hasOut() || c.End > 0 || c.has(clCancel)
	if c.Respond {
		return in && out || c.has(clCancel) || c.End == 2
	}
	return in && out || c.has(clError) || c.dropsIn() && !c.has(clComplete)
}

// pause lets some nanoseconds or microseconds pass, which differ in every
// repetition.
func pause(rep, who int) {
	x := uint32(rep*3+who) * 2654435761
	var n atomic.Int32
	for range (x >> 17) >> (x >> 8 & 15) {
		n.Load()
	}
}

// run has everything happen.
func (s *clash) run(rep int) error {
	var failed error
	gate := pbt.NewGate(rep)
	if s.c.Early && !s.c.Respond {
		gate.Go(func() { s.begin() })
	}
	gate.Go(func() {
		k := 0
		switch {
		case !s.c.Early:
		case s.c.Respond:
			if failed = s.begin(); failed != nil {
				return
			}
			pause(rep, 1)
		case !s.made.wait(s.stop):
			return
		}
		for _, f := range s.c.Frames {
			var frame frames.Frame
			switch f.K {
			case clItem:
				frame = &frames.Payload{StreamID: s.id, Next: true, Data: []byte(clashItem(k))}
				k++
			case clComplete:
				frame = &frames.Payload{StreamID: s.id, Complete: true}
			case clError:
				frame = &frames.Error{StreamID: s.id, Data: "theirs"}
			case clAsk:
				frame = &frames.RequestN{StreamID: s.id, N: uint32(f.N)}
			default:
				frame = &frames.Cancel{StreamID: s.id}
			}
			if err := s.h.HandleFrame(frame); err != nil {
				failed = err
			}
		}
	})
	if s.c.hasIn() && len(s.c.Reads) > 0 {
		gate.Go(func() {
			if s.c.Respond && !s.serving.wait(s.stop) {
				return
			}
			s.mu.Lock()
			in := s.in
			s.mu.Unlock()
			if s.c.Early {
				pause(rep, 2)
			}
			for _, n := range s.c.Reads {
				if n == 0 {
					in.Subscription().Cancel()
				} else {
					in.Subscription().Request(n)
				}
			}
		})
	}
	if s.c.hasOut() && s.c.Items+s.c.End > 0 {
		gate.Go(func() {
			if !s.serving.wait(s.stop) {
				return
			}
			s.mu.Lock()
			out := s.out
			s.mu.Unlock()
			if s.c.Early {
				pause(rep, 3)
			}
			for k := range s.c.Items {
				out.Next(payload.New([]byte(clashItem(k))))
			}
			switch s.c.End {
			case 1:
				out.Complete()
			case 2:
				out.Error(errors.New("ours"))
			}
		})
	}
	gate.Open()
	pbt.Settle()
	close(s.stop)
	gate.Wait()
	pbt.Settle()
	return failed
}

func (s *clash) list() (out []string) {
	for _, f := range s.sent {
		switch f := f.(type) {
		case *frames.RequestPayload:
			out = append(out, "request")
		case *frames.Payload:
			out = append(out, fmt.Sprintf("%q %v", f.Data, f.Complete))
		case *frames.Error:
			out = append(out, "error "+f.Data)
		case *frames.RequestN:
			out = append(out, fmt.Sprint("ask ", f.N))
		case *frames.Cancel:
			out = append(out, "cancel")
		}
	}
	return out
}

// check checks what has happened.
func (s *clash) check() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := s.c
	// What was sent.
	items, asks, cancels, first := 0, 0, 0, 0
	var terms []string
	for _, f := range s.sent {
		switch f := f.(type) {
		case *frames.Payload:
			if f.Next {
				if len(terms) > 0 {
					return fmt.Errorf("an item was sent after %q", terms[0])
				}
				if string(f.Data) != clashItem(items) {
					return fmt.Errorf("item %d was sent as %q", items, f.Data)
				}
				items++
			}
			if f.Complete {
				terms = append(terms, "complete")
			}
		case *frames.Error:
			terms = append(terms, "error "+f.Data)
		case *frames.RequestPayload:
			first += int(f.InitialN)
		case *frames.RequestN:
			asks += int(f.N)
		case *frames.Cancel:
			cancels++
		}
	}
	if c.Early && !c.Respond && s.requests == 0 && c.dropsIn() {
		if len(s.sent) > 0 || len(s.got) > 0 || len(s.ends) > 0 || len(s.finals) != 1 || s.cancels > 0 {
			return fmt.Errorf("the request was cancelled before it was made")
		}
		return nil
	}
	if !c.Respond && s.requests != 1 {
		return fmt.Errorf("the request was made %d times", s.requests)
	}
	// Out is stopped by the peer, or ends with a stream that fails or, when
	// this end has requested it, is cancelled.
	stopped := c.has(clCancel) || !c.Respond && (c.has(clError) || slices.Contains(s.finals, rx.SignalCancel))
	end := []string{"", "complete", "error ours"}[c.End]
	switch {
	case !c.hasOut():
		if len(terms)+items > 0 {
			return fmt.Errorf("something was sent")
		}
	case !stopped && (items != c.Items || c.End > 0 && (len(terms) != 1 || terms[0] != end) || c.End == 0 && len(terms) > 0):
		return fmt.Errorf("%d of %d items and %q were sent, want all and %q", items, c.Items, terms, end)
	case !stopped && s.cancels > 0:
		return fmt.Errorf("the source was cancelled")
	case stopped && s.out == nil && c.Early && len(terms)+items == 0: // before it began
	case stopped && (len(terms) > 1 || len(terms) == 1 && terms[0] != end):
		return fmt.Errorf("%q were sent, want %q at most", terms, end)
	case stopped && len(terms)+s.cancels != 1:
		return fmt.Errorf("%q were sent, and the source was cancelled %d times", terms, s.cancels)
	}
	want := 0
	if c.Respond {
		want = c.First
	}
	for _, f := range c.Frames {
		if f.K == clAsk {
			want += f.N
		}
	}
	if c.hasOut() && (s.asked > want || s.asked < want && !stopped && c.End == 0) {
		return fmt.Errorf("the peer asked for %d items, the source was asked for %d", want, s.asked)
	}
	// What was read.
	if !c.hasIn() {
		return nil
	}
	var all []string
	end = ""
	for _, f := range c.Frames {
		switch f.K {
		case clItem:
			all = append(all, clashItem(len(all)))
		case clComplete:
			end = "complete"
		case clError:
			end = "error theirs"
		}
	}
	// A requester that cancels ends its own items, too. An application that
	// fails a request is not interested in them any more.
	killed := c.Respond && (c.has(clCancel) || c.End == 2)
	if len(s.got) > len(all) || !slices.Equal(s.got, all[:len(s.got)]) || !killed && !c.dropsIn() && len(s.got) != len(all) {
		return fmt.Errorf("%d items were read, want %d in order", len(s.got), len(all))
	}
	if len(s.ends) > 1 || len(s.finals) > 1 {
		return fmt.Errorf("what is read has ended more than once")
	}
	if len(s.ends) == 1 && s.ends[0] != end && !(c.Respond && c.has(clCancel) && s.ends[0] == "complete") {
		return fmt.Errorf("what is read has ended with %q, want %q", s.ends[0], end)
	}
	if len(s.ends) == 1 && (len(s.finals) != 1 || s.finals[0] == rx.SignalCancel) {
		return fmt.Errorf("what is read has ended and been cancelled")
	}
	if c.Respond && s.in == nil && c.Early && c.has(clCancel) {
		return nil
	}
	if (c.dropsIn() || end != "" && !killed || c.Respond && c.has(clCancel) && c.End != 2) && len(s.finals) != 1 {
		return fmt.Errorf("what is read has not ended")
	}
	want = 0
	for _, n := range c.Reads {
		want += n
	}
	if !c.Respond {
		want += c.First
		asks += first
	}
	free := end == "" && !killed
	if asks > want || free && !c.dropsIn() && asks != want {
		return fmt.Errorf("the application asked for %d more items, the peer was asked for %d", want, asks)
	}
	switch {
	case cancels > 1 || cancels == 1 && !c.dropsIn():
		return fmt.Errorf("the peer was told %d times that the application has cancelled", cancels)
	case cancels == 0 && c.dropsIn() && free:
		return fmt.Errorf("the peer was not told that the application has cancelled")
	}
	return nil
}

func genClash(t *rapid.T) clashCase {
	c := clashCase{
		Server:  rapid.Bool().Draw(t, "server"),
		Respond: rapid.Bool().Draw(t, "respond"),
		Channel: rapid.IntRange(0, 2).Draw(t, "channel") > 0,
		First:   rapid.IntRange(1, 3).Draw(t, "first"),
		Items:   rapid.IntRange(0, 3).Draw(t, "items"),
		End:     rapid.IntRange(0, 2).Draw(t, "end"),
		Reps:    40,
	}
	ended, cancelled := false, false
	c.Early = rapid.IntRange(0, 2).Draw(t, "early") == 0
	// Often little happens, and all of it at the very same moment.
	most := 5
	if rapid.Bool().Draw(t, "tight") {
		most = 1
		c.Items = min(c.Items, 1)
		c.Reps = 120
	}
	for range rapid.IntRange(0, most).Draw(t, "frames") {
		k := rapid.IntRange(0, clFrames-1).Draw(t, "frame")
		switch {
		case k <= clError && (ended || !c.hasIn()), k >= clAsk && (cancelled || !c.hasOut()), cancelled && c.Respond,
			// Nobody has asked for items.
			k == clItem && c.Early && c.Respond:
			continue
		}
		ended = ended || k == clComplete || k == clError
		cancelled = cancelled || k == clCancel
		f := clashFrame{K: k}
		if k == clAsk {
			f.N = rapid.IntRange(1, 3).Draw(t, "n")
		}
		c.Frames = append(c.Frames, f)
		if k == clError && !c.Respond {
			break // the stream is over
		}
	}
	for range rapid.IntRange(0, min(most, 3)).Draw(t, "reads") {
		n := rapid.IntRange(0, 3).Draw(t, "read")
		c.Reads = append(c.Reads, n)
		if n == 0 {
			break
		}
	}
	return c
}
