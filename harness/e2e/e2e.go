// Package e2e drives two endpoints that can call each other and compares what
// every handler and every caller sees with a model of the requests.
package e2e

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// Kinds of requests.
const (
	RR = iota
	FNF
	RS
	RC
)

var kindNames = []string{"request/response", "fire-and-forget", "stream", "channel"}

// Sources.
const (
	SrcDemand = iota // emits within Request
	SrcAsync         // emits from a goroutine of its own
	SrcSlice         // FromSlice (when it does not fail), Just
)

// Ways of asking for items.
const (
	Unlimited = iota
	Chunks    // OnRequest asks for Chunk items each time
	Manual    // only the case asks
	Blocking  // Block
	Awaited   // Async and Notify, nothing looked at
)

// Modes of a channel handler.
const (
	Echo        = iota // every item goes back
	Collect            // one item with everything once the requester's items end
	Independent        // items of its own
)

// Req is one request.
type Req struct {
	From, Kind, Op int // Op 3 and more do not exist
	Short          int // metadata cut to Short-1 bytes
	Extra, Data    pbt.Blob
	Relay          bool // the handler asks the other end in turn
	Ask            int  // the handler (1), its items (2) or both wait for an answer from the other end

	Src      int
	Items    []int // sizes
	Fail     int   // ends with an error
	Hold     bool  // emits only once released
	Eager    bool  // ends without being asked if there are no items
	Mapped   bool
	Style    int
	Chunk    int
	CancelAt int  // cancel within the n-th item's callback
	Too      bool // awaited as well as subscribed to
	Slow     bool // the response's source takes its time to start
	InSlow   bool // so does that of the channel's input

	Mode       int
	InSrc      int
	InItems    []int
	InFail     int
	InHold     bool
	InEager    bool
	InStyle    int
	InChunk    int
	InCancelAt int
}

// Kinds of operations.
const (
	OpStart = iota
	OpRequest
	OpRelease
	OpCancel
	OpInRequest
	OpInRelease
	OpInCancel
)

// Op is one step of a case.
type Op struct {
	K, I, N int
	Settle  bool
}

var failures = []string{"boom", "", "ünïcode ✓ \x00", strings.Repeat("long ", 700)}

const inSalt = 0x55

// itemData and itemMeta are the contents of item j of request id.
func itemData(id, salt, j, n int) []byte {
	b := make([]byte, n)
	for k := range b {
		b[k] = byte(id*31 + salt + j*7 + k + k>>8)
	}
	return b
}

func itemMeta(id, salt, j, n int) []byte {
	if (n+j)%3 == 0 {
		return nil
	}
	return itemData(id, salt^0x33, j, (n+j)%5+1)
}

func payloads(id, salt int, sizes []int) []payload.Payload {
	out := make([]payload.Payload, len(sizes))
	for j, n := range sizes {
		out[j] = payload.New(itemData(id, salt, j, n), itemMeta(id, salt, j, n))
	}
	return out
}

func failure(k int) error {
	if k == 0 {
		return nil
	}
	return errors.New(failures[(k-1)%len(failures)])
}

// World is one pair of endpoints.
type World struct {
	mu      sync.Mutex
	reqs    []*state
	errs    []error
	Callers [2]invoke.Caller
	Ctx     context.Context
	// Index tells the index an operation of the other side is called under.
	Index func(from, kind, op int) uint32
	// Parent tells the parent stream ID to put into the metadata.
	Parent func(ctx context.Context) uint32
	// Enter runs what a side does of its own accord.
	Enter [2]func(func())
	// Bare tells whether handlers get the metadata without its header.
	Bare func(side, kind int) bool
	// Settled is called when nothing is on its way.
	Settled func()
	// Step is called between operations that do not wait for each other.
	Step func()
	stop chan struct{}
}

type hop struct {
	invoked int
	src     *source
	rec     recorder // of the channel's inbound items
	g       int      // asked of them
	in      flux.Flux[payload.Payload]
	inReady chan struct{}
	cancels int // InCancel done
}

type recorder struct {
	items  []payload.Payload
	ends   []string
	finals []rx.SignalType
	late   bool
}

type state struct {
	id   int
	req  Req
	meta []byte
	data []byte

	started    bool
	subscribed chan struct{}
	g          int
	rec        recorder
	f          flux.Flux[payload.Payload]
	inSrc      *source
	released   bool
	inReleased bool
	cancels    int // Cancel calls that have returned
	returned   int // items when the first of them had, -1 before
	frozen     int // items when it was cancelled in a settled state, -1 otherwise
	hops       [2]hop
	blockErr   []error
	notified   []rx.SignalType
}

// NewWorld creates the world for the requests.
func NewWorld(reqs []Req) *World {
	w := &World{Ctx: context.Background(), stop: make(chan struct{})}
	for _, r := range reqs {
		w.add(r)
	}
	return w
}

func (w *World) add(r Req) *state {
	s := &state{id: len(w.reqs), req: r, subscribed: make(chan struct{}), frozen: -1, returned: -1}
	for k := range s.hops {
		s.hops[k].inReady = make(chan struct{})
	}
	w.reqs = append(w.reqs, s)
	return s
}

func (w *World) errf(format string, args ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.errs) < 5 {
		w.errs = append(w.errs, fmt.Errorf(format, args...))
	}
}

func (w *World) enter(side int, f func()) {
	if e := w.Enter[side]; e != nil {
		e(f)
	} else {
		f()
	}
}

// source publishes items as far as it is asked to.
type source struct {
	w     *World
	side  int
	name  string
	items []payload.Payload
	err   error
	eager bool
	async bool
	ask   bool
	slow  bool
	limit func() int // how many may have been asked for

	sink     flux.Sink[payload.Payload]
	held     bool
	n        int
	next     int
	emitting bool
	asked    int
	subs     int
	cancels  int
	finished bool
}

func (s *source) flux() flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		s.w.mu.Lock()
		s.subs++
		s.sink = sink
		s.w.mu.Unlock()
		s.pause()
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				s.w.mu.Lock()
				s.n = Add(s.n, n)
				s.asked = Add(s.asked, n)
				s.w.mu.Unlock()
				s.drain()
			},
			Cancel: func() {
				s.w.mu.Lock()
				s.cancels++
				s.w.mu.Unlock()
			},
		})
		s.pause()
		if s.eager {
			s.drain()
		}
	})
}

// Yield lets others run for a while. It does not sleep: whoever waits for a
// lock keeps the bubble's time from going on.
func Yield(n int) {
	for range n {
		runtime.Gosched()
	}
}

func (s *source) pause() {
	if s.slow {
		Yield(200)
	}
}

func (s *source) release() {
	s.w.mu.Lock()
	s.held = false
	s.w.mu.Unlock()
	s.drain()
}

func (s *source) drain() {
	if s.async {
		go s.w.enter(s.side, s.emit)
	} else {
		s.emit()
	}
}

func (s *source) emit() {
	s.w.mu.Lock()
	if s.emitting || s.held || s.sink == nil {
		s.w.mu.Unlock()
		return
	}
	s.emitting = true
	for s.n > 0 && s.next < len(s.items) && s.cancels == 0 {
		s.n--
		item := s.items[s.next]
		s.next++
		next := s.next
		s.w.mu.Unlock()
		if s.ask {
			s.w.ask(s.side)
		}
		if limit := s.limit(); next > limit {
			s.w.errf("%s: item %d was asked for when only %d had been requested", s.name, next, limit)
		}
		s.sink.Next(item)
		s.w.mu.Lock()
	}
	end := !s.finished && s.next == len(s.items) && s.cancels == 0 &&
		(s.next > 0 || s.asked > 0 || s.eager)
	if end {
		s.finished = true
	}
	s.emitting = false
	s.w.mu.Unlock()
	if end {
		if s.err != nil {
			s.sink.Error(s.err)
		} else {
			s.sink.Complete()
		}
	}
}

// Endpoint handlers.

func (w *World) find(side, kind, op int, p payload.Payload) (*state, *hop, bool) {
	d := p.Data()
	if len(d) < 4 {
		w.errf("a %s handler got %d bytes that nobody sent", kindNames[kind], len(d))
		return nil, nil, false
	}
	id := binary.BigEndian.Uint32(d)
	second := id&0x80000000 != 0
	id &^= 0x80000000
	w.mu.Lock()
	var s *state
	if int(id) < len(w.reqs) {
		s = w.reqs[id]
	}
	w.mu.Unlock()
	if s == nil {
		w.errf("a %s handler got data that nobody sent: %s", kindNames[kind], pbt.Trunc(d))
		return nil, nil, false
	}
	k, to := 0, 1-s.req.From
	if second {
		k, to = 1, s.req.From
	}
	if s.req.Kind != kind {
		w.errf("request %d: a %s reached the handler of a %s", s.id, kindNames[s.req.Kind], kindNames[kind])
	}
	if s.req.Op != op {
		w.errf("request %d: operation %d reached the handler of %d", s.id, s.req.Op, op)
	}
	if side != to {
		w.errf("request %d: ran at side %d, not %d", s.id, side, to)
	}
	if !bytes.Equal(d[4:], s.data[4:]) {
		w.errf("request %d: handler data %v", s.id, pbt.EqBytes("", d[4:], s.data[4:]))
	}
	index := s.meta[:4]
	if second {
		index = binary.BigEndian.AppendUint32(nil, w.Index(1-s.req.From, kind, s.req.Op))
	}
	bare := w.Bare(side, kind)
	if m := p.Metadata(); bare && !bytes.Equal(m, s.meta[8:]) ||
		!bare && !(len(m) == len(s.meta) && bytes.Equal(m[:4], index) && bytes.Equal(m[8:], s.meta[8:])) {
		w.errf("request %d: handler metadata %s, sent %s", s.id, pbt.Trunc(m), pbt.Trunc(s.meta))
	}
	w.mu.Lock()
	h := &s.hops[k]
	h.invoked++
	n := h.invoked
	w.mu.Unlock()
	if n > 1 {
		w.errf("request %d: the handler ran %d times", s.id, n)
		return nil, nil, false
	}
	if k == 0 && s.req.Ask&1 != 0 {
		w.ask(side)
	}
	return s, h, s.req.Relay && k == 0
}

// ask makes a request and waits for the answer.
func (w *World) ask(side int) {
	w.mu.Lock()
	s := w.add(Req{From: side, Kind: RR, Data: pbt.Blob{N: 5}, Items: []int{5}, Style: Blocking})
	s.started = true
	w.mu.Unlock()
	w.start(s)
}

// relayed is the payload of the second hop.
func (w *World) relayed(ctx context.Context, s *state) payload.Payload {
	data := bytes.Clone(s.data)
	data[0] |= 0x80
	meta := bytes.Clone(s.meta)
	binary.BigEndian.PutUint32(meta, w.Index(1-s.req.From, s.req.Kind, s.req.Op))
	if w.Parent != nil {
		binary.BigEndian.PutUint32(meta[4:], w.Parent(ctx))
	}
	return payload.New(data, meta)
}

var errHarness = errors.New("not a request of this case")

// RR handles a request/response.
func (w *World) RR(side, op int, ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	s, h, relay := w.find(side, RR, op, p)
	if s == nil {
		return mono.Error[payload.Payload](errHarness)
	}
	if relay {
		return w.Callers[side].RequestResponse(ctx, w.relayed(ctx, s))
	}
	r := s.req
	value := payloads(s.id, 0, r.Items[:1])[0]
	err := failure(r.Fail)
	if r.Src == SrcSlice && !r.Hold {
		if err != nil {
			return mono.Error[payload.Payload](err)
		}
		return mono.Just[payload.Payload](value)
	}
	src := &source{w: w, held: r.Hold}
	answer := func(sink mono.Sink[payload.Payload]) {
		w.mu.Lock()
		src.finished = true
		w.mu.Unlock()
		if err != nil {
			sink.Error(err)
		} else {
			sink.Success(value)
		}
	}
	var m mono.Mono[payload.Payload] = mono.Create(func(sink mono.Sink[payload.Payload]) {
		w.mu.Lock()
		src.subs++
		held := src.held && !s.released
		if held {
			src.sink = monoSink{sink, answer}
		}
		h.src = src
		w.mu.Unlock()
		switch {
		case held:
		case r.Src == SrcAsync:
			go w.enter(side, func() { answer(sink) })
		default:
			answer(sink)
		}
	})
	if r.Mapped {
		m = mono.Map(m, func(p payload.Payload) (payload.Payload, error) { return p, nil })
	}
	return m
}

// monoSink lets a held mono be released like a flux.
type monoSink struct {
	mono.Sink[payload.Payload]
	answer func(mono.Sink[payload.Payload])
}

func (m monoSink) Next(payload.Payload)         {}
func (m monoSink) Complete()                    { m.answer(m.Sink) }
func (m monoSink) OnSubscribe(flux.OnSubscribe) {}

// FNF handles a fire-and-forget.
func (w *World) FNF(side, op int, ctx context.Context, p payload.Payload) {
	s, _, relay := w.find(side, FNF, op, p)
	if s != nil && relay {
		w.Callers[side].FireAndForget(ctx, w.relayed(ctx, s))
	}
}

func (w *World) response(s *state, h *hop, r Req) flux.Flux[payload.Payload] {
	items := payloads(s.id, 0, r.Items)
	if r.Src == SrcSlice && r.Fail == 0 && !r.Hold {
		return flux.FromSlice(items)
	}
	src := &source{
		w: w, side: s.lastSide(), name: fmt.Sprintf("request %d: response", s.id),
		items: items, err: failure(r.Fail),
		eager: r.Eager && len(items) == 0, async: r.Src == SrcAsync,
		ask: r.Ask&2 != 0, slow: r.Slow,
		limit: func() int { w.mu.Lock(); defer w.mu.Unlock(); return s.g },
	}
	w.mu.Lock()
	src.held = r.Hold && !s.released
	h.src = src
	w.mu.Unlock()
	if r.Src == SrcSlice && r.Fail != 0 && len(items) == 0 && !r.Hold {
		src.finished = true
		return flux.Error[payload.Payload](src.err)
	}
	return src.flux()
}

func mapped(r Req, f flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	if r.Mapped {
		return flux.Map(f, func(p payload.Payload) (payload.Payload, error) { return p, nil })
	}
	return f
}

// RS handles a stream.
func (w *World) RS(side, op int, ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	s, h, relay := w.find(side, RS, op, p)
	if s == nil {
		return flux.Error[payload.Payload](errHarness)
	}
	if relay {
		return mapped(s.req, w.Callers[side].RequestStream(ctx, w.relayed(ctx, s)))
	}
	return mapped(s.req, w.response(s, h, s.req))
}

// RC handles a channel.
func (w *World) RC(side, op int, ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	s, h, relay := w.find(side, RC, op, p)
	if s == nil {
		return flux.Error[payload.Payload](errHarness)
	}
	if relay {
		return mapped(s.req, w.Callers[side].RequestChannel(ctx, w.relayed(ctx, s), in))
	}
	r := s.req
	switch r.Mode {
	case Echo:
		return flux.Map(in, func(p payload.Payload) (payload.Payload, error) {
			w.mu.Lock()
			h.rec.items = append(h.rec.items, p)
			w.mu.Unlock()
			return p, nil
		})
	case Collect:
		src := &source{
			w: w, side: side, name: fmt.Sprintf("request %d: answer", s.id), held: true,
			limit: func() int { w.mu.Lock(); defer w.mu.Unlock(); return s.g },
			async: r.Src == SrcAsync,
		}
		w.mu.Lock()
		h.src = src
		w.mu.Unlock()
		w.subscribeIn(s, h, in, func(err error) {
			w.mu.Lock()
			if err != nil {
				src.err = err
				src.eager = true
			} else {
				src.items = []payload.Payload{collected(h.rec.items)}
			}
			w.mu.Unlock()
			src.release()
		})
		return mapped(r, src.flux())
	default:
		f := mapped(r, w.response(s, h, r))
		w.subscribeIn(s, h, in, nil)
		return f
	}
}

func collected(items []payload.Payload) payload.Payload {
	var all []byte
	for _, p := range items {
		all = append(all, p.Data()...)
	}
	return payload.New(all)
}

func (w *World) subscribeIn(s *state, h *hop, in flux.Flux[payload.Payload], done func(error)) {
	r := s.req
	w.mu.Lock()
	h.in = in
	w.mu.Unlock()
	sub := w.recording(&h.rec, fmt.Sprintf("request %d: channel input", s.id))
	onNext, onComplete, onError := sub.OnNext, sub.OnComplete, sub.OnError
	sub.OnNext = func(p payload.Payload) {
		onNext(p)
		w.mu.Lock()
		cancel := r.InCancelAt == len(h.rec.items)
		w.mu.Unlock()
		if cancel {
			in.Subscription().Cancel()
		}
	}
	sub.OnComplete = func() {
		onComplete()
		if done != nil {
			done(nil)
		}
	}
	sub.OnError = func(err error) {
		onError(err)
		if done != nil {
			done(err)
		}
	}
	w.demand(&sub, r.InStyle, r.InChunk, &h.g)
	in.Subscribe(sub)
	close(h.inReady)
}

// Add adds demands without overflowing an int.
func Add(a, b int) int {
	if b > math.MaxInt-a {
		return math.MaxInt
	}
	return a + b
}

func (w *World) demand(sub *flux.Subscribe[payload.Payload], style, chunk int, g *int) {
	switch style {
	case Chunks:
		sub.OnRequest = func(s rx.Subscription) {
			w.mu.Lock()
			*g = Add(*g, chunk)
			w.mu.Unlock()
			s.Request(chunk)
		}
	case Manual:
		sub.NoRequest = true
	default:
		w.mu.Lock()
		*g = max(*g, 1<<30)
		w.mu.Unlock()
	}
}

func (w *World) recording(rec *recorder, name string) flux.Subscribe[payload.Payload] {
	end := func(e string) {
		w.mu.Lock()
		rec.ends = append(rec.ends, e)
		w.mu.Unlock()
	}
	return flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			w.mu.Lock()
			if len(rec.ends) > 0 {
				rec.late = true
			}
			rec.items = append(rec.items, p)
			w.mu.Unlock()
		},
		OnComplete: func() { end("complete") },
		OnError:    func(err error) { end("error " + err.Error()) },
		Finally: func(sig rx.SignalType) {
			w.mu.Lock()
			rec.finals = append(rec.finals, sig)
			w.mu.Unlock()
		},
	}
}

// start makes the request.
func (w *World) start(s *state) {
	r := s.req
	s.data = make([]byte, 4, 4+r.Data.N)
	binary.BigEndian.PutUint32(s.data, uint32(s.id))
	s.data = append(s.data, r.Data.Bytes()...)
	s.meta = make([]byte, 8)
	binary.BigEndian.PutUint32(s.meta, w.Index(r.From, r.Kind, r.Op))
	s.meta = append(s.meta, r.Extra.Bytes()...)
	sent := s.meta
	if r.Short > 0 {
		sent = s.meta[:r.Short-1]
	}
	// The library gets copies: nothing may depend on what happens to them.
	p := payload.New(bytes.Clone(s.data), bytes.Clone(sent))
	c := w.Callers[r.From]
	switch r.Kind {
	case FNF:
		c.FireAndForget(w.Ctx, p)
		close(s.subscribed)
	case RR:
		m := c.RequestResponse(w.Ctx, p)
		if r.Style == Blocking {
			close(s.subscribed)
			v, err := m.Block()
			w.monoEnd(s, v, err)
			return
		}
		if r.Style == Awaited {
			m.Async()
			close(s.subscribed)
			m.Notify(func(sig rx.SignalType) {
				v, err := m.Get()
				w.monoEnd(s, v, err)
				if want := signal(err); sig != want {
					w.errf("request %d: notified of %v after %v", s.id, sig, err)
				}
			})
			return
		}
		m.Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) {
				w.mu.Lock()
				s.rec.items = append(s.rec.items, p)
				s.rec.ends = append(s.rec.ends, "complete")
				w.mu.Unlock()
			},
			OnError: func(err error) {
				w.mu.Lock()
				s.rec.ends = append(s.rec.ends, "error "+err.Error())
				w.mu.Unlock()
			},
			Finally: func(sig rx.SignalType) {
				w.mu.Lock()
				s.rec.finals = append(s.rec.finals, sig)
				w.mu.Unlock()
			},
		})
		if r.Too {
			m.Async()
			m.Notify(w.too(s))
		}
		close(s.subscribed)
	default:
		var f flux.Flux[payload.Payload]
		if r.Kind == RS {
			f = c.RequestStream(w.Ctx, p)
		} else {
			f = c.RequestChannel(w.Ctx, p, w.input(s))
		}
		s.f = f
		if r.Style == Awaited {
			w.mu.Lock()
			s.g = 1 << 30
			w.mu.Unlock()
			f.Async()
			close(s.subscribed)
			f.Notify(func(sig rx.SignalType) {
				w.mu.Lock()
				s.rec.finals = append(s.rec.finals, sig)
				w.mu.Unlock()
			})
			return
		}
		sub := w.recording(&s.rec, "")
		onNext := sub.OnNext
		sub.OnNext = func(p payload.Payload) {
			onNext(p)
			w.mu.Lock()
			cancel := r.CancelAt == len(s.rec.items)
			if cancel {
				s.frozen = r.CancelAt
				s.cancels++
			}
			w.mu.Unlock()
			if cancel {
				f.Subscription().Cancel()
			}
		}
		w.demand(&sub, r.Style, r.Chunk, &s.g)
		if r.Style == Blocking {
			close(s.subscribed)
			err := f.Block(sub)
			w.mu.Lock()
			s.blockErr = append(s.blockErr, err)
			w.mu.Unlock()
			return
		}
		f.Subscribe(sub)
		if r.Too {
			f.Async()
			f.Notify(w.too(s))
		}
		close(s.subscribed)
	}
}

// too records how a request has ended that was also awaited.
func (w *World) too(s *state) rx.FnFinally {
	return func(sig rx.SignalType) {
		w.mu.Lock()
		s.notified = append(s.notified, sig)
		w.mu.Unlock()
	}
}

func signal(err error) rx.SignalType {
	if err != nil {
		return rx.SignalError
	}
	return rx.SignalComplete
}

func (w *World) monoEnd(s *state, v payload.Payload, err error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	s.rec.finals = append(s.rec.finals, signal(err))
	if err != nil {
		s.rec.ends = append(s.rec.ends, "error "+err.Error())
	} else {
		s.rec.items = append(s.rec.items, v)
		s.rec.ends = append(s.rec.ends, "complete")
	}
}

func (w *World) input(s *state) flux.Flux[payload.Payload] {
	r := s.req
	items := payloads(s.id, inSalt, r.InItems)
	if r.InSrc == SrcSlice && r.InFail == 0 && !r.InHold {
		return flux.FromSlice(items)
	}
	src := &source{
		w: w, side: r.From, name: fmt.Sprintf("request %d: channel input", s.id),
		items: items, err: failure(r.InFail),
		eager: r.InEager && len(items) == 0, async: r.InSrc == SrcAsync, slow: r.InSlow,
	}
	src.limit = func() int {
		w.mu.Lock()
		defer w.mu.Unlock()
		if r.Mode == Echo {
			return s.g
		}
		return s.lastHop().g
	}
	w.mu.Lock()
	src.held = r.InHold && !s.inReleased
	s.inSrc = src
	w.mu.Unlock()
	return src.flux()
}

// lastSide is the side that answers.
func (s *state) lastSide() int {
	if s.req.Relay {
		return s.req.From
	}
	return 1 - s.req.From
}

func (s *state) lastHop() *hop {
	if s.req.Relay {
		return &s.hops[1]
	}
	return &s.hops[0]
}

// do performs one operation. It returns once the operation has.
func (w *World) do(op Op) {
	s := w.reqs[op.I]
	side := s.req.From
	ready := s.subscribed
	switch op.K {
	case OpStart, OpInRelease:
		ready = nil
	case OpRelease:
		side, ready = s.lastSide(), nil
	case OpInRequest, OpInCancel:
		side, ready = s.lastSide(), s.lastHop().inReady
	}
	if ready == nil || w.wait(ready) {
		w.enter(side, func() { w.perform(s, op) })
	}
}

func (w *World) perform(s *state, op Op) {
	switch op.K {
	case OpStart:
		w.start(s)
	case OpRequest:
		w.mu.Lock()
		s.g = Add(s.g, op.N)
		w.mu.Unlock()
		s.f.Subscription().Request(op.N)
	case OpRelease:
		w.mu.Lock()
		s.released = true
		src := s.lastHop().src
		held := src != nil && src.held
		var msink flux.Sink[payload.Payload]
		if held && s.req.Kind == RR {
			src.held = false
			msink = src.sink
		}
		w.mu.Unlock()
		if msink != nil {
			msink.Complete()
		} else if held && s.req.Kind != RR && !(s.req.Kind == RC && s.req.Mode == Collect) {
			src.release()
		}
	case OpCancel:
		s.f.Subscription().Cancel()
		w.mu.Lock()
		s.cancels++
		if s.returned < 0 {
			s.returned = len(s.rec.items)
		}
		w.mu.Unlock()
	case OpInRequest:
		h := s.lastHop()
		w.mu.Lock()
		h.g = Add(h.g, op.N)
		w.mu.Unlock()
		h.in.Subscription().Request(op.N)
	case OpInRelease:
		w.mu.Lock()
		s.inReleased = true
		src := s.inSrc
		w.mu.Unlock()
		if src != nil {
			src.release()
		}
	case OpInCancel:
		h := s.lastHop()
		h.in.Subscription().Cancel()
		w.mu.Lock()
		h.cancels++
		w.mu.Unlock()
	}
}

func (w *World) wait(c chan struct{}) bool {
	select {
	case <-c:
		return true
	case <-w.stop:
		return false
	}
}

// CheckParent checks that a request made while handling another one has the
// context of the first.
func (w *World) CheckParent(ctx context.Context, p payload.Payload, key any) {
	if d := p.Data(); len(d) >= 4 && d[0]&0x80 != 0 && (ctx == nil || ctx.Value(key) == nil) {
		w.errf("request %d: the request made on its behalf does not have its context", binary.BigEndian.Uint32(d)&^0x80000000)
	}
}
