package e2e

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// Sized is a message: bytes of data and metadata.
type Sized struct{ D, M int }

// LimitReq is a request whose messages may be too large for the connection.
type LimitReq struct {
	From   int
	Kind   int
	Data   int
	Meta   int // beside what a request needs
	Items  []Sized
	Err    int // length of the error the response ends with, 0 for none
	In     []Sized
	InErr  int
	Chunks bool // the items are asked for one at a time
	Settle bool
}

// Sizes on the wire, per https://rsocket.io/about/protocol.
const (
	header   = 6
	metaSize = 3
	number   = 4 // initial requests, error code
	reqMeta  = 8
)

func (r LimitReq) size() int {
	n := header + metaSize + reqMeta + r.Meta + r.Data
	if r.Kind == RS || r.Kind == RC {
		n += number
	}
	return n
}

func (s Sized) size() int {
	if s.M > 0 {
		return header + metaSize + s.M + s.D
	}
	return header + s.D
}

func errSize(n int) int { return header + number + n }

// GenLimits draws requests for connections with frames of up to limit bytes.
func GenLimits(t *rapid.T, limit, beyond, most int, sides []int) []LimitReq {
	// length draws a length for what comes with other bytes.
	length := func(least, others int) int {
		switch rapid.IntRange(0, 9).Draw(t, "size") {
		case 0, 1:
			return max(least, limit-others+rapid.IntRange(-3, 0).Draw(t, "below"))
		case 2, 3:
			return max(least, limit-others+rapid.IntRange(1, 3).Draw(t, "above"))
		case 4:
			return max(least, rapid.IntRange(limit-others+1, beyond).Draw(t, "beyond"))
		case 5:
			return rapid.IntRange(least, limit-others).Draw(t, "any")
		}
		return rapid.IntRange(least, least+30).Draw(t, "small")
	}
	item := func() Sized {
		var s Sized
		if rapid.IntRange(0, 4).Draw(t, "meta") == 0 {
			s.M = rapid.IntRange(1, 40).Draw(t, "meta size")
		}
		s.D = length(0, s.size())
		if s.M > 0 && rapid.Bool().Draw(t, "swap") {
			s.D, s.M = s.M, max(1, s.D)
		}
		return s
	}
	var reqs []LimitReq
	for range rapid.IntRange(1, most).Draw(t, "requests") {
		r := LimitReq{
			From:   rapid.SampledFrom(sides).Draw(t, "from"),
			Kind:   rapid.SampledFrom([]int{RR, RR, RS, RS, RC, RC, FNF}).Draw(t, "kind"),
			Chunks: rapid.Bool().Draw(t, "chunks"),
			Settle: rapid.Bool().Draw(t, "settle"),
		}
		if rapid.IntRange(0, 5).Draw(t, "meta") == 0 {
			r.Meta = rapid.IntRange(1, 40).Draw(t, "meta size")
		}
		r.Data = 4 + rapid.IntRange(0, 30).Draw(t, "small")
		if rapid.IntRange(0, 2).Draw(t, "large") == 0 {
			r.Data = 0
			r.Data = length(4, r.size())
			if r.Meta > 0 && rapid.Bool().Draw(t, "swap") {
				r.Data, r.Meta = r.Meta+4, max(1, r.Data-4)
			}
		}
		n := 1
		if r.Kind != RR {
			n = rapid.IntRange(0, 4).Draw(t, "items")
		}
		for range n {
			r.Items = append(r.Items, item())
		}
		if rapid.IntRange(0, 2).Draw(t, "fails") == 0 {
			r.Err = length(1, errSize(0))
		}
		if r.Kind == RC {
			for range rapid.IntRange(0, 4).Draw(t, "in") {
				r.In = append(r.In, item())
			}
			if rapid.IntRange(0, 2).Draw(t, "in fails") == 0 {
				r.InErr = length(1, errSize(0))
			}
		}
		reqs = append(reqs, r)
	}
	return reqs
}

// TooLarge tells how many of the requests have something that does not fit.
func TooLarge(reqs []LimitReq, limit int) (n int) {
	for _, r := range reqs {
		large := r.size() > limit || errSize(r.Err) > limit || errSize(r.InErr) > limit
		for _, s := range append(append([]Sized{}, r.Items...), r.In...) {
			large = large || s.size() > limit
		}
		if large {
			n++
		}
	}
	return n
}

// Limits runs requests over a connection for frames of up to limit bytes.
type Limits struct {
	Callers [2]invoke.Caller
	Index   func(from, kind, op int) uint32
	Enter   [2]func(func())

	limit int
	mu    sync.Mutex
	errs  []error
	reqs  []*limitState
}

type limitState struct {
	LimitReq
	id     int
	calls  int
	items  []payload.Payload
	ends   []string
	inSeen []payload.Payload
	inEnds []string
	out    *limitSource
	in     *limitSource
}

type limitSource struct {
	l         *Limits
	items     []payload.Payload
	err       error
	sink      flux.Sink[payload.Payload]
	subs      int
	credit    int
	next      int
	emitting  bool
	finished  bool
	cancelled int
}

// fill is n bytes that differ from others.
func fill(n, id, salt, j int) []byte {
	if n == 0 {
		return nil
	}
	b := make([]byte, n)
	k := copy(b, []byte{byte(id), byte(salt), byte(j), 0x5a, byte(n), byte(n >> 8), byte(n >> 16)})
	for k < n {
		k += copy(b[k:], b[:k])
	}
	return b
}

func (s Sized) payload(id, salt, j int) payload.Payload {
	if s.M == 0 {
		return payload.New(fill(s.D, id, salt, j))
	}
	return payload.New(fill(s.D, id, salt, j), fill(s.M, id, salt+100, j))
}

func text(n int) string { return strings.Repeat("e", n) }

// NewLimits creates the state for a run.
func NewLimits(reqs []LimitReq, limit int) *Limits {
	l := &Limits{limit: limit}
	for _, r := range reqs {
		l.add(r)
	}
	return l
}

func (l *Limits) add(r LimitReq) *limitState {
	s := &limitState{LimitReq: r, id: len(l.reqs), out: &limitSource{l: l}, in: &limitSource{l: l}}
	for j, i := range r.Items {
		s.out.items = append(s.out.items, i.payload(s.id, 1, j))
	}
	for j, i := range r.In {
		s.in.items = append(s.in.items, i.payload(s.id, 2, j))
	}
	if r.Err > 0 {
		s.out.err = errors.New(text(r.Err))
	}
	if r.InErr > 0 {
		s.in.err = errors.New(text(r.InErr))
	}
	l.mu.Lock()
	l.reqs = append(l.reqs, s)
	l.mu.Unlock()
	return s
}

func (l *Limits) errf(format string, args ...any) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.errs = append(l.errs, fmt.Errorf(format, args...))
}

func (l *Limits) enter(side int, f func()) {
	if e := l.Enter[side]; e != nil {
		e(f)
	} else {
		f()
	}
}

func (s *limitSource) flux() flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		s.l.mu.Lock()
		s.subs++
		s.sink = sink
		s.l.mu.Unlock()
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				s.l.mu.Lock()
				s.credit = Add(s.credit, n)
				s.l.mu.Unlock()
				s.emit()
			},
			Cancel: func() {
				s.l.mu.Lock()
				s.cancelled++
				s.l.mu.Unlock()
			},
		})
	})
}

func (s *limitSource) emit() {
	s.l.mu.Lock()
	defer s.l.mu.Unlock()
	if s.emitting || s.finished {
		return
	}
	s.emitting = true
	for s.credit > 0 && s.next < len(s.items) && s.cancelled == 0 {
		s.credit--
		p := s.items[s.next]
		s.next++
		s.l.mu.Unlock()
		s.sink.Next(p)
		s.l.mu.Lock()
	}
	if s.next == len(s.items) && s.cancelled == 0 {
		s.finished = true
		s.l.mu.Unlock()
		if s.err != nil {
			s.sink.Error(s.err)
		} else {
			s.sink.Complete()
		}
		s.l.mu.Lock()
	}
	s.emitting = false
}

func (l *Limits) request(s *limitState) payload.Payload {
	d := fill(s.Data, s.id, 0, 0)
	binary.BigEndian.PutUint32(d, uint32(s.id))
	meta := binary.BigEndian.AppendUint32(nil, l.Index(s.From, s.Kind, s.id%3))
	meta = append(meta, 0, 0, 0, 0)
	return payload.New(d, append(meta, fill(s.Meta, s.id, 200, 0)...))
}

func (l *Limits) find(side, kind, op int, p payload.Payload) *limitState {
	d := p.Data()
	var s *limitState
	if len(d) >= 4 {
		l.mu.Lock()
		if id := int(binary.BigEndian.Uint32(d)); id < len(l.reqs) {
			s = l.reqs[id]
			s.calls++
		}
		l.mu.Unlock()
	}
	if s == nil {
		l.errf("a handler got data that nobody sent: %s", pbt.Trunc(d))
		return &limitState{out: &limitSource{l: l}}
	}
	if want := l.request(s); s.Kind != kind || side != 1-s.From || op != s.id%3 || !bytes.Equal(want.Data(), d) || !bytes.HasSuffix(p.Metadata(), want.Metadata()[8:]) {
		l.errf("request %d: arrived as another: %s %s at side %d", s.id, kindNames[kind], pbt.Trunc(d), side)
	}
	return s
}

// RR handles a request/response.
func (l *Limits) RR(side, op int, ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	s := l.find(side, RR, op, p)
	if s.out.err != nil || len(s.out.items) == 0 {
		return mono.Error[payload.Payload](s.out.err)
	}
	return mono.Just(s.out.items[0])
}

// FNF handles a fire-and-forget.
func (l *Limits) FNF(side, op int, ctx context.Context, p payload.Payload) { l.find(side, FNF, op, p) }

// RS handles a stream.
func (l *Limits) RS(side, op int, ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	return l.find(side, RS, op, p).out.flux()
}

// RC handles a channel.
func (l *Limits) RC(side, op int, ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	s := l.find(side, RC, op, p)
	l.subscribe(s, in, &s.inSeen, &s.inEnds)
	return s.out.flux()
}

func (l *Limits) subscribe(s *limitState, f flux.Flux[payload.Payload], items *[]payload.Payload, ends *[]string) {
	end := func(e string) {
		l.mu.Lock()
		*ends = append(*ends, e)
		l.mu.Unlock()
	}
	f.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			l.mu.Lock()
			if len(*ends) > 0 {
				l.errs = append(l.errs, fmt.Errorf("request %d: an item after the end", s.id))
			}
			*items = append(*items, p)
			l.mu.Unlock()
			if s.Chunks {
				f.Subscription().Request(1)
			}
		},
		OnComplete: func() { end("complete") },
		OnError:    func(err error) { end("error " + err.Error()) },
		NoRequest:  s.Chunks,
	})
	if s.Chunks {
		f.Subscription().Request(1)
	}
}

func (l *Limits) start(s *limitState) {
	c, ctx, p := l.Callers[s.From], context.Background(), l.request(s)
	l.enter(s.From, func() {
		switch s.Kind {
		case RR:
			c.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) {
					l.mu.Lock()
					s.items, s.ends = append(s.items, p), append(s.ends, "complete")
					l.mu.Unlock()
				},
				OnError: func(err error) {
					l.mu.Lock()
					s.ends = append(s.ends, "error "+err.Error())
					l.mu.Unlock()
				},
			})
		case FNF:
			c.FireAndForget(ctx, p)
		case RS:
			l.subscribe(s, c.RequestStream(ctx, p), &s.items, &s.ends)
		case RC:
			l.subscribe(s, c.RequestChannel(ctx, p, s.in.flux()), &s.items, &s.ends)
		}
	})
}

// Run makes the requests, and small ones behind them.
func (l *Limits) Run() error {
	for _, s := range l.reqs {
		l.start(s)
		if s.Settle {
			pbt.Settle()
		}
	}
	pbt.Idle()
	for _, kind := range []int{RR, RS, RC} {
		for from := range 2 {
			l.start(l.add(LimitReq{From: from, Kind: kind, Data: 9, Items: []Sized{{D: 3}}, In: []Sized{{D: 2, M: 1}, {D: 5}}}))
		}
	}
	pbt.Settle()
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.errs) > 0 {
		return l.errs[0]
	}
	for _, s := range l.reqs {
		if err := l.check(s); err != nil {
			return fmt.Errorf("request %d %+v: %w", s.id, s.LimitReq, err)
		}
	}
	return nil
}

// outcome is what arrives of the items of a source: how many, and the end.
func (l *Limits) outcome(items []Sized, errLen int) (n int, end string, cut bool) {
	for _, s := range items {
		if s.size() > l.limit {
			return n, "error", true
		}
		n++
	}
	switch {
	case errLen == 0:
		return n, "complete", false
	case errSize(errLen) > l.limit:
		return n, "error", false
	}
	return n, "error " + text(errLen), false
}

func sameEnd(got []string, want string) bool {
	if len(got) != 1 {
		return false
	}
	return got[0] == want || want == "error" && strings.HasPrefix(got[0], "error ")
}

func sameItems(what string, got, want []payload.Payload) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d items, not %d", what, len(got), len(want))
	}
	for j := range got {
		if !bytes.Equal(got[j].Data(), want[j].Data()) || !bytes.Equal(got[j].Metadata(), want[j].Metadata()) {
			return fmt.Errorf("%s: item %d is %s, not %s", what, j, pbt.Trunc(got[j].Data()), pbt.Trunc(want[j].Data()))
		}
	}
	return nil
}

func brief(ends []string) string {
	e := strings.Join(ends, ", ")
	if len(e) > 60 {
		e = e[:60] + "..."
	}
	return e
}

func (l *Limits) check(s *limitState) error {
	if s.size() > l.limit {
		if s.calls > 0 {
			return errors.New("it does not fit but reached the handler")
		}
		if s.Kind != FNF && (!sameEnd(s.ends, "error") || len(s.items) > 0) {
			return fmt.Errorf("it does not fit but has %d items and the end %q", len(s.items), brief(s.ends))
		}
		if s.in.next > 0 {
			return fmt.Errorf("it does not fit but %d items of the channel were taken", s.in.next)
		}
		return nil
	}
	if s.calls != 1 {
		return fmt.Errorf("the handler ran %d times", s.calls)
	}
	if s.Kind == FNF {
		return nil
	}
	items, errLen := s.Items, s.Err
	if s.Kind == RR && errLen > 0 {
		items = nil
	}
	n, end, cut := l.outcome(items, errLen)
	if !sameEnd(s.ends, end) {
		return fmt.Errorf("the end is %q, not %q", brief(s.ends), brief([]string{end}))
	}
	if err := sameItems("response", s.items, s.out.items[:n]); err != nil {
		return err
	}
	if cut && s.Kind != RR && (s.out.cancelled == 0 || s.out.next > n+1) {
		return fmt.Errorf("the source of the response was told to stop %d times, after %d items of %d", s.out.cancelled, s.out.next, n+1)
	}
	if s.Kind != RC {
		return nil
	}
	in, inEnd, inCut := l.outcome(s.In, s.InErr)
	if end != "complete" {
		// An error ends both directions.
		if len(s.inSeen) > in {
			return fmt.Errorf("the handler got %d items, not %d", len(s.inSeen), in)
		}
		if s.in.cancelled == 0 && !s.in.finished {
			return errors.New("the source of the channel's items was not told to stop")
		}
		if cut && len(s.inEnds) != 1 {
			return fmt.Errorf("the channel's items end with %q for the handler, which does not know of an end", brief(s.inEnds))
		}
		return sameItems("channel", s.inSeen, s.in.items[:len(s.inSeen)])
	}
	if !sameEnd(s.inEnds, inEnd) {
		return fmt.Errorf("the channel's items end with %q, not %q", brief(s.inEnds), brief([]string{inEnd}))
	}
	if inCut && (s.in.cancelled == 0 || s.in.next > in+1) {
		return fmt.Errorf("the source of the channel's items was told to stop %d times, after %d items of %d", s.in.cancelled, s.in.next, in+1)
	}
	return sameItems("channel", s.inSeen, s.in.items[:in])
}
