package e2e

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"sync"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// LossReq is a request that may be in progress when the connection is lost.
type LossReq struct {
	From   int
	Kind   int
	Items  int  // of the response
	Demand int  // of the requester, to begin with
	Open   bool // the response does not end
	Fails  bool // it ends with an error
	In     int  // items of a channel
	InOpen bool
	InAsks int // of the handler of a channel
}

// Steps of a case.
const (
	LossStart = iota
	LossMore
	LossInMore
	LossNow
)

// LossStep is one step.
type LossStep struct {
	K, I, N int
	Settle  bool
}

// LossCase has one LossNow.
type LossCase struct {
	Reqs  []LossReq
	Steps []LossStep
}

// GenLoss draws requests from the sides and one loss.
func GenLoss(t *rapid.T, sides []int) LossCase {
	var c LossCase
	var queues [][]LossStep
	for i := range rapid.IntRange(1, 6).Draw(t, "requests") {
		r := LossReq{
			From:   rapid.SampledFrom(sides).Draw(t, "from"),
			Kind:   rapid.SampledFrom([]int{RR, RS, RC, RC, RS, FNF}).Draw(t, "kind"),
			Items:  1,
			Open:   rapid.IntRange(0, 3).Draw(t, "open") > 0,
			Fails:  rapid.IntRange(0, 3).Draw(t, "fails") == 0,
			Demand: 1,
		}
		queue := []LossStep{{K: LossStart, I: i}}
		if r.Kind == RS || r.Kind == RC {
			r.Items = rapid.IntRange(0, 4).Draw(t, "items")
			r.Demand = rapid.IntRange(0, 5).Draw(t, "demand")
			for range rapid.IntRange(0, 2).Draw(t, "more") {
				queue = append(queue, LossStep{K: LossMore, I: i, N: rapid.IntRange(1, 3).Draw(t, "n")})
			}
		}
		if r.Kind == RC {
			r.In = rapid.IntRange(0, 4).Draw(t, "in")
			r.InAsks = rapid.IntRange(0, 5).Draw(t, "asks")
			r.InOpen = rapid.IntRange(0, 2).Draw(t, "in open") > 0
			for range rapid.IntRange(0, 2).Draw(t, "in more") {
				queue = append(queue, LossStep{K: LossInMore, I: i, N: rapid.IntRange(1, 3).Draw(t, "n")})
			}
		}
		c.Reqs = append(c.Reqs, r)
		queues = append(queues, queue)
	}
	for len(queues) > 0 {
		k := rapid.IntRange(0, len(queues)-1).Draw(t, "next")
		s := queues[k][0]
		s.Settle = rapid.IntRange(0, 2).Draw(t, "settle") > 0
		c.Steps = append(c.Steps, s)
		if queues[k] = queues[k][1:]; len(queues[k]) == 0 {
			queues = append(queues[:k], queues[k+1:]...)
		}
	}
	// Most requests start before the loss.
	at := rapid.IntRange(len(c.Steps)/2, len(c.Steps)).Draw(t, "lost at")
	lose := LossStep{K: LossNow, Settle: rapid.IntRange(0, 2).Draw(t, "settle") > 0}
	c.Steps = append(c.Steps[:at], append([]LossStep{lose}, c.Steps[at:]...)...)
	return c
}

// Busy tells how many requests start before the loss and cannot end by then.
func (c LossCase) Busy() int {
	n := 0
	for _, s := range c.Steps {
		if s.K == LossNow {
			break
		}
		if r := c.Reqs[s.I]; s.K == LossStart && r.Open && r.Kind != FNF {
			n++
		}
	}
	return n
}

// Loss runs a case.
type Loss struct {
	Callers [2]invoke.Caller
	Index   func(from, kind, op int) uint32
	Enter   [2]func(func())
	Lose    func()
	// Blind are the sides that do not get to know of the loss.
	Blind [2]bool

	mu   sync.Mutex
	errs []error
	reqs []*lossState

	lost    bool
	settled bool // what happened before the loss is over
	clean   bool // and what follows began after the loss had been noticed
}

type lossSource struct {
	l         *Loss
	items     [][]byte
	open      bool
	err       error
	subs      int
	sink      flux.Sink[payload.Payload]
	credit    int
	asked     int
	next      int
	emitting  bool
	finished  bool
	cancelled int
}

type lossState struct {
	LossReq
	id      int
	started bool
	after   bool // started after the loss
	clean   bool // which had been noticed
	ask     int  // the requester's demand
	frozen  int  // before the loss, when that is settled

	f     flux.Flux[payload.Payload]
	items [][]byte
	ends  []string
	calls int

	in      *lossSource
	out     *lossSource
	inFlux  flux.Flux[payload.Payload]
	inAsk   int
	inItems [][]byte
	inEnds  []string

	wasEnd   []string // at the loss
	wasItems int
	wasIn    int
	wasInEnd []string
}

// NewLoss creates the state for a run.
func NewLoss(reqs []LossReq) *Loss {
	l := &Loss{}
	for i, r := range reqs {
		s := &lossState{LossReq: r, id: i}
		s.out = &lossSource{l: l, open: r.Open}
		for j := range r.Items {
			s.out.items = append(s.out.items, []byte{byte(i), 0, byte(j)})
		}
		if r.Fails {
			s.out.err = errors.New("the answer fails")
		}
		s.in = &lossSource{l: l, open: r.InOpen}
		for j := range r.In {
			s.in.items = append(s.in.items, []byte{byte(i), 1, byte(j)})
		}
		l.reqs = append(l.reqs, s)
	}
	return l
}

func (l *Loss) errf(format string, args ...any) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.errs = append(l.errs, fmt.Errorf(format, args...))
}

func (l *Loss) enter(side int, f func()) {
	if e := l.Enter[side]; e != nil {
		e(f)
	} else {
		f()
	}
}

func (s *lossSource) flux() flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		s.l.mu.Lock()
		s.subs++
		s.sink = sink
		s.l.mu.Unlock()
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				s.l.mu.Lock()
				s.credit = Add(s.credit, n)
				s.asked = Add(s.asked, n)
				s.l.mu.Unlock()
				s.emit()
			},
			Cancel: func() {
				s.l.mu.Lock()
				s.cancelled++
				s.l.mu.Unlock()
			},
		})
	})
}

func (s *lossSource) emit() {
	s.l.mu.Lock()
	defer s.l.mu.Unlock()
	if s.emitting || s.finished {
		return
	}
	s.emitting = true
	for s.credit > 0 && s.next < len(s.items) && s.cancelled == 0 {
		s.credit--
		d := s.items[s.next]
		s.next++
		s.l.mu.Unlock()
		s.sink.Next(payload.New(d))
		s.l.mu.Lock()
	}
	if !s.open && s.next == len(s.items) && s.cancelled == 0 {
		s.finished = true
		s.l.mu.Unlock()
		if s.err != nil {
			s.sink.Error(s.err)
		} else {
			s.sink.Complete()
		}
		s.l.mu.Lock()
	}
	s.emitting = false
}

// over tells whether the source knows that nothing is wanted of it any more.
func (s *lossSource) over() bool { return s.subs == 0 || s.finished || s.cancelled > 0 }

func (l *Loss) find(side, kind int, p payload.Payload) *lossState {
	d := p.Data()
	if len(d) != 4 || int(binary.BigEndian.Uint32(d)) >= len(l.reqs) {
		l.errf("a handler got data that nobody sent: %s", pbt.Trunc(d))
		return &lossState{out: &lossSource{l: l}}
	}
	s := l.reqs[binary.BigEndian.Uint32(d)]
	l.mu.Lock()
	s.calls++
	n := s.calls
	l.mu.Unlock()
	if n > 1 || s.Kind != kind || side != 1-s.From {
		l.errf("request %d: ran %d times, as %s at side %d", s.id, n, kindNames[kind], side)
	}
	return s
}

// RR handles a request/response.
func (l *Loss) RR(side, op int, ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	s := l.find(side, RR, p)
	return mono.Create(func(sink mono.Sink[payload.Payload]) {
		switch {
		case s.Open:
		case s.Fails:
			sink.Error(s.out.err)
		default:
			sink.Success(payload.New(s.out.items[0]))
		}
	})
}

// FNF handles a fire-and-forget.
func (l *Loss) FNF(side, op int, ctx context.Context, p payload.Payload) { l.find(side, FNF, p) }

// RS handles a stream.
func (l *Loss) RS(side, op int, ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	return l.find(side, RS, p).out.flux()
}

// RC handles a channel.
func (l *Loss) RC(side, op int, ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	s := l.find(side, RC, p)
	sub := l.recorder(s.id, "channel input", &s.inItems, &s.inEnds)
	sub.NoRequest = true
	in.Subscribe(sub)
	l.mu.Lock()
	s.inFlux = in
	n := s.inAsk
	l.mu.Unlock()
	if n > 0 {
		in.Subscription().Request(n)
	}
	return s.out.flux()
}

func (l *Loss) recorder(id int, what string, items *[][]byte, ends *[]string) flux.Subscribe[payload.Payload] {
	end := func(e string) {
		l.mu.Lock()
		*ends = append(*ends, e)
		n := len(*ends)
		l.mu.Unlock()
		if n > 1 {
			l.errf("request %d: the %s ended %d times: %q", id, what, n, *ends)
		}
	}
	return flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			l.mu.Lock()
			late := len(*ends) > 0
			*items = append(*items, bytes.Clone(p.Data()))
			l.mu.Unlock()
			if late {
				l.errf("request %d: the %s got an item after its end", id, what)
			}
		},
		OnComplete: func() { end("complete") },
		OnError:    func(err error) { end("error " + err.Error()) },
	}
}

func (l *Loss) start(s *lossState) {
	l.mu.Lock()
	s.started, s.after, s.clean = true, l.lost, l.clean
	s.ask = s.Demand
	if l.lost && s.ask == 0 {
		s.ask = 1 // a request that is not made does not fail
	}
	s.inAsk = s.InAsks
	l.mu.Unlock()
	meta := binary.BigEndian.AppendUint32(nil, l.Index(s.From, s.Kind, s.id%3))
	p := payload.New(binary.BigEndian.AppendUint32(nil, uint32(s.id)), append(meta, 0, 0, 0, 0))
	sub := l.recorder(s.id, "response", &s.items, &s.ends)
	c := l.Callers[s.From]
	l.enter(s.From, func() {
		ctx := context.Background()
		switch s.Kind {
		case RR:
			c.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) { sub.OnNext(p); sub.OnComplete() },
				OnError:   sub.OnError,
			})
			return
		case FNF:
			c.FireAndForget(ctx, p)
			return
		case RS:
			s.f = c.RequestStream(ctx, p)
		case RC:
			s.f = c.RequestChannel(ctx, p, s.in.flux())
		}
		sub.NoRequest = true
		s.f.Subscribe(sub)
		if s.ask > 0 {
			s.f.Subscription().Request(s.ask)
		}
	})
}

func (l *Loss) step(st LossStep) {
	if st.K == LossNow {
		l.mu.Lock()
		for _, s := range l.reqs {
			s.wasEnd, s.wasItems = append([]string{}, s.ends...), len(s.items)
			s.wasInEnd, s.wasIn = append([]string{}, s.inEnds...), len(s.inItems)
		}
		l.lost = true
		l.mu.Unlock()
		l.Lose()
		return
	}
	s := l.reqs[st.I]
	switch st.K {
	case LossStart:
		l.start(s)
	case LossMore:
		l.mu.Lock()
		s.ask += st.N
		l.mu.Unlock()
		l.enter(s.From, func() { s.f.Subscription().Request(st.N) })
	case LossInMore:
		l.mu.Lock()
		in := s.inFlux
		s.inAsk += st.N
		l.mu.Unlock()
		if in == nil {
			return // when the handler runs
		}
		l.enter(1-s.From, func() { in.Subscription().Request(st.N) })
	}
}

// Run runs the steps and checks what they have led to.
func (l *Loss) Run(steps []LossStep) error {
	quiet := true
	for _, st := range steps {
		if st.K == LossNow {
			if quiet {
				pbt.Idle()
			}
			l.settled = quiet
		}
		l.step(st)
		if quiet = st.Settle; quiet {
			pbt.Settle()
			l.mu.Lock()
			l.clean = l.lost
			l.mu.Unlock()
			if err := l.Check(); err != nil {
				return err
			}
		}
	}
	pbt.Settle()
	return l.Check()
}

// Check compares everything with what should be when nothing moves any more.
func (l *Loss) Check() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.errs) > 0 {
		return l.errs[0]
	}
	for _, s := range l.reqs {
		if s.started {
			if err := l.check(s); err != nil {
				return fmt.Errorf("request %d %+v (lost %v settled %v after %v): %w", s.id, s.LossReq, l.lost, l.settled, s.after, err)
			}
		}
	}
	return nil
}

func prefix(what string, got, want [][]byte) error {
	if len(got) > len(want) {
		return fmt.Errorf("%s: %d items of %d", what, len(got), len(want))
	}
	for j := range got {
		if !bytes.Equal(got[j], want[j]) {
			return fmt.Errorf("%s: item %d is %x", what, j, got[j])
		}
	}
	return nil
}

func (l *Loss) check(s *lossState) error {
	if err := prefix("response", s.items, s.out.items); err != nil {
		return err
	}
	if err := prefix("channel input", s.inItems, s.in.items); err != nil {
		return err
	}
	// What the request comes to without a loss.
	n := min(s.ask, s.Items)
	end := ""
	if s.ask > 0 && n == s.Items && !s.Open && s.Kind != FNF {
		end = "complete"
		if s.Fails {
			end = "error " + s.out.err.Error()
			if s.Kind == RR {
				n = 0
			}
		}
	}
	if s.Kind == FNF || s.Kind == RR && s.Open {
		n = 0
	}
	got := strings.Join(s.ends, ", ")
	if !l.lost {
		if len(s.items) != n || got != end {
			return fmt.Errorf("%d items and end %q, not %d and %q", len(s.items), got, n, end)
		}
		if s.Kind == FNF && s.calls != 1 {
			return fmt.Errorf("ran %d times", s.calls)
		}
		return nil
	}
	failed := strings.HasPrefix(got, "error ")
	switch {
	case s.Kind == FNF:
		if s.after && s.clean && s.calls > 0 {
			return fmt.Errorf("ran although it was sent after the loss")
		}
	case l.Blind[s.From]:
	case s.after && s.clean:
		if !failed || len(s.items) > 0 {
			return fmt.Errorf("%d items and end %q although the connection had been lost", len(s.items), got)
		}
		if s.Kind == RC && s.in.next > 0 {
			return fmt.Errorf("%d items were taken for a channel after the loss", s.in.next)
		}
	case !s.after && l.settled && len(s.wasEnd) > 0:
		if len(s.ends) != 1 || s.ends[0] != s.wasEnd[0] || len(s.items) != s.wasItems {
			return fmt.Errorf("%d items and end %q at last, %d and %q before the loss", len(s.items), got, s.wasItems, s.wasEnd)
		}
	case !s.after && l.settled:
		if !failed || len(s.items) != s.wasItems {
			return fmt.Errorf("%d items and end %q after the loss, %d before", len(s.items), got, s.wasItems)
		}
	case !failed && (got != end || len(s.items) != n || end == ""):
		return fmt.Errorf("%d items and end %q after the loss", len(s.items), got)
	}
	if s.Kind == RC && !l.Blind[s.From] && !s.in.over() {
		return fmt.Errorf("the source of the channel's items was not told of the loss")
	}
	if l.Blind[1-s.From] || s.calls == 0 {
		return nil
	}
	if (s.Kind == RS || s.Kind == RC) && !s.out.over() {
		return fmt.Errorf("the source of the response was not told of the loss")
	}
	if s.Kind == RC {
		switch {
		case s.inFlux == nil:
		case len(s.wasInEnd) > 0 && l.settled:
			if len(s.inEnds) != 1 || s.inEnds[0] != s.wasInEnd[0] {
				return fmt.Errorf("the channel input ended with %q, before the loss with %q", s.inEnds, s.wasInEnd)
			}
		case s.out.finished && s.out.err != nil:
			// The handler has given up.
		case len(s.inEnds) == 0:
			return fmt.Errorf("the channel input does not end")
		case l.settled && !s.after && !strings.HasPrefix(s.inEnds[0], "error "):
			return fmt.Errorf("the channel input ended with %q", s.inEnds)
		}
		if l.settled && !s.after && len(s.inItems) != s.wasIn {
			return fmt.Errorf("%d items of the channel arrived, %d before the loss", len(s.inItems), s.wasIn)
		}
	}
	return nil
}
