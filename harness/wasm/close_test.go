//go:build verif

package wasm

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/verifharness/e2e"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// Outcomes of a request.
const (
	outOK = iota
	outErr
	outUnknown // no such operation
	outShort   // metadata that names no operation
	outCancel  // the guest cancels
	outCount
)

type closeReq struct {
	Kind   int // frame type
	Out    int
	Items  int
	Credit uint32 // of a stream, to begin with
	Held   bool   // until it is released
	Short  int
	Async  bool
}

// Steps of a case.
const (
	clSend = iota
	clRelease
	clMore
	clCancel
	clClose
	clLocal // a request of the host, which the guest does not answer
)

type closeStep struct {
	K, I   int
	Settle bool
}

type closeCase struct {
	NoOps bool // the guest never lists its operations
	Reqs  []closeReq
	Steps []closeStep
}

func genClose(t *rapid.T) closeCase {
	c := closeCase{NoOps: rapid.IntRange(0, 4).Draw(t, "noops") == 0}
	var queues [][]closeStep
	for i := range rapid.IntRange(0, 6).Draw(t, "requests") {
		r := closeReq{
			Kind:  rapid.SampledFrom([]int{tRR, tRS, tRC, tFNF}).Draw(t, "kind"),
			Out:   rapid.SampledFrom([]int{outOK, outOK, outErr, outUnknown, outShort, outCancel}).Draw(t, "outcome"),
			Async: rapid.Bool().Draw(t, "async"),
		}
		var later []closeStep
		switch r.Kind {
		case tFNF, tRR:
			if r.Out == outCancel || r.Kind == tFNF && r.Out == outErr {
				r.Out = outOK
			}
		default:
			r.Items = rapid.IntRange(0, 4).Draw(t, "items")
			r.Credit = uint32(rapid.IntRange(1, 5).Draw(t, "credit"))
			later = append(later, closeStep{K: clMore, I: i})
		}
		if r.Kind != tFNF && rapid.IntRange(0, 2).Draw(t, "held") > 0 {
			r.Held = true
			later = append(later, closeStep{K: clRelease, I: i})
		}
		switch r.Out {
		case outShort:
			r.Short = rapid.IntRange(0, 7).Draw(t, "short")
		case outCancel:
			later = append(later, closeStep{K: clCancel, I: i})
		}
		if len(later) > 1 {
			later = rapid.Permutation(later).Draw(t, "later")
		}
		c.Reqs = append(c.Reqs, r)
		queues = append(queues, append([]closeStep{{K: clSend, I: i}}, later...))
	}
	for range rapid.IntRange(1, 3).Draw(t, "closes") {
		queues = append(queues, []closeStep{{K: clClose}})
	}
	if rapid.IntRange(0, 3).Draw(t, "local") == 0 {
		queues = append(queues, []closeStep{{K: clLocal}})
	}
	for len(queues) > 0 {
		k := rapid.IntRange(0, len(queues)-1).Draw(t, "next")
		s := queues[k][0]
		s.Settle = rapid.IntRange(0, 2).Draw(t, "settle") > 0
		c.Steps = append(c.Steps, s)
		if queues[k] = queues[k][1:]; len(queues[k]) == 0 {
			queues = append(queues[:k], queues[k+1:]...)
		}
	}
	return c
}

// answering answers a request as far as it is asked to.
type answering struct {
	mu        sync.Mutex
	items     [][]byte
	err       error
	async     bool
	held      bool
	sink      flux.Sink[payload.Payload]
	mono      mono.Sink[payload.Payload]
	credit    int
	next      int
	emitting  bool
	finished  bool
	cancelled int
	calls     int

	inEnds []string // of the input of a channel
}

// consume takes what comes in on a channel.
func (a *answering) consume(in flux.Flux[payload.Payload]) {
	end := func(what string) {
		a.mu.Lock()
		defer a.mu.Unlock()
		a.inEnds = append(a.inEnds, what)
	}
	in.Subscribe(flux.Subscribe[payload.Payload]{OnComplete: func() { end("complete") }, OnError: func(err error) { end("error") }})
}

func (a *answering) flux() flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		a.mu.Lock()
		a.sink = sink
		a.mu.Unlock()
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				a.mu.Lock()
				a.credit = e2e.Add(a.credit, n)
				a.mu.Unlock()
				a.pump()
			},
			Cancel: func() {
				a.mu.Lock()
				a.cancelled++
				a.mu.Unlock()
			},
		})
	})
}

func (a *answering) single() mono.Mono[payload.Payload] {
	return mono.Create(func(sink mono.Sink[payload.Payload]) {
		a.mu.Lock()
		a.mono = sink
		a.mu.Unlock()
		a.pump()
	})
}

func (a *answering) release() {
	a.mu.Lock()
	a.held = false
	a.mu.Unlock()
	a.pump()
}

func (a *answering) pump() {
	if a.async {
		go a.emit()
	} else {
		a.emit()
	}
}

func (a *answering) emit() {
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.emitting || a.held || a.finished {
		return
	}
	if a.mono != nil {
		a.finished = true
		a.mu.Unlock()
		if a.err != nil {
			a.mono.Error(a.err)
		} else {
			a.mono.Success(payload.New(a.items[0]))
		}
		a.mu.Lock()
		return
	}
	if a.sink == nil {
		return
	}
	a.emitting = true
	for a.credit > 0 && a.next < len(a.items) && a.cancelled == 0 {
		a.credit--
		d := a.items[a.next]
		a.next++
		a.mu.Unlock()
		a.sink.Next(payload.New(d))
		a.mu.Lock()
	}
	if a.next == len(a.items) && a.cancelled == 0 && !a.finished {
		a.finished = true
		a.mu.Unlock()
		if a.err != nil {
			a.sink.Error(a.err)
		} else {
			a.sink.Complete()
		}
		a.mu.Lock()
	}
	a.emitting = false
}

// closing is the state of one run.
type closing struct {
	c     closeCase
	mu    sync.Mutex
	err   error
	s     *script
	inst  *host.Instance
	reqs  []*closeState
	calls int // of Close
	ends  int // how many have returned
	later int // calls to be made when the others have returned
}

type closeState struct {
	closeReq
	id     int
	a      *answering
	sent   bool
	closed bool // after Close was called
	more   bool
	cancel bool
}

func (s *closeState) stream() uint32 { return uint32(2*s.id + 1) }

func (c *closing) errf(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.err = fmt.Errorf(format, args...)
	}
}

var errAnswer = errors.New("the answer is an error")

func (c *closing) find(kind int, p payload.Payload) *closeState {
	d := p.Data()
	if len(d) != 4 || int(binary.BigEndian.Uint32(d)) >= len(c.reqs) {
		c.errf("a handler got data that nobody sent: %s", pbt.Trunc(d))
		return &closeState{a: &answering{items: make([][]byte, 1)}}
	}
	s := c.reqs[binary.BigEndian.Uint32(d)]
	s.a.mu.Lock()
	s.a.calls++
	n := s.a.calls
	s.a.mu.Unlock()
	if n > 1 || s.Kind != kind || s.Out == outUnknown || s.Out == outShort {
		c.errf("request %d ran %d times as %s: %+v", s.id, n, typeNames[kind], s.closeReq)
	}
	return s
}

// pending tells whether a request has yet to be answered.
func (s *closeState) pending() bool {
	if !s.sent || s.Kind == tFNF || s.Out == outShort || s.Out == outUnknown {
		return false
	}
	s.a.mu.Lock()
	defer s.a.mu.Unlock()
	return !s.a.finished && s.a.cancelled == 0
}

func (c *closing) step(st closeStep) {
	switch st.K {
	case clClose:
		c.mu.Lock()
		waiting := c.calls > c.ends
		c.mu.Unlock()
		if waiting {
			// It may wait in a way that the bubble takes for activity.
			c.later++
			return
		}
		c.calls++
		go func() {
			if err := c.inst.Close(); err != nil {
				c.errf("Close: %v", err)
			}
			c.mu.Lock()
			c.ends++
			c.mu.Unlock()
		}()
		return
	case clLocal:
		p := payload.New(nil, make([]byte, 8))
		c.inst.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{})
		c.inst.RequestStream(context.Background(), p).Subscribe(flux.Subscribe[payload.Payload]{})
		c.inst.FireAndForget(context.Background(), p)
		return
	}
	s := c.reqs[st.I]
	switch st.K {
	case clSend:
		s.sent = true
		s.closed = c.calls > 0
		meta := make([]byte, 8)
		if s.Out == outUnknown {
			meta[3] = 9
		}
		if s.Out == outShort {
			meta = meta[:s.Short]
		}
		f := wire{Type: s.Kind, Stream: s.stream(), Meta: meta, Data: binary.BigEndian.AppendUint32(nil, uint32(s.id))}
		if s.Kind == tRS || s.Kind == tRC {
			f.N = s.Credit
		}
		c.s.send(f)
	case clRelease:
		s.a.release()
	case clMore:
		s.more = true
		c.s.send(wire{Type: tRequestN, Stream: s.stream(), N: 100})
	case clCancel:
		s.cancel = true
		c.s.send(wire{Type: tCancel, Stream: s.stream()})
	}
}

func (c *closing) check() error {
	c.mu.Lock()
	ends, err := c.ends, c.err
	c.mu.Unlock()
	if err != nil {
		return err
	}
	before, pending := 0, 0
	for _, s := range c.reqs {
		if s.pending() {
			pending++
			if !s.closed {
				before++
			}
		}
	}
	if ends > 0 && before > 0 {
		return fmt.Errorf("Close has returned with %d requests in progress", before)
	}
	if c.calls > 0 && pending == 0 && ends != c.calls {
		return fmt.Errorf("%d of %d calls of Close have returned although no request is in progress", ends, c.calls)
	}
	return nil
}

// answered checks what the guest got for a request.
func (c *closing) answered(s *closeState) error {
	var items [][]byte
	end := ""
	for _, f := range c.s.of(s.stream()) {
		switch {
		case f.Type == tRequestN && s.Kind == tRC: // for the input, which goes on
		case end != "":
			return fmt.Errorf("request %d: the guest got %v after the end", s.id, f)
		case f.Type == tPayload:
			if f.Flags&fNext != 0 {
				items = append(items, f.Data)
			}
			if f.Flags&fComplete != 0 {
				end = "complete"
			}
		case f.Type == tError:
			end = "error " + string(f.Data)
		default:
			return fmt.Errorf("request %d: the guest got %v", s.id, f)
		}
	}
	want, wantEnd := s.a.items, "complete"
	switch {
	case s.Out == outUnknown:
		want, wantEnd = nil, "error not_found"
	case s.Out == outShort:
		want, wantEnd = nil, "error Invalid metadata"
	case s.Kind == tFNF:
		want, wantEnd = nil, ""
	case s.a.err != nil:
		wantEnd = "error " + s.a.err.Error()
		if s.Kind == tRR {
			want = nil
		}
	}
	exact := !s.cancel && s.Kind != tFNF
	if len(items) > len(want) || exact && (len(items) != len(want) || end != wantEnd) || end != "" && end != wantEnd {
		return fmt.Errorf("request %d %+v: the guest got %d items and the end %q, not %d and %q", s.id, s.closeReq, len(items), end, len(want), wantEnd)
	}
	for j := range items {
		if !bytes.Equal(items[j], want[j]) {
			return fmt.Errorf("request %d: the guest got %s as item %d", s.id, pbt.Trunc(items[j]), j)
		}
	}
	return nil
}

func (c *closing) run() error {
	for i := range c.c.Reqs {
		r := c.c.Reqs[i]
		s := &closeState{closeReq: r, id: i}
		s.a = &answering{held: r.Held, async: r.Async}
		n := r.Items
		if r.Kind == tRR {
			n = 1
		}
		for j := range n {
			s.a.items = append(s.a.items, []byte{byte(i), byte(j)})
		}
		if r.Out == outErr {
			s.a.err = errAnswer
		}
		c.reqs = append(c.reqs, s)
	}
	c.s = &script{}
	if !c.c.NoOps {
		c.s.ops = operations.Table{{Index: 0, Type: operations.RequestResponse, Direction: operations.Import, Namespace: "n", Operation: "o"}}
	}
	var err error
	if c.inst, err = instantiate(0, c.s); err != nil {
		return err
	}
	c.inst.SetRequestResponseHandler(0, func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		return c.find(tRR, p).a.single()
	})
	c.inst.SetFireAndForgetHandler(0, func(_ context.Context, p payload.Payload) { c.find(tFNF, p) })
	c.inst.SetRequestStreamHandler(0, func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		return c.find(tRS, p).a.flux()
	})
	c.inst.SetRequestChannelHandler(0, func(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		s := c.find(tRC, p)
		s.a.consume(in)
		return s.a.flux()
	})
	for _, st := range c.c.Steps {
		c.step(st)
		if st.Settle {
			pbt.Idle()
			if err := c.check(); err != nil {
				return err
			}
		}
	}
	pbt.Settle()
	if err := c.check(); err != nil {
		return err
	}
	if c.ends != c.calls {
		return fmt.Errorf("%d of %d calls of Close have returned although every request has been answered", c.ends, c.calls)
	}
	// Closing again and frames that come too late do no harm.
	c.step(closeStep{K: clLocal})
	for range 1 + c.later {
		c.step(closeStep{K: clClose})
		pbt.Settle()
	}
	c.s.send(wire{Type: tRR, Stream: 1001, Meta: make([]byte, 8)})
	if err := c.inst.SendFrame(&frames.Cancel{StreamID: 2}); err == nil {
		return errors.New("a closed instance accepts frames")
	}
	pbt.Settle()
	if err := c.check(); err != nil {
		return err
	}
	for _, s := range c.reqs {
		if s.sent && !s.closed {
			if err := c.answered(s); err != nil {
				return err
			}
			// The guest never ends what it feeds into a channel.
			if s.Kind == tRC && s.Out == outOK && !s.cancel && (len(s.a.inEnds) != 1 || s.a.inEnds[0] != "error") {
				return fmt.Errorf("request %d: with the instance closed, the input of the channel has the ends %q, not an error", s.id, s.a.inEnds)
			}
		}
	}
	if len(c.s.errs) > 0 {
		return fmt.Errorf("the host sent what is not a frame: %w", c.s.errs[0])
	}
	return nil
}

// closeTogether closes an instance several times while requests are in
// progress. It is not in a bubble, where not every way of waiting is known.
func closeTogether(n, requests int) error {
	s := &script{}
	inst, err := instantiate(0, s)
	if err != nil {
		return err
	}
	as := make(chan *answering, requests)
	inst.SetRequestResponseHandler(0, func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		a := &answering{held: true, items: [][]byte{p.Data()}}
		as <- a
		return a.single()
	})
	for i := range requests {
		s.send(wire{Type: tRR, Stream: uint32(2*i + 1), Meta: make([]byte, 8)})
	}
	var ends atomic.Int32
	for range n {
		go func() {
			inst.Close()
			ends.Add(1)
		}()
	}
	for range requests {
		time.Sleep(time.Millisecond)
		if k := ends.Load(); k > 0 {
			return fmt.Errorf("%d calls of Close have returned with requests in progress", k)
		}
		(<-as).release()
	}
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(100 * time.Microsecond) {
		if int(ends.Load()) == n {
			return nil
		}
	}
	return fmt.Errorf("%d of %d calls of Close have returned although every request has been answered", ends.Load(), n)
}

func TestC30(t *testing.T) {
	pbt.Check(t, "C30",
		pbt.NewPart("close", 5000, 50000, "a request in progress when the instance is closed", genClose,
			func(ctx *pbt.Ctx, c closeCase) error {
				sent, over, closed, busy := map[int]bool{}, map[int]bool{}, false, false
				for _, st := range c.Steps {
					switch st.K {
					case clSend:
						sent[st.I] = true
						ctx.Label([]string{"ok", "error", "unknown", "no metadata", "cancelled"}[c.Reqs[st.I].Out])
						if closed {
							ctx.Label("sent after Close")
						}
					case clRelease, clCancel:
						over[st.I] = true
					case clClose:
						for i := range sent {
							busy = busy || !closed && c.Reqs[i].Held && !over[i] && c.Reqs[i].Out != outShort && c.Reqs[i].Out != outUnknown
						}
						closed = true
					}
				}
				ctx.NonTrivialIf(busy)
				times := 2
				if ctx.Replay {
					times = 40
				}
				for range times {
					err := pbt.Bubble(ctx.T, func() error { return (&closing{c: c}).run() })
					if err != nil {
						return err
					}
				}
				return nil
			}),
		pbt.NewPart("together", 60, 600, "two or more calls of Close while a request is in progress", func(t *rapid.T) [2]int {
			return [2]int{rapid.IntRange(1, 4).Draw(t, "closes"), rapid.IntRange(0, 3).Draw(t, "requests")}
		}, func(ctx *pbt.Ctx, c [2]int) error {
			ctx.NonTrivialIf(c[0] > 1 && c[1] > 0)
			return closeTogether(c[0], c[1])
		}),
		pbt.NewPart("entry points", 120, 1200, "a module that lacks an entry point, or has start functions", func(t *rapid.T) int {
			lacks := 0
			for bit := range failures {
				if rapid.IntRange(0, 3).Draw(t, "failure") == 3 {
					lacks |= 1 << bit
				}
			}
			if rapid.Bool().Draw(t, "fine") {
				lacks = 0
			}
			return lacks | rapid.IntRange(0, 15).Draw(t, "has")<<failures
		}, func(ctx *pbt.Ctx, lacks int) error {
			ctx.NonTrivialIf(lacks != 0)
			return pbt.Bubble(ctx.T, func() error { return enter(lacks) })
		}),
	)
}

// enter instantiates a module.
func enter(lacks int) error {
	s := &script{}
	inst, err := instantiate(lacks, s)
	fails := lacks & (1<<failures - 1)
	if fails != 0 {
		if err == nil {
			inst.Close()
			return fmt.Errorf("a module that lacks an entry point, or fails in it, is accepted: %b", fails)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("a module that has all that it needs (%b) is refused: %w", lacks, err)
	}
	at := func(place uint32) int {
		n, _ := s.e.mod.Memory().ReadUint32Le(place)
		return int(n)
	}
	// The module was ready when it was asked for its buffers.
	starts := 0
	for bit, place := range map[int]uint32{hasStart: startPtr, hasBegin: initPtr} {
		if lacks&bit == 0 {
			continue
		}
		starts++
		if at(place) == 0 {
			return fmt.Errorf("a start function has not been run: %b", lacks)
		}
	}
	if at(countPtr) != starts || at(readyPtr) != starts+1 {
		return fmt.Errorf("%d start functions have been run %d times, %d times of them before __wasmrs_init", starts, at(countPtr), at(readyPtr)-1)
	}
	inst.SetRequestResponseHandler(0, func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] { return mono.Just(p) })
	s.send(wire{Type: tRR, Stream: 1, Meta: make([]byte, 8), Data: []byte("back")})
	pbt.Settle()
	if fs := s.of(1); len(fs) != 1 || fs[0].Type != tPayload || string(fs[0].Data) != "back" {
		return fmt.Errorf("a module with start functions %b gets %v", lacks, fs)
	}
	return closes(inst)
}
