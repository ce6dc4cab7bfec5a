//go:build verif

package wasm

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifharness/e2e"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// largest is what fits into the exchange buffers with its length.
const largest = 16*1024 - 3

type limitCase struct {
	Batch bool
	Reqs  []e2e.LimitReq
}

func genLimits(t *rapid.T) limitCase {
	return limitCase{
		Batch: rapid.Bool().Draw(t, "batch"),
		Reqs:  e2e.GenLimits(t, largest, 40000, 5, []int{hostSide, guestSide}),
	}
}

func runLimits(ctx *pbt.Ctx, c limitCase) error {
	once := func() error {
		return pbt.Bubble(ctx.T, func() error {
			l := e2e.NewLimits(c.Reqs, largest)
			inst, g, err := link(l, c.Batch)
			if err != nil {
				return err
			}
			defer g.clear(100)
			l.Callers = callers(inst)
			l.Index = indexer(inst)
			l.Enter[guestSide] = g.enter
			if err := l.Run(); err != nil {
				return err
			}
			return closes(inst)
		})
	}
	times := 2
	if ctx.Replay {
		times = 20
	}
	for range times {
		if err := once(); err != nil {
			return err
		}
	}
	return nil
}

func runClosed(ctx *pbt.Ctx, c e2e.LossCase) error {
	once := func() error {
		return pbt.Bubble(ctx.T, func() error {
			l := e2e.NewLoss(c.Reqs)
			inst, g, err := link(l, false)
			if err != nil {
				return err
			}
			defer g.clear(100)
			l.Callers = callers(inst)
			l.Index = indexer(inst)
			l.Enter[guestSide] = g.enter
			l.Blind[guestSide] = true
			l.Lose = func() { inst.Close() }
			return l.Run(c.Steps)
		})
	}
	times := 3
	if ctx.Replay {
		times = 40
	}
	for range times {
		if err := once(); err != nil {
			return err
		}
	}
	return nil
}

// trapReq is a request of the host.
type trapReq struct {
	Kind   int
	Trap   int // the frame of the request on which the guest traps, or -1
	Demand int
	In     int
}

// Steps with traps.
const (
	trStart = iota
	trItem  // of the guest
	trMore
	trAsk // the guest asks for an item
	trComplete
	trCount
)

type trapStep struct{ K, I int }

type trapCase struct {
	Reqs  []trapReq
	Steps []trapStep
}

func genTrap(t *rapid.T) trapCase {
	var c trapCase
	var queues [][]trapStep
	for i := range rapid.IntRange(1, 5).Draw(t, "requests") {
		r := trapReq{Kind: rapid.SampledFrom([]int{tRR, tRS, tRC, tRC, tFNF}).Draw(t, "kind"), Trap: -1, Demand: 1}
		if rapid.IntRange(0, 2).Draw(t, "traps") > 0 {
			r.Trap = 0
		}
		queue := []trapStep{{trStart, i}}
		if r.Kind == tRS || r.Kind == tRC {
			if r.Trap == 0 {
				r.Trap = rapid.IntRange(0, 3).Draw(t, "trap")
			}
			r.Demand = rapid.IntRange(1, 4).Draw(t, "demand")
			if r.Kind == tRC {
				r.In = rapid.IntRange(0, 4).Draw(t, "in")
			}
			for range rapid.IntRange(0, 6).Draw(t, "steps") {
				queue = append(queue, trapStep{rapid.SampledFrom([]int{trItem, trMore, trAsk, trAsk}).Draw(t, "step"), i})
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "completes") > 0 {
			queue = append(queue, trapStep{trComplete, i})
		}
		c.Reqs = append(c.Reqs, r)
		queues = append(queues, queue)
	}
	for len(queues) > 0 {
		k := rapid.IntRange(0, len(queues)-1).Draw(t, "next")
		c.Steps = append(c.Steps, queues[k][0])
		if queues[k] = queues[k][1:]; len(queues[k]) == 0 {
			queues = append(queues[:k], queues[k+1:]...)
		}
	}
	return c
}

type trapState struct {
	trapReq
	stream  uint32
	frames  int
	trapped bool
	items   int
	ends    []string
	sub     func(n int)
	in      *answering

	credit int // of the guest
	want   int
	over   bool // the guest has completed it
}

func (c trapCase) run() error {
	var mu sync.Mutex
	var reqs []*trapState
	var failure error
	fail := func(format string, args ...any) {
		mu.Lock()
		defer mu.Unlock()
		if failure == nil {
			failure = fmt.Errorf(format, args...)
		}
	}
	s := &script{ops: operations.Table{}}
	s.trap = func(f wire) bool {
		mu.Lock()
		defer mu.Unlock()
		if f.Type >= tRR && f.Type <= tRC {
			reqs[f.Data[0]].stream = f.Stream
		}
		for _, r := range reqs {
			if r.stream == f.Stream {
				r.frames++
				if f.Type == tRS || f.Type == tRC || f.Type == tRequestN {
					r.credit = e2e.Add(r.credit, int(min(f.N, 1<<31-1)))
				}
				if r.frames == r.Trap+1 {
					r.trapped = true
					return true
				}
			}
		}
		return false
	}
	inst, err := instantiate(0, s)
	if err != nil {
		return err
	}
	for i, r := range c.Reqs {
		st := &trapState{trapReq: r}
		st.in = &answering{}
		for j := range r.In {
			st.in.items = append(st.in.items, []byte{byte(i), byte(j)})
		}
		reqs = append(reqs, st)
	}
	end := func(r *trapState, e string) {
		mu.Lock()
		r.ends = append(r.ends, e)
		mu.Unlock()
	}
	next := func(r *trapState, p payload.Payload) {
		mu.Lock()
		n := r.items
		r.items++
		late := len(r.ends) > 0
		mu.Unlock()
		if late || len(p.Data()) != 1 || int(p.Data()[0]) != n {
			fail("item %x arrived as number %d, late: %v", p.Data(), n, late)
		}
	}
	check := func(closed bool) error {
		mu.Lock()
		defer mu.Unlock()
		if failure != nil {
			return failure
		}
		for i, r := range reqs {
			if r.stream == 0 || r.Kind == tFNF {
				continue
			}
			end := strings.Join(r.ends, ", ")
			failed := len(r.ends) == 1 && strings.HasPrefix(end, "error ")
			switch {
			case r.over:
				if end != "complete" {
					return fmt.Errorf("request %d %+v ended with %q although the guest completed it", i, r.trapReq, end)
				}
			case r.trapped || closed:
				if !failed {
					return fmt.Errorf("request %d %+v ended with %q although the guest trapped: %v", i, r.trapReq, end, r.trapped)
				}
			case end != "":
				return fmt.Errorf("request %d %+v ended with %q although the guest has not failed for it", i, r.trapReq, end)
			}
			if r.items != r.want {
				return fmt.Errorf("request %d %+v: %d items of %d", i, r.trapReq, r.items, r.want)
			}
			if r.Kind == tRC && (closed || r.trapped && !r.over) {
				r.in.mu.Lock()
				over := r.in.sink == nil || r.in.finished || r.in.cancelled > 0
				r.in.mu.Unlock()
				if !over {
					return fmt.Errorf("request %d %+v: the source of the channel's items was not told to stop", i, r.trapReq)
				}
			}
		}
		return nil
	}
	for _, st := range c.Steps {
		r := reqs[st.I]
		mu.Lock()
		live := r.stream > 0 && !r.trapped && !r.over
		credit := r.credit
		mu.Unlock()
		switch st.K {
		case trStart:
			p := payload.New([]byte{byte(st.I)}, make([]byte, 8))
			ctx := context.Background()
			sub := flux.Subscribe[payload.Payload]{
				OnNext:     func(p payload.Payload) { next(r, p) },
				OnComplete: func() { end(r, "complete") },
				OnError:    func(err error) { end(r, "error "+err.Error()) },
				NoRequest:  true,
			}
			var f flux.Flux[payload.Payload]
			switch r.Kind {
			case tRR:
				inst.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
					OnSuccess: func(p payload.Payload) { next(r, p); end(r, "complete") },
					OnError:   sub.OnError,
				})
			case tFNF:
				inst.FireAndForget(ctx, p)
			case tRS:
				f = inst.RequestStream(ctx, p)
			case tRC:
				f = inst.RequestChannel(ctx, p, r.in.flux())
			}
			if f != nil {
				f.Subscribe(sub)
				r.sub = f.Subscription().Request
				r.sub(r.Demand)
			}
		case trItem:
			if live && r.want < credit {
				s.send(wire{Type: tPayload, Flags: fNext, Stream: r.stream, Data: []byte{byte(r.want)}})
				r.want++
			}
		case trMore:
			r.sub(1)
		case trAsk:
			if live && r.Kind == tRC {
				s.send(wire{Type: tRequestN, Stream: r.stream, N: 1})
			}
		case trComplete:
			if live && r.Kind != tFNF {
				f := wire{Type: tPayload, Flags: fComplete, Stream: r.stream}
				if r.Kind == tRR {
					f.Flags |= fNext
					f.Data = []byte{0}
					r.want++
				}
				r.over = true
				s.send(f)
			}
		}
		pbt.Settle()
		if err := check(false); err != nil {
			return err
		}
	}
	if err := closes(inst); err != nil {
		return err
	}
	pbt.Settle()
	return check(true)
}

type bufferCase struct {
	Send, Recv uint32
	Kinds      []int
}

func genBuffers(t *rapid.T) bufferCase {
	at := rapid.OneOf(rapid.SampledFrom([]uint32{0, 0xc000, 0xc001, 0xbfff, 0xffff, 0x10000, 1<<31 - 1, 1 << 31, 1<<32 - 0x4000, 1<<32 - 1}), rapid.Uint32Range(0, 0x14000), rapid.Uint32())
	return bufferCase{at.Draw(t, "send"), at.Draw(t, "recv"), rapid.SliceOfN(rapid.SampledFrom([]int{tRR, tRS, tRC, tFNF}), 1, 4).Draw(t, "kinds")}
}

func (c bufferCase) run() error {
	at := [2]uint64{uint64(c.Send), uint64(c.Recv)}
	got := 0
	s := &script{ops: operations.Table{}, at: &at, raw: func([]byte) { got++ }}
	inst, err := instantiate(0, s)
	if err != nil {
		return err
	}
	calls := 0
	inst.SetRequestResponseHandler(0, func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
		calls++
		return mono.Just[payload.Payload](payload.New([]byte("answer")))
	})
	ends := make([][]string, len(c.Kinds))
	for i, kind := range c.Kinds {
		sub := flux.Subscribe[payload.Payload]{
			OnNext:     func(payload.Payload) { ends[i] = append(ends[i], "item") },
			OnComplete: func() { ends[i] = append(ends[i], "complete") },
			OnError:    func(err error) { ends[i] = append(ends[i], "error "+err.Error()) },
		}
		p := payload.New([]byte("x"), make([]byte, 8))
		ctx := context.Background()
		switch kind {
		case tRR:
			inst.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{OnSuccess: sub.OnNext, OnError: sub.OnError})
		case tFNF:
			inst.FireAndForget(ctx, p)
		case tRS:
			inst.RequestStream(ctx, p).Subscribe(sub)
		case tRC:
			inst.RequestChannel(ctx, p, flux.FromSlice([]payload.Payload{p})).Subscribe(sub)
		}
	}
	inst.SendFrame(&frames.Cancel{StreamID: 2001})
	s.send(wire{Type: tRR, Stream: 1, Meta: make([]byte, 8)})
	check := func(failed bool) error {
		pbt.Settle()
		for i, kind := range c.Kinds {
			switch {
			case kind == tFNF:
			case failed && (len(ends[i]) != 1 || !strings.HasPrefix(ends[i][0], "error ")):
				return fmt.Errorf("%s ended with %q", typeNames[kind], ends[i])
			case !failed && len(ends[i]) > 0:
				return fmt.Errorf("%s ended with %q although the guest has not answered", typeNames[kind], ends[i])
			}
		}
		return nil
	}
	fits := uint64(c.Send)+16*1024 <= 0x10000
	if err := check(!fits); err != nil {
		return err
	}
	if fits != (got > 0) {
		return fmt.Errorf("%d buffers reached the guest", got)
	}
	if c.Recv == recvPtr && calls != 1 {
		return fmt.Errorf("the guest's request was handled %d times", calls)
	}
	if err := closes(inst); err != nil {
		return err
	}
	return check(true)
}

func TestC37(t *testing.T) {
	pbt.Check(t, "C37",
		pbt.NewPart("limits", 1500, 20000, "a message that does not fit", genLimits,
			func(ctx *pbt.Ctx, c limitCase) error {
				for _, r := range c.Reqs {
					ctx.Label([]string{"by host", "by guest"}[r.From])
				}
				ctx.NonTrivialIf(e2e.TooLarge(c.Reqs, largest) > 0)
				return runLimits(ctx, c)
			}),
		pbt.NewPart("closed", 1500, 20000, "a request that is in progress when the instance is closed",
			func(t *rapid.T) e2e.LossCase { return e2e.GenLoss(t, []int{hostSide}) },
			func(ctx *pbt.Ctx, c e2e.LossCase) error {
				ctx.NonTrivialIf(c.Busy() > 0)
				return runClosed(ctx, c)
			}),
		pbt.NewPart("trap", 6000, 60000, "the guest traps on a frame", genTrap,
			func(ctx *pbt.Ctx, c trapCase) error {
				for _, r := range c.Reqs {
					ctx.NonTrivialIf(r.Trap >= 0)
				}
				return pbt.Bubble(ctx.T, c.run)
			}),
		pbt.NewPart("buffers", 500, 4000, "a buffer outside the memory", genBuffers,
			func(ctx *pbt.Ctx, c bufferCase) error {
				ctx.NonTrivialIf(c.Send > 0xc000 || c.Recv > 0xc000)
				return pbt.Bubble(ctx.T, c.run)
			}),
	)
}
