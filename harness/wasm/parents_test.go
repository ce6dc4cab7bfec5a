//go:build verif

package wasm

import (
	"context"
	"encoding/binary"
	"fmt"
	"sync"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
	"github.com/nanobus/iota/go/verifharness/e2e"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// outerReq is a request of the host, whose handler in the guest makes others.
type outerReq struct {
	Kind  int
	Inner []int // kinds of the requests made on its behalf
	Free  []int // kinds of the requests the handler makes on nobody's behalf
}

type parentCase struct {
	Batch bool
	Reqs  []outerReq
	Join  bool  // make the requests at once
	Order []int // in which the guest answers
}

func genParents(t *rapid.T) parentCase {
	c := parentCase{Batch: rapid.Bool().Draw(t, "batch"), Join: rapid.Bool().Draw(t, "join")}
	kind := rapid.SampledFrom([]int{e2e.RR, e2e.RS, e2e.RC, e2e.FNF})
	n := rapid.IntRange(1, 4).Draw(t, "reqs")
	for k := range n {
		c.Reqs = append(c.Reqs, outerReq{
			Kind:  rapid.SampledFrom([]int{e2e.RR, e2e.RS, e2e.RC}).Draw(t, "kind"),
			Inner: rapid.SliceOfN(kind, 1, 3).Draw(t, "inner"),
			Free:  rapid.SliceOfN(kind, 0, 1).Draw(t, "free"),
		})
		c.Order = append(c.Order, k)
	}
	c.Order = rapid.Permutation(c.Order).Draw(t, "order")
	return c
}

// family answers requests, on one side by making more of them.
type family struct {
	c     parentCase
	index func(from, kind, op int) uint32

	mu   sync.Mutex
	err  error
	seen map[[2]int]int // inner requests handled
	held []answering
}

func (f *family) fail(format string, args ...any) {
	f.mu.Lock()
	if f.err == nil {
		f.err = fmt.Errorf(format, args...)
	}
	f.mu.Unlock()
}

type parentKey struct{}

const nobody = 99

// outer handles a request of the host in the guest.
func (f *family) outer(ctx context.Context, p payload.Payload) *answering {
	k := int(p.Data()[0])
	id := uint32(0)
	if s, ok := proxy.FromContext(ctx); ok {
		id = s.StreamID()
	}
	n := 0
	ask := func(kind int, parent uint32, owner int) {
		meta := binary.BigEndian.AppendUint32(nil, f.index(guestSide, kind, 0))
		meta = binary.BigEndian.AppendUint32(meta, parent)
		p := payload.New([]byte{byte(k), byte(n), byte(owner)}, meta)
		n++
		ignore := flux.Subscribe[payload.Payload]{}
		switch kind {
		case e2e.RR:
			guest.HostInvoker.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{})
		case e2e.FNF:
			guest.HostInvoker.FireAndForget(ctx, p)
		case e2e.RS:
			guest.HostInvoker.RequestStream(ctx, p).Subscribe(ignore)
		case e2e.RC:
			guest.HostInvoker.RequestChannel(ctx, p, flux.FromSlice([]payload.Payload{p})).Subscribe(ignore)
		}
	}
	for _, kind := range f.c.Reqs[k].Inner {
		ask(kind, id, k)
	}
	for _, kind := range f.c.Reqs[k].Free {
		ask(kind, 0, nobody)
	}
	return &f.held[k]
}

// inner handles a request of the guest in the host.
func (f *family) inner(ctx context.Context, p payload.Payload) {
	d := p.Data()
	if len(d) != 3 {
		f.fail("the host's handler got %d bytes, not 3", len(d))
		return
	}
	k, n, owner := int(d[0]), int(d[1]), int(d[2])
	f.mu.Lock()
	f.seen[[2]int{k, n}]++
	f.mu.Unlock()
	got := ctx.Value(parentKey{})
	if owner != nobody && got != k {
		f.fail("request %d made while handling request %d has the context of %v", n, k, got)
	}
	if owner == nobody && got != nil {
		f.fail("request %d, which is made on nobody's behalf, has the context of %v", n, got)
	}
}

func (f *family) RR(side, op int, ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	if side == guestSide {
		return f.outer(ctx, p).single()
	}
	f.inner(ctx, p)
	return mono.Just(payload.Payload(payload.New(nil)))
}

func (f *family) FNF(side, op int, ctx context.Context, p payload.Payload) {
	if side == hostSide {
		f.inner(ctx, p)
	}
}

func (f *family) RS(side, op int, ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	if side == guestSide {
		return f.outer(ctx, p).flux()
	}
	f.inner(ctx, p)
	return flux.FromSlice([]payload.Payload{payload.New(nil)})
}

func (f *family) RC(side, op int, ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	in.Subscribe(flux.Subscribe[payload.Payload]{})
	return f.RS(side, op, ctx, p)
}

// runParents checks that requests which the guest makes on behalf of the
// host's have the contexts of those.
func runParents(ctx *pbt.Ctx, c parentCase) error {
	once := func() error {
		return pbt.Bubble(ctx.T, func() error {
			f := &family{c: c, seen: map[[2]int]int{}, held: make([]answering, len(c.Reqs))}
			inst, g, err := link(f, c.Batch)
			if err != nil {
				return err
			}
			defer g.clear(100)
			f.index = indexer(inst)
			ended := make([]int, len(c.Reqs))
			ends := func(k int) func() { return func() { f.mu.Lock(); ended[k]++; f.mu.Unlock() } }
			for k, r := range c.Reqs {
				f.held[k].held, f.held[k].items = true, [][]byte{{1}}
				own := context.WithValue(context.Background(), parentKey{}, k)
				meta := binary.BigEndian.AppendUint32(nil, f.index(hostSide, r.Kind, 0))
				p := payload.New([]byte{byte(k)}, append(meta, 0, 0, 0, 0))
				sub := flux.Subscribe[payload.Payload]{OnComplete: ends(k), OnError: func(error) { ends(k)() }}
				switch r.Kind {
				case e2e.RR:
					inst.RequestResponse(own, p).Subscribe(mono.Subscribe[payload.Payload]{
						OnSuccess: func(payload.Payload) { ends(k)() },
						OnError:   func(error) { ends(k)() },
					})
				case e2e.RS:
					inst.RequestStream(own, p).Subscribe(sub)
				case e2e.RC:
					inst.RequestChannel(own, p, flux.FromSlice([]payload.Payload{p})).Subscribe(sub)
				}
				if !c.Join {
					pbt.Settle()
				}
			}
			pbt.Settle()
			if f.err != nil {
				return f.err
			}
			for k, r := range c.Reqs {
				for n := range len(r.Inner) + len(r.Free) {
					if got := f.seen[[2]int{k, n}]; got != 1 {
						return fmt.Errorf("request %d made while handling request %d was handled %d times", n, k, got)
					}
				}
			}
			for _, k := range c.Order {
				g.enter(f.held[k].release)
				pbt.Settle()
				if ended[k] != 1 {
					return fmt.Errorf("request %d has ended %d times after its answer", k, ended[k])
				}
			}
			return closes(inst)
		})
	}
	times := 2
	if ctx.Replay {
		times = 20
	}
	for range times {
		if err := once(); err != nil {
			return err
		}
	}
	return nil
}
