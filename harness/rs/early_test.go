package rs

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifharness/e2e"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// earlyReq is a request whose answer is there before the call that sends the
// request has returned.
type earlyReq struct {
	Kind   int
	Data   pbt.Blob
	Items  []pbt.Blob // of the response
	Fails  bool       // and it ends with an error
	In     int        // items of the requester
	Asks   []int      // how many of them the peer asks for
	Drops  bool       // and it cancels the rest
	Chunk  int        // how many items the requester asks for at a time, or 0
	Marked bool       // the last item carries the end
}

type earlyCase struct {
	Server bool // the requester
	Reqs   []earlyReq
}

func genEarly(t *rapid.T) earlyCase {
	c := earlyCase{Server: rapid.Bool().Draw(t, "server")}
	for range rapid.IntRange(1, 5).Draw(t, "requests") {
		r := earlyReq{
			Kind:  rapid.SampledFrom([]int{e2e.RR, e2e.RS, e2e.RC}).Draw(t, "kind"),
			Data:  pbt.GenBlob(t, smallSizes),
			Fails: rapid.IntRange(0, 3).Draw(t, "fails") == 0,
		}
		most := 4
		if r.Kind == e2e.RR {
			most = 1
		}
		for range rapid.IntRange(0, most).Draw(t, "items") {
			r.Items = append(r.Items, pbt.GenBlob(t, smallSizes))
		}
		if r.Kind == e2e.RR {
			r.Fails = len(r.Items) == 0
		} else {
			r.Marked = len(r.Items) > 0 && !r.Fails && rapid.Bool().Draw(t, "marked")
			r.Chunk = rapid.IntRange(0, 3).Draw(t, "chunk")
		}
		if r.Kind == e2e.RC {
			r.In = rapid.IntRange(0, 4).Draw(t, "in")
			for range rapid.IntRange(0, 3).Draw(t, "times") {
				r.Asks = append(r.Asks, rapid.IntRange(1, 3).Draw(t, "ask"))
			}
			r.Drops = rapid.Bool().Draw(t, "drops")
		}
		c.Reqs = append(c.Reqs, r)
	}
	return c
}

// early is the peer of one request.
type early struct {
	r  earlyReq
	h  *handler.Handler
	id uint32

	mu     sync.Mutex
	got    []string // what the requester has seen
	sent   []string // what the peer has got
	next   int      // item of the response
	credit int      // what the requester has asked for
	ended  bool
}

func (e *early) see(s string) {
	e.mu.Lock()
	e.got = append(e.got, s)
	e.mu.Unlock()
}

func earlyItem(k int) string { return fmt.Sprint("item of the requester ", k) }

// respond hands over what may be sent.
func (e *early) respond() error {
	for {
		e.mu.Lock()
		if e.ended {
			e.mu.Unlock()
			return nil
		}
		var f frames.Frame
		last := e.next == len(e.r.Items)
		switch {
		case !last && e.credit > 0:
			p := &frames.Payload{StreamID: e.id, Next: true, Data: e.r.Items[e.next].Bytes()}
			e.next++
			e.credit--
			if e.next == len(e.r.Items) && (e.r.Marked || e.r.Kind == e2e.RR) {
				p.Complete = true
				e.ended = true
			}
			f = p
		case !last:
			e.mu.Unlock()
			return nil
		case e.r.Fails:
			e.ended = true
			f = &frames.Error{StreamID: e.id, Data: "no more"}
		default:
			e.ended = true
			f = &frames.Payload{StreamID: e.id, Complete: true}
		}
		e.mu.Unlock()
		if err := e.h.HandleFrame(f); err != nil {
			return err
		}
	}
}

// received is the peer's side.
func (e *early) received(f frames.Frame) (err error) {
	switch v := f.(type) {
	case *frames.RequestPayload:
		e.mu.Lock()
		e.sent = append(e.sent, fmt.Sprintf("request %v", v.Data))
		e.credit = int(v.InitialN)
		e.mu.Unlock()
		for _, n := range e.r.Asks {
			if err := e.h.HandleFrame(&frames.RequestN{StreamID: e.id, N: uint32(n)}); err != nil {
				return err
			}
		}
		if e.r.Kind == e2e.RC && len(e.r.Asks) == 0 && e.r.Drops {
			if err := e.h.HandleFrame(&frames.Cancel{StreamID: e.id}); err != nil {
				return err
			}
		}
		return e.respond()
	case *frames.RequestN:
		e.mu.Lock()
		e.credit += int(v.N)
		e.mu.Unlock()
		return e.respond()
	case *frames.Payload:
		e.mu.Lock()
		defer e.mu.Unlock()
		if v.Next {
			e.sent = append(e.sent, string(v.Data))
		}
		if v.Complete {
			e.sent = append(e.sent, "end")
		}
	case *frames.Error:
		e.mu.Lock()
		defer e.mu.Unlock()
		e.sent = append(e.sent, "error "+v.Data)
	}
	return nil
}

func runEarly(ctx *pbt.Ctx, c earlyCase) error {
	ctx.NonTrivial()
	return pbt.Bubble(ctx.T, func() error {
		mode := handler.ClientMode
		if c.Server {
			mode = handler.ServerMode
		}
		h := handler.New(context.Background(), mode)
		var mu sync.Mutex
		peers := map[uint32]*early{}
		var now *early
		var failed error
		h.SetFrameSender(func(f frames.Frame) error {
			mu.Lock()
			e := peers[f.GetStreamID()]
			if _, ok := f.(*frames.RequestPayload); ok {
				e = now
				e.id = f.GetStreamID()
				peers[e.id] = e
			}
			mu.Unlock()
			if e == nil {
				return errors.New("no such stream")
			}
			// The answer is handled while the frame is being sent, unless
			// that has to wait until it has been sent.
			var done atomic.Bool
			go func() {
				defer done.Store(true)
				if err := e.received(f); err != nil {
					mu.Lock()
					failed = err
					mu.Unlock()
				}
			}()
			for k := 0; k < 20000 && !done.Load(); k++ {
				runtime.Gosched()
			}
			return nil
		})
		for k, r := range c.Reqs {
			ctx.Label([]string{"rr", "fnf", "stream", "channel"}[r.Kind])
			e := &early{r: r, h: h}
			mu.Lock()
			now = e
			mu.Unlock()
			md := binary.BigEndian.AppendUint64(nil, uint64(k)<<32)
			p := payload.New(r.Data.Bytes(), md)
			next := func(p payload.Payload) { e.see(string(p.Data())) }
			fail := func(err error) { e.see("error " + err.Error()) }
			if r.Kind == e2e.RR {
				h.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{
					OnSuccess: next,
					OnError:   fail,
				})
			} else {
				sub := flux.Subscribe[payload.Payload]{
					OnNext:     next,
					OnComplete: func() { e.see("end") },
					OnError:    fail,
				}
				if r.Chunk > 0 {
					sub.OnRequest = func(s rx.Subscription) { s.Request(r.Chunk) }
				}
				if r.Kind == e2e.RS {
					h.RequestStream(context.Background(), p).Subscribe(sub)
				} else {
					var items []payload.Payload
					for k := range r.In {
						items = append(items, payload.New([]byte(earlyItem(k))))
					}
					h.RequestChannel(context.Background(), p, flux.FromSlice(items)).Subscribe(sub)
				}
			}
			pbt.Settle()
			mu.Lock()
			err := failed
			mu.Unlock()
			if err != nil {
				return fmt.Errorf("request %d: %w", k, err)
			}
			if err := e.check(); err != nil {
				return fmt.Errorf("request %d: %w", k, err)
			}
		}
		return nil
	})
}

func (e *early) check() error {
	e.mu.Lock()
	defer e.mu.Unlock()
	var want []string
	for _, b := range e.r.Items {
		want = append(want, string(b.Bytes()))
	}
	switch {
	case e.r.Fails:
		want = append(want, "error no more")
	case e.r.Kind != e2e.RR:
		want = append(want, "end")
	}
	if !slices.Equal(e.got, want) {
		return fmt.Errorf("the requester got %q, want %q", e.got, want)
	}
	if len(e.sent) == 0 || !bytes.Equal([]byte(e.sent[0]), []byte(fmt.Sprintf("request %v", e.r.Data.Bytes()))) {
		return fmt.Errorf("the peer got %q", e.sent)
	}
	// The items stop when the response fails, and end when they are all asked for.
	asked := 0
	for _, n := range e.r.Asks {
		asked += n
	}
	items := e.sent[1:]
	var all []string
	for k := range min(asked, e.r.In) {
		all = append(all, earlyItem(k))
	}
	if asked > 0 && asked >= e.r.In {
		all = append(all, "end")
	}
	if e.r.Fails && len(items) < len(all) {
		all = all[:len(items)]
	}
	if e.r.Kind == e2e.RC && !slices.Equal(items, all) {
		return fmt.Errorf("the peer got the items %q, want %q", items, all)
	}
	return nil
}
