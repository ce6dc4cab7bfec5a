package rs

import (
	"context"
	"fmt"
	"net"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/verifharness/e2e"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

type e2eCase struct {
	Buffered bool
	Delays   [][2]int // before and after every frame
	Reqs     []e2e.Req
	Ops      []e2e.Op

	Copies, Times int // of the requests, and of their items
}

func genE2E(g e2e.Gen) func(*rapid.T) e2eCase {
	return func(t *rapid.T) e2eCase {
		c := e2eCase{Buffered: rapid.Bool().Draw(t, "buffered")}
		c.Delays = genDelays(t)
		c.Reqs, c.Ops = g.Draw(t)
		return c
	}
}

func genMany(g e2e.Gen) func(*rapid.T) e2eCase {
	gen := genE2E(g)
	return func(t *rapid.T) e2eCase {
		c := gen(t)
		c.Delays = nil
		c.Copies, c.Times = e2e.Many(t, c.Reqs)
		return c
	}
}

// runMany runs a case with many requests, or many items.
func runMany(ctx *pbt.Ctx, c e2eCase) error {
	ctx.NonTrivialIf(len(c.Reqs)*max(c.Copies, c.Times) > 30)
	if c.Copies > 1 {
		ctx.Label("many requests")
	} else {
		ctx.Label("many items")
	}
	return runE2E(ctx, c)
}

// pair connects a client (side 0) and a server (side 1).
func pair(ctx context.Context, w *e2e.World, buffered bool) (client, server *endpoint, err error) {
	a, b := net.Pipe()
	if buffered {
		a, b = bufPipe()
	}
	if client, server, err = connect(ctx, w, a, b); err != nil {
		return nil, nil, err
	}
	w.Callers = [2]invoke.Caller{client.h, server.h}
	w.Index = indexer(server)
	w.Bare = bare
	return client, server, nil
}

// bare tells which handlers get the metadata without its header.
func bare(side, kind int) bool { return kind == e2e.RR || kind == e2e.FNF }

// connect starts a client and a server.
func connect(ctx context.Context, w responder, a, b net.Conn) (client, server *endpoint, err error) {
	client = newEndpoint(ctx, w, 0, false, a)
	server = newEndpoint(ctx, w, 1, true, b)
	server.start(ctx)
	if err := client.setup(); err != nil {
		return nil, nil, fmt.Errorf("setup: %w", err)
	}
	client.start(ctx)
	server.t.WaitUntilReady()
	return client, server, nil
}

// indexer tells the index an operation of the other side is called under.
func indexer(server *endpoint) func(from, kind, op int) uint32 {
	return func(from, kind, op int) uint32 {
		if from == 0 {
			return index(kind, op)
		}
		ns, name := ns, "none"
		switch {
		case op < len(names):
			name = names[op]
		case op == 4:
			ns, name = "vt", names[0]
		case op == 5:
			name = fmt.Sprintf("other%d", offset[kind]) // of other kinds
		}
		switch kind {
		case e2e.RR:
			return server.h.ImportRequestResponse(ns, name)
		case e2e.FNF:
			return server.h.ImportFireAndForget(ns, name)
		case e2e.RS:
			return server.h.ImportRequestStream(ns, name)
		default:
			return server.h.ImportRequestChannel(ns, name)
		}
	}
}

func (e *endpoint) stopped() error {
	select {
	case <-e.done:
		return nil
	default:
		return fmt.Errorf("an endpoint still runs although its connection is closed")
	}
}

func runE2E(ctx *pbt.Ctx, c e2eCase) error {
	reqs, ops := e2e.Multiply(c.Reqs, c.Ops, c.Copies, c.Times)
	once := func() error {
		return pbt.Bubble(ctx.T, func() error {
			w := e2e.NewWorld(reqs)
			client, server, err := pair(context.Background(), w, c.Buffered)
			if err != nil {
				return err
			}
			follow(w, client, server, c.Delays)
			err = w.Run(ops)
			client.t.Close()
			pbt.Settle()
			if err == nil {
				err = client.stopped()
			}
			if err == nil {
				err = server.stopped()
			}
			server.t.Close()
			return err
		})
	}
	times := 3
	if c.Copies*c.Times > 1 {
		times = 1
	}
	if ctx.Replay {
		times = 40
	}
	for range times {
		if err := once(); err != nil {
			return err
		}
	}
	return nil
}

// runForget makes several requests of each form, which all end.
func runForget(ctx *pbt.Ctx, c e2eCase) error {
	const copies = 4
	n := len(c.Reqs)
	var reqs []e2e.Req
	var ops []e2e.Op
	for k := range copies {
		reqs = append(reqs, c.Reqs...)
		for _, o := range c.Ops {
			o.I += k * n
			ops = append(ops, o)
		}
	}
	return pbt.Bubble(ctx.T, func() error {
		w := e2e.NewWorld(reqs)
		client, server, err := pair(context.Background(), w, c.Buffered)
		if err != nil {
			return err
		}
		err = w.Run(ops)
		if err == nil {
			err = e2e.Forgotten(c.Reqs, n, copies, w.Finish())
		}
		client.t.Close()
		pbt.Settle()
		server.t.Close()
		return err
	})
}

var smallSizes = pbt.Lens(60)

func TestC24(t *testing.T) {
	run := func(ctx *pbt.Ctx, c e2eCase) error {
		kinds, sides := map[int]bool{}, map[int]bool{}
		for _, r := range c.Reqs {
			kinds[r.Kind] = true
			sides[r.From] = true
			ctx.Label([]string{"rr", "fnf", "stream", "channel"}[r.Kind])
			if r.Op > 2 || r.Short > 0 {
				ctx.Label("invalid")
			}
			if r.Relay {
				ctx.Label("relayed")
			}
		}
		ctx.NonTrivialIf(len(c.Reqs) > 1 && (len(kinds) > 1 || len(sides) > 1))
		return runE2E(ctx, c)
	}
	pbt.Check(t, "C24",
		pbt.NewPart("mixed", 4000, 20000, "two or more requests of different kinds or from both ends",
			genE2E(e2e.Gen{Sides: []int{0, 1}, Slow: []int{0, 1}, Kinds: []int{e2e.RR, e2e.RC, e2e.RS, e2e.FNF}, MaxReqs: 6, MaxItems: 4,
				Sizes: smallSizes, Styles: []int{e2e.Unlimited, e2e.Chunks, e2e.Blocking, e2e.Awaited, e2e.Manual},
				Invalid: true, Relay: true, Block: true, Ask: []int{0, 1}}), run),
		pbt.NewPart("sizes", 600, 3000, "two or more requests of different kinds or from both ends",
			genE2E(e2e.Gen{Sides: []int{0, 1}, Slow: []int{0, 1}, Kinds: []int{e2e.RR, e2e.RC, e2e.RS, e2e.FNF}, MaxReqs: 4, MaxItems: 3,
				Sizes:  pbt.Lens(20000, 8177, 8178, 8179, 8192, 16384, 65535, 65536, 70000, 1<<18),
				Styles: []int{e2e.Unlimited, e2e.Chunks}, Block: true}), run),
		pbt.NewPart("many", 150, 1500, "more than 30 requests under way at once, or 30 times the items",
			genMany(e2e.Gen{Sides: []int{0, 1}, Slow: []int{0, 1}, Kinds: []int{e2e.RR, e2e.RC, e2e.RS, e2e.FNF}, MaxReqs: 3, MaxItems: 4,
				Sizes: pbt.Lens(20), Styles: []int{e2e.Unlimited, e2e.Chunks, e2e.Blocking, e2e.Awaited, e2e.Manual},
				Relay: true, Block: true, Ask: []int{0, 1}}), runMany),
		pbt.NewPart("early", 2000, 20000, "always", genEarly, runEarly),
	)
}

func TestC25(t *testing.T) {
	run := func(ctx *pbt.Ctx, c e2eCase) error {
		requests, settled := 0, true
		racing := false
		for _, o := range c.Ops {
			if o.K == e2e.OpRequest || o.K == e2e.OpInRequest {
				requests++
				if !settled {
					racing = true
				}
			}
			settled = o.Settle
		}
		if racing {
			ctx.Label("racing")
		}
		ctx.NonTrivialIf(requests > 1)
		return runE2E(ctx, c)
	}
	pbt.Check(t, "C25",
		pbt.NewPart("demand", 1500, 20000, "two or more requests for items beyond the first",
			genE2E(e2e.Gen{Sides: []int{0, 1}, Slow: []int{0, 1}, Kinds: []int{e2e.RS, e2e.RC}, MaxReqs: 3, MaxItems: 9,
				Sizes: pbt.Lens(5), Styles: []int{e2e.Manual, e2e.Chunks, e2e.Unlimited}, Demand: true, Relay: true}), run),
	)
}

// runWire makes requests and follows what the two ends send.
func runWire(ctx *pbt.Ctx, c e2eCase) error {
	once := func() error {
		return pbt.Bubble(ctx.T, func() error {
			w := e2e.NewWorld(c.Reqs)
			a, b := net.Pipe()
			if c.Buffered {
				a, b = bufPipe()
			}
			p := e2e.NewProtocol(true, 0)
			client, server, err := connect(context.Background(), w, &tap{Conn: a, side: 0, p: p}, &tap{Conn: b, side: 1, p: p})
			if err != nil {
				return err
			}
			w.Callers = [2]invoke.Caller{client.h, server.h}
			w.Index = indexer(server)
			w.Settled = p.Settled
			w.Bare = bare
			follow(w, client, server, c.Delays)
			w.Run(c.Ops) // what comes of it is decided elsewhere
			err = p.Err()
			client.t.Close()
			pbt.Settle()
			server.t.Close()
			ctx.NonTrivialIf(p.Frames() >= 8)
			return err
		})
	}
	times := 3
	if ctx.Replay {
		times = 40
	}
	for range times {
		if err := once(); err != nil {
			return err
		}
	}
	return nil
}

func TestC45(t *testing.T) {
	pbt.Check(t, "C45",
		pbt.NewPart("frames", 3000, 20000, "eight or more frames on the connection",
			genE2E(e2e.Gen{Sides: []int{0, 1}, Slow: []int{0, 1}, Kinds: []int{e2e.RS, e2e.RC, e2e.RC, e2e.RR, e2e.FNF}, MaxReqs: 4, MaxItems: 6,
				Sizes: pbt.Lens(5), Styles: []int{e2e.Manual, e2e.Chunks, e2e.Unlimited, e2e.Blocking}, Demand: true, Relay: true, Ask: []int{0, 1}}), runWire),
		pbt.NewPart("cancelled", 3000, 20000, "eight or more frames on the connection",
			genE2E(e2e.Gen{Sides: []int{0, 1}, Slow: []int{0, 1}, Kinds: []int{e2e.RS, e2e.RC, e2e.RC, e2e.RR}, MaxReqs: 4, MaxItems: 6,
				Sizes: pbt.Lens(5), Styles: []int{e2e.Manual, e2e.Chunks, e2e.Unlimited}, Demand: true, Relay: true, Cancel: true}), runWire),
	)
}

func TestC26(t *testing.T) {
	run := func(ctx *pbt.Ctx, c e2eCase) error {
		cancels := 0
		for _, r := range c.Reqs {
			if r.CancelAt > 0 || r.InCancelAt > 0 {
				cancels++
				ctx.Label("cancelled by the receiver of an item")
			}
		}
		for _, o := range c.Ops {
			if o.K == e2e.OpCancel || o.K == e2e.OpInCancel {
				cancels++
				if !o.Settle {
					ctx.Label("racing")
				}
			}
		}
		ctx.NonTrivialIf(cancels > 0 && len(c.Reqs) > 1)
		return runE2E(ctx, c)
	}
	pbt.Check(t, "C26",
		pbt.NewPart("cancel", 3000, 20000, "a cancel with another request on the connection",
			genE2E(e2e.Gen{Sides: []int{0, 1}, Slow: []int{0, 1}, Kinds: []int{e2e.RS, e2e.RC, e2e.RC, e2e.RR}, MaxReqs: 4, MaxItems: 6,
				Sizes: pbt.Lens(5), Styles: []int{e2e.Manual, e2e.Chunks, e2e.Unlimited}, Demand: true, Relay: true, Cancel: true, Ask: []int{0, 1}}), run),
		pbt.NewPart("clash", 1500, 12000, "frames of the peer, and something that the application does", genClash, runClash),
		pbt.NewPart("forgotten", 300, 5000, "streams that end differently",
			genE2E(e2e.Gen{Sides: []int{0, 1}, Slow: []int{0, 1}, Kinds: []int{e2e.RS, e2e.RC, e2e.RC, e2e.RR}, MaxReqs: 2, MaxItems: 3,
				Sizes: pbt.Lens(5), Styles: []int{e2e.Manual, e2e.Chunks, e2e.Unlimited}, Demand: true, Relay: true, Cancel: true, Invalid: true}),
			func(ctx *pbt.Ctx, c e2eCase) error {
				ctx.NonTrivialIf(len(c.Reqs) > 1 && c.Reqs[0].Kind != e2e.RR)
				return runForget(ctx, c)
			}),
	)
}
