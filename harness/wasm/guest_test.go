//go:build verif

package wasm

import (
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/verifharness/e2e"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

type guestCase struct {
	Batch bool
	Reqs  []e2e.Req
	Ops   []e2e.Op

	Copies, Times int // of the requests, and of their items
}

func genGuest(g e2e.Gen) func(*rapid.T) guestCase {
	g.Sides = []int{hostSide, guestSide}
	g.NoBlock = []int{guestSide}
	g.Slow = []int{hostSide}
	return func(t *rapid.T) guestCase {
		c := guestCase{Batch: rapid.Bool().Draw(t, "batch")}
		c.Reqs, c.Ops = g.Draw(t)
		return c
	}
}

func genMany(g e2e.Gen) func(*rapid.T) guestCase {
	gen := genGuest(g)
	return func(t *rapid.T) guestCase {
		c := gen(t)
		c.Copies, c.Times = e2e.Many(t, c.Reqs)
		return c
	}
}

// runGuest runs a case. It returns the size of the largest frame.
func runGuest(ctx *pbt.Ctx, c guestCase) (largest int, err error) {
	reqs, ops := e2e.Multiply(c.Reqs, c.Ops, c.Copies, c.Times)
	once := func() error {
		return pbt.Bubble(ctx.T, func() error {
			w := e2e.NewWorld(reqs)
			inst, g, err := connect(w, c.Batch)
			if err != nil {
				return err
			}
			defer g.clear(200)
			err = w.Run(ops)
			if g.batched > 0 {
				ctx.Label("batched")
			}
			largest = max(largest, g.largest)
			w.Finish()
			if err2 := closes(inst); err == nil {
				err = err2
			}
			return err
		})
	}
	times := 2
	if c.Copies*c.Times > 1 {
		times = 1
	}
	if ctx.Replay {
		times = 40
	}
	for range times {
		if err := once(); err != nil {
			return largest, err
		}
	}
	return largest, nil
}

func labels(ctx *pbt.Ctx, reqs []e2e.Req) (kinds, sides int) {
	ks, ss := map[int]bool{}, map[int]bool{}
	for _, r := range reqs {
		ks[r.Kind], ss[r.From] = true, true
		ctx.Label([]string{"rr", "fnf", "stream", "channel"}[r.Kind] + []string{" by host", " by guest"}[r.From])
		if r.Relay {
			ctx.Label("relayed")
		}
	}
	return len(ks), len(ss)
}

func TestC29(t *testing.T) {
	run := func(ctx *pbt.Ctx, c guestCase) error {
		kinds, sides := labels(ctx, c.Reqs)
		ctx.NonTrivialIf(len(c.Reqs) > 1 && (kinds > 1 || sides > 1))
		_, err := runGuest(ctx, c)
		return err
	}
	sizes := func(ctx *pbt.Ctx, c guestCase) error {
		labels(ctx, c.Reqs)
		largest, err := runGuest(ctx, c)
		ctx.NonTrivialIf(largest >= 1000)
		return err
	}
	all := []int{e2e.RR, e2e.RC, e2e.RS, e2e.FNF}
	pbt.Check(t, "C29",
		pbt.NewPart("mixed", 2000, 20000, "two or more requests of different kinds or from both ends",
			genGuest(e2e.Gen{Kinds: all, MaxReqs: 6, MaxItems: 4, Sizes: pbt.Lens(60),
				Styles:  []int{e2e.Unlimited, e2e.Chunks, e2e.Blocking, e2e.Awaited, e2e.Manual},
				Invalid: true, Relay: true, Block: true, Ask: []int{hostSide}}), run),
		pbt.NewPart("demand", 1000, 20000, "two or more requests of different kinds or from both ends",
			genGuest(e2e.Gen{Kinds: []int{e2e.RS, e2e.RC}, MaxReqs: 3, MaxItems: 9, Sizes: pbt.Lens(5),
				Styles: []int{e2e.Manual, e2e.Chunks, e2e.Unlimited}, Demand: true, Relay: true}), run),
		pbt.NewPart("sizes", 200, 3000, "a frame of 1000 bytes or more",
			genGuest(e2e.Gen{Kinds: all, MaxReqs: 4, MaxItems: 3, NoJoin: true,
				Sizes: pbt.Lens(16316, 16300), Items: pbt.Lens(16367, 16360, 8192),
				Styles: []int{e2e.Unlimited, e2e.Chunks}, Block: true}), sizes),
		pbt.NewPart("many", 120, 1200, "more than 30 requests under way at once, or 30 times the items",
			genMany(e2e.Gen{Kinds: all, MaxReqs: 3, MaxItems: 4, Sizes: pbt.Lens(20),
				Styles: []int{e2e.Unlimited, e2e.Chunks, e2e.Blocking, e2e.Awaited, e2e.Manual},
				Relay:  true, Block: true, Ask: []int{hostSide}}), func(ctx *pbt.Ctx, c guestCase) error {
				labels(ctx, c.Reqs)
				ctx.NonTrivialIf(len(c.Reqs)*max(c.Copies, c.Times) > 30)
				_, err := runGuest(ctx, c)
				return err
			}),
		pbt.NewPart("parents", 400, 6000, "two or more requests of the host, or several requests on behalf of one",
			genParents, func(ctx *pbt.Ctx, c parentCase) error {
				ctx.NonTrivialIf(len(c.Reqs) > 1 || len(c.Reqs[0].Inner) > 1)
				return runParents(ctx, c)
			}),
	)
}

// runForget makes several requests of each form, which all end.
func runForget(ctx *pbt.Ctx, c guestCase) error {
	const copies = 4
	n := len(c.Reqs)
	var reqs []e2e.Req
	var ops []e2e.Op
	for k := range copies {
		reqs = append(reqs, c.Reqs...)
		for _, o := range c.Ops {
			o.I += k * n
			ops = append(ops, o)
		}
	}
	return pbt.Bubble(ctx.T, func() error {
		w := e2e.NewWorld(reqs)
		inst, g, err := connect(w, c.Batch)
		if err != nil {
			return err
		}
		defer g.clear(200)
		err = w.Run(ops)
		if err == nil {
			err = e2e.Forgotten(c.Reqs, n, copies, w.Finish())
		}
		if err2 := closes(inst); err == nil {
			err = err2
		}
		return err
	})
}

func TestC35(t *testing.T) {
	run := func(ctx *pbt.Ctx, c guestCase) error {
		labels(ctx, c.Reqs)
		cancels := 0
		for _, r := range c.Reqs {
			if r.CancelAt > 0 || r.InCancelAt > 0 {
				cancels++
				ctx.Label("cancelled by the receiver of an item")
			}
		}
		for _, o := range c.Ops {
			if o.K == e2e.OpCancel || o.K == e2e.OpInCancel {
				cancels++
				if !o.Settle {
					ctx.Label("racing")
				}
			}
		}
		ctx.NonTrivialIf(cancels > 0 && len(c.Reqs) > 1)
		_, err := runGuest(ctx, c)
		return err
	}
	kinds := []int{e2e.RS, e2e.RC, e2e.RC, e2e.RR}
	styles := []int{e2e.Manual, e2e.Chunks, e2e.Unlimited}
	pbt.Check(t, "C35",
		pbt.NewPart("cancel", 1500, 20000, "a cancel with another request under way",
			genGuest(e2e.Gen{Kinds: kinds, MaxReqs: 4, MaxItems: 6, Sizes: pbt.Lens(5), Styles: styles,
				Demand: true, Relay: true, Cancel: true}), run),
		pbt.NewPart("forgotten", 300, 5000, "streams that end differently",
			genGuest(e2e.Gen{Kinds: kinds, MaxReqs: 2, MaxItems: 3, Sizes: pbt.Lens(5), Styles: styles,
				Demand: true, Relay: true, Cancel: true, Invalid: true}),
			func(ctx *pbt.Ctx, c guestCase) error {
				labels(ctx, c.Reqs)
				ctx.NonTrivialIf(len(c.Reqs) > 1 && c.Reqs[0].Kind != e2e.RR)
				return runForget(ctx, c)
			}),
	)
}

// runWire makes requests and follows what host and guest send.
func runWire(ctx *pbt.Ctx, c guestCase) error {
	labels(ctx, c.Reqs)
	once := func() error {
		return pbt.Bubble(ctx.T, func() error {
			w := e2e.NewWorld(c.Reqs)
			inst, g, err := connect(w, c.Batch)
			if err != nil {
				return err
			}
			defer g.clear(200)
			g.watch = e2e.NewProtocol(false, guestSide)
			w.Settled = g.watch.Settled
			w.Run(c.Ops) // what comes of it is decided elsewhere
			err = g.watch.Err()
			ctx.NonTrivialIf(g.watch.Frames() >= 8)
			w.Finish()
			closes(inst)
			return err
		})
	}
	times := 2
	if ctx.Replay {
		times = 40
	}
	for range times {
		if err := once(); err != nil {
			return err
		}
	}
	return nil
}

func TestC46(t *testing.T) {
	pbt.Check(t, "C46",
		pbt.NewPart("frames", 1500, 20000, "eight or more frames between host and guest",
			genGuest(e2e.Gen{Kinds: []int{e2e.RS, e2e.RC, e2e.RC, e2e.RR, e2e.FNF}, MaxReqs: 4, MaxItems: 6, Sizes: pbt.Lens(5),
				Styles: []int{e2e.Manual, e2e.Chunks, e2e.Unlimited, e2e.Blocking}, Demand: true, Relay: true, Ask: []int{hostSide}}), runWire),
		pbt.NewPart("cancelled", 1500, 20000, "eight or more frames between host and guest",
			genGuest(e2e.Gen{Kinds: []int{e2e.RS, e2e.RC, e2e.RC, e2e.RR}, MaxReqs: 4, MaxItems: 6, Sizes: pbt.Lens(5),
				Styles: []int{e2e.Manual, e2e.Chunks, e2e.Unlimited}, Demand: true, Relay: true, Cancel: true}), runWire),
	)
}
