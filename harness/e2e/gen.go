package e2e

import (
	"math"
	"slices"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/verifharness/pbt"
)

// Gen says which cases to generate.
type Gen struct {
	Sides    []int // who may make requests
	Kinds    []int
	MaxReqs  int
	MaxItems int
	Sizes    *rapid.Generator[int] // of data
	Items    *rapid.Generator[int] // of the data of items, if others
	Styles   []int
	Demand   bool // many requests for items
	Cancel   bool
	Invalid  bool // also unknown operations and short metadata
	Relay    bool
	Block    bool
	Ask      []int // sides whose handlers may wait for answers from the other end
	NoBlock  []int // sides that cannot block
	Slow     []int // sides whose sources may take their time
	NoJoin   bool  // no answers of everything the requester has sent
}

func boolean(t *rapid.T, label string, oneIn int) bool {
	return rapid.IntRange(0, oneIn-1).Draw(t, label) == oneIn-1
}

// Draw generates requests and operations.
func (g Gen) Draw(t *rapid.T) ([]Req, []Op) {
	n := rapid.IntRange(1, g.MaxReqs).Draw(t, "requests")
	reqs := make([]Req, n)
	for i := range reqs {
		reqs[i] = g.req(t)
		if reqs[i].Style == Blocking && slices.Contains(g.NoBlock, reqs[i].From) {
			reqs[i].Style = Awaited
		}
	}
	return reqs, g.ops(t, reqs)
}

func (g Gen) sizes(t *rapid.T, label string, atLeast int) []int {
	n := rapid.IntRange(atLeast, g.MaxItems).Draw(t, label)
	sizes := g.Sizes
	if g.Items != nil {
		sizes = g.Items
	}
	out := make([]int, n)
	for i := range out {
		out[i] = sizes.Draw(t, "size")
	}
	return out
}

func (g Gen) req(t *rapid.T) Req {
	r := Req{
		From: rapid.SampledFrom(g.Sides).Draw(t, "from"),
		Kind: rapid.SampledFrom(g.Kinds).Draw(t, "kind"),
		Op:   rapid.IntRange(0, 2).Draw(t, "op"),
		Data: pbt.GenBlob(t, g.Sizes),
	}
	if boolean(t, "extra", 3) {
		r.Extra = pbt.GenBlob(t, pbt.Lens(40))
	}
	if g.Invalid {
		switch rapid.IntRange(0, 11).Draw(t, "invalid") {
		case 10:
			r.Op = rapid.IntRange(3, 5).Draw(t, "unknown")
		case 11:
			r.Short = rapid.IntRange(1, 8).Draw(t, "short")
		}
	}
	if g.Relay && boolean(t, "relay", 5) {
		r.Relay = true
	}
	if slices.Contains(g.Ask, 1-r.From) && boolean(t, "ask", 4) {
		r.Ask = rapid.IntRange(1, 3).Draw(t, "asks")
		if r.Relay {
			r.Ask = 1
		}
	}
	if r.Kind == FNF {
		return r
	}
	r.Src = rapid.IntRange(0, 2).Draw(t, "src")
	r.Hold = boolean(t, "hold", 4)
	if boolean(t, "fail", 3) {
		r.Fail = rapid.IntRange(1, len(failures)).Draw(t, "failure")
	}
	r.Mapped = boolean(t, "mapped", 4)
	last := 1 - r.From
	if r.Relay {
		last = r.From
	}
	r.Slow = slices.Contains(g.Slow, last) && boolean(t, "slow", 4)
	if r.Kind == RR {
		r.Items = g.sizes(t, "items", 1)[:1]
		if g.Block {
			r.Style = rapid.SampledFrom([]int{Unlimited, Blocking, Awaited}).Draw(t, "style")
		}
		r.Too = r.Style == Unlimited && boolean(t, "too", 4)
		return r
	}
	r.Items = g.sizes(t, "items", 0)
	r.Style = rapid.SampledFrom(g.Styles).Draw(t, "style")
	if r.Style == Chunks {
		r.Chunk = rapid.IntRange(1, 4).Draw(t, "chunk")
	}
	if r.Style == Blocking || r.Style == Awaited {
		if !g.Block {
			r.Style = Unlimited
		}
	} else if g.Cancel && boolean(t, "cancelAt", 3) {
		r.CancelAt = rapid.IntRange(1, g.MaxItems).Draw(t, "n")
	}
	r.Too = r.Style != Blocking && r.Style != Awaited && boolean(t, "too", 4)
	if r.Kind == RC {
		r.InSlow = slices.Contains(g.Slow, r.From) && boolean(t, "in slow", 4)
		r.Mode = rapid.SampledFrom([]int{Echo, Independent, Collect}).Draw(t, "mode")
		if g.NoJoin && r.Mode == Collect {
			r.Mode = Independent
		}
		r.InSrc = rapid.IntRange(0, 2).Draw(t, "in src")
		r.InItems = g.sizes(t, "in items", 0)
		r.InHold = boolean(t, "in hold", 4)
		r.InEager = boolean(t, "in eager", 2)
		if boolean(t, "in fail", 3) {
			r.InFail = rapid.IntRange(1, len(failures)).Draw(t, "in failure")
		}
		if r.Mode != Echo {
			r.InStyle = rapid.SampledFrom([]int{Unlimited, Chunks, Manual}).Draw(t, "in style")
			if r.InStyle == Chunks {
				r.InChunk = rapid.IntRange(1, 4).Draw(t, "in chunk")
			}
		}
		if r.Mode == Collect && r.InStyle == Manual && r.Style == Blocking {
			r.Style = Unlimited // it may never end
		}
		if r.Mode == Independent && g.Cancel && boolean(t, "inCancelAt", 3) {
			r.InCancelAt = rapid.IntRange(1, g.MaxItems).Draw(t, "n")
		}
	}
	return r
}

func (g Gen) ops(t *rapid.T, reqs []Req) []Op {
	settle := rapid.Bool()
	var pool []Op // to be interleaved after the starts
	for i, r := range reqs {
		if r.Kind == FNF {
			continue
		}
		if r.Hold {
			pool = append(pool, Op{K: OpRelease, I: i})
		}
		if r.Kind == RR {
			continue
		}
		own := r.Style == Manual || r.Style == Chunks
		if own {
			most := 1
			if g.Demand || r.Style == Manual {
				most = 4
			}
			for k := rapid.IntRange(0, most).Draw(t, "requests"); k > 0; k-- {
				n := rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, g.MaxItems+2), rapid.SampledFrom([]int{math.MaxInt32, math.MaxInt32 - 1, math.MaxInt, math.MaxInt/2 + 1})).Draw(t, "n")
				pool = append(pool, Op{K: OpRequest, I: i, N: n})
			}
		}
		if g.Cancel && r.Style != Blocking && r.Style != Awaited && boolean(t, "cancel", 2) {
			pool = append(pool, Op{K: OpCancel, I: i})
		}
		if r.Kind == RC {
			if r.InHold {
				pool = append(pool, Op{K: OpInRelease, I: i})
			}
			if r.Mode != Echo && r.InStyle != Unlimited {
				most := 1
				if r.InStyle == Manual {
					most = 4
				}
				for k := rapid.IntRange(0, most).Draw(t, "in requests"); k > 0; k-- {
					pool = append(pool, Op{K: OpInRequest, I: i, N: rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, g.MaxItems+2), rapid.SampledFrom([]int{math.MaxInt32, math.MaxInt, math.MaxInt/2 + 1})).Draw(t, "n")})
				}
			}
			if r.Mode == Independent && g.Cancel && boolean(t, "in cancel", 3) {
				pool = append(pool, Op{K: OpInCancel, I: i})
			}
		}
	}
	if len(pool) > 1 {
		pool = rapid.Permutation(pool).Draw(t, "order")
	}
	// A request starts right before its first operation, or earlier.
	var ops []Op
	started := make([]bool, len(reqs))
	start := func(i int) {
		if !started[i] {
			started[i] = true
			ops = append(ops, Op{K: OpStart, I: i, Settle: settle.Draw(t, "settle")})
		}
	}
	early := rapid.IntRange(0, len(reqs)).Draw(t, "early")
	for i := range early {
		start(i)
	}
	for _, op := range pool {
		start(op.I)
		op.Settle = settle.Draw(t, "settle")
		ops = append(ops, op)
	}
	for i := range reqs {
		start(i)
	}
	return ops
}

// Many draws how much a few requests are multiplied.
func Many(t *rapid.T, reqs []Req) (copies, items int) {
	copies, items = 1, 1
	if rapid.Bool().Draw(t, "long") {
		items = rapid.IntRange(20, 600).Draw(t, "times")
		return copies, items
	}
	copies = rapid.IntRange(10, 150).Draw(t, "copies")
	for k := range reqs {
		if reqs[k].Kind != FNF && rapid.IntRange(0, 3).Draw(t, "hold") > 0 {
			reqs[k].Hold = true
		}
	}
	return copies, items
}

// Multiply makes copies of the requests, all under way at the same time, or
// requests with many times the items.
func Multiply(reqs []Req, ops []Op, copies, items int) ([]Req, []Op) {
	if copies < 2 && items < 2 {
		return reqs, ops
	}
	repeat := func(sizes []int) []int {
		var out []int
		for range items {
			out = append(out, sizes...)
		}
		return out
	}
	var rs []Req
	var os []Op
	for range copies {
		for _, r := range reqs {
			if r.Kind != RR {
				r.Items = repeat(r.Items)
			}
			r.InItems = repeat(r.InItems)
			rs = append(rs, r)
		}
	}
	// Everything is started first.
	for k := range copies {
		for _, o := range ops {
			if o.K == OpStart {
				os = append(os, Op{K: o.K, I: o.I + k*len(reqs), N: o.N})
			}
		}
	}
	for k := range copies {
		for j, o := range ops {
			if o.K != OpStart {
				os = append(os, Op{K: o.K, I: o.I + k*len(reqs), N: o.N, Settle: copies == 1 && o.Settle || j == len(ops)-1 && k == copies-1})
			}
		}
	}
	return rs, os
}
