// Package rs connects two RSocket endpoints with each other.
package rs

import (
	"context"
	"fmt"
	"net"
	"sync"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/verifharness/e2e"
)

type endKey struct{}

// responder answers the requests that reach one side.
type responder interface {
	RR(side, op int, ctx context.Context, p payload.Payload) mono.Mono[payload.Payload]
	FNF(side, op int, ctx context.Context, p payload.Payload)
	RS(side, op int, ctx context.Context, p payload.Payload) flux.Flux[payload.Payload]
	RC(side, op int, ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload]
}

type end struct {
	w    responder
	side int
}

var names = []string{"alpha", "beta", "gamma"}

const ns = "vt.e2e"

// offset is how many other operations of the kind there are before.
var offset = [4]int{e2e.RR: 0, e2e.FNF: 1, e2e.RS: 2, e2e.RC: 3}

// register exports the operations, under different indexes for every kind.
var register = sync.OnceFunc(func() {
	for k := range 3 {
		name := fmt.Sprintf("other%d", k)
		if k < offset[e2e.FNF] {
			exportFNF(name, -1)
		}
		if k < offset[e2e.RS] {
			exportRS(name, -1)
		}
		if k < offset[e2e.RC] {
			exportRC(name, -1)
		}
	}
	for op, name := range names {
		exportRR(name, op)
		exportFNF(name, op)
		exportRS(name, op)
		exportRC(name, op)
	}
})

func exportRR(name string, op int) {
	invoke.ExportRequestResponse(ns, name, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		e := ctx.Value(endKey{}).(end)
		return e.w.RR(e.side, op, ctx, p)
	})
}

func exportFNF(name string, op int) {
	invoke.ExportFireAndForget(ns, name, func(ctx context.Context, p payload.Payload) {
		e := ctx.Value(endKey{}).(end)
		e.w.FNF(e.side, op, ctx, p)
	})
}

func exportRS(name string, op int) {
	invoke.ExportRequestStream(ns, name, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		e := ctx.Value(endKey{}).(end)
		return e.w.RS(e.side, op, ctx, p)
	})
}

func exportRC(name string, op int) {
	invoke.ExportRequestChannel(ns, name, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		e := ctx.Value(endKey{}).(end)
		return e.w.RC(e.side, op, ctx, p, in)
	})
}

// index is the index of an operation, which operation 3 has not.
func index(kind, op int) uint32 {
	if op >= len(names) {
		return uint32(1000 + op)
	}
	return uint32(offset[kind] + op)
}

// endpoint is one end of a connection.
type endpoint struct {
	h    *handler.Handler
	t    *rsocket.Transport
	done chan error
}

func newEndpoint(ctx context.Context, w responder, side int, server bool, c net.Conn) *endpoint {
	register()
	mode := handler.ClientMode
	if server {
		mode = handler.ServerMode
	}
	ctx = context.WithValue(ctx, endKey{}, end{w, side})
	h := handler.New(ctx, mode)
	t := rsocket.NewTransport(rsocket.NewTCPConn(c), h, server)
	h.SetFrameSender(func(f frames.Frame) error { return t.Send(f, true) })
	e := &endpoint{h: h, t: t, done: make(chan error, 1)}
	return e
}

// slow makes every frame take its time: the k-th one before it is sent, and
// after that until its sender may go on.
func (e *endpoint) slow(delays [][2]int) {
	turn := make(chan struct{}, 1)
	k := 0
	e.h.SetFrameSender(func(f frames.Frame) error {
		turn <- struct{}{}
		d := delays[k%len(delays)]
		k++
		e2e.Yield(d[0])
		err := e.t.Send(f, true)
		e2e.Yield(d[1])
		<-turn
		return err
	})
}

// follow lets the world's operations follow each other while frames are on
// their way.
func follow(w *e2e.World, client, server *endpoint, delays [][2]int) {
	if len(delays) == 0 {
		return
	}
	client.slow(delays)
	if len(delays) > 1 {
		delays = delays[1:]
	}
	server.slow(delays)
	w.Step = func() { e2e.Yield(30) }
}

// genDelays is how long frames take, if they do.
func genDelays(t *rapid.T) [][2]int {
	if rapid.IntRange(0, 2).Draw(t, "slow") < 2 {
		return nil
	}
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) [2]int {
		d := rapid.SampledFrom([]int{0, 10, 50, 300})
		return [2]int{d.Draw(t, "before"), d.Draw(t, "after")}
	}), 1, 5).Draw(t, "delays")
}

func (e *endpoint) start(ctx context.Context) {
	go func() { e.done <- e.t.Start(ctx) }()
}

func (e *endpoint) setup() error {
	return e.t.Send(&frames.Setup{MinorVersion: 2, Data: invoke.GetOperationsTable().ToBytes()}, true)
}
