//go:build verif

package wasm

import (
	"context"
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"unsafe"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/verifharness/e2e"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// The guest runtime keeps its state in variables: there is one guest.

const (
	hostSide  = 0
	guestSide = 1
)

// responder answers the requests that reach one side.
type responder interface {
	RR(side, op int, ctx context.Context, p payload.Payload) mono.Mono[payload.Payload]
	FNF(side, op int, ctx context.Context, p payload.Payload)
	RS(side, op int, ctx context.Context, p payload.Payload) flux.Flux[payload.Payload]
	RC(side, op int, ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload]
}

// current answers the guest's operations.
var current responder

var names = []string{"alpha", "beta", "gamma"}

const ns = "vt.wasm"

// offset is how many other operations of the kind are exported.
var offset = [4]int{e2e.RR: 0, e2e.FNF: 1, e2e.RS: 2, e2e.RC: 3}

// register exports and imports the operations, under different indexes.
var register = sync.OnceFunc(func() {
	for k := range 3 {
		name := fmt.Sprintf("other%d", k)
		if k < 1 {
			exportFNF(name, -1)
			invoke.ImportRequestStream(ns, name)
		}
		if k < 2 {
			exportRS(name, -1)
			invoke.ImportRequestChannel(ns, name)
		}
		exportRC(name, -1)
		invoke.ImportRequestResponse(ns, name)
	}
	invoke.ImportRequestResponse(ns, "none")
	invoke.ImportFireAndForget(ns, "none")
	invoke.ImportRequestStream(ns, "none")
	invoke.ImportRequestChannel(ns, "none")
	for op, name := range names {
		exportRR(name, op)
		exportFNF(name, op)
		exportRS(name, op)
		exportRC(name, op)
		invoke.ImportRequestResponse(ns, name)
		invoke.ImportFireAndForget(ns, name)
		invoke.ImportRequestStream(ns, name)
		invoke.ImportRequestChannel(ns, name)
	}
})

func exportRR(name string, op int) {
	invoke.ExportRequestResponse(ns, name, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		return current.RR(guestSide, op, ctx, p)
	})
}

func exportFNF(name string, op int) {
	invoke.ExportFireAndForget(ns, name, func(ctx context.Context, p payload.Payload) {
		current.FNF(guestSide, op, ctx, p)
	})
}

func exportRS(name string, op int) {
	invoke.ExportRequestStream(ns, name, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		return current.RS(guestSide, op, ctx, p)
	})
}

func exportRC(name string, op int) {
	invoke.ExportRequestChannel(ns, name, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		return current.RC(guestSide, op, ctx, p, in)
	})
}

// theGuest runs the guest runtime. Like a module's code it runs one thing at a
// time.
type theGuest struct {
	batch bool // hand over several frames at once
	mu    sync.Mutex
	in    []byte // the guest's buffers
	out   []byte
	e     *entry
	watch *e2e.Protocol // optional

	toGuest, toHost []byte // frames waiting for others
	flushing        bool
	batched         int // buffers of several frames
	largest         int // of the frames
	cut             bool
	inside          atomic.Uint64 // the goroutine that is in the guest
}

// enter runs something in the guest.
func (g *theGuest) enter(f func()) {
	g.mu.Lock()
	g.inside.Store(goroutine())
	defer func() {
		g.inside.Store(0)
		g.mu.Unlock()
	}()
	f()
}

// inline tells whether the guest is what runs. It does not have goroutines.
func (g *theGuest) inline() bool {
	in := g.inside.Load()
	return in != 0 && in == goroutine()
}

// goroutine is the number of the goroutine.
func goroutine() uint64 {
	var buf [64]byte
	var n uint64
	for _, c := range buf[len("goroutine "):runtime.Stack(buf[:], false)] {
		if c < '0' || c > '9' {
			break
		}
		n = 10*n + uint64(c-'0')
	}
	return n
}

func (g *theGuest) init(e *entry, sendSize, recvSize, maxFrame uint32) {
	g.e = e
	g.start(sendSize, recvSize, maxFrame, e.buffers, e.operations, func(n uint32) {
		if g.cut {
			return
		}
		b := g.out[:n]
		g.see(guestSide, b)
		g.largest = max(g.largest, int(n))
		if !g.batch {
			e.send(b)
			return
		}
		if len(g.toHost)+len(b) > len(g.out) {
			g.flushOut()
		}
		if len(g.toHost) > 0 {
			g.batched++
		}
		g.toHost = append(g.toHost, b...)
		g.flushLater()
	})
}

// start starts the guest runtime.
func (g *theGuest) start(sendSize, recvSize, maxFrame uint32, buffers func(), operations func([]byte), send func(n uint32)) {
	flux.VerifInline = g.inline
	guest.VerifHost.InitBuffers = func(in, out uintptr) {
		g.in = unsafe.Slice((*byte)(unsafe.Pointer(in)), sendSize)
		g.out = unsafe.Slice((*byte)(unsafe.Pointer(out)), recvSize)
		buffers()
	}
	guest.VerifHost.OpList = func(ptr uintptr, size uint32) {
		operations(unsafe.Slice((*byte)(unsafe.Pointer(ptr)), size))
	}
	guest.VerifHost.Send = func(n uint32) {
		if !g.inline() {
			panic("guest code runs beside the guest")
		}
		send(n)
	}
	g.enter(func() { guest.Init(sendSize, recvSize, maxFrame) })
}

func (g *theGuest) opList(*entry) {
	g.enter(guest.OperationList)
}

func (g *theGuest) frames(_ *entry, b []byte) {
	g.enter(func() { g.receive(b) })
}

// see shows what a side sends to who watches.
func (g *theGuest) see(side int, b []byte) {
	if g.watch == nil {
		return
	}
	fs, err := unframed(b)
	for _, f := range fs {
		g.watch.Sent(side, e2e.Frame{Type: f.Type, Stream: f.Stream, N: f.N,
			Follows: f.Flags&fFollows != 0, Complete: f.Flags&fComplete != 0, Next: f.Flags&fNext != 0})
	}
	if err != nil {
		g.watch.Malformed(side, err)
	}
}

func (g *theGuest) receive(b []byte) {
	g.see(hostSide, b)
	g.largest = max(g.largest, len(b))
	if !g.batch {
		copy(g.in, b)
		guest.GuestSend(uint32(len(b)))
		return
	}
	if len(g.toGuest)+len(b) > len(g.in) {
		g.flushIn()
	}
	if len(g.toGuest) > 0 {
		g.batched++
	}
	g.toGuest = append(g.toGuest, b...)
	g.flushLater()
}

func (g *theGuest) flushIn() {
	b := g.toGuest
	g.toGuest = nil
	copy(g.in, b)
	guest.GuestSend(uint32(len(b)))
}

func (g *theGuest) flushOut() {
	b := g.toHost
	g.toHost = nil
	g.e.send(b)
}

// flushLater hands over what waits after giving others time to add to it.
func (g *theGuest) flushLater() {
	if g.flushing {
		return
	}
	g.flushing = true
	go func() {
		for range 10 {
			runtime.Gosched()
		}
		g.enter(g.flush)
	}()
}

func (g *theGuest) flush() {
	if len(g.toGuest) > 0 {
		g.flushIn()
	}
	if len(g.toHost) > 0 {
		g.flushOut()
	}
	g.flushing = false
	if len(g.toGuest)+len(g.toHost) > 0 {
		g.flushLater()
	}
}

// clear makes the guest forget the streams up to a number, for the next case.
func (g *theGuest) clear(n int) {
	var ids []uint32
	for id := 1; id <= n; id++ {
		ids = append(ids, uint32(id))
	}
	g.enter(func() { g.forget(ids) })
}

func (g *theGuest) forget(ids []uint32) {
	g.cut = true
	defer quiet(2)()
	var b []byte
	hand := func() {
		copy(g.in, b)
		guest.GuestSend(uint32(len(b)))
		b = nil
	}
	for _, id := range ids {
		b = append(b, framed(wire{Type: tError, Stream: id, Data: []byte("over")}, wire{Type: tCancel, Stream: id})...)
		if len(b) > 10000 {
			hand()
		}
	}
	hand()
	*guest.HostInvoker = guest.Caller{}
}

// quiet drops what is printed to the file. It returns what ends that.
func quiet(fd int) func() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return func() {}
	}
	defer null.Close()
	saved, err := syscall.Dup(fd)
	if err != nil {
		return func() {}
	}
	syscall.Dup3(int(null.Fd()), fd, 0)
	return func() {
		syscall.Dup3(saved, fd, 0)
		syscall.Close(saved)
	}
}

type markKey struct{}

// connect starts a host with the guest and links their operations.
func connect(w *e2e.World, batch bool) (*host.Instance, *theGuest, error) {
	inst, g, err := link(w, batch)
	if err != nil {
		return nil, nil, err
	}
	w.Ctx = context.WithValue(context.Background(), markKey{}, true)
	w.Callers = callers(inst)
	w.Enter[guestSide] = g.enter
	w.Parent = func(ctx context.Context) uint32 {
		if s, ok := proxy.FromContext(ctx); ok {
			return s.StreamID()
		}
		return 0
	}
	w.Index = indexer(inst)
	w.Bare = bare
	return inst, g, nil
}

func callers(inst *host.Instance) [2]invoke.Caller {
	return [2]invoke.Caller{inst, guest.HostInvoker}
}

var kinds = map[operations.RequestType]int{operations.RequestResponse: e2e.RR, operations.FireAndForget: e2e.FNF,
	operations.RequestStream: e2e.RS, operations.RequestChannel: e2e.RC}

func opIndex(name string) int {
	for i, n := range names {
		if n == name {
			return i
		}
	}
	return -1
}

// link starts a host with the guest. Both sides' requests go to w.
func link(w responder, batch bool) (*host.Instance, *theGuest, error) {
	register()
	current = w
	g := &theGuest{batch: batch}
	inst, err := instantiate(0, g)
	if err != nil {
		return nil, nil, err
	}
	exported, imported := 0, 0
	parents, _ := w.(interface {
		CheckParent(context.Context, payload.Payload, any)
	})
	for _, o := range inst.Operations() {
		op := opIndex(o.Operation)
		if o.Namespace != ns {
			return nil, nil, fmt.Errorf("the host sees an operation of %q, which does not exist", o.Namespace)
		}
		if op < 0 {
			continue
		}
		if o.Direction == operations.Export {
			exported++
			continue
		}
		imported++
		switch kinds[o.Type] {
		case e2e.RR:
			inst.SetRequestResponseHandler(o.Index, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
				if parents != nil {
					parents.CheckParent(ctx, p, markKey{})
				}
				return w.RR(hostSide, op, ctx, p)
			})
		case e2e.FNF:
			inst.SetFireAndForgetHandler(o.Index, func(ctx context.Context, p payload.Payload) {
				w.FNF(hostSide, op, ctx, p)
			})
		case e2e.RS:
			inst.SetRequestStreamHandler(o.Index, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
				return w.RS(hostSide, op, ctx, p)
			})
		case e2e.RC:
			inst.SetRequestChannelHandler(o.Index, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				return w.RC(hostSide, op, ctx, p, in)
			})
		}
	}
	if exported != 12 || imported != 12 {
		return nil, nil, fmt.Errorf("the host sees %d exports and %d imports of the guest, not 12: %v", exported, imported, inst.Operations())
	}
	return inst, g, nil
}

// indexer tells the index an operation of the other side is called under.
func indexer(inst *host.Instance) func(from, kind, op int) uint32 {
	return func(from, kind, op int) uint32 {
		ns, name := ns, "none" // which nobody provides
		switch {
		case op < len(names):
			name = names[op]
		case op == 4 && from == hostSide:
			ns, name = "vt", names[0]
		case op == 5 && from == hostSide:
			name = fmt.Sprintf("other%d", offset[kind]) // of other kinds
		}
		var c invoke.Caller = inst
		if from == guestSide {
			c = guest.HostInvoker
		}
		switch kind {
		case e2e.RR:
			return c.ImportRequestResponse(ns, name)
		case e2e.FNF:
			return c.ImportFireAndForget(ns, name)
		case e2e.RS:
			return c.ImportRequestStream(ns, name)
		default:
			return c.ImportRequestChannel(ns, name)
		}
	}
}

// closes closes the instance, which has no requests left.
func closes(inst *host.Instance) error {
	done := make(chan error, 1)
	go func() { done <- inst.Close() }()
	pbt.Settle()
	select {
	case err := <-done:
		return err
	default:
		return fmt.Errorf("the instance does not close although every request has ended")
	}
}

// bare tells which handlers get the metadata without its header: the host's
// need it to pass requests on.
func bare(side, kind int) bool {
	return side == guestSide && (kind == e2e.RR || kind == e2e.FNF)
}
