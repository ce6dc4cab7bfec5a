//go:build verif

package wasm

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sync"

	"github.com/tetratelabs/wazero/api"
	"github.com/tetratelabs/wazero/experimental"

	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

// native is what a stub module does when the host calls it.
type native interface {
	init(e *entry, sendSize, recvSize, maxFrame uint32)
	opList(e *entry)
	// frames takes what the host has put into the send buffer.
	frames(e *entry, b []byte)
}

// entry is a module as its native part sees it.
type entry struct {
	ctx context.Context
	mod api.Module
	n   native

	mu  sync.Mutex
	err error // a panic of the host, as it appears to the module
}

func (e *entry) call(name string, args ...uint64) {
	if _, err := e.mod.ExportedFunction(name).Call(e.ctx, args...); err != nil {
		e.err = err
	}
}

// failed is the panic of the host, which wazero hands on to the module.
func (e *entry) failed() error {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.err
}

// buffers announces the exchange buffers.
func (e *entry) buffers() { e.call("call_init_buffers", sendPtr, recvPtr) }

// operations hands the list of operations to the host.
func (e *entry) operations(b []byte) {
	e.mod.Memory().Write(opsPtr, b)
	e.call("call_op_list", opsPtr, uint64(len(b)))
}

// trap makes __wasmrs_send fail, or not.
func (e *entry) trap(on bool) {
	var b byte
	if on {
		b = 1
	}
	e.mod.Memory().WriteByte(trapPtr, b)
}

// send hands what is to be in the receive buffer to the host.
func (e *entry) send(b []byte) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.mod.Memory().Write(recvPtr, b)
	e.call("call_send", uint64(len(b)))
}

// world tells which native code belongs to which module.
type world struct {
	mu      sync.Mutex
	start   func(mod api.Module) native // for a module that is new
	entries map[api.Module]*entry
}

// open forgets the modules there were.
func (w *world) open(start func(mod api.Module) native) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for m, e := range w.entries {
		m.Close(e.ctx)
	}
	w.start = start
	w.entries = map[api.Module]*entry{}
}

type factory struct{ w *world }

func (f factory) NewListener(d api.FunctionDefinition) experimental.FunctionListener {
	if len(d.ExportNames()) != 1 {
		return nil
	}
	switch d.ExportNames()[0] {
	case "__wasmrs_init", "__wasmrs_op_list_request":
		return listener{f.w, d.ExportNames()[0]}
	case "__wasmrs_send":
		return listener{f.w, "__wasmrs_send"}
	}
	return nil
}

type listener struct {
	w    *world
	name string
}

func (l listener) Before(ctx context.Context, mod api.Module, _ api.FunctionDefinition, params []uint64) context.Context {
	l.w.mu.Lock()
	e := l.w.entries[mod]
	if e == nil {
		e = &entry{ctx: ctx, mod: mod, n: l.w.start(mod)}
		l.w.entries[mod] = e
	}
	l.w.mu.Unlock()
	switch l.name {
	case "__wasmrs_init":
		e.ctx = ctx
		e.n.init(e, uint32(params[0]), uint32(params[1]), uint32(params[2]))
	case "__wasmrs_op_list_request":
		e.n.opList(e)
	case "__wasmrs_send":
		b, ok := mod.Memory().Read(sendPtr, uint32(params[0]))
		if ok {
			e.n.frames(e, append([]byte(nil), b...))
		}
	}
	return ctx
}

func (l listener) After(context.Context, api.Module, api.FunctionDefinition, error, []uint64) {}

// context is the context for hosts and modules in the world.
func (w *world) context() context.Context {
	return context.WithValue(context.Background(), experimental.FunctionListenerFactoryKey{}, factory{w})
}

// single has a host with one module at a time. What a host has compiled stays
// in memory, so that there is one host only.
var single = struct {
	world
	host     *host.Host
	compiled *host.Module
}{}

// instantiate creates an instance of a stub module.
func instantiate(lacks int, n native) (*host.Instance, error) {
	var err error
	ctx := single.context()
	single.open(func(api.Module) native { return n })
	if single.host == nil {
		if single.host, err = host.New(ctx); err != nil {
			return nil, fmt.Errorf("host: %w", err)
		}
	}
	if lacks != 0 {
		// What is rejected stays with its host.
		h, err := host.New(ctx)
		if err != nil {
			return nil, fmt.Errorf("host: %w", err)
		}
		m, err := h.Compile(ctx, stub("single", lacks))
		if err != nil {
			return nil, fmt.Errorf("compile: %w", err)
		}
		return m.Instantiate(ctx)
	}
	m := single.compiled
	if m == nil {
		if m, err = single.host.Compile(ctx, stub("single", 0)); err != nil {
			return nil, fmt.Errorf("compile: %w", err)
		}
		single.compiled = m
	}
	return m.Instantiate(ctx)
}

// writeStub puts a stub module into a file.
func writeStub(dir, name string) (string, error) {
	file := filepath.Join(dir, name+".wasm")
	return file, os.WriteFile(file, stub(name, 0), 0o600)
}
