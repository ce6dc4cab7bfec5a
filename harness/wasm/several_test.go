//go:build verif

package wasm

import (
	"context"
	"encoding/binary"
	"fmt"
	"slices"
	"sync"
	"testing"

	"github.com/tetratelabs/wazero/api"
	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// Steps with several instances.
const (
	svOpen  = iota
	svCall  // a request of the host
	svAsk   // a request of the guest
	svClose // once nothing is under way
	svBad   // a module that cannot be instantiated
)

type severalStep struct {
	K      int
	Module int // to open
	I      int // the instance
	Kind   int // frame type
	N      int // items of a stream, or bytes
	Settle bool
}

type severalCase struct {
	Steps []severalStep
}

func genSeveral(t *rapid.T) severalCase {
	var c severalCase
	opened := 0
	var open []int
	for range rapid.IntRange(4, 24).Draw(t, "steps") {
		k := rapid.SampledFrom([]int{svCall, svCall, svAsk, svAsk, svOpen, svClose, svBad}).Draw(t, "step")
		switch {
		case len(open) == 0 || k == svClose && opened < 2:
			k = svOpen
		case k == svOpen && len(open) >= 4:
			k = svClose
		}
		s := severalStep{K: k, Settle: rapid.Bool().Draw(t, "settle")}
		switch k {
		case svBad:
			s.Module = rapid.IntRange(0, len(badModules)-1).Draw(t, "module")
		case svOpen:
			s.Module = rapid.IntRange(0, 1).Draw(t, "module")
			s.I = opened
			open = append(open, opened)
			opened++
		case svClose:
			j := rapid.IntRange(0, len(open)-1).Draw(t, "which")
			s.I = open[j]
			open = slices.Delete(open, j, j+1)
		default:
			s.I = rapid.SampledFrom(open).Draw(t, "which")
			s.Kind = rapid.SampledFrom([]int{tRR, tRS}).Draw(t, "kind")
			s.N = rapid.IntRange(0, 5).Draw(t, "n")
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// several has a host with several instances at a time.
var several = struct {
	world
	host    *host.Host
	modules [2]*host.Module
	bad     []*host.Module
}{}

// badModules are the reasons for which the modules of svBad fail.
var badModules = []int{lackInit, lackSend, lackOpList, trapInit, trapOpList}

// insider is one of the instances and its guest.
type insider struct {
	id   int
	s    *script
	inst *host.Instance

	mu      sync.Mutex
	streams uint32
	asked   map[uint32]string   // what the guest's request should get
	got     map[uint32][]string // and what it got
	err     error
}

func (m *insider) fail(format string, args ...any) {
	m.mu.Lock()
	if m.err == nil {
		m.err = fmt.Errorf("instance %d: "+format, append([]any{m.id}, args...)...)
	}
	m.mu.Unlock()
}

func reply(from string, id, n, j int) string { return fmt.Sprintf("%s %d %d %d", from, id, n, j) }

// on is the guest, which answers with its number.
func (m *insider) on(f wire) {
	switch f.Type {
	case tRR, tRS:
		if len(f.Data) != 2 || int(f.Data[0]) != m.id {
			m.fail("the guest got a request with the data %x", f.Data)
			return
		}
		n := int(f.Data[1])
		var out []wire
		if f.Type == tRR {
			out = append(out, wire{Type: tPayload, Flags: fNext | fComplete, Stream: f.Stream, Data: []byte(reply("guest", m.id, n, 0))})
		} else {
			for j := range n {
				out = append(out, wire{Type: tPayload, Flags: fNext, Stream: f.Stream, Data: []byte(reply("guest", m.id, n, j))})
			}
			out = append(out, wire{Type: tPayload, Flags: fComplete, Stream: f.Stream})
		}
		m.s.send(out...)
	case tPayload, tError:
		m.mu.Lock()
		defer m.mu.Unlock()
		s := string(f.Data)
		if f.Type == tError {
			s = "error " + s
		} else if f.Flags&fNext == 0 {
			return
		}
		m.got[f.Stream] = append(m.got[f.Stream], s)
	}
}

func (m *insider) answer(p payload.Payload) []payload.Payload {
	d := p.Data()
	if len(d) != 2 || int(d[0]) != m.id {
		m.fail("the host got a request with the data %x", d)
		return nil
	}
	var out []payload.Payload
	for j := range int(d[1]) {
		out = append(out, payload.New([]byte(reply("host", m.id, int(d[1]), j))))
	}
	return out
}

func (m *insider) table() operations.Table {
	return operations.Table{{Index: uint32(m.id), Type: operations.RequestResponse, Direction: operations.Export,
		Namespace: "insider", Operation: fmt.Sprint("op", m.id)}}
}

func openInsider(ctx context.Context, id, module int) (*insider, error) {
	m := &insider{id: id, asked: map[uint32]string{}, got: map[uint32][]string{}}
	m.s = &script{on: m.on, ops: m.table()}
	several.mu.Lock()
	several.start = func(mod api.Module) native { return m.s }
	several.mu.Unlock()
	var err error
	if m.inst, err = several.modules[module].Instantiate(ctx); err != nil {
		return nil, fmt.Errorf("instance %d: %w", id, err)
	}
	if got, want := m.inst.Operations(), m.table(); !slices.Equal(got, want) {
		return nil, fmt.Errorf("instance %d has the operations %v, not %v", id, got, want)
	}
	m.inst.SetRequestResponseHandler(0, func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		if out := m.answer(p); len(out) > 0 {
			return mono.Just(out[0])
		}
		return mono.Error[payload.Payload](fmt.Errorf("none"))
	})
	m.inst.SetRequestStreamHandler(1, func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		return flux.FromSlice(m.answer(p))
	})
	return m, nil
}

func runSeveral(ctx *pbt.Ctx, c severalCase) error {
	opens, most, now := 0, 0, 0
	for _, s := range c.Steps {
		switch s.K {
		case svOpen:
			opens++
			now++
			most = max(most, now)
		case svClose:
			now--
		}
	}
	ctx.NonTrivialIf(opens > 1)
	ctx.Label(fmt.Sprintf("at once: %d", most))
	wctx := several.context()
	if several.host == nil {
		h, err := host.New(wctx)
		if err != nil {
			return fmt.Errorf("host: %w", err)
		}
		for k := range several.modules {
			if several.modules[k], err = h.Compile(wctx, stub(fmt.Sprint("several", k), 0)); err != nil {
				return fmt.Errorf("compile: %w", err)
			}
		}
		for k, lacks := range badModules {
			m, err := h.Compile(wctx, stub(fmt.Sprint("bad", k), lacks))
			if err != nil {
				return fmt.Errorf("compile: %w", err)
			}
			several.bad = append(several.bad, m)
		}
		several.host = h
	}
	return pbt.Bubble(ctx.T, func() error {
		several.open(nil)
		var all []*insider
		var waiting []func() error
		settle := func() error {
			pbt.Settle()
			for _, m := range all {
				m.mu.Lock()
				err := m.err
				for id, want := range m.asked {
					if got := fmt.Sprint(m.got[id]); got != want && err == nil {
						err = fmt.Errorf("instance %d: the guest's request %d got %s, want %s", m.id, id, got, want)
					}
				}
				m.mu.Unlock()
				if err != nil {
					return err
				}
			}
			for _, f := range waiting {
				if err := f(); err != nil {
					return err
				}
			}
			waiting = nil
			return nil
		}
		defer func() {
			for _, m := range all {
				go m.inst.Close()
			}
			pbt.Settle()
		}()
		for k, s := range c.Steps {
			switch s.K {
			case svOpen:
				m, err := openInsider(wctx, s.I, s.Module)
				if err != nil {
					return fmt.Errorf("step %d: %w", k, err)
				}
				all = append(all, m)
			case svBad:
				several.mu.Lock()
				several.start = func(mod api.Module) native { return &script{} }
				several.mu.Unlock()
				if _, err := several.bad[s.Module].Instantiate(wctx); err == nil {
					return fmt.Errorf("step %d: a module that cannot be instantiated (%d) was", k, s.Module)
				}
			case svClose:
				if err := settle(); err != nil {
					return fmt.Errorf("before step %d: %w", k, err)
				}
				if err := closes(all[s.I].inst); err != nil {
					return fmt.Errorf("step %d: instance %d: %w", k, s.I, err)
				}
			case svCall:
				m := all[s.I]
				p := payload.New([]byte{byte(m.id), byte(s.N)}, binary.BigEndian.AppendUint64(nil, uint64(m.id)<<32))
				var mu sync.Mutex
				var got []string
				add := func(s string) { mu.Lock(); got = append(got, s); mu.Unlock() }
				var want []string
				if s.Kind == tRR {
					want = []string{reply("guest", m.id, s.N, 0)}
					go m.inst.RequestResponse(wctx, p).Subscribe(mono.Subscribe[payload.Payload]{
						OnSuccess: func(p payload.Payload) { add(string(p.Data())) },
						OnError:   func(err error) { add("error " + err.Error()) },
					})
				} else {
					for j := range s.N {
						want = append(want, reply("guest", m.id, s.N, j))
					}
					want = append(want, "end")
					go m.inst.RequestStream(wctx, p).Subscribe(flux.Subscribe[payload.Payload]{
						OnNext:     func(p payload.Payload) { add(string(p.Data())) },
						OnComplete: func() { add("end") },
						OnError:    func(err error) { add("error " + err.Error()) },
					})
				}
				waiting = append(waiting, func() error {
					mu.Lock()
					defer mu.Unlock()
					if !slices.Equal(got, want) {
						return fmt.Errorf("step %d: the host's request to instance %d got %q, want %q", k, m.id, got, want)
					}
					return nil
				})
			case svAsk:
				m := all[s.I]
				m.mu.Lock()
				id := 2*m.streams + 1
				m.streams++
				want := []string{}
				n := uint32(s.N)
				if s.Kind == tRR {
					want = []string{reply("host", m.id, s.N, 0)}
					if s.N == 0 {
						want[0] = "error none"
					}
				} else {
					for j := range s.N {
						want = append(want, reply("host", m.id, s.N, j))
					}
				}
				m.asked[id] = fmt.Sprint(want)
				m.mu.Unlock()
				f := wire{Type: s.Kind, Stream: id, N: n + 1, Data: []byte{byte(m.id), byte(s.N)}, Meta: make([]byte, 8)}
				if s.Kind == tRS {
					f.Meta[3] = 1
				}
				go m.s.send(f)
			}
			if s.Settle {
				if err := settle(); err != nil {
					return fmt.Errorf("after step %d: %w", k, err)
				}
			}
		}
		return settle()
	})
}

func TestC47(t *testing.T) {
	pbt.Check(t, "C47",
		pbt.NewPart("several", 600, 8000, "more than one instance on the host", genSeveral, runSeveral),
	)
}
