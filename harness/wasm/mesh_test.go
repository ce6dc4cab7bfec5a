//go:build verif

package wasm

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	wapi "github.com/tetratelabs/wazero/api"
	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// opKey names an operation.
type opKey struct {
	Kind int // 0 to 3, in the order of operations.RequestType
	NS   int
	Name int
}

var (
	meshSpaces = []string{"one.v1", "two"}
	meshNames  = []string{"get", "put", "list"}
	meshTypes  = []operations.RequestType{operations.RequestResponse, operations.FireAndForget, operations.RequestStream, operations.RequestChannel}
	meshFrames = []int{tRR, tFNF, tRS, tRC}
)

type meshOp struct {
	Op    opKey
	Index uint32
}

// version is a version of a module.
type version struct {
	Exports, Imports []meshOp
	Mixed            bool // the imports come first in the list
}

// Steps of a case.
const (
	msLoad     = iota // of module I, its version J
	msOutside         // a call of Op
	msImport          // a call of the I-th of the imports of all instances
	msBad             // module I cannot be loaded
	msWait            // until replaced instances have been closed
	msShort           // a call of Op from outside with I bytes of metadata, which name no operation
	msTogether        // several modules are loaded at the same time
)

type meshStep struct {
	K, I, J int
	Op      opKey
	Share   bool // the metadata of the calls before
	Bad     int
	N       int        // items
	Several bool       // load with LoadModules
	Settle  bool       // before going on
	More    []meshStep `json:",omitempty"` // what is loaded at the same time
}

type meshCase struct {
	Verbose bool
	Modules [][]version
	Steps   []meshStep
}

func genOpKey(t *rapid.T) opKey {
	return opKey{rapid.IntRange(0, 3).Draw(t, "kind"), rapid.IntRange(0, 1).Draw(t, "namespace"), rapid.IntRange(0, 2).Draw(t, "name")}
}

func genOps(t *rapid.T, label string, pool, must []opKey) []meshOp {
	var ops []opKey
	for _, k := range pool {
		if rapid.IntRange(0, 2).Draw(t, label) > 0 {
			ops = append(ops, k)
		}
	}
	for _, k := range must {
		has := false
		for _, o := range ops {
			has = has || o == k
		}
		if !has {
			ops = append(ops, k)
		}
	}
	var next [4]uint32
	var out []meshOp
	for _, k := range ops {
		i := next[k.Kind] + uint32(rapid.SampledFrom([]int{0, 0, 0, 1, 5}).Draw(t, "gap"))
		next[k.Kind] = i + 1
		out = append(out, meshOp{k, i})
	}
	if len(out) > 1 {
		out = rapid.Permutation(out).Draw(t, "order")
	}
	return out
}

func genMesh(t *rapid.T) meshCase {
	c := meshCase{Verbose: rapid.IntRange(0, 9).Draw(t, "verbose") == 0}
	pool := rapid.SliceOfNDistinct(rapid.Custom(genOpKey), 1, 5, func(k opKey) opKey { return k }).Draw(t, "operations")
	for range rapid.IntRange(1, 4).Draw(t, "modules") {
		var vs []version
		var must []opKey
		for range rapid.IntRange(1, 3).Draw(t, "versions") {
			v := version{Exports: genOps(t, "exports", pool, must), Imports: genOps(t, "imports", pool, nil), Mixed: rapid.Bool().Draw(t, "mixed")}
			must = nil
			for _, o := range v.Exports {
				must = append(must, o.Op)
			}
			vs = append(vs, v)
		}
		c.Modules = append(c.Modules, vs)
	}
	loaded := make([]int, len(c.Modules))
	loads := 0
	for range rapid.IntRange(3, 20).Draw(t, "steps") {
		s := meshStep{
			K:      rapid.SampledFrom([]int{msLoad, msOutside, msOutside, msImport, msImport, msImport, msBad, msWait, msShort, msTogether}).Draw(t, "step"),
			Settle: rapid.Bool().Draw(t, "settle"),
		}
		if loads == 0 && s.K != msOutside && s.K != msShort {
			s.K = msLoad
		}
		if (s.K == msLoad || s.K == msTogether) && loads > 7 {
			s.K = msOutside
		}
		switch s.K {
		case msLoad:
			s.I = rapid.IntRange(0, len(c.Modules)-1).Draw(t, "module")
			s.J = min(loaded[s.I], len(c.Modules[s.I])-1)
			s.Several = rapid.Bool().Draw(t, "several")
			loaded[s.I]++
			loads++
		case msTogether:
			// What they export is different.
			exported := map[opKey]bool{}
			for i := range c.Modules {
				l := meshStep{K: msLoad, I: i, J: min(loaded[i], len(c.Modules[i])-1), Several: rapid.Bool().Draw(t, "several")}
				ex := c.Modules[i][l.J].Exports
				if rapid.IntRange(0, 3).Draw(t, "skip") == 0 || slices.ContainsFunc(ex, func(o meshOp) bool { return exported[o.Op] }) {
					continue
				}
				for _, o := range ex {
					exported[o.Op] = true
				}
				s.More = append(s.More, l)
				loaded[i]++
				loads++
			}
		case msOutside:
			if s.Op = genOpKey(t); rapid.IntRange(0, 4).Draw(t, "known") > 0 {
				s.Op = rapid.SampledFrom(pool).Draw(t, "op")
			}
			s.Share = rapid.Bool().Draw(t, "share")
			s.N = rapid.IntRange(0, 3).Draw(t, "items")
		case msShort:
			s.Op = rapid.SampledFrom(pool).Draw(t, "op")
			s.I = rapid.IntRange(0, 3).Draw(t, "metadata")
		case msImport:
			s.I = rapid.IntRange(0, 1000).Draw(t, "import")
			s.N = rapid.IntRange(0, 3).Draw(t, "items")
		case msBad:
			s.I = rapid.IntRange(0, len(c.Modules)-1).Draw(t, "module")
			s.Several = rapid.Bool().Draw(t, "several")
			s.Bad = rapid.IntRange(0, 2).Draw(t, "bad")
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// member is an instance in the mesh.
type member struct {
	script
	name    string
	version version
	inst    *host.Instance // if it is known
	loaded  bool
	own     uint32 // streams of its own
	mesh    *meshRun
	module  int
	old     bool              // it has been replaced
	gone    bool              // and closed
	chans   map[uint32]bool   // channels it answers
	items   map[uint32][]wire // of its own channels
}

type receipt struct {
	by    *member
	kind  int
	index uint32
	meta  []byte
}

// call is a call and what has come of it.
type call struct {
	id       int
	op       opKey
	n        int
	meta     []byte // behind the index
	from     *member
	stream   uint32
	may      []*member // where it may end up
	nowhere  bool      // or nowhere
	receipts []receipt
	none     bool // the mesh returned nothing
	items    [][]byte
	end      string
	open     bool // not settled
}

type meshRun struct {
	mu       sync.Mutex
	m        *mesh.Mesh
	c        meshCase
	dir      string
	ctx      context.Context
	names    map[string]*member
	pending  []*member // being loaded
	members  []*member // in order of loading
	current  map[int]*member
	exporter map[opKey]*member
	calls    []*call
	shared   []byte
	err      error
	instance int
}

func (r *meshRun) errf(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.err == nil {
		r.err = fmt.Errorf(format, args...)
	}
}

func (m *member) export(k opKey) (uint32, bool) {
	for _, o := range m.version.Exports {
		if o.Op == k {
			return o.Index, true
		}
	}
	return 0, false
}

// received answers what a guest gets.
func (m *member) received(f wire) {
	switch f.Type {
	case tRR, tFNF, tRS, tRC:
		if string(f.Data) == unnamed {
			return
		}
		if len(f.Data) < 4 || len(f.Meta) < 8 {
			m.mesh.errf("a module got %v with %s and metadata %s", f, pbt.Trunc(f.Data), pbt.Trunc(f.Meta))
			return
		}
		m.mesh.mu.Lock()
		id := int(binary.BigEndian.Uint32(f.Data))
		if id >= len(m.mesh.calls) {
			m.mesh.mu.Unlock()
			m.mesh.errf("a module got the request %d, which nobody made", id)
			return
		}
		c := m.mesh.calls[id]
		kind := 0
		for k, t := range meshFrames {
			if t == f.Type {
				kind = k
			}
		}
		c.receipts = append(c.receipts, receipt{m, kind, binary.BigEndian.Uint32(f.Meta), f.Meta[4:]})
		m.mesh.mu.Unlock()
		answer := []byte(m.name + " to " + string(f.Data))
		switch f.Type {
		case tRR:
			m.send(wire{Type: tPayload, Flags: fNext | fComplete, Stream: f.Stream, Data: answer})
		case tRS:
			var fs []wire
			for j := range c.n {
				fs = append(fs, wire{Type: tPayload, Flags: fNext, Stream: f.Stream, Data: append(bytes.Clone(answer), byte(j))})
			}
			m.send(append(fs, wire{Type: tPayload, Flags: fComplete, Stream: f.Stream})...)
		case tRC:
			m.mu.Lock()
			m.chans[f.Stream] = true
			m.mu.Unlock()
			m.send(wire{Type: tRequestN, Stream: f.Stream, N: 10})
		}
	case tPayload, tError, tCancel, tRequestN:
		m.mu.Lock()
		answers := m.chans[f.Stream]
		items := m.items[f.Stream]
		delete(m.items, f.Stream)
		m.mu.Unlock()
		switch {
		case f.Stream&1 == 1:
			if f.Type == tRequestN {
				m.send(items...)
				return
			}
			m.mesh.result(m, f)
		case answers && f.Type == tPayload:
			if f.Flags&fNext != 0 {
				f.Data = append([]byte(m.name+" back "), f.Data...)
			}
			f.Flags &^= fMetadata
			f.Meta = nil
			m.send(f)
		}
	}
}

// result notes what the importing module gets.
func (r *meshRun) result(m *member, f wire) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, c := range r.calls {
		if c.from == m && c.stream == f.Stream {
			if c.end != "" {
				c.end += ", then more"
			}
			if f.Type == tError {
				c.end += "error " + string(f.Data)
			}
			if f.Flags&fNext != 0 {
				c.items = append(c.items, f.Data)
			}
			if f.Flags&fComplete != 0 {
				c.end += "complete"
			}
			return
		}
	}
	if r.err == nil {
		r.err = fmt.Errorf("a module got %v, which is none of its streams", f)
	}
}

func (r *meshRun) start(mod wapi.Module) native {
	r.mu.Lock()
	defer r.mu.Unlock()
	if m := r.names[nameOf(mod)]; m != nil {
		return m
	}
	return &script{}
}

func (r *meshRun) file(i int) string { return filepath.Join(r.dir, fmt.Sprintf("m%d.wasm", i)) }

// load loads versions of modules at the same time. They are current at the
// next settle.
func (r *meshRun) load(steps ...meshStep) error {
	if err := r.settle(); err != nil {
		return err
	}
	gate := pbt.NewGate(r.instance)
	var loading atomic.Int32
	loading.Store(int32(len(steps)))
	for _, s := range steps {
		load, err := r.prepare(s)
		if err != nil {
			return err
		}
		gate.Go(func() {
			defer loading.Add(-1)
			load()
		})
	}
	if len(steps) > 1 {
		// Somebody looks for what nobody exports all the while.
		gate.Go(func() {
			p := payload.New(nil, make([]byte, 8))
			for loading.Load() > 0 {
				for i := range 64 {
					if r.m.RequestResponse(r.ctx, meshSpaces[i%2], "nowhere", p) != nil {
						r.errf("there is a destination for an operation that nobody exports")
					}
				}
				runtime.Gosched()
			}
		})
	}
	gate.Open()
	return nil
}

// prepare prepares loading a version of a module.
func (r *meshRun) prepare(s meshStep) (load func(), err error) {
	v := r.c.Modules[s.I][s.J]
	r.instance++
	m := &member{name: fmt.Sprintf("module %d version %d instance %d", s.I, s.J, r.instance), version: v, mesh: r, own: 1,
		module: s.I, chans: map[uint32]bool{}, items: map[uint32][]wire{}}
	m.on = m.received
	table := func(d operations.Direction, ops []meshOp) {
		for _, o := range ops {
			m.ops = append(m.ops, operations.Operation{Index: o.Index, Type: meshTypes[o.Op.Kind], Direction: d,
				Namespace: meshSpaces[o.Op.NS], Operation: meshNames[o.Op.Name]})
		}
	}
	m.ops = operations.Table{}
	if v.Mixed {
		table(operations.Import, v.Imports)
	}
	table(operations.Export, v.Exports)
	if !v.Mixed {
		table(operations.Import, v.Imports)
	}
	if err := os.WriteFile(r.file(s.I), stub(m.name, 0), 0o600); err != nil {
		return nil, pbt.Harness("%v", err)
	}
	r.mu.Lock()
	r.names[m.name] = m
	r.pending = append(r.pending, m)
	// Calls under way may reach the old exporter or the new one.
	for _, c := range r.calls {
		if _, ok := m.export(c.op); ok && c.open {
			c.may = append(c.may, m)
		}
	}
	r.mu.Unlock()
	return func() {
		var inst *host.Instance
		var err error
		if s.Several {
			err = r.m.LoadModules(r.ctx, r.file(s.I))
		} else {
			inst, err = r.m.LoadModule(r.ctx, r.file(s.I))
		}
		if err != nil {
			r.errf("module %d cannot be loaded: %w", s.I, err)
		}
		r.mu.Lock()
		m.inst, m.loaded = inst, true
		r.mu.Unlock()
	}, nil
}

// bad has the mesh load what is not a module.
func (r *meshRun) bad(s meshStep) error {
	if err := r.settle(); err != nil {
		return err
	}
	file := r.file(s.I)
	var err error
	switch s.Bad {
	case 0:
		file = filepath.Join(r.dir, "none.wasm")
	case 1:
		err = os.WriteFile(file, []byte("\x00asm\x01\x00\x00\x00 not a module"), 0o600)
	default:
		err = os.WriteFile(file, stub("bad", lackSend), 0o600)
	}
	if err != nil {
		return pbt.Harness("%v", err)
	}
	if s.Several {
		err = r.m.LoadModules(r.ctx, file)
	} else {
		_, err = r.m.LoadModule(r.ctx, file)
	}
	if err == nil {
		return errors.New("the mesh has loaded what is not a module")
	}
	return nil
}

// begin notes a call.
func (r *meshRun) begin(op opKey, n int, from *member) *call {
	r.mu.Lock()
	defer r.mu.Unlock()
	c := &call{id: len(r.calls), op: op, n: n, from: from, open: true, nowhere: true}
	if m := r.exporter[op]; m != nil {
		c.may = append(c.may, m)
		c.nowhere = false
	}
	for _, m := range r.pending {
		if _, ok := m.export(op); ok {
			c.may = append(c.may, m)
		}
	}
	c.meta = []byte{0, 0, 0xab, byte(c.id), byte(c.id), 7}[:4+c.id%3]
	r.calls = append(r.calls, c)
	return c
}

func (c *call) data() []byte { return binary.BigEndian.AppendUint32(nil, uint32(c.id)) }

func (c *call) channel() [][]byte {
	var out [][]byte
	for j := range c.n {
		out = append(out, append(c.data(), byte(j)))
	}
	return out
}

// outside makes a call that comes from no module.
func (r *meshRun) outside(s meshStep) {
	c := r.begin(s.Op, s.N, nil)
	meta := append([]byte{9, 9, 9, 9}, c.meta...)
	if s.Share && r.shared != nil {
		meta = r.shared
		c.meta = bytes.Clone(meta[4:])
	}
	r.shared = meta
	p := payload.New(c.data(), meta)
	ns, name, ctx := meshSpaces[s.Op.NS], meshNames[s.Op.Name], context.Background()
	item := func(p payload.Payload) {
		r.mu.Lock()
		defer r.mu.Unlock()
		c.items = append(c.items, bytes.Clone(p.Data()))
	}
	end := func(what string) {
		r.mu.Lock()
		defer r.mu.Unlock()
		if c.end != "" {
			c.end += ", then more: "
		}
		c.end += what
	}
	fail := func(err error) { end("error " + err.Error()) }
	var f flux.Flux[payload.Payload]
	switch s.Op.Kind {
	case 0:
		m := r.m.RequestResponse(ctx, ns, name, p)
		if m == nil {
			c.none = true
			return
		}
		m.Subscribe(mono.Subscribe[payload.Payload]{OnSuccess: func(p payload.Payload) { item(p); end("complete") }, OnError: fail})
		return
	case 1:
		r.m.FireAndForget(ctx, ns, name, p)
		return
	case 2:
		f = r.m.RequestStream(ctx, ns, name, p)
	default:
		var in []payload.Payload
		for _, d := range c.channel() {
			in = append(in, payload.New(d))
		}
		f = r.m.RequestChannel(ctx, ns, name, p, flux.FromSlice(in))
	}
	if f == nil {
		c.none = true
		return
	}
	f.Subscribe(flux.Subscribe[payload.Payload]{OnNext: item, OnComplete: func() { end("complete") }, OnError: fail})
}

// unnamed is the data of calls whose metadata names no operation. It is open
// what becomes of them.
const unnamed = "unnamed call"

func (r *meshRun) short(s meshStep) {
	p := payload.New([]byte(unnamed), []byte{0, 0, 0}[:s.I])
	ns, name, ctx := meshSpaces[s.Op.NS], meshNames[s.Op.Name], context.Background()
	var f flux.Flux[payload.Payload]
	switch s.Op.Kind {
	case 0:
		if m := r.m.RequestResponse(ctx, ns, name, p); m != nil {
			m.Subscribe(mono.Subscribe[payload.Payload]{})
		}
	case 1:
		r.m.FireAndForget(ctx, ns, name, p)
	case 2:
		f = r.m.RequestStream(ctx, ns, name, p)
	default:
		f = r.m.RequestChannel(ctx, ns, name, p, flux.FromSlice([]payload.Payload{p}))
	}
	if f != nil {
		f.Subscribe(flux.Subscribe[payload.Payload]{})
	}
}

// imported makes a call from a module.
func (r *meshRun) imported(s meshStep) {
	type imp struct {
		m *member
		o meshOp
	}
	var all []imp
	for _, m := range r.members {
		if m.gone {
			continue
		}
		for _, o := range m.version.Imports {
			all = append(all, imp{m, o})
		}
	}
	if len(all) == 0 {
		return
	}
	i := all[s.I%len(all)]
	c := r.begin(i.o.Op, s.N, i.m)
	r.mu.Lock()
	c.stream = i.m.own
	i.m.own += 2
	r.mu.Unlock()
	f := wire{Type: meshFrames[c.op.Kind], Stream: c.stream, Meta: binary.BigEndian.AppendUint32(nil, i.o.Index), Data: c.data()}
	f.Meta = append(f.Meta, c.meta...)
	if c.op.Kind >= 2 {
		f.N = 1<<31 - 1
	}
	if c.op.Kind == 3 {
		var items []wire
		for _, d := range c.channel() {
			items = append(items, wire{Type: tPayload, Flags: fNext, Stream: c.stream, Data: d})
		}
		items = append(items, wire{Type: tPayload, Flags: fComplete, Stream: c.stream})
		i.m.mu.Lock()
		i.m.items[c.stream] = items
		i.m.mu.Unlock()
	}
	i.m.send(f)
}

func (c *call) String() string {
	from := "a call from outside"
	if c.from != nil {
		from = "a call by " + c.from.name
	}
	return fmt.Sprintf("%s of %s %s:%s (number %d)", from, meshTypes[c.op.Kind], meshSpaces[c.op.NS], meshNames[c.op.Name], c.id)
}

// check checks what has come of a call.
func (c *call) check() error {
	if c.none && len(c.receipts) > 0 {
		return fmt.Errorf("%v reached %s although there was no destination", c, c.receipts[0].by.name)
	}
	if len(c.receipts) == 0 {
		if !c.nowhere {
			return fmt.Errorf("%v reached nothing, not %s; its end is %q", c, c.may[0].name, c.end)
		}
		want := ""
		if c.from != nil {
			want = "error not_found"
		}
		if c.end != want || len(c.items) > 0 {
			return fmt.Errorf("%v, which nothing exports, has the end %q, not %q", c, c.end, want)
		}
		return nil
	}
	rc := c.receipts[0]
	if len(c.receipts) > 1 {
		return fmt.Errorf("%v reached %s and then %s", c, rc.by.name, c.receipts[1].by.name)
	}
	var allowed []string
	ok := false
	for _, m := range c.may {
		ok = ok || m == rc.by
		allowed = append(allowed, m.name)
	}
	if !ok {
		return fmt.Errorf("%v reached %s, not one of %q", c, rc.by.name, allowed)
	}
	if want, _ := rc.by.export(c.op); rc.kind != c.op.Kind || rc.index != want {
		return fmt.Errorf("%v reached %s %d of %s, not %d", c, meshTypes[rc.kind], rc.index, rc.by.name, want)
	}
	if err := pbt.EqBytes("metadata", rc.meta, c.meta); err != nil {
		return fmt.Errorf("%v: %w", c, err)
	}
	answer := []byte(rc.by.name + " to " + string(c.data()))
	var want [][]byte
	end := "complete"
	switch c.op.Kind {
	case 0:
		want = [][]byte{answer}
	case 1:
		end = ""
	case 2:
		for j := range c.n {
			want = append(want, append(bytes.Clone(answer), byte(j)))
		}
	default:
		for _, d := range c.channel() {
			want = append(want, append([]byte(rc.by.name+" back "), d...))
		}
	}
	if c.end != end || len(c.items) != len(want) {
		return fmt.Errorf("%v: %s answers with %d items and the end %q, the caller gets %d and %q", c, rc.by.name, len(want), end, len(c.items), c.end)
	}
	for j := range want {
		if err := pbt.EqBytes("item", c.items[j], want[j]); err != nil {
			return fmt.Errorf("%v: %w", c, err)
		}
	}
	return nil
}

// settle waits for what has been started and checks it.
func (r *meshRun) settle() error {
	pbt.Settle()
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.err != nil {
		return r.err
	}
	for _, m := range r.pending {
		if !m.loaded {
			return fmt.Errorf("%s is still being loaded", m.name)
		}
		r.members = append(r.members, m)
		if old := r.current[m.module]; old != nil {
			old.old = true
		}
		r.current[m.module] = m
		for _, o := range m.version.Exports {
			r.exporter[o.Op] = m
		}
	}
	r.pending = nil
	for _, c := range r.calls {
		if c.open {
			c.open = false
			if err := c.check(); err != nil {
				return err
			}
		}
	}
	for _, m := range r.members {
		if len(m.errs) > 0 {
			return fmt.Errorf("%s got what is not a frame: %w", m.name, m.errs[0])
		}
	}
	return nil
}

// wait waits until instances that have been replaced are closed.
func (r *meshRun) wait(all bool) error {
	if err := r.settle(); err != nil {
		return err
	}
	time.Sleep(6 * time.Second)
	pbt.Settle()
	for _, m := range r.members {
		if !m.old && !all {
			continue
		}
		m.gone = true
		if m.inst == nil {
			continue
		}
		if err := m.inst.SendFrame(&frames.Cancel{StreamID: 1 << 30}); err == nil {
			return fmt.Errorf("%s has not been closed", m.name)
		}
	}
	return nil
}

func (r *meshRun) run() error {
	dir, err := os.MkdirTemp("", "mesh")
	if err != nil {
		return pbt.Harness("%v", err)
	}
	defer os.RemoveAll(dir)
	r.dir = dir
	r.names, r.current, r.exporter = map[string]*member{}, map[int]*member{}, map[opKey]*member{}
	w := &world{entries: map[wapi.Module]*entry{}, start: r.start}
	defer w.open(nil)
	r.ctx = w.context()
	var opts []mesh.Option
	if r.c.Verbose {
		opts = append(opts, mesh.WithVerbose())
		defer quiet(1)()
	}
	r.m = mesh.New(opts...)
	for _, s := range r.c.Steps {
		var err error
		switch s.K {
		case msLoad:
			err = r.load(s)
		case msTogether:
			err = r.load(s.More...)
		case msOutside:
			r.outside(s)
		case msImport:
			r.imported(s)
		case msBad:
			err = r.bad(s)
		case msWait:
			err = r.wait(false)
		case msShort:
			r.short(s)
		}
		if err == nil && s.Settle {
			err = r.settle()
		}
		if err != nil {
			return err
		}
	}
	if err := r.settle(); err != nil {
		return err
	}
	r.m.Close()
	return r.wait(true)
}

func TestC31(t *testing.T) {
	pbt.Check(t, "C31",
		pbt.NewPart("mesh", 1500, 20000, "a module is replaced or arrives after something that imports from it, and calls are made then", genMesh,
			func(ctx *pbt.Ctx, c meshCase) error {
				r := &meshRun{c: c}
				err := pbt.Bubble(ctx.T, r.run)
				replaced, late := false, false
				imports := map[opKey]bool{}
				for i, m := range r.members {
					for _, o := range r.members[:i] {
						replaced = replaced || o.module == m.module
					}
					for _, o := range m.version.Exports {
						late = late || imports[o.Op]
					}
					for _, o := range m.version.Imports {
						imports[o.Op] = true
					}
				}
				calls := 0
				for _, c := range r.calls {
					switch {
					case len(c.receipts) == 0:
						ctx.Label("call of nothing")
					case c.from == nil:
						calls++
						ctx.Label("call from outside")
					default:
						calls++
						ctx.Label("call by a module")
					}
					if len(c.may) > 1 {
						ctx.Label("call during loading")
					}
				}
				if replaced {
					ctx.Label("replaced")
				}
				if late {
					ctx.Label("late export")
				}
				ctx.NonTrivialIf((replaced || late) && calls > 1)
				return err
			}),
	)
}
