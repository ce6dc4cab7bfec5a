package fr

import (
	"bytes"
	"context"
	"fmt"
	"runtime"
	"slices"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/socket"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// ---- C12

type OpE struct {
	T, D  uint8
	Index uint32
	NS    pbt.Blob
	Op    pbt.Blob
	Res   pbt.Blob // reserved bytes (decode only)
}

type tabCase struct {
	E    []OpE
	Many int   // that many small entries follow
	Muts []mut `json:",omitempty"`
	Cnt  uint32
	Grow bool // declare Cnt entries instead of the real number
}

// all adds the small entries.
func (c tabCase) all() []OpE {
	out := slices.Clone(c.E)
	for k := range c.Many {
		out = append(out, OpE{T: uint8(1 + k%4), D: uint8(1 + k/4%2), Index: uint32(k), NS: pbt.Blob{N: k % 3}, Op: pbt.Blob{N: 1 + k%5}})
	}
	return out
}

func tabWire(es []OpE, count uint32) []byte {
	out := []byte{0, 'w', 'r', 's', 0, 1}
	out = append(out, be32(count)...)
	for _, e := range es {
		out = append(out, e.T, e.D)
		out = append(out, be32(e.Index)...)
		out = append(append(out, be16(uint16(e.NS.N))...), e.NS.Bytes()...)
		out = append(append(out, be16(uint16(e.Op.N))...), e.Op.Bytes()...)
		out = append(append(out, be16(uint16(e.Res.N))...), e.Res.Bytes()...)
	}
	return out
}

// tabParse is an independent parser of the table layout.
func tabParse(b []byte) (out operations.Table, err error) {
	bad := fmt.Errorf("malformed")
	if len(b) < 10 || !bytes.Equal(b[:6], []byte{0, 'w', 'r', 's', 0, 1}) {
		return nil, bad
	}
	u16 := func(x []byte) int { return int(x[0])<<8 | int(x[1]) }
	u32 := func(x []byte) uint32 { return uint32(u16(x))<<16 | uint32(u16(x[2:])) }
	n := u32(b[6:])
	b = b[10:]
	str := func() (s string, ok bool) {
		if len(b) < 2 || len(b)-2 < u16(b) {
			return "", false
		}
		l := u16(b)
		s, b = string(b[2:2+l]), b[2+l:]
		return s, true
	}
	for i := uint32(0); i < n; i++ {
		if len(b) < 6 {
			return nil, bad
		}
		o := operations.Operation{Type: operations.RequestType(b[0]), Direction: operations.Direction(b[1]), Index: u32(b[2:])}
		b = b[6:]
		var ok [3]bool
		o.Namespace, ok[0] = str()
		if ok[0] {
			o.Operation, ok[1] = str()
		}
		if ok[1] {
			_, ok[2] = str()
		}
		if !ok[2] {
			return nil, bad
		}
		out = append(out, o)
	}
	return out, nil
}

var nameLens = pbt.Lens(40, 0, 1, 255, 256, 65535, 65534, 65533, 32768)

func genOpE(t *rapid.T, res bool) OpE {
	e := OpE{T: uint8(rapid.IntRange(1, 4).Draw(t, "t")), D: uint8(rapid.IntRange(1, 2).Draw(t, "d")),
		Index: rapid.OneOf(rapid.Uint32Range(0, 40), rapid.Uint32()).Draw(t, "i")}
	e.NS, e.Op = pbt.GenBlob(t, nameLens), pbt.GenBlob(t, nameLens)
	if res && rapid.Bool().Draw(t, "res") {
		e.Res = pbt.GenBlob(t, nameLens)
	}
	return e
}

func eqTable(got operations.Table, es []OpE) error {
	if len(got) != len(es) {
		return fmt.Errorf("%d operations, want %d", len(got), len(es))
	}
	for i, e := range es {
		want := e.op()
		if got[i] != want {
			return fmt.Errorf("operation %d is %+.200v, want %+.200v", i, got[i], want)
		}
	}
	return nil
}

func (e OpE) op() operations.Operation {
	return operations.Operation{Index: e.Index, Type: operations.RequestType(e.T), Direction: operations.Direction(e.D),
		Namespace: string(e.NS.Bytes()), Operation: string(e.Op.Bytes())}
}

// allocDuring measures the bytes f allocates.
func allocDuring(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func TestC12(t *testing.T) {
	genTab := func(res bool) func(t *rapid.T) tabCase {
		return func(t *rapid.T) tabCase {
			var c tabCase
			for i, n := 0, rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 30)).Draw(t, "n"); i < n; i++ {
				c.E = append(c.E, genOpE(t, res))
			}
			if rapid.IntRange(0, 99).Draw(t, "many") == 99 {
				c.Many = rapid.OneOf(rapid.SampledFrom([]int{127, 128, 254, 255, 256, 257, 1000, 65535, 65536}), rapid.IntRange(1, 3000)).Draw(t, "how many")
			}
			return c
		}
	}
	pbt.Check(t, "C12",
		pbt.NewPart("roundtrip", 4000, 30000, "the table has entries", genTab(false), func(c *pbt.Ctx, tc tabCase) error {
			tc.E = tc.all()
			c.NonTrivialIf(len(tc.E) > 0)
			var tab operations.Table
			for _, e := range tc.E {
				tab = append(tab, e.op())
			}
			b := tab.ToBytes()
			if err := pbt.EqBytes("serialised table", b, tabWire(tc.E, uint32(len(tc.E)))); err != nil {
				return err
			}
			got, err := operations.FromBytes(bytes.Clone(b))
			if err != nil {
				return fmt.Errorf("parsing the serialised table: %v", err)
			}
			return eqTable(got, tc.E)
		}),
		pbt.NewPart("foreign", 4000, 30000, "some entry has reserved bytes", genTab(true), func(c *pbt.Ctx, tc tabCase) error {
			tc.E = tc.all()
			for _, e := range tc.E {
				c.NonTrivialIf(e.Res.N > 0)
			}
			b := tabWire(tc.E, uint32(len(tc.E)))
			got, err := operations.FromBytes(b)
			if err != nil {
				return fmt.Errorf("table written to the documented layout: %v", err)
			}
			return eqTable(got, tc.E)
		}),
		pbt.NewPart("malformed", 8000, 80000, "the bytes are malformed by the independent parser", func(t *rapid.T) tabCase {
			var c tabCase
			for i, n := 0, rapid.IntRange(0, 4).Draw(t, "n"); i < n; i++ {
				e := genOpE(t, true)
				if i > 0 && e.NS.N > 300 {
					e.NS.N = 300
				}
				c.E = append(c.E, e)
			}
			if c.Grow = rapid.IntRange(0, 2).Draw(t, "grow") == 0; c.Grow {
				c.Cnt = rapid.OneOf(rapid.SampledFrom([]uint32{1, 2, 1000, 1 << 20, 1 << 28, 1 << 31, 1<<32 - 1}), rapid.Uint32()).Draw(t, "cnt")
			}
			for i, n := 0, rapid.IntRange(0, 2).Draw(t, "nm"); i < n; i++ {
				pos := rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 200000)).Draw(t, "pos")
				c.Muts = append(c.Muts, mut{Op: rapid.SampledFrom([]int{1, 0, 4, 2}).Draw(t, "op"), Pos: pos, B: rapid.Byte().Draw(t, "b")})
			}
			return c
		}, func(c *pbt.Ctx, tc tabCase) error {
			n := uint32(len(tc.E))
			if tc.Grow {
				n = tc.Cnt
			}
			b := malCase{Raw: tabWire(tc.E, n), Muts: tc.Muts}.bytes()
			want, werr := tabParse(b)
			var got operations.Table
			var err error
			var perr error
			alloc := allocDuring(func() {
				perr = pbt.Safely(func() error { got, err = operations.FromBytes(b[:len(b):len(b)]); return nil })
			})
			if perr != nil {
				return perr
			}
			if limit := uint64(200*len(b) + 200000); alloc > limit {
				return fmt.Errorf("parsing %d bytes allocated %d bytes", len(b), alloc)
			}
			if werr != nil {
				c.NonTrivial()
				if err == nil {
					return fmt.Errorf("malformed table %s parsed as %d operations", pbt.Trunc(b), len(got))
				}
				return nil
			}
			for _, o := range want {
				if o.Type < 1 || o.Type > 4 || o.Direction < 1 || o.Direction > 2 {
					return nil // unknown kinds: either answer is fine
				}
			}
			if err != nil {
				return fmt.Errorf("well-formed table %s: %v", pbt.Trunc(b), err)
			}
			if len(got) != len(want) {
				return fmt.Errorf("%d operations, want %d", len(got), len(want))
			}
			for i := range want {
				if got[i] != want[i] {
					return fmt.Errorf("operation %d: %+v, want %+v", i, got[i], want[i])
				}
			}
			return nil
		}),
		pbt.NewPart("prefixes", 300, 3000, "every case: each strict prefix of a valid table is tried", func(t *rapid.T) []OpE {
			var es []OpE
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
				e := genOpE(t, true)
				e.NS.N, e.Op.N, e.Res.N = e.NS.N%30, e.Op.N%30, e.Res.N%30
				es = append(es, e)
			}
			return es
		}, func(c *pbt.Ctx, es []OpE) error {
			c.NonTrivial()
			b := tabWire(es, uint32(len(es)))
			for n := 0; n < len(b); n++ {
				if got, err := operations.FromBytes(bytes.Clone(b[:n])); err == nil {
					return fmt.Errorf("the first %d of %d bytes parsed as %d operations", n, len(b), len(got))
				}
				// The rest of the buffer must not be read either.
				if got, err := operations.FromBytes(b[:n]); err == nil {
					return fmt.Errorf("the first %d of %d bytes parsed as %d operations", n, len(b), len(got))
				}
			}
			return nil
		}),
	)
}

// ---- C13

type portCase struct {
	Port, Data     pbt.Blob
	Next, Complete bool
}

func TestC13(t *testing.T) {
	pbt.Check(t, "C13",
		pbt.NewPart("roundtrip", 8000, 50000, "the message has a port name and data", func(t *rapid.T) portCase {
			return portCase{pbt.GenBlob(t, pbt.Lens(300, 0, 255, 256, 65535, 32768)), pbt.GenBlob(t, pbt.Lens(300, 0, 65536, 70000)), rapid.Bool().Draw(t, "n"), rapid.Bool().Draw(t, "c")}
		}, func(c *pbt.Ctx, pc portCase) error {
			c.NonTrivialIf(pc.Port.N > 0 && pc.Data.N > 0)
			c.Label(fmt.Sprintf("next=%v complete=%v", pc.Next, pc.Complete))
			p := invoke.PortIO{Port: string(pc.Port.Bytes()), Data: pc.Data.Bytes(), Next: pc.Next, Complete: pc.Complete}
			// What lies behind the data in memory is somebody else's.
			room := make([]byte, len(p.Data)+len(p.Port)+len(p.Data)+64)
			p.Data = room[:copy(room, p.Data)]
			b := p.Encode()
			for i, x := range room[len(p.Data):] {
				if x != 0 {
					return fmt.Errorf("encoding wrote to byte %d behind the data", i)
				}
			}
			if err := pbt.EqBytes("data after encoding", p.Data, pc.Data.Bytes()); err != nil {
				return err
			}
			got := invoke.PortIO{Port: "junk", Data: []byte("junk"), Next: true, Complete: true}
			if err := got.Decode(bytes.Clone(b)); err != nil {
				return fmt.Errorf("decoding %s: %v", pbt.Trunc(b), err)
			}
			if got.Port != p.Port || got.Next != pc.Next || got.Complete != pc.Complete {
				return fmt.Errorf("wrote port %.40q next=%v complete=%v, read port %.40q next=%v complete=%v", p.Port, pc.Next, pc.Complete, got.Port, got.Next, got.Complete)
			}
			return pbt.EqBytes("data", got.Data, pc.Data.Bytes())
		}),
		pbt.NewPart("malformed", 6000, 50000, "the bytes are cut before the end of the port name", func(t *rapid.T) malCase {
			m := malCase{Raw: rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "raw")}
			if rapid.Bool().Draw(t, "valid") {
				n := rapid.IntRange(0, 30).Draw(t, "n")
				m.Raw = append(append([]byte{byte(rapid.IntRange(0, 3).Draw(t, "fl"))}, be16(uint16(n))...), pbt.Blob{N: n + rapid.IntRange(0, 5).Draw(t, "data")}.Bytes()...)
				m.Raw = m.Raw[:rapid.IntRange(0, len(m.Raw)).Draw(t, "cut")]
			}
			return m
		}, func(c *pbt.Ctx, m malCase) error {
			b := m.bytes()
			bad := len(b) < 3 || len(b) < 3+int(b[1])<<8+int(b[2])
			c.NonTrivialIf(bad)
			var p invoke.PortIO
			err := p.Decode(append(make([]byte, 0, len(b)), b...))
			if bad && err == nil {
				return fmt.Errorf("malformed message %s decoded as %+v", pbt.Trunc(b), p)
			}
			if !bad && err != nil {
				return fmt.Errorf("well-formed message %s: %v", pbt.Trunc(b), err)
			}
			if !bad && (p.Port != string(b[3:3+int(b[1])<<8+int(b[2])]) || !bytes.Equal(p.Data, b[3+int(b[1])<<8+int(b[2]):])) {
				return fmt.Errorf("message %s decoded as %+v", pbt.Trunc(b), p)
			}
			return nil
		}),
	)
}

// ---- C16

type idCase struct {
	Server bool
	Seed   uint64
	N      int
}

// nextIDs makes a source positioned as if seed ids had been handed out.
func nextIDs(server bool, seed uint64) func() (uint32, bool) {
	if server {
		s := socket.ServerStreamIDs(seed)
		return s.Next
	}
	s := socket.ClientStreamIDs(seed)
	return s.Next
}

func checkID(server bool, id uint32) error {
	if id == 0 || id > 1<<31-1 {
		return fmt.Errorf("stream id %d", id)
	}
	if odd := id&1 == 1; odd == server {
		return fmt.Errorf("stream id %d has the wrong parity (accepting side: %v)", id, server)
	}
	return nil
}

func runIDs(c *pbt.Ctx, ic idCase) error {
	next := nextIDs(ic.Server, ic.Seed)
	space := uint64(1 << 30) // odd ids 1..2^31-1
	if ic.Server {
		space = 1<<30 - 1 // even ids 2..2^31-2
	}
	seen := map[uint32]bool{}
	var prev uint32
	for i := 0; i < ic.N; i++ {
		id, first := next()
		if want := ic.Seed+uint64(i) < space; first != want {
			return fmt.Errorf("call %d from %d: first use of the id space: %v", i, ic.Seed, first)
		}
		if err := checkID(ic.Server, id); err != nil {
			return fmt.Errorf("%v (call %d from %d)", err, i, ic.Seed)
		}
		if seen[id] {
			return fmt.Errorf("stream id %d handed out twice within %d calls from %d", id, i+1, ic.Seed)
		}
		seen[id] = true
		if i > 0 {
			first, last := uint32(1), uint32(1<<31-1)
			if ic.Server {
				first, last = 2, 1<<31-2
			}
			if want := prev + 2; id != want && !(prev == last && id == first) {
				return fmt.Errorf("stream id %d follows %d", id, prev)
			}
			if id < prev {
				c.NonTrivial()
				c.Label("wrap")
			}
		}
		prev = id
	}
	return nil
}

type concN struct {
	Server  bool
	G, N    int
	Handler bool
}

func runIDsConc(c *pbt.Ctx, cn concN) error {
	c.NonTrivialIf(cn.G > 1)
	var call func() uint32
	if cn.Handler {
		mode := handler.ClientMode
		if cn.Server {
			mode = handler.ServerMode
		}
		h := handler.New(context.Background(), mode)
		var mu sync.Mutex
		var got []uint32
		h.SetFrameSender(func(f frames.Frame) error {
			mu.Lock()
			got = append(got, f.GetStreamID())
			mu.Unlock()
			return nil
		})
		gate := pbt.NewGate(cn.N)
		for g := 0; g < cn.G; g++ {
			gate.Go(func() {
				for i := 0; i < cn.N; i++ {
					p := payload.New([]byte{1}, make([]byte, 8))
					if (g+i)%2 == 0 {
						h.FireAndForget(context.Background(), p)
					} else {
						h.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{})
					}
				}
			})
		}
		gate.Open()
		gate.Wait()
		i := 0
		mu.Lock()
		defer mu.Unlock()
		if len(got) < cn.G*cn.N {
			return fmt.Errorf("%d requests sent %d frames", cn.G*cn.N, len(got))
		}
		call = func() uint32 { i++; return got[i-1] }
		return checkSet(cn.Server, cn.G*cn.N, call)
	}
	next := nextIDs(cn.Server, 0)
	ids := make([][]uint32, cn.G)
	gate := pbt.NewGate(cn.N)
	for g := range ids {
		gate.Go(func() {
			for i := 0; i < cn.N; i++ {
				id, _ := next()
				ids[g] = append(ids[g], id)
			}
		})
	}
	gate.Open()
	gate.Wait()
	var all []uint32
	for _, x := range ids {
		all = append(all, x...)
	}
	i := 0
	return checkSet(cn.Server, len(all), func() uint32 { i++; return all[i-1] })
}

// checkSet checks n ids of a fresh source: the first n of the right parity, each once.
func checkSet(server bool, n int, call func() uint32) error {
	seen := map[uint32]bool{}
	for i := 0; i < n; i++ {
		id := call()
		if err := checkID(server, id); err != nil {
			return err
		}
		if seen[id] {
			return fmt.Errorf("stream id %d handed out twice", id)
		}
		if id > uint32(2*n) {
			return fmt.Errorf("stream id %d among the first %d", id, n)
		}
		seen[id] = true
	}
	return nil
}

func TestC16(t *testing.T) {
	pbt.Check(t, "C16",
		pbt.NewPart("sequence", 3000, 20000, "the ids wrap around", func(t *rapid.T) idCase {
			c := idCase{Server: rapid.Bool().Draw(t, "server"), N: rapid.IntRange(1, 60).Draw(t, "n")}
			edge := rapid.SampledFrom([]uint64{1 << 30, 1 << 31, 1 << 32, 3 << 30, 1 << 33, 1 << 40, 1 << 62, 0}).Draw(t, "edge")
			d := uint64(rapid.IntRange(0, 40).Draw(t, "d"))
			if edge >= d {
				c.Seed = edge - d
			} else if rapid.Bool().Draw(t, "any") {
				c.Seed = rapid.Uint64Range(0, 1<<62).Draw(t, "seed")
			}
			return c
		}, runIDs),
		pbt.NewPart("concurrent", 150, 1500, "several callers at once", func(t *rapid.T) concN {
			return concN{rapid.Bool().Draw(t, "s"), rapid.IntRange(2, 8).Draw(t, "g"), rapid.IntRange(1, 2000).Draw(t, "n"), false}
		}, runIDsConc),
		pbt.NewPart("endpoint", 200, 1500, "several callers at once", func(t *rapid.T) concN {
			return concN{rapid.Bool().Draw(t, "s"), rapid.IntRange(1, 8).Draw(t, "g"), rapid.IntRange(1, 100).Draw(t, "n"), true}
		}, runIDsConc),
		// 64-bit counters are slow on 32-bit platforms.
		pbt.NewPart("whole space", 2*(strconv.IntSize/64), 2, "the whole id space is used once, from a fresh source", func(t *rapid.T) idCase {
			return idCase{Server: rapid.Bool().Draw(t, "server")}
		}, func(c *pbt.Ctx, ic idCase) error {
			c.NonTrivial()
			if ic.Server {
				var s socket.ServerStreamIDs
				for id := uint32(2); id < 1<<31-1; id += 2 {
					if got, _ := s.Next(); got != id {
						return fmt.Errorf("id %d instead of %d", got, id)
					}
				}
				if got, _ := s.Next(); got != 2 {
					return fmt.Errorf("after the whole space: %d", got)
				}
				return nil
			}
			var s socket.ClientStreamIDs
			for id := uint32(1); ; id += 2 {
				if got, _ := s.Next(); got != id {
					return fmt.Errorf("id %d instead of %d", got, id)
				}
				if id == 1<<31-1 {
					break
				}
			}
			if got, _ := s.Next(); got != 1 {
				return fmt.Errorf("after the whole space: %d", got)
			}
			return nil
		}),
	)
}

// ---- C17

type lop struct {
	Op int // 0 add, 1 remove, 2 get
	ID uint32
}

type fakeStream struct{ id uint32 }

func (f *fakeStream) Context() context.Context { return context.Background() }
func (f *fakeStream) StreamID() uint32         { return f.id }
func (f *fakeStream) OnNext(payload.Payload)   {}
func (f *fakeStream) OnComplete()              {}
func (f *fakeStream) OnError(error)            {}

func runLookup(c *pbt.Ctx, ops []lop) error {
	var l proxy.Lookup
	m := map[uint32]*fakeStream{}
	check := func() error {
		if l.Size() != len(m) || l.IsEmpty() != (len(m) == 0) {
			return fmt.Errorf("registry of %d streams reports size %d, empty %v", len(m), l.Size(), l.IsEmpty())
		}
		for id := uint32(0); id < 12; id++ {
			s, ok := l.Get(id)
			want, wok := m[id]
			if ok != wok || ok && s != proxy.Stream(want) {
				return fmt.Errorf("stream %d: found %v, want %v", id, ok, wok)
			}
		}
		return nil
	}
	for i, o := range ops {
		switch o.Op {
		case 0:
			if m[o.ID] != nil {
				continue
			}
			s := &fakeStream{o.ID}
			l.Add(s)
			m[o.ID] = s
		case 1:
			if m[o.ID] != nil {
				c.NonTrivial()
				c.Label("removed")
			}
			l.Remove(o.ID)
			delete(m, o.ID)
		}
		if err := check(); err != nil {
			return fmt.Errorf("after step %d of %v: %v", i, ops[:i+1], err)
		}
	}
	return nil
}

func runLookupConc(c *pbt.Ctx, progs [][]lop) error {
	c.NonTrivialIf(len(progs) > 1)
	for round := 0; round < 4; round++ {
		var l proxy.Lookup
		gate := pbt.NewGate(round)
		errs := make([]error, len(progs))
		left := make([]map[uint32]*fakeStream, len(progs))
		for g, ops := range progs {
			gate.Go(func() {
				errs[g] = pbt.Safely(func() error {
					m := map[uint32]*fakeStream{}
					left[g] = m
					for i, o := range ops {
						id := uint32(g*1000) + o.ID + 1
						switch o.Op {
						case 0:
							if m[id] == nil {
								m[id] = &fakeStream{id}
								l.Add(m[id])
							}
						case 1:
							l.Remove(id)
							delete(m, id)
						}
						s, ok := l.Get(id)
						if want := m[id]; ok != (want != nil) || ok && s != proxy.Stream(want) {
							return fmt.Errorf("goroutine %d step %d: stream %d found %v, want %v", g, i, id, ok, want != nil)
						}
						if n := l.Size(); n < len(m) {
							return fmt.Errorf("size %d with %d own streams registered", n, len(m))
						}
					}
					return nil
				})
			})
		}
		gate.Open()
		gate.Wait()
		n := 0
		for g := range progs {
			if errs[g] != nil {
				return errs[g]
			}
			n += len(left[g])
			for id, s := range left[g] {
				if got, ok := l.Get(id); !ok || got != proxy.Stream(s) {
					return fmt.Errorf("stream %d lost after concurrent use", id)
				}
			}
		}
		if l.Size() != n || l.IsEmpty() != (n == 0) {
			return fmt.Errorf("%d streams left, size %d, empty %v", n, l.Size(), l.IsEmpty())
		}
		for g := range left {
			for id := range left[g] {
				l.Remove(id)
			}
		}
		if l.Size() != 0 || !l.IsEmpty() {
			return fmt.Errorf("size %d after removing everything", l.Size())
		}
		for g := range left {
			for id := range left[g] {
				if _, ok := l.Get(id); ok {
					return fmt.Errorf("stream %d found after removal", id)
				}
			}
		}
	}
	return nil
}

func genLops(t *rapid.T, max int) []lop {
	var ops []lop
	for i, n := 0, rapid.IntRange(1, max).Draw(t, "n"); i < n; i++ {
		ops = append(ops, lop{rapid.IntRange(0, 1).Draw(t, "op"), uint32(rapid.IntRange(0, 11).Draw(t, "id"))})
	}
	return ops
}

func TestC17(t *testing.T) {
	pbt.Check(t, "C17",
		pbt.NewPart("history", 8000, 80000, "a registered stream is removed", func(t *rapid.T) []lop { return genLops(t, 40) }, runLookup),
		pbt.NewPart("concurrent", 300, 3000, "several callers at once", func(t *rapid.T) [][]lop {
			var p [][]lop
			for i, n := 0, rapid.IntRange(2, 6).Draw(t, "g"); i < n; i++ {
				ops := genLops(t, 60)
				p = append(p, append(ops, ops...))
			}
			return p
		}, runLookupConc),
	)
}

// ---- C18

type regOp struct {
	Import bool
	Kind   int // 0 rr 1 fnf 2 stream 3 channel
	NS, Op int
}

type regCase struct {
	Sep string
	Ops []regOp
}

// Different names that are the same text when they are joined with sep, or
// when their case is dropped.
func nsNames(sep string) []string { return []string{"a", "a" + sep + "b", "A", ""} }
func opNames(sep string) []string { return []string{"b" + sep + "c", "c", "C", "c" + sep} }

var seps = []string{"", ".", "::", "/", ":", "\x00", " "}

var caseNo atomic.Int64

func infos(h invoke.Handlers, kind int) []invoke.HandlerInfo {
	return [][]invoke.HandlerInfo{h.RequestResponse, h.FireAndForget, h.RequestStream, h.RequestChannel}[kind]
}

func runRegistry(c *pbt.Ctx, rc regCase) error {
	ops := rc.Ops
	// The registry is global and only grows, so every case uses its own names.
	prefix := fmt.Sprintf("case%d.", caseNo.Add(1))
	base := invoke.GetOperations()
	nOut, nIn := [4]int{}, [4]int{}
	for k := 0; k < 4; k++ {
		nOut[k], nIn[k] = len(infos(base.Exported, k)), len(infos(base.Imported, k))
	}
	type key struct {
		kind   int
		ns, op string
	}
	imported := map[key]uint32{}
	want := map[operations.Operation]int{}
	type exp struct {
		kind  int
		idx   uint32
		calls *[]byte
	}
	var exports []exp
	ctx := context.Background()
	p := payload.New([]byte("x"))
	// called invokes the handler of the index and reports whether it exists.
	called := func(kind int, idx uint32) (ok bool) {
		switch kind {
		case 0:
			if h := invoke.GetRequestResponseHandler(idx); h != nil {
				h(ctx, p)
				ok = true
			}
		case 1:
			if h := invoke.GetFireAndForgetHandler(idx); h != nil {
				h(ctx, p)
				ok = true
			}
		case 2:
			if h := invoke.GetRequestStreamHandler(idx); h != nil {
				h(ctx, p)
				ok = true
			}
		case 3:
			if h := invoke.GetRequestChannelHandler(idx); h != nil {
				h(ctx, p, nil)
				ok = true
			}
		}
		return
	}
	for i, o := range ops {
		ns, op := prefix+nsNames(rc.Sep)[o.NS], opNames(rc.Sep)[o.Op]
		rt := operations.RequestType(o.Kind + 1)
		if o.Import {
			var got uint32
			switch o.Kind {
			case 0:
				got = invoke.ImportRequestResponse(ns, op)
			case 1:
				got = invoke.ImportFireAndForget(ns, op)
			case 2:
				got = invoke.ImportRequestStream(ns, op)
			case 3:
				got = invoke.ImportRequestChannel(ns, op)
			}
			k := key{o.Kind, ns, op}
			idx, again := imported[k]
			if again {
				c.NonTrivial()
				c.Label("imported again")
			} else {
				idx = uint32(nIn[o.Kind])
				nIn[o.Kind]++
				imported[k] = idx
				want[operations.Operation{Index: idx, Type: rt, Direction: operations.Import, Namespace: ns, Operation: op}]++
			}
			if got != idx {
				return fmt.Errorf("step %d: import of %s %s::%s returned %d, want %d", i, rt, ns, op, got, idx)
			}
		} else {
			calls := new([]byte)
			switch o.Kind {
			case 0:
				invoke.ExportRequestResponse(ns, op, func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
					*calls = append(*calls, 1)
					return nil
				})
			case 1:
				invoke.ExportFireAndForget(ns, op, func(context.Context, payload.Payload) { *calls = append(*calls, 1) })
			case 2:
				invoke.ExportRequestStream(ns, op, func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
					*calls = append(*calls, 1)
					return nil
				})
			case 3:
				invoke.ExportRequestChannel(ns, op, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
					*calls = append(*calls, 1)
					return nil
				})
			}
			idx := uint32(nOut[o.Kind])
			nOut[o.Kind]++
			exports = append(exports, exp{o.Kind, idx, calls})
			want[operations.Operation{Index: idx, Type: rt, Direction: operations.Export, Namespace: ns, Operation: op}]++
		}
	}
	for n, e := range exports {
		before := make([]int, len(exports))
		for j := range exports {
			before[j] = len(*exports[j].calls)
		}
		if !called(e.kind, e.idx) {
			return fmt.Errorf("exported %s %d has no handler", operations.RequestType(e.kind+1), e.idx)
		}
		for j := range exports {
			d := len(*exports[j].calls) - before[j]
			if want := map[bool]int{true: 1, false: 0}[j == n]; d != want {
				return fmt.Errorf("calling %s %d ran the handler of export %d %d times", operations.RequestType(e.kind+1), e.idx, j, d)
			}
		}
	}
	for k := 0; k < 4; k++ {
		for _, idx := range []uint32{uint32(nOut[k]), uint32(nOut[k]) + 1, 1 << 31, 1<<32 - 1} {
			if called(k, idx) {
				return fmt.Errorf("unregistered %s %d has a handler", operations.RequestType(k+1), idx)
			}
		}
	}
	total := 0
	for k := 0; k < 4; k++ {
		total += nOut[k] + nIn[k]
	}
	tab := invoke.GetOperationsTable()
	if len(tab) != total {
		return fmt.Errorf("advertised table has %d entries, %d operations are registered", len(tab), total)
	}
	got := map[operations.Operation]int{}
	perKind := map[[2]uint8]map[uint32]bool{}
	for _, o := range tab {
		k := [2]uint8{uint8(o.Type), uint8(o.Direction)}
		if perKind[k] == nil {
			perKind[k] = map[uint32]bool{}
		}
		if perKind[k][o.Index] {
			return fmt.Errorf("index %d of %s %s is advertised twice", o.Index, o.Type, o.Direction)
		}
		perKind[k][o.Index] = true
		if len(o.Namespace) >= len(prefix) && o.Namespace[:len(prefix)] == prefix {
			got[o]++
		}
	}
	for o := range want {
		if got[o] != 1 {
			return fmt.Errorf("%+v is advertised %d times", o, got[o])
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d operations of this case are advertised, %d are registered", len(got), len(want))
	}
	c.NonTrivialIf(len(exports) > 1)
	return nil
}

type annE struct {
	T, D   uint8
	Index  uint32
	NS, Op int
}

type annCase struct {
	Sep string
	Es  []annE
}

// runAnnounced checks the names announced by a peer's setup frame.
func runAnnounced(c *pbt.Ctx, ac annCase) error {
	wire := append([]byte{0, 'w', 'r', 's', 0, 1}, be32(uint32(len(ac.Es)))...)
	var es []operations.Operation
	for _, e := range ac.Es {
		o := operations.Operation{Index: e.Index, Type: operations.RequestType(e.T), Direction: operations.Direction(e.D), Namespace: nsNames(ac.Sep)[e.NS], Operation: opNames(ac.Sep)[e.Op]}
		es = append(es, o)
		wire = append(append(wire, e.T, e.D), be32(e.Index)...)
		wire = append(append(wire, be16(uint16(len(o.Namespace)))...), o.Namespace...)
		wire = append(append(wire, be16(uint16(len(o.Operation)))...), o.Operation...)
		wire = append(wire, 0, 0)
	}
	h := handler.New(context.Background(), handler.ServerMode)
	h.SetFrameSender(func(frames.Frame) error { return nil })
	if err := h.HandleFrame(&frames.Setup{MinorVersion: 2, Data: wire}); err != nil {
		return fmt.Errorf("setup frame: %v", err)
	}
	imp := []func(string, string) uint32{h.ImportRequestResponse, h.ImportFireAndForget, h.ImportRequestStream, h.ImportRequestChannel}
	seen := map[operations.Operation]bool{}
	for _, o := range es {
		if o.Direction != operations.Export {
			c.NonTrivial()
			continue
		}
		idx := o.Index
		o.Index = 0
		if seen[o] {
			continue
		}
		seen[o] = true
		if got := imp[o.Type-1](o.Namespace, o.Operation); got != idx {
			return fmt.Errorf("%s %q::%q was announced as %d but imports as %d", o.Type, o.Namespace, o.Operation, idx, got)
		}
	}
	c.NonTrivialIf(len(seen) > 1)
	return nil
}

func TestC18(t *testing.T) {
	pbt.Check(t, "C18",
		pbt.NewPart("registry", 1500, 4000, "an operation is imported again or several are exported", func(t *rapid.T) regCase {
			rc := regCase{Sep: rapid.SampledFrom(seps).Draw(t, "sep")}
			for i, n := 0, rapid.IntRange(1, 24).Draw(t, "n"); i < n; i++ {
				rc.Ops = append(rc.Ops, regOp{rapid.Bool().Draw(t, "imp"), rapid.IntRange(0, 3).Draw(t, "k"), rapid.IntRange(0, 3).Draw(t, "ns"), rapid.IntRange(0, 3).Draw(t, "op")})
			}
			return rc
		}, runRegistry),
		pbt.NewPart("announced", 4000, 30000, "the peer announces imports, or several exports", func(t *rapid.T) annCase {
			ac := annCase{Sep: rapid.SampledFrom(seps).Draw(t, "sep")}
			for i, n := 0, rapid.IntRange(1, 12).Draw(t, "n"); i < n; i++ {
				ac.Es = append(ac.Es, annE{uint8(rapid.IntRange(1, 4).Draw(t, "t")), uint8(rapid.IntRange(1, 2).Draw(t, "d")), uint32(rapid.IntRange(0, 20).Draw(t, "i")), rapid.IntRange(0, 3).Draw(t, "ns"), rapid.IntRange(0, 3).Draw(t, "op")})
			}
			return ac
		}, runAnnounced),
	)
}

// ---- C19

type liveOp struct {
	Op  int // 0 put 1 remove 2 put through a payload 3 garbage collect 4 probe an unknown handle
	I   int
	Off uint64
}

type obj struct{ n int }

func runLive(c *pbt.Ctx, ops []liveOp) error {
	l := invoke.NewLiveInstances[*obj]()
	enc := transform.InterfaceEncode(l)
	type ent struct {
		h    uint64
		o    *obj
		live bool
	}
	var es []*ent
	check := func() error {
		hs := map[uint64]bool{}
		for _, e := range es {
			if e.live {
				if hs[e.h] {
					return fmt.Errorf("two live objects share handle %#x", e.h)
				}
				hs[e.h] = true
			}
		}
		for i, e := range es {
			got, ok := l.Get(e.h)
			if e.live && (!ok || got != e.o) {
				return fmt.Errorf("object %d: handle resolves %v, want it", i, ok)
			}
			if !e.live && ok {
				return fmt.Errorf("the handle of removed object %d resolves to object %d", i, got.n)
			}
		}
		return nil
	}
	for step, op := range ops {
		switch op.Op {
		case 0:
			o := &obj{len(es)}
			es = append(es, &ent{l.Put(o), o, true})
		case 2:
			o := &obj{len(es)}
			p, err := enc(o)
			if err != nil {
				return err
			}
			d := msgpack.NewDecoder(p.Data())
			h, err := d.ReadUint64()
			if err != nil {
				return fmt.Errorf("handle in the payload: %v", err)
			}
			es = append(es, &ent{h, o, true})
			c.Label("through payload")
		case 1:
			if len(es) == 0 {
				continue
			}
			e := es[op.I%len(es)]
			got, ok := l.Remove(e.h)
			if ok != e.live || ok && got != e.o {
				return fmt.Errorf("step %d: removing object %d (registered: %v) answered %v", step, op.I%len(es), e.live, ok)
			}
			if e.live {
				c.NonTrivial()
			}
			e.live = false
		case 3:
			runtime.GC()
			c.Label("gc")
		case 4:
			h := op.Off
			if len(es) > 0 {
				h += es[op.I%len(es)].h
			}
			for _, e := range es {
				if e.h == h {
					h = 0
				}
			}
			for _, e := range es {
				if e.h == h {
					return fmt.Errorf("an object has the zero handle")
				}
			}
			if _, ok := l.Get(h); ok {
				return fmt.Errorf("unknown handle %#x resolves", h)
			}
			if _, ok := l.Remove(h); ok {
				return fmt.Errorf("unknown handle %#x was removed", h)
			}
		}
		if err := check(); err != nil {
			return fmt.Errorf("after step %d: %v", step, err)
		}
	}
	return nil
}

// runStale registers and removes objects while memory is being reused, and
// checks that handles of removed objects stay dead.
func runStale(c *pbt.Ctx, n int) error {
	c.NonTrivial()
	l := invoke.NewLiveInstances[int]()
	dead := map[uint64]int{}
	for i := 0; i < n; i++ {
		h := l.Put(i)
		if old, ok := dead[h]; ok {
			v, live := l.Get(h)
			return fmt.Errorf("the handle given for removed object %d now resolves (%v) to object %d", old, live, v)
		}
		if v, ok := l.Remove(h); !ok || v != i {
			return fmt.Errorf("removing object %d: %v %v", i, v, ok)
		}
		dead[h] = i
		if i%200 == 199 {
			runtime.GC()
		}
	}
	return nil
}

type liveConc struct{ G, N int }

func runLiveConc(c *pbt.Ctx, lc liveConc) error {
	c.NonTrivialIf(lc.G > 1)
	l := invoke.NewLiveInstances[*obj]()
	shared := make([]uint64, lc.N)
	for i := range shared {
		shared[i] = l.Put(&obj{i})
	}
	wins := make([]atomic.Int32, lc.N)
	gate := pbt.NewGate(lc.N)
	errs := make([]error, lc.G)
	kept := make([]map[uint64]*obj, lc.G)
	for g := 0; g < lc.G; g++ {
		gate.Go(func() {
			errs[g] = pbt.Safely(func() error {
				kept[g] = map[uint64]*obj{}
				for i := 0; i < lc.N; i++ {
					o := &obj{g*100000 + i}
					h := l.Put(o)
					if got, ok := l.Get(h); !ok || got != o {
						return fmt.Errorf("own handle resolves %v", ok)
					}
					if v, ok := l.Get(shared[i]); ok && v.n != i {
						return fmt.Errorf("shared handle resolves to %d, want %d", v.n, i)
					}
					if v, ok := l.Remove(shared[i]); ok {
						wins[i].Add(1)
						if v.n != i {
							return fmt.Errorf("removed %d, want %d", v.n, i)
						}
					}
					if _, ok := l.Get(shared[i]); ok {
						return fmt.Errorf("a removed handle resolves")
					}
					if i%2 == 0 {
						if got, ok := l.Remove(h); !ok || got != o {
							return fmt.Errorf("removing an own object: %v", ok)
						}
					} else {
						kept[g][h] = o
					}
				}
				return nil
			})
		})
	}
	gate.Open()
	gate.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	for i := range wins {
		if n := wins[i].Load(); n != 1 {
			return fmt.Errorf("object %d was removed %d times", i, n)
		}
	}
	all := map[uint64]bool{}
	for g := range kept {
		for h, o := range kept[g] {
			if all[h] {
				return fmt.Errorf("two live objects share a handle")
			}
			all[h] = true
			if got, ok := l.Get(h); !ok || got != o {
				return fmt.Errorf("a live handle resolves %v after concurrent use", ok)
			}
		}
	}
	return nil
}

func TestC19(t *testing.T) {
	pbt.Check(t, "C19",
		pbt.NewPart("history", 5000, 40000, "a registered object is removed", func(t *rapid.T) []liveOp {
			var ops []liveOp
			for i, n := 0, rapid.IntRange(1, 30).Draw(t, "n"); i < n; i++ {
				o := liveOp{Op: rapid.SampledFrom([]int{0, 1, 2, 0, 1, 2, 4, 0, 1, 1, 4}).Draw(t, "op"), I: rapid.IntRange(0, 30).Draw(t, "i")}
				if o.Op == 4 {
					o.Off = rapid.SampledFrom([]uint64{1, 8, 16, 1 << 20, 1 << 40}).Draw(t, "off")
				}
				ops = append(ops, o)
			}
			return ops
		}, runLive),
		pbt.NewPart("collected", 300, 2000, "a registered object is removed", func(t *rapid.T) []liveOp {
			var ops []liveOp
			for i, n := 0, rapid.IntRange(1, 40).Draw(t, "n"); i < n; i++ {
				ops = append(ops, liveOp{Op: rapid.SampledFrom([]int{0, 1, 3, 2}).Draw(t, "op"), I: rapid.IntRange(0, 30).Draw(t, "i")})
			}
			return ops
		}, runLive),
		pbt.NewPart("reuse", 20, 200, "every case", func(t *rapid.T) int { return rapid.SampledFrom([]int{300, 1000, 3000, 5000, 70000}).Draw(t, "n") }, runStale),
		pbt.NewPart("concurrent", 150, 1500, "several callers at once", func(t *rapid.T) liveConc {
			return liveConc{rapid.IntRange(2, 8).Draw(t, "g"), rapid.IntRange(1, 300).Draw(t, "n")}
		}, runLiveConc),
	)
}
