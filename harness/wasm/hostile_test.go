//go:build verif

package wasm

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// Steps of a hostile peer's case.
const (
	hsFrames = iota // the peer hands over a buffer
	hsLocal         // the endpoint makes a request
	hsMore          // it asks for more items
	hsCancel        // it cancels
	hsWild          // the peer claims to have filled more than the memory
)

// Streams a frame can be sent for.
const (
	selFresh  = iota // one the peer has not used yet
	selPeer          // one it has
	selLocal         // a request of the endpoint
	selZero          // the connection
	selWild          // any
	selFuture        // the endpoint's next
)

// Ways to spoil a frame.
const (
	spNone   = iota
	spCut    // it ends early
	spExtra  // it goes on
	spRandom // some of its bytes are others
	spType   // its type and flags are others
)

type hostileFrame struct {
	Sel, I int
	T      int
	N      uint32
	Flags  int // next, complete
	Op     int // 3: unknown
	Short  int // metadata cut to Short-1 bytes
	Items  int
	Mode   int
	Part   bool // more of the request is to follow, but does not
	Spoil  int
	At     int
	With   []byte
}

type hostileStep struct {
	K, I   int
	N      uint32
	Frames []hostileFrame
	Tail   []byte // behind the frames: the beginning of one
	Settle bool
}

type hostileCase struct {
	Side  int
	Ops   []byte // the guest's list of operations, unless it is nil
	Steps []hostileStep
}

// Modes of the channel handler.
const (
	hmEcho = iota
	hmCollect
	hmIgnore
	hmCancel
	hmCount
)

func genHostileFrame(t *rapid.T) hostileFrame {
	f := hostileFrame{
		Sel: rapid.SampledFrom([]int{selFresh, selFresh, selFresh, selPeer, selPeer, selPeer, selLocal, selLocal, selLocal, selZero, selWild, selFuture}).Draw(t, "stream"),
		I:   rapid.IntRange(0, 5).Draw(t, "i"),
	}
	types := []int{tRequestN, tCancel, tPayload, tPayload, tError, tRR, tFNF, tRS, tRC, tSetup}
	if f.Sel == selFresh {
		types = []int{tRR, tFNF, tRS, tRC, tRS, tRC, tRC, tRequestN, tCancel, tPayload, tError}
	}
	f.T = rapid.SampledFrom(types).Draw(t, "type")
	f.N = rapid.OneOf(rapid.Uint32Range(1, 4), rapid.Uint32Range(1, 4), rapid.Uint32Range(1, 10),
		rapid.SampledFrom([]uint32{0, 1<<31 - 1, 1 << 31, 1<<32 - 1})).Draw(t, "n")
	if f.T == tPayload {
		if rapid.IntRange(0, 3).Draw(t, "next") > 0 {
			f.Flags |= fNext
		}
		if rapid.IntRange(0, 3).Draw(t, "complete") == 0 {
			f.Flags |= fComplete
		}
	}
	if f.T >= tRR && f.T <= tRC {
		f.Op = rapid.SampledFrom([]int{0, 1, 2, 0, 1, 2, 3}).Draw(t, "op")
		if rapid.IntRange(0, 5).Draw(t, "meta") == 0 {
			f.Short = rapid.IntRange(1, 8).Draw(t, "short")
		}
		f.Items = rapid.IntRange(0, 6).Draw(t, "items")
		f.Mode = rapid.IntRange(0, hmCount-1).Draw(t, "mode")
		f.Part = f.Sel == selFresh && rapid.IntRange(0, 9).Draw(t, "part") == 0
	}
	return f
}

func genSpoilt(t *rapid.T) hostileFrame {
	f := genHostileFrame(t)
	if rapid.Bool().Draw(t, "spoilt") {
		f.Spoil = rapid.IntRange(1, spType).Draw(t, "spoil")
		f.At = rapid.IntRange(0, 40).Draw(t, "at")
		f.With = rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "with")
	}
	return f
}

func genHostile(t *rapid.T) hostileCase {
	c := hostileCase{Side: rapid.SampledFrom([]int{hostSide, guestSide}).Draw(t, "side")}
	if c.Side == hostSide && rapid.IntRange(0, 3).Draw(t, "ops") == 0 {
		c.Ops = rapid.SliceOfN(rapid.Byte(), 1, 30).Draw(t, "list")
		if rapid.Bool().Draw(t, "magic") {
			c.Ops = append([]byte("\x00wrs\x00\x01"), c.Ops...)
		}
	}
	frame := rapid.Custom(genHostileFrame)
	if rapid.IntRange(0, 2).Draw(t, "spoils") == 0 {
		frame = rapid.Custom(genSpoilt)
	}
	for range rapid.IntRange(1, 14).Draw(t, "steps") {
		s := hostileStep{K: rapid.SampledFrom([]int{hsFrames, hsFrames, hsFrames, hsFrames, hsLocal, hsMore, hsCancel, hsWild}).Draw(t, "step")}
		switch s.K {
		case hsFrames:
			s.Frames = rapid.SliceOfN(frame, 1, 3).Draw(t, "frames")
			if rapid.IntRange(0, 4).Draw(t, "tail") == 0 {
				s.Tail = rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "tail bytes")
				if len(s.Tail) > 2 {
					s.Tail[1] |= 1 // longer than what is there
				}
			}
			s.Settle = rapid.Bool().Draw(t, "settle")
		case hsLocal:
			s.I = rapid.SampledFrom([]int{tRR, tRS, tRC, tRC}).Draw(t, "kind")
			s.N = rapid.Uint32Range(0, 5).Draw(t, "n")
		case hsWild:
			s.N = rapid.SampledFrom([]uint32{0xc001, 0x10000, 1 << 31, 1<<32 - 1}).Draw(t, "n")
		default:
			s.I = rapid.IntRange(0, 3).Draw(t, "i")
			s.N = rapid.Uint32Range(1, 5).Draw(t, "n")
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// hostileLocal is a request of the endpoint.
type hostileLocal struct {
	tag    uint32
	kind   int
	stream uint32
	f      flux.Flux[payload.Payload]
	items  [][]byte
	end    []string
	in     *answering
}

// hostileRun is the state of one run.
type hostileRun struct {
	c       hostileCase
	mu      sync.Mutex
	err     error
	deliver func([]byte)
	wild    func(uint32)
	caller  invoke.Caller
	enter   func(func())
	index   func(kind, op int) uint32
	own     uint32 // the peer's streams are odd or even

	tag    uint32
	calls  map[uint32]int
	due    map[uint32]wire // valid requests, by tag
	sent   map[uint32]int  // requests, by tag: the type
	parts  map[uint32]bool // requests, by tag, of which a part has not been sent
	loose  bool            // spoilt requests may be others now
	used   map[uint32]bool
	next   uint32
	peers  []uint32
	locals []*hostileLocal
	kept   map[uint32]bool // streams the hostile frames leave alone
	got    map[uint32][]wire
}

func (h *hostileRun) errf(format string, args ...any) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.err == nil {
		h.err = fmt.Errorf(format, args...)
	}
}

var errNobody = errors.New("nobody sent this")

func (h *hostileRun) call(kind, op int, p payload.Payload) ([]byte, bool) {
	d := bytes.Clone(p.Data())
	h.mu.Lock()
	defer h.mu.Unlock()
	fail := func(format string, args ...any) {
		if h.err == nil && !h.loose {
			h.err = fmt.Errorf(format, args...)
		}
	}
	if len(d) != 8 {
		fail("a handler got %s, which nobody sent", pbt.Trunc(d))
		return nil, false
	}
	tag := binary.BigEndian.Uint32(d)
	if h.sent[tag] != kind || int(d[4]) != op {
		fail("the handler of operation %d for %s got %s, which was not sent to it", op, typeNames[kind], pbt.Trunc(d))
		return nil, false
	}
	h.calls[tag]++
	if h.parts[tag] {
		fail("request %d ran although only its first part has been sent", tag)
	}
	if h.calls[tag] > 1 {
		fail("request %d ran %d times", tag, h.calls[tag])
	}
	return d, true
}

func hostileItems(d []byte, n int) [][]byte {
	var out [][]byte
	for j := range n {
		out = append(out, append(bytes.Clone(d), byte(j)))
	}
	return out
}

func (h *hostileRun) RR(_, op int, _ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	d, ok := h.call(tRR, op, p)
	if !ok {
		return mono.Error[payload.Payload](errNobody)
	}
	return mono.Just[payload.Payload](payload.New(append([]byte("re:"), d...)))
}

func (h *hostileRun) FNF(_, op int, _ context.Context, p payload.Payload) { h.call(tFNF, op, p) }

func (h *hostileRun) RS(_, op int, _ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	d, ok := h.call(tRS, op, p)
	if !ok {
		return flux.Error[payload.Payload](errNobody)
	}
	return (&answering{items: hostileItems(d, int(d[5]))}).flux()
}

func (h *hostileRun) RC(_, op int, _ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	d, ok := h.call(tRC, op, p)
	if !ok {
		return flux.Error[payload.Payload](errNobody)
	}
	own := &answering{items: hostileItems(d, int(d[5]))}
	switch d[6] {
	case hmEcho:
		return flux.Map(in, func(p payload.Payload) (payload.Payload, error) { return p, nil })
	case hmCollect:
		var all []byte
		own.held = true
		done := func() {
			own.mu.Lock()
			own.items = [][]byte{all}
			own.mu.Unlock()
			own.release()
		}
		in.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext:     func(p payload.Payload) { all = append(all, p.Data()...) },
			OnComplete: done,
			OnError:    func(error) { done() },
		})
	case hmCancel:
		in.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext: func(payload.Payload) { in.Subscription().Cancel() },
		})
	}
	return own.flux()
}

// received notes what the endpoint sends.
func (h *hostileRun) received(b []byte) {
	fs, err := unframed(b)
	if err != nil {
		h.errf("the endpoint sent a %v", err)
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, f := range fs {
		h.got[f.Stream] = append(h.got[f.Stream], f)
		fail := func(format string, args ...any) {
			if h.err == nil {
				h.err = fmt.Errorf(format, args...)
			}
		}
		local := f.Stream != 0 && f.Stream&1 != h.own&1
		switch {
		case f.Type >= tRR && f.Type <= tRC:
			tag := uint32(0)
			if len(f.Data) == 4 {
				tag = binary.BigEndian.Uint32(f.Data)
			}
			ok := false
			for _, l := range h.locals {
				if l.stream == f.Stream && f.Stream != 0 {
					fail("the endpoint used stream %d twice", f.Stream)
				}
				if l.tag == tag {
					ok = l.stream == 0 && l.kind == f.Type
					l.stream = f.Stream
				}
			}
			if !ok || !local {
				fail("the endpoint sent %v, which it should not", f)
			}
		case !h.used[f.Stream] && !local:
			fail("the endpoint sent %v on a stream nobody has used", f)
		}
	}
}

// hand hands over frames.
func (h *hostileRun) hand(fs ...wire) {
	h.mu.Lock()
	for _, f := range fs {
		h.used[f.Stream] = true
	}
	h.mu.Unlock()
	h.deliver(framed(fs...))
}

func (h *hostileRun) fresh() uint32 {
	h.next += 2
	return h.next - 2
}

// request makes a request of the peer.
func (h *hostileRun) request(kind, op, items, mode int, n, stream uint32) (wire, []byte) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.tag++
	h.sent[h.tag] = kind
	data := binary.BigEndian.AppendUint32(nil, h.tag)
	data = append(data, byte(op), byte(items), byte(mode), 0)
	meta := make([]byte, 8)
	index := uint32(1000)
	if op < 3 {
		index = h.index(kind, op)
	}
	binary.BigEndian.PutUint32(meta, index)
	f := wire{Type: kind, Stream: stream, Meta: meta, Data: data}
	if kind == tRS || kind == tRC {
		f.N = n
	}
	return f, data
}

// local makes a request of the endpoint.
func (h *hostileRun) local(kind int, items int) *hostileLocal {
	h.mu.Lock()
	h.tag++
	l := &hostileLocal{tag: h.tag, kind: kind}
	h.locals = append(h.locals, l)
	h.mu.Unlock()
	p := payload.New(binary.BigEndian.AppendUint32(nil, l.tag), make([]byte, 8))
	item := func(p payload.Payload) {
		h.mu.Lock()
		defer h.mu.Unlock()
		if len(l.end) > 0 && h.err == nil {
			h.err = fmt.Errorf("request %d got an item after its end %q", l.tag, l.end)
		}
		l.items = append(l.items, bytes.Clone(p.Data()))
	}
	end := func(what string) {
		h.mu.Lock()
		defer h.mu.Unlock()
		l.end = append(l.end, what)
		if len(l.end) > 1 && h.err == nil {
			h.err = fmt.Errorf("request %d got the ends %q", l.tag, l.end)
		}
	}
	fail := func(err error) { end("error " + err.Error()) }
	h.enter(func() {
		switch kind {
		case tRR:
			h.caller.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) { item(p); end("complete") }, OnError: fail})
			return
		case tRS:
			l.f = h.caller.RequestStream(context.Background(), p)
		case tRC:
			l.in = &answering{items: hostileItems([]byte{byte(l.tag)}, items)}
			l.f = h.caller.RequestChannel(context.Background(), p, l.in.flux())
		}
		l.f.Subscribe(flux.Subscribe[payload.Payload]{OnNext: item, OnComplete: func() { end("complete") }, OnError: fail,
			OnRequest: func(s rx.Subscription) { s.Request(2) }})
	})
	return l
}

// stream picks the stream of a frame.
func (h *hostileRun) stream(f hostileFrame) uint32 {
	h.mu.Lock()
	defer h.mu.Unlock()
	wild := 0x7fffff00 + uint32(f.I)
	id, last := wild, uint32(0)
	var known []uint32
	for _, l := range h.locals {
		if l.stream != 0 {
			last = max(last, l.stream)
			if !h.kept[l.stream] {
				known = append(known, l.stream)
			}
		}
	}
	switch {
	case f.Sel == selFresh || f.Sel == selPeer && len(h.peers) == 0:
		id = h.fresh()
		h.peers = append(h.peers, id)
	case f.Sel == selPeer:
		id = h.peers[f.I%len(h.peers)]
	case f.Sel == selLocal && len(known) > 0:
		id = known[f.I%len(known)]
	case f.Sel == selZero:
		id = 0
	case f.Sel == selFuture && last > 0:
		id = last + 2 + 2*uint32(f.I)
	}
	if h.kept[id] {
		return wild
	}
	return id
}

// frame makes a frame.
func (h *hostileRun) frame(f hostileFrame) []byte {
	stream := uint32(0)
	if f.Part {
		stream = h.fresh()
	} else {
		stream = h.stream(f)
	}
	w := wire{Type: f.T, Stream: stream, N: f.N, Flags: f.Flags}
	if f.T >= tRR && f.T <= tRC {
		var data []byte
		w, data = h.request(f.T, f.Op, f.Items, f.Mode, f.N, stream)
		if f.Short > 0 {
			w.Meta = w.Meta[:f.Short-1]
		}
		h.mu.Lock()
		tag := binary.BigEndian.Uint32(data)
		if f.Part {
			w.Flags |= fFollows
			h.parts[tag] = true
		} else if f.Sel == selFresh && f.Op < 3 && f.Short == 0 && f.Spoil == spNone {
			h.due[tag] = w
		}
		h.mu.Unlock()
	} else {
		w.Data = []byte{byte(f.N), byte(f.I)}
	}
	b := w.bytes()
	h.mu.Lock()
	h.used[stream] = true
	h.loose = h.loose || f.Spoil != spNone
	h.mu.Unlock()
	switch f.Spoil {
	case spCut:
		b = b[:f.At%len(b)]
	case spExtra:
		b = append(b, f.With...)
	case spRandom:
		for i, x := range f.With {
			if k := f.At + i; k > 3 && k < len(b) {
				b[k] = x
			}
		}
	case spType:
		b[4] = f.With[0]
		if len(f.With) > 1 {
			b[5] = f.With[1]
		}
	}
	return append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}

func (h *hostileRun) step(s hostileStep) {
	switch s.K {
	case hsFrames:
		var b []byte
		for _, f := range s.Frames {
			b = append(b, h.frame(f)...)
		}
		h.deliver(append(b, s.Tail...))
	case hsLocal:
		h.local(s.I, int(s.N))
	case hsWild:
		h.wild(s.N)
	default:
		h.mu.Lock()
		var l *hostileLocal
		for _, o := range h.locals {
			if o.f != nil && !h.kept[o.stream] && s.I >= 0 {
				l = o
				s.I--
			}
		}
		h.mu.Unlock()
		if l == nil {
			return
		}
		h.enter(func() {
			if s.K == hsMore {
				l.f.Subscription().Request(int(s.N))
			} else {
				l.f.Subscription().Cancel()
			}
		})
	}
}

// payloads are the items and the end of what the endpoint has sent on a stream.
func (h *hostileRun) payloads(stream uint32) (items [][]byte, end string, asked uint32) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, f := range h.got[stream] {
		switch f.Type {
		case tPayload:
			if end != "" {
				end += ", then an item or another end"
			}
			if f.Flags&fNext != 0 {
				items = append(items, f.Data)
			}
			if f.Flags&fComplete != 0 {
				end += "complete"
			}
		case tError:
			end += "error " + string(f.Data)
		case tCancel:
			end += "cancel"
		case tRequestN:
			asked += f.N
		}
	}
	return items, end, asked
}

func sameItems(got, want [][]byte) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d items, not %d", len(got), len(want))
	}
	for j := range got {
		if err := pbt.EqBytes(fmt.Sprintf("item %d", j), got[j], want[j]); err != nil {
			return err
		}
	}
	return nil
}

func (h *hostileRun) sends(what string, stream uint32, want [][]byte, wantEnd string) error {
	items, end, _ := h.payloads(stream)
	if err := sameItems(items, want); err != nil {
		return fmt.Errorf("%s: the endpoint sends %w", what, err)
	}
	if end != wantEnd {
		return fmt.Errorf("%s: the endpoint sends the end %q, not %q", what, end, wantEnd)
	}
	return nil
}

func (h *hostileRun) gets(what string, l *hostileLocal, want [][]byte, wantEnd string) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	if err := sameItems(l.items, want); err != nil {
		return fmt.Errorf("%s: it gets %w", what, err)
	}
	if len(l.end) != 1 || l.end[0] != wantEnd {
		return fmt.Errorf("%s: it gets the end %q, not %q", what, l.end, wantEnd)
	}
	return nil
}

func (h *hostileRun) failed() error {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.err
}

func (h *hostileRun) play() error {
	// Requests that the others must not disturb.
	rs, rsData := h.request(tRS, 0, 5, 0, 2, h.fresh())
	rc, _ := h.request(tRC, 1, 0, hmCollect, 3, h.fresh())
	h.hand(rs, rc)
	pbt.Settle()
	h.hand(wire{Type: tPayload, Flags: fNext, Stream: rc.Stream, Data: []byte("x")})
	ls := h.local(tRS, 0)
	lc := h.local(tRC, 3)
	pbt.Settle()
	if ls.stream == 0 || lc.stream == 0 {
		return errors.New("the endpoint does not send its requests")
	}
	h.kept[rs.Stream], h.kept[rc.Stream], h.kept[ls.stream], h.kept[lc.stream] = true, true, true, true
	h.hand(wire{Type: tPayload, Flags: fNext, Stream: ls.stream, Data: []byte("1")}, wire{Type: tRequestN, Stream: lc.stream, N: 1})
	pbt.Settle()

	for _, s := range h.c.Steps {
		h.step(s)
		if s.Settle {
			pbt.Settle()
		}
		if err := h.failed(); err != nil {
			return err
		}
	}
	pbt.Settle()

	// Nor do requests that must not be made: on streams that are in use, are
	// not the peer's, or are none.
	var refused []uint32
	for _, stream := range []uint32{rs.Stream, rc.Stream, ls.stream, lc.stream, lc.stream + 2000, 0} {
		for _, kind := range []int{tRR, tFNF, tRS, tRC} {
			f, data := h.request(kind, 1, 2, hmIgnore, 5, stream)
			refused = append(refused, binary.BigEndian.Uint32(data))
			h.hand(f)
		}
	}
	pbt.Settle()
	for k, tag := range refused {
		h.mu.Lock()
		n := h.calls[tag]
		h.mu.Unlock()
		if n > 0 {
			return fmt.Errorf("a request of kind %d was handled although its stream is %s", 4+k%4,
				[]string{"in use", "in use", "in use", "in use", "not the peer's", "0"}[k/4])
		}
	}

	// They go on.
	h.hand(wire{Type: tRequestN, Stream: rs.Stream, N: 10})
	if len(h.c.Steps)%3 == 0 {
		h.hand(wire{Type: tPayload, Flags: fNext | fComplete, Stream: rc.Stream, Data: []byte("y")})
	} else {
		h.hand(wire{Type: tPayload, Flags: fNext, Stream: rc.Stream, Data: []byte("y")},
			wire{Type: tPayload, Flags: fComplete, Stream: rc.Stream})
	}
	if len(h.c.Steps)%2 == 0 { // the end may come with the last item
		h.hand(wire{Type: tPayload, Flags: fNext | fComplete, Stream: ls.stream, Data: []byte("2")})
	} else {
		h.hand(wire{Type: tPayload, Flags: fNext, Stream: ls.stream, Data: []byte("2")})
		h.hand(wire{Type: tPayload, Flags: fComplete, Stream: ls.stream})
	}
	h.hand(wire{Type: tRequestN, Stream: lc.stream, N: 5})
	pbt.Settle()
	h.hand(wire{Type: tPayload, Flags: fComplete, Stream: lc.stream})
	rr, rrData := h.request(tRR, 2, 0, 0, 0, h.fresh())
	h.hand(rr)
	lr := h.local(tRR, 0)
	pbt.Settle()
	if lr.stream == 0 {
		return errors.New("the endpoint does not send a request any more")
	}
	h.hand(wire{Type: tPayload, Flags: fNext | fComplete, Stream: lr.stream, Data: []byte("answer")})
	pbt.Settle()
	if err := h.failed(); err != nil {
		return err
	}
	h.mu.Lock()
	h.loose = false
	h.mu.Unlock()
	for _, err := range []error{
		h.sends("an undisturbed stream", rs.Stream, hostileItems(rsData, 5), "complete"),
		h.sends("an undisturbed channel", rc.Stream, [][]byte{[]byte("xy")}, "complete"),
		h.sends("the endpoint's undisturbed channel", lc.stream, hostileItems([]byte{byte(lc.tag)}, 3), "complete"),
		h.sends("a request/response afterwards", rr.Stream, [][]byte{append([]byte("re:"), rrData...)}, "complete"),
		h.gets("the endpoint's undisturbed stream", ls, [][]byte{[]byte("1"), []byte("2")}, "complete"),
		h.gets("the endpoint's undisturbed channel", lc, nil, "complete"),
		h.gets("the endpoint's request/response afterwards", lr, [][]byte{[]byte("answer")}, "complete"),
	} {
		if err != nil {
			return err
		}
	}
	for tag, f := range h.due {
		if h.calls[tag] != 1 {
			return fmt.Errorf("%v ran %d times", f, h.calls[tag])
		}
	}
	return nil
}

func newHostile(c hostileCase) *hostileRun {
	h := &hostileRun{
		c: c, calls: map[uint32]int{}, sent: map[uint32]int{}, used: map[uint32]bool{},
		due: map[uint32]wire{}, parts: map[uint32]bool{}, kept: map[uint32]bool{}, got: map[uint32][]wire{},
	}
	h.own = uint32(1 + c.Side) // the guest's streams are odd
	h.next = h.own
	return h
}

// host runs the case against a host.
func (h *hostileRun) host() error {
	s := &script{raw: h.received}
	s.ops = operations.Table{}
	if h.c.Ops != nil {
		s.rawOps = h.c.Ops
	}
	inst, err := instantiate(0, s)
	if err != nil {
		return err
	}
	handle(inst, h)
	h.deliver = s.sendBytes
	h.wild = func(n uint32) {
		s.e.mu.Lock()
		defer s.e.mu.Unlock()
		s.e.call("call_send", uint64(n))
	}
	h.caller = inst
	h.enter = func(f func()) { f() }
	h.index = func(kind, op int) uint32 { return uint32(4*op + kind - tRR) }
	err = h.play()
	if failed := s.e.failed(); failed != nil {
		err = fmt.Errorf("the host panics: %w", failed)
	}
	// Closing waits for the guest's streams.
	h.mu.Lock()
	var ends []wire
	for id := range h.used {
		ends = append(ends, wire{Type: tCancel, Stream: id})
	}
	h.mu.Unlock()
	h.deliver(framed(ends...))
	pbt.Settle()
	go inst.Close()
	pbt.Settle()
	return err
}

// handle registers the handlers with a host.
func handle(inst *host.Instance, h responder) {
	for op := range 3 {
		i := uint32(4 * op)
		inst.SetRequestResponseHandler(i, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			return h.RR(hostSide, op, ctx, p)
		})
		inst.SetFireAndForgetHandler(i+1, func(ctx context.Context, p payload.Payload) { h.FNF(hostSide, op, ctx, p) })
		inst.SetRequestStreamHandler(i+2, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
			return h.RS(hostSide, op, ctx, p)
		})
		inst.SetRequestChannelHandler(i+3, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			return h.RC(hostSide, op, ctx, p, in)
		})
	}
}

// guest runs the case against the guest.
func (h *hostileRun) guest() error {
	register()
	current = h
	g := &theGuest{}
	g.start(16*1024, 16*1024, 1<<20, func() {}, nil, func(n uint32) {
		if !g.cut {
			h.received(bytes.Clone(g.out[:n]))
		}
	})
	h.deliver = func(b []byte) {
		g.enter(func() {
			copy(g.in, b)
			guest.GuestSend(uint32(len(b)))
		})
	}
	h.wild = func(n uint32) {
		g.enter(func() {
			clear(g.in)
			guest.GuestSend(n)
		})
	}
	h.caller, h.enter = guest.HostInvoker, g.enter
	indexes := map[[2]int]uint32{}
	for _, o := range invoke.GetOperationsTable() {
		for op, name := range names {
			if o.Operation == name && o.Namespace == ns && o.Direction == operations.Export {
				indexes[[2]int{int(o.Type), op}] = o.Index
			}
		}
	}
	h.index = func(kind, op int) uint32 { return indexes[[2]int{kind - tRR + 1, op}] }
	defer func() {
		var ids []uint32
		for id := range h.used {
			ids = append(ids, id)
		}
		for _, l := range h.locals {
			ids = append(ids, l.stream)
		}
		g.enter(func() { g.forget(ids) })
	}()
	return h.play()
}

func TestC36(t *testing.T) {
	pbt.Check(t, "C36",
		pbt.NewPart("hostile", 3000, 40000, "a frame that breaks the rules", genHostile,
			func(ctx *pbt.Ctx, c hostileCase) error {
				bad := false
				for _, s := range c.Steps {
					bad = bad || s.K == hsWild || len(s.Tail) > 0
					for _, f := range s.Frames {
						bad = bad || f.Part || f.Sel != selFresh || f.T < tRR || f.T > tRC || f.Spoil != spNone
						if f.Spoil != spNone {
							ctx.Label("spoilt")
						}
					}
				}
				ctx.Label([]string{"host", "guest"}[c.Side])
				ctx.NonTrivialIf(bad)
				times := 1
				if ctx.Replay {
					times = 20
				}
				for range times {
					h := newHostile(c)
					run := h.host
					if c.Side == guestSide {
						run = h.guest
					}
					if err := pbt.Bubble(ctx.T, run); err != nil {
						return err
					}
				}
				return nil
			}),
	)
}
