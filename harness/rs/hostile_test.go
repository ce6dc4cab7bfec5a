package rs

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/verifharness/e2e"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// Steps of a hostile peer's case.
const (
	stFrame  = iota // the peer sends a frame
	stLocal         // the endpoint makes a request
	stMore          // it asks for more items
	stCancel        // it cancels
)

// Streams a frame can be sent for.
const (
	selFresh  = iota // one the peer has not used yet
	selPeer          // one it has
	selLocal         // a request of the endpoint
	selZero          // the connection
	selWild          // any
	selFuture        // the endpoint's next
)

type step struct {
	K      int
	Sel    int
	I      int // which one; for requests of the endpoint the kind
	T      int // frame type
	N      uint32
	Next   bool
	Compl  bool
	Follow bool
	Op     int // 3: unknown
	Short  int // metadata cut to Short-1 bytes
	NoMeta bool
	Items  int
	Mode   int
	Manual bool
	Settle bool
}

type hostileCase struct {
	Server bool // the endpoint's mode
	Cut    int  // the connection ends within a frame, after Cut-1 bytes
	Steps  []step
}

// Modes of the channel handler.
const (
	hmEcho = iota
	hmCollect
	hmIgnore
	hmLate
	hmCancel
	hmCount
)

func genHostile(t *rapid.T) hostileCase {
	c := hostileCase{Server: rapid.Bool().Draw(t, "server")}
	if rapid.IntRange(0, 5).Draw(t, "cut") == 5 {
		c.Cut = rapid.IntRange(1, 24).Draw(t, "at")
	}
	n := rapid.IntRange(1, 14).Draw(t, "steps")
	for range n {
		s := step{K: rapid.SampledFrom([]int{stFrame, stFrame, stFrame, stFrame, stLocal, stMore, stCancel}).Draw(t, "step")}
		switch s.K {
		case stFrame:
			s.Sel = rapid.SampledFrom([]int{selFresh, selFresh, selPeer, selPeer, selPeer, selLocal, selLocal, selLocal, selZero, selWild, selFuture}).Draw(t, "stream")
			types := []int{tRequestN, tCancel, tPayload, tPayload, tError, tRR, tFNF, tRS, tRC, tSetup}
			if s.Sel == selFresh {
				types = []int{tRR, tFNF, tRS, tRC, tRS, tRC, tRC, tRequestN, tCancel, tPayload, tError}
			}
			s.T = rapid.SampledFrom(types).Draw(t, "type")
			s.I = rapid.IntRange(0, 5).Draw(t, "i")
			s.N = rapid.OneOf(rapid.Uint32Range(1, 4), rapid.Uint32Range(1, 4), rapid.Uint32Range(1, 10),
				rapid.SampledFrom([]uint32{0, 1<<31 - 1, 1 << 31, 1<<32 - 1})).Draw(t, "n")
			if s.T == tPayload {
				s.Next = rapid.IntRange(0, 3).Draw(t, "next") > 0
				s.Compl = rapid.IntRange(0, 3).Draw(t, "complete") == 0
			}
			if s.T >= tRR && s.T <= tRC || s.T == tPayload {
				s.Follow = rapid.IntRange(0, 19).Draw(t, "follows") == 0
			}
			if s.T >= tRR && s.T <= tRC {
				s.Op = rapid.SampledFrom([]int{0, 1, 2, 0, 1, 2, 3}).Draw(t, "op")
				switch rapid.IntRange(0, 9).Draw(t, "meta") {
				case 0:
					s.Short = rapid.IntRange(1, 8).Draw(t, "short")
				case 1:
					s.NoMeta = true
				}
				s.Items = rapid.IntRange(0, 6).Draw(t, "items")
				s.Mode = rapid.IntRange(0, hmCount-1).Draw(t, "mode")
			}
			s.Settle = rapid.Bool().Draw(t, "settle")
		case stLocal:
			s.I = rapid.SampledFrom([]int{tRR, tRS, tRC, tRC}).Draw(t, "kind")
			s.Manual = rapid.Bool().Draw(t, "manual")
			s.N = rapid.Uint32Range(1, 5).Draw(t, "n")
			s.Items = rapid.IntRange(0, 5).Draw(t, "items")
			s.Op = rapid.IntRange(0, 2).Draw(t, "op")
		default:
			s.I = rapid.IntRange(0, 3).Draw(t, "i")
			s.N = rapid.Uint32Range(1, 5).Draw(t, "n")
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// outgoing is what the model knows about a stream the peer opened.
type outgoing struct {
	typ     int
	data    []byte
	invalid bool // to be answered with an error
	dirty   bool // the peer misused it: only bounds are checked
	items   int
	mode    int
	in      [][]byte
	inEnd   bool
	credit  int64
	asked   int64 // items the endpoint asked the peer for
	early   bool  // the peer sent more than it was asked for
	got     []wire
}

// local is what the model knows about a request of the endpoint.
type local struct {
	kind   int
	data   []byte
	manual bool
	op     int
	g      int
	stream uint32
	f      flux.Flux[payload.Payload]
	k      int // items of the channel
	inSrc  *demandSource

	want     [][]byte // sent by the peer
	end      string
	over     bool // more was sent than asked for
	overAt   int
	dirty    bool
	inDirty  bool
	inStop   bool
	cancel   bool
	frozen   int
	inCredit int64
	inGot    int
	inEnded  bool
	cancels  int // cancel frames

	items  [][]byte
	ends   []string
	finals int
}

// demandSource publishes payloads as it is asked to.
type demandSource struct {
	mu        sync.Mutex
	items     [][]byte
	sink      flux.Sink[payload.Payload]
	n         int
	next      int
	emitting  bool
	finished  bool
	cancelled bool
	hold      bool
}

func (s *demandSource) flux() flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		s.mu.Lock()
		s.sink = sink
		s.mu.Unlock()
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				s.mu.Lock()
				s.n = e2e.Add(s.n, n)
				s.mu.Unlock()
				s.emit()
			},
			Cancel: func() {
				s.mu.Lock()
				s.cancelled = true
				s.mu.Unlock()
			},
		})
	})
}

func (s *demandSource) emit() {
	s.mu.Lock()
	if s.emitting || s.hold || s.sink == nil {
		s.mu.Unlock()
		return
	}
	s.emitting = true
	for s.n > 0 && s.next < len(s.items) && !s.cancelled {
		s.n--
		d := s.items[s.next]
		s.next++
		s.mu.Unlock()
		s.sink.Next(payload.New(d))
		s.mu.Lock()
	}
	end := s.n >= 0 && s.next == len(s.items) && !s.finished && !s.cancelled
	if end {
		s.finished = true
	}
	s.emitting = false
	s.mu.Unlock()
	if end {
		s.sink.Complete()
	}
}

// hostile is the state of one run.
type hostile struct {
	mu      sync.Mutex
	errs    []error
	server  bool
	conn    net.Conn
	e       *endpoint
	reader  chan struct{}
	calls   map[uint32]int // handler runs, by tag
	sent    map[uint32]*outgoing
	sentTag map[uint32]bool
	allowed map[uint32]bool
	peers   map[uint32]*outgoing
	peerIDs []uint32
	nextID  uint32
	locals  []*local
	tag     uint32
	setups  int
}

func (h *hostile) errf(format string, args ...any) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.fail(format, args...)
}

func (h *hostile) fail(format string, args ...any) {
	if len(h.errs) < 5 {
		h.errs = append(h.errs, fmt.Errorf(format, args...))
	}
}

// Handlers.

func (h *hostile) call(op int, p payload.Payload) ([]byte, bool) {
	d := bytes.Clone(p.Data())
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(d) != 8 {
		h.fail("a handler got %d bytes that nobody sent", len(d))
		return nil, false
	}
	tag := binary.BigEndian.Uint32(d)
	if !h.sentTag[tag] {
		h.fail("a handler got data that nobody sent: %s", pbt.Trunc(d))
		return nil, false
	}
	if int(d[6]) != op {
		h.fail("request %d for operation %d reached operation %d", tag, d[6], op)
	}
	h.calls[tag]++
	if h.calls[tag] > 1 {
		h.fail("request %d ran %d times", tag, h.calls[tag])
	}
	return d, true
}

func answer(d []byte) []byte { return append([]byte("re:"), d...) }

func itemsOf(d []byte, n int) [][]byte {
	out := make([][]byte, n)
	for j := range out {
		out[j] = append(bytes.Clone(d), byte(j))
	}
	return out
}

var errNobody = errors.New("nobody sent this")

func (h *hostile) RR(side, op int, ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	d, ok := h.call(op, p)
	if !ok {
		return mono.Error[payload.Payload](errNobody)
	}
	return mono.Just[payload.Payload](payload.New(answer(d)))
}

func (h *hostile) FNF(side, op int, ctx context.Context, p payload.Payload) { h.call(op, p) }

func (h *hostile) RS(side, op int, ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	d, ok := h.call(op, p)
	if !ok {
		return flux.Error[payload.Payload](errNobody)
	}
	return (&demandSource{items: itemsOf(d, int(d[4]))}).flux()
}

func (h *hostile) RC(side, op int, ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	d, ok := h.call(op, p)
	if !ok {
		return flux.Error[payload.Payload](errNobody)
	}
	own := &demandSource{items: itemsOf(d, int(d[4]))}
	switch d[5] {
	case hmEcho:
		return flux.Map(in, func(p payload.Payload) (payload.Payload, error) { return p, nil })
	case hmCollect:
		var all []byte
		own.hold = true
		done := func() {
			own.mu.Lock()
			own.items = [][]byte{all}
			own.hold = false
			own.mu.Unlock()
			own.emit()
		}
		in.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext:     func(p payload.Payload) { all = append(all, p.Data()...) },
			OnComplete: done,
			OnError:    func(error) { done() },
		})
	case hmLate:
		go in.Subscribe(flux.Subscribe[payload.Payload]{})
	case hmCancel:
		in.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext: func(payload.Payload) { in.Subscription().Cancel() },
		})
	}
	return own.flux()
}

// read receives the endpoint's frames.
func (h *hostile) read() {
	defer close(h.reader)
	for {
		f, err := readFrame(h.conn)
		if errors.Is(err, errFrame) {
			h.errf("the endpoint sent a %v", err)
			return
		}
		if err != nil {
			return
		}
		h.mu.Lock()
		h.received(f)
		h.mu.Unlock()
	}
}

func (h *hostile) received(f wire) {
	if f.Type == tSetup {
		h.setups++
		if h.server || h.setups > 1 {
			h.fail("the endpoint sent setup number %d", h.setups)
		}
		return
	}
	local := f.Stream != 0 && f.Stream&1 == 1 != h.server
	switch {
	case local:
		h.fromLocal(f)
	case !h.allowed[f.Stream]:
		h.fail("the endpoint sent %v, a stream nobody has used", f)
	case h.peers[f.Stream] != nil:
		o := h.peers[f.Stream]
		o.got = append(o.got, f)
		switch f.Type {
		case tPayload:
			if f.Flags&fNext == 0 || o.typ == tRR {
				return
			}
			n := int64(0)
			for _, g := range o.got {
				if g.Type == tPayload && g.Flags&fNext != 0 {
					n++
				}
			}
			limit := o.credit
			if o.typ == tRC && o.mode == hmEcho {
				limit = max(limit, int64(len(o.in))) // more than was asked for comes back as well
			}
			if n > limit && !o.dirty {
				h.fail("the endpoint sent %d items of stream %d, asked for %d", n, f.Stream, limit)
			}
		case tRequestN:
			o.asked += int64(f.N)
		case tError:
			if !o.invalid && !o.dirty {
				h.fail("a valid request was answered with the error %q", f.Data)
			}
		}
	case f.Type != tError:
		h.fail("the endpoint sent %v, which is not a request", f)
	}
}

func (h *hostile) fromLocal(f wire) {
	if f.Type >= tRR && f.Type <= tRC {
		if len(f.Data) != 4 || int(binary.BigEndian.Uint32(f.Data)) >= len(h.locals) {
			h.fail("the endpoint sent a request nobody made: %v", f)
			return
		}
		l := h.locals[binary.BigEndian.Uint32(f.Data)]
		if l.stream != 0 {
			h.fail("the endpoint sent a request twice: %v", f)
		}
		for _, o := range h.locals {
			if o.stream == f.Stream {
				h.fail("the endpoint used a stream twice: %v", f)
			}
		}
		l.stream = f.Stream
		if f.Type != l.kind {
			h.fail("the endpoint sent %v as a %s", f, typeNames[l.kind])
		}
		if len(f.Meta) != 8 || binary.BigEndian.Uint32(f.Meta) != uint32(l.op) {
			h.fail("the endpoint sent a request with metadata %x for operation %d", f.Meta, l.op)
		}
		if f.Type != tRR && (l.manual && f.N != uint32(l.g) || f.N == 0 || f.N > 1<<31-1) {
			h.fail("the endpoint asked for %d items, not %d", f.N, l.g)
		}
		return
	}
	var l *local
	for _, o := range h.locals {
		if o.stream == f.Stream {
			l = o
		}
	}
	if l == nil {
		if f.Type != tError || !h.allowed[f.Stream] {
			h.fail("the endpoint sent %v, which it has not opened", f)
		}
		return
	}
	switch f.Type {
	case tCancel:
		l.cancels++
		if l.kind == tRR {
			break
		}
		if !l.cancel || l.cancels > 1 {
			h.fail("the endpoint sent cancel number %d on stream %d", l.cancels, f.Stream)
		}
	case tPayload:
		if l.kind != tRC {
			h.fail("the endpoint sent %v, its request has no items", f)
			return
		}
		if f.Flags&fNext != 0 {
			if l.inEnded {
				h.fail("the endpoint sent items of stream %d after their end", f.Stream)
			}
			if l.inGot >= l.k {
				h.fail("the endpoint sent too many items of stream %d", f.Stream)
			} else if !bytes.Equal(f.Data, itemsOf(l.data, l.k)[l.inGot]) {
				h.fail("the endpoint sent %x as item %d of stream %d", f.Data, l.inGot, f.Stream)
			}
			l.inGot++
			if int64(l.inGot) > l.inCredit {
				h.fail("the endpoint sent %d items of stream %d, asked for %d", l.inGot, f.Stream, l.inCredit)
			}
		}
		if f.Flags&fComplete != 0 {
			if l.inEnded || l.inGot != l.k {
				h.fail("the endpoint completed stream %d after %d of %d items", f.Stream, l.inGot, l.k)
			}
			l.inEnded = true
		}
	case tRequestN:
	default:
		if !l.dirty {
			h.fail("the endpoint sent %v", f)
		}
	}
}

// send sends a frame and notes what it has to lead to.
func (h *hostile) send(f wire) error {
	h.mu.Lock()
	h.allowed[f.Stream] = true
	h.model(f)
	h.mu.Unlock()
	if err := writeFrame(h.conn, f); err != nil {
		return fmt.Errorf("the endpoint closed the connection: %w", err)
	}
	return nil
}

func (h *hostile) model(f wire) {
	request := f.Type >= tRR && f.Type <= tRC
	for _, l := range h.locals {
		if l.stream == f.Stream && l.stream != 0 {
			if !request {
				l.model(f)
			}
			return
		}
	}
	o := h.peers[f.Stream]
	if o == nil {
		if !request || f.Stream == 0 || f.Stream&1 == 1 != h.server {
			return
		}
		o = &outgoing{typ: f.Type, data: f.Data, items: int(f.Data[4]), mode: int(f.Data[5])}
		h.peers[f.Stream] = o
		h.sent[binary.BigEndian.Uint32(f.Data)] = o
		o.invalid = len(f.Meta) < 8 || f.Data[6] > 2
		if f.Flags&fFollows != 0 {
			o.dirty = true
		}
		if f.Type == tRS || f.Type == tRC {
			o.credit = int64(f.N)
			if f.N == 0 || f.N >= 1<<31 {
				o.dirty = true
			}
		}
		return
	}
	switch f.Type {
	case tRequestN:
		o.credit += int64(f.N)
		if f.N == 0 || f.N >= 1<<31 || o.credit >= 1<<31 {
			o.dirty = true
		}
	case tPayload:
		if o.typ != tRC || f.Flags&fFollows != 0 || o.inEnd {
			o.dirty = true
		}
		if f.Flags&fNext != 0 {
			o.in = append(o.in, f.Data)
			if int64(len(o.in)) > o.asked {
				o.early = true
			}
		}
		if f.Flags&fComplete != 0 {
			o.inEnd = true
		}
	default:
		o.dirty = true
	}
}

func (l *local) model(f wire) {
	if l.end != "" || l.cancel {
		// A channel's items may still flow.
		if f.Type == tRequestN && !l.cancel {
			l.inCredit += int64(f.N)
		}
		l.inDirty = true
		return
	}
	switch f.Type {
	case tPayload:
		if f.Flags&fFollows != 0 {
			l.dirty = true
		}
		if f.Flags&fNext != 0 {
			if l.manual && len(l.want) >= l.g && !l.over {
				l.over, l.overAt = true, len(l.want)
			}
			l.want = append(l.want, f.Data)
			if l.kind == tRR {
				l.end = "complete"
			}
		}
		if f.Flags&fComplete != 0 {
			if l.kind == tRR && f.Flags&fNext == 0 {
				l.dirty = true
			}
			l.end = "complete"
		}
	case tError:
		l.end = "error " + string(f.Data)
		l.inDirty = true
	case tRequestN:
		l.inCredit += int64(f.N)
		if f.N == 0 || f.N >= 1<<31 || l.inCredit >= 1<<31 {
			l.inDirty = true
		}
	case tCancel:
		l.inStop = true
	}
}

// start makes a request of the endpoint.
func (h *hostile) start(s step) {
	l := &local{kind: s.I, data: binary.BigEndian.AppendUint32(nil, uint32(len(h.locals))), manual: s.Manual && s.I != tRR, op: s.Op, g: int(s.N), k: s.Items, frozen: -1}
	h.mu.Lock()
	h.locals = append(h.locals, l)
	h.mu.Unlock()
	meta := make([]byte, 8)
	binary.BigEndian.PutUint32(meta, uint32(l.op))
	p := payload.New(bytes.Clone(l.data), meta)
	end := func(e string) {
		h.mu.Lock()
		l.ends = append(l.ends, e)
		h.mu.Unlock()
	}
	next := func(p payload.Payload) {
		h.mu.Lock()
		if len(l.ends) > 0 {
			h.fail("an item after the end of request %x", l.data)
		}
		l.items = append(l.items, bytes.Clone(p.Data()))
		h.mu.Unlock()
	}
	if l.kind == tRR {
		h.e.h.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { next(p); end("complete") },
			OnError:   func(err error) { end("error " + err.Error()) },
		})
		return
	}
	if l.kind == tRS {
		l.f = h.e.h.RequestStream(context.Background(), p)
	} else {
		l.inSrc = &demandSource{items: itemsOf(l.data, l.k)}
		l.f = h.e.h.RequestChannel(context.Background(), p, l.inSrc.flux())
	}
	sub := flux.Subscribe[payload.Payload]{
		OnNext:     next,
		OnComplete: func() { end("complete") },
		OnError:    func(err error) { end("error " + err.Error()) },
		NoRequest:  l.manual,
	}
	l.f.Subscribe(sub)
	if l.manual {
		l.f.Subscription().Request(l.g)
	}
}

// check compares with the model once everything is at rest.
func (h *hostile) check() error {
	pbt.Settle()
	if err := h.e.stopped(); err == nil {
		return fmt.Errorf("the endpoint gave up the connection")
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.errs) > 0 {
		return h.errs[0]
	}
	for i, l := range h.locals {
		if err := l.check(); err != nil {
			return fmt.Errorf("%s number %d of the endpoint: %w", typeNames[l.kind], i, err)
		}
	}
	for id, o := range h.peers {
		if o.dirty {
			continue
		}
		if err := o.check(h.calls[binary.BigEndian.Uint32(o.data)]); err != nil {
			return fmt.Errorf("%s on stream %d: %w (got %v)", typeNames[o.typ], id, err, o.got)
		}
	}
	return nil
}

func (l *local) check() error {
	if l.stream == 0 {
		return fmt.Errorf("was not sent")
	}
	if len(l.ends) > 1 {
		return fmt.Errorf("ended with %q", l.ends)
	}
	if l.dirty {
		return nil
	}
	if l.cancel {
		if l.frozen >= 0 && (len(l.items) != l.frozen || len(l.ends) > 0) {
			return fmt.Errorf("%d items and end %q after cancelling at %d", len(l.items), l.ends, l.frozen)
		}
		if l.frozen >= 0 && l.cancels != 1 {
			return fmt.Errorf("the endpoint did not tell the peer of the cancel")
		}
	} else {
		if !l.over && len(l.items) != len(l.want) {
			return fmt.Errorf("%d items delivered of %d", len(l.items), len(l.want))
		}
		if l.over && len(l.items) < l.overAt {
			return fmt.Errorf("%d items delivered of %d that were asked for", len(l.items), l.overAt)
		}
		k := 0
		for _, w := range l.want {
			if k < len(l.items) && bytes.Equal(l.items[k], w) {
				k++
			}
		}
		if k != len(l.items) {
			return fmt.Errorf("items %x delivered, the peer sent %x", l.items, l.want)
		}
		switch {
		case len(l.ends) == 1 && l.ends[0] != l.end:
			return fmt.Errorf("ended with %q, the peer sent %q", l.ends, l.end)
		case len(l.ends) == 0 && l.end != "" && !l.over:
			return fmt.Errorf("not ended although the peer sent %q", l.end)
		}
	}
	if l.kind == tRC {
		l.inSrc.mu.Lock()
		told, finished := l.inSrc.cancelled, l.inSrc.finished
		l.inSrc.mu.Unlock()
		if (l.inStop || l.cancel) && l.frozen >= 0 && !told && !finished {
			return fmt.Errorf("the source of the items was not told to stop")
		}
		if !l.inDirty && !l.inStop && !l.cancel && l.end == "" {
			want := min(l.inCredit, int64(l.k))
			if int64(l.inGot) != want {
				return fmt.Errorf("%d items were sent to the peer, which asked for %d of %d", l.inGot, l.inCredit, l.k)
			}
			if l.inEnded != (l.inCredit > 0 && want == int64(l.k)) {
				return fmt.Errorf("end of the items sent: %v, after %d of %d", l.inEnded, l.inGot, l.k)
			}
		}
	}
	return nil
}

// check compares what a well used request got.
func (o *outgoing) check(calls int) error {
	var items [][]byte
	completes, fails := 0, 0
	for _, f := range o.got {
		switch f.Type {
		case tPayload:
			if completes+fails > 0 {
				return fmt.Errorf("a payload after the end")
			}
			if f.Flags&fNext != 0 {
				items = append(items, f.Data)
			}
			if f.Flags&fComplete != 0 {
				completes++
			}
		case tError:
			fails++
		case tRequestN, tCancel:
			if o.typ != tRC {
				return fmt.Errorf("got %v", f)
			}
		default:
			return fmt.Errorf("got %v", f)
		}
	}
	if o.invalid {
		if calls != 0 {
			return fmt.Errorf("an invalid request reached a handler")
		}
		if o.typ == tFNF {
			return nil
		}
		if fails != 1 || completes+len(items) > 0 {
			return fmt.Errorf("an invalid request got %d errors, %d items, %d completions", fails, len(items), completes)
		}
		return nil
	}
	if calls != 1 {
		return fmt.Errorf("the handler ran %d times", calls)
	}
	if fails > 0 {
		return fmt.Errorf("got %d errors", fails)
	}
	want := itemsOf(o.data, o.items)
	ended := false
	switch {
	case o.typ == tFNF:
		want = nil
	case o.typ == tRR:
		want, ended = [][]byte{answer(o.data)}, true
	case o.typ == tRC && o.mode == hmEcho:
		want, ended = o.in, o.inEnd
		if o.early {
			if len(items) > len(want) {
				return fmt.Errorf("%d items of %d", len(items), len(want))
			}
			return nil
		}
	case o.typ == tRC && o.mode == hmCollect:
		want = nil
		if o.early {
			if len(items) > 1 || o.inEnd != (completes == 1) {
				return fmt.Errorf("%d items, %d completions", len(items), completes)
			}
			return nil
		}
		if o.inEnd {
			want, ended = [][]byte{bytes.Join(o.in, nil)}, true
		}
	default:
		ended = o.credit >= int64(o.items)
		want = want[:min(int64(len(want)), o.credit)]
	}
	if len(items) != len(want) {
		return fmt.Errorf("%d items, expected %d", len(items), len(want))
	}
	for k := range want {
		if err := pbt.EqBytes(fmt.Sprintf("item %d", k), items[k], want[k]); err != nil {
			return err
		}
	}
	if ended != (completes == 1) || completes > 1 {
		return fmt.Errorf("%d completions, expected an end: %v", completes, ended)
	}
	return nil
}

func (h *hostile) request(typ, op, items, mode int, n uint32) wire {
	h.tag++
	d := binary.BigEndian.AppendUint32(nil, h.tag)
	d = append(d, byte(items), byte(mode), byte(op), 0x5a)
	meta := make([]byte, 8)
	kind := map[int]int{tRR: 0, tFNF: 1, tRS: 2, tRC: 3}[typ]
	binary.BigEndian.PutUint32(meta, index(kind, op))
	h.mu.Lock()
	h.sentTag[h.tag] = true
	h.mu.Unlock()
	return wire{Type: typ, N: n, Meta: meta, Data: d}
}

func (h *hostile) fresh() uint32 {
	id := h.nextID
	h.nextID += 2
	h.peerIDs = append(h.peerIDs, id)
	return id
}

func (h *hostile) stream(s step) (uint32, bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	switch s.Sel {
	case selPeer:
		if len(h.peerIDs) == 0 {
			return 0, false
		}
		// The later ones more often.
		return h.peerIDs[len(h.peerIDs)-1-s.I%len(h.peerIDs)], true
	case selLocal:
		if len(h.locals) == 0 {
			return 0, false
		}
		return h.locals[len(h.locals)-1-s.I%len(h.locals)].stream, true
	case selZero:
		return 0, true
	case selWild:
		return []uint32{1<<31 - 1, 1<<31 - 2, 1000, 1001, 77, 78}[s.I%6], true
	case selFuture:
		id := uint32(2)
		if !h.server {
			id = 1
		}
		return id + 2*uint32(len(h.locals)), true
	default:
		return h.fresh(), true
	}
}

func (h *hostile) step(s step) error {
	switch s.K {
	case stFrame:
		id, ok := h.stream(s)
		if !ok {
			return nil
		}
		f := wire{Type: s.T, N: s.N, Stream: id}
		switch {
		case s.T >= tRR && s.T <= tRC:
			f = h.request(s.T, s.Op, s.Items, s.Mode, s.N)
			f.Stream = id
			if s.Short > 0 {
				f.Meta = f.Meta[:s.Short-1]
			}
			if s.NoMeta {
				f.Meta = nil
			}
		case s.T == tPayload:
			h.tag++
			if s.Next {
				f.Flags |= fNext
				f.Data = binary.BigEndian.AppendUint32([]byte{0xda}, h.tag)
			}
			if s.Compl {
				f.Flags |= fComplete
			}
		case s.T == tError:
			h.tag++
			f.N = 0x201
			f.Data = fmt.Appendf(nil, "failure %d", h.tag)
		case s.T == tSetup:
			f.Data = invoke.GetOperationsTable().ToBytes()
		}
		if s.Follow {
			f.Flags |= fFollows
		}
		if err := h.send(f); err != nil {
			return err
		}
		if s.Settle {
			return h.check()
		}
		return nil
	case stLocal:
		pbt.Settle()
		h.start(s)
	case stMore, stCancel:
		if len(h.locals) == 0 {
			return nil
		}
		l := h.locals[len(h.locals)-1-s.I%len(h.locals)]
		if l.kind == tRR {
			return nil
		}
		if err := h.check(); err != nil {
			return err
		}
		h.mu.Lock()
		if s.K == stMore {
			if l.manual {
				l.g = e2e.Add(l.g, int(min(s.N, 1<<31-1)))
			}
		} else if !l.cancel && l.end == "" && len(l.ends) == 0 {
			l.cancel = true
			l.frozen = len(l.items)
		}
		h.mu.Unlock()
		switch {
		case s.K == stCancel:
			l.f.Subscription().Cancel()
		case l.manual:
			l.f.Subscription().Request(int(s.N))
		}
	}
	return h.check()
}

// finish answers what is still open and makes last requests from either end.
func (h *hostile) finish() error {
	for _, l := range h.locals {
		if l.end == "" && !l.cancel && !l.dirty {
			id := l.stream
			f := wire{Type: tPayload, Stream: id, Flags: fComplete}
			if l.kind == tRR {
				f.Flags |= fNext
				f.Data = []byte("at last")
			}
			if l.kind == tRC && !l.inDirty {
				if err := h.send(wire{Type: tRequestN, Stream: id, N: 100}); err != nil {
					return err
				}
				if err := h.check(); err != nil {
					return fmt.Errorf("at the end: %w", err)
				}
			}
			if err := h.send(f); err != nil {
				return err
			}
		}
	}
	if err := h.check(); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	rr := h.request(tRR, 1, 0, 0, 0)
	rr.Stream = h.fresh()
	rs := h.request(tRS, 2, 4, 0, 2)
	rs.Stream = h.fresh()
	rc := h.request(tRC, 0, 0, hmEcho, 3)
	rc.Stream = h.fresh()
	for _, f := range []wire{rr, rs, rc} {
		if err := h.send(f); err != nil {
			return fmt.Errorf("probe: %w", err)
		}
	}
	h.start(step{I: tRR})
	h.start(step{I: tRC, Items: 3})
	if err := h.check(); err != nil {
		return fmt.Errorf("probe: %w", err)
	}
	n := len(h.locals)
	// Requests on streams that are in use, are not the peer's, or are none,
	// are not handled.
	mine := h.locals[n-1].stream
	first := h.tag + 1
	for _, stream := range []uint32{rs.Stream, rc.Stream, mine, mine + 2000, 0} {
		for _, typ := range []int{tRR, tFNF, tRS, tRC} {
			f := h.request(typ, 1, 2, hmIgnore, 5)
			f.Stream = stream
			if _, err := h.conn.Write(framed(f)); err != nil {
				return fmt.Errorf("probe: %w", err)
			}
		}
	}
	pbt.Settle()
	h.mu.Lock()
	for tag := first; tag <= h.tag; tag++ {
		if h.calls[tag] > 0 {
			h.fail("a request of type %d was handled although its stream is %s", 4+(tag-first)%4,
				[]string{"in use", "in use", "in use", "not the peer's", "0"}[(tag-first)/4])
		}
	}
	h.mu.Unlock()
	for _, f := range []wire{
		{Type: tRequestN, Stream: rs.Stream, N: 5},
		{Type: tPayload, Flags: fNext, Stream: rc.Stream, Data: []byte("x")},
		{Type: tPayload, Flags: fNext, Stream: rc.Stream, Data: []byte("y")},
		{Type: tPayload, Flags: fComplete, Stream: rc.Stream},
		{Type: tPayload, Flags: fNext | fComplete, Stream: h.locals[n-2].stream, Data: []byte("v")},
		{Type: tRequestN, Stream: h.locals[n-1].stream, N: 3},
		{Type: tPayload, Flags: fNext, Stream: h.locals[n-1].stream, Data: []byte("w")},
	} {
		if err := h.send(f); err != nil {
			return fmt.Errorf("probe: %w", err)
		}
	}
	if err := h.check(); err != nil {
		return fmt.Errorf("probe: %w", err)
	}
	if err := h.send(wire{Type: tPayload, Flags: fComplete, Stream: h.locals[n-1].stream}); err != nil {
		return fmt.Errorf("probe: %w", err)
	}
	if err := h.check(); err != nil {
		return fmt.Errorf("probe: %w", err)
	}
	return nil
}

func runHostile(ctx *pbt.Ctx, c hostileCase) error {
	once := func() error {
		return pbt.Bubble(ctx.T, func() error {
			ours, theirs := bufPipe()
			h := &hostile{
				server: c.Server, conn: ours, reader: make(chan struct{}), calls: map[uint32]int{},
				sent: map[uint32]*outgoing{}, sentTag: map[uint32]bool{}, allowed: map[uint32]bool{}, peers: map[uint32]*outgoing{},
				nextID: 2,
			}
			if c.Server {
				h.nextID = 1
			}
			h.e = newEndpoint(context.Background(), h, 0, c.Server, theirs)
			h.e.start(context.Background())
			go h.read()
			var err error
			if c.Server {
				err = h.send(wire{Type: tSetup, Data: invoke.GetOperationsTable().ToBytes()})
			} else {
				err = h.e.setup()
			}
			if err == nil {
				h.e.t.WaitUntilReady()
				for i, s := range c.Steps {
					if err = h.step(s); err != nil {
						err = fmt.Errorf("step %d: %w", i+1, err)
						break
					}
				}
			}
			if err == nil && (c.Cut == 0 || len(c.Steps)%2 == 0) {
				err = h.check()
			}
			switch {
			case err != nil:
			case c.Cut > 0:
				b := h.request(tRS, 1, 5, 0, 3).bytes()
				b = append([]byte{0, 0, byte(len(b))}, b...)
				ours.Write(b[:min(c.Cut-1, len(b)-1)])
			default:
				err = h.finish()
			}
			ours.Close()
			pbt.Settle()
			if err == nil {
				err = h.e.stopped()
			}
			h.e.t.Close()
			<-h.reader
			return err
		})
	}
	times := 2
	if ctx.Replay {
		times = 40
	}
	for range times {
		if err := once(); err != nil {
			return err
		}
	}
	return nil
}

func TestC27(t *testing.T) {
	pbt.Check(t, "C27",
		pbt.NewPart("frames", 3000, 50000, "three or more frames for two or more streams, one of them unexpected",
			genHostile, func(ctx *pbt.Ctx, c hostileCase) error {
				n, odd := 0, 0
				sels := map[int]bool{}
				for _, s := range c.Steps {
					if s.K == stFrame {
						n++
						sels[s.Sel] = true
						if s.Sel >= selZero || s.Sel != selFresh && s.T <= tRC || s.Sel == selFresh && s.T > tRC {
							odd++
						}
						ctx.Label(typeNames[s.T])
					}
				}
				ctx.NonTrivialIf(n >= 3 && len(sels) > 1 && odd > 0)
				return runHostile(ctx, c)
			}),
	)
}
