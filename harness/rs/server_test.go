package rs

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// listener hands out in-memory connections.
type listener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []any // net.Conn or error
	closed bool
}

func newListener() *listener {
	l := &listener{}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *listener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for len(l.queue) == 0 && !l.closed {
		l.cond.Wait()
	}
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "mem", Addr: addr{}, Err: net.ErrClosed}
	}
	x := l.queue[0]
	l.queue = l.queue[1:]
	if err, ok := x.(error); ok {
		return nil, err
	}
	return x.(net.Conn), nil
}

func (l *listener) put(x any) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return false
	}
	l.queue = append(l.queue, x)
	l.cond.Broadcast()
	return true
}

// Close also drops connections nobody accepted.
func (l *listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	for _, x := range l.queue {
		if c, ok := x.(net.Conn); ok {
			c.Close()
		}
	}
	l.cond.Broadcast()
	return nil
}

func (l *listener) Addr() net.Addr { return addr{} }

func (l *listener) isClosed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed
}

// What a connection does first.
const (
	cnGood    = iota // setup with the operations
	cnRequest        // another frame
	cnBadOps         // setup with data that is no operations list
	cnGarbage        // bytes
	cnLeave          // nothing, and leaves
	cnHalf           // part of a setup frame, and leaves
	cnSilent         // nothing, or part of a setup frame, and stays
	cnCount
)

type opEntry struct {
	Import bool
	Kind   int // operations.RequestType
	NS, Op int
	Index  uint32
}

type connSpec struct {
	What  int
	Ops   []opEntry
	Bytes []byte
	Frame int // type of the other frame; bytes of the half one
}

// Steps of a server's case.
const (
	svConnect = iota
	svProbe   // a request of the peer
	svCall    // a request of the server to an imported operation
	svAgain   // a second setup frame
	svLeave   // the peer leaves
	svSpoil   // the peer sends garbage
	svFail    // accepting fails once
	svClose   // Close
	svCancel  // the context ends
)

type svStep struct {
	K, I, N int
	Settle  bool
}

type serverCase struct {
	Conns    []connSpec
	Steps    []svStep
	Listen   int // 0: before the steps, 1: it fails, 2: after Close
	Notify   int // 0: none, 1: buffered, 2: unbuffered
	Buffered bool
}

var (
	svNames = []string{"alpha", "beta", "", "ünïcode"}
	svNS    = []string{"one", "two.three"}
	svTypes = []operations.RequestType{operations.RequestResponse, operations.FireAndForget, operations.RequestStream, operations.RequestChannel}
)

func (s connSpec) table() operations.Table {
	t := make(operations.Table, len(s.Ops))
	for k, o := range s.Ops {
		t[k] = operations.Operation{Index: o.Index, Type: svTypes[o.Kind], Direction: operations.Export, Namespace: svNS[o.NS], Operation: svNames[o.Op]}
		if o.Import {
			t[k].Direction = operations.Import
		}
	}
	return t
}

func genServer(t *rapid.T) serverCase {
	c := serverCase{
		Buffered: rapid.Bool().Draw(t, "buffered"),
		Notify:   rapid.IntRange(0, 2).Draw(t, "notify"),
	}
	switch rapid.IntRange(0, 15).Draw(t, "listen") {
	case 14:
		c.Listen = 1
	case 15:
		c.Listen = 2
	}
	n := rapid.IntRange(1, 5).Draw(t, "connections")
	for range n {
		s := connSpec{What: rapid.SampledFrom([]int{cnGood, cnGood, cnGood, cnRequest, cnBadOps, cnGarbage, cnLeave, cnHalf, cnSilent}).Draw(t, "what")}
		for k := rapid.IntRange(0, 6).Draw(t, "operations"); k > 0; k-- {
			s.Ops = append(s.Ops, opEntry{
				Import: rapid.IntRange(0, 3).Draw(t, "import") == 0,
				Kind:   rapid.IntRange(0, 3).Draw(t, "kind"),
				NS:     rapid.IntRange(0, len(svNS)-1).Draw(t, "ns"),
				Op:     rapid.IntRange(0, len(svNames)-1).Draw(t, "name"),
				Index:  rapid.OneOf(rapid.Uint32Range(0, 5), rapid.Uint32()).Draw(t, "index"),
			})
		}
		switch s.What {
		case cnRequest:
			s.Frame = rapid.SampledFrom([]int{tRR, tFNF, tRS, tRC, tRequestN, tCancel, tPayload, tError}).Draw(t, "frame")
		case cnHalf, cnSilent:
			s.Frame = rapid.IntRange(0, 40).Draw(t, "bytes")
		case cnGarbage, cnBadOps:
			s.Bytes = rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "garbage")
		}
		c.Conns = append(c.Conns, s)
	}
	steps := []svStep{}
	for i := range c.Conns {
		steps = append(steps, svStep{K: svConnect, I: i})
	}
	for k := rapid.IntRange(0, 8).Draw(t, "steps"); k > 0; k-- {
		steps = append(steps, svStep{
			K: rapid.SampledFrom([]int{svProbe, svProbe, svCall, svCall, svAgain, svLeave, svSpoil, svFail}).Draw(t, "step"),
			I: rapid.IntRange(0, n-1).Draw(t, "i"),
			N: rapid.IntRange(0, 9).Draw(t, "n"),
		})
	}
	if len(steps) > 1 {
		steps = rapid.Permutation(steps).Draw(t, "order")
	}
	end := rapid.SampledFrom([]int{svClose, svCancel, svClose, svCancel, svProbe}).Draw(t, "end")
	if end != svProbe {
		at := rapid.OneOf(rapid.Just(len(steps)), rapid.IntRange(0, len(steps))).Draw(t, "at")
		steps = append(steps[:at:at], append([]svStep{{K: end}}, steps[at:]...)...)
		if rapid.IntRange(0, 3).Draw(t, "twice") == 0 {
			steps = append(steps, svStep{K: rapid.SampledFrom([]int{svClose, svCancel}).Draw(t, "again")})
		}
	}
	for k := range steps {
		steps[k].Settle = rapid.Bool().Draw(t, "settle")
	}
	c.Steps = steps
	return c
}

// svConn is a connection of the test.
type svConn struct {
	id      int
	spec    connSpec
	conn    net.Conn
	made    bool
	refused bool
	left    bool // by the peer
	spoiled bool // it has sent garbage since
	eof     bool
	nextID  uint32
	want    map[uint32][]byte // answers to come, by stream
	accepts int
	caller  invoke.Caller
	calls   []*svCallRec
	queue   *sender
}

type svCallRec struct {
	kind  int
	index uint32
	data  []byte
	seen  int
	got   [][]byte
	ends  []string
}

// sender writes without the test waiting for it.
type sender struct {
	mu     sync.Mutex
	cond   *sync.Cond
	q      [][]byte
	closed bool
	done   chan struct{}
}

func newSender(c net.Conn) *sender {
	s := &sender{done: make(chan struct{})}
	s.cond = sync.NewCond(&s.mu)
	go func() {
		defer close(s.done)
		for {
			s.mu.Lock()
			for len(s.q) == 0 && !s.closed {
				s.cond.Wait()
			}
			if len(s.q) == 0 {
				s.mu.Unlock()
				c.Close()
				return
			}
			b := s.q[0]
			s.q = s.q[1:]
			s.mu.Unlock()
			if _, err := c.Write(b); err != nil {
				c.Close()
				return
			}
		}
	}()
	return s
}

func (s *sender) put(b []byte) {
	s.mu.Lock()
	s.q = append(s.q, b)
	s.cond.Broadcast()
	s.mu.Unlock()
}

// end closes the connection once everything has been written.
func (s *sender) end() {
	s.mu.Lock()
	s.closed = true
	s.cond.Broadcast()
	s.mu.Unlock()
}

func framed(f wire) []byte {
	b := f.bytes()
	return append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}

type svWorld struct {
	mu    sync.Mutex
	errs  []error
	conns []*svConn
}

func (w *svWorld) fail(format string, args ...any) {
	if len(w.errs) < 5 {
		w.errs = append(w.errs, fmt.Errorf(format, args...))
	}
}

// Handlers of the server: they are given the connection's number and answer with it.

func svAnswer(d []byte) []byte { return append([]byte("answer "), d...) }

func (w *svWorld) RR(side, op int, ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	return mono.Just[payload.Payload](payload.New(svAnswer(p.Data())))
}
func (w *svWorld) FNF(side, op int, ctx context.Context, p payload.Payload) {}
func (w *svWorld) RS(side, op int, ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	return flux.FromSlice([]payload.Payload{payload.New(svAnswer(p.Data()))})
}
func (w *svWorld) RC(side, op int, ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	return in
}

// accept is the server's acceptor. Which connection it is about is found out
// by a request which that connection receives.
func (w *svWorld) accept(ctx context.Context, caller invoke.Caller, onClose func(*rsocket.Transport)) {
	meta := make([]byte, 8)
	binary.BigEndian.PutUint32(meta, helloIndex)
	helloMu.Lock()
	n := len(callers[w])
	callers[w] = append(callers[w], caller)
	helloMu.Unlock()
	caller.FireAndForget(ctx, payload.New(binary.BigEndian.AppendUint32([]byte("hello"), uint32(n)), meta))
}

const helloIndex = 0xfffffff0

var (
	helloMu sync.Mutex
	callers = map[*svWorld][]invoke.Caller{}
)

// read receives what the server sends over a connection.
func (w *svWorld) read(c *svConn) {
	for {
		f, err := readFrame(c.conn)
		w.mu.Lock()
		if err != nil {
			if errors.Is(err, errFrame) {
				w.fail("connection %d: the server sent a %v", c.id, err)
			}
			c.eof = true
			w.mu.Unlock()
			c.queue.end()
			return
		}
		w.received(c, f)
		w.mu.Unlock()
	}
}

func (w *svWorld) received(c *svConn, f wire) {
	if f.Stream&1 == 1 {
		want, ok := c.want[f.Stream]
		switch {
		case !ok && c.spec.What == cnGood:
			w.fail("connection %d: the server sent %v, nothing is open there", c.id, f)
		case !ok:
		case f.Type == tPayload && f.Flags&fNext != 0:
			if !bytes.Equal(f.Data, want) {
				w.fail("connection %d: answer %q, expected %q", c.id, f.Data, want)
			}
			delete(c.want, f.Stream)
		default:
			w.fail("connection %d: the server sent %v as an answer", c.id, f)
		}
		return
	}
	if f.Type < tRR || f.Type > tRC {
		return
	}
	if len(f.Meta) < 8 {
		w.fail("connection %d: a request without metadata", c.id)
		return
	}
	index := binary.BigEndian.Uint32(f.Meta)
	if index == helloIndex {
		helloMu.Lock()
		n := len(callers[w])
		k := int(binary.BigEndian.Uint32(f.Data[5:]))
		if k < n {
			c.caller = callers[w][k]
		}
		helloMu.Unlock()
		c.accepts++
		if c.accepts > 1 {
			w.fail("connection %d was accepted %d times", c.id, c.accepts)
		}
		return
	}
	for _, r := range c.calls {
		if bytes.Equal(r.data, f.Data) {
			r.seen++
			if r.seen > 1 {
				w.fail("connection %d: a request was sent %d times", c.id, r.seen)
			}
			if f.Type != tRR+r.kind || index != r.index {
				w.fail("connection %d: a %s of operation %d arrived as %v for operation %d", c.id, typeNames[tRR+r.kind], r.index, f, index)
			}
			if f.Type != tFNF {
				c.queue.put(framed(wire{Type: tPayload, Flags: fNext | fComplete, Stream: f.Stream, Data: svAnswer(f.Data)}))
			}
			return
		}
	}
	w.fail("connection %d: the server sent %v, which nobody asked for", c.id, f)
}

// open begins the connection's exchange.
func (w *svWorld) open(c *svConn) {
	setup := framed(wire{Type: tSetup, Data: c.spec.table().ToBytes()})
	switch s := c.spec; s.What {
	case cnGood:
		c.queue.put(setup)
	case cnRequest:
		f := wire{Type: s.Frame, Stream: 1, N: 3, Meta: make([]byte, 8), Data: []byte("early")}
		c.queue.put(framed(f))
		c.queue.put(setup)
	case cnBadOps:
		// Not the magic number that a list begins with.
		c.queue.put(framed(wire{Type: tSetup, Data: append([]byte{0x7f}, s.Bytes...)}))
	case cnGarbage:
		// A frame of 6 bytes or more whose type does not exist.
		b := append([]byte{0, 0, 0, 0, 0xfc, 0}, s.Bytes...)
		c.queue.put(append([]byte{0, 0, byte(len(b))}, b...))
	case cnLeave:
		c.queue.end()
	case cnHalf:
		c.queue.put(setup[:min(s.Frame, len(setup)-1)])
		c.queue.end()
	case cnSilent:
		c.queue.put(setup[:min(s.Frame, len(setup)-1)])
	}
}

func (c *svConn) good() bool { return c.made && c.spec.What == cnGood && !c.refused }

// live says whether the connection has to be served still.
func (c *svConn) live() bool { return c.good() && !c.left && !c.spoiled }

func runServer(ctx *pbt.Ctx, c serverCase) error {
	once := func() error {
		return pbt.Bubble(ctx.T, func() error { return serve(c) })
	}
	times := 2
	if ctx.Replay {
		times = 40
	}
	for range times {
		if err := once(); err != nil {
			return err
		}
	}
	return nil
}

func serve(c serverCase) (err error) {
	register()
	w := &svWorld{}
	defer func() {
		helloMu.Lock()
		delete(callers, w)
		helloMu.Unlock()
	}()
	for k, s := range c.Conns {
		w.conns = append(w.conns, &svConn{id: k, spec: s, nextID: 1, want: map[uint32][]byte{}})
	}
	l := newListener()
	refuse := errors.New("no such network")
	var server rsocket.ServerTransport
	opened := false
	server = rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) {
		switch c.Listen {
		case 1:
			return nil, refuse
		case 2:
			// Closed while the listener is being opened.
			server.Close()
		}
		opened = true
		return l, nil
	}, func(ctx context.Context) (rsocket.DuplexHandler, error) {
		return handler.New(ctx, handler.ServerMode), nil
	})
	server.Accept(w.accept)
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), endKey{}, end{w, 1}))
	defer cancel()
	var notifier chan bool
	told := make(chan bool, 3)
	switch c.Notify {
	case 1:
		notifier = make(chan bool, 1)
	case 2:
		notifier = make(chan bool)
	}
	if notifier != nil {
		go func() {
			for b := range notifier {
				told <- b
			}
		}()
		defer close(notifier)
	}
	result := make(chan error, 1)
	go func() { result <- server.Listen(ctx, notifier) }()
	pbt.Settle()
	down := c.Listen != 0
	returned := func() (error, bool) {
		select {
		case err := <-result:
			return err, true
		default:
			return nil, false
		}
	}
	if c.Notify > 0 {
		select {
		case b := <-told:
			if b == down {
				return fmt.Errorf("the notifier was told %v", b)
			}
		default:
			if c.Listen != 2 {
				return fmt.Errorf("the notifier was told nothing")
			}
		}
	}
	if down {
		err, ok := returned()
		if !ok {
			server.Close()
			return fmt.Errorf("Listen goes on although it can not")
		}
		if c.Listen == 1 && !errors.Is(err, refuse) {
			return fmt.Errorf("Listen returned %v when listening failed", err)
		}
		if opened && !l.isClosed() {
			return fmt.Errorf("the listener of a closed server was left open")
		}
		return server.Close()
	}

	defer func() {
		// Whatever has happened, nothing is to be left running.
		server.Close()
		for _, cn := range w.conns {
			if cn.conn != nil {
				cn.queue.end()
				cn.conn.Close()
			}
		}
		pbt.Settle()
	}()
	check := func() error {
		pbt.Settle()
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.errs) > 0 {
			return w.errs[0]
		}
		if !down && l.isClosed() {
			return fmt.Errorf("the server closed its listener")
		}
		for _, cn := range w.conns {
			if err := cn.check(down); err != nil {
				return fmt.Errorf("connection %d: %w", cn.id, err)
			}
		}
		return nil
	}
	probe := func(cn *svConn, n, k int) {
		if !cn.live() {
			return
		}
		d := fmt.Appendf(nil, "probe %d of %d", k, cn.id)
		w.mu.Lock()
		id := cn.nextID
		cn.nextID += 2
		cn.want[id] = svAnswer(d)
		w.mu.Unlock()
		meta := make([]byte, 8)
		binary.BigEndian.PutUint32(meta, index(0, n%3))
		cn.queue.put(framed(wire{Type: tRR, Stream: id, Meta: meta, Data: d}))
	}
	for k, s := range c.Steps {
		cn := w.conns[s.I]
		switch s.K {
		case svConnect:
			a, b := net.Pipe()
			if c.Buffered {
				a, b = bufPipe()
			}
			cn.made = true
			if !l.put(b) {
				cn.refused = true
				a.Close()
				break
			}
			cn.conn = a
			cn.queue = newSender(a)
			go w.read(cn)
			w.open(cn)
		case svProbe:
			probe(cn, s.N, k)
		case svCall:
			pbt.Settle()
			w.call(cn, s, k)
		case svAgain:
			if cn.live() {
				other := w.conns[(s.I+1)%len(w.conns)]
				cn.queue.put(framed(wire{Type: tSetup, Data: other.spec.table().ToBytes()}))
			}
		case svLeave:
			if cn.made && !cn.refused {
				cn.left = true
				cn.queue.end()
			}
		case svSpoil:
			if cn.live() {
				cn.spoiled = true
				cn.queue.put([]byte{0, 0, 8, 0, 0, 0, 1, 0xfc, 0, 1, 2})
			}
		case svFail:
			l.put(errors.New("accept: too many open files"))
		case svClose:
			if s.N%2 == 0 && s.Settle {
				pbt.Settle()
			}
			server.Close()
			down = true
		case svCancel:
			cancel()
			down = true
		}
		if s.Settle {
			if err := check(); err != nil {
				return fmt.Errorf("step %d: %w", k+1, err)
			}
		}
	}
	if err := check(); err != nil {
		return err
	}
	pbt.Idle()
	for _, cn := range w.conns {
		probe(cn, cn.id, len(c.Steps))
	}
	if err := check(); err != nil {
		return fmt.Errorf("after three hours without anything to do: %w", err)
	}
	if !down {
		if _, ok := returned(); ok {
			return fmt.Errorf("Listen returned although nobody closed the server")
		}
		server.Close()
		down = true
	}
	if err := check(); err != nil {
		return fmt.Errorf("after closing: %w", err)
	}
	if !l.isClosed() {
		return fmt.Errorf("the listener of a closed server is still open")
	}
	if _, ok := returned(); !ok {
		return fmt.Errorf("Listen goes on after closing the server")
	}
	return nil
}

// imported is what importing an operation by its name is to give.
func (s connSpec) imported(kind, ns, op int) (index uint32, found, ambiguous bool) {
	for _, o := range s.Ops {
		if !o.Import && o.Kind == kind && o.NS == ns && o.Op == op {
			if found && o.Index != index {
				ambiguous = true
			}
			if !found {
				index, found = o.Index, true
			}
		}
	}
	return
}

func importIndex(c invoke.Caller, kind int, ns, name string) uint32 {
	switch kind {
	case 0:
		return c.ImportRequestResponse(ns, name)
	case 1:
		return c.ImportFireAndForget(ns, name)
	case 2:
		return c.ImportRequestStream(ns, name)
	default:
		return c.ImportRequestChannel(ns, name)
	}
}

// call makes the server call an operation that a connection has announced.
func (w *svWorld) call(cn *svConn, s svStep, k int) {
	if !cn.live() || cn.caller == nil || cn.eof || len(cn.spec.Ops) == 0 {
		return
	}
	o := cn.spec.Ops[s.N%len(cn.spec.Ops)]
	want, found, ambiguous := cn.spec.imported(o.Kind, o.NS, o.Op)
	if !found || ambiguous {
		return
	}
	got := importIndex(cn.caller, o.Kind, svNS[o.NS], svNames[o.Op])
	w.mu.Lock()
	if got != want {
		w.fail("connection %d: %s %q %q has index %d, announced as %d", cn.id, typeNames[tRR+o.Kind], svNS[o.NS], svNames[o.Op], got, want)
	}
	if want == helloIndex {
		w.mu.Unlock()
		return
	}
	r := &svCallRec{kind: o.Kind, index: got, data: fmt.Appendf(nil, "call %d of %d", k, cn.id)}
	cn.calls = append(cn.calls, r)
	w.mu.Unlock()
	meta := make([]byte, 8)
	binary.BigEndian.PutUint32(meta, got)
	p := payload.New(bytes.Clone(r.data), meta)
	next := func(p payload.Payload) {
		w.mu.Lock()
		r.got = append(r.got, bytes.Clone(p.Data()))
		w.mu.Unlock()
	}
	end := func(e string) {
		w.mu.Lock()
		r.ends = append(r.ends, e)
		w.mu.Unlock()
	}
	ctx := context.Background()
	switch o.Kind {
	case 0:
		cn.caller.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { next(p); end("complete") },
			OnError:   func(err error) { end("error " + err.Error()) },
		})
	case 1:
		cn.caller.FireAndForget(ctx, p)
	default:
		sub := flux.Subscribe[payload.Payload]{
			OnNext:     next,
			OnComplete: func() { end("complete") },
			OnError:    func(err error) { end("error " + err.Error()) },
		}
		if o.Kind == 2 {
			cn.caller.RequestStream(ctx, p).Subscribe(sub)
		} else {
			cn.caller.RequestChannel(ctx, p, flux.FromSlice[payload.Payload](nil)).Subscribe(sub)
		}
	}
}

// check compares with what is to be by now.
func (c *svConn) check(down bool) error {
	if !c.made || c.refused {
		return nil
	}
	if c.spec.What != cnGood && c.accepts > 0 {
		return fmt.Errorf("was accepted although it has not announced its operations")
	}
	if down {
		if !c.eof {
			return fmt.Errorf("is still open")
		}
		return nil
	}
	if c.good() && c.accepts != 1 && !c.left && !c.spoiled {
		return fmt.Errorf("has not been accepted")
	}
	if c.good() && c.accepts == 1 && c.caller == nil {
		return fmt.Errorf("its acceptor is unknown")
	}
	if !c.live() {
		if !c.eof && c.spec.What != cnSilent {
			return fmt.Errorf("has not been closed")
		}
		if c.eof && c.spec.What == cnSilent && !c.left {
			return nil // a server may give up waiting
		}
		return nil
	}
	if c.eof {
		return fmt.Errorf("was closed")
	}
	if len(c.want) > 0 {
		return fmt.Errorf("%d requests have not been answered", len(c.want))
	}
	for _, o := range c.spec.Ops {
		want, found, ambiguous := c.spec.imported(o.Kind, o.NS, o.Op)
		if !found || ambiguous {
			continue
		}
		if got := importIndex(c.caller, o.Kind, svNS[o.NS], svNames[o.Op]); got != want {
			return fmt.Errorf("%s %q %q has index %d, announced as %d", typeNames[tRR+o.Kind], svNS[o.NS], svNames[o.Op], got, want)
		}
	}
	for _, r := range c.calls {
		if r.seen != 1 {
			return fmt.Errorf("a call arrived %d times", r.seen)
		}
		if r.kind == 1 {
			continue
		}
		if len(r.got) != 1 || !bytes.Equal(r.got[0], svAnswer(r.data)) || len(r.ends) != 1 || r.ends[0] != "complete" {
			return fmt.Errorf("a call got %q, ends %q", r.got, r.ends)
		}
	}
	return nil
}

// loopbackCase runs the real listeners and dialers.
type loopbackCase struct {
	Unix    bool // with NewServer and Connect as configured by the environment
	Clients int
	Ask     int  // requests of every client
	Cancel  bool // rather than Close
	Reload  bool // a listen failure first
	TLS     bool
	Connect bool // clients use Connect, where they can
	Sizes   []int
}

// certificate makes the two sides' TLS configurations.
var certificate = sync.OnceValues(func() (server, client *tls.Config) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(pbt.Harness("%v", err))
	}
	from := time.Now().Add(-24 * time.Hour)
	t := x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: from, NotAfter: from.Add(1000 * 24 * time.Hour),
		IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, DNSNames: []string{"verif"}, IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, &t, &t, &key.PublicKey, key)
	if err != nil {
		panic(pbt.Harness("%v", err))
	}
	cert, err := x509.ParseCertificate(der)
	if err != nil {
		panic(pbt.Harness("%v", err))
	}
	pool := x509.NewCertPool()
	pool.AddCert(cert)
	return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}},
		&tls.Config{RootCAs: pool, ServerName: "verif"}
})

// refused checks what happens where nobody listens.
func refused(network, address string) error {
	h := rsocket.Handler(context.Background())
	if c, err := rsocket.NewConnWithAddr(context.Background(), network, address, nil); err == nil {
		return fmt.Errorf("NewConnWithAddr reported no error although nobody listens (%v)", c)
	}
	if t, err := rsocket.NewClient(context.Background(), h); err == nil {
		return fmt.Errorf("NewClient reported no error although nobody listens (%v)", t)
	}
	result := make(chan error, 1)
	go func() { result <- rsocket.Connect(h) }()
	select {
	case err := <-result:
		if err == nil {
			return fmt.Errorf("Connect reported no error although nobody listens")
		}
	case <-time.After(patience):
		return fmt.Errorf("Connect does not return although nobody listens")
	}
	return nil
}

const patience = 30 * time.Second

func runLoopback(ctx *pbt.Ctx, c loopbackCase) error {
	ctx.NonTrivialIf(c.Clients > 1)
	register()
	dir, err := os.MkdirTemp("", "c28")
	if err != nil {
		return pbt.Harness("%v", err)
	}
	defer os.RemoveAll(dir)
	sock := filepath.Join(dir, "s")
	if c.Unix && len(sock) > 100 {
		return pbt.Harness("socket path %s is too long", sock)
	}
	w := &svWorld{}
	network := "tcp"
	address := "127.0.0.1:0"
	if c.Unix {
		network, address = "unix", sock
	}
	os.Setenv("RSOCKET_NETWORK", network)
	defer os.Unsetenv("RSOCKET_NETWORK")
	defer os.Unsetenv("RSOCKET_ADDRESS")
	sctx, cancel := context.WithCancel(context.WithValue(context.Background(), endKey{}, end{w, 1}))
	defer cancel()

	if c.Reload {
		bad := rsocket.NewTCPServerTransport(rsocket.NewTCPListenerFactory("unix", filepath.Join(dir, "no", "such", "dir"), nil), nil)
		n := make(chan bool, 1)
		if err := bad.Listen(sctx, n); err == nil {
			return fmt.Errorf("listening at an impossible address reported no error")
		}
		if <-n {
			return fmt.Errorf("listening at an impossible address notified of success")
		}
	}

	accepted := make(chan invoke.Caller, 100)
	acceptor := func(ctx context.Context, caller invoke.Caller, onClose func(*rsocket.Transport)) { accepted <- caller }
	var server rsocket.ServerTransport
	var serverTLS, clientTLS *tls.Config
	if c.TLS {
		serverTLS, clientTLS = certificate()
	}
	if c.Unix && !c.TLS {
		os.Setenv("RSOCKET_ADDRESS", address)
		if err := refused(network, address); err != nil {
			return err
		}
		server = rsocket.NewServer(acceptor)
	} else {
		lf := rsocket.NewTCPListenerFactory(network, address, serverTLS)
		server = rsocket.NewTCPServerTransport(func(ctx context.Context) (net.Listener, error) {
			l, err := lf(ctx)
			if err == nil {
				address = l.Addr().String()
			}
			return l, err
		}, nil)
		server.Accept(acceptor)
	}
	n := make(chan bool, 1)
	result := make(chan error, 1)
	go func() { result <- server.Listen(sctx, n) }()
	defer server.Close()
	if !<-n {
		return pbt.Harness("can not listen: %v", <-result)
	}
	os.Setenv("RSOCKET_ADDRESS", address)

	if c.TLS {
		// A client without TLS, and one that does not trust the server.
		for _, conf := range []*tls.Config{nil, {ServerName: "verif"}} {
			conn, err := rsocket.NewConnWithAddr(context.Background(), network, address, conf)
			if err != nil {
				return fmt.Errorf("a client without TLS can not connect: %w", err)
			}
			t := rsocket.NewTCPClientTransport(conn, rsocket.Handler(context.Background()))
			err = t.Send(&frames.Setup{MinorVersion: 2, Data: invoke.GetOperationsTable().ToBytes()}, true)
			stop := time.AfterFunc(patience, func() { conn.Close() })
			if err2 := t.Start(context.Background()); err == nil && err2 == nil && conf != nil {
				return fmt.Errorf("a client took a server for one it trusts")
			}
			if !stop.Stop() {
				return fmt.Errorf("a client without TLS was left waiting")
			}
			select {
			case <-accepted:
				return fmt.Errorf("a client without TLS was accepted")
			default:
			}
		}
	}

	var ended []chan error
	for i := range c.Clients {
		cctx := context.WithValue(context.Background(), endKey{}, end{w, 0})
		h := rsocket.Handler(cctx)
		done := make(chan error, 1)
		if c.Connect && !c.TLS {
			go func() { done <- rsocket.Connect(h) }()
		} else {
			var t *rsocket.Transport
			var err error
			if c.TLS {
				var conn net.Conn
				conn, err = rsocket.NewConnWithAddr(cctx, network, address, clientTLS)
				if err == nil {
					t = rsocket.NewTCPClientTransport(conn, h)
					h.SetFrameSender(func(f frames.Frame) error { return t.Send(f, true) })
				}
			} else {
				t, err = rsocket.NewClient(cctx, h)
			}
			if err != nil {
				return fmt.Errorf("client %d can not connect: %w", i, err)
			}
			defer t.Close()
			if err := t.Send(&frames.Setup{MinorVersion: 2, Data: invoke.GetOperationsTable().ToBytes()}, true); err != nil {
				return fmt.Errorf("client %d can not send its setup: %w", i, err)
			}
			go func() { done <- t.Start(cctx) }()
		}
		ended = append(ended, done)
		var caller invoke.Caller
		select {
		case caller = <-accepted:
		case <-time.After(patience):
			return fmt.Errorf("client %d was not accepted", i)
		}
		for k := range c.Ask {
			for side, from := range []invoke.Caller{h, caller} {
				op := k % len(names)
				meta := make([]byte, 8)
				binary.BigEndian.PutUint32(meta, index(0, op))
				if side == 1 {
					binary.BigEndian.PutUint32(meta, caller.ImportRequestResponse(ns, names[op]))
				}
				d := bytes.Repeat([]byte{byte(i + k + side)}, c.Sizes[k%len(c.Sizes)])
				got, err := ask(from, payload.New(bytes.Clone(d), meta))
				if err != nil {
					return fmt.Errorf("client %d request %d from side %d: %w", i, k, side, err)
				}
				if err := pbt.EqBytes("answer", got, svAnswer(d)); err != nil {
					return fmt.Errorf("client %d request %d from side %d: %w", i, k, side, err)
				}
			}
		}
	}
	if c.Cancel {
		cancel()
	} else if err := server.Close(); err != nil {
		return fmt.Errorf("Close: %w", err)
	}
	for i, done := range append(ended, result) {
		select {
		case <-done:
		case <-time.After(patience):
			return fmt.Errorf("closing the server did not end %d of %d clients and Listen", i, len(ended))
		}
	}
	if conn, err := net.Dial(network, address); err == nil {
		conn.Close()
		return fmt.Errorf("a closed server still accepts connections")
	}
	return refused(network, address)
}

func ask(c invoke.Caller, p payload.Payload) ([]byte, error) {
	type res struct {
		d   []byte
		err error
	}
	out := make(chan res, 2)
	c.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) { out <- res{bytes.Clone(p.Data()), nil} },
		OnError:   func(err error) { out <- res{nil, err} },
	})
	select {
	case r := <-out:
		return r.d, r.err
	case <-time.After(patience):
		return nil, fmt.Errorf("no answer")
	}
}

func TestC28(t *testing.T) {
	pbt.Check(t, "C28",
		pbt.NewPart("server", 3000, 50000, "a good and a bad connection at least",
			genServer, func(ctx *pbt.Ctx, c serverCase) error {
				good, bad := 0, 0
				for _, s := range c.Conns {
					if s.What == cnGood {
						good++
					} else {
						bad++
					}
				}
				for k, s := range c.Steps {
					if s.K >= svClose {
						ctx.Label("shutdown")
						if k > 0 && !c.Steps[k-1].Settle {
							ctx.Label("shutdown racing")
						}
					}
				}
				ctx.NonTrivialIf(good > 0 && bad > 0)
				return runServer(ctx, c)
			}),
		pbt.NewPart("storm", 400, 6000, "several peers, and more than four connections",
			genStorm, runStorm),
		pbt.NewPart("loopback", 30, 300, "two clients or more",
			func(t *rapid.T) loopbackCase {
				return loopbackCase{
					Unix:    rapid.Bool().Draw(t, "unix"),
					Clients: rapid.IntRange(1, 4).Draw(t, "clients"),
					Ask:     rapid.IntRange(0, 4).Draw(t, "requests"),
					Cancel:  rapid.Bool().Draw(t, "cancel"),
					Reload:  rapid.Bool().Draw(t, "listen failure"),
					TLS:     rapid.IntRange(0, 2).Draw(t, "tls") == 0,
					Connect: rapid.Bool().Draw(t, "connect"),
					Sizes:   rapid.SliceOfN(pbt.Lens(70000), 1, 4).Draw(t, "sizes"),
				}
			}, runLoopback),
	)
}
