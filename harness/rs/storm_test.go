package rs

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"runtime"
	"sync"
	"weak"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// stormPeer connects again and again.
type stormPeer struct {
	Times  int
	Ask    int  // requests each time
	Bad    int  // 0: well-behaved, 1: garbage at first, 2: leaves at once, 3: garbage at last
	Abrupt bool // leaves without waiting for the last answer, or for being accepted
}

// stormCase is a server whose peers come and go all at the same time.
type stormCase struct {
	Peers    []stormPeer
	Stay     int // peers that stay
	Buffered bool
	Cancel   bool // rather than Close
	Reps     int
}

type storm struct {
	mu       sync.Mutex
	accepted int
	kept     []weak.Pointer[handler.Handler]
	opaque   bool // what the acceptor is given is not the handler itself
	errs     []error
}

func (s *storm) fail(err error) {
	s.mu.Lock()
	s.errs = append(s.errs, err)
	s.mu.Unlock()
}

// accept tells the peer that it is accepted.
func (s *storm) accept(ctx context.Context, caller invoke.Caller, _ func(*rsocket.Transport)) {
	meta := make([]byte, 8)
	binary.BigEndian.PutUint32(meta, helloIndex)
	caller.FireAndForget(ctx, payload.New([]byte("hello"), meta))
	s.mu.Lock()
	defer s.mu.Unlock()
	s.accepted++
	if h, ok := caller.(*handler.Handler); ok {
		s.kept = append(s.kept, weak.Make(h))
	} else {
		s.opaque = true
	}
}

// stormConn is a peer's connection.
type stormConn struct {
	net.Conn
	hellos int
}

// next is the next frame that answers something.
func (c *stormConn) next() (f wire, err error) {
	for {
		if f, err = readFrame(c); err != nil {
			return f, err
		}
		switch {
		case f.Type == tFNF:
			if c.hellos++; c.hellos > 1 {
				return f, errors.New("a connection was accepted twice")
			}
			return f, nil
		case f.Type >= tPayload && f.Stream != 0:
			return f, nil
		}
	}
}

// welcome waits until the server has accepted the connection.
func (c *stormConn) welcome() error {
	for c.hellos == 0 {
		if f, err := c.next(); err != nil {
			return fmt.Errorf("waiting to be accepted: %w", err)
		} else if f.Type != tFNF {
			return fmt.Errorf("the server sent %v, nothing is open there", f)
		}
	}
	return nil
}

// ask makes a request and waits for its answer.
func (c *stormConn) ask(stream uint32, wait bool) error {
	d := fmt.Appendf(nil, "request %d", stream)
	meta := make([]byte, 8)
	binary.BigEndian.PutUint32(meta, index(0, int(stream/2)%3))
	if _, err := c.Write(framed(wire{Type: tRR, Stream: stream, Meta: meta, Data: d})); err != nil {
		return fmt.Errorf("request %d: %w", stream, err)
	}
	for wait {
		f, err := c.next()
		if err != nil {
			return fmt.Errorf("answer %d: %w", stream, err)
		}
		if f.Type == tFNF {
			continue
		}
		if f.Stream != stream || f.Type != tPayload || f.Flags&fNext == 0 || !bytes.Equal(f.Data, svAnswer(d)) {
			return fmt.Errorf("request %d was answered with %v", stream, f)
		}
		return nil
	}
	return nil
}

func runStorm(ctx *pbt.Ctx, c stormCase) error {
	n := 0
	for _, p := range c.Peers {
		n += p.Times
	}
	ctx.NonTrivialIf(len(c.Peers) > 1 && n > 4)
	if ctx.Replay {
		c.Reps *= 10
	}
	for rep := range c.Reps {
		if err := pbt.Bubble(ctx.T, func() error { return stormOnce(c, rep) }); err != nil {
			return fmt.Errorf("repetition %d: %w", rep, err)
		}
	}
	return nil
}

func stormOnce(c stormCase, rep int) error {
	register()
	l := newListener()
	s := &storm{}
	server := rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) { return l, nil },
		func(ctx context.Context) (rsocket.DuplexHandler, error) {
			return handler.New(ctx, handler.ServerMode), nil
		})
	server.Accept(s.accept)
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), endKey{}, end{&svWorld{}, 1}))
	defer cancel()
	result := make(chan error, 1)
	go func() { result <- server.Listen(ctx, nil) }()
	defer pbt.Settle()
	defer server.Close()
	pbt.Settle()

	setup := framed(wire{Type: tSetup, Data: connSpec{}.table().ToBytes()})
	dial := func() (*stormConn, error) {
		a, b := net.Pipe()
		if c.Buffered {
			a, b = bufPipe()
		}
		if !l.put(b) {
			return nil, errors.New("the server does not listen any more")
		}
		return &stormConn{Conn: a}, nil
	}
	good, maybe := 0, 0 // connections that must have been, or may have been, accepted
	gate := pbt.NewGate(rep)
	for _, p := range c.Peers {
		switch {
		case p.Bad == 1 || p.Bad == 2:
		case !p.Abrupt:
			good += p.Times
		default:
			maybe += p.Times
		}
		gate.Go(func() {
			for range p.Times {
				a, err := dial()
				if err != nil {
					s.fail(err)
					return
				}
				first := setup
				switch p.Bad {
				case 1:
					first = []byte{0, 0, 7, 0, 0, 0, 0, 0xfc, 0, 1}
				case 2:
					first = setup[:5]
				}
				_, err = a.Write(first)
				if p.Bad == 1 || p.Bad == 2 {
					a.Close()
					continue
				}
				for k := 0; k < p.Ask && err == nil; k++ {
					err = a.ask(uint32(2*k+1), k < p.Ask-1 || !p.Abrupt)
				}
				if err == nil && !p.Abrupt {
					err = a.welcome()
				}
				if err != nil {
					s.fail(err)
				}
				if p.Bad == 3 {
					a.Write([]byte{0, 0, 8, 0, 0, 0, 1, 0xfc, 0, 1, 2})
				}
				a.Close()
			}
		})
	}
	stay := make([]*stormConn, c.Stay)
	for i := range stay {
		gate.Go(func() {
			a, err := dial()
			if err == nil {
				stay[i] = a
				if _, err = a.Write(setup); err == nil {
					err = a.ask(1, true)
				}
				if err == nil {
					err = a.welcome()
				}
			}
			if err != nil {
				s.fail(err)
			}
		})
	}
	gate.Open()
	pbt.Settle()
	defer func() {
		for _, a := range stay {
			if a != nil {
				a.Close()
			}
		}
	}()
	check := func(accepted int) error {
		s.mu.Lock()
		defer s.mu.Unlock()
		if len(s.errs) > 0 {
			return s.errs[0]
		}
		if s.accepted < accepted || s.accepted > accepted+maybe {
			return fmt.Errorf("%d connections were accepted, want %d and %d more at most", s.accepted, accepted, maybe)
		}
		return nil
	}
	if err := check(good + c.Stay); err != nil {
		return err
	}
	// Of the connections that ended nothing is left. The last ones may be, in
	// variables of the loop that accepts them.
	left := 0
	for range 5 {
		runtime.GC()
		left = 0
		for _, k := range s.kept {
			if k.Value() != nil {
				left++
			}
		}
		if left <= c.Stay+2 {
			break
		}
	}
	if left > c.Stay+2 && !s.opaque {
		return fmt.Errorf("%d connections are kept, %d of %d are open", left, c.Stay, s.accepted)
	}
	for i, a := range stay {
		if err := a.ask(3, true); err != nil {
			return fmt.Errorf("a connection that stays (%d): %w", i, err)
		}
	}
	// Another one.
	a, err := dial()
	if err != nil {
		return err
	}
	defer a.Close()
	if _, err := a.Write(setup); err != nil {
		return fmt.Errorf("another connection: %w", err)
	}
	if err := a.ask(1, true); err != nil {
		return fmt.Errorf("another connection: %w", err)
	}
	if err := a.welcome(); err != nil {
		return fmt.Errorf("another connection: %w", err)
	}
	pbt.Settle()
	if err := check(good + c.Stay + 1); err != nil {
		return err
	}
	if c.Cancel {
		cancel()
	} else {
		server.Close()
	}
	pbt.Settle()
	for i, a := range append(stay, a) {
		if f, err := readFrame(a); err == nil {
			return fmt.Errorf("connection %d got %v when the server closed", i, f)
		}
	}
	select {
	case <-result:
	default:
		return fmt.Errorf("Listen goes on after closing the server")
	}
	return nil
}

func genStorm(t *rapid.T) stormCase {
	return stormCase{
		Peers: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) stormPeer {
			return stormPeer{
				Times:  rapid.IntRange(1, 6).Draw(t, "times"),
				Ask:    rapid.IntRange(0, 3).Draw(t, "ask"),
				Bad:    rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "bad"),
				Abrupt: rapid.IntRange(0, 3).Draw(t, "abrupt") == 3,
			}
		}), 1, 8).Draw(t, "peers"),
		Stay:     rapid.IntRange(0, 3).Draw(t, "stay"),
		Buffered: rapid.IntRange(0, 2).Draw(t, "buffered") > 0,
		Cancel:   rapid.Bool().Draw(t, "cancel"),
		Reps:     3,
	}
}
