package e2e

import (
	"fmt"
	"math"
	"sync"
)

// Frame types, per https://rsocket.io/about/protocol.
const (
	FSetup    = 1
	FRR       = 4
	FFNF      = 5
	FRS       = 6
	FRC       = 7
	FRequestN = 8
	FCancel   = 9
	FPayload  = 10
	FError    = 11
)

// Frame is what the protocol says about a frame.
type Frame struct {
	Type                    int
	Stream                  uint32
	N                       uint32
	Follows, Complete, Next bool
}

func (f Frame) String() string {
	names := map[int]string{FSetup: "SETUP", FRR: "REQUEST_RESPONSE", FFNF: "REQUEST_FNF", FRS: "REQUEST_STREAM",
		FRC: "REQUEST_CHANNEL", FRequestN: "REQUEST_N", FCancel: "CANCEL", FPayload: "PAYLOAD", FError: "ERROR"}
	s := names[f.Type]
	if s == "" {
		s = fmt.Sprintf("type %d", f.Type)
	}
	switch f.Type {
	case FRS, FRC, FRequestN:
		s += fmt.Sprintf("(%d)", f.N)
	case FPayload:
		if f.Next {
			s += " next"
		}
		if f.Complete {
			s += " complete"
		}
	}
	return s
}

// half is one direction of a stream.
type half struct {
	credit int // asked for by the other side
	items  int
	ended  bool // complete, or never carries anything
}

type stream struct {
	side   int // the requester's
	kind   int
	halves [2]half // what each side sends
	over   [2]bool // the side has ended what it has to do with the stream
	shut   [2]bool // and nothing of it was on its way any more, or the other has
	cancel [2]bool // the side has cancelled the other's half
	log    []string
}

// Protocol follows the frames of a connection in the order they are sent.
type Protocol struct {
	mu      sync.Mutex
	streams map[uint32]*stream
	setup   bool // a connection begins with a SETUP frame of side 0
	odd     int
	started bool
	err     error
	frames  int
}

// NewProtocol follows a connection, one side of which uses odd stream IDs.
func NewProtocol(setup bool, odd int) *Protocol {
	return &Protocol{streams: map[uint32]*stream{}, setup: setup, odd: odd}
}

// Err is what was wrong.
func (p *Protocol) Err() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.err
}

// Settled is called when nothing is on its way.
func (p *Protocol) Settled() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, s := range p.streams {
		if s.over[0] || s.over[1] || s.halves[0].ended && s.halves[1].ended {
			s.shut = [2]bool{true, true}
		}
	}
}

// Frames is how many frames there were.
func (p *Protocol) Frames() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.frames
}

// Malformed reports bytes that are no frame.
func (p *Protocol) Malformed(side int, err error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.err == nil {
		p.err = fmt.Errorf("side %d sent something that is not a frame: %w", side, err)
	}
}

// Sent is called for a frame before the other side can see it.
func (p *Protocol) Sent(side int, f Frame) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.frames++
	if p.err != nil {
		return
	}
	s := p.streams[f.Stream]
	why := p.sent(side, f, s)
	if s == nil {
		s = p.streams[f.Stream]
	}
	var log []string
	if s != nil {
		s.log = append(s.log, fmt.Sprintf("%d: %v", side, f))
		log = s.log
	}
	if why != "" {
		p.err = fmt.Errorf("side %d sent %v on stream %d: %s; frames of the stream by side: %q", side, f, f.Stream, why, log)
	}
}

func (p *Protocol) sent(side int, f Frame, s *stream) string {
	if f.Type == FSetup {
		switch {
		case side != 0:
			return "only the client sets up a connection"
		case p.started || !p.setup:
			return "a connection is set up once, before anything else"
		case f.Stream != 0:
			return "a connection is set up on stream 0"
		}
		p.started = true
		return ""
	}
	if p.setup && !p.started {
		return "the connection is not set up yet"
	}
	if f.Stream == 0 || f.Stream > math.MaxInt32 {
		return "there is no such stream"
	}
	if f.Follows {
		return "nothing follows"
	}
	if f.Type >= FRR && f.Type <= FRC {
		if s != nil {
			return "the stream ID is in use already"
		}
		if (f.Stream%2 == 1) != (side == p.odd) {
			return "the other side makes requests with such stream IDs"
		}
		s = &stream{side: side, kind: f.Type}
		p.streams[f.Stream] = s
		other := &s.halves[1-side]
		if f.Type == FRS || f.Type == FRC {
			if f.N == 0 || f.N > math.MaxInt32 {
				return "the initial request is not positive"
			}
			other.credit = int(f.N)
		}
		if f.Type != FRC {
			s.halves[side].ended = true
		}
		if f.Type == FFNF {
			other.ended = true
		}
		return ""
	}
	if s == nil {
		return "there was no request"
	}
	me, other := &s.halves[side], &s.halves[1-side]
	if s.shut[side] {
		return "the stream has ended for the side"
	}
	answers := side != s.side
	switch f.Type {
	case FRequestN:
		switch {
		case f.N == 0 || f.N > math.MaxInt32:
			return "the number of items is not positive"
		case s.kind != FRC && (answers || s.kind != FRS):
			return "the other side sends no items"
		}
		other.credit = Add(other.credit, int(f.N))
	case FCancel:
		switch {
		case s.kind == FFNF || s.kind != FRC && answers:
			return "there is nothing to cancel"
		case s.cancel[side]:
			return "the side has cancelled before"
		}
		s.cancel[side] = true
		if !answers {
			s.over[side] = true
		}
	case FPayload:
		switch {
		case me.ended:
			return "the side has completed its items, or has none"
		case !f.Next && !f.Complete:
			return "it is neither an item nor the end"
		}
		if f.Next {
			me.items++
			switch {
			case s.kind == FRR && me.items > 1:
				return "there is a single answer"
			case s.kind == FRR && !f.Complete:
				return "the answer is also the end"
			case s.kind != FRR && me.items > me.credit:
				return fmt.Sprintf("only %d items were asked for", me.credit)
			}
		}
		if f.Complete {
			me.ended = true
		}
	case FError:
		if me.ended {
			return "the side has completed its items, or has none"
		}
		me.ended = true
		if answers {
			s.over[side] = true // a failed response ends both directions
		}
	default:
		return "there is no such frame"
	}
	return ""
}
