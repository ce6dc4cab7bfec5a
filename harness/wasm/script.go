//go:build verif

package wasm

import (
	"sync"

	"github.com/nanobus/iota/go/operations"
)

// script is a guest that sends what it is told to and notes what it gets.
type script struct {
	mu   sync.Mutex
	ops  operations.Table
	e    *entry
	got  []wire
	errs []error
	on   func(wire) // optional, for frames of the host

	trap   func(wire) bool // optional: frames on which the guest traps
	at     *[2]uint64      // where its buffers are said to be
	raw    func([]byte)    // optional, for buffers of the host instead
	rawOps []byte          // a list of operations that is not one
}

func (s *script) init(e *entry, sendSize, recvSize, maxFrame uint32) {
	s.mu.Lock()
	s.e = e
	s.mu.Unlock()
	if s.at != nil {
		e.call("call_init_buffers", s.at[0], s.at[1])
		return
	}
	e.buffers()
}

func (s *script) opList(e *entry) {
	if s.rawOps != nil {
		e.operations(s.rawOps)
		return
	}
	if s.ops != nil {
		e.operations(s.ops.ToBytes())
	}
}

func (s *script) frames(_ *entry, b []byte) {
	if s.raw != nil {
		s.raw(b)
		return
	}
	fs, err := unframed(b)
	s.mu.Lock()
	s.got = append(s.got, fs...)
	if err != nil {
		s.errs = append(s.errs, err)
	}
	s.mu.Unlock()
	if s.trap != nil {
		trap := false
		for _, f := range fs {
			trap = s.trap(f) || trap
		}
		s.e.trap(trap)
	}
	if s.on != nil {
		for _, f := range fs {
			s.on(f)
		}
	}
}

// send hands frames to the host.
func (s *script) send(fs ...wire) { s.sendBytes(framed(fs...)) }

func (s *script) sendBytes(b []byte) {
	s.mu.Lock()
	e := s.e
	s.mu.Unlock()
	e.send(b)
}

// of returns the frames of a stream.
func (s *script) of(stream uint32) []wire {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []wire
	for _, f := range s.got {
		if f.Stream == stream {
			out = append(out, f)
		}
	}
	return out
}
