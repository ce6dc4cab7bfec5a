package rs

import (
	"net"
	"sync"

	"github.com/nanobus/iota/go/verifharness/e2e"
)

// tap shows the frames that are written to a connection to the protocol.
type tap struct {
	net.Conn
	side int
	p    *e2e.Protocol

	mu  sync.Mutex
	buf []byte
}

func (t *tap) Write(b []byte) (int, error) {
	t.mu.Lock()
	t.buf = append(t.buf, b...)
	for len(t.buf) >= 3 {
		n := int(t.buf[0])<<16 | int(t.buf[1])<<8 | int(t.buf[2])
		if len(t.buf) < 3+n {
			break
		}
		f, err := parse(t.buf[3 : 3+n])
		t.buf = t.buf[3+n:]
		if err != nil {
			t.p.Malformed(t.side, err)
			continue
		}
		t.p.Sent(t.side, e2e.Frame{Type: f.Type, Stream: f.Stream, N: f.N,
			Follows: f.Flags&fFollows != 0, Complete: f.Flags&fComplete != 0, Next: f.Flags&fNext != 0})
	}
	t.mu.Unlock()
	return t.Conn.Write(b)
}
