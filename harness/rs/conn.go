package rs

import (
	"io"
	"net"
	"sync"
	"time"
)

// bufConn is one end of a connection whose writes never wait.
type bufConn struct {
	in, out *queue
}

type queue struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool // by the writer
	gone   bool // closed by the reader
}

func newQueue() *queue {
	q := &queue{}
	q.cond = sync.NewCond(&q.mu)
	return q
}

func bufPipe() (net.Conn, net.Conn) {
	a, b := newQueue(), newQueue()
	return &bufConn{a, b}, &bufConn{b, a}
}

func (c *bufConn) Read(p []byte) (int, error) {
	q := c.in
	q.mu.Lock()
	defer q.mu.Unlock()
	for len(q.buf) == 0 && !q.closed && !q.gone {
		q.cond.Wait()
	}
	if q.gone {
		return 0, net.ErrClosed
	}
	if len(q.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(p, q.buf)
	q.buf = q.buf[n:]
	return n, nil
}

func (c *bufConn) Write(p []byte) (int, error) {
	q := c.out
	q.mu.Lock()
	defer q.mu.Unlock()
	if q.closed {
		return 0, net.ErrClosed
	}
	if q.gone {
		return 0, io.ErrClosedPipe
	}
	q.buf = append(q.buf, p...)
	q.cond.Broadcast()
	return len(p), nil
}

func (c *bufConn) Close() error {
	c.in.mu.Lock()
	c.in.gone = true
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
	c.out.mu.Lock()
	c.out.closed = true
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
	return nil
}

type addr struct{}

func (addr) Network() string { return "mem" }
func (addr) String() string  { return "mem" }

func (c *bufConn) LocalAddr() net.Addr              { return addr{} }
func (c *bufConn) RemoteAddr() net.Addr             { return addr{} }
func (c *bufConn) SetDeadline(time.Time) error      { return nil }
func (c *bufConn) SetReadDeadline(time.Time) error  { return nil }
func (c *bufConn) SetWriteDeadline(time.Time) error { return nil }
