package fr

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"runtime"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// chunkConn serves reads from in, in chunks of the given sizes (repeated), and
// collects what is written.
type chunkConn struct {
	in     []byte
	chunks []int
	i      int
	mu     sync.Mutex
	out    bytes.Buffer
	yield  bool
	end    bool // the last bytes come together with the end
}

func (c *chunkConn) Read(p []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if len(c.chunks) > 0 {
		n = min(n, max(1, c.chunks[c.i%len(c.chunks)]))
		c.i++
	}
	n = copy(p[:n], c.in)
	c.in = c.in[n:]
	if c.end && len(c.in) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func (c *chunkConn) Write(p []byte) (int, error) {
	if c.yield {
		runtime.Gosched()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.out.Write(p)
}
func (c *chunkConn) Close() error                     { return nil }
func (c *chunkConn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *chunkConn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *chunkConn) SetDeadline(time.Time) error      { return nil }
func (c *chunkConn) SetReadDeadline(time.Time) error  { return nil }
func (c *chunkConn) SetWriteDeadline(time.Time) error { return nil }

type tcpCase struct {
	F      []FSpec
	Flush  []bool // flush after frame i; the end is always flushed
	Chunks []int
	Cut    int  // bytes missing at the end of the stream
	End    bool // the last bytes come together with the end, as they can with TLS
}

var connLens = pbt.Lens(600, 0, 1, 4000, 8180, 8191, 8192, 8193, 20000, 70000)

func genTCP(t *rapid.T) tcpCase {
	var c tcpCase
	for i, n := 0, rapid.IntRange(1, 8).Draw(t, "n"); i < n; i++ {
		c.F = append(c.F, genFSpec(t, kinds, connLens))
		c.Flush = append(c.Flush, rapid.Bool().Draw(t, "flush"))
	}
	c.Chunks = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 12), rapid.SampledFrom([]int{1, 2, 3, 4, 100, 4096, 8192, 100000})), 1, 5).Draw(t, "chunks")
	if rapid.IntRange(0, 3).Draw(t, "cutq") == 0 {
		c.Cut = rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 2000)).Draw(t, "cut")
	}
	c.End = rapid.Bool().Draw(t, "end")
	return c
}

func runTCP(c *pbt.Ctx, tc tcpCase) error {
	cc := &chunkConn{}
	w := rsocket.NewTCPConn(cc)
	var want []byte
	var ends []int
	for i, f := range tc.F {
		if err := w.Write(f.frame()); err != nil {
			return fmt.Errorf("write: %v", err)
		}
		b := f.wire()
		want = append(append(want, be24(len(b))...), b...)
		ends = append(ends, len(want))
		if tc.Flush[i] || i == len(tc.F)-1 {
			if err := w.Flush(); err != nil {
				return fmt.Errorf("flush: %v", err)
			}
			if err := pbt.EqBytes(fmt.Sprintf("bytes on the wire after flushing frame %d", i), cc.out.Bytes(), want); err != nil {
				return err
			}
		}
	}
	stream := want
	if tc.Cut > 0 {
		stream = stream[:max(0, len(stream)-tc.Cut)]
		c.Label("cut")
	}
	full := 0
	for full < len(ends) && ends[full] <= len(stream) {
		full++
	}
	c.NonTrivialIf(len(tc.F) > 1)
	r := rsocket.NewTCPConn(&chunkConn{in: bytes.Clone(stream), chunks: tc.Chunks, end: tc.End})
	var got []frames.Frame
	for {
		f, err := r.Read()
		if err != nil {
			break
		}
		got = append(got, f)
		if len(got) > len(tc.F) {
			return fmt.Errorf("more frames were read than written")
		}
	}
	if len(got) != full {
		return fmt.Errorf("%d frames are complete in the stream, %d were delivered", full, len(got))
	}
	// Compared only now, after everything else was read.
	for i, f := range got {
		if err := tc.F[i].vals().same(f); err != nil {
			return fmt.Errorf("frame %d of %d: %v", i, len(got), err)
		}
	}
	return nil
}

// yieldFrame hands over the processor while it is being written, so that
// another writer can get in between if nothing keeps it out.
type yieldFrame struct{ frames.Frame }

func (y yieldFrame) Size() uint32 {
	runtime.Gosched()
	return y.Frame.Size()
}

func (y yieldFrame) Encode(b []byte) {
	for i := 0; i < 3; i++ {
		runtime.Gosched()
	}
	y.Frame.Encode(b)
}

type concCase struct {
	W      [][]pbt.Blob // per writer: the data of its payload frames
	Chunks []int
}

func runConcurrent(c *pbt.Ctx, cc concCase) error {
	c.NonTrivialIf(len(cc.W) > 1)
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	w, r := rsocket.NewTCPConn(a), rsocket.NewTCPConn(b)
	gate := pbt.NewGate(len(cc.W))
	errs := make(chan error, len(cc.W))
	total := 0
	for wi, msgs := range cc.W {
		total += len(msgs)
		gate.Go(func() {
			errs <- pbt.Safely(func() error {
				for i, m := range msgs {
					f := yieldFrame{&frames.Payload{StreamID: uint32(wi*1000 + i + 1), Data: m.Bytes(), Next: true}}
					if err := w.Write(f); err != nil {
						return fmt.Errorf("write: %v", err)
					}
					if err := w.Flush(); err != nil {
						return fmt.Errorf("flush: %v", err)
					}
				}
				return nil
			})
		})
	}
	go func() { gate.Wait(); a.Close() }()
	gate.Open()
	next := make([]int, len(cc.W))
	var rerr error
	n := 0
	var got []frames.Frame
	for {
		f, err := r.Read()
		if err != nil {
			if err != io.EOF && err != io.ErrClosedPipe {
				rerr = fmt.Errorf("reading frame %d: %v", n, err)
			}
			break
		}
		n++
		got = append(got, f)
	}
	b.Close()
	gate.Wait()
	if rerr != nil {
		return rerr
	}
	for range cc.W {
		if err := <-errs; err != nil {
			return err
		}
	}
	for _, f := range got {
		p, ok := f.(*frames.Payload)
		if !ok {
			return fmt.Errorf("a frame arrived as %T", f)
		}
		wi, i := int(p.StreamID-1)/1000, int(p.StreamID-1)%1000
		if wi >= len(next) || i != next[wi] {
			return fmt.Errorf("frame of stream %d out of order or unknown (next of writer %d expected)", p.StreamID, wi)
		}
		next[wi]++
		if err := pbt.EqBytes("data", p.Data, cc.W[wi][i].Bytes()); err != nil {
			return err
		}
	}
	if n != total {
		return fmt.Errorf("%d frames written, %d arrived", total, n)
	}
	return nil
}

func TestC14(t *testing.T) {
	pbt.Check(t, "C14",
		pbt.NewPart("chunked", 4000, 30000, "several frames in one stream", genTCP, runTCP),
		pbt.NewPart("concurrent", 400, 4000, "several writers at once", func(t *rapid.T) concCase {
			var c concCase
			for i, n := 0, rapid.IntRange(2, 6).Draw(t, "w"); i < n; i++ {
				var ms []pbt.Blob
				for j, m := 0, rapid.IntRange(1, 30).Draw(t, "m"); j < m; j++ {
					ms = append(ms, pbt.GenBlob(t, pbt.Lens(3000, 8192, 9000)))
				}
				c.W = append(c.W, ms)
			}
			return c
		}, runConcurrent),
		pbt.NewPart("huge", 4, 20, "frames close to the 24-bit length limit", func(t *rapid.T) tcpCase {
			n := rapid.SampledFrom([]int{1<<24 - 1 - 6, 1<<24 - 2 - 6, 1<<23 + 5, 1 << 22}).Draw(t, "n")
			return tcpCase{F: []FSpec{{K: "payload", Stream: 5, Data: pbt.Blob{N: n, S: 3}, Next: true}, {K: "payload", Stream: 6, Data: pbt.Blob{N: 9, S: 3}}},
				Flush: []bool{false, true}, Chunks: []int{65536, 100000}}
		}, runTCP),
	)
}
