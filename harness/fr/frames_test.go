package fr

import (
	"bytes"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/u24"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

var frameLens = pbt.Lens(600, 0, 1, 255, 256, 65535, 65536, 65537, 70000)

// ---- C08

func runFrameRoundtrip(c *pbt.Ctx, f FSpec) error {
	c.Label(f.K)
	c.NonTrivialIf(f.Meta.N+f.Data.N+f.Token.N > 0 || f.N > 0)
	fr := f.frame()
	if got, want := fr.GetStreamID(), f.Stream; got != want {
		return fmt.Errorf("frame states stream %d, built with %d", got, want)
	}
	b, err := encodeFrame(fr)
	if err != nil {
		return err
	}
	for _, dirty := range []bool{false, true} {
		dec, err := decodeFrame(bytes.Clone(b), dirty)
		if err != nil {
			return fmt.Errorf("decoding what was encoded (%s): %v", pbt.Trunc(b), err)
		}
		if err := f.vals().same(dec); err != nil {
			return fmt.Errorf("%v (bytes %s)", err, pbt.Trunc(b))
		}
		b2, err := encodeFrame(dec)
		if err != nil {
			return fmt.Errorf("encoding the decoded frame: %v", err)
		}
		if err := pbt.EqBytes("encoding the decoded frame", b2, b); err != nil {
			return err
		}
	}
	return nil
}

func TestC08(t *testing.T) {
	pbt.Check(t, "C08",
		pbt.NewPart("frame", 12000, 80000, "frame carries credit, metadata, data or a token", func(t *rapid.T) FSpec { return genFSpec(t, kinds, frameLens) }, runFrameRoundtrip),
		pbt.NewPart("large", 40, 200, "frame carries metadata or data of several MiB", func(t *rapid.T) FSpec {
			return genFSpec(t, []string{"setup", "rr", "stream", "channel", "payload", "error", "fnf"}, rapid.SampledFrom([]int{1 << 20, 0, 1<<24 - 1, 1<<23 + 1}))
		}, runFrameRoundtrip),
	)
}

// ---- C09

type hdrCase struct {
	Stream uint32
	Type   uint16
	Flags  uint16
	U      uint32
}

func runHeader(c *pbt.Ctx, h hdrCase) error {
	c.NonTrivial()
	want := append(be32(h.Stream), be16(h.Type<<10|h.Flags)...)
	nh := frames.NewFrameHeader(h.Stream, frames.FrameType(h.Type), frames.FrameFlag(h.Flags))
	var w1, w2 bytes.Buffer
	_, _ = nh.WriteTo(&w1)
	_ = frames.WriteFrameHeader(&w2, h.Stream, frames.FrameType(h.Type), frames.FrameFlag(h.Flags))
	rb := bytes.Repeat([]byte{0xa5}, 6)
	frames.ResetFrameHeader(rb, h.Stream, frames.FrameType(h.Type), frames.FrameFlag(h.Flags))
	for _, x := range []struct {
		n string
		b []byte
	}{{"NewFrameHeader", nh.Bytes()}, {"WriteTo", w1.Bytes()}, {"WriteFrameHeader", w2.Bytes()}, {"ResetFrameHeader", rb}} {
		if err := pbt.EqBytes(x.n, x.b, want); err != nil {
			return err
		}
	}
	p := frames.ParseFrameHeader(append(bytes.Clone(want), 1, 2, 3))
	if p.StreamID() != h.Stream || uint16(p.Type()) != h.Type || uint16(p.Flag()) != h.Flags {
		return fmt.Errorf("header %x parses as %s", want, p)
	}
	// The highest bit of the word is reserved and not part of the stream id.
	res := bytes.Clone(want)
	res[0] |= 0x80
	if p := frames.ParseFrameHeader(res); p.StreamID() != h.Stream || uint16(p.Type()) != h.Type || uint16(p.Flag()) != h.Flags {
		return fmt.Errorf("header %x with the reserved bit parses as %s", res, p)
	}
	for i := 0; i < 10; i++ {
		if got, want := p.Flag().Check(frames.FrameFlag(1<<i)), h.Flags>>i&1 == 1; got != want {
			return fmt.Errorf("flag %#x of %#x is %v", 1<<i, h.Flags, got)
		}
	}
	v := h.U & 0xffffff
	u := u24.MustNewUint24(v)
	if err := pbt.EqBytes("u24", u.Bytes(), be24(int(v))); err != nil {
		return err
	}
	w1.Reset()
	_, _ = u.WriteTo(&w1)
	w2.Reset()
	if err := u24.WriteUint24(&w2, v); err != nil {
		return err
	}
	if err := pbt.EqBytes("u24 WriteTo", w1.Bytes(), be24(int(v))); err != nil {
		return err
	}
	if err := pbt.EqBytes("WriteUint24", w2.Bytes(), be24(int(v))); err != nil {
		return err
	}
	if u.AsInt() != int(v) || u24.ReadUint24ToInt(be24(int(v))) != int(v) || u24.NewUint24Bytes(be24(int(v))).AsInt() != int(v) {
		return fmt.Errorf("u24 of %d reads back differently", v)
	}
	if h.U > 0xffffff {
		if _, err := u24.NewUint24(h.U); err == nil {
			return fmt.Errorf("u24 accepts %d", h.U)
		}
		if err := u24.WriteUint24(&w2, h.U); err == nil {
			return fmt.Errorf("WriteUint24 accepts %d", h.U)
		}
	}
	return nil
}

func TestC09(t *testing.T) {
	pbt.Check(t, "C09",
		pbt.NewPart("encode", 12000, 80000, "frame carries credit, metadata, data or a token", func(t *rapid.T) FSpec { return genFSpec(t, kinds, frameLens) },
			func(c *pbt.Ctx, f FSpec) error {
				c.Label(f.K)
				c.NonTrivialIf(f.Meta.N+f.Data.N+f.Token.N > 0 || f.N > 0)
				b, err := encodeFrame(f.frame())
				if err != nil {
					return err
				}
				return pbt.EqBytes(f.K+" frame encoding", b, f.wire())
			}),
		pbt.NewPart("decode", 12000, 80000, "frame carries credit, metadata, data or a token", func(t *rapid.T) FSpec {
			f := genFSpec(t, kinds, frameLens)
			switch f.K {
			case "setup", "rr", "fnf", "stream", "channel", "payload":
				f.EmptyMeta = rapid.Bool().Draw(t, "emptymeta")
			}
			if f.K == "setup" {
				f.EmptyToken = rapid.Bool().Draw(t, "emptytoken")
			}
			f.Ignore = rapid.IntRange(0, 3).Draw(t, "ignore") == 3
			return f
		}, func(c *pbt.Ctx, f FSpec) error {
			c.Label(f.K)
			if f.EmptyMeta && f.Meta.N == 0 {
				c.Label("flagged empty metadata")
			}
			c.NonTrivialIf(f.Meta.N+f.Data.N+f.Token.N > 0 || f.N > 0)
			b := f.wire()
			// The independent decoder must agree with the independent encoder.
			if v, known, err := parse(b); err != nil || !known || v.k != f.K {
				return pbt.Harness("reference parser: %v", err)
			}
			fr, err := decodeFrame(bytes.Clone(b), true)
			if err != nil {
				return fmt.Errorf("decoding specification bytes %s: %v", pbt.Trunc(b), err)
			}
			if err := f.vals().same(fr); err != nil {
				return fmt.Errorf("%v (bytes %s)", err, pbt.Trunc(b))
			}
			return nil
		}),
		pbt.NewPart("header", 5000, 50000, "every case", func(t *rapid.T) hdrCase {
			return hdrCase{genU31(t, "s"), uint16(rapid.IntRange(0, 63).Draw(t, "t")), uint16(rapid.IntRange(0, 1023).Draw(t, "f")),
				rapid.OneOf(rapid.SampledFrom([]uint32{0, 255, 256, 65535, 65536, 0xffffff, 0x1000000, 0xffffffff}), rapid.Uint32()).Draw(t, "u")}
		}, runHeader),
	)
}

// ---- C10

type mut struct {
	Op  int // 0 set, 1 truncate, 2 insert, 3 flip flag, 4 max length bytes
	Pos int
	B   byte
}

type malCase struct {
	F    *FSpec `json:",omitempty"`
	Raw  []byte `json:",omitempty"`
	Muts []mut  `json:",omitempty"`
}

func (m malCase) bytes() []byte {
	b := bytes.Clone(m.Raw)
	if m.F != nil {
		b = m.F.wire()
	}
	for _, x := range m.Muts {
		if len(b) == 0 {
			break
		}
		p := x.Pos % len(b)
		switch x.Op {
		case 0:
			b[p] = x.B
		case 1:
			b = b[:p]
		case 2:
			b = append(b[:p:p], append([]byte{x.B}, b[p:]...)...)
		case 3:
			if len(b) > 5 {
				b[4+p%2] ^= 1 << (x.B % 8)
			}
		case 4:
			for i := p; i < p+3 && i < len(b); i++ {
				b[i] = 0xff
			}
		}
	}
	return b
}

func genMal(t *rapid.T) malCase {
	var m malCase
	if rapid.IntRange(0, 9).Draw(t, "src") < 8 {
		f := genFSpec(t, kinds, pbt.Lens(40, 0, 1, 255, 256))
		if f.Token.N > 300 {
			f.Token.N = 300
		}
		if f.K != "reqn" && f.K != "cancel" && f.K != "error" {
			f.EmptyMeta = rapid.Bool().Draw(t, "em")
		}
		m.F = &f
	} else {
		m.Raw = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
	}
	for i, n := 0, rapid.SampledFrom([]int{1, 2, 0, 3}).Draw(t, "nm"); i < n; i++ {
		x := mut{Op: rapid.SampledFrom([]int{1, 0, 3, 4, 2}).Draw(t, "op"), Pos: rapid.IntRange(0, 400).Draw(t, "pos")}
		if x.Op == 1 && rapid.Bool().Draw(t, "near") {
			x.Pos = rapid.IntRange(0, 40).Draw(t, "pos2")
		}
		x.B = rapid.OneOf(rapid.SampledFrom([]byte{0, 0xff, 0x7f, 0x80, 1}), rapid.Byte()).Draw(t, "b")
		m.Muts = append(m.Muts, x)
	}
	return m
}

func runMalformed(c *pbt.Ctx, m malCase) error {
	b := m.bytes()
	if len(b) < 6 {
		c.Label("no header")
		return nil
	}
	want, known, werr := parse(b)
	if !known {
		c.Label("unknown type")
		return nil
	}
	if werr != nil {
		c.Label("malformed " + want.k)
		c.NonTrivial()
	} else {
		c.Label("well-formed")
	}
	exact := make([]byte, len(b))
	copy(exact, b)
	fr, err := decodeFrame(exact[:len(b):len(b)], false)
	// Spare capacity after the payload must not be read.
	wide := append(bytes.Clone(b), bytes.Repeat([]byte{0x41}, 512)...)
	fr2, err2 := decodeFrame(wide[:len(b)], true)
	if (err == nil) != (err2 == nil) {
		return fmt.Errorf("bytes %s: %v without, %v with spare capacity behind the frame", pbt.Trunc(b), err, err2)
	}
	if !bytes.Equal(exact, b) {
		return fmt.Errorf("decoding altered its input")
	}
	if werr != nil {
		if err == nil {
			return fmt.Errorf("%s frame %s is cut short or overruns its payload, but decoded as %+v", want.k, pbt.Trunc(b), fr)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("well-formed %s frame %s: %v", want.k, pbt.Trunc(b), err)
	}
	if err := want.same(fr); err != nil {
		return err
	}
	return want.same(fr2)
}

func runMalformedConn(c *pbt.Ctx, ms []malCase) error {
	var stream []byte
	var bodies [][]byte
	for _, m := range ms {
		b := m.bytes()
		bodies = append(bodies, b)
		stream = append(append(stream, be24(len(b))...), b...)
	}
	conn := rsocket.NewTCPConn(&chunkConn{in: stream, chunks: []int{1, 7, 1000}})
	for i, b := range bodies {
		fr, err := conn.Read()
		want, known, werr := parse(b)
		if werr != nil || !known {
			c.NonTrivial()
			if err == nil {
				return fmt.Errorf("frame %d (%s) is malformed or of an unknown type but was read as %T %+v", i, pbt.Trunc(b), fr, fr)
			}
			c.Label("rejected")
			if len(b) < 6 {
				return nil // framing may be given up here
			}
			continue
		}
		if err != nil {
			if i > 0 {
				return nil // after an error the connection may be given up
			}
			return fmt.Errorf("well-formed frame %d %s: %v", i, pbt.Trunc(b), err)
		}
		if err := want.same(fr); err != nil {
			return err
		}
	}
	return nil
}

func TestC10(t *testing.T) {
	pbt.Check(t, "C10",
		pbt.NewPart("decode", 30000, 300000, "the bytes are malformed by the independent parser", genMal, runMalformed),
		pbt.NewPart("connection", 6000, 50000, "some frame is malformed, of unknown type or shorter than a header",
			func(t *rapid.T) []malCase {
				var ms []malCase
				for i, n := 0, rapid.IntRange(1, 4).Draw(t, "n"); i < n; i++ {
					ms = append(ms, genMal(t))
				}
				return ms
			}, runMalformedConn),
		pbt.NewPart("prefixes", 2000, 20000, "every case: each strict prefix of a valid frame is tried", func(t *rapid.T) FSpec {
			f := genFSpec(t, kinds, pbt.Lens(20, 0, 1))
			if f.Token.N > 60 {
				f.Token.N = 60
			}
			return f
		}, func(c *pbt.Ctx, f FSpec) error {
			c.NonTrivial()
			c.Label(f.K)
			b := f.wire()
			for n := 6; n < len(b); n++ {
				if err := runMalformed(c, malCase{Raw: b[:n]}); err != nil {
					return err
				}
			}
			return nil
		}),
	)
}

// ---- C11

type fragCase struct {
	F   FSpec
	Max uint32
}

func runFragment(c *pbt.Ctx, fc fragCase) error {
	f := fc.F
	src := f.frame().(frames.Fragmentable)
	size := src.Size()
	meta, data := f.Meta.Bytes(), f.Data.Bytes()
	fs := src.Fragment(fc.Max)
	if size <= fc.Max {
		c.Label("fits")
		if len(fs) == 0 {
			return nil
		}
		if len(fs) != 1 {
			return fmt.Errorf("a %d byte frame was split into %d although %d fit", size, len(fs), fc.Max)
		}
		return f.vals().same(fs[0])
	}
	c.NonTrivial()
	c.Label(f.K)
	if f.Meta.N > 0 && f.Data.N > 0 {
		c.Label("metadata and data")
	}
	if len(fs) < 2 {
		return fmt.Errorf("a %d byte frame exceeds %d but was split into %d", size, fc.Max, len(fs))
	}
	var gm, gd []byte
	for i, g := range fs {
		last := i == len(fs)-1
		if g.Size() > fc.Max {
			return fmt.Errorf("fragment %d of %d has %d bytes, maximum %d", i, len(fs), g.Size(), fc.Max)
		}
		b, err := encodeFrame(g)
		if err != nil {
			return fmt.Errorf("fragment %d: %v", i, err)
		}
		v, known, err := parse(b)
		if err != nil || !known {
			return fmt.Errorf("fragment %d is no frame: %v", i, err)
		}
		if v.stream != f.Stream {
			return fmt.Errorf("fragment %d has stream %d, want %d", i, v.stream, f.Stream)
		}
		if v.follows == last {
			return fmt.Errorf("fragment %d of %d has follows=%v", i, len(fs), v.follows)
		}
		if i == 0 && f.K != "payload" {
			if v.k != f.K {
				return fmt.Errorf("first fragment of a %s request is a %s", f.K, v.k)
			}
			if (f.K == "stream" || f.K == "channel") && v.n != f.N {
				return fmt.Errorf("first fragment has credit %d, want %d", v.n, f.N)
			}
			if v.complete {
				return fmt.Errorf("first of several fragments is marked complete")
			}
		} else {
			if v.k != "payload" {
				return fmt.Errorf("fragment %d is a %s", i, v.k)
			}
			wantC := last && (f.Complete || f.K != "payload" && f.K != "channel")
			wantN := last && (f.Next || f.K != "payload")
			if v.complete != wantC || v.next != wantN {
				return fmt.Errorf("fragment %d of %d has complete=%v next=%v, want %v %v", i, len(fs), v.complete, v.next, wantC, wantN)
			}
		}
		if len(v.meta) > 0 && len(gd) > 0 {
			return fmt.Errorf("fragment %d carries metadata after data", i)
		}
		if len(v.meta)+len(v.data) == 0 {
			return fmt.Errorf("fragment %d of %d carries nothing", i, len(fs))
		}
		gm, gd = append(gm, v.meta...), append(gd, v.data...)
	}
	if err := pbt.EqBytes("reassembled metadata", gm, meta); err != nil {
		return err
	}
	if err := pbt.EqBytes("reassembled data", gd, data); err != nil {
		return err
	}
	return f.vals().same(src)
}

func TestC11(t *testing.T) {
	pbt.Check(t, "C11",
		pbt.NewPart("fragment", 20000, 150000, "the frame exceeds the maximum size", func(t *rapid.T) fragCase {
			f := genFSpec(t, []string{"payload", "channel", "stream", "rr", "fnf"}, pbt.Lens(300, 0, 1, 16, 17, 64))
			f.Follows = false
			var max uint32
			head := 6
			if f.K == "stream" || f.K == "channel" {
				head += 4
			}
			switch rapid.IntRange(0, 2).Draw(t, "mk") {
			case 0: // around sizes where a piece exactly fits
				base := rapid.SampledFrom([]int{head + 3 + f.Meta.N, head + 3 + f.Meta.N + f.Data.N, 9 + f.Meta.N, 6 + f.Data.N, head + f.Data.N, 9 + f.Meta.N/2, 6 + f.Data.N/2, 6 + f.Data.N/3}).Draw(t, "base")
				if v := base + rapid.IntRange(-3, 3).Draw(t, "d"); v >= 16 {
					max = uint32(v)
				} else {
					max = 16
				}
			case 1:
				max = uint32(rapid.IntRange(16, 40).Draw(t, "max"))
			default:
				max = uint32(rapid.IntRange(16, 700).Draw(t, "max"))
			}
			return fragCase{f, max}
		}, runFragment),
		pbt.NewPart("large", 60, 400, "the frame exceeds the maximum size", func(t *rapid.T) fragCase {
			f := genFSpec(t, []string{"payload", "channel", "stream", "rr", "fnf"}, rapid.IntRange(60000, 300000))
			f.Follows = false
			return fragCase{f, uint32(rapid.SampledFrom([]int{1024, 16 * 1024, 65535, 65536, 100000, 64}).Draw(t, "max"))}
		}, runFragment),
	)
}
