package fr

import (
	"bytes"
	"errors"
	"fmt"
	"time"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// FSpec describes one frame by the values it carries.
type FSpec struct {
	K        string // setup rr fnf stream channel reqn cancel payload error
	Stream   uint32 `json:",omitempty"`
	N        uint32 `json:",omitempty"` // credit or error code
	Major    uint16 `json:",omitempty"`
	Minor    uint16 `json:",omitempty"`
	KeepMS   uint32 `json:",omitempty"`
	LifeMS   uint32 `json:",omitempty"`
	Token    pbt.Blob
	MimeM    pbt.Blob
	MimeD    pbt.Blob
	Meta     pbt.Blob
	Data     pbt.Blob
	Follows  bool `json:",omitempty"`
	Complete bool `json:",omitempty"`
	Next     bool `json:",omitempty"`
	Lease    bool `json:",omitempty"`
	// Decode only: legal wire forms the encoder does not produce itself.
	EmptyMeta  bool `json:",omitempty"`
	EmptyToken bool `json:",omitempty"`
	Ignore     bool `json:",omitempty"`
}

var kinds = []string{"setup", "rr", "fnf", "stream", "channel", "reqn", "cancel", "payload", "error"}

var typeOf = map[string]uint16{"setup": 1, "rr": 4, "fnf": 5, "stream": 6, "channel": 7, "reqn": 8, "cancel": 9, "payload": 10, "error": 11}
var kindOf = map[uint16]string{1: "setup", 4: "rr", 5: "fnf", 6: "stream", 7: "channel", 8: "reqn", 9: "cancel", 10: "payload", 11: "error"}

func genU31(t *rapid.T, l string) uint32 {
	return rapid.OneOf(rapid.Uint32Range(0, 300), rapid.SampledFrom([]uint32{0, 1, 0x7fffffff, 0x7ffffffe, 0x01020304, 0x40000000}), rapid.Uint32Range(0, 0x7fffffff)).Draw(t, l)
}

func genU16(t *rapid.T, l string) uint16 {
	return uint16(rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 65535)).Draw(t, l))
}

func genFSpec(t *rapid.T, ks []string, lens *rapid.Generator[int]) FSpec {
	f := FSpec{K: rapid.SampledFrom(ks).Draw(t, "k")}
	if f.K != "setup" {
		f.Stream = genU31(t, "stream")
	}
	switch f.K {
	case "setup":
		f.Major, f.Minor = genU16(t, "major"), genU16(t, "minor")
		f.KeepMS, f.LifeMS = genU31(t, "keep"), genU31(t, "life")
		f.Lease = rapid.Bool().Draw(t, "lease")
		f.MimeM = pbt.GenBlob(t, pbt.Lens(255, 0, 1, 127, 128, 254, 255))
		f.MimeD = pbt.GenBlob(t, pbt.Lens(255, 0, 1, 127, 128, 254, 255))
		f.Token = pbt.GenBlob(t, rapid.OneOf(rapid.Just(0), pbt.Lens(300, 0, 1, 255, 256, 32767, 32768, 65535)))
	case "stream", "channel", "reqn":
		f.N = genU31(t, "n")
	case "error":
		f.N = rapid.OneOf(rapid.SampledFrom([]uint32{1, 2, 3, 4, 0x101, 0x102, 0x201, 0x202, 0x203, 0x204, 0, 0x301, 0xffffffff}), rapid.Uint32()).Draw(t, "code")
		f.Data = pbt.GenBlob(t, lens)
	}
	switch f.K {
	case "setup", "rr", "fnf", "stream", "channel", "payload":
		f.Meta = pbt.GenBlob(t, lens)
		f.Data = pbt.GenBlob(t, lens)
	}
	switch f.K {
	case "rr", "fnf", "stream", "channel", "payload":
		f.Follows = rapid.Bool().Draw(t, "follows")
	}
	if f.K == "channel" || f.K == "payload" {
		f.Complete = rapid.Bool().Draw(t, "complete")
	}
	if f.K == "payload" {
		f.Next = rapid.Bool().Draw(t, "next")
	}
	return f
}

// frame builds the library's frame.
func (f FSpec) frame() frames.Frame {
	switch f.K {
	case "setup":
		return &frames.Setup{MajorVersion: f.Major, MinorVersion: f.Minor,
			TimeBetweenKeepalive: time.Duration(f.KeepMS) * time.Millisecond, MaxLifetime: time.Duration(f.LifeMS) * time.Millisecond,
			Token: f.Token.Bytes(), MimeMetadata: string(f.MimeM.Bytes()), MimeData: string(f.MimeD.Bytes()),
			Metadata: f.Meta.Bytes(), Data: f.Data.Bytes(), Lease: f.Lease}
	case "rr", "fnf", "stream", "channel":
		n := f.N
		if f.K == "rr" || f.K == "fnf" {
			n = 1
		}
		return &frames.RequestPayload{FrameType: frames.FrameType(typeOf[f.K]), StreamID: f.Stream, Metadata: f.Meta.Bytes(), Data: f.Data.Bytes(),
			Follows: f.Follows, Complete: f.Complete || f.K != "channel", InitialN: n}
	case "reqn":
		return &frames.RequestN{StreamID: f.Stream, N: f.N}
	case "cancel":
		return &frames.Cancel{StreamID: f.Stream}
	case "payload":
		return &frames.Payload{StreamID: f.Stream, Metadata: f.Meta.Bytes(), Data: f.Data.Bytes(), Follows: f.Follows, Complete: f.Complete, Next: f.Next}
	case "error":
		return &frames.Error{StreamID: f.Stream, Code: frames.ErrCode(f.N), Data: string(f.Data.Bytes())}
	}
	panic(&pbt.ErrHarness{Msg: "kind " + f.K})
}

// empty returns a fresh or a dirty frame of the kind to decode into.
func newFrame(k string, dirty bool) frames.Frame {
	junk := []byte("junk junk")
	switch k {
	case "setup":
		if dirty {
			return &frames.Setup{MajorVersion: 9, MinorVersion: 9, TimeBetweenKeepalive: 9, MaxLifetime: 9, Token: junk, MimeMetadata: "x", MimeData: "y", Metadata: junk, Data: junk, Lease: true}
		}
		return &frames.Setup{}
	case "rr", "fnf", "stream", "channel":
		if dirty {
			return &frames.RequestPayload{FrameType: 1, StreamID: 9, Metadata: junk, Data: junk, Follows: true, Complete: true, InitialN: 77}
		}
		return &frames.RequestPayload{}
	case "reqn":
		if dirty {
			return &frames.RequestN{StreamID: 9, N: 99}
		}
		return &frames.RequestN{}
	case "cancel":
		if dirty {
			return &frames.Cancel{StreamID: 9}
		}
		return &frames.Cancel{}
	case "payload":
		if dirty {
			return &frames.Payload{StreamID: 9, Metadata: junk, Data: junk, Follows: true, Complete: true, Next: true}
		}
		return &frames.Payload{}
	case "error":
		if dirty {
			return &frames.Error{StreamID: 9, Code: 9, Data: "zzz"}
		}
		return &frames.Error{}
	}
	panic(&pbt.ErrHarness{Msg: "kind " + k})
}

// ---- an independent implementation of the RSocket frame layout

const (
	flNext = 0x20
	flC    = 0x40
	flF    = 0x80
	flM    = 0x100
	flI    = 0x200
)

func be16(v uint16) []byte { return []byte{byte(v >> 8), byte(v)} }
func be24(v int) []byte    { return []byte{byte(v >> 16), byte(v >> 8), byte(v)} }
func be32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// wire is the specification's encoding of the frame.
func (f FSpec) wire() []byte {
	var fl uint16
	hasMeta := f.Meta.N > 0 || f.EmptyMeta
	if hasMeta {
		fl |= flM
	}
	if f.Follows {
		fl |= flF
	}
	if f.Complete {
		fl |= flC
	}
	if f.Next {
		fl |= flNext
	}
	if f.Ignore {
		fl |= flI
	}
	hasToken := f.Token.N > 0 || f.EmptyToken
	if f.K == "setup" {
		if hasToken {
			fl |= flF
		}
		if f.Lease {
			fl |= flC
		}
	}
	out := be32(f.Stream)
	out = append(out, be16(typeOf[f.K]<<10|fl)...)
	switch f.K {
	case "setup":
		out = append(out, be16(f.Major)...)
		out = append(out, be16(f.Minor)...)
		out = append(out, be32(f.KeepMS)...)
		out = append(out, be32(f.LifeMS)...)
		if hasToken {
			out = append(out, be16(uint16(f.Token.N))...)
			out = append(out, f.Token.Bytes()...)
		}
		out = append(append(out, byte(f.MimeM.N)), f.MimeM.Bytes()...)
		out = append(append(out, byte(f.MimeD.N)), f.MimeD.Bytes()...)
	case "stream", "channel", "reqn", "error":
		out = append(out, be32(f.N)...)
	}
	if hasMeta {
		out = append(append(out, be24(f.Meta.N)...), f.Meta.Bytes()...)
	}
	return append(out, f.Data.Bytes()...)
}

// vals are the values carried by wire bytes.
type vals struct {
	k                             string
	stream, n, keep, life         uint32
	major, minor                  uint16
	token, mimeM, mimeD           []byte
	meta, data                    []byte
	follows, complete, next, leas bool
}

var errShort = errors.New("frame too short")

// parse is an independent decoder; known is false for frame types outside the library's set.
func parse(b []byte) (v vals, known bool, err error) {
	if len(b) < 6 {
		return v, true, errShort
	}
	tf := uint16(b[4])<<8 | uint16(b[5])
	v.k = kindOf[tf>>10]
	if v.k == "" {
		return v, false, nil
	}
	take := func(n int) (x []byte) {
		if err != nil || n > len(b) {
			err = errShort
			return make([]byte, n&0xffff)
		}
		x, b = b[:n], b[n:]
		return x
	}
	u32 := func(x []byte) uint32 {
		return uint32(x[0])<<24 | uint32(x[1])<<16 | uint32(x[2])<<8 | uint32(x[3])
	}
	v.stream = u32(b) & 0x7fffffff
	b = b[6:]
	switch v.k {
	case "setup":
		v.stream = 0
		x := take(12)
		v.major, v.minor = uint16(x[0])<<8|uint16(x[1]), uint16(x[2])<<8|uint16(x[3])
		v.keep, v.life = u32(x[4:]), u32(x[8:])
		if tf&flF != 0 {
			x := take(2)
			v.token = take(int(x[0])<<8 | int(x[1]))
		}
		v.mimeM = take(int(take(1)[0]))
		v.mimeD = take(int(take(1)[0]))
		v.leas = tf&flC != 0
	case "stream", "channel", "reqn", "error":
		v.n = u32(take(4))
	}
	switch v.k {
	case "setup", "rr", "fnf", "stream", "channel", "payload":
		if tf&flM != 0 {
			x := take(3)
			v.meta = take(int(x[0])<<16 | int(x[1])<<8 | int(x[2]))
		}
		v.data = b
	case "error":
		v.data = b
	}
	switch v.k {
	case "rr", "fnf", "stream", "channel", "payload":
		v.follows = tf&flF != 0
	}
	switch v.k {
	case "channel", "payload":
		v.complete = tf&flC != 0
	}
	v.next = v.k == "payload" && tf&flNext != 0
	return v, true, err
}

func (f FSpec) vals() vals {
	return vals{k: f.K, stream: f.Stream, n: f.N, keep: f.KeepMS, life: f.LifeMS, major: f.Major, minor: f.Minor,
		token: f.Token.Bytes(), mimeM: f.MimeM.Bytes(), mimeD: f.MimeD.Bytes(), meta: f.Meta.Bytes(), data: f.Data.Bytes(),
		follows: f.Follows, complete: f.Complete, next: f.Next, leas: f.Lease}
}

// same compares a decoded library frame with the values it must carry.
func (v vals) same(fr frames.Frame) error {
	var bad []string
	ne := func(name string, a, b any) {
		if a != b {
			bad = append(bad, fmt.Sprintf("%s is %v, want %v", name, a, b))
		}
	}
	by := func(name string, a, b []byte) {
		if !bytes.Equal(a, b) {
			bad = append(bad, pbt.EqBytes(name, a, b).Error())
		}
	}
	if fr == nil {
		return errors.New("no frame")
	}
	ne("type", uint16(fr.Type()), typeOf[v.k])
	ne("stream", fr.GetStreamID(), v.stream)
	switch g := fr.(type) {
	case *frames.Setup:
		ne("kind", "setup", v.k)
		ne("major", g.MajorVersion, v.major)
		ne("minor", g.MinorVersion, v.minor)
		ne("keepalive", g.TimeBetweenKeepalive, time.Duration(v.keep)*time.Millisecond)
		ne("lifetime", g.MaxLifetime, time.Duration(v.life)*time.Millisecond)
		by("token", g.Token, v.token)
		by("metadata mime", []byte(g.MimeMetadata), v.mimeM)
		by("data mime", []byte(g.MimeData), v.mimeD)
		by("metadata", g.Metadata, v.meta)
		by("data", g.Data, v.data)
		ne("lease", g.Lease, v.leas)
	case *frames.RequestPayload:
		ne("stream field", g.StreamID, v.stream)
		by("metadata", g.Metadata, v.meta)
		by("data", g.Data, v.data)
		ne("follows", g.Follows, v.follows)
		switch v.k {
		case "channel":
			ne("complete", g.Complete, v.complete)
			fallthrough
		case "stream":
			ne("initial n", g.InitialN, v.n)
		case "rr", "fnf":
		default:
			ne("kind", "request", v.k)
		}
	case *frames.RequestN:
		ne("kind", "reqn", v.k)
		ne("n", g.N, v.n)
	case *frames.Cancel:
		ne("kind", "cancel", v.k)
	case *frames.Payload:
		ne("kind", "payload", v.k)
		by("metadata", g.Metadata, v.meta)
		by("data", g.Data, v.data)
		ne("follows", g.Follows, v.follows)
		ne("complete", g.Complete, v.complete)
		ne("next", g.Next, v.next)
	case *frames.Error:
		ne("kind", "error", v.k)
		ne("code", uint32(g.Code), v.n)
		by("error text", []byte(g.Data), v.data)
	default:
		return fmt.Errorf("unexpected frame %T", fr)
	}
	if len(bad) > 0 {
		return fmt.Errorf("%s frame: %v", v.k, bad)
	}
	return nil
}

// encodeFrame encodes into a buffer of exactly the stated size, prefilled so
// that bytes left unwritten show, with guard bytes that must stay as they are.
func encodeFrame(fr frames.Frame) ([]byte, error) {
	size := int(fr.Size())
	var outs [2][]byte
	for i, fill := range []byte{0x55, 0xaa} {
		buf := bytes.Repeat([]byte{fill}, size+16)
		if i == 0 {
			fr.Encode(buf[8 : 8+size : 8+size])
		} else {
			fr.Encode(buf[8 : 8+size])
		}
		if !bytes.Equal(buf[:8], bytes.Repeat([]byte{fill}, 8)) || !bytes.Equal(buf[8+size:], bytes.Repeat([]byte{fill}, 8)) {
			return nil, fmt.Errorf("encoding wrote outside its %d byte buffer", size)
		}
		outs[i] = buf[8 : 8+size]
	}
	if err := pbt.EqBytes("bytes left unwritten in a buffer of the stated size", outs[1], outs[0]); err != nil {
		return nil, err
	}
	return outs[0], nil
}

func decodeFrame(b []byte, dirty bool) (frames.Frame, error) {
	h := frames.ParseFrameHeader(b)
	k := kindOf[uint16(h.Type())]
	if k == "" {
		return nil, fmt.Errorf("type %d", h.Type())
	}
	fr := newFrame(k, dirty)
	return fr, fr.Decode(&h, b[frames.FrameHeaderLen:])
}
