//go:build verif

package wasm

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// Frame types and flags, per https://rsocket.io/about/protocol.
const (
	tSetup    = 1
	tRR       = 4
	tFNF      = 5
	tRS       = 6
	tRC       = 7
	tRequestN = 8
	tCancel   = 9
	tPayload  = 10
	tError    = 11

	fMetadata = 1 << 8
	fFollows  = 1 << 7
	fComplete = 1 << 6
	fNext     = 1 << 5
)

var typeNames = map[int]string{tSetup: "SETUP", tRR: "REQUEST_RESPONSE", tFNF: "REQUEST_FNF", tRS: "REQUEST_STREAM",
	tRC: "REQUEST_CHANNEL", tRequestN: "REQUEST_N", tCancel: "CANCEL", tPayload: "PAYLOAD", tError: "ERROR"}

// wire is a frame as the peer of an endpoint writes and reads it.
type wire struct {
	Type   int
	Flags  int
	Stream uint32
	N      uint32 // credit or error code
	Meta   []byte
	Data   []byte
}

func (f wire) String() string {
	return fmt.Sprintf("%s stream %d n %d flags %#x", typeNames[f.Type], f.Stream, f.N, f.Flags)
}

func (f wire) bytes() []byte {
	b := binary.BigEndian.AppendUint32(nil, f.Stream)
	flags := f.Flags
	withMeta := f.Type >= tRR && f.Type <= tRC || f.Type == tPayload
	if withMeta && f.Meta != nil {
		flags |= fMetadata
	}
	b = binary.BigEndian.AppendUint16(b, uint16(f.Type<<10|flags))
	switch f.Type {
	case tSetup:
		b = append(b, 0, 0, 0, 2)                         // version
		b = append(b, 0, 0, 0x4e, 0x20, 0, 1, 0x5f, 0x90) // keepalive
		b = append(b, 0, 0)                               // mime types
		return append(b, f.Data...)
	case tRS, tRC, tRequestN, tError:
		b = binary.BigEndian.AppendUint32(b, f.N)
	}
	if withMeta && f.Meta != nil {
		b = append(b, byte(len(f.Meta)>>16), byte(len(f.Meta)>>8), byte(len(f.Meta)))
		b = append(b, f.Meta...)
	}
	if f.Type == tRequestN || f.Type == tCancel {
		return b
	}
	return append(b, f.Data...)
}

var errFrame = errors.New("malformed frame")

func parse(b []byte) (f wire, err error) {
	if len(b) < 6 {
		return f, errFrame
	}
	f.Stream = binary.BigEndian.Uint32(b)
	tf := int(binary.BigEndian.Uint16(b[4:]))
	f.Type, f.Flags = tf>>10, tf&0x3ff
	b = b[6:]
	if typeNames[f.Type] == "" {
		return f, fmt.Errorf("%w: type %d", errFrame, f.Type)
	}
	switch f.Type {
	case tRS, tRC, tRequestN, tError:
		if len(b) < 4 {
			return f, errFrame
		}
		f.N = binary.BigEndian.Uint32(b)
		b = b[4:]
	}
	if f.Type != tSetup && f.Flags&fMetadata != 0 {
		if len(b) < 3 {
			return f, errFrame
		}
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		b = b[3:]
		if len(b) < n {
			return f, errFrame
		}
		f.Meta, b = b[:n], b[n:]
	}
	f.Data = b
	return f, nil
}

// framed puts the frames' lengths before them.
func framed(fs ...wire) []byte {
	var out []byte
	for _, f := range fs {
		b := f.bytes()
		out = append(append(out, byte(len(b)>>16), byte(len(b)>>8), byte(len(b))), b...)
	}
	return out
}

// unframed takes a buffer apart.
func unframed(b []byte) ([]wire, error) {
	var out []wire
	for len(b) > 0 {
		if len(b) < 3 {
			return out, fmt.Errorf("%w: %d bytes are left", errFrame, len(b))
		}
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		b = b[3:]
		if n > len(b) {
			return out, fmt.Errorf("%w: %d bytes of %d", errFrame, len(b), n)
		}
		f, err := parse(b[:n])
		if err != nil {
			return out, err
		}
		out = append(out, f)
		b = b[n:]
	}
	return out, nil
}
