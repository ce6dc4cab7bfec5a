package mp

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// ---- C40

type curOp struct {
	K string
	V uint64 // value, or length
}

type curCase struct {
	Buf pbt.Blob
	Ops []curOp
}

var curWidth = map[string]int{"i8": 1, "i16": 2, "i32": 4, "i64": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "f32": 4, "f64": 8}
var curTypes = []string{"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64"}

func curGet(d *msgpack.DataReader, k string) (uint64, error) {
	switch k {
	case "i8":
		v, err := d.GetInt8()
		return uint64(uint8(v)), err
	case "i16":
		v, err := d.GetInt16()
		return uint64(uint16(v)), err
	case "i32":
		v, err := d.GetInt32()
		return uint64(uint32(v)), err
	case "i64":
		v, err := d.GetInt64()
		return uint64(v), err
	case "u8":
		v, err := d.GetUint8()
		return uint64(v), err
	case "u16":
		v, err := d.GetUint16()
		return uint64(v), err
	case "u32":
		v, err := d.GetUint32()
		return uint64(v), err
	case "u64":
		return d.GetUint64()
	case "f32":
		v, err := d.GetFloat32()
		return uint64(math.Float32bits(v)), err
	case "f64":
		v, err := d.GetFloat64()
		return math.Float64bits(v), err
	}
	panic(pbt.Harness("type %q", k))
}

func curSet(d *msgpack.DataReader, k string, v uint64) error {
	switch k {
	case "i8":
		return d.SetInt8(int8(v))
	case "i16":
		return d.SetInt16(int16(v))
	case "i32":
		return d.SetInt32(int32(v))
	case "i64":
		return d.SetInt64(int64(v))
	case "u8":
		return d.SetUint8(uint8(v))
	case "u16":
		return d.SetUint16(uint16(v))
	case "u32":
		return d.SetUint32(uint32(v))
	case "u64":
		return d.SetUint64(v)
	case "f32":
		return d.SetFloat32(math.Float32frombits(uint32(v)))
	case "f64":
		return d.SetFloat64(math.Float64frombits(v))
	}
	panic(pbt.Harness("type %q", k))
}

func runCursor(c *pbt.Ctx, cc curCase) error {
	const guard = 16
	// The buffer lies inside a larger one, which nothing may touch.
	mem := bytes.Repeat([]byte{0xa5}, cc.Buf.N+2*guard)
	buf := mem[guard : guard+cc.Buf.N]
	copy(buf, cc.Buf.Bytes())
	model := bytes.Clone(mem)
	want := model[guard : guard+cc.Buf.N]
	d := msgpack.NewDataReader(buf)
	off, failed, did := 0, false, 0
	for i, o := range cc.Ops {
		need := uint64(o.V)
		if w, ok := curWidth[o.K[1:]]; ok {
			need = uint64(w)
		}
		switch o.K {
		case "peek":
			need = 1
		case "put":
			if need = uint64(uint32(o.V) % 64); o.V >= 10000 {
				need = uint64(uint32(o.V))
			}
		}
		fits := !failed && need <= uint64(len(want)-off)
		var err error
		var bad error
		switch o.K {
		case "peek":
			var v uint8
			if v, err = d.PeekUint8(); fits && v != want[off] {
				bad = fmt.Errorf("peeked %d", v)
			}
		case "discard":
			if err = d.Discard(uint32(need)); fits {
				off += int(need)
			}
		case "bytes":
			var v []byte
			if v, err = d.GetBytes(uint32(need)); fits {
				if !bytes.Equal(v, want[off:off+int(need)]) {
					bad = fmt.Errorf("read %s, want %s", pbt.Trunc(v), pbt.Trunc(want[off:off+int(need)]))
				}
				off += int(need)
			}
		case "put":
			src := pbt.Blob{N: int(need), S: uint32(o.V)}.Bytes()
			if err = d.SetBytes(src); fits {
				copy(want[off:], src)
				off += int(need)
			}
		default:
			k := o.K[1:]
			if o.K[0] == 'g' {
				var v uint64
				if v, err = curGet(&d, k); fits {
					x := binary.BigEndian.Uint64(append(make([]byte, 8-need), want[off:off+int(need)]...))
					if v != x {
						bad = fmt.Errorf("read %#x, want %#x", v, x)
					}
					off += int(need)
				}
			} else if err = curSet(&d, k, o.V); fits {
				x := binary.BigEndian.AppendUint64(nil, o.V)
				copy(want[off:], x[8-need:])
				off += int(need)
			}
		}
		if bad != nil {
			return fmt.Errorf("step %d (%s): %w", i, o.K, bad)
		}
		if fits != (err == nil) {
			return fmt.Errorf("step %d (%s) of %d bytes at %d of %d, failed before: %v, returned %v", i, o.K, need, off, len(want), failed, err)
		}
		if err != nil && !errors.Is(err, msgpack.ErrRange) {
			return fmt.Errorf("step %d (%s): %v, want a range error", i, o.K, err)
		}
		if fits {
			did++
		} else {
			failed = true
		}
		if failed != (d.Err() != nil) {
			return fmt.Errorf("step %d (%s): Err is %v after failure: %v", i, o.K, d.Err(), failed)
		}
		if err := pbt.EqBytes("the memory", mem, model); err != nil {
			return fmt.Errorf("step %d (%s): %w", i, o.K, err)
		}
	}
	if failed {
		c.Label("ran out")
	}
	c.NonTrivialIf(did > 1 && failed)
	return nil
}

func TestC40(t *testing.T) {
	var ks []string
	for _, k := range curTypes {
		ks = append(ks, "g"+k, "s"+k)
	}
	ks = append(ks, "peek", "discard", "bytes", "put", "peek", "discard", "bytes", "put")
	pbt.Check(t, "C40",
		pbt.NewPart("cursor", 20000, 500000, "two steps or more fit and one does not", func(t *rapid.T) curCase {
			cc := curCase{Buf: pbt.GenBlob(t, rapid.IntRange(0, 40))}
			large := rapid.IntRange(0, 60).Draw(t, "large") == 0
			if large {
				cc.Buf.N = rapid.IntRange(65530, 200000).Draw(t, "size")
			}
			for i, n := 0, rapid.IntRange(1, 16).Draw(t, "n"); i < n; i++ {
				o := curOp{K: rapid.SampledFrom(ks).Draw(t, "k")}
				if o.K == "discard" || o.K == "bytes" {
					o.V = uint64(rapid.OneOf(rapid.Uint32Range(0, 9), rapid.SampledFrom([]uint32{1<<32 - 1, 1<<32 - 2, 1<<32 - 9, 1 << 31, 40})).Draw(t, "l"))
				} else if o.K == "put" {
					o.V = uint64(rapid.Uint32Range(0, 9).Draw(t, "l")) + 64*uint64(rapid.Uint32Range(0, 99).Draw(t, "s"))
				} else {
					o.V = rapid.Uint64().Draw(t, "v")
				}
				if large && rapid.IntRange(0, 2).Draw(t, "far") == 0 {
					o.K = rapid.SampledFrom([]string{"discard", "bytes", "put"}).Draw(t, "farK")
					o.V = uint64(rapid.SampledFrom([]uint32{65535, 65536, 65537, 65540, 70000, 131072, 255, 256, 32768, 1000}).Draw(t, "farL"))
				}
				cc.Ops = append(cc.Ops, o)
			}
			return cc
		}, runCursor))
}
