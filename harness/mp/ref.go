// Package mp holds the checks of the MessagePack packages (C01-C07).
package mp

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"time"

	"pgregory.net/rapid"
)

// W is one MessagePack value in the terms of the specification, together with
// the wire form chosen for it. It is the reference the code is compared with;
// nothing in this file uses the code under test.
type W struct {
	K string // nil bool int f32 f64 str bin arr map time ext
	N bool   `json:",omitempty"` // negative (int), true (bool)
	U uint64 `json:",omitempty"` // magnitude (int), float bits, seconds as two's complement (time)
	X uint32 `json:",omitempty"` // nanoseconds (time), extension type (ext, as uint8)
	B Blob   `json:",omitzero"`
	L []W    `json:",omitempty"` // elements; for maps key, value, key, value...
	F uint8  `json:",omitempty"` // which of the legal wire forms to use, modulo their number
}

// Blob is a byte string given by its length and a repeated pattern, so that
// long ones stay small when saved.
type Blob struct {
	Len int    `json:",omitempty"`
	Pat []byte `json:",omitempty"`
}

func (b Blob) Bytes() []byte {
	out := make([]byte, b.Len)
	if len(b.Pat) > 0 {
		for i := range out {
			out[i] = b.Pat[i%len(b.Pat)] + byte(i/len(b.Pat)%7)
		}
	}
	return out
}

func genBlob(t *rapid.T, big bool) Blob {
	lens := []*rapid.Generator[int]{rapid.IntRange(0, 40), rapid.SampledFrom([]int{0, 1, 15, 16, 31, 32, 33, 127, 128, 254, 255, 256, 257})}
	if big && rapid.IntRange(0, 9).Draw(t, "big") == 0 {
		lens = []*rapid.Generator[int]{rapid.SampledFrom([]int{65534, 65535, 65536, 65537, 70000})}
	}
	return Blob{rapid.OneOf(lens...).Draw(t, "len"), rapid.SliceOfN(rapid.Byte(), 1, 5).Draw(t, "pat")}
}

// genInt draws a magnitude and sign with weight on the boundaries of every width.
func genIntMag(t *rapid.T) (neg bool, mag uint64) {
	switch rapid.IntRange(0, 2).Draw(t, "ik") {
	case 0:
		b := rapid.SampledFrom([]uint64{0, 1, 31, 32, 33, 127, 128, 129, 255, 256, 32767, 32768, 32769, 65535, 65536,
			1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64}).Draw(t, "edge")
		neg = rapid.Bool().Draw(t, "neg")
		mag = b
	case 1:
		bits := rapid.IntRange(0, 64).Draw(t, "bits")
		mag = rapid.Uint64().Draw(t, "u")
		if bits < 64 {
			mag &= 1<<bits - 1
		}
		neg = rapid.Bool().Draw(t, "neg")
	default:
		mag = uint64(rapid.IntRange(0, 300).Draw(t, "small"))
		neg = rapid.Bool().Draw(t, "neg")
	}
	if mag == 0 {
		neg = false
	}
	if neg && mag > 1<<63 {
		mag = 1 << 63
	}
	return
}

func genSecs(t *rapid.T) int64 {
	return rapid.OneOf(
		rapid.SampledFrom([]int64{0, -1, 1, 1<<32 - 1, 1 << 32, 1<<34 - 1, 1 << 34, 1<<34 + 1, -62135596800, -1 << 33, 1 << 40}),
		rapid.Int64Range(-1<<36, 1<<36),
		rapid.Int64Range(0, 1<<32),
	).Draw(t, "secs")
}

func genNanos(t *rapid.T) uint32 {
	return rapid.OneOf(rapid.SampledFrom([]uint32{0, 1, 999999999, 1 << 29}), rapid.Uint32Range(0, 999999999)).Draw(t, "ns")
}

func be16(v uint64) []byte { return binary.BigEndian.AppendUint16(nil, uint16(v)) }
func be32(v uint64) []byte { return binary.BigEndian.AppendUint32(nil, uint32(v)) }
func be64(v uint64) []byte { return binary.BigEndian.AppendUint64(nil, v) }

func cat(parts ...[]byte) []byte { return bytes.Join(parts, nil) }

// header lists the legal headers for a length, most compact first.
func lenForms(n uint64, fix byte, fixMax uint64, c8 byte, c16, c32 byte) [][]byte {
	var f [][]byte
	if fixMax > 0 && n < fixMax {
		f = append(f, []byte{fix | byte(n)})
	}
	if c8 != 0 && n <= math.MaxUint8 {
		f = append(f, []byte{c8, byte(n)})
	}
	if n <= math.MaxUint16 {
		f = append(f, cat([]byte{c16}, be16(n)))
	}
	return append(f, cat([]byte{c32}, be32(n)))
}

// Forms lists every legal encoding of the header (or the whole scalar) of w.
func (w W) forms() [][]byte {
	switch w.K {
	case "nil":
		return [][]byte{{0xc0}}
	case "bool":
		if w.N {
			return [][]byte{{0xc3}}
		}
		return [][]byte{{0xc2}}
	case "int":
		var f [][]byte
		if !w.N {
			if w.U <= 127 {
				f = append(f, []byte{byte(w.U)})
			}
			if w.U <= math.MaxUint8 {
				f = append(f, []byte{0xcc, byte(w.U)})
			}
			if w.U <= math.MaxUint16 {
				f = append(f, cat([]byte{0xcd}, be16(w.U)))
			}
			if w.U <= math.MaxUint32 {
				f = append(f, cat([]byte{0xce}, be32(w.U)))
			}
			f = append(f, cat([]byte{0xcf}, be64(w.U)))
			if w.U > math.MaxInt64 {
				return f
			}
		}
		s := int64(w.U)
		if w.N {
			s = int64(-w.U)
			if s >= -32 {
				f = append(f, []byte{byte(s)})
			}
		}
		if s >= math.MinInt8 && s <= math.MaxInt8 {
			f = append(f, []byte{0xd0, byte(s)})
		}
		if s >= math.MinInt16 && s <= math.MaxInt16 {
			f = append(f, cat([]byte{0xd1}, be16(uint64(s))))
		}
		if s >= math.MinInt32 && s <= math.MaxInt32 {
			f = append(f, cat([]byte{0xd2}, be32(uint64(s))))
		}
		return append(f, cat([]byte{0xd3}, be64(uint64(s))))
	case "f32":
		return [][]byte{cat([]byte{0xca}, be32(w.U))}
	case "f64":
		return [][]byte{cat([]byte{0xcb}, be64(w.U))}
	case "str":
		return lenForms(uint64(w.B.Len), 0xa0, 32, 0xd9, 0xda, 0xdb)
	case "bin":
		return lenForms(uint64(w.B.Len), 0, 0, 0xc4, 0xc5, 0xc6)
	case "arr":
		return lenForms(uint64(len(w.L)), 0x90, 16, 0, 0xdc, 0xdd)
	case "map":
		return lenForms(uint64(len(w.L)/2), 0x80, 16, 0, 0xde, 0xdf)
	case "time":
		secs, ns := int64(w.U), uint64(w.X)
		var f [][]byte
		if ns == 0 && secs >= 0 && secs <= math.MaxUint32 {
			f = append(f, cat([]byte{0xd6, 0xff}, be32(uint64(secs))))
		}
		if secs >= 0 && secs < 1<<34 {
			f = append(f, cat([]byte{0xd7, 0xff}, be64(ns<<34|uint64(secs))))
		}
		return append(f, cat([]byte{0xc7, 12, 0xff}, be32(ns), be64(uint64(secs))))
	case "ext":
		n := uint64(w.B.Len)
		var f [][]byte
		if c, ok := map[uint64]byte{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}[n]; ok {
			f = append(f, []byte{c, byte(w.X)})
		}
		if n <= math.MaxUint8 {
			f = append(f, []byte{0xc7, byte(n), byte(w.X)})
		}
		if n <= math.MaxUint16 {
			f = append(f, cat([]byte{0xc8}, be16(n), []byte{byte(w.X)}))
		}
		return append(f, cat([]byte{0xc9}, be32(n), []byte{byte(w.X)}))
	}
	panic("bad kind " + w.K)
}

// Encode appends the wire bytes of w.
func (w W) Encode(out []byte) []byte {
	f := w.forms()
	out = append(out, f[int(w.F)%len(f)]...)
	switch w.K {
	case "str", "bin", "ext":
		out = append(out, w.B.Bytes()...)
	case "arr", "map":
		for _, e := range w.L {
			out = e.Encode(out)
		}
	}
	return out
}

// D is a decoded reference value.
type D struct {
	K   string
	Neg bool
	U   uint64
	X   uint32
	B   []byte
	L   []D
}

// refDecode is an independent decoder of one value; it accepts exactly what the
// specification allows.
func refDecode(b []byte) (d D, rest []byte, err error) {
	need := func(n int) ([]byte, error) {
		if len(b) < n {
			return nil, fmt.Errorf("short: need %d have %d", n, len(b))
		}
		r := b[:n]
		b = b[n:]
		return r, nil
	}
	num := func(n int) (uint64, error) {
		r, err := need(n)
		if err != nil {
			return 0, err
		}
		var v uint64
		for _, x := range r {
			v = v<<8 | uint64(x)
		}
		return v, nil
	}
	c, err := num(1)
	if err != nil {
		return d, b, err
	}
	blob := func(kind string, n uint64) (D, []byte, error) {
		if n > uint64(len(b)) {
			return D{}, b, fmt.Errorf("short %s of %d", kind, n)
		}
		r, _ := need(int(n))
		return D{K: kind, B: r}, b, nil
	}
	items := func(kind string, n uint64) (D, []byte, error) {
		d := D{K: kind}
		for i := uint64(0); i < n; i++ {
			var e D
			var err error
			e, b, err = refDecode(b)
			if err != nil {
				return d, b, err
			}
			d.L = append(d.L, e)
		}
		return d, b, nil
	}
	ext := func(n uint64) (D, []byte, error) {
		t, err := num(1)
		if err != nil {
			return D{}, b, err
		}
		d, r, err := blob("ext", n)
		d.X = uint32(t)
		if err == nil && t == 0xff {
			switch len(d.B) {
			case 4:
				return D{K: "time", U: uint64(binary.BigEndian.Uint32(d.B))}, r, nil
			case 8:
				v := binary.BigEndian.Uint64(d.B)
				return D{K: "time", U: v & (1<<34 - 1), X: uint32(v >> 34)}, r, nil
			case 12:
				return D{K: "time", U: binary.BigEndian.Uint64(d.B[4:]), X: binary.BigEndian.Uint32(d.B)}, r, nil
			}
			return d, r, fmt.Errorf("timestamp of %d bytes", len(d.B))
		}
		return d, r, err
	}
	sized := func(w int, f func(uint64) (D, []byte, error)) (D, []byte, error) {
		n, err := num(w)
		if err != nil {
			return D{}, b, err
		}
		return f(n)
	}
	signed := func(w int) (D, []byte, error) {
		v, err := num(w)
		s := int64(v<<(64-8*w)) >> (64 - 8*w)
		return intD(s), b, err
	}
	unsigned := func(w int) (D, []byte, error) {
		v, err := num(w)
		return D{K: "int", U: v}, b, err
	}
	float := func(k string, w int) (D, []byte, error) {
		v, err := num(w)
		return D{K: k, U: v}, b, err
	}
	kind := func(k string) func(uint64) (D, []byte, error) {
		return func(n uint64) (D, []byte, error) { return blob(k, n) }
	}
	arr := func(n uint64) (D, []byte, error) { return items("arr", n) }
	mp := func(n uint64) (D, []byte, error) { return items("map", 2*n) }
	switch {
	case c <= 0x7f:
		return D{K: "int", U: c}, b, nil
	case c <= 0x8f:
		return mp(c & 15)
	case c <= 0x9f:
		return arr(c & 15)
	case c <= 0xbf:
		return blob("str", c&31)
	case c >= 0xe0:
		return intD(int64(int8(c))), b, nil
	}
	switch c {
	case 0xc0:
		return D{K: "nil"}, b, nil
	case 0xc2:
		return D{K: "bool"}, b, nil
	case 0xc3:
		return D{K: "bool", Neg: true}, b, nil
	case 0xc4:
		return sized(1, kind("bin"))
	case 0xc5:
		return sized(2, kind("bin"))
	case 0xc6:
		return sized(4, kind("bin"))
	case 0xc7:
		return sized(1, ext)
	case 0xc8:
		return sized(2, ext)
	case 0xc9:
		return sized(4, ext)
	case 0xca:
		return float("f32", 4)
	case 0xcb:
		return float("f64", 8)
	case 0xcc:
		return unsigned(1)
	case 0xcd:
		return unsigned(2)
	case 0xce:
		return unsigned(4)
	case 0xcf:
		return unsigned(8)
	case 0xd0:
		return signed(1)
	case 0xd1:
		return signed(2)
	case 0xd2:
		return signed(4)
	case 0xd3:
		return signed(8)
	case 0xd4:
		return ext(1)
	case 0xd5:
		return ext(2)
	case 0xd6:
		return ext(4)
	case 0xd7:
		return ext(8)
	case 0xd8:
		return ext(16)
	case 0xd9:
		return sized(1, kind("str"))
	case 0xda:
		return sized(2, kind("str"))
	case 0xdb:
		return sized(4, kind("str"))
	case 0xdc:
		return sized(2, arr)
	case 0xdd:
		return sized(4, arr)
	case 0xde:
		return sized(2, mp)
	case 0xdf:
		return sized(4, mp)
	}
	return d, b, fmt.Errorf("bad code %#x", c)
}

func intD(v int64) D {
	if v < 0 {
		return D{K: "int", Neg: true, U: uint64(-v)}
	}
	return D{K: "int", U: uint64(v)}
}

// D of a generated wire value.
func (w W) D() D {
	d := D{K: w.K, Neg: w.N, U: w.U, X: w.X}
	switch w.K {
	case "str", "bin", "ext":
		d.B = w.B.Bytes()
	}
	for _, e := range w.L {
		d.L = append(d.L, e.D())
	}
	return d
}

func (d D) float() (float64, bool) {
	switch d.K {
	case "f32":
		return float64(math.Float32frombits(uint32(d.U))), true
	case "f64":
		return math.Float64frombits(d.U), true
	}
	return 0, false
}

func (d D) String() string {
	switch d.K {
	case "str", "bin", "ext":
		if len(d.B) > 20 {
			return fmt.Sprintf("%s(%d bytes %x...)", d.K, len(d.B), d.B[:20])
		}
		return fmt.Sprintf("%s(%x)", d.K, d.B)
	case "arr", "map":
		s := d.K + "["
		for i, e := range d.L {
			if i > 8 {
				s += "..."
				break
			}
			s += e.String() + " "
		}
		return s + "]"
	}
	return fmt.Sprintf("%s(neg=%v %d %d)", d.K, d.Neg, d.U, d.X)
}

// eqD compares two values up to numeric width; maps as sets of pairs.
func eqD(a, b D) bool {
	if fa, ok := a.float(); ok {
		fb, ok := b.float()
		return ok && (fa == fb && math.Signbit(fa) == math.Signbit(fb) || fa != fa && fb != fb)
	}
	if a.K != b.K || a.Neg != b.Neg || a.U != b.U || a.X != b.X || !bytes.Equal(a.B, b.B) || len(a.L) != len(b.L) {
		return false
	}
	if a.K == "map" {
		used := make([]bool, len(b.L)/2)
	next:
		for i := 0; i < len(a.L); i += 2 {
			for j := 0; j < len(b.L); j += 2 {
				if !used[j/2] && eqD(a.L[i], b.L[j]) && eqD(a.L[i+1], b.L[j+1]) {
					used[j/2] = true
					continue next
				}
			}
			return false
		}
		return true
	}
	for i := range a.L {
		if !eqD(a.L[i], b.L[i]) {
			return false
		}
	}
	return true
}

// goD turns a Go value returned by a dynamic read into a reference value.
func goD(v any) (D, error) {
	switch x := v.(type) {
	case nil:
		return D{K: "nil"}, nil
	case bool:
		return D{K: "bool", Neg: x}, nil
	case int:
		return intD(int64(x)), nil
	case int8:
		return intD(int64(x)), nil
	case int16:
		return intD(int64(x)), nil
	case int32:
		return intD(int64(x)), nil
	case int64:
		return intD(x), nil
	case uint:
		return D{K: "int", U: uint64(x)}, nil
	case uint8:
		return D{K: "int", U: uint64(x)}, nil
	case uint16:
		return D{K: "int", U: uint64(x)}, nil
	case uint32:
		return D{K: "int", U: uint64(x)}, nil
	case uint64:
		return D{K: "int", U: x}, nil
	case float32:
		return D{K: "f32", U: uint64(math.Float32bits(x))}, nil
	case float64:
		return D{K: "f64", U: math.Float64bits(x)}, nil
	case string:
		return D{K: "str", B: []byte(x)}, nil
	case []byte:
		return D{K: "bin", B: x}, nil
	case time.Time:
		return D{K: "time", U: uint64(x.Unix()), X: uint32(x.Nanosecond())}, nil
	case []any:
		d := D{K: "arr"}
		for _, e := range x {
			ed, err := goD(e)
			if err != nil {
				return d, err
			}
			d.L = append(d.L, ed)
		}
		return d, nil
	case map[any]any:
		d := D{K: "map"}
		for k, e := range x {
			kd, err := goD(k)
			if err != nil {
				return d, err
			}
			ed, err := goD(e)
			if err != nil {
				return d, err
			}
			d.L = append(d.L, kd, ed)
		}
		return d, nil
	}
	return D{}, fmt.Errorf("unexpected dynamic type %T", v)
}

func genForm(t *rapid.T) uint8 {
	if rapid.Bool().Draw(t, "wide") {
		return uint8(rapid.IntRange(0, 8).Draw(t, "form"))
	}
	return 0
}

// genW draws a wire value. ext allows extension types other than timestamps;
// hashable restricts map keys to what a Go map can hold.
func genW(t *rapid.T, depth int, ext, hashable bool) W {
	kinds := []string{"nil", "bool", "int", "int", "f32", "f64", "str", "bin", "time"}
	if ext {
		kinds = append(kinds, "ext", "ext")
	}
	if depth > 0 {
		kinds = append(kinds, "arr", "map", "arr", "map")
	}
	w := W{K: rapid.SampledFrom(kinds).Draw(t, "k"), F: genForm(t)}
	return fillW(t, w, depth, ext, hashable)
}

func fillW(t *rapid.T, w W, depth int, ext, hashable bool) W {
	switch w.K {
	case "bool":
		w.N = rapid.Bool().Draw(t, "b")
	case "int":
		w.N, w.U = genIntMag(t)
	case "f32":
		w.U = uint64(math.Float32bits(rapid.Float32().Draw(t, "f")))
	case "f64":
		w.U = math.Float64bits(rapid.Float64().Draw(t, "f"))
	case "str", "bin":
		w.B = genBlob(t, depth >= 2)
	case "time":
		w.U, w.X = uint64(genSecs(t)), genNanos(t)
	case "ext":
		w.B = genBlob(t, false)
		if rapid.Bool().Draw(t, "fixext") {
			w.B.Len = rapid.SampledFrom([]int{1, 2, 4, 8, 16}).Draw(t, "el")
		}
		w.X = uint32(rapid.SampledFrom([]int{0, 1, 5, 42, 127, 128, 200, 254}).Draw(t, "et"))
	case "arr":
		n := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(14, 18)).Draw(t, "n")
		if n > 4 {
			depth = 1
		}
		for i := 0; i < n; i++ {
			w.L = append(w.L, genW(t, depth-1, ext, hashable))
		}
	case "map":
		n := rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(14, 18)).Draw(t, "n")
		if n > 3 {
			depth = 1
		}
		var keys []D
	keyLoop:
		for i := 0; i < n; i++ {
			var k W
			if hashable {
				k = fillW(t, W{K: rapid.SampledFrom([]string{"str", "int", "bool", "str", "int", "f64", "nil"}).Draw(t, "kk"), F: genForm(t)}, 0, false, true)
			} else {
				k = genW(t, depth-1, ext, hashable)
			}
			kd := k.D()
			if f, ok := kd.float(); ok && (f != f || f == 0) {
				k.U = math.Float64bits(1.5 + float64(i))
				k.K = "f64"
				kd = k.D()
			}
			for _, o := range keys {
				if eqD(o, kd) {
					continue keyLoop
				}
			}
			keys = append(keys, kd)
			w.L = append(w.L, k, genW(t, depth-1, ext, hashable))
		}
	}
	return w
}
