package mp

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"time"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// Op is one typed write (and its matching read).
type Op struct {
	K      string   // bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 str bytes time arr map nil slice tmap codec any
	E      string   `json:",omitempty"` // element kind of slice / value kind of tmap
	Nil    bool     `json:",omitempty"` // use the optional form
	Absent bool     `json:",omitempty"`
	U      uint64   `json:",omitempty"` // raw bits of the value; headers: the count
	X      uint32   `json:",omitempty"`
	B      pbt_Blob `json:",omitzero"`
	L      []Op     `json:",omitempty"`
	V      *Val     `json:",omitempty"`
}

type pbt_Blob = Blob

var scalarKinds = []string{"bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "str", "bytes", "time"}

func signExt(u uint64, bits int) int64 { return int64(u<<(64-bits)) >> (64 - bits) }

func (o Op) time() time.Time { return time.Unix(int64(o.U), int64(o.X)) }

func genScalar(t *rapid.T, kind string, big bool) Op {
	o := Op{K: kind}
	switch kind {
	case "bool":
		o.U = uint64(rapid.IntRange(0, 1).Draw(t, "b"))
	case "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64":
		neg, mag := genIntMag(t)
		if neg {
			mag = -mag
		}
		bits := map[string]int{"i8": 8, "i16": 16, "i32": 32, "i64": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64}[kind]
		o.U = mag
		if bits < 64 {
			o.U &= 1<<bits - 1
		}
	case "f32":
		o.U = uint64(math.Float32bits(rapid.OneOf(rapid.Float32(), rapid.SampledFrom([]float32{0, float32(math.Inf(1)), float32(math.NaN()), math.SmallestNonzeroFloat32, math.MaxFloat32})).Draw(t, "f")))
	case "f64":
		o.U = math.Float64bits(rapid.OneOf(rapid.Float64(), rapid.SampledFrom([]float64{0, math.Inf(-1), math.NaN(), math.SmallestNonzeroFloat64, math.MaxFloat64})).Draw(t, "f"))
	case "str", "bytes":
		o.B = genBlob(t, big)
	case "time":
		o.U, o.X = uint64(genSecs(t)), genNanos(t)
	}
	return o
}

func genOp(t *rapid.T, depth int) Op {
	kinds := append([]string{"arr", "map", "nil"}, scalarKinds...)
	if depth > 0 {
		kinds = append(kinds, "slice", "tmap", "codec", "any", "slice", "tmap", "codec")
	}
	k := rapid.SampledFrom(kinds).Draw(t, "op")
	switch k {
	case "nil":
		return Op{K: "nil"}
	case "arr", "map":
		return Op{K: k, U: rapid.OneOf(rapid.SampledFrom([]uint64{0, 1, 14, 15, 16, 17, 255, 256, 65534, 65535, 65536, math.MaxUint32}), rapid.Uint64Range(0, 100000)).Draw(t, "n")}
	case "slice", "tmap":
		o := Op{K: k, E: rapid.SampledFrom(scalarKinds).Draw(t, "elem")}
		n := rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(14, 18)).Draw(t, "n")
		if rapid.IntRange(0, 60).Draw(t, "huge") == 0 {
			n = rapid.SampledFrom([]int{1023, 1024, 1025, 3000}).Draw(t, "hn")
			o.X = uint32(n) // repeated element, see elems
			o.L = []Op{genScalar(t, o.E, false)}
			return o
		}
		for i := 0; i < n; i++ {
			o.L = append(o.L, genScalar(t, o.E, false))
		}
		return o
	case "codec":
		o := Op{K: k, Nil: rapid.Bool().Draw(t, "opt")}
		if o.Nil && rapid.Bool().Draw(t, "absent") {
			o.Absent = true
			return o
		}
		n := rapid.IntRange(0, 4).Draw(t, "n")
		for i := 0; i < n; i++ {
			o.L = append(o.L, genOp(t, depth-1))
		}
		return o
	case "any":
		v := genVal(t, 1)
		return Op{K: k, V: &v}
	}
	o := genScalar(t, k, true)
	o.Nil = rapid.Bool().Draw(t, "opt")
	o.Absent = o.Nil && rapid.Bool().Draw(t, "absent")
	return o
}

func genOps(t *rapid.T, max int) []Op {
	n := rapid.IntRange(1, max).Draw(t, "ops")
	ops := make([]Op, n)
	for i := range ops {
		ops[i] = genOp(t, 2)
	}
	return ops
}

// elems expands the elements of a slice or map op.
func (o Op) elems() []Op {
	if o.X == 0 || len(o.L) != 1 {
		return o.L
	}
	out := make([]Op, o.X)
	for i := range out {
		out[i] = o.L[0]
		if o.E == "u64" || o.E == "u32" || o.E == "u16" {
			out[i].U = uint64(i)
		}
	}
	return out
}

func ptr[T any](v T) *T { return &v }

func opt[T any](o Op, v T) *T {
	if o.Absent {
		return nil
	}
	return &v
}

// opCodec makes a list of ops a user codec.
type opCodec struct{ ops []Op }

func (c *opCodec) Encode(w msgpack.Writer) error {
	for _, o := range c.ops {
		if err := o.write(w); err != nil {
			return err
		}
	}
	return w.Err()
}

func (c *opCodec) Decode(r msgpack.Reader) error {
	for i, o := range c.ops {
		if err := o.read(r); err != nil {
			return fmt.Errorf("op %d (%s): %w", i, o.K, err)
		}
	}
	return nil
}

func (o Op) write(w msgpack.Writer) error {
	if o.Nil {
		switch o.K {
		case "bool":
			w.WriteNillableBool(opt(o, o.U == 1))
		case "i8":
			w.WriteNillableInt8(opt(o, int8(o.U)))
		case "i16":
			w.WriteNillableInt16(opt(o, int16(o.U)))
		case "i32":
			w.WriteNillableInt32(opt(o, int32(o.U)))
		case "i64":
			w.WriteNillableInt64(opt(o, int64(o.U)))
		case "u8":
			w.WriteNillableUint8(opt(o, uint8(o.U)))
		case "u16":
			w.WriteNillableUint16(opt(o, uint16(o.U)))
		case "u32":
			w.WriteNillableUint32(opt(o, uint32(o.U)))
		case "u64":
			w.WriteNillableUint64(opt(o, o.U))
		case "f32":
			w.WriteNillableFloat32(opt(o, math.Float32frombits(uint32(o.U))))
		case "f64":
			w.WriteNillableFloat64(opt(o, math.Float64frombits(o.U)))
		case "str":
			w.WriteNillableString(opt(o, string(o.B.Bytes())))
		case "bytes":
			if o.Absent {
				w.WriteNillableByteArray(nil)
			} else {
				w.WriteNillableByteArray(o.B.Bytes())
			}
		case "time":
			w.WriteNillableTime(opt(o, o.time()))
		case "codec":
			if o.Absent {
				w.WriteNil()
				return w.Err()
			}
			return (&opCodec{o.L}).Encode(w)
		default:
			return pbt.Harness("no nillable %s", o.K)
		}
		return w.Err()
	}
	switch o.K {
	case "nil":
		w.WriteNil()
	case "arr":
		w.WriteArraySize(uint32(o.U))
	case "map":
		w.WriteMapSize(uint32(o.U))
	case "slice":
		return msgpack.WriteSlice(w, o.elems(), func(w msgpack.Writer, e Op) { _ = e.writeScalar(w) })
	case "tmap":
		m := map[int]Op{}
		for i, e := range o.elems() {
			m[i] = e
		}
		return msgpack.WriteMap(w, m, func(w msgpack.Writer, k int) { w.WriteInt32(int32(k)) }, func(w msgpack.Writer, e Op) { _ = e.writeScalar(w) })
	case "codec":
		return (&opCodec{o.L}).Encode(w)
	case "any":
		w.WriteAny(o.V.Go())
	default:
		return o.writeScalar(w)
	}
	return w.Err()
}

func (o Op) writeScalar(w msgpack.Writer) error {
	switch o.K {
	case "bool":
		w.WriteBool(o.U == 1)
	case "i8":
		w.WriteInt8(int8(o.U))
	case "i16":
		w.WriteInt16(int16(o.U))
	case "i32":
		w.WriteInt32(int32(o.U))
	case "i64":
		w.WriteInt64(int64(o.U))
	case "u8":
		w.WriteUint8(uint8(o.U))
	case "u16":
		w.WriteUint16(uint16(o.U))
	case "u32":
		w.WriteUint32(uint32(o.U))
	case "u64":
		w.WriteUint64(o.U)
	case "f32":
		w.WriteFloat32(math.Float32frombits(uint32(o.U)))
	case "f64":
		w.WriteFloat64(math.Float64frombits(o.U))
	case "str":
		w.WriteString(string(o.B.Bytes()))
	case "bytes":
		w.WriteByteArray(o.B.Bytes())
	case "time":
		w.WriteTime(o.time())
	default:
		return pbt.Harness("op %s", o.K)
	}
	return w.Err()
}

func cmpNil[T any](o Op, v *T, err error, eq func(T) error) error {
	if err != nil {
		return err
	}
	if (v == nil) != o.Absent {
		return fmt.Errorf("%s: absent=%v but written absent=%v", o.K, v == nil, o.Absent)
	}
	if v == nil {
		return nil
	}
	return eq(*v)
}

func eq[T comparable](o Op, want T) func(T) error {
	return func(got T) error {
		if got != want {
			return fmt.Errorf("%s: read %v, want %v", o.K, got, want)
		}
		return nil
	}
}

func eqf32(o Op) func(float32) error {
	return func(got float32) error {
		want := math.Float32frombits(uint32(o.U))
		if math.Float32bits(got) != uint32(o.U) && !(got != got && want != want) {
			return fmt.Errorf("f32: read %v, want %v", got, want)
		}
		return nil
	}
}

func eqf64(o Op) func(float64) error {
	return func(got float64) error {
		want := math.Float64frombits(o.U)
		if math.Float64bits(got) != o.U && !(got != got && want != want) {
			return fmt.Errorf("f64: read %v, want %v", got, want)
		}
		return nil
	}
}

func eqtime(o Op) func(time.Time) error {
	return func(got time.Time) error {
		if !got.Equal(o.time()) {
			return fmt.Errorf("time: read %v, want %v", got.UTC(), o.time().UTC())
		}
		return nil
	}
}

func check[T any](v T, err error, eq func(T) error) error {
	if err != nil {
		return fmt.Errorf("read failed: %w", err)
	}
	return eq(v)
}

// read reads the value of o back and compares it.
func (o Op) read(r msgpack.Reader) error {
	if o.Nil {
		switch o.K {
		case "bool":
			v, err := r.ReadNillableBool()
			return cmpNil(o, v, err, eq(o, o.U == 1))
		case "i8":
			v, err := r.ReadNillableInt8()
			return cmpNil(o, v, err, eq(o, int8(o.U)))
		case "i16":
			v, err := r.ReadNillableInt16()
			return cmpNil(o, v, err, eq(o, int16(o.U)))
		case "i32":
			v, err := r.ReadNillableInt32()
			return cmpNil(o, v, err, eq(o, int32(o.U)))
		case "i64":
			v, err := r.ReadNillableInt64()
			return cmpNil(o, v, err, eq(o, int64(o.U)))
		case "u8":
			v, err := r.ReadNillableUint8()
			return cmpNil(o, v, err, eq(o, uint8(o.U)))
		case "u16":
			v, err := r.ReadNillableUint16()
			return cmpNil(o, v, err, eq(o, uint16(o.U)))
		case "u32":
			v, err := r.ReadNillableUint32()
			return cmpNil(o, v, err, eq(o, uint32(o.U)))
		case "u64":
			v, err := r.ReadNillableUint64()
			return cmpNil(o, v, err, eq(o, o.U))
		case "f32":
			v, err := r.ReadNillableFloat32()
			return cmpNil(o, v, err, eqf32(o))
		case "f64":
			v, err := r.ReadNillableFloat64()
			return cmpNil(o, v, err, eqf64(o))
		case "str":
			v, err := r.ReadNillableString()
			return cmpNil(o, v, err, eq(o, string(o.B.Bytes())))
		case "bytes":
			v, err := r.ReadNillableByteArray()
			if err != nil {
				return err
			}
			if (v == nil) != o.Absent {
				return fmt.Errorf("bytes: absent=%v but written absent=%v", v == nil, o.Absent)
			}
			if o.Absent {
				return nil
			}
			return pbt.EqBytes("bytes", v, o.B.Bytes())
		case "time":
			v, err := r.ReadNillableTime()
			return cmpNil(o, v, err, eqtime(o))
		case "codec":
			if o.Absent {
				v, err := msgpack.DecodeNillable[opCodec](r)
				if err != nil {
					return err
				}
				if v != nil {
					return errors.New("codec present but written absent")
				}
				return nil
			}
			// The first op of a present codec must not itself encode to nil,
			// or presence is ambiguous on the wire.
			if len(o.L) == 0 || o.firstIsNil() {
				return (&opCodec{o.L}).Decode(r)
			}
			cur.ops = o.L
			v, err := msgpack.DecodeNillable[ctxCodec](r)
			if err != nil {
				return err
			}
			if v == nil {
				return errors.New("codec absent but written present")
			}
			return nil
		}
		return pbt.Harness("no nillable %s", o.K)
	}
	switch o.K {
	case "nil":
		n, err := r.IsNextNil()
		return check(n, err, eq(o, true))
	case "arr":
		v, err := r.ReadArraySize()
		return check(v, err, eq(o, uint32(o.U)))
	case "map":
		v, err := r.ReadMapSize()
		return check(v, err, eq(o, uint32(o.U)))
	case "slice":
		want := o.elems()
		i := 0
		v, err := msgpack.ReadSlice(r, func(r msgpack.Reader) (int, error) {
			if i >= len(want) {
				return 0, fmt.Errorf("slice has more than %d elements", len(want))
			}
			e := want[i]
			i++
			return i, e.readScalar(r)
		})
		if err != nil {
			return err
		}
		if len(v) != len(want) {
			return fmt.Errorf("slice of %d elements, want %d", len(v), len(want))
		}
		for j := range v {
			if v[j] != j+1 {
				return fmt.Errorf("slice element %d is the %d-th read", j, v[j])
			}
		}
		return nil
	case "tmap":
		want := o.elems()
		var key int32
		m, err := msgpack.ReadMap(r, func(r msgpack.Reader) (int32, error) {
			k, err := r.ReadInt32()
			key = k
			return k, err
		}, func(r msgpack.Reader) (int32, error) {
			if key < 0 || int(key) >= len(want) {
				return 0, fmt.Errorf("map key %d of %d", key, len(want))
			}
			return key * 3, want[key].readScalar(r)
		})
		if err != nil {
			return err
		}
		if len(m) != len(want) {
			return fmt.Errorf("map of %d entries, want %d", len(m), len(want))
		}
		for k, v := range m {
			if v != k*3 {
				return fmt.Errorf("map entry %d has the value of %d", k, v/3)
			}
		}
		return nil
	case "codec":
		cur.ops = o.L
		_, err := msgpack.Decode[ctxCodec](r)
		return err
	case "any":
		v, err := r.ReadAny()
		if err != nil {
			return fmt.Errorf("any: %w", err)
		}
		got, err := goD(v)
		if err != nil {
			return err
		}
		if want := o.V.D(); !eqD(got, want) {
			return fmt.Errorf("any: read %v, want %v", got, want)
		}
		return nil
	}
	return o.readScalar(r)
}

func (o Op) firstIsNil() bool {
	f := o.L[0]
	switch f.K {
	case "nil":
		return true
	case "codec":
		return f.Absent || len(f.L) == 0 || f.firstIsNil()
	case "any":
		return f.V.D().K == "nil" || f.V.D().K == "raw"
	}
	return f.Absent
}

// ctxCodec lets the generic Decode helpers, which build a zero value, know what
// to expect. Cases run one at a time.
var cur opCodec

type ctxCodec struct{}

func (*ctxCodec) Encode(w msgpack.Writer) error { return nil }
func (*ctxCodec) Decode(r msgpack.Reader) error { c := cur; return c.Decode(r) }

func (o Op) readScalar(r msgpack.Reader) error {
	switch o.K {
	case "bool":
		v, err := r.ReadBool()
		return check(v, err, eq(o, o.U == 1))
	case "i8":
		v, err := r.ReadInt8()
		return check(v, err, eq(o, int8(o.U)))
	case "i16":
		v, err := r.ReadInt16()
		return check(v, err, eq(o, int16(o.U)))
	case "i32":
		v, err := r.ReadInt32()
		return check(v, err, eq(o, int32(o.U)))
	case "i64":
		v, err := r.ReadInt64()
		return check(v, err, eq(o, int64(o.U)))
	case "u8":
		v, err := r.ReadUint8()
		return check(v, err, eq(o, uint8(o.U)))
	case "u16":
		v, err := r.ReadUint16()
		return check(v, err, eq(o, uint16(o.U)))
	case "u32":
		v, err := r.ReadUint32()
		return check(v, err, eq(o, uint32(o.U)))
	case "u64":
		v, err := r.ReadUint64()
		return check(v, err, eq(o, o.U))
	case "f32":
		v, err := r.ReadFloat32()
		return check(v, err, eqf32(o))
	case "f64":
		v, err := r.ReadFloat64()
		return check(v, err, eqf64(o))
	case "str":
		v, err := r.ReadString()
		return check(v, err, eq(o, string(o.B.Bytes())))
	case "bytes":
		v, err := r.ReadByteArray()
		if err != nil {
			return fmt.Errorf("read failed: %w", err)
		}
		return pbt.EqBytes("bytes", v, o.B.Bytes())
	case "time":
		v, err := r.ReadTime()
		return check(v, err, eqtime(o))
	}
	return pbt.Harness("op %s", o.K)
}

// D lists the wire values the op stands for (several for a codec).
func (o Op) D() []D {
	if o.Absent {
		return []D{{K: "nil"}}
	}
	switch o.K {
	case "nil":
		return []D{{K: "nil"}}
	case "bool":
		return []D{{K: "bool", Neg: o.U == 1}}
	case "i8":
		return []D{intD(signExt(o.U, 8))}
	case "i16":
		return []D{intD(signExt(o.U, 16))}
	case "i32":
		return []D{intD(signExt(o.U, 32))}
	case "i64":
		return []D{intD(int64(o.U))}
	case "u8", "u16", "u32", "u64":
		return []D{{K: "int", U: o.U}}
	case "f32", "f64":
		return []D{{K: o.K, U: o.U}}
	case "str":
		return []D{{K: "str", B: o.B.Bytes()}}
	case "bytes":
		return []D{{K: "bin", B: o.B.Bytes()}}
	case "time":
		return []D{{K: "time", U: o.U, X: o.X}}
	case "slice":
		d := D{K: "arr"}
		for _, e := range o.elems() {
			d.L = append(d.L, e.D()...)
		}
		return []D{d}
	case "tmap":
		d := D{K: "map"}
		for i, e := range o.elems() {
			d.L = append(d.L, intD(int64(i)))
			d.L = append(d.L, e.D()...)
		}
		return []D{d}
	case "codec":
		var out []D
		for _, e := range o.L {
			out = append(out, e.D()...)
		}
		return out
	case "any":
		return []D{o.V.D()}
	}
	panic(pbt.Harness("no D for %s", o.K))
}

func hasHeader(ops []Op) bool {
	for _, o := range ops {
		if o.K == "arr" || o.K == "map" || hasHeader(o.L) {
			return true
		}
	}
	return false
}

func encodeOps(ops []Op) ([]byte, uint32, error) {
	c := &opCodec{ops}
	s := msgpack.NewSizer()
	if err := c.Encode(&s); err != nil {
		return nil, 0, fmt.Errorf("sizing: %w", err)
	}
	buf := make([]byte, s.Len())
	e := msgpack.NewEncoder(buf)
	if err := c.Encode(&e); err != nil {
		return nil, s.Len(), fmt.Errorf("encoding into the computed size %d: %w", s.Len(), err)
	}
	return buf, s.Len(), nil
}

// rejectsEnd checks that a fully consumed reader reports an error on every kind of read.
func rejectsEnd(d msgpack.Decoder) error {
	for name, f := range readers {
		dd := d
		if err := f(&dd); err == nil {
			return fmt.Errorf("%s past the end of the input gave a value", name)
		}
	}
	return nil
}

var readers = map[string]func(msgpack.Reader) error{
	"IsNextNil":             func(r msgpack.Reader) error { _, err := r.IsNextNil(); return err },
	"ReadBool":              func(r msgpack.Reader) error { _, err := r.ReadBool(); return err },
	"ReadNillableBool":      func(r msgpack.Reader) error { _, err := r.ReadNillableBool(); return err },
	"ReadInt8":              func(r msgpack.Reader) error { _, err := r.ReadInt8(); return err },
	"ReadNillableInt8":      func(r msgpack.Reader) error { _, err := r.ReadNillableInt8(); return err },
	"ReadInt16":             func(r msgpack.Reader) error { _, err := r.ReadInt16(); return err },
	"ReadNillableInt16":     func(r msgpack.Reader) error { _, err := r.ReadNillableInt16(); return err },
	"ReadInt32":             func(r msgpack.Reader) error { _, err := r.ReadInt32(); return err },
	"ReadNillableInt32":     func(r msgpack.Reader) error { _, err := r.ReadNillableInt32(); return err },
	"ReadInt64":             func(r msgpack.Reader) error { _, err := r.ReadInt64(); return err },
	"ReadNillableInt64":     func(r msgpack.Reader) error { _, err := r.ReadNillableInt64(); return err },
	"ReadUint8":             func(r msgpack.Reader) error { _, err := r.ReadUint8(); return err },
	"ReadNillableUint8":     func(r msgpack.Reader) error { _, err := r.ReadNillableUint8(); return err },
	"ReadUint16":            func(r msgpack.Reader) error { _, err := r.ReadUint16(); return err },
	"ReadNillableUint16":    func(r msgpack.Reader) error { _, err := r.ReadNillableUint16(); return err },
	"ReadUint32":            func(r msgpack.Reader) error { _, err := r.ReadUint32(); return err },
	"ReadNillableUint32":    func(r msgpack.Reader) error { _, err := r.ReadNillableUint32(); return err },
	"ReadUint64":            func(r msgpack.Reader) error { _, err := r.ReadUint64(); return err },
	"ReadNillableUint64":    func(r msgpack.Reader) error { _, err := r.ReadNillableUint64(); return err },
	"ReadFloat32":           func(r msgpack.Reader) error { _, err := r.ReadFloat32(); return err },
	"ReadNillableFloat32":   func(r msgpack.Reader) error { _, err := r.ReadNillableFloat32(); return err },
	"ReadFloat64":           func(r msgpack.Reader) error { _, err := r.ReadFloat64(); return err },
	"ReadNillableFloat64":   func(r msgpack.Reader) error { _, err := r.ReadNillableFloat64(); return err },
	"ReadString":            func(r msgpack.Reader) error { _, err := r.ReadString(); return err },
	"ReadNillableString":    func(r msgpack.Reader) error { _, err := r.ReadNillableString(); return err },
	"ReadTime":              func(r msgpack.Reader) error { _, err := r.ReadTime(); return err },
	"ReadNillableTime":      func(r msgpack.Reader) error { _, err := r.ReadNillableTime(); return err },
	"ReadByteArray":         func(r msgpack.Reader) error { _, err := r.ReadByteArray(); return err },
	"ReadNillableByteArray": func(r msgpack.Reader) error { _, err := r.ReadNillableByteArray(); return err },
	"ReadArraySize":         func(r msgpack.Reader) error { _, err := r.ReadArraySize(); return err },
	"ReadMapSize":           func(r msgpack.Reader) error { _, err := r.ReadMapSize(); return err },
	"ReadAny":               func(r msgpack.Reader) error { _, err := r.ReadAny(); return err },
	"Skip":                  func(r msgpack.Reader) error { return r.Skip() },
	"ReadSlice": func(r msgpack.Reader) error {
		_, err := msgpack.ReadSlice(r, func(r msgpack.Reader) (any, error) { return r.ReadAny() })
		return err
	},
	"ReadSliceBig": func(r msgpack.Reader) error {
		_, err := msgpack.ReadSlice(r, func(r msgpack.Reader) (o [32]uint64, err error) { _, err = r.ReadInt64(); return })
		return err
	},
	"ReadMap": func(r msgpack.Reader) error {
		_, err := msgpack.ReadMap(r, func(r msgpack.Reader) (string, error) { return r.ReadString() }, func(r msgpack.Reader) (any, error) { return r.ReadAny() })
		return err
	},
	"ReadMapInts": func(r msgpack.Reader) error {
		_, err := msgpack.ReadMap(r, func(r msgpack.Reader) (int64, error) { return r.ReadInt64() }, func(r msgpack.Reader) (int64, error) { return r.ReadInt64() })
		return err
	},
	"DecodeNillable": func(r msgpack.Reader) error { _, err := msgpack.DecodeNillable[intCodec](r); return err },
}

type intCodec struct{ v int64 }

func (c *intCodec) Decode(r msgpack.Reader) (err error) { c.v, err = r.ReadInt64(); return }
func (c *intCodec) Encode(w msgpack.Writer) error       { w.WriteInt64(c.v); return w.Err() }

var readerNames = func() []string {
	var n []string
	for k := range readers {
		n = append(n, k)
	}
	for i := range n {
		for j := i + 1; j < len(n); j++ {
			if n[j] < n[i] {
				n[i], n[j] = n[j], n[i]
			}
		}
	}
	return n
}()

// sentinel is appended to check that reading stopped exactly at the end.
var sentinel = []byte{0xcf, 0xDE, 0xAD, 0xBE, 0xEF, 0x0B, 0xAD, 0xF0, 0x0D}

func readSentinel(d msgpack.Reader) error {
	v, err := d.ReadUint64()
	if err != nil || v != 0xDEADBEEF0BADF00D {
		return fmt.Errorf("reading did not stop at the end of the value: next is %#x, %v", v, err)
	}
	return nil
}

var _ = bytes.Equal
