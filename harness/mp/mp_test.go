package mp

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"runtime"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/msgpack/convert"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// refOps checks with the reference decoder that b starts with exactly ops.
func refOps(ops []Op, b []byte) (rest []byte, err error) {
	for i, o := range ops {
		switch {
		case o.K == "codec" && !o.Absent:
			if b, err = refOps(o.L, b); err != nil {
				return b, err
			}
		case o.K == "arr" || o.K == "map":
			var forms [][]byte
			if o.K == "arr" {
				forms = lenForms(o.U, 0x90, 16, 0, 0xdc, 0xdd)
			} else {
				forms = lenForms(o.U, 0x80, 16, 0, 0xde, 0xdf)
			}
			ok := false
			for _, f := range forms {
				if bytes.HasPrefix(b, f) {
					b, ok = b[len(f):], true
					break
				}
			}
			if !ok {
				return b, fmt.Errorf("op %d: %s header of %d is not a legal encoding: %s", i, o.K, o.U, pbt.Trunc(b))
			}
		default:
			var d D
			start := b
			d, b, err = refDecode(b)
			if err != nil {
				return b, fmt.Errorf("op %d (%s): not valid MessagePack: %v in %s", i, o.K, err, pbt.Trunc(start))
			}
			if want := o.D()[0]; !eqD(d, want) {
				return b, fmt.Errorf("op %d (%s): bytes %s mean %v, written was %v", i, o.K, pbt.Trunc(start), d, want)
			}
		}
	}
	return b, nil
}

// ---- C01

type opsCase struct{ Ops []Op }

func genOpsCase(t *rapid.T) opsCase { return opsCase{genOps(t, 8)} }

func label(c *pbt.Ctx, ops []Op) {
	for _, o := range ops {
		k := o.K
		if o.Absent {
			k += "/absent"
		} else if o.Nil {
			k += "/opt"
		}
		c.Label(k)
	}
}

func runRoundtrip(c *pbt.Ctx, cs opsCase) error {
	label(c, cs.Ops)
	c.NonTrivialIf(len(cs.Ops) > 1)
	buf, _, err := encodeOps(cs.Ops)
	if err != nil {
		return err
	}
	d := msgpack.NewDecoder(buf)
	if err := (&opCodec{cs.Ops}).Decode(&d); err != nil {
		return err
	}
	if err := d.Err(); err != nil {
		return fmt.Errorf("decoder error after successful reads: %v", err)
	}
	if err := rejectsEnd(d); err != nil {
		return err
	}
	d = msgpack.NewDecoder(append(append([]byte{}, buf...), sentinel...))
	if err := (&opCodec{cs.Ops}).Decode(&d); err != nil {
		return err
	}
	if err := readSentinel(&d); err != nil {
		return err
	}
	// The whole-value helpers give the same bytes as the writer.
	one, err := msgpack.ToBytes(&opCodec{cs.Ops})
	if err != nil {
		return fmt.Errorf("ToBytes: %v", err)
	}
	d = msgpack.NewDecoder(one)
	return (&opCodec{cs.Ops}).Decode(&d)
}

type narrowCase struct {
	Unsigned bool
	Neg      bool
	Mag      uint64
	Reader   string
}

var intReaders = map[string]struct {
	bits   int
	signed bool
	read   func(msgpack.Reader) (D, bool, error)
}{
	"Int8":  {8, true, func(r msgpack.Reader) (D, bool, error) { v, e := r.ReadInt8(); return intD(int64(v)), true, e }},
	"Int16": {16, true, func(r msgpack.Reader) (D, bool, error) { v, e := r.ReadInt16(); return intD(int64(v)), true, e }},
	"Int32": {32, true, func(r msgpack.Reader) (D, bool, error) { v, e := r.ReadInt32(); return intD(int64(v)), true, e }},
	"Int64": {64, true, func(r msgpack.Reader) (D, bool, error) { v, e := r.ReadInt64(); return intD(v), true, e }},
	"Uint8": {8, false, func(r msgpack.Reader) (D, bool, error) {
		v, e := r.ReadUint8()
		return D{K: "int", U: uint64(v)}, true, e
	}},
	"Uint16": {16, false, func(r msgpack.Reader) (D, bool, error) {
		v, e := r.ReadUint16()
		return D{K: "int", U: uint64(v)}, true, e
	}},
	"Uint32": {32, false, func(r msgpack.Reader) (D, bool, error) {
		v, e := r.ReadUint32()
		return D{K: "int", U: uint64(v)}, true, e
	}},
	"Uint64": {64, false, func(r msgpack.Reader) (D, bool, error) { v, e := r.ReadUint64(); return D{K: "int", U: v}, true, e }},
	"NInt8": {8, true, func(r msgpack.Reader) (D, bool, error) {
		v, e := r.ReadNillableInt8()
		return pd(v, func(x int8) D { return intD(int64(x)) }), v != nil, e
	}},
	"NInt16": {16, true, func(r msgpack.Reader) (D, bool, error) {
		v, e := r.ReadNillableInt16()
		return pd(v, func(x int16) D { return intD(int64(x)) }), v != nil, e
	}},
	"NInt32": {32, true, func(r msgpack.Reader) (D, bool, error) {
		v, e := r.ReadNillableInt32()
		return pd(v, func(x int32) D { return intD(int64(x)) }), v != nil, e
	}},
	"NInt64": {64, true, func(r msgpack.Reader) (D, bool, error) {
		v, e := r.ReadNillableInt64()
		return pd(v, func(x int64) D { return intD(x) }), v != nil, e
	}},
	"NUint8": {8, false, func(r msgpack.Reader) (D, bool, error) {
		v, e := r.ReadNillableUint8()
		return pd(v, func(x uint8) D { return D{K: "int", U: uint64(x)} }), v != nil, e
	}},
	"NUint16": {16, false, func(r msgpack.Reader) (D, bool, error) {
		v, e := r.ReadNillableUint16()
		return pd(v, func(x uint16) D { return D{K: "int", U: uint64(x)} }), v != nil, e
	}},
	"NUint32": {32, false, func(r msgpack.Reader) (D, bool, error) {
		v, e := r.ReadNillableUint32()
		return pd(v, func(x uint32) D { return D{K: "int", U: uint64(x)} }), v != nil, e
	}},
	"NUint64": {64, false, func(r msgpack.Reader) (D, bool, error) {
		v, e := r.ReadNillableUint64()
		return pd(v, func(x uint64) D { return D{K: "int", U: x} }), v != nil, e
	}},
}

func pd[T any](v *T, f func(T) D) D {
	if v == nil {
		return D{K: "nil"}
	}
	return f(*v)
}

var intReaderNames = []string{"Int8", "Int16", "Int32", "Int64", "Uint8", "Uint16", "Uint32", "Uint64", "NInt8", "NInt16", "NInt32", "NInt64", "NUint8", "NUint16", "NUint32", "NUint64"}

func fits(neg bool, mag uint64, bits int, signed bool) bool {
	if !signed {
		return !neg && (bits == 64 || mag < 1<<bits)
	}
	if neg {
		return mag <= 1<<(bits-1)
	}
	return mag < 1<<(bits-1)
}

func genNarrow(t *rapid.T) narrowCase {
	c := narrowCase{Unsigned: rapid.Bool().Draw(t, "uns"), Reader: rapid.SampledFrom(intReaderNames).Draw(t, "r")}
	c.Neg, c.Mag = genIntMag(t)
	if c.Unsigned {
		c.Neg = false
	} else if !c.Neg && c.Mag > math.MaxInt64 {
		c.Mag = math.MaxInt64
	}
	return c
}

func checkIntRead(name string, buf []byte, neg bool, mag uint64) error {
	ir := intReaders[name]
	d := msgpack.NewDecoder(append(append([]byte{}, buf...), sentinel...))
	got, present, err := ir.read(&d)
	if !fits(neg, mag, ir.bits, ir.signed) {
		if err == nil {
			return fmt.Errorf("Read%s of %v gave %v instead of a range error", name, D{K: "int", Neg: neg, U: mag}, got)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("Read%s of %v (bytes %x): %v", name, D{K: "int", Neg: neg, U: mag}, buf, err)
	}
	if want := (D{K: "int", Neg: neg, U: mag}); !present || !eqD(got, want) {
		return fmt.Errorf("Read%s of %v gave %v (present %v)", name, want, got, present)
	}
	return readSentinel(&d)
}

func runNarrow(c *pbt.Ctx, cs narrowCase) error {
	ir := intReaders[cs.Reader]
	f := fits(cs.Neg, cs.Mag, ir.bits, ir.signed)
	c.Label(fmt.Sprintf("fits=%v", f))
	c.NonTrivialIf(!f || cs.Mag >= 128)
	v := cs.Mag
	if cs.Neg {
		v = -v
	}
	o := Op{K: "i64", U: v}
	if cs.Unsigned {
		o.K = "u64"
	}
	buf, _, err := encodeOps([]Op{o})
	if err != nil {
		return err
	}
	return checkIntRead(cs.Reader, buf, cs.Neg, cs.Mag)
}

type toBytesCase struct{ Op Op }

func toBytes(o Op) ([]byte, error) {
	switch o.K {
	case "bool":
		return msgpack.BoolToBytes(o.U == 1)
	case "i8":
		return msgpack.I8ToBytes(int8(o.U))
	case "i16":
		return msgpack.I16ToBytes(int16(o.U))
	case "i32":
		return msgpack.I32ToBytes(int32(o.U))
	case "i64":
		return msgpack.I64ToBytes(int64(o.U))
	case "u8":
		return msgpack.U8ToBytes(uint8(o.U))
	case "u16":
		return msgpack.U16ToBytes(uint16(o.U))
	case "u32":
		return msgpack.U32ToBytes(uint32(o.U))
	case "u64":
		return msgpack.U64ToBytes(o.U)
	case "f32":
		return msgpack.F32ToBytes(math.Float32frombits(uint32(o.U)))
	case "f64":
		return msgpack.F64ToBytes(math.Float64frombits(o.U))
	case "str":
		return msgpack.StringToBytes(string(o.B.Bytes()))
	case "bytes":
		return msgpack.BytesToBytes(o.B.Bytes())
	case "time":
		return msgpack.TimeToBytes(o.time())
	case "slice":
		return msgpack.SliceToBytes(o.elems(), func(w msgpack.Writer, e Op) { _ = e.writeScalar(w) })
	case "tmap":
		m := map[int]Op{}
		for i, e := range o.elems() {
			m[i] = e
		}
		return msgpack.MapToBytes(m, func(w msgpack.Writer, k int) { w.WriteInt32(int32(k)) }, func(w msgpack.Writer, e Op) { _ = e.writeScalar(w) })
	}
	return nil, pbt.Harness("toBytes %s", o.K)
}

func genToBytes(t *rapid.T) toBytesCase {
	k := rapid.SampledFrom(append([]string{"slice", "tmap"}, scalarKinds...)).Draw(t, "k")
	if k == "slice" || k == "tmap" {
		o := Op{K: k, E: rapid.SampledFrom(scalarKinds).Draw(t, "e")}
		n := rapid.IntRange(0, 18).Draw(t, "n")
		for i := 0; i < n; i++ {
			o.L = append(o.L, genScalar(t, o.E, true))
		}
		return toBytesCase{o}
	}
	return toBytesCase{genScalar(t, k, true)}
}

func runToBytes(c *pbt.Ctx, cs toBytesCase) error {
	c.Label(cs.Op.K)
	c.NonTrivial()
	buf, err := toBytes(cs.Op)
	if err != nil {
		return fmt.Errorf("ToBytes of %s: %v", cs.Op.K, err)
	}
	rest, err := refOps([]Op{cs.Op}, buf)
	if err != nil {
		return err
	}
	if len(rest) > 0 {
		return fmt.Errorf("ToBytes of %s left %d stray bytes", cs.Op.K, len(rest))
	}
	d := msgpack.NewDecoder(buf)
	if err := cs.Op.read(&d); err != nil {
		return err
	}
	return rejectsEnd(d)
}

func TestC01(t *testing.T) {
	pbt.Check(t, "C01",
		pbt.NewPart("roundtrip", 20000, 60000, "sequences of 1-8 typed writes (all kinds, optional forms, headers, slices, maps, nested codecs); non-trivial: more than one value", genOpsCase, runRoundtrip),
		pbt.NewPart("narrow", 30000, 60000, "an integer written at 64 bits and read at every width and signedness; non-trivial: does not fit or needs more than a fixint", genNarrow, runNarrow),
		pbt.NewPart("tobytes", 12500, 30000, "the ...ToBytes helpers; non-trivial: all", genToBytes, runToBytes),
		partLarge,
	)
}

// ---- C02

type sizeCase struct {
	Ops []Op
	Cut []uint16
}

func genSize(t *rapid.T) sizeCase {
	return sizeCase{genOps(t, 6), rapid.SliceOfN(rapid.Uint16(), 1, 8).Draw(t, "cut")}
}

func filled(n int, b byte) []byte { return bytes.Repeat([]byte{b}, n) }

func runSize(c *pbt.Ctx, cs sizeCase) error {
	label(c, cs.Ops)
	codec := &opCodec{cs.Ops}
	s := msgpack.NewSizer()
	if err := codec.Encode(&s); err != nil {
		return fmt.Errorf("sizing: %v", err)
	}
	if err := s.Err(); err != nil {
		return fmt.Errorf("sizer error: %v", err)
	}
	n := int(s.Len())
	c.NonTrivialIf(n > 1)
	for _, fill := range []byte{0xA5, 0x5A} {
		// A larger buffer: exactly n bytes are written, the rest is left alone.
		big := filled(n+64, fill)
		e := msgpack.NewEncoder(big)
		if err := codec.Encode(&e); err != nil {
			return fmt.Errorf("encoding into a larger buffer: %v", err)
		}
		if !bytes.Equal(big[n:], filled(64, fill)) {
			return fmt.Errorf("computed size %d, but bytes after it were written: %s", n, pbt.Trunc(big[n:]))
		}
		rest, err := refOps(cs.Ops, big[:n])
		if err != nil {
			return fmt.Errorf("computed size %d: %v", n, err)
		}
		if len(rest) != 0 {
			return fmt.Errorf("computed size %d, but only %d bytes were written", n, n-len(rest))
		}
		// Exactly the size.
		exact := filled(n, fill)
		e = msgpack.NewEncoder(exact)
		if err := codec.Encode(&e); err != nil {
			return fmt.Errorf("encoding into the computed size %d: %v", n, err)
		}
		if rest, err := refOps(cs.Ops, exact); err != nil || len(rest) != 0 {
			return fmt.Errorf("encoding into the computed size %d: %v, %d left", n, err, len(rest))
		}
	}
	// Too small a buffer: a range error, and nothing outside it is touched.
	cuts := []int{0, n - 1}
	for _, x := range cs.Cut {
		if n > 0 {
			cuts = append(cuts, int(x)%n)
		}
	}
	for _, l := range cuts {
		if l < 0 || l >= n {
			continue
		}
		big := filled(n+16, 0xA5)
		e := msgpack.NewEncoder(big[:l])
		err := codec.Encode(&e)
		if err == nil {
			err = e.Err()
		}
		if err == nil {
			return fmt.Errorf("no error encoding %d bytes into a buffer of %d", n, l)
		}
		if !errors.Is(err, msgpack.ErrRange) {
			return fmt.Errorf("encoding %d bytes into a buffer of %d: %v is not a range error", n, l, err)
		}
		if !bytes.Equal(big[l:], filled(n+16-l, 0xA5)) {
			return fmt.Errorf("encoding %d bytes into a buffer of %d wrote outside it", n, l)
		}
	}
	return nil
}

type anySizeCase struct{ V Val }

func runAnySize(c *pbt.Ctx, cs anySizeCase) error {
	c.Label(cs.V.K)
	c.NonTrivialIf(len(cs.V.L) > 0 || cs.V.B.Len > 0)
	return runSize(c, sizeCase{Ops: []Op{{K: "any", V: &cs.V}}, Cut: []uint16{1, 2, 3}})
}

func TestC02(t *testing.T) {
	pbt.Check(t, "C02",
		pbt.NewPart("typed", 15000, 50000, "sequences of typed writes, sized, then encoded into exact, larger and smaller buffers; non-trivial: more than one byte", genSize, runSize),
		pbt.NewPart("dynamic", 10000, 30000, "the same for one dynamic value; non-trivial: has content", func(t *rapid.T) anySizeCase { return anySizeCase{genVal(t, 3)} }, runAnySize),
	)
}

// ---- C03

func runEmit(c *pbt.Ctx, cs opsCase) error {
	label(c, cs.Ops)
	c.NonTrivial()
	buf, _, err := encodeOps(cs.Ops)
	if err != nil {
		return err
	}
	rest, err := refOps(cs.Ops, buf)
	if err != nil {
		return err
	}
	if len(rest) != 0 {
		return fmt.Errorf("%d bytes emitted after the last value: %s", len(rest), pbt.Trunc(rest))
	}
	return nil
}

type acceptCase struct {
	W      W
	Reader string
	Opt    bool
}

func genAccept(t *rapid.T) acceptCase {
	c := acceptCase{Opt: rapid.Bool().Draw(t, "opt")}
	w := W{K: rapid.SampledFrom([]string{"bool", "int", "int", "int", "str", "bin", "time", "arrh", "maph", "f32", "f64", "nil"}).Draw(t, "k"), F: uint8(rapid.IntRange(0, 12).Draw(t, "form"))}
	switch w.K {
	case "arrh", "maph":
		w.U = rapid.OneOf(rapid.SampledFrom([]uint64{0, 1, 15, 16, 17, 255, 65535, 65536, math.MaxUint32}), rapid.Uint64Range(0, 1<<20)).Draw(t, "n")
	case "str", "bin":
		w.B = genBlob(t, true)
	default:
		w = fillW(t, w, 1, false, false)
	}
	c.W = w
	if w.K == "int" {
		c.Reader = rapid.SampledFrom(intReaderNames).Draw(t, "r")
	}
	return c
}

func runAccept(c *pbt.Ctx, cs acceptCase) error {
	w := cs.W
	c.Label(w.K)
	c.NonTrivialIf(w.F > 0)
	if w.K == "arrh" || w.K == "maph" {
		var forms [][]byte
		if w.K == "arrh" {
			forms = lenForms(w.U, 0x90, 16, 0, 0xdc, 0xdd)
		} else {
			forms = lenForms(w.U, 0x80, 16, 0, 0xde, 0xdf)
		}
		f := forms[int(w.F)%len(forms)]
		d := msgpack.NewDecoder(append(append([]byte{}, f...), sentinel...))
		var n uint32
		var err error
		if w.K == "arrh" {
			n, err = d.ReadArraySize()
		} else {
			n, err = d.ReadMapSize()
		}
		if err != nil || uint64(n) != w.U {
			return fmt.Errorf("%s of %d encoded as %x read as %d, %v", w.K, w.U, f, n, err)
		}
		return readSentinel(&d)
	}
	raw := w.Encode(nil)
	if w.K == "int" {
		return checkIntRead(cs.Reader, raw, w.N, w.U)
	}
	d := msgpack.NewDecoder(append(append([]byte{}, raw...), sentinel...))
	o := Op{K: w.K, Nil: cs.Opt, U: w.U, X: w.X, B: w.B}
	switch w.K {
	case "bool":
		o.U = 0
		if w.N {
			o.U = 1
		}
	case "bin":
		o.K = "bytes"
	case "nil":
		o.Nil = false
	}
	if err := o.read(&d); err != nil {
		return fmt.Errorf("%v encoded as %s: %w", w.D(), pbt.Trunc(raw), err)
	}
	return readSentinel(&d)
}

type mismatchCase struct {
	W      W
	Reader string
}

// accepted lists, per kind of wire value, the typed reads that may take it.
// Reads that are not listed must report an error. Beyond the specification's
// kinds the library deliberately takes nil as an empty container or byte array,
// an array header as a length prefix of strings and byte arrays, strings and
// extension 13 as times; those pairs are left open.
var accepted = map[string][]string{
	"nil":  {"ReadByteArray", "ReadArraySize", "ReadMapSize", "Nillable"},
	"bool": {"ReadBool"},
	"int":  {"ReadInt8", "ReadInt16", "ReadInt32", "ReadInt64", "ReadUint8", "ReadUint16", "ReadUint32", "ReadUint64"},
	"f32":  {"ReadFloat32", "ReadFloat64"},
	"f64":  {"ReadFloat32", "ReadFloat64"},
	"str":  {"ReadString", "ReadTime"},
	"bin":  {"ReadByteArray"},
	"arr":  {"ReadArraySize", "ReadString", "ReadByteArray", "ReadTime"},
	"map":  {"ReadMapSize"},
	"time": {"ReadTime"},
	"ext":  {},
}

var typedReaders = []string{"ReadBool", "ReadInt8", "ReadInt16", "ReadInt32", "ReadInt64", "ReadUint8", "ReadUint16", "ReadUint32", "ReadUint64",
	"ReadFloat32", "ReadFloat64", "ReadString", "ReadTime", "ReadByteArray", "ReadArraySize", "ReadMapSize"}

func runMismatch(c *pbt.Ctx, cs mismatchCase) error {
	base := cs.Reader
	nillable := false
	if len(base) > 12 && base[:12] == "ReadNillable" {
		base, nillable = "Read"+base[12:], true
	}
	if cs.W.K == "nil" && nillable {
		return nil
	}
	for _, a := range accepted[cs.W.K] {
		if a == base {
			c.Label("may-accept")
			return nil
		}
	}
	c.NonTrivial()
	c.Label(cs.W.K)
	raw := cs.W.Encode(nil)
	d := msgpack.NewDecoder(append(raw, sentinel...))
	if err := readers[cs.Reader](&d); err == nil {
		return fmt.Errorf("%s of a wire %v gave a value instead of an error", cs.Reader, cs.W.D())
	}
	return nil
}

func genMismatch(t *rapid.T) mismatchCase {
	r := rapid.SampledFrom(typedReaders).Draw(t, "r")
	if r != "ReadArraySize" && r != "ReadMapSize" && rapid.Bool().Draw(t, "opt") {
		r = "ReadNillable" + r[4:]
	}
	w := genW(t, 2, true, false)
	if w.K == "ext" && w.X == 13 {
		w.X = 14
	}
	return mismatchCase{w, r}
}

func TestC03(t *testing.T) {
	pbt.Check(t, "C03",
		pbt.NewPart("emit", 15000, 50000, "typed and dynamic writes decoded by an independent decoder; non-trivial: all", genOpsCase, runEmit),
		pbt.NewPart("accept", 30000, 80000, "one value in any of its legal wire forms, read by a typed read; non-trivial: not the most compact form", genAccept, runAccept),
		pbt.NewPart("mismatch", 20000, 50000, "a wire value of one kind read as another; non-trivial: the pair must be rejected", genMismatch, runMismatch),
		partLenient,
	)
}

// ---- C04

func runDyn(c *pbt.Ctx, cs anySizeCase) error {
	c.Label(cs.V.K)
	c.NonTrivialIf(len(cs.V.L) > 0)
	want := cs.V.D()
	raw, err := msgpack.AnyToBytes(cs.V.Go())
	if err != nil {
		return fmt.Errorf("AnyToBytes: %v", err)
	}
	d, rest, err := refDecode(raw)
	if err != nil || len(rest) != 0 {
		return fmt.Errorf("%v does not encode to one complete message: %v, %d bytes left of %s", want, err, len(rest), pbt.Trunc(raw))
	}
	if !eqD(d, want) {
		return fmt.Errorf("%v encodes to a message meaning %v", want, d)
	}
	dec := msgpack.NewDecoder(append(raw, sentinel...))
	v, err := dec.ReadAny()
	if err != nil {
		return fmt.Errorf("ReadAny of %v: %v", want, err)
	}
	got, err := goD(v)
	if err != nil {
		return err
	}
	if !eqD(got, want) {
		return fmt.Errorf("ReadAny of %v gave %v", want, got)
	}
	return readSentinel(&dec)
}

type wireCase struct {
	Ws    []W
	Depth int // extra nesting around the first value
}

func runDynWire(c *pbt.Ctx, cs wireCase) error {
	var raw []byte
	for _, w := range cs.Ws {
		c.Label(w.K)
		raw = w.Encode(raw)
	}
	c.NonTrivialIf(len(cs.Ws) > 1 || len(cs.Ws) == 1 && len(cs.Ws[0].L) > 0)
	dec := msgpack.NewDecoder(append(raw, sentinel...))
	for i, w := range cs.Ws {
		v, err := dec.ReadAny()
		if err != nil {
			return fmt.Errorf("ReadAny of message %d, %v: %v", i, w.D(), err)
		}
		got, err := goD(v)
		if err != nil {
			return err
		}
		if !eqD(got, w.D()) {
			return fmt.Errorf("ReadAny of message %d, %v, gave %v", i, w.D(), got)
		}
	}
	return readSentinel(&dec)
}

func genWires(ext, hashable bool) func(t *rapid.T) wireCase {
	return func(t *rapid.T) wireCase {
		n := rapid.IntRange(1, 5).Draw(t, "n")
		var c wireCase
		for i := 0; i < n; i++ {
			c.Ws = append(c.Ws, genW(t, 3, ext, hashable))
		}
		return c
	}
}

type deepCase struct {
	Depth int
	Map   []bool // which levels are maps (cyclic)
	Leaf  W
}

func genDeep(t *rapid.T) deepCase {
	return deepCase{rapid.SampledFrom([]int{1, 10, 100, 1000, 5000, 9000}).Draw(t, "depth"), rapid.SliceOfN(rapid.Bool(), 1, 4).Draw(t, "map"), genW(t, 0, false, true)}
}

func (c deepCase) encode() []byte {
	var raw []byte
	for i := 0; i < c.Depth; i++ {
		if c.Map[i%len(c.Map)] {
			raw = append(raw, 0x81, 0x01)
		} else {
			raw = append(raw, 0x91)
		}
	}
	return c.Leaf.Encode(raw)
}

func (c deepCase) goVal() (any, error) {
	dec := msgpack.NewDecoder(c.Leaf.Encode(nil))
	v, err := dec.ReadAny()
	for i := c.Depth - 1; i >= 0; i-- {
		if c.Map[i%len(c.Map)] {
			v = map[any]any{int64(1): v}
		} else {
			v = []any{v}
		}
	}
	return v, err
}

func runDeep(c *pbt.Ctx, cs deepCase) error {
	c.NonTrivialIf(cs.Depth > 10)
	raw := cs.encode()
	v, err := cs.goVal()
	if err != nil {
		return err
	}
	enc, err := msgpack.AnyToBytes(v)
	if err != nil {
		return err
	}
	dec := msgpack.NewDecoder(append(append([]byte{}, enc...), sentinel...))
	got, err := dec.ReadAny()
	if err != nil {
		return fmt.Errorf("ReadAny at depth %d: %v", cs.Depth, err)
	}
	if err := readSentinel(&dec); err != nil {
		return err
	}
	dec = msgpack.NewDecoder(append(append([]byte{}, raw...), sentinel...))
	if _, err := dec.ReadAny(); err != nil {
		return fmt.Errorf("ReadAny at depth %d: %v", cs.Depth, err)
	}
	if err := readSentinel(&dec); err != nil {
		return err
	}
	for i := 0; i < cs.Depth; i++ {
		switch x := got.(type) {
		case []any:
			if cs.Map[i%len(cs.Map)] || len(x) != 1 {
				return fmt.Errorf("level %d is a list of %d", i, len(x))
			}
			got = x[0]
		case map[any]any:
			if !cs.Map[i%len(cs.Map)] || len(x) != 1 {
				return fmt.Errorf("level %d is a map of %d", i, len(x))
			}
			got = x[int64(1)]
		default:
			return fmt.Errorf("level %d is a %T", i, got)
		}
	}
	gd, err := goD(got)
	if err != nil {
		return err
	}
	if !eqD(gd, cs.Leaf.D()) {
		return fmt.Errorf("innermost value %v, want %v", gd, cs.Leaf.D())
	}
	return nil
}

func TestC04(t *testing.T) {
	pbt.Check(t, "C04",
		pbt.NewPart("value", 20000, 60000, "a dynamic Go value of any supported kind, nested up to 3 deep; non-trivial: a non-empty container", func(t *rapid.T) anySizeCase { return anySizeCase{genVal(t, 3)} }, runDyn),
		pbt.NewPart("wire", 15000, 50000, "1-5 messages in arbitrary legal wire forms read dynamically; non-trivial: several messages or a container", genWires(false, true), runDynWire),
		pbt.NewPart("deep", 150, 300, "nesting up to 9000 levels; non-trivial: more than 10", genDeep, runDeep),
		partLargeAny,
	)
}

// ---- C05

func runSkip(c *pbt.Ctx, cs wireCase) error {
	var raw []byte
	var ends []int
	for _, w := range cs.Ws {
		c.Label(w.K)
		raw = w.Encode(raw)
		ends = append(ends, len(raw))
	}
	for i := range cs.Ws {
		start := 0
		if i > 0 {
			start = ends[i-1]
		}
		one := raw[start:ends[i]]
		c.NonTrivialIf(len(one) > 1)
		d := msgpack.NewDecoder(append(append([]byte{}, one...), sentinel...))
		if err := d.Skip(); err != nil {
			return fmt.Errorf("Skip of %v (%s): %v", cs.Ws[i].D(), pbt.Trunc(one), err)
		}
		if err := readSentinel(&d); err != nil {
			return fmt.Errorf("Skip of %v (%s): %v", cs.Ws[i].D(), pbt.Trunc(one), err)
		}
		// Nothing after it is needed either.
		d = msgpack.NewDecoder(append([]byte{}, one...))
		if err := d.Skip(); err != nil {
			return fmt.Errorf("Skip of %v at the end of the input: %v", cs.Ws[i].D(), err)
		}
		step := 1 + len(one)/40
		for l := 0; l < len(one); l += step {
			d := msgpack.NewDecoder(append([]byte{}, one[:l]...))
			if err := d.Skip(); err == nil {
				return fmt.Errorf("Skip of %v cut to %d of %d bytes reports no error", cs.Ws[i].D(), l, len(one))
			}
		}
		d = msgpack.NewDecoder(append([]byte{}, one[:len(one)-1]...))
		if err := d.Skip(); err == nil {
			return fmt.Errorf("Skip of %v without its last byte reports no error", cs.Ws[i].D())
		}
	}
	// Skip every second value and read the others.
	d := msgpack.NewDecoder(append(raw, sentinel...))
	for i, w := range cs.Ws {
		if i%2 == 0 {
			if err := d.Skip(); err != nil {
				return fmt.Errorf("Skip of value %d: %v", i, err)
			}
			continue
		}
		v, err := d.ReadAny()
		if err != nil {
			if unreadable(w) {
				return nil
			}
			return fmt.Errorf("after skipping, ReadAny of %v: %v", w.D(), err)
		}
		if got, err := goD(v); err == nil && !eqD(got, w.D()) && !unreadable(w) {
			return fmt.Errorf("after skipping, read %v, want %v", got, w.D())
		}
	}
	return readSentinel(&d)
}

// unreadable values can be skipped but have no Go form: other extensions and
// maps with containers as keys.
func unreadable(w W) bool {
	if w.K == "ext" {
		return true
	}
	if w.K == "map" {
		for i := 0; i < len(w.L); i += 2 {
			switch w.L[i].K {
			case "arr", "map", "bin", "f32", "f64":
				return true
			}
		}
	}
	for _, e := range w.L {
		if unreadable(e) {
			return true
		}
	}
	return false
}

func runSkipDeep(c *pbt.Ctx, cs deepCase) error {
	c.NonTrivialIf(cs.Depth > 10)
	raw := cs.encode()
	d := msgpack.NewDecoder(append(append([]byte{}, raw...), sentinel...))
	if err := d.Skip(); err != nil {
		return fmt.Errorf("Skip at depth %d: %v", cs.Depth, err)
	}
	if err := readSentinel(&d); err != nil {
		return err
	}
	d = msgpack.NewDecoder(raw[:len(raw)-1])
	if d.Skip() == nil {
		return fmt.Errorf("Skip of a value cut short at depth %d reports no error", cs.Depth)
	}
	return nil
}

func TestC05(t *testing.T) {
	pbt.Check(t, "C05",
		pbt.NewPart("skip", 20000, 60000, "1-5 values of every kind and wire form, skipped whole, cut short and interleaved with reads; non-trivial: longer than one byte", genWires(true, false), runSkip),
		pbt.NewPart("deep", 300, 400, "nesting up to 9000 levels; non-trivial: more than 10", genDeep, runSkipDeep),
		partSkipLarge,
	)
}

// ---- C06

type bytesCase struct {
	In    []byte
	Rep   int // the input is In repeated
	Reads []string
}

func genHostile(t *rapid.T) bytesCase {
	c := bytesCase{Rep: 1}
	switch rapid.IntRange(0, 4).Draw(t, "how") {
	case 0:
		c.In = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
	case 1, 2: // a valid sequence, damaged
		n := rapid.IntRange(1, 4).Draw(t, "n")
		for i := 0; i < n; i++ {
			c.In = genW(t, 2, true, false).Encode(c.In)
		}
		if len(c.In) > 3000 {
			c.In = c.In[:3000]
		}
		m := rapid.IntRange(0, 4).Draw(t, "muts")
		for i := 0; i < m && len(c.In) > 0; i++ {
			p := rapid.IntRange(0, len(c.In)-1).Draw(t, "pos")
			switch rapid.IntRange(0, 3).Draw(t, "mut") {
			case 0:
				c.In[p] = rapid.Byte().Draw(t, "b")
			case 1:
				c.In = c.In[:p]
			case 2:
				c.In[p] = byte(rapid.IntRange(0xc0, 0xdf).Draw(t, "code"))
			case 3:
				c.In = append(c.In[:p:p], append(rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "ins"), c.In[p:]...)...)
			}
		}
	case 3: // headers that promise far more than there is
		n := rapid.IntRange(1, 12).Draw(t, "hdrs")
		for i := 0; i < n; i++ {
			h := rapid.SampledFrom([]byte{0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xdd, 0xdf, 0x91, 0x81, 0xd4, 0xd8}).Draw(t, "h")
			c.In = append(c.In, h)
			l := map[byte]int{0xc4: 1, 0xc5: 2, 0xc6: 4, 0xc7: 1, 0xc8: 2, 0xc9: 4, 0xd9: 1, 0xda: 2, 0xdb: 4, 0xdc: 2, 0xdd: 4, 0xde: 2, 0xdf: 4}[h]
			v := rapid.SampledFrom([]uint32{math.MaxUint32, math.MaxUint32 - 3, 1 << 31, 1 << 30, 1 << 24, 0xffff, 0xfff0, 100, 1, 0}).Draw(t, "v")
			b := be32(uint64(v))
			c.In = append(c.In, b[4-l:]...)
			if rapid.IntRange(0, 3).Draw(t, "key") == 0 {
				c.In = append(c.In, 0x01)
			}
		}
	case 4: // deep nesting
		c.In = rapid.SliceOfN(rapid.SampledFrom([]byte{0x91, 0x92, 0x81, 0x82, 0xa0, 0x01, 0xdc, 0x00, 0x02, 0x9f}), 1, 6).Draw(t, "unit")
		c.Rep = rapid.SampledFrom([]int{1, 10, 1000, 20000, 300000}).Draw(t, "rep")
		if c.Rep > 10000 && rapid.IntRange(0, 3).Draw(t, "rare") != 0 {
			c.Rep = 100
		}
	}
	c.Reads = rapid.SliceOfN(rapid.SampledFrom(readerNames), 1, 6).Draw(t, "reads")
	if rapid.Bool().Draw(t, "dyn") {
		c.Reads[0] = rapid.SampledFrom([]string{"ReadAny", "Skip", "ReadSlice", "ReadMap", "ReadSliceBig", "ReadMapInts"}).Draw(t, "first")
	}
	return c
}

func allocDelta(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func runHostile(c *pbt.Ctx, cs bytesCase) error {
	in := bytes.Repeat(cs.In, cs.Rep)
	saved := append([]byte{}, in...)
	d := msgpack.NewDecoder(in)
	errs := 0
	var names string
	var bad error
	used := allocDelta(func() {
		for _, r := range cs.Reads {
			names += r + " "
			if err := pbt.Safely(func() error { return readers[r](&d) }); err != nil {
				errs++
				if len(err.Error()) > 6 && err.Error()[:6] == "panic:" {
					bad = fmt.Errorf("%s: %v", r, err)
					return
				}
			}
		}
	})
	if bad != nil {
		return bad
	}
	c.NonTrivialIf(len(in) > 1)
	c.Label(fmt.Sprintf("errors=%v", errs > 0))
	if limit := uint64(4<<20 + 8192*len(in)); used > limit {
		return fmt.Errorf("%s on %d bytes of input allocated %d bytes", names, len(in), used)
	}
	return pbt.EqBytes("input after reading", in, saved)
}

type prefixCase struct {
	Ops []Op
	Ws  []W
	At  []uint16
}

func genPrefix(t *rapid.T) prefixCase {
	c := prefixCase{At: rapid.SliceOfN(rapid.Uint16(), 1, 6).Draw(t, "at")}
	if rapid.Bool().Draw(t, "typed") {
		c.Ops = genOps(t, 4)
	} else {
		c.Ws = []W{genW(t, 3, false, true)}
	}
	return c
}

func runPrefix(c *pbt.Ctx, cs prefixCase) error {
	var raw []byte
	if cs.Ops != nil {
		b, _, err := encodeOps(cs.Ops)
		if err != nil {
			return err
		}
		raw = b
	} else {
		raw = cs.Ws[0].Encode(nil)
	}
	cuts := []int{len(raw) - 1}
	for _, a := range cs.At {
		if len(raw) > 0 {
			cuts = append(cuts, int(a)%len(raw))
		}
	}
	c.NonTrivialIf(len(raw) > 1)
	for _, l := range cuts {
		if l < 0 || l >= len(raw) {
			continue
		}
		// The hidden tail tempts an unchecked read to run into it.
		d := msgpack.NewDecoder(append([]byte{}, raw...)[:l])
		var err error
		if cs.Ops != nil {
			err = (&opCodec{cs.Ops}).Decode(&d)
		} else {
			_, err = d.ReadAny()
		}
		if err == nil {
			return fmt.Errorf("reading %d of %d bytes gave the whole value", l, len(raw))
		}
		if !errors.Is(err, msgpack.ErrRange) {
			return fmt.Errorf("reading %d of %d bytes made something up: %v", l, len(raw), err)
		}
	}
	return nil
}

func TestC06(t *testing.T) {
	pbt.Check(t, "C06",
		pbt.NewPart("hostile", 40000, 150000, "random, damaged, over-promising and deeply nested inputs read by 1-6 reads; non-trivial: more than one byte", genHostile, runHostile),
		pbt.NewPart("prefix", 15000, 40000, "strict prefixes of valid messages; non-trivial: message longer than one byte", genPrefix, runPrefix),
		partNot,
	)
}

// ---- C07

type convCase struct {
	Kind   string
	U      uint64
	X      uint32
	Off    int // zone offset in minutes
	B      Blob
	Absent bool
	Err    bool
	FnErr  bool
}

type (
	myString string
	myBool   bool
	myInt    int64
	myU8     uint8
	myBytes  []byte
	myFloat  float64
)

func genConv(t *rapid.T) convCase {
	c := convCase{
		Kind:   rapid.SampledFrom([]string{"string", "bool", "i64", "u8", "f64", "widen", "bytes", "format", "parse", "nparse", "time", "timefmt"}).Draw(t, "k"),
		Absent: rapid.Bool().Draw(t, "absent"),
		Err:    rapid.IntRange(0, 2).Draw(t, "err") == 0,
		FnErr:  rapid.IntRange(0, 2).Draw(t, "fnerr") == 0,
		B:      genBlob(t, false),
		Off:    rapid.IntRange(-14*60, 14*60).Draw(t, "off"),
		X:      genNanos(t),
	}
	neg, mag := genIntMag(t)
	if neg {
		mag = -mag
	}
	c.U = mag
	if c.Kind == "time" || c.Kind == "timefmt" {
		// years 0001 to 9998, which RFC 3339 can express in any zone
		c.U = uint64(rapid.Int64Range(-62135500000, 253370678400).Draw(t, "secs"))
	}
	return c
}

var errDecode = errors.New("decode failed")
var errFn = errors.New("conversion failed")

// nillable checks a nillable conversion: absent stays absent, errors pass.
func nillable[I, O any](cs convCase, v I, fn func(*I, error) (*O, error), eq func(O) bool) error {
	var in *I
	var inErr error
	if cs.Err {
		inErr = errDecode
	}
	if !cs.Absent {
		// Along with an error it does not count.
		in = &v
	}
	out, err := fn(in, inErr)
	if cs.Err {
		if !errors.Is(err, errDecode) {
			return fmt.Errorf("%s: decoding error became %v", cs.Kind, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: error %v", cs.Kind, err)
	}
	if cs.Absent {
		if out != nil {
			return fmt.Errorf("%s: absent became %v", cs.Kind, *out)
		}
		return nil
	}
	if out == nil || !eq(*out) {
		return fmt.Errorf("%s: %v became %v", cs.Kind, v, out)
	}
	return nil
}

func plain[I, O any](cs convCase, v I, fn func(I, error) (O, error), eq func(O) bool) error {
	var inErr error
	if cs.Err {
		inErr = errDecode
	}
	out, err := fn(v, inErr)
	if cs.Err {
		if !errors.Is(err, errDecode) {
			return fmt.Errorf("%s: decoding error became %v", cs.Kind, err)
		}
		return nil
	}
	if err != nil || !eq(out) {
		return fmt.Errorf("%s: %v became %v, %v", cs.Kind, v, out, err)
	}
	return nil
}

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func runConv(c *pbt.Ctx, cs convCase) (bad error) {
	c.Label(cs.Kind)
	c.NonTrivialIf(cs.Absent || cs.Err || cs.FnErr || cs.U != 0)
	str := string(cs.B.Bytes())
	switch cs.Kind {
	case "string":
		return first(
			plain(cs, str, convert.String[myString], func(o myString) bool { return string(o) == str }),
			nillable(cs, str, convert.NillableString[myString], func(o myString) bool { return string(o) == str }))
	case "bool":
		b := cs.U&1 == 1
		return first(
			plain(cs, b, convert.Bool[myBool], func(o myBool) bool { return bool(o) == b }),
			nillable(cs, b, convert.NillableBool[myBool], func(o myBool) bool { return bool(o) == b }))
	case "i64":
		v := int64(cs.U)
		return first(
			plain(cs, v, convert.Numeric[myInt, int64], func(o myInt) bool { return int64(o) == v }),
			nillable(cs, v, convert.NillableNumeric[myInt, int64], func(o myInt) bool { return int64(o) == v }))
	case "u8":
		v := uint8(cs.U)
		return first(
			plain(cs, v, convert.Numeric[myU8, uint8], func(o myU8) bool { return uint8(o) == v }),
			nillable(cs, v, convert.NillableNumeric[myU8, uint8], func(o myU8) bool { return uint8(o) == v }))
	case "widen":
		v := int16(cs.U)
		return first(
			plain(cs, v, convert.Numeric[int, int16], func(o int) bool { return o == int(v) }),
			nillable(cs, v, convert.NillableNumeric[int, int16], func(o int) bool { return o == int(v) }))
	case "f64":
		v := float64(int64(cs.U)) / 3
		return first(
			plain(cs, v, convert.Numeric[myFloat, float64], func(o myFloat) bool { return float64(o) == v }),
			nillable(cs, v, convert.NillableNumeric[myFloat, float64], func(o myFloat) bool { return float64(o) == v }))
	case "bytes":
		b := cs.B.Bytes()
		return first(
			plain(cs, b, convert.ByteArray[myBytes, []byte], func(o myBytes) bool { return bytes.Equal(o, b) }),
			plain(cs, nil, convert.ByteArray[myBytes, []byte], func(o myBytes) bool { return o == nil }))
	case "format":
		f := convert.Format(func(v *int64) string { return fmt.Sprint(*v) })
		v := int64(cs.U)
		if got := f(&v); got == nil || *got != fmt.Sprint(v) {
			return fmt.Errorf("Format of %d gave %v", v, got)
		}
		if got := f(nil); got != nil {
			return fmt.Errorf("Format of an absent value gave %q", *got)
		}
		return nil
	case "parse", "nparse":
		calls := 0
		fn := func(s string) (int, error) {
			calls++
			if cs.FnErr {
				return 0, errFn
			}
			return len(s) + 7, nil
		}
		in := cs
		defer func() {
			if calls > 0 && (cs.Err || cs.Kind == "nparse" && cs.Absent) && bad == nil {
				bad = fmt.Errorf("%s called the conversion on a value that was not decoded", cs.Kind)
			}
		}()
		if cs.FnErr && !cs.Err && !(cs.Kind == "nparse" && cs.Absent) {
			var err error
			if cs.Kind == "parse" {
				_, err = convert.Parse(fn)(str, nil)
			} else {
				_, err = convert.NillableParse(fn)(&str, nil)
			}
			if !errors.Is(err, errFn) {
				return fmt.Errorf("%s: a failing conversion gave error %v", cs.Kind, err)
			}
			return nil
		}
		want := func(o int) bool { return o == len(str)+7 && calls == 1 }
		if cs.Kind == "parse" {
			return plain(in, str, convert.Parse(fn), want)
		}
		return nillable(in, str, convert.NillableParse(fn), want)
	case "time", "timefmt":
		tm := time.Unix(int64(cs.U), int64(cs.X)).In(time.FixedZone("z", cs.Off*60))
		s := convert.TimeToString(tm)
		sp := convert.TimeToStringPtr(&tm)
		if sp == nil || *sp != s {
			return fmt.Errorf("TimeToStringPtr of %v gave %v, want %q", tm, sp, s)
		}
		if convert.TimeToStringPtr(nil) != nil {
			return errors.New("TimeToStringPtr of an absent time is present")
		}
		if ref, err := time.Parse(time.RFC3339Nano, s); err != nil || !ref.Equal(tm) {
			return fmt.Errorf("%v formatted as %q, which means %v (%v)", tm, s, ref, err)
		}
		same := func(o time.Time) bool { return o.Equal(tm) }
		if err := first(plain(cs, s, convert.StringToTime, same), nillable(cs, s, convert.StringToTimePtr, same)); err != nil {
			return err
		}
		bad := s[:len(s)-1] + "!"
		if _, err := convert.StringToTime(bad, nil); err == nil {
			return fmt.Errorf("StringToTime(%q) reports no error", bad)
		}
		if _, err := convert.StringToTimePtr(&bad, nil); err == nil {
			return fmt.Errorf("StringToTimePtr(%q) reports no error", bad)
		}
		return nil
	}
	return pbt.Harness("kind %s", cs.Kind)
}

type pipeCase struct {
	O Op
}

// runPipe uses the helpers the way generated code does: around a decoder read.
func runPipe(c *pbt.Ctx, cs pipeCase) error {
	c.NonTrivial()
	c.Label(cs.O.K)
	buf, _, err := encodeOps([]Op{cs.O})
	if err != nil {
		return err
	}
	d := msgpack.NewDecoder(buf)
	e := msgpack.NewDecoder(nil)
	o := cs.O
	switch o.K {
	case "str":
		want := string(o.B.Bytes())
		if o.Nil {
			v, err := convert.NillableString[myString](d.ReadNillableString())
			if err := cmpNil(o, v, err, eq(o, myString(want))); err != nil {
				return err
			}
			if _, err := convert.NillableString[myString](e.ReadNillableString()); err == nil {
				return errors.New("missing input gives no error")
			}
			return nil
		}
		v, err := convert.String[myString](d.ReadString())
		return check(v, err, eq(o, myString(want)))
	case "bool":
		if o.Nil {
			v, err := convert.NillableBool[myBool](d.ReadNillableBool())
			if err := cmpNil(o, v, err, eq(o, myBool(o.U == 1))); err != nil {
				return err
			}
			if _, err := convert.NillableBool[myBool](e.ReadNillableBool()); err == nil {
				return errors.New("missing input gives no error")
			}
			return nil
		}
		v, err := convert.Bool[myBool](d.ReadBool())
		return check(v, err, eq(o, myBool(o.U == 1)))
	case "i64":
		if o.Nil {
			v, err := convert.NillableNumeric[myInt](d.ReadNillableInt64())
			if err := cmpNil(o, v, err, eq(o, myInt(o.U))); err != nil {
				return err
			}
			if _, err := convert.NillableNumeric[myInt](e.ReadNillableInt64()); err == nil {
				return errors.New("missing input gives no error")
			}
			return nil
		}
		v, err := convert.Numeric[myInt](d.ReadInt64())
		return check(v, err, eq(o, myInt(o.U)))
	case "bytes":
		if o.Nil {
			v, err := convert.ByteArray[myBytes](d.ReadNillableByteArray())
			if err != nil {
				return err
			}
			if (v == nil) != o.Absent {
				return fmt.Errorf("byte array absent=%v, written absent=%v", v == nil, o.Absent)
			}
			return pbt.EqBytes("bytes", v, map[bool][]byte{true: nil, false: o.B.Bytes()}[o.Absent])
		}
		v, err := convert.ByteArray[myBytes](d.ReadByteArray())
		if err != nil {
			return err
		}
		return pbt.EqBytes("bytes", v, o.B.Bytes())
	}
	return pbt.Harness("pipe %s", o.K)
}

func genPipe(t *rapid.T) pipeCase {
	o := genScalar(t, rapid.SampledFrom([]string{"str", "bool", "i64", "bytes"}).Draw(t, "k"), true)
	o.Nil = rapid.Bool().Draw(t, "opt")
	o.Absent = o.Nil && rapid.Bool().Draw(t, "absent")
	return pipeCase{o}
}

func TestC07(t *testing.T) {
	pbt.Check(t, "C07",
		pbt.NewPart("helpers", 30000, 100000, "every helper on present, absent and failed reads; non-trivial: absent, failed or non-zero", genConv, runConv),
		pbt.NewPart("pipeline", 15000, 40000, "helpers wrapped around decoder reads as generated code does; non-trivial: all", genPipe, runPipe),
	)
}
