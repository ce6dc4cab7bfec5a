package mp

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"time"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// ---- C03: what the library takes beyond the specification, on purpose

type lenientCase struct {
	K    string
	Read string
	F    uint8
	B    Blob
	U    uint64
	X    uint32
	Off  int
	Opt  bool
}

func genLenient(t *rapid.T) lenientCase {
	c := lenientCase{
		K:   rapid.SampledFrom([]string{"nil", "prefix", "time13", "timestr", "narrow"}).Draw(t, "k"),
		F:   uint8(rapid.IntRange(0, 8).Draw(t, "form")),
		Opt: rapid.Bool().Draw(t, "opt"),
	}
	switch c.K {
	case "nil":
		c.Read = rapid.SampledFrom([]string{"bytes", "arr", "map", "slice", "tmap"}).Draw(t, "r")
	case "prefix":
		c.Read = rapid.SampledFrom([]string{"str", "bytes"}).Draw(t, "r")
		c.B = genBlob(t, false)
	case "time13":
		c.U, c.X = uint64(genSecs(t)), genNanos(t)
	case "timestr":
		c.U, c.X = uint64(rapid.Int64Range(-62135500000, 253370678400).Draw(t, "secs")), genNanos(t)
		c.Off = rapid.IntRange(-14*60, 14*60).Draw(t, "off")
	case "narrow":
		c.U = math.Float64bits(rapid.OneOf(rapid.Float64(), rapid.Map(rapid.Float32(), func(f float32) float64 { return float64(f) }), rapid.Float64Range(-1e6, 1e6)).Draw(t, "f"))
	}
	return c
}

func readTime(d *msgpack.Decoder, opt bool) (time.Time, error) {
	if !opt {
		return d.ReadTime()
	}
	p, err := d.ReadNillableTime()
	if err != nil {
		return time.Time{}, err
	}
	if p == nil {
		return time.Time{}, errors.New("the time is absent")
	}
	return *p, nil
}

func runLenient(c *pbt.Ctx, cs lenientCase) error {
	c.Label(cs.K)
	c.NonTrivial()
	start := func(raw []byte) msgpack.Decoder {
		return msgpack.NewDecoder(append(append([]byte{}, raw...), sentinel...))
	}
	switch cs.K {
	case "nil":
		d := start([]byte{0xc0})
		var n int
		var err error
		switch cs.Read {
		case "bytes":
			var v []byte
			v, err = d.ReadByteArray()
			n = len(v)
		case "arr":
			var v uint32
			v, err = d.ReadArraySize()
			n = int(v)
		case "map":
			var v uint32
			v, err = d.ReadMapSize()
			n = int(v)
		case "slice":
			var v []int64
			v, err = msgpack.ReadSlice(&d, func(r msgpack.Reader) (int64, error) { return r.ReadInt64() })
			n = len(v)
		case "tmap":
			var v map[int64]int64
			v, err = msgpack.ReadMap(&d, func(r msgpack.Reader) (int64, error) { return r.ReadInt64() }, func(r msgpack.Reader) (int64, error) { return r.ReadInt64() })
			n = len(v)
		}
		if err != nil || n != 0 {
			return fmt.Errorf("nil read as %s: %d elements, %v", cs.Read, n, err)
		}
		return readSentinel(&d)
	case "prefix":
		forms := lenForms(uint64(cs.B.Len), 0x90, 16, 0, 0xdc, 0xdd)
		if cs.Read == "bytes" { // only the short form counts for byte arrays
			forms = forms[:1]
			if cs.B.Len > 15 {
				cs.B.Len = 15
				forms = lenForms(15, 0x90, 16, 0, 0xdc, 0xdd)[:1]
			}
		}
		d := start(cat(forms[int(cs.F)%len(forms)], cs.B.Bytes()))
		if err := (Op{K: cs.Read, B: cs.B, Nil: cs.Opt}).read(&d); err != nil {
			return fmt.Errorf("%s of %d bytes behind an array header: %w", cs.Read, cs.B.Len, err)
		}
		return readSentinel(&d)
	case "time13":
		w := W{K: "time", U: cs.U, X: cs.X}
		forms := w.forms()
		f := append([]byte{}, forms[int(cs.F)%len(forms)]...)
		i := 1
		if f[0] == 0xc7 {
			i = 2
		}
		f[i] = 13
		d := start(f)
		got, err := readTime(&d, cs.Opt)
		if err := check(got, err, eqtime(Op{U: cs.U, X: cs.X})); err != nil {
			return fmt.Errorf("a time as extension 13, %x: %w", f, err)
		}
		return readSentinel(&d)
	case "timestr":
		tm := time.Unix(int64(cs.U), int64(cs.X)).In(time.FixedZone("z", cs.Off*60))
		s := tm.Format(time.RFC3339Nano)
		forms := lenForms(uint64(len(s)), 0xa0, 32, 0xd9, 0xda, 0xdb)
		d := start(cat(forms[int(cs.F)%len(forms)], []byte(s)))
		got, err := readTime(&d, cs.Opt)
		if err != nil || !got.Equal(tm) {
			return fmt.Errorf("a time as the string %q in form %d of %d read as %v, %v", s, int(cs.F)%len(forms), len(forms), got, err)
		}
		return readSentinel(&d)
	case "narrow":
		d := start(binary.BigEndian.AppendUint64([]byte{0xcb}, cs.U))
		v := math.Float64frombits(cs.U)
		got, err := d.ReadFloat32()
		if cs.Opt {
			d = start(binary.BigEndian.AppendUint64([]byte{0xcb}, cs.U))
			var p *float32
			if p, err = d.ReadNillableFloat32(); err == nil {
				if p == nil {
					return fmt.Errorf("float64 %v read as an absent float32", v)
				}
				got = *p
			}
		}
		want := float32(v)
		if err != nil && math.IsInf(float64(want), 0) && !math.IsInf(v, 0) {
			return nil // out of range: an error would do as well
		}
		if err != nil || got != want && (got == got || want == want) {
			return fmt.Errorf("float64 %v read as float32 gave %v, %v", v, got, err)
		}
		return readSentinel(&d)
	}
	return pbt.Harness("kind %s", cs.K)
}

// ---- C01: containers of more than 65536 elements

type largeCase struct {
	N     int
	IsMap bool
	Wide  bool // elements of nine bytes
	Spare int
}

func runLarge(c *pbt.Ctx, cs largeCase) error {
	c.NonTrivial()
	c.Label(fmt.Sprintf("map=%v", cs.IsMap))
	base := int64(0)
	if cs.Wide {
		base = math.MaxInt64 - int64(cs.N)
	}
	fill := func(w msgpack.Writer) error {
		if cs.IsMap {
			m := make(map[int64]int64, cs.N)
			for i := 0; i < cs.N; i++ {
				m[base+int64(i)] = int64(i) - 7
			}
			return msgpack.WriteMap(w, m, func(w msgpack.Writer, k int64) { w.WriteInt64(k) }, func(w msgpack.Writer, v int64) { w.WriteInt64(v) })
		}
		s := make([]int64, cs.N)
		for i := range s {
			s[i] = base + int64(i)
		}
		return msgpack.WriteSlice(w, s, func(w msgpack.Writer, v int64) { w.WriteInt64(v) })
	}
	sz := msgpack.NewSizer()
	if err := fill(&sz); err != nil {
		return fmt.Errorf("sizing %d elements: %w", cs.N, err)
	}
	buf := make([]byte, sz.Len(), int(sz.Len())+len(sentinel))
	e := msgpack.NewEncoder(buf)
	if err := fill(&e); err != nil {
		return fmt.Errorf("encoding %d elements: %w", cs.N, err)
	}
	d := msgpack.NewDecoder(append(buf, sentinel...))
	sk := d
	int64s := func(r msgpack.Reader) (int64, error) { return r.ReadInt64() }
	if cs.IsMap {
		m, err := msgpack.ReadMap(&d, int64s, int64s)
		if err != nil || len(m) != cs.N {
			return fmt.Errorf("map of %d read as %d, %v", cs.N, len(m), err)
		}
		for i := 0; i < cs.N; i++ {
			if v, ok := m[base+int64(i)]; !ok || v != int64(i)-7 {
				return fmt.Errorf("map of %d: entry %d is %d, %v", cs.N, i, v, ok)
			}
		}
	} else {
		s, err := msgpack.ReadSlice(&d, int64s)
		if err != nil || len(s) != cs.N {
			return fmt.Errorf("slice of %d read as %d, %v", cs.N, len(s), err)
		}
		for i, v := range s {
			if v != base+int64(i) {
				return fmt.Errorf("slice of %d: element %d is %d", cs.N, i, v)
			}
		}
	}
	if err := readSentinel(&d); err != nil {
		return err
	}
	if err := sk.Skip(); err != nil {
		return fmt.Errorf("skipping %d elements: %w", cs.N, err)
	}
	return readSentinel(&sk)
}

// runLargeAny does the same with dynamic values.
func runLargeAny(c *pbt.Ctx, cs largeCase) error {
	c.NonTrivial()
	c.Label(fmt.Sprintf("map=%v", cs.IsMap))
	base := int64(0)
	if cs.Wide {
		base = math.MaxInt64 - int64(cs.N)
	}
	var v any
	if cs.IsMap {
		m := make(map[any]any, cs.N)
		for i := 0; i < cs.N; i++ {
			m[base+int64(i)] = i&1 == 0
		}
		v = m
	} else {
		s := make([]any, cs.N)
		for i := range s {
			s[i] = base + int64(i)
		}
		v = s
	}
	b, err := msgpack.AnyToBytes(v)
	if err != nil {
		return fmt.Errorf("encoding %d elements: %w", cs.N, err)
	}
	d := msgpack.NewDecoder(append(b, sentinel...))
	got, err := d.ReadAny()
	if err != nil {
		return fmt.Errorf("%d elements read as error %w", cs.N, err)
	}
	is := func(v any, want int64) bool {
		r := reflect.ValueOf(v)
		return r.CanInt() && r.Int() == want || r.CanUint() && want >= 0 && r.Uint() == uint64(want)
	}
	if cs.IsMap {
		m, ok := got.(map[any]any)
		if !ok || len(m) != cs.N {
			return fmt.Errorf("map of %d read as %T of %d", cs.N, got, len(m))
		}
		for k, v := range m {
			r := reflect.ValueOf(k)
			var at int64
			switch {
			case r.CanInt():
				at = r.Int() - base
			case r.CanUint():
				at = int64(r.Uint()) - base
			default:
				return fmt.Errorf("map of %d: a key is %T", cs.N, k)
			}
			if at < 0 || at >= int64(cs.N) || v != (at&1 == 0) {
				return fmt.Errorf("map of %d: key %v has %v", cs.N, k, v)
			}
		}
	} else {
		s, ok := got.([]any)
		if !ok || len(s) != cs.N {
			return fmt.Errorf("slice of %d read as %T of %d", cs.N, got, len(s))
		}
		for i, v := range s {
			if !is(v, base+int64(i)) {
				return fmt.Errorf("slice of %d: element %d is %v", cs.N, i, v)
			}
		}
	}
	return readSentinel(&d)
}

func genLarge(t *rapid.T) largeCase {
	return largeCase{
		N:     rapid.OneOf(rapid.SampledFrom([]int{65534, 65535, 65536, 65537, 131072, 32768}), rapid.IntRange(60000, 140000)).Draw(t, "n"),
		IsMap: rapid.Bool().Draw(t, "map"), Wide: rapid.Bool().Draw(t, "wide"),
	}
}

// ---- C05: large containers, and headers that promise more than there is

type skipLargeCase struct {
	Head  []byte
	Count uint64 // elements announced (twice that for maps)
	Give  int    // elements present, of two kinds
	Elem  []W
}

func genSkipLarge(t *rapid.T) skipLargeCase {
	n := rapid.OneOf(rapid.SampledFrom([]uint64{255, 256, 32767, 32768, 32769, 65535, 65536, 70000}), rapid.Uint64Range(1, 70000)).Draw(t, "n")
	c := skipLargeCase{}
	if rapid.IntRange(0, 2).Draw(t, "hostile") == 0 {
		n = rapid.SampledFrom([]uint64{1 << 31, 1<<31 + 1, 1<<31 - 1, 1<<32 - 1, 1<<32 - 2, 1 << 30, 3 << 30}).Draw(t, "huge")
	}
	m := rapid.Bool().Draw(t, "map")
	var forms [][]byte
	if m {
		forms = lenForms(n, 0x80, 16, 0, 0xde, 0xdf)
	} else {
		forms = lenForms(n, 0x90, 16, 0, 0xdc, 0xdd)
	}
	c.Head = forms[rapid.IntRange(0, len(forms)-1).Draw(t, "form")]
	c.Count = n
	if m {
		c.Count *= 2
	}
	c.Give = int(c.Count)
	if c.Count > 1<<20 {
		c.Give = rapid.SampledFrom([]int{0, 1, 2, 100}).Draw(t, "give")
	} else if rapid.Bool().Draw(t, "short") {
		c.Give = rapid.IntRange(0, int(c.Count)-1).Draw(t, "give")
		if rapid.Bool().Draw(t, "one") {
			c.Give = int(c.Count) - 1
		}
	}
	for i := 0; i < 3; i++ {
		w := genW(t, 0, true, false)
		if w.B.Len > 40 {
			w.B.Len %= 41
		}
		c.Elem = append(c.Elem, w)
	}
	return c
}

func runSkipLarge(c *pbt.Ctx, cs skipLargeCase) error {
	raw := append([]byte{}, cs.Head...)
	var enc [][]byte
	for _, e := range cs.Elem {
		enc = append(enc, e.Encode(nil))
	}
	for i := 0; i < cs.Give; i++ {
		raw = append(raw, enc[i%len(enc)]...)
	}
	c.NonTrivialIf(cs.Count > 255)
	c.Label(fmt.Sprintf("complete=%v", uint64(cs.Give) == cs.Count))
	if uint64(cs.Give) < cs.Count {
		d := msgpack.NewDecoder(raw)
		if err := d.Skip(); err == nil {
			return fmt.Errorf("skipping a value that announces %d objects and holds %d reports no error (header %x)", cs.Count, cs.Give, cs.Head)
		}
		return nil
	}
	d := msgpack.NewDecoder(append(raw, sentinel...))
	if err := d.Skip(); err != nil {
		return fmt.Errorf("skipping %d objects (header %x): %w", cs.Count, cs.Head, err)
	}
	return readSentinel(&d)
}

// ---- C06: typed and nested reads of input that holds no such value

type notCase struct {
	W   W
	Cut int
}

func runNot(c *pbt.Ctx, cs notCase) error {
	c.Label(cs.W.K)
	raw := cs.W.Encode(nil)
	cut := cs.Cut % len(raw)
	whole := cs.W.K == "int" || cs.W.K == "nil"
	if !whole && cut%2 == 0 {
		cut = len(raw) // another kind of value, complete
	}
	if cs.W.K == "nil" {
		cut = 0
	}
	c.NonTrivialIf(cut > 0)
	if cs.W.K == "int" && !fits(cs.W.N, cs.W.U, 64, true) && cs.Cut%3 == 0 {
		cut = len(raw) // an integer out of range
	}
	for _, after := range []bool{false, true} {
		in := append([]byte{}, raw[:cut]...)
		d := msgpack.NewDecoder(in)
		if after {
			d = msgpack.NewDecoder(append([]byte{0x05}, in...))
			if v, err := msgpack.DecodeNillable[intCodec](&d); err != nil || v == nil || v.v != 5 {
				return fmt.Errorf("DecodeNillable of 5 gave %v, %v", v, err)
			}
		}
		e := d
		v, err := msgpack.DecodeNillable[intCodec](&d)
		if err == nil {
			return fmt.Errorf("DecodeNillable of %d bytes of %v (%x) gave %v instead of an error", cut, cs.W.D(), in, v)
		}
		w, err := msgpack.Decode[intCodec](&e)
		if err == nil {
			return fmt.Errorf("Decode of %d bytes of %v (%x) gave %v instead of an error", cut, cs.W.D(), in, w)
		}
	}
	return nil
}

var (
	partLenient   = pbt.NewPart("lenient", 20000, 60000, "nil as an empty container, an array header as a length prefix, extension 13 and RFC 3339 strings as times, a float64 read as float32; non-trivial: all", genLenient, runLenient)
	partLargeAny  = pbt.NewPart("large", 30, 200, "slices and maps around and beyond 65536 elements; non-trivial: all", genLarge, runLargeAny)
	partLarge     = pbt.NewPart("large", 40, 200, "slices and maps around and beyond 65536 elements; non-trivial: all", genLarge, runLarge)
	partSkipLarge = pbt.NewPart("large", 400, 3000, "skipping containers of up to 70000 entries, and headers of up to 2^32-1 with too few; non-trivial: more than 255 objects announced", genSkipLarge, runSkipLarge)
	partNot       = pbt.NewPart("nested", 10000, 40000, "codecs reading truncated input and values of another kind; non-trivial: not empty", func(t *rapid.T) notCase {
		return notCase{genW(t, 1, true, false), rapid.IntRange(0, 1<<16).Draw(t, "cut")}
	}, runNot)
)
