//go:build !wasi

package rxp

import (
	"fmt"
	"maps"
	"math"
	"slices"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// val carries a value of any transform; each one uses the field it needs.
type val struct {
	I    int64    `json:",omitempty"`
	U    uint64   `json:",omitempty"`
	S    string   `json:",omitempty"`
	B    pbt.Blob `json:",omitempty"`
	Zone int      `json:",omitempty"` // minutes
	L    []int64  `json:",omitempty"`
}

// tf is a transform under test.
type tf struct {
	name, fam string
	enc       func(val) (payload.Payload, error)
	dec       func(payload.Payload) (any, error)
	want      func(val) any
	eq        func(a, b any) bool
	// int families: the value on the wire, and whether it fits this type
	fits func(neg bool, mag uint64) bool
}

func basic[T comparable](name, fam string, t transform.Transform[T], conv func(val) T) tf {
	return tf{name: name, fam: fam,
		enc:  func(v val) (payload.Payload, error) { return t.Encode(conv(v)) },
		dec:  func(p payload.Payload) (any, error) { return t.Decode(p) },
		want: func(v val) any { return conv(v) },
		eq:   func(a, b any) bool { return a == b }}
}

type intLike interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func integer[T intLike](name string, t transform.Transform[T]) tf {
	var zero T
	signed := zero-1 < zero
	x := basic(name, "int", t, func(v val) T {
		if signed {
			return T(v.I)
		}
		return T(v.U)
	})
	x.fits = func(neg bool, mag uint64) bool {
		if neg {
			return signed && int64(T(-int64(mag))) == -int64(mag)
		}
		if signed {
			return mag <= math.MaxInt64 && int64(T(int64(mag))) == int64(mag)
		}
		return uint64(T(mag)) == mag
	}
	return x
}

type (
	myI32 int32
	myI64 int64
	myU64 uint64
	myF32 float32
	myF64 float64
	myStr string
)

func sameFloat(a, b any) bool {
	f := func(x any) (uint64, bool) {
		switch x := x.(type) {
		case float32:
			return uint64(math.Float32bits(x)), x != x
		case float64:
			return math.Float64bits(x), x != x
		case myF32:
			return uint64(math.Float32bits(float32(x))), x != x
		case myF64:
			return math.Float64bits(float64(x)), x != x
		}
		panic("not a float")
	}
	p, pn := f(a)
	q, qn := f(b)
	return p == q || pn && qn
}

func floats[T comparable](name, fam string, t transform.Transform[T], conv func(val) T) tf {
	x := basic(name, fam, t, conv)
	x.eq = sameFloat
	return x
}

// rec is a record with a generated-style codec.
type rec struct {
	A string
	N int64
	P *bool
	L []int64
}

func (r *rec) Decode(d msgpack.Reader) error {
	n, err := d.ReadMapSize()
	if err != nil {
		return err
	}
	for ; n > 0; n-- {
		f, err := d.ReadString()
		if err != nil {
			return err
		}
		switch f {
		case "a":
			r.A, err = d.ReadString()
		case "n":
			r.N, err = d.ReadInt64()
		case "p":
			r.P, err = d.ReadNillableBool()
		case "l":
			r.L, err = msgpack.ReadSlice(d, msgpack.Reader.ReadInt64)
		default:
			err = d.Skip()
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func (r *rec) Encode(w msgpack.Writer) error {
	w.WriteMapSize(4)
	w.WriteString("a")
	w.WriteString(r.A)
	w.WriteString("n")
	w.WriteInt64(r.N)
	w.WriteString("p")
	w.WriteNillableBool(r.P)
	w.WriteString("l")
	return msgpack.WriteSlice(w, r.L, func(w msgpack.Writer, v int64) { w.WriteInt64(v) })
}

func recOf(v val) rec {
	r := rec{A: v.S, N: v.I, L: v.L}
	if v.Zone != 0 {
		b := v.Zone > 0
		r.P = &b
	}
	return r
}

func sameRec(a, b any) bool {
	x, y := a.(rec), b.(rec)
	return x.A == y.A && x.N == y.N && (x.P == nil) == (y.P == nil) && (x.P == nil || *x.P == *y.P) && slices.Equal(x.L, y.L)
}

func timeOf(v val) time.Time {
	const lo, hi = -62167219200 + 200000, 253402300799 - 200000
	sec := lo + int64(v.U%uint64(hi-lo))
	return time.Unix(sec, int64(uint64(v.I)%1e9)).In(time.FixedZone("", v.Zone*60))
}

func tfs() []tf {
	mapOf := func(v val) map[string]int64 {
		m := map[string]int64{}
		for i, x := range v.L {
			m[v.S+strconv.Itoa(i)] = x
		}
		return m
	}
	mapEnc := transform.MapEncode(func(w msgpack.Writer, k string) { w.WriteString(k) }, func(w msgpack.Writer, v int64) { w.WriteInt64(v) })
	mapDec := transform.MapDecode(msgpack.Reader.ReadString, msgpack.Reader.ReadInt64)
	sliceEnc := transform.SliceEncode(func(w msgpack.Writer, v int64) { w.WriteInt64(v) })
	sliceDec := transform.SliceDecode(msgpack.Reader.ReadInt64)
	f32 := func(v val) float32 { return math.Float32frombits(uint32(v.U)) }
	f64 := func(v val) float64 { return math.Float64frombits(v.U) }
	fmtInt := func(i int64) string { return strconv.FormatInt(i, 10) }
	parseInt := func(s string) (int64, error) { return strconv.ParseInt(s, 10, 64) }
	anyInt := func(s string) (int64, error) { i, _ := parseInt(s); return i, nil }
	record := tf{name: "MsgPack", fam: "map",
		enc:  func(v val) (payload.Payload, error) { return transform.MsgPackEncode(recOf(v)) },
		dec:  func(p payload.Payload) (any, error) { return transform.MsgPackDecode[rec](p) },
		want: func(v val) any { return recOf(v) }, eq: sameRec}
	codec := record
	codec.name = "Codec"
	codec.enc = func(v val) (payload.Payload, error) { r := recOf(v); return transform.CodecEncode(&r) }
	codec.dec = func(p payload.Payload) (any, error) {
		var r rec
		err := transform.CodecDecode(p, &r)
		return r, err
	}
	str := func(v val) string { return v.S }
	return []tf{
		basic("String", "str", transform.String, str),
		integer("Int", transform.Int),
		integer("Int64", transform.Int64),
		integer("Int32", transform.Int32),
		integer("Int16", transform.Int16),
		integer("Int8", transform.Int8),
		integer("Uint", transform.Uint),
		integer("Uint64", transform.Uint64),
		integer("Uint32", transform.Uint32),
		integer("Uint16", transform.Uint16),
		integer("Uint8", transform.Uint8),
		floats("Float64", "f64", transform.Float64, f64),
		floats("Float32", "f32", transform.Float32, f32),
		{name: "Bytes", fam: "bin",
			enc:  func(v val) (payload.Payload, error) { return transform.Bytes.Encode(v.B.Bytes()) },
			dec:  func(p payload.Payload) (any, error) { return transform.Bytes.Decode(p) },
			want: func(v val) any { return v.B.Bytes() },
			eq:   func(a, b any) bool { return string(a.([]byte)) == string(b.([]byte)) }},
		basic("Bool", "bool", transform.Bool, func(v val) bool { return v.I < 0 }),
		{name: "Time", fam: "time",
			enc:  func(v val) (payload.Payload, error) { return transform.Time.Encode(timeOf(v)) },
			dec:  func(p payload.Payload) (any, error) { return transform.Time.Decode(p) },
			want: func(v val) any { return timeOf(v) },
			eq: func(a, b any) bool {
				x, y := a.(time.Time), b.(time.Time)
				_, xo := x.Zone()
				_, yo := y.Zone()
				return x.Equal(y) && xo == yo
			}},
		{name: "Any", fam: "any",
			enc:  func(v val) (payload.Payload, error) { return transform.Any.Encode(anyOf(v)) },
			dec:  func(p payload.Payload) (any, error) { return transform.Any.Decode(p) },
			want: anyOf,
			eq:   func(a, b any) bool { return a == b }},
		{name: "Void", fam: "void",
			enc:  func(v val) (payload.Payload, error) { return transform.Void.Encode(struct{}{}) },
			dec:  func(p payload.Payload) (any, error) { return transform.Void.Decode(p) },
			want: func(v val) any { return struct{}{} },
			eq:   func(a, b any) bool { return a == b }},
		integer("Int32Decode", transform.Transform[myI32]{Decode: transform.Int32Decode[myI32], Encode: transform.Int32Encode[myI32]}),
		integer("Int64Decode", transform.Transform[myI64]{Decode: transform.Int64Decode[myI64], Encode: transform.Int64Encode[myI64]}),
		integer("Uint64Decode", transform.Transform[myU64]{Decode: transform.Uint64Decode[myU64], Encode: transform.Uint64Encode[myU64]}),
		floats("Float32Decode", "f32", transform.Transform[myF32]{Decode: transform.Float32Decode[myF32], Encode: transform.Float32Encode[myF32]}, func(v val) myF32 { return myF32(f32(v)) }),
		floats("Float64Decode", "f64", transform.Transform[myF64]{Decode: transform.Float64Decode[myF64], Encode: transform.Float64Encode[myF64]}, func(v val) myF64 { return myF64(f64(v)) }),
		basic("StringDecode", "str", transform.Transform[myStr]{Decode: transform.StringDecode[myStr], Encode: transform.StringEncode[myStr]}, func(v val) myStr { return myStr(v.S) }),
		basic("ToString", "numstr", transform.Transform[int64]{Decode: transform.ToStringDecode(parseInt), Encode: transform.ToStringEncode(fmtInt)}, func(v val) int64 { return v.I }),
		basic("ToString, any text", "anystr", transform.Transform[int64]{Decode: transform.ToStringDecode(anyInt), Encode: transform.ToStringEncode(fmtInt)}, func(v val) int64 { return v.I }),
		record, codec,
		{name: "Slice", fam: "array",
			enc:  func(v val) (payload.Payload, error) { return sliceEnc(v.L) },
			dec:  func(p payload.Payload) (any, error) { return sliceDec(p) },
			want: func(v val) any { return v.L },
			eq:   func(a, b any) bool { return slices.Equal(a.([]int64), b.([]int64)) }},
		{name: "Map", fam: "map",
			enc:  func(v val) (payload.Payload, error) { return mapEnc(mapOf(v)) },
			dec:  func(p payload.Payload) (any, error) { return mapDec(p) },
			want: func(v val) any { return mapOf(v) },
			eq:   func(a, b any) bool { return maps.Equal(a.(map[string]int64), b.(map[string]int64)) }},
	}
}

// anyOf is a dynamic value whose type survives the trip.
func anyOf(v val) any {
	switch v.U % 4 {
	case 0:
		return v.S
	case 1:
		return v.I < 0
	case 2:
		f := math.Float64frombits(v.U)
		if f != f {
			return nil
		}
		return f
	}
	return nil
}

type tfCase struct {
	From, To int
	V        val
	Cut      int // bytes missing at the end; 0 = whole
	Junk     bool
	Raw      []byte
}

// wrong says whether a payload of transform a cannot be one of b: 1 it must be
// rejected, 0 unknown, -1 it is the value itself.
func wrong(a, b tf, v val) int {
	if a.fam == "int" && b.fam == "int" {
		neg, mag := false, uint64(0)
		switch w := fmt.Sprint(a.want(v)); {
		case w[0] == '-':
			i, _ := strconv.ParseInt(w, 10, 64)
			neg, mag = true, uint64(-i)
		default:
			mag, _ = strconv.ParseUint(w, 10, 64)
		}
		if b.fits(neg, mag) {
			return -1
		}
		return 1
	}
	if a.name == b.name {
		return -1
	}
	// Array headers are taken as length prefixes of strings and byte arrays on
	// purpose (see C03).
	undecided := map[string]string{"any": "", "void": "", "map": "map", "f32": "f64", "f64": "f32", "array": "str bin time numstr anystr", "bin": "str time numstr anystr", "str": "bin time numstr anystr", "time": "bin str anystr", "numstr": "bin str anystr", "anystr": "bin str numstr"}
	if a.fam == "any" || a.fam == "void" || b.fam == "any" || b.fam == "void" || a.fam == b.fam {
		return 0
	}
	for _, u := range []string{"str", "bin", "time", "numstr", "anystr", "f32", "f64", "map"} {
		if u == b.fam && contains(undecided[a.fam], u) {
			return 0
		}
	}
	return 1
}

func contains(list, x string) bool {
	for len(list) > 0 {
		n := 0
		for n < len(list) && list[n] != ' ' {
			n++
		}
		if list[:n] == x {
			return true
		}
		list = list[min(n+1, len(list)):]
	}
	return false
}

func runTransform(c *pbt.Ctx, tc tfCase) error {
	all := tfs()
	a, b := all[tc.From%len(all)], all[tc.To%len(all)]
	if tc.Junk {
		// Only survival, and the same answer twice.
		c.Label("arbitrary bytes")
		_, e1 := b.dec(payload.New(slices.Clone(tc.Raw)))
		_, e2 := b.dec(payload.New(slices.Clone(tc.Raw)))
		if (e1 == nil) != (e2 == nil) {
			return fmt.Errorf("%s: decoding %x once gave %v, once %v", b.name, tc.Raw, e1, e2)
		}
		return nil
	}
	p, err := a.enc(tc.V)
	if err != nil {
		return fmt.Errorf("%s: encoding %v: %v", a.name, a.want(tc.V), err)
	}
	got, err := a.dec(p)
	if err != nil {
		return fmt.Errorf("%s: decoding what %v was encoded to (%s): %v", a.name, a.want(tc.V), pbt.Trunc(p.Data()), err)
	}
	if !a.eq(got, a.want(tc.V)) {
		return fmt.Errorf("%s: %v came back as %v", a.name, a.want(tc.V), got)
	}
	if n := len(p.Data()); tc.Cut > 0 && n > 0 && a.fam != "void" {
		k := max(0, n-tc.Cut)
		if got, err := a.dec(payload.New(slices.Clone(p.Data()[:k]))); err == nil {
			return fmt.Errorf("%s: the first %d of %d bytes of the payload decoded to %v", a.name, k, n, got)
		}
		c.Label("cut")
	}
	x, err := b.dec(p)
	if a.name == "String" && b.name == "ToString" {
		if i, e := strconv.ParseInt(tc.V.S, 10, 64); (e != nil) != (err != nil) || e == nil && x != i {
			return fmt.Errorf("%s of %q gave %v, %v", b.name, tc.V.S, x, err)
		}
	}
	switch wrong(a, b, tc.V) {
	case 1:
		c.Label("wrong type")
		c.NonTrivial()
		if err == nil {
			return fmt.Errorf("%s accepted the payload %s of %s %v as %v", b.name, pbt.Trunc(p.Data()), a.name, a.want(tc.V), x)
		}
	case -1:
		if err != nil || a.name == b.name && !a.eq(x, got) || a.name != b.name && fmt.Sprint(x) != fmt.Sprint(got) {
			return fmt.Errorf("%s decoded the payload of %s %v as %v, %v", b.name, a.name, a.want(tc.V), x, err)
		}
	}
	c.NonTrivialIf(len(p.Data()) > 1)
	return nil
}

// adCase drives a stream adapter.
type adCase struct {
	Adapter int // 0 FluxToVoid, 1 FluxToMono, 2 MonoToFlux, 3 there and back
	Src     int
	Items   []int
	Fail    int
	Maps    []mapf
	Start   int // 0 subscribe, 1 async, 2 block
	Later   bool
}

func runAdapter(c *pbt.Ctx, ac adCase) error {
	return pbt.Bubble(c.T, func() error { return runAdapterIn(c, ac) })
}

func runAdapterIn(c *pbt.Ctx, ac adCase) error {
	var later []func()
	act := func(f func()) {
		if ac.Later {
			later = append(later, f)
		} else {
			f()
		}
	}
	// The source, as a stream and as a single value.
	var fl flux.Flux[int]
	items := ac.Items
	end := sig{Err: ac.Fail != 0, V: ac.Fail}
	feed := func(s flux.Sink[int]) {
		for _, v := range ac.Items {
			act(func() { s.Next(v) })
		}
		act(func() {
			if ac.Fail != 0 {
				s.Error(testErr(ac.Fail))
			} else {
				s.Complete()
			}
		})
	}
	switch {
	case ac.Src == 0 && ac.Fail == 0:
		fl = flux.FromSlice(slices.Clone(items))
	case ac.Src == 1 && len(items) == 0 && ac.Fail != 0:
		fl = flux.Error[int](testErr(ac.Fail))
	case ac.Src == 2:
		fl = flux.Create(func(s flux.Sink[int]) {
			done := false
			s.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
				if !done && n > 0 {
					done = true
					feed(s)
				}
			}})
		})
	default:
		fl = flux.Create(feed)
	}
	first := end
	if len(items) > 0 {
		first = sig{V: items[0]}
	}
	raw := first
	var mo mono.Mono[int]
	switch ac.Src {
	case 0:
		if first.Err {
			mo = mono.Error[int](testErr(first.V))
		} else {
			mo = mono.Just(first.V)
		}
	case 1:
		p := mono.NewProcessor[int]()
		mo = p
		if ac.Later {
			later = append(later, func() { raw.send(p) })
		} else {
			raw.send(p)
		}
	default:
		mo = mono.Create(func(s mono.Sink[int]) { act(func() { raw.send(s) }) })
	}
	for _, m := range ac.Maps {
		fl = flux.Map(fl, m.tx)
		mo = mono.Map(mo, m.tx)
	}
	// What the source delivers.
	var mapped []int
	for _, v := range items {
		s := applyMaps(ac.Maps, sig{V: v})
		if s.Err {
			end = s
			break
		}
		mapped = append(mapped, s.V)
	}
	first = applyMaps(ac.Maps, first)

	var got []int
	var ends []sig
	var finals []rx.SignalType
	notified, returned := 0, false
	var res sig
	fin := func(s rx.SignalType) { finals = append(finals, s) }
	note := func(rx.SignalType) { notified++ }
	onErr := func(err error) { s, _ := sigOf(0, err); ends = append(ends, s) }
	var wantItems []int
	var want sig
	monoSub := func(m mono.Mono[int]) {
		m.Notify(note)
		switch ac.Start {
		case 0:
			m.Subscribe(mono.Subscribe[int]{OnSuccess: func(v int) { ends = append(ends, sig{V: v}) }, OnError: onErr, Finally: fin})
		case 1:
			m.Async()
		default:
			go func() { v, err := m.Block(); res, _ = sigOf(v, err); returned = true }()
		}
	}
	switch ac.Adapter {
	case 0:
		want = end
		m := transform.FluxToVoid(fl)
		monoSub(mono.Map(m, func(struct{}) (int, error) { return 0, nil }))
	case 1:
		want = end
		if len(mapped) > 0 {
			want = sig{V: mapped[0]}
		}
		if !want.Err && len(mapped) == 0 {
			return nil // the first value of an empty stream: not specified
		}
		monoSub(transform.FluxToMono(fl))
	case 2:
		want = first
		if !first.Err {
			wantItems, want = []int{first.V}, sig{}
		}
		f := transform.MonoToFlux(mo)
		f.Notify(note)
		s := flux.Subscribe[int]{OnNext: func(v int) { got = append(got, v) }, OnComplete: func() { ends = append(ends, sig{}) }, OnError: onErr, Finally: fin}
		switch ac.Start {
		case 0:
			f.Subscribe(s)
		case 1:
			f.Async()
		default:
			go func() { err := f.Block(s); res, _ = sigOf(0, err); returned = true }()
		}
	default:
		want = first
		monoSub(transform.FluxToMono(transform.MonoToFlux(mo)))
	}
	pbt.Settle()
	for len(later) > 0 {
		f := later[0]
		later = later[1:]
		f()
		pbt.Settle()
	}
	c.NonTrivialIf(len(items) > 0 || ac.Fail != 0)
	if notified != 1 {
		return fmt.Errorf("the result's waiter was notified %d times", notified)
	}
	if ac.Start == 0 || ac.Start == 2 && ac.Adapter == 2 {
		if len(ends) != 1 || ends[0] != want || !slices.Equal(got, wantItems) {
			return fmt.Errorf("delivered %v then %v, want %v then %v", got, ends, wantItems, want)
		}
		if len(finals) != 1 || finals[0] != want.end() {
			return fmt.Errorf("final callbacks %v after %v", finals, want)
		}
	}
	if ac.Start == 2 && (!returned || res != want) {
		return fmt.Errorf("blocking returned %v %v, want %v", returned, res, want)
	}
	return nil
}

type handleCase struct{ N int }

func runHandles(c *pbt.Ctx, hc handleCase) error {
	live := invoke.NewLiveInstances[*int]()
	enc := transform.InterfaceEncode(live)
	seen := map[uint64]bool{}
	for i := range hc.N {
		x := i
		p, err := enc(&x)
		if err != nil {
			return err
		}
		h, err := transform.Uint64.Decode(p)
		if err != nil {
			return fmt.Errorf("handle %d: %v", i, err)
		}
		if inst, ok := live.Get(h); !ok || inst != &x || seen[h] {
			return fmt.Errorf("handle %d of object %d resolves to %v, %v", h, i, inst, ok)
		}
		seen[h] = true
	}
	// Each handle was the only one of its object.
	last := uint64(0)
	for h := range seen {
		last = max(last, h)
		live.Remove(h)
	}
	for h := range min(last, 1<<16) + 64 {
		if inst, ok := live.Get(h); ok {
			return fmt.Errorf("after every handle was removed, handle %d still resolves to object %d", h, *inst)
		}
	}
	c.NonTrivialIf(hc.N > 1)
	return nil
}

func genVal(t *rapid.T) val {
	bits := func(l string) uint64 {
		// Magnitudes around every power of two.
		k := rapid.IntRange(0, 64).Draw(t, l+"k")
		d := rapid.IntRange(-2, 2).Draw(t, l+"d")
		if rapid.IntRange(0, 2).Draw(t, l+"r") == 2 {
			return rapid.Uint64().Draw(t, l)
		}
		var b uint64
		if k < 64 {
			b = 1 << k
		}
		return b + uint64(int64(d))
	}
	v := val{
		I:    int64(bits("i")),
		U:    bits("u"),
		S:    rapid.OneOf(rapid.String(), rapid.StringMatching(`[a-z]{30,34}`), rapid.StringMatching(`-?[0-9]{1,19}`)).Draw(t, "s"),
		B:    pbt.GenBlob(t, pbt.Lens(300, 31, 32, 255, 256, 65535, 65536)),
		Zone: rapid.IntRange(-1439, 1439).Draw(t, "zone"),
		L:    rapid.SliceOfN(rapid.Int64(), 0, 20).Draw(t, "l"),
	}
	if rapid.IntRange(0, 3).Draw(t, "utc") == 0 {
		v.Zone = 0
	}
	return v
}

func TestC23(t *testing.T) {
	n := len(tfs())
	pbt.Check(t, "C23",
		pbt.NewPart("transforms", 30000, 250000, "the payload has a body, or is of the wrong type",
			func(t *rapid.T) tfCase {
				tc := tfCase{From: rapid.IntRange(0, n-1).Draw(t, "from"), To: rapid.IntRange(0, n-1).Draw(t, "to"), V: genVal(t)}
				if rapid.IntRange(0, 2).Draw(t, "cuts") == 2 {
					tc.Cut = rapid.IntRange(1, 40).Draw(t, "cut")
				}
				if rapid.IntRange(0, 9).Draw(t, "junk") == 9 {
					tc.Junk = true
					tc.Raw = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "raw")
				}
				return tc
			}, runTransform),
		pbt.NewPart("adapters", 8000, 60000, "the source delivers an item or fails",
			func(t *rapid.T) adCase {
				ac := adCase{
					Adapter: rapid.IntRange(0, 3).Draw(t, "adapter"),
					Src:     rapid.IntRange(0, 3).Draw(t, "src"),
					Items:   rapid.SliceOfN(rapid.IntRange(0, 9), 0, 5).Draw(t, "items"),
					Maps:    genMaps(t),
					Start:   rapid.IntRange(0, 2).Draw(t, "start"),
					Later:   rapid.Bool().Draw(t, "later"),
				}
				if rapid.Bool().Draw(t, "fails") {
					ac.Fail = rapid.IntRange(1, 40).Draw(t, "fail")
				}
				return ac
			}, runAdapter),
		pbt.NewPart("handles", 300, 2000, "more than one object",
			func(t *rapid.T) handleCase { return handleCase{rapid.IntRange(1, 300).Draw(t, "n")} }, runHandles),
	)
}
