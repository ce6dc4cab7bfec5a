package mp

import (
	"math"
	"strconv"
	"time"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/msgpack"
)

// Val is a dynamic Go value of a supported kind, in serialisable form.
type Val struct {
	K  string // Go kind: nil bool int..uint64 f32 f64 str bytes time codec []T map[..]..
	U  uint64 `json:",omitempty"`
	X  uint32 `json:",omitempty"`
	B  Blob   `json:",omitzero"`
	L  []Val  `json:",omitempty"` // elements, or key, value, ...
	Op *Op    `json:",omitempty"`
}

var valScalars = []string{"nil", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "f32", "f64", "str", "bytes", "time"}
var valSlices = []string{"[]str", "[]bool", "[]int", "[]int8", "[]int16", "[]int32", "[]int64", "[]uint", "[]uint16", "[]uint32", "[]uint64", "[]time", "[]any", "[]any", "[]any"}
var valMaps = []string{"map[str]str", "map[str]any", "map[int]any", "map[int8]any", "map[int16]any", "map[int32]any", "map[int64]any", "map[uint]any", "map[uint8]any", "map[uint16]any", "map[uint32]any", "map[uint64]any", "map[any]any", "map[any]any"}

func intBits(k string) (bits int, signed bool) {
	switch k {
	case "int":
		return strconv.IntSize, true
	case "int64":
		return 64, true
	case "int8":
		return 8, true
	case "int16":
		return 16, true
	case "int32":
		return 32, true
	case "uint":
		return strconv.IntSize, false
	case "uint64":
		return 64, false
	case "uint8":
		return 8, false
	case "uint16":
		return 16, false
	case "uint32":
		return 32, false
	}
	return 0, false
}

func genValScalar(t *rapid.T, k string) Val {
	v := Val{K: k}
	if bits, _ := intBits(k); bits > 0 {
		neg, mag := genIntMag(t)
		if neg {
			mag = -mag
		}
		if bits < 64 {
			mag &= 1<<bits - 1
		}
		v.U = mag
		return v
	}
	switch k {
	case "bool":
		v.U = uint64(rapid.IntRange(0, 1).Draw(t, "b"))
	case "f32":
		v.U = uint64(math.Float32bits(rapid.Float32().Draw(t, "f")))
	case "f64":
		v.U = math.Float64bits(rapid.Float64().Draw(t, "f"))
	case "str", "bytes":
		v.B = genBlob(t, true)
	case "time":
		v.U, v.X = uint64(genSecs(t)), genNanos(t)
	}
	return v
}

func genVal(t *rapid.T, depth int) Val {
	kinds := valScalars
	switch c := rapid.IntRange(0, 9).Draw(t, "class"); {
	case depth > 0 && c >= 7:
		kinds = valMaps
	case depth > 0 && c >= 3:
		kinds = valSlices
	case depth > 0 && c == 2:
		o := genScalar(t, rapid.SampledFrom(scalarKinds).Draw(t, "ck"), true)
		return Val{K: "codec", Op: &o}
	}
	k := rapid.SampledFrom(kinds).Draw(t, "vk")
	n := 0
	if k[0] == '[' || k[0] == 'm' {
		n = rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(14, 18)).Draw(t, "n")
		if n > 4 {
			depth = 1
		}
	}
	v := Val{K: k}
	switch {
	case k[0] == '[':
		for i := 0; i < n; i++ {
			if e := k[2:]; e != "any" {
				v.L = append(v.L, genValScalar(t, e))
			} else {
				v.L = append(v.L, genVal(t, depth-1))
			}
		}
		return v
	case k[0] == 'm':
		end := 4
		for k[end] != ']' {
			end++
		}
		kk, ek := k[4:end], k[end+1:]
		var seen []D
	loop:
		for i := 0; i < n; i++ {
			ki := kk
			if kk == "any" {
				ki = rapid.SampledFrom([]string{"str", "int", "uint8", "int16", "bool", "nil", "uint64", "time"}).Draw(t, "kk")
			}
			key := genValScalar(t, ki)
			if key.B.Len > 300 {
				key.B.Len = 300
			}
			kd := key.D()
			for _, s := range seen {
				if eqD(s, kd) {
					continue loop
				}
			}
			seen = append(seen, kd)
			if ek == "str" {
				v.L = append(v.L, key, genValScalar(t, "str"))
			} else {
				v.L = append(v.L, key, genVal(t, depth-1))
			}
		}
		return v
	}
	return genValScalar(t, k)
}

func sl[T any](v Val) []T {
	out := []T{}
	for _, e := range v.L {
		out = append(out, e.Go().(T))
	}
	return out
}

func anyMap[K comparable](v Val) map[K]any {
	m := map[K]any{}
	for i := 0; i < len(v.L); i += 2 {
		m[v.L[i].Go().(K)] = v.L[i+1].Go()
	}
	return m
}

// Go builds the Go value.
func (v Val) Go() any {
	switch v.K {
	case "nil":
		return nil
	case "bool":
		return v.U == 1
	case "int":
		return int(v.U)
	case "int8":
		return int8(v.U)
	case "int16":
		return int16(v.U)
	case "int32":
		return int32(v.U)
	case "int64":
		return int64(v.U)
	case "uint":
		return uint(v.U)
	case "uint8":
		return uint8(v.U)
	case "uint16":
		return uint16(v.U)
	case "uint32":
		return uint32(v.U)
	case "uint64":
		return v.U
	case "f32":
		return math.Float32frombits(uint32(v.U))
	case "f64":
		return math.Float64frombits(v.U)
	case "str":
		return string(v.B.Bytes())
	case "bytes":
		return v.B.Bytes()
	case "time":
		return time.Unix(int64(v.U), int64(v.X)).UTC()
	case "codec":
		return msgpack.Codec(&opCodec{[]Op{*v.Op}})
	case "[]str":
		return sl[string](v)
	case "[]bool":
		return sl[bool](v)
	case "[]int":
		return sl[int](v)
	case "[]int8":
		return sl[int8](v)
	case "[]int16":
		return sl[int16](v)
	case "[]int32":
		return sl[int32](v)
	case "[]int64":
		return sl[int64](v)
	case "[]uint":
		return sl[uint](v)
	case "[]uint16":
		return sl[uint16](v)
	case "[]uint32":
		return sl[uint32](v)
	case "[]uint64":
		return sl[uint64](v)
	case "[]time":
		return sl[time.Time](v)
	case "[]any":
		out := []any{}
		for _, e := range v.L {
			out = append(out, e.Go())
		}
		return out
	case "map[str]str":
		m := map[string]string{}
		for i := 0; i < len(v.L); i += 2 {
			m[v.L[i].Go().(string)] = v.L[i+1].Go().(string)
		}
		return m
	case "map[str]any":
		return anyMap[string](v)
	case "map[int]any":
		return anyMap[int](v)
	case "map[int8]any":
		return anyMap[int8](v)
	case "map[int16]any":
		return anyMap[int16](v)
	case "map[int32]any":
		return anyMap[int32](v)
	case "map[int64]any":
		return anyMap[int64](v)
	case "map[uint]any":
		return anyMap[uint](v)
	case "map[uint8]any":
		return anyMap[uint8](v)
	case "map[uint16]any":
		return anyMap[uint16](v)
	case "map[uint32]any":
		return anyMap[uint32](v)
	case "map[uint64]any":
		return anyMap[uint64](v)
	case "map[any]any":
		m := map[any]any{}
		for i := 0; i < len(v.L); i += 2 {
			m[v.L[i].Go()] = v.L[i+1].Go()
		}
		return m
	}
	panic("bad val kind " + v.K)
}

// D is the wire value v stands for.
func (v Val) D() D {
	if bits, signed := intBits(v.K); bits > 0 {
		if signed {
			return intD(signExt(v.U, bits))
		}
		return D{K: "int", U: v.U}
	}
	switch v.K {
	case "nil":
		return D{K: "nil"}
	case "bool":
		return D{K: "bool", Neg: v.U == 1}
	case "f32", "f64":
		return D{K: v.K, U: v.U}
	case "str":
		return D{K: "str", B: v.B.Bytes()}
	case "bytes":
		return D{K: "bin", B: v.B.Bytes()}
	case "time":
		return D{K: "time", U: v.U, X: v.X}
	case "codec":
		return v.Op.D()[0]
	}
	d := D{K: "arr"}
	if v.K[0] == 'm' {
		d.K = "map"
	}
	for _, e := range v.L {
		d.L = append(d.L, e.D())
	}
	return d
}
