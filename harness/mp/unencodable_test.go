package mp

import (
	"errors"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transform"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// ---- C41

var errCodec = errors.New("this value has no encoding")

// node is a dynamic value some of whose parts cannot be encoded.
type node struct {
	K string // see build
	V int
	L []node `json:",omitempty"`
}

var badKinds = []string{"unsupported", "fails", "grows"}

// partCodec is a user codec.
type partCodec struct {
	n      node
	passes int
	parts  []any
}

func (c *partCodec) Decode(msgpack.Reader) error { return nil }

func (c *partCodec) Encode(w msgpack.Writer) error {
	c.passes++
	switch c.n.K {
	case "fails": // after V%4 items, in every pass or only in the second
		w.WriteArraySize(uint32(c.n.V%4 + 1))
		for i := range c.n.V % 4 {
			w.WriteInt32(int32(i))
		}
		if c.n.V < 8 || c.passes > 1 {
			return errCodec
		}
		w.WriteNil()
		return nil
	case "grows":
		w.WriteByteArray(make([]byte, c.passes*(c.n.V+1)))
		return nil
	case "codec":
		w.WriteArraySize(uint32(len(c.parts)))
		for _, p := range c.parts {
			w.WriteAny(p)
		}
		return nil
	case "codec err":
		w.WriteMapSize(uint32(len(c.parts)))
		for i, p := range c.parts {
			w.WriteInt8(int8(i))
			w.WriteAny(p)
		}
		return w.Err()
	case "slice":
		return msgpack.WriteSlice(w, c.parts, msgpack.Writer.WriteAny)
	case "map":
		m := map[int32]any{}
		for i, p := range c.parts {
			m[int32(i)] = p
		}
		return msgpack.WriteMap(w, m, msgpack.Writer.WriteInt32, msgpack.Writer.WriteAny)
	}
	panic(pbt.Harness("codec %q", c.n.K))
}

type named int

func unsupported(v int) any {
	x := 1
	return []any{struct{}{}, struct{ A int }{1}, &x, make(chan int), func() {}, complex(1, 2), [2]int{1, 2}, named(3),
		&struct{}{}, []struct{}{{}}, map[string]chan int{}, [][]int{{1}}, uintptr(1), (*string)(nil), map[float64]any{}}[v%15]
}

func mapWith[K comparable](ps []any, key func(i int) K) any {
	m := map[K]any{}
	for i, p := range ps {
		m[key(i)] = p
	}
	return m
}

func (n node) build() any {
	var ps []any
	for _, p := range n.L {
		ps = append(ps, p.build())
	}
	switch n.K {
	case "int":
		return n.V
	case "str":
		return fmt.Sprint(n.V)
	case "nil":
		return nil
	case "unsupported":
		return unsupported(n.V)
	case "list":
		return append([]any{}, ps...)
	case "keys": // the parts are keys
		m := map[any]any{}
		for i, p := range ps {
			if n.L[i].K == "unsupported" {
				switch p.(type) {
				case func(), []struct{}, map[string]chan int, [][]int, map[float64]any:
					p = struct{}{} // not a Go map key
				}
			}
			switch n.L[i].K {
			case "list", "keys", "maps":
				p = i // nor these
			}
			m[p] = i
		}
		return m
	case "maps":
		switch n.V % 12 {
		case 0:
			return mapWith(ps, func(i int) string { return fmt.Sprint(i) })
		case 1:
			return mapWith(ps, func(i int) int { return i })
		case 2:
			return mapWith(ps, func(i int) int8 { return int8(i) })
		case 3:
			return mapWith(ps, func(i int) int16 { return int16(i) })
		case 4:
			return mapWith(ps, func(i int) int32 { return int32(i) })
		case 5:
			return mapWith(ps, func(i int) int64 { return int64(i) })
		case 6:
			return mapWith(ps, func(i int) uint { return uint(i) })
		case 7:
			return mapWith(ps, func(i int) uint8 { return uint8(i) })
		case 8:
			return mapWith(ps, func(i int) uint16 { return uint16(i) })
		case 9:
			return mapWith(ps, func(i int) uint32 { return uint32(i) })
		case 10:
			return mapWith(ps, func(i int) uint64 { return uint64(i) })
		}
		return mapWith(ps, func(i int) any { return i })
	}
	return &partCodec{n: n, parts: ps}
}

// bad counts the parts that cannot be encoded.
func (n node) bad(kind string) int {
	c := 0
	if n.K == kind || kind == "" && contains(badKinds, n.K) {
		c++
	}
	for _, p := range n.L {
		if n.K == "keys" && contains([]string{"list", "keys", "maps"}, p.K) {
			continue
		}
		c += p.bad(kind)
	}
	return c
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func genNode(t *rapid.T, depth int, bad *int) node {
	kinds := []string{"int", "str", "nil"}
	if depth > 0 {
		kinds = []string{"int", "str", "list", "list", "keys", "maps", "maps", "codec", "codec err", "slice", "map"}
	}
	if *bad > 0 && rapid.IntRange(0, 4).Draw(t, "bad") == 0 {
		kinds = badKinds
		*bad--
	}
	n := node{K: rapid.SampledFrom(kinds).Draw(t, "k"), V: rapid.IntRange(0, 15).Draw(t, "v")}
	if !contains([]string{"int", "str", "nil", "unsupported", "fails", "grows"}, n.K) {
		for i, k := 0, rapid.IntRange(0, 4).Draw(t, "n"); i < k; i++ {
			n.L = append(n.L, genNode(t, depth-1, bad))
		}
	}
	return n
}

func runUnencodable(c *pbt.Ctx, n node) error {
	data := func(p payload.Payload, err error) ([]byte, error) {
		if p == nil {
			return nil, err
		}
		return p.Data(), err
	}
	wrap := func(k string) *partCodec { return &partCodec{n: node{K: k}, parts: []any{n.build()}} }
	direct := func(pass int) ([]byte, error) {
		s := msgpack.NewSizer()
		v := n.build()
		s.WriteAny(v)
		s.WriteInt8(1)
		if err := s.Err(); err != nil {
			if pass == 1 {
				return nil, err
			}
		}
		buf := make([]byte, s.Len()+1000)
		e := msgpack.NewEncoder(buf)
		if pass == 1 {
			e = msgpack.NewEncoder(buf[:s.Len()])
		}
		e.WriteAny(v)
		e.WriteInt8(1)
		if err := e.Err(); err != nil {
			return nil, err
		}
		if pass == 2 && n.bad("grows") > 0 {
			return nil, errCodec // there was room for it
		}
		if k := s.Len() - 1; buf[k] != 1 {
			return nil, fmt.Errorf("the sizer said %d", s.Len())
		}
		return buf[:s.Len()-1], nil
	}
	total := n.bad("")
	for _, v := range []struct {
		name string
		enc  func() ([]byte, error)
	}{
		{"AnyToBytes", func() ([]byte, error) { return msgpack.AnyToBytes(n.build()) }},
		{"ToBytes", func() ([]byte, error) { return msgpack.ToBytes(wrap("codec")) }},
		{"ToBytes of a checked codec", func() ([]byte, error) { return msgpack.ToBytes(wrap("codec err")) }},
		{"SliceToBytes", func() ([]byte, error) { return msgpack.SliceToBytes([]any{n.build()}, msgpack.Writer.WriteAny) }},
		{"MapToBytes", func() ([]byte, error) {
			return msgpack.MapToBytes(map[int8]any{1: n.build()}, msgpack.Writer.WriteInt8, msgpack.Writer.WriteAny)
		}},
		{"transform.Any", func() ([]byte, error) { return data(transform.Any.Encode(n.build())) }},
		{"CodecEncode", func() ([]byte, error) { return data(transform.CodecEncode(wrap("slice"))) }},
		{"MsgPackEncode", func() ([]byte, error) { return data(transform.MsgPackEncode(*wrap("map"))) }},
		{"SliceEncode", func() ([]byte, error) {
			return data(transform.SliceEncode(msgpack.Writer.WriteAny)([]any{n.build()}))
		}},
		{"MapEncode", func() ([]byte, error) {
			return data(transform.MapEncode(msgpack.Writer.WriteString, msgpack.Writer.WriteAny)(map[string]any{"x": n.build()}))
		}},
		{"a sizer and an encoder", func() ([]byte, error) { return direct(1) }},
		{"an encoder with enough room", func() ([]byte, error) { return direct(2) }},
	} {
		b, err := v.enc()
		if total > 0 {
			if err == nil {
				return fmt.Errorf("%s: %d parts cannot be encoded, but the result is %s and no error", v.name, total, pbt.Trunc(b))
			}
			if b != nil {
				return fmt.Errorf("%s: returned %s along with error %v", v.name, pbt.Trunc(b), err)
			}
			if n.bad("fails") == total && !errors.Is(err, errCodec) {
				return fmt.Errorf("%s: the error is %v, want the one of the codec", v.name, err)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("%s: %v, but every part can be encoded", v.name, err)
		}
		_, rest, err := refDecode(b)
		if err != nil || len(rest) > 0 {
			return fmt.Errorf("%s: the result is not one message: %v, %d bytes left", v.name, err, len(rest))
		}
	}
	c.NonTrivialIf(total > 0 && len(n.L) > 0)
	for _, k := range badKinds {
		if n.bad(k) > 0 {
			c.Label(k)
		}
	}
	return nil
}

func TestC41(t *testing.T) {
	pbt.Check(t, "C41",
		pbt.NewPart("parts", 5000, 100000, "a part of a compound value cannot be encoded", func(t *rapid.T) node {
			bad := rapid.IntRange(0, 2).Draw(t, "bads")
			return genNode(t, 3, &bad)
		}, runUnencodable))
}
