package fr

import (
	"bytes"
	"fmt"
	"testing"
	"unicode/utf8"

	"github.com/tetratelabs/wabin/wasm"
	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/transport/wasmrs/customsections"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// ---- C32

// secE is one section of a generated module.
type secE struct {
	ID       byte     // 0 = custom
	Name     string   `json:",omitempty"`
	Body     pbt.Blob // content, after the name for a custom section
	PadSize  int      `json:",omitempty"` // extra LEB128 bytes of the section size
	PadName  int      `json:",omitempty"` // extra LEB128 bytes of the name length
	LieSize  int      `json:",omitempty"` // added to the section size
	LieName  int      `json:",omitempty"` // added to the name length
	BadUTF8  bool     `json:",omitempty"`
	HugeSize uint32   `json:",omitempty"`
	HugeName uint32   `json:",omitempty"`
	Stub     int      `json:",omitempty"` // content cut to Stub-1 bytes
}

type modCase struct {
	Secs  []secE
	Want  []string
	Cut   int `json:",omitempty"` // bytes dropped from the end, modulo the length
	Flips []int
}

func leb(v uint32, pad int) []byte {
	var out []byte
	for {
		b := byte(v & 0x7f)
		v >>= 7
		if v == 0 {
			out = append(out, b)
			break
		}
		out = append(out, b|0x80)
	}
	for pad > 0 && len(out) < 5 {
		out[len(out)-1] |= 0x80
		out = append(out, 0)
		pad--
	}
	return out
}

func (e secE) wire() []byte {
	var content []byte
	if e.ID == 0 {
		nm := []byte(e.Name)
		if e.BadUTF8 {
			nm = append(nm, 0xC3)
		}
		nl := uint32(len(nm) + e.LieName)
		if e.HugeName != 0 {
			nl = e.HugeName
		}
		content = append(leb(nl, e.PadName), nm...)
	}
	content = append(content, e.Body.Bytes()...)
	if e.Stub > 0 {
		content = content[:min(len(content), e.Stub-1)]
	}
	sz := uint32(len(content) + e.LieSize)
	if e.HugeSize != 0 {
		sz = e.HugeSize
	}
	return append(append([]byte{e.ID}, leb(sz, e.PadSize)...), content...)
}

func (m modCase) wire() []byte {
	out := []byte{0, 'a', 's', 'm', 1, 0, 0, 0}
	for _, s := range m.Secs {
		out = append(out, s.wire()...)
	}
	for _, f := range m.Flips {
		out[f%len(out)] ^= byte(1 << (f % 8))
	}
	return out[:len(out)-m.Cut%(len(out)+1)]
}

func readLeb(b []byte, at int) (uint32, int, error) {
	var v uint64
	for i := 0; i < 5; i++ {
		if at >= len(b) {
			return 0, 0, fmt.Errorf("integer cut short")
		}
		c := b[at]
		at++
		v |= uint64(c&0x7f) << (7 * i)
		if c&0x80 == 0 {
			if v > 0xFFFFFFFF {
				return 0, 0, fmt.Errorf("integer over 32 bits")
			}
			return uint32(v), at, nil
		}
	}
	return 0, 0, fmt.Errorf("integer too long")
}

// parseModule is the reference: the custom sections by name, in order; strict
// is false when the section order or ids are not the specification's.
func parseModule(b []byte) (secs map[string][][]byte, strict bool, err error) {
	if len(b) < 8 || !bytes.Equal(b[:8], []byte{0, 'a', 's', 'm', 1, 0, 0, 0}) {
		return nil, true, fmt.Errorf("bad preamble")
	}
	strict = true
	secs = map[string][][]byte{}
	rank := map[byte]int{1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 7, 8: 8, 9: 9, 12: 10, 10: 11, 11: 12}
	last := 0
	for at := 8; at < len(b); {
		id := b[at]
		size, p, err := readLeb(b, at+1)
		if err != nil {
			return nil, strict, err
		}
		if uint64(size) > uint64(len(b)-p) {
			return nil, strict, fmt.Errorf("section runs past the end")
		}
		end := p + int(size)
		if id == 0 {
			nl, np, err := readLeb(b[:end], p)
			if err != nil {
				return nil, strict, err
			}
			if uint64(nl) > uint64(end-np) {
				return nil, strict, fmt.Errorf("name runs past its section")
			}
			nm := b[np : np+int(nl)]
			if !utf8.Valid(nm) {
				return nil, strict, fmt.Errorf("name is not UTF-8")
			}
			secs[string(nm)] = append(secs[string(nm)], b[np+int(nl):end])
		} else {
			if rank[id] <= last {
				strict = false
			}
			last = rank[id]
		}
		at = end
	}
	return secs, strict, nil
}

func runSections(c *pbt.Ctx, m modCase) error {
	in := m.wire()
	keep := append([]byte{}, in...)
	want, strict, werr := parseModule(in)
	var got map[string]*wasm.CustomSection
	var err error
	var bad error
	used := allocDuring(func() {
		bad = pbt.Safely(func() error {
			got, err = customsections.Read(in, m.Want...)
			return nil
		})
	})
	if bad != nil {
		return fmt.Errorf("reading %d bytes (%s): %w", len(in), pbt.Trunc(in), bad)
	}
	if lim := uint64(16*len(in) + 1<<16); used > lim {
		return fmt.Errorf("reading %d bytes (%s) allocated %d", len(in), pbt.Trunc(in), used)
	}
	if !bytes.Equal(in, keep) {
		return fmt.Errorf("the input was changed")
	}
	if werr != nil {
		c.Label("malformed")
		c.NonTrivial()
		if err == nil {
			return fmt.Errorf("malformed module (%v) accepted: %s", werr, pbt.Trunc(in))
		}
		return nil
	}
	if err != nil {
		if !strict {
			c.Label("undecided")
			return nil
		}
		return fmt.Errorf("well-formed module rejected: %v: %s", err, pbt.Trunc(in))
	}
	c.Label("well-formed")
	asked := map[string]bool{}
	for _, n := range m.Want {
		asked[n] = true
	}
	for n, alts := range want {
		if !asked[n] {
			continue
		}
		c.NonTrivial()
		s, ok := got[n]
		if !ok || s == nil {
			return fmt.Errorf("section %q of %d bytes not found", n, len(alts[0]))
		}
		if s.Name != n {
			return fmt.Errorf("section %q is named %q", n, s.Name)
		}
		match := false
		for _, a := range alts {
			match = match || bytes.Equal(a, s.Data)
		}
		if !match {
			return pbt.EqBytes(fmt.Sprintf("section %q", n), s.Data, alts[len(alts)-1])
		}
	}
	for n := range got {
		if !asked[n] || want[n] == nil {
			return fmt.Errorf("section %q returned (asked for: %v, present: %v)", n, asked[n], want[n] != nil)
		}
	}
	return nil
}

var secNames = []string{"apex", "iota/v1", "name", "producers", "", "é世", "apexx", "APEX"}

func genSecs(t *rapid.T, max int, big bool) []secE {
	order := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 10, 11}
	oi := 0
	var out []secE
	lens := pbt.Lens(40, 0, 127, 128, 300)
	if big {
		lens = pbt.Lens(1<<16, 16383, 16384, 1<<20)
	}
	for range rapid.IntRange(0, max).Draw(t, "n") {
		s := secE{PadSize: rapid.SampledFrom([]int{0, 0, 0, 1, 4}).Draw(t, "pad"), Body: pbt.GenBlob(t, lens)}
		if rapid.IntRange(0, 2).Draw(t, "kind") == 0 && oi < len(order) {
			oi += rapid.IntRange(0, 2).Draw(t, "skip")
			if oi < len(order) {
				s.ID = order[oi]
				oi++
				out = append(out, s)
				continue
			}
		}
		s.Name = rapid.OneOf(rapid.SampledFrom(secNames), rapid.SampledFrom(secNames), rapid.StringN(0, 140, -1)).Draw(t, "name")
		s.PadName = rapid.SampledFrom([]int{0, 0, 0, 1, 4}).Draw(t, "padname")
		out = append(out, s)
	}
	return out
}

func genWant(t *rapid.T, secs []secE) []string {
	pool := append([]string{}, secNames...)
	for _, s := range secs {
		if s.ID == 0 {
			pool = append(pool, s.Name)
		}
	}
	return rapid.SliceOfN(rapid.SampledFrom(pool), 0, 5).Draw(t, "want")
}

func TestC32(t *testing.T) {
	pbt.Check(t, "C32",
		pbt.NewPart("wellformed", 12000, 60000, "a requested section is present",
			func(t *rapid.T) modCase {
				s := genSecs(t, 7, false)
				return modCase{Secs: s, Want: genWant(t, s)}
			}, runSections),
		pbt.NewPart("large", 60, 300, "a requested section is present",
			func(t *rapid.T) modCase {
				s := genSecs(t, 4, true)
				return modCase{Secs: s, Want: genWant(t, s)}
			}, runSections),
		pbt.NewPart("malformed", 15000, 80000, "the module is malformed or holds a requested section",
			func(t *rapid.T) modCase {
				s := genSecs(t, 5, false)
				m := modCase{Want: genWant(t, s)}
				for range rapid.IntRange(0, 1).Draw(t, "lies") {
					if len(s) == 0 {
						break
					}
					e := &s[rapid.IntRange(0, len(s)-1).Draw(t, "which")]
					huge := []uint32{0xFFFFFFFF, 0xFFFFFFFB, 0xFFFFFFFE, 0x7FFFFFFF, 0x80000000, 1 << 28}
					switch rapid.IntRange(0, 7).Draw(t, "lie") {
					case 0:
						e.LieSize = rapid.SampledFrom([]int{1, -1, 2, 5, 100, -2}).Draw(t, "by")
						if n := len(e.wire()); e.LieSize < 0 && n < 20 {
							e.LieSize = 1
						}
					case 1:
						e.LieName = rapid.SampledFrom([]int{1, 2, 100, 5000}).Draw(t, "by")
					case 2:
						e.BadUTF8 = true
					case 3:
						e.HugeSize = rapid.SampledFrom(huge).Draw(t, "huge")
					case 4:
						e.HugeName = rapid.SampledFrom(huge).Draw(t, "huge")
					case 5:
						e.ID = rapid.Byte().Draw(t, "id")
					case 6:
						e.Stub = rapid.IntRange(1, 4).Draw(t, "stub")
					case 7: // at the very end
						x := *e
						x.ID, x.Stub = 0, rapid.IntRange(1, 4).Draw(t, "stub")
						s = append(s, x)
					}
				}
				m.Secs = s
				if rapid.Bool().Draw(t, "cut?") {
					m.Cut = rapid.IntRange(0, 400).Draw(t, "cut")
				}
				m.Flips = rapid.SliceOfN(rapid.IntRange(0, 4095), 0, 2).Draw(t, "flips")
				return m
			}, runSections),
		pbt.NewPart("random", 4000, 20000, "bytes after a valid preamble", func(t *rapid.T) []byte {
			return rapid.SliceOfN(rapid.OneOf(rapid.Just(byte(0)), rapid.ByteRange(0, 12), rapid.Byte()), 0, 40).Draw(t, "b")
		}, func(c *pbt.Ctx, tail []byte) error {
			return runRawSections(c, append([]byte{0, 'a', 's', 'm', 1, 0, 0, 0}, tail...))
		}),
	)
}

func runRawSections(c *pbt.Ctx, in []byte) error {
	want, strict, werr := parseModule(in)
	names := append([]string{}, secNames...)
	for n := range want {
		names = append(names, n)
	}
	var got map[string]*wasm.CustomSection
	var err error
	used := allocDuring(func() { got, err = customsections.Read(in, names...) })
	if used > uint64(16*len(in)+1<<16) {
		return fmt.Errorf("reading %x allocated %d", in, used)
	}
	c.NonTrivialIf(len(in) > 10)
	if werr != nil {
		if err == nil {
			return fmt.Errorf("malformed module (%v) accepted: %x", werr, in)
		}
		return nil
	}
	if err != nil {
		if strict {
			return fmt.Errorf("well-formed module rejected: %v: %x", err, in)
		}
		return nil
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d sections found, %d present: %x", len(got), len(want), in)
	}
	for n, alts := range want {
		if s := got[n]; s == nil || len(alts) == 1 && !bytes.Equal(s.Data, alts[0]) {
			return fmt.Errorf("section %q: got %+v, want %x in %x", n, s, alts[0], in)
		}
	}
	return nil
}
