package pbt

import (
	"bytes"
	"fmt"

	"pgregory.net/rapid"
)

// Trunc renders bytes for an error message.
func Trunc(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%x...(%d bytes)", b[:64], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// EqBytes compares byte slices, reporting the first difference.
func EqBytes(what string, got, want []byte) error {
	if bytes.Equal(got, want) {
		return nil
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Errorf("%s: got %s, want %s (first difference at %d, lengths %d and %d)", what, Trunc(got), Trunc(want), i, len(got), len(want))
}

// Blob is a byte string given by its length and a seed, so that large ones
// stay small when saved. Its bytes depend on their position.
type Blob struct {
	N int    `json:",omitempty"`
	S uint32 `json:",omitempty"`
}

// Bytes expands the blob.
func (b Blob) Bytes() []byte {
	out := make([]byte, b.N)
	for i := range out {
		x := (uint32(i) + b.S) * 2654435761
		out[i] = byte(x >> 24)
	}
	return out
}

// GenBlob draws a blob whose length comes from lens.
func GenBlob(t *rapid.T, lens *rapid.Generator[int]) Blob {
	return Blob{lens.Draw(t, "len"), uint32(rapid.IntRange(0, 999).Draw(t, "seed"))}
}

// Lens mixes small lengths with the given special ones.
func Lens(max int, special ...int) *rapid.Generator[int] {
	g := rapid.IntRange(0, max)
	if len(special) == 0 {
		return g
	}
	return rapid.OneOf(rapid.IntRange(0, 12), g, rapid.SampledFrom(special))
}
