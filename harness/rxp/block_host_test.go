//go:build !wasi

package rxp

import (
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// threads is how many cases with concurrent callers to run.
func threads(n int) int { return n }

func blockFlux(f flux.Flux[int], s flux.Subscribe[int]) error { return f.Block(s) }

func blockMono(m mono.Mono[int]) (int, error) { return m.Block() }
