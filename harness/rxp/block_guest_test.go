//go:build wasi

package rxp

import (
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// With the build tag wasi this package checks the code that is compiled into
// WebAssembly guests: it has one thread, and nothing that blocks, so that waiting
// is done here.

// threads is how many cases with concurrent callers to run.
func threads(int) int { return 0 }

func blockFlux(f flux.Flux[int], s flux.Subscribe[int]) (err error) {
	done := make(chan struct{})
	onError, finally := s.OnError, s.Finally
	s.OnError = func(e error) {
		err = e
		if onError != nil {
			onError(e)
		}
	}
	s.Finally = func(sig rx.SignalType) {
		if finally != nil {
			finally(sig)
		}
		close(done)
	}
	f.Subscribe(s)
	<-done
	return err
}

func blockMono(m mono.Mono[int]) (int, error) {
	done := make(chan struct{})
	m.Async()
	m.Notify(func(rx.SignalType) { close(done) })
	<-done
	return m.Get()
}
