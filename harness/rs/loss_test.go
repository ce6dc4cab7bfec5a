package rs

import (
	"context"
	"fmt"
	"net"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/verifharness/e2e"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// Ways to lose a connection.
const (
	loseClient = iota // one end's connection closes
	loseServer
	closeClient // one end closes its transport
	closeServer
	spoilClient // one end gets what is not a frame
	spoilServer
	loseCount
)

var loseNames = [loseCount]string{"client's connection", "server's connection", "client closes", "server closes", "garbage to the client", "garbage to the server"}

var spoils = [][]byte{
	{0, 0, 0, 0, 0, 0},                               // no frame
	{0, 0, 2, 1, 2},                                  // no header
	{0, 0, 6, 0, 0, 0, 1, 63 << 2, 0},                // no such type
	{0, 0, 6, 0, 0, 0, 1, 8 << 2, 0},                 // cut short
	{0, 0, 10, 0, 0, 0, 1, 10<<2 + 1, 0, 0, 0, 9, 1}, // metadata beyond the end
}

type lossCase struct {
	Buffered bool
	How      int
	Spoil    int
	e2e.LossCase
}

func genLoss(t *rapid.T) lossCase {
	return lossCase{
		Buffered: rapid.Bool().Draw(t, "buffered"),
		How:      rapid.IntRange(0, loseCount-1).Draw(t, "how"),
		Spoil:    rapid.IntRange(0, len(spoils)-1).Draw(t, "spoil"),
		LossCase: e2e.GenLoss(t, []int{0, 1}),
	}
}

func runLoss(ctx *pbt.Ctx, c lossCase) error {
	once := func() error {
		return pbt.Bubble(ctx.T, func() error {
			l := e2e.NewLoss(c.Reqs)
			a, b := net.Pipe()
			if c.Buffered {
				a, b = bufPipe()
			}
			client, server, err := connect(context.Background(), l, a, b)
			if err != nil {
				return err
			}
			l.Callers = [2]invoke.Caller{client.h, server.h}
			l.Index = indexer(server)
			l.Lose = func() {
				switch c.How {
				case loseClient:
					a.Close()
				case loseServer:
					b.Close()
				case closeClient:
					client.t.Close()
				case closeServer:
					server.t.Close()
				case spoilServer:
					a.Write(spoils[c.Spoil])
				case spoilClient:
					b.Write(spoils[c.Spoil])
				}
			}
			err = l.Run(c.Steps)
			for i, e := range []*endpoint{client, server} {
				if err != nil {
					break
				}
				var result error
				select {
				case result = <-e.done:
				default:
					err = e.stopped()
					continue
				}
				// What Start returns, where it is certain what it saw.
				switch {
				case c.How == spoilClient+i && result == nil:
					err = fmt.Errorf("Start returned no error for what is not a frame")
				case c.How == loseClient+1-i && result != nil && settled(c.Steps):
					err = fmt.Errorf("Start returned %q when the peer closed the connection", result)
				}
			}
			a.Close()
			b.Close()
			pbt.Settle()
			return err
		})
	}
	times := 2
	if ctx.Replay {
		times = 40
	}
	for range times {
		if err := once(); err != nil {
			return fmt.Errorf("%s: %w", loseNames[c.How], err)
		}
	}
	return nil
}

// settled says whether nothing went on when the connection was lost.
func settled(steps []e2e.LossStep) bool {
	for i, s := range steps {
		if s.K == e2e.LossNow {
			return s.Settle && (i == 0 || steps[i-1].Settle)
		}
	}
	return false
}

// largest is what a frame's length can tell.
const largest = 1<<24 - 1

func runLimits(ctx *pbt.Ctx, reqs []e2e.LimitReq) error {
	return pbt.Bubble(ctx.T, func() error {
		l := e2e.NewLimits(reqs, largest)
		a, b := bufPipe()
		client, server, err := connect(context.Background(), l, a, b)
		if err != nil {
			return err
		}
		l.Callers = [2]invoke.Caller{client.h, server.h}
		l.Index = indexer(server)
		err = l.Run()
		a.Close()
		b.Close()
		pbt.Settle()
		return err
	})
}

func TestC38(t *testing.T) {
	pbt.Check(t, "C38",
		pbt.NewPart("lost", 6000, 60000, "a request that is in progress when the connection is lost", genLoss,
			func(ctx *pbt.Ctx, c lossCase) error {
				ctx.Label(loseNames[c.How])
				ctx.NonTrivialIf(c.Busy() > 0)
				return runLoss(ctx, c)
			}),
		pbt.NewPart("limits", 20, 300, "a message that does not fit",
			func(t *rapid.T) []e2e.LimitReq { return e2e.GenLimits(t, largest, largest+1000000, 2, []int{0, 1}) },
			func(ctx *pbt.Ctx, reqs []e2e.LimitReq) error {
				ctx.NonTrivialIf(e2e.TooLarge(reqs, largest) > 0)
				return runLimits(ctx, reqs)
			}),
	)
}
