package pbt

import (
	"fmt"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

// Bubble runs f in a synctest bubble: its clock is fake and Settle waits until
// every goroutine of the case is blocked. A panic of f, or goroutines of the
// case that can never run again, become errors.
func Bubble(t *testing.T, f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if err == nil {
				err = fmt.Errorf("stuck: %v\n%s", p, stuck())
			} else {
				err = fmt.Errorf("%w (and then: %v)\n", err, p)
			}
		}
	}()
	synctest.Test(t, func(*testing.T) { err = safely(f) })
	return err
}

// stuck describes the goroutines that are left.
func stuck() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, "synctest bubble") && len(out) < 4 {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

// Settle waits until every other goroutine of the bubble is blocked.
func Settle() { synctest.Wait() }

// Idle waits until every other goroutine of the bubble is blocked, and lets
// hours pass then.
func Idle() {
	Settle()
	time.Sleep(3 * time.Hour)
	Settle()
}
