package uid

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/types/uuid"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// ---- C39

// since1582 is the number of 100 ns ticks from the Gregorian reform to t.
func since1582(t time.Time) *big.Int {
	reform := time.Date(1582, time.October, 15, 0, 0, 0, 0, time.UTC)
	n := big.NewInt(t.Unix() - reform.Unix())
	n.Mul(n, big.NewInt(1e7))
	return n.Add(n, big.NewInt(int64(t.Nanosecond())/100))
}

type clockOp struct {
	K string // get, seq, set, draw, sleep
	N int
}

type tick struct {
	t   uuid.Time
	seq uint16
}

type stamp struct {
	T   int64
	Seq uint16
}

// constant is a source of random bytes.
type constant byte

func (c constant) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(c) + byte(i)*37
	}
	return len(p), nil
}

// runClock runs one history of the clock. Its bubble starts in the year 2000,
// so the clock is set back before every case.
func runClock(c *pbt.Ctx, ops []clockOp) error {
	defer uuid.SetRand(nil)
	return pbt.Bubble(c.T, func() error {
		uuid.SetClockSequence(1)
		uuid.SetClockSequence(2)
		seq := 2           // the model of the sequence, when known
		var last uuid.Time // of the last stamp
		fresh := true      // the sequence was changed after the last stamp
		given := map[tick]int{}
		same := 0
		for i, o := range ops {
			switch o.K {
			case "sleep":
				time.Sleep(time.Duration(o.N))
			case "get":
				t, s, err := uuid.GetTime()
				if err != nil {
					return fmt.Errorf("step %d: GetTime: %v", i, err)
				}
				if want := since1582(time.Now()); big.NewInt(int64(t)).Cmp(want) != 0 {
					return fmt.Errorf("step %d: the time is %d, want %v", i, t, want)
				}
				if s&0xc000 != 0x8000 {
					return fmt.Errorf("step %d: clock sequence %#x does not have the RFC 4122 variant", i, s)
				}
				if got := int(s & 0x3fff); fresh || t > last {
					if got != seq {
						return fmt.Errorf("step %d: the clock sequence became %d from %d although the time had advanced", i, got, seq)
					}
				} else {
					same++
					if got == seq {
						return fmt.Errorf("step %d: the clock sequence is still %d although the time %d has not advanced", i, got, t)
					}
				}
				seq, last, fresh = int(s&0x3fff), t, false
				k := tick{t, s}
				if j, ok := given[k]; ok {
					return fmt.Errorf("steps %d and %d were given the same time %d and sequence %d", j, i, t, seq)
				}
				given[k] = i
			case "seq":
				if got := uuid.ClockSequence(); got != seq {
					return fmt.Errorf("step %d: ClockSequence is %d, want %d", i, got, seq)
				}
			case "set":
				uuid.SetClockSequence(o.N)
				want := o.N & 0x3fff
				if got := uuid.ClockSequence(); got != want {
					return fmt.Errorf("step %d: ClockSequence is %d after SetClockSequence(%d), want %d", i, got, o.N, want)
				}
				if want != seq {
					// Setting a sequence that was used before may repeat its stamps.
					seq, fresh, given = want, true, map[tick]int{}
				}
			case "draw":
				uuid.SetRand(constant(o.N))
				uuid.SetClockSequence(-1)
				got := uuid.ClockSequence()
				uuid.SetClockSequence(-1)
				if again := uuid.ClockSequence(); again != got {
					return fmt.Errorf("step %d: the same random bytes gave the clock sequences %d and %d", i, got, again)
				}
				uuid.SetRand(constant(o.N + 1))
				uuid.SetClockSequence(-1)
				other := uuid.ClockSequence()
				if other == got {
					return fmt.Errorf("step %d: other random bytes gave the same clock sequence %d", i, got)
				}
				if other < 0 || other > 0x3fff {
					return fmt.Errorf("step %d: clock sequence %d", i, other)
				}
				seq, fresh, given = other, true, map[tick]int{}
				c.Label("drawn")
			}
		}
		if same > 0 {
			c.Label("time stood still")
		}
		c.NonTrivialIf(same > 0 && len(given) > 1)
		return nil
	})
}

// runBack sets the clock back: from now to the year 2000.
func runBack(c *pbt.Ctx, seq int) error {
	uuid.SetClockSequence(seq ^ 1)
	uuid.SetClockSequence(seq)
	before := time.Now()
	t1, s1, err := uuid.GetTime()
	if err != nil {
		return err
	}
	after := time.Now()
	if n := big.NewInt(int64(t1)); n.Cmp(since1582(before)) < 0 || n.Cmp(since1582(after)) > 0 {
		return fmt.Errorf("the time is %d between %v and %v", t1, since1582(before), since1582(after))
	}
	return pbt.Bubble(c.T, func() error {
		t2, s2, err := uuid.GetTime()
		if err != nil {
			return err
		}
		if t2 >= t1 {
			return pbt.Harness("the clock was not set back")
		}
		c.NonTrivial()
		if s1 == s2 {
			return fmt.Errorf("the clock was set back from %d to %d but the sequence is still %d", t1, t2, s2&0x3fff)
		}
		return nil
	})
}

type clockConc struct{ G, N int }

// runClockConc takes stamps concurrently, from the real clock.
func runClockConc(c *pbt.Ctx, cc clockConc) error {
	all := make([][]stamp, cc.G)
	var wg sync.WaitGroup
	for g := range cc.G {
		wg.Go(func() {
			for range cc.N {
				t, s, _ := uuid.GetTime()
				all[g] = append(all[g], stamp{int64(t), s})
			}
		})
	}
	wg.Wait()
	seen := map[stamp]bool{}
	times := map[int64]bool{}
	for _, ss := range all {
		for _, s := range ss {
			if seen[s] {
				return fmt.Errorf("time %d with clock sequence %d was given twice", s.T, s.Seq&0x3fff)
			}
			seen[s], times[s.T] = true, true
		}
	}
	c.NonTrivialIf(len(times) < len(seen))
	return nil
}

type stampCase struct {
	B []byte
}

// runStamp reads the time and the sequence out of a UUID.
func runStamp(c *pbt.Ctx, sc stampCase) error {
	var id uuid.UUID
	copy(id[:], sc.B)
	// time_low, time_mid, time_hi without the version
	bits := new(big.Int).SetBytes([]byte{id[6] & 0xf, id[7], id[4], id[5], id[0], id[1], id[2], id[3]})
	if got := id.Time(); big.NewInt(int64(got)).Cmp(bits) != 0 {
		return fmt.Errorf("the time of %x is %d, want %v", id[:], got, bits)
	}
	if got, want := id.ClockSequence(), int(binary.BigEndian.Uint16([]byte{id[8] & 0x3f, id[9]})); got != want {
		return fmt.Errorf("the clock sequence of %x is %d, want %d", id[:], got, want)
	}
	sec, nsec := id.Time().UnixTime()
	at := time.Unix(sec, nsec)
	if got := since1582(at); got.Cmp(bits) != 0 {
		return fmt.Errorf("time %v is %d s %d ns, which is %v", bits, sec, nsec, got)
	}
	if nsec%100 != 0 || nsec >= 1e9 || nsec <= -1e9 {
		return fmt.Errorf("time %v is %d s and %d ns", bits, sec, nsec)
	}
	c.NonTrivial()
	if sec < 0 {
		c.Label("before 1970")
	}
	return nil
}

type firstCase struct {
	Byte int
	Get  bool
}

// runFirst uses the clock for the first time in a process.
func runFirst(c *pbt.Ctx, fc firstCase) error {
	first := func(b int) (s stamp, err error) {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestClockChild$", "-test.v")
		cmd.Env = append(os.Environ(), fmt.Sprintf("VP_CLOCK=%d %v", b, fc.Get), "VP_OUT=")
		r, w, err := os.Pipe()
		if err != nil {
			return s, pbt.Harness("%v", err)
		}
		defer r.Close()
		cmd.ExtraFiles = []*os.File{w}
		out, err := cmd.CombinedOutput()
		w.Close()
		if err != nil {
			return s, fmt.Errorf("first use of the clock: %v\n%s", err, out)
		}
		if err := json.NewDecoder(r).Decode(&s); err != nil {
			return s, pbt.Harness("child: %v\n%s", err, out)
		}
		return s, nil
	}
	a, err := first(fc.Byte)
	if err != nil {
		return err
	}
	b, err := first(fc.Byte + 1)
	if err != nil {
		return err
	}
	if a.Seq == b.Seq {
		return fmt.Errorf("the first clock sequence is %d with random bytes %d and %d", a.Seq&0x3fff, fc.Byte, fc.Byte+1)
	}
	c.NonTrivial()
	return nil
}

func TestClockChild(t *testing.T) {
	var b int
	var get bool
	if _, err := fmt.Sscanf(os.Getenv("VP_CLOCK"), "%d %t", &b, &get); err != nil {
		t.Skip()
	}
	uuid.SetRand(constant(b))
	var s stamp
	if get {
		ti, seq, err := uuid.GetTime()
		if err != nil {
			t.Fatal(err)
		}
		s = stamp{int64(ti), seq & 0x3fff}
	} else {
		s.Seq = uint16(uuid.ClockSequence())
	}
	json.NewEncoder(os.NewFile(3, "out")).Encode(s)
}

func TestC39(t *testing.T) {
	pbt.Check(t, "C39",
		pbt.NewPart("clock", 3000, 60000, "two stamps of one sequence were taken while the time stood still", func(t *rapid.T) []clockOp {
			var ops []clockOp
			for i, n := 0, rapid.IntRange(2, 24).Draw(t, "n"); i < n; i++ {
				o := clockOp{K: rapid.SampledFrom([]string{"get", "get", "get", "sleep", "seq", "set", "draw"}).Draw(t, "k")}
				switch o.K {
				case "sleep":
					o.N = rapid.OneOf(rapid.SampledFrom([]int{1, 50, 99, 100, 101, 199, 1000}), rapid.IntRange(1, 1<<30)).Draw(t, "d")
				case "set":
					o.N = rapid.OneOf(rapid.IntRange(0, 3), rapid.SampledFrom([]int{0x3fff, 0x4000, 0x3ffe, 0x8000, 0xffff, 0x10000, 1 << 30, -2, -3}), rapid.IntRange(0, 1<<20)).Draw(t, "s")
				case "draw":
					o.N = rapid.IntRange(0, 255).Draw(t, "b")
				}
				ops = append(ops, o)
			}
			return ops
		}, runClock),
		pbt.NewPart("back", 300, 3000, "the clock was set back", func(t *rapid.T) int {
			return rapid.IntRange(0, 0x3fff).Draw(t, "seq")
		}, runBack),
		pbt.NewPart("concurrent", 100, 2000, "two stamps have the same time", func(t *rapid.T) clockConc {
			return clockConc{rapid.IntRange(2, 8).Draw(t, "g"), rapid.IntRange(1, 2000).Draw(t, "n")}
		}, runClockConc),
		pbt.NewPart("fields", 5000, 100000, "every UUID", func(t *rapid.T) stampCase {
			return stampCase{genID(t)}
		}, runStamp),
		pbt.NewPart("first", 20, 100, "every case", func(t *rapid.T) firstCase {
			return firstCase{rapid.IntRange(0, 254).Draw(t, "b"), rapid.Bool().Draw(t, "get")}
		}, runFirst),
	)
}
