// Package uid checks the UUID package (C33, C34).
package uid

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/types/uuid"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// ---- C33

const canon = `[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}`

var spellings = regexp.MustCompile(`\A(?:(?:[uU][rR][nN]:[uU][uU][iI][dD]:)?` + canon + `|\{` + canon + `\}|[0-9a-fA-F]{32})\z`)

// refParse is the oracle: the accepted spellings as a regular expression.
func refParse(s string) (out [16]byte, ok bool) {
	if !spellings.MatchString(s) {
		return out, false
	}
	if len(s) > 9 && s[3] == ':' {
		s = s[9:]
	}
	s = strings.NewReplacer("-", "", "{", "", "}", "").Replace(s)
	b, err := hex.DecodeString(s)
	if err != nil || len(b) != 16 {
		panic(pbt.Harness("oracle: %q", s))
	}
	copy(out[:], b)
	return out, true
}

func refString(b [16]byte) string {
	x := fmt.Sprintf("%032x", b[:])
	return x[:8] + "-" + x[8:12] + "-" + x[12:16] + "-" + x[16:20] + "-" + x[20:]
}

type ucase struct {
	B    []byte
	Form int
	Case int // which letters are upper case, by position bit
}

func spell(b [16]byte, form, cs int) string {
	s := refString(b)
	switch form {
	case 1:
		s = "urn:uuid:" + s
	case 2:
		s = "{" + s + "}"
	case 3:
		s = strings.ReplaceAll(s, "-", "")
	}
	out := []byte(s)
	for i := range out {
		if cs>>(i%13)&1 == 1 && out[i] >= 'a' && out[i] <= 'z' {
			out[i] -= 32
		}
	}
	return string(out)
}

// parseAll runs every textual parser and demands that they agree with the oracle.
func parseAll(s string) error {
	want, ok := refParse(s)
	type res struct {
		name string
		id   uuid.UUID
		err  error
	}
	var rs []res
	id, err := uuid.Parse(s)
	rs = append(rs, res{"Parse", id, err})
	in := []byte(s)
	id2, err2 := uuid.ParseBytes(in)
	rs = append(rs, res{"ParseBytes", id2, err2})
	if string(in) != s {
		return fmt.Errorf("ParseBytes(%q) changed its input to %q", s, in)
	}
	before := uuid.UUID{0: 0x5a, 3: byte(len(s)), 9: 0xff, 15: 1}
	id3 := before
	err3 := id3.UnmarshalText(in)
	if err3 != nil && id3 != before {
		return fmt.Errorf("UnmarshalText(%q) failed but changed the UUID to %x", s, id3[:])
	}
	rs = append(rs, res{"UnmarshalText", id3, err3})
	if string(in) != s {
		return fmt.Errorf("UnmarshalText(%q) changed its input to %q", s, in)
	}
	var id4 uuid.UUID
	err4 := pbt.Safely(func() error { id4 = uuid.MustParse(s); return nil })
	rs = append(rs, res{"MustParse", id4, err4})
	for _, r := range rs {
		if ok && r.err != nil {
			return fmt.Errorf("%s(%q): %v", r.name, s, r.err)
		}
		if !ok && r.err == nil {
			return fmt.Errorf("%s(%q) accepted as %x", r.name, s, r.id[:])
		}
		if ok && [16]byte(r.id) != want {
			return fmt.Errorf("%s(%q) = %x, want %x", r.name, s, r.id[:], want[:])
		}
	}
	switch len(s) {
	case 32, 36, 38, 45:
	default:
		if !uuid.IsInvalidLengthError(err) || !uuid.IsInvalidLengthError(err2) {
			return fmt.Errorf("Parse of %d characters: %v, %v, want a length error", len(s), err, err2)
		}
	}
	return nil
}

func genID(t *rapid.T) []byte {
	return rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 255, 0x7f, 0x80, 0x0a, 0xf0})), 16, 16).Draw(t, "id")
}

func runForms(c *pbt.Ctx, uc ucase) error {
	var b [16]byte
	copy(b[:], uc.B)
	id := uuid.UUID(b)
	c.NonTrivial()
	want := refString(b)
	if s := id.String(); s != want {
		return fmt.Errorf("String of %x = %q, want %q", b, s, want)
	}
	if s := id.URN(); s != "urn:uuid:"+want {
		return fmt.Errorf("URN of %x = %q", b, s)
	}
	txt, err := id.MarshalText()
	if err != nil || string(txt) != want {
		return fmt.Errorf("MarshalText of %x = %q, %v", b, txt, err)
	}
	bin, err := id.MarshalBinary()
	if err != nil || !bytes.Equal(bin, b[:]) {
		return fmt.Errorf("MarshalBinary of %x = %x, %v", b, bin, err)
	}
	for i := range bin {
		bin[i] ^= 0xff // must not be the UUID's own memory
	}
	if [16]byte(id) != b {
		return fmt.Errorf("MarshalBinary of %x shares its memory", b)
	}
	src := append([]byte{}, b[:]...)
	var back uuid.UUID
	if err := back.UnmarshalBinary(src); err != nil || back != id {
		return fmt.Errorf("UnmarshalBinary of %x = %x, %v", b, back[:], err)
	}
	fb, err := uuid.FromBytes(src)
	if err != nil || fb != id {
		return fmt.Errorf("FromBytes of %x = %x, %v", b, fb[:], err)
	}
	src[0] ^= 0xff
	if fb != id || back != id {
		return fmt.Errorf("FromBytes or UnmarshalBinary of %x keeps its input", b)
	}
	js, err := json.Marshal(id)
	if err != nil || string(js) != `"`+want+`"` {
		return fmt.Errorf("JSON of %x = %s, %v", b, js, err)
	}
	var jb uuid.UUID
	if err := json.Unmarshal(js, &jb); err != nil || jb != id {
		return fmt.Errorf("from JSON %s = %x, %v", js, jb[:], err)
	}
	if _, ok := refParse(spell(b, uc.Form, uc.Case)); !ok {
		return pbt.Harness("spelling %q", spell(b, uc.Form, uc.Case))
	}
	return parseAll(spell(b, uc.Form, uc.Case))
}

func runFields(c *pbt.Ctx, raw []byte) error {
	var b [16]byte
	copy(b[:], raw)
	id := uuid.UUID(b)
	c.NonTrivial()
	if v := int(id.Version()); v != int(b[6])/16 {
		return fmt.Errorf("version of %x = %d", b, v)
	}
	// RFC 4122 4.1.1: the variant by the leading bits of octet 8.
	bits := fmt.Sprintf("%08b", b[8])
	wantV := uuid.Reserved
	switch {
	case strings.HasPrefix(bits, "10"):
		wantV = uuid.RFC4122
	case strings.HasPrefix(bits, "110"):
		wantV = uuid.Microsoft
	case strings.HasPrefix(bits, "111"):
		wantV = uuid.Future
	}
	if v := id.Variant(); v != wantV {
		return fmt.Errorf("variant of %x = %v, want %v", b, v, wantV)
	}
	c.Label(wantV.String())
	// RFC 4122 4.1.2 and 4.1.4: time_hi(12) time_mid(16) time_low(32), in 100 ns since 1582-10-15.
	x := new(big.Int)
	hx := fmt.Sprintf("%x", b)
	x.SetString(hx[13:16]+hx[8:12]+hx[:8], 16)
	if tm := id.Time(); big.NewInt(int64(tm)).Cmp(x) != 0 {
		return fmt.Errorf("time of %x = %d, want %s", b, tm, x)
	}
	sec, nsec := id.Time().UnixTime()
	start := time.Date(1582, 10, 15, 0, 0, 0, 0, time.UTC)
	ticks := x.Int64()
	want := time.Unix(start.Unix()+ticks/1e7, ticks%1e7*100)
	if got := time.Unix(sec, nsec); !got.Equal(want) {
		return fmt.Errorf("Unix time of %x = %v, want %v", b, got.UTC(), want.UTC())
	}
	wantSeq := (int(b[8])*256 + int(b[9])) % 16384
	if s := id.ClockSequence(); s != wantSeq {
		return fmt.Errorf("clock sequence of %x = %d, want %d", b, s, wantSeq)
	}
	seq := int(b[0])<<8 | int(b[1])
	uuid.SetClockSequence(seq)
	if s := uuid.ClockSequence(); s != seq%16384 {
		return fmt.Errorf("clock sequence set to %d reads %d", seq, s)
	}
	before := time.Now()
	tm, sq, err := uuid.GetTime()
	after := time.Now()
	if err != nil {
		return fmt.Errorf("GetTime: %v", err)
	}
	sec, nsec = tm.UnixTime()
	if got := time.Unix(sec, nsec); got.Before(before.Add(-time.Microsecond)) || got.After(after.Add(time.Microsecond)) {
		// The wall clock may be stepped while we look; look again.
		if a := time.Since(before); a >= 0 && a < time.Second {
			return fmt.Errorf("GetTime says %v between %v and %v", got, before, after)
		}
	}
	if sq>>14 != 2 {
		return fmt.Errorf("GetTime's clock sequence %04x lacks the variant bits", sq)
	}
	return nil
}

type mutCase struct {
	B    []byte
	Form int
	Case int
	Ed   []edit
}

type edit struct {
	Op, At int
	C      byte
}

func (m mutCase) text() string {
	var b [16]byte
	copy(b[:], m.B)
	s := []byte(spell(b, m.Form, m.Case))
	for _, e := range m.Ed {
		if len(s) == 0 {
			break
		}
		at := e.At % len(s)
		switch e.Op {
		case 0:
			s[at] = e.C
		case 1:
			s = append(s[:at:at], s[at+1:]...)
		case 2:
			s = append(s[:at:at], append([]byte{e.C}, s[at:]...)...)
		case 3: // swap two neighbours
			s[at], s[(at+1)%len(s)] = s[(at+1)%len(s)], s[at]
		}
	}
	return string(s)
}

func TestC33(t *testing.T) {
	forms := rapid.SampledFrom([]int{0, 1, 2, 3})
	cases := rapid.OneOf(rapid.SampledFrom([]int{0, 8191}), rapid.IntRange(0, 8191))
	pbt.Check(t, "C33",
		pbt.NewPart("forms", 15000, 100000, "always", func(t *rapid.T) ucase {
			return ucase{genID(t), forms.Draw(t, "form"), cases.Draw(t, "case")}
		}, runForms),
		pbt.NewPart("fields", 15000, 100000, "always", genID, runFields),
		pbt.NewPart("mutated", 25000, 200000, "the text is not an accepted spelling", func(t *rapid.T) mutCase {
			return mutCase{genID(t), forms.Draw(t, "form"), cases.Draw(t, "case"), rapid.SliceOfN(rapid.Custom(func(t *rapid.T) edit {
				return edit{rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "op"), rapid.IntRange(0, 50).Draw(t, "at"),
					rapid.OneOf(rapid.SampledFrom([]byte("-{}gGzZ:/@`[]09afAF _+\x00\xff")), rapid.Byte()).Draw(t, "c")}
			}), 1, 3).Draw(t, "ed")}
		}, func(c *pbt.Ctx, m mutCase) error {
			s := m.text()
			_, ok := refParse(s)
			c.NonTrivialIf(!ok)
			return parseAll(s)
		}),
		pbt.NewPart("binary", 3000, 10000, "not 16 bytes", func(t *rapid.T) []byte {
			return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "b")
		}, func(c *pbt.Ctx, b []byte) error {
			c.NonTrivialIf(len(b) != 16)
			before := uuid.UUID{0: 0x5a, 3: byte(len(b)), 9: 0xff, 15: 1}
			id := before
			err := id.UnmarshalBinary(b)
			if err != nil && id != before {
				return fmt.Errorf("UnmarshalBinary of %d bytes failed but changed the UUID to %x", len(b), id[:])
			}
			if err == nil && string(id[:]) != string(b) {
				return fmt.Errorf("UnmarshalBinary of % x gave % x", b, id[:])
			}
			_, err2 := uuid.FromBytes(b)
			if (err == nil) != (len(b) == 16) || (err2 == nil) != (len(b) == 16) {
				return fmt.Errorf("%d bytes: UnmarshalBinary %v, FromBytes %v", len(b), err, err2)
			}
			return nil
		}),
	)
}

// ---- C34

// source is a random source whose every byte is known: pseudo-random, with
// generated short reads and failures.
type source struct {
	mu    sync.Mutex
	seed  uint64
	given []byte
	short []int // sizes of successive reads, cyclic; 0 = as asked
	fails map[int]bool
	tail  map[int]bool // fail together with the last bytes
	reads int
}

func (s *source) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := s.reads
	s.reads++
	if s.fails[k] {
		return 0, errSource
	}
	n := len(p)
	if len(s.short) > 0 {
		if m := s.short[k%len(s.short)]; m > 0 && m < n {
			n = m
		}
	}
	for i := 0; i < n; i++ {
		s.seed += 0x9e3779b97f4a7c15
		z := s.seed
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		p[i] = byte(z ^ z>>31)
		s.given = append(s.given, p[i])
	}
	if s.tail[k] {
		return n, errSource
	}
	return n, nil
}

var errSource = errors.New("source failed")

type genCase struct {
	Seed  uint64
	Short []int
	Fails []int
	Tail  []int
	Ops   []int // 0 NewRandom, 1 New, 2 NewString, 3 pool on, 4 pool off, 5 NewRandomFromReader
	Par   int   `json:",omitempty"`
	Reps  int
}

// owner finds each UUID's 16 source bytes; every byte is used at most once.
type owner struct {
	at   map[[16]byte]int
	used map[int]int
}

func maskID(b [16]byte) [16]byte {
	b[6] &= 0x0f
	b[8] &= 0x3f
	return b
}

func checkIDs(ids [][16]byte, given []byte) error {
	at := map[[16]byte]int{}
	for i := 0; i+16 <= len(given); i++ {
		at[maskID([16]byte(given[i:i+16]))] = i
	}
	used := make([]bool, len(given))
	seen := map[[16]byte]int{}
	for k, id := range ids {
		if id[6]>>4 != 4 || id[8]>>6 != 2 {
			return fmt.Errorf("UUID %d of %d, %x: version %d, variant bits %02b", k, len(ids), id, id[6]>>4, id[8]>>6)
		}
		if j, ok := seen[id]; ok {
			return fmt.Errorf("UUIDs %d and %d are both %x", j, k, id)
		}
		seen[id] = k
		p, ok := at[maskID(id)]
		if !ok {
			return fmt.Errorf("UUID %d of %d, %x: its bits are not from the source (%d bytes given)", k, len(ids), id, len(given))
		}
		for i := p; i < p+16; i++ {
			if used[i] {
				return fmt.Errorf("UUID %d of %d, %x: source byte %d is used twice", k, len(ids), id, i)
			}
			used[i] = true
		}
	}
	return nil
}

func newSource(g genCase) *source {
	s := &source{seed: g.Seed, short: g.Short, fails: map[int]bool{}, tail: map[int]bool{}}
	for _, f := range g.Fails {
		s.fails[f] = true
	}
	for _, f := range g.Tail {
		s.tail[f] = true
	}
	return s
}

func runGenerate(c *pbt.Ctx, g genCase) error {
	src := newSource(g)
	uuid.DisableRandPool()
	uuid.SetRand(src)
	defer func() { uuid.DisableRandPool(); uuid.SetRand(nil) }()
	var ids [][16]byte
	add := func(id uuid.UUID, err error, what string) error {
		if err != nil {
			if id != (uuid.UUID{}) {
				return fmt.Errorf("%s failed (%v) but gave %x", what, err, id[:])
			}
			if !errors.Is(err, errSource) {
				return fmt.Errorf("%s failed with %v", what, err)
			}
			return nil
		}
		ids = append(ids, id)
		return nil
	}
	pool := false
	n := 0
	for _, op := range g.Ops {
		for range g.Reps {
			reads := src.reads
			var err error
			var id uuid.UUID
			what := [...]string{"NewRandom", "New", "NewString", "EnableRandPool", "DisableRandPool", "NewRandomFromReader"}[op]
			panicked := pbt.Safely(func() error {
				switch op {
				case 0:
					id, err = uuid.NewRandom()
				case 1:
					id = uuid.New()
				case 2:
					s := uuid.NewString()
					w, ok := refParse(s)
					if !ok || s != refString(w) {
						return pbt.Harness("NewString gave %q", s)
					}
					id = w
				case 3:
					uuid.EnableRandPool()
					pool = true
				case 4:
					uuid.DisableRandPool()
					pool = false
				case 5:
					id, err = uuid.NewRandomFromReader(src)
				}
				return nil
			})
			if op == 3 || op == 4 {
				break
			}
			failed := false
			for k := reads; k < src.reads; k++ {
				failed = failed || src.fails[k] || src.tail[k]
			}
			if panicked != nil {
				var h *pbt.ErrHarness
				if errors.As(panicked, &h) {
					return errors.New(h.Msg)
				}
				if op != 1 && op != 2 || !failed {
					return fmt.Errorf("%s: %w", what, panicked)
				}
				c.Label("failed")
				continue
			}
			if err != nil {
				c.Label("failed")
				if !failed {
					return fmt.Errorf("%s failed although the source did not: %v", what, err)
				}
			} else {
				n++
				if pool {
					c.Label("pooled")
				}
			}
			if e := add(id, err, what); e != nil {
				return e
			}
		}
	}
	c.NonTrivialIf(n >= 2)
	return checkIDs(ids, src.given)
}

func runGenConc(c *pbt.Ctx, g genCase) error {
	src := newSource(g)
	uuid.DisableRandPool()
	uuid.SetRand(src)
	defer func() { uuid.DisableRandPool(); uuid.SetRand(nil) }()
	if len(g.Ops) > 0 && g.Ops[0] == 3 {
		uuid.EnableRandPool()
		c.Label("pooled")
	}
	var mu sync.Mutex
	var ids [][16]byte
	var bad error
	gate := pbt.NewGate(g.Reps)
	for range g.Par {
		gate.Go(func() {
			var mine [][16]byte
			for range g.Reps {
				id, err := uuid.NewRandom()
				if err != nil {
					if !errors.Is(err, errSource) || id != (uuid.UUID{}) {
						mu.Lock()
						bad = fmt.Errorf("NewRandom: %x, %v", id[:], err)
						mu.Unlock()
					}
					continue
				}
				mine = append(mine, id)
			}
			mu.Lock()
			ids = append(ids, mine...)
			mu.Unlock()
		})
	}
	gate.Open()
	gate.Wait()
	if bad != nil {
		return bad
	}
	c.NonTrivial()
	if len(g.Fails)+len(g.Tail) == 0 && len(ids) != g.Par*g.Reps {
		return fmt.Errorf("%d UUIDs of %d", len(ids), g.Par*g.Reps)
	}
	if len(ids) == 0 {
		return nil
	}
	// With concurrent reads of a source that reads short, one UUID may mix
	// bytes of several reads; only whole reads are traced to the source.
	if len(g.Short) > 0 && (len(g.Ops) == 0 || g.Ops[0] != 3) {
		return nil
	}
	return checkIDs(ids, src.given)
}

type shortCase struct {
	Len  int
	Step int
}

func TestC34(t *testing.T) {
	genOps := func(t *rapid.T) genCase {
		g := genCase{
			Seed:  rapid.Uint64().Draw(t, "seed"),
			Short: rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 5, 15, 16, 17, 100, 255, 256}), 0, 3).Draw(t, "short"),
			Ops:   rapid.SliceOfN(rapid.SampledFrom([]int{0, 3, 1, 2, 4, 5}), 1, 12).Draw(t, "ops"),
			Reps:  rapid.OneOf(rapid.IntRange(1, 5), rapid.SampledFrom([]int{15, 16, 17, 40})).Draw(t, "reps"),
		}
		if rapid.Bool().Draw(t, "faulty") {
			g.Fails = rapid.SliceOfN(rapid.IntRange(0, 40), 0, 4).Draw(t, "fails")
			g.Tail = rapid.SliceOfN(rapid.IntRange(0, 40), 0, 4).Draw(t, "tail")
		}
		return g
	}
	pbt.Check(t, "C34",
		pbt.NewPart("history", 6000, 40000, "at least two UUIDs are generated", genOps, runGenerate),
		pbt.NewPart("concurrent", 300, 2000, "always", func(t *rapid.T) genCase {
			g := genCase{
				Seed: rapid.Uint64().Draw(t, "seed"),
				Par:  rapid.IntRange(2, 8).Draw(t, "par"),
				Reps: rapid.IntRange(1, 200).Draw(t, "reps"),
			}
			if rapid.IntRange(0, 3).Draw(t, "pool") > 0 {
				g.Ops = []int{3}
			}
			if rapid.IntRange(0, 3).Draw(t, "f") == 0 {
				g.Fails = rapid.SliceOfN(rapid.IntRange(0, 20), 0, 4).Draw(t, "fails")
			}
			if rapid.IntRange(0, 3).Draw(t, "s") == 0 {
				g.Short = []int{7, 100}
			}
			return g
		}, runGenConc),
		pbt.NewPart("short source", 3000, 20000, "the source ends within a UUID", func(t *rapid.T) shortCase {
			return shortCase{rapid.IntRange(0, 40).Draw(t, "len"), rapid.IntRange(1, 17).Draw(t, "step")}
		}, func(c *pbt.Ctx, sc shortCase) error {
			c.NonTrivialIf(sc.Len%16 != 0)
			src := &source{seed: 7, short: []int{sc.Step}}
			lim := io.LimitReader(src, int64(sc.Len))
			var ids [][16]byte
			for i := range 4 {
				id, err := uuid.NewRandomFromReader(lim)
				if (err == nil) != (16*(i+1) <= sc.Len) {
					return fmt.Errorf("UUID %d from %d bytes: %x, %v", i, sc.Len, id[:], err)
				}
				if err != nil {
					if id != (uuid.UUID{}) {
						return fmt.Errorf("UUID %d from %d bytes failed (%v) but gave %x", i, sc.Len, err, id[:])
					}
					break
				}
				ids = append(ids, id)
			}
			return checkIDs(ids, src.given)
		}),
		pbt.NewPart("default source", 20, 100, "always", func(t *rapid.T) genCase {
			return genCase{Reps: rapid.IntRange(100, 400).Draw(t, "reps"), Par: rapid.IntRange(0, 1).Draw(t, "pool")}
		}, func(c *pbt.Ctx, g genCase) error {
			uuid.SetRand(nil)
			uuid.DisableRandPool()
			defer uuid.DisableRandPool()
			if g.Par == 1 {
				uuid.EnableRandPool()
			}
			c.NonTrivial()
			seen := map[uuid.UUID]bool{}
			var and, or [16]byte
			for i := range and {
				and[i] = 0xff
			}
			for range g.Reps {
				id, err := uuid.NewRandom()
				if err != nil {
					return err
				}
				if seen[id] {
					return fmt.Errorf("%x generated twice", id[:])
				}
				seen[id] = true
				if id.Version() != 4 || id.Variant() != uuid.RFC4122 {
					return fmt.Errorf("%x: version %v, variant %v", id[:], id.Version(), id.Variant())
				}
				for i := range id {
					and[i] &= id[i]
					or[i] |= id[i]
				}
			}
			// Each of the 122 random bits is both 0 and 1 somewhere (odds of a
			// false alarm below 2^-90 per case).
			for i := range and {
				a, o := and[i], or[i]
				if i == 6 {
					a, o = a&0x0f, o|0xf0
				}
				if i == 8 {
					a, o = a&0x3f, o|0xc0
				}
				if a != 0 || o != 0xff {
					return fmt.Errorf("byte %d has constant bits in %d UUIDs: and %02x, or %02x", i, g.Reps, a, o)
				}
			}
			return nil
		}),
	)
}
