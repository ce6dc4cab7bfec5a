// Package pbt is the property-testing core shared by every check: it drives
// rapid over typed parts, keeps each case serialisable so that it can be saved,
// replayed and shrunk (also across process crashes), counts what was generated
// and reports everything to check.py through files in $VP_OUT.
package pbt

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx is handed to the run function of a part.
type Ctx struct {
	T          *testing.T
	Property   string
	Replay     bool
	nontrivial bool
	labels     map[string]int
}

// NonTrivial marks the current case as non-trivial by the part's rule.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// NonTrivialIf marks the current case as non-trivial when ok.
func (c *Ctx) NonTrivialIf(ok bool) {
	if ok {
		c.nontrivial = true
	}
}

// Label counts an interesting class of case.
func (c *Ctx) Label(l string) { c.labels[l]++ }

// ErrHarness marks a problem of the harness itself; it is never a violation.
type ErrHarness struct{ Msg string }

func (e *ErrHarness) Error() string { return "harness: " + e.Msg }

// Harness builds an ErrHarness.
func Harness(format string, args ...any) error {
	return &ErrHarness{fmt.Sprintf(format, args...)}
}

// Part is one generated check of a property.
type Part interface {
	name() string
	check(t *testing.T, r *runner)
	replay(t *testing.T, r *runner, raw json.RawMessage) error
}

type part[C any] struct {
	nm       string
	quick    int
	thorough int
	rule     string
	gen      func(*rapid.T) C
	run      func(*Ctx, C) error
}

// NewPart describes a part: how many cases per tier, the rule that makes a case
// non-trivial, a generator of serialisable cases and a deterministic verdict.
func NewPart[C any](name string, quick, thorough int, rule string, gen func(*rapid.T) C, run func(*Ctx, C) error) Part {
	return &part[C]{name, quick, thorough, rule, gen, run}
}

func (p *part[C]) name() string { return p.nm }

type partReport struct {
	Name        string            `json:"name"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Nontrivial  int               `json:"distinct_nontrivial"`
	Distinct    int               `json:"distinct"`
	Labels      map[string]int    `json:"labels,omitempty"`
	Samples     []json.RawMessage `json:"samples,omitempty"`
	Truncated   bool              `json:"time_budget_hit,omitempty"`
	WallS       float64           `json:"wall_s"`
}

type runner struct {
	prop     string
	tier     string
	seed     uint64
	out      string
	parts    []*partReport
	curFile  *os.File
	curLen   int64
	caseNo   int64
	started  atomic.Int64 // unix nano of the running case, 0 if idle
	limit    time.Duration
	isolate  string
	skip     int64
	budget   time.Duration
	failed   bool
	harnessE string
}

type savedCase struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Error    string          `json:"error,omitempty"`
	N        int64           `json:"n,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func envDur(k string, d time.Duration) time.Duration {
	if v := os.Getenv(k); v != "" {
		if f, err := strconv.ParseFloat(v, 64); err == nil {
			return time.Duration(f * float64(time.Second))
		}
	}
	return d
}

// Known tells whether a finding is on the list of those that are recorded, not
// repaired.
func Known(id string) bool {
	return slices.Contains(strings.Split(os.Getenv("VP_KNOWN"), ";"), id)
}

// Check runs the parts of one property.
func Check(t *testing.T, prop string, parts ...Part) {
	r := &runner{prop: prop, tier: os.Getenv("VP_TIER"), out: os.Getenv("VP_OUT")}
	if r.tier == "" {
		r.tier = "quick"
	}
	r.seed, _ = strconv.ParseUint(os.Getenv("VP_SEED"), 10, 64)
	if r.out == "" {
		r.out = t.TempDir()
	}
	r.limit = envDur("VP_CASE_LIMIT", 30*time.Second)
	r.budget = envDur("VP_PART_BUDGET", 60*time.Second)
	r.isolate = os.Getenv("VP_ISOLATE")
	r.skip, _ = strconv.ParseInt(os.Getenv("VP_SKIP"), 10, 64)
	f, err := os.Create(filepath.Join(r.out, "current.json"))
	if err != nil {
		t.Fatal(err)
	}
	r.curFile = f
	go r.watchdog()

	if rf := os.Getenv("VP_REPLAY"); rf != "" {
		data, err := os.ReadFile(rf)
		if err != nil {
			r.harnessError(t, "replay: "+err.Error())
			return
		}
		r.replayFile(t, parts, rf, data)
		r.write()
		return
	}

	if r.isolate == "" {
		if dir := os.Getenv("VP_CORPUS"); dir != "" {
			files, _ := filepath.Glob(filepath.Join(dir, "*.json"))
			sort.Strings(files)
			rep := &partReport{Name: "corpus", Rule: "saved regression cases of this property"}
			start := time.Now()
			for _, cf := range files {
				data, err := os.ReadFile(cf)
				if err != nil {
					r.harnessError(t, err.Error())
					return
				}
				rep.Evaluations++
				if !r.replayFile(t, parts, cf, data) {
					break
				}
			}
			rep.WallS = time.Since(start).Seconds()
			if len(files) > 0 {
				r.parts = append(r.parts, rep)
			}
		}
	}
	only := os.Getenv("VP_PART")
	for _, p := range parts {
		if r.failed || r.harnessE != "" {
			break
		}
		if only != "" && p.name() != only || r.isolate != "" && p.name() != r.isolate {
			continue
		}
		t.Run(p.name(), func(t *testing.T) { p.check(t, r) })
	}
	r.write()
}

func (r *runner) harnessError(t *testing.T, msg string) {
	r.harnessE = msg
	t.Errorf("HARNESS ERROR: %s", msg)
}

func (r *runner) replayFile(t *testing.T, parts []Part, file string, data []byte) bool {
	var sc savedCase
	if err := json.Unmarshal(data, &sc); err != nil {
		r.harnessError(t, file+": "+err.Error())
		return false
	}
	for _, p := range parts {
		if p.name() != sc.Part {
			continue
		}
		ok := true
		t.Run("replay/"+filepath.Base(file), func(t *testing.T) {
			if err := p.replay(t, r, sc.Case); err != nil {
				ok = false
				var h *ErrHarness
				if errors.As(err, &h) {
					r.harnessError(t, h.Msg)
					return
				}
				r.fail(sc.Part, sc.Case, err)
				t.Errorf("part %s: %v", sc.Part, err)
			}
		})
		return ok
	}
	r.harnessError(t, file+": no part "+sc.Part)
	return false
}

func (r *runner) write() {
	b, _ := json.MarshalIndent(map[string]any{
		"property": r.prop, "parts": r.parts, "failed": r.failed, "harness_error": r.harnessE, "complete": true,
	}, "", " ")
	_ = os.WriteFile(filepath.Join(r.out, "result.json"), b, 0o644)
}

func (r *runner) fail(part string, raw json.RawMessage, err error) {
	r.failed = true
	msg := err.Error()
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	b, _ := json.Marshal(savedCase{Property: r.prop, Part: part, Error: msg, Case: raw})
	_ = os.WriteFile(filepath.Join(r.out, "fail.json"), b, 0o644)
}

func (r *runner) saveCurrent(part string, raw json.RawMessage) {
	b, _ := json.Marshal(savedCase{Property: r.prop, Part: part, N: r.caseNo, Case: raw})
	if int64(len(b)) < r.curLen {
		_ = r.curFile.Truncate(int64(len(b)))
	}
	_, _ = r.curFile.WriteAt(b, 0)
	r.curLen = int64(len(b))
}

func (r *runner) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		s := r.started.Load()
		if s == 0 {
			continue
		}
		if time.Since(time.Unix(0, s)) > r.limit {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			_ = os.WriteFile(filepath.Join(r.out, "hang.txt"), buf[:n], 0o644)
			fmt.Fprintln(os.Stderr, "VP-HANG")
			os.Exit(97)
		}
	}
}

func safely(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if h, ok := p.(*ErrHarness); ok {
				err = h
				return
			}
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	return f()
}

// Safely runs f and turns a panic into an error.
func Safely(f func() error) error { return safely(f) }

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func (p *part[C]) runOne(t *testing.T, r *runner, c C) (*Ctx, error) {
	ctx := &Ctx{T: t, Property: r.prop, Replay: os.Getenv("VP_REPLAY") != "", labels: map[string]int{}}
	r.started.Store(time.Now().UnixNano())
	err := safely(func() error { return p.run(ctx, c) })
	r.started.Store(0)
	return ctx, err
}

func (p *part[C]) replay(t *testing.T, r *runner, raw json.RawMessage) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		return Harness("part %s: bad case: %v", p.nm, err)
	}
	r.caseNo++
	r.saveCurrent(p.nm, raw)
	_, err := p.runOne(t, r, c)
	return err
}

func mix(seed uint64, name string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", seed, name)
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

func (p *part[C]) check(t *testing.T, r *runner) {
	n := p.quick
	if r.tier == "thorough" {
		n = p.thorough
	}
	if v := os.Getenv("VP_CHECKS"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	if v, err := strconv.Atoi(os.Getenv("VP_PERCENT")); err == nil && n > 0 {
		n = max(n*v/100, min(n, 20))
	}
	if n <= 0 {
		return
	}
	rep := &partReport{Name: p.nm, Rule: p.rule, Labels: map[string]int{}}
	r.parts = append(r.parts, rep)
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	_ = flag.Set("rapid.seed", strconv.FormatUint(mix(r.seed, p.nm), 10))
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", "15s")
	start := time.Now()
	distinct := map[uint64]bool{}
	nontriv := map[uint64]bool{}
	failing := false
	evals := int64(0)
	defer func() {
		rep.Distinct, rep.Nontrivial = len(distinct), len(nontriv)
		rep.WallS = time.Since(start).Seconds()
	}()
	rapid.Check(t, func(rt *rapid.T) {
		c := p.gen(rt)
		evals++
		if !failing && time.Since(start) > r.budget {
			rep.Truncated = true
			return
		}
		raw, err := json.Marshal(c)
		if err != nil {
			r.harnessE = "case of part " + p.nm + " not serialisable: " + err.Error()
			rt.Fatalf("%s", r.harnessE)
		}
		// Run on a decoded copy, so that what ran is exactly what is saved.
		var cc C
		if err := json.Unmarshal(raw, &cc); err != nil {
			r.harnessE = "case of part " + p.nm + " not restorable: " + err.Error()
			rt.Fatalf("%s", r.harnessE)
		}
		r.caseNo = evals
		if r.isolate != "" {
			if evals < r.skip && !failing {
				return
			}
			if err := p.isolated(r, raw); err != nil {
				var h *ErrHarness
				if errors.As(err, &h) {
					r.harnessE = h.Msg
					rt.Fatalf("HARNESS %v", err)
				}
				failing = true
				r.fail(p.nm, raw, err)
				rt.Fatalf("property violated")
			}
			return
		}
		r.saveCurrent(p.nm, raw)
		ctx, err := p.runOne(t, r, cc)
		if !failing {
			rep.Evaluations++
			h := fnv.New64a()
			_, _ = h.Write(raw)
			k := h.Sum64()
			distinct[k] = true
			if ctx.nontrivial {
				if !nontriv[k] && len(nontriv) < 200 && len(nontriv)%50 == 7 || len(rep.Samples) == 0 {
					if len(raw) <= 2000 {
						rep.Samples = append(rep.Samples, raw)
					}
				}
				nontriv[k] = true
			}
			for l, m := range ctx.labels {
				rep.Labels[l] += m
			}
		}
		if err != nil {
			var h *ErrHarness
			if errors.As(err, &h) {
				r.harnessE = h.Msg
				rt.Fatalf("HARNESS %v", err)
			}
			failing = true
			r.fail(p.nm, raw, err)
			// A constant message: rapid only keeps a shrunk case that fails alike.
			rt.Fatalf("property violated")
		}
	})
}

// isolated runs one case in a fresh process, so that a process crash is a
// failing case that rapid can shrink.
func (p *part[C]) isolated(r *runner, raw json.RawMessage) error {
	dir, err := os.MkdirTemp(r.out, "iso")
	if err != nil {
		return Harness("%v", err)
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(savedCase{Property: r.prop, Part: p.nm, Case: raw})
	rf := filepath.Join(dir, "case.json")
	if err := os.WriteFile(rf, b, 0o644); err != nil {
		return Harness("%v", err)
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^Test"+r.prop+"$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "VP_ISOLATE=", "VP_CORPUS=", "VP_REPLAY="+rf, "VP_OUT="+dir)
	out, err := cmd.CombinedOutput()
	if err == nil {
		return nil
	}
	var res struct {
		HarnessError string `json:"harness_error"`
	}
	if rb, e := os.ReadFile(filepath.Join(dir, "result.json")); e == nil && json.Unmarshal(rb, &res) == nil && res.HarnessError != "" {
		return &ErrHarness{res.HarnessError}
	}
	s := string(out)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return fmt.Errorf("process failed on this case: %v\n%s", err, s)
}
