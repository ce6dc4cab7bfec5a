package cli

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

var _ = operations.Export // the module under test is the one that this is built with

// tools builds the commands.
var tools = sync.OnceValues(func() (dir string, err error) {
	repo := ""
	if info, ok := debug.ReadBuildInfo(); ok {
		for _, d := range info.Deps {
			if d.Path == "github.com/nanobus/iota/go" && d.Replace != nil {
				repo = d.Replace.Path
			}
		}
	}
	if repo == "" {
		return "", pbt.Harness("where the repository is is not known")
	}
	out := os.Getenv("VP_OUT")
	if out == "" {
		out = os.TempDir()
	}
	if dir, err = os.MkdirTemp(out, "tools"); err != nil {
		return "", pbt.Harness("%v", err)
	}
	for name, pkg := range map[string]string{"wasmrs": "transport/wasmrs/cmd/wasmrs", "wasmrs-ops": "transport/wasmrs/cmd/wasmrs-ops"} {
		cmd := exec.Command("go", "build", "-o", filepath.Join(dir, name), ".")
		cmd.Dir = filepath.Join(repo, pkg)
		cmd.Env = append(os.Environ(), "GOWORK=off", "GOFLAGS=-mod=readonly", "GOARCH=", "GOOS=")
		if b, err := cmd.CombinedOutput(); err != nil {
			return "", pbt.Harness("building %s: %v\n%s", name, err, b)
		}
	}
	return dir, nil
})

// result is what a command came to.
type result struct {
	out, err string
	code     int
}

const limit = 20 * time.Second

func run(stdin string, tool string, args ...string) (r result, err error) {
	dir, err := tools()
	if err != nil {
		return r, err
	}
	ctx, stop := context.WithTimeout(context.Background(), limit)
	defer stop()
	cmd := exec.CommandContext(ctx, filepath.Join(dir, tool), args...)
	cmd.Stdin = strings.NewReader(stdin)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	cmd.Env = append(os.Environ(), "NO_COLOR=1")
	err = cmd.Run()
	r = result{out.String(), errs.String(), cmd.ProcessState.ExitCode()}
	if ctx.Err() != nil {
		return r, fmt.Errorf("%s does not end: %.300s", tool, r.err)
	}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		return r, pbt.Harness("%v", err)
	}
	return r, nil
}

// mod is a module of an invocation.
type mod struct {
	Ops   []op
	Act   int
	Reply string `json:",omitempty"` // JSON of the value it answers with
	Fail  string `json:",omitempty"` // or the error
	Junk  []byte `json:",omitempty"` // or data that is no value
	Wide  int    `json:",omitempty"` // how its numbers and lengths are written
	Own   bool   `json:",omitempty"` // wasmrs-ops runs on it first
}

type invocation struct {
	Mods   []mod
	NS, Op string
	Input  string
	Pretty bool
	Loud   bool
}

// value writes a decoded JSON value as MessagePack.
func value(v any, wide int) []byte {
	head := func(fix byte, small int, tags []byte, n int) []byte {
		sizes := []int{1, 2, 4}[3-len(tags):]
		switch {
		case n < small && wide == 0:
			return []byte{fix | byte(n)}
		case sizes[0] == 1 && n < 256 && wide <= 1:
			return []byte{tags[0], byte(n)}
		case n < 65536 && wide <= 2:
			return binary.BigEndian.AppendUint16([]byte{tags[len(tags)-2]}, uint16(n))
		}
		return binary.BigEndian.AppendUint32([]byte{tags[len(tags)-1]}, uint32(n))
	}
	switch v := v.(type) {
	case nil:
		return []byte{0xc0}
	case bool:
		if v {
			return []byte{0xc3}
		}
		return []byte{0xc2}
	case json.Number:
		if n, err := strconv.ParseInt(string(v), 10, 64); err == nil {
			switch {
			case wide == 0 && n >= -32 && n < 128:
				return []byte{byte(n)}
			case wide <= 1 && n >= math.MinInt8 && n <= math.MaxInt8:
				return []byte{0xd0, byte(n)}
			case wide <= 2 && n >= math.MinInt16 && n <= math.MaxInt16:
				return binary.BigEndian.AppendUint16([]byte{0xd1}, uint16(n))
			case wide <= 2 && n >= 0 && n <= math.MaxUint32:
				return binary.BigEndian.AppendUint32([]byte{0xce}, uint32(n))
			}
			return binary.BigEndian.AppendUint64([]byte{0xd3}, uint64(n))
		}
		if n, err := strconv.ParseUint(string(v), 10, 64); err == nil {
			return binary.BigEndian.AppendUint64([]byte{0xcf}, n)
		}
		f, _ := v.Float64()
		if g := float32(f); wide == 0 && float64(g) == f {
			return binary.BigEndian.AppendUint32([]byte{0xca}, math.Float32bits(g))
		}
		return binary.BigEndian.AppendUint64([]byte{0xcb}, math.Float64bits(f))
	case string:
		return append(head(0xa0, 32, []byte{0xd9, 0xda, 0xdb}, len(v)), v...)
	case []any:
		b := head(0x90, 16, []byte{0xdc, 0xdd}, len(v))
		for _, e := range v {
			b = append(b, value(e, wide)...)
		}
		return b
	case map[string]any:
		b := head(0x80, 16, []byte{0xde, 0xdf}, len(v))
		for k, e := range v {
			b = append(b, value(k, wide)...)
			b = append(b, value(e, wide)...)
		}
		return b
	}
	panic(fmt.Sprintf("%T", v))
}

// parsed reads JSON, with numbers as they are written.
func parsed(s string) (v any, err error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if err = d.Decode(&v); err == nil && strings.TrimSpace(s[d.InputOffset():]) != "" {
		err = fmt.Errorf("there is more than one value")
	}
	return v, err
}

// same compares JSON values: integers are exactly the same, other numbers as
// floating point numbers. A number that went in single precision, as value
// writes those that fit when it is to be short, comes out as any decimal that
// stands for it in that precision.
func same(a, b any, single bool) bool {
	switch a := a.(type) {
	case json.Number:
		b, ok := b.(json.Number)
		if !ok {
			return false
		}
		if a == b {
			return true
		}
		f, err1 := a.Float64()
		g, err2 := b.Float64()
		_, err := strconv.ParseUint(strings.TrimPrefix(string(a), "-"), 10, 64)
		exact := err == nil && math.Abs(f) > 1<<53
		if single && err != nil && err2 == nil && float64(float32(f)) == f {
			return float32(f) == float32(g)
		}
		return err1 == nil && err2 == nil && f == g && !exact
	case []any:
		b, ok := b.([]any)
		return ok && slices.EqualFunc(a, b, func(a, b any) bool { return same(a, b, single) })
	case map[string]any:
		b, ok := b.(map[string]any)
		if !ok || len(a) != len(b) {
			return false
		}
		for k, v := range a {
			if w, ok := b[k]; !ok || !same(v, w, single) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func (m mod) bin() []byte {
	var reply []byte
	if m.Act == actReply {
		switch {
		case m.Fail != "":
			reply = errorFrame(m.Fail)
		case m.Junk != nil:
			reply = payloadFrame(m.Junk)
		default:
			v, _ := parsed(m.Reply)
			reply = payloadFrame(value(v, m.Wide))
		}
	}
	return module(table(m.Ops), m.Act, reply)
}

// serves tells which module has the operation.
func (c invocation) serves() *mod {
	for i, m := range c.Mods {
		for _, o := range m.Ops {
			if o.Kind == 1 && o.Dir == 1 && o.NS == c.NS && o.Name == c.Op {
				return &c.Mods[i]
			}
		}
	}
	return nil
}

func runInvoke(ctx *pbt.Ctx, c invocation) error {
	dir, err := os.MkdirTemp(os.Getenv("VP_OUT"), "invoke")
	if err != nil {
		return pbt.Harness("%v", err)
	}
	defer os.RemoveAll(dir)
	args := []string{"invoke"}
	if c.Pretty {
		args = append(args, "--pretty")
	}
	if c.Loud {
		args = append(args, "--verbose")
	}
	args = append(args, c.NS, c.Op)
	for i, m := range c.Mods {
		name := filepath.Join(dir, fmt.Sprintf("m%d.wasm", i))
		if err := os.WriteFile(name, m.bin(), 0o644); err != nil {
			return pbt.Harness("%v", err)
		}
		if m.Own {
			if r, err := run("", "wasmrs-ops", name); err != nil || r.code != 0 {
				return fmt.Errorf("wasmrs-ops: %v, exit %d: %.300s", err, r.code, r.err)
			}
		}
		args = append(args, name)
	}
	r, err := run(c.Input, "wasmrs", args...)
	if err != nil {
		return err
	}
	in, bad := parsed(c.Input)
	m := c.serves()
	var want any
	failure := ""
	fails := true
	switch {
	case bad != nil:
		ctx.Label("no JSON")
		failure = "stdin"
	case m == nil:
		ctx.Label("not provided")
		failure = c.Op
	case m.Act == actTrap:
		ctx.Label("trap")
	case m.Act == actEcho:
		ctx.Label("echo")
		want, fails = in, false
	case m.Fail != "":
		ctx.Label("error")
		failure = m.Fail
	case m.Junk != nil:
		ctx.Label("junk")
		failure = "output"
	default:
		ctx.Label("answer")
		want, _ = parsed(m.Reply)
		fails = false
	}
	ctx.NonTrivialIf(!fails || m != nil)
	if strings.Contains(r.err, "runtime error") || strings.Contains(r.err, "nil pointer") {
		return fmt.Errorf("wasmrs %s crashes: %.400s", args, r.err)
	}
	if fails {
		if r.code == 0 || !strings.Contains(r.err, failure) {
			return fmt.Errorf("exit status %d, output %.100q and errors %.300q, want a failure that tells %q", r.code, r.out, r.err, failure)
		}
		if v, err := parsed(r.out); err == nil {
			return fmt.Errorf("the failed invocation prints %v", v)
		}
		return nil
	}
	if r.code != 0 {
		return fmt.Errorf("exit status %d: %.300s", r.code, r.err)
	}
	out := r.out
	if c.Loud && !c.Pretty { // what it tells comes before
		out = strings.TrimSuffix(out, "\n")
		out = out[strings.LastIndexByte(out, '\n')+1:]
	} else if c.Loud {
		return nil
	}
	got, err := parsed(out)
	if err != nil {
		return fmt.Errorf("the output %.200q is not a JSON value: %w", out, err)
	}
	if !same(want, got, m.Act == actReply && m.Wide == 0) {
		return fmt.Errorf("the output is %.200q, want the value of %.200q (input %.200q)", out, fmt.Sprint(want), c.Input)
	}
	if c.Pretty {
		var b bytes.Buffer
		json.Indent(&b, []byte(out), "", "  ")
		if strings.TrimSpace(b.String()) != strings.TrimSpace(out) {
			return fmt.Errorf("the output %.200q is not indented", out)
		}
	}
	return nil
}

var jsonText = rapid.OneOf(
	rapid.StringMatching(`[a-z]{0,8}`), rapid.String(),
	rapid.SampledFrom([]string{"<&>", "\u2028", "\x00\x1f", "\"\\/", "😀", strings.Repeat("x", 31), strings.Repeat("y", 32), strings.Repeat("z", 255), strings.Repeat("w", 300)}),
)

// genNumber makes numbers; those of the input are floating point numbers.
func genNumber(t *rapid.T, integers bool) any {
	if integers && rapid.Bool().Draw(t, "integer") {
		if rapid.Bool().Draw(t, "unsigned") {
			return json.Number(fmt.Sprint(rapid.Uint64().Draw(t, "u")))
		}
		return json.Number(fmt.Sprint(rapid.OneOf(rapid.Int64(), rapid.SampledFrom([]int64{0, -1, -32, -33, 127, 128, -128, -129, 1<<53 + 1, math.MinInt64, math.MaxInt64})).Draw(t, "i")))
	}
	return rapid.OneOf(
		rapid.Map(rapid.IntRange(-1<<53, 1<<53), func(i int) float64 { return float64(i) }),
		rapid.Map(rapid.IntRange(-40, 300), func(i int) float64 { return float64(i) }),
		rapid.Float64Range(-1e300, 1e300),
		rapid.SampledFrom([]float64{0.1, -0.5, 1e21, 1e-7, 5e-324, math.MaxFloat64, 1 << 60}),
	).Draw(t, "float")
}

func genValue(t *rapid.T, depth int, integers bool) any {
	k := rapid.IntRange(0, 9).Draw(t, "kind")
	if depth == 0 {
		k %= 6
	}
	switch k {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "bool")
	case 2, 3:
		return genNumber(t, integers)
	case 4, 5:
		return jsonText.Draw(t, "string")
	case 6, 7:
		out := []any{}
		for range rapid.SampledFrom([]int{0, 1, 2, 3, 15, 16}).Draw(t, "n") {
			out = append(out, genValue(t, depth-1, integers))
		}
		return out
	}
	out := map[string]any{}
	for range rapid.SampledFrom([]int{0, 1, 2, 3, 5, 16}).Draw(t, "n") {
		out[jsonText.Draw(t, "key")] = genValue(t, depth-1, integers)
	}
	return out
}

func genJSON(t *rapid.T, integers bool) string {
	b, err := json.Marshal(genValue(t, 3, integers))
	if err != nil {
		t.Fatal(err)
	}
	if len(b) > 12000 { // for the guest's buffer
		return "[]"
	}
	return string(b)
}

var opNames = rapid.SampledFrom([]string{"a", "b", "c", "say_hello", "x.y"})

func genOps(t *rapid.T, ns []string) (ops []op) {
	seen := map[op]bool{}
	n := [3][5]uint32{}
	for range rapid.IntRange(1, 6).Draw(t, "ops") {
		o := op{Kind: byte(rapid.SampledFrom([]int{1, 1, 1, 2, 3, 4}).Draw(t, "kind")), Dir: 1,
			NS: rapid.SampledFrom(ns).Draw(t, "ns"), Name: opNames.Draw(t, "name")}
		if seen[o] {
			continue
		}
		seen[o] = true
		o.Index = n[o.Dir][o.Kind]
		n[o.Dir][o.Kind]++
		ops = append(ops, o)
	}
	return ops
}

func genInvocation(t *rapid.T) invocation {
	var c invocation
	spaces := [][]string{{"one", "one.v1"}, {"two"}, {"three", "san"}}
	var all []op
	for i := range rapid.IntRange(1, 3).Draw(t, "modules") {
		m := mod{Ops: genOps(t, spaces[i])}
		all = append(all, m.Ops...)
		m.Act = rapid.SampledFrom([]int{actEcho, actEcho, actReply, actReply, actReply, actReply, actTrap}).Draw(t, "act")
		if m.Act == actReply {
			switch rapid.IntRange(0, 7).Draw(t, "reply") {
			case 0, 1:
				m.Fail = rapid.SampledFrom([]string{"no such thing", "it failed: 42", strings.Repeat("long ", 50)}).Draw(t, "fail")
			case 2:
				m.Junk = rapid.SampledFrom([][]byte{{}, {0xc1}, {0xd9}, {0x92, 1}, {0xa3, 'x'}}).Draw(t, "junk")
			default:
				m.Reply = genJSON(t, true)
				m.Wide = rapid.IntRange(0, 3).Draw(t, "wide")
			}
		}
		m.Own = rapid.IntRange(0, 5).Draw(t, "ops first") == 0
		c.Mods = append(c.Mods, m)
	}
	if rapid.IntRange(0, 7).Draw(t, "asked") > 0 {
		if rr := slices.DeleteFunc(slices.Clone(all), func(o op) bool { return o.Kind != 1 }); len(rr) > 0 && rapid.IntRange(0, 5).Draw(t, "kind") > 0 {
			all = rr
		}
		o := rapid.SampledFrom(all).Draw(t, "operation")
		c.NS, c.Op = o.NS, o.Name
	} else {
		c.NS, c.Op = rapid.SampledFrom([]string{"one", "two", "four"}).Draw(t, "ns"), rapid.SampledFrom([]string{"a", "none", "other"}).Draw(t, "op")
	}
	c.Input = genJSON(t, false)
	if rapid.IntRange(0, 11).Draw(t, "spoilt") == 0 {
		c.Input = rapid.SampledFrom([]string{"", "{", "nope", "[1,]", `"open`, "{} {}", "\x00"}).Draw(t, "input")
	}
	c.Pretty = rapid.IntRange(0, 3).Draw(t, "pretty") == 0
	c.Loud = rapid.IntRange(0, 5).Draw(t, "verbose") == 0
	return c
}

// listing is a module that gets its operations listed.
type listing struct {
	Ops     []op
	Customs []custom
	Has     bool   // has a table already
	Broken  []byte // not a module
}

func genListing(t *rapid.T) listing {
	var l listing
	if rapid.IntRange(0, 9).Draw(t, "broken") == 0 {
		l.Broken = rapid.SampledFrom([][]byte{{}, []byte("no module"), []byte("\x00asm\x02\x00\x00\x00"), []byte("\x00asm\x01\x00\x00\x00\x01\xff"), []byte("\x00asm\x01\x00\x00\x00")}).Draw(t, "file")
		return l
	}
	name := rapid.StringMatching(`[a-zA-Z0-9_.]{1,20}`)
	for range rapid.SampledFrom([]int{0, 1, 2, 3, 10, 40}).Draw(t, "n") {
		l.Ops = append(l.Ops, op{Kind: byte(rapid.IntRange(1, 4).Draw(t, "kind")), Dir: byte(rapid.IntRange(1, 2).Draw(t, "dir")),
			Index: rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(0, 10)).Draw(t, "index"), NS: name.Draw(t, "ns"), Name: name.Draw(t, "op")})
	}
	for range rapid.IntRange(0, 3).Draw(t, "customs") {
		l.Customs = append(l.Customs, custom{At: rapid.IntRange(0, 8).Draw(t, "at"),
			Name: rapid.SampledFrom([]string{"producers", "other", "wasmrs_op", "wasmrs_ops2", "Wasmrs_ops", "x"}).Draw(t, "name"),
			Data: rapid.SliceOfN(rapid.Byte(), 1, 200).Draw(t, "data")})
	}
	l.Has = rapid.IntRange(0, 3).Draw(t, "has") == 0
	if l.Has {
		l.Customs = slices.Insert(l.Customs, rapid.IntRange(0, len(l.Customs)).Draw(t, "where"), custom{At: rapid.IntRange(0, 8).Draw(t, "at"), Name: "wasmrs_ops", Data: table(l.Ops)})
	}
	return l
}

var kindNames = []string{1: "RequestResponse", "FireAndForget", "RequestStream", "RequestChannel"}

// lists checks that every operation of the table is printed.
func (l listing) lists(out string) error {
	rows := map[string]int{}
	for _, line := range strings.Split(out, "\n") {
		rows[strings.Join(strings.Fields(line), " ")]++
	}
	for _, o := range l.Ops {
		row := fmt.Sprintf("%s %s %s %s %d", o.NS, o.Name, []string{1: "export", "import"}[o.Dir], kindNames[o.Kind], o.Index)
		if rows[row] == 0 {
			return fmt.Errorf("%q is not in the listing:\n%.600s", row, out)
		}
	}
	return nil
}

func runListing(ctx *pbt.Ctx, l listing) error {
	dir, err := os.MkdirTemp(os.Getenv("VP_OUT"), "ops")
	if err != nil {
		return pbt.Harness("%v", err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "module.wasm")
	bin := l.Broken
	if bin == nil {
		bin = module(table(l.Ops), actEcho, nil, l.Customs...)
	}
	if err := os.WriteFile(file, bin, 0o644); err != nil {
		return pbt.Harness("%v", err)
	}
	r, err := run("", "wasmrs-ops", file)
	if err != nil {
		return err
	}
	after, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	if l.Broken != nil {
		ctx.Label("no module")
		if r.code == 0 || !bytes.Equal(after, bin) {
			return fmt.Errorf("of what is not a WasmRS module comes exit status %d and the file %x", r.code, after)
		}
		return nil
	}
	ctx.NonTrivialIf(len(l.Ops) > 0)
	if r.code != 0 {
		return fmt.Errorf("exit status %d: %.300s", r.code, r.err)
	}
	if err := l.lists(r.out); err != nil {
		return err
	}
	if l.Has {
		ctx.Label("has a table")
		if !bytes.Equal(after, bin) {
			return fmt.Errorf("the module had its table but was changed from %s to %s", pbt.Trunc(bin), pbt.Trunc(after))
		}
		return nil
	}
	ctx.Label("gets a table")
	was, _ := sections(bin)
	is, ok := sections(after)
	if !ok {
		return fmt.Errorf("the module cannot be read any more: %s", pbt.Trunc(after))
	}
	split := func(all []custom) (code, customs []custom) {
		for _, s := range all {
			if s.At != 0 {
				code = append(code, s)
			} else {
				customs = append(customs, s)
			}
		}
		return code, customs
	}
	code1, customs1 := split(was)
	code2, customs2 := split(is)
	if !reflect.DeepEqual(code1, code2) {
		return fmt.Errorf("the module's other sections changed: %v, were %v", code2, code1)
	}
	want := append(slices.Clone(customs1), custom{Name: "wasmrs_ops", Data: table(l.Ops)})
	match := func(a, b custom) bool { return a.Name == b.Name && bytes.Equal(a.Data, b.Data) }
	if len(customs2) != len(want) {
		return fmt.Errorf("there are %d custom sections, want %d", len(customs2), len(want))
	}
	for _, w := range want {
		if !slices.ContainsFunc(customs2, func(c custom) bool { return match(c, w) }) {
			return fmt.Errorf("there is no custom section %q with %s: %v", w.Name, pbt.Trunc(w.Data), customs2)
		}
	}
	r, err = run("", "wasmrs-ops", file)
	if err != nil {
		return err
	}
	again, err := os.ReadFile(file)
	if err != nil || r.code != 0 || !bytes.Equal(again, after) {
		return fmt.Errorf("the second time: %v, exit status %d, changed %v: %.300s", err, r.code, !bytes.Equal(again, after), r.err)
	}
	return l.lists(r.out)
}

func TestC44(t *testing.T) {
	pbt.Check(t, "C44",
		pbt.NewPart("invoke", 900, 6000, "the operation is provided", genInvocation, runInvoke),
		pbt.NewPart("ops", 400, 3000, "a module with operations", genListing, runListing),
	)
}
