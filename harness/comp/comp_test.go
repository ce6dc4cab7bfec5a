// Package comp checks the flow components: the dataflow programs that receive
// port messages over a channel and answer with port messages.
package comp

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/example/concat"
	"github.com/nanobus/iota/go/transport/wasmrs/example/greeter"
	"github.com/nanobus/iota/go/transport/wasmrs/example/wordfrequency"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// The components under test.
const (
	aConcat = iota
	aGreeter
	aCounter
)

var (
	componentNames = []string{"concat", "greeter", "counter"}

	inPort   = []string{"strings", "name", "words"}
	outPort  = []string{"value", "message", "counts"}
	handlers = sync.OnceValue(func() (h [3]invoke.RequestChannelHandler) {
		concat.Register()
		greeter.Register()
		wordfrequency.Register()
		names := [][2]string{{"concat", "Concat"}, {"greeter", "Greeter"}, {"wordfrequency", "WordFrequency"}}
		for _, op := range invoke.GetOperationsTable() {
			for i, n := range names {
				if op.Namespace == n[0] && op.Operation == n[1] && op.Type == operations.RequestChannel && op.Direction == operations.Export {
					h[i] = invoke.GetRequestChannelHandler(op.Index)
				}
			}
		}
		return h
	})
)

// message is one item of the input.
type message struct {
	Port     string // of the message
	Next     bool   `json:",omitempty"`
	Complete bool   `json:",omitempty"`
	Left     string `json:",omitempty"` // or the only string
	Right    string `json:",omitempty"`
	Form     int    `json:",omitempty"` // how the value is written
	BadMeta  []byte `json:",omitempty"` // instead of a port message's metadata
	BadData  int    `json:",omitempty"` // what is wrong with the data, 0 for nothing
}

type dialogue struct {
	Comp   int
	Msgs   []message
	End    int // 0 none, 1 complete, 2 error
	Async  bool
	Chunk  int // demand of the response's subscriber; 0 for everything
	Cancel int // after how many messages of the input the response is cancelled; -1 never
}

func str(s string, form int) []byte {
	n := len(s)
	var h []byte
	switch {
	case form == 0 && n < 32:
		h = []byte{0xa0 | byte(n)}
	case form <= 1 && n < 256:
		h = []byte{0xd9, byte(n)}
	case form <= 2 && n < 65536:
		h = binary.BigEndian.AppendUint16([]byte{0xda}, uint16(n))
	default:
		h = binary.BigEndian.AppendUint32([]byte{0xdb}, uint32(n))
	}
	return append(h, s...)
}

// data writes the message's value for a component.
func (m message) data(comp int) []byte {
	f := m.Form & 3
	if comp != aConcat {
		switch m.BadData {
		case 1:
			return nil
		case 2:
			return []byte{0xc3}
		case 3:
			return []byte{0x81, 0xa1, 'a', 0xa1, 'b'}
		case 4:
			b := str(m.Left+"x", f)
			return b[:len(b)-1]
		}
		return str(m.Left, f)
	}
	left, right := slices.Concat(str("left", f), str(m.Left, f)), slices.Concat(str("right", f), str(m.Right, f))
	fields := [][]byte{left, right}
	if m.Form&4 != 0 {
		fields = [][]byte{right, left}
	}
	if m.Form&8 != 0 { // a field that the receiver does not know
		fields = slices.Insert(fields, (m.Form>>4)%3, slices.Concat(str("middle", f), []byte{0x92, 0xc0, 0x81, 0xa1, 'k', 0xcb, 1, 2, 3, 4, 5, 6, 7, 8}))
	}
	switch m.BadData {
	case 1:
		return nil
	case 2:
		return str(m.Left, f)
	case 3: // more fields announced than there are
		return slices.Concat([]byte{0x80 | byte(len(fields)+1)}, slices.Concat(fields...))
	case 4:
		b := slices.Concat([]byte{0x80 | byte(len(fields))}, slices.Concat(fields...))
		return b[:len(b)-1]
	}
	if m.Form&64 != 0 {
		return slices.Concat([]byte{0xde, 0, byte(len(fields))}, slices.Concat(fields...))
	}
	return slices.Concat([]byte{0x80 | byte(len(fields))}, slices.Concat(fields...))
}

func (m message) payload(comp int) payload.Payload {
	meta := m.BadMeta
	if meta == nil {
		meta = portMeta(m.Port, m.Next, m.Complete)
	}
	var data []byte
	if m.Next {
		data = m.data(comp)
	}
	return payload.New(data, meta)
}

// portMeta is the metadata of a port message as the specification has it.
func portMeta(port string, next, complete bool) []byte {
	var flags byte
	if next {
		flags |= 1
	}
	if complete {
		flags |= 2
	}
	return append([]byte{flags, byte(len(port) >> 8), byte(len(port))}, port...)
}

// answer is one message of the response.
type answer struct {
	meta, data string
}

// expected says what the component answers: the messages of the response; how it
// ends (0 it does not, 1 completion, 2 error, 3 either); for the counter, the
// counts, whose order may differ where equal.
type expected struct {
	items  []answer
	counts map[string]uint64
	end    int
	why    string // for which there is no answer
}

var common = map[string]bool{"i": true, "the": true, "and": true, "to": true, "of": true, "a": true, "my": true, "in": true, "you": true, "is": true, "that": true}

func model(d dialogue) (e expected) {
	counts := map[string]uint64{}
	counted := func() expected {
		return expected{counts: counts, end: 1}
	}
	if d.Cancel >= 0 {
		d.Msgs = d.Msgs[:d.Cancel]
		d.End = 0
	}
	for _, m := range d.Msgs {
		if m.BadMeta != nil {
			return expected{end: 2, why: "metadata"}
		}
		if m.Port != inPort[d.Comp] {
			continue
		}
		if m.Next {
			if m.BadData != 0 {
				return expected{end: 2, why: "value"}
			}
			switch d.Comp {
			case aConcat:
				return expected{items: []answer{{string(portMeta("value", true, true)), m.Left + " " + m.Right}}, end: 1}
			case aGreeter:
				return expected{items: []answer{{string(portMeta("message", true, true)), "Hello, " + m.Left}}, end: 1}
			}
			if w := strings.ToLower(m.Left); !common[w] {
				counts[w]++
			}
		}
		if m.Complete && d.Comp == aCounter {
			return counted()
		}
	}
	switch d.End {
	case 1:
		if d.Comp == aCounter {
			return counted()
		}
		return expected{end: 3, why: "completed"} // there was nothing to answer
	case 2:
		return expected{end: 2, why: "failed"}
	}
	return expected{}
}

func unstr(b []byte) (string, []byte, bool) {
	n := 0
	switch {
	case len(b) > 0 && b[0]&0xe0 == 0xa0:
		n, b = int(b[0]&31), b[1:]
	case len(b) > 1 && b[0] == 0xd9:
		n, b = int(b[1]), b[2:]
	case len(b) > 2 && b[0] == 0xda:
		n, b = int(binary.BigEndian.Uint16(b[1:])), b[3:]
	case len(b) > 4 && b[0] == 0xdb:
		n, b = int(binary.BigEndian.Uint32(b[1:])), b[5:]
	default:
		return "", nil, false
	}
	if n > len(b) {
		return "", nil, false
	}
	return string(b[:n]), b[n:], true
}

func unuint(b []byte) (uint64, []byte, bool) {
	if len(b) == 0 {
		return 0, nil, false
	}
	c, b := b[0], b[1:]
	w := 0
	switch {
	case c < 0x80:
		return uint64(c), b, true
	case c >= 0xcc && c <= 0xcf:
		w = 1 << (c - 0xcc)
	}
	if w == 0 || len(b) < w {
		return 0, nil, false
	}
	var v uint64
	for _, x := range b[:w] {
		v = v<<8 | uint64(x)
	}
	return v, b[w:], true
}

// uncount reads a word's count.
func uncount(b []byte) (word string, n uint64, ok bool) {
	if len(b) == 0 || b[0] != 0x82 {
		return "", 0, false
	}
	b = b[1:]
	seen := 0
	for range 2 {
		var k string
		if k, b, ok = unstr(b); !ok {
			return
		}
		switch k {
		case "word":
			seen |= 1
			word, b, ok = unstr(b)
		case "count":
			seen |= 2
			n, b, ok = unuint(b)
		default:
			return "", 0, false
		}
		if !ok {
			return
		}
	}
	return word, n, seen == 3 && len(b) == 0
}

// judge compares the response with the model.
func judge(d dialogue, e expected, items []answer, ends []string) error {
	if len(ends) > 1 {
		return fmt.Errorf("the response ended more than once: %q", ends)
	}
	end := ""
	if len(ends) == 1 {
		end = ends[0]
	}
	switch {
	case e.end == 0 && end != "":
		return fmt.Errorf("the response ended (%s) while the input was still open and nothing had been answered", end)
	case e.end != 0 && end == "":
		return fmt.Errorf("the response did not end (answered %d messages)", len(items))
	case e.end == 1 && end != "complete":
		return fmt.Errorf("the response ended with %s instead of completion", end)
	case e.end == 2 && end == "complete":
		return fmt.Errorf("the response completed although its input had failed or could not be understood")
	}
	if e.counts == nil {
		if len(items) != len(e.items) {
			return fmt.Errorf("%d messages were answered, want %d", len(items), len(e.items))
		}
		for i, want := range e.items {
			got := items[i]
			s, rest, ok := unstr([]byte(got.data))
			if got.meta != want.meta || !ok || s != want.data || len(rest) > 0 {
				return fmt.Errorf("answer metadata %q data %q, want metadata %q and the string %q", got.meta, pbt.Trunc([]byte(got.data)), want.meta, pbt.Trunc([]byte(want.data)))
			}
		}
		return nil
	}
	if len(items) != len(e.counts)+1 {
		return fmt.Errorf("%d messages were answered, want %d counts and the port's completion", len(items), len(e.counts))
	}
	last := ^uint64(0)
	seen := map[string]bool{}
	for i, a := range items {
		if i == len(items)-1 {
			if a.meta != string(portMeta("counts", false, true)) {
				return fmt.Errorf("the last message's metadata is %q, not the port's completion", a.meta)
			}
			break
		}
		w, n, ok := uncount([]byte(a.data))
		switch {
		case a.meta != string(portMeta("counts", true, false)):
			return fmt.Errorf("count %d has metadata %q", i, a.meta)
		case !ok:
			return fmt.Errorf("count %d cannot be read: %x", i, a.data)
		case seen[w] || e.counts[w] != n:
			return fmt.Errorf("count %d says %q %d times (before: %v), want %d", i, w, n, seen[w], e.counts[w])
		case n > last:
			return fmt.Errorf("count %d (%d) is larger than the one before (%d)", i, n, last)
		}
		seen[w], last = true, n
	}
	return nil
}

func runDialogue(c *pbt.Ctx, d dialogue) error {
	h := handlers()[d.Comp]
	if h == nil {
		return fmt.Errorf("component %d is not registered as a channel", d.Comp)
	}
	want := model(d)
	if d.Cancel >= 0 && d.Cancel <= len(d.Msgs) && want.end == 0 {
		want.end = -1
	}
	c.NonTrivialIf(len(want.items) > 0 || len(want.counts) > 0 || want.end >= 2)
	c.Label(componentNames[d.Comp])
	c.Label(fmt.Sprintf("end %d", want.end))
	return pbt.Bubble(c.T, func() error {
		var items []answer
		var ends []string
		var sub rx.Subscription
		late := false
		done := make(chan struct{})
		var response flux.Flux[payload.Payload]
		feed := func(sink flux.Sink[payload.Payload]) {
			defer close(done)
			for i, m := range d.Msgs {
				if i == d.Cancel {
					pbt.Settle()
					sub.Cancel()
					late = true
				}
				sink.Next(m.payload(d.Comp))
			}
			if d.Cancel == len(d.Msgs) {
				pbt.Settle()
				sub.Cancel()
				late = true
			}
			switch d.End {
			case 1:
				sink.Complete()
			case 2:
				sink.Error(errors.New("the input failed"))
			}
		}
		ready := make(chan struct{})
		var in flux.Flux[payload.Payload]
		p := flux.NewProcessor[payload.Payload]()
		if d.Async {
			in = p
			go func() {
				<-ready
				feed(p)
			}()
		} else {
			in = flux.Create(func(sink flux.Sink[payload.Payload]) { feed(sink) })
		}
		response = h(context.Background(), payload.New([]byte{}), in)
		response.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext: func(p payload.Payload) {
				if late {
					ends = append(ends, "message after cancellation")
				}
				items = append(items, answer{string(p.Metadata()), string(p.Data())})
			},
			OnComplete: func() { ends = append(ends, "complete") },
			OnError:    func(err error) { ends = append(ends, "error "+err.Error()) },
			OnRequest: func(s rx.Subscription) {
				sub = s
				if d.Chunk > 0 {
					s.Request(d.Chunk)
				} else {
					s.Request(rx.RequestMax)
				}
			},
		})
		if d.Async {
			sub = response.Subscription()
			close(ready)
		}
		<-done
		pbt.Settle()
		if want.end == -1 { // cancelled before there was anything to answer
			if len(items) > 0 || len(ends) > 0 {
				return fmt.Errorf("after the cancellation came %d messages and the ends %q", len(items), ends)
			}
			return nil
		}
		if want.why != "" && len(items) == 0 && len(ends) == 0 && pbt.Known(componentNames[d.Comp]+" "+want.why) {
			c.Label("known: " + componentNames[d.Comp] + " " + want.why)
			return nil
		}
		return judge(d, want, items, ends)
	})
}

var words = rapid.OneOf(
	rapid.SampledFrom([]string{"i", "The", "AND", "to", "of", "a", "my", "in", "you", "is", "that", "this", "It", "love", "Love", "LOVE", "İ", "ß", "ÉTÉ", "été", "", " ", "the "}),
	rapid.StringMatching(`[a-cA-C]{1,2}`),
	rapid.String(),
	rapid.Map(rapid.SampledFrom([]int{31, 32, 127, 128, 255, 256, 65535, 65536}), func(n int) string { return strings.Repeat("w", n) }),
)

func genDialogue(t *rapid.T) dialogue {
	d := dialogue{Comp: rapid.IntRange(0, 2).Draw(t, "comp"), Cancel: -1}
	n := rapid.IntRange(0, 6).Draw(t, "n")
	if d.Comp == aCounter {
		n = rapid.IntRange(0, 40).Draw(t, "words")
	}
	completed := false
	for range n {
		m := message{Port: inPort[d.Comp]}
		m.Left = words.Draw(t, "left")
		if d.Comp == aConcat {
			m.Right = words.Draw(t, "right")
		}
		m.Form = rapid.IntRange(0, 127).Draw(t, "form")
		m.Next = true
		switch rapid.IntRange(0, 40).Draw(t, "odd") {
		case 0, 1, 2:
			m.Port = rapid.SampledFrom([]string{"", "other", "Strings", "names", "word", outPort[d.Comp], "words\x00"}).Draw(t, "port")
			m.Complete = rapid.Bool().Draw(t, "complete")
		case 3:
			m.BadMeta = rapid.SampledFrom([][]byte{{}, {1}, {1, 0}, {1, 0, 1}, {3, 255, 255, 'a'}, append([]byte{1, 0, 7}, "string"...)}).Draw(t, "meta")
		case 4:
			m.BadData = rapid.IntRange(1, 4).Draw(t, "bad")
		case 5, 6, 7, 8:
			m.Next = false
		case 9:
			m.Complete = true
		case 10, 11:
			m.Next, m.Complete = false, true
		}
		if completed { // the counts are under way; how they end must not depend on timing
			m.BadMeta, m.BadData = nil, 0
		}
		completed = completed || d.Comp == aCounter && m.Port == inPort[aCounter] && m.Complete && m.BadMeta == nil
		d.Msgs = append(d.Msgs, m)
	}
	d.End = rapid.SampledFrom([]int{0, 1, 1, 1, 2}).Draw(t, "end")
	d.Async = rapid.Bool().Draw(t, "async")
	if d.Async && rapid.IntRange(0, 9).Draw(t, "cancelled") == 0 {
		d.Cancel = rapid.IntRange(0, n).Draw(t, "cancel")
	}
	return d
}

// flow is the composition of Concat and Greeter, wired port to port, or the
// counter with a subscriber that asks for a part at a time.
type flow struct {
	Left, Right string
	Late        bool // subscribe after the input is there
	Fail        bool
	Words       []string
	Chunk       int
	Stop        int // cancel when this many counts came; 0 never
	End         bool
}

func runPipeline(c *pbt.Ctx, f flow) error {
	c.NonTrivial()
	return pbt.Bubble(c.T, func() error {
		ctx := context.Background()
		in, joined := mono.NewProcessor[concat.Strings](), mono.NewProcessor[string]()
		name, greeting := mono.NewProcessor[string](), mono.NewProcessor[string]()
		give := func() {
			if f.Fail {
				in.Error(errors.New("no strings"))
			} else {
				in.Success(concat.Strings{Left: f.Left, Right: f.Right})
			}
		}
		if f.Late {
			give()
		}
		c1 := concat.Concat{Inputs: concat.ConcatInputs{Strings: in}, Outputs: concat.ConcatOutputs{Value: joined}}
		c1.Process(ctx)
		c2 := greeter.Greeter{Inputs: greeter.GreeterInputs{Name: name}, Outputs: greeter.GreeterOutputs{Message: greeting}}
		c2.Process(ctx)
		joined.Subscribe(mono.Subscribe[string]{OnSuccess: name.Success, OnError: name.Error})
		var got []string
		greeting.Subscribe(mono.Subscribe[string]{
			OnSuccess: func(s string) { got = append(got, "value "+s) },
			OnError:   func(err error) { got = append(got, "error "+err.Error()) },
		})
		if !f.Late {
			give()
		}
		pbt.Settle()
		want := "value Hello, " + f.Left + " " + f.Right
		if f.Fail {
			want = "error no strings"
			if len(got) == 0 && pbt.Known("greeter process") {
				c.Label("known: greeter process")
				return nil
			}
		}
		if len(got) != 1 || got[0] != want {
			return fmt.Errorf("the flow's result is %q, want %q", got, want)
		}
		return nil
	})
}

func runCounts(c *pbt.Ctx, f flow) error {
	want := map[string]uint64{}
	for _, w := range f.Words {
		if w = strings.ToLower(w); !common[w] {
			want[w]++
		}
	}
	var sorted []uint64
	for _, n := range want {
		sorted = append(sorted, n)
	}
	sort.Slice(sorted, func(i, j int) bool { return sorted[i] > sorted[j] })
	c.NonTrivialIf(len(want) > f.Chunk)
	return pbt.Bubble(c.T, func() error {
		in, out := flux.NewProcessor[string](), flux.NewProcessor[wordfrequency.WordCount]()
		w := wordfrequency.WordFrequency{Input: wordfrequency.WordFrequencyInputs{Words: in}, Output: wordfrequency.WordFrequencyOutputs{Counts: out}}
		w.Process(context.Background())
		asked, stop := int64(0), false
		var got []wordfrequency.WordCount
		var ends []string
		var failure error
		out.Subscribe(flux.Subscribe[wordfrequency.WordCount]{
			OnNext: func(n wordfrequency.WordCount) {
				got = append(got, n)
				if int64(len(got)) > asked {
					failure = fmt.Errorf("count %d came when only %d were asked for", len(got), asked)
				}
				stop = f.Stop > 0 && len(got) >= f.Stop
			},
			OnComplete: func() { ends = append(ends, "complete") },
			OnError:    func(err error) { ends = append(ends, "error "+err.Error()) },
			Finally:    func(s rx.SignalType) { ends = append(ends, fmt.Sprint("finally ", s)) },
			OnRequest: func(s rx.Subscription) {
				if stop {
					s.Cancel()
					return
				}
				asked += int64(f.Chunk)
				s.Request(f.Chunk)
			},
		})
		for _, w := range f.Words {
			in.Next(w)
		}
		pbt.Settle()
		if len(got)+len(ends) > 0 {
			return fmt.Errorf("there were counts before the words had ended: %v %q", got, ends)
		}
		if f.Fail {
			in.Error(errors.New("no more words"))
			pbt.Settle()
			if len(ends)+len(got) == 0 && pbt.Known("counter process") {
				c.Label("known: counter process")
				return nil
			}
			if w := []string{"error no more words", fmt.Sprint("finally ", rx.SignalError)}; !slices.Equal(ends, w) || len(got) > 0 {
				return fmt.Errorf("when the words failed came %v %q, want %q", got, ends, w)
			}
			return nil
		}
		in.Complete()
		pbt.Settle()
		if failure != nil {
			return failure
		}
		n := len(want)
		stopped := false
		if f.Stop > 0 && f.Stop <= n { // the subscriber cancels when its demand was met
			chunk := int64(f.Chunk)
			if at := (int64(f.Stop) + chunk - 1) / chunk * chunk; at < int64(n) {
				n, stopped = int(at), true
			} else if at == int64(n) {
				stopped = len(ends) > 0 && ends[0] == fmt.Sprint("finally ", rx.SignalCancel)
			}
		}
		wantEnds := []string{"complete", fmt.Sprint("finally ", rx.SignalComplete)}
		if stopped {
			wantEnds = []string{fmt.Sprint("finally ", rx.SignalCancel)}
		}
		if len(got) != n || !slices.Equal(ends, wantEnds) {
			return fmt.Errorf("%d counts and then %q, want %d and then %q", len(got), ends, n, wantEnds)
		}
		seen := map[string]bool{}
		for i, g := range got {
			if seen[g.Word] || want[g.Word] != g.Count || g.Count != sorted[i] {
				return fmt.Errorf("count %d is %v, want the %d. most frequent word, which occurs %d times (this one: %d)", i, g, i+1, sorted[i], want[g.Word])
			}
			seen[g.Word] = true
		}
		return nil
	})
}

func TestC43(t *testing.T) {
	pbt.Check(t, "C43",
		pbt.NewPart("channels", 6000, 60000, "the component has something to answer, or its input fails", genDialogue, runDialogue),
		pbt.NewPart("pipeline", 400, 4000, "every case", func(t *rapid.T) flow {
			return flow{Left: words.Draw(t, "left"), Right: words.Draw(t, "right"), Late: rapid.Bool().Draw(t, "late"), Fail: rapid.IntRange(0, 4).Draw(t, "fail") == 0}
		}, runPipeline),
		pbt.NewPart("counts", 3000, 30000, "there are more counts than are asked for at once", func(t *rapid.T) flow {
			return flow{
				Words: rapid.SliceOfN(words, 0, 60).Draw(t, "words"),
				Chunk: rapid.SampledFrom([]int{1, 1, 2, 3, 7, 100, rx.RequestMax}).Draw(t, "chunk"),
				Stop:  rapid.SampledFrom([]int{0, 0, 1, 2, 5, 30}).Draw(t, "stop"),
				Fail:  rapid.IntRange(0, 9).Draw(t, "fail") == 0,
			}
		}, runCounts),
	)
}
