package rs

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"slices"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/nanobus/iota/go/example/greeter"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/example"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/concat"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/customer"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh/modules/greeting"
	"github.com/nanobus/iota/go/verifharness/pbt"
)

// The typed services: what a client's method does must be what calling the
// registered function directly does.

// The functions.
const (
	sGreet     = iota // Greeter.SayHello(first, last)
	sHello            // example's SayHello(first, last)
	sConcat           // Concat(left, right)
	sName             // SayHello(name)
	sCustomer         // NewCustomer(Customer), which has no client
	sCount            // CountToN(to), a stream
	sUppercase        // Uppercase(in), a channel
	services
)

var serviceOps = [services]struct {
	ns, op string
	kind   operations.RequestType
	fields []string
}{
	sGreet:     {"greeting", "sayHello", operations.RequestResponse, []string{"firstName", "lastName"}},
	sHello:     {"greeting", "sayHello", operations.RequestResponse, []string{"firstName", "lastName"}},
	sConcat:    {"concat.v1", "concat", operations.RequestResponse, []string{"left", "right"}},
	sName:      {"greeting.v1", "sayHello", operations.RequestResponse, []string{"name"}},
	sCustomer:  {"flow.v1", "flow", operations.RequestResponse, []string{"firstName", "lastName"}},
	sCount:     {"host", "counter", operations.RequestStream, []string{"to"}},
	sUppercase: {"host", "counter", operations.RequestChannel, nil},
}

type svcCall struct {
	F      int
	A, B   string   `json:",omitempty"` // arguments
	N      uint64   `json:",omitempty"`
	In     []string `json:",omitempty"` // the channel's input
	InFail bool     `json:",omitempty"`
	Out    []string `json:",omitempty"` // what the function answers
	Fail   string   `json:",omitempty"` // how the function fails
	Async  bool     `json:",omitempty"`
	Chunk  int      `json:",omitempty"`
	// Written by hand instead of by a client.
	Raw   bool `json:",omitempty"`
	Form  int  `json:",omitempty"` // of strings and the map
	Order bool `json:",omitempty"` // the other order of the fields
	Extra int  `json:",omitempty"` // unknown fields
	Bad   int  `json:",omitempty"`
}

type svcCase struct {
	Remote   bool // over a connection
	Buffered bool
	Calls    []svcCall
}

// svcRun answers the services' functions.
type svcRun struct {
	responder
	c    *svcCase
	mu   sync.Mutex
	now  int // the call under way
	seen []string
}

// service is called by every registered function.
func service(ctx context.Context, f int, args string) svcCall {
	r := ctx.Value(endKey{}).(end).w.(*svcRun)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.seen = append(r.seen, fmt.Sprintf("%d(%s)", f, args))
	return r.c.Calls[r.now]
}

func (c svcCall) single() mono.Mono[string] {
	var first string
	if len(c.Out) > 0 {
		first = c.Out[0]
	}
	if !c.Async {
		if c.Fail != "" {
			return mono.Error[string](errors.New(c.Fail))
		}
		return mono.Just(first)
	}
	return mono.Create(func(s mono.Sink[string]) {
		go func() {
			if c.Fail != "" {
				s.Error(errors.New(c.Fail))
			} else {
				s.Success(first)
			}
		}()
	})
}

func (c svcCall) several() flux.Flux[string] {
	if !c.Async && c.Fail == "" {
		return flux.FromSlice(slices.Clone(c.Out))
	}
	items := c.Out
	return flux.Create(func(s flux.Sink[string]) {
		s.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
			for ; n > 0 && len(items) > 0; n-- {
				next := items[0]
				items = items[1:]
				s.Next(next)
			}
			if len(items) > 0 {
				return
			}
			if c.Fail != "" {
				s.Error(errors.New(c.Fail))
			} else {
				s.Complete()
			}
		}})
	})
}

type greeterImpl struct{}

func (g greeterImpl) SayHello(ctx context.Context, first, last string) mono.Mono[string] {
	return service(ctx, sGreet, fmt.Sprintf("%q, %q", first, last)).single()
}

var registerServices = sync.OnceFunc(func() {
	register()
	for i := range 300 { // the services' indexes take more than a byte
		invoke.ExportRequestResponse(ns, fmt.Sprintf("before%d", i), func(context.Context, payload.Payload) mono.Mono[payload.Payload] { panic("not this") })
	}
	invoke.ExportRequestResponse(ns, "before", func(context.Context, payload.Payload) mono.Mono[payload.Payload] { panic("not this") })
	greeter.RegisterGreeter(greeterImpl{})
	// Under the same name. Who asks for that gets one of them.
	example.RegisterSayHello(func(ctx context.Context, first, last string) mono.Mono[string] {
		return greeterImpl{}.SayHello(ctx, first, last)
	})
	concat.RegisterConcat(func(ctx context.Context, left, right string) mono.Mono[string] {
		return service(ctx, sConcat, fmt.Sprintf("%q, %q", left, right)).single()
	})
	greeting.RegisterSayHello(func(ctx context.Context, name string) mono.Mono[string] {
		return service(ctx, sName, fmt.Sprintf("%q", name)).single()
	})
	customer.RegisterNewCustomer(func(ctx context.Context, c *customer.Customer) mono.Mono[string] {
		return service(ctx, sCustomer, fmt.Sprintf("%q, %q", c.FirstName, c.LastName)).single()
	})
	example.RegisterCounter(func(ctx context.Context, to uint64) flux.Flux[string] {
		return service(ctx, sCount, fmt.Sprint(to)).several()
	})
	example.RegisterUppercase(func(ctx context.Context, in flux.Flux[string]) flux.Flux[string] {
		c := service(ctx, sUppercase, "")
		if len(c.Out) == 0 && c.Fail == "" { // what it is named for
			return flux.Map(in, func(s string) (string, error) { return strings.ToUpper(s), nil })
		}
		in.Subscribe(flux.Subscribe[string]{})
		return c.several()
	})
})

// direct calls the registered operations without a connection.
type direct struct{ w *svcRun }

func (d direct) find(ns, op string, kind operations.RequestType) uint32 {
	for _, o := range invoke.GetOperationsTable() {
		if o.Namespace == ns && o.Operation == op && o.Type == kind && o.Direction == operations.Export {
			return o.Index
		}
	}
	return 1 << 30
}

func (d direct) ImportRequestResponse(ns, op string) uint32 {
	return d.find(ns, op, operations.RequestResponse)
}
func (d direct) ImportFireAndForget(ns, op string) uint32 {
	return d.find(ns, op, operations.FireAndForget)
}
func (d direct) ImportRequestStream(ns, op string) uint32 {
	return d.find(ns, op, operations.RequestStream)
}
func (d direct) ImportRequestChannel(ns, op string) uint32 {
	return d.find(ns, op, operations.RequestChannel)
}

func (d direct) on(ctx context.Context) context.Context {
	return context.WithValue(ctx, endKey{}, end{d.w, 0})
}

func (d direct) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	return invoke.GetRequestResponseHandler(binary.BigEndian.Uint32(p.Metadata()))(d.on(ctx), p)
}
func (d direct) FireAndForget(ctx context.Context, p payload.Payload) {
	invoke.GetFireAndForgetHandler(binary.BigEndian.Uint32(p.Metadata()))(d.on(ctx), p)
}
func (d direct) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	return invoke.GetRequestStreamHandler(binary.BigEndian.Uint32(p.Metadata()))(d.on(ctx), p)
}
func (d direct) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	return invoke.GetRequestChannelHandler(binary.BigEndian.Uint32(p.Metadata()))(d.on(ctx), p, in)
}

// second is a caller that finds the last of several operations of a name.
type second struct{ direct }

func (d second) ImportRequestResponse(ns, op string) (index uint32) {
	index = 1 << 30
	for _, o := range invoke.GetOperationsTable() {
		if o.Namespace == ns && o.Operation == op && o.Type == operations.RequestResponse && o.Direction == operations.Export {
			index = o.Index
		}
	}
	return index
}

// svcString writes a string in one of its forms.
func svcString(s string, form int) []byte {
	n := len(s)
	var h []byte
	switch {
	case form == 0 && n < 32:
		h = []byte{0xa0 | byte(n)}
	case form <= 1 && n < 256:
		h = []byte{0xd9, byte(n)}
	case form <= 2 && n < 65536:
		h = binary.BigEndian.AppendUint16([]byte{0xda}, uint16(n))
	default:
		h = binary.BigEndian.AppendUint32([]byte{0xdb}, uint32(n))
	}
	return append(h, s...)
}

func svcUint(n uint64, form int) []byte {
	switch {
	case form == 0 && n < 128:
		return []byte{byte(n)}
	case form <= 1 && n < 1<<8:
		return []byte{0xcc, byte(n)}
	case form <= 2 && n < 1<<16:
		return binary.BigEndian.AppendUint16([]byte{0xcd}, uint16(n))
	case form <= 3 && n < 1<<32:
		return binary.BigEndian.AppendUint32([]byte{0xce}, uint32(n))
	}
	return binary.BigEndian.AppendUint64([]byte{0xcf}, n)
}

// What a receiver that knows other fields has to step over.
var unknownFields = [][]byte{
	{0xc0},
	{0x93, 1, 0xa1, 'x', 0xc3},
	{0x81, 0xa2, 'i', 'n', 0x92, 0xca, 1, 2, 3, 4, 0xd6, 5, 1, 2, 3, 4},
	{0xc4, 2, 0xa1, 0x81},
	{0xd3, 0xff, 0, 0, 0, 0, 0, 0, 1},
}

// data writes the request by hand.
func (c svcCall) data() []byte {
	f := c.Form & 3
	var fields [][]byte
	for i, name := range serviceOps[c.F].fields {
		b := svcString(name, f)
		switch {
		case c.F == sCount:
			b = append(b, svcUint(c.N, f)...)
		case i == 0:
			b = append(b, svcString(c.A, f)...)
		default:
			b = append(b, svcString(c.B, f)...)
		}
		fields = append(fields, b)
	}
	if c.Order {
		slices.Reverse(fields)
	}
	for i := range c.Extra {
		b := append(svcString(fmt.Sprintf("unknown%d", i), f), unknownFields[(c.Form>>2+i)%len(unknownFields)]...)
		fields = slices.Insert(fields, (c.Form>>3+i)%(len(fields)+1), b)
	}
	n := len(fields)
	switch c.Bad {
	case 1:
		return []byte{}
	case 2:
		return svcString(c.A, f)
	case 3:
		n++
	case 5:
		fields = append(fields, append(svcString(serviceOps[c.F].fields[0], f), 0xc2))
		n++
	}
	head := []byte{0x80 | byte(n)}
	switch form := c.Form >> 5; {
	case form == 2:
		head = binary.BigEndian.AppendUint32([]byte{0xdf}, uint32(n))
	case form == 1 || n > 15:
		head = binary.BigEndian.AppendUint16([]byte{0xde}, uint16(n))
	}
	b := append(head, bytes.Join(fields, nil)...)
	if c.Bad == 4 {
		b = b[:len(b)-1]
	}
	return b
}

// outcome is what a call came to.
type outcome struct {
	items []string
	ends  []string
}

func (o *outcome) single(m mono.Mono[string]) {
	m.Subscribe(mono.Subscribe[string]{
		OnSuccess: func(s string) { o.items = append(o.items, s); o.ends = append(o.ends, "complete") },
		OnError:   func(err error) { o.ends = append(o.ends, "error "+err.Error()) },
	})
}

func (o *outcome) several(f flux.Flux[string], chunk int) {
	f.Subscribe(flux.Subscribe[string]{
		OnNext:     func(s string) { o.items = append(o.items, s) },
		OnComplete: func() { o.ends = append(o.ends, "complete") },
		OnError:    func(err error) { o.ends = append(o.ends, "error "+err.Error()) },
		OnRequest: func(s rx.Subscription) {
			if chunk > 0 {
				s.Request(chunk)
			} else {
				s.Request(rx.RequestMax)
			}
		},
	})
}

// decoded reads the string of a message, as the protocol has it.
func decoded(p payload.Payload) (string, error) {
	b := p.Data()
	n := -1
	switch {
	case len(b) > 0 && b[0]&0xe0 == 0xa0:
		n, b = int(b[0]&31), b[1:]
	case len(b) > 1 && b[0] == 0xd9:
		n, b = int(b[1]), b[2:]
	case len(b) > 2 && b[0] == 0xda:
		n, b = int(binary.BigEndian.Uint16(b[1:])), b[3:]
	case len(b) > 4 && b[0] == 0xdb:
		n, b = int(binary.BigEndian.Uint32(b[1:])), b[5:]
	}
	if n != len(b) {
		return "", fmt.Errorf("the answer %s is not a string", pbt.Trunc(p.Data()))
	}
	return string(b), nil
}

// call makes the call.
func (c svcCall) call(caller invoke.Caller, o *outcome) {
	ctx := context.Background()
	op := serviceOps[c.F]
	if c.Raw {
		meta := func(index uint32) []byte {
			return append(binary.BigEndian.AppendUint32(nil, index), 0, 0, 0, 0)
		}
		switch op.kind {
		case operations.RequestResponse:
			p := payload.New(c.data(), meta(caller.ImportRequestResponse(op.ns, op.op)))
			o.single(mono.Map(caller.RequestResponse(ctx, p), decoded))
		case operations.RequestStream:
			p := payload.New(c.data(), meta(caller.ImportRequestStream(op.ns, op.op)))
			o.several(flux.Map(caller.RequestStream(ctx, p), decoded), c.Chunk)
		default:
			var in []payload.Payload
			for i, s := range c.In {
				in = append(in, payload.New(svcString(s, (c.Form+i)&3)))
			}
			if bad := [][]byte{1: {}, 2: {0xc3}, 3: {0xa2, 'x'}, 4: {0xca, 0, 0, 0, 0}, 5: {0xdb, 0xff, 0xff, 0xff, 0xff}}[c.Bad]; bad != nil {
				in = append(in, payload.New(bad))
			}
			p := payload.New([]byte{}, meta(caller.ImportRequestChannel(op.ns, op.op)))
			o.several(flux.Map(caller.RequestChannel(ctx, p, flux.FromSlice(in)), decoded), c.Chunk)
		}
		return
	}
	switch c.F {
	case sGreet:
		o.single(greeter.NewGreeting(caller).SayHello(ctx, c.A, c.B))
	case sHello:
		o.single(example.NewGreeting(caller).SayHello(ctx, c.A, c.B))
	case sConcat:
		concat.Initialize(caller)
		o.single(concat.Concat(ctx, c.A, c.B))
	case sName:
		greeting.Initialize(caller)
		o.single(greeting.SayHello(ctx, c.A))
	case sCount:
		o.several(example.NewCounter(caller).CountToN(ctx, c.N), c.Chunk)
	case sUppercase:
		in := flux.FromSlice(slices.Clone(c.In))
		if c.InFail {
			items := c.In
			in = flux.Create(func(s flux.Sink[string]) {
				s.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
					for ; n > 0 && len(items) > 0; n-- {
						next := items[0]
						items = items[1:]
						s.Next(next)
					}
					if len(items) == 0 {
						s.Error(errors.New("the input failed"))
					}
				}})
			})
		}
		o.several(example.NewUppercase(caller).Uppercase(ctx, in), c.Chunk)
	}
}

// judge compares what happened with calling the function directly.
func (c svcCall) judge(o outcome, seen []string) error {
	f := c.F
	if f == sHello {
		f = sGreet
	}
	if c.Bad > 0 && f != sUppercase {
		if len(seen) > 0 {
			return fmt.Errorf("a malformed request reached the function: %s", seen)
		}
		if len(o.items) > 0 || len(o.ends) != 1 || !strings.HasPrefix(o.ends[0], "error ") {
			return fmt.Errorf("a malformed request came to %q and the ends %q, want an error", o.items, o.ends)
		}
		return nil
	}
	args := fmt.Sprintf("%q, %q", c.A, c.B)
	switch f {
	case sName:
		args = fmt.Sprintf("%q", c.A)
	case sCount:
		args = fmt.Sprint(c.N)
	case sUppercase:
		args = ""
	}
	if want := []string{fmt.Sprintf("%d(%s)", f, args)}; !slices.Equal(seen, want) {
		return fmt.Errorf("the function was called with %.300s, want %.300s", seen, want)
	}
	want, end := c.Out, "complete"
	if c.Fail != "" {
		end = "error " + c.Fail
	}
	switch {
	case serviceOps[f].kind == operations.RequestResponse:
		want = []string{""}
		if len(c.Out) > 0 {
			want = c.Out[:1]
		}
		if c.Fail != "" {
			want = nil
		}
	case f == sUppercase && len(c.Out) == 0 && c.Fail == "":
		want = nil
		for _, s := range c.In {
			want = append(want, strings.ToUpper(s))
		}
		if c.Raw && c.Bad > 0 {
			end = "error"
		} else if !c.Raw && c.InFail {
			end = "error the input failed"
		}
	}
	if !slices.Equal(o.items, want) {
		return fmt.Errorf("the answers are %.300q, want %.300q (ends %q)", o.items, want, o.ends)
	}
	if len(o.ends) != 1 || o.ends[0] != end && (end != "error" || !strings.HasPrefix(o.ends[0], end)) {
		return fmt.Errorf("after %d answers the ends are %q, want %q", len(o.items), o.ends, end)
	}
	return nil
}

func runServices(ctx *pbt.Ctx, c svcCase) error {
	registerServices()
	ctx.NonTrivialIf(c.Remote || len(c.Calls) > 1)
	return pbt.Bubble(ctx.T, func() error {
		w := &svcRun{c: &c}
		var caller, other invoke.Caller = direct{w}, second{direct{w}}
		if c.Remote {
			a, b := net.Pipe()
			if c.Buffered {
				a, b = bufPipe()
			}
			client, server, err := connect(context.Background(), w, a, b)
			if err != nil {
				return err
			}
			caller, other = server.h, server.h
			defer func() {
				client.t.Close()
				pbt.Settle()
				server.t.Close()
			}()
		}
		for i, call := range c.Calls {
			ctx.Label(fmt.Sprintf("%s %s", serviceOps[call.F].ns, serviceOps[call.F].op))
			if call.Bad > 0 {
				ctx.Label("malformed")
			}
			w.mu.Lock()
			w.now, w.seen = i, nil
			w.mu.Unlock()
			var o outcome
			by := caller
			if call.F == sHello {
				by = other
			}
			call.call(by, &o)
			pbt.Settle()
			w.mu.Lock()
			seen := w.seen
			w.mu.Unlock()
			if err := call.judge(o, seen); err != nil {
				return fmt.Errorf("call %d: %w", i, err)
			}
		}
		return nil
	})
}

var svcStrings = rapid.OneOf(
	rapid.StringMatching(`[a-zA-Z]{0,6}`),
	rapid.String(),
	rapid.Map(rapid.SampledFrom([]int{31, 32, 127, 128, 255, 256, 65535, 65536}), func(n int) string { return strings.Repeat("s", n) }),
	rapid.SampledFrom([]string{"straße", "ŉ", "firstName", "left", "null"}),
)

func genServices(t *rapid.T) svcCase {
	c := svcCase{Remote: rapid.Bool().Draw(t, "remote")}
	if c.Remote {
		c.Buffered = rapid.Bool().Draw(t, "buffered")
	}
	for range rapid.IntRange(1, 5).Draw(t, "calls") {
		l := svcCall{F: rapid.IntRange(0, services-1).Draw(t, "function")}
		l.Raw = l.F == sCustomer || rapid.IntRange(0, 2).Draw(t, "raw") == 0
		switch l.F {
		case sCount:
			l.N = rapid.OneOf(rapid.Uint64(), rapid.SampledFrom([]uint64{0, 1, 127, 128, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1})).Draw(t, "n")
		case sUppercase:
			l.In = rapid.SliceOfN(svcStrings, 0, 5).Draw(t, "in")
			l.InFail = rapid.IntRange(0, 3).Draw(t, "inFail") == 0
		case sName:
			l.A = svcStrings.Draw(t, "a")
		default:
			l.A, l.B = svcStrings.Draw(t, "a"), svcStrings.Draw(t, "b")
		}
		l.Out = rapid.SliceOfN(svcStrings, 0, 5).Draw(t, "out")
		if l.F == sUppercase && rapid.Bool().Draw(t, "upper") {
			l.Out = nil
		} else if rapid.IntRange(0, 3).Draw(t, "fails") == 0 {
			l.Fail = rapid.SampledFrom([]string{"no", "it does not work", "übel", strings.Repeat("e", 300)}).Draw(t, "fail")
		}
		l.Async = rapid.Bool().Draw(t, "async")
		l.Chunk = rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "chunk")
		if l.Raw {
			l.Form = rapid.IntRange(0, 95).Draw(t, "form")
			l.Order = rapid.Bool().Draw(t, "order")
			l.Extra = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 13, 14, 15, 20, 300}).Draw(t, "extra")
			if rapid.IntRange(0, 3).Draw(t, "malformed") == 0 {
				l.Bad = rapid.IntRange(1, 5).Draw(t, "bad")
			}
		}
		c.Calls = append(c.Calls, l)
	}
	return c
}

func TestC42(t *testing.T) {
	pbt.Check(t, "C42",
		pbt.NewPart("calls", 5000, 40000, "over a connection or several calls", genServices, runServices),
	)
}
