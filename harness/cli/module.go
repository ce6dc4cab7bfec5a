// Package cli checks the command line tools with modules it assembles.
package cli

import "encoding/binary"

// What a module does with a request.
const (
	actEcho  = iota // answers with the request's data
	actReply        // answers with a prepared frame
	actTrap
	actSilent // to be given a prepared frame for any stream that was opened
)

func leb(n uint32) []byte {
	var out []byte
	for {
		b := byte(n & 0x7f)
		n >>= 7
		if n == 0 {
			return append(out, b)
		}
		out = append(out, b|0x80)
	}
}

func sleb(n int) []byte {
	var out []byte
	for {
		b := byte(n & 0x7f)
		n >>= 7
		if n == 0 && b&0x40 == 0 {
			return append(out, b)
		}
		out = append(out, b|0x80)
	}
}

func vec(items ...[]byte) []byte {
	out := leb(uint32(len(items)))
	for _, i := range items {
		out = append(out, i...)
	}
	return out
}

func str(s string) []byte { return append(leb(uint32(len(s))), s...) }

func section(id byte, content []byte) []byte {
	return append(append([]byte{id}, leb(uint32(len(content)))...), content...)
}

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// Where a module keeps things.
const (
	inPtr    = 0x00000
	outPtr   = 0x04000
	opsPtr   = 0x08000
	replyPtr = 0x10000
	pages    = 3
)

// module is a WasmRS module with an operation table that answers every
// request/response in one way.
func module(ops []byte, act int, reply []byte, customs ...custom) []byte {
	const i32 = 0x7f
	c := func(n int) []byte { return append([]byte{0x41}, sleb(n)...) } // i32.const
	types := section(1, vec(
		[]byte{0x60, 3, i32, i32, i32, 1, i32},
		[]byte{0x60, 0, 0},
		[]byte{0x60, 1, i32, 0},
		[]byte{0x60, 2, i32, i32, 0},
	))
	imports := section(2, vec(
		cat(str("wasmrs"), str("__init_buffers"), []byte{0, 3}),
		cat(str("wasmrs"), str("__op_list"), []byte{0, 3}),
		cat(str("wasmrs"), str("__send"), []byte{0, 2}),
	))
	functions := section(3, vec([]byte{0}, []byte{1}, []byte{2}))
	memory := section(5, vec([]byte{0, pages}))
	exports := section(7, vec(
		cat(str("memory"), []byte{2, 0}),
		cat(str("__wasmrs_init"), []byte{0, 3}),
		cat(str("__wasmrs_op_list_request"), []byte{0, 4}),
		cat(str("__wasmrs_send"), []byte{0, 5}),
	))
	body := func(code []byte) []byte {
		b := append(append([]byte{0}, code...), 0x0b)
		return append(leb(uint32(len(b))), b...)
	}
	copyTo := func(to, from int, n []byte) []byte {
		return cat(c(to), c(from), n, []byte{0xfc, 10, 0, 0})
	}
	store := func(at int, b byte) []byte { return cat(c(at), c(int(b)), []byte{0x3a, 0, 0}) }
	call := func(f byte) []byte { return []byte{0x10, f} }
	var answer []byte
	switch act {
	case actEcho:
		// The request becomes a payload (next, complete) of its stream.
		answer = cat(copyTo(outPtr, inPtr, []byte{0x20, 0}),
			store(outPtr+7, 0x29), store(outPtr+8, 0x60), []byte{0x20, 0}, call(2))
	case actReply:
		answer = cat(copyTo(outPtr, replyPtr, c(len(reply))), copyTo(outPtr+3, inPtr+3, c(4)),
			c(len(reply)), call(2))
	case actTrap:
		answer = []byte{0}
	}
	// if the frame is a request/response
	handle := cat(c(inPtr+7), []byte{0x2d, 0, 0}, c(0xfc), []byte{0x71}, c(0x10), []byte{0x46, 0x04, 0x40}, answer, []byte{0x0b})
	code := section(10, vec(
		body(cat(c(inPtr), c(outPtr), call(0), c(1))),
		body(cat(c(opsPtr), c(len(ops)), call(1))),
		body(handle),
	))
	segment := func(at int, b []byte) []byte {
		return cat([]byte{0}, c(at), []byte{0x0b}, str(string(b)))
	}
	data := section(11, vec(segment(opsPtr, ops), segment(replyPtr, reply)))
	bin := cat([]byte("\x00asm\x01\x00\x00\x00"))
	all := [][]byte{types, imports, functions, memory, exports, code, data}
	for i, s := range all {
		for _, cu := range customs {
			if cu.At == i {
				bin = append(bin, cu.section()...)
			}
		}
		bin = append(bin, s...)
	}
	for _, cu := range customs {
		if cu.At >= len(all) {
			bin = append(bin, cu.section()...)
		}
	}
	return bin
}

// custom is a custom section before another one.
type custom struct {
	At   int
	Name string
	Data []byte
}

func (c custom) section() []byte { return section(0, append(str(c.Name), c.Data...)) }

// sections splits a module.
func sections(bin []byte) (out []custom, ok bool) {
	if len(bin) < 8 || string(bin[:8]) != "\x00asm\x01\x00\x00\x00" {
		return nil, false
	}
	bin = bin[8:]
	for len(bin) > 0 {
		id := bin[0]
		n, k := binary.Uvarint(bin[1:])
		if k <= 0 || uint64(len(bin)-1-k) < n {
			return nil, false
		}
		content := bin[1+k : 1+k+int(n)]
		bin = bin[1+k+int(n):]
		if id != 0 {
			out = append(out, custom{At: int(id), Data: content})
			continue
		}
		l, k := binary.Uvarint(content)
		if k <= 0 || uint64(len(content)-k) < l {
			return nil, false
		}
		out = append(out, custom{Name: string(content[k : k+int(l)]), Data: content[k+int(l):]})
	}
	return out, true
}

// op is an operation of a table.
type op struct {
	Kind  byte // 1 request/response, 2 fire and forget, 3 stream, 4 channel
	Dir   byte // 1 export, 2 import
	Index uint32
	NS    string
	Name  string
}

// table is a table as the specification has it.
func table(ops []op) []byte {
	b := []byte{0, 'w', 'r', 's', 0, 1}
	b = binary.BigEndian.AppendUint32(b, uint32(len(ops)))
	for _, o := range ops {
		b = append(b, o.Kind, o.Dir)
		b = binary.BigEndian.AppendUint32(b, o.Index)
		b = binary.BigEndian.AppendUint16(b, uint16(len(o.NS)))
		b = append(b, o.NS...)
		b = binary.BigEndian.AppendUint16(b, uint16(len(o.Name)))
		b = append(b, o.Name...)
		b = append(b, 0, 0)
	}
	return b
}

// payloadFrame is a payload that completes its stream, 0.
func payloadFrame(data []byte) []byte {
	return framed(append([]byte{0, 0, 0, 0, 0x28, 0x60}, data...))
}

// errorFrame is the failure of stream 0.
func errorFrame(msg string) []byte {
	return framed(append([]byte{0, 0, 0, 0, 0x2c, 0, 0, 0, 2, 1}, msg...))
}

func framed(b []byte) []byte {
	return append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}
