//go:build verif

package wasm

import "github.com/tetratelabs/wazero/api"

// The pages of the stub modules: the host writes frames to sendPtr, reads
// them from recvPtr, and reads the operations from opsPtr.
const (
	sendPtr  = 0x0000
	recvPtr  = 0x4000
	opsPtr   = 0x8000
	trapPtr  = 0xe000 // __wasmrs_send fails if there is something
	countPtr = 0xe100 // how many start functions have run
	startPtr = 0xe104 // what was the count when _start ran
	initPtr  = 0xe108 // and wasmrs_init
	readyPtr = 0xe10c // and __wasmrs_init
	namePtr  = 0xf000
	pages    = 1
)

// Entry points a module can lack.
const (
	lackInit = 1 << iota
	lackOpList
	lackSend
	trapInit // has it, but it fails
	trapOpList
	trapStart // optional ones
	trapBegin
	needsMore // imports what the host does not have
	failures  = iota
)

// Start functions a module can have, and things it can import.
const (
	hasStart = 1 << (failures + iota) // _start
	hasBegin                          // wasmrs_init
	usesWASI
	usesEnv
)

func leb(n uint32) []byte {
	var out []byte
	for {
		b := byte(n & 0x7f)
		n >>= 7
		if n == 0 {
			return append(out, b)
		}
		out = append(out, b|0x80)
	}
}

func sleb(n int) []byte {
	var out []byte
	for {
		b := byte(n & 0x7f)
		n >>= 7
		if n == 0 && b&0x40 == 0 {
			return append(out, b)
		}
		out = append(out, b|0x80)
	}
}

func vec(items ...[]byte) []byte {
	out := leb(uint32(len(items)))
	for _, i := range items {
		out = append(out, i...)
	}
	return out
}

func str(s string) []byte { return append(leb(uint32(len(s))), s...) }

func section(id byte, content []byte) []byte {
	return append(append([]byte{id}, leb(uint32(len(content)))...), content...)
}

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// stub is a module whose exports do nothing by themselves: the harness acts
// when they are called. It can call the host by call_*. The name goes into
// the memory.
func stub(name string, lacks int) []byte {
	const i32 = 0x7f
	types := section(1, vec(
		[]byte{0x60, 3, i32, i32, i32, 1, i32},
		[]byte{0x60, 0, 0},
		[]byte{0x60, 1, i32, 0},
		[]byte{0x60, 2, i32, i32, 0},
		[]byte{0x60, 4, i32, i32, i32, i32, 1, i32},
		[]byte{0x60, 4, i32, i32, i32, i32, 0},
	))
	imported := [][]byte{
		cat(str("wasmrs"), str("__init_buffers"), []byte{0, 3}),
		cat(str("wasmrs"), str("__op_list"), []byte{0, 3}),
		cat(str("wasmrs"), str("__send"), []byte{0, 2}),
	}
	if lacks&usesWASI != 0 {
		imported = append(imported,
			cat(str("wasi_snapshot_preview1"), str("fd_write"), []byte{0, 4}),
			cat(str("wasi_snapshot_preview1"), str("proc_exit"), []byte{0, 2}))
	}
	if lacks&usesEnv != 0 {
		imported = append(imported, cat(str("env"), str("abort"), []byte{0, 5}))
	}
	if lacks&needsMore != 0 {
		imported = append(imported, cat(str("wasmrs"), str("__more"), []byte{0, 2}))
	}
	n := byte(len(imported)) // the first function of its own
	imports := section(2, vec(imported...))
	functions := section(3, vec([]byte{0}, []byte{1}, []byte{2}, []byte{3}, []byte{3}, []byte{2}, []byte{1}, []byte{1}))
	memory := section(5, vec([]byte{0, pages}))
	exports := [][]byte{
		cat(str("memory"), []byte{2, 0}),
		cat(str("call_init_buffers"), []byte{0, n + 3}),
		cat(str("call_op_list"), []byte{0, n + 4}),
		cat(str("call_send"), []byte{0, n + 5}),
	}
	for _, e := range []struct {
		bit  int
		name string
		f    byte
	}{{lackInit, "__wasmrs_init", n}, {lackOpList, "__wasmrs_op_list_request", n + 1}, {lackSend, "__wasmrs_send", n + 2}} {
		if lacks&e.bit == 0 {
			exports = append(exports, cat(str(e.name), []byte{0, e.f}))
		}
	}
	if lacks&(hasStart|trapStart) != 0 {
		exports = append(exports, cat(str("_start"), []byte{0, n + 6}))
	}
	if lacks&(hasBegin|trapBegin) != 0 {
		exports = append(exports, cat(str("wasmrs_init"), []byte{0, n + 7}))
	}
	body := func(code ...byte) []byte {
		b := append([]byte{0}, code...)
		b = append(b, 0x0b)
		return append(leb(uint32(len(b))), b...)
	}
	// note puts how many start functions have run to a place, and counts one
	// more of them.
	note := func(place, more int) []byte {
		load := cat([]byte{0x41, 0, 0x28, 2}, leb(countPtr))
		return cat([]byte{0x41, 0}, load, []byte{0x41, 1, 0x6a, 0x36, 2}, leb(uint32(place)),
			[]byte{0x41, 0}, load, []byte{0x41, byte(more), 0x6a, 0x36, 2}, leb(countPtr))
	}
	init, opList := body(cat(note(readyPtr, 0), []byte{0x41, 1})...), body()
	start, begin := body(note(startPtr, 1)...), body(note(initPtr, 1)...)
	if lacks&trapStart != 0 {
		start = body(0)
	}
	if lacks&trapBegin != 0 {
		begin = body(0)
	}
	if lacks&trapInit != 0 {
		init = body(0)
	}
	if lacks&trapOpList != 0 {
		opList = body(0)
	}
	code := section(10, vec(
		init,
		opList,
		body(cat([]byte{0x41}, sleb(trapPtr), []byte{0x2d, 0, 0, 0x04, 0x40, 0, 0x0b})...),
		body(0x20, 0, 0x20, 1, 0x10, 0),
		body(0x20, 0, 0x20, 1, 0x10, 1),
		body(0x20, 0, 0x10, 2),
		start,
		begin,
	))
	data := section(11, vec(cat([]byte{0, 0x41}, sleb(namePtr), []byte{0x0b}, str(string(str(name))))))
	return cat([]byte("\x00asm\x01\x00\x00\x00"), types, imports, functions, memory,
		section(7, vec(exports...)), code, data)
}

// nameOf reads the name of a stub.
func nameOf(mod api.Module) string {
	n, _ := mod.Memory().ReadByte(namePtr)
	b, _ := mod.Memory().Read(namePtr+1, uint32(n))
	return string(b)
}
