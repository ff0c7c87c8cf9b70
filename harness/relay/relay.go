// Package relay assembles a small wasm module that stands in for a guest. It
// writes every batch it is sent to its standard output, preceded by its
// length, and then hands the batches it finds on its standard input to the
// host, each preceded by its length (all ones: trap, 0xFFFFFFFE: stop reading).
package relay

import (
	"encoding/binary"
	"os"
	"syscall"
	"unsafe"
)

const (
	SendPtr = 0x10000 // where the host writes
	RecvPtr = 0x40000 // where the host reads
	OpsPtr  = 0x80000 // the operation table
	pages   = 16
	Trap    = 0xFFFFFFFF
)

func u(n uint32) []byte {
	var b []byte
	for {
		c := byte(n & 0x7f)
		n >>= 7
		if n != 0 {
			b = append(b, c|0x80)
		} else {
			return append(b, c)
		}
	}
}

func s(n int64) []byte {
	var b []byte
	for {
		c := byte(n & 0x7f)
		n >>= 7
		if (n == 0 && c&0x40 == 0) || (n == -1 && c&0x40 != 0) {
			return append(b, c)
		}
		b = append(b, c|0x80)
	}
}

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func vec(items ...[]byte) []byte { return append(u(uint32(len(items))), cat(items...)...) }
func str(x string) []byte        { return append(u(uint32(len(x))), x...) }
func section(id byte, body []byte) []byte {
	return cat([]byte{id}, u(uint32(len(body))), body)
}
func typ(params, results int) []byte {
	b := []byte{0x60}
	b = append(b, u(uint32(params))...)
	for i := 0; i < params; i++ {
		b = append(b, 0x7f)
	}
	b = append(b, u(uint32(results))...)
	for i := 0; i < results; i++ {
		b = append(b, 0x7f)
	}
	return b
}
func konst(n int64) []byte  { return append([]byte{0x41}, s(n)...) }
func get(n byte) []byte     { return []byte{0x20, n} }
func set(n byte) []byte     { return []byte{0x21, n} }
func call(n byte) []byte    { return []byte{0x10, n} }
func store(off uint32) []byte { return cat([]byte{0x36, 2}, u(off)) }
func load(off uint32) []byte  { return cat([]byte{0x28, 2}, u(off)) }
func body(locals int, code ...[]byte) []byte {
	l := []byte{0}
	if locals > 0 {
		l = cat([]byte{1}, u(uint32(locals)), []byte{0x7f})
	}
	b := cat(l, cat(code...), []byte{0x0b})
	return append(u(uint32(len(b))), b...)
}

// Module returns the wasm bytes of a module that publishes an operation table.
// With grow its memory grows with every batch it is sent.
func Module(ops []byte, grow bool) []byte { return module(ops, grow, nil) }

// Telling is Module, but the module first writes what it was told when it
// was initialized, like a batch: the sizes of its buffer, of the host's and
// of the largest frame.
func Telling(ops []byte, grow bool) []byte {
	const fdWrite = 0
	return module(ops, grow, cat(
		konst(64), konst(12), store(0),
		konst(68), get(0), store(0), konst(72), get(1), store(0), konst(76), get(2), store(0),
		konst(32), konst(64), store(0), konst(32), konst(16), store(4),
		konst(1), konst(32), konst(1), konst(28), call(fdWrite), []byte{0x1a}))
}

func module(ops []byte, grow bool, told []byte) []byte {
	const (
		fdWrite, fdRead, initBuffers, opList, hostSend = 0, 1, 2, 3, 4
	)
	imp := func(mod, name string, t byte) []byte { return cat(str(mod), str(name), []byte{0, t}) }
	exp := func(name string, kind, idx byte) []byte { return cat(str(name), []byte{kind, idx}) }
	iov := func(at, ptr int64, n []byte) []byte {
		return cat(konst(at), konst(ptr), store(0), konst(at), n, store(4))
	}
	read := func(ptr int64, n []byte) []byte {
		// fd_read(0, 16, 1, 24); the number of bytes read is at 24
		return cat(iov(16, ptr, n), konst(0), konst(16), konst(1), konst(24), call(fdRead), []byte{0x1a})
	}
	// A read can give less than there will be: what local 2 counts is read already.
	rest := func(ptr int64, n []byte) []byte {
		return cat([]byte{0x03, 0x40},
			konst(16), konst(ptr), get(2), []byte{0x6a}, store(0),
			konst(16), n, get(2), []byte{0x6b}, store(4),
			konst(24), konst(0), store(0),
			konst(0), konst(16), konst(1), konst(24), call(fdRead), []byte{0x1a},
			get(2), konst(24), load(0), []byte{0x6a}, set(2),
			get(2), n, []byte{0x49, 0x0d, 0, 0x0b})
	}
	var growth []byte
	if grow {
		growth = cat(konst(1), []byte{0x40, 0, 0x1a})
	}
	send := body(2,
		growth,
		// the length and the batch to standard output
		konst(0), get(0), store(0),
		iov(32, 0, konst(4)), iov(40, SendPtr, get(0)),
		konst(1), konst(32), konst(2), konst(28), call(fdWrite), []byte{0x1a},
		[]byte{0x02, 0x40, 0x03, 0x40}, // block, loop
		konst(24), konst(0), store(0),
		read(8, konst(4)),
		konst(24), load(0), []byte{0x45, 0x0d, 1}, // nothing: leave
		konst(24), load(0), set(2), rest(8, konst(4)),
		konst(8), load(0), set(1),
		get(1), konst(-1), []byte{0x46, 0x04, 0x40, 0x00, 0x0b}, // trap
		get(1), konst(-2), []byte{0x46, 0x0d, 1}, // stop
		konst(0), set(2), rest(RecvPtr, get(1)),
		get(1), call(hostSend),
		[]byte{0x0c, 0, 0x0b, 0x0b},
	)
	return cat(
		[]byte{0, 'a', 's', 'm', 1, 0, 0, 0},
		section(1, vec(typ(4, 1), typ(2, 0), typ(1, 0), typ(3, 1), typ(0, 0))),
		section(2, vec(
			imp("wasi_snapshot_preview1", "fd_write", 0),
			imp("wasi_snapshot_preview1", "fd_read", 0),
			imp("wasmrs", "__init_buffers", 1),
			imp("wasmrs", "__op_list", 1),
			imp("wasmrs", "__send", 2))),
		section(3, vec([]byte{3}, []byte{4}, []byte{2})),
		section(5, vec(cat([]byte{0}, u(pages)))),
		section(7, vec(
			exp("memory", 2, 0),
			exp("__wasmrs_init", 0, 5),
			exp("__wasmrs_op_list_request", 0, 6),
			exp("__wasmrs_send", 0, 7))),
		section(10, vec(
			body(0, told, konst(SendPtr), konst(RecvPtr), call(initBuffers), konst(1)),
			body(0, konst(OpsPtr), konst(int64(len(ops))), call(opList)),
			send)),
		section(11, vec(cat([]byte{0}, konst(OpsPtr), []byte{0x0b}, u(uint32(len(ops))), ops))),
	)
}

// Op is one operation of a table.
type Op struct {
	Type, Dir byte // 1..4; export 1, import 2
	Index     uint32
	NS, Name  string
}

// Table encodes operations the way a module publishes them.
func Table(ops []Op) []byte {
	b := []byte{0, 'w', 'r', 's', 0, 1}
	b = binary.BigEndian.AppendUint32(b, uint32(len(ops)))
	for _, o := range ops {
		b = append(b, o.Type, o.Dir)
		b = binary.BigEndian.AppendUint32(b, o.Index)
		b = binary.BigEndian.AppendUint16(b, uint16(len(o.NS)))
		b = append(b, o.NS...)
		b = binary.BigEndian.AppendUint16(b, uint16(len(o.Name)))
		b = append(b, o.Name...)
		b = binary.BigEndian.AppendUint16(b, 0)
	}
	return b
}

// Files are the standard input and output of a module.
type Files struct {
	in, out *os.File
	inAt    int64
	outAt   int64
	dir     string
}

// Open makes the files and puts them in place of the ones of this process
// until restore is called; the host takes them over when it is created.
func Open(dir string) (f *Files, restore func(), err error) {
	in, err := os.CreateTemp(dir, "in")
	if err != nil {
		return nil, nil, err
	}
	out, err := os.CreateTemp(dir, "out")
	if err != nil {
		return nil, nil, err
	}
	os.Remove(in.Name())
	os.Remove(out.Name())
	oldIn, oldOut := os.Stdin, os.Stdout
	os.Stdin, os.Stdout = in, out
	return &Files{in: in, out: out}, func() { os.Stdin, os.Stdout = oldIn, oldOut }, nil
}

// Pipe is Open with a pipe as standard input: the module waits for words.
func Pipe(dir string) (f *Files, gate *os.File, restore func(), err error) {
	f, restore, err = Open(dir)
	if err != nil {
		return
	}
	r, w, err := os.Pipe()
	if err != nil {
		return
	}
	f.in.Close()
	f.in = r
	os.Stdin = r
	return f, w, restore, nil
}

// Stop makes the module return from a batch.
const Stop = 0xFFFFFFFE

// Unread is how much of a pipe the module has not read.
func (f *Files) Unread() int {
	n := int32(0)
	c, err := f.in.SyscallConn()
	if err != nil {
		panic(err)
	}
	_ = c.Control(func(fd uintptr) {
		_, _, _ = syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541b, uintptr(unsafe.Pointer(&n))) // FIONREAD
	})
	return int(n)
}

// Batch is a batch for the module to hand to the host, as it reads it.
func Batch(batch []byte) []byte {
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(batch))), batch...)
}

// Reply appends a batch for the module to hand to the host.
func (f *Files) Reply(batch []byte) {
	b := binary.LittleEndian.AppendUint32(nil, uint32(len(batch)))
	f.write(append(b, batch...))
}

// Word appends a bare control word.
func (f *Files) Word(w uint32) { f.write(binary.LittleEndian.AppendUint32(nil, w)) }

func (f *Files) write(b []byte) {
	n, err := f.in.WriteAt(b, f.inAt)
	if err != nil {
		panic(err)
	}
	f.inAt += int64(n)
}

// Batches returns the batches the module was sent since the last call.
func (f *Files) Batches() (batches [][]byte) {
	for {
		var h [4]byte
		if n, _ := f.out.ReadAt(h[:], f.outAt); n < 4 {
			return
		}
		size := binary.LittleEndian.Uint32(h[:])
		b := make([]byte, size)
		if n, _ := f.out.ReadAt(b, f.outAt+4); n < int(size) {
			return
		}
		f.outAt += 4 + int64(size)
		batches = append(batches, b)
	}
}

func (f *Files) Close() {
	f.in.Close()
	f.out.Close()
}
