//go:build wasi

package batch

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"testing"
	"unsafe"

	"github.com/nanobus/iota/go/internal/verifx/wire"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
)

type kept struct {
	p        payload.Payload
	md, data []byte // as they have to be
	pm, pd   []byte // the same slices the application got
}

type world struct {
	s      *scenario
	r      *record
	why    string
	clock  int64
	in     map[int]wire.Frame // frames handed in, by number
	kept   []kept
	answer map[uint32]int // frame that answers a request, by stream
	isErr  map[uint32]int
	own    map[int]uint32 // streams of own requests
	open   []int          // those without an answer
	toG    []byte
	toH    []byte
}

var w *world

func (w *world) bad(text string) {
	if w.why == "" {
		w.why = text
	}
}

func (w *world) tick() int64 { w.clock++; return w.clock }

func (w *world) seen(n int, p payload.Payload, md, data []byte) {
	if !bytes.Equal(p.Data(), data) || !bytes.Equal(p.Metadata(), md) {
		w.bad(fmt.Sprintf("frame %d gave metadata %.20x, data %.20x", n, p.Metadata(), p.Data()))
	}
	w.r.Back.Got = append(w.r.Back.Got, n)
	w.kept = append(w.kept, kept{p, md, data, p.Metadata(), p.Data()})
}

// handle is called for a request that arrived.
func (w *world) handle(p payload.Payload) int {
	if len(p.Metadata()) != 4 {
		w.bad(fmt.Sprintf("a handler got metadata %.20x", p.Metadata()))
		return 0
	}
	n := int(binary.BigEndian.Uint32(p.Metadata()))
	f, ok := w.in[n]
	if !ok {
		w.bad("a handler got a frame nobody sent")
		return 0
	}
	w.seen(n, p, f.Metadata[8:], f.Data)
	return n
}

func (w *world) add(size int, res string) int {
	w.r.Sends = append(w.r.Sends, &sent{P: 1, Size: size, From: w.tick(), Res: res})
	return len(w.r.Sends)
}

func (w *world) done() {
	for _, x := range w.r.Sends {
		if x.To == 0 {
			x.To = w.tick()
		}
	}
}

func (w *world) sent(n uint32) {
	if int(n) > len(w.toH) {
		w.bad(fmt.Sprintf("%d bytes in a buffer of %d", n, len(w.toH)))
		return
	}
	b := append([]byte(nil), w.toH[:n]...)
	for i := range w.toH {
		w.toH[i] = 0xEE
	}
	x, why := sort(b, func(f wire.Frame, c []byte) (int, string) {
		if f.ID%2 == 0 { // an answer
			k := w.answer[f.ID]
			if f.Type == wire.ERROR {
				// The answer does not fit, which is said once.
				if w.isErr[f.ID] > 0 || k == 0 || w.r.Sends[k-1].Size+3 <= len(w.toH) {
					return 0, "an error nobody waits for"
				}
				w.isErr[f.ID] = w.add(len(c), "ok")
				return w.isErr[f.ID], ""
			}
			if k == 0 || !bytes.Equal(c, w.r.Sends[k-1].frame) {
				return 0, fmt.Sprintf("an answer arrived as %.40x", c)
			}
			return k, ""
		}
		if len(f.Metadata) < 12 {
			return 0, fmt.Sprintf("a frame arrived as %.40x", c)
		}
		k := int(binary.BigEndian.Uint32(f.Metadata[8:]))
		if k < 1 || k > len(w.r.Sends) || w.r.Sends[k-1].frame == nil {
			return 0, fmt.Sprintf("a frame arrived as %.40x", c)
		}
		if len(c) < 4 || !bytes.Equal(c[4:], w.r.Sends[k-1].frame[4:]) {
			return 0, fmt.Sprintf("frame %d arrived as %.40x", k, c)
		}
		if f.Type == wire.RR {
			w.own[k] = f.ID
			w.open = append(w.open, k)
		}
		return k, ""
	})
	if why != "" {
		w.bad(why)
	}
	w.r.Batches = append(w.r.Batches, x)
}

// call sends a frame to the host.
func (w *world) call(rng *rand.Rand, size int) {
	if size < 0 {
		size = 0
	}
	k := w.add(0, "")
	x := w.r.Sends[k-1]
	md := make([]byte, 12)
	binary.BigEndian.PutUint32(md[8:], uint32(k))
	data := fill(size, k)
	f := wire.Frame{Type: wire.FNF, ID: 1, Metadata: md, Data: data}
	if rng.Intn(2) == 0 {
		f.Type = wire.RR
	}
	p := payload.New(append([]byte(nil), data...), append([]byte(nil), md...))
	x.frame = wire.Encode(f)
	x.Size = len(x.frame)
	if f.Type == wire.FNF {
		guest.HostInvoker.FireAndForget(context.Background(), p)
	} else {
		gone := false
		guest.HostInvoker.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) {
				if len(p.Metadata()) != 4 {
					w.bad("an own request got another answer")
					return
				}
				n := int(binary.BigEndian.Uint32(p.Metadata()))
				f := w.in[n]
				if gone || f.ID != w.own[k] {
					w.bad("an own request got another answer, or a second one")
				}
				gone = true
				w.seen(n, p, f.Metadata, f.Data)
			},
			OnError: func(err error) { gone = true; x.Res = "large" },
		})
	}
	x.To = w.tick()
	if x.Res == "" && f.Type == wire.RR {
		x.Res = "ok"
	}
}

func play(s *scenario) (*record, string) {
	w = &world{s: s, in: map[int]wire.Frame{}, answer: map[uint32]int{}, isErr: map[uint32]int{}, own: map[int]uint32{},
		r: &record{Room: s.Room, Sends: []*sent{}, Batches: []batch{}, Back: back{Sizes: [][]int{}, Bytes: []int{}, Got: []int{}}}}
	rng := rand.New(rand.NewSource(s.Seed))
	room := 16384
	guest.VerifInitBuffers = func(g, h uintptr) {
		w.toG = unsafe.Slice((*byte)(unsafe.Pointer(g)), room)
		w.toH = unsafe.Slice((*byte)(unsafe.Pointer(h)), s.Room)
	}
	guest.Init(uint32(room), uint32(s.Room), 1<<20)
	todo := append([]int(nil), s.Sizes[0]...)
	n := 0
	for k, sizes := range s.Replies {
		for len(todo) > 0 && rng.Intn(2) == 0 {
			w.call(rng, todo[0])
			todo = todo[1:]
		}
		var b []byte
		fs := []int{}
		frames := []wire.Frame{}
		for _, size := range sizes {
			n++
			f := wire.Frame{ID: uint32(n * 2), Metadata: make([]byte, 12), Data: fill(size, n), Type: wire.FNF}
			binary.BigEndian.PutUint32(f.Metadata[8:], uint32(n))
			if n%2 == 0 {
				f.Type = wire.RR
			} else if n%4 == 3 && len(w.open) > 0 {
				f.Type, f.Flags, f.Metadata = wire.PAYLOAD, wire.Next|wire.Complete, f.Metadata[8:]
				f.ID = w.own[w.open[0]]
			}
			e := wire.Framed(f)
			if len(b)+len(e) > room {
				n--
				break
			}
			if f.Type == wire.PAYLOAD {
				w.open = w.open[1:]
			}
			w.in[n] = f
			frames = append(frames, f)
			fs = append(fs, len(e)-3)
			b = append(b, e...)
		}
		cut := s.Cut[k]
		if cut > len(b) {
			cut = len(b)
		}
		b = b[:len(b)-cut]
		w.r.Back.Sizes = append(w.r.Back.Sizes, fs)
		w.r.Back.Bytes = append(w.r.Back.Bytes, len(b))
		for k := range w.toG {
			w.toG[k] = 0xFF
		}
		copy(w.toG, b)
		guest.GuestSend(uint32(len(b)))
		for k := range w.toG {
			w.toG[k] = 0xDD
		}
		w.done()
	}
	for _, size := range todo {
		w.call(rng, size)
	}
	w.done()
	for id, k := range w.answer {
		if x := w.r.Sends[k-1]; x.Size+3 > s.Room && w.isErr[id] == 0 {
			w.bad("an answer that does not fit is missing and no error either")
		}
	}
	for _, h := range w.kept {
		if !bytes.Equal(h.p.Data(), h.data) || !bytes.Equal(h.p.Metadata(), h.md) || !bytes.Equal(h.pd, h.data) || !bytes.Equal(h.pm, h.md) {
			w.bad("a payload that was kept changed")
		}
	}
	return w.r, w.why
}

func TestReplay(t *testing.T) {
	invoke.ExportFireAndForget("v", "fnf", func(_ context.Context, p payload.Payload) { w.handle(p) })
	invoke.ExportRequestResponse("v", "rr", func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		n := w.handle(p)
		f := wire.Frame{Type: wire.PAYLOAD, ID: uint32(n * 2), Flags: wire.Next | wire.Complete, Data: p.Data()}
		if n%4 == 0 {
			f.Metadata = []byte{1, 2, 3}
		}
		e := wire.Encode(f)
		w.answer[f.ID] = w.add(len(e), "")
		w.r.Sends[w.answer[f.ID]-1].frame = e
		return mono.Just[payload.Payload](payload.New(p.Data(), f.Metadata))
	})
	guest.VerifHostSend = func(n uint32) { w.sent(n) }
	files(play)
}
