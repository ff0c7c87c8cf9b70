//go:build !wasi

package batch

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/verifx/relay"
	"github.com/nanobus/iota/go/internal/verifx/wire"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

// reply is a frame that comes back. Even numbers are requests to be answered.
type reply struct {
	md, data []byte
	frame    wire.Frame
}

func newReply(n, size int) *reply {
	if size < 0 {
		// An item of the stream that is open from the beginning.
		r := &reply{data: binary.BigEndian.AppendUint16(nil, uint16(n))}
		r.frame = wire.Frame{Type: wire.PAYLOAD, ID: 2, Flags: wire.Next, Data: r.data}
		return r
	}
	r := &reply{md: make([]byte, 12), data: append(binary.BigEndian.AppendUint32(nil, uint32(n)), fill(size, n)...)}
	binary.BigEndian.PutUint32(r.md[8:], uint32(n))
	typ := wire.FNF
	if n%2 == 0 {
		typ = wire.RR
	}
	r.frame = wire.Frame{Type: typ, ID: uint32(n*2 + 1), Metadata: r.md, Data: r.data}
	return r
}

// frameOf makes frame k of a run as the host sends it and as it should arrive.
func frameOf(k, size int) (frames.Frame, []byte) {
	id := uint32(2*k + 0x10000)
	if k%3 == 1 {
		id |= 0x40000000
	}
	switch {
	case size < 0 && k%2 == 0:
		return &frames.Cancel{StreamID: id}, wire.Encode(wire.Frame{Type: wire.CANCEL, ID: id})
	case size < 0:
		return &frames.RequestN{StreamID: id, N: uint32(k)}, wire.Encode(wire.Frame{Type: wire.REQN, ID: id, N: uint32(k)})
	case k%4 == 3 && size > 20:
		md, d := fill(20, k), fill(size-20, k+1)
		return &frames.Payload{StreamID: id, Metadata: md, Data: d, Next: true},
			wire.Encode(wire.Frame{Type: wire.PAYLOAD, ID: id, Flags: wire.Next, Metadata: md, Data: d})
	}
	d := fill(size, k)
	return &frames.Payload{StreamID: id, Data: d, Next: true}, wire.Encode(wire.Frame{Type: wire.PAYLOAD, ID: id, Flags: wire.Next, Data: d})
}

func play(s *scenario) (*record, string) {
	var f *relay.Files
	var gate *os.File
	var restore func()
	var err error
	if s.Gate {
		f, gate, restore, err = relay.Pipe(os.Getenv("VERIF_TMP"))
	} else {
		f, restore, err = relay.Open(os.Getenv("VERIF_TMP"))
	}
	must(err)
	ctx := context.Background()
	h, err := host.New(ctx)
	must(err)
	mod, err := h.Compile(ctx, relay.Telling(relay.Table(nil), s.Grow))
	must(err)
	inst, err := mod.Instantiate(ctx)
	restore()
	if err != nil {
		return nil, err.Error()
	}
	defer f.Close()

	told := f.Batches()
	if len(told) != 1 {
		return nil, "the module is not initialized once"
	}
	// The module has made a buffer of the size it was told.
	room := int(binary.LittleEndian.Uint32(told[0]))
	r := &record{Room: room, Sends: []*sent{}, Batches: []batch{}, Back: back{Sizes: [][]int{}, Bytes: []int{}, Got: []int{}}}
	var clock int64
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }

	// What comes back.
	var replies []*reply
	var batches [][]byte
	for k, sizes := range s.Replies {
		var b []byte
		fs := []int{}
		for _, n := range sizes {
			x := newReply(len(replies)+1, n)
			replies = append(replies, x)
			e := wire.Framed(x.frame)
			fs = append(fs, len(e)-3)
			b = append(b, e...)
		}
		b = b[:len(b)-min(len(b), s.Cut[k])]
		r.Back.Sizes = append(r.Back.Sizes, fs)
		r.Back.Bytes = append(r.Back.Bytes, len(b))
		batches = append(batches, b)
	}
	var mu sync.Mutex
	var why string
	bad := func(text string) {
		mu.Lock()
		if why == "" {
			why = text
		}
		mu.Unlock()
	}
	type held struct {
		n        int
		p        payload.Payload
		md, data []byte
	}
	var kept []held
	seen := func(p payload.Payload) (int, bool) {
		if len(p.Data()) < 4 {
			bad("a handler got less than was sent")
			return 0, false
		}
		n := int(binary.BigEndian.Uint32(p.Data()))
		if n < 1 || n > len(replies) || !bytes.Equal(p.Data(), replies[n-1].data) || !bytes.Equal(p.Metadata(), replies[n-1].md) {
			bad(fmt.Sprintf("a handler got metadata %.20x, data %.20x", p.Metadata(), p.Data()))
			return 0, false
		}
		mu.Lock()
		r.Back.Got = append(r.Back.Got, n)
		kept = append(kept, held{n, p, p.Metadata(), p.Data()})
		mu.Unlock()
		return n, true
	}
	inst.SetFireAndForgetHandler(0, func(_ context.Context, p payload.Payload) { seen(p) })
	answers := map[int]int{}
	inst.SetRequestResponseHandler(0, func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		if n, ok := seen(p); ok {
			mu.Lock()
			answers[n] += 0
			mu.Unlock()
		}
		return mono.Just[payload.Payload](payload.New(p.Data()))
	})

	last := 0
	inst.RequestStream(ctx, payload.New(nil, make([]byte, 8))).Subscribe(flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			n := 0
			if len(p.Data()) == 2 {
				n = int(binary.BigEndian.Uint16(p.Data()))
			}
			if n <= last || n > len(replies) || !bytes.Equal(p.Data(), replies[n-1].data) || len(p.Metadata()) > 0 {
				bad(fmt.Sprintf("after item %d, the stream gave %.20x", last, p.Data()))
				return
			}
			last = n
			mu.Lock()
			r.Back.Got = append(r.Back.Got, n)
			kept = append(kept, held{n, p, p.Metadata(), p.Data()})
			mu.Unlock()
		},
		OnComplete: func() { bad("the stream completed") },
		OnError: func(err error) {
			if err.Error() != "connection closed" {
				bad("the stream failed: " + err.Error())
			}
		},
	})

	for n := 0; ; n++ {
		b := f.Batches()
		for _, x := range b {
			r.Batches = append(r.Batches, batch{Size: len(x), Fs: []int{}})
		}
		if len(b) > 0 {
			break
		}
		if n > 50000 {
			return nil, "the request of a stream does not arrive"
		}
		time.Sleep(100 * time.Microsecond)
	}

	// The senders.
	all := 0
	for _, q := range s.Sizes {
		all += len(q)
	}
	r.Sends = make([]*sent, all, all+64)
	var started int64
	var wg sync.WaitGroup
	stop := make(chan struct{})
	pass := make(chan struct{}, all+1)
	k := 0
	for p, q := range s.Sizes {
		base := k
		k += len(q)
		rng := rand.New(rand.NewSource(s.Seed + int64(p)*77))
		p, q := p, q
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n, size := range q {
				fr, e := frameOf(base+n, size)
				x := &sent{P: p + 1, Size: len(e), frame: e}
				r.Sends[base+n] = x
				if rng.Intn(12) == 0 {
					time.Sleep(time.Duration(rng.Intn(400)) * time.Microsecond)
				}
				atomic.AddInt64(&started, 1)
				pass <- struct{}{}
				x.From = tick()
				err := inst.SendFrame(fr)
				x.To = tick()
				switch {
				case err == nil:
					x.Res = "ok"
				case err.Error() == "connection closed":
					x.Res = "closed"
				default:
					x.Res = "large"
				}
			}
		}()
	}
	// Replies, the crash, the end and the pace of the module.
	var control, closer sync.WaitGroup
	var trap int64
	control.Add(1)
	go func() {
		defer control.Done()
		rng := rand.New(rand.NewSource(s.Seed + 5))
		n, next := 0, 0
		for {
			if n == s.Close {
				closer.Add(1)
				go func() {
					defer closer.Done()
					r.Close.From = tick()
					_ = inst.Close()
					r.Close.To = tick()
				}()
			}
			if n == s.Trap && !s.Gate {
				atomic.StoreInt64(&trap, tick())
				f.Word(relay.Trap)
			}
			if !s.Gate {
				for next < len(batches) && rng.Intn(4) == 0 {
					f.Reply(batches[next])
					next++
				}
			}
			select {
			case <-pass:
				n++
				continue
			case <-stop:
			}
			break
		}
		if !s.Gate {
			for ; next < len(batches); next++ {
				f.Reply(batches[next])
			}
		}
	}()
	over := make(chan struct{})
	var gating sync.WaitGroup
	if s.Gate {
		gating.Add(1)
		go func() {
			defer gating.Done()
			defer gate.Close()
			rng := rand.New(rand.NewSource(s.Seed + 9))
			next := 0
			for {
				select {
				case <-over:
					return
				default:
				}
				if f.Unread() >= 8 {
					time.Sleep(100 * time.Microsecond)
					continue
				}
				done := atomic.LoadInt64(&started) == int64(all)
				for next < len(batches) && (done || rng.Intn(3) == 0) {
					if _, err := gate.Write(relay.Batch(batches[next])); err != nil {
						return
					}
					next++
				}
				if s.Trap >= 0 && atomic.LoadInt64(&started) >= int64(s.Trap) {
					atomic.StoreInt64(&trap, tick())
					_, _ = gate.Write(binary.LittleEndian.AppendUint32(nil, relay.Trap))
					return
				}
				if _, err := gate.Write(binary.LittleEndian.AppendUint32(nil, relay.Stop)); err != nil {
					return
				}
				if rng.Intn(3) == 0 {
					time.Sleep(time.Duration(rng.Intn(1500)) * time.Microsecond)
				}
			}
		}()
		defer func() {
			close(over)
			_ = gate.SetWriteDeadline(time.Now())
			gating.Wait()
		}()
	}
	quick := make(chan struct{})
	go func() { wg.Wait(); close(quick) }()
	select {
	case <-quick:
	case <-time.After(20 * time.Second):
		return nil, "senders do not come back"
	}
	close(stop)
	control.Wait()
	closer.Wait()
	crashed := func() bool { return atomic.LoadInt64(&trap) > 0 }

	// Frames of its own make the module go on.
	poke := func() {
		fr, e := frameOf(len(r.Sends), -1)
		x := &sent{P: len(s.Sizes) + 1, Size: len(e), frame: e, Res: "ok"}
		r.Sends = append(r.Sends, x)
		x.From = tick()
		if err := inst.SendFrame(fr); err != nil {
			x.Res = "closed"
		}
		x.To = tick()
	}
	answered := map[int]bool{}
	find := func(fr wire.Frame, c []byte) (int, string) {
		if fr.ID == 2 {
			return 0, "" // the stream
		}
		if fr.ID%2 == 1 {
			n := int(fr.ID / 2)
			if n < 1 || n > len(replies) || n%2 == 1 || answered[n] {
				return 0, fmt.Sprintf("an answer nobody asked for, or a second one: %.20x", c)
			}
			answered[n] = true
			want := wire.Encode(wire.Frame{Type: wire.PAYLOAD, ID: fr.ID, Flags: wire.Next | wire.Complete, Data: replies[n-1].data})
			if len(want)+3 > 16384 {
				if fr.Type != wire.ERROR {
					return 0, "a large answer became something else than an error"
				}
			} else if !bytes.Equal(want, c) {
				return 0, fmt.Sprintf("an answer arrived as %.40x", c)
			}
			return 0, ""
		}
		k := (int(fr.ID&0x3fffffff) - 0x10000) / 2
		if k < 0 || k >= len(r.Sends) || !bytes.Equal(r.Sends[k].frame, c) {
			return 0, fmt.Sprintf("a frame arrived as %.40x", c)
		}
		return k + 1, ""
	}
	got := map[int]bool{}
	pull := func() {
		for _, b := range f.Batches() {
			x, w := sort(b, find)
			if w != "" {
				bad(w)
			}
			for _, k := range x.Fs {
				got[k] = true
			}
			r.Batches = append(r.Batches, x)
		}
	}
	whole := 0
	for k := range batches {
		left := r.Back.Bytes[k]
		for _, n := range r.Back.Sizes[k] {
			if left -= n + 3; left >= 0 {
				whole++
			}
		}
	}
	deadline := time.Now().Add(8 * time.Second)
	for n := 0; ; n++ {
		if n%8 == 0 && n < 400 || n%100 == 0 {
			poke()
		}
		pull()
		done := true
		for k, x := range r.Sends {
			done = done && (x.Res != "ok" || got[k+1] || crashed())
		}
		if crashed() {
			// Sending ends with an error.
			done = r.Sends[len(r.Sends)-1].Res == "closed"
		} else if r.Close.From == 0 {
			mu.Lock()
			done = done && len(r.Back.Got) >= whole && len(answers) == len(answered)
			mu.Unlock()
		}
		if done {
			break
		}
		if time.Now().After(deadline) {
			if crashed() {
				bad("sending reports no error after the module crashed")
			} else if r.Close.From == 0 && len(answers) != len(answered) {
				bad(fmt.Sprintf("%d of %d requests were answered", len(answered), len(answers)))
			}
			break
		}
		time.Sleep(500 * time.Microsecond)
	}
	time.Sleep(3 * time.Millisecond)
	pull()
	if r.Close.From == 0 {
		_ = inst.Close()
		if inst.SendFrame(&frames.Cancel{StreamID: 2}) == nil {
			bad("sending after the end reports no error")
		}
		_ = inst.Close()
	}
	r.Trap = atomic.LoadInt64(&trap)
	mu.Lock()
	defer mu.Unlock()
	for _, h := range kept {
		if !bytes.Equal(h.p.Data(), replies[h.n-1].data) || !bytes.Equal(h.p.Metadata(), replies[h.n-1].md) ||
			!bytes.Equal(h.data, replies[h.n-1].data) || !bytes.Equal(h.md, replies[h.n-1].md) {
			if why == "" {
				why = "a payload that was kept changed"
			}
		}
	}
	return r, why
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func TestReplay(t *testing.T) { files(play) }
