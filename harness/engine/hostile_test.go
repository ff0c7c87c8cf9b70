package engine

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sync"

	"github.com/nanobus/iota/go/internal/verifx/wire"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// junk is frames for an end that has some requests under way. Those with To
// > 0 are for the To-th of them, whatever the octets say.
type junk struct {
	ID     string `json:"id"`
	Engine string `json:"engine"`
	Seed   int64  `json:"seed"`
	Frames []struct {
		To int    `json:"to"`
		B  octets `json:"b"`
	} `json:"frames"`
	Cut   int  `json:"cut"` // octets missing at the end
	Apart bool `json:"apart"`
}

// octets are written as a list of numbers.
type octets []byte

func (b octets) MarshalJSON() ([]byte, error) {
	l := make([][2]int, len(b))
	for i, x := range b {
		l[i] = [2]int{0, int(x)}
	}
	return json.Marshal(l)
}

func (b *octets) UnmarshalJSON(in []byte) error {
	var l []int
	err := json.Unmarshal(in, &l)
	*b = make([]byte, len(l))
	for i, x := range l {
		(*b)[i] = byte(x)
	}
	return err
}

type call struct {
	T    int    `json:"t"`
	Op   int    `json:"op"`
	Data octets `json:"data"`
}

type sent struct {
	T  int      `json:"t"`
	ID [2]int64 `json:"id"`
}

type saw struct {
	ID     string     `json:"id"`
	Engine string     `json:"engine"`
	OK     bool       `json:"ok"`
	Why    string     `json:"why,omitempty"`
	Raw    []octets   `json:"raw"`
	Live   [][2]int64 `json:"live"`
	Calls  []call     `json:"calls"`
	Sent   []sent     `json:"sent"`
	In     bool       `json:"in"`
	Out    bool       `json:"out"`
	Closed bool       `json:"closed"`
}

func limbs(n uint32) [2]int64 { return [2]int64{int64(n >> 16), int64(n & 0xffff)} }

// watch is what handlers and ends report to while junk comes in.
var watch struct {
	sync.Mutex
	calls []call
	sent  [][]byte
	rest  bool
	sinks []flux.Sink[payload.Payload]
	monos []mono.Sink[payload.Payload]
}

func handled(t, op int, p payload.Payload) {
	watch.Lock()
	defer watch.Unlock()
	watch.calls = append(watch.calls, call{t, op, append([]byte{}, p.Data()...)})
}

func source() flux.Flux[payload.Payload] {
	return flux.Create(func(s flux.Sink[payload.Payload]) {
		watch.Lock()
		defer watch.Unlock()
		watch.sinks = append(watch.sinks, s)
	})
}

func two(p payload.Payload) flux.Flux[payload.Payload] {
	return flux.FromSlice([]payload.Payload{p, payload.New([]byte("second"))})
}

func hostileRR(op int) invoke.RequestResponseHandler {
	return func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		handled(wire.RR, op, p)
		if op == 0 {
			return mono.Just[payload.Payload](payload.New(p.Data()))
		}
		return mono.Create(func(s mono.Sink[payload.Payload]) {
			watch.Lock()
			defer watch.Unlock()
			watch.monos = append(watch.monos, s)
		})
	}
}

func hostileFNF(op int) invoke.FireAndForgetHandler {
	return func(_ context.Context, p payload.Payload) { handled(wire.FNF, op, p) }
}

func hostileRS(op int) invoke.RequestStreamHandler {
	return func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		handled(wire.RS, op, p)
		if op == 0 {
			return two(p)
		}
		return source()
	}
}

func hostileRC(op int) invoke.RequestChannelHandler {
	return func(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		handled(wire.RC, op, p)
		if op == 0 {
			return in
		}
		in.Subscribe(flux.Subscribe[payload.Payload]{OnNext: func(payload.Payload) {}})
		return source()
	}
}

func taken() [][]byte {
	watch.Lock()
	defer watch.Unlock()
	s := watch.sent
	watch.sent = nil
	return s
}

func hostile(j *junk, e end, perform func(func()) bool, closed func() bool) any {
	sentFrame = func(b []byte) {
		watch.Lock()
		defer watch.Unlock()
		watch.sent = append(watch.sent, append([]byte(nil), b...))
	}
	sentRest = func() {
		watch.Lock()
		defer watch.Unlock()
		watch.rest = true
	}
	watch.Lock()
	watch.calls, watch.sent, watch.rest, watch.sinks, watch.monos = nil, nil, false, nil, nil
	watch.Unlock()
	r := saw{ID: j.ID, Engine: j.Engine, OK: true, Raw: []octets{}, Calls: []call{}, Sent: []sent{}}
	rng := rand.New(rand.NewSource(j.Seed))
	wrong := func(f string, a ...any) {
		if r.OK {
			r.OK, r.Why = false, fmt.Sprintf(f, a...)
		}
	}
	do := func(what string, f func()) {
		if !perform(f) {
			wrong("%s does not return", what)
		}
		e.drain()
	}
	to := func(op uint32) []byte {
		return append(binary.BigEndian.AppendUint32(nil, op), 0, 0, 0, 0)
	}

	// Three requests of this end and three of the peer.
	ctx := context.Background()
	var live []uint32
	var subs []flux.Flux[payload.Payload]
	var inputs []flux.Sink[payload.Payload]
	listen := flux.Subscribe[payload.Payload]{
		OnNext:     func(payload.Payload) {},
		OnComplete: func() {},
		OnError:    func(error) {},
		OnRequest:  func(s rx.Subscription) { s.Request(3) },
	}
	do("calling", func() {
		e.caller().RequestResponse(ctx, payload.New([]byte("a"), to(0))).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(payload.Payload) {}, OnError: func(error) {},
		})
	})
	do("streaming", func() {
		f := e.caller().RequestStream(ctx, payload.New([]byte("b"), to(0)))
		subs = append(subs, f)
		f.Subscribe(listen)
	})
	do("opening a channel", func() {
		f := e.caller().RequestChannel(ctx, payload.New([]byte("c"), to(0)), flux.Create(func(s flux.Sink[payload.Payload]) {
			inputs = append(inputs, s)
		}))
		subs = append(subs, f)
		f.Subscribe(listen)
	})
	for _, b := range taken() {
		if f, ok := wire.Decode(b); ok && f.Type >= wire.RR && f.Type <= wire.RC {
			live = append(live, f.ID)
			nextLocal(e)
		}
	}
	if len(live) != 3 {
		wrong("%d of 3 requests were sent", len(live))
		return r
	}
	for _, t := range []int{wire.RR, wire.RS, wire.RC} {
		id := nextPeer(e)
		live = append(live, id)
		do("a request", func() { e.feed(wire.Framed(wire.Frame{Type: t, ID: id, N: 2, Metadata: to(1), Data: []byte("d")})) })
	}
	taken()
	watch.Lock()
	if len(watch.calls) != 3 {
		wrong("%d of 3 handlers were called", len(watch.calls))
	}
	watch.calls = nil
	watch.Unlock()

	var all []byte
	for _, f := range j.Frames {
		b := append([]byte(nil), f.B...)
		if f.To > 0 && len(b) >= 4 {
			binary.BigEndian.PutUint32(b, live[f.To-1])
		}
		all = append(all, byte(len(b)>>16), byte(len(b)>>8), byte(len(b)))
		all = append(all, b...)
		r.Raw = append(r.Raw, b)
		if j.Apart {
			b := all
			do("a frame", func() { e.feed(b) })
			all = nil
		}
	}
	if len(all) > 0 {
		if j.Cut > 0 {
			r.Raw = r.Raw[:len(r.Raw)-1]
		}
		do("frames", func() { e.feed(all[:len(all)-j.Cut]) })
	}
	for _, id := range live {
		r.Live = append(r.Live, limbs(id))
	}
	for _, b := range taken() {
		f, ok := wire.Decode(b)
		if !ok {
			wrong("sent a frame that cannot be decoded: %v", b)
			continue
		}
		r.Sent = append(r.Sent, sent{f.Type, limbs(f.ID)})
	}
	watch.Lock()
	r.Calls = append(r.Calls, watch.calls...)
	watch.Unlock()
	r.Closed = closed()

	// The users of what is under way go on.
	watch.Lock()
	sinks, monos := append(watch.sinks, inputs...), watch.monos
	watch.Unlock()
	var acts []func()
	for _, s := range sinks {
		acts = append(acts, func() { s.Next(payload.New([]byte("item"))) }, func() {
			if rng.Intn(2) == 0 {
				s.Complete()
			} else {
				s.Error(errors.New("failed"))
			}
		})
	}
	for _, m := range monos {
		acts = append(acts, func() { m.Success(payload.New([]byte("late"))) })
	}
	for _, f := range subs {
		if rng.Intn(2) == 0 {
			acts = append(acts, func() { f.Subscription().Request(2) })
		}
		acts = append(acts, func() { f.Subscription().Cancel() })
	}
	rng.Shuffle(len(acts), func(a, b int) { acts[a], acts[b] = acts[b], acts[a] })
	for _, a := range acts {
		do("going on", a)
	}
	taken()

	// Requests after that.
	id := nextPeer(e)
	do("a request", func() {
		e.feed(wire.Framed(wire.Frame{Type: wire.RR, ID: id, Metadata: to(0), Data: []byte("question")}))
	})
	for _, b := range taken() {
		if f, ok := wire.Decode(b); ok && f.ID == id && f.Type == wire.PAYLOAD && f.Flags&(wire.Next|wire.Complete) == wire.Next|wire.Complete && string(f.Data) == "question" {
			r.In = true
		}
	}
	do("calling", func() {
		e.caller().RequestResponse(ctx, payload.New([]byte("call"), to(0))).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { r.Out = p != nil && string(p.Data()) == "answer" },
			OnError:   func(error) {},
		})
	})
	for _, b := range taken() {
		if f, ok := wire.Decode(b); ok && f.Type == wire.RR && string(f.Data) == "call" {
			nextLocal(e)
			do("an answer", func() {
				e.feed(wire.Framed(wire.Frame{Type: wire.PAYLOAD, ID: f.ID, Flags: wire.Next | wire.Complete, Data: []byte("answer")}))
			})
		}
	}
	watch.Lock()
	if watch.rest {
		wrong("sent something that is no frame")
	}
	watch.Unlock()
	e.release()
	return r
}

func hostileLine(run func(*junk) any) {
	lines(func(line []byte) (string, func() any) {
		var j junk
		if e := json.Unmarshal(line, &j); e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(3)
		}
		return j.ID, func() any { return run(&j) }
	})
}
