// Package engine replays behaviours of the Engine specification on the
// implementations of a wasmRS connection and compares what they do.
package engine

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"weak"

	"github.com/nanobus/iota/go/internal/verifx/wire"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

type action struct {
	A     string `json:"a"`
	S     string `json:"s"`
	M     string `json:"m"`
	F     string `json:"f"`
	T     string `json:"t"`
	Route string `json:"route"`
	K     int    `json:"k"`
	N     int    `json:"n"`
	Any   int    `json:"any"` // whether the contents of the frame matter
}

type step struct {
	A action  `json:"a"`
	O [][]any `json:"o"`
}

type scenario struct {
	ID     string            `json:"id"`
	Engine string            `json:"engine"`
	Seed   int64             `json:"seed"`
	Kinds  map[string]string `json:"kinds"`
	Steps  []step            `json:"steps"`
	// With Forget, nothing may be left of the streams in Gone at the end.
	Forget bool     `json:"forget"`
	Gone   []string `json:"gone"`
}

// end is one end of a connection under test.
type end interface {
	caller() invoke.Caller
	feed(framed []byte)      // frames of the peer, each with its length
	drain()                  // hand over frames that were sent
	close(how int)           // end the connection
	firstID() uint32         // of the streams this end opens
	peerID() uint32          // of the streams the peer opens
	metadata(t string) int   // how much of the metadata handlers do not get
	unknown(t string) uint32 // the number of operations of a type
	large() []byte           // data that cannot be sent
	release()
}

// What this end sends goes to the driver.
var (
	sentFrame = func(b []byte) { active().onFrame(b) }
	sentRest  = func() { active().log("w", "?", "REST") }
)

const maxItems = 6

type slot struct {
	name, kind string
	id         uint32
	opened     bool // id is in use
	made       bool // id was given out

	// requester
	flux   flux.Flux[payload.Payload]
	mode   string
	inSink flux.Sink[payload.Payload]
	inEnd  bool

	// responder
	gate   chan struct{}
	sink   flux.Sink[payload.Payload]
	mono   mono.Sink[payload.Payload]
	srcEnd bool
	input  flux.Flux[payload.Payload]

	probes []probe
}

// probe tells whether something of the user's is still held.
type probe struct {
	what string
	p    weak.Pointer[[64]byte]
}

// held makes an object for the closures of a user to hold on to.
func (d *driver) held(s *slot, what string) *[64]byte {
	x := new([64]byte)
	d.mu.Lock()
	s.probes = append(s.probes, probe{what, weak.Make(x)})
	d.mu.Unlock()
	return x
}

// leftovers lets go of all the driver holds of the streams that are over,
// and returns what the implementation still holds.
func (d *driver) leftovers(gone []string, settle func()) []string {
	d.kept = nil
	for _, n := range gone {
		s := d.slots[n]
		d.slots[n] = &slot{name: n, kind: s.kind, gate: s.gate, probes: s.probes}
		d.mu.Lock()
		for id, x := range d.ids {
			if x == s {
				delete(d.ids, id)
			}
		}
		d.mu.Unlock()
	}
	var r []string
	for try := 0; try < 3; try++ { // finalizers can need another round
		settle()
		runtime.GC()
		r = nil
		for _, n := range gone {
			for _, p := range d.slots[n].probes {
				if p.p.Value() != nil {
					r = append(r, n+" "+p.what)
				}
			}
		}
		if r == nil {
			return nil
		}
	}
	return r
}

type driver struct {
	sc    *scenario
	e     end
	rng   *rand.Rand
	gated bool
	slots map[string]*slot
	order []string

	mu     sync.Mutex
	events [][]string
	ids    map[uint32]*slot
	kept   [][2][]byte // what was handed to users, and what it was
}

// keep remembers a payload handed to a user, whose content must not change.
func (d *driver) keep(p payload.Payload) {
	if p == nil {
		return
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, b := range [][]byte{p.Data(), p.Metadata()} {
		d.kept = append(d.kept, [2][]byte{b, append([]byte(nil), b...)})
	}
}

// current is the driver that handlers report to.
var (
	currentMu sync.Mutex
	current   *driver
)

func (d *driver) log(ch string, s string, fields ...any) {
	d.mu.Lock()
	defer d.mu.Unlock()
	ev := []string{ch, s}
	for _, f := range fields {
		ev = append(ev, fmt.Sprint(f))
	}
	d.events = append(d.events, ev)
}

func (d *driver) take() [][]string {
	d.mu.Lock()
	defer d.mu.Unlock()
	ev := d.events
	d.events = nil
	return ev
}

// content of the k-th payload of a direction; k = 0 is the request.
func (d *driver) content(s *slot, dir string, k int) (data, md []byte) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", d.sc.Seed, s.name, dir, k)
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	blob := func(n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	size := 4 + r.Intn(24)
	if r.Intn(12) == 0 {
		size = 200 + r.Intn(4000)
	}
	if r.Intn(80) == 0 {
		// More than a buffer of a module takes in goes over a socket only.
		size = []int{1 << 15, 32767, 1<<16 - 1, 1 << 16, 70000, 140000}[r.Intn(6)]
		if d.sc.Engine != "handler" {
			size = 8192 + size%7700
		}
	}
	switch v := r.Intn(8); {
	case dir == "req":
		data = blob(size)
		if v > 2 {
			md = blob(r.Intn(30))
		}
	case v < 3:
		data = blob(size)
	case v < 6:
		data, md = blob(size), blob(1+r.Intn(30))
	case v == 6:
		md = blob(size)
	case k == 2:
		// neither data nor metadata
	default:
		data = blob(1 + size%3)
	}
	return
}

func same(a, b []byte) bool { return bytes.Equal(a, b) }

func (d *driver) which(s *slot, dir string, data, md []byte) string {
	if dir == "ans" && len(data) == 0 && len(md) == 0 {
		return "0"
	}
	for k := 1; k <= maxItems; k++ {
		if wd, wm := d.content(s, dir, k); same(wd, data) && same(wm, md) {
			return fmt.Sprint(k)
		}
	}
	return "BAD"
}

func (d *driver) text(s *slot, who string) string {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", d.sc.Seed, s.name, who)
	n := h.Sum64()
	t := fmt.Sprintf("%s of %s failed: é %x", who, s.name, n)
	switch n % 14 {
	case 0, 7:
		t += strings.Repeat("!", 300)
	case 1:
		t += "\x00\xff\xfe"
	case 2:
		if who == []string{"peer", "emit", "input"}[int(s.name[len(s.name)-1])%3] {
			t = "" // for one of them at most, or they could not be told apart
		}
	}
	return t
}

func (d *driver) classify(s *slot, text string) string {
	switch text {
	case "not_found", "Invalid metadata":
		return text
	}
	for _, who := range []string{"peer", "emit", "input"} {
		if text == d.text(s, who) {
			return who
		}
	}
	if strings.Contains(text, "failed: é") {
		return "FOREIGN"
	}
	if text == "" {
		return "EMPTY"
	}
	return "other"
}

func dirOf(s *slot, fromPeer bool) string {
	// rq: the peer answers, this end sends the input; rp: the other way round.
	if s.kind == "rqRR" || s.kind == "rpRR" {
		return "ans"
	}
	if strings.HasPrefix(s.kind, "rq") == fromPeer {
		return "out"
	}
	return "in"
}

var typeNames = map[int]string{wire.RR: "RR", wire.FNF: "FNF", wire.RS: "RS", wire.RC: "RC"}
var typeCodes = map[string]int{"RR": wire.RR, "FNF": wire.FNF, "RS": wire.RS, "RC": wire.RC}

// onFrame is told about every frame this end sends.
func (d *driver) onFrame(b []byte) {
	f, ok := wire.Decode(b)
	if !ok {
		d.log("w", "?", "GARBAGE")
		return
	}
	if name, isReq := typeNames[f.Type]; isReq {
		for _, n := range d.order {
			s := d.slots[n]
			if s.opened || s.kind != "rq"+name {
				continue
			}
			data, md := d.content(s, "req", 0)
			md = append([]byte{0, 0, 0, 0, 0, 0, 0, 0}, md...)
			if !same(data, f.Data) || !same(md, f.Metadata) {
				continue
			}
			if f.ID == 0 || f.ID&1 != d.e.firstID()&1 || d.ids[f.ID] != nil {
				d.log("w", n, "REQ", name, "BADID")
			} else if f.Flags&wire.Follow != 0 || (name == "RC" && f.Flags&wire.Complete != 0) {
				d.log("w", n, "REQ", name, "FLAGS")
			} else {
				d.log("w", n, "REQ", name)
			}
			if name == "RS" || name == "RC" {
				d.log("wn", n, int64(f.N))
			}
			d.mu.Lock()
			s.id, s.opened = f.ID, true
			d.ids[f.ID] = s
			d.mu.Unlock()
			return
		}
		d.log("w", "?", "REQ", name)
		return
	}
	d.mu.Lock()
	s := d.ids[f.ID]
	d.mu.Unlock()
	if s == nil {
		d.log("w", "?", f.Type)
		return
	}
	switch f.Type {
	case wire.REQN:
		d.log("wn", s.name, int64(f.N))
	case wire.CANCEL:
		d.log("w", s.name, "CANCEL")
	case wire.ERROR:
		d.log("w", s.name, "ERROR", d.classify(s, string(f.Data)))
	case wire.PAYLOAD:
		dir := dirOf(s, false)
		switch {
		case f.Flags&wire.Follow != 0:
			d.log("w", s.name, "FOLLOWED")
		case f.Flags&wire.Next != 0 && f.Flags&wire.Complete != 0:
			d.log("w", s.name, "NEXTC", d.which(s, dir, f.Data, f.Metadata))
		case f.Flags&wire.Next != 0:
			d.log("w", s.name, "NEXT", d.which(s, dir, f.Data, f.Metadata))
		case f.Flags&wire.Complete != 0 && len(f.Data)+len(f.Metadata) == 0:
			d.log("w", s.name, "COMP")
		default:
			d.log("w", s.name, "PAYLOAD?")
		}
	default:
		d.log("w", s.name, "TYPE", f.Type)
	}
}

// called is what handlers do first.
func (d *driver) called(t string, op int, p payload.Payload) *slot {
	d.keep(p)
	for _, n := range d.order {
		s := d.slots[n]
		data, md := d.content(s, "req", 0)
		if strings.HasPrefix(s.kind, "rp") && same(p.Data(), data) {
			got := p.Metadata()
			full := append(make([]byte, 8), md...)
			skip := d.e.metadata(t)
			ok := len(got) == len(full)-skip
			if ok && skip == 8 {
				ok = same(got, md)
			} else if ok {
				ok = same(got[8:], md) && binary.BigEndian.Uint32(got) == uint32(op)
			}
			if !ok {
				d.log("h", n, "CALL", t, op, "METADATA")
			} else {
				d.log("h", n, "CALL", t, op)
			}
			return s
		}
	}
	d.log("h", "?", "CALL", t, op)
	return nil
}

func (d *driver) wait(s *slot) {
	if d.gated {
		<-s.gate
	}
}

func active() *driver {
	currentMu.Lock()
	defer currentMu.Unlock()
	return current
}

func onRR(op int) invoke.RequestResponseHandler {
	return func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		d := active()
		s := d.called("RR", op, p)
		if s == nil || s.kind != "rpRR" {
			return mono.Error[payload.Payload](errors.New("wrong handler"))
		}
		d.wait(s)
		held := d.held(s, "response")
		return mono.Create(func(sink mono.Sink[payload.Payload]) {
			runtime.KeepAlive(held)
			s.mono = sink
			d.log("p", s.name, "SUB")
		})
	}
}

func onFNF(op int) invoke.FireAndForgetHandler {
	return func(_ context.Context, p payload.Payload) { active().called("FNF", op, p) }
}

func (d *driver) response(s *slot) flux.Flux[payload.Payload] {
	held := d.held(s, "response")
	held2 := d.held(s, "source of the response")
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		runtime.KeepAlive(held)
		s.sink = sink
		d.log("p", s.name, "SUB")
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				runtime.KeepAlive(held2)
				if !s.srcEnd {
					d.log("pn", s.name, n)
				}
			},
			Cancel: func() {
				d.log("p", s.name, "CANCEL")
				s.srcEnd = true
			},
		})
	})
}

func onRS(op int) invoke.RequestStreamHandler {
	return func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		d := active()
		s := d.called("RS", op, p)
		if s == nil || s.kind != "rpRS" {
			return flux.Error[payload.Payload](errors.New("wrong handler"))
		}
		d.wait(s)
		return d.response(s)
	}
}

func onRC(op int) invoke.RequestChannelHandler {
	return func(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		d := active()
		s := d.called("RC", op, p)
		if s == nil || s.kind != "rpRC" {
			return flux.Error[payload.Payload](errors.New("wrong handler"))
		}
		s.input = in
		d.wait(s)
		return d.response(s)
	}
}

// operations of each type that are registered
var registered = map[string]uint32{"RR": 2, "FNF": 3, "RS": 2, "RC": 2}

func (d *driver) errText(s *slot, err error) string {
	if err == nil {
		return "nil"
	}
	return d.classify(s, err.Error())
}

func (d *driver) listen(s *slot, dir string) flux.Subscribe[payload.Payload] {
	held := d.held(s, "subscriber")
	return flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			runtime.KeepAlive(held)
			d.keep(p)
			d.log("u", s.name, "NEXT", d.which(s, dir, p.Data(), p.Metadata()))
		},
		OnComplete: func() { d.log("u", s.name, "COMP"); runtime.KeepAlive(held) },
		OnError:    func(err error) { d.log("u", s.name, "ERR", d.errText(s, err)) },
		Finally:    func(sig rx.SignalType) { d.log("u", s.name, "FIN", sig) },
	}
}

func (d *driver) outcome(s *slot, p payload.Payload, err error) {
	if err != nil {
		d.log("u", s.name, "ERR", d.errText(s, err))
	} else if p == nil {
		d.log("u", s.name, "OK", "NIL")
	} else {
		d.keep(p)
		d.log("u", s.name, "OK", d.which(s, "ans", p.Data(), p.Metadata()))
	}
}

func (d *driver) request(s *slot) payload.Payload {
	data, md := d.content(s, "req", 0)
	s.made = true
	s.id = nextLocal(d.e)
	return payload.New(data, append(make([]byte, 8), md...))
}

// idFor is the id to use for frames on a stream, opened or not.
func (d *driver) idFor(s *slot) uint32 {
	if s.opened || s.made {
		return s.id
	}
	if strings.HasPrefix(s.kind, "rq") {
		return peekLocal(d.e)
	}
	return peekPeer(d.e)
}

// Ids given out so far. The ones of a guest live as long as the process.
var locals, peers = map[end]uint32{}, map[end]uint32{}

func peekLocal(e end) uint32 { return e.firstID() + 2*locals[e] }
func nextLocal(e end) uint32 { id := peekLocal(e); locals[e]++; return id }
func peekPeer(e end) uint32  { return e.peerID() + 2*peers[e] }
func nextPeer(e end) uint32  { id := peekPeer(e); peers[e]++; return id }

func (d *driver) run(a action) {
	s := d.slots[a.S]
	ctx := context.Background()
	flip := func(n int) bool { return d.rng.Intn(n) == 0 }
	switch a.A {
	case "Call":
		p := d.request(s)
		switch a.M {
		case "fire":
			d.e.caller().FireAndForget(ctx, p)
		case "auto":
			held := d.held(s, "subscriber")
			m := d.e.caller().RequestResponse(ctx, p)
			m.Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) { d.outcome(s, p, nil); runtime.KeepAlive(held) },
				OnError:   func(err error) { d.outcome(s, nil, err); runtime.KeepAlive(held) },
			})
		case "async":
			held := d.held(s, "notification")
			m := d.e.caller().RequestResponse(ctx, p)
			m.Notify(func(rx.SignalType) {
				runtime.KeepAlive(held)
				p, err := m.Get()
				d.outcome(s, p, err)
			})
			m.Async()
			m.Async()
		case "block":
			m := d.e.caller().RequestResponse(ctx, p)
			go func() {
				p, err := blockMono(m)
				d.outcome(s, p, err)
			}()
		}

	case "Make":
		p := d.request(s)
		if s.kind == "rqRS" {
			s.flux = d.e.caller().RequestStream(ctx, p)
			break
		}
		held := d.held(s, "input")
		held2 := d.held(s, "source of the input")
		s.flux = d.e.caller().RequestChannel(ctx, p, flux.Create(func(sink flux.Sink[payload.Payload]) {
			runtime.KeepAlive(held)
			s.inSink = sink
			d.log("i", s.name, "SUB")
			sink.OnSubscribe(flux.OnSubscribe{
				Request: func(n int) {
					runtime.KeepAlive(held2)
					if !s.inEnd {
						d.log("in", s.name, n)
					}
				},
				Cancel: func() {
					d.log("i", s.name, "CANCEL")
					s.inEnd = true
				},
			})
		}))

	case "Sub":
		s.mode = a.M
		sub := d.listen(s, "out")
		switch a.M {
		case "manual":
			if flip(2) {
				sub.NoRequest = true
			} else {
				sub.OnRequest = func(rx.Subscription) {}
			}
			s.flux.Subscribe(sub)
		case "auto":
			s.flux.Subscribe(sub)
		case "each":
			sub.OnRequest = func(x rx.Subscription) { x.Request(d.scale(s, 1)) }
			s.flux.Subscribe(sub)
		case "async":
			if flip(2) {
				s.flux.Notify(func(sig rx.SignalType) { d.log("u", s.name, "FIN", sig) })
				s.flux.Async()
			} else {
				s.flux.Async()
				s.flux.Notify(func(sig rx.SignalType) { d.log("u", s.name, "FIN", sig) })
			}
		case "block":
			go func() {
				err := blockFlux(s.flux, sub)
				d.log("r", s.name, "RET", d.errText(s, err))
			}()
		}

	case "Request":
		if flip(3) {
			s.flux.Async() // has no effect on a subscribed flux
		}
		s.flux.Subscription().Request(d.scale(s, a.N))
	case "Cancel":
		s.flux.Subscription().Cancel()

	case "Peer":
		d.peer(s, a)

	case "Input":
		data, md := d.content(s, "in", a.K)
		switch a.F {
		case "NEXT":
			s.inSink.Next(payload.New(data, md))
		case "LARGE":
			s.inSink.Next(payload.New(d.e.large()))
		case "COMP":
			s.inEnd = true
			s.inSink.Complete()
		case "ERROR":
			s.inEnd = true
			s.inSink.Error(errors.New(d.text(s, "input")))
		}

	case "PeerRequest":
		data, md := d.content(s, "req", 0)
		op := uint32(0)
		if flip(6) {
			nextPeer(d.e) // ids may be skipped
		}
		s.id, s.opened = nextPeer(d.e), true
		d.mu.Lock()
		d.ids[s.id] = s
		d.mu.Unlock()
		switch a.Route {
		case "second":
			op = 1
		case "unknown":
			op = []uint32{registered[a.T], registered[a.T], registered[a.T] + 1, 0x7fffffff, 0xffffffff, 0x80000000}[d.rng.Intn(6)]
		}
		full := binary.BigEndian.AppendUint32(nil, op)
		full = binary.BigEndian.AppendUint32(full, []uint32{0, 0, s.id, 77777}[d.rng.Intn(4)])
		full = append(full, md...)
		if a.Route == "short" {
			full = full[:d.rng.Intn(8)]
		}
		f := wire.Frame{Type: typeCodes[a.T], ID: s.id, N: uint32(d.scale(s, a.N)), Metadata: full, Data: data}
		if a.T == "RC" && flip(4) {
			f.Flags |= wire.Complete // of the request payload only
		}
		if flip(4) {
			f.Flags |= wire.Ignore // changes nothing for frames that are understood
		}
		d.e.feed(wire.Framed(f))

	case "Return":
		close(s.gate)

	case "Emit":
		if s.kind == "rpRR" {
			data, md := d.content(s, "ans", a.K)
			switch a.F {
			case "NEXT":
				s.mono.Success(payload.New(data, md))
			case "LARGE":
				s.mono.Success(payload.New(d.e.large()))
			case "ERROR":
				s.mono.Error(errors.New(d.text(s, "emit")))
			}
			break
		}
		data, md := d.content(s, "out", a.K)
		switch a.F {
		case "NEXT":
			s.sink.Next(payload.New(data, md))
		case "LARGE":
			s.sink.Next(payload.New(d.e.large()))
		case "COMP":
			s.srcEnd = true
			s.sink.Complete()
		case "ERROR":
			s.srcEnd = true
			s.sink.Error(errors.New(d.text(s, "emit")))
		}

	case "ReadSub":
		sub := d.listen(s, "in")
		if flip(2) {
			sub.NoRequest = true
		} else {
			sub.OnRequest = func(rx.Subscription) {}
		}
		s.input.Subscribe(sub)
	case "ReadRequest":
		s.input.Subscription().Request(d.scale(s, a.N))
	case "ReadCancel":
		s.input.Subscription().Cancel()

	case "Close":
		d.e.close(d.rng.Intn(1000))

	default:
		panic("unknown action " + a.A)
	}
}

// errorCodes of error frames: what they mean for a stream does not depend on it.
var errorCodes = []uint32{0, 1, 2, 3, 4, 0x101, 0x102, 0x201, 0x201, 0x202, 0x203, 0x203, 0x204, 0x301, 0x7fffffff, 0x80000000, 0xffffffff}

func (d *driver) peer(s *slot, a action) {
	f := wire.Frame{ID: d.idFor(s)}
	data, md := d.content(s, dirOf(s, true), a.K)
	switch a.F {
	case "NEXT":
		f.Type, f.Flags, f.Data, f.Metadata = wire.PAYLOAD, wire.Next, data, md
	case "NEXTC":
		f.Type, f.Flags, f.Data, f.Metadata = wire.PAYLOAD, wire.Next|wire.Complete, data, md
	case "COMP":
		f.Type, f.Flags = wire.PAYLOAD, wire.Complete
	case "ERROR":
		f.Type, f.N, f.Data = wire.ERROR, errorCodes[d.rng.Intn(len(errorCodes))], []byte(d.text(s, "peer"))
	case "REQN":
		f.Type, f.N = wire.REQN, uint32(d.scale(s, a.K))
	case "CANCEL":
		f.Type = wire.CANCEL
	}
	if a.Any == 1 {
		switch f.Type {
		case wire.PAYLOAD:
			f.Flags = d.rng.Intn(8) * wire.Next
		case wire.REQN:
			f.N = []uint32{0, 1, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1}[d.rng.Intn(6)]
		}
	}
	if d.rng.Intn(4) == 0 {
		f.Flags |= wire.Ignore // changes nothing for frames that are understood
	}
	d.e.feed(wire.Framed(f))
}

// scale is how much real demand a demand of the model stands for. More than
// what the items need is never refused, so that the model tells what happens.
func (d *driver) scale(s *slot, n int) int {
	if n == math.MaxInt32 || s.mode == "each" {
		return n // "each" asks again when what it asked for has come
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/demand", d.sc.Seed, s.name)
	factors := []int{1, 1, 1, 255, 1 << 8, 1<<16 - 1, 1 << 16, 1<<24 - 3, 1 << 24, 1 << 26}
	return n * factors[h.Sum64()%uint64(len(factors))]
}

// summary groups events by channel and slot; demand is added up.
func summary(events [][]string) map[string]string {
	lists := map[string][]string{}
	sums := map[string]int64{}
	for _, e := range events {
		key := e[0] + " " + e[1]
		switch e[0] {
		case "wn", "pn", "in":
			var n int64
			fmt.Sscan(e[2], &n)
			sums[key] += n
		default:
			lists[key] = append(lists[key], strings.Join(e[2:], " "))
		}
	}
	r := map[string]string{}
	for k, v := range lists {
		r[k] = strings.Join(v, "; ")
	}
	for k, v := range sums {
		if v != 0 {
			r[k] = fmt.Sprint(v)
		}
	}
	return r
}

func (d *driver) expected(o [][]any) [][]string {
	var r [][]string
	for _, e := range o {
		var ev []string
		for i, f := range e {
			x := fmt.Sprint(f)
			if n, ok := f.(float64); ok {
				x = fmt.Sprint(int64(n))
				if e[0] == "wn" || e[0] == "pn" || e[0] == "in" {
					x = fmt.Sprint(d.scale(d.slots[fmt.Sprint(e[1])], int(n)))
				}
			}
			if i > 2 && (x == "large" || x == "closed") {
				x = "other"
			}
			ev = append(ev, x)
		}
		r = append(r, ev)
	}
	return r
}

type result struct {
	ID    string            `json:"id"`
	OK    bool              `json:"ok"`
	Step  int               `json:"step"`
	Steps int               `json:"steps"`
	Want  map[string]string `json:"want,omitempty"`
	Got   map[string]string `json:"got,omitempty"`
}

func equal(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// play replays one scenario. perform runs f to the point where nothing
// moves any more and reports whether f returned.
func play(sc *scenario, e end, gated bool, perform func(f func()) bool) result {
	d := &driver{
		sc: sc, e: e, gated: gated,
		rng:   rand.New(rand.NewSource(sc.Seed)),
		slots: map[string]*slot{},
		ids:   map[uint32]*slot{},
	}
	for n, k := range sc.Kinds {
		d.slots[n] = &slot{name: n, kind: k, gate: make(chan struct{})}
		d.order = append(d.order, n)
	}
	sort.Strings(d.order)
	currentMu.Lock()
	current = d
	currentMu.Unlock()

	res := result{ID: sc.ID, OK: true, Steps: len(sc.Steps)}
	perform(func() {})
	before := runtime.NumGoroutine()
	for i, st := range sc.Steps {
		returned := perform(func() { d.run(st.A) })
		e.drain()
		got := d.take()
		if !returned {
			got = append(got, []string{"x", st.A.S, "BLOCKED"})
		}
		w, g := summary(d.expected(st.O)), summary(got)
		if !equal(w, g) {
			res.OK, res.Step, res.Want, res.Got = false, i, w, g
			break
		}
	}
	if res.OK {
		for _, k := range d.kept {
			if !same(k[0], k[1]) {
				res.OK, res.Step = false, len(sc.Steps)-1
				res.Want = map[string]string{"kept": fmt.Sprintf("%x", k[1])}
				res.Got = map[string]string{"kept": fmt.Sprintf("%x", k[0])}
				break
			}
		}
	}
	if res.OK && sc.Forget {
		left := d.leftovers(sc.Gone, func() { perform(func() {}) })
		if n := runtime.NumGoroutine(); len(sc.Gone) == len(d.slots) && n > before {
			left = append(left, fmt.Sprintf("%d goroutines more than before", n-before))
		}
		if left != nil {
			res.OK, res.Step = false, len(sc.Steps)-1
			res.Want = map[string]string{"left of " + strings.Join(sc.Gone, ","): "nothing"}
			res.Got = map[string]string{"left of " + strings.Join(sc.Gone, ","): strings.Join(left, ", ")}
		}
		runtime.KeepAlive(e)
	}
	// Let go of handlers that wait.
	for _, s := range d.slots {
		select {
		case <-s.gate:
		default:
			close(s.gate)
		}
	}
	e.release()
	return res
}

// files reads scenarios and writes what became of them.
func files(each func(*scenario) result) {
	lines(func(line []byte) (string, func() any) {
		var s scenario
		if e := json.Unmarshal(line, &s); e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(3)
		}
		return s.ID, func() any { return each(&s) }
	})
}

func lines(each func(line []byte) (id string, run func() any)) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	sc := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			id, run := each(line)
			fmt.Fprintf(out, "{\"start\":%q}\n", id)
			b, _ := json.Marshal(run())
			out.Write(append(b, '\n'))
		}
		if err != nil {
			break
		}
	}
	out.WriteString("{\"end\":true}\n")
	out.Close()
	os.Exit(0)
}
