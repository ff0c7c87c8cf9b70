// Package link lets two ends of a connection work for each other, with many
// requests at once, and records what became of each request.
package link

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/verifx/relay"
	"github.com/nanobus/iota/go/internal/verifx/wire"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

type scenario struct {
	ID     string   `json:"id"`
	Seed   int64    `json:"seed"`
	Rounds int      `json:"rounds"`
	Link   string   `json:"link"` // native, host
	Kinds  []string `json:"kinds"`
	Reqs   int      `json:"reqs"`   // requests per round, at most
	Cancel int      `json:"cancel"` // of 100 readers
	Fail   int      `json:"fail"`   // of 100 sources
	Close  int      `json:"close"`  // of 100 connections
}

// flow is a flow of items as LinkRuns knows it.
type flow struct {
	Live    bool     `json:"live"`
	Demand  int      `json:"demand"`
	Sent    int      `json:"sent"`
	End     string   `json:"end"`
	Stopped int      `json:"stopped"`
	Sub     bool     `json:"sub"`
	Want    int      `json:"want"`
	Cancel  bool     `json:"cancel"`
	Got     []int    `json:"got"`
	Ends    []string `json:"ends"`
	Fins    []string `json:"fins"`
	Late    int      `json:"late"`

	plan plan
	err  error
}

type rec struct {
	Kind   string `json:"kind"`
	Closed bool   `json:"closed"`
	Asked  bool   `json:"asked"`
	Calls  int    `json:"calls"`
	Out    *flow  `json:"out"`
	Inn    *flow  `json:"inn"`
}

// plan is what the users of a flow do.
type plan struct {
	items  int
	end    string // "", COMP, ERR, LARGE
	inline bool   // emits while it is asked
	pause  int
	read   string // none, now, later
	mode   string // auto, each, manual, block
	asks   []int
	cancel bool
	wait   int
	linger int
}

type result struct {
	ID    string `json:"id"`
	OK    bool   `json:"ok"`
	Why   string `json:"why,omitempty"`
	Recs  []*rec `json:"recs"`
	Moves int    `json:"moves"`
}

// request is one request and what its users at both ends do.
type request struct {
	w     *round
	key   string
	kind  string
	first bool // made by the first end
	wait  int
	delay int
	twice bool
	mu    sync.Mutex
	r     rec
}

type round struct {
	s     *scenario
	rng   *rand.Rand
	large []byte
	reqs  map[string]*request
}

var (
	theMu    sync.Mutex
	theRound *round
)

func (q *request) do(f func()) {
	q.mu.Lock()
	defer q.mu.Unlock()
	f()
}

func (q *request) flow(dir string) *flow {
	if dir == "out" {
		return q.r.Out
	}
	return q.r.Inn
}

// pass lets others run: in the same instant, or for a few.
func pass(n int) {
	switch {
	case n%3 == 0:
		for i := 0; i < n/3%40; i++ {
			runtime.Gosched()
		}
	case n%3 == 1:
		time.Sleep(time.Duration(1+n/3%4) * time.Microsecond)
	}
}

func (q *request) item(dir string, k int) payload.Payload {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", q.w.s.Seed, q.key, dir, k)
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	n := r.Intn(40)
	if r.Intn(40) == 0 {
		n = r.Intn(5000)
	}
	data := make([]byte, n)
	r.Read(data)
	var md []byte
	if r.Intn(3) == 0 {
		md = make([]byte, 1+r.Intn(20))
		r.Read(md)
	}
	return payload.New(append([]byte(fmt.Sprintf("%s/%s/%d:", q.key, dir, k)), data...), md)
}

func (q *request) which(dir string, p payload.Payload) int {
	if p == nil {
		return -1
	}
	var k int
	rest, ok := strings.CutPrefix(string(p.Data()), q.key+"/"+dir+"/")
	if !ok {
		return -2
	}
	fmt.Sscanf(rest, "%d:", &k)
	w := q.item(dir, k)
	if !bytes.Equal(w.Data(), p.Data()) || !bytes.Equal(w.Metadata(), p.Metadata()) {
		return -3
	}
	return k
}

func (q *request) text(dir string) string { return "failed: " + q.key + "/" + dir }

func other(dir string) string {
	if dir == "out" {
		return "in"
	}
	return "out"
}

// errEnd names the end that an error is. Called with mu held.
func (q *request) errEnd(dir string, err error) string {
	switch {
	case err == nil:
		return "nil"
	case err.Error() == q.text(dir):
		return "ERR"
	case err.Error() == q.text(other(dir)) && q.kind == "RC":
		return "OTHER"
	case strings.HasPrefix(err.Error(), "failed: "):
		return "FOREIGN"
	case q.flow(dir).End == "LARGE" && q.flow(dir).Stopped > 0 || q.flow(dir).End == "LARGE" && q.kind == "RR":
		return "LARGE"
	case q.kind == "RC" && dir == "in" && q.r.Out.End == "LARGE":
		return "OTHER"
	}
	return "CLOSED"
}

const much = 1000

func capped(n int) int {
	if n > much {
		return much
	}
	return n
}

// source emits the items of a flow.
func (q *request) source(dir string) flux.Flux[payload.Payload] {
	f := q.flow(dir)
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		var running, over bool
		cond := sync.NewCond(&q.mu)
		// step does what comes next; false if there is nothing to do.
		step := func() bool {
			q.mu.Lock()
			if f.Stopped > 0 && f.plan.pause%4 != 0 {
				over = true // some sources do not stop at once
			}
			n := f.Sent
			switch {
			case over || f.End != "":
				q.mu.Unlock()
				return false
			case n < f.plan.items && n < f.Demand:
				f.Sent++
				q.mu.Unlock()
				sink.Next(q.item(dir, n+1))
			case n < f.plan.items || f.plan.end == "":
				q.mu.Unlock()
				return false
			case f.plan.end == "COMP":
				f.End = "COMP"
				q.mu.Unlock()
				sink.Complete()
			case f.plan.end == "ERR":
				f.End = "ERR"
				q.mu.Unlock()
				sink.Error(errors.New(q.text(dir)))
			case f.plan.end == "LARGE":
				if n >= f.Demand || f.Stopped > 0 {
					q.mu.Unlock()
					return false
				}
				f.End = "LARGE"
				q.mu.Unlock()
				sink.Next(payload.New(q.w.large))
			}
			return true
		}
		run := func() {
			q.mu.Lock()
			if running {
				q.mu.Unlock()
				return
			}
			running = true
			q.mu.Unlock()
			for {
				for step() {
				}
				q.mu.Lock()
				if !(f.Sent < f.plan.items && f.Sent < f.Demand) || over || f.End != "" {
					running = false
					q.mu.Unlock()
					return
				}
				q.mu.Unlock()
			}
		}
		q.do(func() { f.Live = true })
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) {
				q.do(func() { f.Demand += capped(n); cond.Broadcast() })
				if f.plan.inline {
					run()
				}
			},
			Cancel: func() { q.do(func() { f.Stopped++; cond.Broadcast() }) },
		})
		if f.plan.inline {
			if f.plan.items == 0 {
				run()
			}
			return
		}
		go func() {
			for {
				for {
					pass(f.plan.pause)
					if !step() {
						break
					}
				}
				q.mu.Lock()
				if over || f.End != "" || f.Stopped > 0 || f.Sent == f.plan.items && (f.plan.end == "" || f.plan.end == "COMP" || f.plan.end == "ERR") {
					q.mu.Unlock()
					return
				}
				if f.Sent >= f.Demand {
					cond.Wait()
				}
				q.mu.Unlock()
			}
		}()
	})
}

func (q *request) ended(f *flow, how string) {
	if len(f.Ends) > 0 {
		f.Late++
	}
	f.Ends = append(f.Ends, how)
}

// read subscribes to a flow and does what the plan says.
func (q *request) read(dir string, x flux.Flux[payload.Payload]) {
	f := q.flow(dir)
	ask := func(n int) {
		stop := false
		q.do(func() {
			if len(f.Ends) > 0 {
				stop = true
				return
			}
			f.Want += capped(n)
			if dir == "out" {
				q.r.Asked = true
			}
		})
		if !stop {
			x.Subscription().Request(n)
		}
	}
	// Signals come one after the other.
	busy := false
	begin := func() {
		if busy {
			f.Late += 10
		}
		busy = true
	}
	sub := flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			k := q.which(dir, p)
			defer q.do(func() { busy = false })
			q.do(func() {
				begin()
				if len(f.Ends) > 0 && f.Ends[0] != "CANCEL" {
					f.Late++
				}
				f.Got = append(f.Got, k)
			})
			if f.plan.mode == "each" {
				ask(1)
			}
			pass(f.plan.linger)
		},
		OnComplete: func() { q.do(func() { begin(); q.ended(f, "COMP"); busy = false }) },
		OnError: func(err error) {
			q.do(func() { begin(); f.err = err; q.ended(f, q.errEnd(dir, err)); busy = false })
		},
		Finally: func(sig rx.SignalType) {
			q.do(func() {
				f.Fins = append(f.Fins, fmt.Sprint(sig))
				if sig == rx.SignalCancel {
					q.ended(f, "CANCEL")
				}
			})
		},
	}
	q.do(func() { f.Sub = true })
	cancel := func() {
		q.do(func() {
			if len(f.Ends) == 0 {
				f.Cancel = true
			}
		})
		x.Subscription().Cancel()
	}
	wait := f.plan.wait
	switch f.plan.mode {
	case "auto", "block":
		q.do(func() {
			f.Want += much
			if dir == "out" {
				q.r.Asked = true
			}
		})
		if f.plan.mode == "block" {
			go func() {
				err := x.Block(sub)
				q.do(func() {
					if err != f.err { // what Block returns is what was seen
						f.Late += 100
					}
				})
			}()
		} else {
			x.Subscribe(sub)
		}
	default:
		sub.NoRequest = true
		x.Subscribe(sub)
		if len(f.plan.asks) > 0 {
			ask(f.plan.asks[0])
			if rest := f.plan.asks[1:]; len(rest) > 0 && f.plan.mode == "manual" {
				go func() {
					for i, n := range rest {
						pass(wait/2 + i)
						ask(n)
					}
				}()
			}
		}
	}
	if f.plan.cancel && f.plan.mode != "block" { // who blocks cannot cancel
		go func() {
			pass(wait)
			pass(wait / 7)
			cancel()
		}()
	}
}

// what handlers do

func find(p payload.Payload) *request {
	theMu.Lock()
	defer theMu.Unlock()
	return theRound.reqs[string(p.Data())]
}

func (q *request) called() {
	q.do(func() { q.r.Calls++ })
	pass(q.delay)
}

func onRR(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	q := find(p)
	q.called()
	f := q.r.Out
	return mono.Create(func(sink mono.Sink[payload.Payload]) {
		answer := func() {
			switch f.plan.end {
			case "COMP":
				q.do(func() { f.End = "COMP" })
				sink.Success(q.item("out", 1))
			case "ERR":
				q.do(func() { f.End = "ERR" })
				sink.Error(errors.New(q.text("out")))
			case "LARGE":
				q.do(func() { f.End = "LARGE" })
				sink.Success(payload.New(q.w.large))
			default:
				return
			}
			if q.twice { // counts for nothing
				sink.Success(q.item("out", 2))
				sink.Error(errors.New("failed: twice"))
			}
		}
		if f.plan.inline {
			answer()
		} else {
			go func() { pass(f.plan.pause); pass(f.plan.pause / 5); answer() }()
		}
	})
}

func onFNF(_ context.Context, p payload.Payload) { find(p).called() }

func onRS(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	q := find(p)
	q.called()
	return q.source("out")
}

func onRC(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	q := find(p)
	switch q.r.Inn.plan.read {
	case "now":
		q.read("in", in)
	case "later":
		go func() { pass(q.r.Inn.plan.wait / 3); q.read("in", in) }()
	}
	q.called()
	return q.source("out")
}

// call makes the request.
func (q *request) call(c invoke.Caller) {
	pass(q.wait)
	ctx := context.Background()
	p := payload.New([]byte(q.key), make([]byte, 8))
	f := q.r.Out
	outcome := func(p payload.Payload, err error) {
		q.do(func() {
			if len(f.Got)+len(f.Ends) > 0 {
				f.Late++
			}
			if err != nil {
				f.Ends = append(f.Ends, q.errEnd("out", err))
			} else {
				f.Got = append(f.Got, q.which("out", p))
			}
		})
	}
	switch q.kind {
	case "FNF":
		q.do(func() { q.r.Asked = true })
		c.FireAndForget(ctx, p)
	case "RR":
		q.do(func() { q.r.Asked = true; f.Sub = true; f.Want = 1 })
		m := c.RequestResponse(ctx, p)
		switch f.plan.mode {
		case "auto":
			m.Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) { outcome(p, nil) },
				OnError:   func(err error) { outcome(nil, err) },
			})
		case "block":
			outcome(m.Block())
		default:
			m.Notify(func(rx.SignalType) { outcome(m.Get()) })
			m.Async()
		}
	case "RS":
		q.read("out", c.RequestStream(ctx, p))
	case "RC":
		q.read("out", c.RequestChannel(ctx, p, q.source("in")))
	}
}

// ends of a connection

type wires struct {
	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte
	err    error
	peer   *wires
	closed bool
	chunk  int
	pushed func()
}

func pair(rng *rand.Rand) (*wires, *wires) {
	a, b := &wires{chunk: rng.Intn(3)}, &wires{chunk: rng.Intn(3)}
	a.cond, b.cond = sync.NewCond(&a.mu), sync.NewCond(&b.mu)
	a.peer, b.peer = b, a
	return a, b
}

func (c *wires) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.in) == 0 && c.err == nil && !c.closed {
		c.cond.Wait()
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if len(c.in) == 0 {
		return 0, c.err
	}
	n := len(c.in)
	if c.chunk > 0 && n > 7*c.chunk {
		n = 7 * c.chunk
	}
	n = copy(b, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}

func (c *wires) Write(b []byte) (int, error) {
	c.mu.Lock()
	closed := c.closed
	c.mu.Unlock()
	if closed {
		return 0, net.ErrClosed
	}
	c.peer.push(b, nil)
	return len(b), nil
}

func (c *wires) push(b []byte, err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.in = append(c.in, b...)
		c.err = err
	}
	c.cond.Broadcast()
	if c.pushed != nil {
		c.pushed()
	}
}

func (c *wires) Close() error {
	c.mu.Lock()
	c.closed = true
	c.cond.Broadcast()
	c.mu.Unlock()
	c.peer.push(nil, io.EOF)
	return nil
}

func (c *wires) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *wires) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *wires) SetDeadline(time.Time) error      { return nil }
func (c *wires) SetReadDeadline(time.Time) error  { return nil }
func (c *wires) SetWriteDeadline(time.Time) error { return nil }

type link struct {
	ends   [2]invoke.Caller
	close  func(how int)
	settle func() // lets everything come to rest
	moves  func() int
	large  []byte
}

var huge = make([]byte, 1<<24)

func native(rng *rand.Rand) *link {
	a, b := pair(rng)
	ctx, cancel := context.WithCancel(context.Background())
	make1 := func(c *wires, mode handler.Mode) (*handler.Handler, *rsocket.Transport) {
		h := handler.New(ctx, mode)
		t := rsocket.NewTCPClientTransport(c, h)
		h.SetFrameSender(func(f frames.Frame) error { return t.Send(f, true) })
		go t.Start(ctx)
		return h, t
	}
	ha, ta := make1(a, handler.ClientMode)
	hb, tb := make1(b, handler.ServerMode)
	synctest.Wait()
	return &link{
		ends: [2]invoke.Caller{ha, hb},
		close: func(how int) {
			switch how % 6 {
			case 0:
				ta.Close()
			case 1:
				tb.Close()
			case 2:
				a.push(nil, errors.New("reset"))
			case 3:
				b.push([]byte{0, 0, 9, 1}, io.EOF)
			case 4:
				cancel()
			case 5:
				go ta.Close()
				tb.Close()
			}
		},
		settle: func() { time.Sleep(time.Millisecond); synctest.Wait() },
		moves:  func() int { return 0 },
		large:  huge,
	}
}

var relayModule = relay.Module(relay.Table(nil), false)

// hosted has a module at the other end whose frames go to and come from a handler.
func hosted(rng *rand.Rand) *link {
	files, restore, err := relay.Open(os.Getenv("VERIF_TMP"))
	if err != nil {
		panic(err)
	}
	ctx := context.Background()
	h, err := host.New(ctx)
	restore()
	if err != nil {
		panic(err)
	}
	m, err := h.Compile(ctx, relayModule)
	if err != nil {
		panic(err)
	}
	i, err := m.Instantiate(ctx)
	if err != nil {
		panic(err)
	}
	i.SetRequestResponseHandler(0, onRR)
	i.SetFireAndForgetHandler(0, onFNF)
	i.SetRequestStreamHandler(0, onRS)
	i.SetRequestChannelHandler(0, onRC)

	near, far := pair(rng)
	peer := handler.New(ctx, handler.ClientMode)
	tp := rsocket.NewTCPClientTransport(far, peer)
	peer.SetFrameSender(func(f frames.Frame) error {
		if f.Size() > 16*1024-3 {
			return errors.New("frame too large")
		}
		return tp.Send(f, true)
	})
	go tp.Start(ctx)
	kick := make(chan struct{}, 1)
	over := make(chan struct{})
	near.pushed = func() {
		select {
		case kick <- struct{}{}:
		default:
		}
	}
	moves := 0
	pump := func() {
		for _, batch := range files.Batches() {
			chunks, rest := wire.Split(batch)
			if len(rest) > 0 {
				panic("rest")
			}
			for _, b := range chunks {
				if f, ok := wire.Decode(b); ok && f.ID == pokeID {
					continue
				}
				moves++
				far.push(append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...), nil)
			}
		}
		near.mu.Lock()
		_, rest := wire.Split(near.in)
		b := near.in[:len(near.in)-len(rest)]
		near.in = append([]byte(nil), rest...)
		near.mu.Unlock()
		for len(b) > 0 { // the buffer takes this much
			n := 0
			for n < len(b) {
				k := 3 + (int(b[n])<<16 | int(b[n+1])<<8 | int(b[n+2]))
				if n+k > 16*1024 {
					break
				}
				n += k
				moves++
			}
			files.Reply(b[:n])
			b = b[n:]
			i.SendFrame(&frames.Cancel{StreamID: pokeID})
		}
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		for {
			select {
			case <-kick:
			case <-time.After(time.Microsecond):
			case <-over:
				return
			}
			pump()
		}
	}()
	var mu sync.Mutex
	closed := false
	l := &link{
		ends: [2]invoke.Caller{i, peer},
		close: func(how int) {
			mu.Lock()
			closed = true
			mu.Unlock()
			if how%2 == 0 {
				i.Close()
				tp.Close()
			} else {
				go tp.Close()
				i.Close()
			}
		},
		moves: func() int { return moves },
		large: huge[:20000],
	}
	l.settle = func() {
		time.Sleep(400 * time.Microsecond)
		synctest.Wait()
		mu.Lock()
		c := closed
		mu.Unlock()
		if c {
			close(over)
			<-done
			synctest.Wait()
			i.Close()
			files.Close()
		}
	}
	return l
}

const pokeID = 0x7ffffff1

func plans(s *scenario, rng *rand.Rand, large bool) plan {
	p := plan{
		items:  rng.Intn(6),
		inline: rng.Intn(3) == 0,
		pause:  rng.Intn(200),
		read:   []string{"now", "now", "later", "none"}[rng.Intn(4)],
		mode:   []string{"auto", "auto", "manual", "manual", "each", "block"}[rng.Intn(6)],
		cancel: rng.Intn(100) < s.Cancel,
		wait:   rng.Intn(300),
		linger: []int{2, 2, 30, 31}[rng.Intn(4)],
		end:    "COMP",
	}
	if rng.Intn(100) < s.Fail {
		p.end = []string{"", "ERR", "ERR"}[rng.Intn(3)]
		if large && rng.Intn(4) == 0 {
			p.end = "LARGE"
		}
	}
	if rng.Intn(10) == 0 {
		p.items = 40
	}
	for i := 1 + rng.Intn(4); i > 0; i-- {
		p.asks = append(p.asks, 1+rng.Intn(3))
	}
	if p.mode == "each" {
		p.asks = []int{1}
	}
	return p
}

func newFlow(p plan) *flow { return &flow{Got: []int{}, Ends: []string{}, Fins: []string{}, plan: p} }

func one(s *scenario, rng *rand.Rand) ([]*rec, int) {
	var l *link
	if s.Link == "host" {
		l = hosted(rng)
	} else {
		l = native(rng)
	}
	w := &round{s: s, rng: rng, large: l.large, reqs: map[string]*request{}}
	var order []*request
	for i := 1 + rng.Intn(s.Reqs); i > 0; i-- {
		q := &request{w: w, key: fmt.Sprintf("%x.%d", rng.Int63(), i), kind: s.Kinds[rng.Intn(len(s.Kinds))],
			first: rng.Intn(2) == 0, wait: rng.Intn(120), delay: rng.Intn(120), twice: rng.Intn(4) == 0}
		q.r = rec{Kind: q.kind, Out: newFlow(plans(s, rng, true)), Inn: newFlow(plans(s, rng, true))}
		w.reqs[q.key] = q
		order = append(order, q)
	}
	theMu.Lock()
	theRound = w
	theMu.Unlock()
	for _, q := range order {
		q := q
		c := l.ends[0]
		if !q.first {
			c = l.ends[1]
		}
		go q.call(c)
	}
	closes := rng.Intn(100) < s.Close
	how, at, also := rng.Intn(1000), rng.Intn(300), rng.Intn(10)
	if closes {
		go func() {
			pass(at)
			for i := 0; i < also; i++ {
				time.Sleep(time.Microsecond)
				pass(at / 3)
			}
			l.close(how)
		}()
	}
	l.settle()
	var recs []*rec
	for _, q := range order {
		q.do(func() {
			q.r.Closed = closes
			b, _ := json.Marshal(q.r)
			r := &rec{}
			json.Unmarshal(b, r)
			recs = append(recs, r)
		})
	}
	if !closes {
		l.close(how)
		l.settle()
	}
	// Let go of what waits for ever.
	for _, q := range order {
		q.do(func() { q.r.Out.End, q.r.Inn.End = "over", "over" })
	}
	return recs, l.moves()
}

func TestLink(t *testing.T) {
	invoke.ExportRequestResponse("v", "rr", onRR)
	invoke.ExportFireAndForget("v", "fnf", onFNF)
	invoke.ExportRequestStream("v", "rs", onRS)
	invoke.ExportRequestChannel("v", "rc", onRC)
	synctest.Test(t, func(t *testing.T) {
		in, err := os.Open(os.Getenv("VERIF_IN"))
		if err != nil {
			os.Exit(3)
		}
		out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
		if err != nil {
			os.Exit(3)
		}
		rd := bufio.NewScanner(in)
		rd.Buffer(nil, 1<<24)
		for rd.Scan() {
			var s scenario
			if json.Unmarshal(rd.Bytes(), &s) != nil {
				os.Exit(3)
			}
			fmt.Fprintf(out, "{\"start\":%q}\n", s.ID)
			rng := rand.New(rand.NewSource(s.Seed))
			res := result{ID: s.ID, OK: true}
			for i := 0; i < s.Rounds; i++ {
				r, n := one(&s, rng)
				res.Recs = append(res.Recs, r...)
				res.Moves += n
			}
			b, _ := json.Marshal(res)
			out.Write(append(b, '\n'))
		}
		out.WriteString("{\"end\":true}\n")
		out.Close()
		os.Exit(0)
	})
}
