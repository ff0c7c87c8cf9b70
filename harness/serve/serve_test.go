// Package serve replays behaviours of the Serve specification on the real
// server and client transports.
package serve

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"weak"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/verifx/wire"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
)

type action struct {
	A    string `json:"a"`
	C    int    `json:"c"`
	How  string `json:"how"`
	OK   bool   `json:"ok"`
	Late int    `json:"late"`
}

type scenario struct {
	ID    string `json:"id"`
	Side  string `json:"side"`
	Net   string `json:"net"` // "" for connections of the harness' own
	Seed  int64  `json:"seed"`
	Steps []struct {
		A action  `json:"a"`
		O [][]any `json:"o"`
	} `json:"steps"`
	// Several at once.
	Rounds int `json:"rounds"`
}

type result struct {
	ID   string   `json:"id"`
	OK   bool     `json:"ok"`
	Step int      `json:"step"`
	Want []string `json:"want,omitempty"`
	Got  []string `json:"got,omitempty"`
	Why  string   `json:"why,omitempty"`
	Recs []rec    `json:"recs,omitempty"`
}

// wires is the other side of a connection. The connection refers to it but it
// does not refer to the connection.
type wires struct {
	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte
	err    error // what reading reports after in
	joined bool  // reading gives the error together with the last bytes
	closed int
	wrote  []byte
	chunk  func(int) int
	onEnd  func()
}

func newWires(rng *rand.Rand) *wires {
	w := &wires{}
	w.cond = sync.NewCond(&w.mu)
	if rng.Intn(3) == 0 {
		r := rand.New(rand.NewSource(rng.Int63()))
		w.chunk = func(max int) int { return 1 + r.Intn(max) }
	}
	return w
}

type conn struct{ w *wires }

func (c *conn) Read(b []byte) (int, error) {
	w := c.w
	w.mu.Lock()
	defer w.mu.Unlock()
	for len(w.in) == 0 && w.err == nil && w.closed == 0 {
		w.cond.Wait()
	}
	if w.closed > 0 {
		return 0, net.ErrClosed
	}
	if len(w.in) == 0 {
		return 0, w.err
	}
	n := len(w.in)
	if n > len(b) {
		n = len(b)
	}
	if w.chunk != nil {
		n = w.chunk(n)
	}
	copy(b, w.in[:n])
	w.in = w.in[n:]
	if w.joined && len(w.in) == 0 && w.err != nil {
		return n, w.err
	}
	return n, nil
}

func (c *conn) Write(b []byte) (int, error) {
	w := c.w
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.closed > 0 {
		return 0, net.ErrClosed
	}
	w.wrote = append(w.wrote, b...)
	return len(b), nil
}

func (c *conn) Close() error {
	w := c.w
	w.mu.Lock()
	w.closed++
	first, f := w.closed == 1, w.onEnd
	w.cond.Broadcast()
	w.mu.Unlock()
	if f != nil {
		f()
	}
	if first {
		return nil
	}
	return net.ErrClosed
}

func (w *wires) push(b []byte, err error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.in = append(w.in, b...)
	if err != nil {
		w.err = err
	}
	w.cond.Broadcast()
}

func (w *wires) take() [][]byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	chunks, rest := wire.Split(w.wrote)
	w.wrote = append([]byte(nil), rest...)
	return chunks
}

func (c *conn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *conn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

// listener gives out the connections it is told to.
type listener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []net.Conn
	late   net.Conn
	err    error
	closed int
	onEnd  func()
}

func newListener() *listener {
	l := &listener{}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *listener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for len(l.queue) == 0 && l.err == nil && l.closed == 0 {
		l.cond.Wait()
	}
	if l.closed > 0 && l.late != nil {
		c := l.late
		l.late = nil
		return c, nil
	}
	if l.closed > 0 {
		return nil, net.ErrClosed
	}
	if len(l.queue) > 0 {
		c := l.queue[0]
		l.queue[0] = nil
		l.queue = l.queue[1:]
		return c, nil
	}
	return nil, l.err
}

func (l *listener) Close() error {
	l.mu.Lock()
	l.closed++
	f := l.onEnd
	l.cond.Broadcast()
	l.mu.Unlock()
	if f != nil {
		f()
	}
	return nil
}

func (l *listener) Addr() net.Addr { return &net.TCPAddr{} }

func (l *listener) give(c net.Conn) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.queue = append(l.queue, c)
	l.cond.Broadcast()
}

// link is what the harness keeps of a connection.
type link struct {
	n      int
	w      *wires
	caller invoke.Caller
	conn   weak.Pointer[conn]
	sink   flux.Sink[payload.Payload]
	asked  uint32 // the stream of the request made on it
	pushed uint32 // the stream of the request of its peer
	next   uint32
	tag    string
}

type driver struct {
	mu     sync.Mutex
	rng    *rand.Rand
	events []string
	side   string
	links  map[int]*link
	srv    rsocket.ServerTransport
	lis    *listener
	cancel context.CancelFunc
	ctx    context.Context
	tp     *rsocket.Transport
	fail   bool
	due    int // the connection that was given last
	aside  bool
}

var (
	currentMu sync.Mutex
	current   *driver
)

func active() *driver {
	currentMu.Lock()
	defer currentMu.Unlock()
	return current
}

func (d *driver) log(f ...any) {
	d.mu.Lock()
	defer d.mu.Unlock()
	var t []string
	for _, x := range f {
		t = append(t, fmt.Sprint(x))
	}
	d.events = append(d.events, strings.Join(t, " "))
}

func (d *driver) take() []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	e := d.events
	d.events = nil
	sort.Strings(e)
	return e
}

// serve is the operation the peers call: the data names the connection.
func serve(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	d := active()
	var n int
	if _, err := fmt.Sscanf(string(p.Data()), "push on %d", &n); err != nil || d.links[n] == nil {
		d.log("p", "?", string(p.Data()))
		return flux.Error[payload.Payload](errors.New("what"))
	}
	k := d.links[n]
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		k.sink = sink
		d.log("p", n, "SUB")
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(int) {},
			Cancel: func() {
				k.sink = nil
				d.log("p", n, "CANCEL")
			},
		})
	})
}

func metadata(index uint32) []byte {
	return []byte{byte(index >> 24), byte(index >> 16), byte(index >> 8), byte(index), 0, 0, 0, 0}
}

func (d *driver) newLink(n int) (*link, *conn) {
	k := &link{n: n, w: newWires(d.rng), next: 1, tag: fmt.Sprintf("call on %d", n)}
	if d.side == "client" {
		k.next = 2
	}
	c := &conn{k.w}
	k.conn = weak.Make(c)
	k.w.onEnd = func() { d.log("closed", n) }
	d.links[n] = k
	return k, c
}

func (k *link) peerID() uint32 {
	id := k.next
	k.next += 2
	return id
}

func (d *driver) start() {
	d.ctx, d.cancel = context.WithCancel(context.Background())
	d.links = map[int]*link{}
	if d.side == "client" {
		k, c := d.newLink(1)
		h := handler.New(d.ctx, handler.ClientMode)
		d.tp = rsocket.NewTCPClientTransport(c, h)
		tp := d.tp
		h.SetFrameSender(func(f frames.Frame) error { return tp.Send(f, true) })
		k.caller = h
		go func() {
			d.tp.Start(d.ctx)
			d.log("listened")
		}()
		return
	}
	d.srv = rsocket.NewTCPServerTransport(func(ctx context.Context) (net.Listener, error) {
		if d.fail {
			return nil, errors.New("address in use")
		}
		l := newListener()
		l.onEnd = func() { d.log("lclosed") }
		d.lis = l
		return l, nil
	}, func(ctx context.Context) (rsocket.DuplexHandler, error) { return handler.New(ctx, handler.ServerMode), nil })
	d.srv.Accept(func(ctx context.Context, caller invoke.Caller, onClose func(*rsocket.Transport)) {
		if d.aside {
			return
		}
		d.links[d.due].caller = caller
		d.log("accepted", d.due)
	})
}

func (d *driver) run(a action) {
	k := d.links[a.C]
	switch a.A {
	case "Listen":
		d.fail = !a.OK
		n := make(chan bool, 1)
		ctx := d.ctx
		srv := d.srv
		go func() {
			srv.Listen(ctx, n)
			d.log("listened")
		}()
		go func() { d.log("notify", <-n) }()
	case "Connect":
		d.due = a.C
		_, c := d.newLink(a.C)
		d.lis.give(c)
	case "Shut":
		if a.C != 0 {
			_, c := d.newLink(a.C)
			d.lis.mu.Lock()
			d.lis.late = c
			d.lis.mu.Unlock()
		}
		switch a.How {
		case "close":
			d.srv.Close()
		case "ctx":
			d.cancel()
		case "fail":
			d.lis.mu.Lock()
			d.lis.err = []error{io.EOF, errors.New("too many open files"), net.ErrClosed}[d.rng.Intn(3)]
			d.lis.cond.Broadcast()
			d.lis.mu.Unlock()
		}
	case "End":
		d.end(k, a.How)
	case "LastWords":
		k.w.mu.Lock()
		k.w.joined = d.rng.Intn(2) == 0
		k.w.mu.Unlock()
		k.w.push(d.answer(k), []error{io.EOF, errors.New("connection reset by peer")}[d.rng.Intn(2)])
	case "Call":
		p := payload.New([]byte(k.tag), metadata(0))
		out := func(p payload.Payload, err error) {
			if err != nil {
				d.log("u", k.n, "ERR")
			} else if string(p.Data()) != k.tag {
				d.log("u", k.n, "OTHER")
			} else {
				d.log("u", k.n, "OK")
			}
		}
		m := k.caller.RequestResponse(context.Background(), p)
		if d.rng.Intn(2) == 0 {
			m.Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) { out(p, nil) },
				OnError:   func(err error) { out(nil, err) },
			})
		} else {
			go func() { out(m.Block()) }()
		}
	case "Answer":
		if a.How == "OK" {
			k.w.push(d.answer(k), nil)
		} else {
			k.w.push(wire.Framed(wire.Frame{Type: wire.ERROR, ID: k.asked, N: 0x201, Data: []byte("no")}), nil)
		}
	case "Push":
		k.pushed = k.peerID()
		k.w.push(wire.Framed(wire.Frame{Type: wire.RS, ID: k.pushed, N: 5, Metadata: metadata(0), Data: []byte(fmt.Sprintf("push on %d", k.n))}), nil)
	case "Emit":
		sink := k.sink
		if a.How == "NEXT" {
			sink.Next(payload.New([]byte(k.tag)))
		} else {
			k.sink = nil
			sink.Complete()
		}
	case "Recall":
		k.w.push(wire.Framed(wire.Frame{Type: wire.CANCEL, ID: k.pushed}), nil)
	case "Forget":
		k.caller = nil
	}
}

func (d *driver) answer(k *link) []byte {
	return wire.Framed(wire.Frame{Type: wire.PAYLOAD, ID: k.asked, Flags: wire.Next | wire.Complete, Data: []byte(k.tag)})
}

func (d *driver) end(k *link, how string) {
	switch how {
	case "eof":
		k.w.push(nil, io.EOF)
	case "reset":
		k.w.push(nil, errors.New("connection reset by peer"))
	case "cut":
		// Inside a frame that would have been an answer, or a request.
		f := d.answer(k)
		if d.rng.Intn(2) == 0 {
			f = wire.Framed(wire.Frame{Type: wire.RS, ID: k.peerID(), N: 5, Metadata: metadata(0), Data: []byte(fmt.Sprintf("push on %d", k.n))})
		}
		k.w.push(f[:1+d.rng.Intn(len(f)-1)], []error{io.EOF, io.ErrUnexpectedEOF, errors.New("reset")}[d.rng.Intn(3)])
	case "junk":
		k.w.push([]byte{0, 0, 6, 0, 0, 0, 1, 0xfc, 0}, nil)
	case "close":
		d.tp.Close()
	case "twice":
		d.tp.Close()
		d.tp.Close()
	case "ctx":
		d.cancel()
	}
}

// drain looks at the frames that were sent.
func (d *driver) drain() {
	for n, k := range d.links {
		for _, b := range k.w.take() {
			f, ok := wire.Decode(b)
			switch {
			case !ok:
				d.log("w", n, "GARBAGE")
			case f.Type == wire.RR && string(f.Data) == k.tag:
				k.asked = f.ID
				d.log("w", n, "REQ")
			case f.Type == wire.PAYLOAD && f.ID == k.pushed && f.Flags&wire.Next != 0 && string(f.Data) == k.tag:
				d.log("w", n, "NEXT")
			case f.Type == wire.PAYLOAD && f.ID == k.pushed && f.Flags&wire.Complete != 0:
				d.log("w", n, "COMP")
			default:
				d.log("w", n, "FRAME", f.Type, f.ID, string(f.Data))
			}
		}
	}
}

// audit logs which of the ended connections something refers to.
func (d *driver) audit() {
	if d.lis != nil {
		d.lis.mu.Lock()
		on := d.lis.closed == 0 && d.lis.err == nil
		d.lis.mu.Unlock()
		if on {
			// One more, so that none of the others is the last one.
			d.aside = true
			w := newWires(d.rng)
			w.err = io.EOF
			d.lis.give(&conn{w})
			synctest.Wait()
			d.aside = false
		}
	}
	f := []any{"held"}
	for i := 0; i < 4; i++ {
		runtime.GC()
	}
	var ks []int
	for n := range d.links {
		ks = append(ks, n)
	}
	sort.Ints(ks)
	for _, n := range ks {
		k := d.links[n]
		k.w.mu.Lock()
		over := k.w.closed > 0
		k.w.mu.Unlock()
		if over && k.caller == nil && k.conn.Value() != nil {
			f = append(f, n)
		}
	}
	d.log(f...)
}

func (d *driver) release() {
	d.cancel()
	if d.srv != nil {
		d.srv.Close()
	}
	if d.tp != nil {
		d.tp.Close()
	}
	for _, k := range d.links {
		(&conn{k.w}).Close()
	}
	synctest.Wait()
}

func expected(o [][]any) []string {
	var r []string
	for _, e := range o {
		var t []string
		for _, x := range e {
			t = append(t, fmt.Sprint(x))
		}
		r = append(r, strings.Join(t, " "))
	}
	sort.Strings(r)
	return r
}

func play(s *scenario) (res result) {
	d := &driver{rng: rand.New(rand.NewSource(s.Seed)), side: s.Side}
	currentMu.Lock()
	current = d
	currentMu.Unlock()
	d.start()
	synctest.Wait()
	res = result{ID: s.ID, OK: true}
	for i, st := range s.Steps {
		if st.A.A == "Audit" {
			d.audit()
		} else {
			done := make(chan struct{})
			go func() {
				d.run(st.A)
				close(done)
			}()
			synctest.Wait()
			select {
			case <-done:
			default:
				d.log("BLOCKED")
			}
		}
		d.drain()
		w, g := expected(st.O), d.take()
		if strings.Join(w, ",") != strings.Join(g, ",") {
			res.OK, res.Step, res.Want, res.Got = false, i, w, g
			res.Why = fmt.Sprintf("step %d %+v: %v expected, %v seen", i, st.A, w, g)
			break
		}
	}
	d.release()
	return
}

func TestReplay(t *testing.T) {
	invoke.ExportRequestStream("v", "push", serve)
	synctest.Test(t, func(t *testing.T) {
		files(func(s *scenario) result { return play(s) })
	})
}

func files(each func(*scenario) result) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	sc := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			var s scenario
			if e := json.Unmarshal(line, &s); e != nil {
				fmt.Fprintln(os.Stderr, e)
				os.Exit(3)
			}
			fmt.Fprintf(out, "{\"start\":%q}\n", s.ID)
			b, _ := json.Marshal(each(&s))
			out.Write(append(b, '\n'))
		}
		if err != nil {
			break
		}
	}
	out.WriteString("{\"end\":true}\n")
	out.Close()
	os.Exit(0)
}

// Several goroutines use one server.

type con struct {
	Taken   bool `json:"taken"`
	Closed  int  `json:"closed"`
	Oks     int  `json:"oks"`
	Answers int  `json:"answers"`
	Subs    int  `json:"subs"`
	Cancels int  `json:"cancels"`
	Comps   int  `json:"comps"`
	Twice   int  `json:"twice"`
}

type rec struct {
	Listened int    `json:"listened"`
	Lclosed  int    `json:"lclosed"`
	Told     int    `json:"told"`
	Calls    int    `json:"calls"`
	Errs     int    `json:"errs"`
	Cons     []*con `json:"cons"`
}

type crowd struct {
	mu sync.Mutex
	r  rec
}

var theCrowd *crowd

func (c *crowd) count(f func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	f()
}

// served is the operation the peers of a crowd call.
func served(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	c := theCrowd
	var n, items int
	fmt.Sscanf(string(p.Data()), "%d %d", &n, &items)
	x := c.r.Cons[n]
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		c.count(func() { x.Subs++ })
		over, cancels := false, 0
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(int) {},
			Cancel: func() {
				c.count(func() {
					cancels++
					if !over {
						over = true
						x.Cancels++
					}
					if cancels > 1 {
						x.Twice++
					}
				})
			},
		})
		if items > 0 {
			go func() {
				for i := 0; i < items; i++ {
					sink.Next(payload.New([]byte("item")))
				}
				c.count(func() {
					if !over {
						over = true
						x.Comps++
					}
				})
				sink.Complete()
			}()
		}
	})
}

// given is a listener that tells which connections it gave out.
type given struct {
	*listener
	took func(net.Conn)
}

func (g given) Accept() (net.Conn, error) {
	c, err := g.listener.Accept()
	if err == nil {
		g.took(c)
	}
	return c, err
}

func together(rng *rand.Rand) rec {
	c := &crowd{}
	theCrowd = c
	ctx, cancel := context.WithCancel(context.Background())
	ks := 1 + rng.Intn(5)
	ids := map[net.Conn]int{}
	var conns []*conn
	for i := 0; i < ks; i++ {
		x := &con{}
		c.r.Cons = append(c.r.Cons, x)
		w := newWires(rng)
		w.onEnd = func() { c.count(func() { x.Closed++ }) }
		k := &conn{w}
		conns = append(conns, k)
		ids[k] = i
	}
	l := newListener()
	l.onEnd = func() { c.count(func() { c.r.Lclosed++ }) }
	srv := rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) {
		return given{l, func(k net.Conn) { c.count(func() { c.r.Cons[ids[k]].Taken = true }) }}, nil
	}, func(ctx context.Context) (rsocket.DuplexHandler, error) { return handler.New(ctx, handler.ServerMode), nil })
	var plans [][2]int
	for range conns {
		plans = append(plans, [2]int{rng.Intn(4), rng.Intn(3)})
	}
	yields := func() func() {
		n := rng.Intn(60)
		return func() {
			for i := 0; i < n; i++ {
				runtime.Gosched()
			}
		}
	}
	order := rng.Perm(ks)
	pause := yields()
	srv.Accept(func(ctx context.Context, caller invoke.Caller, _ func(*rsocket.Transport)) {
		var plan [2]int
		c.count(func() { plan = plans[c.r.Told%len(plans)]; c.r.Told++ })
		for i := 0; i < plan[0]; i++ {
			// Which connection it is shows in the request that arrives.
			c.count(func() { c.r.Calls++ })
			caller.RequestResponse(ctx, payload.New([]byte("?"), metadata(0))).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) {
					var n int
					fmt.Sscan(string(p.Data()), &n)
					c.count(func() { c.r.Cons[n].Oks++ })
				},
				OnError: func(error) { c.count(func() { c.r.Errs++ }) },
			})
			pause()
		}
	})
	var wg sync.WaitGroup
	par := func(f func()) { wg.Add(1); go func() { defer wg.Done(); f() }() }
	n := make(chan bool, 1)
	par(func() {
		srv.Listen(ctx, n)
		c.count(func() { c.r.Listened++ })
	})
	<-n
	for _, i := range order {
		i, k, before, mid := i, conns[i], yields(), yields()
		x := c.r.Cons[i]
		how := rng.Intn(5)
		pushes, items := rng.Intn(3), rng.Intn(4)
		go func() {
			before()
			l.give(k)
			id := uint32(1)
			for j := 0; j < pushes; j++ {
				k.w.push(wire.Framed(wire.Frame{Type: wire.RS, ID: id, N: 100, Metadata: metadata(0), Data: []byte(fmt.Sprintf("%d %d", i, items))}), nil)
				id += 2
			}
			mid()
			// Answer what has been asked so far.
			for _, b := range k.w.take() {
				if f, ok := wire.Decode(b); ok && f.Type == wire.RR {
					c.count(func() { x.Answers++ })
					k.w.push(wire.Framed(wire.Frame{Type: wire.PAYLOAD, ID: f.ID, Flags: wire.Next | wire.Complete, Data: []byte(fmt.Sprint(i))}), nil)
				}
			}
			mid()
			switch how {
			case 0:
				k.w.push(nil, io.EOF)
			case 1:
				k.w.push([]byte{0, 0, 9}, errors.New("reset"))
			case 2:
				k.w.push([]byte{0, 0, 6, 0, 0, 0, 1, 0xfc, 0}, nil)
			}
		}()
	}
	wait := yields()
	for i := 1 + rng.Intn(2); i > 0; i-- {
		if rng.Intn(3) == 0 {
			par(func() { wait(); wait(); cancel() })
		} else {
			par(func() { wait(); wait(); wait(); srv.Close() })
		}
	}
	wg.Wait()
	synctest.Wait()
	cancel()
	synctest.Wait()
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.r
}

func TestCrowd(t *testing.T) {
	invoke.ExportRequestStream("v", "push", served)
	synctest.Test(t, func(t *testing.T) {
		files(func(s *scenario) result {
			rng := rand.New(rand.NewSource(s.Seed))
			res := result{ID: s.ID, OK: true}
			for i := 0; i < s.Rounds; i++ {
				res.Recs = append(res.Recs, together(rng))
			}
			return res
		})
	})
}

// The same on sockets of the system. What has happened is waited for.

// peer is the other end of a socket.
func (d *driver) peer(k *link, c net.Conn) {
	go func() {
		var got []byte
		b := make([]byte, 4096)
		for {
			n, err := c.Read(b)
			k.w.mu.Lock()
			got = append(got, b[:n]...)
			k.w.wrote = got
			k.w.mu.Unlock()
			if err != nil {
				d.log("closed", k.n)
				return
			}
			k.w.mu.Lock()
			got = k.w.wrote
			k.w.mu.Unlock()
			d.drainSock(k, &got)
		}
	}()
}

func (d *driver) drainSock(k *link, got *[]byte) {
	chunks, rest := wire.Split(*got)
	*got = append([]byte(nil), rest...)
	for _, b := range chunks {
		f, ok := wire.Decode(b)
		switch {
		case !ok:
			d.log("w", k.n, "GARBAGE")
		case f.Type == wire.RR && string(f.Data) == k.tag:
			d.mu.Lock()
			k.asked = f.ID
			d.mu.Unlock()
			d.log("w", k.n, "REQ")
		case f.Type == wire.PAYLOAD && f.ID == k.pushed && f.Flags&wire.Next != 0 && string(f.Data) == k.tag:
			d.log("w", k.n, "NEXT")
		case f.Type == wire.PAYLOAD && f.ID == k.pushed && f.Flags&wire.Complete != 0:
			d.log("w", k.n, "COMP")
		default:
			d.log("w", k.n, "FRAME", f.Type, f.ID, string(f.Data))
		}
	}
}

func (d *driver) sockets(s *scenario) (res result) {
	res = result{ID: s.ID, OK: true}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "s")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	sub := dir + "/d"
	addr := sub + "/s"
	os.Setenv("RSOCKET_NETWORK", "unix")
	os.Setenv("RSOCKET_ADDRESS", addr)
	d.ctx, d.cancel = context.WithCancel(context.Background())
	d.links = map[int]*link{}
	socks := map[int]*net.UnixConn{}
	accept := func(ctx context.Context, caller invoke.Caller, _ func(*rsocket.Transport)) {
		d.links[d.due].caller = caller
		d.log("accepted", d.due)
	}
	if s.Side == "client" {
		os.Mkdir(sub, 0o700)
		l, err := net.Listen("unix", addr)
		if err != nil {
			panic(err)
		}
		defer l.Close()
		tp, err := rsocket.NewClient(d.ctx)
		if err != nil {
			res.OK, res.Why = false, "NewClient: "+err.Error()
			return
		}
		d.tp = tp
		c, err := l.Accept()
		if err != nil {
			panic(err)
		}
		k, _ := d.newLink(1)
		socks[1] = c.(*net.UnixConn)
		d.peer(k, c)
		go func() {
			tp.Start(d.ctx)
			d.log("listened")
		}()
	} else if s.Seed%2 == 0 {
		d.srv = rsocket.NewServer(accept)
	} else {
		d.srv = rsocket.NewTCPServerTransport(rsocket.NewTCPListenerFactory("unix", addr, nil), nil)
		d.srv.Accept(accept)
	}
	defer func() {
		d.cancel()
		if d.srv != nil {
			d.srv.Close()
		}
		if d.tp != nil {
			d.tp.Close()
		}
		for _, c := range socks {
			c.Close()
		}
	}()
	for i, st := range s.Steps {
		a := st.A
		k := d.links[a.C]
		want := expected(st.O)
		switch a.A {
		case "Listen":
			if a.OK {
				os.Mkdir(sub, 0o700)
			}
			n := make(chan bool, 1)
			go func() {
				d.srv.Listen(d.ctx, n)
				d.log("listened")
			}()
			go func() { d.log("notify", <-n) }()
		case "Connect":
			d.due = a.C
			k, _ := d.newLink(a.C)
			c, err := net.Dial("unix", addr)
			if err != nil {
				d.log("refused", err)
				break
			}
			socks[a.C] = c.(*net.UnixConn)
			d.peer(k, c)
		case "Shut":
			if a.How == "close" {
				d.srv.Close()
			} else {
				d.cancel()
			}
		case "End":
			c := socks[a.C]
			switch a.How {
			case "eof":
				c.CloseWrite()
			case "cut":
				f := d.answer(k)
				c.Write(f[:1+d.rng.Intn(len(f)-1)])
				c.CloseWrite()
			case "junk":
				c.Write([]byte{0, 0, 6, 0, 0, 0, 1, 0xfc, 0})
			case "close", "twice", "ctx":
				d.end(k, a.How)
			}
		case "LastWords":
			socks[a.C].Write(d.answer(k))
			socks[a.C].CloseWrite()
		case "Emit", "Call", "Forget":
			d.run(a)
		default:
			d.run(a)
			k.w.mu.Lock()
			b := k.w.in
			k.w.in = nil
			k.w.mu.Unlock()
			socks[a.C].Write(b)
		}
		// An ended listener takes its address with it.
		lclosed := false
		for _, w := range want {
			lclosed = lclosed || w == "lclosed"
		}
		var got []string
		deadline := time.Now().Add(20 * time.Second)
		for {
			d.mu.Lock()
			got = append([]string(nil), d.events...)
			d.mu.Unlock()
			if _, err := os.Stat(addr); lclosed && err != nil {
				got = append(got, "lclosed")
			}
			sort.Strings(got)
			if strings.Join(got, ",") == strings.Join(want, ",") || len(got) > len(want) {
				break
			}
			if time.Now().After(deadline) {
				break
			}
			time.Sleep(200 * time.Microsecond)
		}
		time.Sleep(2 * time.Millisecond)
		d.mu.Lock()
		got = d.events
		d.events = nil
		d.mu.Unlock()
		if _, err := os.Stat(addr); lclosed && err != nil {
			got = append(got, "lclosed")
		}
		sort.Strings(got)
		if strings.Join(want, ",") != strings.Join(got, ",") {
			res.OK, res.Step, res.Want, res.Got = false, i, want, got
			res.Why = fmt.Sprintf("step %d %+v: %v expected, %v seen", i, a, want, got)
			break
		}
	}
	return
}

func TestSockets(t *testing.T) {
	invoke.ExportRequestStream("v", "push", serve)
	files(func(s *scenario) result {
		d := &driver{rng: rand.New(rand.NewSource(s.Seed)), side: s.Side}
		currentMu.Lock()
		current = d
		currentMu.Unlock()
		return d.sockets(s)
	})
}
