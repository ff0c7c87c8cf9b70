//go:build !wasi

package engine

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/verifx/relay"
	"github.com/nanobus/iota/go/internal/verifx/wire"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

func blockMono(m mono.Mono[payload.Payload]) (payload.Payload, error) { return m.Block() }

func blockFlux(f flux.Flux[payload.Payload], s flux.Subscribe[payload.Payload]) error {
	return f.Block(s)
}

// conn is a network connection that never blocks a writer.
type conn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte
	err    error // what reading reports after in
	closed int
	wrote  []byte
	chunk  func(int) int
}

func newConn() *conn {
	c := &conn{}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.in) == 0 && c.err == nil && c.closed == 0 {
		c.cond.Wait()
	}
	if c.closed > 0 {
		return 0, net.ErrClosed
	}
	if len(c.in) == 0 {
		return 0, c.err
	}
	n := len(c.in)
	if n > len(b) {
		n = len(b)
	}
	if c.chunk != nil {
		n = c.chunk(n)
	}
	copy(b, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}

func (c *conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed > 0 {
		return 0, net.ErrClosed
	}
	c.wrote = append(c.wrote, b...)
	return len(b), nil
}

func (c *conn) push(b []byte, err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.in = append(c.in, b...)
	if err != nil {
		c.err = err
	}
	c.cond.Broadcast()
}

func (c *conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed++
	c.cond.Broadcast()
	return nil
}

func (c *conn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *conn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

// native is the handler on top of a transport.
type native struct {
	h      *handler.Handler
	t      *rsocket.Transport
	c      *conn
	d      func(b []byte)
	cancel context.CancelFunc
	client bool
	down   bool
}

func newNative(seed int64) *native {
	n := &native{c: newConn(), client: seed%3 != 0}
	ctx, cancel := context.WithCancel(context.Background())
	n.cancel = cancel
	if seed%5 == 0 {
		k := seed
		n.c.chunk = func(max int) int {
			k = (k*1103515245 + 12345) & 0x7fffffff
			return 1 + int(k>>8)%max
		}
	}
	mode := handler.ServerMode
	if n.client {
		mode = handler.ClientMode
	}
	n.h = handler.New(ctx, mode)
	n.t = rsocket.NewTCPClientTransport(n.c, n.h)
	n.h.SetFrameSender(func(f frames.Frame) error { return n.t.Send(f, true) })
	go n.t.Start(ctx)
	return n
}

func (n *native) caller() invoke.Caller { return n.h }
func (n *native) feed(b []byte)         { n.c.push(b, nil) }
func (n *native) drain() {
	n.c.mu.Lock()
	chunks, rest := wire.Split(n.c.wrote)
	n.c.wrote = append([]byte(nil), rest...)
	n.c.mu.Unlock()
	for _, b := range chunks {
		sentFrame(b)
	}
}

func (n *native) close(how int) {
	n.down = true
	switch how % 7 {
	case 0:
		n.t.Close()
	case 1:
		n.c.push(nil, io.EOF)
	case 2:
		n.c.push(nil, errors.New("connection reset"))
	case 3:
		n.cancel()
	case 4: // ends inside a frame
		f := wire.Framed(wire.Frame{Type: wire.PAYLOAD, ID: 1, Flags: wire.Next, Data: []byte("cut off")})
		n.c.push(f[:how/7%len(f)], io.EOF)
	case 5: // a frame that makes no sense
		n.c.push([]byte{0, 0, 6, 0, 0, 0, 1, 0xfc, 0}, nil)
	case 6:
		n.t.Close()
		n.t.Close()
		n.cancel()
	}
}

func (n *native) firstID() uint32 {
	if n.client {
		return 1
	}
	return 2
}

func (n *native) peerID() uint32 {
	if n.client {
		return 2
	}
	return 1
}

func (n *native) metadata(t string) int {
	if t == "RR" || t == "FNF" {
		return 8
	}
	return 0
}
func (n *native) unknown(t string) uint32 { return registered[t] }

var huge = make([]byte, 1<<24)

func (n *native) large() []byte { return huge }
func (n *native) release() {
	n.t.Close()
	n.cancel()
	delete(locals, n)
	delete(peers, n)
}

// hosted is a host instance with a module that relays frames.
type hosted struct {
	i *host.Instance
	f *relay.Files
}

var relayModule = relay.Module(relay.Table(nil), false)

func newHosted(seed int64) *hosted {
	f, restore, err := relay.Open(os.Getenv("VERIF_TMP"))
	if err != nil {
		panic(err)
	}
	ctx := context.Background()
	h, err := host.New(ctx)
	restore()
	if err != nil {
		panic(err)
	}
	m, err := h.Compile(ctx, relayModule)
	if err != nil {
		panic(err)
	}
	i, err := m.Instantiate(ctx)
	if err != nil {
		panic(err)
	}
	for k := 0; k < 2; k++ {
		i.SetRequestResponseHandler(uint32(k), onRR(k))
		i.SetRequestStreamHandler(uint32(k), onRS(k))
		i.SetRequestChannelHandler(uint32(k), onRC(k))
	}
	for k := 0; k < 3; k++ {
		i.SetFireAndForgetHandler(uint32(k), onFNF(k))
	}
	return &hosted{i: i, f: f}
}

const pokeID = 0x7ffffff1

func (n *hosted) caller() invoke.Caller { return n.i }
func (n *hosted) feed(b []byte) {
	n.f.Reply(b)
	n.i.SendFrame(&frames.Cancel{StreamID: pokeID})
}
func (n *hosted) drain() {
	for _, batch := range n.f.Batches() {
		chunks, rest := wire.Split(batch)
		for _, b := range chunks {
			if f, ok := wire.Decode(b); ok && f.ID == pokeID {
				continue
			}
			sentFrame(b)
		}
		if len(rest) > 0 {
			sentRest()
		}
	}
}
func (n *hosted) close(how int) {
	switch how % 3 {
	case 0:
		n.i.Close()
	case 1:
		n.i.Close()
		n.i.Close()
	case 2: // the module crashes
		n.f.Word(relay.Trap)
		n.i.SendFrame(&frames.Cancel{StreamID: pokeID})
	}
}
func (n *hosted) firstID() uint32         { return 2 }
func (n *hosted) peerID() uint32          { return 1 }
func (n *hosted) metadata(t string) int   { return 0 }
func (n *hosted) unknown(t string) uint32 { return registered[t] }
func (n *hosted) large() []byte           { return huge[:20000] }
func (n *hosted) release() {
	n.i.Close()
	synctest.Wait()
	n.f.Close()
	delete(locals, n)
	delete(peers, n)
}

func perform(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	synctest.Wait()
	select {
	case <-done:
		return true
	default:
		return false
	}
}

func TestReplay(t *testing.T) {
	for k := 0; k < 2; k++ {
		invoke.ExportRequestResponse("v", "rr", onRR(k))
		invoke.ExportRequestStream("v", "rs", onRS(k))
		invoke.ExportRequestChannel("v", "rc", onRC(k))
	}
	for k := 0; k < 3; k++ {
		invoke.ExportFireAndForget("v", "fnf", onFNF(k))
	}
	synctest.Test(t, func(t *testing.T) {
		files(func(sc *scenario) result {
			var e end
			if sc.Engine == "host" {
				e = newHosted(sc.Seed)
			} else {
				e = newNative(sc.Seed)
			}
			synctest.Wait()
			return play(sc, e, true, perform)
		})
	})
}

func TestHostile(t *testing.T) {
	for k := 0; k < 2; k++ {
		invoke.ExportRequestResponse("h", "rr", hostileRR(k))
		invoke.ExportRequestStream("h", "rs", hostileRS(k))
		invoke.ExportRequestChannel("h", "rc", hostileRC(k))
	}
	for k := 0; k < 3; k++ {
		invoke.ExportFireAndForget("h", "fnf", hostileFNF(k))
	}
	synctest.Test(t, func(t *testing.T) {
		hostileLine(func(j *junk) any {
			if j.Engine == "host" {
				e := newHosted(j.Seed)
				for k := 0; k < 2; k++ {
					e.i.SetRequestResponseHandler(uint32(k), hostileRR(k))
					e.i.SetRequestStreamHandler(uint32(k), hostileRS(k))
					e.i.SetRequestChannelHandler(uint32(k), hostileRC(k))
				}
				for k := 0; k < 3; k++ {
					e.i.SetFireAndForgetHandler(uint32(k), hostileFNF(k))
				}
				synctest.Wait()
				return hostile(j, e, perform, func() bool { return false })
			}
			e := newNative(j.Seed)
			synctest.Wait()
			return hostile(j, e, perform, func() bool {
				e.c.mu.Lock()
				defer e.c.mu.Unlock()
				return e.c.closed > 0
			})
		})
	})
}
