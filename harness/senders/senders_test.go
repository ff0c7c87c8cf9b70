// Package senders records goroutines that send on one connection.
package senders

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/verifx/wire"
	"github.com/nanobus/iota/go/transport/rsocket"
)

type op struct {
	Op    string `json:"op"`
	P     int    `json:"p"`
	K     int    `json:"k"`
	OK    bool   `json:"ok"`
	Long  bool   `json:"long"`
	Flush bool   `json:"flush"`
}

type event struct {
	E  string `json:"e"`
	Op op     `json:"op"`
}

type scenario struct {
	ID    string `json:"id"`
	Seed  int64  `json:"seed"`
	Procs int    `json:"procs"`
	Len   int    `json:"len"`
	Sizes []int  `json:"sizes"`
	Fail  int    `json:"fail"` // the network takes so many bytes; 0: all
	Lone  bool   `json:"lone"` // also goroutines that only flush
}

type recorder struct {
	mu  sync.Mutex
	evs []event
}

func (r *recorder) log(o op) {
	r.mu.Lock()
	r.evs = append(r.evs, event{"do", o})
	r.mu.Unlock()
}

// network is a connection that records when which bytes are handed over.
type network struct {
	rec   *recorder
	known map[string][2]int
	in    []byte
	rng   *rand.Rand
	left  int
	fails bool
	busy  atomic.Int32
}

var errGone = errors.New("network is gone")

func (n *network) Write(b []byte) (int, error) {
	if n.busy.Add(1) > 1 {
		// Two writers at once: whatever they write is mixed.
		n.rec.log(op{Op: "trash"})
	}
	defer n.busy.Add(-1)
	keep := append([]byte(nil), b...)
	for i := n.rng.Intn(6); i > 0; i-- {
		runtime.Gosched()
	}
	if n.rng.Intn(12) == 0 {
		time.Sleep(time.Microsecond * time.Duration(n.rng.Intn(60)))
	}
	if !bytes.Equal(keep, b) {
		n.rec.log(op{Op: "trash"})
	}
	take := len(b)
	if n.fails && n.left < take {
		take = n.left
		if n.left >= 0 {
			n.left = -1
			n.rec.log(op{Op: "fail"})
		}
		if take < 0 {
			take = 0
		}
	} else if n.fails {
		n.left -= take
	}
	n.in = append(n.in, b[:take]...)
	chunks, rest := wire.Split(n.in)
	for _, c := range chunks {
		if f, ok := n.known[string(c)]; ok {
			n.rec.log(op{Op: "wire", P: f[0], K: f[1]})
		} else {
			n.rec.log(op{Op: "trash"})
		}
	}
	n.in = rest
	if take < len(b) {
		return take, errGone
	}
	return take, nil
}
func (n *network) Read(b []byte) (int, error)         { select {} }
func (n *network) Close() error                       { return nil }
func (n *network) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (n *network) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (n *network) SetDeadline(t time.Time) error      { return nil }
func (n *network) SetReadDeadline(t time.Time) error  { return nil }
func (n *network) SetWriteDeadline(t time.Time) error { return nil }

type duplex struct{}

func (duplex) SetFrameSender(rsocket.FrameHandler)  {}
func (duplex) HandleFrame(frame frames.Frame) error { return nil }

// build makes a frame of about size bytes and how it looks on the wire.
func build(rng *rand.Rand, id uint32, p, k, size int) (frames.Frame, []byte) {
	tag := fmt.Appendf(nil, "<%d.%d>", p, k)
	body := func(n int) []byte {
		b := make([]byte, n)
		rng.Read(b)
		return append(b, tag...)
	}
	w := wire.Frame{ID: id}
	switch rng.Intn(6) {
	case 0:
		w.Type, w.Metadata, w.Data = wire.RR, body(size/2), body(size/2)
		return &frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: id, Metadata: w.Metadata, Data: w.Data, InitialN: 1, Complete: true}, wire.Encode(w)
	case 1:
		w.Type, w.N, w.Data = wire.RS, rng.Uint32(), body(size)
		return &frames.RequestPayload{FrameType: frames.FrameTypeRequestStream, StreamID: id, Data: w.Data, InitialN: w.N, Complete: true}, wire.Encode(w)
	case 2:
		w.Type, w.N, w.Data = wire.ERROR, uint32(frames.ErrCodeApplicationError), body(size)
		return &frames.Error{StreamID: id, Code: frames.ErrCodeApplicationError, Data: string(w.Data)}, wire.Encode(w)
	case 3:
		if size < 100 {
			w.Type, w.N = wire.REQN, uint32(p<<16|k+1)
			return &frames.RequestN{StreamID: id, N: w.N}, wire.Encode(w)
		}
	case 4:
		if size < 100 {
			w.Type = wire.CANCEL
			return &frames.Cancel{StreamID: id}, wire.Encode(w)
		}
	}
	w.Type, w.Flags, w.Metadata, w.Data = wire.PAYLOAD, wire.Next, body(size/3), body(size-size/3)
	return &frames.Payload{StreamID: id, Metadata: w.Metadata, Data: w.Data, Next: true}, wire.Encode(w)
}

func run(s *scenario) (evs []event, why string) {
	rng := rand.New(rand.NewSource(s.Seed))
	rec := &recorder{}
	n := &network{rec: rec, known: map[string][2]int{}, rng: rand.New(rand.NewSource(s.Seed + 1)), fails: s.Fail > 0, left: s.Fail}
	tp := rsocket.NewTransport(rsocket.NewTCPConn(n), duplex{})
	type item struct {
		f     frames.Frame
		flush bool
		long  bool
	}
	items := make([][]item, s.Procs)
	for p := range items {
		for k := 0; k < 1+rng.Intn(s.Len); k++ {
			size := s.Sizes[rng.Intn(len(s.Sizes))]
			f, b := build(rng, uint32(p*1000+k+1), p, k, size)
			if _, dup := n.known[string(b)]; dup {
				return nil, "harness: frames are not distinct"
			}
			n.known[string(b)] = [2]int{p, k}
			items[p] = append(items[p], item{f, rng.Intn(3) > 0, len(b) > 16777215})
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	var failed atomic.Value
	guard := func() {
		if r := recover(); r != nil {
			failed.Store(fmt.Sprint("panic: ", r))
		}
	}
	for p := range items {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			defer guard()
			<-start
			for k, it := range items[p] {
				rec.log(op{Op: "call", P: p, K: k})
				err := tp.Send(it.f, it.flush)
				rec.log(op{Op: "ret", P: p, K: k, OK: err == nil, Flush: it.flush, Long: it.long})
			}
		}(p)
	}
	if s.Lone {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer guard()
			<-start
			for i := 0; i < 4; i++ {
				_ = tp.Flush()
				runtime.Gosched()
			}
		}()
	}
	close(start)
	wg.Wait()
	err := tp.Flush()
	rec.log(op{Op: "flushed", OK: err == nil})
	if len(n.in) > 0 && !s.failing() {
		rec.log(op{Op: "trash"})
	}
	rec.log(op{Op: "end"})
	if w, ok := failed.Load().(string); ok {
		return nil, w
	}
	return rec.evs, ""
}

func (s *scenario) failing() bool { return s.Fail > 0 }

var _ = sort.Strings

func TestReplay(t *testing.T) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		os.Exit(3)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o600)
	if err != nil {
		os.Exit(3)
	}
	runtime.GOMAXPROCS(4)
	enc := json.NewEncoder(out)
	sc := bufio.NewScanner(in)
	for sc.Scan() {
		var s scenario
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		_ = enc.Encode(map[string]any{"start": s.ID})
		evs, why := run(&s)
		_ = enc.Encode(map[string]any{"id": s.ID, "ok": why == "", "why": why, "hist": [][]event{evs}})
	}
	_ = enc.Encode(map[string]any{"end": true})
}
