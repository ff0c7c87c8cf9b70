// Package mesh replays behaviours of the Mesh specification on the real mesh.
package mesh

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/verifx/relay"
	"github.com/nanobus/iota/go/internal/verifx/wire"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	realmesh "github.com/nanobus/iota/go/transport/wasmrs/mesh"
)

type oper struct {
	T int
	N [2]string
	I int
}

type module struct {
	File   string
	Ex, Im []oper
}

func (m *module) wasm() []byte {
	var ops []relay.Op
	for d, q := range [][]oper{m.Ex, m.Im} {
		for _, o := range q {
			ops = append(ops, relay.Op{Type: byte(o.T), Dir: byte(d + 1), Index: uint32(o.I), NS: o.N[0], Name: o.N[1]})
		}
	}
	// The order of the entries says nothing.
	rng := rand.New(rand.NewSource(int64(len(ops))))
	rng.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	return relay.Module(relay.Table(ops), false)
}

type act struct {
	A    string
	M    *module
	T    int
	N    [2]string
	K, I int
	Md   int // length of the metadata
	Data int
	Dem  int // demand
	Err  bool
	Perm int64
}

type dest struct {
	S string
	K int
	I []int
}

type scenario struct {
	ID   string
	Op   string
	P    []act
	Want []dest
	Seed int64
}

func must(err error) {
	if err != nil {
		fmt.Println("harness:", err)
		os.Exit(3)
	}
}

// loaded is an instance with a module that relays frames.
type loaded struct {
	i    *host.Instance
	f    *relay.Files
	next uint32
	got  []wire.Frame
	free map[uint32]bool // streams nothing is said about
}

func (l *loaded) poke() { _ = l.i.SendFrame(&frames.Cancel{StreamID: 0x7ffffff1}) }

func (l *loaded) guest(fs ...wire.Frame) {
	for _, f := range fs {
		l.f.Reply(wire.Framed(f))
	}
	l.poke()
}

func (l *loaded) pull() string {
	for _, b := range l.f.Batches() {
		chunks, rest := wire.Split(b)
		if len(rest) > 0 {
			return "a batch has a broken end"
		}
		for _, c := range chunks {
			f, ok := wire.Decode(c)
			if !ok {
				return "a frame cannot be decoded"
			}
			if f.ID != 0x7ffffff1 && !l.free[f.ID] {
				l.got = append(l.got, f)
			}
		}
	}
	return ""
}

type world struct {
	m    *realmesh.Mesh
	dir  string
	ls   []*loaded
	pend []*pending
	n    int
}

func (w *world) load(m *module) error {
	fn := filepath.Join(w.dir, m.File+".wasm")
	must(os.WriteFile(fn, m.wasm(), 0o600))
	f, restore, err := relay.Open(os.Getenv("VERIF_TMP"))
	must(err)
	i, err := w.m.LoadModule(context.Background(), fn)
	restore()
	if err != nil {
		return err
	}
	w.ls = append(w.ls, &loaded{i: i, f: f, next: 1, free: map[uint32]bool{}})
	return nil
}

// pending is a call that has arrived and is to be answered.
type pending struct {
	a     act
	to    *loaded
	id    uint32
	from  *loaded // nil for calls by name
	fid   uint32
	items [][]byte
	done  string // complete, error or ""
	subs  interface {
		Request(n int)
		Cancel()
	}
	asked  int // demand seen by the input
	sink   flux.Sink[payload.Payload]
	inDone bool
}

func fill(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(seed*31 + i*7 + i/256)
	}
	return b
}

func has(q []int, x int) bool {
	for _, y := range q {
		if x == y {
			return true
		}
	}
	return false
}

func (w *world) pull() string {
	for k, l := range w.ls {
		if why := l.pull(); why != "" {
			return fmt.Sprintf("module %d: %s", k+1, why)
		}
	}
	return ""
}

// quiet says what arrived that nobody waits for.
func (w *world) quiet() string {
	for k, l := range w.ls {
		if len(l.got) > 0 {
			return fmt.Sprintf("module %d got a stray frame %+v", k+1, l.got[0])
		}
	}
	return ""
}

func (w *world) settle() string {
	synctest.Wait()
	return w.pull()
}

func (w *world) call(a act, want dest) string {
	w.n++
	md, data := fill(a.Md, w.n), fill(a.Data, w.n+100)
	keep := append([]byte(nil), md...)
	c := &pending{a: a}
	ctx := context.Background()
	if a.A == "via" {
		c.from = w.ls[a.K-1]
		for len(md) < 8 {
			md = append(md, 0)
		}
		binary.BigEndian.PutUint32(md, uint32(a.I))
		binary.BigEndian.PutUint32(md[4:], 0)
		c.fid = c.from.next
		c.from.next += 2
		f := wire.Frame{Type: map[int]int{1: wire.RR, 2: wire.FNF, 3: wire.RS, 4: wire.RC}[a.T], ID: c.fid, Metadata: md, Data: data, N: uint32(a.Dem)}
		c.from.guest(f)
	} else {
		p := payload.New(data, md)
		sub := flux.Subscribe[payload.Payload]{
			OnNext:     func(p payload.Payload) { c.items = append(c.items, append([]byte(nil), p.Data()...)) },
			OnComplete: func() { c.done += "complete" },
			OnError:    func(err error) { c.done += "error:" + err.Error() },
			NoRequest:  true,
		}
		switch a.T {
		case 1:
			w.m.RequestResponse(ctx, a.N[0], a.N[1], p).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) {
					c.items = append(c.items, append([]byte(nil), p.Data()...))
					c.done += "complete"
				},
				OnError: func(err error) { c.done += "error:" + err.Error() },
			})
		case 2:
			w.m.FireAndForget(ctx, a.N[0], a.N[1], p)
		case 3:
			f := w.m.RequestStream(ctx, a.N[0], a.N[1], p)
			f.Subscribe(sub)
			c.subs = f.Subscription()
			c.subs.Request(a.Dem)
		case 4:
			in := flux.Create(func(s flux.Sink[payload.Payload]) {
				c.sink = s
				s.OnSubscribe(flux.OnSubscribe{Request: func(n int) { c.asked += n }, Cancel: func() {}})
			})
			f := w.m.RequestChannel(ctx, a.N[0], a.N[1], p, in)
			f.Subscribe(sub)
			c.subs = f.Subscription()
			c.subs.Request(a.Dem)
		}
	}
	if why := w.settle(); why != "" {
		return why
	}
	if a.A == "call" && !bytes.Equal(md, keep) {
		return "the metadata of the caller was changed"
	}
	if want.S == "free" {
		if c.from != nil {
			c.from.free[c.fid] = true
		}
		for _, l := range w.ls {
			for _, f := range l.got {
				l.free[f.ID] = true
			}
			l.got = nil
		}
		return ""
	}
	if want.S == "none" {
		if a.T == 2 {
			if c.from != nil {
				c.from.got = nil
			}
			return w.quiet()
		}
		if c.from != nil {
			if len(c.from.got) != 1 || c.from.got[0].Type != wire.ERROR || c.from.got[0].ID != c.fid || string(c.from.got[0].Data) != "not_found" {
				return fmt.Sprintf("the module got %+v instead of not_found", c.from.got)
			}
			c.from.got = nil
		} else if c.done != "error:not_found" {
			return fmt.Sprintf("the caller got %q instead of not_found", c.done)
		}
		return w.quiet()
	}
	c.to = w.ls[want.K-1]
	if len(c.to.got) != 1 {
		what := ""
		for k, l := range w.ls {
			for _, f := range l.got {
				what += fmt.Sprintf(" module %d: type %d metadata %.20x data %.60q;", k+1, f.Type, f.Metadata, f.Data)
			}
		}
		return fmt.Sprintf("%d calls arrived at module %d (caller: %q)%s", len(c.to.got), want.K, c.done, what)
	}
	f := c.to.got[0]
	c.to.got = nil
	if f.Type != map[int]int{1: wire.RR, 2: wire.FNF, 3: wire.RS, 4: wire.RC}[a.T] {
		return fmt.Sprintf("a frame of type %d arrived", f.Type)
	}
	if len(f.Metadata) < 8 || !has(want.I, int(binary.BigEndian.Uint32(f.Metadata))) {
		return fmt.Sprintf("metadata %.20x does not name the operation %v", f.Metadata, want.I)
	}
	rest := []byte{}
	if len(md) > 8 {
		rest = md[8:]
	}
	if !bytes.Equal(f.Metadata[8:], rest) {
		return fmt.Sprintf("metadata after the prefix is %.60x instead of %.60x", f.Metadata[8:], rest)
	}
	if !bytes.Equal(f.Data, data) {
		return "other data arrived"
	}
	if a.T >= 3 && f.N != uint32(a.Dem) {
		return fmt.Sprintf("the demand is %d instead of %d", f.N, a.Dem)
	}
	c.id = f.ID
	if why := w.quiet(); why != "" {
		return why
	}
	if a.T != 2 {
		w.pend = append(w.pend, c)
	}
	return ""
}

// answer lets all destinations answer, in some order.
func (w *world) answer(seed int64) string {
	rng := rand.New(rand.NewSource(seed))
	rng.Shuffle(len(w.pend), func(i, j int) { w.pend[i], w.pend[j] = w.pend[j], w.pend[i] })
	pend := w.pend
	w.pend = nil
	for n, c := range pend {
		if c.done != "" {
			return "a caller got " + c.done + " before anybody answered"
		}
		if c.a.T == 4 {
			if why := w.input(c, rng); why != "" {
				return why
			}
		}
		tag := byte(w.n*16 + n)
		var sent [][]byte
		var fs []wire.Frame
		if c.a.T == 1 {
			if c.a.Err {
				fs = append(fs, wire.Frame{Type: wire.ERROR, ID: c.id, N: 0x201, Data: []byte{'e', tag}})
			} else {
				sent = append(sent, fill(20, int(tag)))
				fs = append(fs, wire.Frame{Type: wire.PAYLOAD, ID: c.id, Flags: wire.Next | wire.Complete, Data: sent[0]})
			}
		} else {
			for k := 0; k < c.a.Dem && k < 4; k++ {
				sent = append(sent, fill(10+k, int(tag)))
				fs = append(fs, wire.Frame{Type: wire.PAYLOAD, ID: c.id, Flags: wire.Next, Data: sent[k]})
			}
			if c.a.Err {
				fs = append(fs, wire.Frame{Type: wire.ERROR, ID: c.id, N: 0x201, Data: []byte{'e', tag}})
			} else {
				fs = append(fs, wire.Frame{Type: wire.PAYLOAD, ID: c.id, Flags: wire.Complete})
			}
		}
		c.to.guest(fs...)
		if why := w.settle(); why != "" {
			return why
		}
		end := "complete"
		if c.a.Err {
			end = "error:e" + string([]byte{tag})
		}
		if c.from != nil {
			done := ""
			for _, f := range c.from.got {
				if f.ID != c.fid {
					return "a module got a frame of another stream"
				}
				switch f.Type {
				case wire.PAYLOAD:
					if f.Flags&wire.Next != 0 {
						c.items = append(c.items, f.Data)
					}
					if f.Flags&wire.Complete != 0 {
						done += "complete"
					}
				case wire.ERROR:
					done += "error:" + string(f.Data)
				default:
					return fmt.Sprintf("a module got %+v", f)
				}
			}
			c.from.got = nil
			c.done = done
		}
		if c.done != end {
			return fmt.Sprintf("the caller got %q instead of %q", c.done, end)
		}
		if len(sent) != len(c.items) {
			return fmt.Sprintf("the caller got %d items of %d", len(c.items), len(sent))
		}
		for k := range sent {
			if !bytes.Equal(sent[k], c.items[k]) {
				return "the caller got another item"
			}
		}
		if why := w.quiet(); why != "" {
			return why
		}
	}
	return ""
}

// input lets the destination of a channel ask for items and get them.
func (w *world) input(c *pending, rng *rand.Rand) string {
	n := 1 + rng.Intn(3)
	c.to.guest(wire.Frame{Type: wire.REQN, ID: c.id, N: uint32(n)})
	if why := w.settle(); why != "" {
		return why
	}
	if c.from != nil {
		if len(c.from.got) != 1 || c.from.got[0].Type != wire.REQN || c.from.got[0].ID != c.fid || c.from.got[0].N != uint32(n) {
			return fmt.Sprintf("the module got %+v instead of a demand of %d", c.from.got, n)
		}
		c.from.got = nil
	} else if c.asked != n {
		return fmt.Sprintf("the input was asked for %d items instead of %d", c.asked, n)
	}
	for k := 0; k < n; k++ {
		d := fill(5+k, w.n+k)
		if c.from != nil {
			c.from.guest(wire.Frame{Type: wire.PAYLOAD, ID: c.fid, Flags: wire.Next, Data: d})
		} else {
			c.sink.Next(payload.New(d))
		}
		if why := w.settle(); why != "" {
			return why
		}
		if len(c.to.got) != 1 || c.to.got[0].Type != wire.PAYLOAD || c.to.got[0].ID != c.id || c.to.got[0].Flags&(wire.Next|wire.Complete) != wire.Next ||
			!bytes.Equal(c.to.got[0].Data, d) {
			return fmt.Sprintf("input item %d arrived as %+v", k, c.to.got)
		}
		c.to.got = nil
	}
	if c.from != nil {
		c.from.guest(wire.Frame{Type: wire.PAYLOAD, ID: c.fid, Flags: wire.Complete})
	} else {
		c.sink.Complete()
	}
	if why := w.settle(); why != "" {
		return why
	}
	if len(c.to.got) != 1 || c.to.got[0].Type != wire.PAYLOAD || c.to.got[0].ID != c.id || c.to.got[0].Flags&(wire.Next|wire.Complete) != wire.Complete {
		return fmt.Sprintf("the end of the input arrived as %+v", c.to.got)
	}
	c.to.got = nil
	return w.quiet()
}

func run(s *scenario) (why string) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "mesh")
	must(err)
	defer os.RemoveAll(dir)
	w := &world{m: realmesh.New(), dir: dir}
	defer func() {
		for _, l := range w.ls {
			l.f.Close()
		}
	}()
	for k, a := range s.P {
		switch a.A {
		case "load":
			if err := w.load(a.M); err != nil {
				why = "module is not loaded: " + err.Error()
			} else {
				why = w.settle()
			}
		case "answer":
			why = w.answer(a.Perm)
		case "wait":
			time.Sleep(6 * time.Second)
			why = w.settle()
		default:
			why = w.call(a, s.Want[k])
		}
		if why == "" {
			why = w.quiet()
		}
		if why != "" {
			why = fmt.Sprintf("step %d (%s): %s", k+1, a.A, why)
			break
		}
	}
	left := w.pend
	time.Sleep(6 * time.Second)
	w.m.Close()
	synctest.Wait()
	if why == "" {
		for _, c := range left {
			if c.from == nil && c.done == "" {
				why = "a call that waited got nothing when the mesh was closed"
			}
		}
	}
	return
}

// ------------------------------------------------------------------
// Calls while modules are loaded, on real time.

type rec struct {
	Loads []map[string]any `json:"loads"`
	Calls []map[string]any `json:"calls"`
}

func concurrent(s *scenario) (*rec, string) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "mesh")
	must(err)
	defer os.RemoveAll(dir)
	w := &world{m: realmesh.New(), dir: dir}
	var clock int64
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	var stop int32
	var wg sync.WaitGroup
	r := &rec{Loads: []map[string]any{}, Calls: []map[string]any{}}
	var mu sync.Mutex
	type open struct {
		rec  map[string]any
		done chan string
	}
	calls := map[string]*open{}
	names := [][2]string{}
	for _, a := range s.P {
		for _, o := range a.M.Ex {
			if o.T == 1 {
				names = append(names, o.N)
			}
		}
	}
	for g := 0; g < 3; g++ {
		g := g
		rng := rand.New(rand.NewSource(s.Seed + int64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; atomic.LoadInt32(&stop) == 0 && n < 400; n++ {
				nm := names[rng.Intn(len(names))]
				tag := fmt.Sprintf("g%d.%d", g, n)
				c := &open{rec: map[string]any{"t": 1, "n": nm, "k": 0, "i": 0}, done: make(chan string, 1)}
				mu.Lock()
				calls[tag] = c
				mu.Unlock()
				c.rec["from"] = tick()
				mo := w.m.RequestResponse(context.Background(), nm[0], nm[1], payload.New([]byte(tag)))
				c.rec["to"] = tick()
				mo.Subscribe(mono.Subscribe[payload.Payload]{
					OnSuccess: func(payload.Payload) { c.done <- "answer" },
					OnError:   func(err error) { c.done <- err.Error() },
				})
				if rng.Intn(3) == 0 {
					runtime.Gosched()
				}
				time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
			}
		}()
	}
	// Calls that find nothing, made without anything in common with the loads.
	wg.Add(1)
	go func() {
		defer wg.Done()
		p := payload.New(nil)
		for n := 0; atomic.LoadInt32(&stop) == 0; n++ {
			w.m.FireAndForget(context.Background(), "nobody", "exports", p)
			if n%64 == 0 {
				time.Sleep(20 * time.Microsecond)
			}
		}
	}()
	for _, a := range s.P {
		x := map[string]any{"file": a.M.File, "ex": a.M.Ex, "im": a.M.Im, "from": tick()}
		if err := w.load(a.M); err != nil {
			return nil, err.Error()
		}
		x["to"] = tick()
		r.Loads = append(r.Loads, x)
		time.Sleep(time.Millisecond)
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	// Everything that was sent has to be in the files soon.
	deadline := time.Now().Add(5 * time.Second)
	var err2 error
	for tags := 0; ; {
		if why := w.pull(); why != "" {
			return nil, why
		}
		for k, l := range w.ls {
			for _, f := range l.got {
				c := calls[string(f.Data)]
				if c == nil || c.rec["k"] != 0 || f.Type != wire.RR || len(f.Metadata) < 8 {
					return nil, fmt.Sprintf("module %d got %+v", k+1, f)
				}
				c.rec["k"], c.rec["i"] = k+1, int(binary.BigEndian.Uint32(f.Metadata))
				tags++
			}
			l.got = nil
		}
		for _, c := range calls {
			select {
			case d := <-c.done:
				if d != "not_found" || c.rec["k"] != 0 {
					err2 = errors.New("a caller got " + d)
				}
				tags++
			default:
			}
		}
		if err2 != nil {
			return nil, err2.Error()
		}
		if tags == len(calls) {
			break
		}
		if time.Now().After(deadline) {
			return nil, fmt.Sprintf("%d of %d calls arrived", tags, len(calls))
		}
		time.Sleep(time.Millisecond)
	}
	for _, c := range calls {
		r.Calls = append(r.Calls, c.rec)
	}
	w.m.Close()
	for _, l := range w.ls {
		l.f.Close()
	}
	return r, ""
}

func (o oper) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]any{"t": o.T, "n": o.N, "i": o.I})
}

func TestReplay(t *testing.T) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	must(err)
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o600)
	must(err)
	enc := json.NewEncoder(out)
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var s scenario
		must(json.Unmarshal(sc.Bytes(), &s))
		_ = enc.Encode(map[string]any{"start": s.ID})
		var why string
		var r *rec
		if s.Op == "concurrent" {
			r, why = concurrent(&s)
		} else {
			synctest.Test(t, func(t *testing.T) { why = run(&s) })
		}
		_ = enc.Encode(map[string]any{"id": s.ID, "ok": why == "", "why": why, "rec": r})
	}
	_ = enc.Encode(map[string]any{"end": true})
}
