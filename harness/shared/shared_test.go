// Package shared records histories of objects that goroutines share.
package shared

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/nanobus/iota/go/internal/buffer"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/transform"
)

type op struct {
	Op  string   `json:"op"`
	V   string   `json:"v"`
	ID  string   `json:"id"`
	H   string   `json:"h"`
	OK  bool     `json:"ok"`
	Got string   `json:"got"`
	All []string `json:"all"`
}

type event struct {
	E  string `json:"e"`
	P  int    `json:"p"`
	Op *op    `json:"op"`
}

type history []event

type scenario struct {
	ID     string `json:"id"`
	Kind   string `json:"kind"`
	Ops    []op   `json:"ops"`
	Procs  int    `json:"procs"`
	Len    int    `json:"len"`
	Rounds int    `json:"rounds"`
	Seed   int64  `json:"seed"`
	Burst  bool   `json:"burst"` // the same operations every round, own ids; results tell histories apart
}

// object runs an operation, completing it with its result.
type object interface {
	do(o *op)
}

// stream is an entry of the table.
type stream struct {
	id   uint32
	name string
}

func (s *stream) Context() context.Context { return context.Background() }
func (s *stream) StreamID() uint32         { return s.id }
func (s *stream) OnNext(payload.Payload)   {}
func (s *stream) OnComplete()              {}
func (s *stream) OnError(error)            {}
func (s *stream) OnCancel()                {}

type table struct{ l proxy.Lookup }

func streamID(s string) uint32 {
	var n uint32
	fmt.Sscan(s, &n)
	return n
}

func (t *table) do(o *op) {
	o.All = []string{}
	switch o.Op {
	case "add":
		t.l.Add(&stream{streamID(o.ID), o.V})
	case "remove":
		t.l.Remove(streamID(o.ID))
	case "get":
		s, ok := t.l.Get(streamID(o.ID))
		o.OK = ok
		if ok {
			o.V = s.(*stream).name
			if s.StreamID() != streamID(o.ID) {
				o.V += " under another id"
			}
		} else if s != nil {
			o.V, o.OK = "a stream that is not there", true
		}
	case "drain":
		for _, s := range t.l.Drain() {
			o.All = append(o.All, s.(*stream).name)
		}
	}
}

type queue struct{ u *buffer.Unbounded[string] }

func (q *queue) do(o *op) {
	o.All = []string{}
	switch o.Op {
	case "put":
		o.OK = q.u.Put(o.V)
	case "peek", "take":
		var v string
		var ok bool
		if o.Op == "peek" {
			o.Op = "take"
			select {
			case v, ok = <-q.u.Get():
			default:
				o.Got = "none"
				return
			}
		} else {
			v, ok = <-q.u.Get()
		}
		if ok {
			o.Got, o.V = "item", v
		} else {
			o.Got = "end"
		}
	case "load":
		q.u.Load()
	case "dispose":
		q.u.Dispose()
	}
}

type handles struct {
	l  *invoke.LiveInstances[string]
	mu sync.Mutex
	hs []uint64
}

func (h *handles) do(o *op) {
	o.All = []string{}
	switch o.Op {
	case "put":
		var id uint64
		if len(o.V)%2 == 0 {
			id = h.l.Put(o.V)
		} else {
			// The way generated code hands objects out.
			p, err := transform.InterfaceEncode(h.l)(o.V)
			if err != nil {
				panic(err)
			}
			d := msgpack.NewDecoder(p.Data())
			if id, err = d.ReadUint64(); err != nil {
				panic(err)
			}
		}
		o.H = fmt.Sprint(id)
		h.mu.Lock()
		h.hs = append(h.hs, id)
		h.mu.Unlock()
		return
	}
	// The handle is the H-th that was handed out so far, or one that was not.
	var n int
	fmt.Sscan(o.H, &n)
	h.mu.Lock()
	id := []uint64{0, 1 << 40, math.MaxUint64}[n%3]
	if n < len(h.hs) {
		id = h.hs[n]
	}
	h.mu.Unlock()
	o.H = fmt.Sprint(id)
	switch o.Op {
	case "get":
		o.V, o.OK = h.l.Get(id)
	case "remove":
		o.V, o.OK = h.l.Remove(id)
	}
}

func fresh(kind string) object {
	switch kind {
	case "table":
		return &table{}
	case "queue":
		return &queue{buffer.NewUnbounded[string]()}
	case "handles":
		return &handles{l: invoke.NewLiveInstances[string]()}
	}
	panic(kind)
}

func sequential(s *scenario) history {
	o := fresh(s.Kind)
	var h history
	for i := range s.Ops {
		x := s.Ops[i]
		o.do(&x)
		h = append(h, event{"do", 0, &x})
	}
	return h
}

type stamped struct {
	at int64
	ev event
}

// plan chooses the operations of a process.
func plan(kind string, p, n int, rng *rand.Rand) []op {
	var out []op
	for i := 0; i < n; i++ {
		v := fmt.Sprintf("%d.%d", p, i)
		switch kind {
		case "table":
			id := fmt.Sprint(2*rng.Intn(3) + 1)
			k := []string{"add", "add", "remove", "get", "get", "drain"}[rng.Intn(6)]
			if k == "drain" && rng.Intn(3) > 0 {
				k = "get"
			}
			out = append(out, op{Op: k, ID: id, V: v})
		case "handles":
			k := []string{"put", "get", "remove"}[rng.Intn(3)]
			if i == 0 {
				k = "put"
			}
			out = append(out, op{Op: k, V: v, H: fmt.Sprint(rng.Intn(3))})
		case "queue":
			// Process 0 consumes, as the receivers do; the last one also disposes.
			out = append(out, op{Op: "put", V: v})
		}
	}
	return out
}

// burst is a fixed plan on ids of the process' own.
func burst(kind string, p, n int) []op {
	var out []op
	for i := 0; i < n; i++ {
		v := fmt.Sprintf("%d.%d", p, i)
		switch kind {
		case "table":
			id := fmt.Sprint(2*(p*n+i) + 1)
			out = append(out, op{Op: "add", ID: id, V: v})
			if i%2 == 1 {
				out = append(out, op{Op: "remove", ID: id})
			}
			out = append(out, op{Op: "get", ID: fmt.Sprint(2*(p*n) + 1)})
		case "handles":
			out = append(out, op{Op: "put", V: v})
		case "queue":
			out = append(out, op{Op: "put", V: v})
		}
	}
	return out
}

func ids(kind string, procs, n int) (out []string) {
	if kind == "table" {
		for i := 0; i < procs*n; i++ {
			out = append(out, fmt.Sprint(2*i+1))
		}
	}
	return
}

func concurrent(s *scenario) []history {
	rng := rand.New(rand.NewSource(s.Seed))
	seen := map[string]bool{}
	var out []history
	for r := 0; r < s.Rounds; r++ {
		obj := fresh(s.Kind)
		var clock atomic.Int64
		logs := make([][]stamped, s.Procs)
		plans := make([][]op, s.Procs)
		for p := range plans {
			if s.Burst {
				plans[p] = burst(s.Kind, p, s.Len)
			} else {
				plans[p] = plan(s.Kind, p, 1+rng.Intn(s.Len), rng)
			}
		}
		spin := make([]int, s.Procs)
		for p := range spin {
			spin[p] = rng.Intn(60)
		}
		disposer := -1
		if s.Kind == "queue" {
			disposer = 1 + rng.Intn(s.Procs-1)
			plans[0] = nil
			if k := rng.Intn(len(plans[disposer]) + 1); true {
				pl := append([]op{}, plans[disposer][:k]...)
				pl = append(pl, op{Op: "dispose"})
				plans[disposer] = append(pl, plans[disposer][k:]...)
			}
		}
		var ready, done sync.WaitGroup
		var start atomic.Bool
		run := func(p int, o *op) {
			a := clock.Add(1)
			obj.do(o)
			b := clock.Add(1)
			logs[p] = append(logs[p], stamped{a, event{"call", p, o}}, stamped{b, event{"ret", p, &op{All: []string{}}}})
		}
		for p := 0; p < s.Procs; p++ {
			ready.Add(1)
			done.Add(1)
			go func(p int) {
				defer done.Done()
				ready.Done()
				for i := 0; !start.Load(); i++ {
					if i%200 == 199 {
						runtime.Gosched()
					}
				}
				for i := 0; i < spin[p] && !s.Burst; i++ {
					_ = clock.Load()
				}
				if s.Kind == "queue" && p == 0 {
					for {
						o := &op{Op: "take"}
						run(p, o)
						if o.Got == "end" {
							return
						}
						run(p, &op{Op: "load"})
					}
				}
				for i := range plans[p] {
					x := plans[p][i]
					run(p, &x)
				}
			}(p)
		}
		ready.Wait()
		start.Store(true)
		done.Wait()
		var all []stamped
		for _, l := range logs {
			all = append(all, l...)
		}
		sort.Slice(all, func(i, j int) bool { return all[i].at < all[j].at })
		var h history
		for _, e := range all {
			h = append(h, e.ev)
		}
		var k []byte
		if s.Burst {
			for _, id := range ids(s.Kind, s.Procs, s.Len) {
				o := &op{Op: "get", ID: id}
				obj.do(o)
				h = append(h, event{"do", 0, o})
			}
			if s.Kind == "table" {
				o := &op{Op: "drain"}
				obj.do(o)
				sort.Strings(o.All)
				h = append(h, event{"do", 0, o})
			}
			results := map[int][]*op{}
			for _, e := range h {
				if e.E != "ret" {
					results[e.P] = append(results[e.P], e.Op)
				}
			}
			k, _ = json.Marshal(results)
		} else {
			k, _ = json.Marshal(h)
		}
		if !seen[string(k)] {
			seen[string(k)] = true
			out = append(out, h)
		}
		if r%50 == 0 {
			runtime.Gosched()
		}
	}
	return out
}

func run(s *scenario) (hs []history, why string) {
	defer func() {
		if r := recover(); r != nil {
			why = fmt.Sprint("panic: ", r)
		}
	}()
	if s.Procs == 0 {
		done := make(chan history, 1)
		fail := make(chan string, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					fail <- fmt.Sprint("panic: ", r)
				}
			}()
			done <- sequential(s)
		}()
		select {
		case h := <-done:
			return []history{h}, ""
		case w := <-fail:
			return nil, w
		case <-time.After(20 * time.Second):
			return nil, "an operation blocks"
		}
	}
	return concurrent(s), ""
}

func TestReplay(t *testing.T) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o600)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	runtime.GOMAXPROCS(4)
	enc := json.NewEncoder(out)
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var s scenario
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		_ = enc.Encode(map[string]any{"start": s.ID})
		hs, why := run(&s)
		_ = enc.Encode(map[string]any{"id": s.ID, "ok": why == "", "why": why, "hist": hs})
	}
	_ = enc.Encode(map[string]any{"end": true})
}
