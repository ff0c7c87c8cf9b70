package rxx

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

type event struct {
	E  string `json:"e"`
	Op string `json:"op"`
	K  int    `json:"k"`
}

// run is a recording of one flux or mono.
type run struct {
	What    string  `json:"what"`
	Calm    bool    `json:"calm"`    // nothing was requested when it ended
	Finally bool    `json:"finally"` // somebody subscribed with callbacks
	Ev      []event `json:"ev"`
}

type recorder struct {
	mu sync.Mutex
	ev []event
}

func (r *recorder) add(e, op string, k int) {
	r.mu.Lock()
	r.ev = append(r.ev, event{e, op, k})
	r.mu.Unlock()
}

// op records a call of f.
func (r *recorder) op(op string, k int, f func()) {
	r.add("call", op, k)
	f()
	r.add("ret", op, k)
}

func yield(rng *rand.Rand) func() {
	n := rng.Intn(4)
	return func() {
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
	}
}

func record(s *scenario, rng *rand.Rand) *run {
	r := &recorder{}
	x := &run{}
	var wg sync.WaitGroup
	start := make(chan struct{})
	par := func(fs ...func()) {
		wg.Add(1)
		y := yield(rng)
		go func() {
			defer wg.Done()
			<-start
			for _, f := range fs {
				y()
				f()
			}
		}()
	}
	if s.What == "fluxrun" {
		x.What = "flux"
		x.Finally = true
		recordFlux(s, rng, r, x, par, func() { close(start); wg.Wait() })
	} else {
		x.What = "mono"
		recordMono(s, rng, r, x, par, func() { close(start); wg.Wait() })
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	x.Ev = r.ev
	return x
}

func recordFlux(s *scenario, rng *rand.Rand, r *recorder, x *run, par func(...func()), play func()) {
	var sink flux.Sink[int]
	onsub := flux.OnSubscribe{
		Request: func(n int) { r.add("srcreq", "", amount(n)) },
		Cancel:  func() { r.add("srccancel", "", 0) },
	}
	var f flux.Flux[int]
	if rng.Intn(2) == 0 {
		p := flux.NewProcessor[int]()
		p.OnSubscribe(onsub)
		f, sink = p, p
	} else {
		f = flux.Create(func(k flux.Sink[int]) { sink = k; k.OnSubscribe(onsub) })
	}
	if s.Kind == "map" {
		f = flux.Map(f, func(v int) (int, error) { return v, nil })
	}
	sub := flux.Subscribe[int]{
		OnNext:     func(v int) { r.add("next", "", v) },
		OnComplete: func() { r.add("complete", "", 0) },
		OnError: func(err error) {
			k := -1
			fmt.Sscan(err.Error(), &k)
			r.add("error", "", k)
		},
		Finally:   func(g rx.SignalType) { r.add("finally", signal(g), 0) },
		NoRequest: true,
	}
	f.Subscribe(sub)
	items := rng.Intn(4)
	emit := []func(){}
	for i := 1; i <= items; i++ {
		i := i
		emit = append(emit, func() { r.op("item", i, func() { sink.Next(i) }) })
	}
	k := 0
	ender := func() func() {
		k++
		n := k
		switch rng.Intn(3) {
		case 0:
			return func() { r.op("complete", n, func() { sink.Complete() }) }
		case 1:
			return func() { r.op("error", n, func() { sink.Error(errors.New(fmt.Sprint(n))) }) }
		default:
			return func() { r.op("cancel", n, func() { f.Subscription().Cancel() }) }
		}
	}
	if rng.Intn(2) == 0 {
		emit = append(emit, ender())
	}
	if len(emit) > 0 {
		par(emit...)
	}
	for i := rng.Intn(3); i > 0; i-- {
		par(ender())
	}
	notes := rng.Intn(3)
	note := func(n int) func() {
		return func() {
			r.op("notify", n, func() { f.Notify(func(g rx.SignalType) { r.add("note", signal(g), n) }) })
		}
	}
	for i := 1; i <= notes; i++ {
		par(note(i))
	}
	for i := rng.Intn(3); i > 0; i-- {
		// The amounts tell requests apart.
		n := 100 * i
		par(func() { r.op("request", n, func() { f.Subscription().Request(n) }) })
	}
	x.Calm = k == 0
	play()
	if x.Calm {
		// Demand travels on its own: wait for it to arrive.
		settle(func() bool {
			r.mu.Lock()
			defer r.mu.Unlock()
			a, b := 0, 0
			for _, e := range r.ev {
				if e.E == "srcreq" {
					a += e.K
				}
				if e.E == "call" && e.Op == "request" {
					b += e.K
				}
			}
			return a >= b
		})
	}
	k++
	r.op("complete", 99, func() { sink.Complete() })
	note(99)()
	// Demand on its way is not passed on any more.
	for i := 0; i < 3; i++ {
		runtime.Gosched()
	}
}

func recordMono(s *scenario, rng *rand.Rand, r *recorder, x *run, par func(...func()), play func()) {
	var m mono.Mono[int]
	var sink mono.Sink[int]
	proc := rng.Intn(2) == 0
	ready := make(chan struct{})
	if proc {
		p := mono.NewProcessor[int]()
		m, sink = p, p
		close(ready)
	} else {
		m = mono.Create(func(k mono.Sink[int]) {
			r.add("run", "", 0)
			sink = k
			close(ready)
		})
	}
	if s.Kind == "map" {
		m = mono.Map(m, func(v int) (int, error) { return v, nil })
	}
	out := func(what string) func(int, error) {
		return func(v int, err error) {
			if err != nil {
				fmt.Sscan(err.Error(), &v)
				r.add(what, "error", v)
			} else {
				r.add(what, "success", v)
			}
		}
	}
	subscribe := func() {
		m.Subscribe(mono.Subscribe[int]{
			OnSuccess: func(v int) { r.add("success", "", v) },
			OnError:   func(err error) { v := -1; fmt.Sscan(err.Error(), &v); r.add("error", "", v) },
			Finally:   func(g rx.SignalType) { r.add("finally", signal(g), 0) },
		})
	}
	blockers := 0
	if !wasi {
		blockers = rng.Intn(3)
	}
	x.Finally = rng.Intn(2) == 0
	started, alone := false, false
	if x.Finally {
		// The one subscription comes before the others wait.
		if proc && rng.Intn(2) == 0 && blockers == 0 {
			par(subscribe)
			alone = true
		} else {
			subscribe()
		}
		started = true
	}
	k := 0
	settler := func() func() {
		k++
		n := k
		if rng.Intn(2) == 0 {
			return func() { <-ready; r.op("success", n, func() { sink.Success(n) }) }
		}
		return func() { <-ready; r.op("error", n, func() { sink.Error(errors.New(fmt.Sprint(n))) }) }
	}
	for i := 1 + rng.Intn(3); i > 0; i-- {
		par(settler())
	}
	note := func(n int) func() {
		return func() {
			r.op("notify", n, func() { m.Notify(func(g rx.SignalType) { r.add("note", signal(g), n) }) })
		}
	}
	for i := rng.Intn(3); i > 0; i-- {
		par(note(i))
	}
	var blocked sync.WaitGroup
	for i := 0; i < blockers; i++ {
		blocked.Add(1)
		par(func() {
			r.add("call", "block", i)
			blockMono(m, func(v int, err error) { out("blocked")(v, err); blocked.Done() })
		})
	}
	if !alone && (!started && blockers == 0 || rng.Intn(3) == 0) {
		par(func() { m.Async() })
	}
	play()
	blocked.Wait()
	note(99)()
	out("got")(m.Get())
}

// settle waits until something holds.
func settle(ok func() bool) {
	for i := 0; !ok(); i++ {
		if i > 1000000 {
			return
		}
		runtime.Gosched()
	}
}
