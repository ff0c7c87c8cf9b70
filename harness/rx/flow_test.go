package rxx

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

type flowMachine struct {
	log
	s    *scenario
	f    *flow.Flow[string]
	late map[[2]int]func()
}

// awaitable makes what step k waits for in place i.
func (m *flowMachine) awaitable(kind string, k, i int) await.Awaitable {
	bad := errors.New("bad")
	variant := (int(m.s.Seed) + 3*k + i) % 4
	switch kind {
	case "done":
		switch variant {
		case 0:
			return mono.Just("x")
		case 1:
			return flux.FromSlice([]string{"a", "b"})
		case 2:
			p := mono.NewProcessor[string]()
			p.Success("x")
			return p
		default:
			x := mono.Create(func(s mono.Sink[int]) { s.Success(1) })
			x.Async()
			return x
		}
	case "failed":
		switch variant {
		case 0:
			return mono.Error[string](bad)
		case 1:
			return flux.Error[string](bad)
		default:
			p := mono.NewProcessor[string]()
			p.Error(bad)
			return p
		}
	case "made":
		if variant%2 == 0 {
			return mono.Create(func(s mono.Sink[int]) {
				m.add("ran", k, i)
				if variant == 0 {
					s.Success(1)
				} else {
					s.Error(bad)
				}
			})
		}
		return flux.Create(func(s flux.Sink[int]) {
			m.add("ran", k, i)
			s.Next(1)
			if variant == 1 {
				s.Complete()
			} else {
				s.Error(bad)
			}
		})
	default:
		switch variant {
		case 0, 1:
			p := mono.NewProcessor[string]()
			m.late[[2]int{k, i}] = func() {
				if variant == 0 {
					p.Success("x")
				} else {
					p.Error(bad)
				}
			}
			if variant == 1 {
				return mono.Map[string, int](p, func(string) (int, error) { return 1, nil })
			}
			return p
		default:
			p := flux.NewProcessor[string]()
			p.Async()
			p.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
			m.late[[2]int{k, i}] = func() {
				if variant == 2 {
					p.Next("x")
					p.Complete()
				} else {
					p.Error(bad)
				}
			}
			return p
		}
	}
}

func newFlow(s *scenario) machine {
	m := &flowMachine{s: s, f: flow.New[string](), late: map[[2]int]func(){}}
	groups := make([]await.Group, len(s.FSteps))
	for n, st := range s.FSteps {
		for i, kind := range st.G {
			if kind == "same" {
				groups[n] = append(groups[n], groups[n][i-1])
			} else {
				groups[n] = append(groups[n], m.awaitable(kind, n+1, i+1))
			}
		}
	}
	for n, st := range s.FSteps {
		n, st := n, st
		m.f.Steps(func() (await.Group, error) {
			m.add("step", n+1)
			if s.Flux {
				for i := 0; i < st.Items; i++ {
					m.f.Next(fmt.Sprint(n + 1))
				}
			}
			value := func() (await.Group, error) {
				if s.Flux {
					return m.f.Complete()
				}
				return m.f.Success(fmt.Sprint(n + 1))
			}
			switch st.Fin {
			case "end":
				return m.f.End()
			case "err":
				return nil, fmt.Errorf("e%d", n+1)
			case "ferr":
				return m.f.Error(fmt.Errorf("e%d", n+1))
			case "value":
				return value()
			case "both":
				_, _ = value()
				return nil, fmt.Errorf("e%d", n+1)
			}
			return await.All(groups[n]...)
		})
	}
	return m
}

func (m *flowMachine) seen() [][]any { return m.take() }

func (m *flowMachine) do(a action) {
	if a.A == "start" {
		end := func(err error) { m.add("error", number("e", err.Error())) }
		fin := func(s rx.SignalType) { m.add("finally", signal(s)) }
		if m.s.Flux {
			m.f.Flux().Subscribe(flux.Subscribe[string]{
				OnNext:     func(v string) { m.add("item", number("", v)) },
				OnComplete: func() { m.add("complete") },
				OnError:    end,
				Finally:    fin,
			})
		} else {
			m.f.Mono().Subscribe(mono.Subscribe[string]{
				OnSuccess: func(v string) { m.add("success", number("", v)) },
				OnError:   end,
				Finally:   fin,
			})
		}
		return
	}
	if len(a.Which) == 1 {
		m.late[a.Which[0]]()
		return
	}
	var wg sync.WaitGroup
	var ready atomic.Int32
	for _, w := range a.Which {
		wg.Add(1)
		go func(f func()) {
			defer wg.Done()
			// Start at the same moment.
			ready.Add(1)
			for n := 0; int(ready.Load()) < len(a.Which) && n < 100000; n++ {
			}
			f()
		}(m.late[w])
	}
	wg.Wait()
}
