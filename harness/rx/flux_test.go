package rxx

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"sync/atomic"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

type fluxMachine struct {
	log
	s     *scenario
	f     flux.Flux[string] // what the subscriber has
	base  flux.Flux[string] // the flux below the transformations
	proc  flux.Processor[string]
	sink  flux.Sink[string]
	sub   rx.Subscription
	set   bool
	items int
	notes int
	react string
	plan  []string
	fin   string
	over  atomic.Bool

	script []string
}

func newFlux(s *scenario) machine {
	m := &fluxMachine{s: s, plan: s.Plan}
	switch {
	case s.What == "slice":
		items := make([]string, s.Left)
		for i := range items {
			items[i] = fmt.Sprint(i + 1)
		}
		if s.Source == "from" {
			m.base = flux.FromSlice(items)
		} else {
			m.base = flux.Create(func(sink flux.Sink[string]) {
				m.sink = sink
				sink.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(sink, items), Cancel: func() {}})
			})
		}
	case s.Kind == "error" || s.Kind == "maperror":
		m.base = flux.Error[string](errors.New("constant"))
	case s.Source == "processor":
		m.proc = flux.NewProcessor[string]()
		m.base = m.proc
	default:
		m.base = flux.Create(func(sink flux.Sink[string]) {
			m.add("run")
			m.sink = sink
			if m.set {
				sink.OnSubscribe(m.onSubscribe())
			}
			for _, x := range m.script {
				m.source(x, "")
			}
		})
	}
	m.f = m.base
	tx := func(fail, tag string) rx.Transform[string, string] {
		return func(v string) (string, error) {
			if m.react == fail {
				return "wrong", errors.New("broken")
			}
			return tag + v, nil
		}
	}
	switch s.Kind {
	case "map":
		m.f = flux.Map(m.base, tx("fail", "m"))
	case "map2":
		m.f = flux.Map(flux.Map(m.base, tx("fail", "m")), tx("fail2", "n"))
	case "maperror":
		m.f = flux.Map(m.base, tx("fail", "m"))
	}
	return m
}

func (m *fluxMachine) seen() [][]any { return m.take() }

func (m *fluxMachine) onSubscribe() flux.OnSubscribe {
	return flux.OnSubscribe{
		Request: func(n int) { m.add("srcreq", amount(n)) },
		Cancel:  func() { m.add("srccancel") },
	}
}

// source is an event of the source.
func (m *fluxMachine) source(x, react string) {
	var sink flux.Sink[string] = m.sink
	if m.proc != nil {
		sink = m.proc
	}
	switch x {
	case "sub":
		m.set = true
		if sink != nil {
			sink.OnSubscribe(m.onSubscribe())
		}
	case "item":
		m.items++
		m.react = react
		if sink != nil {
			sink.Next(fmt.Sprint(m.items))
		}
		m.react = ""
	case "complete":
		m.fin = react
		if sink != nil {
			sink.Complete()
		}
		m.fin = ""
	case "error":
		m.fin = react
		if sink != nil {
			sink.Error(errE)
		}
		m.fin = ""
	}
}

func (m *fluxMachine) notify() {
	m.notes++
	k := m.notes
	m.f.Notify(func(s rx.SignalType) { m.add("note", k, signal(s)) })
}

func (m *fluxMachine) subscription() rx.Subscription {
	if m.sub != nil {
		return m.sub
	}
	return m.f.Subscription()
}

func (m *fluxMachine) cb() flux.Subscribe[string] {
	tag := map[string]string{"map": "m", "map2": "nm"}[m.s.Kind]
	n := 0
	s := flux.Subscribe[string]{
		OnNext: func(v string) {
			i := -1
			if strings.HasPrefix(v, tag) {
				fmt.Sscan(strings.TrimPrefix(v, tag), &i)
			}
			m.add("next", i)
			react := m.react
			if m.plan != nil {
				react = ""
				if n < len(m.plan) {
					react = m.plan[n]
				}
				n++
			}
			switch react {
			case "req":
				m.subscription().Request(1)
			case "cancel":
				m.subscription().Cancel()
			case "end":
				m.source("complete", "")
			case "err":
				m.source("error", "")
			}
		},
		OnComplete: func() {
			m.add("complete")
			if m.fin == "cancel" {
				m.subscription().Cancel()
			}
		},
		OnError: func(err error) {
			m.add("error", err.Error())
			if m.fin == "cancel" {
				m.subscription().Cancel()
			}
		},
		Finally: func(s rx.SignalType) {
			m.over.Store(true)
			m.add("finally", signal(s))
			if m.fin == "notify" {
				m.notify()
			}
			if m.fin == "cancel" {
				m.subscription().Cancel()
			}
		},
	}
	switch m.s.Mode {
	case "manual", "each":
		s.OnRequest = func(sub rx.Subscription) {
			m.sub = sub
			if !m.over.Load() {
				m.add("onreq")
			}
			if m.s.Mode == "each" {
				sub.Request(1)
			}
		}
	case "none":
		s.NoRequest = true
	}
	return s
}

func (m *fluxMachine) do(a action) {
	switch a.A {
	case "subscribe":
		m.script = a.Script
		switch a.Via {
		case "sub":
			m.f.Subscribe(m.cb())
		case "async":
			m.f.Async()
		case "block":
			m.block(m.cb())
		}
	case "set":
		m.source("sub", "")
	case "item", "complete", "error":
		m.source(a.A, a.React)
	case "request":
		m.subscription().Request(a.N)
	case "requestmax":
		m.subscription().Request(math.MaxInt32)
	case "cancel":
		m.subscription().Cancel()
	case "notify":
		m.notify()
	case "async":
		m.f.Async()
	case "block":
		m.block(m.cb())
	}
}

// release ends what is still waiting.
func (m *fluxMachine) release() {
	if m.s.What == "flux" {
		m.source("complete", "")
	}
	if m.subscribed() {
		m.f.Subscription().Cancel()
	}
}

func (m *fluxMachine) subscribed() bool {
	for _, st := range m.s.Steps {
		if st.A.A == "subscribe" {
			return true
		}
	}
	return false
}
