package rxx

import (
	"errors"
	"fmt"
	"strings"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/mono"
)

type monoMachine struct {
	log
	s       *scenario
	m       mono.Mono[string]
	proc    mono.Processor[string]
	sink    mono.Sink[string]
	script  []string
	settled int
	notes   int
}

func newMono(s *scenario) machine {
	m := &monoMachine{s: s}
	switch s.Kind {
	case "just":
		m.m = mono.Just("100")
	case "error":
		m.m = mono.Error[string](errors.New("e100"))
	case "processor":
		m.proc = mono.NewProcessor[string]()
		m.m = m.proc
	default:
		m.m = mono.Create(func(sink mono.Sink[string]) {
			m.add("run")
			m.sink = sink
			for _, how := range m.script {
				m.settle(how)
			}
		})
	}
	if s.Map != "none" {
		m.m = mono.Map(m.m, func(v string) (string, error) {
			if s.Map == "fail" {
				return "wrong", errors.New("e0")
			}
			return "m" + v, nil
		})
	}
	return m
}

func (m *monoMachine) seen() [][]any { return m.take() }

func (m *monoMachine) settle(how string) {
	m.settled++
	var sink mono.Sink[string] = m.sink
	if m.proc != nil {
		sink = m.proc
	}
	if sink == nil {
		return
	}
	if how == "success" {
		sink.Success(fmt.Sprint(m.settled))
	} else {
		sink.Error(fmt.Errorf("e%d", m.settled))
	}
}

func number(prefix, v string) int {
	k := -1
	if strings.HasPrefix(v, prefix) {
		fmt.Sscan(strings.TrimPrefix(v, prefix), &k)
	}
	return k
}

func (m *monoMachine) value(v string) int {
	if m.s.Map == "ok" {
		return number("m", v)
	}
	return number("", v)
}

func (m *monoMachine) outcome(what string) func(string, error) {
	return func(v string, err error) {
		if err != nil {
			m.add(what, "error", number("e", err.Error()))
		} else {
			m.add(what, "success", m.value(v))
		}
	}
}

func (m *monoMachine) do(a action) {
	switch a.A {
	case "subscribe":
		m.script = a.Script
		m.m.Subscribe(mono.Subscribe[string]{
			OnSuccess: func(v string) { m.add("success", m.value(v)) },
			OnError:   func(err error) { m.add("error", number("e", err.Error())) },
			Finally:   func(s rx.SignalType) { m.add("finally", signal(s)) },
		})
	case "async":
		m.script = a.Script
		m.m.Async()
	case "block":
		m.script = a.Script
		blockMono(m.m, m.outcome("blocked"))
	case "notify":
		m.notes++
		k := m.notes
		m.m.Notify(func(s rx.SignalType) { m.add("note", k, signal(s)) })
	case "get":
		m.outcome("got")(m.m.Get())
	case "settle":
		m.settle(a.How)
	}
}

func (m *monoMachine) release() {
	m.settle("success")
}
