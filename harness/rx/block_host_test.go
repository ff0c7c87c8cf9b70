//go:build !wasi

package rxx

import (
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

const wasi = false

func (m *fluxMachine) block(sub flux.Subscribe[string]) {
	go func() {
		err := m.f.Block(sub)
		t := ""
		if err != nil {
			t = err.Error()
		}
		m.add("blocked", t)
	}()
}

func blockMono[T any](m mono.Mono[T], done func(T, error)) {
	go func() { done(m.Block()) }()
}
