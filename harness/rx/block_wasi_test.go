//go:build wasi

package rxx

import (
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

const wasi = true

func (m *fluxMachine) block(flux.Subscribe[string]) { panic("no blocking here") }

func blockMono[T any](mono.Mono[T], func(T, error)) { panic("no blocking here") }
