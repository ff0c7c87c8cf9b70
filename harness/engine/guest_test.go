//go:build wasi

package engine

import (
	"testing"
	"unsafe"

	"github.com/nanobus/iota/go/internal/verifx/wire"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
)

func blockMono(mono.Mono[payload.Payload]) (payload.Payload, error) { panic("blocks") }
func blockFlux(flux.Flux[payload.Payload], flux.Subscribe[payload.Payload]) error {
	panic("blocks")
}

const bufferSize = 16 * 1024

type guestEnd struct{ toGuest, toHost []byte }

func (g *guestEnd) init(guestPtr, hostPtr uintptr) {
	g.toGuest = unsafe.Slice((*byte)(unsafe.Pointer(guestPtr)), bufferSize)
	g.toHost = unsafe.Slice((*byte)(unsafe.Pointer(hostPtr)), bufferSize)
}

func (g *guestEnd) sent(n uint32) {
	b := append([]byte(nil), g.toHost[:n]...)
	// The buffer is the host's to reuse.
	for i := range g.toHost[:n] {
		g.toHost[i] = 0xEE
	}
	chunks, rest := wire.Split(b)
	for _, c := range chunks {
		sentFrame(c)
	}
	if len(rest) > 0 {
		sentRest()
	}
}

func (g *guestEnd) caller() invoke.Caller { return guest.HostInvoker }
func (g *guestEnd) feed(b []byte) {
	copy(g.toGuest, b)
	guest.GuestSend(uint32(len(b)))
	for i := range b {
		g.toGuest[i] = 0xDD
	}
}
func (g *guestEnd) drain()          {}
func (g *guestEnd) close(int)       { panic("a guest has no end") }
func (g *guestEnd) firstID() uint32 { return 1 }
func (g *guestEnd) peerID() uint32  { return 2 }
func (g *guestEnd) metadata(t string) int {
	if t == "RR" || t == "FNF" {
		return 8
	}
	return 0
}
func (g *guestEnd) unknown(t string) uint32 { return registered[t] }

var big [20000]byte

func (g *guestEnd) large() []byte { return big[:] }
func (g *guestEnd) release()      {}

func TestReplay(t *testing.T) {
	for k := 0; k < 2; k++ {
		invoke.ExportRequestResponse("v", "rr", onRR(k))
		invoke.ExportRequestStream("v", "rs", onRS(k))
		invoke.ExportRequestChannel("v", "rc", onRC(k))
	}
	for k := 0; k < 3; k++ {
		invoke.ExportFireAndForget("v", "fnf", onFNF(k))
	}
	g := &guestEnd{}
	guest.VerifInitBuffers = g.init
	guest.VerifHostSend = g.sent
	guest.Init(bufferSize, bufferSize, 1<<20)
	files(func(sc *scenario) result {
		return play(sc, g, false, func(f func()) bool { f(); return true })
	})
}

func TestHostile(t *testing.T) {
	for k := 0; k < 2; k++ {
		invoke.ExportRequestResponse("h", "rr", hostileRR(k))
		invoke.ExportRequestStream("h", "rs", hostileRS(k))
		invoke.ExportRequestChannel("h", "rc", hostileRC(k))
	}
	for k := 0; k < 3; k++ {
		invoke.ExportFireAndForget("h", "fnf", hostileFNF(k))
	}
	g := &guestEnd{}
	guest.VerifInitBuffers = g.init
	guest.VerifHostSend = g.sent
	guest.Init(bufferSize, bufferSize, 1<<20)
	hostileLine(func(j *junk) any {
		return hostile(j, g, func(f func()) bool { f(); return true }, func() bool { return false })
	})
}
