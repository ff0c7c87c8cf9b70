//go:build wasm || tinygo.wasm || wasi
// +build wasm tinygo.wasm wasi

package guest

// The imports of a wasm guest, replaced by hooks.
var (
	VerifInitBuffers = func(guestBufferPtr uintptr, hostBufferPtr uintptr) {}
	VerifOpList      = func(opPtr uintptr, opSize uint32) {}
	VerifHostSend    = func(nextSendPos uint32) {}
)

func initBuffers(guestBufferPtr uintptr, hostBufferPtr uintptr) {
	VerifInitBuffers(guestBufferPtr, hostBufferPtr)
}
func opList(opPtr uintptr, opSize uint32) { VerifOpList(opPtr, opSize) }
func hostSend(nextSendPos uint32)         { VerifHostSend(nextSendPos) }
