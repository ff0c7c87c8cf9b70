// Package ops replays cases of the Ops specification on the real code.
package ops

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"testing"
	"unsafe"

	"github.com/nanobus/iota/go/internal/verifx/relay"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/customsections"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

type Rope [][2]int

func block(x int) byte {
	return byte(uint32(x+1) * 2654435761 >> 24)
}

func (r Rope) bytes() []byte {
	b := []byte{}
	for _, s := range r {
		if s[0] == 0 {
			b = append(b, byte(s[1]))
			continue
		}
		for i := 0; i < s[0]; i++ {
			b = append(b, block(s[1]+i))
		}
	}
	return b
}

type entry struct {
	T, D   int
	I      [2]int
	NS, Op Rope
}

func (e entry) real() operations.Operation {
	return operations.Operation{Type: operations.RequestType(e.T), Direction: operations.Direction(e.D),
		Index: uint32(e.I[0])<<16 | uint32(e.I[1]), Namespace: string(e.NS.bytes()), Operation: string(e.Op.bytes())}
}

func table(es []entry) operations.Table {
	t := make(operations.Table, len(es))
	for i, e := range es {
		t[i] = e.real()
	}
	return t
}

type act struct {
	A      string
	T      int
	I      [2]int
	NS, Op Rope
}

type sec struct {
	ID         int
	Name, Body Rope
}

type scenario struct {
	ID    string
	Op    string
	Ops   []entry
	Q     []int
	Tail  []int
	P     []act
	Names []Rope
	Cut   int
	Want  json.RawMessage
}

func must(err error) {
	if err != nil {
		fmt.Println("harness:", err)
		os.Exit(3)
	}
}

func diff(what string, got, want operations.Table) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s: %d operations instead of %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("%s: operation %d is %.200q instead of %.200q", what, i, fmt.Sprint(got[i]), fmt.Sprint(want[i]))
		}
	}
	return ""
}

func sorted(t operations.Table) operations.Table {
	t = append(operations.Table(nil), t...)
	sort.Slice(t, func(i, j int) bool {
		a, b := t[i], t[j]
		if a.Direction != b.Direction {
			return a.Direction < b.Direction
		}
		if a.Type != b.Type {
			return a.Type < b.Type
		}
		return a.Index < b.Index
	})
	return t
}

func run(s *scenario) string {
	switch s.Op {
	case "table":
		return runTable(s)
	case "module":
		return runModule(s)
	case "embed":
		return runEmbed(s)
	case "parse":
		return runParse(s)
	case "file":
		return runFile(s)
	case "history":
		return runHistory(s)
	}
	return "unknown case"
}

func wantBytes(s *scenario) []byte {
	var w struct{ Q Rope }
	must(json.Unmarshal(s.Want, &w))
	return w.Q.bytes()
}

func runTable(s *scenario) string {
	want := wantBytes(s)
	t := table(s.Ops)
	got := t.ToBytes()
	if !bytes.Equal(got, want) {
		return fmt.Sprintf("published as %d bytes %.300x instead of %d bytes %.300x", len(got), got, len(want), want)
	}
	back, err := operations.FromBytes(want)
	if err != nil {
		return "published table is not read: " + err.Error()
	}
	// What was read does not depend on the bytes any more.
	for i := range want {
		want[i] ^= 0x55
	}
	return diff("read back", back, t)
}

func instance(table []byte) (*host.Instance, error) {
	ctx := context.Background()
	f, restore, err := relay.Open(os.Getenv("VERIF_TMP"))
	must(err)
	defer f.Close()
	defer restore()
	h, err := host.New(ctx)
	must(err)
	m, err := h.Compile(ctx, relay.Module(table, false))
	must(err)
	return m.Instantiate(ctx)
}

func runModule(s *scenario) string {
	inst, err := instance(wantBytes(s))
	if err != nil {
		return "module is not loaded: " + err.Error()
	}
	defer inst.Close()
	return diff("operations of the instance", inst.Operations(), table(s.Ops))
}

func runParse(s *scenario) string {
	var w struct {
		S   string
		Ops []entry
	}
	must(json.Unmarshal(s.Want, &w))
	q := make([]byte, len(s.Q))
	for i, b := range s.Q {
		q[i] = byte(b)
	}
	judge := func(what string, t operations.Table, err error) string {
		if w.S == "bad" {
			if err == nil {
				return fmt.Sprintf("%s: no error, %d operations", what, len(t))
			}
			return ""
		}
		if err != nil {
			if w.S == "free" {
				return ""
			}
			return what + ": " + err.Error()
		}
		return diff(what, t, table(w.Ops))
	}
	exact := append(make([]byte, 0, len(q)), q...)
	t, err := operations.FromBytes(exact[:len(exact):len(exact)])
	if why := judge("FromBytes", t, err); why != "" {
		return why
	}
	if len(s.ID)%2 == 0 {
		return ""
	}
	inst, err := instance(q)
	if err == nil {
		t = inst.Operations()
		inst.Close()
	}
	return judge("host instance", t, err)
}

func runEmbed(s *scenario) string {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "embed")
	must(err)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "m.wasm")
	must(os.WriteFile(fn, relay.Module(wantBytes(s), false), 0o600))
	want := table(s.Ops)
	for i := 0; i < 2; i++ {
		cmd := exec.Command(os.Getenv("VERIF_OPSCMD"), fn)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "NO_COLOR=1")
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Sprintf("wasmrs-ops: %v: %.400s", err, out)
		}
		for _, o := range want {
			row := false
			for _, l := range strings.Split(string(out), "\n") {
				if f := strings.Fields(l); len(f) == 5 && f[0] == o.Namespace && f[1] == o.Operation && f[2] == o.Direction.String() &&
					f[3] == o.Type.String() && f[4] == fmt.Sprint(o.Index) {
					row = true
				}
			}
			if !row {
				return fmt.Sprintf("wasmrs-ops does not list %v: %.1000s", o, out)
			}
		}
		file, err := os.ReadFile(fn)
		must(err)
		secs, err := customsections.Read(file, "wasmrs_ops")
		if err != nil || secs["wasmrs_ops"] == nil {
			return fmt.Sprintf("no section after wasmrs-ops: %v", err)
		}
		t, err := operations.FromBytes(secs["wasmrs_ops"].Data)
		if err != nil {
			return "section after wasmrs-ops: " + err.Error()
		}
		if why := diff("section", t, want); why != "" {
			return why
		}
	}
	file, err := os.ReadFile(fn)
	must(err)
	ctx := context.Background()
	h, err := host.New(ctx)
	must(err)
	m, err := h.Compile(ctx, file)
	if err != nil {
		return "module after wasmrs-ops: " + err.Error()
	}
	inst, err := m.Instantiate(ctx)
	if err != nil {
		return "module after wasmrs-ops: " + err.Error()
	}
	defer inst.Close()
	return diff("module after wasmrs-ops", inst.Operations(), want)
}

func runFile(s *scenario) string {
	var w struct {
		Q     Rope
		Found []struct {
			Has  bool
			Body Rope
		}
	}
	must(json.Unmarshal(s.Want, &w))
	file := w.Q.bytes()
	names := []string{}
	for _, n := range s.Names {
		names = append(names, string(n.bytes()))
	}
	if s.Cut >= 0 {
		// Anything but a crash will do, and never sections that are not whole.
		if s.Cut < len(file) {
			file = file[:s.Cut:s.Cut]
		}
	}
	secs, err := customsections.Read(file, names...)
	if err != nil {
		if s.Cut >= 0 {
			return ""
		}
		return "file is not read: " + err.Error()
	}
	for i, n := range names {
		x := secs[n]
		if x == nil {
			if w.Found[i].Has && s.Cut < 0 {
				return fmt.Sprintf("section %q is not found", n)
			}
			continue
		}
		if !w.Found[i].Has {
			return fmt.Sprintf("section %q is not in the file", n)
		}
		if b := w.Found[i].Body.bytes(); !bytes.Equal(x.Data, b) {
			return fmt.Sprintf("section %q has %d bytes %.60x instead of %d bytes %.60x", n, len(x.Data), x.Data, len(b), b)
		}
	}
	for n := range secs {
		wanted := false
		for _, m := range names {
			wanted = wanted || m == n
		}
		if !wanted {
			return fmt.Sprintf("section %q was not asked for", n)
		}
	}
	return ""
}

// runHistory needs a process of its own: registrations are global.
func runHistory(s *scenario) string {
	b, err := json.Marshal(s)
	must(err)
	cmd := exec.Command(os.Args[0], "-test.run", "^TestHistory$")
	cmd.Stdin = bytes.NewReader(b)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err = cmd.Run()
	if l := strings.SplitN(out.String(), "\n", 2)[0]; err == nil && strings.HasPrefix(l, "result:") {
		return strings.TrimPrefix(l, "result:")
	}
	return fmt.Sprintf("crash: %.600s %.600s", out.String(), errs.String())
}

func TestHistory(t *testing.T) {
	var s scenario
	if json.NewDecoder(os.Stdin).Decode(&s) != nil {
		return
	}
	why := history(&s)
	fmt.Println("result:" + strings.ReplaceAll(why, "\n", " "))
}

// own reads a published table without the code under test.
func own(b []byte) (t operations.Table, ok bool) {
	if len(b) < 10 || string(b[:6]) != "\x00wrs\x00\x01" {
		return nil, false
	}
	n := binary.BigEndian.Uint32(b[6:])
	b = b[10:]
	name := func() (s string, ok bool) {
		if len(b) < 2 || len(b)-2 < int(binary.BigEndian.Uint16(b)) {
			return "", false
		}
		e := 2 + int(binary.BigEndian.Uint16(b))
		s, b = string(b[2:e]), b[e:]
		return s, true
	}
	for ; n > 0; n-- {
		if len(b) < 6 {
			return nil, false
		}
		o := operations.Operation{Type: operations.RequestType(b[0]), Direction: operations.Direction(b[1]), Index: binary.BigEndian.Uint32(b[2:])}
		b = b[6:]
		var a, c, d bool
		o.Namespace, a = name()
		o.Operation, c = name()
		_, d = name()
		if !a || !c || !d {
			return nil, false
		}
		t = append(t, o)
	}
	return t, len(b) == 0
}

func history(s *scenario) string {
	// The guest hands over a bare address, as one does to a wasm host.
	debug.SetGCPercent(-1)
	ctx := context.Background()
	var outs []json.RawMessage
	must(json.Unmarshal(s.Want, &outs))
	n := 0
	called := 0
	for k, a := range s.P {
		ns, op := string(a.NS.bytes()), string(a.Op.bytes())
		num := 0
		if a.A != "publish" {
			must(json.Unmarshal(outs[k], &num))
		}
		switch a.A {
		case "export":
			n++
			me := n
			switch a.T {
			case 1:
				invoke.ExportRequestResponse(ns, op, func(context.Context, payload.Payload) mono.Mono[payload.Payload] { called = me; return nil })
			case 2:
				invoke.ExportFireAndForget(ns, op, func(context.Context, payload.Payload) { called = me })
			case 3:
				invoke.ExportRequestStream(ns, op, func(context.Context, payload.Payload) flux.Flux[payload.Payload] { called = me; return nil })
			case 4:
				invoke.ExportRequestChannel(ns, op, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
					called = me
					return nil
				})
			}
		case "import":
			f := map[int]func(string, string) uint32{1: invoke.ImportRequestResponse, 2: invoke.ImportFireAndForget,
				3: invoke.ImportRequestStream, 4: invoke.ImportRequestChannel}[a.T]
			if got := f(ns, op); got != uint32(num) {
				return fmt.Sprintf("call %d: import has index %d instead of %d", k, got, num)
			}
		case "get":
			i := uint32(a.I[0])<<16 | uint32(a.I[1])
			called = 0
			switch a.T {
			case 1:
				if h := invoke.GetRequestResponseHandler(i); h != nil {
					h(ctx, payload.New(nil))
				}
			case 2:
				if h := invoke.GetFireAndForgetHandler(i); h != nil {
					h(ctx, payload.New(nil))
				}
			case 3:
				if h := invoke.GetRequestStreamHandler(i); h != nil {
					h(ctx, payload.New(nil))
				}
			case 4:
				if h := invoke.GetRequestChannelHandler(i); h != nil {
					h(ctx, payload.New(nil), nil)
				}
			}
			if called != num {
				return fmt.Sprintf("call %d: index %d of type %d leads to handler %d instead of %d", k, i, a.T, called, num)
			}
		case "publish":
			var es []entry
			must(json.Unmarshal(outs[k], &es))
			want := sorted(table(es))
			var pub []byte
			times := 0
			guest.VerifOpList = func(ptr uintptr, size uint32) {
				times++
				pub = append([]byte(nil), unsafe.Slice((*byte)(unsafe.Pointer(ptr)), size)...)
			}
			guest.OperationList()
			if times != 1 {
				return fmt.Sprintf("call %d: published %d times", k, times)
			}
			t, ok := own(pub)
			if !ok {
				return fmt.Sprintf("call %d: published bytes are no table: %.300x", k, pub)
			}
			if why := diff(fmt.Sprintf("call %d: published", k), sorted(t), want); why != "" {
				return why
			}
			back, err := operations.FromBytes(pub)
			if err != nil {
				return fmt.Sprintf("call %d: published table is not read: %v", k, err)
			}
			if why := diff(fmt.Sprintf("call %d: published table as read", k), back, t); why != "" {
				return why
			}
			all := invoke.GetOperations()
			var l operations.Table
			for d, h := range map[int]invoke.Handlers{1: all.Exported, 2: all.Imported} {
				for ty, q := range map[int][]invoke.HandlerInfo{1: h.RequestResponse, 2: h.FireAndForget, 3: h.RequestStream, 4: h.RequestChannel} {
					for i, x := range q {
						l = append(l, operations.Operation{Type: operations.RequestType(ty), Direction: operations.Direction(d),
							Index: uint32(i), Namespace: x.Namespace, Operation: x.Operation})
					}
				}
			}
			if why := diff(fmt.Sprintf("call %d: GetOperations", k), sorted(l), want); why != "" {
				return why
			}
		}
	}
	return ""
}

func TestReplay(t *testing.T) {
	lim := syscall.Rlimit{Cur: 20 << 30, Max: 20 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	in, err := os.Open(os.Getenv("VERIF_IN"))
	must(err)
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o600)
	must(err)
	enc := json.NewEncoder(out)
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var s scenario
		must(json.Unmarshal(sc.Bytes(), &s))
		_ = enc.Encode(map[string]any{"start": s.ID})
		why := run(&s)
		_ = enc.Encode(map[string]any{"id": s.ID, "ok": why == "", "why": why})
	}
	_ = enc.Encode(map[string]any{"end": true})
}
