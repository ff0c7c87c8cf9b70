// Package verifx runs the real uuid package.
package verifx

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/nanobus/iota/go/types/uuid"
)

type ints []int

func raw(b ints) []byte {
	out := make([]byte, len(b))
	for i, x := range b {
		out[i] = byte(x)
	}
	return out
}

func list(b []byte) ints {
	out := make(ints, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

type fields struct {
	Version int    `json:"version"`
	Variant string `json:"variant"`
	Time    ints   `json:"time"`
	Seq     int    `json:"seq"`
}

type parsed struct {
	OK     bool `json:"ok"`
	Length bool `json:"length"`
	Bytes  ints `json:"bytes"`
}

type want struct {
	Print  ints   `json:"print"`
	Urn    ints   `json:"urn"`
	Fields fields `json:"fields"`
	Parse  parsed `json:"parse"`
}

type step struct {
	Op string `json:"op"`
	N  int64  `json:"n"`
	S  []step `json:"s"`
}

type scenario struct {
	ID    string `json:"id"`
	Op    string `json:"op"`
	Bytes ints   `json:"bytes"`
	Text  ints   `json:"text"`
	Want  want   `json:"want"`
	Seed  int64  `json:"seed"`
	Procs int    `json:"procs"`
	Each  int    `json:"each"`
	Pool  bool   `json:"pool"`
	Real  bool   `json:"real"`
	Steps []step `json:"steps"`
}

type event struct {
	Op string `json:"op,omitempty"`
	// Drawing.
	OK      bool   `json:"ok"`
	At      int    `json:"at"`
	Version int    `json:"version"`
	Variant string `json:"variant"`
	Failed  bool   `json:"failed"`
	// Time.
	Time  ints `json:"time"`
	Seq   int  `json:"seq"`
	Sec   ints `json:"sec"`
	Units ints `json:"units"`
	Tick  int  `json:"tick"`
}

// le is a number's bytes, least significant first.
func le(n int64) (neg bool, b ints) {
	u := uint64(n)
	if n < 0 {
		neg, u = true, uint64(-n)
	}
	b = ints{}
	for ; u > 0; u >>= 8 {
		b = append(b, int(u&255))
	}
	return
}

func be(n int64) ints {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(n))
	return list(b[:])
}

type unixRec struct {
	Kind  string `json:"kind"`
	Time  ints   `json:"time"`
	Neg   bool   `json:"neg"`
	Sec   ints   `json:"sec"`
	Uneg  bool   `json:"uneg"`
	Units ints   `json:"units"`
}

// Text and fields

func printing(s *scenario) (string, any) {
	var u uuid.UUID
	copy(u[:], raw(s.Bytes))
	w := s.Want
	if g := u.String(); g != string(raw(w.Print)) {
		return "printed as " + g, nil
	}
	if g, err := u.MarshalText(); err != nil || string(g) != string(raw(w.Print)) {
		return fmt.Sprintf("marshalled as %q, %v", g, err), nil
	}
	if g := u.URN(); g != string(raw(w.Urn)) {
		return "URN " + g, nil
	}
	b, err := u.MarshalBinary()
	if err != nil || !bytes.Equal(b, raw(s.Bytes)) {
		return fmt.Sprintf("marshalled as %v, %v", b, err), nil
	}
	b[0] ^= 1
	if u.String() != string(raw(w.Print)) {
		return "the marshalled bytes are the identifier's own", nil
	}
	if int(u.Version()) != w.Fields.Version || u.Version().String() != fmt.Sprintf("VERSION_%d", w.Fields.Version) {
		return fmt.Sprintf("version %d %v", u.Version(), u.Version()), nil
	}
	if u.Variant().String() != w.Fields.Variant {
		return "variant " + u.Variant().String(), nil
	}
	if fmt.Sprint(be(int64(u.Time()))) != fmt.Sprint(w.Fields.Time) {
		return fmt.Sprintf("time %x", int64(u.Time())), nil
	}
	if u.ClockSequence() != w.Fields.Seq {
		return fmt.Sprintf("clock sequence %d", u.ClockSequence()), nil
	}
	sec, nsec := u.Time().UnixTime()
	if nsec%100 != 0 || nsec <= -1e9 || nsec >= 1e9 {
		return fmt.Sprintf("%d nanoseconds", nsec), nil
	}
	r := unixRec{Kind: "unix", Time: w.Fields.Time}
	r.Neg, r.Sec = le(sec)
	r.Uneg, r.Units = le(nsec / 100)
	for _, form := range []string{string(raw(w.Print)), string(raw(w.Urn)), "{" + string(raw(w.Print)) + "}"} {
		if v, err := uuid.Parse(form); err != nil || v != u {
			return fmt.Sprintf("%s is read as %v, %v", form, v, err), nil
		}
	}
	return "", r
}

func judgeParse(what string, v uuid.UUID, err error, w parsed) string {
	if w.OK != (err == nil) {
		return fmt.Sprintf("%s: error %v", what, err)
	}
	if w.OK && !bytes.Equal(v[:], raw(w.Bytes)) {
		return fmt.Sprintf("%s gives %v", what, v)
	}
	return ""
}

func parsing(s *scenario) string {
	text, w := raw(s.Text), s.Want.Parse
	if s.Op == "binary" {
		in := append([]byte{}, text...)
		v, err := uuid.FromBytes(in)
		for i := range in {
			in[i] ^= 0xff
		}
		if why := judgeParse("FromBytes", v, err, w); why != "" {
			return why
		}
		old := uuid.UUID{1, 2, 3}
		u := old
		err = u.UnmarshalBinary(text)
		if err != nil && u != old {
			return "UnmarshalBinary fails and changes the identifier"
		}
		return judgeParse("UnmarshalBinary", u, err, w)
	}
	v, err := uuid.Parse(string(text))
	if why := judgeParse("Parse", v, err, w); why != "" {
		return why
	}
	if uuid.IsInvalidLengthError(err) != w.Length {
		return fmt.Sprintf("Parse of %d characters: %v", len(text), err)
	}
	in := append([]byte{}, text...)
	v, err = uuid.ParseBytes(in)
	if why := judgeParse("ParseBytes", v, err, w); why != "" {
		return why
	}
	if uuid.IsInvalidLengthError(err) != w.Length {
		return fmt.Sprintf("ParseBytes of %d characters: %v", len(text), err)
	}
	if !bytes.Equal(in, text) {
		return "ParseBytes changes its input"
	}
	old := uuid.UUID{9, 8, 7}
	u := old
	err = u.UnmarshalText(text)
	if err != nil && u != old {
		return "UnmarshalText fails and changes the identifier"
	}
	if why := judgeParse("UnmarshalText", u, err, w); why != "" {
		return why
	}
	var must uuid.UUID
	panicked := func() (p any) {
		defer func() { p = recover() }()
		must = uuid.MustParse(string(text))
		return nil
	}()
	if (panicked == nil) != w.OK || (w.OK && must != v) {
		return fmt.Sprintf("MustParse: panic %v, %v", panicked, must)
	}
	return ""
}

// Random

var errSource = errors.New("no more randomness")

// source delivers one stream of bytes for the whole process, so that bytes are known wherever they turn up.
type source struct {
	mu     sync.Mutex
	rng    *rand.Rand
	all    []byte
	index  map[[6]byte][]int
	done   int
	failed bool
	mode   string
	n      int
}

var src = &source{rng: rand.New(rand.NewSource(42)), index: map[[6]byte][]int{}}

func (s *source) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := len(p)
	var err error
	switch s.mode {
	case "short":
		if n > s.n {
			n = s.n
		}
		n = 1 + s.rng.Intn(n)
	case "empty":
		if s.rng.Intn(2) == 0 {
			return 0, nil
		}
	case "fail":
		// n bytes are left.
		if n > s.n {
			n, err = s.n, errSource
		}
		s.n -= n
	case "last":
		// As much as asked for, and an error along with the last of it.
		err = errSource
	}
	for i := 0; i < n; i++ {
		b := byte(s.rng.Intn(256))
		p[i] = b
		s.all = append(s.all, b)
	}
	if err != nil {
		s.failed = true
	}
	return n, err
}

func (s *source) find(u uuid.UUID) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	for ; s.done+16 <= len(s.all); s.done++ {
		var k [6]byte
		copy(k[:], s.all[s.done:])
		s.index[k] = append(s.index[k], s.done)
	}
	var k [6]byte
	copy(k[:], u[:])
next:
	for _, at := range s.index[k] {
		for i := 0; i < 16; i++ {
			m := byte(0xff)
			if i == 6 {
				m = 0x0f
			} else if i == 8 {
				m = 0x3f
			}
			if (u[i]^s.all[at+i])&m != 0 {
				continue next
			}
		}
		return at
	}
	return -1
}

func (s *source) set(mode string, n int64) {
	s.mu.Lock()
	s.mode, s.n = mode, int(n)
	s.mu.Unlock()
}

func (s *source) clear() {
	s.mu.Lock()
	s.failed = false
	s.mu.Unlock()
}

func (s *source) hasFailed() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.failed
}

func drawn(u uuid.UUID, err error) event {
	e := event{OK: err == nil, At: -1, Failed: src.hasFailed(), Time: ints{}, Sec: ints{}, Units: ints{}}
	if err == nil {
		e.Version, e.Variant = int(u.Version()), u.Variant().String()
		e.At = src.find(u)
	} else if u != (uuid.UUID{}) {
		// What comes with an error must not look like an identifier.
		e.Failed = false
	}
	return e
}

func must(f func() uuid.UUID) (u uuid.UUID, err error) {
	defer func() {
		if p := recover(); p != nil {
			u, err = uuid.UUID{}, fmt.Errorf("%v", p)
		}
	}()
	return f(), nil
}

func drawing(s *scenario) (string, any) {
	uuid.DisableRandPool()
	src.set("", 0)
	src.clear()
	uuid.SetRand(src)
	if s.Pool {
		uuid.EnableRandPool()
	}
	var ev []event
	for _, st := range s.Steps {
		src.clear()
		switch st.Op {
		case "pool":
			if st.N == 0 {
				uuid.DisableRandPool()
			} else {
				uuid.EnableRandPool()
			}
		case "new":
			for i := int64(0); i < st.N; i++ {
				src.clear()
				ev = append(ev, drawn(uuid.NewRandom()))
			}
		case "must":
			ev = append(ev, drawn(must(uuid.New)))
		case "string":
			text := ""
			u, err := must(func() (u uuid.UUID) {
				text = uuid.NewString()
				u, err := uuid.Parse(text)
				if err != nil {
					text = "bad"
				}
				return u
			})
			if text == "bad" || (err == nil && text != u.String()) {
				return "NewString gives " + text, nil
			}
			ev = append(ev, drawn(u, err))
		case "reader":
			ev = append(ev, drawn(uuid.NewRandomFromReader(src)))
		default:
			src.set(st.Op, st.N)
		}
	}
	if s.Procs > 0 {
		src.set("", 0)
		src.clear()
		evs := make([][]uuid.UUID, s.Procs)
		var wg sync.WaitGroup
		var bad sync.Map
		for p := 0; p < s.Procs; p++ {
			p := p
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < s.Each; i++ {
					u, err := uuid.NewRandom()
					if err != nil {
						bad.Store("err", err)
					}
					evs[p] = append(evs[p], u)
				}
			}()
		}
		wg.Wait()
		if e, ok := bad.Load("err"); ok {
			return fmt.Sprint("drawing gives ", e), nil
		}
		for _, us := range evs {
			for _, u := range us {
				ev = append(ev, drawn(u, nil))
			}
		}
	}
	return "", map[string]any{"kind": "draw", "ev": ev}
}

// Time

func clocking(t *testing.T, s *scenario) (why string, rec any) {
	var ev []event
	one := func(st step, inside bool) {
		e := event{Op: st.Op, Time: ints{}, Sec: ints{}, Units: ints{}}
		switch st.Op {
		case "get":
			before := time.Now()
			tm, seq, err := uuid.GetTime()
			after := time.Now()
			if err != nil {
				why = "GetTime: " + err.Error()
				return
			}
			now := before
			if !inside {
				sec, nsec := tm.UnixTime()
				now = time.Unix(sec, nsec)
				if now.Before(before.Truncate(100)) || now.After(after) {
					why = fmt.Sprintf("GetTime gives %v between %v and %v", now, before, after)
					return
				}
			}
			e.Time = be(int64(tm))
			_, e.Sec = le(now.Unix())
			_, e.Units = le(int64(now.Nanosecond() / 100))
			e.Seq = int(seq) & 0x3fff
			if int(seq)&0xc000 != 0x8000 {
				why = fmt.Sprintf("clock sequence %x", seq)
			}
		case "seq":
			e.Seq = uuid.ClockSequence()
		case "set":
			uuid.SetClockSequence(int(st.N))
			e.Seq = int(uint32(st.N)) & 0x3fff
		case "reset":
			uuid.SetClockSequence(-1)
		case "sleep":
			time.Sleep(time.Duration(st.N))
			return
		}
		ev = append(ev, e)
	}
	uuid.SetRand(nil)
	for _, seg := range s.Steps {
		if seg.Op == "bubble" {
			synctest.Test(t, func(t *testing.T) {
				for _, st := range seg.S {
					one(st, true)
				}
			})
		} else {
			for _, st := range seg.S {
				one(st, false)
			}
		}
	}
	return why, map[string]any{"kind": "clock", "ev": ev}
}

func many(t *testing.T, s *scenario) (why string, rec any) {
	all := make([][]event, s.Procs)
	run := func() {
		base, _, _ := uuid.GetTime()
		var wg sync.WaitGroup
		for p := range all {
			p := p
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < s.Each; i++ {
					tm, seq, err := uuid.GetTime()
					if err != nil {
						panic(err)
					}
					all[p] = append(all[p], event{Tick: int(tm - base), Seq: int(seq) & 0x3fff})
					if i%7 == p {
						uuid.ClockSequence()
					}
				}
			}()
		}
		wg.Wait()
	}
	if s.Real {
		run()
	} else {
		synctest.Test(t, func(*testing.T) { run() })
	}
	type small struct {
		Tick int `json:"tick"`
		Seq  int `json:"seq"`
	}
	var ev []small
	for _, a := range all {
		for _, e := range a {
			ev = append(ev, small{e.Tick, e.Seq})
		}
	}
	return "", map[string]any{"kind": "many", "ev": ev}
}

func runOne(t *testing.T, s *scenario) (why string, rec any) {
	defer func() {
		if p := recover(); p != nil {
			why = fmt.Sprint("panic: ", p)
		}
	}()
	switch s.Op {
	case "print":
		return printing(s)
	case "parse", "binary":
		return parsing(s), nil
	case "draw":
		return drawing(s)
	case "clock":
		return clocking(t, s)
	case "many":
		return many(t, s)
	}
	return "unknown", nil
}

func TestReplay(t *testing.T) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Skip("no input")
	}
	defer in.Close()
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	enc := json.NewEncoder(out)
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var s scenario
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			t.Fatal(err)
		}
		enc.Encode(map[string]any{"start": s.ID})
		why, rec := runOne(t, &s)
		enc.Encode(map[string]any{"id": s.ID, "ok": why == "", "why": why, "rec": rec})
	}
	enc.Encode(map[string]any{"end": true})
}
