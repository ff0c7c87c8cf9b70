// Package codec replays cases of the Frames specification on the real code.
package codec

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"testing"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/u24"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// Rope is a byte string of the specification.
type Rope [][2]int

func block(x int) byte {
	return byte(uint32(x+1) * 2654435761 >> 24)
}

func (r Rope) bytes() []byte {
	n := 0
	for _, s := range r {
		if s[0] == 0 {
			n++
		} else {
			n += s[0]
		}
	}
	b := make([]byte, 0, n)
	for _, s := range r {
		if s[0] == 0 {
			b = append(b, byte(s[1]))
			continue
		}
		for i := 0; i < s[0]; i++ {
			b = append(b, block(s[1]+i))
		}
	}
	return b
}

type Frame struct {
	Type int    `json:"type"`
	ID   [2]int `json:"id"`
	Next bool   `json:"next"`
	Comp bool   `json:"comp"`
	Foll bool   `json:"foll"`
	N    [2]int `json:"n"`
	Md   Rope   `json:"md"`
	Data Rope   `json:"data"`
}

func num(l [2]int) uint32 { return uint32(l[0])<<16 | uint32(l[1]) }
func limbs(n uint32) [2]int {
	return [2]int{int(n >> 16), int(n & 0xffff)}
}

func (f Frame) real() frames.Frame {
	id := num(f.ID)
	switch t := frames.FrameType(f.Type); t {
	case frames.FrameTypeRequestN:
		return &frames.RequestN{StreamID: id, N: num(f.N)}
	case frames.FrameTypeCancel:
		return &frames.Cancel{StreamID: id}
	case frames.FrameTypeError:
		return &frames.Error{StreamID: id, Code: frames.ErrCode(num(f.N)), Data: string(f.Data.bytes())}
	case frames.FrameTypePayload:
		return &frames.Payload{StreamID: id, Metadata: f.Md.bytes(), Data: f.Data.bytes(),
			Follows: f.Foll, Complete: f.Comp, Next: f.Next}
	default:
		return &frames.RequestPayload{FrameType: t, StreamID: id, Metadata: f.Md.bytes(), Data: f.Data.bytes(),
			Follows: f.Foll, Complete: f.Comp, InitialN: num(f.N)}
	}
}

// plain is a frame as it can be compared: what its type has no place for is left out.
type plain struct {
	Type             int
	ID               uint32
	Next, Comp, Foll bool
	N                uint32
	Md, Data         string
}

func (f Frame) plain() plain {
	return plain{f.Type, num(f.ID), f.Next, f.Comp, f.Foll, num(f.N), string(f.Md.bytes()), string(f.Data.bytes())}
}

func seen(f frames.Frame) plain {
	p := plain{Type: int(f.Type()), ID: f.GetStreamID()}
	switch f := f.(type) {
	case *frames.RequestN:
		p.N = f.N
	case *frames.Cancel:
	case *frames.Error:
		p.N, p.Data = uint32(f.Code), f.Data
	case *frames.Payload:
		p.Next, p.Comp, p.Foll = f.Next, f.Complete, f.Follows
		p.Md, p.Data = string(f.Metadata), string(f.Data)
	case *frames.RequestPayload:
		p.Foll = f.Follows
		p.Md, p.Data = string(f.Metadata), string(f.Data)
		switch f.FrameType {
		case frames.FrameTypeRequestChannel:
			p.Comp = f.Complete
			p.N = f.InitialN
		case frames.FrameTypeRequestStream:
			p.N = f.InitialN
		}
	default:
		p.Type = -1
	}
	return p
}

func (p plain) String() string {
	cut := func(s string) string {
		if len(s) > 24 {
			return fmt.Sprintf("%x..(%d bytes)", s[:24], len(s))
		}
		return fmt.Sprintf("%x", s)
	}
	return fmt.Sprintf("{type %d id %d next %t comp %t foll %t n %d md %s data %s}", p.Type, p.ID, p.Next, p.Comp, p.Foll,
		p.N, cut(p.Md), cut(p.Data))
}

// conn is a connection whose reads are scripted.
type conn struct {
	data   []byte
	chunks []int
	end    string
	wrote  bytes.Buffer
	zero   int
}

var errBroken = errors.New("connection reset")

func (c *conn) Read(b []byte) (int, error) {
	for len(c.chunks) > 0 && c.chunks[0] == 0 {
		c.chunks = c.chunks[1:]
		if c.zero++; c.zero%3 == 0 {
			return 0, nil
		}
	}
	n := len(c.data)
	if len(c.chunks) > 0 {
		n = c.chunks[0]
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, c.data[:n])
	c.data = c.data[n:]
	if len(c.chunks) > 0 {
		c.chunks[0] -= n
	}
	if len(c.data) == 0 {
		switch c.end {
		case "eof":
			if n == 0 {
				return 0, io.EOF
			}
		case "eofdata":
			return n, io.EOF
		case "error":
			if n == 0 {
				return 0, errBroken
			}
		case "errordata":
			return n, errBroken
		case "closed":
			if n == 0 {
				return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
			}
		}
	}
	return n, nil
}
func (c *conn) Write(b []byte) (int, error)        { return c.wrote.Write(b) }
func (c *conn) Close() error                       { return nil }
func (c *conn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *conn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

type scenario struct {
	ID     string  `json:"id"`
	Op     string  `json:"op"`
	F      Frame   `json:"f"`
	Fs     []Frame `json:"fs"`
	Max    uint32  `json:"max"`
	Type   int     `json:"type"`
	Flags  int     `json:"flags"`
	SID    [2]int  `json:"sid"`
	V      uint32  `json:"v"`
	Bs     Rope    `json:"bs"`
	Chunks []int   `json:"chunks"`
	End    string  `json:"end"`
	Want   struct {
		Size      int             `json:"size"`
		Bytes     Rope            `json:"bytes"`
		Stream    Rope            `json:"stream"`
		Raw       []Rope          `json:"raw"`
		Frames    []Frame         `json:"frames"`
		F         Frame           `json:"f"`
		OK        bool            `json:"ok"`
		OKs       []bool          `json:"oks"`
		Type      int             `json:"type"`
		Flags     int             `json:"flags"`
		TypeName  string          `json:"typeName"`
		FlagNames string          `json:"flagNames"`
		Resumable bool            `json:"resumable"`
		Checks    map[string]bool `json:"checks"`
		End       string          `json:"end"`
	} `json:"want"`
}

type failure string

func check(ok bool, format string, args ...any) {
	if !ok {
		panic(failure(fmt.Sprintf(format, args...)))
	}
}

func short(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%x..(%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func decode(raw []byte) (frames.Frame, error) {
	h := frames.ParseFrameHeader(raw)
	var f frames.Frame
	switch h.Type() {
	case frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel:
		f = &frames.RequestPayload{}
	case frames.FrameTypeRequestN:
		f = &frames.RequestN{}
	case frames.FrameTypeCancel:
		f = &frames.Cancel{}
	case frames.FrameTypePayload:
		f = &frames.Payload{}
	case frames.FrameTypeError:
		f = &frames.Error{}
	default:
		return nil, errors.New("unknown type")
	}
	return f, f.Decode(&h, raw[frames.FrameHeaderLen:])
}

func framed(raw []byte) []byte {
	n := len(raw)
	return append([]byte{byte(n >> 16), byte(n >> 8), byte(n)}, raw...)
}

func (s *scenario) frame() {
	f := s.F.real()
	check(int(f.Size()) == s.Want.Size, "size %d, want %d", f.Size(), s.Want.Size)
	// Encoding writes exactly the size, also into a larger dirty buffer.
	want := s.Want.Bytes.bytes()
	buf := bytes.Repeat([]byte{0xA5}, len(want)+7)
	f.Encode(buf[:len(want):len(want)])
	check(bytes.Equal(buf[:len(want)], want), "encoded %s, want %s", short(buf[:len(want)]), short(want))
	check(bytes.Equal(buf[len(want):], bytes.Repeat([]byte{0xA5}, 7)), "wrote past its size")
	in := seen(f)
	check(in == s.F.plain(), "encoding changed the frame to %v", in)
	g, err := decode(want)
	check(err == nil, "decoding its own bytes: %v", err)
	check(seen(g) == s.F.plain(), "decoded %v, want %v", seen(g), s.F.plain())
	check(g.GetStreamID() == f.GetStreamID() && g.Type() == f.Type(), "id or type differ")
	// The same into a frame that has been used before.
	if r, ok := g.(*frames.RequestPayload); ok {
		*r = frames.RequestPayload{FrameType: 77, StreamID: 9, Metadata: []byte("old"), Data: []byte("old"), Follows: true, Complete: true, InitialN: 99}
	} else if p, ok := g.(*frames.Payload); ok {
		*p = frames.Payload{StreamID: 9, Metadata: []byte("old"), Data: []byte("old"), Follows: true, Complete: true, Next: true}
	}
	h := frames.ParseFrameHeader(want)
	check(g.Decode(&h, want[frames.FrameHeaderLen:]) == nil && seen(g) == s.F.plain(), "decoded again %v", seen(g))
}

func (s *scenario) header() {
	id, want := num(s.SID), s.Want.Bytes.bytes()
	t, fl := frames.FrameType(s.Type), frames.FrameFlag(s.Flags)
	h := frames.NewFrameHeader(id, t, fl)
	check(bytes.Equal(h.Bytes(), want), "header %x, want %x", h.Bytes(), want)
	var b bytes.Buffer
	check(frames.WriteFrameHeader(&b, id, t, fl) == nil && bytes.Equal(b.Bytes(), want), "WriteFrameHeader %x, want %x", b.Bytes(), want)
	r := bytes.Repeat([]byte{0xff}, 8)
	frames.ResetFrameHeader(r, id, t, fl)
	check(bytes.Equal(r[:6], want) && r[6] == 0xff, "ResetFrameHeader %x, want %x", r, want)
	b.Reset()
	n, err := h.WriteTo(&b)
	check(n == 6 && err == nil && bytes.Equal(b.Bytes(), want), "WriteTo %x, want %x", b.Bytes(), want)
	p := frames.ParseFrameHeader(append(want, 1, 2, 3))
	check(p == h, "parsed %x, want %x", p, h)
	check(p.StreamID() == id, "id %d, want %d", p.StreamID(), id)
	check(int(p.Type()) == s.Want.Type, "type %d, want %d", p.Type(), s.Want.Type)
	check(int(p.Flag()) == s.Want.Flags, "flags %x, want %x", int(p.Flag()), s.Want.Flags)
	check(p.Type().String() == s.Want.TypeName, "type name %s, want %s", p.Type(), s.Want.TypeName)
	check(p.Flag().String() == s.Want.FlagNames, "flag names %s, want %s", p.Flag(), s.Want.FlagNames)
	str := fmt.Sprintf("FrameHeader{id=%d,type=%s,flag=%s}", id, s.Want.TypeName, s.Want.FlagNames)
	check(p.String() == str, "%s, want %s", p, str)
	check(p.Resumable() == s.Want.Resumable, "resumable %t", p.Resumable())
	for k, f := range map[string]frames.FrameFlag{"next": frames.FlagNext, "comp": frames.FlagComplete, "foll": frames.FlagFollow,
		"meta": frames.FlagMetadata, "ign": frames.FlagIgnore} {
		check(fl.Check(f) == s.Want.Checks[k], "flag %s of %x: %t", k, s.Flags, fl.Check(f))
		check(fl.Check(f|frames.FlagNext) == (s.Want.Checks[k] && s.Want.Checks["next"]), "flags %s and next of %x", k, s.Flags)
	}
}

func (s *scenario) u24() {
	v, err := u24.NewUint24(s.V)
	check((err == nil) == s.Want.OK, "%d: %v", s.V, err)
	var b bytes.Buffer
	werr := u24.WriteUint24(&b, s.V)
	check((werr == nil) == s.Want.OK, "writing %d: %v", s.V, werr)
	if !s.Want.OK {
		check(u24.IsExceedMaximumUint24Error(err), "not the error for too large: %v", err)
		check(b.Len() == 0, "wrote %x", b.Bytes())
		return
	}
	want := s.Want.Bytes.bytes()
	check(bytes.Equal(v.Bytes(), want) && bytes.Equal(b.Bytes(), want), "%d: %x and %x, want %x", s.V, v.Bytes(), b.Bytes(), want)
	b.Reset()
	n, err := v.WriteTo(&b)
	check(n == 3 && err == nil && bytes.Equal(b.Bytes(), want), "WriteTo %x", b.Bytes())
	check(v.AsInt() == int(s.V) && u24.ReadUint24ToInt(append(want, 9)) == int(s.V) && u24.NewUint24Bytes(want) == v &&
		u24.MustNewUint24(s.V) == v, "%d reads back as %d", s.V, v.AsInt())
}

// receive reads until an error. Frames are looked at after all have been read.
func (s *scenario) receive(data []byte) ([]frames.Frame, error) {
	c := rsocket.NewTCPConn(&conn{data: data, chunks: append([]int(nil), s.Chunks...), end: s.End})
	var fs []frames.Frame
	for {
		f, err := c.Read()
		if err != nil {
			return fs, err
		}
		check(f != nil, "neither a frame nor an error")
		fs = append(fs, f)
		check(len(fs) < 10000, "endless frames")
	}
}

func (s *scenario) stream() {
	data := s.Want.Stream.bytes()
	d := rsocket.NewLengthBasedFrameDecoder(&conn{data: append([]byte(nil), data...), chunks: append([]int(nil), s.Chunks...), end: s.End})
	var raws [][]byte
	var err error
	for {
		var raw []byte
		if raw, err = d.Read(); err != nil {
			break
		}
		raws = append(raws, raw)
		check(len(raws) < 10000, "endless frames")
	}
	check(len(raws) == len(s.Want.Raw), "%d frames, want %d (then %v)", len(raws), len(s.Want.Raw), err)
	for i, raw := range raws {
		want := s.Want.Raw[i].bytes()
		check(bytes.Equal(raw, want), "frame %d is %s, want %s", i, short(raw), short(want))
	}
	if s.End == "eof" || s.End == "eofdata" {
		check(errors.Is(err, io.EOF), "the end is reported as %v", err)
	}
	fs, err := s.receive(append([]byte(nil), data...))
	check(len(fs) == len(raws), "%d frames decoded, want %d (then %v)", len(fs), len(raws), err)
	for i, f := range fs {
		check(seen(f) == s.Fs[i].plain(), "frame %d is %v, want %v", i, seen(f), s.Fs[i].plain())
	}
	if s.End == "eof" || s.End == "eofdata" {
		check(errors.Is(err, io.EOF), "the end is reported as %v", err)
	}
}

func (s *scenario) write() {
	k := &conn{}
	c := rsocket.NewTCPConn(k)
	for i, f := range s.Fs {
		err := c.Write(f.real())
		check((err == nil) == s.Want.OKs[i], "writing frame %d of %d bytes: %v", i, f.real().Size(), err)
		if i%2 == 1 {
			check(c.Flush() == nil, "flush")
		}
	}
	check(c.Flush() == nil, "flush")
	want := s.Want.Bytes.bytes()
	got := k.wrote.Bytes()
	check(bytes.Equal(got, want), "wrote %s, want %s", short(got), short(want))
}

func (s *scenario) any() {
	b := s.Bs.bytes()
	keep := append([]byte(nil), b...)
	if len(b) > 0 {
		s.End = "eof"
		fs, err := s.receive(framed(b))
		n := 0
		if s.Want.OK {
			n = 1
		}
		check(len(fs) == n, "%d frames, want %d (then %v)", len(fs), n, err)
		if n == 1 {
			check(seen(fs[0]) == s.Want.F.plain(), "decoded %v, want %v", seen(fs[0]), s.Want.F.plain())
		}
	}
	if len(b) >= frames.FrameHeaderLen {
		f, err := decode(append(make([]byte, 0, len(b)), b...))
		check((err == nil) == s.Want.OK, "decoding: %v", err)
		if err == nil {
			check(seen(f) == s.Want.F.plain(), "decoded %v, want %v", seen(f), s.Want.F.plain())
		}
		// As any type, whatever the header says.
		h := frames.ParseFrameHeader(b)
		for _, f := range []frames.Frame{&frames.RequestPayload{}, &frames.Payload{}, &frames.RequestN{}, &frames.Cancel{}, &frames.Error{}} {
			_ = f.Decode(&h, b[frames.FrameHeaderLen:])
		}
	}
	check(bytes.Equal(b, keep), "decoding changed its input")
}

func (s *scenario) junk() {
	fs, err := s.receive(s.Bs.bytes())
	check(len(fs) == len(s.Want.Frames), "%d frames, want %d (then %v)", len(fs), len(s.Want.Frames), err)
	for i, f := range fs {
		check(seen(f) == s.Want.Frames[i].plain(), "frame %d is %v, want %v", i, seen(f), s.Want.Frames[i].plain())
	}
}

// part describes bytes as a piece of the original where they are one.
func part(b []byte, from Rope, at int) Rope {
	if len(b) == 0 {
		return Rope{}
	}
	if len(from) == 1 && from[0][0] > 0 {
		r := Rope{{len(b), from[0][1] + at}}
		if at+len(b) <= from[0][0] && bytes.Equal(r.bytes(), b) {
			return r
		}
	}
	r := Rope{}
	for i, x := range b {
		if i == 16 {
			r = append(r, [2]int{len(b) - i, 1 << 28})
			break
		}
		r = append(r, [2]int{0, int(x)})
	}
	return r
}

func (s *scenario) fragment() map[string][]Frame {
	orig := s.F.real().(frames.Fragmentable)
	fs := orig.Fragment(s.Max)
	check(seen(orig) == s.F.plain(), "splitting changed the frame")
	describe := func(ps []plain) []Frame {
		out := []Frame{}
		md, da := 0, 0
		for _, p := range ps {
			out = append(out, Frame{Type: p.Type, ID: limbs(p.ID), Next: p.Next, Comp: p.Comp, Foll: p.Foll, N: limbs(p.N),
				Md: part([]byte(p.Md), s.F.Md, md), Data: part([]byte(p.Data), s.F.Data, da)})
			md += len(p.Md)
			da += len(p.Data)
		}
		return out
	}
	var mem, wire []plain
	k := &conn{end: "eof"}
	c := rsocket.NewTCPConn(k)
	for _, f := range fs {
		check(f.Size() <= s.Max, "a fragment of %d bytes, the limit is %d", f.Size(), s.Max)
		mem = append(mem, seen(f))
		check(c.Write(f) == nil, "a fragment cannot be written")
	}
	check(c.Flush() == nil, "flush")
	k.data = append([]byte(nil), k.wrote.Bytes()...)
	for {
		f, err := c.Read()
		if err != nil {
			break
		}
		wire = append(wire, seen(f))
	}
	return map[string][]Frame{"mem": describe(mem), "wire": describe(wire)}
}

func run(s *scenario) (got any, why string) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				why = string(f)
				return
			}
			why = fmt.Sprint("panic: ", r)
		}
	}()
	switch s.Op {
	case "frame":
		s.frame()
	case "header":
		s.header()
	case "u24":
		s.u24()
	case "stream":
		s.stream()
	case "write":
		s.write()
	case "bytes":
		s.any()
	case "junk":
		s.junk()
	case "fragment":
		got = s.fragment()
	default:
		panic("unknown " + s.Op)
	}
	return
}

func TestReplay(t *testing.T) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o600)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	enc := json.NewEncoder(out)
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var s scenario
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		_ = enc.Encode(map[string]any{"start": s.ID})
		got, why := run(&s)
		_ = enc.Encode(map[string]any{"id": s.ID, "ok": why == "", "why": why, "got": got})
	}
	_ = enc.Encode(map[string]any{"end": true})
}
