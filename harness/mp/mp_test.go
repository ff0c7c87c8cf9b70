// Package mp replays cases of the MsgPack specification on the real code.
package mp

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transform"
)

type Rope [][2]int

func block(x int) byte {
	return byte(uint32(x+1) * 2654435761 >> 24)
}

func (r Rope) bytes() []byte {
	b := []byte{}
	for _, s := range r {
		if s[0] == 0 {
			b = append(b, byte(s[1]))
			continue
		}
		for i := 0; i < s[0]; i++ {
			b = append(b, block(s[1]+i))
		}
	}
	return b
}

type scenario struct {
	ID    string `json:"id"`
	Op    string `json:"op"`
	Ops   []wop  `json:"ops"`
	Items [][]wop `json:"items"`
	Q     []int  `json:"q"`
	Kind  string `json:"kind"`
	Depth int    `json:"depth"`
	Want  json.RawMessage `json:"want"`
}

// wop is an operation of a writer or reader.
type wop struct {
	O    string          `json:"o"`
	Null json.RawMessage `json:"null"`
	V    json.RawMessage `json:"v"`
}

func (w wop) null() string {
	s := string(w.Null)
	if s == "true" {
		return "some"
	}
	if s == "false" || s == "" {
		return "no"
	}
	return strings.Trim(s, `"`)
}

type tree struct {
	T string          `json:"t"`
	E string          `json:"e"`
	V json.RawMessage `json:"v"`
}

type tm struct {
	S []int `json:"s"`
	N int64 `json:"n"`
}

func must(err error) {
	if err != nil {
		fmt.Println("harness:", err)
		os.Exit(3)
	}
}

func ints(m json.RawMessage) []byte {
	var q []int
	must(json.Unmarshal(m, &q))
	b := make([]byte, len(q))
	for i, x := range q {
		b[i] = byte(x)
	}
	return b
}

func u64(m json.RawMessage) uint64 { return binary.BigEndian.Uint64(ints(m)) }

func scalar(t string, m json.RawMessage) any {
	switch t {
	case "nil":
		return nil
	case "bool":
		var b bool
		must(json.Unmarshal(m, &b))
		return b
	case "int":
		return int(u64(m))
	case "int8":
		return int8(u64(m))
	case "int16":
		return int16(u64(m))
	case "int32":
		return int32(u64(m))
	case "int64":
		return int64(u64(m))
	case "uint":
		return uint(u64(m))
	case "uint8":
		return uint8(u64(m))
	case "uint16":
		return uint16(u64(m))
	case "uint32":
		return uint32(u64(m))
	case "uint64":
		return uint64(u64(m))
	case "float32":
		return math.Float32frombits(binary.BigEndian.Uint32(ints(m)))
	case "float64":
		return math.Float64frombits(binary.BigEndian.Uint64(ints(m)))
	case "string":
		var r Rope
		must(json.Unmarshal(m, &r))
		return string(r.bytes())
	case "bytes":
		var r Rope
		must(json.Unmarshal(m, &r))
		return r.bytes()
	case "time":
		var x tm
		must(json.Unmarshal(m, &x))
		b := make([]byte, 8)
		for i, v := range x.S {
			b[i] = byte(v)
		}
		return time.Unix(int64(binary.BigEndian.Uint64(b)), x.N)
	}
	panic("scalar " + t)
}

type bad struct{ x int }

// failing is a codec that cannot encode itself.
type failing struct{}

func (failing) Encode(w msgpack.Writer) error { return errors.New("failing") }
func (failing) Decode(r msgpack.Reader) error { return errors.New("failing") }

// codec is a sequence of operations.
type codec struct {
	ops []wop
	got []any
}

func (c codec) Encode(w msgpack.Writer) error {
	for _, o := range c.ops {
		put(w, o)
	}
	return nil
}

// shape is what codecs read, since they are made by the decoder.
var shape []wop

func (c *codec) Decode(r msgpack.Reader) error {
	for _, o := range shape {
		v, err := get(r, o.O, o.null() != "no")
		if err != nil {
			return err
		}
		c.got = append(c.got, v)
	}
	return nil
}

// Encode on the value makes *codec and codec both encode; Decode is on *codec only,
// so that a codec given as a dynamically typed value has to be a pointer.
var _ msgpack.Codec = (*codec)(nil)

func sliceOf[T any](vs []json.RawMessage, e string) any {
	out := make([]T, 0)
	for _, v := range vs {
		out = append(out, scalar(e, v).(T))
	}
	return out
}

func dictOf[K comparable](kv [][2]json.RawMessage, e string) any {
	out := map[K]any{}
	for _, x := range kv {
		out[scalar(e, x[0]).(K)] = build(x[1])
	}
	return out
}

func build(m json.RawMessage) any {
	var t tree
	must(json.Unmarshal(m, &t))
	switch t.T {
	case "slice":
		var vs []json.RawMessage
		must(json.Unmarshal(t.V, &vs))
		switch t.E {
		case "string":
			return sliceOf[string](vs, t.E)
		case "time":
			return sliceOf[time.Time](vs, t.E)
		case "bool":
			return sliceOf[bool](vs, t.E)
		case "int":
			return sliceOf[int](vs, t.E)
		case "int8":
			return sliceOf[int8](vs, t.E)
		case "int16":
			return sliceOf[int16](vs, t.E)
		case "int32":
			return sliceOf[int32](vs, t.E)
		case "int64":
			return sliceOf[int64](vs, t.E)
		case "uint":
			return sliceOf[uint](vs, t.E)
		case "uint16":
			return sliceOf[uint16](vs, t.E)
		case "uint32":
			return sliceOf[uint32](vs, t.E)
		case "uint64":
			return sliceOf[uint64](vs, t.E)
		case "float32":
			return sliceOf[float32](vs, t.E)
		case "float64":
			return sliceOf[float64](vs, t.E)
		}
	case "anys":
		var vs []json.RawMessage
		must(json.Unmarshal(t.V, &vs))
		out := []any{}
		for _, v := range vs {
			out = append(out, build(v))
		}
		return out
	case "dict":
		var kv [][2]json.RawMessage
		must(json.Unmarshal(t.V, &kv))
		switch t.E {
		case "string":
			return dictOf[string](kv, t.E)
		case "int":
			return dictOf[int](kv, t.E)
		case "int8":
			return dictOf[int8](kv, t.E)
		case "int16":
			return dictOf[int16](kv, t.E)
		case "int32":
			return dictOf[int32](kv, t.E)
		case "int64":
			return dictOf[int64](kv, t.E)
		case "uint":
			return dictOf[uint](kv, t.E)
		case "uint8":
			return dictOf[uint8](kv, t.E)
		case "uint16":
			return dictOf[uint16](kv, t.E)
		case "uint32":
			return dictOf[uint32](kv, t.E)
		case "uint64":
			return dictOf[uint64](kv, t.E)
		}
	case "strs":
		var kv [][2]json.RawMessage
		must(json.Unmarshal(t.V, &kv))
		out := map[string]string{}
		for _, x := range kv {
			out[scalar("string", x[0]).(string)] = scalar("string", x[1]).(string)
		}
		return out
	case "anydict":
		var kv [][2]json.RawMessage
		must(json.Unmarshal(t.V, &kv))
		out := map[any]any{}
		for _, x := range kv {
			out[build(x[0])] = build(x[1])
		}
		return out
	case "codec":
		var ops []wop
		must(json.Unmarshal(t.V, &ops))
		return &codec{ops: ops}
	case "failing":
		return &failing{}
	case "bad":
		switch t.E {
		case "chan":
			return make(chan int)
		case "ptr":
			return new(int)
		case "structs":
			return []bad{{1}}
		case "complex":
			return complex(1, 2)
		case "func":
			return func() {}
		}
		return bad{7}
	default:
		return scalar(t.T, t.V)
	}
	panic("build " + t.T + " " + t.E)
}

func opt[T any](null string, v any) *T {
	if null == "nil" {
		return nil
	}
	x := v.(T)
	return &x
}

func put(w msgpack.Writer, o wop) {
	null := o.null()
	var v any
	if null != "nil" && o.O != "any" && o.O != "array" && o.O != "map" {
		v = scalar(o.O, o.V)
	}
	plain := null == "no"
	switch o.O {
	case "nil":
		w.WriteNil()
	case "bool":
		if plain {
			w.WriteBool(v.(bool))
		} else {
			w.WriteNillableBool(opt[bool](null, v))
		}
	case "int8":
		if plain {
			w.WriteInt8(v.(int8))
		} else {
			w.WriteNillableInt8(opt[int8](null, v))
		}
	case "int16":
		if plain {
			w.WriteInt16(v.(int16))
		} else {
			w.WriteNillableInt16(opt[int16](null, v))
		}
	case "int32":
		if plain {
			w.WriteInt32(v.(int32))
		} else {
			w.WriteNillableInt32(opt[int32](null, v))
		}
	case "int64":
		if plain {
			w.WriteInt64(v.(int64))
		} else {
			w.WriteNillableInt64(opt[int64](null, v))
		}
	case "uint8":
		if plain {
			w.WriteUint8(v.(uint8))
		} else {
			w.WriteNillableUint8(opt[uint8](null, v))
		}
	case "uint16":
		if plain {
			w.WriteUint16(v.(uint16))
		} else {
			w.WriteNillableUint16(opt[uint16](null, v))
		}
	case "uint32":
		if plain {
			w.WriteUint32(v.(uint32))
		} else {
			w.WriteNillableUint32(opt[uint32](null, v))
		}
	case "uint64":
		if plain {
			w.WriteUint64(v.(uint64))
		} else {
			w.WriteNillableUint64(opt[uint64](null, v))
		}
	case "float32":
		if plain {
			w.WriteFloat32(v.(float32))
		} else {
			w.WriteNillableFloat32(opt[float32](null, v))
		}
	case "float64":
		if plain {
			w.WriteFloat64(v.(float64))
		} else {
			w.WriteNillableFloat64(opt[float64](null, v))
		}
	case "string":
		if plain {
			w.WriteString(v.(string))
		} else {
			w.WriteNillableString(opt[string](null, v))
		}
	case "bytes":
		switch {
		case plain:
			b := v.([]byte)
			if len(b) == 0 {
				b = nil
			}
			w.WriteByteArray(b)
		case null == "nil":
			w.WriteNillableByteArray(nil)
		default:
			w.WriteNillableByteArray(v.([]byte))
		}
	case "time":
		if plain {
			w.WriteTime(v.(time.Time))
		} else {
			w.WriteNillableTime(opt[time.Time](null, v))
		}
	case "array":
		w.WriteArraySize(binary.BigEndian.Uint32(ints(o.V)))
	case "map":
		w.WriteMapSize(binary.BigEndian.Uint32(ints(o.V)))
	case "any":
		if null == "nil" {
			w.WriteAny(nil)
		} else {
			w.WriteAny(build(o.V))
		}
	default:
		panic("put " + o.O)
	}
}

func deref[T any](v *T, err error) (any, error) {
	if v == nil {
		return nil, err
	}
	return *v, err
}

func raw[T any](v T, err error) (any, error) { return v, err }

func get(r msgpack.Reader, o string, null bool) (any, error) {
	switch o {
	case "nil", "isnil":
		return raw(r.IsNextNil())
	case "bool":
		if null {
			return deref(r.ReadNillableBool())
		}
		return raw(r.ReadBool())
	case "int8":
		if null {
			return deref(r.ReadNillableInt8())
		}
		return raw(r.ReadInt8())
	case "int16":
		if null {
			return deref(r.ReadNillableInt16())
		}
		return raw(r.ReadInt16())
	case "int32":
		if null {
			return deref(r.ReadNillableInt32())
		}
		return raw(r.ReadInt32())
	case "int64":
		if null {
			return deref(r.ReadNillableInt64())
		}
		return raw(r.ReadInt64())
	case "uint8":
		if null {
			return deref(r.ReadNillableUint8())
		}
		return raw(r.ReadUint8())
	case "uint16":
		if null {
			return deref(r.ReadNillableUint16())
		}
		return raw(r.ReadUint16())
	case "uint32":
		if null {
			return deref(r.ReadNillableUint32())
		}
		return raw(r.ReadUint32())
	case "uint64":
		if null {
			return deref(r.ReadNillableUint64())
		}
		return raw(r.ReadUint64())
	case "float32":
		if null {
			return deref(r.ReadNillableFloat32())
		}
		return raw(r.ReadFloat32())
	case "float64":
		if null {
			return deref(r.ReadNillableFloat64())
		}
		return raw(r.ReadFloat64())
	case "string":
		if null {
			return deref(r.ReadNillableString())
		}
		return raw(r.ReadString())
	case "bytes":
		if null {
			b, err := r.ReadNillableByteArray()
			if b == nil {
				return nil, err
			}
			return b, err
		}
		return raw(r.ReadByteArray())
	case "time":
		if null {
			return deref(r.ReadNillableTime())
		}
		return raw(r.ReadTime())
	case "array":
		return raw(r.ReadArraySize())
	case "map":
		return raw(r.ReadMapSize())
	case "any":
		return r.ReadAny()
	case "skip":
		return nil, r.Skip()
	}
	panic("get " + o)
}

// ---------------------------------------------------------------------------

type val struct {
	K string          `json:"k"`
	V json.RawMessage `json:"v"`
}

type number struct {
	Neg bool  `json:"neg"`
	B   []int `json:"b"`
}

// canon writes a Go value that was read down.
func canon(v any) string {
	num := func(neg bool, u uint64) string {
		if neg {
			return fmt.Sprintf("num %d", int64(u))
		}
		return fmt.Sprintf("num %d", u)
	}
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint("bool ", x)
	case int8:
		return num(x < 0, uint64(int64(x)))
	case int16:
		return num(x < 0, uint64(int64(x)))
	case int32:
		return num(x < 0, uint64(int64(x)))
	case int64:
		return num(x < 0, uint64(x))
	case int:
		return num(x < 0, uint64(int64(x)))
	case uint:
		return num(false, uint64(x))
	case uint8:
		return num(false, uint64(x))
	case uint16:
		return num(false, uint64(x))
	case uint32:
		return num(false, uint64(x))
	case uint64:
		return num(false, x)
	case float32:
		return f32(x)
	case float64:
		return fmt.Sprintf("f64 %016x", math.Float64bits(x))
	case string:
		return fmt.Sprintf("str %x", x)
	case []byte:
		return fmt.Sprintf("bin %x", x)
	case time.Time:
		return fmt.Sprintf("time %d %d", x.Unix(), x.Nanosecond())
	case []any:
		s := "arr["
		for _, e := range x {
			s += canon(e) + ", "
		}
		return s + "]"
	case map[any]any:
		es := []string{}
		for k, e := range x {
			es = append(es, canon(k)+": "+canon(e))
		}
		sort.Strings(es)
		return "map[" + strings.Join(es, ", ") + "]"
	}
	return fmt.Sprintf("unexpected %T", v)
}

func f32(x float32) string {
	if x != x {
		return "f32 NaN"
	}
	return fmt.Sprintf("f32 %08x", math.Float32bits(x))
}

// wanted writes a value of the specification down the same way. The value that
// was read is needed where the specification leaves it open.
func wanted(m json.RawMessage, got any) string {
	var x val
	must(json.Unmarshal(m, &x))
	switch x.K {
	case "nil":
		return "nil"
	case "any":
		return canon(got)
	case "bool":
		return "bool " + string(x.V)
	case "num":
		var n number
		must(json.Unmarshal(x.V, &n))
		b := make([]byte, 8)
		for i, v := range n.B {
			b[i] = byte(v)
		}
		u := binary.BigEndian.Uint64(b)
		if n.Neg {
			return fmt.Sprintf("num %d", int64(u))
		}
		return fmt.Sprintf("num %d", u)
	case "f32":
		return f32(math.Float32frombits(binary.BigEndian.Uint32(ints(x.V))))
	case "f32of64":
		return f32(float32(math.Float64frombits(binary.BigEndian.Uint64(ints(x.V)))))
	case "f64":
		return fmt.Sprintf("f64 %x", ints(x.V))
	case "str", "bin", "timestr":
		var r Rope
		must(json.Unmarshal(x.V, &r))
		if x.K == "timestr" {
			t, err := time.Parse(time.RFC3339Nano, string(r.bytes()))
			if err != nil {
				return "no time"
			}
			return canon(t)
		}
		return fmt.Sprintf("%s %x", x.K, r.bytes())
	case "time":
		return canon(scalar("time", x.V))
	case "arr":
		var es []json.RawMessage
		must(json.Unmarshal(x.V, &es))
		ga, _ := got.([]any)
		s := "arr["
		for i, e := range es {
			var g any
			if i < len(ga) {
				g = ga[i]
			}
			s += wanted(e, g) + ", "
		}
		return s + "]"
	case "map":
		var es [][2]json.RawMessage
		must(json.Unmarshal(x.V, &es))
		out := []string{}
		gm, _ := got.(map[any]any)
		for _, e := range es {
			k := wanted(e[0], nil)
			var g any
			for a, b := range gm {
				if canon(a) == k {
					g = b
				}
			}
			out = append(out, k+": "+wanted(e[1], g))
		}
		sort.Strings(out)
		return "map[" + strings.Join(out, ", ") + "]"
	}
	panic("wanted " + x.K)
}

func same(got any, want json.RawMessage) string {
	g, w := canon(got), wanted(want, got)
	if g != w {
		return fmt.Sprintf("%.120s is read, not %.120s", g, w)
	}
	return ""
}

type piece struct {
	B Rope         `json:"b"`
	M [][2][]piece `json:"m"`
}

// match takes the pieces off the front of b.
func match(ps []piece, b []byte) ([]byte, bool) {
	for _, p := range ps {
		if p.M == nil {
			w := p.B.bytes()
			if !bytes.HasPrefix(b, w) {
				return b, false
			}
			b = b[len(w):]
			continue
		}
		left := append([][2][]piece{}, p.M...)
		for len(left) > 0 {
			hit := false
			for i, e := range left {
				if r, ok := match(e[0], b); ok {
					if r, ok = match(e[1], r); ok {
						b, hit = r, true
						left = append(left[:i:i], left[i+1:]...)
						break
					}
				}
			}
			if !hit {
				return b, false
			}
		}
	}
	return b, true
}

// area is a buffer of n bytes inside a larger poisoned one.
func area(n int) (buf []byte, intact func() bool) {
	whole := bytes.Repeat([]byte{0xd3}, n+48)
	buf = whole[16 : 16+n]
	return buf, func() bool {
		for i, b := range whole {
			if (i < 16 || i >= 16+n) && b != 0xd3 {
				return false
			}
		}
		return true
	}
}

// input is q inside a larger buffer, as a slice that could be extended.
func input(q []byte) []byte {
	buf, _ := area(len(q))
	copy(buf, q)
	return buf
}

func ended(d *msgpack.Decoder) bool {
	_, err := d.IsNextNil()
	return err != nil
}

type wwant struct {
	Bad  bool            `json:"bad"`
	Size int             `json:"size"`
	Out  []piece         `json:"out"`
	Vals json.RawMessage `json:"vals"`
}

func (w *wwant) check(how string, b []byte, err error) string {
	if w.Bad {
		if err == nil {
			return how + ": no error for a value that cannot be written"
		}
		return ""
	}
	if err != nil {
		return how + ": " + err.Error()
	}
	if len(b) != w.Size {
		return fmt.Sprintf("%s: %d bytes, not %d", how, len(b), w.Size)
	}
	if rest, ok := match(w.Out, b); !ok || len(rest) > 0 {
		return fmt.Sprintf("%s: other bytes: %.60x... of %d", how, b, len(b))
	}
	return ""
}

func write(s *scenario) string {
	var w wwant
	must(json.Unmarshal(s.Want, &w))
	sizer := msgpack.NewSizer()
	for _, o := range s.Ops {
		put(&sizer, o)
	}
	if w.Bad != (sizer.Err() != nil) {
		return fmt.Sprintf("sizer: error %v", sizer.Err())
	}
	if !w.Bad && int(sizer.Len()) != w.Size {
		return fmt.Sprintf("sizer: %d, not %d", sizer.Len(), w.Size)
	}
	size := int(sizer.Len())
	buf, intact := area(size)
	enc := msgpack.NewEncoder(buf)
	for _, o := range s.Ops {
		put(&enc, o)
	}
	if why := w.check("encoder", buf, enc.Err()); why != "" {
		return why
	}
	if !intact() {
		return "encoder: wrote outside its buffer"
	}
	// A buffer that is too small is an error, whatever the size.
	shorts := []int{}
	if size > 0 && !w.Bad {
		shorts = []int{0, size / 2, size - 1}
		if size < 20 {
			shorts = nil
			for i := 0; i < size; i++ {
				shorts = append(shorts, i)
			}
		}
	}
	for _, n := range shorts {
		short, intact := area(n)
		e := msgpack.NewEncoder(short)
		for _, o := range s.Ops {
			put(&e, o)
		}
		if e.Err() == nil || !intact() {
			return fmt.Sprintf("encoder: buffer of %d bytes for %d: error %v", n, size, e.Err())
		}
	}
	b, err := msgpack.ToBytes(&codec{ops: s.Ops})
	if why := w.check("ToBytes", b, err); why != "" {
		return why
	}
	p, err := transform.CodecEncode(&codec{ops: s.Ops})
	if err == nil {
		b = p.Data()
	}
	if why := w.check("CodecEncode", b, err); why != "" {
		return why
	}
	p, err = transform.MsgPackEncode[codec](codec{ops: s.Ops})
	if err == nil {
		b = p.Data()
	}
	if why := w.check("MsgPackEncode", b, err); why != "" {
		return why
	}
	if len(s.Ops) == 1 && s.Ops[0].null() == "no" {
		for _, r := range single(s.Ops[0]) {
			if why := w.check(r.how, r.b, r.err); why != "" {
				return why
			}
		}
	}
	if w.Bad {
		return ""
	}
	// Reading it back.
	var vals []json.RawMessage
	must(json.Unmarshal(w.Vals, &vals))
	dec := msgpack.NewDecoder(input(buf))
	for i, o := range s.Ops {
		var v val
		must(json.Unmarshal(vals[i], &v))
		if v.K == "codec" {
			if err := dec.Skip(); err != nil && wellFormed(o) {
				return "skipping a codec: " + err.Error()
			}
			if !wellFormed(o) {
				return ""
			}
			continue
		}
		got, err := get(&dec, o.O, o.null() != "no")
		if err != nil {
			return fmt.Sprintf("reading %s back: %v", o.O, err)
		}
		if o.O == "nil" {
			if got != true {
				return "nil is not read back"
			}
			continue
		}
		if why := same(got, vals[i]); why != "" {
			return "reading back " + o.O + ": " + why
		}
	}
	if !ended(&dec) {
		return "something is left after reading back"
	}
	if why := generic(s, buf, vals); why != "" {
		return why
	}
	return ""
}

// wellFormed tells codecs that write one value: the others cannot be passed over as one.
func wellFormed(o wop) bool {
	var t tree
	must(json.Unmarshal(o.V, &t))
	var ops []wop
	if t.T != "codec" {
		return false
	}
	must(json.Unmarshal(t.V, &ops))
	return len(ops) == 1 && ops[0].O != "array" && ops[0].O != "map" && ops[0].O != "any"
}

// generic reads the whole sequence through the helpers for codecs.
func generic(s *scenario, buf []byte, vals []json.RawMessage) string {
	for i, o := range s.Ops {
		var v val
		must(json.Unmarshal(vals[i], &v))
		if v.K == "codec" || o.O == "nil" {
			return ""
		}
	}
	shape = s.Ops
	check := func(how string, got []any, err error) string {
		if err != nil {
			return how + ": " + err.Error()
		}
		if len(got) != len(vals) {
			return fmt.Sprintf("%s: %d values of %d", how, len(got), len(vals))
		}
		for i := range vals {
			if why := same(got[i], vals[i]); why != "" {
				return how + ": " + why
			}
		}
		return ""
	}
	d := msgpack.NewDecoder(input(buf))
	c, err := msgpack.Decode[codec](&d)
	if why := check("Decode", c.got, err); why != "" {
		return why
	}
	d = msgpack.NewDecoder(input(buf))
	pc, err := msgpack.DecodeNillable[codec](&d)
	if len(buf) > 0 && buf[0] == 0xc0 {
		if pc != nil || err != nil {
			return "DecodeNillable: not nil"
		}
	} else if len(buf) > 0 {
		if pc == nil {
			return fmt.Sprint("DecodeNillable: nil, ", err)
		}
		if why := check("DecodeNillable", pc.got, err); why != "" {
			return why
		}
	}
	c, err = transform.MsgPackDecode[codec](payload.New(input(buf)))
	if why := check("MsgPackDecode", c.got, err); why != "" {
		return why
	}
	return ""
}

type named struct {
	how string
	b   []byte
	err error
}

type (
	myString string
	myInt32  int32
	myInt64  int64
	myUint64 uint64
)

// single are the other ways to write one value.
func single(o wop) (out []named) {
	if o.O == "array" || o.O == "map" || o.O == "nil" {
		return
	}
	add := func(how string, b []byte, err error) { out = append(out, named{how, b, err}) }
	if o.O == "any" {
		v := build(o.V)
		b, err := msgpack.AnyToBytes(v)
		add("AnyToBytes", b, err)
		return
	}
	pl := func(how string, p payload.Payload, err error) {
		if err != nil {
			add(how, nil, err)
			return
		}
		if len(p.Metadata()) > 0 {
			add(how, nil, errors.New("metadata appeared"))
			return
		}
		add(how, p.Data(), nil)
	}
	switch v := scalar(o.O, o.V).(type) {
	case bool:
		b, err := msgpack.BoolToBytes(v)
		add("BoolToBytes", b, err)
		p, err := transform.Bool.Encode(v)
		pl("transform.Bool", p, err)
	case int8:
		b, err := msgpack.I8ToBytes(v)
		add("I8ToBytes", b, err)
		p, err := transform.Int8.Encode(v)
		pl("transform.Int8", p, err)
	case int16:
		b, err := msgpack.I16ToBytes(v)
		add("I16ToBytes", b, err)
		p, err := transform.Int16.Encode(v)
		pl("transform.Int16", p, err)
	case int32:
		b, err := msgpack.I32ToBytes(v)
		add("I32ToBytes", b, err)
		p, err := transform.Int32.Encode(v)
		pl("transform.Int32", p, err)
		p, err = transform.Int32Encode(myInt32(v))
		pl("Int32Encode", p, err)
	case int64:
		b, err := msgpack.I64ToBytes(v)
		add("I64ToBytes", b, err)
		p, err := transform.Int64.Encode(v)
		pl("transform.Int64", p, err)
		if int64(int(v)) == v {
			p, err = transform.Int.Encode(int(v))
			pl("transform.Int", p, err)
		}
		p, err = transform.Int64Encode(myInt64(v))
		pl("Int64Encode", p, err)
	case uint8:
		b, err := msgpack.U8ToBytes(v)
		add("U8ToBytes", b, err)
		p, err := transform.Uint8.Encode(v)
		pl("transform.Uint8", p, err)
	case uint16:
		b, err := msgpack.U16ToBytes(v)
		add("U16ToBytes", b, err)
		p, err := transform.Uint16.Encode(v)
		pl("transform.Uint16", p, err)
	case uint32:
		b, err := msgpack.U32ToBytes(v)
		add("U32ToBytes", b, err)
		p, err := transform.Uint32.Encode(v)
		pl("transform.Uint32", p, err)
	case uint64:
		b, err := msgpack.U64ToBytes(v)
		add("U64ToBytes", b, err)
		p, err := transform.Uint64.Encode(v)
		pl("transform.Uint64", p, err)
		if uint64(uint(v)) == v {
			p, err = transform.Uint.Encode(uint(v))
			pl("transform.Uint", p, err)
		}
		p, err = transform.Uint64Encode(myUint64(v))
		pl("Uint64Encode", p, err)
	case float32:
		b, err := msgpack.F32ToBytes(v)
		add("F32ToBytes", b, err)
		p, err := transform.Float32.Encode(v)
		pl("transform.Float32", p, err)
	case float64:
		b, err := msgpack.F64ToBytes(v)
		add("F64ToBytes", b, err)
		p, err := transform.Float64.Encode(v)
		pl("transform.Float64", p, err)
	case string:
		b, err := msgpack.StringToBytes(v)
		add("StringToBytes", b, err)
		p, err := transform.String.Encode(v)
		pl("transform.String", p, err)
		p, err = transform.StringEncode(myString(v))
		pl("StringEncode", p, err)
	case []byte:
		b, err := msgpack.BytesToBytes(v)
		add("BytesToBytes", b, err)
		p, err := transform.Bytes.Encode(v)
		pl("transform.Bytes", p, err)
	}
	return
}

func slice(s *scenario) string {
	var w wwant
	must(json.Unmarshal(s.Want, &w))
	items := make([]codec, len(s.Items))
	for i := range items {
		items[i].ops = s.Items[i]
	}
	p, err := transform.SliceEncode[codec](items)
	var b []byte
	if err == nil {
		b = p.Data()
	}
	if why := w.check("SliceEncode", b, err); why != "" || w.Bad {
		return why
	}
	var vals [][]json.RawMessage
	must(json.Unmarshal(w.Vals, &vals))
	shape = nil
	if len(s.Items) > 0 {
		shape = s.Items[0]
	}
	back, err := transform.SliceDecode[codec](payload.New(input(b)))
	if err != nil {
		return "SliceDecode: " + err.Error()
	}
	return sameItems(back, vals)
}

func sameItems(back []codec, vals [][]json.RawMessage) string {
	if len(back) != len(vals) {
		return fmt.Sprintf("SliceDecode: %d items, not %d", len(back), len(vals))
	}
	for i := range back {
		for j := range vals[i] {
			if j >= len(back[i].got) {
				return "SliceDecode: an item is missing values"
			}
			if why := same(back[i].got[j], vals[i][j]); why != "" {
				return "SliceDecode: " + why
			}
		}
	}
	return ""
}

func sliceread(s *scenario, q []byte) string {
	var w struct {
		R     string              `json:"r"`
		Items [][]json.RawMessage `json:"items"`
	}
	must(json.Unmarshal(s.Want, &w))
	shape = s.Ops
	var back []codec
	var err error
	grew := alloc(func() { back, err = transform.SliceDecode[codec](payload.New(input(q))) })
	if grew > uint64(1<<16+4096*len(q)) {
		return fmt.Sprintf("SliceDecode: %d bytes reserved for an input of %d", grew, len(q))
	}
	switch w.R {
	case "err":
		if err == nil {
			return "SliceDecode: no error"
		}
	case "ok":
		if err != nil {
			return "SliceDecode: " + err.Error()
		}
		return sameItems(back, w.Items)
	}
	return ""
}

type outcome struct {
	R string          `json:"r"`
	P int             `json:"p"`
	V json.RawMessage `json:"v"`
}

func alloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// readAll performs the operations; it returns the number of successful ones and the error of the next.
func readAll(q []byte, ops []wop) (got []any, err error) {
	d := msgpack.NewDecoder(input(q))
	for _, o := range ops {
		var v any
		v, err = get(&d, o.O, o.null() != "no")
		if err != nil {
			return
		}
		got = append(got, v)
	}
	return
}

func read(s *scenario, q []byte) string {
	var want []outcome
	must(json.Unmarshal(s.Want, &want))
	ops := s.Ops[:len(want)]
	var got []any
	var err error
	grew := alloc(func() { got, err = readAll(q, ops) })
	if limit := uint64(1<<16 + len(ops)*(1<<10) + 4096*len(q)); grew > limit {
		return fmt.Sprintf("%d bytes reserved for an input of %d", grew, len(q))
	}
	used := 0
	oks := 0
	for i, w := range want {
		what := fmt.Sprintf("operation %d (%s at %d)", i, ops[i].O, used)
		switch w.R {
		case "ok", "maybe":
			if i >= len(got) {
				if w.R == "maybe" && i == len(got) {
					return ""
				}
				return fmt.Sprintf("%s: error %v", what, err)
			}
			if ops[i].O != "skip" {
				if why := same(got[i], w.V); why != "" {
					return what + ": " + why
				}
			}
			used, oks = w.P, i+1
		case "err":
			if i < len(got) {
				return fmt.Sprintf("%s: %.100s and no error", what, canon(got[i]))
			}
		case "free":
			return cut(q, ops, used, i)
		}
		if w.R == "err" || w.R == "maybe" {
			break
		}
	}
	if why := cut(q, ops, used, oks); why != "" {
		return why
	}
	if len(want) == 1 {
		return viaTransform(q, ops[0], want[0])
	}
	return ""
}

// cut checks that n operations used exactly the given number of bytes.
func cut(q []byte, ops []wop, used, n int) string {
	if n == 0 {
		return ""
	}
	d := msgpack.NewDecoder(input(q[:used]))
	for i, o := range ops[:n] {
		if _, err := get(&d, o.O, o.null() != "no"); err != nil && o.O != "isnil" {
			return fmt.Sprintf("operation %d (%s) uses more than the %d bytes up to its end: %v", i, o.O, used, err)
		}
	}
	if !ended(&d) {
		return fmt.Sprintf("operation %d (%s) uses less than the %d bytes up to its end", n-1, ops[n-1].O, used)
	}
	return ""
}

func viaTransform(q []byte, o wop, w outcome) string {
	if o.null() != "no" {
		return ""
	}
	p := payload.New(input(q), []byte{1, 2})
	check := func(v any, err error) string {
		switch w.R {
		case "ok":
			if err != nil {
				return "transform: " + err.Error()
			}
			if why := same(v, w.V); why != "" {
				return "transform: " + why
			}
		case "err":
			if err == nil {
				return "transform: no error"
			}
		case "maybe":
			if err == nil {
				return same(v, w.V)
			}
		}
		return ""
	}
	switch o.O {
	case "bool":
		return check(raw(transform.Bool.Decode(p)))
	case "int8":
		return check(raw(transform.Int8.Decode(p)))
	case "int16":
		return check(raw(transform.Int16.Decode(p)))
	case "int32":
		v, err := transform.Int32Decode[myInt32](p)
		if why := check(int32(v), err); why != "" {
			return why
		}
		return check(raw(transform.Int32.Decode(p)))
	case "int64":
		v, err := transform.Int64Decode[myInt64](p)
		if why := check(int64(v), err); why != "" {
			return why
		}
		if n, nerr := transform.Int.Decode(p); err == nil && int64(int(v)) != int64(v) {
			// int is narrower here, as it is in a guest.
			if nerr == nil {
				return fmt.Sprintf("transform.Int: %d for %d", n, v)
			}
		} else if why := check(raw(n, nerr)); why != "" {
			return why
		}
		return check(raw(transform.Int64.Decode(p)))
	case "uint8":
		return check(raw(transform.Uint8.Decode(p)))
	case "uint16":
		return check(raw(transform.Uint16.Decode(p)))
	case "uint32":
		return check(raw(transform.Uint32.Decode(p)))
	case "uint64":
		v, err := transform.Uint64Decode[myUint64](p)
		if why := check(uint64(v), err); why != "" {
			return why
		}
		if n, nerr := transform.Uint.Decode(p); err == nil && uint64(uint(v)) != uint64(v) {
			if nerr == nil {
				return fmt.Sprintf("transform.Uint: %d for %d", n, v)
			}
		} else if why := check(raw(n, nerr)); why != "" {
			return why
		}
		return check(raw(transform.Uint64.Decode(p)))
	case "float32":
		return check(raw(transform.Float32.Decode(p)))
	case "float64":
		return check(raw(transform.Float64.Decode(p)))
	case "string":
		v, err := transform.StringDecode[myString](p)
		if why := check(string(v), err); why != "" {
			return why
		}
		return check(raw(transform.String.Decode(p)))
	case "bytes":
		return check(raw(transform.Bytes.Decode(p)))
	}
	return ""
}

// nest reads or skips a deeply nested value.
func nest(s *scenario) string {
	var w string
	must(json.Unmarshal(s.Want, &w))
	elem := map[string][]byte{"array": {0x91}, "map": {0x81, 0x00}, "array16": {0xdc, 0, 1}, "map32": {0xdf, 0, 0, 0, 1, 0x01}}[s.Kind]
	q := append(bytes.Repeat(elem, s.Depth), 0x05, 0x07)
	d := msgpack.NewDecoder(input(q))
	if err := d.Skip(); err != nil {
		return "skipping: " + err.Error()
	}
	if v, err := d.ReadUint8(); err != nil || v != 7 {
		return fmt.Sprint("after skipping: ", v, err)
	}
	if !ended(&d) {
		return "something is left"
	}
	d = msgpack.NewDecoder(input(q[:len(q)-2]))
	if err := d.Skip(); err == nil {
		return "skipping a truncated value: no error"
	}
	d = msgpack.NewDecoder(input(q))
	v, err := d.ReadAny()
	if err != nil {
		if w == "ok" {
			return "reading: " + err.Error()
		}
		return ""
	}
	for n := 0; n < s.Depth; n++ {
		switch x := v.(type) {
		case []any:
			if len(x) != 1 {
				return "not one element"
			}
			v = x[0]
		case map[any]any:
			if len(x) != 1 {
				return "not one entry"
			}
			for _, e := range x {
				v = e
			}
		default:
			return fmt.Sprintf("%T at depth %d", v, n)
		}
	}
	if canon(v) != "num 5" {
		return "innermost " + canon(v)
	}
	if v, err := d.ReadUint8(); err != nil || v != 7 {
		return fmt.Sprint("after reading: ", v, err)
	}
	return ""
}

// stamps sends times through the text form of transform.Time.
func stamps(s *scenario) string {
	var want []tm
	must(json.Unmarshal(s.Want, &want))
	for i := range want {
		m, _ := json.Marshal(want[i])
		t := scalar("time", m).(time.Time)
		for _, loc := range []*time.Location{time.UTC, time.FixedZone("x", 3600*5+60*30), time.FixedZone("y", -3600*8)} {
			p, err := transform.Time.Encode(t.In(loc))
			if err != nil {
				return "transform.Time: " + err.Error()
			}
			back, err := transform.Time.Decode(p)
			if err != nil || !back.Equal(t) {
				return fmt.Sprintf("transform.Time: %v becomes %v, %v", t, back, err)
			}
			d := msgpack.NewDecoder(p.Data())
			if back, err = d.ReadTime(); err != nil || !back.Equal(t) || !ended(&d) {
				return fmt.Sprintf("ReadTime: %v becomes %v, %v", t, back, err)
			}
		}
	}
	v, err := transform.Void.Encode(struct{}{})
	if err != nil || len(v.Data()) != 0 || len(v.Metadata()) != 0 {
		return "transform.Void"
	}
	if _, err := transform.Void.Decode(payload.New([]byte{1})); err != nil {
		return "transform.Void: " + err.Error()
	}
	return ""
}

func run(s *scenario) (why string) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 1<<12)
			why = fmt.Sprintf("panic: %v\n%s", p, buf[:runtime.Stack(buf, false)])
		}
	}()
	q := make([]byte, len(s.Q))
	for i, x := range s.Q {
		q[i] = byte(x)
	}
	switch s.Op {
	case "write":
		return write(s)
	case "slice":
		return slice(s)
	case "read":
		return read(s, q)
	case "sliceread":
		return sliceread(s, q)
	case "nest":
		return nest(s)
	case "stamps":
		return stamps(s)
	}
	panic("op " + s.Op)
}

func TestReplay(t *testing.T) {
	// Whoever reserves what the input asks for is stopped here.
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	in, err := os.Open(os.Getenv("VERIF_IN"))
	must(err)
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o600)
	must(err)
	enc := json.NewEncoder(out)
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var s scenario
		must(json.Unmarshal(sc.Bytes(), &s))
		_ = enc.Encode(map[string]any{"start": s.ID})
		why := run(&s)
		_ = enc.Encode(map[string]any{"id": s.ID, "ok": why == "", "why": why})
	}
	_ = enc.Encode(map[string]any{"end": true})
}
