// Package misc runs port envelopes and conversions of the real code.
package misc

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"reflect"
	"strconv"
	"testing"
	"time"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/msgpack/convert"
)

type when struct {
	Day  int64 `json:"day"`
	Sec  int64 `json:"sec"`
	Nano int64 `json:"nano"`
	Off  int   `json:"off"`
}

type result struct {
	V   string `json:"v"`
	Has bool   `json:"has"`
	Err string `json:"err"`
}

type decoded struct {
	OK       bool `json:"ok"`
	Port     ints `json:"port"`
	Data     ints `json:"data"`
	Next     bool `json:"next"`
	Complete bool `json:"complete"`
}

type ints []int

type want struct {
	Bytes ints     `json:"bytes"`
	Dec   *decoded `json:"dec"`
	Text  string   `json:"text"`
	Alt   string   `json:"alt"`
	Res   result   `json:"res"`
}

type scenario struct {
	ID       string `json:"id"`
	Op       string `json:"op"`
	Port     ints   `json:"port"`
	Data     ints   `json:"data"`
	Next     bool   `json:"next"`
	Complete bool   `json:"complete"`
	Bytes    ints   `json:"bytes"`
	// Big envelopes are checked by length: their bytes are made here.
	Pn int `json:"pn"`
	Dn int `json:"dn"`

	From string `json:"from"`
	To   string `json:"to"`
	Has  bool   `json:"has"`
	V    string `json:"v"`
	Err  string `json:"err"`
	Bad  bool   `json:"bad"`
	T    *when  `json:"t"`
	Want want   `json:"want"`
}

func raw(b ints) []byte {
	out := make([]byte, len(b))
	for i, x := range b {
		out[i] = byte(x)
	}
	return out
}

func decode(buf []byte, w *decoded) string {
	for _, start := range []invoke.PortIO{
		{}, {Port: "old", Data: []byte("left over"), Next: true, Complete: true}, {Port: "x", Complete: true}, {Data: []byte{1}, Next: true},
	} {
		p := start
		in := append(make([]byte, 0, len(buf)), buf...)
		err := p.Decode(in)
		if !bytes.Equal(in, buf) {
			return "decoding changes its input"
		}
		if !w.OK {
			if !errors.Is(err, invoke.ErrInvalidPortIO) {
				return fmt.Sprintf("decoding %d invalid bytes: error %v", len(buf), err)
			}
			continue
		}
		if err != nil {
			return "decoding: " + err.Error()
		}
		if p.Port != string(raw(w.Port)) || !bytes.Equal(p.Data, raw(w.Data)) {
			return fmt.Sprintf("port and data are %q (%d bytes) and %d bytes", trim(p.Port), len(p.Port), len(p.Data))
		}
		if p.Next != w.Next || p.Complete != w.Complete {
			return fmt.Sprintf("decoded marks next=%v complete=%v instead of next=%v complete=%v", p.Next, p.Complete, w.Next, w.Complete)
		}
	}
	return ""
}

func trim(s string) string {
	if len(s) > 40 {
		return s[:40]
	}
	return s
}

func envelope(s *scenario) string {
	if s.Op == "decode" {
		return decode(raw(s.Bytes), s.Want.Dec)
	}
	port, data := raw(s.Port), raw(s.Data)
	p := invoke.PortIO{Port: string(port), Data: data, Next: s.Next, Complete: s.Complete}
	first := p.Encode()
	if !bytes.Equal(first, raw(s.Want.Bytes)) {
		return fmt.Sprintf("encoded as %v", head(first))
	}
	for i := range first {
		first[i] ^= 0xff
	}
	if p.Port != string(port) || !bytes.Equal(data, raw(s.Data)) {
		return "the envelope shares memory with what it was made from"
	}
	if again := p.Encode(); !bytes.Equal(again, raw(s.Want.Bytes)) {
		return "encoded differently the second time"
	}
	return decode(raw(s.Want.Bytes), s.Want.Dec)
}

// large is an envelope too big to write down: what the specification says of it is its length and its head.
func large(s *scenario) string {
	port := bytes.Repeat([]byte("n"), s.Pn)
	for i := range port {
		port[i] = byte(i * 7)
	}
	data := make([]byte, s.Dn)
	for i := range data {
		data[i] = byte(i*13 + 5)
	}
	p := invoke.PortIO{Port: string(port), Data: data, Next: s.Next, Complete: s.Complete}
	buf := p.Encode()
	exp := append(append(raw(s.Want.Bytes), port...), data...)
	if !bytes.Equal(buf, exp) {
		return fmt.Sprintf("%d bytes encoded, %d expected, head %v", len(buf), len(exp), head(buf))
	}
	var q invoke.PortIO
	if err := q.Decode(buf); err != nil {
		return "decoding: " + err.Error()
	}
	if q.Port != p.Port || !bytes.Equal(q.Data, data) || q.Next != s.Next || q.Complete != s.Complete {
		return fmt.Sprintf("decoded %d and %d bytes, next=%v complete=%v", len(q.Port), len(q.Data), q.Next, q.Complete)
	}
	for _, cut := range []int{1, 3, s.Dn} {
		if cut > 0 && cut <= s.Pn {
			if err := q.Decode(exp[:3+s.Pn-cut]); !errors.Is(err, invoke.ErrInvalidPortIO) {
				return fmt.Sprintf("a name cut short by %d is accepted: %v", cut, err)
			}
		}
	}
	return ""
}

func head(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// Conversions

var errMine = errors.New("mine")

func fail(s string) error {
	if s == "" {
		return nil
	}
	return errMine
}

func got(v string, has bool, err error) result {
	if err != nil {
		if err == errMine {
			return result{Err: "mine"}
		}
		return result{Err: "conversion"}
	}
	if !has {
		return result{}
	}
	return result{V: v, Has: true}
}

type num interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64
}

func text[T any](v T) string {
	r := reflect.ValueOf(v)
	switch {
	case r.CanInt():
		return strconv.FormatInt(r.Int(), 10)
	case r.CanUint():
		return strconv.FormatUint(r.Uint(), 10)
	case r.CanFloat():
		f := r.Float()
		if math.IsInf(f, 0) || math.IsNaN(f) {
			return strconv.FormatFloat(f, 'g', -1, 64)
		}
		if f == 0 && math.Signbit(f) {
			return "-0"
		}
		return new(big.Rat).SetFloat64(f).RatString()
	case r.Kind() == reflect.Bool:
		return strconv.FormatBool(r.Bool())
	case r.Kind() == reflect.String:
		return r.String()
	case r.Kind() == reflect.Slice:
		return fmt.Sprintf("%x", r.Bytes())
	}
	panic("no text")
}

func parse[T num](s string) (v T) {
	r := reflect.ValueOf(&v).Elem()
	switch {
	case r.CanInt():
		n, err := strconv.ParseInt(s, 10, r.Type().Bits())
		if err != nil {
			panic(err)
		}
		r.SetInt(n)
	case r.CanUint():
		n, err := strconv.ParseUint(s, 10, r.Type().Bits())
		if err != nil {
			panic(err)
		}
		r.SetUint(n)
	default:
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			x, ok := new(big.Rat).SetString(s)
			if !ok {
				panic(err)
			}
			f, _ = x.Float64()
		}
		r.SetFloat(f)
		if text(v) != s && s != "NaN" {
			panic("not exact: " + s + " " + text(v))
		}
	}
	return
}

type conv func(s *scenario) [2]result

func optional[I, T any](s *scenario, v I, plain func(I, error) (T, error), nillable func(*I, error) (*T, error)) [2]result {
	var in *I
	if s.Has {
		in = new(I)
		*in = v
	}
	pv, pe := plain(v, fail(s.Err))
	nv, ne := nillable(in, fail(s.Err))
	out := [2]result{got(text(pv), s.Has, pe)}
	if nv != nil && ne == nil {
		out[1] = got(text(*nv), true, ne)
	} else {
		out[1] = got("", false, ne)
	}
	return out
}

type pair struct{ from, to string }

var numbers = map[pair]conv{}

func to[T, I num](from, name string) {
	numbers[pair{from, name}] = func(s *scenario) [2]result {
		var v I
		if s.Has {
			v = parse[I](s.V)
		}
		return optional(s, v, convert.Numeric[T, I], convert.NillableNumeric[T, I])
	}
}

type (
	nInt     int
	nInt8    int8
	nInt16   int16
	nInt32   int32
	nInt64   int64
	nUint    uint
	nUint8   uint8
	nUint16  uint16
	nUint32  uint32
	nUint64  uint64
	nFloat32 float32
	nFloat64 float64
	nString  string
	nBool    bool
	nBytes   []byte
)

func from[I num](name string) {
	to[nInt, I](name, "int")
	to[nInt8, I](name, "int8")
	to[nInt16, I](name, "int16")
	to[nInt32, I](name, "int32")
	to[nInt64, I](name, "int64")
	to[nUint, I](name, "uint")
	to[nUint8, I](name, "uint8")
	to[nUint16, I](name, "uint16")
	to[nUint32, I](name, "uint32")
	to[nUint64, I](name, "uint64")
	to[nFloat32, I](name, "float32")
	to[nFloat64, I](name, "float64")
	to[I, I](name, "same")
}

func init() {
	from[int]("int")
	from[int8]("int8")
	from[int16]("int16")
	from[int32]("int32")
	from[int64]("int64")
	from[uint]("uint")
	from[uint8]("uint8")
	from[uint16]("uint16")
	from[uint32]("uint32")
	from[uint64]("uint64")
	from[float32]("float32")
	from[float64]("float64")
}

func numeric(s *scenario) string {
	f := numbers[pair{s.From, s.To}]
	for n, r := range f(s) {
		if why := same([]string{"Numeric", "NillableNumeric"}[n], r, s.Want.Res); why != "" {
			return why
		}
	}
	return ""
}

func same(what string, g, w result) string {
	if g != w {
		return fmt.Sprintf("%s gives %+v instead of %+v", what, g, w)
	}
	return ""
}

// ptr is the value, or nil when it is absent.
func ptr[T any](s *scenario, v T) *T {
	if !s.Has {
		return nil
	}
	return &v
}

func failing[T any](s *scenario, f func(string) T) func(string) (T, error) {
	return func(v string) (T, error) {
		if s.Bad {
			var none T
			return none, errors.New("bad")
		}
		return f(v), nil
	}
}

func others(s *scenario) string {
	w := s.Want.Res
	if w.V == "?" {
		w.V = ""
	}
	// An error says nothing about whether there is a value.
	plain := w
	if !s.Has && s.Err == "" {
		// There is no absent value here: the zero value goes through.
		plain = result{Has: true}
	}
	switch s.Op {
	case "string":
		v, err := convert.String[nString](s.V, fail(s.Err))
		if why := same("String", got(string(v), true, err), plain); why != "" {
			return why
		}
		in := ptr(s, s.V)
		p, err := convert.NillableString[nString](in, fail(s.Err))
		if err != nil || p == nil {
			return same("NillableString", got("", false, err), w)
		}
		if why := same("NillableString", got(string(*p), true, nil), w); why != "" {
			return why
		}
		*in = "changed"
		return same("NillableString, afterwards,", got(string(*p), true, nil), w)
	case "bool":
		b := s.V == "true"
		if plain.V == "" && plain.Has {
			plain.V = "false"
		}
		v, err := convert.Bool[nBool](b, fail(s.Err))
		if why := same("Bool", got(text(v), true, err), plain); why != "" {
			return why
		}
		p, err := convert.NillableBool[nBool](ptr(s, b), fail(s.Err))
		if err != nil || p == nil {
			return same("NillableBool", got("", false, err), w)
		}
		return same("NillableBool", got(text(*p), true, nil), w)
	case "bytes":
		var in []byte
		if s.Has {
			in = []byte(s.V)
		}
		v, err := convert.ByteArray[nBytes, []byte](in, fail(s.Err))
		if err == nil && s.Has != (v != nil) {
			return fmt.Sprintf("ByteArray: present %v, converted present %v", s.Has, v != nil)
		}
		return same("ByteArray", got(string(v), s.Has, err), w)
	case "parse":
		calls := 0
		f := func(v string) (nString, error) {
			calls++
			return failing(s, func(v string) nString { return nString(v) })(v)
		}
		max := 1
		if s.Err != "" {
			max = 0
		}
		v, err := convert.Parse(f)(s.V, fail(s.Err))
		if s.Has {
			if why := same("Parse", got(string(v), true, err), w); why != "" {
				return why
			}
			if calls != max {
				return fmt.Sprintf("Parse converts %d times", calls)
			}
		}
		calls = 0
		if !s.Has {
			max = 0
		}
		p, err := convert.NillableParse(f)(ptr(s, s.V), fail(s.Err))
		if calls != max {
			return fmt.Sprintf("NillableParse converts %d times", calls)
		}
		if err != nil || p == nil {
			return same("NillableParse", got("", false, err), w)
		}
		return same("NillableParse", got(string(*p), true, nil), w)
	case "format":
		f := func(v *int) string { return strconv.Itoa(*v) }
		if !s.Has {
			if p := convert.Format(f)(nil); p != nil {
				return "Format of nothing is " + *p
			}
			return ""
		}
		n, _ := strconv.Atoi(s.V)
		p := convert.Format(f)(&n)
		if p == nil {
			return "Format of something is nothing"
		}
		q := convert.Format(f)(new(int))
		if q == p || *p != s.V {
			return "Format gives " + *p
		}
		return ""
	}
	return "unknown " + s.Op
}

func moment(t *when) time.Time {
	loc := time.UTC
	if t.Off != 0 {
		loc = time.FixedZone("", t.Off*60)
	}
	return time.Unix(t.Day*86400+t.Sec, t.Nano).In(loc)
}

func times(s *scenario) string {
	t := moment(s.T)
	if v := convert.TimeToString(t); v != s.Want.Text {
		return fmt.Sprintf("TimeToString gives %s instead of %s", v, s.Want.Text)
	}
	p := convert.TimeToStringPtr(&t)
	if p == nil || *p != s.Want.Text {
		return "TimeToStringPtr differs from " + s.Want.Text
	}
	if convert.TimeToStringPtr(nil) != nil {
		return "TimeToStringPtr of nothing is something"
	}
	for _, text := range []string{s.Want.Text, s.Want.Alt} {
		text := text
		u, err := convert.StringToTime(text, nil)
		v, err2 := convert.StringToTimePtr(&text, nil)
		if err != nil || err2 != nil || v == nil {
			return fmt.Sprintf("%s is not read: %v, %v", text, err, err2)
		}
		for n, x := range []time.Time{u, *v} {
			_, off := x.Zone()
			if !x.Equal(t) || off != s.T.Off*60 {
				return fmt.Sprintf("%s is read (%d) as %v", text, n, x)
			}
		}
		// A text that is not a time is an error, whichever way it is asked for.
		for _, bad := range []string{text[:len(text)-1], text + "x", "x" + text, ""} {
			bad := bad
			if _, err := convert.StringToTime(bad, nil); err == nil {
				return fmt.Sprintf("%q is a time", bad)
			}
			if _, err := convert.StringToTimePtr(&bad, nil); err == nil {
				return fmt.Sprintf("%q is a time", bad)
			}
		}
		if _, err := convert.StringToTime(text, errMine); err != errMine {
			return fmt.Sprintf("StringToTime gives %v for an error", err)
		}
		if _, err := convert.StringToTimePtr(&text, errMine); err != errMine {
			return fmt.Sprintf("StringToTimePtr gives %v for an error", err)
		}
	}
	if v, err := convert.StringToTimePtr(nil, nil); v != nil || err != nil {
		return fmt.Sprintf("StringToTimePtr of nothing gives %v, %v", v, err)
	}
	if _, err := convert.StringToTimePtr(nil, errMine); err != errMine {
		return fmt.Sprintf("StringToTimePtr of nothing and an error gives error %v", err)
	}
	return ""
}

func runOne(s *scenario) (why string) {
	defer func() {
		if p := recover(); p != nil {
			why = fmt.Sprint("panic: ", p)
		}
	}()
	switch s.Op {
	case "encode", "decode":
		return envelope(s)
	case "large":
		return large(s)
	case "num":
		return numeric(s)
	case "time":
		return times(s)
	}
	return others(s)
}

func TestReplay(t *testing.T) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Skip("no input")
	}
	defer in.Close()
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	enc := json.NewEncoder(out)
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var s scenario
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			t.Fatal(err)
		}
		enc.Encode(map[string]any{"start": s.ID})
		why := runOne(&s)
		enc.Encode(map[string]any{"id": s.ID, "ok": why == "", "why": why})
	}
	enc.Encode(map[string]any{"end": true})
}
