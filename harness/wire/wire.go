// Package wire is the harness' own encoder and decoder of the frames of the
// protocol. It shares no code with the implementation under test.
package wire

import "encoding/binary"

const (
	RR      = 4
	FNF     = 5
	RS      = 6
	RC      = 7
	REQN    = 8
	CANCEL  = 9
	PAYLOAD = 10
	ERROR   = 11

	Next     = 0x20
	Complete = 0x40
	Follow   = 0x80
	Meta     = 0x100
	Ignore   = 0x200
)

type Frame struct {
	Type     int
	ID       uint32
	Flags    int
	N        uint32 // credit or error code
	Metadata []byte
	Data     []byte
}

func put24(b []byte, n int) []byte {
	return append(b, byte(n>>16), byte(n>>8), byte(n))
}

// Encode writes a frame without its length.
func Encode(f Frame) []byte {
	var b []byte
	b = binary.BigEndian.AppendUint32(b, f.ID)
	flags := f.Flags
	if len(f.Metadata) > 0 {
		flags |= Meta
	}
	b = binary.BigEndian.AppendUint16(b, uint16(f.Type<<10|flags))
	switch f.Type {
	case RS, RC, REQN, ERROR:
		b = binary.BigEndian.AppendUint32(b, f.N)
	}
	if flags&Meta != 0 {
		b = put24(b, len(f.Metadata))
		b = append(b, f.Metadata...)
	}
	return append(b, f.Data...)
}

// Framed writes a frame with its 24-bit length.
func Framed(f Frame) []byte {
	e := Encode(f)
	return append(put24(nil, len(e)), e...)
}

// Decode reads a frame without its length.
func Decode(b []byte) (f Frame, ok bool) {
	if len(b) < 6 {
		return f, false
	}
	f.ID = binary.BigEndian.Uint32(b)
	tf := binary.BigEndian.Uint16(b[4:])
	f.Type = int(tf >> 10)
	f.Flags = int(tf & 0x3ff)
	b = b[6:]
	switch f.Type {
	case RS, RC, REQN, ERROR:
		if len(b) < 4 {
			return f, false
		}
		f.N = binary.BigEndian.Uint32(b)
		b = b[4:]
	}
	if f.Flags&Meta != 0 {
		if len(b) < 3 {
			return f, false
		}
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		if len(b) < 3+n {
			return f, false
		}
		f.Metadata = b[3 : 3+n]
		b = b[3+n:]
	}
	f.Data = b
	return f, true
}

// Split takes the complete length-prefixed chunks off the front of b.
func Split(b []byte) (chunks [][]byte, rest []byte) {
	for len(b) >= 3 {
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		if len(b) < 3+n {
			break
		}
		chunks = append(chunks, b[3:3+n])
		b = b[3+n:]
	}
	return chunks, b
}
