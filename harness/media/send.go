package verifmedia

import (
	"encoding/binary"
	"math/rand"
)

// Frame is one VP8 frame of a sender.
type Frame struct {
	Idx   int // 1, 2, ...
	Key   bool
	Parts []int  // bytes of each packet; together at least 10, or the frame is invalid
	Start []int  // packets (1-based, > 1) that start a further partition
	TS    uint32 // RTP timestamp
	W, H  int
}

// Size is the number of bytes of the frame.
func (f *Frame) Size() int {
	n := 0
	for _, p := range f.Parts {
		n += p
	}
	return n
}

// Data is the content of the frame: no two frames of a sender are the same.
func (f *Frame) Data(sender int) []byte {
	r := rand.New(rand.NewSource(int64(sender)<<32 + int64(f.Idx)))
	size := f.Size()
	b := make([]byte, max(size, 10))
	r.Read(b)
	b[0] &^= 1
	if !f.Key {
		b[0] |= 1
	}
	b[1], b[2] = byte(f.Idx), byte(f.Idx>>8)
	if f.Key {
		b[3], b[4], b[5] = 0x9d, 0x01, 0x2a
		binary.LittleEndian.PutUint16(b[6:], uint16(f.W)|uint16(r.Intn(4))<<14)
		binary.LittleEndian.PutUint16(b[8:], uint16(f.H)|uint16(r.Intn(4))<<14)
	}
	return b[:size]
}

// Numbering is how a sender describes its packets.
type Numbering struct {
	PidBits    int // 0: not numbered, 7 or 15
	PidBase    int
	X, L, T, K bool // further descriptor fields
}

// Packet is a packet of a sender, in sending order.
type Packet struct {
	F, Part, K int // frame (0 padding, -1 malformed), part 1..K
	Key        bool
	Marker     bool
	TS         uint32
	Payload    []byte
}

// Packets makes the packets of a frame.
func (n *Numbering) Packets(f *Frame, sender int) []Packet {
	data := f.Data(sender)
	var out []Packet
	at, pid := 0, byte(0)
	for i, sz := range f.Parts {
		start := i == 0
		for _, s := range f.Start {
			if s == i+1 && i > 0 && pid < 7 {
				start = true
				pid++
			}
		}
		d := byte(0)
		if start {
			d |= 0x10
		}
		d |= pid
		if !f.Key && f.Idx%5 == 0 {
			d |= 0x20 // non-reference frame
		}
		h := []byte{d}
		if n.PidBits > 0 || n.X || n.L || n.T || n.K {
			h[0] |= 0x80
			x := byte(0)
			if n.PidBits > 0 {
				x |= 0x80
			}
			if n.L {
				x |= 0x40
			}
			if n.T {
				x |= 0x20
			}
			if n.K {
				x |= 0x10
			}
			h = append(h, x)
			if n.PidBits == 7 {
				h = append(h, byte(n.PidBase+f.Idx)&0x7f)
			}
			if n.PidBits == 15 {
				v := uint16(n.PidBase+f.Idx) & 0x7fff
				h = append(h, 0x80|byte(v>>8), byte(v))
			}
			if n.L {
				h = append(h, byte(f.Idx*7))
			}
			if n.T || n.K {
				h = append(h, byte(f.Idx*37))
			}
		}
		out = append(out, Packet{F: f.Idx, Part: i + 1, K: len(f.Parts), Key: f.Key, Marker: i == len(f.Parts)-1, TS: f.TS,
			Payload: append(h, data[at:at+sz]...)})
		at += sz
	}
	return out
}

// Opus is the payload of an audio packet: no two of a sender are the same.
func Opus(sender, idx, size int) []byte {
	r := rand.New(rand.NewSource(int64(sender)<<32 + 1<<31 + int64(idx)))
	b := make([]byte, size)
	r.Read(b)
	b[0] = 0x78 | b[0]&4
	b[1], b[2] = byte(idx), byte(idx>>8)
	return b
}

// Malformed VP8 payloads: nothing in them is VP8 data.
var Malformed = [][]byte{{0x90}, {0x80}, {0x90, 0x80}, {0x90, 0xC0}, {0x90, 0x80, 0x85}, {0x90, 0xE0, 0x01}, {0x10}, {0x00},
	{0x90, 0x80, 0x85, 0x01}, {0x90, 0x20}, {0x90, 0x40, 0x01}}
