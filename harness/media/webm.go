// Package verifmedia reads what the recorder writes, independently of the libraries it writes with,
// and makes the media that is sent to it.
package verifmedia

import (
	"encoding/binary"
	"fmt"
)

// Track is a track entry of a WebM file.
type Track struct {
	Num, Type int
	Codec     string
	W, H      int
	Rate      float64
	Channels  int
}

// Block is one simple block.
type Block struct {
	Track int
	Key   bool
	T     int64 // milliseconds
	Data  []byte
	End   int // offset behind the block
}

// WebM is a parsed file: a complete one, or a prefix of one (Partial).
type WebM struct {
	DocType string
	Tracks  []Track
	Blocks  []Block
	Err     string // what is wrong with it, other than being cut off
	Header  bool   // the header, up to the first cluster, is complete
	Partial bool   // ends in the middle of an element
	Scale   uint64
}

func vint(b []byte, keep bool) (v uint64, n int, unknown bool) {
	if len(b) == 0 {
		return 0, 0, false
	}
	n = 1
	for m := byte(0x80); m != 0 && b[0]&m == 0; m >>= 1 {
		n++
	}
	if n > 8 {
		return 0, -1, false
	}
	if len(b) < n {
		return 0, 0, false
	}
	v = uint64(b[0])
	if !keep {
		v &= 1<<(8-n) - 1
	}
	all := v == 1<<(8-n)-1
	for i := 1; i < n; i++ {
		v = v<<8 | uint64(b[i])
		all = all && b[i] == 0xff
	}
	return v, n, all && !keep
}

type elem struct {
	id, size uint64
	unknown  bool
	body     int // offset of the body
	partial  bool
	bad      bool
}

func next(b []byte, at int) elem {
	id, n, _ := vint(b[at:], true)
	if n < 0 {
		return elem{bad: true}
	}
	if n == 0 {
		return elem{partial: true}
	}
	sz, m, unk := vint(b[at+n:], false)
	if m < 0 {
		return elem{bad: true}
	}
	if m == 0 {
		return elem{partial: true}
	}
	e := elem{id: id, size: sz, unknown: unk, body: at + n + m}
	if !unk && uint64(len(b)-e.body) < sz {
		e.partial = true
	}
	return e
}

func be(b []byte) uint64 {
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

const (
	idEBML, idSegment, idInfo, idTracks, idCluster = 0x1A45DFA3, 0x18538067, 0x1549A966, 0x1654AE6B, 0x1F43B675
	idTimecode, idSimpleBlock                      = 0xE7, 0xA3
)

// ParseWebM reads a recording.
func ParseWebM(b []byte) *WebM {
	w := &WebM{}
	fail := func(f string, a ...interface{}) *WebM {
		if w.Err == "" {
			w.Err = fmt.Sprintf(f, a...)
		}
		return w
	}
	if len(b) == 0 {
		w.Partial = true
		return w
	}
	e := next(b, 0)
	if e.bad || (!e.partial && e.id != idEBML) {
		return fail("no EBML header")
	}
	if e.partial {
		w.Partial = true
		return w
	}
	for at := e.body; at < e.body+int(e.size); {
		c := next(b, at)
		if c.bad || c.partial {
			return fail("bad EBML header")
		}
		if c.id == 0x4282 {
			w.DocType = string(b[c.body : c.body+int(c.size)])
		}
		at = c.body + int(c.size)
	}
	if w.DocType != "webm" {
		fail("doc type %q", w.DocType)
	}
	at := e.body + int(e.size)
	if at == len(b) {
		w.Partial = true
		return w
	}
	s := next(b, at)
	if s.bad {
		return fail("no segment")
	}
	if s.partial && s.body == 0 {
		w.Partial = true
		return w
	}
	if s.id != idSegment {
		return fail("no segment")
	}
	end := len(b)
	if !s.unknown {
		end = s.body + int(s.size)
		if end > len(b) {
			w.Partial, end = true, len(b)
		} else if end < len(b) {
			fail("bytes behind the segment")
		}
	}
	at = s.body
	var base int64
	inCluster, haveInfo, haveTracks, haveTime := false, false, false, false
	for at < end {
		c := next(b[:end], at)
		if c.bad {
			return fail("bad element at %d", at)
		}
		if c.partial && (c.body == 0 || c.id != idCluster) {
			w.Partial = true
			return w
		}
		switch c.id {
		case idInfo:
			haveInfo = true
			for p := c.body; p < c.body+int(c.size); {
				x := next(b, p)
				if x.bad || x.partial {
					return fail("bad info")
				}
				if x.id == 0x2AD7B1 {
					w.Scale = be(b[x.body : x.body+int(x.size)])
				}
				p = x.body + int(x.size)
			}
		case idTracks:
			haveTracks = true
			if err := w.tracks(b[c.body : c.body+int(c.size)]); err != "" {
				return fail("%s", err)
			}
		case idCluster:
			if !haveInfo || !haveTracks {
				return fail("cluster before info and tracks")
			}
			w.Header = true
			inCluster, haveTime = true, false
			at = c.body // descend
			continue
		case idTimecode:
			if !inCluster {
				return fail("timecode outside of a cluster")
			}
			base, haveTime = int64(be(b[c.body:c.body+int(c.size)])), true
		case idSimpleBlock:
			if !inCluster || !haveTime {
				return fail("block outside of a cluster")
			}
			d := b[c.body : c.body+int(c.size)]
			tr, n, _ := vint(d, false)
			if n <= 0 || len(d) < n+3 {
				return fail("bad block at %d", at)
			}
			rel := int16(binary.BigEndian.Uint16(d[n:]))
			if d[n+2]&0x06 != 0 {
				return fail("laced block")
			}
			known := false
			for _, t := range w.Tracks {
				known = known || t.Num == int(tr)
			}
			if !known {
				return fail("block of unknown track %d", tr)
			}
			w.Blocks = append(w.Blocks, Block{Track: int(tr), Key: d[n+2]&0x80 != 0, T: base + int64(rel), Data: d[n+3:], End: c.body + int(c.size)})
			if base+int64(rel) < 0 {
				fail("negative time")
			}
		case 0xEC, 0x1C53BB6B, 0x114D9B74, 0x1254C367, 0xAB, 0xA7, 0xBF: // void, cues, seek head, tags, prev size, position, crc
		default:
			return fail("unexpected element %x at %d", c.id, at)
		}
		at = c.body + int(c.size)
	}
	if !inCluster && !w.Partial {
		w.Header = haveInfo && haveTracks
	}
	return w
}

func (w *WebM) tracks(b []byte) string {
	for at := 0; at < len(b); {
		c := next(b, at)
		if c.bad || c.partial {
			return "bad tracks"
		}
		if c.id == 0xAE {
			t := Track{}
			e := b[c.body : c.body+int(c.size)]
			for p := 0; p < len(e); {
				x := next(e, p)
				if x.bad || x.partial {
					return "bad track entry"
				}
				v := e[x.body : x.body+int(x.size)]
				switch x.id {
				case 0xD7:
					t.Num = int(be(v))
				case 0x83:
					t.Type = int(be(v))
				case 0x86:
					t.Codec = string(v)
				case 0xE0, 0xE1:
					for q := 0; q < len(v); {
						y := next(v, q)
						if y.bad || y.partial {
							return "bad track settings"
						}
						u := v[y.body : y.body+int(y.size)]
						switch y.id {
						case 0xB0:
							t.W = int(be(u))
						case 0xBA:
							t.H = int(be(u))
						case 0x9F:
							t.Channels = int(be(u))
						}
						q = y.body + int(y.size)
					}
				}
				p = x.body + int(x.size)
			}
			w.Tracks = append(w.Tracks, t)
		}
		at = c.body + int(c.size)
	}
	return ""
}

// TracksOK says whether the tracks are the ones of a session: VP8 video, Opus audio.
func (w *WebM) TracksOK(video, audio bool) bool {
	v, a, nums := 0, 0, map[int]bool{}
	for _, t := range w.Tracks {
		if nums[t.Num] || t.Num == 0 {
			return false
		}
		nums[t.Num] = true
		switch {
		case t.Type == 1 && t.Codec == "V_VP8":
			v++
		case t.Type == 2 && t.Codec == "A_OPUS":
			a++
		default:
			return false
		}
	}
	n := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	return v == n(video) && a == n(audio)
}

// Of returns the blocks of the tracks of a type (1 video, 2 audio), and the track.
func (w *WebM) Of(typ int) (tr Track, bl []Block) {
	for _, t := range w.Tracks {
		if t.Type == typ {
			tr = t
			for _, b := range w.Blocks {
				if b.Track == t.Num {
					bl = append(bl, b)
				}
			}
			return
		}
	}
	return
}

// IVF is a parsed IVF file.
type IVF struct {
	W, H, Count int
	Rate, Scale uint32
	Frames      []IVFFrame
	Err         string
}

// IVFFrame is a frame of it.
type IVFFrame struct {
	TS   uint64
	Data []byte
}

// ParseIVF reads an IVF file.
func ParseIVF(b []byte) *IVF {
	v := &IVF{}
	if len(b) < 32 || string(b[:4]) != "DKIF" || binary.LittleEndian.Uint16(b[4:]) != 0 || binary.LittleEndian.Uint16(b[6:]) != 32 || string(b[8:12]) != "VP80" {
		v.Err = "bad header"
		return v
	}
	v.W, v.H = int(binary.LittleEndian.Uint16(b[12:])), int(binary.LittleEndian.Uint16(b[14:]))
	v.Rate, v.Scale = binary.LittleEndian.Uint32(b[16:]), binary.LittleEndian.Uint32(b[20:])
	v.Count = int(binary.LittleEndian.Uint32(b[24:]))
	for at := 32; at < len(b); {
		if at+12 > len(b) {
			v.Err = "cut off frame header"
			return v
		}
		n := int(binary.LittleEndian.Uint32(b[at:]))
		if at+12+n > len(b) {
			v.Err = "cut off frame"
			return v
		}
		v.Frames = append(v.Frames, IVFFrame{binary.LittleEndian.Uint64(b[at+4:]), b[at+12 : at+12+n]})
		at += 12 + n
	}
	return v
}
