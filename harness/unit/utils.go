package verifunit

import (
	"context"
	"encoding/json"
	"math/rand"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/utils"
	"github.com/pion/rtcp"
	"github.com/pion/rtp"
)

func init() {
	domains["jb"] = jbDomain
	domains["unwrap"] = unwrapDomain
	domains["rl"] = rlDomain
	domains["nack"] = nackDomain
}

// ---- jitter buffer -------------------------------------------------------------------------

type jbOp struct {
	Op string `json:"op"` // add, poll, skip, tick
	S  int64  `json:"s"`  // sequence number (add, skip)
	D  int    `json:"d"`  // milliseconds (tick)
}

type jbSched struct {
	Size    int    `json:"size"`
	Timeout int    `json:"timeout"`
	Base    int64  `json:"base"`
	Ops     []jbOp `json:"ops"`
}

func jbRandom(rng *rand.Rand, i int) jbSched {
	s := jbSched{
		Size:    pick(rng, 1, 2, 3, 4, 5, 8, 16, 16, 32, 64, 256, 512),
		Timeout: pick(rng, 0, 5, 15, 55, 105, 205, 205, 395),
		Base:    pick[int64](rng, 0, 0, 1, 5, 100, 511, 512, 65500, 65535, 65536, 131060, 1<<20),
	}
	n := 30 + rng.Intn(90)
	loss := pick(rng, 0, 5, 20, 50)
	dup := pick(rng, 0, 0, 10, 30)
	reord := pick(rng, 0, 0, 10, 40)
	jump := pick(rng, 0, 0, 0, 4)
	pollEach := rng.Intn(3) > 0
	tickMs := pick(rng, 0, 10, 10, 20, 60)
	next := s.Base
	var late []int64
	var sent []int64
	for k := 0; k < n; k++ {
		emit := func(q int64) {
			s.Ops = append(s.Ops, jbOp{Op: "add", S: q})
			if pollEach || rng.Intn(4) == 0 {
				s.Ops = append(s.Ops, jbOp{Op: "poll"})
			}
		}
		switch r := rng.Intn(100); {
		case k > 0 && r < loss:
			if rng.Intn(3) == 0 {
				late = append(late, next)
			}
			next += 1
		case k > 0 && r < loss+reord && reord > 0:
			late = append(late, next)
			next++
		default:
			emit(next)
			sent = append(sent, next)
			next++
		}
		if len(late) > 0 && rng.Intn(3) == 0 {
			j := rng.Intn(len(late))
			q := late[j]
			late = append(late[:j], late[j+1:]...)
			emit(q)
			sent = append(sent, q)
		}
		if len(sent) > 0 && rng.Intn(100) < dup {
			j := len(sent) - 1 - rng.Intn(min(len(sent), 12))
			emit(sent[j])
		}
		if rng.Intn(100) < jump {
			next += int64(rng.Intn(2*s.Size + 2))
		}
		if rng.Intn(100) < 6 && next > s.Base+2 {
			// give up on a number near the newest one
			q := next - 1 - int64(rng.Intn(8))
			if q >= 0 {
				s.Ops = append(s.Ops, jbOp{Op: "skip", S: q})
			}
		}
		if tickMs > 0 && rng.Intn(2) == 0 {
			s.Ops = append(s.Ops, jbOp{Op: "tick", D: tickMs * (1 + rng.Intn(3))})
		}
		if rng.Intn(40) == 0 {
			s.Ops = append(s.Ops, jbOp{Op: "tick", D: 400})
			for x := rng.Intn(4); x > 0; x-- {
				s.Ops = append(s.Ops, jbOp{Op: "poll"})
			}
		}
	}
	for x := 0; x < 6; x++ {
		s.Ops = append(s.Ops, jbOp{Op: "tick", D: 400}, jbOp{Op: "poll"})
	}
	return s
}

func jbDomain(t *testing.T, job *Job, i int, sched json.RawMessage, rng *rand.Rand, tr *Trace) {
	var s jbSched
	if sched != nil {
		if err := json.Unmarshal(sched, &s); err != nil {
			t.Fatal(err)
		}
	} else {
		s = jbRandom(rng, i)
	}
	tr.Cfg = M{"size": s.Size, "timeout": s.Timeout}
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				tr.add(M{"op": "crash", "msg": crashMsg(r)})
			}
		}()
		jb := utils.NewJitterBuffer(uint16(s.Size), uint16(s.Timeout), context.Background())
		tags := map[*rtp.Packet]int{}
		held := map[int64]bool{} // numbers ever added: give-ups are only issued for others
		now := 0
		for _, o := range s.Ops {
			switch o.Op {
			case "add":
				q := o.S
				if sched != nil {
					q += s.Base
				}
				p := &rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(q)}, Payload: []byte{1}}
				tags[p] = len(tags) + 1
				ok := jb.Add(q, p)
				held[q] = true
				tr.add(M{"op": "add", "s": q, "t": tags[p], "ok": ok})
			case "poll":
				ps, skip := jb.NextPackets()
				out := make([]int, 0, len(ps))
				for _, p := range ps {
					out = append(out, tags[p])
				}
				ev := M{"op": "poll", "now": now, "out": out, "skip": skip, "named": false, "last": 0}
				if skip && len(ps) > 0 {
					if q, ok := jb.GetAndClearLastSkipped(); ok {
						ev["named"] = true
						ev["last"] = q
					}
				}
				tr.add(ev)
			case "skip":
				q := o.S
				if sched != nil {
					q += s.Base
				}
				if held[q] {
					continue
				}
				jb.SkipPacket(q)
				tr.add(M{"op": "skip", "s": q})
			case "tick":
				time.Sleep(time.Duration(o.D) * time.Millisecond)
				now += o.D
			}
		}
	})
}

// ---- sequence unwrapper --------------------------------------------------------------------

type unwrapSched struct {
	Base int     `json:"base"` // bits
	In   []int64 `json:"in"`   // unwrapped numbers; the code is given them modulo 2^base
}

func unwrapDomain(t *testing.T, job *Job, i int, sched json.RawMessage, rng *rand.Rand, tr *Trace) {
	var s unwrapSched
	if sched != nil {
		if err := json.Unmarshal(sched, &s); err != nil {
			t.Fatal(err)
		}
	} else {
		s.Base = 16
		first := pick[int64](rng, 0, 1, 2, 100, 32767, 32768, 32769, 65533, 65535, rng.Int63n(65536))
		s.In = append(s.In, first)
		hi := first
		n := 60 + rng.Intn(120)
		stride := pick[int64](rng, 1, 3, 900, 9000, 20000, 32767)
		for k := 0; k < n; k++ {
			var x int64
			switch rng.Intn(8) {
			case 0: // late
				x = hi - rng.Int63n(min(32767, max(hi-first, 0)+1)+0)
			case 1: // the limits
				x = pick(rng, hi+32767, hi-32767, hi, hi+1, hi-1)
			case 2: // just around a wrap
				x = (hi/65536+1)*65536 + rng.Int63n(5) - 2
			case 3:
				x = hi/65536*65536 + rng.Int63n(5) - 2
			default:
				x = hi + 1 + rng.Int63n(stride)
			}
			if x-hi > 32767 || hi-x > 32767 || x < first {
				x = hi + 1
			}
			s.In = append(s.In, x)
			if x > hi {
				hi = x
			}
		}
	}
	m := int64(1) << s.Base
	tr.Cfg = M{"m": m}
	su := utils.NewSequenceUnwrapper(s.Base)
	for _, x := range s.In {
		n := ((x % m) + m) % m
		tr.add(M{"op": "unwrap", "n": n, "r": su.Unwrap(uint64(n))})
	}
}

// ---- receive log ---------------------------------------------------------------------------

type rlOp struct {
	Op string `json:"op"` // add, ignore, missing, get
	U  int64  `json:"u"`
	K  int    `json:"k"` // skipLastN
}

type rlSched struct {
	Size int    `json:"size"`
	Ops  []rlOp `json:"ops"`
}

func rlRandom(rng *rand.Rand, tier string) rlSched {
	s := rlSched{Size: pick(rng, 64, 64, 64, 128, 256, 1024, 1024)}
	if rng.Intn(12) == 0 {
		s.Size = pick(rng, 2048, 16384, 32768)
	}
	base := pick[int64](rng, 65536, 65537, 70000, 98304, 131071, 131060, 131072+65530, 65536+rng.Int63n(65536))
	end := base
	first := base
	s.Ops = append(s.Ops, rlOp{Op: "add", U: base})
	n := 40 + rng.Intn(100)
	loss := pick(rng, 0, 10, 40)
	sz := int64(s.Size)
	for k := 0; k < n; k++ {
		switch r := rng.Intn(100); {
		case r < loss:
			end += 1 + rng.Int63n(3)
			s.Ops = append(s.Ops, rlOp{Op: "add", U: end + 1})
			end++
		case r < loss+15: // late or duplicate, inside or outside the window
			x := end - rng.Int63n(min(32767, 2*sz))
			s.Ops = append(s.Ops, rlOp{Op: "add", U: x})
		case r < loss+18: // jump
			end += 1 + rng.Int63n(min(32766, pick(rng, sz, 2*sz, 4*sz)))
			s.Ops = append(s.Ops, rlOp{Op: "add", U: end})
		case r < loss+22:
			x := end - rng.Int63n(min(32767, sz+sz/4))
			s.Ops = append(s.Ops, rlOp{Op: "ignore", U: x})
		default:
			end++
			s.Ops = append(s.Ops, rlOp{Op: "add", U: end})
		}
		if rng.Intn(4) == 0 {
			s.Ops = append(s.Ops, rlOp{Op: "missing", K: pick(rng, 0, 0, 1, 10, 10, 20, 70)})
		}
		if rng.Intn(4) == 0 {
			x := end + 3 - rng.Int63n(min(32700, 2*sz))
			s.Ops = append(s.Ops, rlOp{Op: "get", U: x})
		}
	}
	_ = first
	s.Ops = append(s.Ops, rlOp{Op: "missing", K: 0}, rlOp{Op: "missing", K: 10})
	return s
}

func rlDomain(t *testing.T, job *Job, i int, sched json.RawMessage, rng *rand.Rand, tr *Trace) {
	var s rlSched
	if sched != nil {
		if err := json.Unmarshal(sched, &s); err != nil {
			t.Fatal(err)
		}
	} else {
		s = rlRandom(rng, job.Tier)
	}
	tr.Cfg = M{"size": s.Size}
	rl, err := utils.NewReceiveLog(uint16(s.Size))
	if err != nil {
		tr.add(M{"op": "crash", "msg": err.Error()})
		return
	}
	// project the answers (16 bit) onto the unwrapped numbering of the driver: the number closest to the newest
	end, started := int64(0), false
	lift := func(q uint16) int64 {
		d := int64(int16(q - uint16(end)))
		return end + d
	}
	for _, o := range s.Ops {
		switch o.Op {
		case "add":
			rl.Add(uint16(o.U))
			if !started || o.U > end {
				end, started = o.U, true
			}
			tr.add(M{"op": "add", "u": o.U})
		case "ignore":
			rl.IgnoreSeqNum(uint16(o.U))
			tr.add(M{"op": "ignore", "u": o.U})
		case "missing":
			out := []int64{}
			for _, q := range rl.MissingSeqNumbers(uint16(o.K)) {
				out = append(out, lift(q))
			}
			n := len(out)
			if n > 3000 { // keep traces small: a digest of the tail is enough
				tr.add(M{"op": "missing", "k": o.K, "out": out[:3000], "n": n})
			} else {
				tr.add(M{"op": "missing", "k": o.K, "out": out, "n": n})
			}
		case "get":
			tr.add(M{"op": "get", "u": o.U, "r": rl.Get(uint16(o.U))})
		}
	}
}

// ---- NACK encoding -------------------------------------------------------------------------

func nackDomain(t *testing.T, job *Job, i int, sched json.RawMessage, rng *rand.Rand, tr *Trace) {
	enc := func(list []uint16) {
		pairs := utils.NackPairs(list)
		ps := [][]int64{}
		for _, p := range pairs {
			ps = append(ps, []int64{int64(p.PacketID), int64(p.LostPackets)})
		}
		tr.add(M{"op": "enc", "in": ints(list), "pairs": ps, "dec": ints(utils.NackPairsToSequenceNumbers(pairs))})
	}
	if sched != nil {
		// the specification's ring is small, with 4 numbers per pair: stretch it by 4, across the wrap-around
		var s struct {
			In []int `json:"in"`
		}
		if err := json.Unmarshal(sched, &s); err != nil {
			t.Fatal(err)
		}
		for _, off := range []int{0, 1} {
			list := []uint16{}
			for k, x := range s.In {
				if k > 0 && x < s.In[k-1] {
					x += 20 // wrapped in the small ring
				}
				list = append(list, uint16(65536-30+4*x+off*k))
			}
			enc(list)
		}
		return
	}
	for k := 0; k < 40; k++ {
		if rng.Intn(4) == 0 { // decoding of arbitrary pairs
			ps := [][]int64{}
			pairs := []rtcp.NackPair{}
			for x := rng.Intn(5); x > 0; x-- {
				p := rtcp.NackPair{PacketID: uint16(rng.Intn(65536)), LostPackets: rtcp.PacketBitmap(rng.Intn(65536))}
				pairs = append(pairs, p)
				ps = append(ps, []int64{int64(p.PacketID), int64(p.LostPackets)})
			}
			tr.add(M{"op": "dec", "pairs": ps, "dec": ints(utils.NackPairsToSequenceNumbers(pairs))})
			continue
		}
		n := pick(rng, 0, 1, 2, 3, 5, 17, 18, 34, 60)
		cur := uint16(rng.Intn(65536))
		if rng.Intn(2) == 0 {
			cur = uint16(65536 - rng.Intn(60))
		}
		gap := pick(rng, 1, 2, 4, 16, 17, 18, 40, 700)
		list := []uint16{}
		for x := 0; x < n; x++ {
			list = append(list, cur)
			switch rng.Intn(5) {
			case 0:
				cur += uint16(pick(rng, 15, 16, 17))
			default:
				cur += uint16(1 + rng.Intn(gap))
			}
		}
		enc(list)
	}
}
