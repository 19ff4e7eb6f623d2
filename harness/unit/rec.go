package verifunit

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	vm "github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifmedia"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/pion/rtp"
)

func init() { domains["rec"] = recDomain }

// One step of a schedule. Every packet takes the next sequence number of its stream, delivered or not.
type recOp struct {
	Op string `json:"op"` // v, pad, bad, a, tick, close, race
	F  int    `json:"f"`  // v: frame
	P  int    `json:"p"`  // v: part
	L  int    `json:"l"`  // 0 delivered, 1 lost, 2 lost and passed over by the jitter buffer (notified)
	D  int    `json:"d"`  // tick: milliseconds
	N  int    `json:"n"`  // pad, a with L > 0: that many
}

type recFrame struct {
	Key bool `json:"key"`
	K   int  `json:"k"`
	Bad bool `json:"bad"` // invalid: too short, or a keyframe of impossible size
}

type recSched struct {
	Sampler string     `json:"sampler"`
	Video   bool       `json:"video"`
	Audio   bool       `json:"audio"`
	Pid     int        `json:"pid"`
	Frames  []recFrame `json:"frames"`
	Ops     []recOp    `json:"ops"`

	VQ, AQ           int
	IVF              bool
	SeqV, SeqA       uint16
	TSV, TSA         uint32
	PidBase          int
	Steps            [][2]int // per frame: time since the previous one, ms and 1/90 ms
	Parts            [][]int
	Starts           [][]int
	Dims             [][2]int
	ASteps           [][2]int
	Disk             int64
	X, L, T, K, Race bool
	Snap             int // one in so many events is followed by a snapshot
	Tick             bool
	Tag              string
	Late             int // audio (1) or video (2) is announced only after that many operations ...
	LateAt           int
}

// recDetails chooses what the specification abstracts from.
func recDetails(rng *rand.Rand, s *recSched) {
	s.VQ = pick(rng, 2, 2, 4, 8, 32, 256)
	s.AQ = pick(rng, 2, 4, 8, 8, 32)
	s.IVF = rng.Intn(2) == 0
	s.SeqV = pick[uint16](rng, 0, 1, 65535, 65530, 65500, 32760, uint16(rng.Intn(65536)))
	s.SeqA = pick[uint16](rng, 0, 1, 65535, 65530, 65500, 32760, uint16(rng.Intn(65536)))
	s.TSV = pick[uint32](rng, 0, 1, 1<<32-1, 1<<32-9000, 1<<31-4500, rng.Uint32())
	s.TSA = pick[uint32](rng, 0, 1, 1<<32-1, 1<<32-4800, 1<<31-960, rng.Uint32())
	s.PidBase = pick(rng, 0, 1, 120, 126, 127, 128, 32760, 32766, 32767, rng.Intn(32768))
	if s.Pid == 0 {
		s.X, s.L, s.T, s.K = rng.Intn(3) == 0, rng.Intn(3) == 0, rng.Intn(3) == 0, rng.Intn(3) == 0
	} else {
		s.L, s.T, s.K = rng.Intn(2) == 0, rng.Intn(2) == 0, rng.Intn(3) == 0
		if s.Pid == 1 { // as the specification says "numbered"
			s.Pid = pick(rng, 7, 15, 15)
		}
	}
	s.Tick = rng.Intn(3) > 0
	steady := rng.Intn(3) == 0
	w, h := pick(rng, 16, 320, 640, 1280, 8192), pick(rng, 16, 240, 480, 720, 8192)
	for i, f := range s.Frames {
		st := [2]int{pick(rng, 33, 33, 33, 16, 40, 66, 5, 1, 100, 400, 1200), rng.Intn(90)}
		if steady {
			st = [2]int{33, 30}
		}
		if !s.Audio && rng.Intn(60) == 0 {
			st[0] = pick(rng, 5000, 33000, 70000, 3600000)
		}
		s.Steps = append(s.Steps, st)
		if f.Key && rng.Intn(4) == 0 && i > 0 {
			w, h = pick(rng, 16, 176, 640, 1920, 8191), pick(rng, 16, 144, 480, 1080, 8191)
		}
		if s.Sampler != "custom" {
			s.Frames[i].Bad = false
			f.Bad = false
		}
		short := f.Bad && f.K < 10 && (!f.Key || rng.Intn(2) == 0)
		s.Dims = append(s.Dims, [2]int{w, h})
		if f.Bad && f.Key && !short {
			s.Dims[i] = pick(rng, [2]int{15, h}, [2]int{w, 15}, [2]int{8193, h}, [2]int{w, 8193}, [2]int{0, 0}, [2]int{16383, 16383})
		} else if f.Bad && !short {
			s.Frames[i].Bad = false
		}
		var parts, starts []int
		tot := 0
		for k := 0; k < f.K; k++ {
			n := pick(rng, 1, 2, 3, 10, 20, 40, 40)
			if short {
				n = 1
				if k == f.K-1 {
					n += rng.Intn(10 - f.K)
				}
			} else if rng.Intn(30) == 0 {
				n = 1200
			}
			if k == f.K-1 && tot+n < 10 && !short {
				n = 10 - tot
			}
			tot += n
			parts = append(parts, n)
			if k > 0 && rng.Intn(6) == 0 {
				starts = append(starts, k+1)
			}
		}
		s.Parts = append(s.Parts, parts)
		s.Starts = append(s.Starts, starts)
	}
	for _, f := range s.Frames { // the built-in sampler has to have room for a frame
		if s.Sampler == "builtin" && s.VQ < f.K {
			s.VQ = f.K
		}
	}
	s.Snap = pick(rng, 3, 8, 20)
	if rng.Intn(8) == 0 {
		s.Disk = int64(pick(rng, 1, 100, 290, 320, 350, 400, 700, 1500))
	}
	s.Race = s.Race || rng.Intn(4) == 0
}

// recRandom is a longer stream than the specification's behaviours.
func recRandom(rng *rand.Rand, i int) *recSched {
	s := &recSched{Sampler: pick(rng, "custom", "custom", "builtin"), Pid: pick(rng, 0, 7, 15, 15)}
	switch rng.Intn(5) {
	case 0:
		s.Audio = true
	case 1, 2:
		s.Video = true
	default:
		s.Audio, s.Video = true, true
	}
	nf := 0
	if s.Video {
		nf = 10 + rng.Intn(50)
		if rng.Intn(12) == 0 {
			nf = 300
		}
	}
	keyEvery := pick(rng, 3, 8, 20, 1000)
	maxK := pick(rng, 1, 1, 2, 4, 12)
	invalid := pick(rng, 0, 0, 8, 30)
	for f := 0; f < nf; f++ {
		key := f == 0 && rng.Intn(4) > 0 || f > 0 && rng.Intn(keyEvery) == 0
		k := 1 + rng.Intn(maxK)
		if key {
			k += rng.Intn(maxK)
		}
		s.Frames = append(s.Frames, recFrame{key, k, invalid > 0 && rng.Intn(invalid) == 0})
	}
	lossV, lossA := pick(rng, 0, 0, 3, 10, 30), pick(rng, 0, 0, 3, 10, 30)
	burst := pick(rng, 1, 1, 3, 20)
	notif := pick(rng, 0, 50, 100)
	pads, bads := pick(rng, 0, 0, 10), pick(rng, 0, 0, 0, 4)
	midPad := s.Sampler == "custom" && rng.Intn(3) == 0
	ticks := pick(rng, 0, 5, 20)
	stalls := pick(rng, 0, 0, 3)
	perFrame := pick(rng, 1, 2, 2, 3)
	aStart := pick(rng, 0, 0, 0, rng.Intn(nf+1))
	na := 0
	left := 0
	fate := func(loss int) int {
		if left > 0 {
			left--
		} else if rng.Intn(100) < loss {
			left = rng.Intn(burst)
		} else {
			return 0
		}
		if rng.Intn(100) < notif {
			return 2
		}
		return 1
	}
	aLeft := 0
	audio := func(n int) {
		for ; n > 0; n-- {
			l := 0
			if aLeft > 0 {
				aLeft--
				l = 1
			} else if rng.Intn(100) < lossA {
				aLeft = pick(rng, 0, 0, 1, rng.Intn(2*burst), pick(rng, 2, 6, 14, 62, 15, 16, 17))
				l = 1
			}
			s.Ops = append(s.Ops, recOp{Op: "a", L: l})
			na++
		}
	}
	if s.Audio && aStart == 0 {
		audio(rng.Intn(8))
	}
	for f := 1; f <= nf; f++ {
		for p := 1; p <= s.Frames[f-1].K; p++ {
			if p > 1 && midPad && rng.Intn(10) == 0 {
				s.Ops = append(s.Ops, recOp{Op: "pad", L: fate(lossV)})
			}
			if p > 1 && rng.Intn(100) < stalls {
				s.Ops = append(s.Ops, recOp{Op: "tick", D: pick(rng, 500, 1001, 1999, 2000, 2001, 2500)})
			}
			if rng.Intn(100) < bads {
				s.Ops = append(s.Ops, recOp{Op: "bad", L: fate(lossV)})
			}
			s.Ops = append(s.Ops, recOp{Op: "v", F: f, P: p, L: fate(lossV)})
		}
		for rng.Intn(100) < pads {
			s.Ops = append(s.Ops, recOp{Op: "pad", L: fate(lossV)})
		}
		if s.Audio && f >= aStart {
			audio(rng.Intn(perFrame + 1))
		}
		if rng.Intn(100) < ticks {
			s.Ops = append(s.Ops, recOp{Op: "tick", D: pick(rng, 20, 200, 500, 999, 1000, 1001, 1500)})
		}
	}
	if !s.Video {
		audio(20 + rng.Intn(80))
	}
	// a long gap while something is held back, of about as many packets as the queue takes
	if rng.Intn(3) == 0 && len(s.Ops) > 5 {
		at := rng.Intn(len(s.Ops))
		n := pick(rng, 2, 6, 7, 14, 15, 16, 30, 62, 63, 254, 300)
		op := recOp{Op: "a", L: 1, N: n}
		if s.Video && (!s.Audio || rng.Intn(2) == 0) {
			op = recOp{Op: "pad", L: 1, N: n}
		}
		s.Ops = append(s.Ops[:at:at], append([]recOp{op}, s.Ops[at:]...)...)
	}
	if rng.Intn(5) == 0 && len(s.Ops) > 20 {
		at := 10 + rng.Intn(len(s.Ops)-10)
		s.Ops = append(s.Ops[:at:at], append([]recOp{{Op: "close"}}, s.Ops[at:]...)...)
	}
	return s
}

type requester struct{ n int }

func (q *requester) RequestKeyframe() { q.n++ }

func (q *requester) RequestKeyframeForSSRC(uint32) { q.n++ }

type recPacket struct {
	a, race bool
	pkt     *rtp.Packet
	ev      M
}

func recDomain(t *testing.T, job *Job, i int, sched json.RawMessage, rng *rand.Rand, tr *Trace) {
	var s *recSched
	if sched != nil {
		s = &recSched{}
		if err := json.Unmarshal(sched, s); err != nil {
			t.Fatal(err)
		}
	} else {
		s = recRandom(rng, i)
	}
	late, _ := job.Args["late"].(string)
	switch late {
	case "plain":
		s = recLate()
	case "random":
		s = recLateRandom(rng, i)
	}
	recDetails(rng, s)
	if late != "" {
		s.Disk, s.Race, s.Snap = 0, false, 1
	}
	dir := filepath.Join(job.Dir, fmt.Sprint(i))
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	synctest.Test(t, func(t *testing.T) {
		defer caught(tr)
		recRun(t, dir, s, rng, tr)
	})
}

// recLate announces audio only when video is already being recorded (a known finding).
func recLate() *recSched {
	s := &recSched{Sampler: "custom", Video: true, Audio: true, Pid: 15, Tag: "late-track", Late: 1}
	for f := 1; f <= 16; f++ {
		s.Frames = append(s.Frames, recFrame{Key: f%5 == 1, K: 1})
		s.Ops = append(s.Ops, recOp{Op: "v", F: f, P: 1})
		if f == 9 {
			s.LateAt = len(s.Ops)
		}
		if f >= 9 {
			s.Ops = append(s.Ops, recOp{Op: "a"})
		}
	}
	return s
}

// recLateRandom announces one of the tracks in the middle.
func recLateRandom(rng *rand.Rand, i int) *recSched {
	s := recRandom(rng, i)
	for !s.Audio || !s.Video {
		s = recRandom(rng, i)
	}
	s.Tag, s.Late = "late-track", 1+rng.Intn(2)
	at := rng.Intn(len(s.Ops))
	var ops []recOp
	for i, op := range s.Ops {
		if i == at {
			s.LateAt = len(ops)
		}
		if i < at && (op.Op == "a") == (s.Late == 1) && op.Op != "tick" && op.Op != "close" {
			continue
		}
		ops = append(ops, op)
	}
	s.Ops = ops
	return s
}

func recRun(t *testing.T, dir string, s *recSched, rng *rand.Rand, tr *Trace) {
	start := time.Now()
	now := func() int64 { return time.Since(start).Milliseconds() }
	num := vm.Numbering{PidBits: s.Pid, PidBase: s.PidBase, X: s.X, L: s.L, T: s.T, K: s.K}
	// the senders
	var frames []*vm.Frame
	fcfg := []M{}
	ms, rem := int64(0), 0
	for f := range s.Frames {
		if f > 0 {
			ms, rem = ms+int64(s.Steps[f][0]), rem+s.Steps[f][1]
			ms, rem = ms+int64(rem/90), rem%90
		}
		fr := &vm.Frame{Idx: f + 1, Key: s.Frames[f].Key, Parts: s.Parts[f], Start: s.Starts[f], TS: s.TSV + uint32(ms*90) + uint32(rem), W: s.Dims[f][0], H: s.Dims[f][1]}
		frames = append(frames, fr)
		fcfg = append(fcfg, M{"key": fr.Key, "bad": s.Frames[f].Bad, "k": len(fr.Parts), "ms": ms, "rem": rem, "w": fr.W, "h": fr.H})
	}
	snd := []M{}
	mode := pick(rng, "0600", "0640", "0644", "0660")
	cfg := config.Recorder{Directory: dir, DirFileMode: "0700", FileMode: mode, UseCustomSampler: s.Sampler == "custom",
		WriteIVFCopy: s.IVF, VideoPacketQueueSize: uint16(s.VQ), AudioPacketQueueSize: uint16(s.AQ)}
	rec, err := recorder.NewRecorder(context.WithValue(context.Background(), "session", "x"), cfg, "rec.webm")
	if err != nil {
		tr.add(M{"op": "crash", "msg": "NewRecorder: " + err.Error()})
		return
	}
	path := rec.GetFilePath()
	var raced []recPacket
	defer func() {
		tr.Cfg = M{"sampler": s.Sampler, "video": s.Video, "audio": s.Audio, "ivf": s.IVF, "pid": s.Pid, "vq": s.VQ, "aq": s.AQ,
			"frames": fcfg, "snd": snd, "tag": s.Tag, "disk": s.Disk > 0, "race": len(raced) > 0, "late": s.Late}
		defer func() { recover() }()
		rec.Close() // of a crashed recording
	}()
	rq := &requester{}
	rec.SetKeyframeRequester(rq)
	rec.SetHasVideo(s.Video && s.Late != 2)
	rec.SetHasAudio(s.Audio && s.Late != 1)
	setLimit := func(l syscall.Rlimit) { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l) }
	var oldLimit syscall.Rlimit
	if s.Disk > 0 {
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &oldLimit)
		setLimit(syscall.Rlimit{Cur: uint64(s.Disk), Max: oldLimit.Max})
		defer setLimit(oldLimit)
	}

	// snapshots: what a crash would leave behind
	type snapshot struct {
		ev   M
		data []byte
	}
	var snaps []snapshot
	wasThere := false
	snap := func() {
		synctest.Wait()
		b, err := os.ReadFile(path)
		wasThere = wasThere || err == nil
		w := vm.ParseWebM(b)
		_, v := w.Of(1)
		_, a := w.Of(2)
		ev := M{"op": "snap", "prefix": true, "wf": w.Err == "" && (err == nil || !wasThere), "nv": len(v), "na": len(a)}
		snaps = append(snaps, snapshot{ev, b})
		tr.add(ev)
	}
	closed := false
	var closeTs []time.Duration
	doClose := func() {
		ts := rec.Close()
		closeTs = append(closeTs, ts)
		tr.add(M{"op": "close", "ret": true, "ts": ts.Milliseconds(), "now": now()})
		closed = true
	}

	seqV, seqA := int64(s.SeqV), int64(s.SeqA)
	notify := int64(-1)
	var pend []int64 // missing video packets
	ams, arem := int64(0), 0
	racing := false
	push := func(a bool, p *rtp.Packet, ev M) {
		ev["race"] = racing
		ev["now"] = now()
		if racing {
			raced = append(raced, recPacket{a: a, pkt: p, ev: ev})
			return
		}
		n := rq.n
		if a {
			rec.PushAudio(p)
		} else {
			rec.PushVideo(p)
		}
		ev["req"] = rq.n - n
		tr.add(ev)
	}
	video := func(p vm.Packet, l int) {
		seq := seqV
		seqV++
		if l > 0 {
			pend = append(pend, seq)
			if l == 2 {
				notify = seq
			}
			return
		}
		if len(pend) > 0 && notify >= 0 && !racing {
			q := notify
			if rng.Intn(4) == 0 {
				q = pend[rng.Intn(len(pend))]
			}
			n := rq.n
			rec.NotifySkippedPacket(uint16(q))
			tr.add(M{"op": "notify", "seq": q, "req": rq.n - n, "now": now()})
		}
		pend, notify = nil, -1
		push(false, &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: uint16(seq), Timestamp: p.TS, Marker: p.Marker, PayloadType: 96}, Payload: p.Payload},
			M{"op": "v", "seq": seq, "f": p.F, "part": p.Part, "k": p.K, "key": p.Key && p.F > 0})
	}
	var cur []vm.Packet
	lastF := 0
	lastTS := s.TSV
	slow := time.Duration(0)
	for oi, op := range s.Ops {
		if s.Late != 0 && oi == s.LateAt && !closed {
			rec.SetHasAudio(true)
			rec.SetHasVideo(true)
			tr.add(M{"op": "announce"})
		}
		if s.Disk > 0 && oi == len(s.Ops)*2/3 && rng.Intn(2) == 0 {
			synctest.Wait()
			setLimit(oldLimit) // there is space again
		}
		if s.Race && oi == len(s.Ops)-6 && !closed {
			racing = true
		}
		switch op.Op {
		case "v":
			f := frames[op.F-1]
			if op.F != lastF {
				if s.Tick || s.Audio {
					if op.F > 1 {
						time.Sleep(time.Duration(s.Steps[op.F-1][0]) * time.Millisecond)
					}
				}
				cur = num.Packets(f, 1)
				lastF, slow = op.F, 0
			}
			lastTS = f.TS
			video(cur[op.P-1], op.L)
		case "pad":
			n := max(op.N, 1)
			if op.N > 1 {
				notify = -1
			}
			for ; n > 0; n-- {
				video(vm.Packet{TS: lastTS}, op.L)
			}
		case "bad":
			video(vm.Packet{F: -1, TS: lastTS, Payload: vm.Malformed[rng.Intn(len(vm.Malformed))]}, op.L)
		case "a":
			for n := max(op.N, 1); n > 0; n-- {
				id := len(snd) + 1
				if id > 1 {
					st := [2]int{20, 0}
					if rng.Intn(20) == 0 {
						st = [2]int{pick(rng, 1, 20, 400, 1000), rng.Intn(48)}
					}
					ams, arem = ams+int64(st[0]), arem+st[1]
					ams, arem = ams+int64(arem/48), arem%48
				}
				snd = append(snd, M{"ms": ams, "rem": arem})
				seq := seqA
				seqA++
				if !s.Video && s.Tick {
					time.Sleep(20 * time.Millisecond)
				}
				if op.L > 0 {
					continue
				}
				push(true, &rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: uint16(seq), Timestamp: s.TSA + uint32(ams*48) + uint32(arem), PayloadType: 111},
					Payload: vm.Opus(1, id, pick(rng, 3, 10, 40, 100))}, M{"op": "a", "seq": seq, "id": id})
			}
		case "tick":
			d := time.Duration(op.D) * time.Millisecond
			if s.Sampler != "custom" && cur != nil && lastF > 0 && s.Frames[lastF-1].K > 1 { // keep the assembly of a frame below its limit
				if slow+d > 1200*time.Millisecond {
					d = 0
				}
				slow += d
			}
			time.Sleep(d)
		case "close":
			if racing {
				break
			}
			doClose()
			snap()
		}
		if !racing && rng.Intn(s.Snap) == 0 {
			snap()
		}
	}
	if len(raced) > 0 {
		var wg sync.WaitGroup
		run := func(a bool) {
			defer wg.Done()
			for _, p := range raced {
				if p.a == a {
					if a {
						rec.PushAudio(p.pkt)
					} else {
						rec.PushVideo(p.pkt)
					}
				}
			}
		}
		ts := make([]time.Duration, 3)
		wg.Add(5)
		go run(true)
		go run(false)
		for c := range ts {
			go func(c int) { defer wg.Done(); ts[c] = rec.Close() }(c)
		}
		wg.Wait()
		for _, p := range raced {
			p.ev["req"] = 0
			tr.add(p.ev)
		}
		for _, x := range ts {
			tr.add(M{"op": "close", "ret": true, "ts": x.Milliseconds(), "now": now()})
		}
	} else {
		doClose()
		if rng.Intn(2) == 0 {
			doClose()
		}
	}
	synctest.Wait()
	final, ferr := os.ReadFile(path)
	ivfName := path[:len(path)-len(".webm")] + ".ivf"
	ivf0, _ := os.ReadFile(ivfName)
	// media that arrives after the end changes nothing
	if len(frames) > 0 {
		for _, p := range num.Packets(frames[0], 1) {
			rec.PushVideo(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: uint16(seqV), Timestamp: p.TS, Marker: p.Marker}, Payload: p.Payload})
			seqV++
		}
	}
	rec.NotifySkippedPacket(uint16(seqV))
	for k := 0; k < 3; k++ {
		rec.PushAudio(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: uint16(seqA), Timestamp: s.TSA}, Payload: vm.Opus(1, 1, 20)})
		seqA++
	}
	rec.Close()
	synctest.Wait()
	again, aerr := os.ReadFile(path)
	ivf1, _ := os.ReadFile(ivfName)
	for _, x := range snaps {
		x.ev["prefix"] = bytes.HasPrefix(final, x.data)
	}

	w := vm.ParseWebM(final)
	byData := map[string]int{}
	for _, f := range frames {
		byData[string(f.Data(1))] = f.Idx
	}
	_, vb := w.Of(1)
	_, ab := w.Of(2)
	vt, _ := w.Of(1)
	evb, eab := []M{}, []M{}
	for _, b := range vb {
		evb = append(evb, M{"f": byData[string(b.Data)], "key": b.Key, "t": b.T})
	}
	for _, b := range ab {
		id := 0
		if len(b.Data) >= 3 {
			id = int(b.Data[1]) | int(b.Data[2])<<8
			if id < 1 || id > len(snd) || !bytes.Equal(b.Data, vm.Opus(1, id, len(b.Data))) {
				id = 0
			}
		}
		eab = append(eab, M{"a": id, "t": b.T})
	}
	ev := M{"op": "final", "exists": ferr == nil, "wf": w.Err == "" && !(w.Partial && s.Disk == 0), "hdr": w.Header, "tracks": w.TracksOK(s.Video, s.Audio) || s.Late == 1 && w.TracksOK(true, false) || s.Late == 2 && w.TracksOK(false, true),
		"w": vt.W, "h": vt.H, "vb": evb, "ab": eab, "err": w.Err,
		"same": bytes.Equal(final, again) && bytes.Equal(ivf0, ivf1) && (ferr == nil) == (aerr == nil)}
	iv := M{"exists": false, "ok": false, "w": 0, "h": 0, "count": 0, "fs": []int{}, "times": true, "private": true}
	if st, err := os.Stat(ivfName); err == nil {
		p := vm.ParseIVF(ivf1)
		fs := []int{}
		times := p.Rate == 90000 && p.Scale == 1
		for _, x := range p.Frames {
			f := byData[string(x.Data)]
			fs = append(fs, f)
			times = times && f > 0 && x.TS == uint64(frames[f-1].TS)
		}
		private := true
		if rs, err := os.Stat(path); err == nil {
			private = st.Mode().Perm()&^rs.Mode().Perm() == 0
		}
		iv = M{"exists": true, "ok": p.Err == "" || s.Disk > 0, "w": p.W, "h": p.H, "count": p.Count, "fs": fs, "times": times || s.Disk > 0, "private": private}
		if p.Err != "" {
			iv["err"] = p.Err
		}
	}
	ev["ivf"] = iv
	tr.add(ev)
}
