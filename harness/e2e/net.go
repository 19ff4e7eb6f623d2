package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifmedia"
)

// Sessions whose packets are lost, duplicated, delayed and reordered on their way (spec/Net.tla).

func init() { domains["net"] = netDomain }

// netPlan says what happens to the packets of a session.
type netPlan struct {
	Video  bool    `json:"video"`
	Audio  bool    `json:"audio"`
	Mode   string  `json:"mode"` // clean, delay, recover, lossy
	Nack   bool    `json:"nack"`
	Ms     int     `json:"ms"`
	Answer int     `json:"answer"` // which request is answered with the packet (recover)
	Loss   float64 `json:"loss"`
	Burst  int     `json:"burst"`
	Delay  int     `json:"delay"`
	VSeq   int     `json:"vseq"`
	ASeq   int     `json:"aseq"`
	Fates  []int   `json:"fates"` // of the packets of the first kind, in turn: 0 arrives, 1 lost until asked for, 2 lost, 3 late, 4 twice
}

type netJob struct {
	Timeout int       `json:"timeout"`
	Buffer  int       `json:"buffer"`
	Custom  bool      `json:"custom"`
	Plans   []netPlan `json:"plans"`
}

func netRandom(w *World) netJob {
	r := w.rng
	j := netJob{Timeout: pick(r, 100, 200, 200, 1500, 2500), Buffer: 512, Custom: r.Intn(4) > 0}
	for i := 0; i < 1+r.Intn(3); i++ {
		p := netPlan{Mode: pick(r, "clean", "delay", "recover", "recover", "lossy", "lossy"), Nack: r.Intn(2) == 0, Ms: 2500 + r.Intn(1500), Answer: 1 + r.Intn(3),
			Loss: pick(r, 0.02, 0.05, 0.15, 0.3), Burst: pick(r, 1, 1, 2, 5, 12), Delay: pick(r, 5, 30, 120, 400),
			VSeq: pick(r, 0, 65535-r.Intn(200), r.Intn(65536)), ASeq: pick(r, 0, 65535-r.Intn(120), r.Intn(65536))}
		switch r.Intn(3) {
		case 0:
			p.Video = true
		case 1:
			p.Audio = true
		default:
			p.Video, p.Audio = true, true
		}
		if p.Mode == "recover" && p.Loss > 0.1 {
			p.Loss = 0.1
		}
		j.Plans = append(j.Plans, p)
	}
	return j
}

// netPacket is a packet of a session, as it was sent.
type netPacket struct {
	f         int
	key, last bool
	arr       int // when it first arrived, or -1
}

type netSession struct {
	plan  netPlan
	st    *start
	s     int
	m     sync.Mutex
	calm  bool
	end   int
	rng   *rand.Rand
	first map[string]uint16
	pk    map[string][]*netPacket
	ask   map[string][]M
	burst map[string]int         // losses to come
	tries map[string]map[int]int // how often a packet left
	asked map[string]map[int]int
	count map[string]int
	born  map[string]int // the packet that arrived first
}

func kindOf(pt int) string {
	if pt == 96 {
		return "v"
	}
	return "a"
}

func netDomain(w *World) {
	var j netJob
	if w.sched != nil {
		must(json.Unmarshal(w.sched, &j))
	} else {
		j = netRandom(w)
	}
	w.tr.Cfg["custom"], w.tr.Cfg["timeout"] = j.Custom, j.Timeout
	c := boot(w, 60)
	c.extra = fmt.Sprintf("  jitterBuffer: %d\n  jitterBufferPktTimeout: %d\n", j.Buffer, j.Timeout)
	c.run()
	var ns []*netSession
	for i, p := range j.Plans {
		n := &netSession{plan: p, s: i + 1, first: map[string]uint16{}, pk: map[string][]*netPacket{}, ask: map[string][]M{"v": {}, "a": {}}, burst: map[string]int{},
			tries: map[string]map[int]int{"v": {}, "a": {}}, asked: map[string]map[int]int{"v": {}, "a": {}}, count: map[string]int{}, born: map[string]int{}, calm: true,
			rng: rand.New(rand.NewSource(w.rng.Int63()))}
		bits := pick(w.rng, 0, 7, 15, 15)
		o := PeerOpts{ID: i + 1, Nack: p.Nack, Num: verifmedia.Numbering{PidBits: bits, PidBase: w.rng.Intn(32768)}, VSeq: uint16(p.VSeq), ASeq: uint16(p.ASeq),
			VTs: pick(w.rng, w.rng.Uint32(), 0xffffffff-uint32(w.rng.Intn(180000))), ATs: pick(w.rng, w.rng.Uint32(), 0xffffffff-uint32(w.rng.Intn(96000)))}
		if p.Video && p.Audio {
			o.HoldKey = 15 // both tracks are known before the recording begins
		}
		if p.Video {
			o.Video = 1
		}
		if p.Audio {
			o.Audio = 1
		}
		n.first["v"], n.first["a"] = o.VSeq, o.ASeq
		n.st = c.startPeer(fmt.Sprintf("n%d", n.s), fmt.Sprintf("n%d.webm", n.s), o)
		n.attach(w)
		ns = append(ns, n)
	}
	var wg sync.WaitGroup
	for _, n := range ns {
		n := n
		wg.Add(1)
		go func() {
			defer wg.Done()
			n.play(w, c)
		}()
	}
	wg.Wait()
	for _, n := range ns {
		w.ev(n.result(w, j.Custom))
	}
}

func (n *netSession) idx(k string, seq uint16) int { return int(seq-n.first[k]) + 1 }

func (n *netSession) attach(w *World) {
	p := n.st.peer
	p.m.Lock()
	defer p.m.Unlock()
	p.onSend = func(k string, seq uint16, frame int, key, last bool) {
		n.m.Lock()
		n.pk[k] = append(n.pk[k], &netPacket{frame, key, last, -1})
		n.m.Unlock()
	}
	p.onArr = func(pt int, seq uint16) {
		k := kindOf(pt)
		n.m.Lock()
		if i := n.idx(k, seq); i >= 1 && i <= len(n.pk[k]) && n.pk[k][i-1].arr < 0 {
			n.pk[k][i-1].arr = w.now()
			if n.born[k] == 0 {
				n.born[k] = i
			}
		}
		n.m.Unlock()
	}
	p.onNack = func(kind string, seqs []uint16) {
		k := kind[:1]
		var again []uint16
		t := w.now()
		n.m.Lock()
		for _, s := range seqs {
			i := n.idx(k, s)
			n.ask[k] = append(n.ask[k], M{"i": i, "t": t})
			n.asked[k][i]++
			if n.plan.Mode == "recover" && n.asked[k][i] == n.plan.Answer && n.tries[k][i] == 1 {
				again = append(again, s)
			}
		}
		n.m.Unlock()
		for _, s := range again {
			p.resend(k, s)
		}
	}
	p.fault = n.fault
}

// fault decides what happens to a packet.
func (n *netSession) fault(pt int, seq uint16) (int, time.Duration) {
	n.m.Lock()
	defer n.m.Unlock()
	k := kindOf(pt)
	i := n.idx(k, seq)
	n.tries[k][i]++
	if n.tries[k][i] > 1 || n.calm { // asked for
		return 1, 0
	}
	n.count[k]++
	if n.plan.Fates != nil {
		switch n.plan.Fates[(n.count[k]-1)%len(n.plan.Fates)] {
		case 1:
			return 0, 0
		case 2:
			n.tries[k][i]++ // not sent again
			return 0, 0
		case 3:
			return 1, time.Duration(n.plan.Delay) * time.Millisecond
		case 4:
			return 2, 0
		}
		return 1, 0
	}
	late := time.Duration(n.rng.Intn(n.plan.Delay+1)) * time.Millisecond
	switch n.plan.Mode {
	case "delay":
		if late > 100*time.Millisecond {
			late = 100 * time.Millisecond
		}
		if n.rng.Intn(8) == 0 {
			return 1 + n.rng.Intn(2), late
		}
	case "recover", "lossy":
		if n.burst[k] > 0 {
			n.burst[k]--
			return 0, 0
		}
		if n.rng.Float64() < n.plan.Loss {
			n.burst[k] = n.rng.Intn(n.plan.Burst)
			return 0, 0
		}
		switch n.rng.Intn(12) {
		case 0:
			if n.plan.Mode == "recover" && late > 60*time.Millisecond {
				late = 60 * time.Millisecond
			}
			return 1, late
		case 1:
			return 2, 0
		}
	}
	return 1, 0
}

func (n *netSession) play(w *World, c *ctlRun) {
	p := n.st.peer
	if !w.wait(20*time.Second, func() bool { return c.has(n.st, "connected") || w.rec.exited() || (n.st.resp && !n.st.ok) }) {
		w.ev(M{"op": "peer", "s": n.st.s, "q": n.st.q, "what": "noconnect"})
		return
	}
	// pion switches its senders on some moments after it is connected
	time.Sleep(150 * time.Millisecond)
	n.setCalm(n.plan.Mode != "lossy")
	p.media(true, true)
	if n.plan.Mode != "lossy" {
		time.Sleep(700 * time.Millisecond)
		n.setCalm(false)
	}
	time.Sleep(time.Duration(n.plan.Ms) * time.Millisecond)
	n.setCalm(true)
	time.Sleep(time.Duration(700+w.tr.Cfg["timeout"].(int)) * time.Millisecond)
	p.media(false, false)
	time.Sleep(300 * time.Millisecond)
	n.end = w.now()
	c.stop(n.st.s)
	w.wait(10*time.Second, func() bool { return n.st.ended || w.rec.exited() })
}

func (n *netSession) setCalm(b bool) { n.m.Lock(); n.calm = b; n.m.Unlock() }

// result is what was sent, what arrived, what was asked for again, and what the file holds.
func (n *netSession) result(w *World, custom bool) M {
	w.m.Lock()
	m := M{"op": "fin", "s": n.s, "v": n.plan.Video, "a": n.plan.Audio, "nack": n.plan.Nack, "pids": n.st.peer.o.Num.PidBits > 0, "ended": n.st.ended, "end": n.end, "exists": false, "wf": true}
	path := n.st.path
	w.m.Unlock()
	x := &verifmedia.WebM{}
	if b, err := os.ReadFile(path); err == nil {
		x = verifmedia.ParseWebM(b)
		m["exists"], m["wf"] = true, x.Err == "" && !x.Partial && x.Header
	}
	cn := n.st.peer.content()
	var tn = map[string]int{}
	for i, t := range x.Tracks {
		switch t.Codec {
		case "V_VP8":
			tn["v"] = i + 1
		case "A_OPUS":
			tn["a"] = i + 1
		}
	}
	n.m.Lock()
	defer n.m.Unlock()
	for _, k := range []string{"v", "a"} {
		h := M{}
		pk, blocks := []M{}, []M{}
		for _, p := range n.pk[k] {
			pk = append(pk, M{"f": p.f, "key": p.key, "last": p.last, "arr": p.arr})
		}
		for _, bl := range x.Blocks {
			if tn[k] == 0 || bl.Track != tn[k] {
				continue
			}
			f := 0
			if k == "v" {
				f = cn.frames[string(bl.Data)]
			} else {
				f = cn.sounds[string(bl.Data)]
			}
			blocks = append(blocks, M{"f": f, "t": bl.T, "key": bl.Key})
		}
		h["first"], h["pk"], h["ask"], h["bl"] = n.born[k], pk, n.ask[k], blocks
		m["h"+k] = h
	}
	return m
}
