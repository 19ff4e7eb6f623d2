package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifmedia"
	"github.com/pion/interceptor"
	"github.com/pion/rtcp"
	"github.com/pion/rtp"
	"github.com/pion/transport/v2"
	"github.com/pion/transport/v2/stdnet"
	"github.com/pion/webrtc/v3"
)

// faultNet gives a peer connection sockets whose outgoing packets the scenario controls.
type faultNet struct {
	*stdnet.Net
	p *Peer
}

type faultConn struct {
	transport.UDPConn
	p *Peer
}

func (n *faultNet) ListenUDP(network string, la *net.UDPAddr) (transport.UDPConn, error) {
	c, err := n.Net.ListenUDP(network, la)
	if err != nil {
		return nil, err
	}
	return &faultConn{c, n.p}, nil
}

func isRTP(b []byte) bool {
	return len(b) > 12 && b[0] >= 128 && b[0] <= 191 && !(b[1] >= 192 && b[1] <= 223)
}

func (c *faultConn) WriteTo(b []byte, a net.Addr) (int, error) {
	c.p.m.Lock()
	gone, f, arr := c.p.gone || c.p.mute, c.p.fault, c.p.onArr
	c.p.m.Unlock()
	if arr == nil {
		arr = func(int, uint16) {}
	}
	if gone {
		return len(b), nil
	}
	if f != nil && isRTP(b) {
		pt, seq := int(b[1]&0x7f), uint16(b[2])<<8|uint16(b[3])
		copies, delay := f(pt, seq)
		if copies == 0 {
			return len(b), nil
		}
		if delay > 0 {
			x := append([]byte{}, b...)
			time.AfterFunc(delay, func() {
				for i := 0; i < copies; i++ {
					arr(pt, seq)
					c.UDPConn.WriteTo(x, a)
				}
			})
			return len(b), nil
		}
		for i := 1; i < copies; i++ {
			arr(pt, seq)
			c.UDPConn.WriteTo(b, a)
		}
		arr(pt, seq)
	}
	return c.UDPConn.WriteTo(b, a)
}

func (c *faultConn) ReadFrom(b []byte) (int, net.Addr, error) {
	for {
		n, a, err := c.UDPConn.ReadFrom(b)
		if err != nil {
			return n, a, err
		}
		c.p.m.Lock()
		gone := c.p.gone
		c.p.m.Unlock()
		if !gone {
			return n, a, err
		}
	}
}

// PeerOpts describe a peer.
type PeerOpts struct {
	Video, Audio int // sections of each kind
	Nack         bool
	ID           int
	Num          verifmedia.Numbering
	KeyEvery     int
	Fps          int
	MaxParts     int
	VSeq, ASeq   uint16
	VTs, ATs     uint32
	PartSize     int
	HoldKey      int // so many frames before the first keyframe
}

// Peer is a sender of media.
type Peer struct {
	w    *World
	o    PeerOpts
	pc   *webrtc.PeerConnection
	rng  *rand.Rand
	v, a []*webrtc.TrackLocalStaticRTP
	m    sync.Mutex
	gone bool
	mute bool // nothing leaves any more, but what comes is seen
	off  string
	// fault decides, per RTP packet leaving, how many copies arrive and how late
	fault func(pt int, seq uint16) (copies int, delay time.Duration)

	connected, closed chan struct{}
	once, onceC       sync.Once

	vf       []*verifmedia.Frame // frames sent so far
	vt       []time.Time
	an       int                    // audio packets sent so far
	at       []time.Time            // when
	vpkt     map[uint16]*rtp.Packet // by sequence number, for retransmission
	apkt     map[uint16]*rtp.Packet
	wantKf   bool
	nacks    map[uint16][]int // times of requests, in ms
	plis     []int
	onSend   func(kind string, seq uint16, frame int, key, last bool)
	onArr    func(pt int, seq uint16)
	onNack   func(kind string, seqs []uint16)
	vOn, aOn bool
	running  bool
	stopSend chan struct{}
	maxGap   time.Duration // longest pause between ticks of the sender while it should have been sending
}

// newSource sends, but is not connected to anything by itself.
func newSource(w *World, o PeerOpts) *Peer {
	if o.KeyEvery == 0 {
		o.KeyEvery = 20
	}
	if o.Fps == 0 {
		o.Fps = 30
	}
	if o.MaxParts == 0 {
		o.MaxParts = 3
	}
	if o.PartSize == 0 {
		o.PartSize = 60
	}
	return &Peer{w: w, o: o, rng: rand.New(rand.NewSource(int64(o.ID)*7919 + w.job.Seed)), connected: make(chan struct{}), closed: make(chan struct{}),
		vpkt: map[uint16]*rtp.Packet{}, apkt: map[uint16]*rtp.Packet{}, nacks: map[uint16][]int{}, stopSend: make(chan struct{})}
}

func newPeer(w *World, o PeerOpts) *Peer {
	p := newSource(w, o)
	me := &webrtc.MediaEngine{}
	var fb []webrtc.RTCPFeedback
	if o.Nack {
		fb = []webrtc.RTCPFeedback{{Type: "nack"}, {Type: "nack", Parameter: "pli"}, {Type: "ccm", Parameter: "fir"}}
	}
	must(me.RegisterCodec(webrtc.RTPCodecParameters{RTPCodecCapability: webrtc.RTPCodecCapability{MimeType: webrtc.MimeTypeVP8, ClockRate: 90000, RTCPFeedback: fb}, PayloadType: 96}, webrtc.RTPCodecTypeVideo))
	must(me.RegisterCodec(webrtc.RTPCodecParameters{RTPCodecCapability: webrtc.RTPCodecCapability{MimeType: webrtc.MimeTypeOpus, ClockRate: 48000, Channels: 2}, PayloadType: 111}, webrtc.RTPCodecTypeAudio))
	se := webrtc.SettingEngine{}
	sn, err := stdnet.NewNet()
	must(err)
	se.SetNet(&faultNet{sn, p})
	se.SetIncludeLoopbackCandidate(true)
	se.SetNetworkTypes([]webrtc.NetworkType{webrtc.NetworkTypeUDP4})
	se.SetHostAcceptanceMinWait(0)
	se.SetSrflxAcceptanceMinWait(0)
	se.SetPrflxAcceptanceMinWait(0)
	api := webrtc.NewAPI(webrtc.WithMediaEngine(me), webrtc.WithSettingEngine(se), webrtc.WithInterceptorRegistry(&interceptor.Registry{}))
	pc, err := api.NewPeerConnection(webrtc.Configuration{})
	must(err)
	p.pc = pc
	add := func(mime, id string) *webrtc.TrackLocalStaticRTP {
		t, err := webrtc.NewTrackLocalStaticRTP(webrtc.RTPCodecCapability{MimeType: mime}, id, "s")
		must(err)
		s, err := pc.AddTrack(t)
		must(err)
		go p.readRTCP(s, id)
		return t
	}
	for i := 0; i < o.Audio; i++ {
		p.a = append(p.a, add(webrtc.MimeTypeOpus, fmt.Sprintf("a%d", i)))
	}
	for i := 0; i < o.Video; i++ {
		p.v = append(p.v, add(webrtc.MimeTypeVP8, fmt.Sprintf("v%d", i)))
	}
	pc.OnConnectionStateChange(func(s webrtc.PeerConnectionState) {
		switch s {
		case webrtc.PeerConnectionStateConnected:
			p.once.Do(func() { close(p.connected) })
		case webrtc.PeerConnectionStateDisconnected, webrtc.PeerConnectionStateFailed, webrtc.PeerConnectionStateClosed:
			p.onceC.Do(func() { close(p.closed) })
		}
	})
	w.defers(func() { p.end() })
	return p
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// offer is the base64 of the JSON session description, as the requester sends it.
func (p *Peer) offer() string {
	if p.off != "" {
		return p.off
	}
	o, err := p.pc.CreateOffer(nil)
	must(err)
	done := webrtc.GatheringCompletePromise(p.pc)
	must(p.pc.SetLocalDescription(o))
	<-done
	b, err := json.Marshal(p.pc.LocalDescription())
	must(err)
	p.off = base64.StdEncoding.EncodeToString(b)
	return p.off
}

// decodeSDP returns the session description of an answer.
func decodeSDP(s string) (d webrtc.SessionDescription, err error) {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		return
	}
	err = json.Unmarshal(b, &d)
	return
}

func (p *Peer) answer(s string) error {
	d, err := decodeSDP(s)
	if err != nil {
		return err
	}
	return p.pc.SetRemoteDescription(d)
}

// end without anything the other side could notice, if it has not ended yet.
func (p *Peer) end() {
	p.halt()
	p.pc.Close()
}

func (p *Peer) halt() {
	p.m.Lock()
	if p.stopSend != nil {
		close(p.stopSend)
		p.stopSend = nil
	}
	p.m.Unlock()
}

func (p *Peer) vanish() {
	p.m.Lock()
	p.gone = true
	p.m.Unlock()
	p.halt()
}

func (p *Peer) readRTCP(s *webrtc.RTPSender, id string) {
	b := make([]byte, 1500)
	for {
		n, _, err := s.Read(b)
		if err != nil {
			return
		}
		ps, err := rtcp.Unmarshal(b[:n])
		if err != nil {
			continue
		}
		for _, x := range ps {
			switch r := x.(type) {
			case *rtcp.PictureLossIndication:
				p.m.Lock()
				p.wantKf = true
				p.plis = append(p.plis, p.w.now())
				p.m.Unlock()
			case *rtcp.TransportLayerNack:
				var seqs []uint16
				for _, pr := range r.Nacks {
					seqs = append(seqs, pr.PacketList()...)
				}
				p.m.Lock()
				f := p.onNack
				p.m.Unlock()
				if f != nil {
					f(id, seqs)
				}
			}
		}
	}
}

// ---- media ----

// frame makes the next video frame and sends it.
func (p *Peer) frame() {
	p.m.Lock()
	if p.gone {
		p.m.Unlock()
		return
	}
	idx := len(p.vf) + 1
	f := &verifmedia.Frame{Idx: idx, Key: idx > p.o.HoldKey && (idx == 1+p.o.HoldKey || idx%p.o.KeyEvery == 0 || p.wantKf), W: 16 * (1 + p.o.ID%20), H: 16 * (1 + p.o.ID%30),
		TS: p.o.VTs + uint32(idx*90000/p.o.Fps)}
	p.wantKf = false
	k := 1 + p.rng.Intn(p.o.MaxParts)
	for i := 0; i < k; i++ {
		f.Parts = append(f.Parts, 20+p.rng.Intn(p.o.PartSize))
	}
	p.vf = append(p.vf, f)
	p.vt = append(p.vt, time.Now())
	var out []*rtp.Packet
	xs := p.o.Num.Packets(f, p.o.ID)
	for i, x := range xs {
		pk := &rtp.Packet{Header: rtp.Header{Version: 2, Marker: x.Marker, SequenceNumber: p.o.VSeq, Timestamp: x.TS, PayloadType: 96}, Payload: x.Payload}
		p.vpkt[p.o.VSeq] = pk
		if p.onSend != nil {
			p.onSend("v", p.o.VSeq, idx, f.Key, i == len(xs)-1)
		}
		p.o.VSeq++
		out = append(out, pk)
	}
	p.m.Unlock()
	for _, pk := range out {
		p.v[0].WriteRTP(pk)
	}
}

// sound makes the next audio packet and sends it.
func (p *Peer) sound() {
	p.m.Lock()
	if p.gone {
		p.m.Unlock()
		return
	}
	p.an++
	p.at = append(p.at, time.Now())
	pk := &rtp.Packet{Header: rtp.Header{Version: 2, Marker: p.an == 1, SequenceNumber: p.o.ASeq, Timestamp: p.o.ATs + uint32(p.an*960), PayloadType: 111},
		Payload: verifmedia.Opus(p.o.ID, p.an, 20+p.an%60)}
	p.apkt[p.o.ASeq] = pk
	if p.onSend != nil {
		p.onSend("a", p.o.ASeq, p.an, false, true)
	}
	p.o.ASeq++
	p.m.Unlock()
	p.a[0].WriteRTP(pk)
}

// resend a packet that was asked for again.
func (p *Peer) resend(kind string, seq uint16) bool {
	p.m.Lock()
	var pk *rtp.Packet
	if strings.HasPrefix(kind, "v") {
		pk = p.vpkt[seq]
	} else {
		pk = p.apkt[seq]
	}
	gone := p.gone
	p.m.Unlock()
	if pk == nil || gone {
		return false
	}
	if strings.HasPrefix(kind, "v") {
		p.v[0].WriteRTP(pk)
	} else {
		p.a[0].WriteRTP(pk)
	}
	return true
}

// media switches the senders on or off; frames and sounds are sent in real time while they are on.
func (p *Peer) media(v, a bool) {
	p.m.Lock()
	p.vOn, p.aOn = v && len(p.v) > 0, a && len(p.a) > 0
	run := !p.running && p.stopSend != nil
	p.running = p.running || run
	stop := p.stopSend
	p.m.Unlock()
	if run {
		go p.pump(stop)
	}
}

func (p *Peer) pump(stop chan struct{}) {
	tick := time.NewTicker(5 * time.Millisecond)
	defer tick.Stop()
	var nv, na time.Time
	last := time.Now()
	for {
		select {
		case <-stop:
			return
		case now := <-tick.C:
			p.m.Lock()
			v, a := p.vOn, p.aOn
			if g := time.Since(last); (v || a) && g > p.maxGap {
				p.maxGap = g
			}
			p.m.Unlock()
			last = time.Now()
			if !v {
				nv = now
			}
			if !a {
				na = now
			}
			for i := 0; a && !na.After(now) && i < 4; i++ {
				p.sound()
				na = na.Add(20 * time.Millisecond)
			}
			for i := 0; v && !nv.After(now) && i < 4; i++ {
				p.frame()
				nv = nv.Add(time.Second / time.Duration(p.o.Fps))
			}
			if nv.Before(now) {
				nv = now
			}
			if na.Before(now) {
				na = now
			}
		}
	}
}

// content is what a peer's media looks like in a file.
type content struct {
	frames map[string]int
	sounds map[string]int
}

func (p *Peer) content() content {
	p.m.Lock()
	defer p.m.Unlock()
	c := content{map[string]int{}, map[string]int{}}
	for _, f := range p.vf {
		c.frames[string(f.Data(p.o.ID))] = f.Idx
	}
	for i := 1; i <= p.an; i++ {
		c.sounds[string(verifmedia.Opus(p.o.ID, i, 20+i%60))] = i
	}
	return c
}
