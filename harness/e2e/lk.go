package main

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifmedia"
	"github.com/gorilla/websocket"
	"github.com/livekit/protocol/auth"
	"github.com/livekit/protocol/livekit"
	"github.com/pion/webrtc/v3"
	"google.golang.org/protobuf/proto"
)

// Sessions of LiveKit rooms (spec/Room.tla): a LiveKit server that knows enough for subscribers.

func init() { domains["lk"] = lkDomain }

type lkTrack struct {
	n     int // number, unique in the scenario
	sid   string
	video bool
	part  int // its participant
	pub   bool
	unpub time.Time
	on    bool
	muted bool
	src   *Peer // a source of media, without a connection
	local *webrtc.TrackLocalStaticRTP
}

type lkRoom struct {
	n      int
	name   string
	beh    string // how it takes a participant
	tracks []*lkTrack
	away   map[int]bool // participants that left
}

type lkConn struct {
	k      int
	room   *lkRoom
	st     *start
	x      *lkRun
	wm     sync.Mutex
	ws     *websocket.Conn
	peer   *Peer
	nm     sync.Mutex // one negotiation at a time
	answer chan webrtc.SessionDescription
	subs   map[string]*webrtc.RTPSender
	subT   map[string]time.Time
	out    bool // has left, or was made to
	ident  string
}

// lkSession is what a start request asked for.
type lkSession struct {
	room  *lkRoom
	want  []*lkTrack // of those that exist
	wants []int
	conn  *lkConn
	lossy bool
	on    bool
	x     *lkRun
}

type lkRun struct {
	c           *ctlRun
	w           *World
	rooms       []*lkRoom
	conns       []*lkConn
	port        int
	key, secret string
	refuse      bool // nobody is let in, or in again
	done        bool // the recorder is ended
	late        []chan struct{}
}

func (s *lkSession) content() content {
	c := content{map[string]int{}, map[string]int{}}
	for _, t := range s.want {
		x := t.src.content()
		for k, v := range x.frames {
			c.frames[k] = v
		}
		for k, v := range x.sounds {
			c.sounds[k] = v
		}
	}
	return c
}

// missing counts what was sent after the first recorded frame of a track, early enough to have been recorded, and is not in the file.
// And how many frames were sent long after subscription and before the first recorded one: a keyframe had to be asked for.
func (s *lkSession) missing(cn content, vb, ab []verifmedia.Block) (n, pre int) {
	if s.lossy {
		return
	}
	for _, t := range s.want {
		bl, ids, at := ab, cn.sounds, t.src.at
		t.src.m.Lock()
		if t.video {
			bl, ids = vb, cn.frames
			at = append([]time.Time{}, t.src.vt...)
		} else {
			at = append([]time.Time{}, t.src.at...)
		}
		t.src.m.Unlock()
		in, first := map[int]bool{}, 0
		for _, b := range bl {
			i := ids[string(b.Data)]
			in[i] = true
			if first == 0 {
				first = i
			}
		}
		end := time.Now()
		if !t.unpub.IsZero() {
			end = t.unpub
		}
		if s.conn == nil {
			continue
		}
		if sub, ok := s.conn.subT[t.sid]; ok && t.video && s.x.c.w.tr.Cfg["custom"] == true {
			for i := 1; i <= len(at) && (first == 0 || i < first); i++ {
				if at[i-1].After(sub.Add(1500*time.Millisecond)) && at[i-1].Before(end.Add(-1500*time.Millisecond)) {
					pre++
				}
			}
		}
		if first == 0 {
			continue
		}
		for i := first; i <= len(at); i++ {
			if at[i-1].Before(end.Add(-1500*time.Millisecond)) && !in[i] {
				n++
			}
		}
	}
	return
}

// ---- the server ----

var upgrader = websocket.Upgrader{}

func (x *lkRun) listen() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	x.port = ln.Addr().(*net.TCPAddr).Port
	mux := http.NewServeMux()
	mux.HandleFunc("/rtc/validate", x.validate)
	mux.HandleFunc("/rtc", x.rtc)
	srv := &http.Server{Handler: mux}
	srv.SetKeepAlivesEnabled(false)
	go srv.Serve(ln)
	x.w.defers(func() {
		srv.Close()
		x.w.m.Lock()
		cs := append([]*lkConn{}, x.conns...)
		x.w.m.Unlock()
		for _, c := range cs {
			c.ws.Close()
		}
	})
}

// who is asking, and for what room
func (x *lkRun) token(r *http.Request) (room, ident string, ok bool) {
	v, err := auth.ParseAPIToken(strings.TrimPrefix(r.Header.Get("Authorization"), "Bearer "))
	if err != nil {
		return
	}
	g, err := v.Verify(x.secret)
	if err != nil || g.Video == nil {
		return "", v.Identity(), false
	}
	return g.Video.Room, v.Identity(), v.APIKey() == x.key && g.Video.RoomJoin
}

func (x *lkRun) status(beh string) int {
	switch {
	case beh == "unauth":
		return http.StatusUnauthorized
	case beh == "unavail" || x.refuse:
		return http.StatusServiceUnavailable
	}
	return 0
}

func (x *lkRun) room(name string) *lkRoom {
	for _, r := range x.rooms {
		if r.name == name {
			return r
		}
	}
	return nil
}

func (x *lkRun) validate(rw http.ResponseWriter, rq *http.Request) {
	name, _, _ := x.token(rq)
	beh := ""
	x.w.m.Lock()
	if r := x.room(name); r != nil {
		beh = r.beh
	}
	st := x.status(beh)
	x.w.m.Unlock()
	if st != 0 {
		http.Error(rw, "no", st)
	}
}

func (x *lkRun) rtc(rw http.ResponseWriter, rq *http.Request) {
	w := x.w
	name, ident, tok := x.token(rq)
	q := rq.URL.Query()
	w.m.Lock()
	r := x.room(name)
	again := q.Get("reconnect") == "1"
	if again {
		var c *lkConn
		for _, o := range x.conns {
			if o.ident == ident && !o.out {
				c = o
			}
		}
		no := x.refuse || c == nil
		w.m.Unlock()
		if no {
			http.Error(rw, "no", http.StatusServiceUnavailable)
			return
		}
		ws, err := upgrader.Upgrade(rw, rq, nil)
		if err != nil {
			return
		}
		c.wm.Lock()
		c.ws = ws
		c.wm.Unlock()
		w.ev(M{"op": "rejoin", "k": c.k})
		c.send(&livekit.SignalResponse{Message: &livekit.SignalResponse_RoomUpdate{RoomUpdate: &livekit.RoomUpdate{Room: &livekit.Room{Sid: "RM_" + r.name, Name: r.name}}}})
		c.read(ws)
		return
	}
	// the session this is about: an unanswered request whose id the identity ends with
	var st *start
	for _, p := range x.c.pend {
		if p.lk != nil && strings.HasSuffix(ident, p.s) && (st == nil || len(p.s) > len(st.s)) {
			st = p
		}
	}
	e := M{"op": "join", "k": len(x.conns) + 1, "q": 0, "room": 0, "tok": tok, "auto": q.Get("auto_subscribe") != "0", "have": []int{}}
	beh := "ok"
	if r != nil {
		beh = r.beh
		e["room"] = r.n
		have := []int{}
		for _, t := range r.tracks {
			if t.pub && !r.away[t.part] {
				have = append(have, t.n)
			}
		}
		e["have"] = have
	}
	if st != nil {
		e["q"] = st.q
	}
	if !tok || r == nil {
		beh = "unauth"
	}
	if code := x.status(beh); code != 0 {
		w.evLocked(M{"op": "refused", "q": e["q"], "room": e["room"], "tok": tok})
		w.m.Unlock()
		http.Error(rw, "no", code)
		return
	}
	c := &lkConn{k: len(x.conns) + 1, room: r, st: st, x: x, answer: make(chan webrtc.SessionDescription, 4), subs: map[string]*webrtc.RTPSender{}, subT: map[string]time.Time{}, ident: ident}
	w.m.Unlock()
	switch beh {
	case "late":
		time.Sleep(time.Duration(500+w.now()%2500) * time.Millisecond)
	case "hanghttp": // nobody waits any more when this is answered
		select {
		case <-time.After(23 * time.Second):
		case <-rq.Context().Done():
		}
	}
	ws, err := upgrader.Upgrade(rw, rq, nil)
	if err != nil {
		return
	}
	c.ws = ws
	w.m.Lock()
	c.k = len(x.conns) + 1
	e["k"] = c.k
	x.conns = append(x.conns, c)
	if st != nil && st.lk.conn == nil {
		st.lk.conn = c
	}
	if r.beh != beh { // meanwhile
		have := []int{}
		e["have"] = have
	}
	w.evLocked(e)
	var others []*livekit.ParticipantInfo
	if r != nil {
		others = r.participants()
	}
	w.m.Unlock()
	join := &livekit.SignalResponse{Message: &livekit.SignalResponse_Join{Join: &livekit.JoinResponse{
		Room:              &livekit.Room{Sid: "RM_" + r.name, Name: r.name},
		Participant:       &livekit.ParticipantInfo{Sid: fmt.Sprintf("PA_me%d", c.k), Identity: ident, State: livekit.ParticipantInfo_ACTIVE},
		OtherParticipants: others, SubscriberPrimary: true,
		IceServers: []*livekit.ICEServer{{Urls: []string{fmt.Sprintf("stun:127.0.0.1:%d", stunPort)}}},
		ServerInfo: &livekit.ServerInfo{Version: "1.5.3", Protocol: 9},
	}}}
	switch beh {
	case "hang":
	case "wrong":
		c.send(&livekit.SignalResponse{Message: &livekit.SignalResponse_RoomUpdate{RoomUpdate: &livekit.RoomUpdate{Room: &livekit.Room{Sid: "x", Name: "x"}}}})
	case "garbage":
		c.wm.Lock()
		ws.WriteMessage(websocket.BinaryMessage, []byte("\xff\xff\xff nonsense"))
		c.wm.Unlock()
	case "cutjoin":
		w.m.Lock()
		c.out = true
		w.evLocked(M{"op": "ended", "k": c.k, "how": "cut"})
		w.m.Unlock()
		ws.Close()
		return
	case "noice":
		c.send(join)
	case "leave":
		c.send(join)
		c.send(&livekit.SignalResponse{Message: &livekit.SignalResponse_Leave{Leave: &livekit.LeaveRequest{Reason: livekit.DisconnectReason_ROOM_DELETED}}})
	default:
		c.peer = newPeer(w, PeerOpts{ID: 90000 + c.k, Nack: w.now()%2 == 0})
		for _, l := range []string{"_reliable", "_lossy"} {
			_, err := c.peer.pc.CreateDataChannel(l, nil)
			must(err)
		}
		c.peer.pc.OnICEConnectionStateChange(func(s webrtc.ICEConnectionState) {
			if s == webrtc.ICEConnectionStateConnected {
				w.ev(M{"op": "in", "k": c.k})
			}
		})
		c.send(join)
		go c.negotiate()
	}
	c.read(ws)
}

func (r *lkRoom) participants() []*livekit.ParticipantInfo {
	var out []*livekit.ParticipantInfo
	for p := 1; p <= 2; p++ {
		if r.away[p] {
			continue
		}
		pi := &livekit.ParticipantInfo{Sid: r.psid(p), Identity: fmt.Sprintf("user%d", p), Name: "someone", State: livekit.ParticipantInfo_ACTIVE, Version: uint32(1 + time.Now().UnixMilli()%1000000000)}
		for _, t := range r.tracks {
			if t.part == p && t.pub {
				ti := &livekit.TrackInfo{Sid: t.sid, Name: "t", Type: livekit.TrackType_AUDIO, Source: livekit.TrackSource_MICROPHONE, MimeType: "audio/opus", Muted: t.muted}
				if t.video {
					ti.Type, ti.Source, ti.MimeType = livekit.TrackType_VIDEO, livekit.TrackSource_SCREEN_SHARE, "video/VP8"
				}
				pi.Tracks = append(pi.Tracks, ti)
			}
		}
		out = append(out, pi)
	}
	return out
}

func (r *lkRoom) psid(p int) string { return fmt.Sprintf("PA_r%dp%d", r.n, p) }

func (c *lkConn) send(m *livekit.SignalResponse) {
	b, err := proto.Marshal(m)
	must(err)
	c.wm.Lock()
	defer c.wm.Unlock()
	c.ws.WriteMessage(websocket.BinaryMessage, b)
}

// negotiate offers what there is to be received.
func (c *lkConn) negotiate() {
	c.nm.Lock()
	defer c.nm.Unlock()
	pc := c.peer.pc
	o, err := pc.CreateOffer(nil)
	if err != nil {
		return
	}
	done := webrtc.GatheringCompletePromise(pc)
	if pc.SetLocalDescription(o) != nil {
		return
	}
	<-done
	c.send(&livekit.SignalResponse{Message: &livekit.SignalResponse_Offer{Offer: &livekit.SessionDescription{Type: "offer", Sdp: pc.LocalDescription().SDP}}})
	select {
	case a := <-c.answer:
		if err := pc.SetRemoteDescription(a); err != nil && !strings.Contains(err.Error(), "closed") {
			c.x.w.ev(M{"op": "badanswer", "k": c.k, "msg": err.Error()})
		}
	case <-time.After(20 * time.Second):
	}
}

func (c *lkConn) read(ws *websocket.Conn) {
	w := c.x.w
	left := func(how string) {
		w.m.Lock()
		if !c.out && !c.x.done {
			c.out = true
			w.evLocked(M{"op": "left", "k": c.k, "how": how})
			if c.st != nil {
				w.evLocked(M{"op": "peer", "s": c.st.s, "q": c.st.q, "what": "sawclose"})
			}
		}
		w.m.Unlock()
	}
	defer ws.Close()
	for {
		typ, b, err := ws.ReadMessage()
		if err != nil {
			c.wm.Lock()
			mine := c.ws == ws
			c.wm.Unlock()
			if mine {
				w.m.Lock()
				res := c.x.resuming(c)
				w.m.Unlock()
				if !res {
					left("close")
				}
			}
			return
		}
		m := &livekit.SignalRequest{}
		if typ != websocket.BinaryMessage || proto.Unmarshal(b, m) != nil {
			w.ev(M{"op": "badsignal", "k": c.k})
			continue
		}
		switch r := m.Message.(type) {
		case *livekit.SignalRequest_Answer:
			select {
			case c.answer <- webrtc.SessionDescription{Type: webrtc.SDPTypeAnswer, SDP: r.Answer.Sdp}:
			default:
			}
		case *livekit.SignalRequest_Trickle:
			if c.peer != nil && r.Trickle.Target == livekit.SignalTarget_SUBSCRIBER {
				ci := webrtc.ICECandidateInit{}
				json.Unmarshal([]byte(r.Trickle.CandidateInit), &ci)
				go func() {
					for i := 0; i < 100 && c.peer.pc.RemoteDescription() == nil; i++ {
						time.Sleep(20 * time.Millisecond)
					}
					c.peer.pc.AddICECandidate(ci)
				}()
			}
		case *livekit.SignalRequest_Subscription:
			c.subscription(r.Subscription)
		case *livekit.SignalRequest_Leave:
			left("leave")
			if c.peer != nil {
				c.peer.pc.Close()
			}
			return
		}
	}
}

// resuming: the connection was cut, to be taken up again.
var resumes sync.Map

func (x *lkRun) resuming(c *lkConn) bool { _, ok := resumes.Load(c); return ok }

func (c *lkConn) subscription(u *livekit.UpdateSubscription) {
	w := c.x.w
	sids := append([]string{}, u.TrackSids...)
	for _, p := range u.ParticipantTracks {
		sids = append(sids, p.TrackSids...)
	}
	w.m.Lock()
	var add []*lkTrack
	for _, s := range sids {
		n := 0
		for _, r := range c.x.rooms {
			for _, t := range r.tracks {
				if t.sid == s {
					n = t.n
					if r == c.room {
						add = append(add, t)
					}
				}
			}
		}
		w.evLocked(M{"op": "subscribe", "k": c.k, "n": n, "on": u.Subscribe})
	}
	w.m.Unlock()
	if c.peer == nil {
		return
	}
	go func() {
		for _, t := range add {
			if u.Subscribe {
				if c.subs[t.sid] != nil {
					continue
				}
				s, err := c.peer.pc.AddTrack(t.local)
				if err != nil {
					return
				}
				w.m.Lock()
				c.subs[t.sid], c.subT[t.sid] = s, time.Now()
				w.m.Unlock()
				go t.src.readRTCP(s, map[bool]string{true: "v", false: "a"}[t.video])
			} else if s := c.subs[t.sid]; s != nil {
				c.peer.pc.RemoveTrack(s)
			}
		}
		c.negotiate()
	}()
}

// ---- what happens in rooms ----

func (x *lkRun) track(r *lkRoom, i, part int, video, pub bool) *lkTrack {
	w := x.w
	t := &lkTrack{n: r.n*10 + i, sid: fmt.Sprintf("TR_%s%dx%d", pick(w.rng, "AM", "AS"), r.n*10+i, w.rng.Intn(1000)), video: video, part: part, pub: pub, on: true}
	if video {
		t.sid = pick(w.rng, "TR_VS", "TR_VC") + t.sid[5:]
	}
	o := PeerOpts{ID: t.n, Num: verifmedia.Numbering{PidBits: pick(w.rng, 7, 15, 15), PidBase: w.rng.Intn(30000), X: true},
		VSeq: uint16(w.rng.Intn(65536)), ASeq: uint16(w.rng.Intn(65536)), VTs: w.rng.Uint32(), ATs: w.rng.Uint32(), Fps: 15, KeyEvery: 30, MaxParts: 3, PartSize: 60}
	if w.tr.Cfg["custom"] == true { // asks for keyframes
		o.KeyEvery = 150
	}
	cap := webrtc.RTPCodecCapability{MimeType: webrtc.MimeTypeOpus}
	if video {
		cap.MimeType = webrtc.MimeTypeVP8
	}
	l, err := webrtc.NewTrackLocalStaticRTP(cap, t.sid, r.psid(part)+"|"+t.sid)
	must(err)
	t.local, t.src = l, newSource(w, o)
	if video {
		t.src.v = []*webrtc.TrackLocalStaticRTP{l}
	} else {
		t.src.a = []*webrtc.TrackLocalStaticRTP{l}
	}
	w.defers(t.src.halt)
	t.src.media(true, true)
	return t
}

func (x *lkRun) update(r *lkRoom, gone int) {
	x.w.m.Lock()
	ps := r.participants()
	if gone > 0 {
		ps = append(ps, &livekit.ParticipantInfo{Sid: r.psid(gone), Identity: fmt.Sprintf("user%d", gone), State: livekit.ParticipantInfo_DISCONNECTED})
	}
	var cs []*lkConn
	for _, c := range x.conns {
		if c.room == r && !c.out {
			cs = append(cs, c)
		}
	}
	x.w.m.Unlock()
	for _, c := range cs {
		c.send(&livekit.SignalResponse{Message: &livekit.SignalResponse_Update{Update: &livekit.ParticipantUpdate{Participants: ps}}})
	}
}

func (x *lkRun) find(n int) (*lkRoom, *lkTrack) {
	for _, r := range x.rooms {
		for _, t := range r.tracks {
			if t.n == n {
				return r, t
			}
		}
	}
	return nil, nil
}

// flows reports for every session whether all of its tracks deliver media.
func (x *lkRun) flows() {
	w := x.w
	w.m.Lock()
	defer w.m.Unlock()
	for _, st := range x.c.starts {
		if st.lk == nil || !st.ok || st.ended {
			continue
		}
		on := len(st.lk.want) > 0
		for _, t := range st.lk.want {
			on = on && t.on && t.unpub.IsZero()
		}
		if on != st.lk.on {
			st.lk.on = on
			w.evLocked(M{"op": "media", "s": st.s, "q": st.q, "on": on})
		}
	}
}

func (x *lkRun) drop(ts []*lkTrack, r *lkRoom) {
	w := x.w
	w.m.Lock()
	var cs []*lkConn
	for _, c := range x.conns {
		hit := false
		for _, t := range ts {
			if s := c.subs[t.sid]; s != nil && c.room == r && !c.out {
				c.peer.pc.RemoveTrack(s)
				hit = true
			}
		}
		if hit {
			cs = append(cs, c)
		}
	}
	w.m.Unlock()
	for _, c := range cs {
		go c.negotiate()
	}
}

// ---- scenarios ----

type lkStep struct {
	A  string `json:"a"`
	S  int    `json:"s"`
	R  int    `json:"r"`
	N  int    `json:"n"`
	K  string `json:"k"`
	T  []int  `json:"t"`
	On bool   `json:"on"`
	Ms int    `json:"ms"`
}

func (x *lkRun) start(s lkStep) *start {
	c, w := x.c, x.w
	r := x.rooms[s.R-1]
	if s.K != "" {
		w.m.Lock()
		r.beh = s.K
		w.m.Unlock()
	}
	ls := &lkSession{room: r, x: x}
	sids := []string{}
	v, a := 0, 0
	for _, i := range s.T {
		switch i {
		case 5: // no such track
			sids = append(sids, "TR_nosuch")
			continue
		case 6: // of another room
			sids = append(sids, x.rooms[s.R%2].tracks[0].sid)
			ls.wants = append(ls.wants, x.rooms[s.R%2].tracks[0].n)
			continue
		}
		if i > len(r.tracks) {
			continue
		}
		t := r.tracks[i-1]
		sids = append(sids, t.sid)
		ls.wants = append(ls.wants, t.n)
		if t.pub && !r.away[t.part] {
			ls.want = append(ls.want, t)
			if t.video {
				v++
			} else {
				a++
			}
		}
	}
	if len(sids) == 0 {
		sids = []string{"TR_none"}
	}
	if ls.wants == nil {
		ls.wants = []int{}
	}
	joins := r.beh == "ok" || r.beh == "late"
	st := &start{s: c.id(s.S), file: fileNames[1+s.N%3], lk: ls}
	w.m.Lock()
	c.starts = append(c.starts, st)
	st.q = len(c.starts)
	c.pend = append(c.pend, st)
	c.reqs++
	w.evLocked(M{"op": "req", "kind": "start", "s": st.s, "q": st.q, "file": strings.Split(st.file, "/"), "ext": ext(st.file), "adapter": "livekit",
		"new": map[bool]string{true: "good", false: "bad"}[joins], "legacy": "none", "lkok": true, "k": r.beh, "secs": 0, "v": v, "a": a, "room": r.n, "want": ls.wants})
	w.m.Unlock()
	m := M{"id": "startRecording", "recordingSessionId": st.s, "fileName": st.file, "adapter": "livekit",
		"adapterOptions": M{"livekit": M{"room": r.name, "trackIds": sids}}}
	c.send(m, w.rng.Intn(3))
	w.wait(60*time.Second, func() bool { return st.resp || w.rec.exited() })
	if st.ok && !st.ended {
		w.ev(M{"op": "peer", "s": st.s, "q": st.q, "what": "connected"})
		x.flows()
	}
	return st
}

// end of a connection by the server.
func (x *lkRun) end(st *start, how string) {
	if st == nil || st.lk == nil || st.lk.conn == nil {
		return
	}
	w, c := x.w, st.lk.conn
	if how == "resume" {
		// not while an offer is being answered: what a cut connection swallows stays unanswered
		w.wait(3*time.Second, func() bool { return len(c.subs) >= len(st.lk.want) || c.out || st.ended })
		time.Sleep(100 * time.Millisecond)
		free := false
		for i := 0; i < 30 && !free; i++ {
			if free = c.nm.TryLock(); !free {
				time.Sleep(100 * time.Millisecond)
			}
		}
		if !free {
			return
		}
		defer c.nm.Unlock()
	}
	w.m.Lock()
	if c.out || st.ended {
		w.m.Unlock()
		return
	}
	if how == "cut" {
		x.refuse = true
	}
	if how == "resume" {
		resumes.Store(c, true)
		w.evLocked(M{"op": "blip", "k": c.k})
		from := len(w.tr.Ev)
		w.m.Unlock()
		c.ws.Close()
		w.wait(5*time.Second, func() bool {
			for _, e := range w.tr.Ev[from:] {
				if e["op"] == "rejoin" && e["k"] == c.k {
					return true
				}
			}
			return false
		})
		resumes.Delete(c)
		return
	}
	c.out = true
	w.evLocked(M{"op": "ended", "k": c.k, "how": how})
	w.evLocked(M{"op": "peer", "s": st.s, "q": st.q, "what": "vanish"})
	w.m.Unlock()
	if how == "leave" {
		c.send(&livekit.SignalResponse{Message: &livekit.SignalResponse_Leave{Leave: &livekit.LeaveRequest{Reason: livekit.DisconnectReason_ROOM_DELETED}}})
		time.Sleep(50 * time.Millisecond)
		if w.rng.Intn(2) == 0 {
			c.peer.pc.Close()
		}
		return
	}
	c.ws.Close()
}

func (x *lkRun) step(s lkStep) {
	c, w := x.c, x.w
	switch s.A {
	case "start":
		x.start(s)
	case "stop":
		c.stop(c.id(s.S))
		time.Sleep(30 * time.Millisecond)
	case "leave", "cut", "resume":
		x.end(c.active(c.id(s.S)), s.A)
	case "both":
		st := c.active(c.id(s.S))
		d := time.Duration(w.rng.Intn(10)) * time.Millisecond
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); time.Sleep(d); c.stop(c.id(s.S)) }()
		x.end(st, "leave")
		wg.Wait()
	case "media":
		if _, t := x.find(s.R*10 + s.N); t != nil {
			t.on = s.On
			t.src.media(s.On, s.On)
			x.flows()
		}
	case "mute":
		if r, t := x.find(s.R*10 + s.N); t != nil {
			t.on, t.muted = !s.On, s.On
			x.update(r, 0)
			t.src.media(t.on, t.on)
			x.flows()
		}
	case "pub":
		if r, t := x.find(s.R*10 + s.N); t != nil && !t.pub && t.unpub.IsZero() {
			w.m.Lock()
			t.pub = true
			w.m.Unlock()
			x.update(r, 0)
		}
	case "unpub":
		if r, t := x.find(s.R*10 + s.N); t != nil && t.pub && !r.away[t.part] {
			w.m.Lock()
			t.pub, t.unpub = false, time.Now()
			w.m.Unlock()
			x.flows()
			x.drop([]*lkTrack{t}, r)
			x.update(r, 0)
		}
	case "away":
		if r := x.rooms[s.R-1]; !r.away[s.N] {
			w.m.Lock()
			r.away[s.N] = true
			var ts []*lkTrack
			for _, t := range r.tracks {
				if t.part == s.N {
					t.unpub = time.Now()
					ts = append(ts, t)
				}
			}
			w.m.Unlock()
			x.flows()
			x.drop(ts, r)
			x.update(r, s.N)
		}
	case "faults":
		if st := c.active(c.id(s.S)); st != nil && st.lk != nil && st.lk.conn != nil && st.lk.conn.peer != nil {
			w.m.Lock()
			st.lk.lossy = true
			w.m.Unlock()
			p := st.lk.conn.peer
			p.m.Lock()
			p.fault = func(int, uint16) (int, time.Duration) {
				p.m.Lock()
				defer p.m.Unlock()
				switch n := p.rng.Intn(100); {
				case n < 4:
					return 0, 0
				case n < 8:
					return 2, 0
				case n < 16:
					return 1, time.Duration(p.rng.Intn(60)) * time.Millisecond
				case n < 18:
					return 1, time.Duration(p.rng.Intn(600)) * time.Millisecond
				}
				return 1, 0
			}
			p.m.Unlock()
		}
	case "reorder": // no packet is lost, none is late for long
		if st := c.active(c.id(s.S)); st != nil && st.lk != nil && st.lk.conn != nil && st.lk.conn.peer != nil {
			p := st.lk.conn.peer
			p.m.Lock()
			p.fault = func(int, uint16) (int, time.Duration) {
				p.m.Lock()
				defer p.m.Unlock()
				if p.rng.Intn(6) == 0 {
					return 1, time.Duration(p.rng.Intn(40)) * time.Millisecond
				}
				return 1, 0
			}
			p.m.Unlock()
		}
	case "wait":
		time.Sleep(time.Duration(s.Ms) * time.Millisecond)
	case "status":
		c.status()
	case "idle":
		x.settle()
		c.idle()
	}
}

func (x *lkRun) settle() {
	w, c := x.w, x.c
	c.status()
	limit := 12 * time.Second
	w.m.Lock()
	if x.refuse {
		limit = 80 * time.Second
	}
	for _, r := range x.rooms {
		if r.beh == "hanghttp" { // let in long after the request was given up
			limit = max(limit, 30*time.Second)
		}
	}
	w.m.Unlock()
	ok := w.wait(limit, func() bool {
		if w.rec.exited() {
			return true
		}
		if c.resps < c.reqs+1 {
			return false
		}
		for _, st := range c.starts {
			if st.lk != nil && st.ok && !st.ended && c.left(st) {
				return false
			}
		}
		for _, k := range x.conns {
			if !k.out && (k.st == nil || (k.st.resp && !k.st.ok) || k.st.ended) {
				return false
			}
		}
		for _, st := range c.starts { // let in long after the request was given up
			if st.lk != nil && st.lk.room.beh == "hanghttp" && st.lk.conn == nil {
				return false
			}
		}
		return true
	})
	time.Sleep(50 * time.Millisecond)
	open := []int{}
	w.m.Lock()
	for _, k := range x.conns {
		if !k.out {
			open = append(open, k.k)
		}
	}
	w.m.Unlock()
	w.ev(M{"op": "settled", "ok": ok, "open": open})
}

func lkDomain(w *World) {
	var steps []lkStep
	w.tr.Cfg["devnull"], w.tr.Cfg["ivf"], w.tr.Cfg["custom"] = false, w.rng.Intn(4) == 0, w.rng.Intn(4) != 0
	if w.sched != nil {
		must(json.Unmarshal(w.sched, &steps))
	} else {
		steps = lkSteps(w)
	}
	c := boot(w, 20)
	must(os.WriteFile(filepath.Join(c.dir, "old.webm"), []byte("old"), 0o600))
	c.ids = idPool[pick(w.rng, 0, 1, 2, 4)]
	x := &lkRun{c: c, w: w, key: fmt.Sprintf("key%d", w.rng.Intn(1000)), secret: fmt.Sprintf("secret%030d", w.rng.Intn(1000))}
	x.listen()
	for n := 1; n <= 3; n++ {
		r := &lkRoom{n: n, name: fmt.Sprintf("room%d%s", n, pick(w.rng, "", "-x", " y", "ü")), beh: pick(w.rng, "ok", "ok", "late"), away: map[int]bool{}}
		r.tracks = []*lkTrack{x.track(r, 1, 1, true, true), x.track(r, 2, 1, false, true), x.track(r, 3, 2, false, true), x.track(r, 4, 2, true, false)}
		x.rooms = append(x.rooms, r)
	}
	c.extra = fmt.Sprintf("livekit:\n  host: %s://127.0.0.1:%d\n  apiKey: %s\n  apiSecret: %s\n", pick(w.rng, "ws", "http"), x.port, x.key, x.secret)
	c.run()
	c.idle()
	for _, s := range steps {
		if w.rec.exited() {
			break
		}
		x.step(s)
	}
	x.settle()
	c.idle()
	w.m.Lock()
	x.done = true
	w.m.Unlock()
	c.finish()
	if os.Getenv("LKDEBUG") != "" {
		w.ev(M{"op": "log", "txt": w.rec.out.String()})
	}
}

var lkBad = []string{"hang", "noice", "leave", "unauth", "unavail", "wrong", "garbage", "cutjoin", "hanghttp"}

func lkSteps(w *World) []lkStep {
	r := w.rng
	var out []lkStep
	add := func(s lkStep) { out = append(out, s) }
	want := func() []int {
		t := []int{}
		if r.Intn(3) > 0 {
			t = append(t, 1)
		}
		if r.Intn(3) > 0 || len(t) == 0 {
			t = append(t, 2+r.Intn(2))
		}
		for _, o := range []int{4, 5, 6} {
			if r.Intn(5) == 0 && !(o == 4 && slices.Contains(t, 1)) {
				t = append(t, o)
			}
		}
		r.Shuffle(len(t), func(i, j int) { t[i], t[j] = t[j], t[i] })
		return t
	}
	what, bad := r.Intn(6), lkBad
	short := w.job.Args["short"] != nil // nothing that takes long
	if short {
		bad = lkBad[3:6]
	}
	if w.job.Args["flow"] != nil {
		what = 1
	}
	switch what {
	case 0: // a room that does not take participants
		if r.Intn(2) == 0 {
			add(lkStep{A: "start", S: 1, R: 1, N: 0, T: want()})
		}
		add(lkStep{A: "start", S: 2, R: 3, N: 1, K: pick(r, bad...), T: want()})
		add(lkStep{A: "wait", Ms: r.Intn(500)})
		add(lkStep{A: "idle"})
		add(lkStep{A: "start", S: 2, R: 1, N: 1, T: want()})
		add(lkStep{A: "wait", Ms: 1500})
		add(lkStep{A: "stop", S: 2})
		add(lkStep{A: "stop", S: 1})
	case 1: // flow of a track
		add(lkStep{A: "start", S: 1, R: 1, N: 0, T: []int{1 + r.Intn(3)}})
		n := out[0].T[0]
		add(lkStep{A: "wait", Ms: 2500})
		for i := 0; i < 2; i++ {
			add(lkStep{A: pick(r, "media", "mute"), R: 1, N: n, On: false})
			if out[len(out)-1].A == "mute" {
				out[len(out)-1].On = true
			}
			add(lkStep{A: "wait", Ms: 3800 + r.Intn(1500)})
			b := out[len(out)-2]
			b.On = !b.On
			add(b)
			add(lkStep{A: "wait", Ms: 2500 + r.Intn(1000)})
		}
		add(lkStep{A: pick(r, "stop", "leave", "unpub", "away"), S: 1, R: 1, N: 1})
		if out[len(out)-1].A == "unpub" {
			out[len(out)-1].N = n
		}
		if out[len(out)-1].A == "away" {
			out[len(out)-1].N = map[int]int{1: 1, 2: 1, 3: 2}[n]
		}
		add(lkStep{A: "wait", Ms: 5500})
		add(lkStep{A: "stop", S: 1})
	default:
		for i := 0; i < 1+r.Intn(2); i++ {
			n := 1 + r.Intn(3)
			for s := 1; s <= n; s++ {
				add(lkStep{A: "start", S: s, R: 1 + r.Intn(2), N: s, T: want()})
				if r.Intn(4) == 0 {
					add(lkStep{A: pick(r, "faults", "reorder"), S: s})
				}
			}
			for j := 0; j < 2+r.Intn(4); j++ {
				s := 1 + r.Intn(n)
				switch r.Intn(9) {
				case 0:
					add(lkStep{A: "pub", R: 1 + r.Intn(2), N: 4})
				case 1:
					if i > 0 {
						add(lkStep{A: "unpub", R: 1 + r.Intn(2), N: 1 + r.Intn(3)})
					}
				case 2:
					add(lkStep{A: "resume", S: s})
				case 3:
					add(lkStep{A: "start", S: s, R: 1 + r.Intn(2), N: r.Intn(3), T: want()})
				case 4:
					add(lkStep{A: "mute", R: 1 + r.Intn(2), N: 1 + r.Intn(3), On: r.Intn(2) == 0})
				default:
					add(lkStep{A: "wait", Ms: 300 + r.Intn(1500)})
				}
			}
			for s := 1; s <= n; s++ {
				switch x := r.Intn(12); {
				case x < 5:
					add(lkStep{A: "stop", S: s})
				case x < 8:
					add(lkStep{A: "leave", S: s})
				case x < 10:
					add(lkStep{A: "both", S: s})
				case x == 10 && i > 0 && !short:
					add(lkStep{A: "cut", S: s})
				}
			}
			if r.Intn(2) == 0 {
				add(lkStep{A: "idle"})
			}
		}
	}
	return out
}
