package main

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifmedia"
	"github.com/pion/sdp/v3"
)

// Control-plane scenarios (spec/Server.tla).

func init() { domains["ctl"] = ctl }

// Step of a schedule.
type Step struct {
	A    string `json:"a"`
	S    int    `json:"s"`
	N    int    `json:"n"`
	K    string `json:"k"`
	On   bool   `json:"on"`
	Ms   int    `json:"ms"`
	Fast bool   `json:"fast"`
}

// names that requests may carry; equal targets under different spellings are intended.
var fileNames = []string{
	"", // none
	"r1.webm", "r2.webm", "sub/r3.webm",
	"./r1.webm", "sub/../r1.webm", "sub//r3.webm", "a/b/c/r4.webm", "old.webm", "/r2.webm", "../rec/r2.webm", // 4-10
	"../r5.webm", "sub/../../r5.webm", "../../../../../../../../tmp/verif-never/r6.webm", "r7.mkv", "r8", "..webm", "sub/", "..", "r9.webm.part", ".", "../recx/r1.webm", // 11-21
}

type start struct {
	s, file  string
	q        int
	peer     *Peer
	path     string // as answered
	ended    bool
	ok, resp bool
	sections int
	hash     string
	existed  bool
	lk       *lkSession // of LiveKit
}

// content is what the session's media looks like in a file.
func (st *start) content() (content, bool) {
	switch {
	case st.lk != nil:
		return st.lk.content(), true
	case st.peer != nil:
		return st.peer.content(), true
	}
	return content{}, false
}

type ctlRun struct {
	w      *World
	sess   map[string]*start // by id: the last one answered ok
	starts []*start
	pend   []*start // unanswered
	dir    string
	lo, hi int
	stops  int
	reqs   int // requests that will be answered
	resps  int
	ids    []string
	peers  map[int]*start
	sub    string
	pubch  string
	inst   string
	base   map[string]int
	extra  string // more settings of webrtc
}

var instances sync.Map

// file as it is when an event about it is published.
func (c *ctlRun) look(st *start) M {
	m := M{"exists": false, "miss": 0, "pre": 0, "wf": true, "hdr": false, "nv": 0, "na": 0, "own": true, "lastv": 0, "lasta": 0, "ordered": true}
	if st == nil || st.path == "" || st.path == "/dev/null" {
		return m
	}
	b, err := os.ReadFile(st.path)
	if err != nil {
		return m
	}
	h := sha256.Sum256(b)
	st.hash = string(h[:])
	st.existed = true
	x := verifmedia.ParseWebM(b)
	m["exists"] = true
	m["wf"] = x.Err == "" && !x.Partial
	m["hdr"] = x.Header
	cn, known := st.content()
	if !known {
		return m
	}
	_, vb := x.Of(1)
	_, ab := x.Of(2)
	m["nv"], m["na"] = len(vb), len(ab)
	last := 0
	for _, bl := range vb {
		i, ok := cn.frames[string(bl.Data)]
		if !ok {
			m["own"] = false
		}
		if i <= last {
			m["ordered"] = false
		}
		last = i
	}
	last = 0
	for _, bl := range ab {
		i, ok := cn.sounds[string(bl.Data)]
		if !ok {
			m["own"] = false
		}
		if i <= last {
			m["ordered"] = false
		}
		last = i
	}
	if st.lk != nil {
		m["miss"], m["pre"] = st.lk.missing(cn, vb, ab)
	}
	if len(vb) > 0 {
		m["lastv"] = vb[len(vb)-1].T - vb[0].T
	}
	if len(ab) > 0 {
		m["lasta"] = ab[len(ab)-1].T - ab[0].T
	}
	return m
}

func (c *ctlRun) published(ch string, data []byte) {
	w := c.w
	if ch == c.sub { // the HTTP gateway publishes requests
		return
	}
	var m M
	e := M{"op": "pub", "ch": ch == c.pubch, "kind": "unknown"}
	if json.Unmarshal(data, &m) == nil {
		str := func(k string) string { s, _ := m[k].(string); return s }
		has := func(k string) bool { _, ok := m[k]; return ok }
		num := func(k string) int { f, _ := m[k].(float64); return int(f) }
		_, isNum := m["timestampHR"].(float64)
		s := str("recordingSessionId")
		switch str("id") {
		case "startRecordingResponse":
			e["kind"], e["s"] = "resp", s
			e["ok"], e["failed"] = str("status") == "ok", str("status") == "failed"
			e["err"], e["sdp"], e["hasfile"] = str("error") != "" || has("error"), has("sdp") && str("sdp") != "", has("fileName")
			e["file"] = strings.Split(str("fileName"), "/")
			e["ports"], e["secs"], e["kinds"] = []int{}, 0, true
			w.m.Lock()
			var st *start
			for i, p := range c.pend {
				if p.s == s {
					st = p
					c.pend = append(append([]*start{}, c.pend[:i]...), c.pend[i+1:]...)
					break
				}
			}
			if st != nil {
				st.resp = true
				st.ok = e["ok"].(bool)
				st.path = str("fileName")
				if st.ok {
					c.sess[s] = st
				}
			}
			c.resps++
			w.m.Unlock()
			if a := str("sdp"); a != "" {
				if d, err := decodeSDP(a); err == nil {
					ports, secs := sdpInfo(d.SDP)
					e["ports"], e["secs"] = ports, secs
				} else {
					e["sdp"] = false
				}
				if st != nil && st.peer != nil && st.ok {
					p := st.peer
					go func() {
						if err := p.answer(a); err != nil {
							w.m.Lock()
							if !c.left(st) {
								w.evLocked(M{"op": "peer", "s": st.s, "q": st.q, "what": "badanswer"})
							}
							w.m.Unlock()
						}
					}()
				}
			}
		case "recordingStopped":
			e["kind"], e["s"], e["reason"] = "stopped", s, str("reason")
			e["ts"] = num("timestampHR")
			w.m.Lock()
			st := c.sess[s]
			if st != nil {
				st.ended = true
			}
			w.m.Unlock()
			e["f"] = c.look(st)
		case "recordingRtpStatusChanged":
			e["kind"], e["s"], e["st"], e["ts"], e["num"] = "flow", s, str("status"), num("timestampHR"), isNum
			w.m.Lock()
			st := c.sess[s]
			w.m.Unlock()
			var keep, kept = "", false
			if st != nil {
				keep, kept = st.hash, st.existed
			}
			f := c.look(st)
			e["lastv"], e["lasta"] = f["lastv"], f["lasta"]
			if st != nil {
				st.hash, st.existed = keep, kept
			}
		case "recorderStatus":
			e["kind"] = "status"
			w.m.Lock()
			c.resps++
			if c.inst == "" {
				c.inst = str("instanceId")
			}
			e["inst"] = str("instanceId") != "" && str("instanceId") == c.inst
			w.m.Unlock()
			owner, _ := instances.LoadOrStore(str("instanceId"), w)
			e["uniq"] = owner == w
			e["ver"] = str("appVersion")
			age := time.Now().UnixMilli() - int64(num("timestamp"))
			if age > 100000000 || age < -100000000 {
				age = 100000000
			}
			e["age"] = age
		}
	}
	w.ev(e)
}

// sdpInfo are the ports of the UDP candidates (the base ports, too) and the audio and video sections.
func sdpInfo(s string) (ports []int, secs int) {
	ports = []int{}
	var d sdp.SessionDescription
	if d.Unmarshal([]byte(s)) != nil {
		return
	}
	for _, md := range d.MediaDescriptions {
		if md.MediaName.Media == "audio" || md.MediaName.Media == "video" {
			if md.MediaName.Port.Value != 0 {
				secs++
			}
		}
		for _, a := range md.Attributes {
			if a.Key == "candidate" {
				f := strings.Fields(a.Value)
				var p int
				if len(f) < 3 || strings.ToLower(f[2]) != "udp" {
					continue
				}
				if len(f) > 5 {
					fmt.Sscan(f[5], &p)
					ports = append(ports, p)
				}
				for i := 0; i+1 < len(f); i++ {
					if f[i] == "rport" {
						fmt.Sscan(f[i+1], &p)
						if p != 0 {
							ports = append(ports, p)
						}
					}
				}
			}
		}
	}
	return
}

func (c *ctlRun) send(m M, style int) {
	b, _ := json.Marshal(m)
	if style == 1 { // JSON5
		b = append([]byte("// a request\n"), b...)
		b = append(b[:len(b)-1], []byte(",/* */}")...)
	}
	c.w.redis.deliver(c.sub, b)
}

func ext(name string) string {
	for i := len(name) - 1; i >= 0 && name[i] != '/'; i-- {
		if name[i] == '.' {
			return name[i:]
		}
	}
	return ""
}

// start requests: kinds of requests and what they offer.
func (c *ctlRun) start(s string, name string, k string) *start {
	w := c.w
	st := &start{s: s, file: name}
	w.m.Lock()
	c.starts = append(c.starts, st)
	st.q = len(c.starts)
	w.m.Unlock()
	m := M{"id": "startRecording", "recordingSessionId": s, "fileName": name}
	// what the request carries: new and legacy offers ("good", "bad", "none")
	nw, leg, adapter := "none", "none", ""
	o := PeerOpts{ID: st.q, Nack: w.rng.Intn(2) == 0, Num: verifmedia.Numbering{PidBits: pick(w.rng, 0, 7, 15), PidBase: w.rng.Intn(40000)},
		VSeq: uint16(w.rng.Intn(65536)), ASeq: uint16(w.rng.Intn(65536)), VTs: w.rng.Uint32(), ATs: w.rng.Uint32()}
	media := "av"
	var lk M
	switch k {
	case "v", "a", "av", "avv":
		media, adapter, nw = k, pick(w.rng, "mediasoup", "mediasoup", ""), "good"
	case "legacy":
		media, adapter, leg = pick(w.rng, "v", "a", "av"), pick(w.rng, "", "mediasoup"), "good"
	case "both": // the new field takes precedence
		media, adapter, nw, leg = pick(w.rng, "v", "a"), pick(w.rng, "", "mediasoup"), "good", "bad"
	case "bothbad":
		adapter, nw, leg = pick(w.rng, "", "mediasoup"), "bad", "good"
	case "bad":
		adapter, nw = pick(w.rng, "", "mediasoup"), "bad"
	case "nosdp":
		adapter = pick(w.rng, "", "mediasoup")
	case "adapter":
		adapter, nw, leg = pick(w.rng, "janus", "Mediasoup", "livekit "), pick(w.rng, "good", "none"), pick(w.rng, "good", "none")
	case "lkempty":
		adapter, leg = "livekit", pick(w.rng, "good", "none")
		lk = []M{nil, {}, {"room": "r"}, {"trackIds": []string{"t"}}, {"room": "", "trackIds": []string{"t"}}, {"room": "r", "trackIds": []string{}}}[w.rng.Intn(6)]
	}
	mk := func(kind string) string {
		switch kind {
		case "good":
			o.Video, o.Audio = strings.Count(media, "v"), strings.Count(media, "a")
			if st.peer == nil {
				st.peer = newPeer(w, o)
			}
			st.sections = o.Video + o.Audio
			return st.peer.offer()
		case "bad":
			good, _ := json.Marshal(M{"type": "answer", "sdp": "v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\n"})
			return pick(w.rng, "%%%", "bm90IGpzb24=", base64.StdEncoding.EncodeToString([]byte(`{"type":"offer","sdp":"nonsense"}`)),
				base64.StdEncoding.EncodeToString([]byte(`{"type":"offer"}`)), base64.StdEncoding.EncodeToString([]byte(`[]`)),
				base64.StdEncoding.EncodeToString([]byte(`{}`)), base64.StdEncoding.EncodeToString(good),
				base64.StdEncoding.EncodeToString([]byte(`{"type":"offer","sdp":"v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=-\r\nt=0 0\r\nm=video 9 UDP/TLS/RTP/SAVPF 96\r\nc=IN IP4 0.0.0.0\r\na=mid:0\r\na=rtpmap:96 VP8/90000\r\n"}`)))
		}
		return ""
	}
	opts := M{}
	if nw != "none" {
		opts["mediasoup"] = M{"sdp": mk(nw)}
	} else if w.rng.Intn(3) == 0 {
		opts["mediasoup"] = []M{{}, {"sdp": ""}}[w.rng.Intn(2)]
	}
	if leg != "none" {
		if leg == "bad" && nw == "good" {
			m["sdp"] = "%%%"
		} else {
			m["sdp"] = mk(leg)
		}
	}
	if lk != nil {
		opts["livekit"] = lk
	}
	if len(opts) > 0 {
		m["adapterOptions"] = opts
	}
	if adapter != "" {
		m["adapter"] = adapter
	}
	if st.peer != nil {
		c.watch(st)
	}
	w.m.Lock()
	c.pend = append(c.pend, st)
	c.reqs++
	w.evLocked(M{"op": "req", "kind": "start", "s": s, "q": st.q, "file": strings.Split(name, "/"), "ext": ext(name), "adapter": adapter,
		"new": nw, "legacy": leg, "lkok": false, "k": k, "secs": st.sections, "v": o.Video, "a": o.Audio})
	w.m.Unlock()
	c.send(m, w.rng.Intn(3))
	return st
}

// startPeer starts a session for a peer made to order, answered in the background.
func (c *ctlRun) startPeer(s, name string, o PeerOpts) *start {
	w := c.w
	st := &start{s: s, file: name, sections: o.Video + o.Audio, peer: newPeer(w, o)}
	off := st.peer.offer()
	c.watch(st)
	w.m.Lock()
	c.starts = append(c.starts, st)
	st.q = len(c.starts)
	c.pend = append(c.pend, st)
	c.reqs++
	w.evLocked(M{"op": "req", "kind": "start", "s": s, "q": st.q, "file": strings.Split(name, "/"), "ext": ext(name), "adapter": "mediasoup",
		"new": "good", "legacy": "none", "lkok": false, "k": "net", "secs": st.sections, "v": o.Video, "a": o.Audio})
	w.m.Unlock()
	c.send(M{"id": "startRecording", "recordingSessionId": s, "fileName": name, "adapter": "mediasoup", "adapterOptions": M{"mediasoup": M{"sdp": off}}}, 0)
	return st
}

// watch reports what the peer sees.
func (c *ctlRun) watch(st *start) {
	p := st.peer
	stop := make(chan struct{})
	c.w.defers(func() { close(stop) })
	go func() {
		con := p.connected
		for {
			select {
			case <-con:
				c.w.ev(M{"op": "peer", "s": st.s, "q": st.q, "what": "connected"})
				con = nil
			case <-p.closed:
				c.w.ev(M{"op": "peer", "s": st.s, "q": st.q, "what": "sawclose"})
				return
			case <-stop:
				return
			}
		}
	}()
}

func (c *ctlRun) has(st *start, what string) bool {
	for _, e := range c.w.tr.Ev {
		if e["op"] == "peer" && e["q"] == st.q && e["what"] == what {
			return true
		}
	}
	return false
}

func (c *ctlRun) left(st *start) bool {
	return c.has(st, "close") || c.has(st, "vanish") || c.has(st, "mute")
}

// cur is the last start request of a session id.
func (c *ctlRun) cur(s string) *start {
	c.w.m.Lock()
	defer c.w.m.Unlock()
	for i := len(c.starts) - 1; i >= 0; i-- {
		if c.starts[i].s == s {
			return c.starts[i]
		}
	}
	return nil
}

// active is the session that was last answered ok under an id, if it has not ended.
func (c *ctlRun) active(s string) *start {
	c.w.m.Lock()
	defer c.w.m.Unlock()
	if st := c.sess[s]; st != nil && !st.ended {
		return st
	}
	return nil
}

func (c *ctlRun) media(st *start, on bool) {
	if st == nil || st.peer == nil {
		return
	}
	c.w.m.Lock()
	left := c.left(st)
	c.w.m.Unlock()
	if left {
		return
	}
	c.w.ev(M{"op": "media", "s": st.s, "q": st.q, "on": on})
	st.peer.media(on, on)
}

func (c *ctlRun) leave(st *start, how string) {
	if st == nil || st.peer == nil {
		return
	}
	c.w.ev(M{"op": "peer", "s": st.s, "q": st.q, "what": how})
	switch how {
	case "close":
		st.peer.halt()
		st.peer.pc.Close()
	case "mute":
		st.peer.m.Lock()
		st.peer.mute = true
		st.peer.m.Unlock()
		st.peer.halt()
	default:
		st.peer.vanish()
	}
	c.w.ev(M{"op": "peer", "s": st.s, "q": st.q, "what": "gone"})
}

func (c *ctlRun) stop(s string) {
	c.w.m.Lock()
	c.stops++
	c.w.evLocked(M{"op": "req", "kind": "stop", "s": s})
	c.w.m.Unlock()
	c.send(M{"id": "stopRecording", "recordingSessionId": s}, c.w.rng.Intn(4))
}

var junk = []string{"", "{", "}", "nonsense", "[]", "null", "42", `"startRecording"`, "{}", `{"id":null}`, `{"id":5}`, `{"id":["startRecording"]}`,
	`{"id":"startrecording","recordingSessionId":"j"}`, `{"id":"StopRecording"}`, `{"id":"getRecorderStatus"`, `{"id":"startRecording","fileName":5}`,
	`{"id":"startRecording","adapterOptions":"x","recordingSessionId":"j"}`, `{"id":"startRecording","recordingSessionId":{}}`,
	`{"id":"stopRecording","recordingSessionId":7}`, `{"id":"stopRecording"}`, `{"id":"stopRecording","recordingSessionId":"nobody"}`,
	`{"id":"recorderStatus","instanceId":"x"}`, `{"id":"startRecordingResponse","status":"ok","recordingSessionId":"nobody"}`,
	`{"id":"startRecordingResponse","sdp":7}`, `{"id":"recordingStopped","recordingSessionId":"nobody"}`, `{"id":"recordingRtpStatusChanged","timestampUTC":"x"}`,
	`{"id":"recordingRtpStatusChanged","recordingSessionId":"nobody","timestampUTC":"2020-01-01T00:00:00Z","timestampHR":5}`,
	"\x00\x01\x02", "\xff\xfe", `{"id":"\ud800"}`, `{'id':'unknown',}`, `/* */`, `{"id":"getRecorderStatus"}}`, `{id:getRecorderStatus}`, `{"id":"exit"}`,
	`{"a":` + strings.Repeat("[", 500) + strings.Repeat("]", 500) + `}`, `{"id":"unknown","x":1e400}`, `{"id":"unknown","x":+Infinity,y:0x,}`, `{"id":"x" "y":1}`, `{,}`, `{"id"}`, `{:}`, "//", "/*", "'", "\"", "\\", "{\"\\u", "{'\\x", `{"id":.}`, `{"id":-}`, `{"id":0x}`, `{"id":1e}`, "{\"id\":'"}

func (c *ctlRun) junk(k int) {
	b := []byte(junk[k%len(junk)])
	r := c.w.rng
	switch {
	case k >= 2*len(junk): // soup
		soup := []string{"{", "}", "[", "]", ":", ",", `"id"`, `"`, "'", "null", "1", "-", "e", ".", "0x", "\\", "/", "*", "\n", " ", "x", "Infinity", "NaN", "+", "\u2028", "\x80"}
		b = nil
		for i := 0; i < 1+r.Intn(14); i++ {
			b = append(b, soup[r.Intn(len(soup))]...)
		}
	case k >= len(junk): // a request cut off
		f, _ := json.Marshal(M{"id": "startRecording", "recordingSessionId": "cut", "fileName": "cut.webm", "adapterOptions": M{"mediasoup": M{"sdp": "eyJ9"}}})
		b = f[:r.Intn(len(f))]
	}
	c.w.ev(M{"op": "req", "kind": "junk", "s": ""})
	c.w.redis.deliver(c.sub, b)
}

func (c *ctlRun) status() {
	c.w.m.Lock()
	c.reqs++
	c.w.evLocked(M{"op": "req", "kind": "status", "s": ""})
	c.w.m.Unlock()
	c.send(M{"id": "getRecorderStatus"}, c.w.rng.Intn(3))
}

// settle waits until everything that has been asked for and caused has happened, or could long have.
func (c *ctlRun) settle(limit time.Duration) {
	c.status() // behind everything else
	// a peer that leaves before it connected is given up after 30 s
	c.w.m.Lock()
	for _, st := range c.starts {
		if st.peer != nil && c.left(st) && !c.has(st, "connected") && !st.ended {
			limit = max(limit, 45*time.Second)
		}
	}
	c.w.m.Unlock()
	ok := c.w.wait(limit, func() bool {
		if c.w.rec.exited() {
			return true
		}
		if c.resps < c.reqs+1 { // and the first status
			return false
		}
		for _, st := range c.starts {
			if st.ok && !st.ended && (c.left(st)) {
				return false
			}
			if st.ok && st.ended && st.peer != nil && c.has(st, "connected") && !c.has(st, "sawclose") {
				return false
			}
			if st.resp && !st.ok && st.peer != nil && c.has(st, "connected") && !c.has(st, "sawclose") {
				return false
			}
		}
		return true
	})
	c.w.ev(M{"op": "settled", "ok": ok})
}

// idle looks at what the recorder holds.
func (c *ctlRun) idle() {
	if c.w.rec.exited() {
		return
	}
	w := c.w
	get := func() M {
		ms, ok := w.rec.metrics("recorder_sessions", "go_goroutines")
		if !ok {
			return nil
		}
		return M{"op": "idle", "gauge": ms["recorder_sessions"], "gor": ms["go_goroutines"], "socks": w.rec.udpPorts(), "fds": len(w.rec.fds())}
	}
	act := 0
	w.m.Lock()
	for _, s := range c.sess {
		if !s.ended {
			act++
		}
	}
	w.m.Unlock()
	// give tasks of ended sessions the time to finish
	var e M
	for i := 0; i < 60; i++ {
		e = get()
		if e == nil {
			if w.rec.exited() {
				return
			}
			time.Sleep(200 * time.Millisecond)
			continue
		}
		if c.base == nil || act > 0 || (e["gor"].(int) <= c.base["gor"] && e["fds"].(int) <= c.base["fds"] && len(e["socks"].([]int)) == 0) {
			break
		}
		time.Sleep(200 * time.Millisecond)
	}
	if e == nil {
		w.ev(M{"op": "idle", "gauge": -1, "gor": 0, "socks": []int{}, "fds": 0, "bgor": 0, "bfds": 0})
		return
	}
	if c.base == nil {
		c.base = map[string]int{"gor": e["gor"].(int), "fds": e["fds"].(int)}
		for i := 0; i < 5; i++ {
			time.Sleep(40 * time.Millisecond)
			if x := get(); x != nil {
				e = x
				c.base["gor"], c.base["fds"] = max(c.base["gor"], x["gor"].(int)), max(c.base["fds"], x["fds"].(int))
			}
		}
	}
	e["bgor"], e["bfds"] = c.base["gor"], c.base["fds"]
	w.ev(e)
}

func (c *ctlRun) config(prom int) string {
	return fmt.Sprintf(`log:
  level: %s
recorder:
  directory: %s
  writeToDevNull: %v
  writeIVFCopy: %v
  useCustomSampler: %v
pubsub:
  channels:
    subscribe: %s
    publish: %s
  adapters:
    redis:
      address: 127.0.0.1:%d
      network: tcp
webrtc:
  rtcMinPort: %d
  rtcMaxPort: %d
  iceServers:
    - urls: ["stun:127.0.0.1:%d"]
%sprometheus:
  enable: true
  listenAddress: 127.0.0.1:%d
`, pick(c.w.rng, "error", "trace"), c.dir, c.w.tr.Cfg["devnull"], c.w.tr.Cfg["ivf"], c.w.tr.Cfg["custom"], c.sub, c.pubch, c.w.redis.port, c.lo, c.hi, stunPort, c.extra, prom)
}

// boot starts a recorder on a control channel of its own.
func boot(w *World, ports int) *ctlRun {
	c := &ctlRun{w: w, sess: map[string]*start{}, dir: filepath.Join(w.dir, "rec")}
	must(os.Mkdir(c.dir, 0o755))
	c.lo = udpRange(ports)
	c.hi = c.lo + ports - 1
	c.sub, c.pubch = pick(w.rng, "to-bbb-webrtc-recorder", "in"), pick(w.rng, "from-bbb-webrtc-recorder", "out")
	if _, ok := w.tr.Cfg["devnull"]; !ok {
		w.tr.Cfg["devnull"] = false
	}
	for k, v := range map[string]interface{}{"ivf": false, "custom": true} {
		if _, ok := w.tr.Cfg[k]; !ok {
			w.tr.Cfg[k] = v
		}
	}
	w.tr.Cfg["dir"] = strings.Split(c.dir, "/")[1:]
	w.tr.Cfg["lo"], w.tr.Cfg["hi"], w.tr.Cfg["noports"] = c.lo, c.hi, false
	w.tr.Cfg["ver"] = version()
	w.redis = newRedis()
	w.defers(w.redis.close)
	w.redis.onPublish = c.published
	w.redis.onSub = func(ch string) { w.ev(M{"op": "sub", "ch": ch == c.sub}) }
	return c
}

func (c *ctlRun) run() {
	w := c.w
	prom := freePort()
	w.rec = w.start(c.config(prom))
	w.rec.prom = prom
	if !w.wait(20*time.Second, func() bool { return c.resps > 0 || w.rec.exited() }) {
		w.ev(M{"op": "settled", "ok": false})
	}
}

// finish ends the scenario: the files as they are now, against what they were when their sessions ended.
func (c *ctlRun) finish() {
	w := c.w
	if !w.rec.exited() {
		w.rec.kill()
	}
	known := map[string]bool{}
	w.m.Lock()
	sts := append([]*start{}, c.starts...)
	w.m.Unlock()
	same := true
	for _, st := range sts {
		if !st.ok {
			continue
		}
		known[st.path] = true
		known[strings.TrimSuffix(st.path, ".webm")+".ivf"] = true
		if st.existed {
			b, err := os.ReadFile(st.path)
			h := sha256.Sum256(b)
			if err != nil || string(h[:]) != st.hash {
				if st.ended {
					same = false
				}
			}
		} else if st.ended && st.path != "" && st.path != "/dev/null" {
			later := false
			for _, o := range sts {
				later = later || (o != st && o.ok && o.path == st.path)
			}
			if _, err := os.Stat(st.path); err == nil && !later {
				same = false
			}
		}
	}
	stray := []string{}
	filepath.WalkDir(w.dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && !known[p] && p != filepath.Join(w.dir, "config.yml") && filepath.Base(p) != "old.webm" {
			stray = append(stray, p)
		}
		return nil
	})
	old := true
	if b, err := os.ReadFile(filepath.Join(c.dir, "old.webm")); err != nil || string(b) != "old" {
		old = false
	}
	w.ev(M{"op": "final", "same": same, "stray": stray, "old": old})
}

func version() string {
	b, _ := os.ReadFile("/repo/VERSION")
	return "v" + strings.ReplaceAll(strings.TrimSpace(string(b)), " ", "-")
}

var idPool = [][]string{{"s1", "s2", "s3"}, {"s1", "s1 ", "S1"}, {"a/b", "☃", "x\"y"}, {"", "0", "null"}, {"1-2-3", "../../x", strings.Repeat("long", 60)}}

func ctl(w *World) {
	var steps []Step
	w.tr.Cfg["devnull"], w.tr.Cfg["ivf"], w.tr.Cfg["custom"] = w.rng.Intn(12) == 0, w.rng.Intn(4) == 0, w.rng.Intn(4) != 0
	if w.sched != nil {
		must(json.Unmarshal(w.sched, &steps))
	} else {
		steps = randomSteps(w)
	}
	c := boot(w, 100)
	must(os.WriteFile(filepath.Join(c.dir, "old.webm"), []byte("old"), 0o600))
	c.ids = idPool[w.rng.Intn(len(idPool))]
	c.run()
	c.idle()
	for _, s := range steps {
		if w.rec.exited() {
			break
		}
		c.step(s)
	}
	c.settle(25 * time.Second)
	c.idle()
	c.finish()
}

func (c *ctlRun) id(i int) string { return c.ids[(i-1+len(c.ids))%len(c.ids)] }

func (c *ctlRun) step(s Step) {
	w := c.w
	switch s.A {
	case "start":
		st := c.start(c.id(s.S), fileNames[s.N%len(fileNames)], s.K)
		if !s.Fast {
			w.wait(15*time.Second, func() bool { return st.resp || w.rec.exited() })
		}
	case "connect": // wait for the peer of the session to be connected, and send
		if st := c.active(c.id(s.S)); st != nil && st.peer != nil {
			w.wait(15*time.Second, func() bool {
				return c.has(st, "connected") || st.ended || w.rec.exited() || c.left(st)
			})
			w.m.Lock()
			done := c.has(st, "connected") || st.ended || c.left(st)
			w.m.Unlock()
			if !done {
				w.ev(M{"op": "peer", "s": st.s, "q": st.q, "what": "noconnect"})
			} else if s.On {
				c.media(st, true)
			}
		}
	case "media":
		c.media(c.active(c.id(s.S)), s.On)
	case "stop":
		c.stop(c.id(s.S))
		if !s.Fast {
			time.Sleep(30 * time.Millisecond)
		}
	case "close":
		c.leave(c.active(c.id(s.S)), "close")
	case "await": // everything asked for has been answered
		w.wait(15*time.Second, func() bool { return c.resps > c.reqs || w.rec.exited() })
		time.Sleep(30 * time.Millisecond)
	case "mute":
		c.leave(c.active(c.id(s.S)), "mute")
	case "saw": // the recorder is just ending the session of a peer that left
		if st := c.cur(c.id(s.S)); st != nil && st.peer != nil {
			w.wait(15*time.Second, func() bool {
				return c.has(st, "sawclose") || st.ended || (st.resp && !st.ok) || !c.left(st) || w.rec.exited()
			})
			time.Sleep(time.Duration(w.rng.Intn(12)) * 300 * time.Microsecond)
		}
	case "vanish":
		c.leave(c.active(c.id(s.S)), "vanish")
	case "both":
		st := c.active(c.id(s.S))
		var wg sync.WaitGroup
		wg.Add(2)
		d := time.Duration(w.rng.Intn(12)) * time.Millisecond
		go func() { defer wg.Done(); c.leave(st, "close") }()
		go func() { defer wg.Done(); time.Sleep(d); c.stop(c.id(s.S)) }()
		wg.Wait()
	case "race": // the transport is lost, and requests arrive just when the recorder acts on that
		st := c.active(c.id(s.S))
		if st == nil || st.peer == nil {
			break
		}
		c.leave(st, "mute")
		w.wait(15*time.Second, func() bool { return c.has(st, "sawclose") || st.ended || w.rec.exited() })
		if s.Ms > 0 {
			time.Sleep(time.Duration(s.Ms) * 300 * time.Microsecond)
		}
		switch s.K {
		case "stop":
			c.stop(c.id(s.S))
			c.stop(c.id(s.S))
		case "start":
			c.start(c.id(s.S), fileNames[s.N%len(fileNames)], "a")
			c.stop(c.id(s.S))
		case "other":
			c.start(c.id(s.S+1), fileNames[s.N%len(fileNames)], "a")
			c.stop(c.id(s.S))
		}
	case "junk":
		for i := 0; i <= s.Ms; i++ {
			c.junk(s.N + i)
		}
	case "status":
		c.status()
	case "other": // a message of another channel
		ch := pick(w.rng, "to-other", c.pubch, "")
		b, _ := json.Marshal(M{"id": pick(w.rng, "getRecorderStatus", "stopRecording"), "recordingSessionId": c.id(s.S)})
		w.ev(M{"op": "req", "kind": "other", "s": c.id(s.S)})
		w.redis.deliver(ch, b)
	case "wait":
		time.Sleep(time.Duration(s.Ms) * time.Millisecond)
	case "settle":
		c.settle(25 * time.Second)
	case "idle":
		c.settle(25 * time.Second)
		c.idle()
	case "hup":
		w.rec.signal(syscall.SIGHUP)
		time.Sleep(50 * time.Millisecond)
	}
}

var kinds = []string{"v", "a", "av", "v", "a", "av", "av", "legacy", "both", "avv"}
var badKinds = []string{"bad", "bothbad", "nosdp", "adapter", "lkempty", "bad"}

// randomSteps is a history of its own.
func randomSteps(w *World) []Step {
	r := w.rng
	var out []Step
	add := func(s Step) { out = append(out, s) }
	good := func() int { return 1 + r.Intn(10) }
	what := r.Intn(8)
	if w.job.Args["flow"] != nil {
		what = 2
	}
	switch what {
	case 0, 1: // requests as fast as possible
		for i := 0; i < 12+r.Intn(20); i++ {
			switch x := r.Intn(12); {
			case x < 4:
				k := pick(r, kinds...)
				if r.Intn(3) == 0 {
					k = pick(r, badKinds...)
				}
				n := good()
				if r.Intn(5) == 0 {
					n = r.Intn(len(fileNames))
				}
				add(Step{A: "start", S: 1 + r.Intn(3), N: n, K: k, Fast: true})
			case x < 8:
				add(Step{A: "stop", S: 1 + r.Intn(3), Fast: true})
			case x == 8:
				add(Step{A: "status"})
			case x == 9:
				add(Step{A: "junk", N: r.Intn(3 * len(junk)), Ms: r.Intn(4)})
			case x == 10:
				add(Step{A: "other", S: 1 + r.Intn(3)})
			default:
				add(Step{A: "wait", Ms: r.Intn(50)})
			}
		}
		add(Step{A: "idle"})
	case 2: // flow
		k := pick(r, "v", "a")
		add(Step{A: "start", S: 1, N: good(), K: k})
		add(Step{A: "connect", S: 1, On: r.Intn(3) > 0})
		for i := 0; i < 2; i++ {
			add(Step{A: "wait", Ms: 800 + r.Intn(2500)})
			add(Step{A: "media", S: 1, On: false})
			add(Step{A: "wait", Ms: 3700 + r.Intn(1500)})
			add(Step{A: "media", S: 1, On: true})
		}
		add(Step{A: "wait", Ms: 2000})
		add(Step{A: pick(r, "stop", "close"), S: 1})
		add(Step{A: "idle"})
	default: // sessions with media that end in all ways
		for i := 0; i < 2+r.Intn(3); i++ {
			n := 1 + r.Intn(3)
			for s := 1; s <= n; s++ {
				add(Step{A: "start", S: s, N: pick(r, s, s, s, good()), K: pick(r, kinds...), Fast: r.Intn(3) == 0})
			}
			if r.Intn(4) == 0 {
				add(Step{A: "start", S: 1 + r.Intn(3), N: r.Intn(len(fileNames)), K: pick(r, append(badKinds, kinds...)...)})
			}
			for s := 1; s <= n; s++ {
				if r.Intn(8) > 0 {
					add(Step{A: "connect", S: s, On: r.Intn(5) > 0})
				}
			}
			add(Step{A: "wait", Ms: r.Intn(1200)})
			if r.Intn(4) == 0 {
				add(Step{A: "start", S: 1 + r.Intn(3), N: r.Intn(len(fileNames)), K: pick(r, append(badKinds, kinds...)...)})
			}
			if r.Intn(3) == 0 {
				add(Step{A: "junk", N: r.Intn(3 * len(junk)), Ms: r.Intn(5)})
			}
			if r.Intn(3) == 0 {
				add(Step{A: "idle"})
			}
			for s := 1; s <= n; s++ {
				switch x := r.Intn(14); {
				case x < 4:
					add(Step{A: "stop", S: s, Fast: r.Intn(2) == 0})
					if r.Intn(2) == 0 { // again, and at once the next under the same id or name
						add(Step{A: pick(r, "stop", "start", "start"), S: s, N: pick(r, s, good()), K: pick(r, kinds...), Fast: true})
					}
				case x < 8:
					add(Step{A: "close", S: s})
					if r.Intn(2) == 0 {
						add(Step{A: "wait", Ms: r.Intn(20)})
					}
					if r.Intn(2) == 0 {
						add(Step{A: pick(r, "stop", "start", "start"), S: s, N: pick(r, s, good()), K: pick(r, kinds...), Fast: true})
					}
				case x < 11:
					add(Step{A: "both", S: s})
				case x < 12:
					add(Step{A: "vanish", S: s})
				case x < 13:
					add(Step{A: "race", S: s, K: pick(r, "stop", "start", "other"), N: pick(r, s, good()), Ms: r.Intn(12)})
				}
			}
			if r.Intn(2) == 0 {
				add(Step{A: "idle"})
			}
		}
	}
	return out
}
