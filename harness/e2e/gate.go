package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifmedia"
)

// The HTTP gateway (spec/Gate.tla).

func init() { domains["gate"] = gate }

type post struct {
	k       int
	body    string
	s, file string
	answer  string // of its session
	cancel  context.CancelFunc
	done    bool
	left    bool
	reply   string
	status  int
	peer    *Peer
}

type gateRun struct {
	c     *ctlRun
	w     *World
	port  int
	posts []*post
	ans   map[string]int // answers by number
	real  bool           // the recorder answers
}

func (g *gateRun) answer(s string) int {
	if s == "" {
		return 0
	}
	if g.ans[s] == 0 {
		g.ans[s] = len(g.ans) + 1
	}
	return g.ans[s]
}

func (g *gateRun) url() string { return fmt.Sprintf("http://127.0.0.1:%d/sdp", g.port) }

// published messages, before they are delivered; start requests do not reach the recorder unless it is to answer.
func (g *gateRun) published(ch string, data []byte) bool {
	w := g.w
	var m M
	json.Unmarshal(data, &m)
	str := func(k string) string { s, _ := m[k].(string); return s }
	switch {
	case ch == g.c.sub && str("id") == "startRecording":
		sdp := ""
		if ao, ok := m["adapterOptions"].(map[string]interface{}); ok {
			if ms, ok := ao["mediasoup"].(map[string]interface{}); ok {
				sdp, _ = ms["sdp"].(string)
			}
		}
		if sdp == "" {
			sdp = str("sdp")
		}
		w.m.Lock()
		k := 0
		for _, p := range g.posts {
			if p.body == sdp && p.s == "" && k == 0 {
				k, p.s, p.file = p.k, str("recordingSessionId"), str("fileName")
			}
		}
		w.evLocked(M{"op": "start", "k": k, "s": str("recordingSessionId"), "file": str("fileName")})
		w.m.Unlock()
		return !g.real
	case ch == g.c.pubch && str("id") == "startRecordingResponse":
		g.responded(str("recordingSessionId"), str("status") == "ok" && str("sdp") != "", str("sdp"))
	}
	return false
}

func (g *gateRun) responded(s string, ok bool, sdp string) {
	g.w.m.Lock()
	r := 0
	if ok {
		r = g.answer(sdp)
	}
	g.w.evLocked(M{"op": "resp", "s": s, "ok": ok, "r": r})
	g.w.m.Unlock()
}

// post a body and report the reply.
func (g *gateRun) post(method, body string, chunked bool) *post {
	w := g.w
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	w.m.Lock()
	p := &post{k: len(g.posts) + 1, body: body, cancel: cancel}
	g.posts = append(g.posts, p)
	w.evLocked(M{"op": "post", "k": p.k, "well": method == "POST" && body != ""})
	w.m.Unlock()
	w.defers(cancel)
	var rd io.Reader = strings.NewReader(body)
	if chunked {
		rd = io.MultiReader(strings.NewReader(body[:len(body)/2]), strings.NewReader(body[len(body)/2:]))
	}
	go func() {
		rq, err := http.NewRequestWithContext(ctx, method, g.url(), rd)
		must(err)
		var status, r = 0, 0
		rs, err := noLimit.Do(rq)
		var b []byte
		if err == nil {
			b, err = io.ReadAll(rs.Body)
			rs.Body.Close()
			status = rs.StatusCode
		}
		w.m.Lock()
		defer w.m.Unlock()
		if err != nil && p.left {
			return
		}
		if err == nil && status/100 == 2 {
			r = -1
			if g.ans[string(b)] > 0 {
				r = g.ans[string(b)]
			}
		}
		p.reply, p.status, p.done = string(b), status, true
		if !w.rec.exited() {
			w.evLocked(M{"op": "reply", "k": p.k, "status": status, "r": r, "method": method, "text": cut(string(b), 80)})
		}
	}()
	return p
}

var noLimit = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// respond as a recorder would.
func (g *gateRun) respond(p *post, kind string) {
	w := g.w
	w.m.Lock()
	s, file := p.s, p.file
	w.m.Unlock()
	m := M{"id": "startRecordingResponse", "recordingSessionId": s}
	sdp := ""
	switch kind {
	case "ok", "OK":
		sdp = fmt.Sprintf("answer-%d-%d ü \"%s\"", p.k, w.rng.Intn(1000), strings.Repeat("x", w.rng.Intn(2000)))
		m["status"], m["sdp"], m["fileName"] = "ok", sdp, file
	case "failed":
		m["status"], m["error"] = "failed", "no"
	case "nosdp":
		m["status"] = "ok"
	}
	w.m.Lock()
	p.answer = sdp
	w.m.Unlock()
	g.responded(s, sdp != "", sdp)
	g.send(m)
}

func (g *gateRun) send(m M) {
	b, _ := json.Marshal(m)
	g.w.redis.deliver(g.c.pubch, b)
}

func (g *gateRun) body(kind string) string {
	r := g.w.rng
	switch kind {
	case "odd":
		return fmt.Sprintf("\x00<offer> ☃ \"%d\" \\ {\"id\":\"stopRecording\"}\r\n\t%d", r.Int63(), r.Intn(9))
	case "large":
		return fmt.Sprint(r.Int63()) + strings.Repeat("0123456789abcdef", 20000)
	case "same":
		if len(g.posts) > 0 {
			if p := g.posts[r.Intn(len(g.posts))]; p.s != "" {
				return p.body
			}
		}
	}
	return fmt.Sprintf("offer-%d", r.Int63())
}

func gate(w *World) {
	defer w.keep("post", "start", "resp", "reply", "rec", "end", "exit", "crash")
	c := boot(w, 100)
	g := &gateRun{c: c, w: w, port: freePort(), ans: map[string]int{}}
	g.real = w.sched == nil && w.rng.Intn(2) == 0
	w.redis.hold = g.published
	prom := freePort()
	w.rec = w.start(c.config(prom) + fmt.Sprintf("http:\n  enable: true\n  port: %d\n", g.port))
	w.rec.prom = prom
	up := func() bool {
		for i := 0; i < 200 && !w.rec.exited(); i++ {
			if r, err := noKeep.Get(fmt.Sprintf("http://127.0.0.1:%d/favicon.ico", g.port)); err == nil {
				r.Body.Close()
				return true
			}
			time.Sleep(50 * time.Millisecond)
		}
		return false
	}
	w.wait(20*time.Second, func() bool { return c.resps > 0 || w.rec.exited() })
	w.wait(20*time.Second, func() bool {
		n := 0
		for _, e := range w.tr.Ev {
			if e["op"] == "sub" {
				n++
			}
		}
		return n > 1 || w.rec.exited()
	})
	if !up() {
		w.ev(M{"op": "crash", "msg": "the gateway does not come up"})
		return
	}
	if g.real {
		g.sessions()
	} else {
		g.forged()
	}
	// what is still open
	w.wait(40*time.Second, func() bool {
		for _, p := range g.posts {
			if !p.done && !p.left {
				return false
			}
		}
		return true
	})
	w.m.Lock()
	open := []int{}
	for _, p := range g.posts {
		if !p.done && !p.left {
			open = append(open, p.k)
		}
	}
	w.m.Unlock()
	w.ev(M{"op": "end", "open": open})
}

func (g *gateRun) started(p *post) bool {
	return g.w.wait(5*time.Second, func() bool { return p.s != "" || g.w.rec.exited() })
}

// forged: the harness answers in the recorder's place.
func (g *gateRun) forged() {
	w := g.w
	var steps []struct {
		A string
		N int
		K string
	}
	if w.sched != nil {
		must(json.Unmarshal(w.sched, &steps))
	} else { // many at once, answered in any order
		n := 2 + w.rng.Intn(30)
		ps := make([]*post, n)
		for i := range ps {
			body := g.body(pick(w.rng, "plain", "odd", "plain"))
			ps[i] = g.post("POST", body, w.rng.Intn(2) == 0)
		}
		w.rng.Shuffle(n, func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		for _, p := range ps {
			if g.started(p) {
				g.respond(p, pick(w.rng, "ok", "ok", "ok", "failed"))
				if w.rng.Intn(3) == 0 {
					g.other(pick(w.rng, "foreign", "empty", "junk", "event"))
				}
			}
		}
	}
	byN := map[int]*post{}
	for _, s := range steps {
		if w.rec.exited() {
			return
		}
		switch s.A {
		case "post":
			byN[s.N] = g.post("POST", g.body(s.K), w.rng.Intn(3) == 0)
		case "poor":
			switch s.K {
			case "empty":
				g.post("POST", "", false)
			case "get":
				g.post("GET", pick(w.rng, "", "x"), false)
			case "put":
				g.post(pick(w.rng, "PUT", "DELETE", "PATCH", "OPTIONS"), "x", false)
			case "head":
				g.post("HEAD", "", false)
			}
		case "resp":
			if p := byN[s.N]; g.started(p) && !p.left {
				g.respond(p, s.K)
			}
		case "again": // the same, or another answer for the same session
			if p := byN[s.N]; g.started(p) {
				g.respond(p, pick(w.rng, "ok", "failed", "nosdp"))
			}
		case "other":
			g.other(s.K)
		case "leave":
			if p := byN[s.N]; p != nil && g.started(p) {
				w.m.Lock()
				p.left = true
				w.m.Unlock()
				p.cancel()
			}
		case "pause":
			time.Sleep(time.Duration(w.rng.Intn(300)) * time.Millisecond)
		}
	}
	// after all that, an offer is answered as ever
	p := g.post("POST", g.body("plain"), false)
	if g.started(p) {
		g.respond(p, "ok")
	}
	w.wait(4*time.Second, func() bool { return p.done })
}

// other traffic on the event channel.
func (g *gateRun) other(kind string) {
	w := g.w
	m := M{"id": "startRecordingResponse", "status": "ok", "sdp": "someone else's", "fileName": "x.webm"}
	w.m.Lock()
	s := "x"
	for _, p := range g.posts {
		if p.s != "" {
			s = p.s
		}
	}
	w.m.Unlock()
	switch kind {
	case "foreign":
		m["recordingSessionId"] = fmt.Sprint("foreign-", w.rng.Intn(9))
	case "empty":
		m["recordingSessionId"] = ""
		if w.rng.Intn(2) == 0 {
			delete(m, "recordingSessionId")
		}
	case "prefix":
		m["recordingSessionId"] = pick(w.rng, s[:len(s)-1], s+"0", s[:len(s)/2], " "+s)
	case "case":
		if strings.ToUpper(s) == s {
			return
		}
		m["recordingSessionId"] = strings.ToUpper(s)
	case "junk":
		w.redis.deliver(g.c.pubch, []byte(pick(w.rng, "", "{", "null", "[]", "{\"id\":7}", "{\"id\":\"startRecordingResponse\"}", "{\"id\":\"startRecordingResponse\",\"sdp\":5}", "\xff\xfe")))
		return
	case "event":
		g.send([]M{{"id": "recordingStopped", "recordingSessionId": s, "reason": "stopped"}, {"id": "recordingRtpStatusChanged", "recordingSessionId": s, "status": "flowing"},
			{"id": "recorderStatus"}, {"id": "startRecording", "recordingSessionId": s, "fileName": "x.webm"}, {"id": "stopRecording", "recordingSessionId": s}}[w.rng.Intn(5)])
		return
	}
	id, _ := m["recordingSessionId"].(string)
	g.responded(id, true, "someone else's")
	g.send(m)
}

// sessions: the recorder answers; peers connect with the reply they got.
func (g *gateRun) sessions() {
	w := g.w
	n := 2 + w.rng.Intn(6)
	var ps []*post
	for i := 1; i <= n; i++ {
		pe := newPeer(w, PeerOpts{ID: i, Video: i % 2, Audio: 1})
		off := pe.offer()
		p := g.post("POST", off, w.rng.Intn(3) == 0)
		p.peer = pe
		ps = append(ps, p)
		switch w.rng.Intn(4) {
		case 0:
			g.post("POST", pick(w.rng, fmt.Sprint("nonsense", i), base64.StdEncoding.EncodeToString([]byte(fmt.Sprintf("{\"n\":%d}", i))), fmt.Sprint(i)), false)
		case 1:
			g.post(pick(w.rng, "GET", "PUT"), "", false)
		case 2:
			g.other(pick(w.rng, "foreign", "junk", "event"))
		case 3:
			time.Sleep(time.Duration(w.rng.Intn(50)) * time.Millisecond)
		}
	}
	w.wait(35*time.Second, func() bool {
		for _, p := range ps {
			if !p.done {
				return false
			}
		}
		return true
	})
	con := map[*post]bool{}
	for _, p := range ps {
		if p.status/100 == 2 && p.peer.answer(p.reply) == nil {
			con[p] = true
		}
	}
	for _, p := range ps {
		if con[p] {
			select {
			case <-p.peer.connected:
				p.peer.media(true, true)
			case <-time.After(10 * time.Second):
			}
		}
	}
	time.Sleep(time.Duration(1000+w.rng.Intn(500)) * time.Millisecond)
	for _, p := range ps {
		p.peer.end()
	}
	// each is closed by the recorder soon
	w.wait(12*time.Second, func() bool {
		n := 0
		for _, e := range w.tr.Ev {
			if e["op"] == "pub" && e["kind"] == "stopped" {
				n++
			}
		}
		return n >= len(con) || w.rec.exited()
	})
	for _, p := range ps {
		if p.s == "" || p.status/100 != 2 {
			continue
		}
		b, err := os.ReadFile(filepath.Join(g.c.dir, p.file))
		x := verifmedia.ParseWebM(b)
		cn := p.peer.content()
		_, vb := x.Of(1)
		_, ab := x.Of(2)
		own := err == nil && len(ab) > 0 && (p.peer.o.Video == 0 || len(vb) > 0)
		for _, bl := range vb {
			own = own && cn.frames[string(bl.Data)] > 0
		}
		for _, bl := range ab {
			own = own && cn.sounds[string(bl.Data)] > 0
		}
		w.ev(M{"op": "rec", "k": p.k, "own": own, "nv": len(vb), "na": len(ab)})
	}
}
