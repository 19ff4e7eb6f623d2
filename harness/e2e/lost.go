package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"
)

// The control channel is lost (spec/Control.tla).

func init() { domains["lost"] = lost }

func lost(w *World) {
	var g struct {
		Kind, Phase string
		Http        bool
	}
	if w.sched != nil {
		must(json.Unmarshal(w.sched, &g))
	} else { // as the generator, but at any time
		g.Kind, g.Phase, g.Http = pick(w.rng, "cut", "reset", "down", "kicked", "error", "garbled"), pick(w.rng, "hello", "idle", "session", "busy"), w.rng.Intn(2) == 0
	}
	w.tr.Src = fmt.Sprint(g.Kind, " ", g.Phase, " ", g.Http)
	defer w.keep("fault", "exit", "look", "crash")
	c := boot(w, 100)
	r := w.redis
	within := 10000
	if g.Kind == "silent" {
		within = 80000
	}
	fault := func() {
		w.ev(M{"op": "fault", "kind": g.Kind, "within": within})
		switch g.Kind {
		case "refused", "down":
			r.close()
		case "cut":
			r.cut()
		case "reset":
			r.reset()
		case "kicked":
			r.push(c.sub, "*3\r\n"+bulk([]byte("unsubscribe"))+bulk([]byte(c.sub))+":0\r\n")
		case "error":
			r.push(c.sub, "-ERR the server is going away\r\n")
		case "garbled":
			if g.Phase == "start" {
				r.garbled = true
			} else {
				r.push(c.sub, pick(w.rng, "?\r\n", "*x\r\n", "HTTP/1.1 200 OK\r\n\r\n", "$-7\r\n"))
			}
		case "silent":
			r.m.Lock()
			r.silent = true
			r.m.Unlock()
		case "closed":
			r.refuse = true
		case "denied":
			r.denySub = true
		case "auth":
			r.password = "x"
		}
	}
	prom := freePort()
	conf := c.config(prom)
	if g.Http {
		conf += fmt.Sprintf("http:\n  enable: true\n  port: %d\n", freePort())
	}
	switch g.Phase {
	case "start":
		fault()
		w.rec = w.start(conf)
	case "hello": // while it announces itself
		hit := false
		seen := r.onPublish
		r.onPublish = func(ch string, data []byte) {
			seen(ch, data)
			w.m.Lock()
			first := !hit && strings.Contains(string(data), "recorderStatus")
			hit = hit || first
			w.m.Unlock()
			if first {
				fault()
			}
		}
		w.rec = w.start(conf)
	default:
		w.rec = w.start(conf)
		w.wait(20*time.Second, func() bool { return c.resps > 0 || w.rec.exited() })
		if g.Phase == "session" || g.Phase == "busy" {
			st := c.startPeer("s1", "r1.webm", PeerOpts{ID: 1, Video: w.rng.Intn(2), Audio: 1})
			w.wait(15*time.Second, func() bool { return st.resp || w.rec.exited() })
			select {
			case <-st.peer.connected:
			case <-time.After(10 * time.Second):
			}
			st.peer.media(true, true)
			time.Sleep(time.Duration(w.rng.Intn(1000)) * time.Millisecond)
		}
		if g.Phase == "busy" {

			for i := 2; i < 6+w.rng.Intn(6); i++ {
				c.startPeer(fmt.Sprint("s", i), fmt.Sprintf("r%d.webm", i), PeerOpts{ID: i, Audio: 1})
				if w.rng.Intn(2) == 0 {
					c.stop(fmt.Sprint("s", i))
				}
			}
			c.stop("s1")
		}
		time.Sleep(time.Duration(w.rng.Intn(300)) * time.Millisecond)
		if g.Kind == "none" {
			time.Sleep(75 * time.Second) // pings
		} else {
			fault()
		}
	}
	if g.Kind == "none" {
		w.m.Lock()
		n := c.resps
		w.m.Unlock()
		c.status()
		able := w.wait(5*time.Second, func() bool { return c.resps > n || w.rec.exited() })
		if !w.rec.exited() {
			w.ev(M{"op": "look", "able": able})
		}
		return
	}
	if g.Phase == "hello" {
		w.wait(20*time.Second, func() bool { return w.rec.exited() || len(w.tr.Ev) > 0 && w.tr.Ev[0]["op"] == "fault" })
	}
	if !w.wait(time.Duration(within+2000)*time.Millisecond, w.rec.exited) {
		w.ev(M{"op": "look", "able": false})
		return
	}
	w.wait(time.Second, func() bool { return len(w.tr.Ev) > 0 && w.tr.Ev[len(w.tr.Ev)-1]["op"] == "exit" })
}
