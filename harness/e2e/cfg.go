package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"gopkg.in/yaml.v3"
)

// Where settings come from, what is printed of them, and reloads (spec/Config.tla).

func init() { domains["cfg"] = cfgDomain; domains["reload"] = reloadDomain }

type setting struct {
	path string // with dots
	kind string // str, bool, u16, int, mode, list
}

var settings = []setting{
	{"recorder.directory", "str"}, {"recorder.dirFileMode", "str"}, {"recorder.fileMode", "str"}, {"recorder.writeToDevNull", "bool"},
	{"recorder.writeIVFCopy", "bool"}, {"recorder.videoPacketQueueSize", "u16"}, {"recorder.audioPacketQueueSize", "u16"}, {"recorder.useCustomSampler", "bool"},
	{"pubsub.channels.subscribe", "str"}, {"pubsub.channels.publish", "str"}, {"pubsub.adapter", "str"},
	{"pubsub.adapters.redis.address", "str"}, {"pubsub.adapters.redis.network", "str"}, {"pubsub.adapters.redis.password", "str"},
	{"webrtc.iceServers", "list"}, {"webrtc.rtcMinPort", "u16"}, {"webrtc.rtcMaxPort", "u16"}, {"webrtc.jitterBuffer", "u16"}, {"webrtc.jitterBufferPktTimeout", "u16"},
	{"http.enable", "bool"}, {"http.port", "int"}, {"prometheus.enable", "bool"}, {"prometheus.listenAddress", "str"},
	{"livekit.host", "str"}, {"livekit.apiKey", "str"}, {"livekit.apiSecret", "str"}, {"log.level", "str"},
}

func settingKind(path string) string {
	for _, s := range settings {
		if s.path == path {
			return s.kind
		}
	}
	panic(path)
}

// layer is what a file or the environment says: values by setting.
type layer map[string]interface{}

func (l layer) clone() layer {
	m := layer{}
	for k, v := range l {
		m[k] = v
	}
	return m
}

type leaf struct {
	p []string
	v string
}

func (l leaf) MarshalJSON() ([]byte, error) {
	p := l.p
	if p == nil {
		p = []string{}
	}
	return json.Marshal([]interface{}{p, l.v})
}

// leaves of a value as it is printed.
func leaves(v interface{}, at []string) []leaf {
	at = append([]string{}, at...)
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var out []leaf
		for _, k := range ks {
			out = append(out, leaves(x[k], append(at, k))...)
		}
		if len(x) == 0 {
			return []leaf{{at, "{}"}}
		}
		return out
	case []interface{}:
		var out []leaf
		for i, e := range x {
			out = append(out, leaves(e, append(at, strconv.Itoa(i)))...)
		}
		if len(x) == 0 {
			return []leaf{{at, "[]"}}
		}
		return out
	case nil:
		return []leaf{{at, "null"}}
	}
	return []leaf{{at, fmt.Sprint(v)}}
}

// ice is the value of the list of servers: their URLs and names.
type ice struct {
	urls [][]string
	user []string
}

func (v ice) leaves() []leaf {
	var l []interface{}
	for i, u := range v.urls {
		var us []interface{}
		for _, x := range u {
			us = append(us, x)
		}
		l = append(l, map[string]interface{}{"urls": us, "username": v.user[i], "credential": nil, "credentialtype": 0})
	}
	if len(l) == 0 {
		return []leaf{{nil, "[]"}}
	}
	return leaves(l, nil)
}

func (l layer) spec() []M {
	out := []M{}
	for _, s := range settings {
		if v, ok := l[s.path]; ok {
			e := M{"s": strings.Split(s.path, ".")}
			if x, ok := v.(ice); ok {
				e["v"] = x.leaves()
			} else {
				e["v"] = []leaf{{nil, fmt.Sprint(v)}}
			}
			out = append(out, e)
		}
	}
	return out
}

// yaml of a layer, in one of several styles.
func (l layer) yaml(r *rand.Rand) string {
	root := map[string]interface{}{}
	for k, v := range l {
		ps := strings.Split(k, ".")
		m := root
		for _, p := range ps[:len(ps)-1] {
			if m[p] == nil {
				m[p] = map[string]interface{}{}
			}
			m = m[p].(map[string]interface{})
		}
		if x, ok := v.(ice); ok {
			var l []interface{}
			for i, u := range x.urls {
				e := map[string]interface{}{"urls": u}
				if x.user[i] != "" {
					e["username"] = x.user[i]
				}
				l = append(l, e)
			}
			v = l
		}
		m[ps[len(ps)-1]] = v
	}
	if r.Intn(3) == 0 {
		b, _ := json.Marshal(root) // JSON is YAML
		return string(b) + "\n"
	}
	b, err := yaml.Marshal(root)
	must(err)
	return string(b)
}

func (l layer) env() []string {
	var out []string
	for k, v := range l {
		n := "BBBRECORDER_" + strings.ToUpper(strings.ReplaceAll(k, ".", "_"))
		if x, ok := v.(ice); ok {
			for i, u := range x.urls {
				out = append(out, fmt.Sprintf("%s_%d_URLS=%s", n, i, strings.Join(u, ",")))
				if x.user[i] != "" {
					out = append(out, fmt.Sprintf("%s_%d_USERNAME=%s", n, i, x.user[i]))
				}
			}
			continue
		}
		out = append(out, fmt.Sprintf("%s=%v", n, v))
	}
	sort.Strings(out)
	return out
}

var anyStrings = []string{"", "x", "0", "false", "a b", "a:b", "☃", "null", "~", "[x]", "0700", "'q'", "#c", "a=b", "/a/b", "ws://h:1", "1e3", "-", "a,b", "A_B", "$HOME", "%s", `a\b`}

func randomValue(r *rand.Rand, s setting, env bool) interface{} {
	switch s.kind {
	case "bool":
		return r.Intn(2) == 0
	case "u16":
		return pick(r, 0, 1, 2, 255, 256, 24577, 32768, 65535, r.Intn(65536))
	case "int":
		return pick(r, 0, 80, 8080, 65535)
	case "list":
		n := pick(r, 1, 1, 2, 3)
		v := ice{}
		for i := 0; i < n; i++ {
			u := []string{pick(r, "stun:a:1", "turn:b", "stun:c")}
			if r.Intn(3) == 0 {
				u = append(u, pick(r, "stun:d", "turns:e:5"))
			}
			v.urls = append(v.urls, u)
			v.user = append(v.user, pick(r, "", "", "u", "me"))
		}
		return v
	}
	if s.path == "log.level" {
		return pick(r, "", "ERROR", "debug", "trace", "nonsense")
	}
	return pick(r, anyStrings...)
}

var noSettings = []string{"bogus", "recorder.bogus", "recorder.directory.x", "recorder.", ".", "recorder..directory", "Recorder", "recorder.Directory", "webrtc.iceServers.99",
	"webrtc.iceServers.-1", "webrtc.iceServers.x", "http.0", "app", "app.name", "livekit.apikey", "pubsub.adapters.nats", "pubsub.adapters.redis.bogus", "0", "-1", "all.recorder", "recorder.directory.0", "http.port.0", "http.enable.true"}

func cfgDomain(w *World) {
	r := w.rng
	file, env := layer{}, layer{}
	set := func(s setting, how string) {
		if how == "file" || how == "both" {
			file[s.path] = randomValue(r, s, false)
		}
		if how == "env" || how == "both" {
			env[s.path] = randomValue(r, s, true)
		}
	}
	focus := []string{}
	if w.sched != nil {
		var g struct {
			A, B   []string
			La, Lb string
		}
		must(json.Unmarshal(w.sched, &g))
		for _, x := range []struct {
			p []string
			h string
		}{{g.A, g.La}, {g.B, g.Lb}} {
			p := strings.Join(x.p, ".")
			set(setting{p, settingKind(p)}, x.h)
			focus = append(focus, p)
		}
	} else if r.Intn(6) == 0 {
		cfgRun(w)
		return
	} else {
		for _, s := range settings {
			set(s, pick(r, "none", "none", "file", "env", "both"))
		}
	}
	w.tr.Cfg["file"], w.tr.Cfg["env"], w.tr.Cfg["tag"] = file.spec(), env.spec(), "dump"
	f := filepath.Join(w.dir, pick(r, "c.yml", "c.yaml"))
	must(os.WriteFile(f, []byte(file.yaml(r)), 0o644))
	args := []string{pick(r, "-c", "--config"), f}
	if len(file) == 0 { // the library refuses files without settings
		must(os.Remove(f))
		if r.Intn(2) == 0 {
			args = nil
		}
	} else if r.Intn(4) == 0 { // found where it is looked for
		args = nil
		must(os.Rename(f, filepath.Join(w.dir, pick(r, "bbb-webrtc-recorder.yml", "bbb-webrtc-recorder.yaml"))))
	}
	dump := func(key string) {
		c := exec.Command(w.job.Rec, append(append([]string{}, args...), "--dump", key)...)
		c.Dir = w.dir
		c.Env = cleanEnv(append(env.env(), "HOME="+w.dir)...)
		b, err := c.Output()
		e := M{"op": "dump", "key": []string{}, "ok": err == nil, "crash": false, "leaves": []leaf{}, "out": short(string(b))}
		if key != "all" {
			e["key"] = strings.Split(key, ".")
		}
		if x, ok := err.(*exec.ExitError); ok {
			e["crash"] = x.ExitCode() != 1 || strings.Contains(string(x.Stderr), "goroutine ")
			e["err"] = short(string(x.Stderr))
		}
		if err == nil {
			var v interface{}
			if yaml.Unmarshal(b, &v) == nil {
				e["leaves"] = leaves(v, nil)
			} else {
				e["leaves"] = []leaf{{[]string{"unreadable"}, ""}}
			}
		}
		w.ev(e)
	}
	dump("all")
	for _, p := range focus {
		dump(p)
	}
	for i := 0; i < 4; i++ {
		p := pick(r, settings...).path
		if r.Intn(3) == 0 {
			p = p[:strings.LastIndex(p, ".")]
		}
		dump(p)
	}
	dump(pick(r, noSettings...))
	if v, ok := file["webrtc.iceServers"].(ice); ok && len(v.urls) > 0 {
		dump(pick(r, "webrtc.iceServers.0", "webrtc.iceServers.0.urls.0", "webrtc.iceServers.0.username", "webrtc.iceServers.1", "webrtc.iceServers.-1"))
	}
}

func short(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}

// world of settings that are seen to have an effect
type effects struct {
	w         *World
	c         *ctlRun
	env, file layer
	dirs      []string
	port      int
	prom      string
}

var dirModes = []string{"0700", "0750", "0711", "0755"}
var recModes = []string{"0600", "0640", "0644", "0700"}

// values that the recorder can be run with, of the settings that may differ from session to session.
func (x *effects) random(s string) interface{} {
	r := x.w.rng
	switch s {
	case "recorder.directory":
		return pick(r, x.dirs...)
	case "recorder.dirFileMode":
		return pick(r, dirModes...)
	case "recorder.fileMode":
		return pick(r, recModes...)
	case "recorder.writeToDevNull":
		return r.Intn(5) == 0
	case "recorder.writeIVFCopy", "recorder.useCustomSampler":
		return r.Intn(2) == 0
	}
	panic(s)
}

var perSession = []string{"recorder.directory", "recorder.dirFileMode", "recorder.fileMode", "recorder.writeToDevNull", "recorder.writeIVFCopy"}

func newEffects(w *World) *effects {
	x := &effects{w: w, env: layer{}, file: layer{}, c: boot(w, 100)}
	for i := 0; i < 3; i++ {
		d := filepath.Join(w.dir, fmt.Sprintf("d%d", i))
		must(os.Mkdir(d, 0o755))
		x.dirs = append(x.dirs, d)
	}
	return x
}

// effective value of a setting, for the driver's own needs.
func (x *effects) eff(s string) string {
	if v, ok := x.env[s]; ok {
		return fmt.Sprint(v)
	}
	if v, ok := x.file[s]; ok {
		return fmt.Sprint(v)
	}
	return map[string]string{"recorder.writeToDevNull": "false", "recorder.writeIVFCopy": "false", "recorder.fileMode": "0600", "recorder.dirFileMode": "0700"}[s]
}

// put a value where it is effective; the layer below may say otherwise.
func (x *effects) put(s string, v, decoy interface{}) {
	switch x.w.rng.Intn(3) {
	case 0:
		x.file[s] = v
	case 1:
		x.env[s] = v
	default:
		x.env[s] = v
		x.file[s] = decoy
	}
}

// basics are the settings without which nothing would work here.
func (x *effects) basics() {
	w, c := x.w, x.c
	c.sub, c.pubch = pick(w.rng, "to-bbb-webrtc-recorder", "in"), pick(w.rng, "from-bbb-webrtc-recorder", "out")
	put := func(s string, v, decoy interface{}) {
		if (s == "pubsub.channels.subscribe" && v == "to-bbb-webrtc-recorder" || s == "pubsub.channels.publish" && v == "from-bbb-webrtc-recorder") && w.rng.Intn(2) == 0 {
			return // the default
		}
		x.put(s, v, decoy)
	}
	put("pubsub.channels.subscribe", c.sub, "wrong-in")
	put("pubsub.channels.publish", c.pubch, "wrong-out")
	x.put("pubsub.adapters.redis.address", fmt.Sprintf("127.0.0.1:%d", w.redis.port), "127.0.0.1:1")
	if w.rng.Intn(2) == 0 {
		w.redis.password = pick(w.rng, "pw", "a b", "0123")
		x.put("pubsub.adapters.redis.password", w.redis.password, "wrong")
	}
	if w.rng.Intn(3) == 0 {
		x.put("pubsub.adapters.redis.network", "tcp", "udp")
	}
	x.put("webrtc.rtcMinPort", c.lo, 1)
	x.put("webrtc.rtcMaxPort", c.hi, 2)
	x.put("webrtc.iceServers", ice{[][]string{{fmt.Sprintf("stun:127.0.0.1:%d", stunPort)}}, []string{""}}, ice{[][]string{{"stun:127.0.0.1:1"}}, []string{""}})
	x.prom = fmt.Sprintf("127.0.0.1:%d", freePort())
	x.put("prometheus.enable", true, false)
	x.put("prometheus.listenAddress", x.prom, "127.0.0.1:2")
	x.file["log.level"] = "info"
}

func (x *effects) launch() bool {
	w := x.w
	w.tr.Cfg["file"], w.tr.Cfg["env"] = x.file.spec(), x.env.spec()
	w.redis.onSub = func(ch string) { w.ev(M{"op": "sub", "name": ch}) }
	w.rec = w.start(x.file.yaml(w.rng), x.env.env()...)
	return w.wait(15*time.Second, func() bool { return x.c.resps > 0 || w.rec.exited() }) && !w.rec.exited()
}

// session asks for one and lets it record.
func (x *effects) session(n int) *start {
	x.w.ev(M{"op": "req", "n": n})
	return x.c.startPeer(fmt.Sprintf("s%d", n), fmt.Sprintf("n%d/f%d.webm", n, n), PeerOpts{ID: n, Video: 1, Audio: x.w.rng.Intn(2), KeyEvery: 10})
}

func (x *effects) size(st *start) int {
	if fi, err := os.Stat(st.path); err == nil && fi.Mode().IsRegular() {
		return int(fi.Size())
	}
	return 0
}

// grows waits until the session's file has grown.
func (x *effects) grows(st *start, devnull bool) bool {
	if devnull {
		return true
	}
	n := x.size(st)
	return x.until(12*time.Second, func() bool { return x.size(st) > n+500 || st.ended })
}

func (x *effects) until(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		x.w.m.Lock()
		ok := f()
		x.w.m.Unlock()
		if ok {
			return true
		}
	}
	return false
}

// look at what a session shows of the settings it was started with.
func (x *effects) look(n int, st *start) {
	obs := []leaf{}
	add := func(s, v string) { obs = append(obs, leaf{strings.Split(s, "."), v}) }
	if st.path == "/dev/null" {
		add("recorder.writeToDevNull", "true")
	} else {
		add("recorder.writeToDevNull", "false")
		rel := fmt.Sprintf("/n%d/f%d.webm", n, n)
		if !strings.HasSuffix(st.path, rel) {
			add("recorder.directory", "odd:"+st.path)
		} else {
			d := strings.TrimSuffix(st.path, rel)
			add("recorder.directory", d)
			if fi, err := os.Stat(st.path); err == nil {
				add("recorder.fileMode", fmt.Sprintf("%04o", fi.Mode().Perm()))
				_, err = os.Stat(strings.TrimSuffix(st.path, ".webm") + ".ivf")
				add("recorder.writeIVFCopy", fmt.Sprint(err == nil))
			} else {
				add("recorder.directory", "missing:"+st.path)
			}
			if fi, err := os.Stat(filepath.Dir(st.path)); err == nil {
				add("recorder.dirFileMode", fmt.Sprintf("%04o", fi.Mode().Perm()))
			}
		}
	}
	x.w.ev(M{"op": "seen", "n": n, "obs": obs})
}

// finish a session: ended is set when the recorder has said so, once, for the reason asked.
func (x *effects) stop(n int, st *start, grew bool) {
	w, c := x.w, x.c
	ok := st.resp && st.ok
	ended := false
	if ok {
		c.stop(st.s)
		k := 0
		count := func() bool {
			k = 0
			for _, e := range w.tr.Ev {
				if e["op"] == "pub" && e["kind"] == "stopped" && e["s"] == st.s {
					k++
					ended = e["reason"] == "stopped"
				}
			}
			return k > 0 || w.rec.exited()
		}
		w.wait(10*time.Second, count)
		w.m.Lock()
		count()
		w.m.Unlock()
		ended = ended && k == 1
	}
	w.ev(M{"op": "sess", "n": n, "ok": ok, "grew": grew, "ended": ended})
	if ok {
		x.look(n, st)
	}
}

// cfgRun runs the recorder with settings from everywhere and looks for their effects.
func cfgRun(w *World) {
	syscall.Umask(0)
	x := newEffects(w)
	c := x.c
	x.basics()
	for _, s := range perSession {
		if v := x.random(s); w.rng.Intn(3) > 0 || s == "recorder.directory" {
			x.put(s, v, x.random(s))
		}
	}
	w.tr.Cfg["tag"] = "run"
	up := x.launch()
	obs := []leaf{}
	add := func(s, v string) { obs = append(obs, leaf{strings.Split(s, "."), v}) }
	if !up {
		add("pubsub.adapters.redis.address", "not reached: "+w.rec.tail())
	} else {
		add("pubsub.adapters.redis.address", fmt.Sprintf("127.0.0.1:%d", w.redis.port))
		w.m.Lock()
		for _, e := range w.tr.Ev {
			if e["op"] == "sub" {
				add("pubsub.channels.subscribe", e["name"].(string))
			}
			if e["op"] == "pub" && e["kind"] == "status" {
				if e["ch"].(bool) {
					add("pubsub.channels.publish", c.pubch)
				} else {
					add("pubsub.channels.publish", "another")
				}
			}
		}
		w.m.Unlock()
		reached := x.until(5*time.Second, func() bool {
			k, err := net.DialTimeout("tcp", x.prom, time.Second)
			if err == nil {
				k.Close()
			}
			return err == nil
		})
		add("prometheus.enable", fmt.Sprint(reached))
	}
	w.ev(M{"op": "seen", "n": 0, "obs": obs})
	if up {
		st := x.session(1)
		w.wait(10*time.Second, func() bool { return st.resp || w.rec.exited() })
		grew := false
		if st.ok {
			select {
			case <-st.peer.connected:
				st.peer.media(true, true)
			case <-time.After(10 * time.Second):
			}
			grew = x.grows(st, x.eff("recorder.writeToDevNull") == "true")
			ps := true
			for _, p := range w.rec.udpPorts() {
				ps = ps && (p >= c.lo && p <= c.hi || p == 5353)
			}
			if !ps {
				w.ev(M{"op": "seen", "n": 0, "obs": []leaf{{[]string{"webrtc", "rtcMinPort"}, "another"}}})
			}
		}
		x.stop(1, st, grew)
	}
	w.keep("seen", "sess", "req:n", "exit", "crash")
}

// keep only the events that the specification looks at.
func (w *World) keep(ops ...string) {
	w.m.Lock()
	defer w.m.Unlock()
	out := []M{}
	for _, e := range w.tr.Ev {
		for _, o := range ops {
			k, f, has := strings.Cut(o, ":")
			if _, ok := e[f]; e["op"] == k && (!has || ok) {
				out = append(out, e)
			}
		}
	}
	w.tr.Ev = out
}

type reloadStep struct {
	A string `json:"a"`
	N int    `json:"n"`
	K string `json:"k"`
}

// reloadDomain: sessions before, across and after reloads.
func reloadDomain(w *World) {
	syscall.Umask(0)
	var steps []reloadStep
	if w.sched != nil {
		must(json.Unmarshal(w.sched, &steps))
	} else {
		n, up := 0, []int{}
		for i := 0; i < 8+w.rng.Intn(5); i++ {
			switch y := w.rng.Intn(8); {
			case y < 3 && n < 6 && len(up) < 4:
				n++
				up = append(up, n)
				steps = append(steps, reloadStep{"ask", n, ""})
			case y < 6:
				steps = append(steps, reloadStep{"reload", 0, pick(w.rng, "other", "other", "fewer", "none", "broken", "twice")})
			case len(up) > 0:
				j := w.rng.Intn(len(up))
				steps = append(steps, reloadStep{"stop", up[j], ""})
				up = append(up[:j:j], up[j+1:]...)
			}
		}
	}
	x := newEffects(w)
	c := x.c
	x.basics()
	w.tr.Cfg["tag"] = "reload"
	// the rest is the same in all files, so that sessions work and are found after each reload
	keepSet := x.file.clone()
	fill := func(k string) {
		switch k {
		case "other", "twice":
			x.file = keepSet.clone()
			for _, s := range perSession {
				if w.rng.Intn(4) > 0 {
					x.file[s] = x.random(s)
				}
			}
		case "fewer":
			for _, s := range perSession {
				if w.rng.Intn(2) == 0 {
					delete(x.file, s)
				}
			}
		case "none":
			x.file = keepSet.clone()
		}
		x.file["recorder.directory"] = pick(w.rng, x.dirs...)
	}
	for _, s := range perSession { // a few come from the environment throughout
		if w.rng.Intn(6) == 0 {
			x.env[s] = x.random(s)
		}
	}
	fill("other")
	if !x.launch() {
		panic("the recorder does not start: " + w.rec.tail())
	}
	var upSess []int
	sts := map[int]*start{}
	null := map[int]bool{}
	grew := map[int]bool{}
	lines := func() int { return strings.Count(w.rec.out.String(), "\n") }
	for _, s := range steps {
		if w.rec.exited() {
			break
		}
		switch s.A {
		case "ask":
			null[s.N] = x.eff("recorder.writeToDevNull") == "true"
			st := x.session(s.N)
			sts[s.N] = st
			upSess = append(upSess, s.N)
			w.wait(10*time.Second, func() bool { return st.resp || w.rec.exited() })
			if st.ok {
				select {
				case <-st.peer.connected:
					st.peer.media(true, true)
				case <-time.After(10 * time.Second):
				}
			}
		case "reload":
			old := x.file.clone()
			fill(s.K)
			y := x.file.yaml(w.rng)
			if s.K == "broken" {
				x.file["recorder.fileMode"] = "0777"
				y = x.file.yaml(w.rng)
				switch w.rng.Intn(3) {
				case 0:
					y = "{" + y
				case 1:
					y += "\n\t- x: ]\n"
				default:
					x.file["webrtc.jitterBuffer"] = "many"
					y = x.file.yaml(w.rng)
					delete(x.file, "webrtc.jitterBuffer")
				}
			}
			f := filepath.Join(w.dir, "config.yml")
			if w.rng.Intn(2) == 0 {
				must(os.WriteFile(f+".new", []byte(y), 0o644))
				must(os.Rename(f+".new", f))
			} else {
				must(os.WriteFile(f, []byte(y), 0o644))
			}
			n := lines()
			for k := 0; k < map[bool]int{true: 3, false: 1}[s.K == "twice"]; k++ {
				w.rec.signal(syscall.SIGHUP)
			}
			x.until(1500*time.Millisecond, func() bool { return lines() > n || w.rec.exited() })
			time.Sleep(150 * time.Millisecond)
			w.ev(M{"op": "reload", "broken": s.K == "broken", "file": x.file.spec()})
			if s.K == "broken" {
				x.file = old
			}
		case "stop":
			if st := sts[s.N]; st != nil {
				grew[s.N] = st.ok && x.grows(st, null[s.N])
				x.stop(s.N, st, grew[s.N])
				delete(sts, s.N)
			}
		}
	}
	// a second session under the id of an active one is refused, whatever was reloaded in between
	claims := true
	for _, n := range upSess {
		st := sts[n]
		if st == nil || !st.ok || w.rec.exited() {
			continue
		}
		d := c.startPeer(st.s, fmt.Sprintf("dup%d.webm", n), PeerOpts{ID: 90 + n, Video: 1})
		w.wait(10*time.Second, func() bool { return d.resp || w.rec.exited() })
		claims = claims && d.resp && !d.ok
		if d.ok {
			break
		}
		d = c.startPeer(fmt.Sprintf("t%d", n), fmt.Sprintf("n%d/f%d.webm", n, n), PeerOpts{ID: 95 + n, Video: 1}) // its file, if it is in the current directory
		w.wait(10*time.Second, func() bool { return d.resp || w.rec.exited() })
		if d.ok {
			claims = claims && (d.path == "/dev/null" || d.path != st.path)
			c.stop(d.s)
			w.wait(10*time.Second, func() bool { return d.ended || w.rec.exited() })
		}
	}
	c.status()
	answered := w.wait(10*time.Second, func() bool { return c.resps > c.reqs || w.rec.exited() })
	for _, n := range upSess {
		if st := sts[n]; st != nil && !w.rec.exited() {
			grew[n] = st.ok && x.grows(st, null[n])
			x.stop(n, st, grew[n])
		}
	}
	same, subs := true, 0
	w.m.Lock()
	for _, e := range w.tr.Ev {
		if e["op"] == "sub" {
			subs++
		}
		if e["op"] == "pub" && e["kind"] == "status" {
			same = same && e["inst"].(bool)
		}
	}
	w.m.Unlock()
	if !w.rec.exited() {
		w.ev(M{"op": "alive", "same": same, "subs": subs, "answered": answered, "claims": claims})
	}
	w.keep("seen", "sess", "req:n", "reload", "alive", "exit", "crash")
}
