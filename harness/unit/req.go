package verifunit

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
)

func init() { domains["req"] = reqDomain }

type reqSched struct {
	Adapter string `json:"adapter"`
	Legacy  string `json:"legacy"`
	Opts    string `json:"opts"`
	Ms      string `json:"ms"`
	Lk      string `json:"lk"`
	Room    string `json:"room"`
	Tracks  int    `json:"tracks"`
}

func reqDomain(t *testing.T, job *Job, i int, sched json.RawMessage, rng *rand.Rand, tr *Trace) {
	tr.Cfg = M{"tag": ""}
	if sched != nil {
		var r reqSched
		var raw M
		if json.Unmarshal(sched, &r) != nil || json.Unmarshal(sched, &raw) != nil {
			t.Fatal("bad schedule")
		}
		validate(&r, raw, rng, tr)
		return
	}
	if i == len(job.Schedules) { // nested deeper than any stack
		n := 4000000
		message(tr, []byte(`{"id":"getRecorderStatus","x":`+strings.Repeat("[", n)+strings.Repeat("]", n)+`}`), "any", nil)
	}
	for n := 0; n < 120; n++ {
		b, kind, want := someMessage(rng)
		message(tr, b, kind, want)
	}
}

func validate(r *reqSched, raw M, rng *rand.Rand, tr *Trace) {
	nw, leg := fmt.Sprint("new", rng.Int63()), fmt.Sprint("leg", rng.Int63())
	m := M{"id": "startRecording", "recordingSessionId": fmt.Sprint("s", rng.Intn(100)), "fileName": "f.webm"}
	adapter := r.Adapter
	switch r.Adapter {
	case "none":
		adapter = ""
	case "other":
		adapter = pick(rng, "janus", "Mediasoup", "LiveKit", "livekit ", "x")
		m["adapter"] = adapter
	default:
		m["adapter"] = adapter
	}
	switch r.Legacy {
	case "empty":
		m["sdp"] = ""
	case "sdp":
		m["sdp"] = leg
	}
	switch r.Opts {
	case "null":
		m["adapterOptions"] = nil
	case "object":
		o := M{}
		switch r.Ms {
		case "nosdp":
			o["mediasoup"] = M{}
		case "empty":
			o["mediasoup"] = M{"sdp": ""}
		case "sdp":
			o["mediasoup"] = M{"sdp": nw}
		}
		if r.Lk == "object" {
			l := M{}
			switch r.Room {
			case "empty":
				l["room"] = ""
			case "room":
				l["room"] = "r"
			}
			if r.Tracks >= 0 {
				l["trackIds"] = []string{"a", "b", "c"}[:r.Tracks]
			}
			o["livekit"] = l
		}
		m["adapterOptions"] = o
	}
	b, _ := json.Marshal(m)
	e := M{"op": "val", "r": raw, "read": false, "same": true, "ok": false, "sdp": "none", "msg": string(b)}
	ev := events.Decode(b)
	if s := ev.StartRecording(); ev.IsValid() && s != nil {
		e["read"] = true
		e["same"] = s.SessionId == m["recordingSessionId"] && s.FileName == "f.webm" && string(s.Adapter) == adapter
		e["ok"] = s.Validate() == nil
		switch s.GetSDP() {
		case "":
		case nw:
			e["sdp"] = "new"
		case leg:
			e["sdp"] = "legacy"
		default:
			e["sdp"] = "?"
		}
	}
	tr.add(e)
}

// message gives any message to the decoder.
func message(tr *Trace, b []byte, kind string, want interface{}) {
	short := string(b)
	if len(short) > 300 {
		short = short[:300]
	}
	e := M{"op": "msg", "kind": kind, "got": "none", "same": true, "msg": short}
	ev := events.Decode(b)
	var got interface{}
	if ev.IsValid() {
		if s := ev.StartRecording(); s != nil {
			e["got"], got = "startRecording", s
		} else if s := ev.StopRecording(); s != nil {
			e["got"], got = "stopRecording", s
		} else if s := ev.GetRecorderStatus(); s != nil {
			e["got"], got = "getRecorderStatus", s
		}
	}
	if kind == "any" {
		e["kind"] = e["got"]
	} else if want != nil {
		e["same"] = reflect.DeepEqual(got, want)
	}
	tr.add(e)
}

var oddStrings = []string{"a", "", "sess/1", "é", "日本", `q"uote`, "back\\slash", "tab\t", "0", "null", "{}", "x y", "\u2028", "../x", strings.Repeat("z", 300)}

func someMessage(rng *rand.Rand) ([]byte, string, interface{}) {
	str := func() string { return oddStrings[rng.Intn(len(oddStrings))] }
	kind := pick(rng, "startRecording", "startRecording", "stopRecording", "getRecorderStatus")
	m := M{"id": kind}
	var want interface{}
	switch kind {
	case "startRecording":
		s := &events.StartRecording{Id: kind}
		set := func(k string, p *string) {
			if rng.Intn(3) > 0 {
				*p = str()
				m[k] = *p
			}
		}
		set("recordingSessionId", &s.SessionId)
		set("fileName", &s.FileName)
		set("sdp", &s.SDP)
		if rng.Intn(2) == 0 {
			a := pick(rng, "mediasoup", "livekit", "", "x")
			s.Adapter, m["adapter"] = events.AdapterType(a), a
		}
		if rng.Intn(2) == 0 {
			s.AdapterOptions = &events.AdapterOptions{}
			o := M{}
			if rng.Intn(2) == 0 {
				x := str()
				s.AdapterOptions.Mediasoup, o["mediasoup"] = &events.MediasoupConfig{SDP: x}, M{"sdp": x}
			}
			if rng.Intn(2) == 0 {
				x, ids := str(), []string{}
				for n := rng.Intn(4); n > 0; n-- {
					ids = append(ids, str())
				}
				s.AdapterOptions.LiveKit, o["livekit"] = &events.LiveKitConfig{Room: x, TrackIDs: ids}, M{"room": x, "trackIds": ids}
			}
			m["adapterOptions"] = o
		}
		want = s
	case "stopRecording":
		x := str()
		m["recordingSessionId"] = x
		want = &events.StopRecording{Id: kind, SessionId: x}
	default:
		want = &events.GetRecorderStatus{Id: kind}
	}
	if rng.Intn(4) == 0 { // fields that mean nothing
		m[pick(rng, "x", "timestamp", "ID2", "meta")] = pick[interface{}](rng, 1, -2.5, nil, true, []int{1}, M{"a": []M{{}}}, "s")
	}
	switch rng.Intn(8) {
	case 0: // a field of another type
		wrong := func(ok ...string) interface{} {
			return pick[interface{}](rng, 5, 1.5, true, []string{"x"}, M{"a": 1})
		}
		if kind == "getRecorderStatus" {
			break
		}
		if kind == "startRecording" {
			switch rng.Intn(6) {
			case 0:
				m["fileName"] = wrong()
			case 1:
				m["sdp"] = wrong()
			case 2:
				m["adapter"] = wrong()
			case 3:
				m["adapterOptions"] = pick[interface{}](rng, 5, true, "x", []string{"x"})
			case 4:
				m["adapterOptions"] = M{"livekit": M{"trackIds": pick[interface{}](rng, "t", 5, []int{1}, M{})}}
			case 5:
				m["adapterOptions"] = M{"mediasoup": pick[interface{}](rng, "t", 5, []int{1}, M{"sdp": 5})}
			}
		} else {
			m["recordingSessionId"] = wrong()
		}
		return render(rng, m), "none", nil
	case 1: // not a request
		m["id"] = pick[interface{}](rng, "startrecording", "StopRecording", " getRecorderStatus", "unknown", "", 5, nil, true, []string{"startRecording"}, M{}, "recorderStatus", "startRecordingResponse", "recordingStopped", "recordingRtpStatusChanged")
		for _, k := range []string{"sdp", "status", "timestamp"} {
			delete(m, k)
		}
		return render(rng, m), "none", nil
	case 2: // cut off, or with something behind it
		b := render(rng, m)
		if rng.Intn(3) == 0 {
			return append(b, pick(rng, "}", "]", "x", "{}", ",", "\x00")...), "none", nil
		}
		end := strings.LastIndexByte(string(b), '}')
		return b[:rng.Intn(end+1)], "none", nil
	case 3: // spoilt in any way
		b := render(rng, m)
		toks := []string{"{", "}", "[", "]", `"`, "'", ":", ",", "null", "true", "0x", "1e5", "-", "+", "Infinity", "NaN", "/*", "*/", "//", "\\u12", "\\x", "\\\n", "\u2028", "id", "1.", "08", "\xff", "\x00"}
		for n := 1 + rng.Intn(4); n > 0 && len(b) > 0; n-- {
			j := rng.Intn(len(b))
			l := min(rng.Intn(6)*rng.Intn(2), len(b)-j)
			b = []byte(string(b[:j]) + toks[rng.Intn(len(toks))] + string(b[j+l:]))
		}
		return b, "any", nil
	}
	return render(rng, m), kind, want
}

// render writes a message as JSON, or as JSON5.
func render(rng *rand.Rand, m M) []byte {
	b, _ := json.Marshal(m)
	switch rng.Intn(4) {
	case 0:
		b = append([]byte(pick(rng, "// x\n", "/* { */", "\n\t ")), b...)
	case 1:
		b = append(b[:len(b)-1], []byte(pick(rng, ",}", ", /* */ }", "\n// {\n}", " } \n"))...)
	case 2:
		b = []byte(strings.Replace(string(b), `"id"`, pick(rng, "id", "'id'"), 1))
	}
	return b
}
