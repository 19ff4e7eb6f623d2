package verifunit

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	vm "github.com/bigbluebutton/bbb-webrtc-recorder/internal/verifmedia"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/pion/rtp"
)

func init() { domains["files"] = filesDomain }

// The names of the specification's schedules (MC_Files, AllNames).
var specNames = []string{"a.webm", "n/a.webm", "./n/../a.webm", "a.webm/b.webm", "../o.webm", "a.mkv", "n/../../d/a.webm", "/n/a.webm"}

type fileOp struct {
	Op   string   `json:"op"` // new, race, write, close, place, rm
	K    int      `json:"k"`
	Name int      `json:"name"`
	P    []string `json:"p"`
}

type fileSched struct {
	IVF bool     `json:"ivf"`
	Ops []fileOp `json:"ops"`
}

type fileRec struct {
	rec recorder.Recorder
	n   int
	seq uint16
}

// Everything stays below base: names climb less far than the recording directory and the working directory are deep.
func filesDomain(t *testing.T, job *Job, i int, sched json.RawMessage, rng *rand.Rand, tr *Trace) {
	base, err := os.MkdirTemp(job.Dir, "f")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(base)
	defer os.Chdir("/")
	deep := []string{"x", "y", "z", "s"}
	top := append(append([]string{}, deep...), "d")
	root := filepath.Join(append([]string{base}, top...)...)
	cwd := filepath.Join(base, "cwd", "1", "2", "3")
	for _, d := range []string{root, cwd} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			t.Fatal(err)
		}
	}
	if err := os.Chdir(cwd); err != nil {
		t.Fatal(err)
	}
	type mode struct {
		s string
		n int
	}
	fmode := pick(rng, mode{"0600", 0o600}, mode{"0640", 0o640}, mode{"0644", 0o644}, mode{"0666", 0o666}, mode{"0o660", 0o660}, mode{"420", 0o644}, mode{"0x1b4", 0o664}, mode{"0400", 0o400})
	dmode := pick(rng, mode{"0700", 0o700}, mode{"0750", 0o750}, mode{"0755", 0o755}, mode{"0777", 0o777}, mode{"0o770", 0o770}, mode{"0570", 0o570}, mode{"0070", 0o070}, mode{"511", 0o777})
	umask := pick(rng, 0, 0o022, 0o022, 0o027, 0o077, 0o007)
	cfg := config.Recorder{FileMode: fmode.s, DirFileMode: dmode.s, WriteIVFCopy: rng.Intn(3) == 0, WriteToDevNull: rng.Intn(12) == 0,
		UseCustomSampler: rng.Intn(2) == 0, VideoPacketQueueSize: 256, AudioPacketQueueSize: 32}
	cfg.Directory = pick(rng, root, root, root+"/", filepath.Dir(root)+"/./d", root+"/../d", filepath.Dir(root)+"//d", "../../../../x/y/z/s/d")
	var ops []fileOp
	if sched != nil {
		var s fileSched
		if err := json.Unmarshal(sched, &s); err != nil {
			t.Fatal(err)
		}
		ops, cfg.WriteIVFCopy, cfg.WriteToDevNull = s.Ops, rng.Intn(2) == 0, false
		for j := range ops {
			ops[j].P = append(append([]string{}, deep...), ops[j].P...)
		}
	}
	defer syscall.Umask(syscall.Umask(umask))

	// what is there from the start
	put := func(p []string, kind int) {
		f := filepath.Join(append([]string{base}, p...)...)
		os.MkdirAll(filepath.Dir(f), 0o755)
		switch kind {
		case 0:
			os.WriteFile(f, nil, 0o644)
		case 1:
			os.WriteFile(f, []byte("something "+strings.Join(p, "/")), 0o640)
		default:
			os.Mkdir(f, 0o755)
		}
	}
	join := func(a []string, b ...string) []string { return append(append([]string{}, a...), b...) }
	leaves := []string{"a.webm", "a.webm", "b.webm", ".webm", "a.b.webm", "..webm", "é ü.webm"}
	dirs := [][]string{{}, {}, {"m"}, {"m", "n"}, {"a.webm"}, {"m", "a.webm"}}
	spot := func() []string {
		l := pick(rng, leaves...)
		if rng.Intn(5) == 0 {
			l = strings.TrimSuffix(l, ".webm") + ".ivf"
		}
		if rng.Intn(8) == 0 {
			return join(top, pick(rng, "m", "q"))
		}
		return join(join(top, pick(rng, dirs...)...), l)
	}
	if sched == nil {
		for n := rng.Intn(4); n > 0; n-- {
			put(spot(), rng.Intn(3))
		}
	}
	snap := func() []M {
		out := []M{}
		filepath.WalkDir(base, func(p string, d fs.DirEntry, err error) error {
			if err != nil || p == base {
				return nil
			}
			rel, _ := filepath.Rel(base, p)
			info, err := os.Lstat(p)
			if err != nil {
				return nil
			}
			c := ""
			if !info.IsDir() {
				b, _ := os.ReadFile(p)
				h := sha256.Sum256(b)
				c = hex.EncodeToString(h[:6])
			}
			out = append(out, M{"p": strings.Split(rel, "/"), "d": info.IsDir(), "m": int(info.Mode().Perm()), "c": c})
			return nil
		})
		return out
	}
	tr.Cfg = M{"dir": top, "fmode": fmode.n, "dmode": dmode.n, "umask": umask, "devnull": cfg.WriteToDevNull, "ivf": cfg.WriteIVFCopy, "tree": snap(),
		"conf": cfg.Directory, "tag": ""}

	// a name for a file, not always the plainest
	variant := func(c []string) string {
		var o []string
		for _, x := range c {
			switch rng.Intn(12) {
			case 0:
				o = append(o, ".")
			case 1:
				o = append(o, "")
			case 2:
				o = append(o, pick(rng, "k", "m"), "..")
			}
			o = append(o, x)
		}
		s := strings.Join(o, "/")
		if rng.Intn(15) == 0 {
			s = "../d/" + s
		}
		return s
	}
	name := func() string {
		switch rng.Intn(10) {
		case 0: // not a recording's name
			return pick(rng, "a.mkv", "a", "a.WEBM", "a.webm.part", "a.webm/", "", ".", "..", "a.webm/..", "m/.", "webm", "a.ivf")
		case 1: // outside
			return pick(rng, "../o.webm", "../../o.webm", "../../../o.webm", "m/../../o.webm", "../d2/o.webm", "../dd.webm", "../e/d/a.webm", "../d/../o.webm", "../../s/o.webm", "./../o.webm", "m/n/../../../o.webm", "../d.webm")
		case 2:
			return pick(rng, base+"/x/abs.webm", "/"+pick(rng, leaves...), "//"+pick(rng, leaves...), "..m/a.webm", "m../a.webm", "..."+"/a.webm")
		}
		return variant(join(pick(rng, dirs...), pick(rng, leaves...)))
	}
	target := func(name string) []string {
		p := filepath.Clean(root + "/" + name)
		rel, _ := filepath.Rel(base, p)
		return strings.Split(rel, "/")
	}
	comps := func(p string) []string {
		if p == os.DevNull {
			return []string{"/", "dev", "null"}
		}
		if !filepath.IsAbs(p) {
			p = filepath.Join(cwd, p)
		}
		if rel, err := filepath.Rel(base, p); err == nil && !strings.HasPrefix(rel, "..") {
			return strings.Split(rel, "/")
		}
		return []string{"!", p}
	}
	recs := map[int]*fileRec{}
	var all []recorder.Recorder
	defer func() {
		for _, r := range all {
			func() {
				defer func() { recover() }()
				r.Close()
			}()
		}
	}()
	copyOf := func(name string) []string {
		c := target(name)
		c[len(c)-1] = strings.TrimSuffix(c[len(c)-1], ".webm") + ".ivf"
		return c
	}
	open := func(name string) (recorder.Recorder, error) {
		return recorder.NewRecorder(context.WithValue(context.Background(), "session", "x"), cfg, name)
	}
	ask := func(k int, name string) {
		r, err := open(name)
		e := M{"op": "new", "k": k, "name": name, "file": strings.Split(name, "/"), "ext": strings.HasSuffix(name, ".webm"), "ok": err == nil, "path": []string{}, "ivf": copyOf(name)}
		if err == nil {
			e["path"] = comps(r.GetFilePath())
			recs[k], all = &fileRec{rec: r}, append(all, r)
		}
		e["tree"] = snap()
		tr.add(e)
	}
	race := func(k int) {
		c := join(pick(rng, dirs...), pick(rng, leaves...))
		n := 2 + rng.Intn(7)
		names := make([]string, n)
		rs := make([]recorder.Recorder, n)
		for j := range names {
			names[j] = variant(c)
		}
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for j := range names {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				<-gate
				if r, err := open(names[j]); err == nil {
					rs[j] = r
				}
			}(j)
		}
		close(gate)
		wg.Wait()
		e := M{"op": "race", "k": k, "file": c, "names": names, "ext": true, "oks": 0, "path": []string{}, "ivf": copyOf(strings.Join(c, "/"))}
		oks := 0
		for _, r := range rs {
			if r == nil {
				continue
			}
			if oks++; oks == 1 {
				e["path"] = comps(r.GetFilePath())
				recs[k], all = &fileRec{rec: r}, append(all, r)
			} else {
				r.Close()
			}
		}
		e["oks"], e["tree"] = oks, snap()
		tr.add(e)
	}
	write := func(k int) {
		r := recs[k]
		if r == nil {
			return
		}
		if r.n == 0 {
			r.rec.SetHasVideo(true)
		}
		num := vm.Numbering{PidBits: 15}
		for j := 0; j < 3; j++ {
			r.n++
			f := &vm.Frame{Idx: r.n, Key: j == 0, Parts: []int{40}, TS: uint32(r.n * 3000), W: 64, H: 48}
			for _, p := range num.Packets(f, k) {
				r.seq++
				r.rec.PushVideo(&rtp.Packet{Header: rtp.Header{Version: 2, SequenceNumber: r.seq, Timestamp: p.TS, Marker: p.Marker, PayloadType: 96}, Payload: p.Payload})
			}
		}
		tr.add(M{"op": "write", "k": k, "tree": snap()})
	}
	closeRec := func(k int) {
		if r := recs[k]; r != nil {
			r.rec.Close()
			delete(recs, k)
			tr.add(M{"op": "close", "k": k, "tree": snap()})
		}
	}
	place := func(p []string) {
		f := filepath.Join(append([]string{base}, p...)...)
		if _, err := os.Lstat(f); err != nil {
			if _, err := os.Stat(filepath.Dir(f)); err == nil {
				put(p, rng.Intn(3))
			}
		}
		tr.add(M{"op": "place", "tree": snap()})
	}
	rm := func(p []string) {
		f := filepath.Join(append([]string{base}, p...)...)
		if len(p) > len(top) {
			os.RemoveAll(f)
		}
		tr.add(M{"op": "rm", "tree": snap()})
	}
	if sched != nil {
		for _, o := range ops {
			switch o.Op {
			case "new":
				ask(o.K, specNames[o.Name-1])
			case "write":
				write(o.K)
			case "close":
				closeRec(o.K)
			case "place":
				place(o.P)
			case "rm":
				rm(o.P)
			}
		}
		return
	}
	used := 0
	some := func() int {
		for k := 0; k < used; k++ {
			if _, ok := recs[used-k]; ok && rng.Intn(2) == 0 {
				return used - k
			}
		}
		for k := 0; k < used; k++ {
			if _, ok := recs[k+1]; ok {
				return k + 1
			}
		}
		return 0
	}
	for n := 20 + rng.Intn(25); n > 0; n-- {
		switch x := rng.Intn(20); {
		case x < 9:
			used++
			ask(used, name())
		case x < 10:
			used++
			race(used)
		case x < 14:
			write(some())
		case x < 17:
			closeRec(some())
		case x < 18:
			place(spot())
		case x < 20:
			if rng.Intn(2) == 0 {
				rm(spot())
			}
		}
	}
	for k := 1; k <= used; k++ {
		if rng.Intn(2) == 0 {
			write(k)
		}
		closeRec(k)
	}
}
