// Package verifunit is compiled into the recorder's module through a build overlay
// (see vlib/gobuild.py).  It runs the real code on generated schedules and records what it does.
package verifunit

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"testing"

	log "github.com/sirupsen/logrus"
)

// M is a JSON object.
type M = map[string]interface{}

// Job tells the driver what to run.
type Job struct {
	Domain    string            `json:"domain"`
	Seed      int64             `json:"seed"`
	N         int               `json:"n"`
	Only      int               `json:"only"` // run only this scenario (1-based), 0 = all
	Out       string            `json:"out"`
	Progress  string            `json:"progress"`
	Dir       string            `json:"dir"`
	Tier      string            `json:"tier"`
	Schedules []json.RawMessage `json:"schedules"`
	Args      M                 `json:"args"`
}

// Trace is one recorded run.
type Trace struct {
	ID  int    `json:"id"`
	Src string `json:"src"`
	Cfg M      `json:"cfg"`
	Ev  []M    `json:"ev"`
}

func (t *Trace) add(m M) { t.Ev = append(t.Ev, m) }

type domain func(t *testing.T, job *Job, i int, sched json.RawMessage, rng *rand.Rand, tr *Trace)

var domains = map[string]domain{}

func TestVerif(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_JOB"))
	if err != nil {
		t.Fatal(err)
	}
	job := &Job{}
	if err := json.Unmarshal(b, job); err != nil {
		t.Fatal(err)
	}
	log.SetLevel(log.PanicLevel)
	f, err := os.Create(job.Out)
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	prog, err := os.Create(job.Progress)
	if err != nil {
		t.Fatal(err)
	}
	d := domains[job.Domain]
	if d == nil {
		t.Fatal("no such domain ", job.Domain)
	}
	total := len(job.Schedules) + job.N
	for i := 0; i < total; i++ {
		if job.Only != 0 && job.Only != i+1 {
			continue
		}
		fmt.Fprintf(prog, "begin %d\n", i+1)
		var sched json.RawMessage
		tr := &Trace{ID: i + 1, Src: "random", Cfg: M{}, Ev: []M{}}
		if i < len(job.Schedules) {
			sched = job.Schedules[i]
			tr.Src = "spec"
		}
		rng := rand.New(rand.NewSource(job.Seed*1000003 + int64(i)))
		run := func() {
			defer caught(tr)
			d(t, job, i, sched, rng, tr)
		}
		run()
		line, err := json.Marshal(tr)
		if err != nil {
			t.Fatal(err)
		}
		w.Write(line)
		w.WriteByte('\n')
	}
	w.Flush()
	f.Close()
	fmt.Fprintf(prog, "done\n")
}

// caught makes a panic of the real code an event (to be deferred in the bubble of a scenario, too).
func caught(tr *Trace) {
	if r := recover(); r != nil {
		tr.add(M{"op": "crash", "msg": crashMsg(r)})
	}
}

func crashMsg(r interface{}) string {
	s := fmt.Sprint(r)
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/internal/") && !strings.Contains(l, "verifunit") {
			s += " at " + strings.TrimSpace(l)
			break
		}
	}
	return s
}

func ints[T ~int | ~uint16 | ~int64](xs []T) []int64 {
	out := make([]int64, 0, len(xs))
	for _, x := range xs {
		out = append(out, int64(x))
	}
	return out
}

func pick[T any](rng *rand.Rand, xs ...T) T { return xs[rng.Intn(len(xs))] }
