// Command verife2e runs the real recorder binary as a black box: a Redis server of its own carries the control
// channel and sees everything that is published, in order; peers connect over loopback.  See vlib/common.py.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"sync"
	"syscall"
	"time"
)

// M is a JSON object.
type M = map[string]interface{}

// Job tells the harness what to run.
type Job struct {
	Domain    string            `json:"domain"`
	Seed      int64             `json:"seed"`
	N         int               `json:"n"`
	Only      int               `json:"only"`
	Repeat    int               `json:"repeat"` // how often each scenario is run
	Out       string            `json:"out"`
	Dir       string            `json:"dir"`
	Rec       string            `json:"rec"`
	Par       int               `json:"par"`
	Schedules []json.RawMessage `json:"schedules"`
	Args      M                 `json:"args"`
}

func (j *Job) arg(k string) string {
	s, _ := j.Args[k].(string)
	return s
}

// Trace is one recorded run.
type Trace struct {
	ID  int    `json:"id"`
	Src string `json:"src"`
	Cfg M      `json:"cfg"`
	Ev  []M    `json:"ev"`
}

// World is one scenario with its own recorder.
type World struct {
	job   *Job
	rng   *rand.Rand
	dir   string
	sched json.RawMessage

	m     sync.Mutex
	t0    time.Time
	tr    *Trace
	redis *Redis
	rec   *Proc
	clean []func()
	shut  bool // events are no longer taken
	wake  *sync.Cond
}

func (w *World) now() int { return int(time.Since(w.t0) / time.Millisecond) }

// ev records an event at this instant.
func (w *World) ev(e M) {
	w.m.Lock()
	defer w.m.Unlock()
	w.evLocked(e)
}

func (w *World) evLocked(e M) {
	if w.shut {
		return
	}
	e["t"] = w.now()
	w.tr.Ev = append(w.tr.Ev, e)
	w.wake.Broadcast()
}

// wait until a condition over the events holds; false after the time limit.
func (w *World) wait(limit time.Duration, cond func() bool) bool {
	end := time.Now().Add(limit)
	stop := time.AfterFunc(limit, func() { w.m.Lock(); w.wake.Broadcast(); w.m.Unlock() })
	defer stop.Stop()
	w.m.Lock()
	defer w.m.Unlock()
	for !cond() {
		if !time.Now().Before(end) {
			return false
		}
		w.wake.Wait()
	}
	return true
}

func (w *World) defers(f func()) { w.m.Lock(); w.clean = append(w.clean, f); w.m.Unlock() }

func (w *World) close() {
	w.m.Lock()
	w.shut = true
	c := w.clean
	w.clean = nil
	w.m.Unlock()
	for i := len(c) - 1; i >= 0; i-- {
		c[i]()
	}
}

type domain func(w *World)

var domains = map[string]domain{}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	job := &Job{}
	if err := json.Unmarshal(b, job); err != nil {
		panic(err)
	}
	if job.Par == 0 {
		job.Par = 8
	}
	d := domains[job.Domain]
	if d == nil {
		panic("no such domain " + job.Domain)
	}
	startStun()
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, os.Interrupt)
	go func() { <-sig; killAll(); os.Exit(3) }()
	total := len(job.Schedules) + job.N
	if job.Repeat == 0 {
		job.Repeat = 1
	}
	traces := make([]*Trace, total*job.Repeat)
	sem := make(chan struct{}, job.Par)
	var wg sync.WaitGroup
	for i := 0; i < total; i++ {
		if job.Only != 0 && job.Only != i+1 {
			continue
		}
		for k := 0; k < job.Repeat; k++ {
			i, k := i, k
			sem <- struct{}{}
			wg.Add(1)
			go func() {
				defer func() { <-sem; wg.Done() }()
				traces[i*job.Repeat+k] = one(job, d, i, k)
			}()
		}
	}
	wg.Wait()
	killAll()
	f, err := os.Create(job.Out)
	if err != nil {
		panic(err)
	}
	out := bufio.NewWriterSize(f, 1<<20)
	for _, t := range traces {
		if t != nil {
			l, err := json.Marshal(t)
			if err != nil {
				panic(err)
			}
			out.Write(l)
			out.WriteByte('\n')
		}
	}
	out.Flush()
	f.Close()
	fmt.Println("done")
}

func one(job *Job, d domain, i, k int) *Trace {
	w := &World{job: job, rng: rand.New(rand.NewSource(job.Seed*1000003 + int64(i))), t0: time.Now(),
		dir: filepath.Join(job.Dir, fmt.Sprintf("%d-%d", i+1, k)), tr: &Trace{ID: i + 1, Src: "random", Cfg: M{}, Ev: []M{}}}
	w.wake = sync.NewCond(&w.m)
	if i < len(job.Schedules) {
		w.sched = job.Schedules[i]
		w.tr.Src = "spec"
	}
	if err := os.MkdirAll(w.dir, 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(w.dir)
	defer w.close()
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "HARNESS scenario %d: %v\n%s\n", i+1, r, debug.Stack())
			w.ev(M{"op": "harness", "msg": fmt.Sprint(r)})
		}
	}()
	d(w)
	return w.tr
}

func pick[T any](rng *rand.Rand, xs ...T) T { return xs[rng.Intn(len(xs))] }
