package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/pion/stun"
)

// ---- STUN: tells the recorder its address on loopback, which it would not offer otherwise ----

var stunPort int

func startStun() {
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	stunPort = c.LocalAddr().(*net.UDPAddr).Port
	go func() {
		b := make([]byte, 1500)
		for {
			n, from, err := c.ReadFromUDP(b)
			if err != nil {
				return
			}
			m := &stun.Message{Raw: append([]byte{}, b[:n]...)}
			if m.Decode() != nil || m.Type != stun.BindingRequest {
				continue
			}
			r, err := stun.Build(m, stun.BindingSuccess, &stun.XORMappedAddress{IP: from.IP, Port: from.Port}, stun.Fingerprint)
			if err == nil {
				c.WriteToUDP(r.Raw, from)
			}
		}
	}()
}

// ---- the recorder process ----

type buffer struct {
	m sync.Mutex
	b bytes.Buffer
}

func (b *buffer) Write(p []byte) (int, error) {
	b.m.Lock()
	defer b.m.Unlock()
	if b.b.Len() < 4<<20 {
		b.b.Write(p)
	}
	return len(p), nil
}

func (b *buffer) String() string {
	b.m.Lock()
	defer b.m.Unlock()
	return b.b.String()
}

// Proc is a recorder.
type Proc struct {
	cmd  *exec.Cmd
	out  buffer
	done chan struct{}
	code int // exit status, -1 if killed by a signal
	prom int
	w    *World
	stop bool // being ended by the harness
}

var procs sync.Map

func killAll() {
	procs.Range(func(k, _ interface{}) bool { syscall.Kill(-k.(int), syscall.SIGKILL); return true })
}

var nextPort struct {
	m sync.Mutex
	p int
}

// freePort finds a free TCP port below the ephemeral range.
func freePort() int {
	nextPort.m.Lock()
	defer nextPort.m.Unlock()
	for {
		if nextPort.p == 0 {
			nextPort.p = 20000 + os.Getpid()%2000
		}
		nextPort.p++
		if nextPort.p > 24000 {
			nextPort.p = 20000
		}
		ln, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", nextPort.p))
		if err == nil {
			ln.Close()
			return nextPort.p
		}
	}
}

// udpRange finds n consecutive free UDP ports; they are disjoint for concurrent scenarios.
var nextUDP struct {
	m sync.Mutex
	p int
}

func udpRange(n int) int {
	nextUDP.m.Lock()
	defer nextUDP.m.Unlock()
	for try := 0; ; try++ {
		if nextUDP.p == 0 || nextUDP.p+n > 31900 {
			nextUDP.p = 24100 + (os.Getpid()*37)%3000
			if nextUDP.p+n > 31900 {
				nextUDP.p = 24100
			}
		}
		p := nextUDP.p
		nextUDP.p += n
		ok := true
		for i := p; i < p+n; i++ {
			c, err := net.ListenUDP("udp4", &net.UDPAddr{Port: i})
			if err != nil {
				ok = false
				break
			}
			c.Close()
		}
		if ok {
			return p
		}
		if try > 1000 {
			panic("no free UDP ports")
		}
	}
}

func cleanEnv(extra ...string) []string {
	var env []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "BBBRECORDER_") {
			env = append(env, e)
		}
	}
	return append(env, extra...)
}

// start runs the recorder with a configuration file (written to the scenario's directory).
func (w *World) start(yaml string, env ...string) *Proc {
	f := filepath.Join(w.dir, "config.yml")
	if err := os.WriteFile(f, []byte(yaml), 0o644); err != nil {
		panic(err)
	}
	return w.startArgs([]string{"-c", f}, env...)
}

func (w *World) startArgs(args []string, env ...string) *Proc {
	p := &Proc{cmd: exec.Command(w.job.Rec, args...), done: make(chan struct{}), w: w}
	p.cmd.Dir = w.dir
	p.cmd.Env = cleanEnv(env...)
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: 0}
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	pid := p.cmd.Process.Pid
	procs.Store(pid, true)
	go func() {
		p.cmd.Wait()
		procs.Delete(pid)
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
		w.m.Lock()
		if !p.stop {
			w.evLocked(M{"op": "exit", "code": p.code, "panic": p.panicked() != "", "msg": p.panicked() + " " + p.tail()})
		}
		w.wake.Broadcast()
		w.m.Unlock()
	}()
	w.defers(p.kill)
	return p
}

func (p *Proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// kill ends the process without an event.
func (p *Proc) kill() {
	p.w.m.Lock()
	p.stop = true
	p.w.m.Unlock()
	if !p.exited() {
		syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
	}
	<-p.done
}

var panicRe = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*)$`)
var whereRe = regexp.MustCompile(`/repo/internal/[^\s]*:\d+`)

func (p *Proc) panicked() string {
	s := p.out.String()
	m := panicRe.FindString(s)
	if m != "" {
		m += " at " + whereRe.FindString(s[strings.Index(s, m):])
	}
	if len(m) > 300 {
		m = m[:300]
	}
	return m
}

func (p *Proc) tail() string {
	s := strings.TrimSpace(p.out.String())
	s = s[strings.LastIndex(s, "\n")+1:]
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

var noKeep = &http.Client{Timeout: 5 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}

// metric reads values from the exporter; ok is false if it cannot be read.
func (p *Proc) metrics(names ...string) (map[string]int, bool) {
	r, err := noKeep.Get(fmt.Sprintf("http://127.0.0.1:%d/metrics", p.prom))
	if err != nil {
		return nil, false
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return nil, false
	}
	out := map[string]int{}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		for _, n := range names {
			if len(f) == 2 && f[0] == n {
				v, err := strconv.ParseFloat(f[1], 64)
				if err != nil {
					return nil, false
				}
				out[n] = int(v)
			}
		}
	}
	return out, true
}

// udpPorts are the local ports of the process's UDP sockets, from its own /proc entries.
func (p *Proc) udpPorts() []int {
	pid := p.cmd.Process.Pid
	ino := map[string]int{}
	for _, n := range []string{"udp", "udp6"} {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/net/%s", pid, n))
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) < 10 || !strings.Contains(f[1], ":") {
				continue
			}
			port, err := strconv.ParseInt(f[1][strings.LastIndex(f[1], ":")+1:], 16, 32)
			if err == nil {
				ino[f[9]] = int(port)
			}
		}
	}
	ports := []int{}
	for _, t := range p.fds() {
		if strings.HasPrefix(t, "socket:[") {
			if port, ok := ino[strings.TrimSuffix(strings.TrimPrefix(t, "socket:["), "]")]; ok {
				ports = append(ports, port)
			}
		}
	}
	return ports
}

// fds are the targets of the process's open files.
func (p *Proc) fds() []string {
	d := fmt.Sprintf("/proc/%d/fd", p.cmd.Process.Pid)
	es, _ := os.ReadDir(d)
	var out []string
	for _, e := range es {
		if t, err := os.Readlink(filepath.Join(d, e.Name())); err == nil {
			out = append(out, t)
		}
	}
	return out
}

func (p *Proc) signal(s syscall.Signal) { syscall.Kill(p.cmd.Process.Pid, s) }
