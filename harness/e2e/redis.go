package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
)

// Redis is a Redis server that knows enough for publish and subscribe.
type Redis struct {
	ln   net.Listener
	port int
	m    sync.Mutex
	subs map[string][]*rconn
	all  map[net.Conn]bool

	password  string
	onPublish func(ch string, data []byte) // before it is delivered and answered
	onSub     func(ch string)
	onPing    func()
	refuse    bool                              // close new connections at once
	denySub   bool                              // answer SUBSCRIBE with an error
	silent    bool                              // answer nothing any more
	garbled   bool                              // answer with what is no answer
	hold      func(ch string, data []byte) bool // published messages that are taken, but not delivered
}

type rconn struct {
	c  net.Conn
	m  sync.Mutex
	w  *bufio.Writer
	ok bool
}

func (c *rconn) send(s string) {
	c.m.Lock()
	defer c.m.Unlock()
	c.w.WriteString(s)
	c.w.Flush()
}

func newRedis() *Redis {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	r := &Redis{ln: ln, port: ln.Addr().(*net.TCPAddr).Port, subs: map[string][]*rconn{}, all: map[net.Conn]bool{}}
	go r.accept(ln)
	return r
}

func (r *Redis) accept(ln net.Listener) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		r.m.Lock()
		if r.refuse {
			r.m.Unlock()
			c.Close()
			continue
		}
		r.all[c] = true
		r.m.Unlock()
		go r.serve(&rconn{c: c, w: bufio.NewWriter(c)})
	}
}

func (r *Redis) close() {
	r.ln.Close()
	r.cut()
}

// cut all connections.
func (r *Redis) cut() {
	r.m.Lock()
	defer r.m.Unlock()
	for c := range r.all {
		c.Close()
	}
	r.all = map[net.Conn]bool{}
	r.subs = map[string][]*rconn{}
}

func bulk(b []byte) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(b), b) }

// reset all connections, without a proper end.
func (r *Redis) reset() {
	r.m.Lock()
	for c := range r.all {
		c.(*net.TCPConn).SetLinger(0)
	}
	r.m.Unlock()
	r.cut()
}

// push something to the subscribers of a channel.
func (r *Redis) push(ch, raw string) {
	r.m.Lock()
	cs := append([]*rconn{}, r.subs[ch]...)
	r.m.Unlock()
	for _, c := range cs {
		c.send(raw)
	}
}

// deliver a message to the subscribers of a channel.
func (r *Redis) deliver(ch string, data []byte) int {
	r.m.Lock()
	cs := append([]*rconn{}, r.subs[ch]...)
	r.m.Unlock()
	for _, c := range cs {
		c.send("*3\r\n" + bulk([]byte("message")) + bulk([]byte(ch)) + bulk(data))
	}
	return len(cs)
}

// misdeliver sends a message of another channel over the subscription of a channel.
func (r *Redis) misdeliver(sub, ch string, data []byte) {
	r.m.Lock()
	cs := append([]*rconn{}, r.subs[sub]...)
	r.m.Unlock()
	for _, c := range cs {
		c.send("*3\r\n" + bulk([]byte("message")) + bulk([]byte(ch)) + bulk(data))
	}
}

func (r *Redis) serve(c *rconn) {
	defer func() {
		c.c.Close()
		r.m.Lock()
		delete(r.all, c.c)
		for ch, cs := range r.subs {
			for i, x := range cs {
				if x == c {
					r.subs[ch] = append(append([]*rconn{}, cs[:i]...), cs[i+1:]...)
					break
				}
			}
		}
		r.m.Unlock()
	}()
	rd := bufio.NewReader(c.c)
	subbed := 0
	for {
		args, err := command(rd)
		if err != nil || len(args) == 0 {
			return
		}
		cmd := strings.ToUpper(string(args[0]))
		r.m.Lock()
		silent, garbled, deny, hold := r.silent, r.garbled, r.denySub, r.hold
		r.m.Unlock()
		if silent {
			continue
		}
		if garbled {
			c.send("HTTP/1.1 400 Bad Request\r\n\r\n")
			continue
		}
		if r.password != "" && !c.ok && cmd != "AUTH" {
			c.send("-NOAUTH Authentication required.\r\n")
			continue
		}
		switch cmd {
		case "AUTH":
			if len(args) > 1 && string(args[len(args)-1]) == r.password {
				c.ok = true
				c.send("+OK\r\n")
			} else {
				c.send("-ERR invalid password\r\n")
			}
		case "SUBSCRIBE":
			if deny {
				c.send("-NOPERM this user has no permissions to access one of the channels\r\n")
				continue
			}
			for _, ch := range args[1:] {
				r.m.Lock()
				r.subs[string(ch)] = append(r.subs[string(ch)], c)
				f := r.onSub
				r.m.Unlock()
				subbed++
				if f != nil {
					f(string(ch))
				}
				c.send("*3\r\n" + bulk([]byte("subscribe")) + bulk(ch) + fmt.Sprintf(":%d\r\n", subbed))
			}
		case "UNSUBSCRIBE":
			c.send("*3\r\n" + bulk([]byte("unsubscribe")) + "$-1\r\n:0\r\n")
		case "PING":
			r.m.Lock()
			f := r.onPing
			r.m.Unlock()
			if f != nil {
				f()
			}
			if subbed > 0 {
				c.send("*2\r\n" + bulk([]byte("pong")) + bulk(nil))
			} else {
				c.send("+PONG\r\n")
			}
		case "PUBLISH":
			if len(args) != 3 {
				c.send("-ERR wrong number of arguments\r\n")
				continue
			}
			r.m.Lock()
			f := r.onPublish
			r.m.Unlock()
			if f != nil {
				f(string(args[1]), args[2])
			}
			if hold != nil && hold(string(args[1]), args[2]) {
				c.send(":1\r\n")
				continue
			}
			c.send(fmt.Sprintf(":%d\r\n", r.deliver(string(args[1]), args[2])))
		default:
			c.send("-ERR unknown command '" + cmd + "'\r\n")
		}
	}
}

func command(rd *bufio.Reader) ([][]byte, error) {
	line, err := rd.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if !strings.HasPrefix(line, "*") {
		return nil, fmt.Errorf("bad request %q", line)
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil {
		return nil, err
	}
	var out [][]byte
	for i := 0; i < n; i++ {
		l, err := rd.ReadString('\n')
		if err != nil {
			return nil, err
		}
		k, err := strconv.Atoi(strings.TrimRight(l, "\r\n")[1:])
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(rd, b); err != nil {
			return nil, err
		}
		out = append(out, b[:k])
	}
	return out, nil
}
