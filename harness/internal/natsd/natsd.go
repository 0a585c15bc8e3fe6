// Package natsd is a small NATS server used as the mediator between
// controllers under test: it speaks the client protocol (with headers, queue
// groups, wildcards and "no responders"), a part of JetStream, and records all
// that it saw.
package natsd

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
)

// Msg is a message as seen by the server.
type Msg struct {
	Conn    int
	Subject string
	Reply   string
	Header  []byte // raw header block, nil without headers
	Payload []byte
}

// Fields gives the header fields by name, in order of arrival.
func (m Msg) Fields() map[string][]string {
	out := map[string][]string{}
	lines := strings.Split(string(m.Header), "\r\n")
	for i, l := range lines {
		if i == 0 || l == "" {
			continue
		}
		k, v, _ := strings.Cut(l, ":")
		out[k] = append(out[k], strings.TrimSpace(v))
	}
	return out
}

// Sub is a subscription of a client, active or not.
type Sub struct {
	Conn           int
	SID            string
	Subject, Queue string

	srv       *Server
	c         *conn
	active    bool
	max       int
	delivered []Msg
}

// Delivered gives what the server has sent to the subscription so far.
func (s *Sub) Delivered() []Msg {
	s.srv.mu.Lock()
	defer s.srv.mu.Unlock()
	return append([]Msg(nil), s.delivered...)
}

// Active says if the server would still send messages to it.
func (s *Sub) Active() bool {
	s.srv.mu.Lock()
	defer s.srv.mu.Unlock()
	return s.active
}

// Server is the fake server.
type Server struct {
	ln  net.Listener
	mu  sync.Mutex
	con map[int]*conn
	// accepted counts the connections since the start
	accepted int
	subs     []*Sub
	pubs     []Msg
	turn     uint64
	wg       sync.WaitGroup
	js       *js
	muted    bool
}

type conn struct {
	id     int
	nc     net.Conn
	srv    *Server
	noResp bool

	wmu    sync.Mutex
	wcond  *sync.Cond
	out    [][]byte
	closed bool
}

// Start listens on a free port of the loopback. Seed varies the choice of the
// members of queue groups.
func Start(seed uint64) (*Server, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &Server{ln: ln, con: map[int]*conn{}, turn: seed | 1}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			nc, err := ln.Accept()
			if err != nil {
				return
			}
			s.accept(nc)
		}
	}()
	return s, nil
}

// URL gives the address for clients.
func (s *Server) URL() string { return "nats://" + s.ln.Addr().String() }

// Stop ends the server and the connections.
func (s *Server) Stop() {
	s.ln.Close()
	s.mu.Lock()
	cs := make([]*conn, 0, len(s.con))
	for _, c := range s.con {
		cs = append(cs, c)
	}
	s.mu.Unlock()
	for _, c := range cs {
		c.shut()
	}
	s.wg.Wait()
}

// Drop cuts the connections of a client (it may come back).
func (s *Server) Drop(id int) {
	s.mu.Lock()
	c := s.con[id]
	s.mu.Unlock()
	if c != nil {
		c.nc.Close()
	}
}

// Accepted is the number of connections since the start; the newest has this
// number.
func (s *Server) Accepted() int { s.mu.Lock(); defer s.mu.Unlock(); return s.accepted }

// Open says if a connection is still there.
func (s *Server) Open(id int) bool { s.mu.Lock(); defer s.mu.Unlock(); return s.con[id] != nil }

// Pubs gives the publications of clients so far (without the ones of the
// JetStream protocol).
func (s *Server) Pubs() []Msg {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Msg(nil), s.pubs...)
}

// NPubs is the number of them.
func (s *Server) NPubs() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.pubs) }

// Subs gives the subscriptions of a connection, in order.
func (s *Server) Subs(conn int) []*Sub {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []*Sub
	for _, x := range s.subs {
		if x.Conn == conn {
			out = append(out, x)
		}
	}
	return out
}

// Inject routes a message that does not come from a client.
func (s *Server) Inject(m Msg) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.route(m)
}

func (s *Server) accept(nc net.Conn) {
	s.mu.Lock()
	s.accepted++
	c := &conn{id: s.accepted, nc: nc, srv: s}
	c.wcond = sync.NewCond(&c.wmu)
	s.con[c.id] = c
	s.mu.Unlock()
	_, port, _ := net.SplitHostPort(s.ln.Addr().String())
	c.send([]byte(fmt.Sprintf(`INFO {"server_id":"NFAKE","server_name":"fake","version":"2.10.0","proto":1,"go":"go","host":"127.0.0.1","port":%s,"headers":true,"max_payload":1048576,"client_id":%d}`+"\r\n", port, c.id)))
	s.wg.Add(2)
	go func() { defer s.wg.Done(); c.writer() }()
	go func() {
		defer s.wg.Done()
		c.reader()
		c.shut()
		s.mu.Lock()
		delete(s.con, c.id)
		for _, x := range s.subs {
			if x.Conn == c.id {
				x.active = false
			}
		}
		s.mu.Unlock()
	}()
}

func (c *conn) send(b []byte) {
	c.wmu.Lock()
	if !c.closed {
		c.out = append(c.out, b)
		c.wcond.Signal()
	}
	c.wmu.Unlock()
}

func (c *conn) shut() {
	c.wmu.Lock()
	c.closed = true
	c.wcond.Broadcast()
	c.wmu.Unlock()
	c.nc.Close()
}

func (c *conn) writer() {
	for {
		c.wmu.Lock()
		for len(c.out) == 0 && !c.closed {
			c.wcond.Wait()
		}
		if c.closed {
			c.wmu.Unlock()
			return
		}
		b := bytes.Join(c.out, nil)
		c.out = nil
		c.wmu.Unlock()
		if _, err := c.nc.Write(b); err != nil {
			return
		}
	}
}

func (c *conn) reader() {
	br := bufio.NewReaderSize(c.nc, 1<<16)
	for {
		line, err := br.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		switch op := strings.ToUpper(f[0]); op {
		case "PING":
			c.send([]byte("PONG\r\n"))
		case "PONG":
		case "CONNECT":
			var o struct {
				Headers bool `json:"headers"`
				NoResp  bool `json:"no_responders"`
			}
			_ = json.Unmarshal([]byte(strings.TrimSpace(line)[len("CONNECT"):]), &o)
			c.noResp = o.Headers && o.NoResp
		case "SUB":
			x := &Sub{Conn: c.id, srv: c.srv, c: c, active: true, Subject: f[1], SID: f[len(f)-1]}
			if len(f) == 4 {
				x.Queue = f[2]
			}
			c.srv.mu.Lock()
			c.srv.subs = append(c.srv.subs, x)
			c.srv.mu.Unlock()
		case "UNSUB":
			c.srv.mu.Lock()
			for _, x := range c.srv.subs {
				if x.Conn == c.id && x.SID == f[1] && x.active {
					if len(f) > 2 {
						x.max, _ = strconv.Atoi(f[2])
						x.active = len(x.delivered) < x.max
					} else {
						x.active = false
					}
				}
			}
			c.srv.mu.Unlock()
		case "PUB", "HPUB":
			m := Msg{Conn: c.id, Subject: f[1]}
			hdr, total := 0, 0
			nums := 1
			if op == "HPUB" {
				nums = 2
				hdr, _ = strconv.Atoi(f[len(f)-2])
			}
			total, _ = strconv.Atoi(f[len(f)-1])
			if len(f) == 3+nums {
				m.Reply = f[2]
			}
			b := make([]byte, total+2)
			if _, err := io.ReadFull(br, b); err != nil {
				return
			}
			if string(b[total:]) != "\r\n" {
				c.send([]byte("-ERR 'Parser Error'\r\n"))
				return
			}
			if hdr > 0 {
				m.Header = b[:hdr:hdr]
			}
			m.Payload = b[hdr:total:total]
			c.srv.publish(c, m)
		default:
			c.send([]byte("-ERR 'Unknown Protocol Operation'\r\n"))
			return
		}
	}
}

func (s *Server) publish(c *conn, m Msg) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.js != nil && s.js.api(m) {
		return
	}
	s.pubs = append(s.pubs, m)
	n := s.route(m)
	if s.js != nil && s.js.store(m) {
		n++
	}
	if n == 0 && m.Reply != "" && c.noResp {
		s.route(Msg{Subject: m.Reply, Header: []byte("NATS/1.0 503\r\n\r\n")})
	}
}

// route sends the message to every matching subscription, and to one member
// of every queue group; it returns how many got it.
func (s *Server) route(m Msg) int { return s.deliver(m.Subject, m) }

func (s *Server) deliver(to string, m Msg) int {
	n := 0
	groups := map[string][]*Sub{}
	var order []string
	for _, x := range s.subs {
		if !x.active || !Match(x.Subject, to) {
			continue
		}
		if x.Queue == "" {
			s.push(x, m)
			n++
			continue
		}
		if groups[x.Queue] == nil {
			order = append(order, x.Queue)
		}
		groups[x.Queue] = append(groups[x.Queue], x)
	}
	for _, q := range order {
		s.turn ^= s.turn << 13
		s.turn ^= s.turn >> 7
		s.turn ^= s.turn << 17
		s.push(groups[q][s.turn%uint64(len(groups[q]))], m)
		n++
	}
	return n
}

func (s *Server) push(x *Sub, m Msg) {
	x.delivered = append(x.delivered, m)
	if x.max > 0 && len(x.delivered) >= x.max {
		x.active = false
	}
	reply := ""
	if m.Reply != "" {
		reply = m.Reply + " "
	}
	var b bytes.Buffer
	if len(m.Header) > 0 {
		fmt.Fprintf(&b, "HMSG %s %s %s%d %d\r\n", m.Subject, x.SID, reply, len(m.Header), len(m.Header)+len(m.Payload))
	} else {
		fmt.Fprintf(&b, "MSG %s %s %s%d\r\n", m.Subject, x.SID, reply, len(m.Payload))
	}
	b.Write(m.Header)
	b.Write(m.Payload)
	b.WriteString("\r\n")
	x.c.send(b.Bytes())
}

// Match says if a subject without wildcards is matched by the pattern: '*'
// stands for one token and a last '>' for one or more.
func Match(pattern, subject string) bool {
	p, t := strings.Split(pattern, "."), strings.Split(subject, ".")
	for i, x := range p {
		if x == ">" && i == len(p)-1 {
			return len(t) > i
		}
		if i >= len(t) || x != "*" && x != t[i] {
			return false
		}
	}
	return len(p) == len(t)
}

// Publish takes a message from a client that is not connected.
func (s *Server) Publish(m Msg) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.route(m)
	if s.js != nil {
		s.js.store(m)
	}
}
