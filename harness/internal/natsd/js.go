package natsd

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"
)

type stream struct {
	name     string
	subjects []string
	config   json.RawMessage
	seq      uint64
	msgs     []Stored
	cons     map[string]*consumer
	created  int
	updated  int
}

type consumer struct {
	name    string
	filter  []string
	config  json.RawMessage
	next    int // index of the next message
	cseq    uint64
	waiting []*pull
	pending []int // indexes of the messages to send again
}

type pull struct {
	inbox string
	left  int
}

// Ack is an acknowledgement that the server got.
type Ack struct {
	Conn  int
	Seq   uint64 // stream sequence
	Kind  string // "+ACK", "-NAK", ...
	Delay time.Duration
}

// Stored is a message of a stream.
type Stored struct {
	Msg
	Seq       uint64
	Delivered int
	Acks      []Ack
}

type js struct {
	s       *Server
	streams map[string]*stream
	noRedo  bool
}

// EnableJetStream adds streams. Without redeliver, messages with a negative
// acknowledgement are recorded but not sent again.
func (s *Server) EnableJetStream(redeliver bool) {
	s.mu.Lock()
	s.js = &js{s: s, streams: map[string]*stream{}, noRedo: !redeliver}
	s.mu.Unlock()
}

// StreamInfo tells about a stream: its configuration and how often it was
// created and updated.
func (s *Server) StreamInfo(name string) (config json.RawMessage, created, updated int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if st := s.js.streams[name]; st != nil {
		return st.config, st.created, st.updated
	}
	return nil, 0, 0
}

// ConsumerInfo gives the configuration of a consumer.
func (s *Server) ConsumerInfo(st, name string) json.RawMessage {
	s.mu.Lock()
	defer s.mu.Unlock()
	if x := s.js.streams[st]; x != nil && x.cons[name] != nil {
		return x.cons[name].config
	}
	return nil
}

// Stored gives the messages of a stream.
func (s *Server) Stored(name string) []Stored {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []Stored
	if st := s.js.streams[name]; st != nil {
		for _, m := range st.msgs {
			m.Acks = append([]Ack(nil), m.Acks...)
			out = append(out, m)
		}
	}
	return out
}

// Consuming says if a consumer has pull requests of an interested client.
func (s *Server) Consuming(st, name string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	x := s.js.streams[st]
	if x == nil || x.cons[name] == nil {
		return false
	}
	for _, p := range x.cons[name].waiting {
		if s.interest(p.inbox) {
			return true
		}
	}
	return false
}

// AddStream and AddConsumer make them on behalf of an administrator.
func (s *Server) AddStream(name string, subjects ...string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c, _ := json.Marshal(map[string]any{"name": name, "subjects": subjects})
	s.js.streams[name] = &stream{name: name, subjects: subjects, config: c, cons: map[string]*consumer{}}
}

// AddConsumer adds a pull consumer.
func (s *Server) AddConsumer(st, name string, filter ...string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c, _ := json.Marshal(map[string]any{"name": name, "durable_name": name, "filter_subjects": filter, "ack_policy": "explicit", "deliver_policy": "all", "replay_policy": "instant"})
	s.js.streams[st].cons[name] = &consumer{name: name, filter: filter, config: c}
}

// Redeliver sends every message without acknowledgement again, as a server
// does when the time to acknowledge is over.
func (s *Server) Redeliver(st, name string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	x := s.js.streams[st]
	c := x.cons[name]
	n := 0
	for i := range x.msgs {
		m := &x.msgs[i]
		if m.Delivered > 0 && len(m.Acks) == 0 {
			c.pending = append(c.pending, i)
			n++
		}
	}
	s.js.pump(x, c)
	return n
}

func (s *Server) interest(subject string) bool {
	for _, x := range s.subs {
		if x.active && Match(x.Subject, subject) {
			return true
		}
	}
	return false
}

func (j *js) reply(m Msg, v any) {
	b, _ := json.Marshal(v)
	j.s.route(Msg{Subject: m.Reply, Payload: b})
}

func apiErr(typ string, code, errCode int, text string) map[string]any {
	return map[string]any{"type": "io.nats.jetstream.api.v1." + typ, "error": map[string]any{"code": code, "err_code": errCode, "description": text}}
}

// api handles the JetStream requests; false for other subjects.
func (j *js) api(m Msg) bool {
	if strings.HasPrefix(m.Subject, "$JS.ACK.") {
		j.ack(m)
		return true
	}
	if !strings.HasPrefix(m.Subject, "$JS.API.") {
		return false
	}
	t := strings.Split(strings.TrimPrefix(m.Subject, "$JS.API."), ".")
	get := func(i int) string {
		if i < len(t) {
			return t[i]
		}
		return ""
	}
	now := time.Now().UTC().Format(time.RFC3339Nano)
	info := func(typ string, st *stream) {
		j.reply(m, map[string]any{"type": "io.nats.jetstream.api.v1." + typ, "config": st.config, "created": now,
			"state": map[string]any{"messages": len(st.msgs), "first_seq": 1, "last_seq": st.seq, "first_ts": now, "last_ts": now}})
	}
	cinfo := func(typ string, st *stream, c *consumer) {
		j.reply(m, map[string]any{"type": "io.nats.jetstream.api.v1." + typ, "stream_name": st.name, "name": c.name, "created": now, "config": c.config,
			"delivered": map[string]any{"consumer_seq": c.cseq, "stream_seq": c.next}, "ack_floor": map[string]any{}})
	}
	switch {
	case get(0) == "STREAM" && (get(1) == "CREATE" || get(1) == "UPDATE"):
		var c struct {
			Name     string   `json:"name"`
			Subjects []string `json:"subjects"`
		}
		_ = json.Unmarshal(m.Payload, &c)
		if len(c.Subjects) == 0 {
			c.Subjects = []string{c.Name}
		}
		st := j.streams[get(2)]
		if get(1) == "CREATE" {
			if st != nil && string(st.config) != string(m.Payload) {
				j.reply(m, apiErr("stream_create_response", 400, 10058, "stream name already in use with a different configuration"))
				return true
			}
			if st == nil {
				st = &stream{name: get(2), cons: map[string]*consumer{}}
				j.streams[get(2)] = st
				st.created++
			}
		} else if st == nil {
			j.reply(m, apiErr("stream_update_response", 404, 10059, "stream not found"))
			return true
		} else {
			st.updated++
		}
		st.config, st.subjects = append(json.RawMessage(nil), m.Payload...), c.Subjects
		info("stream_create_response", st)
	case get(0) == "STREAM" && get(1) == "INFO":
		st := j.streams[get(2)]
		if st == nil {
			j.reply(m, apiErr("stream_info_response", 404, 10059, "stream not found"))
			return true
		}
		info("stream_info_response", st)
	case get(0) == "CONSUMER" && (get(1) == "CREATE" || get(1) == "DURABLE" && get(2) == "CREATE"):
		i := 2
		if get(1) == "DURABLE" {
			i = 3
		}
		st := j.streams[get(i)]
		if st == nil {
			j.reply(m, apiErr("consumer_create_response", 404, 10059, "stream not found"))
			return true
		}
		var c struct {
			Config json.RawMessage `json:"config"`
		}
		_ = json.Unmarshal(m.Payload, &c)
		var f struct {
			Name    string   `json:"name"`
			Durable string   `json:"durable_name"`
			F       string   `json:"filter_subject"`
			Fs      []string `json:"filter_subjects"`
		}
		_ = json.Unmarshal(c.Config, &f)
		name := get(i + 1)
		if name == "" {
			name = f.Name
		}
		x := st.cons[name]
		if x == nil {
			x = &consumer{name: name}
			st.cons[name] = x
		}
		x.config, x.filter = c.Config, f.Fs
		if f.F != "" {
			x.filter = append(x.filter, f.F)
		}
		cinfo("consumer_create_response", st, x)
	case get(0) == "CONSUMER" && get(1) == "INFO":
		st := j.streams[get(2)]
		if st == nil {
			j.reply(m, apiErr("consumer_info_response", 404, 10059, "stream not found"))
			return true
		}
		c := st.cons[get(3)]
		if c == nil {
			j.reply(m, apiErr("consumer_info_response", 404, 10014, "consumer not found"))
			return true
		}
		cinfo("consumer_info_response", st, c)
	case get(0) == "CONSUMER" && get(1) == "MSG" && get(2) == "NEXT":
		st := j.streams[get(3)]
		if st == nil || st.cons[get(4)] == nil {
			return true
		}
		var p struct {
			Batch int `json:"batch"`
		}
		_ = json.Unmarshal(m.Payload, &p)
		if p.Batch == 0 {
			p.Batch = 1
		}
		c := st.cons[get(4)]
		c.waiting = append(c.waiting, &pull{inbox: m.Reply, left: p.Batch})
		j.pump(st, c)
	default:
		j.reply(m, apiErr("error", 404, 10000, "not supported by the fake"))
	}
	return true
}

// store puts a publication into the stream of its subject and confirms it.
func (j *js) store(m Msg) bool {
	names := make([]string, 0, len(j.streams))
	for n := range j.streams {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		st := j.streams[n]
		for _, p := range st.subjects {
			if !Match(p, m.Subject) {
				continue
			}
			st.seq++
			st.msgs = append(st.msgs, Stored{Msg: m, Seq: st.seq})
			if m.Reply != "" {
				j.reply(m, map[string]any{"stream": n, "seq": st.seq})
			}
			for _, c := range st.cons {
				j.pump(st, c)
			}
			return true
		}
	}
	return false
}

// pump sends what can be sent to a consumer.
func (j *js) pump(st *stream, c *consumer) {
	for {
		// pull requests without interest are gone
		w := c.waiting[:0]
		for _, p := range c.waiting {
			if p.left > 0 && j.s.interest(p.inbox) {
				w = append(w, p)
			}
		}
		c.waiting = w
		if len(w) == 0 {
			return
		}
		var m *Stored
		if len(c.pending) > 0 {
			m = &st.msgs[c.pending[0]]
			c.pending = c.pending[1:]
		} else if c.next < len(st.msgs) {
			m = &st.msgs[c.next]
			c.next++
			if len(c.filter) > 0 {
				ok := false
				for _, f := range c.filter {
					ok = ok || Match(f, m.Subject)
				}
				if !ok {
					continue
				}
			}
		} else {
			return
		}
		w[0].left--
		m.Delivered++
		c.cseq++
		out := m.Msg
		out.Reply = fmt.Sprintf("$JS.ACK.%s.%s.%d.%d.%d.%d.%d", st.name, c.name, m.Delivered, m.Seq, c.cseq, time.Now().UnixNano(), len(st.msgs)-c.next)
		j.s.deliver(w[0].inbox, out)
	}
}

func (j *js) ack(m Msg) {
	t := strings.Split(m.Subject, ".")
	if len(t) < 9 {
		return
	}
	st := j.streams[t[2]]
	if st == nil {
		return
	}
	var seq uint64
	fmt.Sscan(t[5], &seq)
	kind, rest, _ := strings.Cut(string(m.Payload), " ")
	a := Ack{Conn: m.Conn, Seq: seq, Kind: kind}
	if kind == "" {
		a.Kind = "+ACK"
	}
	if rest != "" {
		var d struct {
			Delay int64 `json:"delay"`
		}
		_ = json.Unmarshal([]byte(rest), &d)
		a.Delay = time.Duration(d.Delay)
	}
	if m.Reply != "" {
		j.s.route(Msg{Subject: m.Reply})
	}
	if seq == 0 || seq > uint64(len(st.msgs)) {
		return
	}
	x := &st.msgs[seq-1]
	x.Acks = append(x.Acks, a)
	if a.Kind == "-NAK" && !j.noRedo {
		c := st.cons[t[3]]
		redo := func() {
			c.pending = append(c.pending, int(seq-1))
			j.pump(st, c)
		}
		if a.Delay <= 0 {
			redo()
			return
		}
		time.AfterFunc(a.Delay, func() {
			j.s.mu.Lock()
			defer j.s.mu.Unlock()
			redo()
		})
	}
}
