// Package kafkad is a Kafka cluster for tests: several brokers on the loopback
// that share one state, speak the protocol that kafka-go speaks, record what
// clients do, and fail when they are told to.
package kafkad

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/segmentio/kafka-go/protocol"
	"github.com/segmentio/kafka-go/protocol/apiversions"
	"github.com/segmentio/kafka-go/protocol/createtopics"
	"github.com/segmentio/kafka-go/protocol/fetch"
	"github.com/segmentio/kafka-go/protocol/findcoordinator"
	"github.com/segmentio/kafka-go/protocol/heartbeat"
	"github.com/segmentio/kafka-go/protocol/joingroup"
	"github.com/segmentio/kafka-go/protocol/leavegroup"
	"github.com/segmentio/kafka-go/protocol/listoffsets"
	"github.com/segmentio/kafka-go/protocol/metadata"
	"github.com/segmentio/kafka-go/protocol/offsetcommit"
	"github.com/segmentio/kafka-go/protocol/offsetfetch"
	"github.com/segmentio/kafka-go/protocol/produce"
	"github.com/segmentio/kafka-go/protocol/saslauthenticate"
	"github.com/segmentio/kafka-go/protocol/saslhandshake"
	"github.com/segmentio/kafka-go/protocol/syncgroup"
)

// Error codes of the protocol.
const (
	errOffsetOutOfRange = 1
	errUnknownTopic     = 3
	errNotLeader        = 6
	errNotCoordinator   = 16
	errIllegalGen       = 22
	errUnknownMember    = 25
	errRebalance        = 27
	errTopicExists      = 36
	errNotController    = 41
	errSaslMechanism    = 33
	errSaslFailed       = 58
)

// Header is a header of a record.
type Header struct {
	Key   string
	Value []byte
}

// Record is an entry of a log.
type Record struct {
	Key, Value []byte
	Headers    []Header
}

// Commit is an offset that a member of a group committed.
type Commit struct {
	Group, Member, Topic string
	Partition            int32
	Offset               int64
	Code                 int16
}

// Fetch is a fetch request.
type Fetch struct {
	Topic     string
	Partition int32
	Offset    int64
	MaxBytes  int32
}

// Config configures a cluster.
type Config struct {
	// Nodes is the number of brokers (1 by default).
	Nodes int
	// Controller is the index of the broker that creates topics.
	Controller int
	// TLS makes brokers speak TLS.
	TLS *tls.Config
	// User and Pass make brokers ask for SASL PLAIN authentication.
	User, Pass string
	// Delay is how long a created topic takes to appear.
	Delay time.Duration
	// Poll bounds the time that an empty fetch takes (30 ms by default).
	Poll time.Duration
	// Batch bounds the number of records in an answer (10 by default).
	Batch int
}

type part struct {
	start int64
	recs  []Record
}

type topic struct {
	parts   []*part
	visible time.Time
}

// Cluster is a running cluster.
type Cluster struct {
	cfg Config

	mu       sync.Mutex
	changed  chan struct{}
	stopped  bool
	down     bool
	lns      []net.Listener
	addrs    []string
	conns    map[net.Conn]bool
	accepted int
	topics   map[string]*topic
	groups   map[string]*group
	commits  []Commit
	fetches  []Fetch
	creates  []string
	auths    []string
	fails    map[protocol.ApiKey][]int16
	failed   int
	problems []string
	members  int
}

// Start starts a cluster.
func Start(cfg Config) (*Cluster, error) {
	if cfg.Nodes == 0 {
		cfg.Nodes = 1
	}
	if cfg.Poll == 0 {
		cfg.Poll = 30 * time.Millisecond
	}
	if cfg.Batch == 0 {
		cfg.Batch = 10
	}
	c := &Cluster{
		cfg: cfg, changed: make(chan struct{}), conns: map[net.Conn]bool{},
		topics: map[string]*topic{}, groups: map[string]*group{}, fails: map[protocol.ApiKey][]int16{},
	}
	for i := 0; i < cfg.Nodes; i++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Stop()
			return nil, err
		}
		c.lns = append(c.lns, ln)
		c.addrs = append(c.addrs, ln.Addr().String())
	}
	for i := range c.lns {
		go c.serve(i)
	}
	return c, nil
}

// Hosts gives the addresses of the brokers.
func (c *Cluster) Hosts() []string { return append([]string(nil), c.addrs...) }

// Stop stops the cluster.
func (c *Cluster) Stop() {
	c.mu.Lock()
	c.stopped = true
	for _, ln := range c.lns {
		ln.Close()
	}
	for conn := range c.conns {
		conn.Close()
	}
	c.wake()
	c.mu.Unlock()
}

// Down closes every connection and refuses new ones until Up.
func (c *Cluster) Down() {
	c.mu.Lock()
	c.down = true
	for conn := range c.conns {
		conn.Close()
	}
	c.mu.Unlock()
}

// Up accepts connections again.
func (c *Cluster) Up() { c.mu.Lock(); c.down = false; c.mu.Unlock() }

// wake tells waiters that something changed; the lock is held.
func (c *Cluster) wake() {
	close(c.changed)
	c.changed = make(chan struct{})
}

// Topic adds a topic.
func (c *Cluster) Topic(name string, parts int, start int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.addTopic(name, parts, start, 0)
}

func (c *Cluster) addTopic(name string, parts int, start int64, delay time.Duration) {
	t := &topic{visible: time.Now().Add(delay)}
	for i := 0; i < parts; i++ {
		t.parts = append(t.parts, &part{start: start})
	}
	c.topics[name] = t
}

// Append adds records to a log.
func (c *Cluster) Append(name string, partition int, recs ...Record) {
	c.mu.Lock()
	defer c.mu.Unlock()
	p := c.topics[name].parts[partition]
	p.recs = append(p.recs, recs...)
	c.wake()
}

// Records gives the records of a topic, by partition.
func (c *Cluster) Records(name string) [][]Record {
	c.mu.Lock()
	defer c.mu.Unlock()
	t := c.topics[name]
	if t == nil {
		return nil
	}
	out := make([][]Record, len(t.parts))
	for i, p := range t.parts {
		out[i] = append([]Record(nil), p.recs...)
	}
	return out
}

// Fail makes the next requests of an API fail with codes: a positive code is
// the error of the answer, -1 closes the connection instead of answering.
func (c *Cluster) Fail(api protocol.ApiKey, codes ...int16) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.fails[api] = append(c.fails[api], codes...)
}

// Failed gives the number of requests that failed because of Fail.
func (c *Cluster) Failed() int { c.mu.Lock(); defer c.mu.Unlock(); return c.failed }

// Failing says if some failures are still to come.
func (c *Cluster) Failing() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, f := range c.fails {
		if len(f) > 0 {
			return true
		}
	}
	return false
}

func (c *Cluster) fail(api protocol.ApiKey) (int16, bool) {
	q := c.fails[api]
	if len(q) == 0 {
		return 0, false
	}
	c.fails[api] = q[1:]
	c.failed++
	return q[0], true
}

// Open gives the number of open connections.
func (c *Cluster) Open() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.conns) }

// Accepted gives the number of connections that were accepted.
func (c *Cluster) Accepted() int { c.mu.Lock(); defer c.mu.Unlock(); return c.accepted }

// Commits gives the commits in order.
func (c *Cluster) Commits() []Commit {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Commit(nil), c.commits...)
}

// Committed gives the committed offset, -1 if none.
func (c *Cluster) Committed(g, name string, partition int32) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	if gr := c.groups[g]; gr != nil {
		if o, ok := gr.offsets[fmt.Sprintf("%s/%d", name, partition)]; ok {
			return o
		}
	}
	return -1
}

// SetCommitted sets the committed offset of a group.
func (c *Cluster) SetCommitted(g, name string, partition int32, offset int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.group(g).offsets[fmt.Sprintf("%s/%d", name, partition)] = offset
}

// Fetches gives the fetch requests in order.
func (c *Cluster) Fetches() []Fetch {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Fetch(nil), c.fetches...)
}

// Creates gives the topics that clients asked to create.
func (c *Cluster) Creates() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string(nil), c.creates...)
}

// Auths gives the authentications ("user:pass", or "none" for a connection
// that made a request without).
func (c *Cluster) Auths() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string(nil), c.auths...)
}

// Problems gives the requests that the cluster could not read.
func (c *Cluster) Problems() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string(nil), c.problems...)
}

// Members gives the number of members of a group.
func (c *Cluster) Members(g string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	if gr := c.groups[g]; gr != nil {
		return len(gr.members)
	}
	return 0
}

// Stable says if a group has n members that know their assignments.
func (c *Cluster) Stable(g string, n int) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	gr := c.groups[g]
	return gr != nil && gr.state == stable && len(gr.members) == n
}

func (c *Cluster) serve(node int) {
	for {
		conn, err := c.lns[node].Accept()
		if err != nil {
			return
		}
		c.mu.Lock()
		if c.down || c.stopped {
			c.mu.Unlock()
			conn.Close()
			continue
		}
		c.accepted++
		c.conns[conn] = true
		c.mu.Unlock()
		go c.talk(node, conn)
	}
}

func (c *Cluster) problem(f string, a ...any) {
	c.mu.Lock()
	c.problems = append(c.problems, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

func (c *Cluster) talk(node int, raw net.Conn) {
	defer func() {
		raw.Close()
		c.mu.Lock()
		delete(c.conns, raw)
		c.mu.Unlock()
	}()
	conn := raw
	if c.cfg.TLS != nil {
		t := tls.Server(raw, c.cfg.TLS)
		if err := t.Handshake(); err != nil {
			return
		}
		conn = t
	}
	r := bufio.NewReader(conn)
	auth := c.cfg.User == ""
	for {
		if _, err := r.Peek(4); err != nil {
			return
		}
		version, id, _, msg, err := protocol.ReadRequest(r)
		if err != nil {
			c.problem("unreadable request: %v", err)
			return
		}
		switch req := msg.(type) {
		case *apiversions.Request:
		case *saslhandshake.Request:
			res := &saslhandshake.Response{Mechanisms: []string{"PLAIN"}}
			if req.Mechanism != "PLAIN" || c.cfg.User == "" {
				res.ErrorCode = errSaslMechanism
			}
			if protocol.WriteResponse(conn, version, id, res) != nil {
				return
			}
			continue
		case *saslauthenticate.Request:
			f := strings.Split(string(req.AuthBytes), "\x00")
			res := &saslauthenticate.Response{}
			c.mu.Lock()
			c.auths = append(c.auths, strings.Join(f[1:], ":"))
			c.mu.Unlock()
			if len(f) == 3 && f[1] == c.cfg.User && f[2] == c.cfg.Pass {
				auth = true
			} else {
				res.ErrorCode = errSaslFailed
			}
			if protocol.WriteResponse(conn, version, id, res) != nil {
				return
			}
			continue
		default:
			if !auth {
				c.mu.Lock()
				c.auths = append(c.auths, "none")
				c.mu.Unlock()
				return
			}
		}
		if err := c.answer(node, conn, version, id, msg); err != nil {
			return
		}
	}
}

var errClosed = fmt.Errorf("closed")

func (c *Cluster) answer(node int, conn net.Conn, version int16, id int32, msg protocol.Message) error {
	c.mu.Lock()
	code, failing := c.fail(msg.ApiKey())
	c.mu.Unlock()
	if failing && code < 0 {
		return errClosed
	}
	var res protocol.Message
	switch req := msg.(type) {
	case *apiversions.Request:
		res = c.versions()
	case *metadata.Request:
		res = c.metadata(req, version, code)
	case *createtopics.Request:
		res = c.create(node, req, code)
	case *produce.Request:
		out, err := c.produce(node, req, code)
		if err != nil {
			c.problem("produce: %v", err)
			return err
		}
		if req.Acks == 0 {
			return nil
		}
		res = out
	case *listoffsets.Request:
		res = c.offsets(req, code)
	case *fetch.Request:
		if version != 10 {
			c.problem("fetch v%d", version)
			return errClosed
		}
		b, err := c.fetch(node, req, id, code)
		if err != nil {
			c.problem("fetch: %v", err)
			return err
		}
		_, err = conn.Write(b)
		return err
	case *findcoordinator.Request:
		n := c.coordinator(req.Key)
		host, port := c.hostPort(n)
		res = &findcoordinator.Response{ErrorCode: code, NodeID: int32(n), Host: host, Port: port}
	case *joingroup.Request:
		res = c.join(node, req, code)
	case *syncgroup.Request:
		res = c.sync(req, code)
	case *heartbeat.Request:
		res = c.heartbeat(req, code)
	case *leavegroup.Request:
		res = c.leave(req, code)
	case *offsetfetch.Request:
		res = c.committedOffsets(req, code)
	case *offsetcommit.Request:
		res = c.commit(req, code)
	default:
		c.problem("unexpected request %T", msg)
		return errClosed
	}
	if res == nil {
		return errClosed
	}
	return protocol.WriteResponse(conn, version, id, res)
}

func (c *Cluster) versions() protocol.Message {
	res := &apiversions.Response{}
	for _, k := range []protocol.ApiKey{
		protocol.Produce, protocol.Fetch, protocol.ListOffsets, protocol.Metadata, protocol.OffsetCommit,
		protocol.OffsetFetch, protocol.FindCoordinator, protocol.JoinGroup, protocol.Heartbeat, protocol.LeaveGroup,
		protocol.SyncGroup, protocol.SaslHandshake, protocol.ApiVersions, protocol.CreateTopics, protocol.SaslAuthenticate,
	} {
		max := k.MaxVersion()
		if k == protocol.Fetch {
			max = 10
		}
		res.ApiKeys = append(res.ApiKeys, apiversions.ApiKeyResponse{ApiKey: int16(k), MinVersion: k.MinVersion(), MaxVersion: max})
	}
	return res
}

func (c *Cluster) hostPort(n int) (string, int32) {
	a := c.lns[n].Addr().(*net.TCPAddr)
	return a.IP.String(), int32(a.Port)
}

// leader gives the broker of a partition.
func (c *Cluster) leader(name string, partition int) int {
	h := fnv.New32a()
	fmt.Fprintf(h, "%s/%d", name, partition)
	return int(h.Sum32()>>8) % c.cfg.Nodes
}

func (c *Cluster) coordinator(g string) int { return c.leader("group "+g, 0) }

// known gives a topic that clients can see; the lock is held.
func (c *Cluster) known(name string) *topic {
	t := c.topics[name]
	if t == nil || time.Now().Before(t.visible) {
		return nil
	}
	return t
}

func (c *Cluster) metadata(req *metadata.Request, version int16, code int16) protocol.Message {
	c.mu.Lock()
	defer c.mu.Unlock()
	res := &metadata.Response{ClusterID: "verif", ControllerID: int32(c.cfg.Controller)}
	for i := range c.lns {
		host, port := c.hostPort(i)
		res.Brokers = append(res.Brokers, metadata.ResponseBroker{NodeID: int32(i), Host: host, Port: port})
	}
	names := req.TopicNames
	if names == nil || version == 0 && len(names) == 0 {
		names = nil
		for n := range c.topics {
			if c.known(n) != nil {
				names = append(names, n)
			}
		}
		sort.Strings(names)
	}
	for _, n := range names {
		t := c.known(n)
		if t == nil {
			res.Topics = append(res.Topics, metadata.ResponseTopic{Name: n, ErrorCode: errUnknownTopic})
			continue
		}
		rt := metadata.ResponseTopic{Name: n, ErrorCode: code}
		for i := range t.parts {
			l := int32(c.leader(n, i))
			rt.Partitions = append(rt.Partitions, metadata.ResponsePartition{PartitionIndex: int32(i), LeaderID: l, ReplicaNodes: []int32{l}, IsrNodes: []int32{l}})
		}
		res.Topics = append(res.Topics, rt)
	}
	return res
}

func (c *Cluster) create(node int, req *createtopics.Request, code int16) protocol.Message {
	c.mu.Lock()
	defer c.mu.Unlock()
	res := &createtopics.Response{}
	for _, t := range req.Topics {
		rt := createtopics.ResponseTopic{Name: t.Name, ErrorCode: code}
		switch {
		case code != 0:
		case node != c.cfg.Controller:
			rt.ErrorCode = errNotController
		case c.topics[t.Name] != nil:
			rt.ErrorCode = errTopicExists
		default:
			c.creates = append(c.creates, t.Name)
			n := int(t.NumPartitions)
			if n <= 0 {
				n = 1
			}
			c.addTopic(t.Name, n, 0, c.cfg.Delay)
		}
		res.Topics = append(res.Topics, rt)
	}
	return res
}

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func (c *Cluster) produce(node int, req *produce.Request, code int16) (protocol.Message, error) {
	res := &produce.Response{}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, t := range req.Topics {
		rt := produce.ResponseTopic{Topic: t.Topic}
		for _, p := range t.Partitions {
			rp := produce.ResponsePartition{Partition: p.Partition, ErrorCode: code}
			var recs []Record
			for {
				if p.RecordSet.Records == nil {
					break
				}
				rec, err := p.RecordSet.Records.ReadRecord()
				if err != nil {
					break
				}
				out := Record{}
				if rec.Key != nil {
					b, err := protocol.ReadAll(rec.Key)
					if err != nil {
						return nil, err
					}
					out.Key = clone(b)
				}
				if rec.Value != nil {
					b, err := protocol.ReadAll(rec.Value)
					if err != nil {
						return nil, err
					}
					out.Value = clone(b)
				}
				for _, h := range rec.Headers {
					out.Headers = append(out.Headers, Header{h.Key, clone(h.Value)})
				}
				recs = append(recs, out)
			}
			known := c.known(t.Topic)
			switch {
			case code != 0:
			case known == nil || int(p.Partition) >= len(known.parts):
				rp.ErrorCode = errUnknownTopic
			case c.leader(t.Topic, int(p.Partition)) != node:
				rp.ErrorCode = errNotLeader
			default:
				part := known.parts[p.Partition]
				rp.BaseOffset = part.start + int64(len(part.recs))
				part.recs = append(part.recs, recs...)
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		res.Topics = append(res.Topics, rt)
	}
	c.wake()
	return res, nil
}

func (c *Cluster) offsets(req *listoffsets.Request, code int16) protocol.Message {
	c.mu.Lock()
	defer c.mu.Unlock()
	res := &listoffsets.Response{}
	for _, t := range req.Topics {
		rt := listoffsets.ResponseTopic{Topic: t.Topic}
		for _, p := range t.Partitions {
			rp := listoffsets.ResponsePartition{Partition: p.Partition, ErrorCode: code, Timestamp: -1, Offset: -1}
			known := c.known(t.Topic)
			if known == nil || int(p.Partition) >= len(known.parts) {
				rp.ErrorCode = errUnknownTopic
			} else if code == 0 {
				pt := known.parts[p.Partition]
				rp.Offset = pt.start
				if p.Timestamp == -1 {
					rp.Offset += int64(len(pt.recs))
				}
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		res.Topics = append(res.Topics, rt)
	}
	return res
}

func (c *Cluster) fetch(node int, req *fetch.Request, id int32, code int16) ([]byte, error) {
	if len(req.Topics) != 1 || len(req.Topics[0].Partitions) != 1 {
		return nil, fmt.Errorf("%d topics", len(req.Topics))
	}
	name, p := req.Topics[0].Topic, req.Topics[0].Partitions[0]
	wait := time.Duration(req.MaxWaitTime) * time.Millisecond
	if wait > c.cfg.Poll {
		wait = c.cfg.Poll
	}
	timer := time.NewTimer(wait)
	defer timer.Stop()
	c.mu.Lock()
	c.fetches = append(c.fetches, Fetch{name, p.Partition, p.FetchOffset, p.PartitionMaxBytes})
	c.mu.Unlock()
	var recs []Record
	var high, start int64
	for expired := false; ; {
		c.mu.Lock()
		t := c.known(name)
		switch {
		case c.stopped:
			c.mu.Unlock()
			return nil, errClosed
		case code != 0:
		case t == nil || int(p.Partition) >= len(t.parts):
			code = errUnknownTopic
		case c.leader(name, int(p.Partition)) != node:
			code = errNotLeader
		default:
			pt := t.parts[p.Partition]
			start, high = pt.start, pt.start+int64(len(pt.recs))
			if p.FetchOffset < start || p.FetchOffset > high {
				code = errOffsetOutOfRange
				break
			}
			size := 0
			for _, r := range pt.recs[p.FetchOffset-start:] {
				size += len(r.Value) + len(r.Key) + 100
				if len(recs) > 0 && (size > int(p.PartitionMaxBytes) || len(recs) >= c.cfg.Batch) {
					break
				}
				recs = append(recs, r)
			}
		}
		changed := c.changed
		c.mu.Unlock()
		if code != 0 || len(recs) > 0 || expired {
			break
		}
		select {
		case <-changed:
		case <-timer.C:
			expired = true
		}
	}

	var set []byte
	if len(recs) > 0 {
		var out []protocol.Record
		now := time.Now()
		for i, r := range recs {
			o := protocol.Record{Offset: int64(i), Time: now}
			if r.Key != nil {
				o.Key = protocol.NewBytes(r.Key)
			}
			if r.Value != nil {
				o.Value = protocol.NewBytes(r.Value)
			}
			for _, h := range r.Headers {
				o.Headers = append(o.Headers, protocol.Header{Key: h.Key, Value: h.Value})
			}
			out = append(out, o)
		}
		var buf bytes.Buffer
		rs := protocol.RecordSet{Version: 2, Records: protocol.NewRecordReader(out...)}
		if _, err := rs.WriteTo(&buf); err != nil {
			return nil, err
		}
		set = buf.Bytes()[4:]
		binary.BigEndian.PutUint64(set, uint64(p.FetchOffset))
	}

	var b bytes.Buffer
	w := func(v any) { binary.Write(&b, binary.BigEndian, v) }
	w(int32(0)) // size
	w(id)
	w(int32(0)) // throttle
	w(int16(0))
	w(int32(0)) // session
	w(int32(1))
	w(int16(len(name)))
	b.WriteString(name)
	w(int32(1))
	w(p.Partition)
	w(code)
	w(high)
	w(high)
	w(start)
	w(int32(-1)) // aborted transactions
	w(int32(len(set)))
	b.Write(set)
	binary.BigEndian.PutUint32(b.Bytes(), uint32(b.Len()-4))
	return b.Bytes(), nil
}
