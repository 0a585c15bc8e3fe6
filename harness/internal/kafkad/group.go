package kafkad

import (
	"fmt"
	"time"

	"github.com/segmentio/kafka-go/protocol"
	"github.com/segmentio/kafka-go/protocol/heartbeat"
	"github.com/segmentio/kafka-go/protocol/joingroup"
	"github.com/segmentio/kafka-go/protocol/leavegroup"
	"github.com/segmentio/kafka-go/protocol/offsetcommit"
	"github.com/segmentio/kafka-go/protocol/offsetfetch"
	"github.com/segmentio/kafka-go/protocol/syncgroup"
)

type groupState int

const (
	empty groupState = iota
	preparing
	syncing
	stable
)

type member struct {
	id         string
	protocols  []joingroup.RequestProtocol
	joining    bool
	assignment []byte
}

// group is a consumer group: its members join in rounds (generations), the
// first of them shares the partitions out.
type group struct {
	state    groupState
	gen      int32
	members  map[string]*member
	order    []string
	leader   string
	protocol string
	offsets  map[string]int64
}

// group gives a group; the lock is held.
func (c *Cluster) group(name string) *group {
	g := c.groups[name]
	if g == nil {
		g = &group{members: map[string]*member{}, offsets: map[string]int64{}}
		c.groups[name] = g
	}
	return g
}

// settle starts the generation when every member joined; the lock is held.
func (c *Cluster) settle(g *group) {
	if g.state != preparing {
		return
	}
	if len(g.members) == 0 {
		g.state = empty
		return
	}
	for _, m := range g.members {
		if !m.joining {
			return
		}
	}
	g.gen++
	g.state = syncing
	g.leader = ""
	for _, id := range g.order {
		m := g.members[id]
		if g.leader == "" {
			g.leader = id
		}
		m.joining = false
		m.assignment = nil
	}
	g.protocol = ""
	for _, p := range g.members[g.leader].protocols {
		common := true
		for _, m := range g.members {
			has := false
			for _, q := range m.protocols {
				has = has || q.Name == p.Name
			}
			common = common && has
		}
		if common {
			g.protocol = p.Name
			break
		}
	}
	c.wake()
}

func (g *group) remove(id string) {
	delete(g.members, id)
	for i, x := range g.order {
		if x == id {
			g.order = append(g.order[:i:i], g.order[i+1:]...)
			break
		}
	}
}

// wait waits for cond, with the lock held; false when the cluster stops or
// when it lasts.
func (c *Cluster) wait(limit time.Duration, cond func() bool) bool {
	timer := time.NewTimer(limit)
	defer timer.Stop()
	for !cond() {
		if c.stopped {
			return false
		}
		changed := c.changed
		c.mu.Unlock()
		timeout := false
		select {
		case <-changed:
		case <-timer.C:
			timeout = true
		}
		c.mu.Lock()
		if timeout {
			return cond()
		}
	}
	return true
}

func (c *Cluster) join(node int, req *joingroup.Request, code int16) protocol.Message {
	c.mu.Lock()
	defer c.mu.Unlock()
	if code == 0 && c.coordinator(req.GroupID) != node {
		code = errNotCoordinator
	}
	if code != 0 {
		return &joingroup.Response{ErrorCode: code}
	}
	g := c.group(req.GroupID)
	m := g.members[req.MemberID]
	if m == nil {
		if req.MemberID != "" {
			return &joingroup.Response{ErrorCode: errUnknownMember}
		}
		c.members++
		m = &member{id: fmt.Sprintf("member-%d", c.members)}
		g.members[m.id] = m
		g.order = append(g.order, m.id)
	}
	m.protocols = nil
	for _, p := range req.Protocols {
		m.protocols = append(m.protocols, joingroup.RequestProtocol{Name: p.Name, Metadata: clone(p.Metadata)})
	}
	m.joining = true
	g.state = preparing
	gen := g.gen
	c.settle(g)
	c.wake()
	if !c.wait(10*time.Second, func() bool { return g.gen != gen || g.members[m.id] == nil }) && !c.stopped {
		// Those that did not come back are out.
		for id, o := range g.members {
			if !o.joining {
				g.remove(id)
			}
		}
		c.settle(g)
	}
	if c.stopped {
		return nil
	}
	if g.members[m.id] == nil {
		return &joingroup.Response{ErrorCode: errUnknownMember}
	}
	res := &joingroup.Response{GenerationID: g.gen, ProtocolName: g.protocol, LeaderID: g.leader, MemberID: m.id}
	if g.leader == m.id {
		for _, id := range g.order {
			rm := joingroup.ResponseMember{MemberID: id}
			for _, p := range g.members[id].protocols {
				if p.Name == g.protocol {
					rm.Metadata = p.Metadata
				}
			}
			res.Members = append(res.Members, rm)
		}
	}
	return res
}

// check gives the error of a request of a member; the lock is held.
func (g *group) check(id string, gen int32) int16 {
	switch {
	case g.members[id] == nil:
		return errUnknownMember
	case gen != g.gen:
		return errIllegalGen
	}
	return 0
}

func (c *Cluster) sync(req *syncgroup.Request, code int16) protocol.Message {
	c.mu.Lock()
	defer c.mu.Unlock()
	g := c.group(req.GroupID)
	if code == 0 {
		code = g.check(req.MemberID, req.GenerationID)
	}
	if code == 0 && g.state == preparing {
		code = errRebalance
	}
	if code != 0 {
		return &syncgroup.Response{ErrorCode: code}
	}
	if req.MemberID == g.leader && g.state == syncing {
		for _, a := range req.Assignments {
			if m := g.members[a.MemberID]; m != nil {
				m.assignment = clone(a.Assignment)
			}
		}
		g.state = stable
		c.wake()
	}
	c.wait(10*time.Second, func() bool {
		return g.state != syncing || g.gen != req.GenerationID
	})
	if c.stopped {
		return nil
	}
	code = g.check(req.MemberID, req.GenerationID)
	if code == 0 && g.state != stable {
		code = errRebalance
	}
	if code != 0 {
		return &syncgroup.Response{ErrorCode: code}
	}
	return &syncgroup.Response{Assignments: g.members[req.MemberID].assignment}
}

func (c *Cluster) heartbeat(req *heartbeat.Request, code int16) protocol.Message {
	c.mu.Lock()
	defer c.mu.Unlock()
	g := c.group(req.GroupID)
	if code == 0 {
		code = g.check(req.MemberID, req.GenerationID)
	}
	if code == 0 && g.state == preparing {
		code = errRebalance
	}
	return &heartbeat.Response{ErrorCode: code}
}

func (c *Cluster) leave(req *leavegroup.Request, code int16) protocol.Message {
	c.mu.Lock()
	defer c.mu.Unlock()
	g := c.group(req.GroupID)
	ids := []string{req.MemberID}
	if req.MemberID == "" {
		ids = nil
		for _, m := range req.Members {
			ids = append(ids, m.MemberID)
		}
	}
	for _, id := range ids {
		if g.members[id] == nil {
			code = errUnknownMember
			continue
		}
		g.remove(id)
		g.state = preparing
	}
	c.settle(g)
	c.wake()
	return &leavegroup.Response{ErrorCode: code}
}

func (c *Cluster) committedOffsets(req *offsetfetch.Request, code int16) protocol.Message {
	c.mu.Lock()
	defer c.mu.Unlock()
	g := c.group(req.GroupID)
	res := &offsetfetch.Response{}
	for _, t := range req.Topics {
		rt := offsetfetch.ResponseTopic{Name: t.Name}
		for _, p := range t.PartitionIndexes {
			rp := offsetfetch.ResponsePartition{PartitionIndex: p, CommittedOffset: -1, ErrorCode: code}
			if o, ok := g.offsets[fmt.Sprintf("%s/%d", t.Name, p)]; ok {
				rp.CommittedOffset = o
			}
			rt.Partitions = append(rt.Partitions, rp)
		}
		res.Topics = append(res.Topics, rt)
	}
	return res
}

func (c *Cluster) commit(req *offsetcommit.Request, code int16) protocol.Message {
	c.mu.Lock()
	defer c.mu.Unlock()
	g := c.group(req.GroupID)
	if code == 0 {
		code = g.check(req.MemberID, req.GenerationID)
	}
	res := &offsetcommit.Response{}
	for _, t := range req.Topics {
		rt := offsetcommit.ResponseTopic{Name: t.Name}
		for _, p := range t.Partitions {
			c.commits = append(c.commits, Commit{req.GroupID, req.MemberID, t.Name, p.PartitionIndex, p.CommittedOffset, code})
			if code == 0 {
				g.offsets[fmt.Sprintf("%s/%d", t.Name, p.PartitionIndex)] = p.CommittedOffset
			}
			rt.Partitions = append(rt.Partitions, offsetcommit.ResponsePartition{PartitionIndex: p.PartitionIndex, ErrorCode: code})
		}
		res.Topics = append(res.Topics, rt)
	}
	return res
}
