package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"math/big"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	kafkabroker "github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/kafka"
	"github.com/segmentio/kafka-go/protocol"
	"github.com/segmentio/kafka-go/sasl/plain"
	"pgregory.net/rapid"

	"verif/internal/fake"
	"verif/internal/kafkad"
	"verif/internal/rep"
)

func init() { checks["C19"] = c19 }

// long bounds operations that must end by themselves.
const long = 40 * time.Second

var kafkaTopics = []string{"a", "a.b", "c-1_x"}

func drawKafkaMsg(t *rapid.T, big int) extensions.BrokerMessage {
	m := extensions.BrokerMessage{}
	if n := rapid.IntRange(-1, 4).Draw(t, "nh"); n >= 0 {
		m.Headers = map[string][]byte{}
		for i := 0; i < n; i++ {
			name := rapid.SampledFrom([]string{"correlationId", "correlation-id", "x", "X", "application-version", "", "é", "a b", "x:y\r\n", "h"}).Draw(t, "hn")
			m.Headers[name] = drawPayload(t, 200)
		}
	}
	m.Payload = drawPayload(t, big)
	return m
}

// kafkaText describes a record: its headers, its value, and its key if any.
func kafkaText(r kafkad.Record) string {
	m := extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: r.Value}
	for _, h := range r.Headers {
		if old, ok := m.Headers[h.Key]; ok {
			m.Headers[h.Key] = append(append([]byte{}, old...), "\x00AND\x00"+string(h.Value)...)
		} else {
			m.Headers[h.Key] = h.Value
		}
	}
	s := fake.MsgString(m)
	if r.Key != nil {
		s += fmt.Sprintf(" key %q", r.Key)
	}
	return s
}

func kafkaRecord(m extensions.BrokerMessage) kafkad.Record {
	r := kafkad.Record{Value: m.Payload}
	for k, v := range m.Headers {
		r.Headers = append(r.Headers, kafkad.Header{Key: k, Value: v})
	}
	return r
}

func drawCluster(t *rapid.T) kafkad.Config {
	c := kafkad.Config{Nodes: rapid.IntRange(1, 3).Draw(t, "nodes")}
	c.Controller = rapid.IntRange(0, c.Nodes-1).Draw(t, "controller")
	c.Delay = time.Duration(rapid.SampledFrom([]int{0, 0, 20, 150}).Draw(t, "delay")) * time.Millisecond
	c.Batch = rapid.IntRange(1, 12).Draw(t, "batch")
	return c
}

// scene is a scenario that was drawn: run plays it and gives what is wrong.
type scene struct {
	text    string
	trivial bool
	classes []string
	run     func() error
}

// scenes draws scenarios and plays them at the same time.
func scenes(r *rep.Run, name string, cases, most int, draw func(t *rapid.T) scene) {
	r.Rapid(name, cases, func(t *rapid.T) {
		least := 1
		if rapid.IntRange(0, 9).Draw(t, "many") > 0 {
			least = most * 3 / 4
		}
		all := rapid.SliceOfN(rapid.Custom(draw), least, most).Draw(t, "scenes")
		errs := make([]error, len(all))
		var wg sync.WaitGroup
		for i := range all {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = all[i].run()
			}()
		}
		wg.Wait()
		for i, err := range errs {
			if err != nil {
				t.Fatalf("%v\nin: %s", err, all[i].text)
			}
			key := name + ": " + all[i].text
			if all[i].trivial {
				key = ""
			}
			r.Case(key, append(all[i].classes, name)...)
		}
		r.Sample(name, all[0].text)
	})
}

func kafkaCtl(hosts []string, opts ...kafkabroker.ControllerOption) (c *kafkabroker.Controller, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return kafkabroker.NewController(hosts, opts...)
}

// within gives an error when f lasts.
func within(d time.Duration, what string, f func()) error {
	if !fake.Returns(d, f) {
		return fmt.Errorf("%s does not return", what)
	}
	return nil
}

func counts(a []string) map[string]int {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	return m
}

func diffCounts(got, want []string) error {
	g, w := counts(got), counts(want)
	for k, n := range w {
		if g[k] != n {
			return fmt.Errorf("%s is there %d times, want %d", clip(k), g[k], n)
		}
	}
	for k, n := range g {
		if w[k] != n {
			return fmt.Errorf("%s is there %d times, want %d", clip(k), n, w[k])
		}
	}
	return nil
}

func c19(r *rep.Run) {
	r.Rule("publish: generated clusters (brokers, controller, topics present or not, slow creations, refused or dropped productions) and concurrent publishers; non-trivial = at least 2 publications. consume: generated clusters, logs and subscribers (groups, partitions, commit modes, sizes, acknowledgement plans, failures, outages, moments of cancellation); non-trivial = at least 2 records. options: generated securities of clusters and of several controllers of one process, invalid configurations, expired contexts; non-trivial = all. Distinctness by the scenario")
	r.Assume("the fake cluster orders, stores, assigns and answers as Kafka brokers do; failures are reported before they have an effect (a production that fails was not stored)")

	scenes(r, "publish", r.N(3, 150), 60, drawKafkaPublish)
	scenes(r, "consume", r.N(3, 120), 60, drawKafkaConsume)
	scenes(r, "options", r.N(3, 80), 40, drawKafkaOptions)
}

func drawKafkaPublish(t *rapid.T) scene {
	cfg := drawCluster(t)
	exists := rapid.SliceOfN(rapid.IntRange(0, 2), len(kafkaTopics), len(kafkaTopics)).Draw(t, "parts")
	type pub struct {
		topic string
		msg   extensions.BrokerMessage
	}
	ctls := rapid.IntRange(1, 2).Draw(t, "ctls")
	publishers := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) []pub {
		one := rapid.SampledFrom(kafkaTopics).Draw(t, "topic")
		return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) pub {
			p := pub{one, drawKafkaMsg(t, 20000)}
			if rapid.IntRange(0, 3).Draw(t, "other") == 0 {
				p.topic = rapid.SampledFrom(kafkaTopics).Draw(t, "topic")
			}
			return p
		}), 1, 2).Draw(t, "pubs")
	}), 1, 4).Draw(t, "publishers")
	// 5, 6, 7 and -1 (connection lost) are worth another try; 10 (too large),
	// 17 (invalid topic) and 29 (not authorized) are not.
	faults := rapid.SliceOfN(rapid.SampledFrom([]int16{5, 6, 7, -1, 10, 17, 29}), 0, 3).Draw(t, "faults")
	if rapid.Bool().Draw(t, "noFaults") {
		faults = nil
	}
	fatal := 0
	for _, f := range faults {
		if f > 7 {
			fatal++
		}
	}

	n := 0
	var b strings.Builder
	fmt.Fprintf(&b, "cluster %+v; partitions of %v: %v; %d controllers; failures %v", cfg, kafkaTopics, exists, ctls, faults)
	for i, p := range publishers {
		for _, m := range p {
			fmt.Fprintf(&b, "\npublisher %d: %s %s", i, m.topic, clip(fake.MsgString(m.msg)))
			n++
		}
	}
	classes := []string{"publish"}
	if len(faults) > 0 {
		classes = append(classes, "publish-failures")
	}
	return scene{b.String(), n < 2, classes, func() error {
		cl, err := kafkad.Start(cfg)
		if err != nil {
			return nil
		}
		defer cl.Stop()
		for i, p := range exists {
			if p > 0 {
				cl.Topic(kafkaTopics[i], p, 0)
			}
		}
		var cs []*kafkabroker.Controller
		for i := 0; i < ctls; i++ {
			c, err := kafkaCtl(cl.Hosts())
			if err != nil {
				return fmt.Errorf("NewController: %v", err)
			}
			cs = append(cs, c)
		}
		cl.Fail(protocol.Produce, faults...)

		type result struct {
			topic, text string
			err         error
		}
		results := make([][]result, len(publishers))
		if err := within(2*long, "Publish", func() {
			var wg sync.WaitGroup
			for i, p := range publishers {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, m := range p {
						arg := fake.CopyMsg(m.msg)
						text := kafkaText(kafkaRecord(m.msg))
						err := cs[i%len(cs)].Publish(context.Background(), m.topic, arg)
						if fake.MsgString(arg) != fake.MsgString(m.msg) {
							err = errors.New("Publish changed its message")
						}
						results[i] = append(results[i], result{m.topic, text, err})
					}
				}()
			}
			wg.Wait()
		}); err != nil {
			return fmt.Errorf("%v (problems: %v)", err, cl.Problems())
		}

		// A publication that succeeded is stored once, another is not.
		failed := 0
		want := map[string][]string{}
		for _, rs := range results {
			for _, x := range rs {
				if x.err != nil {
					failed++
					if fatal == 0 {
						return fmt.Errorf("Publish: %v", x.err)
					}
					continue
				}
				want[x.topic] = append(want[x.topic], x.text)
			}
		}
		if !cl.Failing() && failed != fatal {
			return fmt.Errorf("%d publications failed, the cluster refused %d", failed, fatal)
		}
		for _, name := range kafkaTopics {
			var got []string
			for _, p := range cl.Records(name) {
				var texts []string
				for _, rec := range p {
					texts = append(texts, kafkaText(rec))
				}
				got = append(got, texts...)
			}
			if err := diffCounts(got, want[name]); err != nil {
				return fmt.Errorf("in topic %s: %v", name, err)
			}
			// Those of one publisher are in order (each publication ends
			// before the next one starts).
			for i, rs := range results {
				var mine []string
				for _, x := range rs {
					if x.topic == name && x.err == nil {
						mine = append(mine, x.text)
					}
				}
				for _, p := range cl.Records(name) {
					at := 0
					for _, rec := range p {
						if at < len(mine) && kafkaText(rec) == mine[at] {
							at++
						}
					}
					if len(cl.Records(name)) == 1 && at < len(mine) {
						return fmt.Errorf("in topic %s: publications of publisher %d are not in order", name, i)
					}
				}
			}
		}
		if !fake.Eventually(fake.Stuck, func() bool { return cl.Open() == 0 }) {
			return fmt.Errorf("%d connections are still open after %d publications", cl.Open(), n)
		}
		if a := cl.Accepted(); a > 100*(n+ctls) {
			return fmt.Errorf("%d connections were made for %d publications", a, n)
		}
		if p := cl.Problems(); len(p) > 0 {
			return fmt.Errorf("requests the cluster cannot read: %v", p)
		}
		return nil
	}}
}

// kafkaSub is a subscriber of a scenario.
type kafkaSub struct {
	Group     string
	Partition int
	Manual    bool
	MaxBytes  int
	// Plan gives what is done with each message: "ack", "nak", "", "ackack",
	// "acknak", "later" (once the subscription is cancelled).
	Plan []string
	// Unread leaves the messages in the subscription until it is cancelled.
	Unread bool
}

func drawKafkaConsume(t *rapid.T) scene {
	cfg := drawCluster(t)
	parts := rapid.IntRange(0, 3).Draw(t, "parts") // 0: not there
	start := int64(0)
	if parts > 0 {
		start = int64(rapid.SampledFrom([]int{0, 0, 7, 1000}).Draw(t, "start"))
	}
	nparts := max(parts, 1)
	perPart := rapid.SampledFrom([]int{3, 10, 10, 40, 90}).Draw(t, "size")
	drawRecs := func(label string, most int) [][]extensions.BrokerMessage {
		out := make([][]extensions.BrokerMessage, nparts)
		for i := range out {
			out[i] = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) extensions.BrokerMessage { return drawKafkaMsg(t, 3000) }), 0, most).Draw(t, label)
		}
		return out
	}
	var before [][]extensions.BrokerMessage
	if parts > 0 {
		before = drawRecs("before", perPart)
	}
	after := drawRecs("after", perPart)

	subs := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) kafkaSub {
		s := kafkaSub{
			Group:    rapid.SampledFrom([]string{"", "", "g", "h"}).Draw(t, "group"),
			Manual:   rapid.Bool().Draw(t, "manual"),
			MaxBytes: rapid.SampledFrom([]int{0, 0, 4000, 1000000}).Draw(t, "maxBytes"),
			Unread:   rapid.IntRange(0, 4).Draw(t, "unread") == 0,
			Plan:     rapid.SliceOfN(rapid.SampledFrom([]string{"ack", "ack", "ack", "nak", "", "ackack", "acknak", "later"}), 1, 6).Draw(t, "plan"),
		}
		if s.Group == "" {
			s.Partition = rapid.IntRange(0, nparts-1).Draw(t, "partition")
		}
		return s
	}), 1, 3).Draw(t, "subs")
	// Failures of requests of subscribers, once messages flow.
	type fault struct {
		API  protocol.ApiKey
		Code int16
	}
	faults := rapid.SliceOfN(rapid.SampledFrom([]fault{
		{protocol.Fetch, -1}, {protocol.Fetch, 6}, {protocol.Fetch, 3}, {protocol.Fetch, 7}, {protocol.Fetch, 56}, {protocol.Fetch, 5}, {protocol.Fetch, 13}, {protocol.Fetch, 9},
		{protocol.ListOffsets, 5}, {protocol.ListOffsets, -1}, {protocol.Metadata, -1}, {protocol.OffsetCommit, 14}, {protocol.OffsetCommit, 7}, {protocol.OffsetCommit, -1},
		{protocol.Heartbeat, 27},
	}), 0, 5).Draw(t, "faults")
	if rapid.IntRange(0, 2).Draw(t, "noFaults") > 0 {
		faults = nil
	}
	outage := 0
	if rapid.IntRange(0, 5).Draw(t, "outage") == 0 {
		outage = rapid.SampledFrom([]int{50, 500, 3000}).Draw(t, "outageMs")
	}
	// The first to be cancelled is so while messages flow, if asked.
	early := rapid.IntRange(0, 3).Draw(t, "early") == 0

	var b strings.Builder
	fmt.Fprintf(&b, "cluster %+v; %d partitions from %d; failures %v; outage %d ms; early cancellation %v", cfg, parts, start, faults, outage, early)
	total := 0
	for i := range after {
		n := 0
		if before != nil {
			n = len(before[i])
		}
		total += n + len(after[i])
		fmt.Fprintf(&b, "\npartition %d: %d records before", i, n)
		for _, m := range after[i] {
			fmt.Fprintf(&b, "\n  %s", clip(fake.MsgString(m)))
		}
	}
	for i, s := range subs {
		fmt.Fprintf(&b, "\nsubscriber %d: %+v", i, s)
	}
	troubled := len(faults) > 0 || outage > 0
	classes := []string{"consume"}
	groups := map[string]int{}
	for _, s := range subs {
		groups[s.Group]++
	}
	for g, n := range groups {
		switch {
		case g != "" && n > 1:
			classes = append(classes, "shared-group")
		case g != "":
			classes = append(classes, "group")
		default:
			classes = append(classes, "no-group")
		}
	}
	if troubled {
		classes = append(classes, "consume-failures")
	}

	return scene{b.String(), total < 2, classes, func() error {
		cl, err := kafkad.Start(cfg)
		if err != nil {
			return nil
		}
		defer cl.Stop()
		const name = "t.x"
		want := make([][]string, nparts)
		put := func(recs [][]extensions.BrokerMessage) {
			for i, ms := range recs {
				for _, m := range ms {
					rec := kafkaRecord(m)
					want[i] = append(want[i], kafkaText(rec))
					cl.Append(name, i, rec)
				}
			}
		}
		if parts > 0 {
			cl.Topic(name, parts, start)
			put(before)
		}

		type live struct {
			kafkaSub
			ctl   *kafkabroker.Controller
			sub   extensions.BrokerChannelSubscription
			rd    *reader
			mu    sync.Mutex
			acked map[string]int // texts settled
			later []*extensions.AcknowledgeableBrokerMessage
			ended int // messages whose handling ended
			err   error
			gone  bool
		}
		var ls []*live
		defer func() {
			for _, l := range ls {
				go l.sub.Cancel(context.Background())
			}
		}()
		members := map[string]int{}
		for i, s := range subs {
			opts := []kafkabroker.ControllerOption{kafkabroker.WithAutoCommit(!s.Manual), kafkabroker.WithGroupID(s.Group), kafkabroker.WithPartition(s.Partition)}
			if s.MaxBytes > 0 {
				opts = append(opts, kafkabroker.WithMaxBytes(s.MaxBytes))
			}
			l := &live{kafkaSub: s, acked: map[string]int{}}
			if l.ctl, err = kafkaCtl(cl.Hosts(), opts...); err != nil {
				return fmt.Errorf("NewController: %v", err)
			}
			if err := within(long, "Subscribe", func() { l.sub, err = l.ctl.Subscribe(context.Background(), name) }); err != nil {
				return err
			}
			if err != nil {
				return fmt.Errorf("Subscribe: %v", err)
			}
			k := 0
			l.rd = read(l.sub, s.Unread, func(m *extensions.AcknowledgeableBrokerMessage) {
				do := l.Plan[k%len(l.Plan)]
				k++
				text := fake.MsgString(m.BrokerMessage)
				l.mu.Lock()
				if do == "later" {
					l.later = append(l.later, m)
				} else if do != "" {
					l.acked[text]++
				}
				l.mu.Unlock()
				if !fake.Returns(long, func() {
					switch do {
					case "ack":
						m.Ack()
					case "nak":
						m.Nak()
					case "ackack":
						m.Ack()
						m.Ack()
					case "acknak":
						m.Ack()
						m.Nak()
					}
				}) {
					l.mu.Lock()
					l.err = fmt.Errorf("subscriber %d: acknowledging a message does not return", i)
					l.mu.Unlock()
				}
				l.mu.Lock()
				l.ended++
				l.mu.Unlock()
			})
			ls = append(ls, l)
			if s.Group != "" {
				members[s.Group]++
				if !fake.Eventually(long, func() bool { return cl.Stable(s.Group, members[s.Group]) }) {
					return fmt.Errorf("the %d subscribers of group %s have not all joined", members[s.Group], s.Group)
				}
			}
		}

		for _, f := range faults {
			cl.Fail(f.API, f.Code)
		}
		put(after)
		if outage > 0 {
			cl.Down()
			time.Sleep(time.Duration(outage) * time.Millisecond)
			cl.Up()
		}
		firstGone := -1
		if early {
			firstGone = 0
		}

		// check gives what is wrong now: nil when everything arrived.
		check := func() error {
			got := map[string][][]string{}
			lost := map[string]int{}
			for i, l := range ls {
				l.mu.Lock()
				err := l.err
				l.mu.Unlock()
				if err != nil {
					return err
				}
				if l.Unread && !l.gone {
					continue
				}
				texts, err := l.rd.list()
				if err != nil {
					return fmt.Errorf("subscriber %d: %v", i, err)
				}
				if l.Group == "" && l.gone {
					if err := prefix(texts, want[l.Partition]); err != nil {
						return fmt.Errorf("subscriber %d: %v", i, err)
					}
					continue
				}
				if l.gone && !l.Manual {
					lost[l.Group]++ // what was committed and not yet transmitted
				}
				if l.Group == "" {
					if err := prefix(texts, want[l.Partition]); err != nil {
						return fmt.Errorf("subscriber %d: %v", i, err)
					}
					if len(texts) < len(want[l.Partition]) {
						return fmt.Errorf("subscriber %d received %d messages out of %d", i, len(texts), len(want[l.Partition]))
					}
					continue
				}
				got[l.Group] = append(got[l.Group], texts)
			}
			for g, lists := range got {
				if len(lists) < groups[g] || members[g] == 0 {
					continue // others have the rest, or nobody is left to read it
				}
				var all, expected []string
				for _, x := range lists {
					all = append(all, x...)
				}
				for _, x := range want {
					expected = append(expected, x...)
				}
				a, e := counts(all), counts(expected)
				for k, n := range e {
					if missing := n - a[k]; missing > 0 && missing <= lost[g] {
						lost[g] -= missing
					} else if missing > 0 {
						return fmt.Errorf("group %s: %s was received %d times, want %d", g, clip(k), a[k], n)
					}
				}
				exact := !troubled && groups[g] == 1
				for k, n := range a {
					if e[k] == 0 || exact && n > e[k] {
						return fmt.Errorf("group %s: %s was received %d times, want %d", g, clip(k), n, e[k])
					}
				}
				if exact && nparts == 1 {
					if err := prefix(lists[0], want[0]); err != nil {
						return fmt.Errorf("group %s: %v", g, err)
					}
				}
			}
			return nil
		}
		cancel := func(i int) error {
			l := ls[i]
			if l.gone {
				return nil
			}
			l.gone = true
			if err := within(long, fmt.Sprintf("cancellation of subscriber %d", i), func() { l.sub.Cancel(context.Background()) }); err != nil {
				return err
			}
			l.rd.open()
			if !fake.Eventually(fake.Stuck, l.rd.done) {
				return fmt.Errorf("messages of subscriber %d do not end with its cancellation", i)
			}
			if l.Group != "" {
				members[l.Group]--
				// (the library leaves it without connection after a failure)
				if !troubled && !fake.Eventually(fake.Stuck, func() bool { return cl.Members(l.Group) == members[l.Group] }) {
					return fmt.Errorf("subscriber %d did not leave its group: %d members are left, want %d", i, cl.Members(l.Group), members[l.Group])
				}
			}
			l.mu.Lock()
			later := l.later
			for _, m := range later {
				l.acked[fake.MsgString(m.BrokerMessage)]++
			}
			l.mu.Unlock()
			for _, m := range later {
				if err := within(long, fmt.Sprintf("acknowledging a message of subscriber %d after its cancellation", i), m.Ack); err != nil {
					return err
				}
			}
			return nil
		}
		if early {
			if err := cancel(firstGone); err != nil {
				return err
			}
		}
		// A group may take several seconds to join again after a failure.
		var last error
		if !fake.Eventually(long, func() bool { last = check(); return last == nil }) {
			return fmt.Errorf("%v (commits %v, problems %v)", last, cl.Commits(), cl.Problems())
		}
		for i, l := range ls {
			// (what is being acknowledged when a subscription is cancelled may not be committed)
			if !l.Unread && !l.gone && !fake.Eventually(2*long, func() bool {
				l.mu.Lock()
				defer l.mu.Unlock()
				return l.ended == l.rd.len()
			}) {
				return fmt.Errorf("subscriber %d is still acknowledging", i)
			}
			if err := cancel(i); err != nil {
				return err
			}
		}

		// Commits are those of what was received and, with manual commits,
		// settled.
		settled := map[string]map[string]bool{}
		manual := map[string]bool{}
		auto := map[string]bool{}
		for _, l := range ls {
			if settled[l.Group] == nil {
				settled[l.Group] = map[string]bool{}
			}
			if l.Manual {
				manual[l.Group] = true
			} else {
				auto[l.Group] = true
			}
			l.mu.Lock()
			for k := range l.acked {
				settled[l.Group][k] = true
			}
			l.mu.Unlock()
		}
		highest := map[string]int64{}
		for _, c := range cl.Commits() {
			if c.Group == "" || c.Topic != name {
				return fmt.Errorf("unexpected commit %+v", c)
			}
			at := c.Offset - 1 - start
			if at < 0 || at >= int64(len(want[c.Partition])) {
				return fmt.Errorf("commit %+v is out of the log", c)
			}
			if !auto[c.Group] && !settled[c.Group][want[c.Partition][at]] {
				return fmt.Errorf("commit %+v: the message was not acknowledged", c)
			}
			if c.Code == 0 {
				k := fmt.Sprintf("%s/%d", c.Group, c.Partition)
				highest[k] = max(highest[k], c.Offset)
			}
		}
		if !troubled {
			for _, l := range ls {
				if l.Group == "" || early && l == ls[0] || groups[l.Group] > 1 {
					continue
				}
				texts, _ := l.rd.list()
				for p, log := range want {
					for k := len(log) - 1; k >= 0; k-- {
						if counts(log)[log[k]] > 1 {
							continue // which one it is cannot be told
						}
						seen := counts(texts)[log[k]] > 0
						l.mu.Lock()
						ok := seen && (!l.Manual || l.acked[log[k]] > 0)
						for _, m := range l.later {
							if fake.MsgString(m.BrokerMessage) == log[k] {
								ok = false // acknowledged too late to be committed
							}
						}
						l.mu.Unlock()
						if l.Unread {
							ok = false // likewise, or read when it is cancelled
						}
						if ok && highest[fmt.Sprintf("%s/%d", l.Group, p)] < start+int64(k)+1 {
							return fmt.Errorf("message %d of partition %d is settled and not committed (commits %v)", k, p, cl.Commits())
						}
					}
				}
			}
		}

		// Nothing is read any more.
		if !fake.Eventually(fake.Stuck, func() bool { return cl.Open() == 0 }) {
			return fmt.Errorf("%d connections are still open after the cancellations", cl.Open())
		}
		for _, f := range cl.Fetches() {
			sizes := map[int]bool{}
			for _, s := range subs {
				n := s.MaxBytes
				if n == 0 {
					n = 10e6
				}
				sizes[n] = true
			}
			ok := false
			for n := range sizes {
				ok = ok || int(f.MaxBytes) >= n && int(f.MaxBytes) < n+1000
			}
			if !ok {
				return fmt.Errorf("fetch of %d bytes, want one of %v", f.MaxBytes, sizes)
			}
		}
		if p := cl.Problems(); len(p) > 0 {
			return fmt.Errorf("requests the cluster cannot read: %v", p)
		}
		return nil
	}}
}

var kafkaCert = sync.OnceValues(func() (*tls.Config, *tls.Config) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "kafka"}, IsCA: true, BasicConstraintsValid: true,
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		IPAddresses: []net.IP{net.ParseIP("127.0.0.1")},
	}
	der, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	leaf, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	pool := x509.NewCertPool()
	pool.AddCert(leaf)
	return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}, &tls.Config{RootCAs: pool}
})

func drawKafkaOptions(t *rapid.T) scene {
	switch rapid.IntRange(0, 5).Draw(t, "kind") {
	case 0:
		return drawKafkaInvalid(t)
	case 1:
		return drawKafkaExpired(t)
	}
	// Clusters with and without security, and controllers that suit them or not.
	type security struct {
		TLS  bool
		Pass string // of user "u"; none if empty
	}
	drawSec := func(t *rapid.T) security {
		return security{rapid.Bool().Draw(t, "tls"), rapid.SampledFrom([]string{"", "p", "q"}).Draw(t, "pass")}
	}
	clusters := rapid.SliceOfN(rapid.Custom(drawSec), 1, 2).Draw(t, "clusters")
	type controller struct {
		Cluster int
		Sec     security
		Test    bool
		Use     bool
	}
	ctls := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) controller {
		c := controller{Cluster: rapid.IntRange(0, len(clusters)-1).Draw(t, "cluster"), Test: rapid.IntRange(0, 2).Draw(t, "test") > 0, Use: rapid.IntRange(0, 2).Draw(t, "use") > 0}
		if rapid.IntRange(0, 3).Draw(t, "suits") > 0 {
			c.Sec = clusters[c.Cluster]
		} else {
			c.Sec = drawSec(t)
		}
		return c
	}), 1, 4).Draw(t, "controllers")
	text := fmt.Sprintf("clusters %+v; controllers %+v", clusters, ctls)
	return scene{text, false, []string{"security"}, func() error {
		server, client := kafkaCert()
		var cls []*kafkad.Cluster
		for _, s := range clusters {
			cfg := kafkad.Config{}
			if s.TLS {
				cfg.TLS = server
			}
			if s.Pass != "" {
				cfg.User, cfg.Pass = "u", s.Pass
			}
			cl, err := kafkad.Start(cfg)
			if err != nil {
				return nil
			}
			defer cl.Stop()
			cl.Topic("t", 1, 0)
			cl.Append("t", 0, kafkad.Record{Value: []byte("v")})
			cls = append(cls, cl)
		}
		type made struct {
			c   *kafkabroker.Controller
			err error
		}
		var all []made
		for i, c := range ctls {
			opts := []kafkabroker.ControllerOption{kafkabroker.WithConnectionTest(c.Test)}
			if c.Sec.TLS {
				opts = append(opts, kafkabroker.WithTLS(client.Clone()))
			}
			if c.Sec.Pass != "" {
				opts = append(opts, kafkabroker.WithSasl(plain.Mechanism{Username: "u", Password: c.Sec.Pass}))
			}
			var m made
			if err := within(long, "NewController", func() { m.c, m.err = kafkaCtl(cls[c.Cluster].Hosts(), opts...) }); err != nil {
				return err
			}
			suits := c.Sec == clusters[c.Cluster]
			switch {
			case c.Test && !suits && m.err == nil:
				return fmt.Errorf("controller %d was created, the cluster does not take its connections", i)
			case (suits || !c.Test) && m.err != nil:
				return fmt.Errorf("controller %d: NewController: %v", i, m.err)
			case m.err == nil && m.c == nil:
				return fmt.Errorf("controller %d: nil controller", i)
			}
			all = append(all, m)
		}
		// All of them exist when they are used.
		errs := make([]error, len(ctls))
		var wg sync.WaitGroup
		for i, c := range ctls {
			if all[i].err != nil || !c.Use {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				suits := c.Sec == clusters[c.Cluster]
				ctx, stop := context.WithTimeout(context.Background(), 5*time.Second)
				if suits {
					ctx, stop = context.WithTimeout(context.Background(), long)
				}
				defer stop()
				var err error
				pl := []byte(fmt.Sprintf("controller %d", i))
				if e := within(long, "Publish", func() { err = all[i].c.Publish(ctx, "t", extensions.BrokerMessage{Payload: pl}) }); e != nil {
					errs[i] = e
					return
				}
				stored := 0
				for _, rec := range cls[c.Cluster].Records("t")[0] {
					if string(rec.Value) == string(pl) {
						stored++
					}
				}
				if suits && (err != nil || stored != 1) {
					errs[i] = fmt.Errorf("controller %d: Publish: %v, stored %d times", i, err, stored)
					return
				}
				if !suits && (err == nil || stored != 0) {
					errs[i] = fmt.Errorf("controller %d does not suit its cluster: Publish: %v, stored %d times", i, err, stored)
					return
				}
				var sub extensions.BrokerChannelSubscription
				if e := within(long, "Subscribe", func() { sub, err = all[i].c.Subscribe(context.Background(), "t") }); e != nil {
					errs[i] = e
					return
				}
				if suits != (err == nil) {
					errs[i] = fmt.Errorf("controller %d: Subscribe: %v (suits the cluster: %v)", i, err, suits)
					return
				}
				if err != nil {
					return
				}
				select {
				case m := <-sub.MessagesChannel():
					if string(m.Payload) != "v" {
						errs[i] = fmt.Errorf("controller %d received %q, want %q", i, m.Payload, "v")
					}
				case <-time.After(long):
					errs[i] = fmt.Errorf("controller %d receives nothing", i)
				}
				if e := within(long, "Cancel", func() { sub.Cancel(context.Background()) }); e != nil && errs[i] == nil {
					errs[i] = e
				}
			}()
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		for i, cl := range cls {
			if !fake.Eventually(fake.Stuck, func() bool { return cl.Open() == 0 }) {
				return fmt.Errorf("%d connections to cluster %d are still open", cl.Open(), i)
			}
			// Credentials go to the cluster of their controller only.
			ok := map[string]bool{"none": true}
			for _, c := range ctls {
				if c.Cluster == i {
					ok["u:"+c.Sec.Pass] = true
				}
			}
			for _, a := range cl.Auths() {
				if !ok[a] {
					return fmt.Errorf("cluster %d was given the credentials %s, which none of its controllers has", i, a)
				}
			}
		}
		return nil
	}}
}

// drawKafkaInvalid draws configurations that cannot work.
func drawKafkaInvalid(t *rapid.T) scene {
	kind := rapid.SampledFrom([]string{"no hosts", "no hosts, no test", "group and partition", "negative size", "negative partition", "nobody there"}).Draw(t, "invalid")
	return scene{"invalid configuration: " + kind, false, []string{"invalid"}, func() error {
		cl, err := kafkad.Start(kafkad.Config{})
		if err != nil {
			return nil
		}
		defer cl.Stop()
		cl.Topic("t", 2, 0)
		hosts := cl.Hosts()
		var opts []kafkabroker.ControllerOption
		switch kind {
		case "no hosts":
			hosts = nil
		case "no hosts, no test":
			hosts = []string{}
			opts = append(opts, kafkabroker.WithConnectionTest(false))
		case "group and partition":
			opts = append(opts, kafkabroker.WithGroupID("g"), kafkabroker.WithPartition(1))
		case "negative size":
			opts = append(opts, kafkabroker.WithMaxBytes(-1))
		case "negative partition":
			opts = append(opts, kafkabroker.WithPartition(-1))
		case "nobody there":
			cl.Stop()
		}
		var c *kafkabroker.Controller
		if e := within(long, "NewController", func() { c, err = kafkaCtl(hosts, opts...) }); e != nil {
			return e
		}
		if err != nil {
			if strings.HasPrefix(err.Error(), "panic") {
				return fmt.Errorf("NewController: %v", err)
			}
			return nil
		}
		var sub extensions.BrokerChannelSubscription
		if e := within(long, "Subscribe", func() {
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("panic: %v", p)
				}
			}()
			sub, err = c.Subscribe(context.Background(), "t")
		}); e != nil {
			return e
		}
		if err == nil {
			sub.Cancel(context.Background())
			return errors.New("an invalid configuration is accepted")
		}
		if strings.HasPrefix(err.Error(), "panic") {
			return fmt.Errorf("Subscribe: %v", err)
		}
		if !fake.Eventually(fake.Stuck, func() bool { return cl.Open() == 0 }) {
			return fmt.Errorf("%d connections are still open", cl.Open())
		}
		return nil
	}}
}

// drawKafkaExpired draws calls whose context ends.
func drawKafkaExpired(t *rapid.T) scene {
	kind := rapid.SampledFrom([]string{"unknown topic", "cancelled", "no answer"}).Draw(t, "expired")
	subscribe := rapid.Bool().Draw(t, "subscribe")
	if kind == "cancelled" {
		subscribe = false
	}
	ms := rapid.SampledFrom([]int{0, 100, 1000}).Draw(t, "ms")
	text := fmt.Sprintf("context that ends after %d ms: %s (subscribe: %v)", ms, kind, subscribe)
	return scene{text, false, []string{"context"}, func() error {
		cfg := kafkad.Config{}
		if kind == "unknown topic" {
			cfg.Delay = time.Hour // never appears
		}
		cl, err := kafkad.Start(cfg)
		if err != nil {
			return nil
		}
		defer cl.Stop()
		c, err := kafkaCtl(cl.Hosts())
		if err != nil {
			return fmt.Errorf("NewController: %v", err)
		}
		ctx, stop := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond)
		defer stop()
		switch kind {
		case "cancelled":
			cl.Topic("t", 1, 0)
			stop()
		case "no answer":
			cl.Down()
		}
		what := "Publish"
		f := func() { err = c.Publish(ctx, "t", extensions.BrokerMessage{Payload: []byte("v")}) }
		if subscribe {
			what = "Subscribe"
			f = func() { _, err = c.Subscribe(ctx, "t") }
		}
		if e := within(fake.Stuck, what+" with a context that ended", f); e != nil {
			return e
		}
		if err == nil {
			return fmt.Errorf("%s with a context that ended: no error", what)
		}
		if n := cl.Records("t"); len(n) > 0 && len(n[0]) > 0 {
			return fmt.Errorf("%s: %v, and the message is stored", what, err)
		}
		return nil
	}}
}
