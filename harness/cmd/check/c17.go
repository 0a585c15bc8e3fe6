package main

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	natsbroker "github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/nats"
	"github.com/nats-io/nats.go"
	"pgregory.net/rapid"

	"verif/internal/fake"
	"verif/internal/natsd"
	"verif/internal/rep"
)

func init() { checks["C17"] = c17 }

// reader reads a subscription, once its gate is open, and keeps what arrives.
type reader struct {
	mu     sync.Mutex
	msgs   []extensions.BrokerMessage
	texts  []string
	closed chan struct{}
	gate   chan struct{}
	once   sync.Once
	keep   func(m *extensions.AcknowledgeableBrokerMessage)
}

func read(sub extensions.BrokerChannelSubscription, gated bool, each func(*extensions.AcknowledgeableBrokerMessage)) *reader {
	r := &reader{closed: make(chan struct{}), gate: make(chan struct{})}
	if !gated {
		r.open()
	}
	go func() {
		defer close(r.closed)
		<-r.gate
		for m := range sub.MessagesChannel() {
			m := m
			r.mu.Lock()
			r.msgs = append(r.msgs, m.BrokerMessage)
			r.texts = append(r.texts, fake.MsgString(m.BrokerMessage))
			r.mu.Unlock()
			if each != nil {
				each(&m)
			}
		}
	}()
	return r
}

func (r *reader) open() { r.once.Do(func() { close(r.gate) }) }

func (r *reader) len() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.texts) }

// list gives what was received; an error when a message changed afterwards.
func (r *reader) list() ([]string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i, m := range r.msgs {
		if s := fake.MsgString(m); s != r.texts[i] {
			return nil, fmt.Errorf("message %d was %s when received and %s later", i, clip(r.texts[i]), clip(s))
		}
	}
	return append([]string(nil), r.texts...), nil
}

func (r *reader) done() bool {
	select {
	case <-r.closed:
		return true
	default:
		return false
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + fmt.Sprintf("… (%d bytes)", len(s))
	}
	return s
}

// prefix says if a is the beginning of b, and else where it is not.
func prefix(a, b []string) error {
	for i, x := range a {
		if i >= len(b) {
			return fmt.Errorf("message %d, %s, was never sent to the subscription (%d were)", i, clip(x), len(b))
		}
		if x != b[i] {
			return fmt.Errorf("message %d is %s, want %s", i, clip(x), clip(b[i]))
		}
	}
	return nil
}

var natsHeaderNames = []string{"correlationId", "Correlation-ID", "correlation-id", "application-version", "x", "X", "Content-Type", "a_b", "h!#$%&'*+.^`|~9", "nats-Expected"}

// drawNatsValue draws a header value that NATS can carry.
func drawNatsValue(t *rapid.T) []byte {
	switch rapid.IntRange(0, 5).Draw(t, "hvKind") {
	case 0:
		return []byte(rapid.SampledFrom([]string{"", "1", "true", "a b", "é", "x:y", "{\"a\":1}", "\x00\x01", "1.0.0", "2024-01-02T03:04:05Z"}).Draw(t, "hv"))
	case 1:
		b := rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "hvb")
		for i, x := range b {
			if x == '\r' || x == '\n' || (i == 0 || i == len(b)-1) && (x <= ' ' || x >= 0x7f) {
				b[i] = 'z'
			}
		}
		return b
	default:
		return []byte(rapid.StringMatching(`[a-zA-Z0-9\-]{0,8}`).Draw(t, "hvs"))
	}
}

func drawPayload(t *rapid.T, big int) []byte {
	switch rapid.IntRange(0, 9).Draw(t, "plKind") {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte(rapid.SampledFrom([]string{"\r\n", "MSG a 1 3\r\nabc\r\n", "PING\r\n", "NATS/1.0\r\n\r\n", "\x00", "null", "{\"a\":\"é\"}", strings.Repeat("x", 4096)}).Draw(t, "pls"))
	case 3:
		n := rapid.IntRange(0, big).Draw(t, "plBig")
		b := make([]byte, n)
		rand.New(rand.NewSource(int64(n))).Read(b)
		return b
	default:
		return rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "pl")
	}
}

func drawNatsMsg(t *rapid.T, big int) extensions.BrokerMessage {
	m := extensions.BrokerMessage{}
	if n := rapid.IntRange(-1, 4).Draw(t, "nh"); n >= 0 {
		m.Headers = map[string][]byte{}
		for i := 0; i < n; i++ {
			m.Headers[rapid.SampledFrom(natsHeaderNames).Draw(t, "hn")] = drawNatsValue(t)
		}
	}
	m.Payload = drawPayload(t, big)
	return m
}

// sent describes a message that the server saw.
func sent(m natsd.Msg) string {
	b := extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: m.Payload}
	for k, v := range m.Fields() {
		b.Headers[k] = []byte(strings.Join(v, "\x00AND\x00"))
	}
	return fake.MsgString(b)
}

func sentAll(ms []natsd.Msg) []string {
	out := make([]string, len(ms))
	for i, m := range ms {
		out[i] = sent(m)
	}
	return out
}

// rawMsg makes the protocol form of a message.
func rawMsg(subject string, m extensions.BrokerMessage) natsd.Msg {
	out := natsd.Msg{Subject: subject, Payload: m.Payload}
	if len(m.Headers) > 0 {
		h := "NATS/1.0\r\n"
		for k, v := range m.Headers {
			h += k + ": " + string(v) + "\r\n"
		}
		out.Header = []byte(h + "\r\n")
	}
	return out
}

var natsSubjects = []string{"a", "a.b", "b", "a.b.c", "c-1_x"}
var natsPatterns = append([]string{"a.*", "a.>", ">"}, natsSubjects...)

func c17(r *rep.Run) {
	r.Rule("history: generated histories of new controllers (options), subscriptions (subjects, wildcards, queue groups, read or not), publications, messages from others, cancellations and closings against a fake server that records the protocol: what the server got and sent is compared with what was published and received; non-trivial = at least 2 received messages and 5 operations. race: the same operations from several goroutines; non-trivial = all. Distinctness by the history")
	r.Assume("the fake server orders and routes messages as a NATS server does; header names are tokens and values have no line breaks nor outer white space (NATS cannot carry others)")
	ctx := context.Background()

	r.Rapid("history", r.N(1500, 25000), func(t *rapid.T) {
		srv, err := natsd.Start(rapid.Uint64().Draw(t, "route"))
		if err != nil {
			t.Skip(err)
		}
		defer srv.Stop()
		var history []string
		rec := func(f string, a ...any) { history = append(history, clip(fmt.Sprintf(f, a...))) }
		fail := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s\nhistory:\n%s", fmt.Sprintf(f, a...), strings.Join(history, "\n"))
		}
		type ctl struct {
			c      *natsbroker.Controller
			conn   int
			queue  string
			closed bool
			nsubs  int
		}
		type sub struct {
			ctl       *ctl
			s         extensions.BrokerChannelSubscription
			srv       *natsd.Sub
			rd        *reader
			cancelled bool
		}
		var ctls []*ctl
		var subs []*sub
		defer func() {
			for _, s := range subs {
				s.rd.open()
			}
			for _, c := range ctls {
				c.c.Close()
			}
		}()
		newCtl := func() {
			var opts []natsbroker.ControllerOption
			c := &ctl{}
			switch rapid.IntRange(0, 3).Draw(t, "queue") {
			case 0, 1:
				c.queue = rapid.SampledFrom([]string{"q1", "q2", "Q-1.x"}).Draw(t, "qname")
				opts = append(opts, natsbroker.WithQueueGroup(c.queue))
			}
			if rapid.Bool().Draw(t, "logger") {
				opts = append(opts, natsbroker.WithLogger(&fake.Logger{}))
			}
			if rapid.Bool().Draw(t, "conn") {
				opts = append(opts, natsbroker.WithConnectionOpts(nats.Name("n"), nats.ReconnectWait(time.Millisecond)))
			}
			rapid.Permutation(opts).Draw(t, "opts")
			before := srv.Accepted()
			nc, err := natsbroker.NewController(srv.URL(), opts...)
			if err != nil {
				fail("NewController: %v", err)
			}
			if n := srv.Accepted(); n != before+1 {
				fail("a new controller made %d connections, want 1", n-before)
			}
			c.c, c.conn = nc, before+1
			ctls = append(ctls, c)
			rec("controller %d queue %q", len(ctls)-1, c.queue)
		}
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nctl"); i < n; i++ {
			newCtl()
		}
		settled := func(s *sub) bool { return s.rd.len() >= len(s.srv.Delivered()) }
		compare := func(i int, s *sub, all bool) {
			got, err := s.rd.list()
			if err != nil {
				fail("subscription %d: %v", i, err)
			}
			want := sentAll(s.srv.Delivered())
			if err := prefix(got, want); err != nil {
				fail("subscription %d to %q: %v", i, s.srv.Subject, err)
			}
			if all && len(got) != len(want) {
				fail("subscription %d to %q got %d of the %d messages sent to it", i, s.srv.Subject, len(got), len(want))
			}
		}
		pubs, received, ops := 0, 0, 0
		nops := rapid.IntRange(2, 24).Draw(t, "nops")
		var classes []string
		for ; ops < nops; ops++ {
			ci := rapid.IntRange(0, len(ctls)-1).Draw(t, "ctl")
			c := ctls[ci]
			switch k := rapid.IntRange(0, 13).Draw(t, "op"); {
			case k <= 3: // subscribe
				subject := rapid.SampledFrom(natsPatterns).Draw(t, "pattern")
				gated := rapid.IntRange(0, 4).Draw(t, "gated") == 0
				s, err := c.c.Subscribe(ctx, subject)
				rec("%d: subscribe %q on controller %d gated=%v: %v", len(subs), subject, ci, gated, err)
				if c.closed {
					if err == nil {
						fail("subscribing with a closed controller succeeded")
					}
					continue
				}
				if err != nil {
					fail("Subscribe: %v", err)
				}
				on := srv.Subs(c.conn)
				if len(on) != c.nsubs+1 {
					fail("the server has got %d subscriptions of the controller when Subscribe returned, want %d", len(on), c.nsubs+1)
				}
				c.nsubs++
				x := on[len(on)-1]
				if x.Subject != subject || x.Queue != c.queue {
					fail("the server has a subscription to %q in queue group %q, want %q and %q", x.Subject, x.Queue, subject, c.queue)
				}
				settle := rapid.IntRange(0, 2).Draw(t, "settle")
				subs = append(subs, &sub{ctl: c, s: s, srv: x, rd: read(s, gated, func(m *extensions.AcknowledgeableBrokerMessage) {
					switch settle {
					case 1:
						m.Ack()
					case 2:
						m.Nak()
					}
				})})
				if gated {
					classes = append(classes, "unread")
				}
			case k <= 7: // publish
				subject := rapid.SampledFrom(natsSubjects).Draw(t, "subject")
				n := 1
				if rapid.IntRange(0, 9).Draw(t, "burst") == 0 {
					n = rapid.IntRange(2, 150).Draw(t, "nburst")
					classes = append(classes, "burst")
				}
				m := drawNatsMsg(t, 1<<16)
				for i := 0; i < n; i++ {
					if n > 1 {
						m.Payload = []byte(fmt.Sprintf("burst %d", i))
					}
					want := fake.MsgString(m)
					var err error
					if !fake.Returns(fake.Stuck, func() { err = c.c.Publish(ctx, subject, m) }) {
						fail("Publish does not return")
					}
					rec("publish %q on controller %d %s: %v", subject, ci, want, err)
					if fake.MsgString(m) != want {
						fail("Publish has changed the message to %s", clip(fake.MsgString(m)))
					}
					if c.closed {
						if err == nil {
							fail("publishing with a closed controller succeeded")
						}
						break
					}
					if err != nil {
						fail("Publish: %v", err)
					}
					all := srv.Pubs()
					if len(all) != pubs+1 {
						fail("the server has got %d messages when Publish returned, want %d", len(all), pubs+1)
					}
					pubs++
					p := all[pubs-1]
					if p.Subject != subject || p.Conn != c.conn || sent(p) != want {
						fail("published %s on %q, the server got %s on %q", clip(want), subject, clip(sent(p)), p.Subject)
					}
				}
			case k <= 9: // from someone else
				subject := rapid.SampledFrom(natsSubjects).Draw(t, "subject")
				m := drawNatsMsg(t, 1<<18)
				rec("inject on %q %s", subject, fake.MsgString(m))
				srv.Inject(rawMsg(subject, m))
			case k == 10: // cancel
				if len(subs) == 0 {
					continue
				}
				i := rapid.IntRange(0, len(subs)-1).Draw(t, "sub")
				s := subs[i]
				if s.cancelled {
					continue
				}
				quiet := rapid.Bool().Draw(t, "settledFirst")
				rec("cancel %d settled first=%v", i, quiet)
				if quiet && !s.ctl.closed {
					s.rd.open()
					if !fake.Eventually(fake.Stuck, func() bool { return settled(s) }) {
						compare(i, s, true)
					}
				}
				if !fake.Returns(fake.Stuck, func() { s.s.Cancel(ctx) }) {
					fail("Cancel does not return")
				}
				s.cancelled = true
				if !fake.Eventually(fake.Stuck, func() bool { return !s.srv.Active() }) {
					fail("the server still has subscription %d after its cancellation", i)
				}
				classes = append(classes, "cancel")
				s.rd.open()
				if !fake.Eventually(fake.Stuck, s.rd.done) {
					fail("the messages of subscription %d never end after its cancellation", i)
				}
				compare(i, s, quiet && !s.ctl.closed)
			case k == 11: // let an unread subscription be read
				for i, s := range subs {
					s.rd.open()
					if !s.cancelled && !s.ctl.closed && !fake.Eventually(fake.Stuck, func() bool { return settled(s) }) {
						compare(i, s, true)
					}
				}
				rec("everything is read")
			case k == 12: // the others get on, whatever is unread
				for i, s := range subs {
					select {
					case <-s.rd.gate:
						if !s.cancelled && !s.ctl.closed && !fake.Eventually(fake.Stuck, func() bool { return settled(s) }) {
							compare(i, s, true)
						}
					default:
					}
				}
			default:
				if c.closed || rapid.IntRange(0, 2).Draw(t, "close") > 0 {
					continue
				}
				if !fake.Returns(fake.Stuck, c.c.Close) {
					fail("Close does not return")
				}
				c.closed = true
				rec("close %d", ci)
				if !fake.Eventually(fake.Stuck, func() bool { return !srv.Open(c.conn) }) {
					fail("the connection is still open after Close")
				}
				classes = append(classes, "close")
			}
		}
		for i, s := range subs {
			s.rd.open()
			if s.cancelled {
				continue
			}
			live := !s.ctl.closed
			if live && !fake.Eventually(fake.Stuck, func() bool { return settled(s) }) {
				compare(i, s, true)
			}
			if !fake.Returns(fake.Stuck, func() { s.s.Cancel(ctx) }) {
				fail("Cancel does not return")
			}
			if !fake.Eventually(fake.Stuck, func() bool { return s.rd.done() && !s.srv.Active() }) {
				fail("subscription %d goes on after its cancellation", i)
			}
			compare(i, s, live)
		}
		for i, s := range subs {
			compare(i, s, false)
			received += s.rd.len()
		}
		if n := srv.NPubs(); n != pubs {
			fail("the server got %d messages, %d were published", n, pubs)
		}
		key := ""
		if received >= 2 && ops >= 5 {
			key = strings.Join(history, "\n")
		}
		for _, c := range ctls {
			if c.queue != "" {
				classes = append(classes, "queue group")
				break
			}
		}
		r.Case(key, classes...)
		if key != "" {
			r.Sample("history", history)
		}
	})

	r.Rapid("race", r.N(300, 6000), func(t *rapid.T) { natsRace(r, t) })
}

// natsRace runs subscribers, publishers and closings at the same time.
func natsRace(r *rep.Run, t *rapid.T) {
	srv, err := natsd.Start(rapid.Uint64().Draw(t, "route"))
	if err != nil {
		t.Skip(err)
	}
	defer srv.Stop()
	ctx := context.Background()
	nctl := rapid.IntRange(1, 3).Draw(t, "nctl")
	ctls := make([]*natsbroker.Controller, nctl)
	for i := range ctls {
		if ctls[i], err = natsbroker.NewController(srv.URL()); err != nil {
			t.Fatalf("NewController: %v", err)
		}
	}
	closing := rapid.IntRange(-1, nctl-1).Draw(t, "closing")
	closeAt := rapid.IntRange(0, 40).Draw(t, "closeAt")
	type plan struct{ ctl, n, yield int }
	var mu sync.Mutex
	var bad []string
	report := func(f string, a ...any) { mu.Lock(); bad = append(bad, fmt.Sprintf(f, a...)); mu.Unlock() }
	var wg sync.WaitGroup
	pause := func(n int) {
		if n > 0 {
			time.Sleep(time.Duration(n*7%40) * time.Microsecond)
		}
	}
	var published sync.Map // conn -> messages
	type run struct {
		ctl  int
		pat  string
		list [][]string
		ends []bool
	}
	nsub := rapid.IntRange(1, 4).Draw(t, "nsub")
	runs := make([]*run, nsub)
	desc := fmt.Sprintf("%d controllers, close %d at %d;", nctl, closing, closeAt)
	for i := 0; i < nsub; i++ {
		p := plan{rapid.IntRange(0, nctl-1).Draw(t, "sctl"), rapid.IntRange(1, 6).Draw(t, "sn"), rapid.IntRange(0, 40).Draw(t, "sy")}
		take := rapid.IntRange(0, 20).Draw(t, "take")
		x := &run{ctl: p.ctl, pat: fmt.Sprintf("s.%d.*", i)}
		runs[i] = x
		desc += fmt.Sprintf(" subscriber %+v take %d;", p, take)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < p.n; k++ {
				s, err := ctls[p.ctl].Subscribe(ctx, x.pat)
				if err != nil {
					if closing != p.ctl {
						report("Subscribe: %v", err)
					}
					return
				}
				var got []string
				gotAll := make(chan struct{})
				enough := make(chan struct{})
				go func() {
					defer close(gotAll)
					for m := range s.MessagesChannel() {
						m.Ack()
						got = append(got, fake.MsgString(m.BrokerMessage))
						if len(got) == take {
							close(enough)
						}
					}
				}()
				select {
				case <-enough:
				case <-time.After(time.Duration(50*p.yield) * time.Microsecond):
				}
				if !fake.Returns(fake.Stuck, func() { s.Cancel(ctx) }) {
					report("Cancel does not return")
					return
				}
				select {
				case <-gotAll:
				case <-time.After(fake.Stuck):
					report("the messages do not end after Cancel")
					return
				}
				x.list = append(x.list, got)
			}
		}()
	}
	npub := rapid.IntRange(1, 4).Draw(t, "npub")
	for i := 0; i < npub; i++ {
		i := i
		p := plan{rapid.IntRange(0, nctl-1).Draw(t, "pctl"), rapid.IntRange(1, 60).Draw(t, "pn"), rapid.IntRange(0, 40).Draw(t, "py")}
		desc += fmt.Sprintf(" publisher %+v;", p)
		wg.Add(1)
		go func() {
			defer wg.Done()
			var ok []string
			for k := 0; k < p.n; k++ {
				m := extensions.BrokerMessage{Headers: map[string][]byte{"p": []byte(fmt.Sprint(i)), "k": []byte(fmt.Sprint(k))}, Payload: []byte(fmt.Sprintf("%d-%d", i, k))}
				var err error
				if !fake.Returns(fake.Stuck, func() { err = ctls[p.ctl].Publish(ctx, fmt.Sprintf("s.%d.p%d", k%nsub, i), m) }) {
					report("Publish does not return")
					return
				}
				if err != nil {
					if closing != p.ctl {
						report("Publish: %v", err)
					}
					return
				}
				ok = append(ok, fake.MsgString(m))
				pause(p.yield)
			}
			published.Store(i, ok)
		}()
	}
	if closing >= 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(closeAt*20) * time.Microsecond)
			if !fake.Returns(fake.Stuck, ctls[closing].Close) {
				report("Close does not return")
			}
		}()
	}
	if !fake.Returns(3*fake.Stuck, wg.Wait) {
		report("the goroutines do not end")
	}
	mu.Lock()
	defer mu.Unlock()
	if len(bad) > 0 {
		t.Fatalf("%s\n%s", strings.Join(bad, "\n"), desc)
	}
	// what each subscription got is the beginning of what it was sent
	received := 0
	for _, x := range runs {
		var mine []*natsd.Sub
		for _, s := range srv.Subs(x.ctl + 1) {
			if s.Subject == x.pat {
				mine = append(mine, s)
			}
		}
		for k, got := range x.list {
			if k >= len(mine) {
				t.Fatalf("subscription %d to %q never reached the server\n%s", k, x.pat, desc)
			}
			if err := prefix(got, sentAll(mine[k].Delivered())); err != nil {
				t.Fatalf("subscription %d to %q: %v\n%s", k, x.pat, err, desc)
			}
			received += len(got)
			if closing != x.ctl && !fake.Eventually(fake.Stuck, func() bool { return !mine[k].Active() }) {
				t.Fatalf("subscription %d to %q is still on the server\n%s", k, x.pat, desc)
			}
		}
	}
	// the server got what every publisher says it has published, in order
	byPub := map[string][]string{}
	for _, m := range srv.Pubs() {
		p := m.Fields()["p"]
		if len(p) != 1 {
			t.Fatalf("the server got %s\n%s", sent(m), desc)
		}
		byPub[p[0]] = append(byPub[p[0]], sent(m))
	}
	published.Range(func(i, v any) bool {
		if err := prefix(v.([]string), byPub[fmt.Sprint(i)]); err != nil || len(v.([]string)) != len(byPub[fmt.Sprint(i)]) {
			t.Fatalf("publisher %v: %v, %d published and %d at the server\n%s", i, err, len(v.([]string)), len(byPub[fmt.Sprint(i)]), desc)
		}
		return true
	})
	for i, c := range ctls {
		if i != closing {
			c.Close()
		}
	}
	var classes []string
	if closing >= 0 {
		classes = append(classes, "closed on the way")
	}
	if received > 0 {
		classes = append(classes, "received something")
	}
	r.Case(desc, classes...)
	r.Sample("race", desc)
}
