package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/natsjetstream"
	"github.com/nats-io/nats.go"
	"github.com/nats-io/nats.go/jetstream"
	"pgregory.net/rapid"

	"verif/internal/fake"
	"verif/internal/natsd"
	"verif/internal/rep"
)

func init() { checks["C18"] = c18 }

// what a consumer does with a message
const (
	doAck = iota
	doNak
	doNothing
	doAckNak // only the first counts
	doNakAck
)

var doNames = []string{"ack", "nak", "nothing", "ack then nak", "nak then ack"}

// jsLedger decides what consumers do with the messages and remembers it.
type jsLedger struct {
	mu   sync.Mutex
	plan map[string][]int // by message: what to do at each reception
	got  map[string][]jsGot
}

type jsGot struct{ sub, did int }

func newLedger() *jsLedger { return &jsLedger{plan: map[string][]int{}, got: map[string][]jsGot{}} }

func (l *jsLedger) on(sub int) func(m *extensions.AcknowledgeableBrokerMessage) {
	return func(m *extensions.AcknowledgeableBrokerMessage) {
		k := fake.MsgString(m.BrokerMessage)
		l.mu.Lock()
		do := doAck
		if p, n := l.plan[k], len(l.got[k]); n < len(p) {
			do = p[n]
		}
		l.got[k] = append(l.got[k], jsGot{sub, do})
		l.mu.Unlock()
		switch do {
		case doAck:
			m.Ack()
		case doNak:
			m.Nak()
		case doAckNak:
			m.Ack()
			m.Nak()
		case doNakAck:
			m.Nak()
			m.Ack()
		}
	}
}

func (l *jsLedger) receptions(k string) []jsGot {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]jsGot(nil), l.got[k]...)
}

func (l *jsLedger) keys() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	var out []string
	for k := range l.got {
		out = append(out, k)
	}
	return out
}

// asked counts the acks and naks that consumers asked for.
func asked(g []jsGot) (acks, naks int) {
	for _, x := range g {
		switch x.did {
		case doAck, doAckNak:
			acks++
		case doNak, doNakAck:
			naks++
		}
	}
	return
}

func countAcks(s natsd.Stored) (acks, naks, others int) {
	for _, a := range s.Acks {
		switch a.Kind {
		case "+ACK":
			acks++
		case "-NAK":
			naks++
		default:
			others++
		}
	}
	return
}

var jsTokens = []string{"s", "a", "b", "ab", "1", "x-y_z", "é"}

func drawSubject(t *rapid.T) string {
	n := rapid.IntRange(1, 4).Draw(t, "tokens")
	x := make([]string, n)
	for i := range x {
		x[i] = rapid.SampledFrom(jsTokens).Draw(t, "token")
	}
	return strings.Join(x, ".")
}

func drawPattern(t *rapid.T) string {
	x := strings.Split(drawSubject(t), ".")
	for i := range x {
		if rapid.IntRange(0, 2).Draw(t, "wild") == 0 {
			x[i] = "*"
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "tail") == 0 {
		x[len(x)-1] = ">"
	}
	return strings.Join(x, ".")
}

func c18(r *rep.Run) {
	r.Rule("match: valid patterns and subjects against a reference matcher; non-trivial = the pattern has a wildcard. history: generated histories of subscriptions (subjects, wildcards, the same one twice, overlapping), publications, cancellations and closings of a controller with generated options against a fake server with streams, each message with generated settlements (ack, nak, nothing, twice); after every operation each message must have been received by one matching subscription as often as it was delivered, and acknowledged as asked, or acknowledged without reception if no subscription matches; non-trivial = 2 receptions and 4 operations. race: subscriptions come and go from several goroutines while messages are published; non-trivial = all. Distinctness by the history")
	r.Assume("the fake server implements the part of the JetStream API the client uses (streams, pull consumers, publish and consume acknowledgements); a message in flight while its subscription is cancelled may stay without acknowledgement (the server sends it again)")

	r.Rapid("match", r.N(40000, 1000000), func(t *rapid.T) {
		p, s := drawPattern(t), drawSubject(t)
		if rapid.Bool().Draw(t, "near") {
			// make the pattern from the subject
			x := strings.Split(s, ".")
			for i := range x {
				if rapid.IntRange(0, 2).Draw(t, "star") == 0 {
					x[i] = "*"
				}
			}
			switch rapid.IntRange(0, 3).Draw(t, "end") {
			case 0:
				x = append(x[:rapid.IntRange(0, len(x)-1).Draw(t, "cut")], ">")
			case 1:
				x = append(x, rapid.SampledFrom([]string{"*", ">", "a"}).Draw(t, "more"))
			}
			p = strings.Join(x, ".")
		}
		got := natsjetstream.MatchSubjectSubscription(p, s)
		if want := natsd.Match(p, s); got != want {
			t.Fatalf("pattern %q and subject %q: %v, want %v", p, s, got, want)
		}
		key := ""
		if strings.ContainsAny(p, "*>") {
			key = p + " " + s
		}
		r.Case(key, fmt.Sprintf("match %v", got))
	})
	r.Rapid("history", r.N(600, 9000), func(t *rapid.T) { jsHistory(r, t) })
	r.Rapid("race", r.N(200, 4000), func(t *rapid.T) { jsRace(r, t) })
}

// jsController makes a controller with drawn options and checks what the
// server has got of them.
type jsCtl struct {
	c        *natsjetstream.Controller
	conn     int
	own      bool // Close closes the connection
	nc       *nats.Conn
	stream   string
	consumer string
	nak      time.Duration
	desc     string
	nakSet   bool
	filter   string
}

func newJS(t *rapid.T, srv *natsd.Server, fail func(string, ...any), anySubject bool) *jsCtl {
	x := &jsCtl{stream: rapid.SampledFrom([]string{"S", "stream-1"}).Draw(t, "stream"), consumer: rapid.SampledFrom([]string{"C", "cons_2"}).Draw(t, "consumer"), nak: 5 * time.Second, own: true}
	if !anySubject && rapid.IntRange(0, 4).Draw(t, "filtered") == 0 {
		x.filter = "s.a.>"
	}
	var opts []natsjetstream.ControllerOption
	subjects := []string{"s.>", "t"}
	extra := rapid.IntRange(0, 3).Draw(t, "streamKind")
	switch extra {
	case 0: // made by someone before
		srv.AddStream(x.stream, subjects...)
		opts = append(opts, natsjetstream.WithStream(x.stream))
	case 1: // someone has made another one of this name: it gets updated
		srv.AddStream(x.stream, "old")
		opts = append(opts, natsjetstream.WithStreamConfig(jetstream.StreamConfig{Name: x.stream, Subjects: subjects}))
	default:
		opts = append(opts, natsjetstream.WithStreamConfig(jetstream.StreamConfig{Name: x.stream, Subjects: subjects}))
	}
	mine := extra > 0
	later := !mine && rapid.IntRange(0, 3).Draw(t, "consumerLater") == 0
	if later {
		opts = append(opts, natsjetstream.WithConsumer(x.consumer))
	} else if !mine && rapid.Bool().Draw(t, "consumerBefore") {
		var f []string
		if x.filter != "" {
			f = append(f, x.filter)
		}
		srv.AddConsumer(x.stream, x.consumer, f...)
		opts = append(opts, natsjetstream.WithConsumer(x.consumer))
	} else {
		opts = append(opts, natsjetstream.WithConsumerConfig(jetstream.ConsumerConfig{Name: x.consumer, FilterSubject: x.filter, AckPolicy: jetstream.AckExplicitPolicy}))
	}
	if rapid.Bool().Draw(t, "logger") {
		opts = append(opts, natsjetstream.WithLogger(&fake.Logger{}))
	}
	if rapid.IntRange(0, 3).Draw(t, "nakSet") > 0 {
		x.nakSet = true
		x.nak = rapid.SampledFrom([]time.Duration{0, time.Millisecond, 3 * time.Second, time.Hour, 1500 * time.Microsecond}).Draw(t, "nak")
		opts = append(opts, natsjetstream.WithNakDelay(x.nak))
	}
	before := srv.Accepted()
	conns := 1
	switch rapid.IntRange(0, 4).Draw(t, "conn") {
	case 0:
		nc, err := nats.Connect(srv.URL())
		if err != nil {
			fail("connect: %v", err)
		}
		x.nc, x.own = nc, false
		opts = append(opts, natsjetstream.WithConnection(nc))
	case 1:
		opts = append(opts, natsjetstream.WithConnectionOpts(nats.Name("n")))
	case 2: // the second one counts
		nc, err := nats.Connect(srv.URL())
		if err != nil {
			fail("connect: %v", err)
		}
		x.nc, x.own = nc, false
		conns = 2
		opts = append(opts, natsjetstream.WithConnectionOpts(nats.Name("n")), natsjetstream.WithConnection(nc))
	}
	c, err := natsjetstream.NewController(srv.URL(), opts...)
	if err != nil {
		fail("NewController: %v", err)
	}
	if n := srv.Accepted() - before; n != conns {
		fail("the controller has made %d connections, want %d", n, conns)
	}
	x.c, x.conn = c, before+1
	if conns == 2 && !fake.Eventually(fake.Stuck, func() bool { return !srv.Open(before + 2) }) {
		fail("the connection that was replaced stays open")
	}
	if mine {
		var got struct {
			Name     string
			Subjects []string
		}
		b, created, updated := srv.StreamInfo(x.stream)
		_ = json.Unmarshal(b, &got)
		if got.Name != x.stream || !reflect.DeepEqual(got.Subjects, subjects) || extra == 1 && updated != 1 || extra > 1 && created != 1 {
			fail("the stream is %s (created %d times, updated %d times), want name %q and subjects %q", b, created, updated, x.stream, subjects)
		}
	}
	if later {
		// Without the consumer, subscriptions fail and leave nothing behind.
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "fails"); i < n; i++ {
			p := rapid.SampledFrom(jsPatterns).Draw(t, "failing")
			if _, err := c.Subscribe(context.Background(), p); err == nil {
				fail("subscribing without a consumer succeeds")
			}
		}
		var f []string
		if x.filter != "" {
			f = append(f, x.filter)
		}
		srv.AddConsumer(x.stream, x.consumer, f...)
	}
	if b := srv.ConsumerInfo(x.stream, x.consumer); b == nil {
		fail("the server has no consumer %q of stream %q", x.consumer, x.stream)
	}
	x.desc = fmt.Sprintf("stream %q kind %d consumer %q filter %q nak %v own connection %v consumer made later %v", x.stream, extra, x.consumer, x.filter, x.nak, x.own, later)
	return x
}

// matches says if a message belongs to the consumer.
func (x *jsCtl) matches(subject string) bool { return x.filter == "" || natsd.Match(x.filter, subject) }

var jsSubjects = []string{"s.a", "s.b", "s.a.b", "s.a.c", "t"}
var jsPatterns = append([]string{"s.*", "s.>", "s.a.*", "*", "s.*.b", ">"}, jsSubjects...)

type jsSub struct {
	pat       string
	s         extensions.BrokerChannelSubscription
	rd        *reader
	cancelled bool
	unread    bool
}

func jsHistory(r *rep.Run, t *rapid.T) {
	srv, err := natsd.Start(1)
	if err != nil {
		t.Skip(err)
	}
	defer srv.Stop()
	srv.EnableJetStream(true)
	ctx := context.Background()
	var history []string
	rec := func(f string, a ...any) { history = append(history, clip(fmt.Sprintf(f, a...))) }
	fail := func(f string, a ...any) {
		t.Helper()
		t.Fatalf("%s\nhistory:\n%s", clip(fmt.Sprintf(f, a...)), strings.Join(history, "\n"))
	}
	js := newJS(t, srv, fail, false)
	rec("%s", js.desc)
	led := newLedger()
	var subs []*jsSub
	closed := false
	defer func() {
		for _, s := range subs {
			s.rd.open()
			if !s.cancelled {
				s.s.Cancel(ctx)
			}
		}
		js.c.Close()
		if js.nc != nil {
			js.nc.Close()
		}
	}()
	serial := 0
	classes := map[string]bool{}
	live := func(subject string) (n int) {
		for _, s := range subs {
			if !s.cancelled && natsd.Match(s.pat, subject) {
				n++
			}
		}
		return
	}
	nlive := func() (n int) {
		for _, s := range subs {
			if !s.cancelled {
				n++
			}
		}
		return
	}
	gated := false
	openAll := func() {
		for _, s := range subs {
			s.rd.open()
			s.unread = false
		}
		gated = false
	}
	// waiting says if the message may be waiting in an unread subscription
	waiting := func(subject string) bool {
		for _, s := range subs {
			if s.unread && natsd.Match(s.pat, subject) {
				return true
			}
		}
		return false
	}
	dropped := map[string]int{}
	soon := js.nak < 100*time.Millisecond
	// state compares the server's books with the ledger; again says that it may
	// still change for the better.
	state := func() (bad string, again bool) {
		st := srv.Stored(js.stream)
		known := map[string]bool{}
		for _, m := range st {
			k := sent(m.Msg)
			known[k] = true
			g := led.receptions(k)
			for _, x := range g {
				if !natsd.Match(subs[x.sub].pat, m.Subject) {
					return fmt.Sprintf("subscription %d to %q got %s, which is of subject %q", x.sub, subs[x.sub].pat, clip(k), m.Subject), false
				}
			}
			acks, naks, others := countAcks(m)
			wa, wn := asked(g)
			if len(g) > m.Delivered {
				return fmt.Sprintf("message %s of %q was delivered %d times and received %d times: %v", clip(k), m.Subject, m.Delivered, len(g), g), true // the books may be of different times
			}
			if others > 0 || naks > wn {
				return fmt.Sprintf("message %s of %q: the server got %+v, its receptions were %v", clip(k), m.Subject, m.Acks, g), true
			}
			for _, a := range m.Acks {
				if a.Kind == "-NAK" && a.Delay != js.nak {
					return fmt.Sprintf("a nak of message %s has the delay %v, want %v", clip(k), a.Delay, js.nak), false
				}
				if a.Conn != js.conn {
					return fmt.Sprintf("message %s is acknowledged through connection %d, want %d", clip(k), a.Conn, js.conn), false
				}
			}
			// deliveries without a subscription
			drop := m.Delivered - len(g)
			if !js.matches(m.Subject) {
				if drop+len(g) > 0 {
					return fmt.Sprintf("message of %q was delivered", m.Subject), false
				}
				continue
			}
			if waiting(m.Subject) {
				continue
			}
			want := 1
			if soon {
				want += wn
			}
			switch {
			case acks > wa+drop:
				return fmt.Sprintf("message %s of %q: the server got %+v, its receptions were %v of %d deliveries", clip(k), m.Subject, m.Acks, g, m.Delivered), true
			case drop > dropped[k] && live(m.Subject) > 0:
				return fmt.Sprintf("message %s of %q was delivered %d times and received %d times (%d subscriptions, acknowledgements %+v)", clip(k), m.Subject, m.Delivered, len(g), live(m.Subject), m.Acks), true
			case nlive() > 0 && !closed && (naks != wn || acks != wa+drop || m.Delivered != want):
				return fmt.Sprintf("message %s of %q: the server got %+v, its receptions were %v of %d deliveries, %d expected", clip(k), m.Subject, m.Acks, g, m.Delivered, want), true
			}
		}
		for _, k := range led.keys() {
			if !known[k] {
				return fmt.Sprintf("got %s, which the server does not know", clip(k)), false
			}
		}
		return "", false
	}
	settle := func() {
		end := time.Now().Add(fake.Stuck)
		for {
			bad, again := state()
			if bad == "" {
				break
			}
			if !again || time.Now().After(end) {
				fail("%s", bad)
			}
			time.Sleep(100 * time.Microsecond)
		}
		for _, m := range srv.Stored(js.stream) {
			k := sent(m.Msg)
			if waiting(m.Subject) {
				continue
			}
			if d := m.Delivered - len(led.receptions(k)); d > dropped[k] {
				dropped[k] = d
				classes["dropped"] = true
			}
		}
	}
	ops := 0
	nops := rapid.IntRange(2, 16).Draw(t, "nops")
	for ; ops < nops && !closed; ops++ {
		switch k := rapid.IntRange(0, 12).Draw(t, "op"); {
		case k <= 3:
			p := rapid.SampledFrom(jsPatterns).Draw(t, "pattern")
			for _, s := range subs {
				if !s.cancelled && s.pat == p {
					classes["same subject twice"] = true
				}
			}
			g := rapid.IntRange(0, 6).Draw(t, "gated") == 0 && serial < 40 // more would fill the queue and hold up the others, by design
			var s extensions.BrokerChannelSubscription
			var err error
			// what is published before is for whoever comes first
			if !fake.Returns(fake.Stuck, func() { s, err = js.c.Subscribe(ctx, p) }) {
				fail("Subscribe does not return")
			}
			rec("%d: subscribe %q gated=%v: %v", len(subs), p, g, err)
			if err != nil {
				fail("Subscribe: %v", err)
			}
			subs = append(subs, &jsSub{pat: p, s: s, unread: g})
			subs[len(subs)-1].rd = read(s, g, led.on(len(subs)-1))
			// The first subscription starts the consumption.
			if !fake.Eventually(fake.Stuck, func() bool { return srv.Consuming(js.stream, js.consumer) }) {
				fail("the controller does not ask for messages")
			}
			if g {
				gated = true
				classes["unread"] = true
			}
		case k <= 7:
			n := 1
			if rapid.IntRange(0, 9).Draw(t, "burst") == 0 && !gated {
				n = rapid.IntRange(2, 200).Draw(t, "nburst")
				classes["burst"] = true
			}
			subject := rapid.SampledFrom(jsSubjects).Draw(t, "subject")
			for i := 0; i < n; i++ {
				m := drawNatsMsg(t, 1<<14)
				serial++
				if len(m.Headers) == 0 {
					m.Payload = append(m.Payload, fmt.Sprintf("#%d", serial)...)
				} else {
					m.Headers["id"] = []byte(fmt.Sprint(serial))
				}
				var plan []int
				for range rapid.SliceOfN(rapid.Just(0), 0, 2).Draw(t, "naks") {
					plan = append(plan, rapid.SampledFrom([]int{doNak, doNakAck}).Draw(t, "nakHow"))
				}
				plan = append(plan, rapid.SampledFrom([]int{doAck, doAck, doAckNak, doNothing}).Draw(t, "end"))
				want := fake.MsgString(m)
				led.mu.Lock()
				led.plan[want] = plan
				led.mu.Unlock()
				before := len(srv.Stored(js.stream))
				if rapid.IntRange(0, 4).Draw(t, "from") == 0 {
					srv.Publish(rawMsg(subject, m))
					rec("published by another on %q %s, plan %v", subject, want, plan)
				} else {
					var err error
					if !fake.Returns(fake.Stuck, func() { err = js.c.Publish(ctx, subject, m) }) {
						fail("Publish does not return")
					}
					rec("publish on %q %s, plan %v: %v", subject, want, plan, err)
					if err != nil {
						fail("Publish: %v", err)
					}
					if fake.MsgString(m) != want {
						fail("Publish has changed the message to %s", fake.MsgString(m))
					}
					st := srv.Stored(js.stream)
					if len(st) != before+1 {
						fail("the stream has %d messages after Publish, want %d", len(st), before+1)
					}
					if p := st[before]; p.Subject != subject || sent(p.Msg) != want || p.Conn != js.conn {
						fail("published %s on %q, the stream got %s on %q", clip(want), subject, clip(sent(p.Msg)), p.Subject)
					}
				}
				if rapid.IntRange(0, 1).Draw(t, "wait") == 0 {
					settle()
				}
			}
		case k <= 10:
			if len(subs) == 0 {
				continue
			}
			i := rapid.IntRange(0, len(subs)-1).Draw(t, "sub")
			s := subs[i]
			if s.cancelled {
				continue
			}
			openAll()
			settle()
			if !fake.Returns(fake.Stuck, func() { s.s.Cancel(ctx) }) {
				fail("Cancel of subscription %d does not return", i)
			}
			s.cancelled = true
			rec("cancel %d", i)
			classes["cancel"] = true
			if !fake.Eventually(fake.Stuck, s.rd.done) {
				fail("the messages of subscription %d never end after its cancellation", i)
			}
			if nlive() == 0 {
				if !fake.Eventually(fake.Stuck, func() bool { return !srv.Consuming(js.stream, js.consumer) }) {
					fail("the controller still consumes messages without any subscription")
				}
				classes["consumption stopped"] = true
			}
		case k == 11:
			openAll()
			rec("everything is read")
		default:
			if rapid.IntRange(0, 2).Draw(t, "close") > 0 {
				continue
			}
			if !fake.Returns(fake.Stuck, js.c.Close) {
				fail("Close does not return")
			}
			closed = true
			rec("close")
			classes["close"] = true
			if js.own {
				if !fake.Eventually(fake.Stuck, func() bool { return !srv.Open(js.conn) }) {
					fail("the connection is open after Close")
				}
			} else {
				if js.nc.Flush() != nil || !srv.Open(js.conn) {
					fail("Close has closed a connection that it was given")
				}
			}
		}
		settle()
	}
	openAll()
	if !closed {
		settle()
	}
	for i, s := range subs {
		if s.cancelled {
			continue
		}
		if !fake.Returns(fake.Stuck, func() { s.s.Cancel(ctx) }) {
			fail("Cancel of subscription %d does not return", i)
		}
		s.cancelled = true
		if !fake.Eventually(fake.Stuck, s.rd.done) {
			fail("the messages of subscription %d never end after its cancellation", i)
		}
	}
	received := 0
	for i, s := range subs {
		if _, err := s.rd.list(); err != nil {
			fail("subscription %d: %v", i, err)
		}
		received += s.rd.len()
	}
	key := ""
	if received >= 2 && ops >= 4 {
		key = strings.Join(history, "\n")
		r.Sample("history", history)
	}
	var cl []string
	for c := range classes {
		cl = append(cl, c)
	}
	r.Case(key, cl...)
}

// jsRace: one subscription stays, with all its messages, whatever happens to
// others at the same time.
func jsRace(r *rep.Run, t *rapid.T) {
	srv, err := natsd.Start(1)
	if err != nil {
		t.Skip(err)
	}
	defer srv.Stop()
	srv.EnableJetStream(true)
	ctx := context.Background()
	fail0 := func(f string, a ...any) { t.Helper(); t.Fatalf(f, a...) }
	js := newJS(t, srv, fail0, true)
	defer func() {
		js.c.Close()
		if js.nc != nil {
			js.nc.Close()
		}
	}()
	desc := js.desc
	stays := rapid.IntRange(0, 3).Draw(t, "stays") > 0
	var mu sync.Mutex
	var bad []string
	report := func(f string, a ...any) { mu.Lock(); bad = append(bad, fmt.Sprintf(f, a...)); mu.Unlock() }
	var keep *reader
	var keepSub extensions.BrokerChannelSubscription
	if stays {
		keepSub, err = js.c.Subscribe(ctx, "s.keep.x.>")
		if err != nil {
			t.Fatalf("Subscribe: %v", err)
		}
		keep = read(keepSub, false, func(m *extensions.AcknowledgeableBrokerMessage) { m.Ack() })
	}
	var wg sync.WaitGroup
	var received atomic.Int64
	pats := []string{"s.0.*", "s.1.*", "s.0.>", "s.*.p0", "s.1.p1"}
	nsub := rapid.IntRange(1, 4).Draw(t, "nsub")
	for i := 0; i < nsub; i++ {
		n := rapid.IntRange(1, 6).Draw(t, "sn")
		list := rapid.SliceOfN(rapid.SampledFrom(pats), n, n).Draw(t, "pats")
		takes := rapid.SliceOfN(rapid.IntRange(0, 6), n, n).Draw(t, "takes")
		wait := rapid.IntRange(0, 40).Draw(t, "wait")
		desc += fmt.Sprintf("; subscriber %q take %v wait %d", list, takes, wait)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, p := range list {
				var s extensions.BrokerChannelSubscription
				var err error
				if !fake.Returns(fake.Stuck, func() { s, err = js.c.Subscribe(ctx, p) }) {
					report("Subscribe does not return")
					return
				}
				if err != nil {
					report("Subscribe: %v", err)
					return
				}
				enough, end := make(chan struct{}), make(chan struct{})
				if takes[k] == 0 {
					close(enough)
				}
				go func() {
					defer close(end)
					n := 0
					for m := range s.MessagesChannel() {
						m.Ack()
						received.Add(1)
						subj := string(m.Headers["subject"])
						if !natsd.Match(p, subj) {
							report("a subscription to %q got a message of %q", p, subj)
						}
						if n++; n == takes[k] {
							close(enough)
						}
					}
				}()
				select {
				case <-enough:
				case <-time.After(time.Duration(wait*50) * time.Microsecond):
				}
				if !fake.Returns(fake.Stuck, func() { s.Cancel(ctx) }) {
					report("Cancel does not return")
					return
				}
				select {
				case <-end:
				case <-time.After(fake.Stuck):
					report("the messages do not end after Cancel")
					return
				}
			}
		}()
	}
	npub := rapid.IntRange(1, 3).Draw(t, "npub")
	total := 0
	for i := 0; i < npub; i++ {
		i := i
		n := rapid.IntRange(1, 50).Draw(t, "pn")
		pause := rapid.IntRange(0, 3).Draw(t, "pause")
		total += n
		desc += fmt.Sprintf("; publisher %d pause %d", n, pause)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				subj := fmt.Sprintf("s.%d.p%d", k%2, i)
				if k%3 == 2 {
					subj = fmt.Sprintf("s.keep.x.p%d", i)
				}
				m := extensions.BrokerMessage{Headers: map[string][]byte{"subject": []byte(subj)}, Payload: []byte(fmt.Sprintf("%d-%d", i, k))}
				var err error
				if !fake.Returns(fake.Stuck, func() { err = js.c.Publish(ctx, subj, m) }) {
					report("Publish does not return")
					return
				}
				if err != nil {
					report("Publish: %v", err)
					return
				}
				time.Sleep(time.Duration(pause*20) * time.Microsecond)
			}
		}()
	}
	if !fake.Returns(3*fake.Stuck, wg.Wait) {
		report("the goroutines do not end")
	}
	mu.Lock()
	if len(bad) > 0 {
		t.Fatalf("%s\n%s", strings.Join(bad, "\n"), desc)
	}
	mu.Unlock()
	st := srv.Stored(js.stream)
	if len(st) != total {
		t.Fatalf("the stream has %d messages, %d were published\n%s", len(st), total, desc)
	}
	if stays {
		var want []string
		for _, m := range st {
			if strings.HasPrefix(m.Subject, "s.keep.") {
				want = append(want, sent(m.Msg))
			}
		}
		fake.Eventually(fake.Stuck, func() bool { return keep.len() >= len(want) })
		got, err := keep.list()
		if err == nil {
			err = prefix(got, want)
		}
		if err != nil || len(got) != len(want) {
			t.Fatalf("the subscription that stays got %d of %d messages: %v\n%s", len(got), len(want), err, desc)
		}
		if !fake.Returns(fake.Stuck, func() { keepSub.Cancel(ctx) }) {
			t.Fatalf("Cancel does not return\n%s", desc)
		}
	}
	// Nothing is left without an acknowledgement once a subscription gets what
	// the server sends again.
	if !fake.Eventually(fake.Stuck, func() bool { return !srv.Consuming(js.stream, js.consumer) }) {
		t.Fatalf("the controller still consumes messages without any subscription\n%s", desc)
	}
	last, err := js.c.Subscribe(ctx, "s.>")
	if err != nil {
		t.Fatalf("Subscribe: %v\n%s", err, desc)
	}
	rd := read(last, false, func(m *extensions.AcknowledgeableBrokerMessage) { m.Ack() })
	unsettled := func() (n int) {
		for _, m := range srv.Stored(js.stream) {
			if len(m.Acks) == 0 {
				n++
			}
		}
		return
	}
	if !fake.Eventually(fake.Stuck, func() bool {
		if fake.Eventually(50*time.Millisecond, func() bool { return unsettled() == 0 }) {
			return true
		}
		srv.Redeliver(js.stream, js.consumer)
		return false
	}) {
		t.Fatalf("%d messages are never acknowledged\n%s", unsettled(), desc)
	}
	if !fake.Returns(fake.Stuck, func() { last.Cancel(ctx) }) || !fake.Eventually(fake.Stuck, rd.done) {
		t.Fatalf("the last subscription does not end\n%s", desc)
	}
	var cl []string
	if received.Load() > 0 {
		cl = append(cl, "received on the way")
	}
	r.Case(desc, cl...)
	r.Sample("race", desc)
}
