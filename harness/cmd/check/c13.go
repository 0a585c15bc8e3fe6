package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
	"pgregory.net/rapid"

	"verif/internal/fake"
	"verif/internal/rep"
)

func init() { checks["C13"] = c13 }

// collector reads a subscription and records what arrives.
type collector struct {
	mu   sync.Mutex
	got  []string
	done chan struct{}
	gate chan struct{}
}

func collect(sub extensions.BrokerChannelSubscription, settle func(m *extensions.AcknowledgeableBrokerMessage)) *collector {
	c := &collector{done: make(chan struct{})}
	go func() {
		defer close(c.done)
		for m := range sub.MessagesChannel() {
			m := m
			settle(&m)
			c.mu.Lock()
			c.got = append(c.got, fake.MsgString(m.BrokerMessage))
			c.mu.Unlock()
		}
	}()
	return c
}

func (c *collector) list() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string(nil), c.got...)
}

func (c *collector) len() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.got) }

func withVersion(ctx context.Context, v string) context.Context {
	return context.WithValue(ctx, extensions.ContextKeyIsVersion, v)
}

// allVersions holds versions that are close to one another: each is a version of its own.
var allVersions = []string{
	"1.0.0", "2.0.0", "1.0", "1", "v1.0.0", "V1.0.0", "1.0.0 ", " 1.0.0", "1.0.0-rc1", "1.0.0-RC1", "1.0.0+b", "01.0.0",
	"1.00", "v3-beta é", "v3-BETA É", " ", "\t", "1.0.0\n", "\"1.0.0\"", "1,0", "1.0.0.0", "default", "latest", "<nil>", "*",
}

type c13sub struct {
	sub      extensions.BrokerChannelSubscription
	col      *collector
	expected []string
}

func c13(r *rep.Run) {
	r.Rule("route: generated histories of subscribe/cancel/deliver/publish over up to 3 channels and 6 versions (of 25 that are close to one another), default version set or not, default or custom header key, against a model of who must get what; non-trivial = at least 2 deliveries with a subscribed version and 4 operations. Distinctness by the history. slow: two subscribers of a channel that start to read late or read slowly, up to 350 messages, dozens of scenes at a time; non-trivial = more messages than the queues hold")
	r.Assume("a message is said to be dropped when a later message of the same channel has been delivered")

	r.Rapid("route", r.N(3000, 40000), func(t *rapid.T) {
		b := fake.NewBroker()
		log := &fake.Logger{}
		versionPool := rapid.Permutation(allVersions).Draw(t, "versions")[:6]
		opts := []versioning.WrapperOption{versioning.WithLogger(log)}
		key := versioning.DefaultVersionHeaderKey
		if rapid.Bool().Draw(t, "customKey") {
			key = rapid.SampledFrom([]string{"X-Version", "v", "Application-Version"}).Draw(t, "key")
			opts = append(opts, versioning.WithVersionHeaderKey(key))
		}
		def := ""
		if rapid.Bool().Draw(t, "hasDefault") {
			def = rapid.SampledFrom(versionPool).Draw(t, "default")
			opts = append(opts, versioning.WithDefaultVersion(def))
		}
		w := versioning.NewWrapper(b, opts...)
		channels := []string{"a", "b.c", "ch-3"}[:rapid.IntRange(1, 3).Draw(t, "nch")]
		subs := map[string]map[string]*c13sub{}
		for _, c := range channels {
			subs[c] = map[string]*c13sub{}
		}
		dropped, useful, serial := 0, 0, 0
		var history []string
		rec := func(f string, a ...any) { history = append(history, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s\nkey %q default %q history:\n%v", fmt.Sprintf(f, a...), key, def, history)
		}
		headers := func(label string) map[string][]byte {
			h := map[string][]byte{}
			n := rapid.IntRange(0, 3).Draw(t, label)
			for i := 0; i < n; i++ {
				h[rapid.SampledFrom([]string{"h1", "correlationId", "Content-Type", "x", "application-version", "X-Version"}).Draw(t, "hk")] =
					[]byte(rapid.SampledFrom([]string{"", "1", "abc", "1.0.0", "2.0.0", "é\n"}).Draw(t, "hv"))
			}
			return h
		}
		type pend struct {
			acks []*fake.Ack
			want bool
		}
		var pending []pend
		deliver := func(ch string, m extensions.BrokerMessage) {
			v, ok := m.Headers[key]
			ver := string(v)
			if !ok || ver == "" {
				ver = def
			}
			s := subs[ch][ver]
			acks := b.Deliver(ch, m)
			if len(subs[ch]) == 0 {
				if len(acks) != 0 {
					fail("channel %q has no subscribed version but %d broker subscriptions", ch, len(acks))
				}
				return
			}
			if len(acks) != 1 {
				fail("channel %q has %d broker subscriptions, want 1", ch, len(acks))
			}
			if (!ok || string(v) == "") && def == "" {
				s = nil
			}
			if s != nil {
				s.expected = append(s.expected, fake.MsgString(m))
				useful++
			} else {
				dropped++
			}
			pending = append(pending, pend{acks, s != nil})
		}
		// checkpoint makes sure that everything delivered so far was dispatched.
		checkpoint := func() {
			for _, ch := range channels {
				var vs []string
				for v := range subs[ch] {
					vs = append(vs, v)
				}
				sort.Strings(vs)
				for _, v := range vs {
					serial++
					deliver(ch, extensions.BrokerMessage{Headers: map[string][]byte{key: []byte(v)}, Payload: []byte(fmt.Sprintf("sentinel %d", serial))})
				}
				for _, v := range vs {
					s := subs[ch][v]
					if !fake.Eventually(fake.Stuck, func() bool { return s.col.len() >= len(s.expected) }) {
						fail("subscriber of version %q on %q got %q, want %q", v, ch, s.col.list(), s.expected)
					}
					if g := s.col.list(); fmt.Sprint(g) != fmt.Sprint(s.expected) {
						fail("subscriber of version %q on %q got %q, want %q", v, ch, g, s.expected)
					}
				}
			}
			if n := log.Count("error"); n < dropped {
				fail("%d messages were dropped but %d errors logged", dropped, n)
			}
			for _, p := range pending {
				for _, a := range p.acks {
					g := a.Got()
					if p.want && (len(g) != 1 || g[0] != "ack") {
						fail("the subscriber's acknowledgement did not reach the broker: %v", g)
					}
				}
			}
			pending = nil
		}
		n := rapid.IntRange(2, 25).Draw(t, "ops")
		for i := 0; i < n; i++ {
			ch := rapid.SampledFrom(channels).Draw(t, "ch")
			switch rapid.SampledFrom([]string{"sub", "sub", "deliver", "deliver", "deliver", "deliver", "cancel", "publish", "failsub", "nover"}).Draw(t, "op") {
			case "sub":
				v := rapid.SampledFrom(versionPool).Draw(t, "v")
				rec("subscribe %q %q", ch, v)
				if subs[ch][v] == nil {
					checkpoint() // what was delivered before is not for the new subscriber
				}
				sub, err := w.Subscribe(withVersion(context.Background(), v), ch)
				if subs[ch][v] != nil {
					if !errors.Is(err, extensions.ErrAlreadySubscribedChannel) {
						fail("second subscription of version %q on %q: error %v", v, ch, err)
					}
					continue
				}
				if err != nil {
					fail("subscription of version %q on %q: error %v", v, ch, err)
				}
				subs[ch][v] = &c13sub{sub: sub, col: collect(sub, func(m *extensions.AcknowledgeableBrokerMessage) { m.Ack() })}
			case "failsub":
				v := rapid.SampledFrom(versionPool).Draw(t, "v")
				if len(subs[ch]) > 0 {
					continue
				}
				rec("failing subscribe %q %q", ch, v)
				b.Set(func(b *fake.Broker) { b.FailSub = func(string) error { return fake.ErrInjected } })
				_, err := w.Subscribe(withVersion(context.Background(), v), ch)
				b.Set(func(b *fake.Broker) { b.FailSub = nil })
				if !errors.Is(err, fake.ErrInjected) {
					fail("the error of the broker is not returned: %v", err)
				}
			case "nover":
				rec("subscribe without version %q", ch)
				ctx := context.Background()
				if rapid.Bool().Draw(t, "empty") {
					ctx = withVersion(ctx, "")
				}
				if _, err := w.Subscribe(ctx, ch); !errors.Is(err, versioning.ErrNoVersion) {
					fail("subscription without version: error %v", err)
				}
			case "deliver":
				h := headers("extra")
				switch rapid.SampledFrom([]string{"version", "version", "version", "empty", "missing", "unknown"}).Draw(t, "vkind") {
				case "version":
					h[key] = []byte(rapid.SampledFrom(versionPool).Draw(t, "v"))
				case "empty":
					h[key] = []byte{}
				case "missing":
					delete(h, key)
				case "unknown":
					h[key] = []byte(rapid.SampledFrom([]string{"9.9.9", "1.0.00", "2.0.0\n", "\x00"}).Draw(t, "v"))
				}
				serial++
				m := extensions.BrokerMessage{Headers: h, Payload: []byte(fmt.Sprintf("payload %d %s", serial, rapid.SampledFrom([]string{"", "{}", "\x00\xff"}).Draw(t, "p")))}
				rec("deliver %q %s", ch, fake.MsgString(m))
				deliver(ch, m)
			case "cancel":
				var vs []string
				for v := range subs[ch] {
					vs = append(vs, v)
				}
				if len(vs) == 0 {
					continue
				}
				sort.Strings(vs)
				v := rapid.SampledFrom(vs).Draw(t, "v")
				rec("cancel %q %q", ch, v)
				checkpoint()
				s := subs[ch][v]
				if !fake.Returns(fake.Stuck, func() { s.sub.Cancel(context.Background()) }) {
					fail("cancelling version %q on %q does not return", v, ch)
				}
				if !fake.Returns(fake.Stuck, func() { <-s.col.done }) {
					fail("the channel of version %q on %q is not closed after cancellation", v, ch)
				}
				delete(subs[ch], v)
			case "publish":
				m := extensions.BrokerMessage{Headers: headers("extra"), Payload: []byte("pub")}
				if rapid.IntRange(0, 4).Draw(t, "nilh") == 0 {
					m.Headers = nil
				}
				before := fake.CopyMsg(m)
				ctx := context.Background()
				v := rapid.SampledFrom(append([]string{"none"}, versionPool...)).Draw(t, "v")
				if v != "none" {
					ctx = withVersion(ctx, v)
				}
				rec("publish %q %q %s", ch, v, fake.MsgString(m))
				if rapid.IntRange(0, 5).Draw(t, "pubfail") == 0 {
					b.Set(func(b *fake.Broker) { b.FailPub = func(string) error { return fake.ErrInjected } })
					if err := w.Publish(ctx, ch, m); !errors.Is(err, fake.ErrInjected) {
						fail("the error of the broker is not returned: %v", err)
					}
					b.Set(func(b *fake.Broker) { b.FailPub = nil })
				} else {
					n := len(b.Publications())
					if err := w.Publish(ctx, ch, m); err != nil {
						fail("publish: %v", err)
					}
					ps := b.Publications()
					if len(ps) != n+1 {
						fail("%d messages published instead of 1", len(ps)-n)
					}
					want := fake.CopyMsg(before)
					if v != "none" {
						if want.Headers == nil {
							want.Headers = map[string][]byte{}
						}
						want.Headers[key] = []byte(v)
					}
					if p := ps[n]; p.Channel != ch || fake.MsgString(p.Msg) != fake.MsgString(want) {
						fail("published %s on %q, want %s on %q", fake.MsgString(p.Msg), p.Channel, fake.MsgString(want), ch)
					}
				}
				if fake.MsgString(before) != fake.MsgString(m) {
					fail("publishing changed the caller's message from %s to %s", fake.MsgString(before), fake.MsgString(m))
				}
			}
			if rapid.IntRange(0, 9).Draw(t, "cp") == 0 {
				checkpoint()
			}
		}
		checkpoint()
		for _, ch := range channels {
			want := 0
			if len(subs[ch]) > 0 {
				want = 1
			}
			if g := len(b.Open(ch)); g != want {
				fail("%d broker subscriptions on %q, want %d", g, ch, want)
			}
		}
		for _, ch := range channels {
			for v, s := range subs[ch] {
				if !fake.Returns(fake.Stuck, func() { s.sub.Cancel(context.Background()) }) {
					fail("cancelling version %q on %q does not return", v, ch)
				}
			}
			if g := len(b.Open(ch)); g != 0 {
				fail("%d broker subscriptions on %q when every version is cancelled", g, ch)
			}
		}
		k := ""
		if useful >= 2 && len(history) >= 4 {
			k = fmt.Sprint(key, def, history)
		}
		r.Case(k, fmt.Sprintf("default version %v", def != ""), fmt.Sprintf("drops %v", dropped > 0))
		if k != "" {
			r.Sample("route", map[string]any{"key": key, "default": def, "history": history})
		}
	})

	// slow: subscribers that read late, or slowly, while more messages arrive than the queues hold.
	r.Rapid("slow", r.N(2, 30), func(t *rapid.T) {
		type scene struct {
			messages   []string // version of each
			wait, each map[string]int
		}
		scenes := make([]scene, 24)
		errs := make([]string, len(scenes))
		var wg sync.WaitGroup
		for i := range scenes {
			s := scene{wait: map[string]int{}, each: map[string]int{}}
			versions := rapid.Permutation(allVersions).Draw(t, "versions")[:2]
			n := rapid.IntRange(2, 350).Draw(t, "messages")
			count := map[string]int{}
			for k := 0; k < n; k++ {
				v := rapid.SampledFrom(versions).Draw(t, "v")
				s.messages = append(s.messages, v)
				count[v]++
			}
			for _, v := range versions {
				s.wait[v] = rapid.SampledFrom([]int{0, 0, 300, 1200, 1500}).Draw(t, "waitMs")
				s.each[v] = rapid.SampledFrom([]int{0, 0, 0, 2, 10}).Draw(t, "eachMs")
			}
			scenes[i] = s
			key := ""
			if n > 2*64 {
				key = fmt.Sprint("slow", s)
			}
			r.Case(key, fmt.Sprintf("slow subscribers, queues overflown %v", n > 2*64))
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				b := fake.NewBroker()
				w := versioning.NewWrapper(b)
				var readers sync.WaitGroup
				var mu sync.Mutex
				fail := func(f string, a ...any) {
					mu.Lock()
					defer mu.Unlock()
					if errs[i] == "" {
						errs[i] = fmt.Sprintf(f, a...)
					}
				}
				for _, v := range versions {
					sub, err := w.Subscribe(withVersion(context.Background(), v), "c")
					if err != nil {
						fail("subscription: %v", err)
						return
					}
					readers.Add(1)
					go func(v string) {
						defer readers.Done()
						time.Sleep(time.Duration(s.wait[v]) * time.Millisecond)
						for k, mv := range s.messages {
							if mv != v {
								continue
							}
							select {
							case m, open := <-sub.MessagesChannel():
								if !open || string(m.Payload) != fmt.Sprint(k) {
									fail("subscriber of version %q reads %q (open %v), want message number %d", v, m.Payload, open, k)
									return
								}
							case <-time.After(fake.Stuck):
								fail("subscriber of version %q does not get message number %d", v, k)
								return
							}
							time.Sleep(time.Duration(s.each[v]) * time.Millisecond)
						}
						if !fake.Returns(fake.Stuck, func() { sub.Cancel(context.Background()) }) {
							fail("cancelling version %q does not return", v)
						}
					}(v)
				}
				for k, v := range s.messages {
					m := extensions.BrokerMessage{Headers: map[string][]byte{versioning.DefaultVersionHeaderKey: []byte(v)}, Payload: []byte(fmt.Sprint(k))}
					for _, sub := range b.Open("c") {
						sub.Send(m, &fake.Ack{})
					}
				}
				readers.Wait()
			}(i)
		}
		wg.Wait()
		for i, e := range errs {
			if e != "" {
				t.Fatalf("versions of messages %q, delays before reading %v and between reads %v (ms): %s",
					scenes[i].messages, scenes[i].wait, scenes[i].each, e)
			}
		}
	})
}
