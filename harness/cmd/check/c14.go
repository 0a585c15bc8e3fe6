package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
	"pgregory.net/rapid"

	"verif/internal/fake"
	"verif/internal/rep"
)

func init() { checks["C14"] = c14 }

// hold is the time, on a logical clock, for which a worker had a subscription.
type hold struct {
	key                                      string
	subStart, subEnd, cancelStart, cancelEnd int64
}

func c14(r *rep.Run) {
	r.Rule("share: generated scripts of 1-5 concurrent workers subscribing and cancelling versions of 1-3 channels while messages (of known, unknown and missing versions, possibly more than the queue holds) arrive, with reading and non-reading subscribers, failing broker subscriptions and drawn GOMAXPROCS and yields; the recorded history must fit exclusive ownership per (channel, version), one broker subscription per used channel, and final probes must arrive. Non-trivial = at least 2 workers or 3 operations. Distinctness by the scripts")
	r.Assume("a call that has not returned after 10 s (it takes microseconds) is said not to return")
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	const inf = int64(1) << 60

	type op struct {
		kind    string
		ch, ver int
		yield   int
		read    bool
	}
	r.Rapid("share", r.N(1500, 25000), func(t *rapid.T) {
		procs := rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs")
		nch := rapid.IntRange(1, 3).Draw(t, "nch")
		nver := rapid.IntRange(1, 3).Draw(t, "nver")
		nw := rapid.SampledFrom([]int{1, 2, 2, 3, 4, 5}).Draw(t, "workers")
		flood := rapid.SampledFrom([]int{0, 0, 1, 5, 20, 150}).Draw(t, "flood")
		cleanup := rapid.SampledFrom([]int{0, 0, 2, 10}).Draw(t, "cleanup")
		failing := rapid.SampledFrom([]int{0, 0, 2, 3}).Draw(t, "failing")
		scripts := make([][]op, nw)
		ops := 0
		for i := range scripts {
			n := rapid.IntRange(1, 8).Draw(t, "n")
			for j := 0; j < n; j++ {
				scripts[i] = append(scripts[i], op{
					kind:  rapid.SampledFrom([]string{"sub", "sub", "sub", "cancel", "cancel"}).Draw(t, "k"),
					ch:    rapid.IntRange(0, nch-1).Draw(t, "c"),
					ver:   rapid.IntRange(0, nver-1).Draw(t, "v"),
					yield: rapid.IntRange(0, 7).Draw(t, "y"),
					read:  rapid.IntRange(0, 3).Draw(t, "r") > 0,
				})
				ops++
			}
		}
		key := ""
		if nw > 1 || ops > 2 {
			key = fmt.Sprint(procs, nch, nver, flood, cleanup, failing, scripts)
		}
		r.Case(key, fmt.Sprintf("workers %d", nw), fmt.Sprintf("messages %d", flood), fmt.Sprintf("failing broker %v", failing > 0))
		if key != "" {
			r.Sample("share", map[string]any{"procs": procs, "channels": nch, "versions": nver, "messages": flood, "scripts": fmt.Sprintf("%+v", scripts)})
		}
		runtime.GOMAXPROCS(procs)

		b := fake.NewBroker()
		b.QueueSize = 2000
		var clock, subCount atomic.Int64
		var problems sync.Map
		var live [3]atomic.Int32
		chName := func(i int) string { return fmt.Sprintf("c%d", i) }
		b.FailSub = func(ch string) error {
			if n := subCount.Add(1); failing > 0 && n%int64(failing) == 0 {
				return fake.ErrInjected
			}
			if n := live[ch[1]-'0'].Add(1); n > 1 {
				problems.Store(fmt.Sprintf("%d broker subscriptions at once on channel %s", n, ch), true)
			}
			return nil
		}
		b.Cleanup = func(s *fake.Sub) {
			pause(cleanup)
			live[s.Channel[1]-'0'].Add(-1)
		}
		w := versioning.NewWrapper(b, versioning.WithLogger(&fake.Logger{}))
		var mu sync.Mutex
		var holds []*hold
		type refusal struct {
			key        string
			start, end int64
		}
		var refused []refusal
		type held struct {
			h   *hold
			sub extensions.BrokerChannelSubscription
			col *collector
		}
		var remaining []*held
		verName := func(i int) string { return fmt.Sprintf("%d.0.0", i) }

		var wg, fwg sync.WaitGroup
		cancel := func(h *held) {
			h.h.cancelStart = clock.Add(1)
			h.sub.Cancel(context.Background())
			h.h.cancelEnd = clock.Add(1)
			// The channel is closed: what is left can be read.
			for range h.sub.MessagesChannel() {
			}
		}
		for i := range scripts {
			script := scripts[i]
			wg.Add(1)
			go func() {
				defer wg.Done()
				mine := map[string]*held{}
				for _, o := range script {
					pause(o.yield)
					k := fmt.Sprintf("%s/%s", chName(o.ch), verName(o.ver))
					switch o.kind {
					case "sub":
						s := clock.Add(1)
						sub, err := w.Subscribe(withVersion(context.Background(), verName(o.ver)), chName(o.ch))
						e := clock.Add(1)
						switch {
						case err == nil:
							h := &held{h: &hold{k, s, e, inf, inf}, sub: sub}
							if o.read {
								h.col = collect(sub, func(*extensions.AcknowledgeableBrokerMessage) {})
							}
							mu.Lock()
							holds = append(holds, h.h)
							mu.Unlock()
							if mine[k] != nil {
								problems.Store("a second subscription of "+k+" was accepted", true)
							}
							mine[k] = h
						case errors.Is(err, extensions.ErrAlreadySubscribedChannel):
							mu.Lock()
							refused = append(refused, refusal{k, s, e})
							mu.Unlock()
						case errors.Is(err, fake.ErrInjected) && failing > 0:
						default:
							problems.Store(fmt.Sprintf("subscribe %s: unexpected error %v", k, err), true)
						}
					case "cancel":
						if h := mine[k]; h != nil {
							delete(mine, k)
							cancel(h)
						}
					}
				}
				mu.Lock()
				for _, h := range mine {
					remaining = append(remaining, h)
				}
				mu.Unlock()
			}()
		}
		if flood > 0 {
			for c := 0; c < nch; c++ {
				c := c
				fwg.Add(1)
				go func() {
					defer fwg.Done()
					for i := 0; i < flood; i++ {
						h := map[string][]byte{}
						switch i % 7 {
						case 5:
							h[versioning.DefaultVersionHeaderKey] = []byte("unknown")
						case 6:
						default:
							h[versioning.DefaultVersionHeaderKey] = []byte(verName(i % nver))
						}
						b.Deliver(chName(c), extensions.BrokerMessage{Headers: h, Payload: []byte("x")})
						if i%10 == 9 {
							runtime.Gosched()
						}
					}
				}()
			}
		}
		if !fake.Returns(fake.Stuck, wg.Wait) {
			t.Fatalf("a subscribe or cancel call does not return")
		}
		if !fake.Returns(fake.Stuck, fwg.Wait) {
			t.Fatalf("the broker cannot transmit its messages any more")
		}
		problems.Range(func(k, _ any) bool { t.Errorf("%v", k); return true })
		for i, a := range holds {
			for _, c := range holds[i+1:] {
				if a.key == c.key && a.subEnd < c.cancelStart && c.subEnd < a.cancelStart {
					t.Fatalf("%s was subscribed twice at once: %+v %+v", a.key, *a, *c)
				}
			}
		}
		for _, f := range refused {
			ok := false
			for _, h := range holds {
				if h.key == f.key && h.subStart < f.end && f.start < h.cancelEnd {
					ok = true
				}
			}
			if !ok {
				t.Fatalf("the subscription of %s was refused as already subscribed while nobody held it", f.key)
			}
		}
		// Quiescent: cancel the subscribers that do not read, then probe the others.
		var keep []*held
		for _, h := range remaining {
			if h.col == nil {
				h := h
				if !fake.Returns(fake.Stuck, func() { cancel(h) }) {
					t.Fatalf("cancelling %s (nobody reads its messages) does not return", h.h.key)
				}
			} else {
				keep = append(keep, h)
			}
		}
		used := map[string]int{}
		for _, h := range keep {
			used[h.h.key[:2]]++
		}
		for c := 0; c < nch; c++ {
			want := 0
			if used[chName(c)] > 0 {
				want = 1
			}
			if g := len(b.Open(chName(c))); g != want {
				t.Fatalf("%d broker subscriptions on channel %s with %d subscribed versions", g, chName(c), used[chName(c)])
			}
		}
		probe := func(h *held) {
			m := extensions.BrokerMessage{Headers: map[string][]byte{versioning.DefaultVersionHeaderKey: []byte(h.h.key[3:])}, Payload: []byte("probe")}
			b.Deliver(h.h.key[:2], m)
			if !fake.Eventually(fake.Stuck, func() bool {
				for _, g := range h.col.list() {
					if g == fake.MsgString(m) {
						return true
					}
				}
				return false
			}) {
				t.Fatalf("a message for %s does not arrive after the other cancellations", h.h.key)
			}
		}
		for _, h := range keep {
			probe(h)
		}
		for _, h := range keep {
			h := h
			if !fake.Returns(fake.Stuck, func() { cancel(h) }) {
				t.Fatalf("cancelling %s does not return", h.h.key)
			}
		}
		if g := len(b.Open("")); g != 0 {
			t.Fatalf("%d broker subscriptions are left when every version is cancelled", g)
		}
		// Everything can be subscribed again.
		b.Set(func(b *fake.Broker) { b.FailSub = nil })
		for c := 0; c < nch; c++ {
			for v := 0; v < nver; v++ {
				sub, err := w.Subscribe(withVersion(context.Background(), verName(v)), chName(c))
				if err != nil {
					t.Fatalf("subscribing %s/%s again: %v", chName(c), verName(v), err)
				}
				h := &held{h: &hold{key: chName(c) + "/" + verName(v)}, sub: sub, col: collect(sub, func(*extensions.AcknowledgeableBrokerMessage) {})}
				probe(h)
				if !fake.Returns(fake.Stuck, func() { cancel(h) }) {
					t.Fatalf("cancelling %s does not return", h.h.key)
				}
			}
		}
	})
}
