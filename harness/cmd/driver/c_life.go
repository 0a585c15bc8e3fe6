package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"pgregory.net/rapid"

	"verif/internal/fake"
	"verif/spec"
)

func init() {
	checks["life"] = func(d *D) { d.opRapid("life", func(*D, *spec.OpInfo) bool { return true }, d.lifeCase) }
}

// lifeSub is an expected subscription.
type lifeSub struct {
	op     *spec.OpInfo
	tag    string // handler that gets the messages
	params map[string]string
}

// lifeCase runs a history on one controller.
func (d *D) lifeCase(t *rapid.T) {
	side := rapid.SampledFrom([]string{"app", "user"}).Draw(t, "side")
	var ops, named []*spec.OpInfo // received by this side
	for _, o := range d.api {
		if other(o.Sender) == side {
			ops = append(ops, o)
			if !o.NoAddr {
				named = append(named, o)
			}
		}
	}
	if len(named) == 0 {
		d.class("nothing received")
		return
	}
	b := fake.NewBroker()
	b.Cleanup = func(*fake.Sub) {}
	errs := &errbox{}
	lg := &fake.Logger{}
	c, err := d.newCtl(side, b, ctlOpts{lg: lg, eh: errs.handle})
	if err != nil {
		t.Fatalf("creating the %s controller: %v", side, err)
	}
	box := &inbox{}
	model := map[string]*lifeSub{}
	var trace []string
	note := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
	fatal := func(f string, a ...any) {
		t.Helper()
		t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(trace, "; "))
	}
	ended := false // the context of the last call had ended
	leaveCtx := func() context.Context {
		ended = rapid.IntRange(0, 4).Draw(t, "ended context") == 0
		ctx, cancel := context.WithCancel(context.Background())
		if ended {
			note("with a context that has ended:")
			d.class("context that has ended")
			cancel()
		} else {
			t.Cleanup(cancel)
		}
		return ctx
	}
	check := func() {
		want, got := []string{}, []string{}
		for a := range model {
			want = append(want, a)
		}
		sort.Strings(want)
		look := func() bool {
			got = []string{}
			for _, s := range b.Open("") {
				got = append(got, s.Channel)
			}
			sort.Strings(got)
			return reflect.DeepEqual(want, got)
		}
		// A call whose context has ended does not wait.
		if ok := look(); !ok && !(ended && fake.Eventually(stuck, look)) {
			fatal("the broker holds subscriptions on %q, want %q", got, want)
		}
		for _, s := range b.All() {
			if s.Cleanups > 1 {
				fatal("the subscription on %q is cleaned %d times", s.Channel, s.Cleanups)
			}
		}
	}
	// Targets with few distinct addresses.
	type target struct {
		op     *spec.OpInfo
		params map[string]string
		addr   string
	}
	var pool []target
	for i := rapid.IntRange(1, 4).Draw(t, "targets"); i > 0; i-- {
		op := named[rapid.IntRange(0, len(named)-1).Draw(t, "op")]
		p := d.drawParams(t, op, []string{"a", "b", "c/d"})
		pool = append(pool, target{op, p, address(op, p)})
	}
	pick := func() target { return pool[rapid.IntRange(0, len(pool)-1).Draw(t, "target")] }
	n := 0
	subscribe := func(tg target, fail bool) {
		n++
		tag := fmt.Sprintf("h%d", n)
		a := opArgs(tg.op, tg.params)
		a.h = box.handler(tag)
		tried := 0
		b.Set(func(b *fake.Broker) {
			b.FailSub = func(string) error {
				tried++
				if fail {
					return fake.ErrInjected
				}
				return nil
			}
		})
		ctx, cancel := context.WithCancel(context.Background())
		a.ctx = ctx
		err := errOf(must(t, c, tg.op.Sub, a))
		if rapid.IntRange(0, 2).Draw(t, "end context") == 0 {
			note("(its context ends then:)")
			cancel()
		} else {
			t.Cleanup(cancel)
		}
		note("%s(%v) broker fails: %v -> %v", tg.op.Sub, tg.params, fail, err)
		switch {
		case model[tg.addr] != nil:
			if !errors.Is(err, extensions.ErrAlreadySubscribedChannel) {
				fatal("a second subscription on %q gives %v", tg.addr, err)
			}
			if tried > 0 {
				fatal("a second subscription on %q is asked to the broker", tg.addr)
			}
			d.class("second subscription")
		case fail:
			if !errors.Is(err, fake.ErrInjected) {
				fatal("the broker fails to subscribe, %s gives %v", tg.op.Sub, err)
			}
			d.class("failed subscription")
		case err != nil:
			fatal("%s: %v", tg.op.Sub, err)
		default:
			model[tg.addr] = &lifeSub{tg.op, tag, tg.params}
			d.class("subscription")
		}
	}
	// deliver sends messages to an address and compares what arrives.
	deliver := func(tg target, k int, act func()) {
		s := model[tg.addr]
		op := tg.op
		if s != nil {
			op = s.op
		}
		from := box.count()
		var sent []*Msg
		for i := 0; i < k; i++ {
			m := d.genSent(t, op)
			sent = append(sent, m)
		}
		var once sync.Once
		if act != nil {
			box.mu.Lock()
			box.err = func(int) error { once.Do(act); return nil }
			box.mu.Unlock()
		}
		taken := 0
		for _, m := range sent {
			taken += len(b.Deliver(tg.addr, d.encode(t, op, m)))
		}
		note("%d messages on %q", k, tg.addr)
		if s == nil {
			if taken > 0 {
				fatal("%d messages on %q are taken, nobody is subscribed", taken, tg.addr)
			}
			d.class("message without subscription")
			return
		}
		if act == nil && taken != k {
			fatal("%d messages on %q are taken %d times", k, tg.addr, taken)
		}
		ok := fake.Eventually(stuck, func() bool { return box.count() >= from+taken || len(errs.all()) > 0 })
		if e := errs.all(); len(e) > 0 {
			fatal("error handler: %v", e[0].err)
		}
		if !ok {
			fatal("%d messages sent on %q, %d received", k, tg.addr, box.count()-from)
		}
		l := box.all()[from:]
		if len(l) != taken {
			fatal("%d messages sent on %q, %d received", taken, tg.addr, len(l))
		}
		for i, g := range l {
			if g.op != s.tag {
				fatal("a message on %q goes to the handler %s, not %s", tg.addr, g.op, s.tag)
			}
			if bad := d.compare(g.msg, op.Msg, sent[i]); bad != "" {
				fatal("message %d of %d on %q is not the one sent: %s", i+1, k, tg.addr, bad)
			}
		}
		if act != nil {
			box.mu.Lock()
			box.err = nil
			box.mu.Unlock()
		}
		d.class("messages")
	}
	// subscriber for subscribe-all
	mk := d.p.AppSub
	if side == "user" {
		mk = d.p.UserSub
	}
	allNames := map[string]*spec.OpInfo{}
	conflict := map[string]int{}
	for _, o := range ops {
		allNames[o.Handler] = o
		if len(o.Params) == 0 {
			conflict[o.Address]++
		}
	}
	steps := rapid.IntRange(2, 14).Draw(t, "steps")
	for i := 0; i < steps; i++ {
		switch k := rapid.IntRange(0, 19).Draw(t, "step"); {
		case k < 6:
			subscribe(pick(), false)
		case k == 6:
			subscribe(pick(), true)
		case k < 10:
			tg := pick()
			a := opArgs(tg.op, tg.params)
			a.ctx = leaveCtx()
			must(t, c, tg.op.Unsub, a)
			note("%s(%v)", tg.op.Unsub, tg.params)
			if model[tg.addr] == nil {
				d.class("unsubscription of nothing")
			} else {
				d.class("unsubscription")
			}
			delete(model, tg.addr)
		case k < 15:
			deliver(pick(), rapid.IntRange(1, 4).Draw(t, "burst"), nil)
		case k == 15: // the handler unsubscribes
			tg := pick()
			if model[tg.addr] == nil {
				continue
			}
			done := make(chan string, 1)
			deliver(tg, 1, func() {
				a := opArgs(tg.op, tg.params)
				_, bad := c.call(tg.op.Unsub, a)
				done <- bad
			})
			var bad string
			if !fake.Returns(stuck, func() { bad = <-done }) {
				fatal("%s called by the handler does not return", tg.op.Unsub)
			}
			if bad != "" {
				fatal("%s", bad)
			}
			note("the handler calls %s", tg.op.Unsub)
			d.class("handler unsubscribes")
			delete(model, tg.addr)
		case k == 16 && mk == nil:
			continue
		case k == 16 || k == 17: // subscribe to all
			if mk == nil {
				continue
			}
			n++
			tag := fmt.Sprintf("h%d", n)
			m := all(d.doc.V, "Subscribe")
			sub := mk(func(name string, ctx context.Context, msg any) error {
				o := allNames[name]
				x := tag
				if o != nil {
					x = tag + " " + o.Handler
				}
				return box.handler(x)(ctx, reflect.ValueOf(msg))
			})
			failAt := -1
			if rapid.IntRange(0, 3).Draw(t, "fails") == 0 {
				failAt = rapid.IntRange(0, 2).Draw(t, "at")
			}
			tried := 0
			b.Set(func(b *fake.Broker) {
				b.FailSub = func(string) error {
					tried++
					if tried-1 == failAt {
						return fake.ErrInjected
					}
					return nil
				}
			})
			err := errOf(must(t, c, m, args{ctx: context.Background(), iface: sub}))
			note("%s failing at %d -> %v", m, failAt, err)
			open := map[string]bool{}
			for _, s := range b.Open("") {
				open[s.Channel] = true
			}
			clash := false
			for a, k := range conflict {
				if k > 1 || model[a] != nil {
					clash = true
				}
			}
			added := 0
			for _, o := range ops {
				if len(o.Params) == 0 && model[o.Address] == nil && open[o.Address] {
					who := o
					if conflict[o.Address] > 1 {
						who = nil // which one is not known
					}
					if who == nil {
						// forget it
						must(t, c, o.Unsub, opArgs(o, nil))
						note("%s", o.Unsub)
						delete(open, o.Address)
						continue
					}
					model[o.Address] = &lifeSub{o, tag + " " + o.Handler, nil}
					added++
				}
			}
			injected := failAt >= 0 && tried > failAt
			switch {
			case err == nil && (clash || injected):
				fatal("%s succeeds although %s", m, map[bool]string{true: "the broker failed", false: "a channel was already subscribed"}[injected])
			case err != nil && !clash && !injected:
				fatal("%s: %v", m, err)
			case err != nil && !errors.Is(err, extensions.ErrAlreadySubscribedChannel) && !errors.Is(err, fake.ErrInjected):
				fatal("%s: %v", m, err)
			case err != nil && injected && !errors.Is(err, fake.ErrInjected), err != nil && !injected && errors.Is(err, fake.ErrInjected):
				fatal("%s: %v, broker failure: %v", m, err, injected)
			case err == nil:
				for a := range conflict {
					if model[a] == nil {
						fatal("%s does not subscribe to %q", m, a)
					}
				}
			}
			d.class("subscribe all")
			for _, o := range ops { // subscribe-all handlers can be used as targets
				if len(o.Params) == 0 && !o.NoAddr {
					pool = append(pool, target{o, nil, o.Address})
				}
			}
		case k == 18: // nil subscriber
			want := extensions.ErrNilAppSubscriber
			if side == "user" {
				want = extensions.ErrNilUserSubscriber
			}
			m := all(d.doc.V, "Subscribe")
			err := errOf(must(t, c, m, args{ctx: context.Background()}))
			note("%s(nil) -> %v", m, err)
			if !errors.Is(err, want) {
				fatal("%s without subscriber gives %v, want %v", m, err, want)
			}
			d.class("nil subscriber")
		default:
			m := all(d.doc.V, "Unsubscribe")
			if rapid.Bool().Draw(t, "close") {
				m = "Close"
			}
			must(t, c, m, args{ctx: leaveCtx()})
			note("%s", m)
			model = map[string]*lifeSub{}
			d.class(m)
		}
		check()
		ended = false
	}
	for _, tg := range pool {
		deliver(tg, 1, nil)
	}
	must(t, c, "Close", args{ctx: context.Background()})
	note("Close")
	model = map[string]*lifeSub{}
	check()
	before := box.count()
	for _, tg := range pool {
		deliver(tg, 1, nil)
	}
	if box.count() != before {
		fatal("messages are delivered after Close")
	}
	key := ""
	if len(trace) > 3 {
		key = side + strings.Join(trace, ";")
	}
	d.cas(key, fmt.Sprintf("v%d", d.doc.V))
	d.sample("history", trace)
}

// encode gives the message as the other side publishes it.
func (d *D) encode(t *rapid.T, op *spec.OpInfo, m *Msg) extensions.BrokerMessage {
	b := fake.NewBroker()
	snd, err := d.newCtl(op.Sender, b, ctlOpts{lg: &fake.Logger{}, eh: (&errbox{}).handle})
	if err != nil {
		t.Fatalf("creating the %s controller: %v", op.Sender, err)
	}
	mt := snd.msgType(op.Send)
	if mt == nil {
		t.Fatalf("the %s controller has no method %s with a message", snd.side, op.Send)
	}
	v, bad := d.build(mt, op.Msg, m)
	if bad != "" {
		t.Fatalf("building %s: %s", mt, bad)
	}
	params := map[string]string{}
	for _, p := range op.Params {
		params[p.Key] = "1"
	}
	a := opArgs(op, params)
	if op.NoAddr {
		a.addr = "somewhere"
	}
	a.msg = v
	if err := errOf(must(t, snd, op.Send, a)); err != nil {
		t.Fatalf("%s of %s: %v", op.Send, m, err)
	}
	p := b.Publications()
	if len(p) != 1 {
		t.Fatalf("%s gives %d publications", op.Send, len(p))
	}
	return p[0].Msg
}

// genSent draws a message with a correlation ID if it can have one.
func (d *D) genSent(t *rapid.T, op *spec.OpInfo) *Msg {
	m := d.genMsg(t, op.Msg, true)
	if op.Msg.Corr != "" {
		if id, _ := m.get(op.Msg.Corr); id == "" {
			m.put(op.Msg.Corr, fmt.Sprintf("id-%d", rapid.IntRange(0, 99).Draw(t, "id")))
		}
	}
	return m
}
