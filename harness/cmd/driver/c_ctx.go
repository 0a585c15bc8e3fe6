package main

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"pgregory.net/rapid"

	"verif/internal/fake"
	"verif/spec"
)

func init() {
	checks["context"] = func(d *D) { d.opRapid("context", addressed, d.contextCase) }
	checks["context-reply"] = func(d *D) {
		d.opRapid("context-reply", func(d *D, op *spec.OpInfo) bool {
			return !op.NoAddr && (op.Reply != nil && op.Reply.Address != "" || op.WaitFor != "")
		}, d.contextReplyCase)
	}
}

// describes says whether a text is the description of a broker message: the
// headers in any order and the payload.
func describes(s string, m extensions.BrokerMessage) bool {
	tail := `"payload":` + string(m.Payload) + "}"
	if !strings.HasSuffix(s, tail) {
		return false
	}
	head := strings.TrimSuffix(s, tail)
	if len(m.Headers) == 0 {
		return head == "{" || head == `{"headers":{},`
	}
	n := len(`{"headers":{},`) - 1
	for k, v := range m.Headers {
		h := fmt.Sprintf("%q:%q", k, v)
		if !strings.Contains(head, h) {
			return false
		}
		n += len(h) + 1
	}
	return len(head) == n
}

// about is what a context should say.
type about struct {
	side, addr, dir string
	msg             *extensions.BrokerMessage
	corr            *string
	noCorr          bool
}

func ctxText(ctx context.Context, k extensions.ContextKey) (string, bool) {
	v := ctx.Value(k)
	if v == nil {
		return "", false
	}
	s, ok := v.(string)
	if !ok {
		return fmt.Sprintf("a %T", v), true
	}
	return s, true
}

func (d *D) ctxBad(ctx context.Context, a about) string {
	var l []string
	want := func(k extensions.ContextKey, w string) {
		if s, ok := ctxText(ctx, k); !ok || s != w {
			l = append(l, fmt.Sprintf("%s is %q (present: %v), want %q", k, s, ok, w))
		}
	}
	if ctx == nil {
		return "no context"
	}
	want(extensions.ContextKeyIsVersion, d.doc.InfoVersion)
	want(extensions.ContextKeyIsProvider, a.side)
	want(extensions.ContextKeyIsChannel, a.addr)
	if a.dir != "" {
		want(extensions.ContextKeyIsDirection, a.dir)
	}
	if a.corr != nil {
		want(extensions.ContextKeyIsCorrelationID, *a.corr)
	}
	if s, ok := ctxText(ctx, extensions.ContextKeyIsCorrelationID); a.noCorr && ok {
		l = append(l, fmt.Sprintf("the correlation ID is %q for a message without one", s))
	}
	if a.msg != nil {
		if s, ok := ctxText(ctx, extensions.ContextKeyIsBrokerMessage); !ok || !describes(s, *a.msg) {
			l = append(l, fmt.Sprintf("the broker message is %q (present: %v), it should describe %s", s, ok, fake.MsgString(*a.msg)))
		}
	}
	return strings.Join(l, "; ")
}

type seenMsg struct {
	ctx context.Context
	msg extensions.BrokerMessage
	end error // of the context
}

// eye is a middleware that records.
type eye struct {
	mu sync.Mutex
	l  []seenMsg
}

func (e *eye) mw(ctx context.Context, msg *extensions.BrokerMessage, _ extensions.NextMiddleware) error {
	e.mu.Lock()
	e.l = append(e.l, seenMsg{ctx, fake.CopyMsg(*msg), ctx.Err()})
	e.mu.Unlock()
	return nil
}

func (e *eye) take() []seenMsg {
	e.mu.Lock()
	defer e.mu.Unlock()
	l := e.l
	e.l = nil
	return l
}

type ctxMark struct{}

// contextCase: messages of several operations, sent with drawn contexts; every
// context that middlewares, handlers, error handlers, brokers and loggers get.
func (d *D) contextCase(t *rapid.T) {
	b := fake.NewBroker()
	errs := &errbox{}
	lg := map[string]*fake.Logger{"app": {}, "user": {}}
	eyes := map[string]*eye{"app": {}, "user": {}}
	side := map[string]*ctl{}
	for _, s := range []string{"app", "user"} {
		c, err := d.newCtl(s, b, ctlOpts{lg: lg[s], mws: []extensions.Middleware{eyes[s].mw}, eh: errs.handle})
		if err != nil {
			t.Fatalf("creating the %s controller: %v", s, err)
		}
		side[s] = c
	}
	settled := make(chan string, 100)
	b.AckHook = func(string, extensions.BrokerMessage) *fake.Ack {
		return fake.NewAck(func(s string) { settled <- s })
	}
	// logs checks the entries of a call about an address.
	taken := map[string]int{}
	logs := func(what, s, addr, dir string) {
		t.Helper()
		l := lg[s].Entries()
		for _, e := range l[taken[s]:] {
			if bad := d.ctxBad(e.Ctx, about{side: s, addr: addr, dir: dir}); bad != "" {
				t.Fatalf("%s: context of the log %q of the %s: %s", what, e.Msg, s, bad)
			}
			d.class("log entry")
		}
		taken[s] = len(l)
	}
	type pair struct {
		op     *spec.OpInfo
		params map[string]string
		addr   string
		box    *inbox
		fail   bool
		mu     sync.Mutex
	}
	var pairs []*pair
	used := map[string]bool{}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "operations"); i < n; i++ {
		p := &pair{op: d.op(t), box: &inbox{}}
		p.params = d.drawParams(t, p.op, paramPool)
		p.addr = address(p.op, p.params)
		if used[p.addr] {
			continue
		}
		used[p.addr] = true
		rc := other(p.op.Sender)
		a := opArgs(p.op, p.params)
		a.h = p.box.handler(p.op.Name)
		if rapid.IntRange(0, 3).Draw(t, "first attempt fails") == 0 {
			b.Set(func(b *fake.Broker) { b.FailSub = func(string) error { return fake.ErrInjected } })
			if err := errOf(must(t, side[rc], p.op.Sub, a)); err == nil {
				t.Fatalf("%s succeeds although the broker refuses", p.op.Sub)
			}
			b.Set(func(b *fake.Broker) { b.FailSub = nil })
			logs(p.op.Sub+" refused by the broker", rc, p.addr, "reception")
		}
		if err := errOf(must(t, side[rc], p.op.Sub, a)); err != nil {
			t.Fatalf("%s: %v", p.op.Sub, err)
		}
		logs(p.op.Sub, rc, p.addr, "reception")
		if rapid.IntRange(0, 3).Draw(t, "subscribe twice") == 0 {
			_ = errOf(must(t, side[rc], p.op.Sub, a))
			logs(p.op.Sub+" again", rc, p.addr, "reception")
		}
		for _, s := range b.Open(p.addr) {
			if bad := d.ctxBad(s.Ctx, about{side: rc, addr: p.addr, dir: "reception"}); bad != "" {
				t.Fatalf("context given to the broker by %s: %s", p.op.Sub, bad)
			}
		}
		pairs = append(pairs, p)
	}
	for _, e := range eyes {
		e.take()
	}
	ctxs := []context.Context{context.Background(), context.WithValue(context.Background(), ctxMark{}, "mark")}
	var story []string
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "messages"); i < n; i++ {
		p := rapid.SampledFrom(pairs).Draw(t, "which")
		op := p.op
		rc := other(op.Sender)
		m := d.genMsg(t, op.Msg, true)
		kind := rapid.SampledFrom([]string{"good", "good", "handler fails", "undecodable", "broker fails"}).Draw(t, "kind")
		undec := d.undecodable(op.Msg)
		if kind == "undecodable" && undec == nil {
			kind = "good"
		}
		p.box.mu.Lock()
		p.box.err = nil
		if kind == "handler fails" {
			p.box.err = func(int) error { return sentinel("handler") }
		}
		p.box.mu.Unlock()
		story = append(story, op.Name+": "+kind)
		fatal := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s, message %d (%s on %q): %s", op.Name, i, kind, p.addr, fmt.Sprintf(f, a...))
		}
		ne, nb := len(errs.all()), p.box.count()
		var sent extensions.BrokerMessage
		if kind == "undecodable" {
			sent = extensions.BrokerMessage{Headers: map[string][]byte{"h": []byte("v")}, Payload: undec}
			if k := len(b.Deliver(p.addr, sent)); k != 1 {
				fatal("%d subscriptions", k)
			}
		} else {
			ci := rapid.IntRange(0, len(ctxs)-1).Draw(t, "context")
			v, bad := d.build(side[op.Sender].msgType(op.Send), op.Msg, m)
			if bad != "" {
				t.Fatal(bad)
			}
			a := opArgs(op, p.params)
			a.ctx, a.msg = ctxs[ci], v
			np := len(b.Publications())
			if kind == "broker fails" {
				b.Set(func(b *fake.Broker) { b.FailPub = func(string) error { return fake.ErrInjected } })
			}
			err := errOf(must(t, side[op.Sender], op.Send, a))
			b.Set(func(b *fake.Broker) { b.FailPub = nil })
			logs(op.Send, op.Sender, p.addr, "publication")
			mws := eyes[op.Sender].take()
			if len(mws) != 1 {
				fatal("the middleware runs %d times", len(mws))
			}
			sent = mws[0].msg
			w := about{side: op.Sender, addr: p.addr, dir: "publication", msg: &sent}
			check := func(who string, ctx context.Context) {
				t.Helper()
				if bad := d.ctxBad(ctx, w); bad != "" {
					fatal("context of the %s: %s", who, bad)
				}
				if ctx.Value(ctxMark{}) != a.ctx.Value(ctxMark{}) {
					fatal("a value of the caller's context is lost in the context of the %s", who)
				}
			}
			if op.Msg.Corr != "" {
				s, ok := ctxText(mws[0].ctx, extensions.ContextKeyIsCorrelationID)
				if id, _ := m.get(op.Msg.Corr); id != "" {
					w.corr = &id
				} else if !ok || s == "" {
					fatal("no correlation ID in the context of the middleware")
				} else {
					w.corr = &s
				}
			}
			check("middleware of the sender", mws[0].ctx)
			if kind == "broker fails" {
				if err == nil {
					fatal("no error")
				}
				continue
			}
			if err != nil {
				fatal("%v", err)
			}
			pubs := b.Publications()[np:]
			if len(pubs) != 1 {
				fatal("%d publications", len(pubs))
			}
			check("broker", pubs[0].Ctx)
			if k := len(b.Deliver(p.addr, pubs[0].Msg)); k != 1 {
				fatal("%d subscriptions", k)
			}
			ctxs = append(ctxs, context.WithoutCancel(mws[0].ctx))
			if !fake.Returns(stuck, func() { <-settled }) {
				fatal("not settled")
			}
			if p.box.count() != nb+1 {
				fatal("the handler runs %d times", p.box.count()-nb)
			}
			g := p.box.get(nb)
			ra := about{side: rc, addr: p.addr, dir: "reception", msg: &sent}
			if id, ok := corrOf(g.msg); ok && id != "" {
				if w.corr != nil && id != *w.corr {
					fatal("the correlation ID received is %q, the context of the sender says %q", id, *w.corr)
				}
				ra.corr = &id
			} else {
				ra.noCorr = true
			}
			if bad := d.ctxBad(g.ctx, ra); bad != "" {
				fatal("context of the handler: %s", bad)
			}
			if g.end != nil {
				fatal("the context of the handler has ended: %v", g.end)
			}
			ctxs = append(ctxs, context.WithoutCancel(g.ctx))
			if ra.corr != nil {
				d.class("correlation ID in context")
			}
		}
		if kind == "undecodable" && !fake.Returns(stuck, func() { <-settled }) {
			fatal("not settled")
		}
		rm := eyes[rc].take()
		if len(rm) != 1 {
			fatal("the middleware of the receiver runs %d times", len(rm))
		}
		ra := about{side: rc, addr: p.addr, dir: "reception", msg: &sent}
		if bad := d.ctxBad(rm[0].ctx, ra); bad != "" {
			fatal("context of the middleware of the receiver: %s", bad)
		}
		if rm[0].end != nil {
			fatal("the context of the middleware of the receiver has ended: %v", rm[0].end)
		}
		if kind != "good" {
			if !fake.Eventually(stuck, func() bool { return len(errs.all()) > ne }) {
				fatal("the error handler is not called")
			}
			e := errs.all()[ne]
			if bad := d.ctxBad(e.ctx, ra); bad != "" {
				fatal("context of the error handler: %s", bad)
			}
			if e.end != nil {
				fatal("the context of the error handler has ended: %v", e.end)
			}
			if e.topic != p.addr {
				fatal("the error handler gets the topic %q", e.topic)
			}
			if fake.MsgString(e.msg) != fake.MsgString(sent) {
				fatal("the error handler gets the message %s, want %s", fake.MsgString(e.msg), fake.MsgString(sent))
			}
			ctxs = append(ctxs, context.WithoutCancel(e.ctx))
		}
		logs("reception", rc, p.addr, "reception")
		d.class(kind)
	}
	for _, p := range pairs {
		if rapid.Bool().Draw(t, "unsubscribe") {
			must(t, side[other(p.op.Sender)], p.op.Unsub, opArgs(p.op, p.params))
			logs(p.op.Unsub, other(p.op.Sender), p.addr, "")
		}
	}
	for _, s := range []string{"app", "user"} {
		must(t, side[s], "Close", args{ctx: context.Background()})
	}
	d.cas(fmt.Sprintf("v%d %s", d.doc.V, strings.Join(story, ", ")+pairs[0].addr), fmt.Sprintf("v%d", d.doc.V))
	d.sample("context", map[string]any{"history": story})
}

// contextReplyCase: contexts while waiting for a reply.
func (d *D) contextReplyCase(t *rapid.T) {
	op := d.op(t)
	e := &eye{}
	k := d.newAsker(t, op, []extensions.Middleware{e.mw})
	if op.Reply != nil && k.replyAt == address(op, k.params) {
		d.cas("")
		return
	}
	id := rapid.SampledFrom([]string{"id", "é", "a b", "0", "%s"}).Draw(t, "id")
	m := d.genMsg(t, op.Msg, true)
	if op.Msg.Corr != "" {
		m.put(op.Msg.Corr, id)
	}
	rep := k.genReply(t, id)
	bm, bad := k.encodeReply(rep)
	if bad != "" {
		t.Fatal(bad)
	}
	v, bad := d.build(k.askType(), op.Msg, m)
	if bad != "" {
		t.Fatal(bad)
	}
	cancelled := rapid.IntRange(0, 3).Draw(t, "cancelled") == 0
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxMark{}, "mark"))
	defer cancel()
	if rapid.Bool().Draw(t, "context of another operation") {
		for _, key := range []extensions.ContextKey{extensions.ContextKeyIsVersion, extensions.ContextKeyIsProvider, extensions.ContextKeyIsChannel, extensions.ContextKeyIsDirection} {
			ctx = context.WithValue(ctx, key, "another")
		}
	}
	answer := func() {
		if cancelled {
			cancel()
			return
		}
		k.b.Deliver(k.replyAt, bm)
	}
	k.b.Set(func(b *fake.Broker) {
		b.OnPublish = func(p fake.Published) {
			if op.Reply != nil {
				answer()
			}
		}
	})
	type result struct {
		err  error
		text string
	}
	done := make(chan result, 1)
	go func() {
		_, err, text := k.ask(ctx, v, func(context.Context) error { answer(); return nil })
		done <- result{err, text}
	}()
	var r result
	if !fake.Returns(stuck, func() { r = <-done }) {
		t.Fatal("waiting does not return")
	}
	if r.text != "" {
		t.Fatal(r.text)
	}
	if cancelled != (r.err != nil) {
		t.Fatalf("cancelled %v, error %v", cancelled, r.err)
	}
	seen := e.take()
	var want []about
	if op.Reply != nil {
		w := about{side: k.c.side, addr: address(op, k.params), dir: "publication"}
		if op.Msg.Corr != "" {
			w.corr = &id
		}
		want = append(want, w)
	}
	if !cancelled {
		w := about{side: k.c.side, addr: k.replyAt, dir: "wait-for"}
		if correlated(op) {
			w.corr = &id
		}
		want = append(want, w)
	}
	if len(seen) != len(want) {
		t.Fatalf("the middleware runs %d times, want %d", len(seen), len(want))
	}
	for i := range seen {
		w := want[i]
		w.msg = &seen[i].msg
		if w.dir == "wait-for" {
			w.msg = &bm
		}
		if bad := d.ctxBad(seen[i].ctx, w); bad != "" {
			t.Fatalf("context of the middleware (%s): %s", w.dir, bad)
		}
	}
	for _, s := range k.b.All() {
		if bad := d.ctxBad(s.Ctx, about{side: k.c.side, addr: k.replyAt, dir: "wait-for"}); bad != "" {
			t.Fatalf("context given to the broker for the subscription: %s", bad)
		}
		if s.Ctx.Value(ctxMark{}) == nil {
			t.Fatalf("a value of the caller's context is lost in the context of the subscription")
		}
	}
	for _, en := range k.lg.Entries() {
		if bad := d.ctxBad(en.Ctx, about{side: k.c.side, addr: k.replyAt, dir: "wait-for"}); bad != "" {
			t.Fatalf("context of the log %q: %s", en.Msg, bad)
		}
		d.class("log entry")
	}
	if cancelled {
		d.class("cancelled")
	}
	d.cas(fmt.Sprintf("%s %v %s %s", op.Name, cancelled, id, k.replyAt), fmt.Sprintf("v%d", d.doc.V), "reply")
	d.sample("reply", map[string]any{"operation": op.Name, "reply at": k.replyAt, "cancelled": cancelled})
}

// askType is the type of the message that is asked with.
func (k *asker) askType() reflect.Type {
	if k.op.Reply != nil {
		return k.c.msgType(k.op.Send)
	}
	return k.c.handlerMsg(k.op.Sub)
}
