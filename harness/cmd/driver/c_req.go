package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"pgregory.net/rapid"

	"verif/internal/fake"
	"verif/spec"
)

func init() {
	ok := func(d *D, op *spec.OpInfo) bool { return !op.NoAddr && (op.Reply != nil || op.WaitFor != "") }
	checks["request"] = func(d *D) { d.opRapid("request", ok, d.requestCase) }
	checks["requests"] = func(d *D) {
		d.opRapid("requests", func(d *D, op *spec.OpInfo) bool { return ok(d, op) && correlated(op) }, d.requestsCase)
	}
}

func correlated(op *spec.OpInfo) bool {
	return op.WaitFor != "" || op.Msg.Corr != "" && op.Reply != nil && op.Reply.Msg.Corr != ""
}

// asker is one side that asks and waits, and the other one that answers.
type asker struct {
	d        *D
	op       *spec.OpInfo
	b        *fake.Broker
	c        *ctl // asks
	srv      *ctl // answers
	params   map[string]string
	reply    *spec.EffMsg
	replyAt  string // address of the replies
	lg       *fake.Logger
	errs     *errbox
	mu       sync.Mutex
	problems []string
	acks     []*ackRec
}

type ackRec struct {
	addr string
	msg  string
	a    *fake.Ack
}

func (k *asker) problem(f string, a ...any) {
	k.mu.Lock()
	k.problems = append(k.problems, fmt.Sprintf(f, a...))
	k.mu.Unlock()
}

func (d *D) newAsker(t *rapid.T, op *spec.OpInfo, mws []extensions.Middleware) *asker {
	k := &asker{d: d, op: op, b: fake.NewBroker(), lg: &fake.Logger{}, errs: &errbox{}}
	k.b.AckHook = func(addr string, m extensions.BrokerMessage) *fake.Ack {
		a := fake.NewAck(func(string) {})
		k.mu.Lock()
		k.acks = append(k.acks, &ackRec{addr, fake.MsgString(m), a})
		k.mu.Unlock()
		return a
	}
	ask := op.Sender
	if op.WaitFor != "" {
		ask = "user"
	}
	for _, s := range []string{ask, other(ask)} {
		o := ctlOpts{lg: k.lg, eh: k.errs.handle}
		if s == ask {
			o.mws = mws
		}
		c, err := d.newCtl(s, k.b, o)
		if err != nil {
			t.Fatalf("creating the %s controller: %v", s, err)
		}
		if s == ask {
			k.c = c
		} else {
			k.srv = c
		}
	}
	k.params = d.drawParams(t, op, []string{"a", "b/c", "%d"})
	if op.Reply != nil {
		k.reply, k.replyAt = op.Reply.Msg, op.Reply.Address
	} else {
		k.reply, k.replyAt = op.Msg, address(op, k.params)
	}
	return k
}

// encodeReply gives the reply as the other side publishes it.
func (k *asker) encodeReply(m *Msg) (extensions.BrokerMessage, string) {
	b := fake.NewBroker()
	side, method := k.op.Sender, k.op.Send
	if k.op.Reply != nil {
		side, method = other(k.op.Sender), k.op.Reply.SendReply
	}
	c, err := k.d.newCtl(side, b, ctlOpts{lg: &fake.Logger{}})
	if err != nil {
		return extensions.BrokerMessage{}, err.Error()
	}
	v, bad := k.replyValue(c, method, m)
	if bad != "" {
		return extensions.BrokerMessage{}, bad
	}
	a := opArgs(k.op, k.params)
	a.addr, a.msg = "somewhere", v
	out, bad := c.call(method, a)
	if bad == "" && errOf(out) != nil {
		bad = fmt.Sprintf("%s of %s: %v", method, m, errOf(out))
	}
	p := b.Publications()
	if bad == "" && len(p) != 1 {
		bad = fmt.Sprintf("%s gives %d publications", method, len(p))
	}
	if bad != "" {
		return extensions.BrokerMessage{}, bad
	}
	return p[0].Msg, ""
}

func (k *asker) replyValue(c *ctl, method string, m *Msg) (reflect.Value, string) {
	mt := c.msgType(method)
	if mt == nil {
		return reflect.Value{}, fmt.Sprintf("the %s controller has no method %s with a message", c.side, method)
	}
	return k.d.build(mt, k.reply, m)
}

// undecodable gives bytes that are not a payload of the message.
func (d *D) undecodable(em *spec.EffMsg) []byte {
	if em.Payload == nil {
		return nil
	}
	switch d.vg.kind(em.Payload) {
	case "object", "array", "integer", "number", "boolean", "time", "date":
		return []byte("{]")
	}
	return nil
}

// genReply draws a reply with a correlation ID if it has a place for it.
func (k *asker) genReply(t *rapid.T, id string) *Msg {
	m := k.d.genMsg(t, k.reply, true)
	if k.reply.Corr != "" {
		m.put(k.reply.Corr, id)
	}
	return m
}

func (m *Msg) withID(em *spec.EffMsg, id string) *Msg {
	if em.Corr == "" {
		return m
	}
	c := m.clone()
	c.put(em.Corr, id)
	return c
}

// ask sends a request and waits for the reply.
func (k *asker) ask(ctx context.Context, v reflect.Value, script func(context.Context) error) (reflect.Value, error, string) {
	a := opArgs(k.op, k.params)
	a.ctx = ctx
	method := k.op.WaitFor
	if k.op.Reply != nil {
		method = k.op.Reply.Request
		a.msg = v
	} else {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		a.iface = p.Interface()
		a.h = func(ctx context.Context, _ reflect.Value) error { return script(ctx) }
	}
	out, bad := k.c.call(method, a)
	if bad != "" {
		return reflect.Value{}, nil, bad
	}
	return out[0], errOf(out), ""
}

// requestCase: one request, with other messages, failures and cancellations.
func (d *D) requestCase(t *rapid.T) {
	op := d.op(t)
	final := rapid.SampledFrom([]string{"helper", "helper", "send reply", "raw", "raw", "twice", "twice", "cancel", "deadline", "ended", "send fails", "subscription fails", "canceled before", "bad reply", "no address"}).Draw(t, "outcome")
	k := d.newAsker(t, op, nil)
	v3 := op.Reply != nil
	corr := correlated(op)
	if !v3 && (final == "helper" || final == "send reply") {
		final = "raw"
	}
	m := d.genSent(t, op)
	idLoc := op.Msg.Corr
	generated := false
	if v3 && idLoc != "" && rapid.Bool().Draw(t, "no ID") {
		m.drop(idLoc, op.Msg)
		generated = true
	}
	if v3 && op.Reply.Address == "" {
		if op.Reply.AddrLoc == "" {
			d.cas("")
			return
		}
		k.replyAt = rapid.SampledFrom([]string{"reply/here", "r", "é %s"}).Draw(t, "reply address")
		m.put(op.Reply.AddrLoc, k.replyAt)
	}
	reqAt := address(op, k.params)
	if v3 && k.replyAt == reqAt {
		d.cas("")
		return
	}
	if final == "no address" {
		final = "raw"
		if v3 && op.Reply.Address == "" {
			c := m.clone()
			c.drop(op.Reply.AddrLoc, op.Msg)
			if _, still := c.get(op.Reply.AddrLoc); !still {
				m, final = c, "no address"
			}
		}
	}
	bad := d.undecodable(k.reply)
	if final == "bad reply" && (corr || bad == nil) {
		final = "raw"
	}
	// What arrives before the outcome.
	type junk struct {
		kind string
		m    *Msg
	}
	var pre []junk
	for i := rapid.IntRange(0, 3).Draw(t, "before"); i > 0; i-- {
		kinds := []string{"elsewhere"}
		if corr {
			kinds = append(kinds, "other ID", "other ID", "no ID")
			if bad != nil {
				kinds = append(kinds, "undecodable")
			}
		}
		pre = append(pre, junk{rapid.SampledFrom(kinds).Draw(t, "kind"), k.genReply(t, "")})
	}
	rep := k.genReply(t, "")
	dup := k.genReply(t, "")
	otherID := rapid.SampledFrom([]string{"other", "x", "ID"}).Draw(t, "other ID")

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if final == "deadline" {
		var c2 context.CancelFunc
		ctx, c2 = context.WithTimeout(ctx, time.Duration(rapid.IntRange(0, 3).Draw(t, "ms"))*time.Millisecond)
		defer c2()
	}
	bystander := rapid.Bool().Draw(t, "bystander")
	if bystander {
		if _, err := k.b.Subscribe(context.Background(), k.replyAt); err != nil {
			t.Fatal(err)
		}
	}
	base := len(k.b.Open(k.replyAt))
	consumed := 0 // messages on the reply subscription that are read
	own := func() *fake.Sub {
		l := k.b.Open(k.replyAt)
		if len(l) != base+1 {
			return nil
		}
		return l[len(l)-1]
	}
	send := func(addr string, bm extensions.BrokerMessage, read bool) {
		k.b.Deliver(addr, bm)
		if read && addr == k.replyAt {
			consumed++
		}
	}
	gotID := ""
	skip := map[string]bool{"send fails": true, "subscription fails": true, "no address": true, "canceled before": true, "deadline": true}[final]
	played := make(chan struct{})
	var playing atomic.Bool
	play := func(rctx context.Context, recv reflect.Value) {
		if skip {
			return
		}
		if playing.Swap(true) {
			k.problem("the request arrives twice")
			return
		}
		defer close(played)
		s := own()
		if s == nil {
			k.problem("when the request is sent there are %d subscriptions on %q, want %d", len(k.b.Open(k.replyAt)), k.replyAt, base+1)
			return
		}
		id := ""
		if idLoc != "" {
			id, _ = corrOf(recv)
			gotID = id
			if id == "" {
				k.problem("the request has no correlation ID")
				return
			}
		}
		if !corr {
			id = "some-id"
		}
		for _, j := range pre {
			jm, at := j.m.withID(k.reply, otherID+id), k.replyAt
			if j.kind == "elsewhere" {
				jm, at = j.m.withID(k.reply, id), k.replyAt+"x"
			}
			bm, bd := k.encodeReply(jm)
			if bd != "" {
				k.problem("%s", bd)
				return
			}
			switch j.kind {
			case "undecodable":
				bm.Payload = bad
			case "no ID":
				bm.Headers = nil
				if part, _ := spec.LocPath(k.reply.Corr); part == "payload" {
					bm.Payload = []byte("{}")
				}
			}
			send(at, bm, true)
		}
		switch final {
		case "helper":
			a := args{ctx: rctx, msg: recv, h: func(_ context.Context, p reflect.Value) error {
				if corr {
					if x, _ := corrOf(p.Elem()); x != id {
						k.problem("the reply of the helper has the correlation ID %q, the request %q", x, id)
					}
				}
				if s := d.fill(p.Elem(), k.reply, rep.withID(k.reply, id)); s != "" {
					k.problem("%s", s)
				}
				return nil
			}}
			consumed++
			out, bd := k.srv.call(op.Reply.ReplyTo, a)
			if bd != "" {
				k.problem("%s", bd)
			} else if err := errOf(out); err != nil {
				k.problem("%s: %v", op.Reply.ReplyTo, err)
			}
		case "send reply":
			v, bd := k.replyValue(k.srv, op.Reply.SendReply, rep.withID(k.reply, id))
			if bd != "" {
				k.problem("%s", bd)
				return
			}
			consumed++
			out, bd := k.srv.call(op.Reply.SendReply, args{ctx: rctx, addr: k.replyAt, msg: v})
			if bd != "" {
				k.problem("%s", bd)
			} else if err := errOf(out); err != nil {
				k.problem("%s: %v", op.Reply.SendReply, err)
			}
		case "raw", "twice", "bad reply":
			bm, bd := k.encodeReply(rep.withID(k.reply, id))
			if bd != "" {
				k.problem("%s", bd)
				return
			}
			if final == "bad reply" {
				bm.Payload = bad
			}
			send(k.replyAt, bm, true)
			if final == "twice" {
				if bm, bd = k.encodeReply(dup.withID(k.reply, id)); bd != "" {
					k.problem("%s", bd)
					return
				}
				send(k.replyAt, bm, false)
			}
		case "cancel":
			cancel()
		case "ended":
			s.S.Cancel(context.Background())
		}
	}
	k.b.Loop = true
	if v3 {
		a := opArgs(op, k.params)
		a.h = func(ctx context.Context, msg reflect.Value) error {
			if s := d.compare(msg, op.Msg, m.withGenerated(op.Msg, msg, generated)); s != "" {
				k.problem("the request arrives changed: %s", s)
			}
			play(ctx, msg)
			return nil
		}
		if err := errOf(must(t, k.srv, op.Sub, a)); err != nil {
			t.Fatalf("%s: %v", op.Sub, err)
		}
	}
	sent := 0
	k.b.Set(func(b *fake.Broker) {
		if final == "send fails" {
			b.FailPub = func(string) error { return fake.ErrInjected }
		}
		if final == "subscription fails" {
			b.FailSub = func(string) error { return fake.ErrInjected }
		}
		b.OnPublish = func(p fake.Published) {
			if p.Channel == reqAt {
				k.mu.Lock()
				sent++
				k.mu.Unlock()
			}
		}
	})
	if final == "canceled before" {
		cancel()
	}
	mt := k.c.msgType(op.Send)
	if !v3 {
		mt = k.c.handlerMsg(op.Sub)
	}
	v, bd := d.build(mt, op.Msg, m)
	if bd != "" {
		t.Fatalf("building %s: %s", mt, bd)
	}
	var got reflect.Value
	var err error
	var text string
	if !fake.Returns(stuck, func() {
		got, err, text = k.ask(ctx, v, func(c context.Context) error {
			k.mu.Lock()
			sent++
			k.mu.Unlock()
			if final == "send fails" {
				return fake.ErrInjected
			}
			play(c, v)
			return nil
		})
	}) {
		t.Fatalf("outcome %q: the request on %q does not return", final, reqAt)
	}
	if text != "" {
		t.Fatalf("%s", text)
	}
	if !skip && !fake.Returns(stuck, func() { <-played }) {
		t.Fatalf("outcome %q: the request returns (%v) and does not arrive, or the answer does not return", final, err)
	}
	check := func() {
		k.mu.Lock()
		p := append([]string(nil), k.problems...)
		k.mu.Unlock()
		if len(p) > 0 {
			t.Fatalf("outcome %q: %s", final, strings.Join(p, "; "))
		}
	}
	check()
	wantErr := map[string]error{"cancel": extensions.ErrContextCanceled, "deadline": extensions.ErrContextCanceled, "canceled before": extensions.ErrContextCanceled,
		"ended": extensions.ErrSubscriptionCanceled, "send fails": fake.ErrInjected, "subscription fails": fake.ErrInjected, "no address": extensions.ErrChannelAddressEmpty}[final]
	switch {
	case wantErr != nil:
		if !errors.Is(err, wantErr) {
			t.Fatalf("outcome %q: the error is %v, want %v (result %s)", final, err, wantErr, goText(got))
		}
		if err != nil && !isZeroMsg(got) {
			t.Fatalf("outcome %q: a message is returned with the error %v: %s", final, err, goText(got))
		}
	case final == "bad reply":
		if err == nil {
			t.Fatalf("the reply cannot be decoded, the request returns %s without error", goText(got))
		}
	case err != nil:
		t.Fatalf("outcome %q after %d other messages: error %v", final, len(pre), err)
	default:
		want := rep
		if k.reply.Corr != "" {
			x := "some-id"
			if corr {
				x = gotID
			}
			want = rep.withID(k.reply, x)
		}
		if s := d.compare(got, k.reply, want); s != "" {
			t.Fatalf("outcome %q after %d other messages: the reply is not the one expected: %s\nwant %s\ngot %s", final, len(pre), s, want, goText(got))
		}
	}
	if final == "subscription fails" && sent > 0 {
		t.Fatalf("the request is sent although the subscription on the reply address failed")
	}
	if !fake.Eventually(stuck, func() bool { return len(k.b.Open(k.replyAt)) == base }) {
		t.Fatalf("outcome %q: %d subscriptions on %q after the request, %d before", final, len(k.b.Open(k.replyAt)), k.replyAt, base)
	}
	for _, s := range k.b.All() {
		if s.Channel == k.replyAt && s.Cleanups > 1 {
			t.Fatalf("outcome %q: the subscription on %q is cleaned %d times", final, s.Channel, s.Cleanups)
		}
	}
	k.b.Set(func(b *fake.Broker) { b.FailPub, b.FailSub = nil, nil })
	if v3 {
		must(t, k.srv, "Close", args{ctx: context.Background()})
	}
	check()
	if e := k.errs.all(); len(e) > 0 {
		t.Fatalf("outcome %q: error handler: %v", final, e[0].err)
	}
	// Messages read by the request are acknowledged once.
	n := 0
	k.mu.Lock()
	for _, a := range k.acks {
		if a.addr != k.replyAt {
			continue
		}
		g := a.a.Got()
		if len(g) > 1 || len(g) == 1 && g[0] != "ack" {
			k.mu.Unlock()
			t.Fatalf("outcome %q: the message %s is settled with %v", final, a.msg, g)
		}
		n += len(g)
	}
	k.mu.Unlock()
	if wantErr == nil && n != consumed {
		t.Fatalf("outcome %q: %d messages read on %q, %d acknowledged", final, consumed, k.replyAt, n)
	}
	cl := []string{fmt.Sprintf("v%d", d.doc.V), "outcome " + final}
	if corr {
		cl = append(cl, "correlated")
	} else {
		cl = append(cl, "not correlated")
	}
	kinds := ""
	for _, j := range pre {
		cl = append(cl, "before: "+j.kind)
		kinds += j.kind + ","
	}
	d.cas(op.Name+final+kinds+m.String()+rep.String(), cl...)
	d.sample("request "+final, map[string]any{"operation": op.Name, "before": kinds, "reply address": k.replyAt, "reply": cut(rep.String(), 200)})
}

// withGenerated takes the correlation ID of what arrived when it is generated.
func (m *Msg) withGenerated(em *spec.EffMsg, v reflect.Value, generated bool) *Msg {
	if !generated || em.Corr == "" {
		return m
	}
	id, _ := corrOf(v)
	return m.withID(em, id)
}

func isZeroMsg(v reflect.Value) bool { return !v.IsValid() || v.IsZero() }

// requestsCase: concurrent requests get each their reply.
func (d *D) requestsCase(t *rapid.T) {
	op := d.op(t)
	k := d.newAsker(t, op, nil)
	v3 := op.Reply != nil
	n := rapid.IntRange(2, 4).Draw(t, "requests")
	if v3 && op.Reply.Address == "" {
		if op.Reply.AddrLoc == "" {
			d.cas("")
			return
		}
		k.replyAt = "reply/all"
	}
	if v3 && k.replyAt == address(op, k.params) {
		d.cas("")
		return
	}
	ids := map[string]int{}
	var reqs, reps []*Msg
	var want []string
	for i := 0; i < n; i++ {
		m := d.genSent(t, op)
		id := fmt.Sprintf("%s%d", rapid.SampledFrom([]string{"id", "", "i d "}).Draw(t, "id"), i)
		m.put(op.Msg.Corr, id)
		if v3 && op.Reply.AddrLoc != "" && op.Reply.Address == "" {
			m.put(op.Reply.AddrLoc, k.replyAt)
		}
		ids[id] = i
		reqs = append(reqs, m)
		reps = append(reps, k.genReply(t, id))
		want = append(want, id)
	}
	order := rapid.Permutation(want).Draw(t, "order")
	var mu sync.Mutex
	arrived := map[string]bool{}
	answer := func() {
		for _, id := range order {
			bm, bad := k.encodeReply(reps[ids[id]])
			if bad != "" {
				k.problem("%s", bad)
				return
			}
			k.b.Deliver(k.replyAt, bm)
		}
	}
	arrive := func(id string) {
		mu.Lock()
		defer mu.Unlock()
		if arrived[id] {
			k.problem("the request %q arrives twice", id)
		}
		arrived[id] = true
		if len(arrived) == n {
			answer()
		}
	}
	k.b.Loop = true
	mt := k.c.handlerMsg(op.Sub)
	if v3 {
		mt = k.c.msgType(op.Send)
		a := opArgs(op, k.params)
		a.h = func(_ context.Context, msg reflect.Value) error {
			id, _ := corrOf(msg)
			arrive(id)
			return nil
		}
		if err := errOf(must(t, k.srv, op.Sub, a)); err != nil {
			t.Fatalf("%s: %v", op.Sub, err)
		}
	}
	type result struct {
		v   reflect.Value
		err error
		bad string
	}
	res := make([]result, n)
	var vals []reflect.Value
	for i := range reqs {
		v, bad := d.build(mt, op.Msg, reqs[i])
		if bad != "" {
			t.Fatalf("building %s: %s", mt, bad)
		}
		vals = append(vals, v)
	}
	if !fake.Returns(stuck, func() {
		var wg sync.WaitGroup
		for i := range reqs {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				v, err, bad := k.ask(context.Background(), vals[i], func(context.Context) error { arrive(want[i]); return nil })
				res[i] = result{v, err, bad}
			}()
		}
		wg.Wait()
	}) {
		t.Fatalf("%d concurrent requests, replies in the order %q: they do not all return", n, order)
	}
	if len(k.problems) > 0 {
		t.Fatalf("%s", k.problems[0])
	}
	for i, r := range res {
		if r.bad != "" {
			t.Fatalf("%s", r.bad)
		}
		if r.err != nil {
			t.Fatalf("request %q: %v", want[i], r.err)
		}
		if s := d.compare(r.v, k.reply, reps[i]); s != "" {
			t.Fatalf("request %q of %d, replies in the order %q: not its reply: %s", want[i], n, order, s)
		}
	}
	if !fake.Eventually(stuck, func() bool { return len(k.b.Open(k.replyAt)) == 0 }) {
		t.Fatalf("subscriptions are left on %q", k.replyAt)
	}
	if v3 {
		must(t, k.srv, "Close", args{ctx: context.Background()})
	}
	d.cas(fmt.Sprint(op.Name, order, reps), fmt.Sprintf("v%d", d.doc.V), fmt.Sprintf("%d concurrent requests", n))
	d.sample("concurrent requests", map[string]any{"operation": op.Name, "replies in the order": order})
}
