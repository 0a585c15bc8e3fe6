package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/middlewares"
	"pgregory.net/rapid"

	"verif/internal/fake"
	"verif/spec"
)

func init() {
	checks["mw"] = func(d *D) { d.opRapid("mw", addressed, d.mwCase) }
	checks["ack"] = func(d *D) { d.opRapid("ack", addressed, d.ackCase) }
}

// mw is a middleware of a chain: what it does, and whether it changes the
// message or the context.
type mw struct {
	Kind    string
	Header  bool // adds a header to the message
	Context bool // gives a context with a value to what follows (when it calls it)
	Replace bool // replaces the content of the message
}

var mwKinds = []string{"auto", "auto", "next", "next", "next", "swallow", "twice", "fails before", "fails after", "wraps", "recovery", "panics", "guards", "intercepter"}

// sentinel is an error with an identity.
type sentinel string

func (s sentinel) Error() string { return string(s) }

// errName gives the identity of an error.
func errName(err error) string {
	var s sentinel
	switch {
	case err == nil:
		return "nil"
	case errors.As(err, &s):
		return string(s)
	case errors.Is(err, extensions.ErrPanicRecovered):
		return "panic recovered"
	case errors.Is(err, fake.ErrInjected):
		return "injected"
	}
	return "error"
}

type mwKey int

// chain is a list of middlewares with what happens.
type chain struct {
	mws []mw
	alt extensions.BrokerMessage // content put by a replacing middleware
	lg  extensions.Logger

	mu  sync.Mutex
	log []string
}

func (c *chain) note(f string, a ...any) {
	c.mu.Lock()
	c.log = append(c.log, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

func (c *chain) take() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	l := c.log
	c.log = nil
	return l
}

func (c *chain) String() string {
	var l []string
	for i, m := range c.mws {
		s := fmt.Sprintf("%d: %s", i, m.Kind)
		for _, x := range []struct {
			b bool
			s string
		}{{m.Header, "header"}, {m.Context, "context"}, {m.Replace, "replace"}} {
			if x.b {
				s += "+" + x.s
			}
		}
		l = append(l, s)
	}
	return strings.Join(l, ", ")
}

// genChain draws middlewares. canFail says if errors are wanted.
func genChain(t *rapid.T, canFail, replace bool) *chain {
	c := &chain{lg: &fake.Logger{}}
	n := rapid.IntRange(0, 5).Draw(t, "middlewares")
	recov := false
	for i := 0; i < n; i++ {
		m := mw{Kind: rapid.SampledFrom(mwKinds).Draw(t, "kind"), Header: rapid.IntRange(0, 2).Draw(t, "header") == 0, Context: rapid.IntRange(0, 2).Draw(t, "context") == 0}
		if (m.Kind == "panics" && !recov) || !canFail && (strings.HasPrefix(m.Kind, "fails") || m.Kind == "panics") {
			m.Kind = "next"
		}
		recov = recov || m.Kind == "guards"
		if m.Kind == "recovery" {
			recov = true
			m.Header, m.Context = false, false
		} else if m.Kind == "intercepter" {
			m.Header, m.Context = false, false
		} else if replace && rapid.IntRange(0, 3).Draw(t, "replace") == 0 {
			m.Replace = true
		}
		c.mws = append(c.mws, m)
	}
	return c
}

func headerName(i int) string { return fmt.Sprintf("x-mw-%d", i) }

func seenHeaders(m extensions.BrokerMessage) string {
	var l []string
	for k := range m.Headers {
		if strings.HasPrefix(k, "x-mw-") {
			l = append(l, k[5:])
		}
	}
	sort.Strings(l)
	return strings.Join(l, "")
}

func seenContext(ctx context.Context) string {
	s := ""
	for i := 0; i < 10; i++ {
		if ctx != nil && ctx.Value(mwKey(i)) != nil {
			s += fmt.Sprint(i)
		}
	}
	return s
}

// real gives the middlewares.
func (c *chain) real() []extensions.Middleware {
	var out []extensions.Middleware
	for i, m := range c.mws {
		i, m := i, m
		if m.Kind == "recovery" {
			out = append(out, middlewares.Recovery(c.lg))
			continue
		}
		out = append(out, func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) (result error) {
			if m.Kind == "guards" {
				// recovers by itself, and goes on
				defer func() {
					if recover() != nil {
						c.note("%d recovered", i)
						result = nil
					}
				}()
			}
			c.note("%d in headers=%s context=%s", i, seenHeaders(*msg), seenContext(ctx))
			if m.Kind == "intercepter" {
				// What reads the channel comes late.
				ch := make(chan extensions.BrokerMessage)
				got := make(chan extensions.BrokerMessage, 1)
				done := make(chan struct{})
				go func() {
					time.Sleep(100 * time.Microsecond)
					select {
					case x := <-ch:
						got <- x
					case <-done:
						close(got)
					}
				}()
				err := middlewares.Intercepter(ch)(ctx, msg, next)
				close(done)
				if x, ok := <-got; !ok {
					c.note("%d intercepted nothing", i)
				} else if !reflect.DeepEqual(x, *msg) {
					c.note("%d intercepted %q instead of %q", i, x.String(), msg.String())
				}
				return err
			}
			if m.Replace {
				*msg = fake.CopyMsg(c.alt)
			}
			if m.Header {
				if msg.Headers == nil {
					msg.Headers = map[string][]byte{}
				}
				msg.Headers[headerName(i)] = []byte("x")
			}
			nctx := ctx
			if m.Context {
				nctx = context.WithValue(ctx, mwKey(i), true)
			}
			switch m.Kind {
			case "fails before":
				return sentinel(fmt.Sprintf("middleware %d", i))
			case "panics":
				panic(fmt.Sprintf("middleware %d", i))
			case "auto":
				return nil
			}
			err := next(nctx)
			c.note("%d out %s", i, errName(err))
			switch m.Kind {
			case "swallow":
				return nil
			case "twice":
				if e := next(nctx); e != nil {
					c.note("%d second call of next: %s", i, errName(e))
				}
				return err
			case "fails after":
				return sentinel(fmt.Sprintf("middleware %d", i))
			case "wraps":
				if err != nil {
					return fmt.Errorf("wrapped: %w", err)
				}
			}
			return err
		})
	}
	return out
}

// outcome is what the model says of a message.
type outcome struct {
	log      []string
	err      string // errName of the result
	ran      bool   // the callback was called
	headers  string // seen by the callback, or by what follows
	context  string
	replaced bool
}

type modelPanic struct{}

// model runs the chain; callback gives the name of the error of the callback
// ("panic" to panic), nil when there is no callback.
func (c *chain) model(callback func() string) *outcome {
	o := &outcome{}
	headers := map[int]bool{}
	hs := func() string {
		s := ""
		for i := range c.mws {
			if headers[i] {
				s += fmt.Sprint(i)
			}
		}
		return s
	}
	note := func(f string, a ...any) { o.log = append(o.log, fmt.Sprintf(f, a...)) }
	var run func(i int, ctx string) string
	run = func(i int, ctx string) (res string) {
		if i == len(c.mws) {
			o.headers, o.context = hs(), ctx
			if callback == nil {
				return "nil"
			}
			o.ran = true
			note("callback")
			r := callback()
			if r == "panic" {
				panic(modelPanic{})
			}
			return r
		}
		m := c.mws[i]
		if m.Kind == "recovery" {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(modelPanic); !ok {
						panic(r)
					}
					res = "panic recovered"
				}
			}()
			return run(i+1, ctx)
		}
		if m.Kind == "guards" {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(modelPanic); !ok {
						panic(r)
					}
					note("%d recovered", i)
					res = "nil"
				}
			}()
		}
		note("%d in headers=%s context=%s", i, hs(), ctx)
		if m.Replace {
			headers = map[int]bool{}
			o.replaced = true
		}
		if m.Header {
			headers[i] = true
		}
		own := fmt.Sprintf("middleware %d", i)
		nctx := ctx
		if m.Context {
			nctx += fmt.Sprint(i)
		}
		switch m.Kind {
		case "fails before":
			return own
		case "panics":
			panic(modelPanic{})
		case "auto", "intercepter":
			return run(i+1, ctx)
		}
		r := run(i+1, nctx)
		note("%d out %s", i, r)
		switch m.Kind {
		case "swallow":
			return "nil"
		case "fails after":
			return own
		}
		return r
	}
	o.err = run(0, "")
	if callback == nil {
		o.headers = hs()
	}
	return o
}

// canPanic tells if a panic of the callback is recovered.
func (c *chain) canPanic() bool {
	for _, m := range c.mws {
		if m.Kind == "recovery" || m.Kind == "guards" {
			return true
		}
	}
	return false
}

// mwCase: a chain around sending, reception and awaited replies.
func (d *D) mwCase(t *rapid.T) {
	op := d.op(t)
	modes := []string{"send", "receive", "receive"}
	if op.WaitFor != "" || op.Reply != nil && op.Reply.Address != "" && correlated(op) {
		modes = append(modes, "reply", "reply")
	}
	mode := rapid.SampledFrom(modes).Draw(t, "mode")
	c := genChain(t, mode != "reply" || rapid.Bool().Draw(t, "fail"), true)
	if mode == "reply" {
		d.mwReply(t, op, c)
		return
	}
	params := d.drawParams(t, op, []string{"a", "b"})
	addr := address(op, params)
	b := fake.NewBroker()
	errs := &errbox{}
	side := op.Sender
	if mode == "receive" {
		side = other(side)
	}
	ct, err := d.newCtl(side, b, ctlOpts{lg: &fake.Logger{}, mws: c.real(), eh: errs.handle})
	if err != nil {
		t.Fatal(err)
	}
	n := rapid.IntRange(1, 3).Draw(t, "messages")
	type plan struct {
		m, alt *Msg
		cb     string
	}
	var plans []plan
	for i := 0; i < n; i++ {
		p := plan{m: d.genSent(t, op), alt: d.genSent(t, op), cb: "nil"}
		switch rapid.IntRange(0, 5).Draw(t, "callback") {
		case 0, 1:
			p.cb = map[string]string{"send": "injected", "receive": "handler"}[mode]
		case 2:
			if c.canPanic() {
				p.cb = "panic"
			}
		}
		plans = append(plans, p)
	}
	fatal := func(i int, f string, a ...any) {
		t.Helper()
		t.Fatalf("%s with the chain [%s], message %d, callback gives %s: %s", mode, c, i, plans[i].cb, fmt.Sprintf(f, a...))
	}
	var cur plan
	behave := func() error {
		c.note("callback")
		switch cur.cb {
		case "panic":
			panic("callback")
		case "injected":
			return fake.ErrInjected
		case "handler":
			return sentinel("handler")
		}
		return nil
	}
	box := &inbox{err: func(int) error { return behave() }}
	settled := make(chan string, 10)
	if mode == "receive" {
		b.AckHook = func(string, extensions.BrokerMessage) *fake.Ack {
			return fake.NewAck(func(s string) { settled <- s })
		}
		a := opArgs(op, params)
		a.h = box.handler("h")
		if err := errOf(must(t, ct, op.Sub, a)); err != nil {
			t.Fatalf("%s: %v", op.Sub, err)
		}
	} else {
		b.Set(func(b *fake.Broker) { b.FailPub = func(string) error { return behave() } })
	}
	var kinds []string
	for i, p := range plans {
		cur = p
		c.alt = d.encode(t, op, p.alt)
		want := c.model(func() string { return p.cb })
		wantMsg := p.m
		if want.replaced {
			wantMsg = p.alt
		}
		nerr := len(errs.all())
		switch mode {
		case "send":
			v, bad := d.build(ct.msgType(op.Send), op.Msg, p.m)
			if bad != "" {
				t.Fatal(bad)
			}
			a := opArgs(op, params)
			a.msg = v
			pubs := len(b.Publications())
			err := errOf(must(t, ct, op.Send, a))
			if l := c.take(); !reflect.DeepEqual(l, want.log) {
				fatal(i, "what happens is\n  %s\nwant\n  %s", strings.Join(l, "\n  "), strings.Join(want.log, "\n  "))
			}
			if got := errName(err); got != want.err {
				fatal(i, "%s gives the error %v, want %q", op.Send, err, want.err)
			}
			l := b.Publications()[pubs:]
			sent := want.ran && p.cb == "nil"
			if len(l) != map[bool]int{true: 1}[sent] {
				fatal(i, "%d publications", len(l))
			}
			if sent {
				g := l[0]
				if g.Channel != addr {
					fatal(i, "published on %q", g.Channel)
				}
				if s := seenHeaders(g.Msg); s != want.headers {
					fatal(i, "headers of the middlewares %q are published, want those of %q", s, want.headers)
				}
				if s := seenContext(g.Ctx); s != want.context {
					fatal(i, "context of the middlewares %q is given to the broker, want that of %q", s, want.context)
				}
				exp := d.encode(t, op, wantMsg)
				for k := range g.Msg.Headers {
					if strings.HasPrefix(k, "x-mw-") {
						delete(g.Msg.Headers, k)
					}
				}
				if bad := sameBroker(g.Msg, exp); bad != "" {
					fatal(i, "what is published is %s, want %s", fake.MsgString(g.Msg), fake.MsgString(exp))
				}
			}
		case "receive":
			bm := d.encode(t, op, p.m)
			from := box.count()
			if k := len(b.Deliver(addr, bm)); k != 1 {
				fatal(i, "%d subscriptions", k)
			}
			if !fake.Returns(stuck, func() { <-settled }) {
				fatal(i, "the message is not settled; log %q", c.take())
			}
			// Middlewares go on after the settlement.
			fake.Eventually(stuck, func() bool { c.mu.Lock(); defer c.mu.Unlock(); return len(c.log) >= len(want.log) })
			if l := c.take(); !reflect.DeepEqual(l, want.log) {
				fatal(i, "what happens is\n  %s\nwant\n  %s", strings.Join(l, "\n  "), strings.Join(want.log, "\n  "))
			}
			e := errs.all()[nerr:]
			if want.err == "nil" && len(e) > 0 {
				fatal(i, "error handler: %v", e[0].err)
			}
			if want.err != "nil" {
				// The message may be settled before.
				fake.Eventually(stuck, func() bool { return len(errs.all()) > nerr })
				e = errs.all()[nerr:]
				if len(e) != 1 {
					fatal(i, "the error handler is called %d times, the chain gives the error %q", len(e), want.err)
				}
				if got := errName(e[0].err); got != want.err {
					fatal(i, "the error handler gets %v, want %q", e[0].err, want.err)
				}
			}
			l := box.all()[from:]
			if len(l) != map[bool]int{true: 1}[want.ran] {
				fatal(i, "%d calls of the handler", len(l))
			}
			if want.ran {
				if s := seenContext(l[0].ctx); s != want.context {
					fatal(i, "context of the middlewares %q is given to the handler, want that of %q", s, want.context)
				}
				if bad := d.compare(l[0].msg, op.Msg, wantMsg); bad != "" {
					fatal(i, "the handler gets another message: %s", bad)
				}
			}
		}
		kinds = append(kinds, p.cb)
		if len(c.mws) > 1 {
			d.class("several middlewares")
		}
		if want.err != "nil" {
			d.class("chain fails")
		}
	}
	must(t, ct, "Close", args{ctx: context.Background()})
	if l := c.take(); len(l) > 0 {
		t.Fatalf("%s with the chain [%s]: after the last message was handled, %q", mode, c, l)
	}
	key := ""
	if len(c.mws) > 0 {
		key = op.Name + mode + c.String() + strings.Join(kinds, ",")
	}
	for _, m := range c.mws {
		d.class("middleware " + m.Kind)
	}
	d.cas(key, fmt.Sprintf("v%d", d.doc.V), mode)
	d.sample(mode, map[string]any{"chain": c.String(), "callback": kinds})
}

// sameBroker compares broker messages; JSON texts may differ in the order of keys.
func sameBroker(a, b extensions.BrokerMessage) string {
	same := func(x, y []byte) bool {
		if string(x) == string(y) {
			return true
		}
		u, v := parseAny(x), parseAny(y)
		return u != nil && v != nil && reflect.DeepEqual(u, v)
	}
	if !same(a.Payload, b.Payload) || len(a.Headers) != len(b.Headers) {
		return "different"
	}
	for k, v := range a.Headers {
		if w, ok := b.Headers[k]; !ok || !same(v, w) {
			return "different header " + k
		}
	}
	return ""
}

// mwReply: a chain on the side that waits for a reply.
func (d *D) mwReply(t *rapid.T, op *spec.OpInfo, c *chain) {
	k := d.newAsker(t, op, c.real())
	if op.Reply != nil && k.replyAt == address(op, k.params) {
		d.cas("")
		return
	}
	m := d.genSent(t, op)
	m.put(op.Msg.Corr, "the-id")
	rep, alt := k.genReply(t, "the-id"), k.genReply(t, "the-id")
	junk := k.genReply(t, "another-id")
	bm, bad := k.encodeReply(rep)
	jm, bad2 := k.encodeReply(junk)
	am, bad3 := k.encodeReply(alt)
	if bad+bad2+bad3 != "" {
		t.Fatal(bad + bad2 + bad3)
	}
	reqAlt := d.encode(t, op, m)
	nj := rapid.IntRange(0, 2).Draw(t, "other messages")
	var reqLog []string
	answered := false
	answer := func() {
		if answered {
			return
		}
		answered = true
		reqLog = c.take()
		c.alt = am
		for i := 0; i < nj; i++ {
			k.b.Deliver(k.replyAt, jm)
		}
		k.b.Deliver(k.replyAt, bm)
	}
	// The request goes through the chain too (version 3), with the broker as callback.
	c.alt = reqAlt
	wantReq := &outcome{err: "nil"}
	if op.Reply != nil {
		wantReq = c.model(func() string { return "nil" })
	}
	wantRep := c.model(nil)
	k.b.Set(func(b *fake.Broker) {
		b.OnPublish = func(p fake.Published) {
			c.note("callback")
			if op.Reply != nil && p.Channel == address(op, k.params) {
				k.mu.Lock()
				k.mu.Unlock()
			}
		}
	})
	mt := k.c.handlerMsg(op.Sub)
	if op.Reply != nil {
		mt = k.c.msgType(op.Send)
	}
	v, bad := d.build(mt, op.Msg, m)
	if bad != "" {
		t.Fatal(bad)
	}
	// Answer when the subscription waits for messages: after the request went through its chain.
	type result struct {
		v    reflect.Value
		err  error
		text string
	}
	done := make(chan result, 1)
	go func() {
		v, err, text := k.ask(context.Background(), v, func(context.Context) error { answer(); return nil })
		done <- result{v, err, text}
	}()
	var r result
	if op.Reply != nil && wantReq.err == "nil" {
		// The whole chain of the request is over when its log is complete.
		if !fake.Eventually(stuck, func() bool { c.mu.Lock(); defer c.mu.Unlock(); return len(c.log) >= len(wantReq.log) }) {
			t.Fatalf("request with the chain [%s]: what happens is %q, want %q", c, c.take(), wantReq.log)
		}
		answer()
	}
	select {
	case r = <-done:
	default:
		if !fake.Returns(stuck, func() { r = <-done }) {
			t.Fatalf("waiting with the chain [%s] does not return", c)
		}
	}
	if r.text != "" {
		t.Fatal(r.text)
	}
	repLog := c.take()
	if wantReq.err != "nil" {
		reqLog, repLog = repLog, nil
	}
	if !reflect.DeepEqual(append([]string{}, reqLog...), append([]string{}, wantReq.log...)) {
		t.Fatalf("request with the chain [%s]: what happens is\n  %s\nwant\n  %s", c, strings.Join(reqLog, "\n  "), strings.Join(wantReq.log, "\n  "))
	}
	if wantReq.err != "nil" {
		if got := errName(r.err); got != wantReq.err {
			t.Fatalf("the chain [%s] of the request gives %q, the request returns %v", c, wantReq.err, r.err)
		}
	} else {
		if !reflect.DeepEqual(append([]string{}, repLog...), append([]string{}, wantRep.log...)) {
			t.Fatalf("reply after %d other messages with the chain [%s]: what happens is\n  %s\nwant\n  %s", nj, c, strings.Join(repLog, "\n  "), strings.Join(wantRep.log, "\n  "))
		}
		if got := errName(r.err); got != wantRep.err {
			t.Fatalf("the chain [%s] of the reply gives %q, the request returns %v", c, wantRep.err, r.err)
		}
		if r.err == nil {
			want := rep
			if wantRep.replaced {
				want = alt
			}
			if s := d.compare(r.v, k.reply, want); s != "" {
				t.Fatalf("reply with the chain [%s] (content replaced: %v): %s", c, wantRep.replaced, s)
			}
		}
	}
	if !fake.Eventually(stuck, func() bool { return len(k.b.Open(k.replyAt)) == 0 }) {
		t.Fatalf("with the chain [%s] a subscription is left on %q", c, k.replyAt)
	}
	for _, a := range k.acks {
		if g := a.a.Got(); a.addr == k.replyAt && (len(g) > 1 || len(g) == 1 && g[0] != "ack") {
			t.Fatalf("a message on %q is settled with %v", a.addr, g)
		}
	}
	key := ""
	if len(c.mws) > 0 {
		key = op.Name + "reply" + c.String() + fmt.Sprint(nj)
	}
	for _, m := range c.mws {
		d.class("middleware " + m.Kind)
	}
	d.cas(key, fmt.Sprintf("v%d", d.doc.V), "reply")
	d.sample("reply", map[string]any{"chain": c.String(), "other messages": nj})
}

// ackCase: a burst of messages with drawn outcomes.
func (d *D) ackCase(t *rapid.T) {
	op := d.op(t)
	c := genChain(t, rapid.IntRange(0, 2).Draw(t, "fail") == 0, false)
	params := d.drawParams(t, op, []string{"a", "b"})
	addr := address(op, params)
	b := fake.NewBroker()
	n := rapid.IntRange(1, 6).Draw(t, "messages")
	undec := d.undecodable(op.Msg)
	type plan struct {
		what string // nil, handler, panic, undecodable
		act  []string
		m    *Msg
		bm   extensions.BrokerMessage
	}
	var plans []plan
	for i := 0; i < n; i++ {
		p := plan{what: "nil", m: d.genSent(t, op)}
		k := rapid.IntRange(0, 7).Draw(t, "outcome")
		switch {
		case k < 2:
			p.what = "handler"
		case k == 2 && c.canPanic():
			p.what = "panic"
		case k <= 4 && undec != nil:
			p.what = "undecodable"
		}
		for j := rapid.IntRange(0, 2).Draw(t, "settles"); j > 0; j-- {
			p.act = append(p.act, rapid.SampledFrom([]string{"ack", "nak"}).Draw(t, "settle"))
		}
		p.bm = d.encode(t, op, p.m)
		if p.what == "undecodable" {
			p.bm.Payload = undec
		}
		plans = append(plans, p)
	}
	var mu sync.Mutex
	var log []string
	note := func(f string, a ...any) { mu.Lock(); log = append(log, fmt.Sprintf(f, a...)); mu.Unlock() }
	var acks []*fake.Ack
	b.AckHook = func(string, extensions.BrokerMessage) *fake.Ack {
		mu.Lock()
		defer mu.Unlock()
		i := len(acks)
		a := fake.NewAck(func(s string) { note("%s %d", s, i) })
		acks = append(acks, a)
		return a
	}
	// The position of the message being processed: messages come in order.
	cur := -1
	count := func() int { mu.Lock(); defer mu.Unlock(); return cur }
	marker := func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
		mu.Lock()
		cur++
		mu.Unlock()
		return next(ctx)
	}
	mws := append([]extensions.Middleware{marker}, c.real()...)
	type ehCall struct {
		i     int
		topic string
		msg   string
		err   error
		ctx   context.Context
	}
	var calls []ehCall
	eh := func(ctx context.Context, topic string, m *extensions.AcknowledgeableBrokerMessage, err error) {
		i := count()
		note("error handler %d", i)
		mu.Lock()
		calls = append(calls, ehCall{i, topic, fake.MsgString(stripMw(m.BrokerMessage)), err, ctx})
		mu.Unlock()
		if i >= 0 && i < n {
			for _, a := range plans[i].act {
				if a == "ack" {
					m.Ack()
				} else {
					m.Nak()
				}
			}
		}
	}
	o := ctlOpts{lg: &fake.Logger{}, mws: mws, eh: eh}
	withEh := rapid.IntRange(0, 5).Draw(t, "error handler") > 0
	if !withEh {
		o.eh = nil
	}
	rcv, err := d.newCtl(other(op.Sender), b, o)
	if err != nil {
		t.Fatal(err)
	}
	box := &inbox{}
	box.err = func(int) error {
		i := count()
		note("handler %d", i)
		if i < 0 || i >= n {
			return nil
		}
		switch plans[i].what {
		case "handler":
			return sentinel("handler")
		case "panic":
			panic("handler")
		}
		return nil
	}
	a := opArgs(op, params)
	a.h = box.handler("h")
	if err := errOf(must(t, rcv, op.Sub, a)); err != nil {
		t.Fatalf("%s: %v", op.Sub, err)
	}
	for _, p := range plans {
		if k := len(b.Deliver(addr, p.bm)); k != 1 {
			t.Fatalf("%d subscriptions", k)
		}
	}
	var whats []string
	for _, p := range plans {
		whats = append(whats, p.what+fmt.Sprint(p.act))
	}
	fatal := func(f string, x ...any) {
		t.Helper()
		mu.Lock()
		defer mu.Unlock()
		t.Fatalf("chain [%s], messages %q, error handler %v: %s\nlog %q", c, whats, withEh, fmt.Sprintf(f, x...), log)
	}
	all := func() bool {
		mu.Lock()
		defer mu.Unlock()
		for _, a := range acks {
			if len(a.Got()) == 0 {
				return false
			}
		}
		return true
	}
	if !fake.Eventually(stuck, all) {
		fatal("a message is not settled")
	}
	// A last message ends what could still happen to the others.
	last := d.encode(t, op, plans[0].m)
	b.Deliver(addr, last)
	if !fake.Eventually(stuck, all) {
		fatal("the last message is not settled")
	}
	must(t, rcv, "Close", args{ctx: context.Background()})
	mu.Lock()
	l := append([]string(nil), log...)
	cl := append([]ehCall(nil), calls...)
	as := append([]*fake.Ack(nil), acks...)
	mu.Unlock()
	pos := func(s string) int {
		for i, x := range l {
			if x == s {
				return i
			}
		}
		return -1
	}
	handled := 0
	for i, p := range plans {
		want := c.model(func() string {
			if p.what == "undecodable" {
				return "error"
			}
			return p.what
		})
		reaches := want.ran && p.what != "undecodable"
		h := 0
		for _, x := range l {
			if x == fmt.Sprintf("handler %d", i) {
				h++
			}
		}
		if h != map[bool]int{true: 1}[reaches] {
			fatal("the handler is called %d times for message %d", h, i)
		}
		handled += h
		var mine []ehCall
		for _, x := range cl {
			if x.i == i {
				mine = append(mine, x)
			}
		}
		got := as[i].Got()
		if len(got) != 1 {
			fatal("message %d is settled %d times: %v", i, len(got), got)
		}
		if want.err == "nil" {
			if len(mine) != 0 {
				fatal("the error handler is called for message %d: %v", i, mine[0].err)
			}
			if got[0] != "ack" {
				fatal("message %d is settled with %v without error", i, got)
			}
			if reaches && pos(fmt.Sprintf("handler %d", i)) > pos(fmt.Sprintf("ack %d", i)) {
				fatal("message %d is acknowledged before its handler", i)
			}
			continue
		}
		success := reaches && p.what == "nil" // the handler succeeded, a middleware failed later
		wantAck := "nak"
		if withEh {
			if len(mine) != 1 {
				fatal("the error handler is called %d times for message %d", len(mine), i)
			}
			x := mine[0]
			if x.topic != addr {
				fatal("the error handler gets the channel %q, not %q", x.topic, addr)
			}
			if en := errName(x.err); en != want.err {
				fatal("the error handler gets the error %v (%s) for message %d, want %s", x.err, en, i, want.err)
			}
			if x.msg != fake.MsgString(p.bm) {
				fatal("the error handler gets the message %s, not %s", x.msg, fake.MsgString(p.bm))
			}
			if x.ctx.Value(extensions.ContextKeyIsChannel) != addr {
				fatal("the context of the error handler has the channel %v", x.ctx.Value(extensions.ContextKeyIsChannel))
			}
			if len(p.act) > 0 {
				wantAck = p.act[0]
			}
			if !success && pos(fmt.Sprintf("error handler %d", i)) > pos(fmt.Sprintf("%s %d", got[0], i)) {
				fatal("message %d is settled before the error handler", i)
			}
		}
		if !success && got[0] != wantAck {
			fatal("message %d is settled with %q, want %q", i, got[0], wantAck)
		}
	}
	cls := []string{fmt.Sprintf("v%d", d.doc.V)}
	for _, p := range plans {
		cls = append(cls, "outcome "+p.what)
	}
	d.cas(op.Name+c.String()+strings.Join(whats, ",")+fmt.Sprint(withEh), cls...)
	d.sample("burst", map[string]any{"chain": c.String(), "outcomes": whats})
}

// stripMw drops the headers of the middlewares.
func stripMw(m extensions.BrokerMessage) extensions.BrokerMessage {
	c := fake.CopyMsg(m)
	for k := range c.Headers {
		if strings.HasPrefix(k, "x-mw-") {
			delete(c.Headers, k)
		}
	}
	return c
}
