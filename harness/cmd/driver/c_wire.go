package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"pgregory.net/rapid"

	"verif/internal/fake"
	"verif/spec"
)

func init() {
	checks["roundtrip"] = func(d *D) { d.opRapid("roundtrip", addressed, d.roundTrip) }
	checks["json"] = func(d *D) {
		d.opRapid("json", func(d *D, op *spec.OpInfo) bool {
			if !addressed(d, op) || op.Msg.Payload == nil {
				return false
			}
			k := d.vg.kind(op.Msg.Payload)
			return k == "object" || k == "array"
		}, d.jsonCase)
	}
	checks["address"] = func(d *D) { d.opRapid("address", addressed, d.addressCase) }
}

func addressed(_ *D, op *spec.OpInfo) bool { return !op.NoAddr }

// opRapid runs cases on the operations that satisfy ok.
func (d *D) opRapid(name string, ok func(*D, *spec.OpInfo) bool, prop func(t *rapid.T)) {
	d.cand = nil
	for _, op := range d.api {
		if ok(d, op) {
			d.cand = append(d.cand, op)
		}
	}
	if len(d.cand) == 0 {
		d.class("no operation for " + name)
		return
	}
	d.rapid(name, d.n, prop)
}

func (d *D) op(t *rapid.T) *spec.OpInfo {
	return d.cand[rapid.IntRange(0, len(d.cand)-1).Draw(t, "op")]
}

// roundTrip sends messages with one controller and receives them with the other.
func (d *D) roundTrip(t *rapid.T) {
	op := d.op(t)
	r := d.rig(t, nil)
	r.b.Loop = true
	defer r.close(t)
	snd, rcv := r.side[op.Sender], r.side[other(op.Sender)]
	params := d.drawParams(t, op, paramPool)
	box := &inbox{}
	a := opArgs(op, params)
	a.h = box.handler(op.Name)
	if err := errOf(must(t, rcv, op.Sub, a)); err != nil {
		t.Fatalf("%s: %v", op.Sub, err)
	}
	mt := snd.msgType(op.Send)
	if mt == nil {
		t.Fatalf("the %s controller has no method %s with a message", snd.side, op.Send)
	}
	n := rapid.IntRange(1, 3).Draw(t, "messages")
	ids := map[string]bool{}
	for i := 0; i < n; i++ {
		m := d.genMsg(t, op.Msg, false)
		v, bad := d.build(mt, op.Msg, m)
		if bad != "" {
			t.Fatalf("building %s: %s", mt, bad)
		}
		a.msg = v
		before := ""
		if op.Msg.Corr != "" {
			before, _ = corrOf(v)
		}
		if err := errOf(must(t, snd, op.Send, a)); err != nil {
			t.Fatalf("%s of %s: %v", op.Send, m, err)
		}
		ok := fake.Eventually(stuck, func() bool { return box.count() > i || len(r.errs.all()) > 0 })
		if e := r.errs.all(); len(e) > 0 {
			t.Fatalf("%s of %s: the receiving side reports: %v\non the wire: %s", op.Send, m, e[0].err, fake.MsgString(e[0].msg))
		}
		if !ok {
			t.Fatalf("%s of %s: the message does not reach the handler of %s", op.Send, m, op.Sub)
		}
		if c := box.count(); c != i+1 {
			t.Fatalf("%d messages sent, %d received", i+1, c)
		}
		g := box.get(i).msg
		want := m
		if op.Msg.Corr != "" {
			id, has := corrOf(g)
			if !has {
				t.Fatalf("%s has a correlation ID at %s but no method CorrelationID", g.Type(), op.Msg.Corr)
			}
			set, _ := m.get(op.Msg.Corr)
			if set != before {
				t.Fatalf("CorrelationID is %q, the field at %s is %q", before, op.Msg.Corr, set)
			}
			if set != "" && id != set {
				t.Fatalf("correlation ID %q arrives as %q", set, id)
			}
			if id == "" {
				t.Fatalf("%s of %s: the message arrives without correlation ID", op.Send, m)
			}
			if set == "" {
				if ids[id] {
					t.Fatalf("the correlation ID %q is given to two messages", id)
				}
				ids[id] = true
			}
			want = m.clone()
			want.put(op.Msg.Corr, id)
			d.class(map[bool]string{true: "correlation ID set", false: "correlation ID generated"}[set != ""])
		}
		if s := d.compare(g, op.Msg, want); s != "" {
			p := r.b.Publications()
			t.Fatalf("%s: sent %s\nreceived %s\non the wire: %s", s, m, goText(g), fake.MsgString(p[len(p)-1].Msg))
		}
		d.cas(op.Name+m.String(), d.msgClasses(op.Msg, m)...)
		d.sample("round trip", op.Send+" "+cut(m.String(), 300))
	}
}

func (d *D) msgClasses(em *spec.EffMsg, m *Msg) []string {
	cl := []string{fmt.Sprintf("v%d", d.doc.V)}
	if em.Headers != nil {
		cl = append(cl, "headers")
	}
	if em.Payload != nil {
		cl = append(cl, "payload "+d.vg.kind(em.Payload))
	}
	return cl
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// restyle writes JSON text with other white space, order of keys or escapes.
func restyle(t *rapid.T, b []byte) []byte {
	switch rapid.IntRange(0, 3).Draw(t, "style") {
	case 1:
		var o bytes.Buffer
		if json.Indent(&o, b, " ", "\t") == nil {
			return o.Bytes()
		}
	case 2:
		var o bytes.Buffer
		for len(b) > 0 { // escapes for what is not ASCII
			r, n := utf8.DecodeRune(b)
			if r > 126 && r < 0x10000 {
				fmt.Fprintf(&o, "\\u%04x", r)
			} else {
				o.Write(b[:n])
			}
			b = b[n:]
		}
		return o.Bytes()
	case 3:
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		var v any
		if d.Decode(&v) == nil {
			var o bytes.Buffer
			e := json.NewEncoder(&o)
			e.SetEscapeHTML(rapid.Bool().Draw(t, "html"))
			if e.Encode(v) == nil { // keys sorted
				return o.Bytes()
			}
		}
	}
	return b
}

// jsonCase delivers JSON that satisfies the schema, looks at what the handler
// gets, and sends it again.
func (d *D) jsonCase(t *rapid.T) {
	op := d.op(t)
	r := d.rig(t, nil)
	defer r.close(t)
	snd, rcv := r.side[op.Sender], r.side[other(op.Sender)]
	params := d.drawParams(t, op, []string{"a", "b"})
	box := &inbox{}
	a := opArgs(op, params)
	a.h = box.handler(op.Name)
	if err := errOf(must(t, rcv, op.Sub, a)); err != nil {
		t.Fatalf("%s: %v", op.Sub, err)
	}
	m := d.genMsg(t, op.Msg, true)
	if op.Msg.Corr != "" {
		m.put(op.Msg.Corr, "the-id")
	}
	bm := d.wire(op.Msg, m)
	bm.Payload = restyle(t, bm.Payload)
	if rapid.IntRange(0, 4).Draw(t, "extra header") == 0 {
		bm.Headers["x-unknown-header"] = []byte("v")
	}
	if l := len(r.b.Deliver(address(op, params), bm)); l != 1 {
		t.Fatalf("%d subscriptions on %q", l, address(op, params))
	}
	fake.Eventually(stuck, func() bool { return box.count() > 0 || len(r.errs.all()) > 0 })
	if e := r.errs.all(); len(e) > 0 {
		t.Fatalf("the valid message %s is refused: %v", fake.MsgString(bm), e[0].err)
	}
	if box.count() != 1 {
		t.Fatalf("the message %s does not reach the handler", fake.MsgString(bm))
	}
	g := box.get(0).msg
	if s := d.compare(g, op.Msg, m); s != "" {
		t.Fatalf("%s\nmessage on the wire: %s\nreceived: %s", s, fake.MsgString(bm), goText(g))
	}
	a.msg = g
	if err := errOf(must(t, snd, op.Send, a)); err != nil {
		t.Fatalf("%s of what was received from %s: %v", op.Send, fake.MsgString(bm), err)
	}
	p := r.b.Publications()
	if len(p) != 1 {
		t.Fatalf("%d publications", len(p))
	}
	js, err := parseJSON(p[0].Msg.Payload)
	if err != nil {
		t.Fatalf("payload %q: %v", p[0].Msg.Payload, err)
	}
	if s := cmpJSON(op.Msg.Payload, m.P, js, d.doc.Opt, "payload"); s != "" {
		t.Fatalf("%s\nwire in:  %s\nwire out: %s", s, bm.Payload, p[0].Msg.Payload)
	}
	if s := d.cmpHeaders(op.Msg, m, p[0].Msg); s != "" {
		t.Fatalf("%s\nwire in:  %s\nwire out: %s", s, fake.MsgString(bm), fake.MsgString(p[0].Msg))
	}
	d.cas(op.Name+m.String(), d.msgClasses(op.Msg, m)...)
	d.sample("JSON", map[string]string{"operation": op.Name, "payload": cut(string(bm.Payload), 300)})
}

// cmpHeaders compares the headers on the wire.
func (d *D) cmpHeaders(em *spec.EffMsg, m *Msg, b extensions.BrokerMessage) string {
	want := d.wire(&spec.EffMsg{Headers: em.Headers}, &Msg{H: m.H})
	if em.Headers == nil {
		if len(b.Headers) > 0 {
			return fmt.Sprintf("headers %q, the message has none", b.Headers)
		}
		return ""
	}
	for _, p := range em.Headers.Props {
		w, ok := want.Headers[p.Name]
		g, got := b.Headers[p.Name]
		v := m.H.F[p.Name]
		switch {
		case !ok && got:
			if l, isl := parseAny(g).([]any); isl && len(l) == 0 || p.S.Omit != nil && !*p.S.Omit || string(g) == "null" {
				continue
			}
			return fmt.Sprintf("header %q is %q although absent", p.Name, g)
		case !ok:
		case !got:
			if p.S.Omit != nil && *p.S.Omit && zero(v) {
				continue
			}
			return fmt.Sprintf("header %q is missing, want %q", p.Name, w)
		default:
			pe := p.Scope.Eff(p.S)
			switch v.(type) {
			case string:
				if !bytes.Equal(g, w) {
					return fmt.Sprintf("header %q is %q, want %q", p.Name, g, w)
				}
			default:
				x := parseAny(g)
				switch d.vg.kind(pe) {
				case "time", "date":
					x = string(g)
				}
				if s := cmpJSON(pe, v, x, d.doc.Opt, "header "+p.Name); s != "" {
					return s
				}
			}
		}
	}
	for k := range b.Headers {
		found := false
		for _, p := range em.Headers.Props {
			found = found || p.Name == k
		}
		if !found {
			return fmt.Sprintf("header %q is not in the document", k)
		}
	}
	return ""
}

func parseAny(b []byte) any {
	v, err := parseJSON(b)
	if err != nil {
		return nil
	}
	return v
}

// addressCase: subscriptions, publications and cancellations use the address of
// the document with the parameters put in.
func (d *D) addressCase(t *rapid.T) {
	r := d.rig(t, nil)
	r.b.Loop = true
	defer r.close(t)
	box := &inbox{}
	type target struct {
		op     *spec.OpInfo
		params map[string]string
		addr   string
	}
	draw := func() *target {
		op := d.op(t)
		tg := &target{op: op, params: d.drawParams(t, op, paramPool)}
		tg.addr = address(op, tg.params)
		return tg
	}
	// key of a subscription: controller and address.
	subs := map[string]*target{}
	key := func(side, addr string) string { return side + " " + addr }
	check := func(what string) {
		for _, side := range []string{"app", "user"} {
			_ = side
		}
		want := map[string]int{}
		for k := range subs {
			want[k[strings.Index(k, " ")+1:]]++
		}
		got := map[string]int{}
		for _, s := range r.b.Open("") {
			got[s.Channel]++
		}
		if !reflect.DeepEqual(want, got) {
			t.Fatalf("after %s the broker has subscriptions on %v, want %v", what, got, want)
		}
	}
	var targets []*target
	for i := rapid.IntRange(1, 5).Draw(t, "targets"); i > 0; i-- {
		targets = append(targets, draw())
	}
	for _, tg := range targets {
		side := other(tg.op.Sender)
		k := key(side, tg.addr)
		if subs[k] != nil || rapid.IntRange(0, 4).Draw(t, "skip") == 0 {
			continue
		}
		a := opArgs(tg.op, tg.params)
		a.h = box.handler(k)
		if err := errOf(must(t, r.side[side], tg.op.Sub, a)); err != nil {
			t.Fatalf("%s %v: %v", tg.op.Sub, tg.params, err)
		}
		subs[k] = tg
		check(fmt.Sprintf("%s %v", tg.op.Sub, tg.params))
	}
	total, pubs := 0, 0
	send := func(tg *target) {
		snd := r.side[tg.op.Sender]
		m := d.genMsg(t, tg.op.Msg, true)
		v, bad := d.build(snd.msgType(tg.op.Send), tg.op.Msg, m)
		if bad != "" {
			t.Fatalf("building: %s", bad)
		}
		before := map[string]int{}
		count := func() map[string]int {
			c := map[string]int{}
			for _, g := range box.all() {
				c[g.op[strings.Index(g.op, " ")+1:]]++
			}
			for _, e := range r.errs.all() {
				c[e.topic]++
			}
			return c
		}
		before = count()
		a := opArgs(tg.op, tg.params)
		a.msg = v
		if err := errOf(must(t, snd, tg.op.Send, a)); err != nil {
			t.Fatalf("%s %v: %v", tg.op.Send, tg.params, err)
		}
		pubs++
		p := r.b.Publications()
		if len(p) != pubs || p[pubs-1].Channel != tg.addr {
			t.Fatalf("%s with %v is published on %q, want %q", tg.op.Send, tg.params, p[len(p)-1].Channel, tg.addr)
		}
		exp := 0
		for _, side := range []string{"app", "user"} {
			if subs[key(side, tg.addr)] != nil {
				exp++
			}
		}
		total += exp
		done := func() bool { return box.count()+len(r.errs.all()) >= total }
		if !fake.Eventually(stuck, done) {
			t.Fatalf("a message on %q does not reach its %d subscriptions", tg.addr, exp)
		}
		after := count()
		for a, n := range after {
			w := before[a]
			if a == tg.addr {
				w += exp
			}
			if n != w {
				t.Fatalf("a message on %q: %d deliveries on %q, want %d", tg.addr, n-before[a], a, w-before[a])
			}
		}
	}
	for i := rapid.IntRange(1, 4).Draw(t, "sends"); i > 0; i-- {
		send(targets[rapid.IntRange(0, len(targets)-1).Draw(t, "to")])
	}
	for _, tg := range targets {
		side := other(tg.op.Sender)
		if rapid.IntRange(0, 2).Draw(t, "keep") > 0 {
			continue
		}
		a := opArgs(tg.op, tg.params)
		must(t, r.side[side], tg.op.Unsub, a)
		delete(subs, key(side, tg.addr))
		check(fmt.Sprintf("%s %v", tg.op.Unsub, tg.params))
		send(targets[rapid.IntRange(0, len(targets)-1).Draw(t, "to")])
	}
	var ks []string
	cl := []string{fmt.Sprintf("v%d", d.doc.V)}
	params := false
	for _, tg := range targets {
		ks = append(ks, tg.op.Name+" "+tg.addr)
		params = params || len(tg.params) > 0
	}
	if params {
		cl = append(cl, "with parameters")
	} else {
		cl = append(cl, "without parameters")
	}
	if len(subs) > 1 {
		cl = append(cl, "several subscriptions")
	}
	d.cas(strings.Join(ks, ","), cl...)
	d.sample("addresses", ks)
	_ = context.Background
}
