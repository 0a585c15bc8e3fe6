package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

func init() { checks["api"] = checkAPI }

// checkAPI: the operations of the document are offered by both controllers with
// the same types, and the list of paths and the version are those of the document.
func checkAPI(d *D) {
	if d.p.Version != d.doc.InfoVersion {
		d.fail("AsyncAPIVersion is %q, want %q", d.p.Version, d.doc.InfoVersion)
	}
	want := d.doc.Addresses()
	got := append([]string{}, d.p.Paths...)
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		d.fail("ChannelsPaths is %q, want %q", got, want)
	}
	d.cas("paths", "paths")
	cs := map[string]*ctl{}
	for _, s := range []string{"app", "user"} {
		c, err := d.newCtl(s, nopBroker{}, ctlOpts{})
		if err != nil {
			d.fail("%s controller: %v", s, err)
			return
		}
		cs[s] = c
		if _, err := d.newCtl(s, nil, ctlOpts{}); err == nil {
			d.fail("%s controller: a nil broker is accepted", s)
		}
		if !c.has("Close") {
			d.fail("the %s controller has no Close", s)
		}
	}
	sub := map[string]reflect.Type{}
	if d.p.AppSub != nil {
		sub["app"] = reflect.TypeOf(d.p.AppSub(nil))
	}
	if d.p.UserSub != nil {
		sub["user"] = reflect.TypeOf(d.p.UserSub(nil))
	}
	for _, op := range d.api {
		snd, rcv := cs[op.Sender], cs[other(op.Sender)]
		for _, m := range []struct {
			c *ctl
			m string
		}{{snd, op.Send}, {rcv, op.Sub}, {rcv, op.Unsub}} {
			if !m.c.has(m.m) {
				d.fail("operation %s: the %s controller has no method %s", op.Name, m.c.side, m.m)
				return
			}
			p := m.c.arg(m.m, isParams)
			if len(op.Params) == 0 {
				if p != nil {
					d.fail("%s takes %s, the channel has no parameter", m.m, p)
				}
				continue
			}
			if p == nil || p.NumField() != len(op.Params) {
				d.fail("%s takes %v, the channel has %d parameters", m.m, p, len(op.Params))
				return
			}
			for _, pi := range op.Params {
				if _, ok := p.FieldByName(pi.Field); !ok {
					d.fail("%s: %s has no field %s", m.m, p, pi.Field)
				}
			}
		}
		mt, ht := snd.msgType(op.Send), rcv.handlerMsg(op.Sub)
		if mt == nil || mt != ht {
			d.fail("operation %s is sent with %v and received with %v", op.Name, mt, ht)
		}
		st := sub[other(op.Sender)]
		if st == nil {
			d.fail("no subscriber interface for the %s", other(op.Sender))
			return
		}
		if h, ok := st.MethodByName(op.Handler); !ok || h.Type.NumIn() != 3 || h.Type.In(2) != ht {
			d.fail("the subscriber of the %s has no method %s for %v", other(op.Sender), op.Handler, ht)
		}
		for _, m := range []string{all(d.doc.V, "Subscribe"), all(d.doc.V, "Unsubscribe")} {
			if !rcv.has(m) {
				d.fail("the %s controller has no method %s", rcv.side, m)
			}
		}
		key := fmt.Sprint(op.Name, len(op.Params), mt)
		cl := []string{"operation", fmt.Sprintf("v%d", d.doc.V)}
		if r := op.Reply; r != nil {
			for _, m := range []struct {
				c *ctl
				m string
			}{{snd, r.Request}, {rcv, r.ReplyTo}, {rcv, r.SendReply}} {
				if !m.c.has(m.m) {
					d.fail("operation %s: the %s controller has no method %s", op.Name, m.c.side, m.m)
					return
				}
			}
			cl = append(cl, "reply")
		}
		if op.WaitFor != "" {
			if !cs["user"].has(op.WaitFor) {
				d.fail("operation %s: the user controller has no method %s", op.Name, op.WaitFor)
			}
			cl = append(cl, "wait for")
		}
		d.cas(key, cl...)
		d.sample("operation", map[string]any{"send": op.Send, "sender": op.Sender, "subscribe": op.Sub, "message": fmt.Sprint(mt), "parameters": len(op.Params)})
	}
}

func all(v int, verb string) string {
	if v == 2 {
		return verb + "All"
	}
	if verb == "Subscribe" {
		return "SubscribeToAllChannels"
	}
	return "UnsubscribeFromAllChannels"
}
