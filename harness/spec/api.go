package spec

import (
	"regexp"
	"strings"
)

// OpInfo is what the generated code should offer for an operation. One side
// sends (Sender is "app" or "user") and the other subscribes.
type OpInfo struct {
	Name    string // Go name of the operation
	Sender  string
	Send    string // method of the sender
	Sub     string // methods of the other side
	Unsub   string
	Handler string // method of the subscriber interface of the other side
	Address string
	NoAddr  bool // the address is given when sending
	Params  []ParamInfo
	Msg     *EffMsg
	Reply   *ReplyInfo `json:",omitempty"`
	WaitFor string     // version 2: method of the user controller that waits for a message of this operation
	Chan    string     // channel key
}

// ParamInfo is a parameter of an address.
type ParamInfo struct{ Key, Field string }

// ReplyInfo is the reply of an operation (version 3).
type ReplyInfo struct {
	Request   string // method of the sender
	ReplyTo   string // methods of the other side
	SendReply string
	Address   string
	AddrLoc   string
	Msg       *EffMsg
}

var braces = regexp.MustCompile(`{[^{}]*}`)

func (d *Doc) params(address string) []ParamInfo {
	var out []ParamInfo
	seen := map[string]bool{}
	for _, m := range braces.FindAllString(address, -1) {
		k := strings.Trim(m, "{}")
		if !seen[k] {
			seen[k] = true
			out = append(out, ParamInfo{k, d.Opt.GoName(k)})
		}
	}
	return out
}

// FillAddress puts parameter values in an address.
func FillAddress(address string, vals map[string]string) string {
	return braces.ReplaceAllStringFunc(address, func(m string) string {
		return vals[strings.Trim(m, "{}")]
	})
}

// API lists the operations of a document.
func (d *Doc) API() []*OpInfo {
	if d.V == 2 {
		return d.api2()
	}
	return d.api3()
}

func (d *Doc) api2() []*OpInfo {
	sc := NewScope(d)
	var out []*OpInfo
	for _, c := range d.Channels {
		// The name of a channel goes twice through the naming scheme
		name := d.Opt.GoName(c.Key)
		if c.Sub != nil && c.Sub.ID != "" {
			name = c.Sub.ID
		}
		if c.Pub != nil && c.Pub.ID != "" {
			name = c.Pub.ID
		}
		n := d.Opt.GoName(name)
		mk := func(op *V2Op, sender string) *OpInfo {
			o := &OpInfo{
				Name: n, Sender: sender, Send: "Publish" + n, Sub: "Subscribe" + n, Unsub: "Unsubscribe" + n,
				Handler: n, Address: c.Key, Msg: sc.EffMessage(op.Msg), Chan: c.Key,
			}
			if len(c.Params) > 0 {
				o.Params = d.params(c.Key)
			}
			return o
		}
		if c.Pub != nil {
			out = append(out, mk(c.Pub, "user"))
		}
		if c.Sub != nil {
			o := mk(c.Sub, "app")
			if o.Msg.Corr != "" {
				o.WaitFor = "WaitFor" + n
			}
			out = append(out, o)
		}
	}
	return out
}

// opMessage is the message of an operation: the first one listed by the
// operation, else the first of the channel by name.
func (sc Scope) opMessage(refs []string, c *Channel, csc Scope) *EffMsg {
	if len(refs) > 0 {
		return sc.EffMessage(&Message{Ref: refs[0]})
	}
	var best *Message
	for _, m := range c.Msgs {
		if best == nil || m.Key < best.Key {
			best = m
		}
	}
	return csc.EffMessage(best)
}

func (d *Doc) api3() []*OpInfo {
	sc := NewScope(d)
	var out []*OpInfo
	for _, op := range d.Ops {
		// An operation among the components is named after its key there.
		key := op.Key
		if op.Place != nil {
			key = op.Place.Name
		}
		n := d.Opt.GoName(d.Opt.GoName(d.Opt.GoName(key) + "_Operation"))
		c0, s0 := sc.ChannelRef(op.Chan)
		c, csc := s0.Channel(c0)
		o := &OpInfo{Name: n, Address: c.Address, NoAddr: c.NoAddress, Msg: sc.opMessage(op.Msgs, c, csc), Chan: c.Key}
		if len(c.Params) > 0 {
			o.Params = d.params(c.Address)
		}
		if op.Action == "receive" {
			o.Sender, o.Send = "user", "SendTo"+n
		} else {
			o.Sender, o.Send = "app", "SendAs"+n
		}
		o.Sub, o.Unsub, o.Handler = "SubscribeTo"+n, "UnsubscribeFrom"+n, n+"Received"
		if op.Reply != nil {
			rc0, rs0 := sc.ChannelRef(op.Reply.Chan)
			rc, rsc := rs0.Channel(rc0)
			r := &ReplyInfo{Address: rc.Address, AddrLoc: op.Reply.AddrLoc, Msg: sc.opMessage(op.Reply.Msgs, rc, rsc)}
			if rc.NoAddress {
				r.Address = ""
			}
			if op.Action == "receive" {
				r.Request, r.SendReply = "RequestTo"+n, "SendAsReplyTo"+n
			} else {
				r.Request, r.SendReply = "RequestAs"+n, "SendToReplyTo"+n
			}
			r.ReplyTo = "ReplyTo" + n
			o.Reply = r
		}
		out = append(out, o)
	}
	return out
}

// Addresses gives the address of every channel of the document.
func (d *Doc) Addresses() []string {
	var out []string
	sc := NewScope(d)
	for _, c := range d.Channels {
		if d.V == 2 {
			out = append(out, c.Key)
			continue
		}
		cc, _ := sc.Channel(c)
		out = append(out, cc.Address)
	}
	return out
}
