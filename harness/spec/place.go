package spec

import (
	"fmt"
	"strings"
)

// places lists where the places of the objects of the document are kept.
func (d *Doc) places() []**Place {
	var out []**Place
	for _, s := range d.schemas() {
		out = append(out, &s.Place)
	}
	for _, m := range d.messages() {
		out = append(out, &m.Place, &m.CorrPlace)
	}
	for _, x := range append([]*Doc{d}, d.Deps...) {
		for _, p := range x.Params {
			out = append(out, &p.Place)
		}
		for _, c := range append(append([]*Channel{}, x.Channels...), x.CompChan...) {
			out = append(out, &c.Place)
			for _, p := range c.Params {
				out = append(out, &p.Place)
			}
		}
	}
	for _, o := range d.Ops {
		out = append(out, &o.Place)
		if o.Reply != nil {
			out = append(out, &o.Reply.Place, &o.Reply.AddrPlace)
		}
	}
	return out
}

// local tells if everything below refers to nothing but the dependency.
func local(d *Doc, dep *Doc, refs []string) bool {
	for _, r := range refs {
		if !strings.HasPrefix(strings.TrimPrefix(r, "./"), dep.File+"#") {
			return false
		}
	}
	return true
}

func (s *Schema) refs() []string {
	if s == nil {
		return nil
	}
	var l []string
	if s.Ref != "" {
		l = append(l, s.Ref)
	}
	for _, p := range s.Props {
		l = append(l, p.S.refs()...)
	}
	l = append(append(l, s.Items.refs()...), s.Add.refs()...)
	for _, x := range [][]*Schema{s.AllOf, s.AnyOf, s.OneOf} {
		for _, m := range x {
			l = append(l, m.refs()...)
		}
	}
	return l
}

func (m *Message) refs() []string {
	l := append(m.Headers.refs(), m.Payload.refs()...)
	if m.Ref != "" {
		l = append(l, m.Ref)
	}
	for _, x := range append(append([]*Message{}, m.Traits...), m.OneOf...) {
		l = append(l, x.refs()...)
	}
	return l
}

// Scatter moves objects of a document among the components of it and of its
// dependencies; percent is the part of the objects that move. The meaning of
// the document stays the same.
func (d *Doc) Scatter(seed uint64, percent int) {
	r := NewRand(seed)
	n := 0
	name := func() string {
		n++
		return Pick(r, []string{"placed%d", "Placed-%d", "placed_%d-x", "PLACED%dy", "placedThing%d"})
	}
	fresh := func() string { return fmt.Sprintf(name(), n) }
	place := func(inMain bool, refs []string, kinds ...string) *Place {
		if !r.P(percent) {
			return nil
		}
		p := &Place{Name: fresh()}
		if inMain && len(d.Deps) > 0 && r.P(45) {
			k := r.N(len(d.Deps))
			if local(d, d.Deps[k], refs) {
				p.Dep = k + 1
			}
		}
		if len(kinds) > 0 && r.P(25) {
			p.Kind = Pick(r, kinds)
			p.Sub = "sub" + fmt.Sprint(r.N(10))
		} else {
			for r.P(20) {
				p.Chain = append(p.Chain, fresh())
			}
			for r.P(15) {
				p.Main = append(p.Main, fresh())
			}
		}
		return p
	}
	for i, x := range append([]*Doc{d}, d.Deps...) {
		main := i == 0
		var schema func(s *Schema, top bool)
		schema = func(s *Schema, top bool) {
			if s == nil {
				return
			}
			for _, p := range s.Props {
				schema(p.S, false)
			}
			schema(s.Items, false)
			schema(s.Add, false)
			for _, l := range [][]*Schema{s.AllOf, s.AnyOf, s.OneOf} {
				for _, m := range l {
					schema(m, false)
				}
			}
			if s.Ref == "" && s.Omit == nil && !top {
				s.Place = place(main, s.refs(), kinds(s)...)
			}
		}
		var message func(m *Message, top bool)
		message = func(m *Message, top bool) {
			if m == nil || m.Ref != "" {
				return
			}
			schema(m.Payload, false)
			part, path := LocPath(m.Corr)
			declared := false
			if m.Headers != nil && len(path) > 0 {
				for _, p := range m.Headers.Props {
					declared = declared || p.Name == path[0]
				}
			}
			schema(m.Headers, part == "headers" && !declared)
			for _, t := range m.Traits {
				message(t, true)
			}
			for _, t := range m.OneOf {
				message(t, false)
			}
			if m.Corr != "" && x.V == 3 {
				m.CorrPlace = place(main, nil)
			}
			if !top {
				m.Place = place(main, m.refs())
			}
		}
		for _, s := range x.Schemas {
			schema(s.S, false)
		}
		for _, m := range x.Msgs {
			message(m, false)
		}
		for _, m := range x.Traits {
			message(m, true)
		}
		for _, p := range x.Params {
			p.Place = place(main, nil)
		}
		used := map[string]bool{}
		for _, o := range x.Ops {
			for _, m := range o.Msgs {
				used[m] = true
			}
			if o.Reply != nil {
				for _, m := range o.Reply.Msgs {
					used[m] = true
				}
			}
		}
		for _, c := range append(append([]*Channel{}, x.Channels...), x.CompChan...) {
			var refs []string
			pinned := x.V == 2 || c.Ref != ""
			for _, p := range c.Params {
				if p.Ref == "" {
					p.Place = place(main, nil)
				} else {
					refs = append(refs, p.Ref)
				}
			}
			for _, m := range c.Msgs {
				message(m, false)
				refs = append(refs, m.refs()...)
				pinned = pinned || used["#/channels/"+c.Key+"/messages/"+m.Key]
			}
			for _, o := range []*V2Op{c.Pub, c.Sub} {
				if o != nil {
					message(o.Msg, false)
				}
			}
			if !pinned {
				c.Place = place(main, refs)
			}
		}
		for _, o := range x.Ops {
			o.Place = place(false, nil)
			if o.Reply != nil {
				o.Reply.Place = place(false, nil)
				o.Reply.AddrPlace = place(main, nil)
			}
		}
	}
}

// kinds of places of a schema; headers are objects.
func kinds(s *Schema) []string {
	k := []string{"payload", "prop"}
	if s.Type == "object" && s.Add == nil {
		k = append(k, "headers")
	}
	return k
}
