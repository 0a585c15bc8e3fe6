package spec

import (
	"encoding/json"
	"fmt"
)

// Copy copies a document.
func (d *Doc) Copy() *Doc {
	b, err := json.Marshal(d)
	if err != nil {
		panic(err)
	}
	c := &Doc{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

// Size is a measure of a document.
func (d *Doc) Size() int { b, _ := json.Marshal(d); return len(b) }

// Check tells whether every reference leads to something.
func (d *Doc) Check() (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	if len(d.Channels) == 0 {
		return fmt.Errorf("no channel")
	}
	for _, x := range append([]*Doc{d}, d.Deps...) {
		sc := Scope{Root: d, Doc: x}
		for _, s := range x.Schemas {
			sc.walk(s.S)
		}
		ms := append(append([]*Message{}, x.Msgs...), x.Traits...)
		for _, c := range append(append([]*Channel{}, x.Channels...), x.CompChan...) {
			for _, p := range c.Params {
				sc.Param(p)
			}
			ms = append(ms, c.Msgs...)
			for _, o := range []*V2Op{c.Pub, c.Sub} {
				if o != nil {
					ms = append(ms, o.Msg)
				}
			}
			cc, _ := sc.Channel(c)
			if x.V == 3 && len(cc.Msgs) == 0 && x == d {
				return fmt.Errorf("no message")
			}
		}
		for _, m := range ms {
			sc.walkMsg(m)
		}
	}
	for _, o := range d.Ops {
		sc := NewScope(d)
		for _, m := range o.Msgs {
			sc.Message(&Message{Ref: m})
		}
	}
	d.API()
	return nil
}

func (sc Scope) walkMsg(m *Message) {
	if m.Ref != "" {
		sc.Message(m)
		return
	}
	for _, s := range []*Schema{m.Headers, m.Payload} {
		if s != nil {
			sc.walk(s)
		}
	}
	for _, x := range append(append([]*Message{}, m.Traits...), m.OneOf...) {
		sc.walkMsg(x)
	}
	if m.Payload == nil && m.Headers == nil && len(m.OneOf) == 0 {
		panic("empty message")
	}
	em := sc.EffMessage(m)
	if em.Corr != "" {
		// The place of the correlation ID must exist.
		loc, _ := em.CorrPath()
		e := em.Headers
		if loc == "payload" {
			e = em.Payload
		}
		if e == nil || e.Type != "object" {
			panic("correlation ID nowhere")
		}
	}
}

func (sc Scope) walk(s *Schema) {
	if s.Ref != "" {
		sc.Schema(s.Ref)
		sc.Eff(s)
		return
	}
	for _, p := range s.Props {
		sc.walk(p.S)
	}
	if s.Items != nil {
		sc.walk(s.Items)
	}
	if s.Add != nil {
		sc.walk(s.Add)
	}
	for _, l := range [][]*Schema{s.AllOf, s.AnyOf, s.OneOf} {
		for _, m := range l {
			sc.walk(m)
		}
	}
	if s.Type == "array" && s.Items == nil || s.Type == "" && !s.composed() && len(s.Also) == 0 {
		panic("incomplete schema")
	}
}

// Shrinks gives valid documents simpler than d, the boldest first.
func (d *Doc) Shrinks() []*Doc {
	var out []*Doc
	try := func(f func(c *Doc) bool) {
		c := d.Copy()
		if !f(c) || c.Check() != nil || c.Size() >= d.Size() {
			return
		}
		out = append(out, c)
	}
	for i := range d.Ops {
		try(func(c *Doc) bool { c.Ops = []*Op{c.Ops[i]}; return len(d.Ops) > 1 })
	}
	if d.V == 2 {
		for i := range d.Channels {
			try(func(c *Doc) bool { c.Channels = []*Channel{c.Channels[i]}; return len(d.Channels) > 1 })
		}
	}
	try(func(c *Doc) bool { c.Opt = Options{}; return true })
	try(func(c *Doc) bool { c.Emit = Emit{}; return d.Emit.JSON || d.Emit.Shuffle })
	if d.Noise != nil {
		try(func(c *Doc) bool { c.Noise = nil; return true })
		if kinds := d.NoiseKinds(); len(kinds) > 1 {
			for _, k := range kinds {
				try(func(c *Doc) bool { c.Noise.Kinds = []string{k}; return true })
			}
			for i := range kinds {
				try(func(c *Doc) bool { c.Noise.Kinds = cutAt(kinds, i); return true })
			}
		}
	}
	try(func(c *Doc) bool { c.Schemas = nil; return true })
	try(func(c *Doc) bool { c.Deps = nil; return true })
	try(func(c *Doc) bool { c.Msgs = nil; return true })
	for i := range d.Deps {
		try(func(c *Doc) bool { c.Deps = cutAt(c.Deps, i); return true })
		try(func(c *Doc) bool { r := c.Deps[i].Bare; c.Deps[i].Bare = false; return r })
		for j := range d.Deps[i].Schemas {
			try(func(c *Doc) bool { c.Deps[i].Schemas = cutAt(c.Deps[i].Schemas, j); return true })
		}
		for j := range d.Deps[i].Msgs {
			try(func(c *Doc) bool { c.Deps[i].Msgs = cutAt(c.Deps[i].Msgs, j); return true })
		}
	}
	for i := range d.Ops {
		try(func(c *Doc) bool { c.Ops = cutAt(c.Ops, i); return true })
		try(func(c *Doc) bool { r := c.Ops[i].Reply != nil; c.Ops[i].Reply = nil; return r })
		try(func(c *Doc) bool {
			r := c.Ops[i].Reply != nil && len(c.Ops[i].Reply.Msgs) > 0
			if r {
				c.Ops[i].Reply.Msgs = nil
			}
			return r
		})
		try(func(c *Doc) bool { r := len(c.Ops[i].Msgs) > 0; c.Ops[i].Msgs = nil; return r })
	}
	for i := range d.Channels {
		try(func(c *Doc) bool { c.Channels = cutAt(c.Channels, i); return true })
		if d.Channels[i].Pub != nil && d.Channels[i].Sub != nil {
			try(func(c *Doc) bool { c.Channels[i].Pub = nil; return true })
			try(func(c *Doc) bool { c.Channels[i].Sub = nil; return true })
		}
		for j := range d.Channels[i].Msgs {
			try(func(c *Doc) bool { c.Channels[i].Msgs = cutAt(c.Channels[i].Msgs, j); return true })
		}
	}
	for i := range d.CompChan {
		try(func(c *Doc) bool { c.CompChan = cutAt(c.CompChan, i); return true })
	}
	for i := range d.Schemas {
		try(func(c *Doc) bool { c.Schemas = cutAt(c.Schemas, i); return true })
	}
	for i := range d.Msgs {
		try(func(c *Doc) bool { c.Msgs = cutAt(c.Msgs, i); return true })
	}
	for i := range d.Traits {
		try(func(c *Doc) bool { c.Traits = cutAt(c.Traits, i); return true })
	}
	for i := range d.Params {
		try(func(c *Doc) bool { c.Params = cutAt(c.Params, i); return true })
	}
	// Places of objects.
	try(func(c *Doc) bool {
		for _, p := range c.places() {
			*p = nil
		}
		return true
	})
	for i := range d.places() {
		if *d.places()[i] != nil {
			try(func(c *Doc) bool { *c.places()[i] = nil; return true })
			try(func(c *Doc) bool { p := *c.places()[i]; *p = Place{Name: p.Name, Dep: p.Dep}; return true })
			try(func(c *Doc) bool { p := *c.places()[i]; p.Dep = 0; return true })
			try(func(c *Doc) bool { p := *c.places()[i]; p.Chain, p.Main = nil, nil; return true })
		}
	}
	// Inside messages.
	nm := len(d.messages())
	for i := 0; i < nm; i++ {
		edit := func(f func(m *Message) bool) {
			try(func(c *Doc) bool { return f(c.messages()[i]) })
		}
		m := d.messages()[i]
		if m.Ref != "" {
			continue
		}
		edit(func(m *Message) bool { r := m.Headers != nil; m.Headers = nil; return r })
		edit(func(m *Message) bool { r := len(m.Traits) > 0; m.Traits = nil; return r })
		edit(func(m *Message) bool { r := m.Corr != ""; m.Corr = ""; return r })
		edit(func(m *Message) bool {
			if m.Payload == nil || m.Payload.Type == "string" && m.Payload.Ref == "" {
				return false
			}
			m.Payload = &Schema{Type: "string"}
			return true
		})
		edit(func(m *Message) bool { r := m.Desc != ""; m.Desc = ""; return r })
	}
	// Inside schemas.
	ns := len(d.schemas())
	for i := 0; i < ns; i++ {
		edit := func(f func(s *Schema) bool) {
			try(func(c *Doc) bool { return f(c.schemas()[i]) })
		}
		s := d.schemas()[i]
		for j := range s.Props {
			edit(func(s *Schema) bool { s.Props = cutAt(s.Props, j); return true })
		}
		for j := range s.AllOf {
			edit(func(s *Schema) bool { s.AllOf = cutAt(s.AllOf, j); return true })
		}
		for j := range s.AnyOf {
			edit(func(s *Schema) bool { s.AnyOf = cutAt(s.AnyOf, j); return true })
		}
		for j := range s.OneOf {
			edit(func(s *Schema) bool { s.OneOf = cutAt(s.OneOf, j); return true })
		}
		edit(func(s *Schema) bool { r := s.Add != nil; s.Add = nil; return r })
		edit(func(s *Schema) bool { r := len(s.Also) > 0 && (s.Type != "" || s.composed()); s.Also = nil; return r })
		edit(func(s *Schema) bool {
			n := Schema{Ref: s.Ref, Type: s.Type, Format: s.Format, Props: s.Props, Items: s.Items, Add: s.Add, AllOf: s.AllOf, AnyOf: s.AnyOf, OneOf: s.OneOf, Also: s.Also,
				Place: s.Place, GoType: s.GoType, GoName: s.GoName, GoPath: s.GoPath}
			*s = n
			return true
		})
		edit(func(s *Schema) bool {
			if s.Type == "string" && s.Ref == "" && s.Format == "" {
				return false
			}
			*s = Schema{Type: "string"}
			return true
		})
	}
	return out
}

func cutAt[T any](l []T, i int) []T {
	return append(append([]T{}, l[:i]...), l[i+1:]...)
}

// messages lists every message written in the document.
func (d *Doc) messages() []*Message {
	var out []*Message
	var add func(m *Message)
	add = func(m *Message) {
		out = append(out, m)
		for _, t := range m.Traits {
			add(t)
		}
	}
	for _, x := range append([]*Doc{d}, d.Deps...) {
		for _, m := range append(append([]*Message{}, x.Msgs...), x.Traits...) {
			add(m)
		}
		for _, c := range append(append([]*Channel{}, x.Channels...), x.CompChan...) {
			for _, m := range c.Msgs {
				add(m)
			}
			for _, o := range []*V2Op{c.Pub, c.Sub} {
				if o != nil {
					add(o.Msg)
				}
			}
		}
	}
	return out
}

// schemas lists every schema written in the document.
func (d *Doc) schemas() []*Schema {
	var out []*Schema
	var add func(s *Schema)
	add = func(s *Schema) {
		if s == nil {
			return
		}
		out = append(out, s)
		for _, p := range s.Props {
			add(p.S)
		}
		add(s.Items)
		add(s.Add)
		for _, l := range [][]*Schema{s.AllOf, s.AnyOf, s.OneOf} {
			for _, m := range l {
				add(m)
			}
		}
	}
	for _, x := range append([]*Doc{d}, d.Deps...) {
		for _, s := range x.Schemas {
			add(s.S)
		}
	}
	for _, m := range d.messages() {
		add(m.Headers)
		add(m.Payload)
	}
	return out
}
