// Package spec holds a model of AsyncAPI documents: a generator, an emitter to
// YAML and JSON, a resolver of references and composition (the reference model
// of the checks), and a shrinker.
package spec

import (
	"fmt"
	"strings"
)

// Doc is an AsyncAPI document.
type Doc struct {
	ID          string `json:"id,omitempty"`
	V           int    `json:"v"`
	Version     string `json:"version"`
	Title       string
	InfoVersion string

	Channels []*Channel
	Ops      []*Op `json:",omitempty"` // version 3

	Schemas  []*Named   `json:",omitempty"`
	Msgs     []*Message `json:",omitempty"`
	Params   []*Param   `json:",omitempty"`
	CompChan []*Channel `json:",omitempty"` // version 3 components.channels
	Traits   []*Message `json:",omitempty"` // version 3 components.messageTraits
	Corrs    []*Corr    `json:",omitempty"` // version 3 components.correlationIds
	Deps     []*Doc     `json:",omitempty"`
	Bare     bool       `json:",omitempty"` // a dependency without version nor info
	File     string     // file name of this document (dependencies are referred to by it)

	Opt   Options
	Emit  Emit
	Noise *Noise `json:",omitempty"`
}

// Options are the options of the tool.
type Options struct {
	Pkg          string
	Convert      string `json:",omitempty"` // none, snake, kebab, camel
	Naming       string `json:",omitempty"` // none, camel
	ForcePtr     bool   `json:",omitempty"`
	IgnoreFormat bool   `json:",omitempty"`
	NoFormatting bool   `json:",omitempty"`
	// Parts lists the -g values, one file for each; empty: a single file with the default.
	Parts []string `json:",omitempty"`
}

// Emit says how the document is written.
type Emit struct {
	JSON    bool
	Seed    uint64 // order of keys and style
	Shuffle bool
}

// Named is a named schema.
type Named struct {
	Name string
	S    *Schema
}

// Prop is a property of an object.
type Prop struct {
	Name string
	Req  bool `json:",omitempty"`
	S    *Schema
}

// Schema is a JSON schema of the supported subset.
type Schema struct {
	Ref     string    `json:",omitempty"`
	Type    string    `json:",omitempty"`
	Format  string    `json:",omitempty"`
	Props   []*Prop   `json:",omitempty"`
	Items   *Schema   `json:",omitempty"`
	Add     *Schema   `json:",omitempty"`
	AllOf   []*Schema `json:",omitempty"`
	AnyOf   []*Schema `json:",omitempty"`
	OneOf   []*Schema `json:",omitempty"`
	MinLen  *int      `json:",omitempty"`
	MaxLen  *int      `json:",omitempty"`
	Min     *float64  `json:",omitempty"`
	Max     *float64  `json:",omitempty"`
	ExMin   *float64  `json:",omitempty"`
	ExMax   *float64  `json:",omitempty"`
	Unique  bool      `json:",omitempty"`
	Enum    []string  `json:",omitempty"`
	Const   *string   `json:",omitempty"`
	Omit    *bool     `json:",omitempty"`
	GoType  string    `json:",omitempty"`
	GoName  string    `json:",omitempty"`
	GoPath  string    `json:",omitempty"`
	Desc    string    `json:",omitempty"`
	NoProps bool      `json:",omitempty"`
	Also    []string  `json:",omitempty"` // required properties that another part of an allOf describes
	Place   *Place    `json:",omitempty"`
}

// Place says that an object is written among the components of a document, with
// a reference where it is used. The meaning of the document is the same.
type Place struct {
	Name  string
	Dep   int      `json:",omitempty"` // 0: the same document; k: the k-th dependency
	Kind  string   `json:",omitempty"` // schemas only: payload or headers of a message, prop of another schema
	Sub   string   `json:",omitempty"` // name of the property
	Chain []string `json:",omitempty"` // other components that only refer to the next
	Main  []string `json:",omitempty"` // the same, in the document of the reference
}

// Message is a message, or a message trait.
type Message struct {
	Key     string
	Ref     string     `json:",omitempty"`
	Headers *Schema    `json:",omitempty"`
	Payload *Schema    `json:",omitempty"`
	Corr    string     `json:",omitempty"` // location
	CorrRef string     `json:",omitempty"`
	Traits  []*Message `json:",omitempty"`
	OneOf   []*Message `json:",omitempty"` // version 2
	Desc    string     `json:",omitempty"`

	Place, CorrPlace *Place `json:",omitempty"`
}

// Corr is a named correlation ID.
type Corr struct{ Key, Location string }

// Channel is a channel.
type Channel struct {
	Key       string
	Ref       string     `json:",omitempty"`
	Address   string     `json:",omitempty"` // version 2: equal to Key
	Params    []*Param   `json:",omitempty"`
	Msgs      []*Message `json:",omitempty"` // version 3
	Pub, Sub  *V2Op      `json:",omitempty"` // version 2
	Desc      string     `json:",omitempty"`
	NoAddress bool       `json:",omitempty"`
	Place     *Place     `json:",omitempty"` // version 3
}

// V2Op is a publish or subscribe operation.
type V2Op struct {
	ID  string `json:",omitempty"`
	Msg *Message
}

// Param is a channel parameter.
type Param struct {
	Key    string
	Ref    string `json:",omitempty"`
	Desc   string `json:",omitempty"`
	Schema *Schema
	Place  *Place `json:",omitempty"`
}

// Op is a version 3 operation.
type Op struct {
	Key    string
	Action string // send, receive
	Chan   string // reference
	Msgs   []string
	Reply  *Reply `json:",omitempty"`
	Desc   string `json:",omitempty"`
	Place  *Place `json:",omitempty"`
}

// Reply is the reply of an operation.
type Reply struct {
	Chan    string
	AddrLoc string   `json:",omitempty"`
	Msgs    []string `json:",omitempty"`

	Place, AddrPlace *Place `json:",omitempty"`
}

// ---- resolution --------------------------------------------------------------

// Scope is the document where references without file are looked up.
type Scope struct {
	Root *Doc // main document (owner of dependencies)
	Doc  *Doc
}

// NewScope is the scope of the main document.
func NewScope(d *Doc) Scope { return Scope{Root: d, Doc: d} }

func (sc Scope) split(ref string) (Scope, []string, error) {
	i := strings.Index(ref, "#/")
	if i < 0 {
		return sc, nil, fmt.Errorf("bad ref %q", ref)
	}
	file := strings.TrimPrefix(ref[:i], "./")
	out := sc
	if file != "" {
		found := false
		for _, dep := range sc.Root.Deps {
			if dep.File == file {
				out.Doc = dep
				found = true
			}
		}
		if !found {
			return sc, nil, fmt.Errorf("no dependency %q", file)
		}
	}
	return out, strings.Split(ref[i+2:], "/"), nil
}

// Schema follows a schema reference by one step.
func (sc Scope) Schema(ref string) (*Schema, Scope) {
	s, p, err := sc.split(ref)
	if err != nil {
		panic(err)
	}
	var cur *Schema
	switch {
	case len(p) >= 3 && p[0] == "components" && p[1] == "schemas":
		for _, n := range s.Doc.Schemas {
			if n.Name == p[2] {
				cur = n.S
			}
		}
		p = p[3:]
	case len(p) >= 4 && p[0] == "components" && p[1] == "messages":
		for _, m := range s.Doc.Msgs {
			if m.Key == p[2] {
				if p[3] == "payload" {
					cur = m.Payload
				} else {
					cur = m.Headers
				}
			}
		}
		p = p[4:]
	}
	if len(p) > 0 && p[0] == "properties" {
		p = p[1:]
	}
	for _, name := range p {
		if cur == nil {
			break
		}
		var next *Schema
		for _, pr := range cur.Props {
			if pr.Name == name {
				next = pr.S
			}
		}
		cur = next
	}
	if cur == nil {
		panic("unresolved schema ref " + ref)
	}
	return cur, s
}

// Message follows a message reference to its end.
func (sc Scope) Message(m *Message) (*Message, Scope) {
	for i := 0; m.Ref != ""; i++ {
		if i > 20 {
			panic("message ref loop")
		}
		s, p, err := sc.split(m.Ref)
		if err != nil {
			panic(err)
		}
		var next *Message
		switch {
		case len(p) == 3 && p[0] == "components" && p[1] == "messages":
			for _, x := range s.Doc.Msgs {
				if x.Key == p[2] {
					next = x
				}
			}
		case len(p) == 3 && p[0] == "components" && p[1] == "messageTraits":
			for _, x := range s.Doc.Traits {
				if x.Key == p[2] {
					next = x
				}
			}
		case len(p) == 4 && p[0] == "channels" && p[2] == "messages":
			for _, c := range s.Doc.Channels {
				if c.Key != p[1] {
					continue
				}
				cc, cs := s.Channel(c)
				for _, x := range cc.Msgs {
					if x.Key == p[3] {
						next, s = x, cs
					}
				}
			}
		}
		if next == nil {
			panic("unresolved message ref " + m.Ref)
		}
		m, sc = next, s
	}
	return m, sc
}

// Channel follows a channel.
func (sc Scope) Channel(c *Channel) (*Channel, Scope) {
	for i := 0; c.Ref != ""; i++ {
		if i > 20 {
			panic("channel ref loop")
		}
		c, sc = sc.ChannelRef(c.Ref)
	}
	return c, sc
}

// ChannelRef looks a channel reference up (one step).
func (sc Scope) ChannelRef(ref string) (*Channel, Scope) {
	s, p, err := sc.split(ref)
	if err != nil {
		panic(err)
	}
	list := s.Doc.Channels
	name := p[len(p)-1]
	if p[0] == "components" {
		list = s.Doc.CompChan
	}
	for _, x := range list {
		if x.Key == name {
			return x, s
		}
	}
	panic("unresolved channel ref " + ref)
}

// Param follows a parameter.
func (sc Scope) Param(p *Param) *Param {
	for i := 0; p.Ref != ""; i++ {
		s, path, err := sc.split(p.Ref)
		if err != nil || i > 20 {
			panic(fmt.Sprint("param ref ", p.Ref, err))
		}
		var next *Param
		for _, x := range s.Doc.Params {
			if x.Key == path[2] {
				next = x
			}
		}
		if next == nil {
			panic("unresolved param ref " + p.Ref)
		}
		p, sc = next, s
	}
	return p
}

// Eff is a schema with references followed and compositions merged; its
// children keep the scope they come from.
type Eff struct {
	*Schema
	Props []*EffProp
	Scope Scope
}

// EffProp is a property with the scope of its schema.
type EffProp struct {
	Name  string
	Req   bool
	S     *Schema
	Scope Scope
}

// Eff resolves a schema.
func (sc Scope) Eff(s *Schema) *Eff {
	orig := s
	for i := 0; s.Ref != ""; i++ {
		if i > 50 {
			panic("schema ref loop " + orig.Ref)
		}
		s, sc = sc.Schema(s.Ref)
	}
	e := &Eff{Schema: s, Scope: sc}
	if orig != s && orig.constrained() {
		// what is next to the reference holds too
		c := *s
		or(&c.MinLen, orig.MinLen)
		or(&c.MaxLen, orig.MaxLen)
		or(&c.Min, orig.Min)
		or(&c.Max, orig.Max)
		or(&c.ExMin, orig.ExMin)
		or(&c.ExMax, orig.ExMax)
		or(&c.Omit, orig.Omit)
		e.Schema = &c
	}
	e.Props = sc.props(s, map[string]bool{})
	req := map[string]bool{}
	sc.required(s, req)
	for _, p := range e.Props {
		p.Req = req[p.Name]
	}
	if s.composed() {
		c := *e.Schema
		c.Type = "object"
		c.AllOf, c.AnyOf, c.OneOf = nil, nil, nil
		e.Schema = &c
	}
	return e
}

func (s *Schema) prop(name string) *Prop {
	for _, p := range s.Props {
		if p.Name == name {
			return p
		}
	}
	return nil
}

func or[T any](to **T, from *T) {
	if *to == nil {
		*to = from
	}
}

// constrained tells whether constraints are next to a reference.
func (s *Schema) constrained() bool {
	return s.MinLen != nil || s.MaxLen != nil || s.Min != nil || s.Max != nil || s.ExMin != nil || s.ExMax != nil || s.Omit != nil
}

func (s *Schema) composed() bool { return len(s.AllOf)+len(s.AnyOf)+len(s.OneOf) > 0 }

func (sc Scope) props(s *Schema, seen map[string]bool) []*EffProp {
	var out []*EffProp
	for _, p := range s.Props {
		if !seen[p.Name] {
			seen[p.Name] = true
			out = append(out, &EffProp{p.Name, p.Req, p.S, sc})
		}
	}
	for _, l := range [][]*Schema{s.AnyOf, s.OneOf, s.AllOf} {
		for _, m := range l {
			t, tsc := m, sc
			for i := 0; t.Ref != ""; i++ {
				t, tsc = tsc.Schema(t.Ref)
			}
			out = append(out, tsc.props(t, seen)...)
		}
	}
	return out
}

// required collects the names that any part of s requires.
func (sc Scope) required(s *Schema, req map[string]bool) {
	for _, p := range s.Props {
		if p.Req {
			req[p.Name] = true
		}
	}
	for _, n := range s.Also {
		req[n] = true
	}
	for _, l := range [][]*Schema{s.AnyOf, s.OneOf, s.AllOf} {
		for _, m := range l {
			t, tsc := m, sc
			for t.Ref != "" {
				t, tsc = tsc.Schema(t.Ref)
			}
			tsc.required(t, req)
		}
	}
}

// EffMsg is a message with references followed, and traits and oneOf merged.
type EffMsg struct {
	Headers, Payload *Eff
	Corr             string
	TypeKey          string
}

// EffMessage resolves a message.
func (sc Scope) EffMessage(m *Message) *EffMsg {
	t, tsc := sc.Message(m)
	out := &EffMsg{TypeKey: t.Key}
	out.Corr = t.Corr
	if t.CorrRef != "" {
		out.Corr = tsc.corr(t.CorrRef)
	}
	type part struct {
		s  *Schema
		sc Scope
	}
	var hs, ps []part
	add := func(m *Message, s Scope) {
		if m.Headers != nil {
			hs = append(hs, part{m.Headers, s})
		}
		if m.Payload != nil {
			ps = append(ps, part{m.Payload, s})
		}
	}
	add(t, tsc)
	for _, o := range t.OneOf {
		x, xs := tsc.Message(o)
		add(x, xs)
	}
	for _, tr := range t.Traits {
		x, xs := tsc.Message(tr)
		add(x, xs)
		if out.Corr == "" {
			out.Corr = x.Corr
			if x.CorrRef != "" {
				out.Corr = xs.corr(x.CorrRef)
			}
		}
	}
	merge := func(parts []part) *Eff {
		if len(parts) == 0 {
			return nil
		}
		first := parts[0].sc.Eff(parts[0].s)
		if len(parts) == 1 {
			return first
		}
		c := *first.Schema
		c.Type = "object"
		e := &Eff{Schema: &c, Scope: first.Scope}
		seen := map[string]*EffProp{}
		for _, p := range parts {
			for _, pr := range p.sc.Eff(p.s).Props {
				if old := seen[pr.Name]; old == nil {
					c := *pr
					seen[pr.Name] = &c
					e.Props = append(e.Props, &c)
				} else {
					old.Req = old.Req || pr.Req
				}
			}
		}
		return e
	}
	out.Headers, out.Payload = merge(hs), merge(ps)
	loc, path := out.CorrPath()
	if out.Corr != "" {
		// The field of the correlation ID exists even if it is not declared.
		dst := &out.Headers
		if loc == "payload" {
			dst = &out.Payload
		}
		*dst = withPath(*dst, path, tsc)
	}
	return out
}

func withPath(e *Eff, path []string, sc Scope) *Eff {
	if e == nil {
		e = &Eff{Schema: &Schema{Type: "object"}, Scope: sc}
	}
	for _, p := range e.Props {
		if p.Name == path[0] {
			return e // declared (deeper levels are declared by the generator)
		}
	}
	if len(path) != 1 {
		return e
	}
	c := &Eff{Schema: e.Schema, Scope: e.Scope}
	c.Props = append(append([]*EffProp{}, e.Props...), &EffProp{Name: path[0], S: &Schema{Type: "string"}, Scope: sc})
	return c
}

// CorrPath gives the part (headers or payload) and the path of the correlation ID.
func (m *EffMsg) CorrPath() (string, []string) { return LocPath(m.Corr) }

// LocPath splits a runtime expression.
func LocPath(loc string) (string, []string) {
	i := strings.Index(loc, "#/")
	if i < 0 {
		return "", nil
	}
	part := "headers"
	if strings.HasPrefix(loc, "$message.payload") {
		part = "payload"
	}
	return part, strings.Split(loc[i+2:], "/")
}

func (sc Scope) corr(ref string) string {
	s, p, err := sc.split(ref)
	if err != nil {
		panic(err)
	}
	for _, c := range s.Doc.Corrs {
		if c.Key == p[2] {
			return c.Location
		}
	}
	panic("unresolved correlation ID ref " + ref)
}
