package spec

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strings"
)

// Rand is a small deterministic generator.
type Rand struct{ s uint64 }

// NewRand makes a generator.
func NewRand(seed uint64) *Rand {
	r := &Rand{s: seed ^ 0x51ab3c9e7d}
	return &Rand{s: r.U()} // streams of successive seeds are unrelated
}

// U gives the next number.
func (r *Rand) U() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N gives a number in [0,n).
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// P is true with a probability of p percent.
func (r *Rand) P(p int) bool { return r.N(100) < p }

// R gives a number in [lo,hi].
func (r *Rand) R(lo, hi int) int { return lo + r.N(hi-lo+1) }

// Pick picks an element.
func Pick[T any](r *Rand, l []T) T { return l[r.N(len(l))] }

// Node is an ordered tree.
type Node struct {
	kind byte // m map, l list, s scalar
	keys []string
	vals []*Node
	sc   any
}

func nm() *Node                   { return &Node{kind: 'm'} }
func nl() *Node                   { return &Node{kind: 'l'} }
func ns(v any) *Node              { return &Node{kind: 's', sc: v} }
func (n *Node) add(v *Node) *Node { n.vals = append(n.vals, v); return n }
func (n *Node) set(k string, v *Node) *Node {
	n.keys = append(n.keys, k)
	n.vals = append(n.vals, v)
	return n
}
func (n *Node) str(k, v string) *Node {
	if v != "" {
		n.set(k, ns(v))
	}
	return n
}

func (n *Node) shuffle(r *Rand) {
	if n.kind == 'm' {
		for i := len(n.keys) - 1; i > 0; i-- {
			j := r.N(i + 1)
			n.keys[i], n.keys[j] = n.keys[j], n.keys[i]
			n.vals[i], n.vals[j] = n.vals[j], n.vals[i]
		}
	}
	for _, v := range n.vals {
		v.shuffle(r)
	}
}

func jstr(v any) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	_ = e.Encode(v)
	return strings.TrimSuffix(b.String(), "\n")
}

func (n *Node) json(b *strings.Builder) {
	switch n.kind {
	case 'm':
		b.WriteByte('{')
		for i, k := range n.keys {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(jstr(k) + ":")
			n.vals[i].json(b)
		}
		b.WriteByte('}')
	case 'l':
		b.WriteByte('[')
		for i, v := range n.vals {
			if i > 0 {
				b.WriteByte(',')
			}
			v.json(b)
		}
		b.WriteByte(']')
	default:
		b.WriteString(jstr(n.sc))
	}
}

var plain = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_]*$`)
var notPlain = map[string]bool{"y": true, "n": true, "yes": true, "no": true, "on": true, "off": true, "true": true, "false": true, "null": true}

func ystr(s string, r *Rand) string {
	if plain.MatchString(s) && !notPlain[strings.ToLower(s)] && r.P(70) {
		return s
	}
	return jstr(s)
}

func (n *Node) yaml(b *strings.Builder, ind int, r *Rand) {
	pad := strings.Repeat("  ", ind)
	switch n.kind {
	case 'm':
		if len(n.keys) == 0 {
			b.WriteString(pad + "{}\n")
			return
		}
		for i, k := range n.keys {
			b.WriteString(pad + ystr(k, r) + ":")
			n.vals[i].yamlVal(b, ind, r)
		}
	case 'l':
		for _, v := range n.vals {
			b.WriteString(pad + "-")
			v.yamlVal(b, ind, r)
		}
	}
}

func (n *Node) yamlVal(b *strings.Builder, ind int, r *Rand) {
	switch {
	case n.kind == 's':
		if s, ok := n.sc.(string); ok {
			b.WriteString(" " + ystr(s, r) + "\n")
		} else {
			b.WriteString(" " + jstr(n.sc) + "\n")
		}
	case len(n.vals) == 0 || r.P(12):
		b.WriteByte(' ')
		n.json(b)
		b.WriteByte('\n')
	default:
		b.WriteByte('\n')
		n.yaml(b, ind+1, r)
	}
}

// File is a file of a document: the main one has no name.
type File struct {
	Name string
	Data []byte
}

// Files writes the document and its dependencies.
func (d *Doc) Files() []File { return d.FilesAs(nil) }

// FilesAs writes the document and its dependencies, with another style for the main file if any.
func (d *Doc) FilesAs(style *Emit) []File { return d.files(style, newNoise(d.Noise)) }

func (d *Doc) files(style *Emit, nz *noise) []File {
	extra := map[*Doc]*Node{}
	docs := append([]*Doc{d}, d.Deps...)
	var nodes []*Node
	for _, x := range docs {
		em := &emitter{x, d, x, extra, nz}
		nodes = append(nodes, em.node())
	}
	var out []File
	for i, x := range docs {
		n := nodes[i]
		if ex := extra[x]; ex != nil {
			comp := n.get("components")
			if comp == nil {
				comp = nm()
				n.set("components", comp)
			}
			for k, section := range ex.keys {
				dst := comp.get(section)
				if dst == nil {
					dst = nm()
					comp.set(section, dst)
				}
				for l, name := range ex.vals[k].keys {
					dst.set(name, ex.vals[k].vals[l])
				}
			}
		}
		e := x.Emit
		if i == 0 && style != nil {
			e = *style
		}
		r := NewRand(e.Seed)
		if e.Shuffle {
			n.shuffle(r)
		}
		var b strings.Builder
		if e.JSON {
			n.json(&b)
		} else {
			n.yaml(&b, 0, r)
		}
		f := File{Data: []byte(b.String())}
		if i > 0 {
			f.Name = x.File
		}
		out = append(out, f)
	}
	return out
}

// Text writes everything for people.
func (d *Doc) Text() string {
	s := ""
	for _, f := range d.Files() {
		if f.Name != "" {
			s += "\n--- dependency " + f.Name + "\n"
		}
		s += string(f.Data)
	}
	return s
}

func (n *Node) get(k string) *Node {
	for i, x := range n.keys {
		if x == k {
			return n.vals[i]
		}
	}
	return nil
}

// emitter writes the objects of a document.
type emitter struct {
	*Doc
	root  *Doc
	cur   *Doc
	extra map[*Doc]*Node // components added to the documents, by section
	nz    *noise
}

func (em *emitter) put(d *Doc, section, name string, n *Node) {
	ex := em.extra[d]
	if ex == nil {
		ex = nm()
		em.extra[d] = ex
	}
	sec := ex.get(section)
	if sec == nil {
		sec = nm()
		ex.set(section, sec)
	}
	sec.set(name, n)
}

// ref writes a reference.
func (em *emitter) ref(r string) *Node {
	if em.cur != em.root {
		r = strings.TrimPrefix(strings.TrimPrefix(r, "./"), em.cur.File)
	}
	return nm().str("$ref", r)
}

// place writes an object where it is placed, and gives the reference to it.
func (em *emitter) place(p *Place, section string, build func(*emitter) *Node) *Node {
	if p == nil {
		return build(em)
	}
	to, prefix := em.cur, ""
	if em.cur == em.root && p.Dep > 0 && p.Dep <= len(em.root.Deps) {
		to = em.root.Deps[p.Dep-1]
		prefix = to.File
		if len(p.Name)%2 == 0 {
			prefix = "./" + prefix
		}
	}
	n := build(&emitter{to, em.root, to, em.extra, em.nz})
	path := "#/components/" + section + "/"
	local := path + p.Name
	switch p.Kind {
	case "payload", "headers":
		m := nm().set(p.Kind, n)
		if p.Kind == "headers" {
			m.set("payload", nm().str("type", "string"))
		}
		em.put(to, "messages", p.Name, m)
		local = "#/components/messages/" + p.Name + "/" + p.Kind
	case "prop":
		em.put(to, section, p.Name, nm().str("type", "object").set("properties", nm().set(p.Sub, n)))
		local += "/" + p.Sub
	default:
		em.put(to, section, p.Name, n)
	}
	for _, c := range p.Chain {
		em.put(to, section, c, nm().str("$ref", local))
		local = path + c
	}
	local = prefix + local
	for _, c := range p.Main {
		em.put(em.cur, section, c, nm().str("$ref", local))
		local = path + c
	}
	return nm().str("$ref", local)
}

// Ext is the extension of the document's file.
func (e Emit) Ext() string {
	if e.JSON {
		return ".json"
	}
	if e.Seed%4 == 1 {
		return ".yml"
	}
	return ".yaml"
}

func (d *emitter) node() *Node {
	n := nm()
	if !d.Bare {
		n.str("asyncapi", d.Version)
		info := nm().str("title", d.Title).str("version", d.InfoVersion)
		n.set("info", d.noise(info, "info"))
	}
	d.noise(n, "servers")
	if len(d.Channels) > 0 {
		m := nm()
		for _, c := range d.Channels {
			m.set(c.Key, d.channel(c))
		}
		n.set("channels", m)
	} else if d.V == 2 {
		n.set("channels", nm())
	}
	if len(d.Ops) > 0 {
		m := nm()
		for _, o := range d.Ops {
			m.set(o.Key, d.op(o))
		}
		n.set("operations", m)
	}
	comp := nm()
	if len(d.Schemas) > 0 {
		m := nm()
		for _, s := range d.Schemas {
			m.set(s.Name, d.schema(s.S))
		}
		comp.set("schemas", m)
	}
	msgs := func(k string, l []*Message) {
		if len(l) == 0 {
			return
		}
		m := nm()
		for _, x := range l {
			if k == "messages" {
				m.set(x.Key, d.msg(x))
			} else {
				m.set(x.Key, d.trait(x))
			}
		}
		comp.set(k, m)
	}
	msgs("messages", d.Msgs)
	msgs("messageTraits", d.Traits)
	if len(d.Params) > 0 {
		m := nm()
		for _, p := range d.Params {
			m.set(p.Key, d.param(p))
		}
		comp.set("parameters", m)
	}
	if len(d.CompChan) > 0 {
		m := nm()
		for _, c := range d.CompChan {
			m.set(c.Key, d.channel(c))
		}
		comp.set("channels", m)
	}
	if len(d.Corrs) > 0 {
		m := nm()
		for _, c := range d.Corrs {
			m.set(c.Key, d.noise(nm().str("location", c.Location), "correlation"))
		}
		comp.set("correlationIds", m)
	}
	if len(comp.keys) > 0 {
		n.set("components", comp)
	}
	return d.noise(n, "root")
}

func (d *emitter) param(p *Param) *Node {
	return d.place(p.Place, "parameters", func(d *emitter) *Node { return d.rawParam(p) })
}

func (d *emitter) rawParam(p *Param) *Node {
	n := nm()
	if p.Ref != "" {
		return d.ref(p.Ref)
	}
	n.str("description", p.Desc)
	if p.Schema != nil {
		n.set("schema", d.schema(p.Schema))
	}
	return d.noise(n, "parameter")
}

func (d *emitter) channel(c *Channel) *Node {
	return d.place(c.Place, "channels", func(d *emitter) *Node { return d.rawChannel(c) })
}

func (d *emitter) rawChannel(c *Channel) *Node {
	n := nm()
	if c.Ref != "" {
		return d.ref(c.Ref)
	}
	n.str("description", c.Desc)
	if d.V == 3 && !c.NoAddress {
		n.str("address", c.Address)
	}
	if len(c.Params) > 0 {
		m := nm()
		for _, p := range c.Params {
			m.set(p.Key, d.param(p))
		}
		n.set("parameters", m)
	}
	if len(c.Msgs) > 0 {
		m := nm()
		for _, x := range c.Msgs {
			m.set(x.Key, d.msg(x))
		}
		n.set("messages", m)
	}
	v2 := func(k string, o *V2Op) {
		if o == nil {
			return
		}
		m := nm().str("operationId", o.ID)
		m.set("message", d.msg(o.Msg))
		n.set(k, d.noise(m, "operation"))
	}
	v2("publish", c.Pub)
	v2("subscribe", c.Sub)
	return d.noise(n, "channel")
}

func (d *emitter) op(o *Op) *Node {
	return d.place(o.Place, "operations", func(d *emitter) *Node { return d.rawOp(o) })
}

func (d *emitter) rawOp(o *Op) *Node {
	n := nm().str("action", o.Action).str("summary", o.Desc)
	n.set("channel", nm().str("$ref", o.Chan))
	refs := func(m *Node, l []string) {
		if len(l) == 0 {
			return
		}
		x := nl()
		for _, r := range l {
			x.add(nm().str("$ref", r))
		}
		m.set("messages", x)
	}
	refs(n, o.Msgs)
	if o.Reply != nil {
		n.set("reply", d.place(o.Reply.Place, "replies", func(d *emitter) *Node {
			m := nm()
			m.set("channel", nm().str("$ref", o.Reply.Chan))
			if o.Reply.AddrLoc != "" {
				m.set("address", d.place(o.Reply.AddrPlace, "replyAddresses", func(d *emitter) *Node { return d.noise(nm().str("location", o.Reply.AddrLoc), "address") }))
			}
			refs(m, o.Reply.Msgs)
			return d.noise(m, "reply")
		}))
	}
	return d.noise(n, "operation")
}

func (d *emitter) msg(x *Message) *Node {
	return d.place(x.Place, "messages", func(d *emitter) *Node { return d.rawMsg(x, "message") })
}

func (d *emitter) trait(x *Message) *Node { return d.rawMsg(x, "trait") }

func (d *emitter) rawMsg(x *Message, kind string) *Node {
	n := nm()
	if x.Ref != "" {
		return d.ref(x.Ref)
	}
	n.str("description", x.Desc)
	if x.Headers != nil {
		n.set("headers", d.schema(x.Headers))
	}
	if x.Payload != nil {
		n.set("payload", d.schema(x.Payload))
	}
	key := "correlationId"
	if x.CorrRef != "" {
		n.set(key, nm().str("$ref", x.CorrRef))
	} else if x.Corr != "" {
		n.set(key, d.place(x.CorrPlace, "correlationIds", func(d *emitter) *Node { return d.noise(nm().str("location", x.Corr), "correlation") }))
	}
	list := func(k string, l []*Message) {
		if len(l) == 0 {
			return
		}
		m := nl()
		for _, t := range l {
			if k == "traits" {
				m.add(d.trait(t))
			} else {
				m.add(d.msg(t))
			}
		}
		n.set(k, m)
	}
	list("traits", x.Traits)
	list("oneOf", x.OneOf)
	return d.noise(n, kind)
}

func (d *emitter) schema(s *Schema) *Node {
	return d.place(s.Place, "schemas", func(d *emitter) *Node { return d.rawSchema(s) })
}

func (d *emitter) rawSchema(s *Schema) *Node {
	n := nm()
	if s.Ref != "" {
		n = d.ref(s.Ref)
		if !s.constrained() {
			return n
		}
	}
	n.str("type", s.Type).str("format", s.Format).str("description", s.Desc)
	req := append([]string(nil), s.Also...)
	if len(s.Props) > 0 {
		m := nm()
		for _, p := range s.Props {
			m.set(p.Name, d.schema(p.S))
			if p.Req {
				req = append(req, p.Name)
			}
		}
		n.set("properties", m)
	}
	if len(req) > 0 {
		l := nl()
		for _, r := range req {
			l.add(ns(r))
		}
		n.set("required", l)
	}
	if s.Items != nil {
		n.set("items", d.schema(s.Items))
	}
	if s.Add != nil {
		n.set("additionalProperties", d.schema(s.Add))
	}
	list := func(k string, l []*Schema) {
		if len(l) == 0 {
			return
		}
		m := nl()
		for _, t := range l {
			m.add(d.schema(t))
		}
		n.set(k, m)
	}
	list("allOf", s.AllOf)
	list("anyOf", s.AnyOf)
	list("oneOf", s.OneOf)
	num := func(k string, v any, ok bool) {
		if ok {
			n.set(k, ns(v))
		}
	}
	lenKeys := [2]string{"minLength", "maxLength"}
	num(lenKeys[0], s.MinLen, s.MinLen != nil)
	num(lenKeys[1], s.MaxLen, s.MaxLen != nil)
	num("minimum", s.Min, s.Min != nil)
	num("maximum", s.Max, s.Max != nil)
	num("exclusiveMinimum", s.ExMin, s.ExMin != nil)
	num("exclusiveMaximum", s.ExMax, s.ExMax != nil)
	if s.Unique {
		n.set("uniqueItems", ns(true))
	}
	if len(s.Enum) > 0 {
		l := nl()
		for _, e := range s.Enum {
			l.add(ns(e))
		}
		n.set("enum", l)
	}
	if s.Const != nil {
		n.set("const", ns(*s.Const))
	}
	if s.Omit != nil {
		n.set("x-omitempty", ns(*s.Omit))
	}
	n.str("x-go-type", s.GoType)
	if s.GoPath != "" {
		m := nm().str("path", s.GoPath)
		m.str("name", s.GoName)
		n.set("x-go-type-import", m)
	}
	return d.noise(n, "schema")
}

// Clone copies the document.
func (d *Doc) Clone() *Doc {
	b, err := json.Marshal(d)
	if err != nil {
		panic(err)
	}
	var out Doc
	if err := json.Unmarshal(b, &out); err != nil {
		panic(fmt.Sprint(err))
	}
	return &out
}

// EachSchema calls f for all schemas of the document and of its dependencies.
func (d *Doc) EachSchema(f func(s *Schema)) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if s, ok := v.Interface().(*Schema); ok {
				f(s)
			}
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(d))
}
