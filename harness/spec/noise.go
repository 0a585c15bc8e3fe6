package spec

import (
	"fmt"
	"hash/fnv"
	"sort"
)

// Noise adds what only describes to the objects of a document: titles, tags, examples, servers, security, bindings...
type Noise struct {
	Seed  uint64
	Rate  int      // percentage of the places where something is added
	Kinds []string `json:",omitempty"` // kinds added; empty: all
}

// noise writes descriptions. It is shared by the emitters of a document.
type noise struct {
	Noise
	n    map[string]int
	only map[string]bool
	// Used lists the kinds written.
	used map[string]bool
	// servers of the documents
	servers map[*Doc][]string
}

func newNoise(n *Noise) *noise {
	if n == nil {
		return nil
	}
	x := &noise{Noise: *n, n: map[string]int{}, used: map[string]bool{}, servers: map[*Doc][]string{}}
	if len(n.Kinds) > 0 {
		x.only = map[string]bool{}
		for _, k := range n.Kinds {
			x.only[k] = true
		}
	}
	return x
}

// NoiseKinds lists the kinds of descriptions that the document holds.
func (d *Doc) NoiseKinds() []string {
	if d.Noise == nil {
		return nil
	}
	nz := newNoise(d.Noise)
	d.files(nil, nz)
	var out []string
	for k := range nz.used {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// draw gives a generator if something of this kind is to be added here.
func (z *noise) draw(kind string) *Rand {
	z.n[kind]++
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %s %d", z.Seed, kind, z.n[kind])
	r := NewRand(h.Sum64())
	if !r.P(z.Rate) || z.only != nil && !z.only[kind] {
		return nil
	}
	z.used[kind] = true
	return r
}

var noiseTexts = []string{"text", "two\nlines", "*/ } // `tick` \"quote\"", "été ✓", "{{ .Name }} {{", "trailing\n\n", "package x\nimport \"os\"\n", "%s %d %!v", "a: b # c", " "}

type noiser struct {
	*emitter
	r *Rand
}

func (z noiser) text() *Node { return ns(Pick(z.r, noiseTexts)) }
func (z noiser) name() string {
	return fmt.Sprintf("%s%d", Pick(z.r, []string{"one", "Two", "three-x", "four_y", "v5"}), z.r.N(1000000))
}

// comp gives the object, or a reference to it among the components.
func (z noiser) comp(section string, n *Node) *Node {
	if z.V != 3 || !z.r.P(35) {
		return n
	}
	name := z.name()
	if z.cur == z.root && len(z.root.Deps) > 0 && z.r.P(35) && !n.refers() {
		dep := Pick(z.r, z.root.Deps)
		z.put(dep, section, name, n)
		return nm().str("$ref", Pick(z.r, []string{"", "./"})+dep.File+"#/components/"+section+"/"+name)
	}
	z.put(z.cur, section, name, n)
	return nm().str("$ref", "#/components/"+section+"/"+name)
}

func (z noiser) docs() *Node {
	n := nm().str("url", "https://example.com/"+z.name())
	if z.r.P(50) {
		n.set("description", z.text())
	}
	return z.comp("externalDocs", n)
}

func (z noiser) tags() *Node {
	l := nl()
	for i := z.r.N(3); i >= 0; i-- {
		n := nm().str("name", z.name())
		if z.r.P(50) {
			n.set("description", z.text())
		}
		if z.r.P(30) {
			n.set("externalDocs", z.docs())
		}
		l.add(z.comp("tags", n))
	}
	return l
}

func (z noiser) any(depth int) *Node {
	switch k := z.r.N(7); {
	case k == 0 && depth > 0:
		l := nl()
		for i := z.r.N(3); i > 0; i-- {
			l.add(z.any(depth - 1))
		}
		return l
	case k < 3 && depth > 0:
		return z.obj(depth)
	case k == 3:
		return ns(z.r.N(1000) - 500)
	case k == 4:
		return ns(z.r.P(50))
	case k == 5:
		return ns(1.5)
	}
	return z.text()
}

func (z noiser) obj(depth int) *Node {
	n := nm()
	for i := z.r.N(3); i >= 0; i-- {
		n.set(z.name(), z.any(depth-1))
	}
	return n
}

func (z noiser) bindings(section string) *Node {
	n := nm()
	for _, p := range []string{"http", "ws", "kafka", "amqp", "amqp1", "mqtt", "nats", "sns", "solace", "sqs", "redis", "ibmmq", "googlepubsub", "pulsar", "jms", "stomp", "mercure"} {
		if z.r.P(15) {
			b := nm().str("bindingVersion", "0.1.0")
			b.set(z.name(), z.any(2))
			n.set(p, b)
		}
	}
	return z.comp(section, n)
}

func (z noiser) scheme() *Node {
	n := nm()
	switch z.r.N(5) {
	case 0:
		n.str("type", "userPassword")
	case 1:
		n.str("type", "apiKey").str("in", "user")
	case 2:
		n.str("type", "http").str("scheme", "bearer").str("bearerFormat", "JWT")
	case 3:
		n.str("type", "openIdConnect").str("openIdConnectUrl", "https://example.com/x")
		if z.V == 3 {
			n.set("scopes", nl().add(ns("a")).add(ns("b:c")))
		}
	case 4:
		f := nm().str("authorizationUrl", "https://example.com/a").str("tokenUrl", "https://example.com/t")
		scopes := nm().str("write:x", "writes").str("read:x", "reads")
		if z.V == 3 {
			f.set("availableScopes", scopes)
		} else {
			f.set("scopes", scopes)
		}
		n.str("type", "oauth2").set("flows", nm().set(Pick(z.r, []string{"implicit", "password", "clientCredentials", "authorizationCode"}), f))
	}
	if z.r.P(50) {
		n.set("description", z.text())
	}
	return n
}

func (z noiser) security() *Node {
	l := nl()
	for i := z.r.N(2); i >= 0; i-- {
		if z.V == 3 {
			l.add(z.comp("securitySchemes", z.scheme()))
			continue
		}
		name := z.name()
		z.put(z.cur, "securitySchemes", name, z.scheme())
		l.add(nm().set(name, nl()))
	}
	return l
}

func (z noiser) server() *Node {
	n := nm().str("protocol", Pick(z.r, []string{"kafka", "nats", "mqtt", "amqp", "ws"}))
	host := "{name}.example.com:{port}"
	if z.V == 3 {
		n.str("host", host).str("pathname", "/x/y")
	} else {
		n.str("url", host)
	}
	vars := nm()
	for _, k := range []string{"name", "port"} {
		v := nm().str("default", "1234").set("enum", nl().add(ns("1234")).add(ns("x")))
		if z.r.P(50) {
			v.set("description", z.text()).set("examples", nl().add(ns("x")))
		}
		vars.set(k, z.comp("serverVariables", v))
	}
	n.set("variables", vars)
	if z.r.P(40) {
		n.set("description", z.text())
	}
	if z.r.P(40) && z.V == 3 {
		n.set("title", z.text()).set("summary", z.text())
	}
	if z.r.P(40) {
		n.str("protocolVersion", "1.0")
	}
	if z.r.P(40) {
		n.set("tags", z.tags())
	}
	if z.r.P(40) {
		n.set("security", z.security())
	}
	if z.r.P(40) {
		n.set("bindings", z.bindings("serverBindings"))
	}
	if z.r.P(30) && z.V == 3 {
		n.set("externalDocs", z.docs())
	}
	return n
}

func (z noiser) opTrait() *Node {
	n := nm()
	if z.r.P(50) {
		n.set("summary", z.text())
	}
	if z.r.P(50) {
		n.set("description", z.text())
	}
	if z.r.P(40) && z.V == 3 {
		n.set("title", z.text())
	}
	if z.r.P(50) {
		n.set("tags", z.tags())
	}
	if z.r.P(50) {
		n.set("externalDocs", z.docs())
	}
	if z.r.P(50) {
		n.set("bindings", z.bindings("operationBindings"))
	}
	if z.r.P(40) {
		n.set("security", z.security())
	}
	return n
}

func (z noiser) msgTrait() *Node {
	n := nm()
	if z.r.P(50) {
		n.set("summary", z.text()).set("title", z.text())
	}
	if z.r.P(50) {
		n.set("description", z.text())
	}
	if z.r.P(50) {
		n.str("contentType", "application/json").str("name", z.name())
	}
	if z.r.P(50) {
		n.set("tags", z.tags())
	}
	if z.r.P(50) {
		n.set("externalDocs", z.docs())
	}
	if z.r.P(50) {
		n.set("bindings", z.bindings("messageBindings"))
	}
	if z.r.P(40) {
		n.set("examples", z.examples())
	}
	return n
}

func (z noiser) examples() *Node {
	l := nl()
	for i := z.r.N(3); i >= 0; i-- {
		n := nm()
		if z.r.P(40) {
			n.set("name", ns(z.name())).set("summary", z.text())
		}
		if z.r.P(40) {
			n.set("headers", z.obj(2))
		}
		n.set("payload", z.any(2))
		l.add(n)
	}
	return l
}

func (n *Node) refers() bool {
	if n.get("$ref") != nil {
		return true
	}
	for _, v := range n.vals {
		if v.refers() {
			return true
		}
	}
	return false
}

// noise adds descriptions to an object.
func (d *emitter) noise(n *Node, what string) *Node {
	if d.nz == nil {
		return n
	}
	add := func(key string, f func(z noiser) *Node) {
		r := d.nz.draw(what + "." + key)
		if r == nil || n.get(key) != nil {
			return
		}
		n.set(key, f(noiser{d, r}))
	}
	text := func(keys ...string) {
		for _, k := range keys {
			add(k, noiser.text)
		}
	}
	v3 := d.V == 3
	docs := func() { add("externalDocs", noiser.docs) }
	tags := func() { add("tags", noiser.tags) }
	bind := func(s string) { add("bindings", func(z noiser) *Node { return z.bindings(s) }) }
	vendor := func() {
		if r := d.nz.draw(what + ".x-"); r != nil {
			z := noiser{d, r}
			n.set("x-"+z.name(), z.any(2))
		}
	}
	switch what {
	case "servers": // before the rest, which can refer to them
		add("servers", func(z noiser) *Node {
			m := nm()
			for i := z.r.N(2); i >= 0; i-- {
				m.set(z.name(), z.comp("servers", z.server()))
			}
			d.nz.servers[d.Doc] = m.keys
			return m
		})
	case "root":
		add("id", func(z noiser) *Node { return ns("urn:example:" + z.name()) })
		add("defaultContentType", func(z noiser) *Node { return ns("application/json") })
		if !v3 {
			tags()
			docs()
		}
		vendor()
	case "info":
		text("description")
		add("termsOfService", func(z noiser) *Node { return ns("https://example.com/terms") })
		add("contact", func(z noiser) *Node {
			return nm().set("name", z.text()).str("url", "https://example.com").str("email", "a@example.com")
		})
		add("license", func(z noiser) *Node { return nm().set("name", z.text()).str("url", "https://example.com") })
		if v3 {
			tags()
			docs()
		}
		vendor()
	case "channel":
		text("description")
		if v3 {
			text("title", "summary")
			tags()
			docs()
		}
		bind("channelBindings")
		if names := d.nz.servers[d.cur]; len(names) > 0 {
			add("servers", func(z noiser) *Node {
				l := nl()
				for _, x := range names {
					switch {
					case z.r.P(40):
					case v3:
						l.add(nm().str("$ref", "#/servers/"+x))
					default:
						l.add(ns(x))
					}
				}
				return l
			})
		}
		vendor()
	case "operation":
		text("description", "summary")
		if v3 {
			text("title")
		}
		tags()
		docs()
		bind("operationBindings")
		add("security", noiser.security)
		add("traits", func(z noiser) *Node {
			l := nl()
			for i := z.r.N(2); i >= 0; i-- {
				l.add(z.comp("operationTraits", z.opTrait()))
			}
			return l
		})
		vendor()
	case "message", "trait":
		text("title", "summary", "description")
		add("name", func(z noiser) *Node { return ns(z.name()) })
		add("contentType", func(z noiser) *Node { return ns("application/json") })
		if !v3 {
			add("messageId", func(z noiser) *Node { return ns(z.name()) })
		}
		tags()
		docs()
		bind("messageBindings")
		add("examples", noiser.examples)
		if what == "message" {
			if r := d.nz.draw("message.traits"); r != nil {
				z := noiser{d, r}
				l := n.get("traits")
				if l == nil {
					l = nl()
					n.set("traits", l)
				}
				for i := z.r.N(2); i >= 0; i-- {
					l.add(z.comp("messageTraits", z.msgTrait()))
				}
			}
		}
		vendor()
	case "schema":
		text("title", "description", "$comment")
		docs()
		add("examples", func(z noiser) *Node { return nl().add(z.any(2)).add(z.any(1)) })
		add("default", func(z noiser) *Node { return z.any(2) })
		add("deprecated", func(z noiser) *Node { return ns(z.r.P(50)) })
		add("readOnly", func(z noiser) *Node { return ns(z.r.P(50)) })
		add("writeOnly", func(z noiser) *Node { return ns(z.r.P(50)) })
		vendor()
	case "parameter":
		text("description")
		if v3 {
			add("default", noiser.text)
			add("examples", func(z noiser) *Node { return nl().add(z.text()) })
		}
		vendor()
	case "correlation", "address":
		text("description")
		vendor()
	case "reply":
		vendor()
	}
	return n
}
