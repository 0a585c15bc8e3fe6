package spec

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Config steers the generator; percentages unless said otherwise.
type Config struct {
	V           int // 0: either
	MaxOps      int
	Params      int
	Reply       int
	Corr        int
	Refs        int
	Compose     int
	Deps        int
	Traits      int
	Add         int
	Constraints int
	Headers     int
	NonObject   int // payloads that are not objects
	Depth       int // nesting of inline schemas
	Props       int // properties per object
	GoType      int // strings with x-go-type
	GoTypeAny   int // properties of any type with x-go-type
	Omit        int
	MultiMsg    int
	Both        int // version 2: publish and subscribe on one channel
	OneOfMsg    int // version 2
	Options     bool
	Parts       bool
	Recursive   int
	WeirdNames  int
	CompChan    int
	ReplyAddr   int
	SpecialAddr int // addresses with characters such as % and spaces
	DateTime    int // weight of dates among strings
}

// Rich is the default configuration.
func Rich() Config {
	return Config{MaxOps: 4, Params: 30, Reply: 30, Corr: 40, Refs: 35, Compose: 12, Deps: 20, Traits: 20, Add: 20,
		Constraints: 30, Headers: 50, NonObject: 25, Depth: 3, Props: 5, GoType: 4, Omit: 8, MultiMsg: 30, Both: 20,
		OneOfMsg: 12, Options: true, Parts: true, Recursive: 15, WeirdNames: 25, CompChan: 15, ReplyAddr: 35, SpecialAddr: 10, DateTime: 20}
}

type gen struct {
	r     *Rand
	c     Config
	d     *Doc
	used  map[string]bool
	props []string // property names used before
	nref  int
}

var syl1 = []string{"b", "c", "d", "f", "g", "h", "k", "l", "m", "n", "p", "r", "s", "t", "v", "w", "z", "br", "cl", "dr", "fl", "gr", "pl", "st", "tr"}
var syl2 = []string{"a", "e", "i", "o", "u", "ai", "ou"}
var syl3 = []string{"", "", "", "n", "r", "s", "l", "x"}
var banned = map[string]bool{"error": true, "user": true, "app": true, "controller": true, "headers": true, "payload": true, "header": true, "on": true, "no": true, "yes": true}

func (g *gen) word() string {
	for {
		w := ""
		for i := 0; i < 2+g.r.N(2); i++ {
			w += Pick(g.r, syl1) + Pick(g.r, syl2) + Pick(g.r, syl3)
		}
		if banned[w] || g.used[w] {
			continue
		}
		g.used[w] = true
		return w
	}
}

func up(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// name makes a fresh name of one to three words in some style. The characters
// are those that AsyncAPI allows in keys of components.
func (g *gen) name() string {
	n := 1 + g.r.N(2)
	w := make([]string, n)
	for i := range w {
		w[i] = g.word()
	}
	if n > 1 && g.r.P(15) {
		w[n-1] = strconv.Itoa(g.r.R(1, 99))
	}
	switch g.r.N(8) {
	case 0:
		return strings.Join(w, "_")
	case 1:
		return strings.Join(w, "-")
	case 2:
		for i := range w {
			w[i] = up(w[i])
		}
		return strings.Join(w, "")
	case 3:
		// one letter words
		return strings.Join(w, "_") + Pick(g.r, []string{"_", "-", ""}) + Pick(g.r, []string{"x_y", "X", "AbC", "a3b", "URL", "z9_x"})
	case 4:
		if n > 1 && w[1][0] > '9' {
			return w[0] + up(w[1])
		}
		return strings.Join(w, "_")
	case 5:
		return w[0]
	case 6:
		return strings.ToUpper(w[0])
	default:
		for i := range w {
			if w[i][0] > '9' {
				w[i] = up(w[i])
			}
		}
		return strings.Join(w, "_")
	}
}

// propName makes a name of a property: now and then one used in another object.
func (g *gen) propName(taken map[string]bool) string {
	for try := 0; ; try++ {
		var n string
		if len(g.props) > 0 && g.r.P(30) && try < 5 {
			n = Pick(g.r, g.props)
		} else {
			n = g.name()
			if g.r.P(g.c.WeirdNames / 8) {
				n = Pick(g.r, []string{"header", "headers", "payload", "message", "Header"})
			} else if g.r.P(g.c.WeirdNames) {
				w := g.word()
				n = Pick(g.r, []string{"@" + n, "$" + n, n + ":" + w, n + " " + w, n + "." + w, n + "/" + w, n + "(" + w + ")", "_" + n, strconv.Itoa(g.r.N(10)) + n, n + "+" + w, n + "_", n + "#" + w})
			}
			g.props = append(g.props, n)
		}
		k := strings.ToLower(Namify(n))
		if taken[k] {
			continue
		}
		taken[k] = true
		return n
	}
}

// Generate makes a document.
func Generate(seed uint64, c Config) *Doc {
	g := &gen{r: NewRand(seed), c: c, used: map[string]bool{}}
	r := g.r
	v := c.V
	if v == 0 {
		v = 2 + r.N(2)
	}
	d := &Doc{V: v, ID: fmt.Sprintf("d%d", seed), Title: up(g.word()), InfoVersion: fmt.Sprintf("%d.%d.%d", r.N(4), r.N(10), r.N(10))}
	if v == 3 {
		d.Version = "3.0.0"
	} else {
		d.Version = Pick(r, []string{"2.0.0", "2.1.0", "2.2.0", "2.3.0", "2.4.0", "2.5.0", "2.6.0"})
	}
	if r.P(20) {
		d.InfoVersion += Pick(r, []string{"-beta", "+x", " a", "é", ".0", " "})
		if r.P(50) {
			d.InfoVersion = Pick(r, []string{"v", "V", "0", "x-", " "}) + d.InfoVersion
		}
	}
	g.d = d
	d.Emit = Emit{JSON: r.P(30), Seed: r.U() % 100000, Shuffle: r.P(60)}
	g.options()
	if r.P(c.Deps) {
		n := 1 + r.N(2)
		for i := 0; i < n; i++ {
			d.Deps = append(d.Deps, g.dep(i))
		}
	}
	g.components(d)
	if v == 2 {
		g.channels2()
	} else {
		g.channels3()
	}
	return d
}

func (g *gen) options() {
	r := g.r
	o := &g.d.Opt
	if !g.c.Options {
		return
	}
	if r.P(15) {
		o.Convert = Pick(r, []string{"none", "snake", "kebab", "camel"})
	}
	if r.P(12) {
		o.Naming = Pick(r, []string{"none", "camel"})
	}
	if r.P(12) {
		o.ForcePtr = true
	}
	if r.P(12) {
		o.IgnoreFormat = true
	}
	if g.c.Parts && r.P(30) {
		o.Parts = Pick(r, [][]string{{"types", "application", "user"}, {"types,application", "user"}, {"user,types", "application"},
			{"application,user", "types"}, {"user,application,types"}, {"types", "user,application"}})
	}
}

func (g *gen) dep(i int) *Doc {
	dd := &Doc{V: g.d.V, Version: g.d.Version, Title: up(g.word()), InfoVersion: "1.0.0"}
	dd.Emit = Emit{JSON: g.r.P(30), Seed: g.r.U() % 100000, Shuffle: g.r.P(50)}
	dd.File = fmt.Sprintf("dep%d-%s%s", i, g.word(), dd.Emit.Ext())
	dd.Bare = g.r.P(25)
	main := g.d
	g.d = dd
	g.components(dd)
	g.d = main
	return dd
}

func (g *gen) components(d *Doc) {
	r := g.r
	for i := r.N(5); i > 0; i-- {
		n := &Named{Name: g.name()}
		var s *Schema
		if r.P(55) {
			s = g.object(g.c.Depth - 1)
			if r.P(g.c.Recursive) {
				g.recursive(s, n.Name)
			}
		} else if r.P(25) && len(d.Schemas) > 0 {
			s = &Schema{Ref: "#/components/schemas/" + Pick(r, d.Schemas).Name}
		} else {
			s = g.schema(g.c.Depth - 1)
		}
		n.S = s
		d.Schemas = append(d.Schemas, n)
	}
	if d.V == 3 && r.P(g.c.Traits) {
		for i := 1 + r.N(2); i > 0; i-- {
			d.Traits = append(d.Traits, g.trait())
		}
	}
	for i := r.N(3); i > 0; i-- {
		m := g.message(true)
		d.Msgs = append(d.Msgs, m)
	}
	if r.P(g.c.Params) {
		for i := 1 + r.N(2); i > 0; i-- {
			d.Params = append(d.Params, &Param{Key: g.paramKey(), Desc: g.desc(), Schema: g.paramSchema()})
		}
	}
}

func (g *gen) recursive(s *Schema, name string) {
	ref := &Schema{Ref: "#/components/schemas/" + name}
	p := &Prop{Name: g.name()}
	switch g.r.N(3) {
	case 0:
		p.S = ref
	case 1:
		p.S = &Schema{Type: "array", Items: ref}
		p.Req = g.r.P(40)
	default:
		p.S = &Schema{Type: "object", Props: []*Prop{{Name: g.name(), S: ref}}}
	}
	s.Props = append(s.Props, p)
}

func (g *gen) desc() string {
	if g.r.P(75) {
		return ""
	}
	w := g.word()
	return Pick(g.r, []string{w, w + " */ //", "multi\nline " + w + "\n", w + " `tick` \"quote\"", "été " + w, w + "\n\n  }", "{{" + w + "}}"})
}

func (g *gen) paramKey() string { return g.name() }

func (g *gen) paramSchema() *Schema {
	if g.d.V == 3 {
		return nil
	}
	switch g.r.N(4) {
	case 0:
		return nil
	case 1:
		return &Schema{Type: "integer"}
	}
	return &Schema{Type: "string"}
}

// refTo picks a reference to a component schema that satisfies ok, if any.
func (g *gen) refTo(ok func(*Eff) bool) *Schema {
	var refs []string
	sc := Scope{Root: g.d, Doc: g.d}
	for _, n := range g.d.Schemas {
		if ok == nil || ok(sc.Eff(n.S)) {
			refs = append(refs, "#/components/schemas/"+n.Name)
		}
	}
	for _, dep := range g.d.Deps {
		s := Scope{Root: g.d, Doc: dep}
		for _, n := range dep.Schemas {
			if ok == nil || ok(s.Eff(n.S)) {
				refs = append(refs, g.file(dep)+"#/components/schemas/"+n.Name)
			}
		}
	}
	if len(refs) == 0 {
		return nil
	}
	return &Schema{Ref: Pick(g.r, refs)}
}

func (g *gen) file(dep *Doc) string {
	if g.r.P(50) {
		return "./" + dep.File
	}
	return dep.File
}

// schema makes any schema.
func (g *gen) schema(depth int) *Schema {
	r := g.r
	if r.P(g.c.Refs) {
		if s := g.refTo(nil); s != nil {
			return s
		}
	}
	k := r.N(100)
	switch {
	case k < 30:
		return g.stringSchema()
	case k < 45:
		return g.intSchema()
	case k < 55:
		return g.numSchema()
	case k < 62:
		return &Schema{Type: "boolean", Desc: g.desc()}
	case depth <= 0:
		return g.stringSchema()
	case k < 80:
		return g.array(depth)
	default:
		return g.object(depth - 1)
	}
}

// anyGoTypes are types, paths and names of imports for x-go-type.
var anyGoTypes = [][3]string{{"uint8"}, {"json.RawMessage", "encoding/json"}, {"time.Duration", "time"}, {"big.Int", "math/big"},
	{"uuid.UUID", "github.com/google/uuid"}, {"netaddr.Addr", "net/netip", "netaddr"}, {"map[string]string"}, {"[]byte"}, {"xurl.URL", "net/url", "xurl"}, {"any"}}

func fp(f float64) *float64 { return &f }
func ip(i int) *int         { return &i }

func (g *gen) stringSchema() *Schema {
	r := g.r
	s := &Schema{Type: "string", Desc: g.desc()}
	if r.P(g.c.GoType) {
		s.Format, s.GoType, s.GoPath = "uuid", "uuid.UUID", "github.com/google/uuid"
		if r.P(40) {
			s.Format, s.GoType, s.GoPath, s.GoName = "ipv4", "netaddr.Addr", "net/netip", "netaddr"
		}
		return s
	}
	if r.P(g.c.DateTime) {
		s.Format = Pick(r, []string{"date", "date-time", "date-time", "date-time"})
		return s
	}
	if r.P(15) {
		s.Format = Pick(r, []string{"uuid", "email", "password", "binary"})
	}
	if r.P(g.c.Constraints) {
		switch r.N(6) {
		case 0:
			s.MinLen = ip(r.R(0, 4))
		case 1:
			s.MaxLen = ip(r.R(0, 8))
		case 2:
			s.MinLen = ip(r.R(0, 3))
			s.MaxLen = ip(*s.MinLen + r.N(5))
		case 3, 4:
			for i := 1 + r.N(4); i > 0; i-- {
				s.Enum = append(s.Enum, g.enumValue())
			}
			// Other constraints, that at least one of the values satisfies.
			v := Pick(r, s.Enum)
			switch r.N(8) {
			case 0:
				s.Const = &v
			case 1:
				s.MinLen = ip(utf8.RuneCountInString(v))
			case 2:
				s.MaxLen = ip(utf8.RuneCountInString(v))
			}
		case 5:
			v := g.enumValue()
			s.Const = &v
		}
	}
	return s
}

func (g *gen) enumValue() string {
	w := g.word()
	if g.r.P(40) {
		return Pick(g.r, []string{w + " " + g.word(), up(w), strings.ToUpper(w), w + "-" + g.word(), w + ".x", w + "/y", "é" + w, strconv.Itoa(g.r.N(1000)) + w, w + "=1", w + ":" + "z",
			w + "," + g.word(), w + "|" + g.word(), w + "'s", "'" + w + "'", `"` + w + `"`, w + `\x`, "`" + w, w + "\n", w + "\t|", " " + w, "%s" + w, "0", "-",
			w + "," + g.word() + "," + w, "|" + w + "||", w + ", " + g.word() + ",", "'" + w + " it's'", w + "  " + w})
	}
	return w
}

func (g *gen) intSchema() *Schema {
	r := g.r
	s := &Schema{Type: "integer", Desc: g.desc()}
	if r.P(40) {
		s.Format = Pick(r, []string{"int32", "int64"})
	}
	if r.P(g.c.Constraints) {
		g.bounds(s, func() float64 {
			switch {
			case r.P(15):
				return 0
			case r.P(12):
				return Pick(r, []float64{1e6, 2500000, 123456789, -1e6, 1e7, 2147483647, -2147483648, 1e9})
			case r.P(8) && s.Format != "int32":
				return Pick(r, []float64{1e12, -1e12, 9007199254740991, 1e15, 5e9})
			case r.P(10):
				return float64(r.R(-50, 100)) + 0.5
			}
			return float64(r.R(-50, 100))
		})
		if s.Format == "int32" {
			// leave at least a value
			if s.ExMin != nil && *s.ExMin >= 2147483647 {
				*s.ExMin = 2147483646
			}
			if s.ExMax != nil && *s.ExMax <= -2147483648 {
				*s.ExMax = -2147483647
			}
			if s.Min != nil && *s.Min > 2147483647 {
				*s.Min = 2147483647
			}
		}
	}
	return s
}

func (g *gen) numSchema() *Schema {
	r := g.r
	s := &Schema{Type: "number", Desc: g.desc()}
	if r.P(40) {
		s.Format = Pick(r, []string{"float", "double"})
	}
	if r.P(g.c.Constraints) {
		g.bounds(s, func() float64 {
			switch {
			case r.P(15):
				return 0
			case r.P(12):
				return Pick(r, []float64{1e6, 2500000, -1e6, 1e7, 16777216, 0.0001220703125, 1e9})
			case r.P(8) && s.Format != "float":
				return Pick(r, []float64{1e21, -1e21, 1e-7, 0.1, 1e300})
			}
			return float64(r.R(-200, 400)) / 4
		})
	}
	return s
}

func (g *gen) bounds(s *Schema, v func() float64) {
	nz := v
	switch g.r.N(5) {
	case 0:
		s.Min = fp(nz())
	case 1:
		s.Max = fp(nz())
	case 2:
		s.ExMin = fp(nz())
	case 3:
		s.ExMax = fp(nz())
	default:
		a := nz()
		b := a + math.Max(1+float64(g.r.N(20)), math.Abs(a)/1024)
		if s.Format == "float" {
			b = float64(float32(b))
		}
		switch g.r.N(5) {
		case 0, 1:
			s.Min, s.Max = fp(a), fp(b)
		case 2:
			s.Min, s.ExMax = fp(a), fp(b+math.Max(3, math.Abs(b)/1024))
		case 3:
			s.ExMin, s.Max = fp(a), fp(b+math.Max(3, math.Abs(b)/1024))
		default:
			s.ExMin, s.ExMax = fp(a), fp(b+math.Max(3, math.Abs(b)/1024))
		}
	}
}

func (g *gen) array(depth int) *Schema {
	s := &Schema{Type: "array", Desc: g.desc()}
	s.Items = g.schema(depth - 1)
	if g.r.P(g.c.Constraints) {
		switch t := s.Items.Type; {
		case t == "string" && s.Items.Format == "" || t == "integer":
			s.Unique = true
		}
	}
	return s
}

func (g *gen) object(depth int) *Schema {
	r := g.r
	s := &Schema{Type: "object", Desc: g.desc()}
	taken := map[string]bool{}
	if r.P(g.c.Compose) && depth > 0 {
		g.compose(s, depth, taken)
		return s
	}
	n := r.R(0, g.c.Props)
	if n == 0 && r.P(70) {
		n = 1
	}
	for i := 0; i < n; i++ {
		g.prop(s, depth, taken)
	}
	if r.P(g.c.Add) || (n == 0 && r.P(50)) {
		s.Add = g.schema(depth)
	}
	return s
}

func (g *gen) prop(s *Schema, depth int, taken map[string]bool) {
	p := &Prop{Name: g.propName(taken), Req: g.r.P(45), S: g.schema(depth)}
	if p.S.Ref == "" && g.r.P(g.c.Omit) {
		b := g.r.P(50)
		p.S.Omit = &b
	}
	if p.S.Ref != "" {
		g.siblings(p.S)
	}
	if p.S.Ref == "" && g.r.P(g.c.GoTypeAny) {
		x := Pick(g.r, anyGoTypes)
		if p.S.Type == "array" {
			x = Pick(g.r, [][3]string{{"[]byte"}, {"json.RawMessage", "encoding/json"}, {"[]any"}, {"map[string]string"}})
		}
		p.S.GoType, p.S.GoPath, p.S.GoName = x[0], x[1], x[2]
	}
	s.Props = append(s.Props, p)
}

// siblings adds constraints next to a reference, that its target leaves open.
func (g *gen) siblings(s *Schema) {
	e := Scope{Root: g.d, Doc: g.d}.Eff(s)
	if e.Omit == nil && g.r.P(g.c.Omit/2) {
		b := g.r.P(50)
		s.Omit = &b
	}
	if e.GoType != "" || !g.r.P(g.c.Constraints/3) {
		return
	}
	switch {
	case e.Type == "string" && e.Format == "" && len(e.Enum) == 0 && e.Const == nil:
		switch {
		case e.MaxLen == nil && e.MinLen == nil:
			s.MaxLen = ip(1 + g.r.N(6))
		case e.MaxLen == nil:
			s.MaxLen = ip(*e.MinLen + g.r.N(4))
		case e.MinLen == nil && *e.MaxLen > 0:
			s.MinLen = ip(1)
		}
	case e.Type == "integer" || e.Type == "number":
		lower, upper := e.Min, e.Max
		if lower == nil {
			lower = e.ExMin
		}
		if upper == nil {
			upper = e.ExMax
		}
		switch {
		case lower == nil && upper == nil:
			s.Min = fp(float64(g.r.R(-3, 3)))
			if g.r.P(50) {
				s.Max = fp(*s.Min + 5)
			}
		case upper == nil && math.Abs(*lower) < 1e6:
			if g.r.P(50) {
				s.Max = fp(*lower + 4)
			} else {
				s.ExMax = fp(*lower + 4)
			}
		case lower == nil && math.Abs(*upper) < 1e6:
			if g.r.P(50) {
				s.Min = fp(*upper - 4)
			} else {
				s.ExMin = fp(*upper - 4)
			}
		}
	}
}

// compose makes s a composition of objects whose properties have distinct names.
func (g *gen) compose(s *Schema, depth int, taken map[string]bool) {
	r := g.r
	s.Type = ""
	for k := 1 + r.N(2); k > 0; k-- {
		var m *Schema
		if r.P(50) {
			m = g.refTo(func(e *Eff) bool {
				if e.Type != "object" || len(e.Props) == 0 || e.Add != nil {
					return false
				}
				for _, p := range e.Props {
					if taken[strings.ToLower(Namify(p.Name))] {
						return false
					}
				}
				return true
			})
			if m != nil {
				for _, p := range (Scope{Root: g.d, Doc: g.d}).Eff(m).Props {
					taken[strings.ToLower(Namify(p.Name))] = true
				}
			}
		}
		if m == nil {
			m = &Schema{Type: "object"}
			for i := 1 + r.N(3); i > 0; i-- {
				g.prop(m, depth-1, taken)
			}
		}
		switch {
		case len(s.AllOf) > 0:
			s.AllOf = append(s.AllOf, m)
		case len(s.AnyOf) > 0:
			s.AnyOf = append(s.AnyOf, m)
		case len(s.OneOf) > 0:
			s.OneOf = append(s.OneOf, m)
		default:
			switch r.N(4) {
			case 0:
				s.AnyOf = []*Schema{m}
			case 1:
				s.OneOf = []*Schema{m}
			default:
				s.AllOf = []*Schema{m}
			}
		}
	}
	if r.P(40) {
		s.Type = "object"
		for i := 1 + r.N(2); i > 0; i-- {
			g.prop(s, depth-1, taken)
		}
	}
	if len(s.AllOf) > 0 {
		g.refine(s)
	}
}

// refine adds to a composition what concerns the properties of its parts: they
// are required by another part, or restricted by the composition itself.
func (g *gen) refine(s *Schema) {
	r := g.r
	if r.P(30) {
		for _, m := range s.AllOf {
			for _, p := range m.Props {
				t := p.S
				if m.Ref != "" || t.Ref != "" || t.GoType != "" || t.Format != "" || t.Omit != nil || !r.P(50) {
					continue
				}
				switch t.Type {
				case "string", "integer", "number", "boolean":
					own := *t
					s.Type = "object"
					s.Props = append(s.Props, &Prop{Name: p.Name, Req: r.P(50), S: &own})
					p.S = &Schema{Type: t.Type}
				}
			}
		}
	}
	if r.P(35) {
		at, extra := s, false
		switch r.N(3) {
		case 0:
			if m := Pick(r, s.AllOf); m.Ref == "" {
				at = m
			}
		case 1:
			at, extra = &Schema{Type: Pick(r, []string{"", "object"})}, true
		}
		for _, p := range (Scope{Root: g.d, Doc: g.d}).Eff(s).Props {
			if !p.Req && p.S.Omit == nil && r.P(60) {
				at.Also = append(at.Also, p.Name)
			}
		}
		if len(at.Also) > 0 && extra {
			s.AllOf = append(s.AllOf, at)
		}
	}
}

// headers makes an object for headers.
func (g *gen) headers() *Schema {
	if g.r.P(g.c.Refs) {
		if s := g.refTo(func(e *Eff) bool { return e.Type == "object" && e.Add == nil }); s != nil {
			return s
		}
	}
	s := &Schema{Type: "object"}
	taken := map[string]bool{}
	for i := 1 + g.r.N(4); i > 0; i-- {
		g.prop(s, g.c.Depth-1, taken)
	}
	return s
}

func (g *gen) payload() *Schema {
	r := g.r
	if r.P(g.c.NonObject) {
		if s := g.schema(g.c.Depth); s != nil {
			return s
		}
	}
	if r.P(g.c.Refs) {
		if s := g.refTo(nil); s != nil {
			return s
		}
	}
	return g.object(g.c.Depth - 1)
}

func (g *gen) trait() *Message {
	t := &Message{Key: g.name()}
	obj := func() *Schema {
		s := &Schema{Type: "object"}
		for i := 1 + g.r.N(2); i > 0; i-- {
			s.Props = append(s.Props, &Prop{Name: g.name(), Req: g.r.P(40), S: g.schema(1)})
		}
		return s
	}
	t.Headers = obj()
	if g.r.P(25) {
		t.Payload = obj()
	}
	if g.r.P(g.c.Corr) {
		name := "trait-" + g.word()
		t.Headers.Props = append(t.Headers.Props, &Prop{Name: name, Req: g.r.P(50), S: &Schema{Type: "string"}})
		t.Corr = "$message.header#/" + name
	}
	return t
}

// message makes a message; component messages have no references to themselves.
func (g *gen) message(component bool) *Message {
	r := g.r
	m := &Message{Key: g.name(), Desc: g.desc()}
	if r.P(g.c.Headers) {
		m.Headers = g.headers()
	}
	m.Payload = g.payload()
	if g.d.V == 2 && r.P(g.c.OneOfMsg) {
		if l := g.oneOf(); len(l) > 0 {
			m.Headers, m.Payload, m.OneOf = nil, nil, l
			return m
		}
	}
	if g.d.V == 3 {
		g.applyTraits(m)
	}
	if r.P(g.c.Corr) {
		g.correlate(m)
	}
	return m
}

// oneOf makes the members of a message that is one of several: references to
// components or messages of their own, with objects whose properties have names
// that do not conflict.
func (g *gen) oneOf() []*Message {
	r := g.r
	sc := Scope{Root: g.d, Doc: g.d}
	names := [2]map[string]string{{}, {}}
	fits := func(m *Message) bool {
		if len(m.OneOf) > 0 || m.Corr != "" || m.CorrRef != "" {
			return false
		}
		e := sc.EffMessage(m)
		for i, x := range []*Eff{e.Headers, e.Payload} {
			if x == nil {
				continue
			}
			if x.Type != "object" || x.Add != nil || x.Schema.GoType != "" {
				return false
			}
			for _, p := range x.Props {
				if n, ok := names[i][strings.ToLower(Namify(p.Name))]; ok && n != p.Name {
					return false
				}
			}
		}
		for i, x := range []*Eff{e.Headers, e.Payload} {
			if x == nil {
				continue
			}
			for _, p := range x.Props {
				names[i][strings.ToLower(Namify(p.Name))] = p.Name
			}
		}
		return true
	}
	var l []*Message
	for _, x := range g.d.Msgs {
		if r.P(60) && fits(x) {
			l = append(l, &Message{Ref: "#/components/messages/" + x.Key})
		}
	}
	for k := r.N(3); k > 0; k-- {
		x := &Message{Payload: g.object(1)}
		if r.P(30) {
			x.Headers = g.headers()
		}
		if fits(x) {
			l = append(l, x)
		}
	}
	if len(l) > 4 {
		l = l[:4]
	}
	return l
}

func (g *gen) applyTraits(m *Message) {
	corr := false
	for _, t := range g.d.Traits {
		if !g.r.P(40) || corr && t.Corr != "" {
			continue
		}
		if t.Payload != nil && (m.Payload.Ref != "" || m.Payload.Type != "object") {
			continue
		}
		if m.Headers != nil && m.Headers.Ref != "" {
			continue
		}
		corr = corr || t.Corr != ""
		if m.Headers != nil && !m.Headers.composed() && g.r.P(35) {
			// The message has its own idea of a header of the trait.
			p := Pick(g.r, t.Headers.Props)
			if t.Corr != "$message.header#/"+p.Name && m.Headers.prop(p.Name) == nil {
				m.Headers.Props = append(m.Headers.Props, &Prop{Name: p.Name, Req: p.Req, S: g.schema(1)})
			}
		}
		if g.r.P(70) {
			m.Traits = append(m.Traits, &Message{Ref: "#/components/messageTraits/" + t.Key})
		} else {
			c := *t
			c.Key = ""
			m.Traits = append(m.Traits, &c)
		}
	}
}

// correlate adds a correlation ID at a place that exists or can be added.
func (g *gen) correlate(m *Message) {
	r := g.r
	str := func(p *Prop) bool {
		return p.S.Ref == "" && p.S.Type == "string" && p.S.Format == "" && p.S.GoType == "" && len(p.S.Enum) == 0 &&
			p.S.Const == nil && p.S.MinLen == nil && p.S.MaxLen == nil && p.S.Omit == nil && !strings.ContainsAny(p.Name, "/")
	}
	find := func(s *Schema) string {
		if s == nil || s.Ref != "" {
			return ""
		}
		for _, p := range s.Props {
			if str(p) {
				return p.Name
			}
		}
		return ""
	}
	if r.P(25) && m.Payload.Ref == "" && m.Payload.Type == "object" {
		if n := find(m.Payload); n != "" {
			m.Corr = "$message.payload#/" + n
			return
		}
	}
	if n := find(m.Headers); n != "" && r.P(60) {
		m.Corr = "$message.header#/" + n
		return
	}
	name := Pick(r, []string{"correlationId", "correlation_id", "corr-" + g.word(), g.word()})
	if m.Headers == nil {
		if r.P(40) {
			m.Corr = "$message.header#/" + name // the field is added by the tool
			return
		}
		m.Headers = &Schema{Type: "object"}
	}
	if m.Headers.Ref != "" {
		return
	}
	if r.P(75) {
		m.Headers.Props = append(m.Headers.Props, &Prop{Name: name, Req: r.P(50), S: &Schema{Type: "string"}})
	}
	m.Corr = "$message.header#/" + name
}

func (g *gen) msgRef(ok func(*EffMsg) bool) *Message {
	var refs []string
	sc := Scope{Root: g.d, Doc: g.d}
	for _, m := range g.d.Msgs {
		if ok == nil || ok(sc.EffMessage(m)) {
			refs = append(refs, "#/components/messages/"+m.Key)
		}
	}
	for _, dep := range g.d.Deps {
		s := Scope{Root: g.d, Doc: dep}
		for _, m := range dep.Msgs {
			if ok == nil || ok(s.EffMessage(m)) {
				refs = append(refs, g.file(dep)+"#/components/messages/"+m.Key)
			}
		}
	}
	if len(refs) == 0 {
		return nil
	}
	return &Message{Ref: Pick(g.r, refs)}
}

// address makes a channel address with parameters.
func (g *gen) address(params []string) string {
	r := g.r
	sep := Pick(r, []string{"/", ".", "/", "-", "_"})
	parts := []string{g.word()}
	for _, p := range params {
		if r.P(60) {
			parts = append(parts, g.word())
		}
		parts = append(parts, "{"+p+"}")
	}
	if r.P(50) || len(params) == 0 {
		parts = append(parts, g.word())
	}
	if r.P(15) && len(params) > 0 {
		parts = append(parts, "{"+params[0]+"}") // twice
	}
	if r.P(g.c.SpecialAddr) {
		parts = append(parts, Pick(r, []string{"100%", "%d", "a b", "%s%v", "é", "x:y", "$sys", "%%", "#", "a+b", "a\\b", "(x)"}))
	}
	return strings.Join(parts, sep)
}

func (g *gen) paramList() ([]*Param, []string) {
	var out []*Param
	var keys []string
	for i := 1 + g.r.N(3); i > 0; i-- {
		if g.r.P(35) && len(g.d.Params) > 0 {
			p := Pick(g.r, g.d.Params)
			dup := false
			for _, k := range keys {
				dup = dup || k == p.Key
			}
			if dup {
				continue
			}
			// The name of the parameter is its key in the channel.
			k := p.Key
			if g.r.P(30) {
				k = g.paramKey()
			}
			out = append(out, &Param{Key: k, Ref: "#/components/parameters/" + p.Key})
			keys = append(keys, k)
			continue
		}
		p := &Param{Key: g.paramKey(), Desc: g.desc(), Schema: g.paramSchema()}
		out = append(out, p)
		keys = append(keys, p.Key)
	}
	return out, keys
}

func (g *gen) channels2() {
	r := g.r
	for i := 1 + r.N(g.c.MaxOps); i > 0; i-- {
		c := &Channel{Desc: g.desc()}
		var keys []string
		if r.P(g.c.Params) {
			c.Params, keys = g.paramList()
		}
		c.Key = g.address(keys)
		c.Address = c.Key
		op := func() *V2Op {
			o := &V2Op{}
			if r.P(40) {
				o.ID = g.name()
			}
			if r.P(50) {
				o.Msg = g.msgRef(nil)
			}
			if o.Msg == nil {
				o.Msg = g.message(false)
				o.Msg.Key = ""
			}
			return o
		}
		both := r.P(g.c.Both)
		if both || r.P(50) {
			c.Pub = op()
		}
		if c.Pub == nil || both {
			c.Sub = op()
		}
		g.d.Channels = append(g.d.Channels, c)
	}
}

func (g *gen) channels3() {
	r := g.r
	d := g.d
	if r.P(8) && g.c.MaxOps > 1 {
		// channels without operation are fine
		d.Channels = append(d.Channels, g.channel3(nil))
	}
	for i := 1 + r.N(g.c.MaxOps); i > 0; i-- {
		op := &Op{Key: g.name(), Action: Pick(r, []string{"send", "receive"}), Desc: g.desc()}
		reply := r.P(g.c.Reply)
		var c *Channel
		if !reply && len(d.Channels) > 0 && r.P(15) {
			c = Pick(r, d.Channels) // several operations on one channel
			if cc, _ := NewScope(d).Channel(c); cc.NoAddress || len(cc.Msgs) == 0 {
				c = nil
			}
		}
		if c == nil {
			c = g.channel3(func(m *EffMsg) bool { return true })
			d.Channels = append(d.Channels, c)
		}
		op.Chan = "#/channels/" + c.Key
		cc, _ := NewScope(d).Channel(c)
		if r.P(35) {
			m := Pick(r, cc.Msgs)
			op.Msgs = []string{"#/channels/" + c.Key + "/messages/" + m.Key}
			if len(cc.Msgs) > 1 && r.P(40) {
				op.Msgs = append(op.Msgs, "#/channels/"+c.Key+"/messages/"+Pick(r, cc.Msgs).Key) // the first one counts
			}
			if c.Ref != "" {
				op.Msgs = nil
			}
		}
		d.Ops = append(d.Ops, op)
		if reply {
			g.reply(op, cc)
		}
	}
}

func (g *gen) channel3(ok func(*EffMsg) bool) *Channel {
	r := g.r
	d := g.d
	c := &Channel{Key: g.name(), Desc: g.desc()}
	var keys []string
	if r.P(g.c.Params) {
		c.Params, keys = g.paramList()
	}
	c.Address = g.address(keys)
	n := 1
	if r.P(g.c.MultiMsg) {
		n = 2 + r.N(2)
	}
	for i := 0; i < n; i++ {
		var m *Message
		if r.P(60) {
			m = g.msgRef(nil)
		}
		if m == nil {
			m = g.message(false)
		}
		m.Key = g.name()
		c.Msgs = append(c.Msgs, m)
	}
	if r.P(g.c.CompChan) {
		d.CompChan = append(d.CompChan, c)
		return &Channel{Key: g.name(), Ref: "#/components/channels/" + c.Key}
	}
	return c
}

// reply gives an operation a reply on a channel of its own.
func (g *gen) reply(op *Op, ch *Channel) {
	r := g.r
	d := g.d
	sc := NewScope(d)
	req := sc.opMessage(op.Msgs, ch, sc)
	rc := &Channel{Key: g.name(), Address: g.address(nil)}
	m := &Message{Key: g.name(), Payload: g.payload()}
	if r.P(40) {
		m.Headers = g.headers()
	}
	if req.Corr != "" {
		// Both messages carry it.
		name := "correlationId"
		if m.Headers == nil || m.Headers.Ref != "" {
			m.Headers = &Schema{Type: "object"}
		}
		m.Headers.Props = append(m.Headers.Props, &Prop{Name: name, Req: r.P(50), S: &Schema{Type: "string"}})
		m.Corr = "$message.header#/" + name
	}
	rc.Msgs = []*Message{m}
	rep := &Reply{Chan: "#/channels/" + rc.Key}
	if r.P(g.c.MultiMsg) {
		// The reply is one of several messages.
		for i := 1 + r.N(2); i > 0; i-- {
			x := g.msgRef(nil)
			if x == nil || r.P(40) {
				x = g.message(false)
			}
			x.Key = g.name()
			rc.Msgs = append(rc.Msgs, x)
		}
		j := r.N(len(rc.Msgs))
		rc.Msgs[0], rc.Msgs[j] = rc.Msgs[j], rc.Msgs[0]
		rep.Msgs = []string{"#/channels/" + rc.Key + "/messages/" + m.Key}
	}
	if r.P(g.c.ReplyAddr) {
		// The address comes with the request: in a string header of its message.
		t, _ := sc.Message(firstMsg(op, ch, sc))
		if t.Headers == nil {
			t.Headers = &Schema{Type: "object"}
		}
		if t.Headers.Ref == "" && len(t.OneOf) == 0 && !t.Headers.composed() {
			name := "replyTo"
			has := false
			for _, p := range t.Headers.Props {
				if Namify(p.Name) == Namify(name) {
					has = true
				}
			}
			if !has {
				t.Headers.Props = append(t.Headers.Props, &Prop{Name: name, Req: r.P(50), S: &Schema{Type: "string"}})
			}
			rep.AddrLoc = "$message.header#/" + name
			rc.NoAddress, rc.Address = true, ""
		}
	}
	d.Channels = append(d.Channels, rc)
	op.Reply = rep
}

func firstMsg(op *Op, ch *Channel, sc Scope) *Message {
	if len(op.Msgs) > 0 {
		return &Message{Ref: op.Msgs[0]}
	}
	best := ch.Msgs[0]
	for _, m := range ch.Msgs {
		if m.Key < best.Key {
			best = m
		}
	}
	return best
}
