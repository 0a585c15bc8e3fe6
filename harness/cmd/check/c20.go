package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/imports"

	"verif/internal/engine"
	"verif/internal/rep"
	"verif/spec"
)

func init() { checks["C20"] = c20 }

func c20(r *rep.Run) {
	r.Rule(docRule + "types: a case is the type of the headers or of the payload of an operation, whose fields (names, JSON names, types, pointers, custom types and their packages) are compared with the document and the options by reflection, non-trivial with at least one field; flip: a case is one option changed for one document, whose output is compared, by the syntax trees, with the output without it, non-trivial when the outputs differ or must not; distinct by document and option")
	c := spec.Rich()
	c.Deps, c.Compose, c.Omit = 40, 25, 15
	heavy := func(i int, d *spec.Doc) {
		rnd := spec.NewRand(uint64(i)*77 + uint64(r.Seed))
		d.Opt.ForcePtr, d.Opt.IgnoreFormat = rnd.P(50), rnd.P(40)
		if rnd.P(60) {
			d.Opt.Convert = spec.Pick(rnd, []string{"none", "snake", "kebab", "camel"})
		}
		if rnd.P(40) && d.Opt.Naming == "" {
			d.Opt.Naming = "none"
		}
		d.Opt.NoFormatting = false
	}
	ct := c
	ct.GoType, ct.GoTypeAny, ct.DateTime, ct.NonObject, ct.Omit, ct.Corr = 15, 15, 35, 15, 0, 25
	docCheck{sub: "types", check: "types", cfg: ct, docs: r.N(220, 2000), n: 1, compile: true, tweak: heavy}.run(r)
	c.GoType, c.GoTypeAny, c.DateTime = 8, 8, 30
	genCheck{sub: "flip", cfg: c, docs: r.N(260, 3000), pred: flipPred}.run(r)
}

// code is a generated file: its declarations in order.
type code struct {
	raw   []byte
	fset  *token.FileSet
	f     *ast.File
	decls []ast.Decl // without imports
}

func parseCode(b []byte) (*code, error) {
	c := &code{raw: b, fset: token.NewFileSet()}
	f, err := parser.ParseFile(c.fset, "x.go", b, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	c.f = f
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		c.decls = append(c.decls, d)
	}
	return c, nil
}

// text prints declarations without comments.
func (c *code) text() []string {
	var out []string
	for _, d := range c.decls {
		var b bytes.Buffer
		if err := format.Node(&b, c.fset, strip(d)); err != nil {
			panic(err)
		}
		out = append(out, b.String())
	}
	return out
}

func (c *code) imports() []string {
	var out []string
	for _, i := range c.f.Imports {
		n := ""
		if i.Name != nil {
			n = i.Name.Name + " "
		}
		out = append(out, n+i.Path.Value)
	}
	sort.Strings(out)
	return out
}

func strip(d ast.Decl) ast.Decl {
	switch d := d.(type) {
	case *ast.FuncDecl:
		c := *d
		c.Doc = nil
		return &c
	case *ast.GenDecl:
		c := *d
		c.Doc = nil
		return &c
	}
	return d
}

func isJSONMethod(d ast.Decl) bool {
	f, ok := d.(*ast.FuncDecl)
	return ok && f.Recv != nil && (f.Name.Name == "MarshalJSON" || f.Name.Name == "UnmarshalJSON")
}

// walkPair walks two syntax trees together and calls leaf for each pair of
// nodes; it gives where the shapes differ. leaf tells if it handled the pair.
func walkPair(a, b reflect.Value, leaf func(a, b any) (bool, string)) string {
	if a.Kind() == reflect.Interface {
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%v / %v", a, b)
		}
		if a.IsNil() {
			return ""
		}
		if a.Elem().Type() != b.Elem().Type() {
			done, bad := leaf(a.Interface(), b.Interface())
			if done {
				return bad
			}
			return fmt.Sprintf("%s in place of %s", node(b.Interface()), node(a.Interface()))
		}
		return walkPair(a.Elem(), b.Elem(), leaf)
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s in place of %s", node(b.Interface()), node(a.Interface()))
			}
			return ""
		}
		if _, ok := a.Interface().(*ast.CommentGroup); ok {
			return ""
		}
		if done, bad := leaf(a.Interface(), b.Interface()); done {
			return bad
		}
		return walkPair(a.Elem(), b.Elem(), leaf)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.Type == reflect.TypeOf(token.Pos(0)) || f.Name == "Obj" || f.Name == "Doc" || f.Name == "Comment" {
				continue
			}
			if bad := walkPair(a.Field(i), b.Field(i), leaf); bad != "" {
				return bad
			}
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%d %s in place of %d", b.Len(), a.Type().Elem(), a.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if bad := walkPair(a.Index(i), b.Index(i), leaf); bad != "" {
				return bad
			}
		}
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%v in place of %v", b.Interface(), a.Interface())
		}
	}
	return ""
}

func node(x any) string {
	n, ok := x.(ast.Node)
	if !ok || reflect.ValueOf(x).IsNil() {
		return fmt.Sprint(x)
	}
	var b bytes.Buffer
	if err := format.Node(&b, token.NewFileSet(), n); err != nil {
		return fmt.Sprintf("%T", x)
	}
	return head(b.String(), 300)
}

// pair compares the declarations of two files.
func pair(a, b *code, leaf func(in ast.Decl, x, y any) (bool, string)) string {
	if len(a.decls) != len(b.decls) {
		return fmt.Sprintf("%d declarations in place of %d", len(b.decls), len(a.decls))
	}
	for i := range a.decls {
		bad := walkPair(reflect.ValueOf(&a.decls[i]).Elem(), reflect.ValueOf(&b.decls[i]).Elem(), func(x, y any) (bool, string) { return leaf(a.decls[i], x, y) })
		if bad != "" {
			return fmt.Sprintf("%s\nin\n%s\nwhich was\n%s", bad, node(b.decls[i]), node(a.decls[i]))
		}
	}
	return ""
}

// isMessage tells if a struct is the one of a message.
func isMessage(s *ast.StructType) bool {
	for _, f := range s.Fields.List {
		if len(f.Names) == 1 && f.Names[0].Name == "Payload" && f.Tag == nil {
			return true
		}
	}
	return false
}

// structs gives the types whose fields have tags or that are empty, by name.
func (c *code) types() map[string]ast.Expr {
	out := map[string]ast.Expr{}
	for _, d := range c.decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.TYPE {
			continue
		}
		for _, s := range g.Specs {
			t := s.(*ast.TypeSpec)
			out[t.Name.Name] = t.Type
		}
	}
	return out
}

func unstar(e ast.Expr) (ast.Expr, bool) {
	if s, ok := e.(*ast.StarExpr); ok {
		return s.X, true
	}
	return e, false
}

// jsonName splits a tag in its JSON name and the rest.
func jsonName(tag string) (string, string) {
	t, _ := strconv.Unquote(tag)
	j := reflect.StructTag(t).Get("json")
	n := strings.Split(j, ",")[0]
	return n, strings.Replace(t, `json:"`+n, `json:"`, 1)
}

// noFormats removes formats of dates, in a copy of the document.
func noFormats(d *spec.Doc) *spec.Doc {
	c := d.Clone()
	c.EachSchema(func(s *spec.Schema) {
		if s.Format == "date" || s.Format == "date-time" {
			s.Format = ""
		}
	})
	return c
}

func flipPred(w *genWork, d *spec.Doc, seed uint64) string {
	rnd := spec.NewRand(seed ^ 0xF11F)
	d = d.Clone()
	d.Opt.NoFormatting, d.Opt.Parts = false, nil
	in, err := w.put("x", "asyncapi"+d.Emit.Ext(), d.Files())
	if err != nil {
		panic(err)
	}
	args := func(o spec.Options) []string { return engine.Args(o) }
	gen := func(out string, o spec.Options, more ...string) (*code, string) {
		b, bad := w.tool("x", in, out, append(args(o), more...)...)
		if bad != "" {
			return nil, bad
		}
		c, err := parseCode(b)
		if err != nil {
			return nil, fmt.Sprintf("what the tool writes with %q is not Go: %v", append(args(o), more...), err)
		}
		return c, ""
	}
	// The option at hand starts from its default.
	try := func(name string, f func(o spec.Options) (string, bool)) string {
		bad, nontrivial := f(d.Opt)
		key := ""
		if nontrivial {
			key = d.ID + " " + name
		}
		w.cas(key, name)
		if bad != "" {
			return fmt.Sprintf("option %s (with %v): %s", name, args(d.Opt), bad)
		}
		return ""
	}
	for _, x := range []struct {
		name string
		f    func(o spec.Options) (string, bool)
	}{
		{"package", func(o spec.Options) (string, bool) {
			a, bad := gen("out.go", o)
			if bad != "" {
				return bad, false
			}
			name := spec.Pick(rnd, []string{"other", "x", "asyncapi_v2", "pkgName", "gen0"})
			b, bad := w.tool("x", in, "out.go", append(args(o), "-p", name)...)
			if bad != "" {
				return bad, false
			}
			c, err := parseCode(b)
			if err != nil {
				return err.Error(), false
			}
			if c.f.Name.Name != name {
				return fmt.Sprintf("-p %s gives the package %s", name, c.f.Name.Name), true
			}
			if a.f.Name.Name != "generated" {
				return fmt.Sprintf("-p generated gives the package %s", a.f.Name.Name), true
			}
			return pair(a, c, func(_ ast.Decl, x, y any) (bool, string) { return false, "" }), true
		}},
		{"output", func(o spec.Options) (string, bool) {
			a, bad := w.tool("x", in, "out.go", args(o)...)
			if bad != "" {
				return bad, false
			}
			out := spec.Pick(rnd, []string{"sub/y.go", "z.gen.go", "sub/deep/été file.txt", "./q"})
			abs := rnd.P(30)
			p := filepath.Join(w.path("x"), out)
			if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
				panic(err)
			}
			if rnd.P(60) {
				// What was there before is replaced.
				if err := os.WriteFile(p, bytes.Repeat([]byte("// old\n"), rnd.N(1+len(a)/3)), 0o644); err != nil {
					panic(err)
				}
			}
			before := listing(w.path("x"))
			arg := out
			if abs {
				arg = p
			}
			o2, code, _ := w.e.RunCLI(w.path("x"), append([]string{"-i", in, "-o", arg, "-p", "generated"}, args(o)...)...)
			if code != 0 {
				return fmt.Sprintf("-o %s: status %d: %s", arg, code, head(o2, 500)), true
			}
			b, err := os.ReadFile(p)
			if err != nil || !bytes.Equal(a, b) {
				return fmt.Sprintf("-o %s: the file is not the same as with another path (%v): %s", arg, err, diffAt(a, b)), true
			}
			after := listing(w.path("x"))
			before[filepath.Join(out)] = after[filepath.Join(out)]
			if !reflect.DeepEqual(before, after) {
				return fmt.Sprintf("-o %s: other files changed: %v, were %v", arg, after, before), true
			}
			return "", true
		}},
		{"defaults", func(o spec.Options) (string, bool) {
			a, bad := gen("out.go", spec.Options{}, "-p", "asyncapi")
			if bad != "" {
				return bad, false
			}
			if err := os.MkdirAll(w.path("def"), 0o755); err != nil {
				panic(err)
			}
			var files []string
			for i, f := range d.Files() {
				name := f.Name
				if i == 0 {
					name = "asyncapi.yaml"
				} else {
					files = append(files, "./"+name)
				}
				if err := os.WriteFile(filepath.Join(w.path("def"), name), f.Data, 0o644); err != nil {
					panic(err)
				}
			}
			// JSON is YAML, but the tool goes by the name of the file.
			if d.Emit.JSON {
				return "", false
			}
			var arg []string
			if len(files) > 0 {
				arg = []string{"-i", "asyncapi.yaml," + strings.Join(files, ",")}
			}
			out, code, _ := w.e.RunCLI(w.path("def"), arg...)
			if code != 0 {
				return fmt.Sprintf("%q: status %d: %s", arg, code, head(out, 500)), true
			}
			b, err := os.ReadFile(filepath.Join(w.path("def"), "asyncapi.gen.go"))
			if err != nil || !bytes.Equal(a.raw, b) {
				return fmt.Sprintf("%q: the output is not the one of the defaults (%v): %s", arg, err, diffAt(a.raw, b)), true
			}
			// The defaults can be given too.
			c, bad := gen("out2.go", spec.Options{}, "-p", "asyncapi", "-g", "user,application,types", "-c", "none", "-n", "none", "--force-pointers=false", "--ignore-string-format=false", "--disable-formatting=false")
			if bad != "" {
				return bad, true
			}
			if !bytes.Equal(a.raw, c.raw) {
				return "giving the defaults changes the output: " + diffAt(a.raw, c.raw), true
			}
			return "", true
		}},
		{"parts", func(o spec.Options) (string, bool) {
			whole, bad := gen("out.go", o)
			if bad != "" {
				return bad, false
			}
			var union []string
			one := map[string][]string{}
			for _, p := range []string{"application", "user", "types"} {
				c, bad := gen("part.go", o, "-g", p)
				if bad != "" {
					return bad, false
				}
				one[p] = c.text()
				union = append(union, one[p]...)
			}
			if bad := same(whole.text(), union); bad != "" {
				return "the parts together are not the whole: " + bad, true
			}
			for _, l := range [][]string{{"user", "types"}, {"types", "application"}, {"application", "user"}, {"user", "application"}, {"types", "user", "application"}} {
				c, bad := gen("part.go", o, "-g", strings.Join(l, ","))
				if bad != "" {
					return bad, false
				}
				var u []string
				for _, p := range l {
					u = append(u, one[p]...)
				}
				if bad := same(c.text(), u); bad != "" {
					return fmt.Sprintf("-g %s is not the parts together: %s", strings.Join(l, ","), bad), true
				}
			}
			for p, l := range one {
				for _, t := range l {
					has := func(s string) bool { return strings.Contains(t, s) }
					if p == "user" && has("func (c *AppController)") || p == "application" && has("func (c *UserController)") || p == "types" && (has("func (c *AppController)") || has("func (c *UserController)")) {
						return fmt.Sprintf("-g %s has\n%s", p, head(t, 300)), true
					}
				}
				if p != "types" && !strings.Contains(strings.Join(l, "\n"), map[string]string{"user": "type UserController struct", "application": "type AppController struct"}[p]) {
					return fmt.Sprintf("-g %s has no controller", p), true
				}
			}
			return "", true
		}},
		{"disable-formatting", func(o spec.Options) (string, bool) {
			a, bad := w.tool("x", in, "out.go", args(o)...)
			if bad != "" {
				return bad, false
			}
			o.NoFormatting = true
			b, bad := w.tool("x", in, "raw.go", args(o)...)
			if bad != "" {
				return bad, false
			}
			f, err := imports.Process("", b, &imports.Options{TabWidth: 8, TabIndent: true, Comments: true, Fragment: true})
			if err != nil {
				return "the output without formatting is not Go: " + err.Error(), true
			}
			if !bytes.Equal(f, a) {
				return "the output without formatting, formatted, is another one: " + diffAt(a, f), true
			}
			return "", !bytes.Equal(a, b)
		}},
		{"force-pointers", func(o spec.Options) (string, bool) {
			o.ForcePtr = false
			a, bad := gen("out.go", o)
			if bad != "" {
				return bad, false
			}
			o.ForcePtr = true
			b, bad := gen("out2.go", o)
			if bad != "" {
				return bad, false
			}
			return forced(a, b)
		}},
		{"ignore-string-format", func(o spec.Options) (string, bool) {
			o.IgnoreFormat = false
			a, bad := gen("out.go", o)
			if bad != "" {
				return bad, false
			}
			o.IgnoreFormat = true
			b, bad := gen("out2.go", o)
			if bad != "" {
				return bad, false
			}
			plain := noFormats(d)
			in2, err := w.put("plain", "asyncapi"+d.Emit.Ext(), plain.Files())
			if err != nil {
				panic(err)
			}
			for _, ign := range []bool{false, true} {
				o.IgnoreFormat = ign
				c, bad := w.tool("plain", in2, "out.go", args(o)...)
				if bad != "" {
					return bad, true
				}
				if !bytes.Equal(b.raw, c) {
					return fmt.Sprintf("the output with the option is not the one of the document without formats of dates (option given: %v): %s", ign, diffAt(b.raw, c)), true
				}
			}
			dates := false
			ta, tb := a.types(), b.types()
			for n, x := range ta {
				y, ok := tb[n]
				if !ok {
					return fmt.Sprintf("the type %s is missing", n), true
				}
				bad := walkPair(reflect.ValueOf(&x).Elem(), reflect.ValueOf(&y).Elem(), func(x, y any) (bool, string) {
					if s, ok := x.(ast.Expr); ok {
						if t := node(s); t == "time.Time" || t == "civil.Date" {
							dates = true
							if node(y) != "string" {
								return true, fmt.Sprintf("%s in place of %s", node(y), t)
							}
							return true, ""
						}
					}
					// The limits of a string can be checked, the ones of a date cannot.
					if l, ok := x.(*ast.BasicLit); ok && l.Kind == token.STRING {
						m := y.(*ast.BasicLit)
						n1, _ := jsonName(l.Value)
						n2, _ := jsonName(m.Value)
						return n1 == n2, ""
					}
					return false, ""
				})
				if bad != "" {
					return fmt.Sprintf("in the type %s: %s", n, bad), true
				}
			}
			return "", dates
		}},
		{"convert-keys", func(o spec.Options) (string, bool) {
			o.Convert = ""
			a, bad := gen("out.go", o)
			if bad != "" {
				return bad, false
			}
			o.Convert = spec.Pick(rnd, []string{"snake", "kebab", "camel"})
			b, bad := gen("out2.go", o)
			if bad != "" {
				return bad, false
			}
			changed := false
			bad = pair(a, b, func(in ast.Decl, x, y any) (bool, string) {
				l, ok := x.(*ast.BasicLit)
				if !ok || l.Kind != token.STRING {
					return false, ""
				}
				m := y.(*ast.BasicLit)
				if isJSONMethod(in) {
					s, _ := strconv.Unquote(l.Value)
					if m.Value != l.Value && m.Value != strconv.Quote(o.Key(s)) {
						return true, fmt.Sprintf("%s in place of %s", m.Value, l.Value)
					}
					return true, ""
				}
				g, ok := in.(*ast.GenDecl)
				if !ok || g.Tok != token.TYPE {
					return false, ""
				}
				n1, r1 := jsonName(l.Value)
				n2, r2 := jsonName(m.Value)
				want := o.Key(n1)
				if strings.HasPrefix(r1, `json:""`) && n1 == "-" {
					want = "-"
				}
				if r1 != r2 || n2 != want {
					return true, fmt.Sprintf("the tag %s in place of %s (%s)", m.Value, l.Value, o.Convert)
				}
				changed = changed || n1 != n2
				return true, ""
			})
			return bad, changed
		}},
		{"naming-scheme", func(o spec.Options) (string, bool) {
			o.Naming = ""
			a, bad := gen("out.go", o)
			if bad != "" {
				return bad, false
			}
			o.Naming = "camel"
			b, bad := gen("out2.go", o)
			if bad != "" {
				return bad, false
			}
			changed := false
			// Some declarations come in the order of their names.
			byName := func(c *code) {
				sort.SliceStable(c.decls, func(i, j int) bool {
					return strings.ToLower(letters(node(c.decls[i]))) < strings.ToLower(letters(node(c.decls[j])))
				})
			}
			byName(a)
			byName(b)
			bad = pair(a, b, func(in ast.Decl, x, y any) (bool, string) {
				if i, ok := x.(*ast.Ident); ok {
					j := y.(*ast.Ident)
					changed = changed || i.Name != j.Name
					if !strings.EqualFold(letters(i.Name), letters(j.Name)) {
						return true, fmt.Sprintf("the name %s in place of %s", j.Name, i.Name)
					}
					if token.IsExported(i.Name) != token.IsExported(j.Name) {
						return true, fmt.Sprintf("the name %s in place of %s", j.Name, i.Name)
					}
					return true, ""
				}
				if l, ok := x.(*ast.BasicLit); ok && l.Kind == token.STRING {
					m := y.(*ast.BasicLit)
					// Names that are told in the text of an error
					if g, ok := in.(*ast.FuncDecl); ok && g.Body != nil && strings.Contains(l.Value, "should not be nil") {
						return true, ""
					}
					if l.Value != m.Value {
						return true, fmt.Sprintf("%s in place of %s", m.Value, l.Value)
					}
					return true, ""
				}
				return false, ""
			})
			if bad == "" && !reflect.DeepEqual(a.imports(), b.imports()) {
				bad = fmt.Sprintf("the imports are %q in place of %q", b.imports(), a.imports())
			}
			return bad, changed
		}},
	} {
		if bad := try(x.name, x.f); bad != "" {
			return bad
		}
	}
	w.sample(map[string]any{"document": d.ID, "version": d.Version, "options": args(d.Opt)})
	return ""
}

func letters(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '_' {
			return -1
		}
		return r
	}, s)
}

// eq tells if two types are the same.
func eq(x, y ast.Expr) bool {
	return walkPair(reflect.ValueOf(&x).Elem(), reflect.ValueOf(&y).Elem(), func(_, _ any) (bool, string) { return false, "" }) == ""
}

// forced compares types without and with forced pointers.
func forced(a, b *code) (string, bool) {
	ta, tb := a.types(), b.types()
	changed := false
	for n, x := range ta {
		y, ok := tb[n]
		if !ok {
			return fmt.Sprintf("the type %s is missing", n), true
		}
		s1, ok1 := x.(*ast.StructType)
		s2, ok2 := y.(*ast.StructType)
		if !ok1 || !ok2 || isMessage(s1) {
			if !eq(x, y) {
				return fmt.Sprintf("the type %s is %s, was %s", n, node(y), node(x)), true
			}
			continue
		}
		if len(s1.Fields.List) != len(s2.Fields.List) {
			return fmt.Sprintf("the type %s is %s, was %s", n, node(y), node(x)), true
		}
		for i, f := range s1.Fields.List {
			g := s2.Fields.List[i]
			if len(f.Names) == 0 && len(g.Names) == 0 && eq(f.Type, g.Type) {
				continue
			}
			if len(f.Names) != 1 || len(g.Names) != 1 || f.Names[0].Name != g.Names[0].Name || (f.Tag == nil) != (g.Tag == nil) {
				return fmt.Sprintf("the type %s is %s, was %s", n, node(y), node(x)), true
			}
			if f.Tag != nil {
				j1, j2 := strings.Fields(f.Tag.Value)[0], strings.Fields(g.Tag.Value)[0]
				if reflect.StructTag(strings.Trim(f.Tag.Value, "`")).Get("json") != reflect.StructTag(strings.Trim(g.Tag.Value, "`")).Get("json") {
					return fmt.Sprintf("the field %s of %s has the tag %s, was %s", f.Names[0], n, j2, j1), true
				}
			}
			e1, p1 := unstar(f.Type)
			e2, p2 := unstar(g.Type)
			if !eq(e1, e2) {
				return fmt.Sprintf("the field %s of %s is %s, was %s", f.Names[0], n, node(g.Type), node(f.Type)), true
			}
			_, isArray := e1.(*ast.ArrayType)
			_, isMap := e1.(*ast.MapType)
			id, isID := e1.(*ast.Ident)
			named := node(e1) == "json.RawMessage"
			if isID {
				_, named = ta[id.Name]
			}
			switch {
			case f.Tag != nil && (isArray || isMap || named): // the driver looks at these (types)
				if p1 && !p2 {
					return fmt.Sprintf("the field %s of %s is %s, was %s", f.Names[0], n, node(g.Type), node(f.Type)), true
				}
			case f.Tag == nil || strings.Contains(f.Tag.Value, `json:"-"`):
				if p1 != p2 {
					return fmt.Sprintf("the field %s of %s is %s, was %s", f.Names[0], n, node(g.Type), node(f.Type)), true
				}
			case !p2:
				return fmt.Sprintf("the field %s of %s is %s", f.Names[0], n, node(g.Type)), true
			}
			changed = changed || p1 != p2
		}
	}
	if len(ta) != len(tb) {
		return "there are other types", true
	}
	return "", changed
}

func same(a, b []string) string {
	x, y := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := 0; i < len(x) || i < len(y); i++ {
		switch {
		case i >= len(x):
			return "there is also\n" + head(y[i], 400)
		case i >= len(y):
			return "there is not\n" + head(x[i], 400)
		case x[i] != y[i]:
			return fmt.Sprintf("there is\n%s\nwhere the other has\n%s", head(y[i], 400), head(x[i], 400))
		}
	}
	return ""
}

// listing gives the files under a directory with their content.
func listing(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() {
			return nil
		}
		b, _ := os.ReadFile(p)
		r, _ := filepath.Rel(dir, p)
		out[r] = string(b)
		return nil
	})
	return out
}
