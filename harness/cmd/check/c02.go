package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/codegen"
	"github.com/lerenn/asyncapi-codegen/pkg/codegen/options"

	"verif/internal/engine"
	"verif/internal/rep"
	"verif/spec"
)

func init() { checks["C02"] = c02 }

// diffAt tells where two texts differ.
func diffAt(a, b []byte) string {
	x, y := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return fmt.Sprintf("line %d is\n  %s\ninstead of\n  %s", i+1, head(y[i], 300), head(x[i], 300))
		}
	}
	return fmt.Sprintf("%d lines instead of %d", len(y), len(x))
}

// partArgs gives the argument of the selection of parts.
func partArgs(d *spec.Doc) []string {
	if len(d.Opt.Parts) > 0 && d.Opt.Parts[0] != "" {
		return []string{"-g", d.Opt.Parts[0]}
	}
	return nil
}

func c02(r *rep.Run) {
	r.Rule("documents are generated from a seed by a model of AsyncAPI; again/style: a case is one more run of the tool on the same document, or on the document with another order of keys, another syntax (YAML or JSON) or another YAML style, whose output must be the same bytes; history: a case is a generation in a process that has generated other documents with other options before (and, for some, the same document from the same CodeGen value), whose output must be the one of a fresh process; distinct by document, style and history")
	c := spec.Rich()
	c.Deps, c.Compose, c.Traits, c.Add = 40, 35, 40, 35
	genCheck{sub: "style", cfg: c, docs: r.N(350, 4000), pred: stylePred,
		tweak: func(seed uint64, d *spec.Doc) { d.Scatter(seed, []int{0, 0, 10, 30}[seed%4]) }}.run(r)
	genCheck{sub: "history", cfg: c, docs: r.N(250, 2500), pred: historyPred, serial: true}.run(r)
	if r.Only == "" {
		sameValueTwice(r)
	}
}

func stylePred(w *genWork, d *spec.Doc, seed uint64) string {
	rnd := spec.NewRand(seed ^ 0x5717)
	args := append(engine.Args(d.Opt), partArgs(d)...)
	in, err := w.put("base", "asyncapi"+d.Emit.Ext(), d.Files())
	if err != nil {
		panic(err)
	}
	first, bad := w.tool("base", in, "out.go", args...)
	if bad != "" {
		w.cas("", "not usable")
		return ""
	}
	for i := 0; i < 2; i++ {
		b, bad := w.tool("base", in, "out.go", args...)
		if bad != "" {
			return bad
		}
		w.cas(fmt.Sprintf("%s again %d", d.ID, i), "again")
		if !bytes.Equal(b, first) {
			return fmt.Sprintf("run %d on the same document gives another output: %s", i+2, diffAt(first, b))
		}
	}
	for i := 0; i < 4; i++ {
		st := spec.Emit{JSON: rnd.P(50), Seed: rnd.U(), Shuffle: i > 0}
		cls := "other order of keys"
		if st.JSON != d.Emit.JSON {
			cls = "other syntax"
		}
		sub := fmt.Sprintf("style%d", i)
		in, err := w.put(sub, "asyncapi"+st.Ext(), d.FilesAs(&st))
		if err != nil {
			panic(err)
		}
		b, bad := w.tool(sub, in, "out.go", args...)
		if bad != "" {
			return fmt.Sprintf("the same document in another style (%+v) is refused: %s", st, bad)
		}
		w.cas(fmt.Sprintf("%s %v", d.ID, st), cls)
		if !bytes.Equal(b, first) {
			return fmt.Sprintf("the same document in another style (%+v) gives another output: %s\nthe document in this style:\n%s", st, diffAt(first, b), d.FilesAs(&st)[0].Data)
		}
	}
	w.sample(map[string]any{"document": d.ID, "version": d.Version, "bytes": len(first), "options": engine.Args(d.Opt)})
	return ""
}

var inProcess sync.Mutex

// libOptions gives the options of the library.
func libOptions(o spec.Options, part, out string) options.Options {
	opt := options.Options{OutputPath: out, PackageName: "generated", DisableFormatting: o.NoFormatting, ConvertKeys: o.Convert, NamingScheme: o.Naming,
		IgnoreStringFormat: o.IgnoreFormat, ForcePointers: o.ForcePtr}
	if opt.ConvertKeys == "" {
		opt.ConvertKeys = "none"
	}
	if opt.NamingScheme == "" {
		opt.NamingScheme = "none"
	}
	if part == "" {
		part = "user,application,types"
	}
	for _, p := range strings.Split(part, ",") {
		switch p {
		case "user":
			opt.Generate.User = true
		case "application":
			opt.Generate.Application = true
		case "types":
			opt.Generate.Types = true
		}
	}
	return opt
}

// body removes the line about the generator.
func body(b []byte) []byte {
	l := bytes.Split(b, []byte("\n"))
	for i, x := range l {
		if bytes.HasPrefix(x, []byte("// Code generated by ")) {
			return bytes.Join(append(append([][]byte{}, l[:i]...), l[i+1:]...), []byte("\n"))
		}
	}
	return b
}

// merges tells if the tool merges parts of the document into others: a CodeGen
// value then does not generate twice the same (see sameValueTwice).
func merges(d *spec.Doc) bool {
	for _, f := range d.Files() {
		for _, k := range []string{"allOf", "anyOf", "oneOf", "traits"} {
			if bytes.Contains(f.Data, []byte(k)) {
				return true
			}
		}
	}
	return false
}

const twiceDoc = `asyncapi: "3.0.0"
info: {title: Twice, version: "1.0.0"}
channels:
  c:
    address: c
    messages:
      m:
        payload: {allOf: [{$ref: '#/components/schemas/s'}]}
components:
  schemas:
    s: {type: object, required: [p], properties: {p: {type: object}}}
`

// sameValueTwice looks at a known finding: a CodeGen value whose document has a
// composition does not generate the same code the second time.
func sameValueTwice(r *rep.Run) {
	dir := filepath.Join(getEngine(r).Scratch, "twice")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	in := filepath.Join(dir, "asyncapi.yaml")
	if err := os.WriteFile(in, []byte(twiceDoc), 0o644); err != nil {
		panic(err)
	}
	cg, err := codegen.FromFile(in)
	if err != nil {
		return
	}
	var out [2][]byte
	for i := range out {
		f := filepath.Join(dir, "out.go")
		if err := cg.Generate(libOptions(spec.Options{}, "types", f)); err != nil {
			return
		}
		out[i], _ = os.ReadFile(f)
	}
	r.Case("same value twice", "same value twice with a composition")
	if bytes.Equal(out[0], out[1]) {
		return
	}
	text := "a CodeGen value whose document has a composition (allOf, anyOf, oneOf) does not generate the same types the second time: " + diffAt(out[0], out[1])
	if r.Known("same-value-twice") {
		r.KnownHit("same-value-twice")
		return
	}
	r.Violation("twice.json", text, []byte(twiceDoc))
}

func historyPred(w *genWork, d *spec.Doc, seed uint64) string {
	rnd := spec.NewRand(seed ^ 0x4157)
	var story []string
	inProcess.Lock()
	defer inProcess.Unlock()
	generate := func(cg codegen.CodeGen, o spec.Options, part, out string) ([]byte, error) {
		if err := cg.Generate(libOptions(o, part, out)); err != nil {
			return nil, err
		}
		return os.ReadFile(out)
	}
	load := func(sub string, x *spec.Doc) (codegen.CodeGen, error) {
		in, err := w.put(sub, "asyncapi"+x.Emit.Ext(), x.Files())
		if err != nil {
			panic(err)
		}
		// The names of dependencies are relative to the working directory.
		wd, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		if err := os.Chdir(w.path(sub)); err != nil {
			panic(err)
		}
		defer func() { _ = os.Chdir(wd) }()
		l := strings.Split(in, ",")
		return codegen.FromFile(l[0], l[1:]...)
	}
	part := ""
	if len(d.Opt.Parts) > 0 {
		part = d.Opt.Parts[0]
	}
	in, err := w.put("fresh", "asyncapi"+d.Emit.Ext(), d.Files())
	if err != nil {
		panic(err)
	}
	fresh, bad := w.tool("fresh", in, "out.go", append(engine.Args(d.Opt), partArgs(d)...)...)
	if bad != "" {
		w.cas("", "not usable")
		return ""
	}
	for i, n := 0, rnd.N(4); i < n; i++ {
		c := spec.Rich()
		x := spec.Generate(rnd.U(), c)
		cg, err := load(fmt.Sprintf("before%d", i), x)
		if err == nil {
			_, err = generate(cg, x.Opt, "", w.path("before.go"))
		}
		story = append(story, fmt.Sprintf("another document with %v (error: %v)", engine.Args(x.Opt), err))
	}
	cg, err := load("hist", d)
	if err != nil {
		return fmt.Sprintf("after %q, reading the document fails: %v", story, err)
	}
	cls := "after other documents"
	if rnd.P(40) && !merges(d) {
		// The same value generates with other options first.
		o := spec.Options{ForcePtr: rnd.P(50), IgnoreFormat: rnd.P(50), Convert: spec.Pick(rnd, []string{"none", "snake", "camel"}), Naming: spec.Pick(rnd, []string{"none", "camel"}), NoFormatting: rnd.P(30)}
		p := spec.Pick(rnd, []string{"", "types", "user", "application", "user,types"})
		_, err := generate(cg, o, p, w.path("same.go"))
		story = append(story, fmt.Sprintf("the same document with %v, parts %q (error: %v)", engine.Args(o), p, err))
		cls = "same value before"
	}
	b, err := generate(cg, d.Opt, part, w.path("after.go"))
	if err != nil {
		return fmt.Sprintf("after %q, the generation fails: %v", story, err)
	}
	key := ""
	if len(story) > 0 {
		key = fmt.Sprint(d.ID, story)
	}
	w.cas(key, cls, fmt.Sprintf("%d generations before", len(story)))
	if !bytes.Equal(body(b), body(fresh)) {
		return fmt.Sprintf("generated in the same process after %q, the output is another one than in a fresh process: %s", story, diffAt(body(fresh), body(b)))
	}
	w.sample(map[string]any{"document": d.ID, "history": story, "output": filepath.Base("after.go")})
	return ""
}
