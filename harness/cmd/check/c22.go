package main

import (
	"go/ast"

	"verif/internal/engine"
	"verif/internal/rep"
	"verif/spec"
)

func init() { checks["C22"] = c22 }

func c22(r *rep.Run) {
	r.Rule("documents are generated from a seed by a model of AsyncAPI; each is generated twice, without and with descriptions drawn at all places that can hold some (titles, summaries, tags, external documentation, examples, default values, content types, bindings, servers, security, traits that only describe, extensions of vendors...), with the same options; the case counts if both are generated; the declarations, comments apart, must be the same; distinct by document")
	c := spec.Rich()
	c.Deps, c.Compose, c.Traits, c.Add, c.Corr = 25, 30, 30, 30, 40
	genCheck{sub: "describe", cfg: c, docs: r.N(1500, 20000), pred: describePred,
		tweak: func(seed uint64, d *spec.Doc) {
			d.Scatter(seed, []int{0, 0, 15, 30}[seed%4])
			rnd := spec.NewRand(seed ^ 0xdec)
			d.Noise = &spec.Noise{Seed: rnd.U() >> 1, Rate: spec.Pick(rnd, []int{3, 8, 20, 50})}
		}}.run(r)
}

func describePred(w *genWork, d *spec.Doc, _ uint64) string {
	if d.Noise == nil {
		return ""
	}
	args := append(engine.Args(d.Opt), partArgs(d)...)
	plain := d.Clone()
	plain.Noise = nil
	gen := func(sub string, d *spec.Doc) (*code, string) {
		in, err := w.put(sub, "asyncapi"+d.Emit.Ext(), d.Files())
		if err != nil {
			panic(err)
		}
		b, bad := w.tool(sub, in, "out.go", args...)
		if bad != "" {
			return nil, bad
		}
		c, err := parseCode(b)
		if err != nil {
			return nil, "the output is not Go: " + err.Error()
		}
		return c, ""
	}
	a, bad := gen("plain", plain)
	if bad != "" {
		w.cas("", "not usable")
		return ""
	}
	b, bad := gen("described", d)
	if bad != "" {
		return "the document is generated without its descriptions, with them: " + bad
	}
	bad = pair(a, b, func(_ ast.Decl, x, y any) (bool, string) { return false, "" })
	if bad != "" {
		return "descriptions change what is generated: " + bad
	}
	if x, y := a.imports(), b.imports(); len(x) != len(y) {
		return "descriptions change the imports"
	}
	kinds := d.NoiseKinds()
	if len(kinds) == 0 {
		w.cas("", "nothing to describe")
		return ""
	}
	w.cas(d.ID, kinds...)
	w.sample(map[string]any{"document": d.ID, "version": d.Version, "descriptions": kinds, "options": args})
	return ""
}
