package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"verif/internal/engine"
	"verif/internal/rep"
	"verif/spec"
)

// docCheck is a check that generates documents, compiles what the tool makes of
// them and drives the result.
type docCheck struct {
	sub     string // name of the sub-property
	check   string // check of the driver; empty: only generate and compile
	cfg     spec.Config
	docs    int
	n       int // cases per document
	limit   time.Duration
	compile bool // failing to generate or compile is a violation
	// tweak changes a generated document.
	tweak func(i int, d *spec.Doc)
	// min is the least number of evaluations that makes the check meaningful.
	min int
}

// replayDoc is the content of a replay file.
type replayDoc struct {
	Prop  string    `json:"property"`
	Sub   string    `json:"sub"`
	Check string    `json:"check"`
	Seed  int64     `json:"seed"`
	N     int       `json:"n"`
	Text  string    `json:"text"`
	Doc   *spec.Doc `json:"doc"`
	Files []string  `json:"files"`
}

var eng *engine.Engine

func getEngine(r *rep.Run) *engine.Engine {
	if eng != nil {
		return eng
	}
	e, err := engine.New()
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	eng = e
	return e
}

const docRule = "documents are generated from a seed by a model of AsyncAPI (spec.Generate), the tool built from /repo generates code for each, the code is compiled and driven by reflection; "

func (c docCheck) run(r *rep.Run) {
	if r.Only != "" && r.Only != c.sub {
		return
	}
	e := getEngine(r)
	if c.limit == 0 {
		c.limit = 400 * time.Second
	}
	var docs []*spec.Doc
	seed := r.Seed
	if r.Fail != "" {
		b, err := os.ReadFile(r.Fail)
		var rd replayDoc
		if err == nil {
			err = json.Unmarshal(b, &rd)
		}
		if err != nil || rd.Doc == nil {
			fmt.Println("replay file:", err)
			os.Exit(2)
		}
		if rd.Sub != c.sub {
			return
		}
		docs, c.n, seed = []*spec.Doc{rd.Doc}, rd.N, rd.Seed
	} else {
		base := rep.SubSeed(r.Seed, r.Prop+c.sub)
		for i := 0; i < c.docs; i++ {
			d := spec.Generate(base+uint64(i), c.cfg)
			if c.tweak != nil {
				c.tweak(i, d)
			}
			docs = append(docs, d)
		}
	}
	const batch = 200
	for len(docs) > 0 {
		k := len(docs)
		if k > batch {
			k = batch
		}
		if !c.batch(r, e, docs[:k], seed) {
			return
		}
		docs = docs[k:]
	}
}

// outcome is what happened to one document.
type outcome struct {
	item *engine.Item
	res  *engine.Result
	kind string // "", cli, build, fail, hang
	text string
}

// evaluate runs documents through the whole chain.
func (c docCheck) evaluate(e *engine.Engine, docs []*spec.Doc, seed int64, limit time.Duration) ([]*outcome, error) {
	items, err := e.Generate(docs)
	if err != nil {
		return nil, err
	}
	var out []*outcome
	byItem := map[*engine.Item]*outcome{}
	for _, it := range items {
		o := &outcome{item: it}
		out = append(out, o)
		byItem[it] = o
		switch {
		case it.CLIErr != "":
			o.kind, o.text = "cli", "the tool fails on a valid document: "+it.CLIErr
		case it.BuildErr != "":
			o.kind, o.text = "build", "the generated code does not compile:\n"+it.BuildErr
		}
	}
	if c.check == "" {
		e.Clean(items)
		return out, nil
	}
	bin, err := e.Driver(items, false)
	if err != nil {
		return nil, err
	}
	for _, res := range e.Drive(bin, c.check, items, c.n, seed, limit) {
		o := byItem[res.Item]
		o.res = res
		switch {
		case res.Failed:
			o.kind, o.text = "fail", res.Text
		case strings.Contains(res.Error, "no answer within"):
			o.kind, o.text = "hang", "the generated code does not return: "+res.Error
		case res.Error != "":
			return nil, fmt.Errorf("%s", res.Error)
		}
	}
	_ = os.Remove(bin)
	e.Clean(items)
	return out, nil
}

func (c docCheck) bad(o *outcome) bool {
	switch o.kind {
	case "":
		return false
	case "cli", "build":
		return c.compile
	}
	return true
}

// batch evaluates documents; false after a violation.
func (c docCheck) batch(r *rep.Run, e *engine.Engine, docs []*spec.Doc, seed int64) bool {
	out, err := c.evaluate(e, docs, seed, c.limit)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	skipped, evals := 0, 0
	var bad []*outcome
	for _, o := range out {
		if c.bad(o) {
			bad = append(bad, o)
			continue
		}
		if o.kind != "" {
			skipped++
			if skipped <= 2 {
				fmt.Printf("document skipped (%s): %s\n", o.kind, head(o.text, 600))
			}
			continue
		}
		r.Class(fmt.Sprintf("document v%d", o.item.Doc.V))
		if c.check == "" {
			r.Case(o.item.Doc.ID, c.docClasses(o.item.Doc)...)
		}
		if o.res != nil {
			evals += o.res.Evals
			r.Merge(o.res.Evals, o.res.Keys, o.res.Classes)
			for _, s := range o.res.Samples {
				r.Sample(s.Kind, s.Case)
			}
			for _, k := range o.res.Known {
				r.KnownHit(k)
			}
		}
	}
	if len(bad) > 0 {
		sort.SliceStable(bad, func(i, j int) bool { return bad[i].item.Doc.Size() < bad[j].item.Doc.Size() })
		c.report(r, e, bad[0], len(bad), seed)
		return false
	}
	r.Extra(c.sub+" documents skipped because the tool or the compiler refuses them", skipped)
	if skipped*10 > len(docs)*3 && r.Fail == "" {
		b, _ := json.Marshal(out[0].item.Doc)
		r.Violation(c.sub+".json", fmt.Sprintf("%s: %d of %d valid documents are not usable (the tool or the compiler refuses them), the property does not hold for them", c.sub, skipped, len(docs)), b)
		return false
	}
	return true
}

func (c docCheck) docClasses(d *spec.Doc) []string {
	l := []string{fmt.Sprintf("v%d", d.V)}
	if d.Emit.JSON {
		l = append(l, "JSON document")
	} else {
		l = append(l, "YAML document")
	}
	if len(d.Deps) > 0 {
		l = append(l, "with dependencies")
	}
	if len(d.Opt.Parts) > 0 {
		l = append(l, "separate parts")
	}
	if a := engine.Args(d.Opt); len(a) > 0 {
		l = append(l, "with options")
	}
	return l
}

// report shrinks the document of a failure and reports it.
func (c docCheck) report(r *rep.Run, e *engine.Engine, o *outcome, total int, seed int64) {
	best := o
	end := time.Now().Add(75 * time.Second)
	if r.Fail != "" || o.kind == "hang" {
		end = time.Now()
	}
	tries := 0
shrinking:
	for time.Now().Before(end) {
		cands := best.item.Doc.Shrinks()
		progress := false
		for len(cands) > 0 && time.Now().Before(end) {
			k := len(cands)
			if k > 8 {
				k = 8
			}
			tries += k
			if tries > 400 {
				break shrinking
			}
			outs, err := c.evaluate(e, cands[:k], seed, 60*time.Second)
			cands = cands[k:]
			if err != nil {
				continue
			}
			for _, x := range outs {
				if x.kind == best.kind && (best.kind != "cli" || sameError(x.text, best.text)) {
					best, progress = x, true
					break
				}
			}
			if progress {
				break
			}
		}
		if !progress {
			break
		}
	}
	d := best.item.Doc
	var files []string
	for _, f := range d.Files() {
		files = append(files, string(f.Data))
	}
	text := fmt.Sprintf("sub-property %s failed for %d document(s) of this batch; a small one (options %v, parts %q):\n%s\n%s", c.sub, total, engine.Args(d.Opt), d.Opt.Parts, d.Text(), head(best.text, 8000))
	b, _ := json.MarshalIndent(replayDoc{r.Prop, c.sub, c.check, seed, c.n, best.text, d, files}, "", " ")
	r.Case(d.ID, "failing document")
	r.Violation(c.sub+".json", text, b)
}

func sameError(a, b string) bool {
	f := func(s string) string {
		s = strings.TrimPrefix(s, "the tool fails on a valid document: ")
		if i := strings.IndexAny(s, "\"`'"); i >= 0 {
			s = s[:i]
		}
		if len(s) > 60 {
			s = s[:60]
		}
		return s
	}
	return f(a) == f(b)
}
