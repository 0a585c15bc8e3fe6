package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/codegen"

	"verif/internal/rep"
	"verif/spec"
)

func init() {
	checks["C01"] = func(r *rep.Run) {
		r.Rule(docRule + "a case is one operation of one document (or the list of paths), non-trivial and distinct by document, operation name, number of parameters and message type")
		docCheck{sub: "api", check: "api", cfg: spec.Rich(), docs: r.N(500, 3000), n: 1, compile: true}.run(r)
	}
	checks["C04"] = func(r *rep.Run) {
		r.Rule(docRule + "a case is one message of any Go value sent with one controller and received with the other, distinct by document, operation and value")
		docCheck{sub: "roundtrip", check: "roundtrip", cfg: spec.Rich(), docs: r.N(250, 1200), n: r.N(80, 200)}.run(r)
	}
	checks["C05"] = func(r *rep.Run) {
		r.Rule(docRule + "a case is one JSON payload (with headers) that satisfies the schema, delivered to a handler, compared field by field, and sent again; distinct by document, operation and value")
		c := spec.Rich()
		c.NonObject = 8
		docCheck{sub: "json", check: "json", cfg: c, docs: r.N(250, 1200), n: r.N(80, 200)}.run(r)
		yamlWords(r)
	}
	checks["C06"] = func(r *rep.Run) {
		r.Rule(docRule + "a case is one JSON message with values at, inside and outside the limits of the constraints, decoded by a handler; every object in it is validated and the set of refused fields is compared with the constraints of the document; non-trivial when a constrained value was there; distinct by document, operation and value")
		c := spec.Rich()
		c.Constraints, c.GoType, c.NonObject, c.SpecialAddr, c.Reply, c.DateTime = 75, 0, 10, 0, 0, 6
		docCheck{sub: "valid", check: "valid", cfg: c, docs: r.N(200, 1200), n: r.N(100, 250)}.run(r)
	}
	checks["C07"] = func(r *rep.Run) {
		r.Rule(docRule + "objects of the document (schemas at any depth, messages, headers, channels, parameters, operations, replies, correlation IDs) are then moved at random among the components of the document or of a dependency and referred to, directly, through other references, or inside other components, and the document must keep the meaning of the one before; a case is one operation, one JSON payload or one message sent, as for C01, C05 and C04; distinct by document, operation and value")
		c := spec.Rich()
		c.Deps, c.Compose, c.Traits, c.Refs, c.NonObject = 60, 35, 50, 45, 15
		base := rep.SubSeed(r.Seed, "scatter")
		tweak := func(i int, d *spec.Doc) { d.Scatter(base+uint64(i), []int{5, 15, 30, 60}[i%4]) }
		docCheck{sub: "api", check: "api", cfg: c, docs: r.N(150, 1000), n: 1, compile: true, tweak: tweak}.run(r)
		docCheck{sub: "json", check: "json", cfg: c, docs: r.N(150, 1000), n: r.N(60, 150), tweak: tweak}.run(r)
		docCheck{sub: "roundtrip", check: "roundtrip", cfg: c, docs: r.N(120, 1000), n: r.N(50, 150), tweak: tweak}.run(r)
		docCheck{sub: "address", check: "address", cfg: c, docs: r.N(60, 400), n: r.N(20, 60), tweak: tweak}.run(r)
		c.Constraints, c.GoType, c.NonObject, c.SpecialAddr, c.Reply, c.DateTime, c.Compose = 75, 0, 5, 0, 0, 6, 50
		docCheck{sub: "valid", check: "valid", cfg: c, docs: r.N(100, 800), n: r.N(60, 200), tweak: tweak}.run(r)
	}
	checks["C08"] = func(r *rep.Run) {
		r.Rule(docRule + "a case is a sequence of subscriptions, messages and cancellations on addresses with drawn parameter values, distinct by document and list of addresses")
		c := spec.Rich()
		c.Params, c.SpecialAddr, c.Props, c.Depth, c.Reply = 75, 40, 3, 2, 10
		docCheck{sub: "address", check: "address", cfg: c, docs: r.N(200, 1000), n: r.N(80, 200)}.run(r)
	}
	checks["C09"] = func(r *rep.Run) {
		r.Rule(docRule + "a case is one request (v3) or wait-for (v2) with other messages before the outcome (reply by the helper, by the reply operation, raw, twice; context canceled or expired; subscription ended; failing subscription or sending; reply that is not decodable), or 2 to 4 concurrent requests with replies in a drawn order; distinct by document, operation, outcome and messages")
		c := spec.Rich()
		c.Reply, c.Corr, c.Props, c.Depth, c.DateTime = 90, 80, 3, 1, 8
		docCheck{sub: "request", check: "request", cfg: c, docs: r.N(160, 1000), n: r.N(80, 250)}.run(r)
		docCheck{sub: "requests", check: "requests", cfg: c, docs: r.N(100, 600), n: r.N(30, 150)}.run(r)
	}
	checks["C10"] = func(r *rep.Run) {
		r.Rule(docRule + "a case is a history of subscriptions, cancellations, subscribe-all, unsubscribe-all, close, broker failures and bursts of messages on one controller, compared with a model after each step; non-trivial with more than three steps; distinct by document and history")
		c := spec.Rich()
		c.Params, c.Props, c.Depth, c.MaxOps = 35, 3, 1, 6
		docCheck{sub: "life", check: "life", cfg: c, docs: r.N(160, 1000), n: r.N(80, 250)}.run(r)
	}
	checks["C11"] = func(r *rep.Run) {
		r.Rule(docRule + "a case is a chain of up to five middlewares (that call what follows or not, twice, fail before or after, swallow, wrap or recover errors, panic, change the message or the context) around up to three messages sent, received or awaited; the sequence of calls, what each sees and the result are compared with a model; non-trivial with at least one middleware; distinct by document, operation, chain and outcomes")
		c := spec.Rich()
		c.Reply, c.Corr, c.Props, c.Depth, c.DateTime = 60, 60, 3, 1, 8
		docCheck{sub: "mw", check: "mw", cfg: c, docs: r.N(140, 1000), n: r.N(100, 250)}.run(r)
	}
	checks["C12"] = func(r *rep.Run) {
		r.Rule(docRule + "a case is a burst of messages, each with an outcome (success, failing or panicking handler, payload that is not decodable, failing middleware, swallowed error) and what the error handler settles; distinct by document, operation, chain and outcomes")
		c := spec.Rich()
		c.Props, c.Depth, c.DateTime, c.Reply = 3, 1, 8, 10
		docCheck{sub: "ack", check: "ack", cfg: c, docs: r.N(140, 1000), n: r.N(100, 250)}.run(r)
	}
	checks["C16"] = func(r *rep.Run) {
		r.Rule(docRule + "a case is a history of up to five messages (received, refused by the handler, undecodable, refused by the broker) of up to three operations on both controllers, sent with fresh contexts or with contexts of earlier messages, or a wait for a reply, where every context given to middlewares, handlers, error handlers, the broker and loggers is compared with the operation at hand; or one call of a logger or of the logging middleware with any strings; distinct by content")
		c := spec.Rich()
		c.Reply, c.Corr, c.Props, c.Depth, c.SpecialAddr, c.Params = 60, 60, 3, 2, 30, 45
		docCheck{sub: "context", check: "context", cfg: c, docs: r.N(120, 800), n: r.N(60, 200)}.run(r)
		docCheck{sub: "context-reply", check: "context-reply", cfg: c, docs: r.N(100, 600), n: r.N(40, 150)}.run(r)
		loggersCheck(r)
	}
}

// yamlWords looks at a known finding: names that YAML 1.1 reads as booleans, and
// YAML 1.2, that AsyncAPI recommends, as strings.
func yamlWords(r *rep.Run) {
	if r.Only != "" || r.Fail != "" {
		return
	}
	dir := filepath.Join(getEngine(r).Scratch, "words")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	var bad []string
	for _, w := range []string{"y", "n", "yes", "no", "on", "off", "Y", "N", "Yes", "No", "On", "Off"} {
		doc := strings.ReplaceAll(wordsDoc, "WORD", w)
		in, f := filepath.Join(dir, "asyncapi.yaml"), filepath.Join(dir, "out.go")
		if err := os.WriteFile(in, []byte(doc), 0o644); err != nil {
			panic(err)
		}
		cg, err := codegen.FromFile(in)
		if err == nil {
			err = cg.Generate(libOptions(spec.Options{}, "types", f))
		}
		out, _ := os.ReadFile(f)
		r.Case("word "+w, "property name that YAML 1.1 reads as a boolean")
		if err != nil || !bytes.Contains(out, []byte(`json:"`+w+`,omitempty"`)) {
			bad = append(bad, w)
		}
	}
	if len(bad) == 0 {
		return
	}
	if r.Known("yaml-words") {
		r.KnownHit("yaml-words")
		return
	}
	r.Violation("words.yaml", fmt.Sprintf("the properties %q of a YAML document do not keep their names", bad), []byte(wordsDoc))
}

const wordsDoc = `asyncapi: "3.0.0"
info: {title: Words, version: "1.0.0"}
channels:
  c:
    address: c
    messages:
      m:
        payload: {type: object, properties: {x: {type: integer}, WORD: {type: integer}}}
`
