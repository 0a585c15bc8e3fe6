package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ghodss/yaml"

	"verif/internal/engine"
	"verif/internal/rep"
	"verif/spec"
)

func init() { checks["C03"] = c03 }

// hcase is one run of the tool.
type hcase struct {
	Sub    string            `json:"sub"`
	Files  map[string][]byte `json:"files"`
	Args   []string          `json:"args"`
	Out    string            `json:"out"` // output file, with something in it before
	Old    []byte            `json:"old"` // what it held; nil: no file
	Reject string            `json:"reject,omitempty"`
	Why    string            `json:"why"`
	Class  string            `json:"class"`
}

func c03(r *rep.Run) {
	r.Rule("a case is one run of the tool in a directory of its own: hostile: on a valid generated document (with dependencies) with up to five drawn changes of its tree (subtrees deleted, replaced by values of other types, copied elsewhere, references replaced, keys renamed, null in lists, deep nesting) or of its bytes (truncated, characters changed, YAML constructs inserted), or with hostile options; the tool must end with status 0 and a Go file, or with status 1, a message and the old output file as it was, and never crash; reject: on a valid document with exactly one change that must be refused (version, reference, option); distinct by files and arguments")
	hostile(r, "hostile", r.N(10000, 150000), drawHostile)
	hostile(r, "reject", r.N(3000, 30000), drawReject)
}

func hostile(r *rep.Run, sub string, n int, draw func(rnd *spec.Rand) *hcase) {
	if r.Only != "" && r.Only != sub {
		return
	}
	e := getEngine(r)
	if r.Fail != "" {
		var c hcase
		b, err := os.ReadFile(r.Fail)
		if err == nil {
			err = json.Unmarshal(b, &c)
		}
		if err != nil {
			fmt.Println("replay file:", err)
			os.Exit(2)
		}
		if c.Sub == sub {
			if bad, _ := c.run(e); bad != "" {
				r.Violation(sub+".json", c.describe(bad), b)
			}
		}
		return
	}
	base := rep.SubSeed(r.Seed, "C03"+sub)
	var mu sync.Mutex
	var fails []*hcase
	var texts []string
	var wg sync.WaitGroup
	ch := make(chan int)
	for j := 0; j < e.Jobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				c := draw(spec.NewRand(base + uint64(i)*7919))
				if c == nil {
					r.Case("", "not usable")
					continue
				}
				c.Sub = sub
				bad, out := c.run(e)
				r.Case(c.key(), c.Class, out)
				if i%(n/6+1) == 1 {
					r.Sample(sub, map[string]any{"change": c.Why, "arguments": c.Args, "outcome": out})
				}
				if bad != "" {
					mu.Lock()
					fails, texts = append(fails, c), append(texts, bad)
					mu.Unlock()
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		mu.Lock()
		stop := len(fails) > 8 && os.Getenv("VERIF_DEBUG") == ""
		mu.Unlock()
		if stop {
			break
		}
		ch <- i
	}
	close(ch)
	wg.Wait()
	if len(fails) == 0 {
		return
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		for i := range fails {
			fmt.Printf("=== %s %q\n%s\n", fails[i].Why, fails[i].Args, head(texts[i], 9000))
		}
	}
	k := 0
	for i := range fails {
		if fails[i].size() < fails[k].size() {
			k = i
		}
	}
	c, bad := fails[k].shrink(e, texts[k])
	b, _ := json.MarshalIndent(c, "", " ")
	r.Violation(sub+".json", fmt.Sprintf("sub-property %s failed for %d case(s); a small one:\n%s", sub, len(fails), c.describe(bad)), b)
}

func (c *hcase) key() string {
	var b strings.Builder
	for _, k := range c.names() {
		fmt.Fprintf(&b, "%s\n%s\n", k, c.Files[k])
	}
	fmt.Fprint(&b, c.Args)
	return b.String()
}

func (c *hcase) names() []string {
	var l []string
	for k := range c.Files {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (c *hcase) size() int {
	n := 0
	for _, b := range c.Files {
		n += len(b)
	}
	return n
}

func (c *hcase) describe(bad string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "change: %s\n", c.Why)
	for _, k := range c.names() {
		fmt.Fprintf(&b, "--- %s\n%s\n", k, head(string(c.Files[k]), 3000))
	}
	fmt.Fprintf(&b, "asyncapi-codegen %q\n%s", c.Args, bad)
	return b.String()
}

// run gives what is wrong, and the outcome.
func (c *hcase) run(e *engine.Engine) (string, string) {
	dir := filepath.Join(e.Scratch, fmt.Sprintf("hostile%d", workNr.Add(1)))
	defer os.RemoveAll(dir)
	if err := os.MkdirAll(filepath.Join(dir, "adir"), 0o755); err != nil {
		panic(err)
	}
	for k, b := range c.Files {
		if err := os.WriteFile(filepath.Join(dir, k), b, 0o644); err != nil {
			panic(err)
		}
	}
	out := filepath.Join(dir, c.Out)
	if c.Out != "" && c.Old != nil {
		if err := os.WriteFile(out, c.Old, 0o644); err != nil {
			panic(err)
		}
	}
	text, code, crashed := runLimited(e, dir, c.Args)
	switch {
	case crashed:
		return fmt.Sprintf("the tool crashes (status %d):\n%s", code, head(text, 3000)), "crash"
	case code == 0 && c.Reject != "":
		return "the tool succeeds, but it must refuse " + c.Reject, "accepted"
	case code == 0:
		if c.Out == "" {
			return "", "accepted"
		}
		b, err := os.ReadFile(out)
		if err != nil {
			return fmt.Sprintf("the tool succeeds but: %v", err), "accepted"
		}
		if c.Old != nil && bytes.Equal(b, c.Old) {
			return "the tool succeeds but does not write the output file", "accepted"
		}
		if !c.has("-f") {
			if _, err := parser.ParseFile(token.NewFileSet(), "x.go", b, parser.SkipObjectResolution); err != nil {
				return fmt.Sprintf("the tool succeeds, but what it writes is not Go: %v", err), "accepted"
			}
		}
		return "", "accepted"
	}
	if strings.TrimSpace(text) == "" {
		return "the tool fails without a message", "refused"
	}
	if c.Out != "" && c.Old != nil {
		b, err := os.ReadFile(out)
		if err != nil || !bytes.Equal(b, c.Old) {
			return fmt.Sprintf("the tool fails (%s) and the old output file changed (%v): %q, was %q", head(text, 200), err, head(string(b), 200), head(string(c.Old), 200)), "refused"
		}
	}
	return "", "refused"
}

func (c *hcase) has(a string) bool {
	for _, x := range c.Args {
		if x == a {
			return true
		}
	}
	return false
}

// runLimited runs the tool with limits of time and memory.
func runLimited(e *engine.Engine, dir string, args []string) (string, int, bool) {
	cmd := exec.Command("bash", append([]string{"-c", `ulimit -v 6000000; exec timeout 60 "$0" "$@"`, e.CLI}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB")
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	out := b.String()
	if err == nil {
		return out, 0, false
	}
	code := cmd.ProcessState.ExitCode()
	if code == 124 {
		return out + "\n(no answer within 60 s)", code, true
	}
	return out, code, code != 1 || strings.Contains(out, "goroutine ") && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:"))
}

// shrink makes the files smaller while the case fails in the same way.
func (c *hcase) shrink(e *engine.Engine, bad string) (*hcase, string) {
	end := time.Now().Add(60 * time.Second)
	fails := func(x *hcase) (string, bool) {
		if time.Now().After(end) {
			return "", false
		}
		if x.Reject != "" && !strings.Contains(bad, "crash") {
			// The file without the change must remain a valid one: not known here.
			return "", false
		}
		b, _ := x.run(e)
		return b, b != "" && head(strings.Split(b, "\n")[0], 40) == head(strings.Split(bad, "\n")[0], 40)
	}
	with := func(name string, b []byte) *hcase {
		x := *c
		x.Files = map[string][]byte{}
		for k, v := range c.Files {
			x.Files[k] = v
		}
		x.Files[name] = b
		return &x
	}
	for again := true; again && time.Now().Before(end); {
		again = false
		for _, name := range c.names() {
			// Subtrees
			if t, ok := parseTree(name, c.Files[name]); ok {
				for i := 0; ; i++ {
					nt, ok := without(t, i)
					if !ok {
						break
					}
					x := with(name, jsonOf(nt))
					if b, ok := fails(x); ok {
						c, bad, again, t = x, b, true, nt
						i--
					}
				}
				continue
			}
			// Lines, then characters
			for _, sep := range []string{"\n", ""} {
				l := strings.Split(string(c.Files[name]), sep)
				for size := len(l) / 2; size > 0; size /= 2 {
					for i := 0; i+size <= len(l); {
						rest := append(append([]string{}, l[:i]...), l[i+size:]...)
						x := with(name, []byte(strings.Join(rest, sep)))
						if b, ok := fails(x); ok {
							c, bad, again, l = x, b, true, rest
						} else {
							i += size
						}
					}
				}
			}
		}
	}
	return c, bad
}

func parseTree(name string, b []byte) (any, bool) {
	var t any
	if json.Unmarshal(b, &t) == nil {
		return t, true
	}
	if strings.HasSuffix(name, ".json") {
		return nil, false
	}
	return t, yaml.Unmarshal(b, &t) == nil
}

func jsonOf(t any) []byte {
	b, err := json.MarshalIndent(t, "", " ")
	if err != nil {
		panic(err)
	}
	return b
}

func copyTree(t any) any {
	switch t := t.(type) {
	case map[string]any:
		m := make(map[string]any, len(t))
		for k, v := range t {
			m[k] = copyTree(v)
		}
		return m
	case []any:
		l := make([]any, len(t))
		for i, v := range t {
			l[i] = copyTree(v)
		}
		return l
	}
	return t
}

// spot is a place in a tree.
type spot struct {
	m   map[string]any
	k   string
	l   *[]any
	i   int
	put func(v any)
}

func (s spot) get() any {
	if s.m != nil {
		return s.m[s.k]
	}
	return (*s.l)[s.i]
}

func (s spot) set(v any) {
	if s.m != nil {
		s.m[s.k] = v
		return
	}
	(*s.l)[s.i] = v
}

func (s spot) del() {
	if s.m != nil {
		delete(s.m, s.k)
		return
	}
	s.put(append(append([]any{}, (*s.l)[:s.i]...), (*s.l)[s.i+1:]...))
}

// spots lists the places of a tree, in a fixed order.
func spots(t any, put func(v any)) []spot {
	var out []spot
	switch t := t.(type) {
	case map[string]any:
		var keys []string
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			out = append(out, spot{m: t, k: k})
			out = append(out, spots(t[k], func(v any) { t[k] = v })...)
		}
	case []any:
		for i := range t {
			out = append(out, spot{l: &t, i: i, put: put})
			out = append(out, spots(t[i], func(v any) { t[i] = v })...)
		}
	}
	return out
}

// without removes the i-th place.
func without(t any, i int) (any, bool) {
	n := copyTree(t)
	s := spots(n, func(v any) { n = v })
	if i >= len(s) {
		return nil, false
	}
	s[i].del()
	return n, true
}

var badRefs = []string{"", "#", "#/", "/", "#/components", "#/components/", "#/components/schemas", "#/components/schemas/", "#/components/schemas/nothere", "#/components/messages/nothere",
	"#/channels/", "#/channels/nothere", "#/channels/nothere/messages/m", "#/operations/", "#/components/nothere/x", "nothere.yaml", "nothere.yaml#/components/schemas/a", "#//", "##", "#/components/schemas//", "components/schemas/a",
	"#/components/schemas/a/b/c/d", "http://example.com/a.yaml#/x", "./asyncapi.yaml#/components", "#/components/messages/x/payload", "#/components/operations/x", "#/components/parameters/x", "#/components/replies/x", "%", "#/%zz", "\x00", "#/components/channels/x/messages/y"}

var values = []any{nil, true, false, 0.0, -1.0, 1e300, 2.5, "", "x", "object", "array", "string", "integer", []any{}, map[string]any{}, []any{nil}, []any{map[string]any{}}, map[string]any{"": nil}, map[string]any{"$ref": ""}, "\n", "`", "*/", "{a}/{b}",
	[]any{"a", nil, 1.0}, map[string]any{"type": "object", "properties": map[string]any{"a": nil}}, map[string]any{"allOf": []any{nil}}, "date-time", 9007199254740993.0, strings.Repeat("long ", 3000)}

// refKind is the kind of the target of a reference.
func refKind(ref string) string {
	p := strings.Split(ref[strings.Index(ref, "#")+1:], "/")
	switch {
	case len(p) >= 5 && p[1] == "components" && p[2] == "messages":
		return "schemas"
	case len(p) >= 4 && p[1] == "components":
		return p[2]
	case len(p) == 5 && p[1] == "channels":
		return "messages"
	case len(p) > 5 && p[1] == "channels":
		return "schemas"
	case len(p) > 1:
		return p[1]
	}
	return ""
}

var fields = []string{"allOf", "anyOf", "oneOf", "items", "properties", "additionalProperties", "traits", "messages", "reply", "channel", "address", "correlationId", "payload", "headers", "$ref", "type", "required", "enum", "const", "not", "contains", "patternProperties", "x-go-type", "x-go-type-import", "bindings", "tags", "externalDocs", "servers", "security", "parameters", "if", "examples", "location", "operationId", "message", "publish", "subscribe", "components", "definitions", "address", "action", "replyTo", "tag", "additionalItems", "dependencies", "variables", "components", "info", "schema", "channels", "operations", "defaultContentType", "contentType", "schemas", "correlationIds", "messageTraits", "operationTraits", "securitySchemes", "schemaFormat", "default", "name", "title", "x-omitempty", "x-ignore"}

// mutate changes the tree of a document.
func mutate(r *spec.Rand, t any) (any, string) {
	s := spots(t, func(v any) { t = v })
	if len(s) == 0 {
		return spec.Pick(r, values), "another document"
	}
	p := s[r.N(len(s))]
	at := p.k
	if p.m == nil {
		at = fmt.Sprintf("[%d]", p.i)
	}
	var refs []spot
	for _, x := range s {
		if x.k == "$ref" {
			refs = append(refs, x)
		}
	}
	var objs []spot
	for _, x := range s {
		if _, ok := x.get().(map[string]any); ok {
			objs = append(objs, x)
		}
	}
	var lists []spot
	for _, x := range s {
		if _, ok := x.get().([]any); ok {
			lists = append(lists, x)
		}
	}
	k := r.N(22)
	switch {
	case k >= 20 && len(lists) > 0:
		// Elements that are null, empty or there twice, at several places of a list.
		x := lists[r.N(len(lists))]
		l := append([]any{}, x.get().([]any)...)
		for n := 1 + r.N(3); n > 0; n-- {
			var v any
			if len(l) > 0 && r.P(30) {
				v = copyTree(l[r.N(len(l))])
			} else if r.P(20) {
				v = map[string]any{}
			}
			i := r.N(len(l) + 1)
			l = append(l[:i], append([]any{v}, l[i:]...)...)
		}
		x.set(l)
		return t, fmt.Sprintf("list %s with other elements", x.k)
	case k < 2:
		p.del()
		return t, "delete " + at
	case k < 5:
		v := spec.Pick(r, values)
		p.set(copyTree(v))
		return t, fmt.Sprintf("replace %s by %s", at, head(string(jsonOf(v)), 60))
	case k < 7 && len(refs) > 0:
		x := refs[r.N(len(refs))]
		v := spec.Pick(r, badRefs)
		if r.P(40) {
			v, _ = refs[r.N(len(refs))].get().(string)
		}
		x.set(v)
		return t, fmt.Sprintf("reference %q", v)
	case k < 9 && len(objs) > 0:
		// A reference to anything in the document: cycles and other kinds.
		x := objs[r.N(len(objs))]
		v := anyPath(r, t)
		if r.P(50) {
			x.set(map[string]any{"$ref": v})
		} else {
			x.get().(map[string]any)["$ref"] = v
		}
		return t, fmt.Sprintf("a reference to %q in %s", v, x.k)
	case k < 11:
		q := s[r.N(len(s))]
		p.set(copyTree(q.get()))
		return t, fmt.Sprintf("copy %s to %s", q.k, at)
	case k < 12 && p.m != nil:
		v := p.get()
		p.del()
		n := spec.Pick(r, []string{"", "$ref", "x", "é", "0", "_", "\n", "allOf", "oneOf", "properties", "payload", "type", p.k + p.k, strings.ToUpper(p.k), "{" + p.k + "}", "a b/c"})
		p.m[n] = v
		return t, fmt.Sprintf("rename %s to %q", at, n)
	case k < 13 && len(objs) > 0:
		x := objs[r.N(len(objs))].get().(map[string]any)
		n := spec.Pick(r, fields)
		v := copyTree(spec.Pick(r, values))
		if r.P(30) {
			v = copyTree(p.get())
		}
		x[n] = v
		return t, fmt.Sprintf("add %s: %s", n, head(string(jsonOf(v)), 60))
	case k < 14:
		v := copyTree(p.get())
		for i := spec.Pick(r, []int{3, 50, 400}); i > 0; i-- {
			switch r.N(3) {
			case 0:
				v = map[string]any{"type": "object", "properties": map[string]any{"p": v}}
			case 1:
				v = map[string]any{"type": "array", "items": v}
			default:
				v = map[string]any{"allOf": []any{v}}
			}
		}
		p.set(v)
		return t, "nest " + at
	case k < 15:
		p.set(nil)
		return t, "null at " + at
	case k < 16 && len(objs) > 0:
		x := objs[r.N(len(objs))]
		x.get().(map[string]any)[spec.Pick(r, []string{"", "x", "extra", "payload", "headers", "reply"})] = nil
		return t, "an entry with null in " + x.k
	case k < 19 && len(objs) > 0:
		// Containers with null or empty objects where objects are expected.
		x := objs[r.N(len(objs))].get().(map[string]any)
		n := spec.Pick(r, fields)
		v := spec.Pick(r, []any{nil, []any{nil}, map[string]any{"a": nil}, []any{map[string]any{}}, map[string]any{"a": map[string]any{}}, map[string]any{}, []any{[]any{nil}}, map[string]any{"payload": nil, "headers": nil, "message": nil, "schema": nil, "items": nil, "address": nil, "channel": nil, "$ref": nil}})
		x[n] = copyTree(v)
		return t, fmt.Sprintf("add %s: %s", n, jsonOf(v))
	default:
		q := s[r.N(len(s))]
		a, b := copyTree(p.get()), copyTree(q.get())
		p.set(b)
		q.set(a)
		return t, fmt.Sprintf("exchange %s and %s", at, q.k)
	}
}

// anyPath gives a reference to something in the document.
func anyPath(r *spec.Rand, t any) string {
	p := "#"
	for i := 1 + r.N(5); i > 0; i-- {
		m, ok := t.(map[string]any)
		if !ok || len(m) == 0 {
			break
		}
		var keys []string
		for k := range m {
			if p != "#" || k == "components" || k == "channels" || k == "operations" || r.P(5) {
				keys = append(keys, k)
			}
		}
		if len(keys) == 0 {
			break
		}
		sort.Strings(keys)
		k := keys[r.N(len(keys))]
		p += "/" + k
		t = m[k]
	}
	return p
}

// base draws a valid document.
func base(r *spec.Rand) (*spec.Doc, map[string][]byte, string, []string) {
	c := spec.Rich()
	c.MaxOps, c.Props, c.Depth = 2, 3, 2
	c.Deps, c.Traits, c.Compose = 25, 30, 20
	d := spec.Generate(r.U(), c)
	if r.P(40) {
		d.Scatter(r.U(), spec.Pick(r, []int{10, 30, 60}))
	}
	files := map[string][]byte{}
	main := "asyncapi" + d.Emit.Ext()
	in := main
	for _, f := range d.Files() {
		n := f.Name
		if n == "" {
			n = main
		} else {
			in += ",./" + n
		}
		files[n] = f.Data
	}
	d.Opt.NoFormatting = false
	args := append([]string{"-i", in, "-o", "out.go", "-p", "generated"}, engine.Args(d.Opt)...)
	return d, files, main, args
}

func drawHostile(r *spec.Rand) *hcase {
	_, files, main, args := base(r)
	c := &hcase{Files: files, Args: args, Out: "out.go"}
	if r.P(70) {
		c.Old = []byte("package old\n\n// what was there before\n")
	}
	if r.P(80) {
		c.Args = append(c.Args, "-f")
	}
	target := main
	if n := c.names(); r.P(25) {
		target = n[r.N(len(n))]
	}
	switch k := r.N(10); {
	case k < 7:
		t, ok := parseTree(target, c.Files[target])
		if !ok {
			return nil
		}
		var why []string
		if m, is := t.(map[string]any); is && r.P(40) && m["channels"] != nil && m["operations"] != nil {
			decorate(r, m)
		}
		for i := 1 + r.N(3)*r.N(3); i > 0; i-- {
			var w string
			t, w = mutate(r, t)
			why = append(why, w)
		}
		c.Why, c.Class = strings.Join(why, "; "), "changed tree"
		c.Files[target] = jsonOf(t)
	case k < 9:
		c.Class = "changed bytes"
		b := append([]byte{}, c.Files[target]...)
		for i := 1 + r.N(3); i > 0; i-- {
			j := 0
			if len(b) > 0 {
				j = r.N(len(b))
			}
			switch r.N(7) {
			case 0:
				b = b[:j]
				c.Why += "truncate; "
			case 1:
				if j < len(b) {
					b[j] = byte(r.N(256))
				}
				c.Why += "change a byte; "
			case 2:
				x := spec.Pick(r, []string{"&a ", "*a", "!!binary ", "!!int ", "<<: ", "\t", "---\n", "...\n", "? ", "{", "}", "[", "]", "'", "\"", "\\", "\n", "- ", ": ", "#", "null", "~", "|", ">", "%", "@", "`", "\x00", "\xff\xfe", "\xef\xbb\xbf", "1e999", "0x", ".inf", ".nan"})
				b = append(b[:j:j], append([]byte(x), b[j:]...)...)
				c.Why += fmt.Sprintf("insert %q; ", x)
			case 3:
				k := j + r.N(40)
				if k > len(b) {
					k = len(b)
				}
				b = append(b[:j:j], b[k:]...)
				c.Why += "remove bytes; "
			case 4:
				// A line twice
				l := strings.SplitAfter(string(b), "\n")
				n := r.N(len(l))
				b = []byte(strings.Join(append(append(append([]string{}, l[:n]...), l[n]), l[n:]...), ""))
				c.Why += "a line twice; "
			case 5:
				b = spec.Pick(r, [][]byte{{}, []byte("null"), []byte("[]"), []byte("\"x\""), []byte("3"), []byte("asyncapi: 3.0.0"), []byte("asyncapi: 2.6.0\n"), []byte(`{"asyncapi":"3.0.0"}`), []byte("a: &a [*a]"), bytes.Repeat([]byte("["), 20000), bytes.Repeat([]byte("{\"a\":"), 20000),
					[]byte("a: &a [x,x,x,x,x,x,x,x,x]\nb: &b [*a,*a,*a,*a,*a,*a,*a,*a]\nc: &c [*b,*b,*b,*b,*b,*b,*b,*b]\nd: &d [*c,*c,*c,*c,*c,*c,*c,*c]\ne: &e [*d,*d,*d,*d,*d,*d,*d,*d]\nf: &f [*e,*e,*e,*e,*e,*e,*e,*e]\ng: [*f,*f,*f,*f,*f,*f,*f,*f]\n"), {0, 1, 2, 0xff}})
				c.Why += "another file; "
			default:
				l := strings.SplitAfter(string(b), "\n")
				n := r.N(len(l))
				l[n] = strings.Repeat(" ", r.N(6)) + strings.TrimLeft(l[n], " ")
				b = []byte(strings.Join(l, ""))
				c.Why += "another indentation; "
			}
		}
		c.Files[target] = b
	default:
		c.Class = "hostile options"
		a, why := hostileArgs(r, c)
		c.Args, c.Why = a, why
	}
	return c
}

// hostileArgs draws unusual arguments.
func hostileArgs(r *spec.Rand, c *hcase) ([]string, string) {
	a := append([]string{}, c.Args...)
	x := spec.Pick(r, [][]string{
		{"-i", ""}, {"-i", ","}, {"-i", c.Args[1] + ","}, {"-i", "," + c.Args[1]}, {"-i", "nothere.yaml"}, {"-i", "adir"}, {"-i", c.Args[1] + ",nothere.yaml"}, {"-i", c.Args[1] + "," + c.Args[1]}, {"-i", "out.go"}, {"-i", "\""}, {"-i", c.Args[1] + ",adir"},
		{"-o", ""}, {"-o", "adir"}, {"-o", "nothere/x.go"}, {"-o", "/dev/null/x"}, {"-o", "a\x01b"},
		{"-p", ""}, {"-p", "1x"}, {"-p", "a b"}, {"-p", "func"}, {"-p", "x\n}"}, {"-p", "é"}, {"-p", "x // y"}, {"-p", "{{.}}"},
		{"-g", ""}, {"-g", ","}, {"-g", "types,"}, {"-g", "Types"}, {"-g", "types,types"}, {"-g", "user,user,application"}, {"-g", "everything"}, {"-g", " types"},
		{"-c", ""}, {"-c", "Snake"}, {"-c", "pascal"}, {"-c", "\n"}, {"-n", ""}, {"-n", "Camel"}, {"-n", "snake"}, {"-n", "camel "},
		{"--unknown"}, {"extra"}, {"-z"}, {"--force-pointers=maybe"}, {"--help"}, {"-i"}, {"-f=x"}, {"--", "x"}, {"--ignore-string-format=2"},
	})
	switch x[0] {
	case "-o":
		c.Out = ""
	case "--help", "-h":
		c.Out = ""
	}
	if x[0] == "-i" && len(x) > 1 {
		a = append([]string{"-i", x[1]}, a[2:]...)
	} else {
		a = append(a, x...)
	}
	if r.P(60) {
		// the layout matters for the name of the package
		var b []string
		for _, y := range a {
			if y != "-f" {
				b = append(b, y)
			}
		}
		a = b
	}
	return a, fmt.Sprintf("arguments %q", x)
}

// place is a place of a v3 document that can hold references of a kind.
type place struct {
	at   []string
	put  func(x map[string]any, r any)
	name string
	kind string
	objs []map[string]any
}

// places lists the places of a v3 document for references.
func places(m map[string]any) []place {
	objs := func(keys ...string) []map[string]any {
		t := []any{m}
		for _, k := range keys {
			var next []any
			for _, x := range t {
				x, _ := x.(map[string]any)
				if k == "*" {
					var names []string
					for n := range x {
						names = append(names, n)
					}
					sort.Strings(names)
					for _, n := range names {
						next = append(next, x[n])
					}
				} else if x[k] != nil {
					next = append(next, x[k])
				}
			}
			t = next
		}
		var l []map[string]any
		for _, x := range t {
			if x, ok := x.(map[string]any); ok && x["$ref"] == nil {
				l = append(l, x)
			}
		}
		return l
	}
	list := func(name string) func(x map[string]any, r any) {
		return func(x map[string]any, r any) {
			l, _ := x[name].([]any)
			x[name] = append(append([]any{}, l...), r)
		}
	}
	field := func(name string) func(x map[string]any, r any) {
		return func(x map[string]any, r any) { x[name] = r }
	}
	entry := func(name string) func(x map[string]any, r any) {
		return func(x map[string]any, r any) {
			e, _ := x[name].(map[string]any)
			n := map[string]any{"zz": r}
			for k, v := range e {
				n[k] = v
			}
			x[name] = n
		}
	}
	var all []place
	for _, at := range [][]string{{"channels", "*"}, {"operations", "*"}, {"components", "messages", "*"}, {"channels", "*", "messages", "*"}, {"components", "channels", "*"}, {"components", "operations", "*"}} {
		all = append(all, place{at, list("tags"), "tags", "tags", nil}, place{at, field("externalDocs"), "externalDocs", "externalDocs", nil})
		last := at[len(at)-2]
		all = append(all, place{at, field("bindings"), "bindings", strings.TrimSuffix(last, "s") + "Bindings", nil})
		switch last {
		case "messages":
			all = append(all, place{at, field("correlationId"), "correlationId", "correlationIds", nil}, place{at, list("traits"), "traits", "messageTraits", nil})
		case "operations":
			all = append(all, place{at, list("traits"), "traits", "operationTraits", nil}, place{at, list("security"), "security", "securitySchemes", nil}, place{at, field("reply"), "reply", "replies", nil}, place{at, list("messages"), "messages", "messages", nil})
		case "channels":
			all = append(all, place{at, list("servers"), "servers", "servers", nil}, place{at, entry("parameters"), "parameters", "parameters", nil}, place{at, entry("messages"), "messages", "messages", nil})
		}
	}
	for _, kind := range []string{"schemas", "servers", "channels", "operations", "messages", "securitySchemes", "serverVariables", "parameters", "correlationIds", "replies", "replyAddresses", "externalDocs", "tags", "operationTraits", "messageTraits", "serverBindings", "channelBindings", "operationBindings", "messageBindings"} {
		all = append(all, place{[]string{"components"}, entry(kind), kind, kind, nil})
	}
	for _, kind := range []string{"channels", "operations", "servers"} {
		all = append(all, place{[]string{}, entry(kind), kind, kind, nil})
	}
	for i := range all {
		all[i].objs = objs(all[i].at...)
	}
	return all
}

// decorate adds tags, documentation, bindings, ... to a v3 document.
func decorate(r *spec.Rand, m map[string]any) {
	c, _ := m["components"].(map[string]any)
	if c == nil {
		c = map[string]any{}
		m["components"] = c
	}
	for i := 2 + r.N(8); i > 0; i-- {
		p := spec.Pick(r, places(m))
		if len(p.objs) == 0 || len(p.at) < 2 {
			continue
		}
		var v any = map[string]any{"description": "deco", "name": "deco", "url": "http://example.com", "host": "h", "location": "$message.header#/deco", "externalDocs": map[string]any{"$ref": "#/components/externalDocs/deco"}, "tags": []any{map[string]any{"name": "deco"}, map[string]any{"$ref": "#/components/tags/deco"}}}
		if r.P(70) {
			k, _ := c[p.kind].(map[string]any)
			if k == nil {
				k = map[string]any{}
				c[p.kind] = k
			}
			if k["deco"] == nil {
				k["deco"] = v
			}
			c["externalDocs"] = map[string]any{"deco": map[string]any{"url": "http://example.com"}}
			c["tags"] = map[string]any{"deco": map[string]any{"name": "x"}}
			v = map[string]any{"$ref": "#/components/" + p.kind + "/deco"}
		}
		p.put(p.objs[r.N(len(p.objs))], v)
	}
}

// drawReject draws a valid document with one change that must be refused.
func drawReject(r *spec.Rand) *hcase {
	d, files, main, args := base(r)
	c := &hcase{Files: files, Args: args, Out: "out.go", Old: []byte("package old\n")}
	c.Args = append(c.Args, "-f")
	tree := func(name string, f func(t map[string]any) bool) bool {
		t, ok := parseTree(name, c.Files[name])
		m, isMap := t.(map[string]any)
		if !ok || !isMap || !f(m) {
			return false
		}
		if d.Emit.JSON || r.P(50) {
			c.Files[name] = jsonOf(m)
		} else {
			b, err := yaml.Marshal(m)
			if err != nil {
				panic(err)
			}
			c.Files[name] = b
			if strings.HasSuffix(name, ".json") {
				c.Files[name] = jsonOf(m)
			}
		}
		return true
	}
	ok := true
	switch k := r.N(20); {
	case k < 5:
		c.Class = "version"
		ok = tree(main, func(m map[string]any) bool {
			v := spec.Pick(r, []any{nil, "", "1.0.0", "1.2.0", "4.0.0", "0.0.0", "x", "2", "3", "v3.0.0", "3.x.0", 3.0, 2.0, true, []any{"3.0.0"}, map[string]any{"v": "3.0.0"}, "missing", " ", "a.b.c", "-3.0.0", "20.0.0", "30.1.0", "33.0.0", "99999999999999999999.0.0", ".3.0", "0x3.0.0", "1.3.0", "3.0.1", "3.1.0", "2.6.1", "2.7.0", "3.0", "2.6", "3.0.0-rc1", " 3.0.0", "2.06.0", "2.6.0.0", "2.6.0\n", "3.0.00", "2.10.0", "2..0", "3.0.x"})
			if v == "missing" {
				delete(m, "asyncapi")
			} else {
				m["asyncapi"] = v
			}
			c.Why, c.Reject = fmt.Sprintf("version %#v", v), fmt.Sprintf("the AsyncAPI version %#v", v)
			return true
		})
	case k < 8 && d.V == 3:
		c.Class = "added reference"
		ok = tree(main, func(m map[string]any) bool {
			p := spec.Pick(r, places(m))
			l := p.objs
			if len(l) == 0 {
				return false
			}
			v := spec.Pick(r, []string{"#/components/" + p.kind + "/nothere", "#/components/nothere/x", "#/nothere/x", "nothere.yaml#/components/" + p.kind + "/x", "#/components/" + p.kind, "#/components/schemas/nothere", "#", "x", "#/channels/nothere", "#/channels/nothere/messages/x", "#/operations/nothere", "#/servers/nothere"})
			p.put(l[r.N(len(l))], map[string]any{"$ref": v})
			c.Why, c.Reject = fmt.Sprintf("%s with the reference %q in %s", p.name, v, strings.Join(p.at, "/")), fmt.Sprintf("the reference %q", v)
			return true
		})
	case k < 15:
		c.Class = "reference"
		name := main
		if n := c.names(); r.P(25) {
			name = n[r.N(len(n))]
		}
		ok = tree(name, func(m map[string]any) bool {
			var refs []spot
			for _, s := range spots(m, nil) {
				if _, is := s.get().(string); is && s.k == "$ref" {
					refs = append(refs, s)
				}
			}
			if len(refs) == 0 {
				return false
			}
			s := refs[r.N(len(refs))]
			old := s.get().(string)
			v := ""
			i := strings.Index(old, "#/")
			if i < 0 {
				return false
			}
			last := strings.LastIndex(old, "/")
			switch r.N(14) {
			case 0, 1, 2:
				v = old + "Nothere"
			case 3:
				v = old[:last+1] + strings.ToUpper(old[last+1:last+2]) + "nothere"
			case 4:
				v = "nothere.yaml" + old[i:]
			case 5:
				v = "./nothere/" + old[:i] + old[i:]
			case 6:
				v = spec.Pick(r, []string{"#", "#/", "/", "##", "#//", "x", "%", "nothere.yaml", "#/nothere", "#/components", "#/components/", " "})
			case 7:
				v = old[:i] + "#/nothere" + old[last:]
			case 8:
				v = old[:i] + "#/components/nothere" + old[last:]
			case 9:
				v = old[:last+1]
			case 10:
				if refKind(old) == "schemas" && strings.Count(old[i:], "/") > 3 {
					return false // a property: what is around it is a schema too
				}
				v = old[:last]
			case 11, 12:
				// Something else
				for _, x := range refs {
					if y := x.get().(string); refKind(y) != refKind(old) {
						v = y
						break
					}
				}
				if v == "" {
					return false
				}
			default:
				v = strings.Replace(old, "#/", "", 1)
			}
			s.set(v)
			c.Why, c.Reject = fmt.Sprintf("reference %q in place of %q", v, old), fmt.Sprintf("the reference %q", v)
			return true
		})
	case k < 18:
		c.Class = "option"
		x := spec.Pick(r, [][]string{{"-g", "everything"}, {"-g", "Types"}, {"-g", "types,app"}, {"-g", "types, user"}, {"-g", "types,"}, {"-g", "application user"}, {"-g", "client"}, {"-g", "user;types"},
			{"-c", "Snake"}, {"-c", "pascal"}, {"-c", ""}, {"-c", "snake,camel"}, {"-c", "SNAKE"}, {"-c", "default"}, {"-n", "Camel"}, {"-n", "snake"}, {"-n", "kebab"}, {"-n", ""}, {"-n", "pascal"}, {"-n", "none,camel"}})
		c.Args = append(c.Args, x...)
		c.Why, c.Reject = fmt.Sprintf("option %q", x), fmt.Sprintf("the option %q", x)
	default:
		c.Class = "file"
		switch r.N(5) {
		case 0:
			c.Args[1] = "nothere.yaml"
		case 1:
			c.Args[1] += ",./nothere.yaml"
		case 2:
			c.Files["other.yaml"] = []byte(map[int]string{2: "asyncapi: \"3.0.0\"\n", 3: "asyncapi: \"2.0.0\"\n"}[d.V])
			c.Args[1] = "other.txt"
			c.Files["other.txt"] = c.Files[main]
		case 3:
			b := c.Files[main]
			c.Files[main] = append(append([]byte{}, b...), []byte(spec.Pick(r, []string{"\n]", "\n}", "\n\"", "\n\t:\n"}))...)
		default:
			c.Files[main] = []byte(spec.Pick(r, []string{"", " ", "null", "[]", "\"asyncapi\"", "42", "# nothing\n", "{}"}))
		}
		c.Why, c.Reject = "files "+c.Args[1]+" "+strconv.Quote(head(string(c.Files[main]), 40)), "the input"
	}
	if !ok {
		return nil
	}
	return c
}
