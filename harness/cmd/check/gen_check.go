package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"verif/internal/engine"
	"verif/internal/rep"
	"verif/spec"
)

// genCheck is a check that looks at what the tool writes for a document.
type genCheck struct {
	sub    string
	cfg    spec.Config
	docs   int
	serial bool
	// pred checks one document in a directory of its own; it gives what is wrong.
	pred func(w *genWork, d *spec.Doc, seed uint64) string
	// tweak changes a generated document.
	tweak func(seed uint64, d *spec.Doc)
}

// genWork is what a predicate works with.
type genWork struct {
	e    *engine.Engine
	dir  string
	mu   sync.Mutex
	keys []string
	cls  map[string]int
	smp  []any
	n    int
}

func (w *genWork) cas(key string, classes ...string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n++
	if key != "" {
		w.keys = append(w.keys, key)
	}
	for _, c := range classes {
		w.cls[c]++
	}
}

func (w *genWork) sample(v any) { w.smp = append(w.smp, v) }

// path gives a path in the directory.
func (w *genWork) path(s string) string { return filepath.Join(w.dir, s) }

// put writes the files of a document in a subdirectory and gives the argument -i.
func (w *genWork) put(sub string, main string, files []spec.File) (string, error) {
	dir := w.path(sub)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	in := main
	for _, f := range files {
		name := f.Name
		if name == "" {
			name = main
		} else {
			in += ",./" + name
		}
		if err := os.WriteFile(filepath.Join(dir, name), f.Data, 0o644); err != nil {
			return "", err
		}
	}
	return in, nil
}

// tool runs the tool in a subdirectory and gives what it writes.
func (w *genWork) tool(sub, in, out string, args ...string) ([]byte, string) {
	dir := w.path(sub)
	o, code, crashed := w.e.RunCLI(dir, append([]string{"-i", in, "-o", out, "-p", "generated"}, args...)...)
	if code != 0 || crashed {
		return nil, fmt.Sprintf("the tool fails (status %d) with %q: %s", code, args, head(o, 3000))
	}
	b, err := os.ReadFile(filepath.Join(dir, out))
	if err != nil {
		return nil, fmt.Sprintf("the tool succeeds with %q but: %v", args, err)
	}
	return b, ""
}

type genReplay struct {
	Prop  string    `json:"property"`
	Sub   string    `json:"sub"`
	Seed  uint64    `json:"seed"`
	Text  string    `json:"text"`
	Doc   *spec.Doc `json:"doc"`
	Files []string  `json:"files"`
}

var workNr atomic.Int64

func (c genCheck) one(e *engine.Engine, d *spec.Doc, seed uint64) (*genWork, string) {
	w := &genWork{e: e, dir: filepath.Join(e.Scratch, fmt.Sprintf("work%d", workNr.Add(1))), cls: map[string]int{}}
	if err := os.MkdirAll(w.dir, 0o755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(w.dir)
	return w, c.pred(w, d, seed)
}

func (c genCheck) run(r *rep.Run) {
	if r.Only != "" && r.Only != c.sub {
		return
	}
	e := getEngine(r)
	if r.Fail != "" {
		b, err := os.ReadFile(r.Fail)
		var rd genReplay
		if err == nil {
			err = json.Unmarshal(b, &rd)
		}
		if err != nil || rd.Doc == nil {
			fmt.Println("replay file:", err)
			os.Exit(2)
		}
		if rd.Sub != c.sub {
			return
		}
		if _, bad := c.one(e, rd.Doc, rd.Seed); bad != "" {
			c.report(r, e, rd.Doc, rd.Seed, bad, 1)
		}
		return
	}
	base := rep.SubSeed(r.Seed, r.Prop+c.sub)
	type failure struct {
		d    *spec.Doc
		seed uint64
		text string
	}
	var mu sync.Mutex
	var fails []failure
	var wg sync.WaitGroup
	ch := make(chan uint64)
	jobs := e.Jobs
	if c.serial {
		jobs = 1
	}
	for j := 0; j < jobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for seed := range ch {
				d := spec.Generate(seed, c.cfg)
				if c.tweak != nil {
					c.tweak(seed, d)
				}
				w, bad := c.one(e, d, seed)
				r.Merge(w.n, w.keys, w.cls)
				for _, s := range w.smp {
					r.Sample(c.sub, s)
				}
				if bad != "" {
					mu.Lock()
					fails = append(fails, failure{d, seed, bad})
					mu.Unlock()
				}
			}
		}()
	}
	for i := 0; i < c.docs; i++ {
		mu.Lock()
		stop := len(fails) > 5
		mu.Unlock()
		if stop {
			break
		}
		ch <- base + uint64(i)
	}
	close(ch)
	wg.Wait()
	if len(fails) == 0 {
		return
	}
	sort.SliceStable(fails, func(i, j int) bool { return fails[i].d.Size() < fails[j].d.Size() })
	f := fails[0]
	// Shrink.
	end := time.Now().Add(60 * time.Second)
	for time.Now().Before(end) {
		progress := false
		for _, x := range f.d.Shrinks() {
			if time.Now().After(end) {
				break
			}
			if _, bad := c.one(e, x, f.seed); bad != "" && sameError(bad, f.text) {
				f.d, f.text, progress = x, bad, true
				break
			}
		}
		if !progress {
			break
		}
	}
	c.report(r, e, f.d, f.seed, f.text, len(fails))
}

func (c genCheck) report(r *rep.Run, e *engine.Engine, d *spec.Doc, seed uint64, bad string, total int) {
	var files []string
	for _, x := range d.Files() {
		files = append(files, string(x.Data))
	}
	text := fmt.Sprintf("sub-property %s failed for %d document(s); a small one (options %v):\n%s\n%s", c.sub, total, engine.Args(d.Opt), d.Text(), head(bad, 8000))
	b, _ := json.MarshalIndent(genReplay{r.Prop, c.sub, seed, bad, d, files}, "", " ")
	r.Case(d.ID, "failing document")
	r.Violation(c.sub+".json", text, b)
}
