// Command driver runs one check on one generated package. The engine adds a file
// for each package that fills pkgs.
package main

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"pgregory.net/rapid"

	"verif/internal/rep"
	"verif/spec"
)

// Pkg is the access to a generated package.
type Pkg struct {
	Version    string
	Paths      []string
	PathConsts map[string]string
	NewApp     newCtl
	NewUser    newCtl
	AppSub     newSub
	UserSub    newSub
	NilAppSub  any
	NilUserSub any
	Msgs       map[string]func() any
}

type newCtl = func(bc extensions.BrokerController, lg extensions.Logger, mws []extensions.Middleware, eh extensions.ErrorHandler) (any, error)
type newSub = func(h func(name string, ctx context.Context, msg any) error) any

var pkgs = map[string]*Pkg{}

// Result is read by the engine.
type Result struct {
	Evals    int            `json:"evals"`
	Keys     []string       `json:"keys"`
	Classes  map[string]int `json:"classes"`
	Samples  []sample       `json:"samples"`
	Failed   bool           `json:"failed"`
	Text     string         `json:"text"`
	Known    []string       `json:"known"`
	Finished bool           `json:"finished"`
}

type sample struct {
	Kind string `json:"kind"`
	Case any    `json:"case"`
}

// D drives one package.
type D struct {
	doc  *spec.Doc
	api  []*spec.OpInfo
	cand []*spec.OpInfo // operations the running check applies to
	p    *Pkg
	n    int
	seed int64
	vg   vgen

	mu   sync.Mutex
	res  Result
	keys map[string]bool
	kind map[string]int
}

var checks = map[string]func(*D){}

func main() {
	id := flag.String("pkg", "", "")
	doc := flag.String("doc", "", "")
	check := flag.String("check", "", "")
	n := flag.Int("n", 10, "")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", "", "")
	flag.Parse()
	d := &D{p: pkgs[*id], n: *n, seed: *seed, keys: map[string]bool{}, kind: map[string]int{}}
	d.res.Classes = map[string]int{}
	b, err := os.ReadFile(*doc)
	if err == nil {
		d.doc = &spec.Doc{}
		err = json.Unmarshal(b, d.doc)
	}
	f := checks[*check]
	if err != nil || d.p == nil || f == nil {
		fmt.Println("driver: bad arguments", err, d.p != nil, f != nil)
		os.Exit(2)
	}
	d.api = d.doc.API()
	d.vg = vgen{opt: d.doc.Opt}
	f(d)
	d.res.Finished = true
	for k := range d.keys {
		d.res.Keys = append(d.res.Keys, k)
	}
	b, err = json.Marshal(d.res)
	if err == nil {
		err = os.WriteFile(*out, b, 0o644)
	}
	if err != nil {
		fmt.Println("driver:", err)
		os.Exit(2)
	}
}

// cas counts a case; an empty key means trivial.
func (d *D) cas(key string, classes ...string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.res.Evals++
	if key != "" {
		h := sha256.Sum256([]byte(d.doc.ID + "\n" + key))
		d.keys[hex.EncodeToString(h[:8])] = true
	}
	for _, c := range classes {
		d.res.Classes[c]++
	}
}

func (d *D) class(classes ...string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, c := range classes {
		d.res.Classes[c]++
	}
}

func (d *D) sample(kind string, v any) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.kind[kind] >= 1 {
		return
	}
	d.kind[kind]++
	d.res.Samples = append(d.res.Samples, sample{kind, v})
}

func (d *D) fail(f string, a ...any) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.res.Failed {
		return
	}
	d.res.Failed = true
	d.res.Text = fmt.Sprintf(f, a...)
}

func (d *D) failed() bool { d.mu.Lock(); defer d.mu.Unlock(); return d.res.Failed }

// rapid runs n cases; a failure is shrunk and recorded.
func (d *D) rapid(name string, n int, prop func(t *rapid.T)) {
	if d.failed() || n == 0 {
		return
	}
	ok, text, _ := rep.RapidOnce(name, rep.SubSeed(d.seed, name), n, 5*time.Second, "", prop)
	if !ok {
		d.fail("%s: %s", name, clean(text))
	}
}

// clean drops the lines of rapid that do not help.
func clean(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "[rapid] draw sk:") || strings.HasPrefix(l, "To reproduce") {
			continue
		}
		out = append(out, l)
	}
	if len(out) > 120 {
		out = append(out[:60], append([]string{"..."}, out[len(out)-60:]...)...)
	}
	return strings.Join(out, "\n")
}
