// Package rep collects what a check covered, reports violations and writes the
// evidence file.
package rep

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Run is one execution of a check.
type Run struct {
	Prop  string
	Tier  string
	Seed  int64
	Verif string
	Only  string // only run this sub-property (replay)
	Fail  string // rapid fail file to replay

	mu         sync.Mutex
	start      time.Time
	evals      int
	nontrivial map[[16]byte]struct{}
	classes    map[string]int
	samples    []any
	perSample  map[string]int
	rules      []string
	violations int
	known      map[string]string
	knownHit   map[string]bool
	assume     []string
	extra      map[string]any
	subs       []string
}

// New reads the environment.
func New(prop string) *Run {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	r := &Run{
		Prop: prop, Tier: tier, Seed: seed, Verif: root, start: time.Now(),
		nontrivial: map[[16]byte]struct{}{}, classes: map[string]int{},
		perSample: map[string]int{}, extra: map[string]any{},
		known: map[string]string{}, knownHit: map[string]bool{},
		Only: os.Getenv("VERIF_ONLY"), Fail: os.Getenv("VERIF_FAILFILE"),
	}
	r.loadKnown()
	return r
}

// Thorough tells if the thorough tier was asked for.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks a count by tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// known_findings.txt lines:
//
//	finding: property=C04 id=<id> <text>
//	fixed: property=C04 <commit> <text>
func (r *Run) loadKnown() {
	b, err := os.ReadFile(filepath.Join(r.Verif, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+r.Prop+" ") {
			continue
		}
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && strings.HasPrefix(f[2], "id=") {
			r.known[strings.TrimPrefix(f[2], "id=")] = f[3]
		}
	}
}

// Known says if the finding is listed for this property.
func (r *Run) Known(id string) bool { _, ok := r.known[id]; return ok }

// KnownHit records that a listed finding was seen again.
func (r *Run) KnownHit(id string) {
	r.mu.Lock()
	r.knownHit[id] = true
	r.mu.Unlock()
}

// Rule documents how cases are made and counted.
func (r *Run) Rule(s string) { r.rules = append(r.rules, s) }

// Assume documents an assumption.
func (r *Run) Assume(s string) { r.assume = append(r.assume, s) }

// Extra adds a value to the coverage object.
func (r *Run) Extra(k string, v any) { r.mu.Lock(); r.extra[k] = v; r.mu.Unlock() }

// Case counts an evaluated case. key identifies it (distinctness); empty key
// means trivial.
func (r *Run) Case(key string, classes ...string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if key != "" {
		h := sha256.Sum256([]byte(key))
		var k [16]byte
		copy(k[:], h[:])
		r.nontrivial[k] = struct{}{}
	}
	for _, c := range classes {
		r.classes[c]++
	}
}

// Merge adds cases counted elsewhere; keys are hashes of the non-trivial ones.
func (r *Run) Merge(evals int, keys []string, classes map[string]int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals += evals
	for _, s := range keys {
		h := sha256.Sum256([]byte(s))
		var k [16]byte
		copy(k[:], h[:])
		r.nontrivial[k] = struct{}{}
	}
	for c, n := range classes {
		r.classes[c] += n
	}
}

// Class counts classes only.
func (r *Run) Class(classes ...string) {
	r.mu.Lock()
	for _, c := range classes {
		r.classes[c]++
	}
	r.mu.Unlock()
}

// Sample keeps up to 3 samples of each kind.
func (r *Run) Sample(kind string, v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.perSample[kind] >= 3 {
		return
	}
	r.perSample[kind]++
	r.samples = append(r.samples, map[string]any{"kind": kind, "case": v})
}

// ReplayPath gives a path for a replay file.
func (r *Run) ReplayPath(name string) string {
	d := filepath.Join(r.Verif, "replays")
	_ = os.MkdirAll(d, 0o755)
	return filepath.Join(d, r.Prop+"-"+name)
}

// Violation reports a violation with the given replay content.
func (r *Run) Violation(name, text string, replay []byte) {
	p := r.ReplayPath(name)
	_ = os.WriteFile(p, replay, 0o644)
	r.ViolationAt(text, p)
}

// ViolationAt reports a violation whose replay file exists already.
func (r *Run) ViolationAt(text, path string) {
	r.mu.Lock()
	r.violations++
	r.mu.Unlock()
	fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", text, r.Prop, path)
}

// Violations gives the count so far.
func (r *Run) Violations() int { r.mu.Lock(); defer r.mu.Unlock(); return r.violations }

// Finish writes the evidence and exits.
func (r *Run) Finish() {
	ids := make([]string, 0)
	for id := range r.known {
		if r.knownHit[id] {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.Prop, id, r.known[id])
	}
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.nontrivial),
		"rule":                strings.Join(r.rules, " | "),
		"samples":             r.samples,
		"classes":             r.classes,
		"sub_properties":      r.subs,
	}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "exploration",
		"coverage": cov, "assumptions": r.assume,
		"wall_s": time.Since(r.start).Seconds(), "violations": r.violations,
	}
	if r.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		os.Exit(3)
	}
	_ = os.MkdirAll(filepath.Join(r.Verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(r.Verif, "evidence", r.Prop+".json"), b, 0o644); err != nil {
		fmt.Println("evidence:", err)
		os.Exit(3)
	}
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %d violations, %.1fs\n",
		r.Prop, r.evals, len(r.nontrivial), r.violations, time.Since(r.start).Seconds())
	if r.violations > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// ---- rapid glue ------------------------------------------------------------

type tb struct {
	mu     sync.Mutex
	name   string
	failed bool
	logs   []string
}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return t.name }
func (t *tb) Logf(f string, a ...any) {
	t.mu.Lock()
	if len(t.logs) < 5000 {
		t.logs = append(t.logs, fmt.Sprintf(f, a...))
	}
	t.mu.Unlock()
}
func (t *tb) Log(a ...any)              { t.Logf("%s", fmt.Sprintln(a...)) }
func (t *tb) Skipf(f string, a ...any)  { t.Logf(f, a...); t.SkipNow() }
func (t *tb) Skip(a ...any)             { t.Log(a...); t.SkipNow() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.Fail() }
func (t *tb) Error(a ...any)            { t.Log(a...); t.Fail() }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.Fail(); runtime.Goexit() }
func (t *tb) Fail()                     { t.mu.Lock(); t.failed = true; t.mu.Unlock() }
func (t *tb) Failed() bool              { t.mu.Lock(); defer t.mu.Unlock(); return t.failed }

var initOnce sync.Once

func initFlags() {
	initOnce.Do(func() {
		testing.Init()
		_ = flag.CommandLine.Parse(nil)
	})
}

// RapidOnce runs a rapid property and gives the failure text, and the content of
// the fail file if there is one. Calls must not overlap.
func RapidOnce(name string, seed uint64, checks int, shrink time.Duration, failFile string, prop func(*rapid.T)) (ok bool, text string, fail []byte) {
	initFlags()
	if seed == 0 {
		seed = 1
	}
	_ = flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	_ = flag.Set("rapid.checks", strconv.Itoa(checks))
	_ = flag.Set("rapid.shrinktime", shrink.String())
	if failFile != "" {
		_ = flag.Set("rapid.failfile", failFile)
	}
	_ = os.RemoveAll(filepath.Join("testdata", "rapid", name))
	t := &tb{name: name}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(t, prop)
	}()
	<-done
	if !t.Failed() {
		return true, "", nil
	}
	text = strings.Join(t.logs, "\n")
	if len(text) > 12000 {
		text = text[:12000] + "\n..."
	}
	if m, _ := filepath.Glob(filepath.Join("testdata", "rapid", name, "*.fail")); len(m) > 0 {
		fail, _ = os.ReadFile(m[len(m)-1])
	}
	return false, text, fail
}

// SubSeed derives the seed of a sub-property.
func SubSeed(seed int64, name string) uint64 {
	s := uint64(seed)*1000003 + 12345
	for _, c := range name {
		s = s*131 + uint64(c)
	}
	return s
}

// Rapid runs a rapid property; the number of cases and the seed come from the run.
// Sub-properties run one after another.
func (r *Run) Rapid(name string, checks int, prop func(*rapid.T)) bool {
	if r.Only != "" && r.Only != name {
		return true
	}
	r.subs = append(r.subs, name)
	ok, text, fail := RapidOnce(name, SubSeed(r.Seed, name), checks, 15*time.Second, r.Fail, prop)
	if ok {
		return true
	}
	path := r.ReplayPath(name + ".fail")
	if fail == nil {
		fail = []byte(text)
	}
	_ = os.WriteFile(path, fail, 0o644)
	r.ViolationAt("sub-property "+name+" failed:\n"+text, path)
	return false
}
