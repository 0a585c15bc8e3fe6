// Package engine turns generated documents into compiled packages with the tool
// built from /repo, and drives these packages.
package engine

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/spec"
)

// Item is a document on its way to a compiled package.
type Item struct {
	Doc      *spec.Doc
	ID       string
	CLIErr   string // the tool failed
	BuildErr string // the generated code does not compile
	Dir      string
	Stage    string // "", "cli", "build"
	Crash    bool   // the tool crashed
}

// OK says if the package compiled.
func (it *Item) OK() bool { return it.CLIErr == "" && it.BuildErr == "" }

// Engine builds and runs.
type Engine struct {
	Scratch string
	CLI     string
	n       int
	Jobs    int
}

// New builds the tool from /repo's working tree.
func New() (*Engine, error) {
	s := os.Getenv("SCRATCH")
	if s == "" {
		return nil, errors.New("no SCRATCH")
	}
	e := &Engine{Scratch: s, CLI: filepath.Join(s, "cli"), Jobs: runtime.NumCPU()}
	if _, err := os.Stat(e.CLI); err == nil {
		return e, nil
	}
	cmd := exec.Command("go", "build", "-buildvcs=false", "-o", e.CLI, "./cmd/asyncapi-codegen")
	cmd.Dir = "/repo"
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building the tool: %v\n%s", err, out)
	}
	return e, nil
}

// parallel runs f for every index.
func (e *Engine) parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < e.Jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// RunCLI runs the tool with a limit; it gives the output and whether it ended well.
func (e *Engine) RunCLI(dir string, args ...string) (out string, code int, crashed bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, e.CLI, args...)
	cmd.Dir = dir
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	out = b.String()
	if ctx.Err() != nil {
		return out + "\n(no answer within 120 s)", -1, true
	}
	if err == nil {
		return out, 0, false
	}
	code = cmd.ProcessState.ExitCode()
	return out, code, code != 1 || strings.Contains(out, "goroutine ") && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:"))
}

// Args gives the arguments of the options.
func Args(o spec.Options) []string {
	var a []string
	if o.Convert != "" {
		a = append(a, "--convert-keys", o.Convert)
	}
	if o.Naming != "" {
		a = append(a, "--naming-scheme", o.Naming)
	}
	if o.ForcePtr {
		a = append(a, "--force-pointers")
	}
	if o.IgnoreFormat {
		a = append(a, "--ignore-string-format")
	}
	if o.NoFormatting {
		a = append(a, "--disable-formatting")
	}
	return a
}

// WriteDoc writes the files of a document and gives the -i argument.
func WriteDoc(dir string, d *spec.Doc) (string, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	main := "asyncapi" + d.Emit.Ext()
	in := main
	for _, f := range d.Files() {
		name := f.Name
		if name == "" {
			name = main
		} else {
			in += ",./" + name
		}
		if err := os.WriteFile(filepath.Join(dir, name), f.Data, 0o644); err != nil {
			return "", err
		}
	}
	return in, nil
}

// Generate runs the tool on every document and compiles the results.
func (e *Engine) Generate(docs []*spec.Doc) ([]*Item, error) {
	items := make([]*Item, len(docs))
	gen := filepath.Join(e.Scratch, "gen")
	if err := e.setup(); err != nil {
		return nil, err
	}
	for i, d := range docs {
		e.n++
		items[i] = &Item{Doc: d, ID: fmt.Sprintf("p%05d", e.n)}
		items[i].Dir = filepath.Join(gen, items[i].ID)
	}
	e.parallel(len(items), func(i int) { e.generate(items[i]) })
	// Compile.
	var pk []string
	for _, it := range items {
		if it.CLIErr == "" {
			pk = append(pk, "gencode/"+it.ID)
		}
	}
	if len(pk) > 0 {
		errs, err := e.build(pk)
		if err != nil {
			return nil, err
		}
		for _, it := range items {
			if m, ok := errs["gencode/"+it.ID]; ok && it.CLIErr == "" {
				it.BuildErr, it.Stage = m, "build"
			}
		}
	}
	return items, nil
}

func (e *Engine) generate(it *Item) {
	docDir := filepath.Join(e.Scratch, "docs", it.ID)
	in, err := WriteDoc(docDir, it.Doc)
	if err == nil {
		err = os.MkdirAll(it.Dir, 0o755)
	}
	if err != nil {
		it.CLIErr = err.Error()
		return
	}
	parts := it.Doc.Opt.Parts
	if len(parts) == 0 {
		parts = []string{""}
	}
	for k, p := range parts {
		out := filepath.Join(it.Dir, fmt.Sprintf("asyncapi%d.gen.go", k))
		args := []string{"-i", in, "-p", it.ID, "-o", out}
		if p != "" {
			args = append(args, "-g", p)
		}
		args = append(args, Args(it.Doc.Opt)...)
		o, code, crashed := e.RunCLI(docDir, args...)
		if code != 0 || crashed {
			it.CLIErr, it.Stage, it.Crash = strings.TrimSpace(o), "cli", crashed
			if it.CLIErr == "" {
				it.CLIErr = fmt.Sprint("exit status ", code)
			}
			return
		}
	}
}

// Clean removes the files of documents that are done.
func (e *Engine) Clean(items []*Item) {
	for _, it := range items {
		_ = os.RemoveAll(it.Dir)
		_ = os.RemoveAll(filepath.Join(e.Scratch, "docs", it.ID))
		_ = os.RemoveAll(filepath.Join(e.Scratch, "run", it.ID))
	}
}

// setup makes the module of generated code and the one of the driver.
func (e *Engine) setup() error {
	drv := filepath.Join(e.Scratch, "drv")
	if _, err := os.Stat(drv); err == nil {
		return nil
	}
	gen := filepath.Join(e.Scratch, "gen")
	if err := os.MkdirAll(gen, 0o755); err != nil {
		return err
	}
	repoMod, err := os.ReadFile("/repo/go.mod")
	if err != nil {
		return err
	}
	i := bytes.Index(repoMod, []byte("require"))
	mod := "module gencode\n\ngo 1.21\n\nrequire github.com/lerenn/asyncapi-codegen v0.0.0\n\n" + string(repoMod[i:])
	if err := os.WriteFile(filepath.Join(gen, "go.mod"), []byte(mod), 0o644); err != nil {
		return err
	}
	if out, err := exec.Command("cp", "-r", filepath.Join(e.Scratch, "harness"), drv).CombinedOutput(); err != nil {
		return fmt.Errorf("%v %s", err, out)
	}
	hm, err := os.ReadFile(filepath.Join(drv, "go.mod"))
	if err != nil {
		return err
	}
	hm = append(hm, []byte("\n\nrequire gencode v0.0.0\n\nreplace gencode => ../gen\n\n"+string(repoMod[i:]))...)
	return os.WriteFile(filepath.Join(drv, "go.mod"), hm, 0o644)
}

var pkgHead = regexp.MustCompile(`(?m)^# (\S+)`)

// build compiles packages; it gives the errors by package.
func (e *Engine) build(pk []string) (map[string]string, error) {
	out, err := e.goCmd(append([]string{"build"}, pk...)...)
	if err == nil {
		return nil, nil
	}
	errs := map[string]string{}
	heads := pkgHead.FindAllStringSubmatchIndex(out, -1)
	for i, h := range heads {
		end := len(out)
		if i+1 < len(heads) {
			end = heads[i+1][0]
		}
		errs[out[h[2]:h[3]]] = strings.TrimSpace(out[h[1]:end])
	}
	if len(errs) == 0 {
		// Errors of loading (syntax errors, wrong imports): find the packages one by one.
		var mu sync.Mutex
		e.parallel(len(pk), func(i int) {
			o, err := e.goCmd("build", pk[i])
			if err != nil {
				mu.Lock()
				errs[pk[i]] = strings.TrimSpace(o)
				mu.Unlock()
			}
		})
	}
	for p, m := range errs {
		if !strings.HasPrefix(p, "gencode/") {
			return nil, fmt.Errorf("building %s: %s", p, m)
		}
	}
	if len(errs) == 0 {
		return nil, fmt.Errorf("go build: %v\n%s", err, out)
	}
	return errs, nil
}

func (e *Engine) goCmd(args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(e.Scratch, "drv")
	out, err := cmd.CombinedOutput()
	return string(out), err
}

// ---- registration --------------------------------------------------------------

func expr(fs *token.FileSet, x ast.Node) string {
	var b bytes.Buffer
	_ = printer.Fprint(&b, fs, x)
	return b.String()
}

// register writes the file of the driver that gives access to a package.
func (e *Engine) register(it *Item, dir string) error {
	fs := token.NewFileSet()
	pkgs, err := parser.ParseDir(fs, it.Dir, nil, 0)
	if err != nil {
		return err
	}
	var msgs []string
	hasPaths, hasVersion := false, false
	ctl := map[string]bool{}
	type meth struct{ name, typ string }
	subs := map[string][]meth{}
	var paths []string
	for _, p := range pkgs {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv != nil || !strings.HasPrefix(d.Name.Name, "New") {
						continue
					}
					n := d.Name.Name
					if n == "NewAppController" || n == "NewUserController" {
						ctl[n] = true
					} else if d.Type.Params.NumFields() == 0 && d.Type.Results.NumFields() == 1 {
						msgs = append(msgs, n)
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.ValueSpec:
							for _, n := range s.Names {
								switch {
								case n.Name == "ChannelsPaths":
									hasPaths = true
								case n.Name == "AsyncAPIVersion":
									hasVersion = true
								case d.Tok == token.CONST && strings.HasSuffix(n.Name, "Path"):
									paths = append(paths, n.Name)
								}
							}
						case *ast.TypeSpec:
							i, ok := s.Type.(*ast.InterfaceType)
							if !ok || (s.Name.Name != "AppSubscriber" && s.Name.Name != "UserSubscriber") {
								continue
							}
							subs[s.Name.Name] = []meth{}
							for _, m := range i.Methods.List {
								ft, ok := m.Type.(*ast.FuncType)
								if !ok || len(m.Names) != 1 || len(ft.Params.List) != 2 {
									continue
								}
								t := expr(fs, ft.Params.List[1].Type)
								subs[s.Name.Name] = append(subs[s.Name.Name], meth{m.Names[0].Name, t})
							}
						}
					}
				}
			}
		}
	}
	sort.Strings(msgs)
	sort.Strings(paths)
	var b strings.Builder
	id := it.ID
	fmt.Fprintf(&b, "package main\n\nimport (\n\t\"context\"\n\t\"github.com/lerenn/asyncapi-codegen/pkg/extensions\"\n\t\"gencode/%s\"\n)\n\n", id)
	b.WriteString("var _ context.Context\nvar _ extensions.Logger\n")
	fmt.Fprintf(&b, "func init() { pkgs[%q] = &Pkg{\n", id)
	if hasVersion {
		fmt.Fprintf(&b, "Version: %s.AsyncAPIVersion,\n", id)
	}
	if hasPaths {
		fmt.Fprintf(&b, "Paths: %s.ChannelsPaths,\n", id)
	}
	b.WriteString("PathConsts: map[string]string{")
	for _, p := range paths {
		fmt.Fprintf(&b, "%q: %s.%s,", p, id, p)
	}
	b.WriteString("},\n")
	for _, side := range []string{"App", "User"} {
		if ctl["New"+side+"Controller"] {
			fmt.Fprintf(&b, "New%s: func(bc extensions.BrokerController, lg extensions.Logger, mws []extensions.Middleware, eh extensions.ErrorHandler) (any, error) {\n", side)
			fmt.Fprintf(&b, "var o []%s.ControllerOption\nif lg != nil { o = append(o, %s.WithLogger(lg)) }\nif mws != nil { o = append(o, %s.WithMiddlewares(mws...)) }\nif eh != nil { o = append(o, %s.WithErrorHandler(eh)) }\nc, err := %s.New%sController(bc, o...)\nif err != nil { return nil, err }\nreturn c, nil\n},\n", id, id, id, id, id, side)
		}
		if _, ok := subs[side+"Subscriber"]; ok {
			fmt.Fprintf(&b, "%sSub: func(h func(string, context.Context, any) error) any { return sub%s%s{h} },\n", side, side, id)
			fmt.Fprintf(&b, "Nil%sSub: %s.%sSubscriber(nil),\n", side, id, side)
		}
	}
	b.WriteString("Msgs: map[string]func() any{\n")
	for _, m := range msgs {
		fmt.Fprintf(&b, "%q: func() any { return %s.%s() },\n", strings.TrimPrefix(m, "New"), id, m)
	}
	b.WriteString("},\n} }\n")
	for _, side := range []string{"App", "User"} {
		ms, ok := subs[side+"Subscriber"]
		if !ok {
			continue
		}
		fmt.Fprintf(&b, "type sub%s%s struct { h func(string, context.Context, any) error }\n", side, id)
		for _, m := range ms {
			fmt.Fprintf(&b, "func (s sub%s%s) %s(ctx context.Context, msg %s.%s) error { return s.h(%q, ctx, msg) }\n", side, id, m.name, id, m.typ, m.name)
		}
	}
	return os.WriteFile(filepath.Join(dir, "reg_"+id+".go"), []byte(b.String()), 0o644)
}

// ---- driving -------------------------------------------------------------------

// Result is what the driver says about one package.
type Result struct {
	Evals    int            `json:"evals"`
	Keys     []string       `json:"keys"`
	Classes  map[string]int `json:"classes"`
	Samples  []Sample       `json:"samples"`
	Failed   bool           `json:"failed"`
	Text     string         `json:"text"`
	Known    []string       `json:"known"`
	Finished bool           `json:"finished"`

	Item  *Item  `json:"-"`
	Error string `json:"-"` // error of the check itself
}

// Sample is a sample case.
type Sample struct {
	Kind string `json:"kind"`
	Case any    `json:"case"`
}

// Driver builds a driver for the packages that compiled.
func (e *Engine) Driver(items []*Item, race bool) (string, error) {
	dir := filepath.Join(e.Scratch, "drv", "cmd", "driver")
	old, _ := filepath.Glob(filepath.Join(dir, "reg_*.go"))
	for _, f := range old {
		_ = os.Remove(f)
	}
	for _, it := range items {
		if !it.OK() {
			continue
		}
		if err := e.register(it, dir); err != nil {
			return "", err
		}
	}
	e.n++
	bin := filepath.Join(e.Scratch, fmt.Sprintf("driver%d", e.n))
	args := []string{"build", "-o", bin}
	if race {
		args = append(args, "-race")
	}
	out, err := e.goCmd(append(args, "./cmd/driver")...)
	if err != nil {
		return "", fmt.Errorf("building the driver: %v\n%s", err, out)
	}
	return bin, nil
}

// Drive runs a check on every package that compiled.
func (e *Engine) Drive(bin, check string, items []*Item, n int, seed int64, limit time.Duration) []*Result {
	var ok []*Item
	for _, it := range items {
		if it.OK() {
			ok = append(ok, it)
		}
	}
	res := make([]*Result, len(ok))
	// After some failures the verdict is known, and failures may be slow: the
	// rest is not driven.
	var fails atomic.Int32
	e.parallel(len(ok), func(i int) {
		if fails.Load() > 4 {
			res[i] = &Result{Item: ok[i]}
			return
		}
		res[i] = e.driveOne(bin, check, ok[i], n, seed, limit)
		if res[i].Failed || res[i].Error != "" {
			fails.Add(1)
		}
	})
	return res
}

// UnderTest recognises stack frames of the code under test.
var UnderTest = regexp.MustCompile(`(?m)^\s+(/repo/|\S*/gen/p\d+/)\S+\.go:\d+`)

func (e *Engine) driveOne(bin, check string, it *Item, n int, seed int64, limit time.Duration) *Result {
	dir := filepath.Join(e.Scratch, "run", it.ID)
	_ = os.MkdirAll(dir, 0o755)
	meta := filepath.Join(dir, "doc.json")
	b, _ := json.Marshal(it.Doc)
	_ = os.WriteFile(meta, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-pkg", it.ID, "-doc", meta, "-check", check,
		"-n", fmt.Sprint(n), "-seed", fmt.Sprint(seed), "-out", filepath.Join(dir, "result.json"))
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMAXPROCS=2")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	r := &Result{Item: it}
	rb, rerr := os.ReadFile(filepath.Join(dir, "result.json"))
	if rerr == nil {
		rerr = json.Unmarshal(rb, r)
	}
	r.Item = it
	if err == nil && rerr == nil && r.Finished {
		return r
	}
	txt := out.String()
	if ctx.Err() != nil {
		r.Error = fmt.Sprintf("driver of %s: no answer within %v\n%s", it.ID, limit, tail(txt, 3000))
		return r
	}
	i := strings.Index(txt, "panic: ")
	if j := strings.Index(txt, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if j := strings.Index(txt, "WARNING: DATA RACE"); j >= 0 && i < 0 {
		i = j
	}
	if i >= 0 {
		first := txt[i:]
		if k := strings.Index(first, "\n\ngoroutine "); k >= 0 {
			if k2 := strings.Index(first[k+2:], "\n\ngoroutine "); k2 >= 0 {
				first = first[:k+2+k2]
			}
		}
		if UnderTest.MatchString(first) && !strings.Contains(first, "out of memory") {
			r.Failed = true
			r.Text = "the code under test crashed the process:\n" + head(first, 4000)
			return r
		}
	}
	r.Error = fmt.Sprintf("driver of %s ended: %v %v\n%s", it.ID, err, rerr, tail(txt, 3000))
	return r
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return "...\n" + s[len(s)-n:]
	}
	return s
}
