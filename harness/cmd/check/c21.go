package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"regexp"
	"strings"
	"unicode"

	tplv2 "github.com/lerenn/asyncapi-codegen/pkg/codegen/generators/v2/templates"
	tplv3 "github.com/lerenn/asyncapi-codegen/pkg/codegen/generators/v3/templates"
	tpl "github.com/lerenn/asyncapi-codegen/pkg/utils/template"

	"verif/internal/rep"
	"verif/spec"
)

func init() { checks["C21"] = c21 }

func c21(r *rep.Run) {
	r.Rule(docRule + "names: a case is one string (drawn from letters, digits, separators, other characters, with words of all styles) given to the exported naming functions, non-trivial with at least one ASCII letter; distinct by string; document: a case is one operation, or the types of one, of a document with many unusual names, whose Go names are those of the reference naming function")
	names(r)
	c := spec.Rich()
	c.WeirdNames, c.Props, c.Corr, c.Params, c.Refs = 80, 7, 60, 50, 50
	naming := func(i int, d *spec.Doc) {
		d.Opt.Naming = []string{"", "none", "camel"}[i%3]
	}
	docCheck{sub: "api", check: "api", cfg: c, docs: r.N(150, 1200), n: 1, compile: true, tweak: naming}.run(r)
	docCheck{sub: "types", check: "types", cfg: c, docs: r.N(150, 1200), n: 1, compile: true, tweak: naming}.run(r)
}

type nameReplay struct {
	Sub  string `json:"sub"`
	Name string `json:"name"`
	Text string `json:"text"`
}

func names(r *rep.Run) {
	const sub = "names"
	if r.Only != "" && r.Only != sub {
		return
	}
	defer func() {
		_ = tpl.SetNamifyFn("none")
		_ = tpl.SetConvertKeyFn("none")
	}()
	if r.Fail != "" {
		var x nameReplay
		b, err := os.ReadFile(r.Fail)
		if err == nil {
			err = json.Unmarshal(b, &x)
		}
		if err != nil {
			fmt.Println("replay file:", err)
			os.Exit(2)
		}
		if bad := nameBad(x.Name, 1); bad != "" {
			r.Violation("names.json", bad, b)
		}
		return
	}
	rnd := spec.NewRand(rep.SubSeed(r.Seed, "names"))
	for i, n := 0, r.N(60000, 2000000); i < n; i++ {
		s := drawName(rnd)
		seed := rnd.U()
		key, class := s, []string{"name"}
		switch {
		case !hasLetter(s):
			key, class[0] = "", "no ASCII letter"
		case !ascii(s):
			class[0] = "name with other characters"
		case s[0] >= '0' && s[0] <= '9':
			class[0] = "name with a leading digit"
		}
		r.Case(key, class...)
		if i%(n/5) == 0 {
			r.Sample(sub, map[string]any{"name": s, "go name": tpl.DefaultNamifier(s)})
		}
		bad := nameBad(s, seed)
		if bad == "" {
			continue
		}
		// Shrink: remove characters.
		for again := true; again; {
			again = false
			rs := []rune(s)
			for j := range rs {
				t := string(rs[:j]) + string(rs[j+1:])
				if b := nameBad(t, seed); b != "" {
					s, bad, again = t, b, true
					break
				}
			}
		}
		b, _ := json.MarshalIndent(nameReplay{sub, s, bad}, "", " ")
		r.Violation("names.json", fmt.Sprintf("name %q: %s", s, bad), b)
		return
	}
}

func ascii(s string) bool {
	for _, c := range s {
		if c >= 0x80 {
			return false
		}
	}
	return true
}

func hasLetter(s string) bool {
	for i := 0; i < len(s); i++ {
		if c := s[i] | 0x20; c >= 'a' && c <= 'z' {
			return true
		}
	}
	return false
}

// alnum keeps the ASCII letters and digits.
func alnum(s string) string {
	return strings.Map(func(c rune) rune {
		if c < 0x80 && (unicode.IsLetter(c) || unicode.IsDigit(c)) {
			return c
		}
		return -1
	}, s)
}

func drawName(r *spec.Rand) string {
	words := []string{"user", "ID", "Id", "URL", "x", "X", "A", "aB", "message", "payload", "header", "headers", "9", "42", "v2", "HTTPServer", "json", "snakeCase", "type", "func", "S3", "3d"}
	seps := []string{"_", "-", ".", " ", "/", "__", "--", "#", "$", "@", ":", "é", "ß", "日", "\n", "~", "'", "+", "(", ")", "", "%", "İ", "ı", "ſ", "K", "\u0301", "²", "Ⅷ", "٣", "\x00", "\xff"}
	var b strings.Builder
	for i := r.N(6); i >= 0; i-- {
		switch r.N(5) {
		case 0:
			b.WriteString(spec.Pick(r, seps))
		case 1:
			b.WriteRune(rune(r.R(32, 126)))
		case 2:
			for k := r.N(4); k >= 0; k-- {
				b.WriteByte("abcXYZ019"[r.N(9)])
			}
		default:
			b.WriteString(spec.Pick(r, words))
		}
		if r.P(50) {
			b.WriteString(spec.Pick(r, seps))
		}
	}
	if r.P(2) {
		b.WriteRune(rune(r.N(0x3000)))
	}
	return b.String()
}

var braced = regexp.MustCompile(`\{[^{}]*\}`)

// nameBad checks the naming functions with one string.
func nameBad(s string, seed uint64) string {
	rnd := spec.NewRand(seed)
	var byScheme = map[string]string{}
	for _, scheme := range []string{"none", "camel"} {
		if err := tpl.SetNamifyFn(scheme); err != nil {
			return fmt.Sprintf("scheme %s: %v", scheme, err)
		}
		g := tpl.Namify(s)
		byScheme[scheme] = g
		if scheme == "none" && g != tpl.DefaultNamifier(s) {
			return fmt.Sprintf("Namify gives %q and DefaultNamifier %q", g, tpl.DefaultNamifier(s))
		}
		if want := (spec.Options{Naming: scheme}).GoName(s); g != want {
			return fmt.Sprintf("scheme %s: the Go name is %q, want %q", scheme, g, want)
		}
		// Without a letter, there is nothing to make a name of.
		if hasLetter(s) {
			if !token.IsIdentifier(g) || !ast.IsExported(g) {
				return fmt.Sprintf("scheme %s: %q is not an exported identifier", scheme, g)
			}
			l := alnum(s)
			l = strings.TrimLeft(l, "0123456789")
			if !strings.EqualFold(g, l) {
				return fmt.Sprintf("scheme %s: %q has not the letters and digits %q", scheme, g, l)
			}
		}
		if again := tpl.Namify(g); scheme == "none" && again != g {
			return fmt.Sprintf("scheme %s: the Go name of %q is %q", scheme, g, again)
		}
		// Parameters do not count, whatever their names.
		p := s
		if i := strings.LastIndexAny(s, "/._-"); i >= 0 {
			p = s[:i+1] + "{" + drawParam(rnd) + "}" + s[i+1:]
		} else {
			p += "{" + drawParam(rnd) + "}"
		}
		want := tpl.Namify(braced.ReplaceAllString(p, "_"))
		if got := tpl.NamifyWithoutParams(p); got != want {
			return fmt.Sprintf("scheme %s: NamifyWithoutParams(%q) is %q, want %q", scheme, p, got, want)
		}
		// A place in a message.
		if !strings.ContainsAny(s, "/~") && hasLetter(s) {
			deep := spec.Pick(rnd, []string{"", "header/", "a_b/", "payload/x.y/"})
			for _, part := range []string{"header", "payload"} {
				ref := "$message." + part + "#/" + deep + s
				want := map[string]string{"header": "Headers", "payload": "Payload"}[part]
				for _, x := range strings.Split(deep+s, "/") {
					want += "." + tpl.Namify(x)
				}
				for v, f := range map[string]func(string) string{"v2": tplv2.ReferenceToStructAttributePath, "v3": tplv3.ReferenceToStructAttributePath} {
					if got := f(ref); got != want {
						return fmt.Sprintf("scheme %s: %s: the field at %q is %q, want %q", scheme, v, ref, got, want)
					}
				}
			}
		}
	}
	for _, k := range []string{"none", "snake", "kebab", "camel"} {
		if err := tpl.SetConvertKeyFn(k); err != nil {
			return fmt.Sprintf("keys %s: %v", k, err)
		}
		g := tpl.ConvertKey(s)
		if want := (spec.Options{Convert: k}).Key(s); g != want {
			return fmt.Sprintf("keys %s: %q, want %q", k, g, want)
		}
		if k == "none" && g != s {
			return fmt.Sprintf("keys none: %q", g)
		}
		if !strings.EqualFold(alnum(g), alnum(s)) {
			return fmt.Sprintf("keys %s: %q has not the letters and digits of the key", k, g)
		}
		if ascii(s) && k != "none" && strings.ContainsAny(g, map[string]string{"snake": " -.", "kebab": " _.", "camel": " _-."}[k]) {
			return fmt.Sprintf("keys %s: %q has separators of another style", k, g)
		}
	}
	// Unknown schemes are refused, and nothing changes.
	for _, bad := range []string{s, s + "camel", "Camel", "snake ", ""} {
		if bad == "camel" || bad == "none" || bad == "snake" || bad == "kebab" {
			continue
		}
		if tpl.SetNamifyFn(bad) == nil || tpl.SetConvertKeyFn(bad) == nil {
			return fmt.Sprintf("the scheme %q is accepted", bad)
		}
	}
	if g := tpl.Namify(s); g != byScheme["camel"] {
		return fmt.Sprintf("a refused scheme changes the naming: %q", g)
	}
	return ""
}

func drawParam(r *spec.Rand) string {
	return spec.Pick(r, []string{"id", "user-id", "X", "a_b", "p.q", "éa", "1", "name with spaces"})
}
