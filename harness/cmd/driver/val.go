package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	pathpkg "path"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/spec"
)

// Obj is an object value: the declared properties that are present, and the
// additional ones.
type Obj struct {
	F   map[string]any
	Add map[string]any
}

// A value is a string, int64, float64, bool, time.Time, Date, []any or *Obj.

// Date is a date.
type Date struct{ Y, M, D int }

func (d Date) String() string { return fmt.Sprintf("%04d-%02d-%02d", d.Y, d.M, d.D) }

// ---- generation -----------------------------------------------------------------

// vgen says how values are generated.
type vgen struct {
	valid bool // respect the constraints of the schema
	near  bool // often at the limits of the constraints, on one side or the other
	opt   spec.Options
}

var oddStrings = []string{"", " ", "a", "é", "日本", "\u0000", "\n\t", `"`, `\`, "<&>", "null", "0", "{}", "\u2028", "😀", "%s%d", "a,b", "' OR", "true", "\x7f"}

func genString(t *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(t, "sk") {
	case 0:
		return rapid.SampledFrom(oddStrings).Draw(t, "s")
	case 1:
		return rapid.StringN(0, 12, -1).Draw(t, "s")
	default:
		return rapid.StringMatching(`[a-zA-Z0-9 _.-]{0,10}`).Draw(t, "s")
	}
}

// nearStr is a string that nearly satisfies, or just satisfies, the constraints.
func nearStr(t *rapid.T, e *spec.Eff) string {
	var l []string
	add := func(s string) { l = append(l, s, s, s+"x", " "+s, strings.ToUpper(s), cut1(s)) }
	if e.Const != nil {
		add(*e.Const)
	}
	for _, v := range e.Enum {
		add(v)
	}
	if len(e.Enum) > 0 {
		l = append(l, strings.Join(e.Enum, " "), "'"+e.Enum[0]+"'")
	}
	for _, n := range []*int{e.MinLen, e.MaxLen} {
		if n == nil {
			continue
		}
		for _, c := range []string{"x", "é", "😀"} {
			for i := *n - 1; i <= *n+1; i++ {
				if i >= 0 {
					l = append(l, strings.Repeat(c, i))
				}
			}
		}
	}
	l = append(l, "")
	return rapid.SampledFrom(l).Draw(t, "near")
}

func cut1(s string) string {
	r := []rune(s)
	if len(r) == 0 {
		return ""
	}
	return string(r[:len(r)-1])
}

// nearNum is a number at a bound or next to it.
func nearNum(t *rapid.T, e *spec.Eff, step float64) (float64, bool) {
	var l []float64
	for _, b := range []*float64{e.Min, e.Max, e.ExMin, e.ExMax} {
		if b != nil {
			l = append(l, *b, *b-step, *b+step, *b-step/2, *b+step/2, -*b)
		}
	}
	if len(l) == 0 {
		return 0, false
	}
	l = append(l, 0)
	return rapid.SampledFrom(l).Draw(t, "near"), true
}

func (g vgen) str(t *rapid.T, e *spec.Eff) string {
	if g.near && rapid.IntRange(0, 2).Draw(t, "near?") > 0 {
		return nearStr(t, e)
	}
	if g.valid {
		if e.Const != nil {
			return *e.Const
		}
		if len(e.Enum) > 0 {
			var l []string
			for _, v := range e.Enum {
				n := utf8.RuneCountInString(v)
				if (e.MinLen == nil || n >= *e.MinLen) && (e.MaxLen == nil || n <= *e.MaxLen) {
					l = append(l, v)
				}
			}
			return rapid.SampledFrom(l).Draw(t, "enum")
		}
	}
	s := genString(t)
	if g.valid {
		if e.MaxLen != nil {
			r := []rune(s)
			if len(r) > *e.MaxLen {
				s = string(r[:*e.MaxLen])
			}
		}
		if e.MinLen != nil {
			for utf8.RuneCountInString(s) < *e.MinLen {
				s += "x"
			}
		}
		if e.MinLen != nil && e.MaxLen != nil && utf8.RuneCountInString(s) > *e.MaxLen {
			s = string([]rune(s)[:*e.MaxLen])
		}
	}
	return s
}

var intSpecials = []int64{0, 1, -1, 2, 127, 128, 255, 256, 65535, 1 << 31, 1<<31 - 1, -1 << 31, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64}

func (g vgen) integer(t *rapid.T, e *spec.Eff) int64 {
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	if e.Format == "int32" {
		lo, hi = math.MinInt32, math.MaxInt32
	}
	if g.valid {
		b := func(f *float64, up, strict bool) {
			if f == nil {
				return
			}
			v := int64(math.Ceil(*f))
			if up {
				v = int64(math.Floor(*f))
			}
			if strict && float64(v) == *f {
				if up {
					v--
				} else {
					v++
				}
			}
			if up && v < hi {
				hi = v
			} else if !up && v > lo {
				lo = v
			}
		}
		b(e.Min, false, false)
		b(e.ExMin, false, true)
		b(e.Max, true, false)
		b(e.ExMax, true, true)
	}
	if g.near && rapid.IntRange(0, 2).Draw(t, "near?") > 0 {
		if f, ok := nearNum(t, e, 1); ok && math.Abs(f) < 1<<53 && (e.Format != "int32" || math.Abs(f) < 1<<31) {
			return int64(f)
		}
	}
	switch rapid.IntRange(0, 3).Draw(t, "ik") {
	case 0:
		v := rapid.SampledFrom(intSpecials).Draw(t, "i")
		if v >= lo && v <= hi {
			return v
		}
	case 1:
		v := rapid.Int64Range(-1000, 1000).Draw(t, "i")
		if v >= lo && v <= hi {
			return v
		}
	}
	return rapid.Int64Range(lo, hi).Draw(t, "i")
}

func (g vgen) number(t *rapid.T, e *spec.Eff) float64 {
	lo, hi := math.Inf(-1), math.Inf(1)
	ok := func(v float64) bool {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return false
		}
		if v < lo || v > hi {
			return false
		}
		if g.valid && (e.ExMin != nil && v <= *e.ExMin || e.ExMax != nil && v >= *e.ExMax) {
			return false
		}
		return e.Format != "float" || float64(float32(v)) == v
	}
	if g.valid {
		if e.Min != nil {
			lo = *e.Min
		}
		if e.ExMin != nil {
			lo = *e.ExMin
		}
		if e.Max != nil {
			hi = *e.Max
		}
		if e.ExMax != nil {
			hi = *e.ExMax
		}
	}
	if g.near && rapid.IntRange(0, 2).Draw(t, "near?") > 0 {
		if f, ok := nearNum(t, e, 0.5); ok && (e.Format != "float" || float64(float32(f)) == f) {
			return f + 0
		}
	}
	var v float64
	switch rapid.IntRange(0, 4).Draw(t, "nk") {
	case 0:
		v = rapid.SampledFrom([]float64{0, 1, -1, 0.5, 0.25, -0.125, 1e10, 1 << 24, 1<<24 + 2, 1e-3, 1e21, math.MaxFloat32, math.MaxFloat64, math.SmallestNonzeroFloat64}).Draw(t, "n")
	case 1:
		v = rapid.Float64().Draw(t, "n")
	default:
		v = float64(rapid.IntRange(-4000, 4000).Draw(t, "n")) / 8
	}
	if e.Format == "float" {
		v = float64(float32(v))
	}
	if v == 0 {
		v = 0 // no negative zero
	}
	if ok(v) {
		return v
	}
	// In the interval of the constraints.
	k := float64(rapid.IntRange(1, 400).Draw(t, "f"))
	for scale := 0.25; scale < 1e300; scale *= 2 {
		switch {
		case !math.IsInf(lo, 0) && !math.IsInf(hi, 0):
			v = lo + (hi-lo)*math.Mod(k, 7.5)/8
			k++
			if scale > 1e6 {
				v = hi
			}
		case !math.IsInf(lo, 0):
			v = lo + k*scale
		case !math.IsInf(hi, 0):
			v = hi - k*scale
		default:
			v = (k - 200) * scale
		}
		if e.Format == "float" {
			v = float64(float32(v))
		}
		if ok(v) {
			return v
		}
	}
	panic(fmt.Sprintf("no number for %+v", e.Schema))
}

func genTime(t *rapid.T) time.Time {
	s := rapid.Int64Range(-2208988800, 4102444800).Draw(t, "unix")
	ns := rapid.SampledFrom([]int64{0, 0, 1, 500000000, 123456789, 1000}).Draw(t, "ns")
	off := rapid.SampledFrom([]int{0, 0, 3600, -5 * 3600, 19800}).Draw(t, "off")
	tm := time.Unix(s, ns).UTC()
	if off != 0 {
		tm = tm.In(time.FixedZone("", off))
	}
	return tm
}

func genDate(t *rapid.T) Date {
	tm := time.Unix(rapid.Int64Range(-2208988800, 4102444800).Draw(t, "day"), 0).UTC()
	return Date{tm.Year(), int(tm.Month()), tm.Day()}
}

// kind is the kind of value of a schema.
func (g vgen) kind(e *spec.Eff) string {
	switch {
	case e.GoType != "":
		return "custom"
	case e.Type == "string" && e.Format == "date-time" && !g.opt.IgnoreFormat:
		return "time"
	case e.Type == "string" && e.Format == "date" && !g.opt.IgnoreFormat:
		return "date"
	}
	return e.Type
}

func (g vgen) val(t *rapid.T, e *spec.Eff, depth int) any {
	switch g.kind(e) {
	case "custom":
		if strings.HasSuffix(e.GoType, "UUID") {
			return fmt.Sprintf("%08x-0000-4000-8000-%012x", rapid.Uint32().Draw(t, "u1"), rapid.Uint32().Draw(t, "u2"))
		}
		return fmt.Sprintf("10.%d.%d.1", rapid.IntRange(0, 255).Draw(t, "b"), rapid.IntRange(0, 255).Draw(t, "b"))
	case "time":
		return genTime(t)
	case "date":
		return genDate(t)
	case "string":
		if e.Format == "date-time" && g.valid {
			return genTime(t).Format(time.RFC3339Nano)
		}
		if e.Format == "date" && g.valid {
			return genDate(t).String()
		}
		return g.str(t, e)
	case "integer":
		return g.integer(t, e)
	case "number":
		return g.number(t, e)
	case "boolean":
		return rapid.Bool().Draw(t, "b")
	case "array":
		n := rapid.IntRange(0, 3).Draw(t, "len")
		if depth <= 0 {
			n = 0
		}
		out := []any{}
		seen := map[string]bool{}
		it := e.Scope.Eff(e.Items)
		for i := 0; i < n; i++ {
			v := g.val(t, it, depth-1)
			if e.Unique && g.valid {
				if k := show(v); seen[k] {
					continue
				} else {
					seen[k] = true
				}
			}
			out = append(out, v)
			if g.near && rapid.IntRange(0, 3).Draw(t, "dup") == 0 {
				out = append(out, v)
			}
		}
		return out
	case "object":
		return g.obj(t, e, depth)
	}
	panic("no value for type " + e.Type)
}

func (g vgen) obj(t *rapid.T, e *spec.Eff, depth int) *Obj {
	o := &Obj{F: map[string]any{}}
	for _, p := range e.Props {
		pe := p.Scope.Eff(p.S)
		present := p.Req
		if !p.Req {
			present = depth > 0 && rapid.IntRange(0, 9).Draw(t, "has") < 6
		}
		if p.Req && g.near && (g.opt.ForcePtr || pe.Type == "array" && pe.GoType == "") && rapid.IntRange(0, 3).Draw(t, "miss") == 0 {
			present = false
		}
		if !present {
			continue
		}
		v := g.val(t, pe, depth-1)
		if l, ok := v.([]any); ok && len(l) == 0 && !p.Req && !g.near {
			continue // an empty optional array counts as absent
		}
		o.F[p.Name] = v
	}
	if e.Add != nil {
		o.Add = map[string]any{}
		ae := e.Scope.Eff(e.Add)
		n := rapid.IntRange(0, 3).Draw(t, "nadd")
		if depth <= 0 {
			n = 0
		}
		taken := map[string]bool{}
		keys := []string{"x", "x-extra", "a b", "é", "Z", "_", "0", "x.y", `"q"`, "AdditionalProperties"}
		for _, p := range e.Props {
			k := g.opt.Key(p.Name)
			taken[k] = true
			// names that differ from those of properties by case, or otherwise little, are additional
			keys = append(keys, strings.ToUpper(k), strings.ToLower(k), p.Name, spec.Namify(p.Name), k+"_", " "+k)
		}
		for i := 0; i < n; i++ {
			k := rapid.OneOf(rapid.SampledFrom(keys), rapid.StringMatching(`[a-zA-Z_]{1,8}`)).Draw(t, "key")
			if taken[k] {
				continue
			}
			o.Add[k] = g.val(t, ae, depth-1)
		}
	}
	return o
}

// ---- JSON -----------------------------------------------------------------------

// scalarText is the text of a scalar outside JSON (headers, parameters).
func scalarText(v any) string {
	switch v := v.(type) {
	case string:
		return v
	case time.Time:
		return v.Format(time.RFC3339Nano)
	case Date:
		return v.String()
	case int64:
		return strconv.FormatInt(v, 10)
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case bool:
		return strconv.FormatBool(v)
	}
	return ""
}

func jsonString(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	_ = e.Encode(s)
	return strings.TrimSuffix(b.String(), "\n")
}

// toJSON writes a value as JSON.
func toJSON(e *spec.Eff, v any, opt spec.Options) string {
	switch v := v.(type) {
	case string:
		return jsonString(v)
	case time.Time, Date:
		return `"` + scalarText(v) + `"`
	case []any:
		it := e.Scope.Eff(e.Items)
		var l []string
		for _, x := range v {
			l = append(l, toJSON(it, x, opt))
		}
		return "[" + strings.Join(l, ",") + "]"
	case *Obj:
		var l []string
		for _, p := range e.Props {
			if x, ok := v.F[p.Name]; ok {
				l = append(l, jsonString(opt.Key(p.Name))+":"+toJSON(p.Scope.Eff(p.S), x, opt))
			}
		}
		for _, k := range sorted(v.Add) {
			l = append(l, jsonString(k)+":"+toJSON(e.Scope.Eff(e.Add), v.Add[k], opt))
		}
		return "{" + strings.Join(l, ",") + "}"
	}
	return scalarText(v)
}

func sorted[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// show prints a value, canonically.
func show(v any) string {
	switch v := v.(type) {
	case *Obj:
		var l []string
		for _, k := range sorted(v.F) {
			l = append(l, strconv.Quote(k)+": "+show(v.F[k]))
		}
		for _, k := range sorted(v.Add) {
			l = append(l, "+"+strconv.Quote(k)+": "+show(v.Add[k]))
		}
		return "{" + strings.Join(l, ", ") + "}"
	case []any:
		var l []string
		for _, x := range v {
			l = append(l, show(x))
		}
		return "[" + strings.Join(l, ", ") + "]"
	case string:
		return strconv.Quote(v)
	case nil:
		return "absent"
	}
	return scalarText(v)
}

func parseJSON(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one JSON value")
	}
	return v, nil
}

// cmpJSON compares JSON with the expected value.
func cmpJSON(e *spec.Eff, want any, got any, opt spec.Options, path string) string {
	bad := func() string { return fmt.Sprintf("%s: JSON is %s, want %s", path, jsonText(got), show(want)) }
	switch w := want.(type) {
	case string:
		if g, ok := got.(string); !ok || g != w {
			return bad()
		}
	case Date:
		if g, ok := got.(string); !ok || g != w.String() {
			return bad()
		}
	case time.Time:
		g, ok := got.(string)
		if !ok {
			return bad()
		}
		tm, err := time.Parse(time.RFC3339, g)
		if err != nil || !tm.Equal(w) {
			return bad()
		}
	case bool:
		if g, ok := got.(bool); !ok || g != w {
			return bad()
		}
	case int64:
		g, ok := got.(json.Number)
		if !ok {
			return bad()
		}
		r, ok := new(big.Rat).SetString(g.String())
		if !ok || r.Cmp(new(big.Rat).SetInt64(w)) != 0 {
			return bad()
		}
	case float64:
		g, ok := got.(json.Number)
		if !ok {
			return bad()
		}
		f, err := strconv.ParseFloat(g.String(), 64)
		if e.Format == "float" {
			f32, err2 := strconv.ParseFloat(g.String(), 32)
			f, err = f32, err2
		}
		if err != nil || f != w {
			return bad()
		}
	case []any:
		g, ok := got.([]any)
		if !ok && !(got == nil && len(w) == 0) || len(g) != len(w) {
			return bad()
		}
		it := e.Scope.Eff(e.Items)
		for i := range w {
			if d := cmpJSON(it, w[i], g[i], opt, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case *Obj:
		g, ok := got.(map[string]any)
		if !ok {
			return bad()
		}
		used := map[string]bool{}
		for _, p := range e.Props {
			k := opt.Key(p.Name)
			used[k] = true
			x, has := w.F[p.Name]
			y, got := g[k]
			pe := p.Scope.Eff(p.S)
			omit := p.S.Omit
			switch {
			case !has && omit != nil && !*omit:
				// Written although there is nothing: null (or an empty value of a kind without pointer).
				if !got {
					return fmt.Sprintf("%s.%s: not written although x-omitempty is false", path, k)
				}
				if y != nil {
					return fmt.Sprintf("%s.%s: JSON is %s for an absent property", path, k, jsonText(y))
				}
			case !has:
				if got {
					return fmt.Sprintf("%s.%s: JSON is %s for an absent property", path, k, jsonText(y))
				}
			case !got:
				if omit != nil && *omit && p.Req && zero(x) {
					continue
				}
				return fmt.Sprintf("%s.%s: not written, want %s", path, k, show(x))
			default:
				if omit != nil && *omit && p.Req && !opt.ForcePtr && zeroScalar(x) {
					return fmt.Sprintf("%s.%s: zero value written although x-omitempty is true", path, k)
				}
				if d := cmpJSON(pe, x, y, opt, path+"."+k); d != "" {
					return d
				}
			}
		}
		for k, x := range w.Add {
			used[k] = true
			y, got := g[k]
			if !got {
				return fmt.Sprintf("%s.%s: additional property not written, want %s", path, k, show(x))
			}
			if d := cmpJSON(e.Scope.Eff(e.Add), x, y, opt, path+"."+k); d != "" {
				return d
			}
		}
		for _, k := range sorted(g) {
			if !used[k] {
				return fmt.Sprintf("%s: JSON has %q (%s) that is not in the message", path, k, jsonText(g[k]))
			}
		}
	default:
		return path + ": no comparison for " + fmt.Sprintf("%T", want)
	}
	return ""
}

func zeroScalar(v any) bool {
	switch v := v.(type) {
	case string:
		return v == ""
	case int64:
		return v == 0
	case float64:
		return v == 0
	case bool:
		return !v
	}
	return false
}

func zero(v any) bool {
	if l, ok := v.([]any); ok {
		return len(l) == 0
	}
	return zeroScalar(v)
}

func jsonText(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	return string(b)
}

// ---- Go values ------------------------------------------------------------------

var timeT = reflect.TypeOf(time.Time{})

// typeErr checks that the Go type suits the kind of the schema.
func (d *D) typeErr(t reflect.Type, e *spec.Eff, path string) string {
	k := d.vg.kind(e)
	bad := func() string {
		return fmt.Sprintf("%s: Go type %s for a schema of type %q format %q", path, t, e.Type, e.Format)
	}
	switch k {
	case "custom":
		want := e.GoType
		if e.GoName != "" {
			want = strings.ReplaceAll(want, e.GoName+".", pathpkg.Base(e.GoPath)+".")
		}
		if got := strings.NewReplacer("interface {}", "any", "[]interface {}", "[]any", "[]uint8", "[]byte").Replace(t.String()); got != want {
			return fmt.Sprintf("%s: Go type %s, want %s", path, t, e.GoType)
		}
	case "time":
		if !t.ConvertibleTo(timeT) {
			return bad()
		}
	case "date":
		if t.Kind() != reflect.Struct || !hasFields(t, "Year", "Month", "Day") {
			return bad()
		}
	case "string":
		if t.Kind() != reflect.String {
			return bad()
		}
	case "boolean":
		if t.Kind() != reflect.Bool {
			return bad()
		}
	case "integer":
		want := reflect.Int64
		if e.Format == "int32" {
			want = reflect.Int32
		}
		if t.Kind() != want {
			return bad()
		}
	case "number":
		want := reflect.Float64
		if e.Format == "float" {
			want = reflect.Float32
		}
		if t.Kind() != want {
			return bad()
		}
	case "array":
		if t.Kind() != reflect.Slice {
			return bad()
		}
	case "object":
		if t.Kind() != reflect.Struct {
			return bad()
		}
	}
	return ""
}

func hasFields(t reflect.Type, names ...string) bool {
	for _, n := range names {
		if _, ok := t.FieldByName(n); !ok {
			return false
		}
	}
	return true
}

// set fills a Go value.
func (d *D) set(rv reflect.Value, e *spec.Eff, v any, path string) string {
	if s := d.typeErr(rv.Type(), e, path); s != "" {
		return s
	}
	switch v := v.(type) {
	case string:
		if e.GoType != "" {
			u, ok := rv.Addr().Interface().(encoding.TextUnmarshaler)
			if !ok {
				return path + ": custom type is not a TextUnmarshaler"
			}
			if err := u.UnmarshalText([]byte(v)); err != nil {
				return path + ": " + err.Error()
			}
			return ""
		}
		rv.SetString(v)
	case time.Time:
		rv.Set(reflect.ValueOf(v).Convert(rv.Type()))
	case Date:
		rv.FieldByName("Year").SetInt(int64(v.Y))
		rv.FieldByName("Month").SetInt(int64(v.M))
		rv.FieldByName("Day").SetInt(int64(v.D))
	case bool:
		rv.SetBool(v)
	case int64:
		rv.SetInt(v)
	case float64:
		rv.SetFloat(v)
	case []any:
		it := e.Scope.Eff(e.Items)
		s := reflect.MakeSlice(rv.Type(), len(v), len(v))
		for i, x := range v {
			if r := d.setPtr(s.Index(i), it, x, fmt.Sprintf("%s[%d]", path, i)); r != "" {
				return r
			}
		}
		rv.Set(s)
	case *Obj:
		for _, p := range e.Props {
			f := rv.FieldByName(d.doc.Opt.GoName(p.Name))
			if !f.IsValid() {
				return fmt.Sprintf("%s: %s has no field %s for property %q", path, rv.Type(), d.doc.Opt.GoName(p.Name), p.Name)
			}
			x, ok := v.F[p.Name]
			if !ok {
				if !p.Req && !nilable(f) {
					return fmt.Sprintf("%s: optional property %q has the type %s, its absence cannot be told", path, p.Name, f.Type())
				}
				continue
			}
			if r := d.setPtr(f, p.Scope.Eff(p.S), x, path+"."+p.Name); r != "" {
				return r
			}
		}
		if e.Add != nil {
			f := rv.FieldByName("AdditionalProperties")
			if !f.IsValid() || f.Kind() != reflect.Map {
				return path + ": no AdditionalProperties map"
			}
			m := reflect.MakeMap(f.Type())
			for _, k := range sorted(v.Add) {
				x := reflect.New(f.Type().Elem()).Elem()
				if r := d.setPtr(x, e.Scope.Eff(e.Add), v.Add[k], path+".+"+k); r != "" {
					return r
				}
				m.SetMapIndex(reflect.ValueOf(k), x)
			}
			if len(v.Add) > 0 {
				f.Set(m)
			}
		}
	default:
		return fmt.Sprintf("%s: cannot set %T", path, v)
	}
	return ""
}

func nilable(f reflect.Value) bool {
	switch f.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
		return true
	}
	return false
}

func (d *D) setPtr(f reflect.Value, e *spec.Eff, v any, path string) string {
	if f.Kind() == reflect.Ptr {
		p := reflect.New(f.Type().Elem())
		if r := d.set(p.Elem(), e, v, path); r != "" {
			return r
		}
		f.Set(p)
		return ""
	}
	return d.set(f, e, v, path)
}

// cmp compares a Go value with the expected value.
func (d *D) cmp(rv reflect.Value, e *spec.Eff, v any, path string) string {
	if s := d.typeErr(rv.Type(), e, path); s != "" {
		return s
	}
	bad := func() string { return fmt.Sprintf("%s: got %s, want %s", path, goText(rv), show(v)) }
	switch v := v.(type) {
	case string:
		if e.GoType != "" {
			m, ok := rv.Interface().(encoding.TextMarshaler)
			if !ok {
				return path + ": custom type is not a TextMarshaler"
			}
			b, err := m.MarshalText()
			if err != nil || string(b) != v {
				return bad()
			}
			return ""
		}
		if rv.String() != v {
			return bad()
		}
	case time.Time:
		if !rv.Convert(timeT).Interface().(time.Time).Equal(v) {
			return bad()
		}
	case Date:
		if rv.FieldByName("Year").Int() != int64(v.Y) || rv.FieldByName("Month").Int() != int64(v.M) || rv.FieldByName("Day").Int() != int64(v.D) {
			return bad()
		}
	case bool:
		if rv.Bool() != v {
			return bad()
		}
	case int64:
		if rv.Int() != v {
			return bad()
		}
	case float64:
		if rv.Float() != v {
			return bad()
		}
	case []any:
		if rv.Len() != len(v) {
			return bad()
		}
		it := e.Scope.Eff(e.Items)
		for i, x := range v {
			if r := d.cmpPtr(rv.Index(i), it, x, fmt.Sprintf("%s[%d]", path, i)); r != "" {
				return r
			}
		}
	case *Obj:
		for _, p := range e.Props {
			f := rv.FieldByName(d.doc.Opt.GoName(p.Name))
			if !f.IsValid() {
				return fmt.Sprintf("%s: %s has no field %s for property %q", path, rv.Type(), d.doc.Opt.GoName(p.Name), p.Name)
			}
			x, ok := v.F[p.Name]
			if !ok {
				if p.Req {
					continue
				}
				if !nilable(f) {
					return fmt.Sprintf("%s: optional property %q has the type %s, its absence cannot be told", path, p.Name, f.Type())
				}
				if f.Kind() == reflect.Slice && f.Len() == 0 || f.IsNil() {
					continue
				}
				return fmt.Sprintf("%s.%s: got %s, want nothing", path, p.Name, goText(f))
			}
			if r := d.cmpPtr(f, p.Scope.Eff(p.S), x, path+"."+p.Name); r != "" {
				return r
			}
		}
		if e.Add != nil {
			f := rv.FieldByName("AdditionalProperties")
			if !f.IsValid() || f.Kind() != reflect.Map {
				return path + ": no AdditionalProperties map"
			}
			if f.Len() != len(v.Add) {
				return fmt.Sprintf("%s: additional properties are %s, want %s", path, goText(f), show(&Obj{Add: v.Add}))
			}
			for _, k := range sorted(v.Add) {
				x := f.MapIndex(reflect.ValueOf(k))
				if !x.IsValid() {
					return fmt.Sprintf("%s: additional property %q is missing", path, k)
				}
				if r := d.cmpPtr(x, e.Scope.Eff(e.Add), v.Add[k], path+".+"+k); r != "" {
					return r
				}
			}
		}
	default:
		return fmt.Sprintf("%s: cannot compare with %T", path, v)
	}
	return ""
}

func (d *D) cmpPtr(f reflect.Value, e *spec.Eff, v any, path string) string {
	if f.Kind() == reflect.Ptr {
		if f.IsNil() {
			return fmt.Sprintf("%s: got nil, want %s", path, show(v))
		}
		f = f.Elem()
	}
	return d.cmp(f, e, v, path)
}

func goText(v reflect.Value) string {
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	b, err := json.Marshal(v.Interface())
	s := string(b)
	if err != nil {
		s = fmt.Sprintf("%+v", v.Interface())
	}
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}
