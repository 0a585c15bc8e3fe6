package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/go-playground/validator/v10"
	"pgregory.net/rapid"

	"verif/internal/fake"
	"verif/spec"
)

func init() {
	checks["valid"] = func(d *D) {
		d.opRapid("valid", func(d *D, op *spec.OpInfo) bool {
			if !addressed(d, op) || op.Msg.Payload == nil {
				return false
			}
			k := d.vg.kind(op.Msg.Payload)
			return k == "object" || k == "array"
		}, d.validCase)
	}
}

// validCase decodes a message with values at the limits of the constraints and
// compares the verdict of the validator with the constraints of the document.
func (d *D) validCase(t *rapid.T) {
	op := d.op(t)
	r := d.rig(t, nil)
	defer r.close(t)
	rcv := r.side[other(op.Sender)]
	params := d.drawParams(t, op, []string{"a", "b"})
	box := &inbox{}
	a := opArgs(op, params)
	a.h = box.handler(op.Name)
	if err := errOf(must(t, rcv, op.Sub, a)); err != nil {
		t.Fatalf("%s: %v", op.Sub, err)
	}
	g := d.vg
	d.vg.near = rapid.IntRange(0, 3).Draw(t, "limits") > 0
	m := d.genMsg(t, op.Msg, !d.vg.near || rapid.IntRange(0, 1).Draw(t, "valid") > 0)
	d.vg = g
	bm := d.wire(op.Msg, m)
	r.b.Deliver(address(op, params), bm)
	fake.Eventually(stuck, func() bool { return box.count() > 0 || len(r.errs.all()) > 0 })
	if e := r.errs.all(); len(e) > 0 {
		t.Fatalf("the message %s is not decoded: %v", fake.MsgString(bm), e[0].err)
	}
	if box.count() != 1 {
		t.Fatalf("the message %s does not reach the handler", fake.MsgString(bm))
	}
	v := box.get(0).msg
	vl := &validation{d: d, t: t, v: validator.New()}
	for _, part := range []struct {
		name string
		e    *spec.Eff
		val  any
	}{{"Headers", op.Msg.Headers, m.H}, {"Payload", op.Msg.Payload, m.P}} {
		if part.e == nil {
			continue
		}
		if s := vl.visit(v.FieldByName(part.name), part.e, part.val, part.name); s != "" {
			t.Fatalf("%s\nmessage: %s", s, fake.MsgString(bm))
		}
	}
	key := ""
	cl := []string{fmt.Sprintf("v%d", d.doc.V)}
	if vl.checked > 0 {
		key = op.Name + m.String()
		cl = append(cl, "constrained")
	}
	if vl.refused > 0 {
		cl = append(cl, "refused")
	}
	d.cas(key, cl...)
	for k := range vl.kinds {
		d.class("constraint " + k)
	}
	if vl.refused > 0 {
		d.sample("refused", map[string]string{"operation": op.Name, "payload": cut(string(bm.Payload), 300)})
	} else if vl.checked > 0 {
		d.sample("accepted", map[string]string{"operation": op.Name, "payload": cut(string(bm.Payload), 300)})
	}
}

type validation struct {
	d                *D
	t                *rapid.T
	v                *validator.Validate
	checked, refused int
	kinds            map[string]bool
}

// visit validates every object of a value on its own.
func (vl *validation) visit(v reflect.Value, e *spec.Eff, val any, path string) string {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return ""
		}
		v = v.Elem()
	}
	g := vl.d.vg
	switch g.kind(e) {
	case "array":
		l, _ := val.([]any)
		it := e.Scope.Eff(e.Items)
		for i := 0; i < v.Len() && i < len(l); i++ {
			if s := vl.visit(v.Index(i), it, l[i], fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
	case "object":
		o, _ := val.(*Obj)
		if o == nil || v.Kind() != reflect.Struct {
			return ""
		}
		want := map[string]string{}
		vl.expect(want, e, o, "")
		got, bad := vl.run(v)
		if bad != "" {
			return fmt.Sprintf("validating %s (%s): %s", path, v.Type(), bad)
		}
		for k, why := range want {
			if _, ok := got[k]; !ok {
				return fmt.Sprintf("validating %s (%s): field %s is accepted although %s\nrefused: %v", path, v.Type(), k, why, keys(got))
			}
		}
		for k, tag := range got {
			if _, ok := want[k]; !ok {
				return fmt.Sprintf("validating %s (%s): field %s is refused by %q although its value satisfies the constraints", path, v.Type(), k, tag)
			}
		}
		if len(want) > 0 {
			vl.refused++
		}
		for _, p := range e.Props {
			x, ok := o.F[p.Name]
			f := v.FieldByName(vl.d.doc.Opt.GoName(p.Name))
			if ok && f.IsValid() {
				if s := vl.visit(f, p.Scope.Eff(p.S), x, path+"."+p.Name); s != "" {
					return s
				}
			}
		}
		if f := v.FieldByName("AdditionalProperties"); e.Add != nil && f.IsValid() && f.Kind() == reflect.Map {
			for k, x := range o.Add {
				mv := f.MapIndex(reflect.ValueOf(k))
				if mv.IsValid() {
					c := reflect.New(mv.Type()).Elem()
					c.Set(mv)
					if s := vl.visit(c, e.Scope.Eff(e.Add), x, path+"."+k); s != "" {
						return s
					}
				}
			}
		}
	}
	return ""
}

// run validates a structure and gives the refused fields.
func (vl *validation) run(v reflect.Value) (out map[string]string, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("the validator panics: %v", r)
		}
	}()
	out = map[string]string{}
	err := vl.v.Struct(v.Interface())
	if err == nil {
		return
	}
	var ve validator.ValidationErrors
	if !errors.As(err, &ve) {
		return nil, err.Error()
	}
	for _, f := range ve {
		ns := f.StructNamespace()
		out[ns[strings.Index(ns, ".")+1:]] = f.Tag() + "=" + f.Param()
	}
	return
}

// expect lists the fields that break a constraint of the document.
func (vl *validation) expect(out map[string]string, e *spec.Eff, o *Obj, path string) {
	opt := vl.d.doc.Opt
	for _, p := range e.Props {
		pe := p.Scope.Eff(p.S)
		name := path + opt.GoName(p.Name)
		v, ok := o.F[p.Name]
		if !ok {
			if p.Req {
				vl.mark("required")
				out[name] = "it is required and absent"
			}
			continue
		}
		if why := vl.broken(pe, v); why != "" {
			out[name] = why
		}
		if so, ok := v.(*Obj); ok {
			vl.expect(out, pe, so, name+".")
		}
	}
}

func (vl *validation) mark(k string) {
	if vl.kinds == nil {
		vl.kinds = map[string]bool{}
	}
	vl.kinds[k] = true
	vl.checked++
}

// broken tells which constraint a value breaks.
func (vl *validation) broken(e *spec.Eff, v any) string {
	num := func(f float64) string {
		if e.Min != nil {
			vl.mark("minimum")
			if f < *e.Min {
				return fmt.Sprintf("%v is less than %v", f, *e.Min)
			}
		}
		if e.Max != nil {
			vl.mark("maximum")
			if f > *e.Max {
				return fmt.Sprintf("%v is more than %v", f, *e.Max)
			}
		}
		if e.ExMin != nil {
			vl.mark("exclusiveMinimum")
			if f <= *e.ExMin {
				return fmt.Sprintf("%v is not more than %v", f, *e.ExMin)
			}
		}
		if e.ExMax != nil {
			vl.mark("exclusiveMaximum")
			if f >= *e.ExMax {
				return fmt.Sprintf("%v is not less than %v", f, *e.ExMax)
			}
		}
		return ""
	}
	switch v := v.(type) {
	case int64:
		return num(float64(v))
	case float64:
		return num(v)
	case string:
		if vl.d.vg.kind(e) == "custom" {
			return ""
		}
		n := utf8.RuneCountInString(v)
		if e.MinLen != nil {
			vl.mark("minLength")
			if n < *e.MinLen {
				return fmt.Sprintf("%q is shorter than %d", v, *e.MinLen)
			}
		}
		if e.MaxLen != nil {
			vl.mark("maxLength")
			if n > *e.MaxLen {
				return fmt.Sprintf("%q is longer than %d", v, *e.MaxLen)
			}
		}
		if len(e.Enum) > 0 {
			vl.mark("enum")
			in := false
			for _, x := range e.Enum {
				in = in || x == v
			}
			if !in {
				return fmt.Sprintf("%q is none of %q", v, e.Enum)
			}
		}
		if e.Const != nil {
			vl.mark("const")
			if v != *e.Const {
				return fmt.Sprintf("%q is not %q", v, *e.Const)
			}
		}
	case []any:
		if e.Unique {
			vl.mark("uniqueItems")
			seen := map[string]bool{}
			for _, x := range v {
				k := show(x)
				if seen[k] {
					return "the items are not unique: " + show(v)
				}
				seen[k] = true
			}
		}
	}
	return ""
}

func keys(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
