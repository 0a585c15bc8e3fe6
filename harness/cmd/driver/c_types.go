package main

import (
	"fmt"
	"reflect"
	"strings"

	"verif/spec"
)

func init() { checks["types"] = checkTypes }

// checkTypes: the fields of the generated types have the Go names, the JSON
// names, the types and the pointers that the document and the options say.
func checkTypes(d *D) {
	for _, op := range d.api {
		c, err := d.newCtl(op.Sender, nopBroker{}, ctlOpts{})
		if err != nil {
			d.fail("%s controller: %v", op.Sender, err)
			return
		}
		d.messageTypes(op.Name, c.msgType(op.Send), op.Msg)
		if op.Reply != nil {
			rc, err := d.newCtl(other(op.Sender), nopBroker{}, ctlOpts{})
			if err != nil {
				d.fail("%s controller: %v", other(op.Sender), err)
				return
			}
			d.messageTypes(op.Name+" reply", rc.msgType(op.Reply.SendReply), op.Reply.Msg)
		}
	}
}

func (d *D) messageTypes(name string, t reflect.Type, em *spec.EffMsg) {
	if t == nil || em == nil {
		return
	}
	for _, x := range []struct {
		field string
		e     *spec.Eff
	}{{"Headers", em.Headers}, {"Payload", em.Payload}} {
		if x.e == nil {
			continue
		}
		f, ok := t.FieldByName(x.field)
		if !ok {
			d.fail("%s: %s has no field %s", name, t, x.field)
			return
		}
		ft := f.Type
		if ft.Kind() == reflect.Ptr {
			ft = ft.Elem()
		}
		n := 0
		if s := d.walkType(ft, x.e, x.field, map[string]bool{}, &n); s != "" {
			d.fail("%s (%s): %s", name, t, s)
			return
		}
		key := ""
		if n > 0 {
			key = fmt.Sprint(name, x.field, n)
		}
		d.cas(key, fmt.Sprintf("fields of a %s", strings.ToLower(x.field)))
		if n > 2 {
			d.sample("type", map[string]any{"operation": name, "part": x.field, "type": fmt.Sprint(ft), "fields": n})
		}
	}
}

func (d *D) walkType(t reflect.Type, e *spec.Eff, path string, seen map[string]bool, n *int) string {
	if s := d.typeErr(t, e, path); s != "" {
		return s
	}
	o := d.doc.Opt
	switch d.vg.kind(e) {
	case "custom":
		if t.PkgPath() != e.GoPath {
			return fmt.Sprintf("%s: the type %s is from %q, want %q", path, t, t.PkgPath(), e.GoPath)
		}
		d.class("x-go-type")
	case "date", "time":
		d.class("date")
	case "array":
		return d.walkType(t.Elem(), e.Scope.Eff(e.Items), path+"[]", seen, n)
	case "object":
		// A recursive document does not end.
		k := fmt.Sprintf("%s %p", t, e.Schema)
		if seen[k] || strings.Count(path, ".") > 12 {
			return ""
		}
		seen[k] = true
		want := map[string]bool{}
		for _, p := range e.Props {
			f, ok := t.FieldByName(o.GoName(p.Name))
			if !ok {
				return fmt.Sprintf("%s: %s has no field %s for property %q", path, t, o.GoName(p.Name), p.Name)
			}
			want[f.Name] = true
			*n++
			at := path + "." + p.Name
			if j := strings.Split(f.Tag.Get("json"), ",")[0]; j != o.Key(p.Name) {
				return fmt.Sprintf("%s: the JSON name is %q, want %q", at, j, o.Key(p.Name))
			}
			pe := p.Scope.Eff(p.S)
			ft := f.Type
			ptr := ft.Kind() == reflect.Ptr
			if ptr {
				ft = ft.Elem()
			}
			isArray := pe.Type == "array"
			switch {
			case isArray && p.S.Ref == "":
				if ptr {
					return fmt.Sprintf("%s: an array has the type %s", at, f.Type)
				}
			case isArray: // named arrays are nil when absent, with or without a pointer
			case ptr != (o.ForcePtr || !p.Req):
				return fmt.Sprintf("%s: the type is %s; the property is required: %v, pointers are forced: %v", at, f.Type, p.Req, o.ForcePtr)
			case ptr && p.Req:
				d.class("forced pointer")
			}
			if o.Key(p.Name) != p.Name {
				d.class("converted key")
			}
			if s := d.walkType(ft, pe, at, seen, n); s != "" {
				return s
			}
		}
		if e.Add != nil {
			f, ok := t.FieldByName("AdditionalProperties")
			if !ok || f.Type.Kind() != reflect.Map || f.Type.Key().Kind() != reflect.String {
				return path + ": no AdditionalProperties map"
			}
			want[f.Name] = true
			if s := d.walkType(f.Type.Elem(), e.Scope.Eff(e.Add), path+".+", seen, n); s != "" {
				return s
			}
		}
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); !want[f.Name] && f.Name != "AdditionalProperties" {
				return fmt.Sprintf("%s: %s has a field %s, the schema has no such property", path, t, f.Name)
			}
		}
	}
	return ""
}
