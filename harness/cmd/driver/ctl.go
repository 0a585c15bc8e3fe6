package main

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"pgregory.net/rapid"

	"verif/internal/fake"
	"verif/spec"
)

// stuck is the delay after which a call that should return does not.
const stuck = 20 * time.Second

// ctl is a generated controller.
type ctl struct {
	d    *D
	side string // app, user
	v    reflect.Value
}

func other(side string) string {
	if side == "app" {
		return "user"
	}
	return "app"
}

type ctlOpts struct {
	lg  extensions.Logger
	mws []extensions.Middleware
	eh  extensions.ErrorHandler
}

func (d *D) newCtl(side string, bc extensions.BrokerController, o ctlOpts) (*ctl, error) {
	f := d.p.NewApp
	if side == "user" {
		f = d.p.NewUser
	}
	if f == nil {
		return nil, fmt.Errorf("no constructor of the %s controller", side)
	}
	c, err := f(bc, o.lg, o.mws, o.eh)
	if err != nil {
		return nil, err
	}
	return &ctl{d, side, reflect.ValueOf(c)}, nil
}

// args are the arguments a generated method may want, found by type.
type args struct {
	ctx    context.Context
	params map[string]string
	pinfo  []spec.ParamInfo
	addr   string
	msg    reflect.Value // message
	iface  any           // value for other interface parameters
	h      func(ctx context.Context, msg reflect.Value) error
}

var (
	ctxT = reflect.TypeOf((*context.Context)(nil)).Elem()
	errT = reflect.TypeOf((*error)(nil)).Elem()
)

// has says whether a method exists.
func (c *ctl) has(m string) bool { return c.v.MethodByName(m).IsValid() }

func isParams(t reflect.Type) bool {
	return t.Kind() == reflect.Struct && strings.HasSuffix(t.Name(), "Parameters")
}

// call calls a method; bad is a text when the method does not suit.
func (c *ctl) call(m string, a args) (out []reflect.Value, bad string) {
	f := c.v.MethodByName(m)
	if !f.IsValid() {
		return nil, fmt.Sprintf("the %s controller has no method %s", c.side, m)
	}
	t := f.Type()
	var in []reflect.Value
	for i := 0; i < t.NumIn(); i++ {
		p := t.In(i)
		switch {
		case p == ctxT:
			in = append(in, reflect.ValueOf(a.ctx))
		case p.Kind() == reflect.String:
			in = append(in, reflect.ValueOf(a.addr).Convert(p))
		case isParams(p):
			v := reflect.New(p).Elem()
			if p.NumField() != len(a.pinfo) {
				return nil, fmt.Sprintf("%s: %s has %d fields for %d parameters", m, p, p.NumField(), len(a.pinfo))
			}
			for _, pi := range a.pinfo {
				fl := v.FieldByName(pi.Field)
				if !fl.IsValid() {
					return nil, fmt.Sprintf("%s: %s has no field %s", m, p, pi.Field)
				}
				if e := setText(fl, a.params[pi.Key]); e != "" {
					return nil, m + ": " + e
				}
			}
			in = append(in, v)
		case p.Kind() == reflect.Func:
			h := a.h
			in = append(in, reflect.MakeFunc(p, func(x []reflect.Value) []reflect.Value {
				var ctx context.Context
				var msg reflect.Value
				for _, y := range x {
					if y.Type() == ctxT {
						ctx = y.Interface().(context.Context)
					} else {
						msg = y
					}
				}
				err := h(ctx, msg)
				var res []reflect.Value
				if p.NumOut() == 1 {
					res = append(res, errValue(err))
				}
				return res
			}))
		case p.Kind() == reflect.Interface:
			v := reflect.New(p).Elem()
			if a.iface != nil {
				if !reflect.TypeOf(a.iface).Implements(p) {
					return nil, fmt.Sprintf("%s: %T is not a %s", m, a.iface, p)
				}
				v.Set(reflect.ValueOf(a.iface))
			}
			in = append(in, v)
		default:
			if !a.msg.IsValid() || a.msg.Type() != p {
				got := "none"
				if a.msg.IsValid() {
					got = a.msg.Type().String()
				}
				return nil, fmt.Sprintf("%s: parameter %d has the type %s, not %s", m, i, p, got)
			}
			in = append(in, a.msg)
		}
	}
	return f.Call(in), ""
}

func setText(f reflect.Value, s string) string {
	switch f.Kind() {
	case reflect.String:
		f.SetString(s)
	case reflect.Int64, reflect.Int32, reflect.Int:
		var i int64
		if _, err := fmt.Sscan(s, &i); err != nil {
			return "parameter value " + s + ": " + err.Error()
		}
		f.SetInt(i)
	case reflect.Ptr:
		f.Set(reflect.New(f.Type().Elem()))
		return setText(f.Elem(), s)
	default:
		return "parameter of type " + f.Type().String()
	}
	return ""
}

func errValue(err error) reflect.Value {
	v := reflect.New(errT).Elem()
	if err != nil {
		v.Set(reflect.ValueOf(err))
	}
	return v
}

// errOf gives the last result as an error.
func errOf(out []reflect.Value) error {
	if len(out) == 0 {
		return nil
	}
	l := out[len(out)-1]
	if l.Type() != errT || l.IsNil() {
		return nil
	}
	return l.Interface().(error)
}

// arg gives the type of the first parameter of a method that satisfies f.
func (c *ctl) arg(m string, f func(reflect.Type) bool) reflect.Type {
	v := c.v.MethodByName(m)
	if !v.IsValid() {
		return nil
	}
	for i := 0; i < v.Type().NumIn(); i++ {
		if f(v.Type().In(i)) {
			return v.Type().In(i)
		}
	}
	return nil
}

func isMsg(t reflect.Type) bool { return t.Kind() == reflect.Struct && !isParams(t) }

// msgType is the type of message of a sending method.
func (c *ctl) msgType(m string) reflect.Type { return c.arg(m, isMsg) }

// handlerMsg is the type of message of the handler of a subscribing method.
func (c *ctl) handlerMsg(m string) reflect.Type {
	f := c.arg(m, func(t reflect.Type) bool { return t.Kind() == reflect.Func })
	if f == nil {
		return nil
	}
	for i := 0; i < f.NumIn(); i++ {
		if f.In(i) != ctxT {
			return f.In(i)
		}
	}
	return nil
}

// Msg is a message value.
type Msg struct {
	H *Obj
	P any
}

func (m *Msg) String() string {
	s := "payload " + show(m.P)
	if m.H != nil {
		s = "headers " + show(m.H) + " " + s
	}
	return s
}

func (m *Msg) clone() *Msg {
	c := *m
	if m.H != nil {
		h := *m.H
		h.F = map[string]any{}
		for k, v := range m.H.F {
			h.F[k] = v
		}
		c.H = &h
	}
	if o, ok := m.P.(*Obj); ok {
		p := *o
		p.F = map[string]any{}
		for k, v := range o.F {
			p.F[k] = v
		}
		c.P = &p
	}
	return &c
}

// at gives the object and key of a location with one level.
func (m *Msg) at(loc string) (*Obj, string) {
	part, path := spec.LocPath(loc)
	if len(path) != 1 {
		return nil, ""
	}
	if part == "payload" {
		o, _ := m.P.(*Obj)
		return o, path[0]
	}
	return m.H, path[0]
}

// get reads a string at a location.
func (m *Msg) get(loc string) (string, bool) {
	o, k := m.at(loc)
	if o == nil {
		return "", false
	}
	s, ok := o.F[k].(string)
	return s, ok
}

// put writes a string at a location.
func (m *Msg) put(loc, s string) {
	o, k := m.at(loc)
	if o != nil {
		o.F[k] = s
	}
}

func (m *Msg) drop(loc string, em *spec.EffMsg) {
	o, k := m.at(loc)
	if o == nil {
		return
	}
	o.F[k] = ""
	part, _ := spec.LocPath(loc)
	e := em.Headers
	if part == "payload" {
		e = em.Payload
	}
	for _, p := range e.Props {
		if p.Name == k && !p.Req {
			delete(o.F, k)
		}
	}
}

// genMsg draws a message.
func (d *D) genMsg(t *rapid.T, em *spec.EffMsg, valid bool) *Msg {
	g := d.vg
	g.valid = valid
	m := &Msg{}
	if em.Headers != nil {
		m.H = g.obj(t, em.Headers, 3)
	}
	if em.Payload != nil {
		m.P = g.val(t, em.Payload, 4)
	}
	if em.Corr != "" {
		switch rapid.IntRange(0, 3).Draw(t, "corr") {
		case 0:
			m.drop(em.Corr, em)
		case 1:
			m.put(em.Corr, rapid.SampledFrom([]string{"id", "0", " ", "é\n", "3f0e8c2a-0000-4000-8000-000000000000"}).Draw(t, "id"))
		}
	}
	return m
}

// build makes the Go message.
func (d *D) build(t reflect.Type, em *spec.EffMsg, m *Msg) (reflect.Value, string) {
	v := reflect.New(t).Elem()
	return v, d.fill(v, em, m)
}

func (d *D) fill(v reflect.Value, em *spec.EffMsg, m *Msg) string {
	if em.Headers != nil {
		f := v.FieldByName("Headers")
		if !f.IsValid() {
			return fmt.Sprintf("%s has no field Headers", v.Type())
		}
		if s := d.setPtr(f, em.Headers, m.H, "headers"); s != "" {
			return s
		}
	}
	if em.Payload != nil {
		f := v.FieldByName("Payload")
		if !f.IsValid() {
			return fmt.Sprintf("%s has no field Payload", v.Type())
		}
		if s := d.setPtr(f, em.Payload, m.P, "payload"); s != "" {
			return s
		}
	}
	return ""
}

// compare compares a Go message with the expected one.
func (d *D) compare(v reflect.Value, em *spec.EffMsg, m *Msg) string {
	if em.Headers != nil {
		f := v.FieldByName("Headers")
		if !f.IsValid() {
			return fmt.Sprintf("%s has no field Headers", v.Type())
		}
		if s := d.cmpPtr(f, em.Headers, m.H, "headers"); s != "" {
			return s
		}
	}
	if em.Payload != nil {
		f := v.FieldByName("Payload")
		if !f.IsValid() {
			return fmt.Sprintf("%s has no field Payload", v.Type())
		}
		if s := d.cmpPtr(f, em.Payload, m.P, "payload"); s != "" {
			return s
		}
	}
	return ""
}

// corrOf calls CorrelationID.
func corrOf(v reflect.Value) (string, bool) {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	if c, ok := p.Interface().(interface{ CorrelationID() string }); ok {
		return c.CorrelationID(), true
	}
	return "", false
}

// wire makes a broker message of a message, from the document alone.
func (d *D) wire(em *spec.EffMsg, m *Msg) extensions.BrokerMessage {
	b := extensions.BrokerMessage{Headers: map[string][]byte{}}
	if m.H != nil {
		for _, p := range em.Headers.Props {
			v, ok := m.H.F[p.Name]
			if !ok {
				continue
			}
			pe := p.Scope.Eff(p.S)
			switch v := v.(type) {
			case string:
				b.Headers[p.Name] = []byte(v)
			case time.Time, Date:
				b.Headers[p.Name] = []byte(scalarText(v))
			default:
				b.Headers[p.Name] = []byte(toJSON(pe, v, d.doc.Opt))
			}
		}
	}
	if em.Payload != nil {
		b.Payload = []byte(toJSON(em.Payload, m.P, d.doc.Opt))
	}
	return b
}

// params draws parameter values and gives the address.
func (d *D) drawParams(t *rapid.T, op *spec.OpInfo, pool []string) map[string]string {
	m := map[string]string{}
	for _, p := range op.Params {
		if d.intParam(op, p.Key) {
			m[p.Key] = fmt.Sprint(rapid.SampledFrom([]int64{0, 1, -1, 42, 1 << 40}).Draw(t, "int param"))
			continue
		}
		m[p.Key] = rapid.SampledFrom(pool).Draw(t, "param "+p.Key)
	}
	return m
}

var paramPool = []string{"a", "b", "", "x/y", "{a}", "%s", "%d%%", "é", "a b", "*", ">", "#", "$1", "\"", "\\", "_", "-", "%!s(MISSING)"}

// intParam tells if a parameter takes integers.
func (d *D) intParam(op *spec.OpInfo, key string) bool {
	if d.doc.V != 2 {
		return false
	}
	sc := spec.NewScope(d.doc)
	for _, c := range d.doc.Channels {
		if c.Key != op.Chan {
			continue
		}
		for _, p := range c.Params {
			if p.Key == key {
				r := sc.Param(p)
				return r.Schema != nil && r.Schema.Type == "integer"
			}
		}
	}
	return false
}

// got is a message that reached a handler.
type got struct {
	op  string
	ctx context.Context
	msg reflect.Value
	end error // of the context, when the handler starts
}

// inbox collects what handlers get.
type inbox struct {
	mu  sync.Mutex
	l   []got
	err func(i int) error
}

func (b *inbox) handler(op string) func(context.Context, reflect.Value) error {
	return func(ctx context.Context, msg reflect.Value) error {
		b.mu.Lock()
		b.l = append(b.l, got{op, ctx, msg, ctx.Err()})
		i := len(b.l) - 1
		e := b.err
		b.mu.Unlock()
		if e != nil {
			return e(i)
		}
		return nil
	}
}

func (b *inbox) count() int { b.mu.Lock(); defer b.mu.Unlock(); return len(b.l) }

func (b *inbox) get(i int) got { b.mu.Lock(); defer b.mu.Unlock(); return b.l[i] }

func (b *inbox) all() []got { b.mu.Lock(); defer b.mu.Unlock(); return append([]got(nil), b.l...) }

// rig is a broker with both controllers.
type rig struct {
	b    *fake.Broker
	side map[string]*ctl
	lg   *fake.Logger
	errs *errbox
}

type errEntry struct {
	ctx   context.Context
	topic string
	msg   extensions.BrokerMessage
	err   error
	end   error // of the context
}

type errbox struct {
	mu   sync.Mutex
	l    []errEntry
	hook func(i int, m *extensions.AcknowledgeableBrokerMessage)
}

func (e *errbox) handle(ctx context.Context, topic string, m *extensions.AcknowledgeableBrokerMessage, err error) {
	e.mu.Lock()
	e.l = append(e.l, errEntry{ctx, topic, fake.CopyMsg(m.BrokerMessage), err, ctx.Err()})
	i := len(e.l) - 1
	h := e.hook
	e.mu.Unlock()
	if h != nil {
		h(i, m)
	}
}

func (e *errbox) all() []errEntry {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]errEntry(nil), e.l...)
}

func (d *D) rig(t *rapid.T, mws map[string][]extensions.Middleware) *rig {
	r := &rig{b: fake.NewBroker(), side: map[string]*ctl{}, lg: &fake.Logger{}, errs: &errbox{}}
	for _, s := range []string{"app", "user"} {
		c, err := d.newCtl(s, r.b, ctlOpts{r.lg, mws[s], r.errs.handle})
		if err != nil {
			t.Fatalf("creating the %s controller: %v", s, err)
		}
		r.side[s] = c
	}
	return r
}

// close ends everything.
func (r *rig) close(t *rapid.T) {
	for _, s := range []string{"app", "user"} {
		c := r.side[s]
		if !fake.Returns(stuck, func() { _, _ = c.call("Close", args{ctx: context.Background()}) }) {
			t.Fatalf("Close of the %s controller does not return", s)
		}
	}
}

// must calls a method that suits and returns.
func must(t *rapid.T, c *ctl, m string, a args) []reflect.Value {
	if a.ctx == nil {
		a.ctx = context.Background()
	}
	type res struct {
		out []reflect.Value
		bad string
	}
	ch := make(chan res, 1)
	go func() {
		out, bad := c.call(m, a)
		ch <- res{out, bad}
	}()
	select {
	case r := <-ch:
		if r.bad != "" {
			t.Fatalf("%s", r.bad)
		}
		return r.out
	case <-time.After(stuck):
		t.Fatalf("%s.%s does not return", c.side, m)
	}
	return nil
}

// opArgs are the arguments about the address of an operation.
func opArgs(op *spec.OpInfo, params map[string]string) args {
	return args{ctx: context.Background(), params: params, pinfo: op.Params, addr: op.Address}
}

// address is the address of an operation.
func address(op *spec.OpInfo, params map[string]string) string {
	if len(op.Params) == 0 {
		return op.Address
	}
	return spec.FillAddress(op.Address, params)
}
