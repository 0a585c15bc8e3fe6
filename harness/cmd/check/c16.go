package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/errorhandlers"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/loggers"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/middlewares"
	"pgregory.net/rapid"

	"verif/internal/fake"
	"verif/internal/rep"
)

// stdout gives what f writes on the standard output.
func stdout(file *os.File, f func()) (string, error) {
	if err := file.Truncate(0); err != nil {
		return "", err
	}
	if _, err := file.Seek(0, 0); err != nil {
		return "", err
	}
	old := os.Stdout
	os.Stdout = file
	func() {
		defer func() { os.Stdout = old }()
		f()
	}()
	b, err := os.ReadFile(file.Name())
	return string(b), err
}

type logCall struct {
	Level string
	Msg   string
	Ctx   map[string]string
	Keys  []string
	Vals  []any
	Spare int // capacity left in the given slice
}

func (c logCall) ctx() context.Context {
	ctx := context.Background()
	for k, v := range c.Ctx {
		ctx = context.WithValue(ctx, extensions.ContextKey(k), v)
	}
	return ctx
}

func (c logCall) String() string {
	return fmt.Sprintf("%s(%q) with the context %q and the fields %q = %q (spare capacity %d)", c.Level, c.Msg, c.Ctx, c.Keys, fmt.Sprintf("%+v", c.Vals), c.Spare)
}

func (c logCall) do(lg extensions.Logger) (altered bool) {
	info := make([]extensions.LogInfo, len(c.Keys)+c.Spare)
	for i := range info {
		info[i] = extensions.LogInfo{Key: "spare", Value: "spare"}
	}
	for i, k := range c.Keys {
		info[i] = extensions.LogInfo{Key: k, Value: c.Vals[i]}
	}
	given := info[:len(c.Keys)]
	switch c.Level {
	case "info":
		lg.Info(c.ctx(), c.Msg, given...)
	case "warning":
		lg.Warning(c.ctx(), c.Msg, given...)
	default:
		lg.Error(c.ctx(), c.Msg, given...)
	}
	for i, x := range info {
		if i < len(c.Keys) && x.Key != c.Keys[i] || i >= len(c.Keys) && x.Key != "spare" {
			return true
		}
	}
	return false
}

var logText = rapid.OneOf(
	rapid.SampledFrom([]string{"", "a", "a b", "\"", "\\", "\n", "a\nb", "<&>", "é", "\x00", "\xff\xfe", "{}", "%s", "%d%!", "\u2028", "\t", "null", "{\"a\":1}", "\x1b[31m"}),
	rapid.String(),
	rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 20), func(b []byte) string { return string(b) }),
)

var reserved = []string{"asyncapi", "event", "trace", "message", "@timestamp", "log", "Channel", "CorrelationID", "Content", "Message", "@Timestamp"}

func genLog(t *rapid.T) logCall {
	c := logCall{Level: rapid.SampledFrom([]string{"info", "warning", "error"}).Draw(t, "level"), Msg: logText.Draw(t, "msg"), Ctx: map[string]string{}}
	for _, k := range []extensions.ContextKey{extensions.ContextKeyIsVersion, extensions.ContextKeyIsProvider, extensions.ContextKeyIsChannel, extensions.ContextKeyIsBrokerMessage, extensions.ContextKeyIsCorrelationID} {
		if rapid.Bool().Draw(t, "set") {
			c.Ctx[string(k)] = logText.Draw(t, string(k))
		}
	}
	if rapid.Bool().Draw(t, "direction?") {
		c.Ctx[string(extensions.ContextKeyIsDirection)] = rapid.SampledFrom([]string{"publication", "reception", "publication", "reception", "wait-for"}).Draw(t, "direction")
	}
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 8, 14}).Draw(t, "fields")
	seg := rapid.SampledFrom([]string{"a", "b", "c", "user", "id", "é", "x y", "A", "\"", "duration", "%s", "1"})
	for i := 0; i < n; i++ {
		k := strings.Join(rapid.SliceOfN(seg, 1, 4).Draw(t, "key"), ".")
		if rapid.Bool().Draw(t, "nested") {
			k = "group." + k
		}
		clash := false
		for _, o := range append(append([]string{}, c.Keys...), reserved...) {
			if o == k || strings.HasPrefix(o, k+".") || strings.HasPrefix(k, o+".") {
				clash = true
			}
		}
		if clash {
			continue
		}
		c.Keys = append(c.Keys, k)
		var v any
		switch rapid.IntRange(0, 7).Draw(t, "kind") {
		case 0:
			v = rapid.Int().Draw(t, "v")
		case 1:
			v = rapid.Float64().Draw(t, "v")
		case 2:
			v = nil
		case 3:
			v = errors.New(logText.Draw(t, "v"))
		case 4:
			v = struct {
				A string
				B []int
			}{logText.Draw(t, "v"), []int{1, 2}}
		case 5:
			v = map[string]any{"k": rapid.Bool().Draw(t, "v")}
		default:
			v = logText.Draw(t, "v")
		}
		c.Vals = append(c.Vals, v)
	}
	c.Spare = rapid.SampledFrom([]int{0, 0, 1, 10}).Draw(t, "spare")
	return c
}

func valid(s string) string { return string([]rune(s)) }

// ecsBad checks a line of the ECS logger against the call.
func ecsBad(c logCall, line string, from, to time.Time) string {
	var m map[string]any
	if err := json.Unmarshal([]byte(line), &m); err != nil {
		return "not valid JSON: " + err.Error()
	}
	flat := map[string]string{}
	var walk func(p string, v any) string
	walk = func(p string, v any) string {
		switch v := v.(type) {
		case map[string]any:
			for k, x := range v {
				q := k
				if p != "" {
					q = p + "." + k
				}
				if bad := walk(q, x); bad != "" {
					return bad
				}
			}
		case string:
			flat[p] = v
		default:
			return fmt.Sprintf("%s is %v", p, v)
		}
		return ""
	}
	if bad := walk("", m); bad != "" {
		return bad
	}
	want := map[string]string{"message": c.Msg, "log.level": c.Level}
	for k, n := range map[extensions.ContextKey]string{extensions.ContextKeyIsProvider: "asyncapi.provider", extensions.ContextKeyIsChannel: "asyncapi.channel",
		extensions.ContextKeyIsBrokerMessage: "event.original", extensions.ContextKeyIsCorrelationID: "trace.id"} {
		if v, ok := c.Ctx[string(k)]; ok {
			want[n] = v
		} else if _, there := flat[n]; there {
			return n + " is there although the context does not have it"
		}
	}
	switch c.Ctx[string(extensions.ContextKeyIsDirection)] {
	case "publication":
		want["event.action"] = "published-message"
	case "reception":
		want["event.action"] = "received-message"
	}
	for i, k := range c.Keys {
		want[k] = fmt.Sprintf("%+v", c.Vals[i])
	}
	for k, v := range want {
		if got, ok := flat[k]; !ok || got != valid(v) {
			return fmt.Sprintf("%q is %q (present: %v), want %q", k, got, ok, valid(v))
		}
	}
	ts, err := time.Parse(time.RFC3339Nano, flat["@timestamp"])
	if err != nil || ts.Before(from.Add(-time.Millisecond)) || ts.After(to.Add(time.Millisecond)) {
		return fmt.Sprintf("@timestamp is %q", flat["@timestamp"])
	}
	return ""
}

func textBad(c logCall, out string) string {
	want := []string{": " + c.Msg + "\n"}
	for k, n := range map[extensions.ContextKey]string{extensions.ContextKeyIsChannel: "Channel", extensions.ContextKeyIsBrokerMessage: "Content", extensions.ContextKeyIsCorrelationID: "CorrelationID"} {
		if v, ok := c.Ctx[string(k)]; ok {
			want = append(want, n+": "+v+"\n")
		}
	}
	for i, k := range c.Keys {
		l := strings.Split(k, ".")
		for _, s := range l[:len(l)-1] {
			want = append(want, s+":\n")
		}
		want = append(want, fmt.Sprintf("%s: %+v\n", l[len(l)-1], c.Vals[i]))
	}
	for _, w := range want {
		if !strings.Contains(out, w) {
			return fmt.Sprintf("%q is not there", w)
		}
	}
	return ""
}

// loggers checks the loggers and the logging middleware alone.
func loggersCheck(r *rep.Run) {
	file, err := os.CreateTemp("", "log")
	if err != nil {
		panic(err)
	}
	defer os.Remove(file.Name())
	ecs, text := loggers.NewECS(), loggers.NewText()
	r.Rapid("ecs", r.N(5000, 100000), func(t *rapid.T) {
		c := genLog(t)
		r.Case("ecs"+c.String(), "ecs "+c.Level)
		r.Sample("ecs", c.String())
		from := time.Now()
		altered := false
		out, err := stdout(file, func() { altered = c.do(ecs) })
		if err != nil {
			panic(err)
		}
		if strings.Count(out, "\n") != 1 || !strings.HasSuffix(out, "\n") {
			t.Fatalf("ECS logger: %s writes %q: not a line", c, out)
		}
		if bad := ecsBad(c, out, from, time.Now()); bad != "" {
			t.Fatalf("ECS logger: %s writes %s: %s", c, out, bad)
		}
		if altered {
			t.Fatalf("ECS logger: %s changes the array of fields it is given", c)
		}
	})
	r.Rapid("text", r.N(3000, 50000), func(t *rapid.T) {
		c := genLog(t)
		r.Case("text"+c.String(), "text "+c.Level)
		altered := false
		out, err := stdout(file, func() { altered = c.do(text) })
		if err != nil {
			panic(err)
		}
		if bad := textBad(c, out); bad != "" {
			t.Fatalf("text logger: %s writes %q: %s", c, out, bad)
		}
		if altered {
			t.Fatalf("text logger: %s changes the array of fields it is given", c)
		}
	})
	r.Rapid("ecs concurrent", r.N(150, 2000), func(t *rapid.T) {
		var calls []logCall
		for i, n := 0, rapid.IntRange(2, 8).Draw(t, "calls"); i < n; i++ {
			c := genLog(t)
			c.Keys, c.Vals = append(c.Keys, "nr"), append(c.Vals, i)
			calls = append(calls, c)
		}
		r.Case(fmt.Sprint("conc", calls), "ecs concurrent")
		from := time.Now()
		out, err := stdout(file, func() {
			var wg sync.WaitGroup
			for _, c := range calls {
				wg.Add(1)
				go func() { defer wg.Done(); c.do(ecs) }()
			}
			wg.Wait()
		})
		if err != nil {
			panic(err)
		}
		lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		if len(lines) != len(calls) {
			t.Fatalf("ECS logger: %d concurrent calls write %d lines: %q", len(calls), len(lines), out)
		}
		seen := map[string]bool{}
		for _, l := range lines {
			var m struct{ Nr string }
			var i int
			if err := json.Unmarshal([]byte(l), &m); err != nil {
				t.Fatalf("ECS logger: concurrent calls write %q: %v", l, err)
			}
			if _, err := fmt.Sscan(m.Nr, &i); err != nil || i < 0 || i >= len(calls) || seen[m.Nr] {
				t.Fatalf("ECS logger: concurrent calls write %q", out)
			}
			seen[m.Nr] = true
			if bad := ecsBad(calls[i], l, from, time.Now()); bad != "" {
				t.Fatalf("ECS logger: concurrent %s writes %s: %s", calls[i], l, bad)
			}
		}
	})
	r.Rapid("logging middleware", r.N(2000, 20000), func(t *rapid.T) {
		c := genLog(t)
		lg := &fake.Logger{}
		m := extensions.BrokerMessage{Payload: []byte(logText.Draw(t, "payload"))}
		if rapid.Bool().Draw(t, "headers") {
			m.Headers = map[string][]byte{logText.Draw(t, "k"): []byte(logText.Draw(t, "v"))}
		}
		before := fake.MsgString(m)
		ctx := c.ctx()
		calls := 0
		err := middlewares.Logging(lg)(ctx, &m, func(context.Context) error { calls++; return nil })
		dir := c.Ctx[string(extensions.ContextKeyIsDirection)]
		r.Case("mw"+c.String()+before, "logging middleware "+dir)
		if err != nil || calls > 1 {
			t.Fatalf("logging middleware (direction %q): error %v, %d calls of the next one", dir, err, calls)
		}
		if fake.MsgString(m) != before {
			t.Fatalf("logging middleware: the message %s becomes %s", before, fake.MsgString(m))
		}
		l := lg.Entries()
		want := map[string]int{"reception": 1, "publication": 1}[dir]
		if dir != "wait-for" && len(l) != want {
			t.Fatalf("logging middleware (direction %q): %d log entries", dir, len(l))
		}
		for _, e := range l {
			if e.Level != "info" || e.Ctx != ctx {
				t.Fatalf("logging middleware (direction %q): entry %q of level %s with another context: %v", dir, e.Msg, e.Level, e.Ctx != ctx)
			}
			if s := strings.ToLower(e.Msg); dir == "reception" && !strings.Contains(s, "receiv") || dir == "publication" && !strings.Contains(s, "publish") {
				t.Fatalf("logging middleware (direction %q): entry %q", dir, e.Msg)
			}
		}
	})
	r.Rapid("logging error handler", r.N(1000, 10000), func(t *rapid.T) {
		c := genLog(t)
		lg, settled := &fake.Logger{}, &settles{}
		topic, failure := logText.Draw(t, "topic"), errors.New(logText.Draw(t, "error"))
		m := extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{Payload: []byte(logText.Draw(t, "payload"))}, settled)
		before := fake.MsgString(m.BrokerMessage)
		ctx := c.ctx()
		errorhandlers.Logging(lg)(ctx, topic, &m, failure)
		r.Case("eh"+c.String()+before+topic+failure.Error(), "logging error handler")
		l := lg.Entries()
		if len(l) != 1 || l[0].Level != "error" || l[0].Ctx != ctx || !strings.Contains(l[0].Msg, topic) || !strings.Contains(l[0].Msg, failure.Error()) {
			t.Fatalf("logging error handler: %q on %q leads to the entries %+v", failure, topic, l)
		}
		if settled.n != 0 || fake.MsgString(m.BrokerMessage) != before {
			t.Fatalf("logging error handler: the message is settled %d times or changed", settled.n)
		}
	})
}

// settles counts acknowledgements.
type settles struct{ n int }

func (s *settles) AckMessage() { s.n++ }
func (s *settles) NakMessage() { s.n++ }
