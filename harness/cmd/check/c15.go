package main

import (
	"context"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"pgregory.net/rapid"

	"verif/internal/fake"
	"verif/internal/rep"
)

func init() { checks["C15"] = c15 }

// pause lets a drawn amount of scheduling happen.
func pause(n int) {
	switch {
	case n <= 0:
	case n < 6:
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
	default:
		time.Sleep(time.Duration(n) * 10 * time.Microsecond)
	}
}

func c15(r *rep.Run) {
	r.Rule("cancel: generated queue sizes, messages before and during cancellation, number of cancellers and their contexts, clean-up duration, GOMAXPROCS and yields; non-trivial = at least one message or more than one canceller or a slow clean-up. ack: generated ack/nak sequences of length 1-8; non-trivial = length of at least 2. slow: generated queue sizes, numbers of messages, delays before reading and between reads (up to 1.5 s), dozens at a time; all are read, in order; non-trivial = more messages than the queue holds")
	r.Assume("the schedules reached are those the Go scheduler produces under the drawn GOMAXPROCS values and yields")
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))

	r.Rapid("cancel", r.N(2500, 40000), func(t *rapid.T) {
		procs := rapid.SampledFrom([]int{1, 1, 2, 8}).Draw(t, "procs")
		queue := rapid.IntRange(0, 6).Draw(t, "queue")
		cancelCap := rapid.SampledFrom([]int{1, 1, 1, 0}).Draw(t, "cancelCap")
		before := rapid.IntRange(0, queue).Draw(t, "before")
		during := rapid.SampledFrom([]int{0, 0, 1, 3, 12}).Draw(t, "during")
		cancellers := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "cancellers")
		cleanup := rapid.SampledFrom([]int{0, 0, 3, 20, 100}).Draw(t, "cleanup")
		wait := rapid.IntRange(0, 8).Draw(t, "waitBefore")
		reader := rapid.Bool().Draw(t, "reader")
		ctxKind := rapid.SampledFrom([]string{"background", "background", "background", "done", "live"}).Draw(t, "ctx")
		key := ""
		if before+during > 0 || cancellers > 1 || cleanup > 0 {
			key = fmt.Sprint(procs, queue, cancelCap, before, during, cancellers, cleanup, wait, reader, ctxKind)
		}
		r.Case("cancel"+key, "cancel ctx "+ctxKind, fmt.Sprintf("cancel procs %d", procs), fmt.Sprintf("cancellers %d", cancellers), fmt.Sprintf("transmissions during cancellation %v", during > 0))
		if key != "" {
			r.Sample("cancel", map[string]any{"procs": procs, "queue": queue, "before": before, "during": during, "cancellers": cancellers, "cleanup": cleanup, "ctx": ctxKind, "reader": reader})
		}
		runtime.GOMAXPROCS(procs)

		sub := extensions.NewBrokerChannelSubscription(
			make(chan extensions.AcknowledgeableBrokerMessage, queue), make(chan any, cancelCap))
		mk := func(i int) extensions.AcknowledgeableBrokerMessage {
			return extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{
				Headers: map[string][]byte{}, Payload: []byte(fmt.Sprint(i))}, &fake.Ack{})
		}
		var cleaned, cleanDone atomic.Int32
		sub.WaitForCancellationAsync(func() {
			cleaned.Add(1)
			pause(cleanup)
			cleanDone.Add(1)
		})
		for i := 0; i < before; i++ {
			sub.TransmitReceivedMessage(mk(i))
		}
		var problems sync.Map
		var wg, txwg sync.WaitGroup
		var got []string
		readerDone := make(chan struct{})
		if reader {
			go func() {
				defer close(readerDone)
				for m := range sub.MessagesChannel() {
					got = append(got, string(m.Payload))
				}
			}()
		}
		if during > 0 {
			txwg.Add(1)
			go func() {
				defer txwg.Done()
				defer func() {
					if p := recover(); p != nil {
						problems.Store(fmt.Sprintf("transmitting a message while the subscription is cancelled panicked: %v", p), true)
					}
				}()
				for i := 0; i < during; i++ {
					sub.TransmitReceivedMessage(mk(before + i))
				}
			}()
		}
		pause(wait)
		for c := 0; c < cancellers; c++ {
			ctx, cf := context.Background(), func() {}
			switch ctxKind {
			case "done":
				c, f := context.WithCancel(ctx)
				f()
				ctx = c
			case "live":
				ctx, cf = context.WithTimeout(ctx, time.Hour)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer cf()
				defer func() {
					if p := recover(); p != nil {
						problems.Store(fmt.Sprintf("cancelling panicked: %v", p), true)
					}
				}()
				sub.Cancel(ctx)
				if ctxKind != "done" {
					if n := cleanDone.Load(); n != 1 {
						problems.Store(fmt.Sprintf("cancel returned with %d complete clean-ups, want 1", n), true)
					}
				}
			}()
		}
		if !fake.Returns(fake.Stuck, wg.Wait) {
			t.Fatalf("cancelling does not return")
		}
		if !fake.Eventually(fake.Stuck, func() bool { return cleanDone.Load() >= 1 }) {
			t.Fatalf("the clean-up function is never executed")
		}
		if !fake.Returns(fake.Stuck, txwg.Wait) {
			t.Fatalf("a transmission blocks forever after the cancellation")
		}
		if reader {
			if !fake.Returns(fake.Stuck, func() { <-readerDone }) {
				t.Fatalf("the message channel is not closed after the cancellation")
			}
		} else if ctxKind != "done" {
			// Everything transmitted before is readable at once, then it is closed.
		drain:
			for {
				select {
				case m, open := <-sub.MessagesChannel():
					if !open {
						break drain
					}
					got = append(got, string(m.Payload))
				default:
					t.Fatalf("the message channel is still open when Cancel has returned")
				}
			}
		} else if !fake.Returns(fake.Stuck, func() {
			for m := range sub.MessagesChannel() {
				got = append(got, string(m.Payload))
			}
		}) {
			t.Fatalf("the message channel is not closed after the cancellation")
		}
		for i := 0; i < before; i++ {
			if i >= len(got) || got[i] != fmt.Sprint(i) {
				t.Fatalf("messages read %v: want at least the %d transmitted before the cancellation, in order", got, before)
			}
		}
		for i, g := range got {
			if g != fmt.Sprint(i) {
				t.Fatalf("messages read out of order, duplicated or invented: %v", got)
			}
		}
		if n := cleaned.Load(); n != 1 {
			t.Fatalf("clean-up executed %d times", n)
		}
		problems.Range(func(k, _ any) bool { t.Errorf("%v", k); return true })
	})

	// slow: readers that come late, while more messages are transmitted than the queue holds.
	r.Rapid("slow", r.N(3, 40), func(t *rapid.T) {
		type scene struct{ queue, messages, wait, each int }
		runtime.GOMAXPROCS(runtime.NumCPU())
		scenes := make([]scene, 32)
		errs := make([]string, len(scenes))
		var wg sync.WaitGroup
		for i := range scenes {
			s := scene{
				queue:    rapid.SampledFrom([]int{0, 1, 2, 8, 64}).Draw(t, "queue"),
				messages: rapid.IntRange(1, 100).Draw(t, "messages"),
				wait:     rapid.IntRange(0, 1500).Draw(t, "waitMs"),
				each:     rapid.SampledFrom([]int{0, 0, 0, 5, 20}).Draw(t, "eachMs"),
			}
			scenes[i] = s
			key := ""
			if s.messages > s.queue {
				key = fmt.Sprint("slow", s)
			}
			r.Case(key, fmt.Sprintf("slow reader, queue overflown %v", s.messages > s.queue))
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sub := extensions.NewBrokerChannelSubscription(
					make(chan extensions.AcknowledgeableBrokerMessage, s.queue), make(chan any, 1))
				sub.WaitForCancellationAsync(func() {})
				sent := make(chan struct{})
				go func() {
					for k := 0; k < s.messages; k++ {
						sub.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{
							Headers: map[string][]byte{}, Payload: []byte(fmt.Sprint(k))}, &fake.Ack{}))
					}
					close(sent)
				}()
				time.Sleep(time.Duration(s.wait) * time.Millisecond)
				for k := 0; k < s.messages; k++ {
					select {
					case m, open := <-sub.MessagesChannel():
						if !open || string(m.Payload) != fmt.Sprint(k) {
							errs[i] = fmt.Sprintf("message number %d read is %q (open %v)", k, m.Payload, open)
							return
						}
					case <-time.After(fake.Stuck):
						errs[i] = fmt.Sprintf("message number %d never arrives", k)
						return
					}
					time.Sleep(time.Duration(s.each) * time.Millisecond)
				}
				<-sent
				sub.Cancel(context.Background())
				if m, open := <-sub.MessagesChannel(); open {
					errs[i] = fmt.Sprintf("message %q read although all have been", m.Payload)
				}
			}(i)
		}
		wg.Wait()
		for i, e := range errs {
			if e != "" {
				t.Fatalf("queue of %d, %d messages, read after %d ms and then every %d ms: %s",
					scenes[i].queue, scenes[i].messages, scenes[i].wait, scenes[i].each, e)
			}
		}
	})

	r.Rapid("ack", r.N(2000, 20000), func(t *rapid.T) {
		calls := rapid.SliceOfN(rapid.SampledFrom([]string{"ack", "nak"}), 1, 8).Draw(t, "calls")
		key := ""
		if len(calls) > 1 {
			key = fmt.Sprint(calls)
		}
		r.Case(key, "ack sequence starting with "+calls[0])
		r.Sample("ack", calls)
		a := &fake.Ack{}
		hdr := map[string][]byte{"k": []byte("v")}
		m := extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{Headers: hdr, Payload: []byte("p")}, a)
		for i, c := range calls {
			if c == "ack" {
				m.Ack()
			} else {
				m.Nak()
			}
			if g := a.Got(); len(g) != 1 || g[0] != calls[0] {
				t.Fatalf("after calls %v the broker saw %v, want [%s]", calls[:i+1], g, calls[0])
			}
		}
		if string(m.Payload) != "p" || string(m.Headers["k"]) != "v" {
			t.Fatalf("acknowledging changed the message")
		}
	})

	r.Rapid("uninitialized", r.N(500, 2000), func(t *rapid.T) {
		m := extensions.BrokerMessage{}
		if rapid.Bool().Draw(t, "h") {
			m.Headers = map[string][]byte{}
			if rapid.Bool().Draw(t, "h1") {
				m.Headers["a"] = []byte("b")
			}
		}
		if rapid.Bool().Draw(t, "p") {
			m.Payload = rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "payload")
		}
		r.Case("", "uninitialized")
		if want := m.Headers == nil && m.Payload == nil; m.IsUninitialized() != want {
			t.Fatalf("IsUninitialized()=%v for %+v", !want, m)
		}
	})
}
