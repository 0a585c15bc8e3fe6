// Package fake holds the in-memory broker, the recording logger and other
// stand-ins the checks drive the code under test with.
package fake

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
)

// ErrInjected is the error of injected faults.
var ErrInjected = errors.New("injected fault")

// Published is a message given to the broker.
type Published struct {
	Channel string
	Msg     extensions.BrokerMessage
	Ctx     context.Context
}

// Ack records the settlements of one delivered message.
type Ack struct {
	mu    sync.Mutex
	Calls []string
	log   func(string)
}

// AckMessage records.
func (a *Ack) AckMessage() { a.add("ack") }

// NakMessage records.
func (a *Ack) NakMessage() { a.add("nak") }

func (a *Ack) add(s string) {
	a.mu.Lock()
	a.Calls = append(a.Calls, s)
	l := a.log
	a.mu.Unlock()
	if l != nil {
		l(s)
	}
}

// Got gives the calls.
func (a *Ack) Got() []string {
	a.mu.Lock()
	defer a.mu.Unlock()
	return append([]string(nil), a.Calls...)
}

// NewAck makes one with a hook.
func NewAck(log func(string)) *Ack { return &Ack{log: log} }

// Sub is a subscription held by the fake broker.
type Sub struct {
	ID       int
	Channel  string
	Ctx      context.Context
	S        extensions.BrokerChannelSubscription
	mu       sync.Mutex
	closed   bool
	Cleanups int
}

// Broker is an in-memory broker.
type Broker struct {
	mu        sync.Mutex
	subs      map[int]*Sub
	all       []*Sub
	next      int
	Pub       []Published
	Loop      bool // deliver what is published to the subscriptions of the channel
	FailSub   func(channel string) error
	FailPub   func(channel string) error
	OnPublish func(p Published)
	Cleanup   func(s *Sub) // extra work in clean-up
	AckHook   func(channel string, m extensions.BrokerMessage) *Ack
	QueueSize int
	Events    func(string)
}

// NewBroker creates one.
func NewBroker() *Broker { return &Broker{subs: map[int]*Sub{}, QueueSize: 256} }

// CopyMsg copies a message deeply.
func CopyMsg(m extensions.BrokerMessage) extensions.BrokerMessage {
	r := extensions.BrokerMessage{}
	if m.Headers != nil {
		r.Headers = make(map[string][]byte, len(m.Headers))
		for k, v := range m.Headers {
			r.Headers[k] = append([]byte{}, v...)
		}
	}
	if m.Payload != nil {
		r.Payload = append([]byte{}, m.Payload...)
	}
	return r
}

// MsgString is a canonical description.
func MsgString(m extensions.BrokerMessage) string {
	ks := make([]string, 0, len(m.Headers))
	for k, v := range m.Headers {
		ks = append(ks, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, ",") + "}" + fmt.Sprintf("%q", m.Payload)
}

func (b *Broker) event(f string, a ...any) {
	if b.Events != nil {
		b.Events(fmt.Sprintf(f, a...))
	}
}

// Publish implements the broker controller.
func (b *Broker) Publish(ctx context.Context, channel string, m extensions.BrokerMessage) error {
	b.mu.Lock()
	fp := b.FailPub
	b.mu.Unlock()
	if fp != nil {
		if err := fp(channel); err != nil {
			return err
		}
	}
	p := Published{Channel: channel, Msg: CopyMsg(m), Ctx: ctx}
	b.mu.Lock()
	b.Pub = append(b.Pub, p)
	loop, on := b.Loop, b.OnPublish
	b.mu.Unlock()
	b.event("publish %s %s", channel, MsgString(m))
	if loop {
		b.Deliver(channel, m)
	}
	if on != nil {
		on(p)
	}
	return nil
}

// Subscribe implements the broker controller.
func (b *Broker) Subscribe(ctx context.Context, channel string) (extensions.BrokerChannelSubscription, error) {
	b.mu.Lock()
	fs := b.FailSub
	b.mu.Unlock()
	if fs != nil {
		if err := fs(channel); err != nil {
			return extensions.BrokerChannelSubscription{}, err
		}
	}
	s := &Sub{Channel: channel, Ctx: ctx, S: extensions.NewBrokerChannelSubscription(
		make(chan extensions.AcknowledgeableBrokerMessage, b.QueueSize), make(chan any, 1))}
	b.mu.Lock()
	b.next++
	s.ID = b.next
	b.subs[s.ID] = s
	b.all = append(b.all, s)
	b.mu.Unlock()
	b.event("subscribe %s", channel)
	s.S.WaitForCancellationAsync(func() {
		s.mu.Lock()
		s.closed = true
		s.Cleanups++
		s.mu.Unlock()
		b.mu.Lock()
		delete(b.subs, s.ID)
		c := b.Cleanup
		b.mu.Unlock()
		if c != nil {
			c(s)
		}
		b.event("unsubscribe %s", channel)
	})
	return s.S, nil
}

// Send transmits a message to a given subscription; it tells if it was open.
func (s *Sub) Send(m extensions.BrokerMessage, a extensions.BrokerAcknowledgment) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return false
	}
	s.S.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(m, a))
	return true
}

// Deliver transmits a copy of the message to each open subscription of the
// channel and gives the acknowledgement records.
func (b *Broker) Deliver(channel string, m extensions.BrokerMessage) []*Ack {
	var acks []*Ack
	for _, s := range b.Open(channel) {
		var a *Ack
		if b.AckHook != nil {
			a = b.AckHook(channel, m)
		}
		if a == nil {
			a = &Ack{}
		}
		if s.Send(CopyMsg(m), a) {
			acks = append(acks, a)
		}
	}
	return acks
}

// Open lists the open subscriptions of a channel ("" for all) by age.
func (b *Broker) Open(channel string) []*Sub {
	b.mu.Lock()
	defer b.mu.Unlock()
	var r []*Sub
	for _, s := range b.all {
		if _, ok := b.subs[s.ID]; ok && (channel == "" || s.Channel == channel) {
			r = append(r, s)
		}
	}
	return r
}

// All lists all subscriptions ever made.
func (b *Broker) All() []*Sub { b.mu.Lock(); defer b.mu.Unlock(); return append([]*Sub(nil), b.all...) }

// Publications so far.
func (b *Broker) Publications() []Published {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]Published(nil), b.Pub...)
}

// Set changes the hooks under lock.
func (b *Broker) Set(f func(b *Broker)) { b.mu.Lock(); f(b); b.mu.Unlock() }

// LogEntry is a recorded log call.
type LogEntry struct {
	Level, Msg string
	Ctx        context.Context
	Info       []extensions.LogInfo
}

// Logger records.
type Logger struct {
	mu sync.Mutex
	E  []LogEntry
}

func (l *Logger) add(lv string, ctx context.Context, m string, i []extensions.LogInfo) {
	l.mu.Lock()
	l.E = append(l.E, LogEntry{lv, m, ctx, i})
	l.mu.Unlock()
}

// Info records.
func (l *Logger) Info(ctx context.Context, m string, i ...extensions.LogInfo) {
	l.add("info", ctx, m, i)
}

// Warning records.
func (l *Logger) Warning(ctx context.Context, m string, i ...extensions.LogInfo) {
	l.add("warning", ctx, m, i)
}

// Error records.
func (l *Logger) Error(ctx context.Context, m string, i ...extensions.LogInfo) {
	l.add("error", ctx, m, i)
}

// Count counts entries of a level.
func (l *Logger) Count(level string) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	n := 0
	for _, e := range l.E {
		if e.Level == level {
			n++
		}
	}
	return n
}

// Entries copies.
func (l *Logger) Entries() []LogEntry {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]LogEntry(nil), l.E...)
}

// Returns tells whether f returns within the (generous) delay; used for
// operations that take microseconds.
func Returns(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// Eventually polls until cond holds.
func Eventually(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		if i < 50 {
			time.Sleep(20 * time.Microsecond)
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}

// Stuck is the delay after which a call is said not to return.
var Stuck = 10 * time.Second
