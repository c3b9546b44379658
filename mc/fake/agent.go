// Package fake has the environment of the proxy: trace agent and Kafka, deterministic, on the controlled runtime.
package fake

import (
	"errors"
	"fmt"
	"net/http"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"

	"verif/rt"
)

// Span is a copy of what the agent got.
type Span struct {
	Name, Service, Resource, Type string
	Start, Duration               int64
	Meta                          map[string]string
	SpanID, TraceID, ParentID     uint64
	Error                         int32
	Sampled                       bool
}

func copySpan(s *tracer.Span) Span {
	c := Span{Name: s.Name, Service: s.Service, Resource: s.Resource, Type: s.Type, Start: s.Start, Duration: s.Duration,
		SpanID: s.SpanID, TraceID: s.TraceID, ParentID: s.ParentID, Error: s.Error, Sampled: s.Sampled}
	if s.Meta != nil {
		c.Meta = make(map[string]string, len(s.Meta))
		for k, v := range s.Meta {
			c.Meta[k] = v
		}
	}
	return c
}

func sameSpan(a, b Span) bool {
	if len(a.Meta) != len(b.Meta) {
		return false
	}
	for k, v := range a.Meta {
		if w, ok := b.Meta[k]; !ok || v != w {
			return false
		}
	}
	return a.Name == b.Name && a.Service == b.Service && a.Resource == b.Resource && a.Type == b.Type && a.Start == b.Start &&
		a.Duration == b.Duration && a.SpanID == b.SpanID && a.TraceID == b.TraceID && a.ParentID == b.ParentID && a.Error == b.Error
}

// Call is one payload handed to the agent.
type Call struct {
	At, End time.Duration
	Running bool
	Err     error
	Traces  [][]Span
	orig    [][]*tracer.Span
}

func (c *Call) Spans() int {
	n := 0
	for _, t := range c.Traces {
		n += len(t)
	}
	return n
}

type Agent struct {
	Calls []*Call
	// OnSend decides what the agent does with call n.
	OnSend func(n int, c *Call) error
	// Forget drops the spans of a call when it ended.
	Forget bool
}

func (a *Agent) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	rt.Point("agent.SendTraces")
	c := &Call{At: rt.Elapsed(), Running: true, orig: traces}
	for _, t := range traces {
		var l []Span
		for _, s := range t {
			if s == nil {
				rt.Fail("the payload contains a nil span")
			}
			l = append(l, copySpan(s))
		}
		c.Traces = append(c.Traces, l)
	}
	n := len(a.Calls)
	a.Calls = append(a.Calls, c)
	var err error
	if a.OnSend != nil {
		err = a.OnSend(n, c)
	}
	c.checkUnmodified()
	c.Running, c.Err, c.End = false, err, rt.Elapsed()
	if a.Forget {
		c.orig, c.Traces = nil, nil
	}
	if err != nil {
		return &http.Response{StatusCode: 0}, err // as the real transport does
	}
	return &http.Response{StatusCode: 200, Body: http.NoBody}, nil
}

func (c *Call) checkUnmodified() {
	if len(c.orig) != len(c.Traces) {
		rt.Fail("a payload changed after it was handed over")
	}
	for i, t := range c.orig {
		if len(t) != len(c.Traces[i]) {
			rt.Fail("a payload changed after it was handed over: trace %d", i)
		}
		for j, s := range t {
			if s == nil || !sameSpan(copySpan(s), c.Traces[i][j]) {
				rt.Fail("a payload was modified after it was handed over: trace %x span %x", c.Traces[i][j].TraceID, c.Traces[i][j].SpanID)
			}
		}
	}
}

// CheckUnmodified verifies that no payload was changed since it was handed over.
func (a *Agent) CheckUnmodified() {
	for _, c := range a.Calls {
		c.checkUnmodified()
	}
}

func (a *Agent) SendServices(map[string]tracer.Service) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Body: http.NoBody}, nil
}
func (a *Agent) SetHeader(string, string) {}

// ErrAgent is the error a failing agent answers.
var ErrAgent = errors.New("agent says no")

// CheckGrouped verifies the shape of every payload: one list per trace id, no trace id twice.
func (c *Call) CheckGrouped() {
	seen := map[uint64]bool{}
	for _, t := range c.Traces {
		if len(t) == 0 {
			continue
		}
		id := t[0].TraceID
		if seen[id] {
			rt.Fail("a payload has two lists for trace %x", id)
		}
		seen[id] = true
		for _, s := range t {
			if s.TraceID != id {
				rt.Fail("a payload mixes trace %x into the list of trace %x", s.TraceID, id)
			}
		}
	}
}

func (s Span) String() string { return fmt.Sprintf("%x/%x", s.TraceID, s.SpanID) }
