package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/fake"
	"verif/ref"
	"verif/rt"
)

// deviations returns configurations with 0..quick (thorough: 0..deep) deviations over everything f selects.
func deviations(quick, deep int, f func(c *rt.Config)) func(bool) []rt.Config {
	return func(thorough bool) []rt.Config {
		n := quick
		if thorough {
			n = deep
		}
		var r []rt.Config
		for b := 0; b <= n; b++ {
			c := rt.Config{Bound: b}
			if b > 0 {
				f(&c)
			}
			r = append(r, c)
		}
		return r
	}
}

func schedules(c *rt.Config) { c.Sched, c.Select = true, true }
func everything(c *rt.Config) {
	c.Sched, c.Select, c.Map, c.Pool, c.Timer, c.Atomics = true, true, true, true, true, true
}

func thoroughOnly(thorough bool) []rt.Config {
	if !thorough {
		return nil
	}
	return []rt.Config{{}}
}

var noDeviations = deviations(0, 0, nil)

var base = proxy.Timestamp(rt.Base) // the clock of an execution starts here

func at(d time.Duration) proxy.Timestamp { return base.Add(d) }

// join runs the functions concurrently and waits for all.
func join(fs ...func()) {
	n := len(fs)
	for i, f := range fs {
		rt.GoNamed(fmt.Sprintf("client %d", i), func() {
			f()
			n--
		})
	}
	rt.WaitFor("clients", func() bool { return n == 0 })
	rt.Gather()
}

// tagged is the span as it comes out of the decoder of a format.
func tagged(format string, l []proxy.Span) []proxy.Span {
	r := ref.CloneAll(l)
	for i := range r {
		r[i].AddTag("protocolVersion", ref.ProtocolTag(format))
		if format == "v1" && r[i].Name == "" {
			continue
		}
	}
	return r
}

// decodeMessage is the span in a produced message.
func decodeMessage(m *sarama.ProducerMessage) proxy.Span {
	v, err := m.Value.Encode()
	if err != nil {
		rt.Fail("a message has no value: %v", err)
	}
	s, err := codec.BinaryDecode(bytes.NewReader(v))
	if err != nil {
		rt.Fail("a produced message is not decodable: %v: %x", err, v)
	}
	return s
}

func submitted(p *fake.Producer) []proxy.Span {
	rt.Gather()
	var r []proxy.Span
	for _, m := range p.Msgs {
		r = append(r, decodeMessage(m))
	}
	return r
}

func agentSpans(a *fake.Agent) (all []fake.Span) {
	for _, c := range a.Calls {
		c.CheckGrouped()
		for _, t := range c.Traces {
			all = append(all, t...)
		}
	}
	return
}

// ddOf is what the agent has to get for a span.
func ddOf(s proxy.Span) fake.Span {
	d := s.Duration
	if d < time.Microsecond {
		d = time.Microsecond
	}
	res := s.Name
	if res == "" {
		res = "(resource empty)"
	}
	var e int32
	if v, ok := s.Tags["error"]; ok && v != "false" && v != "0" {
		e = 1
	}
	return fake.Span{Name: s.Service, Service: s.Service, Resource: res, Start: int64(s.Timestamp), Duration: int64(d), Meta: s.Tags,
		SpanID: uint64(s.Id), TraceID: uint64(s.Trace), ParentID: uint64(s.Parent), Error: e, Sampled: true}
}

func showDD(s fake.Span) string {
	return fmt.Sprintf("{t=%x id=%x p=%x res=%q name=%q svc=%q start=%d dur=%d err=%d meta=%v}", s.TraceID, s.SpanID, s.ParentID, s.Resource, s.Name, s.Service, s.Start, s.Duration, s.Error, s.Meta)
}
