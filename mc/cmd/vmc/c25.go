package main

import (
	"fmt"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/datadog"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/fake"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

type arrival struct {
	at   time.Duration
	span proxy.Span
}

// sink is the agent stage on its own.
type sink struct {
	ag   *fake.Agent
	ch   chan proxy.Trace
	arr  []arrival
	next int
}

func newSink(ag *fake.Agent, buf int) *sink {
	s := &sink{ag: ag, ch: make(chan proxy.Trace, buf)}
	rt.MaxJump(2100 * time.Millisecond) // it wakes up every 2 s
	rt.GoNamed("sink", func() { datadog.Sink(ag, s.ch) })
	return s
}

// give delivers n spans of a trace.
func (s *sink) give(trace, n int) {
	var ids []int
	for i := 0; i < n; i++ {
		ids = append(ids, trace)
	}
	s.giveMixed(ids)
}

// giveMixed delivers a trace whose spans were given these trace ids by the converter.
func (s *sink) giveMixed(ids []int) {
	var tr proxy.Trace
	for _, trace := range ids {
		s.next++
		x := plain(trace, s.next, 1)
		x.Timestamp += proxy.Timestamp(s.next)
		s.arr = append(s.arr, arrival{rt.Elapsed(), x})
		tr = append(tr, x)
	}
	rt.Send(s.ch, tr)
}

// waiting counts the spans which arrived but are in no payload yet.
func (s *sink) waiting() int {
	n := len(s.arr)
	for _, c := range s.ag.Calls {
		n -= c.Spans()
	}
	return n
}

// allSent checks C25 for everything that was given to an agent that keeps up.
func (s *sink) allSent(slack time.Duration) {
	type at struct {
		at time.Duration
		n  int
		dd *fake.Span
	}
	seen := make([]at, s.next+1)
	pos := 0
	for _, c := range s.ag.Calls {
		c.CheckGrouped()
		if len(c.Traces) == 0 {
			rt.Fail("an empty payload is sent at %s", c.At)
		}
		for _, t := range c.Traces {
			if len(t) == 0 {
				rt.Fail("an empty list of spans is sent at %s", c.At)
			}
			for i := range t {
				x := &t[i]
				if x.SpanID >= uint64(len(seen)) {
					rt.Fail("span %d is sent but was never received", x.SpanID)
				}
				if seen[x.SpanID].n > 0 {
					rt.Fail("span %d is sent twice, at %s and %s", x.SpanID, seen[x.SpanID].at, c.At)
				}
				pos++
				seen[x.SpanID] = at{c.At, pos, x}
			}
		}
	}
	last := map[proxy.Id]int{}
	for i := range s.arr {
		a := &s.arr[i]
		g := seen[a.span.Id]
		if g.n == 0 {
			rt.Fail("span %d, which arrived at %s, is never sent", a.span.Id, a.at)
		}
		if w := g.at - a.at; w < -slack || w > 4*time.Second+slack {
			rt.Fail("span %d arrived at %s and is sent at %s", a.span.Id, a.at, g.at)
		}
		if g.n < last[a.span.Trace] {
			rt.Fail("the spans of trace %x are not sent in their order", uint64(a.span.Trace))
		}
		last[a.span.Trace] = g.n
		if w := ddOf(a.span); !sameDD(w, *g.dd) {
			rt.Fail("span %s is sent as %s", showDD(w), showDD(*g.dd))
		}
	}
	s.ag.CheckUnmodified()
}

func init() {
	hist := func(depth int, sizes []int, gaps []time.Duration, check func(s *sink)) {
		s := newSink(&fake.Agent{}, 256)
		rt.Sleep([]time.Duration{50 * time.Millisecond, 1950 * time.Millisecond}[rt.Choose(2)])
		for i := 0; i < depth; i++ {
			if i > 0 {
				if g := gaps[rt.Choose(len(gaps))]; g > 0 {
					rt.Sleep(g)
				}
			}
			s.give([]int{1, 2, 1, 3}[i%4], sizes[rt.Choose(len(sizes))])
			rt.Sleep(time.Microsecond)
			if n := s.waiting(); n >= 1000 {
				rt.Fail("%d spans are waiting at %s", n, rt.Elapsed())
			}
		}
		rt.Sleep(4*time.Second + time.Millisecond)
		s.allSent(time.Millisecond)
		rt.Digest(fmt.Sprint(len(s.ag.Calls)))
	}
	explore.Add(&explore.Scenario{Name: "batch histories", Prop: "C25",
		What: "every sequence of 3 traces of 1, 400, 999, 1000, 1001 or 2500 spans with gaps of 0, 0.3, 1.0, 1.7, 1.9, 2.1, 5 s at two phases of the ticker",
		Cfgs: noDeviations,
		Body: func() {
			hist(3, []int{1, 400, 999, 1000, 1001, 2500}, []time.Duration{0, 300 * time.Millisecond, time.Second, 1700 * time.Millisecond, 1900 * time.Millisecond, 2100 * time.Millisecond, 5 * time.Second}, nil)
		}})
	explore.Add(&explore.Scenario{Name: "similar traces", Prop: "C25",
		What: "60 traces of 1, 5 or 20 spans, or 3 of 8192, whose ids differ in the lowest bit, the upper half only, the sign or a middle bit only, in one batch or some of them again in later ones: sent once, grouped, in their order and as received",
		Cfgs: noDeviations,
		Body: func() {
			k, how, again := rt.Choose(4), rt.Choose(4), rt.Choose(2) == 1
			n, per := 60, []int{1, 5, 20, 8192}[k]
			if k == 3 {
				n = 3
			}
			s := newSink(&fake.Agent{}, 256)
			rt.Sleep(50 * time.Millisecond)
			for i := 0; i < n; i++ {
				s.give([]int{i + 1, (i+1)<<33 | 5, (i/2 + 1) * (1 - i%2*2), 3 | i<<21}[how], per)
				if again && i%3 == 0 {
					rt.Sleep(2100 * time.Millisecond)
					s.give([]int{i + 1, (i+1)<<33 | 5, (i/2 + 1) * (1 - i%2*2), 3 | i<<21}[how], 1)
				}
			}
			rt.Sleep(4*time.Second + time.Millisecond)
			s.allSent(time.Millisecond)
		}})
	explore.Add(&explore.Scenario{Name: "other trace ids", Prop: "C25",
		What: "3 traces of 1..4 spans in which the converter has given each span one of 3 trace ids (every assignment for the first trace), in one or several batches: grouped by the trace ids of the spans",
		Cfgs: noDeviations,
		Body: func() {
			s := newSink(&fake.Agent{}, 256)
			rt.Sleep(50 * time.Millisecond)
			gap := []time.Duration{0, 2100 * time.Millisecond}[rt.Choose(2)]
			for i, n := range []int{1 + rt.Choose(4), 2, 4} {
				var ids []int
				for k := 0; k < n; k++ {
					if i == 0 {
						ids = append(ids, 5+rt.Choose(3))
					} else {
						ids = append(ids, 5+(k*i+1)%3)
					}
				}
				s.giveMixed(ids)
				rt.Sleep(gap)
			}
			rt.Sleep(4*time.Second + time.Millisecond)
			s.allSent(time.Millisecond)
		}})
	explore.Add(&explore.Scenario{Name: "longer batch histories", Prop: "C25",
		What: "every sequence of 4 traces of 1, 500 or 1000 spans with gaps of 0, 1.0, 1.9 or 2.3 s",
		Cfgs: noDeviations,
		Body: func() {
			hist(4, []int{1, 500, 1000}, []time.Duration{0, time.Second, 1900 * time.Millisecond, 2300 * time.Millisecond}, nil)
		}})
	explore.Add(&explore.Scenario{Name: "long batch histories", Prop: "C25",
		What: "every sequence of 5 traces of 1, 500 or 1000 spans with gaps of 0, 1.0, 1.9 or 2.3 s",
		Cfgs: thoroughOnly,
		Body: func() {
			hist(5, []int{1, 500, 1000}, []time.Duration{0, time.Second, 1900 * time.Millisecond, 2300 * time.Millisecond}, nil)
		}})
	explore.Add(&explore.Scenario{Name: "steady traffic", Prop: "C25",
		What: "traces of 1..60 spans every 1, 7, 40 or 330 ms for 30 s, an agent answering at once or after 0.1 s",
		Cfgs: noDeviations,
		Body: func() {
			n := []int{1, 7, 60}[rt.Choose(3)]
			gap := []time.Duration{1, 7, 40, 330}[rt.Choose(4)] * time.Millisecond
			d := []time.Duration{0, 10 * time.Millisecond}[rt.Choose(2)]
			ag := &fake.Agent{OnSend: func(int, *fake.Call) error {
				if d > 0 {
					rt.Sleep(d)
				}
				return nil
			}}
			s := newSink(ag, 256)
			rt.Sleep(50 * time.Millisecond)
			for i := 0; rt.Elapsed() < 30*time.Second && s.next < 60000; i++ {
				s.give(1+i%9, 1+(i%n))
				rt.Sleep(gap)
				if w := s.waiting(); w >= 1000 && d == 0 {
					rt.Fail("%d spans are waiting at %s", w, rt.Elapsed())
				}
			}
			rt.Sleep(4 * time.Second)
			s.allSent(15 * time.Millisecond)
		}})
	explore.Add(&explore.Scenario{Name: "traces without spans", Prop: "C25",
		What: "1, 3 or 999 spans, alone or 3 times, while traces of which the converter left nothing keep arriving every 1 ms..1.9 s, before and after them: they are sent within the same time",
		Cfgs: noDeviations,
		Body: func() {
			n := []int{1, 3, 999}[rt.Choose(3)]
			gap := []time.Duration{1, 100, 500, 1000, 1700, 1900}[rt.Choose(6)] * time.Millisecond
			again := rt.Choose(2) == 1
			first := []time.Duration{0, 1, 3}[rt.Choose(3)] * time.Second
			s := newSink(&fake.Agent{}, 256)
			rt.Sleep(50 * time.Millisecond)
			given := 0
			for rt.Elapsed() < 15*time.Second {
				s.give(1, 0)
				if rt.Elapsed() >= first && given == 0 || again && given < 3 && rt.Elapsed() >= first+time.Duration(given)*2*time.Second {
					s.give(1+given, n)
					given++
				}
				rt.Sleep(gap)
			}
			s.allSent(15 * time.Millisecond)
		}})
	explore.Add(&explore.Scenario{Name: "batches at any time", Race: true, Prop: "C25",
		What: "two goroutines giving 600, 3, 500 and 2, 450, 1 spans around the ticks: every interleaving, select and tick order within the deviations",
		Cfgs: deviations(2, 4, everything),
		Body: func() {
			s := newSink(&fake.Agent{}, 2)
			c := []time.Duration{1990 * time.Millisecond, 0}[rt.Choose(2)]
			join(func() {
				rt.Sleep(c)
				for _, n := range []int{600, 3, 500} {
					s.give(1, n)
				}
			}, func() {
				rt.Sleep(1995 * time.Millisecond)
				for _, n := range []int{2, 450, 1} {
					s.give(2, n)
				}
			})
			rt.WaitFor("time", func() bool { return rt.Elapsed() > 12*time.Second })
			s.anyOrder()
			rt.Digest(fmt.Sprint(len(s.ag.Calls), s.ag.Calls[0].Spans(), s.ag.Calls[0].At))
		}})

	// ---- C26 ----
	// the batches are recognised by the number of their first trace
	type batch struct {
		at  time.Duration
		ids []uint64 // span ids
	}
	judge := func(ag *fake.Agent, bs []*batch, whole bool) (lost int) {
		sentAt := map[uint64]time.Duration{}
		call := map[uint64]int{}
		for n, c := range ag.Calls {
			c.CheckGrouped()
			for _, t := range c.Traces {
				for _, x := range t {
					if _, ok := sentAt[x.SpanID]; ok {
						rt.Fail("span %d is sent twice", x.SpanID)
					}
					sentAt[x.SpanID] = c.At
					call[x.SpanID] = n
				}
			}
		}
		sent := make([]bool, len(bs))
		for i, b := range bs {
			_, sent[i] = sentAt[b.ids[0]]
			for _, id := range b.ids {
				if _, ok := sentAt[id]; ok != sent[i] || ok && call[id] != call[b.ids[0]] {
					rt.Fail("batch %d is neither sent nor discarded as a whole: span %d", i, id)
				}
			}
		}
		for i, b := range bs {
			if sent[i] {
				continue
			}
			lost++
			w := 0
			for j := 0; j < i; j++ {
				if sent[j] && sentAt[bs[j].ids[0]] > b.at {
					w++
				}
			}
			if w < 8 && whole {
				rt.Fail("batch %d, which was complete at %s, is discarded while %d batches were waiting", i, b.at, w)
			}
		}
		ag.CheckUnmodified()
		return
	}
	const (
		gOK = iota
		gErr
		gSlow
		gHang
	)
	behave := func(kinds []int, until time.Duration) func(n int, c *fake.Call) error {
		return func(n int, c *fake.Call) error {
			if n >= len(kinds) {
				return nil
			}
			switch kinds[n] {
			case gErr:
				return fake.ErrAgent
			case gSlow:
				rt.Sleep(3100 * time.Millisecond)
				return fake.ErrAgent
			case gHang:
				if d := until - rt.Elapsed(); d > 0 {
					rt.Sleep(d)
				}
			}
			return nil
		}
	}
	agentAnswers := func(name string, calls, n int, cfgs func(bool) []rt.Config) {
		explore.Add(&explore.Scenario{Name: name, Prop: "C26",
			What: fmt.Sprint(n, " batches of 1000 or 4 x 250 spans every 0.11, 0.51 or 1.3 s; the first ", calls, " calls to the agent answer at once, fail, take 3.1 s or hang until 25 s, in every combination: spans are taken without delay, batches sent at most once and as a whole, none discarded while fewer than 8 wait, everything sent after the agent is back"),
			Cfgs: cfgs,
			Body: func() {
				var kinds []int
				for i := 0; i < calls; i++ {
					kinds = append(kinds, rt.Choose(4))
				}
				gap := []time.Duration{110, 510, 1300}[rt.Choose(3)] * time.Millisecond
				split := rt.Choose(2) == 1
				ag := &fake.Agent{OnSend: behave(kinds, 25*time.Second)}
				s := newSink(ag, 0)
				rt.Sleep(30 * time.Millisecond)
				var bs []*batch
				for i := 0; i < n+2; i++ {
					if i == n {
						rt.Sleep(60 * time.Second)
					}
					b := &batch{at: rt.Elapsed()}
					from := s.next
					if split {
						for k := 0; k < 4; k++ {
							s.give(1+4*i+k, 250)
						}
					} else {
						s.give(1+i, 1000)
					}
					if rt.Elapsed() != b.at {
						rt.Fail("spans were not taken for %s while the agent does %v", rt.Elapsed()-b.at, kinds)
					}
					for k := from + 1; k <= s.next; k++ {
						b.ids = append(b.ids, uint64(k))
					}
					bs = append(bs, b)
					rt.Sleep(gap)
				}
				rt.Sleep(10 * time.Second)
				lost := judge(ag, bs, true)
				for _, c := range ag.Calls {
					if c.Running {
						rt.Fail("harness: call still running")
					}
				}
				if k := len(ag.Calls); ag.Calls[k-1].At < 60*time.Second {
					rt.Fail("nothing is sent after the agent is back")
				}
				sort26(ag, bs[n].ids[0], bs[n+1].ids[0])
				rt.Digest(fmt.Sprint(lost))
			}})
	}
	agentAnswers("agent answers", 4, 22, noDeviations)
	agentAnswers("agent answers, longer", 6, 40, thoroughOnly)
	explore.Add(&explore.Scenario{Name: "long hang", Prop: "C26",
		What: "the agent hangs from call 0, 1 or 5 on for 1 or 10 minutes while a batch of 1000 spans or 3 spans arrive every 0.2, 1.1 or 2.1 s: the spans kept for later stay bounded (at most 16 batches of those given meanwhile), the later ones are sent",
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			from := []int{0, 1, 5}[rt.Choose(3)]
			end := []time.Duration{time.Minute, 10 * time.Minute}[rt.Choose(2)]
			gap := []time.Duration{200, 1100, 2100}[rt.Choose(3)] * time.Millisecond
			size := []int{1000, 3}[rt.Choose(2)]
			ag := &fake.Agent{OnSend: func(n int, c *fake.Call) error {
				if n >= from && rt.Elapsed() < end {
					rt.Sleep(end - rt.Elapsed())
				}
				return nil
			}}
			s := newSink(ag, 0)
			rt.Sleep(30 * time.Millisecond)
			k := 0
			for rt.Elapsed() < end-30*time.Second && k < 300 {
				t := rt.Elapsed()
				s.give(1+k, size)
				k++
				if rt.Elapsed() != t {
					rt.Fail("spans were not taken for %s while the agent hangs", rt.Elapsed()-t)
				}
				rt.Sleep(gap)
			}
			until(end + 20*time.Second)
			s.give(5000, size)
			s.give(5001, size)
			rt.Sleep(10 * time.Second)
			kept := 0
			got := map[uint64]bool{}
			for _, c := range ag.Calls {
				c.CheckGrouped()
				for _, t := range c.Traces {
					for _, x := range t {
						if got[x.SpanID] {
							rt.Fail("span %d is sent twice", x.SpanID)
						}
						got[x.SpanID] = true
					}
				}
				if c.At >= end || c.Running || c.End >= end {
					kept++
				}
			}
			kept -= 2 // those given when it was back
			if kept > 16 {
				rt.Fail("while the agent hung for %s, %d batches were kept for it", end, kept)
			}
			if !got[uint64(s.next)] || !got[uint64(s.next-size)] {
				rt.Fail("the agent is back but later spans are not sent")
			}
			ag.CheckUnmodified()
			rt.Digest(fmt.Sprint(len(ag.Calls)))
		}})
	explore.Add(&explore.Scenario{Name: "low traffic", Prop: "C26",
		What: "a trace of 2 spans every 0.7 s for 100 s while the agent fails, is slow or hangs for 10, 13, 40 s or forever: spans are taken without delay, sent at most once with their trace as a whole; nothing is lost within 13 s",
		Cfgs: noDeviations,
		Body: func() {
			hang := []time.Duration{10 * time.Second, 13 * time.Second, 40 * time.Second, 1000 * time.Hour}[rt.Choose(4)]
			how := rt.Choose(3)
			ag := &fake.Agent{}
			ag.OnSend = func(n int, c *fake.Call) error {
				switch {
				case how == 0 && n == 2:
					rt.Sleep(hang)
				case how == 1 && n%3 == 1:
					return fake.ErrAgent
				case how == 2:
					rt.Sleep(min(1500*time.Millisecond, hang))
				}
				return nil
			}
			s := newSink(ag, 0)
			rt.Sleep(30 * time.Millisecond)
			var bs []*batch
			for i := 0; rt.Elapsed() < 100*time.Second; i++ {
				b := &batch{at: rt.Elapsed()}
				s.give(1+i, 2)
				if rt.Elapsed() != b.at {
					rt.Fail("spans were not taken for %s", rt.Elapsed()-b.at)
				}
				b.ids = []uint64{uint64(s.next - 1), uint64(s.next)}
				bs = append(bs, b)
				rt.Sleep(700 * time.Millisecond)
			}
			if lost := judge(ag, bs, false); lost > 0 && (how != 0 || hang <= 13*time.Second) {
				// the last ones may still be waiting
				if lost > 8 {
					rt.Fail("%d traces are lost", lost)
				}
			}
			rt.Sleep(10 * time.Second)
			lost := judge(ag, bs, false)
			if lost > 0 && (how != 0 || hang <= 13*time.Second) {
				rt.Fail("%d traces are lost although at most 7 batches were waiting", lost)
			}
			rt.Digest(fmt.Sprint(lost))
		}})
	explore.Add(&explore.Scenario{Name: "whole proxy", Prop: "C26",
		What: "the whole proxy, with and without Kafka: a request of 5 spans every 0.2 s (or of 600 every 0.5 s) for 100 s while the agent answers errors, takes 5 s or 30 s per call or hangs from the start or after two calls: every request is answered within a second, all traces appear among the recent spans, later spans are sent when it is back",
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			kaf := rt.Choose(2) == 1
			how := rt.Choose(5)
			large := rt.Choose(2) == 1
			ag := &fake.Agent{}
			ag.OnSend = func(n int, c *fake.Call) error {
				switch {
				case how == 0:
					return fake.ErrAgent
				case how == 1:
					rt.Sleep(5 * time.Second)
				case how == 2:
					rt.Sleep(30 * time.Second)
				case how == 3 && n == 2:
					rt.Sleep(90 * time.Second)
				case how == 4 && n == 0:
					rt.Sleep(1000 * time.Hour)
				}
				return nil
			}
			s := sys.Boot(sys.Options{Kafka: kaf, Agent: ag})
			n, gap, per := 500, 200*time.Millisecond, 5
			if large {
				n, gap, per = 120, 500*time.Millisecond, 600
			}
			last := 0
			for i := 0; i < n; i++ {
				t := rt.Elapsed()
				var l []proxy.Span
				for k := 1; k <= per; k++ {
					l = append(l, plain(1+i, k, 1))
				}
				path, b := ref.Payload("v2", l)
				if r := s.Post(path, b); r.Code != 202 || rt.Elapsed() > t+time.Second {
					rt.Fail("request %d is answered %d after %s", i, r.Code, rt.Elapsed()-t)
				}
				last = 1 + i
				rt.Sleep(gap)
			}
			rt.Sleep(15 * time.Second)
			rec := s.Recent()
			if len(rec) != 2048 && len(rec) != n*per {
				rt.Fail("%d spans are in the recent view", len(rec))
			}
			seen := map[proxy.Id]int{}
			for _, x := range rec {
				seen[x.Trace]++
			}
			for k := 0; k < 3; k++ {
				if seen[proxy.Id(last-k)] != per {
					rt.Fail("trace %d of %d is not among the recent spans", last-k, last)
				}
			}
			sent := map[uint64]bool{}
			for _, x := range agentSpans(ag) {
				id := x.TraceID<<32 | x.SpanID
				if sent[id] {
					rt.Fail("span %s is sent twice", x)
				}
				sent[id] = true
			}
			if how == 0 && len(sent) != n*per {
				rt.Fail("an agent answering errors got %d of %d spans", len(sent), n*per)
			}
			if how == 3 {
				rt.WaitFor("time", func() bool { return rt.Elapsed() > 150*time.Second })
				s.Post(post1(9999))
				rt.Sleep(30 * time.Second)
				found := false
				for _, x := range agentSpans(ag) {
					found = found || x.TraceID == 9999
				}
				if !found {
					rt.Fail("the agent is back but later spans are not sent")
				}
			}
			ag.CheckUnmodified()
		}})
	explore.Add(&explore.Scenario{Name: "hanging at any time", Race: true, Prop: "C26",
		What: "12 batches of 1000 spans from two goroutines while one of the first three calls to the agent hangs until the end or 5 s: every interleaving, select and tick order within the deviations",
		Cfgs: deviations(2, 3, func(c *rt.Config) { c.Sched, c.Select, c.Timer = true, true, true }),
		Body: func() {
			k := rt.Choose(3)
			kinds := make([]int, 3)
			kinds[k] = gHang
			ag := &fake.Agent{OnSend: behave(kinds, 60*time.Second)}
			s := newSink(ag, 0)
			give := func(from int) func() {
				return func() {
					for i := 0; i < 6; i++ {
						s.give(from+i, 1000)
					}
				}
			}
			join(give(1), give(100))
			took := rt.Elapsed()
			rt.WaitFor("time", func() bool { return rt.Elapsed() > 70*time.Second })
			if took > 50*time.Second {
				rt.Fail("the spans were taken only at %s while the agent hangs", took)
			}
			s.give(500, 1000)
			rt.WaitFor("time", func() bool { return rt.Elapsed() > 80*time.Second })
			whole(s, ag, 1+8) // one is being sent, 8 wait
			rt.Digest(fmt.Sprint(len(ag.Calls)))
		}})
}

func post1(trace int) (string, []byte) {
	return ref.Payload("v2", []proxy.Span{plain(trace, 1, 1)})
}

// sort26 fails if the last batches, given long after the agent was back, are not sent.
func sort26(ag *fake.Agent, ids ...uint64) {
	got := map[uint64]bool{}
	for _, x := range agentSpans(ag) {
		got[x.SpanID] = true
	}
	for _, id := range ids {
		if !got[id] {
			rt.Fail("span %d, given after the agent was back, is not sent", id)
		}
	}
}

// whole checks that every trace of 1000 spans was sent at most once and as a whole and that at least min were.
func whole(s *sink, ag *fake.Agent, atLeast int) {
	n := map[uint64]int{}
	for _, c := range ag.Calls {
		c.CheckGrouped()
		for _, t := range c.Traces {
			if len(t) > 0 {
				n[t[0].TraceID] += len(t)
			}
		}
	}
	for id, k := range n {
		if k != 1000 {
			rt.Fail("%d spans of trace %d of 1000 are sent", k, id)
		}
	}
	if len(n) < atLeast || n[500] == 0 {
		rt.Fail("only %d traces are sent (the last: %v)", len(n), n[500] > 0)
	}
	ag.CheckUnmodified()
}

// anyOrder checks that everything was sent exactly once, grouped, in the order per trace.
func (s *sink) anyOrder() {
	seen := map[uint64]bool{}
	last := map[uint64]uint64{}
	n := 0
	for _, c := range s.ag.Calls {
		c.CheckGrouped()
		for _, t := range c.Traces {
			for _, x := range t {
				if seen[x.SpanID] || x.SpanID < last[x.TraceID] {
					rt.Fail("span %d of trace %d is sent twice or out of order", x.SpanID, x.TraceID)
				}
				seen[x.SpanID] = true
				last[x.TraceID] = x.SpanID
				n++
			}
		}
	}
	if n != len(s.arr) {
		rt.Fail("%d of %d spans are sent", n, len(s.arr))
	}
	s.ag.CheckUnmodified()
}
