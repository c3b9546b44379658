package main

import (
	"fmt"
	"sort"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/ref"
	"verif/rt"
)

// stage is the correlation stage on its own, with everything it delivered.
type stage struct {
	in   chan proxy.Span
	out  chan proxy.Trace
	got  []*delivery
	slow func(n int) // called before the n-th delivery is taken
}

type delivery struct {
	at    time.Duration
	trace proxy.Id
	spans []proxy.Span // a copy
	raw   proxy.Trace
	used  bool
}

func newStage(in, out int) *stage {
	s := &stage{in: make(chan proxy.Span, in), out: make(chan proxy.Trace, out)}
	rt.MaxJump(150 * time.Millisecond) // it wakes up every 100 ms
	rt.GoNamed("correlation", func() { zipkinproxy.ErrorCorrectSpans(s.in, s.out) })
	rt.GoNamed("receiver", func() {
		for {
			if s.slow != nil {
				s.slow(len(s.got))
			}
			t, ok := rt.Recv2(s.out)
			if !ok {
				return
			}
			d := &delivery{at: rt.Elapsed(), spans: ref.CloneAll(t), raw: t}
			if len(t) > 0 {
				d.trace = t[0].Trace
			}
			s.got = append(s.got, d)
		}
	})
	return s
}

func (s *stage) send(l ...proxy.Span) {
	for _, x := range l {
		rt.Send(s.in, ref.Clone(x))
	}
}

func until(t time.Duration) {
	if d := t - rt.Elapsed(); d > 0 {
		rt.Sleep(d)
	}
}

// of are the deliveries of a trace, in order.
func (s *stage) of(trace proxy.Id) (r []*delivery) {
	for _, d := range s.got {
		if d.trace == trace {
			d.used = true
			r = append(r, d)
		}
	}
	return
}

// index groups the deliveries by trace.
func (s *stage) index() map[proxy.Id][]*delivery {
	m := map[proxy.Id][]*delivery{}
	for _, d := range s.got {
		m[d.trace] = append(m[d.trace], d)
	}
	return m
}

// wellFormed checks what is true for every delivery: one trace id, every span id once, nothing invalid, and not
// changed any more after it was handed on.
func (s *stage) wellFormed() {
	for _, d := range s.got {
		if len(d.spans) == 0 {
			rt.Fail("an empty trace was delivered at %s", d.at)
		}
		ids := map[proxy.Id]bool{}
		for _, x := range d.spans {
			if x.Trace != d.trace {
				rt.Fail("a delivery has spans of traces %x and %x", uint64(d.trace), uint64(x.Trace))
			}
			if ids[x.Id] {
				rt.Fail("a delivery of trace %x has span %x twice", uint64(d.trace), uint64(x.Id))
			}
			ids[x.Id] = true
		}
		if len(d.raw) != len(d.spans) {
			rt.Fail("trace %x changed after it was delivered", uint64(d.trace))
		}
		if len(d.raw) > 100 {
			continue
		}
		for i := range d.raw {
			if !ref.Equal(d.raw[i], d.spans[i]) {
				rt.Fail("trace %x changed after it was delivered: %s\nbecame %s", uint64(d.trace), ref.Show(d.spans[i]), ref.Show(d.raw[i]))
			}
		}
	}
}

// byID finds a span of a delivery.
func (d *delivery) byID(id proxy.Id) *proxy.Span {
	for i := range d.spans {
		if d.spans[i].Id == id {
			return &d.spans[i]
		}
	}
	return nil
}

func (d *delivery) String() string {
	return fmt.Sprintf("at %s: %s", d.at, ref.ShowAll(d.spans))
}

// event is the arrival of a span.
type event struct {
	at   time.Duration
	span proxy.Span
}

// play gives the spans to the stage at their times and waits until end.
func (s *stage) play(ev []event, end time.Duration) {
	sort.SliceStable(ev, func(i, j int) bool { return ev[i].at < ev[j].at })
	for _, e := range ev {
		until(e.at)
		s.send(e.span)
	}
	until(end)
}

// group is a set of reports that has to be delivered together.
type group struct {
	first, last time.Duration
	reports     []proxy.Span
	dropped     bool // because of its age or size
}

const (
	quiet   = 8 * time.Second
	maxWait = 9 * time.Second
	maxAge  = 40 * time.Second
)

// groups is the reference model of buffering: the events of one trace id split where 8 seconds pass without a span;
// slack is the uncertainty of the arrival times. Ambiguous histories are errors of the harness.
func groups(ev []event, slack time.Duration) (r []*group) {
	var cur *group
	var black time.Duration
	for _, e := range ev {
		if e.span.Id == 0 || e.span.Trace == 0 {
			continue
		}
		if black > 0 {
			if e.at < black+time.Second+slack {
				panic("ambiguous history: a span arrives while its trace is discarded")
			}
			continue
		}
		if cur != nil {
			if g := e.at - cur.last; g > maxWait+slack {
				cur = nil
			} else if g > quiet-slack {
				panic(fmt.Sprint("ambiguous history: a gap of ", g))
			}
		}
		if cur != nil && e.at > cur.first+maxAge-slack {
			if e.at < cur.first+maxAge+time.Second+slack {
				panic("ambiguous history: a span arrives while its trace becomes too old")
			}
			cur.dropped = true
			black = cur.first + maxAge
			cur = nil
			continue
		}
		if cur == nil {
			cur = &group{first: e.at}
			r = append(r, cur)
		}
		cur.last = e.at
		cur.reports = append(cur.reports, e.span)
	}
	for _, g := range r {
		switch age := g.last - g.first; {
		case g.dropped:
		case age > maxAge-quiet+slack:
			g.dropped = true
		case age > maxAge-maxWait-slack:
			panic(fmt.Sprint("ambiguous history: a trace is delivered when it becomes too old: ", age))
		}
	}
	// nothing of a trace id is delivered after a group was dropped
	for i, g := range r {
		if g.dropped {
			for _, h := range r[i+1:] {
				if h.first < g.first+maxAge+time.Second+slack {
					panic("ambiguous history: a group follows a dropped one too early")
				}
				h.dropped = true
			}
			break
		}
	}
	return
}

// onTime checks the time of a delivery.
func (g *group) onTime(d *delivery, slack time.Duration) {
	if d.at < g.last+quiet-slack || d.at > g.last+maxWait+slack {
		rt.Fail("trace %x got its last span at %s and is delivered at %s", uint64(d.trace), g.last, d.at)
	}
}

// byTrace splits events.
func byTrace(ev []event) (ids []proxy.Id, m map[proxy.Id][]event) {
	m = map[proxy.Id][]event{}
	for _, e := range ev {
		if _, ok := m[e.span.Trace]; !ok {
			ids = append(ids, e.span.Trace)
		}
		m[e.span.Trace] = append(m[e.span.Trace], e)
	}
	return
}

// checkGroups compares the deliveries with the model of buffering; same compares a group with its delivery.
func (s *stage) checkGroups(ev []event, slack time.Duration, same func(g *group, d *delivery)) {
	s.wellFormed()
	ids, m := byTrace(ev)
	ix := s.index()
	for _, id := range ids {
		ds := ix[id]
		delete(ix, id)
		if id == 0 && len(ds) > 0 {
			rt.Fail("spans without a trace id are delivered: %s", ds[0])
		}
		for _, g := range groups(m[id], slack) {
			if g.dropped {
				continue
			}
			if len(ds) == 0 {
				rt.Fail("trace %x: nothing is delivered for %s\n(all spans of the trace: %s)", uint64(id), ref.ShowAll(g.reports), times(m[id]))
			}
			g.onTime(ds[0], slack)
			same(g, ds[0])
			ds = ds[1:]
		}
		if len(ds) > 0 {
			rt.Fail("trace %x: delivered although it should not: %s\n(all spans of the trace: %s)", uint64(id), ds[0], times(m[id]))
		}
	}
	for id, ds := range ix {
		rt.Fail("trace %x was delivered but never received: %s", uint64(id), ds[0])
	}
}

func times(ev []event) string {
	s := ""
	for _, e := range ev {
		s += fmt.Sprintf("%s:%x ", e.at, uint64(e.span.Id))
	}
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// sameSpans checks that the delivery has exactly the reported spans, unchanged; fake is the id of a
// synthetic root that may be there as well (0: none).
func sameSpans(g *group, d *delivery, fake proxy.Id) {
	want := map[proxy.Id]proxy.Span{}
	for _, r := range g.reports {
		want[r.Id] = r
	}
	for _, x := range d.spans {
		w, ok := want[x.Id]
		if !ok {
			if x.Id == fake && fake != 0 {
				continue
			}
			rt.Fail("trace %x: span %x is delivered but was not received for it: %s", uint64(d.trace), uint64(x.Id), d)
		}
		if !ref.Equal(x, w) {
			rt.Fail("trace %x: span %s\nis delivered as %s", uint64(d.trace), ref.Show(w), ref.Show(x))
		}
		delete(want, x.Id)
	}
	for id := range want {
		rt.Fail("trace %x: span %x is missing in the delivery %s", uint64(d.trace), uint64(id), d)
	}
}
