package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/fake"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

func postOK(s *sys.Sys, format string, l []proxy.Span) {
	path, b := ref.Payload(format, l)
	if r := s.Post(path, b); r.Code != 202 {
		rt.Fail("%s of %d spans is answered %d %s", path, len(l), r.Code, r.Body)
	}
}

// arrived checks that the agents and recent views got exactly the spans l, every trace at one agent.
func arrived(l []proxy.Span, ss ...*sys.Sys) {
	type key struct{ t, i uint64 }
	want := map[key]proxy.Span{}
	for _, x := range l {
		want[key{uint64(x.Trace), uint64(x.Id)}] = x
	}
	if len(want) != len(l) {
		panic("span ids are not unique")
	}
	seen := map[key]bool{}
	home := map[uint64]int{}
	n := 0
	for si, s := range ss {
		for _, c := range s.Agent.Calls {
			c.CheckGrouped()
			in := map[uint64]int{}
			for _, t := range c.Traces {
				for _, x := range t {
					in[x.TraceID]++
					k := key{x.TraceID, x.SpanID}
					w, ok := want[k]
					if !ok {
						rt.Fail("span %s arrives at the agent but was not sent", showDD(x))
					}
					if seen[k] {
						rt.Fail("span %x of trace %x arrives twice at the agent", x.SpanID, x.TraceID)
					}
					seen[k] = true
					if d := ddOf(w); !sameDD(d, x) {
						rt.Fail("span %s\narrives at the agent as %s", showDD(d), showDD(x))
					}
					if h, ok := home[x.TraceID]; ok && h != si {
						rt.Fail("trace %x is split over two instances", x.TraceID)
					}
					home[x.TraceID] = si
					n++
				}
			}
		}
		s.Agent.CheckUnmodified()
	}
	if n != len(l) {
		for k, w := range want {
			if !seen[k] {
				rt.Fail("%d of %d spans arrive; missing is %s", n, len(l), ref.Show(w))
			}
		}
	}
	if len(l) > 2000 {
		return
	}
	rec := map[key]bool{}
	for _, s := range ss {
		for _, x := range s.Recent() {
			k := key{uint64(x.Trace), uint64(x.Id)}
			if w, ok := want[k]; !ok || rec[k] || !ref.Equal(w, x) {
				rt.Fail("the recent view has %s\ninstead of %s (again: %v)", ref.Show(x), ref.Show(w), rec[k])
			}
			rec[k] = true
		}
	}
	if len(rec) != len(l) {
		rt.Fail("%d of %d spans are in the recent view", len(rec), len(l))
	}
}

func settle(d time.Duration) {
	end := rt.Elapsed() + d
	rt.WaitFor("time", func() bool { return rt.Elapsed() >= end })
	rt.Gather()
}

func init() {
	modes := []bool{false, true}
	explore.Add(&explore.Scenario{Name: "distributions", Prop: "C29",
		What: "a trace of 4 spans in every distribution over 3 requests, every assignment of the three formats to them, sent at once or 3 s apart, without and with Kafka, between requests with other traces (ids equal in one half, tags of all kinds), damaged payloads and an orphan pair",
		Cfgs: noDeviations,
		Body: func() {
			s := sys.Boot(sys.Options{Kafka: modes[rt.Choose(2)]})
			gap := []time.Duration{0, 3 * time.Second}[rt.Choose(2)]
			l := seqSpans(0x77, 4)
			l[3].Parent = 2
			var parts [3][]proxy.Span
			for _, x := range l {
				k := rt.Choose(3)
				parts[k] = append(parts[k], x)
			}
			var want []proxy.Span
			for i, p := range parts {
				f := ref.Formats[rt.Choose(3)]
				if len(p) > 0 {
					postOK(s, f, p)
					want = append(want, tagged(f, p)...)
				}
				path, b := ref.Payload(f, seqSpans(0x99, 2))
				s.Post(path, b[:len(b)-5])
				// an id with the same lower or upper half
				o := seqSpans([]int{0x77 | 1<<40, 0x77 ^ 1, 0x77 | 1<<32}[i], 2)
				o[0].AddTag("error", []string{"false", "0", "no"}[i])
				postOK(s, f, o)
				want = append(want, tagged(f, o)...)
				rt.Sleep(gap)
			}
			// two spans missing different parents: not a trace
			bad := []proxy.Span{span(0x66, 3, 1), span(0x66, 4, 2)}
			postOK(s, "v2", bad)
			settle(16 * time.Second)
			arrived(want, s)
		}})
	explore.Add(&explore.Scenario{Name: "shared spans", Prop: "C29",
		What: "a trace of a root, a span reported by client and server in two requests and a child of it, formats and order of the 4 requests varied, without and with Kafka: the merged span arrives",
		Cfgs: noDeviations,
		Body: func() {
			s := sys.Boot(sys.Options{Kafka: modes[rt.Choose(2)]})
			root, kid := span(5, 1, 1), span(5, 3, 2)
			cl := proxy.Span{Trace: 5, Id: 2, Parent: 1, Name: "get", Service: "front", Timestamp: at(time.Second), Duration: 10 * time.Millisecond, Tags: map[string]string{"a": "1", "both": "client"}}
			cl.Timings.CS, cl.Timings.CR = cl.Timestamp, cl.Timestamp.Add(cl.Duration)
			sv := proxy.Span{Trace: 5, Id: 2, Parent: 1, Name: "get /x", Service: "back", Timestamp: at(time.Second + 3*time.Millisecond), Duration: 4 * time.Millisecond, Tags: map[string]string{"b": "2", "both": "server"}}
			sv.Timings.SR, sv.Timings.SS = sv.Timestamp, sv.Timestamp.Add(sv.Duration)
			reqs := []proxy.Span{root, cl, sv, kid}
			fc, fs := ref.Formats[rt.Choose(3)], ref.Formats[rt.Choose(3)]
			forms := []string{"v2", fc, fs, "v1"}
			// every order of the requests
			rest := []int{0, 1, 2, 3}
			for len(rest) > 0 {
				i := rt.Choose(len(rest))
				k := rest[i]
				rest = append(rest[:i:i], rest[i+1:]...)
				postOK(s, forms[k], reqs[k:k+1])
				rt.Sleep(700 * time.Millisecond)
			}
			settle(16 * time.Second)
			m := tagged(fs, []proxy.Span{sv})[0]
			m.Timestamp, m.Duration = cl.Timestamp, cl.Duration
			m.Timings.CS, m.Timings.CR = cl.Timings.CS, cl.Timings.CR
			m.AddTag("a", "1")
			want := append(tagged("v2", []proxy.Span{root}), m)
			want = append(want, tagged("v1", []proxy.Span{kid})...)
			arrived(want, s)
		}})
	explore.Add(&explore.Scenario{Name: "two instances", Prop: "C29",
		What: "two instances sharing a topic of 1..4 partitions, each consuming some of them: the 3 spans of 6 traces posted to either instance (every assignment for one trace, rotated for the others): every trace arrives whole at one agent",
		Cfgs: noDeviations,
		Body: func() {
			parts := 1 + rt.Choose(4)
			mask := rt.Choose(8)
			br := fake.NewBroker(sys.Topic, parts)
			own := [2][]int{{}, {}}
			for p := 0; p < parts; p++ {
				own[p%2] = append(own[p%2], p)
			}
			var ss []*sys.Sys
			for i := 0; i < 2; i++ {
				o := sys.Options{Kafka: true, Broker: br, Own: own[i]}
				if len(own[i]) == 0 {
					o.NoConsume = true
				}
				ss = append(ss, sys.Boot(o))
			}
			var want []proxy.Span
			for k := 0; k < 3; k++ {
				for t := 0; t < 6; t++ {
					x := []proxy.Span{span(0x1000*(t+1)+t, 1+k, 1)}
					f := ref.Formats[(t+k)%3]
					postOK(ss[(mask>>uint((k+t)%3))&1], f, x)
					want = append(want, tagged(f, x)...)
				}
				rt.Sleep(2 * time.Second)
			}
			settle(16 * time.Second)
			arrived(want, ss...)
		}})
	explore.Add(&explore.Scenario{Name: "Kafka as configured", Prop: "C29",
		What: "two instances sharing a topic of 1, 2 or 12 partitions whose producer partitions, waits for more and limits messages, and whose consumer waits for data as the proxy configures its Kafka client: 6 traces of 3 spans posted to either instance, small ones or ones of up to 600 kB, with failed sessions in between or not; without traffic before, or after 70 failed sessions",
		Cfgs: noDeviations,
		Body: func() {
			parts := []int{1, 2, 12}[rt.Choose(3)]
			mask := rt.Choose(8)
			big := []int{0, 20000, 600000}[rt.Choose(3)]
			fails := []int{0, 2, 70}[rt.Choose(3)]
			br := fake.NewBroker(sys.Topic, parts)
			own := [2][]int{{}, {}}
			for p := 0; p < parts; p++ {
				own[p%2] = append(own[p%2], p)
			}
			var ss []*sys.Sys
			for i := 0; i < 2; i++ {
				o := sys.Options{Kafka: true, Broker: br, Own: own[i], AsConfigured: true, NoConsume: len(own[i]) == 0}
				if !o.NoConsume {
					o.OnGroup = func(g *fake.Group) {
						for i := 0; i < fails; i++ {
							g.Scripts = append(g.Scripts, fake.Script{Err: errors.New("no coordinator")})
							if fails < 10 {
								g.Scripts = append(g.Scripts, fake.Script{After: 4, EndErr: errors.New("rebalance")})
							}
						}
					}
				}
				ss = append(ss, sys.Boot(o))
			}
			var want []proxy.Span
			for k := 0; k < 3; k++ {
				for t := 0; t < 6; t++ {
					x := []proxy.Span{span(0x1000*(t+1)+t, 1+k, 1)}
					if big > 0 && t < 2 {
						x[0].AddTag("text", strings.Repeat("x", big+k))
					}
					f := ref.Formats[(t+k)%3]
					postOK(ss[(mask>>uint((k+t)%3))&1], f, x)
					want = append(want, tagged(f, x)...)
				}
				rt.Sleep(time.Second)
			}
			settle(30 * time.Second)
			arrived(want, ss...)
		}})
	explore.Add(&explore.Scenario{Name: "traffic", Prop: "C29",
		What: "300 traces of 1..12 spans in all formats over 30 s, each in up to 3 requests, with damaged and incomplete requests between them, without and with Kafka (sessions ending after 1, 7, 50 messages or every 3 s)",
		Cfgs: noDeviations,
		Body: func() {
			kaf := rt.Choose(2) == 1
			var sc []fake.Script
			if kaf {
				for i := rt.Choose(5) * 8; i > 0; i-- {
					switch i % 4 {
					case 0:
						sc = append(sc, fake.Script{After: 50})
					case 1:
						sc = append(sc, fake.Script{After: 7, EndErr: errors.New("rebalance")})
					case 2:
						sc = append(sc, fake.Script{ForTime: 3 * time.Second})
					case 3:
						sc = append(sc, fake.Script{After: 1}, fake.Script{Err: errors.New("no coordinator")})
					}
				}
			}
			s := sys.Boot(sys.Options{Kafka: kaf, Parts: 3, OnGroup: func(g *fake.Group) { g.Scripts = sc }})
			var want []proxy.Span
			for t := 0; t < 300; t++ {
				n := 1 + t*5%12
				l := seqSpans(0x100+t, n)
				for i := range l {
					l[i].Parent = proxy.Id(1 + i/2)
				}
				l[0].Parent = 1
				cut := 1 + t%3
				for c := 0; c < cut; c++ {
					p := l[c*n/cut : (c+1)*n/cut]
					if len(p) == 0 {
						continue
					}
					f := ref.Formats[(t+c)%3]
					postOK(s, f, p)
					want = append(want, tagged(f, p)...)
					if (t+c)%5 == 0 {
						path, b := ref.Payload(f, l)
						if r := s.Post(path, b[:len(b)/2]); r.Code < 400 {
							rt.Fail("damaged payload answered %d", r.Code)
						}
					}
				}
				rt.Sleep(100 * time.Millisecond)
			}
			settle(30 * time.Second)
			arrived(want, s)
		}})
	explore.Add(&explore.Scenario{Name: "large requests", Prop: "C29",
		What: "requests of 1000, 4000 and 8192 spans of one trace in each format, split in 1 or 3 requests, without and with Kafka",
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			kaf := rt.Choose(2) == 1
			n := []int{1000, 4000, 8192}[rt.Choose(3)]
			f := ref.Formats[rt.Choose(3)]
			cut := []int{1, 3}[rt.Choose(2)]
			s := sys.Boot(sys.Options{Kafka: kaf})
			l := seqSpans(0x100, n)
			for c := 0; c < cut; c++ {
				postOK(s, f, l[c*n/cut:(c+1)*n/cut])
			}
			settle(20 * time.Second)
			arrived(tagged(f, l), s)
		}})
	both := func(kaf bool) func() {
		return func() {
			s := sys.Boot(sys.Options{Kafka: kaf})
			a, b := seqSpans(7, 3), seqSpans(8, 2)
			join(func() { postOK(s, "v1", a[:2]) },
				func() { postOK(s, "v2", append(append([]proxy.Span{}, a[2:]...), b[0])) },
				func() { postOK(s, "jaeger", b[1:]) })
			settle(20 * time.Second)
			want := tagged("v1", a[:2])
			want = append(want, tagged("v2", append(append([]proxy.Span{}, a[2:]...), b[0]))...)
			want = append(want, tagged("jaeger", b[1:])...)
			arrived(want, s)
			var at []string
			for _, c := range s.Agent.Calls {
				at = append(at, fmt.Sprint(c.At, c.Spans()))
			}
			sort.Strings(at)
			rt.Digest(fmt.Sprint(at))
		}
	}
	explore.Add(&explore.Scenario{Name: "requests at once", Race: true, Prop: "C29",
		What: "two traces over three simultaneous requests of different formats, without Kafka: every interleaving, select, map order, pool answer and tick order within the deviations",
		Cfgs: deviations(2, 3, everything), Body: both(false)})
	explore.Add(&explore.Scenario{Name: "requests at once with Kafka", Race: true, Prop: "C29",
		What: "the same with Kafka",
		Cfgs: deviations(2, 3, everything), Body: both(true)})

	// ---- C30 ----
	explore.Add(&explore.Scenario{Name: "everything at once", Prop: "C30",
		What: "the whole proxy without Kafka: three simultaneous requests, readers of the recent view, an agent taking some time; spans of two traces, several batches",
		Cfgs: deviations(2, 3, everything), Body: func() { racing(false) }})
	explore.Add(&explore.Scenario{Name: "everything at once with Kafka", Prop: "C30",
		What: "the same with Kafka",
		Cfgs: deviations(2, 3, everything), Body: func() { racing(true) }})
}

// racing runs everything at once. Nothing is shared between the goroutines of the harness.
func racing(kaf bool) {
	ag := &fake.Agent{OnSend: func(n int, c *fake.Call) error {
		if n%2 == 0 {
			rt.Sleep(20 * time.Millisecond)
			return fake.ErrAgent
		}
		return nil
	}}
	s := sys.Boot(sys.Options{Kafka: kaf, Agent: ag, OnProducer: func(p *fake.Producer) {
		p.Flush = time.Second
		p.Fail = func(i int) bool { return i == 1 }
	}})
	bad, bb := ref.Payload("v1", seqSpans(9, 3))
	join(func() {
		postOK(s, "v1", seqSpans(7, 2))
		rt.Sleep(9 * time.Second)
		s.Recent()
	}, func() {
		postOK(s, "v2", append(seqSpans(7, 3), seqSpans(8, 1)...))
		rt.Sleep(9 * time.Second)
		postOK(s, "v2", seqSpans(10, 2))
		s.Recent()
	}, func() {
		postOK(s, "jaeger", seqSpans(8, 2))
		s.Post(bad, bb[:len(bb)-4])
		rt.Sleep(8900 * time.Millisecond)
		s.Recent()
	})
	settle(14 * time.Second)
	n := 0
	for _, c := range ag.Calls {
		n += c.Spans()
	}
	// all traces are posted at least once; with Kafka one message is lost
	if min := 7; n < min-map[bool]int{true: 3}[kaf] || n > 7 {
		rt.Fail("%d spans arrive at the agent", n)
	}
	rt.Digest(fmt.Sprint(n, len(ag.Calls)))
}
