package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/fake"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

// What takes minutes, hours or days, and comes back.

func init() {
	stalls := []time.Duration{time.Second, 6 * time.Second, 11 * time.Second, 31 * time.Second, 61 * time.Second, 6 * time.Minute, 11 * time.Minute, 61 * time.Minute, 25 * time.Hour}
	explore.Add(&explore.Scenario{Name: "long stalls", Prop: "C13",
		What: "40 spans, a producer that takes nothing for 1 s to 25 h, at the start, after 1, 7 or 20 messages, once or again after every 7th message, each delivery failing or none, queues of 2 or 256: all submitted in order",
		Cfgs: noDeviations,
		Body: func() {
			d := stalls[rt.Choose(len(stalls))]
			at := []int{0, 1, 7, 20}[rt.Choose(4)]
			again, fail := rt.Choose(2) == 1, rt.Choose(2) == 1
			done, next := at, time.Duration(0)
			ss, ps, _ := newSenders(1, nil, func(i int, p *fake.Producer) {
				p.Gate = func() bool {
					switch {
					case len(p.Msgs) < done:
						return true
					case next == 0:
						next = rt.Elapsed() + d
						return false
					case rt.Elapsed() < next:
						return false
					}
					next = 0
					if done = 1 << 30; again {
						done = len(p.Msgs) + 7
					}
					return true
				}
				p.Fail = func(int) bool { return fail }
				p.Flush = d / 3
			})
			ch := make(chan proxy.Span, []int{2, 256}[rt.Choose(2)])
			rt.GoNamed("sender", func() { ss[0].Send(ch) })
			var l []proxy.Span
			rt.GoNamed("source", func() {
				for i := 0; i < 40; i++ {
					x := span(1+i%3, 1+i, 1)
					l = append(l, x)
					rt.Send(ch, ref.Clone(x))
				}
			})
			end := 9 * d
			rt.WaitFor("time", func() bool { return rt.Elapsed() > end })
			if len(ps[0].Msgs) != 40 {
				rt.Fail("%d of 40 spans are submitted to the producer", len(ps[0].Msgs))
			}
			checkMessages(ps[0].Msgs, l)
		}})

	explore.Add(&explore.Scenario{Name: "Kafka away", Prop: "C29",
		What: "the consumer group is not available for 3 s, 1, 5 or 9 minutes (at first, or after 3 messages), or the producer takes nothing for as long, or both; the topic keeps messages as long as the proxy asked for; 10 traces of 3 spans, of now, an hour or a year ago or ahead of time, posted meanwhile and 10 afterwards: all arrive",
		Cfgs: noDeviations,
		Body: func() {
			d := []time.Duration{3 * time.Second, time.Minute, 5 * time.Minute, 9 * time.Minute}[rt.Choose(4)]
			who := 1 + rt.Choose(3)
			first := rt.Choose(2) == 0
			f := ref.Formats[rt.Choose(3)]
			shift := []time.Duration{0, -time.Hour, time.Hour, -9000 * time.Hour}[rt.Choose(4)]
			var want []proxy.Span
			s := sys.Boot(sys.Options{Kafka: true, Parts: 3, AsConfigured: rt.Choose(2) == 1, OnGroup: func(g *fake.Group) {
				if who&1 != 0 {
					if !first {
						g.Scripts = append(g.Scripts, fake.Script{After: 3, EndErr: errors.New("rebalance")})
					}
					for i := 0; i < 4; i++ {
						g.Scripts = append(g.Scripts, fake.Script{Wait: d / 4, Err: errors.New("no coordinator")})
					}
				}
			}, OnProducer: func(p *fake.Producer) {
				if who&2 != 0 {
					p.Gate = func() bool { return !first && len(p.Msgs) < 3 || rt.Elapsed() > d }
				}
			}})
			post := func(from int) {
				for t := from; t < from+10; t++ {
					l := []proxy.Span{span(t, 1, 1), span(t, 2, 1), span(t, 3, 2)}
					for i := range l {
						l[i].Timestamp += proxy.Timestamp(shift)
					}
					postOK(s, f, l)
					want = append(want, tagged(f, l)...)
				}
			}
			post(0x100)
			until(d + 30*time.Second)
			post(0x1000)
			settle(40 * time.Second)
			arrived(want, s)
		}})

	explore.Add(&explore.Scenario{Name: "view of the whole proxy", Prop: "C27",
		What: "/admin/spans read before, between and after 12 waves of 40 to 700 spans in traces of 1, 7 or 100 spans (2048 are kept), without and with Kafka, every wave, every second one or only the last read: the last spans the converter let pass, in order",
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			var passed []proxy.Span
			n := 0
			s := sys.Boot(sys.Options{Kafka: rt.Choose(2) == 1, Converter: func(x proxy.Span) (proxy.Span, error) {
				if n++; n%11 == 3 {
					return x, errors.New("left out")
				}
				passed = append(passed, ref.Clone(x))
				return x, nil
			}})
			size := []int{1, 7, 100}[rt.Choose(3)]
			wave := []int{40, 100, 350, 700}[rt.Choose(4)]
			every := []int{1, 2, 12}[rt.Choose(3)]
			read := func(what string) {
				if got := s.Recent(); !ref.EqualAll(got, lastN(passed, 2048)) {
					rt.Fail("%s: %d spans passed the converter, /admin/spans has %d: %s", what, len(passed), len(got), clips(ref.ShowAll(got)))
				}
			}
			if every == 1 {
				read("before")
			}
			for w := 0; w < 12; w++ {
				var l []proxy.Span
				for i := 0; i < wave; i++ {
					l = append(l, span(0x1000*(w+1)+i/size, 1+i%size, 1))
				}
				postOK(s, ref.Formats[w%3], l)
				settle(12 * time.Second)
				if w%every == every-1 {
					read(fmt.Sprintf("wave %d", w))
					read(fmt.Sprintf("wave %d again", w))
				}
			}
		}})
}
