package main

import (
	"fmt"
	"math/bits"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/rt"
)

// sums of these are never near 8 or 9 seconds
var gaps = []time.Duration{0, 1300 * time.Millisecond, 3900 * time.Millisecond, 7900 * time.Millisecond, 9400 * time.Millisecond}

const t0 = 50 * time.Millisecond // between two ticks

// symbol k of the alphabet of arrivals in namespace ns
func symbol(k, ns int) proxy.Span {
	// trace ids from the whole range; those of a namespace differ in one bit, those of different ones in at least one
	c := 1 + ns
	a := c | c<<21 | c<<42
	b := a ^ 1<<(ns%64)
	s := span(a, 1, 1)
	switch k {
	case 0:
	case 1:
		s = span(a, 2, 1)
	case 2:
		s = span(b, 1, 1)
	case 3: // from all over the range
		s = span(b, 2, 1)
		s.Id = oddIds[ns%len(oddIds)]
	case 4:
		s = span(a, 9, 1)
		s.Id = 0
	case 5:
		s = span(a, 3, 1)
		s.Trace = 0
	default:
		s = span(a, 3, 1)
	}
	switch ns / 7 % 6 {
	case 1:
		s.Name, s.Duration = "", 0
	case 2:
		s.Service, s.Duration = "", -time.Hour
	case 3:
		s.Tags, s.Duration = nil, 1<<62
	case 4:
		s.Name, s.Service, s.Tags = "", "", map[string]string{"": ""}
	case 5:
		if s.IsRoot() {
			s.Timestamp = proxy.Timestamp(ns % 3)
		}
	}
	return s
}

var oddIds = []proxy.Id{-5, -1, -1 << 63, 1<<63 - 1, 1<<32 | 1, 1<<63 - 1<<32, -1<<63 + 1, 2, 1 << 62, 0x100000001}

func sameStar(g *group, d *delivery) {
	fake := proxy.Id(0)
	n := 0
	for _, r := range g.reports {
		if r.Id != 1 {
			n++
		}
	}
	if n >= 2 {
		fake = 1 // roots missing their parent
	}
	sameSpans(g, d, fake)
}

// short histories only, that no trace becomes too old
func arrivals(symbols, depth int) {
	var gs []time.Duration
	for i := 1; i < depth; i++ {
		gs = append(gs, gaps[rt.Choose(len(gaps))])
	}
	if sum := gs[0] + gs[len(gs)-1]; len(gs) == 4 && sum == 15800*time.Millisecond && gs[1]+gs[2] == sum {
		return // as old as is allowed: left to C21
	}
	total := 1
	for i := 0; i < depth; i++ {
		total *= symbols
	}
	var ev []event
	at := t0
	for i := 0; i < depth; i++ {
		if i > 0 {
			at += gs[i-1]
		}
		div := 1
		for j := 0; j < i; j++ {
			div *= symbols
		}
		for ns := 0; ns < total; ns++ {
			ev = append(ev, event{at, symbol(ns/div%symbols, ns)})
		}
	}
	s := newStage(256, 64)
	s.play(ev, at+9500*time.Millisecond)
	if len(ev) > 39000 {
		panic("too many spans")
	}
	n := len(s.got)
	until(at + 60*time.Second)
	if len(s.got) != n {
		rt.Fail("%s is delivered again or far too late", s.got[n])
	}
	s.checkGroups(ev, time.Millisecond, sameStar)
	rt.Digest(fmt.Sprint(n))
}

func init() {
	explore.Add(&explore.Scenario{Name: "arrival histories", Prop: "C17",
		What: "every sequence of 4 arrivals over 7 spans (two traces with a common span id, an id with the highest bit, zero span id, zero trace id) with every 3 gaps of 0, 1.3, 3.9, 7.9 and 9.4 s; the sequences of one choice of gaps run at the same time",
		Cfgs: noDeviations,
		Body: func() { arrivals(7, 4) }})
	// nothing else is received in between
	alone := func(symbols, depth int, gaps []time.Duration) {
		var ev []event
		at, ns, sum := t0, rt.Choose(2)*17, time.Duration(0)
		for i := 0; i < depth; i++ {
			if i > 0 {
				g := gaps[rt.Choose(len(gaps))]
				at, sum = at+g, sum+g
			}
			ev = append(ev, event{at, symbol(rt.Choose(symbols), ns)})
		}
		if sum > 31*time.Second && gaps[1] < 8*time.Second {
			return // left to C21
		}
		s := newStage(256, 64)
		s.play(ev, at+9500*time.Millisecond)
		n := len(s.got)
		until(at + 20*time.Second)
		if len(s.got) != n {
			rt.Fail("%s is delivered again or far too late", s.got[n])
		}
		s.checkGroups(ev, time.Millisecond, sameStar)
		rt.Digest(fmt.Sprint(n))
	}
	explore.Add(&explore.Scenario{Name: "one history at a time", Prop: "C17", Heavy: true,
		What: "every sequence of 4 arrivals over 4 spans of two traces with every 3 of 4 gaps, and of 5 arrivals over 3 of them with gaps of 0 and 9.4 s, with nothing else arriving in between",
		Cfgs: noDeviations,
		Body: func() {
			if rt.Choose(2) == 0 {
				alone(4, 4, []time.Duration{0, 3900 * time.Millisecond, 7900 * time.Millisecond, 9400 * time.Millisecond})
			} else {
				alone(3, 5, []time.Duration{0, 9400 * time.Millisecond})
			}
		}})
	explore.Add(&explore.Scenario{Name: "long uptime", Prop: "C17",
		What: "no or some traces, then the process is idle for a second, an hour, 2, 30, 500 or 20000 days, then every sequence of 3 arrivals over 3 spans with gaps of 0, 3.9 and 9.4 s",
		Cfgs: noDeviations,
		Body: func() {
			before, days := rt.Choose(2)*30, rt.Choose(6)
			gs := []time.Duration{gaps[[]int{0, 2, 4}[rt.Choose(3)]], gaps[[]int{0, 2, 4}[rt.Choose(3)]], 0}
			s := newStage(256, 64)
			var ev []event
			for i := 0; i < before; i++ {
				ev = append(ev, event{t0 + time.Duration(i)*100*time.Millisecond, span(0x300+i, 1, 1)})
			}
			s.play(ev, t0+13*time.Second)
			rt.Pause([]time.Duration{time.Second, time.Hour, 2 * 24 * time.Hour, 30 * 24 * time.Hour, 500 * 24 * time.Hour, 20000 * 24 * time.Hour}[days])
			rt.Sleep(time.Second)
			at := (rt.Elapsed()/(100*time.Millisecond)+2)*100*time.Millisecond + t0
			var later []event
			for i := 0; i < 3; i++ {
				later = append(later, event{at, symbol(rt.Choose(3), 17)})
				at += gs[i]
			}
			s.play(later, at+9500*time.Millisecond)
			s.checkGroups(append(ev, later...), time.Millisecond, sameStar)
			rt.Digest(fmt.Sprint(len(s.got)))
		}})
	explore.Add(&explore.Scenario{Name: "after other traces", Prop: "C17",
		What: "1, 300 or 9000 traces at once, one or three times, that are delivered, have two roots, a cycle, get a synthetic root, are made of many reports of one span, are too large or too old, and after them traces of 1, 2, 100, 4000 and 8192 spans, the smallest or the largest first, each whole and with nothing else",
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			kind, n, waves, up := rt.Choose(7), []int{1, 300, 9000}[rt.Choose(3)], 1+2*rt.Choose(2), rt.Choose(2)
			s := newStage(256, 64)
			for w := 0; w < waves; w++ {
				for i := 0; i < n; i++ {
					t := 0x10000 + w*n + i
					switch kind {
					case 0:
						s.send(plain(t, 1, 1), plain(t, 2, 1), plain(t, 3, 2))
					case 1:
						s.send(plain(t, 1, 7), plain(t, 2, 8), plain(t, 3, 2))
					case 2:
						s.send(plain(t, 1, 2), plain(t, 2, 3), plain(t, 3, 1))
					case 3:
						s.send(plain(t, 1, 7), plain(t, 2, 7), plain(t, 3, 2))
					case 4:
						s.send(plain(t, 1, 1), plain(t, 1, 1), plain(t, 1, 1))
					case 5:
						if i < 3 {
							for k := 8193; k > 0; k-- {
								s.send(plain(t, k, 1))
							}
						}
					case 6:
						if i < 40 {
							for k := 0; k < 11; k++ {
								if i == 0 && k > 0 {
									rt.Sleep(4 * time.Second)
								}
								if i == 0 {
									for j := 0; j < min(n, 40); j++ {
										s.send(plain(t+j, 1+k, 1))
									}
								}
							}
						}
					}
				}
				rt.Sleep(9500 * time.Millisecond)
			}
			before := len(s.got)
			if kind == 0 || kind == 3 || kind == 4 {
				if before != n*waves {
					rt.Fail("%d of %d traces are delivered", before, n*waves)
				}
			} else if before != 0 {
				rt.Fail("delivered although it should not: %s", s.got[0])
			}
			sizes := [][]int{{1, 2, 100, 4000, 8192}, {8192, 4000, 100, 2, 1}}[up]
			for i, k := range sizes {
				for j := k; j > 0; j-- {
					s.send(plain(0x100+i, j, 1))
				}
			}
			rt.Sleep(9500 * time.Millisecond)
			s.wellFormed()
			ix := s.index()
			for i, k := range sizes {
				checkWhole(ix[proxy.Id(0x100+i)], 0x100+i, k)
			}
			if len(s.got) != before+len(sizes) {
				rt.Fail("%d traces are delivered instead of %d", len(s.got)-before, len(sizes))
			}
		}})
	explore.Add(&explore.Scenario{Name: "odd spans", Prop: "C17",
		What: "traces of one span or of a root and a child for each combination of 11 trace ids, 11 span ids, parent (itself, none, missing, the trace id), 5 start times, 5 durations and present or absent texts: each delivered once, as received",
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			top := rt.Choose(11)
			child := rt.Choose(2) == 1
			ids := append([]proxy.Id{1}, oddIds...)
			var ev []event
			n := 0
			for _, id := range ids {
				for p := 0; p < 4; p++ {
					for ts := 0; ts < 5; ts++ {
						for du := 0; du < 5; du++ {
							// the trace id: one of the odd ones, made unique in the bits around the middle
							s := proxy.Span{Id: id, Trace: ids[top] ^ proxy.Id(n)<<16}
							n++
							s.Parent = []proxy.Id{id, 0, 0x7777, s.Trace}[p]
							s.Timestamp = []proxy.Timestamp{0, 1, at(time.Hour), -1, 1<<63 - 1}[ts]
							s.Duration = []time.Duration{0, 1, time.Hour, -1, 1<<63 - 1}[du]
							if n%2 == 0 {
								s.Name, s.Tags = "n", map[string]string{"error": ""}
							}
							if n%3 == 0 {
								s.Service = "s"
							}
							if s.Trace == 0 {
								continue
							}
							ev = append(ev, event{t0, s})
							if child {
								x := span(1, 1, 1)
								x.Id, x.Parent, x.Trace = 0x5555, id, s.Trace
								ev = append(ev, event{t0 + time.Duration(n%3)*time.Second, x})
							}
						}
					}
				}
			}
			s := newStage(256, 64)
			s.play(ev, 25*time.Second)
			s.checkGroups(ev, time.Millisecond, func(g *group, d *delivery) { sameSpans(g, d, 0) })
			rt.Digest(fmt.Sprint(len(ev)))
		}})
	explore.Add(&explore.Scenario{Name: "longer arrival histories", Prop: "C17",
		What: "every sequence of 5 arrivals over 3 spans of two traces with every 4 of the gaps that keeps a trace younger than 31 s",
		Cfgs: noDeviations,
		Body: func() {
			if rt.Choose(2) == 0 {
				arrivals(3, 5)
			} else {
				arrivals(2, 5)
			}
		}})
	explore.Add(&explore.Scenario{Name: "large traces", Prop: "C17",
		What: "a trace of 1, 2, 3, 255..257, 3000, 8191 or 8192 spans whose ids arrive ascending, descending, alternating from both ends, bit-reversed, with both signs or in two halves 5 s apart, next to 20 small traces",
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			n := []int{1, 2, 3, 255, 256, 257, 3000, 8191, 8192}[rt.Choose(9)]
			order := rt.Choose(6)
			id := func(i int) proxy.Id {
				switch order {
				case 0, 5:
					return proxy.Id(1 + i)
				case 1:
					return proxy.Id(n - i)
				case 2:
					if i%2 == 0 {
						return proxy.Id(1 + i/2)
					}
					return proxy.Id(n - i/2)
				case 3:
					return proxy.Id(bits.Reverse64(uint64(1 + i)))
				default:
					v := proxy.Id(1 + i)
					if i%2 == 1 {
						v = -v
					}
					return v
				}
			}
			root := id(n / 2)
			var ev []event
			for i := 0; i < n; i++ {
				x := span(7, 1, 1)
				x.Id, x.Parent, x.Name = id(i), root, fmt.Sprint("op", i)
				t := t0
				if order == 5 && i >= n/2 {
					t += 5 * time.Second
				}
				ev = append(ev, event{t, x})
			}
			for k := 0; k < 20; k++ {
				ev = append(ev, event{t0 + time.Duration(k)*300*time.Millisecond, span(100+k, 1, 1)}, event{t0 + time.Duration(k)*300*time.Millisecond, span(100+k, 2, 1)})
			}
			s := newStage(256, 64)
			s.play(ev, 25*time.Second)
			s.checkGroups(ev, time.Millisecond, func(g *group, d *delivery) { sameSpans(g, d, 0) })
			rt.Digest(fmt.Sprint(n))
		}})
	explore.Add(&explore.Scenario{Name: "many traces", Prop: "C17", Heavy: true,
		What: "1000, 17000 or 35000 traces of one span, or 17000 of two, received at once or within 3 s, whose ids are consecutive, differ in the upper half only, in the middle, are negative or multiples of 1000: each delivered once, within a second of its 8 s",
		Cfgs: noDeviations,
		Body: func() {
			k, how, spread := rt.Choose(4), rt.Choose(5), rt.Choose(2) == 1
			n := []int{1000, 17000, 35000, 17000}[k]
			var ev []event
			for i := 0; i < n; i++ {
				x := span(1, 1, 1)
				t := proxy.Id(i + 1)
				x.Trace = []proxy.Id{t, t<<32 | 7, t<<20 | 1, -t, t * 1000}[how]
				x.Id, x.Parent = x.Trace, x.Trace
				e := event{t0, x}
				if spread {
					e.at += time.Duration(i/(n/30)) * 100 * time.Millisecond
				}
				ev = append(ev, e)
				if k == 3 {
					y := x
					y.Id = x.Id ^ 1<<40
					ev = append(ev, event{e.at, y})
				}
			}
			s := newStage(256, 64)
			s.play(ev, 15*time.Second)
			s.checkGroups(ev, time.Millisecond, func(g *group, d *delivery) { sameSpans(g, d, 0) })
			rt.Digest(fmt.Sprint(n))
		}})
	explore.Add(&explore.Scenario{Name: "right after delivery", Prop: "C17",
		What: "while 128 traces become due and are delivered, at 60 times from 7.9 to 10.9 s: a first span of 8 other traces each, whose ids differ in the sign, one bit or the upper half only, and a further span of the same trace: nothing is lost or delivered twice; with 1 or 3 spans per trace",
		Cfgs: noDeviations,
		Body: func() {
			per := []int{1, 3}[rt.Choose(2)]
			back := []int{0, 2}[rt.Choose(2)] // again a delivered trace id after some time
			var ev []event
			same := map[proxy.Id]map[proxy.Id]int{} // trace ids met again: what has to arrive over all
			total := 0
			for k := 0; k < 120; k++ {
				a := proxy.Id(1+k)<<20 | proxy.Id(k+1)
				late := 7900*time.Millisecond + time.Duration(k/2)*50*time.Millisecond + time.Duration(k%2)*time.Microsecond
				for i := 1; i <= per; i++ {
					x := span(1, i, 1)
					x.Trace = a
					ev = append(ev, event{t0, x})
				}
				for j, b := range []proxy.Id{-a, a ^ -1<<63, a | 1<<40, a | 1<<32, a ^ 1<<31, a ^ 1<<19, a<<32 | 0x55, a | 3<<50} {
					for i := 1; i <= 1+j%2; i++ {
						x := span(1, i, 1)
						x.Trace = b
						ev = append(ev, event{late, x})
					}
				}
				if k%3 != 0 {
					continue
				}
				x := span(1, 7, 1)
				x.Trace = a
				late += time.Duration(back) * time.Second
				m := map[proxy.Id]int{7: 1}
				for i := 1; i <= per; i++ {
					m[proxy.Id(i)] = 1
				}
				same[a] = m
				ev = append(ev, event{late, x})
			}
			s := newStage(256, 64)
			s.play(ev, 40*time.Second)
			s.wellFormed()
			for _, d := range s.got {
				if m := same[d.trace]; m != nil {
					for _, x := range d.spans {
						if m[x.Id]--; m[x.Id] != 0 {
							rt.Fail("trace %x: span %x is delivered twice or was not received", uint64(d.trace), uint64(x.Id))
						}
						delete(m, x.Id)
					}
				}
				total += len(d.spans)
			}
			for id, m := range same {
				if len(m) != 0 {
					rt.Fail("trace %x: %d spans are not delivered", uint64(id), len(m))
				}
			}
			if total != len(ev) {
				rt.Fail("%d of %d spans are delivered", total, len(ev))
			}
			// those met again may belong to the same delivery or not: only the others are compared with the model
			var rest []event
			for _, e := range ev {
				if same[e.span.Trace] == nil {
					rest = append(rest, e)
				}
			}
			var got []*delivery
			for _, d := range s.got {
				if same[d.trace] == nil {
					got = append(got, d)
				}
			}
			s.got = got
			s.checkGroups(rest, time.Millisecond, func(g *group, d *delivery) { sameSpans(g, d, 0) })
		}})
	explore.Add(&explore.Scenario{Name: "arrivals at once", Race: true, Prop: "C17",
		What: "two goroutines giving 6 spans of three traces, near the end of the quiet time of the first trace, while a receiver takes the traces: every interleaving, select and tick order within the deviations",
		Cfgs: deviations(2, 3, everything),
		Body: func() {
			const slack = 400 * time.Millisecond
			s := newStage(2, 2)
			near := []time.Duration{7 * time.Second, 10 * time.Second}[rt.Choose(2)]
			a := []event{{t0, span(1, 1, 1)}, {near, span(1, 2, 1)}, {near, span(2, 1, 1)}}
			b := []event{{t0, span(2, 2, 1)}, {near, span(3, 1, 1)}, {near + 20*time.Millisecond, span(3, 2, 1)}}
			run := func(l []event) func() {
				return func() {
					for i := range l {
						until(l[i].at)
						s.send(l[i].span)
						l[i].at = max(l[i].at, rt.Elapsed())
					}
				}
			}
			join(run(a), run(b))
			rt.WaitFor("time", func() bool { return rt.Elapsed() > near+20*time.Second })
			ev := append(append([]event{}, a...), b...)
			for i := range ev {
				for j := i + 1; j < len(ev); j++ {
					if ev[j].at < ev[i].at {
						ev[i], ev[j] = ev[j], ev[i]
					}
				}
			}
			s.checkGroups(ev, slack, sameStar)
			o := ""
			for _, d := range s.got {
				o += fmt.Sprint(d.at, " ", uint64(d.trace), " ", len(d.spans), "; ")
			}
			rt.Digest(o)
		}})
	explore.Add(&explore.Scenario{Name: "busy receiver", Prop: "C17",
		What: "300 traces finishing at the same tick while the receiver takes one per 0, 10 or 25 ms or pauses 3 or 29 s, with spans of other traces arriving meanwhile: still each exactly once and complete",
		Cfgs: noDeviations,
		Body: func() {
			how := rt.Choose(6)
			s := newStage(256, 64)
			s.slow = func(n int) {
				switch {
				case how == 1:
					rt.Sleep(10 * time.Millisecond)
				case how == 2:
					rt.Sleep(25 * time.Millisecond)
				case how == 3 && n == 100:
					rt.Sleep(3 * time.Second)
				case how == 4 && n == 100, how == 5 && n == 170:
					rt.Sleep(29 * time.Second) // no trace becomes older than 40 s
				}
			}
			for k := 0; k < 300; k++ {
				s.send(span(100+k, 1, 1), span(100+k, 2, 1))
			}
			until(9 * time.Second)
			for k := 0; k < 600; k++ {
				s.send(span(1000+k, 1, 1), span(1000+k, 2, 1))
			}
			until(90 * time.Second)
			s.wellFormed()
			ix := s.index()
			for k := 0; k < 900; k++ {
				id := 100 + k
				if k >= 300 {
					id += 600
				}
				ds := ix[proxy.Id(id)]
				if len(ds) != 1 {
					rt.Fail("trace %x is delivered %d times", id, len(ds))
				}
				sameSpans(&group{reports: []proxy.Span{span(id, 1, 1), span(id, 2, 1)}}, ds[0], 0)
			}
		}})
}
