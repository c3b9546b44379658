package main

import (
	"fmt"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/rt"
)

// unambiguous tells whether the model of buffering decides a history.
func unambiguous(ev []event, slack time.Duration) (ok bool) {
	defer func() { ok = recover() == nil }()
	groups(ev, slack)
	return
}

// plain is a small span for large numbers of them.
func plain(trace, id, parent int) proxy.Span {
	return proxy.Span{Trace: proxy.Id(trace), Id: proxy.Id(id), Parent: proxy.Id(parent), Name: "op", Service: "svc", Timestamp: base, Duration: 5000}
}

func checkWhole(ds []*delivery, trace, n int) {
	if len(ds) != 1 {
		rt.Fail("trace %x of %d spans is delivered %d times", trace, n, len(ds))
	}
	if len(ds[0].spans) != n {
		rt.Fail("trace %x of %d spans is delivered with %d spans", trace, n, len(ds[0].spans))
	}
}

func init() {
	sizes := []int{8190, 8191, 8192, 8193, 8194, 9000, 16384, 16385, 20000, 32768, 40000, 65535, 65536, 65537, 65546, 70000, 73728, 73729, 131073}
	explore.Add(&explore.Scenario{Name: "sizes", Prop: "C21",
		What: fmt.Sprintf("a trace of %v distinct spans, each reported once or twice, in one burst, in four bursts 0.5 s apart or the last 10 s after the burst, next to 30 small traces and one of 8192 spans; then three more spans of the trace 12 s later and 30 s later", sizes),
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			n := sizes[rt.Choose(len(sizes))]
			mode := rt.Choose(4)
			s := newStage(256, 64)
			s.send(span(100, 1, 1), span(100, 2, 1))
			if mode != 1 {
				for i := 8192; i >= 1; i-- {
					s.send(plain(50, i, 1))
				}
			}
			for i := 0; i < n; i++ {
				if mode == 2 && i > 0 && i%(n/4) == 0 {
					rt.Sleep(500 * time.Millisecond)
				}
				if mode == 3 && i == n-1 {
					rt.Sleep(7 * time.Second)
				}
				s.send(plain(7, n-i, n)) // the fast order for the stage
				if mode == 1 {
					s.send(plain(7, n-i, n))
				}
				if i%(n/25) == 0 {
					k := 101 + i/(n/25)
					s.send(span(k, 1, 1), span(k, 2, 1))
				}
			}
			rt.Sleep(12 * time.Second)
			for i := 1; i <= 3; i++ {
				s.send(plain(7, i, 1))
			}
			rt.Sleep(12 * time.Second)
			if n <= 8192 {
				ds := s.index()[7]
				if len(ds) != 2 {
					rt.Fail("a trace of %d spans and 3 later ones are delivered in %d pieces", n, len(ds))
				}
				checkWhole(ds[:1], 7, n)
				checkWhole(ds[1:], 7, 3)
			}
			s.send(plain(7, 1, 1))
			rt.Sleep(12 * time.Second)
			s.wellFormed()
			ix := s.index()
			if n > 8192 && len(ix[7]) > 0 {
				rt.Fail("a trace of %d distinct spans was discarded but delivered with %d spans at %s", n, len(ix[7][0].spans), ix[7][0].at)
			}
			if mode != 1 {
				checkWhole(ix[50], 50, 8192)
			}
			for k := 100; k <= 125; k++ {
				checkWhole(ix[proxy.Id(k)], k, 2)
			}
		}})
	explore.Add(&explore.Scenario{Name: "ages", Prop: "C21",
		What: "every sequence of 2..7 spans with gaps of 3.9, 5.1, 7.9 or 9.4 s (as far as they decide whether the trace is older than 40 s), one trace id each, followed by two spans 25 s and one 60 s later",
		Cfgs: noDeviations,
		Body: func() {
			gs := []time.Duration{3900 * time.Millisecond, 5100 * time.Millisecond, 7900 * time.Millisecond, 9400 * time.Millisecond}
			first := gs[rt.Choose(4)]
			var ev []event
			trace, skipped := 0x1000, 0
			var rec func(at []time.Duration)
			rec = func(at []time.Duration) {
				var h []event
				for i, t := range at {
					h = append(h, event{t, span(trace, 1+i%3, 1)})
				}
				l := at[len(at)-1]
				h = append(h, event{l + 25*time.Second, span(trace, 5, 1)}, event{l + 26*time.Second, span(trace, 1, 1)}, event{l + 60*time.Second, span(trace, 1, 1)})
				if unambiguous(h, 100*time.Millisecond) {
					ev = append(ev, h...)
					trace++
				} else {
					skipped++
				}
				if len(at) < 7 {
					for _, g := range gs {
						rec(append(at[:len(at):len(at)], l+g))
					}
				}
			}
			rec([]time.Duration{t0, t0 + first})
			s := newStage(256, 64)
			s.play(ev, 180*time.Second)
			s.checkGroups(ev, time.Millisecond, sameStar)
			if skipped > (trace-0x1000)/2 {
				panic(fmt.Sprint("too many ambiguous histories: ", skipped))
			}
			rt.Digest(fmt.Sprint(len(s.got)))
		}})
	explore.Add(&explore.Scenario{Name: "ages under load", Prop: "C21", Heavy: true,
		What: "3000, 42000, 62000 or 82000 spans in flight in traces of 2000, each getting a repeated span all the time until 3.4, 3.7 or 5.3 buffering times (8, 6, 4, 2 s) after the first one: delivered in the first cases, discarded in the last one, and remembered",
		Cfgs: noDeviations,
		Body: func() {
			k := rt.Choose(4)
			n := []int{3000, 42000, 62000, 82000}[k]
			buf := []time.Duration{8, 6, 4, 2}[k] * time.Second
			long := rt.Choose(3)
			stop := t0 + []time.Duration{34, 37, 53}[long]*buf/10
			const size = 2000
			s := newStage(256, 64)
			until(t0)
			count := map[int]int{}
			for i := 0; i < n; i++ {
				tr := 0x1000 + i/size
				s.send(plain(tr, 1+i%size, 1))
				count[tr]++
			}
			for i := 0; ; i++ {
				next := t0 + time.Duration(i+1)*buf*4/10
				if next > stop {
					break
				}
				until(next)
				for tr := range count {
					s.send(plain(tr, 1+i%size, 1))
				}
			}
			until(stop)
			for tr := range count {
				s.send(plain(tr, 1, 1))
			}
			until(stop + 20*time.Second)
			for tr := range count {
				s.send(plain(tr, 1, 1))
			}
			s.send(span(5, 1, 1))
			until(stop + 40*time.Second)
			s.wellFormed()
			ix := s.index()
			checkWhole(ix[5], 5, 1)
			for tr, c := range count {
				ds := ix[proxy.Id(tr)]
				if long == 2 {
					if len(ds) > 0 {
						rt.Fail("with %d spans in flight (buffering time %s) a trace getting spans for %s is delivered at %s", n, buf, stop-t0, ds[0].at)
					}
					continue
				}
				if len(ds) != 2 {
					rt.Fail("with %d spans in flight (buffering time %s) a trace getting spans for %s, and again 20 s later, is delivered %d times", n, buf, stop-t0, len(ds))
				}
				checkWhole(ds[:1], tr, c)
			}
			rt.Digest(fmt.Sprint(long))
		}})
	explore.Add(&explore.Scenario{Name: "endless traces", Prop: "C21",
		What: "1, 2, 20 or 900 traces getting a span every 0.3, 1 or 7.5 s for 100 s, the same one or 5 in turn, other traces between them: none of the endless ones is ever delivered",
		Cfgs: noDeviations,
		Body: func() {
			n := []int{1, 2, 20, 900}[rt.Choose(4)]
			step := []time.Duration{300 * time.Millisecond, time.Second, 7500 * time.Millisecond}[rt.Choose(3)]
			distinct := []int{1, 5}[rt.Choose(2)]
			s := newStage(256, 64)
			until(t0)
			i, other := 0, 0
			for rt.Elapsed() < 100*time.Second {
				for k := 0; k < n; k++ {
					s.send(plain(0x1000+k, 1+i%distinct, 1))
				}
				s.send(span(100+other, 1, 1), span(100+other, 2, 1))
				other++
				i++
				rt.Sleep(step)
			}
			rt.Sleep(15 * time.Second)
			s.wellFormed()
			ix := s.index()
			for k := 0; k < n; k++ {
				if d := ix[proxy.Id(0x1000+k)]; len(d) > 0 {
					rt.Fail("trace %x gets spans for 100 s but is delivered: %s", 0x1000+k, d[0])
				}
			}
			for k := 0; k < other; k++ {
				checkWhole(ix[proxy.Id(100+k)], 100+k, 2)
			}
		}})
	explore.Add(&explore.Scenario{Name: "endless and large", Prop: "C21", Heavy: true,
		What: "a trace getting 1000, 2048, 4096, 5000, 8191 or 8192 distinct spans over 42, 60 or 90 s, steadily or in bursts 7 s apart, or all of them in the first 5 s and repeated ones afterwards, a small trace every second: the former is never delivered, the others are",
		Cfgs: noDeviations,
		Body: func() {
			total := []int{1000, 2048, 4096, 5000, 8191, 8192}[rt.Choose(6)]
			over := []time.Duration{42 * time.Second, 60 * time.Second, 90 * time.Second}[rt.Choose(3)]
			how := rt.Choose(3)
			s := newStage(256, 64)
			var ev []event
			for i := 0; i < total; i++ {
				e := event{t0 + over*time.Duration(i)/time.Duration(total), plain(7, total-i, total)}
				switch how {
				case 1:
					e.at = t0 + e.at/(7*time.Second)*(7*time.Second)
				case 2:
					e.at = t0 + 5*time.Second*time.Duration(i)/time.Duration(total)
				}
				ev = append(ev, e)
			}
			if how == 2 {
				for t := 10 * time.Second; t < over; t += 3 * time.Second {
					ev = append(ev, event{t0 + t, plain(7, total/2, total)})
				}
			}
			ev = append(ev, event{t0 + over + 3*time.Second, plain(7, 1, total)}, event{t0 + over + 30*time.Second, plain(7, 2, total)})
			n := 0
			for t := t0; t < over+30*time.Second; t += time.Second {
				ev = append(ev, event{t, span(100+n, 1, 1)}, event{t, span(100+n, 2, 1)})
				n++
			}
			s.play(ev, over+60*time.Second)
			s.wellFormed()
			ix := s.index()
			for k := 0; k < n; k++ {
				checkWhole(ix[proxy.Id(100+k)], 100+k, 2)
			}
			if len(ix[7]) > 0 {
				rt.Fail("a trace gets %d spans over %s but is delivered with %d spans at %s", total, over, len(ix[7][0].spans), ix[7][0].at)
			}
		}})
	explore.Add(&explore.Scenario{Name: "remembered", Prop: "C21", Heavy: true,
		What: "1, 100, 600, 900 or 1000 traces discarded because of their size or age, then silence for 1 s, 20 s, 10 minutes, 5 hours, 40 days or 10 years (the process idle) or other traces meanwhile: further spans of them are ignored, those of others not",
		Cfgs: noDeviations,
		Body: func() {
			n := []int{1, 100, 600, 900, 1000}[rt.Choose(5)]
			wait := []time.Duration{time.Second, 20 * time.Second, 10 * time.Minute, 5 * time.Hour, 960 * time.Hour, 87600 * time.Hour}[rt.Choose(6)]
			others := rt.Choose(2) == 1
			large := n <= 100 && rt.Choose(2) == 1
			s := newStage(256, 64)
			until(t0)
			id := func(k int) int { return 0x1000 + k*0x100001 }
			if large {
				for k := 0; k < n; k++ {
					for i := 8193; i >= 1; i-- {
						s.send(plain(id(k), i, 1))
					}
					if k%5 == 4 {
						rt.Sleep(time.Second)
					}
				}
			} else {
				for i := 0; i < 10; i++ {
					for k := 0; k < n; k++ {
						s.send(plain(id(k), 1, 1))
					}
					rt.Sleep(5 * time.Second)
				}
			}
			o := 0
			if wait > time.Hour {
				rt.Sleep(10 * time.Second) // nothing is waiting any more
				rt.Pause(wait)
				wait = time.Second
			}
			for end := rt.Elapsed() + wait; rt.Elapsed() < end; {
				if others {
					s.send(plain(0x51+o*0x100, 1, 1))
					o++
				}
				rt.Sleep(time.Second)
			}
			for round := 0; round < 2; round++ {
				for k := 0; k < n; k++ {
					s.send(plain(id(k), 2+round, 2))
				}
				s.send(plain(0x53+round, 1, 1))
				rt.Sleep(20 * time.Second)
			}
			ix := s.index()
			for k := 0; k < n; k++ {
				if d := ix[proxy.Id(id(k))]; len(d) > 0 {
					rt.Fail("trace %x was discarded as one of %d but a later span of it is delivered at %s", id(k), n, d[0].at)
				}
			}
			for k := 0; k < o; k++ {
				checkWhole(ix[proxy.Id(0x51+k*0x100)], 0x51+k*0x100, 1)
			}
			checkWhole(ix[0x53], 0x53, 1)
			checkWhole(ix[0x54], 0x54, 1)
		}})
	explore.Add(&explore.Scenario{Name: "ages while the receiver pauses", Prop: "C21",
		What: "80 traces finished together while the receiver pauses for 20 or 45 s, and 100 traces getting spans until 4 s later: those not delivered 40 s after their first span are discarded, all others delivered, whole",
		Cfgs: noDeviations,
		Body: func() {
			pause := []time.Duration{20 * time.Second, 45 * time.Second}[rt.Choose(2)]
			s := newStage(256, 4)
			s.slow = func(n int) {
				if n == 10 {
					rt.Sleep(pause)
				}
			}
			until(t0)
			for k := 0; k < 80; k++ {
				s.send(span(100+k, 1, 1), span(100+k, 2, 1))
			}
			for i := 0; i < 3; i++ {
				rt.Sleep(2 * time.Second)
				for k := 0; k < 100; k++ {
					s.send(span(1000+k, 1+i, 1))
				}
			}
			rt.Sleep(100 * time.Second)
			s.send(span(1050, 1, 1))
			rt.Sleep(12 * time.Second)
			s.wellFormed()
			ix := s.index()
			for k := 0; k < 80; k++ {
				checkWhole(ix[proxy.Id(100+k)], 100+k, 2)
			}
			for k := 0; k < 100; k++ {
				ds := ix[proxy.Id(1000+k)]
				if pause > 40*time.Second && len(ds) > 0 {
					rt.Fail("trace %x is delivered more than 40 s after its first span: %s", 1000+k, ds[0])
				} else if pause < 40*time.Second {
					checkWhole(ds[:min(1, len(ds))], 1000+k, 3)
				}
			}
		}})
	explore.Add(&explore.Scenario{Name: "thousands of discarded traces", Prop: "C21",
		What: "1023, 1030 or 3000 traces getting spans every 5 s for 50 s: more than are remembered, at least 1000 of them are; the stage goes on and later traces are delivered",
		Cfgs: noDeviations,
		Body: func() {
			n := []int{1023, 1030, 3000}[rt.Choose(3)]
			s := newStage(256, 64)
			until(t0)
			for i := 0; i < 10; i++ {
				for k := 0; k < n; k++ {
					s.send(plain(0x1000+k, 1, 1))
				}
				rt.Sleep(5 * time.Second)
			}
			if len(s.got) > 0 {
				rt.Fail("a trace is delivered that got spans for 45 s: %s", s.got[0])
			}
			rt.Sleep(15 * time.Second)
			for k := 0; k < 100; k++ {
				s.send(span(100+k, 1, 1), span(100+k, 2, 1))
			}
			for k := 0; k < n; k++ {
				s.send(span(0x1000+k, 5, 5))
			}
			rt.Sleep(10 * time.Second)
			ix := s.index()
			for k := 0; k < 100; k++ {
				checkWhole(ix[proxy.Id(100+k)], 100+k, 2)
			}
			again := 0
			for k := 0; k < n; k++ {
				if len(ix[proxy.Id(0x1000+k)]) > 0 {
					again++
				}
			}
			if n-again < 1000 {
				rt.Fail("%d traces were discarded, later spans of %d of them are delivered", n, again)
			}
		}})
	explore.Add(&explore.Scenario{Name: "discarding at any time", Race: true, Prop: "C21",
		What: "two goroutines, one feeding an endless trace every 7 s, one feeding other traces around the time it is discarded: every interleaving, tick and map order within the deviations",
		Cfgs: deviations(2, 3, everything),
		Body: func() {
			const slack = 400 * time.Millisecond
			s := newStage(2, 2)
			var a, b []event
			for i := 0; i < 8; i++ {
				a = append(a, event{t0 + time.Duration(i)*7*time.Second, span(7, 1+i%3, 1)})
			}
			for i := 0; i < 3; i++ {
				b = append(b, event{39 * time.Second, span(20+i, 1, 1)}, event{40*time.Second + time.Duration(i)*60*time.Millisecond, span(20+i, 2, 1)})
			}
			run := func(l []event) func() {
				return func() {
					for i := range l {
						until(l[i].at)
						s.send(l[i].span)
						l[i].at = max(l[i].at, rt.Elapsed())
					}
				}
			}
			join(run(a), run(b))
			rt.WaitFor("time", func() bool { return rt.Elapsed() > 65*time.Second })
			s.checkGroups(append(append([]event{}, a...), b...), slack, sameStar)
			rt.Digest(fmt.Sprint(len(s.got)))
		}})

	// ---- C22 ----
	explore.Add(&explore.Scenario{Name: "buffering times", Prop: "C22",
		What: "1, 39999, 40000, 40001, 59999, 60000, 60001, 79999, 80000, 80001, 99999, 100000 spans in flight in traces of 50 or 7000 spans, reported once or twice, a too large trace next to them or not; a small trace 20 s later is buffered for 8 s again",
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			n := []int{1, 39999, 40000, 40001, 59999, 60000, 60001, 79999, 80000, 80001, 99999, 100000}[rt.Choose(12)]
			size := []int{50, 7000}[rt.Choose(2)]
			variant := rt.Choose(3) // 1: every span twice, 2: a too large trace
			exp := 8 * time.Second
			switch {
			case n >= 80000:
				exp = 2 * time.Second
			case n >= 60000:
				exp = 4 * time.Second
			case n >= 40000:
				exp = 6 * time.Second
			}
			s := newStage(256, 64)
			until(t0)
			count := map[int]int{}
			for i := 0; i < n; i++ {
				tr := 0x1000 + i/size
				x := plain(tr, size-i%size, size)
				s.send(x)
				if variant == 1 {
					s.send(x)
				}
				count[tr]++
			}
			if variant == 2 {
				for i := 0; i < 9000; i++ {
					s.send(plain(9, 9000-i, 1))
				}
			}
			until(t0 + exp - 50*time.Millisecond)
			if len(s.got) > 0 {
				rt.Fail("with %d spans in flight a trace is delivered after %s", n, s.got[0].at)
			}
			until(t0 + exp + time.Second)
			if len(s.got) != len(count) {
				rt.Fail("with %d spans in flight, %d of %d traces are delivered within %s", n, len(s.got), len(count), exp+time.Second)
			}
			s.wellFormed()
			ix := s.index()
			for tr, c := range count {
				checkWhole(ix[proxy.Id(tr)], tr, c)
			}
			until(20 * time.Second)
			s.send(span(5, 1, 1))
			until(40 * time.Second)
			d := s.index()[5]
			checkWhole(d, 5, 1)
			(&group{last: 20 * time.Second}).onTime(d[0], time.Millisecond)
			rt.Digest(exp.String())
		}})
	type mix struct {
		what  string
		sizes func() []int
	}
	rep := func(l []int, n, size int) []int {
		for i := 0; i < n; i++ {
			l = append(l, size)
		}
		return l
	}
	mixes := []mix{
		{"100000 in traces of 1000", func() []int { return rep(nil, 100, 1000) }},
		{"100001 in traces of 1000 and one of 1", func() []int { return rep([]int{1}, 100, 1000) }},
		{"13 of 8000", func() []int { return rep(nil, 13, 8000) }},
		{"12 of 8192, 2000 of 1", func() []int { return rep(rep(nil, 12, 8192), 2000, 1) }},
		{"100001 of 1", func() []int { return rep(nil, 100001, 1) }},
		{"one of each size 1..450", func() (l []int) {
			for i := 1; i <= 450; i++ {
				l = append(l, i*7919%450+1)
			}
			return
		}},
		{"25 of 8000", func() []int { return rep(nil, 25, 8000) }},
		{"1 of 8192, 92000 in traces of 2", func() []int { return rep([]int{8192}, 46000, 2) }},
		{"2 of 8192, 84000 in traces of 10", func() []int { return append(rep([]int{8192}, 8400, 10), 8192) }},
		{"5 of 8192 and 20000 of 3, 100 of 100", func() []int { return rep(rep(rep(nil, 100, 100), 20000, 3), 5, 8192) }},
		{"3 of 10000 (too large), 99999 in traces of 9", func() []int { return rep(rep(nil, 3, 10000), 11111, 9) }},
		{"3 of 10000 (too large), 100008 in traces of 9", func() []int { return rep(rep(nil, 3, 10000), 11112, 9) }},
	}
	explore.Add(&explore.Scenario{Name: "discarding", Prop: "C22",
		What: fmt.Sprintf("%d mixes of trace sizes of up to 200000 spans arriving at once, with the large ones first, last or each with its half 1 s later: the largest are discarded until fewer than 100000 spans remain and all others are delivered", len(mixes)),
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			m := mixes[rt.Choose(len(mixes))]
			order := rt.Choose(2)
			l := m.sizes()
			s := newStage(256, 64)
			until(t0)
			for k := range l {
				if order == 1 {
					k = len(l) - 1 - k
				}
				for i := l[k]; i >= 1; i-- {
					s.send(plain(0x1000+k, i, 1))
				}
			}
			until(t0 + 12*time.Second)
			s.wellFormed()
			ix := s.index()
			total, left := 0, 0
			minGone, maxLeft := 1<<30, 0
			gone := 0
			for k, n := range l {
				if n > 8192 {
					if len(ix[proxy.Id(0x1000+k)]) > 0 {
						rt.Fail("%s: a trace of %d spans is delivered", m.what, n)
					}
					continue
				}
				total += n
				ds := ix[proxy.Id(0x1000+k)]
				if len(ds) == 0 {
					minGone = min(minGone, n)
					gone += n
					continue
				}
				checkWhole(ds, 0x1000+k, n)
				if b := ds[0].at - t0; b < 2*time.Second-time.Millisecond || total < 80000 && b > 9*time.Second {
					rt.Fail("%s: delivered after %s", m.what, b)
				}
				left += n
				maxLeft = max(maxLeft, n)
			}
			switch {
			case total <= 100000 && gone > 0:
				rt.Fail("%s: %d spans are in flight but a trace of %d spans is discarded", m.what, total, minGone)
			case total > 100000 && left >= 100000:
				rt.Fail("%s: %d of %d spans are left", m.what, left, total)
			case gone > 0 && maxLeft > minGone:
				rt.Fail("%s: a trace of %d spans is discarded but one of %d is not", m.what, minGone, maxLeft)
			case gone > 0 && left+minGone < 100000:
				rt.Fail("%s: a trace of %d spans is discarded although only %d others are in flight", m.what, minGone, left)
			}
			rt.Digest(fmt.Sprint(m.what, left))
		}})
}
