package main

import (
	"fmt"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/sirupsen/logrus"

	"verif/explore"
	"verif/ref"
	"verif/rt"
)

// ---- C18: merging ----

// report kinds
const (
	kPlain = iota
	kClient
	kClientSent
	kServer
	kServerRecv
	kServerSent
	kFull     // all four
	kRecvBoth // client send and server receive
	kinds
)

// report is one variant of a report of a span; n makes its values distinguishable.
func report(kind, svc, name, tags, parent, n int) proxy.Span {
	s := proxy.Span{Timestamp: at(time.Duration(n) * time.Second), Duration: time.Duration(n) * time.Millisecond}
	v := fmt.Sprint(n)
	if svc == 1 {
		s.Service = "svc" + v
	}
	if name == 1 {
		s.Name = "op" + v
	}
	if tags&4 != 0 {
		s.AddTag("a", "")
	} else if tags&1 != 0 {
		s.AddTag("a", "a"+v)
	}
	if tags&2 != 0 {
		s.AddTag("b", "b"+v)
	}
	if parent == 1 {
		s.Parent = proxy.Id(0x900 + n)
	}
	if parent == 2 { // the span itself
		s.Parent = 5
	}
	if parent == 3 {
		s.Parent = proxy.Id(-n)
	}
	t := func(k int) proxy.Timestamp {
		return at(time.Duration(n)*time.Second + time.Duration(k)*time.Millisecond)
	}
	switch kind {
	case kClient:
		s.Timings.CS, s.Timings.CR = t(0), t(40)
	case kClientSent:
		s.Timings.CS = t(0)
	case kServer:
		s.Timings.SR, s.Timings.SS = t(10), t(20)
	case kServerRecv:
		s.Timings.SR = t(10)
	case kServerSent:
		s.Timings.SS = t(20)
	case kFull:
		s.Timings.CS, s.Timings.CR, s.Timings.SR, s.Timings.SS = t(1), t(42), t(11), t(22)
	case kRecvBoth:
		s.Timings.CS, s.Timings.SR = t(2), t(12)
	}
	return s
}

func isServer(s proxy.Span) bool { return s.Timings.SR != 0 || s.Timings.SS != 0 }

// allowed are the values that may win: those of the server reports if there are any, else all.
func allowed(rs []proxy.Span, get func(proxy.Span) string) (r []string) {
	var other []string
	for _, x := range rs {
		if v := get(x); v != "" {
			if isServer(x) {
				r = append(r, v)
			} else {
				other = append(other, v)
			}
		}
	}
	if r == nil {
		r = other
	}
	return
}

func in[T comparable](x T, l []T) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// tagOf tells an empty value from a missing tag.
func tagOf(s proxy.Span, k string) string {
	if v, ok := s.Tags[k]; ok {
		return "=" + v
	}
	return ""
}

// merged checks the merge of the reports rs.
func merged(rs []proxy.Span, x proxy.Span) {
	str := func(what, got string, get func(proxy.Span) string) {
		al := allowed(rs, get)
		if len(al) == 0 {
			if got != "" {
				rt.Fail("%s of %s\nbecame %q but no report has one", what, ref.ShowAll(rs), got)
			}
		} else if !in(got, al) {
			rt.Fail("%s of %s\nbecame %q instead of one of %q", what, ref.ShowAll(rs), got, al)
		}
	}
	str("service", x.Service, func(s proxy.Span) string { return s.Service })
	str("name", x.Name, func(s proxy.Span) string { return s.Name })
	for _, k := range []string{"a", "b"} {
		str("tag "+k, tagOf(x, k), func(s proxy.Span) string { return tagOf(s, k) })
	}
	for k := range x.Tags {
		if k != "a" && k != "b" {
			rt.Fail("tag %q of %s\nis not reported", k, ref.ShowAll(rs))
		}
	}
	ts := func(what string, got proxy.Timestamp, get func(proxy.Span) proxy.Timestamp) {
		var al, pure []proxy.Timestamp
		for _, r := range rs {
			if v := get(r); v != 0 {
				al = append(al, v)
				if !isServer(r) && what != "parent" {
					pure = append(pure, v)
				}
			}
		}
		if pure != nil {
			al = pure // the client's own times
		} else if what == "cs" || what == "cr" {
			al = append(al, 0) // nothing is said about client times in reports of servers
		}
		if al == nil {
			al = []proxy.Timestamp{0}
		}
		if !in(got, al) {
			rt.Fail("%s of %s\nbecame %d instead of one of %d", what, ref.ShowAll(rs), got, al)
		}
	}
	ts("cs", x.Timings.CS, func(s proxy.Span) proxy.Timestamp { return s.Timings.CS })
	ts("cr", x.Timings.CR, func(s proxy.Span) proxy.Timestamp { return s.Timings.CR })
	ts("sr", x.Timings.SR, func(s proxy.Span) proxy.Timestamp { return s.Timings.SR })
	ts("ss", x.Timings.SS, func(s proxy.Span) proxy.Timestamp { return s.Timings.SS })
	ts("parent", proxy.Timestamp(x.Parent), func(s proxy.Span) proxy.Timestamp { return proxy.Timestamp(s.Parent) })
	m := x.Timings
	if m.CS != 0 && m.CR != 0 && m.SR != 0 && m.SS != 0 {
		if x.Timestamp != m.CS || x.Duration != time.Duration(m.CR-m.CS) {
			rt.Fail("%s\nis merged to a span that does not last from client send to client receive: %s", ref.ShowAll(rs), ref.Show(x))
		}
		return
	}
	for _, r := range rs {
		if r.Timestamp == x.Timestamp && r.Duration == x.Duration {
			return
		}
	}
	rt.Fail("%s\nis merged to a span with start and duration of none of them: %s", ref.ShowAll(rs), ref.Show(x))
}

// mergeAll plays the histories of reports, one trace each, the i-th reports of all together with gap between them.
func mergeAll(hs [][]proxy.Span, gap time.Duration) []proxy.Span {
	var ev []event
	var end time.Duration
	for h, rs := range hs {
		for i, r := range rs {
			r.Trace, r.Id = proxy.Id(0x10000+h), proxy.Id(5)
			ev = append(ev, event{t0 + time.Duration(i)*gap, r})
			end = max(end, t0+time.Duration(i)*gap)
		}
	}
	if len(ev) > 39000 {
		panic("too many spans")
	}
	s := newStage(256, 64)
	s.play(ev, end+9500*time.Millisecond)
	s.wellFormed()
	ix := s.index()
	var r []proxy.Span
	for h, rs := range hs {
		ds := ix[proxy.Id(0x10000+h)]
		if len(ds) != 1 || len(ds[0].spans) != 1 || ds[0].spans[0].Id != 5 {
			rt.Fail("%d reports of one span: %s\nare delivered as %v", len(rs), ref.ShowAll(rs), ds)
		}
		r = append(r, ds[0].spans[0])
	}
	return r
}

func init() {
	waits := []time.Duration{0, 3 * time.Second}
	explore.Add(&explore.Scenario{Name: "two reports", Prop: "C18",
		What: "every ordered pair of 768 variants of a report (plain, client, client send only, server, server receive or send only, client and server at once; with and without service and name; no parent, another span, itself, one from the upper half of the range; six tag sets with empty values), at once or 3 s apart",
		Cfgs: noDeviations,
		Body: func() {
			gap := waits[rt.Choose(2)]
			k, v, p := rt.Choose(kinds), rt.Choose(24), rt.Choose(4)
			a := report(k, v&1, v>>1&1, v>>2, p, 1)
			var hs [][]proxy.Span
			for k := 0; k < kinds; k++ {
				for v := 0; v < 96; v++ {
					hs = append(hs, []proxy.Span{a, report(k, v&1, v>>1&1, (v>>2)%6, v/24, 2)})
				}
			}
			for i, x := range mergeAll(hs, gap) {
				merged(hs[i], x)
			}
		}})
	explore.Add(&explore.Scenario{Name: "three reports", Prop: "C18",
		What: "every ordered triple of 48 variants of a report (8 kinds; with service and name or with a parent; tags none, a, empty a)",
		Cfgs: noDeviations,
		Body: func() {
			gap := waits[rt.Choose(2)]
			mk := func(v, n int) proxy.Span {
				return report(v%8, v/8%2, v/8%2, []int{0, 1, 4}[v/16], 1-v/8%2, n)
			}
			a := mk(rt.Choose(48), 1)
			var hs [][]proxy.Span
			for v := 0; v < 48; v++ {
				for w := 0; w < 48; w++ {
					hs = append(hs, []proxy.Span{a, mk(v, 2), mk(w, 3)})
				}
			}
			for i, x := range mergeAll(hs, gap) {
				merged(hs[i], x)
			}
		}})
	explore.Add(&explore.Scenario{Name: "halves in any order, repeated", Prop: "C18",
		What: "every complete client half and complete server half (32 variants each) in every order with repetitions, up to 5 reports: the same span every time, with the server's values",
		Cfgs: noDeviations,
		Body: func() {
			v := rt.Choose(32)
			cl := report(kClient, v&1, v>>1&1, v>>2&3, v>>4, 1)
			var seqs []string
			var rec func(s string, n int)
			rec = func(s string, n int) {
				if len(s) == n {
					has := map[byte]bool{}
					for i := range s {
						has[s[i]] = true
					}
					if len(has) == 2 {
						seqs = append(seqs, s)
					}
					return
				}
				rec(s+"c", n)
				rec(s+"s", n)
			}
			for n := 2; n <= 5; n++ {
				rec("", n)
			}
			var hs [][]proxy.Span
			for w := 0; w < 32; w++ {
				sv := report(kServer, w&1, w>>1&1, w>>2&3, w>>4, 2)
				if w>>4 == 1 {
					sv.Parent = 0x901 // the halves agree if both know the parent
				}
				for _, q := range seqs {
					var h []proxy.Span
					for i := range q {
						if q[i] == 'c' {
							h = append(h, cl)
						} else {
							h = append(h, sv)
						}
					}
					hs = append(hs, h)
				}
			}
			half := rt.Choose(2)
			{
				l := hs[half*len(hs)/2 : (half+1)*len(hs)/2]
				xs := mergeAll(l, 0)
				for i, x := range xs {
					merged(l[i], x)
					first := xs[i/len(seqs)*len(seqs)]
					y := x
					y.Trace = first.Trace
					if !ref.Equal(first, y) {
						rt.Fail("the reports %s\nare merged to %s\nbut in order %s\nto %s", ref.ShowAll(l[i/len(seqs)*len(seqs)]), ref.Show(first), ref.ShowAll(l[i]), ref.Show(x))
					}
				}
			}
		}})
	explore.Add(&explore.Scenario{Name: "many tags", Prop: "C18",
		What: "a client and a server half with 0, 1, 2, 20, 64, 65, 300 or 3000 tags each, of which none, half or all keys are common, some values empty; both orders, once or repeated: every tag of either, with the server's values",
		Cfgs: noDeviations,
		Body: func() {
			sizes := []int{0, 1, 2, 20, 64, 65, 300, 3000}
			nc := sizes[rt.Choose(len(sizes))]
			var hs [][]proxy.Span
			var want []map[string]string
			for _, ns := range sizes {
				for common := 0; common < 3; common++ {
					for seq := 0; seq < 4; seq++ {
						cl, sv := report(kClient, 1, 1, 0, 0, 1), report(kServer, 1, 1, 0, 0, 2)
						w := map[string]string{}
						val := func(p string, i int) string {
							if i%7 == 3 {
								return ""
							}
							return fmt.Sprint(p, i)
						}
						for i := 0; i < nc; i++ {
							k := fmt.Sprint("k", i)
							cl.AddTag(k, val("c", i))
							w[k] = val("c", i)
						}
						for i := 0; i < ns; i++ {
							k := fmt.Sprint("k", i)
							if common == 0 || common == 1 && i%2 == 0 {
								k = fmt.Sprint("s", i)
							}
							sv.AddTag(k, val("v", i))
							w[k] = val("v", i)
						}
						want = append(want, w)
						hs = append(hs, [][]proxy.Span{{cl, sv}, {sv, cl}, {sv, cl, sv, cl}, {cl, cl, sv}}[seq])
					}
				}
			}
			for i, x := range mergeAll(hs, 0) {
				if len(x.Tags) != len(want[i]) {
					rt.Fail("%d tags of %d reports are merged to %d", len(want[i]), len(hs[i]), len(x.Tags))
				}
				for k, v := range want[i] {
					if got, ok := x.Tags[k]; !ok || got != v {
						rt.Fail("tag %q=%q is %q in the merged span (present: %v)", k, v, got, ok)
					}
				}
			}
		}})
	explore.Add(&explore.Scenario{Name: "many reports", Prop: "C18",
		What: "a trace of 1, 2, 100, 1500 or 4000 shared spans whose client and server halves come one after the other, all client halves first or all server halves first, or 1500 reports of one span next to one shared span, once or twice",
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			n := []int{1, 2, 100, 1500, 4000}[rt.Choose(5)]
			order, twice, same := rt.Choose(3), rt.Choose(2) == 1, rt.Choose(2) == 1
			half := func(i int, server bool) proxy.Span {
				k, c := kClient, 0
				if server {
					k, c = kServer, 1
				}
				id := i
				if same && i > 2 {
					id = 2
				}
				x := report(k, 1, i&1, 1+i%3, 0, 2*id+c)
				x.Id, x.Parent, x.Trace = proxy.Id(id), 1, 77
				base := at(time.Duration(id) * time.Millisecond)
				if server {
					x.Timings.SR, x.Timings.SS = base+1000, base+3000
				} else {
					x.Timings.CS, x.Timings.CR = base, base+4000
				}
				x.Timestamp, x.Duration = base, 4000
				return x
			}
			var l, l2 []proxy.Span
			for i := 1; i <= n; i++ {
				switch order {
				case 0:
					l = append(l, half(i, i%2 == 0), half(i, i%2 == 1))
				case 1:
					l, l2 = append(l, half(i, false)), append(l2, half(i, true))
				case 2:
					l, l2 = append(l, half(i, true)), append(l2, half(i, false))
				}
			}
			l = append(l, l2...)
			if twice {
				l = append(l, l...)
			}
			of := map[proxy.Id][]proxy.Span{}
			for _, x := range l {
				of[x.Id] = append(of[x.Id], x)
			}
			s := newStage(256, 64)
			s.send(l...)
			rt.Sleep(10 * time.Second)
			s.wellFormed()
			if len(s.got) != 1 || len(s.got[0].spans) != len(of) {
				rt.Fail("a trace of %d spans in %d reports is delivered as %d traces", len(of), len(l), len(s.got))
			}
			for _, x := range s.got[0].spans {
				merged(of[x.Id], x)
			}
		}})
	explore.Add(&explore.Scenario{Name: "halves within a trace", Prop: "C18",
		What: "a trace of three shared spans (client and server halves) and one plain span, all 7 reports in every order, sent by two goroutines",
		Cfgs: deviations(0, 1, schedules),
		Body: func() {
			var rs []proxy.Span
			for i := 1; i <= 3; i++ {
				a, b := report(kClient, 1, i&1, 1+i%3, 0, 2*i), report(kServer, 1, i>>1, 3-i%3, 0, 2*i+1)
				a.Id, b.Id = proxy.Id(i), proxy.Id(i)
				a.Parent, b.Parent = 1, 1
				a.Trace, b.Trace = 77, 77
				// no skew, the corrections are C20's
				mid := (a.Timings.CS + a.Timings.CR) / 2
				b.Timings.SR, b.Timings.SS = mid-1000, mid+1000
				rs = append(rs, a, b)
			}
			p := report(kPlain, 1, 1, 3, 0, 9)
			p.Id, p.Trace, p.Parent = 4, 77, 2
			rs = append(rs, p)
			var l []proxy.Span
			rest := append([]proxy.Span{}, rs...)
			for len(rest) > 0 {
				i := rt.Choose(len(rest))
				l = append(l, rest[i])
				rest = append(rest[:i:i], rest[i+1:]...)
			}
			s := newStage(4, 4)
			join(func() { s.send(l[:3]...) }, func() { s.send(l[3:]...) })
			rt.Sleep(12 * time.Second)
			s.wellFormed()
			if len(s.got) != 1 || len(s.got[0].spans) != 4 {
				rt.Fail("a trace of 4 spans is delivered as %v", s.got)
			}
			for i := 1; i <= 4; i++ {
				var of []proxy.Span
				for _, r := range rs {
					if r.Id == proxy.Id(i) {
						of = append(of, r)
					}
				}
				x := s.got[0].byID(proxy.Id(i))
				if x == nil {
					rt.Fail("span %d is missing: %s", i, s.got[0])
				}
				merged(of, *x)
			}
		}})

	// ---- C19: structure ----
	explore.Add(&explore.Scenario{Name: "shapes of 4 spans", Prop: "C19",
		What: "every assignment of parents (each span, itself, two missing ones, unknown) to 1-4 spans, the trace id being a foreign value, the id of a span or a missing parent, in both orders, at different times or all at once, with debug logging on or off",
		Cfgs: noDeviations,
		Body: func() {
			n := 1 + rt.Choose(4)
			mode, rev, dbg := rt.Choose(3), rt.Choose(2), rt.Choose(2)
			debugging(dbg == 1)
			defer debugging(false)
			atOnce = rt.Choose(2) == 1
			defer func() { atOnce = false }()
			total := 1
			for i := 0; i < n; i++ {
				total *= n + 3
			}
			shapes(n, mode, rev == 1, 0, total)
		}})
	explore.Add(&explore.Scenario{Name: "shapes of 5 spans", Prop: "C19",
		What: "the same for 5 spans",
		Cfgs: noDeviations,
		Body: func() {
			mode, rev := rt.Choose(3), rt.Choose(2)
			from := rt.Choose(16)
			shapes(5, mode, rev == 1, from*2048, 2048)
		}})
	explore.Add(&explore.Scenario{Name: "shapes of 6 spans", Prop: "C19",
		What: "the same for 6 spans (thorough only)",
		Cfgs: thoroughOnly,
		Body: func() {
			mode, rev := rt.Choose(3), rt.Choose(2)
			from := rt.Choose(81)
			shapes(6, mode, rev == 1, from*6561, 6561)
		}})
	explore.Add(&explore.Scenario{Name: "extent of synthetic roots", Prop: "C19",
		What: "three roots sharing a missing parent with every combination of 7 start times (not set, negative, around 2020, an hour apart) and 4 durations: the synthetic root lasts from the earliest start to the latest end",
		Cfgs: noDeviations,
		Body: func() {
			starts := []proxy.Timestamp{0, -5, 1000000, at(0), at(time.Millisecond), at(time.Hour), at(-time.Hour)}
			durs := []time.Duration{0, time.Millisecond, 2 * time.Hour, 900 * time.Microsecond}
			a := rt.Choose(len(starts) * len(durs))
			flip := rt.Choose(2) == 1
			s := newStage(256, 64)
			var all [][]proxy.Span
			mk := func(id, k int, trace proxy.Id) proxy.Span {
				return proxy.Span{Trace: trace, Id: proxy.Id(id), Parent: 0x7fffff, Name: "n", Service: "s", Timestamp: starts[k%len(starts)], Duration: durs[k/len(starts)]}
			}
			for b := 0; b < len(starts)*len(durs); b++ {
				for c := 0; c < len(starts)*len(durs); c++ {
					t := proxy.Id(0x100000 + b*100 + c)
					l := []proxy.Span{mk(1, a, t), mk(2, b, t), mk(3, c, t)}
					if flip {
						l[0], l[2] = l[2], l[0]
					}
					all = append(all, l)
					s.send(l...)
				}
			}
			rt.Sleep(9500 * time.Millisecond)
			s.wellFormed()
			ix := s.index()
			for _, l := range all {
				checkExtent(l, ix[l[0].Trace])
			}
		}})
	explore.Add(&explore.Scenario{Name: "large shapes", Prop: "C19",
		What: "chains, stars, combs, cycles, a cycle next to a tree and 2..8191 orphans, of 2, 100, 3000 and 8191 spans, with ids rising or falling, with debug logging on or off",
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			n := []int{2, 100, 3000, 8191}[rt.Choose(4)]
			kind, rev, dbg := rt.Choose(7), rt.Choose(2) == 1, rt.Choose(2)
			debugging(dbg == 1)
			defer debugging(false)
			atOnce = dbg == 1 && kind > 3
			defer func() { atOnce = false }()
			par := make([]int, n)
			for i := range par {
				switch kind {
				case 0: // chain
					par[i] = max(0, i-1)
				case 1: // star
					par[i] = 0
				case 2: // comb
					par[i] = max(0, i-1-i%2)
				case 3: // cycle
					par[i] = (i + 1) % n
				case 4: // a cycle of half of it next to a chain
					par[i] = max(0, i-1)
					if i >= n/2 {
						par[i] = i + 1
						if i == n-1 {
							par[i] = n / 2
						}
					}
				case 5: // orphans
					par[i] = -1
				case 6: // chain of which the root is missing, reversed
					par[i] = i - 1
				}
			}
			id := func(i int) proxy.Id {
				if i < 0 {
					return 0x7fff0000
				}
				if rev {
					return proxy.Id(n - i)
				}
				return proxy.Id(i + 1)
			}
			var l []proxy.Span
			for i := range par {
				x := shapeSpan(i)
				x.Trace, x.Id, x.Parent = 0x77, id(i), id(par[i])
				if rev {
					x.Trace = 0x70000077
				}
				l = append(l, x)
			}
			s := newStage(256, 64)
			s.send(l...)
			rt.Sleep(10 * time.Second)
			s.wellFormed()
			checkShape(l, s.index()[l[0].Trace])
		}})
}

func debugging(on bool) {
	if on {
		logrus.SetLevel(logrus.DebugLevel)
	} else {
		logrus.SetLevel(logrus.InfoLevel)
	}
}

// atOnce lets all spans of a shape start at the same time.
var atOnce bool

func shapeSpan(i int) proxy.Span {
	if atOnce {
		return proxy.Span{Name: fmt.Sprint("op", i), Service: "svc", Timestamp: at(0), Duration: time.Millisecond}
	}
	return proxy.Span{Name: fmt.Sprint("op", i), Service: "svc", Timestamp: at(time.Duration(i*7%5) * time.Millisecond), Duration: time.Duration(1+i*3%7) * time.Millisecond}
}

// shapes runs the assignments from..from+count of parents to n spans at once.
func shapes(n, mode int, rev bool, from, count int) {
	s := newStage(256, 64)
	var all [][]proxy.Span
	for k := from; k < from+count; k++ {
		trace := proxy.Id(0x100000 + k*4)
		ids := make([]proxy.Id, n)
		for i := range ids {
			ids[i] = proxy.Id(i + 1)
		}
		par := append([]proxy.Id{}, ids...)
		x, y := trace+1, trace+2
		switch mode {
		case 1:
			ids[n/2] = trace
			par[n/2] = trace
		case 2:
			x = trace
		}
		par = append(par, x, y, 0)
		var l []proxy.Span
		v := k
		for i := 0; i < n; i++ {
			sp := shapeSpan(i)
			sp.Trace, sp.Id, sp.Parent = trace, ids[i], par[v%len(par)]
			v /= len(par)
			l = append(l, sp)
		}
		all = append(all, l)
		if rev {
			for i := range l {
				s.send(l[n-1-i])
			}
		} else {
			s.send(l...)
		}
	}
	rt.Sleep(9500 * time.Millisecond)
	s.wellFormed()
	ix := s.index()
	c := 0
	for _, l := range all {
		checkShape(l, ix[l[0].Trace])
		c += len(ix[l[0].Trace])
	}
	rt.Digest(fmt.Sprint(c))
}

func rootsOf(l []proxy.Span) (r []proxy.Span) {
	ids := map[proxy.Id]bool{}
	for _, s := range l {
		ids[s.Id] = true
	}
	for _, s := range l {
		if s.Parent == s.Id || !ids[s.Parent] {
			r = append(r, s)
		}
	}
	return
}

// checkShape decides whether a trace has to be delivered and how.
func checkShape(l []proxy.Span, ds []*delivery) {
	shape := ""
	for i, s := range l {
		if i > 12 {
			shape += "..."
			break
		}
		shape += fmt.Sprintf("%x<-%x ", uint64(s.Parent), uint64(s.Id))
	}
	if len(ds) > 1 {
		rt.Fail("trace %x (%s) is delivered twice", uint64(l[0].Trace), shape)
	}
	roots := rootsOf(l)
	same := len(roots) > 1
	for _, r := range roots {
		same = same && r.Parent == roots[0].Parent
	}
	if same && roots[0].Parent == 0 {
		if len(ds) == 0 {
			return // unknown parents are not one missing parent; a synthetic root cannot have the id 0 but it may be tried
		}
	} else if must := len(roots) == 1 || same; !must {
		if len(ds) > 0 {
			rt.Fail("trace %x (%s) has %d roots but is delivered", uint64(l[0].Trace), shape, len(roots))
		}
		return
	}
	if len(ds) == 0 {
		rt.Fail("trace %x (%s) has %d roots, sharing a missing parent: %v; it is not delivered", uint64(l[0].Trace), shape, len(roots), same)
	}
	d := ds[0]
	got := map[proxy.Id]proxy.Span{}
	for _, s := range d.spans {
		got[s.Id] = s
	}
	for _, s := range l {
		g, ok := got[s.Id]
		if !ok {
			rt.Fail("trace %x (%s): span %x is missing in the delivery %s", uint64(s.Trace), shape, uint64(s.Id), clips(d.String()))
		}
		if !ref.Equal(g, s) {
			rt.Fail("trace %x (%s): span %s is delivered as %s", uint64(s.Trace), shape, ref.Show(s), ref.Show(g))
		}
		delete(got, s.Id)
	}
	if !same {
		for _, g := range got {
			rt.Fail("trace %x (%s) has one root; %s is delivered in addition", uint64(l[0].Trace), shape, ref.Show(g))
		}
		return
	}
	p := roots[0].Parent
	if p == 0 && len(got) == 0 {
		return
	}
	f, ok := got[p]
	if !ok || len(got) != 1 {
		rt.Fail("trace %x (%s): expected exactly one synthetic root %x, got %s", uint64(l[0].Trace), shape, uint64(p), clips(d.String()))
	}
	first, last := roots[0].Timestamp, roots[0].Timestamp.Add(roots[0].Duration)
	for _, r := range roots {
		first = min(first, r.Timestamp)
		last = max(last, r.Timestamp.Add(r.Duration))
	}
	if f.Timestamp != first || f.Timestamp.Add(f.Duration) != last {
		rt.Fail("trace %x (%s): the synthetic root lasts from %d for %d, its children from %d to %d", uint64(l[0].Trace), shape, f.Timestamp, f.Duration, first, last)
	}
	if r := rootsOf(d.spans); len(r) != 1 || r[0].Id != p {
		rt.Fail("trace %x (%s): the synthetic root is not the root of %s", uint64(l[0].Trace), shape, clips(d.String()))
	}
}

func clips(s string) string {
	if len(s) > 1200 {
		return s[:1200] + "..."
	}
	return s
}

// checkExtent checks the synthetic root of spans that share a missing parent.
func checkExtent(l []proxy.Span, ds []*delivery) {
	first, last := l[0].Timestamp, l[0].Timestamp.Add(l[0].Duration)
	for _, r := range l {
		first = min(first, r.Timestamp)
		last = max(last, r.Timestamp.Add(r.Duration))
	}
	if len(ds) != 1 || len(ds[0].spans) != len(l)+1 {
		rt.Fail("%s\nis delivered as %v", ref.ShowAll(l), ds)
	}
	for _, x := range ds[0].spans {
		if x.Id == l[0].Parent {
			if x.Timestamp != first || x.Timestamp.Add(x.Duration) != last {
				rt.Fail("%s:\nthe synthetic root lasts from %d for %d, its children from %d to %d", ref.ShowAll(l), x.Timestamp, x.Duration, first, last)
			}
			return
		}
	}
	rt.Fail("%s\nis delivered without a synthetic root: %s", ref.ShowAll(l), ds[0])
}
