package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/datadog"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/fake"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

// ---- C23 ----

// answers of a converter
const (
	aKeep = iota
	aTags
	aInPlace
	aError
	aErrorKeep
	aZeroID
	aZeroTrace
	aMoved
	aNewID
	aBare
	aOddTimes
	aDeadline
	aTimeout
	aEOF
	answers
)

func convert(a int, s proxy.Span) (proxy.Span, error) {
	switch a {
	case aTags:
		s.Name, s.Service, s.Tags = s.Name+"!", "converted", map[string]string{"c": s.Name}
		s.Duration++
	case aInPlace:
		s.AddTag("seen", fmt.Sprint(uint64(s.Id)))
		delete(s.Tags, "k")
	case aError:
		return proxy.Span{}, errors.New("not this one")
	case aErrorKeep:
		return s, errors.New("not this one")
	case aZeroID:
		s.Id = 0
	case aZeroTrace:
		s.Trace = 0
	case aMoved:
		s.Trace = 0xaaaa
	case aNewID:
		s.Id += 1000
	case aBare:
		return proxy.Span{Trace: s.Trace, Id: s.Id}, nil
	case aOddTimes:
		s.Timestamp, s.Duration = -s.Timestamp, -s.Duration
		s.Timings = proxy.Timings{CS: -1, CR: -5, SR: 1, SS: 1 << 62}
		s.Name, s.Service, s.Parent = "", " ", s.Id
	case aDeadline:
		return s, context.DeadlineExceeded
	case aTimeout:
		return s, timeout{}
	case aEOF:
		return s, io.EOF
	}
	return s, nil
}

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

type conversion struct {
	in, out proxy.Span
	err     error
}

// checkConverted compares everything that was given to the converter with what left the proxy.
func checkConverted(s *sys.Sys, sent []proxy.Span, convs []conversion) {
	var outs []proxy.Span
	left := ref.CloneAll(sent)
	for _, c := range convs {
		found := false
		for i, x := range left {
			if ref.Equal(x, c.in) {
				left = append(left[:i], left[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			rt.Fail("the converter got %s, which is no received span or was converted before", ref.Show(c.in))
		}
		if c.err == nil && c.out.Id != 0 && c.out.Trace != 0 {
			outs = append(outs, c.out)
		}
	}
	if len(left) > 0 {
		rt.Fail("the converter never got %s", ref.ShowAll(left))
	}
	recent := s.Recent()
	if len(outs) <= 2048 && !ref.EqualAll(recent, outs) || len(outs) > 2048 && !ref.EqualAll(recent, outs[len(outs)-2048:]) {
		rt.Fail("converted spans %s\nrecent spans %s", clips(ref.ShowAll(outs)), clips(ref.ShowAll(recent)))
	}
	checkAgent(s.Agent, outs)
}

// checkAgent verifies that the agent got exactly the spans l, those of each trace in order.
func checkAgent(a *fake.Agent, l []proxy.Span) {
	got := map[uint64][]fake.Span{}
	n := 0
	for _, s := range agentSpans(a) {
		got[s.TraceID] = append(got[s.TraceID], s)
		n++
	}
	if n != len(l) {
		rt.Fail("%d spans have to arrive at the agent, %d do", len(l), n)
	}
	for _, s := range l {
		w := ddOf(s)
		g := got[w.TraceID]
		if len(g) == 0 {
			rt.Fail("span %s does not arrive at the agent", ref.Show(s))
		}
		if !sameDD(w, g[0]) {
			rt.Fail("span %s has to arrive at the agent\nbut the next of its trace is %s", showDD(w), showDD(g[0]))
		}
		got[w.TraceID] = g[1:]
	}
	a.CheckUnmodified()
}

func sameDD(a, b fake.Span) bool {
	if len(a.Meta) != len(b.Meta) {
		return false
	}
	for k, v := range a.Meta {
		if w, ok := b.Meta[k]; !ok || w != v {
			return false
		}
	}
	return a.Name == b.Name && a.Service == b.Service && a.Resource == b.Resource && a.Type == b.Type && a.Start == b.Start && a.Duration == b.Duration &&
		a.SpanID == b.SpanID && a.TraceID == b.TraceID && a.ParentID == b.ParentID && a.Error == b.Error && a.Sampled == b.Sampled
}

func runC23(answer func(s proxy.Span) int, traces ...[]proxy.Span) {
	var convs []conversion
	s := sys.Boot(sys.Options{Converter: func(x proxy.Span) (proxy.Span, error) {
		c := conversion{in: ref.Clone(x)}
		y, err := convert(answer(x), x)
		c.out, c.err = ref.Clone(y), err
		convs = append(convs, c)
		return y, err
	}})
	var sent []proxy.Span
	for _, l := range traces {
		path, b := ref.Payload("v2", l)
		if r := s.Post(path, b); r.Code != 202 {
			rt.Fail("answered %d", r.Code)
		}
		sent = append(sent, tagged("v2", l)...)
	}
	rt.WaitFor("time", func() bool { return rt.Elapsed() > 15*time.Second })
	checkConverted(s, sent, convs)
	rt.Digest(fmt.Sprint(len(agentSpans(s.Agent))))
}

func lastN(l []proxy.Span, n int) []proxy.Span {
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return l
}

func init() {
	explore.Add(&explore.Scenario{Name: "converter answers", Prop: "C23",
		What: "a trace of 3 spans and one of 2: every combination of 14 converter answers (unchanged, new values, tags changed in place, error with and without a span, zero span id, zero trace id, other trace id, other span id, nothing but the ids, negative times, errors of other kinds) for the first three spans and 3 for the others",
		Cfgs: noDeviations,
		Body: func() {
			var a [4][4]int
			for i := 1; i <= 3; i++ {
				a[1][i] = rt.Choose(answers)
			}
			o := []int{aKeep, aInPlace, aError}
			a[2][1], a[2][2] = o[rt.Choose(3)], o[rt.Choose(3)]
			runC23(func(s proxy.Span) int { return a[s.Trace][s.Id] }, seqSpans(1, 3), seqSpans(2, 2))
		}})
	explore.Add(&explore.Scenario{Name: "longer traces", Prop: "C23",
		What: "traces of 7, 300 and 2500 spans of which every 1st, 2nd, 3rd or 7th gets one of the 14 answers",
		Cfgs: noDeviations,
		Body: func() {
			n := []int{7, 300, 2500}[rt.Choose(3)]
			a := rt.Choose(answers)
			m := []proxy.Id{1, 2, 3, 7}[rt.Choose(4)]
			ph := proxy.Id(rt.Choose(2))
			runC23(func(s proxy.Span) int {
				if s.Id%m == ph%m {
					return a
				}
				return aKeep
			}, seqSpans(1, n), seqSpans(2, 5))
		}})
	explore.Add(&explore.Scenario{Name: "converting at any time", Race: true, Prop: "C23",
		What: "three traces of 2 spans posted at once, one span of each left out or changed: every interleaving of forwarding, agent stage and recent view within the deviations",
		Cfgs: deviations(2, 3, everything),
		Body: func() {
			a := []int{aInPlace, aError, aMoved}[rt.Choose(3)]
			runC23(func(s proxy.Span) int {
				if proxy.Id(s.Trace)%2 == s.Id%2 {
					return a
				}
				return aTags
			}, seqSpans(1, 2), seqSpans(2, 2), seqSpans(3, 2))
		}})

	// ---- C24 ----
	explore.Add(&explore.Scenario{Name: "field values", Prop: "C24",
		What: "every combination of 9 durations, 13 values of the error tag, 7 start times, 6 span ids, 5 parents, empty and set name and service, other tags or none; trace ids of 4 values",
		Cfgs: noDeviations,
		Body: func() {
			durs := []time.Duration{-1 << 63, -1000, 0, 1, 999, 1000, 1001, 123456789, 1<<63 - 1}
			errs := []string{"-", "", "false", "0", "true", "1", "False", "FALSE", "00", "0 ", "no", "false ", "x"}
			starts := []proxy.Timestamp{0, 1, -1, base, base + 1, 1<<63 - 1, -1 << 63}
			ids := []proxy.Id{1, -1, 1 << 32, 1<<63 - 1, -1 << 63, 0x0123456789abcdef}
			d := durs[rt.Choose(len(durs))]
			e := errs[rt.Choose(len(errs))]
			st := starts[rt.Choose(len(starts))]
			ag := &fake.Agent{}
			ch := make(chan proxy.Trace)
			rt.GoNamed("sink", func() { datadog.Sink(ag, ch) })
			var all []proxy.Span
			for ti, t := range []proxy.Id{5, -7, -1 << 63, 1<<63 - 1} {
				var tr proxy.Trace
				for _, id := range ids {
					for _, p := range []proxy.Id{0, id, t, -1 << 63, 9} {
						for v := 0; v < 8; v++ {
							s := proxy.Span{Trace: t, Id: id, Parent: p, Timestamp: st, Duration: d}
							if v&1 != 0 {
								s.Name = fmt.Sprint("GET /", ti)
							}
							if v&2 != 0 {
								s.Service = "sérvice"
							}
							if v&3 == 3 && p == id {
								s.Name = s.Service
							}
							if v&4 != 0 {
								s.AddTag("http.url", "/x?y=\"z\"")
								s.AddTag("", "empty")
							}
							if e != "-" {
								s.AddTag("error", e)
							}
							tr = append(tr, s)
							all = append(all, ref.Clone(s))
						}
					}
				}
				rt.Send(ch, tr)
			}
			rt.Sleep(6 * time.Second)
			checkAgent(ag, all)
		}})
	explore.Add(&explore.Scenario{Name: "well-known tags", Prop: "C24",
		What: "each of the tag keys other tracing systems give a meaning, in lower and upper case, with each of 16 values, alone and together with an error tag of 3 values: it is a tag like any other",
		Cfgs: noDeviations,
		Body: func() {
			keys := ref.WellKnownTags
			key := keys[rt.Choose(len(keys))]
			if rt.Choose(2) == 1 {
				key = strings.ToUpper(key)
			}
			if key == "error" {
				return
			}
			ag := &fake.Agent{}
			ch := make(chan proxy.Trace)
			rt.GoNamed("sink", func() { datadog.Sink(ag, ch) })
			var tr proxy.Trace
			var all []proxy.Span
			for i, v := range []string{"", "0", "1", "2", "-1", "200", "404", "500", "503", "true", "false", "error", "ERROR", "client", "web", "GET /x"} {
				for j, e := range []string{"-", "true", "false"} {
					s := span(1, 1+4*i+j, 1)
					s.AddTag(key, v)
					if e != "-" {
						s.AddTag("error", e)
					}
					tr = append(tr, s)
					all = append(all, ref.Clone(s))
				}
			}
			rt.Send(ch, tr)
			rt.Sleep(6 * time.Second)
			checkAgent(ag, all)
		}})
	explore.Add(&explore.Scenario{Name: "any number of tags", Prop: "C24",
		What: "traces of 1, 3 and 20 spans with 0, 1, 2, 7..9, 15..17, 31..33, 63..65, 200, 255..257, 1025 and 5000 tags each, among them the error tag or not, keys and values of 0..3000 bytes",
		Cfgs: noDeviations,
		Body: func() {
			n := []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 200, 255, 256, 257, 1025, 5000}[rt.Choose(21)]
			e := rt.Choose(3)
			long := rt.Choose(2) == 1
			ag := &fake.Agent{}
			ch := make(chan proxy.Trace)
			rt.GoNamed("sink", func() { datadog.Sink(ag, ch) })
			var all []proxy.Span
			for t, k := range []int{1, 3, 20} {
				var tr proxy.Trace
				for i := 0; i < k; i++ {
					s := plain(1+t, 1+i, 1)
					for j := 0; j < n; j++ {
						key, v := fmt.Sprint("key", j), fmt.Sprint("value ", t, " ", i, " ", j)
						if long {
							key, v = key+strings.Repeat("k", j*37%3000), strings.Repeat(v, j%40)
						}
						s.AddTag(key, v)
					}
					if e > 0 && i%2 == 0 {
						s.AddTag("error", []string{"", "false", "timeout"}[e])
					}
					tr = append(tr, s)
					all = append(all, ref.Clone(s))
				}
				rt.Send(ch, tr)
			}
			rt.Sleep(6 * time.Second)
			checkAgent(ag, all)
		}})
	explore.Add(&explore.Scenario{Name: "long texts", Prop: "C24",
		What: "name, service, tag key, tag value or error tag of 0, 1, 99..101, 199..201, 255..257, 1023..1025, 4999..5001, 25000, 65535..65537 or 300000 characters of one to four bytes each, other texts short",
		Cfgs: noDeviations,
		Body: func() {
			what := rt.Choose(5)
			c := []string{"a", "é", "世", "\U0001f600", " ", "%"}[rt.Choose(6)]
			ag := &fake.Agent{}
			ch := make(chan proxy.Trace)
			rt.GoNamed("sink", func() { datadog.Sink(ag, ch) })
			var all []proxy.Span
			for i, n := range []int{0, 1, 99, 100, 101, 199, 200, 201, 255, 256, 257, 1023, 1024, 1025, 4999, 5000, 5001, 25000, 65535, 65536, 65537, 300000} {
				t := strings.Repeat(c, n)
				s := span(1+i%3, 1+i, 1)
				switch what {
				case 0:
					s.Name = t
				case 1:
					s.Service = t
				case 2:
					s.Tags[t] = "v"
				case 3:
					s.Tags["k"] = t
				case 4:
					s.Tags["error"] = t
				}
				all = append(all, ref.Clone(s))
				rt.Send(ch, proxy.Trace{s})
			}
			rt.Sleep(6 * time.Second)
			checkAgent(ag, all)
		}})
	explore.Add(&explore.Scenario{Name: "mapped over batches", Prop: "C24",
		What: "10000 spans with distinct values in 1, 7 or 100 traces over several batches: none gets values of another",
		Cfgs: noDeviations,
		Body: func() {
			k := []int{1, 7, 100}[rt.Choose(3)]
			per := []int{1, 9, 1000, 3000}[rt.Choose(4)]
			ag := &fake.Agent{}
			ch := make(chan proxy.Trace)
			rt.GoNamed("sink", func() { datadog.Sink(ag, ch) })
			var all []proxy.Span
			for len(all) < 10000 {
				var tr proxy.Trace
				for i := 0; i < per; i++ {
					s := span(1+len(all)/per%k, 1+len(all), len(all)/2)
					s.Timestamp += proxy.Timestamp(len(all))
					if len(all)%3 == 0 {
						s.AddTag("error", []string{"x", "false", "0"}[len(all)/3%3])
					}
					tr = append(tr, s)
					all = append(all, ref.Clone(s))
				}
				rt.Send(ch, tr)
				if len(all)%1700 < per {
					rt.Sleep(700 * time.Millisecond)
				}
			}
			rt.Sleep(6 * time.Second)
			checkAgent(ag, all)
		}})

	// ---- C27 ----
	explore.Add(&explore.Scenario{Name: "recorded histories", Prop: "C27",
		What: "capacities 1..5: every sequence of 5 traces of 0..capacity+2 spans (up to 7) with ids from the whole range, some spans again, the view compared after every one and once more at the end",
		Cfgs: noDeviations,
		Body: func() {
			n := 1 + rt.Choose(5)
			b := zipkinproxy.NewSpansBuffer(uint(n))
			ch := make(chan proxy.Trace, 8)
			rt.GoNamed("buffer", func() { b.ReadFrom(ch) })
			var all []proxy.Span
			var views [][]proxy.Span // as returned
			var then []int           // how many spans were recorded
			for i := 0; i < 5; i++ {
				var tr proxy.Trace
				for k := rt.Choose(n + 3); k > 0; k-- {
					x := span(1+i, 1+len(all), 1)
					if len(all)%2 == n%2 {
						x.Id = oddIds[len(all)%len(oddIds)]
					}
					if len(all)%3 == 1 {
						x.Trace, x.Parent = oddIds[i], 0
					}
					if n%2 == 0 { // later spans started earlier
						x.Timestamp -= proxy.Timestamp(len(all)) * proxy.Timestamp(time.Hour)
					}
					if len(all) > 0 && len(tr) == 0 && (n+i)%2 == 0 {
						x = all[len(all)-1] // received again
					}
					tr = append(tr, ref.Clone(x))
					all = append(all, x)
				}
				rt.Send(ch, tr)
				rt.Sleep(time.Millisecond)
				for j := 0; j < 2; j++ {
					got := b.ToSlice()
					if !ref.EqualAll(got, lastN(all, n)) {
						rt.Fail("capacity %d, received %s\nview %s", n, ref.ShowAll(all), ref.ShowAll(got))
					}
					views, then = append(views, got), append(then, len(all))
				}
			}
			for i, v := range views {
				if !ref.EqualAll(v, lastN(all[:then[i]], n)) {
					rt.Fail("capacity %d: the view after %d spans was changed after it was returned: %s", n, then[i], ref.ShowAll(v))
				}
			}
		}})
	explore.Add(&explore.Scenario{Name: "capacity 2048", Prop: "C27",
		What: "the capacity of the process with traces of 1, 7, 100, 1948, 2047, 2048, 2049 and 5000 spans in every sequence of 4, the views compared again at the end",
		Cfgs: noDeviations,
		Body: func() {
			var views [][]proxy.Span
			var then []int
			b := zipkinproxy.NewSpansBuffer(2048)
			ch := make(chan proxy.Trace, 8)
			rt.GoNamed("buffer", func() { b.ReadFrom(ch) })
			var all []proxy.Span
			for i := 0; i < 4; i++ {
				var tr proxy.Trace
				for k := []int{1, 7, 100, 1948, 2047, 2048, 2049, 5000}[rt.Choose(8)]; k > 0; k-- {
					tr = append(tr, plain(1+i, 1+len(all)+len(tr), 1))
				}
				all = append(all, tr...)
				rt.Send(ch, tr)
				rt.Sleep(time.Millisecond)
				got := b.ToSlice()
				if !ref.EqualAll(got, lastN(all, 2048)) {
					rt.Fail("received %d spans, the view has %d: not the last ones in order", len(all), len(got))
				}
				views, then = append(views, got), append(then, len(all))
			}
			for i, v := range views {
				if !ref.EqualAll(v, lastN(all[:then[i]], 2048)) {
					rt.Fail("the view after %d spans was changed after it was returned", then[i])
				}
			}
		}})
	explore.Add(&explore.Scenario{Name: "readers at once", Race: true, Prop: "C27",
		What: "capacity 1..4, four traces of 1-3 spans recorded while two readers look 3 times each: every interleaving within the deviations; a view is the last spans after some number of whole traces, not older than an earlier one",
		Cfgs: deviations(3, 5, func(c *rt.Config) { c.Sched, c.Select, c.Atomics = true, true, true }),
		Body: func() {
			n := 1 + rt.Choose(4)
			b := zipkinproxy.NewSpansBuffer(uint(n))
			ch := make(chan proxy.Trace, 2)
			rt.GoNamed("buffer", func() { b.ReadFrom(ch) })
			sz := []int{1, 3, 2, 2}
			// views[k] is the view after k traces
			var all []proxy.Span
			views := [][]proxy.Span{nil}
			for i, k := range sz {
				for j := 0; j < k; j++ {
					all = append(all, span(1+i, 1+len(all), 1))
				}
				views = append(views, lastN(all[:len(all):len(all)], n))
			}
			sent := 0
			var seen [][]proxy.Span // what the readers got
			var what []int
			reader := func() {
				low := 0
				for i := 0; i < 3; i++ {
					got := b.ToSlice()
					k := low
					for k <= sent && !ref.EqualAll(got, views[k]) {
						k++
					}
					if k > sent {
						rt.Fail("capacity %d: after between %d and %d traces of sizes %v a reader sees %s", n, low, sent, sz, ref.ShowAll(got))
					}
					low = k
					seen, what = append(seen, got), append(what, k)
					rt.Point("reader")
				}
			}
			join(func() {
				o := 0
				for _, k := range sz {
					tr := proxy.Trace(ref.CloneAll(all[o : o+k]))
					o += k
					sent++
					rt.Send(ch, tr)
				}
			}, reader, reader)
			rt.Sleep(time.Millisecond)
			for i, v := range seen {
				if !ref.EqualAll(v, views[what[i]]) {
					rt.Fail("capacity %d: a view after %d traces was changed after it was returned: %s", n, what[i], ref.ShowAll(v))
				}
			}
			if got := b.ToSlice(); !ref.EqualAll(got, views[len(sz)]) {
				rt.Fail("capacity %d: the view is %s at the end instead of %s", n, ref.ShowAll(got), ref.ShowAll(views[len(sz)]))
			}
		}})
}
