package main

import (
	"encoding/json"
	"fmt"
	"math"
	"net/http/httptest"
	"sort"
	"strings"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/cache"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/rcrowley/go-metrics"

	"verif/explore"
	"verif/fake"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

// counts are the numbers of all metrics: how often for meters, timers, histograms and counters, the value of gauges.
type counts map[string]float64

func readMetrics(r metrics.Registry) counts {
	all := map[string]interface{}{}
	var names []string
	r.Each(func(name string, m interface{}) {
		names = append(names, name)
		all[name] = m
	})
	sort.Strings(names)
	c := counts{}
	for _, n := range names {
		switch m := all[n].(type) {
		case metrics.Meter:
			c[n] = float64(m.Count())
		case metrics.Timer:
			c[n] = float64(m.Count())
		case metrics.Histogram:
			c[n] = float64(m.Count())
		case metrics.Counter:
			c[n] = float64(m.Count())
		case metrics.Gauge:
			c[n] = float64(m.Value())
		case metrics.GaugeFloat64:
			c[n] = m.Value()
		}
		if v := c[n]; math.IsNaN(v) || math.IsInf(v, 0) {
			rt.Fail("metric %s is %v", n, v)
		}
	}
	return c
}

// counted compares what the metrics counted since before.
func counted(what string, before counts, want map[string]int) {
	now := readMetrics(metrics.DefaultRegistry)
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if d := now[n] - before[n]; d != float64(want[n]) {
			rt.Fail("%s: %s grew by %v instead of %d", what, n, d, want[n])
		}
	}
}

func histogram(name string) metrics.Histogram {
	h, ok := metrics.DefaultRegistry.Get(name).(metrics.Histogram)
	if !ok {
		rt.Fail("there is no histogram %s", name)
	}
	return h
}

func gaugesAre(what string, traces, spans int) {
	c := readMetrics(metrics.DefaultRegistry)
	if c["traces.partial.count"] != float64(traces) || c["traces.partial.span.count"] != float64(spans) {
		rt.Fail("%s: %d traces with %d spans are in flight, the gauges are %v and %v", what, traces, spans, c["traces.partial.count"], c["traces.partial.span.count"])
	}
}

// getMetrics reads the metrics as the admin page shows them.
func getMetrics(s *sys.Sys) map[string]map[string]interface{} {
	rec := httptest.NewRecorder()
	s.Admin.ServeHTTP(rec, httptest.NewRequest("GET", "/admin/metrics", nil))
	if rec.Code != 200 {
		rt.Fail("GET /admin/metrics at %s is answered %d %s", rt.Elapsed(), rec.Code, rec.Body.String())
	}
	var m map[string]map[string]interface{}
	if err := json.Unmarshal(rec.Body.Bytes(), &m); err != nil {
		rt.Fail("GET /admin/metrics: %s: %q", err, rec.Body.String())
	}
	v, ok := m["binary.cache.hit.rate"]["value"].(float64)
	if !ok || v < 0 || v > 1 {
		rt.Fail("the hit rate of the cache is %v", m["binary.cache.hit.rate"])
	}
	return m
}

// fate is what happens to a trace.
type fate struct {
	what          string
	events        func(t int, at time.Duration) []event
	want          map[string]int
	sizes         []int // of the ended traces
	traces, spans int   // in flight 3 s after the first span
}

var traceMeters = []string{"spans.merged", "spans.discarded", "traces.corrected", "traces.finished", "traces.noroot", "traces.toolarge", "traces.tooold", "traces.discarded", "blacklist.span.received", "traces.finishedsize"}

func fates() []fate {
	done := func(n int) map[string]int {
		return map[string]int{"traces.finished": n, "traces.corrected": n}
	}
	ev := func(at time.Duration, l ...proxy.Span) (r []event) {
		for _, x := range l {
			r = append(r, event{at, x})
		}
		return
	}
	half := func(t int, client bool) proxy.Span {
		x := span(t, 2, 1)
		b := at(time.Second)
		if client {
			x.Timings = proxy.Timings{CS: b, CR: b.Add(time.Second)}
		} else {
			x.Timings = proxy.Timings{SR: b.Add(time.Millisecond), SS: b.Add(500 * time.Millisecond)}
		}
		return x
	}
	var large = func(t, n int) (l []proxy.Span) {
		for i := n; i >= 1; i-- {
			l = append(l, plain(t, i, 1))
		}
		return
	}
	merged := done(1)
	merged["spans.merged"] = 3
	return []fate{
		{"whole", func(t int, at time.Duration) []event { return ev(at, span(t, 1, 0), span(t, 2, 1), span(t, 3, 1)) }, done(1), []int{3}, 1, 3},
		{"two halves and repeated ones", func(t int, at time.Duration) []event {
			return ev(at, half(t, true), span(t, 1, 0), half(t, false), span(t, 1, 0), half(t, false))
		}, merged, []int{2}, 1, 2},
		{"orphans of one parent", func(t int, at time.Duration) []event { return ev(at, span(t, 2, 9), span(t, 3, 9)) }, done(1), []int{2}, 1, 2},
		{"no unique root", func(t int, at time.Duration) []event { return ev(at, span(t, 2, 8), span(t, 3, 9), span(t, 4, 3)) }, map[string]int{"traces.noroot": 1}, []int{3}, 1, 3},
		{"endless", func(t int, at time.Duration) (r []event) {
			for i := 0; i < 8; i++ {
				r = append(r, event{at + time.Duration(i)*7*time.Second, span(t, i+1, 1)})
			}
			return
		}, map[string]int{"traces.tooold": 1, "blacklist.span.received": 2}, []int{6}, 1, 1},
		{"too large", func(t int, at time.Duration) []event {
			return append(ev(at, large(t, 8193)...), ev(at+5*time.Second, span(t, 1, 0), span(t, 9000, 1), span(t, 9001, 1))...)
		}, map[string]int{"traces.toolarge": 1, "blacklist.span.received": 3}, []int{8193}, 0, 0},
		{"large", func(t int, at time.Duration) []event { return ev(at, large(t, 8192)...) }, done(1), []int{8192}, 1, 8192},
		{"invalid", func(t int, at time.Duration) []event {
			return ev(at, span(t, 0, 1), span(0, t, 1))
		}, nil, nil, 0, 0},
		{"in two pieces", func(t int, at time.Duration) []event {
			return append(ev(at, span(t, 1, 0), span(t, 2, 1)), ev(at+12*time.Second, span(t, 3, 1))...)
		}, done(2), []int{2, 1}, 1, 2},
	}
}

func init() {
	// the variable of package balance is made anew for every execution, and has to be what is registered
	rt.RegisterFirstReset(func() { metrics.DefaultRegistry.Unregister("kafka.span.size") })
	fs := fates()
	explore.Add(&explore.Scenario{Name: "fates", Prop: "C31",
		What: fmt.Sprintf("every sequence of three traces of %d fates (delivered whole, with merged halves, a synthetic root, no unique root, endless, too large, invalid, in two pieces), started together or 0.3 s apart, with a receiver that is ready or (started together) takes 20 s for the second delivery: all meters, the histogram of sizes and the gauges of what is in flight", len(fs)),
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			before := readMetrics(metrics.DefaultRegistry)
			size := histogram("traces.finishedsize")
			size.Clear()
			v := rt.Choose(3)
			gap := []time.Duration{0, 300 * time.Millisecond, 0}[v]
			slow := v == 2
			want := map[string]int{}
			for _, n := range traceMeters {
				want[n] = 0
			}
			var ev []event
			var sizes []int64
			var what []string
			var traces, spans int
			for i := 0; i < 3; i++ {
				f := fs[rt.Choose(len(fs))]
				if slow && f.want["blacklist.span.received"]+f.want["traces.tooold"]+len(f.sizes) > 1 {
					continue // the delay would change its fate
				}
				if f.what == "large" && i > 0 || f.what == "too large" && len(sizes) > 0 && sizes[0] > 1000 {
					continue // one of them takes long enough
				}
				what = append(what, f.what)
				ev = append(ev, f.events(0x100+i, t0+time.Duration(i)*gap)...)
				for k, n := range f.want {
					want[k] += n
				}
				for _, n := range f.sizes {
					sizes = append(sizes, int64(n))
				}
				traces += f.traces
				spans += f.spans
			}
			delete(want, "traces.finishedsize")
			s := newStage(256, 0)
			if slow {
				s.slow = func(n int) {
					if n == 1 {
						rt.Sleep(20 * time.Second)
					}
				}
			}
			probed := false
			rt.GoNamed("probe", func() {
				until(t0 + 3*time.Second)
				gaugesAre(fmt.Sprint(what), traces, spans)
				probed = true
			})
			s.play(ev, 90*time.Second)
			if !probed {
				panic("not probed")
			}
			counted(fmt.Sprint(what), before, want)
			gaugesAre(fmt.Sprint("at the end of ", what), 0, 0)
			got := append([]int64{}, size.Sample().Values()...)
			sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
			sort.Slice(sizes, func(i, j int) bool { return sizes[i] < sizes[j] })
			if fmt.Sprint(got) != fmt.Sprint(sizes) {
				rt.Fail("%v: traces of %v spans ended, the histogram has %v", what, sizes, got)
			}
			rt.Digest(fmt.Sprint(len(s.got)))
		}})
	mixes := []struct {
		traces, size, waves int
	}{{101, 1000, 1}, {13, 8000, 1}, {25, 8000, 1}, {120, 900, 1}, {450, 300, 3}, {100002, 1, 1}, {99, 1000, 1}}
	explore.Add(&explore.Scenario{Name: "discarded", Prop: "C31",
		What: fmt.Sprintf("overload by %v traces of so many spans in so many waves 0.5 s apart: traces.discarded and spans.discarded are the traces and spans that are not delivered", mixes),
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			m := mixes[rt.Choose(len(mixes))]
			before := readMetrics(metrics.DefaultRegistry)
			s := newStage(256, 64)
			until(t0)
			for w := 0; w < m.waves; w++ {
				for k := 0; k < m.traces; k++ {
					if k%m.waves != w {
						continue
					}
					for i := m.size; i >= 1; i-- {
						s.send(plain(0x1000+k, i, 1))
					}
				}
				rt.Sleep(500 * time.Millisecond)
			}
			until(t0 + 15*time.Second)
			done := len(s.got)
			gone := m.traces - done
			counted(fmt.Sprintf("%v", m), before, map[string]int{"traces.discarded": gone, "spans.discarded": gone * m.size, "traces.finished": done, "traces.corrected": done, "traces.noroot": 0,
				"traces.tooold": 0, "traces.toolarge": 0, "spans.merged": 0, "blacklist.span.received": 0})
			gaugesAre("after the overload", 0, 0)
			rt.Digest(fmt.Sprint(m, done))
		}})

	ps := posts()
	explore.Add(&explore.Scenario{Name: "request counts", Prop: "C31",
		What: fmt.Sprintf("every sequence of two of %d requests (complete, damaged, cut, of another type) in all formats, then a read of the admin page: parsed spans, requests per format, traces", len(ps)),
		Cfgs: noDeviations,
		Body: func() {
			s := sys.Boot(sys.Options{})
			before := readMetrics(metrics.DefaultRegistry)
			want := map[string]int{"spans.parsed[type:json]": 0, "spans.receive[type:json-v1]": 0, "spans.receive[type:json-v2]": 0, "spans.receive[type:jaeger]": 0}
			what := ""
			for i := 0; i < 2; i++ {
				p := ps[rt.Choose(len(ps))]
				s.PostBody(p.path, p.ctype, "", &sys.Body{Pieces: [][]byte{p.body}, Err: p.err})
				what += p.path + " " + p.what + ", "
				if p.ok {
					want["spans.parsed[type:json]"] += len(p.want)
				}
				switch {
				case strings.Contains(p.path, "jaeger"):
					want["spans.receive[type:jaeger]"]++
				case strings.Contains(p.path, "v2"):
					want["spans.receive[type:json-v2]"]++
				case strings.Contains(p.ctype, "application/json"):
					want["spans.receive[type:json-v1]"]++
				}
			}
			counted(what, before, want)
			getMetrics(s)
		}})
	explore.Add(&explore.Scenario{Name: "reads of an idle proxy", Prop: "C31",
		What: "every sequence of 5 of: read the admin page, 1 s or 10 s without anything, a request with a new or the same trace; without and with Kafka: every read is answered with finite numbers",
		Cfgs: noDeviations,
		Body: func() {
			s := sys.Boot(sys.Options{Kafka: rt.Choose(2) == 1})
			var l []proxy.Span
			for i := 0; i < 5; i++ {
				switch rt.Choose(5) {
				case 0:
					getMetrics(s)
				case 1:
					settle(time.Second)
				case 2:
					settle(10 * time.Second)
				case 3:
					x := seqSpans(0x100+i, 2)
					postOK(s, "v2", x)
					l = append(l, tagged("v2", x)...)
				case 4:
					x := span(0x200, 100+i, 1)
					x.Service, x.Name = "same", "same"
					postOK(s, "v1", []proxy.Span{x})
				}
			}
			getMetrics(s)
			getMetrics(s)
			settle(15 * time.Second)
			m := getMetrics(s)
			if m["traces.partial.count"]["value"].(float64) != 0 {
				rt.Fail("traces are in flight in the end: %v", m["traces.partial.count"])
			}
			n := 0
			for _, c := range s.Agent.Calls {
				for _, t := range c.Traces {
					for _, x := range t {
						if x.TraceID != 0x200 {
							n++
						}
					}
				}
			}
			if n != len(l) {
				rt.Fail("%d of %d spans arrive at the agent", n, len(l))
			}
		}})
	var body = func(kafka bool) func() {
		return func() {
			s := sys.Boot(sys.Options{Kafka: kafka})
			before := readMetrics(metrics.DefaultRegistry)
			a, b := seqSpans(0x11, 3), seqSpans(0x22, 2)
			join(func() { postOK(s, "v1", a) },
				func() { getMetrics(s); getMetrics(s) },
				func() { postOK(s, "jaeger", b) },
				func() {
					path, p := ref.Payload("v2", seqSpans(0x33, 3))
					s.Post(path, p[:len(p)-1])
				})
			settle(15 * time.Second)
			getMetrics(s)
			counted("simultaneous requests", before, map[string]int{"spans.parsed[type:json]": 5, "traces.finished": 2, "traces.corrected": 2, "traces.noroot": 0, "spans.merged": 0,
				"spans.receive[type:json-v1]": 1, "spans.receive[type:json-v2]": 1, "spans.receive[type:jaeger]": 1})
			arrived(append(tagged("v1", a), tagged("jaeger", b)...), s)
		}
	}
	explore.Add(&explore.Scenario{Name: "reads at once", Race: true, Prop: "C31",
		What: "three simultaneous requests and a reader of the metrics, without Kafka: every interleaving, select, pool answer within the deviations",
		Cfgs: deviations(2, 3, schedules), Body: body(false)})
	explore.Add(&explore.Scenario{Name: "reads at once with Kafka", Prop: "C31",
		What: "the same with Kafka", Cfgs: deviations(1, 2, schedules), Body: body(true)})

	explore.Add(&explore.Scenario{Name: "cache gauges", Prop: "C31",
		What: "every sequence of 7 of: intern one of two short contents in one of three ways, a long or an empty one, read: the hit rate is the share of the lookups since the last read that found their content, the count the number of different contents",
		Cfgs: noDeviations,
		Body: func() {
			r := metrics.NewRegistry()
			cache.RegisterCacheMetrics(r)
			ways := []func(string) string{cache.String, func(s string) string { return cache.StringForByteSliceCopy([]byte(s)) }, func(s string) string { return cache.StringForByteSliceNoCopy([]byte(s)) }}
			words := []string{"a", "the second one", strings.Repeat("long", 5000), ""}
			known := map[string]bool{}
			hits, misses, bytes := 0, 0, 0
			last := -1.0
			check := func() {
				c := readMetrics(r)
				rate := c["binary.cache.hit.rate"]
				if hits+misses > 0 && math.Abs(rate-float64(hits)/float64(hits+misses)) > 1e-9 || rate < 0 || rate > 1 {
					rt.Fail("%d of %d lookups found their content, the hit rate is %v", hits, hits+misses, rate)
				}
				hits, misses = 0, 0
				if n := c["binary.cache.count"]; n != float64(len(known)) {
					rt.Fail("%d contents are in the cache, its count is %v", len(known), n)
				}
				if n := c["binary.cache.size"]; n < float64(bytes) || n > float64(bytes+1000*len(known)) || len(known) == 0 && n != 0 {
					rt.Fail("%d bytes in %d contents are in the cache, its size is %v", bytes, len(known), n)
				} else {
					last = n
				}
			}
			for i := 0; i < 7; i++ {
				k := rt.Choose(5)
				if k == 4 {
					check()
					continue
				}
				w := words[k]
				if g := ways[(i+k)%3](w); g != w {
					rt.Fail("%.20q is interned as %.20q", w, g)
				}
				switch {
				case w == "":
				case known[w]:
					hits++
				default:
					misses++
					known[w] = true
					bytes += len(w)
				}
			}
			check()
			rt.Digest(fmt.Sprint(last))
		}})
	explore.Add(&explore.Scenario{Name: "message sizes", Prop: "C31",
		What: "1300 spans of 1, 3 or 40 different sizes sent to Kafka by one sender: the histogram of sizes has some of them, and only sizes of messages",
		Cfgs: noDeviations,
		Body: func() {
			kinds := []int{1, 3, 40}[rt.Choose(3)]
			h := histogram("kafka.span.size")
			h.Clear()
			snd, prod, _ := newSenders(1, nil, func(i int, p *fake.Producer) {})
			in := make(chan proxy.Span)
			rt.GoNamed("sender", func() { snd[0].Send(in) })
			for i := 0; i < 1300; i++ {
				x := span(5, i+1, 1)
				x.Tags["pad"] = strings.Repeat("x", i%kinds*37)
				rt.Send(in, x)
			}
			rt.Sleep(5 * time.Second)
			sizes := map[int64]bool{}
			for _, m := range prod[0].Msgs {
				v, _ := m.Value.Encode()
				sizes[int64(len(v))] = true
			}
			if len(prod[0].Msgs) != 1300 {
				rt.Fail("%d of 1300 messages are produced", len(prod[0].Msgs))
			}
			if n := h.Count(); n < 1 || n > 1300 {
				rt.Fail("%d sizes are recorded for 1300 messages", n)
			}
			for _, v := range h.Sample().Values() {
				if !sizes[v] {
					rt.Fail("size %d is recorded but no message has it", v)
				}
			}
		}})
}
