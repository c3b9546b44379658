package main

import (
	"fmt"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/ref"
)

// reqBody is a request body with its meaning (nil spans and bad=true: rejected).
type reqBody struct {
	format, src string
	want        []proxy.Span
	bad         bool
}

func requests() []reqBody {
	tv1 := map[string]string{"protocolVersion": "json v1"}
	tv2 := map[string]string{"protocolVersion": "json v2"}
	ms := proxy.Span{}.Duration + 1000000
	full1, full2 := ref.Clone(v1Span), ref.Clone(v2Span)
	doc1 := obj(v1Fields(v1AnDef, v1BinDef))
	doc2 := obj(v2Fields(v2Endpoint, v2Tags))
	four := `{"id":"4","annotations":[{"timestamp":1,"value":"cs","endpoint":{"serviceName":"A"}},{"timestamp":2,"value":"sr","endpoint":{"serviceName":"B"}},{"timestamp":3,"value":"ss"},{"timestamp":9,"value":"cr"}],"binaryAnnotations":[{"key":"k1","value":"v1"},{"key":"k2","value":2},{"key":"k3","value":null}]}`
	span4 := proxy.Span{Id: 4, Service: "A", Timestamp: 1000, Duration: 8000, Tags: map[string]string{"k1": "v1", "k2": "2", "k3": "null", "protocolVersion": "json v1"}, Timings: proxy.Timings{CS: 1000, SR: 2000, SS: 3000, CR: 9000}}
	_ = span4
	r := []reqBody{
		{"v1", "[" + doc1 + "]", []proxy.Span{full1}, false},
		{"v1", `[{}]`, []proxy.Span{{Duration: ms, Tags: tv1}}, false},
		{"v1", `[]`, nil, false},
		{"v1", `[{"id":"9"},` + doc1 + `,{"name":"n"}]`, []proxy.Span{{Id: 9, Duration: ms, Tags: tv1}, full1, {Name: "n", Duration: ms, Tags: tv1}}, false},
		{"v1", `[{"annotations":[{"value":"sr"}],"binaryAnnotations":[{"key":"z"}]}]`, []proxy.Span{{Duration: ms, Tags: map[string]string{"z": "", "protocolVersion": "json v1"}}}, false},
		{"v1", `[{"annotations":[{"timestamp":5,"value":"sr"},{"timestamp":8,"value":"ss"}],"binaryAnnotations":[]}]`, []proxy.Span{{Timestamp: 5000, Duration: 3000, Tags: tv1, Timings: proxy.Timings{SR: 5000, SS: 8000}}}, false},
		{"v1", `[{"annotations":[{"timestamp":5},{"endpoint":{"serviceName":"only"},"timestamp":6}],"traceId":"77"}]`, []proxy.Span{{Trace: 0x77, Service: "only", Duration: ms, Tags: tv1}}, false},
		{"v1", `[{"binaryAnnotations":[{"value":"noKey"},{"endpoint":{"serviceName":"bin"}}]}]`, []proxy.Span{{Service: "bin", Duration: ms, Tags: map[string]string{"": "", "protocolVersion": "json v1"}}}, false},
		{"v1", "[" + four + "]", nil, true}, // completed below
		{"v1", "[" + doc1 + "," + four + `,{"id":"zz"}]`, nil, true},
		{"v1", "[" + doc1 + `,{"annotations":[{"timestamp":7,"value":"cs","endpoint":{"serviceName":"leak"}},{"timestamp":`, nil, true},
		{"v1", `[{"name":"` + strings.Repeat("leak", 3000), nil, true},
		{"v1", `[{"binaryAnnotations":[{"key":"leak","value":"leak","endpoint":{"serviceName":"leak"}},{"key":"leak2","value":"x"},5`, nil, true},
		{"v1", strings.Repeat("x", 9000), nil, true},
		{"v2", "[" + doc2 + "]", []proxy.Span{full2}, false},
		{"v2", `[{}]`, []proxy.Span{{Duration: ms, Tags: tv2}}, false},
		{"v2", `[{"id":"9"},` + doc2 + `,{"name":"n"}]`, []proxy.Span{{Id: 9, Duration: ms, Tags: tv2}, full2, {Name: "n", Duration: ms, Tags: tv2}}, false},
		{"v2", `[{"tags":{}},{"localEndpoint":{}},{"kind":"x"}]`, []proxy.Span{{Duration: ms, Tags: tv2}, {Duration: ms, Tags: tv2}, {Duration: ms, Tags: tv2}}, false},
		{"v2", `[{"tags":{"t":"only"},"timestamp":4}]`, []proxy.Span{{Timestamp: 4000, Duration: ms, Tags: map[string]string{"t": "only", "protocolVersion": "json v2"}}}, false},
		{"v2", `[` + doc2 + `,{"tags":{"leak":"leak","l2":"l3"},"localEndpoint":{"serviceName":"leak"},"id":"-"}]`, nil, true},
		{"v2", `[` + doc2 + `,{"tags":{"leak":"leak","l2`, nil, true},
		{"v2", `[{"kind":"SERVER","timestamp":99,"duration":7,"parentId":"5","name":"leak","traceId":"3","id":"4"`, nil, true},
		{"jaeger", `{"data":[{"spans":[{"traceID":"a","spanID":"b","operationName":"op","startTime":5,"duration":6,"processID":"p","tags":[{"key":"k","value":"v"},{"key":"span.kind","value":"server"}],"references":[{"refType":"CHILD_OF","spanID":"c"}]}],"processes":{"p":{"serviceName":"svc"}}}]}`,
			[]proxy.Span{{Id: 0xb, Trace: 0xa, Parent: 0xc, Name: "op", Service: "svc", Timestamp: 5000, Duration: 6000, Tags: map[string]string{"k": "v", "protocolVersion": "jaeger"}, Timings: proxy.Timings{SR: 5000, SS: 11000}}}, false},
		{"jaeger", `{"data":[{"spans":[{},{"spanID":"2"}]}]}`, []proxy.Span{{Duration: ms, Tags: map[string]string{"protocolVersion": "jaeger"}}, {Id: 2, Parent: 2, Duration: ms, Tags: map[string]string{"protocolVersion": "jaeger"}}}, false},
		{"jaeger", `{"data":[{"spans":[{"operationName":"leak","tags":[{"key":"leak","value":"x"}]},{"spanID":5}]}]}`, nil, true},
	}
	r[8].want, r[8].bad = []proxy.Span{span4}, false
	// more spans than the pooled slices hold at first, every field set, then empty ones
	var many []string
	var want []proxy.Span
	for i := 0; i < 70; i++ {
		many = append(many, doc1)
		want = append(want, full1)
	}
	r = append(r, reqBody{"v1", "[" + strings.Join(many, ",") + "]", want, false})
	var bare []string
	var want0 []proxy.Span
	for i := 0; i < 90; i++ {
		bare = append(bare, "{}")
		want0 = append(want0, proxy.Span{Duration: ms, Tags: tv1})
	}
	r = append(r, reqBody{"v1", "[" + strings.Join(bare, ",") + "]", want0, false})
	var many2, bare2 []string
	var want2, want20 []proxy.Span
	for i := 0; i < 70; i++ {
		many2 = append(many2, doc2)
		want2 = append(want2, full2)
	}
	for i := 0; i < 90; i++ {
		bare2 = append(bare2, "{}")
		want20 = append(want20, proxy.Span{Duration: ms, Tags: tv2})
	}
	r = append(r, reqBody{"v2", "[" + strings.Join(many2, ",") + "]", want2, false}, reqBody{"v2", "[" + strings.Join(bare2, ",") + "]", want20, false})
	return r
}

func init() {
	explore.AddSeq(&explore.Seq{Name: "request histories", Prop: "C09",
		What: "every sequence of up to 3 (thorough: 4) of 29 request bodies of the three formats (every field set, every field missing, more spans than pooled, failing at many places): each is decoded to what it denotes, and the spans of earlier ones stay as they were",
		Run: func(c *explore.C) {
			rs := requests()
			max := 3
			if c.Thorough {
				max = 4
			}
			for l := 1; l <= max; l++ {
				words(len(rs), l, func(w []int) {
					if !c.Next(func() string {
						t := ""
						for _, x := range w {
							t += rs[x].format + " " + clip(rs[x].src) + "\n"
						}
						return t
					}) {
						return
					}
					var got [][]proxy.Span
					for _, x := range w {
						r := rs[x]
						s, err := parse(r.format, []byte(r.src))
						c.Ops(1)
						if (err != nil) != r.bad {
							c.Fail("after the requests %v: %s body %s: error %v", w, r.format, clip(r.src), err)
						}
						if !r.bad && !ref.EqualAll(s, r.want) {
							c.Fail("after the requests %v: %s body %s\nis decoded to %s\ninstead of %s", w, r.format, clip(r.src), ref.ShowAll(s), ref.ShowAll(r.want))
						}
						got = append(got, s)
					}
					for i, x := range w {
						if !rs[x].bad && !ref.EqualAll(got[i], rs[x].want) {
							c.Fail("the spans of request %d of %v changed afterwards to %s", i, w, ref.ShowAll(got[i]))
						}
					}
				})
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "span layouts", Prop: "C09",
		What: "every pair of v1 requests and of v2 requests of 1-3 spans, each span having all or exactly one of its fields missing or only one set",
		Run: func(c *explore.C) {
			for _, f := range []string{"v1", "v2"} {
				var fs []field
				fresh := func(mask int) string {
					if f == "v1" {
						fs = v1Fields(v1AnDef, v1BinDef)
					} else {
						fs = v2Fields(v2Endpoint, v2Tags)
					}
					var r []field
					for i, x := range fs {
						if mask&(1<<i) != 0 {
							r = append(r, x)
						}
					}
					return obj(r)
				}
				fresh(0)
				all := 1<<len(fs) - 1
				masks := []int{0, all}
				for i := range fs {
					masks = append(masks, all&^(1<<i), 1<<i)
				}
				n := len(masks)
				// meaning of a span: decoded after a request that cannot leave anything behind in a slot (all fields absent everywhere)
				meaning := func(m int) proxy.Span { return spanOf(f, m) }
				for _, k := range []int{1, 2} {
					for _, l := range []int{1, 2} {
						words(n, k+l, func(w []int) {
							if !c.Next(func() string { return fmt.Sprint(f, " fields ", w[:k], " then ", w[k:]) }) {
								return
							}
							for part, r := range [][]int{w[:k], w[k:]} {
								var t []string
								var want []proxy.Span
								for _, x := range r {
									t = append(t, fresh(masks[x]))
									want = append(want, meaning(masks[x]))
								}
								b := "[" + strings.Join(t, ",") + "]"
								got, err := parse(f, []byte(b))
								c.Ops(1)
								if err != nil || !ref.EqualAll(got, want) {
									c.Fail("%s request %d of 2, %s\nis decoded to %s (%v)\ninstead of %s", f, part+1, b, ref.ShowAll(got), err, ref.ShowAll(want))
								}
							}
						})
					}
				}
			}
		}})
}

// spanOf is the meaning of the fields of v1Fields or v2Fields selected by mask.
func spanOf(f string, mask int) proxy.Span {
	has := func(i int) bool { return mask&(1<<i) != 0 }
	var s proxy.Span
	s.AddTag("protocolVersion", ref.ProtocolTag(f))
	s.Duration = 1000000
	full := v1Span
	if f == "v2" {
		full = v2Span
	}
	if has(0) {
		s.Trace = full.Trace
	}
	if has(1) {
		s.Id = full.Id
	}
	if has(2) {
		s.Parent = full.Parent
	}
	if has(3) {
		s.Name = full.Name
	}
	tags := func() {
		for k, v := range full.Tags {
			s.Tags[k] = v
		}
	}
	if f == "v2" {
		if has(5) {
			s.Timestamp = 1500000000000001000
		}
		if has(6) {
			s.Duration = 207000
		}
		if has(4) {
			s.Timings.SR, s.Timings.SS = s.Timestamp, s.Timestamp.Add(s.Duration)
		}
		if has(7) {
			s.Service = full.Service
		}
		if has(8) {
			tags()
		}
		return s
	}
	if has(4) {
		s.Timestamp = 1500000000000001000
	}
	if has(5) {
		s.Duration = 207000
	}
	if has(6) {
		s.Timings = full.Timings
		s.Timestamp, s.Duration = full.Timestamp, full.Duration
		s.Service = "svc"
	}
	if has(7) {
		tags()
		s.Service = "svc"
	}
	return s
}
