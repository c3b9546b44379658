package main

import (
	"fmt"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/datadog"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"

	"verif/explore"
	"verif/fake"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

// Spans whose names, services and tags look special are handled like all others.

const namedText = "traces of two spans, the root or the child of which has a name, service or tag that might be taken for something special (60 texts such as /health, 80 tag keys with 6 values)"

func flat(ts []proxy.Trace) (r []proxy.Span) {
	for _, t := range ts {
		r = append(r, t...)
	}
	return
}

func init() {
	explore.Add(&explore.Scenario{Name: "any names grouped", Prop: "C17",
		What: namedText + ": each delivered once",
		Cfgs: noDeviations,
		Body: func() {
			ts := ref.Named(0x100, rt.Choose(2) == 1)
			s := newStage(256, 64)
			s.send(flat(ts)...)
			rt.Sleep(9500 * time.Millisecond)
			s.wellFormed()
			ix := s.index()
			for _, t := range ts {
				ds := ix[t[0].Trace]
				if len(ds) != 1 || len(ds[0].spans) != 2 {
					rt.Fail("trace %s is delivered as %v", ref.ShowAll(t), ds)
				}
				for _, x := range ds[0].spans {
					if w := t[x.Id-1]; !ref.Equal(x, w) {
						rt.Fail("span %s is delivered as %s", ref.Show(w), ref.Show(x))
					}
				}
			}
		}})
	explore.Add(&explore.Scenario{Name: "any names converted", Prop: "C23",
		What: namedText + ": each given to the converter once and forwarded",
		Cfgs: noDeviations,
		Body: func() {
			a := []int{aKeep, aTags, aInPlace}[rt.Choose(3)]
			var ls [][]proxy.Span
			for _, t := range ref.Named(0x100, rt.Choose(2) == 1) {
				ls = append(ls, t)
			}
			runC23(func(proxy.Span) int { return a }, ls...)
		}})
	explore.Add(&explore.Scenario{Name: "any names sent", Prop: "C25",
		What: namedText + ": each in one payload",
		Cfgs: noDeviations,
		Body: func() {
			ts := ref.Named(0x100, rt.Choose(2) == 1)
			ag := &fake.Agent{}
			ch := make(chan proxy.Trace)
			rt.GoNamed("sink", func() { datadog.Sink(ag, ch) })
			for _, t := range ts {
				rt.Send(ch, ref.CloneAll(t))
			}
			rt.Sleep(8 * time.Second)
			checkAgent(ag, flat(ts))
		}})
	explore.Add(&explore.Scenario{Name: "any names shown", Prop: "C27",
		What: namedText + ": each in the view",
		Cfgs: noDeviations,
		Body: func() {
			ts := ref.Named(0x100, rt.Choose(2) == 1)
			b := zipkinproxy.NewSpansBuffer(2048)
			ch := make(chan proxy.Trace, 8)
			rt.GoNamed("buffer", func() { b.ReadFrom(ch) })
			for _, t := range ts {
				rt.Send(ch, ref.CloneAll(t))
			}
			rt.Sleep(time.Millisecond)
			if got := b.ToSlice(); !ref.EqualAll(got, lastN(flat(ts), 2048)) {
				rt.Fail("after %d spans the view has %d", 2*len(ts), len(got))
			}
		}})
	explore.Add(&explore.Scenario{Name: "any names through all", Prop: "C29",
		What: namedText + ", in each format, without and with Kafka",
		Cfgs: noDeviations,
		Body: func() {
			f := ref.Formats[rt.Choose(3)]
			s := sys.Boot(sys.Options{Kafka: rt.Choose(2) == 1})
			ts := ref.Named(0x100, rt.Choose(2) == 1)
			for i := 0; i < len(ts); i += 50 {
				postOK(s, f, flat(ts[i:min(len(ts), i+50)]))
			}
			settle(20 * time.Second)
			arrived(tagged(f, flat(ts)), s)
			rt.Digest(fmt.Sprint(len(ts)))
		}})
}
