package main

import (
	"fmt"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/fake"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

// Schedules that no small number of deviations reaches: a stage that runs only when nothing else can, while a lot of
// work arrives, and the orders youngest first, oldest first and round robin.

const policiesText = "under each of the orders run-to-block, round robin, youngest first and oldest first, and with each goroutine in turn running only when no other can"

// bulk are n traces of 2 spans.
func bulk(from, n int) (l []proxy.Span) {
	for t := from; t < from+n; t++ {
		l = append(l, span(t, 1, 1), span(t, 2, 1))
	}
	return
}

// postBulk gives the spans in requests of k spans from c clients; wants are appended in the order of l.
func postBulk(s *sys.Sys, l []proxy.Span, c, k int) (want []proxy.Span) {
	var fs []func()
	for i := 0; i < c; i++ {
		part := l[i*len(l)/c : (i+1)*len(l)/c]
		f := ref.Formats[i%3]
		want = append(want, tagged(f, part)...)
		fs = append(fs, func() {
			for o := 0; o < len(part); o += k {
				postOK(s, f, part[o:min(len(part), o+k)])
			}
		})
	}
	join(fs...)
	return
}

func init() {
	modes := []bool{false, true}
	explore.Add(&explore.Scenario{Name: "stages held up", Prop: "C29",
		What: "400 traces of 2 spans posted by three clients in requests of 50 or 300 spans, without and with Kafka, " + policiesText,
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			kaf := modes[rt.Choose(2)]
			k := []int{50, 300}[rt.Choose(2)]
			s := sys.Boot(sys.Options{Kafka: kaf})
			rt.ChoosePolicy()
			want := postBulk(s, bulk(0x100, 400), 3, k)
			settle(16 * time.Second)
			arrived(want, s)
		}})
	explore.Add(&explore.Scenario{Name: "slow conversion", Prop: "C29",
		What: "150 traces posted at once and 150 nine seconds later by three clients each, without and with Kafka, while the converter takes 15 ms per span, 20 s for one span or 1.5 s for every 30th: all arrive",
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			kaf := modes[rt.Choose(2)]
			how := rt.Choose(3)
			n := 0
			s := sys.Boot(sys.Options{Kafka: kaf, Converter: func(x proxy.Span) (proxy.Span, error) {
				n++
				switch {
				case how == 0:
					rt.Sleep(15 * time.Millisecond)
				case how == 1 && n == 5:
					rt.Sleep(20 * time.Second)
				case how == 2 && n%30 == 0:
					rt.Sleep(1500 * time.Millisecond)
				}
				return x, nil
			}})
			want := postBulk(s, bulk(0x100, 150), 3, 20)
			until(9 * time.Second)
			want = append(want, postBulk(s, bulk(0x1000, 150), 3, 20)...)
			settle(70 * time.Second)
			arrived(want, s)
		}})
	explore.Add(&explore.Scenario{Name: "forwarding held up", Prop: "C23",
		What: "700 traces finishing together, every 3rd span left out, every 5th changed in place, " + policiesText,
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			var convs []conversion
			k := 0
			s := sys.Boot(sys.Options{Converter: func(x proxy.Span) (proxy.Span, error) {
				c := conversion{in: ref.Clone(x)}
				k++
				a := aKeep
				if k%3 == 0 {
					a = aError
				} else if k%5 == 0 {
					a = aInPlace
				}
				y, err := convert(a, x)
				c.out, c.err = ref.Clone(y), err
				convs = append(convs, c)
				return y, err
			}})
			rt.ChoosePolicy()
			want := postBulk(s, bulk(0x100, 700), 1, 200)
			settle(16 * time.Second)
			if len(convs) != len(want) {
				rt.Fail("the converter got %d of %d spans", len(convs), len(want))
			}
			var outs []proxy.Span
			for _, c := range convs {
				if c.err == nil {
					outs = append(outs, c.out)
				}
			}
			if !ref.EqualAll(s.Recent(), outs) {
				rt.Fail("converted spans %s\nrecent spans %s", clips(ref.ShowAll(outs)), clips(ref.ShowAll(s.Recent())))
			}
			checkAgent(s.Agent, outs)
		}})
	explore.Add(&explore.Scenario{Name: "synthetic roots converted", Prop: "C23",
		What: "three traces with synthetic roots and one without tags: every combination of 4 converter answers (unchanged, tags changed in place, new tags, failing) for roots and others of two of them",
		Cfgs: noDeviations,
		Body: func() {
			var a [4][2]int
			o := []int{aKeep, aInPlace, aTags, aError}
			for i := 0; i < 2; i++ {
				for k := 0; k < 2; k++ {
					a[i][k] = o[rt.Choose(4)]
				}
			}
			a[2][0], a[2][1] = aInPlace, aInPlace
			a[3] = a[2]
			var convs []conversion
			s := sys.Boot(sys.Options{Converter: func(x proxy.Span) (proxy.Span, error) {
				c := conversion{in: ref.Clone(x)}
				k := 0
				if x.Parent == x.Id {
					k = 1
				}
				y, err := convert(a[x.Trace%4][k], x)
				c.out, c.err = ref.Clone(y), err
				convs = append(convs, c)
				return y, err
			}})
			var sent []proxy.Span
			for t := 4; t < 8; t++ {
				l := []proxy.Span{span(t, 2, 9), span(t, 3, 9)}
				for i := range l {
					l[i].Tags = nil
				}
				path, b := ref.Payload("v2", l)
				if r := s.Post(path, b); r.Code != 202 {
					rt.Fail("answered %d", r.Code)
				}
				sent = append(sent, tagged("v2", l)...)
			}
			settle(16 * time.Second)
			if len(convs) != 12 {
				rt.Fail("the converter got %d spans instead of 12", len(convs))
			}
			var plain, roots []conversion
			for _, c := range convs {
				if c.in.Id == 9 {
					roots = append(roots, c)
					if len(c.in.Tags) != 0 {
						rt.Fail("a synthetic root has the tags %v", c.in.Tags)
					}
					continue
				}
				plain = append(plain, c)
			}
			if len(roots) != 4 || len(plain) != len(sent) {
				rt.Fail("%d synthetic roots and %d spans are converted", len(roots), len(plain))
			}
			for _, x := range roots {
				sent = append(sent, x.in)
			}
			checkConverted(s, sent, convs)
		}})
	explore.Add(&explore.Scenario{Name: "correlation held up", Prop: "C17",
		What: "400 traces of 2 spans given by two goroutines at once and 100 more meanwhile, with queues of 256 and 64, 2 and 2 or none, " + policiesText,
		Cfgs: noDeviations,
		Body: func() {
			q := [][2]int{{256, 64}, {2, 2}, {0, 0}}[rt.Choose(3)]
			s := newStage(q[0], q[1])
			half := func(from int) func() {
				return func() {
					s.send(bulk(from, 200)...)
					until(8 * time.Second)
					s.send(bulk(from+0x800, 50)...)
				}
			}
			for i := 0; i < 2; i++ {
				rt.GoNamed("source", half(0x1000*(i+1)))
			}
			rt.ChoosePolicy()
			rt.WaitFor("time", func() bool { return rt.Elapsed() > 25*time.Second })
			s.wellFormed()
			ix := s.index()
			for i := 0; i < 2; i++ {
				for k := 0; k < 0x900; k++ {
					if k < 200 || k >= 0x800 && k < 0x800+50 {
						t := 0x1000*(i+1) + k
						checkWhole(ix[proxy.Id(t)], t, 2)
						sameSpans(&group{reports: []proxy.Span{span(t, 1, 1), span(t, 2, 1)}}, ix[proxy.Id(t)][0], 0)
					}
				}
			}
		}})
	explore.Add(&explore.Scenario{Name: "agent stage held up", Prop: "C25",
		What: "6 batches of 700 traces of 1 or 2 spans, 1.2 s apart, queues of 256 or none, " + policiesText,
		Cfgs: noDeviations,
		Body: func() {
			s := newSink(&fake.Agent{}, []int{256, 0}[rt.Choose(2)])
			rt.GoNamed("source", func() {
				for i := 0; i < 6; i++ {
					for k := 0; k < 700; k++ {
						s.give(1+i*1000+k, 1+k%2)
					}
					rt.Sleep(1200 * time.Millisecond)
				}
			})
			rt.Yield()
			rt.ChoosePolicy()
			rt.WaitFor("time", func() bool { return rt.Elapsed() > 15*time.Second })
			if len(s.arr) != 6*1050 {
				rt.Fail("only %d spans were taken", len(s.arr))
			}
			s.allSent(time.Millisecond)
		}})
	explore.Add(&explore.Scenario{Name: "sender held up", Prop: "C13",
		What: "600 spans of three traces, every 7th delivery failing or none, queues of 256 or 2, " + policiesText,
		Cfgs: noDeviations,
		Body: func() {
			fail := modes[rt.Choose(2)]
			ss, ps, _ := newSenders(1, nil, func(i int, p *fake.Producer) {
				p.Fail = func(i int) bool { return fail && i%7 == 3 }
				p.Flush = 100 * time.Millisecond
			})
			ch := make(chan proxy.Span, []int{256, 2}[rt.Choose(2)])
			rt.GoNamed("sender", func() { ss[0].Send(ch) })
			var l []proxy.Span
			for i := 0; i < 600; i++ {
				l = append(l, span(1+i%3, 1+i, 1))
			}
			rt.GoNamed("source", func() {
				for _, x := range l {
					rt.Send(ch, ref.Clone(x))
				}
			})
			rt.Yield()
			rt.ChoosePolicy()
			rt.WaitFor("time", func() bool { return rt.Elapsed() > 20*time.Second })
			if len(ps[0].Msgs) != len(l) {
				rt.Fail("%d of %d spans are submitted to the producer", len(ps[0].Msgs), len(l))
			}
			checkMessages(ps[0].Msgs, l)
		}})
	explore.Add(&explore.Scenario{Name: "requests held up", Prop: "C01",
		What: "three clients posting 900 spans each in requests of 300, a damaged one between them, in Kafka mode, " + policiesText,
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			s := sys.Boot(sys.Options{Kafka: true, NoConsume: true})
			rt.ChoosePolicy()
			var fs []func()
			var want [3][]proxy.Span
			for i := 0; i < 3; i++ {
				f := ref.Formats[(i+rt.Choose(2))%3]
				fs = append(fs, func() {
					for k := 0; k < 3; k++ {
						var l []proxy.Span
						for j := 0; j < 300; j++ {
							l = append(l, span(1+i, 1+300*k+j, 1))
						}
						postOK(s, f, l)
						want[i] = append(want[i], tagged(f, l)...)
						path, b := ref.Payload(f, l)
						if r := s.Post(path, b[:len(b)-5]); r.Code < 400 || r.Code > 499 {
							rt.Fail("a damaged payload is answered %d", r.Code)
						}
					}
				})
			}
			join(fs...)
			rt.Sleep(10 * time.Second)
			got := submitted(s.Producer)
			if len(got) != 2700 {
				rt.Fail("%d of 2700 spans are handed on", len(got))
			}
			for i := range want {
				if g := ofTrace(got, proxy.Id(1+i)); !ref.EqualAll(g, want[i]) {
					rt.Fail("handed on %s\ninstead of %s", clips(ref.ShowAll(g)), clips(ref.ShowAll(want[i])))
				}
			}
			rt.Digest(fmt.Sprint(len(got)))
		}})
}
