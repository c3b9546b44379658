package main

import (
	"fmt"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/fake"
	"verif/rt"
	"verif/sys"
)

// Executions in which every step takes time, so that timers come due while there is work and a stage always finds
// its queue filled. Selects with several ready cases take one after a fixed pseudo random sequence.

const busyText = "every step taking %s: the queue is filled whenever a timer comes due"

func busy(d time.Duration) {
	rt.SelectPolicy(rt.SMixed)
	rt.StepTime(d)
}

func idle(end time.Duration) {
	rt.WaitFor("time", func() bool { return rt.Elapsed() >= end })
	rt.Gather()
}

func init() {
	modes := []bool{false, true}
	explore.Add(&explore.Scenario{Name: "always input", Prop: "C17", Heavy: true,
		What: "60000 spans of 20000, 10000 or 4000 traces given without a pause, as long as fewer than 37000 are in flight, queues of 256 or 2, " + fmt.Sprintf(busyText, "75, 100 or 250 µs"),
		Cfgs: noDeviations,
		Body: func() {
			per := []int{3, 6, 15}[rt.Choose(3)]
			q := []int{256, 2}[rt.Choose(2)]
			step := []time.Duration{75 * time.Microsecond, 100 * time.Microsecond, 250 * time.Microsecond}[rt.Choose(3)]
			s := newStage(q, 64)
			busy(step)
			const slack = 2 * time.Second
			var sent []time.Duration
			const n = 60000
			for i := 0; i < n; i++ {
				for i-len(s.got)*per > 37000 { // the buffering time stays the same
					rt.Sleep(time.Second)
				}
				s.send(span(1+i/per, 1+i%per, 1))
				sent = append(sent, rt.Elapsed())
			}
			idle(rt.Elapsed() + 12*time.Second)
			s.wellFormed()
			ix := s.index()
			for i := per - 1; i < n; i += per {
				t := 1 + i/per
				checkWhole(ix[proxy.Id(t)], t, per)
				(&group{last: sent[i]}).onTime(ix[proxy.Id(t)][0], slack)
			}
			if len(ix) != n/per {
				rt.Fail("%d traces are delivered instead of %d", len(ix), n/per)
			}
			rt.Digest(fmt.Sprint(rt.Elapsed()))
		}})
	explore.Add(&explore.Scenario{Name: "always traces", Prop: "C25",
		What: "700 traces of 1 or 3 spans given to the agent stage without a pause, queues of 2 or 16, " + fmt.Sprintf(busyText, "4 or 10 ms"),
		Cfgs: noDeviations,
		Body: func() {
			per := []int{1, 3}[rt.Choose(2)]
			q := []int{2, 16}[rt.Choose(2)]
			step := []time.Duration{4, 10}[rt.Choose(2)] * time.Millisecond
			s := newSink(&fake.Agent{}, q)
			busy(step)
			for i := 0; i < 700; i++ {
				s.give(1+i, per)
			}
			idle(rt.Elapsed() + 5*time.Second)
			s.allSent(time.Duration(q)*6*step + 500*time.Millisecond)
			rt.Digest(fmt.Sprint(rt.Elapsed(), len(s.ag.Calls)))
		}})
	explore.Add(&explore.Scenario{Name: "always requests", Prop: "C29", Heavy: true,
		What: "3000 traces of 2 spans posted by three clients in requests of 20 spans without a pause, without and with Kafka, " + fmt.Sprintf(busyText, "20 or 100 µs"),
		Cfgs: noDeviations,
		Body: func() {
			kaf := modes[rt.Choose(2)]
			step := []time.Duration{20, 100}[rt.Choose(2)] * time.Microsecond
			s := sys.Boot(sys.Options{Kafka: kaf})
			busy(step)
			want := postBulk(s, bulk(0x100, 3000), 3, 20)
			idle(rt.Elapsed() + 16*time.Second)
			arrived(want, s)
			rt.Digest(fmt.Sprint(rt.Elapsed()))
		}})
}
