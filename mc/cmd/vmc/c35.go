package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/Shopify/sarama"
	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/datadog"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/fake"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

func init() {
	groups := []string{"works", "ends its sessions", "fails", "fails now and then", "claims nothing", "takes 3 s to join"}
	agents := []string{"answers", "fails", "hangs"}
	moments := []string{"before the first request", "during the requests", "right after the requests", "10 s later"}
	shutdown := func(kaf bool, group, agent, moment int, slow time.Duration, clients, n int) {
		hung := false
		ag := &fake.Agent{OnSend: func(int, *fake.Call) error {
			switch agent {
			case 1:
				return fake.ErrAgent
			case 2:
				hung = true
				rt.Block("agent")
			}
			return nil
		}}
		converted := 0
		o := sys.Options{Kafka: kaf, Agent: ag, Stoppable: true,
			Converter: func(x proxy.Span) (proxy.Span, error) {
				if converted++; slow > 0 {
					rt.Sleep(slow)
				}
				return x, nil
			},
			OnGroup: func(g *fake.Group) {
				for i := 0; i < 500; i++ {
					var sc fake.Script
					switch {
					case group == 1:
						sc = fake.Script{After: 2}
						if i%2 == 1 {
							sc.EndErr = errors.New("session lost")
						}
					case group == 2, group == 3 && i%3 == 0:
						sc = fake.Script{Err: errors.New("no coordinator"), Wait: 200 * time.Millisecond}
					case group == 3:
						sc = fake.Script{ForTime: 700 * time.Millisecond}
					case group == 4:
						sc = fake.Script{OnlyParts: []int{}}
					case group == 5:
						sc = fake.Script{Wait: 3 * time.Second, After: 5}
					}
					g.Scripts = append(g.Scripts, sc)
				}
			}}
		s := sys.Boot(o)
		var done []bool
		var fs []func()
		if moment > 0 {
			for c := 0; c < clients; c++ {
				c := c
				l := seqSpans(0x70+c, n)
				done = append(done, false)
				fs = append(fs, func() {
					path, b := ref.Payload(ref.Formats[c%3], l)
					if r := s.Post(path, b); r.Code != 202 {
						rt.Fail("a request of %d spans in progress is answered %d %s", n, r.Code, r.Body)
					}
					done[c] = true
				})
			}
		}
		if moment == 1 {
			fs = append(fs, func() {
				rt.Sleep(time.Millisecond)
				s.Stop()
			})
		}
		join(fs...)
		switch moment {
		case 3:
			rt.Sleep(10 * time.Second)
			fallthrough
		case 0, 2:
			s.Stop()
		}
		from := rt.Elapsed()
		// conversion may have to catch up
		limit := from + 30*time.Second + time.Duration(clients*n)*slow
		rt.WaitFor("end", func() bool { return s.Ended || rt.Elapsed() > limit })
		if !s.Ended {
			rt.Fail("30 s after the server stopped %s the process has not ended\n%s", moments[moment], rt.Dump())
		}
		if kaf {
			g := s.Group
			if g.Running != 0 || g.Active != 0 {
				rt.Fail("the process ended while %d sessions and %d claims were running", g.Running, g.Active)
			}
			calls, marks := g.Calls, len(g.Marks)
			given := map[[2]int64]bool{}
			for _, x := range g.Given {
				given[[2]int64{int64(x.Part), x.Off}] = true
			}
			for _, m := range g.Marks {
				if !given[[2]int64{int64(m.Part), m.Off}] {
					rt.Fail("message %d of partition %d is marked, it was not consumed", m.Off, m.Part)
				}
			}
			rt.Window(false)
			end := rt.Elapsed() + time.Second
			rt.WaitFor("time", func() bool { return rt.Elapsed() >= end })
			if g.Calls != calls || len(g.Marks) != marks {
				rt.Fail("consumption continues after the process ended")
			}
		}
		for c, d := range done {
			if !d {
				rt.Fail("the process ended before request %d was answered", c)
			}
		}
		rt.Note("agent hung %v, converted %v", hung, converted > 0)
	}
	stages := []string{"the correlation", "the agent stage", "the recent view", "the Kafka sender"}
	explore.Add(&explore.Scenario{Name: "end of the input", Prop: "C35",
		What: fmt.Sprintf("the input of %q is closed before, in the middle of and 0, 1 or 30 s after 3 traces, the next stage takes what it gets at once or after 3 s: the stage ends and leaves no thread behind", stages),
		Cfgs: deviations(2, 3, func(c *rt.Config) { c.Sched, c.Select = true, true }),
		Body: func() {
			k := rt.Choose(len(stages))
			n := rt.Choose(4)
			wait := []time.Duration{0, time.Second, 30 * time.Second}[rt.Choose(3)]
			slow := rt.Choose(2) == 1
			next := func() {
				if slow {
					rt.Sleep(3 * time.Second)
				}
			}
			spans := make(chan proxy.Span, 2)
			traces := make(chan proxy.Trace, 2)
			out := make(chan proxy.Trace, 2)
			ended := false
			var stage func()
			switch k {
			case 0:
				stage = func() { zipkinproxy.ErrorCorrectSpans(spans, out) }
			case 1:
				ag := &fake.Agent{OnSend: func(int, *fake.Call) error { next(); return nil }}
				stage = func() { datadog.Sink(ag, traces) }
			case 2:
				b := zipkinproxy.NewSpansBuffer(4)
				stage = func() { b.ReadFrom(traces) }
			case 3:
				br := fake.NewBroker(sys.Topic, 2)
				var pr *fake.Producer
				conf := sarama.NewConfig()
				conf.ChannelBufferSize = 1
				sys.HookKafka(func(c sarama.Client) *fake.Producer {
					pr = fake.NewProducer(br, c.Config())
					pr.Flush = 10 * time.Millisecond
					return pr
				})
				s, err := balance.NewSender(&fake.Client{Conf: conf}, sys.Topic)
				if err != nil {
					rt.Fail("NewSender: %s", err)
				}
				rt.Sleep(10 * time.Millisecond)
				stage = func() { s.Send(spans) }
			}
			if k == 0 {
				rt.GoNamed("receiver", func() {
					for {
						rt.Recv(out)
						next()
					}
				})
				rt.Sleep(10 * time.Millisecond)
			}
			before := rt.Goroutines()
			rt.GoNamed("stage", func() { stage(); ended = true })
			for i := 0; i < n; i++ {
				if k == 0 || k == 3 {
					rt.Send(spans, span(1+i, 1, 1))
					rt.Send(spans, span(1+i, 2, 1))
				} else {
					rt.Send(traces, proxy.Trace{span(1+i, 1, 1), span(1+i, 2, 1)})
				}
			}
			if wait > 0 {
				rt.Sleep(wait)
			}
			if k == 0 || k == 3 {
				rt.Close(spans)
			} else {
				rt.Close(traces)
			}
			rt.Sleep(60 * time.Second)
			if !ended {
				rt.Fail("a minute after its input was closed %s has not ended\n%s", stages[k], rt.Dump())
			}
			if g := rt.Goroutines(); g > before {
				rt.Fail("a minute after the input of %s was closed %d of its threads are left\n%s", stages[k], g-before, rt.Dump())
			}
		}})
	explore.Add(&explore.Scenario{Name: "shutdown", Prop: "C35",
		What: fmt.Sprintf("the server stops %q, without Kafka and with a consumer group that %q and an agent that %q, requests of 1, 30 or 400 spans of 1 or 3 clients, converters that take no time or 20 ms: the process ends within 30 s, consumption has stopped and the requests are answered", moments, groups, agents),
		Cfgs: noDeviations,
		Body: func() {
			group := rt.Choose(len(groups)+1) - 1
			shutdown(group >= 0, group, rt.Choose(len(agents)), rt.Choose(len(moments)), []time.Duration{0, 20 * time.Millisecond}[rt.Choose(2)], []int{1, 3}[rt.Choose(2)], []int{1, 30, 400}[rt.Choose(3)])
		}})
	explore.Add(&explore.Scenario{Name: "shutdown in between", Prop: "C35",
		What: "the server stops while and right after two clients send 2 spans each, without Kafka and with consumer groups as before: every order of signal, end of the session, hand-over and answers within the deviations",
		Cfgs: deviations(2, 3, func(c *rt.Config) { c.Sched, c.Select = true, true }),
		Body: func() {
			group := rt.Choose(len(groups)+1) - 1
			shutdown(group >= 0, group, 0, 1+rt.Choose(2), 0, 2, 2)
		}})
}
