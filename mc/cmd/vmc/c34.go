package main

import (
	"errors"
	"fmt"
	"runtime"
	"time"
	"unsafe"
	"weak"

	"github.com/Shopify/sarama"
	zipkinproxy "github.com/flachnetz/dd-zipkin-proxy"
	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/datadog"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/fake"
	"verif/ref"
	"verif/rt"
	"verif/shim/vsync"
	"verif/sys"
)

// tracker watches memory by weak pointers.
type tracker struct {
	w    []weak.Pointer[byte]
	what []string
}

var textSeq int // texts differ between the rounds too

func (t *tracker) ptr(p unsafe.Pointer, what string) {
	t.w = append(t.w, weak.Make((*byte)(p)))
	t.what = append(t.what, what)
}

// text is a string of its own piece of memory.
func (t *tracker) text(what string) string {
	textSeq++
	s := fmt.Sprintf("%-40s %08d ................................................", what, textSeq)
	t.ptr(unsafe.Pointer(unsafe.StringData(s)), what)
	return s
}

func (t *tracker) span(trace, id, parent int, what string) proxy.Span {
	x := span(trace, id, parent)
	x.Name = t.text("name of " + what)
	x.Service = t.text("service of " + what)
	x.Tags = map[string]string{t.text("tag of " + what): t.text("tag value of " + what)}
	t.tags(x, what)
	return x
}

func (t *tracker) tags(x proxy.Span, what string) {
	if x.Tags != nil {
		t.ptr(*(*unsafe.Pointer)(unsafe.Pointer(&x.Tags)), "tags of "+what)
	}
}

// kept tells how many of the pieces of memory watched are still there.
func (t *tracker) kept() (n int, first string) {
	if len(t.w) == 0 {
		rt.Fail("nothing was watched")
	}
	for i, w := range t.w {
		if w.Value() != nil {
			if n == 0 {
				first = t.what[i]
			}
			n++
		}
	}
	return
}

// rounds repeats traffic until nothing of some earlier round is in memory and some round left no more threads behind than
// there were before it. Memory of fixed size that is used again does not matter: what is in it is overwritten by later rounds.
const rounds = 6

func gone(before int, round func(t *tracker) (after string)) {
	var ts []*tracker
	growing := true
	for r := 1; ; r++ {
		t := &tracker{}
		ts = append(ts, t)
		after := round(t)
		rt.Gather()
		vsync.DropPools()
		runtime.GC()
		runtime.GC()
		all := true
		for _, t := range ts {
			if n, _ := t.kept(); n == 0 {
				all = false
			}
		}
		n := rt.Goroutines()
		growing = growing && n > before
		if !all && !growing {
			return
		}
		if r == rounds {
			if all {
				n, first := ts[0].kept()
				rt.Fail("%s, repeated %d times: %d of %d pieces of memory of the spans of the first time, and some of every later time, are still kept, the first one is the %s", after, r, n, len(ts[0].w), first)
			}
			rt.Fail("%s, repeated %d times: threads are left over every time, now %d\n%s", after, r, n, rt.Dump())
		}
		before = n
	}
}

func init() {
	fates := []string{"delivered", "merged", "of a repaired trace", "without a root", "in a cycle", "of an endless trace", "after an endless trace", "of a trace of 8193 spans", "discarded under overload", "with zero ids"}
	explore.Add(&explore.Scenario{Name: "what the correlation keeps", Prop: "C34", Heavy: true,
		What: "40 traces each of two fates out of 10 (delivered, merged, repaired, rootless, cyclic, endless, late, too large, discarded under overload, zero ids) one after the other: a minute and a trace later nothing of their spans is in memory and no thread is left over, or else that changes when all of it is repeated up to 6 times",
		Cfgs: noDeviations,
		Body: func() {
			a, b := rt.Choose(len(fates)), rt.Choose(len(fates))
			in, out := make(chan proxy.Span, 16), make(chan proxy.Trace, 4)
			rt.GoNamed("correlation", func() { zipkinproxy.ErrorCorrectSpans(in, out) })
			rt.GoNamed("receiver", func() {
				for {
					rt.Recv(out)
				}
			})
			rt.Sleep(time.Second)
			next := 0x1000
			play := func(t *tracker, fate int) {
				what := "a span " + fates[fate]
				n := 40
				if fate >= 7 && fate <= 8 {
					n = 1
				}
				for i := 0; i < n; i++ {
					next++
					tr := next
					switch fate {
					case 0:
						rt.Send(in, t.span(tr, 1, 1, what))
						rt.Send(in, t.span(tr, 2, 1, what))
					case 1:
						c, s := t.span(tr, 2, 1, what), t.span(tr, 2, 1, what)
						c.Timings.CS, c.Timings.CR = c.Timestamp, c.Timestamp.Add(c.Duration)
						s.Timings.SR, s.Timings.SS = s.Timestamp, s.Timestamp.Add(s.Duration)
						rt.Send(in, t.span(tr, 1, 1, what))
						if i%2 == 0 {
							c, s = s, c
						}
						rt.Send(in, c)
						rt.Send(in, s)
						rt.Send(in, t.span(tr, 2, 1, what))
					case 2:
						rt.Send(in, t.span(tr, 2, 9, what))
						rt.Send(in, t.span(tr, 3, 9, what))
					case 3:
						rt.Send(in, t.span(tr, 2, 8, what))
						rt.Send(in, t.span(tr, 3, 9, what))
					case 4:
						rt.Send(in, t.span(tr, 2, 3, what))
						rt.Send(in, t.span(tr, 3, 2, what))
					case 9:
						x := t.span(tr, 2, 2, what)
						if i%2 == 0 {
							x.Id = 0
						} else {
							x.Trace = 0
						}
						rt.Send(in, x)
					}
				}
				switch fate {
				case 5, 6:
					for s := 0; s < 45; s++ {
						for i := 0; i < 5; i++ {
							rt.Send(in, t.span(next-i, 1+s, 1, what))
						}
						rt.Sleep(time.Second)
					}
					if fate == 6 {
						for i := 0; i < 5; i++ {
							rt.Send(in, t.span(next-i, 100, 1, "a late span"))
						}
					}
				case 7:
					for i := 0; i < 8200; i++ {
						x := span(next, 1+i, 1)
						if i%100 == 0 {
							x = t.span(next, 1+i, 1, what)
						}
						rt.Send(in, x)
					}
				case 8:
					for k := 0; k < 13; k++ {
						next++
						for i := 0; i < 8000; i++ {
							x := span(next, 1+i, 1)
							if i%200 == 0 {
								x = t.span(next, 1+i, 1, what)
							}
							rt.Send(in, x)
						}
					}
				}
			}
			gone(rt.Goroutines(), func(t *tracker) string {
				play(t, a)
				rt.Sleep(30 * time.Second)
				play(t, b)
				rt.Sleep(60 * time.Second)
				rt.Send(in, span(1, 1, 1))
				rt.Sleep(30 * time.Second)
				return fmt.Sprintf("after spans %s and spans %s", fates[a], fates[b])
			})
		}})

	explore.Add(&explore.Scenario{Name: "discarded ids", Prop: "C34", Heavy: true,
		What: "9000 endless traces, 3000 at a time, or 9000 traces discarded under overload, are discarded; a span more of each is sent: at most half of the ids are remembered",
		Cfgs: noDeviations,
		Body: func() {
			const n = 9000
			in, out := make(chan proxy.Span, 64), make(chan proxy.Trace, 4)
			rt.GoNamed("correlation", func() { zipkinproxy.ErrorCorrectSpans(in, out) })
			got := 0
			watch := false
			rt.GoNamed("receiver", func() {
				for {
					if tr := rt.Recv(out); len(tr) > 0 && watch {
						got++
					}
				}
			})
			if rt.Choose(2) == 0 {
				for r := 0; r < 3; r++ {
					for s := 0; s < 7; s++ {
						for i := 0; i < n/3; i++ {
							rt.Send(in, span(0x1000+r*n/3+i, 1+s, 1))
						}
						rt.Sleep(6800 * time.Millisecond)
					}
					rt.Sleep(10 * time.Second)
				}
			} else {
				// every other trace is larger, the large ones have to go
				for r := 0; r < 6; r++ {
					for i := 0; i < n/6; i++ {
						for s := 0; s < 80; s++ {
							rt.Send(in, span(0x1000+r*n/6+i, 1+s, 1))
						}
					}
					rt.Sleep(20 * time.Second)
				}
			}
			rt.Sleep(10 * time.Second)
			watch = true
			for i := 0; i < n; i++ {
				rt.Send(in, span(0x1000+i, 1, 1))
			}
			rt.Sleep(30 * time.Second)
			rt.Note("%d of %d forgotten", got, n)
			if got < n/2 {
				rt.Fail("%d traces were discarded, %d of their ids are still remembered", n, n-got)
			}
		}})

	agents := []string{"answers at once", "answers errors", "takes 3 s per payload", "hangs for 5 minutes", "hangs for 5 minutes and then answers errors", "answers errors after 10 s"}
	explore.Add(&explore.Scenario{Name: "what the agent stage keeps", Prop: "C34", Heavy: true,
		What: "an agent that answers at once, with errors, slowly or not for 5 minutes; 60 traces of 1, 40 or 1200 spans in 60 s or in 10 minutes: when it answers at once again and 12000 more spans were sent, nothing of the earlier spans is in memory and no thread is left over",
		Cfgs: noDeviations,
		Body: func() {
			k := rt.Choose(len(agents))
			per := []int{1, 40, 1200}[rt.Choose(3)]
			gap := []time.Duration{time.Second, 10 * time.Second}[rt.Choose(2)]
			well := false
			var since time.Duration
			ag := &fake.Agent{Forget: true}
			ag.OnSend = func(n int, c *fake.Call) error {
				if well {
					return nil
				}
				switch k {
				case 1:
					return fake.ErrAgent
				case 2:
					rt.Sleep(3 * time.Second)
				case 3:
					rt.WaitFor("hanging", func() bool { return rt.Elapsed()-since > 300*time.Second })
				case 4:
					rt.WaitFor("hanging", func() bool { return rt.Elapsed()-since > 300*time.Second })
					return fake.ErrAgent
				case 5:
					rt.Sleep(10 * time.Second)
					return fake.ErrAgent
				}
				return nil
			}
			ch := make(chan proxy.Trace, 16)
			rt.GoNamed("sink", func() { datadog.Sink(ag, ch) })
			rt.Sleep(10 * time.Millisecond)
			id := 0
			gone(rt.Goroutines()+1, func(t *tracker) string { // and the transmitter
				well, since = false, rt.Elapsed()
				for i := 0; i < 60; i++ {
					var tr proxy.Trace
					for j := 0; j < per; j++ {
						id++
						x := span(1+i, id, 1)
						if j%100 == 0 {
							x = t.span(1+i, id, 1, "a span of an earlier trace")
						}
						tr = append(tr, x)
					}
					rt.Send(ch, tr)
					rt.Sleep(gap)
				}
				rt.Sleep(310 * time.Second)
				well = true
				for i := 0; i < 600; i++ {
					var tr proxy.Trace
					for j := 0; j < 20; j++ {
						tr = append(tr, span(1000+i, 1+j, 1))
					}
					rt.Send(ch, tr)
					rt.Sleep(100 * time.Millisecond)
				}
				rt.Sleep(10 * time.Second)
				return "after an agent that " + agents[k]
			})
		}})

	explore.Add(&explore.Scenario{Name: "what the recent view keeps", Prop: "C34",
		What: "views of 1, 10 and 100 spans; 50 traces of 1 or 7 spans, read in between, and then as many spans as the view has and 8 more: nothing of the earlier spans is in memory",
		Cfgs: noDeviations,
		Body: func() {
			n := []int{1, 10, 100}[rt.Choose(3)]
			per := []int{1, 7}[rt.Choose(2)]
			b := zipkinproxy.NewSpansBuffer(uint(n))
			ch := make(chan proxy.Trace, 2)
			rt.GoNamed("recent", func() { b.ReadFrom(ch) })
			id := 0
			gone(rt.Goroutines(), func(t *tracker) string {
				for i := 0; i < 50; i++ {
					var tr proxy.Trace
					for j := 0; j < per; j++ {
						id++
						tr = append(tr, t.span(1+i, id, 1, "a span of an earlier trace"))
					}
					rt.Send(ch, tr)
					if i%10 == 0 {
						rt.Sleep(time.Millisecond)
						b.ToSlice()
					}
				}
				for i := 0; i < n+8; i++ {
					rt.Send(ch, proxy.Trace{span(1000+i, 1, 1)})
				}
				rt.Sleep(time.Second)
				return fmt.Sprintf("after %d more spans", n+8)
			})
		}})

	explore.Add(&explore.Scenario{Name: "what the sender keeps", Prop: "C34",
		What: "300 spans of 20, 400, 3000 or mixed bytes sent to Kafka, all, every second one or none of which is delivered: 300 spans later nothing of the earlier messages is in memory and no thread is left over",
		Cfgs: noDeviations,
		Body: func() {
			size := rt.Choose(4)
			fail := rt.Choose(3)
			var t *tracker
			watch := true
			var pr *fake.Producer
			br := fake.NewBroker(sys.Topic, 2)
			conf := sarama.NewConfig()
			conf.ChannelBufferSize = 4
			sys.HookKafka(func(c sarama.Client) *fake.Producer {
				pr = fake.NewProducer(br, c.Config())
				pr.Flush = 100 * time.Millisecond
				pr.Fail = func(i int) bool { return fail == 2 || fail == 1 && i%2 == 0 }
				pr.OnMsg = func(m *sarama.ProducerMessage) {
					if watch {
						v, err := m.Value.Encode()
						if err != nil || len(v) == 0 {
							rt.Fail("a message has no value: %v", err)
						}
						t.ptr(unsafe.Pointer(unsafe.SliceData(v)), "bytes of an earlier message")
						t.ptr(unsafe.Pointer(m), "earlier message")
					}
				}
				return pr
			})
			s, err := balance.NewSender(&fake.Client{Conf: conf}, sys.Topic)
			if err != nil {
				rt.Fail("NewSender: %s", err)
			}
			in := make(chan proxy.Span, 4)
			rt.GoNamed("sender", func() { s.Send(in) })
			rt.Sleep(time.Second)
			total := 0
			gone(rt.Goroutines(), func(now *tracker) string {
				t, watch = now, true
				for i := 0; i < 600; i++ {
					if i == 300 {
						rt.WaitFor("submission", func() bool { return len(pr.Msgs) == total+300 })
						watch = false
					}
					var x proxy.Span
					l := []int{20, 400, 3000, []int{20, 400, 3000}[i%3]}[size]
					if i < 300 {
						x = t.span(1+i, 1, 1, "an earlier span")
					} else {
						x = span(1+i, 1, 1)
					}
					x.Tags["t"] = string(make([]byte, l))
					rt.Send(in, x)
				}
				total += 600
				rt.WaitFor("submission", func() bool { return len(pr.Msgs) == total })
				rt.Sleep(time.Second)
				return "after 300 more messages"
			})
		}})

	convs := []string{"keeps them", "makes new ones", "fails for every second one", "answers zero ids for every third one"}
	explore.Add(&explore.Scenario{Name: "what the process keeps", Prop: "C34", Heavy: true,
		What: "the whole process without and with Kafka, 4 converters, an agent that works or fails, damaged requests in between, Kafka sessions that end: after 400 traces and 12000 more spans nothing of the earlier spans is in memory and no thread is left over",
		Cfgs: noDeviations,
		Body: func() {
			kaf := rt.Choose(2) == 1
			conv := rt.Choose(len(convs))
			bad := rt.Choose(2) == 1
			var t *tracker
			watch, n := false, 0
			well := false
			ag := &fake.Agent{Forget: true, OnSend: func(int, *fake.Call) error {
				if bad && !well {
					return fake.ErrAgent
				}
				return nil
			}}
			o := sys.Options{Kafka: kaf, Agent: ag, Converter: func(x proxy.Span) (proxy.Span, error) {
				n++
				if watch {
					t.tags(x, "a span given to the converter")
				}
				switch conv {
				case 1:
					if watch {
						return t.span(int(x.Trace), int(x.Id), int(x.Parent), "a converted span"), nil
					}
				case 2:
					if n%2 == 0 {
						return x, errors.New("no")
					}
				case 3:
					if n%3 == 0 {
						x.Id = 0
					}
				}
				return x, nil
			}, OnGroup: func(g *fake.Group) {
				for i := 0; i < 300; i++ {
					sc := fake.Script{After: []int{17, 500, 17, 1000}[i%4]}
					if i%2 == 1 {
						sc.EndErr = errors.New("session lost")
					}
					g.Scripts = append(g.Scripts, sc)
				}
			}, OnProducer: func(p *fake.Producer) { p.OnMsg = func(*sarama.ProducerMessage) {} }}
			s := sys.Boot(o)
			first := bulk(0x10000, 10)
			postBulk(s, first, 3, 5)
			rt.Sleep(30 * time.Second)
			rounds := 0
			gone(rt.Goroutines(), func(now *tracker) string {
				t, watch, well, n = now, true, false, 0
				rounds++
				for r := 0; r < 4; r++ {
					postBulk(s, bulk(0x1000000*rounds+0x100+1000*r, 100), 3, 20)
					for _, f := range ref.Formats {
						path, body := ref.Payload(f, first)
						s.Post(path, body[:len(body)/2])
						s.PostBody(path, "application/json", "gzip", &sys.Body{Pieces: [][]byte{sys.Gzip(body)[:40]}, Err: errors.New("connection reset")})
					}
					rt.Sleep(5 * time.Second)
					s.Recent()
				}
				rt.Sleep(30 * time.Second)
				if n < 700 {
					rt.Fail("the converter got %d spans", n)
				}
				watch, well = false, true
				for r := 0; r < 6; r++ {
					postBulk(s, bulk(0x1000000*rounds+0x20000+1000*r, 1000), 3, 200)
					rt.Sleep(2 * time.Second)
				}
				rt.Sleep(30 * time.Second)
				return fmt.Sprintf("converter that %s, agent fails %v, Kafka %v", convs[conv], bad, kaf)
			})
		}})
}
