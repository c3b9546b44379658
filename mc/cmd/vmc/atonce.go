package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/fake"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

// Things that are used from several goroutines at the same time without any scheduling point inside: what they share
// is seen by the race detector, whatever the schedule. And things that must not be shared between values that have
// different owners.

func init() {
	explore.Add(&explore.Scenario{Name: "identifiers and times at once", Race: true, Prop: "C28",
		What: "three goroutines writing and reading identifiers, times and whole spans of their own, directly or through encoding/json: every order and the race detector's judgement",
		Cfgs: deviations(2, 3, func(c *rt.Config) { c.Sched = true }),
		Body: func() {
			viaJSON := rt.Choose(2) == 1
			work := func(g int) func() {
				return func() {
					for i := 0; i < 3; i++ {
						id := proxy.Id(0x1111111111111111*int64(g+1) + int64(i))
						text := fmt.Sprintf("%016x", uint64(id))
						rt.Point("id")
						if t := id.String(); t != text {
							rt.Fail("identifier %s is written as %q", text, t)
						}
						x, err := proxy.ParseId([]byte(text))
						if err != nil || x != id {
							rt.Fail("identifier %s is read as %x, %v", text, uint64(x), err)
						}
						rt.Point("json")
						if viaJSON {
							s := span(g+1, i+1, 1)
							s.Trace = id
							b, err := json.Marshal(s)
							rt.Point("between")
							var y proxy.Span
							if err == nil {
								err = json.Unmarshal(b, &y)
							}
							if err != nil || !ref.Equal(s, y) {
								rt.Fail("%s is written as %s and read as %s, %v", ref.Show(s), b, ref.Show(y), err)
							}
							continue
						}
						b, err := id.MarshalJSON()
						rt.Point("between")
						if err != nil || string(b) != `"`+text+`"` {
							rt.Fail("identifier %s is written as %s, %v", text, b, err)
						}
						var y proxy.Id
						if err := y.UnmarshalJSON(b); err != nil || y != id {
							rt.Fail("identifier %s is read as %x, %v", b, uint64(y), err)
						}
					}
				}
			}
			join(work(0), work(1), work(2))
		}})
	explore.Add(&explore.Scenario{Name: "coding at once", Race: true, Prop: "C10",
		What: "three goroutines encoding spans of different shapes and decoding them again: every interleaving within the deviations",
		Cfgs: deviations(2, 3, func(c *rt.Config) { c.Sched, c.Pool, c.Atomics = true, true, true }),
		Body: func() {
			work := func(g int) func() {
				return func() {
					for i := 0; i < 2; i++ {
						s := span(g+1, i+1, 1)
						switch (g + i) % 3 {
						case 1:
							s.Tags = nil
						case 2:
							s.Timings = proxy.Timings{CS: at(1), CR: at(2), SR: at(3), SS: at(4)}
							s.Tags["other"] = string(bytes.Repeat([]byte{byte('a' + g)}, 300))
						}
						w := &bytes.Buffer{}
						if err := codec.BinaryEncode(s, w); err != nil {
							rt.Fail("%s is not encoded: %v", ref.Show(s), err)
						}
						rt.Point("between")
						x, err := codec.BinaryDecode(bytes.NewReader(w.Bytes()))
						if err != nil || !ref.Equal(s, x) {
							rt.Fail("%s is decoded as %s, %v", ref.Show(s), ref.Show(x), err)
						}
						x.AddTag("mine", fmt.Sprint(g, i))
						y, err := codec.BinaryDecode(bytes.NewReader(w.Bytes()))
						if err != nil || !ref.Equal(s, y) {
							rt.Fail("%s is decoded as %s, %v", ref.Show(s), ref.Show(y), err)
						}
					}
				}
			}
			join(work(0), work(1), work(2))
		}})
	explore.Add(&explore.Scenario{Name: "claims at once", Race: true, Prop: "C14",
		What: "three partitions of 4 messages, one of them damaged, consumed at the same time, each span handed on with or without a pause: every interleaving within the deviations; each of them is handed on",
		Cfgs: deviations(2, 3, func(c *rt.Config) { c.Sched, c.Select, c.Pool, c.Atomics = true, true, true, true }),
		Body: func() {
			const parts, per = 3, 4
			pause := rt.Choose(2) == 1
			br := fake.NewBroker(sys.Topic, parts)
			for p := 0; p < parts; p++ {
				for i := 0; i < per; i++ {
					s := span(1+p, 1+i, 1)
					if i == 1 {
						s.Tags = nil
					}
					w := &bytes.Buffer{}
					codec.BinaryEncode(s, w)
					if p == 1 && i == 1 {
						w.Truncate(9)
					}
					br.Append(p, []byte("k"), w.Bytes())
				}
			}
			var got [64]proxy.Span // no map: the runtime would take it for a race of the harness
			n := 0
			stop := balance.Consume(fake.NewGroup(br), sys.Topic, func(s proxy.Span) {
				if n < len(got) {
					got[n] = s
				}
				n++
				rt.Point("callback")
				if pause {
					rt.Sleep(10 * time.Millisecond)
				}
			})
			rt.Sleep(4 * time.Second)
			stop()
			rt.Gather()
			if n != parts*per-1 {
				rt.Fail("%d of %d spans were handed on", n, parts*per-1)
			}
			for p := 0; p < parts; p++ {
				i := 0
				for _, x := range got[:n] {
					if x.Trace != proxy.Id(1+p) {
						continue
					}
					if p == 1 && i == 1 {
						i++
					}
					s := span(1+p, 1+i, 1)
					if i == 1 {
						s.Tags = nil
					}
					if !ref.Equal(s, x) {
						rt.Fail("%s was handed on instead of %s", ref.Show(x), ref.Show(s))
					}
					i++
				}
			}
		}})
	explore.Add(&explore.Scenario{Name: "slow receiver at once", Race: true, Prop: "C17",
		What: "a receiver that pauses 1 or 2.5 s before some traces, so that the stage waits for it, while two goroutines go on giving spans of four traces: every interleaving, select and tick order within the deviations; every span is delivered",
		Cfgs: deviations(1, 2, everything),
		Body: func() {
			d := []time.Duration{time.Second, 2500 * time.Millisecond}[rt.Choose(2)]
			every := 1 + rt.Choose(2)
			s := newStage(2, 1)
			s.slow = func(k int) {
				if k%every == 0 {
					rt.Sleep(d)
				}
			}
			run := func(g int) func() {
				return func() {
					for i := 0; i < 12; i++ {
						until(t0 + time.Duration(i)*700*time.Millisecond + time.Duration(g)*time.Millisecond)
						x := span(1+i*2+g, 1, 1)
						s.send(x, span(1+i*2+g, 2, 1))
					}
				}
			}
			join(run(0), run(1))
			rt.WaitFor("time", func() bool { return rt.Elapsed() > 100*time.Second })
			rt.Gather()
			n := 0
			for _, d := range s.got {
				n += len(d.spans)
			}
			if n != 48 {
				rt.Fail("48 spans were given, %d delivered", n)
			}
			s.wellFormed()
		}})

	// ---- what is handed on belongs to the receiver ----
	explore.Add(&explore.Scenario{Name: "traces belong to the receiver", Prop: "C19",
		What: "four traces whose 2 or 3 spans without or with tags have an unknown parent in common, delivered together or in turn; the receiver adds a tag of its own to every span (the synthetic root too): no span has the tag of another",
		Cfgs: noDeviations,
		Body: func() {
			n := 2 + rt.Choose(2)
			tags := rt.Choose(3)
			turn := rt.Choose(2) == 1
			s := newStage(10, 1)
			for t := 1; t <= 4; t++ {
				if turn {
					until(time.Duration(t) * 15 * time.Second)
				}
				for i := 1; i <= n; i++ {
					x := span(t, i, 50)
					switch tags {
					case 0:
						x.Tags = nil
					case 1:
						x.Tags = map[string]string{}
					}
					s.send(x)
				}
			}
			rt.WaitFor("time", func() bool { return rt.Elapsed() > 100*time.Second })
			rt.Gather()
			ownTags(s.got)
		}})
	explore.Add(&explore.Scenario{Name: "spans belong to the converter", Prop: "C23",
		What: "two requests of each format, traces of 1-3 spans with no tags and with an unknown parent in common or none; the converter adds a tag of its own to every span it gets: no span gets to it or to the agent with the tag of another, without and with Kafka",
		Cfgs: noDeviations,
		Body: func() {
			kaf := rt.Choose(2) == 1
			n := 1 + rt.Choose(3)
			parent := []int{50, 0, 1}[rt.Choose(3)]
			k := 0
			s := sys.Boot(sys.Options{Kafka: kaf, Converter: func(x proxy.Span) (proxy.Span, error) {
				if v, ok := x.Tags["mine"]; ok {
					rt.Fail("span %s has the tag of the converter's call %s", ref.Show(x), v)
				}
				k++
				x.AddTag("mine", fmt.Sprint(k))
				return x, nil
			}})
			for r := 0; r < 2; r++ {
				for fi, f := range ref.Formats {
					var l []proxy.Span
					for i := 1; i <= n; i++ {
						x := span(10*(r+1)+fi, i, parent)
						if i == 1 && parent == 1 {
							x.Parent = 0
						}
						x.Tags = nil
						if x.Service = ""; r == 1 {
							x.Service = "svc"
						}
						l = append(l, x)
					}
					postOK(s, f, l)
				}
				until(time.Duration(r+1) * 14 * time.Second)
			}
			settle(16 * time.Second)
			seen := map[string]bool{}
			for _, x := range agentSpans(s.Agent) {
				v := x.Meta["mine"]
				if v == "" || seen[v] {
					rt.Fail("span %s arrives at the agent with the tag %q of another", showDD(x), v)
				}
				seen[v] = true
			}
			if len(seen) < 6*n {
				rt.Fail("%d of at least %d spans arrive at the agent", len(seen), 6*n)
			}
		}})
}

// ownTags tags every delivered span and looks whether others got the tag too.
func ownTags(l []*delivery) {
	k := 0
	for _, d := range l {
		for i := range d.raw {
			k++
			d.raw[i].AddTag(fmt.Sprint("mine", k), "")
		}
	}
	k = 0
	for _, d := range l {
		for i := range d.raw {
			k++
			w := ref.Clone(d.spans[i])
			w.AddTag(fmt.Sprint("mine", k), "")
			if !ref.Equal(w, d.raw[i]) {
				rt.Fail("tagging every delivered span, span %s became %s", ref.Show(d.spans[i]), ref.Show(d.raw[i]))
			}
		}
	}
}
