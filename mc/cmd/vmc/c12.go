package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/balance"
	"github.com/flachnetz/dd-zipkin-proxy/cache"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/rcrowley/go-metrics"

	"bytes"

	"verif/explore"
	"verif/fake"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

// newSenders makes senders of one topic, each with its own producer.
func newSenders(n int, conf func(*sarama.Config), prep func(i int, p *fake.Producer)) ([]*balance.Sender, []*fake.Producer, *fake.Broker) {
	br := fake.NewBroker(sys.Topic, 2)
	c := sarama.NewConfig()
	if conf != nil {
		conf(c)
	}
	cl := &fake.Client{Conf: c}
	var ps []*fake.Producer
	sys.HookKafka(func(sarama.Client) *fake.Producer {
		p := fake.NewProducer(br, c)
		if prep != nil {
			prep(len(ps), p)
		}
		ps = append(ps, p)
		return p
	})
	var ss []*balance.Sender
	for i := 0; i < n; i++ {
		s, err := balance.NewSender(cl, sys.Topic)
		if err != nil {
			rt.Fail("NewSender: %v", err)
		}
		ss = append(ss, s)
	}
	return ss, ps, br
}

func encodedSize(s proxy.Span) int {
	var b bytes.Buffer
	codec.BinaryEncode(s, &b)
	return b.Len()
}

// sized is a span whose encoding has exactly n bytes.
func sized(trace, id, n int) proxy.Span {
	s := span(trace, id, 1)
	s.Tags = nil
	s.Name = ""
	for k := n - encodedSize(s); k >= 0; k-- {
		s.Name = strings.Repeat(string(rune('a'+(trace+id)%26)), max(0, k))
		if encodedSize(s) == n {
			return s
		}
	}
	return s
}

var bigSizes = []int{16384, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000, 200000, 800000, 1000000, 1048577, 2097153}

// bigSpan has an encoding of about n bytes.
func bigSpan(trace, id, n, how int) proxy.Span {
	s := span(trace, id, 1)
	switch how {
	case 0:
		return sized(trace, id, n)
	case 1:
		s.Tags = map[string]string{"sql": ""}
		s.Tags["sql"] = strings.Repeat("s", n-encodedSize(s)-4)
	default:
		s.Tags = map[string]string{}
		for i := 0; i < 3000; i++ {
			s.Tags[fmt.Sprint("tag", i)] = strings.Repeat(string(rune('a'+i%26)), n/3000)
		}
	}
	return s
}

func keyOf(m *sarama.ProducerMessage) string {
	k, err := m.Key.Encode()
	if err != nil {
		rt.Fail("key: %v", err)
	}
	return hex.EncodeToString(k)
}

func checkMessages(msgs []*sarama.ProducerMessage, want []proxy.Span) {
	if len(msgs) != len(want) {
		rt.Fail("%d messages are submitted for %d spans", len(msgs), len(want))
	}
	keys := map[string]proxy.Id{}
	byTrace := map[proxy.Id]string{}
	for i, m := range msgs {
		if m.Topic != sys.Topic {
			rt.Fail("message %d has topic %q", i, m.Topic)
		}
		v, err := m.Value.Encode()
		if err != nil {
			rt.Fail("value: %v", err)
		}
		if m.Value.Length() != len(v) || m.Key.Length() != len(keyOf(m))/2 {
			rt.Fail("message %d: lengths %d, %d do not match its content", i, m.Key.Length(), m.Value.Length())
		}
		s, err := codec.BinaryDecode(bytes.NewReader(v))
		if err != nil {
			rt.Fail("message %d of %d, of span %s, is not decodable: %v", i, len(msgs), ref.Show(want[i]), err)
		}
		if !ref.Equal(s, want[i]) {
			rt.Fail("message %d of %d, of span %s\ndecodes to %s", i, len(msgs), ref.Show(want[i]), ref.Show(s))
		}
		k := keyOf(m)
		if t, ok := keys[k]; ok && t != want[i].Trace {
			rt.Fail("traces %x and %x have the same key %s", uint64(t), uint64(want[i].Trace), k)
		}
		if o, ok := byTrace[want[i].Trace]; ok && o != k {
			rt.Fail("messages of trace %x have keys %s and %s", uint64(want[i].Trace), o, k)
		}
		keys[k], byTrace[want[i].Trace] = want[i].Trace, k
	}
}

func manyTags(trace, id, n int) proxy.Span {
	s := span(trace, id, 1)
	s.Tags = map[string]string{}
	for i := 0; i < n; i++ {
		s.Tags[fmt.Sprint("key", i)] = fmt.Sprint("value of ", i)
	}
	return s
}

func feed(s *balance.Sender, l []proxy.Span) { feedFrom(s, l, 0) }

// feedFrom gives the spans to the sender from a queue.
func feedFrom(s *balance.Sender, l []proxy.Span, queue int) {
	ch := make(chan proxy.Span, queue)
	done := false
	rt.GoNamed("sender", func() { s.Send(ch); done = true })
	for _, x := range l {
		rt.Send(ch, ref.Clone(x))
	}
	rt.Close(ch)
	rt.WaitFor("sender end", func() bool { return done })
	rt.Sleep(10 * time.Millisecond)
}

func init() {
	sizes := []int{40, 100, 503, 504, 505, 511, 512, 513, 520, 4000}
	explore.Add(&explore.Scenario{Name: "message histories", Prop: "C12",
		What: "histories of 1300 messages: every pair of 10 encoded sizes (40..4000 bytes, around the 512 byte window) at 4 mixing periods, so that memory blocks end at every alignment; each message decoded after the last one was produced",
		Cfgs: noDeviations,
		Body: func() {
			a, b := sizes[rt.Choose(len(sizes))], sizes[rt.Choose(len(sizes))]
			period := []int{2, 3, 7, 61}[rt.Choose(4)]
			ss, ps, _ := newSenders(1, nil, nil)
			rt.Window(false)
			var l []proxy.Span
			for i := 0; i < 1300; i++ {
				n := a
				if i%period == 0 {
					n = b
				}
				s := sized(1+i%5, i, n)
				l = append(l, s)
			}
			feed(ss[0], l)
			checkMessages(ps[0].Msgs, l)
		}})
	explore.Add(&explore.Scenario{Name: "size sequences", Prop: "C12",
		What: "after 0, 55..66 messages of 504 bytes (the last ones of a 32 KiB block) every sequence of 3 messages of 8 sizes and of 2 full spans with boundary values; decoded at the end",
		Cfgs: noDeviations,
		Body: func() {
			sz := []int{30, 495, 511, 512, 513, 520, 1040, 40000}
			n := rt.Choose(13)
			if n > 0 {
				n += 54
			}
			var l []proxy.Span
			for i := 0; i < n; i++ {
				l = append(l, sized(3, i, 504))
			}
			for i := 0; i < 3; i++ {
				l = append(l, sized(4+i, 100+i, sz[rt.Choose(len(sz))]))
			}
			x := full(9, 2)
			x[0].Trace, x[0].Id, x[0].Timings.SS = -1, -1<<63, 1<<63-1
			x[1].Tags = nil
			l = append(l, x...)
			ss, ps, _ := newSenders(1, nil, nil)
			feed(ss[0], l)
			checkMessages(ps[0].Msgs, l)
		}})
	explore.Add(&explore.Scenario{Name: "large messages", Prop: "C12",
		What: "two messages of every pair of 14 encoded sizes from 16 KiB to 2 MiB (around 32 and 64 KiB and 1 MB), the size in one long name, one long tag value or 3000 tags, small messages before, between and after",
		Cfgs: noDeviations,
		Body: func() {
			l := []proxy.Span{sized(3, 1, 60)}
			how := rt.Choose(3)
			for i := 0; i < 2; i++ {
				l = append(l, bigSpan(4+i, 10+i, bigSizes[rt.Choose(len(bigSizes))], how), sized(6+i, 20+i, 505))
			}
			ss, ps, _ := newSenders(1, nil, nil)
			feed(ss[0], l)
			checkMessages(ps[0].Msgs, l)
		}})
	explore.Add(&explore.Scenario{Name: "long history", Prop: "C12", Heavy: true,
		What: "one history of 45000 messages of 60, of 505 or of both sizes and now and then 600 bytes (up to 22 MB), or of 150000 messages of 60 bytes, each decoded at the end",
		Cfgs: noDeviations,
		Body: func() {
			k := rt.Choose(4)
			rt.Window(false)
			n := 45000
			if k == 3 {
				n = 150000
			}
			base := [][]proxy.Span{}
			for t := 0; t < 5; t++ {
				base = append(base, []proxy.Span{sized(1+t, 1<<20, 60), sized(1+t, 1<<20, 505), sized(1+t, 1<<20, 600)})
			}
			var l []proxy.Span
			for i := 0; i < n; i++ {
				j := []int{0, 1, i % 2, 0}[k]
				if k == 2 && i%31 == 0 {
					j = 2
				}
				s := base[i%5][j]
				s.Id += proxy.Id(i) // as many bytes
				l = append(l, s)
			}
			ss, ps, _ := newSenders(1, nil, nil)
			feed(ss[0], l)
			checkMessages(ps[0].Msgs, l)
		}})
	explore.Add(&explore.Scenario{Name: "keys", Prop: "C12",
		What: "about 500 trace ids (every byte value at 3 positions, every power of two, neighbours, both signs) in one history with spans of both signs of the id, no id, and other fields varying: the key is a function of the trace id and injective",
		Cfgs: noDeviations,
		Body: func() {
			var l []proxy.Span
			add := func(t proxy.Id) {
				s := span(1, 1+len(l), 1+len(l)%3)
				s.Trace = t
				o := proxy.Span{Trace: t, Id: -5 - proxy.Id(len(l))<<50, Parent: -t, Service: "s", Name: "n"}
				o.Timings.CS = -7
				e := full(1, 3)[2]
				e.Trace, e.Id, e.Parent = t, t, proxy.Id(len(l))<<40
				e.Timestamp = proxy.Timestamp(len(l))
				l = append(l, s, proxy.Span{Trace: t, Id: 5}, o, proxy.Span{Trace: t}, e)
			}
			for k := uint(0); k < 64; k++ {
				add(proxy.Id(1) << k)
				add(-(proxy.Id(1) << k))
				add(proxy.Id(1)<<k - 1)
				add(^(proxy.Id(1) << k))
			}
			for v := proxy.Id(0); v < 256; v++ {
				add(v)
				add(v << 32)
				add(v << 56)
			}
			ss, ps, _ := newSenders(1, nil, nil)
			feed(ss[0], l)
			checkMessages(ps[0].Msgs, l)
		}})
	explore.Add(&explore.Scenario{Name: "many keys", Prop: "C12", Heavy: true,
		What: "one history of 150000 messages of as many trace ids (counted, spread over all 64 bits, in the upper half only, multiples of a large number), so many that any key of 32 bits is the same for some of them",
		Cfgs: noDeviations,
		Body: func() {
			k := rt.Choose(2)
			rt.Window(false)
			var l []proxy.Span
			s := span(1, 1, 1)
			for i := uint64(1); i <= 150000; i++ {
				x := i * 0x9e3779b97f4a7c15
				x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
				s.Trace = proxy.Id([]uint64{x ^ x>>27, []uint64{i, i << 32, i * 1000003 << 20}[i%3]}[k])
				l = append(l, s)
			}
			ss, ps, _ := newSenders(1, nil, nil)
			feed(ss[0], l)
			checkMessages(ps[0].Msgs, l)
		}})
	explore.Add(&explore.Scenario{Name: "senders at once", Race: true, Prop: "C12",
		What: "three senders producing 2-3 messages each (small, 511, 513 and 5000 bytes) at the same time: every interleaving and every answer of the pool of encoders within the deviations; decoded at the end",
		Cfgs: deviations(4, 5, func(c *rt.Config) { c.Sched, c.Pool, c.Atomics = true, true, true }),
		Body: func() {
			ss, ps, _ := newSenders(3, nil, nil)
			var ls [][]proxy.Span
			var fs []func()
			for i := 0; i < 3; i++ {
				l := []proxy.Span{sized(10+i, 1, 60), sized(10+i, 2, 511+i)}
				if i == 1 {
					l = append(l, sized(11, 3, 5000))
				}
				ls = append(ls, l)
				fs = append(fs, func() { feed(ss[i], l) })
			}
			join(fs...)
			for i := range ls {
				checkMessages(ps[i].Msgs, ls[i])
			}
		}})

	c13 := func(conf func(*sarama.Config), n int) {
		// the spans wait in a queue like the one of the request handlers
		mask := 0
		for i := 0; i < n; i++ {
			mask |= rt.Choose(2) << i
		}
		kind := 0
		if mask != 0 {
			kind = rt.Choose(len(fake.DeliveryErrors))
		}
		ss, ps, br := newSenders(1, conf, func(i int, p *fake.Producer) {
			p.Fail = func(k int) bool { return k < n && mask&(1<<k) != 0 }
			p.Err = fake.DeliveryErrors[kind]
		})
		l := full(1, n)
		for i := range l {
			l[i].Trace = proxy.Id(1 + i%2)
		}
		l = append(l, span(3, 77, 1))
		ch := make(chan proxy.Span, 4)
		rt.GoNamed("sender", func() { ss[0].Send(ch) })
		for _, x := range l {
			rt.Send(ch, ref.Clone(x))
		}
		rt.Sleep(3 * time.Second)
		if len(ps[0].Msgs) != len(l) {
			rt.Fail("%d of %d spans are submitted to the producer (deliveries failing by mask %b)", len(ps[0].Msgs), len(l), mask)
		}
		checkMessages(ps[0].Msgs, l)
		rt.Digest(fmt.Sprint(mask, len(br.Parts[0]), len(br.Parts[1])))
	}
	explore.Add(&explore.Scenario{Name: "failing deliveries", Prop: "C13",
		What: "5 spans plus one, every subset of the first five failing to be delivered, with the library's default producer configuration: every interleaving within the deviations",
		Cfgs: deviations(2, 3, schedules),
		Body: func() { c13(nil, 5) }})
	explore.Add(&explore.Scenario{Name: "failing deliveries, errors not reported", Prop: "C13",
		What: "the same with a producer that is configured not to report errors, or to report successes as well if the sender asks for it",
		Cfgs: deviations(1, 2, schedules),
		Body: func() {
			c13(func(c *sarama.Config) { c.Producer.Return.Errors = false }, 4)
		}})
	explore.Add(&explore.Scenario{Name: "order and exactly once", Prop: "C13",
		What: "one sender, spans of 2-3 traces given by one goroutine in bursts while the producer pauses and resumes: every interleaving within the deviations",
		Cfgs: deviations(3, 5, everything),
		Body: func() {
			pause := rt.Choose(3)
			ss, ps, _ := newSenders(1, nil, func(i int, p *fake.Producer) {
				p.Gate = func() bool { return len(p.Msgs) < 1+pause || rt.Elapsed() > time.Second }
				p.Flush = 300 * time.Millisecond
			})
			var l []proxy.Span
			for i := 1; i <= 7; i++ {
				l = append(l, sized(1+i%3, i, 40+i*90))
			}
			l[1], l[4] = manyTags(2, 2, 30), manyTags(2, 5, 60)
			ch := make(chan proxy.Span, 2)
			rt.GoNamed("sender", func() { ss[0].Send(ch) })
			for i, x := range l {
				rt.Send(ch, ref.Clone(x))
				if i == 3 {
					rt.Sleep(500 * time.Millisecond)
				}
			}
			// the flusher's timer keeps the clock going
			rt.WaitFor("the messages", func() bool { return len(ps[0].Msgs) >= len(l) || rt.Elapsed() > time.Minute })
			rt.Sleep(time.Second)
			checkMessages(ps[0].Msgs, l)
		}})
	explore.Add(&explore.Scenario{Name: "whole proxy, failing deliveries", Race: true, Prop: "C13",
		What: "the proxy in Kafka mode, 3 requests of 6 spans in total, every subset of the 6 messages failing: all are submitted in the order handed on",
		Cfgs: deviations(1, 2, schedules),
		Body: func() {
			mask := rt.Choose(64)
			s := sys.Boot(sys.Options{Kafka: true, NoConsume: true, OnProducer: func(p *fake.Producer) {
				p.Fail = func(i int) bool { return mask&(1<<i) != 0 }
			}})
			var want []proxy.Span
			for i := 0; i < 3; i++ {
				l := seqSpans(5+i, 2)
				path, b := ref.Payload("v2", l)
				want = append(want, tagged("v2", l)...)
				if r := s.Post(path, b); r.Code != 202 {
					rt.Fail("answered %d", r.Code)
				}
				rt.Sleep(time.Second)
			}
			rt.Sleep(2 * time.Second)
			checkMessages(s.Producer.Msgs, want)
		}})
	explore.Add(&explore.Scenario{Name: "any span", Prop: "C13",
		What: "histories of 12 spans with one or two of 18 special kinds (the same as the one before, no trace id, no id, empty, negative, without service, name, times or tags, 1 to 1000 tags, 16 KiB to 2 MiB of one field) at every position, every third failing, taken from a queue of 32 or none: all submitted in order",
		Cfgs: noDeviations,
		Body: func() {
			special := func(k int) proxy.Span {
				s := span(2, 50+k, 1)
				switch k {
				case 0:
					s.Trace = 0
				case 1:
					s.Id = 0
				case 2:
					s = proxy.Span{}
				case 3:
					s.Trace, s.Id, s.Parent = -1, -2, -3
				case 4:
					s.Service = ""
				case 5:
					s.Name = ""
				case 6:
					s.Timestamp, s.Duration = 0, 0
				case 7:
					s.Tags = nil
				case 8:
					s.Parent = s.Id
				case 9, 10, 11:
					s = manyTags(2, 50+k, []int{21, 100, 1000}[k-9])
				case 12, 13, 14, 15:
					s = bigSpan(2, 50+k, []int{16384, 70000, 800000, 2000000}[k-12], k%2)
				case 16:
					s.Duration, s.Timestamp = -5, -7
				}
				return s
			}
			a, b := rt.Choose(18), rt.Choose(19)
			at := rt.Choose(4)
			kind := rt.Choose(2) * 2
			queue := []int{0, 32}[rt.Choose(2)]
			ss, ps, _ := newSenders(1, nil, func(i int, p *fake.Producer) {
				p.Fail = func(i int) bool { return i%3 == at%3 }
				p.Err = fake.DeliveryErrors[kind]
			})
			var l []proxy.Span
			for i := 0; i < 12; i++ {
				switch {
				case i > 0 && (i == at*3 && a == 17 || i == at*3+2 && b == 17):
					l = append(l, ref.Clone(l[i-1]))
				case i == at*3 && a < 17:
					l = append(l, special(a))
				case i == at*3+2 && b < 17:
					l = append(l, special(b))
				default:
					l = append(l, span(1+i%3, 1+i, 1))
				}
			}
			feedFrom(ss[0], l, queue)
			rt.Sleep(3 * time.Second)
			checkMessages(ps[0].Msgs, l)
		}})
	explore.Add(&explore.Scenario{Name: "large backlog with failures", Prop: "C13",
		What: "2000 or 30000 spans of which every 1st, 2nd, 3rd, 100th or a run of 500 fails to be delivered: all submitted in order",
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			k := rt.Choose(5)
			ss, ps, _ := newSenders(1, nil, func(i int, p *fake.Producer) {
				p.Fail = func(i int) bool {
					if k == 4 {
						return i >= 100 && i < 600
					}
					return i%[]int{1, 2, 3, 100}[k] == 0
				}
			})
			l := seqSpans(3, []int{2000, 30000}[rt.Choose(2)])
			ch := make(chan proxy.Span, 256)
			rt.GoNamed("sender", func() { ss[0].Send(ch) })
			n := 0
			rt.GoNamed("source", func() {
				for _, x := range l {
					rt.Send(ch, ref.Clone(x))
					n++
				}
			})
			rt.Sleep(60 * time.Second)
			if n != len(l) {
				rt.Fail("the sender took only %d of %d spans", n, len(l))
			}
			checkMessages(ps[0].Msgs, l)
		}})

	// ---- C14 ----
	var size func(i int) int // of every third message
	setup := func(parts int, perPart int, bad func(p, i int) int) (*fake.Broker, [][]proxy.Span, [][]int64) {
		br := fake.NewBroker(sys.Topic, parts)
		want := make([][]proxy.Span, parts)
		offs := make([][]int64, parts)
		for p := 0; p < parts; p++ {
			for i := 0; i < perPart; i++ {
				s := span(10+p, 1+i, 1)
				switch i % 3 {
				case 1:
					s.Id = -s.Id
					if size != nil {
						s.Tags["text"] = strings.Repeat("x", size(i))
					}
				case 2:
					s.Parent, s.Timestamp, s.Name = 0, 0, ""
					if i == 2 {
						s.Id = 0
					}
				}
				var b bytes.Buffer
				codec.BinaryEncode(s, &b)
				v := b.Bytes()
				switch bad(p, i) {
				case 1:
					v = v[:len(v)-1]
				case 2:
					v = nil
				case 3:
					v = bytes.Repeat([]byte{0xff}, 30)
				default:
					want[p] = append(want[p], s)
					offs[p] = append(offs[p], int64(i))
				}
				br.Append(p, []byte("k"), v)
			}
		}
		return br, want, offs
	}
	explore.Add(&explore.Scenario{Name: "consuming", Prop: "C14",
		What: "2 partitions of 3 messages, each message decodable or damaged in one of three ways (at most two damaged), the first two sessions ending normally, after 1 or 3 messages, with an error before or after, after some time, claiming one partition only, or losing the offsets marked so that all is delivered again: every interleaving within the deviations",
		Cfgs: deviations(2, 3, func(c *rt.Config) { c.Sched, c.Select = true, true }),
		Body: func() {
			nb := 0
			badAt, badHow := rt.Choose(7), 0
			if badAt < 6 {
				badHow = 1 + rt.Choose(3)
			}
			br, want, offs := setup(2, 3, func(p, i int) int {
				if p*3+i == badAt || badAt == 1 && p == 0 && i == 2 {
					nb++
					return badHow
				}
				return 0
			})
			mk := func(n int) fake.Script {
				switch rt.Choose(n) {
				case 7:
					return fake.Script{After: 3, Lost: true}
				case 8:
					return fake.Script{After: 4, EndErr: errors.New("not committed"), Lost: true}
				case 1:
					return fake.Script{After: 1}
				case 2:
					return fake.Script{After: 3, EndErr: errors.New("rebalance failed")}
				case 3:
					return fake.Script{Err: errors.New("no coordinator")}
				case 4:
					return fake.Script{OnlyParts: []int{1}, ForTime: 50 * time.Millisecond}
				case 5:
					return fake.Script{After: 2}
				case 6:
					return fake.Script{Err: sarama.ErrOutOfBrokers, Wait: 40 * time.Millisecond}
				}
				return fake.Script{}
			}
			consumeAndCheck(br, want, offs, []fake.Script{mk(9), mk(7)}, false)
		}})
	explore.Add(&explore.Scenario{Name: "closing", Prop: "C14",
		What: "closing the consumer before, while and after 2 partitions of 3 messages are handed on, with a slow receiver and while a session fails: closing returns, nothing is handed on afterwards and no offset is marked that was not handed on",
		Cfgs: deviations(2, 3, func(c *rt.Config) { c.Sched, c.Select, c.Timer = true, true, true }),
		Body: func() {
			br, want, offs := setup(2, 3, func(p, i int) int { return 0 })
			sc := []fake.Script{{}, {After: 2}, {Err: errors.New("no coordinator")}}[rt.Choose(3)]
			consumeAndCheck(br, want, offs, []fake.Script{sc}, true)
		}})
	explore.Add(&explore.Scenario{Name: "many sessions", Prop: "C14",
		What: "1 partition of 40 messages (every 5th damaged, every third of 1, 17, 34 or 140 kB as well) over 12 sessions ending after 1..6 messages with and without errors and losing their offsets, and errors of 12 kinds one after the other 50 or 500 times: everything is handed on in the end",
		Cfgs: noDeviations,
		Body: func() {
			how := 1 + rt.Choose(3)
			sz := []int{0, 1000, 17000, 70000}[rt.Choose(4)]
			size = func(i int) int { return sz * (1 + i%2) }
			defer func() { size = nil }()
			br, want, offs := setup(1, 40, func(p, i int) int {
				if i%5 == 4 {
					return how
				}
				return 0
			})
			var sc []fake.Script
			switch k := rt.Choose(8); k {
			case 6, 7:
				for i := 0; i < 50+450*(k-6); i++ {
					sc = append(sc, fake.Script{Err: sessionErrors[i%len(sessionErrors)]})
				}
			default:
				for i := 0; i < 12; i++ {
					x := fake.Script{After: k + 1}
					if i%2 == 1 {
						x.EndErr = sessionErrors[(k+i/2)%len(sessionErrors)]
						x.Lost = k%2 == 1 && i%4 == 3
					}
					sc = append(sc, x)
				}
			}
			consumeAndCheck(br, want, offs, sc, false)
		}})

	explore.Add(&explore.Scenario{Name: "runs of damaged messages", Prop: "C14",
		What: "2 partitions of 150 messages of which a run of 5, 12, 60 or 145 messages, all but every 2nd or all but every 20th are damaged in one of three ways, in one session, in sessions ending after 10 messages, or interrupted by errors: everything decodable is handed on",
		Cfgs: noDeviations,
		Body: func() {
			how := 1 + rt.Choose(3)
			k := rt.Choose(6)
			br, want, offs := setup(2, 150, func(p, i int) int {
				bad := false
				switch k {
				case 4:
					bad = i%2 == 0
				case 5:
					bad = i%20 != 7
				default:
					bad = i >= 2 && i < 2+[]int{5, 12, 60, 145}[k]
				}
				if bad && (p == 0 || k > 1) {
					return how
				}
				return 0
			})
			var sc []fake.Script
			switch rt.Choose(3) {
			case 1:
				for i := 0; i < 40; i++ {
					sc = append(sc, fake.Script{After: 10})
				}
			case 2:
				for i := 0; i < 6; i++ {
					sc = append(sc, fake.Script{Err: sarama.ErrOutOfBrokers}, fake.Script{After: 7})
				}
			}
			consumeAndCheck(br, want, offs, sc, false)
		}})

	// ---- C15 ----
	explore.Add(&explore.Scenario{Name: "interning at once", Race: true, Prop: "C15",
		What: "three goroutines interning 2-3 of 4 contents (equal and different, as string, copied slice that is overwritten right after, slice given away) while the cache is full of large strings: every interleaving at the locks and atomics within the deviations",
		Cfgs: deviations(5, 7, func(c *rt.Config) { c.Sched, c.Atomics = true, true }),
		Body: func() {
			fullCache := rt.Choose(2) == 1
			if fullCache {
				rt.Window(false)
				for i := 0; i < 6; i++ {
					cache.StringForByteSliceNoCopy(bytes.Repeat([]byte{byte('A' + i)}, 1<<20))
				}
				rt.Window(true)
			}
			type held struct{ got, want string }
			var hs []held
			keep := func(got, want string) {
				if got != want {
					rt.Fail("%q is interned as %q", want, got)
				}
				hs = append(hs, held{got, want})
			}
			cp := func(want string) {
				b := []byte(want)
				g := cache.StringForByteSliceCopy(b)
				keep(g, want)
				for i := range b {
					b[i] = '#'
				}
			}
			big := strings.Repeat("B", 1<<20)
			join(func() { cp("hello"); keep(cache.String("world"), "world"); cp("hello") },
				func() {
					cp("hello")
					keep(cache.StringForByteSliceNoCopy([]byte("world")), "world")
				},
				func() { keep(cache.String(strings.Clone("hello")), "hello"); keep(cache.String(big), big); cp("world") })
			cp("hello")
			for _, h := range hs {
				if h.got != h.want {
					rt.Fail("the result of interning %q became %q", h.want, h.got)
				}
			}
		}})
	explore.Add(&explore.Scenario{Name: "metrics at once", Race: true, Prop: "C30",
		What: "two goroutines interning contents while a third and a fourth read all metrics of the cache, from the very start, with an empty or a full cache: every interleaving at the locks and atomics within the deviations",
		Cfgs: deviations(3, 4, func(c *rt.Config) { c.Sched, c.Atomics = true, true }),
		Body: func() {
			if rt.Choose(2) == 1 {
				rt.Window(false)
				for i := 0; i < 6; i++ {
					cache.StringForByteSliceNoCopy(bytes.Repeat([]byte{byte('A' + i)}, 1<<20))
				}
				rt.Window(true)
			}
			r := metrics.NewRegistry()
			cache.RegisterCacheMetrics(r)
			byName := map[string]func() float64{}
			var names []string
			r.Each(func(name string, m interface{}) {
				names = append(names, name)
				switch m := m.(type) {
				case metrics.Gauge:
					byName[name] = func() float64 { return float64(m.Value()) }
				case metrics.GaugeFloat64:
					byName[name] = m.Value
				case metrics.Meter:
					byName[name] = func() float64 { return float64(m.Count()) }
				default:
					byName[name] = func() float64 { return 0 }
				}
			})
			sort.Strings(names)
			var all []func() float64
			for _, name := range names {
				all = append(all, byName[name])
			}
			read := func() {
				for _, f := range all {
					if v := f(); v < 0 || v > 8<<20 {
						rt.Fail("a metric of the cache is %v", v)
					}
				}
			}
			intern := func() {
				for _, w := range []string{"hello", "world"} {
					if g := cache.StringForByteSliceCopy([]byte(w)); g != w {
						rt.Fail("%q is interned as %q", w, g)
					}
				}
			}
			join(read, intern, intern, read)
			read()
			intern()
		}})
}

// consumeAndCheck consumes until everything was handed on (or closes early), with all checks of C14.
// sessionErrors are errors with which sessions end and from which consuming
// recovers.
var sessionErrors = []error{
	errors.New("no coordinator"), sarama.ErrOutOfBrokers, sarama.ErrRequestTimedOut, sarama.ErrUnknownMemberId,
	sarama.ErrRebalanceInProgress, io.EOF, sarama.ErrIllegalGeneration, sarama.ErrNotCoordinatorForConsumer,
	fmt.Errorf("joining: %w", sarama.ErrConsumerCoordinatorNotAvailable), io.ErrUnexpectedEOF,
	&net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused")}, sarama.ErrNotConnected,
}

func consumeAndCheck(br *fake.Broker, want [][]proxy.Span, offs [][]int64, scripts []fake.Script, early bool) {
	g := fake.NewGroup(br)
	g.Scripts = scripts
	type key struct {
		part int32
		off  int64
	}
	handed := map[key]int{}
	var log []key
	index := func(s proxy.Span) key {
		p := int(s.Trace) - 10
		for i, w := range want[p] {
			if ref.Equal(s, w) {
				return key{int32(p), offs[p][i]}
			}
		}
		rt.Fail("a span was handed on that is in no message: %s", ref.Show(s))
		return key{}
	}
	g.Marking = func(part int32, off int64) {
		// everything up to off counts as processed for good
		for i := int64(0); i <= off; i++ {
			for _, o := range offs[part] {
				if o == i && handed[key{part, o}] == 0 {
					rt.Fail("offset %d of partition %d is marked before message %d was handed on", off, part, o)
				}
			}
		}
	}
	closed := false
	slow := 0
	if early {
		slow = rt.Choose(2)
	}
	cb := func(s proxy.Span) {
		rt.Point("callback")
		if closed {
			rt.Fail("a span was handed on after closing returned")
		}
		if slow == 1 {
			rt.Sleep(30 * time.Millisecond)
		}
		k := index(s)
		handed[k]++
		log = append(log, k)
	}
	stop := balance.Consume(g, sys.Topic, cb)
	if early {
		n := rt.Choose(4)
		if n < 3 {
			rt.WaitFor("some messages", func() bool { return len(log) >= n*2 || rt.Elapsed() > 5*time.Second })
		} else {
			rt.Sleep(time.Second)
		}
	} else {
		rt.Sleep(5*time.Second + time.Duration(len(scripts))*time.Second)
	}
	stop()
	closed = true
	if g.Running != 0 || g.Active != 0 {
		rt.Fail("closing returned while %d sessions and %d claims were running", g.Running, g.Active)
	}
	calls := g.Calls
	rt.Sleep(3 * time.Second)
	if g.Calls != calls {
		rt.Fail("consuming continued after closing returned")
	}
	// per delivery exactly once and in partition order: what a claim was given is what was handed on
	total := 0
	for p := range want {
		last := map[int]int64{}
		var exp []int64
		for _, gv := range g.Given {
			if int(gv.Part) != p {
				continue
			}
			if l, ok := last[gv.Call]; ok && gv.Off != l+1 {
				rt.Fail("harness: order")
			}
			last[gv.Call] = gv.Off
			for _, o := range offs[p] {
				if o == gv.Off {
					exp = append(exp, o)
				}
			}
		}
		var got []int64
		for _, k := range log {
			if int(k.part) == p {
				got = append(got, k.off)
			}
		}
		total += len(got)
		if fmt.Sprint(got) != fmt.Sprint(exp) && !early {
			rt.Fail("partition %d: messages %v were delivered (decodable ones), %v were handed on", p, exp, got)
		}
		if early && (len(got) > len(exp) || fmt.Sprint(got) != fmt.Sprint(exp[:len(got)])) {
			rt.Fail("partition %d: messages %v were delivered (decodable ones), %v were handed on", p, exp, got)
		}
		if !early {
			for i, o := range offs[p] {
				if handed[key{int32(p), o}] == 0 {
					rt.Fail("message %d of partition %d (%s) was never handed on", o, p, ref.Show(want[p][i]))
				}
			}
			if n := len(offs[p]); n > 0 && br.Committed[p] <= offs[p][n-1] {
				rt.Fail("partition %d: everything is handed on but only the offsets below %d are marked", p, br.Committed[p])
			}
		}
	}
	rt.Digest(fmt.Sprint(log, g.Calls))
}
