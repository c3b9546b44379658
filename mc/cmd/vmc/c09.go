package main

import (
	"fmt"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"io"
	"verif/explore"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

var parsers = map[string]func(io.Reader) ([]proxy.Span, error){"v1": codec.ParseJsonV1, "v2": codec.ParseJsonV2, "jaeger": codec.ParseJaeger}

func full(trace, n int) []proxy.Span {
	l := seqSpans(trace, n)
	for i := range l {
		l[i].Timings = proxy.Timings{CS: l[i].Timestamp, CR: l[i].Timestamp.Add(l[i].Duration)}
		l[i].AddTag(fmt.Sprint("tag", trace, i), fmt.Sprint("value", trace, i))
	}
	return l
}

// bare are spans with hardly any field.
func bare(f string, trace, n int) (b []byte, want []proxy.Span) {
	t := "["
	for i := 0; i < n; i++ {
		if i > 0 {
			t += ","
		}
		k := "traceId"
		if f == "jaeger" {
			k = "traceID"
		}
		t += fmt.Sprintf(`{"%s":"%x"}`, k, trace)
		want = append(want, proxy.Span{Trace: proxy.Id(trace), Duration: 1000000, Tags: map[string]string{"protocolVersion": ref.ProtocolTag(f)}})
	}
	t += "]"
	if f == "jaeger" {
		t = `{"data":[{"spans":` + t + `}]}`
	}
	return []byte(t), want
}

func init() {
	explore.Add(&explore.Scenario{Name: "parsers at once", Race: true, Prop: "C09",
		What: "three decodings at the same time (spans with every field, spans with hardly any, one failing half way) of any formats, in reads of 1/3 of the body, then a fourth: every interleaving at the reads, pools and locks and every pool answer within the deviations; results compared at the end",
		Cfgs: deviations(3, 4, func(c *rt.Config) { c.Sched, c.Pool = true, true }),
		Body: func() {
			fa, fb := ref.Formats[rt.Choose(2)], ref.Formats[rt.Choose(3)]
			_, full1 := ref.Payload(fa, full(1, 3))
			b2, want2 := bare(fb, 2, 4)
			_, b3 := ref.Payload(fa, full(3, 3))
			b3 = b3[:len(b3)-30]
			b4, want4 := bare(fa, 4, 5)
			jobs := []struct {
				f    string
				b    []byte
				want []proxy.Span
			}{{fa, full1, tagged(fa, full(1, 3))}, {fb, b2, want2}, {fa, b3, nil}, {fa, b4, want4}}
			got := make([][]proxy.Span, 4)
			run := func(i int) {
				j := jobs[i]
				l, err := parsers[j.f](&sys.Body{Pieces: cutEvery(append([]byte{}, j.b...), 1+len(j.b)/3)})
				if (err == nil) != (j.want != nil) {
					rt.Fail("%s body %s: error %v", j.f, clipb(j.b), err)
				}
				got[i] = l
				if err == nil && !ref.EqualAll(l, j.want) {
					rt.Fail("%s body %s\nis decoded to %s\ninstead of %s", j.f, clipb(j.b), ref.ShowAll(l), ref.ShowAll(j.want))
				}
			}
			join(func() { run(0) }, func() { run(1) }, func() { run(2) })
			run(3)
			run(1)
			for i, j := range jobs {
				if j.want != nil && !ref.EqualAll(got[i], j.want) {
					rt.Fail("%s body %s: the decoded spans became %s", j.f, clipb(j.b), ref.ShowAll(got[i]))
				}
			}
		}})
	explore.Add(&explore.Scenario{Name: "two decodings", Prop: "C09",
		What: "two decodings of 2 spans of the same format at the same time after one that failed: every interleaving and pool answer within more deviations",
		Cfgs: deviations(4, 6, func(c *rt.Config) { c.Sched, c.Pool, c.Atomics = true, true, true }),
		Body: func() {
			f := ref.Formats[rt.Choose(2)]
			_, a := ref.Payload(f, full(1, 2))
			_, x := ref.Payload(f, full(3, 3))
			if _, err := parsers[f](&sys.Body{Pieces: cutEvery(x[:len(x)-2], 0)}); err == nil {
				rt.Fail("a cut body is accepted")
			}
			b, want := bare(f, 2, 2)
			wa := tagged(f, full(1, 2))
			var ra, rb []proxy.Span
			join(func() { ra, _ = parsers[f](&sys.Body{Pieces: cutEvery(a, 1+len(a)/2)}) },
				func() { rb, _ = parsers[f](&sys.Body{Pieces: cutEvery(b, 1+len(b)/2)}) })
			if !ref.EqualAll(ra, wa) || !ref.EqualAll(rb, want) {
				rt.Fail("%s bodies decoded at the same time give\n%s\n%s\ninstead of\n%s\n%s", f, ref.ShowAll(ra), ref.ShowAll(rb), ref.ShowAll(wa), ref.ShowAll(want))
			}
		}})
	explore.Add(&explore.Scenario{Name: "requests after requests", Prop: "C09",
		What: "two requests in a row out of 13 kinds (each format plain and compressed, damaged, cut, not gzip, lost connection, wrong content type, unknown path), then two of any format at the same time, one of them compressed: each is judged on its own",
		Cfgs: deviations(1, 2, func(c *rt.Config) { c.Sched, c.Select, c.Pool = true, true, true }),
		Body: func() {
			const kinds = 13
			k1, k2 := rt.Choose(kinds), rt.Choose(kinds)
			fc := ref.Formats[(k1+2*k2)%3]
			fd := ref.Formats[(k1+k2/2)%3]
			rt.Window(false)
			s := sys.Boot(sys.Options{Kafka: true, NoConsume: true})
			rt.Window(false)
			done := 0
			do := func(trace, k int) {
				f := ref.Formats[k%3]
				l := full(trace, 2)
				path, b := ref.Payload(f, l)
				p := post{what: fmt.Sprint("request ", trace, " kind ", k), path: path, ctype: "application/json", body: b, want: tagged(f, l), ok: true}
				enc := ""
				switch {
				case k < 3:
				case k < 6:
					enc, p.body = "gzip", sys.Gzip(b)
				case k == 6:
					p.body, p.ok = b[:len(b)-4], false
				case k == 7:
					enc, p.body, p.ok = "gzip", sys.Gzip(b)[:len(sys.Gzip(b))/2], false
				case k == 8:
					enc, p.ok = "gzip", false
				case k == 9:
					p.err, p.body, p.ok = io.ErrUnexpectedEOF, b[:len(b)/2], false
				case k == 10:
					p.path, p.ctype, p.ok = "/api/v1/spans", "text/plain", false
				case k == 11:
					p.path, p.ok = "/api/v3/spans", false
				case k == 12:
					z := sys.Gzip(b)
					z[len(z)/2] ^= 0x55
					enc, p.body, p.ok = "gzip", z, false
				}
				if !p.ok {
					p.want = nil
				}
				r := s.PostBody(p.path, p.ctype, enc, &sys.Body{Pieces: cutEvery(p.body, 1+len(p.body)/2), Err: p.err})
				rt.WaitFor("handed on", func() bool { return r.Code != 202 || len(s.Producer.Msgs) >= done+len(p.want) || trace > 2 })
				if trace <= 2 {
					got := submitted(s.Producer)
					p.judge(r, got[done:])
					done = len(got)
				} else if r.Code != 202 {
					rt.Fail("%s is answered %d", p.what, r.Code)
				}
			}
			do(1, k1)
			do(2, k2)
			rt.Window(true)
			ic, id := 0, 0
			for i, f := range ref.Formats {
				if f == fc {
					ic = i
				}
				if f == fd {
					id = i + 3
				}
			}
			join(func() { do(3, ic) }, func() { do(4, id) })
			rt.Window(false)
			rt.Sleep(time.Second)
			got := submitted(s.Producer)
			for i, f := range []string{fc, fd} {
				if part := ofTrace(got, proxy.Id(3+i)); !ref.EqualAll(part, tagged(f, full(3+i, 2))) {
					rt.Fail("after requests of kinds %d and %d, a %s request sent at the same time as a %s request is handed on as %s", k1, k2, f, []string{fd, fc}[i], ref.ShowAll(part))
				}
			}
			if len(got) != done+4 {
				rt.Fail("%d spans handed on instead of 4", len(got)-done)
			}
		}})
}
