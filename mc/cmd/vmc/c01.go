package main

import (
	"bytes"
	rcontext "context"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"
	context "verif/shim/vcontext"
	"verif/shim/vrand"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/fake"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

// span makes a plain root-less span with distinguishable values.
func span(trace, id, parent int) proxy.Span {
	return proxy.Span{Id: proxy.Id(id), Trace: proxy.Id(trace), Parent: proxy.Id(parent), Name: fmt.Sprintf("op-%d-%d", trace, id), Service: fmt.Sprintf("svc-%d", trace),
		Timestamp: at(time.Duration(id) * time.Millisecond), Duration: time.Duration(100+id) * time.Microsecond, Tags: map[string]string{"k": fmt.Sprint(trace, "/", id)}}
}

func seqSpans(trace, n int) (l []proxy.Span) {
	for i := 1; i <= n; i++ {
		x := span(trace, i, 1)
		if i == 2 {
			x.Tags["error"] = []string{"false", "0", "true", ""}[trace&3]
		}
		l = append(l, x)
	}
	return
}

type post struct {
	what, path, ctype string
	body              []byte
	err               error // of the connection, after the body
	want              []proxy.Span
	ok                bool
}

func posts() []post {
	var r []post
	for _, f := range ref.Formats {
		for n := 0; n <= 3; n++ {
			l := seqSpans(7, n)
			path, b := ref.Payload(f, l)
			r = append(r, post{what: fmt.Sprint("complete ", n), path: path, ctype: "application/json", body: b, want: tagged(f, l), ok: true})
			if n == 2 {
				r = append(r, post{what: "charset", path: path, ctype: "application/json; charset=utf-8", body: b, want: tagged(f, l), ok: true})
				for _, ct := range []string{"application/json;charset=UTF-8", "application/json; charset=iso-8859-1", "application/json; charset=\"utf-8\"", "application/json;odata=verbose", "application/json;"} {
					r = append(r, post{what: ct, path: path, ctype: ct, body: b, want: tagged(f, l), ok: true})
				}
				r = append(r, post{what: "leading space", path: path, ctype: "application/json", body: append([]byte(" \n\t"), b...), want: tagged(f, l), ok: true})
				r = append(r, post{what: "trailing space", path: path, ctype: "application/json", body: append(b[:len(b):len(b)], " \r\n"...), want: tagged(f, l), ok: true})
				if f == "v1" {
					for _, ct := range []string{"", "text/plain", "application/x-thrift", "application/javascript", "text/json", "json", "application/x-json", "application/xml", "multipart/form-data", "application/octet-stream"} {
						r = append(r, post{what: "content type " + ct, path: path, ctype: ct, body: b})
					}
				} else {
					r = append(r, post{what: "no content type", path: path, ctype: "", body: b, want: tagged(f, l), ok: true})
				}
				s := string(b)
				ok := map[string][]proxy.Span{} // further complete payloads with what they mean
				same := append(seqSpans(7, 2), seqSpans(7, 2)...)
				ok["the same spans twice"] = append(same, same[1], same[1])
				halves := seqSpans(7, 3)
				for i := range halves {
					halves[i].Id, halves[i].Parent = 5, 5
				}
				halves[0].Timings = proxy.Timings{CS: halves[0].Timestamp, CR: halves[0].Timestamp.Add(halves[0].Duration)}
				halves[1].Timings = proxy.Timings{SR: halves[1].Timestamp, SS: halves[1].Timestamp.Add(halves[1].Duration)}
				ok["reports with one id"] = halves
				odd := seqSpans(7, 6)
				odd[0].Id, odd[0].Parent = 0, 0
				odd[1].Trace = 0
				odd[2].Parent = odd[2].Id
				odd[3].Timestamp = 0
				odd[4].Name, odd[4].Service = "", ""
				odd[5].Id, odd[5].Trace, odd[5].Parent = -1, -1, -1
				odd[5].Duration = 0
				ok["odd spans"] = odd
				if f == "v1" {
					back := seqSpans(7, 2)
					back[0].Timings = proxy.Timings{CS: back[0].Timestamp, CR: back[0].Timestamp - 5000}
					back[0].Duration = 5 * time.Microsecond
					ok["client receive before client send"] = back
				}
				for _, k := range sortedKeys(ok) {
					pa, by := ref.Payload(f, ok[k])
					w := tagged(f, ok[k])
					for i := range w {
						if w[i].Duration == 0 {
							w[i].Duration = time.Millisecond
						}
						if k == "client receive before client send" && i == 0 {
							w[i].Duration = -w[i].Duration
						}
					}
					r = append(r, post{what: k, path: pa, ctype: "application/json", body: by, want: w, ok: true})
				}
				bad := map[string]string{
					"empty": "", "cut at the end": s[:len(s)-1], "cut within span 2": s[:len(s)*2/3], "cut after span 1": s[:strings.Index(s, "},{")+1], "cut after comma": s[:strings.Index(s, "},{")+2],
					"broken second id": strings.Replace(s, `"0000000000000002"`, `"000000000000000x"`, 1), "long second id": strings.Replace(s, `"0000000000000002"`, `"00000000000000002"`, 1),
					"number as id": strings.Replace(s, `"0000000000000002"`, `2`, 1), "string as duration": strings.Replace(s, `"duration":102`, `"duration":"102"`, 1),
					"number as name": strings.Replace(s, `"op-7-2"`, `5`, 1), "object as name": strings.Replace(s, `"op-7-2"`, `{}`, 1), "bad escape digits": strings.Replace(s, `"op-7-2"`, `"\u12g4"`, 1),
					"array as span": strings.Replace(s, "},{", "},[],{", 1), "text": "hello", "null bytes": "\x00\x00\x00\x00",
					"number too large": strings.Replace(s, `"duration":102`, `"duration":18446744073709551617`, 1), "text as number": strings.Replace(s, `"duration":102`, `"duration":1x`, 1),
					"null as span list": "null", "bool as name": strings.Replace(s, `"op-7-2"`, `true`, 1),
					"list as duration": strings.Replace(s, `"duration":102`, `"duration":[102]`, 1), "cut in first key": s[:strings.Index(s, ":")-1],
				}
				if f == "jaeger" {
					bad["array"] = "[]"
					delete(bad, "null as span list")
				} else {
					bad["object"] = "{}"
					bad["negative duration"] = strings.Replace(s, `"duration":102`, `"duration":-102`, 1)
				}
				for _, k := range sortedKeys(bad) {
					if bad[k] == s {
						panic("bad payload " + f + " " + k + " is the good one")
					}
					r = append(r, post{what: k, path: path, ctype: "application/json", body: []byte(bad[k])})
				}
				r = append(r, post{what: "connection lost", path: path, ctype: "application/json", body: b[:len(b)-3], err: io.ErrUnexpectedEOF})
			}
		}
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	for i := range k {
		for j := i + 1; j < len(k); j++ {
			if k[j] < k[i] {
				k[i], k[j] = k[j], k[i]
			}
		}
	}
	return k
}

func (p post) send(s *sys.Sys, cuts int) *sys.Resp {
	b := &sys.Body{Err: p.err, Chunked: cuts == 2}
	if cuts == 0 {
		b.Pieces = [][]byte{p.body}
	} else {
		for i := 0; i < len(p.body); i += 1 + len(p.body)/cuts {
			b.Pieces = append(b.Pieces, p.body[i:min(len(p.body), i+1+len(p.body)/cuts)])
		}
	}
	return s.PostBody(p.path, p.ctype, "", b)
}

// judge compares the answer of a request with what was handed on for it.
func (p post) judge(r *sys.Resp, got []proxy.Span) {
	switch {
	case p.ok && r.Code != 202:
		rt.Fail("%s %s (%s) is answered %d %s", p.path, p.what, p.body, r.Code, r.Body)
	case !p.ok && (r.Code < 400 || r.Code > 499):
		rt.Fail("%s %s (%s) is answered %d", p.path, p.what, clipb(p.body), r.Code)
	case !ref.EqualAll(got, p.want):
		rt.Fail("%s %s (%s), answered %d:\nhanded on %s\ninstead of %s", p.path, p.what, clipb(p.body), r.Code, ref.ShowAll(got), ref.ShowAll(p.want))
	}
}

func clipb(b []byte) string {
	if len(b) > 600 {
		return string(b[:600]) + fmt.Sprintf("... (%d bytes)", len(b))
	}
	return string(b)
}

func ofTrace(l []proxy.Span, trace proxy.Id) (r []proxy.Span) {
	for _, s := range l {
		if s.Trace == trace {
			r = append(r, s)
		}
	}
	return
}

func init() {
	ps := posts()
	explore.Add(&explore.Scenario{Name: "one request", Prop: "C01",
		What: fmt.Sprintf("%d request bodies (complete ones of 0-3 spans, every kind of damage, content types, lost connections) for the three endpoints, in one read or several, with a random number in the middle or at the end of its range, followed by a complete request", len(ps)),
		Cfgs: noDeviations,
		Body: func() {
			p := ps[rt.Choose(len(ps))]
			cuts := []int{0, 2, 5}[rt.Choose(3)]
			vrand.Extreme = rt.Choose(2) == 1
			s := sys.Boot(sys.Options{Kafka: true, NoConsume: true})
			r := p.send(s, cuts)
			rt.Sleep(2 * time.Second)
			p.judge(r, submitted(s.Producer))
			n := len(s.Producer.Msgs)
			next := seqSpans(8, 2)
			path, b := ref.Payload("v2", next)
			q := post{what: "afterwards", path: path, ctype: "application/json", body: b, want: tagged("v2", next), ok: true}
			r2 := q.send(s, 0)
			rt.Sleep(2 * time.Second)
			q.judge(r2, submitted(s.Producer)[n:])
			rt.Digest(fmt.Sprint(r.Code, " ", n))
		}})
	explore.Add(&explore.Scenario{Name: "whoever asks", Prop: "C01",
		What: "each one and two of 74 request headers clients and proxies send, 8 queries, 4 client addresses, 3 hosts and 3 protocol versions, for the three endpoints: a complete payload, the same once more, a damaged one",
		Cfgs: noDeviations,
		Body: func() {
			hs := strings.Split(`X-B3-Sampled: 0|X-B3-Sampled: 1|X-B3-Flags: 1|X-B3-TraceId: 7|b3: 0|traceparent: 00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-00|User-Agent: Mozilla/5.0|User-Agent: curl/7.1|User-Agent: okhttp/3|User-Agent: |Accept: */*|Accept: text/html|Accept: application/json|Accept: text/plain|Accept-Encoding: gzip|Accept-Encoding: identity|Accept-Encoding: gzip, deflate, br|Accept-Encoding: *;q=0|`+
				`Connection: close|Connection: keep-alive|Connection: Upgrade|Upgrade: h2c|Expect: 100-continue|X-Forwarded-For: 10.0.0.1|X-Forwarded-Proto: https|Forwarded: for=1|Via: 1.1 x|Authorization: Basic eDp5|Authorization: Bearer x|Cookie: a=b|Origin: http://example.com|Referer: http://example.com/|Idempotency-Key: 1|X-Request-Id: 1|X-Correlation-Id: 1|Content-Language: de|`+
				`Content-Encoding: identity|Content-Type-Options: nosniff|Content-Disposition: attachment|Content-MD5: x|Digest: x|Date: Thu, 01 Jan 1970 00:00:00 GMT|If-None-Match: *|If-Modified-Since: Thu, 01 Jan 1970 00:00:00 GMT|Cache-Control: no-cache|Pragma: no-cache|Range: bytes=0-5|TE: trailers|Trailer: X|DNT: 1|X-Requested-With: XMLHttpRequest|X-HTTP-Method-Override: GET|X-Method-Override: PUT|Sec-Fetch-Mode: cors|`+
				`Datadog-Meta-Lang: go|X-Datadog-Trace-Count: 0|X-Datadog-Sampling-Priority: -1|X-Datadog-Trace-Id: 7|uber-trace-id: 1:1:0:0|Warning: 199 x|Prefer: return=minimal|Max-Forwards: 0|From: x|Priority: u=7|Keep-Alive: timeout=1|Proxy-Connection: close|X-Real-IP: 127.0.0.1|X-Debug: true|X-Dry-Run: true|X-Priority: low`, "|")
			k := rt.Choose(len(hs) + 8 + 4 + 3 + 3)
			k2 := k
			if k < len(hs) {
				k2 = k + rt.Choose(len(hs)-k) // a second one
			}
			f := ref.Formats[rt.Choose(3)]
			s := sys.Boot(sys.Options{Kafka: true, NoConsume: true})
			what := ""
			s.Shape = func(r *http.Request) {
				i := k
				switch {
				case i < len(hs):
					what = hs[i] + " " + hs[k2]
					for _, i := range []int{i, k2} {
						h := strings.SplitN(hs[i], ": ", 2)
						r.Header.Set(h[0], h[1])
					}
					return
				}
				if i -= len(hs); i < 8 {
					r.URL.RawQuery = []string{"x", "dry", "debug=true", "limit=1", "a=1&b=2", "%zz", "lookback=5&service=x", "="}[i]
					r.RequestURI += "?" + r.URL.RawQuery
					what = r.URL.RawQuery
				} else if i -= 8; i < 4 {
					r.RemoteAddr = []string{"127.0.0.1:1", "[::1]:50000", "10.1.2.3:80", "@"}[i]
					what = r.RemoteAddr
				} else if i -= 4; i < 3 {
					r.Host = []string{"localhost", "zipkin.example.com:9411", ""}[i]
					what = "host " + r.Host
				} else {
					i -= 3
					r.Proto = []string{"HTTP/1.0", "HTTP/2.0", "HTTP/3.0"}[i]
					r.ProtoMajor, r.ProtoMinor = []int{1, 2, 3}[i], 0
					what = r.Proto
				}
			}
			l := seqSpans(7, 3)
			path, b := ref.Payload(f, l)
			p := post{what: "", path: path, ctype: "application/json", body: b, want: tagged(f, l), ok: true}
			bad := post{what: "damaged", path: path, ctype: "application/json", body: b[:len(b)-7]}
			for i, p := range []post{p, p, bad, p} {
				n := len(s.Producer.Msgs)
				r := p.send(s, []int{0, 2, 0, 0}[i])
				rt.Sleep(time.Second)
				p.what += " " + what
				p.judge(r, submitted(s.Producer)[n:])
			}
		}})
	explore.Add(&explore.Scenario{Name: "concurrent requests", Race: true, Prop: "C01",
		What: "four requests at once (v1 of 3 spans, v2 of 2 spans, jaeger of 2 spans, one cut off within its second span), each in 3 reads, to a Kafka producer that takes spans at any time: every interleaving within the deviations",
		Cfgs: deviations(2, 3, func(c *rt.Config) { c.Sched, c.Select, c.Pool = true, true, true }),
		Body: func() {
			s := sys.Boot(sys.Options{Kafka: true, NoConsume: true})
			var q []post
			for i, f := range []string{"v1", "v2", "jaeger", "v2"} {
				l := seqSpans(10+i, 3-i%3)
				if f != "v1" {
					l = seqSpans(10+i, 2)
				}
				path, b := ref.Payload(f, l)
				p := post{what: "request " + fmt.Sprint(i), path: path, ctype: "application/json", body: b, want: tagged(f, l), ok: true}
				if i == 3 {
					p.body, p.want, p.ok = b[:len(b)-20], nil, false
				}
				q = append(q, p)
			}
			rs := make([]*sys.Resp, len(q))
			var fs []func()
			for i := range q {
				fs = append(fs, func() { rs[i] = q[i].send(s, 2) })
			}
			join(fs...)
			rt.Sleep(2 * time.Second)
			got := submitted(s.Producer)
			n := 0
			order := ""
			for i := range q {
				part := ofTrace(got, proxy.Id(10+i))
				q[i].judge(rs[i], part)
				n += len(part)
			}
			for _, g := range got {
				order += fmt.Sprintf("%x.%x ", uint64(g.Trace), uint64(g.Id))
			}
			if n != len(got) {
				rt.Fail("%d spans handed on that no request contains", len(got)-n)
			}
			rt.Digest(order)
		}})
	explore.Add(&explore.Scenario{Name: "client goes away", Prop: "C01",
		What: "a payload of 700 spans of any format, sent in 1 or 3 reads, whose client closes the connection before it is read, in between, or while the spans wait for a producer that takes nothing for 5 s; or goes away as soon as it is answered; another client's payload meanwhile",
		Cfgs: deviations(1, 1, func(c *rt.Config) { c.Sched, c.Select = true, true }),
		Body: func() {
			f := ref.Formats[rt.Choose(3)]
			pieces := []int{1, 3}[rt.Choose(2)]
			when := []time.Duration{-1, 0, 50 * time.Millisecond, 2 * time.Second, time.Hour}[rt.Choose(5)]
			rt.Window(false)
			var pr *fake.Producer
			s := sys.Boot(sys.Options{Kafka: true, NoConsume: true, OnProducer: func(p *fake.Producer) {
				pr = p
				p.Gate = func() bool { return rt.Elapsed() > 5*time.Second }
			}})
			rt.Window(false)
			ctx, gone := context.WithCancel(rcontext.Background())
			if when < 0 {
				gone()
			}
			l := seqSpans(1, 700)
			path, b := ref.Payload(f, l)
			p := post{what: "with the client gone", path: path, body: b, want: tagged(f, l), ok: true}
			l2 := seqSpans(2, 300)
			path2, b2 := ref.Payload(f, l2)
			p2 := post{what: "meanwhile", path: path2, body: b2, want: tagged(f, l2), ok: true, ctype: "application/json"}
			var r, r2 *sys.Resp
			join(func() {
				body := &sys.Body{Pieces: cutEvery(b, 1+len(b)/pieces), Gate: func(i int) {
					if i > 0 {
						rt.Sleep(50 * time.Millisecond)
					}
				}}
				r = s.PostContext(ctx, path, "application/json", "", body)
				gone()
			}, func() {
				if when >= 0 && when < time.Minute {
					rt.Sleep(when)
					rt.Window(true)
					gone()
					rt.Window(false)
				}
			}, func() { rt.Sleep(time.Second); r2 = p2.send(s, 1) })
			rt.Sleep(10 * time.Second)
			got := submitted(pr)
			if r.Code != 202 {
				p.ok, p.want = false, nil
			}
			p.judge(r, ofTrace(got, 1))
			p2.judge(r2, ofTrace(got, 2))
			rt.Digest(fmt.Sprint(r.Code, r.At))
		}})
	explore.Add(&explore.Scenario{Name: "large request", Prop: "C01", Heavy: true,
		What: "one payload of any format of 30000 spans of 7 traces in turn, of 110000 small spans, of 12000 spans of 1 kB of 5 traces in turn and with descending ids, of 9000 times the same span, of 40 spans of 300 kB, of one span of 12 MB or of 3 spans and 70 MB of blanks, with or without a Content-Length, as it is or damaged at its very end, to a producer that is fast or takes 20000 spans a second",
		Cfgs: noDeviations,
		Body: func() {
			f := ref.Formats[rt.Choose(3)]
			kind := rt.Choose(7)
			chunked := kind < 6 && rt.Choose(2) == 1
			ok := rt.Choose(2) == 0
			slow := kind < 6 && rt.Choose(2) == 1
			var l []proxy.Span
			switch kind {
			case 0:
				for i := 1; i <= 30000; i++ {
					l = append(l, span(1+i*3%7, i, 1+i%2))
				}
			case 1:
				for i := 12000; i > 0; i-- {
					l = append(l, span(1+i*2%5, i/2, 1))
				}
				for i := range l {
					l[i].Tags["text"] = strings.Repeat("x", 1000)
				}
			case 2:
				for i := 0; i < 9000; i++ {
					l = append(l, span(1, 5, 1))
				}
			case 3:
				l = seqSpans(1, 40)
				for i := range l {
					l[i].Tags["text"] = strings.Repeat("x", 300<<10+i)
				}
			case 4:
				l = seqSpans(1, 1)
				l[0].Tags["text"] = strings.Repeat("x", 12<<20)
			case 5:
				l = seqSpans(1, 3)
			case 6:
				for i := 1; i <= 110000; i++ {
					l = append(l, proxy.Span{Trace: proxy.Id(1 + i/20000), Id: proxy.Id(i), Parent: 1, Timestamp: base, Duration: 1000})
				}
			}
			s := sys.Boot(sys.Options{Kafka: true, NoConsume: true, OnProducer: func(p *fake.Producer) {
				if slow {
					p.Gate = func() bool { return time.Duration(len(p.Msgs))*time.Second/20000 <= rt.Elapsed() }
				}
			}})
			path, b := ref.Payload(f, l)
			if kind == 5 {
				b = append(append(append([]byte{}, b[:len(b)-1]...), bytes.Repeat([]byte(" "), 70<<20)...), b[len(b)-1])
			}
			p := post{what: "large", path: path, ctype: "application/json", body: b, want: tagged(f, l), ok: true}
			if !ok {
				p.body, p.want, p.ok = b[:len(b)-1], nil, false
			}
			cuts := 5
			if chunked {
				cuts = 2
			}
			r := p.send(s, cuts)
			rt.Sleep(5 * time.Second)
			if got := submitted(s.Producer); p.ok && (r.Code != 202 || !ref.EqualAll(got, p.want)) {
				rt.Fail("%s of %d spans, %d bytes, is answered %d and %d spans are handed on, or others", path, len(l), len(b), r.Code, len(got))
			} else if !p.ok && (r.Code < 400 || r.Code > 499 || len(got) != 0) {
				rt.Fail("%s of %d spans, %d bytes without the last one, is answered %d and %d spans are handed on", path, len(l), len(b), r.Code, len(got))
			}
			rt.Digest(fmt.Sprint(r.Code, r.At))
		}})
	explore.Add(&explore.Scenario{Name: "slow processing", Prop: "C01",
		What: "one or two payloads of 6000 spans of any format while the producer takes nothing for 5 s, then everything, or stops again after some until 20 s or 5 minutes: answered 202 only once they are handed on, complete and in order; a damaged large payload is rejected as a whole meanwhile",
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			f := ref.Formats[rt.Choose(3)]
			two := rt.Choose(2) == 1
			how := rt.Choose(4)
			stopAt := []int{1 << 30, 300, 4000, 4000}[how]
			until := 20 * time.Second
			if how == 3 {
				until = 5 * time.Minute
			}
			var pr *fake.Producer
			s := sys.Boot(sys.Options{Kafka: true, NoConsume: true, OnProducer: func(p *fake.Producer) {
				pr = p
				p.Gate = func() bool {
					e := rt.Elapsed()
					return e > 5*time.Second && (len(p.Msgs) < stopAt || e > until)
				}
			}})
			const n = 6000
			mk := func(trace int) post {
				l := seqSpans(trace, n)
				path, b := ref.Payload(f, l)
				return post{what: "large", path: path, ctype: "application/json", body: b, want: tagged(f, l), ok: true}
			}
			q := []post{mk(1)}
			if two {
				q = append(q, mk(2))
			}
			bad := mk(3)
			bad.body, bad.ok, bad.want = bad.body[:len(bad.body)-9], false, nil
			q = append(q, bad)
			rs := make([]*sys.Resp, len(q))
			var fs []func()
			for i := range q {
				fs = append(fs, func() {
					rs[i] = q[i].send(s, 0)
					if q[i].ok {
						// whatever is not taken off yet has to fit into the queues in front of the producer
						if left := n*(len(q)-1) - len(pr.Msgs); left > n/2+n*(len(q)-2) {
							rt.Fail("answered %d at %s, although only %d of %d spans are taken off", rs[i].Code, rs[i].At, len(pr.Msgs), n*(len(q)-1))
						}
					}
				})
			}
			fs = append(fs, func() { rt.Sleep(until + 10*time.Second) })
			join(fs...)
			got := submitted(pr)
			for i := range q {
				q[i].judge(rs[i], ofTrace(got, proxy.Id(i+1)))
			}
			rt.Digest(fmt.Sprint(rs[0].At, len(got)))
		}})
}
