package main

import (
	"fmt"
	"io"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/fake"
	"verif/ref"
	"verif/rt"
	"verif/sys"
)

// A request is answered alike after any number of others, and however many are under way.

type badRequest struct {
	name, ctype, enc string
	body             func(format string, whole []byte) []byte
	broken           bool // the connection breaks instead of the body ending
}

var badRequests = []badRequest{
	{"cut off", "application/json", "", func(f string, b []byte) []byte { return b[:len(b)-3] }, false},
	{"broken connection", "application/json", "", func(f string, b []byte) []byte { return b[:len(b)/2] }, true},
	{"compressed and cut off", "application/json", "gzip", func(f string, b []byte) []byte { return sys.Gzip(b[:len(b)-3]) }, false},
	{"compressed data cut off", "application/json", "gzip", func(f string, b []byte) []byte { g := sys.Gzip(b); return g[:len(g)/2] }, false},
	{"not compressed", "application/json", "gzip", func(f string, b []byte) []byte { return b }, false},
	{"bad id", "application/json", "", func(f string, b []byte) []byte {
		bad := map[string]string{"v1": `,{"id":"x"}]`, "v2": `,{"id":"x"}]`, "jaeger": `]},{"spans":[{"spanID":"x"}]}]}`}[f]
		cut := 1
		if f == "jaeger" {
			return []byte(`{"data":[{"spans":[{"spanID":"1","traceID":"1"}` + bad)
		}
		return append(append([]byte{}, b[:len(b)-cut]...), bad...)
	}, false},
	{"empty", "application/json", "", func(f string, b []byte) []byte { return nil }, false},
}

func (q badRequest) post(s *sys.Sys, format string, l []proxy.Span) *sys.Resp {
	path, b := ref.Payload(format, l)
	body := &sys.Body{Pieces: [][]byte{q.body(format, b)}}
	if q.broken {
		body.Err = io.ErrUnexpectedEOF
	}
	return s.PostBody(path, q.ctype, q.enc, body)
}

func manyClients(n int) func() {
	return func() {
		q := badRequests[rt.Choose(len(badRequests))]
		f := ref.Formats[rt.Choose(3)]
		how := rt.Choose(3) // one after the other, all at once, at once with good ones
		var s *sys.Sys
		s = sys.Boot(sys.Options{Kafka: true, NoConsume: true, OnProducer: func(p *fake.Producer) {
			p.Gate = func() bool { return rt.Elapsed() > 5*time.Second }
		}})
		one := seqSpans(0x55, 2)
		bad := func() {
			if r := q.post(s, f, one); r.Code < 400 || r.Code > 499 {
				rt.Fail("a request (%s, %s) is answered %d %s", f, q.name, r.Code, clips(r.Body))
			}
		}
		want := map[proxy.Id][]proxy.Span{}
		good := func(t int, zip bool) {
			f := ref.Formats[t%3]
			l := seqSpans(0x1000+t, 2)
			path, b := ref.Payload(f, l)
			enc := ""
			if zip {
				b, enc = sys.Gzip(b), "gzip"
			}
			if r := s.PostBody(path, "application/json", enc, &sys.Body{Pieces: [][]byte{b}}); r.Code != 202 {
				rt.Fail("a complete request (%s, compressed: %v) is answered %d %s", f, zip, r.Code, clips(r.Body))
			}
			want[proxy.Id(0x1000+t)] = tagged(f, l)
		}
		var fs []func()
		for i := 0; i < n; i++ {
			switch {
			case how == 0:
				bad()
			case how == 2:
				fs = append(fs, func() { good(10+i, i%2 == 0) })
				fallthrough
			default:
				fs = append(fs, bad)
			}
		}
		join(fs...)
		for t := 0; t < 6; t++ {
			good(t, t >= 3)
		}
		rt.Sleep(10 * time.Second)
		got := submitted(s.Producer)
		sum := 0
		for t, l := range want {
			sum += len(l)
			if g := ofTrace(got, t); !ref.EqualAll(g, l) {
				rt.Fail("handed on %s\ninstead of %s", clips(ref.ShowAll(g)), clips(ref.ShowAll(l)))
			}
		}
		if len(got) != sum {
			rt.Fail("%d spans of %d are handed on", len(got), sum)
		}
		rt.Digest(fmt.Sprint(sum))
	}
}

func init() {
	for n, p := range map[string]string{"many clients accepted": "C01", "many clients answered": "C02"} {
		explore.Add(&explore.Scenario{Name: n, Prop: p,
			What: fmt.Sprintf("400 requests of each format with each of %d kinds of damage (some compressed), one after the other, all at once, or at once with 400 complete requests, plain and compressed, that wait for a producer taking nothing for 5 s; then a complete request of every format, plain and compressed", len(badRequests)),
			Cfgs: noDeviations, Heavy: true,
			Body: manyClients(400)})
	}
}
