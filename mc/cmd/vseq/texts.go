package main

import (
	"fmt"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/ref"
)

// Texts are taken as they are, blanks and control characters included.

func init() {
	for _, q := range []struct{ prop, f string }{{"C05", "v1"}, {"C06", "v2"}, {"C07", "jaeger"}} {
		explore.AddSeq(&explore.Seq{Name: "texts " + q.prop, Prop: q.prop,
			What: "name, service, tag key and tag value, each alone and all pairs of them, one of 34 texts with blanks, control characters, Unicode spaces, dashes, quotes, letters of both cases, other scripts or 5000 characters",
			Run: func(c *explore.C) {
				l := []string{"", " ", "  ", " x", "x ", "\tx", "x\n", "x\r\n", "\u00a0x", "x\u2003", "\u3000", "x\x00", "\x00", "\x00x", "\ufeffx", "x\u0085", " a  b ", "\x1f", "\x7f", "-", "_", "null", "true", "0", "GET /A/b?c=d", "ÄÖÜ", "ß", "日本", "😀", "e\u0301", `"`, `\`, "a.b-c/d", long(5000)}
				where := func(s *proxy.Span, k int, t string) bool {
					switch k {
					case 0:
						s.Name = t
					case 1:
						s.Service = t
					case 2:
						s.AddTag("key", t)
					case 3:
						if q.f == "v1" && t == "" {
							return false
						}
						s.AddTag(t, "value")
					}
					return true
				}
				run := func(name string, s proxy.Span) {
					if !c.Next(func() string { return q.f + " " + name }) {
						return
					}
					want := ref.Clone(s)
					want.AddTag("protocolVersion", ref.ProtocolTag(q.f))
					_, b := ref.Payload(q.f, []proxy.Span{s})
					expect(c, q.f, b, []proxy.Span{want})
				}
				for i, t := range l {
					for k := 0; k < 4; k++ {
						s := proxy.Span{Id: 3, Trace: 7, Parent: 1, Name: "name", Service: "service", Timestamp: 5000000, Duration: 3000000, Tags: map[string]string{"k": "v"}}
						if where(&s, k, t) {
							run(fmt.Sprintf("text %d at %d", i, k), s)
						}
						for j, u := range l {
							for m := k + 1; m < 4; m++ {
								x := ref.Clone(s)
								if where(&x, k, t) && where(&x, m, u) {
									run(fmt.Sprintf("text %d at %d, text %d at %d", i, k, j, m), x)
								}
							}
						}
					}
				}
			}})
	}
}

func long(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%23)
	}
	return string(b)
}
