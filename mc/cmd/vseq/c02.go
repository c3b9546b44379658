package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/ref"
)

// pieces delivers a body in given pieces; an empty piece is a read that returns nothing.
type pieces struct {
	p    [][]byte
	with bool // EOF with the last piece
}

func (r *pieces) Read(b []byte) (int, error) {
	if len(r.p) == 0 {
		return 0, io.EOF
	}
	n := copy(b, r.p[0])
	r.p[0] = r.p[0][n:]
	if len(r.p[0]) == 0 {
		r.p = r.p[1:]
	}
	if len(r.p) == 0 && r.with {
		return n, io.EOF
	}
	return n, nil
}

type decoded struct {
	spans []proxy.Span
	err   error
}

func whole(format string, doc []byte) decoded {
	s, err := parse(format, append([]byte{}, doc...))
	return decoded{s, err}
}

func splitAt(doc []byte, cuts ...int) [][]byte {
	var r [][]byte
	p := 0
	for _, c := range append(cuts, len(doc)) {
		r = append(r, append([]byte{}, doc[p:c]...))
		p = c
	}
	return r
}

func checkSplit(c *explore.C, format string, doc []byte, want decoded, what string, p [][]byte, with bool) {
	got, err := parsers[format](&pieces{p, with})
	c.Ops(1)
	if (err == nil) != (want.err == nil) {
		c.Fail("%s body %s, %s, EOF with the last bytes=%v: error %v, delivered at once: error %v", format, clip(string(doc)), what, with, err, want.err)
	}
	if err == nil && !ref.EqualAll(got, want.spans) {
		c.Fail("%s body %s, %s, EOF with the last bytes=%v: decoded to %s\ndelivered at once: %s", format, clip(string(doc)), what, with, ref.ShowAll(got), ref.ShowAll(want.spans))
	}
}

func init() {
	explore.AddSeq(&explore.Seq{Name: "read splits", Prop: "C02",
		What: "12 small complete, broken and truncated bodies per format: every split into 2 and 3 reads (thorough: 4 for bodies up to 70 bytes), every fixed read size, with empty reads in between, EOF with or after the last bytes",
		Run: func(c *explore.C) {
			for _, f := range formats {
				var docs []string
				docs = append(docs, corpus(f)...)
				docs = append(docs, "", "[", " ", `[{"name":"a\u00e9\ud83d\ude00b\\","id":"1f"}]`, `[{"id":"x"}]`, `[{"name":"abc`, `[{"timestamp":1500000000000001,"duration":12}] `, `{"data":[{"spans":[{"operationName":"a\u00e9","spanID":"1f"}]}]} x`)
				for _, doc := range docs {
					b := []byte(doc)
					var want *decoded
					get := func() decoded {
						if want == nil {
							w := whole(f, b)
							want = &w
						}
						return *want
					}
					for size := 1; size <= len(b)+1; size++ {
						if c.Next(func() string { return fmt.Sprintf("%s reads of %d bytes: %s", f, size, clip(doc)) }) {
							for _, with := range []bool{false, true} {
								for _, empty := range []bool{false, true} {
									var p [][]byte
									for i := 0; i < len(b); i += size {
										if empty {
											p = append(p, nil)
										}
										p = append(p, append([]byte{}, b[i:min(len(b), i+size)]...))
									}
									if empty {
										p = append(p, nil)
									}
									checkSplit(c, f, b, get(), fmt.Sprintf("reads of %d bytes, empty reads %v", size, empty), p, with)
								}
							}
						}
					}
					for i := 0; i <= len(b); i++ {
						if c.Next(func() string { return fmt.Sprintf("%s split at %d and everywhere after: %s", f, i, clip(doc)) }) {
							for j := i; j <= len(b); j++ {
								for _, with := range []bool{false, true} {
									checkSplit(c, f, b, get(), fmt.Sprintf("split at %d and %d", i, j), splitAt(b, i, j), with)
								}
							}
							if len(b) <= 70 && c.Thorough {
								for j := i; j <= len(b); j++ {
									for k := j; k <= len(b); k++ {
										checkSplit(c, f, b, get(), fmt.Sprintf("split at %d, %d and %d", i, j, k), splitAt(b, i, j, k), k%2 == 0)
									}
								}
							}
						}
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "long bodies", Prop: "C02",
		What: "bodies in which each of 14 kinds of token starts at every offset around the internal buffer sizes (512, 4096, 8192, 16384, 24576): delivered at once, in reads of 1, 7, 512, 4095, 4096, 4097, 8191, 8192, 8193 bytes and split at each of the last 40 bytes before and after the buffer end: always the spans written",
		Run: func(c *explore.C) {
			toks := []struct {
				src string
				set func(s *proxy.Span)
			}{
				{`"name":"straddling"`, func(s *proxy.Span) { s.Name = "straddling" }},
				{`"name":"a\"b\\c\u00e9\ud83d\ude00\n"`, func(s *proxy.Span) { s.Name = "a\"b\\c\u00e9\U0001F600\n" }},
				{`"name":"\u20ac\u20ac\u20ac\u20ac"`, func(s *proxy.Span) { s.Name = "€€€€" }},
				{`"timestamp":1500000000000001`, func(s *proxy.Span) { s.Timestamp = 1500000000000001000 }},
				{`"duration":1234567`, func(s *proxy.Span) { s.Duration = 1234567000 }},
				{`"parentId":"1234567890abcdef"`, func(s *proxy.Span) { s.Parent = 0x1234567890abcdef }},
				{`"parentId":null`, func(s *proxy.Span) {}},
				{`"x":true`, func(s *proxy.Span) {}},
				{`"x":-12.5e-10`, func(s *proxy.Span) {}},
				{`"x":{"a":[1,2,{"b":"]}"}]}`, func(s *proxy.Span) {}},
				{`"xyzxyzxyz\"\\":null`, func(s *proxy.Span) {}},
				{"\"x\"  \n :\t \r 1 ", func(s *proxy.Span) {}},
			}
			sizes := []int{1, 7, 512, 4095, 4096, 4097, 8191, 8192, 8193}
			for _, f := range []string{"v1", "v2"} {
				for ti, t := range toks {
					for _, edge := range []int{512, 4096, 8192, 16384, 24576} {
						for off := -len(t.src) - 2; off <= 2; off++ {
							if !c.Next(func() string { return fmt.Sprintf("%s token %d at %d%+d", f, ti, edge, off) }) {
								continue
							}
							pre := `[{"traceId":"a","id":"b","y":"`
							fill := edge + off - len(pre) - len(`",`)
							body := pre + strings.Repeat("f", fill) + `",` + t.src + `},{"id":"c","name":"next"}]`
							s1 := proxy.Span{Id: 0xb, Trace: 0xa, Duration: 1000000, Tags: map[string]string{"protocolVersion": ref.ProtocolTag(f)}}
							s2 := proxy.Span{Id: 0xc, Name: "next", Duration: 1000000, Tags: map[string]string{"protocolVersion": ref.ProtocolTag(f)}}
							t.set(&s1)
							want := decoded{spans: []proxy.Span{s1, s2}}
							b := []byte(body)
							expect(c, f, b, want.spans)
							for _, n := range sizes {
								if n < 512 && edge > 8192 && !c.Thorough {
									continue
								}
								var p [][]byte
								for i := 0; i < len(b); i += n {
									p = append(p, append([]byte{}, b[i:min(len(b), i+n)]...))
								}
								checkSplit(c, f, b, want, fmt.Sprintf("reads of %d bytes", n), p, n%2 == 0)
							}
							if c.Thorough || off%4 == 0 {
								for d := -40; d <= 40; d++ {
									if edge+d < len(b) {
										checkSplit(c, f, b, want, fmt.Sprintf("split at %d", edge+d), splitAt(b, edge+d), d%2 == 0)
									}
								}
							}
						}
					}
				}
			}
		}})
}
