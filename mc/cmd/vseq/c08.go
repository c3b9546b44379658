package main

import (
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/ref"
)

var formats = []string{"v1", "v2", "jaeger"}

// incomplete tells whether body is a proper prefix of some JSON text (including nothing but whitespace).
func incomplete(body []byte) bool {
	var v json.RawMessage
	err := json.Unmarshal(body, &v)
	return err != nil && err.Error() == "unexpected end of JSON input"
}

// any checks that decoding ends in spans or an error, and in an error if the text is incomplete.
func anyBody(c *explore.C, format string, body []byte) {
	got, err := parse(format, body)
	c.Ops(1)
	if err != nil {
		if len(got) > 0 {
			c.Fail("%s payload %s: %d spans together with the error %v", format, clip(string(body)), len(got), err)
		}
		c.Outcome(format + err.Error())
		return
	}
	c.Outcome(format + fmt.Sprint(len(got)))
	if incomplete(body) {
		c.Fail("%s payload %s is incomplete but accepted with %d spans %s", format, clip(string(body)), len(got), ref.ShowAll(got))
	}
}

// corpus of complete payloads per format
func corpus(format string) []string {
	sp := []proxy.Span{
		{Id: 11, Trace: 10, Parent: 10, Name: "get \"x\" \\ é \U0001F600", Service: "svc", Timestamp: 1500000000000001000, Duration: 7000, Tags: map[string]string{"a": "1", "b\n": "}]"},
			Timings: proxy.Timings{CS: 1500000000000001000, CR: 1500000000000008000}},
		{Id: 12, Trace: 10, Parent: 11, Name: "", Service: "", Timestamp: 1, Duration: 0},
	}
	_, b := ref.Payload(format, sp)
	l := []string{string(b)}
	switch format {
	case "v1":
		l = append(l, "["+obj(v1Fields(v1AnDef, v1BinDef))+"]", ` [ { "x" : [ 1 , -2.5E+3, null , true, {"y":{"z":[]}} ] , "id":"a" , "traceId" : null } ] `, `[{"parentId":null,"binaryAnnotations":[{"key":"k","value":null},{"key":"n","value":-1.5e-3},{"key":"t","value":false}]}]`, `[]`)
	case "v2":
		l = append(l, "["+obj(v2Fields(v2Endpoint, v2Tags))+"]", ` [ { "x" : [ 1 , -2.5E+3, null , true, {"y":{"z":[]}} ] , "id":"a" , "traceId" : null , "remoteEndpoint":{"port":1}, "annotations":[{"timestamp":1,"value":"\ud83d\ude00"}] } ] `, `[]`)
	case "jaeger":
		l = append(l, `{"data":[]}`, `{}`, `{"data":[{"spans":[{"traceID":"a","spanID":"b","tags":[{"key":"x","type":"int64","value":5}]}],"processes":{"p":{"serviceName":"s","tags":[]}}}]}`)
	}
	return l
}

func init() {
	explore.AddSeq(&explore.Seq{Name: "token sequences", Prop: "C08", HangSeconds: 12,
		What: "every sequence of up to 5 tokens (thorough: 6) of an alphabet of 21 (punctuation, known and unknown strings, cut and broken literals) as a body of each format",
		Run: func(c *explore.C) {
			toks := []string{"[", "]", "{", "}", ",", ":", `"id"`, `"annotations"`, `"tags"`, `"data"`, `"x"`, "null", "true", "1", "-", "tru", `"`, `"\`, `"\u12`, "1e", " "}
			max := 5
			if c.Thorough {
				max = 6
			}
			for l := 0; l <= max; l++ {
				words(len(toks), l, func(w []int) {
					var b strings.Builder
					for _, x := range w {
						b.WriteString(toks[x])
					}
					s := b.String()
					if c.Next(func() string { return s }) {
						for _, f := range formats {
							anyBody(c, f, []byte(s))
						}
					}
				})
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "token sequences in context", Prop: "C08", HangSeconds: 12,
		What: "every sequence of up to 4 tokens (thorough: 5) after each of 30 opening contexts (inside every object, array and value position of the three formats), alone and followed by the matching closing brackets",
		Run: func(c *explore.C) {
			toks := []string{"[", "]", "{", "}", ",", ":", `"id"`, `"key"`, `"value"`, `"serviceName"`, `"timestamp"`, `"x"`, "null", "true", "1", "-0.", "tru", `"`, `"\`, `"\u12`, "9e", "\x00"}
			ctx := map[string][]string{
				"v1": {`[{`, `[{"id":`, `[{"name":`, `[{"timestamp":`, `[{"duration":`, `[{"annotations":[`, `[{"annotations":[{`, `[{"annotations":[{"timestamp":`, `[{"annotations":[{"endpoint":{`, `[{"binaryAnnotations":[`, `[{"binaryAnnotations":[{"value":`,
					`[{"binaryAnnotations":[{"endpoint":`, `[{"x":`, `[{"x":[`, `[{"x":{`},
				"v2":     {`[{`, `[{"parentId":`, `[{"name":`, `[{"timestamp":`, `[{"kind":`, `[{"tags":{`, `[{"tags":{"a":`, `[{"localEndpoint":`, `[{"localEndpoint":{`, `[{"x":`, `[{"x":[`, `[{"x":{"a":`},
				"jaeger": {`{"data":[{`, `{"data":[{"spans":[{`, `{"data":[{"processes":{`, `{"data":[{"spans":[{"tags":[{`, `{"data":[{"spans":[{"references":[`, `{"x":`},
			}
			max := 4
			if c.Thorough {
				max = 5
			}
			for l := 0; l <= max; l++ {
				for _, f := range formats {
					for _, pre := range ctx[f] {
						close := ""
						for i := len(pre) - 1; i >= 0; i-- {
							switch pre[i] {
							case '[':
								close += "]"
							case '{':
								close += "}"
							}
						}
						words(len(toks), l, func(w []int) {
							var b strings.Builder
							b.WriteString(pre)
							for _, x := range w {
								b.WriteString(toks[x])
							}
							s := b.String()
							if c.Next(func() string { return f + " " + s }) {
								anyBody(c, f, []byte(s))
								anyBody(c, f, []byte(s+close))
							}
						})
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "byte strings", Prop: "C08", HangSeconds: 12,
		What: "every body of up to 2 bytes; every body of 3 bytes over 40 bytes (thorough: 4 bytes over 40); every single byte after every prefix of a corpus payload",
		Run: func(c *explore.C) {
			for l := 0; l <= 2; l++ {
				words(256, l, func(w []int) {
					b := make([]byte, l)
					for i, x := range w {
						b[i] = byte(x)
					}
					if c.Next(func() string { return fmt.Sprintf("%q", b) }) {
						for _, f := range formats {
							anyBody(c, f, b)
						}
					}
				})
			}
			al := []byte("[]{}\":,\\ntfu0189-+.eE aAx/ \t\r\n\x00\x7f\x80\xc3\xa9\xff\xed\xf0bs'")
			max := 3
			if c.Thorough {
				max = 4
			}
			for l := 3; l <= max; l++ {
				words(len(al), l, func(w []int) {
					b := make([]byte, l)
					for i, x := range w {
						b[i] = al[x]
					}
					if c.Next(func() string { return fmt.Sprintf("%q", b) }) {
						for _, f := range formats {
							anyBody(c, f, b)
						}
					}
				})
			}
			for _, f := range formats {
				for _, doc := range corpus(f) {
					for i := 0; i <= len(doc); i++ {
						for _, x := range al {
							if c.Next(func() string { return fmt.Sprintf("%s %q then %q", f, doc[:i], x) }) {
								anyBody(c, f, []byte(doc[:i]+string([]byte{x})))
								// substituted
								if i < len(doc) {
									anyBody(c, f, []byte(doc[:i]+string([]byte{x})+doc[i+1:]))
								}
							}
						}
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "truncations", Prop: "C08", HangSeconds: 12,
		What: "every proper prefix of every corpus payload (and of payloads of 1-3 spans with fields around 512 and 16384 bytes) must be rejected; the whole payload must be accepted",
		Run: func(c *explore.C) {
			for _, f := range formats {
				docs := corpus(f)
				for _, n := range []int{500, 16300} {
					long := strings.Repeat("ab\u00e9", n/4)
					_, b := ref.Payload(f, []proxy.Span{{Id: 1, Trace: 1, Parent: 1, Name: "n", Service: "s", Timestamp: 1000, Duration: 1000, Tags: map[string]string{"k": long}},
						{Id: 2, Trace: 1, Parent: 1, Name: "last", Service: "s", Timestamp: 1000, Duration: 1000, Tags: map[string]string{"k": "v"}}})
					docs = append(docs, string(b))
				}
				for _, doc := range docs {
					t := strings.TrimRight(doc, " ")
					step := 1
					for i := 0; i < len(t); i += step {
						if len(t) > 4000 && !c.Thorough && i > 200 && i < len(t)-400 {
							step = 7
						} else {
							step = 1
						}
						if c.Next(func() string { return f + " prefix of length " + fmt.Sprint(i) + " of " + clip(doc) }) {
							expectError(c, f, []byte(t[:i]))
						}
					}
					if c.Next(func() string { return f + " whole " + clip(doc) }) {
						if _, err := parse(f, []byte(doc)); err != nil {
							c.Fail("%s payload %s is rejected: %v", f, clip(doc), err)
						}
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "nesting and length ladders", Prop: "C08", HangSeconds: 15, MaxShards: 4,
		OnCrash: "decoding the body ended the process",
		What:    "nesting of arrays, objects and both in unknown fields and at the top level, depth 4^0..4^10 and 10^7, complete and unclosed; strings, numbers, keys, whitespace runs and element counts of 2^k-1, 2^k, 2^k+1 bytes up to 2^21 in every value position",
		Run: func(c *explore.C) {
			var depths []int
			for d := 1; d <= 1<<20; d *= 4 {
				depths = append(depths, d)
			}
			depths = append(depths, 9_999, 10_000, 10_001, 10_000_000)
			type nest struct{ name, open, mid, close string }
			nests := []nest{{"arrays", "[", "", "]"}, {"objects", `{"x":`, "1", "}"}, {"both", `[{"a":`, "null", "}]"}, {"tags", `{"tags":`, "{}", "}"}, {"annotations", `{"annotations":[`, "", "]}"}}
			for _, f := range formats {
				pres := []string{"", `[{"x":`, `[{"id":"1","y":`, `[{"annotations":[{"x":`, `[{"name":`, `[{"tags":{"a":`}
				posts := []string{"", `}]`, `}]`, `}]}]`, `}]`, `}}]`}
				if f == "jaeger" {
					pres = []string{"", `{"x":`, `{"data":[{"spans":[{"tags":[{"value":`}
					posts = []string{"", `}`, `}]}]}]}`}
				}
				for pi, pre := range pres {
					for _, n := range nests {
						for _, d := range depths {
							for _, closed := range []bool{true, false} {
								if c.Next(func() string { return fmt.Sprintf("%s %s + %d %s closed=%v", f, pre, d, n.name, closed) }) {
									b := pre + strings.Repeat(n.open, d)
									if closed {
										b += n.mid + strings.Repeat(n.close, d) + posts[pi]
									}
									got, err := parse(f, []byte(b))
									c.Ops(1)
									if !closed && err == nil {
										c.Fail("%s payload %s + %d %s is not closed but accepted with %d spans", f, pre, d, n.name, len(got))
									}
									if closed && err != nil && d <= 64 && (pi == 1 || pi == 2 && f != "jaeger" || pi == 3) {
										c.Fail("%s payload with an unknown field of nesting %d is rejected: %v", f, d, err)
									}
								}
							}
						}
					}
				}
			}
			// lengths
			type pos struct {
				name      string
				pre, post string
				unit      string
				ok        bool
			}
			for _, f := range formats {
				var ps []pos
				switch f {
				case "v1":
					ps = []pos{{"name", `[{"name":"`, `"}]`, "n", true}, {"unknown string", `[{"x":"`, `"}]`, "n", true}, {"unknown escapes", `[{"x":"`, `"}]`, `\n`, true}, {"key", `[{"`, `":1}]`, "k", true}, {"spaces", `[`, `{"id":"1"}]`, " ", true},
						{"number", `[{"x":1`, `}]`, "0", true}, {"tag number", `[{"binaryAnnotations":[{"key":"a","value":1`, `}]}]`, "0", true}, {"tag value", `[{"binaryAnnotations":[{"key":"a","value":"`, `"}]}]`, "v", true},
						{"spans", `[{}`, `]`, ",{}", true}, {"binary annotations", `[{"binaryAnnotations":[{}`, `]}]`, ",{}", true}, {"leading zeros timestamp", `[{"timestamp":0`, `}]`, "0", false}, {"id", `[{"id":"`, `"}]`, "0", false},
						{"name in \\u", `[{"name":"`, `"}]`, `\u00e9`, true}}
				case "v2":
					ps = []pos{{"name", `[{"name":"`, `"}]`, "n", true}, {"service", `[{"localEndpoint":{"serviceName":"`, `"}}]`, "n", true}, {"unknown string", `[{"x":"`, `"}]`, "n", true}, {"tag key", `[{"tags":{"`, `":"1"}}]`, "k", true},
						{"tag value", `[{"tags":{"a":"`, `"}}]`, `\u20ac`, true}, {"newlines", `[`, `{"id":"1"}]`, "\n", true}, {"kind", `[{"kind":"`, `"}]`, "k", true}, {"duration", `[{"duration":1`, `}]`, "1", false},
						{"spans", `[{}`, `]`, ",{}", true}, {"unknown elements", `[{"x":[1`, `]}]`, ",1", true}}
				case "jaeger":
					ps = []pos{{"name", `{"data":[{"spans":[{"operationName":"`, `"}]}]}`, "n", true}, {"unknown string", `{"x":"`, `"}`, "n", true}, {"spans", `{"data":[{"spans":[{}`, `]}]}`, ",{}", true}}
				}
				for _, p := range ps {
					for k := 0; k <= 21; k++ {
						for d := -1; d <= 1; d++ {
							n := 1<<k + d
							if n < 1 || (k > 12 && d != 0 && k != 13 && k != 14 && k != 15 && k != 16) {
								continue
							}
							if c.Next(func() string { return fmt.Sprintf("%s %s, %d times %q", f, p.name, n, p.unit) }) {
								body := p.pre + strings.Repeat(p.unit, n) + p.post
								_, err := parse(f, []byte(body))
								c.Ops(1)
								if err != nil && p.ok {
									c.Fail("%s payload with %s, %d times %q, is rejected: %v", f, p.name, n, p.unit, err)
								}
								cut := p.pre + strings.Repeat(p.unit, n)
								if got, err := parse(f, []byte(cut)); err == nil {
									c.Fail("%s payload with %s, %d times %q, cut off there, is accepted with %d spans", f, p.name, n, p.unit, len(got))
								}
								c.Ops(1)
							}
						}
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "endless bodies", Prop: "C08", HangSeconds: 15, MaxShards: 4,
		OnCrash: "decoding the body ended the process",
		What:    "a reader that fails after n bytes (n = every prefix of the corpus) or that returns nothing several times before each piece: an error of the connection is reported as an error",
		Run: func(c *explore.C) {
			for _, f := range formats {
				for _, doc := range corpus(f) {
					t := strings.TrimRight(doc, " ")
					for i := 0; i < len(t); i++ {
						if c.Next(func() string { return f + " connection lost after " + fmt.Sprint(i) + " bytes of " + clip(t) }) {
							for _, step := range []int{1, 3, 1 << 20} {
								got, err := parsers[f](&lost{b: []byte(t[:i]), step: step})
								c.Ops(1)
								if err == nil {
									c.Fail("%s payload %s: connection lost after %d bytes, still accepted with %d spans", f, clip(t), i, len(got))
								}
							}
						}
					}
				}
			}
		}})
}

type lost struct {
	b    []byte
	step int
}

func (l *lost) Read(p []byte) (int, error) {
	if len(l.b) == 0 {
		return 0, io.ErrUnexpectedEOF
	}
	n := min(len(p), l.step, len(l.b))
	copy(p, l.b[:n])
	l.b = l.b[n:]
	return n, nil
}
