package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/ref"
)

// num is a JSON number; exact tells its value if it is a whole one, ok whether it has to be accepted and bad whether it cannot be represented.
type num struct {
	src     string
	val     int64
	ok, bad bool
}

var numbers = []num{{"0", 0, true, false}, {"7", 7, true, false}, {"1500000000123456", 1500000000123456, true, false}, {"9223372036854775", 9223372036854775, true, false},
	{"1e3", 1000, false, false}, {"1E3", 1000, false, false}, {"1e+3", 1000, false, false}, {"15e14", 1500000000000000, false, false}, {"2.0", 2, false, false}, {"2.50e1", 25, false, false}, {"1500000000123456.0", 1500000000123456, false, false},
	{"-0", 0, false, false}, {"18446744073709551616", 0, false, true}, {"18446744073709551623", 0, false, true}, {"36893488147419103239", 0, false, true}, {"99999999999999999999", 0, false, true},
	{"184467440737095516160000000000000000000007", 0, false, true}, {"1e400", 0, false, true}, {"1x", 0, false, true}, {"0x10", 0, false, true}, {"1_000", 0, false, true}, {"\"5\"", 0, false, true}, {"true", 0, false, true}, {"[5]", 0, false, true}, {"{}", 0, false, true}}

// checkNumber decodes body; accept tells the meaning for a number.
func checkNumber(c *explore.C, f, body string, n num, want func(v int64) proxy.Span) {
	if !c.Next(func() string { return f + " " + body }) {
		return
	}
	got, err := parse(f, []byte(body))
	c.Ops(1)
	switch {
	case err != nil && n.ok:
		c.Fail("%s payload %s is rejected: %s", f, body, err)
	case err == nil && n.bad:
		c.Fail("%s payload %s is accepted as %s", f, body, ref.ShowAll(got))
	case err == nil:
		compare(c, f, []byte(body), got, []proxy.Span{want(n.val)})
	}
}

func init() {
	explore.AddSeq(&explore.Seq{Name: "v1 details", Prop: "C05",
		What: fmt.Sprintf("all sequences of up to 3 binary annotations over 20 (12 usual and odd keys, 8 kinds of values) x endpoint forms; %d number notations as timestamp, duration and annotation timestamp (taken exactly, or rejected where allowed; not representable ones always rejected)", len(numbers)),
		Run: func(c *explore.C) {
			type bin struct{ k, v, val string }
			keys := []string{"lc", "sa", "ca", "ma", "error", "http.path", "protocolVersion", "", "cs", "sr", "ms", "service"}
			vals := [][2]string{{`"v"`, "v"}, {`""`, ""}, {`true`, "true"}, {`false`, "false"}, {`null`, "null"}, {`12`, "12"}, {`-1.5e3`, "-1.5e3"}, {`"a\nb"`, "a\nb"}}
			var bs []bin
			for i, k := range keys {
				bs = append(bs, bin{k, vals[i%len(vals)][0], vals[i%len(vals)][1]})
				if i < 8 {
					bs = append(bs, bin{k, vals[(i+3)%len(vals)][0], vals[(i+3)%len(vals)][1]})
				}
			}
			eps := []string{"", `{"ipv4":"1.2.3.4"}`, `{"serviceName":"s%d"}`, `{"serviceName":""}`}
			run := func(w, e []int, withAn bool) {
				seen := map[string]bool{}
				want := proxy.Span{Id: 1, Trace: 2, Duration: 5000, Tags: map[string]string{}}
				var p []string
				an := ""
				if withAn {
					an = `"annotations":[{"timestamp":9,"value":"sr","endpoint":{"ipv4":"x"}}],`
					want.Timings.SR = 9000
				}
				for i, x := range w {
					b := bs[x]
					if seen[b.k] {
						return
					}
					seen[b.k] = true
					want.Tags[b.k] = b.val
					ep := eps[e[i]]
					if e[i] == 2 {
						ep = fmt.Sprintf(ep, i)
						if want.Service == "" {
							want.Service = fmt.Sprint("s", i)
						}
					}
					p = append(p, mkObj(field{"key", str(b.k)}, field{"value", b.v}, field{"endpoint", ep}))
				}
				want.Tags["protocolVersion"] = "json v1"
				body := `{"id":"1","traceId":"2","duration":5,` + an + `"binaryAnnotations":[` + strings.Join(p, ",") + `]}`
				one(c, "v1", body, want)
			}
			for l := 0; l <= 2; l++ {
				words(len(bs), l, func(w []int) {
					words(len(eps), l, func(e []int) {
						run(w, e, false)
						run(w, e, true)
					})
				})
			}
			words(len(bs), 3, func(w []int) {
				run(w, []int{w[0] % 4, w[1] % 4, w[2] % 4}, w[0]%2 == 0)
				run(w, []int{2, 2, 2}, false)
			})
			// no value, no key
			for _, k := range []string{`"k"`, `""`, ""} {
				for _, v := range []string{`"v"`, ""} {
					kk, vv := strings.Trim(k, `"`), strings.Trim(v, `"`)
					one(c, "v1", `{"id":"1","binaryAnnotations":[`+mkObj(field{"key", k}, field{"value", v})+`]}`, proxy.Span{Id: 1, Duration: time.Millisecond, Tags: map[string]string{kk: vv, "protocolVersion": "json v1"}})
				}
			}
			tags := map[string]string{"protocolVersion": "json v1"}
			for _, n := range numbers {
				checkNumber(c, "v1", `[{"id":"1","timestamp":`+n.src+`,"duration":3}]`, n, func(v int64) proxy.Span {
					return proxy.Span{Id: 1, Timestamp: proxy.Timestamp(v * us), Duration: 3000, Tags: tags}
				})
				checkNumber(c, "v1", `[{"id":"1","timestamp":3,"duration":`+n.src+`}]`, n, func(v int64) proxy.Span {
					d := time.Duration(v * us)
					if d == 0 {
						d = time.Millisecond
					}
					return proxy.Span{Id: 1, Timestamp: 3000, Duration: d, Tags: tags}
				})
				checkNumber(c, "v1", `[{"id":"1","timestamp":4,"duration":4,"annotations":[{"value":"cs","timestamp":1},{"timestamp":`+n.src+`,"value":"cr"}]}]`, n, func(v int64) proxy.Span {
					s := proxy.Span{Id: 1, Timestamp: 4000, Duration: 4000, Tags: tags, Timings: proxy.Timings{CS: 1000, CR: proxy.Timestamp(v * us)}}
					if v != 0 {
						s.Timestamp, s.Duration = 1000, time.Duration(v*us-1000)
					}
					return s
				})
			}
			// annotation pairs with the end before, at and after the start, of both kinds
			for _, a := range []int64{1, 5, 1500000000000000} {
				for _, d1 := range []int64{-1 << 62, -1, 0, 1, 1000} {
					for _, d2 := range []int64{-1 << 62, -1, 0, 1, 1000} {
						x := v1desc{trace: idOpts()[2], id: idOpts()[3], ts: 77, dur: 88, noBin: true}
						if d1 > -1<<62 && a+d1 > 0 {
							x.an = append(x.an, anno{"cs", a, "c", 2}, anno{"cr", a + d1, "c", 2})
						}
						if d2 > -1<<62 && a+2+d2 > 0 {
							x.an = append(x.an, anno{"sr", a + 2, "s", 2}, anno{"ss", a + 2 + d2, "s", 2})
						}
						one(c, "v1", x.json(), x.want())
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "v2 details", Prop: "C06",
		What: fmt.Sprintf("all sets of up to 3 tags over 12 keys (protocolVersion, empty, usual ones) and 5 values; %d number notations as timestamp and duration; endpoints on either side", len(numbers)),
		Run: func(c *explore.C) {
			keys := []string{"protocolVersion", "", "error", "lc", "http.path", "kind", "span.kind", "component", "name", "serviceName", "a", "b"}
			vals := []string{"", "v", "json v1", "true", "x\\ny"}
			for l := 0; l <= 3; l++ {
				words(len(keys), l, func(w []int) {
					seen := map[int]bool{}
					for _, x := range w {
						if seen[x] {
							return
						}
						seen[x] = true
					}
					for v := range vals {
						tags := map[string]string{}
						var p []string
						for i, x := range w {
							y := vals[(v+i)%len(vals)]
							p = append(p, str(keys[x])+`:"`+y+`"`)
							tags[keys[x]] = strings.ReplaceAll(y, `\n`, "\n")
						}
						tags["protocolVersion"] = "json v2"
						one(c, "v2", `{"id":"1","traceId":"1","tags":{`+strings.Join(p, ",")+`}}`, proxy.Span{Id: 1, Trace: 1, Duration: time.Millisecond, Tags: tags})
					}
				})
			}
			tags := map[string]string{"protocolVersion": "json v2"}
			for _, n := range numbers {
				checkNumber(c, "v2", `[{"id":"1","timestamp":`+n.src+`,"duration":3}]`, n, func(v int64) proxy.Span {
					return proxy.Span{Id: 1, Timestamp: proxy.Timestamp(v * us), Duration: 3000, Tags: tags}
				})
				checkNumber(c, "v2", `[{"id":"1","timestamp":3,"duration":`+n.src+`}]`, n, func(v int64) proxy.Span {
					d := time.Duration(v * us)
					if d == 0 {
						d = time.Millisecond
					}
					return proxy.Span{Id: 1, Timestamp: 3000, Duration: d, Tags: tags}
				})
			}
			for _, le := range []string{"", `{"serviceName":"local"}`, `{"serviceName":""}`, `{"port":5}`, `{}`} {
				for _, re := range []string{"", `{"serviceName":"remote"}`, `{"serviceName":""}`} {
					for _, k := range []string{"", `"CLIENT"`, `"SERVER"`} {
						for _, sh := range []string{"", "true", "false"} {
							for _, first := range []bool{true, false} {
								w := proxy.Span{Id: 1, Timestamp: 5000, Duration: 6000, Tags: tags}
								if strings.Contains(le, "local") {
									w.Service = "local"
								}
								switch k {
								case `"CLIENT"`:
									w.Timings = proxy.Timings{CS: 5000, CR: 11000}
								case `"SERVER"`:
									w.Timings = proxy.Timings{SR: 5000, SS: 11000}
								}
								fs := []field{{"id", `"1"`}, {"timestamp", "5"}, {"duration", "6"}, {"kind", k}, {"shared", sh}, {"localEndpoint", le}, {"remoteEndpoint", re}}
								if first {
									fs[5], fs[6] = fs[6], fs[5]
								}
								one(c, "v2", mkObj(fs...), w)
							}
						}
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "jaeger numbers", Prop: "C07",
		What: fmt.Sprintf("%d number notations as start time and duration; tags named like other things; references to other traces", len(numbers)),
		Run: func(c *explore.C) {
			tags := map[string]string{"protocolVersion": "jaeger"}
			pre, post := `{"data":[{"spans":[{"traceID":"2","spanID":"1",`, `}],"processes":{}}]}`
			for _, n := range numbers {
				checkNumber(c, "jaeger", pre+`"startTime":`+n.src+`,"duration":3`+post, n, func(v int64) proxy.Span {
					return proxy.Span{Id: 1, Trace: 2, Parent: 1, Timestamp: proxy.Timestamp(v * us), Duration: 3000, Tags: tags}
				})
				checkNumber(c, "jaeger", pre+`"startTime":3,"duration":`+n.src+post, n, func(v int64) proxy.Span {
					d := time.Duration(v * us)
					if d == 0 {
						d = time.Millisecond
					}
					return proxy.Span{Id: 1, Trace: 2, Parent: 1, Timestamp: 3000, Duration: d, Tags: tags}
				})
			}
			keys := []string{"protocolVersion", "", "lc", "error", "service", "span_kind", "internal.span.formats", "components", "http.method"}
			for l := 0; l <= 3; l++ {
				words(len(keys), l, func(w []int) {
					seen := map[int]bool{}
					t := map[string]string{}
					var p []string
					for i, x := range w {
						if seen[x] {
							return
						}
						seen[x] = true
						t[keys[x]] = fmt.Sprint("v", i)
						p = append(p, fmt.Sprintf(`{"key":%q,"type":"string","value":"v%d"}`, keys[x], i))
					}
					t["protocolVersion"] = "jaeger"
					body := pre + `"startTime":3,"duration":4,"tags":[` + strings.Join(p, ",") + `]` + post
					if c.Next(func() string { return "jaeger " + body }) {
						expect(c, "jaeger", []byte(body), []proxy.Span{{Id: 1, Trace: 2, Parent: 1, Timestamp: 3000, Duration: 4000, Tags: t}})
					}
				})
			}
		}})
	wellKnown, someValues := ref.WellKnownTags, ref.SomeValues
	explore.AddSeq(&explore.Seq{Name: "v1 well-known names", Prop: "C05",
		What: fmt.Sprintf("%d well-known tag keys in lower and upper case with %d values; 24 other annotation texts (with and without an endpoint) before or after sr and ss; 14 fields that are not read with 8 values", len(wellKnown), len(someValues)),
		Run: func(c *explore.C) {
			for _, k := range wellKnown {
				for _, k := range []string{k, strings.ToUpper(k)} {
					for _, v := range someValues {
						one(c, "v1", `{"id":"1","traceId":"2","duration":5,"binaryAnnotations":[{"key":"`+k+`","value":"`+v+`"}]}`,
							proxy.Span{Id: 1, Trace: 2, Duration: 5000, Tags: map[string]string{k: v, "protocolVersion": "json v1"}})
					}
				}
			}
			tags := map[string]string{"protocolVersion": "json v1"}
			for _, v := range []string{"", "CS", "CR", "SR", "SS", "Sr", "sR", "ws", "wr", "ms", "mr", "csf", "crf", "ssf", "srf", "error", "Client Send", "client.send", "cs ", " ss", "sa", "ca", "finish", "timeout"} {
				for _, ep := range []string{"", `{"serviceName":"e"}`} {
					for at := 0; at < 3; at++ {
						l := []string{`{"timestamp":100,"value":"sr"}`, `{"timestamp":130,"value":"ss","endpoint":{"serviceName":"z"}}`}
						l = append(l[:at:at], append([]string{mkObj(field{"timestamp", "117"}, field{"value", str(v)}, field{"endpoint", ep})}, l[at:]...)...)
						w := proxy.Span{Id: 1, Trace: 2, Timestamp: 100000, Duration: 30000, Service: "z", Tags: tags, Timings: proxy.Timings{SR: 100000, SS: 130000}}
						if ep != "" && at < 2 {
							w.Service = "e"
						}
						one(c, "v1", `{"id":"1","traceId":"2","annotations":[`+strings.Join(l, ",")+`]}`, w)
					}
				}
			}
			for _, k := range []string{"debug", "shared", "kind", "tags", "localEndpoint", "remoteEndpoint", "traceIdHigh", "version", "flags", "sampled", "error", "service", "serviceName", "endpoint"} {
				for _, v := range []string{"true", "false", "null", "1", `"CLIENT"`, `"true"`, `{"serviceName":"s","error":"true"}`, `[{"key":"k","value":"v"}]`} {
					for _, s := range []string{`{"` + k + `":` + v + `,"id":"1","traceId":"2","duration":5}`, `{"id":"1","traceId":"2","duration":5,"` + k + `":` + v + `}`} {
						one(c, "v1", s, proxy.Span{Id: 1, Trace: 2, Duration: 5000, Tags: tags})
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "v2 well-known names", Prop: "C06",
		What: fmt.Sprintf("%d well-known tag keys in lower and upper case with %d values; 17 fields that are not read with 10 values, with kinds none, client and server", len(wellKnown), len(someValues)),
		Run: func(c *explore.C) {
			for _, k := range wellKnown {
				for _, k := range []string{k, strings.ToUpper(k)} {
					for _, v := range someValues {
						one(c, "v2", `{"id":"1","traceId":"2","duration":5,"tags":{"`+k+`":"`+v+`"}}`,
							proxy.Span{Id: 1, Trace: 2, Duration: 5000, Tags: map[string]string{k: v, "protocolVersion": "json v2"}})
					}
				}
			}
			tags := map[string]string{"protocolVersion": "json v2"}
			for _, k := range []string{"debug", "shared", "annotations", "binaryAnnotations", "remoteEndpoint", "endpoint", "traceIdHigh", "version", "flags", "sampled", "error", "service", "serviceName", "parent", "startTime", "operationName", "type"} {
				for _, v := range []string{"true", "false", "null", "1", `"CLIENT"`, `"true"`, `{"serviceName":"s","error":"true"}`, `[{"key":"k","value":"v"}]`, `[{"timestamp":1,"value":"cs"},{"timestamp":9,"value":"cr"}]`, `[{"timestamp":1,"value":"error"}]`} {
					for _, kind := range []string{"", "CLIENT", "server"} {
						w := proxy.Span{Id: 1, Trace: 2, Timestamp: 7000, Duration: 5000, Tags: tags}
						kf := ""
						switch kind {
						case "CLIENT":
							w.Timings = proxy.Timings{CS: 7000, CR: 12000}
						case "server":
							w.Timings = proxy.Timings{SR: 7000, SS: 12000}
						}
						if kind != "" {
							kf = `,"kind":"` + kind + `"`
						}
						one(c, "v2", `{"`+k+`":`+v+`,"id":"1","traceId":"2","timestamp":7,"duration":5`+kf+`}`, w)
						one(c, "v2", `{"id":"1","traceId":"2"`+kf+`,"timestamp":7,"duration":5,"`+k+`":`+v+`}`, w)
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "jaeger well-known names", Prop: "C07",
		What: fmt.Sprintf("%d well-known tag keys in lower and upper case with %d values as strings, and as numbers and booleans with and without a type; process tags of these keys; 22 fields of spans, references, processes and data objects that are not read with 12 values; other reference types", len(wellKnown), len(someValues)),
		Run: func(c *explore.C) {
			run := func(body string, w proxy.Span) {
				body = strings.ReplaceAll(body, "'", `"`)
				if c.Next(func() string { return "jaeger " + body }) {
					expect(c, "jaeger", []byte(body), []proxy.Span{w})
				}
			}
			want := func(k, v string) proxy.Span {
				w := proxy.Span{Id: 1, Trace: 2, Parent: 1, Service: "p", Timestamp: 3000, Duration: 4000, Tags: map[string]string{"protocolVersion": "jaeger"}}
				switch k {
				case "-", "internal.span.format":
				case "component":
					w.Tags["lc"] = v
				case "span.kind":
					switch strings.ToLower(v) {
					case "client":
						w.Timings = proxy.Timings{CS: 3000, CR: 7000}
					case "server":
						w.Timings = proxy.Timings{SR: 3000, SS: 7000}
					}
				default:
					w.Tags[k] = v
				}
				return w
			}
			doc := func(data, span, proc string) string {
				return `{'data':[{'spans':[{'traceID':'2','spanID':'1','startTime':3,'duration':4,'processID':'p'` + span + `}],'processes':{'p':{'serviceName':'p'` + proc + `}}` + data + `}]}`
			}
			for _, k := range wellKnown {
				for _, k := range []string{k, strings.ToUpper(k)} {
					for _, v := range someValues {
						run(doc("", `,'tags':[{'key':'`+k+`','type':'string','value':'`+v+`'}]`, ""), want(k, v))
						run(doc("", "", `,'tags':[{'key':'`+k+`','type':'string','value':'`+v+`'}]`), want("-", ""))
					}
					for _, v := range []string{"true", "false", "0", "1", "500", "null", "['x']", "{'x':'y'}"} {
						for _, t := range []string{"", "'type':'bool',", "'type':'int64',", "'type':'string',"} {
							run(doc("", `,'tags':[{'key':'`+k+`',`+t+`'value':`+v+`}]`, ""), want("-", ""))
						}
					}
				}
			}
			vals := []string{"true", "false", "null", "0", "1", "3", "'5'", "''", "'CHILD_OF'", "{'serviceName':'inline','tags':[]}", "['x']",
				"[{'timestamp':5,'fields':[{'key':'event','type':'string','value':'error'},{'key':'error.object','value':'x'},{'key':'level','value':'error'}]}]"}
			for _, v := range vals {
				for _, k := range []string{"parentSpanID", "parentId", "parent", "logs", "flags", "warnings", "process", "startTimeMillis", "traceIDHigh", "name", "serviceName", "kind", "error", "annotations", "localEndpoint"} {
					run(doc("", `,'`+k+`':`+v, ""), want("-", ""))
				}
				for _, k := range []string{"tags", "name", "hostname", "ip"} {
					if k != "tags" || v[0] == '[' || v == "null" {
						run(doc("", "", `,'`+k+`':`+v), want("-", ""))
					}
				}
				for _, k := range []string{"traceID", "warnings", "serviceName", "tags", "flags"} {
					run(doc(`,'`+k+`':`+v, "", ""), want("-", ""))
				}
				for _, k := range []string{"traceID", "span", "flags", "tags", "type"} {
					w := want("-", "")
					w.Parent = 9
					run(doc("", `,'references':[{'refType':'CHILD_OF','spanID':'9','`+k+`':`+v+`}]`, ""), w)
				}
			}
			for _, r := range []string{"FOLLOWS_FROM", "child_of", "CHILD-OF", "ChildOf", "CHILD_OF ", "PARENT", "LINK", ""} {
				run(doc("", `,'references':[{'refType':'`+r+`','traceID':'2','spanID':'9'}]`, ""), want("-", ""))
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "many unknown values", Prop: "C04",
		What: "8 kinds of unknown values 1..30000 times: as fields of one span, as elements of one unknown list, one per span, one per endpoint; unknown values nested up to 9900 deep; one unknown value or whitespace or name of up to 100000 bytes between known fields",
		Run: func(c *explore.C) {
			vals := []string{`{}`, `[]`, `1`, `"s"`, `null`, `[[],{}]`, `{"a":{"b":[1]}}`, `true`}
			ns := []int{1, 10, 500, 9999, 10000, 10001, 12000, 30000}
			for _, f := range []string{"v1", "v2"} {
				fs, sp := v2Fields(v2Endpoint, v2Tags), v2Span
				if f == "v1" {
					fs, sp = v1Fields(v1AnDef, v1BinDef), v1Span
				}
				doc := func(at int, u ...field) string { return obj(insert(fs, at, u...)) }
				plain := obj(fs)
				check := func(what string, body func() string, n int) {
					if c.Next(func() string { return f + " " + what }) {
						want := make([]proxy.Span, n)
						for i := range want {
							want[i] = sp
						}
						expect(c, f, []byte(body()), want)
					}
				}
				for _, v := range vals {
					for _, n := range ns {
						check(fmt.Sprintf("%d fields holding %s", n, v), func() string {
							u := make([]field, n)
							for i := range u {
								u[i] = field{fmt.Sprint("u", i), v}
							}
							return "[" + doc(n%len(fs), u...) + "," + plain + "]"
						}, 2)
						check(fmt.Sprintf("a list of %d %s", n, v), func() string {
							return "[" + doc(n%len(fs), field{"list", "[" + strings.TrimSuffix(strings.Repeat(v+",", n), ",") + "]"}) + "," + plain + "]"
						}, 2)
						check(fmt.Sprintf("an object of %d %s", n, v), func() string {
							return "[" + doc(n%len(fs), field{"o", "{" + strings.TrimSuffix(strings.Repeat(`"a":`+v+",", n), ",") + "}"}) + "," + plain + "]"
						}, 2)
						if n > 20000 && !c.Thorough {
							continue
						}
						check(fmt.Sprintf("%d spans each with %s", n, v), func() string {
							return "[" + strings.TrimSuffix(strings.Repeat(doc(n%len(fs), field{"x", v})+",", n), ",") + "]"
						}, n)
					}
				}
				for _, d := range []int{1, 2, 10, 100, 1000, 5000, 9900} {
					for k, p := range [][2]string{{"[", "]"}, {`{"a":`, "}"}, {`[{"a":`, "}]"}, {`{"a":[1,`, `],"z":"]"}`}} {
						dd := d
						if k >= 2 {
							dd = (d + 1) / 2
						}
						check(fmt.Sprintf("%d levels of %s", dd, p[0]), func() string {
							v := strings.Repeat(p[0], dd) + "1" + strings.Repeat(p[1], dd)
							return "[" + doc(d%len(fs), field{"deep", v}) + "," + doc(0, field{"deep", v}) + "]"
						}, 2)
					}
				}
				for _, n := range []int{100, 4000, 4090, 4096, 4100, 8000, 8180, 8192, 8200, 12000, 16384, 40000, 100000} {
					for at := 0; at <= len(fs); at++ {
						long := strings.Repeat("z", n)
						check(fmt.Sprintf("a string of %d", n), func() string { return "[" + doc(at, field{"u", str(long)}) + "]" }, 1)
						check(fmt.Sprintf("a name of %d", n), func() string { return "[" + doc(at, field{long, "5"}) + "]" }, 1)
						check(fmt.Sprintf("a number of %d", n), func() string { return "[" + doc(at, field{"u", "1" + strings.Repeat("0", n)}) + "]" }, 1)
						check(fmt.Sprintf("a list of %d", n), func() string { return "[" + doc(at, field{"u", "[" + strings.Repeat("{},", n/3) + "1]"}) + "]" }, 1)
						if at < len(fs) {
							for k := 0; k < 3; k++ {
								check(fmt.Sprintf("whitespace of %d around field %d", n, at), func() string {
									key := str(fs[at].k) + ":"
									sp := strings.Repeat(" \n", n/2)
									x := []string{sp + key, str(fs[at].k) + sp + ":", key + sp}[k]
									return "[" + strings.Replace(plain, key, x, 1) + "]"
								}, 1)
							}
						}
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "long texts", Prop: "C09",
		What: "every sequence of 3 requests of any format where one text (name, service, tag key, tag value, unknown field) has one of 14 lengths from 1 to 20000, made of different letters: each decoded exactly, earlier ones unchanged afterwards",
		Run: func(c *explore.C) {
			lens := []int{1, 15, 64, 500, 513, 2048, 4000, 4090, 4097, 5000, 8000, 8193, 12000, 20000}
			mk := func(f string, pos, n int, letter string) (string, proxy.Span) {
				s := proxy.Span{Id: 5, Trace: 6, Parent: 6, Name: "n", Service: "s", Timestamp: 1000, Duration: 1000, Tags: map[string]string{"k": "v"}}
				t := strings.Repeat(letter, n)
				switch pos {
				case 0:
					s.Name = t
				case 1:
					s.Service = t
				case 2:
					s.Tags[t] = "x"
				case 3:
					s.Tags["t"] = t
				}
				_, b := ref.Payload(f, []proxy.Span{s, s})
				w := ref.Clone(s)
				w.Tags["protocolVersion"] = ref.ProtocolTag(f)
				return string(b), w
			}
			for _, f := range formats {
				for pos := 0; pos < 4; pos++ {
					for _, n := range lens {
						for _, g := range formats {
							for q := 0; q < 4; q++ {
								for _, m := range lens {
									if !c.Thorough && (f == "jaeger" || g == "jaeger") && (m > 9000 || n > 9000) {
										continue
									}
									if !c.Next(func() string { return fmt.Sprintf("%s text %d of %d, then %s text %d of %d", f, pos, n, g, q, m) }) {
										continue
									}
									b1, w1 := mk(f, pos, n, "a")
									b2, w2 := mk(g, q, m, "b")
									b3, w3 := mk(f, q, n, "c")
									bodies, wants, fs := []string{b1, b2, b3, b1}, []proxy.Span{w1, w2, w3, w1}, []string{f, g, f, f}
									var got [][]proxy.Span
									for i := range bodies {
										l, err := parse(fs[i], []byte(bodies[i]))
										c.Ops(1)
										if err != nil || !ref.EqualAll(l, []proxy.Span{wants[i], wants[i]}) {
											c.Fail("request %d: %s payload %s\nis decoded to %s (%v)\ninstead of %s", i, fs[i], clip(bodies[i]), ref.ShowAll(l), err, ref.Show(wants[i]))
										}
										got = append(got, l)
									}
									for i := range got {
										if !ref.EqualAll(got[i], []proxy.Span{wants[i], wants[i]}) {
											c.Fail("the spans of request %d (%s) became %s\ninstead of %s", i, clip(bodies[i]), ref.ShowAll(got[i]), ref.Show(wants[i]))
										}
									}
								}
							}
						}
					}
				}
			}
		}})
}
