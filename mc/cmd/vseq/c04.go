package main

import (
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
)

type field struct{ k, v string }

func obj(fs []field) string {
	p := make([]string, len(fs))
	for i, f := range fs {
		p[i] = `"` + f.k + `":` + f.v
	}
	return "{" + strings.Join(p, ",") + "}"
}

func permute(fs []field, p []int) []field {
	r := make([]field, len(p))
	for i, x := range p {
		r[i] = fs[x]
	}
	return r
}

// insert puts f at position at.
func insert(fs []field, at int, f ...field) []field {
	r := append([]field{}, fs[:at]...)
	r = append(r, f...)
	return append(r, fs[at:]...)
}

var v2Endpoint = []field{{"serviceName", `"svc"`}, {"ipv4", `"127.0.0.1"`}, {"port", `8080`}}
var v2Tags = []field{{"a", `"1"`}, {"b", `"2"`}, {"error", `"x"`}}

func v2Fields(ep, tags []field) []field {
	return []field{{"traceId", `"000000000000000a"`}, {"id", `"B"`}, {"parentId", `"c"`}, {"name", `"get"`}, {"kind", `"SERVER"`}, {"timestamp", `1500000000000001`}, {"duration", `207`},
		{"localEndpoint", obj(ep)}, {"tags", obj(tags)}}
}

var v2Span = proxy.Span{Id: 0xb, Trace: 0xa, Parent: 0xc, Name: "get", Service: "svc", Timestamp: 1500000000000001000, Duration: 207000,
	Tags:    map[string]string{"a": "1", "b": "2", "error": "x", "protocolVersion": "json v2"},
	Timings: proxy.Timings{SR: 1500000000000001000, SS: 1500000000000208000}}

var v1Ep = []field{{"serviceName", `"svc"`}, {"ipv4", `"127.0.0.1"`}, {"port", `8080`}}

func v1An(ts, value string, ep []field) []field {
	return []field{{"timestamp", ts}, {"value", `"` + value + `"`}, {"endpoint", obj(ep)}}
}
func v1Bin(k, v string, ep []field) []field {
	return []field{{"key", `"` + k + `"`}, {"value", v}, {"endpoint", obj(ep)}}
}

func v1Fields(an, bin string) []field {
	return []field{{"traceId", `"000000000000000a"`}, {"id", `"B"`}, {"parentId", `"c"`}, {"name", `"get"`}, {"timestamp", `1500000000000001`}, {"duration", `207`},
		{"annotations", an}, {"binaryAnnotations", bin}}
}

const v1AnDef = `[{"timestamp":1500000000000010,"value":"cs","endpoint":{"serviceName":"svc"}},{"timestamp":1500000000000020,"value":"cr","endpoint":{"serviceName":"other"}}]`
const v1BinDef = `[{"key":"a","value":"1","endpoint":{"serviceName":"svc"}},{"key":"b","value":true}]`

var v1Span = proxy.Span{Id: 0xb, Trace: 0xa, Parent: 0xc, Name: "get", Service: "svc", Timestamp: 1500000000000010000, Duration: 10000,
	Tags:    map[string]string{"a": "1", "b": "true", "protocolVersion": "json v1"},
	Timings: proxy.Timings{CS: 1500000000000010000, CR: 1500000000000020000}}

// values of JSON: all up to the given nesting, over a few literals that try to confuse a scanner.
func jsonValues(depth int, lits []string, max int) []string {
	if depth == 0 {
		return lits
	}
	sub := jsonValues(depth-1, lits, max)
	r := append([]string{}, sub...)
	r = append(r, `[]`, `{}`)
	keys := []string{"id", "x", "", "traceId", `a\"b`, "tags"}
	for i, v := range sub {
		r = append(r, "["+v+"]", `{"`+keys[i%len(keys)]+`":`+v+`}`)
	}
	for i, v := range sub {
		for j, w := range sub {
			if len(r) > max {
				return r
			}
			if depth > 1 && (i+j)%3 != 0 {
				continue
			}
			r = append(r, "["+v+","+w+"]", `{"`+keys[(i+j)%len(keys)]+`":`+v+`,"`+keys[(i+2*j+1)%len(keys)]+`2":`+w+`}`)
		}
	}
	return r
}

var scanLits = []string{`null`, `true`, `false`, `0`, `-1`, `-0.5e+10`, `1E-2`, `""`, `"a"`, `"\""`, `"\\"`, `"]}"`, `"[{"`, `"\\\""`, `"\u0022"`, `"é,:"`}

func init() {
	zf := []string{"v1", "v2"}
	explore.AddSeq(&explore.Seq{Name: "field order", Prop: "C04",
		What: "all 9! orders of the fields of a v2 span, all 8! of a v1 span, all orders of endpoint, tag, annotation and binary annotation fields",
		Run: func(c *explore.C) {
			fs := v2Fields(v2Endpoint, v2Tags)
			perms(len(fs), func(p []int) {
				if c.Next(func() string { return "v2 " + obj(permute(fs, p)) }) {
					expect(c, "v2", []byte("["+obj(permute(fs, p))+"]"), []proxy.Span{v2Span})
				}
			})
			f1 := v1Fields(v1AnDef, v1BinDef)
			perms(len(f1), func(p []int) {
				if c.Next(func() string { return "v1 " + obj(permute(f1, p)) }) {
					expect(c, "v1", []byte("["+obj(permute(f1, p))+"]"), []proxy.Span{v1Span})
				}
			})
			perms(3, func(p []int) {
				ep := permute(v2Endpoint, p)
				perms(3, func(q []int) {
					tg := permute(v2Tags, q)
					if c.Next(func() string { return "v2 inner " + obj(ep) + obj(tg) }) {
						expect(c, "v2", []byte("["+obj(v2Fields(ep, tg))+"]"), []proxy.Span{v2Span})
					}
				})
			})
			perms(3, func(p []int) {
				perms(3, func(q []int) {
					perms(3, func(r []int) {
						ep := permute(v1Ep, p)
						a := "[" + obj(permute(v1An("1500000000000010", "cs", ep), q)) + "," + obj(permute(v1An("1500000000000020", "cr", ep), r)) + "]"
						b := "[" + obj(permute(v1Bin("a", `"1"`, ep), r)) + "," + obj(permute(v1Bin("b", `true`, ep), q)) + "]"
						if c.Next(func() string { return "v1 inner " + a + b }) {
							expect(c, "v1", []byte("["+obj(v1Fields(a, b))+"]"), []proxy.Span{v1Span})
						}
					})
				})
			})
		}})
	explore.AddSeq(&explore.Seq{Name: "unknown fields", Prop: "C04",
		What: "every JSON value of nesting <=2 (16 scanner-confusing literals, arrays and objects of 0-2 elements; a structured subset at nesting 2; thorough: all within a 200000 cap) as an unknown field before and after every field of every object of v1 and v2; two unknown fields at all pairs of positions; unknown names that resemble known ones",
		Run: func(c *explore.C) {
			max := 6000
			if c.Thorough {
				max = 200000
			}
			vals := jsonValues(2, scanLits, max)
			short := jsonValues(1, scanLits, max)
			names := []string{"shared", "", "i", "idx", "ids", "trace", "names", "tag", `\"`, "annotation", "é"}
			for vi, v := range vals {
				u := field{names[vi%len(names)], v}
				fs := v2Fields(v2Endpoint, v2Tags)
				for at := 0; at <= len(fs); at++ {
					if c.Next(func() string { return "v2 span: " + u.k + ":" + v }) {
						expect(c, "v2", []byte("["+obj(insert(fs, at, u))+"]"), []proxy.Span{v2Span})
					}
				}
				f1 := v1Fields(v1AnDef, v1BinDef)
				for at := 0; at <= len(f1); at++ {
					if c.Next(func() string { return "v1 span: " + u.k + ":" + v }) {
						expect(c, "v1", []byte("["+obj(insert(f1, at, u))+"]"), []proxy.Span{v1Span})
					}
				}
				for at := 0; at <= 3; at++ {
					if c.Next(func() string { return "endpoint: " + u.k + ":" + v }) {
						expect(c, "v2", []byte("["+obj(v2Fields(insert(v2Endpoint, at, u), v2Tags))+"]"), []proxy.Span{v2Span})
						ep := insert(v1Ep, at, u)
						a := "[" + obj(v1An("1500000000000010", "cs", ep)) + "," + obj(v1An("1500000000000020", "cr", ep)) + "]"
						b := "[" + obj(v1Bin("a", `"1"`, ep)) + "," + obj(v1Bin("b", `true`, ep)) + "]"
						expect(c, "v1", []byte("["+obj(v1Fields(a, b))+"]"), []proxy.Span{v1Span})
						a = "[" + obj(insert(v1An("1500000000000010", "cs", v1Ep), at, u)) + "," + obj(insert(v1An("1500000000000020", "cr", v1Ep), at, u)) + "]"
						b = "[" + obj(insert(v1Bin("a", `"1"`, v1Ep), at, u)) + "," + obj(insert(v1Bin("b", `true`, v1Ep), at, u)) + "]"
						expect(c, "v1", []byte("["+obj(v1Fields(a, b))+"]"), []proxy.Span{v1Span})
					}
				}
			}
			for i, v := range short {
				for j, w := range short {
					if (i+j)%5 != 0 && !c.Thorough {
						continue
					}
					fs := v2Fields(v2Endpoint, v2Tags)
					f1 := v1Fields(v1AnDef, v1BinDef)
					at, bt := (i*7+j)%(len(fs)+1), (i+3*j)%(len(fs)+1)
					if c.Next(func() string { return "two unknown fields " + v + " " + w }) {
						expect(c, "v2", []byte("["+obj(insert(insert(fs, at, field{"x", v}), bt, field{"y", w}))+"]"), []proxy.Span{v2Span})
						expect(c, "v1", []byte("["+obj(insert(insert(f1, at%9, field{"x", v}), bt%9, field{"y", w}))+"]"), []proxy.Span{v1Span})
					}
				}
			}
			// an annotation list longer than four: the rest is skipped and must not disturb what follows
			for _, v := range short {
				if c.Next(func() string { return "fifth annotation has " + v }) {
					a := strings.TrimSuffix(v1AnDef, "]") + `,{},{"x":1},{"timestamp":1,"value":"ss","x":` + v + `},{"y":` + v + `}]`
					s := v1Span
					expect(c, "v1", []byte("["+obj(v1Fields(a, v1BinDef))+"]"), []proxy.Span{s})
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "unknown names", Prop: "C04",
		What: "about 120 unknown field names (every known name of one of the objects or the other format with a letter removed, added or doubled; fields of real Zipkin spans; escapes, other alphabets, up to 40000 bytes) with values that known fields have or of 100 kB, in every object, in front, between and at the end",
		Run: func(c *explore.C) {
			known := map[string]bool{}
			objects := map[string][]string{"v2span": {"traceId", "id", "parentId", "name", "kind", "timestamp", "duration", "localEndpoint", "tags"}, "v1span": {"traceId", "id", "parentId", "name", "timestamp", "duration", "annotations", "binaryAnnotations"},
				"endpoint": {"serviceName"}, "annotation": {"timestamp", "value", "endpoint"}, "binary": {"key", "value", "endpoint"}}
			for _, l := range objects {
				for _, k := range l {
					known[strings.ToLower(k)] = true
				}
			}
			names := []string{"", "debug", "shared", "remoteEndpoint", "traceIdHigh", "ipv4", "ipv6", "port", "host", "version", "meta", "$", "_", "0", "-", "true", "null", " ", " id", "id ", "é", "日本語", "😀", `\u0000`, `\"id\"`, `\\`, `\/`, `\n`, `{`, `]`, `,`, `:`}
			for _, l := range [][]string{objects["v2span"], objects["v1span"], objects["endpoint"], objects["binary"]} {
				for _, k := range l {
					names = append(names, k[:len(k)-1], k[1:], k+"s", k+k, "x"+k, k+`\u0000`, k+" ", "_"+k, k[:1]+k)
				}
			}
			for _, n := range []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 4095, 4096, 4097, 40000} {
				names = append(names, strings.Repeat("n", n), strings.Repeat("id", n/2)+"x")
			}
			vals := []string{`"ffffffffffffffff"`, `"error"`, `5`, `null`, `["cs"]`, `{"id":"77","serviceName":"no","timestamp":5,"value":"cs","key":"a"}`, `[{"timestamp":5,"value":"cs","endpoint":{"serviceName":"no"}}]`, `{"a":"b"}`,
				str(strings.Repeat("v", 100000)), "[" + strings.Repeat("1,", 20000) + "1]", strings.Repeat("9", 500), strings.Repeat("[", 5000) + strings.Repeat("]", 5000)}
			for vi, v := range vals {
				for ni, n := range names {
					if vi > 7 && ni%6 != 0 {
						continue
					}
					u := field{n, v}
					for at := 0; at < 3; at++ {
						where := func(fs []field, obj string) []field {
							for _, k := range objects[obj] {
								if n == k {
									return fs
								}
							}
							if known[strings.ToLower(n)] && obj != "endpoint" {
								for _, k := range objects[obj] {
									if strings.EqualFold(n, k) {
										return fs
									}
								}
							}
							return insert(fs, []int{0, len(fs) / 2, len(fs)}[at], u)
						}
						if !c.Next(func() string { return n + ":" + v }) {
							continue
						}
						expect(c, "v2", []byte("["+obj(where(v2Fields(where(v2Endpoint, "endpoint"), v2Tags), "v2span"))+"]"), []proxy.Span{v2Span})
						ep := where(v1Ep, "endpoint")
						a := "[" + obj(where(v1An("1500000000000010", "cs", ep), "annotation")) + "," + obj(where(v1An("1500000000000020", "cr", ep), "annotation")) + "]"
						b := "[" + obj(where(v1Bin("a", `"1"`, ep), "binary")) + "," + obj(where(v1Bin("b", `true`, ep), "binary")) + "]"
						expect(c, "v1", []byte("["+obj(where(v1Fields(a, b), "v1span"))+"]"), []proxy.Span{v1Span})
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "whitespace", Prop: "C04",
		What: "each of 8 whitespace strings at every token boundary, at every pair of token boundaries and at all boundaries; payloads of one and three spans",
		Run: func(c *explore.C) {
			ws := []string{" ", "\n", "\t", "\r", "\r\n", "  \n\t ", strings.Repeat(" ", 50), strings.Repeat("\n", 4100)}
			u := field{"u", `{"q":[1,true,null,"x",{"z":-1.5e3}],"w":{}}`}
			for _, f := range zf {
				one, sp := "["+obj(insert(v2Fields(v2Endpoint, v2Tags), 4, u))+"]", v2Span
				if f == "v1" {
					one, sp = "["+obj(insert(v1Fields(v1AnDef, v1BinDef), 4, u))+"]", v1Span
				}
				three := "[" + one[1:len(one)-1] + "," + one[1:len(one)-1] + "," + one[1:len(one)-1] + "]"
				for n, body := range []string{one, three} {
					want := []proxy.Span{sp}
					if n == 1 {
						want = []proxy.Span{sp, sp, sp}
					}
					toks := tokens(body)
					build := func(at map[int]string) []byte {
						var b strings.Builder
						for i, t := range toks {
							b.WriteString(at[i])
							b.WriteString(t)
						}
						b.WriteString(at[len(toks)])
						return []byte(b.String())
					}
					for _, w := range ws {
						all := map[int]string{}
						for i := 0; i <= len(toks); i++ {
							all[i] = w
						}
						if len(w) < 100 && c.Next(func() string { return f + " all boundaries " + w }) {
							expect(c, f, build(all), want)
						}
						for i := 0; i <= len(toks); i++ {
							if c.Next(func() string { return f + " whitespace before token " + toks[i%len(toks)] }) {
								expect(c, f, build(map[int]string{i: w}), want)
							}
						}
					}
					if n == 1 && !c.Thorough {
						continue
					}
					for i := 0; i <= len(toks); i++ {
						for j := i + 1; j <= len(toks); j++ {
							w, x := ws[(i+j)%7], ws[(i+2*j)%7]
							if c.Next(func() string { return f + " whitespace at two places" }) {
								expect(c, f, build(map[int]string{i: w, j: x}), want)
							}
						}
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "payload order", Prop: "C04",
		What: "payloads of up to 5 spans: all sequences over 4 (sparse to full) spans per format",
		Run: func(c *explore.C) {
			kinds := map[string][]field{}
			_ = kinds
			for _, f := range zf {
				src := []string{"{" + `"traceId":"1","id":"2","timestamp":5,"duration":1}`, `{}`, "", `{"traceId":"3","id":"4","name":"n","timestamp":6,"duration":2}`}
				pv := "json " + f
				tag := map[string]string{"protocolVersion": pv}
				sp := []proxy.Span{{Trace: 1, Id: 2, Timestamp: 5000, Duration: 1000, Tags: tag}, {Duration: 1000000, Tags: tag}, v2Span, {Trace: 3, Id: 4, Name: "n", Timestamp: 6000, Duration: 2000, Tags: tag}}
				if f == "v1" {
					src[2], sp[2] = obj(v1Fields(v1AnDef, v1BinDef)), v1Span
				} else {
					src[2] = obj(v2Fields(v2Endpoint, v2Tags))
				}
				for l := 0; l <= 5; l++ {
					words(4, l, func(w []int) {
						if c.Next(func() string {
							return f + " " + strings.Trim(strings.Join(strings.Fields(strings.Repeat("x ", l)), ","), ",")
						}) {
							var p []string
							var want []proxy.Span
							for _, x := range w {
								p = append(p, src[x])
								want = append(want, sp[x])
							}
							expect(c, f, []byte("["+strings.Join(p, ",")+"]"), want)
						}
					})
				}
			}
		}})
}

// tokens splits JSON text (without whitespace outside of strings) into tokens.
func tokens(s string) []string {
	var r []string
	for i := 0; i < len(s); {
		j := i + 1
		switch {
		case s[i] == '"':
			for s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			j++
		case strings.IndexByte("[]{},:", s[i]) >= 0:
		default:
			for j < len(s) && strings.IndexByte("[]{},:\"", s[j]) < 0 {
				j++
			}
		}
		r = append(r, s[i:j])
		i = j
	}
	return r
}
