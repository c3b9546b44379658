package main

import (
	"fmt"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
)

// unit of a JSON string: its source text and the text it denotes.
type unit struct{ src, val string }

var units = []unit{
	{`a`, "a"}, {`\"`, `"`}, {`\\`, `\`}, {`\/`, `/`}, {`\b`, "\b"}, {`\f`, "\f"}, {`\n`, "\n"}, {`\r`, "\r"}, {`\t`, "\t"},
	{`\u0041`, "A"}, {`\u00e9`, "é"}, {`\u20AC`, "€"}, {`\uD83D\uDE00`, "😀"}, {`\udbff\udfff`, "\U0010FFFF"}, {`\u0000`, "\x00"}, {`\u000a`, "\n"},
	{`\ud7ff`, "\ud7ff"}, {`\uE000`, "\ue000"}, {`\uFfFf`, "\uffff"}, {`\u005c`, `\`}, {`\u0022`, `"`},
	{`é`, "é"}, {`€`, "€"}, {`😀`, "😀"}, {` `, " "}, {`,`, ","}, {`]`, "]"}, {`}`, "}"}, {`:`, ":"}, {`u`, "u"}, {`n`, "n"}, {"\x7f", "\x7f"},
}

// fewer units for longer strings
var unitsCore = []int{0, 1, 2, 6, 9, 11, 12, 21, 23, 19}

const ts0 = 1500000000000000

// withString is a payload in which every string position holds src, and the span it stands for.
func withString(format, src, val string) ([]byte, proxy.Span) {
	var b string
	s := proxy.Span{Id: 2, Trace: 1, Name: val, Service: val, Timestamp: proxy.Timestamp(ts0 * 1000), Duration: 5000000, Tags: map[string]string{}}
	s.Tags[val] = val
	if format == "v2" {
		b = `[{"traceId":"1","id":"2","timestamp":1500000000000000,"duration":5000,"name":"` + src + `","localEndpoint":{"serviceName":"` + src + `"},"tags":{"` + src + `":"` + src + `"}}]`
		s.Tags["protocolVersion"] = "json v2"
	} else {
		b = `[{"traceId":"1","id":"2","timestamp":1500000000000000,"duration":5000,"name":"` + src + `","annotations":[{"timestamp":7,"value":"` + src + `","endpoint":{"serviceName":"` + src +
			`"}}],"binaryAnnotations":[{"key":"` + src + `","value":"` + src + `"}]}]`
		s.Tags["protocolVersion"] = "json v1"
	}
	return []byte(b), s
}

func join(ix []int, from []unit, idx []int) (src, val string) {
	for _, i := range ix {
		if idx != nil {
			i = idx[i]
		}
		src += from[i].src
		val += from[i].val
	}
	return
}

func init() {
	zf := []string{"v1", "v2"}
	explore.AddSeq(&explore.Seq{Name: "strings: all short", Prop: "C03",
		What: "every string of <=3 (thorough 4) units over 32 units (all escape forms, surrogate pairs, 1-4 byte text, delimiters) and of <=5 (thorough 7) units over 10 units, in every string position of v1 and v2",
		Run: func(c *explore.C) {
			for l := 0; l <= 3 || (c.Thorough && l == 4); l++ {
				for _, f := range zf {
					words(len(units), l, func(w []int) {
						src, val := join(w, units, nil)
						if c.Next(func() string { return f + " string " + src }) {
							b, s := withString(f, src, val)
							expect(c, f, b, []proxy.Span{s})
							c.Outcome(f + val)
						}
					})
				}
			}
			top := 5
			if c.Thorough {
				top = 7
			}
			for l := 4; l <= top; l++ {
				for _, f := range zf {
					words(len(unitsCore), l, func(w []int) {
						src, val := join(w, units, unitsCore)
						if c.Next(func() string { return f + " string " + src }) {
							b, s := withString(f, src, val)
							expect(c, f, b, []proxy.Span{s})
						}
					})
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "strings: all code points", Prop: "C03",
		What: "every Unicode code point raw and as \\u escape(s), in lower, upper and mixed case hex (BMP: all; supplementary planes: every 257th quick, all thorough)",
		Run: func(c *explore.C) {
			step := rune(257)
			if c.Thorough {
				step = 1
			}
			for r := rune(1); r <= 0x10ffff; r++ {
				if r >= 0xd800 && r < 0xe000 {
					continue
				}
				if r >= 0x10000 && (r-0x10000)%step != 0 {
					continue
				}
				r := r
				for k := 0; k < 4; k++ {
					f := zf[(k+int(r))%2]
					if !c.Next(func() string { return fmt.Sprintf("%s U+%04X form %d", f, r, k) }) {
						continue
					}
					var src string
					hex := func(x rune) string {
						switch k {
						case 1:
							return fmt.Sprintf(`\u%04x`, x)
						case 2:
							return fmt.Sprintf(`\u%04X`, x)
						}
						h := fmt.Sprintf("%04x", x)
						return `\u` + strings.ToUpper(h[:1]) + h[1:2] + strings.ToUpper(h[2:3]) + h[3:]
					}
					switch {
					case k == 0:
						if r < 0x20 || r == '"' || r == '\\' {
							continue
						}
						src = string(r)
					case r >= 0x10000:
						x := r - 0x10000
						src = hex(0xd800+x>>10) + hex(0xdc00+x&0x3ff)
					default:
						src = hex(r)
					}
					b, s := withString(f, "x"+src+"y", "x"+string(r)+"y")
					expect(c, f, b, []proxy.Span{s})
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "strings: lengths", Prop: "C03", HangSeconds: 12, OnCrash: "decoding a long string does not end",
		What: "strings of every length 0..600, around every multiple of 4096 up to 80000 (+-12) and 100 kB..3 MB (thorough 33 MB), plain, with an escape at the start, the end and everywhere",
		Run: func(c *explore.C) {
			var ls []int
			for l := 0; l <= 600; l++ {
				ls = append(ls, l)
			}
			for m := 4096; m <= 80000; m += 4096 {
				for d := -12; d <= 12; d++ {
					ls = append(ls, m+d)
				}
			}
			ls = append(ls, 100000, 131072, 262144, 1000000, 1<<20+1, 3<<20+5)
			if c.Thorough {
				ls = append(ls, 4<<20, 8<<20+1, 16<<20, 33<<20)
			}
			for _, f := range zf {
				for _, l := range ls {
					for k := 0; k < 5; k++ {
						if k == 3 && l > 100000 {
							continue
						}
						if !c.Next(func() string { return fmt.Sprintf("%s string of %d bytes, form %d", f, l, k) }) {
							continue
						}
						fill := strings.Repeat("z", l)
						src, val := fill, fill
						switch k {
						case 1:
							src, val = `\n`+fill, "\n"+fill
						case 2:
							src, val = fill+`\u20ac`, fill+"€"
						case 3:
							src, val = strings.Repeat(`\"`, l/2), strings.Repeat(`"`, l/2)
						case 4:
							src, val = fill+`\\`, fill+`\`
						}
						b, s := withString(f, src, val)
						expect(c, f, b, []proxy.Span{s})
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "strings: buffer position", Prop: "C03",
		What: "each of the 32 string units with its start at every distance 0..80 before and after positions 4096, 8192 and 16384 of the body (moved by whitespace)",
		Run: func(c *explore.C) {
			for _, f := range zf {
				for _, u := range units {
					for _, at := range []int{4096, 8192, 16384} {
						for d := -160; d <= 20; d++ {
							if !c.Next(func() string { return fmt.Sprintf("%s unit %s shifted to %d%+d", f, u.src, at, d) }) {
								continue
							}
							b, s := withString(f, "x"+u.src+"y", "x"+u.val+"y")
							expect(c, f, append([]byte(strings.Repeat(" ", at+d)), b...), []proxy.Span{s})
						}
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "escaped keys and kinds", Prop: "C03",
		What: "field names, annotation values and kinds written with escapes for each of their characters in turn and for all",
		Run: func(c *explore.C) {
			esc := func(s string, f func(j int) bool) string {
				o := ""
				for j := 0; j < len(s); j++ {
					if f(j) {
						o += fmt.Sprintf(`\u%04x`, s[j])
					} else {
						o += s[j : j+1]
					}
				}
				return o
			}
			base := map[string]string{
				"v1": `[{"traceId":"1","id":"2","parentId":"3","name":"n","timestamp":1500000000000000,"duration":7,"annotations":[{"timestamp":8,"value":"cs","endpoint":{"serviceName":"s"}}],"binaryAnnotations":[{"key":"k","value":"v"}]}]`,
				"v2": `[{"traceId":"1","id":"2","parentId":"3","name":"n","timestamp":1500000000000000,"duration":7,"kind":"CLIENT","localEndpoint":{"serviceName":"s"},"tags":{"k":"v"}}]`,
			}
			for _, f := range zf {
				var want []proxy.Span
				s := proxy.Span{Id: 2, Trace: 1, Parent: 3, Name: "n", Service: "s", Timestamp: proxy.Timestamp(ts0 * 1000), Duration: 7000, Tags: map[string]string{"k": "v", "protocolVersion": "json " + f}}
				if f == "v1" {
					s.Timings.CS = 8000
				} else {
					s.Timings.CS, s.Timings.CR = s.Timestamp, s.Timestamp.Add(s.Duration)
				}
				want = append(want, s)
				lits := []string{"traceId", "id", "parentId", "name", "timestamp", "duration", "annotations", "value", "endpoint", "serviceName", "binaryAnnotations", "key", "cs", "n", "s", "k", "v", "1", "2", "3",
					"kind", "CLIENT", "localEndpoint", "tags"}
				for _, l := range lits {
					if !strings.Contains(base[f], `"`+l+`"`) {
						continue
					}
					for j := -1; j < len(l); j++ {
						e := esc(l, func(x int) bool { return j < 0 || j == x })
						if c.Next(func() string { return f + " " + e }) {
							expect(c, f, []byte(strings.Replace(base[f], `"`+l+`"`, `"`+e+`"`, 1)), want)
						}
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "literal tag values", Prop: "C03",
		What: "all JSON numbers from 2 signs x 9 integer parts x 8 fractions x 16 exponents, true, false and null as v1 tag value, followed by every delimiter, at the start and across buffer ends",
		Run: func(c *explore.C) {
			var lits []string
			for _, sg := range []string{"", "-"} {
				for _, in := range []string{"0", "1", "7", "9", "10", "42", "1234567890", "18446744073709551615", "99999999999999999999999999"} {
					for _, fr := range []string{"", ".0", ".5", ".25", ".007", ".123456789", ".10", ".9"} {
						for _, ex := range []string{"", "e1", "E1", "e+1", "E+1", "e-1", "E-1", "e10", "E10", "e+10", "E-10", "e0", "E+0", "e00", "e-05", "E308"} {
							lits = append(lits, sg+in+fr+ex)
						}
					}
				}
			}
			lits = append(lits, "true", "false", "null")
			for i, l := range lits {
				for k, tail := range []string{`}`, ` }`, "\n}", "\t}", "\r\n}", `,"endpoint":{}}`, ` ,"x":[]}`} {
					if !c.Next(func() string { return l + tail }) {
						continue
					}
					b := `[{"traceId":"1","id":"2","timestamp":1500000000000000,"duration":5000,"binaryAnnotations":[{"key":"k","value":` + l + tail + `]}]`
					if k == 0 {
						b = strings.Repeat(" ", 8192-100-i%40) + b
					}
					expect(c, "v1", []byte(b), []proxy.Span{{Id: 2, Trace: 1, Timestamp: proxy.Timestamp(ts0 * 1000), Duration: 5000000, Tags: map[string]string{"k": l, "protocolVersion": "json v1"}}})
				}
			}
			for d := -140; d < 20; d++ {
				for _, l := range []string{"true", "false", "null", "-12.5e-3", "7", "1234567890123"} {
					for _, at := range []int{4096, 8192, 16384} {
						if !c.Next(func() string { return fmt.Sprintf("%s shifted to %d%+d", l, at, d) }) {
							continue
						}
						b := strings.Repeat(" ", at+d) + `[{"traceId":"1","id":"2","timestamp":1500000000000000,"duration":5000,"binaryAnnotations":[{"key":"k","value":` + l + `}]}]`
						expect(c, "v1", []byte(b), []proxy.Span{{Id: 2, Trace: 1, Timestamp: proxy.Timestamp(ts0 * 1000), Duration: 5000000, Tags: map[string]string{"k": l, "protocolVersion": "json v1"}}})
					}
				}
			}
		}})
}
