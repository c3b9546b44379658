package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/ref"
)

func idForms(id uint64) []string {
	full := fmt.Sprintf("%016x", id)
	var r []string
	for i := 0; i <= 15; i++ {
		if strings.Trim(full[:i], "0") != "" {
			break
		}
		low := full[i:]
		mixed := []byte(low)
		for k := range mixed {
			if k%2 == 0 && mixed[k] >= 'a' {
				mixed[k] -= 32
			}
		}
		r = append(r, low, strings.ToUpper(low), string(mixed))
	}
	return r
}

func idsOf() []uint64 {
	r := []uint64{0, 1, 0xffffffffffffffff, 0x0123456789abcdef, 0xfedcba9876543210, 0xdeadbeefdeadbeef, math.MaxInt64, 1 << 63, 0xa0a0a0a0a0a0a0a0, 0x0f0f0f0f0f0f0f0f}
	for k := 0; k < 64; k++ {
		r = append(r, 1<<k, 1<<k-1, 1<<k+1, ^uint64(1<<k))
	}
	for n := 0; n < 16; n++ {
		for d := uint64(0); d < 16; d++ {
			r = append(r, d<<(4*n), 0x1111111111111111&^(0xf<<(4*n))|d<<(4*n))
		}
	}
	for b := 0; b < 8; b++ {
		for v := uint64(0); v < 256; v++ {
			r = append(r, v<<(8*b))
		}
	}
	return r
}

func init() {
	explore.AddSeq(&explore.Seq{Name: "id texts", Prop: "C28",
		What: "about 3000 ids (every byte and every nibble value at every position, ±1 around powers of two): written text, JSON text, and every shortened form in lower, upper and mixed case read back by both readers",
		Run: func(c *explore.C) {
			for _, v := range idsOf() {
				if !c.Next(func() string { return fmt.Sprintf("%016x", v) }) {
					continue
				}
				id := proxy.Id(v)
				full := fmt.Sprintf("%016x", v)
				if s := id.String(); s != full {
					c.Fail("id %s is written as %q", full, s)
				}
				b, err := json.Marshal(&id)
				if err != nil || string(b) != `"`+full+`"` {
					c.Fail("id %s is written to JSON as %s (%v)", full, b, err)
				}
				if id.Uint64() != v {
					c.Fail("id %s as unsigned is %x", full, id.Uint64())
				}
				for _, f := range idForms(v) {
					c.Ops(2)
					got, err := proxy.ParseId([]byte(f))
					if err != nil || got != id {
						c.Fail("%q is read as %x (%v) instead of %s", f, uint64(got), err, full)
					}
					var j proxy.Id
					if err := json.Unmarshal([]byte(`"`+f+`"`), &j); err != nil || j != id {
						c.Fail("%q is read from JSON as %x (%v) instead of %s", f, uint64(j), err, full)
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "other texts", Prop: "C28",
		What: "every byte at every position of hex texts of 1, 2, 15 and 16 digits, all texts of 1-2 bytes and every text of 17-40 digits: accepted with the right value if and only if it has at most 16 hex digits and nothing else",
		Run: func(c *explore.C) {
			judge := func(t string) {
				c.Ops(2)
				ok := len(t) <= 16
				var want uint64
				for i := 0; i < len(t); i++ {
					x := strings.IndexByte("0123456789abcdef", t[i])
					if x < 0 {
						x = strings.IndexByte("0123456789ABCDEF", t[i])
					}
					if x < 0 {
						ok = false
						break
					}
					want = want<<4 | uint64(x)
				}
				got, err := proxy.ParseId([]byte(t))
				if (err == nil) != ok || ok && uint64(got) != want {
					c.Fail("the text %q is read as %x, error %v", t, uint64(got), err)
				}
				var j proxy.Id
				err = (&j).UnmarshalJSON([]byte(`"` + t + `"`))
				if (err == nil) != ok || ok && uint64(j) != want {
					c.Fail("the JSON text %q is read as %x, error %v", `"`+t+`"`, uint64(j), err)
				}
			}
			for l := 1; l <= 2; l++ {
				words(256, l, func(w []int) {
					if c.Next(func() string { return fmt.Sprint("bytes ", w) }) {
						b := make([]byte, l)
						for i, x := range w {
							b[i] = byte(x)
						}
						judge(string(b))
					}
				})
			}
			for _, base := range []string{"0123456789abcdef", "FEDCBA987654321", "0000000000000000", "ffffffffffffffff", "a1", "7"} {
				for i := range base {
					for x := 0; x < 256; x++ {
						if c.Next(func() string { return fmt.Sprintf("%q byte %d = %d", base, i, x) }) {
							b := []byte(base)
							b[i] = byte(x)
							judge(string(b))
						}
					}
				}
			}
			for n := 15; n <= 40; n++ {
				for _, d := range []string{"0", "1", "f", "A"} {
					for _, p := range []string{"", "0", "a"} {
						if c.Next(func() string { return fmt.Sprintf("%s + %d times %s", p, n, d) }) {
							judge(p + strings.Repeat(d, n))
						}
					}
				}
			}
			for _, t := range []string{`1`, `null`, `"`, ``, `"a`, `a"`, `1.5`, `{}`, `[]`, `true`, `'a'`} {
				if c.Next(func() string { return "JSON " + t }) {
					var j proxy.Id
					if err := (&j).UnmarshalJSON([]byte(t)); err == nil {
						c.Fail("the JSON text %s is read as id %x", t, uint64(j))
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "span JSON", Prop: "C28",
		What: "spans with each field over boundary values (ids over all 64 bits, times 1678..2262 with every nanosecond digit pattern, durations over the full range, all names of 1 character below 0x500, special runes, tags), written as JSON from a pointer, a value, and in lists, maps, structs and interfaces, and read back; each time also alone and on machines in 9 time zones (with offsets of hours, minutes and seconds)",
		Run: func(c *explore.C) {
			rt := func(s proxy.Span) {
				c.Ops(2)
				b, err := json.Marshal(&s)
				if err != nil {
					c.Fail("%s cannot be written: %v", ref.Show(s), err)
				}
				var got proxy.Span
				if err := json.Unmarshal(b, &got); err != nil {
					c.Fail("%s written as %s cannot be read: %v", ref.Show(s), b, err)
				}
				if !ref.Equal(got, s) {
					c.Fail("%s\nwritten as %s\nis read as %s", ref.Show(s), b, ref.Show(got))
				}

				// wherever the span is written from: as a value, in a list, a map, a struct, an interface
				for k, v := range []interface{}{s, []proxy.Span{s}, [1]proxy.Span{s}, map[string]proxy.Span{"s": s}, struct{ S proxy.Span }{s}, proxy.Trace{s},
					[]interface{}{s}, &[]*proxy.Span{&s}, map[string][]proxy.Span{"s": {s}}} {
					c.Ops(2)
					b, err := json.Marshal(v)
					if err != nil {
						c.Fail("%s in a %T cannot be written: %v", ref.Show(s), v, err)
					}
					var got proxy.Span
					switch k {
					case 0:
						err = json.Unmarshal(b, &got)
					case 1, 2, 5, 6, 7:
						l := make([]proxy.Span, 1)
						err = json.Unmarshal(b, &l)
						got = l[0]
					case 3:
						m := map[string]proxy.Span{}
						err = json.Unmarshal(b, &m)
						got = m["s"]
					case 4:
						var x struct{ S *proxy.Span }
						if err = json.Unmarshal(b, &x); err == nil {
							got = *x.S
						}
					case 8:
						m := map[string][]proxy.Span{}
						if err = json.Unmarshal(b, &m); err == nil {
							got = m["s"][0]
						}
					}
					if err != nil {
						c.Fail("%s in a %T written as %s cannot be read: %v", ref.Show(s), v, b, err)
					}
					if !ref.Equal(got, s) {
						c.Fail("%s in a %T\nwritten as %s\nis read as %s", ref.Show(s), v, b, ref.Show(got))
					}
				}
			}
			var times []int64
			for _, sec := range []int64{0, 1, -1, 59, 1500000000, 1577836799, 1577836800, 951782399, 951782400, 4102444800, 9223372035, -9223372036, 253402300799 % 9223372035, -62135596800 % 9223372035} {
				for _, ns := range []int64{0, 1, 9, 10, 99, 100, 999, 1000, 1001, 123456789, 120000000, 123000, 123000000, 100000001, 999999999, 500000000, 990000000, 1000000} {
					times = append(times, sec*1e9+ns)
				}
			}
			times = append(times, math.MaxInt64, math.MinInt64, math.MaxInt64-1, math.MinInt64+1)
			for k := 0; k < 63; k++ {
				times = append(times, 1<<k, -(1 << k), 1<<k-1)
			}
			// what is written must not depend on the time zone of the machine
			zones := []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("", -12*3600), time.FixedZone("", 14*3600), time.FixedZone("", 20700),
				time.FixedZone("local mean time", 1172), time.FixedZone("local mean time", -2670), time.FixedZone("", 59), time.FixedZone("", -1)}
			local := time.Local
			defer func() { time.Local = local }()
			for _, t := range times {
				for zi, z := range zones {
					if c.Next(func() string { return fmt.Sprint("time ", t, " in zone ", zi) }) {
						time.Local = z
						s := ref.Clone(codecBase)
						setNum(&s, 3+zi%6, t)
						rt(s)
						s.Timestamp = proxy.Timestamp(t)
						rt(s)
						time.Local = local
					}
				}
			}
			for _, t := range times {
				if c.Next(func() string { return fmt.Sprint("time ", t) }) {
					b, err := json.Marshal(proxy.Timestamp(t))
					if err != nil {
						c.Fail("time %d cannot be written: %v", t, err)
					}
					var got proxy.Timestamp
					if err := json.Unmarshal(b, &got); err != nil || int64(got) != t {
						c.Fail("time %d written as %s is read as %d (%v)", t, b, int64(got), err)
					}
					for f := 3; f < 9; f++ {
						s := ref.Clone(codecBase)
						setNum(&s, f, t)
						rt(s)
					}
				}
			}
			for _, text := range []string{`""`, `"x"`, `"2020"`, `"2020-01-01"`, `"2020-01-01 00:00:00"`, `"2020-13-01T00:00:00Z"`, `"2020-01-32T00:00:00Z"`, `"2020-01-01T24:00:00Z"`, `"2020-01-01T00:60:00Z"`,
				`"2020-01-01T00:00:00"`, `"2020-01-01T00:00:00Zx"`, `"x2020-01-01T00:00:00Z"`, `"2020-01-01T00:00:0xZ"`, `"-020-01-01T00:00:00Z"`, `"2020-02-30T00:00:00Z"`, `12`, `true`, `{}`, `[]`} {
				if c.Next(func() string { return "no time: " + text }) {
					c.Ops(2)
					got := proxy.Timestamp(42)
					if err := json.Unmarshal([]byte(text), &got); err == nil {
						c.Fail("%s is no time, it is read as %d", text, int64(got))
					}
					var s proxy.Span
					doc := `{"Timestamp":` + text + `}`
					if b, err := json.Marshal(codecBase); err != nil {
						c.Fail("%s", err)
					} else if m := map[string]json.RawMessage{}; json.Unmarshal(b, &m) == nil {
						n := 0
						for k, v := range m {
							if t := proxy.Timestamp(0); len(v) > 20 && json.Unmarshal(v, &t) == nil && t == codecBase.Timestamp {
								m[k] = json.RawMessage(text)
								n++
							}
						}
						if b, _ = json.Marshal(m); n > 0 {
							doc = string(b)
						}
						if err := json.Unmarshal([]byte(doc), &s); n > 0 && err == nil {
							c.Fail("%s has no valid time, it is read as %s", doc, ref.Show(s))
						}
					}
				}
			}
			for f := 0; f < 9; f++ {
				for _, v := range boundaries(true) {
					if c.Next(func() string { return fmt.Sprint("field ", f, " = ", v) }) {
						s := ref.Clone(codecBase)
						setNum(&s, f, v)
						rt(s)
					}
				}
			}
			var runes []rune
			for r := rune(0); r < 0x500; r++ {
				runes = append(runes, r)
			}
			runes = append(runes, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff)
			for _, r := range runes {
				if c.Next(func() string { return fmt.Sprintf("character %U", r) }) {
					s := ref.Clone(codecBase)
					s.Name = string(r)
					rt(s)
					s.Service = "a" + string(r) + "b"
					s.Tags = map[string]string{string(r): "x" + string(r), "b" + string(r): ""}
					rt(s)
				}
			}
			for n := 0; n < 4; n++ {
				if c.Next(func() string { return fmt.Sprint(n, " tags") }) {
					s := ref.Clone(codecBase)
					s.Tags = nil
					for i := 0; i < n; i++ {
						s.AddTag(fmt.Sprint(i), strings.Repeat("v", i*5000))
					}
					rt(s)
				}
			}
		}})
}
