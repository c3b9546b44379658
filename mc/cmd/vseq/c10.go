package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/ref"
)

func encode(c *explore.C, s proxy.Span) []byte {
	var b bytes.Buffer
	if err := codec.BinaryEncode(s, &b); err != nil {
		c.Fail("encoding %s fails: %v", ref.Show(s), err)
	}
	return b.Bytes()
}

func decode(b []byte) (proxy.Span, error) { return codec.BinaryDecode(bytes.NewReader(b)) }

func roundTrip(c *explore.C, s proxy.Span) {
	orig := ref.Clone(s)
	b := encode(c, s)
	if !ref.Equal(s, orig) {
		c.Fail("encoding changes the span %s to %s", ref.Show(orig), ref.Show(s))
	}
	got, err := decode(b)
	c.Ops(2)
	if err != nil {
		c.Fail("%s: its encoding %s is not decodable: %v", ref.Show(s), clip(fmt.Sprintf("%x", b)), err)
	}
	if !ref.Equal(got, s) {
		c.Fail("%s\nis decoded from its encoding as\n%s", ref.Show(s), ref.Show(got))
	}
	// the message may be reused
	for i := range b {
		b[i] = '#'
	}
	if !ref.Equal(got, orig) {
		c.Fail("%s\nbecomes %s when the message buffer is reused", ref.Show(orig), ref.Show(got))
	}
}

// setNum sets one of the nine numeric fields.
func setNum(s *proxy.Span, f int, v int64) {
	switch f {
	case 0:
		s.Id = proxy.Id(v)
	case 1:
		s.Trace = proxy.Id(v)
	case 2:
		s.Parent = proxy.Id(v)
	case 3:
		s.Timestamp = proxy.Timestamp(v)
	case 4:
		s.Duration = time.Duration(v)
	case 5:
		s.Timings.CS = proxy.Timestamp(v)
	case 6:
		s.Timings.CR = proxy.Timestamp(v)
	case 7:
		s.Timings.SR = proxy.Timestamp(v)
	case 8:
		s.Timings.SS = proxy.Timestamp(v)
	}
}

var codecBase = proxy.Span{Id: 0x1234567890abcdef, Trace: -0x1234567890abcdf, Parent: 77, Name: "name", Service: "service", Timestamp: 1500000000000001234, Duration: 4321,
	Tags: map[string]string{"a": "1", "protocolVersion": "json v2"}, Timings: proxy.Timings{CS: 1500000000000001111, CR: 1500000000000002222, SR: 1500000000000003333, SS: 1500000000000004444}}

func boundaries(all bool) []int64 {
	r := []int64{0, 1, -1, math.MaxInt64, math.MinInt64}
	for k := 0; k < 63; k++ {
		if !all && k%7 > 1 && k%7 < 5 && k < 60 {
			continue
		}
		for d := int64(-1); d <= 1; d++ {
			r = append(r, (int64(1)<<k)+d, -(int64(1)<<k)+d)
		}
	}
	return r
}

func init() {
	explore.AddSeq(&explore.Seq{Name: "numbers", Prop: "C10",
		What: "every numeric field over 0, ±1, ±(2^k-1, 2^k, 2^k+1) for all k; every pair of fields over 7 values; all nine over 3 values",
		Run: func(c *explore.C) {
			for f := 0; f < 9; f++ {
				for _, v := range boundaries(true) {
					for _, zero := range []bool{false, true} {
						if c.Next(func() string { return fmt.Sprintf("field %d = %d, others zero=%v", f, v, zero) }) {
							s := ref.Clone(codecBase)
							if zero {
								s = proxy.Span{}
							}
							setNum(&s, f, v)
							roundTrip(c, s)
						}
					}
				}
			}
			vals := []int64{0, 1, -1, 63, 64, math.MaxInt64, math.MinInt64}
			for f := 0; f < 9; f++ {
				for g := f + 1; g < 9; g++ {
					for _, v := range vals {
						for _, w := range vals {
							if c.Next(func() string { return fmt.Sprintf("fields %d,%d = %d,%d", f, g, v, w) }) {
								s := ref.Clone(codecBase)
								setNum(&s, f, v)
								setNum(&s, g, w)
								roundTrip(c, s)
							}
						}
					}
				}
			}
			v3 := []int64{0, math.MinInt64, 1500000000000001234}
			product([]int{3, 3, 3, 3, 3, 3, 3, 3, 3}, func(ix []int) {
				if c.Next(func() string { return fmt.Sprint("all fields ", ix) }) {
					s := ref.Clone(codecBase)
					for f, x := range ix {
						setNum(&s, f, v3[x])
					}
					roundTrip(c, s)
				}
			})
		}})
	explore.AddSeq(&explore.Seq{Name: "strings and tags", Prop: "C10",
		What: "name, service, tag key and tag value of every length 0..1100 and 2^k-1..2^k+1, 8150..8230 up to 2^23 bytes; all strings of 1-2 bytes; tag sets of 0-3 entries over 6 keys and 5 values; 0..300, 1000 and 5000 tags; pairs of spans decoded one after the other",
		Run: func(c *explore.C) {
			var lens []int
			for i := 0; i <= 1100; i++ {
				lens = append(lens, i)
			}
			for i := 8150; i <= 8230; i++ {
				lens = append(lens, i)
			}
			for k := 11; k <= 23; k++ {
				lens = append(lens, 1<<k-1, 1<<k, 1<<k+1)
			}
			text := func(n int) string {
				var b strings.Builder
				b.Grow(n)
				for i := 0; i < n; i++ {
					b.WriteByte(byte(i*7 + i/256 + n))
				}
				return b.String()
			}
			set := func(s *proxy.Span, f int, v string) {
				switch f {
				case 0:
					s.Name = v
				case 1:
					s.Service = v
				case 2:
					s.Tags = map[string]string{v: "value", "other": "x"}
				case 3:
					s.Tags = map[string]string{"key": v, "other": "x"}
				}
			}
			for _, n := range lens {
				for f := 0; f < 4; f++ {
					if c.Next(func() string { return fmt.Sprintf("string field %d of %d bytes", f, n) }) {
						s := ref.Clone(codecBase)
						set(&s, f, text(n))
						roundTrip(c, s)
						if n < 70000 {
							for g := 0; g < 4; g++ {
								if g != f {
									s = ref.Clone(codecBase)
									set(&s, g, text((n*31)%9000))
									set(&s, f, text(n))
									roundTrip(c, s)
								}
							}
						}
					}
				}
			}
			for l := 1; l <= 2; l++ {
				words(256, l, func(w []int) {
					if c.Next(func() string { return fmt.Sprint("bytes ", w) }) {
						b := make([]byte, l)
						for i, x := range w {
							b[i] = byte(x)
						}
						s := ref.Clone(codecBase)
						s.Name, s.Service, s.Tags = string(b), string(b), map[string]string{string(b): string(b)}
						roundTrip(c, s)
					}
				})
			}
			keys := []string{"", "a", "aa", "\x00", "protocolVersion", strings.Repeat("k", 600)}
			vals := []string{"", "v", "false", strings.Repeat("v", 9000), "\xff\xfe"}
			product([]int{7, 7, 7, 5, 5, 5}, func(ix []int) {
				if c.Next(func() string { return fmt.Sprint("tags ", ix) }) {
					s := ref.Clone(codecBase)
					s.Tags = nil
					for i := 0; i < 3; i++ {
						if ix[i] < 6 {
							s.AddTag(keys[ix[i]], vals[ix[3+i]])
						}
					}
					roundTrip(c, s)
				}
			})
			for n := 0; n <= 5000; n++ {
				if n > 300 && n != 1000 && n != 5000 {
					continue
				}
				if c.Next(func() string { return fmt.Sprint(n, " tags") }) {
					s := ref.Clone(codecBase)
					s.Tags = map[string]string{}
					for i := 0; i < n; i++ {
						s.Tags[fmt.Sprint("key", i)] = fmt.Sprint("value", i*i)
					}
					roundTrip(c, s)
				}
			}
			ls := []int{0, 1, 3, 511, 512, 513, 8191, 8192, 8193, 20000}
			product([]int{len(ls), len(ls), len(ls), 4}, func(ix []int) {
				if c.Next(func() string { return fmt.Sprint("pair ", ix) }) {
					mk := func(k int, ch string) proxy.Span {
						s := ref.Clone(codecBase)
						set(&s, ix[3], strings.Repeat(ch, ls[ix[k]]))
						return s
					}
					ss := []proxy.Span{mk(0, "a"), mk(1, "b"), mk(2, "c")}
					var got []proxy.Span
					for _, s := range ss {
						b := encode(c, s)
						g, err := decode(b)
						if err != nil {
							c.Fail("%s is not decodable: %v", ref.Show(s), err)
						}
						got = append(got, g)
					}
					c.Ops(6)
					if !ref.EqualAll(ss, got) {
						c.Fail("spans %s\ndecoded one after the other are %s", ref.ShowAll(ss), ref.ShowAll(got))
					}
				}
			})
		}})

	must := func(c *explore.C, b []byte, full string) {
		s, err := decode(b)
		c.Ops(1)
		if err == nil {
			c.Fail("the first %d of %d bytes of an encoded span decode to %s", len(b), len(full), ref.Show(s))
		}
	}
	explore.AddSeq(&explore.Seq{Name: "truncated messages", Prop: "C11", HangSeconds: 15,
		What: "every proper prefix of the encodings of 60 spans (boundary numbers, strings around 512 and 8192 bytes, 0-40 tags)",
		Run: func(c *explore.C) {
			var spans []proxy.Span
			spans = append(spans, proxy.Span{}, codecBase)
			for f := 0; f < 9; f++ {
				for _, v := range []int64{0, -1, math.MaxInt64, math.MinInt64} {
					s := ref.Clone(codecBase)
					setNum(&s, f, v)
					spans = append(spans, s)
				}
			}
			for _, n := range []int{0, 1, 64, 512, 8191, 8192, 8193, 9000} {
				s := ref.Clone(codecBase)
				s.Name = strings.Repeat("n", n)
				spans = append(spans, s)
				s = ref.Clone(codecBase)
				s.Tags = map[string]string{strings.Repeat("k", n): strings.Repeat("v", n)}
				spans = append(spans, s)
			}
			for _, n := range []int{1, 2, 3, 40, 63, 64, 130} {
				s := ref.Clone(codecBase)
				s.Tags = map[string]string{}
				for i := 0; i < n; i++ {
					s.Tags[fmt.Sprint(i)] = ""
				}
				spans = append(spans, s)
			}
			for _, s := range spans {
				var b []byte
				n := len(encode(c, s))
				for i := 0; i < n; i++ {
					if c.Next(func() string { return fmt.Sprintf("first %d of %d bytes of %s", i, n, ref.Show(s)) }) {
						if b == nil {
							b = encode(c, s)
						}
						must(c, b[:i], string(b))
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "arbitrary messages", Prop: "C11", HangSeconds: 15,
		OnCrash: "decoding the message ended the process",
		What:    "all byte strings of up to 2 bytes (thorough: 3); all of up to 5 (thorough: 6) over 13 bytes; after every field boundary of a valid encoding all 1-2 byte strings, and all 3 byte strings over 13 bytes; every single byte of 6 encodings replaced by each of 256 values; varints of up to 2000 continuation bytes at every field",
		Run: func(c *explore.C) {
			try := func(b []byte) {
				s, err := decode(b)
				c.Ops(1)
				if err == nil {
					c.Outcome(ref.Show(s))
				} else {
					c.Outcome(err.Error())
				}
				switch want, verdict := avroSpan(b); {
				case verdict == avroDamaged && err == nil:
					c.Fail("the message %s is damaged, it is decoded as %s", clip(fmt.Sprintf("%x", b)), ref.Show(s))
				case verdict == avroValid && err != nil:
					c.Fail("the message %s encodes %s, it is rejected: %v", clip(fmt.Sprintf("%x", b)), ref.Show(want), err)
				case verdict == avroValid && !ref.Equal(s, want):
					c.Fail("the message %s encodes\n%s\nit is decoded as\n%s", clip(fmt.Sprintf("%x", b)), ref.Show(want), ref.Show(s))
				}
			}
			max := 2
			if c.Thorough {
				max = 3
			}
			for l := 0; l <= max; l++ {
				words(256, l, func(w []int) {
					if c.Next(func() string { return fmt.Sprint(w) }) {
						b := make([]byte, l)
						for i, x := range w {
							b[i] = byte(x)
						}
						try(b)
					}
				})
			}
			al := []byte{0, 1, 2, 3, 4, 0x10, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xfe, 0xff}
			max = 5
			if c.Thorough {
				max = 6
			}
			for l := 3; l <= max; l++ {
				words(len(al), l, func(w []int) {
					if c.Next(func() string { return fmt.Sprint("alphabet ", w) }) {
						b := make([]byte, l)
						for i, x := range w {
							b[i] = al[x]
						}
						try(b)
					}
				})
			}
			// field boundaries of the encoding
			base := ref.Clone(codecBase)
			base.Tags = map[string]string{"a": "1"}
			enc := encode(c, base)
			var cuts []int
			for i := range enc {
				if i == 0 || enc[i-1]&0x80 == 0 {
					cuts = append(cuts, i)
				}
			}
			for _, at := range cuts {
				for l := 1; l <= 2; l++ {
					words(256, l, func(w []int) {
						if c.Next(func() string { return fmt.Sprint("after ", at, " valid bytes: ", w) }) {
							b := append([]byte{}, enc[:at]...)
							for _, x := range w {
								b = append(b, byte(x))
							}
							try(b)
							try(append(b, enc[min(len(enc), at+l):]...))
						}
					})
				}
				words(len(al), 3, func(w []int) {
					if c.Next(func() string { return fmt.Sprint("after ", at, " valid bytes, alphabet ", w) }) {
						b := append([]byte{}, enc[:at]...)
						for _, x := range w {
							b = append(b, al[x])
						}
						try(b)
						try(append(b, enc[at:]...))
					}
				})
				for _, n := range []int{5, 8, 9, 10, 11, 12, 64, 2000} {
					for _, fill := range []byte{0x80, 0xff, 0x81} {
						for _, end := range []byte{0, 1, 2, 3, 0x7f} {
							if n == 5 && fill != 0x80 {
								continue // lengths of gigabytes
							}
							if c.Next(func() string { return fmt.Sprintf("after %d valid bytes: %d times %x, %x", at, n, fill, end) }) {
								b := append([]byte{}, enc[:at]...)
								b = append(b, bytes.Repeat([]byte{fill}, n)...)
								try(b)
								b = append(b, end)
								if n != 5 {
									try(b)
									try(append(b, enc[at:]...))
								}
							}
						}
					}
				}
			}
			for k, s := range []proxy.Span{codecBase, {}, {Name: strings.Repeat("x", 70)}, {Tags: map[string]string{"": "", "a": "b"}}, {Id: math.MinInt64, Tags: map[string]string{"k": strings.Repeat("v", 70)}}, {Service: "\x80\x81"}} {
				e := encode(c, s)
				for i := range e {
					for x := 0; x < 256; x++ {
						if c.Next(func() string { return fmt.Sprint("encoding ", k, " byte ", i, " = ", x) }) {
							b := append([]byte{}, e...)
							b[i] = byte(x)
							try(b)
						}
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "tag blocks", Prop: "C11", HangSeconds: 15,
		What: "spans of 127 to 70000 tags in blocks of 1 to all, and spans of up to 5 tags in every division into blocks, each with or without the number of its bytes, with keys that repeat, and every prefix of each",
		Run: func(c *explore.C) {
			if avroOrder == nil {
				c.Next(func() string { return "unknown record" })
				return
			}
			head := encode(c, proxy.Span{Id: 1, Trace: 2})
			head = head[:len(head)-1]
			long := func(v int64) (b []byte) {
				u := uint64(v<<1) ^ uint64(v>>63)
				for ; u >= 0x80; u >>= 7 {
					b = append(b, byte(u)|0x80)
				}
				return append(b, byte(u))
			}
			text := func(s string) []byte { return append(long(int64(len(s))), s...) }
			for _, n := range []int{127, 128, 1000, 4095, 4096, 4097, 5000, 20000, 70000} {
				for _, per := range []int{1, 100, 4096, 65536, n} {
					for sized := 0; sized < 2; sized++ {
						if !c.Next(func() string { return fmt.Sprint(n, " tags in blocks of ", per, " sized ", sized) }) {
							continue
						}
						want := proxy.Span{Id: 1, Trace: 2}
						b := append([]byte{}, head...)
						var cuts []int
						for i := 0; i < n; i += per {
							var block []byte
							j := min(n, i+per)
							for k := i; k < j; k++ {
								key, val := fmt.Sprint("key", k), fmt.Sprint(k%7)
								block = append(append(block, text(key)...), text(val)...)
								want.AddTag(key, val)
							}
							if sized == 0 {
								b = append(b, long(int64(j-i))...)
							} else {
								b = append(append(b, long(int64(i-j))...), long(int64(len(block)))...)
							}
							b = append(b, block...)
							cuts = append(cuts, len(b))
						}
						b = append(b, 0)
						got, err := decode(b)
						c.Ops(1)
						if err != nil || !ref.Equal(got, want) {
							c.Fail("%d tags in blocks of %d (with sizes: %d): decoded with %d tags, %v", n, per, sized, len(got.Tags), err)
						}
						for i, at := range cuts {
							if i < 3 || i+3 > len(cuts) {
								must(c, b[:at], string(b))
								must(c, b[:at-1], string(b))
							}
						}
					}
				}
			}
			for n := 1; n <= 5; n++ {
				// 0: same block, 1: a new block, 2: a new block with its size
				words(3, n, func(w []int) {
					if w[0] == 0 {
						return
					}
					for _, keys := range []int{1, 2, 5} {
						if !c.Next(func() string { return fmt.Sprint("blocks ", w, " of ", keys, " keys") }) {
							continue
						}
						want := proxy.Span{Id: 1, Trace: 2}
						b := append([]byte{}, head...)
						for i := 0; i < n; {
							j := i + 1
							for j < n && w[j] == 0 {
								j++
							}
							var block []byte
							for k := i; k < j; k++ {
								key, val := fmt.Sprint("k", k%keys), strings.Repeat("v", 1+k*20)
								block = append(append(block, text(key)...), text(val)...)
								want.AddTag(key, val)
							}
							if w[i] == 1 {
								b = append(b, long(int64(j-i))...)
							} else {
								b = append(append(b, long(int64(i-j))...), long(int64(len(block)))...)
							}
							b = append(b, block...)
							i = j
						}
						b = append(b, 0)
						got, err := decode(b)
						c.Ops(1)
						if err != nil || !ref.Equal(got, want) {
							c.Fail("the message %x encodes\n%s\nit is decoded as\n%s %v", b, ref.Show(want), ref.Show(got), err)
						}
						for i := range b {
							must(c, b[:i], string(b))
						}
					}
				})
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "huge lengths", Prop: "C11", HangSeconds: 30, Single: true,
		OnCrash: "decoding the message ended the process",
		What:    "every length from 2^13 to 2^63 (2^k-1, 2^k) and their negatives claimed for the name, a tag key and the number of tags of a message that ends shortly after",
		Run: func(c *explore.C) {
			zz := func(v int64) []byte {
				u := uint64(v<<1) ^ uint64(v>>63)
				var b []byte
				for u >= 0x80 {
					b = append(b, byte(u)|0x80)
					u >>= 7
				}
				return append(b, byte(u))
			}
			for k := 13; k <= 63; k++ {
				if k > 24 && k < 31 && k != 28 {
					continue
				}
				for d := int64(-1); d <= 0; d++ {
					for _, neg := range []int64{1, -1} {
						for _, where := range []string{"name", "key", "tags", "block bytes"} {
							v := neg * (int64(1)<<k + d)
							if k == 31 && d == -1 && neg == 1 && where != "name" {
								continue // two gigabytes once is enough
							}
							if c.Next(func() string { return fmt.Sprint(where, " claims ", v) }) {
								b := make([]byte, 3)
								switch where {
								case "name":
									b = append(b, zz(v)...)
								case "key":
									b = append(b, make([]byte, 8)...)
									b = append(b, 2)
									b = append(b, zz(v)...)
								case "tags":
									b = append(b, make([]byte, 8)...)
									b = append(b, zz(v)...)
								case "block bytes":
									b = append(b, make([]byte, 8)...)
									b = append(b, 1)
									b = append(b, zz(v)...)
								}
								b = append(b, "xyz"...)
								s, err := decode(b)
								c.Ops(1)
								if err == nil && where != "block bytes" && where != "tags" {
									c.Fail("a %s of %d bytes that are not there is decoded as %s", where, v, ref.Show(s))
								}
							}
						}
					}
				}
			}
		}})
}
