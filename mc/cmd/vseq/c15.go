package main

import (
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/cache"

	"verif/explore"
)

func init() {
	explore.AddSeq(&explore.Seq{Name: "interning histories", Prop: "C15",
		What: "every sequence of up to 4 (thorough: 5) of 17 operations: interning one of 5 contents (1, 8, 8, 600 and 9000 bytes) as a string, as a slice to be copied (which the caller overwrites right after) or as a slice given away, the empty slice, and evicting everything by interning 5 MiB of other strings; every result compared at once and at the end of the history",
		Run: func(c *explore.C) {
			contents := []string{"a", "abcdefgh", "abcdefgX", strings.Repeat("xy", 300), strings.Repeat("long", 2250)}
			buf := make([]byte, 16*1024) // reused by the caller, like the pooled buffers
			var ctr uint64
			n := 3*len(contents) + 2
			max := 4
			if c.Thorough {
				max = 5
			}
			for l := 1; l <= max; l++ {
				words(n, l, func(w []int) {
					if !c.Next(func() string { return fmt.Sprint("operations ", w) }) {
						return
					}
					type held struct{ got, want string }
					var hs []held
					for _, x := range w {
						c.Ops(1)
						var got, want string
						switch {
						case x == n-1:
							for i := 0; i < 6; i++ {
								ctr++
								b := make([]byte, 1<<20)
								binary.LittleEndian.PutUint64(b, ctr<<8|uint64(c.Shard))
								b[1<<20-1] = 1
								s := cache.StringForByteSliceNoCopy(b)
								if len(s) != 1<<20 || s != string(b) {
									c.Fail("a slice of 1 MiB is interned as something else")
								}
							}
							continue
						case x == n-2:
							got = cache.String("") + cache.StringForByteSliceCopy(nil) + cache.StringForByteSliceNoCopy([]byte{})
						case x%3 == 0:
							want = contents[x/3]
							got = cache.String(strings.Clone(want))
						case x%3 == 1:
							want = contents[x/3]
							k := copy(buf, want)
							got = cache.StringForByteSliceCopy(buf[:k])
							if got != want {
								c.Fail("operations %v: %q is interned as %q", w, clip(want), clip(got))
							}
							for i := range buf[:k] {
								buf[i] = '#'
							}
						default:
							want = contents[x/3]
							got = cache.StringForByteSliceNoCopy([]byte(want))
						}
						if got != want {
							c.Fail("operations %v: %q is interned as %q", w, clip(want), clip(got))
						}
						hs = append(hs, held{got, want})
					}
					for _, h := range hs {
						if h.got != h.want {
							c.Fail("operations %v: the result of interning %q became %q", w, clip(h.want), clip(h.got))
						}
					}
				})
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "similar contents", Prop: "C15",
		What: "contents that share all but a little: every prefix and every suffix of 3 strings of 1500 bytes, contents of 40, 300 and 5000 bytes differing in one byte at every position, ending in 0..3 of 6 kinds of special bytes (NUL, space, newline, 0xff, 'x', combining character), and in other letter case; each interned after all others in 4 ways and both orders, all results compared at the end",
		Run: func(c *explore.C) {
			var groups [][]string
			for _, base := range []string{strings.Repeat("a", 1500), strings.Repeat("abc", 500), strings.Repeat("\x00", 1500)} {
				var p, s []string
				for i := 1; i <= len(base); i++ {
					p = append(p, base[:i])
					s = append(s, "z"+base[len(base)-i:])
				}
				groups = append(groups, p, s)
			}
			for _, n := range []int{40, 300, 5000} {
				var g []string
				for i := 0; i < n; i += 1 + n/700 {
					b := []byte(strings.Repeat("q", n))
					b[i] ^= 0x20
					g = append(g, string(b))
				}
				groups = append(groups, g)
			}
			var g []string
			for _, base := range []string{"v", "Name", "some longer value", strings.Repeat("w", 300)} {
				for _, e := range []string{"\x00", " ", "\n", "\xff", "x", "\u0301"} {
					for k := 0; k <= 3; k++ {
						g = append(g, base+strings.Repeat(e, k), strings.Repeat(e, k)+base, strings.ToUpper(base)+strings.Repeat(e, k), strings.ToLower(base)+strings.Repeat(e, k))
					}
				}
			}
			groups = append(groups, g)
			buf := make([]byte, 16*1024)
			for gi, g := range groups {
				for order := 0; order < 2; order++ {
					for how := 0; how < 4; how++ {
						if !c.Next(func() string { return fmt.Sprint("group ", gi, " order ", order, " way ", how) }) {
							continue
						}
						got := make([]string, len(g))
						for round := 0; round < 2; round++ {
							for i := range g {
								k := i
								if order == 1 {
									k = len(g) - 1 - i
								}
								c.Ops(1)
								switch (how + map[bool]int{true: i}[how == 3]) % 3 {
								case 0:
									got[k] = cache.String(strings.Clone(g[k]))
								case 1:
									n := copy(buf, g[k])
									got[k] = cache.StringForByteSliceCopy(buf[:n])
									for j := range buf[:n] {
										buf[j] = '#'
									}
								default:
									got[k] = cache.StringForByteSliceNoCopy([]byte(g[k]))
								}
								if got[k] != g[k] {
									c.Fail("%q of %d bytes is interned as %q of %d bytes", clip(g[k]), len(g[k]), clip(got[k]), len(got[k]))
								}
							}
						}
						for i := range g {
							if got[i] != g[i] {
								c.Fail("the result of interning %q became %q", clip(g[i]), clip(got[i]))
							}
						}
					}
				}
			}
		}})
}
