package main

import (
	"encoding/binary"
	"fmt"

	"github.com/flachnetz/dd-zipkin-proxy/cache"

	"verif/explore"
)

// collide are pairs of strings with the same 64 bit FNV-1a hash.
var collide = []string{"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ", "gMPflVXtwGDXbIhP73TX", "LtHf1prlU1bCeYZEdqWf",
	"pFuM83THhM-Qw8FI5FKo", ".jPx7rOtTDteKAwvfOEo", "7mohtcOFVz", "c1E51sSEyx"}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// families of so many strings that any short digest of the content has collisions among them.
var families = []struct {
	name string
	at   func(i int) string
}{
	{"numbers", func(i int) string { return fmt.Sprint(i) }},
	{"ids", func(i int) string { return fmt.Sprintf("%016x", mix(uint64(i))) }},
	{"names", func(i int) string { return fmt.Sprintf("service-%d/%03d", i/1000, i%1000) }},
	{"bytes", func(i int) string {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], mix(uint64(i)))
		return string(b[:4+i%5])
	}},
	{"collisions", func(i int) string {
		if i < 1000 {
			return collide[i%len(collide)]
		}
		return fmt.Sprintf("%x-%x", i%1000, i/1000)
	}},
}

func init() {
	explore.AddSeq(&explore.Seq{Name: "many contents", Prop: "C15",
		What: "500000 different contents (thorough: 2000000) of 5 families, in 4 ways, so many that any digest of 32 bits has collisions among those in the cache at one time, and pairs with equal 64 bit FNV-1a hashes: every result compared at once, and once more while it is still cached",
		Run: func(c *explore.C) {
			n := 500000
			if c.Thorough {
				n = 2000000
			}
			for _, f := range families {
				for how := 0; how < 4; how++ {
					if !c.Next(func() string { return fmt.Sprint(f.name, ", way ", how) }) {
						continue
					}
					var buf [64]byte
					intern := func(i int) {
						s := f.at(i)
						var got string
						switch (how + map[bool]int{true: i}[how == 3]) % 3 {
						case 0:
							got = cache.String(s)
						case 1:
							k := copy(buf[:], s)
							got = cache.StringForByteSliceCopy(buf[:k])
							clear(buf[:k])
						default:
							got = cache.StringForByteSliceNoCopy([]byte(s))
						}
						if got != s {
							c.Fail("content number %d, %q, is interned as %q", i, s, got)
						}
					}
					for i := 0; i < n; i++ {
						c.Ops(1)
						intern(i)
						if i%3 == 0 && i > 60000 {
							intern(i - 50000)
						}
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "many strings", Prop: "C16", HangSeconds: 60,
		What: "400000 different strings of 5 families (so many that any digest of 32 bits has collisions, and pairs with equal 64 bit FNV-1a hashes) in a cache that holds them all or half of them: size, count, what is found and what is not",
		Run: func(c *explore.C) {
			over := lruOverhead()
			n := 400000
			for _, f := range families {
				for _, part := range []int{1, 2} {
					if !c.Next(func() string { return fmt.Sprint(f.name, ", all / ", part) }) {
						continue
					}
					// equal strings can only follow each other closely here
					var l []string
					seen := map[string]bool{}
					bytes := 0
					for i := 0; i < n; i++ {
						if s := f.at(i); !seen[s] {
							seen[s] = true
							l = append(l, s)
							bytes += len(s) + over
						}
					}
					max := 1 << 30
					if part == 2 {
						max = bytes / 2
					}
					real := cache.NewLRUCache(max)
					size, count, first := 0, 0, 0
					for i, s := range l {
						c.Ops(1)
						if got := real.Get(s); got != "" {
							c.Fail("string number %d, %q, is found as %q before it was inserted", i, s, got)
						}
						real.Set(s)
						for size >= max {
							size -= len(l[first]) + over
							count--
							first++
						}
						size += len(s) + over
						count++
						if real.Size() != size || real.Count() != count {
							c.Fail("after %d strings size and count are %d, %d instead of %d, %d", i+1, real.Size(), real.Count(), size, count)
						}
					}
					for i, s := range l {
						want := ""
						if i >= first {
							want = s
						}
						if got := real.Get(s); got != want {
							c.Fail("string number %d of %d, %q, is found as %q instead of %q", i, len(l), s, got, want)
						}
					}
				}
			}
		}})
}
