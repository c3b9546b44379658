package main

import (
	"fmt"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/cache"

	"verif/explore"
)

// lruRef is the specification: distinct strings, most recently used first.
type lruRef struct {
	max, over int
	l         []string
}

func (r *lruRef) size() int {
	n := 0
	for _, s := range r.l {
		n += len(s) + r.over
	}
	return n
}

func (r *lruRef) touch(k string) bool {
	for i, s := range r.l {
		if s == k {
			copy(r.l[1:i+1], r.l[:i])
			r.l[0] = k
			return true
		}
	}
	return false
}

func (r *lruRef) set(k string) {
	if r.touch(k) {
		return
	}
	for r.size() >= r.max {
		r.l = r.l[:len(r.l)-1]
	}
	r.l = append([]string{k}, r.l...)
}

func lruOverhead() int {
	c := cache.NewLRUCache(1 << 30)
	c.Set("x")
	return c.Size() - 1
}

type lruOp struct {
	set bool
	k   string
}

func (o lruOp) String() string {
	k := o.k
	if len(k) > 3 {
		k = fmt.Sprintf("%s(%d bytes)", k[:2], len(k))
	}
	if o.set {
		return "Set " + k
	}
	return "Get " + k
}

// lruRun applies the operations to a fresh cache and to the reference, comparing after each.
func lruRun(c *explore.C, max, over int, ops []lruOp) *lruRef {
	real := cache.NewLRUCache(max)
	r := &lruRef{max: max, over: over}
	for i, o := range ops {
		c.Ops(1)
		if o.set {
			real.Set(o.k)
			r.set(o.k)
		} else {
			got := real.Get(o.k)
			want := ""
			if r.touch(o.k) {
				want = o.k
			}
			if got != want {
				c.Fail("limit %d: %v: the lookup returns %q instead of %q", max, ops[:i+1], clip(got), clip(want))
			}
		}
		if real.Size() != r.size() || real.Count() != len(r.l) {
			c.Fail("limit %d: after %v the cache reports %d entries of size %d, it should hold %d of size %d", max, ops[:i+1], real.Count(), real.Size(), len(r.l), r.size())
		}
	}
	return r
}

// lruProbe replays ops followed by the suffix and looks everything up.
func lruProbe(c *explore.C, max, over int, ops []lruOp, keys []string, fresh int) {
	all := append([]lruOp{}, ops...)
	for i := 0; i < fresh; i++ {
		all = append(all, lruOp{true, fmt.Sprint("fresh", i)})
	}
	for _, k := range keys {
		all = append(all, lruOp{false, k})
	}
	for i := 0; i < fresh; i++ {
		all = append(all, lruOp{false, fmt.Sprint("fresh", i)})
	}
	lruRun(c, max, over, all)
}

func init() {
	explore.AddSeq(&explore.Seq{Name: "operation sequences", Prop: "C16", HangSeconds: 12,
		What: "every sequence of up to 6 (thorough: 7) lookups and insertions of 5 strings (three short, also with characters of several bytes and bytes that are no characters, one costing two, one costing five entries) and up to 8 (thorough: 9) of 3 strings, for 7 limits around 1 to 5 entries; size, count and lookup results compared after each step, full contents at the end",
		Run: func(c *explore.C) {
			over := lruOverhead()
			limits := []int{1, over, over + 1, over + 2, 2*over + 2, 3 * (over + 1), 3*(over+1) + 1, 5*over + 20}
			sets := [][]string{{"a", "ä", "c\xff\x00", "d" + strings.Repeat("x", over), "e" + strings.Repeat("€", 4*over/3)}, {"a", "b", "c"}}
			for si, keys := range sets {
				var ops []lruOp
				for _, k := range keys {
					ops = append(ops, lruOp{true, k}, lruOp{false, k})
				}
				max := []int{6, 8}[si]
				if c.Thorough {
					max++
				}
				for l := 1; l <= max; l++ {
					words(len(ops), l, func(w []int) {
						if !c.Next(func() string { return fmt.Sprint("strings ", si, " operations ", w) }) {
							return
						}
						seq := make([]lruOp, l)
						for i, x := range w {
							seq[i] = ops[x]
						}
						for _, lim := range limits {
							if l == max && si == 1 && lim != 2*over+2 {
								continue
							}
							if l == max {
								lruProbe(c, lim, over, seq, keys, 0)
							} else {
								lruRun(c, lim, over, seq)
							}
						}
					})
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "reachable states", Prop: "C16", HangSeconds: 12,
		What: "breadth first over all reachable states (ordered contents) of a cache for 7 (thorough: 8) strings of 5 sizes and 6 limits: from each state every operation, followed by 0..8 insertions of new strings and a lookup of everything, each on a fresh cache",
		Run: func(c *explore.C) {
			over := lruOverhead()
			keys := []string{"a", "bb", "c" + strings.Repeat("c", over/2), "d" + strings.Repeat("ü", over/2), "e" + strings.Repeat("y", 4*over), "f", "é"}
			if c.Thorough {
				keys = append(keys, "h"+strings.Repeat("z", 7))
			}
			var ops []lruOp
			for _, k := range keys {
				ops = append(ops, lruOp{true, k}, lruOp{false, k})
			}
			for _, lim := range []int{over + 3, 2*over + 1, 3*over + 10, 4*over + 4, 5*over + 7, 7 * over} {
				type node struct{ path []lruOp }
				seen := map[string]bool{"[]": true}
				queue := []node{{}}
				for len(queue) > 0 {
					n := queue[0]
					queue = queue[1:]
					for _, o := range ops {
						path := append(append([]lruOp{}, n.path...), o)
						// the reference decides what is new
						r := &lruRef{max: lim, over: over}
						for _, p := range path {
							if p.set {
								r.set(p.k)
							} else {
								r.touch(p.k)
							}
						}
						st := fmt.Sprint(r.l)
						if !seen[st] {
							seen[st] = true
							queue = append(queue, node{path})
						}
						if c.Next(func() string { return fmt.Sprint("limit ", lim, ": ", path) }) {
							c.Outcome(fmt.Sprint(lim, st))
							for f := 0; f <= 8; f++ {
								lruProbe(c, lim, over, path, keys, f)
							}
						}
					}
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "large strings", Prop: "C16", HangSeconds: 20,
		What: "every sequence of up to 3 insertions and lookups, and of 4 or 5 insertions, of strings of 1, 4096, 65535, 65536, 65537, 300000 and 2000000 bytes with limits of 65536, 131072 + some, 300000, 700000 and 5 MiB, compared after each operation, contents at the end",
		Run: func(c *explore.C) {
			over := lruOverhead()
			big := strings.Repeat("0123456789abcde", 140000)
			var keys []string
			for i, n := range []int{1, 4096, 65535, 65536, 65537, 300000, 2000000} {
				keys = append(keys, big[i:i+n])
			}
			for _, lim := range []int{65536, 131073 + 2*over, 300000, 700000, 5 << 20} {
				for l := 1; l <= 5; l++ {
					n := 2 * len(keys)
					if l > 3 {
						n = len(keys)
					}
					words(n, l, func(w []int) {
						if !c.Next(func() string { return fmt.Sprint("limit ", lim, " operations ", w) }) {
							return
						}
						var ops []lruOp
						for _, x := range w {
							ops = append(ops, lruOp{x < len(keys), keys[x%len(keys)]})
						}
						if l < 3 {
							lruProbe(c, lim, over, ops, keys, 1)
						} else {
							lruRun(c, lim, over, ops)
						}
					})
				}
			}
		}})
	explore.AddSeq(&explore.Seq{Name: "long histories", Prop: "C16", HangSeconds: 12,
		What: "cyclic insertion and lookup histories of 5000 operations for every combination of 6 strides, 5 working set sizes and 4 limits, compared after each operation",
		Run: func(c *explore.C) {
			over := lruOverhead()
			for _, lim := range []int{10 * over, 10*over + 13, 100 * over, 333 * over} {
				for _, ws := range []int{7, 11, 50, 120, 401} {
					for _, stride := range []int{1, 2, 3, 5, 17, 101} {
						if c.Next(func() string { return fmt.Sprintf("limit %d, %d strings, stride %d", lim, ws, stride) }) {
							var ops []lruOp
							for i := 0; i < 5000; i++ {
								k := (i * stride) % ws
								if i%3 == 2 {
									k = (i * i) % ws
								}
								ops = append(ops, lruOp{i%4 != 3, fmt.Sprint("k", k, strings.Repeat([]string{"-", "µ"}[k%2], k%9))})
							}
							lruRun(c, lim, over, ops)
						}
					}
				}
			}
		}})
}
