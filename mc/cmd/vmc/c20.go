package main

import (
	"fmt"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"verif/explore"
	"verif/ref"
	"verif/rt"
)

// ---- C20: clock skew ----

const y2020 = proxy.Timestamp(1577836800_000_000_000)

const (
	tNone     = iota
	tAhead    // server 60 ms ahead
	tSame     // no skew
	tBehind   // server an hour behind
	tPartial  // three of four times
	tOld      // before 2020, without times
	tOldTimes // before 2020, with all times
	tInside   // the server within the client, not in the middle
	tInstant  // a client interval of no length
	tKinds
)

// timed sets the times of span number i by kind.
func timed(s *proxy.Span, kind, i int) {
	b := at(time.Duration(i*i) * 10 * time.Millisecond)
	s.Timestamp = b + 222
	s.Duration = time.Duration(1+i) * time.Millisecond
	four := func(skew time.Duration) {
		s.Timings.CS, s.Timings.CR = b, b.Add(time.Duration(40+2*i)*time.Millisecond)
		s.Timings.SR, s.Timings.SS = b.Add(skew).Add(10*time.Millisecond), b.Add(skew).Add(time.Duration(20+i*4)*time.Millisecond)
	}
	switch kind {
	case tAhead:
		four(60 * time.Millisecond)
	case tSame:
		four(5 * time.Millisecond)
		mid := (s.Timings.CS + s.Timings.CR) / 2
		s.Timings.SR, s.Timings.SS = mid-5000, mid+5000
	case tBehind:
		four(-time.Hour)
	case tPartial:
		four(7 * time.Second)
		switch i % 4 {
		case 0:
			s.Timings.CS = 0
		case 1:
			s.Timings.CR = 0
		case 2:
			s.Timings.SS = 0
		default:
			s.Timings.SR = 0
		}
	case tInside:
		four(2 * time.Millisecond)
		s.Timings.SS = s.Timings.SR + 2000000
	case tInstant:
		four(3 * time.Second)
		s.Timings.CR = s.Timings.CS
		if i%2 == 0 {
			s.Timings.SS = s.Timings.SR
		}
	case tOld:
		s.Timestamp = 1000000000*proxy.Timestamp(i) + 5
	case tOldTimes:
		four(60 * time.Millisecond)
		d := b - 1000000000000
		s.Timings.CS -= d
		s.Timings.CR -= d
		s.Timings.SR -= d
		s.Timings.SS -= d
	}
}

// corrected is the reference model of the correction: l with start and duration corrected. id 0 of missing roots: the parent
// of all roots is a synthetic span.
func corrected(l []proxy.Span) map[proxy.Id]proxy.Span {
	kids := map[proxy.Id][]proxy.Span{}
	for _, s := range l {
		if s.Parent != s.Id {
			kids[s.Parent] = append(kids[s.Parent], s)
		}
	}
	r := map[proxy.Id]proxy.Span{}
	var rec func(s proxy.Span, parent *proxy.Timestamp, off proxy.Timestamp)
	rec = func(s proxy.Span, parent *proxy.Timestamp, off proxy.Timestamp) {
		t := s.Timings
		s.Timestamp += off
		if t.CS > 0 && t.CR > 0 && t.SR > 0 && t.SS > 0 {
			s.Timestamp = t.CS + off
			s.Duration = time.Duration(t.CR - t.CS)
			off += (t.CS+t.CR)/2 - (t.SR+t.SS)/2
		}
		if parent != nil && s.Timestamp < y2020 {
			s.Timestamp = *parent
		}
		r[s.Id] = s
		ts := s.Timestamp
		for _, k := range kids[s.Id] {
			rec(k, &ts, off)
		}
	}
	roots := rootsOf(l)
	if len(roots) == 1 {
		rec(roots[0], nil, 0)
	} else {
		first := roots[0].Timestamp
		for _, x := range roots {
			first = min(first, x.Timestamp)
		}
		for _, x := range roots {
			rec(x, &first, 0)
		}
	}
	return r
}

func checkCorrected(l []proxy.Span, ds []*delivery, synthetic bool) {
	if len(ds) != 1 {
		rt.Fail("trace %s\nis delivered %d times", clips(ref.ShowAll(l)), len(ds))
	}
	want := corrected(l)
	n := 0
	for _, x := range ds[0].spans {
		w, ok := want[x.Id]
		if !ok {
			if synthetic {
				n++
				continue
			}
			rt.Fail("span %s is delivered in addition", ref.Show(x))
		}
		if !ref.Equal(w, x) {
			rt.Fail("span %x has to be %s\nbut is delivered as %s\nin the trace %s", uint64(x.Id), ref.Show(w), ref.Show(x), clips(ref.ShowAll(l)))
		}
		n++
	}
	if exp := len(l) + map[bool]int{true: 1}[synthetic]; n != exp {
		rt.Fail("trace %s\nis delivered with %d spans", clips(ref.ShowAll(l)), n)
	}
}

// trees of n nodes 0..n-1 with one root, or n+1 nodes of which the root n is missing.
func trees(n int, missing bool) (r [][]int) {
	p := make([]int, n)
	opts := n
	if missing {
		opts = n + 1
	}
	var rec func(i int)
	rec = func(i int) {
		if i < n {
			for k := 0; k < opts; k++ {
				if !missing || k != i {
					p[i] = k
					rec(i + 1)
				}
			}
			return
		}
		roots := 0
		for k := range p {
			if p[k] == k || p[k] == n {
				roots++
			}
			j := k
			for s := 0; s <= n && j < n && p[j] != j; s++ {
				j = p[j]
			}
			if j < n && p[j] != j {
				return // cycle
			}
		}
		if missing && roots < 2 || !missing && roots != 1 {
			return
		}
		r = append(r, append([]int{}, p...))
	}
	rec(0)
	return
}

type skewCase struct {
	par   []int
	kinds []int
}

// skewRun runs the cases at once; mode 1: spans with all times are reported by client and server on their own, 2: all
// spans of one kind have the same times.
func skewRun(cs []skewCase, missing bool, mode int) {
	halves := mode == 1
	s := newStage(256, 64)
	var all [][]proxy.Span
	sent := 0
	for c, k := range cs {
		trace := proxy.Id(0x100000 + c)
		// one of the spans may have the trace id
		id := func(i int) proxy.Id {
			if i == c%(len(k.par)+2) {
				return trace
			}
			return proxy.Id(i + 1)
		}
		var l []proxy.Span
		for i, p := range k.par {
			x := proxy.Span{Trace: trace, Id: id(i), Parent: id(p), Name: fmt.Sprint("op", i), Service: "svc", Tags: map[string]string{"i": fmt.Sprint(i)}}
			if mode == 2 {
				timed(&x, k.kinds[i], 1)
			} else {
				timed(&x, k.kinds[i], i+1)
			}
			l = append(l, x)
			if t := x.Timings; halves && t.CS != 0 && t.CR != 0 && t.SR != 0 && t.SS != 0 {
				a, b := ref.Clone(x), ref.Clone(x)
				a.Timings.SR, a.Timings.SS = 0, 0
				b.Timings.CS, b.Timings.CR = 0, 0
				b.Timestamp, b.Duration = t.SR, time.Duration(t.SS-t.SR)
				if (c+i)%2 == 0 {
					a, b = b, a
				}
				s.send(a, b)
			} else {
				s.send(x)
			}
			sent++
		}
		all = append(all, l)
	}
	if sent > 39000 {
		panic("too many spans")
	}
	rt.Sleep(9500 * time.Millisecond)
	s.wellFormed()
	ix := s.index()
	for _, l := range all {
		checkCorrected(l, ix[l[0].Trace], missing)
	}
}

// kindsOf is the k-th assignment of n kinds.
func kindsOf(k, n, kinds int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, k%kinds)
		k /= kinds
	}
	return
}

func init() {
	t3, t4, t5 := trees(3, false), trees(4, false), trees(5, false)
	f3, f2, f4 := trees(3, true), trees(2, true), trees(4, true)
	pow := func(b, e int) int {
		r := 1
		for ; e > 0; e-- {
			r *= b
		}
		return r
	}
	explore.Add(&explore.Scenario{Name: "trees of 3 spans", Prop: "C20",
		What: fmt.Sprintf("all %d trees of 3 spans (any root, any id order) with every assignment of 9 kinds of times (none; all four with the server ahead, behind by an hour, equal, inside; no client duration; three of four; before 2020 with and without times), the trace id being that of any span or of none, as one report or as halves, or all spans of one kind with the same times", len(t3)),
		Cfgs: noDeviations,
		Body: func() {
			mode := rt.Choose(3)
			t := t3[rt.Choose(len(t3))]
			var cs []skewCase
			for k := 0; k < pow(tKinds, 3); k++ {
				cs = append(cs, skewCase{t, kindsOf(k, 3, tKinds)})
			}
			skewRun(cs, false, mode)
		}})
	explore.Add(&explore.Scenario{Name: "trees of 4 spans", Prop: "C20",
		What: fmt.Sprintf("all %d trees of 4 spans with every assignment of the 9 kinds of times, as one report or as halves", len(t4)),
		Cfgs: noDeviations,
		Body: func() {
			mode := rt.Choose(2)
			t := t4[rt.Choose(len(t4))]
			var cs []skewCase
			for k := 0; k < pow(tKinds, 4); k++ {
				cs = append(cs, skewCase{t, kindsOf(k, 4, tKinds)})
			}
			skewRun(cs, false, mode)
		}})
	explore.Add(&explore.Scenario{Name: "trees of 5 spans", Prop: "C20",
		What: fmt.Sprintf("all %d trees of 5 spans with every assignment of the first 5 kinds (thorough only)", len(t5)),
		Cfgs: thoroughOnly,
		Body: func() {
			t := t5[rt.Choose(len(t5))]
			var cs []skewCase
			for k := 0; k < pow(5, 5); k++ {
				cs = append(cs, skewCase{t, kindsOf(k, 5, 5)})
			}
			skewRun(cs, false, 0)
		}})
	explore.Add(&explore.Scenario{Name: "missing root", Prop: "C20",
		What: fmt.Sprintf("all %d forests of 2-4 spans below one missing parent with every assignment of the first 5 kinds of times, different or the same ones for all: the correction starts at the synthetic root", len(f2)+len(f3)+len(f4)),
		Cfgs: noDeviations,
		Body: func() {
			mode := 2 * rt.Choose(2)
			fs := append(append(append([][]int{}, f2...), f3...), f4...)
			t := fs[rt.Choose(len(fs))]
			var cs []skewCase
			for k := 0; k < pow(5, len(t)); k++ {
				cs = append(cs, skewCase{t, kindsOf(k, len(t), 5)})
			}
			skewRun(cs, true, mode)
		}})
	explore.Add(&explore.Scenario{Name: "around 2020", Prop: "C20",
		What: "chains of three spans whose times are around 2020-01-01 (±1 ns, ±1 ms, ±5 s and their neighbours) while an ancestor shifts them by 0, 5 s or -5 s",
		Cfgs: noDeviations,
		Body: func() {
			var ds []time.Duration
			for _, b := range []time.Duration{0, -5 * time.Second, 5 * time.Second} {
				for _, x := range []time.Duration{-time.Millisecond, -1, 0, 1, 999999, time.Millisecond} {
					ds = append(ds, b+x)
				}
			}
			shift := []time.Duration{0, 5 * time.Second, -5 * time.Second}[rt.Choose(3)]
			first := ds[rt.Choose(len(ds))]
			s := newStage(256, 64)
			var all [][]proxy.Span
			for i, d := range ds {
				for j, e := range ds {
					l := []proxy.Span{{Id: 9, Parent: 9}, {Id: 5, Parent: 9}, {Id: 7, Parent: 5}}
					for k := range l {
						l[k].Trace = proxy.Id(0x1000 + i*100 + j)
						l[k].Duration = time.Millisecond
					}
					l[0].Timestamp = y2020.Add(first)
					l[1].Timestamp = y2020.Add(d)
					l[2].Timestamp = y2020.Add(e)
					if shift != 0 {
						cs := l[0].Timestamp
						l[0].Timings = proxy.Timings{CS: cs, CR: cs + 2000000, SR: cs.Add(-shift), SS: cs.Add(-shift) + 2000000}
					}
					all = append(all, l)
					s.send(l...)
				}
			}
			rt.Sleep(9500 * time.Millisecond)
			s.wellFormed()
			ix := s.index()
			for _, l := range all {
				checkCorrected(l, ix[l[0].Trace], false)
			}
		}})
	explore.Add(&explore.Scenario{Name: "small skews", Prop: "C20",
		What: "chains of three spans whose first, second or both have all four times and clocks apart by 27 amounts from 1 ns to 30 days in either direction, with intervals of 0, 1, 2, 1001 ns or 10 ms, below a root with or without an offset",
		Cfgs: noDeviations,
		Body: func() {
			var skews []time.Duration
			for _, d := range []time.Duration{1, 2, 3, 499, 1000, 1001, 50_000, 99_999, 100_000, 100_001, 999_999, 1_000_000, 1_000_001, time.Second, time.Hour, 30 * 24 * time.Hour} {
				skews = append(skews, d, -d)
			}
			skews = append(skews, 0)
			which := rt.Choose(3)
			lens := []time.Duration{0, 1, 2, 1001, 10 * time.Millisecond}
			cl := lens[rt.Choose(len(lens))]
			s := newStage(256, 64)
			var all [][]proxy.Span
			for i, d := range skews {
				for j, sl := range lens {
					for k, e := range skews {
						if which < 2 && k > 0 {
							break
						}
						l := []proxy.Span{{Id: 9, Parent: 9}, {Id: 5, Parent: 9}, {Id: 7, Parent: 5}}
						for m := range l {
							l[m].Trace = proxy.Id(0x10000 + i*1000 + j*100 + k)
							l[m].Timestamp = at(time.Duration(m) * time.Second)
							l[m].Duration = time.Duration(m)
						}
						set := func(m int, skew time.Duration) {
							b := l[m].Timestamp
							l[m].Timings = proxy.Timings{CS: b, CR: b.Add(cl), SR: b.Add(cl/2 - sl/2 + skew), SS: b.Add(cl/2 - sl/2 + skew + sl)}
						}
						if which != 1 {
							set(0, d)
						}
						if which == 1 {
							set(1, d)
						} else if which == 2 {
							set(1, e)
						}
						all = append(all, l)
						s.send(l...)
					}
				}
			}
			rt.Sleep(9500 * time.Millisecond)
			s.wellFormed()
			ix := s.index()
			for _, l := range all {
				checkCorrected(l, ix[l[0].Trace], false)
			}
		}})
	explore.Add(&explore.Scenario{Name: "without a time", Prop: "C20",
		What: "trees of three spans in which every span has one of 8 start times (none, 1, 1 ms, 1 h, 1 s before 2020, now, later, negative) and one of 6 durations, below a root that is shifted or not",
		Cfgs: noDeviations,
		Body: func() {
			starts := []proxy.Timestamp{0, 1, 1_000_000, 3600_000_000_000, y2020 - 1_000_000_000, at(0), at(time.Hour), -5}
			durs := []time.Duration{0, 1, time.Millisecond, time.Millisecond + 1, time.Hour, 40 * 24 * time.Hour}
			shape := rt.Choose(2)
			root := starts[rt.Choose(len(starts))]
			shift := rt.Choose(2) == 1
			s := newStage(256, 64)
			var all [][]proxy.Span
			n := 0
			for _, a := range starts {
				for _, da := range durs {
					for _, b := range starts {
						for _, db := range durs {
							l := []proxy.Span{{Id: 9, Parent: 9, Timestamp: root, Duration: 5}, {Id: 5, Parent: 9, Timestamp: a, Duration: da}, {Id: 7, Parent: []proxy.Id{5, 9}[shape], Timestamp: b, Duration: db}}
							for m := range l {
								l[m].Trace = proxy.Id(0x10000 + n)
							}
							if shift {
								l[0].Timings = proxy.Timings{CS: at(0), CR: at(100), SR: at(3000), SS: at(3100)}
							}
							n++
							all = append(all, l)
							s.send(l...)
						}
					}
				}
			}
			rt.Sleep(9500 * time.Millisecond)
			s.wellFormed()
			ix := s.index()
			for _, l := range all {
				checkCorrected(l, ix[l[0].Trace], false)
			}
		}})
	explore.Add(&explore.Scenario{Name: "deep and wide", Prop: "C20",
		What: "chains, stars and binary trees of 2, 50, 3000 and 8192 spans whose kinds of times repeat with period 1..5 or are set at the root or one inner span only",
		Cfgs: noDeviations, Heavy: true,
		Body: func() {
			n := []int{2, 50, 3000, 8192}[rt.Choose(4)]
			shape, per := rt.Choose(3), rt.Choose(7)
			c := skewCase{par: make([]int, n), kinds: make([]int, n)}
			for i := range c.par {
				switch shape {
				case 0:
					c.par[i] = max(0, i-1)
				case 2:
					c.par[i] = max(0, (i-1)/2)
				}
				switch {
				case per < 5:
					c.kinds[i] = (i % (per + 1)) % tOld
				case per == 5 && i == 0, per == 6 && i == n/2:
					c.kinds[i] = tBehind
				}
			}
			// the clock differences of long chains add up; keep them within a century
			if shape == 0 {
				for i := range c.kinds {
					if c.kinds[i] == tBehind && i > 100 && per < 5 {
						c.kinds[i] = tAhead
					}
				}
			}
			skewRun([]skewCase{c}, false, 0)
		}})
}
