package explore

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// C is the context of one shard of a Seq.
type C struct {
	Thorough      bool
	Shard, Shards int
	only, upto    int64
	deadline      time.Time
	idx           int64
	cases         int64
	ops           int64
	label         func() string
	cur           *curFile
	outcomes      map[uint64]struct{}
	samples       []string
	truncated     bool
	v             *Violation
	tick          int
}

type stopEnum struct{}

// Next announces the next case and tells whether this shard has to run it.
func (c *C) Next(label func() string) bool {
	i := c.idx
	c.idx++
	if c.only >= 0 {
		if i > c.only {
			panic(stopEnum{})
		}
		if i != c.only {
			return false
		}
	} else {
		if c.Shards > 1 && int(i%int64(c.Shards)) != c.Shard {
			return false
		}
		if c.upto >= 0 && i > c.upto {
			panic(stopEnum{})
		}
	}
	c.tick++
	if c.tick&15 == 0 && time.Now().After(c.deadline) {
		c.truncated = true
		panic(stopEnum{})
	}
	c.cases++
	c.label = label
	c.cur.set(i + 1)
	if len(c.samples) < 2 || (c.cases&(c.cases-1) == 0 && len(c.samples) < 6) {
		c.samples = append(c.samples, clip(label(), 400))
	}
	return true
}

// Ops counts operations executed on the real code.
func (c *C) Ops(n int) { c.ops += int64(n) }

// Outcome records an observed outcome (only counted).
func (c *C) Outcome(s string) {
	if len(c.outcomes) > 100000 {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	c.outcomes[h.Sum64()] = struct{}{}
}

// Fail reports a violation in the current case.
func (c *C) Fail(format string, args ...any) {
	c.v = &Violation{Class: "violation", Message: clip(fmt.Sprintf(format, args...), 4000)}
	panic(stopEnum{})
}

// Time left for the shard.
func (c *C) Left() time.Duration { return time.Until(c.deadline) }

type seqRes struct {
	Cases, Ops int64
	Idx        int64
	Outcomes   []uint64
	Samples    []string
	Truncated  bool
	V          *Violation
	stall      string
}

func runSeqWorker(name string, shard, shards int, only, upto int64, thorough bool, dl int64) {
	debug.SetGCPercent(200)
	q := findSeq(name)
	out := os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_RDWR, 0)
	os.Stdout = null
	os.Stdin = null
	c := &C{Thorough: thorough, Shard: shard, Shards: shards, only: only, upto: upto, cur: openCur(), outcomes: map[uint64]struct{}{}}
	c.deadline = time.UnixMilli(dl)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopEnum); ok {
					return
				}
				c.v = &Violation{Class: "panic", Message: clip(fmt.Sprintf("panic: %v", r), 2000), Stack: string(debug.Stack())}
			}
		}()
		q.Run(c)
	}()
	r := seqRes{Cases: c.cases, Ops: c.ops, Idx: c.idx, Samples: c.samples, Truncated: c.truncated, V: c.v}
	for h := range c.outcomes {
		r.Outcomes = append(r.Outcomes, h)
	}
	if r.V != nil {
		r.V.Index = c.idx - 1
		if c.label != nil {
			r.V.Label = clip(c.label(), 3000)
		}
	}
	b, _ := json.Marshal(r)
	out.Write(append(b, '\n'))
	os.Exit(0)
}

func seqShard(q *Seq, thorough bool, shard, shards int, only, upto int64, deadline time.Time) seqRes {
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	args := []string{"-seqworker", q.Name, "-shard", fmt.Sprint(shard), "-shards", fmt.Sprint(shards), "-only", fmt.Sprint(only), "-upto", fmt.Sprint(upto),
		"-tier", tier, "-deadline", fmt.Sprint(deadline.UnixMilli())}
	p, err := startProc(args, 2)
	if err != nil {
		return seqRes{stall: err.Error()}
	}
	defer p.kill()
	limit := float64(q.HangSeconds)
	if limit == 0 {
		limit = 40
	}
	done := make(chan struct{})
	reason := p.watch(limit, done)
	line, err := p.out.ReadBytes('\n')
	close(done)
	if err == nil {
		var r seqRes
		if err := json.Unmarshal(line, &r); err == nil {
			return r
		}
	}
	idx := p.cur.get() - 1
	p.cmd.Process.Kill()
	p.cmd.Wait()
	why := reason()
	if why == "stall" {
		return seqRes{stall: "no progress without CPU use"}
	}
	st := p.errb.String()
	v := &Violation{Class: "crash", Index: idx, Stack: clip(st, 3000)}
	if why != "" {
		v.Class, v.Message = strings.SplitN(why, ":", 2)[0], why
	} else {
		if strings.Contains(p.cmd.ProcessState.String(), "killed") {
			return seqRes{stall: "worker was killed from outside"}
		}
		v.Message = "the process crashed: " + firstLines(st, 4)
	}
	if q.OnCrash != "" {
		v.Message = q.OnCrash + ": " + v.Message
	}
	return seqRes{V: v}
}

func runSeq(q *Seq, thorough bool, deadline time.Time, nw int, res *Result) *Part {
	part := &Part{Name: q.Name, Kind: "seq", What: q.What, Config: "all cases", Complete: true}
	start := time.Now()
	if q.Single {
		nw = 1
	}
	if q.MaxShards > 0 && nw > q.MaxShards {
		nw = q.MaxShards
	}
	rs := make([]seqRes, nw)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			rs[w] = seqShard(q, thorough, w, nw, -1, -1, deadline)
		}(w)
	}
	wg.Wait()
	outs := map[uint64]struct{}{}
	var vio *Violation
	for w, r := range rs {
		part.Execs += r.Cases
		part.Steps += r.Ops
		part.Nodes += r.Cases
		if r.Truncated || r.stall != "" {
			part.Complete = false
		}
		if r.stall != "" {
			res.Problems = append(res.Problems, q.Name+": "+r.stall)
		}
		for _, h := range r.Outcomes {
			outs[h] = struct{}{}
		}
		if len(part.Samples) < 4 {
			part.Samples = append(part.Samples, r.Samples...)
		}
		if r.V != nil {
			r.V.Shard, r.V.Shards = w, nw
			if vio == nil || r.V.Index < vio.Index {
				vio = r.V
			}
		}
	}
	if len(part.Samples) > 4 {
		part.Samples = part.Samples[:4]
	}
	part.Outcomes = len(outs)
	part.Seconds = time.Since(start).Seconds()
	if vio != nil {
		part.Complete = false
		vio.Prop, vio.Scenario, vio.Kind, vio.Thorough = q.Prop, q.Name, "seq", thorough
		// confirm: the case alone, else everything up to it
		dl := time.Now().Add(10 * time.Minute)
		r := seqShard(q, thorough, vio.Shard, vio.Shards, vio.Index, -1, dl)
		if r.V == nil {
			vio.Upto = true
			r = seqShard(q, thorough, vio.Shard, vio.Shards, -1, vio.Index, dl)
		}
		if r.V != nil {
			vio.Times = 1
			if r.V.Label != "" {
				vio.Label = r.V.Label
			}
			if vio.Label == "" {
				vio.Label = fmt.Sprintf("case %d", vio.Index)
			}
			res.Violations = append(res.Violations, vio)
		} else {
			res.Problems = append(res.Problems, fmt.Sprintf("%s: case %d: %q did not replay", q.Name, vio.Index, clip(vio.Message, 300)))
		}
	}
	return part
}
