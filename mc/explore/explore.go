// Package explore enumerates: executions of concurrent scenarios under the controlled runtime (Scenario) and
// finite input or operation spaces (Seq). One parent process distributes the work over worker processes of
// the same binary, so that a crash or a hang of the code under test is an observation, not the end of the check.
package explore

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verif/rt"
)

// Scenario is a closed concurrent system; every execution within the bounds of its configs is run.
type Scenario struct {
	Name string
	Prop string
	What string // what is enumerated: alphabet and bounds
	Cfgs func(thorough bool) []rt.Config
	Body func()
	// Isolated scenarios run one execution per worker process at a time with a memory hungry payload.
	Heavy bool
	// Race scenarios are also explored by the binary with the race detector, for C30 and for their own property.
	Race bool
}

// Seq is a finite space of inputs, operation sequences or environment answers, run case by case.
type Seq struct {
	Name string
	Prop string
	What string
	Run  func(c *C)
	// Single: do not shard
	Single bool
	// OnCrash: message when a case ends the process
	OnCrash string
	// HangSeconds of CPU time for one case
	HangSeconds int
	MaxShards   int
}

var scenarios []*Scenario
var seqs []*Seq

// Add and AddSeq take scenarios of different names: workers are told them by name.
func Add(s *Scenario) {
	if findScenario(s.Name) != nil {
		panic("two scenarios are called " + s.Name)
	}
	scenarios = append(scenarios, s)
}

func AddSeq(s *Seq) {
	if findSeq(s.Name) != nil {
		panic("two enumerations are called " + s.Name)
	}
	seqs = append(seqs, s)
}

func findScenario(n string) *Scenario {
	for _, s := range scenarios {
		if s.Name == n {
			return s
		}
	}
	return nil
}
func findSeq(n string) *Seq {
	for _, s := range seqs {
		if s.Name == n {
			return s
		}
	}
	return nil
}

type Violation struct {
	Prop     string   `json:"property"`
	Scenario string   `json:"scenario"`
	Kind     string   `json:"kind"` // mc or seq
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Stack    string   `json:"stack,omitempty"`
	Thorough bool     `json:"thorough"`
	Cfg      int      `json:"cfg"`
	Prefix   []int    `json:"prefix,omitempty"`
	Index    int64    `json:"index"`
	Shard    int      `json:"shard"`
	Shards   int      `json:"shards"`
	Upto     bool     `json:"upto,omitempty"`
	Label    string   `json:"label,omitempty"`
	Notes    []string `json:"notes,omitempty"`
	Times    int      `json:"confirmed_by_replays"`
	Sig      string   `json:"sig,omitempty"`
}

// ---- protocol ----

type mcReq struct {
	Scenario string
	Cfg      int
	Thorough bool
	Stack    [][]int
	MaxMs    int
	Single   bool // run exactly one execution (the last of the stack) and return no children
}

type mcRes struct {
	Execs, Steps, Nodes, Switches int64
	MaxDecs                       int
	Digests                       map[string]int64
	Stack                         [][]int
	V                             *Violation
	Sample                        []string
	Ms                            int64
}

const curSize = 4096

func runOne(s *Scenario, cfg rt.Config, prefix []int) *rt.Outcome {
	o := rt.Run(cfg, prefix, s.Body)
	return o
}

func worker() {
	debug.SetGCPercent(400)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	// the code under test must not disturb the protocol
	null, _ := os.OpenFile("/dev/null", os.O_RDWR, 0)
	os.Stdin = null
	realOut := os.Stdout
	os.Stdout = null
	_ = realOut
	dec := json.NewDecoder(in)
	cur := openCur()
	var curReq atomic.Value
	curReq.Store("")
	for {
		var r mcReq
		if err := dec.Decode(&r); err != nil {
			os.Exit(0)
		}
		s := findScenario(r.Scenario)
		cfg := s.Cfgs(r.Thorough)[r.Cfg]
		res := mcRes{Digests: map[string]int64{}}
		start := time.Now()
		for len(r.Stack) > 0 && (res.Execs == 0 || time.Since(start) < time.Duration(r.MaxMs)*time.Millisecond) {
			p := r.Stack[len(r.Stack)-1]
			r.Stack = r.Stack[:len(r.Stack)-1]
			cur.setText(p)
			o := runOne(s, cfg, p)
			cur.bump()
			res.Execs++
			res.Steps += int64(o.Steps)
			res.Switches += int64(o.Switches)
			res.Nodes += int64(len(o.Decs)-len(p)) + 1
			if len(o.Decs) > res.MaxDecs {
				res.MaxDecs = len(o.Decs)
			}
			if len(res.Digests) < 2000 || res.Digests[o.Digest] > 0 {
				res.Digests[o.Digest]++
			}
			if res.Sample == nil && o.Violation == "" {
				res.Sample = append([]string{fmt.Sprintf("choices %v, %d steps, %d switches, outcome %s", choices(o), o.Steps, o.Switches, o.Digest)}, o.Notes...)
			}
			if rt.RaceEnabled && s.Prop != "C30" && os.Getenv("VMC_PROP") != s.Prop && o.Class == "violation" {
				o.Class, o.Violation = "", "" // judged by the check of the property
			}
			if o.Violation != "" {
				res.V = &Violation{Prop: s.Prop, Scenario: s.Name, Kind: "mc", Class: o.Class, Message: o.Violation, Stack: o.Stack,
					Thorough: r.Thorough, Cfg: r.Cfg, Prefix: choices(o), Notes: o.Notes}
				break
			}
			if r.Single {
				break
			}
			// children, pushed so that the earliest deviation with the lowest alternative is explored last
			cost := 0
			for i := 0; i < len(o.Decs); i++ {
				d := o.Decs[i]
				if i >= len(p) {
					for a := int(d.N) - 1; a >= 1; a-- {
						if int(d.Chosen) == a {
							continue
						}
						if cost+d.Cost(a) > cfg.Bound {
							continue
						}
						np := make([]int, i+1)
						for k := 0; k < i; k++ {
							np[k] = int(o.Decs[k].Chosen)
						}
						np[i] = a
						r.Stack = append(r.Stack, np)
					}
				}
				cost += d.Cost(int(d.Chosen))
			}
		}
		res.Stack = r.Stack
		res.Ms = time.Since(start).Milliseconds()
		b, _ := json.Marshal(res)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

func choices(o *rt.Outcome) []int {
	c := make([]int, len(o.Decs))
	for i, d := range o.Decs {
		c[i] = int(d.Chosen)
	}
	// trailing defaults carry no information
	n := len(c)
	for n > 0 && c[n-1] == 0 {
		n--
	}
	return c[:n]
}

// ---- current case, visible to the parent through a shared mapping ----

type curFile struct {
	mem []byte
	ctr *int64
}

func openCur() *curFile {
	path := os.Getenv("VMC_CUR")
	if path == "" {
		return &curFile{ctr: new(int64)}
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		panic(err)
	}
	f.Truncate(curSize)
	m, err := syscall.Mmap(int(f.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	f.Close()
	if err != nil {
		panic(err)
	}
	return &curFile{mem: m, ctr: (*int64)(unsafe.Pointer(&m[0]))}
}

func (c *curFile) bump()       { atomic.AddInt64(c.ctr, 1) }
func (c *curFile) get() int64  { return atomic.LoadInt64(c.ctr) }
func (c *curFile) set(i int64) { atomic.StoreInt64(c.ctr, i) }
func (c *curFile) setText(p []int) {
	if c.mem == nil {
		return
	}
	b, _ := json.Marshal(p)
	if len(b) > curSize-16 {
		b = []byte("null")
	}
	copy(c.mem[16:], b)
	*(*int64)(unsafe.Pointer(&c.mem[8])) = int64(len(b))
}
func (c *curFile) text() []int {
	n := *(*int64)(unsafe.Pointer(&c.mem[8]))
	var p []int
	if n < 0 || n > curSize-16 {
		return nil
	}
	json.Unmarshal(c.mem[16:16+n], &p)
	return p
}

// ---- parent ----

type proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	cur  *curFile
	errb *tail
	path string
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

var tmpDir string
var procSeq atomic.Int64

func startProc(args []string, maxprocs int) (*proc, error) {
	path := filepath.Join(tmpDir, fmt.Sprintf("cur%d", procSeq.Add(1)))
	cmd := exec.Command(os.Args[0], args...)
	env := append(os.Environ(), "VMC_CUR="+path, fmt.Sprintf("GOMAXPROCS=%d", maxprocs))
	if rt.RaceEnabled {
		env = append(env, "GORACE=log_path=stderr halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=4")
	}
	cmd.Env = env
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	t := &tail{}
	cmd.Stderr = t
	old := os.Getenv("VMC_CUR")
	os.Setenv("VMC_CUR", path)
	cur := openCur()
	os.Setenv("VMC_CUR", old)
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), cur: cur, errb: t, path: path}, nil
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
	// the mapping stays: a watcher may still look at it
	os.Remove(p.path)
}

// cpuSeconds and rss of a child process.
func (p *proc) usage() (cpu float64, rssMB int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", p.cmd.Process.Pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	if i < 0 {
		return 0, 0
	}
	f := strings.Fields(s[i+1:])
	if len(f) < 22 {
		return 0, 0
	}
	ut, _ := strconv.ParseFloat(f[11], 64)
	st, _ := strconv.ParseFloat(f[12], 64)
	rss, _ := strconv.ParseInt(f[21], 10, 64)
	return (ut + st) / 100, rss * 4096 / (1 << 20)
}

// watch kills p when one case consumed more than limit CPU seconds, or stalls without CPU for 180 s.
func (p *proc) watch(limit float64, done <-chan struct{}) (reason func() string) {
	var mu sync.Mutex
	why := ""
	go func() {
		last := p.cur.get()
		c0, _ := p.usage()
		t0 := time.Now()
		for {
			select {
			case <-done:
				return
			case <-time.After(200 * time.Millisecond):
			}
			c, rss := p.usage()
			if n := p.cur.get(); n != last {
				last, c0, t0 = n, c, time.Now()
				if rss < 12000 {
					continue
				}
			}
			r := ""
			if c-c0 > limit {
				r = fmt.Sprintf("hang: no result after %.0f s of CPU time", c-c0)
			} else if rss > 12000 {
				r = fmt.Sprintf("memory: the process grew to %d MB", rss)
			} else if time.Since(t0) > 240*time.Second && c-c0 < 20 {
				r = "stall"
			}
			if r != "" {
				mu.Lock()
				why = r
				mu.Unlock()
				p.cmd.Process.Kill()
				return
			}
		}
	}()
	return func() string { mu.Lock(); defer mu.Unlock(); return why }
}

// Part is what one scenario at one configuration covered.
type Part struct {
	Name        string           `json:"scenario"`
	Kind        string           `json:"kind"`
	What        string           `json:"what"`
	Config      string           `json:"config,omitempty"`
	Complete    bool             `json:"complete"`
	Execs       int64            `json:"executions"`
	Steps       int64            `json:"steps"`
	Nodes       int64            `json:"decision_nodes"`
	Switches    int64            `json:"context_switches,omitempty"`
	MaxDecs     int              `json:"max_decisions,omitempty"`
	Outcomes    int              `json:"distinct_outcomes"`
	Seconds     float64          `json:"seconds"`
	Samples     []string         `json:"samples"`
	Note        string           `json:"note,omitempty"`
	digests     map[string]int64 `json:"-"`
	Determinism string           `json:"determinism,omitempty"`
}

type Result struct {
	Prop       string       `json:"property"`
	Parts      []*Part      `json:"parts"`
	Violations []*Violation `json:"violations"`
	Problems   []string     `json:"problems"`
}

func cfgString(c rt.Config) string {
	var s []string
	for _, x := range []struct {
		on bool
		n  string
	}{{c.Sched, "schedules"}, {c.Select, "selects"}, {c.Map, "map orders"}, {c.Pool, "pool answers"}, {c.Timer, "early timers"}, {c.Atomics, "atomics"}, {c.MapDesc, "descending maps"}} {
		if x.on {
			s = append(s, x.n)
		}
	}
	if c.Bound == 0 {
		return "deviations<=0"
	}
	return fmt.Sprintf("deviations<=%d over %s", c.Bound, strings.Join(s, ", "))
}

func hangLimit() float64 {
	if rt.RaceEnabled {
		return 120
	}
	return 60
}

// runMC explores one scenario with one configuration.
func runMC(s *Scenario, thorough bool, ci int, deadline time.Time, nw int, res *Result) *Part {
	cfg := s.Cfgs(thorough)[ci]
	part := &Part{Name: s.Name, Kind: "mc", What: s.What, Config: cfgString(cfg), digests: map[string]int64{}}
	start := time.Now()
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := [][]int{{}}
	busy := 0
	stop := false
	var vio *Violation
	nodet := ""
	if s.Heavy && nw > 4 {
		nw = 4
	}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.kill()
				}
			}()
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 && !stop {
					cond.Wait()
				}
				if stop || len(queue) == 0 {
					stop2 := stop
					mu.Unlock()
					_ = stop2
					cond.Broadcast()
					return
				}
				// take a share of the queue: the deepest when there is plenty, one otherwise
				n := len(queue) / (2 * nw)
				if n < 1 {
					n = 1
				}
				if n > 200 {
					n = 200
				}
				job := append([][]int{}, queue[len(queue)-n:]...)
				queue = queue[:len(queue)-n]
				busy++
				starving := len(queue) < 2*nw
				mu.Unlock()
				ms := 300
				if starving {
					ms = 30
				}
				if left := time.Until(deadline).Milliseconds(); int64(ms) > left {
					ms = int(left)
				}
				r, why := doMC(&p, mcReq{Scenario: s.Name, Cfg: ci, Thorough: thorough, Stack: job, MaxMs: ms})
				mu.Lock()
				busy--
				if r == nil {
					// the worker died
					if why.stall {
						nodet = "a worker stalled: " + why.msg
						stop = true
					} else if vio == nil {
						vio = &Violation{Prop: s.Prop, Scenario: s.Name, Kind: "mc", Class: why.class, Message: why.msg, Stack: why.stack, Thorough: thorough, Cfg: ci, Prefix: why.prefix}
						stop = true
					}
				} else {
					part.Execs += r.Execs
					part.Steps += r.Steps
					part.Nodes += r.Nodes
					part.Switches += r.Switches
					if r.MaxDecs > part.MaxDecs {
						part.MaxDecs = r.MaxDecs
					}
					for k, v := range r.Digests {
						part.digests[k] += v
					}
					if len(part.Samples) < 2 && r.Sample != nil {
						part.Samples = append(part.Samples, strings.Join(r.Sample, "; "))
					}
					queue = append(queue, r.Stack...)
					if r.V != nil && vio == nil {
						vio = r.V
						stop = true
					}
				}
				if time.Now().After(deadline) {
					stop = true
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	part.Complete = len(queue) == 0 && busy == 0 && vio == nil && nodet == ""
	part.Outcomes = len(part.digests)
	part.Seconds = time.Since(start).Seconds()
	if nodet != "" {
		res.Problems = append(res.Problems, s.Name+": "+nodet)
	}
	if vio != nil {
		confirmMC(vio, res)
	}
	for i, x := range part.Samples {
		if len(x) > 1500 {
			part.Samples[i] = x[:1500] + "..."
		}
	}
	return part
}

type death struct {
	class, msg, stack string
	prefix            []int
	stall             bool
}

func doMC(pp **proc, r mcReq) (*mcRes, death) {
	if *pp == nil {
		p, err := startProc([]string{"-worker"}, 1)
		if err != nil {
			return nil, death{msg: err.Error(), stall: true}
		}
		*pp = p
	}
	p := *pp
	done := make(chan struct{})
	reason := p.watch(hangLimit(), done)
	b, _ := json.Marshal(r)
	p.in.Write(append(b, '\n'))
	line, err := p.out.ReadBytes('\n')
	close(done)
	if err == nil {
		var res mcRes
		if err = json.Unmarshal(line, &res); err == nil {
			if res.V != nil && res.V.Class == "race" {
				time.Sleep(50 * time.Millisecond)
				res.V.Stack = clip(p.errb.String(), 8000)
			}
			return &res, death{}
		}
	}
	prefix := p.cur.text()
	p.cmd.Process.Kill()
	p.cmd.Wait()
	why := reason()
	d := death{class: "crash", prefix: prefix, stack: clip(p.errb.String(), 6000)}
	switch {
	case why == "stall":
		d.stall, d.msg = true, "no progress without CPU use"
	case strings.HasPrefix(why, "hang"):
		d.class, d.msg = "hang", "an execution never reaches its next synchronisation operation ("+why+")"
	case strings.HasPrefix(why, "memory"):
		d.class, d.msg = "memory", why
	default:
		if strings.Contains(p.cmd.ProcessState.String(), "killed") {
			d.stall, d.msg = true, "worker was killed from outside"
		}
		d.msg = "the process crashed: " + firstLines(d.stack, 3)
	}
	p.kill()
	*pp = nil
	return nil, d
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// confirmMC re-runs a violating execution in fresh processes; only a violation that always returns counts.
func confirmMC(v *Violation, res *Result) {
	n := 3
	if v.Class == "hang" || v.Class == "memory" {
		n = 1
	}
	for i := 0; i < n; i++ {
		var p *proc
		r, d := doMC(&p, mcReq{Scenario: v.Scenario, Cfg: v.Cfg, Thorough: v.Thorough, Stack: [][]int{v.Prefix}, MaxMs: 1, Single: true})
		if p != nil {
			p.kill()
		}
		ok := false
		if r != nil && r.V != nil {
			ok = true
			v.Class, v.Message, v.Stack, v.Notes = r.V.Class, r.V.Message, r.V.Stack, r.V.Notes
		}
		if r == nil && !d.stall {
			ok = true
		}
		if ok {
			v.Times++
		}
	}
	if v.Class == "divergence" {
		res.Problems = append(res.Problems, fmt.Sprintf("%s: %s (uncontrolled nondeterminism, not counted as a violation)", v.Scenario, v.Message))
		return
	}
	if v.Times == n {
		res.Violations = append(res.Violations, v)
	} else {
		res.Problems = append(res.Problems, fmt.Sprintf("%s: %q did not replay (%d of %d)\n%s", v.Scenario, clip(v.Message, 300), v.Times, n, v.Stack))
	}
}

// Main is the entry point of a harness binary.
func Main() {
	isWorker := flag.Bool("worker", false, "")
	seqWorker := flag.String("seqworker", "", "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	only := flag.Int64("only", -1, "")
	upto := flag.Int64("upto", -1, "")
	dl := flag.Int64("deadline", 0, "unix ms")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "")
	seconds := flag.Float64("seconds", 20, "")
	outFile := flag.String("out", "", "")
	replay := flag.String("replay", "", "")
	name := flag.String("scenario", "", "only this scenario")
	list := flag.Bool("list", false, "")
	nw := flag.Int("j", runtime.NumCPU(), "")
	flag.Parse()
	if *isWorker {
		worker()
		return
	}
	if *seqWorker != "" {
		runSeqWorker(*seqWorker, *shard, *shards, *only, *upto, *tier == "thorough", *dl)
		return
	}
	if *list {
		for _, s := range scenarios {
			race := ""
			if s.Race {
				race = "; also explored with the race detector, for this property and for C30"
			}
			fmt.Printf("%s\tmc\t%s\t%s%s\n", s.Prop, s.Name, s.What, race)
		}
		for _, s := range seqs {
			fmt.Printf("%s\tseq\t%s\t%s\n", s.Prop, s.Name, s.What)
		}
		return
	}
	var err error
	tmpDir, err = os.MkdirTemp(os.Getenv("VMC_TMP"), "vmc")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmpDir)
	if *replay != "" {
		code := doReplay(*replay)
		os.RemoveAll(tmpDir)
		os.Exit(code)
	}
	os.Setenv("VMC_PROP", *prop)
	thorough := *tier == "thorough"
	res := &Result{Prop: *prop}
	begin := time.Now()
	deadline := begin.Add(time.Duration(*seconds * float64(time.Second)))
	// rounds: configuration i of every scenario before configuration i+1 of any
	type job struct {
		s  *Scenario
		q  *Seq
		ci int
	}
	var jobs []job
	for _, q := range seqs {
		if (q.Prop == *prop || *prop == "") && (*name == "" || *name == q.Name) {
			jobs = append(jobs, job{q: q})
		}
	}
	maxc := 0
	for _, s := range scenarios {
		if n := len(s.Cfgs(thorough)); n > maxc {
			maxc = n
		}
	}
	for ci := 0; ci < maxc; ci++ {
		for _, s := range scenarios {
			if (s.Prop == *prop && (s.Race || !rt.RaceEnabled || *prop == "C30") || *prop == "" || *prop == "C30" && s.Race && rt.RaceEnabled) && (*name == "" || *name == s.Name) && ci < len(s.Cfgs(thorough)) {
				jobs = append(jobs, job{s: s, ci: ci})
			}
		}
	}
	if len(jobs) == 0 {
		fmt.Fprintln(os.Stderr, "nothing registered for", *prop)
	}
	incomplete := map[string]bool{}
	for i, j := range jobs {
		left := time.Until(deadline)
		share := left
		if n := len(jobs) - i; n > 1 {
			share = left * 2 / time.Duration(n+1)
		}
		if share < 300*time.Millisecond {
			share = 300 * time.Millisecond
		}
		var p *Part
		if j.q != nil {
			p = runSeq(j.q, thorough, time.Now().Add(share), *nw, res)
		} else {
			if incomplete[j.s.Name] && share < 2*time.Second {
				continue
			}
			p = runMC(j.s, thorough, j.ci, time.Now().Add(share), *nw, res)
			if !p.Complete {
				incomplete[j.s.Name] = true
			}
		}
		res.Parts = append(res.Parts, p)
		fmt.Fprintf(os.Stderr, "%-34s %-46s execs=%d nodes=%d steps=%d outcomes=%d complete=%v %.1fs\n", p.Name, p.Config, p.Execs, p.Nodes, p.Steps, p.Outcomes, p.Complete, p.Seconds)
		if len(res.Violations) > 0 {
			break
		}
	}
	for _, v := range res.Violations {
		fmt.Fprintf(os.Stderr, "VIOLATION %s %s [%s] %s\n%s\n%s\n", v.Scenario, v.Class, v.Label, v.Message, strings.Join(v.Notes, "\n"), v.Stack)
	}
	for _, p := range res.Problems {
		fmt.Fprintf(os.Stderr, "PROBLEM %s\n", p)
	}
	if *outFile != "" {
		b, _ := json.MarshalIndent(res, "", " ")
		if err := os.WriteFile(*outFile, b, 0o644); err != nil {
			panic(err)
		}
	}
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	if v.Kind == "mc" {
		os.Setenv("VMC_PROP", v.Prop)
		if findScenario(v.Scenario) == nil {
			return 3
		}
		var p *proc
		r, d := doMC(&p, mcReq{Scenario: v.Scenario, Cfg: v.Cfg, Thorough: v.Thorough, Stack: [][]int{v.Prefix}, MaxMs: 1, Single: true})
		if p != nil {
			p.kill()
		}
		if r == nil {
			fmt.Printf("VIOLATION %s: %s\n%s\n", d.class, d.msg, d.stack)
			return 1
		}
		if r.V != nil {
			fmt.Printf("VIOLATION %s: %s\n%s\n%s\n", r.V.Class, r.V.Message, strings.Join(r.V.Notes, "\n"), r.V.Stack)
			return 1
		}
		fmt.Println("no violation")
		return 0
	}
	q := findSeq(v.Scenario)
	if q == nil {
		return 3
	}
	w := seqShard(q, v.Thorough, v.Shard, v.Shards, v.Index, -1, time.Now().Add(time.Hour))
	if v.Upto {
		w = seqShard(q, v.Thorough, v.Shard, v.Shards, -1, v.Index, time.Now().Add(time.Hour))
	}
	if w.V != nil {
		fmt.Printf("VIOLATION %s: [%s] %s\n%s\n", w.V.Class, w.V.Label, w.V.Message, w.V.Stack)
		return 1
	}
	fmt.Println("no violation")
	return 0
}

func sortedKeys(m map[string]int64) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
