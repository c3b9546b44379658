// Package rt is the controlled runtime the instrumented proxy runs on: one goroutine at a time, every
// scheduling decision, select, map order, pool answer and the clock are decided by an Exec.
//
// The package is compiled without race instrumentation and avoids maps, append and channels for its shared
// state, so that under -race only the happens-before edges of the program under test exist.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"
	"unsafe"
)

// Kind of a decision.
const (
	KInput  = iota // harness input: all alternatives are free
	KSched         // which goroutine runs next
	KSelect        // which ready case
	KMap           // map iteration order
	KPool          // sync.Pool answer
	KTimer         // let the next timer fire although something could run
	KEnv           // environment answer of a harness fake (non default = deviation)
)

var KindNames = [...]string{"input", "sched", "select", "map", "pool", "timer", "env"}

// Dec is one recorded decision.
type Dec struct {
	Kind   int8
	Chosen int32
	N      int32
}

func (d Dec) Cost(alt int) int {
	if d.Kind == KInput || alt == 0 {
		return 0
	}
	return 1
}

type Config struct {
	Bound    int  // maximum number of deviations
	Sched    bool // explore goroutine switches
	Select   bool // explore select with several ready cases
	Map      bool // explore map iteration orders (maps up to 6 entries)
	Pool     bool // explore pool answers
	Timer    bool // explore early timers
	Atomics  bool // atomics and unlocks are scheduling points, too
	MapDesc  bool // default map order is descending
	MaxSteps int
	NoWindow bool // deviations only between Window(true) and Window(false)
}

// Outcome of an execution.
type Outcome struct {
	Violation string // empty if fine
	Class     string // short classification: violation, panic, deadlock, livelock, race, divergence
	Stack     string
	Decs      []Dec
	Steps     int
	Switches  int
	Digest    string // observed outcome, chosen by the harness
	Notes     []string
}

type G struct {
	id      int
	name    string
	wake    chan struct{}
	exited  chan struct{}
	state   int // gReady.. below
	pend    *op
	lastRun int
	syncA   [8]byte // address for release/acquire
}

const (
	gRunnable = iota
	gDead
)

type opKind int8

const (
	oNone opKind = iota // always enabled
	oSelect
	oFn
)

type op struct {
	kind   opKind
	g      *G
	cases  vec[*selCase]
	hasDef bool
	done   bool // completed by a partner
	sel    int  // selected case
	by     *G   // the partner that completed it
	fn     func() bool
	what   string
}

// vec is a slice that grows without the (race instrumented) runtime append.
type vec[T any] struct {
	a []T
	n int
}

func (v *vec[T]) push(x T) {
	if v.n == len(v.a) {
		na := make([]T, 2*v.n+4)
		for i := 0; i < v.n; i++ {
			na[i] = v.a[i]
		}
		v.a = na
	}
	v.a[v.n] = x
	v.n++
}
func (v *vec[T]) at(i int) T { return v.a[i] }
func (v *vec[T]) removeAt(i int) {
	for ; i+1 < v.n; i++ {
		v.a[i] = v.a[i+1]
	}
	v.n--
	var z T
	v.a[v.n] = z
}

type Exec struct {
	cfg      Config
	prefix   []int
	decs     vec[Dec]
	cost     int
	gs       vec[*G]
	cur      *G
	now      int64
	timers   vec[*timer]
	timerSeq int
	chans    chanTable
	steps    int
	switches int
	streak   int
	policy   int // pRunToBlock..
	starved  *G  // runs only when nothing else can
	aborted  bool
	finished bool
	window   bool
	stepTime int64 // every step takes this long
	selPol   int   // SFirst..
	maxJump  int64 // of a timer firing while a goroutine could run (0: any)
	selSeq   int
	doneCh   chan struct{}
	out      *Outcome
	main     *G
}

// current execution; nil = instrumented code runs on the real primitives.
var curExec *Exec

// endAddr orders the goroutines of an execution before the start of the next one.
var endAddr int64

// progress counts steps over all executions, for the watchdog.
var progress atomic.Uint64

func Progress() uint64 { return progress.Load() }
func Active() bool     { return curExec != nil }

var resets []func()

// RegisterReset is called by the generated code of every instrumented package, in dependency order.
func RegisterReset(path string, f func()) { resets = append(resets, f) }

// RegisterFirstReset is for what has to be undone before the packages are initialized again.
func RegisterFirstReset(f func()) { resets = append([]func(){f}, resets...) }

// Run performs one execution: package state is re-initialised, body runs as the main goroutine under the
// controlled scheduler; decisions follow prefix first and are 0 afterwards.
func Run(cfg Config, prefix []int, body func()) *Outcome {
	if curExec != nil {
		panic("rt: nested Run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 2_000_000
	}
	ex := &Exec{cfg: cfg, prefix: prefix, doneCh: make(chan struct{}), out: &Outcome{}, window: !cfg.NoWindow}
	curExec = ex
	for _, f := range resets {
		f()
	}
	races := RaceErrors()
	ex.main = ex.spawn("main", func() {
		body()
		ex.finish()
	})
	g := ex.main
	ex.cur = g
	raceDisable()
	g.wake <- struct{}{}
	<-ex.doneCh
	// kill what is still there
	ex.aborted = true
	for i := 0; i < ex.gs.n; i++ {
		g := ex.gs.at(i)
		select {
		case <-g.exited:
			continue
		default:
		}
		ex.cur = g
		select {
		case g.wake <- struct{}{}:
		default:
		}
		<-g.exited
	}
	raceEnable()
	raceAcquire(unsafe.Pointer(&endAddr))
	curExec = nil
	o := ex.out
	o.Decs = ex.decs.a[:ex.decs.n]
	o.Steps = ex.steps
	o.Switches = ex.switches
	if ex.decs.n < len(prefix) && o.Class != "divergence" && o.Violation == "" {
		o.Class, o.Violation = "divergence", fmt.Sprintf("only %d decisions, prefix has %d", ex.decs.n, len(prefix))
	}
	if RaceErrors() > races {
		o.Class, o.Violation = "race", fmt.Sprintf("the race detector reported %d data race(s)", RaceErrors()-races)
	}
	return o
}

func (ex *Exec) finish() {
	if ex.finished {
		return
	}
	ex.finished = true
	raceDisable()
	close(ex.doneCh)
	raceEnable()
}

// fail records the first violation and ends the execution. It does not return in the calling goroutine.
func (ex *Exec) fail(class, msg, stack string) {
	if !ex.finished {
		ex.out.Class, ex.out.Violation, ex.out.Stack = class, msg, stack
		ex.finish()
	}
}

// Fail reports a violation of the property from harness code and ends the execution.
func Fail(format string, args ...any) {
	ex := curExec
	msg := fmt.Sprintf(format, args...)
	if ex == nil {
		panic("rt.Fail outside an execution: " + msg)
	}
	if ex.aborted {
		runtime.Goexit()
	}
	ex.fail("violation", msg, "")
	runtime.Goexit()
}

// Digest records the observed outcome of the execution (only counted, never judged).
func Digest(s string) {
	if ex := curExec; ex != nil {
		ex.out.Digest = s
	}
}

// Note adds a remark to the outcome (shown in replays and samples).
func Note(format string, args ...any) {
	if ex := curExec; ex != nil && !ex.aborted {
		raceDisable()
		ex.out.Notes = append(ex.out.Notes, fmt.Sprintf(format, args...))
		raceEnable()
	}
}

func (ex *Exec) spawn(name string, f func()) *G {
	g := &G{id: ex.gs.n, name: name, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	ex.gs.push(g)
	go func() {
		raceDisable()
		<-g.wake
		raceEnable()
		defer func() {
			if !ex.aborted {
				if r := recover(); r != nil {
					ex.fail("panic", fmt.Sprintf("panic in goroutine %s: %v", g.name, r), string(debug.Stack()))
				}
			} else {
				recover()
			}
			g.state = gDead
			// the package state is re-initialised after everything this goroutine did
			raceReleaseMrg(unsafe.Pointer(&endAddr))
			raceDisable()
			close(g.exited)
			if !ex.aborted && !ex.finished {
				ex.pickNext(g, true)
			}
			raceEnable()
		}()
		if ex.aborted {
			runtime.Goexit()
		}
		f()
	}()
	return g
}

// Go starts f as a goroutine.
func Go(f func()) { GoNamed("", f) }

func GoNamed(name string, f func()) {
	ex := curExec
	if ex == nil {
		go f()
		return
	}
	if ex.aborted {
		return
	}
	if name == "" {
		name = fmt.Sprintf("g%d", ex.gs.n)
	}
	ex.spawn(name, f)
	ex.point(nil, "go")
}

// choose records a decision among n alternatives. cost: see Dec.
func (ex *Exec) choose(kind int, n int) int {
	if n <= 1 {
		return 0
	}
	if kind != KInput && (ex.cost >= ex.cfg.Bound || !ex.window) {
		return 0
	}
	pos := ex.decs.n
	c := 0
	if pos < len(ex.prefix) {
		c = ex.prefix[pos]
		if c < 0 || c >= n {
			ex.fail("divergence", fmt.Sprintf("decision %d (%s): prefix says %d of %d", pos, KindNames[kind], c, n), "")
			runtime.Goexit()
		}
	}
	d := Dec{Kind: int8(kind), Chosen: int32(c), N: int32(n)}
	ex.decs.push(d)
	ex.cost += d.Cost(c)
	return c
}

// Choose is a free choice of harness input.
func Choose(n int) int {
	ex := curExec
	if ex == nil {
		return 0
	}
	raceDisable()
	c := ex.choose(KInput, n)
	raceEnable()
	return c
}

// ChooseEnv is an environment answer: 0 is the default, others are deviations.
func ChooseEnv(n int) int {
	ex := curExec
	if ex == nil {
		return 0
	}
	return ex.choose(KEnv, n)
}

func ChooseKind(kind, n int) int {
	ex := curExec
	if ex == nil {
		return 0
	}
	return ex.choose(kind, n)
}

// Window switches the recording of deviations on and off.
func Window(on bool) {
	if ex := curExec; ex != nil {
		ex.window = on
	}
}

func (ex *Exec) ready(g *G) bool {
	if g.state == gDead {
		return false
	}
	p := g.pend
	if p == nil || p.done {
		return true
	}
	switch p.kind {
	case oFn:
		return p.fn()
	case oSelect:
		if p.hasDef {
			return true
		}
		for i := 0; i < p.cases.n; i++ {
			if p.cases.at(i).ready(g) {
				return true
			}
		}
		return false
	}
	return true
}

// point: the current goroutine announces its next operation and waits until it is chosen and enabled.
func (ex *Exec) point(p *op, what string) {
	if ex.aborted {
		runtime.Goexit()
	}
	g := ex.cur
	g.pend = p
	ex.steps++
	if ex.steps&1023 == 0 {
		progress.Add(1)
	}
	if ex.steps > ex.cfg.MaxSteps {
		ex.fail("livelock", fmt.Sprintf("more than %d steps without finishing\n%s", ex.cfg.MaxSteps, ex.dump()), "")
		runtime.Goexit()
	}
	raceReleaseMrg(unsafe.Pointer(&endAddr)) // for Gather
	raceDisable()
	if ex.stepTime > 0 {
		ex.pass()
	}
	ex.pickNext(g, false)
	raceEnable()
	if ex.aborted {
		runtime.Goexit()
	}
	g.pend = nil
}

// pickNext chooses the next goroutine to run and passes control to it. g is the caller; when it is not
// exiting the call returns when g has been chosen again.
func (ex *Exec) pickNext(g *G, exiting bool) {
	for {
		if ex.finished {
			if exiting {
				return
			}
			// wait to be killed
			<-g.wake
			return
		}
		var next *G
		n := ex.gs.n
		curReady := !exiting && ex.ready(g)
		budget := ex.cfg.Sched && ex.cost < ex.cfg.Bound && ex.window
		if curReady && !budget && ex.streak < 5000 && ex.policy == pRunToBlock && ex.starved != g {
			ex.streak++
			if ex.maybeTimer(true) {
				continue
			}
			return
		}
		// default order: current first, then round robin
		var cand [64]*G
		nc := 0
		if curReady && ex.streak < 5000 {
			cand[0] = g
			nc = 1
		}
		for i := 1; i <= n && nc < len(cand); i++ {
			h := ex.gs.at((g.id + i) % n)
			if h == g {
				if curReady && ex.streak >= 5000 {
					cand[nc] = h
					nc++
				}
				continue
			}
			if h.state != gDead && ex.ready(h) {
				cand[nc] = h
				nc++
			}
		}
		if nc > 1 {
			ex.order(&cand, nc, g, curReady)
		}
		if nc == 0 {
			if ex.fireNext() {
				continue
			}
			ex.deadlock(g)
			if exiting {
				return
			}
			<-g.wake
			return
		}
		if ex.maybeTimer(nc > 0) {
			continue
		}
		k := 0
		if budget {
			k = ex.choose(KSched, nc)
		}
		next = cand[k]
		if next == g {
			ex.streak++
			if ex.streak > 5000 {
				ex.streak = 0
			}
			return
		}
		ex.streak = 0
		ex.switches++
		ex.cur = next
		next.wake <- struct{}{}
		if exiting {
			return
		}
		<-g.wake
		if ex.aborted {
			return
		}
		return
	}
}

// scheduling policies: who runs where no deviation is chosen
const (
	pRunToBlock = iota // the current goroutine until it blocks, then the next one by number
	pRoundRobin        // the next one at every point
	pLast              // the youngest that can run
	pFirst             // the oldest that can run
	policies
)

// order arranges the candidates by the policy; they come with the current goroutine first and the others from it on.
func (ex *Exec) order(cand *[64]*G, nc int, g *G, curReady bool) {
	toEnd := func(i int) {
		x := cand[i]
		for ; i+1 < nc; i++ {
			cand[i] = cand[i+1]
		}
		cand[nc-1] = x
	}
	switch ex.policy {
	case pRoundRobin:
		if curReady && cand[0] == g {
			toEnd(0)
		}
	case pLast, pFirst:
		if ex.streak >= 5000 {
			break // somebody spins
		}
		for i := 1; i < nc; i++ {
			for j := i; j > 0 && (cand[j].id > cand[j-1].id) == (ex.policy == pLast); j-- {
				cand[j], cand[j-1] = cand[j-1], cand[j]
			}
		}
	}
	if ex.starved != nil && ex.streak < 5000 {
		for i := 0; i < nc-1; i++ {
			if cand[i] == ex.starved {
				toEnd(i)
				break
			}
		}
	}
}

// ChoosePolicy is a free choice of the scheduling policy from now on: the four orders, or one of the other goroutines
// existing now running only when no other can. Deviations are counted from it.
func ChoosePolicy() {
	ex := curExec
	if ex == nil {
		return
	}
	k := Choose(policies + ex.gs.n - 1)
	if k < policies {
		ex.policy = k
		return
	}
	k -= policies
	if k >= ex.cur.id {
		k++
	}
	ex.starved = ex.gs.at(k)
}

// StepTime makes every step take some time from now on: timers come due while there is work.
func StepTime(d time.Duration) {
	if ex := curExec; ex != nil {
		ex.stepTime = int64(d)
	}
}

// MaxJump limits for how long a goroutine that could run may not run when a timer fires before it.
func MaxJump(d time.Duration) {
	if ex := curExec; ex != nil {
		ex.maxJump = int64(d)
	}
}

// which of several ready cases a select takes where no deviation is chosen
const (
	SFirst = iota
	SLast
	SMixed
	SelectPolicies
)

// SelectPolicy sets which of several ready cases a select takes from now on.
func SelectPolicy(k int) {
	if ex := curExec; ex != nil {
		ex.selPol = k
	}
}

func (ex *Exec) maybeTimer(runnable bool) bool {
	if !ex.cfg.Timer || !ex.window || ex.cost >= ex.cfg.Bound || ex.timers.n == 0 {
		return false
	}
	if ex.maxJump > 0 && ex.nextTimer() > ex.now+ex.maxJump {
		return false
	}
	if ex.choose(KTimer, 2) == 1 {
		ex.fireNext()
		return true
	}
	return false
}

func (ex *Exec) deadlock(g *G) {
	ex.fail("deadlock", "deadlock: no goroutine can run and no timer is pending\n"+ex.dump(), "")
}

func (ex *Exec) dump() string {
	s := ""
	for i := 0; i < ex.gs.n; i++ {
		g := ex.gs.at(i)
		if g.state == gDead {
			continue
		}
		w := "running"
		if g.pend != nil {
			w = g.pend.what
		}
		s += fmt.Sprintf("  goroutine %s: %s\n", g.name, w)
	}
	return s
}

// Goroutines counts the goroutines that have not ended, the one of the scenario included.
func Goroutines() (n int) {
	ex := curExec
	for i := 0; i < ex.gs.n; i++ {
		if ex.gs.at(i).state != gDead {
			n++
		}
	}
	return
}

// Dump describes the live goroutines.
func Dump() string {
	if curExec == nil {
		return ""
	}
	return curExec.dump()
}

// Point is a plain scheduling point.
func Point(what string) {
	ex := curExec
	if ex == nil {
		return
	}
	ex.point(&op{kind: oNone, what: what}, what)
}

// PointFine is a scheduling point only when atomics and unlocks are explored.
func PointFine(what string) {
	ex := curExec
	if ex == nil || ex.aborted || !ex.cfg.Atomics {
		return
	}
	ex.point(&op{kind: oNone, what: what}, what)
}

// Gather orders everything done so far before what the caller does from now on. For harness goroutines that look at
// the results of others when all is over.
func Gather() { raceAcquire(unsafe.Pointer(&endAddr)) }

// Yield lets every other runnable goroutine run first.
func Yield() {
	ex := curExec
	if ex == nil {
		runtime.Gosched()
		return
	}
	ex.streak = 1 << 30
	ex.point(&op{kind: oNone, what: "yield"}, "yield")
	ex.streak = 0
}

// WaitFor blocks until cond holds; cond may only depend on state changed by other goroutines of the execution.
func WaitFor(what string, cond func() bool) {
	ex := curExec
	if ex == nil {
		for !cond() {
			runtime.Gosched()
		}
		return
	}
	ex.point(&op{kind: oFn, fn: cond, what: what}, what)
	if ex.cur == ex.main {
		Gather() // the scenario itself waited for a result
	}
}

// Aborting tells that the execution is being torn down; operations are no-ops then.
func Aborting() bool { return curExec != nil && curExec.aborted }

// Block blocks forever.
func Block(what string) {
	WaitFor(what, func() bool { return false })
}

// GID is the id of the running goroutine.
func GID() int {
	if curExec == nil || curExec.cur == nil {
		return -1
	}
	return curExec.cur.id
}

// Daemonless etc. are not needed: an execution ends when its main goroutine returns.

func Acquire(p unsafe.Pointer)      { raceAcquire(p) }
func Release(p unsafe.Pointer)      { raceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { raceReleaseMrg(p) }
