package rt

import (
	"time"
	"unsafe"
)

// Base is the virtual time at which every execution starts.
var Base = time.Date(2021, 6, 1, 12, 0, 0, 0, time.UTC).UnixNano()

type timer struct {
	at     int64
	seq    int
	fire   func()
	period int64
	live   bool
	fixed  bool
}

// NowNanos is the current time in unix nanoseconds.
func NowNanos() int64 {
	if ex := curExec; ex != nil {
		return Base + ex.now
	}
	return time.Now().UnixNano()
}

// Elapsed is the virtual time since the start of the execution.
func Elapsed() time.Duration { return time.Duration(curExec.now) }

func (ex *Exec) addTimer(d int64, period int64, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	t := &timer{at: ex.now + d, seq: ex.timerSeq, fire: fire, period: period, live: true}
	ex.timerSeq++
	ex.timers.push(t)
	return t
}

func (ex *Exec) dropTimer(t *timer) bool {
	was := t.live
	t.live = false
	for i := 0; i < ex.timers.n; i++ {
		if ex.timers.at(i) == t {
			ex.timers.removeAt(i)
			break
		}
	}
	return was
}

func (ex *Exec) nextTimer() int64 {
	n := int64(1 << 62)
	for i := 0; i < ex.timers.n; i++ {
		n = min(n, ex.timers.at(i).at)
	}
	return n
}

// Pause lets time pass in which the process does not run at all, like a suspended machine.
func Pause(d time.Duration) {
	Point("pause")
	curExec.now += int64(d)
}

// fireNext advances the clock to the earliest timer and fires it.
func (ex *Exec) fireNext() bool {
	if ex.timers.n == 0 {
		return false
	}
	b := 0
	for i := 1; i < ex.timers.n; i++ {
		t, u := ex.timers.at(i), ex.timers.at(b)
		if t.at < u.at || (t.at == u.at && t.seq < u.seq) {
			b = i
		}
	}
	t := ex.timers.at(b)
	if t.at > ex.now {
		ex.now = t.at
	}
	ex.steps++
	if ex.steps&1023 == 0 {
		progress.Add(1)
	}
	if t.period > 0 {
		t.at += t.period
		if late := ex.now - t.at; late >= 0 { // ticks that were missed are left out
			t.at += late/t.period*t.period + t.period
		}
		t.seq = ex.timerSeq
		ex.timerSeq++
	} else {
		t.live = false
		ex.timers.removeAt(b)
	}
	t.fire()
	return ex.steps <= ex.cfg.MaxSteps || ex.tooLong()
}

// pass lets the time of a step pass.
func (ex *Exec) pass() {
	ex.now += ex.stepTime
	for {
		due := false
		for i := 0; i < ex.timers.n; i++ {
			if ex.timers.at(i).at <= ex.now {
				due = true
				break
			}
		}
		if !due || !ex.fireNext() {
			return
		}
	}
}

func (ex *Exec) tooLong() bool {
	ex.fail("livelock", "step limit reached while only timers fire\n"+ex.dump(), "")
	return true
}

// Sleep in virtual time.
func Sleep(d time.Duration) {
	ex := curExec
	if ex == nil {
		time.Sleep(d)
		return
	}
	if ex.aborted {
		return
	}
	if d <= 0 {
		Point("sleep 0")
		return
	}
	woken := false
	ex.addTimer(int64(d), 0, func() { woken = true })
	ex.point(&op{kind: oFn, fn: func() bool { return woken }, what: "sleep"}, "sleep")
}

// Timer is the core of the virtual time.Timer and time.Ticker.
type Timer struct {
	t      *timer
	ch     chan time.Time
	fn     func()
	period int64
}

func (t *Timer) fire() {
	ex := curExec
	if t.fn != nil {
		ex.spawn("afterfunc", t.fn)
		return
	}
	c := ex.chans.get(chanPtr(t.ch), cap(t.ch))
	if c.n < c.cap {
		if RaceEnabled {
			c.sx = (c.sx + 1) % c.cap
		}
		c.put(time.Unix(0, Base+ex.now))
	}
}

// NewTimer creates a timer with a channel (period 0: one shot) or, with fn, an AfterFunc.
func NewTimer(d time.Duration, period time.Duration, fn func()) *Timer {
	t := &Timer{fn: fn, period: int64(period)}
	if fn == nil {
		t.ch = make(chan time.Time, 1)
	}
	if ex := curExec; ex != nil && !ex.aborted {
		t.t = ex.addTimer(int64(d), t.period, t.fire)
	}
	return t
}

func (t *Timer) C() <-chan time.Time { return t.ch }

func (t *Timer) Stop() bool {
	ex := curExec
	if ex == nil || ex.aborted || t.t == nil {
		return false
	}
	return ex.dropTimer(t.t)
}

func (t *Timer) Reset(d time.Duration, period time.Duration) bool {
	was := t.Stop()
	if ex := curExec; ex != nil && !ex.aborted {
		t.period = int64(period)
		t.t = ex.addTimer(int64(d), t.period, t.fire)
	}
	return was
}

var _ = unsafe.Pointer(nil)
