package rt

import (
	"unsafe"
)

// Chan is the shadow of a Go channel; the real channel is only used as its identity.
type Chan struct {
	key    unsafe.Pointer // keeps the real channel alive, so that its address stays unique
	cap    int
	ring   []any
	head   int
	n      int
	closed bool
	recvq  vec[*selCase] // announced receivers (unbuffered channels only)
	sendq  vec[*selCase]
	slots  []byte // race detector addresses, one per buffer slot
	sx, rx int
	what   string
}

func (c *Chan) put(v any) {
	if c.n == len(c.ring) {
		nr := make([]any, 2*c.n+4)
		for i := 0; i < c.n; i++ {
			nr[i] = c.ring[(c.head+i)%len(c.ring)]
		}
		c.ring, c.head = nr, 0
	}
	c.ring[(c.head+c.n)%len(c.ring)] = v
	c.n++
}

func (c *Chan) take() any {
	v := c.ring[c.head]
	c.ring[c.head] = nil
	c.head = (c.head + 1) % len(c.ring)
	c.n--
	return v
}

func (c *Chan) slotSend() {
	if RaceEnabled && c.cap > 0 {
		p := unsafe.Pointer(&c.slots[c.sx])
		c.sx = (c.sx + 1) % c.cap
		raceAcquire(p)
		raceRelease(p)
	}
}
func (c *Chan) slotRecv() {
	if RaceEnabled && c.cap > 0 {
		p := unsafe.Pointer(&c.slots[c.rx])
		c.rx = (c.rx + 1) % c.cap
		raceAcquire(p)
		raceRelease(p)
	}
}

type chanTable struct {
	slots []*Chan
	n     int
}

func hashPtr(p unsafe.Pointer) uint64 {
	x := uint64(uintptr(p))
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

func (t *chanTable) get(p unsafe.Pointer, capacity int) *Chan {
	if len(t.slots) == 0 {
		t.slots = make([]*Chan, 64)
	}
	mask := uint64(len(t.slots) - 1)
	i := hashPtr(p) & mask
	for t.slots[i] != nil {
		if t.slots[i].key == p {
			return t.slots[i]
		}
		i = (i + 1) & mask
	}
	c := &Chan{key: p, cap: capacity}
	if RaceEnabled {
		c.slots = make([]byte, capacity+1)
	}
	if 2*(t.n+1) > len(t.slots) {
		old := t.slots
		t.slots = make([]*Chan, 2*len(old))
		mask = uint64(len(t.slots) - 1)
		for k := 0; k < len(old); k++ {
			if old[k] != nil {
				j := hashPtr(old[k].key) & mask
				for t.slots[j] != nil {
					j = (j + 1) & mask
				}
				t.slots[j] = old[k]
			}
		}
		i = hashPtr(p) & mask
		for t.slots[i] != nil {
			i = (i + 1) & mask
		}
	}
	t.slots[i] = c
	t.n++
	return c
}

func chanPtr[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// selCase is one announced communication.
type selCase struct {
	op   *op
	ch   *Chan // nil: nil channel
	send bool
	val  any
	rval any
	rok  bool
	idx  int
}

func (s *selCase) partner(g *G) *selCase {
	q := &s.ch.recvq
	if !s.send {
		q = &s.ch.sendq
	}
	for i := 0; i < q.n; i++ {
		o := q.at(i)
		if !o.op.done && o.op.g != g {
			return o
		}
	}
	return nil
}

func (s *selCase) ready(g *G) bool {
	c := s.ch
	if c == nil {
		return false
	}
	if c.closed {
		return true
	}
	if c.cap > 0 {
		if s.send {
			return c.n < c.cap
		}
		return c.n > 0
	}
	return s.partner(g) != nil
}

// perform executes a ready case for g. It returns false when the channel panics (send on closed channel).
func (s *selCase) perform(g *G) bool {
	c := s.ch
	if s.send {
		if c.closed {
			return false
		}
		if c.cap > 0 {
			c.slotSend()
			c.put(s.val)
			return true
		}
		o := s.partner(g)
		o.rval, o.rok = s.val, true
		o.op.done, o.op.sel, o.op.by = true, o.idx, g
		raceAcquire(unsafe.Pointer(&o.op.g.syncA))
		raceReleaseMrg(unsafe.Pointer(&g.syncA))
		return true
	}
	if c.cap > 0 && c.n > 0 {
		c.slotRecv()
		s.rval, s.rok = c.take(), true
		return true
	}
	if c.cap == 0 && !c.closed {
		o := s.partner(g)
		s.rval, s.rok = o.val, true
		o.op.done, o.op.sel, o.op.by = true, o.idx, g
		raceAcquire(unsafe.Pointer(&o.op.g.syncA))
		raceReleaseMrg(unsafe.Pointer(&g.syncA))
		return true
	}
	// closed and drained
	raceAcquire(unsafe.Pointer(c))
	s.rval, s.rok = nil, false
	return true
}

func unqueue(q *vec[*selCase], s *selCase) {
	for i := 0; i < q.n; i++ {
		if q.at(i) == s {
			q.removeAt(i)
			return
		}
	}
}

// runSelect announces the cases, waits until one is possible and performs it. Result: index or -1 (default).
func (ex *Exec) runSelect(o *op) int {
	if ex.aborted {
		return abortedOp()
	}
	g := ex.cur
	o.g = g
	o.kind = oSelect
	for i := 0; i < o.cases.n; i++ {
		s := o.cases.at(i)
		s.op, s.idx = o, i
		if s.ch != nil && s.ch.cap == 0 {
			if s.send {
				s.ch.sendq.push(s)
			} else {
				s.ch.recvq.push(s)
			}
		}
	}
	raceReleaseMrg(unsafe.Pointer(&g.syncA))
	ex.point(o, o.what)
	sel := -1
	okSend := true
	if o.done {
		sel = o.sel
		raceAcquire(unsafe.Pointer(&o.by.syncA))
	} else {
		// mark as done first: no partner may complete it any more
		o.done = true
		var rdy [32]int
		n := 0
		for i := 0; i < o.cases.n && n < len(rdy); i++ {
			if o.cases.at(i).ready(g) {
				rdy[n] = i
				n++
			}
		}
		if n > 0 {
			k := 0
			if n > 1 && ex.cfg.Select {
				k = ex.choose(KSelect, n)
			}
			if n > 1 {
				switch ex.selPol {
				case SLast:
					k = n - 1 - k
				case SMixed:
					ex.selSeq++
					k = (k + int(uint32(ex.selSeq)*2654435761>>16)) % n
				}
			}
			sel = rdy[k]
			okSend = o.cases.at(sel).perform(g)
		}
	}
	for i := 0; i < o.cases.n; i++ {
		s := o.cases.at(i)
		if s.ch != nil && s.ch.cap == 0 {
			if s.send {
				unqueue(&s.ch.sendq, s)
			} else {
				unqueue(&s.ch.recvq, s)
			}
		}
	}
	if !okSend {
		panic("send on closed channel")
	}
	return sel
}

func abortedOp() int {
	goexit()
	return -1
}

func shadow[C any](ch C, capacity int) *Chan {
	p := chanPtr(ch)
	if p == nil {
		return nil
	}
	return curExec.chans.get(p, capacity)
}

// SendTo(ch)(v) is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	if curExec == nil {
		return func(v T) { ch <- v }
	}
	return func(v T) { sendAny(shadow(ch, cap(ch)), v) }
}

// Send is ch <- v for harness code.
func Send[T any](ch chan<- T, v T) { SendTo(ch)(v) }

func sendAny(c *Chan, v any) {
	o := &op{what: "chan send"}
	o.cases.push(&selCase{ch: c, send: true, val: v})
	curExec.runSelect(o)
}

func recvAny(c *Chan) (any, bool) {
	o := &op{what: "chan receive"}
	s := &selCase{ch: c}
	o.cases.push(s)
	curExec.runSelect(o)
	return s.rval, s.rok
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if curExec == nil {
		v, ok := <-ch
		return v, ok
	}
	a, ok := recvAny(shadow(ch, cap(ch)))
	v, _ := a.(T)
	return v, ok
}

// RangeStart begins a range over a channel.
func RangeStart[T any](ch <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(ch)
	return ch, v, ok
}

// TryRecv receives without blocking and without being a scheduling point (harness only).
func TryRecv[T any](ch <-chan T) (v T, ok bool) {
	c := shadow(ch, cap(ch))
	if c.n > 0 {
		v, _ = c.take().(T)
		return v, true
	}
	return v, false
}

func Close[T any](ch chan<- T) {
	ex := curExec
	if ex == nil {
		close(ch)
		return
	}
	if ex.aborted {
		return
	}
	c := shadow(ch, cap(ch))
	closeShadow(c)
}

func closeShadow(c *Chan) {
	ex := curExec
	if c == nil {
		panic("close of nil channel")
	}
	ex.point(&op{what: "close"}, "close")
	if c.closed {
		panic("close of closed channel")
	}
	raceReleaseMrg(unsafe.Pointer(c))
	c.closed = true
}

func Len[C any](ch C) int {
	if curExec == nil {
		return realLen(ch)
	}
	c := shadow(ch, realCap(ch))
	if c == nil {
		return 0
	}
	return c.n
}

// Case of a select statement.
type Case interface{ sc() *selCase }

type RecvC[T any] struct {
	ch <-chan T
	s  selCase
	v  T
	ok bool
}

func (c *RecvC[T]) sc() *selCase { return &c.s }

func (c *RecvC[T]) Get() T {
	v, _ := c.Get2()
	return v
}
func (c *RecvC[T]) Get2() (T, bool) {
	if curExec == nil {
		return c.v, c.ok
	}
	v, _ := c.s.rval.(T)
	return v, c.s.rok
}

func RecvCase[T any](ch <-chan T) *RecvC[T] {
	c := &RecvC[T]{ch: ch}
	if curExec != nil {
		c.s.ch = shadow(ch, cap(ch))
	}
	return c
}

type SendC[T any] struct {
	ch chan<- T
	s  selCase
	v  T
}

func (c *SendC[T]) sc() *selCase { return &c.s }

func SendCase[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] {
		c := &SendC[T]{ch: ch, v: v}
		if curExec != nil {
			c.s.ch = shadow(ch, cap(ch))
			c.s.send = true
			c.s.val = v
		}
		return c
	}
}

// Select runs a select statement and returns the index of the chosen case or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	if curExec == nil {
		panic("rt: select outside an execution")
	}
	o := &op{what: "select", hasDef: hasDefault}
	for i := 0; i < len(cases); i++ {
		o.cases.push(cases[i].sc())
	}
	return curExec.runSelect(o)
}
