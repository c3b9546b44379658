package rt

import "unsafe"

// SetBool exists so that the write happens in un-instrumented code.
func SetBool(p *bool, v bool) { *p = v }

// Stack is a growable list without runtime append.
type Stack struct{ v vec[any] }

// Clear removes everything.
func (s *Stack) Clear() { s.v = vec[any]{} }

func (s *Stack) Len() int   { return s.v.n }
func (s *Stack) Push(x any) { s.v.push(x) }
func (s *Stack) Take(i int) any {
	x := s.v.at(i)
	s.v.removeAt(i)
	return x
}

// PointPool is a scheduling point at pool operations.
func PointPool(what string) {
	ex := curExec
	if ex == nil || ex.aborted || !ex.cfg.Pool {
		return
	}
	ex.point(&op{kind: oNone, what: what}, what)
}

// ChooseKindIf is a pool decision if pools are explored.
func ChooseKindIf(kind, n int) int {
	ex := curExec
	if ex == nil || !ex.cfg.Pool {
		return 0
	}
	return ex.choose(kind, n)
}

// Poison overwrites byte slices that were given back to a pool.
func Poison(x any) {
	if RaceEnabled {
		return
	}
	switch b := x.(type) {
	case []byte:
		b = b[:cap(b)]
		if len(b) <= 64*1024 {
			for i := range b {
				b[i] = 0xDB
			}
		}
	case *[]byte:
		Poison(*b)
	}
}

// CloseQuiet closes a channel without a scheduling point of its own.
func CloseQuiet(ch chan struct{}) {
	c := shadow(ch, cap(ch))
	raceReleaseMrgPtr(c)
	c.closed = true
}

// Fence orders everything that goroutines did before a Fence on p before what happens after later ones, like a mutex.
func Fence(p unsafe.Pointer) {
	if RaceEnabled {
		raceAcquire(p)
		raceReleaseMrg(p)
	}
}
