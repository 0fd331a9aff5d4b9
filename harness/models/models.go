// Package models holds Go models of library functions the engine does not
// interpret from source (their real bodies use assembly, unsafe or reflection).
// They are interpreted by the engine only, never run natively.
package models

import (
	"context"
	"io"
	"math/rand"
	"os"
	"sync"
	"time"
)

// RuntimeError is the value of run-time panics raised by the engine.
type RuntimeError struct{ Msg string }

func (e RuntimeError) Error() string { return e.Msg }

// RuntimeError marks the type like runtime.Error does.
func (e RuntimeError) RuntimeError() {}

func syncMapKeys(m *sync.Map) []any { panic("intrinsic") }

// SyncMapRange models (*sync.Map).Range.
func SyncMapRange(m *sync.Map, f func(k, v any) bool) {
	for _, k := range syncMapKeys(m) {
		v, ok := m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

func sameErr(a, b error) (r bool) {
	defer func() {
		if recover() != nil {
			r = false
		}
	}()
	return a == b
}

// ErrorsIs models errors.Is.
func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if sameErr(err, target) {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func asAssign(err error, target any) bool { panic("intrinsic") }

// ErrorsAs models errors.As.
func ErrorsAs(err error, target any) bool {
	for err != nil {
		if asAssign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

type fmtError struct {
	msg string
	err error
}

func (e *fmtError) Error() string { return e.msg }
func (e *fmtError) Unwrap() error { return e.err }

func sprintf(format string, args []any) string { panic("intrinsic") }

func fmtArgs(args []any) []any {
	r := make([]any, len(args))
	for i, a := range args {
		switch x := a.(type) {
		case error:
			r[i] = x.Error()
		case interface{ String() string }:
			r[i] = x.String()
		default:
			r[i] = a
		}
	}
	return r
}

// FmtSprintf models fmt.Sprintf.
func FmtSprintf(format string, args ...any) string { return sprintf(format, fmtArgs(args)) }

// FmtSprint models fmt.Sprint (one verb per operand).
func FmtSprint(args ...any) string {
	f := ""
	for range args {
		f += "%v"
	}
	return sprintf(f, fmtArgs(args))
}

// FmtSprintln models fmt.Sprintln.
func FmtSprintln(args ...any) string {
	f := ""
	for i := range args {
		if i > 0 {
			f += " "
		}
		f += "%v"
	}
	return sprintf(f, fmtArgs(args)) + "\n"
}

func fprint(w io.Writer, s string) (int, error) {
	if _, ok := w.(*os.File); ok {
		return len(s), nil
	}
	return w.Write([]byte(s))
}

// FmtFprintf models fmt.Fprintf.
func FmtFprintf(w io.Writer, format string, args ...any) (int, error) {
	return fprint(w, FmtSprintf(format, args...))
}

// FmtFprint models fmt.Fprint.
func FmtFprint(w io.Writer, args ...any) (int, error) { return fprint(w, FmtSprint(args...)) }

// FmtFprintln models fmt.Fprintln.
func FmtFprintln(w io.Writer, args ...any) (int, error) { return fprint(w, FmtSprintln(args...)) }

// FmtErrorf models fmt.Errorf.
func FmtErrorf(format string, args ...any) error {
	e := &fmtError{msg: sprintf(format, fmtArgs(args))}
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, a := range args {
				if x, ok := a.(error); ok {
					e.err = x
				}
			}
		}
	}
	return e
}

func condAdd(c *sync.Cond) int        { panic("intrinsic") }
func condWait(c *sync.Cond, tick int) { panic("intrinsic") }

// CondWait models (*sync.Cond).Wait.
func CondWait(c *sync.Cond) {
	t := condAdd(c)
	c.L.Unlock()
	condWait(c, t)
	c.L.Lock()
}

// WGGo models (*sync.WaitGroup).Go.
func WGGo(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		f()
	}()
}

type timerSt struct {
	gen     *timerRun
	f       func()
	c       chan time.Time
	running bool
}

type timerRun struct{ stopped, fired bool }

var timers = map[*time.Timer]*timerSt{}

// sleepOr sleeps for d or until *stop.
func sleepOr(d time.Duration, stop *bool) { panic("intrinsic") }

func startTimer(st *timerSt, d time.Duration) {
	r := &timerRun{}
	st.gen = r
	go func() {
		sleepOr(d, &r.stopped)
		if r.stopped {
			return
		}
		r.fired = true
		if st.f != nil {
			st.f()
			return
		}
		select {
		case st.c <- time.Now():
		default:
		}
	}()
}

// TimeAfterFunc models time.AfterFunc.
func TimeAfterFunc(d time.Duration, f func()) *time.Timer {
	t := &time.Timer{}
	st := &timerSt{f: f}
	timers[t] = st
	startTimer(st, d)
	return t
}

// TimeNewTimer models time.NewTimer.
func TimeNewTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	t := &time.Timer{C: c}
	st := &timerSt{c: c}
	timers[t] = st
	startTimer(st, d)
	return t
}

// TimeAfter models time.After.
func TimeAfter(d time.Duration) <-chan time.Time { return TimeNewTimer(d).C }

// TimerStop models (*time.Timer).Stop.
func TimerStop(t *time.Timer) bool {
	st := timers[t]
	if st == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	was := !st.gen.stopped && !st.gen.fired
	st.gen.stopped = true
	if st.c != nil {
		select {
		case <-st.c:
			was = true
		default:
		}
	}
	return was
}

// TimerReset models (*time.Timer).Reset.
func TimerReset(t *time.Timer, d time.Duration) bool {
	was := TimerStop(t)
	startTimer(timers[t], d)
	return was
}

type tickerSt struct {
	c       chan time.Time
	stopped *bool
}

var tickers = map[*time.Ticker]*tickerSt{}

func startTicker(st *tickerSt, d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker")
	}
	stopped := new(bool)
	st.stopped = stopped
	go func() {
		for {
			sleepOr(d, stopped)
			if *stopped {
				return
			}
			select {
			case st.c <- time.Now():
			default:
			}
		}
	}()
}

// TimeNewTicker models time.NewTicker.
func TimeNewTicker(d time.Duration) *time.Ticker {
	st := &tickerSt{c: make(chan time.Time, 1)}
	t := &time.Ticker{C: st.c}
	tickers[t] = st
	startTicker(st, d)
	return t
}

// TimeTick models time.Tick.
func TimeTick(d time.Duration) <-chan time.Time { return TimeNewTicker(d).C }

// TickerStop models (*time.Ticker).Stop.
func TickerStop(t *time.Ticker) {
	st := tickers[t]
	*st.stopped = true
	select {
	case <-st.c:
	default:
	}
}

// TickerReset models (*time.Ticker).Reset.
func TickerReset(t *time.Ticker, d time.Duration) {
	TickerStop(t)
	startTicker(tickers[t], d)
}

// RandShuffle models math/rand.Shuffle.
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		j := rand.Intn(i + 1)
		swap(i, j)
	}
}

// SortSlice models sort.Slice on a swap-free basis.
func swapper(s any) func(i, j int) { panic("intrinsic") }

// SortSlice models sort.Slice / sort.SliceStable.
func SortSlice(s any, less func(i, j int) bool) {
	n := sliceLen(s)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapElems(s, j, j-1)
		}
	}
}

func sliceLen(s any) int            { panic("intrinsic") }
func swapElems(s any, i, j int)     { panic("intrinsic") }

var _ = context.Background

// RType stands for reflect types (only asked whether they are comparable).
type RType struct{ name string }

// Comparable reports whether values of the type are comparable.
func (RType) Comparable() bool { return true }

// String names the type.
func (t RType) String() string { return t.name }

// Elem is the element type.
func (t RType) Elem() RType { return t }

// WsMaskBytes models the word-wise websocket masking.
func WsMaskBytes(key [4]byte, pos int, b []byte) int {
	for i := range b {
		b[i] ^= key[pos&3]
		pos++
	}
	return pos & 3
}
