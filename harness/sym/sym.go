// Package sym is the interface between harnesses and the symbolic engine. The
// bodies below are the native implementation, used when a counterexample is
// replayed against the real build: inputs come from the replay file. The engine
// replaces every exported function by its symbolic meaning.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
)

type replayFile struct {
	Harness string            `json:"harness"`
	Label   string            `json:"label"`
	Inputs  map[string]uint64 `json:"inputs"`
}

var (
	mu    sync.Mutex
	cnt   = map[string]int{}
	file  replayFile
	begun bool
)

func load() {
	if begun {
		return
	}
	begun = true
	p := os.Getenv("VERIF_REPLAY")
	if p == "" {
		return
	}
	b, err := os.ReadFile(p)
	if err == nil {
		err = json.Unmarshal(b, &file)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "replay file:", err)
		os.Exit(9)
	}
}

func in(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	load()
	k := cnt[name]
	cnt[name] = k + 1
	return file.Inputs[fmt.Sprintf("%s#%d", name, k)]
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return in(name)&1 != 0 }

// U8 is an arbitrary byte.
func U8(name string) uint8 { return uint8(in(name)) }

// U16 is an arbitrary 16-bit value.
func U16(name string) uint16 { return uint16(in(name)) }

// U32 is an arbitrary 32-bit value.
func U32(name string) uint32 { return uint32(in(name)) }

// U64 is an arbitrary 64-bit value.
func U64(name string) uint64 { return in(name) }

// Int is an arbitrary int in [lo, hi].
func Int(name string, lo, hi int) int {
	v := int(int64(in(name)))
	if v < lo || v > hi {
		v = lo
	}
	return v
}

// Choose explores every value 0..n-1, one per path.
func Choose(name string, n int) int {
	v := int(in("?" + name))
	if v >= n {
		v = 0
	}
	return v
}

// Bytes is an arbitrary byte string of length 0..max (the length is chosen per path).
func Bytes(name string, max int) []byte {
	return BytesN(name, Choose(name+".len", max+1))
}

// BytesN is an arbitrary byte string of length n.
func BytesN(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = U8(name)
	}
	return b
}

// Str is like Bytes but yields a string.
func Str(name string, max int) string { return string(Bytes(name, max)) }

// Concrete forks until x has one value on the current path.
func Concrete(x int) int { return x }

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		fmt.Println("REPLAY-ASSUME")
		os.Exit(4)
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		fmt.Printf("REPLAY-FAIL %s\n", label)
		if os.Getenv("VERIF_REPLAY_STACKS") != "" {
			b := make([]byte, 1<<16)
			fmt.Printf("%s\n", b[:runtime.Stack(b, true)])
		}
		os.Exit(3)
	}
}

// Reach marks a program point that must be reachable (vacuity guard).
func Reach(label string) {}

// And is conjunction without forking.
func And(a, b bool) bool { return a && b }

// Or is disjunction without forking.
func Or(a, b bool) bool { return a || b }

// Not is negation without forking.
func Not(a bool) bool { return !a }

// Implies is implication without forking.
func Implies(a, b bool) bool { return !a || b }

// EqBytes compares without forking on the contents.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Ite64 selects without forking.
func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// Quiesce lets every other goroutine run until all of them are blocked.
func Quiesce() {
	d := 150 * time.Millisecond
	if s := os.Getenv("VERIF_REPLAY_QUIESCE"); s != "" {
		if x, err := time.ParseDuration(s); err == nil {
			d = x
		}
	}
	time.Sleep(d)
}

// Yield lets the other runnable goroutines run first.
func Yield() { runtime.Gosched() }

// SmallStack makes deep recursion overflow the stack: after 300 frames when
// interpreted, 1 MB when compiled.
func SmallStack() { debug.SetMaxStack(1 << 20) }

// Live is the number of goroutines other than the caller that have not finished.
func Live() int { return runtime.NumGoroutine() - 1 }

// Heap is the number of structs, map entries and buffered channel elements that
// can still be reached (0 when compiled).
func Heap() int { return 0 }

// Thorough tells whether the larger bounds are wanted.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Log records an observable value for differential validation.
func Log(name string, v uint64) {
	mu.Lock()
	fmt.Printf("LOG %s=%d\n", name, v)
	mu.Unlock()
}

// LogBytes records observable bytes.
func LogBytes(name string, v []byte) {
	mu.Lock()
	fmt.Printf("LOG %s=%x\n", name, v)
	mu.Unlock()
}

// Harness is the harness named by the replay file.
func Harness() string {
	mu.Lock()
	defer mu.Unlock()
	load()
	return file.Harness
}

// Symbolic reports whether the symbolic engine is running.
func Symbolic() bool { return false }

// Draw makes the next random draw below n come out as v%n; natively draws stay
// random.
func Draw(v int) {}

// NowSec forces the virtual clock to an arbitrary later second (symbolic);
// natively it sleeps until that many whole seconds have passed.
func AdvanceSec(sec int) { time.Sleep(time.Duration(sec) * time.Second) }
