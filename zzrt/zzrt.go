// Package zzrt is the run-time half of the model checker. It exists only in
// instrumented builds (through go build -overlay); /repo never contains it.
// The instrumenter routes every source of nondeterminism of the checked
// packages through it: map iteration order, random numbers, the clock, and
// (for the concurrency check) the points at which another thread may run.
package zzrt

import (
	"fmt"
	"iter"
	"math/rand"
	"net/http"
	"sort"
	"time"
)

// Enabled is set by the instrumenter-generated init of the harness.
var (
	Steps     int64                       // statements executed since the last reset
	Limit     int64             = 1 << 60 // more steps than this count as "does not terminate"
	Hook      func()                      // scheduling point (concurrency check only)
	SpinHook  func()                      // a lock is not available: another thread has to run
	Order     func(n int) []int           // order in which n (sorted) map keys are visited; nil: ascending
	RandFloat func() float64
	RandIntn  func(n int) int
	Clock     func() time.Time
	NoPreempt int
	Shared    bool // the point is next to a use of a package-level variable
	Started   bool // the checked code has started threads of its own
	Entry     bool // the point is at the start of a function
	syncing   bool // a synchronization was in the statement before
	after     bool
	Ranges    int64 // map iterations seen

	Touched func(name string, write bool) // a package-level variable is used (concurrency check only)
	Synced  func()                        // threads synchronize here (concurrency check only)
)

// StepLimit is the panic value when the step limit is exceeded.
type StepLimit struct{}

func (StepLimit) Error() string { return "step limit exceeded" }

// P marks a point before a statement.
func P() {
	Steps++
	if Steps > Limit {
		panic(StepLimit{})
	}
	if Hook != nil && NoPreempt == 0 && !Started {
		pending()
		Shared = after
		after = false
		Hook()
	}
}

// S marks a point before a statement which uses a package-level variable.
func S() {
	after = true
	P()
	after = true
}

// A marks a use of a package-level variable by the statement that follows.
func A(name string, write bool) {
	if Touched != nil && NoPreempt == 0 && !Started {
		pending()
		Touched(name, write)
	}
}

// Y marks a synchronization: a lock, an unlock, a channel operation.
func Y() {
	if Synced != nil && !Started {
		Synced()
	}
}

// YY marks a synchronization in the statement that follows.
func YY() {
	Y()
	syncing = true
}

func pending() {
	if syncing {
		syncing = false
		Y()
	}
}

// OnReset registers a function that gives package-level variables their
// initial values.
func OnReset(f func()) { resets = append(resets, f) }

// Reset gives the package-level variables that the checked packages change
// their initial values, as in a process that has just been started.
func Reset() {
	for _, f := range resets {
		f()
	}
}

var resets []func()

// F marks the start of a function.
func F() {
	Entry = true
	P()
	Entry = false
}

// G marks a point before a go statement. The scheduler does not control
// threads of the checked code's own.
func G() {
	P()
	Started = true
}

// Spin acquires a lock through its Try method.
func Spin(try func() bool) {
	for !try() {
		Steps += 100
		if Steps > Limit {
			panic(StepLimit{})
		}
		if SpinHook != nil {
			SpinHook()
		} else {
			time.Sleep(time.Microsecond)
		}
	}
	Y()
}

// Once runs f without scheduling points inside (sync.Once blocks others).
func Once(f func()) {
	NoPreempt++
	defer func() { NoPreempt--; Y() }()
	f()
}

func sortedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	case []uint64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	case []int64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	default:
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	}
	Ranges++
	if Order != nil {
		if perm := Order(len(keys)); perm != nil {
			permuted := make([]K, len(keys))
			for i, p := range perm {
				permuted[i] = keys[p]
			}
			keys = permuted
		}
	}
	return keys
}

// Range iterates over a map in the order the checker decides. As in Go, keys
// deleted before they are reached are not produced.
func Range[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range sortedKeys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// Keys and Values replace maps.Keys and maps.Values.
func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range Range(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range Range(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func Float64() float64 { return OwnFloat64(rand.Float64) }

func Intn(n int) int { return OwnIntn(rand.Intn, n) }

func Int63n(n int64) int64 { return OwnInt63n(rand.Int63n, n) }

func Int31n(n int32) int32 { return OwnInt31n(rand.Int31n, n) }

func Int() int { return OwnInt(rand.Int) }

func Perm(n int) []int { return OwnPerm(rand.Perm, n) }

func Shuffle(n int, swap func(i, j int)) { OwnShuffle(rand.Shuffle, n, swap) }

// N is the function of math/rand/v2.
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	return T(Int63n(int64(n)))
}

// The methods of generators: f is the method itself.

func OwnFloat64(f func() float64) float64 {
	if RandFloat != nil {
		return RandFloat()
	}
	return f()
}

func OwnIntn(f func(int) int, n int) int {
	if RandIntn != nil && n > 0 {
		return RandIntn(n)
	}
	return f(n)
}

func OwnInt63n(f func(int64) int64, n int64) int64 {
	if RandIntn != nil && n > 0 {
		if n < 1<<31 {
			return int64(RandIntn(int(n)))
		}
		const m = 1 << 30
		return n/m*int64(RandIntn(m)) + int64(RandIntn(m))%(n-n/m*(m-1))
	}
	return f(n)
}

func OwnInt31n(f func(int32) int32, n int32) int32 {
	if RandIntn != nil && n > 0 {
		return int32(RandIntn(int(n)))
	}
	return f(n)
}

func OwnInt(f func() int) int {
	if RandIntn != nil {
		return RandIntn(1 << 30)
	}
	return f()
}

func OwnPerm(f func(int) []int, n int) []int {
	if RandIntn == nil {
		return f(n)
	}
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	OwnShuffle(nil, n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

func OwnShuffle(f func(int, func(i, j int)), n int, swap func(i, j int)) {
	if RandIntn == nil {
		f(n, swap)
		return
	}
	for i := n - 1; i > 0; i-- {
		swap(i, RandIntn(i+1))
	}
}

func Now() time.Time {
	if Clock != nil {
		return Clock()
	}
	return time.Now()
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Served is the handler of the web server the program has started.
var Served http.Handler

// ListenAndServe replaces http.ListenAndServe: nothing listens.
func ListenAndServe(addr string, h http.Handler) error {
	if h == nil {
		h = http.DefaultServeMux
	}
	Served = h
	return http.ErrServerClosed
}

// Serve replaces the method of a server.
func Serve(s *http.Server) error { return ListenAndServe(s.Addr, s.Handler) }
