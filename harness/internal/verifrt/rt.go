// Package verifrt is the interface between harnesses and the symbolic engine.
// The engine intercepts every function here; the bodies below are what a
// native replay of a counterexample runs.
package verifrt

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
	"unsafe"
)

type replay struct {
	Harness string            `json:"harness"`
	Tier    string            `json:"tier"`
	Inputs  map[string]uint64 `json:"inputs"`
}

var (
	mu     sync.Mutex
	cur    replay
	count  = map[string]int{}
	jitter int
	rng    *rand.Rand
	alloc0 uint64
)

// out is the real standard output, a harness may redirect the program's.
var out = os.Stdout

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	n := count[name]
	count[name] = n + 1
	return cur.Inputs[fmt.Sprintf("%s#%d", name, n)]
}

// U8 .. U64 return an arbitrary value.
func U8(name string) uint8   { return uint8(next(name)) }
func U16(name string) uint16 { return uint16(next(name)) }
func U32(name string) uint32 { return uint32(next(name)) }
func U64(name string) uint64 { return next(name) }

// Bool returns an arbitrary truth value.
func Bool(name string) bool { return next(name)&1 == 1 }

// Int returns an arbitrary value in [lo,hi].
func Int(name string, lo, hi int) int {
	v := int(next(name))
	if v < lo || v > hi {
		v = lo
	}
	return v
}

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

// Choose makes an explicit choice in [0,n).
func Choose(name string, n int) int {
	v := int(next(name))
	if v >= n {
		v = 0
	}
	return v
}

// Param is a bound: q in the quick tier, t in the thorough tier.
func Param(name string, q, t int) int {
	if cur.Tier == "thorough" {
		return t
	}
	return q
}

// Assume cuts executions that violate c.
func Assume(c bool) {
	if !c {
		fmt.Fprintln(out, "ASSUME-FAILED")
		finish()
		os.Exit(4)
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		mu.Lock()
		fmt.Fprintln(out, "VIOLATED "+label)
		mu.Unlock()
		finish()
		os.Exit(5)
	}
}

// Cover marks a point that must be reachable.
func Cover(label string) {}

// Observe records a value that symbolic and native runs must agree on.
func Observe(name string, v interface{}) {
	mu.Lock()
	defer mu.Unlock()
	switch x := v.(type) {
	case nil:
		fmt.Fprintf(out, "OBS %s=nil\n", name)
	case bool:
		n := 0
		if x {
			n = 1
		}
		fmt.Fprintf(out, "OBS %s=%d\n", name, n)
	case string:
		fmt.Fprintf(out, "OBS %s=%x\n", name, x)
	case []byte:
		fmt.Fprintf(out, "OBS %s=%x\n", name, x)
	case int:
		fmt.Fprintf(out, "OBS %s=%d\n", name, uint64(x))
	case uint8:
		fmt.Fprintf(out, "OBS %s=%d\n", name, x)
	case uint16:
		fmt.Fprintf(out, "OBS %s=%d\n", name, x)
	case uint32:
		fmt.Fprintf(out, "OBS %s=%d\n", name, x)
	case uint64:
		fmt.Fprintf(out, "OBS %s=%d\n", name, x)
	case int32:
		fmt.Fprintf(out, "OBS %s=%d\n", name, uint32(x))
	case int64:
		fmt.Fprintf(out, "OBS %s=%d\n", name, uint64(x))
	default:
		fmt.Fprintf(out, "OBS %s=%T\n", name, v)
	}
}

// Symbolic is true under the engine.
func Symbolic() bool { return false }

// Quiesce waits until no other goroutine can make progress without time passing.
func Quiesce() {
	if linger {
		time.Sleep(2 * time.Second)
		return
	}
	if jitter > 0 {
		mu.Lock()
		d := time.Duration(5+rng.Intn(60)) * time.Millisecond
		mu.Unlock()
		time.Sleep(d)
		return
	}
	time.Sleep(60 * time.Millisecond)
}

// Explore turns on schedule exploration with at most n delays.
func Explore(n int)   { jit() }
func StopExplore()    {}
func MapOrder(b bool) {}

// FixedHashes models the hash of a symbolic input as one fixed value, distinct from every other
// hash, instead of an arbitrary one: the property must not depend on which value it is.
func FixedHashes() {}

// Dig sets target, a **T, to the field of type T or *T of the struct v points to, whatever its name.
func Dig(v, target interface{}) bool {
	to := reflect.ValueOf(target).Elem()
	s := reflect.ValueOf(v)
	if s.Kind() != reflect.Ptr || s.Elem().Kind() != reflect.Struct {
		return false
	}
	s = s.Elem()
	for i := 0; i < s.NumField(); i++ {
		switch f := s.Field(i); f.Type() {
		case to.Type().Elem():
			to.Set(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())))
			return true
		case to.Type():
			to.Set(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem())
			return true
		}
	}
	return false
}

// FixedRandoms makes random 64-bit numbers some distinct values instead of arbitrary ones.
func FixedRandoms(b bool) {}

// Unsupported ends an execution the harness cannot model: it decides nothing.
func Unsupported(msg string) {
	fmt.Fprintln(out, "UNSUPPORTED "+msg)
	Assume(false)
}

// Race turns on the map race detector (all: every shared cell).
func Race(all bool) {}

// Known tags the rest of this execution as a listed finding when c holds.
func Known(id string, c bool) {}

// Done ends the execution successfully.
func Done() {
	finish()
	fmt.Fprintln(out, "DONE")
	os.Exit(0)
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

func BytesEq(a, b []byte) bool { return string(a) == string(b) }

func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

func Ite32(c bool, a, b uint32) uint32 {
	if c {
		return a
	}
	return b
}

func Ite8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}

// Conc forks over the values of v.
func Conc(v int) int { return v }

// Goroutines is the number of live goroutines.
func Goroutines() int { return runtime.NumGoroutine() }

// Ended waits until at most n goroutines are left.
func Ended(n int) bool {
	for i := 0; i < 40 && Goroutines() > n; i++ {
		Quiesce()
	}
	return Goroutines() <= n
}

// Lock and Unlock suppress preemption of the calling goroutine (engine only).
func Lock()   {}
func Unlock() {}

// Protect runs f and returns the text of a panic, "" if none.
func Protect(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return ""
}

// linger: the driver waits long, a goroutine that never waits shows in the processor time.
var linger bool

func jit() {
	if jitter == 0 {
		return
	}
	mu.Lock()
	n := rng.Intn(4)
	mu.Unlock()
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

// Jitter is called by harness fakes: natively it perturbs the schedule.
func Jitter() {
	if jitter == 0 {
		return
	}
	mu.Lock()
	n := rng.Intn(8)
	d := time.Duration(rng.Intn(400)) * time.Microsecond
	mu.Unlock()
	if n < 3 {
		return
	}
	if n < 6 {
		runtime.Gosched()
		return
	}
	time.Sleep(d)
}

func finish() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	fmt.Fprintf(out, "ALLOC %d\n", m.TotalAlloc-alloc0)
}

// Main runs one harness natively with the inputs of a counterexample.
func Main(hs map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		panic(err)
	}
	jitter, _ = strconv.Atoi(os.Getenv("VERIF_JITTER"))
	rng = rand.New(rand.NewSource(int64(jitter)))
	if jitter > 0 {
		runtime.GOMAXPROCS([]int{8, 1, 2, 4, 16}[jitter%5])
	}
	linger = os.Getenv("VERIF_LINGER") != ""
	debug.SetMaxStack(256 << 20)
	h := hs[cur.Harness]
	if h == nil {
		fmt.Fprintln(out, "no harness", cur.Harness)
		os.Exit(9)
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	alloc0 = m.TotalAlloc
	h()
	Done()
}
