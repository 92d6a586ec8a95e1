// Package vrt is the harness runtime.  The solver-based checker interprets the functions below
// itself; this native implementation is used only to replay counterexamples and witnesses
// against the compiled code.
package vrt

import (
	"bytes"
	"crypto/rand"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

var (
	mu    sync.Mutex
	model map[string]string
	count = map[string]int{}
	fails int
)

func init() {
	model = map[string]string{}
	if f := os.Getenv("VERIF_MODEL"); f != "" {
		b, err := os.ReadFile(f)
		if err == nil {
			json.Unmarshal(b, &model)
		}
		rand.Reader = &detReader{}
	}
}

// detReader gives the random values of the model to code that draws 32-byte scalars.
type detReader struct{ n int }

// coins: values of the next scalar draws (harnesses that fix the randomness)
var (
	coins     []*big.Int
	coinsOn   bool
	coinsUsed int
)

// SetCoins makes the next scalar draws return the given values, and zero after the last.
func SetCoins(x []*big.Int) {
	mu.Lock()
	defer mu.Unlock()
	coins, coinsOn, coinsUsed = x, true, 0
	rand.Reader = &detReader{}
}
func CoinsUsed() int { return coinsUsed }

func (d *detReader) Read(b []byte) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	name := "rnd"
	if d.n > 0 {
		name = fmt.Sprintf("rnd#%d", d.n)
	}
	if len(b) == 32 && coinsOn {
		for i := range b {
			b[i] = 0
		}
		if coinsUsed < len(coins) {
			coins[coinsUsed].FillBytes(b)
		}
		coinsUsed++
		return 32, nil
	}
	if len(b) == 32 {
		d.n++
		v, ok := new(big.Int).SetString(model[name], 10)
		if !ok {
			v = big.NewInt(int64(7919 * d.n))
		}
		v.FillBytes(b)
		return 32, nil
	}
	for i := range b {
		d.n++
		b[i] = byte(d.n * 131)
	}
	return len(b), nil
}

func uniq(name string) string {
	n := count[name]
	count[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}
func get(name string) *big.Int {
	mu.Lock()
	defer mu.Unlock()
	return raw(uniq(name))
}
func raw(n string) *big.Int {
	v, ok := new(big.Int).SetString(model[n], 10)
	if !ok {
		return new(big.Int)
	}
	return v
}

// Field returns the value of a field variable of the model.
func Field(name string) *big.Int { return get(name) }

// Symbolic reports whether the harness is being decided by the solver.
func Symbolic() bool { return false }

// Thorough reports the tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func U64(name string) uint64 { return get(name).Uint64() }
func U32(name string) uint32 { return uint32(get(name).Uint64()) }
func U16(name string) uint16 { return uint16(get(name).Uint64()) }
func U8(name string) uint8   { return uint8(get(name).Uint64()) }
func Int(name string, lo, hi int) int {
	v := get(name)
	if v.BitLen() > 63 {
		return int(int64(v.Uint64()))
	}
	r := int(v.Int64())
	if r < lo {
		r = lo
	}
	if r > hi {
		r = hi
	}
	return r
}
func Bool(name string) bool { return get(name).Sign() != 0 }
func Bytes(name string, n int) []byte {
	mu.Lock()
	defer mu.Unlock()
	base := uniq(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(raw(fmt.Sprintf("%s[%d]", base, i)).Uint64())
	}
	return b
}
func Choose(name string, n int) int {
	if n <= 1 {
		get(name)
		return 0
	}
	return int(get(name).Int64())
}
func Concrete(x int) int { return x }
func Assume(b bool) {
	if !b {
		fmt.Println("VERIF-ASSUME-FALSE")
		os.Exit(3)
	}
}
func Assert(b bool, msg string) {
	if !b {
		mu.Lock()
		fails++
		mu.Unlock()
		fmt.Println("VERIF-FAIL: " + msg)
	}
}
func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}
func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}
func Iff(a, b bool) bool       { return a == b }
func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
func Reach(name string)        {}
func Stop()                    { runtime.Goexit() }

// Repeat is the number of times a native run repeats a step that depends on the schedule.
func Repeat(n int) int             { return n }
func Option(k, v string)           {}
func ObsU64(name string, v uint64) { fmt.Printf("VERIF-OBS %s=%d\n", name, v) }
func ObsBool(name string, v bool) {
	k := 0
	if v {
		k = 1
	}
	fmt.Printf("VERIF-OBS %s=%d\n", name, k)
}
func ObsBig(name string, v *big.Int) { fmt.Printf("VERIF-OBS %s=%s\n", name, v) }
func Debug(a ...any)                 {}

// Quiesce waits until the goroutines started by the harness have settled.
func Quiesce() {
	d := 400 * time.Millisecond
	if s := os.Getenv("VERIF_SETTLE"); s != "" {
		d, _ = time.ParseDuration(s)
	}
	time.Sleep(d)
	// and while the process is busy
	idle := 0
	for t := time.Now(); idle < 2 && time.Since(t) < 15*time.Second; {
		c := cpu()
		time.Sleep(60 * time.Millisecond)
		if idle++; cpu()-c > 4*time.Millisecond {
			idle = 0
		}
	}
}
func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

// Crashes also covers log.Fatal, which ends a native run.
func Crashes(f func()) bool { return Panics(f) }

func Goroutines() int { return runtime.NumGoroutine() }

func Failures() int { return fails }

// Port is a free TCP port.
func Port() string {
	l, err := net.Listen("tcp4", ":0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
}

// Scratch makes a new directory the current one, so that files written stay there.
func Scratch() {
	d, err := os.MkdirTemp("", "verif")
	if err == nil {
		err = os.Chdir(d)
	}
	if err != nil {
		panic(err)
	}
}
