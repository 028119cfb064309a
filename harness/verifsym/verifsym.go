// Package verifsym is the interface between harnesses and the symbolic engine. The engine
// interprets these functions symbolically; this native version takes the values of a
// solver model, so that the same harness replays a counterexample on the real code.
package verifsym

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
)

type Result struct {
	Fails   []string `json:"fails,omitempty"`
	Panic   string   `json:"panic,omitempty"`
	Assume  bool     `json:"assume,omitempty"`
	Obs     []string `json:"obs,omitempty"`
	Covers  []string `json:"covers,omitempty"`
	Missing []string `json:"missing,omitempty"`
}

type assumeFailed struct{}

var (
	cur     map[string]string
	names   map[string]int
	res     *Result
	tier    int
	scratch string
	files   int
	optIdx  int
)

// Run executes f natively with the given inputs.
func Run(f func(), in map[string]string, t int, dir string) (r *Result) {
	cur, names, res, tier, scratch = in, map[string]int{}, &Result{}, t, dir
	r = res
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(assumeFailed); ok {
				r.Assume = true
				return
			}
			r.Panic = fmt.Sprint(e)
			if r.Panic == "" {
				r.Panic = "panic"
			}
		}
	}()
	f()
	return
}

func get(name string) (string, bool) {
	k := names[name]
	names[name]++
	if k > 0 {
		name += "#" + strconv.Itoa(k)
	}
	v, ok := cur[name]
	if !ok {
		res.Missing = append(res.Missing, name)
	}
	return v, ok
}

// Int is any integer in [lo,hi].
func Int(name string, lo, hi int) int {
	s, ok := get(name)
	v, err := strconv.Atoi(s)
	if !ok || err != nil {
		v = lo
		if lo <= 0 && hi >= 0 {
			v = 0
		}
	}
	if v < lo || v > hi {
		panic(assumeFailed{})
	}
	return v
}

// Bool is any boolean.
func Bool(name string) bool {
	s, _ := get(name)
	return s == "true"
}

// Byte is any byte of the alphabet.
func Byte(name, alphabet string) byte {
	s, ok := get(name)
	v, err := strconv.Atoi(s)
	if !ok || err != nil {
		return alphabet[0]
	}
	for i := 0; i < len(alphabet); i++ {
		if int(alphabet[i]) == v {
			return alphabet[i]
		}
	}
	panic(assumeFailed{})
}

// Str is any string of n bytes of the alphabet.
func Str(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name, alphabet)
	}
	return string(b)
}

// Float64 is any 64-bit float, including infinities and NaNs.
func Float64(name string) float64 {
	s, _ := get(name)
	v, _ := strconv.ParseUint(s, 16, 64)
	return math.Float64frombits(v)
}

// Grid is any k*2^exp with integer k in [lo,hi].
func Grid(name string, lo, hi, exp int) float64 {
	return math.Ldexp(float64(Int(name, lo, hi)), exp)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

// Assert is the property.
func Assert(c bool, label string) {
	if !c {
		res.Fails = append(res.Fails, label)
	}
}

// Cover marks a situation that must be reachable for the check to be meaningful.
func Cover(label string) { res.Covers = append(res.Covers, label) }

// ObserveInt, ObserveFloat and ObserveStr report values for the comparison of the
// symbolic execution with the native one.
func ObserveInt(label string, v int) {
	res.Obs = append(res.Obs, label+"="+strconv.Itoa(v))
}
func ObserveFloat(label string, v float64) {
	res.Obs = append(res.Obs, label+"=f"+strconv.FormatUint(math.Float64bits(v), 16))
}
func ObserveStr(label string, v string) {
	res.Obs = append(res.Obs, label+"="+strconv.Quote(v))
}

// Tier is 0 for the quick check and 1 for the thorough one.
func Tier() int { return tier }

// Catch reports whether f panics.
func Catch(f func()) (panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(assumeFailed); ok {
				panic(a)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// Output gives what f writes to the standard output.
func Output(f func()) string {
	name := TempName()
	w, err := os.Create(name)
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = w
	defer func() {
		os.Stdout = old
		w.Close()
	}()
	f()
	b, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// TempFile returns the path of a new file with the given content.
func TempFile(content string) string {
	files++
	p := filepath.Join(scratch, "in"+strconv.Itoa(files%16))
	if err := os.WriteFile(p, []byte(content), 0o600); err != nil {
		panic(err)
	}
	return p
}

// TempName returns the path of a file that does not exist yet.
func TempName() string {
	files++
	p := filepath.Join(scratch, "out"+strconv.Itoa(files%16))
	os.Remove(p)
	return p
}

// MapOrder selects how the symbolic execution iterates over maps from here on: in insertion
// order (0), reversed (1), or permuted (k >= 2). Native runs use Go's own random order.
func MapOrder(k int) {}

// Merge selects how the symbolic execution treats branches: 0 forks, 1 merges boolean and
// float results, 2 merges integers as well.
func Merge(mode int) {}

// Concretize splits on the value of i.
func Concretize(i int) int { return i }

// Rand reports whether the run is symbolic; harnesses may not depend on it for the verdict.
func Symbolic() bool { return false }

// Run0 is Run for the replay server.
func Run0(f func(), in map[string]string, t int, dir string) interface{} { return Run(f, in, t, dir) }
