// Package verifsym is the harness interface. Under gosym every function here is intercepted and
// returns symbolic values; compiled natively it replays recorded inputs.
package verifsym

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

type Case struct {
	Harness string  `json:"harness"`
	Tier    string  `json:"tier"`
	Inputs  []Input `json:"inputs"`
	Sched   []int   `json:"sched"`
	Want    string  `json:"want"` // label, or "" for a plain run
	Stop    bool    `json:"-"`
}

type Outcome struct {
	Failed  []string `json:"failed"`
	Panic   string   `json:"panic"`
	Assumed bool     `json:"assumed"` // an assumption did not hold
	Missing []string `json:"missing"` // inputs asked for but not recorded
	Obs     []string `json:"obs"`
	Done    bool     `json:"done"`
}

var (
	mu    sync.Mutex
	cur   Case
	vals  map[string]string
	names map[string]int
	out   Outcome
	last  time.Time
)

type assumeFailed struct{}

// Run executes one recorded case.
func Run(c Case, fns map[string]func()) (o Outcome) {
	cur = c
	vals = map[string]string{}
	names = map[string]int{}
	out = Outcome{}
	last = time.Unix(1600000000, 0)
	for _, i := range c.Inputs {
		vals[i.Name] = i.Val
	}
	f := fns[c.Harness]
	if f == nil {
		out.Panic = "no harness " + c.Harness
		return out
	}
	initSched(c)
	defer func() {
		p := recover()
		mu.Lock()
		defer mu.Unlock()
		if p != nil {
			if _, ok := p.(assumeFailed); ok {
				out.Assumed = true
			} else {
				out.Panic = fmt.Sprint(p)
			}
		}
		o = out
	}()
	f()
	out.Done = true
	return out
}

// Main runs the case in the file named by VERIF_CASE and writes the outcome beside it.
func Main(fns map[string]func()) {
	path := os.Getenv("VERIF_CASE")
	data, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var cs []Case
	if err := json.Unmarshal(data, &cs); err != nil {
		panic(err)
	}
	var res []Outcome
	for _, c := range cs {
		res = append(res, Run(c, fns))
		b, _ := json.Marshal(res)
		os.WriteFile(path+".out", b, 0644)
	}
}

func get(name string) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	n := fmt.Sprintf("%s#%d", name, names[name])
	names[name]++
	v, ok := vals[n]
	if !ok {
		out.Missing = append(out.Missing, n)
	}
	return v, ok
}

func num(name string) *big.Int {
	v, _ := get(name)
	n, ok := new(big.Int).SetString(v, 10)
	if !ok {
		return new(big.Int)
	}
	return n
}

func Byte(name string) byte     { return byte(num(name).Uint64()) }
func Uint16(name string) uint16 { return uint16(num(name).Uint64()) }
func Uint32(name string) uint32 { return uint32(num(name).Uint64()) }
func Uint64(name string) uint64 { return num(name).Uint64() }
func Int64(name string) int64   { return num(name).Int64() }
func Int(name string) int       { return int(num(name).Int64()) }
func Bool(name string) bool     { return num(name).Sign() != 0 }

func IntRange(name string, lo, hi int) int {
	v := int(num(name).Int64())
	if v < lo || v > hi {
		return lo
	}
	return v
}

// Choose picks one of n alternatives; every one is explored.
func Choose(name string, n int) int {
	v := int(num(name).Int64())
	if v < 0 || v >= n {
		return 0
	}
	return v
}

func Bytes(name string, n int) []byte {
	v, _ := get(name)
	b, _ := hex.DecodeString(v)
	r := make([]byte, n)
	copy(r, b)
	return r
}

// String is an arbitrary ASCII string of n bytes.
func String(name string, n int) string {
	v, _ := get(name)
	b, _ := hex.DecodeString(v)
	r := []byte(strings.Repeat("a", n))
	copy(r, b)
	return string(r)
}

func BigInt(name string, bits int) *big.Int { return num(name) }

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

func Assert(c bool, label string) {
	if !c {
		Fail(label)
	}
}

func Fail(label string) {
	mu.Lock()
	out.Failed = append(out.Failed, label)
	mu.Unlock()
}

func Cover(label string) {}

func Observe(name string, v interface{}) {
	s := render(v)
	mu.Lock()
	out.Obs = append(out.Obs, name+"="+s)
	mu.Unlock()
}

func render(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case bool:
		return strconv.FormatBool(x)
	case string:
		return fmt.Sprintf("%q", x)
	case []byte:
		return fmt.Sprintf("%x", x)
	case *big.Int:
		if x == nil {
			return "<nil>"
		}
		return x.String()
	case error:
		return "error"
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return fmt.Sprint(x)
	case []int:
		var s []string
		for _, e := range x {
			s = append(s, render(e))
		}
		return "[" + strings.Join(s, " ") + "]"
	case []string:
		var s []string
		for _, e := range x {
			s = append(s, render(e))
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return fmt.Sprintf("<%T>", v)
}

// Try reports whether f panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(assumeFailed); ok {
				panic(p)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// Bound is a bound of the exploration that depends on the tier.
func Bound(name string, quick, thorough int) int {
	if cur.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Allocates asserts that no buffer of more than limit elements is allocated while f runs.
// Natively it is judged by everything that is allocated meanwhile: the limit is to leave room for that.
func Allocates(limit int, label string, f func()) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	Assert(b.TotalAlloc-a.TotalAlloc <= uint64(limit), label)
}

// OneDraw lets random bytes be a single concrete draw from now on, and not any.
func OneDraw() {}

func MapOrder(bool) {}
func Race()         {}

// Symbolic reports whether the code runs under the symbolic executor.
func Symbolic() bool { return false }

// Assign copies what src points to to where dst points to, if they are pointers of the same type.
func Assign(dst, src interface{}) bool {
	if reflect.TypeOf(dst) != reflect.TypeOf(src) {
		return false
	}
	reflect.ValueOf(dst).Elem().Set(reflect.ValueOf(src).Elem())
	return true
}

// Key is the k-th fixed test private key, raw hex.
func Key(k int) string {
	h := sha256.Sum256([]byte(fmt.Sprintf("verif key %d/%d", k, 0)))
	return hex.EncodeToString(h[:])
}

// TimeNow stands in for time.Now.
func TimeNow() time.Time {
	v, ok := get("now")
	mu.Lock()
	defer mu.Unlock()
	if ok {
		if s, n, ok := strings.Cut(v, ","); ok {
			sec, _ := strconv.ParseInt(s, 10, 64)
			ns, _ := strconv.ParseInt(n, 10, 64)
			last = time.Unix(sec, ns)
			return last
		}
	}
	if len(out.Missing) > 0 && strings.HasPrefix(out.Missing[len(out.Missing)-1], "now#") {
		out.Missing = out.Missing[:len(out.Missing)-1]
	}
	return last
}
