package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

var inputs map[string]uint64
var count = map[string]int{}
var tier string

func load() {
	if inputs != nil {
		return
	}
	var r struct {
		Inputs map[string]string
		Tier   string
	}
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fmt.Println("VERIF-REPLAY-ERROR", err)
		os.Exit(3)
	}
	inputs = map[string]uint64{}
	for k, v := range r.Inputs {
		n, _ := strconv.ParseUint(v, 10, 64)
		inputs[k] = n
	}
	tier = r.Tier
}

func get(name string) uint64 {
	load()
	n := count[name]
	count[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return inputs[name]
}

func U8(name string) uint8   { return uint8(get(name)) }
func U16(name string) uint16 { return uint16(get(name)) }
func U32(name string) uint32 { return uint32(get(name)) }
func U64(name string) uint64 { return get(name) }
func I64(name string) int64  { return int64(get(name)) }
func Int(name string) int    { return int(get(name)) }
func Bool(name string) bool  { return get(name) == 1 }
func Range(name string, lo, hi uint64) uint64 {
	v := get(name)
	if v < lo || v > hi {
		v = lo
	}
	return v
}
func Bytes(name string, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(get(fmt.Sprintf("%s[%d]", name, i)))
	}
	return r
}
func String(name string, n int) string { return string(Bytes(name, n)) }
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(get(name))
}
func Assume(c bool) {
	if !c {
		fmt.Println("VERIF-ASSUME-FAIL")
		os.Exit(4)
	}
}
func Assert(c bool, label string) {
	if !c {
		fmt.Println("VERIF-ASSERT-FAIL " + label)
		os.Exit(5)
	}
}
func Unsupported(why string) {
	fmt.Println("VERIF-UNSUPPORTED " + why)
	os.Exit(6)
}
func Real(stub string)   {}
func Fail(label string)  { Assert(false, label) }
func Cover(label string) {}
func Bound(text string)  {}
func Thorough() bool     { load(); return tier == "thorough" }
func Engine() bool       { return false }
func AllowExit(b bool) {
	if b {
		fmt.Println("VERIF-ALLOW-EXIT")
	}
}
func Preempt(n int)   {}
func Steps(n int)     {}
func MapOrder(b bool) {}
func Races(b bool)    {}

// Detached runs f, which may as well run at any later time (sym.Races).
func Detached(f func()) { f() }

// Digits: symbolic integers are printed digit by digit, not as text of unknown content.
func Digits(b bool) {}

// Clock sets the clock (seconds), which is an arbitrary instant otherwise.
func Clock(sec int64)          {}
func WaitIdle()                { time.Sleep(400 * time.Millisecond) }
func Concrete(x uint64) uint64 { return x }
func IsConst(x uint64) bool    { return true }
func IsOpaque(s string) bool   { return false }
func RepoFile(path string) []byte {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_REPO"), path))
	if err != nil {
		fmt.Println("VERIF-REPLAY-ERROR", err)
		os.Exit(3)
	}
	return b
}

func And(a ...bool) bool {
	for _, x := range a {
		if !x {
			return false
		}
	}
	return true
}
func Or(a ...bool) bool {
	for _, x := range a {
		if x {
			return true
		}
	}
	return false
}
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func IfU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IfInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool { return string(a) == string(b) }
func EqStr(a, b string) bool   { return a == b }

// Pause sleeps, in a native replay not at all.
func Pause(d int64) {}

// OnExit: f is called with the status when the process ends itself (engine only).
func OnExit(f func(status int)) {}
