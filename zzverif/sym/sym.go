// Package sym is the interface between harnesses and the symbolic engine.
// The engine replaces every function here; sym_native.go holds the
// implementation used when a counterexample is replayed natively.
package sym

func U8(name string) uint8                    { return 0 }
func U16(name string) uint16                  { return 0 }
func U32(name string) uint32                  { return 0 }
func U64(name string) uint64                  { return 0 }
func I64(name string) int64                   { return 0 }
func Int(name string) int                     { return 0 }
func Bool(name string) bool                   { return false }
func Range(name string, lo, hi uint64) uint64 { return lo }
func Bytes(name string, n int) []byte         { return nil }
func String(name string, n int) string        { return "" }
func Choose(name string, n int) int           { return 0 }
func Assume(c bool)                           {}
func Assert(c bool, label string)             {}
func Fail(label string)                       {}

// Real: the library's function rather than the stub of this name.
func Real(stub string) {}

func Cover(label string) {}

// Unsupported: this machine cannot set the case up; the interpreter replays it instead.
func Unsupported(why string) {}

func Bound(text string) {}
func Thorough() bool    { return false }
func Engine() bool      { return true }
func AllowExit(b bool)  {}
func Preempt(n int)     {}

// Steps is how many instructions a path may take before it counts as endless.
func Steps(n int) {}

func MapOrder(b bool) {}
func Races(b bool)    {}

// Detached runs f, which may as well run at any later time (sym.Races).
func Detached(f func()) {}

// Digits: symbolic integers are printed digit by digit, not as text of unknown content.
func Digits(b bool) {}

// Clock sets the clock (seconds), which is an arbitrary instant otherwise.
func Clock(sec int64) {}
func WaitIdle()       {}

// Pause sleeps (the engine's time.Sleep).
func Pause(d int64)               {}
func RepoFile(path string) []byte { return nil }
func Concrete(x uint64) uint64    { return x }
func IsConst(x uint64) bool       { return true }
func IsOpaque(s string) bool      { return false }

// Logical connectives that do not fork the path.
func And(a ...bool) bool               { return false }
func Or(a ...bool) bool                { return false }
func Not(a bool) bool                  { return !a }
func Implies(a, b bool) bool           { return !a || b }
func IfU64(c bool, a, b uint64) uint64 { return a }
func IfInt(c bool, a, b int) int       { return a }
func EqBytes(a, b []byte) bool         { return false }
func EqStr(a, b string) bool           { return a == b }

// OnExit: f is called with the status when the process ends itself.
func OnExit(f func(status int)) {}
