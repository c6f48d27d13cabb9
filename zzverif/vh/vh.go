// Package vh holds what the harnesses of several packages share.
package vh

import (
	"os"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/timestamp"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

// Setup puts the repository's own configuration into effect.
func Setup() *sarflags.Cliflags {
	if err := os.WriteFile("saratoga.json", sym.RepoFile("saratoga/saratoga.json"), 0644); err != nil {
		panic(err)
	}
	c := new(sarflags.Cliflags)
	if err := c.ReadConfig("saratoga.json"); err != nil {
		panic(err)
	}
	sarflags.Cliflag = c
	return c
}

// Tstamp is an arbitrary timestamp of any type the wire can carry.
func Tstamp(name string) timestamp.Timestamp {
	return TstampOf(name, sym.Choose(name+".type", 6))
}

func TstampOf(name string, k int) timestamp.Timestamp {
	var t timestamp.Timestamp
	if err := t.Get(TstampWire(name, k)); err != nil {
		sym.Fail("a timestamp of a known type is read")
	}
	return t
}

// TstampWire is the wire form of a timestamp of type k.
func TstampWire(name string, k int) []byte {
	b := make([]byte, 16)
	b[0] = byte(k)
	if k == 0 {
		copy(b[1:], sym.Bytes(name+".local", 15))
		sym.Assume(b[15] != 0) // shorter texts: C07, C10
		return b
	}
	n := []int{0, 4, 8, 8, 12, 4}[k]
	copy(b[1:], sym.Bytes(name+".t", n))
	return b
}

// SameTstamp: the two carry the same type, seconds and fraction.
func SameTstamp(a, b *timestamp.Timestamp) bool {
	return sym.And(sym.EqBytes(a.Put(), b.Put()), a.Secs() == b.Secs())
}

// Size is a length: 0..dense, or one of more.
func Size(name string, dense int, more ...int) int {
	n := sym.Choose(name, dense+1+len(more))
	if n > dense {
		return more[n-dense-1]
	}
	return n
}

// Be appends the low 8*n bits of v, most significant byte first.
func Be(f []byte, v uint64, n int) []byte {
	for i := n - 1; i >= 0; i-- {
		f = append(f, byte(v>>(8*i)))
	}
	return f
}

// DescSize is the width in bytes of descriptor value 0, 1 or 2.
func DescSize(d int) int { return 2 << d }

// Fits: v fits the descriptor with value d (0: 16 bits, 1: 32, 2: 64; none other is supported).
func Fits(d uint32, v uint64) bool {
	return sym.Or(sym.And(d == 0, v>>16 == 0), sym.And(d == 1, v>>32 == 0), d == 2)
}
