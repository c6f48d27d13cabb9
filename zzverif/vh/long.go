package vh

import "github.com/charlesetsmith/saratoga/zzverif/sym"

// LongBound says what Long gives.
const LongBound = "every sequence of 200, 1100, 1499, 1500 or 9000 bytes of which the first 44 and the last 3 are arbitrary and the others all 0, all letters or all 255"

// Long is a long sequence of bytes, arbitrary at its start and end.
func Long(name string) []byte {
	b := make([]byte, []int{200, 1100, 1499, 1500, 9000}[sym.Choose(name+".len", 5)])
	fill := []byte{0, 'p', 255}[sym.Choose(name+".fill", 3)]
	for i := range b {
		b[i] = fill
	}
	copy(b, sym.Bytes(name, 44))
	copy(b[len(b)-3:], sym.Bytes(name+".end", 3))
	return b
}

// ReceivedBound says what Received gives besides.
const ReceivedBound = "every sequence of 1400 bytes of which the first 36 and the last 3 are arbitrary and the others letters"

// Received is a sequence of lo to lo+n-1 arbitrary bytes, or a long one.
func Received(name string, lo, n int) []byte {
	k := sym.Choose("len", n+1)
	if k < n {
		return sym.Bytes(name, lo+k)
	}
	b := make([]byte, 1400)
	for i := range b {
		b[i] = 'p'
	}
	copy(b, sym.Bytes(name, 36))
	copy(b[len(b)-3:], sym.Bytes(name+".end", 3))
	return b
}
