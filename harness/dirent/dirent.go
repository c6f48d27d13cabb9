package dirent

import (
	"github.com/charlesetsmith/saratoga/timestamp"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_Setup() { vh.Setup() }

func hDesc(h uint16) uint32 { return uint32(h) >> 6 & 3 }

// y2k is an arbitrary time of a directory entry: seconds since the year 2000
func y2k(name string) timestamp.Timestamp {
	var t timestamp.Timestamp
	w := make([]byte, 16)
	w[0] = 5
	s := sym.U32(name)
	w[1], w[2], w[3], w[4] = byte(s>>24), byte(s>>16), byte(s>>8), byte(s)
	if t.Get(w) != nil {
		sym.Fail("a directory entry's time is read")
	}
	return t
}

func arbitrary(path string) DirEnt {
	return DirEnt{Header: sym.U16("header"), Size: sym.U64("size"), Mtime: y2k("mtime"), Ctime: y2k("ctime"), Path: path}
}

const pathBound = "path of 0..6, 31, 64, 255 or 1000 (thorough: 0..16, 31, 64, 255 or 1000) bytes"

func anyPath() string {
	if sym.Thorough() {
		return sym.String("path", vh.Size("pathlen", 16, 31, 64, 255, 1000))
	}
	return sym.String("path", vh.Size("pathlen", 6, 31, 64, 255, 1000))
}

func hasNul(s string) bool {
	r := false
	for i := 0; i < len(s); i++ {
		r = sym.Or(r, s[i] == 0)
	}
	return r
}

func same(a, b *DirEnt) bool {
	return sym.And(a.Header == b.Header, a.Size == b.Size, vh.SameTstamp(&a.Mtime, &b.Mtime), vh.SameTstamp(&a.Ctime, &b.Ctime), sym.EqStr(a.Path, b.Path))
}

func Verif_C06_roundtrip() {
	sym.Bound("every header, size, modification and creation time; any " + pathBound + "; decoded into a structure holding any other entry")
	d := arbitrary(anyPath())
	frame, err := d.Encode()
	sym.Assert((err == nil) == sym.And(vh.Fits(hDesc(d.Header), d.Size), sym.Not(hasNul(d.Path))), "a directory entry is refused exactly when its size does not fit its descriptor or its path has a NUL")
	if err != nil {
		sym.Cover("refused")
		return
	}
	g := DirEnt{Header: sym.U16("oldheader"), Size: sym.U64("oldsize"), Mtime: y2k("oldmtime"), Ctime: y2k("oldctime"), Path: sym.String("oldpath", 2)}
	if g.Decode(frame) != nil {
		sym.Fail("an encoded directory entry decodes")
		return
	}
	sym.Assert(same(&d, &g), "flags, size, times and path come back unchanged")
	sym.Cover("round trip")
}

func Verif_C06_longpath() {
	sym.Bound("paths of 1023, 1024, 1025 and 1100 bytes with three arbitrary bytes at the start, middle and end; every header and size")
	n := []int{1023, 1024, 1025, 1100}[sym.Choose("pathlen", 4)]
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a'
	}
	b[0], b[n/2], b[n-1] = sym.U8("p0"), sym.U8("p1"), sym.U8("p2")
	sym.Assume(sym.And(b[0] != 0, b[n/2] != 0, b[n-1] != 0))
	d := arbitrary(string(b))
	sym.Assume(vh.Fits(hDesc(d.Header), d.Size))
	frame, err := d.Encode()
	sym.Assert((err == nil) == (n <= 1024), "a path is refused exactly when it is longer than 1024 bytes")
	if err != nil {
		sym.Cover("refused")
		return
	}
	var g DirEnt
	if g.Decode(frame) != nil {
		sym.Fail("an encoded directory entry decodes")
		return
	}
	sym.Assert(same(&d, &g), "flags, size, times and path come back unchanged")
	sym.Cover("round trip")
}

func Verif_C10_dirent() {
	sym.Bound("directory entries: every header with descriptor d16, d32 or d64, size that fits, times; " + pathBound + " without NUL")
	de := sym.Choose("descriptor", 3)
	d := arbitrary(anyPath())
	sym.Assume(sym.And(hDesc(d.Header) == uint32(de), vh.Fits(uint32(de), d.Size), sym.Not(hasNul(d.Path))))
	var want []byte
	want = vh.Be(want, uint64(d.Header), 2)
	want = vh.Be(want, d.Size, vh.DescSize(de))
	want = vh.Be(want, d.Mtime.Secs(), 4)
	want = vh.Be(want, d.Ctime.Secs(), 4)
	want = append(append(want, d.Path...), 0)
	frame, err := d.Encode()
	sym.Assert(err == nil, "a directory entry that fits is encoded")
	sym.Assert(sym.EqBytes(frame, want), "an encoded directory entry has the protocol's layout")
	var g DirEnt
	if g.Decode(want) != nil {
		sym.Fail("a directory entry of the protocol's layout is decoded")
	}
	sym.Assert(same(&d, &g), "a directory entry of the protocol's layout is decoded into its values")
	sym.Cover("layout")
}

func Verif_C08_dirent() {
	n := 26
	if sym.Thorough() {
		n = 40
	}
	sym.Bound("directory entries: every byte sequence of length 0..25 (thorough: 0..39)")
	var d DirEnt
	if d.Decode(sym.Bytes("frame", sym.Choose("len", n))) == nil {
		d.Print()
		d.ShortPrint()
		sym.Cover("decoded")
	}
}

func Verif_C09_dirent() {
	sym.Bound("directory entries: any earlier entry (path of 0 or 5 bytes); every received sequence of 10..22 bytes, and " + vh.ReceivedBound)
	old := arbitrary(sym.String("oldpath", 5*sym.Choose("oldlen", 2)))
	frame := vh.Received("frame", 10, 13)
	var fresh DirEnt
	e1 := fresh.Decode(append([]byte{}, frame...))
	e2 := old.Decode(frame)
	sym.Assert((e1 == nil) == (e2 == nil), "the outcome does not depend on earlier contents")
	if e1 != nil {
		return
	}
	for i := range frame {
		frame[i] = 0xa5
	}
	sym.Assert(same(&old, &fresh), "the decoded directory entry depends on the received bytes alone")
	sym.Cover("decoded twice")
}
