package metadata

import (
	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/timestamp"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_Setup() { vh.Setup() }

func dDesc(h uint16) uint32 { return uint32(h) >> 6 & 3 }
func hCsumlen(h uint32) int { return int(h >> 4 & 15) }

func y2k(name string) timestamp.Timestamp {
	var t timestamp.Timestamp
	w := make([]byte, 16)
	w[0] = 5
	s := sym.U32(name)
	w[1], w[2], w[3], w[4] = byte(s>>24), byte(s>>16), byte(s>>8), byte(s)
	if t.Get(w) != nil {
		sym.Fail("a directory entry's time is read")
	}
	return t
}

func arbitrary(ncsum int, path string) MetaData {
	m := MetaData{Header: sym.U32("header"), Session: sym.U32("session")}
	m.Checksum = sym.Bytes("csum", ncsum)
	m.Dir = dirent.DirEnt{Header: sym.U16("dheader"), Size: sym.U64("size"), Mtime: y2k("mtime"), Ctime: y2k("ctime"), Path: path}
	return m
}

func anyPath() string {
	if sym.Thorough() {
		return sym.String("path", vh.Size("pathlen", 8, 40, 255, 1000))
	}
	return sym.String("path", vh.Size("pathlen", 3, 40, 255, 1000))
}

func hasNul(s string) bool {
	r := false
	for i := 0; i < len(s); i++ {
		r = sym.Or(r, s[i] == 0)
	}
	return r
}

func sameDir(a, b *dirent.DirEnt) bool {
	return sym.And(a.Header == b.Header, a.Size == b.Size, vh.SameTstamp(&a.Mtime, &b.Mtime), vh.SameTstamp(&a.Ctime, &b.Ctime), sym.EqStr(a.Path, b.Path))
}

func same(a, b *MetaData) bool {
	return sym.And(a.Header == b.Header, a.Session == b.Session, sym.EqBytes(a.Checksum, b.Checksum), sameDir(&a.Dir, &b.Dir))
}

func Verif_C03_roundtrip() {
	sym.Bound("every header, session, directory entry header, size and times; checksum of 0, 3, 4, 16, 20 or 60 arbitrary bytes; path of 0..3, 40, 255 or 1000 (thorough: 0..8, 40, 255 or 1000) arbitrary bytes; decoded into a structure holding any other frame")
	m := arbitrary([]int{0, 3, 4, 16, 20, 60}[sym.Choose("csumlen", 6)], anyPath())
	frame, err := m.Encode()
	fits := sym.And(hCsumlen(m.Header)*4 == len(m.Checksum), vh.Fits(dDesc(m.Dir.Header), m.Dir.Size), sym.Not(hasNul(m.Dir.Path)))
	sym.Assert((err == nil) == fits, "a metadata frame is refused exactly when its checksum length is not the one announced or its directory entry cannot be represented")
	if err != nil {
		sym.Cover("refused")
		return
	}
	g := MetaData{Header: sym.U32("oldheader"), Session: sym.U32("oldsession"), Checksum: sym.Bytes("oldcsum", 4),
		Dir: dirent.DirEnt{Header: sym.U16("olddheader"), Size: sym.U64("oldsize"), Mtime: y2k("oldmtime"), Ctime: y2k("oldctime"), Path: sym.String("oldpath", 2)}}
	if g.Decode(frame) != nil {
		sym.Fail("an encoded metadata frame decodes")
		return
	}
	sym.Assert(same(&m, &g), "header, session, checksum and directory entry come back unchanged")
	sym.Cover("round trip")
}

func Verif_C10_metadata() {
	sym.Bound("metadata: every header announcing 0..15 words of checksum, session, checksum, directory entry that fits; path of 0..3, 40, 255 or 1000 (thorough: 0..8, 40, 255 or 1000) bytes without NUL")
	k := sym.Choose("csumlen", 16)
	de := sym.Choose("descriptor", 3)
	m := arbitrary(4*k, anyPath())
	sym.Assume(sym.And(hCsumlen(m.Header) == k, dDesc(m.Dir.Header) == uint32(de), vh.Fits(uint32(de), m.Dir.Size), sym.Not(hasNul(m.Dir.Path))))
	var want []byte
	want = vh.Be(want, uint64(m.Header), 4)
	want = vh.Be(want, uint64(m.Session), 4)
	want = append(want, m.Checksum...)
	want = vh.Be(want, uint64(m.Dir.Header), 2)
	want = vh.Be(want, m.Dir.Size, vh.DescSize(de))
	want = vh.Be(want, m.Dir.Mtime.Secs(), 4)
	want = vh.Be(want, m.Dir.Ctime.Secs(), 4)
	want = append(append(want, m.Dir.Path...), 0)
	frame, err := m.Encode()
	sym.Assert(err == nil, "a metadata frame that fits is encoded")
	sym.Assert(sym.EqBytes(frame, want), "an encoded metadata frame has the protocol's layout")
	var g MetaData
	if g.Decode(want) != nil {
		sym.Fail("a metadata frame of the protocol's layout is decoded")
	}
	sym.Assert(same(&m, &g), "a metadata frame of the protocol's layout is decoded into its values")
	sym.Cover("layout")
}

func Verif_C08_metadata() {
	n := 34
	if sym.Thorough() {
		n = 90
	}
	sym.Bound("metadata: every byte sequence of length 0..33 (thorough: 0..89)")
	var m MetaData
	if m.Decode(sym.Bytes("frame", sym.Choose("len", n))) == nil {
		m.Print()
		m.ShortPrint()
		sym.Cover("decoded")
	}
}

func Verif_C09_metadata() {
	sym.Bound("metadata: any earlier frame (checksum of 0 or 20 bytes, path of 0 or 5); every received sequence of 18..32 bytes, and " + vh.ReceivedBound)
	old := arbitrary(20*sym.Choose("oldcsum", 2), sym.String("oldpath", 5*sym.Choose("oldlen", 2)))
	frame := vh.Received("frame", 18, 15)
	handed := old.Checksum // given away before, as Val does
	was := append([]byte{}, handed...)
	var fresh MetaData
	e1 := fresh.Decode(append([]byte{}, frame...))
	e2 := old.Decode(frame)
	sym.Assert((e1 == nil) == (e2 == nil), "the outcome does not depend on earlier contents")
	if e1 != nil {
		return
	}
	for i := range frame {
		frame[i] = 0xa5
	}
	sym.Assert(sym.EqBytes(handed, was), "decoding leaves the checksum decoded earlier alone")
	sym.Assert(same(&old, &fresh), "the decoded metadata frame depends on the received bytes alone")
	sym.Cover("decoded twice")
}
