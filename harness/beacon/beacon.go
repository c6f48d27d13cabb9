package beacon

import (
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_Setup() { vh.Setup() }

func hFree(h uint32) uint32  { return h >> 14 & 1 }
func hFreed(h uint32) uint32 { return h >> 12 & 3 }

const eidBound = "identifier of 0..8, 31, 64, 255 or 1400 (thorough: 0..32, 64, 255, 1400 or 9000) arbitrary bytes"

func eidlen() int {
	if sym.Thorough() {
		return vh.Size("eidlen", 32, 64, 255, 1400, 9000)
	}
	return vh.Size("eidlen", 8, 31, 64, 255, 1400)
}

func arbitrary(name string, n int) Beacon {
	var b Beacon
	b.Header = sym.U32(name + "header")
	b.Freespace = sym.U64(name + "freespace")
	b.Eid = sym.String(name+"eid", n)
	return b
}

func Verif_C05_roundtrip() {
	sym.Bound("every header and free space; " + eidBound + "; decoded into a structure holding any other frame")
	b := arbitrary("", eidlen())
	frame, err := b.Encode()
	adv := hFree(b.Header) == 1
	sym.Assert((err == nil) == sym.Or(sym.Not(adv), vh.Fits(hFreed(b.Header), b.Freespace)),
		"a beacon is refused exactly when the free space it advertises does not fit")
	if err != nil {
		sym.Cover("refused")
		return
	}
	g := arbitrary("old", 3)
	if g.Decode(frame) != nil {
		sym.Fail("an encoded beacon decodes")
		return
	}
	sym.Assert(sym.And(g.Header == b.Header, sym.EqStr(g.Eid, b.Eid)), "header and identifier come back unchanged")
	sym.Assert(g.Freespace == sym.IfU64(adv, b.Freespace, 0), "the free space comes back unchanged, zero when none is advertised")
	sym.Cover("round trip")
}

func Verif_C10_beacon() {
	sym.Bound("beacon: every header with a supported free-space descriptor, free space that fits; " + eidBound)
	de := sym.Choose("freespaced", 3)
	b := arbitrary("", eidlen())
	sym.Assume(sym.And(hFreed(b.Header) == uint32(de), vh.Fits(uint32(de), b.Freespace)))
	var want []byte
	want = vh.Be(want, uint64(b.Header), 4)
	free := uint64(0)
	if hFree(b.Header) == 1 {
		want = vh.Be(want, b.Freespace, vh.DescSize(de))
		free = b.Freespace
	}
	want = append(want, []byte(b.Eid)...)
	frame, err := b.Encode()
	sym.Assert(err == nil, "a beacon that fits is encoded")
	sym.Assert(sym.EqBytes(frame, want), "an encoded beacon has the protocol's layout")
	var g Beacon
	if g.Decode(want) != nil {
		sym.Fail("a beacon of the protocol's layout is decoded")
	}
	sym.Assert(sym.And(g.Header == b.Header, g.Freespace == free, sym.EqStr(g.Eid, b.Eid)), "a beacon of the protocol's layout is decoded into its values")
	sym.Cover("layout")
}

func Verif_C08_beacon() {
	n := 20
	if sym.Thorough() {
		n = 48
	}
	sym.Bound("beacon: every byte sequence of length 0..19 (thorough: 0..47)")
	var b Beacon
	if err := b.Decode(sym.Bytes("frame", sym.Choose("len", n))); err == nil {
		b.Print()
		b.ShortPrint()
		sym.Cover("decoded")
	}
}

func Verif_C09_beacon() {
	sym.Bound("beacon: any earlier frame in the structure; every received sequence of 4..18 bytes, and " + vh.ReceivedBound)
	old := arbitrary("old", 3)
	frame := vh.Received("frame", 4, 15)
	var fresh Beacon
	e1 := fresh.Decode(append([]byte{}, frame...))
	e2 := old.Decode(frame)
	sym.Assert((e1 == nil) == (e2 == nil), "the outcome does not depend on earlier contents")
	if e1 != nil {
		return
	}
	for i := range frame {
		frame[i] = 0xa5
	}
	sym.Assert(sym.And(old.Header == fresh.Header, old.Freespace == fresh.Freespace, sym.EqStr(old.Eid, fresh.Eid)),
		"the decoded beacon depends on the received bytes alone")
	sym.Cover("decoded twice")
}
