package status

import (
	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_Setup() { vh.Setup() }

func hDesc(h uint32) uint32   { return h >> 22 & 3 }
func hTstamp(h uint32) uint32 { return h >> 19 & 1 }

const holeBound = "0..4, 17 or 88 (thorough: 0..8, 17, 88 or 400) holes with arbitrary bounds"

func nholes() int {
	if sym.Thorough() {
		return vh.Size("holes", 8, 17, 88, 400)
	}
	return vh.Size("holes", 4, 17, 88)
}

func arbHoles(name string, n int) holes.Holes {
	var hs holes.Holes
	for i := 0; i < n; i++ {
		hs = append(hs, holes.Hole{Start: sym.Int(name + ".start"), End: sym.Int(name + ".end")})
	}
	return hs
}

func arbitrary(name string, n int) Status {
	var s Status
	s.Header = sym.U32(name + "header")
	s.Session = sym.U32(name + "session")
	s.Progress = sym.U64(name + "progress")
	s.Inrespto = sym.U64(name + "inrespto")
	s.Holes = arbHoles(name+"hole", n)
	if hTstamp(s.Header) == 1 {
		s.Tstamp = vh.Tstamp(name + "ts")
	}
	return s
}

func sameHoles(a, b holes.Holes) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i].Start == b[i].Start, a[i].End == b[i].End)
	}
	return r
}

func same(a, b *Status) bool {
	return sym.And(a.Header == b.Header, a.Session == b.Session, a.Progress == b.Progress, a.Inrespto == b.Inrespto, sameHoles(a.Holes, b.Holes))
}

func fits(s *Status) bool {
	d := hDesc(s.Header)
	r := sym.And(vh.Fits(d, s.Progress), vh.Fits(d, s.Inrespto))
	for _, h := range s.Holes {
		r = sym.And(r, h.Start >= 0, h.End >= 0, vh.Fits(d, uint64(h.Start)), vh.Fits(d, uint64(h.End)))
	}
	return r
}

func Verif_C02_roundtrip() {
	sym.Bound("every header, session, progress, in-response-to and timestamp; " + holeBound + "; decoded into a structure holding any other frame")
	s := arbitrary("", nholes())
	frame, err := s.Encode()
	sym.Assert((err == nil) == fits(&s), "a status frame is refused exactly when one of its values does not fit its descriptor")
	if err != nil {
		sym.Cover("refused")
		return
	}
	g := Status{Header: sym.U32("oldheader"), Session: sym.U32("oldsession"), Progress: sym.U64("oldprogress"), Inrespto: sym.U64("oldinrespto"), Holes: arbHoles("oldhole", 2), Tstamp: vh.TstampOf("oldts", 4)}
	if g.Decode(frame) != nil {
		sym.Fail("an encoded status frame decodes")
		return
	}
	sym.Assert(same(&s, &g), "header, session, progress, in-response-to and holes come back unchanged")
	if hTstamp(s.Header) == 1 {
		sym.Assert(vh.SameTstamp(&s.Tstamp, &g.Tstamp), "the timestamp comes back unchanged")
		sym.Cover("with a timestamp")
	}
	sym.Cover("round trip")
}

func Verif_C10_status() {
	sym.Bound("status: every header with descriptor d16, d32 or d64, values that fit, timestamp; " + holeBound)
	de := sym.Choose("descriptor", 3)
	var s Status
	s.Header = sym.U32("header")
	sym.Assume(hDesc(s.Header) == uint32(de))
	s.Session = sym.U32("session")
	s.Progress = sym.U64("progress")
	s.Inrespto = sym.U64("inrespto")
	s.Holes = arbHoles("hole", nholes())
	sym.Assume(fits(&s))
	var want, ts []byte
	want = vh.Be(want, uint64(s.Header), 4)
	want = vh.Be(want, uint64(s.Session), 4)
	if hTstamp(s.Header) == 1 {
		ts = vh.TstampWire("ts", sym.Choose("tstype", 6))
		if s.Tstamp.Get(ts) != nil {
			sym.Fail("a timestamp of a known type is read")
		}
		want = append(want, ts...)
	}
	n := vh.DescSize(de)
	want = vh.Be(want, s.Progress, n)
	want = vh.Be(want, s.Inrespto, n)
	for _, h := range s.Holes {
		want = vh.Be(want, uint64(h.Start), n)
		want = vh.Be(want, uint64(h.End), n)
	}
	frame, err := s.Encode()
	sym.Assert(err == nil, "a status frame that fits is encoded")
	sym.Assert(sym.EqBytes(frame, want), "an encoded status frame has the protocol's layout")
	var g Status
	if g.Decode(want) != nil {
		sym.Fail("a status frame of the protocol's layout is decoded")
	}
	sym.Assert(same(&s, &g), "a status frame of the protocol's layout is decoded into its values")
	if ts != nil {
		sym.Assert(sym.EqBytes(g.Tstamp.Put(), ts), "the timestamp is decoded")
	}
	sym.Cover("layout")
}

func Verif_C08_status() {
	n := 48
	if sym.Thorough() {
		n = 100
	}
	sym.Bound("status: every byte sequence of length 0..47 (thorough: 0..99)")
	var s Status
	if err := s.Decode(sym.Bytes("frame", sym.Choose("len", n))); err == nil {
		s.Print()
		s.ShortPrint()
		sym.Cover("decoded")
	}
}

func Verif_C09_status() {
	sym.Bound("status: any earlier frame in the structure (0 or 2 holes); every received sequence of 12..44 bytes, and " + vh.ReceivedBound)
	old := arbitrary("old", 2*sym.Choose("oldholes", 2))
	frame := vh.Received("frame", 12, 33)
	handed := old.Holes // given away before, as Val does
	was := append(holes.Holes{}, handed...)
	var fresh Status
	e1 := fresh.Decode(append([]byte{}, frame...))
	e2 := old.Decode(frame)
	sym.Assert((e1 == nil) == (e2 == nil), "the outcome does not depend on earlier contents")
	if e1 != nil {
		return
	}
	for i := range frame {
		frame[i] = 0xa5
	}
	sym.Assert(sameHoles(handed, was), "decoding leaves the holes decoded earlier alone")
	sym.Assert(same(&old, &fresh), "the decoded status frame depends on the received bytes alone")
	sym.Assert(vh.SameTstamp(&old.Tstamp, &fresh.Tstamp), "the decoded timestamp depends on the received bytes alone")
	sym.Cover("decoded twice")
}
