package request

import (
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_Setup() { vh.Setup() }

const reqBound = "file name of 0..5, 64, 255 or 1024 (thorough: 0..9, 64, 255, 1024 or 4096) bytes, authentication of 0..3, 64 or 300 (thorough: 0..7, 64 or 300) arbitrary bytes"

func namelen() int {
	if sym.Thorough() {
		return vh.Size("namelen", 9, 64, 255, 1024, 4096)
	}
	return vh.Size("namelen", 5, 64, 255, 1024)
}

func authlen() int {
	if sym.Thorough() {
		return vh.Size("authlen", 7, 64, 300)
	}
	return vh.Size("authlen", 3, 64, 300)
}

func hasNul(b []byte) bool {
	r := false
	for _, c := range b {
		r = sym.Or(r, c == 0)
	}
	return r
}

func Verif_C04_roundtrip() {
	sym.Bound("every header and session; " + reqBound + "; decoded into a structure holding any other frame")
	var r Request
	r.Header = sym.U32("header")
	r.Session = sym.U32("session")
	name := sym.Bytes("fname", namelen())
	r.Fname = string(name)
	r.Auth = sym.Bytes("auth", authlen())
	frame, err := r.Encode()
	sym.Assert((err == nil) == sym.Not(hasNul(name)), "a request is refused exactly when its file name holds a NUL")
	if err != nil {
		sym.Cover("refused")
		return
	}
	g := Request{Header: sym.U32("oldheader"), Session: sym.U32("oldsession"), Fname: sym.String("oldname", 2), Auth: sym.Bytes("oldauth", 3)}
	if g.Decode(frame) != nil {
		sym.Fail("an encoded request decodes")
		return
	}
	sym.Assert(sym.And(g.Header == r.Header, g.Session == r.Session), "header and session come back unchanged")
	sym.Assert(sym.EqStr(g.Fname, r.Fname), "the file name comes back unchanged")
	sym.Assert(sym.EqBytes(g.Auth, r.Auth), "the authentication comes back unchanged")
	sym.Cover("round trip")
}

func Verif_C10_request() {
	sym.Bound("request: every header and session; " + reqBound + ", no NUL in the name")
	var r Request
	r.Header = sym.U32("header")
	r.Session = sym.U32("session")
	name := sym.Bytes("fname", namelen())
	sym.Assume(sym.Not(hasNul(name)))
	r.Fname = string(name)
	r.Auth = sym.Bytes("auth", authlen())
	var want []byte
	want = vh.Be(want, uint64(r.Header), 4)
	want = vh.Be(want, uint64(r.Session), 4)
	want = append(want, name...)
	want = append(want, 0)
	want = append(want, r.Auth...)
	frame, err := r.Encode()
	sym.Assert(err == nil, "a request is encoded")
	sym.Assert(sym.EqBytes(frame, want), "an encoded request has the protocol's layout")
	var g Request
	if g.Decode(want) != nil {
		sym.Fail("a request of the protocol's layout is decoded")
	}
	sym.Assert(sym.And(g.Header == r.Header, g.Session == r.Session, sym.EqStr(g.Fname, r.Fname), sym.EqBytes(g.Auth, r.Auth)),
		"a request of the protocol's layout is decoded into its values")
	sym.Cover("layout")
}

func Verif_C08_request() {
	n := 20
	if sym.Thorough() {
		n = 40
	}
	sym.Bound("request: every byte sequence of length 0..19 (thorough: 0..39)")
	var r Request
	if err := r.Decode(sym.Bytes("frame", sym.Choose("len", n))); err == nil {
		r.Print()
		r.ShortPrint()
		sym.Cover("decoded")
	}
}

func Verif_C09_request() {
	sym.Bound("request: any earlier frame in the structure; every received sequence of 9..16 bytes, and " + vh.ReceivedBound)
	var old Request
	old.Header = sym.U32("oldheader")
	old.Session = sym.U32("oldsession")
	old.Fname = sym.String("oldname", 2)
	if sym.Choose("oldauth", 2) == 1 {
		old.Auth = sym.Bytes("oldauth", 4)
	}
	frame := vh.Received("frame", 9, 8)
	handed := old.Auth // given away before, as Val does
	was := append([]byte{}, handed...)
	var fresh Request
	e1 := fresh.Decode(append([]byte{}, frame...))
	e2 := old.Decode(frame)
	sym.Assert((e1 == nil) == (e2 == nil), "the outcome does not depend on earlier contents")
	if e1 != nil {
		return
	}
	for i := range frame {
		frame[i] = 0xa5
	}
	sym.Assert(sym.EqBytes(handed, was), "decoding leaves the authentication decoded earlier alone")
	sym.Assert(sym.And(old.Header == fresh.Header, old.Session == fresh.Session, sym.EqStr(old.Fname, fresh.Fname), sym.EqBytes(old.Auth, fresh.Auth)),
		"the decoded request depends on the received bytes alone")
	sym.Cover("decoded twice")
}
