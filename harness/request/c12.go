package request

import (
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

const h0 = 0x21000000 // version 1, request

func c12info(more ...int) (*Rinfo, []byte) {
	a := sym.Bytes("auth", vh.Size("authlen", 2, more...))
	return &Rinfo{Session: sym.U32("session"), Fname: sym.String("fname", []int{0, 2, 255, 1024}[sym.Choose("namelen", 2+len(more))]), Auth: a}, append([]byte{}, a...)
}

func c12check(r *Request, info *Rinfo, auth []byte, header uint32) {
	sym.Assert(r.Header == header, "the header has version 1, the request type and the flags given, nothing else")
	sym.Assert(sym.And(r.Session == info.Session, sym.EqStr(r.Fname, info.Fname)), "session and file name are those supplied")
	for i := range info.Auth {
		info.Auth[i]++
	}
	sym.Assert(sym.EqBytes(r.Auth, auth), "the authentication is a copy of the one supplied")
}

func Verif_C12_request_new() {
	sym.Bound("request: flag strings of one or two items, each any flag with any option, an unknown option or flag of 0..4 arbitrary bytes, no option or two, or a flag of another frame; any session, file name of 0 or 2 bytes, authentication of 0..2 bytes")
	text, ok, set := vh.AnyFlags([]string{"descriptor", "stream", "txwilling", "rxwilling", "reqtype", "udplite"})
	info, auth := c12info()
	var r Request
	err := r.New(text, info)
	sym.Assert((err == nil) == ok, "a flag string is refused exactly when it is malformed")
	if err == nil {
		c12check(&r, info, auth, set(h0))
		sym.Cover("built")
	} else {
		sym.Cover("refused")
	}
}

func Verif_C12_request_make() {
	sym.Bound("request: every header; any session, file name of 0, 2, 255 or 1024 bytes, authentication of 0..2, 64 or 1100 bytes; any earlier frame in the structure")
	h := sym.U32("header")
	info, auth := c12info(64, 1100)
	var r Request
	if sym.Choose("reused", 2) == 1 {
		r = Request{Header: sym.U32("oldheader"), Session: 7, Fname: "old", Auth: []byte{1, 2, 3}}
	}
	sym.Assert(r.Make(h, info) == nil, "a request is made from any header")
	c12check(&r, info, auth, h&0xffffff|h0)
	sym.Cover("made")
}
