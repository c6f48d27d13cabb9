package data

import (
	"strings"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

const h0 = 0x23000000 // version 1, data

func c12info(more ...int) (*Dinfo, []byte) {
	p := sym.Bytes("payload", vh.Size("paylen", 3, more...))
	return &Dinfo{Session: sym.U32("session"), Offset: sym.U64("offset"), Payload: p}, append([]byte{}, p...)
}

func c12check(d *Data, info *Dinfo, payload []byte, header uint32) {
	sym.Assert(d.Header == header, "the header has version 1, the data type and the flags given, nothing else")
	sym.Assert(sym.And(d.Session == info.Session, d.Offset == info.Offset), "session and offset are those supplied")
	for i := range info.Payload {
		info.Payload[i]++
	}
	sym.Assert(sym.EqBytes(d.Payload, payload), "the payload is a copy of the one supplied")
}

func Verif_C12_data_new() {
	sym.Bound("data: flag strings of one or two items, each any flag with any option, an unknown option or flag of 0..4 arbitrary bytes, no option or two, or a flag of another frame; any session and offset, payload of 0..3 bytes")
	text, ok, set := vh.AnyFlags([]string{"descriptor", "reqstatus", "eod", "transfer"}, "reqtstamp")
	info, payload := c12info()
	var d Data
	err := d.New(text, info)
	if ok && strings.Contains(text, "bundle") { // bundles are not supported
		return
	}
	sym.Assert((err == nil) == ok, "a flag string is refused exactly when it is malformed")
	if err == nil {
		c12check(&d, info, payload, set(h0))
		sym.Cover("built")
	} else {
		sym.Cover("refused")
	}
}

func Verif_C12_data_tstamp() {
	sym.Bound("data: a timestamp of each type, none, or an arbitrary type name of 0..4 bytes, next to any descriptor; the clock anywhere in 2000..2100")
	types := []string{"localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32"}
	de := vh.FieldNamed("descriptor").Opts[sym.Choose("descriptor", 4)].Name
	info, payload := c12info()
	var d Data
	k := sym.Choose("type", len(types)+3)
	flags := "descriptor=" + de
	want := vh.HSet(h0, "descriptor", de)
	switch {
	case k < len(types):
		sym.Assert(d.New(flags+",reqtstamp="+types[k], info) == nil, "a timestamp type is accepted")
		want = vh.HSet(want, "reqtstamp", "yes")
		sym.Assert(d.Tstamp.Put()[0] == byte(k), "the timestamp is of the type given")
		sym.Cover("with a timestamp")
	case k == len(types):
		sym.Assert(d.New("reqtstamp=no,"+flags, info) == nil, "no timestamp is accepted")
	case k == len(types)+1:
		sym.Assert(d.New("reqtstamp=yes,"+flags, info) == nil, "a timestamp is accepted")
		want = vh.HSet(want, "reqtstamp", "yes")
	default:
		o := vh.Token("name", sym.Choose("len", 5))
		sym.Assume(sym.Not(sym.Or(sym.EqStr(o, "no"), sym.EqStr(o, "yes"))))
		sym.Assert(d.New(flags+",reqtstamp="+o, info) != nil, "an unknown timestamp type is refused")
		sym.Cover("refused")
		return
	}
	c12check(&d, info, payload, want)
}

func Verif_C12_data_make() {
	sym.Bound("data: every header; any session and offset, payload of 0..3, 1025, 1400 or 9000 bytes; any earlier frame in the structure")
	h := sym.U32("header")
	info, payload := c12info(1025, 1400, 9000)
	var d Data
	if sym.Choose("reused", 2) == 1 {
		d = Data{Header: sym.U32("oldheader"), Session: 7, Offset: 9, Payload: []byte{1, 2, 3, 4, 5}}
	}
	err := d.Make(h, info)
	sym.Assert(err == nil, "a data frame is made from any header")
	c12check(&d, info, payload, h&0xffffff|h0)
	sym.Cover("made")
}
