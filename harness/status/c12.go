package status

import (
	"strconv"

	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

const h0 = 0x24000000 // version 1, status

func c12info(more ...int) (*Sinfo, holes.Holes) {
	i := &Sinfo{Session: sym.U32("session"), Progress: sym.U64("progress"), Inrespto: sym.U64("inrespto")}
	n := vh.Size("holes", 2, more...)
	var c holes.Holes
	for k := 0; k < n; k++ {
		h := holes.Hole{Start: sym.Int("start" + strconv.Itoa(k)), End: sym.Int("end" + strconv.Itoa(k))}
		i.Holes = append(i.Holes, h)
		c = append(c, h)
	}
	return i, c
}

func c12check(s *Status, info *Sinfo, h holes.Holes, header uint32) {
	sym.Assert(s.Header == header, "the header has version 1, the status type and the flags given, nothing else")
	sym.Assert(sym.And(s.Session == info.Session, s.Progress == info.Progress, s.Inrespto == info.Inrespto), "session, progress and in-response-to are those supplied")
	for i := range info.Holes {
		info.Holes[i].Start++
		info.Holes[i].End++
	}
	sym.Assert(len(s.Holes) == len(h), "the holes are those supplied")
	for i := range h {
		sym.Assert(sym.And(s.Holes[i].Start == h[i].Start, s.Holes[i].End == h[i].End), "the holes are a copy of those supplied, in order")
	}
}

func Verif_C12_status_new() {
	sym.Bound("status: flag strings of one or two items, each any flag with any option, an unknown option or flag of 0..4 arbitrary bytes, no option or two, or a flag of another frame; any session, progress, in-response-to and 0..2 holes; any earlier frame's holes in the structure")
	text, ok, set := vh.AnyFlags([]string{"descriptor", "reqtstamp", "metadatarecvd", "allholes", "reqholes", "errcode"})
	info, h := c12info()
	var s Status
	s.Holes = holes.Holes{{Start: 1, End: 2}}
	err := s.New(text, info)
	sym.Assert((err == nil) == ok, "a flag string is refused exactly when it is malformed")
	if err == nil {
		c12check(&s, info, h, set(h0))
		sym.Cover("built")
	} else {
		sym.Cover("refused")
	}
}

func Verif_C12_status_make() {
	sym.Bound("status: every header; any session, progress, in-response-to and 0..2, 86 or 200 holes; any earlier frame in the structure")
	hd := sym.U32("header")
	info, h := c12info(86, 200)
	var s Status
	if sym.Choose("reused", 2) == 1 {
		s = Status{Header: sym.U32("oldheader"), Session: 7, Progress: 3, Inrespto: 4, Holes: holes.Holes{{Start: 1, End: 2}}}
	}
	sym.Assert(s.Make(hd, info) == nil, "a status is made from any header")
	c12check(&s, info, h, hd&0xffffff|h0)
	sym.Cover("made")
}

func Verif_C12_status_tstamp() {
	sym.Bound("status: each timestamp type as a bare flag, before or after any descriptor, with or without spaces around the flags; the clock anywhere in 2000..2100")
	types := []string{"localinterp", "posix32", "posix64", "posix32_32", "posix64_32"}
	k := sym.Choose("type", len(types))
	de := vh.FieldNamed("descriptor").Opts[sym.Choose("descriptor", 4)].Name
	text := []string{types[k] + ",descriptor=" + de, "descriptor=" + de + "," + types[k], " descriptor = " + de + " , " + types[k] + " "}[sym.Choose("order", 3)]
	info, h := c12info()
	var s Status
	sym.Assert(s.New(text, info) == nil, "a timestamp type is accepted")
	c12check(&s, info, h, vh.HSet(vh.HSet(h0, "descriptor", de), "reqtstamp", "yes"))
	sym.Assert(s.Tstamp.Put()[0] == byte(k), "the timestamp is of the type given")
	sym.Cover("with a timestamp")
}
