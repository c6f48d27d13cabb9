package data

import (
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_Setup() { vh.Setup() }

// positions of the header fields, from the protocol
func hDesc(h uint32) uint32   { return h >> 22 & 3 }
func hTstamp(h uint32) uint32 { return h >> 19 & 1 }

const payBound = "payload of 0..5, 16, 255, 1024, 1453 or 9000 (thorough: 0..32 and 65000 too) arbitrary bytes"

func paylen() int {
	if sym.Thorough() {
		return vh.Size("paylen", 32, 255, 1024, 1453, 9000, 65000)
	}
	return vh.Size("paylen", 5, 16, 255, 1024, 1453, 9000)
}

func arbitrary(n int) Data {
	var d Data
	d.Header = sym.U32("header")
	d.Session = sym.U32("session")
	d.Offset = sym.U64("offset")
	d.Payload = sym.Bytes("payload", n)
	if hTstamp(d.Header) == 1 {
		d.Tstamp = vh.Tstamp("ts")
	}
	return d
}

func same(a, b *Data) bool {
	return sym.And(a.Header == b.Header, a.Session == b.Session, a.Offset == b.Offset, sym.EqBytes(a.Payload, b.Payload))
}

func Verif_C01_roundtrip() {
	sym.Bound("every header, session, offset and timestamp; " + payBound + "; decoded into a structure holding any other frame")
	d := arbitrary(paylen())
	frame, err := d.Encode()
	sym.Assert((err == nil) == vh.Fits(hDesc(d.Header), d.Offset), "a data frame is refused exactly when its offset does not fit its descriptor")
	if err != nil {
		sym.Cover("refused")
		return
	}
	g := Data{Header: sym.U32("oldheader"), Session: sym.U32("oldsession"), Offset: sym.U64("oldoffset"), Payload: sym.Bytes("oldpayload", 3), Tstamp: vh.TstampOf("oldts", 4)}
	if g.Decode(frame) != nil {
		sym.Fail("an encoded data frame decodes")
		return
	}
	sym.Assert(same(&d, &g), "header, session, offset and payload come back unchanged")
	if hTstamp(d.Header) == 1 {
		sym.Assert(vh.SameTstamp(&d.Tstamp, &g.Tstamp), "the timestamp comes back unchanged")
		sym.Cover("with a timestamp")
	}
	sym.Cover("round trip")
}

// layout is the data frame the protocol defines, for descriptor de.
func layout(d *Data, ts []byte, de int) []byte {
	var f []byte
	f = vh.Be(f, uint64(d.Header), 4)
	f = vh.Be(f, uint64(d.Session), 4)
	f = append(f, ts...)
	f = vh.Be(f, d.Offset, vh.DescSize(de))
	return append(f, d.Payload...)
}

func Verif_C10_data() {
	sym.Bound("data: every header with descriptor d16, d32 or d64, session, offset that fits, timestamp; " + payBound)
	de := sym.Choose("descriptor", 3)
	var d Data
	d.Header = sym.U32("header")
	sym.Assume(hDesc(d.Header) == uint32(de))
	d.Session = sym.U32("session")
	d.Offset = sym.U64("offset")
	sym.Assume(vh.Fits(uint32(de), d.Offset))
	d.Payload = sym.Bytes("payload", paylen())
	var ts []byte
	if hTstamp(d.Header) == 1 {
		k := sym.Choose("tstype", 6)
		ts = vh.TstampWire("ts", k)
		if d.Tstamp.Get(ts) != nil {
			sym.Fail("a timestamp of a known type is read")
		}
	}
	want := layout(&d, ts, de)
	frame, err := d.Encode()
	sym.Assert(err == nil, "a data frame that fits is encoded")
	sym.Assert(sym.EqBytes(frame, want), "an encoded data frame has the protocol's layout")
	var g Data
	if g.Decode(want) != nil {
		sym.Fail("a data frame of the protocol's layout is decoded")
	}
	sym.Assert(same(&d, &g), "a data frame of the protocol's layout is decoded into its values")
	if ts != nil {
		sym.Assert(sym.EqBytes(g.Tstamp.Put(), ts), "the timestamp is decoded")
	}
	sym.Cover("layout")
}

func Verif_C08_data() {
	n := 40
	if sym.Thorough() {
		n = 72
	}
	sym.Bound("data: every byte sequence of length 0..39 (thorough: 0..71)")
	var d Data
	if err := d.Decode(sym.Bytes("frame", sym.Choose("len", n))); err == nil {
		d.Print()
		d.ShortPrint()
		sym.Cover("decoded")
	}
}

func Verif_C09_data() {
	sym.Bound("data: any earlier frame in the structure (payload of 0 or 5 bytes); every received sequence of 10..20 or 26..36 bytes, and " + vh.ReceivedBound)
	old := arbitrary(5 * sym.Choose("oldlen", 2))
	if sym.Choose("oldts", 2) == 1 {
		old.Tstamp = vh.TstampOf("oldts", 4)
	}
	n := 10 + sym.Choose("len", 23)
	if n > 20 {
		n += 5
	}
	var frame []byte
	if n > 36 {
		frame = vh.Received("frame", 0, 0)
	} else {
		frame = sym.Bytes("frame", n)
	}
	handed := old.Payload // given away before, as Val does
	was := append([]byte{}, handed...)
	var fresh Data
	e1 := fresh.Decode(append([]byte{}, frame...))
	e2 := old.Decode(frame)
	sym.Assert((e1 == nil) == (e2 == nil), "the outcome does not depend on earlier contents")
	if e1 != nil {
		return
	}
	for i := range frame {
		frame[i] = 0xa5
	}
	sym.Assert(sym.EqBytes(handed, was), "decoding leaves the payload decoded earlier alone")
	sym.Assert(same(&old, &fresh), "the decoded data frame depends on the received bytes alone")
	sym.Assert(vh.SameTstamp(&old.Tstamp, &fresh.Tstamp), "the decoded timestamp depends on the received bytes alone")
	sym.Cover("decoded twice")
}
