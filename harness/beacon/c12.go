package beacon

import (
	"os"
	"syscall"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

const h0 = 0x20000000     // version 1, beacon
const fsmask = 0x00007000 // freespace and its descriptor: C26

func c12info(more ...int) *Binfo {
	return &Binfo{Freespace: sym.U64("freespace"), Eid: sym.String("eid", append([]int{0, 2}, more...)[sym.Choose("eidlen", 2+len(more))])}
}

func Verif_C12_beacon_new() {
	sym.Bound("beacon: flag strings of one or two items, each any flag with any option, an unknown option or flag of 0..4 arbitrary bytes, no option or two, or a flag of another frame; any free space, identifier of 0 or 2 bytes")
	text, ok, set := vh.AnyFlags([]string{"descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace"})
	info := c12info()
	var b Beacon
	err := b.New(text, info)
	sym.Assert((err == nil) == ok, "a flag string is refused exactly when it is malformed")
	if err == nil {
		sym.Assert(b.Header&^0x3000 == set(h0), "the header has version 1, the beacon type and the flags given, nothing else")
		sym.Assert(sym.EqStr(b.Eid, info.Eid), "the identifier is the one supplied")
		sym.Cover("built")
	} else {
		sym.Cover("refused")
	}
}

func Verif_C12_beacon_freespaced() {
	sym.Bound("beacon: a free-space descriptor of each option, or an arbitrary one of 0..4 bytes, before or after any other flag; any free space")
	types := []string{"d16", "d32", "d64"}
	f := vh.FieldNamed([]string{"descriptor", "stream", "txwilling", "rxwilling", "udplite"}[sym.Choose("flag", 5)])
	o := f.Opts[sym.Choose("opt", len(f.Opts))].Name
	info := c12info()
	var b Beacon
	k := sym.Choose("freespaced", 5)
	var d string
	if k < 3 {
		d = types[k]
	} else if k == 3 {
		d = "d128"
	} else {
		d = vh.Token("name", sym.Choose("len", 5))
		sym.Assume(sym.Not(sym.Or(sym.EqStr(d, "d16"), sym.EqStr(d, "d32"), sym.EqStr(d, "d64"))))
	}
	text := "freespaced=" + d + "," + f.Name + "=" + o
	if sym.Choose("order", 2) == 1 {
		text = f.Name + "=" + o + ",freespaced=" + d
	}
	err := b.New(text, info)
	sym.Assert((err == nil) == (k < 3), "a free-space descriptor is refused exactly when it is not supported")
	if err != nil {
		sym.Cover("refused")
		return
	}
	sym.Assert(b.Header&^0x3000 == vh.HSet(h0, f.Name, o)|0x4000, "naming a free-space descriptor asks for free space, and changes nothing else")
	sym.Assert(sym.EqStr(b.Eid, info.Eid), "the identifier is the one supplied")
	sym.Cover("built")
}

func Verif_C12_beacon_make() {
	sym.Bound("beacon: every header; any free space, identifier of 0, 2, 255, 256 or 1400 bytes; any earlier frame in the structure")
	h := sym.U32("header")
	info := c12info(255, 256, 1400)
	var b Beacon
	if sym.Choose("reused", 2) == 1 {
		b = Beacon{Header: sym.U32("oldheader"), Freespace: 7, Eid: "old"}
	}
	sym.Assert(b.Make(h, info) == nil, "a beacon is made from any header")
	sym.Assert(b.Header&^0x3000 == (h&0xffffff|h0)&^0x3000, "the header has version 1, the beacon type and the bits given")
	sym.Assert(sym.EqStr(b.Eid, info.Eid), "the identifier is the one supplied")
	sym.Cover("made")
}

func c26check(b *Beacon, info *Binfo, want bool) {
	if !want {
		sym.Assert(b.Header&0x4000 == 0, "free space is not advertised unless asked for")
		sym.Assert(b.Freespace == 0, "free space that is not advertised is zero")
		sym.Cover("not advertised")
	} else {
		sym.Assert(b.Header&0x4000 != 0, "free space is advertised when asked for")
		if info.Freespace != 0 {
			sym.Assert(b.Freespace == info.Freespace, "the free space supplied is the one advertised")
			sym.Cover("supplied")
		} else {
			var fs syscall.Statfs_t
			wd, _ := os.Getwd()
			if syscall.Statfs(wd, &fs) != nil {
				return
			}
			sym.Assert(b.Freespace == uint64(fs.Bsize)*fs.Bavail/1024, "the free space measured is the one advertised")
			sym.Cover("measured")
		}
		sym.Assert(vh.Fits(b.Header>>12&3, b.Freespace), "the free space fits the descriptor chosen for it")
	}
	_, err := b.Encode()
	sym.Assert(err == nil, "the beacon encodes")
}

func Verif_C26_beacon_new() {
	sym.Bound("beacons built from flags that ask for free space or not, with or without a descriptor for it; any free space supplied, or any measured with a block size up to 2^20 and less than 2^44 blocks free")
	info := c12info()
	var b Beacon
	k := sym.Choose("flags", 6)
	flags := []string{"freespace=yes", "freespace=no", "freespaced=d16", "freespace=yes,freespaced=d32", "descriptor=d32", "descriptor=d16,freespace=yes,freespaced=d64"}[k]
	if sym.Choose("reused", 2) == 1 {
		b.Freespace = sym.U64("oldfreespace")
	}
	sym.Assert(b.New(flags, info) == nil, "a beacon is built")
	c26check(&b, info, k != 1 && k != 4)
}

func Verif_C26_beacon_make() {
	sym.Bound("beacons made from any header; any free space supplied, or any measured with a block size up to 2^20 and less than 2^44 blocks free")
	info := c12info()
	var b Beacon
	if sym.Choose("reused", 2) == 1 {
		b.Freespace = sym.U64("oldfreespace")
	}
	h := sym.U32("header")
	sym.Assert(b.Make(h, info) == nil, "a beacon is made from any header")
	c26check(&b, info, h&0x4000 != 0)
}

func Verif_C26_beacon_fail() {
	sym.Bound("a file system that cannot be measured (engine only)")
	os.Setenv("VERIF_STATFS", "fail")
	if !sym.Engine() {
		return
	}
	var b Beacon
	err := b.New("freespace=yes", &Binfo{})
	if err == nil {
		sym.Assert(sym.And(b.Header&0x4000 == 0, b.Freespace == 0), "free space that cannot be measured is not advertised")
		_, err := b.Encode()
		sym.Assert(err == nil, "the beacon encodes")
		sym.Cover("not advertised")
	}
}
