package timestamp

import (
	"os"
	"time"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

func Verif_Setup() {
	if err := os.WriteFile("saratoga.json", sym.RepoFile("saratoga/saratoga.json"), 0644); err != nil {
		panic(err)
	}
	c := new(sarflags.Cliflags)
	if err := c.ReadConfig("saratoga.json"); err != nil {
		panic(err)
	}
	sarflags.Cliflag = c
}

const y2k = 946684800 // 2000-01-01T00:00:00Z in Unix time

type kind struct {
	name    string
	typ     byte
	width   int // bytes of seconds
	frac    bool
	epoch   int64
	maxsecs uint64
}

var kinds = []kind{
	{"posix32", 1, 4, false, 0, 1<<32 - 1},
	{"posix64", 2, 8, false, 0, 1<<63 - 1},
	{"posix32_32", 3, 4, true, 0, 1<<32 - 1},
	{"posix64_32", 4, 8, true, 0, 1<<63 - 1},
	{"epoch2000_32", 5, 4, false, y2k, 1<<32 - 1},
}

func be(f []byte, v uint64, n int) []byte {
	for i := n - 1; i >= 0; i-- {
		f = append(f, byte(v>>(8*i)))
	}
	return f
}

// an arbitrary instant, in the seconds and nanoseconds since 1970
func instant() (time.Time, int64, uint64) {
	s := sym.I64("sec")
	n := sym.Range("nsec", 0, 999999999)
	// the range over which package time itself is exact
	sym.Assume(sym.And(s >= -1<<62, s <= 1<<62))
	return time.Unix(s, int64(n)), s, n
}

func wire(k kind, secs, nsec uint64) []byte {
	w := be([]byte{k.typ}, secs, k.width)
	if k.frac {
		w = be(w, nsec, 4)
	}
	for len(w) < 16 {
		w = append(w, 0)
	}
	return w
}

func representable(k kind, s int64) bool {
	d := s - k.epoch
	return sym.And(d >= 0, uint64(d) <= k.maxsecs)
}

func Verif_C07_instant() {
	sym.Bound("each of the five instant types; every instant with |seconds| <= 2^62 and every nanosecond; any earlier timestamp in the structure")
	k := kinds[sym.Choose("type", len(kinds))]
	at, s, n := instant()
	var t Timestamp
	if sym.Choose("reused", 2) == 1 {
		t.Get(wire(kinds[3], 77, 99))
	}
	err := t.New(k.name, at)
	sym.Assert((err == nil) == representable(k, s), "an instant is refused exactly when the type cannot represent it")
	if err != nil {
		sym.Cover("refused")
		return
	}
	secs := uint64(s - k.epoch)
	sym.Assert(t.Secs() == secs, "the seconds are those of the instant in the type's epoch")
	w := t.Put()
	sym.Assert(sym.EqBytes(w, wire(k, secs, n)), "the wire form carries the type, the seconds and the fraction")
	var u Timestamp
	if u.Get(w) != nil {
		sym.Fail("a timestamp put on the wire is read back")
		return
	}
	sym.Assert(u.Secs() == secs, "the seconds read back are those of the instant")
	sym.Assert(sym.EqBytes(u.Put(), w), "a timestamp read back has the same wire form")
	sym.Cover("round trip")
}

func Verif_C07_now() {
	sym.Bound("the clock's instant, each type and unknown type names of 1..3 arbitrary bytes")
	var t Timestamp
	k := kinds[sym.Choose("type", len(kinds))]
	if t.Now(k.name) == nil {
		w := t.Put()
		sym.Assert(w[0] == k.typ, "the current time is of the type asked for")
		var u Timestamp
		sym.Assert(u.Get(w) == nil, "the current time is read back")
		sym.Assert(u.Secs() == t.Secs(), "the current time comes back unchanged")
		sym.Cover("now")
	}
	sym.Assert(t.New(sym.String("name", 1+sym.Choose("n", 3)), time.Unix(5, 0)) != nil, "an unknown type is refused")
}

func Verif_C07_local() {
	sym.Bound("the locally interpreted type")
	var t, u Timestamp
	at, _, _ := instant()
	sym.Assert(t.New("localinterp", at) == nil, "a locally interpreted timestamp is made")
	w := t.Put()
	sym.Assert(w[0] == 0, "it has its type")
	sym.Assert(u.Get(w) == nil, "it is read back")
	sym.Assert(sym.EqBytes(u.Put(), w), "it comes back unchanged")
	sym.Cover("local")
}

// every wire form of a known type is read, and written again unchanged
func Verif_C10_timestamp() {
	sym.Bound("timestamps: every seconds and nanoseconds value of every type, and every locally interpreted text")
	j := sym.Choose("type", len(kinds)+1)
	var t Timestamp
	if j == len(kinds) {
		w := append([]byte{0}, sym.Bytes("local", 15)...)
		sym.Assert(t.Get(w) == nil, "a locally interpreted timestamp is read")
		sym.Assert(sym.EqBytes(t.Put(), w), "a locally interpreted timestamp is written as read")
		return
	}
	k := kinds[j]
	secs := sym.U64("secs")
	if k.width == 4 {
		secs &= 1<<32 - 1
	}
	n := uint64(sym.U32("nsecs"))
	w := wire(k, secs, n)
	sym.Assert(t.Get(w) == nil, "a timestamp of a known type is read")
	sym.Assert(t.Secs() == secs, "its seconds are those on the wire")
	sym.Assert(sym.EqBytes(t.Put(), w), "a timestamp is written in the protocol's layout")
	sym.Cover("read")
}

func Verif_C08_timestamp() {
	sym.Bound("timestamps: every byte sequence of length 0..17")
	var t Timestamp
	if t.Get(sym.Bytes("frame", sym.Choose("len", 18))) == nil {
		t.Print()
		t.Put()
		t.Secs()
		sym.Cover("decoded")
	}
}

func Verif_C09_timestamp() {
	sym.Bound("timestamps: any earlier timestamp; every received sequence of 15..17 bytes")
	var old, fresh Timestamp
	prev := append([]byte{byte(sym.Choose("oldtype", 6))}, sym.Bytes("old", 15)...)
	old.Get(prev)
	frame := sym.Bytes("frame", 15+sym.Choose("len", 3))
	e1 := fresh.Get(append([]byte{}, frame...))
	e2 := old.Get(frame)
	sym.Assert((e1 == nil) == (e2 == nil), "the outcome does not depend on earlier contents")
	if e1 != nil {
		return
	}
	for i := range frame {
		frame[i] = 0xa5
	}
	sym.Assert(old.Secs() == fresh.Secs(), "the decoded seconds depend on the received bytes alone")
	sym.Assert(sym.EqBytes(old.Put(), fresh.Put()), "the decoded timestamp depends on the received bytes alone")
	sym.Cover("decoded twice")
}

// what is printed is decoded too: nothing of an earlier fraction shows
func Verif_C09_timestamp_text() {
	sym.Bound("timestamps: three earlier timestamps whose fraction is the largest the wire carries, each type, four instants")
	k := kinds[sym.Choose("type", len(kinds))]
	frame := wire(k, []uint64{0, 1, 1000000000, 1<<32 - 1}[sym.Choose("secs", 4)], 5)
	prev := []([]byte){wire(kinds[3], 77, 1<<32-1), wire(kinds[2], 77, 1<<32-1), append([]byte{0}, "local time 12:0"...)}[sym.Choose("old", 3)]
	var old, fresh Timestamp
	old.Get(prev)
	if old.Get(frame) != nil || fresh.Get(frame) != nil {
		sym.Fail("a timestamp of a known type is read")
	}
	sym.Assert(old.Print() == fresh.Print(), "what a timestamp prints as depends on the received bytes alone")
	sym.Cover("printed")
}
