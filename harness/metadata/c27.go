package metadata

import (
	"crypto/md5"
	"crypto/sha1"
	"hash/crc32"
	"os"
	"syscall"
	"time"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

const h0 = 0x22000000 // version 1, metadata
const y2kUnix = 946684800

// the working directory, with one entry of the given kind in it
func place(kind int, content []byte) {
	sarflags.Cliflag.Sardir = "sd"
	if err := os.MkdirAll("sd", 0755); err != nil {
		panic(err)
	}
	var err error
	switch kind {
	case 0:
		err = os.WriteFile("sd/x", content, 0644)
	case 1:
		err = os.Mkdir("sd/x", 0755)
	case 2:
		err = syscall.Mkfifo("sd/x", 0644)
	}
	if err != nil {
		panic(err)
	}
}

// times as the file system has them
func times() (mtime, ctime time.Time) {
	fi, err := os.Lstat("sd/x")
	if err != nil {
		panic(err)
	}
	st := fi.Sys().(*syscall.Stat_t)
	return fi.ModTime(), time.Unix(int64(st.Ctim.Sec), int64(st.Ctim.Nsec))
}

var transfers = []string{"file", "directory", "bundle", "stream"}

func sum(t string, content []byte) []byte {
	switch t {
	case "crc32":
		v := crc32.ChecksumIEEE(content)
		return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	case "md5":
		v := md5.Sum(content)
		return v[:]
	case "sha1":
		v := sha1.Sum(content)
		return v[:]
	}
	return nil
}

// build by flags or by header
func build(m *MetaData, how int, transfer, csum string, session uint32, name string) error {
	info := &Minfo{Session: session, Fname: name}
	if how == 0 {
		return m.New("transfer="+transfer+",csumtype="+csum, info)
	}
	h := vh.HSet(0, "transfer", transfer)
	if csum != "" {
		h = vh.HSet(h, "csumtype", csum)
	}
	return m.Make(h, info)
}

func checkSum(m *MetaData, csum string, content []byte) {
	words := map[string]uint32{"none": 0, "crc32": 1, "md5": 4, "sha1": 5}[csum]
	sym.Assert(vh.HGet(m.Header, "csumtype") == vh.HOpt("csumtype", csum), "the checksum type is the one requested")
	sym.Assert(vh.HGet(m.Header, "csumlen") == words, "the checksum length matches the type")
	sym.Assert(len(m.Checksum) == 4*int(words), "the checksum has the length of its type")
	sym.Assert(sym.EqBytes(m.Checksum, sum(csum, content)), "the checksum is that of the file's contents")
}

func Verif_C27_file() {
	sym.Bound("a file, directory or stream with any modification and status change time of 2000..2136 (nanoseconds included), contents of 0..2 arbitrary bytes; each transfer type; each checksum type; built from flags or from a header")
	kind := sym.Choose("kind", 4) // 3: no such file
	tr := sym.Choose("transfer", 4)
	csum := []string{"none", "crc32", "md5", "sha1"}[sym.Choose("csum", 4)]
	how := sym.Choose("how", 2)
	content := sym.Bytes("content", sym.Choose("len", 3))
	place(kind, content)
	mt := time.Unix(y2kUnix+int64(sym.U32("mtime")), int64(sym.Range("mtime.ns", 0, 999999999)))
	if kind < 3 {
		if os.Chtimes("sd/x", mt, mt) != nil {
			panic("chtimes")
		}
	}
	session := sym.U32("session")
	var m MetaData
	err := build(&m, how, transfers[tr], csum, session, "x")
	good := kind == 0 && tr == 0 || kind == 1 && tr == 1 && csum == "none" || kind == 2 && tr == 3 && csum == "none"
	sym.Assert((err == nil) == good, "metadata is refused exactly when the file is missing, of another kind than the transfer, or cannot have the checksum")
	if err != nil {
		sym.Cover("refused")
		return
	}
	sym.Assert(m.Session == session, "the session is the one supplied")
	sym.Assert(m.Dir.Path == "x", "the path is that of the file")
	prop := map[int]uint16{0: 0, 1: 1, 2: 2}[kind]
	sym.Assert(sym.And(m.Dir.Header>>8&3 == prop, m.Dir.Header&0x8000 != 0), "the property is that of the file's kind")
	if kind == 0 {
		sym.Assert(m.Dir.Size == uint64(len(content)), "the size is that of the file")
	}
	if kind != 2 {
		mt, ct := times()
		sym.Assert(m.Dir.Mtime.Secs() == uint64(mt.Unix()-y2kUnix), "the modification time is that of the file")
		sym.Assert(m.Dir.Ctime.Secs() == uint64(ct.Unix()-y2kUnix), "the creation time is that of the file")
	}
	checkSum(&m, csum, content)
	var g MetaData
	frame, err := m.Encode()
	sym.Assert(err == nil, "the metadata frame encodes")
	sym.Assert(g.Decode(frame) == nil, "the metadata frame decodes")
	sym.Assert(same(&m, &g), "the metadata frame comes back unchanged")
	sym.Cover("built")
}

func Verif_C27_whole() {
	sym.Bound("files of 33000 fixed bytes and one arbitrary byte at the end; each checksum type; any earlier checksum in the structure")
	csum := []string{"none", "crc32", "md5", "sha1"}[sym.Choose("csum", 4)]
	content := make([]byte, 33000)
	for i := range content {
		content[i] = byte(i * 7 / 5)
	}
	content[len(content)-1] = sym.U8("last")
	place(0, content)
	var m MetaData
	m.Checksum = []byte{1, 2, 3}
	if build(&m, sym.Choose("how", 2), "file", csum, 1, "x") != nil {
		sym.Fail("metadata is built for a file")
		return
	}
	sym.Assert(m.Dir.Size == uint64(len(content)), "the size is that of the file")
	checkSum(&m, csum, content)
	sym.Cover("built")
}

func Verif_C27_size() {
	sym.Bound("files of every size up to 2^63-1; built from flags or from a header; without a checksum")
	place(0, nil)
	size := sym.Range("size", 0, 1<<63-1)
	if os.Truncate("sd/x", int64(size)) != nil {
		sym.Unsupported("the file system cannot hold a file of this size")
		return
	}
	var m, g MetaData
	if build(&m, sym.Choose("how", 2), "file", "none", 1, "x") != nil {
		sym.Fail("metadata is built for a file of any size")
		return
	}
	sym.Assert(m.Dir.Size == size, "the size is that of the file")
	frame, err := m.Encode()
	sym.Assert(err == nil, "the metadata frame encodes")
	sym.Assert(g.Decode(frame) == nil, "the metadata frame decodes")
	sym.Assert(g.Dir.Size == size, "the peer learns the size of the file")
	sym.Cover("built")
}

// The size decides the descriptor.
func Verif_C26_metadata() {
	sym.Bound("files of every size up to 2^63-1; built from flags or from a header")
	place(0, nil)
	size := sym.Range("size", 0, 1<<63-1)
	if os.Truncate("sd/x", int64(size)) != nil {
		sym.Unsupported("the file system cannot hold a file of this size")
		return
	}
	var m MetaData
	if build(&m, sym.Choose("how", 2), "file", "none", 1, "x") != nil {
		sym.Fail("metadata is built for a file of any size")
		return
	}
	sym.Assert(m.Dir.Size == size, "the size is that of the file")
	sym.Assert(vh.Fits(uint32(m.Dir.Header)>>6&3, size), "the size fits the descriptor chosen for it")
	_, err := m.Encode()
	sym.Assert(err == nil, "the metadata frame encodes")
	sym.Cover("built")
}

func Verif_C12_metadata_new() {
	sym.Bound("metadata: flag strings of one or two items, each any flag with any option, an unknown option or flag of 0..4 arbitrary bytes, no option, or a flag of another frame; any session")
	place(0, []byte("abc"))
	text, ok, set := vh.AnyFlags([]string{"descriptor", "progress", "transfer", "reliability", "csumtype"})
	var m MetaData
	session := sym.U32("session")
	err := m.New(text, &Minfo{Session: session, Fname: "x"})
	if !ok {
		sym.Assert(err != nil, "a malformed flag string is refused")
		sym.Cover("refused")
		return
	}
	h := set(h0)
	if vh.HGet(h, "transfer") != 0 {
		return // the file is not of that kind
	}
	sym.Assert(err == nil, "a well formed flag string is accepted")
	sym.Assert(m.Header&^0xf0 == h, "the header has version 1, the metadata type and the flags given, nothing else")
	sym.Assert(m.Session == session, "the session is the one supplied")
	sym.Cover("built")
}

func Verif_C12_metadata_make() {
	sym.Bound("metadata: every header; any session; any earlier frame in the structure")
	place(0, []byte("abc"))
	var m MetaData
	if sym.Choose("reused", 2) == 1 {
		m = MetaData{Header: sym.U32("oldheader"), Session: 7, Checksum: []byte{1, 2, 3}}
	}
	h, session := sym.U32("header"), sym.U32("session")
	err := m.Make(h, &Minfo{Session: session, Fname: "x"})
	good := sym.And(vh.HGet(h, "transfer") == 0, vh.HGet(h, "csumtype") <= 3)
	sym.Assert((err == nil) == good, "a header is refused exactly when it asks for what the file cannot give")
	if err != nil {
		return
	}
	sym.Assert(m.Header&^0xf0 == (h&0xffffff|h0)&^0xf0, "the header has version 1, the metadata type and the bits given")
	sym.Assert(m.Session == session, "the session is the one supplied")
	sym.Cover("made")
}
