package fileio

import (
	"os"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_Setup() { vh.Setup() }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// sardir makes and configures the working directory s, and returns its parent.
func sardir() string {
	wd, err := os.Getwd()
	must(err)
	must(os.MkdirAll(wd+"/s", 0755))
	sarflags.Cliflag.Sardir = wd + "/s"
	return wd
}

func list(dir string) string {
	es, err := os.ReadDir(dir)
	if err != nil {
		return "?" + err.Error()
	}
	s := ""
	for _, e := range es {
		s += e.Name() + "/"
	}
	return s
}

func content(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		return []byte("missing")
	}
	return b
}

// ---- C22 -------------------------------------------------------------------

func Verif_C22_receive() {
	sym.Bound("a name of one arbitrary letter opened to receive (get, take) next to a file and a directory of that kind of name; file contents of 0..2 arbitrary bytes")
	top := sardir()
	old := sym.Bytes("old", sym.Choose("oldlen", 3))
	must(os.WriteFile(top+"/s/f", old, 0644))
	must(os.Mkdir(top+"/s/d", 0755))
	c := sym.U8("name")
	sym.Assume(sym.And(c >= 'a', c <= 'z'))
	name := string([]byte{c})
	tt := []string{"get", "take"}[sym.Choose("type", 2)]
	fp, err := FileOpen(name, tt)
	sym.Assert((err == nil) == sym.And(c != 'f', c != 'd'), "a file is opened to receive exactly when there is none of that name")
	sym.Assert(sym.EqBytes(content(top+"/s/f"), old), "an existing file is not altered")
	if err != nil {
		sym.Assert(list(top+"/s") == "d/f/", "a refused open leaves the directory as it was")
		sym.Cover("refused")
		return
	}
	sym.Assert(fp != nil, "an opened file can be used")
	n, err := FileWrite(fp, 0, []byte("new"))
	sym.Assert(err == nil && n == 3, "an opened file can be written")
	sym.Assert(FileClose(fp) == nil, "an opened file can be closed")
	sym.Assert(fp.Close() != nil, "a closed file is closed")
	sym.Assert(string(content(top+"/s/"+name)) == "new", "what is received goes into the file named")
	sym.Assert(sym.EqBytes(content(top+"/s/f"), old), "an existing file is not altered")
	_, err = FileOpen(name, tt)
	sym.Assert(err != nil, "a file just received is not received over")
	sym.Assert(string(content(top+"/s/"+name)) == "new", "a file just received is not altered")
	sym.Cover("opened")
}

func Verif_C22_send() {
	sym.Bound("a name of one arbitrary letter opened to send (put, give), with a file of 1..3 arbitrary bytes and a directory present; reads of 1..4 bytes at positions 0..4")
	top := sardir()
	data := sym.Bytes("data", 1+sym.Choose("len", 3))
	must(os.WriteFile(top+"/s/f", data, 0644))
	must(os.Mkdir(top+"/s/d", 0755))
	c := sym.U8("name")
	sym.Assume(sym.And(c >= 'a', c <= 'z'))
	name := string([]byte{c})
	fp, err := FileOpen(name, []string{"put", "give"}[sym.Choose("type", 2)])
	sym.Assert((err == nil) == sym.Or(c == 'f', c == 'd'), "a file is opened to send exactly when it exists")
	sym.Assert(list(top+"/s") == "d/f/", "opening a file to send leaves the directory as it was")
	sym.Assert(FileExists(name) == sym.Or(c == 'f', c == 'd'), "a file exists exactly when it is there")
	if err != nil || name == "d" {
		return
	}
	pos, n := sym.Choose("pos", 5), 1+sym.Choose("count", 4)
	b, err := FileRead(fp, uint64(pos), n)
	if pos >= len(data) {
		sym.Assert(err != nil || len(b) == 0, "nothing is read past the end")
		sym.Cover("past the end")
	} else {
		end := pos + n
		if end > len(data) {
			end = len(data)
		}
		sym.Assert(err == nil, "a position inside the file is read")
		sym.Assert(sym.EqBytes(b, data[pos:end]), "what is read at a position is what is there")
		sym.Cover("read")
	}
	sym.Assert(sym.EqBytes(content(top+"/s/f"), data), "a file that is sent is not altered")
}

func Verif_C22_write() {
	k := 2
	if sym.Thorough() {
		k = 3
	}
	sym.Bound("two (thorough: three) writes of 0..2 arbitrary bytes at any positions 0..4, each read back, in one file received")
	top := sardir()
	fp, err := FileOpen("f", "get")
	must(err)
	var model []byte
	for i := 0; i < k; i++ {
		tag := string(rune('a' + i))
		buf := sym.Bytes(tag, sym.Choose(tag+".len", 3))
		pos := sym.Choose(tag+".pos", 5)
		keep := append([]byte{}, buf...)
		n, err := FileWrite(fp, uint64(pos), buf)
		sym.Assert(err == nil && n == len(buf), "bytes are written at a position")
		sym.Assert(sym.EqBytes(buf, keep), "the buffer is not altered")
		if len(buf) > 0 {
			for len(model) < pos+len(buf) {
				model = append(model, 0)
			}
			copy(model[pos:], buf)
			r, err := FileRead(fp, uint64(pos), len(buf))
			sym.Assert(err == nil, "what was written is read back")
			sym.Assert(sym.EqBytes(r, buf), "what is read back is what was written")
		}
		sym.Assert(sym.EqBytes(content(top+"/s/f"), model), "a write leaves all other bytes alone")
	}
	sym.Assert(FileClose(fp) == nil, "an open file can be closed")
	sym.Assert(sym.EqBytes(content(top+"/s/f"), model), "the file holds what was written")
	sym.Cover("written")
}

func Verif_C22_position() {
	sym.Bound("every position past the largest file offset")
	top := sardir()
	must(os.WriteFile(top+"/s/f", []byte("abc"), 0644))
	fp, err := os.OpenFile(top+"/s/f", os.O_RDWR, 0)
	must(err)
	pos := sym.U64("pos")
	sym.Assume(pos >= 1<<63)
	sym.Assert(FileSeek(fp, pos) != nil, "a position past the largest file offset is refused")
	_, err = FileRead(fp, pos, 1)
	sym.Assert(err != nil, "nothing is read past the largest file offset")
	n, err := FileWrite(fp, pos, []byte{1})
	sym.Assert(err != nil && n == 0, "nothing is written past the largest file offset")
	sym.Assert(string(content(top+"/s/f")) == "abc", "a refused position leaves the file as it was")
	_, err = FileRead(nil, 0, 1)
	sym.Assert(err != nil, "reading a file that is not open is refused")
	_, err = FileWrite(nil, 0, []byte{1})
	sym.Assert(err != nil, "writing a file that is not open is refused")
	sym.Assert(FileDelete(nil) != nil, "deleting a file that is not open is refused")
	sym.Cover("refused")
}

func Verif_C22_delete() {
	sym.Bound("three files, any one of them opened to send or just received and deleted, or removed by name; a directory with a file in it, and a name that does not exist, removed by name")
	top := sardir()
	must(os.WriteFile(top+"/s/a", []byte("A"), 0644))
	must(os.WriteFile(top+"/s/b", []byte("B"), 0644))
	must(os.Mkdir(top+"/s/s", 0755))
	must(os.WriteFile(top+"/s/s/a", []byte("C"), 0644))
	must(os.WriteFile(top+"/a", []byte("D"), 0644))
	names := []string{"a", "b", "s/a"}
	k := sym.Choose("file", 3)
	switch sym.Choose("how", 5) {
	case 3:
		sym.Assert(FileRm("s") != nil, "removing a directory that is not empty is an error")
		k = 3
	case 4:
		sym.Assert(FileRm("none") != nil, "removing a file that does not exist is an error")
		k = 3
	case 0:
		fp, err := FileOpen(names[k], "put")
		must(err)
		sym.Assert(FileDelete(fp) == nil, "an open file is deleted")
	case 1:
		sym.Assert(FileRm(names[k]) == nil, "a file is removed by name")
	case 2:
		fp, err := FileOpen("new", "get")
		must(err)
		sym.Assert(FileDelete(fp) == nil, "a file just received is deleted")
		sym.Assert(!FileExists("new"), "a deleted file is gone")
		k = 3
	}
	for i, n := range names {
		sym.Assert(FileExists(n) == (i != k), "exactly the file deleted is gone")
	}
	sym.Assert(string(content(top+"/a")) == "D", "a file outside is left alone")
	sym.Cover("deleted")
}

// ---- C23 -------------------------------------------------------------------

// The outside: o, sx/o and d next to the working directory s. Opening,
// creating, deleting or looking up any name must leave it alone, and must not
// depend on whether it is there.
var c23prefix = []string{"", "/", "../", "../../", "./../", "a/../../", "d/../..", "//../", "../s", "..", "d/"}

func c23name(top string) string {
	n := 4
	if sym.Thorough() {
		n = 6
	}
	pre := append(append([]string{}, c23prefix...), top+"/", top+"/s", top+"/s/../")
	return pre[sym.Choose("prefix", len(pre))] + sym.String("name", sym.Choose("len", n))
}

func outside(top string) {
	must(os.WriteFile(top+"/o", []byte("OUTSIDE"), 0644))
	must(os.Mkdir(top+"/sx", 0755))
	must(os.WriteFile(top+"/sx/o", []byte("OUTSIDE"), 0644))
	must(os.Mkdir(top+"/d", 0755))
}

func c23intact(top, cwdlist string) {
	sym.Assert(string(content(top+"/o")) == "OUTSIDE", "a file outside the working directory is left alone")
	sym.Assert(list(top) == cwdlist, "nothing is created or deleted outside the working directory")
	sym.Assert(list(top+"/sx") == "o/", "nothing is created or deleted in a directory outside")
	sym.Assert(list(top+"/d") == "", "nothing is created in a directory outside")
}

func Verif_C22_directory() {
	sym.Bound("a directory to receive into, named by any letter or in a directory that is there or not; then a file in it, and the directory again; one file and one directory there before")
	top := sardir()
	must(os.WriteFile(top+"/s/f", []byte("old"), 0644))
	must(os.Mkdir(top+"/s/d", 0755))
	before := list(top + "/s")
	c := sym.U8("name")
	sym.Assume(sym.And(c >= 'a', c <= 'z'))
	name := string([]byte{c})
	dir := []string{"", "d/", "n/"}[sym.Choose("in", 3)]
	there := dir == "" && sym.Or(name == "f", name == "d")
	wd, err := os.Getwd()
	must(err)
	_, err = FileOpen(dir+name, "getdir")
	sym.Assert((err == nil) == (!there && dir != "n/"), "a directory to receive into is made exactly when there is none of that name")
	now, e := os.Getwd()
	sym.Assert(e == nil && now == wd, "where the node works does not change")
	if err != nil {
		sym.Assert(list(top+"/s") == before, "a refused open leaves the directory as it was")
		sym.Cover("refused")
		return
	}
	fi, e := os.Stat(top + "/s/" + dir + name)
	sym.Assert(e == nil && fi.IsDir(), "the directory to receive into is there")
	fp, err := FileOpen(dir+name+"/x", "get")
	sym.Assert(err == nil && fp != nil, "files are received into the directory")
	if err == nil {
		sym.Assert(FileWrite2(fp) == nil, "files are received into the directory")
		FileClose(fp)
	}
	sym.Assert(string(content(top+"/s/f")) == "old", "an existing file is not altered")
	_, err = FileOpen(dir+name, "getdir")
	sym.Assert(err != nil, "a directory to receive into is made exactly when there is none of that name")
	sym.Cover("made")
}

func Verif_C23_open() {
	sym.Bound("names made of one of 14 prefixes (absolute, parent, nested parent, sibling, the real path of the working directory and out of it again, ...) and 0..3 (thorough: 0..5) arbitrary bytes; opened as get, take, getdir, put, give")
	top := sardir()
	must(os.WriteFile(top+"/s/i", []byte("INSIDE"), 0644))
	must(os.Mkdir(top+"/s/d", 0755))
	outside(top)
	before := list(top)
	name := c23name(top)
	tt := []string{"get", "take", "getdir", "put", "give"}[sym.Choose("type", 5)]
	fp, err := FileOpen(name, tt)
	if err == nil && fp != nil {
		if tt == "put" || tt == "give" {
			b, _ := FileRead(fp, 0, 7)
			sym.Assert(string(b) != "OUTSIDE", "a file outside the working directory is never sent")
		} else {
			sym.Assert(FileWrite2(fp) == nil, "a file opened to receive can be written")
		}
		FileClose(fp)
		sym.Cover("opened")
	}
	c23intact(top, before)
}

func FileWrite2(fp *os.File) error { _, err := FileWrite(fp, 0, []byte("RECEIVED")); return err }

func Verif_C23_lookup() {
	sym.Bound("names as above; existence, metadata and checksum looked up with the outside absent and present")
	top := sardir()
	must(os.WriteFile(top+"/s/i", []byte("INSIDE"), 0644))
	must(os.Mkdir(top+"/s/d", 0755))
	name := c23name(top)
	e1 := FileExists(name)
	_, m1 := FileMeta(name)
	_, c1 := Checksum("none", name)
	outside(top)
	before := list(top)
	e2 := FileExists(name)
	m, m2 := FileMeta(name)
	_, c2 := Checksum("none", name)
	sym.Assert(e1 == e2, "what exists outside the working directory is not reported")
	sym.Assert((m1 == nil) == (m2 == nil), "the metadata of files outside is not reported")
	sym.Assert((c1 == nil) == (c2 == nil), "the checksum of files outside is not reported")
	if m2 == nil {
		sym.Assert(m.Size != 7 || m.IsDir, "the size of a file outside is not reported")
	}
	c23intact(top, before)
	sym.Cover("looked up")
}

func Verif_C23_remove() {
	sym.Bound("names as above, removed, with the working directory empty or not")
	top := sardir()
	if sym.Choose("empty", 2) == 0 {
		must(os.WriteFile(top+"/s/i", []byte("INSIDE"), 0644))
		must(os.Mkdir(top+"/s/d", 0755))
	}
	outside(top)
	before := list(top)
	if FileRm(c23name(top)) == nil {
		sym.Cover("removed")
	}
	_, err := os.Stat(top + "/s")
	sym.Assert(err == nil, "the working directory itself is not removed")
	c23intact(top, before)
}

func Verif_C23_inside() {
	sym.Bound("names of one arbitrary lower-case letter, plain, in a subdirectory, or written with ./ and parent steps that stay inside")
	top := sardir()
	c := sym.U8("name")
	sym.Assume(sym.And(c >= 'e', c <= 'z'))
	name := string([]byte{c})
	must(os.Mkdir(top+"/s/d", 0755))
	k := sym.Choose("form", 4)
	name = []string{"", "d/", "./", "d/../"}[k] + name
	real := top + "/s/" + name
	fp, err := FileOpen(name, "get")
	if err != nil {
		sym.Fail("a name inside the working directory is opened to receive")
		return
	}
	FileWrite(fp, 0, []byte("x"))
	FileClose(fp)
	sym.Assert(string(content(real)) == "x", "a name inside the working directory is the file of that name there")
	sym.Assert(FileExists(name), "a name inside the working directory exists")
	m, err := FileMeta(name)
	sym.Assert(err == nil && m.Size == 1, "a name inside the working directory has metadata")
	fp, err = FileOpen(name, "put")
	sym.Assert(err == nil, "a name inside the working directory is opened to send")
	if err == nil {
		FileClose(fp)
	}
	sym.Assert(FileRm(name) == nil, "a name inside the working directory is removed")
	sym.Assert(!FileExists(name), "a removed name is gone")
	sym.Cover("inside")
}
