package fileio

import (
	"os"
	"syscall"

	"github.com/charlesetsmith/saratoga/zzverif/stub"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

func Verif_C22_far() {
	sym.Bound("a file of 0..2 arbitrary bytes; one write of 1 or 2 arbitrary bytes at any position whose bytes end at or before the largest file offset (2^63-1); any one position read back after it and the file's size")
	top := sardir()
	old := sym.Bytes("old", sym.Choose("oldlen", 3))
	must(os.WriteFile(top+"/s/f", old, 0644))
	fp, err := os.OpenFile(top+"/s/f", os.O_RDWR, 0)
	must(err)
	pos := sym.U64("pos")
	buf := sym.Bytes("buf", 1+sym.Choose("len", 2))
	sym.Assume(pos <= 1<<63-1-uint64(len(buf)))
	n, err := FileWrite(fp, pos, buf)
	sym.Assert(err == nil && n == len(buf), "bytes are written at a position")
	r, err := FileRead(fp, pos, len(buf))
	if err != nil || len(r) != len(buf) {
		sym.Fail("what was written is read back")
		return
	}
	sym.Assert(sym.EqBytes(r, buf), "what is read back is what was written")
	size := pos + uint64(len(buf))
	size = sym.IfU64(size < uint64(len(old)), uint64(len(old)), size)
	m, err := FileMeta("f")
	sym.Assert(err == nil && uint64(m.Size) == size, "a write extends the file as far as it goes and no further")
	q := sym.U64("other")
	r, err = FileRead(fp, q, 1)
	if err != nil || len(r) != 1 {
		sym.Assert(q >= size, "every position of the file is read")
		sym.Cover("past the end")
		return
	}
	sym.Assert(q < size, "nothing is read past the end")
	want := uint64(0)
	for i := range old {
		want = sym.IfU64(q == uint64(i), uint64(old[i]), want)
	}
	for i := range buf {
		want = sym.IfU64(q == pos+uint64(i), uint64(buf[i]), want)
	}
	sym.Assert(uint64(r[0]) == want, "a write leaves all other bytes alone")
	sym.Cover("inside")
}

func Verif_C22_special() {
	sym.Bound("a named pipe, a link to nothing, a link to a file of the directory and a directory of that name, or a file, opened to receive (get, take, getdir)")
	top := sardir()
	must(os.WriteFile(top+"/s/f", []byte("old"), 0644))
	what := sym.Choose("what", 5)
	switch what {
	case 0:
		must(syscall.Mkfifo(top+"/s/x", 0644))
	case 1:
		must(os.Symlink("nothing", top+"/s/x"))
	case 2:
		must(os.Symlink("f", top+"/s/x"))
	case 3:
		must(os.Mkdir(top+"/s/x", 0755))
	case 4:
		must(os.WriteFile(top+"/s/x", []byte("there"), 0644))
	}
	before := list(top + "/s")
	_, err := FileOpen("x", []string{"get", "take", "getdir"}[sym.Choose("type", 3)])
	sym.Assert(err != nil, "a file is opened to receive exactly when there is none of that name")
	sym.Assert(list(top+"/s") == before, "a refused open leaves the directory as it was")
	sym.Assert(string(content(top+"/s/f")) == "old", "an existing file is not altered")
	if what == 4 {
		sym.Assert(string(content(top+"/s/x")) == "there", "an existing file is not altered")
	}
	sym.Cover("refused")
}

func Verif_C22_meanwhile() {
	sym.Bound("a file opened to receive (get, take), where another process makes a file of that name just before any one of the first four operations on the file system; that file's contents of 1 or 2 arbitrary bytes")
	top := sardir()
	data := sym.Bytes("data", 1+sym.Choose("len", 2))
	at, n := sym.Choose("at", 4), 0
	made := false
	stub.Before = func(op, name string) error {
		n++
		if n == at+1 {
			stub.Before = nil
			_, err := os.Lstat(top + "/s/f")
			if err != nil {
				made = true
				must(os.WriteFile(top+"/s/f", data, 0644))
			}
		}
		return nil
	}
	fp, err := FileOpen("f", []string{"get", "take"}[sym.Choose("type", 2)])
	stub.Before = nil
	if made {
		sym.Assert(err != nil, "a file is opened to receive exactly when there is none of that name")
		sym.Assert(sym.EqBytes(content(top+"/s/f"), data), "an existing file is not altered")
		sym.Cover("made meanwhile")
	} else {
		sym.Assert(err == nil && fp != nil, "a file is opened to receive exactly when there is none of that name")
		sym.Cover("opened")
	}
}

func Verif_C22_faults() {
	sym.Bound("a file of 4 arbitrary bytes; a read or write of 1 or 2 arbitrary bytes at position 1 or 2, or a deletion, where any one of the first three reads, writes and removals fails")
	top := sardir()
	data := sym.Bytes("data", 4)
	must(os.WriteFile(top+"/s/f", data, 0644))
	must(os.WriteFile(top+"/s/g", []byte("other"), 0644))
	fp, err := os.OpenFile(top+"/s/f", os.O_RDWR, 0)
	must(err)
	at, n := sym.Choose("at", 3), 0
	failed := false
	stub.Before = func(op, name string) error {
		if op != "read" && op != "write" && op != "remove" {
			return nil
		}
		n++
		if n == at+1 {
			failed = true
			return syscall.EIO
		}
		return nil
	}
	pos := 1 + sym.Choose("pos", 2)
	buf := sym.Bytes("buf", 1+sym.Choose("len", 2))
	what := sym.Choose("what", 3)
	var r []byte
	switch what {
	case 0:
		r, err = FileRead(fp, uint64(pos), len(buf))
	case 1:
		_, err = FileWrite(fp, uint64(pos), buf)
	case 2:
		err = FileDelete(fp)
	}
	stub.Before = nil
	sym.Assert((err != nil) == failed, "an operation that fails is reported as an error, one that succeeds is not")
	if failed {
		sym.Cover("failed")
	} else if what == 0 {
		sym.Assert(sym.EqBytes(r, data[pos:pos+len(buf)]), "what is read at a position is what is there")
	} else if what == 1 {
		copy(data[pos:], buf)
	}
	if what == 2 && !failed {
		sym.Assert(!FileExists("f"), "a deleted file is gone")
	} else {
		sym.Assert(sym.EqBytes(content(top+"/s/f"), data), "a write leaves all other bytes alone")
	}
	sym.Assert(string(content(top+"/s/g")) == "other", "exactly the file deleted is gone")
}
