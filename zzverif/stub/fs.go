package stub

import (
	"io"
	"io/fs"
	"os"
	"syscall"
	"time"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

// The file-system model: a map from absolute cleaned path to node.

type Node struct {
	Dir     bool
	Fifo    bool
	Link    string // symbolic link target ("" when not a link)
	Data    []byte
	Mtime   int64
	MtimeNs int64
	Ctime   int64
	CtimeNs int64
	Size    int64 // overrides len(Data) when >= 0
	Ext     []Extent
	Ino     uint64
	NoRead  bool
	Deny    bool // a directory made without permission to write and search
}

// Extent is data written far into a file, or at a symbolic offset; later ones
// lie over earlier ones and over Data.
type Extent struct {
	Off  int64
	Data []byte
}

// Before, when the harness has set it, is called before every operation on a
// path or an open file: it may change the file system, as another process
// would, or make the operation fail.
var Before func(op, name string) error

func before(op, name string) error {
	if Before == nil {
		return nil
	}
	if err := Before(op, name); err != nil {
		return &fs.PathError{Op: op, Path: name, Err: err}
	}
	return nil
}

var FS map[string]*Node
var Cwd = "/"
var Env = map[string]string{}
var nextIno uint64 = 10

type ofile struct {
	n    *Node
	name string
	path string
	pos  int64
	rd   bool
	wr   bool
	app  bool
	open bool
}

var files = map[*os.File]*ofile{}

func fsInit() {
	if FS == nil {
		FS = map[string]*Node{"/": {Dir: true, Size: -1, Ino: 1}, "/tmp": {Dir: true, Size: -1, Ino: 2}, "/w": {Dir: true, Size: -1, Ino: 3}}
		Cwd = "/w"
	}
}

// 2020-01-01: when everything was created
func newNode(n Node) *Node {
	n.Mtime, n.Ctime = 1577836800, 1577836800
	return &n
}

func perr(op, path string, e syscall.Errno) error { return &fs.PathError{Op: op, Path: path, Err: e} }

// resolve returns the absolute path name denotes; follow says whether a final
// symbolic link is followed. The parent must exist and be a directory.
func resolve(name string, follow bool, depth int) (string, syscall.Errno) {
	fsInit()
	if name == "" {
		return "", syscall.ENOENT
	}
	if depth > 8 {
		return "", syscall.ELOOP
	}
	for i := 0; i < len(name); i++ {
		if name[i] == 0 {
			return "", syscall.EINVAL
		}
	}
	cur := Cwd
	i := 0
	if name[0] == '/' {
		cur = "/"
	}
	for i < len(name) {
		for i < len(name) && name[i] == '/' {
			i++
		}
		j := i
		for j < len(name) && name[j] != '/' {
			j++
		}
		comp := name[i:j]
		last := true
		for k := j; k < len(name); k++ {
			if name[k] != '/' {
				last = false
				break
			}
		}
		trailing := j < len(name)
		i = j
		if len(comp) > 255 {
			return "", syscall.ENAMETOOLONG
		}
		n, ok := FS[cur]
		if !ok {
			return "", syscall.ENOENT
		}
		if !n.Dir {
			return "", syscall.ENOTDIR
		}
		if comp == "" || comp == "." {
			continue
		}
		if n.Deny {
			return "", syscall.EACCES
		}
		if comp == ".." {
			cur = parent(cur)
			continue
		}
		next := cur + "/" + comp
		if cur == "/" {
			next = "/" + comp
		}
		if c, ok := FS[next]; ok {
			if c.Link != "" && (!last || follow || trailing) {
				t, e := resolveFrom(cur, c.Link, depth+1)
				if e != 0 {
					return "", e
				}
				next = t
				if _, ok := FS[next]; !ok && !last {
					return "", syscall.ENOENT
				}
			}
		} else if !last {
			return "", syscall.ENOENT
		}
		cur = next
		if trailing && last {
			if c, ok := FS[cur]; ok && !c.Dir {
				return "", syscall.ENOTDIR
			}
		}
	}
	return cur, 0
}

func resolveFrom(dir, name string, depth int) (string, syscall.Errno) {
	old := Cwd
	Cwd = dir
	p, e := resolve(name, true, depth)
	Cwd = old
	return p, e
}

func parent(p string) string {
	for i := len(p) - 1; i > 0; i-- {
		if p[i] == '/' {
			return p[:i]
		}
	}
	return "/"
}

func base(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[i+1:]
		}
	}
	return p
}

type info struct {
	n    *Node
	name string
}

func (n *Node) size() int64 {
	if n.Link != "" {
		return int64(len(n.Link))
	}
	if n.Size >= 0 {
		return n.Size
	}
	return int64(len(n.Data))
}

func (f *info) Name() string { return f.name }
func (f *info) Size() int64  { return f.n.size() }
func (f *info) Mode() fs.FileMode {
	m := fs.FileMode(0644)
	if f.n.Dir {
		m = fs.ModeDir | 0755
		if f.n.Deny {
			m = fs.ModeDir
		}
	}
	if f.n.Fifo {
		m = fs.ModeNamedPipe | 0644
	}
	if f.n.Link != "" {
		m = fs.ModeSymlink | 0777
	}
	return m
}
func (f *info) ModTime() time.Time { return time.Unix(f.n.Mtime, f.n.MtimeNs) }
func (f *info) IsDir() bool        { return f.n.Dir }
func (f *info) Sys() any {
	st := new(syscall.Stat_t)
	st.Ino = f.n.Ino
	st.Size = f.n.size()
	st.Mtim.Sec, st.Mtim.Nsec = f.n.Mtime, f.n.MtimeNs
	st.Ctim.Sec, st.Ctim.Nsec = f.n.Ctime, f.n.CtimeNs
	st.Atim.Sec, st.Atim.Nsec = f.n.Mtime, f.n.MtimeNs
	return st
}

func os_Lstat(name string) (os.FileInfo, error) {
	if err := before("lstat", name); err != nil {
		return nil, err
	}
	p, e := resolve(name, false, 0)
	if e != 0 {
		return nil, perr("lstat", name, e)
	}
	n, ok := FS[p]
	if !ok {
		return nil, perr("lstat", name, syscall.ENOENT)
	}
	return &info{n, base(p)}, nil
}

func os_Stat(name string) (os.FileInfo, error) {
	if err := before("stat", name); err != nil {
		return nil, err
	}
	p, e := resolve(name, true, 0)
	if e != 0 {
		return nil, perr("stat", name, e)
	}
	n, ok := FS[p]
	if !ok {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return &info{n, base(p)}, nil
}

func os_Readlink(name string) (string, error) {
	if err := before("readlink", name); err != nil {
		return "", err
	}
	p, e := resolve(name, false, 0)
	if e != 0 {
		return "", perr("readlink", name, e)
	}
	n, ok := FS[p]
	if !ok {
		return "", perr("readlink", name, syscall.ENOENT)
	}
	if n.Link == "" {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	return n.Link, nil
}

func os_Symlink(old, name string) error {
	p, e := resolve(name, false, 0)
	if e != 0 {
		return perr("symlink", name, e)
	}
	if _, ok := FS[p]; ok {
		return perr("symlink", name, syscall.EEXIST)
	}
	nextIno++
	FS[p] = newNode(Node{Link: old, Size: -1, Ino: nextIno})
	return nil
}

func os_OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if err := before("open", name); err != nil {
		return nil, err
	}
	excl := flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 // then a final link is not followed
	p, e := resolve(name, !excl, 0)
	if e != 0 {
		return nil, perr("open", name, e)
	}
	n, ok := FS[p]
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if ok {
		if excl {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.Dir && (wr || flag&os.O_CREATE != 0) {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if n.NoRead {
			return nil, perr("open", name, syscall.EACCES)
		}
		if flag&os.O_TRUNC != 0 && wr {
			n.Data, n.Ext, n.Size = nil, nil, -1
		}
	} else {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		nextIno++
		n = newNode(Node{Size: -1, Ino: nextIno})
		FS[p] = n
	}
	f := new(os.File)
	files[f] = &ofile{n: n, name: name, path: p, rd: flag&os.O_WRONLY == 0, wr: wr, app: flag&os.O_APPEND != 0, open: true}
	return f, nil
}

func os_Open(name string) (*os.File, error) { return os_OpenFile(name, os.O_RDONLY, 0) }
func os_Create(name string) (*os.File, error) {
	return os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func os_ReadFile(name string) ([]byte, error) {
	p, e := resolve(name, true, 0)
	if e != 0 {
		return nil, perr("open", name, e)
	}
	n, ok := FS[p]
	if !ok {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if n.Dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	return append([]byte{}, n.Data...), nil
}

func os_WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := os_OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	o := files[f]
	o.n.Data = append([]byte{}, data...)
	o.open = false
	return nil
}

func os_Mkdir(name string, perm os.FileMode) error {
	if err := before("mkdir", name); err != nil {
		return err
	}
	p, e := resolve(name, false, 0)
	if e != 0 {
		return perr("mkdir", name, e)
	}
	if _, ok := FS[p]; ok {
		return perr("mkdir", name, syscall.EEXIST)
	}
	nextIno++
	FS[p] = newNode(Node{Dir: true, Size: -1, Ino: nextIno, Deny: perm&0300 != 0300})
	return nil
}

func os_MkdirAll(name string, perm os.FileMode) error {
	if name == "" || name == "/" {
		return nil
	}
	if i, err := os_Stat(name); err == nil {
		if i.IsDir() {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if len(parentRaw(name)) < len(name) {
		if err := os_MkdirAll(parentRaw(name), perm); err != nil {
			return err
		}
	}
	return os_Mkdir(name, perm)
}

func parentRaw(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[:i]
		}
	}
	return ""
}

func os_MkdirTemp(dir, pattern string) (string, error) {
	fsInit()
	nextIno++
	p := "/tmp/d" + string(rune('a'+nextIno%26))
	FS[p] = newNode(Node{Dir: true, Size: -1, Ino: nextIno})
	return p, nil
}

func os_Remove(name string) error {
	if err := before("remove", name); err != nil {
		return err
	}
	p, e := resolve(name, false, 0)
	if e != 0 {
		return perr("remove", name, e)
	}
	n, ok := FS[p]
	if !ok {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.Dir {
		for q := range FS {
			if len(q) > len(p)+1 && q[:len(p)+1] == p+"/" {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	delete(FS, p)
	return nil
}

func os_RemoveAll(name string) error {
	p, e := resolve(name, false, 0)
	if e != 0 {
		return nil
	}
	var all []string
	for q := range FS {
		if q == p || (len(q) > len(p) && q[:len(p)+1] == p+"/") {
			all = append(all, q)
		}
	}
	for _, q := range all {
		if err := before("remove", q); err != nil {
			return err
		}
		delete(FS, q)
	}
	return nil
}

func os_Rename(a, b string) error {
	p, e := resolve(a, false, 0)
	if e != 0 {
		return perr("rename", a, e)
	}
	n, ok := FS[p]
	if !ok {
		return perr("rename", a, syscall.ENOENT)
	}
	q, e := resolve(b, false, 0)
	if e != 0 {
		return perr("rename", b, e)
	}
	delete(FS, p)
	FS[q] = n
	return nil
}

func os_Truncate(name string, size int64) error {
	p, e := resolve(name, true, 0)
	if e != 0 {
		return perr("truncate", name, e)
	}
	n, ok := FS[p]
	if !ok {
		return perr("truncate", name, syscall.ENOENT)
	}
	n.truncate(size)
	return nil
}

func (n *Node) truncate(size int64) {
	if !sym.IsConst(uint64(size)) || size > 1<<16 {
		n.Size = size // a sparse file: its size is modelled, not its contents
		return
	}
	n.Size = -1
	d := make([]byte, size)
	copy(d, n.Data)
	n.Data = d
}

func os_Chdir(name string) error {
	if err := before("chdir", name); err != nil {
		return err
	}
	p, e := resolve(name, true, 0)
	if e != 0 {
		return perr("chdir", name, e)
	}
	n, ok := FS[p]
	if !ok {
		return perr("chdir", name, syscall.ENOENT)
	}
	if !n.Dir {
		return perr("chdir", name, syscall.ENOTDIR)
	}
	if n.Deny {
		return perr("chdir", name, syscall.EACCES)
	}
	Cwd = p
	return nil
}

func os_Chtimes(name string, at, mt time.Time) error {
	p, e := resolve(name, true, 0)
	if e != 0 {
		return perr("chtimes", name, e)
	}
	n, ok := FS[p]
	if !ok {
		return perr("chtimes", name, syscall.ENOENT)
	}
	n.Mtime, n.MtimeNs = mt.Unix(), int64(mt.Nanosecond())
	// the status change happens now, whenever that is
	n.Ctime = int64(sym.Range("fs.ctime", 946684800, 946684800+1<<32-1))
	n.CtimeNs = int64(sym.Range("fs.ctime.ns", 0, 999999999))
	return nil
}

func os_Getwd() (string, error)            { fsInit(); return Cwd, nil }
func os_TempDir() string                   { return "/tmp" }
func os_Getenv(k string) string            { return Env[k] }
func os_LookupEnv(k string) (string, bool) { v, ok := Env[k]; return v, ok }
func os_Setenv(k, v string) error          { Env[k] = v; return nil }
func os_Unsetenv(k string) error           { delete(Env, k); return nil }

// Pid is the number of the process.
var Pid = 4711

func os_Getpid() int               { return Pid }
func os_Getuid() int               { return 1000 }
func os_Hostname() (string, error) { return "verif", nil }

func syscall_Mkfifo(path string, mode uint32) error {
	p, e := resolve(path, false, 0)
	if e != 0 {
		return e
	}
	nextIno++
	FS[p] = newNode(Node{Fifo: true, Size: -1, Ino: nextIno})
	return nil
}

// ---- open files ------------------------------------------------------------

func fileOf(f *os.File, op string) (*ofile, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	o := files[f]
	if o == nil || !o.open {
		return nil, &fs.PathError{Op: op, Path: "", Err: fs.ErrClosed}
	}
	return o, nil
}

func os_File_Name(f *os.File) string { return files[f].name }

func os_File_Close(f *os.File) error {
	o, err := fileOf(f, "close")
	if err != nil {
		return err
	}
	o.open = false
	return nil
}

func os_File_Stat(f *os.File) (os.FileInfo, error) {
	o, err := fileOf(f, "stat")
	if err != nil {
		return nil, err
	}
	return &info{o.n, base(o.path)}, nil
}

func (o *ofile) readAt(b []byte, off int64) int {
	if len(o.n.Ext) > 0 {
		n := 0
		for n < len(b) && off+int64(n) < o.n.size() {
			p := off + int64(n)
			v := uint64(0)
			for i := range o.n.Data {
				v = sym.IfU64(p == int64(i), uint64(o.n.Data[i]), v)
			}
			for _, x := range o.n.Ext {
				for i := range x.Data {
					v = sym.IfU64(p == x.Off+int64(i), uint64(x.Data[i]), v)
				}
			}
			b[n] = byte(v)
			n++
		}
		return n
	}
	if o.n.Size >= 0 {
		panic("verif: contents of a sparse file are not modelled")
	}
	if off >= int64(len(o.n.Data)) {
		return 0
	}
	return copy(b, o.n.Data[off:])
}

func os_File_Read(f *os.File, b []byte) (int, error) {
	o, err := fileOf(f, "read")
	if err != nil {
		return 0, err
	}
	if err := before("read", o.name); err != nil {
		return 0, err
	}
	if o.n.Dir {
		return 0, perr("read", o.name, syscall.EISDIR)
	}
	if !o.rd {
		return 0, perr("read", o.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := o.readAt(b, o.pos)
	if n == 0 {
		return 0, io.EOF
	}
	o.pos += int64(n)
	return n, nil
}

func os_File_ReadAt(f *os.File, b []byte, off int64) (int, error) {
	o, err := fileOf(f, "read")
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "readat", Path: o.name, Err: os.ErrInvalid}
	}
	if o.n.Dir {
		return 0, perr("read", o.name, syscall.EISDIR)
	}
	n := o.readAt(b, off)
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (o *ofile) writeAt(b []byte, off int64) {
	if len(b) == 0 {
		return // an empty write does not extend a file
	}
	end := off + int64(len(b))
	if len(o.n.Ext) > 0 || !sym.IsConst(uint64(off)) || off > 1<<16 {
		if end > o.n.size() {
			o.n.Size = end
		}
		o.n.Ext = append(o.n.Ext, Extent{off, append([]byte{}, b...)})
		return
	}
	if int64(len(o.n.Data)) < end {
		o.n.truncate(end)
	}
	copy(o.n.Data[off:], b)
}

func os_File_Write(f *os.File, b []byte) (int, error) {
	o, err := fileOf(f, "write")
	if err != nil {
		return 0, err
	}
	if err := before("write", o.name); err != nil {
		return 0, err
	}
	if !o.wr {
		return 0, perr("write", o.name, syscall.EBADF)
	}
	if o.app {
		o.pos = int64(len(o.n.Data))
	}
	o.writeAt(b, o.pos)
	o.pos += int64(len(b))
	return len(b), nil
}

func os_File_WriteString(f *os.File, s string) (int, error) { return os_File_Write(f, []byte(s)) }

func os_File_WriteAt(f *os.File, b []byte, off int64) (int, error) {
	o, err := fileOf(f, "write")
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "writeat", Path: o.name, Err: os.ErrInvalid}
	}
	if o.app {
		return 0, os.ErrInvalid
	}
	if !o.wr {
		return 0, perr("write", o.name, syscall.EBADF)
	}
	o.writeAt(b, off)
	return len(b), nil
}

func os_File_Seek(f *os.File, off int64, whence int) (int64, error) {
	o, err := fileOf(f, "seek")
	if err != nil {
		return 0, err
	}
	p := off
	if whence == 1 {
		p += o.pos
	} else if whence == 2 {
		p += o.n.size()
	}
	if p < 0 {
		return 0, perr("seek", o.name, syscall.EINVAL)
	}
	o.pos = p
	return p, nil
}

func os_File_Truncate(f *os.File, size int64) error {
	o, err := fileOf(f, "truncate")
	if err != nil {
		return err
	}
	if size < 0 {
		return perr("truncate", o.name, syscall.EINVAL)
	}
	o.n.truncate(size)
	return nil
}

func os_File_Sync(f *os.File) error { _, err := fileOf(f, "sync"); return err }

func os_File_ReadFrom(f *os.File, r io.Reader) (int64, error) {
	var n int64
	b := make([]byte, 64)
	for {
		k, err := r.Read(b)
		if k > 0 {
			os_File_Write(f, b[:k])
			n += int64(k)
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func os_File_WriteTo(f *os.File, w io.Writer) (int64, error) {
	var n int64
	b := make([]byte, 64)
	for {
		k, err := os_File_Read(f, b)
		if k > 0 {
			if _, e := w.Write(b[:k]); e != nil {
				return n, e
			}
			n += int64(k)
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func os_ReadDir(name string) ([]os.DirEntry, error) {
	p, e := resolve(name, true, 0)
	if e != 0 {
		return nil, perr("open", name, e)
	}
	var r []os.DirEntry
	for q, n := range FS {
		if q != p && parent(q) == p {
			d := fs.FileInfoToDirEntry(&info{n, base(q)})
			i := len(r)
			r = append(r, d)
			for ; i > 0 && base(q) < r[i-1].Name(); i-- {
				r[i] = r[i-1]
			}
			r[i] = d
		}
	}
	return r, nil
}

// File-system sizes: any block size up to 2^20 and any number of free blocks
// below 2^44, the same whenever asked (a file system nobody else writes to);
// or a call that fails, when the harness has asked for it by setting
// VERIF_STATFS in the environment.
var statfs struct {
	known         bool
	bsize, bavail uint64
}

func syscall_Statfs(path string, buf *syscall.Statfs_t) error {
	if Env["VERIF_STATFS"] == "fail" {
		return syscall.EACCES
	}
	if !statfs.known {
		statfs.known = true
		statfs.bsize = sym.Range("statfs.bsize", 1, 1<<20)
		statfs.bavail = sym.Range("statfs.bavail", 0, 1<<44-1)
	}
	buf.Bsize = int64(statfs.bsize)
	buf.Bavail = statfs.bavail
	buf.Bfree = statfs.bavail + 5
	buf.Blocks = statfs.bavail + 9
	return nil
}

// SetStatfs gives the size and number of the free blocks.
func SetStatfs(bsize, bavail uint64) {
	statfs.known, statfs.bsize, statfs.bavail = true, bsize, bavail
}

// StatfsKB is what Statfs reports, in units of 1024 bytes.
func StatfsKB() uint64 { return statfs.bsize * statfs.bavail / 1024 }

// Slept lists how long time.Sleep was asked to sleep.
var Slept []time.Duration

func time_Sleep(d time.Duration) {
	Slept = append(Slept, d)
	sym.Pause(int64(d))
}

// OpenFiles: how many files are open.
func OpenFiles() (n int) {
	for _, o := range files {
		if o.open {
			n++
		}
	}
	return
}
