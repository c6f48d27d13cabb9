package metadata

import (
	"syscall"

	"github.com/charlesetsmith/saratoga/zzverif/fds"
	"github.com/charlesetsmith/saratoga/zzverif/stub"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

// Describing a file leaves nothing open.
func Verif_C35_metadata() {
	sym.Bound("the metadata of a file, a directory or what is not there, with each checksum; any one of the first eight operations on it fails, or none")
	place(sym.Choose("kind", 2), sym.Bytes("content", 3))
	name := []string{"x", "y"}[sym.Choose("name", 2)]
	csum := []string{"none", "crc32", "md5", "sha1"}[sym.Choose("csum", 4)]
	before := fds.Files()
	at, n := sym.Choose("at", 9), 0
	stub.Before = func(op, path string) error {
		n++
		if n == at {
			sym.Cover("an operation fails")
			return syscall.EIO
		}
		return nil
	}
	var m MetaData
	err := build(&m, sym.Choose("how", 2), transfers[sym.Choose("transfer", 2)], csum, 1, name)
	stub.Before = nil
	sym.Assert(fds.Files() == before && fds.Socks() == 0, "describing a file leaves nothing open")
	if err == nil {
		sym.Cover("described")
	}
}
