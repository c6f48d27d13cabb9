package trans

import (
	"syscall"

	"github.com/charlesetsmith/saratoga/zzverif/stub"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

func Verif_C24_undeletable() {
	sym.Bound("one request with any header and session for a file, an empty directory or nothing, where removals fail for one of six reasons")
	s := sardir()
	Transfers = nil
	why := []syscall.Errno{syscall.EACCES, syscall.EPERM, syscall.EBUSY, syscall.EIO, syscall.EROFS, syscall.ENOENT}[sym.Choose("error", 6)]
	stub.Before = func(op, name string) error {
		if op == "remove" || op == "unlink" || op == "rmdir" {
			return why
		}
		return nil
	}
	k := sym.Choose("name", 3)
	c24request([]string{"f", "d", "x"}[k], "r.", k != 2, false, s, c24from(0))
	stub.Before = nil
}
