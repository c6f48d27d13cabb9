package dirent

import (
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_C08_dirent_long() {
	sym.Bound("directory entries: " + vh.LongBound)
	var x DirEnt
	if x.Decode(vh.Long("frame")) == nil {
		x.Print()
		x.ShortPrint()
		sym.Cover("decoded")
	}
}
