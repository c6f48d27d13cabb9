package data

import (
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_C08_data_long() {
	sym.Bound("data: " + vh.LongBound)
	var x Data
	if x.Decode(vh.Long("frame")) == nil {
		x.Print()
		x.ShortPrint()
		sym.Cover("decoded")
	}
}
