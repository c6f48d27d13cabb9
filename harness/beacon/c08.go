package beacon

import (
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_C08_beacon_long() {
	sym.Bound("beacon: " + vh.LongBound)
	var x Beacon
	if x.Decode(vh.Long("frame")) == nil {
		x.Print()
		x.ShortPrint()
		sym.Cover("decoded")
	}
}
