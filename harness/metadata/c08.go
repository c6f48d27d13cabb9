package metadata

import (
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_C08_metadata_long() {
	sym.Bound("metadata: " + vh.LongBound)
	var x MetaData
	if x.Decode(vh.Long("frame")) == nil {
		x.Print()
		x.ShortPrint()
		sym.Cover("decoded")
	}
}
