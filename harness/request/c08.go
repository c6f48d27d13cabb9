package request

import (
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_C08_request_long() {
	sym.Bound("request: " + vh.LongBound)
	var x Request
	if x.Decode(vh.Long("frame")) == nil {
		x.Print()
		x.ShortPrint()
		sym.Cover("decoded")
	}
}
