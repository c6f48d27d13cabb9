package sarflags

import (
	"os"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

var setupErr error

func Verif_Setup() {
	if err := os.WriteFile("saratoga.json", sym.RepoFile("saratoga/saratoga.json"), 0644); err != nil {
		panic(err)
	}
	c := new(Cliflags)
	setupErr = c.ReadConfig("saratoga.json") // C21 says what must come of it
	Cliflag = c
}

// The header fields of the protocol: first bit, number of bits, options.
type opt struct {
	name string
	val  uint32
}
type field struct {
	name     string
	msb, len uint32
	opts     []opt
}

var fields = []field{
	{"version", 0, 3, []opt{{"v0", 0}, {"v1", 1}}},
	{"frametype", 3, 5, []opt{{"beacon", 0}, {"request", 1}, {"metadata", 2}, {"data", 3}, {"status", 4}}},
	{"descriptor", 8, 2, []opt{{"d16", 0}, {"d32", 1}, {"d64", 2}, {"d128", 3}}},
	{"stream", 11, 1, []opt{{"no", 0}, {"yes", 1}}},
	{"transfer", 10, 2, []opt{{"file", 0}, {"directory", 1}, {"bundle", 2}, {"stream", 3}}},
	{"reqtstamp", 12, 1, []opt{{"no", 0}, {"yes", 1}}},
	{"progress", 12, 1, []opt{{"inprogress", 0}, {"terminated", 1}}},
	{"txwilling", 12, 2, []opt{{"no", 0}, {"invalid", 1}, {"capable", 2}, {"yes", 3}}},
	{"metadatarecvd", 13, 1, []opt{{"yes", 0}, {"no", 1}}},
	{"allholes", 14, 1, []opt{{"yes", 0}, {"no", 1}}},
	{"reqtype", 24, 8, []opt{{"noaction", 0}, {"get", 1}, {"put", 2}, {"take", 3}, {"give", 4}, {"delete", 5}, {"getdir", 6}}},
	{"rxwilling", 14, 2, []opt{{"no", 0}, {"invalid", 1}, {"capable", 2}, {"yes", 3}}},
	{"reqholes", 15, 1, []opt{{"requested", 0}, {"voluntarily", 1}}},
	{"reqstatus", 15, 1, []opt{{"no", 0}, {"yes", 1}}},
	{"udplite", 16, 1, []opt{{"no", 0}, {"yes", 1}}},
	{"eod", 16, 1, []opt{{"no", 0}, {"yes", 1}}},
	{"freespace", 17, 1, []opt{{"no", 0}, {"yes", 1}}},
	{"freespaced", 18, 2, []opt{{"d16", 0}, {"d32", 1}, {"d64", 2}, {"d128", 3}}},
	{"csumlen", 24, 4, []opt{{"none", 0}, {"crc32", 1}, {"invalid2", 2}, {"invalid3", 3}, {"md5", 4}, {"sha1", 5}}},
	{"csumtype", 28, 4, []opt{{"none", 0}, {"crc32", 1}, {"md5", 2}, {"sha1", 3}}},
	{"reliability", 13, 1, []opt{{"udponly", 0}, {"udplite", 1}}},
	{"errcode", 24, 8, []opt{{"success", 0}, {"unspecified", 1}, {"cantsend", 2}, {"cantreceive", 3}, {"filenotfound", 4}, {"accessdenied", 5}, {"unknownid", 6}, {"didnotdelete", 7}, {"filetobig", 8}, {"badoffset", 9}, {"badpacket", 10}, {"badrequest", 11}, {"internaltimeout", 12}, {"baddataflag", 13}, {"rxnotinterested", 14}, {"fileinuse", 15}, {"metadatarequired", 16}, {"badstatus", 17}, {"rxtimeout", 18}}},
}

// Directory entry fields.
var dfields = []field{
	{"sod", 0, 1, []opt{{"sod", 1}}},
	{"property", 6, 2, []opt{{"normalfile", 0}, {"normaldirectory", 1}, {"specialfile", 2}, {"specialdirectory", 3}}},
	{"descriptor", 8, 2, []opt{{"d16", 0}, {"d32", 1}, {"d64", 2}, {"d128", 3}}},
	{"reserved", 10, 1, []opt{{"reserved", 0}}},
}

// Timestamp types.
var ttypes = []opt{{"localinterp", 0}, {"posix32", 1}, {"posix64", 2}, {"posix32_32", 3}, {"posix64_32", 4}, {"epoch2000_32", 5}}

// The fields of each frame type.
var frames = map[string][]string{
	"beacon":   {"version", "frametype", "descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace", "freespaced"},
	"request":  {"version", "frametype", "descriptor", "stream", "txwilling", "rxwilling", "reqtype", "udplite"},
	"metadata": {"version", "frametype", "descriptor", "transfer", "progress", "reliability", "csumlen", "csumtype"},
	"data":     {"version", "frametype", "descriptor", "transfer", "reqtstamp", "reqstatus", "eod"},
	"status":   {"version", "frametype", "descriptor", "reqtstamp", "metadatarecvd", "allholes", "reqholes", "errcode"},
}

var frameNames = []string{"beacon", "request", "metadata", "data", "status"}
