#!/usr/bin/env python3
# Regenerates the per-property table of DESIGN.md: how each property is decided
# (written here) and the bounds (from the sym.Bound texts, through MANIFEST.json).
import json, os, re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW={
"C01":"arbitrary Data value → real Encode → real Decode → compare; refusal iff the offset does not fit (independent predicate)",
"C02":"arbitrary Status value → Encode → Decode → compare; refusal iff some value does not fit",
"C03":"arbitrary MetaData value → Encode → Decode → compare; refusal iff the checksum length, size or path cannot be carried",
"C04":"arbitrary Request → Encode → Decode → compare; refusal iff NUL in the name",
"C05":"arbitrary Beacon → Encode → Decode → compare; refusal iff the free space does not fit",
"C06":"arbitrary DirEnt → Encode → Decode → compare; refusal iff size/path cannot be carried; the 1024 limit itself",
"C07":"arbitrary instant × type → New → Put → Get → Secs/Nanos compared with the epoch arithmetic of an independent oracle",
"C08":"arbitrary bytes of every length within the bound into each decoder; any panic, exit or overrun is a violation; then Print/ShortPrint",
"C09":"decode into a structure holding arbitrary earlier values and into a fresh one: equal; overwrite the receive buffer: unchanged; decode again into the same structure: what was handed on is unchanged",
"C10":"independent encoder in the harness (vh.Be…) against the real Encode on all field values, and the real Decode on independently laid out bytes",
"C11":"all header values × fields × options; the solver compares with the bit algebra of the flag table as read independently from saratoga.json",
"C12":"flag strings over the whole table plus malformed ones, and arbitrary headers: result compared field by field with the oracle (vh.HSet)",
"C13":"symbolic ranges: result of Add/Getholes compared pointwise at an arbitrary byte position (a symbolic variable); sortedness, disjointness, non-adjacency",
"C14":"a transfer with symbolic holes, MTU, descriptor and flags → real WriteStatus over the stub network; the datagrams are decoded by the harness's own decoder and put together again",
"C15":"symbolic sequences of beacons from symbolic peers through NewPeer; table compared with a map oracle; concurrent NewPeers under symbolic schedules",
"C16":"symbolic session numbers and transfer tables, several transfers started in turn and concurrently; the table must hold no duplicates and what was asked for",
"C17":"symbolic transfer tables; Lookup, Match, Remove compared with the first match of an oracle; removal concurrent with starting, listing and removing (happens-before and schedules)",
"C18":"every command word of the configuration with argument lists from the words of the whole table plus arbitrary short words and lines → real Run; settings compared before and after with the setting the usage text names",
"C19":"arbitrary settings → copy → compare; then each side is mutated",
"C20":"flag strings from the table in any order; results compared with a map oracle",
"C21":"configuration documents with symbolic leaves through the real ReadConfig; every setting compared with the leaf",
"C22":"file system model with symbolic contents and positions; outcome compared with the model's state before and after",
"C23":"arbitrary names through every fileio entry point; the model records every path handed to the operating system",
"C24":"arbitrary request × file system state × fault → real AddRxTran; the status on the channel, the Transfers table and the file system compared with the oracle's outcome",
"C25":"the real main() (stub gocui and network): datagrams from arbitrary bytes and all pairs of kinds injected on both sockets, then a beacon and a request must be served; schedules symbolic at synchronisation",
"C26":"arbitrary sizes, supplied or measured (Statfs stub), compared with the descriptor's range; Encode must accept",
"C27":"model files of arbitrary size/times/contents; checksums compared with an independent call of the hash",
"C28":"arbitrary frames × connected/unconnected socket → real Send over the stub network: exactly one datagram, its bytes equal to Encode's, to the addressee",
"C29":"the real beacon command over the stub network and clock: datagrams, addressees, order, decoded contents and pauses compared with what settings and arguments ask for",
"C30":"the real listener over the stub network: frames on the channels and datagrams sent compared with the harness's own classification of each datagram",
"C31":"the real main() or the command interpreter; pairs of events run, every access of the repository's code recorded with vector clocks; an unordered conflicting pair is a violation (re-executed deterministically)",
"C32":"the real gocui main loop, views and editor (only termbox and the drawing of frames are stubs) with the real Layout, key bindings and commands; keys, characters and terminal sizes symbolic; an editor model in the harness is the oracle",
"C33":"the real command interpreter, gocui and windows; symbolic settings, transfers and peers; the lines that are then in the windows are read back and compared with the state (numbers and names printed digit by digit stay symbolic), and texts of two symbolic values with each other",
"C34":"the real main() with the real gocui over a stub terminal and file system; each thing missing at start a symbolic choice, keys and arguments symbolic; the status given to os.Exit and the state of the stub terminal at that moment",
"C35":"symbolic sequences of commands and faults through the real command interpreter; after each, the model's open sockets and files (natively those of /proc/self/fd) are compared with what the transfers in the table hold"
}
m=json.load(open(here+"/MANIFEST.json"))
rows=["| id | how it is decided | bounds (quick; thorough where larger) |","|---|---|---|"]
for c in m["checks"]:
    b=re.sub(r"^Decided by the solver for every value within these bounds, nothing outside them: ","",c["level_note"])
    b=b[:b.rindex(". Trusts the SSA")]
    rows.append("| %s | %s | %s |"%(c["property"],HOW[c["property"]],b.replace("|","\\|")))
p=here+"/DESIGN.md"; s=open(p).read()
a,z="<!-- table -->\n","<!-- /table -->\n"
s=s[:s.index(a)+len(a)]+"\n".join(rows)+"\n"+s[s.index(z):]
open(p,"w").write(s)
