#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the single place where the properties are written down).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))
p("C01","Data frames survive the wire unchanged, or are refused",
  "Every data frame whose offset fits its descriptor (16, 32 or 64 bits) encodes without error, and decoding the result gives back exactly the same header, session, timestamp (when one is carried), offset and payload, the empty payload included. A data frame whose offset does not fit its descriptor, or whose descriptor is unsupported, is refused by the encoder with an error: it is never sent truncated.",
  ["inputs"],"all headers, sessions, offsets, timestamps of every type and payload bytes (payload length bounded)",
  "The existing test encodes one frame; the failing combinations (offset just past the descriptor, timestamp plus empty payload) are single points in a 2^100 space.",
  ["data/data.go","timestamp/timestamp.go"],[("Data.Encode","data/data.go"),("Data.Decode","data/data.go"),("Timestamp.Put/Get","timestamp/timestamp.go")],obs=["Encode/Decode results"])
p("C02","Status frames survive the wire unchanged, or are refused",
  "Every status frame whose progress, in-response-to and hole bounds all fit its descriptor encodes without error, and decoding the result gives back exactly the same header, session, timestamp (when one is carried), progress, in-response-to and list of holes in order. A status frame holding a value that does not fit its descriptor, or with an unsupported descriptor, is refused with an error instead of being truncated.",
  ["inputs"],"all headers, sessions, progress/in-response-to values, timestamps and hole lists (hole count bounded)",
  "The existing test prints one frame with two holes; it never decodes and never carries a timestamp.",
  ["status/status.go","holes/holes.go","timestamp/timestamp.go"],[("Status.Encode","status/status.go"),("Status.Decode","status/status.go")],obs=["Encode/Decode results"])
p("C03","Metadata frames survive the wire unchanged, or are refused",
  "Every metadata frame whose checksum length matches the length announced in its header and whose file size fits its directory entry's descriptor encodes without error, and decoding gives back the same header, session, checksum bytes and directory entry (flags, size, modification and creation times, path). A metadata frame that cannot be represented is refused with an error, never sent without its directory entry or with a checksum of another length than announced.",
  ["inputs"],"all headers, sessions, checksum bytes, directory entries (path length bounded)",
  "The existing metadata test cannot even start at the pinned commit; no test compares a decoded metadata frame with the original.",
  ["metadata/metadata.go","dirent/dirent.go"],[("MetaData.Encode","metadata/metadata.go"),("MetaData.Decode","metadata/metadata.go")],obs=["Encode/Decode results"])
p("C04","Request frames survive the wire unchanged",
  "Every request frame whose file name contains no NUL byte encodes without error, and decoding the result gives back exactly the same header, session, file name (byte for byte, whatever its characters) and authentication bytes. A file name that the frame cannot carry unambiguously (it contains a NUL) is refused with an error.",
  ["inputs"],"all headers, sessions, file names and authentication fields (lengths bounded)",
  "The existing request test cannot pass at the pinned commit and uses one ASCII file name; non-ASCII bytes and authentication fields are never exercised.",
  ["request/request.go"],[("Request.Encode","request/request.go"),("Request.Decode","request/request.go")],obs=["Encode/Decode results"])
p("C05","Beacons survive the wire unchanged, or are refused",
  "Every beacon whose advertised free space fits its free-space descriptor encodes without error, and decoding the result gives back the same header, free space (zero when none is advertised) and endpoint identifier. A beacon whose free space does not fit its free-space descriptor is refused with an error instead of advertising a truncated value.",
  ["inputs"],"all headers, free-space values and endpoint identifiers (length bounded)",
  "No beacon test exists; the truncation only shows for particular descriptor/value pairs.",
  ["beacon/beacon.go"],[("Beacon.Encode","beacon/beacon.go"),("Beacon.Decode","beacon/beacon.go")],obs=["Encode/Decode results"])
p("C06","Directory entries survive the wire unchanged, or are refused",
  "Every directory entry whose size fits its descriptor (16, 32 or 64 bits) and whose path is at most 1024 bytes without a NUL encodes without error, and decoding gives back the same flags, size, modification time, creation time and path, byte for byte. An entry whose size does not fit its descriptor, whose path is too long or contains a NUL, or whose descriptor is unsupported is refused with an error.",
  ["inputs"],"all entry headers, sizes, times and paths (path length bounded, plus the 1024-byte limit itself)",
  "No test decodes a directory entry; sizes above 4 GiB and non-ASCII paths are never tried.",
  ["dirent/dirent.go"],[("DirEnt.Encode","dirent/dirent.go"),("DirEnt.Decode","dirent/dirent.go")],obs=["Encode/Decode results"])
p("C07","Timestamps of every type carry the instant they were made from",
  "For each timestamp type and every instant that type can represent, making a timestamp, putting it on the wire and reading it back preserves the type, the whole seconds and (for the types that have them) the nanoseconds, and the seconds reported are those of the instant in that type's epoch. An instant the type cannot represent is refused with an error rather than wrapped.",
  ["inputs"],"all six timestamp types and all instants (seconds and nanoseconds symbolic)",
  "The existing test prints one timestamp of the current time.",
  ["timestamp/timestamp.go","sarflags/sarflags.go"],[("Timestamp.New","timestamp/timestamp.go"),("Timestamp.Put","timestamp/timestamp.go"),("Timestamp.Get","timestamp/timestamp.go")],obs=["Put/Get/Secs/Print"])
p("C08","No byte sequence can crash a decoder",
  "For every byte sequence, of any length including empty, decoding it as a beacon, request, metadata, data or status frame, as a directory entry or as a timestamp returns (a value or an error): it never panics, never hangs and never ends the process. Whatever was decoded successfully can also be printed, in full and in short form, without crashing or ending the process.",
  ["inputs"],"all byte sequences up to the length bound, for all seven decoders",
  "Tests only feed well-formed frames; every crash needs a truncated frame or a flag combination no encoder of ours produces.",
  ["data/data.go","status/status.go","metadata/metadata.go","request/request.go","beacon/beacon.go","dirent/dirent.go","timestamp/timestamp.go","sarflags/sarflags.go"],
  [("length checks in Decode/Get","*/*.go"),("GetStr/GetDStr/GetTStr","sarflags/sarflags.go")],obs=["process exit, panics"])
p("C09","A decoded frame depends on the received bytes alone",
  "Decoding a frame into a structure that already holds another decoded frame gives exactly the result of decoding it into a fresh structure: nothing of the earlier frame (holes, names, payload, checksum, authentication, free space) leaks into it. The decoded value also keeps no reference to the receive buffer: overwriting that buffer afterwards changes nothing. Nor does decoding into a structure again alter what was decoded into it earlier and handed on (payload, holes, checksum, authentication).",
  ["inputs","histories"],"all pairs of decodable frames up to the length bound, for every frame type",
  "A test would need to reuse a structure with the right pair of frames; existing tests never decode at all.",
  ["data/data.go","status/status.go","metadata/metadata.go","request/request.go","beacon/beacon.go","dirent/dirent.go"],[("Decode methods","*/*.go")],obs=["decoded structures"])
p("C10","Frames have the wire layout of the protocol",
  "Every encoded frame is, byte for byte, the layout the protocol defines: the 32-bit flags word, the session, then each field big-endian in its defined order and width (timestamp 16 bytes, descriptor-sized integers of 2, 4 or 8 bytes, NUL-terminated names, checksum of the announced number of words), with nothing missing and nothing added. Conversely a frame laid out that way by another implementation is decoded into the values it carries.",
  ["inputs"],"all field values of all five frame types, directory entries and timestamps within the length bounds",
  "Round-trip tests cannot see an error made the same way in both directions; this needs an independent encoder and all inputs.",
  ["data/data.go","status/status.go","metadata/metadata.go","request/request.go","beacon/beacon.go","dirent/dirent.go","timestamp/timestamp.go"],[("Encode/Decode/Put/Get","*/*.go")],obs=["wire bytes"])
p("C11","Header flag fields are independent and read back as set",
  "For every header value, setting a field to one of its named options and reading the field gives that option, by number and by name, and changes no bit outside that field; setting a field or option that does not exist is refused with an error and leaves the header unchanged. This holds for frame headers, directory-entry headers and timestamp headers, and the fields used by one frame type never overlap.",
  ["inputs","configurations"],"all 2^32 / 2^16 / 2^8 header values, all fields and options of the shipped configuration",
  "Unit tests sample a few headers; the property is over all header values and all field pairs.",
  ["sarflags/sarflags.go","saratoga/saratoga.json"],[("Set/Get/GetStr/Name","sarflags/sarflags.go"),("SetD/GetD/GetDStr","sarflags/sarflags.go"),("SetT/GetT/GetTStr","sarflags/sarflags.go")],obs=["Set/Get/GetStr results"])
p("C12","Frames are built exactly as described by the flags given",
  "Building a frame from a flag string or from a header yields version 1 and that frame's type (unless the flags themselves name another), every named flag with the named option, no other bit of that frame's fields changed (naming a beacon's free-space descriptor also asks for free space; that descriptor and a metadata frame's checksum length are chosen to match, see C26 and C27), and exactly the session, offsets, names, payload, authentication and holes supplied, copied rather than shared. A flag string naming an unknown flag, an unknown option, with no option or with two makes the build return an error; it never panics or ends the process.",
  ["inputs","configurations"],"all flag/option combinations of the frame type, all headers, all supplied field values (lengths bounded), malformed flag strings up to the length bound",
  "Tests use one valid flag string per frame type; most combinations and all malformed strings are untested.",
  ["data/data.go","status/status.go","request/request.go","beacon/beacon.go","metadata/metadata.go"],[("New","*/*.go"),("Make","*/*.go")],obs=["frame structures"])
p("C13","Received-data tracking is exact",
  "After any sequence of received ranges, the recorded fills are sorted, disjoint, non-adjacent and cover exactly the bytes received; the holes reported are exactly the maximal missing ranges between the start of the file and the last byte received, no more and no less. Empty or inverted ranges change nothing.",
  ["inputs","histories"],"every valid prior state (up to the size bound) and every added range; one inductive step covers histories of any length",
  "Tests would sample a few sequences; overlap/adjacency cases combine with position in the list.",
  ["holes/holes.go"],[("Holes.Add","holes/holes.go"),("Holes.Getholes","holes/holes.go")],obs=["Add/Getholes results"])
p("C14","Status reports tell the peer every hole, once, within the MTU",
  "When a receiver reports its holes, the status frames sent for it together carry every current hole exactly once and in order, each with the transfer's session, progress and in-response-to values and the requested flags, and is marked as holding all holes exactly when it is the only one; no more frames are sent than carry holes. Every frame sent fits the path MTU with the longest IPv4 header and the UDP header, and a status is sent even when there are no holes.",
  ["inputs"],"all fill states up to the size bound, MTUs that force splitting, all descriptors",
  "No test sends a status; splitting only happens with more holes than fit one frame.",
  ["sarwin/sarwin.go","status/status.go","holes/holes.go"],[("Transfer.WriteStatus","sarwin/sarwin.go")],obs=["frames written to the connection"])
p("C15","The peer table mirrors the latest beacon of each peer",
  "After any sequence of beacons, also when handled concurrently, the peer table holds exactly one entry per source IP address, with the free space, identifier, descriptor and willingness of that address's latest beacon; other peers' entries are untouched. An entry keeps the time its peer was first heard, and the time it last changed. Handling a beacon reports a change exactly when the peer is new or one of those values differs.",
  ["inputs","histories","schedules"],"all beacon contents and addresses, sequences up to the bound, all interleavings of two handlers within the preemption bound",
  "Tests never call the peer table; duplicates need a particular interleaving or address reuse.",
  ["beacon/beacon.go"],[("NewPeer","beacon/beacon.go")],state=[("Peers","known peers","beacon/beacon.go")],obs=["Peers after each call"])
p("C16","Starting transfers never duplicates or reuses an identity",
  "Two transfers started by this node never share a session number, even when they are started concurrently, and starting a transfer that is already in progress to the same peer for the same file and type is refused without adding a second entry. A transfer that could not be started leaves no entry behind.",
  ["inputs","histories","schedules"],"all peers/types/names within bounds, all interleavings of two starters within the preemption bound, dial failure or success",
  "Uniqueness under concurrency depends on the schedule; no test starts a transfer.",
  ["sarwin/sarwin.go"],[("NewInitiator","sarwin/sarwin.go"),("newsession","sarwin/sarwin.go")],state=[("Transfers","transfers in progress","sarwin/sarwin.go")],obs=["Transfers"])
p("C17","Transfer lookup, match and removal act on the right transfer",
  "Looking up a transfer by direction, session and peer, or matching it by peer and session, finds it exactly when such a transfer is in progress and gives access to that transfer itself. Removing a transfer removes that one and only that one, whatever other transfers are removed, started or listed at the same time, leaving every other transfer in place and in order, and removing one that is not there is reported as an error and changes nothing.",
  ["inputs","histories"],"all transfer tables up to the size bound with symbolic sessions, peers and directions",
  "Needs several concurrent transfers and all positions in the table; nothing tests it.",
  ["sarwin/sarwin.go"],[("Lookup","sarwin/sarwin.go"),("Match","sarwin/sarwin.go"),("Transfer.Remove","sarwin/sarwin.go")],state=[("Transfers","transfers in progress","sarwin/sarwin.go")],obs=["Transfers, returned pointer"])
p("C18","Command lines never crash the node or leave it with invalid settings",
  "For every command line typed, the node neither crashes nor exits (except for the exit commands), and afterwards every global frame flag still holds an option that is valid for that flag, so the frames built from the settings still build. A recognised setting command sets exactly that setting to the value named; a malformed one changes no setting. Commands keep working after any line.",
  ["inputs","histories"],"all command words of the configuration with all argument combinations up to the bound, plus arbitrary short lines",
  "No test drives the command interpreter.",
  ["sarwin/sarwin.go","sarflags/sarflags.go"],[("Run and cmd*","sarwin/sarwin.go")],state=[("Cliflag","current settings","sarflags/sarflags.go")],obs=["settings after Run"])
p("C19","A settings snapshot is complete and independent",
  "Copying the settings for a transfer gives a snapshot equal to the original in every setting (multicast addresses, port, timestamp, all timeouts and counters, directories, buffer size, beacon count and every global flag). Later changes to either never show in the other.",
  ["inputs"],"all values of every setting (strings of bounded length) and all later changes",
  "Nothing tests the copy; a missing or crossed field needs distinct values in each field.",
  ["sarflags/sarflags.go"],[("Cliflags.CopyCliflags","sarflags/sarflags.go")],obs=["returned snapshot"])
p("C20","Flag strings keep their meaning when edited",
  "Adding an absent flag to, replacing a flag in and reading a flag from a flag string behave as on a map from flag to option: a replaced or added flag reads back as the new option, every other flag keeps its option and order, no flag appears twice, reading an absent flag gives the empty string, and a replacement with an invalid option leaves every other flag alone. The flags taken from the global settings for a frame type are exactly the settings applicable to that type, and an invalid flag or option is never introduced.",
  ["inputs","configurations"],"all valid flag strings up to the bound, all flag/option pairs, malformed strings up to the length bound",
  "Tests never call these functions.",
  ["sarflags/sarflags.go"],[("AddFlag/ReplaceFlag/FlagValue/Setglobal","sarflags/sarflags.go")],obs=["returned strings"])
p("C21","Configuration is loaded completely or refused",
  "Reading a configuration file puts every setting, timeout, command, flag, directory flag and timestamp definition it contains into effect exactly, with the environment's directory taking precedence over the file's. A file that is missing, not valid JSON, of the wrong shape (a value of another JSON type than the setting takes), or whose default flags are not valid options is refused with an error; it never panics.",
  ["configurations","inputs"],"all values of every setting in a well-formed file (symbolic numbers and strings), and each setting with a wrong JSON type or an invalid option",
  "Tests only load the shipped file.",
  ["sarflags/sarflags.go","saratoga/saratoga.json"],[("Cliflags.ReadConfig","sarflags/sarflags.go")],obs=["Cliflags, Flags, Frameflags, DirentFlags, TimeStamps, Commands, GTimeout"])
p("C22","Local files are opened, read and written exactly as the transfer asks",
  "Opening a file to receive into it succeeds only when no such file exists in the working directory and never alters an existing file; a directory made to receive into can be received into; opening a file to send succeeds exactly when it exists there. Writing bytes at a position and reading that position back gives those bytes and leaves all other bytes alone, a position past the largest file offset is refused, closing an open file ends its use, and deleting one removes exactly that file. A read, write or deletion the file system refuses is reported as an error.",
  ["inputs","histories","fault_sequences"],"all file names of a bounded file system, all positions, contents and lengths within bounds",
  "The existing file test fails at baseline and tries a few names.",
  ["fileio/fileio.go"],[("FileOpen/FileExists","fileio/fileio.go"),("FileRead/FileWrite/FileSeek","fileio/fileio.go"),("FileDelete/FileRm","fileio/fileio.go")],obs=["file system"])
p("C23","A remote peer cannot reach files outside the working directory",
  "Whatever file name a request or a local command supplies, no file or directory outside the configured working directory is ever opened, created, deleted or reported as existing, and the working directory itself is not removed (links that the local administrator placed inside the directory excepted). Names that stay inside the directory keep working.",
  ["inputs"],"all file names up to the length bound",
  "Tests use ordinary names; escaping needs names built for it.",
  ["fileio/fileio.go","trans/trans.go"],[("path construction in FileExists/FileOpen/FileRm/FileMeta","fileio/fileio.go")],obs=["paths handed to the operating system"])
p("C24","Every request gets exactly one truthful answer",
  "For every request received, exactly one status goes back to the sender's address with the request's session and the error code that describes the outcome: success if and only if the request was carried out, and otherwise the code for the reason (bad request, cannot receive, cannot send, file not found, file in use, did not delete). A transfer is recorded exactly when a get/put-type request succeeds, with the request's peer, session, type and file name, and only a delete request that succeeds removes a file.",
  ["inputs","fault_sequences"],"all request headers, sessions, names and file-system states within bounds, success or failure of the removal",
  "No test covers request handling; the outcomes depend on the cross product of flags, file state and faults.",
  ["trans/trans.go","request/request.go","status/status.go"],[("AddRxTran","trans/trans.go")],state=[("Transfers","accepted transfers","trans/trans.go")],obs=["status on the transmit channel, Transfers, file system"])
p("C25","The running node survives every datagram and keeps serving",
  "Whatever datagrams arrive, in whatever order and on either socket, the running node does not crash, exit or stop: a well-formed beacon that arrives afterwards is still put in the peer table and a well-formed request is still answered. Datagrams that are too short, too long, of another version or of an unknown type change nothing.",
  ["inputs","histories","schedules"],"all datagrams up to the length bound, two per history, on both sockets, all schedules of listener and main loop within the bound",
  "No test runs the node; the deadlock and exits need particular datagrams and schedules.",
  ["saratoga/saratoga.go","trans/trans.go","beacon/beacon.go"],[("listen","saratoga/saratoga.go"),("main select loop","saratoga/saratoga.go")],obs=["peer table, transfers, process exit"])
p("C26","Advertised sizes always fit the descriptor chosen for them",
  "A beacon built with free space to advertise carries exactly that free space, with a free-space descriptor large enough for it, whether the value is supplied or measured from the file system; when free space is not advertised it is zero. A metadata frame built for a file chooses a directory-entry descriptor large enough for the file's size, so the frame always encodes.",
  ["inputs"],"all free-space values and file sizes, measured or supplied",
  "Boundary values at 2^16 and 2^32 are never tried.",
  ["beacon/beacon.go","metadata/metadata.go"],[("Beacon.New/Make","beacon/beacon.go"),("statfile descriptor choice","metadata/metadata.go")],obs=["frame structures, Encode"])
p("C27","Metadata describes the file it was built from",
  "A metadata frame built for a file carries that file's size, modification time, creation time and path, the property of its kind (file, directory or stream), the requested checksum type with the matching checksum length, and the checksum of the file's whole contents under that algorithm. A file of another kind than the requested transfer, a missing file, or a checksum on a stream is refused with an error.",
  ["inputs","fault_sequences"],"all file contents up to the bound, sizes, times and kinds; all checksum types and transfer kinds",
  "The existing test fails at baseline; it would check one file.",
  ["metadata/metadata.go","dirent/dirent.go","fileio/checksum.go","fileio/fileio.go"],[("MetaData.New/Make","metadata/metadata.go"),("Checksum","fileio/checksum.go"),("DirEnt.New/Statfile","dirent/dirent.go")],obs=["frame structures"])
p("C28","What is sent is the frame's encoding, to its addressee",
  "Sending a frame of any kind (beacon, request, metadata, data, status) puts exactly one datagram on the wire whose contents are the frame's encoding, addressed to the peer given, whether the socket used is connected to that peer or not. A frame that cannot be encoded is reported as an error and nothing is sent; sending again sends the same again.",
  ["inputs"],"all frames within the size bounds, over connected and unconnected sockets",
  "Nothing tests sending; it fails on one of the two kinds of socket only.",
  ["beacon/beacon.go","request/request.go","metadata/metadata.go","data/data.go","status/status.go"],[("Beacon.Send/Request.Send/MetaData.Send/Data.Send/Status.Send","*/*.go")],obs=["datagrams received by the addressee and by others"])
p("C29","The beacon command sends what the settings ask for, to whom it names",
  "The beacon command sends to each valid address it is given (or to the IPv4 or IPv6 multicast group of the settings), in the order given, exactly bcount beacons to the Saratoga port with a pause of the set interval after each; each is a version 1 beacon with the flags of the settings, the free space there is exactly when the setting says so, and an identifier made of the local address and the process id. Without an address, for help, or with off nothing is sent; an invalid address or one that cannot be reached does not keep the others from their beacons, and the next command is carried out.",
  ["inputs","fault_sequences","histories"],"up to three addresses of every kind, every short address text, all settings of the beacon's flags, counts 0 to 3, all intervals, failures to dial and to send at any beacon",
  "No test runs a command; the outcome depends on argument lists, settings and faults together.",
  ["sarwin/sarwin.go","beacon/beacon.go","sarnet/sarnet.go"],[("cmdBeacon/sendbeacons","sarwin/sarwin.go"),("UDPAddress","sarnet/sarnet.go")],obs=["datagrams on the wire, time between them"])
p("C30","The listener hands up exactly the well-formed frames and answers the others",
  "Every datagram of 8 bytes up to the link's frame size that is a well-formed frame of version 1 is handed up by the listener exactly once, in the order of arrival, as the frame it encodes and with its sender's address, whatever arrives before or after it. Data, metadata and status frames that do not decode are answered, once, with a bad-packet status to the sender that has the session of the frame and no progress and that can be sent; frames of another version with one of session zero. Beacons and requests that do not decode, unknown types and datagrams too short or too long are neither handed up nor answered.",
  ["inputs","histories"],"all datagrams up to the length bound and at the size limits, alone or among others, on both sockets",
  "No test runs the listener; the answers differ by frame type, length and descriptor.",
  ["saratoga/saratoga.go","data/data.go","metadata/metadata.go","status/status.go","request/request.go","beacon/beacon.go"],[("listen/send","saratoga/saratoga.go")],obs=["frames on the receive and transmit channels, datagrams on the wire"])
p("C31","Commands and frames handled at the same time never race",
  "Commands typed, the goroutines they start, frames that arrive and what is printed run at the same time, and no two of them ever access the same memory (settings, transfers, peers, session numbers, beacon settings, command history, the contents of frames, the windows and what is in them) without synchronisation between them where one of them writes it.",
  ["inputs","histories","schedules"],"all pairs of commands and frames of the lists, in both orders and from both kinds of state, every access by the repository's code, by happens-before",
  "A race needs a pair of events and shows only under some schedules; no test runs two events.",
  ["sarwin/sarwin.go","saratoga/saratoga.go","beacon/beacon.go","sarflags/sarflags.go"],[("cmd*","sarwin/sarwin.go"),("NewPeer","beacon/beacon.go"),("CopyCliflags","sarflags/sarflags.go"),("main","saratoga/saratoga.go")],state=[("Transfers","transfers in progress","sarwin/sarwin.go"),("Peers","peers","beacon/beacon.go"),("Cliflag","settings","sarflags/sarflags.go")],obs=["memory accesses and the synchronisation between them"])
p("C32","What is typed at the prompt is what is run, and no key or window size ends the node",
  "Whatever keys are pressed (characters, backspace, delete, left, right, insert) a line entered at the prompt runs exactly the text that editing leaves behind the prompt, once, also when it is longer than the window is wide; afterwards there is a new prompt on the last line with the cursor behind it. The prompts cannot be erased. No sequence of keys other than ctrl-C and no resize of the terminal, in any of the windows, ends the node, and ctrl-space comes back to the command window.",
  ["inputs","histories"],"all sequences of 4 keys in one line, commands of 1..60 bytes followed by others, any 3 keys in any windows, any terminal size up to 1000 x 1000",
  "The line that is run depends on the whole sequence of keys, on the window's width and on the lines before it.",
  ["sarwin/sarwin.go"],[("GetLine","sarwin/sarwin.go"),("prompt","sarwin/sarwin.go"),("BackSpace","sarwin/sarwin.go"),("CursorLeft","sarwin/sarwin.go"),("CursorRight","sarwin/sarwin.go"),("switchView","sarwin/sarwin.go"),("Layout","sarwin/sarwin.go"),("Keybindings","sarwin/sarwin.go")],state=[("Cinfo","command history and prompt","sarwin/sarwin.go")],obs=["command history, contents and cursor of the command window, the main loop's end"])
p("C33","What the command line reports is so",
  "A setting asked for on the command line is told as it is: its word or number is told, different values are told apart, what is told as off is off, and it does not depend on other settings. A command that sets a value and says what it set says what it set. Multicast beacons are told as sent from when they are started until they are turned off. The transfers listed (tran, files, and get, getdir, take, put, putblind, give or delete alone) are exactly those in progress of the type asked for, each with its type, direction, file and peer; the peers listed are exactly those in the table, each once with its identifier, free space, descriptor, willingness and the times it was first and last heard. A command followed by ? tells its own usage and help from the configuration and changes nothing. A line that cannot be done is answered with an error and changes nothing. clear empties the windows it names and no others, and what is said next is shown there from the top.",
  ["inputs","histories"],"all settings with any of their words or any number up to 999, up to 2 transfers and peers of any kind, all commands, all short words as arguments",
  "Each is a relation over all values of all settings; no test looks at what a command answers.",
  ["sarwin/sarwin.go"],[("Run","sarwin/sarwin.go"),("cmd*","sarwin/sarwin.go"),("Listing","sarwin/sarwin.go"),("MsgPrintln/ErrPrintln","sarwin/sarwin.go")],state=[("Transfers","transfers in progress","sarwin/sarwin.go"),("Cliflag","settings","sarflags/sarflags.go"),("Peers","peers","beacon/beacon.go")],obs=["the lines in the windows for messages and errors"])
p("C34","The node starts only when it can work, and ends when asked with the status asked",
  "The node starts, takes the terminal and waits for keys when it is given a configuration and an interface that are there, the configured directory, a terminal and addresses to listen on; when any of these is missing it ends instead, with a status that says so where it is not a matter of usage or reading the configuration. It goes on until exit, quit or ctrl-C and no longer: exit or quit alone or with 0 end it with status 0, with 1 with status 1, with anything else they do not end it. However it ends, the terminal is given back first.",
  ["inputs"],"each thing missing at start; exit and quit with any digit, any letter, ? or nothing after them, with and without another command before",
  "The node's start and end cannot run inside a test of the package; each failure at start is a different path through main.",
  ["saratoga/saratoga.go","sarwin/sarwin.go"],[("main","saratoga/saratoga.go"),("exit","sarwin/sarwin.go")],obs=["status of the process, state of the terminal"])
p("C35","What transfers and beacons open is closed again",
  "At any time, after whatever commands, the sockets and local files that commands have opened are exactly those of the transfers in progress. A transfer that cannot be started (peer unreachable, file missing or there already, any failing file operation), a beacon sent or not, and describing a file leave nothing open. rmtran <peer> <session>, as its usage says, removes the transfer and closes its connection and file; when all are removed nothing is left open.",
  ["inputs","histories","fault_sequences"],"one to three transfers of all types, peers and files that are there or not, any of the first file operations failing, any order of removal",
  "Each command works when it leaks; the node fails only after hundreds of them, and each failure is another path to close on.",
  ["sarwin/sarwin.go","fileio/fileio.go","fileio/checksum.go"],[("NewInitiator","sarwin/sarwin.go"),("Remove","sarwin/sarwin.go"),("cmdRmtran","sarwin/sarwin.go"),("sendbeacons","sarwin/sarwin.go"),("Checksum","fileio/checksum.go")],state=[("Transfers","transfers in progress","sarwin/sarwin.go")],obs=["open files and sockets of the process"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
