From 9e5e8c84666f6e9b8179f4a4713e3fcca60e8e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:55 +0000
Subject: [PATCH 01/90] fix: sarflags: an unknown flag value is reported to the
 caller, it does not end the process

---
 sarflags/sarflags.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index ad05a5b..c2ea230 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -585,7 +585,7 @@ func AddFlag(curflag string, flag string, option string) string {
 		}
 		return newflags
 	}
-	log.Fatalln("Invalid Flag:", flag, "or option:", option)
+	log.Println("Invalid Flag:", flag, "or option:", option)
 	return curflag
 }
 
@@ -688,7 +688,7 @@ func GetStr(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("GetStr fail Invalid field", field, "in Flag", curflag)
+	log.Println("GetStr fail Invalid field", field, "in Flag", curflag)
 	return ""
 }
 
@@ -697,21 +697,21 @@ func GetStr(curflag uint32, field string) string {
 func Set(curflag uint32, field string, flagname string) (uint32, error) {
 	fl, ok := Flags[field]
 	if !ok {
-		log.Fatalln("Set lookup fail Invalid Flag", field)
+		log.Println("Set lookup fail Invalid Flag", field)
 		e := "invalid Flag: " + field
 		return curflag, errors.New(e)
 	}
 
 	if !Good(field) {
 		e := "Set - Invalid Field:" + field + ":"
-		log.Fatalln(e)
+		log.Println(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := Flags[field].Options[flagname]
 	if !ok {
 		e := "Set lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
+		log.Println(e)
 		return curflag, errors.New(e)
 	}
 
@@ -749,7 +749,7 @@ func Name(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("Name out of range")
+	log.Println("Name out of range")
 	return ""
 }
 
@@ -809,7 +809,7 @@ func GetDStr(curflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetDStr fail Invalid field", field, "in DFlag:", curflag)
+	log.Println("GetDStr fail Invalid field", field, "in DFlag:", curflag)
 	return ""
 }
 
@@ -818,14 +818,14 @@ func SetD(curflag uint16, field string, flagname string) (uint16, error) {
 
 	if !GoodD(field) {
 		e := "Invalid Date Field:" + field + ":"
-		log.Fatalln(e)
+		log.Println(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := DirentFlags[field].Options[flagname]
 	if !ok {
 		e := "SetD lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
+		log.Println(e)
 		return curflag, errors.New(e)
 	}
 
@@ -873,7 +873,7 @@ func NameD(curdflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameD out of range")
+	log.Println("NameD out of range")
 	return ""
 }
 
@@ -903,7 +903,7 @@ func AddFlagD(curflag string, flag string, option string) string {
 		}
 		return newflags
 	}
-	log.Fatalln("Invalid Directory Flag:", flag, "or option:", option)
+	log.Println("Invalid Directory Flag:", flag, "or option:", option)
 	return curflag
 }
 
@@ -954,7 +954,7 @@ func GetTStr(curflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetTStr fail Invalid Tflag:", curflag)
+	log.Println("GetTStr fail Invalid Tflag:", curflag)
 	return ""
 }
 
@@ -963,7 +963,7 @@ func SetT(curflag uint8, flagname string) (uint8, error) {
 
 	newval, found := TimeStamps.Options[flagname]
 	if !found {
-		log.Fatalln("SetT lookup fail Invalid flagname", flagname, "in TFlag")
+		log.Println("SetT lookup fail Invalid flagname", flagname, "in TFlag")
 		e := "invalid TFlag: " + flagname
 		return curflag, errors.New(e)
 	}
@@ -987,7 +987,7 @@ func NameT(curtflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameT out of range")
+	log.Println("NameT out of range")
 	return ""
 }
 
-- 
2.43.0


From fb272d473c67ce192979f589b23bd45b8b83364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:29 +0000
Subject: [PATCH 02/90] fix: sarflags: reading or replacing flags in an empty
 or option-less flag list does not panic

---
 sarflags/sarflags.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index c2ea230..02c2025 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -597,7 +597,7 @@ func FlagValue(flags, flag string) string {
 	flagslice := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flagslice {
 		f := strings.Split(flagslice[fl], "=") // f[0]=name f[1]=val
-		if f[0] == flag {
+		if f[0] == flag && len(f) > 1 {
 			return f[1]
 		}
 	}
@@ -611,6 +611,9 @@ func ReplaceFlag(flags, value, option string) string {
 	var replaced bool
 
 	for _, flag := range strings.Split(flags, ",") {
+		if !strings.Contains(flag, "=") {
+			continue // No option, e.g. an empty list of flags
+		}
 		if strings.Split(flag, "=")[0] == value {
 			replaced = true
 			// We are replacing this current flags value with a new one
@@ -913,6 +916,9 @@ func ReplaceFlagD(flags, value, option string) string {
 	var replaced bool
 
 	for _, flag := range strings.Split(flags, ",") {
+		if !strings.Contains(flag, "=") {
+			continue // No option, e.g. an empty list of flags
+		}
 		if strings.Split(flag, "=")[0] == value {
 			replaced = true
 			// We are replacing this current flags value with a new one
-- 
2.43.0


From 1cd4112d35b7d4f1f958c72b5575834dc0e2cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:29 +0000
Subject: [PATCH 03/90] fix: sarflags: CopyCliflags copies the v6 multicast
 address and the beacon count

---
 sarflags/sarflags.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index 02c2025..483e261 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -633,7 +633,7 @@ func ReplaceFlag(flags, value, option string) string {
 func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d := new(Cliflags)
 	d.V4Multicast = s.V4Multicast
-	d.V6Multicast = s.V4Multicast
+	d.V6Multicast = s.V6Multicast
 	d.Port = s.Port
 	d.Timestamp = s.Timestamp
 	d.Timezone = s.Timezone
@@ -641,6 +641,7 @@ func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d.Ppad = s.Ppad
 	d.Sardir = s.Sardir
 	d.Buffersize = s.Buffersize
+	d.Bcount = s.Bcount
 	// Copy the various Timeouts
 	d.Timeout.Binterval = s.Timeout.Binterval
 	d.Timeout.Metadata = s.Timeout.Metadata
-- 
2.43.0


From db404505d20b5f5bf120aebeb2f8db70d797aa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:29 +0000
Subject: [PATCH 04/90] fix: sarflags: ReadConfig returns an error for an
 unreadable or malformed config file instead of panicking

---
 sarflags/sarflags.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index 483e261..43fddc3 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -319,8 +319,13 @@ func getmaxdesc() (desc string, err error) {
 
 // Read  in the JSON Config data
 // Set values to the filled out Cliflags structure in *Cliflags
-func (c *Cliflags) ReadConfig(fname string) error {
-	var err error
+func (c *Cliflags) ReadConfig(fname string) (err error) {
+	// A value of another type than expected is an error in the config file
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid saratoga config file %s: %v", fname, r)
+		}
+	}()
 
 	// var cmu sync.Mutex
 	Flags = make(map[string]Flagtype)             // Setup the Flags global map
@@ -335,13 +340,13 @@ func (c *Cliflags) ReadConfig(fname string) error {
 
 	var confdata []byte
 	if confdata, err = os.ReadFile(fname); err != nil {
-		fmt.Println("Cannot open the saratoga config file", os.Args[1], ":", err)
+		fmt.Println("Cannot open the saratoga config file", fname, ":", err)
 		return err
 	}
 
 	var sarconfdata map[string]interface{}
 	if err = json.Unmarshal([]byte(confdata), &sarconfdata); err != nil {
-		fmt.Println("Cannot Unmarshal json from saratoga config file", os.Args[1], ":", err)
+		fmt.Println("Cannot Unmarshal json from saratoga config file", fname, ":", err)
 		return err
 	}
 	// Lock them up while we are changing the values
-- 
2.43.0


From 2dd3ce2b46940ba8f4907c051053e85bd38f64ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:59 +0000
Subject: [PATCH 05/90] fix: timestamp: Get refuses a buffer shorter than a
 timestamp instead of panicking

---
 dirent/dirent.go       | 2 +-
 timestamp/timestamp.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 202aa6b..cf36547 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -220,7 +220,7 @@ func (d *DirEnt) Decode(frame []byte) error {
 	}
 	// fmt.Printf("Header:%d Size:%d\n", d.header, d.size)
 
-	ts := make([]byte, 5)
+	ts := make([]byte, 16)
 	ts[0], _ = sarflags.SetT(0, "epoch2000_32")
 
 	copy(ts[1:], frame[pos:pos+4])
diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index 13a8f19..7f57a46 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -129,6 +129,9 @@ func (t *Timestamp) Now(flag string) error {
 // Get -- Get  timestamp from buffer
 func (t *Timestamp) Get(tstamp []byte) error {
 
+	if len(tstamp) < 16 {
+		return errors.New("timestamp.Get: Timestamp too short")
+	}
 	t.header = tstamp[0]
 	ttype := sarflags.GetTStr(t.header)
 	switch ttype {
-- 
2.43.0


From 4d726fc509623c550ad5a1df60631f5bb50b1212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:59 +0000
Subject: [PATCH 06/90] fix: timestamp: Get reads back the localinterp
 timestamps that New makes

---
 timestamp/timestamp.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index 7f57a46..0e6b7db 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -111,7 +111,7 @@ func (t *Timestamp) Put() []byte {
 		binary.BigEndian.PutUint32(tstamp[1:5], uint32(t.secs))
 		copy(tstamp[5:], "")
 	default: // Dont know this timestamp type so is local but only first 15 bytes
-		copy(tstamp[1:15], t.local)
+		copy(tstamp[1:], t.local)
 	}
 	return tstamp
 }
@@ -160,6 +160,11 @@ func (t *Timestamp) Get(tstamp []byte) error {
 		t.nsecs = 0
 		t.local = ""
 		t.ttype = ttype
+	case "localinterp":
+		t.secs = 0
+		t.nsecs = 0
+		t.local = strings.TrimRight(string(tstamp[1:16]), "\x00")
+		t.ttype = ttype
 	default:
 		t.secs = 0
 		t.nsecs = 0
-- 
2.43.0


From 4525ca5bf5f3085891e74bc0d71f42d0c3f6e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:59 +0000
Subject: [PATCH 07/90] fix: timestamp: New neither wraps nor misreports
 instants before 1970 or after 2262

---
 timestamp/timestamp.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index 0e6b7db..a621c72 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -48,24 +48,25 @@ func (t *Timestamp) New(flag string, ts time.Time) error {
 		secs := ts.Unix()
 		t.secs = uint64(secs)
 		t.ttype = flag
+		if secs < 0 {
+			return errors.New("posix64:Seconds out of bounds")
+		}
 		t.nsecs = 0
 		t.local = ""
 	case "posix32_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix())
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.secs > sarflags.MaxUint32 {
 			return errors.New("posix32_32:Seconds exceed 32 bits")
 		}
 		t.local = ""
 	case "posix64_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix())
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
-		if t.nsecs > sarflags.MaxUint32 {
-			return errors.New("posix64_32:Remainder exceed 32 bits")
+		t.nsecs = uint64(ts.Nanosecond())
+		if ts.Unix() < 0 {
+			return errors.New("posix64_32:Seconds out of bounds")
 		}
 		t.local = ""
 	case "epoch2000_32":
-- 
2.43.0


From ac72bd34b0730d175c6637937a73db28d0b519c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:35 +0000
Subject: [PATCH 08/90] fix: data: Decode refuses a frame too short for its
 header instead of panicking

---
 data/data.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/data/data.go b/data/data.go
index 8db2b11..5e39665 100644
--- a/data/data.go
+++ b/data/data.go
@@ -156,6 +156,22 @@ func (d *Data) Decode(frame []byte) error {
 	}
 	d.Header = binary.BigEndian.Uint32(frame[:4])
 	d.Session = binary.BigEndian.Uint32(frame[4:8])
+	// The frame must hold the timestamp and offset its header says it does
+	hlen := 4 + 4
+	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
+		hlen += 16
+	}
+	switch sarflags.GetStr(d.Header, "descriptor") {
+	case "d16":
+		hlen += 2
+	case "d32":
+		hlen += 4
+	case "d64":
+		hlen += 8
+	}
+	if len(frame) < hlen {
+		return errors.New("data.Get - data frame too short")
+	}
 	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
 		if err := d.Tstamp.Get(frame[8:24]); err != nil {
 			return err
-- 
2.43.0


From 7842105e06598f828f24510d2ee3fe375be993cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:35 +0000
Subject: [PATCH 09/90] fix: data: Decode accepts an empty payload with every
 descriptor and timestamp setting

---
 data/data.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/data/data.go b/data/data.go
index 5e39665..a2d5262 100644
--- a/data/data.go
+++ b/data/data.go
@@ -181,9 +181,6 @@ func (d *Data) Decode(frame []byte) error {
 			d.Offset = uint64(binary.BigEndian.Uint16(frame[24:26])) // 2 bytes
 			d.Payload = make([]byte, len(frame[26:]))
 			copy(d.Payload, frame[26:])
-			if len(d.Payload) == 0 {
-				return errors.New("length of data payload is 0")
-			}
 		case "d32":
 			d.Offset = uint64(binary.BigEndian.Uint32(frame[24:28])) // 4 bytes
 			d.Payload = make([]byte, len(frame[28:]))
-- 
2.43.0


From 95023ef7bbae9b7e4a9bfb0f58b1fe1a9b7698fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:35 +0000
Subject: [PATCH 10/90] fix: data: Decode clears the timestamp of an earlier
 frame

---
 data/data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data/data.go b/data/data.go
index a2d5262..bd0417b 100644
--- a/data/data.go
+++ b/data/data.go
@@ -199,6 +199,7 @@ func (d *Data) Decode(frame []byte) error {
 		}
 		return nil
 	}
+	d.Tstamp = timestamp.Timestamp{} // No timestamp in this frame
 	switch sarflags.GetStr(d.Header, "descriptor") {
 	case "d16":
 		d.Offset = uint64(binary.BigEndian.Uint16(frame[8:10]))
-- 
2.43.0


From 4535ebdc7035b09e18021a08a0807142beec3d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:35 +0000
Subject: [PATCH 11/90] fix: data: Encode refuses an offset that does not fit
 the descriptor

---
 data/data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/data.go b/data/data.go
index bd0417b..5dd0288 100644
--- a/data/data.go
+++ b/data/data.go
@@ -238,8 +238,14 @@ func (d *Data) Encode() ([]byte, error) {
 
 	switch sarflags.GetStr(d.Header, "descriptor") { // Offset
 	case "d16":
+		if d.Offset > sarflags.MaxUint16 {
+			return nil, errors.New("data offset exceeds d16 descriptor")
+		}
 		framelen += 2
 	case "d32":
+		if d.Offset > sarflags.MaxUint32 {
+			return nil, errors.New("data offset exceeds d32 descriptor")
+		}
 		framelen += 4
 	case "d64":
 		framelen += 8
-- 
2.43.0


From 58279cf49f7817539cb9a3e87f38f782128881ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:35 +0000
Subject: [PATCH 12/90] fix: data: New returns an error for a flag without an
 option instead of panicking

---
 data/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/data.go b/data/data.go
index 5dd0288..2106726 100644
--- a/data/data.go
+++ b/data/data.go
@@ -63,6 +63,9 @@ func (d *Data) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New(flag[fl] + " invalid flag in data")
+		}
 		switch f[0] {
 		case "version", "descriptor", "reqstatus", "eod":
 			if d.Header, err = sarflags.Set(d.Header, f[0], f[1]); err != nil {
-- 
2.43.0


From 16a8b629cffb29e464f947812a2a8cc2b43548d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:35 +0000
Subject: [PATCH 13/90] fix: data: New sets the transfer flag it is given

---
 data/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/data.go b/data/data.go
index 2106726..be9d519 100644
--- a/data/data.go
+++ b/data/data.go
@@ -75,6 +75,9 @@ func (d *Data) New(flags string, info interface{}) error {
 			if f[1] == "bundle" {
 				return errors.New("bundle transfers not supported")
 			}
+			if d.Header, err = sarflags.Set(d.Header, f[0], f[1]); err != nil {
+				return err
+			}
 		case "reqtstamp":
 			switch f[1] {
 			case "no":
-- 
2.43.0


From e7732db9ac1574fc49a5094b12e6cb8604660506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:17 +0000
Subject: [PATCH 14/90] fix: status: Encode writes the timestamp its header
 announces

---
 status/status.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/status/status.go b/status/status.go
index 092f335..dd777a1 100644
--- a/status/status.go
+++ b/status/status.go
@@ -154,6 +154,7 @@ func (s Status) Encode() ([]byte, error) {
 
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		framelen += 16 // Timestamp
+		havetstamp = true
 	}
 
 	var dsize int
-- 
2.43.0


From 1c6ed1af19f1ec433319da27a33555b5ad18cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:17 +0000
Subject: [PATCH 15/90] fix: status: Encode refuses values that do not fit the
 descriptor

---
 status/status.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/status/status.go b/status/status.go
index dd777a1..5d471f4 100644
--- a/status/status.go
+++ b/status/status.go
@@ -172,6 +172,16 @@ func (s Status) Encode() ([]byte, error) {
 	default:
 		return nil, errors.New("invalid descriptor in status")
 	}
+	// Progress, inrespto and holes must all fit in the descriptor
+	fits := func(v uint64) bool { return dsize == 8 || v>>(8*dsize) == 0 }
+	if !fits(s.Progress) || !fits(s.Inrespto) {
+		return nil, errors.New("progress or inrespto exceeds descriptor in status")
+	}
+	for i := range s.Holes {
+		if s.Holes[i].Start < 0 || s.Holes[i].End < 0 || !fits(uint64(s.Holes[i].Start)) || !fits(uint64(s.Holes[i].End)) {
+			return nil, errors.New("hole exceeds descriptor in status")
+		}
+	}
 	framelen += (dsize*2 + (dsize * len(s.Holes) * 2)) // progress + inrespto + holes
 	frame := make([]byte, framelen)
 
-- 
2.43.0


From 612d1533476a1a9e375bbef6b91d1538e496846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:17 +0000
Subject: [PATCH 16/90] fix: status: Decode drops the holes and timestamp of an
 earlier frame

---
 status/status.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/status/status.go b/status/status.go
index 5d471f4..36f5cea 100644
--- a/status/status.go
+++ b/status/status.go
@@ -253,6 +253,8 @@ func (s *Status) Decode(frame []byte) error {
 	}
 	s.Header = binary.BigEndian.Uint32(frame[:4])
 	s.Session = binary.BigEndian.Uint32(frame[4:8])
+	s.Tstamp = timestamp.Timestamp{}
+	s.Holes = nil
 	pos := 8
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		var err error
-- 
2.43.0


From 5a3c1459fb6fed82a3c2371c65805bc93fa2abcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:17 +0000
Subject: [PATCH 17/90] fix: status: Decode refuses a frame too short for its
 header instead of panicking

---
 status/status.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/status/status.go b/status/status.go
index 36f5cea..b94e260 100644
--- a/status/status.go
+++ b/status/status.go
@@ -259,6 +259,9 @@ func (s *Status) Decode(frame []byte) error {
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		var err error
 
+		if len(frame) < 24 {
+			return errors.New("status frame too short")
+		}
 		if err = s.Tstamp.Get(frame[pos:24]); err != nil {
 			return err
 		}
@@ -270,6 +273,9 @@ func (s *Status) Decode(frame []byte) error {
 	switch sarflags.GetStr(s.Header, "descriptor") {
 	case "d16":
 		dsize = 2
+		if len(frame) < pos+2*dsize {
+			return errors.New("status frame too short")
+		}
 		s.Progress = uint64(binary.BigEndian.Uint16(frame[pos : pos+dsize]))
 		pos += dsize
 		s.Inrespto = uint64(binary.BigEndian.Uint16(frame[pos : pos+dsize]))
@@ -285,6 +291,9 @@ func (s *Status) Decode(frame []byte) error {
 		}
 	case "d32":
 		dsize = 4
+		if len(frame) < pos+2*dsize {
+			return errors.New("status frame too short")
+		}
 		s.Progress = uint64(binary.BigEndian.Uint32(frame[pos : pos+dsize]))
 		pos += dsize
 		s.Inrespto = uint64(binary.BigEndian.Uint32(frame[pos : pos+dsize]))
@@ -299,6 +308,9 @@ func (s *Status) Decode(frame []byte) error {
 		}
 	case "d64":
 		dsize = 8
+		if len(frame) < pos+2*dsize {
+			return errors.New("status frame too short")
+		}
 		s.Progress = uint64(binary.BigEndian.Uint64(frame[pos : pos+dsize]))
 		pos += dsize
 		s.Inrespto = uint64(binary.BigEndian.Uint64(frame[pos : pos+dsize]))
-- 
2.43.0


From fca0ea806aaee596af567566ffcbae26fe1a2d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:17 +0000
Subject: [PATCH 18/90] fix: status: New and Make carry the holes supplied, not
 those of an earlier frame as well

---
 status/status.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/status/status.go b/status/status.go
index b94e260..861eb49 100644
--- a/status/status.go
+++ b/status/status.go
@@ -106,6 +106,7 @@ func (s *Status) New(flags string, info interface{}) error {
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
 	s.Inrespto = e.FieldByName("Inrespto").Uint()
+	s.Holes = nil
 	for i := 0; i < e.FieldByName("Holes").Len(); i++ {
 		var h holes.Hole
 		// Get the Start and End from within the Holes Structure
@@ -134,6 +135,7 @@ func (s *Status) Make(header uint32, info interface{}) error {
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
 	s.Inrespto = e.FieldByName("Inrespto").Uint()
+	s.Holes = nil
 	for i := 0; i < e.FieldByName("Holes").Len(); i++ {
 		var h holes.Hole
 		// Get the Start and End from within the Holes Structure
-- 
2.43.0


From f2251104624285b0e684b3a45bab6e807d48be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:17 +0000
Subject: [PATCH 19/90] fix: status: New returns an error for a flag without an
 option instead of panicking

---
 status/status.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/status/status.go b/status/status.go
index 861eb49..b84dc31 100644
--- a/status/status.go
+++ b/status/status.go
@@ -75,6 +75,12 @@ func (s *Status) New(flags string, info interface{}) error {
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
 		switch f[0] {
+		case "descriptor", "stream", "reqtstamp", "metadatarecvd", "allholes", "reqholes", "errcode":
+			if len(f) != 2 {
+				return errors.New("Flag " + f[0] + " has no option for Status Frame")
+			}
+		}
+		switch f[0] {
 		case "descriptor", "stream", "metadatarecvd", "allholes", "reqholes", "errcode":
 			if s.Header, err = sarflags.Set(s.Header, f[0], f[1]); err != nil {
 				return err
-- 
2.43.0


From 708997ccff591b74137ee9f4513f4ef812d2a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:45 +0000
Subject: [PATCH 20/90] fix: dirent: Encode accepts sizes over 32 bits with a
 d64 descriptor

---
 dirent/dirent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index cf36547..0c0f09a 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -172,7 +172,7 @@ func (d *DirEnt) Encode() ([]byte, error) {
 		}
 		binary.BigEndian.PutUint32(frame[pos:pos+dsize], uint32(d.Size))
 	case 8:
-		if d.Size > sarflags.MaxUint32 { // This should never happen!!!!
+		if d.Size > sarflags.MaxUint64 { // This should never happen!!!!
 			e := fmt.Sprintf("Descriptor d64 too small for file size %d", d.Size)
 			return nil, errors.New(e)
 		}
-- 
2.43.0


From 03f18561778dcaeb175b3d588df5bb86c58c8759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:45 +0000
Subject: [PATCH 21/90] fix: dirent: Encode refuses a path with a null, which
 would be cut short on the wire

---
 dirent/dirent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 0c0f09a..e270dc0 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -152,6 +152,9 @@ func (d *DirEnt) Encode() ([]byte, error) {
 	if len(d.Path) > 1024 {
 		return nil, errors.New("path name exceeds 1024 bytes")
 	}
+	if strings.Contains(d.Path, "\x00") {
+		return nil, errors.New("path name contains a null")
+	}
 
 	frame := make([]byte, framelen)
 
-- 
2.43.0


From fed8f3c0396bff25f1e4c82c9c3f7160251577ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:45 +0000
Subject: [PATCH 22/90] fix: dirent: Decode refuses an entry too short for its
 header instead of panicking

---
 dirent/dirent.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index e270dc0..f5c32c7 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -208,14 +208,23 @@ func (d *DirEnt) Decode(frame []byte) error {
 	switch sarflags.GetDStr(d.Header, "descriptor") {
 	case "d16":
 		dsize := 2
+		if len(frame) < pos+dsize+8 {
+			return errors.New("DirEntGet - Entry too short")
+		}
 		d.Size = uint64(binary.BigEndian.Uint16(frame[pos : pos+dsize]))
 		pos += dsize
 	case "d32":
 		dsize := 4
+		if len(frame) < pos+dsize+8 {
+			return errors.New("DirEntGet - Entry too short")
+		}
 		d.Size = uint64(binary.BigEndian.Uint32(frame[pos : pos+dsize]))
 		pos += dsize
 	case "d64":
 		dsize := 8
+		if len(frame) < pos+dsize+8 {
+			return errors.New("DirEntGet - Entry too short")
+		}
 		d.Size = uint64(binary.BigEndian.Uint64(frame[pos : pos+dsize]))
 		pos += dsize
 	default:
-- 
2.43.0


From dbe301503475a6b964f3d167f2cf640abdf59e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:45 +0000
Subject: [PATCH 23/90] fix: dirent: Decode keeps the bytes of a path that is
 not ASCII

---
 dirent/dirent.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index f5c32c7..d4934e6 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -249,13 +249,14 @@ func (d *DirEnt) Decode(frame []byte) error {
 	pos += 4
 	// fmt.Printf("Ctime:%s\n", d.ctime.Print())
 
-	d.Path = ""
+	path := frame[pos:]
 	for i := range frame[pos:] { // Path is null terminated string
 		if frame[pos+i] == '\x00' { // Hit null
+			path = frame[pos : pos+i]
 			break
 		}
-		d.Path += string(frame[pos+i])
 	}
+	d.Path = string(path)
 	// fmt.Printf("Path:<%s>\n", d.path)
 	return nil
 }
-- 
2.43.0


From 2576aa58f8d8dc3981ead4c693a171afa73686c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:45 +0000
Subject: [PATCH 24/90] fix: dirent: New returns an error for a flag without an
 option instead of panicking

---
 dirent/dirent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index d4934e6..f03b328 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -86,6 +86,9 @@ func (d *DirEnt) New(flags string, path string) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New("Invalid Flag " + flag[fl] + " for Directory Entry")
+		}
 		switch f[0] {
 		case "descriptor", "property":
 			if d.Header, err = sarflags.SetD(d.Header, f[0], f[1]); err != nil {
-- 
2.43.0


From 8aa7b3c28d333b8d90a436fb4e7eaa9244c08825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:56 +0000
Subject: [PATCH 25/90] fix: metadata: Encode refuses a directory entry or
 checksum the frame cannot carry

---
 metadata/metadata.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index a350420..34eb920 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -244,7 +244,13 @@ func (m *MetaData) Encode() ([]byte, error) {
 	// Create the frame slice
 	framelen := 4 + 4 // Header + Session
 	framelen += len(m.Checksum)
-	de, _ := m.Dir.Encode()
+	if len(m.Checksum) != int(sarflags.Get(m.Header, "csumlen"))*4 {
+		return nil, fmt.Errorf("checksum length of %d does not match csumlen in MetaData frame", len(m.Checksum))
+	}
+	de, err := m.Dir.Encode()
+	if err != nil {
+		return nil, err
+	}
 	framelen += len(de)
 
 	frame := make([]byte, framelen)
-- 
2.43.0


From 49bb2b80eb85880c8bd2e378b72809a8829e587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:56 +0000
Subject: [PATCH 26/90] fix: metadata: Decode refuses a frame shorter than its
 checksum instead of panicking

---
 metadata/metadata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 34eb920..a43f16d 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -283,6 +283,9 @@ func (m *MetaData) Decode(frame []byte) (err error) {
 
 	// Checksum
 	csuml := int(sarflags.Get(m.Header, "csumlen")) * 4
+	if len(frame) < pos+csuml {
+		return errors.New("MetaDataGet - Frame too short")
+	}
 	m.Checksum = make([]byte, csuml)
 	copy(m.Checksum, frame[pos:pos+csuml])
 	pos += csuml
-- 
2.43.0


From 8dfc02814fac5289f6d0cf5a91b4f9a31f2d84b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:56 +0000
Subject: [PATCH 27/90] fix: metadata: New and Make carry the modification
 time, not the creation time twice

---
 metadata/metadata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index a43f16d..0b12d56 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -164,7 +164,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Checksum calculation
@@ -217,7 +217,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Make sure we dont try and calc a checksum of a named pipe "stream" (it will wait forever)
-- 
2.43.0


From 32cf43f6946dd4233b6d03fc44c03e9ce4aa169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:56 +0000
Subject: [PATCH 28/90] fix: metadata: Make uses the file name it is given

---
 metadata/metadata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 0b12d56..4c96e60 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -203,7 +203,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	var fname string
 	e := reflect.ValueOf(info).Elem()
 	m.Session = uint32(e.FieldByName("Session").Uint())
-	fname = e.FieldByName("Session").String()
+	fname = e.FieldByName("Fname").String()
 	var direntflags string
 	if direntflags, err = statfile(fname, m.Header); err != nil {
 		return err
-- 
2.43.0


From ebeb69d217dc0e7d2e234f2521b0a0d844c5527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:56 +0000
Subject: [PATCH 29/90] fix: metadata: Make announces the checksum length of
 the checksum type

---
 metadata/metadata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 4c96e60..76b7899 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -198,6 +198,10 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	if header, err = sarflags.Set(header, "frametype", "metadata"); err != nil {
 		return err
 	}
+	// Set the correct csum length
+	if header, err = sarflags.Set(header, "csumlen", sarflags.GetStr(header, "csumtype")); err != nil {
+		return err
+	}
 	m.Header = header
 
 	var fname string
-- 
2.43.0


From a5601d8468a200fa163b712754a2069731c20d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:56 +0000
Subject: [PATCH 30/90] fix: metadata: New and Make drop the checksum of an
 earlier frame

---
 metadata/metadata.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 76b7899..ad23503 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -176,6 +176,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 			return err
 		}
 		csumlen := len(checksum)
+		m.Checksum = nil
 		if csumlen > 0 {
 			m.Checksum = make([]byte, len(checksum))
 			copy(m.Checksum, checksum)
@@ -232,6 +233,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 			return err
 		}
 		csumlen := len(checksum)
+		m.Checksum = nil
 		if csumlen > 0 {
 			m.Checksum = make([]byte, len(checksum))
 			copy(m.Checksum, checksum)
-- 
2.43.0


From ced54dbac382aa315905556ce858faf067c06ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:56 +0000
Subject: [PATCH 31/90] fix: metadata: New returns an error for a flag without
 an option instead of panicking

---
 metadata/metadata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index ad23503..e9607f2 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -126,6 +126,9 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New(flag[fl] + " invalid flag for MetaData Frame")
+		}
 		switch f[0] {
 		case "descriptor", "progress", "transfer", "reliability":
 			if m.Header, err = sarflags.Set(m.Header, f[0], f[1]); err != nil {
-- 
2.43.0


From 530f35a5a17cf8885d4d65501904f4e7af53014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:56 +0000
Subject: [PATCH 32/90] fix: metadata: New without a csumtype flag builds a
 frame with no checksum

---
 metadata/metadata.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index e9607f2..9662ebe 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -120,8 +120,6 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	if m.Header, err = sarflags.Set(m.Header, "frametype", "metadata"); err != nil {
 		return err
 	}
-	var csumtype string // Checksum type
-
 	// Grab the flags and set the frame header
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
@@ -142,12 +140,13 @@ func (m *MetaData) New(flags string, info interface{}) error {
 			if m.Header, err = sarflags.Set(m.Header, "csumlen", f[1]); err != nil {
 				return err
 			}
-			csumtype = f[1]
 		default:
 			return errors.New(f[0] + "invalid flag for MetaData Frame")
 		}
 	}
 
+	csumtype := sarflags.GetStr(m.Header, "csumtype") // Checksum type
+
 	var fname string
 	var direntflags string // Particular Flags for directory entry
 
-- 
2.43.0


From c1f605d32390622d3b07905835d1b8bfc321b5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:24 +0000
Subject: [PATCH 33/90] fix: fileio: FileOpen looks for the file in the
 saratoga directory and never truncates an existing one

---
 fileio/fileio.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index a81ce17..95c32ab 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -35,16 +35,16 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
 		// Dont stomp on any existing file
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("file already exists:  %s", fullname)
 		}
 		// Create the file
-		if fp, err = os.Create(fullname); err == nil {
+		if fp, err = os.OpenFile(fullname, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666); err == nil {
 			return fp, nil
 		}
 		return nil, err
 	case "getdir": // We are getting all the files from a remote directory
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("directory already exists: %s", fullname)
 		}
 		// Create the Directory
@@ -59,7 +59,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		return nil, err
 	case "put", "give": // We are putting a local file to a remote system
 		// Open up to read from the local file
-		if !FileExists(fullname) {
+		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
 		}
 		if fp, err = os.Open(fullname); err == nil {
-- 
2.43.0


From a2471c99d13fc21078dd0d825543631937acda1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:24 +0000
Subject: [PATCH 34/90] fix: fileio: FileDelete removes the file that was open

---
 fileio/fileio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 95c32ab..a37347a 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -148,7 +148,7 @@ func FileDelete(fp *os.File) error {
 	if fp != nil {
 		fname := fp.Name()
 		FileClose(fp)
-		return FileRm(fname)
+		return os.Remove(fname) // The name of an open file includes the saratoga directory
 	}
 	return fmt.Errorf("no existing open file to delete")
 }
-- 
2.43.0


From 477c90c63fec74b98d8da7ae74649a63c9890a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:24 +0000
Subject: [PATCH 35/90] fix: fileio: FileMeta returns an error, or no
 directory, where it dereferenced nil

---
 fileio/fileio.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index a37347a..8ac4f57 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -177,7 +177,7 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 	var err error
 	var info os.FileInfo
 	fullname := Sardir() + "/" + filePath
-	if info, err = os.Lstat(fullname); os.IsNotExist(err) {
+	if info, err = os.Lstat(fullname); err != nil {
 		return nil, err
 	}
 	// Symbolic Links and Named Pipes are treated as "special files"
@@ -188,9 +188,10 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 		if fs.Origin, patherr = os.Readlink(fullname); patherr != nil {
 			return nil, patherr
 		}
-		origstat, _ := os.Lstat(fs.Origin)
 		// Yes we can be a symbolic link to a directory so both are true
-		fs.IsDir = origstat.IsDir()
+		if origstat, err := os.Stat(fullname); err == nil {
+			fs.IsDir = origstat.IsDir()
+		}
 	} else {
 		fs.IsDir = info.IsDir()
 	}
-- 
2.43.0


From 91d767c0b50bfefdb705042a36c2749f37bbccad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:24 +0000
Subject: [PATCH 36/90] fix: fileio: file names given by a peer cannot reach
 outside the saratoga directory

---
 fileio/fileio.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 8ac4f57..4bb50c3 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -4,6 +4,7 @@ package fileio
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 	"time"
 
 	"github.com/charlesetsmith/saratoga/sarflags"
@@ -15,10 +16,15 @@ func Sardir() string {
 	return sarflags.Cliflag.Sardir
 }
 
+// The full name of a file, whatever fname is it stays within the Saratoga Directory
+func fullpath(fname string) string {
+	return filepath.Join(Sardir(), filepath.Clean("/"+fname))
+}
+
 // Check to see if a file or directory exists on our local system
 // no named pipes or symbolic links supported at this time
 func FileExists(fname string) bool {
-	fullname := Sardir() + "/" + fname
+	fullname := fullpath(fname)
 	fileinfo, err := os.Stat(fullname)
 	if err == nil && (fileinfo.Mode().IsDir() || fileinfo.Mode().IsRegular()) {
 		return true
@@ -30,7 +36,7 @@ func FileExists(fname string) bool {
 func FileOpen(fname string, ttype string) (*os.File, error) {
 	var err error
 	var fp *os.File
-	fullname := Sardir() + "/" + fname
+	fullname := fullpath(fname)
 	switch ttype {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
@@ -138,7 +144,7 @@ func FileClose(fp *os.File) error {
 
 // Just Zap the file
 func FileRm(fname string) error {
-	fullname := Sardir() + "/" + fname
+	fullname := fullpath(fname)
 	return os.Remove(fullname)
 }
 
@@ -176,7 +182,7 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 
 	var err error
 	var info os.FileInfo
-	fullname := Sardir() + "/" + filePath
+	fullname := fullpath(filePath)
 	if info, err = os.Lstat(fullname); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 21689bc428e73da18d127b9a421d34f19949221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:24 +0000
Subject: [PATCH 37/90] fix: metadata: the kind and size of a file come from
 the saratoga directory like the rest of its metadata

---
 metadata/metadata.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 9662ebe..ea7e5cd 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -50,11 +50,11 @@ func statfile(fname string, header uint32) (string, error) {
 	var direntflags string
 	var err error
 
-	fi, err := os.Lstat(fname)
+	fi, err := fileio.FileMeta(fname)
 	if err != nil {
 		return "", err
 	}
-	switch mode := fi.Mode(); {
+	switch mode := fi.Mode; {
 	case mode.IsRegular():
 		file = true
 		direntflags = sarflags.AddFlagD(direntflags, "property", "normalfile")
@@ -70,7 +70,7 @@ func statfile(fname string, header uint32) (string, error) {
 	}
 
 	// Work out the descriptor to use for directory entry
-	fsize := uint64(fi.Size()) // Size of file carefull this is on 64 bit int (not uint!!!)
+	fsize := uint64(fi.Size) // Size of file carefull this is on 64 bit int (not uint!!!)
 	if fsize < sarflags.MaxUint16 {
 		direntflags = sarflags.AddFlagD(direntflags, "descriptor", "d16")
 	} else if fsize < sarflags.MaxUint32 {
-- 
2.43.0


From f0481825972ea0cefa3bb8a2790a4301aa3a4967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 38/90] fix: request: New returns an error for a flag without
 an option instead of panicking

---
 request/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request/request.go b/request/request.go
index 93f9536..562ce83 100644
--- a/request/request.go
+++ b/request/request.go
@@ -58,6 +58,9 @@ func (r *Request) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New("Request.New: Invalid Flag " + flag[fl] + "<" + flags + ">")
+		}
 		switch f[0] {
 		case "frametype", "version", "descriptor", "stream", "txwilling",
 			"rxwilling", "fileordir", "reqtype", "udplite":
-- 
2.43.0


From 02ec99a2e0429dd87f91b5ab2d23fdbd2ba9eccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 39/90] fix: request: New and Make carry the authentication
 supplied

---
 request/request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request/request.go b/request/request.go
index 562ce83..6eaf9dd 100644
--- a/request/request.go
+++ b/request/request.go
@@ -74,7 +74,7 @@ func (r *Request) New(flags string, info interface{}) error {
 	e := reflect.ValueOf(info).Elem()
 	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
@@ -98,7 +98,7 @@ func (r *Request) Make(header uint32, info interface{}) error {
 	e := reflect.ValueOf(info).Elem()
 	r.Session = uint32(e.Elem().FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
-- 
2.43.0


From 9e5209c301bb487108a5728368a3f6fa49874d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 40/90] fix: request: Make does not panic

---
 request/request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request/request.go b/request/request.go
index 6eaf9dd..f81a134 100644
--- a/request/request.go
+++ b/request/request.go
@@ -96,7 +96,7 @@ func (r *Request) Make(header uint32, info interface{}) error {
 	r.Header = header
 
 	e := reflect.ValueOf(info).Elem()
-	r.Session = uint32(e.Elem().FieldByName("Session").Uint())
+	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
 	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
-- 
2.43.0


From 2f18f5540e350f97632dcda73e54223cf4953a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 41/90] fix: request: Encode refuses a file name with a null,
 which would be cut short on the wire

---
 request/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request/request.go b/request/request.go
index f81a134..fda695a 100644
--- a/request/request.go
+++ b/request/request.go
@@ -106,6 +106,9 @@ func (r *Request) Make(header uint32, info interface{}) error {
 // Put -- Encode the Saratoga Request buffer
 func (r *Request) Encode() ([]byte, error) {
 
+	if strings.Contains(r.Fname, "\x00") {
+		return nil, errors.New("request.Encode - file name contains a null")
+	}
 	// Create the frame slice
 	framelen := 4 + 4 + len(r.Fname) + 1 + len(r.Auth) // Header + Session + Fname + NULL + Auth
 	frame := make([]byte, framelen)                    // Allocate the frame buffer
-- 
2.43.0


From d5a98be11008de72108adb5708ab384291cef0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 42/90] fix: request: Decode keeps the bytes of a file name,
 drops that of an earlier frame and refuses one that does not end

---
 request/request.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/request/request.go b/request/request.go
index fda695a..120721f 100644
--- a/request/request.go
+++ b/request/request.go
@@ -133,12 +133,17 @@ func (r *Request) Decode(frame []byte) error {
 	r.Header = binary.BigEndian.Uint32(frame[:4])
 	r.Session = binary.BigEndian.Uint32(frame[4:8])
 	pos := 8
+	end := -1
 	for i := range frame[8:] { // Filename in frame is null terminated string
 		if frame[pos+i] == '\x00' { // Hit null
+			end = pos + i
 			break
 		}
-		r.Fname += string(frame[pos+i])
 	}
+	if end < 0 {
+		return errors.New("request.Decode - file name not null terminated")
+	}
+	r.Fname = string(frame[pos:end])
 	pos = 8 + 1 + len(r.Fname)
 	if pos == len(frame) { // No following auth field
 		r.Auth = nil
-- 
2.43.0


From 0672a7f51c942552bf081cd93a42a49733b8bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:02 +0000
Subject: [PATCH 43/90] fix: beacon: New and Make accept every free space that
 fits 64 bits

---
 beacon/beacon.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index edca92d..7312772 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -120,7 +120,7 @@ func (b *Beacon) New(flags string, info interface{}) error {
 			b.Header, _ = sarflags.Set(b.Header, "freespaced", "d32")
 			return nil
 		}
-		if b.Freespace < sarflags.MaxUint64 {
+		if b.Freespace <= sarflags.MaxUint64 {
 			b.Header, _ = sarflags.Set(b.Header, "freespaced", "d64")
 			return nil
 		}
@@ -184,7 +184,7 @@ func (b *Beacon) Make(header uint32, info interface{}) error {
 			b.Header, _ = sarflags.Set(b.Header, "freespaced", "d32")
 			return nil
 		}
-		if b.Freespace < sarflags.MaxUint64 {
+		if b.Freespace <= sarflags.MaxUint64 {
 			b.Header, _ = sarflags.Set(b.Header, "freespaced", "d64")
 			return nil
 		}
-- 
2.43.0


From b1a69f382625b8f8866813a6529f04c723ce2afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:02 +0000
Subject: [PATCH 44/90] fix: beacon: New returns an error for a flag without an
 option instead of panicking

---
 beacon/beacon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 7312772..58602b1 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -59,6 +59,9 @@ func (b *Beacon) New(flags string, info interface{}) error {
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
 
+		if len(f) != 2 {
+			return errors.New("Beacon.New: Invalid Flag " + flag[fl])
+		}
 		switch f[0] {
 		case "descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace":
 			if b.Header, err = sarflags.Set(b.Header, f[0], f[1]); err != nil {
-- 
2.43.0


From d24dc9c4c3f395f31730979bb80b8b028840039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:02 +0000
Subject: [PATCH 45/90] fix: beacon: Encode refuses a free space that does not
 fit its descriptor

---
 beacon/beacon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 58602b1..ed55927 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -208,8 +208,14 @@ func (b Beacon) Encode() ([]byte, error) {
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
+			if b.Freespace > sarflags.MaxUint16 {
+				return nil, errors.New("freespace exceeds d16 in beacon frame")
+			}
 			framelen += 2
 		case "d32":
+			if b.Freespace > sarflags.MaxUint32 {
+				return nil, errors.New("freespace exceeds d32 in beacon frame")
+			}
 			framelen += 4
 		case "d64":
 			framelen += 8
-- 
2.43.0


From 11bd3cb6611537d90ab4f86f2a603d6b1deeddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:02 +0000
Subject: [PATCH 46/90] fix: beacon: Decode refuses a frame too short for its
 header instead of panicking

---
 beacon/beacon.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index ed55927..cee2102 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -256,16 +256,28 @@ func (b Beacon) Encode() ([]byte, error) {
 // Get -- Decode Beacon byte slice frame into Beacon struct
 func (b *Beacon) Decode(frame []byte) error {
 
+	if len(frame) < 4 {
+		return errors.New("beacon.Decode - beacon frame too short")
+	}
 	b.Header = binary.BigEndian.Uint32(frame[:4])
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
+			if len(frame) < 6 {
+				return errors.New("beacon.Decode - beacon frame too short")
+			}
 			b.Freespace = uint64(binary.BigEndian.Uint16(frame[4:6]))
 			b.Eid = string(frame[6:])
 		case "d32":
+			if len(frame) < 8 {
+				return errors.New("beacon.Decode - beacon frame too short")
+			}
 			b.Freespace = uint64(binary.BigEndian.Uint32(frame[4:8]))
 			b.Eid = string(frame[8:])
 		case "d64":
+			if len(frame) < 12 {
+				return errors.New("beacon.Decode - beacon frame too short")
+			}
 			b.Freespace = binary.BigEndian.Uint64(frame[4:12])
 			b.Eid = string(frame[12:])
 		case "d128":
-- 
2.43.0


From dc1cfa35c0bb3c6074d5a314cd42836035f2d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:02 +0000
Subject: [PATCH 47/90] fix: beacon: NewPeer holds the lock while it looks for
 the peer, so that concurrent beacons add it once

---
 beacon/beacon.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index cee2102..d8a8e62 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -366,11 +366,11 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	if from == nil {
 		return false
 	}
+	pmu.Lock()
+	defer pmu.Unlock()
 	// Scan through existing Peers and change if the peer exists
 	for p := range Peers {
 		if Peers[p].Addr == from.IP.String() { // Source Ip Address matches existing Peer
-			pmu.Lock()
-			defer pmu.Unlock()
 			// Has anything changed since the last beacon for this peer ?
 			if Peers[p].Freespace != b.Freespace ||
 				Peers[p].Eid != b.Eid ||
@@ -399,8 +399,6 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	newp.Cantx = sarflags.GetStr(b.Header, "txwilling")
 	newp.Created.Now("posix32_32")
 	newp.Updated = newp.Created
-	pmu.Lock()
-	defer pmu.Unlock()
 	Peers = append(Peers, *newp)
 	return true
 }
-- 
2.43.0


From e98bc910178754fde4404e9f674f36baff891e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:59 +0000
Subject: [PATCH 48/90] fix: sarwin: Lookup returns the transfer itself, not a
 copy [C17]

---
 sarwin/sarwin.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8589490..08d591f 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -896,12 +896,12 @@ var Transfers = []Transfer{}
 
 // Lookup - Return a pointer to the transfer if we find it in Transfers, nil otherwise
 func Lookup(direction bool, session uint32, peer string) *Transfer {
-	for _, t := range Transfers {
+	for i := range Transfers {
 		// Check if direction (Initiator or Responder), session # and IP address match in our current
 		// list of transfers (if so then return a pointer to it)
 
-		if direction == t.Direction && session == t.Session && t.Peer.String() == peer {
-			return &t
+		if direction == Transfers[i].Direction && session == Transfers[i].Session && Transfers[i].Peer.String() == peer {
+			return &Transfers[i]
 		}
 	}
 	return nil
-- 
2.43.0


From ae293cd30a4342b6af3d79928e8ac88fc9426592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:59 +0000
Subject: [PATCH 49/90] fix: sarwin: Match compares the transfer's peer, so
 that one without a connection does not panic [C17]

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 08d591f..0bb50e9 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -910,7 +910,7 @@ func Lookup(direction bool, session uint32, peer string) *Transfer {
 // Lookup a host & session and return transfer pointer or nil if it does not exist
 func Match(addr string, session uint32) *Transfer {
 	for i := len(Transfers) - 1; i >= 0; i-- {
-		if addr == Transfers[i].Conn.RemoteAddr().String() && session == Transfers[i].Session {
+		if addr == Transfers[i].Peer.String() && session == Transfers[i].Session {
 			return &Transfers[i]
 		}
 	}
-- 
2.43.0


From d18e12e61f7bb5754dd8e9268b6bad48e1d1b083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:59 +0000
Subject: [PATCH 50/90] fix: sarwin: Remove removes the transfer it is called
 on, not the last one in the list [C17]

---
 sarwin/sarwin.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 0bb50e9..72d8ca6 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1218,7 +1218,8 @@ func (t *Transfer) Remove() error {
 	defer Trmu.Unlock()
 
 	for i := len(Transfers) - 1; i >= 0; i-- {
-		if Lookup(t.Direction, t.Session, t.Peer.String()) != nil {
+		if t.Direction == Transfers[i].Direction && t.Session == Transfers[i].Session &&
+			t.Peer.String() == Transfers[i].Peer.String() {
 			Transfers = append(Transfers[:i], Transfers[i+1:]...)
 			return nil
 		}
-- 
2.43.0


From 8624a9aa654dfc716e47b08f452451f9138357bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:20 +0000
Subject: [PATCH 51/90] fix: sarwin: NewInitiator looks for duplicates with the
 transfers locked, so that concurrent commands add a transfer once [C16]

---
 sarwin/sarwin.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 72d8ca6..7ef024d 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -920,17 +920,10 @@ func Match(addr string, session uint32) *Transfer {
 // CNew - Add a new transfer to the Transfers list
 func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c *sarflags.Cliflags) (*Transfer, error) {
 	// screen.Fprintln(g,  "red_black", "Addtran for ", ip.String(), " ", fname, " ", flags)
+	// Lock it as we are going to look at and add to the transfers, another command may be doing so too
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for _, i := range Transfers { // Don't add duplicates (ie dont try act on same fname)
-		// Make sure we have connections to all the current Transfers
-		if i.Conn == nil {
-			emsg := "No connection exists to peer: " + peer.String()
-			ErrPrintln(g, "red_black", emsg)
-			// Remove the transfer as we have no connection to a peer
-			if err := i.Remove(); err != nil {
-				ErrPrintln(g, "red_black", "Can't remove transfer of", i.Session)
-			}
-			return nil, errors.New(emsg)
-		}
 		// If the file currently exists on our system and we try to "get" it then we won;t allow that
 		// We cant overwrite an existing file on our system
 		if fileio.FileExists(fname) && (ttype == "get" || ttype == "getdelete" || ttype == "getdir") {
@@ -948,10 +941,6 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	}
 
 	// OK lets create the transfer
-
-	// Lock it as we are going to add a new transfer slice
-	Trmu.Lock()
-	defer Trmu.Unlock()
 	t := new(Transfer)
 	t.Direction = Initiator
 	t.Ttype = ttype
-- 
2.43.0


From ee4cd374bde9ffdfdbec4a71ae7add1fa5104e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:20 +0000
Subject: [PATCH 52/90] fix: sarwin: NewInitiator returns an error and adds
 nothing when the transfer cannot be started [C16]

---
 sarwin/sarwin.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 7ef024d..fab2a3e 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -949,23 +949,34 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	t.Peer = peer
 
 	var err error
+	// Copy the FLAGS to t.cliflags
+	if t.Cliflags, err = c.CopyCliflags(); err != nil {
+		ErrPrintln(g, "red_black", err)
+		return nil, err
+	}
+
 	// Dial the peer to create the connection
 	if t.Conn, err = net.DialUDP("udp", nil, peer); err != nil {
 		ErrPrintln(g, "red_black", "Cannot dial peer "+peer.String()+" "+err.Error())
+		return nil, err
 	}
 
 	// Open up the local for i/o
 	t.Filename = fname
 	if t.Fp, err = fileio.FileOpen(t.Filename, t.Ttype); err != nil {
 		ErrPrintln(g, "red_black", err)
+		t.Conn.Close()
+		return nil, err
 	}
-	if t.Filemeta, err = fileio.FileMeta(fname); err != nil {
-		ErrPrintln(g, "red_black", err)
-	}
-
-	// Copy the FLAGS to t.cliflags
-	if t.Cliflags, err = c.CopyCliflags(); err != nil {
-		panic(err)
+	if t.Ttype != "delete" { // There is no local file when we delete a remote one
+		if t.Filemeta, err = fileio.FileMeta(fname); err != nil {
+			ErrPrintln(g, "red_black", err)
+			t.Conn.Close()
+			if t.Fp != nil {
+				t.Fp.Close()
+			}
+			return nil, err
+		}
 	}
 	msg := fmt.Sprintf("Initiator Added %s Transfer to %s %s",
 		t.Ttype, t.Peer.String(), t.Filename)
-- 
2.43.0


From 564ce66f63b8eb24f096a4439e8d4b7c1750d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:20 +0000
Subject: [PATCH 53/90] fix: fileio: FileOpen opens the local file of a blind
 put, as the putblind command asks it to [C16]

---
 fileio/fileio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 4bb50c3..3e4a197 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -63,7 +63,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 			}
 		}
 		return nil, err
-	case "put", "give": // We are putting a local file to a remote system
+	case "put", "give", "putblind": // We are putting a local file to a remote system
 		// Open up to read from the local file
 		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
-- 
2.43.0


From 8d1ac28049feb55222c3691bfe60ca8d6af03f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:00 +0000
Subject: [PATCH 54/90] fix: sarflags: CopyCliflags locks the flags, a command
 may be changing them [C19]

---
 sarflags/sarflags.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index 43fddc3..e24d45d 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -636,6 +636,9 @@ func ReplaceFlag(flags, value, option string) string {
 
 // CopyCliflags - copy from source to desination the Clieflags structure
 func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
+	// The command handlers change the flags with this locked
+	Climu.Lock()
+	defer Climu.Unlock()
 	d := new(Cliflags)
 	d.V4Multicast = s.V4Multicast
 	d.V6Multicast = s.V6Multicast
-- 
2.43.0


From 700c5cc0c9f8421a561ac78ea1ee1425f81535a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:35 +0000
Subject: [PATCH 55/90] fix: status: Send works on a connection that was
 dialled to the peer [C14]

---
 status/status.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/status/status.go b/status/status.go
index b84dc31..3b85dee 100644
--- a/status/status.go
+++ b/status/status.go
@@ -397,7 +397,12 @@ func (s Status) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = s.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer, WriteTo is an error then
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
-- 
2.43.0


From fea06353214f4d92a6f729ee893461d87f818820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:35 +0000
Subject: [PATCH 56/90] fix: data: Send works on a connection that was dialled
 to the peer [C14]

---
 data/data.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index be9d519..f039782 100644
--- a/data/data.go
+++ b/data/data.go
@@ -330,7 +330,12 @@ func (d Data) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = d.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer, WriteTo is an error then
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
-- 
2.43.0


From 5295681ffb20f1998f05ee11a0597a8bacf070b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:35 +0000
Subject: [PATCH 57/90] fix: metadata: Send works on a connection that was
 dialled to the peer [C14]

---
 metadata/metadata.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index ea7e5cd..13d938b 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -341,7 +341,12 @@ func (m MetaData) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = m.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer, WriteTo is an error then
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
-- 
2.43.0


From eaa82622bf8bc3a87aec65a74a4e2b93f583f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:35 +0000
Subject: [PATCH 58/90] fix: request: Send works on a connection that was
 dialled to the peer [C14]

---
 request/request.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/request/request.go b/request/request.go
index 120721f..20993a0 100644
--- a/request/request.go
+++ b/request/request.go
@@ -187,7 +187,12 @@ func (r Request) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = r.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // Already connected to the peer, WriteTo is an error then
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
-- 
2.43.0


From 4ef20510489eced48695b12b043632e544023e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:35 +0000
Subject: [PATCH 59/90] fix: sarwin: WriteStatus sends each hole once, in as
 many frames as they need, and does not divide by zero [C14]

---
 sarwin/sarwin.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index fab2a3e..2e13af0 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -809,8 +809,9 @@ func maxpaylen(flags string) int {
 */
 
 // Work out the maximum payload in status.Status frame given flags
+// Less than 0 is that not even the frame without holes fits
 func stpaylen(flags string) int {
-	var hsize int
+	hsize := 4 // The descriptor is d16 if it is not in flags
 	var plen int
 
 	plen = sarflags.Mtu() - 60 - 8 // 60 for IP header, 8 for UDP header
@@ -821,6 +822,9 @@ func stpaylen(flags string) int {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			continue
+		}
 		switch f[0] {
 		case "descriptor":
 			switch f[1] {
@@ -842,7 +846,10 @@ func stpaylen(flags string) int {
 		default:
 		}
 	}
-	plen -= hsize       // For Progress & Inrespto
+	plen -= hsize // For Progress & Inrespto
+	if plen < 0 {
+		return -1
+	}
 	return plen / hsize // Max holes we can now have in the frame
 }
 
@@ -1149,6 +1156,10 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 	if errf == "success" {
 		lasthole = len(h) // How many holes do we have
 	}
+	if maxholes < 0 || (maxholes == 0 && lasthole > 0) {
+		ErrPrintln(g, "red_black", "Status with flags ", sflags, " does not fit the MTU")
+		return "badstatus"
+	}
 
 	var framecnt int // Number of status frames we will need (at least 1)
 	flags := sflags
@@ -1156,8 +1167,7 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 		framecnt = 1
 		flags = sarflags.ReplaceFlag(sflags, "allholes", "yes")
 	} else {
-		h := t.Curfills.Getholes()
-		framecnt = len(h)/maxholes + 1
+		framecnt = (lasthole + maxholes - 1) / maxholes
 		flags = sarflags.ReplaceFlag(sflags, "allholes", "no")
 	}
 
@@ -1170,8 +1180,7 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 		}
 
 		var st status.Status
-		h := t.Curfills.Getholes()
-		sinfo := status.Sinfo{Session: t.Session, Progress: t.Progress, Inrespto: t.Inrespto, Holes: h}
+		sinfo := status.Sinfo{Session: t.Session, Progress: t.Progress, Inrespto: t.Inrespto, Holes: h[starthole:endhole]}
 		if st.New(flags, &sinfo) != nil {
 			ErrPrintln(g, "red_black", "Cannot asemble status")
 			return "badstatus"
-- 
2.43.0


From 3266eaa49298b53272e7c5c6a9c754710ce3dba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:22 +0000
Subject: [PATCH 60/90] fix: trans: AddRxTran takes the request type from the
 reqtype flag, every request was refused [C24]

---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index ebb2117..9a46c19 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -48,7 +48,7 @@ var Transfers = []Transfer{}
 // Create the transfer associated with the received request
 // Send status frame back via the tx channel upon failure or success
 func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan interface{}) bool {
-	ttype := sarflags.GetStr(r.Header, "request")
+	ttype := sarflags.GetStr(r.Header, "reqtype")
 
 	// If a bad version received then send back a Status errcode to the initiator
 	var st status.Status
-- 
2.43.0


From 16c3690f559c360203e71e0f3d8828a53b9e4017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:22 +0000
Subject: [PATCH 61/90] fix: trans: the status that answers a request has the
 request's session [C24]

---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index 9a46c19..84ad8fc 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -52,7 +52,7 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 
 	// If a bad version received then send back a Status errcode to the initiator
 	var st status.Status
-	sinfo := status.Sinfo{Session: 0, Progress: 0, Inrespto: 0, Holes: nil}
+	sinfo := status.Sinfo{Session: r.Session, Progress: 0, Inrespto: 0, Holes: nil}
 
 	if sarflags.GetStr(r.Header, "version") != "v1" {
 		if st.New("errcode=badrequest", &sinfo) != nil {
-- 
2.43.0


From 4fdf60a1ca2de25d6e5dec25aabb6779ddd0e00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:22 +0000
Subject: [PATCH 62/90] fix: trans: use the name of the epoch2000_32 timestamp,
 so that a transfer gets its timestamp [C24]

---
 trans/trans.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trans/trans.go b/trans/trans.go
index 84ad8fc..d40be4d 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -23,7 +23,7 @@ type Transfer struct {
 	Rxwilling string              // Are we willing to receive files (ignored): no,invalid,capable,yes
 	Txwilling string              // Are we willing to send files (ignored): no,invalid,capable,yes
 	Filename  string              // Remote File name to get/put (if null send error status)
-	Timetype  string              // Timestamp type: posix32, posix64, posix32_32, posix64_32, epock2000_32, ""
+	Timetype  string              // Timestamp type: posix32, posix64, posix32_32, posix64_32, epoch2000_32, ""
 	Tstamp    timestamp.Timestamp // Timestamp used in transfer
 	Stflags   string              // Status Flags currently set WORK ON THIS!!!!!
 	Csumtype  string              // What type of checksum are we using
@@ -203,7 +203,7 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 		tx <- st.Val(from)
 		return false
 	}
-	timetype := "epoch_2000_32"
+	timetype := "epoch2000_32"
 	ts := new(timestamp.Timestamp)
 	ts.Now(timetype)
 	dent := new(dirent.DirEnt)
-- 
2.43.0


From 597564a71eb1e0778d857703a85526b6fb0714c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:22 +0000
Subject: [PATCH 63/90] fix: fileio: FileRm does not remove the saratoga
 directory itself [C23]

---
 fileio/fileio.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 3e4a197..1444450 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -145,6 +145,9 @@ func FileClose(fp *os.File) error {
 // Just Zap the file
 func FileRm(fname string) error {
 	fullname := fullpath(fname)
+	if fullname == fullpath("") {
+		return fmt.Errorf("cannot remove the saratoga directory %s", fullname)
+	}
 	return os.Remove(fullname)
 }
 
-- 
2.43.0


From e5c4f72e4b05555ebd4e63e20dc0574c10a88628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:09 +0000
Subject: [PATCH 64/90] fix: sarwin: txwilling on and off set options that the
 txwilling flag has [C18]

---
 sarwin/sarwin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 2e13af0..ae80686 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2430,10 +2430,10 @@ func cmdTxwilling(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("txwilling"))
 			return
 		case "on":
-			sarflags.Cliflag.Global["txwilling"] = "on"
+			sarflags.Cliflag.Global["txwilling"] = "yes"
 			return
 		case "off":
-			sarflags.Cliflag.Global["txwilling"] = "off"
+			sarflags.Cliflag.Global["txwilling"] = "no"
 			return
 		case "capable":
 			sarflags.Cliflag.Global["txwilling"] = "capable"
-- 
2.43.0


From 18615463db1c6b107b7a57cb3ab583cdb4e11556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:09 +0000
Subject: [PATCH 65/90] fix: sarwin: Run does nothing for a line of white space
 instead of panicking [C18]

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index ae80686..29f0874 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2505,7 +2505,7 @@ var cmdhandler = map[string]cmdfunc{
 
 // Lookup and run the command
 func Run(g *gocui.Gui, name string) bool {
-	if name == "" { // Handle just return
+	if strings.TrimSpace(name) == "" { // Handle just return
 		return true
 	}
 	// for k, v := range c.Global {
-- 
2.43.0


From 485acae50ca8a8bd8a0be054cb7c2a285a3240fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:09 +0000
Subject: [PATCH 66/90] fix: sarwin: GetLine ignores a line without a prompt
 instead of panicking [C18]

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 29f0874..8c8159c 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -585,7 +585,7 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		line, _ := v.Line(cy)
 
 		command := strings.SplitN(line, ":", 2)
-		if command[1] == "" { // We have just hit enter - do nothing
+		if len(command) < 2 || command[1] == "" { // We have just hit enter - do nothing
 			return nil
 		}
 		// Save the command into history
-- 
2.43.0


From 99a0260c924e4b5db46e08fb0dd3eba3fe395caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:28 +0000
Subject: [PATCH 67/90] fix: saratoga: send the answers, which the main loop
 waited for itself to take and then only printed [C25]

---
 saratoga/saratoga.go | 82 +++++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 50 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 28ec1ed..45bba20 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -423,6 +423,36 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 	}
 }
 
+// Send -- Go routine for sending the frames that come down the tx channel to the peer they are for
+// It runs on its own so that whoever has a frame to send never waits on itself
+func send(g *gocui.Gui, conn *net.UDPConn, tx chan interface{}) {
+	for frame := range tx {
+		var err error
+		switch pkt := frame.(type) {
+		case beacon.Packet:
+			sarwin.PacketPrintln(g, "blue_black", "Tx ", pkt.Info.ShortPrint())
+			err = errors.New("beacons are sent by the beacon command")
+		case data.Packet:
+			sarwin.PacketPrintln(g, "blue_black", "Tx ", pkt.Info.ShortPrint())
+			err = pkt.Info.Send(conn, &pkt.Addr)
+		case metadata.Packet:
+			sarwin.PacketPrintln(g, "blue_black", "Tx ", pkt.Info.ShortPrint())
+			err = pkt.Info.Send(conn, &pkt.Addr)
+		case request.Packet:
+			sarwin.PacketPrintln(g, "blue_black", "Tx ", pkt.Info.ShortPrint())
+			err = pkt.Info.Send(conn, &pkt.Addr)
+		case status.Packet:
+			sarwin.PacketPrintln(g, "blue_black", "Tx ", pkt.Info.ShortPrint())
+			err = pkt.Info.Send(conn, &pkt.Addr)
+		default:
+			err = errors.New("need to send invalid Saratoga Frame")
+		}
+		if err != nil {
+			sarwin.ErrPrintln(g, "red_black", "Unable to send frame:", err)
+		}
+	}
+}
+
 // Peer - beacon peer
 type Peer struct {
 	Addr      string              // The Peer IP Address. is format net.UDPAddr.IP.String()
@@ -584,6 +614,7 @@ func main() {
 	rxv6frame := make(chan interface{}) // We receive v6 decoded frames on this channel
 	txv6frame := make(chan interface{}) // We transmit v6 encoded frames on this channel
 	go listen(g, v6mcastcon, rxv6frame, txv6frame, v6listenquit)
+	go send(g, v6mcastcon, txv6frame)
 	sarwin.MsgPrintln(g, "green_black", "Saratoga IPv6 Multicast Listener started on ",
 		sarnet.UDPinfo(&v6mcastaddr))
 
@@ -592,6 +623,7 @@ func main() {
 	rxv4frame := make(chan interface{}) // Wee receive decoded v4 frames on this channel
 	txv4frame := make(chan interface{}) // We transmit encoded v4 frames on this channel
 	go listen(g, v4mcastcon, rxv4frame, txv4frame, v4listenquit)
+	go send(g, v4mcastcon, txv4frame)
 	sarwin.MsgPrintln(g, "green_black", "Saratoga IPv4 Multicast Listener started on ",
 		sarnet.UDPinfo(&v4mcastaddr))
 
@@ -669,56 +701,6 @@ func main() {
 			default:
 				sarwin.ErrPrintln(g, "white_black", "Received v6 Saratoga INVALID Frame")
 			}
-		case txv4 := <-txv4frame:
-			switch txv4.(type) {
-			case beacon.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v4 Saratoga BEACON Frame")
-				pkt := txv4.(beacon.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case data.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v4 Saratoga DATA Frame")
-				pkt := txv4.(data.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case metadata.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v4 Saratoga METADATA Frame")
-				pkt := txv4.(metadata.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case request.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v4 Saratoga REQUEST Frame")
-				pkt := txv4.(request.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case status.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v4 Saratoga STATUS Frame")
-				pkt := txv4.(status.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			default:
-				sarwin.ErrPrintln(g, "red_black", "Need to send v4 Saratoga INVALID Frame")
-			}
-		case txv6 := <-txv6frame:
-			switch txv6.(type) {
-			case beacon.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v6 Saratoga BEACON Frame")
-				pkt := txv6.(beacon.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case data.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v6 Saratoga DATA Frame")
-				pkt := txv6.(data.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case metadata.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v6 Saratoga METADATA Frame")
-				pkt := txv6.(metadata.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case request.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v6 Saratoga REQUEST Frame")
-				pkt := txv6.(request.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			case status.Packet:
-				sarwin.MsgPrintln(g, "blue_black", "Need to send v6 Saratoga STATUS Frame")
-				pkt := txv6.(status.Packet)
-				sarwin.MsgPrintln(g, "blue_black", pkt.Info.ShortPrint())
-			default:
-				sarwin.ErrPrintln(g, "blue_black", "Need to send v6 Saratoga INVALID Frame")
-			}
 		case v4err := <-v4listenquit:
 			log.Fatal("Saratoga v4 listener has quit with error:", v4err)
 		case v6err := <-v6listenquit:
-- 
2.43.0


From cd2c65be5e15a4310ee1aed7229e27f2a45918f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 68/90] fix: sarwin: the beacon command sends to the first of
 several addresses too [C29]

---
 sarwin/sarwin.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8c8159c..3cdb8f6 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1357,14 +1357,18 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			return
 		}
 	}
-	for i := 2; i < len(args); i++ {
+	first := 1 // beacon <ip> <ip> ...
+	if args[1] == "off" {
+		first = 2 // beacon off <ip> <ip> ...
+	}
+	for i := first; i < len(args); i++ {
 		if args[1] == "off" {
 			if addr, err := sarnet.UDPAddress(args[i]); err == nil {
 				clibeacon.hosts = sarnet.RemoveUDPAddrValue(clibeacon.hosts, addr)
 				continue
 			}
 		}
-		// Otherwise we have more args than 1 so send the beacon from the first arg
+		// Otherwise we have more args than 1 so send the beacon to each of them
 		if addr, err := sarnet.UDPAddress(args[i]); err == nil {
 			MsgPrintln(g, "green_black", "Sending ", clibeacon.count, " beacons to ", addr.String())
 			sendbeacons(g, clibeacon, addr)
-- 
2.43.0


From a4f80addd9997578a7ba900e2d5901ee5b7d799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 69/90] fix: saratoga: the answer to data that is too short has
 the session of the data [C30]

---
 saratoga/saratoga.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 45bba20..1cdbc33 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -293,13 +293,14 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 				var st status.Status
 				stheader := "descriptor=" + sarflags.GetStr(header, "descriptor") +
 					",metadatarecvd=no,allholes=yes,reqholes=requested,errcode=badpacket"
-				sinfo := status.Sinfo{Session: d.Session, Progress: d.Offset, Inrespto: 0, Holes: nil}
+				session := binary.BigEndian.Uint32(framebuf[4:8]) // Decode may not have got that far
+				sinfo := status.Sinfo{Session: session, Progress: d.Offset, Inrespto: 0, Holes: nil}
 				if st.New(stheader, &sinfo) != nil {
 					sarwin.ErrPrintln(g, "red_black", "Cannot create badpacket status")
 					continue
 				}
 				sarwin.ErrPrintln(g, "red_black", "Bad Data:", rxerr, " from ",
-					sarnet.UDPinfo(remoteAddr), " session ", d.Session)
+					sarnet.UDPinfo(remoteAddr), " session ", session)
 				// Send a badpacket status back to the sender
 				tx <- st.Val(remoteAddr)
 				continue
-- 
2.43.0


From cf5e697e202a962c5fffeeea18e33d73f1b0fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 70/90] fix: saratoga: the answer to a bad frame with a 128 bit
 descriptor can be sent [C30]

---
 saratoga/saratoga.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 1cdbc33..bab50f6 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -159,6 +159,15 @@ func starxhandler(g *gocui.Gui, s status.Status, conn *net.UDPConn, remoteAddr *
 }
 */
 
+// The descriptor of the status frame that answers a frame with this header
+// It is that of the frame, other than d128 which is not supported in a status frame we send
+func answerdesc(header uint32) string {
+	if desc := sarflags.GetStr(header, "descriptor"); desc != "d128" {
+		return desc
+	}
+	return "d64"
+}
+
 // Listen -- Go routine for recieving IPv4 & IPv6 for incoming frames and shunt them off to the
 // correct frame handlers
 // incoming frames are via rx channel interface,
@@ -291,7 +300,7 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 			if rxerr = d.Decode(framebuf); rxerr != nil {
 				// Bad Packet send back a Status to the sender with current offset and session
 				var st status.Status
-				stheader := "descriptor=" + sarflags.GetStr(header, "descriptor") +
+				stheader := "descriptor=" + answerdesc(header) +
 					",metadatarecvd=no,allholes=yes,reqholes=requested,errcode=badpacket"
 				session := binary.BigEndian.Uint32(framebuf[4:8]) // Decode may not have got that far
 				sinfo := status.Sinfo{Session: session, Progress: d.Offset, Inrespto: 0, Holes: nil}
@@ -335,7 +344,7 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 				session := binary.BigEndian.Uint32(framebuf[4:8])
 				var st status.Status
 				// Bad Packet send back a Status to the client
-				stheader := "descriptor=" + sarflags.GetStr(header, "descriptor") +
+				stheader := "descriptor=" + answerdesc(header) +
 					",metadatarecvd=no,allholes=yes,reqholes=requested,errcode=badpacket"
 				sinfo := status.Sinfo{Session: session, Progress: 0, Inrespto: 0, Holes: nil}
 				if st.New(stheader, &sinfo) != nil {
@@ -379,7 +388,7 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 				session := binary.BigEndian.Uint32(framebuf[4:8])
 				var st status.Status
 				// Bad Packet send back a Status to the sender
-				stheader := "descriptor=" + sarflags.GetStr(header, "descriptor") +
+				stheader := "descriptor=" + answerdesc(header) +
 					",metadatarecvd=no,allholes=yes,reqholes=requested,errcode=badpacket"
 				sinfo := status.Sinfo{Session: session, Progress: 0, Inrespto: 0, Holes: nil}
 				if st.New(stheader, &sinfo) != nil {
-- 
2.43.0


From 1093047ef1ee01cb1e13a90b3fcb014c276d0705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 71/90] fix: sarwin: two rmtran commands at a time remove what
 they name, and looking at the transfers meanwhile does not panic [C17]

---
 sarwin/sarwin.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 3cdb8f6..cb27a8e 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -903,6 +903,8 @@ var Transfers = []Transfer{}
 
 // Lookup - Return a pointer to the transfer if we find it in Transfers, nil otherwise
 func Lookup(direction bool, session uint32, peer string) *Transfer {
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for i := range Transfers {
 		// Check if direction (Initiator or Responder), session # and IP address match in our current
 		// list of transfers (if so then return a pointer to it)
@@ -916,6 +918,13 @@ func Lookup(direction bool, session uint32, peer string) *Transfer {
 
 // Lookup a host & session and return transfer pointer or nil if it does not exist
 func Match(addr string, session uint32) *Transfer {
+	Trmu.Lock()
+	defer Trmu.Unlock()
+	return match(addr, session)
+}
+
+// match - Match for a caller that holds Trmu
+func match(addr string, session uint32) *Transfer {
 	for i := len(Transfers) - 1; i >= 0; i-- {
 		if addr == Transfers[i].Peer.String() && session == Transfers[i].Session {
 			return &Transfers[i]
@@ -1096,11 +1105,13 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 func Info(g *gocui.Gui, ttype string) {
 	var tinfo []Transfer
 
+	Trmu.Lock()
 	for i := range Transfers {
 		if ttype == "" || Transfers[i].Ttype == ttype {
 			tinfo = append(tinfo, Transfers[i])
 		}
 	}
+	Trmu.Unlock()
 	if len(tinfo) > 0 {
 		var maxaddrlen, maxfname int // Work out the width for the table
 		for key := range tinfo {
@@ -1225,7 +1236,11 @@ func (t *Transfer) Change(g *gocui.Gui, m metadata.MetaData) error {
 func (t *Transfer) Remove() error {
 	Trmu.Lock()
 	defer Trmu.Unlock()
+	return t.remove()
+}
 
+// remove - Remove for a caller that holds Trmu
+func (t *Transfer) remove() error {
 	for i := len(Transfers) - 1; i >= 0; i-- {
 		if t.Direction == Transfers[i].Direction && t.Session == Transfers[i].Session &&
 			t.Peer.String() == Transfers[i].Peer.String() {
@@ -2107,8 +2122,11 @@ func cmdRmtran(g *gocui.Gui, args []string) {
 		addr := args[2]
 		// We are unsigned so Atoi does not cut it
 		if session, err := strconv.ParseUint(args[3], 10, 32); err == nil {
-			if t := Match(addr, uint32(session)); t != nil {
-				if err := t.Remove(); err != nil {
+			// Nothing may be removed in between, the transfer that t points to would be another
+			Trmu.Lock()
+			defer Trmu.Unlock()
+			if t := match(addr, uint32(session)); t != nil {
+				if err := t.remove(); err != nil {
 					MsgPrintln(g, "red_black", err.Error())
 				}
 				return
-- 
2.43.0


From 729b0b2325521bebe8c9ec8f773b6b7b3b82b7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 72/90] fix: sarwin: peers lists a copy of the peers, which
 beacons that arrive meanwhile change [C31]

---
 beacon/beacon.go |  7 +++++++
 sarwin/sarwin.go | 47 ++++++++++++++++++++++++-----------------------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index d8a8e62..88a31e2 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -361,6 +361,13 @@ var pmu sync.Mutex // Protect Peers
 // Peers - Slices of unique Peer information learned from beacons
 var Peers []Peer
 
+// CopyPeers - A copy of Peers, which change as beacons arrive
+func CopyPeers() []Peer {
+	pmu.Lock()
+	defer pmu.Unlock()
+	return append([]Peer(nil), Peers...)
+}
+
 // NewPeer - Add/Change peer info from received beacon
 func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	if from == nil {
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index cb27a8e..886680b 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1834,31 +1834,32 @@ func cmdLs(g *gocui.Gui, args []string) {
 func cmdPeers(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1:
-		if len(beacon.Peers) == 0 {
+		peers := beacon.CopyPeers() // Beacons may be changing them now
+		if len(peers) == 0 {
 			MsgPrintln(g, "green_black", "No Peers")
 			return
 		}
 		// Table format
 		// Work out the max length of each field
 		var addrlen, eidlen, dcrelen, dmodlen, cantxlen, canrxlen int
-		for p := range beacon.Peers {
-			if len(beacon.Peers[p].Addr) > addrlen {
-				addrlen = len(beacon.Peers[p].Addr)
+		for p := range peers {
+			if len(peers[p].Addr) > addrlen {
+				addrlen = len(peers[p].Addr)
 			}
-			if len(beacon.Peers[p].Eid) > eidlen {
-				eidlen = len(beacon.Peers[p].Eid)
+			if len(peers[p].Eid) > eidlen {
+				eidlen = len(peers[p].Eid)
 			}
-			if len(beacon.Peers[p].Canrx) > canrxlen {
-				canrxlen = len(beacon.Peers[p].Canrx)
+			if len(peers[p].Canrx) > canrxlen {
+				canrxlen = len(peers[p].Canrx)
 			}
-			if len(beacon.Peers[p].Cantx) > cantxlen {
-				cantxlen = len(beacon.Peers[p].Cantx)
+			if len(peers[p].Cantx) > cantxlen {
+				cantxlen = len(peers[p].Cantx)
 			}
-			if len(beacon.Peers[p].Created.Print()) > dcrelen {
-				dcrelen = len(beacon.Peers[p].Created.Print())
+			if len(peers[p].Created.Print()) > dcrelen {
+				dcrelen = len(peers[p].Created.Print())
 			}
-			if len(beacon.Peers[p].Created.Print()) > dmodlen {
-				dmodlen = len(beacon.Peers[p].Updated.Print())
+			if len(peers[p].Created.Print()) > dmodlen {
+				dmodlen = len(peers[p].Updated.Print())
 			}
 		}
 		if eidlen < 3 {
@@ -1880,15 +1881,15 @@ func cmdPeers(g *gocui.Gui, args []string) {
 		sfmt := fmt.Sprintf("|%%%ds|%%6s|%%%ds|%%3s|%%%ds|%%%ds|%%%ds|%%%ds|\n",
 			addrlen, eidlen, canrxlen, cantxlen, dcrelen, dmodlen)
 		var sslice sort.StringSlice
-		for key := range beacon.Peers {
-			pinfo := fmt.Sprintf(sfmt, beacon.Peers[key].Addr,
-				strconv.Itoa(int(beacon.Peers[key].Freespace/1024/1024)),
-				beacon.Peers[key].Eid,
-				beacon.Peers[key].Maxdesc,
-				beacon.Peers[key].Canrx,
-				beacon.Peers[key].Cantx,
-				beacon.Peers[key].Created.Print(),
-				beacon.Peers[key].Updated.Print())
+		for key := range peers {
+			pinfo := fmt.Sprintf(sfmt, peers[key].Addr,
+				strconv.Itoa(int(peers[key].Freespace/1024/1024)),
+				peers[key].Eid,
+				peers[key].Maxdesc,
+				peers[key].Canrx,
+				peers[key].Cantx,
+				peers[key].Created.Print(),
+				peers[key].Updated.Print())
 			sslice = append(sslice, pinfo)
 		}
 		sort.Sort(sslice)
-- 
2.43.0


From 3526c16cd52eeeeecca46f28e30bfbccd0e52f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:30 +0000
Subject: [PATCH 73/90] fix: sarwin: a transfer takes its timestamp type from
 its own copy of the flags [C31]

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 886680b..5dde61e 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -960,7 +960,6 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	t := new(Transfer)
 	t.Direction = Initiator
 	t.Ttype = ttype
-	t.Tstamptype = c.Timestamp
 	t.Session = newsession()
 	t.Peer = peer
 
@@ -970,6 +969,7 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 		ErrPrintln(g, "red_black", err)
 		return nil, err
 	}
+	t.Tstamptype = t.Cliflags.Timestamp
 
 	// Dial the peer to create the connection
 	if t.Conn, err = net.DialUDP("udp", nil, peer); err != nil {
-- 
2.43.0


From 2b45d064fc4107994ab863348ff4fc729f985590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:27 +0000
Subject: [PATCH 74/90] fix: sarwin: a new prompt after a command that wraps on
 to further rows [C32]

---
 sarwin/sarwin.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 5dde61e..3a76534 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -522,23 +522,24 @@ func prompt(g *gocui.Gui, v *gocui.View) {
 	}
 	_, oy := v.Origin()
 	_, cy := v.Cursor()
-	// Only display it if it is on the next new line
-	if oy+cy == Cinfo.Curline {
-		if FirstPass { // Just the prompt no precedin \n as we are the first line
-			CmdPrintf(g, "yellow_black", "%s[%d]:", Cinfo.Prompt, Cinfo.Curline)
-			v.SetCursor(promptlen(Cinfo), cy)
-			return
-		}
+	if FirstPass { // Just the prompt no precedin \n as we are the first line
+		CmdPrintf(g, "yellow_black", "%s[%d]:", Cinfo.Prompt, Cinfo.Curline)
+		v.SetCursor(promptlen(Cinfo), cy)
+		return
+	}
+	// Only display it if it is on the next new line, that is we are on the line of the last prompt
+	// A long command wraps so the row we are on does not tell us
+	line, _ := v.Line(cy)
+	if strings.HasPrefix(line, fmt.Sprintf("%s[%d]:", Cinfo.Prompt, Cinfo.Curline)) {
 		// End the last command by going to new lin \n then put up the new prompt
 		Cinfo.Curline++
 		CmdPrintf(g, "yellow_black", "\n%s[%d]:", Cinfo.Prompt, Cinfo.Curline)
-		_, cy := v.Cursor()
-		v.SetCursor(promptlen(Cinfo), cy)
-		if err := CursorDown(g, v); err != nil {
-			ErrPrintln(g, "red_black", "Cannot move to next line")
+		// It goes on the row after the last one, or on the bottom one as the view scrolls
+		row := len(v.ViewBufferLines()) - oy
+		if _, sy := v.Size(); row > sy-1 {
+			row = sy - 1
 		}
-		_, cy = v.Cursor()
-		v.SetCursor(promptlen(Cinfo), cy+1)
+		v.SetCursor(promptlen(Cinfo), row)
 	}
 }
 
-- 
2.43.0


From 6a57859859851977036319ad72700a0d3456b9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:27 +0000
Subject: [PATCH 75/90] fix: sarwin: backspace works on the rows a command
 wraps on to [C32]

---
 sarwin/sarwin.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 3a76534..4f54c85 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -412,7 +412,7 @@ func BackSpace(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
 		cx, _ := v.Cursor()
-		if cx <= promptlen(Cinfo) { // Dont move we are at the prompt
+		if atprompt(v, cx) { // Dont move we are at the prompt
 			return nil
 		}
 		// Delete rune backwards
@@ -428,7 +428,7 @@ func CursorLeft(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
 		cx, cy := v.Cursor()
-		if cx <= promptlen(Cinfo) { // Dont move we are at the prompt
+		if atprompt(v, cx) { // Dont move we are at the prompt
 			return nil
 		}
 		// Move back a character
@@ -507,6 +507,18 @@ func CursorUp(g *gocui.Gui, v *gocui.View) error {
 	return nil
 }
 
+// Is this column of the cursors row in the prompt
+// The rows that a long command wraps on to do not have one
+func atprompt(v *gocui.View, cx int) bool {
+	_, oy := v.Origin()
+	_, cy := v.Cursor()
+	rows := v.ViewBufferLines()
+	if row := oy + cy; row >= 0 && row < len(rows) && !strings.HasPrefix(rows[row], Cinfo.Prompt+"[") {
+		return false
+	}
+	return cx <= promptlen(Cinfo)
+}
+
 // Return the length of the prompt
 func promptlen(v Cmdinfo) int {
 	return len(v.Prompt) + len(strconv.Itoa(v.Curline)) + v.Ppad
-- 
2.43.0


From 9c911ee757c2602a45d6a4be3860c332c1262361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:27 +0000
Subject: [PATCH 76/90] fix: sarwin: a terminal made too small for the windows
 does not end the node [C32]

---
 sarwin/sarwin.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 4f54c85..c2d674e 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -164,6 +164,12 @@ func PacketPrintln(g *gocui.Gui, colour string, args ...interface{}) {
 // FirstPass -- First time around layout we don;t put \n at end of prompt
 var FirstPass = true
 
+// minx, miny -- The smallest terminal that every view has at least a column and a row on
+const (
+	minx = 16
+	miny = 16
+)
+
 func Layout(g *gocui.Gui) error {
 	var err error
 	var cmd *gocui.View
@@ -174,6 +180,10 @@ func Layout(g *gocui.Gui) error {
 
 	// Maximum size of x and y
 	maxx, maxy := g.Size()
+	// The views do not fit on a terminal this small, leave them as they are until it grows again
+	if !FirstPass && (maxx < minx || maxy < miny) {
+		return nil
+	}
 	// This is the command line input view -- cli inputs and return messages go here
 	if cmd, err = g.SetView("cmd", 0, maxy-(maxy/ratio)+1, maxx/2-1, maxy-1); err != nil {
 		if err != gocui.ErrUnknownView {
-- 
2.43.0


From 97ae919c3f9239d44379d98e324b12831db00dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:53 +0000
Subject: [PATCH 77/90] fix: sarwin: the cursor goes by characters, not bytes,
 of the line and the prompt [C32]

---
 sarwin/sarwin.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index c2d674e..ebf0296 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -458,8 +458,9 @@ func CursorRight(g *gocui.Gui, v *gocui.View) error {
 	case "cmd":
 		cx, cy := v.Cursor()
 		line, _ := v.Line(cy)
-		if cx >= len(line)-1 { // We are at the end of line do nothing
-			v.SetCursor(len(line), cy)
+		width := len([]rune(line)) // A character is one column however many bytes it has
+		if cx >= width-1 {         // We are at the end of line do nothing
+			v.SetCursor(width, cy)
 			return nil
 		}
 		// Move forward a character
@@ -531,7 +532,7 @@ func atprompt(v *gocui.View, cx int) bool {
 
 // Return the length of the prompt
 func promptlen(v Cmdinfo) int {
-	return len(v.Prompt) + len(strconv.Itoa(v.Curline)) + v.Ppad
+	return len([]rune(v.Prompt)) + len(strconv.Itoa(v.Curline)) + v.Ppad
 }
 
 // Cprompt - Command line prompt
-- 
2.43.0


From 5ed84dec1242d2dbe4f2a25d4ef19bf282382fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:48 +0000
Subject: [PATCH 78/90] fix: sarwin: timeout metadata tells the metadata
 timeout, whatever that of requests is [C33]

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index ebf0296..0992d3f 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2268,7 +2268,7 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 				MsgPrintln(g, "green_black", "request:", sarflags.Cliflag.Timeout.Request, " sec")
 			}
 		case "metadata":
-			if sarflags.Cliflag.Timeout.Request == 0 {
+			if sarflags.Cliflag.Timeout.Metadata == 0 {
 				MsgPrintln(g, "green_black", "metadata:No Timeout")
 			} else {
 				MsgPrintln(g, "green_black", "metadata:", sarflags.Cliflag.Timeout.Metadata, " sec")
-- 
2.43.0


From bb68ab7dcb319c577b10c32c5e1463e0499249fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:48 +0000
Subject: [PATCH 79/90] fix: sarwin: timeout, peers and get say so when they
 cannot do what is asked [C33]

---
 sarwin/sarwin.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 0992d3f..1b1d0ba 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1646,6 +1646,8 @@ func cmdGet(g *gocui.Gui, args []string) {
 			if _, err := NewInitiator(g, "get", udpad, args[2], sarflags.Cliflag); err != nil {
 				return
 			}
+		} else {
+			ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
 		}
 		return
 	}
@@ -1933,10 +1935,9 @@ func cmdPeers(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("peers"))
 			return
 		}
-	default:
-		MsgPrintln(g, "magenta_black", prhelp("peers"))
-		ErrPrintln(g, "red_black", prusage("peers"))
 	}
+	MsgPrintln(g, "magenta_black", prhelp("peers"))
+	ErrPrintln(g, "red_black", prusage("peers"))
 }
 
 // Initiator _put_
@@ -2357,6 +2358,8 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 			case "transfer":
 				sarflags.Cliflag.Timeout.Transfer = 60
 				MsgPrintln(g, "green_black", "transfer:", sarflags.Cliflag.Timeout.Transfer, " sec")
+			default:
+				ErrPrintln(g, "red_black", prusage("timeout"))
 			}
 			return
 		}
-- 
2.43.0


From b0048b99e825fce3953b01d0b1c7a55c28864ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:48 +0000
Subject: [PATCH 80/90] fix: sarwin: the transfers of take, give and delete are
 listed by the names they have [C33]

---
 sarwin/sarwin.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 1b1d0ba..829a228 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -878,7 +878,7 @@ func stpaylen(flags string) int {
 }
 
 // Ttypes - Transfer types
-var Ttypes = []string{"get", "getrm", "getdir", "put", "putblind", "putrm", "rm", "rmdir"}
+var Ttypes = []string{"get", "take", "getdir", "put", "putblind", "give", "delete", "rm", "rmdir"}
 
 // Transfer direction we are an initiator of a transfer or a respondant to a request for a transfer
 const Initiator bool = true
@@ -1684,7 +1684,7 @@ func cmdGetdir(g *gocui.Gui, args []string) {
 func cmdTake(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1:
-		Info(g, "getrm")
+		Info(g, "take")
 		return
 	case 2:
 		if args[1] == "?" {
@@ -2027,7 +2027,7 @@ func cmdGive(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1:
-		Info(g, "putrm")
+		Info(g, "give")
 		return
 	case 2:
 		if args[1] == "?" {
@@ -2096,7 +2096,7 @@ func cmdDelete(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1:
-		Info(g, "rm")
+		Info(g, "delete")
 		return
 	case 2:
 		if args[1] == "?" {
-- 
2.43.0


From 0197806fc7e6f185d946ccbf13b3ea4d3286d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:48 +0000
Subject: [PATCH 81/90] fix: sarwin: a transfer is listed with its own
 direction [C33]

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 829a228..80fe0c3 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1279,7 +1279,7 @@ func (t *Transfer) remove() error {
 
 // FmtPrint - String of relevant transfer info
 func (t *Transfer) FmtPrint(sfmt string) string {
-	return fmt.Sprintf(sfmt, "Initiator",
+	return fmt.Sprintf(sfmt, Directions[t.Direction],
 		t.Ttype,
 		t.Peer.String(),
 		t.Filename)
-- 
2.43.0


From 9116c427145db1eaf7e8fd1d3cede2256febc879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:48 +0000
Subject: [PATCH 82/90] fix: sarwin: cancel, ls, quit, put and give tell their
 own help and usage [C33]

---
 sarwin/sarwin.go | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 80fe0c3..abef31a 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1419,6 +1419,11 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 }
 
 func cmdCancel(g *gocui.Gui, args []string) {
+	if len(args) == 2 && args[1] == "?" { // usage
+		MsgPrintln(g, "magenta_black", prhelp("cancel"))
+		MsgPrintln(g, "green_black", prusage("cancel"))
+		return
+	}
 	MsgPrintln(g, "green_black", args)
 }
 
@@ -1563,8 +1568,8 @@ func cmdExit(g *gocui.Gui, args []string) {
 	case 2:
 		switch args[1] {
 		case "?": // Usage
-			MsgPrintln(g, "magenta_black", prhelp("exit"))
-			MsgPrintln(g, "green_black", prusage("exit"))
+			MsgPrintln(g, "magenta_black", prhelp(args[0]))
+			MsgPrintln(g, "green_black", prusage(args[0]))
 		case "0": // exit 0
 			Cexit = 0
 			MsgPrintln(g, "green_black", "Good Bye!")
@@ -1572,10 +1577,10 @@ func cmdExit(g *gocui.Gui, args []string) {
 			Cexit = 1
 			MsgPrintln(g, "green_black", "Good Bye!")
 		default: // Help
-			ErrPrintln(g, "red_black", prusage("exit"))
+			ErrPrintln(g, "red_black", prusage(args[0]))
 		}
 	default:
-		ErrPrintln(g, "red_black", prusage("exit"))
+		ErrPrintln(g, "red_black", prusage(args[0]))
 	}
 }
 
@@ -1843,17 +1848,19 @@ func cmdHome(g *gocui.Gui, args []string) {
 }
 
 func cmdLs(g *gocui.Gui, args []string) {
-	if len(args) != 0 {
-		ErrPrintln(g, "red_bblack", prusage("ls"))
-		return
-	}
-	switch args[1] {
-	case "?":
-		MsgPrintln(g, "magenta_black", prhelp("ls"))
-		MsgPrintln(g, "green_black", prusage("ls"))
+	switch len(args) {
+	case 1:
+		MsgPrintln(g, "green_black", "ls not implemented yet")
 		return
+	case 2:
+		switch args[1] {
+		case "?":
+			MsgPrintln(g, "magenta_black", prhelp("ls"))
+			MsgPrintln(g, "green_black", prusage("ls"))
+			return
+		}
 	}
-	MsgPrintln(g, "green_black", "ls not implemented yet")
+	ErrPrintln(g, "red_black", prusage("ls"))
 }
 
 // Display all of the peer information learned frm beacons
@@ -1971,8 +1978,8 @@ func cmdPut(g *gocui.Gui, args []string) {
 				close(errflag)
 				return
 			}
-			MsgPrintln(g, "magenta_black", prhelp("getrm"))
-			ErrPrintln(g, "green_black", prusage("getrm"))
+			MsgPrintln(g, "magenta_black", prhelp("put"))
+			ErrPrintln(g, "green_black", prusage("put"))
 			return
 		}
 		ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
@@ -2054,11 +2061,13 @@ func cmdGive(g *gocui.Gui, args []string) {
 				MsgPrintln(g, "red_black", "Give and remove (ADD MORE CODE  HERE!!!!) local file:", t.Print())
 				return
 			}
-			ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
+			MsgPrintln(g, "magenta_black", prhelp("give"))
+			ErrPrintln(g, "green_black", prusage("give"))
+			return
 		}
-		ErrPrintln(g, "red_black", prusage("putblind"))
+		ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
 	}
-	ErrPrintln(g, "red_black", prusage("putrm"))
+	ErrPrintln(g, "red_black", prusage("give"))
 }
 
 func cmdReqtstamp(g *gocui.Gui, args []string) {
-- 
2.43.0


From 01537aab28e7ab654e24cdbe69970853b7a6fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 83/90] fix: sarwin: clear leaves the clearing of a window to
 the main loop, which may be drawing it [C31]

---
 sarwin/sarwin.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index abef31a..e742aae 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -105,16 +105,17 @@ type Cmdinfo struct {
 // Clear a window
 func Clearwin(g *gocui.Gui, win string) {
 
-	var newview *gocui.View
-
-	curview := g.CurrentView()
-	curname := curview.Name()
-	// x, y := curview.Cursor()
 	if win == "msg" || win == "err" || win == "packet" {
-		newview, _ = g.SetCurrentView(win)
-		newview.Clear()
-		newview.SetCursor(0, 0)
-		g.SetCurrentView(curname)
+		// The main loop may be writing to it or drawing it now, so let it do this
+		g.Update(func(g *gocui.Gui) error {
+			v, err := g.View(win)
+			if err != nil {
+				return err
+			}
+			v.Clear()
+			v.SetCursor(0, 0)
+			return nil
+		})
 	}
 }
 
-- 
2.43.0


From 6c8007af24fac77b4f963df91785cb3eb53b0e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 84/90] fix: sarwin: what is printed after a window is cleared
 is shown [C33]

---
 sarwin/sarwin.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index e742aae..b230d1d 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -114,6 +114,7 @@ func Clearwin(g *gocui.Gui, win string) {
 			}
 			v.Clear()
 			v.SetCursor(0, 0)
+			v.SetOrigin(0, 0) // Otherwise what is printed next is above what is shown
 			return nil
 		})
 	}
-- 
2.43.0


From 141164a5823ba9526d6d39024fb1f6a2ff7396a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:45 +0000
Subject: [PATCH 85/90] fix: exit and quit end the node with the exit status
 asked for, and give the terminal back [C34]

---
 saratoga/saratoga.go | 35 +++++++++++++++++++++--------------
 sarwin/sarwin.go     | 20 +++++++++++---------
 2 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index bab50f6..070fa38 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -539,12 +539,11 @@ func main() {
 	// Get Host Interfaces & Address's
 	ifis, ierr := net.Interfaces()
 	if ierr != nil {
-		fmt.Println(ierr.Error())
-		log.Fatal(ierr)
+		fatal(g, ierr)
 	}
 	g.SetManagerFunc(sarwin.Layout)
 	if err := sarwin.Keybindings(g); err != nil {
-		log.Panicln(err)
+		fatal(g, err)
 	}
 
 	// Show Host Interfaces & Address's
@@ -576,11 +575,10 @@ func main() {
 	// Set up for Listen to Multicast v6
 	v6mcastcon, err := net.ListenMulticastUDP("udp6", iface, &v6mcastaddr)
 	if err != nil {
-		log.Println("Saratoga Unable to Listen on IPv6 Multicast ", v6mcastaddr.IP, " ", v6mcastaddr.Port)
-		log.Fatal(err)
+		fatal(g, "Saratoga Unable to Listen on IPv6 Multicast ", v6mcastaddr.IP, " ", v6mcastaddr.Port, " ", err)
 	}
 	if err := sarnet.SetMulticastLoop(v6mcastcon); err != nil {
-		log.Fatal(err)
+		fatal(g, err)
 	}
 
 	// Open up V4 sockets for listening on the Saratoga Port
@@ -592,11 +590,10 @@ func main() {
 	// Set up for Listen to Multicast v4
 	v4mcastcon, err := net.ListenMulticastUDP("udp4", iface, &v4mcastaddr)
 	if err != nil {
-		log.Println("Saratoga Unable to Listen on IPv4 Multicast ", v4mcastaddr.IP, " ", v4mcastaddr.Port)
-		log.Fatal(err)
+		fatal(g, "Saratoga Unable to Listen on IPv4 Multicast ", v4mcastaddr.IP, " ", v4mcastaddr.Port, " ", err)
 	}
 	if err := sarnet.SetMulticastLoop(v4mcastcon); err != nil {
-		log.Fatal(err)
+		fatal(g, err)
 	}
 
 	// v4unicastcon, err := net.ListenUDP("udp4", iface, &v4addr)
@@ -712,18 +709,28 @@ func main() {
 				sarwin.ErrPrintln(g, "white_black", "Received v6 Saratoga INVALID Frame")
 			}
 		case v4err := <-v4listenquit:
-			log.Fatal("Saratoga v4 listener has quit with error:", v4err)
+			fatal(g, "Saratoga v4 listener has quit with error:", v4err)
 		case v6err := <-v6listenquit:
-			log.Fatal("Saratoga v6 listener has quit with error:", v6err)
+			fatal(g, "Saratoga v6 listener has quit with error:", v6err)
 		case err := <-errflag:
-			if err != nil {
-				log.Fatal("Mainloop has quit with error:", err.Error())
+			if err != nil && err != gocui.ErrQuit {
+				fatal(g, "Mainloop has quit with error:", err.Error())
 			}
-			log.Fatal("Saratoga has quit")
+			g.Close() // os.Exit does not run what is deferred
+			if sarwin.Cexit > 0 {
+				os.Exit(sarwin.Cexit)
+			}
+			os.Exit(0)
 		}
 	}
 }
 
+// fatal - Give the terminal back, log.Fatal does not run what is deferred
+func fatal(g *gocui.Gui, v ...interface{}) {
+	g.Close()
+	log.Fatal(v...)
+}
+
 // Go routine for command line loop
 func gocuimainloop(g *gocui.Gui, done chan error) {
 	err := g.MainLoop()
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index b230d1d..81153c0 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -617,12 +617,6 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		// Save the command into history
 		Cinfo.Commands = append(Cinfo.Commands, command[1])
 
-		if command[1] == "exit" || command[1] == "quit" {
-			// Sarwg.Wait()
-			err := Quit(g, v)
-			// THIS IS A KLUDGE FIX IT WITH A CHANNEL
-			log.Fatal("\nGocui Exit. Bye!\n", err)
-		}
 		// RUN THE COMMAND ENTERED!!!
 		Run(g, command[1])
 		prompt(g, v)
@@ -1560,12 +1554,20 @@ func cmdDescriptor(g *gocui.Gui, args []string) {
 // Cexit = Exit level to quit from saratoga
 var Cexit = -1
 
+// exitwith -- End the main loop, saratoga then exits with this level
+func exitwith(g *gocui.Gui, level int) {
+	g.Update(func(g *gocui.Gui) error {
+		Cexit = level
+		return gocui.ErrQuit
+	})
+}
+
 // cmdExit -- Quit saratoga
 func cmdExit(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1: // exit 0
-		Cexit = 0
 		MsgPrintln(g, "green_black", "Good Bye!")
+		exitwith(g, 0)
 		return
 	case 2:
 		switch args[1] {
@@ -1573,11 +1575,11 @@ func cmdExit(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "magenta_black", prhelp(args[0]))
 			MsgPrintln(g, "green_black", prusage(args[0]))
 		case "0": // exit 0
-			Cexit = 0
 			MsgPrintln(g, "green_black", "Good Bye!")
+			exitwith(g, 0)
 		case "1": // exit 1
-			Cexit = 1
 			MsgPrintln(g, "green_black", "Good Bye!")
+			exitwith(g, 1)
 		default: // Help
 			ErrPrintln(g, "red_black", prusage(args[0]))
 		}
-- 
2.43.0


From 8a6f66c299b5d9671fab8f60d3bf164212880e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:19 +0000
Subject: [PATCH 86/90] fix: sarwin: rmtran removes the transfer with a peer
 and session, as its usage says [C35]

---
 sarwin/sarwin.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 81153c0..aa578bf 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2156,11 +2156,10 @@ func cmdRmtran(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("rmtran"))
 			return
 		}
-	case 4:
-		ttype := args[1]
-		addr := args[2]
+	case 3, 4: // The type of the transfer may come before the peer and session
+		addr, id := args[len(args)-2], args[len(args)-1]
 		// We are unsigned so Atoi does not cut it
-		if session, err := strconv.ParseUint(args[3], 10, 32); err == nil {
+		if session, err := strconv.ParseUint(id, 10, 32); err == nil {
 			// Nothing may be removed in between, the transfer that t points to would be another
 			Trmu.Lock()
 			defer Trmu.Unlock()
@@ -2170,7 +2169,7 @@ func cmdRmtran(g *gocui.Gui, args []string) {
 				}
 				return
 			}
-			MsgPrintln(g, "red_black", "No such transfer:", ttype, " ", addr, " ", args[2])
+			MsgPrintln(g, "red_black", "No such transfer:", addr, " ", id)
 		}
 	}
 	ErrPrintln(g, "red_black", prusage("rmtran"))
-- 
2.43.0


From 06f3bdd736720be38320afa91ff4cc232d221e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:19 +0000
Subject: [PATCH 87/90] fix: sarwin: a transfer that is removed closes its
 connection and its file [C35]

---
 sarwin/sarwin.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index aa578bf..8af5565 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1264,6 +1264,13 @@ func (t *Transfer) remove() error {
 	for i := len(Transfers) - 1; i >= 0; i-- {
 		if t.Direction == Transfers[i].Direction && t.Session == Transfers[i].Session &&
 			t.Peer.String() == Transfers[i].Peer.String() {
+			// Nobody else closes what it has open
+			if Transfers[i].Conn != nil {
+				Transfers[i].Conn.Close()
+			}
+			if Transfers[i].Fp != nil {
+				Transfers[i].Fp.Close()
+			}
 			Transfers = append(Transfers[:i], Transfers[i+1:]...)
 			return nil
 		}
-- 
2.43.0


From 77bee26de2738c11dd9fc759e2f152b8fe020796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:52 +0000
Subject: [PATCH 88/90] fix: fileio: a directory opened to receive into can be
 written into, and the node stays where it is [C22]

---
 fileio/fileio.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 1444450..201e886 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -56,12 +56,8 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		// Create the Directory
 		// BUT THEN WHAT DO WE DO!!!!
 		// LOTS CODE TO WRITE HERE
-		err = os.Mkdir(fullname, os.ModeDir)
-		if err == nil {
-			if err = os.Chdir(fullname); err != nil {
-				return nil, err
-			}
-		}
+		// Names are always those in the Saratoga Directory, so stay where we are
+		err = os.Mkdir(fullname, 0777)
 		return nil, err
 	case "put", "give", "putblind": // We are putting a local file to a remote system
 		// Open up to read from the local file
-- 
2.43.0


From 331db635dfd41a06ee78263d1713fcfcb4f482ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:39 +0000
Subject: [PATCH 89/90] fix: sarwin: multicast beacons that were turned off are
 not told as being sent [C33]

---
 sarwin/sarwin.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8af5565..21b68fc 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1365,6 +1365,8 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", "Beacons Disabled")
 			// remove and disable all beacons
 			clibeacon.hosts = nil
+			clibeacon.v4mcast = false
+			clibeacon.v6mcast = false
 			return
 		case "v4": // beacon v4
 			// V4 Multicast
@@ -1405,6 +1407,14 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 	}
 	for i := first; i < len(args); i++ {
 		if args[1] == "off" {
+			if args[i] == "v4" {
+				clibeacon.v4mcast = false
+				continue
+			}
+			if args[i] == "v6" {
+				clibeacon.v6mcast = false
+				continue
+			}
 			if addr, err := sarnet.UDPAddress(args[i]); err == nil {
 				clibeacon.hosts = sarnet.RemoveUDPAddrValue(clibeacon.hosts, addr)
 				continue
-- 
2.43.0


From b8cd6deea4d0b3c5070e6d9c3a998eebce64367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:07 +0000
Subject: [PATCH 90/90] fix: sarwin: a : in the prompt is not where the command
 begins [C32]

---
 sarwin/sarwin.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 21b68fc..c30888a 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -610,7 +610,8 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		// Get the line
 		line, _ := v.Line(cy)
 
-		command := strings.SplitN(line, ":", 2)
+		// The prompt that is configured may have a : in it
+		command := strings.SplitN(strings.TrimPrefix(line, Cinfo.Prompt), ":", 2)
 		if len(command) < 2 || command[1] == "" { // We have just hit enter - do nothing
 			return nil
 		}
-- 
2.43.0

