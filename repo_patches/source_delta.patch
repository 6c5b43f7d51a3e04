From 6b080e673624f1b2b5a603e4a12cb4217caab904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:06 +0000
Subject: [PATCH 01/33] fix: ihex32 applies offsets behind an extended linear
 address record 0000

addOffsets took a data record that still carried the initial offset 0000 for one already
updated by another goroutine and stopped, so records behind it kept offset 0000.
---
 ihex32/record.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index 1be74d5..bfe1cc1 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -66,7 +66,7 @@ forLoop:
 			offs = recs[i].offset
 			firstRecordAfterNewOffset = true
 		} else if recs[i].recordType == dataRecordToken {
-			if firstRecordAfterNewOffset && recs[i].offset == offs {
+			if firstRecordAfterNewOffset && recs[i].offset == offs && offs != "0000" /*"0000" is the init value and does not show that another goroutine was here*/ {
 				recs[i].rwm.Unlock()
 				break forLoop
 			} else if firstRecordAfterNewOffset && recs[i].offset != offs {
-- 
2.43.0


From af3f625bccc78208d7bc739160e3dab6941043fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:41 +0000
Subject: [PATCH 02/33] fix: ihex32 record crossing a 64kB boundary continues
 at the next address

The byte index was added to the 16bit address field, so bytes behind the boundary wrapped
to the start of the same 64kB block.
---
 ihex32/record.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ihex32/record.go b/ihex32/record.go
index bfe1cc1..094a923 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -177,14 +177,13 @@ func (r *record) calcDataEntries() ([]dataByte, error) {
 
 	for i, s := range r.data {
 
-		//add index position to the address of the line to get the individual byte position
+		//convert address of the line
 		bs, err = HexToByteSlice(r.addressField)
 		if err != nil {
 			return d, err
 		}
-		//convert bytes to uint16, add index
+		//convert bytes to uint16
 		lineAddress = binary.BigEndian.Uint16(bs)
-		lineAddress = lineAddress + uint16(i)
 		//create 2 byte buffer
 		lineAddressBytes := []byte{0, 0}
 		//fill byte slice buffer with thenew value of line address
@@ -200,8 +199,9 @@ func (r *record) calcDataEntries() ([]dataByte, error) {
 		if err != nil {
 			return d, err
 		}
-		//construct data with final uint32 address and a byte as value
-		d = append(d, dataByte{address: binary.BigEndian.Uint32(bs), value: b})
+		//construct data with final uint32 address and a byte as value.
+		//the index position is added to the 32bit address because a record may cross a 64kB boundary
+		d = append(d, dataByte{address: binary.BigEndian.Uint32(bs) + uint32(i), value: b})
 	}
 	return d, nil
 }
-- 
2.43.0


From d90d1ff3df596e5c6ac6fcd7085dc721727b7c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:08 +0000
Subject: [PATCH 03/33] fix: ihex32 reports malformed lines instead of dropping
 the rest of the part

A line without start colon or too short made the parsing goroutine stop silently, and a
record whose length does not match its byte count lost a character without notice.
---
 ihex32/hex.go    | 15 ++++++++++++---
 ihex32/record.go | 12 +++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index 841b826..811056a 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -110,6 +110,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	//parseErrs receives at most one error per goroutine
+	parseErrs := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +122,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, parseErrs, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +130,11 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	//a line that could not be parsed must not be dropped silently
+	if len(parseErrs) != 0 {
+		err = <-parseErrs
+		return h, err
+	}
 
 	//apply offsets to all records
 	wgOffset := new(sync.WaitGroup)
@@ -238,14 +245,16 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+func parseRecordRoutine(c chan []*record, errs chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		//blank lines and the DOS end of file character carry no record
+		if strings.Trim(l, " \t\r\n\x1a") != "" {
 			r, err := parseRecord(l)
 			if err != nil {
 				log.Err(err)
+				errs <- err
 				break forLoop
 			}
 			recs = append(recs, r)
diff --git a/ihex32/record.go b/ihex32/record.go
index 094a923..beccb96 100644
--- a/ihex32/record.go
+++ b/ihex32/record.go
@@ -27,18 +27,24 @@ type record struct {
 // parseRecord takes a line as string and fills the respective fields in the record struct.
 func parseRecord(line string) (*record, error) {
 	r := record{}
-	if line[0] == beginLineToken[0] && len(line) >= 11 {
+	if len(line) >= 11 && line[0] == beginLineToken[0] {
 		r.byteCount = line[1:3]
 		r.addressField = line[3:7]
 		r.recordType = line[7:9]
 		for i := 9; i < len(line)-3; i += 2 {
 			r.data = append(r.data, line[i:i+2])
 		}
+		//the byte count has to match the number of characters in the line
+		n, err := hexToByte(r.byteCount)
+		if err != nil || len(line) != 11+2*int(n) {
+			err := errors.New("byte count does not match the length of the line")
+			return &r, err
+		}
 		if r.recordType == extendedLinearAddressRecordToken {
-			if len(line) >= 13 {
+			if len(line) == 15 {
 				r.offset = line[9:13]
 			} else {
-				err := errors.New("line is too short to parse extended address record")
+				err := errors.New("extended address record does not contain exactly two bytes")
 				return &r, err
 			}
 		} else {
-- 
2.43.0


From 55f7ff1e3407eab3f885f917404f160f2ecda777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:08 +0000
Subject: [PATCH 04/33] fix: srec19 skips header, count and termination records
 and reports malformed lines

Any line other than an S3 record made the parsing goroutine stop silently and dropped the
data records behind it.
---
 srec19/hex.go    | 15 ++++++++++++---
 srec19/record.go | 16 ++++++++++++++++
 srec19/tokens.go |  3 +++
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/srec19/hex.go b/srec19/hex.go
index 20a7a6b..5e1452b 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -110,6 +110,8 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 	//this way we can ensure that the order of the records remains correct
 	//because the positions of the return values are determined by the position of the channel within locRecord
 	var locRecord []chan []*record
+	//parseErrs receives at most one error per goroutine
+	parseErrs := make(chan error, numProc)
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
 		start := (len(lines) / numProc) * i
@@ -120,7 +122,7 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 		}
 		c := make(chan []*record, len(lines))
 		locRecord = append(locRecord, c)
-		go parseRecordRoutine(c, lines[start:end])
+		go parseRecordRoutine(c, parseErrs, lines[start:end])
 	}
 	//collect records from channels
 	for _, c := range locRecord {
@@ -128,6 +130,11 @@ func parseHex(lines []string) (map[uint32]byte, error) {
 			recs = append(recs, r...)
 		}
 	}
+	//a line that could not be parsed must not be dropped silently
+	if len(parseErrs) != 0 {
+		err = <-parseErrs
+		return h, err
+	}
 
 	if validateChecksums {
 		//start validation of all checksums
@@ -227,14 +234,16 @@ func ParseFromFile(filepath string) (map[uint32]byte, error) {
 }
 
 // parseRecordRoutine calls the parseRecord method for each line given and return them via a channel.
-func parseRecordRoutine(c chan []*record, lines []string) {
+func parseRecordRoutine(c chan []*record, errs chan error, lines []string) {
 	var recs []*record
 forLoop:
 	for _, l := range lines {
-		if len(l) >= 11 {
+		//blank lines and the DOS end of file character carry no record
+		if strings.Trim(l, " \t\r\n\x1a") != "" && !isIgnoredRecord(l) {
 			r, err := parseRecord(l)
 			if err != nil {
 				log.Err(err)
+				errs <- err
 				break forLoop
 			}
 			recs = append(recs, r)
diff --git a/srec19/record.go b/srec19/record.go
index 3d7a057..9783208 100644
--- a/srec19/record.go
+++ b/srec19/record.go
@@ -3,6 +3,7 @@ package srec19
 import (
 	"encoding/binary"
 	"errors"
+	"strings"
 	"sync"
 )
 
@@ -26,6 +27,10 @@ type record struct {
 // parseRecord takes a line as string and fills the respective fields in the record struct.
 func parseRecord(line string) (*record, error) {
 	r := record{}
+	if len(line) < 14 {
+		err := errors.New("entry is too short")
+		return &r, err
+	}
 	r.recordType = line[1:2]
 	if line[0] == beginLineToken[0] && r.recordType == "3" && len(line) >= 12 {
 		r.byteCount = line[2:4]
@@ -33,6 +38,12 @@ func parseRecord(line string) (*record, error) {
 		for i := 12; i < len(line)-3; i += 2 {
 			r.data = append(r.data, line[i:i+2])
 		}
+		//the byte count has to match the number of characters in the line
+		n, err := hexToByte(r.byteCount)
+		if err != nil || len(line) != 4+2*int(n) {
+			err := errors.New("byte count does not match the length of the line")
+			return &r, err
+		}
 		r.checksum = line[len(line)-2:]
 		return &r, nil
 	} else {
@@ -42,6 +53,11 @@ func parseRecord(line string) (*record, error) {
 
 }
 
+// isIgnoredRecord reports whether a line is a header, count or termination record, which carries no data.
+func isIgnoredRecord(line string) bool {
+	return len(line) >= 2 && line[0] == beginLineToken[0] && strings.Contains(ignoredRecordTokens, line[1:2])
+}
+
 // validateChecksumsRoutine calls the validateChecksum Method for each record
 // it is given and sends false to a channel in case a checksum isn't valid.
 func validateChecksumsRoutine(wg *sync.WaitGroup, c chan bool, recs []*record) {
diff --git a/srec19/tokens.go b/srec19/tokens.go
index 1e04b8d..7df501b 100644
--- a/srec19/tokens.go
+++ b/srec19/tokens.go
@@ -3,3 +3,6 @@ package srec19
 //const emptyToken = ""
 const beginLineToken = "S"
 const dataRecordToken = "3"
+
+//ignoredRecordTokens contains the types of header (0), count (5, 6) and termination records (7, 8, 9)
+const ignoredRecordTokens = "056789"
-- 
2.43.0


From 18654496d3c423bc6ff3c0ca57753cc27b05d984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:43 +0000
Subject: [PATCH 05/33] fix: ihex32 and srec19 accept hex digits of different
 case within one byte

---
 ihex32/hex.go | 11 +++++++++++
 srec19/hex.go | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/ihex32/hex.go b/ihex32/hex.go
index 811056a..f3694d6 100644
--- a/ihex32/hex.go
+++ b/ihex32/hex.go
@@ -97,6 +97,17 @@ var (
 	}
 )
 
+// init adds the hex-strings with two letters of different case to hexBytes.
+func init() {
+	const upper, lower = "ABCDEF", "abcdef"
+	for i := range upper {
+		for j := range upper {
+			hexBytes[upper[i:i+1]+lower[j:j+1]] = byte(0xAA + 16*i + j)
+			hexBytes[lower[i:i+1]+upper[j:j+1]] = byte(0xAA + 16*i + j)
+		}
+	}
+}
+
 // parseHex parses a hex-file given as an slice of strings and return a hex struct containing the data in byte form with all the addresses attached.
 func parseHex(lines []string) (map[uint32]byte, error) {
 	var h map[uint32]byte
diff --git a/srec19/hex.go b/srec19/hex.go
index 5e1452b..30657ba 100644
--- a/srec19/hex.go
+++ b/srec19/hex.go
@@ -97,6 +97,17 @@ var (
 	}
 )
 
+// init adds the hex-strings with two letters of different case to hexBytes.
+func init() {
+	const upper, lower = "ABCDEF", "abcdef"
+	for i := range upper {
+		for j := range upper {
+			hexBytes[upper[i:i+1]+lower[j:j+1]] = byte(0xAA + 16*i + j)
+			hexBytes[lower[i:i+1]+upper[j:j+1]] = byte(0xAA + 16*i + j)
+		}
+	}
+}
+
 // parseHex parses a hex-file given as an slice of strings and return a hex struct containing the data in byte form with all the addresses attached.
 func parseHex(lines []string) (map[uint32]byte, error) {
 	var h map[uint32]byte
-- 
2.43.0


From e9b781d719f4e941687ca7f6ff7f612394007a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:32 +0000
Subject: [PATCH 06/33] fix: alignment rounds up to the next multiple of the
 border

---
 calib_data.go | 240 +++++++++-----------------------------------------
 1 file changed, 42 insertions(+), 198 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index d061669..bf83b7f 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -199,284 +199,128 @@ func (cd *CalibrationData) getNextAlignedAddress(address uint32, dte a2l.DataTyp
 	switch dte {
 	case a2l.UBYTE:
 		if rl.AlignmentByte.AlignmentBorderSet {
-			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(rl.AlignmentByte.AlignmentBorder))
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentByte
 		if a.AlignmentBorderSet {
-			modulo := address % uint32(a.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(a.AlignmentBorder))
 		} else {
-			modulo := address % uint32(1)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(1))
 		}
 	case a2l.SBYTE:
 		if rl.AlignmentByte.AlignmentBorderSet {
-			modulo := address % uint32(rl.AlignmentByte.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(rl.AlignmentByte.AlignmentBorder))
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentByte
 		if a.AlignmentBorderSet {
-			modulo := address % uint32(a.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(a.AlignmentBorder))
 		} else {
-			modulo := address % uint32(1)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(1))
 		}
 	case a2l.UWORD:
 		if rl.AlignmentWord.AlignmentBorderSet {
-			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(rl.AlignmentWord.AlignmentBorder))
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentWord
 		if a.AlignmentBorderSet {
-			modulo := address % uint32(a.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(a.AlignmentBorder))
 		} else {
-			modulo := address % uint32(2)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(2))
 		}
 	case a2l.SWORD:
 		if rl.AlignmentWord.AlignmentBorderSet {
-			modulo := address % uint32(rl.AlignmentWord.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(rl.AlignmentWord.AlignmentBorder))
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentWord
 		if a.AlignmentBorderSet {
-			modulo := address % uint32(a.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(a.AlignmentBorder))
 		} else {
-			modulo := address % uint32(2)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(2))
 		}
 	case a2l.ULONG:
 		if rl.AlignmentLong.AlignmentBorderSet {
-			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(rl.AlignmentLong.AlignmentBorder))
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentLong
 		if a.AlignmentBorderSet {
-			modulo := address % uint32(a.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(a.AlignmentBorder))
 		} else {
-			modulo := address % uint32(4)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(4))
 		}
 	case a2l.SLONG:
 		if rl.AlignmentLong.AlignmentBorderSet {
-			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(rl.AlignmentLong.AlignmentBorder))
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentLong
 		if a.AlignmentBorderSet {
-			modulo := address % uint32(a.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(a.AlignmentBorder))
 		} else {
-			modulo := address % uint32(4)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(4))
 		}
 	case a2l.AUint64:
 		if rl.AlignmentInt64.AlignmentBorderSet {
-			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(rl.AlignmentInt64.AlignmentBorder))
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentInt64
 		if a.AlignmentBorderSet {
-			modulo := address % uint32(a.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(a.AlignmentBorder))
 		} else {
-			modulo := address % uint32(8)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(8))
 		}
 	case a2l.AInt64:
 		if rl.AlignmentInt64.AlignmentBorderSet {
-			modulo := address % uint32(rl.AlignmentInt64.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(rl.AlignmentInt64.AlignmentBorder))
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentInt64
 		if a.AlignmentBorderSet {
-			modulo := address % uint32(a.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(a.AlignmentBorder))
 		} else {
-			modulo := address % uint32(8)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(8))
 		}
 	case a2l.Float16Ieee:
 		if rl.AlignmentFloat16Ieee.AlignmentBorderSet {
-			modulo := address % uint32(rl.AlignmentFloat16Ieee.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(rl.AlignmentFloat16Ieee.AlignmentBorder))
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentFloat16Ieee
 		if a.AlignmentBorderSet {
-			modulo := address % uint32(a.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(a.AlignmentBorder))
 		} else {
-			modulo := address % uint32(2)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(2))
 		}
 	case a2l.Float32Ieee:
 		if rl.AlignmentFloat32Ieee.AlignmentBorderSet {
-			modulo := address % uint32(rl.AlignmentFloat32Ieee.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(rl.AlignmentFloat32Ieee.AlignmentBorder))
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentFloat32Ieee
 		if a.AlignmentBorderSet {
-			modulo := address % uint32(a.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(a.AlignmentBorder))
 		} else {
-			modulo := address % uint32(4)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(4))
 		}
 	case a2l.Float64Ieee:
 		if rl.AlignmentFloat64Ieee.AlignmentBorderSet {
-			modulo := address % uint32(rl.AlignmentFloat64Ieee.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(rl.AlignmentFloat64Ieee.AlignmentBorder))
 		}
 		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentFloat64Ieee
 		if a.AlignmentBorderSet {
-			modulo := address % uint32(a.AlignmentBorder)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(a.AlignmentBorder))
 		} else {
-			modulo := address % uint32(8)
-			if modulo != 0 {
-				return address + modulo
-			} else {
-				return address
-			}
+			return alignAddress(address, uint32(8))
 		}
 	default:
 		return address
 	}
 }
 
+// alignAddress returns the smallest address that is not below the given one and a multiple of border.
+// a border of zero does not restrict the address.
+func alignAddress(address uint32, border uint32) uint32 {
+	if border == 0 || address%border == 0 {
+		return address
+	}
+	return address + border - address%border
+}
+
 // getBytes gets a number of bytes (length) from a given address and returns a byte slice
 // if the address cannot be found an error is returned
 func (cd *CalibrationData) getBytes(address uint32, length uint32) ([]byte, error) {
-- 
2.43.0


From 2d9998302223090cd8c46e621453ac9349da9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:32 +0000
Subject: [PATCH 07/33] fix: getBytes allocates an empty slice with capacity
 instead of an impossible one

---
 calib_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calib_data.go b/calib_data.go
index bf83b7f..cc63a8e 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -325,7 +325,7 @@ func alignAddress(address uint32, border uint32) uint32 {
 // if the address cannot be found an error is returned
 func (cd *CalibrationData) getBytes(address uint32, length uint32) ([]byte, error) {
 	nBytes := length / 8
-	bytes := make([]byte, nBytes, 0)
+	bytes := make([]byte, 0, nBytes)
 	if length%8 != 0 {
 		err := errors.New("unexpected number of bits " + strconv.Itoa(int(length)) + ". Expected a multiple of 8.")
 		log.Error().Err(err).Msg("invalid length")
-- 
2.43.0


From 8f6cbe48c832575f9d806b61eea1a78e2a1514dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:33 +0000
Subject: [PATCH 08/33] fix: record layout components advance the position by
 bytes from the aligned address

---
 axis_pts.go       | 10 +++++-----
 calib_data.go     |  3 ++-
 distOp.go         | 10 +++++-----
 fnc_values.go     |  4 ++--
 identification.go |  2 +-
 no_axis_pts.go    | 10 +++++-----
 no_rescale_x.go   |  2 +-
 offsetOp.go       | 10 +++++-----
 reserved.go       |  2 +-
 shiftOp.go        | 10 +++++-----
 10 files changed, 32 insertions(+), 31 deletions(-)

diff --git a/axis_pts.go b/axis_pts.go
index e5a19b9..ecc7db7 100644
--- a/axis_pts.go
+++ b/axis_pts.go
@@ -45,7 +45,7 @@ func (cv *CharacteristicValues) getAxisPointsX(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -84,7 +84,7 @@ func (cv *CharacteristicValues) getAxisPointsY(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsY.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsY.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -123,7 +123,7 @@ func (cv *CharacteristicValues) getAxisPointsZ(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsZ.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsZ.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -162,7 +162,7 @@ func (cv *CharacteristicValues) getAxisPoints4(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPts4.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPts4.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
@@ -201,7 +201,7 @@ func (cv *CharacteristicValues) getAxisPoints5(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPts5.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPts5.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
diff --git a/calib_data.go b/calib_data.go
index cc63a8e..65ee151 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -551,7 +551,8 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 }
 
 func (cd *CalibrationData) getValue(curPos *uint32, dte a2l.DataTypeEnum, rl *a2l.RecordLayout) ([]byte, error) {
-	bytes, err := cd.getBytes(cd.getNextAlignedAddress(*curPos, dte, rl), uint32(dte.GetDatatypeLength()))
+	*curPos = cd.getNextAlignedAddress(*curPos, dte, rl)
+	bytes, err := cd.getBytes(*curPos, uint32(dte.GetDatatypeLength()))
 	if err != nil {
 		log.Err(err).Msg("could not retrieve value as byteSlice")
 		return nil, err
diff --git a/distOp.go b/distOp.go
index b71553a..48443fc 100644
--- a/distOp.go
+++ b/distOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getDistOpX(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOpX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getDistOpY(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOpY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getDistOpZ(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOpZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOpZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOpZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getDistOp4(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOp4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOp4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOp4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getDistOp5(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve distOp5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.DistOp5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.DistOp5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/fnc_values.go b/fnc_values.go
index dad7048..5c99d00 100644
--- a/fnc_values.go
+++ b/fnc_values.go
@@ -23,7 +23,7 @@ func (cv *CharacteristicValues) getFncValues1D(cd *CalibrationData, rl *a2l.Reco
 		log.Err(err).Msg("could not retrieve FncValues values")
 		return 0.0, bufByte, err
 	}
-	*curPos += uint32(rl.FncValues.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.FncValues.Datatype.GetDatatypeLength()) / 8
 	return bufFloat, bufByte, err
 }
 
@@ -61,7 +61,7 @@ func (cv *CharacteristicValues) getFncValues2D(cd *CalibrationData, rl *a2l.Reco
 			return nil, err
 		}
 		val = append(val, bufFloat)
-		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength())
+		*curPos += uint32(rl.AxisPtsX.Datatype.GetDatatypeLength()) / 8
 	}
 	return val, err
 }
diff --git a/identification.go b/identification.go
index 5e90e66..143aa0f 100644
--- a/identification.go
+++ b/identification.go
@@ -20,6 +20,6 @@ func (cd *CalibrationData) getIdentification(rl *a2l.RecordLayout, curPos *uint3
 		log.Err(err).Msg("could not retrieve identification value")
 		return nil, err
 	}
-	*curPos += uint32(rl.Identification.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.Identification.Datatype.GetDatatypeLength()) / 8
 	return val, err
 }
diff --git a/no_axis_pts.go b/no_axis_pts.go
index 766b01f..a225c7e 100644
--- a/no_axis_pts.go
+++ b/no_axis_pts.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getNoAxisPtsX(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPtsX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getNoAxisPtsY(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPtsY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getNoAxisPtsZ(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPtsZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPtsZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPtsZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getNoAxisPts4(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPts4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPts4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPts4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getNoAxisPts5(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noAxisPts5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoAxisPts5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoAxisPts5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/no_rescale_x.go b/no_rescale_x.go
index a90ae17..8a1138f 100644
--- a/no_rescale_x.go
+++ b/no_rescale_x.go
@@ -24,6 +24,6 @@ func (cd *CalibrationData) getNoRescaleX(rl *a2l.RecordLayout, curPos *uint32) (
 		log.Err(err).Msg("could not retrieve noRescaleX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.NoRescaleX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.NoRescaleX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/offsetOp.go b/offsetOp.go
index f5a194d..22e531f 100644
--- a/offsetOp.go
+++ b/offsetOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getOffsetX(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.OffsetX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getOffsetY(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.OffsetY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getOffsetZ(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offsetZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.OffsetZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.OffsetZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getOffset4(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offset4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.Offset4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.Offset4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getOffset5(rl *a2l.RecordLayout, curPos *uint32) (int
 		log.Err(err).Msg("could not retrieve offset5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.Offset5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.Offset5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
diff --git a/reserved.go b/reserved.go
index 6602641..e9a5889 100644
--- a/reserved.go
+++ b/reserved.go
@@ -16,6 +16,6 @@ func (cd *CalibrationData) getReserved(rl *a2l.RecordLayout, curPos *uint32) err
 		return err
 	}
 	//Value of reserved is not relevant. Only its datasize and the resulting offset for other datastructres are necessary
-	*curPos += uint32(rl.Reserved.DataSize.GetDataSizeLength())
+	*curPos += uint32(rl.Reserved.DataSize.GetDataSizeLength()) / 8
 	return nil
 }
diff --git a/shiftOp.go b/shiftOp.go
index 256ee1b..49b7950 100644
--- a/shiftOp.go
+++ b/shiftOp.go
@@ -24,7 +24,7 @@ func (cd *CalibrationData) getShiftOpX(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpX value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpX.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOpX.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -45,7 +45,7 @@ func (cd *CalibrationData) getShiftOpY(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpY value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpY.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOpY.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -66,7 +66,7 @@ func (cd *CalibrationData) getShiftOpZ(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOpZ value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOpZ.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOpZ.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -87,7 +87,7 @@ func (cd *CalibrationData) getShiftOp4(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOp4 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOp4.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOp4.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
 
@@ -108,6 +108,6 @@ func (cd *CalibrationData) getShiftOp5(rl *a2l.RecordLayout, curPos *uint32) (in
 		log.Err(err).Msg("could not retrieve shiftOp5 value")
 		return 0, err
 	}
-	*curPos += uint32(rl.ShiftOp5.Datatype.GetDatatypeLength())
+	*curPos += uint32(rl.ShiftOp5.Datatype.GetDatatypeLength()) / 8
 	return int64(val), err
 }
-- 
2.43.0


From 042354d84ee705f745b517c927b4713d6c4f9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:33 +0000
Subject: [PATCH 09/33] fix: words are 16 bit, longs 32 bit and float16 values
 are decoded

---
 record_manager.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index 9385892..109accd 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -157,16 +157,16 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 		case a2l.SBYTE:
 			return float64(int8(byteSlice[0])), nil
 		case a2l.UWORD:
-			val := binary.BigEndian.Uint32(byteSlice)
+			val := binary.BigEndian.Uint16(byteSlice)
 			return float64(val), nil
 		case a2l.SWORD:
-			val := int32(binary.BigEndian.Uint32(byteSlice))
+			val := int16(binary.BigEndian.Uint16(byteSlice))
 			return float64(val), nil
 		case a2l.ULONG:
-			val := binary.BigEndian.Uint64(byteSlice)
+			val := binary.BigEndian.Uint32(byteSlice)
 			return float64(val), nil
 		case a2l.SLONG:
-			val := int64(binary.BigEndian.Uint64(byteSlice))
+			val := int32(binary.BigEndian.Uint32(byteSlice))
 			return float64(val), nil
 		case a2l.AUint64:
 			val := binary.BigEndian.Uint64(byteSlice)
@@ -175,7 +175,7 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 			val := int64(binary.BigEndian.Uint64(byteSlice))
 			return float64(val), nil
 		case a2l.Float16Ieee:
-			val := float16.Frombits(binary.BigEndian.Uint16(byteSlice))
+			val := float16.Frombits(binary.BigEndian.Uint16(byteSlice)).Float32()
 			return float64(val), nil
 		case a2l.Float32Ieee:
 			val := math.Float32frombits(binary.BigEndian.Uint32(byteSlice))
@@ -195,16 +195,16 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 		case a2l.SBYTE:
 			return float64(int8(byteSlice[0])), nil
 		case a2l.UWORD:
-			val := binary.LittleEndian.Uint32(byteSlice)
+			val := binary.LittleEndian.Uint16(byteSlice)
 			return float64(val), nil
 		case a2l.SWORD:
-			val := int32(binary.LittleEndian.Uint32(byteSlice))
+			val := int16(binary.LittleEndian.Uint16(byteSlice))
 			return float64(val), nil
 		case a2l.ULONG:
-			val := binary.LittleEndian.Uint64(byteSlice)
+			val := binary.LittleEndian.Uint32(byteSlice)
 			return float64(val), nil
 		case a2l.SLONG:
-			val := int64(binary.LittleEndian.Uint64(byteSlice))
+			val := int32(binary.LittleEndian.Uint32(byteSlice))
 			return float64(val), nil
 		case a2l.AUint64:
 			val := binary.LittleEndian.Uint64(byteSlice)
@@ -213,7 +213,7 @@ func (cd *CalibrationData) convertByteSliceToDatatype(byteSlice []byte, dte a2l.
 			val := int64(binary.LittleEndian.Uint64(byteSlice))
 			return float64(val), nil
 		case a2l.Float16Ieee:
-			val := float16.Frombits(binary.LittleEndian.Uint16(byteSlice))
+			val := float16.Frombits(binary.LittleEndian.Uint16(byteSlice)).Float32()
 			return float64(val), nil
 		case a2l.Float32Ieee:
 			val := math.Float32frombits(binary.LittleEndian.Uint32(byteSlice))
-- 
2.43.0


From 0236e9bd8b441bd30fa30ad1c85b48d25d11e96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:34 +0000
Subject: [PATCH 10/33] fix: characteristic addresses do not depend on the byte
 order of the module

---
 record_manager.go | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index 109accd..82ffecf 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -2,7 +2,6 @@ package calibrationReader
 
 import (
 	"encoding/binary"
-	"encoding/hex"
 	"errors"
 	"fmt"
 	"math"
@@ -100,35 +99,15 @@ func (cd *CalibrationData) GetObjectByIdent(ident string) []interface{} {
 	return calibrationObjects
 }
 
-// hexToByteSlice converts at least a four character hexString to a slice of several bytes. fails if input is too short or not valid hex.
-func hexToByteSlice(hexVal string) ([]byte, error) {
-	decoded, err := hex.DecodeString(hexVal)
-	if err != nil {
-		log.Err(err).Msg("could not decode hex string " + hexVal)
-	}
-	return decoded, err
-}
-
-// convertStringToUint32Address is used to convert the adresses in string format in the characteristics to a uint32
+// convertStringToUint32Address is used to convert the adresses in string format in the characteristics to a uint32.
+// the hexadecimal notation of an address does not depend on the byte order of the module.
 func (cd *CalibrationData) convertStringToUint32Address(str string) (uint32, error) {
-	var val uint32
-	byteSlice, err := hexToByteSlice(strings.ReplaceAll(str, "0x", ""))
+	val, err := strconv.ParseUint(strings.TrimPrefix(strings.ToLower(str), "0x"), 16, 32)
 	if err != nil {
 		log.Err(err).Msg("string '" + str + "' could not be parsed")
-		return val, err
-	}
-	modCom := &cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon
-	if modCom.ByteOrder.ByteOrder == a2l.MsbFirstMswLast || modCom.ByteOrder.ByteOrder == a2l.MsbLastMswFirst {
-		err = errors.New("unexpected byte order")
-		log.Err(err).Msg("byte order " + modCom.ByteOrder.ByteOrder.String() + "not implemented")
-		return val, err
-	}
-	if !modCom.ByteOrder.ByteOrderSet || modCom.ByteOrder.ByteOrder == a2l.BigEndian || modCom.ByteOrder.ByteOrder == a2l.MsbFirst {
-		val = binary.BigEndian.Uint32(byteSlice)
-	} else {
-		val = binary.LittleEndian.Uint32(byteSlice)
+		return 0, err
 	}
-	return val, nil
+	return uint32(val), nil
 }
 
 // converts a byteSlice into a a2l.DatatypeEnum datatype.
-- 
2.43.0


From 50f8d7a5f78555d1bb5689b0aa500627964446f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:34 +0000
Subject: [PATCH 11/33] fix: system constant lookup returns the value of the
 constant

---
 record_manager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/record_manager.go b/record_manager.go
index 82ffecf..f5b0071 100644
--- a/record_manager.go
+++ b/record_manager.go
@@ -30,13 +30,12 @@ func (cd *CalibrationData) getSystemConstantValue(ident string) (string, error)
 		log.Err(err).Msg("could not get value of system constant")
 		return "", err
 	}
-	var val string
 	if !sc.ValueSet {
 		err = errors.New("no value defined in system constant " + sc.Name)
 		log.Err(err).Msg("could not get value of system constant")
 		return "", err
 	}
-	return val, nil
+	return sc.Value, nil
 }
 
 // GetObjectByIdent returns an object with a given identifier that is defined within the a2l
-- 
2.43.0


From 36b75a4262265d2a4db48a9eaeb4b23a83be1a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:35 +0000
Subject: [PATCH 12/33] fix: hex file format is chosen by the file extension

---
 calib_data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calib_data.go b/calib_data.go
index 65ee151..f1cdc22 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -122,7 +122,7 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 	//probably improve this by putting the determination logic into a single unified hex parsing package
 
 	//intel hex
-	if strings.Contains(strings.ToLower(hexFilePath), ".hex") {
+	if strings.HasSuffix(strings.ToLower(hexFilePath), ".hex") {
 		h, err := ihex32.ParseFromFile(hexFilePath)
 		if err != nil {
 			log.Err(err).Msg("could not parse hex:")
@@ -134,7 +134,7 @@ func readHex(wg *sync.WaitGroup, ch chan map[uint32]byte, ce chan error, hexFile
 			log.Info().Msg("parsed hex file")
 		}
 		//Motorola S19
-	} else if strings.Contains(strings.ToLower(hexFilePath), ".s19") {
+	} else if strings.HasSuffix(strings.ToLower(hexFilePath), ".s19") {
 		h, err := srec19.ParseFromFile(hexFilePath)
 		if err != nil {
 			log.Err(err).Msg("could not parse hex:")
-- 
2.43.0


From 3e881cf2330069ac445080c26edcf96a4a28df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:36 +0000
Subject: [PATCH 13/33] fix: a missing or unsupported conversion table is
 reported

---
 compu_methods.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/compu_methods.go b/compu_methods.go
index eebbb44..a0edb0a 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -38,6 +38,9 @@ func convDecToPhy(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float6
 		}
 		return phy, err
 	case a2l.TabIntp:
+		//implement if found in prod data.
+		err = errors.New("conversion method 'TabIntp' not implemented for compuMethod " + cm.Name)
+		log.Err(err).Msg("decimal value could not be converted")
 		return 0, err
 	case a2l.TabNointp:
 		phy, err := calcTabNoIntp(dec, cm, cd)
@@ -165,11 +168,9 @@ func calcTabNoIntp(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float
 	var err error
 	tab, exists := cd.A2l.Project.Modules[cd.ModuleIndex].CompuTabs[cm.CompuTabRef.ConversionTable]
 	if !exists {
-		if err != nil {
-			err = errors.New("conversion table " + cm.CompuTabRef.ConversionTable + " not found for compuMethod: " + cm.Name)
-			log.Err(err).Msg("decimal value could not be converted")
-			return dec, err
-		}
+		err = errors.New("conversion table " + cm.CompuTabRef.ConversionTable + " not found for compuMethod: " + cm.Name)
+		log.Err(err).Msg("decimal value could not be converted")
+		return dec, err
 	}
 	if tab.InValSet && tab.OutValSet {
 		for i := range tab.InVal {
-- 
2.43.0


From 0e9cb51abd4f2757205017c1e0da9c40457be611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:36 +0000
Subject: [PATCH 14/33] fix: verbal range conversion compares with the upper
 limit of the range

---
 compu_methods.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compu_methods.go b/compu_methods.go
index a0edb0a..fe12141 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -71,7 +71,13 @@ func calcTabVerbRange(dec float64, cvr *a2l.CompuVTabRange, cd *CalibrationData)
 	if tabRange.NumberValueTriplesSet {
 		var i uint16
 		for i = 0; i < tabRange.NumberValueTriples; i++ {
-			if tabRange.InValMin[i] <= dec && dec < tabRange.InValMin[i] {
+			if tabRange.InValMin[i] <= dec && dec < tabRange.InValMax[i] {
+				return tabRange.OutVal[i], err
+			}
+		}
+		//the upper limit belongs to the range unless the next range starts there
+		for i = 0; i < tabRange.NumberValueTriples; i++ {
+			if tabRange.InValMin[i] <= dec && dec == tabRange.InValMax[i] {
 				return tabRange.OutVal[i], err
 			}
 		}
-- 
2.43.0


From 7fcc9f14d16dd9dadd2d52a897ea8e426178f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:52 +0000
Subject: [PATCH 15/33] fix: words are 16 bit and longs 32 bit wide

---
 a2l/enums.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/a2l/enums.go b/a2l/enums.go
index bff99f0..2365a8e 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -41,13 +41,13 @@ const (
 	UBYTE DataTypeEnum = ubyteToken
 	//SBYTE is defined as an unsigned 8 bit integer
 	SBYTE DataTypeEnum = sbyteToken
-	//UWORD seems to be statically defined as a 32 bit unsigned integer
+	//UWORD is defined as a 16 bit unsigned integer
 	UWORD DataTypeEnum = uwordToken
-	//SWORD seems to be statically defined as a 32 bit signed integer
+	//SWORD is defined as a 16 bit signed integer
 	SWORD DataTypeEnum = swordToken
-	//ULONG is defined as a 64 bit unsigned integer
+	//ULONG is defined as a 32 bit unsigned integer
 	ULONG DataTypeEnum = ulongToken
-	//SLONG is defined as a 64 bit signed integer
+	//SLONG is defined as a 32 bit signed integer
 	SLONG DataTypeEnum = slongToken
 	//AUint64 is defined as a 64 bit unsigned integer
 	AUint64 DataTypeEnum = aUint64Token
@@ -104,10 +104,10 @@ func (dte *DataTypeEnum) GetType() interface{} {
 		var t int8
 		return t
 	case UWORD:
-		var t uint32
+		var t uint16
 		return t
 	case SWORD:
-		var t int32
+		var t int16
 		return t
 	case ULONG:
 		var t uint32
@@ -142,9 +142,9 @@ func (dte *DataTypeEnum) GetDatatypeLength() uint16 {
 	case SBYTE:
 		return 8
 	case UWORD:
-		return 32
+		return 16
 	case SWORD:
-		return 32
+		return 16
 	case ULONG:
 		return 32
 	case SLONG:
@@ -211,9 +211,9 @@ func (dse *DataSizeEnum) GetDataSizeLength() uint16 {
 	case BYTE:
 		return 8
 	case WORD:
-		return 32
+		return 16
 	case LONG:
-		return 64
+		return 32
 	default:
 		return 0
 	}
-- 
2.43.0


From fa22630fc4758b8b2838bbb5122a79a8f4f47ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:52 +0000
Subject: [PATCH 16/33] fix: address type PLONGLONG is accepted

---
 a2l/enums.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/a2l/enums.go b/a2l/enums.go
index 2365a8e..d0a822b 100644
--- a/a2l/enums.go
+++ b/a2l/enums.go
@@ -262,6 +262,8 @@ func parseAddrTypeEnum(tok *tokenGenerator) (AddrTypeEnum, error) {
 		a = PWORD
 	case plongToken:
 		a = PLONG
+	case plonLongToken:
+		a = PLONGLONG
 	case directToken:
 		a = DIRECT
 	default:
-- 
2.43.0


From e0a864abe1974cc008e5b831a532b23e55076378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:08 +0000
Subject: [PATCH 17/33] fix: components of a record layout are read in the
 order of their positions

---
 calib_data.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/calib_data.go b/calib_data.go
index f1cdc22..b7def31 100644
--- a/calib_data.go
+++ b/calib_data.go
@@ -12,6 +12,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -348,12 +349,14 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 	rl, err := cd.getRecordLayout(cv.characteristic)
 	if err != nil {
 		log.Err(err).Msg("record layout for identifier '" + cv.characteristic.Deposit + "' not found")
+		return
 	}
 
 	//determine relative positions of each field of the record layout struct
 	relPos, err := rl.GetRecordLayoutRelativePositions()
 	if err != nil {
 		log.Err(err).Msg("could not retrieve positions for record layout '" + cv.characteristic.Deposit + "'")
+		return
 	}
 	rl.RelativePositions = relPos
 
@@ -364,9 +367,18 @@ func getValuesFromHex(cv *CharacteristicValues, cd *CalibrationData) {
 	curPos, err = cd.convertStringToUint32Address(cv.characteristic.Address)
 	if err != nil {
 		log.Err(err).Msg("could not convert address of characteristic '" + cv.characteristic.Name + "'")
+		return
 	}
 
-	for _, field := range cv.recordLayout.RelativePositions {
+	//the fields are stored in the order of their positions
+	positions := make([]int, 0, len(relPos))
+	for pos := range relPos {
+		positions = append(positions, int(pos))
+	}
+	sort.Ints(positions)
+
+	for _, pos := range positions {
+		field := relPos[uint16(pos)]
 		switch field {
 		case "AxisPtsX":
 			cv.AxisXValues, err = cv.getAxisPointsX(cd, rl, &curPos)
-- 
2.43.0


From ceff8286cf3acbb89c147ba8a9c35b257fc5a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:09 +0000
Subject: [PATCH 18/33] fix: rational function is inverted with its documented
 formula

---
 compu_methods.go | 46 +++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/compu_methods.go b/compu_methods.go
index fe12141..dbbe4cf 100644
--- a/compu_methods.go
+++ b/compu_methods.go
@@ -136,38 +136,30 @@ func calcRatFunc(dec float64, cm *a2l.CompuMethod) (float64, error) {
 	//y = (axx + bx + c) / (dxx + ex + f)
 	//inverted fi(Decimal) = Physical
 	//y = (e dec - b)/(2 (a - d dec)) ± sqrt((e dec - b)^2 - 4 (d dec - a) (f dec - c))/(2 (a - d dec))
-	firstDivisor := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec))
-	if firstDivisor == 0 {
-		err = errors.New("rationality function cannot be computed(zero divisor) for compuMethod: " + cm.Name)
+	//both are solutions of (a - d dec) phy^2 + (b - e dec) phy + (c - f dec) = 0
+	quad := cm.Coeffs.A - cm.Coeffs.D*dec
+	lin := cm.Coeffs.B - cm.Coeffs.E*dec
+	if quad == 0 {
+		if lin == 0 {
+			err = errors.New("rationality function cannot be computed(zero divisor) for compuMethod: " + cm.Name)
+			log.Err(err).Msg("decimal value could not be converted")
+			return 0, err
+		}
+		return (cm.Coeffs.F*dec - cm.Coeffs.C) / lin, err
+	}
+	discriminant := lin*lin - 4*quad*(cm.Coeffs.C-cm.Coeffs.F*dec)
+	if discriminant < 0 {
+		err = errors.New("rationality function has no real inverse for compuMethod: " + cm.Name)
 		log.Err(err).Msg("decimal value could not be converted")
 		return 0, err
 	}
-	secondDivisorPositive := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec)) +
-		math.Sqrt(math.Pow((cm.Coeffs.E*dec-cm.Coeffs.B), 2)-4*(cm.Coeffs.D*dec-cm.Coeffs.A)*(cm.Coeffs.F*dec-cm.Coeffs.C))/firstDivisor
-	secondDivisorNegative := (2 * (cm.Coeffs.A - cm.Coeffs.D*dec)) -
-		math.Sqrt(math.Pow((cm.Coeffs.E*dec-cm.Coeffs.B), 2)-4*(cm.Coeffs.D*dec-cm.Coeffs.A)*(cm.Coeffs.F*dec-cm.Coeffs.C))/firstDivisor
-
-	if secondDivisorPositive != 0 && secondDivisorNegative != 0 {
-		plusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorPositive
-		minusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorNegative
-		testVal := (cm.Coeffs.A*plusVal*plusVal + cm.Coeffs.B*plusVal + cm.Coeffs.C) / (cm.Coeffs.D*plusVal*plusVal + cm.Coeffs.E*plusVal + cm.Coeffs.F)
-		if testVal == dec {
-			return plusVal, err
-		} else {
-			return minusVal, err
-		}
-	} else if secondDivisorPositive != 0 {
-		plusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorPositive
+	plusVal := (-lin + math.Sqrt(discriminant)) / (2 * quad)
+	minusVal := (-lin - math.Sqrt(discriminant)) / (2 * quad)
+	testVal := (cm.Coeffs.A*plusVal*plusVal + cm.Coeffs.B*plusVal + cm.Coeffs.C) / (cm.Coeffs.D*plusVal*plusVal + cm.Coeffs.E*plusVal + cm.Coeffs.F)
+	if testVal == dec {
 		return plusVal, err
-	} else if secondDivisorNegative != 0 {
-		minusVal := (cm.Coeffs.E*dec - cm.Coeffs.B) / secondDivisorNegative
-		return minusVal, err
-	} else {
-		err = errors.New("rationality function cannot be computed(zero divisor) for compuMethod: " + cm.Name)
-		log.Err(err).Msg("decimal value could not be converted")
-		return 0, err
 	}
-
+	return minusVal, err
 }
 
 func calcTabNoIntp(dec float64, cm *a2l.CompuMethod, cd *CalibrationData) (float64, error) {
-- 
2.43.0


From bfe1f85381e4059dc605e363b51ea30a8458bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:28 +0000
Subject: [PATCH 19/33] fix: measurement values behind the conversion are
 stored

---
 a2l/measurement.go          | 1 +
 a2l/type_def_measurement.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/a2l/measurement.go b/a2l/measurement.go
index 199dfbe..9072b43 100644
--- a/a2l/measurement.go
+++ b/a2l/measurement.go
@@ -243,6 +243,7 @@ forLoop:
 				log.Info().Msg("measurement datatype successfully parsed")
 			} else if !m.conversionSet {
 				m.conversion = tok.current()
+				m.conversionSet = true
 			} else if !m.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
diff --git a/a2l/type_def_measurement.go b/a2l/type_def_measurement.go
index d644333..2d7bd6a 100644
--- a/a2l/type_def_measurement.go
+++ b/a2l/type_def_measurement.go
@@ -135,6 +135,7 @@ forLoop:
 				log.Info().Msg("typeDefMeasurement datatype successfully parsed")
 			} else if !tdm.conversionSet {
 				tdm.conversion = tok.current()
+				tdm.conversionSet = true
 			} else if !tdm.resolutionSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
-- 
2.43.0


From d33269203bf58a6aeb736e9784650641363611bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:29 +0000
Subject: [PATCH 20/33] fix: unit display and type are stored

---
 a2l/unit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a2l/unit.go b/a2l/unit.go
index 83e700c..cb11507 100644
--- a/a2l/unit.go
+++ b/a2l/unit.go
@@ -64,8 +64,8 @@ forLoop:
 				log.Info().Msg("unit name successfully parsed")
 			} else if !u.longIdentifierSet {
 				u.longIdentifier = tok.current()
-				u.nameSet = true
-				log.Info().Msg("unit name successfully parsed")
+				u.longIdentifierSet = true
+				log.Info().Msg("unit longIdentifier successfully parsed")
 			} else if !u.displaySet {
 				u.display = tok.current()
 				u.displaySet = true
-- 
2.43.0


From 47deffed861e8e6d68426ee326a4ffa7fc020132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:30 +0000
Subject: [PATCH 21/33] fix: frame values are stored and a truncated frame is
 reported

---
 a2l/frame.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/a2l/frame.go b/a2l/frame.go
index b2620df..f0a457a 100644
--- a/a2l/frame.go
+++ b/a2l/frame.go
@@ -42,6 +42,8 @@ forLoop:
 			log.Info().Msg("frame ifData successfully parsed")
 		default:
 			if tok.current() == emptyToken {
+				err = errors.New("unexpected end of file")
+				log.Err(err).Msg("frame could not be parsed")
 				break forLoop
 			} else if tok.current() == endFrameToken {
 				break forLoop
@@ -51,8 +53,10 @@ forLoop:
 				break forLoop
 			} else if !f.nameSet {
 				f.name = tok.current()
+				f.nameSet = true
 			} else if !f.longIdentifierSet {
 				f.longIdentifier = tok.current()
+				f.longIdentifierSet = true
 			} else if !f.scalingUnitSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 16)
@@ -61,6 +65,7 @@ forLoop:
 					break forLoop
 				}
 				f.scalingUnit = uint16(buf)
+				f.scalingUnitSet = true
 			} else if !f.rateSet {
 				var buf uint64
 				buf, err = strconv.ParseUint(tok.current(), 10, 32)
@@ -69,6 +74,7 @@ forLoop:
 					break forLoop
 				}
 				f.rate = uint32(buf)
+				f.rateSet = true
 			}
 		}
 	}
-- 
2.43.0


From e511743cf675d0e382fc0926d8e4d092911fc0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:31 +0000
Subject: [PATCH 22/33] fix: all dimensions of a matrix are stored

---
 a2l/matrix_dim.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/a2l/matrix_dim.go b/a2l/matrix_dim.go
index 47af7a8..17fc1c6 100644
--- a/a2l/matrix_dim.go
+++ b/a2l/matrix_dim.go
@@ -61,6 +61,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimY = uint16(buf)
+			md.DimYSet = true
 			log.Info().Msg("matrixDim yDim successfully parsed")
 		} else if !md.DimZSet {
 			var buf uint64
@@ -70,6 +71,7 @@ forLoop:
 				break forLoop
 			}
 			md.DimZ = uint16(buf)
+			md.DimZSet = true
 			log.Info().Msg("matrixDim zDim successfully parsed")
 		} else if !md.Dim4Set {
 			var buf uint64
@@ -79,6 +81,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim4 = uint16(buf)
+			md.Dim4Set = true
 			log.Info().Msg("matrixDim 4Dim successfully parsed")
 		} else if !md.Dim5Set {
 			var buf uint64
@@ -88,6 +91,7 @@ forLoop:
 				break forLoop
 			}
 			md.Dim5 = uint16(buf)
+			md.Dim5Set = true
 			log.Info().Msg("matrixDim 5Dim successfully parsed")
 			break forLoop
 		}
-- 
2.43.0


From 0de029775c814b9936ce510099ee5a83210357b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:33 +0000
Subject: [PATCH 23/33] fix: memory segment stores all five offsets

---
 a2l/memory_segment.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/a2l/memory_segment.go b/a2l/memory_segment.go
index 69e6b1c..11990cc 100644
--- a/a2l/memory_segment.go
+++ b/a2l/memory_segment.go
@@ -29,6 +29,7 @@ type memorySegment struct {
 func parseMemorySegment(tok *tokenGenerator) (memorySegment, error) {
 	ms := memorySegment{}
 	var err error
+	var noOffsets int
 forLoop:
 	for {
 		switch tok.next() {
@@ -91,10 +92,9 @@ forLoop:
 				ms.size = tok.current()
 				ms.sizeSet = true
 			} else if !ms.offsetSet {
-				for i := 0; i < 5; i++ {
-					ms.offset[i] = tok.current()
-				}
-				ms.offsetSet = true
+				ms.offset[noOffsets] = tok.current()
+				noOffsets++
+				ms.offsetSet = noOffsets == len(ms.offset)
 			}
 		}
 	}
-- 
2.43.0


From 26b11f0cfaeb399b06ef00943176e218f8361d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:34 +0000
Subject: [PATCH 24/33] fix: address type behind ADDRESS_TYPE is read

---
 a2l/blob.go                | 1 +
 a2l/instance.go            | 1 +
 a2l/structure_component.go | 1 +
 a2l/type_def_blob.go       | 1 +
 a2l/type_def_structure.go  | 1 +
 5 files changed, 5 insertions(+)

diff --git a/a2l/blob.go b/a2l/blob.go
index 13c4a97..5c53d57 100644
--- a/a2l/blob.go
+++ b/a2l/blob.go
@@ -46,6 +46,7 @@ forLoop:
 			b.annotation = append(b.annotation, buf)
 			log.Info().Msg("blob annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			b.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("blob addressType could not be parsed")
diff --git a/a2l/instance.go b/a2l/instance.go
index fd7529b..d5f8c08 100644
--- a/a2l/instance.go
+++ b/a2l/instance.go
@@ -45,6 +45,7 @@ forLoop:
 			i.annotation = append(i.annotation, buf)
 			log.Info().Msg("instance annotation successfully parsed")
 		case addressTypeToken:
+			tok.next()
 			i.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("instance addressType could not be parsed")
diff --git a/a2l/structure_component.go b/a2l/structure_component.go
index 19884c9..777af78 100644
--- a/a2l/structure_component.go
+++ b/a2l/structure_component.go
@@ -26,6 +26,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			sc.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("structureComponent addressType could not be parsed")
diff --git a/a2l/type_def_blob.go b/a2l/type_def_blob.go
index bcdaa5d..2440b49 100644
--- a/a2l/type_def_blob.go
+++ b/a2l/type_def_blob.go
@@ -24,6 +24,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tdb.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefBlob addressType could not be parsed")
diff --git a/a2l/type_def_structure.go b/a2l/type_def_structure.go
index 5c5942d..15faef4 100644
--- a/a2l/type_def_structure.go
+++ b/a2l/type_def_structure.go
@@ -27,6 +27,7 @@ forLoop:
 	for {
 		switch tok.next() {
 		case addressTypeToken:
+			tok.next()
 			tds.addressType, err = parseAddrTypeEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefStructure addressType could not be parsed")
-- 
2.43.0


From 1d2319e6976a22afdae596f729623f982550e2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:35 +0000
Subject: [PATCH 25/33] fix: encoding behind ENCODING is read

---
 a2l/characteristic.go          | 1 +
 a2l/type_def_characteristic.go | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/a2l/characteristic.go b/a2l/characteristic.go
index d7a882b..e3e8508 100644
--- a/a2l/characteristic.go
+++ b/a2l/characteristic.go
@@ -134,6 +134,7 @@ forLoop:
 			}
 			log.Info().Msg("characteristic displayIdentifier successfully parsed")
 		case encodingToken:
+			tok.next()
 			c.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("characteristic encoding could not be parsed")
diff --git a/a2l/type_def_characteristic.go b/a2l/type_def_characteristic.go
index e1f7cf6..02817d7 100644
--- a/a2l/type_def_characteristic.go
+++ b/a2l/type_def_characteristic.go
@@ -73,13 +73,14 @@ forLoop:
 				break forLoop
 			}
 			log.Info().Msg("typeDefCharacteristic discrete successfully parsed")
-		case displayIdentifierToken:
+		case encodingToken:
+			tok.next()
 			tdc.encoding, err = parseEncodingEnum(tok)
 			if err != nil {
 				log.Err(err).Msg("typeDefCharacteristic encoding could not be parsed")
 				break forLoop
 			}
-			log.Info().Msg("typeDefCharacteristic displayIdentifier successfully parsed")
+			log.Info().Msg("typeDefCharacteristic encoding successfully parsed")
 		case extendedLimitsToken:
 			tdc.extendedLimits, err = parseExtendedLimits(tok)
 			if err != nil {
-- 
2.43.0


From 831703977da8a1a73f797c38e7f045bf7b80a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:51 +0000
Subject: [PATCH 26/33] fix: overwrite stores the conversion and input
 quantity, not the keyword

---
 a2l/overwrite.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/a2l/overwrite.go b/a2l/overwrite.go
index 2ead1da..4afaee0 100644
--- a/a2l/overwrite.go
+++ b/a2l/overwrite.go
@@ -28,6 +28,12 @@ forLoop:
 	for {
 		switch tok.next() {
 		case conversionToken:
+			tok.next()
+			if isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("overwrite conversion could not be parsed")
+				break forLoop
+			}
 			o.conversion = tok.current()
 			log.Info().Msg("overwrite conversion successfully parsed")
 		case extendedLimitsToken:
@@ -45,6 +51,12 @@ forLoop:
 			}
 			log.Info().Msg("overwrite format successfully parsed")
 		case inputQuantityToken:
+			tok.next()
+			if isKeyword(tok.current()) {
+				err = errors.New("unexpected token " + tok.current())
+				log.Err(err).Msg("overwrite inputQuantity could not be parsed")
+				break forLoop
+			}
 			o.inputQuantity = tok.current()
 			log.Info().Msg("overwrite inputQuantity successfully parsed")
 		case limitsToken:
-- 
2.43.0


From 9cc1836398fa6da167f69552a03e1c162fd178d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:52 +0000
Subject: [PATCH 27/33] fix: alternating index modes are values, not keywords

---
 a2l/tokens.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/a2l/tokens.go b/a2l/tokens.go
index 35dac5a..64cd0db 100644
--- a/a2l/tokens.go
+++ b/a2l/tokens.go
@@ -368,9 +368,6 @@ var keywordMap = map[string]uint8{
 	"ALIGNMENT_INT64":                 0,
 	"ALIGNMENT_LONG":                  0,
 	"ALIGNMENT_WORD":                  0,
-	"ALTERNATE_CURVES":                0,
-	"ALTERNATE_WITH_X":                0,
-	"ALTERNATE_WITH_Y":                0,
 	"ANNOTATION_LABEL":                0,
 	"ANNOTATION_ORIGIN":               0,
 	"AR_PROTOTYPE_OF":                 0,
-- 
2.43.0


From faa4597a78b0ad2c246a91e8d0a4564787aae424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:36 +0000
Subject: [PATCH 28/33] fix: READ_ONLY and READ_WRITE end a list of matrix
 dimensions

---
 a2l/matrix_dim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/matrix_dim.go b/a2l/matrix_dim.go
index 17fc1c6..6586f1d 100644
--- a/a2l/matrix_dim.go
+++ b/a2l/matrix_dim.go
@@ -37,7 +37,7 @@ forLoop:
 			err = errors.New("unexpected end of file")
 			log.Err(err).Msg("matrixDim could not be parsed")
 			break forLoop
-		} else if isKeyword(tok.current()) {
+		} else if isKeyword(tok.current()) || tok.current() == readOnlyToken || tok.current() == readWriteToken {
 			//see above comment
 			log.Info().Str("current token", tok.current()).Msg("matrixDim detected keyword:")
 			tok.previous()
-- 
2.43.0


From ac64a928c37dfe882540920de6b48c8c7ca819fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:09 +0000
Subject: [PATCH 29/33] fix: parallel a2l parser neither skips objects nor
 splits them at part boundaries

---
 a2l/module.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/a2l/module.go b/a2l/module.go
index 06f00e1..617325d 100644
--- a/a2l/module.go
+++ b/a2l/module.go
@@ -3,6 +3,7 @@ package a2l
 import (
 	"errors"
 	"fmt"
+	"strings"
 	"sync"
 
 	"github.com/rs/zerolog/log"
@@ -417,13 +418,11 @@ forLoop:
 		return myModule, err
 	}
 	log.Info().Int("endIndex", endIndex).Msg("MODULE ends at index")
+	bounds := partBounds(startIndex, endIndex, numProc)
 	for i := 0; i < numProc; i++ {
 		//Starte parser Threads
-		minIndex := startIndex + ((endIndex-startIndex)/numProc)*i
-		maxIndex := minIndex + ((endIndex - startIndex) / numProc) - 1
-		if i+1 == numProc {
-			maxIndex = endIndex
-		}
+		minIndex := bounds[i]
+		maxIndex := bounds[i+1]
 		log.Info().Msg(("goroutine " + fmt.Sprint(i) + " starting index: " + fmt.Sprint(minIndex) + " until end at index: " + fmt.Sprint(maxIndex) + " of " + fmt.Sprint(endIndex)))
 		go parseModuleMainLoop(wgParsers, minIndex, maxIndex, cA2ml, cAxisPts, cBlob, cCharacteristic, cCompuMethod,
 			cCompuTab, cCompuVtab, cCompuVtabRange, cFrame, cFunction, cGroup, cIfData, cMeasurement, cModCommon,
@@ -449,6 +448,31 @@ forLoop:
 	return myModule, err
 }
 
+// partBounds divides the tokens behind startIndex up to endIndex into parts of about the same size.
+// part i consists of the tokens behind bounds[i] up to and including bounds[i+1].
+// a part never ends within an object of the module.
+func partBounds(startIndex int, endIndex int, parts int) []int {
+	bounds := make([]int, parts+1)
+	bounds[0] = startIndex
+	part := 1
+	depth := 0
+	for i := startIndex + 1; i <= endIndex && part < parts; i++ {
+		if strings.HasPrefix(tokenList[i], "/begin") {
+			depth++
+		} else if strings.HasPrefix(tokenList[i], "/end") {
+			depth--
+		}
+		for part < parts && depth <= 0 && i >= startIndex+((endIndex-startIndex)/parts)*part {
+			bounds[part] = i
+			part++
+		}
+	}
+	for ; part <= parts; part++ {
+		bounds[part] = endIndex
+	}
+	return bounds
+}
+
 // collectChannelsMultithreaded uses anonymous function to collect the data sent by the goroutines running the moduleMainLoop.
 // usually the Select Collector is to be prefered as it is mostly faster and always easier on memory
 // as the additional goroutines spun up in collectChannelsMultithreaded seem to block the GC a lot
-- 
2.43.0


From 1798e531117309ea51f62b0245f5bd6a45f062d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:10 +0000
Subject: [PATCH 30/33] fix: a word with a slash does not end the list of
 tokens

---
 a2l/token_generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 220c0ce..2b834a8 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -343,8 +343,8 @@ func getTwoWordedToken(currentOuterIndex *int, currentInnerIndex *int, str [][]s
 		return twoWordedToken, nil
 
 	} else {
-		err = errors.New("no /begin or /end token found")
-		return emptyToken, err
+		//a word that merely contains a slash
+		return t, nil
 	}
 }
 
-- 
2.43.0


From af013faebf71a89cbef738109fd725885a1ab5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:12 +0000
Subject: [PATCH 31/33] fix: tokenizer parts do not begin within a comment,
 text or keyword

---
 a2l/token_generator.go | 66 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 64 insertions(+), 2 deletions(-)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index 2b834a8..d377ae1 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -51,17 +51,32 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	var locTokens []chan []string
 	tokenList = make([]string, 0, expectedNumberOfTokens)
 	lines := strings.Split(str, "\n")
+	start := 0
+	open := nothingOpen
 	for i := 0; i < numProc; i++ {
 		//calculate start and end for the slices each go routine is given to parse
-		start := (len(lines) / numProc) * i
-		end := start + (len(lines) / numProc)
+		end := (len(lines) / numProc) * (i + 1)
 		if i+1 == numProc {
 			//integer divisions might round up or down, so we make sure that we get the "real" end here
 			end = len(lines)
 		}
+		//a slice ends with a line that leaves nothing open for the next one
+		for n := start; n < len(lines); n++ {
+			if n >= end {
+				if open == nothingOpen {
+					break
+				}
+				end = n + 1
+			}
+			open = scanLine(lines[n], open)
+		}
+		if end < start {
+			end = start
+		}
 		c := make(chan []string, 1)
 		locTokens = append(locTokens, c)
 		go tokenBuilderRoutine(lines[start:end], c)
+		start = end
 	}
 	//collect token lists from channels
 	for _, c := range locTokens {
@@ -85,6 +100,53 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	return tg, nil
 }
 
+// openConstruct is what a line leaves unfinished for the following line.
+type openConstruct int
+
+const (
+	nothingOpen openConstruct = iota
+	textOpen
+	commentOpen
+	keywordOpen
+)
+
+// scanLine returns what is left open at the end of a line, given what was open at its beginning.
+// it follows the rules of buildNextValidToken
+func scanLine(line string, open openConstruct) openConstruct {
+	for _, t := range strings.Fields(line) {
+		switch open {
+		case textOpen:
+			if strings.Count(t, quotationMarkToken)%2 != 0 {
+				open = nothingOpen
+			}
+		case commentOpen:
+			if strings.Contains(t, endMultilineCommentToken) {
+				open = nothingOpen
+			}
+		case keywordOpen:
+			open = nothingOpen
+		default:
+			qtp := strings.Index(t, quotationMarkToken)
+			lcp := strings.Index(t, beginLineCommentToken)
+			mlcp := strings.Index(t, beginMultilineCommentToken)
+			if qtp != -1 && (mlcp == -1 || qtp < mlcp) && (lcp == -1 || qtp < lcp) {
+				if strings.Count(t, quotationMarkToken)%2 != 0 {
+					open = textOpen
+				}
+			} else if lcp != -1 && (qtp == -1 || mlcp == -1 || qtp < mlcp) {
+				return nothingOpen
+			} else if mlcp != -1 {
+				if !strings.Contains(t, endMultilineCommentToken) {
+					open = commentOpen
+				}
+			} else if (strings.Contains(t, "/begin") || strings.Contains(t, "/end")) && !strings.Contains(t, endMultilineCommentToken) {
+				open = keywordOpen
+			}
+		}
+	}
+	return open
+}
+
 func tokenBuilderRoutine(lines []string, c chan []string) {
 	//initialize fields with the expected capacity of tokens it will have to hold in order to avoid reallocations
 	fields := make([][]string, 0, expectedNumberOfTokens/numProc)
-- 
2.43.0


From 30d949bb6015e257df568a3d15658a8eeff6727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:47 +0000
Subject: [PATCH 32/33] fix: NO_RESCALE_X keeps its datatype

---
 a2l/no_rescale_x.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a2l/no_rescale_x.go b/a2l/no_rescale_x.go
index abe4759..c115ea5 100644
--- a/a2l/no_rescale_x.go
+++ b/a2l/no_rescale_x.go
@@ -39,7 +39,6 @@ forLoop:
 			nrx.Position = uint16(buf)
 			nrx.PositionSet = true
 			log.Info().Msg("noRescalex position successfully parsed")
-			break forLoop
 		} else if !nrx.DatatypeSet {
 			nrx.Datatype, err = parseDataTypeEnum(tok)
 			if err != nil {
@@ -48,6 +47,7 @@ forLoop:
 			}
 			nrx.DatatypeSet = true
 			log.Info().Msg("noRescalex datatype successfully parsed")
+			break forLoop
 		}
 	}
 	return nrx, err
-- 
2.43.0


From 86731a93ca4079cdd34c53cc24f6a373eb9e4fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:51 +0000
Subject: [PATCH 33/33] fix: comments next to a word do not swallow the word

---
 a2l/token_generator.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/a2l/token_generator.go b/a2l/token_generator.go
index d377ae1..e58bb37 100755
--- a/a2l/token_generator.go
+++ b/a2l/token_generator.go
@@ -47,6 +47,9 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	//replace escaped quotation marks
 	str = strings.ReplaceAll(str, `\"`, `'`)
 
+	//comments may directly follow or precede a word, so they are removed before the text is split into words
+	str = removeComments(str)
+
 	//Split text file into lines and the lines into words separated by whitespace
 	var locTokens []chan []string
 	tokenList = make([]string, 0, expectedNumberOfTokens)
@@ -100,6 +103,43 @@ func buildTokenGeneratorFromString(str string) (tokenGenerator, error) {
 	return tg, nil
 }
 
+// removeComments replaces every comment outside of quotation marks by a blank.
+func removeComments(str string) string {
+	var sb strings.Builder
+	inText := false
+	start := 0 //first character that has not been copied yet
+	for i := 0; i < len(str); i++ {
+		if str[i] == '"' {
+			inText = !inText
+		} else if str[i] == '/' && !inText {
+			end := 0
+			if strings.HasPrefix(str[i:], beginLineCommentToken) {
+				end = strings.Index(str[i:], "\n")
+			} else if strings.HasPrefix(str[i:], beginMultilineCommentToken) {
+				end = strings.Index(str[i+2:], endMultilineCommentToken)
+				if end != -1 {
+					end += 4
+				}
+			} else {
+				continue
+			}
+			sb.WriteString(str[start:i])
+			sb.WriteString(spaceToken)
+			if end == -1 {
+				//the comment lasts until the end of the file
+				return sb.String()
+			}
+			start = i + end
+			i = start - 1
+		}
+	}
+	if start == 0 {
+		return str
+	}
+	sb.WriteString(str[start:])
+	return sb.String()
+}
+
 // openConstruct is what a line leaves unfinished for the following line.
 type openConstruct int
 
-- 
2.43.0

