From caa9979ffeb961614b64afee13c485b7e2ff556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 01/17] fix: report an error when the connection ends before a
 reply is complete

ScanTimeout ignored the result of Scan, so a set command was reported as
successful when the unit closed the connection without acknowledging it.
---
 libcomfo/conn.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 3d2542e..dac0b58 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -35,10 +35,19 @@ func ScanTimeout(scanner *bufio.Scanner, timer *time.Timer) (out []byte, err err
 	go func() { done <- scanner.Scan() }()
 
 	// Wait for delimiter to appear, or time out
-	if _, err := WaitTimeout(done, timer); err != nil {
+	ok, err := WaitTimeout(done, timer)
+	if err != nil {
 		return out, err
 	}
 
+	// The connection ended or failed before the delimiter appeared
+	if !ok {
+		if err := scanner.Err(); err != nil {
+			return out, err
+		}
+		return out, io.ErrUnexpectedEOF
+	}
+
 	// Return all characters found on the way to the delimiter
 	out = scanner.Bytes()
 
-- 
2.43.0


From a69baf30e82e2ee9a0268d4ae1835538fbdeea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 02/17] fix: only accept ack, start and end sequences in their
 own place

Any of the three sequences was taken for the acknowledge of a command.
---
 libcomfo/conn.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index dac0b58..2cc9962 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -60,6 +60,9 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 
 	scanner := bufio.NewScanner(conn)
 
+	// Command character of the escape sequence that ended the last token
+	var found byte
+
 	// Split function for splitting a byte slice on ACK, start and end sequences.
 	// Double 0x07 characters (escaped 0x07 values) are ignored here.
 	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
@@ -71,6 +74,7 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 					char := data[i+1]
 					switch char {
 					case ack, start, end:
+						found = char
 						// Advance the pointer past the 2nd command character
 						return i + 2, data[:i], nil
 					default:
@@ -89,8 +93,8 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
-	// Found bytes before ACK
-	if len(pr) != 0 {
+	// Found bytes before ACK, or another sequence in its place
+	if len(pr) != 0 || found != ack {
 		return out, errScanInput
 	}
 
@@ -105,8 +109,8 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
-	// Found bytes between ACK and packet start
-	if len(pr) != 0 {
+	// Found bytes between ACK and packet start, or another sequence in its place
+	if len(pr) != 0 || found != start {
 		return out, errScanInput
 	}
 
@@ -116,6 +120,11 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 		return out, err
 	}
 
+	// Packet was not terminated by an end sequence
+	if found != end {
+		return out, errScanInput
+	}
+
 	// Abort on invalid input
 	if len(pr) > 0 && len(pr) < 4 {
 		return out, errTooShort
-- 
2.43.0


From 63a55b88dced01096f9250011ef5514b9b2ebe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 03/17] fix: reject an empty frame in a reply

A start sequence followed directly by an end sequence was accepted as a
valid (zero) packet.
---
 libcomfo/conn.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 2cc9962..feab964 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -126,19 +126,12 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 	}
 
 	// Abort on invalid input
-	if len(pr) > 0 && len(pr) < 4 {
+	if len(pr) < 4 {
 		return out, errTooShort
 	}
 
 	// Decode the payload
-	if len(pr) >= 4 {
-		out, err = UnmarshalPacket(pr)
-		if err != nil {
-			return out, err
-		}
-	}
-
-	return
+	return UnmarshalPacket(pr)
 }
 
 // WritePacket serializes a Packet into wire representation, wrapped
-- 
2.43.0


From a7c8b7df856717969ef518fa7b4f8d9b6e4fba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 04/17] fix: find the end of a frame by its length

An escaped 0x07 in the payload followed by 0xF3, 0xF0 or 0x0F, or a length of
7 followed by one of these, was taken for an escape sequence inside the frame,
so that well-formed replies (e.g. a fan speed count of 0x07F0) were rejected.
---
 libcomfo/conn.go  | 19 +++++++++++++++++--
 libcomfo/proto.go | 22 ++++++++++++++++++++++
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index feab964..57f1eda 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -63,10 +63,24 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 	// Command character of the escape sequence that ended the last token
 	var found byte
 
+	// Whether the scanner is past the start sequence of a frame
+	var inFrame bool
+
 	// Split function for splitting a byte slice on ACK, start and end sequences.
-	// Double 0x07 characters (escaped 0x07 values) are ignored here.
+	// The contents of a frame are skipped, as they can look like an escape sequence.
 	splitFunc := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
-		for i := 0; i < len(data); i++ {
+		i := 0
+		if inFrame {
+			if i = frameSize(data); i > len(data) {
+				// Wait for the rest of the frame to arrive
+				if !atEOF {
+					return
+				}
+				i = 0
+			}
+		}
+
+		for ; i < len(data); i++ {
 			// Look for escape characters
 			if data[i] == esc {
 				// Look for the given byte following the escape character within bounds
@@ -115,6 +129,7 @@ func ReadPacket(conn io.Reader, timer *time.Timer, expect bool) (out Packet, err
 	}
 
 	// Read second escape sequence (data + stop)
+	inFrame = true
 	pr, err = ScanTimeout(scanner, timer)
 	if err != nil {
 		return out, err
diff --git a/libcomfo/proto.go b/libcomfo/proto.go
index b29f057..5204101 100644
--- a/libcomfo/proto.go
+++ b/libcomfo/proto.go
@@ -104,6 +104,28 @@ func UnmarshalPacket(in []byte) (out Packet, err error) {
 	return out, nil
 }
 
+// frameSize returns the wire length of the frame (without start and end sequences)
+// at the start of the given data, based on the frame's length field. When data does not
+// hold the complete frame, the result is larger than the length of data.
+func frameSize(in []byte) int {
+
+	if len(in) < dataOffset {
+		return dataOffset + 1
+	}
+
+	i := dataOffset
+	for n := in[lenOffset]; n > 0; n-- {
+		// Escaped 0x07's take up two bytes on the wire
+		if i+1 < len(in) && in[i] == 0x07 && in[i+1] == 0x07 {
+			i++
+		}
+		i++
+	}
+
+	// Add the checksum
+	return i + 1
+}
+
 // escapeData escapes 0x07 characters with 0x07 in a payload.
 func escapeData(in []byte) []byte {
 
-- 
2.43.0


From 38536752be90b7908f6202db77dbbfdb4118748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 05/17] fix: report success from WriteAck

WriteAck returned false after writing the ACK, unlike WritePacket.
---
 libcomfo/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcomfo/conn.go b/libcomfo/conn.go
index 57f1eda..3d80510 100644
--- a/libcomfo/conn.go
+++ b/libcomfo/conn.go
@@ -186,7 +186,7 @@ func WriteAck(conn io.Writer) (out bool, err error) {
 		return false, errAck
 	}
 
-	return
+	return true, nil
 }
 
 // QueryPacket locks the package-wide mutex, writes the given packet to
-- 
2.43.0


From 8e9b2d63bd07d0e31d08e311ba1299f7ad7db0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 06/17] fix: do not let SetFanProfiles interleave with
 SetFanProfile

Profiles set between the read and the write of a concurrent SetFanProfile
were overwritten with the old values.
---
 libcomfo/api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcomfo/api.go b/libcomfo/api.go
index e182d93..2f107f9 100644
--- a/libcomfo/api.go
+++ b/libcomfo/api.go
@@ -62,6 +62,10 @@ func SetFanProfile(mode uint8, speed uint8, conn io.ReadWriter) error {
 // Only away/low/mid/high's in and out fields are sent to the unit.
 func SetFanProfiles(fp *FanProfiles, conn io.ReadWriter) error {
 
+	// Don't write in the middle of another r/w transaction
+	am.Lock()
+	defer am.Unlock()
+
 	return setQuery(fp, conn)
 }
 
-- 
2.43.0


From d328bf60250d47957de37057c80ee88af4a266f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 07/17] fix: reject fan speeds that do not fit the reading

Raw counts below 29 give more than 65535 rpm, which was silently truncated to
an arbitrary value.
---
 libcomfo/response_types.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libcomfo/response_types.go b/libcomfo/response_types.go
index 5734a01..9311249 100644
--- a/libcomfo/response_types.go
+++ b/libcomfo/response_types.go
@@ -2,6 +2,7 @@ package libcomfo
 
 import (
 	"encoding/binary"
+	"math"
 	"strings"
 )
 
@@ -175,11 +176,19 @@ func (v *Fans) UnmarshalBinary(in []byte) error {
 		return errZeroValue
 	}
 
+	inRPM := 1875000 / uint32(inSpeed)
+	outRPM := 1875000 / uint32(outSpeed)
+
+	// Don't report truncated fan speeds
+	if inRPM > math.MaxUint16 || outRPM > math.MaxUint16 {
+		return errTooHigh
+	}
+
 	v.InPercent = uint8(in[0])
 	v.OutPercent = uint8(in[1])
 
-	v.InSpeed = uint16(1875000 / uint32(inSpeed))
-	v.OutSpeed = uint16(1875000 / uint32(outSpeed))
+	v.InSpeed = uint16(inRPM)
+	v.OutSpeed = uint16(outRPM)
 
 	return nil
 }
-- 
2.43.0


From bd26dba317077d18c0b3629b110fb104b0129c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 08/17] fix: refuse temperatures just below -20 degrees and NaN

int(t) rounds toward zero, so -20.75 passed the check and wrapped to 0xFF.
---
 libcomfo/message.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libcomfo/message.go b/libcomfo/message.go
index 20a1cd1..a065889 100644
--- a/libcomfo/message.go
+++ b/libcomfo/message.go
@@ -126,10 +126,11 @@ func (t temperature) MarshalBinary() (out byte, err error) {
 	// Wire format is (temperature + 20) * 2,
 	// so 107 is the highest value that fits in one byte.
 	// -20 is the lowest value that does not wrap.
-	if int(t) > 107 {
+	// Values are compared before rounding, and not-a-number is refused.
+	if !(t < 108) {
 		return out, errTooHigh
 	}
-	if int(t) < -20 {
+	if t < -20 {
 		return out, errTooLow
 	}
 
-- 
2.43.0


From ff9258194ba07dbf9bdba83a97193de804bd0eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 09/17] fix: reject fan speeds above 255 instead of truncating
 them

An absolute speed of 257 was applied as speed 1.
---
 comfoserver/helpers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/comfoserver/helpers.go b/comfoserver/helpers.go
index 63cc4aa..7cd6462 100644
--- a/comfoserver/helpers.go
+++ b/comfoserver/helpers.go
@@ -2,6 +2,7 @@ package comfoserver
 
 import (
 	"fmt"
+	"math"
 
 	rpc "github.com/ti-mo/comfo/rpc/comfo"
 	"github.com/twitchtv/twirp"
@@ -17,6 +18,11 @@ func modifySpeed(baseSpeed uint8, target *rpc.FanSpeedTarget) (tgtSpeed uint8, e
 	var lowerBound uint8 = 1
 	var upperBound uint8 = 4
 
+	// Detect truncation
+	if target.Abs > math.MaxUint8 {
+		return baseSpeed, twirp.InvalidArgumentError("FanSpeed", fmt.Sprintf("value '%v' out of range", target.Abs))
+	}
+
 	// Make sure only one of Abs and Rel is set
 	if target.Abs != 0 && target.Rel {
 		return 0, twirp.InvalidArgumentError("Abs/Rel", errBothAbsRel.Error())
-- 
2.43.0


From 65f7c9f7b0d7f7a66602063a221c7bd1a9ebe254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 10/17] fix: reject fan profile requests above 255 instead of
 truncating them

Profile 257 was applied to profile 1, and a target of 306 as 50 percent.
---
 comfoserver/server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 8c3f711..482c458 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -167,6 +167,14 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	mode := uint8(fpt.GetMode())
 	tgtSpeed := uint8(fpt.GetTargetSpeed())
 
+	// Detect truncation
+	if fpt.GetMode() > math.MaxUint8 {
+		return nil, twirp.InvalidArgumentError("Mode", "is too large")
+	}
+	if fpt.GetTargetSpeed() > math.MaxUint8 {
+		return nil, twirp.InvalidArgumentError("TargetSpeed", "is too large")
+	}
+
 	// Make sure speed mode is valid (1-4).
 	if mode < 1 || mode > 4 {
 		return nil, twirp.InvalidArgumentError("Mode", "(profile) out of range, expected 1-4")
-- 
2.43.0


From 1d00cf4d42ba4b342c7886e836d5eb9150a19c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 11/17] fix: release the fan profiles lock when the target
 speed is unknown

The next refresh of the fan profiles would block forever.
---
 comfoserver/caches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 3e884ba..6fb3e7b 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -220,10 +220,10 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 	// Look up the fan profile matching the target speed
 	fanProfilesCache.CacheLock.RLock() // Wait for any changes to the profile
 	inPct, outPct, err := fanProfilesCache.Lookup(tgtSpeed)
+	fanProfilesCache.CacheLock.RUnlock()
 	if err != nil {
 		return err
 	}
-	fanProfilesCache.CacheLock.RUnlock()
 
 	// Poll updates from the fan cache until desired result
 	for i := 0; i < count; i++ {
-- 
2.43.0


From b85a8f206d7eee61ccbec9641630f9298b01dc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 12/17] fix: read cached values under their lock

The setters read fields of the caches without holding the lock that the cache
worker writes them under.
---
 comfoserver/caches.go |  5 +++--
 comfoserver/server.go | 13 +++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 6fb3e7b..9e5cbb2 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -231,8 +231,9 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 		fanCache.Update(true)
 
 		// Return when target fan profile is in desired state
-		if fanCache.InPercent == inPct &&
-			fanCache.OutPercent == outPct {
+		fans := fanCache.Protobuf()
+		if fans.InPercent == uint32(inPct) &&
+			fans.OutPercent == uint32(outPct) {
 			return nil
 		}
 
diff --git a/comfoserver/server.go b/comfoserver/server.go
index 482c458..3a6a7b0 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -72,7 +72,7 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 	var err error
 	var modified bool
 
-	origTemp := tempCache.Comfort
+	origTemp := tempCache.Protobuf().Comfort
 	targetTemp := uint8(ct.ComfortTemp)
 
 	// Detect truncation
@@ -120,7 +120,7 @@ func (s *Server) SetFanSpeed(ctx context.Context, fst *rpc.FanSpeedTarget) (*rpc
 	defer fanLock.Unlock()
 
 	// Initialize speed values
-	origSpeed := fanProfilesCache.CurrentMode
+	origSpeed := uint8(fanProfilesCache.Protobuf().CurrentMode)
 
 	// Apply action string to original speed.
 	// modifySpeed already returns a Twirp error, don't wrap.
@@ -202,15 +202,16 @@ func (s *Server) SetFanProfile(ctx context.Context, fpt *rpc.FanProfileTarget) (
 	defer fanLock.Unlock()
 
 	// Get original fan speed of selected mode into origSpeed
+	profiles := fanProfilesCache.Protobuf()
 	switch mode {
 	case 0:
-		origSpeed = fanProfilesCache.InAway
+		origSpeed = uint8(profiles.InAway)
 	case 1:
-		origSpeed = fanProfilesCache.InLow
+		origSpeed = uint8(profiles.InLow)
 	case 2:
-		origSpeed = fanProfilesCache.InMid
+		origSpeed = uint8(profiles.InMid)
 	case 3:
-		origSpeed = fanProfilesCache.InHigh
+		origSpeed = uint8(profiles.InHigh)
 	default:
 		panic(fmt.Sprintf("unknown fan profile %d", mode))
 	}
-- 
2.43.0


From 69065733a2041a3226780804043894d2d8c2b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 13/17] fix: do not mistake a negative comfort temperature for
 a large target

With a cached temperature of -20, a request for 236 was answered as already set.
---
 comfoserver/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index 3a6a7b0..c5891db 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -80,7 +80,8 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 		return nil, twirp.InvalidArgumentError("ComfortTemp", "is too large")
 	}
 
-	if uint8(origTemp) != targetTemp {
+	// Compare as temperatures, a negative original does not fit an integer.
+	if origTemp != float32(targetTemp) {
 
 		// Lock the temperature mutex
 		tempLock.Lock()
-- 
2.43.0


From f883f77582051a71382e70eab26f270793b591eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 14/17] fix: take the temperature lock before reading the
 cached temperature

A request waiting for another one to finish compared against, and reported,
the temperature from before that other change.
---
 comfoserver/server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/comfoserver/server.go b/comfoserver/server.go
index c5891db..5d7efdd 100644
--- a/comfoserver/server.go
+++ b/comfoserver/server.go
@@ -72,6 +72,10 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 	var err error
 	var modified bool
 
+	// Lock the temperature mutex before reading from the cache
+	tempLock.Lock()
+	defer tempLock.Unlock()
+
 	origTemp := tempCache.Protobuf().Comfort
 	targetTemp := uint8(ct.ComfortTemp)
 
@@ -83,10 +87,6 @@ func (s *Server) SetComfortTemp(ctx context.Context, ct *rpc.ComfortTarget) (*rp
 	// Compare as temperatures, a negative original does not fit an integer.
 	if origTemp != float32(targetTemp) {
 
-		// Lock the temperature mutex
-		tempLock.Lock()
-		defer tempLock.Unlock()
-
 		err = libcomfo.SetComfort(targetTemp, comfoConn)
 		if err != nil {
 			return nil, twirp.InternalError(err.Error())
-- 
2.43.0


From 477faa8e2cefa3a3b91c86b02e4519faf44c2764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 15/17] fix: report a failed flush to the caller

FlushCache always answered success for a known cache, also when the unit could
not be queried and the old data was kept.
---
 comfoserver/caches.go | 84 +++++++++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 31 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 9e5cbb2..7cb6280 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -1,6 +1,7 @@
 package comfoserver
 
 import (
+	"errors"
 	"io"
 	"log/slog"
 	"sync"
@@ -68,13 +69,16 @@ type ErrorsCache struct {
 // UpdateCaches is a macro method to update all data caches of the unit.
 // This is run at startup and must populate fields that are not meant to be
 // refreshed continuously (eg. BootInfo).
-func UpdateCaches(force bool) {
-	bootInfoCache.Update(force)
-	bypassCache.Update(force)
-	tempCache.Update(force)
-	fanCache.Update(force)
-	fanProfilesCache.Update(force)
-	errorsCache.Update(force)
+// The errors of all failed updates are returned.
+func UpdateCaches(force bool) error {
+	return errors.Join(
+		bootInfoCache.Update(force),
+		bypassCache.Update(force),
+		tempCache.Update(force),
+		fanCache.Update(force),
+		fanProfilesCache.Update(force),
+		errorsCache.Update(force),
+	)
 }
 
 // FlushCaches manages forced cache flushes for all components and
@@ -82,23 +86,17 @@ func UpdateCaches(force bool) {
 func FlushCaches(cache CacheType) {
 	switch cache {
 	case BootInfo:
-		bootInfoCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- bootInfoCache.Update(true) == nil
 	case Bypass:
-		bypassCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- bypassCache.Update(true) == nil
 	case Fans:
-		fanCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- fanCache.Update(true) == nil
 	case Temps:
-		tempCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- tempCache.Update(true) == nil
 	case Profiles:
-		fanProfilesCache.Update(true)
-		flushSuccess <- true
+		flushSuccess <- fanProfilesCache.Update(true) == nil
 	case All:
-		UpdateCaches(true)
-		flushSuccess <- true
+		flushSuccess <- UpdateCaches(true) == nil
 	default:
 		flushSuccess <- false
 	}
@@ -107,7 +105,8 @@ func FlushCaches(cache CacheType) {
 // Update executes a libcomfo query to fetch boot (firmware) information
 // from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (bc *BootInfoCache) Update(force bool) {
+// An error is returned if the query failed.
+func (bc *BootInfoCache) Update(force bool) error {
 
 	// Lock the cache object.
 	bc.CacheLock.Lock()
@@ -119,7 +118,7 @@ func (bc *BootInfoCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(bc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object.
@@ -128,13 +127,17 @@ func (bc *BootInfoCache) Update(force bool) {
 		bc.LastUpdated = now
 	} else {
 		slog.Error("BootInfoCache.Update() - Updating boot info cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch information about the unit's
 // heat exchanger bypass. It sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (bc *BypassCache) Update(force bool) {
+// An error is returned if the query failed.
+func (bc *BypassCache) Update(force bool) error {
 
 	// Lock the cache object.
 	bc.CacheLock.Lock()
@@ -146,7 +149,7 @@ func (bc *BypassCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(bc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object.
@@ -155,13 +158,17 @@ func (bc *BypassCache) Update(force bool) {
 		bc.LastUpdated = now
 	} else {
 		slog.Error("BypassCache.Update() - Updating bypass cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch temperature
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (tc *TempCache) Update(force bool) {
+// An error is returned if the query failed.
+func (tc *TempCache) Update(force bool) error {
 
 	// Lock the cache object
 	tc.CacheLock.Lock()
@@ -173,7 +180,7 @@ func (tc *TempCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet.
 	if !force && !isStale(tc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -182,13 +189,17 @@ func (tc *TempCache) Update(force bool) {
 		tc.LastUpdated = now
 	} else {
 		slog.Error("TempCache.Update() - Updating temperature cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch fan speed
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (fc *FanCache) Update(force bool) {
+// An error is returned if the query failed.
+func (fc *FanCache) Update(force bool) error {
 
 	// Lock the cache object
 	fc.CacheLock.Lock()
@@ -200,7 +211,7 @@ func (fc *FanCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(fc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -209,7 +220,10 @@ func (fc *FanCache) Update(force bool) {
 		fc.LastUpdated = now
 	} else {
 		slog.Error("FanCache.Update() - Updating fan cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // UpdatePoll updates the cache for a maximum amount of `count` tries
@@ -248,7 +262,8 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 // Update executes a libcomfo query to fetch fan profiles
 // data from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (fpc *FanProfilesCache) Update(force bool) {
+// An error is returned if the query failed.
+func (fpc *FanProfilesCache) Update(force bool) error {
 
 	// Lock the cache object
 	fpc.CacheLock.Lock()
@@ -260,7 +275,7 @@ func (fpc *FanProfilesCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(fpc.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -269,13 +284,17 @@ func (fpc *FanProfilesCache) Update(force bool) {
 		fpc.LastUpdated = now
 	} else {
 		slog.Error("FanProfilesCache.Update() - Updating fan profiles cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // Update executes a libcomfo query to fetch error states
 // from the unit and sets LastUpdated on the cache object.
 // The force parameter ignores the staleness check and updates anyway.
-func (ec *ErrorsCache) Update(force bool) {
+// An error is returned if the query failed.
+func (ec *ErrorsCache) Update(force bool) error {
 
 	// Lock the cache object
 	ec.CacheLock.Lock()
@@ -287,7 +306,7 @@ func (ec *ErrorsCache) Update(force bool) {
 	// Do not update cache if we're not forced to
 	// and if the update is not due yet
 	if !force && !isStale(ec.LastUpdated, now) {
-		return
+		return nil
 	}
 
 	// Call out to the unit and update object
@@ -296,7 +315,10 @@ func (ec *ErrorsCache) Update(force bool) {
 		ec.LastUpdated = now
 	} else {
 		slog.Error("Errors.Update() - Updating errors cache", "error", err)
+		return err
 	}
+
+	return nil
 }
 
 // isStale applies fuzzy logic to determine if a timestamp is within a certain
-- 
2.43.0


From ed4ffcab787848e2add6b51596965ca2d9e47c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 16/17] fix: do not take an old fan reading for the result of a
 failed poll

---
 comfoserver/caches.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/comfoserver/caches.go b/comfoserver/caches.go
index 7cb6280..2f4fcfa 100644
--- a/comfoserver/caches.go
+++ b/comfoserver/caches.go
@@ -242,11 +242,12 @@ func (fc *FanCache) UpdatePoll(count int, tgtSpeed uint8) error {
 	// Poll updates from the fan cache until desired result
 	for i := 0; i < count; i++ {
 
-		fanCache.Update(true)
+		// The reading from before a failed update does not count
+		err := fanCache.Update(true)
 
 		// Return when target fan profile is in desired state
 		fans := fanCache.Protobuf()
-		if fans.InPercent == uint32(inPct) &&
+		if err == nil && fans.InPercent == uint32(inPct) &&
 			fans.OutPercent == uint32(outPct) {
 			return nil
 		}
-- 
2.43.0


From b7b4045fb024c0463894fa48a6b0ee79bd671445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 17/17] fix: use the event loop given to the Python client

---
 python/comfo/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/comfo/client.py b/python/comfo/client.py
index 679cc8c..439f788 100644
--- a/python/comfo/client.py
+++ b/python/comfo/client.py
@@ -26,9 +26,10 @@ class Comfo:
 
         if loop is None:
             try:
-                self.loop = asyncio.get_running_loop()
+                loop = asyncio.get_running_loop()
             except RuntimeError:
                 pass
+        self.loop = loop
 
     def ping(self) -> bool:
         """Run a simple get query against the unit to verify connectivity."""
-- 
2.43.0

