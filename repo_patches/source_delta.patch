From 81bc8e1884f7dc74d8a5ccf1cb24d495b906820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 01/61] fix: refuse attaching a clock before a foreign clock
 without touching it

---
 src/BKClock.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 3729e5f..aa182b4 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -87,12 +87,16 @@ static void BKClockDisposeObject (BKClock * clock)
 BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 {
 	if (clock -> ctx == NULL) {
-		clock -> ctx = ctx;
-		BKClockReset (clock);
-
 		if (beforeClock == BK_FIRST_ELEMENT_PTR)
 			beforeClock = ctx -> firstClock;
 
+		// previous clock must be in same context
+		if (beforeClock && beforeClock -> ctx != ctx)
+			return BK_INVALID_VALUE;
+
+		clock -> ctx = ctx;
+		BKClockReset (clock);
+
 		if (beforeClock == NULL) {
 			clock -> prevClock = ctx -> lastClock;
 			clock -> nextClock = NULL;
@@ -107,8 +111,7 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 				ctx -> lastClock  = clock;
 			}
 		}
-		// previous clock must be in same context
-		else if (beforeClock -> ctx == ctx) {
+		else {
 			clock -> prevClock = beforeClock -> prevClock;
 			clock -> nextClock = beforeClock;
 
@@ -121,9 +124,6 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 
 			beforeClock -> prevClock = clock;
 		}
-		else {
-			return BK_INVALID_VALUE;
-		}
 	}
 	else {
 		return BK_INVALID_STATE;
-- 
2.43.0


From 410d94b2acfb93ce1dc16ae5e572a0a7ff03f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 02/61] fix: keep the player list linked when several players
 drop out

---
 src/BKData.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index a192e1d..df1c1ea 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -129,10 +129,10 @@ static void BKDataResetStates (BKData * data, BKEnum event)
 
 			state -> nextState = NULL;
 			state -> data      = NULL;
-			state = NULL;
 		}
-
-		prevState = state;
+		else {
+			prevState = state;
+		}
 	}
 
 	data -> object.flags &= ~BKObjectFlagLocked;
-- 
2.43.0


From 69cfa4c81487fe580b8bf5bb6c251d84f908410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 03/61] fix: let BKGetPtr query a unit instead of changing it

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 85f5d0b..1943021 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1273,7 +1273,7 @@ static BKInt BKUnitSetPtrSize (BKUnit * unit, BKEnum attr, void * ptr, BKSize si
 
 static BKInt BKUnitGetPtrSize (BKUnit * unit, BKEnum attr, void * outPtr, BKSize size)
 {
-	return BKUnitSetPtr (unit, attr, outPtr);
+	return BKUnitGetPtr (unit, attr, outPtr);
 }
 
 BKClass BKUnitClass =
-- 
2.43.0


From 624e9a065c3d96aab7287fcde4069b97e3c5599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 04/61] fix: look up names of error codes only in
 BKStatusGetName

---
 src/BKBase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBase.c b/src/BKBase.c
index 5fa987d..52b82e5 100644
--- a/src/BKBase.c
+++ b/src/BKBase.c
@@ -48,7 +48,7 @@ char const * BKStatusGetName (BKEnum status)
 {
 	char const * name = "Unknown status";
 
-	if (status & BK_RETURN_TYPE && status <= BK_OTHER_ERROR) {
+	if (status > (BKEnum) BK_RETURN_TYPE && status <= (BKEnum) BK_OTHER_ERROR) {
 		name = statusNames [BK_STATUS_IDX (status)];
 	}
 
-- 
2.43.0


From 84b1ecca5b37545512fb0fdbf865e52ac45d3b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 05/61] fix: detach every divider once when disposing a clock

---
 src/BKClock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index aa182b4..39ad23f 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -79,7 +79,7 @@ static void BKClockDisposeObject (BKClock * clock)
 	BKClockDetach (clock);
 
 	for (BKDivider * divider = clock -> dividers.firstDivider; divider; divider = nextDivider) {
-		nextDivider = divider;
+		nextDivider = divider -> nextDivider;
 		BKDividerDetach (divider);
 	}
 }
-- 
2.43.0


From 73a952e6826697ada0a24ced298456b0ea0fa3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 06/61] fix: detach the dividers of a context when disposing it

---
 src/BKContext.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index 81ea857..54b4e02 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -107,6 +107,14 @@ static void BKContextDisposeObject (BKContext * ctx)
 	BKClock  * nextClock;
 	BKBuffer * channel;
 
+	while (ctx -> effectDividers.firstDivider) {
+		BKDividerDetach (ctx -> effectDividers.firstDivider);
+	}
+
+	while (ctx -> beatDividers.firstDivider) {
+		BKDividerDetach (ctx -> beatDividers.firstDivider);
+	}
+
 	for (BKUnit * unit = ctx -> firstUnit; unit; unit = nextUnit) {
 		nextUnit = unit -> nextUnit;
 		BKUnitDetach (unit);
-- 
2.43.0


From 955230c4285802c59b924f3160717781f4b46418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 07/61] fix: release a context whose channels could not be
 allocated

---
 src/BKContext.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 54b4e02..724063f 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -62,8 +62,10 @@ static BKInt BKContextInitGeneric (BKContext * ctx, BKUInt numChannels, BKUInt s
 
 	BKContextUpdateMasterClocks (ctx);
 
-	if (ctx -> channels == NULL)
+	if (ctx -> channels == NULL) {
+		ctx -> numChannels = 0; // nothing to dispose
 		return BK_ALLOCATION_ERROR;
+	}
 
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
@@ -95,6 +97,8 @@ extern BKInt BKContextAlloc (BKContext ** outCtx, BKUInt numChannels, BKUInt sam
 	}
 
 	if (BKContextInitGeneric (*outCtx, numChannels, sampleRate) < 0) {
+		BKDispose (*outCtx);
+		*outCtx = NULL;
 		return -1;
 	}
 
-- 
2.43.0


From e3f662177c40133d73c5b6a10433f0e46ff4dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 08/61] fix: run clocks in context time when attached or reset
 after the start

---
 src/BKClock.c   | 4 ++--
 src/BKContext.c | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 39ad23f..ed4d792 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -175,8 +175,8 @@ void BKClockReset (BKClock * clock)
 
 	clock -> object.flags &= ~BK_CLOCK_FLAG_RESET; // clear reset flag
 	clock -> counter  = 0;
-	clock -> time     = BK_TIME_ZERO;
-	clock -> nextTime = BK_TIME_ZERO;
+	clock -> time     = ctx ? ctx -> currentTime : BK_TIME_ZERO; // clocks run in context time
+	clock -> nextTime = clock -> time;
 }
 
 void BKClockAdvance (BKClock * clock, BKFUInt20 period)
diff --git a/src/BKContext.c b/src/BKContext.c
index 724063f..6294aa8 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -415,6 +415,11 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 		// run units
 		for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
 			unit -> run (unit, endTime);
+
+		if (ctx -> deltaTime < endTime) {
+			ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, endTime - ctx -> deltaTime);
+			ctx -> deltaTime   = endTime;
+		}
 	}
 
 	return endTime;
-- 
2.43.0


From 23e9599727d9f690e001aebb209131486fd4e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 09/61] fix: report when a divider is already attached
 elsewhere

---
 src/BKContext.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 6294aa8..6740109 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -499,6 +499,7 @@ BKInt BKContextAttachDivider (BKContext * ctx, BKDivider * divider, BKEnum type)
 {
 	BKClock        * clock = & ctx -> masterClock;
 	BKDividerGroup * group = NULL;
+	BKInt            result;
 
 	switch (type) {
 		case BK_CLOCK_TYPE_EFFECT: {
@@ -518,7 +519,11 @@ BKInt BKContextAttachDivider (BKContext * ctx, BKDivider * divider, BKEnum type)
 	if (group) {
 		// Check if required values set
 		if (BKTimeIsGreater (clock -> period, BK_TIME_ZERO)) {
-			BKDividerAttachToGroup (divider, group);
+			result = BKDividerAttachToGroup (divider, group);
+
+			if (result < 0)
+				return result;
+
 			BKClockAttach (clock, ctx, ctx -> firstClock);
 		}
 		else {
-- 
2.43.0


From d4fe9c5b1898c78c310adc2a93e0c058a95b4380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 10/61] fix: keep divider values beyond the integer range
 positive

---
 src/BKClock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index ed4d792..ed30b0e 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -199,7 +199,7 @@ BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 
 				divider -> callback.func (info, divider -> callback.userInfo);
 
-				divider -> divider = BKMax (1, info -> divider);
+				divider -> divider = BKClamp (info -> divider, 1, BK_INT_MAX);
 			}
 
 			divider -> counter = divider -> divider;
@@ -245,7 +245,7 @@ BKInt BKClockTick (BKClock * clock)
 
 static BKInt BKDividerInitGeneric (BKDivider * divider, BKUInt count, BKCallback * callback)
 {
-	divider -> divider = BKMax (1, count);
+	divider -> divider = BKClamp (count, 1, BK_INT_MAX);
 	divider -> counter = 0;
 
 	if (callback) {
-- 
2.43.0


From 5bacaf0e0749741fd693920458a02029dc1c328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 11/61] fix: keep the dividers of a track at least 1

---
 src/BKTrack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 020e1af..b7246f0 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -728,17 +728,17 @@ static BKInt BKTrackSetAttrInt (BKTrack * track, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_ARPEGGIO_DIVIDER: {
-			track -> arpeggioDivider.divider = value;
+			track -> arpeggioDivider.divider = BKMax (value, 1);
 			track -> arpeggioDivider.counter = 0;
 			break;
 		}
 		case BK_EFFECT_DIVIDER: {
-			track -> effectDivider.divider = value;
+			track -> effectDivider.divider = BKMax (value, 1);
 			track -> effectDivider.counter = 0;
 			break;
 		}
 		case BK_INSTRUMENT_DIVIDER: {
-			track -> instrDivider.divider = value;
+			track -> instrDivider.divider = BKMax (value, 1);
 			track -> instrDivider.counter = 0;
 			break;
 		}
-- 
2.43.0


From 4bd9d08b115f8648511968d4dcfb0bc1f658f9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 12/61] fix: honour the repeat mode returned by a sample
 callback

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 1943021..4fcde8d 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -223,7 +223,7 @@ static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
 		info.object = unit;
 		info.event  = event;
 
-		unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
+		result = unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
 	}
 
 	return result;
-- 
2.43.0


From 2421a7724e537f0dd6acfff7fadfb28e81759db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 13/61] fix: keep unit periods above zero

---
 src/BKBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBase.h b/src/BKBase.h
index ef89a91..bd46043 100644
--- a/src/BKBase.h
+++ b/src/BKBase.h
@@ -84,7 +84,7 @@ typedef uint32_t BKFUInt20;  // 12.20 fixed point
 
 #define BK_MAX_CHANNELS 8
 
-#define BK_MIN_PERIOD (BK_FINT20_SHIFT / BK_TRIANGLE_PHASES)
+#define BK_MIN_PERIOD (BK_FINT20_UNIT / BK_TRIANGLE_PHASES)
 #define BK_MAX_PERIOD (1 << (BK_FINT20_SHIFT + 4))
 #define BK_MAX_VOLUME ((1 << BK_VOLUME_SHIFT) - 1)
 
-- 
2.43.0


From 1b7cdee7e72f37f4a187c645ec703a6d3f3f65f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 14/61] fix: start a sample range at its first frame when
 played forward

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 4fcde8d..385de99 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -353,7 +353,7 @@ static void BKUnitUpdateSampleRange (BKUnit * unit, BKInt offset, BKInt end)
 			newPhase = 0;
 		}
 		// set sample phase to end if sample phase is at begin
-		else if (unit -> phase.phase == 0) {
+		else if (unit -> sample.offset > unit -> sample.end && unit -> phase.phase == 0) {
 			newPhase = unit -> sample.length - 1;
 		}
 	}
-- 
2.43.0


From cb1f8ab44432d4a604fd9456a48f568654b5101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:29 +0000
Subject: [PATCH 15/61] fix: keep the sustain range inside the sample range

---
 src/BKUnit.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 385de99..3f7f12c 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -370,7 +370,8 @@ static void BKUnitUpdateSampleSustainRange (BKUnit * unit, BKInt offset, BKInt e
 		return;
 	}
 
-	sampleLength = unit -> sample.dataState.data -> numFrames;
+	// sustain range is relative to sample range
+	sampleLength = unit -> sample.length;
 
 	if (offset < 0) {
 		offset += sampleLength + 1;
@@ -554,7 +555,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				if (value) {
 					if ((unit -> object.flags & BKUnitFlagSampleSustainJump) && unit -> mute == 0) {
 						if (unit -> sample.period > 0) {
-							unit -> phase.phase = unit -> sample.sustainEnd;
+							unit -> phase.phase = BKMin (unit -> sample.sustainEnd, unit -> sample.length - 1);
 						}
 						else {
 							unit -> phase.phase = BKMax (0, (BKInt) unit -> sample.sustainOffset - 1);
-- 
2.43.0


From ad11d1eb53b6a5c11a2b3416c362abdd9c731ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 16/61] fix: keep the phase of a sample repeated back and forth
 inside the sample

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 3f7f12c..fedde0c 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1076,7 +1076,7 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 			if (resetDir == 1) {
 				unit -> phase.phase = unit -> sample.length - unit -> phase.phase - 1;
 			}
-			else if (resetDir == -1) {
+			else if (resetDir == -1 && unit -> phase.phase) {
 				unit -> phase.phase = unit -> sample.length - unit -> phase.phase;
 			}
 			mode = -resetDir;
-- 
2.43.0


From a4d7d4021033969bb716ff495e11b513a51a0abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:35 +0000
Subject: [PATCH 17/61] fix: refuse attaching a unit whose sample does not fit
 the context

---
 src/BKUnit.c | 4 ++++
 src/BKUnit.h | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index fedde0c..a24e140 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -260,6 +260,10 @@ void BKUnitDisposeObject (BKUnit * unit)
 BKInt BKUnitAttach (BKUnit * unit, BKContext * ctx)
 {
 	if (unit -> ctx == NULL) {
+		// sample must fit number of context channels
+		if (unit -> waveform == BK_SAMPLE && unit -> sample.numChannels != 1 && unit -> sample.numChannels != ctx -> numChannels)
+			return BK_INVALID_NUM_CHANNELS;
+
 		unit -> prevUnit = ctx -> lastUnit;
 		unit -> nextUnit = NULL;
 		unit -> ctx      = ctx;
diff --git a/src/BKUnit.h b/src/BKUnit.h
index 4a7e1ae..459fda5 100644
--- a/src/BKUnit.h
+++ b/src/BKUnit.h
@@ -116,6 +116,7 @@ extern BKInt BKUnitInit (BKUnit * unit, BKEnum waveform);
  *
  * Errors:
  * BK_INVALID_STATE if already attached to a context
+ * BK_INVALID_NUM_CHANNELS if the sample's number of channels does not match that of the context
  */
 extern BKInt BKUnitAttach (BKUnit * unit, BKContext * ctx);
 
-- 
2.43.0


From 46d6173cbc463890d91124ab43809b0c68dc4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 18/61] fix: silence a unit whose sample data is gone, unusable
 or unset

---
 src/BKUnit.c | 154 +++++++++++++++++++++++++--------------------------
 1 file changed, 76 insertions(+), 78 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index a24e140..705e6c6 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -75,86 +75,79 @@ static BKFrame const sinePhases [BK_SINE_PHASES] =
 static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event);
 static void BKUnitUpdateSampleSustainRange (BKUnit * unit, BKInt offset, BKInt end);
 
+/**
+ * Stop using data as custom waveform or sample
+ */
+static void BKUnitUnsetData (BKUnit * unit)
+{
+	if (unit -> waveform != BK_CUSTOM && unit -> waveform != BK_SAMPLE)
+		return;
+
+	unit -> waveform             = 0;
+	unit -> sample.offset        = 0;
+	unit -> sample.end           = 0;
+	unit -> sample.sustainOffset = 0;
+	unit -> sample.sustainEnd    = 0;
+	unit -> sample.frames        = NULL;
+	unit -> phase.phase          = 0; // reset phase
+	unit -> sample.repeatMode    = 0;
+
+	BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
+}
+
 static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum event)
 {
 	BKContext * ctx = unit -> ctx;
 
-	if (ctx == NULL) {
-		return BK_INVALID_STATE;
+	// unset data or data was disposed
+	if (data == NULL || event == BK_DATA_STATE_EVENT_DISPOSE) {
+		BKUnitUnsetData (unit);
+		return 0;
 	}
 
 	switch (type) {
 		// set data as custom waveform
 		case BK_WAVEFORM: {
-			if (data && event != BK_DATA_STATE_EVENT_DISPOSE) {
-				if (data -> numFrames >= 2) {
-					unit -> waveform           = BK_CUSTOM;
-					unit -> phase.count        = BKMin(data -> numFrames, BK_WAVE_MAX_LENGTH);
-					unit -> phase.phase        = 0;
-					unit -> sample.offset      = 0;
-					unit -> sample.end         = data -> numFrames;
-					unit -> sample.frames      = data -> frames;
-					unit -> sample.repeatCount = 0;
-				}
-				else {
-					return BK_INVALID_NUM_FRAMES;
-				}
-			}
-			// data was disposed
-			else if (unit -> waveform == BK_CUSTOM) {
-				unit -> waveform      = 0;
-				unit -> sample.offset = 0;
-				unit -> sample.end    = 0;
-				unit -> sample.frames = NULL;
-				return -1;
-			}
+			if (data -> numFrames < 2)
+				return BK_INVALID_NUM_FRAMES;
+
+			unit -> waveform           = BK_CUSTOM;
+			unit -> phase.count        = BKMin (data -> numFrames, BK_WAVE_MAX_LENGTH);
+			unit -> phase.phase        = 0;
+			unit -> sample.offset      = 0;
+			unit -> sample.end         = data -> numFrames;
+			unit -> sample.frames      = data -> frames;
+			unit -> sample.repeatCount = 0;
 
 			break;
 		}
 		// set sample to play
 		case BK_SAMPLE: {
-			if (data && event != BK_DATA_STATE_EVENT_DISPOSE) {
-				// number of channels must eighter be 1 or equal to
-				// number of context channels
-				if (data -> numChannels != 1 && data -> numChannels != ctx -> numChannels) {
-					return BK_INVALID_NUM_CHANNELS;
-				}
-				else if (data -> numFrames < 2) {
-					return BK_INVALID_NUM_FRAMES;
-				}
-				else {
-					unit -> waveform             = BK_SAMPLE;
-					unit -> phase.count          = 1;  // prevent divion by 0
-					unit -> sample.length        = data -> numFrames;
-					unit -> sample.numChannels   = data -> numChannels;
-					unit -> sample.offset        = 0;
-					unit -> sample.end           = data -> numFrames;
-					unit -> sample.frames        = data -> frames;
-					unit -> sample.period        = BKAbs (unit -> sample.period);
-					unit -> phase.phase          = 0; // reset phase
-					unit -> sample.repeatMode    = 0;
-					unit -> sample.repeatCount   = 0;
-					unit -> sample.sustainOffset = 0;
-					unit -> sample.sustainEnd    = 0;
-
-					BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
-
-					BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
-				}
-			}
-			// disable sample
-			else if (unit -> waveform == BK_SAMPLE) {
-				unit -> waveform             = 0;
-				unit -> sample.offset        = 0;
-				unit -> sample.end           = 0;
-				unit -> sample.sustainOffset = 0;
-				unit -> sample.sustainEnd    = 0;
-				unit -> sample.frames        = NULL;
-				unit -> phase.phase          = 0; // reset phase
-				unit -> sample.repeatMode    = 0;
-
-				BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
-			}
+			// number of channels must eighter be 1 or equal to
+			// number of context channels
+			if (data -> numChannels != 1 && (ctx == NULL || data -> numChannels != ctx -> numChannels))
+				return BK_INVALID_NUM_CHANNELS;
+
+			if (data -> numFrames < 2)
+				return BK_INVALID_NUM_FRAMES;
+
+			unit -> waveform             = BK_SAMPLE;
+			unit -> phase.count          = 1;  // prevent divion by 0
+			unit -> sample.length        = data -> numFrames;
+			unit -> sample.numChannels   = data -> numChannels;
+			unit -> sample.offset        = 0;
+			unit -> sample.end           = data -> numFrames;
+			unit -> sample.frames        = data -> frames;
+			unit -> sample.period        = BKAbs (unit -> sample.period);
+			unit -> phase.phase          = 0; // reset phase
+			unit -> sample.repeatMode    = 0;
+			unit -> sample.repeatCount   = 0;
+			unit -> sample.sustainOffset = 0;
+			unit -> sample.sustainEnd    = 0;
+
+			BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
+
+			BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
 
 			break;
 		}
@@ -171,27 +164,26 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 {
 	BKInt res;
 
+	// number of channels is only known when attached
+	if (data && unit -> ctx == NULL)
+		return BK_INVALID_STATE;
+
 	res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
 
-	if (res == 0) {
-		BKDataStateSetData (& unit -> sample.dataState, data);
-	}
 	// unset data when failed
-	else {
-		switch (unit -> waveform) {
-			case BK_CUSTOM:
-			case BK_SAMPLE: {
-				unit -> waveform = 0;
-				break;
-			}
-		}
+	if (res < 0) {
+		BKUnitUnsetData (unit);
+		data = NULL;
 	}
 
+	BKDataStateSetData (& unit -> sample.dataState, data);
+
 	return res;
 }
 
 BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 {
+	BKInt  res;
 	BKEnum type;
 
 	switch (unit -> waveform) {
@@ -210,7 +202,13 @@ BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 	}
 
 	// reset data
-	return BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+	res = BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+
+	// silence if data can not be used any longer
+	if (res < 0)
+		BKUnitUnsetData (unit);
+
+	return res;
 }
 
 static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
-- 
2.43.0


From ef14107f50072f325da7a456e637b54726d56db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:43 +0000
Subject: [PATCH 19/61] fix: follow the waveform of the unit when sample data
 of a track changes

---
 src/BKTrack.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index b7246f0..97ad8a5 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -372,6 +372,9 @@ static BKEnum BKTrackSampleDataStateCallback (BKEnum event, BKTrack * track)
 
 	res = BKUnitSampleDataStateCallback (event, & track -> unit);
 
+	// in case data can not be used any longer
+	BKUnitGetAttr (& track -> unit, BK_WAVEFORM, & track -> waveform);
+
 	if (res == 0)
 		BKTrackUpdateUnitNote (track);
 
-- 
2.43.0


From b7b373893583a5dc804aeba40934f9611e97d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 20/61] fix: saturate amplitudes of more than twice the frame
 range

---
 src/BKBuffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBuffer.c b/src/BKBuffer.c
index ec43219..aed0e29 100644
--- a/src/BKBuffer.c
+++ b/src/BKBuffer.c
@@ -146,7 +146,7 @@ BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt in
 
 		// clamp
 		if ((BKFrame) amp != amp)
-			amp = (amp >> BK_FRAME_SHIFT) ^ BK_FRAME_MAX;
+			amp = (amp >> (BK_INT_SHIFT - 1)) ^ BK_FRAME_MAX;
 
 		// write frame
 		(* outFrames) = amp;
-- 
2.43.0


From d415950cedb00a5c6ef8dafc68e20e2e89b6d997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 21/61] fix: add pulses of more than the frame range unchanged

---
 src/BKBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 9a9fa94..5b33bc3 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -80,7 +80,7 @@ extern void BKBufferDispose (BKBuffer * buf);
 /**
  * Add pulse at time offset
  */
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse);
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse);
 
 /**
  * Add single frame at time offset
@@ -147,7 +147,7 @@ BK_INLINE BKInt BKBufferSize (BKBuffer const * buf)
 	return buf -> time >> BK_FINT20_SHIFT;
 }
 
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse)
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse)
 {
 	BKUInt frac;
 	BKUInt offset;
-- 
2.43.0


From 16fa85c46f34f0564128fb944e93948a0df0e135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 22/61] fix: read only frames up to the current time of a
 context

---
 src/BKContext.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index 6740109..95ccf7b 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -462,6 +462,9 @@ BKInt BKContextRead (BKContext * ctx, BKFrame outFrames [], BKUInt size)
 {
 	BKBuffer * channel;
 
+	// units may already have written beyond the current time
+	size = BKMin (size, BKContextSize (ctx));
+
 	// read channels
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
-- 
2.43.0


From 6bc51b874a1fe8026287e0f1c623297fe4dc8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 23/61] fix: clear the waveform of a track together with its
 sample data

---
 src/BKTrack.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 97ad8a5..30e2fe0 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -468,6 +468,10 @@ void BKTrackClear (BKTrack * track)
 
 	BKUnitClear (& track -> unit);
 
+	// data is unset
+	if (waveform == BK_CUSTOM || waveform == BK_SAMPLE)
+		waveform = 0;
+
 	BKTrackSetInstrument (track, NULL);
 
 	// only clear fields after and including "arpeggioDivider" field
-- 
2.43.0


From 69c9dd51d3cd06d365b4a755494e8a873b2693c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:02 +0000
Subject: [PATCH 24/61] fix: track ownership when replacing the frames of
 sample data

---
 src/BKData.c | 63 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index df1c1ea..7305705 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -138,13 +138,39 @@ static void BKDataResetStates (BKData * data, BKEnum event)
 	data -> object.flags &= ~BKObjectFlagLocked;
 }
 
+/**
+ * Replace frames and release owned frames
+ */
+static void BKDataReplaceFrames (BKData * data, BKFrame * frames, BKUInt numFrames, BKUInt numChannels, BKUInt numBits, BKInt owned)
+{
+	if (data -> frames != frames) {
+		if (data -> object.flags & BK_DATA_FLAG_COPY)
+			free (data -> frames);
+
+		BKBitSetCond (data -> object.flags, BK_DATA_FLAG_COPY, owned);
+	}
+
+	data -> frames        = frames;
+	data -> numFrames     = numFrames;
+	data -> numChannels   = numChannels;
+	data -> numBits       = numBits;
+	data -> sustainOffset = BKMin (data -> sustainOffset, numFrames);
+	data -> sustainEnd    = BKMin (data -> sustainEnd, numFrames);
+
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+}
+
 static BKInt BKDataPromoteToCopy (BKData * data)
 {
 	BKSize    size;
 	BKFrame * frames;
 
+	// nothing to copy
+	if (data -> frames == NULL)
+		return 0;
+
 	if ((data -> object.flags & BK_DATA_FLAG_COPY) == 0) {
-		size   = data -> numFrames * data -> numChannels * sizeof (BKFrame);
+		size   = (BKSize) data -> numFrames * data -> numChannels * sizeof (BKFrame);
 		frames = malloc (size);
 
 		if (frames == NULL)
@@ -333,51 +359,34 @@ static BKInt BKDataGetPtr (BKData const * data, BKEnum attr, void * outPtr)
 
 BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames, BKUInt numChannels, BKInt copy)
 {
-	BKUInt    size;
+	BKSize    size;
 	BKFrame * newFrames;
 
 	// need at least 2 phases
-	if (numFrames < 2)
+	if (numFrames < 2 || numFrames > BK_INT_MAX)
 		return BK_INVALID_NUM_FRAMES;
 
 	if (numChannels < 1 || numChannels > BK_MAX_CHANNELS)
 		return BK_INVALID_NUM_CHANNELS;
 
-	size = numFrames * numChannels * sizeof (BKFrame);
+	if (frames == NULL)
+		return BK_INVALID_VALUE;
+
+	size = (BKSize) numFrames * numChannels * sizeof (BKFrame);
 
 	if (copy) {
-		if (data -> object.flags & BK_DATA_FLAG_COPY) {
-			newFrames = realloc (data -> frames, size);
-		}
-		else {
-			newFrames = malloc (size);
-		}
+		newFrames = malloc (size);
 
 		if (newFrames == NULL)
-			return -1;
-
-		data -> object.flags |= BK_DATA_FLAG_COPY;
+			return BK_ALLOCATION_ERROR;
 
 		memcpy (newFrames, frames, size);
 	}
 	else {
-		if (data -> object.flags & BK_DATA_FLAG_COPY) {
-			free (data -> frames);
-		}
-
 		newFrames = (BKFrame *) frames;
 	}
 
-	if (newFrames == NULL) {
-		return -1;
-	}
-
-	data -> frames      = newFrames;
-	data -> numFrames   = numFrames;
-	data -> numChannels = numChannels;
-	data -> numBits     = 16;
-
-	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+	BKDataReplaceFrames (data, newFrames, numFrames, numChannels, 16, copy);
 
 	return 0;
 }
-- 
2.43.0


From 4df6b1d8de4c2652a65308b5c325a22c1639f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 25/61] fix: own converted frames and notify players of them

---
 src/BKData.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 7305705..cca8adb 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -571,23 +571,21 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 	if (numFrames < 0)
 		return BK_INVALID_NUM_BITS;
 
-	if (data -> object.flags & BK_DATA_FLAG_COPY) {
-		frames = realloc (data -> frames, numFrames * sizeof (BKFrame));
-	}
-	else {
-		frames = malloc (numFrames * sizeof (BKFrame));
-	}
+	// need at least 2 phases
+	if (numFrames / numChannels < 2)
+		return BK_INVALID_NUM_FRAMES;
+
+	frames = malloc (numFrames * sizeof (BKFrame));
 
 	if (frames == NULL)
 		return BK_ALLOCATION_ERROR;
 
-	if (BKDataConvertFromBits (frames, frameData, dataSize, numBits, isSigned, reverseEndian, numChannels) < 0)
+	if (BKDataConvertFromBits (frames, frameData, dataSize, numBits, isSigned, reverseEndian, numChannels) < 0) {
+		free (frames);
 		return -1;
+	}
 
-	data -> frames      = frames;
-	data -> numFrames   = numFrames / numChannels;
-	data -> numChannels = numChannels;
-	data -> numBits     = numBits;
+	BKDataReplaceFrames (data, frames, numFrames / numChannels, numChannels, numBits, 1);
 
 	return 0;
 }
-- 
2.43.0


From 47483dfa326f70ec4ece3535ac3f37b32fb8c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 26/61] fix: convert all complete frames of raw data

---
 src/BKData.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index cca8adb..ca8aeb0 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -447,11 +447,11 @@ static BKInt BKDataNumBitsFromParam (BKEnum param, BKUInt * outNumBits, BKInt *
 	return 0;
 }
 
-static BKInt BKDataCalculateNumFramesFromNumBits (BKUInt dataSize, BKUInt numBits, BKUInt numChannels)
+static BKSize BKDataCalculateNumFramesFromNumBits (BKUInt dataSize, BKUInt numBits, BKUInt numChannels)
 {
-	BKInt numFrames = 0;
-	BKInt packetSize;
-	BKInt dataSizeBits = dataSize * 8;
+	BKSize numFrames = 0;
+	BKSize packetSize;
+	BKSize dataSizeBits = (BKSize) dataSize * 8;
 
 	if (numBits <= 8) {
 		packetSize = (numBits * numChannels);
@@ -481,7 +481,9 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 		case 16: mask = 2; break;
 	}
 
-	dataSize -= (dataSize % (mask * numChannels));
+	// frames smaller than a byte may end inside of the last byte
+	if (numBits >= 8)
+		dataSize -= (dataSize % (mask * numChannels));
 
 	for (charData = data; (void *) charData < data + dataSize;) {
 		switch (numBits) {
@@ -554,7 +556,7 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 	BKUInt    bits   = (params & BK_DATA_BITS_MASK);
 	BKUInt    numBits;
 	BKInt     isSigned, reverseEndian = 0;
-	BKInt     numFrames;
+	BKSize    numFrames;
 	BKFrame * frames;
 
 	if (numChannels < 1 || numChannels > BK_MAX_CHANNELS)
@@ -568,14 +570,12 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 
 	numFrames = BKDataCalculateNumFramesFromNumBits (dataSize, numBits, numChannels);
 
-	if (numFrames < 0)
-		return BK_INVALID_NUM_BITS;
-
 	// need at least 2 phases
-	if (numFrames / numChannels < 2)
+	if (numFrames / numChannels < 2 || numFrames > BK_INT_MAX)
 		return BK_INVALID_NUM_FRAMES;
 
-	frames = malloc (numFrames * sizeof (BKFrame));
+	// whole bytes are converted
+	frames = malloc (((BKSize) dataSize * 8 / numBits) * sizeof (BKFrame));
 
 	if (frames == NULL)
 		return BK_ALLOCATION_ERROR;
-- 
2.43.0


From 05fcee4ad08934c8ed0f857b36af03cc5b6bc29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 27/61] fix: decode all values of signed 8 bit and reversed 16
 bit data

---
 src/BKData.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index ca8aeb0..f780539 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -521,7 +521,7 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 			}
 			case 8: {
 				if (isSigned) {
-					outFrames [0] = (BKFrame) (* (signed char *) charData) * BK_FRAME_MAX / 127;
+					outFrames [0] = BKMax ((BKFrame) (* (signed char *) charData), -127) * BK_FRAME_MAX / 127;
 				} else {
 					outFrames [0] = (BKFrame) (* (unsigned char *) charData) * BK_FRAME_MAX / 255;
 				}
@@ -532,7 +532,7 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 			}
 			case 16: {
 				if (reverseEndian) {
-					outFrames [0] = (charData [0] << 8) | (charData [1] >> 8);
+					outFrames [0] = (charData [0] << 8) | charData [1];
 				} else {
 					outFrames [0] =  (* (BKFrame *) charData);
 				}
-- 
2.43.0


From 82b812a61235596e274ef7efb2a5c1670cded992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 28/61] fix: accept any value different from 0 as copy flag of
 sample data

---
 src/BKData.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index f780539..58b5fff 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -147,7 +147,7 @@ static void BKDataReplaceFrames (BKData * data, BKFrame * frames, BKUInt numFram
 		if (data -> object.flags & BK_DATA_FLAG_COPY)
 			free (data -> frames);
 
-		BKBitSetCond (data -> object.flags, BK_DATA_FLAG_COPY, owned);
+		BKBitSetCond (data -> object.flags, BK_DATA_FLAG_COPY, owned != 0);
 	}
 
 	data -> frames        = frames;
-- 
2.43.0


From 149c0f19300f40b65b10dea189ae8e440b351f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 29/61] fix: report errors when loading raw data from a file

---
 src/BKData.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 58b5fff..81d451d 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -602,7 +602,10 @@ BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum para
 		return BK_FILE_ERROR;
 	}
 
-	fseek (file, 0, SEEK_END);
+	if (fseek (file, 0, SEEK_END) != 0) {
+		return BK_FILE_NOT_SEEKABLE_ERROR;
+	}
+
 	size = ftell (file);
 
 	if (size < 0) {
@@ -610,14 +613,21 @@ BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum para
 	}
 
 	size -= offset;
+
+	if (size <= 0 || size > BK_INT_MAX) {
+		return BK_INVALID_NUM_FRAMES;
+	}
+
 	frames = malloc (size);
 
 	if (frames == NULL) {
 		return BK_ALLOCATION_ERROR;
 	}
 
-	fseek (file, offset, SEEK_SET);
-	fread (frames, sizeof (char), size, file);
+	if (fseek (file, offset, SEEK_SET) != 0 || (BKSize) fread (frames, sizeof (char), size, file) != size) {
+		free (frames);
+		return BK_FILE_ERROR;
+	}
 
 	ret = BKDataSetData (data, frames, (BKUInt) size, numChannels, params);
 
-- 
2.43.0


From 04c60331be7d29ecb79403cd387d48e729bbfe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 30/61] fix: replace frames when loading a wave file and notify
 players of them

---
 src/BKData.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 81d451d..b496727 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -648,10 +648,22 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 	}
 
 	if (BKWaveFileReaderReadHeader (& reader, & numChannels, & sampleRate, & numFrames) < 0) {
+		BKDispose (& reader);
 		return BK_INVALID_RETURN_VALUE;
 	}
 
-	size   = numFrames * numChannels * sizeof (BKFrame);
+	if (numChannels < 1 || numChannels > BK_MAX_CHANNELS) {
+		BKDispose (& reader);
+		return BK_INVALID_NUM_CHANNELS;
+	}
+
+	// need at least 2 phases
+	if (numFrames < 2) {
+		BKDispose (& reader);
+		return BK_INVALID_NUM_FRAMES;
+	}
+
+	size   = (BKSize) numFrames * numChannels * sizeof (BKFrame);
 	frames = malloc (size);
 
 	if (frames == NULL) {
@@ -661,15 +673,13 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 
 	if (BKWaveFileReaderReadFrames (& reader, frames) < 0) {
 		free (frames);
+		BKDispose (& reader);
 		return BK_INVALID_RETURN_VALUE;
 	}
 
-	data -> object.flags |= BK_DATA_FLAG_COPY;
-	data -> numBits       = 16;
-	data -> sampleRate    = sampleRate;
-	data -> numFrames     = numFrames;
-	data -> numChannels   = numChannels;
-	data -> frames        = frames;
+	data -> sampleRate = sampleRate;
+
+	BKDataReplaceFrames (data, frames, numFrames, numChannels, 16, 1);
 
 	BKDispose (& reader);
 
-- 
2.43.0


From d176e97d44733582fb58963f6c0c786e5baf60a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 31/61] fix: notify players of the frames copied by
 BKDataNormalize

---
 src/BKData.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKData.c b/src/BKData.c
index b496727..65a8514 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -711,6 +711,9 @@ BKInt BKDataNormalize (BKData * data)
 			data -> frames [i] = (data -> frames [i] * factor) >> 16;
 	}
 
+	// frames may have been moved to a copy
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From 389387e62e8e295d202c21edd3e5f68827430f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:10 +0000
Subject: [PATCH 32/61] fix: own the frames converted by BKDataConvert

---
 src/BKData.c | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 65a8514..0e9a9d9 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -802,11 +802,15 @@ static void BKDataReduceBits (BKFrame * outFrames, BKFrame * frames, BKSize leng
 
 BKInt BKDataConvert (BKData * data, BKDataConvertInfo * info)
 {
-	BKFrame * convertedFrames;
+	BKInt res;
 	BKSize length;
 	BKDataConvertInfo validatedInfo;
 
-	length = data -> numFrames * data -> numChannels;
+	// nothing to convert
+	if (data -> frames == NULL)
+		return 0;
+
+	length = (BKSize) data -> numFrames * data -> numChannels;
 
 	validatedInfo = (* info);
 
@@ -822,22 +826,14 @@ BKInt BKDataConvert (BKData * data, BKDataConvertInfo * info)
 	if (validatedInfo.threshold == 0)
 		validatedInfo.threshold = 0.02;
 
-	if (validatedInfo.targetNumBits > 15)
-		validatedInfo.targetNumBits = 15;
-
-	if ((data -> object.flags & BK_DATA_FLAG_COPY) == 0) {
-		convertedFrames = malloc (length * sizeof (BKFrame));
+	validatedInfo.targetNumBits = BKClamp (validatedInfo.targetNumBits, 1, 15);
 
-		if (convertedFrames == NULL)
-			return -1;
-	}
-	else {
-		convertedFrames = data -> frames;
-	}
+	res = BKDataPromoteToCopy (data);
 
-	BKDataReduceBits (convertedFrames, data -> frames, length, & validatedInfo);
+	if (res != 0)
+		return res;
 
-	data -> frames = convertedFrames;
+	BKDataReduceBits (data -> frames, data -> frames, length, & validatedInfo);
 
 	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
 
-- 
2.43.0


From 21f6535c91a7061972da34f0af1e58859c398fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:13 +0000
Subject: [PATCH 33/61] fix: initialize copies of sample data

---
 src/BKData.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 0e9a9d9..c5118b7 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -216,17 +216,23 @@ BKInt BKDataInitCopy (BKData * copy, BKData const * original)
 {
 	BKInt res = 0;
 
-	memcpy (copy, original, sizeof (BKData));
+	res = BKDataInit (copy);
 
-	copy -> object.flags &= BK_DATA_FLAG_COPY_MASK;
-	copy -> stateList = NULL;
-	copy -> frames    = NULL;
+	if (res < 0)
+		return res;
 
-	if (original -> frames)
+	if (original -> frames) {
 		res = BKDataSetFrames (copy, original -> frames, original -> numFrames, original -> numChannels, 1);
 
-	if (res < 0)
-		return res;
+		if (res < 0)
+			return res;
+	}
+
+	copy -> numBits       = original -> numBits;
+	copy -> sampleRate    = original -> sampleRate;
+	copy -> samplePitch   = original -> samplePitch;
+	copy -> sustainOffset = original -> sustainOffset;
+	copy -> sustainEnd    = original -> sustainEnd;
 
 	return 0;
 }
-- 
2.43.0


From 02829786fbbc2573f82cd1631787ba6f60542128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 34/61] fix: refuse wave files without channels or sample rate

---
 src/BKWaveFileReader.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 258184b..e9bd30c 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -133,6 +133,14 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
+		if (headerFmt.numChannels < 1 || headerFmt.numChannels > BK_MAX_CHANNELS) {
+			return -1;
+		}
+
+		if (headerFmt.sampleRate < 1 || headerFmt.sampleRate > BK_INT_MAX) {
+			return -1;
+		}
+
 		do {
 			size = fread (& headerData, 1, sizeof (headerData), reader -> file);
 
-- 
2.43.0


From af242c2cbecef5ce7dda1fdedf035a9b2ce55cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 35/61] fix: skip format extensions of wave files

---
 src/BKWaveFileReader.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index e9bd30c..9f621a8 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -125,6 +125,13 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
+		// skip format extension
+		if (headerFmt.subchunkSize > 16) {
+			if (fseek (reader -> file, headerFmt.subchunkSize - 16, SEEK_CUR) != 0) {
+				return -1;
+			}
+		}
+
 		if (headerFmt.audioFormat != 1) {
 			return -1;
 		}
@@ -155,7 +162,9 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			}
 
 			// seek to next subchunk
-			fseek (reader -> file, headerData.subchunkSize, SEEK_CUR);
+			if (fseek (reader -> file, headerData.subchunkSize, SEEK_CUR) != 0) {
+				return -1;
+			}
 		}
 		while (1);
 
-- 
2.43.0


From 6fd86ae83e48fdb72fb3b255f57083737401ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 36/61] fix: limit frames read from wave files to the announced
 number

---
 src/BKWaveFileReader.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 9f621a8..eaf7682 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -168,7 +168,6 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 		}
 		while (1);
 
-		reader -> sampleRate  = headerFmt.sampleRate;
 		reader -> numChannels = headerFmt.numChannels;
 		reader -> numBits     = headerFmt.bitsPerSample;
 
@@ -191,16 +190,29 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			BKSize size;
 			BKSize cur = ftell (reader -> file);
 
-			if (fseek (reader -> file, 0, SEEK_END) < 0) {
+			if (cur < 0 || fseek (reader -> file, 0, SEEK_END) < 0) {
 				return -1;
 			}
 
 			size = ftell (reader -> file);
-			fseek (reader -> file, cur, SEEK_SET);
+
+			if (size < cur || fseek (reader -> file, cur, SEEK_SET) < 0) {
+				return -1;
+			}
+
 			reader -> dataSize = size - cur;
 		}
 
-		reader -> numFrames = (BKInt) reader -> dataSize / reader -> numChannels / frameSize;
+		// only whole frames are read
+		frameSize *= reader -> numChannels;
+		reader -> dataSize -= reader -> dataSize % frameSize;
+
+		if (reader -> dataSize / frameSize > BK_INT_MAX) {
+			return -1;
+		}
+
+		reader -> numFrames  = (BKInt) (reader -> dataSize / frameSize);
+		reader -> sampleRate = headerFmt.sampleRate;
 	}
 
 	* outNumChannels = reader -> numChannels;
-- 
2.43.0


From 9511348b71679c320d462b8daba9b8b178de20f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 37/61] fix: clear all frames missing in truncated wave files

---
 src/BKWaveFileReader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index eaf7682..9e29732 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -297,8 +297,8 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 		}
 	}
 
-	// empty trailing byte if any
-	memset (outFrames, 0, reader -> dataSize - writeSize);
+	// empty missing frames if any
+	memset (outFrames, 0, (reader -> dataSize - writeSize) / frameSize * sizeof (BKFrame));
 
 	return 0;
 }
-- 
2.43.0


From 352a764499257ee7a908eeaeaf226028a1921acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 38/61] fix: write number of channels and sample rate of sample
 data in order

---
 src/BKWaveFileWriter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 5ccb0b6..a722ddb 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -253,7 +253,7 @@ BKInt BKWaveFileWriteData (FILE * file, BKData const * data, BKInt sampleRate, B
 {
 	BKWaveFileWriter writer;
 
-	if (BKWaveFileWriterInit (& writer, file, sampleRate, data -> numChannels, numBits) < 0) {
+	if (BKWaveFileWriterInit (& writer, file, data -> numChannels, sampleRate, numBits) < 0) {
 		return -1;
 	}
 
-- 
2.43.0


From f09ca94cbe850ba1399b4b90b296addc52040394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:13 +0000
Subject: [PATCH 39/61] fix: write complete headers of wave files

---
 src/BKWaveFileWriter.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index a722ddb..7653472 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -144,6 +144,7 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 
 	if (writer -> reverseEndian) {
 		fmtHeader.subchunkSize  = BKInt32Reverse (fmtHeader.subchunkSize);
+		fmtHeader.audioFormat   = BKInt16Reverse (fmtHeader.audioFormat);
 		fmtHeader.numChannels   = BKInt16Reverse (fmtHeader.numChannels);
 		fmtHeader.sampleRate    = BKInt32Reverse (fmtHeader.sampleRate);
 		fmtHeader.bitsPerSample = BKInt16Reverse (fmtHeader.bitsPerSample);
@@ -151,11 +152,13 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 		fmtHeader.byteRate      = BKInt32Reverse (fmtHeader.byteRate);
 	}
 
-	fwrite (& header, sizeof (header), 1, writer -> file);
-	fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file);
-	fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file);
+	if (fwrite (& header, sizeof (header), 1, writer -> file) != 1
+		|| fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file) != 1
+		|| fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file) != 1) {
+		return BK_FILE_ERROR;
+	}
 
-	writer -> fileSize += ftell (writer -> file) - 8;
+	writer -> fileSize += sizeof (header) + sizeof (fmtHeader) + sizeof (dataHeader) - 8;
 
 	writer -> object.flags |= BKWaveFileFlagHeaderWritten;
 
@@ -219,6 +222,12 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 	BKSize   offset;
 	uint32_t chunkSize;
 
+	if (!(writer -> object.flags & BKWaveFileFlagHeaderWritten)) {
+		if (BKWaveFileWriterWriteHeader (writer) < 0) {
+			return BK_FILE_ERROR;
+		}
+	}
+
 	offset = writer -> initOffset + offsetof (BKWaveFileHeader, chunkSize);
 	chunkSize = (uint32_t) writer -> fileSize;
 
-- 
2.43.0


From 771b4c79623515276ec101c3caf11e4ad7fb9d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 40/61] fix: report errors when writing wave files

---
 src/BKWaveFileWriter.c | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 7653472..ae62bf9 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -105,6 +105,11 @@ BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numCha
 
 	writer -> file          = file;
 	writer -> initOffset    = ftell (file);
+
+	if (writer -> initOffset < 0) {
+		return BK_FILE_ERROR;
+	}
+
 	writer -> sampleRate    = sampleRate;
 	writer -> numChannels   = numChannels;
 	writer -> numBits       = numBits;
@@ -202,11 +207,15 @@ BKInt BKWaveFileWriterAppendFrames (BKWaveFileWriter * writer, BKFrame const * f
 			frames += writeSize;
 			numFrames -= writeSize;
 
-			fwrite (buffer, numBits / 8, writeSize, writer -> file);
+			if ((BKSize) fwrite (buffer, numBits / 8, writeSize, writer -> file) != writeSize) {
+				return BK_FILE_ERROR;
+			}
 		}
 	}
 	else {
-		fwrite (frames, sizeof (BKFrame), numFrames, writer -> file);
+		if ((BKInt) fwrite (frames, sizeof (BKFrame), numFrames, writer -> file) != numFrames) {
+			return BK_FILE_ERROR;
+		}
 	}
 
 	writer -> fileSize += dataSize;
@@ -235,8 +244,9 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		chunkSize = BKInt32Reverse (chunkSize);
 	}
 
-	fseek (writer -> file, offset, SEEK_SET);
-	fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file);
+	if (fseek (writer -> file, offset, SEEK_SET) != 0 || fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file) != 1) {
+		return BK_FILE_ERROR;
+	}
 
 	offset = writer -> initOffset + sizeof (BKWaveFileHeader) + sizeof (BKWaveFileHeaderFmt);
 	offset += offsetof (BKWaveFileHeaderData, subchunkSize);
@@ -247,11 +257,13 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		chunkSize = BKInt32Reverse (chunkSize);
 	}
 
-	fseek (writer -> file, offset, SEEK_SET);
-	fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file);
+	if (fseek (writer -> file, offset, SEEK_SET) != 0 || fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file) != 1) {
+		return BK_FILE_ERROR;
+	}
 
-	fseek (writer -> file, 0, SEEK_END);
-	fflush (writer -> file);
+	if (fseek (writer -> file, 0, SEEK_END) != 0 || fflush (writer -> file) != 0) {
+		return BK_FILE_ERROR;
+	}
 
 	writer -> object.flags |= BKWaveFileFlagTerminated;
 
@@ -262,16 +274,21 @@ BKInt BKWaveFileWriteData (FILE * file, BKData const * data, BKInt sampleRate, B
 {
 	BKWaveFileWriter writer;
 
+	BKInt res;
+
 	if (BKWaveFileWriterInit (& writer, file, data -> numChannels, sampleRate, numBits) < 0) {
 		return -1;
 	}
 
-	BKWaveFileWriterAppendFrames (& writer, data -> frames, data -> numFrames * data -> numChannels);
-	BKWaveFileWriterTerminate (& writer);
+	res = BKWaveFileWriterAppendFrames (& writer, data -> frames, data -> numFrames * data -> numChannels);
+
+	if (res == 0) {
+		res = BKWaveFileWriterTerminate (& writer);
+	}
 
 	BKDispose (& writer);
 
-	return 0;
+	return res;
 }
 
 BKClass BKWaveFileWriterClass =
-- 
2.43.0


From 9677f48417a79304e40f563ee08718d36d13d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 41/61] fix: make times beyond 32 bits in 64 bit arithmetic

---
 src/BKTime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 4076bdf..1c7bb0a 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -38,7 +38,7 @@
 
 BK_INLINE BKTime BKTimeMake (BKInt samples, BKFUInt20 frac)
 {
-	return (samples << BK_FINT20_SHIFT) + frac;
+	return (BKTime) samples * BK_FINT20_UNIT + frac;
 }
 
 BK_INLINE BKInt BKTimeGetTime (BKTime a)
-- 
2.43.0


From f5bbd8571b4a6c239d8d5b670e851acdbc9ccf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 42/61] fix: compare times with fractions above 31 bits

---
 src/BKTime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 1c7bb0a..6061c60 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -88,7 +88,7 @@ BK_INLINE BKInt BKTimeIsGreater (BKTime a, BKTime b)
 
 BK_INLINE BKInt BKTimeIsGreaterFUInt20 (BKTime a, BKFUInt20 b)
 {
-	return a > (BKInt) b;
+	return a > (BKTime) b;
 }
 
 BK_INLINE BKInt BKTimeIsGreaterEqual (BKTime a, BKTime b)
-- 
2.43.0


From 94fe68c1d390cc1929025919648d7ccdb6998add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 43/61] fix: write all frames up to the end time

---
 src/BKContext.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 95ccf7b..09726e4 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -328,8 +328,8 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
 
 		BKContextEnd (ctx, period);
 
-		// write frames if buffer filled or end time is reached
-		if (BKBufferSize (& ctx -> channels [0]) >= BK_MAX_GENERATE_SAMPLES || BKTimeIsGreaterEqual (ctx -> currentTime, endTime)) {
+		// write frames if buffer filled or all remaining frames if end time is reached
+		while (BKContextSize (ctx) >= BK_MAX_GENERATE_SAMPLES || (BKContextSize (ctx) > 0 && BKTimeIsGreaterEqual (ctx -> currentTime, endTime))) {
 			BKInt size;
 			BKFrame frames [ctx -> numChannels * BK_MAX_GENERATE_SAMPLES];
 
-- 
2.43.0


From 4312f97760c4d6f8aac7d0fe4c4a8acbcc906905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 44/61] fix: copied sequences have their own values and no
 states

---
 src/BKSequence.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 67183a7..4eddb48 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -122,10 +122,12 @@ static BKInt BKSequenceFuncSimpleCopy (BKSequence ** outCopy, BKSequence const *
 
 	if (copy) {
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
 
 		memcpy (copy, sequence, sizeof (* copy));
-		memcpy (copy -> values, sequence -> values, size);
+		memcpy (values, sequence -> values, size);
+
+		copy -> values    = values;
+		copy -> stateList = NULL;
 
 		* outCopy = copy;
 
@@ -365,10 +367,12 @@ static BKInt BKSequenceFuncEnvelopeCopy (BKSequence ** outCopy, BKSequence const
 
 	if (copy) {
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
 
 		memcpy (copy, sequence, sizeof (* copy));
-		memcpy (copy -> values, sequence -> values, size);
+		memcpy (values, sequence -> values, size);
+
+		copy -> values    = values;
+		copy -> stateList = NULL;
 
 		* outCopy = copy;
 
-- 
2.43.0


From ab672d3ebb61b80ef7b43f9cd4d0a496ab520c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 45/61] fix: initialise copied instruments as objects

---
 src/BKInstrument.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/BKInstrument.c b/src/BKInstrument.c
index b49cc35..a308672 100644
--- a/src/BKInstrument.c
+++ b/src/BKInstrument.c
@@ -117,10 +117,13 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 	BKInt res = 0;
 	BKSequence * sequence;
 
-	memset (copy, 0, sizeof (sizeof (BKInstrument)));
+	res = BKInstrumentInit (copy);
 
-	copy -> object.flags = (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
-	copy -> numSequences = original -> numSequences;
+	if (res < 0)
+		return res;
+
+	copy -> object.flags |= (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
+	copy -> numSequences  = original -> numSequences;
 
 	for (BKInt i = 0; i < original -> numSequences; i ++) {
 		sequence = original -> sequences [i];
@@ -128,8 +131,10 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 		if (sequence) {
 			res = BKSequenceCopy (& copy -> sequences [i], sequence);
 
-			if (res < 0)
+			if (res < 0) {
+				BKDispose (copy);
 				return res;
+			}
 		}
 	}
 
-- 
2.43.0


From 8a8baa9b78c3e7d6569a487420a2930ff5ce5128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 46/61] fix: report errors while reading frames of WAVE files

---
 src/BKWaveFileReader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 9e29732..a527183 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -297,6 +297,10 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 		}
 	}
 
+	if (ferror (reader -> file)) {
+		return BK_FILE_ERROR;
+	}
+
 	// empty missing frames if any
 	memset (outFrames, 0, (reader -> dataSize - writeSize) / frameSize * sizeof (BKFrame));
 
-- 
2.43.0


From bbf5f4456a33a62ffd4c8db56caeb844470acaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 47/61] fix: keep the WAVE file reader unchanged when its
 header is refused

---
 src/BKWaveFileReader.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index a527183..56ff8fd 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -94,6 +94,7 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 {
 	BKSize size;
 	BKSize frameSize;
+	BKSize dataSize;
 	BKWaveFileHeader header;
 	BKWaveFileHeaderFmt headerFmt;
 	BKWaveFileHeaderData headerData;
@@ -168,10 +169,7 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 		}
 		while (1);
 
-		reader -> numChannels = headerFmt.numChannels;
-		reader -> numBits     = headerFmt.bitsPerSample;
-
-		switch (reader -> numBits) {
+		switch (headerFmt.bitsPerSample) {
 			case 8: {
 				frameSize = 1;
 				break;
@@ -183,10 +181,10 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			}
 		}
 
-		reader -> dataSize  = headerData.subchunkSize;
+		dataSize = headerData.subchunkSize;
 
 		// read everything after data chunk if size not set
-		if (!reader -> dataSize) {
+		if (!dataSize) {
 			BKSize size;
 			BKSize cur = ftell (reader -> file);
 
@@ -200,19 +198,22 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 				return -1;
 			}
 
-			reader -> dataSize = size - cur;
+			dataSize = size - cur;
 		}
 
 		// only whole frames are read
-		frameSize *= reader -> numChannels;
-		reader -> dataSize -= reader -> dataSize % frameSize;
+		frameSize *= headerFmt.numChannels;
+		dataSize -= dataSize % frameSize;
 
-		if (reader -> dataSize / frameSize > BK_INT_MAX) {
+		if (dataSize / frameSize > BK_INT_MAX) {
 			return -1;
 		}
 
-		reader -> numFrames  = (BKInt) (reader -> dataSize / frameSize);
-		reader -> sampleRate = headerFmt.sampleRate;
+		reader -> numChannels = headerFmt.numChannels;
+		reader -> numBits     = headerFmt.bitsPerSample;
+		reader -> dataSize    = dataSize;
+		reader -> numFrames   = (BKInt) (dataSize / frameSize);
+		reader -> sampleRate  = headerFmt.sampleRate;
 	}
 
 	* outNumChannels = reader -> numChannels;
-- 
2.43.0


From 944724ff06c76eb1bc7a838f8575121148971a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 48/61] fix: refuse a negative number of frames in the WAVE
 file writer

---
 src/BKWaveFileWriter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index ae62bf9..bf41aa5 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -178,6 +178,10 @@ BKInt BKWaveFileWriterAppendFrames (BKWaveFileWriter * writer, BKFrame const * f
 	BKSize  bufferSize = 1024;
 	BKFrame buffer [bufferSize];
 
+	if (numFrames < 0) {
+		return BK_INVALID_NUM_FRAMES;
+	}
+
 	if (!(writer -> object.flags & BKWaveFileFlagHeaderWritten)) {
 		if (BKWaveFileWriterWriteHeader (writer) < 0) {
 			return -1;
-- 
2.43.0


From 587ba3bef626c0bb0c518e97a5782cbd4160a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 49/61] fix: initialise the WAVE file writer only after its
 arguments are checked

---
 src/BKWaveFileWriter.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index bf41aa5..dcf5bde 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -86,16 +86,13 @@ static BKInt BKCheckFile (FILE * file)
 
 BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numChannels, BKInt sampleRate, BKInt numBits)
 {
-	BKInt res;
+	BKInt  res;
+	BKSize initOffset;
 
 	if ((res = BKCheckFile (file)) != 0) {
 		return res;
 	}
 
-	if ((res = BKObjectInit (writer, & BKWaveFileWriterClass, sizeof (*writer))) != 0) {
-		return res;
-	}
-
 	if (!numBits) {
 		numBits = 16;
 	}
@@ -103,13 +100,18 @@ BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numCha
 		return BK_INVALID_VALUE;
 	}
 
-	writer -> file          = file;
-	writer -> initOffset    = ftell (file);
+	initOffset = ftell (file);
 
-	if (writer -> initOffset < 0) {
+	if (initOffset < 0) {
 		return BK_FILE_ERROR;
 	}
 
+	if ((res = BKObjectInit (writer, & BKWaveFileWriterClass, sizeof (*writer))) != 0) {
+		return res;
+	}
+
+	writer -> file          = file;
+	writer -> initOffset    = initOffset;
 	writer -> sampleRate    = sampleRate;
 	writer -> numChannels   = numChannels;
 	writer -> numBits       = numBits;
-- 
2.43.0


From cd8de7fcc6a2dee0d081cd0575b72aa08eb5774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 50/61] fix: refuse WAVE files with an incomplete format chunk

---
 src/BKWaveFileReader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 56ff8fd..5df18c9 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -126,6 +126,10 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
+		if (headerFmt.subchunkSize < 16) {
+			return -1;
+		}
+
 		// skip format extension
 		if (headerFmt.subchunkSize > 16) {
 			if (fseek (reader -> file, headerFmt.subchunkSize - 16, SEEK_CUR) != 0) {
-- 
2.43.0


From 12b9d2da705631b0044ca304a1857cba5365e880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:11 +0000
Subject: [PATCH 51/61] fix: convert negative values of signed 8-bit data

---
 src/BKData.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index c5118b7..efe27f4 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -527,7 +527,7 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 			}
 			case 8: {
 				if (isSigned) {
-					outFrames [0] = BKMax ((BKFrame) (* (signed char *) charData), -127) * BK_FRAME_MAX / 127;
+					outFrames [0] = BKMax ((BKFrame) (* (signed char *) charData), -127) * (BKInt) BK_FRAME_MAX / 127;
 				} else {
 					outFrames [0] = (BKFrame) (* (unsigned char *) charData) * BK_FRAME_MAX / 255;
 				}
-- 
2.43.0


From 746f327d1c6a8492a5d3119022cb9927785bb15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 52/61] fix: ignore release of a sustain range when no sample
 is played

---
 src/BKUnit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 705e6c6..17a1c89 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -550,7 +550,8 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_FLAG_RELEASE: {
-			if (unit -> object.flags & BKUnitFlagSampleSustainRange) {
+			// range may be left from a previous sample
+			if (unit -> waveform == BK_SAMPLE && (unit -> object.flags & BKUnitFlagSampleSustainRange)) {
 				value = value ? BKUnitFlagRelease : 0;
 				unit -> object.flags = (unit -> object.flags & ~BKUnitFlagRelease) | value;
 
-- 
2.43.0


From 88e087537613e54b50edaa4b08c07190dfeb091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 53/61] fix: do not announce sample data which could not be set

---
 src/BKTrack.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 30e2fe0..d410ae0 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -1009,8 +1009,11 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 					if (attr != oldAttr || ptr != track -> unit.sample.dataState.data) {
 						res = BKUnitSetPtr (& track -> unit, attr, ptr);
 
-						if (res != 0)
+						if (res != 0) {
+							// data may have been unset
+							BKUnitGetAttr (& track -> unit, BK_WAVEFORM, & track -> waveform);
 							return res;
+						}
 					}
 
 					BKUnitGetAttr (& track -> unit, BK_WAVEFORM, & track -> waveform);
-- 
2.43.0


From f633a752e42291a18879c8af39e236156c6e1ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 54/61] fix: envelopes with small values slide from the duty
 cycle of the track

---
 src/BKSequence.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 4eddb48..0c825ab 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -168,6 +168,9 @@ static BKUInt BKSequencePhaseGetFracShift (BKSequencePhase const * phases, BKUIn
 	BKInt shift    = 0;
 	BKInt maxValue = BKSequencePhaseGetMaxAbsValue (phases, length);
 
+	// the track's duty cycle has to fit, too, as it is used as initial value
+	maxValue = BKMax (maxValue, BK_MAX_DUTY_CYCLE);
+
 	// shift must be smaller than maximum value
 	// reduce by one bit to allow enough delta to slide from maximum to minimum
 	while ((1 << shift) <= maxValue && shift < 30)
-- 
2.43.0


From 7009360d458de2b1ed1f4cd9242c75b617f82243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 55/61] fix: bound number of arpeggio notes by zero and the
 given size

---
 src/BKTrack.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index d410ae0..118d274 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -211,7 +211,10 @@ static void BKTrackArpeggioSetNotes (BKTrack * track, BKInt * arpeggio, BKInt co
 		state -> offset = 0;
 	}
 
-	memcpy (state -> notes, arpeggio, count * sizeof (BKInt));
+	if (count > 0) {
+		memcpy (state -> notes, arpeggio, count * sizeof (BKInt));
+	}
+
 	BKBitSetCond (track -> flags, BKArpeggioFlag, count > 0);
 
 	track -> flags |= BKTrackAttrUpdateFlagNote;
@@ -1037,12 +1040,17 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 				}
 				case BK_ARPEGGIO: {
 					BKInt * arpeggio = ptr;
-					BKUInt  count    = 0;
-
-					if (arpeggio && size)
-						count = BKMin (arpeggio [0], BK_MAX_ARPEGGIO);
+					BKInt * notes    = NULL;
+					BKSize  count    = 0;
+
+					// number of notes must not exceed given size
+					if (arpeggio && size >= sizeof (BKInt)) {
+						notes = & arpeggio [1];
+						count = BKClamp (arpeggio [0], 0, BK_MAX_ARPEGGIO);
+						count = BKMin (count, size / sizeof (BKInt) - 1);
+					}
 
-					BKTrackArpeggioSetNotes (track, & arpeggio [1], count);
+					BKTrackArpeggioSetNotes (track, notes, (BKInt) count);
 
 					break;
 				}
-- 
2.43.0


From c04d37f406ece33b84859ca1225cc8566a1a32ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:12 +0000
Subject: [PATCH 56/61] fix: calculate size of sequence values without overflow

---
 src/BKSequence.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 0c825ab..f6d3b4d 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -2,7 +2,7 @@
 
 static BKInt BKSequenceFuncSimpleCreate (BKSequence ** outSequence, BKSequenceFuncs const * funcs, void const * values, BKUInt length, BKUInt sustainOffset, BKUInt sustainLength)
 {
-	BKInt        size;
+	BKSize       size;
 	BKSequence * sequence;
 
 	sustainOffset = BKClamp (sustainOffset, 0, length);
@@ -113,7 +113,7 @@ static BKInt BKSequenceFuncSimpleSetValue (BKSequenceState * state, BKInt value)
 
 static BKInt BKSequenceFuncSimpleCopy (BKSequence ** outCopy, BKSequence const * sequence)
 {
-	BKInt        size;
+	BKSize       size;
 	BKSequence * copy;
 	BKInt      * values;
 
@@ -209,7 +209,7 @@ static BKInt BKSequenceFuncEnvelopeCreate (BKSequence ** outSequence, BKSequence
 	if (BKSequenceEnvelopeCheckValues (values, length, sustainOffset, sustainLength) != 0)
 		return BK_INVALID_VALUE;
 
-	BKInt        size     = sizeof (BKSequencePhase) * length;
+	BKSize       size     = sizeof (BKSequencePhase) * length;
 	BKSequence * sequence = malloc (sizeof (* sequence) + size);
 
 	if (sequence) {
@@ -361,7 +361,7 @@ static BKInt BKSequenceFuncEnvelopeSetValue (BKSequenceState * state, BKInt valu
 
 static BKInt BKSequenceFuncEnvelopeCopy (BKSequence ** outCopy, BKSequence const * sequence)
 {
-	BKInt              size;
+	BKSize             size;
 	BKSequence       * copy;
 	BKSequencePhase  * values;
 
-- 
2.43.0


From 9c1f0223b23fb1741c9ce64cd47b414b3d75b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:10 +0000
Subject: [PATCH 57/61] fix: let BK_PITCH and BK_SAMPLE_PITCH take effect on a
 sounding note

---
 src/BKTrack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 118d274..aaaf899 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -731,10 +731,12 @@ static BKInt BKTrackSetAttrInt (BKTrack * track, BKEnum attr, BKInt value)
 		}
 		case BK_PITCH: {
 			track -> pitch = BKClamp (value, BK_MIN_SAMPLE_TONE << BK_FINT20_SHIFT, BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT);
+			track -> flags |= BKTrackAttrUpdateFlagNote;
 			break;
 		}
 		case BK_SAMPLE_PITCH: {
 			track -> samplePitch = BKClamp (value, BK_MIN_SAMPLE_TONE << BK_FINT20_SHIFT, BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT);
+			track -> flags |= BKTrackAttrUpdateFlagNote;
 			break;
 		}
 		case BK_ARPEGGIO_DIVIDER: {
-- 
2.43.0


From 54c5a33c0f59e219c9840ed557be1e26cb74b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:13 +0000
Subject: [PATCH 58/61] fix: recompute a track's period when it is attached to
 a context

---
 src/BKTrack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index aaaf899..4faedf0 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -531,7 +531,7 @@ BKInt BKTrackAttach (BKTrack * track, BKContext * ctx)
 		if (ctx -> numChannels == 2)
 			track -> flags |= (BKPanningEnabledFlag);
 
-		track -> flags |= BKTrackAttrUpdateFlagVolume;
+		track -> flags |= BKTrackAttrUpdateFlagVolume | BKTrackAttrUpdateFlagNote;
 		BKTrackUpdateUnit (track);
 	}
 
-- 
2.43.0


From 7c298b44274acac6460b91f52f9a72c6e0619931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:16 +0000
Subject: [PATCH 59/61] fix: let BKTrackGetAttr read back BK_PITCH

---
 src/BKTrack.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 4faedf0..2ca1937 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -806,6 +806,10 @@ static BKInt BKTrackGetAttrInt (BKTrack const * track, BKEnum attr, BKInt * outV
 			value = track -> curNote;
 			break;
 		}
+		case BK_PITCH: {
+			value = track -> pitch;
+			break;
+		}
 		case BK_SAMPLE_PITCH: {
 			value = track -> samplePitch;
 			break;
-- 
2.43.0


From a58827e6bf43b58060ed6aa56e117b86ccd29edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:19 +0000
Subject: [PATCH 60/61] fix: give back tremolo and vibrato as they were set

---
 src/BKTrack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 2ca1937..4474196 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -966,14 +966,14 @@ BKInt BKTrackGetEffect (BKTrack const * track, BKEnum effect, void * outValues,
 			break;
 		}
 		case BK_EFFECT_TREMOLO: {
-			values [0] = track -> tremoloSteps.endValue;
-			values [1] = track -> tremoloDelta.endValue;
+			values [0] = track -> tremoloSteps.endValue >> track -> tremoloSteps.valueShift;
+			values [1] = track -> tremoloDelta.endValue >> track -> tremoloDelta.valueShift;
 			values [2] = track -> tremoloDelta.steps;
 			break;
 		}
 		case BK_EFFECT_VIBRATO: {
-			values [0] = track -> vibratoSteps.endValue;
-			values [1] = track -> vibratoDelta.endValue;
+			values [0] = track -> vibratoSteps.endValue >> track -> vibratoSteps.valueShift;
+			values [1] = track -> vibratoDelta.endValue >> track -> vibratoDelta.valueShift;
 			values [2] = track -> vibratoDelta.steps;
 			break;
 		}
-- 
2.43.0


From ca331b4a5644fdd6367e87272795de08ca1adea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:08 +0000
Subject: [PATCH 61/61] fix: slow slides and oscillations end exactly on their
 target

The rounding added when an interpolated value is read could be one unit or
more when the number of steps is large compared to the change. A volume slid
from 1 to 0 in 300 steps stayed at 1, and from 100 to 0 in 65536 steps ended
at 2. Keep the rounding below one unit.
---
 src/BKInterpolation.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BKInterpolation.c b/src/BKInterpolation.c
index bd8fb7c..68d44fd 100644
--- a/src/BKInterpolation.c
+++ b/src/BKInterpolation.c
@@ -38,6 +38,8 @@ void BKSlideStateSetValueAndSteps (BKSlideState * state, BKInt endValue, BKInt s
 		if ((deltaValue >> state -> valueShift)) {
 			roundBias = ((steps << stepShift) / (deltaValue >> state -> valueShift) / 2);
 			roundBias = (roundBias * (stepDelta >> stepShift));
+			// less than 1 or else the end value is not read back exactly
+			roundBias = BKClamp (roundBias, 0, (1 << state -> valueShift) - 1);
 		}
 
 		state -> endValue  = endValue;
@@ -101,6 +103,8 @@ void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKIn
 			if (delta >> state -> valueShift) {
 				roundBias = ((steps << stepShift) / (delta >> state -> valueShift) / 2);
 				roundBias = (roundBias * (stepDelta >> stepShift));
+				// less than 1 or else the end values are not read back exactly
+				roundBias = BKClamp (roundBias, 0, (1 << state -> valueShift) - 1);
 			}
 
 			switch (state -> phase) {
-- 
2.43.0

