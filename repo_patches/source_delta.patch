From b56afe4915a1861a22f1f53bc3daefa32e731db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:31 +0000
Subject: [PATCH 01/75] fix: read only completed frames from the context and
 flush them all in BKContextGenerateToTime

---
 src/BKContext.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 81ea857..d746195 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -317,7 +317,7 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
 		BKContextEnd (ctx, period);
 
 		// write frames if buffer filled or end time is reached
-		if (BKBufferSize (& ctx -> channels [0]) >= BK_MAX_GENERATE_SAMPLES || BKTimeIsGreaterEqual (ctx -> currentTime, endTime)) {
+		while (BKContextSize (ctx) >= BK_MAX_GENERATE_SAMPLES || (BKContextSize (ctx) > 0 && BKTimeIsGreaterEqual (ctx -> currentTime, endTime))) {
 			BKInt size;
 			BKFrame frames [ctx -> numChannels * BK_MAX_GENERATE_SAMPLES];
 
@@ -445,6 +445,9 @@ BKInt BKContextRead (BKContext * ctx, BKFrame outFrames [], BKUInt size)
 {
 	BKBuffer * channel;
 
+	// frames beyond the ended time are not complete yet
+	size = BKMin (size, BKContextSize (ctx));
+
 	// read channels
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
-- 
2.43.0


From 33c8b78d736a424d7518495f5bd904251df74d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 02/75] fix: BKDataSetFrames must not own frames which are not
 copied

---
 src/BKData.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKData.c b/src/BKData.c
index a192e1d..06efb28 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -365,6 +365,9 @@ BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames,
 			free (data -> frames);
 		}
 
+		// frames are owned by the caller
+		data -> object.flags &= ~BK_DATA_FLAG_COPY;
+
 		newFrames = (BKFrame *) frames;
 	}
 
-- 
2.43.0


From 5387f458860414f76b4c76415aa8118eea9ce7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 03/75] fix: BKDataInitCopy has to leave an initialized object
 which owns its frames

---
 src/BKData.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index 06efb28..4e25035 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -192,7 +192,8 @@ BKInt BKDataInitCopy (BKData * copy, BKData const * original)
 
 	memcpy (copy, original, sizeof (BKData));
 
-	copy -> object.flags &= BK_DATA_FLAG_COPY_MASK;
+	// copied frames are allocated below
+	copy -> object.flags = BKObjectFlagInitialized;
 	copy -> stateList = NULL;
 	copy -> frames    = NULL;
 
-- 
2.43.0


From a99cc34780ca4df90b55a402768f14c7536dc2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 04/75] fix: keep the state list of BKData linked when several
 states are removed

---
 src/BKData.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 4e25035..26e5898 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -129,10 +129,10 @@ static void BKDataResetStates (BKData * data, BKEnum event)
 
 			state -> nextState = NULL;
 			state -> data      = NULL;
-			state = NULL;
 		}
-
-		prevState = state;
+		else {
+			prevState = state;
+		}
 	}
 
 	data -> object.flags &= ~BKObjectFlagLocked;
-- 
2.43.0


From a48c15ae7283206e025605ba07cb019e3c40c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 05/75] fix: BKDataLoadWAVE has to replace previous frames like
 BKDataSetFrames

---
 src/BKData.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/BKData.c b/src/BKData.c
index 26e5898..80b30ab 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -635,6 +635,13 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 	}
 
 	if (BKWaveFileReaderReadHeader (& reader, & numChannels, & sampleRate, & numFrames) < 0) {
+		BKDispose (& reader);
+		return BK_INVALID_RETURN_VALUE;
+	}
+
+	// need at least 2 phases
+	if (numFrames < 2 || numChannels < 1 || numChannels > BK_MAX_CHANNELS) {
+		BKDispose (& reader);
 		return BK_INVALID_RETURN_VALUE;
 	}
 
@@ -648,9 +655,14 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 
 	if (BKWaveFileReaderReadFrames (& reader, frames) < 0) {
 		free (frames);
+		BKDispose (& reader);
 		return BK_INVALID_RETURN_VALUE;
 	}
 
+	if (data -> object.flags & BK_DATA_FLAG_COPY) {
+		free (data -> frames);
+	}
+
 	data -> object.flags |= BK_DATA_FLAG_COPY;
 	data -> numBits       = 16;
 	data -> sampleRate    = sampleRate;
@@ -660,6 +672,8 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 
 	BKDispose (& reader);
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From 789c95114c0f0c55aa72131d7da3cc2055894d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 06/75] fix: BKDataNormalize and BKDataConvert replace frames
 which tracks are using

---
 src/BKData.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKData.c b/src/BKData.c
index 80b30ab..25d20cc 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -702,6 +702,8 @@ BKInt BKDataNormalize (BKData * data)
 			data -> frames [i] = (data -> frames [i] * factor) >> 16;
 	}
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
@@ -826,6 +828,7 @@ BKInt BKDataConvert (BKData * data, BKDataConvertInfo * info)
 	BKDataReduceBits (convertedFrames, data -> frames, length, & validatedInfo);
 
 	data -> frames = convertedFrames;
+	data -> object.flags |= BK_DATA_FLAG_COPY;
 
 	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
 
-- 
2.43.0


From 51e5641d77fb1b332cb2422e92cbecda32503047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 07/75] fix: BKDataSetData converts every sample and replaces
 previous frames

---
 src/BKData.c | 139 ++++++++++++++++++---------------------------------
 1 file changed, 49 insertions(+), 90 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 25d20cc..1d72e87 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -444,99 +444,53 @@ static BKInt BKDataNumBitsFromParam (BKEnum param, BKUInt * outNumBits, BKInt *
 
 static BKInt BKDataCalculateNumFramesFromNumBits (BKUInt dataSize, BKUInt numBits, BKUInt numChannels)
 {
-	BKInt numFrames = 0;
-	BKInt packetSize;
-	BKInt dataSizeBits = dataSize * 8;
-
-	if (numBits <= 8) {
-		packetSize = (numBits * numChannels);
-	}
-	else {
-		// round up to multiple of 4
-		packetSize = (numBits + 3) / 4 * 4 * numChannels;
-	}
-
-	numFrames = dataSizeBits / packetSize * numChannels;
-
-	return numFrames;
+	// number of complete frames
+	return ((BKSize) dataSize * 8) / (numBits * numChannels);
 }
 
-static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUInt dataSize, BKUInt numBits, BKInt isSigned, BKInt reverseEndian, BKUInt numChannels)
+static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKSize numSamples, BKUInt numBits, BKInt isSigned, BKInt reverseEndian)
 {
-	BKSize mask;
 	unsigned char const * charData = data;
-	unsigned char c;
+	BKUInt samplesPerByte, shift, value;
+	BKUInt maxValue = (1 << numBits) - 1;
 
 	switch (numBits) {
-		case  1: mask = 1; break;
-		case  2: mask = 1; break;
-		case  4: mask = 1; break;
-		case  8: mask = 1; break;
-		default:
-		case 16: mask = 2; break;
-	}
-
-	dataSize -= (dataSize % (mask * numChannels));
-
-	for (charData = data; (void *) charData < data + dataSize;) {
-		switch (numBits) {
-			case 1: {
-				c = charData [0];
-				outFrames [0] = ((c & (1 << 7)) >> 7) * BK_FRAME_MAX;
-				outFrames [1] = ((c & (1 << 6)) >> 6) * BK_FRAME_MAX;
-				outFrames [2] = ((c & (1 << 5)) >> 5) * BK_FRAME_MAX;
-				outFrames [3] = ((c & (1 << 4)) >> 4) * BK_FRAME_MAX;
-				outFrames [4] = ((c & (1 << 3)) >> 3) * BK_FRAME_MAX;
-				outFrames [5] = ((c & (1 << 2)) >> 2) * BK_FRAME_MAX;
-				outFrames [6] = ((c & (1 << 1)) >> 1) * BK_FRAME_MAX;
-				outFrames [7] = ((c & (1 << 0)) >> 0) * BK_FRAME_MAX;
-				charData += 1;
-				outFrames += 8;
-				break;
+		case 1:
+		case 2:
+		case 4: {
+			samplesPerByte = 8 / numBits;
+
+			// first frame is in the most significant bits
+			for (BKSize i = 0; i < numSamples; i ++) {
+				shift = 8 - numBits * (i % samplesPerByte + 1);
+				value = (charData [i / samplesPerByte] >> shift) & maxValue;
+				outFrames [i] = value * BK_FRAME_MAX / maxValue;
 			}
-			case 2: {
-				c = charData [0];
-				outFrames [0] = ((c & (3 << 6)) >> 6) * BK_FRAME_MAX / 3;
-				outFrames [1] = ((c & (3 << 4)) >> 4) * BK_FRAME_MAX / 3;
-				outFrames [2] = ((c & (3 << 2)) >> 2) * BK_FRAME_MAX / 3;
-				outFrames [3] = ((c & (3 << 0)) >> 0) * BK_FRAME_MAX / 3;
-				charData += 1;
-				outFrames += 4;
-				break;
-			}
-			case 4: {
-				c = charData [0];
-				outFrames [0] = ((c & (15 << 4)) >> 4) * BK_FRAME_MAX / 15;
-				outFrames [1] = ((c & (15 << 0)) >> 0) * BK_FRAME_MAX / 15;
-				charData += 1;
-				outFrames += 2;
-				break;
-			}
-			case 8: {
+			break;
+		}
+		case 8: {
+			for (BKSize i = 0; i < numSamples; i ++) {
 				if (isSigned) {
-					outFrames [0] = (BKFrame) (* (signed char *) charData) * BK_FRAME_MAX / 127;
+					outFrames [i] = BKMax ((signed char) charData [i], -127) * BK_FRAME_MAX / 127;
 				} else {
-					outFrames [0] = (BKFrame) (* (unsigned char *) charData) * BK_FRAME_MAX / 255;
+					outFrames [i] = charData [i] * BK_FRAME_MAX / 255;
 				}
-
-				charData += 1;
-				outFrames += 1;
-				break;
 			}
-			case 16: {
-				if (reverseEndian) {
-					outFrames [0] = (charData [0] << 8) | (charData [1] >> 8);
-				} else {
-					outFrames [0] =  (* (BKFrame *) charData);
-				}
+			break;
+		}
+		case 16: {
+			memcpy (outFrames, charData, numSamples * sizeof (BKFrame));
 
-				charData += 2;
-				outFrames += 1;
-				break;
-			}
-			default: {
-				return BK_INVALID_NUM_BITS;
+			if (reverseEndian) {
+				for (BKSize i = 0; i < numSamples; i ++) {
+					value = (unsigned short) outFrames [i];
+					outFrames [i] = (BKFrame) ((value << 8) | (value >> 8));
+				}
 			}
+			break;
+		}
+		default: {
+			return BK_INVALID_NUM_BITS;
 		}
 	}
 
@@ -563,27 +517,32 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 
 	numFrames = BKDataCalculateNumFramesFromNumBits (dataSize, numBits, numChannels);
 
-	if (numFrames < 0)
-		return BK_INVALID_NUM_BITS;
+	// need at least 2 phases
+	if (numFrames < 2)
+		return BK_INVALID_NUM_FRAMES;
 
-	if (data -> object.flags & BK_DATA_FLAG_COPY) {
-		frames = realloc (data -> frames, numFrames * sizeof (BKFrame));
-	}
-	else {
-		frames = malloc (numFrames * sizeof (BKFrame));
-	}
+	frames = malloc ((BKSize) numFrames * numChannels * sizeof (BKFrame));
 
 	if (frames == NULL)
 		return BK_ALLOCATION_ERROR;
 
-	if (BKDataConvertFromBits (frames, frameData, dataSize, numBits, isSigned, reverseEndian, numChannels) < 0)
+	if (BKDataConvertFromBits (frames, frameData, (BKSize) numFrames * numChannels, numBits, isSigned, reverseEndian) < 0) {
+		free (frames);
 		return -1;
+	}
 
+	if (data -> object.flags & BK_DATA_FLAG_COPY) {
+		free (data -> frames);
+	}
+
+	data -> object.flags |= BK_DATA_FLAG_COPY;
 	data -> frames      = frames;
-	data -> numFrames   = numFrames / numChannels;
+	data -> numFrames   = numFrames;
 	data -> numChannels = numChannels;
 	data -> numBits     = numBits;
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From 8a11515afbbd67f1ebe41a520d5962edbc0ff5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 08/75] fix: BKDataLoadRaw must not use bytes which could not
 be read

---
 src/BKData.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 1d72e87..eb95478 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -548,7 +548,7 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 
 BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum params)
 {
-	BKSize offset, size;
+	long   offset, size;
 	void * frames;
 	BKInt  ret = 0;
 
@@ -558,10 +558,13 @@ BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum para
 		return BK_FILE_ERROR;
 	}
 
-	fseek (file, 0, SEEK_END);
+	if (fseek (file, 0, SEEK_END) != 0) {
+		return BK_FILE_ERROR;
+	}
+
 	size = ftell (file);
 
-	if (size < 0) {
+	if (size < offset || fseek (file, offset, SEEK_SET) != 0) {
 		return BK_FILE_ERROR;
 	}
 
@@ -572,8 +575,10 @@ BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum para
 		return BK_ALLOCATION_ERROR;
 	}
 
-	fseek (file, offset, SEEK_SET);
-	fread (frames, sizeof (char), size, file);
+	if (fread (frames, sizeof (char), size, file) != (size_t) size) {
+		free (frames);
+		return BK_FILE_ERROR;
+	}
 
 	ret = BKDataSetData (data, frames, (BKUInt) size, numChannels, params);
 
-- 
2.43.0


From 557c063570e7c33d0afef1b2198da1cfb9da82c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 09/75] fix: tracks must not keep frames of changed or disposed
 data objects

---
 src/BKUnit.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 85f5d0b..e6cf6ef 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -79,10 +79,6 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 {
 	BKContext * ctx = unit -> ctx;
 
-	if (ctx == NULL) {
-		return BK_INVALID_STATE;
-	}
-
 	switch (type) {
 		// set data as custom waveform
 		case BK_WAVEFORM: {
@@ -116,7 +112,7 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 			if (data && event != BK_DATA_STATE_EVENT_DISPOSE) {
 				// number of channels must eighter be 1 or equal to
 				// number of context channels
-				if (data -> numChannels != 1 && data -> numChannels != ctx -> numChannels) {
+				if (data -> numChannels != 1 && ctx && data -> numChannels != ctx -> numChannels) {
 					return BK_INVALID_NUM_CHANNELS;
 				}
 				else if (data -> numFrames < 2) {
@@ -171,6 +167,10 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 {
 	BKInt res;
 
+	if (unit -> ctx == NULL && data) {
+		return BK_INVALID_STATE;
+	}
+
 	res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
 
 	if (res == 0) {
@@ -192,6 +192,7 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 
 BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 {
+	BKInt  res;
 	BKEnum type;
 
 	switch (unit -> waveform) {
@@ -210,7 +211,18 @@ BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 	}
 
 	// reset data
-	return BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+	res = BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+
+	// frames used until now are not valid anymore
+	if (res < 0) {
+		unit -> waveform      = 0;
+		unit -> sample.offset = 0;
+		unit -> sample.end    = 0;
+		unit -> sample.frames = NULL;
+		unit -> phase.phase   = 0;
+	}
+
+	return res;
 }
 
 static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
@@ -274,6 +286,11 @@ BKInt BKUnitAttach (BKUnit * unit, BKContext * ctx)
 			ctx -> firstUnit = unit;
 			ctx -> lastUnit  = unit;
 		}
+
+		// sample does not fit the new context
+		if (unit -> waveform == BK_SAMPLE && unit -> sample.numChannels != 1 && unit -> sample.numChannels != ctx -> numChannels) {
+			BKUnitSetData (unit, BK_SAMPLE, NULL);
+		}
 	}
 	else {
 		return BK_INVALID_STATE;
-- 
2.43.0


From 988b7874006224132fec162058979a2b4cbc93da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 10/75] fix: unsetting a sample must not release the data of a
 custom waveform

---
 src/BKUnit.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index e6cf6ef..e2606b0 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -102,7 +102,8 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 				unit -> sample.offset = 0;
 				unit -> sample.end    = 0;
 				unit -> sample.frames = NULL;
-				return -1;
+				unit -> phase.count   = BK_SQUARE_PHASES;
+				unit -> phase.phase   = 0;
 			}
 
 			break;
@@ -171,6 +172,13 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 		return BK_INVALID_STATE;
 	}
 
+	// unsetting one type must not release the data used as the other type
+	if (data == NULL) {
+		if ((type == BK_SAMPLE && unit -> waveform == BK_CUSTOM) || (type == BK_WAVEFORM && unit -> waveform == BK_SAMPLE)) {
+			return 0;
+		}
+	}
+
 	res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
 
 	if (res == 0) {
-- 
2.43.0


From 543a9db8370866cedcf4d3f1f9fbdd14d8ae502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 11/75] fix: use repeat mode returned by the sample callback

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index e2606b0..83d6eff 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -243,7 +243,7 @@ static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
 		info.object = unit;
 		info.event  = event;
 
-		unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
+		result = unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
 	}
 
 	return result;
-- 
2.43.0


From 578a4d8ffaca0bf2bdbaf0cf6cc5e79ee5feb6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 12/75] fix: BKGetPtr on units must not set the pointer

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 83d6eff..6e83154 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1298,7 +1298,7 @@ static BKInt BKUnitSetPtrSize (BKUnit * unit, BKEnum attr, void * ptr, BKSize si
 
 static BKInt BKUnitGetPtrSize (BKUnit * unit, BKEnum attr, void * outPtr, BKSize size)
 {
-	return BKUnitSetPtr (unit, attr, outPtr);
+	return BKUnitGetPtr (unit, attr, outPtr);
 }
 
 BKClass BKUnitClass =
-- 
2.43.0


From cc811969964ab4fc50129ccaf18548da87ea84ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 13/75] fix: sample phase must stay inside of the sample range

---
 src/BKUnit.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 6e83154..f08f8db 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -395,7 +395,8 @@ static void BKUnitUpdateSampleSustainRange (BKUnit * unit, BKInt offset, BKInt e
 		return;
 	}
 
-	sampleLength = unit -> sample.dataState.data -> numFrames;
+	// phases are relative to the current sample range
+	sampleLength = unit -> sample.length;
 
 	if (offset < 0) {
 		offset += sampleLength + 1;
@@ -579,7 +580,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				if (value) {
 					if ((unit -> object.flags & BKUnitFlagSampleSustainJump) && unit -> mute == 0) {
 						if (unit -> sample.period > 0) {
-							unit -> phase.phase = unit -> sample.sustainEnd;
+							unit -> phase.phase = BKMax (0, BKMin ((BKInt) unit -> sample.sustainEnd, (BKInt) unit -> sample.length - 1));
 						}
 						else {
 							unit -> phase.phase = BKMax (0, (BKInt) unit -> sample.sustainOffset - 1);
@@ -1101,7 +1102,7 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 				unit -> phase.phase = unit -> sample.length - unit -> phase.phase - 1;
 			}
 			else if (resetDir == -1) {
-				unit -> phase.phase = unit -> sample.length - unit -> phase.phase;
+				unit -> phase.phase = BKMin (unit -> sample.length - unit -> phase.phase, unit -> sample.length - 1);
 			}
 			mode = -resetDir;
 			break;
-- 
2.43.0


From 63fba8b24876adfac40640eeb5887c9a08538827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 14/75] fix: a forward sample range set at the sample begin has
 to start at its begin

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index f08f8db..0f752b8 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -378,7 +378,7 @@ static void BKUnitUpdateSampleRange (BKUnit * unit, BKInt offset, BKInt end)
 			newPhase = 0;
 		}
 		// set sample phase to end if sample phase is at begin
-		else if (unit -> phase.phase == 0) {
+		else if (unit -> sample.offset > unit -> sample.end && unit -> phase.phase == 0) {
 			newPhase = unit -> sample.length - 1;
 		}
 	}
-- 
2.43.0


From 84c9ea98b393d3e8e5c2c9a70113ade909baa7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 15/75] fix: keep the data callback of a track when clearing it

---
 src/BKTrack.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 020e1af..704ed25 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -465,6 +465,10 @@ void BKTrackClear (BKTrack * track)
 
 	BKUnitClear (& track -> unit);
 
+	// replaced by `BKUnitClear`
+	track -> unit.sample.dataState.callback         = (void *) BKTrackSampleDataStateCallback;
+	track -> unit.sample.dataState.callbackUserInfo = track;
+
 	BKTrackSetInstrument (track, NULL);
 
 	// only clear fields after and including "arpeggioDivider" field
-- 
2.43.0


From 0f4f785b51c627419291316140020a6e7a083edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 16/75] fix: BKTrackGetEffect returns tremolo and vibrato
 values as they were set

---
 src/BKTrack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 704ed25..24930b4 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -954,14 +954,14 @@ BKInt BKTrackGetEffect (BKTrack const * track, BKEnum effect, void * outValues,
 			break;
 		}
 		case BK_EFFECT_TREMOLO: {
-			values [0] = track -> tremoloSteps.endValue;
-			values [1] = track -> tremoloDelta.endValue;
+			values [0] = track -> tremoloSteps.endValue >> track -> tremoloSteps.valueShift;
+			values [1] = track -> tremoloDelta.endValue >> track -> tremoloDelta.valueShift;
 			values [2] = track -> tremoloDelta.steps;
 			break;
 		}
 		case BK_EFFECT_VIBRATO: {
-			values [0] = track -> vibratoSteps.endValue;
-			values [1] = track -> vibratoDelta.endValue;
+			values [0] = track -> vibratoSteps.endValue >> track -> vibratoSteps.valueShift;
+			values [1] = track -> vibratoDelta.endValue >> track -> vibratoDelta.valueShift;
 			values [2] = track -> vibratoDelta.steps;
 			break;
 		}
-- 
2.43.0


From 443fffcf774183a8bcb180437652f85fe93b5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 17/75] fix: number of arpeggio notes must not be negative

---
 src/BKTrack.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 24930b4..468a55c 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -211,7 +211,10 @@ static void BKTrackArpeggioSetNotes (BKTrack * track, BKInt * arpeggio, BKInt co
 		state -> offset = 0;
 	}
 
-	memcpy (state -> notes, arpeggio, count * sizeof (BKInt));
+	if (count) {
+		memcpy (state -> notes, arpeggio, count * sizeof (BKInt));
+	}
+
 	BKBitSetCond (track -> flags, BKArpeggioFlag, count > 0);
 
 	track -> flags |= BKTrackAttrUpdateFlagNote;
@@ -1031,12 +1034,12 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 				}
 				case BK_ARPEGGIO: {
 					BKInt * arpeggio = ptr;
-					BKUInt  count    = 0;
+					BKInt   count    = 0;
 
 					if (arpeggio && size)
-						count = BKMin (arpeggio [0], BK_MAX_ARPEGGIO);
+						count = BKClamp (arpeggio [0], 0, BK_MAX_ARPEGGIO);
 
-					BKTrackArpeggioSetNotes (track, & arpeggio [1], count);
+					BKTrackArpeggioSetNotes (track, count ? & arpeggio [1] : NULL, count);
 
 					break;
 				}
-- 
2.43.0


From 4e2911fcfef9a974d9660483981902fd646ff16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 18/75] fix: keep all clocks running when clocks are attached,
 reset or detached at a later time

---
 src/BKClock.c   | 15 +++++++--------
 src/BKContext.c | 23 +++++++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 3729e5f..fc5ded6 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -214,6 +214,7 @@ BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 BKInt BKClockTick (BKClock * clock)
 {
 	BKInt result = 0;
+	BKTime time = clock -> time;
 	BKCallbackInfo info;
 
 	if (BKTimeIsEqual (clock -> time, clock -> nextTime)) {
@@ -229,15 +230,13 @@ BKInt BKClockTick (BKClock * clock)
 
 		clock -> counter ++;
 
-		// set next time and new period from callback
-		if (BKTimeIsGreater (info.nextTime, clock -> time)) {
-			clock -> period   = BKTimeSub (info.nextTime, clock -> time);
-			clock -> nextTime = info.nextTime;
-		}
-		// set next period
-		else {
-			clock -> nextTime = BKTimeAdd (clock -> time, clock -> period);
+		// set new period from callback
+		if (BKTimeIsGreater (info.nextTime, time)) {
+			clock -> period = BKTimeSub (info.nextTime, time);
 		}
+
+		// set next time; clock may have been reset by its callback
+		clock -> nextTime = BKTimeAdd (clock -> time, clock -> period);
 	}
 
 	return result;
diff --git a/src/BKContext.c b/src/BKContext.c
index d746195..18f2dcc 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -336,7 +336,7 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
  * Get next clock tick period of all clocks
  * Increment clock times by that period and set new time if some clock ticks
  */
-static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * error)
+static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKInt * error)
 {
 	BKClock * clock;
 	BKTime    nextTime;
@@ -347,17 +347,24 @@ static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * err
 		nextTime = BK_TIME_MAX;
 		ctx -> flags &= ~BK_CONTEXT_FLAG_CLOCK_RESET; // clear clock reset flag
 
-		for (clock = clocks; clock; clock = clock -> nextClock) {
+		for (clock = ctx -> firstClock; clock;) {
 			BKClockTick (clock);
 
-			// get next time to tick
-			if (BKTimeIsLess (clock -> nextTime, nextTime))
-				nextTime = clock -> nextTime;
+			// start over if clock was detached by its callback
+			clock = clock -> ctx == ctx ? clock -> nextClock : ctx -> firstClock;
 		}
 	}
 	while (ctx -> flags & BK_CONTEXT_FLAG_CLOCK_RESET);
 
-	deltaTime = BKTimeSub (nextTime, ctx -> currentTime);
+	// get next time to tick; clock times may start at different context times
+	for (clock = ctx -> firstClock; clock; clock = clock -> nextClock) {
+		deltaTime = BKTimeSub (clock -> nextTime, clock -> time);
+
+		if (BKTimeIsLess (deltaTime, nextTime))
+			nextTime = deltaTime;
+	}
+
+	deltaTime = nextTime;
 
 	if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
 		period = BKTimeGetFUInt20 (deltaTime);
@@ -367,7 +374,7 @@ static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * err
 	}
 
 	// advance
-	for (clock = clocks; clock; clock = clock -> nextClock)
+	for (clock = ctx -> firstClock; clock; clock = clock -> nextClock)
 		BKClockAdvance (clock, period);
 
 	ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, period);
@@ -384,7 +391,7 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 	if (ctx -> firstClock) {
 		for (time = ctx -> deltaTime; time < endTime;) {
 			result = 0;
-			clockDelta = BKClocksAdvance (ctx, ctx -> firstClock, & result);
+			clockDelta = BKClocksAdvance (ctx, & result);
 
 			if (result < 0)
 				return result;
-- 
2.43.0


From adf875edbdd8ca36e9320d6d409c3998f453ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 19/75] fix: units attached by callbacks have to start at the
 current time

---
 src/BKContext.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 18f2dcc..030bbd7 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -384,12 +384,12 @@ static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKInt * error)
 
 BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 {
-	BKFUInt20 time, clockDelta;
+	BKFUInt20 clockDelta;
 	BKUnit  * unit;
 	BKInt     result;
 
 	if (ctx -> firstClock) {
-		for (time = ctx -> deltaTime; time < endTime;) {
+		while (ctx -> deltaTime < endTime) {
 			result = 0;
 			clockDelta = BKClocksAdvance (ctx, & result);
 
@@ -397,14 +397,12 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 				return result;
 
 			// set new end time
-			time += clockDelta;
+			ctx -> deltaTime += clockDelta;
 
 			// run units
 			for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
-				unit -> run (unit, time);
+				unit -> run (unit, ctx -> deltaTime);
 		}
-
-		ctx -> deltaTime = time;
 	}
 	else {
 		// run units
-- 
2.43.0


From d0d27e822ce50072eed567d64a33320fb7645068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 20/75] fix: advance time of contexts without clocks

---
 src/BKContext.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 030bbd7..1440273 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -405,9 +405,15 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 		}
 	}
 	else {
+		// advance time without clocks
+		if (ctx -> deltaTime < endTime) {
+			ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, endTime - ctx -> deltaTime);
+			ctx -> deltaTime   = endTime;
+		}
+
 		// run units
 		for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
-			unit -> run (unit, endTime);
+			unit -> run (unit, ctx -> deltaTime);
 	}
 
 	return endTime;
-- 
2.43.0


From e0b20d2cb7db2d0715b10681a95f7a6d3d594671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 21/75] fix: do not drop the fraction of the time when shifting
 buffers

---
 src/BKBuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 9a9fa94..c9fcffe 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -133,7 +133,8 @@ BK_INLINE BKInt BKBufferShift (BKBuffer * buf, BKFUInt20 time)
 
 	maxShift = buf -> capacity << BK_FINT20_SHIFT;
 
-	if (buf -> time + time > maxShift) {
+	// keep fraction of time; only complete frames are readable
+	if ((buf -> time + time) >> BK_FINT20_SHIFT > buf -> capacity) {
 		time = maxShift - buf -> time;
 	}
 
-- 
2.43.0


From 3707cd16b93c0cefad875ead99ca0ab969b09d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 22/75] fix: units reset at a later time have to continue at
 the context time

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 0f752b8..abd7585 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1286,7 +1286,7 @@ void BKUnitReset (BKUnit * unit)
 
 	unit -> waveform    = 0;
 	unit -> phase.phase = 0;
-	unit -> time = 0;
+	unit -> time = unit -> ctx ? unit -> ctx -> deltaTime : 0;
 
 	for (BKInt i = 0; i < BK_MAX_CHANNELS; i ++)
 		unit -> lastPulse [i] = 0;
-- 
2.43.0


From a528199df9fae92897b80b35ae9837b2a4394245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 23/75] fix: disposing a clock which has dividers must not loop
 forever

---
 src/BKClock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index fc5ded6..56cfcb4 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -79,7 +79,7 @@ static void BKClockDisposeObject (BKClock * clock)
 	BKClockDetach (clock);
 
 	for (BKDivider * divider = clock -> dividers.firstDivider; divider; divider = nextDivider) {
-		nextDivider = divider;
+		nextDivider = divider -> nextDivider;
 		BKDividerDetach (divider);
 	}
 }
-- 
2.43.0


From bcbc4c0e23bab8a4a760d14328db523637e3ecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 24/75] fix: a clock which could not be attached must not refer
 to the context

---
 src/BKClock.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 56cfcb4..e39ac2b 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -87,12 +87,16 @@ static void BKClockDisposeObject (BKClock * clock)
 BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 {
 	if (clock -> ctx == NULL) {
-		clock -> ctx = ctx;
-		BKClockReset (clock);
-
 		if (beforeClock == BK_FIRST_ELEMENT_PTR)
 			beforeClock = ctx -> firstClock;
 
+		// previous clock must be in same context
+		if (beforeClock && beforeClock -> ctx != ctx)
+			return BK_INVALID_VALUE;
+
+		clock -> ctx = ctx;
+		BKClockReset (clock);
+
 		if (beforeClock == NULL) {
 			clock -> prevClock = ctx -> lastClock;
 			clock -> nextClock = NULL;
@@ -107,8 +111,7 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 				ctx -> lastClock  = clock;
 			}
 		}
-		// previous clock must be in same context
-		else if (beforeClock -> ctx == ctx) {
+		else {
 			clock -> prevClock = beforeClock -> prevClock;
 			clock -> nextClock = beforeClock;
 
@@ -121,9 +124,6 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 
 			beforeClock -> prevClock = clock;
 		}
-		else {
-			return BK_INVALID_VALUE;
-		}
 	}
 	else {
 		return BK_INVALID_STATE;
-- 
2.43.0


From f2e94e645dfd67f8e7fde7217899b4e61b2c92a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 25/75] fix: dividers must not refer to a disposed context

---
 src/BKContext.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index 1440273..18dc77e 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -117,6 +117,12 @@ static void BKContextDisposeObject (BKContext * ctx)
 		BKClockDetach (clock);
 	}
 
+	while (ctx -> beatDividers.firstDivider)
+		BKDividerDetach (ctx -> beatDividers.firstDivider);
+
+	while (ctx -> effectDividers.firstDivider)
+		BKDividerDetach (ctx -> effectDividers.firstDivider);
+
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
 		BKBufferDispose (channel);
-- 
2.43.0


From 10d3f13d04e9097d66177878f503506be4ad639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 26/75] fix: contexts whose channels could not be allocated
 must not stay half initialized

---
 src/BKContext.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 18dc77e..9354e15 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -62,8 +62,10 @@ static BKInt BKContextInitGeneric (BKContext * ctx, BKUInt numChannels, BKUInt s
 
 	BKContextUpdateMasterClocks (ctx);
 
-	if (ctx -> channels == NULL)
+	if (ctx -> channels == NULL) {
+		ctx -> numChannels = 0;
 		return BK_ALLOCATION_ERROR;
+	}
 
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
@@ -82,6 +84,7 @@ BKInt BKContextInit (BKContext * ctx, BKUInt numChannels, BKUInt sampleRate)
 	}
 
 	if (BKContextInitGeneric (ctx, numChannels, sampleRate) < 0) {
+		BKDispose (ctx);
 		return -1;
 	}
 
@@ -95,6 +98,8 @@ extern BKInt BKContextAlloc (BKContext ** outCtx, BKUInt numChannels, BKUInt sam
 	}
 
 	if (BKContextInitGeneric (*outCtx, numChannels, sampleRate) < 0) {
+		BKDispose (*outCtx);
+		*outCtx = NULL;
 		return -1;
 	}
 
-- 
2.43.0


From 70ba1e43f200aa315e19f00acd20ac3b2b3364da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 27/75] fix: copied instruments must not share sequence values
 with the original

---
 src/BKInstrument.c | 9 ++++++---
 src/BKSequence.c   | 6 ++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/BKInstrument.c b/src/BKInstrument.c
index b49cc35..4d8b967 100644
--- a/src/BKInstrument.c
+++ b/src/BKInstrument.c
@@ -117,9 +117,10 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 	BKInt res = 0;
 	BKSequence * sequence;
 
-	memset (copy, 0, sizeof (sizeof (BKInstrument)));
+	if (BKInstrumentInit (copy) < 0)
+		return -1;
 
-	copy -> object.flags = (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
+	copy -> object.flags |= (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
 	copy -> numSequences = original -> numSequences;
 
 	for (BKInt i = 0; i < original -> numSequences; i ++) {
@@ -128,8 +129,10 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 		if (sequence) {
 			res = BKSequenceCopy (& copy -> sequences [i], sequence);
 
-			if (res < 0)
+			if (res < 0) {
+				BKDispose (copy);
 				return res;
+			}
 		}
 	}
 
diff --git a/src/BKSequence.c b/src/BKSequence.c
index 67183a7..0e41b47 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -122,9 +122,10 @@ static BKInt BKSequenceFuncSimpleCopy (BKSequence ** outCopy, BKSequence const *
 
 	if (copy) {
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
 
 		memcpy (copy, sequence, sizeof (* copy));
+		copy -> values    = values;
+		copy -> stateList = NULL;
 		memcpy (copy -> values, sequence -> values, size);
 
 		* outCopy = copy;
@@ -365,9 +366,10 @@ static BKInt BKSequenceFuncEnvelopeCopy (BKSequence ** outCopy, BKSequence const
 
 	if (copy) {
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
 
 		memcpy (copy, sequence, sizeof (* copy));
+		copy -> values    = values;
+		copy -> stateList = NULL;
 		memcpy (copy -> values, sequence -> values, size);
 
 		* outCopy = copy;
-- 
2.43.0


From 5df0127701ee9ed9c72e20cda081194d76e13659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 28/75] fix: do not leave a half initialized WAVE writer if the
 number of bits is invalid

---
 src/BKWaveFileWriter.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 5ccb0b6..5a8e879 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -88,6 +88,13 @@ BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numCha
 {
 	BKInt res;
 
+	if (!numBits) {
+		numBits = 16;
+	}
+	else if (numBits != 8 && numBits != 16) {
+		return BK_INVALID_VALUE;
+	}
+
 	if ((res = BKCheckFile (file)) != 0) {
 		return res;
 	}
@@ -96,13 +103,6 @@ BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numCha
 		return res;
 	}
 
-	if (!numBits) {
-		numBits = 16;
-	}
-	else if (numBits != 8 && numBits != 16) {
-		return BK_INVALID_VALUE;
-	}
-
 	writer -> file          = file;
 	writer -> initOffset    = ftell (file);
 	writer -> sampleRate    = sampleRate;
-- 
2.43.0


From bfe8a6a5f63c4a0bdeca3f589302a7f6d1ed294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 29/75] fix: BKWaveFileWriteData swapped sample rate and number
 of channels

---
 src/BKWaveFileWriter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 5a8e879..e85597d 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -253,7 +253,7 @@ BKInt BKWaveFileWriteData (FILE * file, BKData const * data, BKInt sampleRate, B
 {
 	BKWaveFileWriter writer;
 
-	if (BKWaveFileWriterInit (& writer, file, sampleRate, data -> numChannels, numBits) < 0) {
+	if (BKWaveFileWriterInit (& writer, file, data -> numChannels, sampleRate, numBits) < 0) {
 		return -1;
 	}
 
-- 
2.43.0


From 61a4429ec4d2097b522a16ae5c0537ed72a56558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 30/75] fix: WAVE size must only include the bytes written by
 the writer

---
 src/BKWaveFileWriter.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index e85597d..8237900 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -155,7 +155,7 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 	fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file);
 	fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file);
 
-	writer -> fileSize += ftell (writer -> file) - 8;
+	writer -> fileSize += sizeof (header) + sizeof (fmtHeader) + sizeof (dataHeader) - 8;
 
 	writer -> object.flags |= BKWaveFileFlagHeaderWritten;
 
@@ -241,7 +241,8 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 	fseek (writer -> file, offset, SEEK_SET);
 	fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file);
 
-	fseek (writer -> file, 0, SEEK_END);
+	// frames appended later have to follow the last frame
+	fseek (writer -> file, writer -> initOffset + 8 + writer -> fileSize, SEEK_SET);
 	fflush (writer -> file);
 
 	writer -> object.flags |= BKWaveFileFlagTerminated;
-- 
2.43.0


From 9448018bdbf721f88fe7c5dc6538118db3c7c141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 31/75] fix: a WAVE file without frames needs a header

---
 src/BKWaveFileWriter.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 8237900..1b4bf80 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -219,6 +219,13 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 	BKSize   offset;
 	uint32_t chunkSize;
 
+	// no frames were appended
+	if (!(writer -> object.flags & BKWaveFileFlagHeaderWritten)) {
+		if (BKWaveFileWriterWriteHeader (writer) < 0) {
+			return -1;
+		}
+	}
+
 	offset = writer -> initOffset + offsetof (BKWaveFileHeader, chunkSize);
 	chunkSize = (uint32_t) writer -> fileSize;
 
-- 
2.43.0


From 204ce091ef7b0c1008d10296e4b0048e56a49d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 32/75] fix: WAVE writer has to report errors of the file

---
 src/BKWaveFileWriter.c | 49 ++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 1b4bf80..67b823b 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -151,9 +151,11 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 		fmtHeader.byteRate      = BKInt32Reverse (fmtHeader.byteRate);
 	}
 
-	fwrite (& header, sizeof (header), 1, writer -> file);
-	fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file);
-	fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file);
+	if (fwrite (& header, sizeof (header), 1, writer -> file) != 1
+		|| fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file) != 1
+		|| fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file) != 1) {
+		return BK_FILE_ERROR;
+	}
 
 	writer -> fileSize += sizeof (header) + sizeof (fmtHeader) + sizeof (dataHeader) - 8;
 
@@ -199,11 +201,15 @@ BKInt BKWaveFileWriterAppendFrames (BKWaveFileWriter * writer, BKFrame const * f
 			frames += writeSize;
 			numFrames -= writeSize;
 
-			fwrite (buffer, numBits / 8, writeSize, writer -> file);
+			if (fwrite (buffer, numBits / 8, writeSize, writer -> file) != writeSize) {
+				return BK_FILE_ERROR;
+			}
 		}
 	}
 	else {
-		fwrite (frames, sizeof (BKFrame), numFrames, writer -> file);
+		if (fwrite (frames, sizeof (BKFrame), numFrames, writer -> file) != numFrames) {
+			return BK_FILE_ERROR;
+		}
 	}
 
 	writer -> fileSize += dataSize;
@@ -233,8 +239,10 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		chunkSize = BKInt32Reverse (chunkSize);
 	}
 
-	fseek (writer -> file, offset, SEEK_SET);
-	fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file);
+	if (fseek (writer -> file, offset, SEEK_SET) != 0
+		|| fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file) != 1) {
+		return BK_FILE_ERROR;
+	}
 
 	offset = writer -> initOffset + sizeof (BKWaveFileHeader) + sizeof (BKWaveFileHeaderFmt);
 	offset += offsetof (BKWaveFileHeaderData, subchunkSize);
@@ -245,12 +253,21 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 		chunkSize = BKInt32Reverse (chunkSize);
 	}
 
-	fseek (writer -> file, offset, SEEK_SET);
-	fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file);
+	if (fseek (writer -> file, offset, SEEK_SET) != 0
+		|| fwrite (& chunkSize, sizeof (chunkSize), 1, writer -> file) != 1) {
+		return BK_FILE_ERROR;
+	}
 
 	// frames appended later have to follow the last frame
-	fseek (writer -> file, writer -> initOffset + 8 + writer -> fileSize, SEEK_SET);
-	fflush (writer -> file);
+	if (fseek (writer -> file, writer -> initOffset + 8 + writer -> fileSize, SEEK_SET) != 0
+		|| fflush (writer -> file) != 0) {
+		return BK_FILE_ERROR;
+	}
+
+	// frames may have been lost before
+	if (ferror (writer -> file)) {
+		return BK_FILE_ERROR;
+	}
 
 	writer -> object.flags |= BKWaveFileFlagTerminated;
 
@@ -259,18 +276,22 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 
 BKInt BKWaveFileWriteData (FILE * file, BKData const * data, BKInt sampleRate, BKInt numBits)
 {
+	BKInt res;
 	BKWaveFileWriter writer;
 
 	if (BKWaveFileWriterInit (& writer, file, data -> numChannels, sampleRate, numBits) < 0) {
 		return -1;
 	}
 
-	BKWaveFileWriterAppendFrames (& writer, data -> frames, data -> numFrames * data -> numChannels);
-	BKWaveFileWriterTerminate (& writer);
+	res = BKWaveFileWriterAppendFrames (& writer, data -> frames, data -> numFrames * data -> numChannels);
+
+	if (res == 0) {
+		res = BKWaveFileWriterTerminate (& writer);
+	}
 
 	BKDispose (& writer);
 
-	return 0;
+	return res;
 }
 
 BKClass BKWaveFileWriterClass =
-- 
2.43.0


From d49dca28c2bb694e598893403a12c3d577ecef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 33/75] fix: WAVE reader has to check the format and skip
 chunks of any size

---
 src/BKWaveFileReader.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 258184b..87939f9 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -90,6 +90,18 @@ static void BKWaveFileHeaderDataRead (BKWaveFileHeaderData * headerData)
 	}
 }
 
+/**
+ * Skip chunk data which are padded to an even number of bytes
+ */
+static BKInt BKWaveFileSkip (FILE * file, uint32_t size)
+{
+	if (size == 0) {
+		return 0;
+	}
+
+	return fseek (file, (long) size + (size & 1), SEEK_CUR);
+}
+
 BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChannels, BKInt * outSampleRate, BKInt * outNumFrames)
 {
 	BKSize size;
@@ -133,6 +145,19 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
+		if (headerFmt.numChannels == 0 || headerFmt.sampleRate == 0) {
+			return -1;
+		}
+
+		if (headerFmt.subchunkSize < 16) {
+			return -1;
+		}
+
+		// skip extension of format chunk
+		if (BKWaveFileSkip (reader -> file, headerFmt.subchunkSize - 16) != 0) {
+			return -1;
+		}
+
 		do {
 			size = fread (& headerData, 1, sizeof (headerData), reader -> file);
 
@@ -147,7 +172,9 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			}
 
 			// seek to next subchunk
-			fseek (reader -> file, headerData.subchunkSize, SEEK_CUR);
+			if (BKWaveFileSkip (reader -> file, headerData.subchunkSize) != 0) {
+				return -1;
+			}
 		}
 		while (1);
 
-- 
2.43.0


From 00c2352145015064cca6f3f4a9b7e2d36c8ee09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 34/75] fix: WAVE reader must not write beyond the frames and
 has to report errors

---
 src/BKWaveFileReader.c | 50 +++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 87939f9..5da5ef9 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -106,6 +106,7 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 {
 	BKSize size;
 	BKSize frameSize;
+	BKSize dataSize;
 	BKWaveFileHeader header;
 	BKWaveFileHeaderFmt headerFmt;
 	BKWaveFileHeaderData headerData;
@@ -178,11 +179,7 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 		}
 		while (1);
 
-		reader -> sampleRate  = headerFmt.sampleRate;
-		reader -> numChannels = headerFmt.numChannels;
-		reader -> numBits     = headerFmt.bitsPerSample;
-
-		switch (reader -> numBits) {
+		switch (headerFmt.bitsPerSample) {
 			case 8: {
 				frameSize = 1;
 				break;
@@ -194,23 +191,38 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			}
 		}
 
-		reader -> dataSize  = headerData.subchunkSize;
+		dataSize = headerData.subchunkSize;
 
 		// read everything after data chunk if size not set
-		if (!reader -> dataSize) {
-			BKSize size;
-			BKSize cur = ftell (reader -> file);
+		if (!dataSize) {
+			long size;
+			long cur = ftell (reader -> file);
 
-			if (fseek (reader -> file, 0, SEEK_END) < 0) {
+			if (cur < 0 || fseek (reader -> file, 0, SEEK_END) < 0) {
 				return -1;
 			}
 
 			size = ftell (reader -> file);
-			fseek (reader -> file, cur, SEEK_SET);
-			reader -> dataSize = size - cur;
+
+			if (size < cur || fseek (reader -> file, cur, SEEK_SET) < 0) {
+				return -1;
+			}
+
+			dataSize = size - cur;
+		}
+
+		// only use complete frames
+		dataSize -= dataSize % (headerFmt.numChannels * frameSize);
+
+		if (dataSize / frameSize > BK_INT_MAX) {
+			return -1;
 		}
 
-		reader -> numFrames = (BKInt) reader -> dataSize / reader -> numChannels / frameSize;
+		reader -> sampleRate  = headerFmt.sampleRate;
+		reader -> numChannels = headerFmt.numChannels;
+		reader -> numBits     = headerFmt.bitsPerSample;
+		reader -> dataSize    = dataSize;
+		reader -> numFrames   = dataSize / headerFmt.numChannels / frameSize;
 	}
 
 	* outNumChannels = reader -> numChannels;
@@ -224,7 +236,7 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 {
 	char    buffer [1024];
 	char  * bufferPtr;
-	BKSize  readSize, writeSize;
+	BKSize  readSize;
 	BKSize  remainingSize;
 	BKSize  frameSize;
 	BKInt   reverseEndian;
@@ -245,7 +257,6 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 		}
 	}
 
-	writeSize     = 0;
 	reverseEndian = BKSystemIsBigEndian ();
 	remainingSize = reader -> dataSize;
 	readMask      = ~readMask;
@@ -264,7 +275,6 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 		bufferPtr = buffer;
 
 		remainingSize -= readSize;
-		writeSize += readSize;
 
 		switch (frameSize) {
 			case 1: {
@@ -295,8 +305,12 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 		}
 	}
 
-	// empty trailing byte if any
-	memset (outFrames, 0, reader -> dataSize - writeSize);
+	if (ferror (reader -> file)) {
+		return BK_FILE_ERROR;
+	}
+
+	// empty missing frames if any
+	memset (outFrames, 0, remainingSize / frameSize * sizeof (BKFrame));
 
 	return 0;
 }
-- 
2.43.0


From 77441369d328f67549728451e0677aa44bd3b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 35/75] fix: size of WAVE frames must not overflow

---
 src/BKData.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index eb95478..98f7cda 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -609,7 +609,7 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 		return BK_INVALID_RETURN_VALUE;
 	}
 
-	size   = numFrames * numChannels * sizeof (BKFrame);
+	size   = (BKSize) numFrames * numChannels * sizeof (BKFrame);
 	frames = malloc (size);
 
 	if (frames == NULL) {
-- 
2.43.0


From 4eb87d9102b93896c16bcbaf810a908cc6246d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 36/75] fix: contexts without units must deliver all requested
 frames

Frames requested from a context whose units were detached were dropped, but
the clocks were advanced.
---
 src/BKContext.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index 9354e15..eb4cc91 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -451,6 +451,8 @@ BKInt BKContextEnd (BKContext * ctx, BKFUInt20 endTime)
 	// shift channel buffers
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
+		// frames are complete even if no unit has written data
+		BKBufferEnd (channel, endTime);
 		BKBufferShift (channel, endTime);
 	}
 
-- 
2.43.0


From acde4fb0bf563697d0b8779603cb07a492444fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 37/75] fix: a WAVE writer must not use an unknown start offset

---
 src/BKWaveFileWriter.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 67b823b..0283594 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -87,6 +87,7 @@ static BKInt BKCheckFile (FILE * file)
 BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numChannels, BKInt sampleRate, BKInt numBits)
 {
 	BKInt res;
+	long offset;
 
 	if (!numBits) {
 		numBits = 16;
@@ -99,12 +100,16 @@ BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numCha
 		return res;
 	}
 
+	if ((offset = ftell (file)) < 0) {
+		return BK_FILE_ERROR;
+	}
+
 	if ((res = BKObjectInit (writer, & BKWaveFileWriterClass, sizeof (*writer))) != 0) {
 		return res;
 	}
 
 	writer -> file          = file;
-	writer -> initOffset    = ftell (file);
+	writer -> initOffset    = offset;
 	writer -> sampleRate    = sampleRate;
 	writer -> numChannels   = numChannels;
 	writer -> numBits       = numBits;
-- 
2.43.0


From 07eda332e9a92db2fe9ff9d448accf4302dc4068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 38/75] fix: convert negative values of signed 8 bit data

---
 src/BKData.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index 98f7cda..de6649b 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -471,7 +471,7 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKSi
 		case 8: {
 			for (BKSize i = 0; i < numSamples; i ++) {
 				if (isSigned) {
-					outFrames [i] = BKMax ((signed char) charData [i], -127) * BK_FRAME_MAX / 127;
+					outFrames [i] = BKMax ((signed char) charData [i], -127) * (BKInt) BK_FRAME_MAX / 127;
 				} else {
 					outFrames [i] = charData [i] * BK_FRAME_MAX / 255;
 				}
-- 
2.43.0


From 98f0d7278919d019f929a5be555480b1bc1b26e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:53 +0000
Subject: [PATCH 39/75] fix: slides and intervals did not arrive exactly at
 their value

---
 src/BKInterpolation.c | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/BKInterpolation.c b/src/BKInterpolation.c
index bd8fb7c..a14c1b6 100644
--- a/src/BKInterpolation.c
+++ b/src/BKInterpolation.c
@@ -24,8 +24,6 @@ void BKSlideStateInit (BKSlideState * state, BKInt maxValue)
 void BKSlideStateSetValueAndSteps (BKSlideState * state, BKInt endValue, BKInt steps)
 {
 	BKInt stepDelta, deltaValue;
-	BKInt roundBias = 0;
-	BKInt const stepShift = BK_STATE_STEP_FRAC_SHIFT;
 
 	steps = BKClamp (steps, 0, BK_STATE_MAX_STEPS);
 
@@ -34,17 +32,12 @@ void BKSlideStateSetValueAndSteps (BKSlideState * state, BKInt endValue, BKInt s
 		deltaValue = endValue - state -> value;
 		stepDelta  = deltaValue / steps;
 
-		// prevent division by 0
-		if ((deltaValue >> state -> valueShift)) {
-			roundBias = ((steps << stepShift) / (deltaValue >> state -> valueShift) / 2);
-			roundBias = (roundBias * (stepDelta >> stepShift));
-		}
-
 		state -> endValue  = endValue;
 		state -> stepDelta = stepDelta;
 		state -> steps     = steps;
 		state -> step      = steps;
-		state -> roundBias = roundBias;
+		// half of an unit
+		state -> roundBias = state -> valueShift ? 1 << (state -> valueShift - 1) : 0;
 	}
 	else {
 		state -> value     = (endValue << state -> valueShift);
@@ -74,7 +67,6 @@ void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKIn
 {
 	BKInt stepFrac, step;
 	BKInt stepDelta, value = 0;
-	BKInt roundBias = 0;
 	BKInt const stepShift = BK_STATE_STEP_FRAC_SHIFT;
 
 	steps = BKClamp (steps, 0, BK_STATE_MAX_STEPS);
@@ -97,12 +89,6 @@ void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKIn
 
 			stepDelta = delta / steps;
 
-			// prevent division by 0
-			if (delta >> state -> valueShift) {
-				roundBias = ((steps << stepShift) / (delta >> state -> valueShift) / 2);
-				roundBias = (roundBias * (stepDelta >> stepShift));
-			}
-
 			switch (state -> phase) {
 				//  / ̅  raise from zero
 				case 0: {
@@ -132,7 +118,8 @@ void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKIn
 			state -> steps     = steps;
 			state -> value     = value;
 			state -> stepDelta = stepDelta;
-			state -> roundBias = roundBias;
+			// half of an unit
+			state -> roundBias = state -> valueShift ? 1 << (state -> valueShift - 1) : 0;
 			state -> step      = step;
 		}
 	}
-- 
2.43.0


From b76fcea8acfa1b9595507cabc1b61376e5a0a797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 40/75] fix: pitch changes did not take effect until the next
 note

---
 src/BKTrack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 468a55c..570e673 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -728,10 +728,12 @@ static BKInt BKTrackSetAttrInt (BKTrack * track, BKEnum attr, BKInt value)
 		}
 		case BK_PITCH: {
 			track -> pitch = BKClamp (value, BK_MIN_SAMPLE_TONE << BK_FINT20_SHIFT, BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT);
+			track -> flags |= BKTrackAttrUpdateFlagNote;
 			break;
 		}
 		case BK_SAMPLE_PITCH: {
 			track -> samplePitch = BKClamp (value, BK_MIN_SAMPLE_TONE << BK_FINT20_SHIFT, BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT);
+			track -> flags |= BKTrackAttrUpdateFlagNote;
 			break;
 		}
 		case BK_ARPEGGIO_DIVIDER: {
-- 
2.43.0


From 6f002f394f740c9bcda07c33a60d0b5a85662500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 41/75] fix: the pitch of a track could not be read

---
 src/BKTrack.c | 4 ++++
 src/BKTrack.h | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 570e673..1007249 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -803,6 +803,10 @@ static BKInt BKTrackGetAttrInt (BKTrack const * track, BKEnum attr, BKInt * outV
 			value = track -> curNote;
 			break;
 		}
+		case BK_PITCH: {
+			value = track -> pitch;
+			break;
+		}
 		case BK_SAMPLE_PITCH: {
 			value = track -> samplePitch;
 			break;
diff --git a/src/BKTrack.h b/src/BKTrack.h
index 8832d40..aa6364c 100644
--- a/src/BKTrack.h
+++ b/src/BKTrack.h
@@ -182,6 +182,7 @@ extern BKInt BKTrackSetAttr (BKTrack * track, BKEnum attr, BKInt value) BK_DEPRE
  * BK_VOLUME
  * BK_PANNING
  * BK_NOTE
+ * BK_PITCH
  * BK_ARPEGGIO_DIVIDER
  * BK_EFFECT_DIVIDER
  * BK_INSTRUMENT_DIVIDER
-- 
2.43.0


From 7ca1ede0c2e5463bcbe3ea9649d27738202484c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 42/75] fix: an attached track kept the period and panning of
 its former context

---
 src/BKTrack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 1007249..b42810c 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -525,10 +525,10 @@ BKInt BKTrackAttach (BKTrack * track, BKContext * ctx)
 
 		BKContextAttachDivider (ctx, & track -> divider, BK_CLOCK_TYPE_EFFECT);
 
-		if (ctx -> numChannels == 2)
-			track -> flags |= (BKPanningEnabledFlag);
+		BKBitSetCond (track -> flags, BKPanningEnabledFlag, ctx -> numChannels == 2);
 
-		track -> flags |= BKTrackAttrUpdateFlagVolume;
+		// period depends on the sample rate of the context
+		track -> flags |= BKTrackAttrUpdateFlagVolume | BKTrackAttrUpdateFlagNote;
 		BKTrackUpdateUnit (track);
 	}
 
-- 
2.43.0


From 342a436e545e8845524ed23afbb88aa2c18f9bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 43/75] fix: a divider of 0 or less stopped arpeggio, effects
 or instrument

---
 src/BKTrack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index b42810c..db5e389 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -737,17 +737,17 @@ static BKInt BKTrackSetAttrInt (BKTrack * track, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_ARPEGGIO_DIVIDER: {
-			track -> arpeggioDivider.divider = value;
+			track -> arpeggioDivider.divider = BKMax (1, value);
 			track -> arpeggioDivider.counter = 0;
 			break;
 		}
 		case BK_EFFECT_DIVIDER: {
-			track -> effectDivider.divider = value;
+			track -> effectDivider.divider = BKMax (1, value);
 			track -> effectDivider.counter = 0;
 			break;
 		}
 		case BK_INSTRUMENT_DIVIDER: {
-			track -> instrDivider.divider = value;
+			track -> instrDivider.divider = BKMax (1, value);
 			track -> instrDivider.counter = 0;
 			break;
 		}
-- 
2.43.0


From 6ec75bc8f5a341b1fb70eaaed43dd8803c3bb38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 44/75] fix: an arpeggio started with a note of the former one
 and the rest of its divider

---
 src/BKTrack.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index db5e389..c50e687 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -214,6 +214,11 @@ static void BKTrackArpeggioSetNotes (BKTrack * track, BKInt * arpeggio, BKInt co
 	if (count) {
 		memcpy (state -> notes, arpeggio, count * sizeof (BKInt));
 	}
+	// next arpeggio starts with its first note
+	else {
+		state -> delta = 0;
+		track -> arpeggioDivider.counter = 0;
+	}
 
 	BKBitSetCond (track -> flags, BKArpeggioFlag, count > 0);
 
-- 
2.43.0


From 826a0a59b10f5524a832f68926659894fde6ee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 45/75] fix: tremolo and vibrato switched off with a slide
 continued at their former position

---
 src/BKTrack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index c50e687..29e3d76 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -909,7 +909,7 @@ BKInt BKTrackSetEffect (BKTrack * track, BKEnum effect, void const * inValues, B
 			BKSlideStateSetValueAndSteps (& track -> tremoloDelta, delta, slideSteps);
 			BKSlideStateSetValueAndSteps (& track -> tremoloSteps, steps, slideSteps);
 
-			if (slideSteps == 0)
+			if (slideSteps == 0 || steps == 0)
 				BKIntervalStateSetDeltaAndSteps (& track -> tremolo, delta, steps);
 
 			track -> flags |= BKTrackAttrUpdateFlagVolume;
@@ -923,7 +923,7 @@ BKInt BKTrackSetEffect (BKTrack * track, BKEnum effect, void const * inValues, B
 			BKSlideStateSetValueAndSteps (& track -> vibratoDelta, delta, slideSteps);
 			BKSlideStateSetValueAndSteps (& track -> vibratoSteps, steps, slideSteps);
 
-			if (slideSteps == 0)
+			if (slideSteps == 0 || steps == 0)
 				BKIntervalStateSetDeltaAndSteps (& track -> vibrato, delta, steps);
 
 			track -> flags |= BKTrackAttrUpdateFlagNote;
-- 
2.43.0


From ab0874e34b8d763b15ab4b9cb2b646cc15339072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 46/75] fix: attaching an attached divider to a context was not
 reported

---
 src/BKContext.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index eb4cc91..a2835ce 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -509,6 +509,7 @@ BKInt BKContextAttachDivider (BKContext * ctx, BKDivider * divider, BKEnum type)
 {
 	BKClock        * clock = & ctx -> masterClock;
 	BKDividerGroup * group = NULL;
+	BKInt            result;
 
 	switch (type) {
 		case BK_CLOCK_TYPE_EFFECT: {
@@ -528,7 +529,11 @@ BKInt BKContextAttachDivider (BKContext * ctx, BKDivider * divider, BKEnum type)
 	if (group) {
 		// Check if required values set
 		if (BKTimeIsGreater (clock -> period, BK_TIME_ZERO)) {
-			BKDividerAttachToGroup (divider, group);
+			result = BKDividerAttachToGroup (divider, group);
+
+			if (result != 0)
+				return result;
+
 			BKClockAttach (clock, ctx, ctx -> firstClock);
 		}
 		else {
-- 
2.43.0


From 35e803593955409dd354e52dce6670ef9dfde90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 47/75] fix: a context reset did not reset the dividers
 attached to the context

---
 src/BKContext.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index a2835ce..d541d08 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -484,9 +484,10 @@ BKInt BKContextRead (BKContext * ctx, BKFrame outFrames [], BKUInt size)
 
 void BKContextReset (BKContext * ctx)
 {
-	BKUnit   * unit;
-	BKBuffer * channel;
-	BKClock  * clock;
+	BKUnit    * unit;
+	BKBuffer  * channel;
+	BKClock   * clock;
+	BKDivider * divider;
 
 	ctx -> deltaTime   = 0;
 	ctx -> currentTime = BK_TIME_ZERO;
@@ -499,6 +500,12 @@ void BKContextReset (BKContext * ctx)
 	for (clock = ctx -> firstClock; clock; clock = clock -> nextClock)
 		BKClockReset (clock);
 
+	for (divider = ctx -> beatDividers.firstDivider; divider; divider = divider -> nextDivider)
+		BKDividerReset (divider);
+
+	for (divider = ctx -> effectDividers.firstDivider; divider; divider = divider -> nextDivider)
+		BKDividerReset (divider);
+
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
 		BKBufferClear (channel);
-- 
2.43.0


From 725b5bc74c36c5feed96df6efda20064a252350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 48/75] fix: a rejected sample or waveform stopped the former
 one

---
 src/BKUnit.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index abd7585..7853b61 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -184,16 +184,6 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 	if (res == 0) {
 		BKDataStateSetData (& unit -> sample.dataState, data);
 	}
-	// unset data when failed
-	else {
-		switch (unit -> waveform) {
-			case BK_CUSTOM:
-			case BK_SAMPLE: {
-				unit -> waveform = 0;
-				break;
-			}
-		}
-	}
 
 	return res;
 }
-- 
2.43.0


From 5f3c8465c16988fea8f7ade32f917952f71dd9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 49/75] fix: an unset sample left its number of phases behind

---
 src/BKUnit.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 7853b61..0e29f27 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -147,6 +147,7 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 				unit -> sample.sustainOffset = 0;
 				unit -> sample.sustainEnd    = 0;
 				unit -> sample.frames        = NULL;
+				unit -> phase.count          = BK_SQUARE_PHASES;
 				unit -> phase.phase          = 0; // reset phase
 				unit -> sample.repeatMode    = 0;
 
@@ -217,6 +218,7 @@ BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 		unit -> sample.offset = 0;
 		unit -> sample.end    = 0;
 		unit -> sample.frames = NULL;
+		unit -> phase.count   = BK_SQUARE_PHASES;
 		unit -> phase.phase   = 0;
 	}
 
-- 
2.43.0


From 697fe60865156dc969bb872aa9f330553f1da3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 50/75] fix: the minimum period was 0

---
 src/BKBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBase.h b/src/BKBase.h
index ef89a91..bd46043 100644
--- a/src/BKBase.h
+++ b/src/BKBase.h
@@ -84,7 +84,7 @@ typedef uint32_t BKFUInt20;  // 12.20 fixed point
 
 #define BK_MAX_CHANNELS 8
 
-#define BK_MIN_PERIOD (BK_FINT20_SHIFT / BK_TRIANGLE_PHASES)
+#define BK_MIN_PERIOD (BK_FINT20_UNIT / BK_TRIANGLE_PHASES)
 #define BK_MAX_PERIOD (1 << (BK_FINT20_SHIFT + 4))
 #define BK_MAX_VOLUME ((1 << BK_VOLUME_SHIFT) - 1)
 
-- 
2.43.0


From 5e12193d75d0882bba6315d3807a5d47aef49626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 51/75] fix: the name of an unknown status was read outside of
 the names

---
 src/BKBase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBase.c b/src/BKBase.c
index 5fa987d..52b82e5 100644
--- a/src/BKBase.c
+++ b/src/BKBase.c
@@ -48,7 +48,7 @@ char const * BKStatusGetName (BKEnum status)
 {
 	char const * name = "Unknown status";
 
-	if (status & BK_RETURN_TYPE && status <= BK_OTHER_ERROR) {
+	if (status > (BKEnum) BK_RETURN_TYPE && status <= (BKEnum) BK_OTHER_ERROR) {
 		name = statusNames [BK_STATUS_IDX (status)];
 	}
 
-- 
2.43.0


From db6639deffa48e40f8c9c6072081c8d3ae4a3a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 52/75] fix: rendering with a clock of period 0 or less never
 finished

---
 src/BKClock.c | 27 ++++++++++++++++++---------
 src/BKClock.h |  7 +++++++
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index e39ac2b..0ca4690 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -35,6 +35,11 @@ extern BKClass BKDividerClass;
 
 static BKInt BKClockInitGeneric (BKClock * clock, BKTime period, BKCallback * callback)
 {
+	// time would not advance
+	if (!BKTimeIsGreater (period, BK_TIME_ZERO)) {
+		return BK_INVALID_VALUE;
+	}
+
 	if (callback) {
 		clock -> callback = (* callback);
 	}
@@ -52,24 +57,25 @@ BKInt BKClockInit (BKClock * clock, BKTime period, BKCallback * callback)
 		return -1;
 	}
 
-	if (BKClockInitGeneric (clock, period, callback) < 0) {
-		return -1;
-	}
-
-	return 0;
+	return BKClockInitGeneric (clock, period, callback);
 }
 
 BKInt BKClockAlloc (BKClock ** outClock, BKTime period, BKCallback * callback)
 {
+	BKInt res;
+
 	if (BKObjectAlloc ((void **) outClock, & BKClockClass, 0) < 0) {
 		return -1;
 	}
 
-	if (BKClockInitGeneric (*outClock, period, callback) < 0) {
-		return -1;
+	res = BKClockInitGeneric (*outClock, period, callback);
+
+	if (res < 0) {
+		BKDispose (*outClock);
+		*outClock = NULL;
 	}
 
-	return 0;
+	return res;
 }
 
 static void BKClockDisposeObject (BKClock * clock)
@@ -160,7 +166,10 @@ void BKClockDetach (BKClock * clock)
 
 void BKClockSetPeriod (BKClock * clock, BKTime period)
 {
-	clock -> period = period;
+	// time would not advance
+	if (BKTimeIsGreater (period, BK_TIME_ZERO)) {
+		clock -> period = period;
+	}
 }
 
 void BKClockReset (BKClock * clock)
diff --git a/src/BKClock.h b/src/BKClock.h
index 7e21bd5..ef4f581 100644
--- a/src/BKClock.h
+++ b/src/BKClock.h
@@ -73,11 +73,17 @@ struct BKClock
 
 /**
  * Initialize clock
+ *
+ * Errors:
+ * BK_INVALID_VALUE if period is not greater than 0
  */
 extern BKInt BKClockInit (BKClock * clock, BKTime period, BKCallback * callback);
 
 /**
  * Allocate clock
+ *
+ * Errors:
+ * BK_INVALID_VALUE if period is not greater than 0
  */
 extern BKInt BKClockAlloc (BKClock ** outClock, BKTime period, BKCallback * callback);
 
@@ -98,6 +104,7 @@ extern void BKClockDetach (BKClock * clock);
 
 /**
  * Set period
+ * Periods which are not greater than 0 are ignored
  */
 extern void BKClockSetPeriod (BKClock * clock, BKTime period);
 
-- 
2.43.0


From 43f35af5e797e89eaad096448637100768dcd97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 53/75] fix: the mix wrapped around beyond 16 bits between
 levels and beyond 32 bits in sum

---
 src/BKBuffer.c | 15 +++++++--------
 src/BKBuffer.h | 12 ++++++------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/BKBuffer.c b/src/BKBuffer.c
index ec43219..356df2c 100644
--- a/src/BKBuffer.c
+++ b/src/BKBuffer.c
@@ -130,10 +130,10 @@ void BKBufferDispose (BKBuffer * buf)
 
 BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt interlace)
 {
-	BKInt * frames = & buf -> frames [0];
-	BKInt   accum  = buf -> accum;
-	BKUInt  bufferSize;
-	BKInt   amp;
+	int64_t * frames = & buf -> frames [0];
+	int64_t   accum  = buf -> accum;
+	BKUInt    bufferSize;
+	int64_t   amp;
 
 	interlace = BKMax (interlace, 1);          // step must be at least 1
 	size      = BKMin (size, buf -> capacity); // can only read available frames
@@ -145,8 +145,7 @@ BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt in
 		amp = accum >> (BK_INT_SHIFT - BK_FRAME_SHIFT - 2);  // remove fraction
 
 		// clamp
-		if ((BKFrame) amp != amp)
-			amp = (amp >> BK_FRAME_SHIFT) ^ BK_FRAME_MAX;
+		amp = BKClamp (amp, -(BKInt) BK_FRAME_MAX - 1, (BKInt) BK_FRAME_MAX);
 
 		// write frame
 		(* outFrames) = amp;
@@ -156,9 +155,9 @@ BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt in
 	bufferSize = buf -> capacity + BK_STEP_WIDTH + 1;
 
 	// move frames left
-	memmove (& buf -> frames [0], & buf -> frames [size], sizeof (BKInt) * (bufferSize - size));
+	memmove (& buf -> frames [0], & buf -> frames [size], sizeof (buf -> frames [0]) * (bufferSize - size));
 	// zero right gap
-	memset (& buf -> frames [bufferSize - size], 0, sizeof (BKInt) * size);
+	memset (& buf -> frames [bufferSize - size], 0, sizeof (buf -> frames [0]) * size);
 	// reduce remaining capacity
 	buf -> capacity -= size;
 
diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index c9fcffe..094b43a 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -49,8 +49,8 @@ struct BKBuffer
 {
 	BKFUInt20             time;
 	BKUInt                capacity;                     // dynamic capacity
-	BKInt                 accum;                        // amplitude accumulator
-	BKInt                 frames [BK_BUFFER_CAPACITY];  // frame buffer
+	int64_t               accum;                        // amplitude accumulator
+	int64_t               frames [BK_BUFFER_CAPACITY];  // frame buffer
 	BKBufferPulse const * pulse;                        // Pulse kernel
 };
 
@@ -80,7 +80,7 @@ extern void BKBufferDispose (BKBuffer * buf);
 /**
  * Add pulse at time offset
  */
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse);
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse);
 
 /**
  * Add single frame at time offset
@@ -148,11 +148,11 @@ BK_INLINE BKInt BKBufferSize (BKBuffer const * buf)
 	return buf -> time >> BK_FINT20_SHIFT;
 }
 
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse)
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse)
 {
 	BKUInt frac;
 	BKUInt offset;
-	BKInt * frames;
+	int64_t * frames;
 	BKFrame const * phase;
 
 	time   = buf -> time + time;
@@ -166,7 +166,7 @@ BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse)
 
 	// add step
 	for (BKInt i = 0; i < BK_STEP_WIDTH; i ++) {
-		frames [i] += (BKInt) phase [i] * pulse;
+		frames [i] += (int64_t) phase [i] * pulse;
 	}
 
 	return 0;
-- 
2.43.0


From 9ded59f6ffc8fe3cc76d480a085adf80508ec93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 54/75] fix: a detached or reset track left its amplitude
 behind in the mix

---
 src/BKUnit.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 0e29f27..e77c466 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -269,6 +269,22 @@ void BKUnitDisposeObject (BKUnit * unit)
 	BKUnitDetach (unit);
 }
 
+/**
+ * Remove current amplitude from context
+ */
+static void BKUnitResetPulse (BKUnit * unit)
+{
+	BKContext * ctx = unit -> ctx;
+
+	for (BKInt i = 0; i < BK_MAX_CHANNELS; i ++) {
+		if (ctx && i < ctx -> numChannels && unit -> lastPulse [i]) {
+			BKBufferAddPulse (& ctx -> channels [i], ctx -> deltaTime, -unit -> lastPulse [i]);
+		}
+
+		unit -> lastPulse [i] = 0;
+	}
+}
+
 BKInt BKUnitAttach (BKUnit * unit, BKContext * ctx)
 {
 	if (unit -> ctx == NULL) {
@@ -304,6 +320,8 @@ void BKUnitDetach (BKUnit * unit)
 	BKContext * ctx = unit -> ctx;
 
 	if (ctx) {
+		BKUnitResetPulse (unit);
+
 		if (unit -> prevUnit) {
 			unit -> prevUnit -> nextUnit = unit -> nextUnit;
 		}
@@ -1280,8 +1298,7 @@ void BKUnitReset (BKUnit * unit)
 	unit -> phase.phase = 0;
 	unit -> time = unit -> ctx ? unit -> ctx -> deltaTime : 0;
 
-	for (BKInt i = 0; i < BK_MAX_CHANNELS; i ++)
-		unit -> lastPulse [i] = 0;
+	BKUnitResetPulse (unit);
 }
 
 static BKInt BKUnitSetPtrSize (BKUnit * unit, BKEnum attr, void * ptr, BKSize size)
-- 
2.43.0


From ee32bfd78ab8d80f8c25e7f552145ff9f2cd3866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 55/75] fix: detaching, attaching or disposing dividers in a
 callback made others lose or repeat a tick

---
 src/BKClock.c | 68 ++++++++++++++++++++++++++++++++-------------------
 src/BKClock.h |  5 ++++
 2 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 0ca4690..e0e2b9d 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -196,27 +196,51 @@ void BKClockAdvance (BKClock * clock, BKFUInt20 period)
 BKInt BKDividerTick (BKDivider * divider, BKCallbackInfo * info)
 {
 	BKInt reset = 0;
+	BKDividerGroup * group;
+
+	if (divider == NULL || divider -> group == NULL)
+		return 0;
+
+	group = divider -> group;
+	group -> tick ++;
+
+	// tick each attached divider once; dividers may be attached, detached or
+	// disposed in the callbacks
+	for (; divider; divider = group -> nextDivider) {
+		group -> curDivider  = divider;
+		group -> nextDivider = divider -> nextDivider;
+
+		if (divider -> tickGroup == group && divider -> tick == group -> tick)
+			continue;
+
+		divider -> tickGroup = group;
+		divider -> tick      = group -> tick;
 
-	// tick each attached divider
-	for (; divider; divider = divider -> nextDivider) {
 		if (divider -> counter <= 0) {
 			reset = 1;
+			divider -> counter = divider -> divider;
 
 			if (divider -> callback.func) {
 				info -> event   = BK_EVENT_DIVIDER;
 				info -> divider = divider -> divider;
+				divider -> counter --;
 
 				divider -> callback.func (info, divider -> callback.userInfo);
 
+				// was detached
+				if (group -> curDivider != divider)
+					continue;
+
 				divider -> divider = BKMax (1, info -> divider);
+				divider -> counter = divider -> divider;
 			}
-
-			divider -> counter = divider -> divider;
 		}
 
 		divider -> counter --;
 	}
 
+	group -> curDivider = NULL;
+
 	return reset;
 }
 
@@ -291,27 +315,7 @@ BKInt BKDividerAlloc (BKDivider ** outDivider, BKUInt count, BKCallback * callba
 
 static void BKDividerDisposeObject (BKDivider * divider)
 {
-	BKDividerGroup * group = divider -> group;
-
-	if (divider -> group) {
-		if (divider -> prevDivider) {
-			divider -> prevDivider -> nextDivider = divider -> nextDivider;
-		}
-		// is first clock
-		else {
-			group -> firstDivider = divider -> nextDivider;
-		}
-
-		if (divider -> nextDivider) {
-			divider -> nextDivider -> prevDivider = divider -> prevDivider;
-		}
-		// is last clock
-		else {
-			group -> lastDivider = divider -> prevDivider;
-		}
-
-		divider -> group = NULL;
-	}
+	BKDividerDetach (divider);
 }
 
 BKInt BKDividerAttachToClock (BKDivider * divider, BKClock * clock)
@@ -336,6 +340,14 @@ BKInt BKDividerAttachToGroup (BKDivider * divider, BKDividerGroup * group)
 		group -> lastDivider = divider;
 
 		divider -> group = group;
+
+		if (group -> curDivider == NULL) {
+			divider -> tickGroup = NULL;
+		}
+		// is ticked with the others
+		else if (group -> nextDivider == NULL) {
+			group -> nextDivider = divider;
+		}
 	}
 	else {
 		return BK_INVALID_STATE;
@@ -349,6 +361,12 @@ void BKDividerDetach (BKDivider * divider)
 	BKDividerGroup * group = divider -> group;
 
 	if (group) {
+		if (group -> curDivider == divider)
+			group -> curDivider = BK_FIRST_ELEMENT_PTR;
+
+		if (group -> nextDivider == divider)
+			group -> nextDivider = divider -> nextDivider;
+
 		if (divider -> prevDivider) {
 			divider -> prevDivider -> nextDivider = divider -> nextDivider;
 		}
diff --git a/src/BKClock.h b/src/BKClock.h
index ef4f581..160d10f 100644
--- a/src/BKClock.h
+++ b/src/BKClock.h
@@ -49,12 +49,17 @@ struct BKDivider
 	BKCallback       callback;
 	BKInt            divider;
 	BKInt            counter;
+	BKDividerGroup * tickGroup; // last ticking group
+	BKUInt           tick;      // last tick of `tickGroup`
 };
 
 struct BKDividerGroup
 {
 	BKDivider * firstDivider;
 	BKDivider * lastDivider;
+	BKDivider * curDivider;   // currently ticking
+	BKDivider * nextDivider;  // next to tick
+	BKUInt      tick;
 };
 
 struct BKClock
-- 
2.43.0


From eb2f8106d53f3fe6fccbbcf2c0816121459ca712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:20 +0000
Subject: [PATCH 56/75] fix: changing the sample or the track in the sample
 callback read invalid frames or stopped the sample

---
 src/BKUnit.c | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index e77c466..fe2bea1 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1083,6 +1083,27 @@ static BKInt BKUnitWrapSamplePhase (BKUnit * unit, BKInt min, BKInt max)
 	return resetDir;
 }
 
+/**
+ * Check if there is a sample to play
+ */
+static BKInt BKUnitCanRunSample (BKUnit const * unit)
+{
+	if (unit -> ctx == NULL || unit -> waveform != BK_SAMPLE || unit -> mute) {
+		return 0;
+	}
+
+	// prevent invalid sample length
+	return BKAbs ((BKInt) unit -> sample.end - (BKInt) unit -> sample.offset) >= 2;
+}
+
+/**
+ * Check if sample has to stay in sustain range
+ */
+static BKInt BKUnitIsSampleSustained (BKUnit const * unit)
+{
+	return (unit -> object.flags & BKUnitFlagSampleSustainRange) && !(unit -> object.flags & BKUnitFlagRelease);
+}
+
 static BKInt BKUnitResetSample (BKUnit * unit)
 {
 	BKInt repeatMode, resetDir;
@@ -1093,6 +1114,11 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 
 	if (unit -> sample.callback.func) {
 		repeatMode = BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_RESET);
+
+		// callback has stopped the sample or has set other data
+		if (BKUnitCanRunSample (unit) == 0) {
+			return 1;
+		}
 	}
 
 	resetDir = BKUnitWrapSamplePhase (unit, 0, unit -> sample.length);
@@ -1119,6 +1145,11 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 		}
 	}
 
+	// phase was set by the callback
+	if (resetDir == 0 && (repeatMode == BK_REPEAT || repeatMode == BK_PALINDROME)) {
+		mode = unit -> sample.period < 0 ? -1 : 1;
+	}
+
 	// halt
 	if (mode == 0) {
 		halt = 1;
@@ -1155,17 +1186,11 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 	BKInt      checkBounds;
 	BKFrame  * frames;
 
-	// muted
-	if (unit -> mute) {
+	if (BKUnitCanRunSample (unit) == 0) {
 		return endTime;
 	}
 
-	// prevent invalid sample length
-	if (BKAbs ((BKInt) unit -> sample.end - (BKInt) unit -> sample.offset) < 2) {
-		return endTime;
-	}
-
-	checkBounds = (unit -> object.flags & BKUnitFlagSampleSustainRange) && !(unit -> object.flags & BKUnitFlagRelease);
+	checkBounds = BKUnitIsSampleSustained (unit);
 
 	for (time = unit -> time; time < endTime; time += BK_FINT20_UNIT) {
 		frames = & unit -> sample.frames [unit -> phase.phase * unit -> sample.numChannels];
@@ -1194,6 +1219,9 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 			if (BKUnitResetSample (unit) == 1) {
 				break;
 			}
+
+			// may be changed by sample callback
+			checkBounds = BKUnitIsSampleSustained (unit);
 		}
 
 		// check for sustain range boundary
-- 
2.43.0


From 8a5c307efdb641e1432962182972afedb1801128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 57/75] fix: a former sample's sustain range made other
 waveforms ignore the end of notes and read invalid phases

---
 src/BKUnit.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index fe2bea1..f544555 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -75,6 +75,17 @@ static BKFrame const sinePhases [BK_SINE_PHASES] =
 static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event);
 static void BKUnitUpdateSampleSustainRange (BKUnit * unit, BKInt offset, BKInt end);
 
+/**
+ * Remove sustain range and its flags
+ */
+static void BKUnitClearSampleSustain (BKUnit * unit)
+{
+	unit -> sample.sustainOffset = 0;
+	unit -> sample.sustainEnd    = 0;
+
+	BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
+}
+
 static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum event)
 {
 	BKContext * ctx = unit -> ctx;
@@ -91,6 +102,8 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 					unit -> sample.end         = data -> numFrames;
 					unit -> sample.frames      = data -> frames;
 					unit -> sample.repeatCount = 0;
+
+					BKUnitClearSampleSustain (unit);
 				}
 				else {
 					return BK_INVALID_NUM_FRAMES;
@@ -220,6 +233,8 @@ BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 		unit -> sample.frames = NULL;
 		unit -> phase.count   = BK_SQUARE_PHASES;
 		unit -> phase.phase   = 0;
+
+		BKUnitClearSampleSustain (unit);
 	}
 
 	return res;
@@ -487,6 +502,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			}
 
 			BKDataStateSetData (& unit -> sample.dataState, NULL);
+			BKUnitClearSampleSustain (unit);
 
 			break;
 		}
-- 
2.43.0


From 98e84f6713688c849c859192171ee048f6079262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 58/75] fix: the period INT_MIN has no positive value and was
 read back negative

---
 src/BKUnit.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index f544555..049d391 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -537,6 +537,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_PERIOD: {
+			value = BKMax (value, -(BKInt) BK_INT_MAX); // has no positive value
 			value = BKMax (BKAbs (value), BK_MIN_PERIOD);
 			unit -> period = value;
 			break;
@@ -582,6 +583,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_SAMPLE_PERIOD: {
+			value = BKMax (value, -(BKInt) BK_INT_MAX); // has no positive value
 			value = BKAbs (value);
 			value = BKClamp (value, BK_MIN_SAMPLE_PERIOD, BK_MAX_SAMPLE_PERIOD);
 
-- 
2.43.0


From 9d637f56e8171ebeddbb56db195f03ca57141869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 59/75] fix: a note started after its sustain range was removed
 stayed released and was not sustained by a new range

---
 src/BKUnit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 049d391..caaa454 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -601,7 +601,8 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_FLAG_RELEASE: {
-			if (unit -> object.flags & BKUnitFlagSampleSustainRange) {
+			// may still be set although the range was removed
+			if (value == 0 || (unit -> object.flags & BKUnitFlagSampleSustainRange)) {
 				value = value ? BKUnitFlagRelease : 0;
 				unit -> object.flags = (unit -> object.flags & ~BKUnitFlagRelease) | value;
 
-- 
2.43.0


From 2cdebaf40c10ecd76bb1548604aba2bacf38c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 60/75] fix: rendering to a time took a step of a few units
 each, over and over, while the units had already run ahead, and stopped short
 of that time

---
 src/BKContext.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index d541d08..2af2fdf 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -315,8 +315,9 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
 	BKTime deltaTime;
 	BKFUInt20 period;
 
-	while (BKTimeIsLess (ctx -> currentTime, endTime)) {
-		deltaTime = BKTimeSub (endTime, ctx -> currentTime);
+	// units have been run beyond the ended time by `deltaTime`
+	while (BKTimeIsLess (ctx -> currentTime, BKTimeAddFUInt20 (endTime, ctx -> deltaTime))) {
+		deltaTime = BKTimeSub (BKTimeAddFUInt20 (endTime, ctx -> deltaTime), ctx -> currentTime);
 
 		if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
 			period = BKTimeGetFUInt20 (deltaTime);
@@ -328,7 +329,7 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
 		BKContextEnd (ctx, period);
 
 		// write frames if buffer filled or end time is reached
-		while (BKContextSize (ctx) >= BK_MAX_GENERATE_SAMPLES || (BKContextSize (ctx) > 0 && BKTimeIsGreaterEqual (ctx -> currentTime, endTime))) {
+		while (BKContextSize (ctx) >= BK_MAX_GENERATE_SAMPLES || (BKContextSize (ctx) > 0 && BKTimeIsGreaterEqual (ctx -> currentTime, BKTimeAddFUInt20 (endTime, ctx -> deltaTime)))) {
 			BKInt size;
 			BKFrame frames [ctx -> numChannels * BK_MAX_GENERATE_SAMPLES];
 
-- 
2.43.0


From 187122144138f0918f398f04d7bd77a328615a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 61/75] fix: times of 2048 frames and more made by BKTimeMake
 overflowed

---
 src/BKTime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 4076bdf..771c74d 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -38,7 +38,7 @@
 
 BK_INLINE BKTime BKTimeMake (BKInt samples, BKFUInt20 frac)
 {
-	return (samples << BK_FINT20_SHIFT) + frac;
+	return ((BKTime) samples << BK_FINT20_SHIFT) + frac;
 }
 
 BK_INLINE BKInt BKTimeGetTime (BKTime a)
-- 
2.43.0


From 067a185aa12680c4aa97e675f39686a1c5ad6d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 62/75] fix: BKTrackSetPtr and BKTrackGetPtr ignored the values
 of effects and arpeggios

---
 src/BKTrack.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 29e3d76..3034b4d 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -1067,9 +1067,31 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 	return 0;
 }
 
+/**
+ * Get size of values of attributes which are passed without size
+ */
+static BKSize BKTrackPtrSize (BKEnum attr)
+{
+	switch (attr) {
+		case BK_ARPEGGIO: {
+			return sizeof (BKInt) * (BK_MAX_ARPEGGIO + 1);
+			break;
+		}
+		case BK_EFFECT_TREMOLO:
+		case BK_EFFECT_VIBRATO: {
+			return sizeof (BKInt) * 2;
+			break;
+		}
+		default: {
+			return sizeof (BKInt);
+			break;
+		}
+	}
+}
+
 BKInt BKTrackSetPtr (BKTrack * track, BKEnum attr, void * ptr)
 {
-	return BKTrackSetPtrObj (track, attr, ptr, 0);
+	return BKTrackSetPtrObj (track, attr, ptr, BKTrackPtrSize (attr));
 }
 
 static BKInt BKTrackGetPtrObj (BKTrack const * track, BKEnum attr, void * outPtr, BKSize size)
@@ -1115,7 +1137,7 @@ static BKInt BKTrackGetPtrObj (BKTrack const * track, BKEnum attr, void * outPtr
 
 BKInt BKTrackGetPtr (BKTrack const * track, BKEnum attr, void * outPtr)
 {
-	return BKTrackGetPtrObj (track, attr, outPtr, 0);
+	return BKTrackGetPtrObj (track, attr, outPtr, BKTrackPtrSize (attr));
 }
 
 BKClass BKTrackClass =
-- 
2.43.0


From e9360079e2ffdcbe1ef94013d6230e1b13d43543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 63/75] fix: a unit without track did not play samples until
 the period of waveforms was set

---
 src/BKUnit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index caaa454..57ab169 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1267,7 +1267,8 @@ BKInt BKUnitRun (BKUnit * unit, BKFUInt20 endTime)
 	BKFUInt20   time = unit -> time;
 	BKBuffer  * channel;
 
-	if (unit -> period) {
+	// samples have their own period
+	if (unit -> period || unit -> waveform == BK_SAMPLE) {
 		switch (unit -> waveform) {
 			case BK_SQUARE:
 			case BK_TRIANGLE:
-- 
2.43.0


From a065506b3a029e577a688b3bc64dd923efa06d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 64/75] fix: BKTime: adding and subtracting spans of 2048
 frames and more with 32 bit time

---
 src/BKTime.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 771c74d..343d8c8 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -158,10 +158,10 @@ BK_INLINE BKTime BKTimeAddFUInt20 (BKTime a, BKFUInt20 b)
 {
 	BKFUInt20 frac;
 
-	frac = a.frac + b;
+	frac = a.frac + (b & BK_FINT20_FRAC);
 
 	a.frac = frac & BK_FINT20_FRAC;
-	a.time += (frac >> BK_FINT20_SHIFT);
+	a.time += (b >> BK_FINT20_SHIFT) + (frac >> BK_FINT20_SHIFT);
 
 	return a;
 }
@@ -183,10 +183,10 @@ BK_INLINE BKTime BKTimeSubFUInt20 (BKTime a, BKFUInt20 b)
 {
 	BKFUInt20 frac;
 
-	frac = a.frac - b;
+	frac = a.frac - (b & BK_FINT20_FRAC);
 
 	a.frac = frac & BK_FINT20_FRAC;
-	a.time = a.time + ((BKInt) frac >> BK_FINT20_SHIFT);
+	a.time = a.time - (BKInt) (b >> BK_FINT20_SHIFT) + ((BKInt) frac >> BK_FINT20_SHIFT);
 
 	return a;
 }
-- 
2.43.0


From c72ac5b9fb450bfd58450f955c44a68d88481a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 65/75] fix: BKTimeIsGreaterFUInt20: spans of 2048 frames and
 more were compared as negative

---
 src/BKTime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 343d8c8..375de55 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -88,7 +88,7 @@ BK_INLINE BKInt BKTimeIsGreater (BKTime a, BKTime b)
 
 BK_INLINE BKInt BKTimeIsGreaterFUInt20 (BKTime a, BKFUInt20 b)
 {
-	return a > (BKInt) b;
+	return a > (BKTime) b;
 }
 
 BK_INLINE BKInt BKTimeIsGreaterEqual (BKTime a, BKTime b)
-- 
2.43.0


From 4065bdaf35a72e412ad2f821272dc3c5300ddace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:28 +0000
Subject: [PATCH 66/75] fix: BKWaveFileWriter: the audio format was written
 with reversed bytes on big endian hosts

---
 src/BKWaveFileWriter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 0283594..cfe99ba 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -149,6 +149,7 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 
 	if (writer -> reverseEndian) {
 		fmtHeader.subchunkSize  = BKInt32Reverse (fmtHeader.subchunkSize);
+		fmtHeader.audioFormat   = BKInt16Reverse (fmtHeader.audioFormat);
 		fmtHeader.numChannels   = BKInt16Reverse (fmtHeader.numChannels);
 		fmtHeader.sampleRate    = BKInt32Reverse (fmtHeader.sampleRate);
 		fmtHeader.bitsPerSample = BKInt16Reverse (fmtHeader.bitsPerSample);
-- 
2.43.0


From 7043133088e55794b6c35a63860b7c537fe0e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:28 +0000
Subject: [PATCH 67/75] fix: slides between both maxima went the wrong way by
 32 bit overflow

---
 src/BKInterpolation.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/BKInterpolation.c b/src/BKInterpolation.c
index a14c1b6..cb71eeb 100644
--- a/src/BKInterpolation.c
+++ b/src/BKInterpolation.c
@@ -23,14 +23,16 @@ void BKSlideStateInit (BKSlideState * state, BKInt maxValue)
 
 void BKSlideStateSetValueAndSteps (BKSlideState * state, BKInt endValue, BKInt steps)
 {
-	BKInt stepDelta, deltaValue;
+	BKInt   stepDelta;
+	int64_t deltaValue;
 
 	steps = BKClamp (steps, 0, BK_STATE_MAX_STEPS);
 
 	if (steps) {
 		endValue <<= state -> valueShift;
-		deltaValue = endValue - state -> value;
-		stepDelta  = deltaValue / steps;
+		// sliding between both maxima exceeds 32 bits
+		deltaValue = (int64_t) endValue - state -> value;
+		stepDelta  = BKClamp (deltaValue / steps, -(BKInt) BK_INT_MAX, (BKInt) BK_INT_MAX);
 
 		state -> endValue  = endValue;
 		state -> stepDelta = stepDelta;
-- 
2.43.0


From fa7326c0cd07572a7335c08de9911a6170de804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 68/75] fix: envelopes set to a sequence state started at a
 value scaled for the previous sequence

---
 src/BKSequence.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 0e41b47..9653f0b 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -441,8 +441,12 @@ BKInt BKSequenceStateSetSequence (BKSequenceState * state, BKSequence * sequence
 
 		state -> sequence = sequence;
 
-		if (sequence)
+		if (sequence) {
+			// value is kept but its precision is that of the new sequence
+			state -> shiftedValue = state -> value << sequence -> fracShift;
+
 			result = sequence -> funcs -> setPhase (state, state -> phase);
+		}
 	}
 
 	return result;
-- 
2.43.0


From bbda4fc7d1af7353235135498cb1a0bc3d2db0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:58 +0000
Subject: [PATCH 69/75] fix: call sample callback after data was set

---
 src/BKUnit.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 57ab169..88bf863 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -147,8 +147,6 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 					unit -> sample.sustainOffset = 0;
 					unit -> sample.sustainEnd    = 0;
 
-					BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
-
 					BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
 				}
 			}
@@ -197,6 +195,11 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 
 	if (res == 0) {
 		BKDataStateSetData (& unit -> sample.dataState, data);
+
+		// callback has to see the new data
+		if (type == BK_SAMPLE && data) {
+			BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
+		}
 	}
 
 	return res;
@@ -236,6 +239,9 @@ BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 
 		BKUnitClearSampleSustain (unit);
 	}
+	else if (type == BK_SAMPLE && event != BK_DATA_STATE_EVENT_DISPOSE) {
+		BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
+	}
 
 	return res;
 }
@@ -507,6 +513,11 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_PHASE: {
+			// callback may change the sample or its range
+			if (unit -> waveform == BK_SAMPLE) {
+				BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
+			}
+
 			if (unit -> waveform != BK_SAMPLE) {
 				value = BKClamp (value, 0, unit -> phase.count - 1);
 			}
@@ -522,7 +533,6 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				}
 
 				value = BKClamp (value, 0, unit -> sample.length - 1);
-				BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
 			}
 
 			unit -> phase.phase = value;
-- 
2.43.0


From 8c4a3d341b2884f8e2b2f140fa13d6bc6c2efad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 70/75] fix: keep sample phase in range if callback stops
 sample

---
 src/BKUnit.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 88bf863..a8c9803 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1146,6 +1146,16 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 
 		// callback has stopped the sample or has set other data
 		if (BKUnitCanRunSample (unit) == 0) {
+			// phase has to be valid if sample is continued later
+			if (unit -> waveform == BK_SAMPLE) {
+				if (unit -> sample.length > 0) {
+					BKUnitWrapSamplePhase (unit, 0, unit -> sample.length);
+				}
+				else {
+					unit -> phase.phase = 0;
+				}
+			}
+
 			return 1;
 		}
 	}
-- 
2.43.0


From 81a41a0f9303403f969e5ae2791264893f2a098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:48 +0000
Subject: [PATCH 71/75] fix: keep value of envelope in 64 bits when sliding
 from value outside its range

---
 src/BKSequence.c | 10 +++++-----
 src/BKSequence.h |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 9653f0b..5e739d5 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -271,11 +271,11 @@ static BKEnum BKSequenceFuncEnvelopeStep (BKSequenceState * state, BKEnum level)
 
 			if (phase -> steps) {
 				state -> steps = phase -> steps;
-				state -> endValue = phase -> value << sequence -> fracShift;
+				state -> endValue = (int64_t) phase -> value << sequence -> fracShift;
 				state -> delta = (state -> endValue - state -> shiftedValue) / (BKInt) phase -> steps;
 			}
 			else {
-				state -> shiftedValue = (phase -> value << sequence -> fracShift);
+				state -> shiftedValue = ((int64_t) phase -> value << sequence -> fracShift);
 				state -> steps = 0;
 				state -> offset ++;
 			}
@@ -303,7 +303,7 @@ static BKInt BKSequenceFuncEnvelopeSetPhase (BKSequenceState * state, BKEnum pha
 			state -> steps        = 0;
 			state -> delta        = 0;
 			state -> offset       = sequence -> length;
-			state -> shiftedValue = (state -> value << sequence -> fracShift);
+			state -> shiftedValue = ((int64_t) state -> value << sequence -> fracShift);
 			state -> endValue     = 0;
 			state -> phase        = BK_SEQUENCE_PHASE_MUTE;
 			break;
@@ -347,7 +347,7 @@ static BKInt BKSequenceFuncEnvelopeSetValue (BKSequenceState * state, BKInt valu
 	BKSequence * sequence = state -> sequence;
 
 	state -> value        = value;
-	state -> shiftedValue = (value << sequence -> fracShift);
+	state -> shiftedValue = ((int64_t) value << sequence -> fracShift);
 
 	if (state -> steps)
 		state -> delta = (state -> endValue - state -> shiftedValue) / state -> steps;
@@ -443,7 +443,7 @@ BKInt BKSequenceStateSetSequence (BKSequenceState * state, BKSequence * sequence
 
 		if (sequence) {
 			// value is kept but its precision is that of the new sequence
-			state -> shiftedValue = state -> value << sequence -> fracShift;
+			state -> shiftedValue = (int64_t) state -> value << sequence -> fracShift;
 
 			result = sequence -> funcs -> setPhase (state, state -> phase);
 		}
diff --git a/src/BKSequence.h b/src/BKSequence.h
index 5a4bfb2..3864610 100644
--- a/src/BKSequence.h
+++ b/src/BKSequence.h
@@ -119,11 +119,11 @@ struct BKSequenceState
 	BKSequenceState * nextState;
 	BKEnum            phase;
 	BKInt             steps;
-	BKInt             delta;
 	BKInt             offset;
 	BKInt             value;
-	BKInt             shiftedValue;
-	BKInt             endValue;
+	int64_t           delta;
+	int64_t           shiftedValue;
+	int64_t           endValue;
 };
 
 /**
-- 
2.43.0


From 261a800e4ae9e4961ed0bb3502d95be63407e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:05 +0000
Subject: [PATCH 72/75] fix: limit note to its range before it overflows

---
 src/BKTrack.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 3034b4d..8c47927 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -131,8 +131,8 @@ static void BKTrackUpdateUnitVolume (BKTrack * track)
 
 static void BKTrackUpdateUnitNote (BKTrack * track)
 {
-	BKInt note;
-	BKInt period;
+	int64_t note;
+	BKInt   period;
 
 	if (track -> unit.ctx == NULL)
 		return;
@@ -150,14 +150,19 @@ static void BKTrackUpdateUnitNote (BKTrack * track)
 
 	note += track -> pitch;
 
+	if (track -> waveform == BK_SAMPLE)
+		note += track -> samplePitch;
+
+	// may exceed the range of an integer
+	note = BKClamp (note, BK_MIN_NOTE << BK_FINT20_SHIFT, BK_MAX_NOTE << BK_FINT20_SHIFT);
+
 	if (track -> waveform != BK_SAMPLE) {
-		period = BKTonePeriodLookup (note, track -> unit.ctx -> sampleRate);
+		period = BKTonePeriodLookup ((BKInt) note, track -> unit.ctx -> sampleRate);
 		period /= BKMin (track -> unit.phase.count, BK_WAVE_MAX_LENGTH);
 		BKUnitSetAttr (& track -> unit, BK_PERIOD, period);
 	}
 	else {
-		note += track -> samplePitch;
-		period = BKLog2PeriodLookup (note);
+		period = BKLog2PeriodLookup ((BKInt) note);
 		BKUnitSetAttr (& track -> unit, BK_SAMPLE_PERIOD, period);
 	}
 }
-- 
2.43.0


From ce5c7e8121f2475784f8fb9d5caa66e05f8144b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:23 +0000
Subject: [PATCH 73/75] fix: multiply volume of instrument in 64 bits

---
 src/BKTrack.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 8c47927..196343b 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -82,10 +82,11 @@ static BKInt BKDividerStateTick (BKDividerState * dividerState)
 
 static void BKTrackUpdateUnitVolume (BKTrack * track)
 {
-	BKInt volume, volume0, volume1;
-	BKInt panning;
-	BKInt tremolo;
-	BKInt value;
+	BKInt   volume0, volume1;
+	int64_t volume;
+	int64_t panning;
+	BKInt   tremolo;
+	BKInt   value;
 
 	volume = BKSlideStateGetValue (& track -> volume);
 
-- 
2.43.0


From 1315b15933de5ecdea1bebceb435a48971e209c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:26 +0000
Subject: [PATCH 74/75] fix: limit depth of vibrato to range of notes

---
 src/BKTrack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 196343b..4ac5b8e 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -923,7 +923,7 @@ BKInt BKTrackSetEffect (BKTrack * track, BKEnum effect, void const * inValues, B
 		}
 		case BK_EFFECT_VIBRATO: {
 			steps      = BKClamp (values [0], 0, BK_TRACK_EFFECT_MAX_STEPS);
-			delta      = values [1];
+			delta      = BKClamp (values [1], -(BK_MAX_NOTE << BK_FINT20_SHIFT), BK_MAX_NOTE << BK_FINT20_SHIFT);
 			slideSteps = BKClamp (values [2], 0, BK_TRACK_EFFECT_MAX_STEPS);
 
 			BKSlideStateSetValueAndSteps (& track -> vibratoDelta, delta, slideSteps);
-- 
2.43.0


From 683af5da133c128f4b7413f6fdf58664d70c6c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:09 +0000
Subject: [PATCH 75/75] fix: restore number of phases when unit is reset

---
 src/BKUnit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index a8c9803..f78e28e 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1363,6 +1363,7 @@ void BKUnitReset (BKUnit * unit)
 	BKUnitClear (unit);
 
 	unit -> waveform    = 0;
+	unit -> phase.count = BK_SQUARE_PHASES;
 	unit -> phase.phase = 0;
 	unit -> time = unit -> ctx ? unit -> ctx -> deltaTime : 0;
 
-- 
2.43.0

