From 43b839d1f8758761ed5f50359a59274252b28a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 01/93] fix: zlocationRetrieve returns an unterminated time
 zone name when its length is a multiple of four

---
 heclib/heclib_c/src/Public/zlocationRetrieve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zlocationRetrieve.c b/heclib/heclib_c/src/Public/zlocationRetrieve.c
index 4f95b51..d138c28 100644
--- a/heclib/heclib_c/src/Public/zlocationRetrieve.c
+++ b/heclib/heclib_c/src/Public/zlocationRetrieve.c
@@ -201,7 +201,7 @@ int zlocationRetrieve(long long *ifltab, zStructLocation *locationStruct)
 		nwords = ztransfer->values1Number - count;
 		len = nwords * 4;
 		if (len > 0) {
-			locationStruct->timeZoneName = (char *)malloc(len + 8);
+			locationStruct->timeZoneName = (char *)calloc(len + 8, 1);
 			locationStruct->allocated[zSTRUCT_timeZoneName] = 1;
 			charInt ((void *)&ztransfer->values1[count], locationStruct->timeZoneName, len, len, 0, 1, 0);
 		}
-- 
2.43.0


From f6575638fca471b6a7962bd1b6288a7c70a2a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 02/93] fix: zwriteExisting mixes ints and longs when sizing an
 existing record

---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index b51104d..3dc5292 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -251,17 +251,18 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 	if ((info[zdssInfoKeys.kinfoValues3Number] == 0) && (ztransfer->values3Number > 0))				fileHeader[zdssFileKeys.knumberDataArea3]++;
 	numberInfo = zdssVals.infoSize + numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);
 
-	//  Compute original and new record sizes.
+	//  Compute original and new record sizes, in ints.
+	//  Each area starts on a long boundary, so count the whole longs that each one uses
 	originalSize =
-		(int)info[zdssInfoKeys.kinfoInternalHeadNumber] +
-		(int)info[zdssInfoKeys.kinfoHeader2Number] +
-		(int)info[zdssInfoKeys.kinfoUserHeadNumber] +
-		(int)info[zdssInfoKeys.kinfoAllocatedSize];
+		(numberLongsInInts((int)info[zdssInfoKeys.kinfoInternalHeadNumber]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoHeader2Number]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoUserHeadNumber]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoAllocatedSize])) * 2;
 	newSize =
-		ztransfer->internalHeaderNumber +
-		ztransfer->header2Number +
-		ztransfer->userHeaderNumber +
-		ztransfer->totalAllocatedSize;
+		(numberLongsInInts(ztransfer->internalHeaderNumber) +
+		numberLongsInInts(ztransfer->header2Number) +
+		numberLongsInInts(ztransfer->userHeaderNumber) +
+		numberLongsInInts(ztransfer->totalAllocatedSize)) * 2;
 
 
 	if (newSize > originalSize) {
@@ -286,13 +287,15 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 
 		//  Check that the old info and data areas are contiguous.  If so, we can reclaim their space
 		//  A rename op may have moved the info block
-		if ((ifltab[zdssKeys.kaddInfoLastPath] + (long long)(originalSize + numberInfo)) ==
-			(info[zdssInfoKeys.kinfoValues1Address] + info[zdssInfoKeys.kinfoAllocatedSize])) {
-			zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (originalSize + numberInfo));
+		longSize = numberLongsInInts(originalSize) + numberInfo;
+		if ((ifltab[zdssKeys.kaddInfoLastPath] + (long long)longSize) ==
+			(info[zdssInfoKeys.kinfoValues1Address] +
+			numberLongsInInts((int)info[zdssInfoKeys.kinfoAllocatedSize]))) {
+			zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], longSize);
 		}
 		else {
 			//  this would have been done in release space
-			fileHeader[zdssFileKeys.kdead] += (long long)(originalSize) + numberInfo;
+			fileHeader[zdssFileKeys.kdead] += (long long)longSize;
 		}
 
 		//  Update the version and expansionNumber values
-- 
2.43.0


From 14f3c36254f892946a46584783784fc573646f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 03/93] fix: labels of a small TIN are altered or lost by the
 padding meant for text headers

---
 heclib/heclib_c/src/Public/zspatialTinStore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zspatialTinStore.c b/heclib/heclib_c/src/Public/zspatialTinStore.c
index ffe88dd..275aa6a 100644
--- a/heclib/heclib_c/src/Public/zspatialTinStore.c
+++ b/heclib/heclib_c/src/Public/zspatialTinStore.c
@@ -192,7 +192,7 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	//  Labels (char) array
 	ztransfer->userHeaderNumber = numberIntsInBytes(tinStruct->pointLabelLen);
 	ztransfer->userHeader = (int *)calloc(ztransfer->userHeaderNumber + 2, 4);
-	ztransfer->header2Mode = 1;
+	ztransfer->userHeaderMode = 2;  //  Labels, not a text header; store as is, without padding
 	//  Need to be sure to copy char into in array, not cast and assign to header
 	 charInt (tinStruct->pointLabel, ztransfer->userHeader, tinStruct->pointLabelLen, (ztransfer->userHeaderNumber * 4), 1, 1, 0);
 
-- 
2.43.0


From 763beadefc584333ef1ecdfcfee2c465e327124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 04/93] fix: character notes of a regular time series shift
 when the window spans a block that is not in the file

---
 heclib/heclib_c/src/Internal/ztsRegReadBlock.c | 8 +++++---
 heclib/heclib_c/src/Internal/ztsRetrieveReg7.c | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
index 62508d8..cc3824c 100644
--- a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
@@ -192,6 +192,7 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 	int iposValues;
 	int iposQuality;
 	int iposNotes;
+	int iposCnotes;
 	int status;
 	int i;
 	int version;
@@ -382,6 +383,7 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 		iposValues = 0;
 		iposQuality = 0;
 		iposNotes = 0;
+		iposCnotes = 0;
 		*valueElementSizeRead = 0;
 		*qualityElementSize = 0;
 		*inoteElementSize = 0;
@@ -408,12 +410,12 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 				zsetUndefined(&notes[iposNotes], notesSizeRequested);
 				iposNotes += notesSizeRequested;
 			}
-			if ((sizeCNotesRemaning > 0) && (iposNotes < sizeCNotesRemaning)) {
-				cnotes[iposNotes++] = '\0';
+			if ((sizeCNotesRemaning > 0) && (iposCnotes < sizeCNotesRemaning)) {
+				cnotes[iposCnotes++] = '\0';
 			}
 		}
 		if (cnotes) {
-			*numberCnotes = iposNotes;
+			*numberCnotes = iposCnotes;
 		}
 		else {
 			*numberCnotes = 0;
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
index affb916..540952a 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
@@ -406,6 +406,8 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 					tss->inoteElementSize = inoteElementSize;
 				}
 				if (timeSeriesRecordSizes.tsCnotesLength) {
+					//  Values in blocks that are not in the file need an (empty) note also
+					timeSeriesRecordSizes.tsCnotesLength += numberToRead;
 					tss->cnotes = (char *)calloc((size_t)timeSeriesRecordSizes.tsCnotesLength, CHAR_SIZE);
 					if (!tss->cnotes) {
 						if (buffer) free(buffer);
@@ -640,8 +642,8 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 				charLong(&info[zdssInfoKeys.kinfoProgram], tss->programName, 0, zdssVals.numberProgram, 0, 1);
 				foundOne = 1;
 			} 
-			totalNumberCnotesRead += lengthCNotes;
 		}
+		totalNumberCnotesRead += lengthCNotes;
 
 
 		//  Increment block start date
-- 
2.43.0


From 1a36779b01f35be5b3e79b50341c20bd218e0b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 05/93] fix: undelete marks a record with a status that is not
 one of the record statuses

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 9d08a8b..368bc43 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -76,7 +76,7 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	if (boolUndelete) {
 		functionID = DSS_FUNCTION_zundelete_ID;
-		deleteStatus = (long long)REC_STATUS_VALID;
+		deleteStatus = (long long)REC_STATUS_PRIMARY;
 		readAction = REC_STATUS_DELETED;
 	}
 	else {
-- 
2.43.0


From 0590a49369b64aab702655f9f2ce741bb7dd0ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 06/93] fix: deleting a renamed record releases file space that
 belongs to other records

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 368bc43..41be8a8 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -209,14 +209,15 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 				endAddress1 = ifltab[zdssKeys.kaddInfoLastPath] + (long long)releasedAmount;
 				endAddress2 = info[zdssInfoKeys.kinfoValues1Address] +
 					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues1Number]) +
-					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues2Number]);
+					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues2Number]) +
+					numberLongsInInts((int)info[zdssInfoKeys.kinfoValues3Number]);
 				if (endAddress1 == endAddress2) {
 					zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], releasedAmount);
 				}
 				else {
-					//  Shouldn't have this happen
-					//fileHeader[zdssFileKeys.kdead] += releasedAmount;
-					zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], releasedAmount);
+					//  The info block is not next to the data (e.g., the record was renamed),
+					//  so what follows the info block belongs to other records
+					fileHeader[zdssFileKeys.kdead] += releasedAmount;
 				}
 			}
 			//  Decrement counters
-- 
2.43.0


From 41edcfb47d0dc20db34aaaaf51a0f6fe4ae616c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 07/93] fix: replacing irregular data drops values that come
 after the replaced period

---
 heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
index cc7f8c0..736f169 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
@@ -485,7 +485,6 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 		}
 
 		//  Now we have the start of the part to replace, copy the block to store
-		combinedTotal -= icountTotal;
 		for (i=0; i<combinedTotal; i++) {
 			if (icountStore < numberToStore) {
 				if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
-- 
2.43.0


From 911ce1704029e8c8bd0c62214e6c5883788f990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 08/93] fix: replacing irregular data shifts the character
 notes of the values that follow

---
 heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
index 736f169..90ead7f 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
@@ -529,11 +529,6 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 						icnotesPosOut += ispos;
 						icnotesPosToStore += ispos;
 					}
-					//  Count the characters in the read string and increment
-					if (cnotesReadLen > 0) {
-						ispos = copyLines(cdummy, (size_t)0, &cnotesRead[icnotesPosRead], (size_t)(cnotesReadLen - icnotesPosRead), 1);
-						icnotesPosRead += ispos;
-					}
 				}
 				icountTotal++;
 				icountStore++;
@@ -546,7 +541,6 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 		// Copy the remaining read data, if any
 		if (!boolToEndOfBlock) {
 			numberLeft = numberToStore + numberRead - icountTotal;
-			icnotesPosRead = 0;
 			for (i=0; i<numberLeft; i++) {
 				if (icountTotal >= combinedTotal) {
 					break;
-- 
2.43.0


From 1a9ae7bf085d7bbf40f52ce7621dff3f80557250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 09/93] fix: renaming a record that does not exist deletes the
 record at the new name

---
 heclib/heclib_c/src/Public/zrename.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 97396aa..710b7b4 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -156,6 +156,21 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		}
 	}
 	
+	//  Be sure the record to rename exists, before anything is removed
+	ifltab[zdssKeys.kaddInfoLastPath] = 0;
+	status = zcheckInternal(ifltab, oldPathname, 1);
+	if (zisError(status)) {
+		free(newPath);
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
+	}
+	if (status != STATUS_RECORD_FOUND) {
+		if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_GENERAL)) {
+			zmessage2(ifltab, ZRENAME_NOT_EXIST, oldPathname);
+		}
+		free(newPath);
+		return STATUS_RECORD_NOT_FOUND;
+	}
+
 	//  Be sure the new pathname does not already exist
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
 	status = zcheckInternal(ifltab, newPathname, 1);
-- 
2.43.0


From 49a8de9e00d620beb2f2304afaf5ec457afa06c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 10/93] fix: undelete brings back a record whose pathname is in
 use again

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 41be8a8..f41ee27 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -118,6 +118,20 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	}
 
 
+	if (boolUndelete) {
+		//  A record written since with the same pathname takes precedence over the deleted one
+		ifltab[zdssKeys.kaddInfoLastPath] = 0;
+		status = zcheckInternal(ifltab, pathname, REC_STATUS_VALID);
+		if (status == STATUS_RECORD_FOUND) {
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			return STATUS_RECORD_NOT_FOUND;
+		}
+		if (zisError(status)) {
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			return zerrorUpdate(ifltab, status, functionID);
+		}
+	}
+
 	//  Force the internals to be loaded during the check
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
 	status = zreadInfo(ifltab, pathname, readAction);
-- 
2.43.0


From e9679a9350f931a3789cef5e7568ca0356635c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 11/93] fix: storing a new record can unlink directory bins,
 losing the records they list

---
 heclib/heclib_c/src/Internal/zbinUpdate.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zbinUpdate.c b/heclib/heclib_c/src/Internal/zbinUpdate.c
index d3af688..7f7d239 100644
--- a/heclib/heclib_c/src/Internal/zbinUpdate.c
+++ b/heclib/heclib_c/src/Internal/zbinUpdate.c
@@ -232,6 +232,14 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 				jsize = zdssBinKeys.kbinSize + pathnameSize;
 				jsize += icount + 1;
 				//  Do we have enough space left in this bin?
+				if ((jsize >= isize) && (pathnameBin[isize-1] != 0)) {
+					//  No, and other bins follow this one (we are here to reuse space that
+					//  turned out not to fit).  Go to the next bin; don't lose those bins.
+					ifltab[zdssKeys.kbinAddCurrent] = pathnameBin[isize-1];
+					ifltab[zdssKeys.kbinWithSpace] = 0;
+					boolUseRecovered = 0;
+					break;
+				}
 				if (jsize >= isize) {
 					//  No, create a new bin
 					if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
-- 
2.43.0


From d23f71c121805340893abc03b7c5137c5a2fee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 12/93] fix: memory for a directory bin is not resized when
 squeezing changes the bin size

---
 heclib/heclib_c/src/Internal/zpermRead.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zpermRead.c b/heclib/heclib_c/src/Internal/zpermRead.c
index 3944d29..f5ac60a 100644
--- a/heclib/heclib_c/src/Internal/zpermRead.c
+++ b/heclib/heclib_c/src/Internal/zpermRead.c
@@ -1,5 +1,6 @@
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "heclib7.h"
@@ -39,6 +40,7 @@ int zpermRead (long long *ifltab)
 
 	int status;
 	long long *fileHeader;
+	long long *memory;
 	long long iaddress = 0;
 
 
@@ -84,6 +86,14 @@ int zpermRead (long long *ifltab)
 	//  The file header we just read will have the sizes
 
 	//  Pathname Bin
+	//  Did the bin size change since we allocated memory for it (e.g., the file was squeezed)?
+	if (ifltab[zdssKeys.kpathBin] != 0) {
+		memory = (long long *)ifltab[zdssKeys.kpathBin] - 2L;
+		if (memory[1] != fileHeader[zdssFileKeys.kbinSize]) {
+			free(memory);
+			ifltab[zdssKeys.kpathBin] = 0;
+		}
+	}
 	if (ifltab[zdssKeys.kpathBin] == 0) {
 		if ((fileHeader[zdssFileKeys.kbinSize] < 20) || (fileHeader[zdssFileKeys.kbinSize] >1000)){
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zpermRead_ID, zdssErrorCodes.INVALID_HEADER_PARAMETER,	0,
-- 
2.43.0


From 88ba41db3696cc5635d328a524c7420893a1bb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 13/93] fix: copying a record pads its user header, altering
 the labels of a small TIN

---
 heclib/heclib_c/src/Internal/zcopyRecordInternal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
index 4685e94..a079dff 100644
--- a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
+++ b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
@@ -247,6 +247,7 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 								pathnameTo, "Allocating ztransfer pathname");
 	}
 	ztransfer->pathnameLength = (int)strlen(ztransfer->pathname);
+	ztransfer->userHeaderMode = 2;  //  Copy the user header as is, without padding
 
 	//  Now lock the file we are writing to
 	if (!boolDuplicate) {
-- 
2.43.0


From 2f7322c0eaa5512f8fc1543414aeacdf32ef4615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 14/93] fix: keep the lock for the whole operation when
 advisory mode already holds it

zlockActive recorded the lock level only when it took the lock itself.  In
advisory mode the lock is kept between operations, so the level stayed 0 (or
that of an inner call) and the level 0 unlock of the multi-user check, or an
inner low level unlock, released the lock in the middle of an operation once
another program asked for it: the write was then refused as 'not locked'.
---
 heclib/heclib_c/src/Internal/zlockActive.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zlockActive.c b/heclib/heclib_c/src/Internal/zlockActive.c
index d183c3a..cb56029 100644
--- a/heclib/heclib_c/src/Internal/zlockActive.c
+++ b/heclib/heclib_c/src/Internal/zlockActive.c
@@ -380,6 +380,12 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 					zpermRead(ifltab);
 				}
 			}
+			else if (ifltab[zdssKeys.klockLevel] < level) {
+				//  The file is still locked from a previous operation (advisory mode);
+				//  this function now controls the lock, so that neither a lower level
+				//  nor a multi-user access check will release it before it completes
+				ifltab[zdssKeys.klockLevel] = level;
+			}
 			//  Save PID on first write
 			if (ifltab[zdssKeys.kpidMyAddress] == 0) {
 				zpidWrite(ifltab);
-- 
2.43.0


From e62ba67cae6e6d92854d220b421dbe9e51f39964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 15/93] fix: copying a time series record compares its D and E
 parts at the wrong offset

zcopyRecord located the D and E parts of each pathname with the part positions
of the other one, so records whose A to C parts have different lengths were
taken to differ: the copy then merged into an existing record instead of
replacing it.
---
 heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c b/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
index c347f96..ba7b314 100644
--- a/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
+++ b/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
@@ -57,7 +57,7 @@ int zcopyRecord(long long *ifltabFrom, long long *ifltabTo, const char *pathname
 	int lenPartE;
 	int ipos;
 	int lenPartsFrom;
-	int startFrom;
+	int startTo;
 	int lenPartsTo;
 	int vdiOverwrite = 0;
 	int elevCopy = 0;
@@ -116,15 +116,15 @@ int zcopyRecord(long long *ifltabFrom, long long *ifltabTo, const char *pathname
 			//  If not, just do the long way (read and write) instead of internal copy
 			//  Long way should take care of any issues
 			if (boolInternalCopy) {
-				lenPartsFrom = positions[5] - positions[3];
-				startFrom = positions[3];
-				zpathnamePartPositions(pathnameFrom, strlen(pathnameFrom), positions, 7);
 				lenPartsTo = positions[5] - positions[3];
+				startTo = positions[3];
+				zpathnamePartPositions(pathnameFrom, strlen(pathnameFrom), positions, 7);
+				lenPartsFrom = positions[5] - positions[3];
 				if (lenPartsFrom != lenPartsTo) {
 					boolInternalCopy = 0;
 				}
 				else {
-					if (strncmp(&pathnameFrom[startFrom], &pathnameTo[positions[3]], lenPartsFrom) != 0) {
+					if (strncmp(&pathnameFrom[positions[3]], &pathnameTo[startTo], lenPartsFrom) != 0) {
 						boolInternalCopy = 0;
 					}
 				}
-- 
2.43.0


From 973afcf2498b7096c93c1fbc182ef0b927329646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 16/93] fix: undelete takes over the space of another record
 whose pathname has the same hash

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index f41ee27..90bca1d 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -140,6 +140,15 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 		return zerrorUpdate(ifltab, status, functionID);
 	}
 
+	if (boolUndelete && (status == STATUS_OKAY)) {
+		//  The space may have been reused by another record whose pathname has the same hash
+		info = (long long *)ifltab[zdssKeys.kinfo];
+		if ((info[zdssInfoKeys.kinfoStatus] != REC_STATUS_DELETED) ||
+			!zpathnameCompare(pathname, &info[zdssInfoKeys.kinfoPathname], (size_t)ifltab[zdssKeys.klenLastPath])) {
+			status = STATUS_RECORD_NOT_FOUND;
+		}
+	}
+
 	if (status == STATUS_OKAY) {
 		//  If undeleting, make sure reclamation is off, otherwise this space
 		//  could be used by something else
-- 
2.43.0


From 66d5c7d6bd1550f7bb91778a8a893592086348df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 17/93] fix: catalog follows a garbage block address when
 another program adds a record

An empty bin ends the catalog, but the next block address was then read from
that bin on disk.  If another program wrote to the bin in between, its hash was
used as the address and the file was reported as damaged.
---
 heclib/heclib_c/src/Internal/zcatalogInternal.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index 6203871..9d38066 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -465,6 +465,11 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 			countTotal = status;
 			break;
 		}
+		if (jcount < (int)fileHeader[zdssFileKeys.kbinsPerBlock]) {
+			//  Ended with an empty bin, so there are no more blocks.  (Do not read the
+			//  next block address from that bin, as another program may have written to it)
+			break;
+		}
 		status = zget(ifltab, binAddress, (int *)pathnameBin, 1, 2);
 		if (status != 0) {
 			countTotal = status;
-- 
2.43.0


From 0ee697e6b683925c02cfd1b74c0e190bd3cc6dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 18/93] fix: an operation that stops part way releases the lock
 without saving the changed file header

---
 heclib/heclib_c/src/Internal/zlockActive.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zlockActive.c b/heclib/heclib_c/src/Internal/zlockActive.c
index cb56029..a991db0 100644
--- a/heclib/heclib_c/src/Internal/zlockActive.c
+++ b/heclib/heclib_c/src/Internal/zlockActive.c
@@ -416,7 +416,10 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 
 			//  If we are in an exclusive write lock mode, don't unlock file
 			if (ifltab[zdssKeys.klocked] == 1)  {
-				if (flush && ifltab[zdssKeys.kwritingNow]) {
+				//  What was written goes with the changed header, flush or not
+				//  (e.g., an operation that stopped part way); once unlocked, the
+				//  header on disk is the one that counts
+				if (ifltab[zdssKeys.kwritingNow] && (flush || !ifltab[zdssKeys.kerrorSevere])) {
 					zpermWrite(ifltab);
 					ifltab[zdssKeys.kwritingNow] = 0;
 				}
@@ -460,7 +463,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 			}
 		}
 		else {
-			if (flush && ifltab[zdssKeys.kwritingNow]) {
+			if (ifltab[zdssKeys.kwritingNow] && (flush || !ifltab[zdssKeys.kerrorSevere])) {
 				zpermWrite(ifltab);
 				ifltab[zdssKeys.kwritingNow] = 0;
 			}
-- 
2.43.0


From 9da9887b97727359039620e38b17805e5b4bcf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 19/93] fix: sorted catalog uses a sort list that does not
 match the records another program changed

---
 .../heclib_c/src/Internal/zcatInternalSort.c  | 83 ++++++++++++-------
 .../src/Internal/zsetCatalogSortAddresses.c   | 17 ++++
 2 files changed, 72 insertions(+), 28 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 986483d..8565fd5 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -89,6 +89,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	int status;
 	int sortListStatus;
 	int icount;
+	int *order;
 	long long* sortAddresses;
 	long long *fileHeader;
 	char cline[400];
@@ -156,32 +157,61 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 									zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sortAddresses");
 		}
 		status = zgetCatalogSortAddresses(ifltab, sortAddresses, numberPathnames);
-		if (status < 0) {
+		//  Match the sort list to the pathnames.  It must have all of them; another
+		//  process may have added or deleted records after the list was saved
+		order = (int *)calloc((size_t)numberPathnames, sizeof(int));
+		if (!order) {
+			status = -1;
+		}
+		for (i=0; (i<numberPathnames) && (status == 0); i++) {
+			for (j=0; j<numberPathnames; j++) {
+				if (sortAddresses[i] == nonSortedStruct->sortAddresses[j]) {
+					order[i] = j;
+					break;
+				}
+			}
+			if (j == numberPathnames) {
+				status = -1;
+			}
+		}
+		if (status != 0) {
 			//  Very rare
 			sortListStatus = 0;
 			free(sortAddresses);
 			sortAddresses = 0;
+			if (order) free(order);
+			//  Start over for the full sort
+			zstructFree(nonSortedStruct);
+			nonSortedStruct = zstructCatalogNew();
+			if (!nonSortedStruct) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+										zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+										zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for nonSortedStruct");
+			}
+			if (sortedStruct) {
+				nonSortedStruct->boolIncludeDates = sortedStruct->boolIncludeDates;
+				nonSortedStruct->statusWanted = sortedStruct->statusWanted;
+				nonSortedStruct->typeWantedStart = sortedStruct->typeWantedStart;
+				nonSortedStruct->typeWantedEnd = sortedStruct->typeWantedEnd;
+			}
 		}
 		else {
 			if ((catalogHandle > 0) || (fortranUnit > 0)) {
 				icount = 0;
-				for (i=0; i<nonSortedStruct->numberPathnames; i++) {
-					for (j=0; j<numberPathnames; j++) {
-						if (sortAddresses[i] == nonSortedStruct->sortAddresses[j]) {
-							if (catalogHandle) {
-								status = writeBytes(catalogHandle, nonSortedStruct->pathnameList[j], (unsigned int)strlen(nonSortedStruct->pathnameList[j]));
-								if (status < 0) {
-									perror("Attempting to write pathname ");
-									if (nonSortedStruct) zstructFree(nonSortedStruct);
-									nonSortedStruct = 0;
-									return status;
-								}
-								status = writeBytes(catalogHandle, "\n", (size_t)1);
-							}
-							icount++;
-							break;
+				for (i=0; i<numberPathnames; i++) {
+					j = order[i];
+					if (catalogHandle) {
+						status = writeBytes(catalogHandle, nonSortedStruct->pathnameList[j], (unsigned int)strlen(nonSortedStruct->pathnameList[j]));
+						if (status < 0) {
+							perror("Attempting to write pathname ");
+							if (nonSortedStruct) zstructFree(nonSortedStruct);
+							nonSortedStruct = 0;
+							free(order);
+							return status;
 						}
+						status = writeBytes(catalogHandle, "\n", (size_t)1);
 					}
+					icount++;
 				}
 			}
 			if (sortedStruct) {
@@ -204,21 +234,18 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 					}
 				}
 				icount = 0;
-				for (i=0; i<nonSortedStruct->numberPathnames; i++) {
-					for (j=0; j<numberPathnames; j++) {
-						if (sortAddresses[i] == nonSortedStruct->sortAddresses[j]) {
-							sortedStruct->pathnameList[icount] = nonSortedStruct->pathnameList[j];
-							nonSortedStruct->pathnameList[j] = 0;
-							if (sortedStruct->boolIncludeDates) {
-								sortedStruct->startDates[icount] = nonSortedStruct->startDates[j];
-								sortedStruct->endDates[icount]   = nonSortedStruct->endDates[j];
-							}
-							icount++;
-							break;
-						}
+				for (i=0; i<numberPathnames; i++) {
+					j = order[i];
+					sortedStruct->pathnameList[icount] = nonSortedStruct->pathnameList[j];
+					nonSortedStruct->pathnameList[j] = 0;
+					if (sortedStruct->boolIncludeDates) {
+						sortedStruct->startDates[icount] = nonSortedStruct->startDates[j];
+						sortedStruct->endDates[icount]   = nonSortedStruct->endDates[j];
 					}
+					icount++;
 				}
 			}
+			free(order);
 			if (sortAddresses) {
 				free(sortAddresses);
 				sortAddresses = 0;
diff --git a/heclib/heclib_c/src/Internal/zsetCatalogSortAddresses.c b/heclib/heclib_c/src/Internal/zsetCatalogSortAddresses.c
index c2c48ec..586202e 100644
--- a/heclib/heclib_c/src/Internal/zsetCatalogSortAddresses.c
+++ b/heclib/heclib_c/src/Internal/zsetCatalogSortAddresses.c
@@ -70,6 +70,8 @@ int zsetCatalogSortAddresses(long long* ifltab, long long* sortAddresses, int so
 	long long address;
 	int boolDoSave;
 	int boolWriteState;
+	long long numberNewWrites;
+	long long numberDeletes;
 	long long *fileHeader;
 
 
@@ -133,6 +135,9 @@ int zsetCatalogSortAddresses(long long* ifltab, long long* sortAddresses, int so
 		return STATUS_NO_OP;
 	}
 
+	numberNewWrites = fileHeader[zdssFileKeys.kcatSortNewWrites];
+	numberDeletes = fileHeader[zdssFileKeys.kcatSortDeletes];
+
 	//  Lock the file if we are in a multi-user access mode
 	//  And read the file header
 	status =  zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
@@ -142,6 +147,18 @@ int zsetCatalogSortAddresses(long long* ifltab, long long* sortAddresses, int so
 	}
 
 
+	//  Did another process add or delete records since the catalog was made?
+	//  If so, these are not the addresses of the records in the file
+	if ((sortAddressesLen != fileHeader[zdssFileKeys.knumberRecords]) ||
+		(numberNewWrites != fileHeader[zdssFileKeys.kcatSortNewWrites]) ||
+		(numberDeletes != fileHeader[zdssFileKeys.kcatSortDeletes])) {
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		if (!boolWriteState) {
+			zcheckAccessReset(ifltab, 0, 0);
+		}
+		return STATUS_NO_OP;
+	}
+
 	if (((int)fileHeader[zdssFileKeys.kcatSortStatus] > 0) && ((int)fileHeader[zdssFileKeys.kcatSortSize] >= (sortAddressesLen + 2))) {
 		//  We can re-write the array in place
 		//  Note:  fileHeader[zdssFileKeys.kcatSortSize] is not necessarily == sortAddressesLen
-- 
2.43.0


From ff620598b4b15b5aa66cab10bcb2d8e049bc72af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 20/93] fix: the file check reports damage after another
 program has written to the file

---
 heclib/heclib_c/src/Public/zcheckFile.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zcheckFile.c b/heclib/heclib_c/src/Public/zcheckFile.c
index 30f09c1..856e8c8 100644
--- a/heclib/heclib_c/src/Public/zcheckFile.c
+++ b/heclib/heclib_c/src/Public/zcheckFile.c
@@ -55,6 +55,15 @@ int zcheckFile(long long *ifltab)
 	*/
 
 
+	//  Check the file as it is now; the header in memory
+	//  may be from before another process wrote to the file
+	if (!ifltab[zdssKeys.kwritingNow]) {
+		istat = zpermRead(ifltab);
+		if (zisError(istat)) {
+			return istat;
+		}
+	}
+
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	zresetProgress(zhandle(ifltab), fileHeader[zdssFileKeys.knumberRecords]);
 	zprogress.handle = zhandle(ifltab);
-- 
2.43.0


From 0f412cf6feecb33f8fd1d5b042561c5ef9e8e561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 21/93] fix: squeeze replaces the file under other programs
 that have it open

---
 heclib/heclib_c/src/Public/zsqueeze7.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index 0b76668..edb4344 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -131,7 +131,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 	if (version > 70300) {
 		status = zlockPassive(ifltab, LOCKING_LOCK_TEST, LOCKING_ACCESS_READ);
 		//  If status > 0, another process is accessing file and we cannot squeeze it
-		if (zisError(status)) {
+		if (status != 0) {
 			//  Cannot get exclusive access
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID, zdssErrorCodes.CANNOT_SQUEEZE,
 				status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "",
@@ -160,6 +160,8 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 	status = zlockActive(ifltab, LOCKING_LEVEL_SUPER, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
 	if (zisError(status)) {
 		//  Cannot get exclusive access
+		ifltab[zdssKeys.kmultiUserAccess] = access;
+		zpidUpdate(ifltab);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID, zdssErrorCodes.CANNOT_SQUEEZE,
 								status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "",
 								"File in use by another process");
-- 
2.43.0


From 7c2041f132577f3f44ef06cbed7e8ca3f7aaf2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 22/93] fix: a program that opened a file for reading only is
 not seen by programs that need exclusive access

---
 heclib/heclib_c/src/System/zlockdss.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/System/zlockdss.c b/heclib/heclib_c/src/System/zlockdss.c
index 6af1524..6386953 100644
--- a/heclib/heclib_c/src/System/zlockdss.c
+++ b/heclib/heclib_c/src/System/zlockdss.c
@@ -171,6 +171,8 @@ int zlockDss (long long *ifltab, int ihandle, int mode, long long wordAddress, i
 
 #include <unistd.h>
 #include <stdint.h>
+#include <errno.h>
+#include <fcntl.h>
 
 void testLock(long long* ifltab, int ihandle)
 {
@@ -202,6 +204,7 @@ int zlockDss(long long *ifltab, int ihandle, int mode, long long wordAddress, in
 	int status;
 	char messageString[90];
 	int boolDEBUG = 0;
+	struct flock fileLock = { 0 };
 
 
 	address = wordAddress * 8;
@@ -235,10 +238,25 @@ int zlockDss(long long *ifltab, int ihandle, int mode, long long wordAddress, in
 	/*   Lock the record.  If already locked, return with status != 0 */
 	else if (mode == 2) {
 		status = lockf(ihandle, F_TLOCK, numberBytes);
+		if ((status != 0) && (errno == EBADF)) {
+			//  The file is open for reading only, where only a shared lock is allowed.
+			//  It also tells other processes that we are accessing the file.
+			fileLock.l_type = F_RDLCK;
+			fileLock.l_whence = SEEK_CUR;
+			fileLock.l_len = numberBytes;
+			status = fcntl(ihandle, F_SETLK, &fileLock);
+		}
 	}
 	/*   Test to see if the record is already locked (but do not lock!) */
 	else if (mode == 3) {
-		status = lockf(ihandle, F_TEST, numberBytes);
+		//  (F_TEST of lockf does not see the shared lock of a process that only reads)
+		fileLock.l_type = F_WRLCK;
+		fileLock.l_whence = SEEK_CUR;
+		fileLock.l_len = numberBytes;
+		status = fcntl(ihandle, F_GETLK, &fileLock);
+		if ((status == 0) && (fileLock.l_type != F_UNLCK)) {
+			status = STATUS_NOT_OKAY;
+		}
 	}
 
 	if (zmessageLevel(ifltab, MESS_METHOD_LOCKING_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
-- 
2.43.0


From 650ed533714d5813305738f0dcd85a2b38a7cc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 23/93] fix: squeeze drops what other programs wrote since this
 handle last read the file header

---
 heclib/heclib_c/src/Internal/zpidWrite.c | 4 +++-
 heclib/heclib_c/src/Public/zsqueeze7.c   | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zpidWrite.c b/heclib/heclib_c/src/Internal/zpidWrite.c
index cbc76f7..0ef457a 100644
--- a/heclib/heclib_c/src/Internal/zpidWrite.c
+++ b/heclib/heclib_c/src/Internal/zpidWrite.c
@@ -141,7 +141,9 @@ void zpidUpdate(long long *ifltab)
 
 	boolLocked = (int)ifltab[zdssKeys.klocked];
 	if (boolLocked == 0) {
-		status = zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
+		//  Get the current file header with the lock, as the lock is
+		//  kept after this if we are changing to exclusive access
+		status = zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 		if (status != 0) {
 			//  Cannot do it.
 			return;
diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index edb4344..5940c7e 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -154,10 +154,11 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 
 	 //  We will squeeze
 
-	//  Put the file in exclusive access
+	//  Put the file in exclusive access, and get the current file header,
+	//  as another process may have written to the file since we read it
 	ifltab[zdssKeys.kmultiUserAccess] = EXCLUSIVE_ACCESS;
 	zpidUpdate(ifltab);
-	status = zlockActive(ifltab, LOCKING_LEVEL_SUPER, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
+	status = zlockActive(ifltab, LOCKING_LEVEL_SUPER, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 	if (zisError(status)) {
 		//  Cannot get exclusive access
 		ifltab[zdssKeys.kmultiUserAccess] = access;
-- 
2.43.0


From 9f7164d7d20308386633020669a695bc6229c96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 24/93] fix: retrieving a TIN or paired data record whose
 header counts disagree with its arrays reads out of bounds

---
 heclib/heclib_c/src/Public/zpdRetrieve.c       | 18 ++++++++++++++++++
 .../heclib_c/src/Public/zspatialTinRetrieve.c  | 13 +++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zpdRetrieve.c b/heclib/heclib_c/src/Public/zpdRetrieve.c
index 4e28509..4678730 100644
--- a/heclib/heclib_c/src/Public/zpdRetrieve.c
+++ b/heclib/heclib_c/src/Public/zpdRetrieve.c
@@ -306,6 +306,24 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 		}
 	}
 
+	//  The counts in the header must agree with the arrays that were read before any is used
+	wordSize = (ztransfer->dataType == DATA_TYPE_PDD) ? 2 : 1;
+	if ((ztransfer->internalHeader[INT_HEAD_pdNumberOrdinates] < 0) ||
+		(ztransfer->internalHeader[INT_HEAD_pdNumberCurves] < 0) ||
+		(ztransfer->internalHeader[INT_HEAD_pdLabelsLength] < 0) ||
+		((ztransfer->header2Number > 0) &&
+		 (ztransfer->internalHeader[INT_HEAD_pdLabelsLength] > ((long long)ztransfer->header2Number * 4))) ||
+		(boolReadEntire &&
+		 ((((long long)ztransfer->internalHeader[INT_HEAD_pdNumberOrdinates] * wordSize) > ztransfer->values1Number) ||
+		  (((long long)ztransfer->internalHeader[INT_HEAD_pdNumberOrdinates] *
+			(long long)ztransfer->internalHeader[INT_HEAD_pdNumberCurves]) > (ztransfer->values2Number / wordSize))))) {
+		status = zerrorProcessing(ifltab, DSS_FUNCTION_zpdRetrieve_ID,
+			zdssErrorCodes.INVALID_RECORD_HEADER, ztransfer->dataType,
+			(long long)ztransfer->internalHeaderNumber, zdssErrorSeverity.WARNING, pds->pathname, "");
+		zstructFree(ztransfer);
+		return status;
+	}
+
 	//  Determine if we need to convert the data size
 	if (retrieveSizeFlag == 0) {
 		if (ztransfer->dataType == DATA_TYPE_PD) {
diff --git a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
index 59d774d..8035cfa 100644
--- a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
@@ -129,6 +129,19 @@ int zspatialTinRetrieve(long long *ifltab, zStructSpatialTin *tinStruct, int boo
 		zswitchInts(ztransfer->internalHeader, ztransfer->internalHeaderNumber);
 	}
 
+	//  The counts in the header must agree with the arrays that were read before any is used
+	if ((ztransfer->internalHeaderNumber < 12) || (ztransfer->header2Number < 1) || !ztransfer->header2 ||
+		(ztransfer->internalHeader[0] < 0) || (ztransfer->internalHeader[1] < 0) || (ztransfer->internalHeader[2] < 0) ||
+		(ztransfer->values1 && (ztransfer->values1Number > 0) && ((ztransfer->values1Number / 3) < ztransfer->internalHeader[0])) ||
+		(ztransfer->values2 && (ztransfer->values2Number > 0) && ((ztransfer->values2Number / 3) < ztransfer->internalHeader[0])) ||
+		(ztransfer->values3 && (ztransfer->values3Number > 0) && (ztransfer->values3Number < ztransfer->internalHeader[1]))) {
+		status = zerrorProcessing(ifltab, DSS_FUNCTION_zspatialTinRetrieve_ID,
+			zdssErrorCodes.INVALID_RECORD_HEADER, ztransfer->dataType,
+			(long long)ztransfer->internalHeaderNumber, zdssErrorSeverity.WARNING, tinStruct->pathname, "");
+		zstructFree(ztransfer);
+		return status;
+	}
+
 
 	//  Header 1, basic info
 	tinStruct->numberPoints = ztransfer->internalHeader[0];
-- 
2.43.0


From 200f89d79d782bc7c085163df115b0f92cafac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 25/93] fix: after a severe error with messages off, calls on
 the file return success

---
 heclib/heclib_c/src/Internal/zerrorProcessing.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zerrorProcessing.c b/heclib/heclib_c/src/Internal/zerrorProcessing.c
index ec6ba35..8f3f87c 100644
--- a/heclib/heclib_c/src/Internal/zerrorProcessing.c
+++ b/heclib/heclib_c/src/Internal/zerrorProcessing.c
@@ -378,6 +378,10 @@ int zerrorProcessing(long long *ifltab, int functionID, int errorNumber, int sta
 
 	//  Encode the error information into a single int
 	errorCode = zerrorEncode(severity, 0, functionID, errorNumber, status);
+	if (ifltab[zdssKeys.kerrorSevere] && (ifltab[zdssKeys.kerrorCode] == 0)) {
+		//  Following calls for this file return this code (regardless of message level)
+		ifltab[zdssKeys.kerrorCode] = errorCode;
+	}
 	if (boolUseErrorStruct) {
 		zdssLastError.errorCode = errorCode;
 		if (zdssLastError.severity >= zdssErrorSeverity.MEMORY_ERROR) {
-- 
2.43.0


From f29f18d65edf5975309802dbaa4e6fca65102edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 26/93] fix: a failed write of a record's arrays leaves the
 file locked

---
 heclib/heclib_c/src/Internal/zwriteInternal.c | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteInternal.c b/heclib/heclib_c/src/Internal/zwriteInternal.c
index 04f48e3..19d31d4 100644
--- a/heclib/heclib_c/src/Internal/zwriteInternal.c
+++ b/heclib/heclib_c/src/Internal/zwriteInternal.c
@@ -370,7 +370,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		}		
 		status = zputBuff(ifltab, info[zdssInfoKeys.kinfoInternalHeadAddress], ztransfer->internalHeader,
 			ztransfer->internalHeaderNumber, 1, bufferAction, bufferControl, buffer);
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) {
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		}
 	}
 
 	if ((ztransfer->header2Number > 0) && ztransfer->header2) {
@@ -379,7 +382,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		}
 		status = zputBuff(ifltab, info[zdssInfoKeys.kinfoHeader2Address], ztransfer->header2,
 			ztransfer->header2Number, 1, bufferAction, bufferControl, buffer);
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) {
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		}
 	}
 
 	if ((ztransfer->userHeaderNumber > 0) && ztransfer->userHeader) {
@@ -388,7 +394,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		}
 		status = zputBuff(ifltab, info[zdssInfoKeys.kinfoUserHeadAddress], ztransfer->userHeader,
 			ztransfer->userHeaderNumber, 1, bufferAction, bufferControl, buffer);
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) {
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		}
 	}
 
 	//  Write data values
@@ -408,7 +417,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 			status = zputBuff(ifltab, info[zdssInfoKeys.kinfoValues1Address], ztransfer->values1,
 				ztransfer->values1Number, 1, bufferAction, bufferControl, buffer);
 		}
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) {
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		}
 	}
 
 	if ((ztransfer->values2Number > 0) && ztransfer->values2) {
@@ -427,7 +439,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 			status = zputBuff(ifltab, info[zdssInfoKeys.kinfoValues2Address], ztransfer->values2,
 				ztransfer->values2Number, 1, bufferAction, bufferControl, buffer);
 		}
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) {
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		}
 	}
 
 	if ((ztransfer->values3Number > 0) && ztransfer->values3) {
@@ -446,7 +461,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 			status = zputBuff(ifltab, info[zdssInfoKeys.kinfoValues3Address], ztransfer->values3,
 				ztransfer->values3Number, 1, bufferAction, bufferControl, buffer);
 		}
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) {
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		}
 	}
 
 	//  If more space is allocated than written, don't bother writing this area
@@ -463,6 +481,7 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		}
 	}
 	if (zisError(status)) {
+		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
 	}
 
-- 
2.43.0


From 1c97237e1ee3a6f736e689bfd591dcd56a5c584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 27/93] fix: space at the end of the file can be handed out
 twice after a writer is killed

---
 heclib/heclib_c/src/Internal/zgetFileSpace.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zgetFileSpace.c b/heclib/heclib_c/src/Internal/zgetFileSpace.c
index b5fdef2..8eb084b 100644
--- a/heclib/heclib_c/src/Internal/zgetFileSpace.c
+++ b/heclib/heclib_c/src/Internal/zgetFileSpace.c
@@ -128,6 +128,14 @@ long long zgetFileSpace(long long *ifltab, int sizeNeeded, int boolReclaimedOK,
 		address = fileHeader[zdssFileKeys.kfileSize];
 		fileHeader[zdssFileKeys.kfileSize] += sizeNeeded;
 		*atEOF = 1;
+		//  Extend the file and save the new file size now, before anything refers to this space.
+		//  If this program ends before it writes the space or the file header, the space must be
+		//  readable and not be given out again.
+		//  (When the file is being created, the header is written after the space is allocated.)
+		if (fileHeader[zdssFileKeys.kaddFirstBin] > 0) {
+			zwriteEOF(ifltab);
+			zput(ifltab, zdssFileKeys.kfileSize, (int *)&fileHeader[zdssFileKeys.kfileSize], 1, 2);
+		}
 	}
 
 	if (zmessageLevel(ifltab, MESS_METHOD_GET_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
-- 
2.43.0


From 7a5498decabee089eefe450d08121536663fd7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 28/93] fix: a writer killed while adding a directory bin makes
 other records unreachable

---
 heclib/heclib_c/src/Internal/zbinNew.c    | 102 +++++++++++-----------
 heclib/heclib_c/src/Internal/zbinUpdate.c |   5 +-
 2 files changed, 53 insertions(+), 54 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zbinNew.c b/heclib/heclib_c/src/Internal/zbinNew.c
index 3851e8e..fe85677 100644
--- a/heclib/heclib_c/src/Internal/zbinNew.c
+++ b/heclib/heclib_c/src/Internal/zbinNew.c
@@ -59,6 +59,38 @@ int zbinNew(long long *ifltab)
 
 	status = STATUS_OKAY;
 
+	//  If no empty bins remain in this block, write a new block of pathname bins at the end of
+	//  the file, before using it.  (A "block" will contain many (e.g., 32) pathname bins together)
+	//  The block is written, then added to the chain of blocks and recorded in the file header, so
+	//  that the file is consistent even if this program ends before we are done.
+	isize = (int)fileHeader[zdssFileKeys.kbinSize];
+	if (fileHeader[zdssFileKeys.kbinsRemainInBlock] <= 0) {
+		if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
+			zmessageDebug(ifltab, DSS_FUNCTION_zbinNew_ID, "Writing new block of pathname bins at end of file", "");
+		}
+		//  One extra word at the end of the bin block to point to the next block
+		blockSize = (int)(fileHeader[zdssFileKeys.kbinSize] * fileHeader[zdssFileKeys.kbinsPerBlock]) + 1;
+		newBinAddress = zgetFileSpace(ifltab, blockSize, 0, &atEOF);
+		status = zput(ifltab, newBinAddress, (int *)&izero, -blockSize, 2);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+		}
+		//  Write the EOF flag
+		if (atEOF) {
+			status = zwriteEOF(ifltab);
+			if (zisError(status)) {
+				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+			}
+		}
+		//  Set the address of this block in the last word of the previous block
+		status = zput(ifltab, fileHeader[zdssFileKeys.kaddNextEmptyBin], (int *)&newBinAddress, 1, 2);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+		}
+		fileHeader[zdssFileKeys.kaddNextEmptyBin] = newBinAddress;
+		fileHeader[zdssFileKeys.kbinsRemainInBlock] = fileHeader[zdssFileKeys.kbinsPerBlock];
+	}
+
 	//  Get the memory location of the pathname bin for this file
 	pathnameBin = (long long *)ifltab[zdssKeys.kpathBin];
 	if (pathnameBin == 0) {
@@ -67,71 +99,35 @@ int zbinNew(long long *ifltab)
 	// Record that we have created a new bin
 	fileHeader[zdssFileKeys.ktotalBins]++;
 
-	newBinAddress = 0;
-	isize = (int)fileHeader[zdssFileKeys.kbinSize];
 	//  Is there a pathname bin for this table hash?
 	//  (The table hash will have already been loaded by zcheck)
 	if (ifltab[zdssKeys.khashTableBinAdd] != 0) {
 		//  Yes, read it.
-		status = zget(ifltab, ifltab[zdssKeys.kbinAddCurrent], (int *)pathnameBin, isize, 2);
-		if (zisError(status)) {
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
-		}
-		//  Are there any more unused (empty) pathname bins in this block?
-		//  (A "block" will contain many (e.g., 32) pathname bins together)
-		if (fileHeader[zdssFileKeys.kbinsRemainInBlock] <= 0) {
-			//  No more space in this block, create a new block at the end of the file
-			//  Compute space needed -
-			//  One extra word at the end of the bin block to point to the next block
-			blockSize = (int)(fileHeader[zdssFileKeys.kbinSize] * fileHeader[zdssFileKeys.kbinsPerBlock]) + 1;
-			newBinAddress = zgetFileSpace(ifltab, blockSize, 0, &atEOF);
-			pathnameBin[isize-1] = newBinAddress;
-		}
-		else {
-			//  Yes, there is a unused bin in this block
-			pathnameBin[isize-1] = fileHeader[zdssFileKeys.kaddNextEmptyBin];
-		}
-		//  Save the address of this new bin in the current (full) bin (for this hash)
 		address = ifltab[zdssKeys.kbinAddCurrent] + isize - 1;
-		status = zput(ifltab, address, (int *)&pathnameBin[isize-1], 1, 2);
+		status = zget(ifltab, ifltab[zdssKeys.kbinAddCurrent], (int *)pathnameBin, isize, 2);
 		if (zisError(status)) {
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
 		}
 	}
-	//  No empty bins remain in this block; create new block at EOF
-	if (fileHeader[zdssFileKeys.kbinsRemainInBlock] <= 0) {
-		//  Write a new pathname block at the end of the file
-		//  First, set the address of this in the last block
-		if (newBinAddress == 0) {
-			blockSize = (int)(fileHeader[zdssFileKeys.kbinSize] * fileHeader[zdssFileKeys.kbinsPerBlock]) + 1;
-			newBinAddress = zgetFileSpace(ifltab, blockSize, 0, &atEOF);
-		}
-		status = zput(ifltab, fileHeader[zdssFileKeys.kaddNextEmptyBin], (int *)&newBinAddress, 1, 2);
-		if (zisError(status)) {
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
-		}
-		//  Set location of current block at end of file
-		fileHeader[zdssFileKeys.kbinsRemainInBlock] = fileHeader[zdssFileKeys.kbinsPerBlock] - 1;
-		ifltab[zdssKeys.kbinAddCurrent] = newBinAddress;
-		if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
-			zmessageDebug(ifltab, DSS_FUNCTION_zbinNew_ID, "Writing new block of pathname bins at end of file", "");
-		}
-		status = zput(ifltab, ifltab[zdssKeys.kbinAddCurrent], (int *)&izero, -blockSize, 2);
+	else {
+		address = 0;
+	}
+	//  Use the next empty bin in this block
+	fileHeader[zdssFileKeys.kbinsRemainInBlock]--;
+	ifltab[zdssKeys.kbinAddCurrent] = fileHeader[zdssFileKeys.kaddNextEmptyBin];
+	//  When we've reached the end of the bin block, this will be used to point to next bin block
+	fileHeader[zdssFileKeys.kaddNextEmptyBin] += fileHeader[zdssFileKeys.kbinSize];
+	//  Save that this bin is used, before anything refers to it.
+	status = zpermWrite(ifltab);
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+	}
+	if (address != 0) {
+		//  Save the address of this new bin in the (full) bin that precedes it (for this hash)
+		status = zput(ifltab, address, (int *)&ifltab[zdssKeys.kbinAddCurrent], 1, 2);
 		if (zisError(status)) {
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
 		}
-		fileHeader[zdssFileKeys.kaddNextEmptyBin] = ifltab[zdssKeys.kbinAddCurrent] + fileHeader[zdssFileKeys.kbinSize];
-		//  Write the EOF flag
-		if (atEOF) {
-			status = zwriteEOF(ifltab);;
-		}
-	}
-	else {
-		//  There are still some empty bins in this block; use one
-		fileHeader[zdssFileKeys.kbinsRemainInBlock]--;
-		ifltab[zdssKeys.kbinAddCurrent] = fileHeader[zdssFileKeys.kaddNextEmptyBin];
-		//  When we've reached the end of the bin block, this will be used to point to next bin block
-		fileHeader[zdssFileKeys.kaddNextEmptyBin] += fileHeader[zdssFileKeys.kbinSize];
 	}
 	//  Be sure the new bin is clear
 	for (i=0; i<(int)fileHeader[zdssFileKeys.kbinSize]; i++) {
diff --git a/heclib/heclib_c/src/Internal/zbinUpdate.c b/heclib/heclib_c/src/Internal/zbinUpdate.c
index 7f7d239..2d4bed3 100644
--- a/heclib/heclib_c/src/Internal/zbinUpdate.c
+++ b/heclib/heclib_c/src/Internal/zbinUpdate.c
@@ -247,7 +247,10 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 							ifltab[zdssKeys.kbinAddCurrent], icount);
 						zmessageDebug(ifltab, DSS_FUNCTION_zbinUpdate_ID, "Bin full for address: ", messageString);
 					}
-					zbinNew(ifltab);
+					status = zbinNew(ifltab);
+					if (zisError(status)) {
+						return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinUpdate_ID);
+					}
 					fileHeader[zdssFileKeys.kbinsOverflow]++;
 					icount = 0;
 				}
-- 
2.43.0


From f9ba70efbd0a0be81c94a2b898f5064674bea1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 29/93] fix: catalog stops at an empty directory bin, overruns
 on incomplete entries, and a full list ends it

---
 .../heclib_c/src/Internal/zcatalogInternal.c  | 78 +++++++++++++------
 1 file changed, 55 insertions(+), 23 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index 9d38066..6e06f70 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -11,6 +11,40 @@
 #include "zerrorCodes.h"
 
 
+//  Makes one catalog array longer, and clears the new part
+static int catalogMoreArray(void **array, int oldSize, int newSize, size_t wordSize)
+{
+	void *larger;
+
+	larger = realloc(*array, (size_t)newSize * wordSize);
+	if (!larger) {
+		return -1;
+	}
+	memset((char *)larger + ((size_t)oldSize * wordSize), 0, (size_t)(newSize - oldSize) * wordSize);
+	*array = larger;
+	return STATUS_OKAY;
+}
+
+//  Makes the arrays in the catalog struct longer, for more pathnames than were expected
+static int catalogMoreSpace(zStructCatalog *catStruct)
+{
+	int oldSize = catStruct->listSize;
+	int newSize = oldSize + (oldSize / 2) + 100;
+
+	if (catalogMoreArray((void **)&catStruct->pathnameList, oldSize, newSize, sizeof(char *)) ||
+		catalogMoreArray((void **)&catStruct->sortAddresses, oldSize, newSize, sizeof(long long)) ||
+		(catStruct->startDates && catalogMoreArray((void **)&catStruct->startDates, oldSize, newSize, sizeof(int))) ||
+		(catStruct->endDates && catalogMoreArray((void **)&catStruct->endDates, oldSize, newSize, sizeof(int))) ||
+		catalogMoreArray((void **)&catStruct->recordType, oldSize, newSize, sizeof(int)) ||
+		catalogMoreArray((void **)&catStruct->pathnameHash, oldSize, newSize, sizeof(long long)) ||
+		catalogMoreArray((void **)&catStruct->lastWriteTimeRecord, oldSize, newSize, sizeof(long long))) {
+		return -1;
+	}
+	catStruct->listSize = newSize;
+	return STATUS_OKAY;
+}
+
+
 /**
 *  Function:	zcatalogInternal
 *
@@ -272,22 +306,28 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 			}
 
 			icount = 0;
-			if (pathnameBin[icount+zdssBinKeys.kbinHash] == 0) {
-				//  No more, didn't find it in this block, continue on
-					break;
-			}
+			//  (The first bin of a block might be empty; so can one that was allocated by a program that
+			//  ended, or had an error, before it could be used.)
 			while (1) {
 				if (pathnameBin[icount+zdssBinKeys.kbinHash] == 0) {
 					//  No more, didn't find it in this block, continue on
 					break;
 				}
 				i8toi4(pathnameBin[icount+zdssBinKeys.kbinPathLen], &numberChars, &pathnameSize);
+				//  Be sure that this is a legitimate pathname that is within the bin
+				if ((numberChars < 1) || (numberChars >= MAX_PATHNAME_LENGTH) ||
+					(pathnameSize != numberLongsInBytes(numberChars)) ||
+					((icount + zdssBinKeys.kbinSize + pathnameSize) >= binSize)) {
+					break;
+				}
 				// charLong(void *from, void *to, int numberBytes, int maxBytesTo, int boolToLong, int zeroEndFlag)
 				charLong(&pathnameBin[icount + zdssBinKeys.kbinPath], pathname, numberChars, sizeof(pathname), 0, 0);
 				if (zmessageLevel(ifltab, MESS_METHOD_CATALOG_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {					
 					zmessageDebug(ifltab, DSS_FUNCTION_zcatalog_ID, "Found pathname: ", pathname);					
 				}
-				if (zcompareRecordStatus((int)pathnameBin[icount+zdssBinKeys.kbinStatus], statusWanted)) {
+				//  (A shorter pathname was not completely written; the program writing it ended)
+				if (((int)strlen(pathname) == numberChars) &&
+					zcompareRecordStatus((int)pathnameBin[icount+zdssBinKeys.kbinStatus], statusWanted)) {
 					i8toi4(pathnameBin[icount+zdssBinKeys.kbinTypeAndCatSort], &dataType, &catSort);
 					if ((boolCollection && !boolCompareWild) && pathWithWild) {
 						boolFound = zpathnameCompareCollection(pathname, pathWithWild, (size_t)numberChars);
@@ -359,20 +399,23 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 							zmessageDebug(ifltab, DSS_FUNCTION_zcatalog_ID, "Pathname passes requests ", "");
 						}
 						if (catStruct) {
-							if ((catStruct->listSize > 0) && (countTotal >= catStruct->listSize)) {
+							if (countTotal >= catStruct->listSize) {
 								//  Not enough space!
-								//  This is okay, as someone might be writing new pathnames while we are cataloging....
-								/*status = zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
-												zdssErrorCodes.ARRAY_SPACE_EXHAUSTED, catStruct->listSize, (long long)countTotal,
-												zdssErrorSeverity.MEMORY_ERROR, "", "Catalog array length");  */
-								break;
+								//  Someone might be writing new pathnames while we are cataloging, or a program
+								//  ended before it updated the number of records in the file header
+								status = catalogMoreSpace(catStruct);
+								if (status != STATUS_OKAY) {
+									return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+												zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, catStruct->listSize, (long long)countTotal,
+												zdssErrorSeverity.MEMORY_ERROR, "", "Increasing space for the catalog list");
+								}
 							}
 						}
 						//  If the number of characters in the pathname is not a multiple
 						//  of 8, then it is guaranteed to be zero terminated
 						//  If a multiple of 8, it will not be zero terminated
 						//  len = pathnameSize * 8;
-						if (catStruct && (catStruct->listSize > 0)) {
+						if (catStruct) {
 							pathnameMalloc = stringFortToC(pathname,  (size_t)numberChars);
 							if (pathnameMalloc == NULL) {
 								//  Memory error
@@ -424,12 +467,6 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 						if (status < 0) {
 							break;
 						}
-						if (catStruct) {
-							if (countTotal > catStruct->listSize) {
-								countTotal--;
-								break;
-							}
-						}
 					}
 					if (status < 0)
 						break;
@@ -465,11 +502,6 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 			countTotal = status;
 			break;
 		}
-		if (jcount < (int)fileHeader[zdssFileKeys.kbinsPerBlock]) {
-			//  Ended with an empty bin, so there are no more blocks.  (Do not read the
-			//  next block address from that bin, as another program may have written to it)
-			break;
-		}
 		status = zget(ifltab, binAddress, (int *)pathnameBin, 1, 2);
 		if (status != 0) {
 			countTotal = status;
-- 
2.43.0


From e31dea3457403efb269c50daaef996cedfefdcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 30/93] fix: rewriting a record whose first write was
 interrupted lists its pathname twice

---
 heclib/heclib_c/src/Internal/zwriteNew.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zwriteNew.c b/heclib/heclib_c/src/Internal/zwriteNew.c
index 26c83be..6f1c9f1 100644
--- a/heclib/heclib_c/src/Internal/zwriteNew.c
+++ b/heclib/heclib_c/src/Internal/zwriteNew.c
@@ -153,6 +153,7 @@ int zwriteNew(long long *ifltab, zStructTransfer* ztransfer,
 	char messageString[120];
 
 	long long icurrentTime;
+	long long removedStatus;
 	long long address;
 	long long *info;
 	long long *fileHeader;
@@ -239,6 +240,22 @@ int zwriteNew(long long *ifltab, zStructTransfer* ztransfer,
 	}
 	address = zgetFileSpace(ifltab, total, 1, wroteAtEOF);
 
+	//  Is this pathname already in the directory, but without an information block?  (It is when
+	//  the program writing it ended before it was done.)  It gets a new entry, don't list it twice.
+	if (ifltab[zdssKeys.kfound] && (ifltab[zdssKeys.kbinStatus] == REC_STATUS_PRIMARY)) {
+		removedStatus = REC_STATUS_REMOVED;
+		status = zput(ifltab, ifltab[zdssKeys.kpathBinAddress] + zdssBinKeys.kbinStatus, (int *)&removedStatus, 1, 2);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteNew_ID);
+		}
+		//  Read the pathname bin back in, as zbinUpdate may use it as it is in memory
+		status = zget(ifltab, ifltab[zdssKeys.kbinAddCurrent], (void *)ifltab[zdssKeys.kpathBin],
+			(int)fileHeader[zdssFileKeys.kbinSize], 2);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteNew_ID);
+		}
+	}
+
 	//  Save the location of info in the pathname bin
 	status = zbinUpdate(ifltab, ztransfer->pathname, address, 1, ztransfer->dataType);
 	if (zisError(status)) {
-- 
2.43.0


From e44fb1a97c62070a8db1ed8a0d9dadf1d1898f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:42 +0000
Subject: [PATCH 31/93] fix: a file whose creation was interrupted opens as if
 it was complete, and loses what is stored

---
 heclib/heclib_c/src/Internal/zopenInternal.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zopenInternal.c b/heclib/heclib_c/src/Internal/zopenInternal.c
index ebc70fc..6b1f1d8 100644
--- a/heclib/heclib_c/src/Internal/zopenInternal.c
+++ b/heclib/heclib_c/src/Internal/zopenInternal.c
@@ -322,6 +322,13 @@
 				return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INCOMPATIBLE_VERSION,
 										 0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", cvers);
 			}
+			else if (fileHeader[zdssFileKeys.kaddFirstBin] <= 0) {
+				//  The program that was creating this file ended before it was done
+				//  (or has not finished yet); don't use it as if it was complete.
+				closeFile(ihandle);
+				return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_DSS_FILE,
+										 0, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "", "File was not completely created");
+			}
 			//  Save additional lock words
 			fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 			ifltab[zdssKeys.klockExclusiveWord] = fileHeader[zdssFileKeys.klockAddressWord] + 1;
-- 
2.43.0


From f5a2fc6fcfaaeaf70eff3f07e4e9d539fda62e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:38 +0000
Subject: [PATCH 32/93] fix: reading a regular block rewritten meanwhile by
 another program overruns the values array

---
 heclib/heclib_c/src/Internal/ztsDisaggregate.c |  2 +-
 heclib/heclib_c/src/Internal/ztsRegReadBlock.c | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/ztsDisaggregate.c b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
index 4365777..82c6725 100644
--- a/heclib/heclib_c/src/Internal/ztsDisaggregate.c
+++ b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
@@ -285,7 +285,7 @@ int ztsDisaggregate(long long *ifltab, int numberToRead, int numberStored,
 	*cnotesLength = 0;
 	cnotesPosition = 0;
 	carrayPosition = 0;	
-	numberValues = valuesLength / valuesSizeRead;
+	numberValues = (valuesSizeRead > 0) ? (valuesLength / valuesSizeRead) : 0;
 
 
 
diff --git a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
index cc3824c..37cea6a 100644
--- a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
@@ -319,6 +319,19 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 		positionRelativeLastValid = numberToRead + positionRelativeFirstValid -
 			(internalHeader[INT_HEAD_blockEndPosition] - internalHeader[INT_HEAD_blockStartPosition] + 1);
 		numberStored = (int)info[zdssInfoKeys.kinfoNumberData];
+
+		//  The number stored has to fit the positions given in the internal header.  It may not if the
+		//  record was rewritten (by another program) between reading the info block and the header
+		if ((numberStored < 0) ||
+			(numberStored > (internalHeader[INT_HEAD_blockEndPosition] - internalHeader[INT_HEAD_blockStartPosition] + 1)) ||
+			((internalHeader[INT_HEAD_valuesNumber] > 0) && (internalHeader[INT_HEAD_valueSize] <= 0)) ||
+			((internalHeader[INT_HEAD_valuesNumber] > 0) && (internalHeader[INT_HEAD_valuesCompressionFlag] == 0) &&
+			(((long long)numberStored * internalHeader[INT_HEAD_valueSize]) > ztransfer->values1Number))) {
+			zstructFree(ztransfer);
+			return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegReadBlock_ID,
+				zdssErrorCodes.INVALID_RECORD_HEADER, numberStored,
+				0, zdssErrorSeverity.WARNING, pathname, "");
+		}
 		if (zmessageLevel(ifltab, MESS_METHOD_TS_READ_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 			_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, "%d, Quality Compression: %d, Notes Compression: %d",
 				internalHeader[INT_HEAD_valuesCompressionFlag], internalHeader[INT_HEAD_qualityCompressionFlag], internalHeader[INT_HEAD_inotesCompressionFlag]);
-- 
2.43.0


From ce783626550e39b2e826e497c1b8bf2342287a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:59 +0000
Subject: [PATCH 33/93] fix: failing to create a file frees addresses that were
 not allocated

---
 heclib/heclib_c/src/Internal/zpermCreate.c | 25 ----------------------
 1 file changed, 25 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zpermCreate.c b/heclib/heclib_c/src/Internal/zpermCreate.c
index d09b1df..d87db12 100644
--- a/heclib/heclib_c/src/Internal/zpermCreate.c
+++ b/heclib/heclib_c/src/Internal/zpermCreate.c
@@ -111,15 +111,12 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	//  Pathname Bin
 	status = zmemoryGet(ifltab, zdssKeys.kpathBin, (int)fileHeader[zdssFileKeys.kbinSize], "Pathname bin");
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
 	//  Record header (info area)
 	status = zmemoryGet(ifltab, zdssKeys.kinfo, zdssVals.maxInfoSize, "Record header (info area)");
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -225,8 +222,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	//  Write these initial values to the permanent area (file header)
 	status = zpermWrite(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -278,8 +273,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.klockWriteArrayAddress] = zgetFileSpace(ifltab, (int)fileHeader[zdssFileKeys.klockArraySizes], 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.klockWriteArrayAddress] , zero, -(int)fileHeader[zdssFileKeys.klockArraySizes], 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -287,8 +280,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.klockReadArrayAddress] = zgetFileSpace(ifltab, (int)fileHeader[zdssFileKeys.klockArraySizes], 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.klockReadArrayAddress] , zero, -(int)fileHeader[zdssFileKeys.klockArraySizes], 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -296,8 +287,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kpidArrayAddress] = zgetFileSpace(ifltab, (int)fileHeader[zdssFileKeys.klockArraySizes], 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.kpidArrayAddress] , zero, -(int)fileHeader[zdssFileKeys.klockArraySizes], 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -312,8 +301,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kaddHashTableStart] = zgetFileSpace(ifltab, size, 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.kaddHashTableStart], zero, -size, 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -326,8 +313,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kreclaimSegAvailableAdd] = fileHeader[zdssFileKeys.kreclaimTableAddress];
 	status = zput(ifltab, fileHeader[zdssFileKeys.kreclaimTableAddress], zero, -size, 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 	fileHeader[zdssFileKeys.kreclaimTotal] = 0;
@@ -342,8 +327,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	fileHeader[zdssFileKeys.kaddNextEmptyBin] = fileHeader[zdssFileKeys.kaddFirstBin];
 	status = zput(ifltab, fileHeader[zdssFileKeys.kaddFirstBin], zero, -size, 2);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 	fileHeader[zdssFileKeys.kbinsRemainInBlock] = fileHeader[zdssFileKeys.kbinsPerBlock];
@@ -351,24 +334,18 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	//  Write the EOF flag
 	status = zwriteEOF(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
 	//  Write updated header to disk (includes hash table, path bin)
 	status = zpermWrite(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
 	//  Force flush to disk
 	status = zflushToDisk(ifltab, 1);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
@@ -378,8 +355,6 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 
 	status = zcheckKeys(ifltab);
 	if (zisError(status)) {
-		free((long long*)ifltab[zdssKeys.kfileHeader]);
-		free((long long*)ifltab[zdssKeys.kpathBin]);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 	}
 
-- 
2.43.0


From cf2191f3301f8959bfaad27d9270d0de8c88aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 34/93] fix: a refused open leaves the handle looking open, and
 its memory taken

---
 heclib/heclib_c/src/Internal/zopenInternal.c | 72 +++++++++-----------
 1 file changed, 33 insertions(+), 39 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zopenInternal.c b/heclib/heclib_c/src/Internal/zopenInternal.c
index 6b1f1d8..10b34d6 100644
--- a/heclib/heclib_c/src/Internal/zopenInternal.c
+++ b/heclib/heclib_c/src/Internal/zopenInternal.c
@@ -88,6 +88,19 @@
 **/
 
 
+//  Release what was allocated for a file that could not be opened, and mark it as not open
+static int zopenFailed(long long *ifltab, int ihandle, int errorCode)
+{
+	int i;
+
+	closeFile(ihandle);
+	zmemoryFree(ifltab);
+	for (i=0; i<50; i++) {
+		ifltab[i] = 0;
+	}
+	return errorCode;
+}
+
  int zopenInternal(long long *ifltab, const char *dssFilename, int access, int maxExpectedPathnames,
 	 int hashSize, int binSize, int boolReopen)
  {
@@ -256,26 +269,22 @@
 			charLong((void *)&iarray[2], (void *)cvers, 4, sizeof(cvers), 0, 1);
 			//  No ZDSS header (first 4 bytes)?
 			if (strncmp(cdss, zdssVals.czdss, 4) != 0) {
-				closeFile(ihandle);
-				return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_DSS_FILE,
-										 0, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, fullDssFilename, cdss);
+				return zopenFailed(ifltab, ihandle, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_DSS_FILE,
+										 0, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, fullDssFilename, cdss));
 			}			
 			else if (strncmp(cvers, zdssVals.czVersion, 1) != 0) {
 				//  Wrong version (e.g., version 6)
 				if (strncmp(cvers, "6", 1) == 0) {
-					closeFile(ihandle);
-					return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INCOMPATIBLE_VERSION,
-						6, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, fullDssFilename, cvers);
+					return zopenFailed(ifltab, ihandle, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INCOMPATIBLE_VERSION,
+						6, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, fullDssFilename, cvers));
 				}
 				else if (strncmp(cvers, "8", 1) == 0) {
-					closeFile(ihandle);
-					return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INCOMPATIBLE_VERSION,
-						8, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, fullDssFilename, cvers);
+					return zopenFailed(ifltab, ihandle, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INCOMPATIBLE_VERSION,
+						8, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, fullDssFilename, cvers));
 				}
 				else {
-					closeFile(ihandle);
-					return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_HEADER_PARAMETER, 0,
-						0, zdssErrorSeverity.CORRUPT_FILE, cvers, "Invalid DSS file version string");
+					return zopenFailed(ifltab, ihandle, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_HEADER_PARAMETER, 0,
+						0, zdssErrorSeverity.CORRUPT_FILE, cvers, "Invalid DSS file version string"));
 				}
 			}
 			//  Good to go.
@@ -291,20 +300,17 @@
 			if (access == READ_ACCESS) {
 				//  If the file exists, but it is not a valid DSS file, and
 				//  we do not have write access, error out
-				closeFile(ihandle);
-				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
+				return zopenFailed(ifltab, ihandle, zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID));
 			}
 			else {
-				closeFile(ihandle);
-				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
+				return zopenFailed(ifltab, ihandle, zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID));
 			}
 		}
 		else if (zisError(status)) {
 			//  Close the file
-			closeFile(ihandle);
 			/////   fix me -wrong error
 			////  Make status == -2 for not a dss file, but has size
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
+			return zopenFailed(ifltab, ihandle, zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID));
 		}
 		else {  //  if (status == STATUS_OKAY) {
 			//  Be sure the file header was loaded...
@@ -312,22 +318,19 @@
 			charLong((void *)&fileHeader[zdssFileKeys.kdss], (void *)cdss, 4, sizeof(cdss), 0, 1);
 			charLong((void *)&fileHeader[zdssFileKeys.kversion], (void *)cvers, 4, sizeof(cvers), 0, 1);
 			if (strncmp(cdss, zdssVals.czdss, 4) != 0) {
-				closeFile(ihandle);
-				return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_DSS_FILE,
-										 0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", cdss);
+				return zopenFailed(ifltab, ihandle, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_DSS_FILE,
+										 0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", cdss));
 			}
 			else if (strncmp(cvers, zdssVals.czVersion, 1) != 0) {
 				//  Wrong version (e.g., version 6)
-				closeFile(ihandle);
-				return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INCOMPATIBLE_VERSION,
-										 0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", cvers);
+				return zopenFailed(ifltab, ihandle, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INCOMPATIBLE_VERSION,
+										 0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", cvers));
 			}
 			else if (fileHeader[zdssFileKeys.kaddFirstBin] <= 0) {
 				//  The program that was creating this file ended before it was done
 				//  (or has not finished yet); don't use it as if it was complete.
-				closeFile(ihandle);
-				return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_DSS_FILE,
-										 0, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "", "File was not completely created");
+				return zopenFailed(ifltab, ihandle, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_DSS_FILE,
+										 0, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "", "File was not completely created"));
 			}
 			//  Save additional lock words
 			fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
@@ -372,8 +375,7 @@
 		}
 		else {
 			//  Close the file
-			closeFile(ihandle);
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
+			return zopenFailed(ifltab, ihandle, zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID));
 		}
 	}
 
@@ -386,10 +388,7 @@
 		ifltab[zdssKeys.kmultiUserAccess] = EXCLUSIVE_ACCESS;
 		status = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
 		if (zisError(status)) {
-			free((void*)ifltab[zdssKeys.kfileHeader]);
-			free((void*)ifltab[zdssKeys.kpathBin]);
-			closeFile(ihandle);
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
+			return zopenFailed(ifltab, ihandle, zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID));
 		}
 	}
 	else {
@@ -438,12 +437,7 @@
 
 	status = zcheckKeys(ifltab);
 	if (zisError(status)) {
-		free((void*)ifltab[zdssKeys.kfileHeader]);
-		free((void*)ifltab[zdssKeys.kpathBin]);
-		free((void*)ifltab[zdssKeys.kfilename]);
-		free((void*)ifltab[zdssKeys.kfullFilename]);
-		closeFile(ihandle);
-		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID);
+		return zopenFailed(ifltab, ihandle, zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID));
 	}
 	return status;
 }
-- 
2.43.0


From 8ac9a793bda8ff0b8f0a32616bcfa9302c613e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 35/93] fix: squeezing through a read-only handle replaces the
 file

---
 heclib/heclib_c/src/Public/zsqueeze7.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index 5940c7e..9f62425 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -125,6 +125,13 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 	}
 
 	//  First, let's determine if this file can be squeezed?
+	//  Do we have permission to write to it?
+	if (ifltab[zdssKeys.kopenStatus] == OPEN_STAT_READ_ONLY) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID, zdssErrorCodes.CANNOT_SQUEEZE,
+			0, 0, zdssErrorSeverity.WARNING_NO_WRITE_ACCESS, "",
+			"File opened with read only access");
+	}
+
 	//  Is someone else accessing the file?
 	//  The following takes care of a lock structure change in test versions.
 	version = zgetFullVersion(ifltab);
-- 
2.43.0


From 907861683af6c2c8e641cb7e28704ab1aa1c2cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 36/93] fix: exclusive access that was refused is reported as
 granted

---
 heclib/heclib_c/src/Internal/zlockActive.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zlockActive.c b/heclib/heclib_c/src/Internal/zlockActive.c
index a991db0..5d98717 100644
--- a/heclib/heclib_c/src/Internal/zlockActive.c
+++ b/heclib/heclib_c/src/Internal/zlockActive.c
@@ -248,7 +248,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 					status = zlockPassive(ifltab, LOCKING_LOCK_TEST, LOCKING_ACCESS_READ);
 					if (status != 0) {
 						return zerrorProcessing(ifltab, DSS_FUNCTION_zlocking_ID, zdssErrorCodes.CANNOT_LOCK_EXCLUSIVE,
-										 0, 0, zdssErrorSeverity.WARNING, "", "");
+										 0, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "", "");
 					}
 					status = zlockDss(ifltab, handle, 2, fileHeader[zdssFileKeys.klockAddressWord], 16);
 					if (status != 0) {
-- 
2.43.0


From eb73ffaae0a14bffc7c492495af721f242dde426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 37/93] fix: a handle that cannot write keeps other programs
 from writing

---
 heclib/heclib_c/src/Internal/zlockActive.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zlockActive.c b/heclib/heclib_c/src/Internal/zlockActive.c
index 5d98717..b3b3c67 100644
--- a/heclib/heclib_c/src/Internal/zlockActive.c
+++ b/heclib/heclib_c/src/Internal/zlockActive.c
@@ -189,8 +189,9 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 
 	status = STATUS_OKAY;
 
-	//  Check that this is a multiple user access file
-	if (ifltab[zdssKeys.kmultiUserAccess] > READ_ACCESS) {
+	//  Check that this is a multiple user access file (a handle that cannot
+	//  write must not keep others from writing)
+	if ((ifltab[zdssKeys.kmultiUserAccess] > READ_ACCESS) && ((ifltab[zdssKeys.kopenStatus] != OPEN_STAT_READ_ONLY) || ifltab[zdssKeys.klockWriteMyAddress])) {
 
 		//  Lock file
 		if (lock == LOCKING_LOCK_ON) {
-- 
2.43.0


From 851a497069c2606bfd005b43d0c5abfd558094d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:00 +0000
Subject: [PATCH 38/93] fix: an exclusively opened file is written from a
 header that may be outdated, and not saved until closed

---
 heclib/heclib_c/src/Internal/zopenInternal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zopenInternal.c b/heclib/heclib_c/src/Internal/zopenInternal.c
index 10b34d6..a97fe2f 100644
--- a/heclib/heclib_c/src/Internal/zopenInternal.c
+++ b/heclib/heclib_c/src/Internal/zopenInternal.c
@@ -386,7 +386,9 @@ static int zopenFailed(long long *ifltab, int ihandle, int errorCode)
 	//  If we are opening exclusively, lock the file,
 	else if (access == EXCLUSIVE_ACCESS) {
 		ifltab[zdssKeys.kmultiUserAccess] = EXCLUSIVE_ACCESS;
-		status = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
+		//  (each operation still has to save the header when it is done), and get
+		//  the current header, as it may have been written since we read it
+		status = zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 		if (zisError(status)) {
 			return zopenFailed(ifltab, ihandle, zerrorUpdate(ifltab, status, DSS_FUNCTION_zopen_ID));
 		}
-- 
2.43.0


From af148d681eaadb3fa69a89209dc8af03a41ba057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:41 +0000
Subject: [PATCH 39/93] fix: a what-changed query with CRCs misses new records
 and confuses records whose names hash alike

---
 .../heclib_c/src/Public/zwhatChangedCompare.c | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zwhatChangedCompare.c b/heclib/heclib_c/src/Public/zwhatChangedCompare.c
index 10923b8..d68f874 100644
--- a/heclib/heclib_c/src/Public/zwhatChangedCompare.c
+++ b/heclib/heclib_c/src/Public/zwhatChangedCompare.c
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <string.h>
 
 #include "zdssKeys.h"
 #include "hecdss7.h"
@@ -58,6 +59,7 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 	int i;
 	int j;
 	int *index;
+	size_t len;
 	zStructCatalog *catStruct;
 
 
@@ -120,15 +122,21 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 
 	count = 0;
 	for (i=0; i<catStruct->numberPathnames; i++) {
+		len = strlen(catStruct->pathnameList[i]);
 		for (j=0; j<catStructBefore->numberPathnames; j++) {
-			if (catStruct->pathnameHash[i] == catStructBefore->pathnameHash[j]) {
-				//  We have an updated record.  Has the data changed?
-				if (catStruct->crcValues[i] != catStructBefore->crcValues[j]) {
-					//  Found One.  The CRC value has changed, so the data set has too.
-					index[count++] = i;
-				}
+			//  Different pathnames can have the same hash, so compare the names too
+			if ((catStruct->pathnameHash[i] == catStructBefore->pathnameHash[j]) &&
+				(strlen(catStructBefore->pathnameList[j]) == len) &&
+				zstringCompare(catStruct->pathnameList[i], catStructBefore->pathnameList[j], len)) {
+				break;
 			}
 		}
+		//  Either a new record, or an updated record.  Has the data of the latter changed?
+		if ((j == catStructBefore->numberPathnames) ||
+			(catStruct->crcValues[i] != catStructBefore->crcValues[j])) {
+			//  Found One.
+			index[count++] = i;
+		}
 	}
 
 	if (count == 0) {
-- 
2.43.0


From 0e3e2c74a8304ff91980e30a2def1ae9bcb4b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:41 +0000
Subject: [PATCH 40/93] fix: the CRC of a record's data uses the wrong length
 for its third values array

---
 heclib/heclib_c/src/Public/zgetDataCRC.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zgetDataCRC.c b/heclib/heclib_c/src/Public/zgetDataCRC.c
index d07a804..cf6b3a5 100644
--- a/heclib/heclib_c/src/Public/zgetDataCRC.c
+++ b/heclib/heclib_c/src/Public/zgetDataCRC.c
@@ -103,7 +103,7 @@ unsigned int zgetDataCRC(long long *ifltab, const char *pathname, unsigned int c
 		}
 	}
 	if (ztransfer->values3) {
-		len = ztransfer->values1Number * 4;
+		len = ztransfer->values3Number * 4;
 		if (endian) {
 			crcValue = crc32_block_endian1(crcValue, ztransfer->values3, len, crc_table);
 		}
-- 
2.43.0


From f26e36394595ee9f4c8d2526948eae7df3eedde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:41 +0000
Subject: [PATCH 41/93] fix: a sorted catalog of a multi-user file drops the
 what-changed mark of the handle

---
 heclib/heclib_c/src/Internal/zcheckAccessReset.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcheckAccessReset.c b/heclib/heclib_c/src/Internal/zcheckAccessReset.c
index ea39ad7..716346c 100644
--- a/heclib/heclib_c/src/Internal/zcheckAccessReset.c
+++ b/heclib/heclib_c/src/Internal/zcheckAccessReset.c
@@ -59,6 +59,7 @@ int zcheckAccessReset(long long *ifltab, int boolForce, int quiescentTimeMills)
 	int access;
 	long long ltime;
 	char fullFilename[256];
+	zStructCatalog *catStruct;
 
 
 
@@ -102,17 +103,24 @@ int zcheckAccessReset(long long *ifltab, int boolForce, int quiescentTimeMills)
 		}
 	}
 
+	//  Keep the start of a "what changed" query, which belongs to the user of this handle
+	catStruct = (zStructCatalog *)ifltab[zdssKeys.kcatStruct];
+	ifltab[zdssKeys.kcatStruct] = 0;
+
 	//  Now close the file
 	status = zcloseInternal(ifltab, 0);
 	if (zisError(status)) {
+		if (catStruct) zstructFree(catStruct);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zclose_ID);
 	}
 
 	//  Reopen the file (as if it had not been written to)
 	status = zopenInternal(ifltab, fullFilename, access, 0, 0, 0, 1);
 	if (zisError(status)) {
+		if (catStruct) zstructFree(catStruct);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zclose_ID);
 	}
+	ifltab[zdssKeys.kcatStruct] = (long long)catStruct;
 
 	if (zmessageLevel(ifltab, MESS_METHOD_OPEN_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zopen_ID, "Exit zcheckAccessReset, status: ", status);
-- 
2.43.0


From d8a6d67737370550bd56e081e38ab733652ea195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:26 +0000
Subject: [PATCH 42/93] fix: a sorted catalog leaks two file descriptors, and
 temporary files when it fails

---
 .../heclib_c/src/Internal/zcatInternalSort.c  | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 8565fd5..d1311b6 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -274,6 +274,8 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		free(tempUnsorted);
 		return -1;
 	}
+	//  Only the name is needed; the file is opened again below
+	close(fileId);
 	tempSorted=(char*)malloc(32*sizeof(char));
 	memset( tempSorted, 0, sizeof(tempSorted));
 	strcpy( tempSorted, "/tmp/cat_sorted-XXXXXX");
@@ -282,9 +284,12 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	{
 		if (nonSortedStruct) zstructFree(nonSortedStruct);
 		nonSortedStruct = 0;
+		unlink(tempUnsorted);
+		free(tempUnsorted);
 		free(tempSorted);
 		return -1;
 	}
+	close(fileId);
 #endif
 	if (!tempUnsorted) {
 		if (nonSortedStruct) zstructFree(nonSortedStruct);
@@ -302,6 +307,13 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 
 	status = zopenDisk(tempUnsorted, &unsortedHandle, 10, 1);
 	if (unsortedHandle < 1) {
+#ifdef _MSC_VER
+		_unlink(tempUnsorted);
+		_unlink(tempSorted);
+#else
+		unlink(tempUnsorted);
+		unlink(tempSorted);
+#endif
 		free(tempUnsorted);
 		free(tempSorted);
 		if (nonSortedStruct) zstructFree(nonSortedStruct);
@@ -310,22 +322,21 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	}
 	//  For both DSS-6 and DSS-7
 	numberPathnames = zcatalogInternal (ifltab, pathWithWild, nonSortedStruct, unsortedHandle, 0, 0, boolCollection, 1);
-	if (numberPathnames < 0) {
-		return numberPathnames;
-	}
 	closeFile(unsortedHandle);
 	unsortedHandle = 0;
 	if (numberPathnames < 0) {
 #ifdef _MSC_VER
 		_unlink(tempUnsorted);
+		_unlink(tempSorted);
 #else
 		unlink(tempUnsorted);
+		unlink(tempSorted);
 #endif
 		free(tempUnsorted);
 		free(tempSorted);
 		if (nonSortedStruct) zstructFree(nonSortedStruct);
 		nonSortedStruct = 0;
-		return status;
+		return numberPathnames;
 	}
 
 	status = sortfiles (tempUnsorted, tempSorted);
-- 
2.43.0


From 5511b1c64a616e0983186c9da67d26f4392c96d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:26 +0000
Subject: [PATCH 43/93] fix: storing and retrieving a TIN leaks memory

---
 heclib/heclib_c/src/Public/zspatialTinRetrieve.c | 1 +
 heclib/heclib_c/src/Public/zspatialTinStore.c    | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
index 8035cfa..00140bb 100644
--- a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
@@ -250,6 +250,7 @@ int zspatialTinRetrieve(long long *ifltab, zStructSpatialTin *tinStruct, int boo
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zspatialTinRetrieve_ID, "Exit; status:  ", status);
 	}
 
+	zstructFree(ztransfer);
 	return status;
 }
 
diff --git a/heclib/heclib_c/src/Public/zspatialTinStore.c b/heclib/heclib_c/src/Public/zspatialTinStore.c
index 275aa6a..8311fee 100644
--- a/heclib/heclib_c/src/Public/zspatialTinStore.c
+++ b/heclib/heclib_c/src/Public/zspatialTinStore.c
@@ -97,6 +97,13 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	ztransfer->internalHeaderNumber = 12;
 	ztransfer->internalHeader = (int *)calloc(ztransfer->internalHeaderNumber, 4);
 	ztransfer->internalHeaderMode = 1;
+	//  The arrays allocated here are freed with the struct
+	ztransfer->allocated[zSTRUCT_TRANS_internalHeader] = 1;
+	ztransfer->allocated[zSTRUCT_TRANS_header2] = 1;
+	ztransfer->allocated[zSTRUCT_userHeader] = 1;
+	ztransfer->allocated[zSTRUCT_TRANS_values1] = 1;
+	ztransfer->allocated[zSTRUCT_TRANS_values2] = 1;
+	ztransfer->allocated[zSTRUCT_TRANS_values3] = 1;
 	ztransfer->internalHeader[0] = tinStruct->numberPoints;
 	ztransfer->internalHeader[1] = tinStruct->connectTableLen;
 	ztransfer->internalHeader[2] = tinStruct->pointLabelLen;
-- 
2.43.0


From df9631099873d1df3272b81ce03a122d48312493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:27 +0000
Subject: [PATCH 44/93] fix: freeing a retrieved text struct leaks its user
 header

---
 heclib/heclib_c/src/Public/zstructFree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/heclib_c/src/Public/zstructFree.c b/heclib/heclib_c/src/Public/zstructFree.c
index 63b0cc7..61db0af 100644
--- a/heclib/heclib_c/src/Public/zstructFree.c
+++ b/heclib/heclib_c/src/Public/zstructFree.c
@@ -295,6 +295,7 @@ void ztextStructFree(zStructText *zstruct)
 	if ((zstruct->textString) && (zstruct->allocated[zSTRUCT_TX_textString])) free(zstruct->textString);
 	if ((zstruct->textTable) && (zstruct->allocated[zSTRUCT_TX_textTable])) free(zstruct->textTable);
 	if ((zstruct->labels) && (zstruct->allocated[zSTRUCT_TX_labels])) free(zstruct->labels);
+	if ((zstruct->userHeader) && (zstruct->allocated[zSTRUCT_userHeader])) free(zstruct->userHeader);
 
 	for (i=0; i<zSTRUCT_length; i++) {
 		zstruct->allocated[i] = 0;
-- 
2.43.0


From 5e01f41505234b995de39fe434269b8130b93a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:27 +0000
Subject: [PATCH 45/93] fix: C interface leaks arrays, float time series and
 the catalog of a failed catalog

---
 heclib/hecdss/hecdss.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index ea4c44d..e1a6f2c 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -200,6 +200,7 @@ HECDSS_API int hec_dss_catalog(dss_file* dss, char* pathBuffer, int* recordTypes
   int status = zcatalog(dss->ifltab,pathFilter, catStruct, UNSORTED);
   if (status < 0) {
     printf("Error during catalog.  Error code %d\n", status);
+    zstructFree(catStruct);
     return status;
   }
   int maxPaths = catStruct->numberPathnames > count ? count : catStruct->numberPathnames;
@@ -389,7 +390,7 @@ HECDSS_API int hec_dss_tsStoreRegular(dss_file* dss, const char* pathname,
       
 
     tss = zstructTsNewRegFloats(pathname, values, valueArraySize, startDate, startTime, units, type);
-    tss->allocated[zSTRUCT_TS_floatValues];// zstructFree will free float array
+    tss->allocated[zSTRUCT_TS_floatValues] = 1;// zstructFree will free float array
     if (qualityArraySize > 0 && qualityArraySize == valueArraySize)
       tss->quality = qualityArray;
   }
@@ -424,7 +425,7 @@ HECDSS_API int hec_dss_tsStoreIregular(dss_file* dss, const char* pathname,
 
     tss = zstructTsNewIrregFloats(pathname,values, valueArraySize,times,
       timeGranularitySeconds, startDateBase,units, type);
-    tss->allocated[zSTRUCT_TS_floatValues];
+    tss->allocated[zSTRUCT_TS_floatValues] = 1;// zstructFree will free float array
   }
   else {
     tss = zstructTsNewIrregDoubles(pathname, valueArray, valueArraySize, times,
@@ -887,6 +888,7 @@ HECDSS_API int hec_dss_arrayStore(dss_file* dss, const char* pathname,
   }
   int status = zarrayStore(dss->ifltab, array);
 
+  zstructFree(array); // the arrays themselves belong to the caller
   return status;
 }
 
@@ -901,6 +903,7 @@ HECDSS_API int hec_dss_arrayRetrieveInfo(dss_file* dss, const char* pathname,
     *floatValuesRead = array->numberFloatArray;
     *doubleValuesRead = array->numberDoubleArray;
   }
+  zstructFree(array);
   return status;
 }
 
@@ -924,6 +927,7 @@ HECDSS_API int hec_dss_arrayRetrieve(dss_file* dss, const char* pathname,
       hec_dss_array_copy_double(doubleValues, doubleValuesLength, array->doubleArray, array->numberDoubleArray);
     }
   }
+  zstructFree(array);
 
   return status;
 }
-- 
2.43.0


From 99a03440d99a36f0e0e640be0db1f430eacd2bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:27 +0000
Subject: [PATCH 46/93] fix: C interface crashes retrieving quality that is not
 stored, or text of a record without text

---
 heclib/hecdss/hecdss.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index e1a6f2c..193e9b4 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -363,7 +363,7 @@ HECDSS_API int hec_dss_tsRetrieve(dss_file* dss, const char *pathname,
             }
             valueArray[i] = tss->doubleValues[i];
             if (qualityWidth > 0) // TO DO.. quality can have multiple columns
-               quality[i] = tss->quality[i];
+               quality[i] = tss->quality ? tss->quality[i] : 0; // 0 when no quality is stored
 
         }
     }
@@ -956,7 +956,12 @@ HECDSS_API int hec_dss_textRetrieve(dss_file* dss, const char* pathname, char* b
     if (txt->numberTextChars > bufferLength) {
       status = HEC_DSS_BUFFER_TOO_SMALL;
     }
-    strncpy(buffer, txt->textString, MIN(bufferLength, txt->numberTextChars));
+    if (txt->textString != NULL) {
+      strncpy(buffer, txt->textString, MIN(bufferLength, txt->numberTextChars));
+    }
+    else if (bufferLength > 0) {
+      buffer[0] = 0;
+    }
   }
 
   zstructFree(txt);
-- 
2.43.0


From 3e74bace68873cd5eb6f25fcebf5de9e2893b721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:27 +0000
Subject: [PATCH 47/93] fix: storing a time series over a record of another
 type crashes or leaks instead of being refused

---
 heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c | 8 ++++++++
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c   | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
index a0f4577..567d568 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
@@ -369,6 +369,14 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 			ifltab[zdssKeys.kinfoAddress] = ifltab[zdssKeys.kaddInfoLastPath];
 			info = (long long *)ifltab[zdssKeys.kinfo];
 
+			//  A record of another type cannot be merged with, nor be replaced
+			i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &days, &i);
+			if ((days < DATA_TYPE_ITS) || (days >= DATA_TYPE_PD)) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsIrregStoreBlock_ID,
+										zdssErrorCodes.DIFFERENT_RECORD_TYPE, days, (long long)dataType,
+										zdssErrorSeverity.WRITE_ERROR, pathname, "");
+			}
+
 			//  Now read internal header array
 			lengthInternalHeaderRead = (int)info[zdssInfoKeys.kinfoInternalHeadNumber];
 			if (lengthInternalHeaderRead > sizeInternalHeaderRead) lengthInternalHeaderRead = sizeInternalHeaderRead;
diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 57a197d..e9bf94c 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -353,6 +353,13 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 		} 
 		if (status == STATUS_RECORD_FOUND) {			
 			info = (long long *)ifltab[zdssKeys.kinfo];	
+			//  A record of another type cannot be merged with, nor be replaced
+			i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &ival, &i);
+			if ((ival < DATA_TYPE_RTS) || (ival >= DATA_TYPE_ITS)) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID,
+										zdssErrorCodes.DIFFERENT_RECORD_TYPE, ival, (long long)dataType,
+										zdssErrorSeverity.WRITE_ERROR, pathname, "");
+			}
 			boolFound = 1;
 			//  Keep location of info
 			ifltab[zdssKeys.kinfoSize] = zdssVals.infoSize + numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);;
-- 
2.43.0


From b64bf0121590b2c54862b2774faa96bfdc9909a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:27 +0000
Subject: [PATCH 48/93] fix: storing integer notes over character notes aborts

---
 heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c | 4 +++-
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
index 567d568..1ece109 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
@@ -453,7 +453,9 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 				//  If we are storing character notes, so we need to allocate enough space
 				//  to both read in cnotes on disk and to add our notes on.
 				//  Get the amount of space used on disk
-				if (internalHeaderRead[INT_HEAD_cnotesLength] > 0) {
+				//  (A record has either integer notes or character notes, not both.  When integer
+				//  notes are being stored, they take the place of any character notes.)
+				if ((internalHeaderRead[INT_HEAD_cnotesLength] > 0) && (inoteElementSize == 0)) {
 					cnotesReadSize = internalHeaderRead[INT_HEAD_cnotesLength];
 					cnotesRead = (char *)calloc((size_t)cnotesReadSize, CHAR_SIZE);
 					if (!cnotesRead) {
diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index e9bf94c..9de7419 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -466,7 +466,9 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 			notesRead = 0;
 		}
 		//  Get the amount of space used on disk				
-		if (boolFound && (internalHeaderRead[INT_HEAD_cnotesLength] > 0)) {
+		//  (A record has either integer notes or character notes, not both.  When integer
+		//  notes are being stored, they take the place of any character notes.)
+		if (boolFound && (internalHeaderRead[INT_HEAD_cnotesLength] > 0) && (inoteElementSize == 0)) {
 			cnotesReadSize = internalHeaderRead[INT_HEAD_cnotesLength] + internalHeaderRead[INT_HEAD_blockStartPosition] + 
 				(numberInBlock - internalHeaderRead[INT_HEAD_blockEndPosition]); 										
 			cnotesRead = (char *)calloc((size_t)cnotesReadSize, CHAR_SIZE);
-- 
2.43.0


From adbc4704fe233d27ae448ef13456947383bb4e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:20 +0000
Subject: [PATCH 49/93] fix: C interface drops the quality of time series it
 stores

---
 heclib/hecdss/hecdss.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 193e9b4..b80a857 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -391,12 +391,14 @@ HECDSS_API int hec_dss_tsStoreRegular(dss_file* dss, const char* pathname,
 
     tss = zstructTsNewRegFloats(pathname, values, valueArraySize, startDate, startTime, units, type);
     tss->allocated[zSTRUCT_TS_floatValues] = 1;// zstructFree will free float array
-    if (qualityArraySize > 0 && qualityArraySize == valueArraySize)
-      tss->quality = qualityArray;
   }
   else {
     tss = zstructTsNewRegDoubles(pathname, valueArray, valueArraySize, startDate, startTime, units, type);
   }
+  if (qualityArraySize > 0 && qualityArraySize == valueArraySize) {
+    tss->quality = qualityArray;
+    tss->qualityElementSize = 1;
+  }
   tss->boolPattern = isTsPattern(pathname);
 
   tss->timeZoneName = mallocAndCopy(timeZoneName);
@@ -434,6 +436,7 @@ HECDSS_API int hec_dss_tsStoreIregular(dss_file* dss, const char* pathname,
   if  (qualityArraySize > 0 && qualityArraySize == valueArraySize) {
     // TO DO.. quality can be multi-dimensional (Is that used?)
     tss->quality = qualityArray;
+    tss->qualityElementSize = 1;
     tss->qualityArraySize = qualityArraySize;
   }
     
-- 
2.43.0


From 0f7bf0418b88da961759faba17e85b7d831ac685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:21 +0000
Subject: [PATCH 50/93] fix: C interface leaves the label length of paired data
 without labels unset

---
 heclib/hecdss/hecdss.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index b80a857..07d5051 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -551,8 +551,7 @@ HECDSS_API int hec_dss_pdRetrieveInfo(dss_file* dss, const char* pathname,
   if (pds->typeDependent != NULL) {
     stringCopy(typeDependent, typeDependentLength, pds->typeDependent, strlen(pds->typeDependent));
   }
-  if (pds->labels)
-    *labelsLength = pds->labelsLength;
+  *labelsLength = pds->labels ? pds->labelsLength : 0;
 
   zstructFree(pds);
   return status;
-- 
2.43.0


From 90d71a671dd01cf95f7902ab09bf39a207dddc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:21 +0000
Subject: [PATCH 51/93] fix: C interface returns text without its terminating
 null

---
 heclib/hecdss/hecdss.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 07d5051..c218ed5 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -959,7 +959,11 @@ HECDSS_API int hec_dss_textRetrieve(dss_file* dss, const char* pathname, char* b
       status = HEC_DSS_BUFFER_TOO_SMALL;
     }
     if (txt->textString != NULL) {
-      strncpy(buffer, txt->textString, MIN(bufferLength, txt->numberTextChars));
+      int numberChars = MIN(bufferLength, txt->numberTextChars);
+      strncpy(buffer, txt->textString, numberChars);
+      if (numberChars < bufferLength) {
+        buffer[numberChars] = 0; // text may be stored without its terminating null
+      }
     }
     else if (bufferLength > 0) {
       buffer[0] = 0;
-- 
2.43.0


From e53027b911f4fea476fdc5ec1dd23af10cc2a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:21 +0000
Subject: [PATCH 52/93] fix: C interface takes empty start and end dates for a
 time window

---
 heclib/hecdss/hecdss.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index c218ed5..bcb6130 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -322,10 +322,10 @@ HECDSS_API int hec_dss_tsRetrieve(dss_file* dss, const char *pathname,
     tss->boolPattern = isTsPattern(pathname);
     // if no dates/times are given retrieve all data.
     if (  
-         (startDate == NULL || startDate == "\0")
-      && (startTime == NULL || startTime == "\0")
-      && (endDate == NULL   || endDate == "\0")
-      && (endTime == NULL   || endTime == "\0")
+         (startDate == NULL || startDate[0] == '\0')
+      && (startTime == NULL || startTime[0] == '\0')
+      && (endDate == NULL   || endDate[0] == '\0')
+      && (endTime == NULL   || endTime[0] == '\0')
       && ! tss->boolPattern
          ) 
     {
-- 
2.43.0


From 70cbbc6e39bc08309059ffca290f54cd841bc38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:10 +0000
Subject: [PATCH 53/93] fix: reading a record buffers up to twice its size,
 past the end of the file

---
 heclib/heclib_c/src/Internal/zgetBuff.c      |  3 +--
 heclib/heclib_c/src/Internal/zreadInternal.c | 13 +++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zgetBuff.c b/heclib/heclib_c/src/Internal/zgetBuff.c
index 9db4cbf..42e4148 100644
--- a/heclib/heclib_c/src/Internal/zgetBuff.c
+++ b/heclib/heclib_c/src/Internal/zgetBuff.c
@@ -165,8 +165,7 @@ int zgetBuff (long long *ifltab, long long iaddress, int *iarray, int numberWord
 				//  and can go beyond EOF.  In this case, just read to EOF
 				addressEndBuffer = iaddress + numberLongsInInts(numberInts);
 				if (addressEndBuffer > fileHeader[zdssFileKeys.kfileSize]) {
-					addressEndBuffer -= fileHeader[zdssFileKeys.kfileSize];
-					numberInts = numberIntsInLongs(addressEndBuffer);
+					numberInts = numberIntsInLongs(fileHeader[zdssFileKeys.kfileSize] - iaddress);
 				}
 				if (numberInts <= 0) {
 					/////   FIX ME - do error processing here!!!
diff --git a/heclib/heclib_c/src/Internal/zreadInternal.c b/heclib/heclib_c/src/Internal/zreadInternal.c
index 8964f36..96c8c2d 100644
--- a/heclib/heclib_c/src/Internal/zreadInternal.c
+++ b/heclib/heclib_c/src/Internal/zreadInternal.c
@@ -270,13 +270,14 @@ int zreadInternal(long long *ifltab, zStructTransfer* ztransfer,
 	//  Load into buffer (only)
 	if (buffer && (bufferControl[BUFF_SIZE] && boolUseBuffer)) {
 		//  Load all of this record into buffer, if we can
+		//  (Each part starts on a 64-bit boundary)
 		totalNumber = 0;
-		totalNumber += (int)ztransfer->info[zdssInfoKeys.kinfoInternalHeadNumber];
-		totalNumber += (int)ztransfer->info[zdssInfoKeys.kinfoHeader2Number];
-		totalNumber += (int)ztransfer->info[zdssInfoKeys.kinfoValues3Number];
-		totalNumber += (int)ztransfer->info[zdssInfoKeys.kinfoUserHeadNumber];
-		totalNumber += (int)ztransfer->info[zdssInfoKeys.kinfoValues1Number];
-		totalNumber += (int)ztransfer->info[zdssInfoKeys.kinfoValues2Number];
+		totalNumber += numberLongsInInts((int)ztransfer->info[zdssInfoKeys.kinfoInternalHeadNumber]);
+		totalNumber += numberLongsInInts((int)ztransfer->info[zdssInfoKeys.kinfoHeader2Number]);
+		totalNumber += numberLongsInInts((int)ztransfer->info[zdssInfoKeys.kinfoValues3Number]);
+		totalNumber += numberLongsInInts((int)ztransfer->info[zdssInfoKeys.kinfoUserHeadNumber]);
+		totalNumber += numberLongsInInts((int)ztransfer->info[zdssInfoKeys.kinfoValues1Number]);
+		totalNumber += numberLongsInInts((int)ztransfer->info[zdssInfoKeys.kinfoValues2Number]);
 		dummy = 0;
 		status = zgetBuff(ifltab, ztransfer->info[zdssInfoKeys.kinfoInternalHeadAddress], &dummy,
 			totalNumber, 2, BUFF_LOAD, bufferControl, buffer);
-- 
2.43.0


From a7ab5003f188cb4abc5a71fb2631cfd2bcb142df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:10 +0000
Subject: [PATCH 54/93] fix: a file whose status cannot be read is taken as new
 and overwritten

---
 heclib/heclib_c/src/System/zfileName.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/System/zfileName.c b/heclib/heclib_c/src/System/zfileName.c
index b4d1abd..0001d49 100644
--- a/heclib/heclib_c/src/System/zfileName.c
+++ b/heclib/heclib_c/src/System/zfileName.c
@@ -193,10 +193,15 @@ struct stat buf;
 		//  it does exists
 		return 1;
 	}
-	else {
-		//  Non-zero return; no, it does not exists
+	else if ((errno == ENOENT) || (errno == ENOTDIR)) {
+		//  No, it does not exists
 		return 0;
 	}
+	else {
+		//  We cannot tell (e.g., an I-O error).  It may not be taken as non-existent,
+		//  otherwise an existing file would be created anew
+		return STATUS_NOT_OKAY;
+	}
 #endif
 }
 
-- 
2.43.0


From c5d9ba0f67906480bb89335c7d8d9deed2a4dfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:54 +0000
Subject: [PATCH 55/93] fix: a failure to read or write the file header at lock
 or unlock goes unreported

---
 .../src/Internal/zcopyRecordInternal.c        | 10 ++++-
 .../heclib_c/src/Internal/zdeleteInternal.c   |  4 +-
 heclib/heclib_c/src/Internal/zlockActive.c    | 43 ++++++++++++++++---
 heclib/heclib_c/src/Internal/ztsStoreIrreg7.c |  5 ++-
 heclib/heclib_c/src/Internal/ztsStoreReg7.c   |  5 ++-
 heclib/heclib_c/src/Public/zaliasAdd.c        |  5 ++-
 heclib/heclib_c/src/Public/zaliasRemove.c     |  4 +-
 heclib/heclib_c/src/Public/zaliasRemoveAll.c  |  4 +-
 heclib/heclib_c/src/Public/zcopyFile.c        |  5 ++-
 heclib/heclib_c/src/Public/zpdStore.c         |  4 +-
 heclib/heclib_c/src/Public/zrename.c          |  2 +-
 11 files changed, 73 insertions(+), 18 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
index a079dff..6fe3e22 100644
--- a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
+++ b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
@@ -319,7 +319,10 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 				zpermWrite(ifltabTo);
 			}
 		}
-		zlockActive(ifltabTo, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		status = zlockActive(ifltabTo, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltabTo, status, DSS_FUNCTION_zcopyRecord_ID);
+		}
 	}
 	else {
 		status = zput(ifltabFrom, ifltabFrom[zdssKeys.kaddInfoLastPath], (int *)infoTo, numberInfo, 2);
@@ -348,7 +351,10 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 				zpermWrite(ifltabFrom);
 			}
 		}
-		zlockActive(ifltabFrom, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		status = zlockActive(ifltabFrom, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyRecord_ID);
+		}
 	}
 
 	if (zmessageLevel(ifltabFrom, MESS_METHOD_COPY_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 90bca1d..81fff07 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -71,6 +71,7 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	int reclaimFlag;
 	int readAction;
 	int status;
+	int status2;
 
 
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
@@ -299,7 +300,8 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	ifltab[zdssKeys.kwritingNow] = 1;
 
 	//  Unlock
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status2 = zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	if (!zisError(status) && zisError(status2)) status = status2;
 	if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 		zmessageDebug(ifltab, functionID, "Exit.  Pathname: ",pathname);
 		zmessageDebugInt(ifltab, functionID, "Handle: ", zhandle(ifltab));
diff --git a/heclib/heclib_c/src/Internal/zlockActive.c b/heclib/heclib_c/src/Internal/zlockActive.c
index b3b3c67..55dabc6 100644
--- a/heclib/heclib_c/src/Internal/zlockActive.c
+++ b/heclib/heclib_c/src/Internal/zlockActive.c
@@ -140,6 +140,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 	int j;
 	int count;
 	int status;
+	int statusWrite;
 	int numberAttempts;
 #ifdef _MSC_VER
 	DWORD sleepTime;
@@ -147,6 +148,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 	useconds_t sleepTime;
 #endif
 	double d;
+	long long lockAddress;
 	long long *fileHeader;
 	char messageString[90];
 
@@ -154,6 +156,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	handle = (int)ifltab[zdssKeys.khandle];
 	status = STATUS_OKAY;
+	statusWrite = STATUS_OKAY;
 
 
 	if (zmessageLevel(ifltab, MESS_METHOD_LOCKING_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
@@ -378,7 +381,19 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 					//  Read the file header
 					//	On Multiple users systems, be sure this is a
 					//  physical read (not just a buffer in memory)!!
-					zpermRead(ifltab);
+					lockAddress = fileHeader[zdssFileKeys.klockAddressWord];
+					status = zpermRead(ifltab);
+					if (zisError(status)) {
+						//  Without the current header nothing may be written
+						if (ifltab[zdssKeys.klocked]) {
+							ifltab[zdssKeys.klockLevel] = 0;
+							if (ifltab[zdssKeys.kmultiUserAccess] != EXCLUSIVE_ACCESS) {
+								zlockDss(ifltab, handle, 0, lockAddress, 8);
+								ifltab[zdssKeys.klocked] = 0;
+							}
+						}
+						return zerrorUpdate(ifltab, status, DSS_FUNCTION_zlocking_ID);
+					}
 				}
 			}
 			else if (ifltab[zdssKeys.klockLevel] < level) {
@@ -403,8 +418,9 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 			if (ifltab[zdssKeys.kmultiUserAccess] == RELEASE_ACCESS) {
 				//  Release exclusive access
 				if (flush && ifltab[zdssKeys.kwritingNow]) {
-					zpermWrite(ifltab);
-					zflushToDisk(ifltab, 1);
+					statusWrite = zpermWrite(ifltab);
+					status = zflushToDisk(ifltab, 1);
+					if (statusWrite == STATUS_OKAY) statusWrite = status;
 					ifltab[zdssKeys.kwritingNow] = 0;
 				}
 				//  Now unlock the file
@@ -421,7 +437,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 				//  (e.g., an operation that stopped part way); once unlocked, the
 				//  header on disk is the one that counts
 				if (ifltab[zdssKeys.kwritingNow] && (flush || !ifltab[zdssKeys.kerrorSevere])) {
-					zpermWrite(ifltab);
+					statusWrite = zpermWrite(ifltab);
 					ifltab[zdssKeys.kwritingNow] = 0;
 				}
 				if (ifltab[zdssKeys.kmultiUserAccess] != EXCLUSIVE_ACCESS) {
@@ -429,7 +445,8 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 					if (ifltab[zdssKeys.klocked] && (ifltab[zdssKeys.kmultiUserAccess] == MULTI_USER_ACCESS)) {
 						//  Flush the file if in multi-user access mode...
 						if (flush) {
-							zflushToDisk(ifltab, 1);
+							status = zflushToDisk(ifltab, 1);
+							if (statusWrite == STATUS_OKAY) statusWrite = status;
 						}
 
 						//  Now unlock the file
@@ -459,13 +476,17 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 				//  Read the file header (Always!)
 				//  Don't need to force (not multi-user)
 				if (flush) {
-					zpermRead(ifltab);
+					status = zpermRead(ifltab);
+					if (zisError(status)) {
+						ifltab[zdssKeys.klocked] = 0;
+						return zerrorUpdate(ifltab, status, DSS_FUNCTION_zlocking_ID);
+					}
 				}
 			}
 		}
 		else {
 			if (ifltab[zdssKeys.kwritingNow] && (flush || !ifltab[zdssKeys.kerrorSevere])) {
-				zpermWrite(ifltab);
+				statusWrite = zpermWrite(ifltab);
 				ifltab[zdssKeys.kwritingNow] = 0;
 			}
 			ifltab[zdssKeys.klocked] = 0;
@@ -488,6 +509,14 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 			zmessageDebug(ifltab, DSS_FUNCTION_zlocking_ID, "File is Unlocked.", "");
 		}
 	}
+	if (statusWrite != STATUS_OKAY) {
+		//  What was written may not be (completely) on disk
+		if (zisError(statusWrite)) {
+			return zerrorUpdate(ifltab, statusWrite, DSS_FUNCTION_zlocking_ID);
+		}
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zlocking_ID, zdssErrorCodes.WRITE_ERROR,
+								statusWrite, 0, zdssErrorSeverity.WRITE_ERROR, "", "");
+	}
 	return status;
 }
 
diff --git a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
index 9bc34c4..2eed0b8 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
@@ -559,12 +559,15 @@ int ztsStoreIrreg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 	}
 	//-----------------------------------------------------
 
-	zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 
 	if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
 		zmessageDebug(ifltab, DSS_FUNCTION_ztsStoreIrreg_ID, "Exit, Pathname: ", tss->pathname);
 	}
 
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsStoreIrreg_ID);
+	}
 	return STATUS_OKAY;
 }
 
diff --git a/heclib/heclib_c/src/Internal/ztsStoreReg7.c b/heclib/heclib_c/src/Internal/ztsStoreReg7.c
index eec3687..cf7fbba 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreReg7.c
@@ -358,13 +358,16 @@ int ztsStoreReg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 	}
 	//-----------------------------------------------------
 
-	zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 
 
 	if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
 		zmessageDebug(ifltab, DSS_FUNCTION_ztsStoreReg_ID, "Exit, Pathname: ", tss->pathname);
 	}
 
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsStoreReg_ID);
+	}
 	return STATUS_OKAY;
 }
 
diff --git a/heclib/heclib_c/src/Public/zaliasAdd.c b/heclib/heclib_c/src/Public/zaliasAdd.c
index 2fc540c..d613ff8 100644
--- a/heclib/heclib_c/src/Public/zaliasAdd.c
+++ b/heclib/heclib_c/src/Public/zaliasAdd.c
@@ -220,7 +220,10 @@ int zaliasAdd(long long *ifltab, const char* primayPathname, const char* aliasPa
 		zmessage2(ifltab, "                       Alias Pathname: ",aliasPathname);
 	}
 
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasAdd_ID);
+	}
 	return status;
 }
 
diff --git a/heclib/heclib_c/src/Public/zaliasRemove.c b/heclib/heclib_c/src/Public/zaliasRemove.c
index e34f052..347f023 100644
--- a/heclib/heclib_c/src/Public/zaliasRemove.c
+++ b/heclib/heclib_c/src/Public/zaliasRemove.c
@@ -57,6 +57,7 @@ int zaliasRemove(long long *ifltab, const char* aliasPathname)
 	long long longStatus;
 	long long lnumber;
 	int status;
+	int status2;
 	int numberChars;
 	int pathnameSize;
 	long long binAlias[4];
@@ -275,7 +276,8 @@ int zaliasRemove(long long *ifltab, const char* aliasPathname)
 	fileHeader[zdssFileKeys.kdead] += zdssBinKeys.kbinSize + numberLongsInBytes((int)strlen(aliasPathname));
 
 	status = zpermWrite(ifltab);
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status2 = zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	if (!zisError(status)) status = status2;
 	if (zisError(status)) {
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 	}
diff --git a/heclib/heclib_c/src/Public/zaliasRemoveAll.c b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
index 9f20fde..15e0319 100644
--- a/heclib/heclib_c/src/Public/zaliasRemoveAll.c
+++ b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
@@ -58,6 +58,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	long long zero;
 	long long longStatus;
 	int status;
+	int status2;
 	int numberAliases;
 	long long address;
 	long long lnumber;
@@ -181,7 +182,8 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	fileHeader[zdssFileKeys.kcatSortStatus] = 3;
 
 	status = zpermWrite(ifltab);
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status2 = zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	if (!zisError(status)) status = status2;
 	if (zisError(status)) {
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 	}
diff --git a/heclib/heclib_c/src/Public/zcopyFile.c b/heclib/heclib_c/src/Public/zcopyFile.c
index 79f5f9e..8dcaf4b 100644
--- a/heclib/heclib_c/src/Public/zcopyFile.c
+++ b/heclib/heclib_c/src/Public/zcopyFile.c
@@ -210,7 +210,10 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 	//  Be sure to write to disk.
 	if (zgetVersion(ifltabTo) == 7) {
 		ifltabTo[zdssKeys.kwritingNow] = 1;
-		zlockActive(ifltabTo, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		status = zlockActive(ifltabTo, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltabTo, status, DSS_FUNCTION_zcopyFile_ID);
+		}
 	}
 
 	if (count > 0) {
diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 4eddf2a..1e7e953 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -213,6 +213,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 	int numberRows;
 	int number;
 	int status;
+	int status2;
 	int dataType;
 	int boolStoreDoubles;
 	int startOrdinate;
@@ -1173,7 +1174,8 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				clabels = 0;
 			}
 		}
-		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		status2 = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		if (!zisError(status) && zisError(status2)) status = status2;
 			if (zisError(status)) {
 			FREE_TEMPS_AND_RESTORE
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 710b7b4..3b74078 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -414,7 +414,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 
 	if (infoOld) free(infoOld);
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 
 	if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_USER_DIAG)) {
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zrename_ID, "Exit, status: ", status);
-- 
2.43.0


From 8f0656b59903eb0d348670742c2b26f5cf74206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:55 +0000
Subject: [PATCH 56/93] fix: storing a location overwrites the existing one
 when looking for it fails

---
 heclib/heclib_c/src/Public/zlocationStore.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zlocationStore.c b/heclib/heclib_c/src/Public/zlocationStore.c
index 29cb88a..ed15cbb 100644
--- a/heclib/heclib_c/src/Public/zlocationStore.c
+++ b/heclib/heclib_c/src/Public/zlocationStore.c
@@ -174,6 +174,11 @@ int zlocationStore(long long *ifltab, zStructLocation *locationStruct, int stora
 	if (storageFlag == 0) {
 		//  Don't update if the data set already exists
 		status = zcheck(ifltab, locationPathname);
+		if (zisError(status)) {
+			//  Cannot tell if it exists (e.g., read error)
+			free(locationPathname);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zlocationStore_ID);
+		}
 		if (status == STATUS_RECORD_FOUND) {
 				if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
 					zmessageDebug(ifltab, DSS_FUNCTION_zlocationStore_ID, "Record already exists and storage flag set to not overwrite", "");
-- 
2.43.0


From 627e7fbd0648bc61bbc0c729d30d9f945471256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:55 +0000
Subject: [PATCH 57/93] fix: a rename that could not be written reports success

---
 heclib/heclib_c/src/Public/zrename.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 3b74078..b4f3cc4 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -365,6 +365,12 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	//  Update the pathname bin area
 	i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &dataType, &temp);
 	istat = zbinUpdate(ifltab, newPath, ifltab[zdssKeys.kaddInfoLastPath], 1, dataType);
+	if (zisError(istat)) {
+		if (infoOld) free(infoOld);
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+		free(newPath);
+		return zerrorUpdate(ifltab, istat, DSS_FUNCTION_zrename_ID);
+	}
 
 	//  Now write the information area to disk
 	ifltab[zdssKeys.kinfoAddress] = ifltab[zdssKeys.kaddInfoLastPath];
-- 
2.43.0


From 59bf3eb167615d7781c2ff3f8466e02e70196d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:32 +0000
Subject: [PATCH 58/93] fix: storing goes on after deleting the record it
 replaces failed

---
 heclib/heclib_c/src/Internal/ztsStoreIrreg7.c | 6 +++++-
 heclib/heclib_c/src/Public/zpdStore.c         | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
index 2eed0b8..70d30e9 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
@@ -418,7 +418,11 @@ int ztsStoreIrreg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
     // If there are no values to store, and the block is not read, then delete the block
 		if (numberToStore == 0 && boolReadBlock == 0 && storageFlag == 1) {
 			// we need to delete this block/record
-			zdelete(ifltab,path);
+			status = zdelete(ifltab,path);
+			if (zisError(status)) {
+				zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+				return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsStoreIrreg_ID);
+			}
 		}
 		else if (numberToStore > 0) {
 			itimes = (int *)calloc((size_t)numberToStore, (size_t)4);
diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 1e7e953..c814016 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -869,11 +869,13 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 			int diskType = zdataType(ifltab,pds->pathname );
 			if (diskType > 0 && diskType != dataType) // exists and not the same dataType
 			{
-				zdelete(ifltab, pds->pathname);
+				status = zdelete(ifltab, pds->pathname);
 			}
 		}
 
-		status = zwrite(ifltab, ztransfer);
+		if (!zisError(status)) {
+			status = zwrite(ifltab, ztransfer);
+		}
 
 		if (internalHeader2) {
 			free(internalHeader2);
-- 
2.43.0


From fb4bfda390ed99c639b5dd37e3c6f527f87875ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:32 +0000
Subject: [PATCH 59/93] fix: space at the end of the file is used although
 taking it failed

---
 heclib/heclib_c/src/Internal/zbinNew.c              |  3 +++
 heclib/heclib_c/src/Internal/zgetFileSpace.c        | 13 +++++++++++--
 heclib/heclib_c/src/Internal/zreclaimRead.c         |  3 +++
 .../src/Internal/zsetCatalogSortAddresses.c         |  6 ++++++
 heclib/heclib_c/src/Internal/zwriteExisting.c       |  3 +++
 heclib/heclib_c/src/Internal/zwriteNew.c            |  3 +++
 heclib/heclib_c/src/Public/zrename.c                |  8 ++++++++
 7 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zbinNew.c b/heclib/heclib_c/src/Internal/zbinNew.c
index fe85677..d4dc337 100644
--- a/heclib/heclib_c/src/Internal/zbinNew.c
+++ b/heclib/heclib_c/src/Internal/zbinNew.c
@@ -71,6 +71,9 @@ int zbinNew(long long *ifltab)
 		//  One extra word at the end of the bin block to point to the next block
 		blockSize = (int)(fileHeader[zdssFileKeys.kbinSize] * fileHeader[zdssFileKeys.kbinsPerBlock]) + 1;
 		newBinAddress = zgetFileSpace(ifltab, blockSize, 0, &atEOF);
+		if (newBinAddress < 0) {
+			return zerrorUpdate(ifltab, (int)newBinAddress, DSS_FUNCTION_zbinNew_ID);
+		}
 		status = zput(ifltab, newBinAddress, (int *)&izero, -blockSize, 2);
 		if (zisError(status)) {
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
diff --git a/heclib/heclib_c/src/Internal/zgetFileSpace.c b/heclib/heclib_c/src/Internal/zgetFileSpace.c
index 8eb084b..3647958 100644
--- a/heclib/heclib_c/src/Internal/zgetFileSpace.c
+++ b/heclib/heclib_c/src/Internal/zgetFileSpace.c
@@ -61,6 +61,7 @@ long long zgetFileSpace(long long *ifltab, int sizeNeeded, int boolReclaimedOK,
 	int loc;
 	int ipos;
 	int diff;
+	int status;
 
 
 	address = 0;
@@ -133,8 +134,16 @@ long long zgetFileSpace(long long *ifltab, int sizeNeeded, int boolReclaimedOK,
 		//  readable and not be given out again.
 		//  (When the file is being created, the header is written after the space is allocated.)
 		if (fileHeader[zdssFileKeys.kaddFirstBin] > 0) {
-			zwriteEOF(ifltab);
-			zput(ifltab, zdssFileKeys.kfileSize, (int *)&fileHeader[zdssFileKeys.kfileSize], 1, 2);
+			status = zwriteEOF(ifltab);
+			if (!zisError(status)) {
+				status = zput(ifltab, zdssFileKeys.kfileSize, (int *)&fileHeader[zdssFileKeys.kfileSize], 1, 2);
+			}
+			if (zisError(status)) {
+				//  There is no such space.  Return the error (a negative number) in place of an address
+				fileHeader[zdssFileKeys.kfileSize] -= sizeNeeded;
+				*atEOF = 0;
+				return (long long)zerrorUpdate(ifltab, status, DSS_FUNCTION_zgetFileSpace_ID);
+			}
 		}
 	}
 
diff --git a/heclib/heclib_c/src/Internal/zreclaimRead.c b/heclib/heclib_c/src/Internal/zreclaimRead.c
index 0cadfc4..3b39b80 100644
--- a/heclib/heclib_c/src/Internal/zreclaimRead.c
+++ b/heclib/heclib_c/src/Internal/zreclaimRead.c
@@ -70,6 +70,9 @@ long long* zreclaimRead (long long *ifltab, int *iarrayNumber, int boolRelease)
 					}
 					size = (int)fileHeader[zdssFileKeys.kreclaimSize];
 					address = zgetFileSpace(ifltab, size, 0, &atEOF);
+					if (address < 0) {
+						return (long long *)0;
+					}
 					reclaimArray[iaddLoc] = address;
 					zreclaimWrite (ifltab);
 					fileHeader[zdssFileKeys.kreclaimSegmentsUsed]++;
diff --git a/heclib/heclib_c/src/Internal/zsetCatalogSortAddresses.c b/heclib/heclib_c/src/Internal/zsetCatalogSortAddresses.c
index 586202e..0fc2dd7 100644
--- a/heclib/heclib_c/src/Internal/zsetCatalogSortAddresses.c
+++ b/heclib/heclib_c/src/Internal/zsetCatalogSortAddresses.c
@@ -182,6 +182,12 @@ int zsetCatalogSortAddresses(long long* ifltab, long long* sortAddresses, int so
 		//  allow for a flag at the beginning and end of the array (+2)
 		fileHeader[zdssFileKeys.kcatSortSize] = sortAddressesLen;
 		fileHeader[zdssFileKeys.kcatSortAddress] = zgetFileSpace(ifltab, ((int)fileHeader[zdssFileKeys.kcatSortSize]+2), 0, &atEOF);
+		if (fileHeader[zdssFileKeys.kcatSortAddress] < 0) {
+			status = (int)fileHeader[zdssFileKeys.kcatSortAddress];
+			fileHeader[zdssFileKeys.kcatSortAddress] = 0;
+			fileHeader[zdssFileKeys.kcatSortSize] = 0;
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcatalog_ID);
+		}
 		lWord = DSS_START_CAT_SORT_FLAG;
 		status = zput(ifltab, fileHeader[zdssFileKeys.kcatSortAddress], (int *)&lWord, 2, 1);
 		if (zisError(status)) {
diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index 3dc5292..9532df2 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -379,6 +379,9 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 			numberLongsInInts(ztransfer->totalAllocatedSize);
 		//  We can use reclaimed space - even if it includes this same record
 		address = zgetFileSpace(ifltab, total, 1, wroteAtEOF);
+		if (address < 0) {
+			return zerrorUpdate(ifltab, (int)address, DSS_FUNCTION_zwriteExisting_ID);
+		}
 		ifltab[zdssKeys.kaddInfoLastPath] = address;
 		fileHeader[zdssFileKeys.knumberExpansions] += 1;
 
diff --git a/heclib/heclib_c/src/Internal/zwriteNew.c b/heclib/heclib_c/src/Internal/zwriteNew.c
index 6f1c9f1..c2de693 100644
--- a/heclib/heclib_c/src/Internal/zwriteNew.c
+++ b/heclib/heclib_c/src/Internal/zwriteNew.c
@@ -239,6 +239,9 @@ int zwriteNew(long long *ifltab, zStructTransfer* ztransfer,
 		zmessageDebug(ifltab, DSS_FUNCTION_zwriteNew_ID, "Info block size: ", messageString);
 	}
 	address = zgetFileSpace(ifltab, total, 1, wroteAtEOF);
+	if (address < 0) {
+		return zerrorUpdate(ifltab, (int)address, DSS_FUNCTION_zwriteNew_ID);
+	}
 
 	//  Is this pathname already in the directory, but without an information block?  (It is when
 	//  the program writing it ended before it was done.)  It gets a new entry, don't list it twice.
diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index b4f3cc4..2426da3 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -341,6 +341,14 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		//  The info area for this record will be at EOF
 		//  Save the location of info in the pathname bin
 		ifltab[zdssKeys.kaddInfoLastPath] = zgetFileSpace(ifltab, numberInfoNew, 0, &atEOF);
+		if (ifltab[zdssKeys.kaddInfoLastPath] < 0) {
+			istat = zerrorUpdate(ifltab, (int)ifltab[zdssKeys.kaddInfoLastPath], DSS_FUNCTION_zrename_ID);
+			ifltab[zdssKeys.kaddInfoLastPath] = 0;
+			if (infoOld) free(infoOld);
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			free(newPath);
+			return istat;
+		}
 		//  Now copy the old info area over new
 		for (i=0; i<numberInfoOld; i++) {
 			info[i] = infoOld[i];
-- 
2.43.0


From 2724af00edd0ee089abc57f012e67565eb9f884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 60/93] fix: paired data and time series structs made without
 their units or type

---
 heclib/heclib_c/src/Public/zstructPdNewDoubles.c      | 9 +++++++++
 heclib/heclib_c/src/Public/zstructPdNewFloats.c       | 9 +++++++++
 heclib/heclib_c/src/Public/zstructTsNewIrregDoubles.c | 5 +++++
 heclib/heclib_c/src/Public/zstructTsNewIrregFloats.c  | 5 +++++
 heclib/heclib_c/src/Public/zstructTsNewRegDoubles.c   | 5 +++++
 heclib/heclib_c/src/Public/zstructTsNewRegFloats.c    | 5 +++++
 6 files changed, 38 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zstructPdNewDoubles.c b/heclib/heclib_c/src/Public/zstructPdNewDoubles.c
index fe6f73d..7a86dc0 100644
--- a/heclib/heclib_c/src/Public/zstructPdNewDoubles.c
+++ b/heclib/heclib_c/src/Public/zstructPdNewDoubles.c
@@ -87,6 +87,9 @@ zStructPairedData* zstructPdNewDoubles(const char* pathname, double *doubleOrdin
 	zStructPairedData *pds;
 
 	pds = zstructPdNew(pathname);
+	if (!pds) {
+		return NULL;
+	}
 
 	pds->doubleOrdinates = doubleOrdinates;
 	pds->doubleValues = doubleValues;
@@ -109,6 +112,12 @@ zStructPairedData* zstructPdNewDoubles(const char* pathname, double *doubleOrdin
 		pds->typeDependent = mallocAndCopy(typeDependent);
 		pds->allocated[zSTRUCT_typeDependent] = 1;
 	}
+	if (unitsIndependent && (!pds->unitsIndependent || (typeIndependent && !pds->typeIndependent) ||
+		(unitsDependent && !pds->unitsDependent) || (typeDependent && !pds->typeDependent))) {
+		//  Out of memory; don't hand over a struct that is missing parts
+		zstructFree(pds);
+		return NULL;
+	}
 
 	return pds;
 }
diff --git a/heclib/heclib_c/src/Public/zstructPdNewFloats.c b/heclib/heclib_c/src/Public/zstructPdNewFloats.c
index 46db08c..704413d 100644
--- a/heclib/heclib_c/src/Public/zstructPdNewFloats.c
+++ b/heclib/heclib_c/src/Public/zstructPdNewFloats.c
@@ -88,6 +88,9 @@ zStructPairedData* zstructPdNewFloats(const char* pathname, float *floatOrdinate
 	zStructPairedData *pds;
 
 	pds = zstructPdNew(pathname);
+	if (!pds) {
+		return NULL;
+	}
 
 	pds->floatOrdinates = floatOrdinates;
 	pds->floatValues = floatValues;
@@ -110,6 +113,12 @@ zStructPairedData* zstructPdNewFloats(const char* pathname, float *floatOrdinate
 		pds->typeDependent = mallocAndCopy(typeDependent);
 		pds->allocated[zSTRUCT_typeDependent] = 1;
 	}
+	if (unitsIndependent && (!pds->unitsIndependent || (typeIndependent && !pds->typeIndependent) ||
+		(unitsDependent && !pds->unitsDependent) || (typeDependent && !pds->typeDependent))) {
+		//  Out of memory; don't hand over a struct that is missing parts
+		zstructFree(pds);
+		return NULL;
+	}
 
 	return pds;
 }
diff --git a/heclib/heclib_c/src/Public/zstructTsNewIrregDoubles.c b/heclib/heclib_c/src/Public/zstructTsNewIrregDoubles.c
index 145d993..53f0867 100644
--- a/heclib/heclib_c/src/Public/zstructTsNewIrregDoubles.c
+++ b/heclib/heclib_c/src/Public/zstructTsNewIrregDoubles.c
@@ -113,6 +113,11 @@ zStructTimeSeries* zstructTsNewIrregDoubles(const char* pathname, double *double
 		tss->type = mallocAndCopy(type);
 		tss->allocated[zSTRUCT_TS_type] = 1;
 	}
+	if ((units && !tss->units) || (type && !tss->type)) {
+		//  Out of memory; don't hand over a struct that is missing parts
+		zstructFree(tss);
+		return NULL;
+	}
 
 	return tss;
 }
diff --git a/heclib/heclib_c/src/Public/zstructTsNewIrregFloats.c b/heclib/heclib_c/src/Public/zstructTsNewIrregFloats.c
index 99411f3..bdb4d6b 100644
--- a/heclib/heclib_c/src/Public/zstructTsNewIrregFloats.c
+++ b/heclib/heclib_c/src/Public/zstructTsNewIrregFloats.c
@@ -112,6 +112,11 @@ zStructTimeSeries* zstructTsNewIrregFloats(const char* pathname, float *floatVal
 		tss->type = mallocAndCopy(type);
 		tss->allocated[zSTRUCT_TS_type] = 1;
 	}
+	if ((units && !tss->units) || (type && !tss->type)) {
+		//  Out of memory; don't hand over a struct that is missing parts
+		zstructFree(tss);
+		return NULL;
+	}
 
 	return tss;
 }
diff --git a/heclib/heclib_c/src/Public/zstructTsNewRegDoubles.c b/heclib/heclib_c/src/Public/zstructTsNewRegDoubles.c
index c957462..1dba2db 100644
--- a/heclib/heclib_c/src/Public/zstructTsNewRegDoubles.c
+++ b/heclib/heclib_c/src/Public/zstructTsNewRegDoubles.c
@@ -96,6 +96,11 @@ zStructTimeSeries* zstructTsNewRegDoubles(const char* pathname, double *doubleVa
 		tss->type = mallocAndCopy(type);
 		tss->allocated[zSTRUCT_TS_type] = 1;
 	}
+	if ((units && !tss->units) || (type && !tss->type)) {
+		//  Out of memory; don't hand over a struct that is missing parts
+		zstructFree(tss);
+		return NULL;
+	}
 
 	return tss;
 }
diff --git a/heclib/heclib_c/src/Public/zstructTsNewRegFloats.c b/heclib/heclib_c/src/Public/zstructTsNewRegFloats.c
index b41f7d9..9ddf1ed 100644
--- a/heclib/heclib_c/src/Public/zstructTsNewRegFloats.c
+++ b/heclib/heclib_c/src/Public/zstructTsNewRegFloats.c
@@ -95,6 +95,11 @@ zStructTimeSeries* zstructTsNewRegFloats(const char* pathname, float *floatValue
 		tss->type = mallocAndCopy(type);
 		tss->allocated[zSTRUCT_TS_type] = 1;
 	}
+	if ((units && !tss->units) || (type && !tss->type)) {
+		//  Out of memory; don't hand over a struct that is missing parts
+		zstructFree(tss);
+		return NULL;
+	}
 
 	return tss;
 }
-- 
2.43.0


From a9405133f787e0dd2df83c60c9714c8f84ecaea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 61/93] fix: retrieving reports a header that could not be
 unpacked for lack of memory

---
 heclib/heclib_c/src/Internal/zpdUnitsToHead.c    |  2 +-
 .../src/Internal/ztsInternalHeaderUnpack.c       |  2 +-
 heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c |  6 +++++-
 heclib/heclib_c/src/Internal/ztsRetrieveReg7.c   | 16 ++++++++++++++--
 heclib/heclib_c/src/Public/zpdRetrieve.c         |  7 ++++++-
 5 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zpdUnitsToHead.c b/heclib/heclib_c/src/Internal/zpdUnitsToHead.c
index d1e258d..ffe2390 100644
--- a/heclib/heclib_c/src/Internal/zpdUnitsToHead.c
+++ b/heclib/heclib_c/src/Internal/zpdUnitsToHead.c
@@ -99,7 +99,7 @@ int zpdHeadToUnits(zStructPairedData *pds, int *internalHeader, int internalHead
 
 	len = internalHeaderNumber - INT_HEAD_pdUnits;
 	//  Do we have any units or type?  (which is okay)
-	if (len <= 0) return len;
+	if (len <= 0) return STATUS_OKAY;
 
 	//  The start of the units has been moved from int 5 to int 6 
 	//  This is for updated files adopted for big endian machines and all strings
diff --git a/heclib/heclib_c/src/Internal/ztsInternalHeaderUnpack.c b/heclib/heclib_c/src/Internal/ztsInternalHeaderUnpack.c
index 47e2009..4f0793b 100644
--- a/heclib/heclib_c/src/Internal/ztsInternalHeaderUnpack.c
+++ b/heclib/heclib_c/src/Internal/ztsInternalHeaderUnpack.c
@@ -149,7 +149,7 @@ int mallocAndAssignString(char** destination, char* source, int* ipos, zStructTi
 		if (len > 0 && trimLength(&source[*ipos])) {
 			*destination = mallocAndCopyTrim(&source[*ipos]);
 			if (!*destination) {
-				return STATUS_NOT_OKAY;
+				return zdssErrorCodes.CANNOT_ALLOCATE_MEMORY;
 			}
 			tss->allocated[allocatedPosition] = 1;
 		}
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
index 85f59f0..aec2046 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
@@ -579,7 +579,11 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 
 			//  Save info for first record found
 			if (!foundOne) {
-				ztsInternalHeaderUnpack(tss, internalHeader, internalHeaderNumber);
+				if (ztsInternalHeaderUnpack(tss, internalHeader, internalHeaderNumber) == zdssErrorCodes.CANNOT_ALLOCATE_MEMORY) {
+					return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveIrreg_ID,
+						zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+						zdssErrorSeverity.MEMORY_ERROR, tss->pathname, "Allocating units and type");
+				}
 				if (tss->julianBaseDate < 0) {
 					tss->julianBaseDate = julianBlockDate;
 				}
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
index 540952a..d50dde4 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
@@ -573,7 +573,13 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 		if (status == STATUS_RECORD_FOUND) {
 			// if we don't have units, lets keep trying other time-series records for units..
 			if (foundOne && tss->units == NULL && !boolProfileRecord) {
-				ztsInternalHeaderUnpack(tss, internalHeader, internalHeaderNumber);
+				if (ztsInternalHeaderUnpack(tss, internalHeader, internalHeaderNumber) == zdssErrorCodes.CANNOT_ALLOCATE_MEMORY) {
+					if (buffer) free(buffer);
+					if (profileDepths) free(profileDepths);
+					return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveReg_ID,
+						zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+						zdssErrorSeverity.MEMORY_ERROR, tss->pathname, "Allocating units and type");
+				}
 			}
 
 			if (!foundOne) {
@@ -632,7 +638,13 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 					profileDepthsArraySize = 0;
 				}
 
-				ztsInternalHeaderUnpack(tss, internalHeader, internalHeaderNumber);
+				if (ztsInternalHeaderUnpack(tss, internalHeader, internalHeaderNumber) == zdssErrorCodes.CANNOT_ALLOCATE_MEMORY) {
+					if (buffer) free(buffer);
+					if (profileDepths) free(profileDepths);
+					return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveReg_ID,
+						zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+						zdssErrorSeverity.MEMORY_ERROR, tss->pathname, "Allocating units and type");
+				}
 
 				//  Save info about first record
 				tss->dateOfFirstRecFound = julianBlockDate;
diff --git a/heclib/heclib_c/src/Public/zpdRetrieve.c b/heclib/heclib_c/src/Public/zpdRetrieve.c
index 4678730..9e7aa07 100644
--- a/heclib/heclib_c/src/Public/zpdRetrieve.c
+++ b/heclib/heclib_c/src/Public/zpdRetrieve.c
@@ -370,7 +370,12 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zpdRetrieve_ID, "Number values: ", pds->numberOrdinates);
 	}
 
-	zpdHeadToUnits(pds, ztransfer->internalHeader, ztransfer->internalHeaderNumber);
+	if (zpdHeadToUnits(pds, ztransfer->internalHeader, ztransfer->internalHeaderNumber) == STATUS_NOT_OKAY) {
+		zstructFree(ztransfer);
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zpdRetrieve_ID,
+			zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+			zdssErrorSeverity.MEMORY_ERROR, pds->pathname, "Allocating units and type");
+	}
 
 	if (ztransfer->userHeaderNumber > 0) {
 		pds->userHeaderNumber = ztransfer->userHeaderNumber;
-- 
2.43.0


From d0a27bc1473b63a86724374af2a8e8112bab96e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 62/93] fix: the C interface stores a struct whose strings
 could not be copied

---
 heclib/hecdss/hecdss.c | 63 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 1 deletion(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index bcb6130..af53fc4 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -390,10 +390,19 @@ HECDSS_API int hec_dss_tsStoreRegular(dss_file* dss, const char* pathname,
       
 
     tss = zstructTsNewRegFloats(pathname, values, valueArraySize, startDate, startTime, units, type);
+    if (tss == NULL) {
+      free(values);
+      hec_dss_log_message("Error allocating memory in hec_dss_tsStoreRegular ");
+      return -1;
+    }
     tss->allocated[zSTRUCT_TS_floatValues] = 1;// zstructFree will free float array
   }
   else {
     tss = zstructTsNewRegDoubles(pathname, valueArray, valueArraySize, startDate, startTime, units, type);
+    if (tss == NULL) {
+      hec_dss_log_message("Error allocating memory in hec_dss_tsStoreRegular ");
+      return -1;
+    }
   }
   if (qualityArraySize > 0 && qualityArraySize == valueArraySize) {
     tss->quality = qualityArray;
@@ -403,6 +412,11 @@ HECDSS_API int hec_dss_tsStoreRegular(dss_file* dss, const char* pathname,
 
   tss->timeZoneName = mallocAndCopy(timeZoneName);
   tss->allocated[zSTRUCT_timeZoneName] = 1;
+  if (timeZoneName != NULL && tss->timeZoneName == NULL) {
+    zstructFree(tss);
+    hec_dss_log_message("Error allocating memory in hec_dss_tsStoreRegular ");
+    return -1;
+  }
   int status = ztsStore(dss->ifltab, tss, storageFlag);
 
   zstructFree(tss);
@@ -427,11 +441,20 @@ HECDSS_API int hec_dss_tsStoreIregular(dss_file* dss, const char* pathname,
 
     tss = zstructTsNewIrregFloats(pathname,values, valueArraySize,times,
       timeGranularitySeconds, startDateBase,units, type);
+    if (tss == NULL) {
+      free(values);
+      hec_dss_log_message("Error allocating memory in hec_dss_tsStoreIregular ");
+      return -1;
+    }
     tss->allocated[zSTRUCT_TS_floatValues] = 1;// zstructFree will free float array
   }
   else {
     tss = zstructTsNewIrregDoubles(pathname, valueArray, valueArraySize, times,
       timeGranularitySeconds, startDateBase, units, type);
+    if (tss == NULL) {
+      hec_dss_log_message("Error allocating memory in hec_dss_tsStoreIregular ");
+      return -1;
+    }
   }
   if  (qualityArraySize > 0 && qualityArraySize == valueArraySize) {
     // TO DO.. quality can be multi-dimensional (Is that used?)
@@ -444,6 +467,11 @@ HECDSS_API int hec_dss_tsStoreIregular(dss_file* dss, const char* pathname,
 
   tss->timeZoneName = mallocAndCopy(timeZoneName);
   tss->allocated[zSTRUCT_timeZoneName] = 1;
+  if (timeZoneName != NULL && tss->timeZoneName == NULL) {
+    zstructFree(tss);
+    hec_dss_log_message("Error allocating memory in hec_dss_tsStoreIregular ");
+    return -1;
+  }
   int status = ztsStore(dss->ifltab, tss, storageFlag);
 
 
@@ -494,6 +522,10 @@ HECDSS_API int hec_dss_locationStore(dss_file* dss, const char* fullPath,
   const int replace) {
 
   zStructLocation* loc = zstructLocationNew(fullPath);
+  if (loc == NULL) {
+    hec_dss_log_message("Error allocating memory in hec_dss_locationStore ");
+    return -1;
+  }
   
   loc->xOrdinate = x;
   loc->yOrdinate = y;
@@ -508,6 +540,11 @@ HECDSS_API int hec_dss_locationStore(dss_file* dss, const char* fullPath,
   loc->allocated[zSTRUCT_timeZoneName] = 1;
   loc->supplemental = mallocAndCopy(supplemental);
   loc->allocated[zSTRUCT_otherInformation] = 1;
+  if ((timeZoneName != NULL && loc->timeZoneName == NULL) || (supplemental != NULL && loc->supplemental == NULL)) {
+    zstructFree(loc);
+    hec_dss_log_message("Error allocating memory in hec_dss_locationStore ");
+    return -1;
+  }
   int status = zlocationStore(dss->ifltab, loc, replace);
 
   zstructFree(loc);
@@ -660,6 +697,10 @@ HECDSS_API int hec_dss_pdStore(dss_file* dss, const char* pathname,
 {
   zStructPairedData* pds = zstructPdNewDoubles(pathname, doubleOrdinates, doubleValues,
     numberOrdinates, numberCurves, unitsIndependent, typeIndependent, unitsDependent, typeDependent);
+  if (pds == NULL) {
+    hec_dss_log_message("Error allocating memory in hec_dss_pdStore ");
+    return -1;
+  }
 
     /// -- leaving these meta-data below out for initial version.
     //*boolIndependentIsXaxis = pds->boolIndependentIsXaxis; 
@@ -670,13 +711,20 @@ HECDSS_API int hec_dss_pdStore(dss_file* dss, const char* pathname,
     pds->labels = malloc(labelsLength);
     pds->allocated[zSTRUCT_PD_labels] = 1;
 
-    if (pds->labels == NULL)
+    if (pds->labels == NULL) {
+      zstructFree(pds);
       return -1;
+    }
     pds->labelsLength = labelsLength;
     memcpy(pds->labels, labels, labelsLength);
   }
   pds->timeZoneName = mallocAndCopy(timeZoneName);
   pds->allocated[zSTRUCT_timeZoneName] = 1;
+  if (timeZoneName != NULL && pds->timeZoneName == NULL) {
+    zstructFree(pds);
+    hec_dss_log_message("Error allocating memory in hec_dss_pdStore ");
+    return -1;
+  }
     
   int status = zpdStore(dss->ifltab, pds, PD_STORE_DOUBLE);
 
@@ -825,6 +873,14 @@ HECDSS_API int hec_dss_gridStore(dss_file* dss, const char* pathname,
   gridStruct->_minDataValue = hec_dss_allocate_float(minDataValue);
   gridStruct->_maxDataValue = hec_dss_allocate_float(maxDataValue);
   gridStruct->_meanDataValue = hec_dss_allocate_float(meanDataValue);
+  if ((dataUnits != NULL && gridStruct->_dataUnits == NULL) || (dataSource != NULL && gridStruct->_dataSource == NULL) ||
+      (srsName != NULL && gridStruct->_srsName == NULL) || (srsDefinition != NULL && gridStruct->_srsDefinition == NULL) ||
+      (timeZoneID != NULL && gridStruct->_timeZoneID == NULL) || gridStruct->_minDataValue == NULL ||
+      gridStruct->_maxDataValue == NULL || gridStruct->_meanDataValue == NULL) {
+    zstructFree(gridStruct);
+    hec_dss_log_message("Error allocating memory in hec_dss_gridStore ");
+    return -1;
+  }
 
   gridStruct->_rangeLimitTable = rangeLimitTable;
   gridStruct->_numberEqualOrExceedingRangeLimit = numberEqualOrExceedingRangeLimit;
@@ -941,6 +997,11 @@ HECDSS_API int hec_dss_textStore(dss_file* dss, const char* pathname, const char
 
   txt->textString = mallocAndCopy(text);
   txt->allocated[zSTRUCT_TX_textString] = 1;
+  if (text != NULL && txt->textString == NULL) {
+    zstructFree(txt);
+    hec_dss_log_message("Error allocating memory in hec_dss_textStore ");
+    return -1;
+  }
   txt->numberTextChars = length;
 
   int status = ztextStore(dss->ifltab, txt);
-- 
2.43.0


From 6c29de6477eb3e781e25b56c88c7f450f72497b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 63/93] fix: no memory for the times of a regular series
 crashes or goes unnoticed

---
 heclib/heclib_c/src/Internal/ztsRegAddTimes.c | 7 +------
 heclib/heclib_c/src/Public/ztsRetrieve.c      | 6 +++++-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsRegAddTimes.c b/heclib/heclib_c/src/Internal/ztsRegAddTimes.c
index d40228b..11ab044 100644
--- a/heclib/heclib_c/src/Internal/ztsRegAddTimes.c
+++ b/heclib/heclib_c/src/Internal/ztsRegAddTimes.c
@@ -38,7 +38,6 @@ int ztsRegAddTimes(zStructTimeSeries *tss)
 	int startTimeSeconds;
 	int timeGranularity;
 	int interval;
-	long long itemp[2];
 
 
 	if (tss->timeIntervalSeconds < 1) {
@@ -70,11 +69,7 @@ int ztsRegAddTimes(zStructTimeSeries *tss)
 	}
 	tss->times = (int *)calloc(tss->numberValues, 4);
 	if (!tss->times) {
-		itemp[0] = 0;
-		itemp[1] = 0;
-		return zerrorProcessing(itemp, DSS_FUNCTION_ztsRetrieveReg_ID,
-			zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, (tss->numberValues * 4), 0,
-			zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for times array");
+		return zdssErrorCodes.CANNOT_ALLOCATE_MEMORY;
 	}
 	tss->allocated[zSTRUCT_TS_times] = 1;
 	julianStart = tss->timeWindow->startJulian;
diff --git a/heclib/heclib_c/src/Public/ztsRetrieve.c b/heclib/heclib_c/src/Public/ztsRetrieve.c
index ade0e6a..096be32 100644
--- a/heclib/heclib_c/src/Public/ztsRetrieve.c
+++ b/heclib/heclib_c/src/Public/ztsRetrieve.c
@@ -624,7 +624,11 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 			ztsOffsetAdjustToOffset(tss->timeOffsetSeconds, tss->timeIntervalSeconds, &tss->startJulianDate, &tss->startTimeSeconds);
 			ztsOffsetAdjustToOffset(tss->timeOffsetSeconds, tss->timeIntervalSeconds, &tss->endJulianDate, &tss->endTimeSeconds);
 			if ((retrieveFlag == 0) || (retrieveFlag == -1)) {
-				ztsRegAddTimes(tss);
+				if (ztsRegAddTimes(tss) == zdssErrorCodes.CANNOT_ALLOCATE_MEMORY) {
+					status = zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieve_ID,
+						zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, (tss->numberValues * 4), 0,
+						zdssErrorSeverity.MEMORY_ERROR, tss->pathname, "Allocating space for times array");
+				}
 			}
 		}
 	}
-- 
2.43.0


From 799658c1dcfb3a54e16a34039f15a03ec243805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:20 +0000
Subject: [PATCH 64/93] fix: grid and tin retrieval use memory that could not
 be allocated

---
 .../src/Public/zspatialGridRetrieve.c         | 66 ++++++++++-----
 .../heclib_c/src/Public/zspatialTinRetrieve.c | 82 +++++++++++--------
 2 files changed, 95 insertions(+), 53 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
index 74f87e9..eb69f0f 100644
--- a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
@@ -3,6 +3,23 @@
 
 #include "heclib.h"
 
+//  Copy the string at str[*count] and move count past its null; returns non-zero if it cannot be allocated
+static int copyNextString(const char *str, size_t *count, char **copy)
+{
+	*copy = mallocAndCopy(&str[*count]);
+	if (!*copy) return -1;
+	*count += strlen(*copy) + 1;
+	return 0;
+}
+
+static int memoryError(long long *ifltab, zStructTransfer *ztransfer, const char *pathname)
+{
+	zstructFree(ztransfer);
+	return zerrorProcessing(ifltab, DSS_FUNCTION_zspatialGridRetrieve_ID,
+		zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+		zdssErrorSeverity.MEMORY_ERROR, pathname, "Allocating space for the data read");
+}
+
 /**
 *  Function:	zspatialGridRetrieveVersion
 *
@@ -159,7 +176,6 @@ int zspatialGridRetrieve(long long *ifltab, zStructSpatialGrid *gridStruct, int
 
 	int status;
 	size_t count;
-	size_t len;
 	char *str;
 	char messageString[80];
 
@@ -262,29 +278,20 @@ int zspatialGridRetrieve(long long *ifltab, zStructSpatialGrid *gridStruct, int
 
 		//  Header 2, character information
 		str = (char *)calloc(ztransfer->header2Number + 2, 4);
+		if (!str) {
+			return memoryError(ifltab, ztransfer, gridStruct->pathname);
+		}
 		charInt(ztransfer->header2, str, (ztransfer->header2Number * 4), (ztransfer->header2Number * 4), 0, 0, 0);
 
 		count = 0;
-		gridStruct->_dataUnits = mallocAndCopy(&str[count]);
-		len = strlen(gridStruct->_dataUnits);
-		count += len;
-		count++; //  null terminator
-		gridStruct->_dataSource = mallocAndCopy(&str[count]);
-		len = strlen(gridStruct->_dataSource);
-		count += len;
-		count++;
-		gridStruct->_srsName = mallocAndCopy(&str[count]);
-		len = strlen(gridStruct->_srsName);
-		count += len;
-		count++;
-		gridStruct->_srsDefinition = mallocAndCopy(&str[count]);
-		len = strlen(gridStruct->_srsDefinition);
-		count += len;
-		count++;
-		gridStruct->_timeZoneID = mallocAndCopy(&str[count]);
-		len = strlen(gridStruct->_timeZoneID);
-		count += len;
-		count++;
+		if (copyNextString(str, &count, &gridStruct->_dataUnits) ||
+			copyNextString(str, &count, &gridStruct->_dataSource) ||
+			copyNextString(str, &count, &gridStruct->_srsName) ||
+			copyNextString(str, &count, &gridStruct->_srsDefinition) ||
+			copyNextString(str, &count, &gridStruct->_timeZoneID)) {
+			free(str);
+			return memoryError(ifltab, ztransfer, gridStruct->pathname);
+		}
 
 
 		free(str);
@@ -309,11 +316,18 @@ int zspatialGridRetrieve(long long *ifltab, zStructSpatialGrid *gridStruct, int
 				gridStruct->_maxDataValue = calloc(1, 4);
 				gridStruct->_minDataValue = calloc(1, 4);
 				gridStruct->_meanDataValue = calloc(1, 4);
+				if (!gridStruct->_maxDataValue || !gridStruct->_minDataValue || !gridStruct->_meanDataValue) {
+					return memoryError(ifltab, ztransfer, gridStruct->pathname);
+				}
 				convertDataArray(&ztransfer->values1[0], (int *)gridStruct->_minDataValue, 1, 1, 1);
 				convertDataArray(&ztransfer->values1[1], (int *)gridStruct->_maxDataValue, 1, 1, 1);
 				convertDataArray(&ztransfer->values1[2], (int *)gridStruct->_meanDataValue, 1, 1, 1);
 				gridStruct->_rangeLimitTable = (float *)calloc(gridStruct->_numberOfRanges, 4);
 				gridStruct->_numberEqualOrExceedingRangeLimit = (int *)calloc(gridStruct->_numberOfRanges, 4);
+				if ((gridStruct->_numberOfRanges > 0) &&
+					(!gridStruct->_rangeLimitTable || !gridStruct->_numberEqualOrExceedingRangeLimit)) {
+					return memoryError(ifltab, ztransfer, gridStruct->pathname);
+				}
 				convertDataArray(&ztransfer->values1[3], (int *)gridStruct->_rangeLimitTable, gridStruct->_numberOfRanges, 1, 1);
 				convertDataArray(&ztransfer->values1[gridStruct->_numberOfRanges + 3], (int *)gridStruct->_numberEqualOrExceedingRangeLimit, gridStruct->_numberOfRanges, 1, 1);
 			}
@@ -330,13 +344,23 @@ int zspatialGridRetrieve(long long *ifltab, zStructSpatialGrid *gridStruct, int
 						zswitchInts(ztransfer->values3, ztransfer->values3Number);
 					}
 					gridStruct->_data = (int *)calloc(dataSize, 4);
+					if (!gridStruct->_data) {
+						return memoryError(ifltab, ztransfer, gridStruct->pathname);
+					}
 					convertDataArray(&ztransfer->values3[0], (int *)gridStruct->_data, dataSize, 1, 1);
 					break;
 				case ZLIB_COMPRESSION:
 					buffer = (void *)calloc(ztransfer->values3Number + 2, 4);
+					if (!buffer) {
+						return memoryError(ifltab, ztransfer, gridStruct->pathname);
+					}
 					charInt((void *)ztransfer->values3, buffer, ztransfer->values3Number * 4, ztransfer->values3Number * 4, 0, 0, 0);
 					// Uncompress data
 					values = (int *)calloc(numLongs * 2, 4);
+					if (!values) {
+						free(buffer);
+						return memoryError(ifltab, ztransfer, gridStruct->pathname);
+					}
 					ret = uncompress_zlib(buffer, gridStruct->_sizeofCompressedElements, values, numLongs * 2 * 4);
 					/*if (compress_zfp(gridStruct->data, gridStruct->_numberOfCellsX, gridStruct->_numberOfCellsY, (float)1.0e-6, &buffer, &(gridStruct->_sizeofCompressedElements), 1))*/
 					if (ret < 0) {
diff --git a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
index 00140bb..0677b71 100644
--- a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
@@ -3,6 +3,23 @@
 
 #include "heclib.h"
 
+//  Copy the string at str[*count] and move count past its null; returns non-zero if it cannot be allocated
+static int copyNextString(const char *str, size_t *count, char **copy)
+{
+	*copy = mallocAndCopy(&str[*count]);
+	if (!*copy) return -1;
+	*count += strlen(*copy) + 1;
+	return 0;
+}
+
+static int memoryError(long long *ifltab, zStructTransfer *ztransfer, const char *pathname)
+{
+	zstructFree(ztransfer);
+	return zerrorProcessing(ifltab, DSS_FUNCTION_zspatialTinRetrieve_ID,
+		zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+		zdssErrorSeverity.MEMORY_ERROR, pathname, "Allocating space for the data read");
+}
+
 
 /**
 *  Function:	zspatialTinRetrieve
@@ -53,7 +70,6 @@ int zspatialTinRetrieve(long long *ifltab, zStructSpatialTin *tinStruct, int boo
 
 	int status;
 	size_t count;
-	size_t len;
 	char *str;
 	char messageString[80];
 
@@ -159,47 +175,38 @@ int zspatialTinRetrieve(long long *ifltab, zStructSpatialTin *tinStruct, int boo
 
 	//  Header 2, character information
 	str = (char *)calloc(ztransfer->header2Number + 2, 4);
+	if (!str) {
+		return memoryError(ifltab, ztransfer, tinStruct->pathname);
+	}
 	charInt(ztransfer->header2, str, (ztransfer->header2Number * 4), (ztransfer->header2Number * 4), 0, 0, 0);
 
 	count = 0;
-	tinStruct->SpatialReferenceSystem = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->SpatialReferenceSystem);
-	count += len;
-	count++;	//  null terminator
-	tinStruct->SRSName = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->SRSName);
-	count += len;
-	count++;
-	tinStruct->SRSUnits = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->SRSUnits);
-	count += len;
-	count++;
-	tinStruct->units = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->units);
-	count += len;
-	count++;
-	tinStruct->type = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->type);
-	count += len;
-	count++;
-	tinStruct->timeZoneName = mallocAndCopy(&str[count]);
-	len = strlen(tinStruct->timeZoneName);
-	count += len;
-	count++;
-
-	free(str);
 	tinStruct->allocated[zSTRUCT_TIN_SpatialReferenceSystem] = 1;
 	tinStruct->allocated[zSTRUCT_TIN_SRSName] = 1;
 	tinStruct->allocated[zSTRUCT_TIN_SRSUnits] = 1;
 	tinStruct->allocated[zSTRUCT_TIN_units] = 1;
 	tinStruct->allocated[zSTRUCT_TIN_type] = 1;
 	tinStruct->allocated[zSTRUCT_TIN_timeZoneName] = 1;
+	if (copyNextString(str, &count, &tinStruct->SpatialReferenceSystem) ||
+		copyNextString(str, &count, &tinStruct->SRSName) ||
+		copyNextString(str, &count, &tinStruct->SRSUnits) ||
+		copyNextString(str, &count, &tinStruct->units) ||
+		copyNextString(str, &count, &tinStruct->type) ||
+		copyNextString(str, &count, &tinStruct->timeZoneName)) {
+		free(str);
+		return memoryError(ifltab, ztransfer, tinStruct->pathname);
+	}
+
+	free(str);
 
 	//  Labels (char) array
 	if (ztransfer->userHeader && (ztransfer->userHeaderNumber > 0)) {
 		if (tinStruct->pointLabelLen > 0) {
 			if (ztransfer->userHeaderNumber >= numberIntsInBytes(tinStruct->pointLabelLen)) {
 				tinStruct->pointLabel = (char *)calloc(tinStruct->pointLabelLen + 8, 1);
+				if (!tinStruct->pointLabel) {
+					return memoryError(ifltab, ztransfer, tinStruct->pathname);
+				}
 				tinStruct->allocated[zSTRUCT_TIN_label] = 1;
 				//  Need to be sure to copy char into in array, not cast and assign to header
 				charInt(ztransfer->userHeader, tinStruct->pointLabel, tinStruct->pointLabelLen, (ztransfer->userHeaderNumber * 4), 0, 0, 0);
@@ -215,12 +222,16 @@ int zspatialTinRetrieve(long long *ifltab, zStructSpatialTin *tinStruct, int boo
 		tinStruct->xCoordinate = (float *)calloc(tinStruct->numberPoints, 4);
 		tinStruct->yCoordinate = (float *)calloc(tinStruct->numberPoints, 4);
 		tinStruct->value = (float *)calloc(tinStruct->numberPoints, 4);
-		convertDataArray(&ztransfer->values1[0], (int *)tinStruct->xCoordinate, tinStruct->numberPoints, 1, 1);
-		convertDataArray(&ztransfer->values1[tinStruct->numberPoints], (int *)tinStruct->yCoordinate, tinStruct->numberPoints, 1, 1);
-		convertDataArray(&ztransfer->values1[(tinStruct->numberPoints * 2)], (int *)tinStruct->value, tinStruct->numberPoints, 1, 1);
 		tinStruct->allocated[zSTRUCT_TIN_xCoordinate] = 1;
 		tinStruct->allocated[zSTRUCT_TIN_yCoordinate] = 1;
 		tinStruct->allocated[zSTRUCT_TIN_value] = 1;
+		if ((tinStruct->numberPoints > 0) &&
+			(!tinStruct->xCoordinate || !tinStruct->yCoordinate || !tinStruct->value)) {
+			return memoryError(ifltab, ztransfer, tinStruct->pathname);
+		}
+		convertDataArray(&ztransfer->values1[0], (int *)tinStruct->xCoordinate, tinStruct->numberPoints, 1, 1);
+		convertDataArray(&ztransfer->values1[tinStruct->numberPoints], (int *)tinStruct->yCoordinate, tinStruct->numberPoints, 1, 1);
+		convertDataArray(&ztransfer->values1[(tinStruct->numberPoints * 2)], (int *)tinStruct->value, tinStruct->numberPoints, 1, 1);
 	}
 	if (bigEndian()) {
 		zswitchInts(ztransfer->values2, ztransfer->values2Number);
@@ -229,10 +240,14 @@ int zspatialTinRetrieve(long long *ifltab, zStructSpatialTin *tinStruct, int boo
 	if (ztransfer->values2 && (ztransfer->values2Number > 0)) {
 		tinStruct->pointType = (int *)calloc(tinStruct->numberPoints, 4);
 		tinStruct->numberConnections = (int *)calloc(tinStruct->numberPoints, 4);
-		convertDataArray(&ztransfer->values2[0], (int *)tinStruct->pointType, tinStruct->numberPoints, 1, 1);
-		convertDataArray(&ztransfer->values2[(tinStruct->numberPoints * 2)], (int *)tinStruct->numberConnections, tinStruct->numberPoints, 1, 1);
 		tinStruct->allocated[zSTRUCT_TIN_pointType] = 1;
 		tinStruct->allocated[zSTRUCT_TIN_numberConnections] = 1;
+		if ((tinStruct->numberPoints > 0) &&
+			(!tinStruct->pointType || !tinStruct->numberConnections)) {
+			return memoryError(ifltab, ztransfer, tinStruct->pathname);
+		}
+		convertDataArray(&ztransfer->values2[0], (int *)tinStruct->pointType, tinStruct->numberPoints, 1, 1);
+		convertDataArray(&ztransfer->values2[(tinStruct->numberPoints * 2)], (int *)tinStruct->numberConnections, tinStruct->numberPoints, 1, 1);
 	}
 	if (bigEndian()) {
 		zswitchInts(ztransfer->values3, ztransfer->values3Number);
@@ -241,6 +256,9 @@ int zspatialTinRetrieve(long long *ifltab, zStructSpatialTin *tinStruct, int boo
 	if (ztransfer->values3 && (ztransfer->values3Number > 0)) {
 		if (tinStruct->connectTableLen > 0) {
 			tinStruct->connectTo = (int *)calloc(tinStruct->connectTableLen, 4);
+			if (!tinStruct->connectTo) {
+				return memoryError(ifltab, ztransfer, tinStruct->pathname);
+			}
 			convertDataArray(ztransfer->values3, tinStruct->connectTo, tinStruct->connectTableLen, 1, 1);
 			tinStruct->allocated[zSTRUCT_TIN_connection] = 1;
 		}
-- 
2.43.0


From 3c4e8c1c354e59ac986e9984c6125429c888895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:00 +0000
Subject: [PATCH 65/93] fix: a handle whose open failed is left looking like an
 open file

---
 heclib/heclib_c/src/Internal/zopenInternal.c | 36 +++++++++++---------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zopenInternal.c b/heclib/heclib_c/src/Internal/zopenInternal.c
index a97fe2f..723ba30 100644
--- a/heclib/heclib_c/src/Internal/zopenInternal.c
+++ b/heclib/heclib_c/src/Internal/zopenInternal.c
@@ -93,7 +93,9 @@ static int zopenFailed(long long *ifltab, int ihandle, int errorCode)
 {
 	int i;
 
-	closeFile(ihandle);
+	if (ihandle >= 0) {
+		closeFile(ihandle);
+	}
 	zmemoryFree(ifltab);
 	for (i=0; i<50; i++) {
 		ifltab[i] = 0;
@@ -155,8 +157,8 @@ static int zopenFailed(long long *ifltab, int ihandle, int errorCode)
 	 if (fileExists < 0) {
 		 //  The only error is that the filename and path is not valid.
 		 //  The error is system dependent
-		 return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_FILE_NAME,
-								0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", dssFilename);
+		 return zopenFailed(ifltab, -1, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_FILE_NAME,
+								0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", dssFilename));
 	 }
 	 if (zmessageLevel(ifltab, MESS_METHOD_OPEN_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 		if (fileExists) {
@@ -168,21 +170,21 @@ static int zopenFailed(long long *ifltab, int ihandle, int errorCode)
 	 }
 	 if (permission == 2) {
 		 //  No permission access to file
-		 return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.NO_PERMISSION,
-								 0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", fullDssFilename);
+		 return zopenFailed(ifltab, -1, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.NO_PERMISSION,
+								 0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", fullDssFilename));
 	 }
 
 	 if (!fileExists && (access == READ_ACCESS)) {
 		 //  Read only requires file to exist
-		 return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.NO_WRITE_PERMISSION,
-								 0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", fullDssFilename);
+		 return zopenFailed(ifltab, -1, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.NO_WRITE_PERMISSION,
+								 0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", fullDssFilename));
 	 }
 
 	 //  We may not have enough room to store the path and filename, so store just the name.
 	 filename = getFileFromPath (filenameOnly, sizeof(filenameOnly), fullDssFilename);
 	 if (filename == NULL) {
-		 return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_FILE_NAME,
-								 0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", fullDssFilename);
+		 return zopenFailed(ifltab, -1, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.INVALID_FILE_NAME,
+								 0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", fullDssFilename));
 	 }
 
 	 ifltab[zdssKeys.kopenMode] = access;
@@ -203,16 +205,16 @@ static int zopenFailed(long long *ifltab, int ihandle, int errorCode)
 		status = zopenDisk(fullDssFilename, &ihandle, 10, 1);
 		if (status || (ihandle < 1)) {
 			//  Cannot get exclusive access
-			return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.NO_EXCLUSIVE_ACCESS,
-									status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "", fullDssFilename);
+			return zopenFailed(ifltab, -1, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.NO_EXCLUSIVE_ACCESS,
+									status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "", fullDssFilename));
 		}
 		ifltab[zdssKeys.kopenStatus] = OPEN_STAT_WRITE;
 	 }
 	 else if (access == READ_ACCESS){
 		status = zopenDisk(fullDssFilename, &ihandle, 0, 0);
 		if (status || (ihandle < 1)) {
-			return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.UNABLE_TO_ACCESS_FILE,
-									status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "", fullDssFilename);
+			return zopenFailed(ifltab, -1, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.UNABLE_TO_ACCESS_FILE,
+									status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "", fullDssFilename));
 		}
 		ifltab[zdssKeys.kopenStatus] = OPEN_STAT_READ_ONLY;
 	}
@@ -229,16 +231,16 @@ static int zopenFailed(long long *ifltab, int ihandle, int errorCode)
 			if (status2 == 0) status = status2;
 		}
 		if (status || (ihandle < 1)) {
-			return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.UNABLE_TO_ACCESS_FILE,
-									status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "", fullDssFilename);
+			return zopenFailed(ifltab, -1, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.UNABLE_TO_ACCESS_FILE,
+									status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "", fullDssFilename));
 		}
 		ifltab[zdssKeys.kopenStatus] = OPEN_STAT_WRITE;
 	}
 	else {  //  Normal access (creating file)
 		status = zopenDisk(fullDssFilename, &ihandle, 10, 0);
 		if (status || (ihandle < 1)) {
-			return zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.UNABLE_TO_CREATE_FILE,
-									status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "", fullDssFilename);
+			return zopenFailed(ifltab, -1, zerrorProcessing(ifltab, DSS_FUNCTION_zopen_ID, zdssErrorCodes.UNABLE_TO_CREATE_FILE,
+									status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "", fullDssFilename));
 		}
 		ifltab[zdssKeys.kopenStatus] = OPEN_STAT_WRITE;
 	}
-- 
2.43.0


From e81b3cb4aed10a15bbd93343a342f100b05cc8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:00 +0000
Subject: [PATCH 66/93] fix: copying a file ignores read and write errors and
 stops at data equal to the end of file flag

---
 heclib/heclib_c/src/Internal/copyFile.c | 31 ++++++++++++-------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/copyFile.c b/heclib/heclib_c/src/Internal/copyFile.c
index 308d84d..0559c47 100644
--- a/heclib/heclib_c/src/Internal/copyFile.c
+++ b/heclib/heclib_c/src/Internal/copyFile.c
@@ -43,10 +43,10 @@ int copyFile(long long *ifltab, int handleTo)
 	int istat = 0;
 	int ihandle;
 	int numberReads;
-	int numberInts;
+	int numberWords;
 	int i;
-	int j;
 	long long iaddress;
+	long long fileSize;
 	static int isize = 32768;
 	long long space[32768];
 	long long *fileHeader;
@@ -54,29 +54,28 @@ int copyFile(long long *ifltab, int handleTo)
 
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	ihandle = (int)ifltab[zdssKeys.khandle];
-	numberReads = (int)(fileHeader[zdssFileKeys.kfileSize] / (long long) 32768) + 1;
-	numberInts = isize * 2;
-	iaddress = 0;
+	//  The last word in the file is the end of file flag, which follows the file size
+	fileSize = fileHeader[zdssFileKeys.kfileSize] + 1;
+	numberReads = (int)((fileSize + isize - 1) / isize);
 	zresetProgress(zhandle(ifltab), (long long)numberReads);
 
+	//  Copy from the end, so that the file copied to does not have a header until all is there
 	for (i=0; i<numberReads; i++) {
-		istat = zreadDisk (ihandle, 0, iaddress, space, numberInts);
+		iaddress = (long long)(numberReads - 1 - i) * isize;
+		numberWords = isize;
+		if ((fileSize - iaddress) < numberWords) {
+			numberWords = (int)(fileSize - iaddress);
+		}
+		istat = zreadDisk (ihandle, 0, iaddress, space, numberWords * 2);
 		if (istat) {
+			return istat;
 		}
 		if (handleTo > 0) {
-			if ((i+1) == numberReads) {
-				for (j=0; j<isize; j++) {
-					if (space[j] == DSS_END_FILE_FLAG) {
-						numberInts = (j + 1) * 2;
-						break;
-					}
-				}
-			}
-			istat = zwriteDisk (handleTo, 0, iaddress, space, numberInts);
+			istat = zwriteDisk (handleTo, 0, iaddress, space, numberWords * 2);
 			if (istat) {
+				return istat;
 			}
 		}
-		iaddress += isize;
 		zprogress.currentNumber = i;
 		zprogress.handle = zhandle(ifltab);
 		if (zprogress.interrupt) break;
-- 
2.43.0


From 637cfb0084886408ba557c1df582cdde32cf7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:00 +0000
Subject: [PATCH 67/93] fix: a squeeze that fails leaves the file locked and
 its temporary file behind

---
 heclib/heclib_c/src/Public/zsqueeze7.c | 138 ++++++++++++-------------
 1 file changed, 66 insertions(+), 72 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index 9f62425..275ed8e 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -74,6 +74,33 @@
 **/
 
 
+//  End a squeeze that cannot be completed: give up the exclusive access to the (unchanged) file,
+//  remove the temporary file and restore the message levels
+static void squeezeAbandon(long long *ifltab, long long *ifltabTemp, const char *tempName, int access, const int *messageLevels)
+{
+	int i;
+
+	if (ifltabTemp) {
+		zclose(ifltabTemp);
+#ifdef _MSC_VER
+		_unlink(tempName);
+		_set_errno(0);
+#else
+		unlink(tempName);
+#endif
+	}
+	if (ifltab[zdssKeys.kfileHeader]) {
+		ifltab[zdssKeys.kmultiUserAccess] = RELEASE_ACCESS;
+		zlockActive(ifltab, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+		ifltab[zdssKeys.kmultiUserAccess] = access;
+		zpidUpdate(ifltab);
+	}
+	for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
+		zsetMessageLevel(zmessaging.methodLevel[i], messageLevels[i]);
+	}
+}
+
+
 int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 {
 
@@ -208,9 +235,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		stringCat(tempName, sizeof(tempName), filename, strlen(filename));
 		len = (int)strlen(tempName);
 	    if (len < 5) {
-			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
-				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
-			}
+			squeezeAbandon(ifltab, NULL, tempName, access, originalMessageLevels);
 			printf("File does not exsit or cannot access. name: %s\n", fullFilename);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID,
 				zdssErrorCodes.UNABLE_TO_CREATE_FILE, 0, 0,
@@ -232,9 +257,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		stringCopy(tempName, sizeof(tempName), fullFilename, strlen(fullFilename));
 	    len = (int)strlen(tempName);
 	    if (len < 5) {
-			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
-				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
-			}
+			squeezeAbandon(ifltab, NULL, tempName, access, originalMessageLevels);
 			printf("File does not exsit or cannot access. name: %s\n", fullFilename);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID,
 				zdssErrorCodes.UNABLE_TO_CREATE_FILE, 0, 0,
@@ -251,6 +274,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		unlink(tempName);
 #endif
 
+#ifdef _MSC_VER
 		//  Close the DSS file so we can try a rename
 		status = zclose(ifltab);
 		if (zisError(status)) {
@@ -298,6 +322,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 								status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "", fullFilename);
 			return status;
 		}
+#endif
 
 	}
 
@@ -305,9 +330,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 	//  Now open the temporary DSS file
 	status = zopenInternal(ifltabTemp, tempName, EXCLUSIVE_ACCESS, numberPathnames, 0, 0, 0);
 	if (zisError(status)) {
-		for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
-			zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
-		}
+		squeezeAbandon(ifltab, NULL, tempName, access, originalMessageLevels);
 		status = zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID, zdssErrorCodes.CANNOT_SQUEEZE,
 							status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "",
 							"Cannot create temporary file");
@@ -330,30 +353,21 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zsqueeze_ID, "Interrupt: ", zprogress.interrupt);
 	}
 	if (zprogress.interrupt != 0) {
-		zclose(ifltabTemp);
-#ifdef _MSC_VER
-		_unlink(tempName);
-		_set_errno(0);
-#else
-		unlink(tempName);
-#endif
+		squeezeAbandon(ifltab, ifltabTemp, tempName, access, originalMessageLevels);
 		return 0;
 	}
 	if (zisError(status)) {
-		for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
-			zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
-		}
 		printf("Error during squeeze. name: %s\n", fullFilename);
-		zclose(ifltabTemp);
-#ifdef _MSC_VER
-		_unlink(tempName);
-		_set_errno(0);
-#else
-		unlink(tempName);
-#endif
+		squeezeAbandon(ifltab, ifltabTemp, tempName, access, originalMessageLevels);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zsqueeze_ID);
 	}
-	zflushToDisk (ifltabTemp, 1);
+	status = zflushToDisk (ifltabTemp, 1);
+	if (status != STATUS_OKAY) {
+		squeezeAbandon(ifltab, ifltabTemp, tempName, access, originalMessageLevels);
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID, zdssErrorCodes.CANNOT_SQUEEZE,
+							status, 0, zdssErrorSeverity.WRITE_ERROR, "",
+							"Cannot write temporary file");
+	}
 
 	//  Validate that the new file is complete and correct
 	if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_USER_DIAG)) {
@@ -361,36 +375,18 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 	}
 	status = zpermRead(ifltabTemp);
 	if (zisError(status)) {
-		for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
-			zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
-		}
 		status = zerrorUpdate(ifltabTemp, status, DSS_FUNCTION_zsqueeze_ID);
-		zclose(ifltabTemp);
-#ifdef _MSC_VER
-		_unlink(tempName);
-		_set_errno(0);
-#else
-		unlink(tempName);
-#endif
+		squeezeAbandon(ifltab, ifltabTemp, tempName, access, originalMessageLevels);
 		return status;
 	}
 
 	//  Make sure the squeezed file is good
 	status = zcheckPathnameBins(ifltabTemp);
 	if (zisError(status)) {
-		for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
-			zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
-		}
 		status = zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID, zdssErrorCodes.CANNOT_SQUEEZE,
 							status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "",
 							"Incomplete update, file not squeezed.");
-		zclose(ifltabTemp);
-#ifdef _MSC_VER
-		_unlink(tempName);
-		_set_errno(0);
-#else
-		unlink(tempName);
-#endif
+		squeezeAbandon(ifltab, ifltabTemp, tempName, access, originalMessageLevels);
 		return status;
 	}
 
@@ -408,17 +404,9 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		zpidUpdate(ifltab);
 		status =  zlockActive(ifltab, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		if (status != 0) {
-			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
-				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
-			}
-			status = zerrorUpdate(ifltabTemp, status, DSS_FUNCTION_zsqueeze_ID);
-			zclose(ifltabTemp);
-#ifdef _MSC_VER
-			_unlink(tempName);
-			_set_errno(0);
-#else
-			unlink(tempName);
-#endif
+			status = zerrorUpdate(ifltab, status, DSS_FUNCTION_zsqueeze_ID);
+			squeezeAbandon(ifltab, ifltabTemp, tempName, access, originalMessageLevels);
+			zlockPassive(ifltab, LOCKING_LOCK_ON, LOCKING_ACCESS_READ);
 			return status;
 		}
 
@@ -430,16 +418,8 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		status = ftruncate(ihandle, (long long)0);
 #endif
 		if (status != 0) {
-			zclose(ifltabTemp);
-#ifdef _MSC_VER
-			_unlink(tempName);
-			_set_errno(0);
-#else
-			unlink(tempName);
-#endif
-			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
-				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
-			}
+			squeezeAbandon(ifltab, ifltabTemp, tempName, access, originalMessageLevels);
+			zlockPassive(ifltab, LOCKING_LOCK_ON, LOCKING_ACCESS_READ);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID, zdssErrorCodes.CANNOT_SQUEEZE,
 								status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "",
 								"Incomplete update, file not squeezed.");
@@ -513,6 +493,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		//  Don't do in place - delete the old file
 		//  and rename the temp file to the old file.
 		//  close both files
+#ifdef _MSC_VER
 		status = zclose(ifltab);
 		if (zisError(status)) {
 			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
@@ -531,11 +512,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		}
 
 		//  Delete the old file
-#ifdef _MSC_VER
 		status = _unlink(fullFilename);
-#else
-		status = unlink(fullFilename);
-#endif
 	    if (zisError(status)) {
 			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
 				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
@@ -559,6 +536,23 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 				zdssErrorSeverity.WARNING_NO_WRITE_ACCESS, "", tempName);
 	   }
 
+#else
+		//  The rename replaces the old file in one step, so that there is always a complete file
+		status = zclose(ifltabTemp);
+		if (status == 0) {
+			status = rename(tempName, fullFilename);
+		}
+		if (status != 0) {
+			unlink(tempName);
+			squeezeAbandon(ifltab, NULL, tempName, access, originalMessageLevels);
+			printf("Unable to rename file after squeezing, file: %s\n", tempName);
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID,
+				zdssErrorCodes.UNABLE_TO_CREATE_FILE, 0, 0,
+				zdssErrorSeverity.WARNING_NO_WRITE_ACCESS, "", tempName);
+		}
+		zclose(ifltab);
+#endif
+
 	   //  Reopen file
 		status = zopenInternal(ifltab, fullFilename, access, 0, 0, 0, 0);
 		if (zisError(status)) {
-- 
2.43.0


From f5e76e07d307e356549326bcc78992c2c729f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:00 +0000
Subject: [PATCH 68/93] fix: adding the high level function to an error code
 lowers its severity

---
 heclib/heclib_c/src/Internal/zerrorEncodeHigh.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c b/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c
index 83b95f9..77f18ec 100644
--- a/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c
+++ b/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c
@@ -32,8 +32,17 @@
 
 int zerrorEncodeHigh(int errorCodeIn, int highFunction)
 {
-	errorCodeIn +=  highFunction * 1000000;
-	return errorCodeIn;
+	int errorCode;
+
+	if (errorCodeIn > -100000000) {
+		//  Not an encoded error code
+		return errorCodeIn;
+	}
+	//  The code is negative; replace the high level function, and keep the severity
+	errorCode = -errorCodeIn;
+	errorCode -= ((errorCode / 1000000) % 100) * 1000000;
+	errorCode += highFunction * 1000000;
+	return -errorCode;
 }
 
 
-- 
2.43.0


From 9bc68eb498e79c52f5c81b9d1545b5d0f8c8ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:00 +0000
Subject: [PATCH 69/93] fix: a squeeze interrupted while copying back leaves
 what looks like an empty file

---
 heclib/heclib_c/src/Public/zsqueeze7.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index 275ed8e..eaf491d 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -119,6 +119,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 	int version = 0;
 	int i = 0;
 	long long *fileHeader = NULL;
+	long long noIdentifier = 0;
 	int originalMessageLevels[NUMBER_METHOD_NAMES] = { 0 };
 
 
@@ -411,12 +412,21 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		}
 
 	//  Now remove the contents of the original file
+	//  Until the copy is complete, the file must not be taken for a (new) DSS file
+		status = zwriteDisk(ihandle, 0, 0, &noIdentifier, 2);
+		if (status == 0) {
 #ifdef _MSC_VER
-		status = (int)_lseeki64(ihandle, (long long)0, (long long)0);
-		status = _chsize(ihandle, (long long)0);
+			status = (int)_lseeki64(ihandle, (long long)0, (long long)0);
+			status = _chsize(ihandle, (long long)sizeof(noIdentifier));
 #else
-		status = ftruncate(ihandle, (long long)0);
+			status = ftruncate(ihandle, (long long)sizeof(noIdentifier));
 #endif
+			if (status != 0) {
+				//  Not truncated, so still complete
+				fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
+				zwriteDisk(ihandle, 0, 0, &fileHeader[zdssFileKeys.kdss], 2);
+			}
+		}
 		if (status != 0) {
 			squeezeAbandon(ifltab, ifltabTemp, tempName, access, originalMessageLevels);
 			zlockPassive(ifltab, LOCKING_LOCK_ON, LOCKING_ACCESS_READ);
-- 
2.43.0


From 890bf66024a1a539bf7b3dd3c10ec6ce2eca590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:00 +0000
Subject: [PATCH 70/93] fix: sorted catalog of a handle that is not open
 crashes

---
 heclib/heclib_c/src/Internal/zcatInternalSort.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index d1311b6..9b8f0da 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -117,6 +117,10 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 			sortedStruct->boolIncludeDates = 0;
 		}
 	}
+	else if (zgetVersion(ifltab) != 7) {
+		//  Not open; the error is reported when the list of pathnames is made
+		sortListStatus = 0;
+	}
 	else {
 		fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 		if ((pathWithWild && ((int)strlen(pathWithWild) > 1)) || (boolCollection)) {
-- 
2.43.0


From 622ab2f14249217b801cb3ec58f98b24d5b54609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:40 +0000
Subject: [PATCH 71/93] fix: after a squeeze whose final check failed the old
 header is written over the squeezed file

---
 heclib/heclib_c/src/Public/zsqueeze7.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index eaf491d..bce5a1b 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -464,11 +464,12 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		zflushToDisk (ifltab, 0) ;
 
 		//  Check that the copied file is good
+		//  If not, release the lock so that the next access has to read the
+		//  header; the one in memory must not be written
 		status = zpermRead(ifltab);
 		if (status != 0) {
-			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
-				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
-			}
+			zclose(ifltabTemp);
+			squeezeAbandon(ifltab, NULL, tempName, access, originalMessageLevels);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zsqueeze_ID);
 		}
 
@@ -478,9 +479,8 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 			zmessageDebugInt(ifltab, DSS_FUNCTION_zsqueeze_ID, "Final validation complete, status ", status);
 		}
 		if (status != 0) {
-			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
-				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
-			}
+			zclose(ifltabTemp);
+			squeezeAbandon(ifltab, NULL, tempName, access, originalMessageLevels);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID, zdssErrorCodes.CANNOT_SQUEEZE,
 									status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "",
 									"Incomplete update, file failed check.");
-- 
2.43.0


From 85e89f38657f1fc5074bc5cc8cb12ee3a7c6f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:11 +0000
Subject: [PATCH 72/93] fix: grid and tin strings after one with trailing
 blanks are read shifted

---
 heclib/heclib_c/src/Public/zspatialGridRetrieve.c | 3 ++-
 heclib/heclib_c/src/Public/zspatialTinRetrieve.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
index eb69f0f..018a98d 100644
--- a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
@@ -8,7 +8,8 @@ static int copyNextString(const char *str, size_t *count, char **copy)
 {
 	*copy = mallocAndCopy(&str[*count]);
 	if (!*copy) return -1;
-	*count += strlen(*copy) + 1;
+	//  (The copy may be shorter, e.g. without trailing blanks)
+	*count += strlen(&str[*count]) + 1;
 	return 0;
 }
 
diff --git a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
index 0677b71..047a277 100644
--- a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
@@ -8,7 +8,8 @@ static int copyNextString(const char *str, size_t *count, char **copy)
 {
 	*copy = mallocAndCopy(&str[*count]);
 	if (!*copy) return -1;
-	*count += strlen(*copy) + 1;
+	//  (The copy may be shorter, e.g. without trailing blanks)
+	*count += strlen(&str[*count]) + 1;
 	return 0;
 }
 
-- 
2.43.0


From ca4644d51ee9fb178a2c5a43b526a34a5ef0b287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:11 +0000
Subject: [PATCH 73/93] fix: strings with characters beyond ASCII are cut at
 the first one

---
 heclib/heclib_c/src/Utilities/mallocAndCopy.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/mallocAndCopy.c b/heclib/heclib_c/src/Utilities/mallocAndCopy.c
index 69768f9..bde95f7 100644
--- a/heclib/heclib_c/src/Utilities/mallocAndCopy.c
+++ b/heclib/heclib_c/src/Utilities/mallocAndCopy.c
@@ -44,13 +44,6 @@ char *mallocAndCopy(const char *copyFrom)
 		copyTo = (char *)calloc((size_t)1, CHAR_SIZE);
 		return copyTo;
 	}
-	//  Look for illegal characters
-	for (i=0; i<len-1; i++) {
-		if ((int)copyFrom[i] <= 0) {
-			len = i + 1;
-			break;
-		}
-	}
 	//  Remove trailing blanks
 	if (copyFrom[len-1] == ' ') {
 		len--;
-- 
2.43.0


From 0918395529fb9522b6cb20ee6ef8a68f79ef0b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:11 +0000
Subject: [PATCH 74/93] fix: text stored through the C interface loses trailing
 blanks and gains bytes beyond it

---
 heclib/hecdss/hecdss.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index af53fc4..613bee6 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -995,13 +995,22 @@ HECDSS_API int hec_dss_textStore(dss_file* dss, const char* pathname, const char
 
   zStructText* txt = zstructTextNew(pathname);
 
-  txt->textString = mallocAndCopy(text);
-  txt->allocated[zSTRUCT_TX_textString] = 1;
-  if (text != NULL && txt->textString == NULL) {
+  // The text is stored as it is, up to its end or the given length
+  if (length < 0) {
+    length = 0;
+  }
+  size_t textLength = text ? strnlen(text, (size_t)length) : 0;
+  txt->textString = (char*)malloc((size_t)length + 1);
+  if (txt->textString == NULL) {
     zstructFree(txt);
     hec_dss_log_message("Error allocating memory in hec_dss_textStore ");
     return -1;
   }
+  txt->allocated[zSTRUCT_TX_textString] = 1;
+  memset(txt->textString, 0, (size_t)length + 1);
+  if (textLength > 0) {
+    memcpy(txt->textString, text, textLength);
+  }
   txt->numberTextChars = length;
 
   int status = ztextStore(dss->ifltab, txt);
-- 
2.43.0


From 5bbd0227925d9e42f5d65dc422ac17a6b2e549f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:11 +0000
Subject: [PATCH 75/93] fix: renaming a half written record overwrites the
 record that took its place

---
 heclib/heclib_c/src/Public/zrename.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 2426da3..34ae47b 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -248,26 +248,36 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 
 
-	//  First, mark the pathname bin status as remamed
-	address = ifltab[zdssKeys.kpathBinAddress] + zdssBinKeys.kbinStatus;
-	binStatus = REC_STATUS_RENAMED;
-	status = zput(ifltab, address, (int *)&binStatus, 1, 2);
+	//  First, read in the old info block
+	info = (long long *)ifltab[zdssKeys.kinfo];
+	i8toi4(ifltab[zdssKeys.kbinPathLen], &numberChars, &pathnameSize);
+	numberInfoOld = zdssVals.infoSize + pathnameSize;
+	status = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfoOld, 2);
 	if (zisError(status)) {
 		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
+	//  Double check hash; it must not be the info block of another record that is changed
+	if (info[zdssInfoKeys.kinfoHash] != ifltab[zdssKeys.kpathnameHash]) {
+		if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_GENERAL)) {
+			zmessage2(ifltab, ZRENAME_NOT_EXIST, oldPathname);
+		}
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+		free(newPath);
+		return STATUS_RECORD_NOT_FOUND;
+	}
 
-	//  Read in the old info block
-	info = (long long *)ifltab[zdssKeys.kinfo];
-	i8toi4(ifltab[zdssKeys.kbinPathLen], &numberChars, &pathnameSize);
-	numberInfoOld = zdssVals.infoSize + pathnameSize;
-	status = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, numberInfoOld, 2);
+	//  Mark the pathname bin status as remamed
+	address = ifltab[zdssKeys.kpathBinAddress] + zdssBinKeys.kbinStatus;
+	binStatus = REC_STATUS_RENAMED;
+	status = zput(ifltab, address, (int *)&binStatus, 1, 2);
 	if (zisError(status)) {
 		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
+
 	//  Save it
 	infoAddress = ifltab[zdssKeys.kaddInfoLastPath];
 	infoOld = (long long*)calloc((size_t)numberInfoOld, LONG_SIZE);
-- 
2.43.0


From 6ec4d282be18f0f67f417ffd45c2d4e2190517fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:11 +0000
Subject: [PATCH 76/93] fix: reading a series whose blocks differ in their user
 header leaks

---
 heclib/heclib_c/src/Internal/ztsIrregReadBlock.c |  3 ++-
 heclib/heclib_c/src/Internal/ztsRegReadBlock.c   | 15 +++------------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
index 6fbefb5..62f2bf2 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
@@ -307,7 +307,8 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 		ztransfer->internalHeader = internalHeader;
 		ztransfer->internalHeaderMode = internalHeaderArraySize;
 		ztransfer->userHeader = userHeader;
-		ztransfer->userHeaderMode = userHeaderArraySize;
+		//  (Space allocated by the read could not be passed back)
+		ztransfer->userHeaderMode = userHeader ? userHeaderArraySize : 0;
 		ztransfer->header2Mode = 1;
 
 		status = zreadInternal(ifltab, ztransfer, bufferControl, buffer, 1);
diff --git a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
index 37cea6a..e11053e 100644
--- a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
@@ -272,18 +272,9 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 			*profileDepthsNumberRead = 0;
 		}		
 		if ((ztransfer->userHeaderNumber > 0) && (userHeaderArraySize > 0) && ztransfer->userHeader && userHeader) {
-			if (profileDepthsArraySize == 1) {
-				//  space allocated in zread
-				*userHeaderNumber = ztransfer->userHeaderNumber;
-				userHeader = ztransfer->userHeader;
-				ztransfer->allocated[zSTRUCT_userHeader] = 0;
-				ztransfer->userHeader = 0;
-			}
-			else {
-				if (userHeaderArraySize > ztransfer->userHeaderNumber) userHeaderArraySize = ztransfer->userHeaderNumber;
-				*userHeaderNumber = userHeaderArraySize;
-				convertIntArray(ztransfer->userHeader, userHeader, userHeaderArraySize, 1, 1);
-			}
+			if (userHeaderArraySize > ztransfer->userHeaderNumber) userHeaderArraySize = ztransfer->userHeaderNumber;
+			*userHeaderNumber = userHeaderArraySize;
+			convertIntArray(ztransfer->userHeader, userHeader, userHeaderArraySize, 1, 1);
 		}
 		else {
 			*userHeaderNumber = 0;
-- 
2.43.0


From ad3b62f8176acd3c0eafcf63b9bd3ed655a84b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:12 +0000
Subject: [PATCH 77/93] fix: copying a file that another program changes writes
 outside of memory

---
 heclib/heclib_c/src/Public/zcopyFile.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zcopyFile.c b/heclib/heclib_c/src/Public/zcopyFile.c
index 8dcaf4b..37db415 100644
--- a/heclib/heclib_c/src/Public/zcopyFile.c
+++ b/heclib/heclib_c/src/Public/zcopyFile.c
@@ -183,6 +183,13 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 						ifltabFrom[zdssKeys.kinfoAddress] = ifltabFrom[zdssKeys.kaddInfoLastPath];
 						ifltabFrom[zdssKeys.kinfoSize] = numberInfo;
 						info = (long long *)ifltabFrom[zdssKeys.kinfo];
+						//  Be sure that the record is still there (another program may have changed
+						//  the file since we read this section of it)
+						if ((info[zdssInfoKeys.kinfoFlag] != DSS_INFO_FLAG) ||
+							(info[zdssInfoKeys.kinfoStatus] != recHeader[zdssInfoKeys.kinfoStatus]) ||
+							(info[zdssInfoKeys.kinfoPathnameLength] != recHeader[zdssInfoKeys.kinfoPathnameLength])) {
+							continue;
+						}
 						charInt((void *)&info[zdssInfoKeys.kinfoPathname], pathname, pathLength, sizeof(pathname), 0, 1, 0);
 						pathname[pathLength] = '\0';
 
-- 
2.43.0


From 90bfcf5715257e86e1612b11ebef342e2260b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:43 +0000
Subject: [PATCH 78/93] fix: a bin in use is given out again when a power loss
 lost the file header

---
 heclib/heclib_c/src/Internal/zbinNew.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zbinNew.c b/heclib/heclib_c/src/Internal/zbinNew.c
index d4dc337..297d413 100644
--- a/heclib/heclib_c/src/Internal/zbinNew.c
+++ b/heclib/heclib_c/src/Internal/zbinNew.c
@@ -48,6 +48,7 @@ int zbinNew(long long *ifltab)
 	long long *pathnameBin;
 	long long izero = 0;
 	long long address;
+	long long binHash;
 	long long newBinAddress;
 	long long *fileHeader;
 
@@ -59,11 +60,25 @@ int zbinNew(long long *ifltab)
 
 	status = STATUS_OKAY;
 
+	//  If a power loss lost the file header that was written before a bin was used, then the bin
+	//  that the header has as the next empty one is in use already.  Go past those.
+	isize = (int)fileHeader[zdssFileKeys.kbinSize];
+	while (fileHeader[zdssFileKeys.kbinsRemainInBlock] > 0) {
+		status = zget(ifltab, fileHeader[zdssFileKeys.kaddNextEmptyBin], (int *)&binHash, 1, 2);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinNew_ID);
+		}
+		if (binHash == 0) {
+			break;
+		}
+		fileHeader[zdssFileKeys.kbinsRemainInBlock]--;
+		fileHeader[zdssFileKeys.kaddNextEmptyBin] += isize;
+	}
+
 	//  If no empty bins remain in this block, write a new block of pathname bins at the end of
 	//  the file, before using it.  (A "block" will contain many (e.g., 32) pathname bins together)
 	//  The block is written, then added to the chain of blocks and recorded in the file header, so
 	//  that the file is consistent even if this program ends before we are done.
-	isize = (int)fileHeader[zdssFileKeys.kbinSize];
 	if (fileHeader[zdssFileKeys.kbinsRemainInBlock] <= 0) {
 		if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 			zmessageDebug(ifltab, DSS_FUNCTION_zbinNew_ID, "Writing new block of pathname bins at end of file", "");
-- 
2.43.0


From aacf0fdf5c6f1234b3caccc8ec6553fe307519ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:43 +0000
Subject: [PATCH 79/93] fix: copying into a file that other programs write
 overwrites its header

---
 heclib/heclib_c/src/Public/zcopyFile.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zcopyFile.c b/heclib/heclib_c/src/Public/zcopyFile.c
index 37db415..d959f60 100644
--- a/heclib/heclib_c/src/Public/zcopyFile.c
+++ b/heclib/heclib_c/src/Public/zcopyFile.c
@@ -214,8 +214,9 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 		address += readSize;
 	}
 
-	//  Be sure to write to disk.
-	if (zgetVersion(ifltabTo) == 7) {
+	//  Be sure to write to disk.  (If the file is not locked, as in multi-user mode, then that was
+	//  done with each record, and another program may have changed the file header since.)
+	if ((zgetVersion(ifltabTo) == 7) && ifltabTo[zdssKeys.klocked]) {
 		ifltabTo[zdssKeys.kwritingNow] = 1;
 		status = zlockActive(ifltabTo, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		if (zisError(status)) {
-- 
2.43.0


From 996399df81fddf030d4e293ba5553bd25eb213c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:15 +0000
Subject: [PATCH 80/93] fix: retrieving a text or grid record whose header
 counts disagree with its arrays reads out of bounds

---
 .../src/Public/zspatialGridRetrieve.c         | 46 +++++++++++++++++++
 heclib/heclib_c/src/Public/ztextRetrieve.c    | 17 +++++++
 2 files changed, 63 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
index 018a98d..676f764 100644
--- a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
@@ -59,6 +59,45 @@ static int memoryError(long long *ifltab, zStructTransfer *ztransfer, const char
 
 
 
+//  Do the numbers in the internal header agree with the arrays that were read?
+static int validGridRecord(zStructTransfer *ztransfer)
+{
+	int *header = ztransfer->internalHeader;
+	long long numberCells;
+
+	if (!header || (ztransfer->internalHeaderNumber <= INT_HEAD_grid_structVersion)) return 0;
+	if (header[INT_HEAD_grid_structVersion] != VERSION_100) return 1;
+	if (ztransfer->internalHeaderNumber <= INT_HEAD_grid_storageDataType) return 0;
+	if ((ztransfer->userHeaderNumber > 0) && (ztransfer->userHeaderNumber < 4)) return 0;
+	if (ztransfer->values1Number > 0) {
+		if ((header[INT_HEAD_grid_numberOfRanges] < 0) ||
+			((3 + 2 * (long long)header[INT_HEAD_grid_numberOfRanges]) > ztransfer->values1Number)) return 0;
+	}
+	if (ztransfer->values3Number > 0) {
+		if ((header[INT_HEAD_grid_numberOfCellsX] < 0) || (header[INT_HEAD_grid_numberOfCellsY] < 0)) return 0;
+		numberCells = (long long)header[INT_HEAD_grid_numberOfCellsX] * (long long)header[INT_HEAD_grid_numberOfCellsY];
+		if (header[INT_HEAD_grid_compressionMethod] == NO_COMPRESSION) {
+			if (numberCells > ztransfer->values3Number) return 0;
+		}
+		else {
+			if (numberCells > 0x1FFFFFFF) return 0;
+			if ((header[INT_HEAD_grid_sizeofCompressedElements] < 0) ||
+				((header[INT_HEAD_grid_sizeofCompressedElements] / 4) > ztransfer->values3Number)) return 0;
+		}
+	}
+	return 1;
+}
+
+static int invalidGridRecord(long long *ifltab, zStructTransfer *ztransfer)
+{
+	int status = zerrorProcessing(ifltab, DSS_FUNCTION_zspatialGridRetrieve_ID,
+		zdssErrorCodes.INVALID_RECORD_HEADER, ztransfer->dataType,
+		(long long)ztransfer->internalHeaderNumber, zdssErrorSeverity.WARNING, ztransfer->pathname,
+		"Header of grid does not agree with the data");
+	zstructFree(ztransfer);
+	return status;
+}
+
 int zspatialGridRetrieveVersion(long long *ifltab, const char *cpath, int* gridStructVersion) {
 	int status;
 	char messageString[80];
@@ -120,6 +159,9 @@ int zspatialGridRetrieveVersion(long long *ifltab, const char *cpath, int* gridS
 		zswitchInts(ztransfer->internalHeader, ztransfer->internalHeaderNumber);
 	}
 
+	if (!ztransfer->internalHeader || (ztransfer->internalHeaderNumber < 1)) {
+		return invalidGridRecord(ifltab, ztransfer);
+	}
 	if (ztransfer->internalHeader[0] < 0)
 		*gridStructVersion = -ztransfer->internalHeader[0];
 	else
@@ -256,6 +298,10 @@ int zspatialGridRetrieve(long long *ifltab, zStructSpatialGrid *gridStruct, int
 		zswitchInts(ztransfer->internalHeader, ztransfer->internalHeaderNumber);
 	}
 
+	if (!validGridRecord(ztransfer)) {
+		return invalidGridRecord(ifltab, ztransfer);
+	}
+
 	//  Header 1, basic info
 	gridStruct->_structVersion = ztransfer->internalHeader[INT_HEAD_grid_structVersion];
 	// Can only handle version 1 records 
diff --git a/heclib/heclib_c/src/Public/ztextRetrieve.c b/heclib/heclib_c/src/Public/ztextRetrieve.c
index 1dbf628..e585ff2 100644
--- a/heclib/heclib_c/src/Public/ztextRetrieve.c
+++ b/heclib/heclib_c/src/Public/ztextRetrieve.c
@@ -67,6 +67,11 @@
 */
 
 
+//  A number of characters has to be within the array of ints that contains them (if there is such an array)
+static int validNumberChars(int numberChars, int numberInts)
+{
+	return (numberInts <= 0) || ((numberChars >= 0) && ((numberChars / 4) <= numberInts));
+}
 
 int ztextRetrieve(long long *ifltab, zStructText *textStruct)
 {
@@ -136,6 +141,18 @@ int ztextRetrieve(long long *ifltab, zStructText *textStruct)
 	if (bigEndian()) {
 		zswitchInts(ztransfer->internalHeader, INT_HEAD_text_size);
 	}
+	//  Be sure that the numbers of characters agree with the arrays read
+	if (!validNumberChars(ztransfer->internalHeader[0], ztransfer->values1Number) ||
+		!validNumberChars(ztransfer->internalHeader[1], ztransfer->values2Number) ||
+		!validNumberChars(ztransfer->internalHeader[2], ztransfer->header2Number)) {
+		status = zerrorProcessing(ifltab, DSS_FUNCTION_ztextRetrieve_ID,
+			zdssErrorCodes.INVALID_RECORD_HEADER, ztransfer->dataType,
+			(long long)ztransfer->internalHeaderNumber,
+			zdssErrorSeverity.WARNING, textStruct->pathname,
+			"Number of characters does not agree with the data");
+		zstructFree(ztransfer);
+		return status;
+	}
 	//  Because someone might forget to null terminate their strings,
 	//  we'll allocate one extra character and null it.
 	if (ztransfer->values1Number > 0) {
-- 
2.43.0


From f66a9398c3140398227b096d970b74124100d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:22 +0000
Subject: [PATCH 81/93] fix: renaming a time series to a name with other D or E
 parts overlaps its information block with other data

---
 heclib/heclib_c/src/Public/zrename.c | 32 ++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 34ae47b..02af85d 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -171,6 +171,36 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		return STATUS_RECORD_NOT_FOUND;
 	}
 
+	//  If the pathname is time series, do not allow the D or E parts to be renamed!
+	//  That data has to be transformed, not renamed.  Use the ones of the record.
+	i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], &dataType, &temp);
+	if ((dataType >= DATA_TYPE_RTS) && (dataType < DATA_TYPE_PD) &&
+		(zpathnamePartPositions(newPathname, strlen(newPathname), positions, 7) == 7)) {
+		char *samePartsPath;
+		start = positions[5];
+		end = positions[6];
+		len = (int)strlen(newPathname) + (int)strlen(oldPathname) + 12;
+		samePartsPath = calloc(len, 1);
+		if (!samePartsPath) {
+			free(newPath);
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
+				zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+				zdssErrorSeverity.MEMORY_ERROR,
+				newPathname, "Allocating space for modified pathname");
+		}
+		stringCopy(samePartsPath, len, newPathname, positions[3]);
+		zpathnamePartPositions(oldPathname, strlen(oldPathname), positions, 7);
+		stringCat(samePartsPath, len, &oldPathname[positions[3]], (positions[5] - positions[3]));
+		stringCat(samePartsPath, len, &newPathname[start], (end - start));
+		if (strcmp(samePartsPath, newPathname) != 0) {
+			status = zrename(ifltab, oldPathname, samePartsPath);
+			free(samePartsPath);
+			free(newPath);
+			return status;
+		}
+		free(samePartsPath);
+	}
+
 	//  Be sure the new pathname does not already exist
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
 	status = zcheckInternal(ifltab, newPathname, 1);
@@ -236,6 +266,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		len = (int)strlen(newPathname) + 12;
 		newPath = calloc(len, 1);
 		if (!newPath) {
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
 				zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
 				zdssErrorSeverity.MEMORY_ERROR,
@@ -282,6 +313,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	infoAddress = ifltab[zdssKeys.kaddInfoLastPath];
 	infoOld = (long long*)calloc((size_t)numberInfoOld, LONG_SIZE);
 	if (!infoOld) {
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		free(newPath);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
 								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberInfoOld, 0,
-- 
2.43.0


From 4e849b3c3096e1de112d923adbd8f1d134a5e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:22 +0000
Subject: [PATCH 82/93] fix: looking for reclaimed space beyond the last table
 makes the next release overwrite the file header

---
 heclib/heclib_c/src/Internal/zreclaimRead.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zreclaimRead.c b/heclib/heclib_c/src/Internal/zreclaimRead.c
index 3b39b80..431c563 100644
--- a/heclib/heclib_c/src/Internal/zreclaimRead.c
+++ b/heclib/heclib_c/src/Internal/zreclaimRead.c
@@ -42,6 +42,11 @@ long long* zreclaimRead (long long *ifltab, int *iarrayNumber, int boolRelease)
 
 	inumber = *iarrayNumber;
 	if (boolRelease) {
+		if (fileHeader[zdssFileKeys.kreclaimSegAvailableAdd] == 0) {
+			//  (There is no array at the start of the file; that's the file header)
+			fileHeader[zdssFileKeys.kreclaimSegAvailableAdd] = fileHeader[zdssFileKeys.kreclaimTableAddress];
+			fileHeader[zdssFileKeys.kreclaimSegNumber] = 0;
+		}
 		if ((inumber == 0) || (inumber == (int)fileHeader[zdssFileKeys.kreclaimSegNumber])){
 			//  Read in the current array with space
 			istat = zget(ifltab, fileHeader[zdssFileKeys.kreclaimSegAvailableAdd], (int *)reclaimArray, (int)fileHeader[zdssFileKeys.kreclaimSize], 2);
@@ -94,6 +99,7 @@ long long* zreclaimRead (long long *ifltab, int *iarrayNumber, int boolRelease)
 				return (long long *)0;
 			}
 			fileHeader[zdssFileKeys.kreclaimSegAvailableAdd] = fileHeader[zdssFileKeys.kreclaimTableAddress];
+			fileHeader[zdssFileKeys.kreclaimSegNumber] = 0;
 		}
 		else { // if (inumber < fileHeader[zdssFileKeys.kreclaimSegmentsUsed]) {
 			//  Now we have to search for that array
@@ -109,8 +115,8 @@ long long* zreclaimRead (long long *ifltab, int *iarrayNumber, int boolRelease)
 					address = reclaimArray[iaddLoc];
 				}
 				if (address == 0) {
-					reclaimArray = 0;
-					break;
+					//  There isn't one with that number; stay with the current array
+					return (long long *)0;
 				}
 			}
 			fileHeader[zdssFileKeys.kreclaimSegAvailableAdd] = address;
-- 
2.43.0


From e3964469a424606005856be22dbe9de41d734e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:22 +0000
Subject: [PATCH 83/93] fix: pathname bins of a damaged file are walked beyond
 their end or for ever

---
 heclib/heclib_c/src/Internal/zbinUpdate.c     | 48 ++++++++++++++++++-
 .../heclib_c/src/Internal/zcatalogInternal.c  |  5 ++
 heclib/heclib_c/src/Internal/zcheckInternal.c | 14 ++++++
 .../heclib_c/src/SemiPublic/zcheckHashTable.c | 24 ++++++++--
 .../src/SemiPublic/zcheckPathnameBins.c       | 16 +++++++
 .../heclib_c/src/SemiPublic/zcheckPathnames.c | 21 +++++++-
 heclib/heclib_c/src/headers/hecdssInternal.h  |  2 +
 7 files changed, 124 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zbinUpdate.c b/heclib/heclib_c/src/Internal/zbinUpdate.c
index 2d4bed3..9748961 100644
--- a/heclib/heclib_c/src/Internal/zbinUpdate.c
+++ b/heclib/heclib_c/src/Internal/zbinUpdate.c
@@ -76,6 +76,43 @@
 *
 **/
 
+//  Is the pathname at this position (words) in the bin one that can be there?  In a file that has
+//  been damaged, the size may be anything, and would take us out of the bin.
+int zbinEntryValid(const long long *pathnameBin, int position, int binSize)
+{
+	int numberChars;
+	int pathnameSize;
+
+	if ((position < 0) || ((position + zdssBinKeys.kbinSize) >= (binSize - 1))) {
+		return 0;
+	}
+	i8toi4(pathnameBin[position + zdssBinKeys.kbinPathLen], &numberChars, &pathnameSize);
+	if ((numberChars < 1) || (numberChars >= MAX_PATHNAME_LENGTH)) {
+		return 0;
+	}
+	if (pathnameSize != numberLongsInBytes(numberChars)) {
+		return 0;
+	}
+	return ((position + zdssBinKeys.kbinSize + pathnameSize) < (binSize - 1));
+}
+
+//  Call with each address in a chain of bins.  Returns 1 when the chain (of a file that has been damaged)
+//  comes back to itself.  state is 3 long words, all zero for the first call.
+int zbinChainLoops(long long binAddress, long long *state)
+{
+	if ((state[1] > 0) && (binAddress == state[0])) {
+		return 1;
+	}
+	if (state[2] == state[1]) {
+		//  Remember this address, and look for it in twice as many
+		state[0] = binAddress;
+		state[1] = (state[1] * 2) + 1;
+		state[2] = 0;
+	}
+	state[2]++;
+	return 0;
+}
+
 int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 			   int recordStatus, int dataType)
 {
@@ -97,6 +134,7 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 	int boolDoubleCheckPath;
 	long long *pathnameBin;
 	long long *fileHeader;
+	long long chainState[3] = { 0, 0, 0 };
 	char buff[80];
 	char path[MAX_PATHNAME_LENGTH];
 
@@ -134,6 +172,10 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 		//  blank from zbinNew.  If from zbinNew, then we cannot read
 		//  it yet, as it has not been written to disk.
 		if (boolReadBin) {
+			if (zbinChainLoops(ifltab[zdssKeys.kbinAddCurrent], chainState)) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_zbinUpdate_ID, zdssErrorCodes.BIN_SIZE_CONFLICT,
+										 0, ifltab[zdssKeys.kbinAddCurrent], zdssErrorSeverity.CORRUPT_FILE, pathname, "Pathname bins loop");
+			}
 			if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
 				_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, "%lld,  size: %d",
 					ifltab[zdssKeys.kbinAddCurrent], isize);
@@ -221,6 +263,10 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 						}
 						if (!boolSame) {
 							//  Not the same, move on to the next one in the bin
+							if (!zbinEntryValid(pathnameBin, icount, isize)) {
+								return zerrorProcessing(ifltab, DSS_FUNCTION_zbinUpdate_ID, zdssErrorCodes.BIN_SIZE_CONFLICT,
+										 icount, ifltab[zdssKeys.kbinAddCurrent], zdssErrorSeverity.CORRUPT_FILE, pathname, "");
+							}
 							icount += zdssBinKeys.kbinSize + pathnameSize;
 							continue;
 						}
@@ -289,7 +335,7 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 			else {
 				i8toi4(pathnameBin[icount+zdssBinKeys.kbinPathLen], &pathnameLength, &pathnameSize);
 				icount += zdssBinKeys.kbinSize + pathnameSize;
-				if (icount >= (isize-1)) {
+				if ((pathnameSize < 1) || (icount >= (isize-1))) {
 					//  hmm... shouldn't get here.  The pathname block size is larger than possible....
 					if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_CRITICAL)) {
 						_snprintf_s(buff, sizeof(buff), _TRUNCATE, "icount: %d, isize: %d, pathname length: %d, address: %lld",
diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index 6e06f70..e61cdb1 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -149,6 +149,7 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 	long long binAddress;
 	long long *pathnameBin;
 	long long *fileHeader;
+	long long chainState[3] = { 0, 0, 0 };
 	char messageString[80];
 	char dateString[40];
 	char timeString[20];
@@ -295,6 +296,10 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 
 	while (1) {
 		jcount = 0;
+		if (zbinChainLoops(binAddress, chainState)) {
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID, zdssErrorCodes.INVALID_ADDRESS,
+									0, binAddress, zdssErrorSeverity.CORRUPT_FILE, "", "Pathname bins loop");
+		}
 		while (jcount < (int)fileHeader[zdssFileKeys.kbinsPerBlock]) {
 			status = zget(ifltab, binAddress, (int *)pathnameBin, binSize, 2);
 			if (zisError(status)) {
diff --git a/heclib/heclib_c/src/Internal/zcheckInternal.c b/heclib/heclib_c/src/Internal/zcheckInternal.c
index ebaf8e0..292876f 100644
--- a/heclib/heclib_c/src/Internal/zcheckInternal.c
+++ b/heclib/heclib_c/src/Internal/zcheckInternal.c
@@ -84,6 +84,8 @@ int zcheckInternal(long long *ifltab, const char* pathname, int statusWanted)
 	int pathnameSize;
 	int pathSizeIn;
 	long long *fileHeader;
+	long long chainState[3] = { 0, 0, 0 };
+	long long aliasState[3] = { 0, 0, 0 };
 	char messageString[80];
 
 
@@ -256,6 +258,10 @@ int zcheckInternal(long long *ifltab, const char* pathname, int statusWanted)
 	//  Now loop, reading pathname bins checking the bin hash of each pathname found
 	//  if none match, then this pathname was not found.
 	while (1) {
+		if (zbinChainLoops(binAddress, chainState)) {
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zcheck_ID, zdssErrorCodes.INVALID_ADDRESS,
+									0, binAddress, zdssErrorSeverity.CORRUPT_FILE, pathname, "Pathname bins loop");
+		}
 		ifltab[zdssKeys.kbinAddCurrent] = binAddress;
 		//  Read the pathname bin
 		//  Check to see if the file size has increased since last read
@@ -315,6 +321,10 @@ int zcheckInternal(long long *ifltab, const char* pathname, int statusWanted)
 				//  No more, didn't find it in this block, continue on
 				break;
 			}
+			if (!zbinEntryValid(pathnameBin, icount, isize)) {
+				//  Not a pathname (the file is damaged); the rest of this bin cannot be used
+				break;
+			}
 			i8toi4(pathnameBin[icount+zdssBinKeys.kbinPathLen], &numberChars, &pathnameSize);
 
 			//  Each pathname in the bin has a record status:
@@ -446,6 +456,10 @@ int zcheckInternal(long long *ifltab, const char* pathname, int statusWanted)
 			if (zmessageLevel(ifltab, MESS_METHOD_CHECK_ID, MESS_LEVEL_USER_DIAG)) {
 				zmessageDebugLong(ifltab, DSS_FUNCTION_zcheck_ID, "At pathname bin at address: ", ifltab[zdssKeys.kaddInfoLastPath]);
 			}
+			if (zbinChainLoops(ifltab[zdssKeys.kaddInfoLastPath], aliasState)) {
+				return zerrorProcessing(ifltab, DSS_FUNCTION_zcheck_ID, zdssErrorCodes.INVALID_ADDRESS,
+										0, ifltab[zdssKeys.kaddInfoLastPath], zdssErrorSeverity.CORRUPT_FILE, pathname, "Aliases loop");
+			}
 			status = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (void *)binAlias, 8, 2);
 			if (zisError(status)) {
 				zmessage2(ifltab, "Reading info for alias for record ", pathname);
diff --git a/heclib/heclib_c/src/SemiPublic/zcheckHashTable.c b/heclib/heclib_c/src/SemiPublic/zcheckHashTable.c
index 9eab26d..1cc0ade 100644
--- a/heclib/heclib_c/src/SemiPublic/zcheckHashTable.c
+++ b/heclib/heclib_c/src/SemiPublic/zcheckHashTable.c
@@ -1,3 +1,4 @@
+#include <string.h>
 #include "zdssKeys.h"
 #include "zdssMessages.h"
 #include "zdssVals.h"
@@ -55,6 +56,7 @@ int zcheckHashTable(long long *ifltab)
 	long long *pathnameBin;
 	long long *fileHeader;
 	long long *info;
+	long long chainState[3];
 
 
 	if (zmessageLevel(ifltab, MESS_METHOD_CHECK_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
@@ -80,8 +82,14 @@ int zcheckHashTable(long long *ifltab)
 								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, binSize, 0,
 								zdssErrorSeverity.MEMORY_ERROR, "", "Allocating pathnameBin");
 	}
-	maxInfo = zdssVals.infoSize + numberLongsInBytes((int)fileHeader[zdssFileKeys.kmaxPath]) + 1;
+	maxInfo = zdssVals.infoSize + numberLongsInBytes(MAX_PATHNAME_LENGTH) + 1;
 	info = (long long*)calloc((size_t)maxInfo, LONG_SIZE);
+	if (!info) {
+		free(pathnameBin);
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zcheckHashTable_ID,
+								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, maxInfo, 0,
+								zdssErrorSeverity.MEMORY_ERROR, "", "Allocating info");
+	}
 	numberNotFound = 0;
 	numberFound = 0;
 	numberErrors = 0;
@@ -116,12 +124,18 @@ int zcheckHashTable(long long *ifltab)
 
 		//  Read all pathname bins for one hash
 		//  Now that the hash table points to a pathname bin, read from that bin and subsequent with same hash
+		memset(chainState, 0, sizeof(chainState));
 		while (1) {
 			if (zprogress.interrupt) {
 				free(pathnameBin);
 				free(info);
 				return (numberNotFound + numberErrors);
 			}
+			if (zbinChainLoops(binAddress, chainState)) {
+				//  The pathname bins for this hash code loop
+				numberErrors++;
+				break;
+			}
 			status = zget(ifltab, binAddress, (int *)pathnameBin, binSize, 2);
 			if (zisError(status)) {
 				free(pathnameBin);
@@ -133,16 +147,18 @@ int zcheckHashTable(long long *ifltab)
 			infoAddress = 0;
 			icount = 0;
 			while (1) {
-				assert(icount+zdssBinKeys.kbinHash <= binSize);
 				if (pathnameBin[icount+zdssBinKeys.kbinHash] == 0) {
 					//  No more, didn't find it in this block, continue on
 					break;
 				}
-				assert(icount+zdssBinKeys.kbinPathLen <= binSize);
+				if (!zbinEntryValid(pathnameBin, icount, binSize)) {
+					//  Not a pathname; the rest of this bin cannot be checked
+					numberErrors++;
+					break;
+				}
 				i8toi4(pathnameBin[icount+zdssBinKeys.kbinPathLen], &numberChars, &pathnameSize);
 				if (zcompareRecordStatus((int)pathnameBin[icount+zdssBinKeys.kbinStatus], REC_STATUS_VALID)) {
 					//  Found it!
-					assert(icount+zdssBinKeys.kbinInfoAdd <= binSize);
 					infoAddress = pathnameBin[icount+zdssBinKeys.kbinInfoAdd];
 					charLong(&pathnameBin[icount + zdssBinKeys.kbinPath], pathname, numberChars, sizeof(pathname), 0, 0);
 					status = zreadInfoBlock (ifltab, pathname, 0, info, maxInfo, &numberInfo);
diff --git a/heclib/heclib_c/src/SemiPublic/zcheckPathnameBins.c b/heclib/heclib_c/src/SemiPublic/zcheckPathnameBins.c
index 9430970..72abab8 100644
--- a/heclib/heclib_c/src/SemiPublic/zcheckPathnameBins.c
+++ b/heclib/heclib_c/src/SemiPublic/zcheckPathnameBins.c
@@ -60,6 +60,7 @@ int zcheckPathnameBins(long long *ifltab)
 	long long binAddress;
 	long long *pathnameBin;
 	long long *fileHeader;
+	long long chainState[3] = { 0, 0, 0 };
 	char messageString[120];
 	char pathname[MAX_PATHNAME_LENGTH];
 
@@ -98,6 +99,11 @@ int zcheckPathnameBins(long long *ifltab)
 
 	while (1) {
 		jcount = 0;
+		if (zbinChainLoops(binAddress, chainState)) {
+			free(pathnameBin);
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zcheckPathnameBins_ID, zdssErrorCodes.INVALID_ADDRESS,
+									0, binAddress, zdssErrorSeverity.CORRUPT_FILE, "", "Pathname bins loop");
+		}
 		while (jcount < (int)fileHeader[zdssFileKeys.kbinsPerBlock]) {
 			istat = zget(ifltab, binAddress, (void *)pathnameBin, binSize, 2);
 			if (istat != 0) {
@@ -129,6 +135,16 @@ int zcheckPathnameBins(long long *ifltab)
 						//  End of pathnames in this block
 						boolShouldBeZero = 1;
 					}
+					else if (!zbinEntryValid(pathnameBin, ncount, binSize)) {
+						//  Not a pathname; the rest of this bin cannot be checked
+						if (zmessageLevel(ifltab, MESS_METHOD_FILE_CHECK_ID, MESS_LEVEL_GENERAL)) {
+							_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, " %lld, position %d",
+								binAddress, ncount);
+							zmessage2(ifltab, "***  Invalid pathname length in check pathnames bins at address ", messageString);
+						}
+						numberErrors++;
+						break;
+					}
 				}
 				else if (icount == 1) {
 					//  Should be record status
diff --git a/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c b/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
index 65218d2..aa7cef2 100644
--- a/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
+++ b/heclib/heclib_c/src/SemiPublic/zcheckPathnames.c
@@ -58,6 +58,7 @@ int zcheckPathnames(long long *ifltab)
 	long long *pathnameBin;
 	long long info[300];
 	long long *fileHeader;
+	long long chainState[3] = { 0, 0, 0 };
 	char messageString[80];
 	char pathname[MAX_PATHNAME_LENGTH];
 
@@ -88,8 +89,13 @@ int zcheckPathnames(long long *ifltab)
 
 	while (1) {
 		jcount = 0;
+		if (zbinChainLoops(binAddress, chainState)) {
+			free(pathnameBin);
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zcheckPathnames_ID, zdssErrorCodes.INVALID_ADDRESS,
+									0, binAddress, zdssErrorSeverity.CORRUPT_FILE, "", "Pathname bins loop");
+		}
 		while (jcount < (int)fileHeader[zdssFileKeys.kbinsPerBlock]) {
-			istat = zget(ifltab, binAddress, (int *)pathnameBin, binSize, 2);
+			status = zget(ifltab, binAddress, (int *)pathnameBin, binSize, 2);
 			if (zisError(status)) {
 				free(pathnameBin);
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcheckPathnames_ID);
@@ -104,6 +110,19 @@ int zcheckPathnames(long long *ifltab)
 					free(pathnameBin);
 					return numberErrors;
 				}
+				if (!zbinEntryValid(pathnameBin, icount, binSize)) {
+					if (zmessageLevel(ifltab, MESS_METHOD_CHECK_ID, MESS_LEVEL_GENERAL)) {
+						_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, " %lld, position %d", binAddress, icount);
+						zmessage2(ifltab, "***  Invalid pathname length in check pathnames at address ", messageString);
+					}
+					numberErrors++;
+					zprogress.numberErrors = numberErrors;
+					if (numberErrors >= zprogress.maxErrors) {
+						free(pathnameBin);
+						return numberErrors;
+					}
+					break;
+				}
 				i8toi4(pathnameBin[icount+zdssBinKeys.kbinPathLen], &numberChars, &pathnameSize);
 				if (zcompareRecordStatus((int)pathnameBin[icount+zdssBinKeys.kbinStatus], REC_STATUS_VALID)) {
 					//  Found one!
diff --git a/heclib/heclib_c/src/headers/hecdssInternal.h b/heclib/heclib_c/src/headers/hecdssInternal.h
index 06792d2..80f1cfd 100644
--- a/heclib/heclib_c/src/headers/hecdssInternal.h
+++ b/heclib/heclib_c/src/headers/hecdssInternal.h
@@ -120,6 +120,8 @@ int zcollectionsPath(char* pathname, size_t pathnameLength);
 int zcompareRecordStatus(int statusRead, int statusWanted);
 int zcheckMultiUser(long long *ifltab);
 int zbinNew(long long *ifltab);
+int zbinEntryValid(const long long *pathnameBin, int position, int binSize);
+int zbinChainLoops(long long binAddress, long long *state);
 int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress, int recordStatus,
 			   int dataType);
 int zpdUnitsToHead(zStructPairedData *pds, int *internalHeader, int internalHeaderArraySize);
-- 
2.43.0


From 1463c398aa8a8f7ad2a36a794d73866aeab327c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:22 +0000
Subject: [PATCH 84/93] fix: damaged sizes in the file header are used to
 allocate, index and recurse

---
 heclib/heclib_c/src/Internal/zget.c      |  3 ++-
 heclib/heclib_c/src/Internal/zpermRead.c | 30 ++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zget.c b/heclib/heclib_c/src/Internal/zget.c
index cf08fea..2dfcef0 100644
--- a/heclib/heclib_c/src/Internal/zget.c
+++ b/heclib/heclib_c/src/Internal/zget.c
@@ -78,7 +78,8 @@ int zget(long long *ifltab, long long iaddress,  int *iarray, int numberWords, i
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zget_ID, zdssErrorCodes.INVALID_ADDRESS,
 										 0, iaddress, zdssErrorSeverity.CORRUPT_FILE, "", "");
 	}
-	if (iaddress > (fileHeader[zdssFileKeys.kfileSize] + 10000)) {
+	//  (The file header itself, at address 0, is always there; it is what we would update)
+	if ((iaddress > 0) && (iaddress > (fileHeader[zdssFileKeys.kfileSize] + 10000))) {
 		//  Update perm area, in case another process is writing
 		if (zmessageLevel(ifltab, MESS_METHOD_GENERAL_ID, MESS_LEVEL_USER_DIAG)) {
 			zmessageDebug(ifltab, DSS_FUNCTION_zget_ID, "Read request beyond end of file, updating perm ", "");
diff --git a/heclib/heclib_c/src/Internal/zpermRead.c b/heclib/heclib_c/src/Internal/zpermRead.c
index f5ac60a..f6fc7dc 100644
--- a/heclib/heclib_c/src/Internal/zpermRead.c
+++ b/heclib/heclib_c/src/Internal/zpermRead.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <limits.h>
 
 #include "heclib7.h"
 #include "zdssKeys.h"
@@ -63,6 +64,10 @@ int zpermRead (long long *ifltab)
 	if (ifltab[zdssKeys.kfileHeader] == 0) {
 		if (ifltab[zdssKeys.kfiHeadSize] == 0) {
 			ifltab[zdssKeys.kfiHeadSize] = 100;   //  DSS_MIN_FILE_HEADER_SIZE;
+		}
+		if ((ifltab[zdssKeys.kfiHeadSize] <= zdssFileKeys.kendFileHeader) || (ifltab[zdssKeys.kfiHeadSize] > 10000)) {
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zpermRead_ID, zdssErrorCodes.INVALID_HEADER_PARAMETER,	0,
+				ifltab[zdssKeys.kfiHeadSize], zdssErrorSeverity.CORRUPT_FILE, "", "Invalid file header size: ");
 		}
 		 status = zmemoryGet(ifltab, zdssKeys.kfileHeader, (int)ifltab[zdssKeys.kfiHeadSize], "DSS file header");
 		 if (zisError(status)) {
@@ -82,6 +87,31 @@ int zpermRead (long long *ifltab)
 			fileHeader[zdssFileKeys.kendFileHeader], zdssErrorSeverity.CORRUPT_FILE, "", "End of header flag is invalid");
 	}
 
+	//  These are used to compute addresses; be sure they can be (the file may have been damaged)
+	if ((fileHeader[zdssFileKeys.kmaxHash] < 2) || (fileHeader[zdssFileKeys.kmaxHash] > INT_MAX)) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zpermRead_ID, zdssErrorCodes.INVALID_HEADER_PARAMETER,	0,
+			fileHeader[zdssFileKeys.kmaxHash], zdssErrorSeverity.CORRUPT_FILE, "", "Invalid hash table size: ");
+	}
+
+	if ((fileHeader[zdssFileKeys.klockReadArrayAddress] != 0) &&
+		((fileHeader[zdssFileKeys.klockArraySizes] < 1) || (fileHeader[zdssFileKeys.klockArraySizes] > 100000))) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zpermRead_ID, zdssErrorCodes.INVALID_HEADER_PARAMETER,	0,
+			fileHeader[zdssFileKeys.klockArraySizes], zdssErrorSeverity.CORRUPT_FILE, "", "Invalid lock array size: ");
+	}
+
+	if ((fileHeader[zdssFileKeys.kreclaimSize] < 0) || (fileHeader[zdssFileKeys.kreclaimSize] > 1000000) ||
+		(fileHeader[zdssFileKeys.kreclaimNumber] < 0) || (fileHeader[zdssFileKeys.kreclaimNumber] > (fileHeader[zdssFileKeys.kreclaimSize] / 2))) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zpermRead_ID, zdssErrorCodes.INVALID_HEADER_PARAMETER,	0,
+			fileHeader[zdssFileKeys.kreclaimNumber], zdssErrorSeverity.CORRUPT_FILE, "", "Invalid reclamation array size: ");
+	}
+	if (ifltab[zdssKeys.kreclaim] != 0) {
+		memory = (long long *)ifltab[zdssKeys.kreclaim] - 2L;
+		if (memory[1] != fileHeader[zdssFileKeys.kreclaimSize]) {
+			free(memory);
+			ifltab[zdssKeys.kreclaim] = 0;
+		}
+	}
+
 	//  If we have not allocated the other arrays yet, do so now.
 	//  The file header we just read will have the sizes
 
-- 
2.43.0


From 3ce4ced966c21565b013ff5d3a0688cbe18022a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:22 +0000
Subject: [PATCH 85/93] fix: a damaged catalog sort sequence is used as an
 index

---
 heclib/heclib_c/src/Internal/zcatInternalSort.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 9b8f0da..c98a4c9 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -435,7 +435,22 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 			return -1;
 		}
 		sequence = getLastInt(cline);
-		if (sequence > -1) {
+		if ((sequence < 0) || (sequence >= numberPathnames)) {
+			//  Not a line that we wrote; a (damaged) pathname has a line end in it
+			fclose(sortedFP);
+#ifdef _MSC_VER
+			_unlink(tempSorted);
+#else
+			unlink(tempSorted);
+#endif
+			free(tempSorted);
+			if (nonSortedStruct) zstructFree(nonSortedStruct);
+			nonSortedStruct = 0;
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+							zdssErrorCodes.INVALID_PATHNAME, sequence, 0,
+							zdssErrorSeverity.CORRUPT_FILE, "", "Sorting pathnames");
+		}
+		else {
 			if (catalogHandle) {
 				status = writeBytes(catalogHandle, nonSortedStruct->pathnameList[sequence], (unsigned int)strlen(nonSortedStruct->pathnameList[sequence]));
 				if (status < 0) {
-- 
2.43.0


From ec5b346e11216eed3c56c291f1f61d951f2b9a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:32 +0000
Subject: [PATCH 86/93] fix: damaged sizes in a time series block header are
 used as they are

---
 .../heclib_c/src/Internal/ztsDisaggregate.c   | 107 ++++++++++++++++++
 .../src/Internal/ztsGetSizesInternal.c        |  10 ++
 .../heclib_c/src/Internal/ztsIrregReadBlock.c |  11 +-
 .../heclib_c/src/Internal/ztsRegReadBlock.c   |  13 ++-
 .../heclib_c/src/Internal/ztsRegStoreBlock.c  |   2 +
 heclib/heclib_c/src/headers/hecdss7.h         |   3 +
 6 files changed, 140 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsDisaggregate.c b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
index 82c6725..09317c5 100644
--- a/heclib/heclib_c/src/Internal/ztsDisaggregate.c
+++ b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
@@ -119,6 +119,113 @@
 **/
 
 
+//  Can the sizes in the internal header of a block be so?  Returns 1 if they can, 0 if not
+int ztsInternalHeaderValid(int dataType, const int *internalHeader)
+{
+	int size;
+	int element;
+	int depths;
+
+	depths = internalHeader[INT_HEAD_profileDepthsNumber];
+	size = internalHeader[INT_HEAD_valueSize];
+	element = internalHeader[INT_HEAD_valueElementSize];
+	if ((depths < 0) ||
+		(((dataType == DATA_TYPE_RTS_PROFILE) || (dataType == DATA_TYPE_RTD_PROFILE) ||
+		(dataType == DATA_TYPE_ITS_PROFILE) || (dataType == DATA_TYPE_ITD_PROFILE)) != (depths > 0))) {
+		return 0;
+	}
+	//  The size of a value is 1 (float) or 2 (double), or that for each depth
+	if ((element < 0) || (element > 2) || (size < 0)) {
+		return 0;
+	}
+	if (internalHeader[INT_HEAD_valuesNumber] > 0) {
+		if (depths > 0) {
+			if ((element < 1) || ((long long)size != ((long long)depths * element))) {
+				return 0;
+			}
+		}
+		else if ((size < 1) || (size > 2) || ((element != 0) && (element != size))) {
+			return 0;
+		}
+	}
+	if ((internalHeader[INT_HEAD_qualityElementSize] < 0) || (internalHeader[INT_HEAD_qualityElementSize] > 10000) ||
+		(internalHeader[INT_HEAD_inotesElementSize] < 0) || (internalHeader[INT_HEAD_inotesElementSize] > 10000) ||
+		(internalHeader[INT_HEAD_cnotesLength] < 0)) {
+		return 0;
+	}
+	return 1;
+}
+
+//  Does the data of a block hold what its internal header says?  Returns 1 if the numbers agree, 0 if not
+//  (the record has been damaged, or was rewritten by another program while being read)
+int ztsBlockValid(int dataType, const int *internalHeader, const int *header2, int header2Number,
+	int numberStored, int numberTimes, int dataNumber)
+{
+	int i, k;
+	int words;
+	int bits;
+	long long need;
+	long long total;
+	int number[3];
+	int size[3];
+	int flag[3];
+
+	number[0] = internalHeader[INT_HEAD_valuesNumber];
+	size[0] = internalHeader[INT_HEAD_valueSize];
+	flag[0] = internalHeader[INT_HEAD_valuesCompressionFlag];
+	number[1] = internalHeader[INT_HEAD_qualityNumber];
+	size[1] = internalHeader[INT_HEAD_qualityElementSize];
+	flag[1] = internalHeader[INT_HEAD_qualityCompressionFlag];
+	number[2] = internalHeader[INT_HEAD_inotesNumber];
+	size[2] = internalHeader[INT_HEAD_inotesElementSize];
+	flag[2] = internalHeader[INT_HEAD_inotesCompressionFlag];
+
+	if ((numberStored < 0) || (numberTimes < 0) || !ztsInternalHeaderValid(dataType, internalHeader)) {
+		return 0;
+	}
+
+	total = (long long)numberTimes + (internalHeader[INT_HEAD_cnotesLength] / 4);
+	words = 0;
+	for (k = 0; k < 3; k++) {
+		if (number[k] < 0) {
+			return 0;
+		}
+		if ((number[k] == 0) || (numberStored == 0)) {
+			continue;
+		}
+		if ((k == 2) && (size[k] == 0)) {
+			//  Character notes
+			continue;
+		}
+		if (size[k] < 1) {
+			return 0;
+		}
+		total += number[k];
+		need = numberStored;
+		if (flag[k] == 1) {
+			//  Only values that differ from the one before are stored
+			bits = words * 32;
+			words += ((numberStored - 1) / 32) + 1;
+			if (!header2 || (words > header2Number)) {
+				return 0;
+			}
+			need = 1;
+			for (i = 1; i < numberStored; i++) {
+				if (!((unsigned int)header2[(bits + i) / 32] & (1u << (i % 32)))) {
+					need++;
+				}
+			}
+		}
+		else if (flag[k] == 2) {
+			need = 1;
+		}
+		if ((need * size[k]) > number[k]) {
+			return 0;
+		}
+	}
+	return (total <= dataNumber);
+}
+
 int ztsDisaggregate(long long *ifltab, int numberToRead, int numberStored,
 	int dataInPosition, int *numberExpanded, int blockStartPosition,
 	int positionRelativeFirstValid, int positionRelativeLastValid,
diff --git a/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c b/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
index d6436ea..973cf8c 100644
--- a/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
+++ b/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
@@ -1,6 +1,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <limits.h>
 
 #include "heclib7.h"
 #include "zdssKeys.h"
@@ -164,6 +165,9 @@ int ztsGetSizesInternal(long long *ifltab, ztsTimeWindow *timeWindow, zStructRec
 				info = (long long *)ifltab[zdssKeys.kinfo];
 				number = (int)info[zdssInfoKeys.kinfoInternalHeadNumber];
 				if (number > INT_HEAD_SIZE) number = INT_HEAD_SIZE;
+				if (number < 0) number = 0;
+				//  (A header that is shorter does not have the other items)
+				for (version = number; version < INT_HEAD_SIZE; version++) internalHeader[version] = 0;
 				status = zget(ifltab, info[zdssInfoKeys.kinfoInternalHeadAddress], internalHeader, number, 1);
 				if (zisError(status)) {
 					return status;
@@ -172,6 +176,12 @@ int ztsGetSizesInternal(long long *ifltab, ztsTimeWindow *timeWindow, zStructRec
 					zswitchInts(internalHeader, INT_HEAD_cnotesLength + 1);
 				}
 				i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &dataType, &version);
+				if ((dataType >= DATA_TYPE_RTS) && (dataType < DATA_TYPE_PD) && (!ztsInternalHeaderValid(dataType, internalHeader) ||
+					((long long)recordSize->tsCnotesLength + internalHeader[INT_HEAD_cnotesLength] > INT_MAX))) {
+					return zerrorProcessing(ifltab, DSS_FUNCTION_zreadInfo_ID,
+						zdssErrorCodes.INVALID_RECORD_HEADER, dataType,
+						0, zdssErrorSeverity.READ_ERROR, path, "");
+				}
 				recordSize->dataType = dataType;
 				recordSize->version = version;
 				recordSize->numberValues +=			(int)info[zdssInfoKeys.kinfoNumberData];
diff --git a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
index 62f2bf2..530d4ec 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
@@ -311,6 +311,9 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 		ztransfer->userHeaderMode = userHeader ? userHeaderArraySize : 0;
 		ztransfer->header2Mode = 1;
 
+		//  (A header that is shorter does not have the other items)
+		for (i = 0; i < internalHeaderArraySize; i++) internalHeader[i] = 0;
+
 		status = zreadInternal(ifltab, ztransfer, bufferControl, buffer, 1);
 		if (zisError(status)) {
 			zstructFree(ztransfer);
@@ -321,7 +324,7 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 			(ztransfer->internalHeaderNumber < 5)) {
 			status = zerrorProcessing(ifltab, DSS_FUNCTION_ztsIrregReadBlock_ID,
 				zdssErrorCodes.WRONG_RECORD_TYPE, DATA_TYPE_ITS,
-				(long long)ztransfer->dataType, zdssErrorSeverity.WARNING, ztransfer->pathname, "");
+				(long long)ztransfer->dataType, zdssErrorSeverity.READ_ERROR, ztransfer->pathname, "");
 			zstructFree(ztransfer);
 			return status;
 		}
@@ -346,6 +349,12 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 		}
 
 		numberStored = (int)info[zdssInfoKeys.kinfoNumberData];
+		if (!ztsBlockValid(ztransfer->dataType, internalHeader, ztransfer->header2, ztransfer->header2Number, numberStored, numberStored, ztransfer->values1Number)) {
+			zstructFree(ztransfer);
+			return zerrorProcessing(ifltab, DSS_FUNCTION_ztsIrregReadBlock_ID,
+				zdssErrorCodes.INVALID_RECORD_HEADER, numberStored,
+				0, zdssErrorSeverity.READ_ERROR, pathname, "");
+		}
 		if (zmessageLevel(ifltab, MESS_METHOD_TS_READ_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 			_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, "%d, Quality Compression: %d, Notes Compression: %d",
 				internalHeader[INT_HEAD_valuesCompressionFlag], internalHeader[INT_HEAD_qualityCompressionFlag], internalHeader[INT_HEAD_inotesCompressionFlag]);
diff --git a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
index e11053e..0c80d1e 100644
--- a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
@@ -238,7 +238,7 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 			(ztransfer->internalHeaderNumber < 5)) {
 			int rval = zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegReadBlock_ID,
 				zdssErrorCodes.INVALID_RECORD_HEADER, ztransfer->dataType,
-				0, zdssErrorSeverity.WARNING, ztransfer->pathname, "");
+				0, zdssErrorSeverity.READ_ERROR, ztransfer->pathname, "");
 			zstructFree(ztransfer);
 			return rval;
 		}
@@ -251,6 +251,8 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 		*internalHeaderNumber = ztransfer->internalHeaderNumber;
 		if (*internalHeaderNumber > internalHeaderArraySize) *internalHeaderNumber = internalHeaderArraySize;
 		convertIntArray(ztransfer->internalHeader, internalHeader, *internalHeaderNumber, 1, 1);
+		//  (A header that is shorter does not have the other items)
+		for (i = *internalHeaderNumber; i < internalHeaderArraySize; i++) internalHeader[i] = 0;
 		*valueElementSizeRead = internalHeader[INT_HEAD_valueElementSize];
 		*qualityElementSize = internalHeader[INT_HEAD_qualityElementSize];
 		*inoteElementSize = internalHeader[INT_HEAD_inotesElementSize];
@@ -317,11 +319,12 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 			(numberStored > (internalHeader[INT_HEAD_blockEndPosition] - internalHeader[INT_HEAD_blockStartPosition] + 1)) ||
 			((internalHeader[INT_HEAD_valuesNumber] > 0) && (internalHeader[INT_HEAD_valueSize] <= 0)) ||
 			((internalHeader[INT_HEAD_valuesNumber] > 0) && (internalHeader[INT_HEAD_valuesCompressionFlag] == 0) &&
-			(((long long)numberStored * internalHeader[INT_HEAD_valueSize]) > ztransfer->values1Number))) {
+			(((long long)numberStored * internalHeader[INT_HEAD_valueSize]) > ztransfer->values1Number)) ||
+			!ztsBlockValid(ztransfer->dataType, internalHeader, ztransfer->header2, ztransfer->header2Number, numberStored, 0, ztransfer->values1Number)) {
 			zstructFree(ztransfer);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegReadBlock_ID,
 				zdssErrorCodes.INVALID_RECORD_HEADER, numberStored,
-				0, zdssErrorSeverity.WARNING, pathname, "");
+				0, zdssErrorSeverity.READ_ERROR, pathname, "");
 		}
 		if (zmessageLevel(ifltab, MESS_METHOD_TS_READ_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 			_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, "%d, Quality Compression: %d, Notes Compression: %d",
@@ -341,7 +344,7 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 			status = ztsDisaggregateDep(ifltab, numberToRead, numberStored, &numberExpanded,
 				blockStartPosition, positionRelativeFirstValid, positionRelativeLastValid,
 				ztransfer->values1,
-				ztransfer->header2, ztransfer->internalHeader,
+				ztransfer->header2, internalHeader,
 				values, valuesArraySize, valuesSizeRequested,
 				quality, qualityArraySize, qualitySizeRequested,
 				notes, notesArraySize, notesSizeRequested,
@@ -351,7 +354,7 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 			status = ztsDisaggregate(ifltab, numberToRead, numberStored, 0, &numberExpanded,
 				blockStartPosition, positionRelativeFirstValid, positionRelativeLastValid,
 				ztransfer->values1, ztransfer->values1Number,
-				ztransfer->header2, ztransfer->internalHeader,
+				ztransfer->header2, internalHeader,
 				values, valuesArraySize, valuesSizeRequested,
 				quality, qualityArraySize, qualitySizeRequested,
 				notes, notesArraySize, notesSizeRequested,
diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 9de7419..89631c9 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -369,6 +369,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 			//  Now read internal header array 
 			lengthInternalHeaderRead = (int)info[zdssInfoKeys.kinfoInternalHeadNumber];
 			if (lengthInternalHeaderRead > sizeInternalHeaderRead) lengthInternalHeaderRead = sizeInternalHeaderRead;
+			for (i = 0; i < sizeInternalHeaderRead; i++) internalHeaderRead[i] = 0;
+			if (lengthInternalHeaderRead < 0) lengthInternalHeaderRead = 0;
 			status = zget(ifltab, info[zdssInfoKeys.kinfoInternalHeadAddress], internalHeaderRead, lengthInternalHeaderRead, 1);
 			if (zisError(status)) {
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRegStoreBlock_ID);
diff --git a/heclib/heclib_c/src/headers/hecdss7.h b/heclib/heclib_c/src/headers/hecdss7.h
index 7207c62..681b5e0 100644
--- a/heclib/heclib_c/src/headers/hecdss7.h
+++ b/heclib/heclib_c/src/headers/hecdss7.h
@@ -356,6 +356,9 @@ int ztsDisaggregateDep(long long* ifltab, int numberToRead, int numberStored,
 	int* inotes, int inotesArraySize, int inotesSizeRequested,
 	char* cnotes, int cnotesSize, int* cnotesLength);
 
+int ztsInternalHeaderValid(int dataType, const int *internalHeader);
+int ztsBlockValid(int dataType, const int *internalHeader, const int *header2, int header2Number,
+	int numberStored, int numberTimes, int dataNumber);
 int ztsDisaggregate(long long *ifltab, int numberToRead, int numberStored,
 	int dataInPosition, int *numberExpanded, int blockStartPosition,
 	int positionRelativeFirstValid, int positionRelativeLastValid,
-- 
2.43.0


From 51f12a48c1b7ff61f99755f7730f9f59d71ed48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:32 +0000
Subject: [PATCH 87/93] fix: a damaged process table address makes the file
 error handling recurse for ever

---
 heclib/heclib_c/src/Internal/zpidWrite.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zpidWrite.c b/heclib/heclib_c/src/Internal/zpidWrite.c
index 0ef457a..6e8e102 100644
--- a/heclib/heclib_c/src/Internal/zpidWrite.c
+++ b/heclib/heclib_c/src/Internal/zpidWrite.c
@@ -67,7 +67,9 @@ void zpidWrite(long long *ifltab)
 		}
 	}
 
-	if ((ifltab[zdssKeys.kpidMyAddress] == 0) && (fileHeader[zdssFileKeys.kpidArrayAddress] > 0)){
+	//  (An address that is not in the file cannot be read; the error would be saved to the file, which has to be locked for that, ...)
+	if ((ifltab[zdssKeys.kpidMyAddress] == 0) && (fileHeader[zdssFileKeys.kpidArrayAddress] > 0) &&
+		((fileHeader[zdssFileKeys.kpidArrayAddress] + fileHeader[zdssFileKeys.klockArraySizes]) <= fileHeader[zdssFileKeys.kfileSize])) {
 		pids = (long long *)calloc((int)fileHeader[zdssFileKeys.klockArraySizes], 8);
 		//  Bypass any errors here and let them be handled elsewhere
 		if (pids) {
-- 
2.43.0


From e2ed74594d3ead912e69a6cda5526178514c4665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:32 +0000
Subject: [PATCH 88/93] fix: the C interface dereferences a missing cell or
 range array of a grid

---
 heclib/hecdss/hecdss.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 613bee6..e0aad5f 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -795,6 +795,7 @@ HECDSS_API int hec_dss_gridRetrieve(dss_file* dss, const char* pathname, int boo
 
       int size = *numberOfRanges > rangeTablesLength ? rangeTablesLength : *numberOfRanges;
       float* table = (float*)gridStruct->_rangeLimitTable;
+      if (table == NULL || gridStruct->_numberEqualOrExceedingRangeLimit == NULL) size = 0;
       for (int i = 0; i < size; i++) {
         rangeLimitTable[i] = table[i];
         numberEqualOrExceedingRangeLimit[i] = gridStruct->_numberEqualOrExceedingRangeLimit[i];
@@ -803,6 +804,7 @@ HECDSS_API int hec_dss_gridRetrieve(dss_file* dss, const char* pathname, int boo
       size = gridStruct->_numberOfCellsX * gridStruct->_numberOfCellsY;
       size = size > dataLength ? dataLength : size;
       table = (float*)gridStruct->_data;
+      if (table == NULL) size = 0; // the record does not hold the cells
       for (int i = 0; i < size; i++) {
         data[i] = table[i];
       }
-- 
2.43.0


From 6b25bf2cd406dc0bb3c0e7088bb0f625134ae3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:42 +0000
Subject: [PATCH 89/93] fix: merging irregular data with too few character
 notes writes past the notes

---
 heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
index 90ead7f..894778d 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregMergeBlocks.c
@@ -300,7 +300,7 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 				}
 				if (cnotesOutSize > 0) {
 					if (cnotesToStoreLen == 0) {
-						cnotesOut[icnotesPosOut++] = '\0';
+						if (icnotesPosOut < cnotesOutSize) cnotesOut[icnotesPosOut++] = '\0';
 					}
 					else {
 						ispos = copyLines(&cnotesOut[icnotesPosOut], (size_t)(cnotesOutSize - icnotesPosOut),
@@ -347,7 +347,7 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 				}
 				if (cnotesOutSize > 0) {
 					if (cnotesReadLen == 0) {
-						cnotesOut[icnotesPosOut++] = '\0';
+						if (icnotesPosOut < cnotesOutSize) cnotesOut[icnotesPosOut++] = '\0';
 					}
 					else {
 						ispos = copyLines(&cnotesOut[icnotesPosOut], (size_t)(cnotesOutSize - icnotesPosOut),
@@ -395,7 +395,7 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 				}
 				if (cnotesOutSize > 0) {
 					if (cnotesToStoreLen == 0) {
-						cnotesOut[icnotesPosOut++] = '\0';
+						if (icnotesPosOut < cnotesOutSize) cnotesOut[icnotesPosOut++] = '\0';
 					}
 					else {
 						ispos = copyLines(&cnotesOut[icnotesPosOut], (size_t)(cnotesOutSize - icnotesPosOut),
@@ -466,7 +466,7 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 					}
 					if (cnotesOutSize > 0) {
 						if (cnotesReadLen == 0) {
-							cnotesOut[icnotesPosOut++] = '\0';
+							if (icnotesPosOut < cnotesOutSize) cnotesOut[icnotesPosOut++] = '\0';
 						}
 						else {
 							ispos = copyLines(&cnotesOut[icnotesPosOut], (size_t)(cnotesOutSize - icnotesPosOut),
@@ -521,7 +521,7 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 				}
 				if (cnotesOutSize > 0) {
 					if (cnotesToStoreLen == 0) {
-						cnotesOut[icnotesPosOut++] = '\0';
+						if (icnotesPosOut < cnotesOutSize) cnotesOut[icnotesPosOut++] = '\0';
 					}
 					else {
 						ispos = copyLines(&cnotesOut[icnotesPosOut], (size_t)(cnotesOutSize - icnotesPosOut),
@@ -588,7 +588,7 @@ void ztsIrregMergeBlocks(long long *ifltab, int storageFlag,
 						}
 						if (cnotesOutSize > 0) {
 							if (cnotesReadLen == 0) {
-								cnotesOut[icnotesPosOut++] = '\0';
+								if (icnotesPosOut < cnotesOutSize) cnotesOut[icnotesPosOut++] = '\0';
 							}
 							else {
 								ispos = copyLines(&cnotesOut[icnotesPosOut], (size_t)(cnotesOutSize - icnotesPosOut),
-- 
2.43.0


From 1e37c6c40882fe25b71fef72a54995fb35782d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:58 +0000
Subject: [PATCH 90/93] fix: a directory entry cut short by a power loss blocks
 its whole directory chain

---
 heclib/heclib_c/src/Internal/zbinUpdate.c    | 21 ++++++++++++++++++++
 heclib/heclib_c/src/headers/hecdssInternal.h |  1 +
 2 files changed, 22 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zbinUpdate.c b/heclib/heclib_c/src/Internal/zbinUpdate.c
index 9748961..48e94e0 100644
--- a/heclib/heclib_c/src/Internal/zbinUpdate.c
+++ b/heclib/heclib_c/src/Internal/zbinUpdate.c
@@ -96,6 +96,23 @@ int zbinEntryValid(const long long *pathnameBin, int position, int binSize)
 	return ((position + zdssBinKeys.kbinSize + pathnameSize) < (binSize - 1));
 }
 
+//  Is this entry of a pathname bin without the length of its pathname, and nothing after it?
+//  (The end of the entry did not get to the disk.)  Returns 1 if so, 0 if not
+int zbinEntryUnfinished(const long long *pathnameBin, int position, int binSize)
+{
+	int i;
+
+	if (pathnameBin[position + zdssBinKeys.kbinHash] == 0) {
+		return 0;
+	}
+	for (i=position+zdssBinKeys.kbinPathLen; i<(binSize-1); i++) {
+		if (pathnameBin[i] != 0) {
+			return 0;
+		}
+	}
+	return 1;
+}
+
 //  Call with each address in a chain of bins.  Returns 1 when the chain (of a file that has been damaged)
 //  comes back to itself.  state is 3 long words, all zero for the first call.
 int zbinChainLoops(long long binAddress, long long *state)
@@ -233,6 +250,10 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 					}
 				}
 			}
+			if (zbinEntryUnfinished(pathnameBin, icount, isize)) {
+				//  Only the start of an entry got to the disk before power was lost; use its place
+				pathnameBin[icount+zdssBinKeys.kbinHash] = 0;
+			}
 			if ((pathnameBin[icount+zdssBinKeys.kbinHash] == 0) ||
 				(pathnameBin[icount+zdssBinKeys.kbinHash] == ifltab[zdssKeys.kpathnameHash])) {
 				//  Do we need to double check paths because of a collision?  (very rare)
diff --git a/heclib/heclib_c/src/headers/hecdssInternal.h b/heclib/heclib_c/src/headers/hecdssInternal.h
index 80f1cfd..7084d4b 100644
--- a/heclib/heclib_c/src/headers/hecdssInternal.h
+++ b/heclib/heclib_c/src/headers/hecdssInternal.h
@@ -121,6 +121,7 @@ int zcompareRecordStatus(int statusRead, int statusWanted);
 int zcheckMultiUser(long long *ifltab);
 int zbinNew(long long *ifltab);
 int zbinEntryValid(const long long *pathnameBin, int position, int binSize);
+int zbinEntryUnfinished(const long long *pathnameBin, int position, int binSize);
 int zbinChainLoops(long long binAddress, long long *state);
 int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress, int recordStatus,
 			   int dataType);
-- 
2.43.0


From eb7a510a1fcae61c0e33981880a0bf70ae499666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:29 +0000
Subject: [PATCH 91/93] fix: retrieve the notes of a series whose blocks do not
 all have notes: values of a block without notes have an empty note, so later
 notes stay with their values

---
 heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c | 8 +++++++-
 heclib/heclib_c/src/Internal/ztsRetrieveReg7.c   | 5 +++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
index aec2046..ca0c0d9 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveIrreg7.c
@@ -491,7 +491,8 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 			tss->inoteElementSize = inoteElementSize;
 		}
 		else if (timeSeriesRecordSizes.tsCnotesLength) {
-			tss->cnotesSize = timeSeriesRecordSizes.tsCnotesLength;
+			//  Values in blocks that do not have notes need an (empty) note also
+			tss->cnotesSize = timeSeriesRecordSizes.tsCnotesLength + maxValues;
 			tss->cnotes = (char *)calloc((size_t)tss->cnotesSize, CHAR_SIZE);
 			if (!tss->cnotes) {
 				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveIrreg_ID,
@@ -672,6 +673,11 @@ int ztsRetrieveIrreg7(long long *ifltab, zStructTimeSeries *tss,
 		//  Update the position in the data array for the next write
 		currentPosition += numberRead;
 		julianBlockDate = julianNextBlockDate;
+		if ((lengthCNotes == 0) && tss->cnotes) {
+			//  No notes in this block; each value has an empty note
+			lengthCNotes = numberRead;
+			if (lengthCNotes > sizeCNotesRemaning) lengthCNotes = sizeCNotesRemaning;
+		}
 		totalNumberCnotesRead += lengthCNotes;
 
 		if (zmessageLevel(ifltab, MESS_METHOD_TS_READ_ID, MESS_LEVEL_USER_DIAG)) {
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
index d50dde4..f85dfae 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
@@ -655,6 +655,11 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 				foundOne = 1;
 			} 
 		}
+		if ((lengthCNotes == 0) && tss->cnotes) {
+			//  No notes in this block; each value has an empty note
+			lengthCNotes = numberToReadInBlock;
+			if (lengthCNotes > sizeCNotesRemaning) lengthCNotes = sizeCNotesRemaning;
+		}
 		totalNumberCnotesRead += lengthCNotes;
 
 
-- 
2.43.0


From 10590340a5ffb4c3cca92588967ee64c9d335bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:29 +0000
Subject: [PATCH 92/93] fix: ztsRegStoreBlock stores the full block when it
 keeps the character notes of the record, so that they stay with their values

---
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 89631c9..b5ebcae 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -824,8 +824,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 		ifltab[zdssKeys.kdataFirstDate] = i4toi8(julianFirstValue, secondsFirstValue);
 		ifltab[zdssKeys.kdataLastDate] = i4toi8(julianLastValue, secondsLastValue);
 
-		if ((qualityElementSize > 0) || (inoteElementSize > 0) || (cnotesSize > 0)) {
-			//  If quality or notes, store the full block
+		if ((qualityElementSize > 0) || (inoteElementSize > 0) || (cnotesToStoreLen > 0)) {
+			//  If quality or notes (ours, or those already in the record), store the full block
 			numberToStore = numberInBlock;
 			blockStartPosition = 0;
 			firstValid = 0;
-- 
2.43.0


From 10508e8747f87e850a2938d2bab8190fba5b4863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:29 +0000
Subject: [PATCH 93/93] fix: storing a time series without quality or integer
 notes keeps those of the values that are not replaced

---
 .../src/Internal/ztsIrregStoreBlock.c         | 38 +++++++++++++++++++
 .../heclib_c/src/Internal/ztsRegStoreBlock.c  | 33 ++++++++++++++++
 2 files changed, 71 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
index 1ece109..b031840 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregStoreBlock.c
@@ -259,6 +259,8 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 	int *valuesRead;
 	int *qualityRead;
 	int *notesRead;
+	int *noQuality;
+	int *noNotes;
 	char *cnotesRead;
 	int cnotesReadLen;
 	char *cnotesToStore;
@@ -319,6 +321,8 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 	numberRead = 0;
 	qualityRead = 0;
 	notesRead = 0;
+	noQuality = 0;
+	noNotes = 0;
 	cnotesRead = 0;
 	cnotesReadLen = 0;
 	cnotesStore = 0;
@@ -399,6 +403,30 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 				//  Also, don't read or expand block if we are replacing the same (lengths)
 				//  Need to compare missing values that are in data set and block, and quality and note lengths
 
+				//  If the record has quality or notes and none are being stored, the values
+				//  that are not replaced keep theirs, and the new values have none
+				if ((qualityElementSize == 0) && (internalHeaderRead[INT_HEAD_qualityElementSize] > 0)) {
+					noQuality = (int *)calloc((size_t)numberToStore * (size_t)internalHeaderRead[INT_HEAD_qualityElementSize] + 1, WORD_SIZE);
+					if (!noQuality) {
+						return zerrorProcessing(ifltab, DSS_FUNCTION_ztsIrregStoreBlock_ID,
+												zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberToStore, 0,
+												zdssErrorSeverity.MEMORY_ERROR, pathname, "Allocating quality array");
+					}
+					qualityToStore = noQuality;
+					qualityElementSize = internalHeaderRead[INT_HEAD_qualityElementSize];
+				}
+				if ((inoteElementSize == 0) && (lengthCNotes == 0) && (internalHeaderRead[INT_HEAD_inotesElementSize] > 0)) {
+					noNotes = (int *)calloc((size_t)numberToStore * (size_t)internalHeaderRead[INT_HEAD_inotesElementSize] + 1, WORD_SIZE);
+					if (!noNotes) {
+						if (noQuality) free(noQuality);
+						return zerrorProcessing(ifltab, DSS_FUNCTION_ztsIrregStoreBlock_ID,
+												zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberToStore, 0,
+												zdssErrorSeverity.MEMORY_ERROR, pathname, "Allocating notes array");
+					}
+					notesToStore = noNotes;
+					inoteElementSize = internalHeaderRead[INT_HEAD_inotesElementSize];
+				}
+
 				//  Read in the existing block and merge the data
 				//  First, get space for arrays
 				timesRead = (int *)calloc((size_t)logicalNumberValues, WORD_SIZE);
@@ -496,6 +524,8 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 					if (notesRead) free(notesRead);
 					if (cnotesRead) free(cnotesRead);
 					if (cnotesStore) free(cnotesStore);
+					if (noQuality) free(noQuality);
+					if (noNotes) free(noNotes);
 					return status;
 				}
 
@@ -772,6 +802,14 @@ int ztsIrregStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *pa
 		free(notesOut);
 		notesOut = 0;
 	}
+	if (noQuality) {
+		free(noQuality);
+		noQuality = 0;
+	}
+	if (noNotes) {
+		free(noNotes);
+		noNotes = 0;
+	}
 	if (cnotesRead) {
 		free(cnotesRead);
 		cnotesRead = 0;
diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index b5ebcae..705b893 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -241,6 +241,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 	int valueReadSize;
 	int *qualityRead;
 	int qualityReadSize;
+	int *noQuality;
+	int *noNotes;
 	int *notesRead;
 	int notesReadSize;
 	char *cnotesRead;
@@ -298,6 +300,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 	//  Set new space memory pointers to 0
 	valuesRead = 0;
 	qualityRead = 0;
+	noQuality = 0;
+	noNotes = 0;
 	notesRead = 0;
 	cnotesRead = 0;
 	cnotesReadSize = 0;
@@ -382,6 +386,29 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 				//  Very rare (not storing data, but quality or notes)
 				boolReadBlock = 0;
 			}
+			//  If the record has quality or notes and none are being stored, the values
+			//  that are not replaced keep theirs, and the new values have none
+			if (boolReadBlock && (qualityElementSize == 0) && (internalHeaderRead[INT_HEAD_qualityElementSize] > 0)) {
+				noQuality = (int *)calloc((size_t)numberToStore * (size_t)internalHeaderRead[INT_HEAD_qualityElementSize], WORD_SIZE);
+				if (!noQuality) {
+					return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID,
+											zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberToStore, 0,
+											zdssErrorSeverity.MEMORY_ERROR, pathname, "quality array");
+				}
+				quality = noQuality;
+				qualityElementSize = internalHeaderRead[INT_HEAD_qualityElementSize];
+			}
+			if (boolReadBlock && (inoteElementSize == 0) && (cnotesSize == 0) && (internalHeaderRead[INT_HEAD_inotesElementSize] > 0)) {
+				noNotes = (int *)calloc((size_t)numberToStore * (size_t)internalHeaderRead[INT_HEAD_inotesElementSize], WORD_SIZE);
+				if (!noNotes) {
+					if (noQuality) free(noQuality);
+					return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRegStoreBlock_ID,
+											zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberToStore, 0,
+											zdssErrorSeverity.MEMORY_ERROR, pathname, "notes array");
+				}
+				notes = noNotes;
+				inoteElementSize = internalHeaderRead[INT_HEAD_inotesElementSize];
+			}
 		}
 	}
 	
@@ -525,6 +552,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 			if (qualityRead) free(qualityRead);
 			if (notesRead)   free(notesRead);
 			if (cnotesRead)  free(cnotesRead);
+			if (noQuality)   free(noQuality);
+			if (noNotes)     free(noNotes);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRegStoreBlock_ID);
 		}
 		//  Now that we've read the data, merge the two sets together
@@ -559,6 +588,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 				}
 				if (!boolReplace) {
 					//  No replacement.
+					if (noQuality)   free(noQuality);
+					if (noNotes)     free(noNotes);
 					if (valuesRead)  free(valuesRead);
 					if (qualityRead) free(qualityRead);
 					if (notesRead)   free(notesRead);
@@ -919,6 +950,8 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 	if (notesRead)   free(notesRead);
 	if (cnotesRead)  free(cnotesRead);
 	if (cnotesBuff)  free(cnotesBuff);
+	if (noQuality)   free(noQuality);
+	if (noNotes)     free(noNotes);
 	if (headerRead3) free(headerRead3);  
 	if (userHeaderRead) free(userHeaderRead);
 
-- 
2.43.0

