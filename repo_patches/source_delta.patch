From 5fbc274343b29898fe70fafdca37bd41638a1b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 01/32] fix: reject negative module numbers in
 EAS_GetParameter/EAS_SetParameter

Only the upper bound was checked, so a negative module number indexed
before the effectsModules table.
---
 arm-wt-22k/lib_src/eas_public.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index a0b183c..cebfd44 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2264,7 +2264,7 @@ EAS_PUBLIC EAS_RESULT EAS_Resume (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
 EAS_PUBLIC EAS_RESULT EAS_GetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module, EAS_I32 param, EAS_I32 *pValue)
 {
 
-    if (module >= NUM_EFFECTS_MODULES)
+    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))
         return EAS_ERROR_INVALID_MODULE;
 
     if (pEASData->effectsModules[module].effectData == NULL)
@@ -2299,7 +2299,7 @@ EAS_PUBLIC EAS_RESULT EAS_GetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module
 EAS_PUBLIC EAS_RESULT EAS_SetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module, EAS_I32 param, EAS_I32 value)
 {
 
-    if (module >= NUM_EFFECTS_MODULES)
+    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))
         return EAS_ERROR_INVALID_MODULE;
 
     if (pEASData->effectsModules[module].effectData == NULL)
-- 
2.43.0


From 22be597c69ce0ff58e0cd8085086e2780e512169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 02/32] fix: use the MIDI channel number to index the channel
 table on sustain pedal

VMCatchNotesForSustainPedal indexed pSynth->channels with the combined
virtual synth/channel number, which is past the end of the table for every
virtual synthesizer but the first.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 847ce6c..6eeb292 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1201,6 +1201,7 @@ void VMReleaseAllDeferredNoteOffs (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_
 void VMCatchNotesForSustainPedal (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel)
 {
     EAS_INT voiceNum;
+    EAS_U8 vSynthChannel;
 
 #ifdef _DEBUG_VM
     if (channel >= NUM_SYNTH_CHANNELS)
@@ -1212,12 +1213,12 @@ void VMCatchNotesForSustainPedal (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U
 #endif
 
     pVoiceMgr->workload += WORKLOAD_AMOUNT_SMALL_INCREMENT;
-    channel = VSynthToChannel(pSynth, channel);
+    vSynthChannel = VSynthToChannel(pSynth, channel);
 
     /* find all the voices assigned to this channel */
     for (voiceNum = 0; voiceNum < MAX_SYNTH_VOICES; voiceNum++)
     {
-        if (channel == pVoiceMgr->voices[voiceNum].channel)
+        if (vSynthChannel == pVoiceMgr->voices[voiceNum].channel)
         {
             if (eVoiceStateRelease == pVoiceMgr->voices[voiceNum].voiceState)
                 GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], &pSynth->channels[channel], GetAdjustedVoiceNum(voiceNum));
-- 
2.43.0


From 6faac7c1b35b7ebf1e1191cf1e4113c8de82a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 03/32] fix: reject a tone-control resolution of zero

TC_GetResolution accepted 0, which made TC_CalcTimeBase divide by zero.
---
 arm-wt-22k/lib_src/eas_tonecontrol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_tonecontrol.c b/arm-wt-22k/lib_src/eas_tonecontrol.c
index cceb7f9..ae50e16 100644
--- a/arm-wt-22k/lib_src/eas_tonecontrol.c
+++ b/arm-wt-22k/lib_src/eas_tonecontrol.c
@@ -894,7 +894,7 @@ static EAS_RESULT TC_GetResolution (S_EAS_DATA *pEASData, S_TC_DATA* pData)
     /* get resolution */
     if (TC_GetNextChar(pEASData->hwInstData, pData, &resolution) != EAS_SUCCESS)
         return EAS_ERROR_FILE_FORMAT;
-    if (resolution < 0)
+    if (resolution <= 0)
         return EAS_ERROR_FILE_FORMAT;
 
     /* save tempo */
-- 
2.43.0


From 0873e5b628359e9b7ae4e890ee087ee3e4f7dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 04/32] fix: reject stream priorities outside the documented
 range 1-255

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 6eeb292..7413ab2 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -3479,6 +3479,8 @@ EAS_RESULT VMGetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 *pPo
 /*lint -esym(715, pVoiceMgr) reserved for future use */
 EAS_RESULT VMSetPriority (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 priority)
 {
+    if ((priority < 1) || (priority > 255))
+        return EAS_ERROR_PARAMETER_RANGE;
     pSynth->priority = (EAS_U8) priority ;
     return EAS_SUCCESS;
 }
-- 
2.43.0


From a9f535f3a6aa36a481c7af0cbb75d114bd235ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 05/32] fix: report a failed read of the tone-control version
 byte

---
 arm-wt-22k/lib_src/eas_tonecontrol.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_tonecontrol.c b/arm-wt-22k/lib_src/eas_tonecontrol.c
index ae50e16..94e0e7d 100644
--- a/arm-wt-22k/lib_src/eas_tonecontrol.c
+++ b/arm-wt-22k/lib_src/eas_tonecontrol.c
@@ -668,7 +668,8 @@ static EAS_RESULT TC_ParseHeader (S_EAS_DATA *pEASData, S_TC_DATA* pData)
     /* check for version number */
     if (temp == TC_FIELD_VERSION)
     {
-        TC_GetNextChar(pEASData->hwInstData, pData, &temp);
+        if ((result = TC_GetNextChar(pEASData->hwInstData, pData, &temp)) != EAS_SUCCESS)
+            return result;
 //      { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "ToneControl sequence version %d\n", temp); */ }
     }
     else
-- 
2.43.0


From 9df05465aa7a5bcb1d2ba7537c0a50b0c340230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 06/32] fix: check the SMF instance allocation before clearing
 it

---
 arm-wt-22k/lib_src/eas_smf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 4f8db9d..c958c4e 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -141,6 +141,8 @@ EAS_RESULT SMF_CheckFileType (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHandle,
     else
     {
         pSMFData = EAS_HWMalloc(pEASData->hwInstData, sizeof(S_SMF_DATA));
+        if (!pSMFData)
+            return EAS_ERROR_MALLOC_FAILED;
         EAS_HWMemSet((void *)pSMFData,0, sizeof(S_SMF_DATA));
     }
     if (!pSMFData)
-- 
2.43.0


From aef207611a7ce40fa88c1dcd4c025607e3294c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 07/32] fix: close the duplicate file handle when a DLS wave
 fails to parse

---
 arm-wt-22k/lib_src/eas_mdls.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 1595b60..eae45c9 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -877,22 +877,22 @@ static EAS_RESULT Parse_ptbl (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
         /* get the offset to the wave and make sure it is within the wtbl chunk */
         if ((result = EAS_HWGetDWord(pDLSData->hwInstData, tempFile, &temp, EAS_FALSE)) != EAS_SUCCESS)
-            return result;
+            break;
         if (temp > (EAS_U32) wtblSize)
         {
             { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Ptbl offset exceeds size of wtbl\n"); */ }
-            EAS_HWCloseFile(pDLSData->hwInstData, tempFile);
-            return EAS_ERROR_FILE_FORMAT;
+            result = EAS_ERROR_FILE_FORMAT;
+            break;
         }
 
         /* parse the wave */
         if ((result = Parse_wave(pDLSData, wtblPos +(EAS_I32)  temp, waveIndex)) != EAS_SUCCESS)
-            return result;
+            break;
     }
 
     /* close the temporary handle and return */
     EAS_HWCloseFile(pDLSData->hwInstData, tempFile);
-    return EAS_SUCCESS;
+    return result;
 }
 
 /*----------------------------------------------------------------------------
-- 
2.43.0


From ed14b7aca0eabe788b2cfdf4e7edf838b69de9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 08/32] fix: release the library instance when EAS_Init fails

---
 arm-wt-22k/lib_src/eas_public.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index cebfd44..cd0d431 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -384,6 +384,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
     if (!pEASData)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "Failed to allocate EAS library memory\n"); */ }
+        EAS_HWShutdown(pHWInstData);
         return EAS_ERROR_MALLOC_FAILED;
     }
 
@@ -416,12 +417,16 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
 
     /* initailize the voice manager & synthesizer */
     if ((result = VMInitialize(pEASData)) != EAS_SUCCESS)
+    {
+        EAS_Shutdown(pEASData);
         return result;
+    }
 
     /* initialize mix engine */
     if ((result = EAS_MixEngineInit(pEASData)) != EAS_SUCCESS)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "Error %ld starting up mix engine\n", result); */ }
+        EAS_Shutdown(pEASData);
         return result;
     }
 
@@ -434,6 +439,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
             if ((result = (*pEASData->effectsModules[module].effect->pfInit)(pEASData, &pEASData->effectsModules[module].effectData)) != EAS_SUCCESS)
             {
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "Initialization of effects module %d returned %d\n", module, result); */ }
+                EAS_Shutdown(pEASData);
                 return result;
             }
         }
@@ -443,6 +449,7 @@ EAS_PUBLIC EAS_RESULT EAS_Init (EAS_DATA_HANDLE *ppEASData)
     if ((result = EAS_PEInit(pEASData)) != EAS_SUCCESS)
     {
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_FATAL, "EAS_PEInit failed with error code %ld\n", result); */ }
+        EAS_Shutdown(pEASData);
         return result;
     }
 
-- 
2.43.0


From e6de6e7ff5cedb2130d0a38961a88dc3d57cd115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 09/32] fix: settle voices stolen across synths before a forced
 reset

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 7413ab2..e97b0ec 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -118,6 +118,10 @@ const S_FRAME_INTERFACE *const pFrameInterface = &fmFrameInterface;
 #error "Undefined architecture option"
 #endif
 
+/* local prototypes */
+static void VMFreeVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, S_SYNTH_VOICE *pVoice);
+static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum);
+
 /*----------------------------------------------------------------------------
  * inline functions
  *----------------------------------------------------------------------------
@@ -447,6 +451,27 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
     /* force voices to off state - may cause audio artifacts */
     if (force)
     {
+        EAS_INT voiceNum;
+
+        /* settle voices in transition between this synth and another one */
+        for (voiceNum = 0; voiceNum < MAX_SYNTH_VOICES; voiceNum++)
+        {
+            S_SYNTH_VOICE *pVoice = &pVoiceMgr->voices[voiceNum];
+            EAS_INT fromSynth = GET_VSYNTH(pVoice->channel);
+            EAS_INT toSynth = GET_VSYNTH(pVoice->nextChannel);
+
+            if ((pVoice->voiceState != eVoiceStateStolen) || (fromSynth == toSynth))
+                continue;
+
+            /* stolen by another synth, start the new note now */
+            if (fromSynth == pSynth->vSynthNum)
+                VMRetargetStolenVoice(pVoiceMgr, voiceNum);
+
+            /* stolen from another synth, return the voice to the pool */
+            else if (toSynth == pSynth->vSynthNum)
+                VMFreeVoice(pVoiceMgr, pVoiceMgr->pSynth[fromSynth], pVoice);
+        }
+
         pVoiceMgr->activeVoices -= pSynth->numActiveVoices;
         pSynth->numActiveVoices = 0;
         VMInitializeAllVoices(pVoiceMgr, pSynth->vSynthNum);
-- 
2.43.0


From 1ac614d809e9860fb4996487bec512d1018d1a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 10/32] fix: stream parameter calls on a MIDI stream, which has
 no parser

---
 arm-wt-22k/lib_src/eas_public.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index cd0d431..24e24c1 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -103,6 +103,11 @@ EAS_RESULT EAS_SetStreamParameter (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
     S_FILE_PARSER_INTERFACE *pParserModule;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
+
+    /* MIDI streams have no parser */
+    if (pParserModule == NULL)
+        return EAS_ERROR_FEATURE_NOT_AVAILABLE;
+
     if (pParserModule->pfSetData)
         return (*pParserModule->pfSetData)(pEASData, pStream->handle, param, value);
     return EAS_ERROR_FEATURE_NOT_AVAILABLE;
@@ -125,6 +130,16 @@ EAS_RESULT EAS_GetStreamParameter (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
     S_FILE_PARSER_INTERFACE *pParserModule;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
+
+    /* MIDI streams have no parser, but they do have a synth */
+    if (pParserModule == NULL)
+    {
+        if ((param != PARSER_DATA_SYNTH_HANDLE) || (pStream->handle == NULL))
+            return EAS_ERROR_FEATURE_NOT_AVAILABLE;
+        *pValue = (EAS_I32) ((S_INTERACTIVE_MIDI*) pStream->handle)->pSynth;
+        return EAS_SUCCESS;
+    }
+
     if (pParserModule->pfGetData)
         return (*pParserModule->pfGetData)(pEASData, pStream->handle, param, pValue);
     return EAS_ERROR_FEATURE_NOT_AVAILABLE;
@@ -146,6 +161,11 @@ EAS_BOOL EAS_StreamReady (S_EAS_DATA *pEASData, EAS_HANDLE pStream)
     EAS_STATE state;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
+
+    /* MIDI streams are ready as soon as they are open */
+    if (pParserModule == NULL)
+        return EAS_TRUE;
+
     if (pParserModule->pfState(pEASData, pStream->handle, &state) != EAS_SUCCESS)
         return EAS_FALSE;
     return (state < EAS_STATE_OPEN);
-- 
2.43.0


From 87f7455a0b9053f44d0dff097909f559241cacc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 11/32] fix: check the synthesizer handle before sharing it
 with a MIDI stream

---
 arm-wt-22k/lib_src/eas_public.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 24e24c1..4bca2e0 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1593,8 +1593,13 @@ EAS_PUBLIC EAS_RESULT EAS_OpenMIDIStream (EAS_DATA_HANDLE pEASData, EAS_HANDLE *
     {
         EAS_I32 value;
         result = EAS_GetStreamParameter(pEASData, streamHandle, PARSER_DATA_SYNTH_HANDLE, &value);
-        pMIDIStream->pSynth = (S_SYNTH*) value;
-        VMIncRefCount(pMIDIStream->pSynth);
+        if ((result == EAS_SUCCESS) && (value == 0))
+            result = EAS_ERROR_NOT_VALID_IN_THIS_STATE;
+        if (result == EAS_SUCCESS)
+        {
+            pMIDIStream->pSynth = (S_SYNTH*) value;
+            VMIncRefCount(pMIDIStream->pSynth);
+        }
     }
     if (result != EAS_SUCCESS)
     {
-- 
2.43.0


From 57284c66ed981c47ab3c940bafbc362c1796ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 12/32] fix: release DLS collections replaced on a stream and
 the loader's own reference

---
 arm-wt-22k/lib_src/eas_public.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 4bca2e0..cbce8a8 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -203,10 +203,18 @@ EAS_RESULT EAS_IntSetStrmParam (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS_IN
 #ifdef DLS_SYNTHESIZER
         case PARSER_DATA_DLS_COLLECTION:
             {
-                EAS_RESULT result = VMSetDLSLib(pSynth, (EAS_DLSLIB_HANDLE) value);
+                S_DLS *pOldDLS = pSynth->pDLS;
+                EAS_RESULT result;
+
+                /* voices may still be using the previous collection */
+                if (pOldDLS != NULL)
+                    VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE);
+
+                result = VMSetDLSLib(pSynth, (EAS_DLSLIB_HANDLE) value);
                 if (result == EAS_SUCCESS)
                 {
                     DLSAddRef((S_DLS*) value);
+                    DLSCleanup(pEASData->hwInstData, pOldDLS);
                     VMInitializeAllChannels(pEASData->pVoiceMgr, pSynth);
                 }
                 return result;
@@ -2505,8 +2513,13 @@ EAS_PUBLIC EAS_RESULT EAS_LoadDLSCollection (EAS_DATA_HANDLE pEASData, EAS_HANDL
 
         /* if a stream pStream is specified, point it to the DLS collection */
         if (pStream)
+        {
             result = EAS_IntSetStrmParam(pEASData, pStream, PARSER_DATA_DLS_COLLECTION, (EAS_I32) pDLS);
 
+            /* the synth has its own reference now */
+            DLSCleanup(pEASData->hwInstData, pDLS);
+        }
+
         /* global DLS load */
         else
             result = VMSetGlobalDLSLib(pEASData, pDLS);
-- 
2.43.0


From 7899b04bb4cdd0b96aa7bdbb13d0135a7d8c0474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 13/32] fix: close MIDI streams left open at EAS_Shutdown

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index cbce8a8..b8c49de 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -525,6 +525,10 @@ EAS_PUBLIC EAS_RESULT EAS_Shutdown (EAS_DATA_HANDLE pEASData)
                 reportResult = result;
             }
         }
+
+        /* MIDI streams have no parser module */
+        else if (pEASData->streams[i].handle)
+            EAS_CloseMIDIStream(pEASData, &pEASData->streams[i]);
     }
 
     /* shutdown PCM engine */
-- 
2.43.0


From a31644d700d0205e3d4cc08d648d609e609bc793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 14/32] fix: a stream whose preparation failed half-way can
 only be closed

---
 arm-wt-22k/lib_src/eas_smf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index c958c4e..a153834 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -196,7 +196,11 @@ EAS_RESULT SMF_Prepare (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     /* parse the file header and setup the individual stream parsers */
     if ((result = SMF_ParseHeader(pEASData->hwInstData, pSMFData)) != EAS_SUCCESS)
+    {
+        /* the stream is only partly set up, it can only be closed now */
+        pSMFData->state = EAS_STATE_ERROR;
         return result;
+    }
 
     /* ready to play */
     pSMFData->state = EAS_STATE_READY;
-- 
2.43.0


From 0a519124910c61bbd98cfba2a524f5cae402ae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 15/32] fix: set up the synthesizer's reference count before it
 can be shut down

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index e97b0ec..4570921 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -370,6 +370,8 @@ EAS_RESULT VMInitMIDI (S_EAS_DATA *pEASData, S_SYNTH **ppSynth)
         return EAS_ERROR_MALLOC_FAILED;
     }
     EAS_HWMemSet(pSynth, 0, sizeof(S_SYNTH));
+    pSynth->refCount = 1;
+    pSynth->vSynthNum = (EAS_U8) virtualSynthNum;
 
     /* set the sound library pointer */
     if ((result = VMSetEASLib(pSynth, pEASData->pVoiceMgr->pGlobalEAS)) != EAS_SUCCESS)
@@ -390,13 +392,11 @@ EAS_RESULT VMInitMIDI (S_EAS_DATA *pEASData, S_SYNTH **ppSynth)
     /* initialize MIDI state variables */
     pSynth->synthFlags = DEFAULT_SYNTH_FLAGS;
     pSynth->masterVolume = DEFAULT_SYNTH_MASTER_VOLUME;
-    pSynth->refCount = 1;
     pSynth->priority = DEFAULT_SYNTH_PRIORITY;
     pSynth->poolAlloc[0] = (EAS_U8) pEASData->pVoiceMgr->maxPolyphony;
 
     VMInitializeAllChannels(pEASData->pVoiceMgr, pSynth);
 
-    pSynth->vSynthNum = (EAS_U8) virtualSynthNum;
     pEASData->pVoiceMgr->pSynth[virtualSynthNum] = pSynth;
 
     *ppSynth = pSynth;
-- 
2.43.0


From 2e90f09b980074e03cbe11b622e36f5cae5bc210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 16/32] fix: end the region list of every DLS instrument, also
 when regions are ignored or missing

---
 arm-wt-22k/lib_src/eas_mdls.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index eae45c9..57b306d 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1657,6 +1657,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
     EAS_I32 chunkPos;
     EAS_I32 endChunk;
     EAS_U16 regionCount;
+    EAS_U32 firstRegion;
 
     /* seek to start of chunk */
     if ((result = EAS_HWFileSeek(pDLSData->hwInstData, pDLSData->fileHandle, pos)) != EAS_SUCCESS)
@@ -1664,6 +1665,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
 
     /* read to end of chunk */
     regionCount = 0;
+    firstRegion = pDLSData->regionCount;
     endChunk = pos + size;
     while (pos < endChunk)
     {
@@ -1678,7 +1680,7 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
             if (regionCount == numRegions)
             {
                 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING, "DLS region count exceeded cRegions value in insh, extra region ignored\n"); */ }
-                return EAS_SUCCESS;
+                break;
             }
             /* if second pass, ensure regionCount is less than numDLSRegions */
             if (pDLSData->pDLS)
@@ -1694,8 +1696,15 @@ static EAS_RESULT Parse_lrgn (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_
         }
     }
 
+    /* must have a region to be useful: the search for a region stops at the last one */
+    if (pDLSData->regionCount == firstRegion)
+    {
+        { /* dpp: EAS_ReportEx(_EAS_SEVERITY_ERROR, "DLS ins chunk has no regions\n"); */ }
+        return EAS_ERROR_UNRECOGNIZED_FORMAT;
+    }
+
     /* set a flag in the last region */
-    if ((pDLSData->pDLS != NULL) && (regionCount > 0))
+    if (pDLSData->pDLS != NULL)
         pDLSData->pDLS->pDLSRegions[pDLSData->regionCount - 1].wtRegion.region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION;
 
     return EAS_SUCCESS;
-- 
2.43.0


From 1122887ac1c2d15bfd79ab21a5123cdeb45be011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 17/32] fix: refuse DLS instrument articulations beyond the
 table allocated for them

---
 arm-wt-22k/lib_src/eas_mdls.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 57b306d..67e556c 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -1557,7 +1557,15 @@ static EAS_RESULT Parse_ins (SDLS_SYNTHESIZER_DATA *pDLSData, EAS_I32 pos, EAS_I
     {
 
         if (art.values[PARAM_MODIFIED])
+        {
+            /* ensure artIndex is less than numDLSArticulations */
+            if (artIndex >= pDLSData->pDLS->numDLSArticulations)
+            {
+                return EAS_ERROR_DATA_INCONSISTENCY;
+            }
+
             Convert_art(pDLSData, &art, artIndex);
+        }
 
         /* setup pointers */
         pProgram = &pDLSData->pDLS->pDLSPrograms[pDLSData->instCount];
-- 
2.43.0


From 33e373fdf18d97b80fcf167b73de805da39a2f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:26 +0000
Subject: [PATCH 18/32] fix: selecting an RPN by its LSB must keep all seven
 bits of the MSB

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 4570921..939ebc9 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2472,7 +2472,7 @@ EAS_RESULT VMUpdateRPNStateMachine (S_SYNTH *pSynth, EAS_U8 channel, EAS_U8 cont
         break;
     case MIDI_CONTROLLER_SELECT_RPN_LSB:
         pChannel->registeredParam =
-            (pChannel->registeredParam & 0x7F00) | value;
+            (pChannel->registeredParam & 0x3F80) | value;
         break;
     case MIDI_CONTROLLER_ENTER_DATA_MSB:
         switch (pChannel->registeredParam)
-- 
2.43.0


From fff4caf749eb54637b717aaf220e3e16975cd073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 19/32] fix: reset all controllers must release the notes the
 sustain pedal held

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 939ebc9..f23fbc7 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2360,7 +2360,9 @@ void VMControlChange (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, E
         pChannel->modWheel = DEFAULT_MOD_WHEEL;
         pChannel->expression = DEFAULT_EXPRESSION;
 
-        /* turn the sustain pedal off as default/reset */
+        /* turn the sustain pedal off as default/reset, notes it held are released */
+        if (pChannel->channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL)
+            VMReleaseAllDeferredNoteOffs(pVoiceMgr, pSynth, channel);
         pChannel->channelFlags &= ~CHANNEL_FLAG_SUSTAIN_PEDAL;
         pChannel->pitchBend = DEFAULT_PITCH_BEND;
 
-- 
2.43.0


From a5085b60fe9fc9485eef2a9a0a815b2547770693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:09 +0000
Subject: [PATCH 20/32] fix: the default tempo wraps for divisions below 8
 ticks per quarter note

---
 arm-wt-22k/lib_src/eas_smf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index a153834..4a4cb8c 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -1136,7 +1136,8 @@ EAS_RESULT SMF_ParseHeader (EAS_HW_DATA_HANDLE hwInstData, S_SMF_DATA *pSMFData)
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING,"No support for SMPTE code timebase\n"); */ }
     else
         pSMFData->ppqn = (division & 0x7fff);
-    pSMFData->tickConv = (EAS_U16) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
+    temp = ((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000;
+    pSMFData->tickConv = (EAS_U16) (temp > 65535 ? 65535 : temp);
 
     /* dynamic memory allocation, allocate memory for streams */
     if (pSMFData->streams == NULL)
-- 
2.43.0


From 78a549c4aa081084dcf520eb9d0cdee6f6b2fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:10 +0000
Subject: [PATCH 21/32] fix: tracks whose next event is after tick 0x7fffffe
 are passed over

---
 arm-wt-22k/lib_src/eas_smf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 4a4cb8c..2a8a928 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -341,7 +341,7 @@ EAS_RESULT SMF_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_INT pars
     }
 
     /* find next event in all streams */
-    temp = 0x7ffffff;
+    temp = SMF_END_OF_TRACK;
     pSMFData->nextStream = NULL;
     for (i = 0; i < pSMFData->numStreams; i++)
     {
@@ -501,7 +501,7 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
     VMReset(pEASData->pVoiceMgr, pSMFData->pSynth, EAS_TRUE);
 
     /* find the start of each track */
-    ticks = 0x7fffffffL;
+    ticks = SMF_END_OF_TRACK;
     pSMFData->nextStream = NULL;
     for (i = 0; i < pSMFData->numStreams; i++)
     {
@@ -1153,7 +1153,7 @@ EAS_RESULT SMF_ParseHeader (EAS_HW_DATA_HANDLE hwInstData, S_SMF_DATA *pSMFData)
 
     /* find the start of each track */
     chunkStart = (EAS_U32) pSMFData->fileOffset;
-    ticks = 0x7fffffffL;
+    ticks = SMF_END_OF_TRACK;
     pSMFData->nextStream = NULL;
     for (i = 0; i < pSMFData->numStreams; i++)
     {
-- 
2.43.0


From 61fd84f33e44197bc5347cad3e9e0dffe03186d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:32 +0000
Subject: [PATCH 22/32] fix: the delay before the first event is lost when a
 stream is rewound

---
 arm-wt-22k/lib_src/eas_smf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 2a8a928..56de040 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -526,6 +526,9 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
         }
     }
 
+    /* update the time of the next event */
+    if (pSMFData->nextStream)
+        SMF_UpdateTime(pSMFData, pSMFData->nextStream->ticks);
 
     pSMFData->state = EAS_STATE_READY;
     return EAS_SUCCESS;
-- 
2.43.0


From 805c75e9e94153431c13948eb82396ca8bbef185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 23/32] fix: a rewound stream keeps the tempo and setup bar of
 its last pass

---
 arm-wt-22k/lib_src/eas_smf.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 56de040..2147ffd 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -496,6 +496,14 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     /* reset time to zero */
     pSMFData->time = 0;
+    pSMFData->flags &= ~(SMF_FLAGS_CHASE_MODE | SMF_FLAGS_SETUP_BAR);
+
+    /* back to the default tempo */
+    if (pSMFData->ppqn != 0)
+    {
+        ticks = ((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000;
+        pSMFData->tickConv = (EAS_U16) (ticks > 65535 ? 65535 : ticks);
+    }
 
     /* reset the synth */
     VMReset(pEASData->pVoiceMgr, pSMFData->pSynth, EAS_TRUE);
-- 
2.43.0


From 4c6735ddaa458fa2902ca41ef0151344e36ffad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:56 +0000
Subject: [PATCH 24/32] fix: a rewound stream waits through the setup bar it
 skipped at first

The decoder's flags were kept on a rewind, so the first note of the last
pass ended the chase mode of the next one before it began.
---
 arm-wt-22k/lib_src/eas_midi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arm-wt-22k/lib_src/eas_midi.c b/arm-wt-22k/lib_src/eas_midi.c
index 8cb043a..4116981 100644
--- a/arm-wt-22k/lib_src/eas_midi.c
+++ b/arm-wt-22k/lib_src/eas_midi.c
@@ -93,6 +93,7 @@ void EAS_InitMIDIStream (S_MIDI_STREAM *pMIDIStream)
     pMIDIStream->pending = EAS_FALSE;
     pMIDIStream->runningStatus = 0;
     pMIDIStream->status = 0;
+    pMIDIStream->flags = 0;
 }
 
 /*----------------------------------------------------------------------------
-- 
2.43.0


From 851207e0912dfd0da542157a1001e2fa38e274fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:48 +0000
Subject: [PATCH 25/32] fix: a stolen voice is muted by its next channel, not
 its old one

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index f23fbc7..0422eef 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1398,8 +1398,8 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
     /* establish some pointers */
     pVoice = &pVoiceMgr->voices[voiceNum];
     pSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->channel)];
-    pMIDIChannel = &pSynth->channels[pVoice->channel & 15];
     pNextSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->nextChannel)];
+    pMIDIChannel = &pNextSynth->channels[pVoice->nextChannel & 15];
 
 #ifdef _DEBUG_VM
 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMRetargetStolenVoice: retargeting stolen voice %d on channel %d\n",
@@ -1410,7 +1410,7 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
 #endif
 
     /* make sure new channel hasn't been muted by SP-MIDI since the voice was stolen */
-    if ((pSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&
+    if ((pNextSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&
         (pMIDIChannel->channelFlags & CHANNEL_FLAG_MUTE))
     {
         VMFreeVoice(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum]);
-- 
2.43.0


From 6ad1a6c87493d1bf04b6dd48ee7ff1b1ed584210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:07 +0000
Subject: [PATCH 26/32] fix: delayed note-offs of one stream obeyed the sustain
 pedal of another

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 0422eef..203a910 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1068,6 +1068,14 @@ void VMDeferredStopNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
     {
         if (pVoiceMgr->voices[voiceNum].voiceFlags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF)
         {
+            /* a voice of another synth is for that synth and its sustain pedal to stop */
+            if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateStolen)
+                channel = pVoiceMgr->voices[voiceNum].nextChannel;
+            else
+                channel = pVoiceMgr->voices[voiceNum].channel;
+            if (GET_VSYNTH(channel) != pSynth->vSynthNum)
+                continue;
+
             /* check if this voice was stolen */
             if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateStolen)
             {
-- 
2.43.0


From 2c9a4c1cc332e9aeee95120941184879545944b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:59 +0000
Subject: [PATCH 27/32] fix: count voices muted by all-sound-off out of their
 pool

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 203a910..7b44474 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1030,6 +1030,7 @@ void VMAllNotesOff (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel)
                 ((pVoice->voiceState == eVoiceStateStolen) && (channel == pVoice->nextChannel)))
             {
                 /* this voice is assigned to the requested channel */
+                DecVoicePoolCount(pVoiceMgr, pVoice);
                 GetSynthPtr(voiceNum)->pfMuteVoice(pVoiceMgr, pSynth, pVoice, GetAdjustedVoiceNum(voiceNum));
                 pVoice->voiceState = eVoiceStateMuting;
             }
-- 
2.43.0


From 79f218f02b63ca7815891c143fa3098fa192b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:02 +0000
Subject: [PATCH 28/32] fix: muting voices are not counted after a change of
 the muted channels

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 7b44474..ac6233c 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -805,8 +805,8 @@ void VMMIPUpdateChannelMuting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
             }
         }
 
-        /* not muted, count this voice */
-        else
+        /* not muted, count this voice unless it is already muting */
+        else if (pVoiceMgr->voices[i].voiceState != eVoiceStateMuting)
             pSynth->poolCount[pool]++;
     }
 }
-- 
2.43.0


From e8eab19c68ea671932486964221f52326a4a1a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:26 +0000
Subject: [PATCH 29/32] fix: lowering a stream's polyphony silences its own
 sounding voices

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index ac6233c..dab3fa7 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -3398,7 +3398,8 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
     for (i = 0; i < MAX_SYNTH_VOICES; i++)
     {
         /* this synth? */
-        if (GET_VSYNTH(pVoiceMgr->voices[i].nextChannel) != pSynth->vSynthNum)
+        if (GET_VSYNTH((pVoiceMgr->voices[i].voiceState == eVoiceStateStolen) ?
+            pVoiceMgr->voices[i].nextChannel : pVoiceMgr->voices[i].channel) != pSynth->vSynthNum)
             continue;
 
         /* is voice active? */
@@ -3412,6 +3413,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
         S_SYNTH_VOICE *pVoice;
         EAS_I32 currentPriority, bestPriority;
         EAS_INT bestCandidate;
+        EAS_U8 playChannel;
 
         /* find the lowest priority voice */
         bestPriority = bestCandidate = -1;
@@ -3419,8 +3421,13 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
         {
             pVoice = &pVoiceMgr->voices[i];
 
+            /* ignore free and muting voices */
+            if ((pVoice->voiceState == eVoiceStateFree) || (pVoice->voiceState == eVoiceStateMuting))
+                continue;
+
             /* this synth? */
-            if (GET_VSYNTH(pVoice->nextChannel) != pSynth->vSynthNum)
+            playChannel = (pVoice->voiceState == eVoiceStateStolen) ? pVoice->nextChannel : pVoice->channel;
+            if (GET_VSYNTH(playChannel) != pSynth->vSynthNum)
                 continue;
 
             /* if voice is stolen or just started, reduce the likelihood it will be stolen */
@@ -3430,7 +3437,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
                 currentPriority = 128 - pVoice->nextVelocity;
 
                 /* include channel priority */
-                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->nextChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
+                currentPriority += pSynth->channels[GET_CHANNEL(playChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
             else
             {
@@ -3443,7 +3450,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
                     ((EAS_I32) pVoice->gain >> (12 - NOTE_GAIN_STEAL_WEIGHT));
 
                 /* include channel priority */
-                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->nextChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
+                currentPriority += pSynth->channels[GET_CHANNEL(playChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
 
             /* is this the best choice so far? */
-- 
2.43.0


From 46684ccd9549ceda8d73b0f2bec4467c922d0f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:33 +0000
Subject: [PATCH 30/32] fix: a pause or resume that was carried out is no
 longer pending

---
 arm-wt-22k/lib_src/eas_public.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index b8c49de..851bad0 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2222,6 +2222,9 @@ EAS_PUBLIC EAS_RESULT EAS_Pause (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
             result = pParserModule->pfPause(pEASData, pStream->handle);
         else
             result = EAS_ERROR_NOT_IMPLEMENTED;
+
+        /* the request has been carried out, nothing is pending */
+        pStream->streamFlags &= ~STREAM_FLAGS_PAUSE;
     }
 
     return result;
@@ -2278,6 +2281,9 @@ EAS_PUBLIC EAS_RESULT EAS_Resume (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
             result = pParserModule->pfResume(pEASData, pStream->handle);
         else
             result = EAS_ERROR_NOT_IMPLEMENTED;
+
+        /* the request has been carried out, nothing is pending */
+        pStream->streamFlags &= ~STREAM_FLAGS_RESUME;
     }
 
     return result;
-- 
2.43.0


From b5147813bb3875a4513cd30a702a717390901221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:09 +0000
Subject: [PATCH 31/32] fix: seeking a paused stream leaves it paused

---
 arm-wt-22k/lib_src/eas_public.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 851bad0..dfd501d 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2065,6 +2065,7 @@ EAS_PUBLIC EAS_RESULT EAS_Locate (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream,
     EAS_RESULT result;
     EAS_U32 requestedTime;
     EAS_STATE state;
+    EAS_BOOL paused;
 
     /* get pointer to parser function table */
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
@@ -2104,9 +2105,8 @@ EAS_PUBLIC EAS_RESULT EAS_Locate (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream,
         }
     }
 
-    /* if we were paused and not going to resume, set pause request flag */
-    if (((state == EAS_STATE_PAUSING) || (state == EAS_STATE_PAUSED)) && ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0))
-        pStream->streamFlags |= STREAM_FLAGS_PAUSE;
+    /* note if we were paused and not going to resume */
+    paused = ((state == EAS_STATE_PAUSING) || (state == EAS_STATE_PAUSED)) && ((pStream->streamFlags & STREAM_FLAGS_RESUME) == 0);
 
     /* reset the synth and parser */
     if ((result = (*pParserModule->pfReset)(pEASData, pStream->handle)) != EAS_SUCCESS)
@@ -2117,6 +2117,15 @@ EAS_PUBLIC EAS_RESULT EAS_Locate (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream,
     if ((result = EAS_ParseEvents(pEASData, pStream, requestedTime << 8, eParserModeLocate)) != EAS_SUCCESS)
         return result;
 
+    /* a paused stream stays paused, unless it has reached its end */
+    if (paused)
+    {
+        if ((result = (*pParserModule->pfState)(pEASData, pStream->handle, &state)) != EAS_SUCCESS)
+            return result;
+        if ((state <= EAS_STATE_PLAY) && (pParserModule->pfPause != NULL))
+            return (*pParserModule->pfPause)(pEASData, pStream->handle);
+    }
+
     return EAS_SUCCESS;
 }
 
-- 
2.43.0


From e5c0bf3ce6d5625b5f1d9b57e3263ed9963bc41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:32 +0000
Subject: [PATCH 32/32] fix: a note waiting for a stolen voice stays silenced
 when its key group cuts it off

VMCheckKeyGroup marks a stolen voice whose waiting note belongs to the
group with VOICE_FLAG_DEFER_MUTE, but VMRetargetStolenVoice dropped the
mark (pfStartVoice clears the flags), so that e.g. an open and a closed
hi-hat sounded together.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index dab3fa7..fdbd4d1 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1468,6 +1468,10 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
         pNextSynth->synthFlags |= SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING;
     }
 
+    /* was the new note already cut off by another note of its key group? */
+    if (flags & VOICE_FLAG_DEFER_MUTE)
+        pVoice->voiceFlags |= VOICE_FLAG_DEFER_MUTE;
+
     return EAS_TRUE;
 }
 
-- 
2.43.0

