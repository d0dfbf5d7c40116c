From 21752985d8a0ff1c5d1014b2996bc6723b998250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:14 +0000
Subject: [PATCH 01/59] fix: report the full 32-bit first channel of TBX frames

---
 lsl/reader/tbx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index 13be605..ea4879a 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -207,7 +207,7 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     PyObject_SetAttrString(fHeader, "second_count", temp);
     Py_XDECREF(temp);
     
-    temp = Py_BuildValue("h", cFrame.header.first_chan);
+    temp = PyLong_FromUnsignedLong(cFrame.header.first_chan);
     PyObject_SetAttrString(fHeader, "first_chan", temp);
     Py_XDECREF(temp);
     
-- 
2.43.0


From 19f6a3ad827353eaea944e3bb4cfaede183fec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:14 +0000
Subject: [PATCH 02/59] fix: COR first channel and gain above 32767 were sign
 extended

---
 lsl/reader/cor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index 73e4070..d3a0550 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -24,8 +24,8 @@ typedef struct __attribute__((packed)) {
         uint32_t frame_count_word;
     };
     uint32_t second_count;
-    int16_t  first_chan;
-    int16_t  gain;
+    uint16_t first_chan;
+    uint16_t gain;
 } CORHeader;
 
 
-- 
2.43.0


From 05ea20082b5fc4c91bb4f7aad2281b6554cfa461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:14 +0000
Subject: [PATCH 03/59] fix: refuse DR spectrometer product sets there is no
 parser for

---
 lsl/reader/drspec.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index 6aa65d7..0361dee 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -285,6 +285,25 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
     
     // Get the data format
     nSets = pol_count(header.stokes_format)*2;
+    switch(header.stokes_format) {
+        case LINEAR_XX:
+        case LINEAR_XY_RE:
+        case LINEAR_XY_IM:
+        case LINEAR_YY:
+        case (LINEAR_XX | LINEAR_YY):
+        case (LINEAR_XY_RE | LINEAR_XY_IM):
+        case (LINEAR_XX | LINEAR_XY_RE | LINEAR_XY_IM | LINEAR_YY):
+        case STOKES_I:
+        case STOKES_Q:
+        case STOKES_U:
+        case STOKES_V:
+        case (STOKES_I | STOKES_V):
+        case (STOKES_I | STOKES_Q | STOKES_U | STOKES_V):
+            break;
+        default:
+            PyErr_Format(PyExc_RuntimeError, "Cannot parse data with polarization format 0x%02x", header.stokes_format);
+            goto fail;
+    }
     
     // Create the output data arrays
     npy_intp dims[1];
-- 
2.43.0


From 5d22da1b48e971ddf43d094edf48c4573e549873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:38 +0000
Subject: [PATCH 04/59] fix: DR spectrometer reader released its read buffer
 twice on errors

---
 lsl/reader/drspec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index 0361dee..cbc501f 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -274,7 +274,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
         goto fail;
     }
     memcpy(&header, PyBytes_AS_STRING(buffer), sizeof(header));
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Check the header's magic numbers
     if( header.MAGIC1 != 0xC0DEC0DE || header.MAGIC2 != 0xED0CED0C) {
@@ -388,7 +388,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
         goto fail;
     }
     memcpy(data, PyBytes_AS_STRING(buffer), nBytes);
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     Py_BEGIN_ALLOW_THREADS
     
-- 
2.43.0


From 382cdb35cc273573110e7b2b610b6146684ddbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:38 +0000
Subject: [PATCH 05/59] fix: VDIF reader released its buffers twice on errors
 and ignored a failed allocation

---
 lsl/reader/vdif.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index a69caa9..d8ea84d 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -210,7 +210,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         goto fail;
     }
     memcpy(&bHeader, PyBytes_AS_STRING(buffer), sizeof(bHeader));
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Fix up various bits in the basic header
     uint32_t nChan;
@@ -249,7 +249,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
             goto fail;
         }
         memcpy(&eHeader, PyBytes_AS_STRING(buffer), sizeof(eHeader));
-        Py_XDECREF(buffer);
+        Py_CLEAR(buffer);
         
     } else {
         // Legacy headers are missing this information
@@ -269,6 +269,10 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
     // Read in a chunk of the data
     uint8_t *rawData;
     rawData = (uint8_t *) malloc(dataLength);
+    if( rawData == NULL && dataLength > 0 ) {
+        PyErr_Format(PyExc_MemoryError, "Cannot allocate data buffer");
+        goto fail;
+    }
     if( vdif_size_dat == NULL ) {
         vdif_size_dat = Py_BuildValue("i", dataLength);
     } else if( PyLong_AsLong(vdif_size_dat) != dataLength ) {
@@ -290,7 +294,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         goto fail;
     }
     memcpy(rawData, PyBytes_AS_STRING(buffer), sizeof(uint8_t)*dataLength);
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Parse it out
     if( bitsPerSample == 8 ) {
@@ -356,7 +360,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         padims.len = 2;
         
         tempArrayMulti = (PyArrayObject*) PyArray_Newshape(data, &padims, NPY_CORDER);
-        Py_XDECREF(data);
+        Py_CLEAR(data);
         if( tempArrayMulti == NULL ) {
             PyErr_Format(PyExc_MemoryError, "Cannot create output array");
             goto fail;
-- 
2.43.0


From 2ac3c08cb649659f5e160efa26e55a9ce475b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:38 +0000
Subject: [PATCH 06/59] fix: complex VDIF data read as integers were
 reinterpreted as floats, past the end of the buffer

---
 lsl/reader/vdif.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index d8ea84d..abd1f71 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -332,10 +332,10 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
             goto fail;
         }
         
-        float *a;
+        T *a;
         std::complex<float> *b;
         
-        a = (float *) PyArray_DATA(data);
+        a = (T *) PyArray_DATA(data);
         b = (std::complex<float> *) PyArray_DATA(tempArrayComplex);
         for(i=0; i<nSamples; i+=2) {
             *(b+i/2) = std::complex<float>(*(a+i+0), *(a+i+1));
-- 
2.43.0


From ae0da1949696417076008f158ce1160d1e6892f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:38 +0000
Subject: [PATCH 07/59] fix: TBX and COR readers leaked objects on mode changes
 and sync errors

---
 lsl/reader/cor.cpp | 7 +++++--
 lsl/reader/tbx.cpp | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index d3a0550..c6aa90a 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -120,7 +120,9 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
         cached_nchan = nchan;   // Update for next time
         Py_XDECREF(cor_size);   // Update for next time
         cor_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change cor_size
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        temp = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        Py_XDECREF(temp);
+        Py_XDECREF(data);
         
         switch(nchan) {
             case 33:
@@ -170,7 +172,8 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
         cached_nchan = 192;   // Update for next time
         Py_XDECREF(cor_size);   // Update for next time
         cor_size = NULL;
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        temp = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        Py_XDECREF(temp);
         PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
         goto fail;
     }
diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index ea4879a..a750b2d 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -96,7 +96,8 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
         cached_nchan = nchan;
         Py_XDECREF(tbx_size);   // Update for next time
         tbx_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change tbx_size
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        temp = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        Py_XDECREF(temp);
         
 #define MATCH_TBX_MODE(MNSTAND,MNCHAN) \
     case MNCHAN: \
@@ -185,7 +186,8 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     
     // Validate
     if( !validSync5C(cFrame.header.syncWord) ) {
-        buffer = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        temp = PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        Py_XDECREF(temp);
         PyErr_Format(SyncError, "Mark 5C sync word differs from expected");
         Py_XDECREF(data);
         return NULL;
-- 
2.43.0


From bcfbbb336bb56817eae1d7e890059bceb2241efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:20 +0000
Subject: [PATCH 08/59] fix: time tags of timestamps on leap second days were
 off by up to 12 us

---
 lsl/reader/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/base.py b/lsl/reader/base.py
index 0457399..f55f13d 100644
--- a/lsl/reader/base.py
+++ b/lsl/reader/base.py
@@ -572,10 +572,12 @@ class FrameTimestamp(object):
         """
         
         sec = int(self._time.unix)
-        sec_frac = self._time - AstroTime(sec, format='unix', scale='utc')
+        ref = AstroTime(sec, format='unix', scale='utc')
+        utc = self._time.utc
+        sec_frac = ((utc.jd1 - ref.jd1) + (utc.jd2 - ref.jd2)) * 86400
         
         tt = sec * int(ndp_common.fS)
-        tt = tt + int(round(sec_frac.sec*ndp_common.fS, 2))
+        tt = tt + int(round(sec_frac*ndp_common.fS, 2))
         return tt
         
     @property
-- 
2.43.0


From 2c638c9515ec51a6193abc7aeb0c0211219fb0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:20 +0000
Subject: [PATCH 09/59] fix: pulsar_mjd gave second 86400 of the previous day
 during the first second after midnight

---
 lsl/reader/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/base.py b/lsl/reader/base.py
index f55f13d..b159a5c 100644
--- a/lsl/reader/base.py
+++ b/lsl/reader/base.py
@@ -550,7 +550,7 @@ class FrameTimestamp(object):
         day_sec1 = mjd_frac1 * 86400
         day_sec2 = mjd_frac2 * 86400
         day_sec = int(day_sec1) + int(day_sec2)
-        if day_sec > 86400:
+        if day_sec >= 86400:
             mjd += 1
             day_sec -= 86400
         sec_frac = (day_sec1 - int(day_sec1)) + (day_sec2 - int(day_sec2))
-- 
2.43.0


From 57f58b276b6aa03414d470aba0971085a164a045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:49 +0000
Subject: [PATCH 10/59] fix: duplicate frames hid missing frames in the frame
 buffers

get() compared the number of frames received with the number expected before
it had removed duplicates, so that two copies of one frame passed for a full
set, and COR frames of different channels were taken for duplicates.
---
 lsl/reader/buffer.py | 66 +++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 35 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index b2f7c7d..c8c7f1e 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -302,39 +302,29 @@ class FrameBufferBase(object):
             key_to_return = self.peek()
             if key_to_return is None:
                 return None
-        returnCount = len(self.buffer[key_to_return])
+        # Drop any duplicates so that they cannot hide missing frames
+        output = deque()
+        frameIDs = set()
+        for frame in self.buffer[key_to_return]:
+            newID = self._get_frame_id(frame)
+            if newID not in frameIDs:
+                output.append(frame)
+                frameIDs.add(newID)
+            else:
+                self.dropped += 1
+        returnCount = len(output)
         
-        if returnCount == self.nFrames:
-            ## Everything is good (Is it really???)
-            self.full = self.full + 1
-            
-            output = self.buffer[key_to_return]
-        elif returnCount < self.nFrames:
+        if returnCount < self.nFrames:
             ## There are too few frames
             self.partial = self.partial + 1
             self.missing = self.missing + (self.nFrames - returnCount)
             
-            output = self.buffer[key_to_return]
-            
             ## Fill in the missing frames
             output.extend( map(lambda x: self.create_fill(key_to_return, x), self._get_missing_list(key_to_return)) )
         else:
-            ## There are too many frames
+            ## Everything is good (Is it really???)
             self.full = self.full + 1
             
-            output = []
-            frameIDs = []
-            for frame in self.buffer[key_to_return]:
-                try:
-                    newID = frame.id
-                except AttributeError:
-                    newID = frame.header.first_chan
-                if newID not in frameIDs:
-                    output.append(frame)
-                    frameIDs.append(newID)
-                else:
-                    self.dropped += 1
-                    
         del(self.buffer[key_to_return])
         self.done.append(key_to_return)
         
@@ -384,24 +374,30 @@ class FrameBufferBase(object):
         
         return False if len(self.buffer) else True
         
+    def _get_frame_id(self, frame):
+        """
+        Return what tells a frame apart from the others with the same figure of
+        merit.
+        """
+        
+        if hasattr(self, 'frameID'):
+            return self.frameID(frame)
+        elif self.mode == 'VDIF':
+            return frame.id[1]
+        elif self.mode in ('TBF', 'TBX'):
+            return frame.header.first_chan
+        elif self.mode == 'COR':
+            return frame.id+(frame.header.first_chan,)
+        else:
+            return frame.id
+            
     def _get_missing_list(self, key):
         """
         Create a list of tuples of missing frame information.
         """
         
         # Find out what frames we have
-        if hasattr(self, 'frameID'):
-            fnc = lambda x: self.frameID(x)
-        else:
-            if self.mode == 'VDIF':
-                fnc = lambda x: x.id[1]
-            elif self.mode in ('TBF', 'TBX'):
-                fnc = lambda x: x.header.first_chan
-            elif self.mode == 'COR':
-                fnc = lambda x: x.id+(x.header.first_chan,)
-            else:
-                fnc = lambda x: x.id
-        frameList = set(map(fnc, self.buffer[key]))
+        frameList = set(map(self._get_frame_id, self.buffer[key]))
         
         # Compare the existing list with the possible list stored in the 
         # FrameBufferBase object to build a list of missing frames.
-- 
2.43.0


From f05ee8bcd52a0bb4f7504605242807629aa7a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:49 +0000
Subject: [PATCH 11/59] fix: flush() of a frame buffer returned frames in order
 of arrival, not time

---
 lsl/reader/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index c8c7f1e..4eafd72 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -350,7 +350,7 @@ class FrameBufferBase(object):
             the LWA-SV COR frames out of the buffer
         """
         
-        for key in list(self.buffer):
+        for key in sorted(self.buffer):
             yield self.get(key_to_return=key)
             
     def reset(self):
-- 
2.43.0


From f16929d87a692e1baec7a334ba1b0cf447f4e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:49 +0000
Subject: [PATCH 12/59] fix: append() to a frame buffer always returned True,
 also for dropped frames

---
 lsl/reader/buffer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 4eafd72..c525fe2 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -244,12 +244,14 @@ class FrameBufferBase(object):
             frames = deque([frames,])
             
         # Loop over frames
+        added = True
         for frame in frames:
             # Make sure that it is not in the `done' list.  If it is,
             # disgaurd the frame and make a note of it.
             fom = self.get_figure_of_merit(frame)
             if fom <= self.done[-1]:
                 self.dropped += 1
+                added = False
                 continue
                 
             # If that time tag hasn't been done yet, add it to the 
@@ -260,14 +262,14 @@ class FrameBufferBase(object):
                 self.buffer[fom] = deque()
                 self.buffer[fom].append(frame)
                 
-        return True
+        return added
         
     def put(self, *args, **kwds):
         """
         Synonymous with 'append'.
         """
         
-        self.append(*args, **kwds)
+        return self.append(*args, **kwds)
         
     def peek(self, require_filled=True):
         """
-- 
2.43.0


From 6e555b5f9d74eabcc68023016ad106b015eff2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:48 +0000
Subject: [PATCH 13/59] fix: DRX buffers forgot the 1980 cut on reset() and
 VDIF buffers dropped the first frame of an epoch

---
 lsl/reader/buffer.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index c525fe2..b28c732 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -99,6 +99,9 @@ class FrameBufferBase(object):
     
     __metaclass__ = abc.ABCMeta
     
+    # Figure of merit up to which frames are always dropped
+    _done_start = 0
+    
     def __init__(self, mode='DRX', stands=[], beams=[], tunes=[], pols=[], chans=[], threads=[], nsegments=6, reorder=False):
         """
         Initialize the buffer with a list of:
@@ -148,7 +151,7 @@ class FrameBufferBase(object):
         # The buffer itself
         self.nsegments = nsegments
         self.buffer = OrderedDict()
-        self.done = deque([0,], maxlen=self.nsegments)
+        self.done = deque([self._done_start,], maxlen=self.nsegments)
         
         # Buffer statistics
         self.full = 0		# Number of times a full buffer was emptied
@@ -364,7 +367,7 @@ class FrameBufferBase(object):
         
         self.buffer.clear()
         self.done.clear()
-        self.done.append(0)
+        self.done.append(self._done_start)
         
     def is_empty(self):
         """
@@ -479,13 +482,13 @@ class DRXFrameBuffer(FrameBufferBase):
     
     """
     
+    # Make sure that we ignore packets before 1980
+    # (although I don't really know why this happens sometimes)
+    _done_start = 61849368000000000
+    
     def __init__(self, beams=[], tunes=[1,2], pols=[0, 1], nsegments=20, reorder=False):
         FrameBufferBase.__init__(self, mode='DRX', beams=beams, tunes=tunes, pols=pols, nsegments=nsegments, reorder=reorder)
         
-        # Make sure that we ignore packets before 1980
-        # (although I don't really know why this happens sometimes)
-        self.done[0] = 61849368000000000
-        
     def get_max_frames(self):
         """
         Calculate the maximum number of frames that we expect from 
@@ -583,13 +586,13 @@ class DRX8FrameBuffer(FrameBufferBase):
     
     """
     
+    # Make sure that we ignore packets before 1980
+    # (although I don't really know why this happens sometimes)
+    _done_start = 61849368000000000
+    
     def __init__(self, beams=[], tunes=[1,2], pols=[0, 1], nsegments=20, reorder=False):
         FrameBufferBase.__init__(self, mode='DRX8', beams=beams, tunes=tunes, pols=pols, nsegments=nsegments, reorder=reorder)
         
-        # Make sure that we ignore packets before 1980
-        # (although I don't really know why this happens sometimes)
-        self.done[0] = 61849368000000000
-        
     def get_max_frames(self):
         """
         Calculate the maximum number of frames that we expect from 
@@ -746,6 +749,9 @@ class VDIFFrameBuffer(FrameBufferBase):
         stand/polarization (default is False)
     """
     
+    # The first frame of a reference epoch has a figure of merit of zero
+    _done_start = -1
+    
     def __init__(self, threads=[0,1], nsegments=10, reorder=False):
         FrameBufferBase.__init__(self, mode='VDIF', threads=threads, nsegments=nsegments, reorder=reorder)
         
-- 
2.43.0


From 3f7d8478faa01f1a57dbf8b14e7ff2ef7037a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:48 +0000
Subject: [PATCH 14/59] fix: COR fill frames kept the NaNs and infinities of
 the frame they were made from

---
 lsl/reader/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index b28c732..351d6a9 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -723,7 +723,7 @@ class CORFrameBuffer(FrameBufferBase):
         fillFrame.payload.stand1 = stand1
         
         # Zero the data for the fill packet
-        fillFrame.payload._data *= 0
+        fillFrame.payload._data[...] = 0
         
         # Invalidate the frame
         fillFrame.valid = False
-- 
2.43.0


From 6a17b7e1d199f7ac57b92dd427717ae391e75406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:35 +0000
Subject: [PATCH 15/59] fix: reordered COR sets were not in order of start
 channel and baseline

---
 lsl/reader/buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 351d6a9..d5a4d55 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -61,8 +61,8 @@ def _cmp_frames(x, y):
     try:
         len1 = len(idsX)
         if len1 == 2:
-            sX = 2*(idsX[0]-1) + idsX[1]
-            sY = 2*(idsY[0]-1) + idsY[1]
+            sX = (getattr(x.header, 'first_chan', 0),) + tuple(idsX)
+            sY = (getattr(y.header, 'first_chan', 0),) + tuple(idsY)
         else:
             sX = 16777216*(idsX[0]-1) + 4096*(idsX[1]-1) + idsX[2]
             sY = 16777216*(idsY[0]-1) + 4096*(idsY[1]-1) + idsY[2]
-- 
2.43.0


From 183cd77e260e3c8f003f76b0efda6e7795d2222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:58 +0000
Subject: [PATCH 16/59] fix: reads across more than two parts of a split file
 came back short

---
 lsl/reader/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index da932cb..ec717a5 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -76,15 +76,15 @@ class SplitFileWrapper(object):
             del self._fh
             del self._pos
             
-    def read(self, size):
+    def read(self, size=-1):
         if self.closed:
             raise ValueError("I/O operation on a closed file")
             
         data = self._fh.read(size)
         self._pos += len(data)
-        if len(data) < size and self._idx < self._nfiles-1:
+        while (size < 0 or len(data) < size) and self._idx < self._nfiles-1:
             self._open_part()
-            new_data = self._fh.read(size-len(data))
+            new_data = self._fh.read(size-len(data) if size >= 0 else -1)
             self._pos += len(new_data)
             data += new_data
         return data
-- 
2.43.0


From c3804da01162808c15e43e45f78b3a5f80594fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:58 +0000
Subject: [PATCH 17/59] fix: seeking relative to the end of a split file went
 the wrong way

---
 lsl/reader/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index ec717a5..84dc6bf 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -104,6 +104,9 @@ class SplitFileWrapper(object):
             raise ValueError("I/O operation on a closed file")
             
         if whence == 0:
+            if pos < 0:
+                raise ValueError(f"negative seek position {pos}")
+                
             idx = bisect(self._offsets, pos) - 1
             self._open_part(idx)
             offset = pos - self._pos
@@ -115,5 +118,5 @@ class SplitFileWrapper(object):
             self.seek(offset, whence=0)
             
         else:
-            offset = self._total_size - pos
+            offset = self._total_size + pos
             self.seek(offset, whence=0)
-- 
2.43.0


From 720c64a18d9a91413d9a53b5620ecb50cb4990c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:20 +0000
Subject: [PATCH 18/59] fix: TBX channel frequencies and sync errors of
 read_frame_ci8 raised NameError

---
 lsl/reader/tbx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/tbx.py b/lsl/reader/tbx.py
index 4909ff6..ea2664f 100644
--- a/lsl/reader/tbx.py
+++ b/lsl/reader/tbx.py
@@ -82,7 +82,7 @@ class FrameHeader(FrameHeaderBase):
         """
         
         fC = ndp_common.fC
-        return (np.arange(FRAME_CHANNEL_COUNT, dtype=np.float32)+self.first_chan) * fC
+        return (np.arange(self.nchan, dtype=np.float32)+self.first_chan) * fC
 
 
 class FramePayload(FramePayloadBase):
@@ -203,7 +203,7 @@ def read_frame_ci8(filehandle):
         newFrame = read_tbx_ci8(filehandle, Frame())
         newFrame.payload._data = newFrame.payload.data.view(CI8)
     except gSyncError:
-        mark = filehandle.tell() - FRAME_SIZE
+        mark = filehandle.tell()
         raise SyncError(location=mark)
     except gEOFError:
         raise EOFError
-- 
2.43.0


From 4fe57008710fc79ff6b3d26fde3bd5a54d50c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:01 +0000
Subject: [PATCH 19/59] fix: VDIF times of reference epochs that start with a
 leap second were a second late

---
 lsl/reader/vdif.py | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/lsl/reader/vdif.py b/lsl/reader/vdif.py
index cef3d73..e4b5e90 100644
--- a/lsl/reader/vdif.py
+++ b/lsl/reader/vdif.py
@@ -28,11 +28,9 @@ get_thread_count
 
 import warnings
 from datetime import datetime
-from functools import lru_cache
 
 from astropy.time import Time as AstroTime, TimeDelta as AstroDelta
 
-from lsl.astro import leap_secs
 from lsl.common.mcs import datetime_to_mjdmpm
 from lsl.reader.base import *
 from lsl.reader._gofast import read_vdif, read_vdif_i8
@@ -51,17 +49,6 @@ __all__ = ['FrameHeader', 'FramePayload', 'Frame', 'has_guppi_header', 'read_gup
            'get_frames_per_second', 'get_sample_rate']
 
 
-@lru_cache(maxsize=64)
-def _ls_tracker(epochJD, finalJD):
-    """
-    Helper function to help figure how many leap seconds there are between a
-    reference epoch and the data epoch.
-    """
-    
-    ref = leap_secs(epochJD)
-    return ref - leap_secs(finalJD)
-
-
 def _crcc(data, length=48, mask=0o40003, cycle=16):
     """
     Compute a CRC checksum for the VLBA BCD time code stored in a Mark 5B 
@@ -128,12 +115,10 @@ class FrameHeader(FrameHeaderBase):
         """
         
         # Get the reference epoch in the strange way that it is stored in VDIF 
-        # and convert it to a MJD
+        # and add on the UTC seconds, which do not count leap seconds
         frameDT = AstroTime(f"{2000+self.ref_epoch//2}-{(self.ref_epoch % 2)*6+1}-1 00:00:00",
                             format='iso', scale='utc')
-        frameJD = int(frameDT.jd)
-        frameDT += AstroDelta(self.seconds_from_epoch, format='sec')
-        frameDT -= AstroDelta(_ls_tracker(frameJD, int(frameDT.jd)), format='sec')
+        frameDT = AstroTime(frameDT.unix, self.seconds_from_epoch, format='unix', scale='utc')
         
         if self.sample_rate == 0.0:
             # Try to get the sub-second time by parsing the extended user data
-- 
2.43.0


From 3533095bfe84db20cab17e1a159143a4b9a17579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:35 +0000
Subject: [PATCH 20/59] fix: VDIF frame rate was wrong for files that start
 with the last frame of a second

---
 lsl/reader/vdif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/reader/vdif.py b/lsl/reader/vdif.py
index e4b5e90..e8a2d28 100644
--- a/lsl/reader/vdif.py
+++ b/lsl/reader/vdif.py
@@ -501,6 +501,7 @@ def get_frames_per_second(filehandle):
     with FilePositionSaver(filehandle):
         # Get the current second counts for all threads
         ref = {}
+        cur = {}
         i = 0
         while i < nThreads:
             try:
@@ -514,10 +515,10 @@ def get_frames_per_second(filehandle):
             cID = cFrame.header.thread_id
             cSC = cFrame.header.seconds_from_epoch
             ref[cID] = cSC
+            cur[cID] = cFrame.header.frame_in_second
             i += 1
             
         # Read frames until we see a change in the second counter
-        cur = {}
         fnd = []
         while True:
             ## Get a frame
-- 
2.43.0


From d6a75ac970b4eca69d388b4b5df561308391c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:17 +0000
Subject: [PATCH 21/59] fix: transforms ran past the end of the samples when
 the overlap does not divide the transform length

---
 lsl/correlator/core.cpp   | 4 ++--
 lsl/correlator/spec.cpp   | 4 ++--
 lsl/correlator/stokes.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index c84ec3c..2c6e76e 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -425,7 +425,7 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = ((nSamps - fifoMax - (1+isReal)*nChan + 1)*Overlap + (1+isReal)*nChan - 1) / ((1+isReal)*nChan);
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
@@ -627,7 +627,7 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = ((nSamps - fifoMax - (1+isReal)*nChan + 1)*Overlap + (1+isReal)*nChan - 1) / ((1+isReal)*nChan);
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 4dc51cb..9a3f8f6 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -293,7 +293,7 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = ((nSamps - (1+isReal)*nChan + 1)*Overlap + (1+isReal)*nChan - 1) / ((1+isReal)*nChan);
     npy_intp dims[2];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
@@ -419,7 +419,7 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = ((nSamps - (1+isReal)*nChan + 1)*Overlap + (1+isReal)*nChan - 1) / ((1+isReal)*nChan);
     npy_intp dims[2];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 2110ecc..2196661 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -374,7 +374,7 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = ((nSamps - (1+isReal)*nChan + 1)*Overlap + (1+isReal)*nChan - 1) / ((1+isReal)*nChan);
     npy_intp dims[3];
     dims[0] = (npy_intp) 4;
     dims[1] = (npy_intp) nStand;
@@ -528,7 +528,7 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = ((nSamps - (1+isReal)*nChan + 1)*Overlap + (1+isReal)*nChan - 1) / ((1+isReal)*nChan);
     npy_intp dims[3];
     dims[0] = (npy_intp) 4;
     dims[1] = (npy_intp) nStand;
-- 
2.43.0


From d90cbaa3130da7b684e17ae91e0ead1869ffadcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:17 +0000
Subject: [PATCH 22/59] fix: the channel shift of PSDs of complex data read
 past the end of the array for odd channel counts

---
 lsl/correlator/spec.cpp   | 2 +-
 lsl/correlator/stokes.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 9a3f8f6..db25f9e 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -224,7 +224,7 @@ void compute_spec_complex(long nStand,
             
             // Shift FFTs
             memcpy(temp2, psd + nChan*i, sizeof(OutType)*(nChan/2+nChan%2));
-            memmove(psd + nChan*i, psd + nChan*i+nChan/2+nChan%2, sizeof(OutType)*nChan/2);
+            memmove(psd + nChan*i, psd + nChan*i+nChan/2+nChan%2, sizeof(OutType)*(nChan/2));
             memcpy(psd + nChan*i+nChan/2, temp2, sizeof(OutType)*(nChan/2+nChan%2));
             
             // Scale FFTs
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 2196661..5e6a3b4 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -282,7 +282,7 @@ void compute_stokes_complex(long nStand,
             for(j=0; j<4; j++) {
                 // Shift FFTs
                 memcpy(temp2, (psd + j*nChan*nStand + nChan*i), sizeof(OutType)*(nChan/2+nChan%2));
-                memmove((psd + j*nChan*nStand + nChan*i), (psd + j*nChan*nStand + nChan*i)+nChan/2+nChan%2, sizeof(OutType)*nChan/2);
+                memmove((psd + j*nChan*nStand + nChan*i), (psd + j*nChan*nStand + nChan*i)+nChan/2+nChan%2, sizeof(OutType)*(nChan/2));
                 memcpy((psd + j*nChan*nStand + nChan*i)+nChan/2, temp2, sizeof(OutType)*(nChan/2+nChan%2));
                 
                 // Scale FFTs
-- 
2.43.0


From 96f16272a5685db89bc99271bdcb95bed39409fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:38 +0000
Subject: [PATCH 23/59] fix: Stokes I and Q visibilities were normalized with
 the validity of the XY product

---
 lsl/correlator/stokes.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 5e6a3b4..8875ca2 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -646,37 +646,45 @@ void compute_xengine_three(long nStand,
     OutType tempVis1, tempVis2;
     
     // Time-domain blanking control
-    long nActVis;
+    long nActVisPureX, nActVisPureY, nActVisCross;
     
     #ifdef _OPENMP
-        #pragma omp parallel default(shared) private(c, f, nActVis, tempVis1, tempVis2)
+        #pragma omp parallel default(shared) private(c, f, nActVisPureX, nActVisPureY, nActVisCross, tempVis1, tempVis2)
     #endif
     {
         #ifdef _OPENMP
             #pragma omp for schedule(OMP_SCHEDULER)
         #endif
         for(bl=0; bl<nBL; bl++) {
-            nActVis = 0;
+            nActVisPureX = 0;
+            nActVisPureY = 0;
+            nActVisCross = 0;
             for(f=0; f<nFFT; f++) {
-                nActVis += (long) (*(validX+ mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
+                nActVisPureX += (long) (*(validX + mapper[bl][0]*nFFT + f) & *(validX + mapper[bl][1]*nFFT + f));
+                nActVisPureY += (long) (*(validY + mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
+                nActVisCross += (long) (*(validX + mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
             }
             
             for(c=0; c<nChan; c++) {
                 // I
                 blas_dotc_sub(nFFT, (dataX + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis1);
                 blas_dotc_sub(nFFT, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis2);
-                *(dataA + 0*nBL*nChan + bl*nChan + c) = (tempVis1 + tempVis2) / (float) nActVis;
+                tempVis1 /= (float) nActVisPureX;
+                tempVis2 /= (float) nActVisPureY;
+                *(dataA + 0*nBL*nChan + bl*nChan + c) = (tempVis1 + tempVis2);
                 
                 // Q
-                *(dataA + 1*nBL*nChan + bl*nChan + c) = (tempVis1 - tempVis2) / (float) nActVis;
+                *(dataA + 1*nBL*nChan + bl*nChan + c) = (tempVis1 - tempVis2);
                 
                 // U
                 blas_dotc_sub(nFFT, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis1);
                 blas_dotc_sub(nFFT, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, &tempVis2);
-                *(dataA + 2*nBL*nChan + bl*nChan + c) = (tempVis1 + tempVis2) / (float) nActVis;
+                tempVis1 /= (float) nActVisCross;
+                tempVis2 /= (float) nActVisCross;
+                *(dataA + 2*nBL*nChan + bl*nChan + c) = (tempVis1 + tempVis2);
                 
                 // V
-                *(dataA + 3*nBL*nChan + bl*nChan + c) = (tempVis1 - tempVis2) / (float) nActVis / OutType(0,1);
+                *(dataA + 3*nBL*nChan + bl*nChan + c) = (tempVis1 - tempVis2) / OutType(0,1);
             }
         }
     }
-- 
2.43.0


From 2805789b87a37f6b67f990f0f7e59f46c469dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:49 +0000
Subject: [PATCH 24/59] fix: window functions that raise or return the wrong
 number of points crashed the F engine and spectrometers

---
 lsl/correlator/core.cpp   | 15 +++++++++++++--
 lsl/correlator/spec.cpp   | 12 +++++++++++-
 lsl/correlator/stokes.cpp | 12 +++++++++++-
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index 2c6e76e..a332ec9 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -406,10 +406,21 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
     
     // Calculate the windowing function
     if( windowFunc != Py_None ) {
-        window = Py_BuildValue("(i)", (1+isReal)*nChan);
-        window = PyObject_CallObject(windowFunc, window);
+        PyObject *arglist = Py_BuildValue("(i)", (1+isReal)*nChan);
+        window = PyObject_CallObject(windowFunc, arglist);
+        Py_XDECREF(arglist);
+        if( window == NULL ) {
+            goto fail;
+        }
         windowData = (PyArrayObject *) PyArray_ContiguousFromObject(window, NPY_DOUBLE, 1, 1);
         Py_DECREF(window);
+        if( windowData == NULL ) {
+            goto fail;
+        }
+        if( PyArray_DIM(windowData, 0) != (1+isReal)*nChan ) {
+            PyErr_Format(PyExc_RuntimeError, "window returned the wrong number of points");
+            goto fail;
+        }
     }
     
     // Compute the integer sample offset and the fractional sample delay for each stand
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index db25f9e..3a8a2a4 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -287,9 +287,19 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     if( windowFunc != Py_None ) {
         arglist = Py_BuildValue("(i)", (1+isReal)*nChan);
         windowValue = PyObject_CallObject(windowFunc, arglist);
+        Py_XDECREF(arglist);
+        if( windowValue == NULL ) {
+            goto fail;
+        }
         windowData = (PyArrayObject *) PyArray_ContiguousFromObject(windowValue, NPY_DOUBLE, 1, 1);
-        Py_DECREF(arglist);
         Py_DECREF(windowValue);
+        if( windowData == NULL ) {
+            goto fail;
+        }
+        if( PyArray_DIM(windowData, 0) != (1+isReal)*nChan ) {
+            PyErr_Format(PyExc_RuntimeError, "window returned the wrong number of points");
+            goto fail;
+        }
     }
     
     // Find out how large the output array needs to be and initialize it
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 8875ca2..aa7ba15 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -368,9 +368,19 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     if( windowFunc != Py_None ) {
         arglist = Py_BuildValue("(i)", (1+isReal)*nChan);
         windowValue = PyObject_CallObject(windowFunc, arglist);
+        Py_XDECREF(arglist);
+        if( windowValue == NULL ) {
+            goto fail;
+        }
         windowData = (PyArrayObject *) PyArray_ContiguousFromObject(windowValue, NPY_DOUBLE, 1, 1);
-        Py_DECREF(arglist);
         Py_DECREF(windowValue);
+        if( windowData == NULL ) {
+            goto fail;
+        }
+        if( PyArray_DIM(windowData, 0) != (1+isReal)*nChan ) {
+            PyErr_Format(PyExc_RuntimeError, "window returned the wrong number of points");
+            goto fail;
+        }
     }
     
     // Find out how large the output array needs to be and initialize it
-- 
2.43.0


From ea22b53dddfdb676da7e2fb3c349385cf1d61086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:58 +0000
Subject: [PATCH 25/59] fix: LFFT=0 ended the interpreter and negative overlaps
 were accepted

---
 lsl/correlator/core.cpp   | 10 ++++++++++
 lsl/correlator/spec.cpp   | 10 ++++++++++
 lsl/correlator/stokes.cpp | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index a332ec9..2971706 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -360,6 +360,11 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
         windowFunc = window;
     }
 
+    if( nChan < 1 || Overlap < 1 ) {
+        PyErr_Format(PyExc_ValueError, "LFFT and overlap must be at least one");
+        goto fail;
+    }
+
     // Bring the data into C and make it usable
     data = (PyArrayObject *) PyArray_ContiguousFromObject(signals, 
                                                         PyArray_TYPE((PyArrayObject *) signals), 
@@ -574,6 +579,11 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
         windowFunc = window;
     }
 
+    if( nChan < 1 || Overlap < 1 ) {
+        PyErr_Format(PyExc_ValueError, "LFFT and overlap must be at least one");
+        goto fail;
+    }
+
     // Bring the data into C and make it usable
     data = (PyArrayObject *) PyArray_ContiguousFromObject(signals, 
                                                         PyArray_TYPE((PyArrayObject *) signals), 
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 3a8a2a4..846c23d 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -265,6 +265,11 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
         windowFunc = window;
     }
     
+    if( nChan < 1 || Overlap < 1 ) {
+        PyErr_Format(PyExc_ValueError, "LFFT and overlap must be at least one");
+        goto fail;
+    }
+
     // Bring the data into C and make it usable
     data = (PyArrayObject *) PyArray_ContiguousFromObject(signals, 
                                                         PyArray_TYPE((PyArrayObject *) signals), 
@@ -403,6 +408,11 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
         windowFunc = window;
     }
     
+    if( nChan < 1 || Overlap < 1 ) {
+        PyErr_Format(PyExc_ValueError, "LFFT and overlap must be at least one");
+        goto fail;
+    }
+
     // Bring the data into C and make it usable
     data = (PyArrayObject *) PyArray_ContiguousFromObject(signals, 
                                                         PyArray_TYPE((PyArrayObject *) signals), 
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index aa7ba15..bb61a87 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -325,6 +325,11 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
         windowFunc = window;
     }
     
+    if( nChan < 1 || Overlap < 1 ) {
+        PyErr_Format(PyExc_ValueError, "LFFT and overlap must be at least one");
+        goto fail;
+    }
+
     // Bring the data into C and make it usable
     dataX = (PyArrayObject *) PyArray_ContiguousFromObject(signalsX, 
                                                         PyArray_TYPE((PyArrayObject *) signalsX), 
@@ -491,6 +496,11 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
         windowFunc = window;
     }
     
+    if( nChan < 1 || Overlap < 1 ) {
+        PyErr_Format(PyExc_ValueError, "LFFT and overlap must be at least one");
+        goto fail;
+    }
+
     // Bring the data into C and make it usable
     dataX = (PyArrayObject *) PyArray_ContiguousFromObject(signalsX, 
                                                         PyArray_TYPE((PyArrayObject *) signalsX), 
-- 
2.43.0


From f3a16a7a753fcc5f9989a0fc00c9b8a603f380b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:25 +0000
Subject: [PATCH 26/59] fix: the F engines leaked their delay arrays when
 refusing a data type

---
 lsl/correlator/core.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index 2971706..21dbfb2 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -493,7 +493,11 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
         case( LSL_CI8        ): LAUNCH_FENGINE_COMPLEX(int8_t); break;
         case( NPY_COMPLEX64  ): LAUNCH_FENGINE_COMPLEX(float);  break;
         case( NPY_COMPLEX128 ): LAUNCH_FENGINE_COMPLEX(double); break;
-        default: PyErr_Format(PyExc_RuntimeError, "Unsupport input data type"); goto fail;
+        default:
+            PyErr_Format(PyExc_RuntimeError, "Unsupport input data type");
+            aligned64_free(fifo);
+            aligned64_free(frac);
+            goto fail;
     }
         
 #undef LAUNCH_FENGINE_REAL
@@ -700,7 +704,11 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
         case( LSL_CI8        ): LAUNCH_PFBENGINE_COMPLEX(int8_t); break;
         case( NPY_COMPLEX64  ): LAUNCH_PFBENGINE_COMPLEX(float);  break;
         case( NPY_COMPLEX128 ): LAUNCH_PFBENGINE_COMPLEX(double); break;
-        default: PyErr_Format(PyExc_RuntimeError, "Unsupport input data type"); goto fail;
+        default:
+            PyErr_Format(PyExc_RuntimeError, "Unsupport input data type");
+            aligned64_free(fifo);
+            aligned64_free(frac);
+            goto fail;
     }
         
 #undef LAUNCH_PFBENGINE_REAL
-- 
2.43.0


From 60c48f947870d6531b5844c2a5e4f118f3808ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:06 +0000
Subject: [PATCH 27/59] fix: the gridder scaled uv planes by the size of the
 first one made

---
 lsl/imaging/gridder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 161357b..b45adc0 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -212,7 +212,7 @@ void compute_gridding(long nVis,
     double avgW, ci, cj, temp, temp2;
     long pi, pj, gi, gj;
     Complex32 *suv, *sbm, *kern;
-    static float norm = (float) 1.0 / (nPixSide * nPixSide);
+    float norm = (float) 1.0 / (nPixSide * nPixSide);
     
     // FFT setup
     Complex32* inP;
-- 
2.43.0


From 3f0565302c33dbebfd50ad7bd127d8c2b0e2a7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:06 +0000
Subject: [PATCH 28/59] fix: the gridder lost all visibilities when they fit
 one w plane and overran its plane lists at 1024 planes

---
 lsl/imaging/gridder.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index b45adc0..337464a 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -100,21 +100,23 @@ int compute_planes(int nVis,
     long i;
     double csw, psw;
     
+    if( nVis < 1 ) {
+        return 0;
+    }
+    
     *(planeStart + nPlanes) = 0;
     psw = signed_sqrt( *(w+0) );
     for(i=1; i<nVis; i++) {
         csw = signed_sqrt( *(w+i) );
-        if( csw >= psw + wRes) {
+        if( csw >= psw + wRes && nPlanes < MAX_W_PLANES-1 ) {
             *(planeStop + nPlanes) = i;
             nPlanes += 1;
             *(planeStart + nPlanes) = i;
             psw = csw;
         }
     }
-    if( *(planeStop + nPlanes - 1) < nVis) {
-        *(planeStop + nPlanes) = nVis;
-        nPlanes++;
-    }
+    *(planeStop + nPlanes) = nVis;
+    nPlanes++;
     
     /*
     for(i=0; i<nPlanes; i++) {
-- 
2.43.0


From fb9310817e272a667078e1d9f3037f32526659f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:06 +0000
Subject: [PATCH 29/59] fix: the gridder wrote outside of the uv plane for
 visibilities that do not fall on it

---
 lsl/imaging/gridder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 337464a..990aed2 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -256,6 +256,11 @@ void compute_gridding(long nVis,
             for(i=secStart; i<secStop; i++) {
                 avgW += *(w + i);
                 
+                // Leave out anything that does not fall on the uv plane
+                if( !(fabs(*(u + i)) <= nPixSide/2*uvRes && fabs(*(v + i)) <= nPixSide/2*uvRes) ) {
+                    continue;
+                }
+                
                 // Pixel in the uv plane this corresponds to
                 ci = *(v + i) / -uvRes;
                 if( ci < 0.0 ) {
-- 
2.43.0


From 54c0cee591231e636f2ae33db3a47c4e55fa47d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:06 +0000
Subject: [PATCH 30/59] fix: FXStokes applied the cable gain correction to the
 first four baselines only

---
 lsl/correlator/fx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index fad91b8..0ee52c4 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -483,7 +483,7 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
         
     # Apply cable gain corrections (if needed)
     if gain_correct:
-        for bl in range(output.shape[0]):
+        for bl in range(output.shape[1]):
             cableGain1 = baselines[bl][0].cable.gain(freq)
             cableGain2 = baselines[bl][1].cable.gain(freq)
             
-- 
2.43.0


From 6e83bfdf0ba90ba210a437901fd2afe557e68996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:02 +0000
Subject: [PATCH 31/59] fix: cross-polarization correlation failed when the
 longest X and Y delays differ

---
 lsl/correlator/fx.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index 0ee52c4..4cfb62e 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -321,6 +321,11 @@ def FXMaster(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
         validF2 = validF1
     else:
         signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
+        # The number of transforms depends on the longest delay, so trim the two
+        # sets to what they have in common
+        nFFT = min([signalsF1.shape[2], signalsF2.shape[2]])
+        signalsF1, validF1 = signalsF1[:,:,:nFFT], validF1[:,:nFFT]
+        signalsF2, validF2 = signalsF2[:,:,:nFFT], validF2[:,:nFFT]
         
     # X
     output = _core.XEngine2(signalsF1, signalsF2, validF1, validF2)
@@ -469,6 +474,11 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
     signalsF1, validF1 = func(signals[signalsIndex1,:], freq, delays1, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
     
     signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
+    # The number of transforms depends on the longest delay, so trim the two
+    # sets to what they have in common
+    nFFT = min([signalsF1.shape[2], signalsF2.shape[2]])
+    signalsF1, validF1 = signalsF1[:,:,:nFFT], validF1[:,:nFFT]
+    signalsF2, validF2 = signalsF2[:,:,:nFFT], validF2[:,:nFFT]
     
     # X
     output = _stokes.XEngine3(signalsF1, signalsF2, validF1, validF2)
-- 
2.43.0


From 515825d7090accda11fd563a97a269537bc2a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:27 +0000
Subject: [PATCH 32/59] fix: antennas_to_baseline returned another baseline for
 autocorrelations

---
 lsl/correlator/uvutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/correlator/uvutils.py b/lsl/correlator/uvutils.py
index 1296b1a..0aff6f1 100644
--- a/lsl/correlator/uvutils.py
+++ b/lsl/correlator/uvutils.py
@@ -118,7 +118,7 @@ def antennas_to_baseline(ant1, ant2, antennas, antennas2=None, baseline_list=Non
     # Loop over the baselines until we find one that matches.  If we don't find 
     # one, return -1
     for i,baseline in enumerate(baseline_list):
-        if ant1 in baseline and ant2 in baseline:
+        if (ant1 == baseline[0] and ant2 == baseline[1]) or (ant1 == baseline[1] and ant2 == baseline[0]):
             return i
             
     return -1
-- 
2.43.0


From 53b74383719c79d23518581277d74c6d1bbe8bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:27 +0000
Subject: [PATCH 33/59] fix: compute_uv_track returned NaNs at the ends of some
 tracks

---
 lsl/correlator/uvutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lsl/correlator/uvutils.py b/lsl/correlator/uvutils.py
index 0aff6f1..3f58429 100644
--- a/lsl/correlator/uvutils.py
+++ b/lsl/correlator/uvutils.py
@@ -287,8 +287,10 @@ def compute_uv_track(antennas_or_baselines, dec=34.070, freq=49.0e6, site=lwa1):
         xyz = np.ravel(xyz)
         
         uRange = np.linspace(-np.sqrt(xyz[0]**2 + xyz[1]**2), np.sqrt(xyz[0]**2 + xyz[1]**2), num=256)
-        vRange1 = np.sqrt(xyz[0]**2 + xyz[1]**2 - uRange**2)*np.sin(dec2) + xyz[2]*np.cos(dec2)
-        vRange2 = -np.sqrt(xyz[0]**2 + xyz[1]**2 - uRange**2)*np.sin(dec2) + xyz[2]*np.cos(dec2)
+        # At the ends of the track rounding can leave this slightly negative
+        vRange = np.sqrt(np.maximum(xyz[0]**2 + xyz[1]**2 - uRange**2, 0.0))
+        vRange1 = vRange*np.sin(dec2) + xyz[2]*np.cos(dec2)
+        vRange2 = -vRange*np.sin(dec2) + xyz[2]*np.cos(dec2)
         
         uvTrack[count,0,0:256] = uRange * freq / np.array(speedOfLight)
         uvTrack[count,1,0:256] = vRange1 * freq / np.array(speedOfLight)
-- 
2.43.0


From 02bb32fe640e90d7adf9315e01d8536971f2b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:54 +0000
Subject: [PATCH 34/59] fix: PolarizationDataSet.append refused every
 visibility

---
 lsl/imaging/data.py | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 13e428d..ea60792 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -58,36 +58,25 @@ class PolarizationDataSet(object):
         Append a new visibility to the object.
         """
         
+        if weight is None:
+            weight = np.ones(data.shape, dtype=np.float32)
+        if weight.shape != data.shape:
+            raise ValueError("weight shape does not match the data shape")
+        if mask is None:
+            mask = np.zeros(data.shape, dtype=bool)
+        if mask.shape != data.shape:
+            raise ValueError("mask shape does not match the data shape")
+            
         if self.data.size == 0:
             ## Deal with the first batch of data being added
-            self.data = data
-            
-            if weight is None:
-                weight = np.ones(data.shape, dtype=np.float32)
-            if self.weight.shape != data.shape:
-                raise ValueError("weight shape does not match the data shape")
-            self.weight = weight
-            
-            if mask is None:
-                mask = np.zeros(data.shape, dtype=bool)
-            if self.mask.shape != data.shape:
-                raise ValueError("mask shape does not match the data shape")
-            self.mask = mask
-            
+            self.data = np.atleast_2d(data)
+            self.weight = np.atleast_2d(weight)
+            self.mask = np.atleast_2d(mask)
         else:
-            self.data = np.vstack([self.data, data])
-            
-            if weight is None:
-                weight = np.ones(data.shape, dtype=np.float32)
-            if self.weight.shape != data.shape:
-                raise ValueError("weight shape does not match the data shape")
+            new_data = np.vstack([self.data, data])
             self.weight = np.vstack([self.weight, weight])
-            
-            if mask is None:
-                mask = np.zeros(data.shape, dtype=bool)
-            if self.mask.shape != data.shape:
-                raise ValueError("mask shape does not match the data shape")
             self.mask = np.vstack([self.mask, mask])
+            self.data = new_data
             
     def extend(self, data, weight=None, mask=None):
         """
-- 
2.43.0


From cf5d7693cdcacbf2e194c0b666b096d5ae1de778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:54 +0000
Subject: [PATCH 35/59] fix: get_antenna_subset of several integrations ignored
 indicies=False and needed an antennaarray for indicies

---
 lsl/imaging/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index ea60792..89ecd3a 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -346,15 +346,15 @@ class VisibilityDataSet(object):
                 raise AttributeError("No anntennaarray defined for this data set")
                 
         # Convert to indicies, if needed
-        stands = list(self.antennaarray.get_stands())
         if not indicies:
+            stands = list(self.antennaarray.get_stands())
             if include is not None:
                 include = [stands.index(i) for i in include if i in stands]
             if exclude is not None:
                 exclude = [stands.index(e) for e in exclude if e in stands]
                 
         # Merge include and exclude
-        to_keep = list(range(len(stands)))
+        to_keep = list({a for bl in self.baselines for a in bl})
         if include is not None:
             to_keep = include
         for e in exclude:
@@ -608,6 +608,6 @@ class VisibilityData(object):
         
         new_data = VisibilityData()
         for data_set in self:
-            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=True) )
+            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=indicies) )
         return new_data
         
-- 
2.43.0


From 445048e18ca69a0973ec6da975517c170cfddb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:54 +0000
Subject: [PATCH 36/59] fix: VisibilityData.extend skipped the checks of
 append, and integrations given as a tuple could not be added to

---
 lsl/imaging/data.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 89ecd3a..77ec7f0 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -401,7 +401,7 @@ class VisibilityData(object):
                     if not isinstance(d, VisibilityDataSet):
                         ### Is everybody in the list a VisibilityDataSet?
                         raise TypeError(f"Excepted element {i} to be a VisibilityDataSet object")
-                self._data = data
+                self._data = list(data)
             elif isinstance(data, VisibilityDataSet):
                 ## Do we have a single VisibilityDataSet?
                 self._data = [data,]
@@ -550,9 +550,7 @@ class VisibilityData(object):
         """
         
         for value in values:
-            if not isinstance(value, VisibilityDataSet):
-                raise TypeError("Expected type to be VisibilityDataSet")
-            self._data.append(value)
+            self.append(value)
             
     def pop(self, index=-1):
         """
-- 
2.43.0


From e5f4067881578e7ce885e10d2f40c2f664e6eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:54 +0000
Subject: [PATCH 37/59] fix: scale_data used the baselines of the first
 integration for all

---
 lsl/sim/vis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index 4cfe24c..1f24a6f 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1204,7 +1204,7 @@ def scale_data(dataSet, amps, delays, phase_offsets=None):
     for pds in sclData:
         if isinstance(pds, VisibilityDataSet):
             for ppds in pds:
-                for b,(i,j) in enumerate(sclData.baselines):
+                for b,(i,j) in enumerate(pds.baselines):
                     ppds.data[b,:] *= cGains[j].conj()*cGains[i] 
         else:
             for b,(i,j) in enumerate(sclData.baselines):
-- 
2.43.0


From a13e4fed66c1741735aad42f044f01bffea6f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:19 +0000
Subject: [PATCH 38/59] fix: DRX and DRX8 reads failed for sample rates whose
 time tag step is not exact in floating point

---
 lsl/reader/ldp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index f132c53..abd4ecb 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -562,7 +562,7 @@ class DRXFile(LDPFileBase):
                 
         # Covert the sample rate to an expected timetag skip
         if getattr(self, "_timetagSkip", None) is None:
-            self._timetagSkip = int(4096 / self.description['sample_rate'] * fS)
+            self._timetagSkip = int(round(4096 / self.description['sample_rate'] * fS))
             
         # Setup the read_frame version to use
         drx_rf = drx.read_frame_ci8 if return_ci8 else drx.read_frame
@@ -1028,7 +1028,7 @@ class DRX8File(LDPFileBase):
                 
         # Covert the sample rate to an expected timetag skip
         if getattr(self, "_timetagSkip", None) is None:
-            self._timetagSkip = int(4096 / self.description['sample_rate'] * fS)
+            self._timetagSkip = int(round(4096 / self.description['sample_rate'] * fS))
             
         # Setup the read_frame version to use
         drx8_rf = drx8.read_frame_ci8 if return_ci8 else drx8.read_frame
-- 
2.43.0


From 09e333a120953b4692cf2cd556226bfc856b34c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:50 +0000
Subject: [PATCH 39/59] fix: zero-filling a gap raised IndexError at the end of
 a file

---
 lsl/reader/ldp.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index abd4ecb..34af06a 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -623,10 +623,7 @@ class DRXFile(LDPFileBase):
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
                             m = self._timetag[aStand] + self._timetagSkip*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
+                            baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
@@ -1089,10 +1086,7 @@ class DRX8File(LDPFileBase):
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
                             m = self._timetag[aStand] + self._timetagSkip*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
+                            baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
@@ -1758,10 +1752,7 @@ class TBXFile(LDPFileBase):
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
                             m = self._timetag + 8192*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
+                            baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
-- 
2.43.0


From 0f3477d7d7d9c004fd2e8526272926fba0ee1835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:50 +0000
Subject: [PATCH 40/59] fix: gaps in DRX and DRX8 files without tuning 1, X
 polarization, were not zero-filled

---
 lsl/reader/ldp.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 34af06a..2612192 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -613,16 +613,16 @@ class DRXFile(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
-                if self._timetag[aStand] == 0:
+                lTimetag = max(self._timetag.values())
+                if lTimetag == 0:
                     pass
-                elif cTimetag != self._timetag[aStand]+self._timetagSkip:
-                    missing = (cTimetag - self._timetag[aStand] - self._timetagSkip) / float(self._timetagSkip)
+                elif cTimetag != lTimetag+self._timetagSkip:
+                    missing = (cTimetag - lTimetag - self._timetagSkip) / float(self._timetagSkip)
                     if int(missing) == missing and missing < LDP_CONFIG.get('drx_autofill_size'):
                         LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
-                            m = self._timetag[aStand] + self._timetagSkip*(m+1)
+                            m = lTimetag + self._timetagSkip*(m+1)
                             baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
@@ -1076,16 +1076,16 @@ class DRX8File(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
-                if self._timetag[aStand] == 0:
+                lTimetag = max(self._timetag.values())
+                if lTimetag == 0:
                     pass
-                elif cTimetag != self._timetag[aStand]+self._timetagSkip:
-                    missing = (cTimetag - self._timetag[aStand] - self._timetagSkip) / float(self._timetagSkip)
+                elif cTimetag != lTimetag+self._timetagSkip:
+                    missing = (cTimetag - lTimetag - self._timetagSkip) / float(self._timetagSkip)
                     if int(missing) == missing and missing < LDP_CONFIG.get('drx_autofill_size'):
                         LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
-                            m = self._timetag[aStand] + self._timetagSkip*(m+1)
+                            m = lTimetag + self._timetagSkip*(m+1)
                             baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
-- 
2.43.0


From f9f4e3659689a166f61dd6039afef9659ea90197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:01 +0000
Subject: [PATCH 41/59] fix: gaps near the end of DRX, DRX8 and TBX files were
 not zero-filled

---
 lsl/reader/ldp.py | 128 +++++-----------------------------------------
 1 file changed, 12 insertions(+), 116 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 2612192..de7321c 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -590,10 +590,10 @@ class DRXFile(LDPFileBase):
         eofFound = False
         count = {0:0, 1:0, 2:0, 3:0}
         while True:
-            if eofFound or nFrameSets == frame_count:
+            if nFrameSets == frame_count or (eofFound and self.buffer.is_empty()):
                 break
                 
-            if not self.buffer.overfilled:
+            if not eofFound and not self.buffer.overfilled:
                 cFrames = deque()
                 for i in range(self.description['nbeampol']):
                     try:
@@ -607,7 +607,7 @@ class DRXFile(LDPFileBase):
                         continue
                 self.buffer.append(cFrames)
                 
-            cTimetag = self.buffer.peek()
+            cTimetag = self.buffer.peek(require_filled=not eofFound)
             if cTimetag is None:
                 # Continue adding frames if nothing comes out.
                 continue
@@ -627,7 +627,7 @@ class DRXFile(LDPFileBase):
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
-            cFrames = self.buffer.get()
+            cFrames = self.buffer.get(self.buffer.peek(require_filled=not eofFound))
             
             # If something comes out, add it to the data array
             for cFrame in cFrames:
@@ -656,39 +656,6 @@ class DRXFile(LDPFileBase):
                 self._timetag[aStand] = cTimetag
             nFrameSets += 1
             
-        # If we've hit the end of the file and haven't read in enough frames, 
-        # flush the buffer
-        if eofFound and nFrameSets != frame_count:
-            for cFrames in self.buffer.flush():
-                for cFrame in cFrames:
-                    b,t,p = cFrame.id
-                    aStand = 2*(t-1) + p
-                    cTimetag = cFrame.payload.timetag
-                    if self._timetag[aStand] == 0:
-                        self._timetag[aStand] = cTimetag - self._timetagSkip
-                    if cTimetag != self._timetag[aStand]+self._timetagSkip:
-                        actStep = cTimetag - self._timetag[aStand]
-                        if self.ignore_timetag_errors:
-                            if not warned_timetag:
-                                LSL_LOGGER.warning(f"Invalid timetag skip encountered, expected {self._timetagSkip} on tuning {t}, pol {p}, but found {actStep}")
-                                warned_timetag = True
-                        else:
-                            raise RuntimeError(f"Invalid timetag skip encountered, expected {self._timetagSkip} on tuning {t}, pol {p}, but found {actStep}")
-                            
-                    if setTime is None:
-                        if time_in_samples:
-                            setTime = cFrame.payload.timetag - cFrame.header.time_offset
-                        else:
-                            setTime = cFrame.time
-                            
-                    data_view[aStand, count[aStand]*4096:(count[aStand]+1)*4096] = cFrame.payload.data.view(data_view.dtype)
-                    count[aStand] +=  1
-                    self._timetag[aStand] = cTimetag
-                nFrameSets += 1
-                
-                if nFrameSets == frame_count:
-                    break
-                    
         # Adjust the duration to account for all of the things that could 
         # have gone wrong while reading the data
         duration = nFrameSets * 4096 / self.description['sample_rate']
@@ -1053,10 +1020,10 @@ class DRX8File(LDPFileBase):
         eofFound = False
         count = {0:0, 1:0, 2:0, 3:0}
         while True:
-            if eofFound or nFrameSets == frame_count:
+            if nFrameSets == frame_count or (eofFound and self.buffer.is_empty()):
                 break
                 
-            if not self.buffer.overfilled:
+            if not eofFound and not self.buffer.overfilled:
                 cFrames = deque()
                 for i in range(self.description['nbeampol']):
                     try:
@@ -1070,7 +1037,7 @@ class DRX8File(LDPFileBase):
                         continue
                 self.buffer.append(cFrames)
                 
-            cTimetag = self.buffer.peek()
+            cTimetag = self.buffer.peek(require_filled=not eofFound)
             if cTimetag is None:
                 # Continue adding frames if nothing comes out.
                 continue
@@ -1090,7 +1057,7 @@ class DRX8File(LDPFileBase):
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
-            cFrames = self.buffer.get()
+            cFrames = self.buffer.get(self.buffer.peek(require_filled=not eofFound))
             
             # If something comes out, add it to the data array
             for cFrame in cFrames:
@@ -1119,39 +1086,6 @@ class DRX8File(LDPFileBase):
                 self._timetag[aStand] = cTimetag
             nFrameSets += 1
             
-        # If we've hit the end of the file and haven't read in enough frames, 
-        # flush the buffer
-        if eofFound and nFrameSets != frame_count:
-            for cFrames in self.buffer.flush():
-                for cFrame in cFrames:
-                    b,t,p = cFrame.id
-                    aStand = 2*(t-1) + p
-                    cTimetag = cFrame.payload.timetag
-                    if self._timetag[aStand] == 0:
-                        self._timetag[aStand] = cTimetag - self._timetagSkip
-                    if cTimetag != self._timetag[aStand]+self._timetagSkip:
-                        actStep = cTimetag - self._timetag[aStand]
-                        if self.ignore_timetag_errors:
-                            if not warned_timetag:
-                                LSL_LOGGER.warning(f"Invalid timetag skip encountered, expected {self._timetagSkip} on tuning {t}, pol {p}, but found {actStep}")
-                                warned_timetag = True
-                        else:
-                            raise RuntimeError(f"Invalid timetag skip encountered, expected {self._timetagSkip} on tuning {t}, pol {p}, but found {actStep}")
-                            
-                    if setTime is None:
-                        if time_in_samples:
-                            setTime = cFrame.payload.timetag - cFrame.header.time_offset
-                        else:
-                            setTime = cFrame.time
-                            
-                    data_view[aStand, count[aStand]*4096:(count[aStand]+1)*4096] = cFrame.payload.data.view(data_view.dtype)
-                    count[aStand] +=  1
-                    self._timetag[aStand] = cTimetag
-                nFrameSets += 1
-                
-                if nFrameSets == frame_count:
-                    break
-                    
         # Adjust the duration to account for all of the things that could 
         # have gone wrong while reading the data
         duration = nFrameSets * 4096 / self.description['sample_rate']
@@ -1707,10 +1641,10 @@ class TBXFile(LDPFileBase):
 
         nSkip = 0
         while True:
-            if eofFound or nFrameSets == frame_count:
+            if nFrameSets == frame_count or (eofFound and self.buffer.is_empty()):
                 break
                 
-            if not self.buffer.overfilled:
+            if not eofFound and not self.buffer.overfilled:
                 cFrames = deque()
                 for i in range(framesPerObs):
                     try:
@@ -1736,7 +1670,7 @@ class TBXFile(LDPFileBase):
                         continue
                 self.buffer.append(cFrames)
                 
-            cTimetag = self.buffer.peek()
+            cTimetag = self.buffer.peek(require_filled=not eofFound)
             if cTimetag is None:
                 # Continue adding frames if nothing comes out.
                 continue
@@ -1756,7 +1690,7 @@ class TBXFile(LDPFileBase):
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
                             self.buffer.append(baseframe)
-            cFrames = self.buffer.get()
+            cFrames = self.buffer.get(self.buffer.peek(require_filled=not eofFound))
             
             # Continue adding frames if nothing comes out.
             if cFrames is None:
@@ -1794,44 +1728,6 @@ class TBXFile(LDPFileBase):
                 count[aStand] += 1
             nFrameSets += 1
             
-        # If we've hit the end of the file and haven't read in enough frames, 
-        # flush the buffer
-        if eofFound and nFrameSets != frame_count:
-            for cFrames in self.buffer.flush():
-                cTimetag = cFrames[0].payload.timetag
-                if self._timetag == 0:
-                    self._timetag = cTimetag - timetagSkip
-                if cTimetag != self._timetag+timetagSkip:
-                    actStep = cTimetag - self._timetag
-                    if self.ignore_timetag_errors:
-                        if not warned_timetag:
-                            LSL_LOGGER.warning(f"Invalid timetag skip encountered, expected {timetagSkip}, but found {actStep}")
-                            warned_timetag = True
-                    else:
-                        raise RuntimeError(f"Invalid timetag skip encountered, expected {timetagSkip}, but found {actStep}")
-                self._timetag = cFrames[0].payload.timetag
-                
-                for cFrame in cFrames:
-                    first_chan = cFrame.header.first_chan
-                    
-                    if setTime is None:
-                        if time_in_samples:
-                            setTime = cFrame.payload.timetag
-                        else:
-                            setTime = cFrame.time
-                        
-                    subData = cFrame.payload.data
-                    subData = subData.reshape(self.description['frame_channel_count'],-1)
-                    subData = subData.T
-                    
-                    aStand = self.mapper.index(first_chan)
-                    data_view[:,aStand*self.description['frame_channel_count']:(aStand+1)*self.description['frame_channel_count'],count[aStand]] = subData.view(data_view.dtype)
-                    count[aStand] += 1
-                nFrameSets += 1
-                
-                if nFrameSets == frame_count:
-                    break
-                    
         # Sanity check at the end to see if we actually read anything.  
         if nFrameSets == 0 and duration > 0:
             raise errors.EOFError()
-- 
2.43.0


From c02796a9eaa5f390723dfb8ee13dcb9ca794e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:35 +0000
Subject: [PATCH 42/59] fix: TBX files with gaps between their blocks of
 channels could not be opened

---
 lsl/reader/ldp.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index de7321c..bb82033 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1482,16 +1482,13 @@ class TBXFile(LDPFileBase):
             self.mapper = tbx.get_first_channel(self.fh, all_frames=True)
             
             # Check for contiguous frequency coverage
+            channel_count = junkFrame.header.nchan
             if len(self.mapper) > 1:
                 chan_steps = np.diff(self.mapper)
-                channel_count = int(np.round(np.median(chan_steps)))
                 if not all(chan_steps == channel_count):
                     bad_steps = np.where(chan_steps != channel_count)[0]
                     LSL_LOGGER.warning(f"File appears to contain {len(bad_steps)} frequency gap(s) of size {','.join([str(chan_steps[g]) for g in bad_steps])} channels")
-            else:
-                ## Must be TBS
-                channel_count = junkFrame.payload.data.shape[0]
-                
+                    
             # Find the "real" starttime
             while junkFrame.header.frame_count != firstFrameCount:
                 junkFrame = tbx.read_frame(self.fh)
-- 
2.43.0


From 5d123ff7ff5a1c3dbb3a01536e1c3e17f019cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:35 +0000
Subject: [PATCH 43/59] fix: TBX reads after an offset came back short or
 failed

---
 lsl/reader/ldp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index bb82033..71c1b8e 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1614,7 +1614,7 @@ class TBXFile(LDPFileBase):
             
         # Find out how many frames to read in... but make sure we don't read too much
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count']
-        remaining_count = self.description['nframe'] - self.fh.tell() // self.description['frame_size']
+        remaining_count = self.get_remaining_frame_count()
         max_frame_count = remaining_count // framesPerObs + len(self.buffer.buffer.keys())
         if duration is None:
             duration = max_frame_count / self.description['sample_rate']
-- 
2.43.0


From 575ec916ecda855f5411d2e725b3fd96de88947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:35 +0000
Subject: [PATCH 44/59] fix: gaps in TBX data with a time tag step other than
 8192 were not zero-filled

---
 lsl/reader/ldp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 71c1b8e..8f3596b 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1676,13 +1676,13 @@ class TBXFile(LDPFileBase):
                 aStand = 0
                 if self._timetag == 0:
                     pass
-                elif cTimetag != self._timetag + 8192:
-                    missing = (cTimetag - self._timetag - 8192) / float(8192)
+                elif cTimetag != self._timetag + timetagSkip:
+                    missing = (cTimetag - self._timetag - timetagSkip) / float(timetagSkip)
                     if int(missing) == missing and missing < LDP_CONFIG.get('tbx_autofill_size'):
                         LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
-                            m = self._timetag + 8192*(m+1)
+                            m = self._timetag + timetagSkip*(m+1)
                             baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
                             baseframe.payload.timetag = m
                             baseframe.payload._data[...] = 0
-- 
2.43.0


From 52849ff7035e89b6cbbea75a0a3c3648a0a9dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:35 +0000
Subject: [PATCH 45/59] fix: TBX and COR offsets after a read ignored the
 frames waiting in the buffer, and COR offsets always failed

---
 lsl/reader/ldp.py | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 8f3596b..e148c16 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1518,21 +1518,11 @@ class TBXFile(LDPFileBase):
         frame_size = self.description['frame_size']
         
         # Find out where we really are taking into account the buffering
-        buffer_offset = 0
-        if getattr(self, "_timetag", None) is not None:
-            curr = self.buffer.peek(require_filled=False)
-            if curr is None:
-                frame = tbx.read_frame(self.fh)
-                self.fh.seek(-frame_size, 1)
-                curr = frame.payload.time_tag
-            buffer_offset = curr - self._timetag
-            buffer_offset = buffer_offset / fS
-            
-        offset = offset - buffer_offset
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count']
         frameOffset = int(offset * self.description['sample_rate'] * framesPerObs)
         frameOffset = int(1.0 * frameOffset / framesPerObs) * framesPerObs
-        self.fh.seek(frameOffset*frame_size, 1)
+        bufferOffset = len(self.buffer.buffer) * framesPerObs
+        self.fh.seek((frameOffset - bufferOffset)*frame_size, 1)
         
         # Update the file metadata
         self._describe_file()
@@ -1863,21 +1853,11 @@ class CORFile(LDPFileBase):
         """
         
         # Find out where we really are taking into account the buffering
-        buffer_offset = 0
-        if getattr(self, "_timetag", None) is not None:
-            curr = self.buffer.peek(require_filled=False)
-            if curr is None:
-                frame = cor.read_frame(self.fh)
-                self.fh.seek(-cor.FRAME_SIZE, 1)
-                curr = frame.payload.time_tag
-            buffer_offset = curr - self._timetag
-            buffer_offset = buffer_offset / fS
-            
-        offset = offset - buffer_offset
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         frameOffset = int(offset / self.description['tint'] * framesPerObs)
         frameOffset = int(1.0 * frameOffset / framesPerObs) * framesPerObs
-        self.fh.seek(frameOffset*cor.FRAME_SIZE, 1)
+        bufferOffset = len(self.buffer.buffer) * framesPerObs
+        self.fh.seek((frameOffset - bufferOffset)*self.description['frame_size'], 1)
         
         # Update the file metadata
         self._describe_file()
-- 
2.43.0


From 5d6128fad85fd7844a8179a951faf6a8f131b295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:35 +0000
Subject: [PATCH 46/59] fix: DR spectrometer reads at a truncated last frame
 returned zeros without a time

---
 lsl/reader/ldp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index e148c16..3c0eece 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1347,6 +1347,8 @@ class DRSpecFile(LDPFileBase):
             try:
                 cFrame = drspec.read_frame(self.fh)
             except errors.EOFError:
+                if nFrameSets == 0:
+                    raise
                 break
             except errors.SyncError:
                 continue
-- 
2.43.0


From b4e7c54e3c8ca3991d2c5fcb5a47d96fd618291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:35 +0000
Subject: [PATCH 47/59] fix: CORFile.read() of a whole file failed

---
 lsl/reader/ldp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 3c0eece..474cd87 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1924,10 +1924,10 @@ class CORFile(LDPFileBase):
             self._timetag = 0
             
         # Find out how many frames to read in
+        framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         if duration is None:
             duration = self.description['nframe'] / framesPerObs * self.description['tint']
             LSL_LOGGER.debug(f"Requested duration is None, loading {duration:.1f} s of data")
-        framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         frame_count = int(round(1.0 * duration / self.description['tint']))
         frame_count = frame_count if frame_count else 1
         duration = frame_count * self.description['tint']
-- 
2.43.0


From edc2ed5213a662c28465fa1eb93e158f2de6bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:07 +0000
Subject: [PATCH 48/59] fix: astro: angles to degrees/hours, minutes, seconds
 were off by a minute or more

The parts were rounded separately, e.g. 1.0833333333333333 degrees came back as
1 degree, 5 minutes, 59.999 seconds.
---
 lsl/astro.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 20fade9..81fb78f 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1768,11 +1768,12 @@ def _float_to_sexa(value):
         sgn = -1.0
         value *= -1
         
-    d = int(value)
-    m = int(value * 60) % 60
-    s = (value * 3600.0) % 60.0
+    # Take the minutes and seconds from the same number so that they are always
+    # consistent with each other
+    d, s = divmod(value * 3600.0, 3600.0)
+    m, s = divmod(s, 60.0)
     
-    return sgn, d, m, s
+    return sgn, int(d), int(m), s
 
 
 def deg_to_dms(degrees):
-- 
2.43.0


From 12719ca7c041c993bd5a462fd791b38756710c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:07 +0000
Subject: [PATCH 49/59] fix: astro: deg_to_hms() dropped the sign and failed
 beyond 360 degrees

add_secs_hms() and += on hms objects rely on this to wrap at 24 hours.
---
 lsl/astro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 81fb78f..6f49229 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1846,8 +1846,8 @@ def deg_to_hms(degrees):
     Returns object of type hms representing angle.
     """
     
-    sgn,h,m,s = _float_to_sexa(degrees / 15.0)
-    return hms(h, m, s)
+    sgn,h,m,s = _float_to_sexa(range_degrees(degrees) / 15.0)
+    return hms(h % 24, m, s)
 
 
 def rad_to_hms(radians):
-- 
2.43.0


From cf607b202e746b84611e74eef3775b115b344c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:07 +0000
Subject: [PATCH 50/59] fix: astro: add_hms() never updated the hours

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 6f49229..25f7f3d 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1893,7 +1893,7 @@ def add_hms(source, dest):
     degrees1 += degrees2
     _hms = deg_to_hms(degrees1)
     
-    dest.degrees = 1*_hms.hours
+    dest.hours = 1*_hms.hours
     dest.minutes = 1*_hms.minutes
     dest.seconds = 1*_hms.seconds
     
-- 
2.43.0


From ec209897ed8eeb5776c50c08d186e9af4316bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:07 +0000
Subject: [PATCH 51/59] fix: astro: date_to_zonedate() added a second to times
 within 0.5 ms of the next second

The string form of the date is rounded to ms, so the fraction was added twice.
---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 25f7f3d..75abb54 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1669,7 +1669,7 @@ def date_to_zonedate(date, gmtoff):
     Returns object of type zonedate representing local time.
     """
     
-    t0 = time.strptime(str(date), "%Y-%m-%d %H:%M:%S.%f")
+    t0 = (date.years, date.months, date.days, date.hours, date.minutes, int(date.seconds))
     fracSec = date.seconds - int(date.seconds)
     t1 = timegm(t0) + gmtoff
     years, months, days, hours, minutes, seconds, wday, yday, dst = time.gmtime(t1)
-- 
2.43.0


From 208454ebc0790afaf9676822ae87f1266da1ea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:07 +0000
Subject: [PATCH 52/59] fix: astro: zonedate_to_date() added a second to times
 within 0.5 ms of the next second

---
 lsl/astro.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 75abb54..5e34c1e 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1694,8 +1694,7 @@ def zonedate_to_date(zonedate):
     Returns object of type date representing UTC time.
     """
     
-    t0, junk = str(zonedate).rsplit(None, 1)
-    t0 = time.strptime(t0, "%Y-%m-%d %H:%M:%S.%f")
+    t0 = (zonedate.years, zonedate.months, zonedate.days, zonedate.hours, zonedate.minutes, int(zonedate.seconds))
     fracSec = zonedate.seconds - int(zonedate.seconds)
     t1 = timegm(t0) - zonedate.gmtoff
     years, months, days, hours, minutes, seconds, wday, yday, dst = time.gmtime(t1)
-- 
2.43.0


From 168c7333e6a12837f43bdf2f66a9a90bb4da2c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:08 +0000
Subject: [PATCH 53/59] fix: astro: get_day_of_week() gave the previous day at
 midnight of every other day

---
 lsl/astro.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 5e34c1e..cc5bce6 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1995,8 +1995,7 @@ def get_day_of_week(date):
     Returns day of week (0 = Sunday, 6 = Saturday).
     """
     
-    jd = date.to_jd()
-    return (int(round(jd)) + 1) % 7
+    return datetime(date.years, date.months, date.days).isoweekday() % 7
 
 
 def get_julian_from_sys():
-- 
2.43.0


From a94e6993a2abfd0cfe59b9823e43a431d9f87a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:08 +0000
Subject: [PATCH 54/59] fix: astro: tt_to_tdb() took its argument for TAI, 32 s
 off

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index cc5bce6..62fd488 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -3128,7 +3128,7 @@ def tt_to_tdb(ttJD):
     Returns: The TDB JD value (float).
     """    
     
-    t = AstroTime(ttJD, format='jd', scale='tai')
+    t = AstroTime(ttJD, format='jd', scale='tt')
     return t.tdb.jd  
 
 
-- 
2.43.0


From c032777d61bfefe6f08be5a6e39ff71035b59afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:08 +0000
Subject: [PATCH 55/59] fix: astro: date.load() raised NameError for seconds
 out of range

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 62fd488..2546978 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -481,7 +481,7 @@ class date(object):
         except ValueError:
             raise ValueError(f"seconds incorrectly formatted: {secondStr}")
         if second < 0.0 or second >= 60.0:
-            raise ValueError(f"seconds parameter range is [0.0, 60.0), is set to {seconds:0.3f}")
+            raise ValueError(f"seconds parameter range is [0.0, 60.0), is set to {second:0.3f}")
             
         # set attributes
         self.years = year
-- 
2.43.0


From e4c824628cb36de4d2753c14bd6490e910c5f72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:08 +0000
Subject: [PATCH 56/59] fix: astro: get_angular_separation() and
 get_rel_posn_angle() failed for positions that are not from astropy

---
 lsl/astro.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 2546978..efe0cb3 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2269,11 +2269,11 @@ def get_angular_separation(posn1, posn2):
     sc1 = posn1.astropy
     if sc1 is None:
         sc1 = SkyCoord(posn1.ra*astrounits.deg, posn1.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
     sc2 = posn2.astropy
     if sc2 is None:
         sc2 = SkyCoord(posn2.ra*astrounits.deg, posn2.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
         
     sep = sc1.separation(sc2)
     
@@ -2293,11 +2293,11 @@ def get_rel_posn_angle(posn1, posn2):
     sc1 = posn1.astropy
     if sc1 is None:
         sc1 = SkyCoord(posn1.ra*astrounits.deg, posn1.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
     sc2 = posn2.astropy
     if sc2 is None:
         sc2 = SkyCoord(posn2.ra*astrounits.deg, posn2.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
         
     pa = sc1.position_angle(sc2)
     
-- 
2.43.0


From 4f1edc843b11cc21302e1dd0aa2147d20a3b9a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:08 +0000
Subject: [PATCH 57/59] fix: astro: get_apparent_posn() scaled the proper
 motion in RA with the cosine of the proper motion in declination

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index efe0cb3..5a94983 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2337,7 +2337,7 @@ def get_apparent_posn(mean_position, jD, proper_motion = None):
     sc = mean_position.astropy
     if sc is None:
         sc = SkyCoord(mean_position.ra*astrounits.deg, mean_position.dec*astrounits.deg,
-                      pm_ra_cosdec=proper_motion[0]*math.cos(proper_motion[1]/1000/3600*math.pi/180)*astrounits.mas/astrounits.yr,
+                      pm_ra_cosdec=proper_motion[0]*math.cos(deg_to_rad(mean_position.dec))*astrounits.mas/astrounits.yr,
                       pm_dec= proper_motion[1]*astrounits.mas/astrounits.yr,
                       frame='fk5', equinox='J2000')
     sc = sc.transform_to(PrecessedGeocentric(equinox=t, obstime=t))
-- 
2.43.0


From 9324d9e82043686930d809ec119ebdc27b8c1a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:20 +0000
Subject: [PATCH 58/59] fix: astro: leap_secs() gave fractions on days that end
 with a leap second

---
 lsl/astro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 5a94983..371f5ca 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2954,7 +2954,8 @@ def leap_secs(utcJD):
     if utcJD < FIRST_LEAP_UTC:
         raise ValueError(f"utcJD must be greater than {FIRST_LEAP_UTC}")
         
-    t = AstroTime(utcJD, format='jd', scale='utc')
+    # The number changes only at the end of a UTC day so use the start of the day.
+    t = AstroTime(math.floor(utcJD - 0.5) + 0.5, format='jd', scale='utc')
     diff_unix = t.unix
     diff_jd = (t - _UNIX_EPOCH_AT).sec
     return round(diff_jd - diff_unix, 1) + 8   # +8 for initial 10 s offset between TAI and UTC
-- 
2.43.0


From 15ec02e353e4969b9ca91985668cbee608f7e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:21 +0000
Subject: [PATCH 59/59] fix: astro: gal_posn kept a longitude given as a dms
 object instead of converting it to degrees

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 371f5ca..f247bac 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1212,7 +1212,7 @@ class gal_posn(object):
         if self.astropy is not None:
             raise RuntimeError("Cannot set l when this.astropy is not None")
             
-        if isinstance(value, hms):
+        if isinstance(value, (dms, hms)):
             value = value.to_deg()
         if value < -360.0 or value >= 360.0:
             raise ValueError(f"l parameter range is [-360.0, 360.0), is set to {value:0.3f}")
-- 
2.43.0

