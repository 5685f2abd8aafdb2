From e98f1fe7e525c412f42426d146c7c63a9c1a441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 01/20] fix: copy all complex data when an out-of-place FFT
 needs no initial remap

insize/outsize count complex datums, i.e. two FFT_SCALARs each, so only half
of the input was copied to the output array.
---
 src/fft2d.cpp | 12 ++++++------
 src/fft3d.cpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index e5fe4c7..108d44d 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -533,7 +533,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_fastslow) remap(data,data,remap_fastslow);
@@ -548,7 +548,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_slowfast) remap(data,data,remap_slowfast);
@@ -600,7 +600,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remap_fastslow) remap(data,data,remap_fastslow);
 
@@ -609,7 +609,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remap_slowfast) remap(data,data,remap_slowfast);
 
@@ -636,7 +636,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_fastslow) remap(in,out,remap_fastslow);
     } else if (which == 3) {
@@ -646,7 +646,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 3) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_slowfast) remap(in,out,remap_slowfast);
     } else if (which == 1) {
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index a643992..82d8cdb 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -567,7 +567,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_fastmid) remap(data,data,remap_fastmid);
@@ -585,7 +585,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_slowmid) remap(data,data,remap_slowmid);
@@ -641,7 +641,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remap_fastmid) remap(data,data,remap_fastmid);
     if (remap_midslow) remap(data,data,remap_midslow);
@@ -651,7 +651,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remap_slowmid) remap(data,data,remap_slowmid);
     if (remap_midfast) remap(data,data,remap_midfast);
@@ -679,7 +679,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_fastmid) remap(in,out,remap_fastmid);
     } else if (which == 3) {
@@ -691,7 +691,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 4) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     } else if (which == 3) {
       if (remap_slowmid) remap(in,out,remap_slowmid);
     } else if (which == 2) {
-- 
2.43.0


From f2e2786fa9ab2751a23b97d5689ad25c1a330065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 02/20] fix: final remap of an out-of-place inverse FFT must
 use the transformed data

The last remap of the inverse branch of compute() read the user's input array
instead of the data transformed so far.
---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 108d44d..135a0f2 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -558,7 +558,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 82d8cdb..d913b2a 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -598,7 +598,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
-- 
2.43.0


From 0a0dabfbe7953e787a2051417c1b076a22b353c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 03/20] fix: second stage of a two-stage remap must start from
 the first stage's output

With exchange = 1 and different in/out arrays the brick-to-pencil stage read
the original input instead of the bricks the first stage had produced.
---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 135a0f2..ed6b4dd 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1056,7 +1056,7 @@ void FFT2d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap2d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap2d_extra) 
-    remap->remap2d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap2d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index d913b2a..145174e 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1117,7 +1117,7 @@ void FFT3d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap3d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap3d_extra) 
-    remap->remap3d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap3d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From f1155ffd64537e38dcfe07e4b1af5cf26f35efd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:51 +0000
Subject: [PATCH 04/20] fix: scale all of an inverse FFT's result, which is in
 the input layout

A backward FFT leaves insize datums on a process, but outsize of them were
scaled: too few, or beyond the result, when the two sizes differ.
---
 src/fft2d.cpp | 4 ++--
 src/fft3d.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index ed6b4dd..d1921a2 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -411,7 +411,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   if (exchange) fftsize = MAX(fftsize,bricksize);
 
   // setup for 2 sets of 1d FFTs, also scaling normalization
-  // outsize must be already set for setup_ffts() to use to setup scaling
+  // insize must be already set, scaling is of inverse FFT results = input layout
   // norm must allow for nfast*nmid*nslow to exceed a 4-byte int (2B)
 
   fft_fast = new FFT1d;
@@ -428,7 +428,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 145174e..c8d8099 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -437,7 +437,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   if (exchange) fftsize = MAX(fftsize,bricksize);
 
   // setup for 3 sets of 1d FFTs, also scaling normalization
-  // outsize must be already set for setup_ffts() to use to setup scaling
+  // insize must be already set, scaling is of inverse FFT results = input layout
   // norm must allow for nfast*nmid*nslow to exceed a 4-byte int (2B)
 
   fft_fast = new FFT1d;
@@ -459,7 +459,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nmid*nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
-- 
2.43.0


From 6d5755adf795b38d3f47d19b4c951439ef0c1969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:22 +0000
Subject: [PATCH 05/20] fix: 2d memcpy pack/unpack must copy PACK_DATA-sized
 values

With single precision twice the data was copied, overrunning the buffers.
---
 src/pack2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack2d.h b/src/pack2d.h
index d296efc..433d0ef 100644
--- a/src/pack2d.h
+++ b/src/pack2d.h
@@ -322,7 +322,7 @@ static void pack_2d_memcpy(PACK_DATA *data, PACK_DATA *buf,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(buf[slow*nfast]);
     out = &(data[slow*nstride]);
@@ -346,7 +346,7 @@ static void unpack_2d_memcpy(PACK_DATA *buf, PACK_DATA *data,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(data[slow*nstride]);
     out = &(buf[slow*nfast]);
-- 
2.43.0


From ed02494c21692eb4b5ded3091220ad3fbf9cf80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:22 +0000
Subject: [PATCH 06/20] fix: a Remap that was never set up can be destroyed

The destructor frees a communicator, arrays and buffers whose handles were
only initialized by setup().
---
 src/remap2d.cpp | 6 ++++++
 src/remap3d.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 92028f2..189f1e3 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -90,7 +90,13 @@ Remap2d::Remap2d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  newcomm = MPI_COMM_NULL;
+  pgroup = NULL;
+  sendcnts = recvcnts = senddispls = recvdispls = NULL;
+  sendmap = recvmap = NULL;
+
   memusage = 0;
+  memoryflag = 0;
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 948056e..21d010d 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -90,7 +90,13 @@ Remap3d::Remap3d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  newcomm = MPI_COMM_NULL;
+  pgroup = NULL;
+  sendcnts = recvcnts = senddispls = recvdispls = NULL;
+  sendmap = recvmap = NULL;
+
   memusage = 0;
+  memoryflag = 0;
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
-- 
2.43.0


From 0a9812f0c2c810d78a6aad5801ec2155c1caee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:42 +0000
Subject: [PATCH 07/20] fix: a 2d FFT that was never set up can be destroyed

The destructor dereferenced the 1d FFT plans, which are NULL before setup().
Do the same as the 3d FFT.
---
 src/fft2d.cpp | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index d1921a2..0e814e7 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -183,24 +183,8 @@ FFT2d::~FFT2d()
   delete [] primes;
   delete [] factors;
 
-  deallocate_remap(remap_prefast);
-  deallocate_remap(remap_fastslow);
-  deallocate_remap(remap_postslow);
-
-  deallocate_remap(remap_preslow);
-  deallocate_remap(remap_slowfast);
-  deallocate_remap(remap_postfast);
-
-  deallocate_ffts();
-  delete fft_fast;
-  delete fft_slow;
-
-  // only deallocated send/recv bufs if allocated internally
-
-  if (memoryflag) {
-    memory->sfree(sendbuf);
-    memory->sfree(recvbuf);
-  }
+  if (setupflag) deallocate_setup();
+  if (memoryflag) deallocate_setup_memory();
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From 142754cc75ffe050efcba8d7fe7985d506306244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:42 +0000
Subject: [PATCH 08/20] fix: reject a second setup() of a 2d FFT as for a 3d
 FFT

The plans, remaps and buffers of the first setup were leaked.
---
 src/fft2d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 0e814e7..efb5d51 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -218,6 +218,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
 {
   int flag,allflag;
 
+  if (setupflag) error->all("FFT is already setup");
   setupflag = 1;
 
   // internal copies of input params
-- 
2.43.0


From 7eeead31f6a8fc610353837862995afa791d7fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:42 +0000
Subject: [PATCH 09/20] fix: initialize tuning results of a 2d FFT as for a 3d
 FFT

They can be queried before tune() and were uninitialized.
---
 src/fft2d.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index efb5d51..fcca454 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -130,6 +130,12 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
   scaled = 1;
   remaponly = 0;
 
+  // tuning results
+
+  ntrial = npertrial = 0;
+  cbest = ebest = pbest = -1;
+  besttime = 0.0;
+
   // Memory and Error classes
 
   memory = new Memory();
-- 
2.43.0


From eb0b2613d21510f293c6865e175956c6b8929e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 10/20] fix: count the last inverse remap stage in the reported
 buffer sizes

With exchange = 1 the brick to fast-pencil remap of the inverse FFT was left
out of sendsize/recvsize, so its messages could overrun the buffers.
---
 src/fft3d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index c8d8099..5216bf1 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1372,6 +1372,8 @@ void FFT3d::remap_inverse_create(int &sendsize, int &recvsize)
       setup(brick_jlo,brick_jhi,brick_klo,brick_khi,brick_ilo,brick_ihi,
             fast_jlo,fast_jhi,fast_klo,fast_khi,fast_ilo,fast_ihi,
             2,2,0,ssize,rsize);
+    sendsize = MAX(sendsize,ssize);
+    recvsize = MAX(recvsize,rsize);
   }
 
   // remap uses I=fast, J=mid, K=slow, b/c current permute=0
-- 
2.43.0


From 82e5e1034626710eb809f96bf9dc24f6a2da837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:42 +0000
Subject: [PATCH 11/20] fix: a single remap stage that needs no communication
 must still fill a different output array

---
 src/fft2d.cpp | 2 ++
 src/fft3d.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index fcca454..b7507e4 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -632,6 +632,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_fastslow) remap(in,out,remap_fastslow);
     } else if (which == 3) {
       if (remap_postslow) remap(in,out,remap_postslow);
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     }
 
   } else {
@@ -642,6 +643,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_slowfast) remap(in,out,remap_slowfast);
     } else if (which == 1) {
       if (remap_postfast) remap(in,out,remap_postfast);
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     }
   }
 }
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 5216bf1..7bd0321 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -686,6 +686,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_midslow) remap(in,out,remap_midslow);
     } else if (which == 4) {
       if (remap_postslow) remap(in,out,remap_postslow);
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     }
 
   } else {
@@ -698,6 +699,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_midfast) remap(in,out,remap_midfast);
     } else if (which == 1) {
       if (remap_postfast) remap(in,out,remap_postfast);
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     }
   }
 }
-- 
2.43.0


From ae170dce19e11517a72b60bdb6f7c11b63cca662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:10 +0000
Subject: [PATCH 12/20] fix: all processes must choose the same settings when
 tuning, whatever times they measure

---
 src/fft2d.cpp | 4 ++++
 src/fft3d.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index b7507e4..6e2ea6b 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -981,6 +981,10 @@ void FFT2d::tune_trial(FFT_SCALAR *data, int nper, int flag, int tflag,
   time2 = MPI_Wtime();
   time2d = time2-time1;
 
+  // insure all procs use exact same time to choose best settings
+
+  MPI_Bcast(&time2d,1,MPI_DOUBLE,0,world);
+
   if (tflag) {
     if (flag)
       for (int i = 0; i < nper; i++)
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 7bd0321..8f35dbe 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1049,6 +1049,10 @@ void FFT3d::tune_trial(FFT_SCALAR *data, int nper, int flag, int tflag,
   time2 = MPI_Wtime();
   time3d = time2-time1;
 
+  // insure all procs use exact same time to choose best settings
+
+  MPI_Bcast(&time3d,1,MPI_DOUBLE,0,world);
+
   if (tflag) {
     if (flag)
       for (int i = 0; i < nper; i++)
-- 
2.43.0


From cb661b47466cc4c10cbbce8474070d778510c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:48 +0000
Subject: [PATCH 13/20] fix: limit tuning time without dividing by a zero or
 tiny FFT time

---
 src/fft2d.cpp | 11 ++++++++---
 src/fft3d.cpp | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 6e2ea6b..724ed68 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -750,11 +750,16 @@ void FFT2d::tune(int user_nfast, int user_nslow,
   else timetotal = nruns * (timesetup + niter*timefft);
 
   if (tmax > 0.0 && timetotal > tmax) {
-    if (tflag) niter = static_cast<int> ((tmax/nruns-timesetup) / timefft/3);
-    else niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
+    // if setup alone takes too long, no time is left for FFTs
+    // b/c timefft may be tiny or 0.0, dividing by it could overflow
+
+    double timeleft = tmax/nruns - timesetup;
+    if (timeleft <= 0.0) niter = 0;
+    else if (tflag) niter = static_cast<int> (timeleft / timefft/3);
+    else niter = static_cast<int> (timeleft / timefft);
     if (niter <= 0) {
       tflag = 0;
-      niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
+      if (timeleft > 0.0) niter = static_cast<int> (timeleft / timefft);
       if (niter <= 0) {
         niter = 1;
         nruns = static_cast<int> (tmax/(timesetup+timefft));
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 8f35dbe..af55018 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -808,11 +808,16 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
   else timetotal = nruns * (timesetup + niter*timefft);
 
   if (tmax > 0.0 && timetotal > tmax) {
-    if (tflag) niter = static_cast<int> ((tmax/nruns-timesetup) / timefft/3);
-    else niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
+    // if setup alone takes too long, no time is left for FFTs
+    // b/c timefft may be tiny or 0.0, dividing by it could overflow
+
+    double timeleft = tmax/nruns - timesetup;
+    if (timeleft <= 0.0) niter = 0;
+    else if (tflag) niter = static_cast<int> (timeleft / timefft/3);
+    else niter = static_cast<int> (timeleft / timefft);
     if (niter <= 0) {
       tflag = 0;
-      niter = static_cast<int> ((tmax/nruns-timesetup) / timefft);
+      if (timeleft > 0.0) niter = static_cast<int> (timeleft / timefft);
       if (niter <= 0) {
         niter = 1;
         nruns = static_cast<int> (tmax/(timesetup+timefft));
-- 
2.43.0


From 45436c8a9797665ab84eb2326d92e96641101417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:44 +0000
Subject: [PATCH 14/20] fix: limiting the tuning time must not increase the
 number of FFTs per trial

---
 src/fft2d.cpp | 2 ++
 src/fft3d.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 724ed68..2d8c98b 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -754,12 +754,14 @@ void FFT2d::tune(int user_nfast, int user_nslow,
     // b/c timefft may be tiny or 0.0, dividing by it could overflow
 
     double timeleft = tmax/nruns - timesetup;
+    int niter_user = niter;
     if (timeleft <= 0.0) niter = 0;
     else if (tflag) niter = static_cast<int> (timeleft / timefft/3);
     else niter = static_cast<int> (timeleft / timefft);
     if (niter <= 0) {
       tflag = 0;
       if (timeleft > 0.0) niter = static_cast<int> (timeleft / timefft);
+      if (niter > niter_user) niter = niter_user;
       if (niter <= 0) {
         niter = 1;
         nruns = static_cast<int> (tmax/(timesetup+timefft));
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index af55018..2cde90e 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -812,12 +812,14 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
     // b/c timefft may be tiny or 0.0, dividing by it could overflow
 
     double timeleft = tmax/nruns - timesetup;
+    int niter_user = niter;
     if (timeleft <= 0.0) niter = 0;
     else if (tflag) niter = static_cast<int> (timeleft / timefft/3);
     else niter = static_cast<int> (timeleft / timefft);
     if (niter <= 0) {
       tflag = 0;
       if (timeleft > 0.0) niter = static_cast<int> (timeleft / timefft);
+      if (niter > niter_user) niter = niter_user;
       if (niter <= 0) {
         niter = 1;
         nruns = static_cast<int> (tmax/(timesetup+timefft));
-- 
2.43.0


From 0c5a177fce5145155445a20b654945700f7f15d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:07 +0000
Subject: [PATCH 15/20] fix: compute internal tile bounds without integer
 overflow for large grids on many processes

---
 src/fft2d.cpp | 16 ++++++++--------
 src/fft3d.cpp | 36 ++++++++++++++++++------------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 2d8c98b..7a59792 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -328,8 +328,8 @@ void FFT2d::setup(int user_nfast, int user_nslow,
     remap_preflag = 1;
     fast_ilo = 0;
     fast_ihi = nfast - 1;
-    fast_jlo = ipfast2*nslow/npfast2;
-    fast_jhi = (ipfast2+1)*nslow/npfast2 - 1;
+    fast_jlo = (bigint) ipfast2*nslow/npfast2;
+    fast_jhi = (bigint) (ipfast2+1)*nslow/npfast2 - 1;
   }
 
   // remap from fast pencil layout to slow pencil layout
@@ -347,8 +347,8 @@ void FFT2d::setup(int user_nfast, int user_nslow,
     slow_jlo = out_jlo;
     slow_jhi = out_jhi;
   } else {
-    slow_ilo = ipslow1*nfast/npslow1;
-    slow_ihi = (ipslow1+1)*nfast/npslow1 - 1;
+    slow_ilo = (bigint) ipslow1*nfast/npslow1;
+    slow_ihi = (bigint) (ipslow1+1)*nfast/npslow1 - 1;
     slow_jlo = 0;
     slow_jhi = nslow - 1;
   }
@@ -370,10 +370,10 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   // remap will be two stages, with brick layout and brick indices inbetween
 
   if (exchange) {
-    brick_ilo = ipbrick1*nfast/npbrick1;
-    brick_ihi = (ipbrick1+1)*nfast/npbrick1 - 1;
-    brick_jlo = ipbrick2*nslow/npbrick2;
-    brick_jhi = (ipbrick2+1)*nslow/npbrick2 - 1;
+    brick_ilo = (bigint) ipbrick1*nfast/npbrick1;
+    brick_ihi = (bigint) (ipbrick1+1)*nfast/npbrick1 - 1;
+    brick_jlo = (bigint) ipbrick2*nslow/npbrick2;
+    brick_jhi = (bigint) (ipbrick2+1)*nslow/npbrick2 - 1;
   }
 
   // create Remap instances for 3 forward remaps
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 2cde90e..61066b2 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -335,22 +335,22 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
     remap_preflag = 1;
     fast_ilo = 0;
     fast_ihi = nfast - 1;
-    fast_jlo = ipfast2*nmid/npfast2;
-    fast_jhi = (ipfast2+1)*nmid/npfast2 - 1;
-    fast_klo = ipfast3*nslow/npfast3;
-    fast_khi = (ipfast3+1)*nslow/npfast3 - 1;
+    fast_jlo = (bigint) ipfast2*nmid/npfast2;
+    fast_jhi = (bigint) (ipfast2+1)*nmid/npfast2 - 1;
+    fast_klo = (bigint) ipfast3*nslow/npfast3;
+    fast_khi = (bigint) (ipfast3+1)*nslow/npfast3 - 1;
   }
 
   // remap from fast pencil layout to mid pencil layout
   // always needed, b/c permutation changes
   // mid indices = data layout before/after 2nd set of FFTs
 
-  mid_ilo = ipmid1*nfast/npmid1;
-  mid_ihi = (ipmid1+1)*nfast/npmid1 - 1;
+  mid_ilo = (bigint) ipmid1*nfast/npmid1;
+  mid_ihi = (bigint) (ipmid1+1)*nfast/npmid1 - 1;
   mid_jlo = 0;
   mid_jhi = nmid - 1;
-  mid_klo = ipmid3*nslow/npmid3;
-  mid_khi = (ipmid3+1)*nslow/npmid3 - 1;
+  mid_klo = (bigint) ipmid3*nslow/npmid3;
+  mid_khi = (bigint) (ipmid3+1)*nslow/npmid3 - 1;
 
   // remap from mid pencil layout to slow pencil layout
   // always needed, b/c permutation changes
@@ -369,10 +369,10 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
     slow_klo = out_klo;
     slow_khi = out_khi;
   } else {
-    slow_ilo = ipslow1*nfast/npslow1;
-    slow_ihi = (ipslow1+1)*nfast/npslow1 - 1;
-    slow_jlo = ipslow2*nmid/npslow2;
-    slow_jhi = (ipslow2+1)*nmid/npslow2 - 1;
+    slow_ilo = (bigint) ipslow1*nfast/npslow1;
+    slow_ihi = (bigint) (ipslow1+1)*nfast/npslow1 - 1;
+    slow_jlo = (bigint) ipslow2*nmid/npslow2;
+    slow_jhi = (bigint) (ipslow2+1)*nmid/npslow2 - 1;
     slow_klo = 0;
     slow_khi = nslow - 1;
   }
@@ -395,12 +395,12 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   // remap will be two stages, with brick layout and brick indices inbetween
 
   if (exchange) {
-    brick_ilo = ipbrick1*nfast/npbrick1;
-    brick_ihi = (ipbrick1+1)*nfast/npbrick1 - 1;
-    brick_jlo = ipbrick2*nmid/npbrick2;
-    brick_jhi = (ipbrick2+1)*nmid/npbrick2 - 1;
-    brick_klo = ipbrick3*nslow/npbrick3;
-    brick_khi = (ipbrick3+1)*nslow/npbrick3 - 1;
+    brick_ilo = (bigint) ipbrick1*nfast/npbrick1;
+    brick_ihi = (bigint) (ipbrick1+1)*nfast/npbrick1 - 1;
+    brick_jlo = (bigint) ipbrick2*nmid/npbrick2;
+    brick_jhi = (bigint) (ipbrick2+1)*nmid/npbrick2 - 1;
+    brick_klo = (bigint) ipbrick3*nslow/npbrick3;
+    brick_khi = (bigint) (ipbrick3+1)*nslow/npbrick3 - 1;
   }
 
   // create Remap instances for 4 forward remaps
-- 
2.43.0


From 0e554e2136a03ab474cb11039d29e247ebd9d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:11 +0000
Subject: [PATCH 16/20] fix: changing the collective setting of a Remap after
 setup() has no effect, as documented

---
 src/remap2d.cpp | 8 +++++---
 src/remap2d.h   | 1 +
 src/remap3d.cpp | 8 +++++---
 src/remap3d.h   | 1 +
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 189f1e3..911934f 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -97,6 +97,7 @@ Remap2d::Remap2d(MPI_Comm user_comm)
 
   memusage = 0;
   memoryflag = 0;
+  collflag = 0;
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
@@ -113,7 +114,7 @@ Remap2d::~Remap2d()
 
   // free new MPI communicator for collective comm
 
-  if (collective) {
+  if (collflag) {
     if (newcomm != MPI_COMM_NULL) MPI_Comm_free(&newcomm);
     memory->sfree(pgroup);
   }
@@ -135,7 +136,7 @@ Remap2d::~Remap2d()
 
   // free internal arrays for collective commm
     
-  if (collective) {
+  if (collflag) {
     memory->sfree(sendcnts);
     memory->sfree(recvcnts);
     memory->sfree(senddispls);
@@ -186,6 +187,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
 
   permute = user_permute;
   memoryflag = user_memoryflag;
+  collflag = collective;
 
   // store parameters in local data structs
 
@@ -599,7 +601,7 @@ void Remap2d::remap(FFT_SCALAR *in, FFT_SCALAR *out,
 
   // point-to-point remap communication
 
-  if (!collective) {
+  if (!collflag) {
 
     // post all recvs into scratch space
 
diff --git a/src/remap2d.h b/src/remap2d.h
index 52a3c57..d39cdd9 100644
--- a/src/remap2d.h
+++ b/src/remap2d.h
@@ -46,6 +46,7 @@ class Remap2d {
 
   int permute;                      // permutation setting = 0,1
   int memoryflag;                   // 0 = user-provided bufs, 1 = internal
+  int collflag;                     // collective setting when setup() was called
 
   // point to point communication
 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 21d010d..62b04e1 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -97,6 +97,7 @@ Remap3d::Remap3d(MPI_Comm user_comm)
 
   memusage = 0;
   memoryflag = 0;
+  collflag = 0;
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
@@ -113,7 +114,7 @@ Remap3d::~Remap3d()
 
   // free new MPI communicator for collective comm
 
-  if (collective) {
+  if (collflag) {
     if (newcomm != MPI_COMM_NULL) MPI_Comm_free(&newcomm);
     memory->sfree(pgroup);
   }
@@ -135,7 +136,7 @@ Remap3d::~Remap3d()
 
   // free internal arrays for collective commm
     
-  if (collective) {
+  if (collflag) {
     memory->sfree(sendcnts);
     memory->sfree(recvcnts);
     memory->sfree(senddispls);
@@ -191,6 +192,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
 
   permute = user_permute;
   memoryflag = user_memoryflag;
+  collflag = collective;
 
   // store parameters in local data structs
 
@@ -646,7 +648,7 @@ void Remap3d::remap(FFT_SCALAR *in, FFT_SCALAR *out,
 
   // point-to-point remap communication
 
-  if (!collective) {
+  if (!collflag) {
 
     // post all recvs into scratch space
 
diff --git a/src/remap3d.h b/src/remap3d.h
index afc58d8..8165676 100644
--- a/src/remap3d.h
+++ b/src/remap3d.h
@@ -47,6 +47,7 @@ class Remap3d {
 
   int permute;                      // permutation setting = 0,1,2
   int memoryflag;                   // 0 = user-provided bufs, 1 = internal
+  int collflag;                     // collective setting when setup() was called
 
   // point to point communication
 
-- 
2.43.0


From 0b726dc50511b4d0beb90a307ea382cfa0143e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:32 +0000
Subject: [PATCH 17/20] fix: changing memoryflag of an FFT after setup() has no
 effect, as documented

---
 src/fft2d.cpp | 6 ++++--
 src/fft2d.h   | 1 +
 src/fft3d.cpp | 6 ++++--
 src/fft3d.h   | 1 +
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 7a59792..77e548e 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -175,6 +175,7 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
 
   setupflag = 0;
   setup_memory_flag = 0;
+  own_memory_flag = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -190,7 +191,7 @@ FFT2d::~FFT2d()
   delete [] factors;
 
   if (setupflag) deallocate_setup();
-  if (memoryflag) deallocate_setup_memory();
+  if (own_memory_flag) deallocate_setup_memory();
 }
 
 /* ----------------------------------------------------------------------
@@ -423,6 +424,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
+  own_memory_flag = memoryflag;
   if (memoryflag) {
     setup_memory_flag = 1;
     if (sendsize) {
@@ -487,7 +489,7 @@ void FFT2d::deallocate_setup()
 void FFT2d::setup_memory(FFT_SCALAR *user_sendbuf, FFT_SCALAR *user_recvbuf)
 {
   if (!setupflag) error->all("Cannot setup FFT memory before setup");
-  if (memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
+  if (own_memory_flag) error-> all("Cannot setup FFT memory with memoryflag set");
 
   setup_memory_flag = 1;
   sendbuf = user_sendbuf;
diff --git a/src/fft2d.h b/src/fft2d.h
index 411da1f..1aac341 100644
--- a/src/fft2d.h
+++ b/src/fft2d.h
@@ -63,6 +63,7 @@ class FFT2d {
   MPI_Comm world;
   int me,nprocs;
   int setupflag,setup_memory_flag;
+  int own_memory_flag;              // memoryflag setting when setup() was called
 
   class Memory *memory;
   class Error *error;
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 61066b2..7639f7e 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -175,6 +175,7 @@ FFT3d::FFT3d(MPI_Comm user_comm, int user_precision)
 
   setupflag = 0;
   setup_memory_flag = 0;
+  own_memory_flag = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -190,7 +191,7 @@ FFT3d::~FFT3d()
   delete [] factors;
 
   if (setupflag) deallocate_setup();
-  if (memoryflag) deallocate_setup_memory();
+  if (own_memory_flag) deallocate_setup_memory();
 }
 
 /* ----------------------------------------------------------------------
@@ -463,6 +464,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
+  own_memory_flag = memoryflag;
   if (memoryflag) {
     setup_memory_flag = 1;
     if (sendsize) {
@@ -530,7 +532,7 @@ void FFT3d::deallocate_setup()
 void FFT3d::setup_memory(FFT_SCALAR *user_sendbuf, FFT_SCALAR *user_recvbuf)
 {
   if (!setupflag) error->all("Cannot setup FFT memory before setup");
-  if (memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
+  if (own_memory_flag) error-> all("Cannot setup FFT memory with memoryflag set");
 
   setup_memory_flag = 1;
   sendbuf = user_sendbuf;
diff --git a/src/fft3d.h b/src/fft3d.h
index 17ba5ee..afa61f5 100644
--- a/src/fft3d.h
+++ b/src/fft3d.h
@@ -68,6 +68,7 @@ class FFT3d {
  private:
   int me,nprocs;
   int setupflag,setup_memory_flag;
+  int own_memory_flag;              // memoryflag setting when setup() was called
 
   class Memory *memory;
   class Error *error;
-- 
2.43.0


From 60109ef561bbb7fb77463e6045f0cad4223829c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:08 +0000
Subject: [PATCH 18/20] fix: Python setup_memory() of FFTs used its own unset
 local variables

FFT3dMPI.setup_memory() and FFT2dMPI.setup_memory() read csendbuf and
crecvbuf before assigning them and so raised on every call; they are to be
made from the sendbuf and recvbuf arguments.
---
 src/fftmpi.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index 4b7a2d4..c36ff1f 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -210,11 +210,11 @@ class FFT3dMPI:
       sys.exit()
       
     if self.precision == 1:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_float))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_float))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_float))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_float))
     else:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_double))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_double))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
     self.lib.fft3d_setup_memory(self.fft,csendbuf,crecvbuf)
       
@@ -464,11 +464,11 @@ class FFT2dMPI:
       sys.exit()
       
     if self.precision == 1:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_float))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_float))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_float))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_float))
     else:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_double))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_double))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
     self.lib.fft2d_setup_memory(self.fft,csendbuf,crecvbuf)
       
-- 
2.43.0


From f46dbcf222fd1a0de28673e6689dee6e091ada1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:02 +0000
Subject: [PATCH 19/20] fix: Python Remap classes could not be created or used

Remap3dMPI and Remap2dMPI named a C function that does not exist
(remapNd_compute), passed a precision argument remapNd_create() does not
take, returned undefined sizes from setup(), and stored the handle under
the name of their remap() method.
---
 src/fftmpi.py | 54 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index c36ff1f..139488c 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -574,7 +574,7 @@ class Remap3dMPI:
     if mpi4pyflag and MPI._sizeof(comm) == sizeof(c_int): MPI_Comm = c_int
     else: MPI_Comm = c_void_p
 
-    self.lib.remap3d_create.argtypes = [MPI_Comm,c_int,POINTER(c_void_p)]
+    self.lib.remap3d_create.argtypes = [MPI_Comm,POINTER(c_void_p)]
     self.lib.remap3d_create.restype = None
 
     self.lib.remap3d_destroy.argtypes = [c_void_p]
@@ -586,7 +586,7 @@ class Remap3dMPI:
     self.lib.remap3d_setup.argtypes = \
       [c_void_p,c_int,c_int,c_int,c_int,c_int,c_int,
        c_int,c_int,c_int,c_int,c_int,c_int,
-       c_int,c_int,c_int,POINTER(c_int)]
+       c_int,c_int,c_int,POINTER(c_int),POINTER(c_int)]
     self.lib.remap3d_setup.restype = None
     
     if precision == 1:
@@ -597,35 +597,40 @@ class Remap3dMPI:
       self.lib.remap3d_remap.argtypes = \
         [c_void_p,POINTER(c_double),POINTER(c_double),
            POINTER(c_double),POINTER(c_double)]
-    self.lib.remap3d_compute.restype = None
+    self.lib.remap3d_remap.restype = None
 
     # create an instance of Remap3d
 
-    self.remap = c_void_p()
+    self.remap_ptr = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap3d_create(comm_value,precision,byref(self.remap))
+    self.lib.remap3d_create(comm_value,byref(self.remap_ptr))
 
   # destroy instance of Remap3d
   
   def __del__(self):
-    self.lib.remap3d_destroy(self.remap)
+    self.lib.remap3d_destroy(self.remap_ptr)
 
   def destroy(self):
-    self.lib.remap3d_destroy(self.remap)
+    self.lib.remap3d_destroy(self.remap_ptr)
     self.lib = None
 
   # setup
 
   def set(self,keyword,value):
-    self.lib.remap3d_set(self.remap,keyword,value)
+    self.lib.remap3d_set(self.remap_ptr,keyword,value)
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
             out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
             nqty,permute,memoryflag):
-    self.lib.remap3d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
+    sendsize = c_int()
+    recvsize = c_int()
+    self.lib.remap3d_setup(self.remap_ptr,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
                            out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
-                           nqty,permute,memoryflag,sendsize,recvsize)
+                           nqty,permute,memoryflag,
+                           byref(sendsize),byref(recvsize))
+    sendsize = sendsize.value
+    recvsize = recvsize.value
     return sendsize,recvsize
       
   # remap
@@ -649,7 +654,7 @@ class Remap3dMPI:
       csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
       crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
-    self.lib.remap3d_remap(self.remap,cin,cout,csendbuf,crecvbuf)
+    self.lib.remap3d_remap(self.remap_ptr,cin,cout,csendbuf,crecvbuf)
 
 # ------------------------------------------------------------------
 # instantiate remap2dMPI thru its C-interface
@@ -678,7 +683,7 @@ class Remap2dMPI:
     if mpi4pyflag and MPI._sizeof(comm) == sizeof(c_int): MPI_Comm = c_int
     else: MPI_Comm = c_void_p
 
-    self.lib.remap2d_create.argtypes = [MPI_Comm,c_int,POINTER(c_void_p)]
+    self.lib.remap2d_create.argtypes = [MPI_Comm,POINTER(c_void_p)]
     self.lib.remap2d_create.restype = None
 
     self.lib.remap2d_destroy.argtypes = [c_void_p]
@@ -689,7 +694,7 @@ class Remap2dMPI:
     
     self.lib.remap2d_setup.argtypes = \
     [c_void_p,c_int,c_int,c_int,c_int,c_int,c_int,c_int,c_int,
-        c_int,c_int,c_int,POINTER(c_int)]
+        c_int,c_int,c_int,POINTER(c_int),POINTER(c_int)]
     self.lib.remap2d_setup.restype = None
     
     if precision == 1:
@@ -700,34 +705,39 @@ class Remap2dMPI:
       self.lib.remap2d_remap.argtypes = \
         [c_void_p,POINTER(c_double),POINTER(c_double),
          POINTER(c_double),POINTER(c_double)]
-    self.lib.remap2d_compute.restype = None
+    self.lib.remap2d_remap.restype = None
 
     # create an instance of Remap2d
 
-    self.remap = c_void_p()
+    self.remap_ptr = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap2d_create(comm_value,precision,byref(self.remap))
+    self.lib.remap2d_create(comm_value,byref(self.remap_ptr))
 
   # destroy instance of Remap2d
   
   def __del__(self):
-    self.lib.remap2d_destroy(self.remap)
+    self.lib.remap2d_destroy(self.remap_ptr)
 
   def destroy(self):
-    self.lib.remap2d_destroy(self.remap)
+    self.lib.remap2d_destroy(self.remap_ptr)
     self.lib = None
 
   # setup
 
   def set(self,keyword,value):
-    self.lib.remap2d_set(self.remap,keyword,value)
+    self.lib.remap2d_set(self.remap_ptr,keyword,value)
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,
             out_ilo,out_ihi,out_jlo,out_jhi,nqty,permute,memoryflag):
-    self.lib.remap2d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,
+    sendsize = c_int()
+    recvsize = c_int()
+    self.lib.remap2d_setup(self.remap_ptr,in_ilo,in_ihi,in_jlo,in_jhi,
                            out_ilo,out_ihi,out_jlo,out_jhi,
-                           nqty,permute,memoryflag,sendsize,recvsize)
+                           nqty,permute,memoryflag,
+                           byref(sendsize),byref(recvsize))
+    sendsize = sendsize.value
+    recvsize = recvsize.value
     return sendsize,recvsize
       
   # remap
@@ -751,4 +761,4 @@ class Remap2dMPI:
       csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
       crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
-    self.lib.remap2d_remap(self.remap,cin,cout,csendbuf,crecvbuf)
+    self.lib.remap2d_remap(self.remap_ptr,cin,cout,csendbuf,crecvbuf)
-- 
2.43.0


From b6a3b339a4d5b878094de50d8f8ddf69284718db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:56 +0000
Subject: [PATCH 20/20] fix: Fortran fftNd_setup_memory() passed the address of
 the pointers

The interfaces declared sendbuf and recvbuf as type(c_ptr) without value,
so the library received the address of a temporary holding the pointer
instead of the buffer, and used that as its work memory.
---
 src/fft2d_wrap.f90 | 2 +-
 src/fft3d_wrap.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d_wrap.f90 b/src/fft2d_wrap.f90
index afe43d9..b7a1494 100644
--- a/src/fft2d_wrap.f90
+++ b/src/fft2d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft2d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft2d_setup_memory
 
   subroutine fft2d_compute(ptr,in,out,flag) bind(c)
diff --git a/src/fft3d_wrap.f90 b/src/fft3d_wrap.f90
index f6ccc2a..f80082a 100644
--- a/src/fft3d_wrap.f90
+++ b/src/fft3d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft3d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft3d_setup_memory
 
   subroutine fft3d_compute(ptr,in,out,flag) bind(c)
-- 
2.43.0

