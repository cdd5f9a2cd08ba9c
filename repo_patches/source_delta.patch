From 137618433f1128f9b4bf820291dca63dfbfbf7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 01/28] fix: reject sbn frames whose control header is larger
 than the data block

---
 src/sbn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sbn.c b/src/sbn.c
index 01e48f4..f54176f 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -204,6 +204,9 @@ int sbn_unpack_frame(struct sbn_frame *sbnf){
        */
       return(2);
     }
+
+    if(sbnf->ctrlhdr_size > sbnf->pdh.data_block_size)
+      return(2);
   }
 
   blkdata_offset += sbnf->ctrlhdr_size;
-- 
2.43.0


From 2745d3d386dec16d567b46ff9cee9f9fe325f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 02/28] fix: do not look at the first byte of an empty sbn data
 block

---
 src/sbn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sbn.c b/src/sbn.c
index f54176f..c621fe4 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -296,7 +296,7 @@ int sbn_unpack_frame(struct sbn_frame *sbnf){
       pdata_size = sbnf->frdata_size;
     }
 
-    if(isalpha(pdata[0])){
+    if((pdata_size > 0) && isalpha(pdata[0])){
       sbnf->ccb = NULL;
       sbnf->ccb_size = 0;
     }else{
-- 
2.43.0


From 3e6dde645d3c3b95b0e80d240bcfb2deb2a1f284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 03/28] fix: an oversized control header is treated as absent
 instead of aborting

---
 src/sbn.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/sbn.c b/src/sbn.c
index c621fe4..8d765a4 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -5,7 +5,6 @@
  *
  * $Id$
  */
-#include <assert.h>
 #include <stdio.h>
 #include <string.h>
 #include <ctype.h>
@@ -342,8 +341,6 @@ int copy_ctrlheader(char *ctrlheader, int *ctrlheader_size,
      * the function, we treat it is a non existent, although this is a bug
      * in the allocation of the size of the buffer.
      */
-    assert(allocatedsize >= sbnf->ctrlhdr_size);
-
     return(1);
   }
 
-- 
2.43.0


From c6e8eab312edf5dc6f542e7de06efbaeab05290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 04/28] fix: split_wmo_header reads past the data block and
 across lines

---
 src/sbn.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sbn.c b/src/sbn.c
index 8d765a4..0eacf29 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -381,6 +381,7 @@ int split_wmo_header(struct sbn_frame *sbnf,
    */
   char *wmo;
   char wmobbb[WMO_BBB_SIZE + 1];	/* 6 + 1 */
+  char line[SBN_FRAME_SIZE + 1];	/* terminated copy of a line */
   int count_blanks;
   int i;
   int b;
@@ -419,14 +420,22 @@ int split_wmo_header(struct sbn_frame *sbnf,
   memset(wmo_awips, '\0', WMO_AWIPS_SIZE + 1);
   memset(wmo_notawips, '\0', WMO_NOTAWIPS_SIZE + 1);
 
+  /* The data is not terminated, and sscanf should not go past the line */
+  n = 0;
+  while((n < data_size) && (n < SBN_FRAME_SIZE) && (wmo[n] != '\n')){
+    line[n] = wmo[n];
+    ++n;
+  }
+  line[n] = '\0';
+
   /* Count how many parts the wmo header has */
   count_blanks = count_char(wmo, data_size, ' ');
   if(count_blanks == 3) {
-    if(sscanf(wmo, "%6s %4s %6s %6s",
+    if(sscanf(line, "%6s %4s %6s %6s",
 	      wmo_id, wmo_station, wmo_time, wmobbb) < 4)
       return(1);
   } else if(count_blanks == 2) {
-    if(sscanf(wmo, "%6s %4s %6s",
+    if(sscanf(line, "%6s %4s %6s",
 	      wmo_id, wmo_station, wmo_time) < 3)
       return(1);
   } else
@@ -439,7 +448,7 @@ int split_wmo_header(struct sbn_frame *sbnf,
    * start of the awips line, if any
    */
   i = 0;
-  while((*wmo != '\n') && (i < data_size)){
+  while((i < data_size) && (*wmo != '\n')){
      ++wmo;
      ++i;
   }
@@ -483,8 +492,10 @@ int split_wmo_header(struct sbn_frame *sbnf,
   }
 
   n = data_size - (i + 1);
-  if((wmo[8] == '\n') && (n >= 9)){
-    if(sscanf(wmo, "%6s", wmo_awips) != 1)
+  if((n >= 9) && (wmo[8] == '\n')){
+    memcpy(line, wmo, 8);
+    line[8] = '\0';
+    if(sscanf(line, "%6s", wmo_awips) != 1)
       wmo_awips[0] = '\0';
   }else{
     b = 0;
-- 
2.43.0


From be6033313bd86e050122cae39c395d0e54288e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:07 +0000
Subject: [PATCH 05/28] fix: do not accept an awips code with non alphanumeric
 characters

---
 src/sbn.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sbn.c b/src/sbn.c
index 0eacf29..72d636c 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -497,7 +497,18 @@ int split_wmo_header(struct sbn_frame *sbnf,
     line[8] = '\0';
     if(sscanf(line, "%6s", wmo_awips) != 1)
       wmo_awips[0] = '\0';
-  }else{
+
+    /* It becomes part of the file name */
+    b = 0;
+    while(wmo_awips[b] != '\0'){
+      if(isalnum(wmo_awips[b]) == 0)
+	wmo_awips[0] = wmo_awips[b] = '\0';
+      else
+	++b;
+    }
+  }
+
+  if(wmo_awips[0] == '\0'){
     b = 0;
     while((b < WMO_NOTAWIPS_SIZE) && (b < n)){
       wmo_notawips[b] = wmo[b];
-- 
2.43.0


From 4f71446d5e38e66608c9abb6f40c21ed28d77540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:41 +0000
Subject: [PATCH 06/28] fix: number conversion silently truncated out of range
 and negative values

---
 filters/filterlib/c/util.c | 13 +++++++++----
 src/stoi.c                 | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/filters/filterlib/c/util.c b/filters/filterlib/c/util.c
index 06cfee6..b11966b 100644
--- a/filters/filterlib/c/util.c
+++ b/filters/filterlib/c/util.c
@@ -17,14 +17,15 @@ int strto_int(char *s, int *val){
 
   char *end;
   int status = 0;
-  int v;
+  long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
   v = strtol(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  if((end == s) || (*end != '\0') || (errno != 0) ||
+     (v < INT_MIN) || (v > INT_MAX))
     status = 1;
   
   if(status == 0)
@@ -39,14 +40,18 @@ int strto_uint(char *s, unsigned int *val){
 
   char *end;
   int status = 0;
-  unsigned int v;
+  unsigned long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
   v = strtoul(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  if((end == s) || (*end != '\0') || (errno != 0) || (v > UINT_MAX))
+    status = 1;
+
+  /* strtoul() accepts and negates negative numbers */
+  if((v != 0) && (strchr(s, '-') != NULL))
     status = 1;
   
   if(status == 0)
diff --git a/src/stoi.c b/src/stoi.c
index 8ea8124..f82fbb2 100644
--- a/src/stoi.c
+++ b/src/stoi.c
@@ -17,14 +17,15 @@ int strto_int(char *s, int *val){
 
   char *end;
   int status = 0;
-  int v;
+  long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
   v = strtol(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  if((end == s) || (*end != '\0') || (errno != 0) ||
+     (v < INT_MIN) || (v > INT_MAX))
     status = 1;
   
   if(status == 0)
@@ -39,14 +40,18 @@ int strto_uint(char *s, unsigned int *val){
 
   char *end;
   int status = 0;
-  unsigned int v;
+  unsigned long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
   v = strtoul(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  if((end == s) || (*end != '\0') || (errno != 0) || (v > UINT_MAX))
+    status = 1;
+
+  /* strtoul() accepts and negates negative numbers */
+  if((v != 0) && (strchr(s, '-') != NULL))
     status = 1;
   
   if(status == 0)
-- 
2.43.0


From aa7cae83909418e1c84f9c903da821310905f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:18 +0000
Subject: [PATCH 07/28] fix: strsplit_recreate did not split the new string
 when reusing the buffers

---
 filters/ldmfilter/nbsp2ldm/src/strsplit.c | 8 ++++++--
 src/strsplit.c                            | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/filters/ldmfilter/nbsp2ldm/src/strsplit.c b/filters/ldmfilter/nbsp2ldm/src/strsplit.c
index 6d56441..b5418e6 100644
--- a/filters/ldmfilter/nbsp2ldm/src/strsplit.c
+++ b/filters/ldmfilter/nbsp2ldm/src/strsplit.c
@@ -52,13 +52,17 @@ struct strsplit_st *strsplit_recreate(char *s, char *delim, int flags,
   if((b != 0) || (flags == STRSPLIT_FLAG_INCEMPTY))
     ++n;
 
-  if((strp != NULL) && (strp->argc >= n) && (strlen(strp->sp) >= strlen(s)))
+  if((strp != NULL) && (strp->argc >= n) && (strlen(strp->sp) >= strlen(s))){
     new_strp = strp;
-  else{
+    new_strp->argc = n;
+    strncpy(new_strp->sp, s, strlen(s) + 1);
+  } else {
     if(strp != NULL)
       strsplit_delete(strp);
 
     new_strp = strsplit_init(n, s);
+    if(new_strp == NULL)
+      return(NULL);
   }
 
   strsplit(new_strp, delim, flags);
diff --git a/src/strsplit.c b/src/strsplit.c
index ec1017b..85c9161 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -52,13 +52,17 @@ struct strsplit_st *strsplit_recreate(char *s, char *delim, int flags,
   if((b != 0) || (flags == STRSPLIT_FLAG_INCEMPTY))
     ++n;
 
-  if((strp != NULL) && (strp->argc >= n) && (strlen(strp->sp) >= strlen(s)))
+  if((strp != NULL) && (strp->argc >= n) && (strlen(strp->sp) >= strlen(s))){
     new_strp = strp;
-  else{
+    new_strp->argc = n;
+    strncpy(new_strp->sp, s, strlen(s) + 1);
+  } else {
     if(strp != NULL)
       strsplit_delete(strp);
 
     new_strp = strsplit_init(n, s);
+    if(new_strp == NULL)
+      return(NULL);
   }
 
   strsplit(new_strp, delim, flags);
-- 
2.43.0


From ff8db1883c303fd42662cedbf2d7befe30d5684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:18 +0000
Subject: [PATCH 08/28] fix: slave table entries were freed twice after an
 error, and a log call had its arguments swapped

---
 src/slavet.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/slavet.c b/src/slavet.c
index d750e64..1ddb17d 100644
--- a/src/slavet.c
+++ b/src/slavet.c
@@ -97,7 +97,7 @@ static int slave_element_configure(struct slave_element_st *slave,
 
     if(status != 0){
       log_errx("Invalid configuration [%d] string for SLAVETYPE_INFIFO: %s",
-	       s, status);
+	       status, s);
       status = 1;
       goto End;
     }
@@ -197,6 +197,7 @@ static int slave_element_configure2(struct slave_element_st *slave,
     if((slave->masterport = malloc(strlen(masterport) + 1)) == NULL){
       log_err("Cannot allocate memory for slave->masterport.");
       free(slave->mastername);
+      slave->mastername = NULL;
       return(-1);
     }
 
@@ -230,14 +231,20 @@ static int slave_element_configure2(struct slave_element_st *slave,
 
 static void slave_element_release(struct slave_element_st *slave){
   
-  if(slave->mastername != NULL)
+  if(slave->mastername != NULL){
     free(slave->mastername);
+    slave->mastername = NULL;
+  }
 
-  if(slave->masterport != NULL)
+  if(slave->masterport != NULL){
     free(slave->masterport);
+    slave->masterport = NULL;
+  }
 
-  if(slave->infifo != NULL)
+  if(slave->infifo != NULL){
     free(slave->infifo);
+    slave->infifo = NULL;
+  }
 
   slave_element_release_options(slave);
 }
@@ -252,6 +259,7 @@ static int slave_element_configure_options(struct slave_element_st *slave,
   slave->options.slavestatsfile = malloc(strlen(options->slavestatsfile) + 1);
   if(slave->options.slavestatsfile == NULL){
     free(slave->options.infifo_grp);
+    slave->options.infifo_grp = NULL;
     return(-1);
   }
 
-- 
2.43.0


From cdabea2ea33d9befefde30e5564c5d96ccbd51fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:18 +0000
Subject: [PATCH 09/28] fix: sreadm did not clear the eof flag after a complete
 read

---
 src/nreadn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nreadn.c b/src/nreadn.c
index 8c9a69d..252af81 100644
--- a/src/nreadn.c
+++ b/src/nreadn.c
@@ -155,6 +155,9 @@ ssize_t sreadm(int fd, void *buff, size_t size,
   ssize_t n;
   char *p = (char*)buff;
 
+  if(eof != NULL)
+    *eof = 0;
+
   while(i < size){    
     if((n = read1(fd, &p[i], size - i, msecs, retry)) < 0){
       if((n == -2) && (i > 0)){
-- 
2.43.0


From e0950ff10321d0dc189e01abedaefa20da57775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:18 +0000
Subject: [PATCH 10/28] fix: data arriving at a fifo after the time-out of poll
 was read and dropped

---
 src/nreadn.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/nreadn.c b/src/nreadn.c
index 252af81..6de581e 100644
--- a/src/nreadn.c
+++ b/src/nreadn.c
@@ -234,11 +234,14 @@ ssize_t readn_fifo(int fd, void *buf, size_t size, unsigned int secs){
    * here we make another read() without calling poll.
    */ 
   ssize_t n;
+  ssize_t m;
 
   n = readn(fd, buf, size, secs, 0);
   if(n == -2){
-    if(read(fd, buf, size) == 0)
-      n = 0;
+    /* The data can have arrived after poll timed out */
+    m = read(fd, buf, size);
+    if(m >= 0)
+      n = m;
   }
 
   return(n);
@@ -249,11 +252,14 @@ ssize_t readm_fifo(int fd, void *buf, size_t size, unsigned int msecs){
    * Similar as above.
    */ 
   ssize_t n;
+  ssize_t m;
 
   n = readm(fd, buf, size, msecs, 0);
   if(n == -2){
-    if(read(fd, buf, size) == 0)
-      n = 0;
+    /* The data can have arrived after poll timed out */
+    m = read(fd, buf, size);
+    if(m >= 0)
+      n = m;
   }
 
   return(n);
-- 
2.43.0


From 6e326d6910a56208a344be93669c917661c96856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 11/28] fix: queue time-outs whose deadline crosses a second
 were invalid (tv_nsec >= 1e9)

---
 src/libqdb/qdb.c | 4 ++++
 src/pctldb.c     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index 87690b5..e5d1c98 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -552,4 +552,8 @@ static void queue_set_timeout(unsigned int timeout_ms,
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
+  if(timeout->tv_nsec >= 1000000000){
+    timeout->tv_nsec -= 1000000000;
+    ++timeout->tv_sec;
+  }
 }
diff --git a/src/pctldb.c b/src/pctldb.c
index c3da7e1..98f8b7f 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -466,4 +466,8 @@ static void pctldb_set_timeout(unsigned int timeout_ms,
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
+  if(timeout->tv_nsec >= 1000000000){
+    timeout->tv_nsec -= 1000000000;
+    ++timeout->tv_sec;
+  }
 }
-- 
2.43.0


From 6302946c1d0d32eb3e34f031eb251f516e9a5f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 12/28] fix: nbspqt_rcv lost the element when the queue space
 could not be reclaimed, and the error code of a failed wait

---
 src/libqdb/qdb.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index e5d1c98..2cc1f72 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -213,8 +213,8 @@ int nbspqt_rcv(nbspqtable_t *qtable, int type,
     if(status == ETIMEDOUT)
       status = 1;
     else{
-      status = -1;
       *dberror = status;
+      status = -1;
     }
   }else
     status = qdb_rcv(nbspq, data, data_size, dberror);
@@ -485,9 +485,11 @@ int qdb_rcv(struct nbspq_st *nbspq, void **p, uint32_t *size, int *dberror){
      * data base is configured as in-memory db). If this is not done here,
      * or somewhere, then the cache is eventually exhasusted and the
      * the next calls to qdb_send return an error (memory cannot be allocated.)
+     * The element has already been taken from the queue, so that a failure to
+     * reclaim the space is not a failure to receive it.
      */
     if(nbspq->f_memory_based && (nbspq->n == 0))
-      status = dbp->truncate(dbp, NULL, NULL, 0);
+      (void)dbp->truncate(dbp, NULL, NULL, 0);
   }
 
   return(status);
-- 
2.43.0


From 538f349ba896c4120ddda4c24cb92b7ac98e81d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 13/28] fix: a product queue above its hard limit was not
 refused

---
 src/pctldb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index 98f8b7f..754bb81 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -424,7 +424,7 @@ static int pctldb_hard_limit(struct pctldb_st *pctldb, uint32_t mf_size){
   }
 
   if(pctldb->hardlimit > 0){
-    if(pctldb->n == pctldb->hardlimit)
+    if(pctldb->n >= pctldb->hardlimit)
       return(1);
   }
 
-- 
2.43.0


From a6c6d1f2e666bc6499ca48cbb149e3ff08d7ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 14/28] fix: products queued while the clock goes back could
 overwrite the data of a queued product

---
 src/pctldb.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index 754bb81..12f3bb9 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -300,9 +300,15 @@ int pctldb_send_pce(struct pctldb_st *pctldb,
    * where the resolution is only ms. Perhaps the best is to
    * use a sequence number instead of the tsqueue.
    */
-  if(pce->tsqueue.tv_sec == pctldb->last_tsqueue.tv_sec){
-    if(pce->tsqueue.tv_nsec <= pctldb->last_tsqueue.tv_nsec)
-      pce->tsqueue.tv_nsec = pctldb->last_tsqueue.tv_nsec + 1;
+  if((pce->tsqueue.tv_sec < pctldb->last_tsqueue.tv_sec) ||
+     ((pce->tsqueue.tv_sec == pctldb->last_tsqueue.tv_sec) &&
+      (pce->tsqueue.tv_nsec <= pctldb->last_tsqueue.tv_nsec))){
+    pce->tsqueue = pctldb->last_tsqueue;
+    ++pce->tsqueue.tv_nsec;
+    if(pce->tsqueue.tv_nsec >= 1000000000){
+      pce->tsqueue.tv_nsec = 0;
+      ++pce->tsqueue.tv_sec;
+    }
   }
   memcpy(&pctldb->last_tsqueue, &pce->tsqueue, sizeof(struct timespec));
   
-- 
2.43.0


From 51cd4960509ac738dbc079541e1ba3f00a479bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:00 +0000
Subject: [PATCH 15/28] fix: pctldb_open dereferenced NULL and lost the error
 code when the queue could not be opened

---
 src/pctldb.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index 12f3bb9..a8bed9a 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -93,7 +93,7 @@ int pctldb_open(struct pctldb_st **pctldb,
     status = pctlmfdb_stat(p, dberror);
 
   if(status != 0){
-    if(p->mfdbp != NULL)
+    if((p != NULL) && (p->mfdbp != NULL))
       pctlmfdb_close(p, &dberror_close);	/* error ignored here if any */
 
     if(dbp != NULL)
@@ -102,7 +102,6 @@ int pctldb_open(struct pctldb_st **pctldb,
     if(p != NULL)
       free(p);
 
-    *dberror = status;
     status = -1;
   }
 
-- 
2.43.0


From 564c5b46b8237c24d4863b6d7a3822c22eca7681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:32 +0000
Subject: [PATCH 16/28] fix: a product refused for a storage error stayed
 queued without its data

---
 src/pctl.h     |  2 ++
 src/pctldb.c   | 12 +++++++++---
 src/pctlmfdb.c | 16 ++++++++++++++++
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/pctl.h b/src/pctl.h
index 0b7af1e..d658a60 100644
--- a/src/pctl.h
+++ b/src/pctl.h
@@ -170,5 +170,7 @@ int pctlmfdb_snd(struct pctldb_st *pctldb, struct timespec *ts,
 		 struct memfile_st *mf, int *dberror);
 int pctlmfdb_rcv(struct pctldb_st *pctldb, struct timespec *ts,
 		 struct memfile_st *mf, int *dberror);
+void pctlmfdb_del(struct pctldb_st *pctldb, struct timespec *ts,
+		  uint32_t size);
 
 #endif
diff --git a/src/pctldb.c b/src/pctldb.c
index a8bed9a..d1fc350 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -317,12 +317,18 @@ int pctldb_send_pce(struct pctldb_st *pctldb,
   if(pctldb_hard_limit(pctldb, mf_data_size) != 0)
      status = 2;
 
-  if(status == 0)
-    status = pctldb_snd(pctldb, pce, pctldb->pce_data_size, dberror);
-
+  /*
+   * The data goes first, so that a pce that is in the queue always has it.
+   */
   if(status == 0)
     status = pctlmfdb_snd(pctldb, &pce->tsqueue, pce->mf, dberror);
 
+  if(status == 0){
+    status = pctldb_snd(pctldb, pce, pctldb->pce_data_size, dberror);
+    if(status != 0)
+      pctlmfdb_del(pctldb, &pce->tsqueue, mf_data_size);
+  }
+
   if(status == 0){
     if(pctldb_soft_limit(pctldb) != 0)
       status = 1;
diff --git a/src/pctlmfdb.c b/src/pctlmfdb.c
index 8744e74..3f3b8f5 100644
--- a/src/pctlmfdb.c
+++ b/src/pctlmfdb.c
@@ -147,6 +147,22 @@ int pctlmfdb_rcv(struct pctldb_st *pctldb, struct timespec *ts,
   return(status);
 }
 
+void pctlmfdb_del(struct pctldb_st *pctldb, struct timespec *ts,
+		  uint32_t size){
+  /*
+   * Remove the data of an element that could not be queued.
+   */
+  DBT key;
+  DB* mfdbp = pctldb->mfdbp;
+
+  memset(&key, 0 , sizeof(DBT));
+  key.data = ts;
+  key.size = sizeof(struct timespec);
+
+  if(mfdbp->del(mfdbp, NULL, &key, 0) == 0)
+    pctldb->mf_total_size -= size;
+}
+
 static int timespec_cmp(DB *dbp __attribute__((unused)),
 			const DBT *a, const DBT *b){
 
-- 
2.43.0


From 4bec2d49fb68415c2eaa52561df53811b85d0a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:32 +0000
Subject: [PATCH 17/28] fix: the queued bytes were not discounted when a
 product could not be received for lack of memory

---
 src/pctlmfdb.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pctlmfdb.c b/src/pctlmfdb.c
index 3f3b8f5..ecbb502 100644
--- a/src/pctlmfdb.c
+++ b/src/pctlmfdb.c
@@ -100,6 +100,7 @@ int pctlmfdb_rcv(struct pctldb_st *pctldb, struct timespec *ts,
 
   int status = 0;
   int dberror_del;
+  uint32_t mf_data_size = 0;	/* what the deleted element leaves */
   DBT key, data;
   DB* mfdbp = pctldb->mfdbp;
 
@@ -113,6 +114,9 @@ int pctlmfdb_rcv(struct pctldb_st *pctldb, struct timespec *ts,
   data.ulen = get_memfile_allocated_size(mf);
   data.flags = DB_DBT_USERMEM;
   *dberror = mfdbp->get(mfdbp, NULL, &key, &data, 0);
+  if((*dberror == 0) || (*dberror == DB_BUFFER_SMALL))
+    mf_data_size = data.size;
+
   if(*dberror == DB_BUFFER_SMALL){
     status = realloc_memfile(mf, data.size);
     if(status == 0){
@@ -127,14 +131,14 @@ int pctlmfdb_rcv(struct pctldb_st *pctldb, struct timespec *ts,
     mf->size = data.size;
   else{
     status = -1;
-    mf->size = 0; /* Only for convenience in the substraction below */
+    mf->size = 0;
   }
 
   dberror_del = mfdbp->del(mfdbp, NULL, &key, 0);
 
   if(dberror_del == 0){
-    if(pctldb->mf_total_size > mf->size)
-      pctldb->mf_total_size -= mf->size;
+    if(pctldb->mf_total_size > mf_data_size)
+      pctldb->mf_total_size -= mf_data_size;
     else
       pctldb->mf_total_size = 0;
   }else{
-- 
2.43.0


From 63ad712b393376935adae3163b05a9ab2e3b234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:44 +0000
Subject: [PATCH 18/28] fix: frames numbered 0 were added to an idle channel
 and queued as a product

---
 src/pctl.c            | 21 ++++++++++++++++-----
 src/slavenbs/framep.c |  3 +++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/pctl.c b/src/pctl.c
index ada77c0..25ac7f7 100644
--- a/src/pctl.c
+++ b/src/pctl.c
@@ -20,6 +20,7 @@ static struct pctl_element_st **create_pce_array(int numchannels,
 static void destroy_pce_array(struct pctl_element_st **pcearray,
 			      int numchannels);
 
+static int is_pce_active(struct pctl_element_st *pce, unsigned int seqnumber);
 static void pctldb_log_err(char *s, int dberror);
 
 static void pctldb_log_err(char *s, int dberror){
@@ -313,7 +314,7 @@ struct pctl_element_st *get_pctl_activepce(struct pctl_st *pctl,
   if((channel_index < 0) || (channel_index >= pctl->num_activechannels))
     return(NULL);
 
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if(!is_pce_active(pctl->activepce[i], seqnumber))
     return(NULL);
 
   return(pctl->activepce[i]);
@@ -332,7 +333,7 @@ int update_activepce_framecounter(struct pctl_st *pctl,
     return(-1);
 
   i = channel_index;
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if(!is_pce_active(pctl->activepce[i], seqnumber))
     status = 1;
   else{
     if(block_number == (pctl->activepce[i])->recv_fragments){
@@ -364,7 +365,7 @@ int complete_activepce(struct pctl_st *pctl, int channel_index,
     return(-1);
 
   i = channel_index;
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if(!is_pce_active(pctl->activepce[i], seqnumber))
     status = 1;
   else{
     if((pctl->activepce[i])->num_fragments > 
@@ -427,11 +428,20 @@ struct pctl_element_st *create_pce(size_t memfile_size){
   }
 
   pce->seq_number = 0;
+  pce->num_fragments = 0;
   pce->fpath_size = const_fpath_maxsize() + 1;
 
   return(pce);
 }
 
+static int is_pce_active(struct pctl_element_st *pce, unsigned int seqnumber){
+  /*
+   * A pce that is not assembling a product has no fragments; the sequence
+   * number cannot be used for that because 0 is a valid one.
+   */
+  return((pce->num_fragments != 0) && (pce->seq_number == seqnumber));
+}
+
 void destroy_pce(struct pctl_element_st *pce){
 
   assert(pce != NULL);
@@ -451,7 +461,7 @@ int open_pce(struct pctl_element_st *pce){
   
   int status = 1;
 
-  if(pce->seq_number == 0)
+  if(pce->num_fragments == 0)
     status = open_memfile(pce->mf);
 
   return(status);
@@ -467,7 +477,8 @@ void close_pce(struct pctl_element_st *pce){
   if(pce->mf != NULL)
     close_memfile(pce->mf);
 
-  pce->seq_number = 0;  
+  pce->seq_number = 0;
+  pce->num_fragments = 0;
 }
   
 static struct pctl_element_st **create_pce_array(int numchannels,
diff --git a/src/slavenbs/framep.c b/src/slavenbs/framep.c
index eef245e..cf11eb1 100644
--- a/src/slavenbs/framep.c
+++ b/src/slavenbs/framep.c
@@ -94,6 +94,9 @@ static int estart_activepce(struct nbs1_packet_st *nbs){
 
   pce->f_complete = 0;
   pce->num_fragments = nbs->num_blocks;
+  if(nbs->num_blocks < 1)
+    pce->num_fragments = 1;
+
   pce->recv_fragments = 0;   /* this is updated by update_control_element */
   pce->seq_number = nbs->seq_number;
   pce->orig_seq_number = 0;
-- 
2.43.0


From 4c7aad76112cd784f7f1821ad94b9a28bb4a6d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:44 +0000
Subject: [PATCH 19/28] fix: the last frame of another product discarded the
 product being received

---
 src/framep.c          | 3 +++
 src/slavenbs/framep.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/framep.c b/src/framep.c
index d768fa8..f05e0cd 100644
--- a/src/framep.c
+++ b/src/framep.c
@@ -491,6 +491,9 @@ static int e_end_activepce(struct sbn_frame *sbnf){
   if(status == 1){
     log_verbose(3, "END: %u not active on %d.", sbnf->pdh.product_seq_number,
 		sbnf->np_channel_index);
+
+    /* Whatever is being assembled in this channel is another product */
+    return(status);
   }else{
     if(status == 0)
 	update_stats_products_completed();
diff --git a/src/slavenbs/framep.c b/src/slavenbs/framep.c
index cf11eb1..7856cb2 100644
--- a/src/slavenbs/framep.c
+++ b/src/slavenbs/framep.c
@@ -275,6 +275,9 @@ static int eend_activepce(struct nbs1_packet_st *nbs){
   if(status == 1){
     log_verbose(3, "END: %u not active on %d.", nbs->seq_number,
 		nbs->slavenbs_reader_index);
+
+    /* Whatever is being assembled by this reader is another product */
+    return(status);
   }else if(status == 2){
     log_verbose(3, "END: Incomplete frames received for %u on %d.",
 		nbs->seq_number, nbs->slavenbs_reader_index);
-- 
2.43.0


From 74cd2a8f6e5f3e36bcdc9dfa7fa81227671dea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:44 +0000
Subject: [PATCH 20/28] fix: a product name with a directory received from a
 peer could leave the spool directory

---
 src/slavenbs/framep.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/slavenbs/framep.c b/src/slavenbs/framep.c
index 7856cb2..55a8c6d 100644
--- a/src/slavenbs/framep.c
+++ b/src/slavenbs/framep.c
@@ -313,6 +313,10 @@ static int split_fbasename(struct pctl_element_st *pce){
   if(fbasename_size > FBASENAME_SIZE)
     return(1);
 
+  /* The name comes from the net: it must stay in the spool directory */
+  if(strchr(pce->fbasename, '/') != NULL)
+    return(1);
+
   strncpy(fbasename, pce->fbasename, FBASENAME_SIZE + 1);
 
   p2 = strchr(fbasename, '.');
-- 
2.43.0


From 5abd4ffa72dd533c385b02227d8e0821f30ba52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:44 +0000
Subject: [PATCH 21/28] fix: fragments received beyond the announced number
 were not saved in uncompressed products

---
 src/nbsp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nbsp.c b/src/nbsp.c
index 057c86e..616ebba 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -580,7 +580,8 @@ static int pce_mcat_frames(struct pctl_element_st *pce,
   int pdata_size;
   int f_compressed;
 
-  numfragments = pce->num_fragments;
+  /* all the fragments stored, also if there are more than announced */
+  numfragments = pce->recv_fragments;
 
   for(i = 0; i < numfragments; ++i){
     pdata_size = get_memframe(pce->mf, &pdata, &f_compressed);
-- 
2.43.0


From 04104f2300d5fb0a4ba2e300884e88211dfaef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:44 +0000
Subject: [PATCH 22/28] fix: products were not stripped of the control block in
 the memory spools

---
 src/nbsp.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/nbsp.c b/src/nbsp.c
index 616ebba..8c7ac19 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -864,15 +864,19 @@ static int pce_savembdb_memfile(struct pctl_element_st *pce,
 			       struct memfile_st *mf){
   int status;
   size_t size;
+  char *p;
 
+  p = mf->p;
   size = mf->size;
   if((pce->save_format == SAVEFORMAT_NO_CCB) && (pce->f_has_ccb == 1)){
     if(size <= CCB_SIZE)
       return(1);
-    else
+    else{
       size -= CCB_SIZE;
+      p += CCB_SIZE;
+    }
   }
-  status = nbsp_mspoolbdb_insert(pce->fpath, mf->p, mf->size);
+  status = nbsp_mspoolbdb_insert(pce->fpath, p, size);
   
   return(status);
 }
@@ -881,15 +885,19 @@ static int pce_savecbdb_memfile(struct pctl_element_st *pce,
 			       struct memfile_st *mf){
   int status;
   size_t size;
+  char *p;
 
+  p = mf->p;
   size = mf->size;
   if((pce->save_format == SAVEFORMAT_NO_CCB) && (pce->f_has_ccb == 1)){
     if(size <= CCB_SIZE)
       return(1);
-    else
+    else{
       size -= CCB_SIZE;
+      p += CCB_SIZE;
+    }
   }
-  status = nbsp_cspoolbdb_insert(pce->fpath, mf->p, mf->size);
+  status = nbsp_cspoolbdb_insert(pce->fpath, p, size);
   
   return(status);
 }
-- 
2.43.0


From 808bd46284b6b267b472e0e76207f7b1b3a0f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:13 +0000
Subject: [PATCH 23/28] fix: refuse a packet size that wraps around, and set
 the file name in the packet description

---
 src/packfp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/packfp.c b/src/packfp.c
index f5bc322..7e9a47e 100644
--- a/src/packfp.c
+++ b/src/packfp.c
@@ -68,6 +68,7 @@ int nbsfp_pack_fpath(struct packet_info_st *packetinfo,
 
   packetp = (char*)packetinfo->packet;
   data = &(packetp[NBS_ENVELOPE_SIZE]);
+  packetinfo->fname = &(data[8]);
   packetinfo->fpath = &(data[NBSFP_PINFO_SIZE]);
 
   packetinfo->seq_number = pce->seq_number;
@@ -193,7 +194,7 @@ int recv_fp_packet(int fd, struct packet_info_st *packetinfo,
   /* transmitted_checksum = unpack_uint32(p, 8); */
 
   /* assert(data_size + NBS_ENVELOPE_SIZE <= packetinfo->packet_size); */
-  if(data_size + NBS_ENVELOPE_SIZE > packetinfo->packet_size)
+  if(data_size > packetinfo->packet_size - NBS_ENVELOPE_SIZE)
     return(1);
 
   p += NBS_ENVELOPE_SIZE;
-- 
2.43.0


From adf4e7b0de0b3a9624842cfe9a2562a0ad8413fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:13 +0000
Subject: [PATCH 24/28] fix: check sizes, names and byte fields of a received
 packet

---
 src/packfpu.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/packfpu.c b/src/packfpu.c
index 2dcd37c..89eca46 100644
--- a/src/packfpu.c
+++ b/src/packfpu.c
@@ -26,13 +26,16 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
    */
   int status = 0;
   unsigned int dataid;
-  int data_size;
+  uint32_t data_size;
   uint32_t transmitted_checksum;
   uint32_t calculated_checksum;
   char *p;
 
   p = (char*)packetinfo->packet;
 
+  if(packetinfo->packet_size < NBS_ENVELOPE_SIZE)
+    return(1);
+
   dataid = unpack_uint32(p, 0);
   /* assert(dataid == PACKID_FPATH); */
   if(dataid != PACKID_FPATH)
@@ -48,11 +51,21 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
    */
   p += NBS_ENVELOPE_SIZE;
 
+  if((data_size > packetinfo->packet_size - NBS_ENVELOPE_SIZE) ||
+     (data_size <= 8 + FNAME_SIZE + 1))
+    return(1);
+
   calculated_checksum = calc_checksum(p, data_size);
   if(calculated_checksum != transmitted_checksum){
     return(1);
   }
 
+  /* The names must end inside the data received */
+  if((memchr(&p[8], '\0', FNAME_SIZE + 1) == NULL) ||
+     (memchr(&p[8 + FNAME_SIZE + 1], '\0',
+	     data_size - (8 + FNAME_SIZE + 1)) == NULL))
+    return(1);
+
   /*
    *  p[0-7] contain the product specific data, defined above:
    *
@@ -66,10 +79,10 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
    */
 
   packetinfo->seq_number = unpack_uint32(p, 0);
-  packetinfo->psh_product_type = p[4];
-  packetinfo->psh_product_category = p[5];
-  packetinfo->psh_product_code = p[6];
-  packetinfo->np_channel_index = p[7];
+  packetinfo->psh_product_type = (unsigned char)p[4];
+  packetinfo->psh_product_category = (unsigned char)p[5];
+  packetinfo->psh_product_code = (unsigned char)p[6];
+  packetinfo->np_channel_index = (unsigned char)p[7];
 
   p += 8;
   packetinfo->fname = p;
-- 
2.43.0


From aa6d00ae3d21b8610412f817069af7dda3d35ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:13 +0000
Subject: [PATCH 25/28] fix: refuse a block size that wraps around and an
 unterminated file name

---
 src/nbs1r.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nbs1r.c b/src/nbs1r.c
index b832b64..3ed21d7 100644
--- a/src/nbs1r.c
+++ b/src/nbs1r.c
@@ -61,6 +61,9 @@ int unpack_nbs1_header(struct nbs1_packet_st *nbs){
   nbs->psh_product_code = p[6];
   nbs->np_channel_index = p[7];
   p += 8;
+  if(memchr(p, '\0', FBASENAME_SIZE + 1) == NULL)
+    return(1);
+
   strncpy(nbs->fbasename, (char*)p, FBASENAME_SIZE + 1);
   p += FBASENAME_SIZE + 1;
   nbs->f_zip = p[0];
@@ -121,7 +124,7 @@ int recv_nbs_packet(int fd, struct nbs1_packet_st *nbs,
   /* transmitted_checksum = unpack_uint32(p, 8); */
 
   /* assert(data_size + NBS_ENVELOPE_SIZE <= NBS1_PACKET_MAXSIZE); */
-  if(data_size + NBS_ENVELOPE_SIZE > NBS1_PACKET_MAXSIZE)
+  if(data_size > NBS1_PACKET_MAXSIZE - NBS_ENVELOPE_SIZE)
     return(1);
 
   n = readn(fd, &nbs->packet[NBS_ENVELOPE_SIZE], data_size, timeout_s, retry);
-- 
2.43.0


From 0400563da55fa1b2a30a40471e1b90d1b8816705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:13 +0000
Subject: [PATCH 26/28] fix: refuse an inserted record whose size does not fit
 in an int

---
 src/slavein/reader.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/slavein/reader.c b/src/slavein/reader.c
index 38541ce..5fc68d3 100644
--- a/src/slavein/reader.c
+++ b/src/slavein/reader.c
@@ -9,6 +9,7 @@
 #include <errno.h>
 #include <string.h>
 #include <stdlib.h>
+#include <limits.h>
 #include "../nreadn.h"
 #include "../slave.h"
 #include "../err.h"
@@ -190,6 +191,7 @@ static int recv_in_packet(struct slave_element_st *slave){
    */
   int status = 0;
   int finfo_size;
+  uint32_t usize;
   unsigned char finfo_size_buf[4];
   int n;
   char *fpath;
@@ -215,7 +217,11 @@ static int recv_in_packet(struct slave_element_st *slave){
   if(status != 0)
     return(status);
 
-  finfo_size = unpack_uint32(finfo_size_buf, 0);
+  usize = unpack_uint32(finfo_size_buf, 0);
+  if(usize >= INT_MAX)
+    return(2);
+
+  finfo_size = (int)usize;
   if(slavein_info->buffer_size < finfo_size + 1){
     if(slavein_info->buffer != NULL)
       free(slavein_info->buffer);
-- 
2.43.0


From 3d60a861210c646d0a7314d78975e8a11391180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:22 +0000
Subject: [PATCH 27/28] fix: report a filter that does not answer in time as an
 error

---
 src/pfilter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pfilter.c b/src/pfilter.c
index 5b7beab..92c551f 100644
--- a/src/pfilter.c
+++ b/src/pfilter.c
@@ -82,7 +82,7 @@ int pfilter_read(struct pfilter_st *filterp,
   n = readn_fifo(filterp->fifofd, buffer, size, filterp->secs);
   if(n == -1)
     return(-1);
-  else if((size_t)n < size)
+  else if((n < 0) || ((size_t)n < size))	/* timed out or short read */
     return(1);
 
   return(0);
-- 
2.43.0


From 33408bf79495a8600fd0e1d119648f57874744dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:22 +0000
Subject: [PATCH 28/28] fix: do not free the pattern array twice when out of
 memory

---
 src/ure.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ure.c b/src/ure.c
index 05a6c91..2016cc3 100644
--- a/src/ure.c
+++ b/src/ure.c
@@ -93,6 +93,7 @@ int uwildregex_init(struct uwildregex_st *r, char *uwildregex){
   r->negate_flag = malloc(sizeof(int) * uwildsplit->argc);
   if(r->negate_flag == NULL){
     free(r->re);
+    r->re = NULL;
     strsplit_delete(uwildsplit);
     return(-1);
   }
-- 
2.43.0

