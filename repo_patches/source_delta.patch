From 5652f8a964b9a3f6e24d04c2bf2192c129ed754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 01/26] fix: report failures of closing the header and the
 attribute file

---
 src/bigfile.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 61fc839..0dc847c 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -603,7 +603,10 @@ big_block_flush(BigBlock * block)
             RAISEIF(0 > fprintf(fheader, EXT_DATA ": %td : %u : %u\n", i, block->fsize[i], block->fchecksum[i], checksum),
                 ex_fprintf, "Writing file information to header");
         }
-        fclose(fheader);
+        /* buffered data may only reach the file now */
+        RAISEIF(0 != fclose(fheader),
+                ex_fileio,
+                "Failed to write header of block `%s' (%s)", block->basename, strerror(errno));
         block->dirty = 0;
     }
     if(block->attrset->dirty) {
@@ -1621,7 +1624,10 @@ attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
             ex_write,
             "Failed to write to file");
     } 
-    fclose(fattr);
+    /* buffered data may only reach the file now */
+    RAISEIF(0 != fclose(fattr),
+            ex_open,
+            "Failed to write attributes of block `%s' (%s)", basename, strerror(errno));
     return 0;
 ex_write:
     fclose(fattr);
-- 
2.43.0


From 9d2a62a592e4fe88c420075ff42fcb2cd04f9986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 02/26] fix: a block whose attribute file cannot be read is not
 opened as if it had no attributes

---
 src/bigfile.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 0dc847c..7137292 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1441,6 +1441,9 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR, "r", 0);
     if(fattr == NULL) {
+        /* a block without the file has no such attributes; anything else is an error */
+        RAISEIF(errno != ENOENT, ex_open,
+            "Failed to open attributes of block `%s' (%s)", basename, strerror(errno));
         return 0;
     }
     int nmemb;
@@ -1471,6 +1474,7 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
             ex_set_attr,
             NULL);
     }
+    RAISEIF(ferror(fattr), ex_fread, "Failed to read from file");
     attrset->dirty = 0;
     fclose(fattr);
     return 0;
@@ -1478,6 +1482,7 @@ ex_set_attr:
 ex_fread:
     attrset->dirty = 0;
     fclose(fattr);
+ex_open:
     return -1;
 }
 
@@ -1492,9 +1497,12 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "r", 0);
     if(fattr == NULL) {
+        /* a block without the file has no such attributes; anything else is an error */
+        RAISEIF(errno != ENOENT, ex_open,
+            "Failed to open attributes of block `%s' (%s)", basename, strerror(errno));
         return 0;
     }
-    fseek(fattr, 0, SEEK_END);
+    RAISEIF(0 != fseek(fattr, 0, SEEK_END), ex_init, "fseek error: %s", strerror(errno));
     long size = ftell(fattr);
     /*ftell may fail*/
     RAISEIF(size < 0, ex_init, "ftell error: %s",strerror(errno));
@@ -1502,7 +1510,7 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
     RAISEIF(!buffer, ex_init, "Could not allocate memory for buffer: %ld bytes",size+1);
     unsigned char * data = (unsigned char * ) malloc(size + 1);
     RAISEIF(!data, ex_data, "Could not allocate memory for data: %ld bytes",size+1);
-    fseek(fattr, 0, SEEK_SET);
+    RAISEIF(0 != fseek(fattr, 0, SEEK_SET), ex_read_file, "fseek error: %s", strerror(errno));
     RAISEIF(size != fread(buffer, 1, size, fattr),
             ex_read_file,
             "Failed to read attribute file\n");
@@ -1558,6 +1566,7 @@ ex_data:
     free(buffer);
 ex_init:
     fclose(fattr);
+ex_open:
     return -1;
 }
 static int
@@ -1943,8 +1952,12 @@ _big_file_open_a_file(const char * basename, int fileid, char * mode, int raise)
     if(unbuffered) {
         setbuf(fp, NULL);
     }
+    int err;
 ex_fopen:
+    /* the caller may look at why the file did not open */
+    err = errno;
     free(filename);
+    errno = err;
     return fp;
 }
 static
-- 
2.43.0


From d838813a1a9bdfa5fa2cc7849f579d70d413599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 03/26] fix: removing an attribute marks the attribute set as
 modified

---
 src/bigfile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 7137292..3457744 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1718,6 +1718,7 @@ attrset_remove_attr(BigAttrSet * attrset, const char * attrname)
     memmove(&attrset->attrlist[ind], &attrset->attrlist[ind + 1],
         (attrset->listused - ind - 1) * sizeof(BigAttr));
     attrset->listused -= 1;
+    attrset->dirty = 1;
 
     return 0;
 
-- 
2.43.0


From 709fe06ff34b07b8807dc54eab1cd74fb18b45ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 04/26] fix: attributes stay marked as modified when writing
 them fails

---
 src/bigfile.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 3457744..02dd1e1 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1573,7 +1573,6 @@ static int
 attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
 {
     static char conv[] = "0123456789ABCDEF";
-    attrset->dirty = 0;
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "w", 1);
     RAISEIF(fattr == NULL,
-- 
2.43.0


From 59151df162c6ceb54e7c6c5a5072ff9d6d6fdee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 05/26] fix: a long dtype in a header does not overflow the
 block

---
 src/bigfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 02dd1e1..35c74df 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -337,7 +337,7 @@ _big_block_open(BigBlock * bb, const char * basename)
                 NULL);
 
         RAISEIF(
-               (1 != fscanf(fheader, " DTYPE: %s", bb->dtype)) ||
+               (1 != fscanf(fheader, " DTYPE: %7s", bb->dtype)) ||
                (1 != fscanf(fheader, " NMEMB: %d", &(bb->nmemb))) ||
                (1 != fscanf(fheader, " NFILE: %d", &(bb->Nfile))),
                ex_fscanf,
-- 
2.43.0


From f9d2dc8166576400fcaded6ba1aaf7794b414ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 06/26] fix: items without members are transferred like
 scalars, not as uninitialised memory

---
 src/bigfile.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 35c74df..003128a 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -809,7 +809,7 @@ big_block_read(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
     BigArray chunk_array = {0};
     size_t dims[2];
     dims[0] = CHUNK_SIZE;
-    dims[1] = bb->nmemb;
+    dims[1] = nmemb;
 
     BigArrayIter chunk_iter;
     BigArrayIter array_iter;
@@ -866,7 +866,7 @@ big_block_read(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
         fp = NULL;
 
         /* now translate the data from chunkbuf to mptr */
-        RAISEIF(0 != _dtype_convert(&array_iter, &chunk_iter, chunk_size * bb->nmemb),
+        RAISEIF(0 != _dtype_convert(&array_iter, &chunk_iter, chunk_size * nmemb),
             ex_convert, NULL);
 
         toread -= chunk_size;
@@ -904,7 +904,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
     BigArray chunk_array = {0};
     size_t dims[2];
     dims[0] = CHUNK_SIZE;
-    dims[1] = bb->nmemb;
+    dims[1] = nmemb;
 
     BigArrayIter chunk_iter;
     BigArrayIter array_iter;
@@ -940,7 +940,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
         big_array_iter_init(&chunk_iter, &chunk_array);
 
         /* now translate the data to format in the file*/
-        RAISEIF(0 != _dtype_convert(&chunk_iter, &array_iter, chunk_size * bb->nmemb),
+        RAISEIF(0 != _dtype_convert(&chunk_iter, &array_iter, chunk_size * nmemb),
             ex_convert, NULL);
 
         sysvsum(&bb->fchecksum[ptr->fileid], chunkbuf, chunk_size * felsize);
-- 
2.43.0


From 80d5ebb3e9af12a84387e2903c8c889555e7942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 07/26] fix: writing with a buffer smaller than an item fails
 instead of looping forever

---
 src/bigfile.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 003128a..4ade683 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -936,6 +936,11 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
         if(chunk_size > towrite) {
             chunk_size = towrite;
         }
+        RAISEIF(chunk_size == 0,
+            ex_insuf,
+            "Buffer is too small for an item of block `%s' (%d bytes)",
+            bb->basename, felsize);
+
         /* write from the beginning of chunk */
         big_array_iter_init(&chunk_iter, &chunk_array);
 
@@ -968,6 +973,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 ex_write:
 ex_seek:
     fclose(fp);
+ex_insuf:
 ex_convert:
 ex_open:
 ex_blockseek:
-- 
2.43.0


From 03829e0090a1988424733d2259c99a7febcfe1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 08/26] fix: the block of a file's own attributes can be read
 and positioned without a crash

---
 src/bigfile.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 4ade683..fe7b210 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -400,6 +400,7 @@ ex_open:
     } else {
         /* The meta block of a big file, has on extra files. */
         bb->Nfile = 0;
+        bb->foffset = calloc(1, sizeof(size_t));
         strcpy(bb->dtype, "####");
         return 0;
     }
@@ -534,6 +535,7 @@ ex_fsize:
     } else {
         /* special meta block of a file */
         bb->Nfile = 0;
+        bb->foffset = calloc(1, sizeof(size_t));
         /* never flush the header */
         bb->dirty = 0;
 
@@ -545,6 +547,7 @@ ex_fsize:
 
 ex_flush2:
         attrset_free(bb->attrset);
+        free(bb->foffset);
         return -1;
     }
 
@@ -804,7 +807,7 @@ big_block_read(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
-    size_t CHUNK_SIZE = CHUNK_BYTES / felsize;
+    size_t CHUNK_SIZE = felsize > 0 ? CHUNK_BYTES / felsize : 0;
 
     BigArray chunk_array = {0};
     size_t dims[2];
@@ -899,7 +902,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
     char * chunkbuf = malloc(CHUNK_BYTES);
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
-    size_t CHUNK_SIZE = CHUNK_BYTES / felsize;
+    size_t CHUNK_SIZE = felsize > 0 ? CHUNK_BYTES / felsize : 0;
 
     BigArray chunk_array = {0};
     size_t dims[2];
-- 
2.43.0


From 6ed28c0fb58380fa1bb98e3a21c99784d583a02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 09/26] fix: report failed conversions and seeks of MPI reads
 and writes

---
 src/bigfile-mpi.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 4bdde18..09d5dbd 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -456,7 +456,7 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
 
     if(0 == (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
         /* no errors*/
-        big_block_seek_rel(block, ptr, totalsize);
+        rt = big_block_seek_rel(block, ptr, totalsize);
     }
 
     MPIU_Segmenter_destroy(seggrp);
@@ -524,18 +524,24 @@ _aggregated(
     }
 
     if(action == big_block_write) {
-        _dtype_convert(ilarray, iarray, localsize * block->nmemb);
+        e = _dtype_convert(ilarray, iarray, localsize * block->nmemb);
+        /* nothing is written if a rank could not convert its part */
+        e = big_file_mpi_broadcast_anyerror(e, comm);
         MPI_Gatherv(lbuf, recvcounts[rank], mpidtype,
                     gbuf, recvcounts, recvdispls, mpidtype, root, comm);
     }
-    if(rank == root) {
-        big_block_seek_rel(block, ptr1, offset);
-        e = action(block, ptr1, garray);
+    if(e == 0 && rank == root) {
+        e = big_block_seek_rel(block, ptr1, offset);
+        if(e == 0) {
+            e = action(block, ptr1, garray);
+        }
     }
     if(action == big_block_read) {
         MPI_Scatterv(gbuf, recvcounts, recvdispls, mpidtype,
                     lbuf, localsize, mpidtype, root, comm);
-        _dtype_convert(iarray, ilarray, localsize * block->nmemb);
+        if(e == 0) {
+            e = _dtype_convert(iarray, ilarray, localsize * block->nmemb);
+        }
     }
 
     if(rank == root) {
-- 
2.43.0


From a9cbd18062822ef6624555b343a38bd5c6fa174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 10/26] fix: checksums of a block are merged once between MPI
 ranks

---
 bigfile/__init__.py    | 2 ++
 bigfile/pyxbigfile.pyx | 6 ++++++
 src/bigfile-mpi.c      | 8 ++++++++
 3 files changed, 16 insertions(+)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 9326613..4fa1ccf 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -223,6 +223,8 @@ class ColumnMPI(Column):
             error = self.comm.allgather(error)
         if any(error):
             raise RuntimeException("open failed on other rank(s)")
+        if self.comm.rank != 0:
+            self._MPI_clear_checksum()
         return r
 
     def close(self):
diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 62b27fd..d9230df 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -528,10 +528,16 @@ cdef class ColumnLowLevelAPI:
         if comm.rank != root:
             _big_block_close_internal(&self.bb)
             _big_block_unpack(&self.bb, container.data)
+            self._MPI_clear_checksum()
 
         if comm.rank == root:
             free(buf)
 
+    def _MPI_clear_checksum(self):
+        # the root keeps the checksums; the other ranks count what they add
+        for i in range(self.bb.Nfile):
+            self.bb.fchecksum[i] = 0
+
     def _MPI_flush(self):
         comm = self.comm
         cdef unsigned int Nfile = self.bb.Nfile
diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 09d5dbd..d7d132d 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -227,6 +227,10 @@ big_block_mpi_grow(BigBlock * bb,
 
     int oldNfile = bb->Nfile;
 
+    /* collect what the ranks have added to the checksums, before their blocks are replaced */
+    rt = big_block_mpi_flush(bb, comm);
+    if(rt != 0) return rt;
+
     if(rank == 0) {
         rt = _big_block_grow_internal(bb, Nfile_grow, fsize_grow);
     } else {
@@ -294,6 +298,8 @@ big_block_mpi_flush(BigBlock * block, MPI_Comm comm)
         }
         rt = big_block_flush(block);
     } else {
+        /* the root has it now */
+        memset(block->fchecksum, 0, sizeof(block->fchecksum[0]) * block->Nfile);
         rt = 0;
     }
 
@@ -378,6 +384,8 @@ big_block_mpi_broadcast(BigBlock * bb, int root, MPI_Comm comm)
 
     if(rank != root) {
         _big_block_unpack(bb, buf);
+        /* the root keeps the checksums; the other ranks count what they add */
+        memset(bb->fchecksum, 0, sizeof(bb->fchecksum[0]) * bb->Nfile);
     }
     free(buf);
     return 0;
-- 
2.43.0


From edc6b8e6bf19e38ba904ebfa69f8cf816d492f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:28 +0000
Subject: [PATCH 11/26] fix: release what a failed open or create of a file or
 block had allocated

---
 src/bigfile-mpi.c | 18 +++++++++++++++---
 src/bigfile.c     | 10 ++++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index d7d132d..73ec66b 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -50,7 +50,11 @@ int big_file_mpi_open(BigFile * bf, const char * basename, MPI_Comm comm) {
         rt = 0;
     }
 
-    BCAST_AND_RAISEIF(rt, comm);
+    rt = big_file_mpi_broadcast_anyerror(rt, comm);
+    if(rt != 0 && rank != 0) {
+        free(bf->basename);
+        bf->basename = NULL;
+    }
 
     return rt;
 }
@@ -67,7 +71,12 @@ int big_file_mpi_create(BigFile * bf, const char * basename, MPI_Comm comm) {
         bf->basename = _strdup(basename);
         rt = 0;
     }
-    BCAST_AND_RAISEIF(rt, comm);
+
+    rt = big_file_mpi_broadcast_anyerror(rt, comm);
+    if(rt != 0 && rank != 0) {
+        free(bf->basename);
+        bf->basename = NULL;
+    }
 
     return rt;
 }
@@ -205,7 +214,10 @@ _big_block_mpi_create(BigBlock * bb,
         fclose(fp);
     }
 
-    BCAST_AND_RAISEIF(rt, comm);
+    rt = big_file_mpi_broadcast_anyerror(rt, comm);
+    if(rt != 0) {
+        _big_block_close_internal(bb);
+    }
 
     return rt;
 }
diff --git a/src/bigfile.c b/src/bigfile.c
index fe7b210..3afa147 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -201,6 +201,8 @@ int big_file_create(BigFile * bf, const char * basename) {
         NULL);
     return 0;
 ex_subdir:
+    free(bf->basename);
+    bf->basename = NULL;
     return -1;
 }
 
@@ -396,7 +398,7 @@ ex_fsize:
 ex_fscanf:
         fclose(fheader);
 ex_open:
-        return -1;
+        goto ex_readattr;
     } else {
         /* The meta block of a big file, has on extra files. */
         bb->Nfile = 0;
@@ -406,6 +408,8 @@ ex_open:
     }
 
 ex_readattr:
+        attrset_free(bb->attrset);
+        free(bb->basename);
         return -1;
 }
 
@@ -524,13 +528,14 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
         bb->dirty = 0;
         return 0;
 ex_flush:
-        attrset_free(bb->attrset);
         free(bb->foffset);
 ex_foffset:
         free(bb->fchecksum);
 ex_fchecksum:
         free(bb->fsize);
 ex_fsize:
+        attrset_free(bb->attrset);
+        free(bb->basename);
         return -1;
     } else {
         /* special meta block of a file */
@@ -548,6 +553,7 @@ ex_fsize:
 ex_flush2:
         attrset_free(bb->attrset);
         free(bb->foffset);
+        free(bb->basename);
         return -1;
     }
 
-- 
2.43.0


From 165ab5ea19bee96b3f6a81e919b5a440c9a5d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:14 +0000
Subject: [PATCH 12/26] fix: an error message is not used as a format again
 when it is passed on, nor cut to fit a fixed size

---
 src/bigfile.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 3afa147..da1abff 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -156,23 +156,28 @@ _big_file_path_is_block(const char * basename)
 void
 _big_file_raise(const char * msg, const char * file, const int line, ...)
 {
-    if(!msg) {
-        if(ERRORSTR) {
-            msg = ERRORSTR;
-        } else {
-            msg = "UNKNOWN ERROR";
-        }
+    va_list va;
+    int n = 0;
+    if(msg) {
+        va_start(va, line);
+        n = vsnprintf(NULL, 0, msg, va);
+        va_end(va);
+        if(n < 0) n = 0;
     }
-
-    size_t len = strlen(msg) + strlen(file) + 512;
+    /* an earlier message is passed on as it is, it may contain '%' */
+    const char * earlier = ERRORSTR ? ERRORSTR : "UNKNOWN ERROR";
+    size_t len = (msg ? (size_t) n : strlen(earlier)) + strlen(file) + 64;
     char * errorstr = malloc(len);
 
-    char * fmtstr = alloca(len);
-    sprintf(fmtstr, "%s @(%s:%d)", msg, file, line);
-    va_list va;
-    va_start(va, line);
-    vsprintf(errorstr, fmtstr, va);
-    va_end(va);
+    if(msg) {
+        errorstr[0] = 0;
+        va_start(va, line);
+        vsnprintf(errorstr, (size_t) n + 1, msg, va);
+        va_end(va);
+    } else {
+        strcpy(errorstr, earlier);
+    }
+    sprintf(errorstr + strlen(errorstr), " @(%s:%d)", file, line);
 
     big_file_set_error_message(errorstr);
     free(errorstr);
-- 
2.43.0


From 83fc4337ca16c63a4a1476f2cda62d4cb34d2125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:14 +0000
Subject: [PATCH 13/26] fix: sizes in error messages are printed with their
 type

---
 src/bigfile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index da1abff..72048ab 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -927,7 +927,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 
     RAISEIF(chunkbuf == NULL,
             ex_malloc,
-            "not enough memory for chunkbuf of size %d bytes", CHUNK_BYTES);
+            "not enough memory for chunkbuf of size %zu bytes", CHUNK_BYTES);
 
     big_array_init(&chunk_array, chunkbuf, bb->dtype, 2, dims, NULL);
     big_array_iter_init(&array_iter, array);
@@ -1555,7 +1555,7 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
 
         RAISEIF(nmemb * itemsize * 2!= strlen(rawdata),
             ex_parse_attr,
-            "NMEMB and data mismiatch: %d x %d (%s) * 2 != %d",
+            "NMEMB and data mismiatch: %d x %d (%s) * 2 != %zu",
             nmemb, itemsize, dtype, strlen(rawdata));
 
         int j, k;
-- 
2.43.0


From e654e6c78afc051840a26e23fe6728df78b58c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:14 +0000
Subject: [PATCH 14/26] fix: opening a block without a name leaves an error
 message

---
 src/bigfile-mpi.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 73ec66b..b78dafa 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -96,7 +96,10 @@ static int _big_block_mpi_open(BigBlock * bb, const char * basename, MPI_Comm co
 
 int big_file_mpi_open_block(BigFile * bf, BigBlock * block, const char * blockname, MPI_Comm comm) {
     if(comm == MPI_COMM_NULL) return 0;
-    if(!bf || !bf->basename || !blockname) return 1;
+    if(!bf || !bf->basename || !blockname) {
+        _big_file_raise("File or block name not given", __FILE__, __LINE__);
+        return 1;
+    }
     char * basename = alloca(strlen(bf->basename) + strlen(blockname) + 128);
     sprintf(basename, "%s/%s/", bf->basename, blockname);
     return _big_block_mpi_open(block, basename, comm);
-- 
2.43.0


From ee41c634b1dacc5063b6b380197022962fdbffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:04 +0000
Subject: [PATCH 15/26] fix: copying tools fail when an attribute or a segment
 could not be copied

---
 utils/bigfile-copy-mpi.c   | 9 +++++++--
 utils/bigfile-copy.c       | 5 ++++-
 utils/bigfile-sample-mpi.c | 9 +++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/utils/bigfile-copy-mpi.c b/utils/bigfile-copy-mpi.c
index 38451ec..a9451ea 100644
--- a/utils/bigfile-copy-mpi.c
+++ b/utils/bigfile-copy-mpi.c
@@ -25,6 +25,7 @@ int verbose = 0;
 int Nfile = -1;
 size_t buffersize = 256 * 1024 * 1024;
 int ThisTask, NTask;
+int failed = 0;
 char * newfilepath = NULL;
 void slave(void);
 void server(void);
@@ -96,7 +97,10 @@ int main(int argc, char * argv[]) {
     int i;
     for(i = 0; i < nattr; i ++) {
         BigAttr * attr = &attrs[i];
-        big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
+        if(0 != big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb)) {
+            fprintf(stderr, "failed to copy attribute: %s\n", big_file_get_error_message());
+            exit(1);
+        }
     }
 
     if(bb.nmemb > 0 && bb.size > 0) {
@@ -114,7 +118,7 @@ int main(int argc, char * argv[]) {
     big_block_mpi_close(&bb, MPI_COMM_WORLD);
     big_file_mpi_close(&bf, MPI_COMM_WORLD);
     big_file_mpi_close(&bfnew, MPI_COMM_WORLD);
-    return 0;
+    return failed;
 }
 
 void server() {
@@ -189,6 +193,7 @@ void slave() {
         MPI_Send(&result, 1, MPI_INT, 0, DONE_TAG, MPI_COMM_WORLD);
         continue;
     bad:
+        failed = 1;
         MPI_Send(&result, 1, MPI_INT, 0, ERROR_TAG, MPI_COMM_WORLD);
         continue;
     }
diff --git a/utils/bigfile-copy.c b/utils/bigfile-copy.c
index f87efab..e3b77b3 100644
--- a/utils/bigfile-copy.c
+++ b/utils/bigfile-copy.c
@@ -84,7 +84,10 @@ int main(int argc, char * argv[]) {
     BigAttr * attrs = big_block_list_attrs(&bb, &nattr);
     for(i = 0; i < nattr; i ++) {
         BigAttr * attr = &attrs[i];
-        big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
+        if(0 != big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb)) {
+            fprintf(stderr, "failed to copy attribute: %s\n", big_file_get_error_message());
+            exit(1);
+        }
     }
     
     if(bb.nmemb > 0 && bb.size > 0) {
diff --git a/utils/bigfile-sample-mpi.c b/utils/bigfile-sample-mpi.c
index 3dcf31b..1d92a51 100644
--- a/utils/bigfile-sample-mpi.c
+++ b/utils/bigfile-sample-mpi.c
@@ -28,6 +28,7 @@ int verbose = 0;
 int Nfile = -1;
 size_t CHUNKSIZE = 1 * 1024 * 1024;
 int ThisTask, NTask;
+int failed = 0;
 char * newfilepath = NULL;
 void slave(void);
 void server(void);
@@ -107,7 +108,10 @@ int main(int argc, char * argv[]) {
     int i;
     for(i = 0; i < nattr; i ++) {
         BigAttr * attr = &attrs[i];
-        big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
+        if(0 != big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb)) {
+            fprintf(stderr, "failed to copy attribute: %s\n", big_file_get_error_message());
+            exit(1);
+        }
     }
 
     if(bb.nmemb > 0 && bb.size > 0) {
@@ -125,7 +129,7 @@ int main(int argc, char * argv[]) {
     big_block_mpi_close(&bb, MPI_COMM_WORLD);
     big_file_mpi_close(&bf, MPI_COMM_WORLD);
     big_file_mpi_close(&bfnew, MPI_COMM_WORLD);
-    return 0;
+    return failed;
 }
 static size_t filesize() {
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_mt19937);
@@ -273,6 +277,7 @@ void slave() {
         MPI_Send(&result, 1, MPI_INT, 0, DONE_TAG, MPI_COMM_WORLD);
         continue;
     bad:
+        failed = 1;
         MPI_Send(&result, 1, MPI_INT, 0, ERROR_TAG, MPI_COMM_WORLD);
         continue;
     }
-- 
2.43.0


From 50ebfdef5855abc46c25bd54337f558fc9b72794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:04 +0000
Subject: [PATCH 16/26] fix: bigfile-create fails when reading the input,
 seeking, writing or closing failed

---
 utils/bigfile-create.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/utils/bigfile-create.c b/utils/bigfile-create.c
index 036bc2c..7b49684 100644
--- a/utils/bigfile-create.c
+++ b/utils/bigfile-create.c
@@ -73,14 +73,27 @@ int main(int argc, char * argv[]) {
         size_t nread = fread(buffer, bb.nmemb * dtype_itemsize(bb.dtype), chunksize, stdin);
         size_t dims[2] = {nread, bb.nmemb};
         big_array_init(&array, buffer, bb.dtype, 2, dims, NULL);
-        big_block_seek(&bb, &ptr, offset);
-        big_block_write(&bb, &ptr, &array);
+        if(ferror(stdin)) {
+            fprintf(stderr, "failed to read the input\n");
+            exit(1);
+        }
+        if(0 != big_block_seek(&bb, &ptr, offset)) {
+            fprintf(stderr, "failed to seek: %s\n", big_file_get_error_message());
+            exit(1);
+        }
+        if(0 != big_block_write(&bb, &ptr, &array)) {
+            fprintf(stderr, "failed to write: %s\n", big_file_get_error_message());
+            exit(1);
+        }
         offset += nread;
         countin += nread;
     }
     bb.size = offset;
     bb.fsize[0] = offset;
-    big_block_close(&bb);
+    if(0 != big_block_close(&bb)) {
+        fprintf(stderr, "failed to close: %s\n", big_file_get_error_message());
+        exit(1);
+    }
     big_file_close(&bf);
     return 0;
 }
-- 
2.43.0


From d47643640f9533e1440a671f8dd075a597d61835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:04 +0000
Subject: [PATCH 17/26] fix: bigfile-set-attr fails when the attribute could
 not be set or saved

---
 utils/bigfile-set-attr.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/bigfile-set-attr.c b/utils/bigfile-set-attr.c
index 291741d..0d30f08 100644
--- a/utils/bigfile-set-attr.c
+++ b/utils/bigfile-set-attr.c
@@ -92,10 +92,16 @@ int main(int argc, char * argv[]) {
         }
     }
 
-    big_block_set_attr(&bb, argv[3], data, dtype, nmemb);
+    if(0 != big_block_set_attr(&bb, argv[3], data, dtype, nmemb)) {
+        fprintf(stderr, "failed to set the attribute: %s\n", big_file_get_error_message());
+        exit(1);
+    }
 
     free(data);
-    big_block_close(&bb);
+    if(0 != big_block_close(&bb)) {
+        fprintf(stderr, "failed to close block: %s %s\n", argv[2], big_file_get_error_message());
+        exit(1);
+    }
     big_file_close(&bf);
     return 0;
 }
-- 
2.43.0


From a7543156eff07c5ae4193489df5c820cf6be4f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:04 +0000
Subject: [PATCH 18/26] fix: cat, ls and get-attr fail when their output could
 not be written or the block not opened

---
 utils/bigfile-cat.c      | 4 ++++
 utils/bigfile-get-attr.c | 4 ++++
 utils/bigfile-ls.c       | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/utils/bigfile-cat.c b/utils/bigfile-cat.c
index 82e1f37..a2df47d 100644
--- a/utils/bigfile-cat.c
+++ b/utils/bigfile-cat.c
@@ -116,6 +116,10 @@ int main(int argc, char * argv[]) {
         offset += array.dims[0];
         countin += array.dims[0];
     }
+    if(ferror(stdout) || 0 != fflush(stdout)) {
+        fprintf(stderr, "failed to write the output\n");
+        exit(1);
+    }
     big_block_close(&bb);
     big_file_close(&bf);
     return 0;
diff --git a/utils/bigfile-get-attr.c b/utils/bigfile-get-attr.c
index 4ce5370..ee52bfc 100644
--- a/utils/bigfile-get-attr.c
+++ b/utils/bigfile-get-attr.c
@@ -82,6 +82,10 @@ int main(int argc, char * argv[]) {
             printf("%s, not attr:\n", argv[i]);
         }
     }
+    if(ferror(stdout) || 0 != fflush(stdout)) {
+        fprintf(stderr, "failed to write the output\n");
+        exit(1);
+    }
     big_block_close(&bb);
     big_file_close(&bf);
     return 0;
diff --git a/utils/bigfile-ls.c b/utils/bigfile-ls.c
index 5c2d3a5..d292e5f 100644
--- a/utils/bigfile-ls.c
+++ b/utils/bigfile-ls.c
@@ -119,8 +119,13 @@ int main(int argc, char * argv[]) {
         }
         if(0 != listbigblock(&bf, argv[2])) {
             fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
+            exit(1);
         }
         big_file_close(&bf);
     }
+    if(ferror(stdout) || 0 != fflush(stdout)) {
+        fprintf(stderr, "failed to write the output\n");
+        exit(1);
+    }
     return 0;
 }
-- 
2.43.0


From 07c9e506607e3f6be5b6f02a59b2c247e229d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:02 +0000
Subject: [PATCH 19/26] fix: names and arguments that do not exist in messages
 of the Python layer and Dataset.create

---
 bigfile/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 4fa1ccf..27dfb4d 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -38,7 +38,7 @@ def _enhance_slicefunc(getitem, returns_none):
                return getitem(self, index, *args)[0]
         else:
             raise TypeError("Expecting a slice or a scalar, got a `%s`" %
-                    str(type(sl)))
+                    str(type(index)))
     return enhanced
 
 def _enhance_getslice(getitem):
@@ -222,7 +222,7 @@ class ColumnMPI(Column):
         finally:
             error = self.comm.allgather(error)
         if any(error):
-            raise RuntimeException("open failed on other rank(s)")
+            raise Error("open failed on other rank(s)")
         if self.comm.rank != 0:
             self._MPI_clear_checksum()
         return r
@@ -334,8 +334,9 @@ class Dataset(pyxbigfile.Dataset):
     """
     @classmethod
     def create(kls, file, dtype, size):
-        self = object.__new__(kls)
-        pyxbigfile.Dataset.__init__(self, dtype=dtype, size=size)
+        self = kls.__new__(kls)
+        pyxbigfile.Dataset.__init__(self, file, dtype=dtype, size=size)
+        return self
 
     def __init__(self, file, column_names=None, blocks=None):
         if blocks is not None:
-- 
2.43.0


From e98727261b970e40463bb705dcaaabdb3fdc2321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:02 +0000
Subject: [PATCH 20/26] fix: unpickling a file and deleting an attribute raise
 if they fail

---
 bigfile/pyxbigfile.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index d9230df..f53f1ee 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -172,11 +172,12 @@ cdef class FileLowLevelAPI:
         filename = filename.encode()
         cdef char * filenameptr = filename
 
-        self._deallocated = deallocated
-
         if not deallocated:
             with nogil:
                 rt = big_file_open(&self.bf, filenameptr)
+            if rt != 0:
+                raise Error()
+        self._deallocated = deallocated
 
     property basename:
         def __get__(self):
@@ -243,7 +244,8 @@ cdef class AttrSet:
         cdef CBigAttr * attr = big_block_lookup_attr(&self.bb.bb, name)
         if attr == NULL:
             raise KeyError("attr not found")
-        big_block_remove_attr(&self.bb.bb, name)
+        if(0 != big_block_remove_attr(&self.bb.bb, name)):
+            raise Error()
 
     def __setitem__(self, name, value):
         name = name.encode()
-- 
2.43.0


From b5c6ec46d67e9e3b11ac8f10fcb0672fa0fb3609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:02 +0000
Subject: [PATCH 21/26] fix: a column that is opened again releases what it
 held

---
 bigfile/pyxbigfile.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index f53f1ee..7cee469 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -352,9 +352,18 @@ cdef class ColumnLowLevelAPI:
         if not deallocated:
             _big_block_unpack(&self.bb, container.data)
 
+    cdef int _release(self) except -1:
+        # close the block that is opened, if any.
+        if not self._deallocated:
+            self._deallocated = True
+            if 0 != big_block_close(&self.bb):
+                raise Error()
+        return 0
+
     def open(self, FileLowLevelAPI f, blockname):
         blockname = blockname.encode()
         cdef char * blocknameptr = blockname
+        self._release()
         with nogil:
             rt = big_file_open_block(&f.bf, &self.bb, blocknameptr)
         if rt != 0:
@@ -372,6 +381,7 @@ cdef class ColumnLowLevelAPI:
         cdef char * blocknameptr
 
         blocknameptr = blockname
+        self._release()
         if dtype is None:
             with nogil:
                 rt = big_file_create_block(&f.bf, &self.bb, blocknameptr, NULL,
-- 
2.43.0


From 7f5558756e000a48a22be8d12da7854539f5c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:02 +0000
Subject: [PATCH 22/26] fix: records are read into and written from fitting
 contiguous arrays only

---
 bigfile/pyxbigfile.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 7cee469..3dfaa34 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -651,6 +651,12 @@ cdef class Dataset:
     def read(self, numpy.intp_t start, numpy.intp_t length, numpy.ndarray out=None):
         if out is None:
             out = numpy.empty(length, self.dtype)
+        elif out.dtype != self.dtype:
+            raise ValueError("output array type mismatches with the dataset")
+        elif out.ndim != 1 or out.shape[0] != length:
+            raise ValueError("output array length mismatches with the request")
+        elif not out.flags.c_contiguous:
+            raise ValueError("output array is not contiguous")
         with nogil:
             rt = big_file_read_records(&self.file.bf, &self.rtype, start, length, out.data)
         if rt != 0:
@@ -686,6 +692,7 @@ cdef class Dataset:
     def write(self, numpy.intp_t start, numpy.ndarray buf):
         assert buf.dtype == self.dtype
         assert buf.ndim == 1
+        buf = numpy.ascontiguousarray(buf)
         with nogil:
             rt = big_file_write_records(&self.file.bf, &self.rtype, start, buf.shape[0], buf.data)
         if rt != 0:
-- 
2.43.0


From fcefb7754c49d69763944ec1fbb173cb449454a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:02 +0000
Subject: [PATCH 23/26] fix: ranks agree on failures of creating, opening and
 filling in the Python MPI layer

---
 bigfile/__init__.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 27dfb4d..6199428 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -201,9 +201,17 @@ class ColumnMPI(Column):
         if not check_unique(blockname, self.comm):
             raise BigFileError("blockname is inconsistent between ranks")
 
-        if self.comm.rank == 0:
-            super(ColumnMPI, self).create(f, blockname, dtype, size, Nfile)
-            super(ColumnMPI, self).close()
+        error = False
+        try:
+            if self.comm.rank == 0:
+                error = True
+                super(ColumnMPI, self).create(f, blockname, dtype, size, Nfile)
+                super(ColumnMPI, self).close()
+                error = False
+        finally:
+            error = self.comm.allgather(error)
+        if any(error):
+            raise Error("create failed on other rank(s)")
         return self.open(f, blockname)
 
     @_enhance_getslice
@@ -249,7 +257,14 @@ class FileMPI(FileBase):
             # if create failed, the next open will fail, collectively
 
         comm.barrier()
-        FileBase.__init__(self, filename, create=False)
+        try:
+            error = True
+            FileBase.__init__(self, filename, create=False)
+            error = False
+        finally:
+            error = comm.allgather(error)
+        if any(error):
+            raise Error("open failed on other rank(s)")
         self.comm = comm
         self.refresh()
 
@@ -313,11 +328,18 @@ class FileMPI(FileBase):
 
         # write memorylimit bytes at most (256M bytes)
         # round to 1024 items
-        itemlimit = memorylimit // dtype.itemsize // 1024 * 1024
+        itemlimit = max(memorylimit // dtype.itemsize // 1024 * 1024, 1)
 
         with self.create(blockname, dtype, size, Nfile) as b:
-            for i in range(0, len(array), itemlimit):
-                b.write(offset + i, numpy.array(array[i:i+itemlimit]))
+            try:
+                error = True
+                for i in range(0, len(array), itemlimit):
+                    b.write(offset + i, numpy.array(array[i:i+itemlimit]))
+                error = False
+            finally:
+                error = self.comm.allgather(error)
+            if any(error):
+                raise Error("write failed on other rank(s)")
 
         return self.open(blockname)
 
-- 
2.43.0


From 606ec64a695c92dae3017cb8d959c53b8072d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:02 +0000
Subject: [PATCH 24/26] fix: slices of columns and datasets name the rows they
 name in numpy

---
 bigfile/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 6199428..d88a83c 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -31,7 +31,7 @@ def _enhance_slicefunc(getitem, returns_none):
         elif index is Ellipsis:
             return getitem(self, slice(None, None, None), *args)
         elif numpy.isscalar(index):
-            index = slice(index, index + 1)
+            index = slice(index, (index + 1) or None)
             if returns_none:
                return getitem(self, index, *args)
             else:
@@ -70,7 +70,7 @@ class Column(ColumnLowLevelAPI):
             start, end, stop = sl.indices(self.size)
             if stop != 1:
                 raise ValueError('must request a contiguous chunk')
-            return self.read(start, end-start)
+            return self.read(start, max(end - start, 0))
         else:
             raise TypeError('Expecting a slice, got a `%s`' % str(type(sl)))
 
@@ -82,6 +82,9 @@ class Column(ColumnLowLevelAPI):
             start, end, stop = sl.indices(self.size)
             if stop != 1:
                 raise ValueError('must request a contiguous chunk')
+            nmemb = int(numpy.prod(self.dtype.shape))
+            if numpy.size(value) != max(end - start, 0) * nmemb:
+                raise ValueError('the value must have as many rows as the chunk')
             self.write(start, value)
         else:
             raise TypeError('Expecting a slice, got a `%s`' % str(type(sl)))
@@ -181,7 +184,7 @@ class File(FileBase):
 
         # write memorylimit bytes at most (256M bytes)
         # round to 1024 items
-        itemlimit = memorylimit // dtype.itemsize // 1024 * 1024
+        itemlimit = max(memorylimit // dtype.itemsize // 1024 * 1024, 1)
 
         with self.create(blockname, dtype, size, Nfile) as b:
             for i in range(0, len(array), itemlimit):
@@ -389,8 +392,9 @@ class Dataset(pyxbigfile.Dataset):
                     str(type(sl)))
         start, end, stop = sl.indices(self.size)
         assert stop == 1
-        result = numpy.empty(end - start, dtype=self.dtype)
-        return self.read(start, end - start, result)
+        length = max(end - start, 0)
+        result = numpy.empty(length, dtype=self.dtype)
+        return self.read(start, length, result)
 
     @_enhance_setslice
     def __setitem__(self, sl, value):
-- 
2.43.0


From e0b540a353eb9a4e725510843a6a8069dd1c31fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 25/26] fix: a block is only created with a data type that can
 be opened again

---
 src/bigfile.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 72048ab..7e89c60 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -507,6 +507,9 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
         }
         /* always use normalized dtype in files. */
         _dtype_normalize(bb->dtype, dtype);
+        /* a block of a type that cannot be read from the header could not be opened again */
+        RAISEIF(!dtype_isvalid(bb->dtype), ex_dtype,
+                "Unreasonable value for dtype of block `%s' (%s)", bb->basename, dtype);
 
         bb->Nfile = Nfile;
         bb->nmemb = nmemb;
@@ -539,6 +542,7 @@ ex_foffset:
 ex_fchecksum:
         free(bb->fsize);
 ex_fsize:
+ex_dtype:
         attrset_free(bb->attrset);
         free(bb->basename);
         return -1;
@@ -1066,6 +1070,9 @@ dtype_isvalid(const char * dtype)
         default:
             return 0;
     }
+    /* nothing but digits: a blank would end the dtype in the header */
+    if(dtype[2 + strspn(&dtype[2], "0123456789")] != 0)
+        return 0;
     int width = atoi(&dtype[2]);
     if(width > 16 || width <= 0)
         return 0;
-- 
2.43.0


From d699bd370084a88604aba9297341e8208b305bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 26/26] fix: conversions do not change the source and swap the
 parts of complex numbers one by one

---
 src/bigfile.c | 54 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 7e89c60..f810ca6 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1295,18 +1295,34 @@ int
 _dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
 {
     /* cast buf2 of dtype2 into buf1 of dtype1 */
-    /* match src to machine endianness */
-    if(src->array->dtype[0] != MACHINE_ENDIANNESS) {
-        BigArrayIter iter = *src;
-        byte_swap(&iter, nmemb);
-    }
-
     BigArrayIter iter1 = *dst;
     BigArrayIter iter2 = *src;
 
-    if(0 != cast(&iter1, &iter2, nmemb)) {
-        /* cast is not supported */
-        return -1;
+    if(src->array->dtype[0] != MACHINE_ENDIANNESS) {
+        /* match src to machine endianness, in a copy: src belongs to the caller */
+        BigArray native;
+        BigArrayIter iter;
+        int elsize = big_file_dtype_itemsize(src->array->dtype);
+        char * buffer = malloc(nmemb * elsize + 1);
+        RAISEIF(buffer == NULL,
+                ex_convert,
+                "Not enough memory for converting %zu items", nmemb);
+        big_array_init(&native, buffer, src->array->dtype, 1, &nmemb, NULL);
+        big_array_iter_init(&iter, &native);
+        int rt = cast(&iter, &iter2, nmemb);
+        if(rt == 0) {
+            big_array_iter_init(&iter, &native);
+            byte_swap(&iter, nmemb);
+            big_array_iter_init(&iter, &native);
+            rt = cast(&iter1, &iter, nmemb);
+        }
+        free(buffer);
+        if(rt != 0) goto ex_convert;
+    } else {
+        if(0 != cast(&iter1, &iter2, nmemb)) {
+            /* cast is not supported */
+            goto ex_convert;
+        }
     }
 
     /* match dst to machine endianness */
@@ -1317,6 +1333,8 @@ _dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
     *dst = iter1;
     *src = iter2;
     return 0;
+ex_convert:
+    return -1;
 }
 
 
@@ -1327,16 +1345,20 @@ byte_swap(BigArrayIter * iter, size_t nmemb)
     int elsize = big_file_dtype_itemsize(iter->array->dtype);
     if(elsize == 1) return;
     /* need byte swap; do it now on buf2 */
-    /* XXX: this may still be wrong. */
     ptrdiff_t i;
-    int half = elsize >> 1;
+    /* the parts of a complex number are swapped one by one */
+    int parts = iter->array->dtype[1] == 'c' ? 2 : 1;
+    int width = elsize / parts;
+    int half = width >> 1;
     for(i = 0; i < nmemb; i ++) {
-        int j;
+        int j, k;
         char * ptr = iter->dataptr;
-        for(j = 0; j < half; j ++) {
-            char tmp = ptr[j];
-            ptr[j] = ptr[elsize - j - 1];
-            ptr[elsize - j - 1] = tmp;
+        for(k = 0; k < parts; k ++, ptr += width) {
+            for(j = 0; j < half; j ++) {
+                char tmp = ptr[j];
+                ptr[j] = ptr[width - j - 1];
+                ptr[width - j - 1] = tmp;
+            }
         }
         big_array_iter_advance(iter);
     }
-- 
2.43.0

