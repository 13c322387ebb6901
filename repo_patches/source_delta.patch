From d2a1d43b043e6db36ca3e3e8384140e40b5b1634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:20 +0000
Subject: [PATCH 01/23] fix: report failed SAC writes instead of exiting with
 success

---
 pygrt/C_extension/src/common/sacio.c  | 5 ++++-
 pygrt/C_extension/src/common/sacio.c_ | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/common/sacio.c b/pygrt/C_extension/src/common/sacio.c
index e56193a..3aa15e4 100644
--- a/pygrt/C_extension/src/common/sacio.c
+++ b/pygrt/C_extension/src/common/sacio.c
@@ -54,7 +54,10 @@ SACTRACE * grt_new_SACTRACE(float dt, int nt, float b0)
 
 int grt_write_SACTRACE(const char *path, SACTRACE *sac)
 {
-    return write_sac(path, sac->hd, sac->data);
+    if (write_sac(path, sac->hd, sac->data) != 0){
+        GRTRaiseError("write %s failed.\n", path);
+    }
+    return 0;
 }
 
 
diff --git a/pygrt/C_extension/src/common/sacio.c_ b/pygrt/C_extension/src/common/sacio.c_
index e6dbd1b..9659355 100644
--- a/pygrt/C_extension/src/common/sacio.c_
+++ b/pygrt/C_extension/src/common/sacio.c_
@@ -241,7 +241,10 @@ int write_sac(const char *name, SACHEAD hd, const float *ar)
         fclose(strm);
         return -1;
     }
-    fclose(strm);
+    if (fclose(strm) != 0) {
+        fprintf(stderr, "Error in closing SAC file %s\n", name);
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From 726a9589ff1029d0e22762cce5d861a5102f6eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:03 +0000
Subject: [PATCH 02/23] fix: syn reports unreadable Green's-function
 directories instead of skipping them

---
 .../include/grt/common/checkerror.h           | 10 +++++
 pygrt/C_extension/src/dynamic/grt_syn.c       | 41 +++++++++++++++----
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/checkerror.h b/pygrt/C_extension/include/grt/common/checkerror.h
index 894181e..c1b30ec 100644
--- a/pygrt/C_extension/include/grt/common/checkerror.h
+++ b/pygrt/C_extension/include/grt/common/checkerror.h
@@ -115,6 +115,16 @@
     }\
 })
 
+// GRT检查：读取下一个目录项，读取出错则报错，正常结束时返回 NULL
+#define GRTCheckReadDir(dp, dirpath) ({\
+    errno = 0;\
+    struct dirent *_entry_ = readdir(dp);\
+    if(_entry_ == NULL && errno != 0) {\
+        GRTRaiseError("Cannot read directory \"%s\". Error code: %d\n", dirpath, errno);\
+    }\
+    _entry_;\
+})
+
 // GRT检查：目录是否存在
 #define GRTCheckDirExist(dirpath) ({\
     DIR *dir = opendir(dirpath);\
diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index c81057a..cb39978 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -497,8 +497,12 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
     // 随机读取一个 sac，确定 dist 和 src_mu
     {
         struct dirent *entry;
+        bool found = false;
         DIR *dp = opendir(Ctrl->G.s_grnpath);
-        while ((entry = readdir(dp))) {
+        if(dp == NULL){
+            GRTRaiseError("Unable to open Green's-function directory \"%s\".", Ctrl->G.s_grnpath);
+        }
+        while ((entry = GRTCheckReadDir(dp, Ctrl->G.s_grnpath))) {
             if (strlen(entry->d_name) <= 4)  continue;
             if (strcmp(entry->d_name + strlen(entry->d_name) - 3, "sac") != 0)  continue;
 
@@ -537,29 +541,38 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             
             grt_free_SACTRACE(sac);
             
+            found = true;
             break;
         }
 
         closedir(dp);
+
+        if(! found){
+            GRTRaiseError("No SAC file in Green's-function directory \"%s\".", Ctrl->G.s_grnpath);
+        }
     }
 }
 
 
-/** 返回目录中的任意一个 SAC 文件路径 */
+/** 返回目录中的任意一个 SAC 文件路径，没有则返回 NULL */
 static char *find_sac_in_dir(const char *dirpath)
 {
     DIR *dir = opendir(dirpath);
-    if(dir == NULL) return NULL;
+    if(dir == NULL){
+        GRTRaiseError("Unable to open Green's-function directory \"%s\".", dirpath);
+    }
 
     struct dirent *entry;
-    while((entry = readdir(dir)) != NULL){
+    while((entry = GRTCheckReadDir(dir, dirpath)) != NULL){
         size_t len = strlen(entry->d_name);
         if(len <= 4 || strcmp(entry->d_name + len - 4, ".sac") != 0) continue;
 
         char *filepath = NULL;
         GRT_SAFE_ASPRINTF(&filepath, "%s/%s", dirpath, entry->d_name);
         struct stat st;
-        if(stat(filepath, &st) == 0 && S_ISREG(st.st_mode)){
+        if(stat(filepath, &st) != 0){
+            if(errno != ENOENT)  GRTRaiseError("Cannot inspect \"%s\". Error code: %d\n", filepath, errno);
+        } else if(S_ISREG(st.st_mode)){
             closedir(dir);
             return filepath;
         }
@@ -619,13 +632,18 @@ static void resolve_syn_grn_path(GRT_MODULE_CTRL *Ctrl)
     size_t ndeprcvs = 0;
     size_t ndists = 0;
     struct dirent *entry;
-    while((entry = readdir(root)) != NULL){
+    while((entry = GRTCheckReadDir(root, Ctrl->G.s_grnpath)) != NULL){
         if(entry->d_name[0] == '.') continue;
 
         char *dirpath = NULL;
         GRT_SAFE_ASPRINTF(&dirpath, "%s/%s", Ctrl->G.s_grnpath, entry->d_name);
         struct stat st;
-        if(stat(dirpath, &st) != 0 || !S_ISDIR(st.st_mode)){
+        if(stat(dirpath, &st) != 0){
+            if(errno != ENOENT)  GRTRaiseError("Cannot inspect \"%s\". Error code: %d\n", dirpath, errno);
+            GRT_SAFE_FREE_PTR(dirpath);
+            continue;
+        }
+        if(!S_ISDIR(st.st_mode)){
             GRT_SAFE_FREE_PTR(dirpath);
             continue;
         }
@@ -685,13 +703,18 @@ static void resolve_syn_grn_path(GRT_MODULE_CTRL *Ctrl)
 
     char *match = NULL;
     size_t nmatch = 0;
-    while((entry = readdir(root)) != NULL){
+    while((entry = GRTCheckReadDir(root, Ctrl->G.s_grnpath)) != NULL){
         if(entry->d_name[0] == '.') continue;
 
         char *dirpath = NULL;
         GRT_SAFE_ASPRINTF(&dirpath, "%s/%s", Ctrl->G.s_grnpath, entry->d_name);
         struct stat st;
-        if(stat(dirpath, &st) != 0 || !S_ISDIR(st.st_mode)){
+        if(stat(dirpath, &st) != 0){
+            if(errno != ENOENT)  GRTRaiseError("Cannot inspect \"%s\". Error code: %d\n", dirpath, errno);
+            GRT_SAFE_FREE_PTR(dirpath);
+            continue;
+        }
+        if(!S_ISDIR(st.st_mode)){
             GRT_SAFE_FREE_PTR(dirpath);
             continue;
         }
-- 
2.43.0


From 17975812cc2bcdf1d1de032bd109e2d9d50d1f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:49 +0000
Subject: [PATCH 03/23] fix: circular convolution read before the array for a
 time function longer than the record

---
 pygrt/C_extension/src/dynamic/signals.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/dynamic/signals.c b/pygrt/C_extension/src/dynamic/signals.c
index 849b3b0..2ab1fa1 100644
--- a/pygrt/C_extension/src/dynamic/signals.c
+++ b/pygrt/C_extension/src/dynamic/signals.c
@@ -137,7 +137,8 @@ void grt_oaconvolve(float *x, int nx, float *h, int nh, float *y, int ny, bool i
         for(int n=0; n<ny; ++n) {
             y[n] = 0.0;
             for(int k=0; k<nh; ++k) {
-                y[n] += x[(n - k + nx)%nx] * h[k];
+                // 时间函数可能比记录更长，先取模避免负索引
+                y[n] += x[((n - k)%nx + nx)%nx] * h[k];
             }
         }
     } else {
-- 
2.43.0


From 302d4aab53f78d9ad2cd02c8d86d0ce5ff102791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:58 +0000
Subject: [PATCH 04/23] fix: check the final flush of NetCDF files, which
 nc_close does not report

---
 pygrt/C_extension/include/grt/common/mynetcdf.h    |  6 ++++++
 pygrt/C_extension/src/modal/modal_util.c           | 10 +++++-----
 pygrt/C_extension/src/okada/grt_okada.c            |  2 +-
 pygrt/C_extension/src/static/grt_static_rotation.c |  2 +-
 pygrt/C_extension/src/static/grt_static_strain.c   |  2 +-
 pygrt/C_extension/src/static/grt_static_stress.c   |  2 +-
 pygrt/C_extension/src/static/grt_static_syn.c      |  2 +-
 pygrt/C_extension/src/static/stgrnlib.c            |  2 +-
 8 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/mynetcdf.h b/pygrt/C_extension/include/grt/common/mynetcdf.h
index 8777158..27a32b9 100644
--- a/pygrt/C_extension/include/grt/common/mynetcdf.h
+++ b/pygrt/C_extension/include/grt/common/mynetcdf.h
@@ -20,3 +20,9 @@
     } \
 })
 
+// 关闭写入的文件。nc_close 不返回最后一次刷新缓存的错误，因此先用 nc_sync 检查
+#define NC_CLOSE_WRITTEN(ncid) ({\
+    NC_CHECK(nc_sync(ncid)); \
+    NC_CHECK(nc_close(ncid)); \
+})
+
diff --git a/pygrt/C_extension/src/modal/modal_util.c b/pygrt/C_extension/src/modal/modal_util.c
index 30edb05..7c1f5bd 100644
--- a/pygrt/C_extension/src/modal/modal_util.c
+++ b/pygrt/C_extension/src/modal/modal_util.c
@@ -123,7 +123,7 @@ void grt_output_cdisp(const char *filepath, const char *full_command, const char
     }
     
     // 关闭文件
-    NC_CHECK(nc_close(ncid));
+    NC_CLOSE_WRITTEN(ncid);
 
 }
 
@@ -237,7 +237,7 @@ void grt_output_udisp(const char *filepath, EIGENFN_INFO *eigfnmet)
     }
     
     // 关闭文件
-    NC_CHECK(nc_close(ncid));
+    NC_CLOSE_WRITTEN(ncid);
 
 }
 
@@ -353,7 +353,7 @@ void grt_output_eigenfns(const char *filepath, const int ncols, EIGENFN_INFO *ei
     }
     
     // 关闭文件
-    NC_CHECK(nc_close(ncid));
+    NC_CLOSE_WRITTEN(ncid);
 
     GRT_SAFE_FREE_PTR(realimag_part);
 }
@@ -466,7 +466,7 @@ void grt_output_energy_integrals(const char *filepath, EIGENFN_INFO *eigfnmet)
     }
 
     // 关闭文件
-    NC_CHECK(nc_close(ncid));
+    NC_CLOSE_WRITTEN(ncid);
 
     GRT_SAFE_FREE_PTR(realimag_part);
 
@@ -604,7 +604,7 @@ void grt_output_sensitivity(const char *filepath, const char *char_uc, EIGENFN_I
     }
 
     // 关闭文件
-    NC_CHECK(nc_close(ncid));
+    NC_CLOSE_WRITTEN(ncid);
 
     GRT_SAFE_FREE_PTR(real_part);
 }
diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index ddc4711..92344e3 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -712,7 +712,7 @@ static void save_nc(const GRT_MODULE_CTRL *ctrl, const OKADA_MEDIUM_PARAMS *medi
         }
     }
     GRT_SAFE_FREE_PTR(buffer);
-    NC_CHECK(nc_close(ncid));
+    NC_CLOSE_WRITTEN(ncid);
 }
 
 /** Okada 子模块主函数 */
diff --git a/pygrt/C_extension/src/static/grt_static_rotation.c b/pygrt/C_extension/src/static/grt_static_rotation.c
index 5786439..8aebd3a 100644
--- a/pygrt/C_extension/src/static/grt_static_rotation.c
+++ b/pygrt/C_extension/src/static/grt_static_rotation.c
@@ -231,7 +231,7 @@ int static_rotation_main(int argc, char **argv){
     }
 
     // 关闭文件
-    NC_CHECK(nc_close(in_ncid));
+    NC_CLOSE_WRITTEN(in_ncid);
 
     GRT_SAFE_FREE_PTR(norths_flat);
     GRT_SAFE_FREE_PTR(easts_flat);
diff --git a/pygrt/C_extension/src/static/grt_static_strain.c b/pygrt/C_extension/src/static/grt_static_strain.c
index af4b080..1f76eb3 100644
--- a/pygrt/C_extension/src/static/grt_static_strain.c
+++ b/pygrt/C_extension/src/static/grt_static_strain.c
@@ -232,7 +232,7 @@ int static_strain_main(int argc, char **argv){
     }
 
     // 关闭文件
-    NC_CHECK(nc_close(in_ncid));
+    NC_CLOSE_WRITTEN(in_ncid);
 
     GRT_SAFE_FREE_PTR(norths_flat);
     GRT_SAFE_FREE_PTR(easts_flat);
diff --git a/pygrt/C_extension/src/static/grt_static_stress.c b/pygrt/C_extension/src/static/grt_static_stress.c
index aacea2d..99308d0 100644
--- a/pygrt/C_extension/src/static/grt_static_stress.c
+++ b/pygrt/C_extension/src/static/grt_static_stress.c
@@ -289,7 +289,7 @@ int static_stress_main(int argc, char **argv){
     }
 
     // 关闭文件
-    NC_CHECK(nc_close(in_ncid));
+    NC_CLOSE_WRITTEN(in_ncid);
 
     GRT_SAFE_FREE_PTR(norths_flat);
     GRT_SAFE_FREE_PTR(easts_flat);
diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index aa07e37..b890d82 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -1402,7 +1402,7 @@ static void save_syn_nc(
     }
 
     put_syn_fields(ncid, recv->npts, calc_upar, syn, syn_upar, syn_varids, syn_upar_varids);
-    NC_CHECK(nc_close(ncid));
+    NC_CLOSE_WRITTEN(ncid);
 }
 
 
diff --git a/pygrt/C_extension/src/static/stgrnlib.c b/pygrt/C_extension/src/static/stgrnlib.c
index 043d808..400b43a 100644
--- a/pygrt/C_extension/src/static/stgrnlib.c
+++ b/pygrt/C_extension/src/static/stgrnlib.c
@@ -506,5 +506,5 @@ void grt_stgrnlib_save_nc(const STGRNLIB *lib, const char *path)
         }
     }
     GRT_SAFE_FREE_PTR(tmpdata);
-    NC_CHECK(nc_close(ncid));
+    NC_CLOSE_WRITTEN(ncid);
 }
-- 
2.43.0


From 5860bb50161757a4189dfe218ee7f81a29d4cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:41 +0000
Subject: [PATCH 05/23] fix: exit with failure when standard output could not
 be written

---
 pygrt/C_extension/src/grt.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/grt.c b/pygrt/C_extension/src/grt.c
index 3f4063d..53de4b4 100644
--- a/pygrt/C_extension/src/grt.c
+++ b/pygrt/C_extension/src/grt.c
@@ -181,8 +181,15 @@ int main(int argc, char **argv) {
         getopt_from_command(Ctrl, argc, argv);
     }
     
-    dispatch_command(Ctrl, argc, argv);
+    int return_code = dispatch_command(Ctrl, argc, argv);
 
     free_Ctrl(Ctrl);
-    return EXIT_SUCCESS;
+
+    // 标准输出也是结果的一部分，写入失败不能以成功状态退出
+    GRT_MODULE_NAME = GRT_MAIN_COMMAND;
+    bool stdout_failed = (fflush(stdout) != 0) || ferror(stdout);
+    if((fclose(stdout) != 0 && errno != EBADF) || stdout_failed){
+        GRTRaiseError("Failed to write to standard output.\n");
+    }
+    return return_code;
 }
-- 
2.43.0


From 96b754713bbaf815cc8430fb98323b41c0f52fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:12 +0000
Subject: [PATCH 06/23] fix: report failed writes of statistics files, model
 copies and command logs

---
 pygrt/C_extension/include/grt/common/checkerror.h | 10 ++++++++++
 pygrt/C_extension/src/common/util.c               |  2 +-
 pygrt/C_extension/src/dynamic/grt_greenfn.c       |  2 +-
 pygrt/C_extension/src/dynamic/grt_kernel.c        |  8 ++++----
 pygrt/C_extension/src/integral/integ_process.c    | 12 ++++++------
 pygrt/C_extension/src/modal/grt_modsum.c          |  2 +-
 6 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/checkerror.h b/pygrt/C_extension/include/grt/common/checkerror.h
index c1b30ec..d5ad861 100644
--- a/pygrt/C_extension/include/grt/common/checkerror.h
+++ b/pygrt/C_extension/include/grt/common/checkerror.h
@@ -15,6 +15,7 @@
 #include <dirent.h>
 #include <errno.h>
 #include <stdlib.h>
+#include <stdbool.h>
 
 #include "grt/common/colorstr.h"
 
@@ -106,6 +107,15 @@
     _fp_;\
 })
 
+// GRT检查：关闭写入的文件，任何一次写入失败都会报错
+#define GRTCheckCloseWrittenFile(fp, filepath) ({\
+    bool _failed_ = (ferror(fp) != 0);\
+    if(fclose(fp) != 0)  _failed_ = true;\
+    if(_failed_) {\
+        GRTRaiseError("Failed to write File \"%s\".\n", filepath);\
+    }\
+})
+
 // GRT检查：创建目录
 #define GRTCheckMakeDir(dirpath) ({\
     if(mkdir(dirpath, 0777) != 0){\
diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index b452898..3f2ac91 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -379,7 +379,7 @@ void grt_copy_file(const char *src, const char *dst)
     }
 
     fclose(fin);
-    fclose(fout);
+    GRTCheckCloseWrittenFile(fout, dst);
 }
 
 
diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 82257c0..3d4d679 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -823,7 +823,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
         fprintf(fp, "%s ", argv[i]);
     }
     fprintf(fp, "\n");
-    fclose(fp);
+    GRTCheckCloseWrittenFile(fp, dummy);
     GRT_SAFE_FREE_PTR(dummy);
 
 }
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 0474c1e..44c4d4b 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -365,7 +365,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
         fprintf(fp, "%s ", argv[i]);
     }
     fprintf(fp, "\n");
-    fclose(fp);
+    GRTCheckCloseWrittenFile(fp, dummy);
     GRT_SAFE_FREE_PTR(dummy);
 }
 
@@ -434,8 +434,7 @@ int kernel_main(int argc, char **argv)
         FILE *fstats = NULL;
         char *fname = NULL;
         GRT_SAFE_ASPRINTF(&fname, "%s/C_%04zu_%.5e", s_output_dir, iw, freq);
-        fstats = fopen(fname, "wb");
-        GRT_SAFE_FREE_PTR(fname);
+        fstats = GRTCheckOpenFile(fname, "wb");
 
         // 不同震源不同阶数的核函数 F(k, w) 
         cplxChnlGrid QWV = {0};
@@ -461,7 +460,8 @@ int kernel_main(int argc, char **argv)
             grt_write_stats(fstats, cc, (Ctrl->e.active)? QWV_uiz : QWV);
         }
 
-        fclose(fstats);
+        GRTCheckCloseWrittenFile(fstats, fname);
+        GRT_SAFE_FREE_PTR(fname);
 
         grt_free_mod1d_state(local_mstat);
 
diff --git a/pygrt/C_extension/src/integral/integ_process.c b/pygrt/C_extension/src/integral/integ_process.c
index 9945af0..6ce46c9 100644
--- a/pygrt/C_extension/src/integral/integ_process.c
+++ b/pygrt/C_extension/src/integral/integ_process.c
@@ -32,7 +32,7 @@ void grt_KPROC_init_fstats(
     Kproc->ptam_fstatsnr = (FILE *(*)[2])calloc(nr, sizeof(*Kproc->ptam_fstatsnr));
     char *fname = NULL;
     GRT_SAFE_ASPRINTF(&fname, "%s/K%s", statsstr, suffix);
-    Kproc->fstats = fopen(fname, "wb");
+    Kproc->fstats = GRTCheckOpenFile(fname, "wb");
 
     // PTAM的积分中间结果，每个震中距两个文件，保持现有统计文件布局
     // 在文件名后加后缀，区分不同震中距
@@ -45,9 +45,9 @@ void grt_KPROC_init_fstats(
 
             Kproc->ptam_fstatsnr[ir][0] = Kproc->ptam_fstatsnr[ir][1] = NULL;
             GRT_SAFE_ASPRINTF(&fname, "%s/K%s", ptam_dirname, suffix);
-            Kproc->ptam_fstatsnr[ir][0] = fopen(fname, "wb");
+            Kproc->ptam_fstatsnr[ir][0] = GRTCheckOpenFile(fname, "wb");
             GRT_SAFE_ASPRINTF(&fname, "%s/PTAM%s", ptam_dirname, suffix);
-            Kproc->ptam_fstatsnr[ir][1] = fopen(fname, "wb");
+            Kproc->ptam_fstatsnr[ir][1] = GRTCheckOpenFile(fname, "wb");
         }
     }
     
@@ -58,15 +58,15 @@ void grt_KPROC_init_fstats(
 
 void grt_KPROC_destroy_fstats(const size_t nr, K_INTEG_PROCESS *Kproc)
 {
-    if(Kproc->fstats!=NULL) fclose(Kproc->fstats);
+    if(Kproc->fstats!=NULL) GRTCheckCloseWrittenFile(Kproc->fstats, "K");
 
     if(Kproc->ptam_fstatsnr != NULL){
         for(size_t ir=0; ir<nr; ++ir){
             if(Kproc->ptam_fstatsnr[ir][0]!=NULL){
-                fclose(Kproc->ptam_fstatsnr[ir][0]);
+                GRTCheckCloseWrittenFile(Kproc->ptam_fstatsnr[ir][0], "PTAM/K");
             }
             if(Kproc->ptam_fstatsnr[ir][1]!=NULL){
-                fclose(Kproc->ptam_fstatsnr[ir][1]);
+                GRTCheckCloseWrittenFile(Kproc->ptam_fstatsnr[ir][1], "PTAM/PTAM");
             }
         }
         GRT_SAFE_FREE_PTR(Kproc->ptam_fstatsnr);
diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index 755a52e..f75880c 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -648,7 +648,7 @@ int modsum_main(int argc, char **argv){
         fprintf(fp, "%s ", argv[i]);
     }
     fprintf(fp, "\n");
-    fclose(fp);
+    GRTCheckCloseWrittenFile(fp, dummy);
     GRT_SAFE_FREE_PTR(dummy);
 
     bool doEX = Ctrl->G.doEX;
-- 
2.43.0


From a7040180efe264f54ea197a6cfc8b4b0562bb0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:09 +0000
Subject: [PATCH 07/23] fix: a read error or failed allocation in the line
 reader is no longer taken for the end of the file

---
 pygrt/C_extension/src/common/util.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index 3f2ac91..c4807e8 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -398,7 +398,7 @@ ssize_t grt_getline(char **lineptr, size_t *n, FILE *stream){
         size = 128;
         buf = malloc(size);
         if (buf == NULL) {
-            return -1;
+            GRTRaiseError("Failed to allocate a line buffer.\n");
         }
     }
     
@@ -409,8 +409,7 @@ ssize_t grt_getline(char **lineptr, size_t *n, FILE *stream){
             size_t new_size = size * 2;
             char *new_buf = realloc(buf, new_size);
             if (new_buf == NULL) {
-                free(buf);
-                return -1;
+                GRTRaiseError("Failed to allocate a line buffer.\n");
             }
             buf = new_buf;
             size = new_size;
@@ -424,6 +423,11 @@ ssize_t grt_getline(char **lineptr, size_t *n, FILE *stream){
         }
     }
     
+    // 读取出错不能当作文件结束
+    if (c == EOF && ferror(stream)) {
+        GRTRaiseError("Failed to read a line from an input file.\n");
+    }
+
     // 如果没有读取到任何字符且遇到EOF
     if (len == 0 && c == EOF) {
         return -1;
-- 
2.43.0


From 5c1eadc01dbb74247fa38ce9cf662684aa42144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:59 +0000
Subject: [PATCH 08/23] fix: a failed string copy is no longer taken for an
 option that was not given

---
 pygrt/C_extension/include/grt/common/const.h   |  9 +++++++++
 pygrt/C_extension/src/common/util.c            |  2 +-
 pygrt/C_extension/src/dynamic/grt_greenfn.c    | 16 ++++++++--------
 pygrt/C_extension/src/dynamic/grt_kernel.c     |  6 +++---
 pygrt/C_extension/src/dynamic/grt_rotation.c   |  2 +-
 pygrt/C_extension/src/dynamic/grt_strain.c     |  2 +-
 pygrt/C_extension/src/dynamic/grt_stress.c     |  2 +-
 pygrt/C_extension/src/dynamic/grt_syn.c        |  4 ++--
 pygrt/C_extension/src/grt.c                    |  2 +-
 pygrt/C_extension/src/modal/grt_eigenfn.c      | 18 +++++++++---------
 pygrt/C_extension/src/modal/grt_eigenv.c       | 10 +++++-----
 pygrt/C_extension/src/modal/grt_modsum.c       |  6 +++---
 pygrt/C_extension/src/okada/grt_okada.c        |  4 ++--
 .../src/static/grt_static_greenfn.c            |  8 ++++----
 .../src/static/grt_static_rotation.c           |  2 +-
 .../C_extension/src/static/grt_static_strain.c |  2 +-
 .../C_extension/src/static/grt_static_stress.c |  2 +-
 pygrt/C_extension/src/static/grt_static_syn.c  | 10 +++++-----
 pygrt/C_extension/src/tools/grt_disp2asc.c     |  6 +++---
 pygrt/C_extension/src/tools/grt_ker2asc.c      |  2 +-
 pygrt/C_extension/src/tools/grt_sac2asc.c      |  2 +-
 pygrt/C_extension/src/tools/grt_travt.c        |  2 +-
 22 files changed, 64 insertions(+), 55 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/const.h b/pygrt/C_extension/include/grt/common/const.h
index f7b462a..26442ab 100755
--- a/pygrt/C_extension/include/grt/common/const.h
+++ b/pygrt/C_extension/include/grt/common/const.h
@@ -112,6 +112,15 @@ typedef double complex cplx_t;
     *(ptr) = _tmp; \
 })
 
+// 复制字符串，内存不足时报错（空指针会被误认为选项未设置）
+#define GRT_SAFE_STRDUP(str) ({\
+    char *_dup = strdup(str);\
+    if(_dup == NULL){\
+        GRTRaiseError("Failed to copy a string: out of memory.\n");\
+    }\
+    _dup;\
+})
+
 // -----------------------------------------------------------------------------
 #define GRT_RAYL_DIM   4     ///< 矩阵传播中与 Rayleigh 波相关的维度
 #define GRT_LOVE_DIM   2     ///< 矩阵传播中与 Love 波相关的项的维度
diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index c4807e8..a571346 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -20,7 +20,7 @@
 
 char ** grt_string_split(const char *string, const char *delim, size_t *size)
 {
-    char *str_copy = strdup(string);  // 创建字符串副本，以免修改原始字符串
+    char *str_copy = GRT_SAFE_STRDUP(string);  // 创建字符串副本，以免修改原始字符串
     char *token = strtok(str_copy, delim);
 
     char **s_split = NULL;
diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 3d4d679..b3d4fb9 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -429,7 +429,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 互相用空格隔开即可
             case 'M':
                 Ctrl->M.active = true;
-                Ctrl->M.s_modelpath = strdup(optarg);
+                Ctrl->M.s_modelpath = GRT_SAFE_STRDUP(optarg);
                 Ctrl->M.s_modelname = grt_get_basename(Ctrl->M.s_modelpath);
                 break;
 
@@ -481,7 +481,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             case 'N':
                 Ctrl->N.active = true;
                 {
-                    char *string = strdup(optarg);
+                    char *string = GRT_SAFE_STRDUP(optarg);
                     char *token = strtok(string, "+");
                     if(2 != sscanf(token, "%zu/%lf", &Ctrl->N.nt, &Ctrl->N.dt)){
                         GRTBadOptionError(N, "");
@@ -536,7 +536,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 输出路径 -Ooutput_dir
             case 'O':
                 Ctrl->O.active = true;
-                Ctrl->O.s_output_dir = strdup(optarg);
+                Ctrl->O.s_output_dir = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // 频带 -H f1/f2
@@ -554,7 +554,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             case 'L':
                 Ctrl->L.active = true;
                 {
-                    char *string = strdup(optarg);
+                    char *string = GRT_SAFE_STRDUP(optarg);
                     char *token = strtok(string, "+");
                     // 如果首先不是加号，则先读取DWM的length
                     if(optarg[0] != '+'){
@@ -649,7 +649,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             case 'K':
                 Ctrl->K.active = true;
                 {
-                char *line = strdup(optarg);
+                char *line = GRT_SAFE_STRDUP(optarg);
                 char *token = strtok(line, "+");
                 while(token != NULL){
                     switch(token[0]) {
@@ -710,7 +710,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 震中距数组，-R<r1>,<r2>[,...]|<r1>/<r2>/<dr>|<file>
             case 'R':
                 Ctrl->R.active = true;
-                Ctrl->R.s_raw = strdup(optarg);
+                Ctrl->R.s_raw = GRT_SAFE_STRDUP(optarg);
                 Ctrl->R.rs = grt_parse_real_array(optarg, &Ctrl->R.nr, &Ctrl->R.s_rs, 'R');
                 break;
 
@@ -761,7 +761,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                 Ctrl->S.active = true;
                 // 如果非空，则读取对应索引，要求不能为负数；否则在 switch 外手动创建所有索引值
                 if(optarg != NULL){
-                    Ctrl->S.s_raw = strdup(optarg);
+                    Ctrl->S.s_raw = GRT_SAFE_STRDUP(optarg);
                     Ctrl->S.s_statsidxs = grt_string_split(optarg, ",", &Ctrl->S.nstatsidxs);
                     // 转为浮点数
                     Ctrl->S.statsidxs = (size_t*)realloc(Ctrl->S.statsidxs, sizeof(size_t)*(Ctrl->S.nstatsidxs));
@@ -989,7 +989,7 @@ static void compute_greenfn_one(GRT_MODULE_CTRL *Ctrl) {
         for(size_t i=0; i < Ctrl->S.nstatsidxs; ++i){
             Ctrl->S.statsidxs[i] = i;
         }
-        Ctrl->S.s_raw = strdup("(all)");
+        Ctrl->S.s_raw = GRT_SAFE_STRDUP("(all)");
     }
 
     // 波数积分中间文件输出目录
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 44c4d4b..9e84e30 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -182,7 +182,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
             // 互相用空格隔开即可
             case 'M':
                 Ctrl->M.active = true;
-                Ctrl->M.s_modelpath = strdup(optarg);
+                Ctrl->M.s_modelpath = GRT_SAFE_STRDUP(optarg);
                 Ctrl->M.s_modelname = grt_get_basename(Ctrl->M.s_modelpath);
                 break;
 
@@ -227,7 +227,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
             case 'F':
                 Ctrl->F.active = true;
                 {
-                    char *string = strdup(optarg);
+                    char *string = GRT_SAFE_STRDUP(optarg);
                     char *token = strtok(string, "+");
                     real_t a1, a2, df;
                     a1 = a2 = df = 0;
@@ -283,7 +283,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
             // 输出路径 -Ooutput_dir
             case 'O':
                 Ctrl->O.active = true;
-                Ctrl->O.s_output_dir = strdup(optarg);
+                Ctrl->O.s_output_dir = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // -C[<cmin>/<cmax>/]<dc>
diff --git a/pygrt/C_extension/src/dynamic/grt_rotation.c b/pygrt/C_extension/src/dynamic/grt_rotation.c
index 534c9fe..9dc4154 100644
--- a/pygrt/C_extension/src/dynamic/grt_rotation.c
+++ b/pygrt/C_extension/src/dynamic/grt_rotation.c
@@ -85,7 +85,7 @@ int rotation_main(int argc, char **argv){
     getopt_from_command(Ctrl, argc, argv);
     
     // 合成地震图目录路径
-    Ctrl->s_synpath = strdup(argv[1]);
+    Ctrl->s_synpath = GRT_SAFE_STRDUP(argv[1]);
 
     // 检查是否存在该目录
     GRTCheckDirExist(Ctrl->s_synpath);
diff --git a/pygrt/C_extension/src/dynamic/grt_strain.c b/pygrt/C_extension/src/dynamic/grt_strain.c
index 5f1f890..dc499bd 100644
--- a/pygrt/C_extension/src/dynamic/grt_strain.c
+++ b/pygrt/C_extension/src/dynamic/grt_strain.c
@@ -88,7 +88,7 @@ int strain_main(int argc, char **argv){
     getopt_from_command(Ctrl, argc, argv);
     
     // 合成地震图目录路径
-    Ctrl->s_synpath = strdup(argv[1]);
+    Ctrl->s_synpath = GRT_SAFE_STRDUP(argv[1]);
 
     // 检查是否存在该目录
     GRTCheckDirExist(Ctrl->s_synpath);
diff --git a/pygrt/C_extension/src/dynamic/grt_stress.c b/pygrt/C_extension/src/dynamic/grt_stress.c
index f953617..398a933 100644
--- a/pygrt/C_extension/src/dynamic/grt_stress.c
+++ b/pygrt/C_extension/src/dynamic/grt_stress.c
@@ -146,7 +146,7 @@ int stress_main(int argc, char **argv){
     getopt_from_command(Ctrl, argc, argv);
     
     // 合成地震图目录路径
-    Ctrl->s_synpath = strdup(argv[1]);
+    Ctrl->s_synpath = GRT_SAFE_STRDUP(argv[1]);
 
     // 检查是否存在该目录
     GRTCheckDirExist(Ctrl->s_synpath);
diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index cb39978..ca9d4e0 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -288,7 +288,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 格林函数路径
             case 'G':
                 Ctrl->G.active = true;
-                Ctrl->G.s_grnpath = strdup(optarg);
+                Ctrl->G.s_grnpath = GRT_SAFE_STRDUP(optarg);
                 // 检查是否存在该目录
                 GRTCheckDirExist(Ctrl->G.s_grnpath);
                 break;
@@ -394,7 +394,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 输出路径
             case 'O':
                 Ctrl->O.active = true;
-                Ctrl->O.s_output_dir = strdup(optarg);
+                Ctrl->O.s_output_dir = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // 卷积时间函数
diff --git a/pygrt/C_extension/src/grt.c b/pygrt/C_extension/src/grt.c
index 53de4b4..436bffc 100644
--- a/pygrt/C_extension/src/grt.c
+++ b/pygrt/C_extension/src/grt.c
@@ -134,7 +134,7 @@ static void getopt_from_command(GRT_MAIN_CTRL *Ctrl, int argc, char **argv){
 /** 查找并执行子模块 */
 int dispatch_command(GRT_MAIN_CTRL *Ctrl, int argc, char **argv) {
     (void)Ctrl;
-    char *entry_name = strdup(argv[1]);
+    char *entry_name = GRT_SAFE_STRDUP(argv[1]);
 
     // 是否单独传入“static”以计算静态解
     bool is_single_static = false;
diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index 1ec2b62..ab964f0 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -164,7 +164,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 频散文件
             case 'C':
                 Ctrl->C.active = true;
-                Ctrl->C.s_filepath = strdup(optarg);
+                Ctrl->C.s_filepath = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // 阶数范围 -N[n1][/n2][/dn]
@@ -210,7 +210,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             case 'F':
                 Ctrl->F.active = true;
                 {
-                    char *string = strdup(optarg);
+                    char *string = GRT_SAFE_STRDUP(optarg);
                     char *token = strtok(string, "+");
                     real_t a1, a2, df;
                     a1 = a2 = 0;
@@ -287,25 +287,25 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 输出群速度 -U<path>
             case 'U':
                 Ctrl->U.active = true;
-                Ctrl->U.s_udisp_filepath = strdup(optarg);
+                Ctrl->U.s_udisp_filepath = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // 输出能量积分和敏感核 -K+c<path>+u<path>+z<dz>+x<path>
             case 'K':
                 Ctrl->K.active = true;
                 {
-                    char *string = strdup(optarg);
+                    char *string = GRT_SAFE_STRDUP(optarg);
                     char *token = strtok(string, "+");
                     while(token != NULL){
                         switch (token[0]){
                             case 'c':
-                                Ctrl->K.s_cpar_filepath = strdup(token+1);
+                                Ctrl->K.s_cpar_filepath = GRT_SAFE_STRDUP(token+1);
                                 if(strlen(token)==1){
                                     GRTBadOptionError(K, "+%s wrong usage.", token);
                                 }
                                 break;
                             case 'u':
-                                Ctrl->K.s_upar_filepath = strdup(token+1);
+                                Ctrl->K.s_upar_filepath = GRT_SAFE_STRDUP(token+1);
                                 if(strlen(token)==1){
                                     GRTBadOptionError(K, "+%s wrong usage.", token);
                                 }
@@ -319,7 +319,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                                 }
                                 break;
                             case 'x':
-                                Ctrl->K.s_egyint_filepath = strdup(token+1);
+                                Ctrl->K.s_egyint_filepath = GRT_SAFE_STRDUP(token+1);
                                 if(strlen(token)==1){
                                     GRTBadOptionError(K, "+%s wrong usage.", token);
                                 }
@@ -338,12 +338,12 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             case 'W':
                 Ctrl->W.active = true;
                 {
-                    char *string = strdup(optarg);
+                    char *string = GRT_SAFE_STRDUP(optarg);
                     char *token = strtok(string, "+");
                     if(strlen(token) == 0){
                         GRTBadOptionError(W, "");
                     }
-                    Ctrl->W.s_egn_filepath = strdup(token);
+                    Ctrl->W.s_egn_filepath = GRT_SAFE_STRDUP(token);
                     
                     token = strtok(NULL, "+");
                     if(token != NULL){
diff --git a/pygrt/C_extension/src/modal/grt_eigenv.c b/pygrt/C_extension/src/modal/grt_eigenv.c
index ae5b2b5..470d323 100644
--- a/pygrt/C_extension/src/modal/grt_eigenv.c
+++ b/pygrt/C_extension/src/modal/grt_eigenv.c
@@ -191,14 +191,14 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 互相用空格隔开即可
             case 'M':
                 Ctrl->M.active = true;
-                Ctrl->M.s_modelpath = strdup(optarg);
+                Ctrl->M.s_modelpath = GRT_SAFE_STRDUP(optarg);
                 Ctrl->M.s_modelname = grt_get_basename(Ctrl->M.s_modelpath);
                 break;
 
             // -C<path>
             case 'C':
                 Ctrl->C.active = true;
-                Ctrl->C.s_phasepath = strdup(optarg);
+                Ctrl->C.s_phasepath = GRT_SAFE_STRDUP(optarg);
                 break;
             
             // -S[R|L]
@@ -244,7 +244,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             case 'F':
                 Ctrl->F.active = true;
                 {
-                    char *string = strdup(optarg);
+                    char *string = GRT_SAFE_STRDUP(optarg);
                     char *token = strtok(string, "+");
                     real_t a1, a2, df;
                     a1 = a2 = df = 0;
@@ -307,7 +307,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             case 'X':
                 Ctrl->X.active = true;
                 {
-                    char *string = strdup(optarg);
+                    char *string = GRT_SAFE_STRDUP(optarg);
                     char *token = strtok(string, "+");
                     real_t fx = -1.0;
                     if(1 != sscanf(token, "%lf", &fx)){
@@ -366,7 +366,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             case 'T':
                 Ctrl->T.active = true;
                 {
-                    char *line = strdup(optarg);
+                    char *line = GRT_SAFE_STRDUP(optarg);
                     char *token = strtok(line, "+");
                     real_t p=0;
                     while(token != NULL){
diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index f75880c..ad1ffb7 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -240,7 +240,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 频散文件
             case 'C':
                 Ctrl->C.active = true;
-                Ctrl->C.s_filepath = strdup(optarg);
+                Ctrl->C.s_filepath = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // 阶数范围 -N[n1][/n2][/dn]
@@ -330,7 +330,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 输出路径 -Ooutput_dir
             case 'O':
                 Ctrl->O.active = true;
-                Ctrl->O.s_output_dir = strdup(optarg);
+                Ctrl->O.s_output_dir = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // 时间延迟 -E[p]<t0>[/<v0>]
@@ -357,7 +357,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 震中距数组，-R<r1>,<r2>[,...]|<r1>/<r2>/<dr>|<file>
             case 'R':
                 Ctrl->R.active = true;
-                Ctrl->R.s_raw = strdup(optarg);
+                Ctrl->R.s_raw = GRT_SAFE_STRDUP(optarg);
                 Ctrl->R.rs = grt_parse_real_array(optarg, &Ctrl->R.nr, &Ctrl->R.s_rs, 'R');
                 break;
 
diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index 92344e3..733eb41 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -239,7 +239,7 @@ static void parse_command(GRT_MODULE_CTRL *ctrl, int argc, char **argv)
             // 设置输出 nc 文件
             case 'O':
                 ctrl->O.active = true;
-                ctrl->O.path = strdup(optarg);
+                ctrl->O.path = GRT_SAFE_STRDUP(optarg);
                 break;
             // 设置点源放大系数
             case 'S': {
@@ -292,7 +292,7 @@ static void parse_command(GRT_MODULE_CTRL *ctrl, int argc, char **argv)
             // 读取任意接收点文件
             case 'Q':
                 ctrl->Q.active = true;
-                ctrl->Q.path = strdup(optarg);
+                ctrl->Q.path = GRT_SAFE_STRDUP(optarg);
                 break;
             // 设置点源深度或规则网格接收点深度
             case 'D':
diff --git a/pygrt/C_extension/src/static/grt_static_greenfn.c b/pygrt/C_extension/src/static/grt_static_greenfn.c
index 5ce7c6d..aac57ab 100644
--- a/pygrt/C_extension/src/static/grt_static_greenfn.c
+++ b/pygrt/C_extension/src/static/grt_static_greenfn.c
@@ -292,7 +292,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 互相用空格隔开即可
             case 'M':
                 Ctrl->M.active = true;
-                Ctrl->M.s_modelpath = strdup(optarg);
+                Ctrl->M.s_modelpath = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // -Dsrc/rcv 或 -Ds<spec> / -Dr<spec>
@@ -343,7 +343,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             case 'L':
                 Ctrl->L.active = true;
                 {
-                    char *string = strdup(optarg);
+                    char *string = GRT_SAFE_STRDUP(optarg);
                     char *token = strtok(string, "+");
                     // 如果首先不是加号，则先读取DWM的length
                     if(optarg[0] != '+'){
@@ -417,7 +417,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             case 'K':
                 Ctrl->K.active = true;
                 {
-                char *line = strdup(optarg);
+                char *line = GRT_SAFE_STRDUP(optarg);
                 char *token = strtok(line, "+");
                 while(token != NULL){
                     switch(token[0]) {
@@ -513,7 +513,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 输出 nc 文件名
             case 'O':
                 Ctrl->O.active = true;
-                Ctrl->O.s_outgrid = strdup(optarg);
+                Ctrl->O.s_outgrid = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // 输出波数积分中间文件
diff --git a/pygrt/C_extension/src/static/grt_static_rotation.c b/pygrt/C_extension/src/static/grt_static_rotation.c
index 8aebd3a..128041b 100644
--- a/pygrt/C_extension/src/static/grt_static_rotation.c
+++ b/pygrt/C_extension/src/static/grt_static_rotation.c
@@ -92,7 +92,7 @@ int static_rotation_main(int argc, char **argv){
     getopt_from_command(Ctrl, argc, argv);
 
     // 第二个参数为 nc 文件路径
-    char *s_ingrid = strdup(argv[1]);
+    char *s_ingrid = GRT_SAFE_STRDUP(argv[1]);
 
     // nc 文件相关变量
     int in_ncid;
diff --git a/pygrt/C_extension/src/static/grt_static_strain.c b/pygrt/C_extension/src/static/grt_static_strain.c
index 1f76eb3..380d04c 100644
--- a/pygrt/C_extension/src/static/grt_static_strain.c
+++ b/pygrt/C_extension/src/static/grt_static_strain.c
@@ -93,7 +93,7 @@ int static_strain_main(int argc, char **argv){
     getopt_from_command(Ctrl, argc, argv);
 
     // 第二个参数为 nc 文件路径
-    char *s_ingrid = strdup(argv[1]);
+    char *s_ingrid = GRT_SAFE_STRDUP(argv[1]);
 
     // nc 文件相关变量
     int in_ncid;
diff --git a/pygrt/C_extension/src/static/grt_static_stress.c b/pygrt/C_extension/src/static/grt_static_stress.c
index 99308d0..0b0948c 100644
--- a/pygrt/C_extension/src/static/grt_static_stress.c
+++ b/pygrt/C_extension/src/static/grt_static_stress.c
@@ -120,7 +120,7 @@ int static_stress_main(int argc, char **argv){
     getopt_from_command(Ctrl, argc, argv);
 
     // 第二个参数为 nc 文件路径
-    char *s_ingrid = strdup(argv[1]);
+    char *s_ingrid = GRT_SAFE_STRDUP(argv[1]);
 
     // nc 文件相关变量
     int in_ncid;
diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index b890d82..d8fe887 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -319,7 +319,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 输入 nc 文件名
             case 'G':
                 Ctrl->G.active = true;
-                Ctrl->G.s_ingrid = strdup(optarg);
+                Ctrl->G.s_ingrid = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // -Ds<depsrc> 或 -Dr<deprcv>（单值）
@@ -348,7 +348,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 输出 nc 文件名
             case 'O':
                 Ctrl->O.active = true;
-                Ctrl->O.s_outgrid = strdup(optarg);
+                Ctrl->O.s_outgrid = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // 放大系数
@@ -441,7 +441,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                 {
                     Ctrl->computeType = GRT_SYN_DC;
                     sprintf(Ctrl->s_computeType, "%s", "FF");
-                    char *optarg_copy = strdup(optarg);
+                    char *optarg_copy = GRT_SAFE_STRDUP(optarg);
                     char *filepath = strtok(optarg_copy, "+");
                     char *token = strtok(NULL, "+");
                     if(filepath == NULL){
@@ -471,7 +471,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         }
                     }
 
-                    char *fpath = strdup(filepath);
+                    char *fpath = GRT_SAFE_STRDUP(filepath);
                     GRT_SAFE_FREE_PTR(optarg_copy);
 
                     Ctrl->C.faults = grt_finite_fault_load_coulomb(fpath, &Ctrl->C.nfault);
@@ -528,7 +528,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 任意接收点文件，-Q<path>
             case 'Q':
                 Ctrl->Q.active = true;
-                Ctrl->Q.s_path = strdup(optarg);
+                Ctrl->Q.s_path = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // 是否计算位移空间导数, 影响 calcUTypes 变量
diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index 253e2f0..57c637c 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -111,13 +111,13 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // -C<path>
             case 'C':
                 Ctrl->C.active = true;
-                Ctrl->C.s_phasepath = strdup(optarg);
+                Ctrl->C.s_phasepath = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // -U<path>
             case 'U':
                 Ctrl->U.active = true;
-                Ctrl->U.s_grouppath = strdup(optarg);
+                Ctrl->U.s_grouppath = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // 阶数范围 -N[n1][/n2][/dn]
@@ -163,7 +163,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             case 'F':
                 Ctrl->F.active = true;
                 {
-                    char *string = strdup(optarg);
+                    char *string = GRT_SAFE_STRDUP(optarg);
                     char *token = strtok(string, "+");
                     real_t a1, a2, df;
                     a1 = a2 = 0;
diff --git a/pygrt/C_extension/src/tools/grt_ker2asc.c b/pygrt/C_extension/src/tools/grt_ker2asc.c
index c72659a..3db9e07 100644
--- a/pygrt/C_extension/src/tools/grt_ker2asc.c
+++ b/pygrt/C_extension/src/tools/grt_ker2asc.c
@@ -97,7 +97,7 @@ int ker2asc_main(int argc, char **argv){
 
     getopt_from_command(Ctrl, argc, argv);
 
-    Ctrl->s_filepath = strdup(argv[1]);
+    Ctrl->s_filepath = GRT_SAFE_STRDUP(argv[1]);
 
     // 检查文件名是否存在
     GRTCheckFileExist(Ctrl->s_filepath);
diff --git a/pygrt/C_extension/src/tools/grt_sac2asc.c b/pygrt/C_extension/src/tools/grt_sac2asc.c
index 4a2a87d..7c2a8bb 100644
--- a/pygrt/C_extension/src/tools/grt_sac2asc.c
+++ b/pygrt/C_extension/src/tools/grt_sac2asc.c
@@ -60,7 +60,7 @@ int sac2asc_main(int argc, char **argv){
 
     getopt_from_command(Ctrl, argc, argv);
 
-    Ctrl->s_filepath = strdup(argv[1]);
+    Ctrl->s_filepath = GRT_SAFE_STRDUP(argv[1]);
     
     // 检查文件名是否存在
     GRTCheckFileExist(Ctrl->s_filepath);
diff --git a/pygrt/C_extension/src/tools/grt_travt.c b/pygrt/C_extension/src/tools/grt_travt.c
index e24b3dc..54151f1 100644
--- a/pygrt/C_extension/src/tools/grt_travt.c
+++ b/pygrt/C_extension/src/tools/grt_travt.c
@@ -110,7 +110,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 互相用空格隔开即可
             case 'M':
                 Ctrl->M.active = true;
-                Ctrl->M.s_modelpath = strdup(optarg);
+                Ctrl->M.s_modelpath = GRT_SAFE_STRDUP(optarg);
                 break;
 
             // 震源和场点深度， -Ddepsrc/deprcv
-- 
2.43.0


From 4b2c9d1c8f8a78ea29d56df748c4f24a42dd5771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:17 +0000
Subject: [PATCH 09/23] fix: ker2asc reports a statistics file that ends within
 a record

---
 pygrt/C_extension/src/tools/grt_ker2asc.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/src/tools/grt_ker2asc.c b/pygrt/C_extension/src/tools/grt_ker2asc.c
index 3db9e07..a8dcf68 100644
--- a/pygrt/C_extension/src/tools/grt_ker2asc.c
+++ b/pygrt/C_extension/src/tools/grt_ker2asc.c
@@ -53,6 +53,14 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 }
 
 
+/** 判断文件是否还有后续记录 */
+static bool has_record(FILE *fp){
+    int c = getc(fp);
+    if(c == EOF)  return false;
+    ungetc(c, fp);
+    return true;
+}
+
 /**
  * 处理传统离散波数积分以及Filon积分的过程文件
  * 
@@ -64,8 +72,10 @@ static void print_K(FILE *fp, const char *col0_name){
     fprintf(stdout, "\n");
     
     // 读取数据    
-    while (true) {
-        if(0 != grt_extract_stats(fp, stdout, col0_name))  break;
+    while (has_record(fp)) {
+        if(0 != grt_extract_stats(fp, stdout, col0_name)){
+            GRTRaiseError("The last record in the stats file is incomplete.\n");
+        }
 
         fprintf(stdout, "\n");
     }
@@ -82,8 +92,10 @@ static void print_PTAM(FILE *fp){
     fprintf(stdout, "\n");
     
     // 读取数据    
-    while (true) {
-        if(0 != grt_extract_stats_ptam(fp, stdout))  break;
+    while (has_record(fp)) {
+        if(0 != grt_extract_stats_ptam(fp, stdout)){
+            GRTRaiseError("The last record in the stats file is incomplete.\n");
+        }
 
         fprintf(stdout, "\n");
     }
-- 
2.43.0


From bcc239e2dfe1bb6db0b48cd3bdcf2804d65e8bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:14 +0000
Subject: [PATCH 10/23] fix: a truncated NetCDF file is no longer read as if
 the missing part were zero

---
 .../C_extension/include/grt/common/mynetcdf.h |  12 ++
 pygrt/C_extension/src/common/mynetcdf.c       | 111 ++++++++++++++++++
 pygrt/C_extension/src/modal/modal_util.c      |   2 +-
 .../src/static/grt_static_rotation.c          |   2 +-
 .../src/static/grt_static_strain.c            |   2 +-
 .../src/static/grt_static_stress.c            |   2 +-
 pygrt/C_extension/src/static/stgrnlib.c       |   2 +-
 7 files changed, 128 insertions(+), 5 deletions(-)
 create mode 100644 pygrt/C_extension/src/common/mynetcdf.c

diff --git a/pygrt/C_extension/include/grt/common/mynetcdf.h b/pygrt/C_extension/include/grt/common/mynetcdf.h
index 27a32b9..ecdc947 100644
--- a/pygrt/C_extension/include/grt/common/mynetcdf.h
+++ b/pygrt/C_extension/include/grt/common/mynetcdf.h
@@ -26,3 +26,15 @@
     NC_CHECK(nc_close(ncid)); \
 })
 
+/**
+ * 检查经典格式的 NetCDF 文件是否完整，文件被截断则报错退出
+ * 
+ * @param[in]     path      文件路径
+ */
+void grt_nc_check_complete(const char *path);
+
+// 打开已有的文件，先检查其是否完整
+#define NC_OPEN_CHECKED(path, mode, ncidp) ({\
+    grt_nc_check_complete(path); \
+    NC_CHECK(nc_open(path, mode, ncidp)); \
+})
diff --git a/pygrt/C_extension/src/common/mynetcdf.c b/pygrt/C_extension/src/common/mynetcdf.c
new file mode 100644
index 0000000..785aa2b
--- /dev/null
+++ b/pygrt/C_extension/src/common/mynetcdf.c
@@ -0,0 +1,111 @@
+/**
+ * @file   mynetcdf.c
+ * @author Zhu Dengda (zhudengda@mail.iggcas.ac.cn)
+ * @date   2025-08
+ * 
+ * netcdf 库在读取被截断的经典格式文件时，会将缺失的部分当作 0 且不报错，
+ * 因此打开文件前先检查文件长度
+ * 
+ */
+
+#include <stdint.h>
+#include <string.h>
+#include <sys/stat.h>
+
+#include "grt/common/mynetcdf.h"
+#include "grt/common/checkerror.h"
+
+/** 读取 n 字节的大端序整数 */
+static uint64_t read_uint(FILE *fp, const char *path, int n)
+{
+    uint64_t val = 0;
+    for(int i = 0; i < n; ++i){
+        int c = getc(fp);
+        if(c == EOF)  GRTRaiseError("File \"%s\" is incomplete.\n", path);
+        val = (val << 8) | (uint64_t)c;
+    }
+    return val;
+}
+
+/** 跳过 n 字节，补齐到 4 的整数倍 */
+static void skip_padded(FILE *fp, const char *path, uint64_t n)
+{
+    for(n = (n + 3) / 4 * 4; n > 0; --n)  read_uint(fp, path, 1);
+}
+
+/** 每种类型的字节数，未知类型返回 0 */
+static uint64_t type_size(uint64_t type)
+{
+    static const uint64_t sizes[] = {0, 1, 1, 2, 4, 4, 8, 1, 2, 4, 8, 8};
+    return (type < sizeof(sizes)/sizeof(sizes[0])) ? sizes[type] : 0;
+}
+
+/** 跳过属性列表，nsize 为计数值的字节数 */
+static void skip_atts(FILE *fp, const char *path, int nsize)
+{
+    read_uint(fp, path, 4);
+    uint64_t natts = read_uint(fp, path, nsize);
+    for(uint64_t i = 0; i < natts; ++i){
+        skip_padded(fp, path, read_uint(fp, path, nsize));
+        uint64_t size = type_size(read_uint(fp, path, 4));
+        skip_padded(fp, path, size * read_uint(fp, path, nsize));
+    }
+}
+
+void grt_nc_check_complete(const char *path)
+{
+    FILE *fp = GRTCheckOpenFile(path, "rb");
+
+    char magic[4];
+    if(fread(magic, 1, 4, fp) != 4)  GRTRaiseError("File \"%s\" is incomplete.\n", path);
+    // 其它格式由 netcdf 库自行检查
+    if(strncmp(magic, "CDF", 3) != 0 || (magic[3] != 1 && magic[3] != 2 && magic[3] != 5)){
+        fclose(fp);
+        return;
+    }
+    int nsize = (magic[3] == 5) ? 8 : 4;
+    int osize = (magic[3] == 1) ? 4 : 8;
+
+    read_uint(fp, path, nsize);  // numrecs
+
+    // 维度
+    read_uint(fp, path, 4);
+    uint64_t ndims = read_uint(fp, path, nsize);
+    uint64_t *dims = NULL;
+    for(uint64_t i = 0; i < ndims; ++i){
+        skip_padded(fp, path, read_uint(fp, path, nsize));
+        dims = (uint64_t *)realloc(dims, sizeof(*dims)*(i+1));
+        if(dims == NULL)  GRTRaiseError("Failed to allocate memory.\n");
+        dims[i] = read_uint(fp, path, nsize);
+    }
+
+    // 全局属性
+    skip_atts(fp, path, nsize);
+
+    // 变量，记录数据的结束位置
+    uint64_t end = 0;
+    read_uint(fp, path, 4);
+    uint64_t nvars = read_uint(fp, path, nsize);
+    for(uint64_t i = 0; i < nvars; ++i){
+        uint64_t size = 1;
+        skip_padded(fp, path, read_uint(fp, path, nsize));
+        uint64_t rank = read_uint(fp, path, nsize);
+        for(uint64_t k = 0; k < rank; ++k){
+            uint64_t id = read_uint(fp, path, nsize);
+            if(id >= ndims)  GRTRaiseError("File \"%s\" is damaged.\n", path);
+            size *= dims[id];
+        }
+        skip_atts(fp, path, nsize);
+        size *= type_size(read_uint(fp, path, 4));
+        read_uint(fp, path, nsize);  // vsize
+        uint64_t begin = read_uint(fp, path, osize);
+        if(end < begin + size)  end = begin + size;
+    }
+    free(dims);
+
+    struct stat st;
+    if(fstat(fileno(fp), &st) != 0 || (uint64_t)st.st_size < end){
+        GRTRaiseError("File \"%s\" is incomplete.\n", path);
+    }
+    fclose(fp);
+}
diff --git a/pygrt/C_extension/src/modal/modal_util.c b/pygrt/C_extension/src/modal/modal_util.c
index 7c1f5bd..22778b4 100644
--- a/pygrt/C_extension/src/modal/modal_util.c
+++ b/pygrt/C_extension/src/modal/modal_util.c
@@ -621,7 +621,7 @@ void grt_read_dispersion(const char *filepath, EIGENV_INFO *eigmet, char **pt_mo
 
     // 打开 NC 文件
     GRTCheckFileExist(filepath);
-    NC_CHECK(nc_open(filepath, NC_NOWRITE, &ncid));
+    NC_OPEN_CHECKED(filepath, NC_NOWRITE, &ncid);
     
     // 根据是否有变量 u 来判断这个文件记录的是群速度还是相速度
     bool isGroup = false;
diff --git a/pygrt/C_extension/src/static/grt_static_rotation.c b/pygrt/C_extension/src/static/grt_static_rotation.c
index 128041b..13e25ee 100644
--- a/pygrt/C_extension/src/static/grt_static_rotation.c
+++ b/pygrt/C_extension/src/static/grt_static_rotation.c
@@ -102,7 +102,7 @@ int static_rotation_main(int argc, char **argv){
 
     // 打开 nc 文件
     GRTCheckFileExist(s_ingrid);
-    NC_CHECK(nc_open(s_ingrid, NC_WRITE, &in_ncid));
+    NC_OPEN_CHECKED(s_ingrid, NC_WRITE, &in_ncid);
 
     // 输出分量格式，即是否需要旋转到ZNE
     bool rot2ZNE = false;
diff --git a/pygrt/C_extension/src/static/grt_static_strain.c b/pygrt/C_extension/src/static/grt_static_strain.c
index 380d04c..b821864 100644
--- a/pygrt/C_extension/src/static/grt_static_strain.c
+++ b/pygrt/C_extension/src/static/grt_static_strain.c
@@ -103,7 +103,7 @@ int static_strain_main(int argc, char **argv){
 
     // 打开 nc 文件
     GRTCheckFileExist(s_ingrid);
-    NC_CHECK(nc_open(s_ingrid, NC_WRITE, &in_ncid));
+    NC_OPEN_CHECKED(s_ingrid, NC_WRITE, &in_ncid);
 
     // 输出分量格式，即是否需要旋转到ZNE
     bool rot2ZNE = false;
diff --git a/pygrt/C_extension/src/static/grt_static_stress.c b/pygrt/C_extension/src/static/grt_static_stress.c
index 0b0948c..bc3ada2 100644
--- a/pygrt/C_extension/src/static/grt_static_stress.c
+++ b/pygrt/C_extension/src/static/grt_static_stress.c
@@ -130,7 +130,7 @@ int static_stress_main(int argc, char **argv){
 
     // 打开 nc 文件
     GRTCheckFileExist(s_ingrid);
-    NC_CHECK(nc_open(s_ingrid, NC_WRITE, &in_ncid));
+    NC_OPEN_CHECKED(s_ingrid, NC_WRITE, &in_ncid);
 
     // 输出分量格式，即是否需要旋转到ZNE
     bool rot2ZNE = false;
diff --git a/pygrt/C_extension/src/static/stgrnlib.c b/pygrt/C_extension/src/static/stgrnlib.c
index 400b43a..8327daf 100644
--- a/pygrt/C_extension/src/static/stgrnlib.c
+++ b/pygrt/C_extension/src/static/stgrnlib.c
@@ -289,7 +289,7 @@ STGRNLIB *grt_stgrnlib_load_nc(const char *path)
     GRTCheckFileExist(path);
 
     int ncid;
-    NC_CHECK(nc_open(path, NC_NOWRITE, &ncid));
+    NC_OPEN_CHECKED(path, NC_NOWRITE, &ncid);
 
     int depsrc_dimid, deprcv_dimid, north_dimid, east_dimid;
     size_t ndepsrc, ndeprcv, nnorth, neast;
-- 
2.43.0


From c5e3cb89862eaabcd900703759d49694becd54c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 11/23] fix: the model copy no longer truncates a model reached
 through a hard link

---
 pygrt/C_extension/include/grt/common/util.h | 10 ++++++
 pygrt/C_extension/src/common/util.c         | 39 ++++++++++++---------
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/util.h b/pygrt/C_extension/include/grt/common/util.h
index 7e9ad7c..f359530 100644
--- a/pygrt/C_extension/include/grt/common/util.h
+++ b/pygrt/C_extension/include/grt/common/util.h
@@ -104,6 +104,16 @@ void grt_trim_whitespace(char* str);
 bool grt_is_comment_or_empty(const char* line);
 
 
+/**
+ * 判断两个路径是否指向同一个文件（包括符号链接和硬链接）
+ *
+ * @param[in]    path1     路径1，可为 NULL
+ * @param[in]    path2     路径2，可为 NULL
+ * @return       是否为同一文件，任意一个不存在时返回 false
+ */
+bool grt_is_same_file(const char *path1, const char *path2);
+
+
 /**
  * 将源文件复制到目标路径（覆盖已存在文件）
  *
diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index a571346..3af30e1 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -338,27 +338,34 @@ bool grt_is_comment_or_empty(const char* line) {
 }
 
 
-void grt_copy_file(const char *src, const char *dst)
+bool grt_is_same_file(const char *path1, const char *path2)
 {
-    // 源与目标为同一路径时跳过，避免截断自身
-    {
+    if(path1 == NULL || path2 == NULL)  return false;
+
 #if _TEST_WHETHER_WIN32_
-        char src_full[_MAX_PATH];
-        char dst_full[_MAX_PATH];
-        if(_fullpath(src_full, src, _MAX_PATH) != NULL
-           && _fullpath(dst_full, dst, _MAX_PATH) != NULL
-           && strcmp(src_full, dst_full) == 0){
-            return;
-        }
+    char full1[_MAX_PATH];
+    char full2[_MAX_PATH];
+    return _fullpath(full1, path1, _MAX_PATH) != NULL
+        && _fullpath(full2, path2, _MAX_PATH) != NULL
+        && strcmp(full1, full2) == 0;
 #else
-        char src_real[PATH_MAX];
-        char dst_real[PATH_MAX];
-        if(realpath(src, src_real) != NULL && realpath(dst, dst_real) != NULL
-           && strcmp(src_real, dst_real) == 0){
-            return;
+    const char *paths[2] = {path1, path2};
+    struct stat st[2];
+    for(int i = 0; i < 2; ++i){
+        if(stat(paths[i], &st[i]) != 0){
+            if(errno == ENOENT || errno == ENOTDIR)  return false;
+            GRTRaiseError("Cannot access \"%s\". Error code: %d\n", paths[i], errno);
         }
-#endif
     }
+    return st[0].st_dev == st[1].st_dev && st[0].st_ino == st[1].st_ino;
+#endif
+}
+
+
+void grt_copy_file(const char *src, const char *dst)
+{
+    // 源与目标为同一文件时跳过，避免截断自身
+    if(grt_is_same_file(src, dst))  return;
 
     FILE *fin = GRTCheckOpenFile(src, "rb");
     FILE *fout = GRTCheckOpenFile(dst, "wb");
-- 
2.43.0


From 42563dc2e93ea09df43765b12607bb2742657239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 12/23] fix: refuse an output file that is one of the inputs
 instead of overwriting it

---
 pygrt/C_extension/include/grt/common/util.h       |  9 +++++++++
 pygrt/C_extension/src/common/util.c               |  8 ++++++++
 pygrt/C_extension/src/modal/grt_eigenfn.c         | 10 ++++++++++
 pygrt/C_extension/src/modal/grt_eigenv.c          |  1 +
 pygrt/C_extension/src/okada/grt_okada.c           |  6 ++++++
 pygrt/C_extension/src/static/grt_static_greenfn.c |  1 +
 pygrt/C_extension/src/static/grt_static_syn.c     |  8 +++++++-
 7 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/include/grt/common/util.h b/pygrt/C_extension/include/grt/common/util.h
index f359530..de00da1 100644
--- a/pygrt/C_extension/include/grt/common/util.h
+++ b/pygrt/C_extension/include/grt/common/util.h
@@ -114,6 +114,15 @@ bool grt_is_comment_or_empty(const char* line);
 bool grt_is_same_file(const char *path1, const char *path2);
 
 
+/**
+ * 检查输出文件不会覆盖输入文件，否则报错
+ *
+ * @param[in]    output    输出文件路径，可为 NULL
+ * @param[in]    input     输入文件路径，可为 NULL
+ */
+void grt_check_output_not_input(const char *output, const char *input);
+
+
 /**
  * 将源文件复制到目标路径（覆盖已存在文件）
  *
diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index 3af30e1..e38a3d3 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -362,6 +362,14 @@ bool grt_is_same_file(const char *path1, const char *path2)
 }
 
 
+void grt_check_output_not_input(const char *output, const char *input)
+{
+    if(grt_is_same_file(output, input)){
+        GRTRaiseError("Output file \"%s\" would overwrite the input file \"%s\".\n", output, input);
+    }
+}
+
+
 void grt_copy_file(const char *src, const char *dst)
 {
     // 源与目标为同一文件时跳过，避免截断自身
diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index ab964f0..986c239 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -528,6 +528,16 @@ int eigenfn_main(int argc, char **argv){
     if((mod1d = grt_read_mod1d_from_file(modelpath, -1.0, -1.0, true)) ==NULL){
         exit(EXIT_FAILURE);
     }
+
+    // 输出文件不能覆盖频散文件和模型文件
+    const char *outputs[] = {
+        Ctrl->U.s_udisp_filepath, Ctrl->K.s_cpar_filepath, Ctrl->K.s_upar_filepath,
+        Ctrl->K.s_egyint_filepath, Ctrl->W.s_egn_filepath
+    };
+    for(size_t i = 0; i < sizeof(outputs)/sizeof(outputs[0]); ++i){
+        grt_check_output_not_input(outputs[i], Ctrl->C.s_filepath);
+        grt_check_output_not_input(outputs[i], modelpath);
+    }
     GRT_SAFE_FREE_PTR(modelpath);
 
     // 根据命令行参数确定出所需的部分频散信息
diff --git a/pygrt/C_extension/src/modal/grt_eigenv.c b/pygrt/C_extension/src/modal/grt_eigenv.c
index 470d323..5cdf8fe 100644
--- a/pygrt/C_extension/src/modal/grt_eigenv.c
+++ b/pygrt/C_extension/src/modal/grt_eigenv.c
@@ -465,6 +465,7 @@ int eigenv_main(int argc, char **argv){
 
     // 传入参数 
     getopt_from_command(Ctrl, argc, argv);
+    grt_check_output_not_input(Ctrl->C.s_phasepath, Ctrl->M.s_modelpath);
 
     // 读入模型文件（暂设置为不支持液体层）
     if((Ctrl->M.mod1d = grt_read_mod1d_from_file(Ctrl->M.s_modelpath, -1.0, -1.0, true)) ==NULL){
diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index 733eb41..d190b36 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -37,6 +37,7 @@ typedef struct {
     /** Coulomb 格式有限断层 */
     struct {
         bool active;
+        char *path;
         FINITE_FAULT *faults;
         size_t nfault;
     } C;
@@ -92,6 +93,7 @@ static const real_t OKADA_SINGULAR_OFFSET = 1.0e-4;
 static void free_ctrl(GRT_MODULE_CTRL *ctrl)
 {
     if(ctrl == NULL) return;
+    GRT_SAFE_FREE_PTR(ctrl->C.path);
     GRT_SAFE_FREE_PTR(ctrl->Q.path);
     GRT_SAFE_FREE_PTR(ctrl->O.path);
     GRT_SAFE_FREE_PTR(ctrl->X.values);
@@ -277,6 +279,8 @@ static void parse_command(GRT_MODULE_CTRL *ctrl, int argc, char **argv)
                     GRTBadOptionError(C, "subdivision suffix is not used by the direct rectangular Okada solution.");
                 }
                 ctrl->C.active = true;
+                GRT_SAFE_FREE_PTR(ctrl->C.path);
+                ctrl->C.path = GRT_SAFE_STRDUP(optarg);
                 ctrl->C.faults = grt_finite_fault_load_coulomb(optarg, &ctrl->C.nfault);
                 break;
             // 设置 North 方向规则坐标轴
@@ -720,6 +724,8 @@ int okada_main(int argc, char **argv)
 {
     GRT_MODULE_CTRL *ctrl = (GRT_MODULE_CTRL *)calloc(1, sizeof(*ctrl));
     parse_command(ctrl, argc, argv);
+    grt_check_output_not_input(ctrl->O.path, ctrl->C.path);
+    grt_check_output_not_input(ctrl->O.path, ctrl->Q.path);
     OKADA_MEDIUM_PARAMS medium = {
         .vp = ctrl->I.vp,
         .vs = ctrl->I.vs,
diff --git a/pygrt/C_extension/src/static/grt_static_greenfn.c b/pygrt/C_extension/src/static/grt_static_greenfn.c
index aac57ab..c606d49 100644
--- a/pygrt/C_extension/src/static/grt_static_greenfn.c
+++ b/pygrt/C_extension/src/static/grt_static_greenfn.c
@@ -736,6 +736,7 @@ int static_greenfn_main(int argc, char **argv){
     GRT_MODULE_CTRL *Ctrl = calloc(1, sizeof(*Ctrl));
 
     getopt_from_command(Ctrl, argc, argv);
+    grt_check_output_not_input(Ctrl->O.s_outgrid, Ctrl->M.s_modelpath);
 
     bool multi_depth = (Ctrl->D.ndepsrc > 1) || (Ctrl->D.ndeprcv > 1);
     if(Ctrl->S.active){
diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index d8fe887..71f4f6c 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -45,6 +45,7 @@ typedef struct {
         real_t dL;   // 沿走向方向的剖分间隔，<=0 表示用默认
         real_t dW;   // 沿倾向方向的剖分间隔，<=0 表示用默认
         size_t nfault;
+        char *s_path;
         FINITE_FAULT *faults;
     } C;
     /** -X: north 坐标 */
@@ -108,6 +109,7 @@ static void free_Ctrl(GRT_MODULE_CTRL *Ctrl){
     // C
     grt_finite_fault_free(Ctrl->C.faults);
     Ctrl->C.faults = NULL;
+    GRT_SAFE_FREE_PTR(Ctrl->C.s_path);
 
     // X
     GRT_SAFE_FREE_PTR(Ctrl->X.norths);
@@ -475,7 +477,8 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     GRT_SAFE_FREE_PTR(optarg_copy);
 
                     Ctrl->C.faults = grt_finite_fault_load_coulomb(fpath, &Ctrl->C.nfault);
-                    GRT_SAFE_FREE_PTR(fpath);
+                    GRT_SAFE_FREE_PTR(Ctrl->C.s_path);
+                    Ctrl->C.s_path = fpath;
                 }
                 break;
 
@@ -1410,6 +1413,9 @@ static void save_syn_nc(
 int static_syn_main(int argc, char **argv){
     GRT_MODULE_CTRL *Ctrl = calloc(1, sizeof(*Ctrl));
     getopt_from_command(Ctrl, argc, argv);
+    grt_check_output_not_input(Ctrl->O.s_outgrid, Ctrl->G.s_ingrid);
+    grt_check_output_not_input(Ctrl->O.s_outgrid, Ctrl->C.s_path);
+    grt_check_output_not_input(Ctrl->O.s_outgrid, Ctrl->Q.s_path);
 
     STGRNLIB *lib = grt_stgrnlib_load_nc(Ctrl->G.s_ingrid);
     check_syn_depth_options(Ctrl, lib);
-- 
2.43.0


From bf1bbc11b8364f178b24cd8f36797bc63e07bcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:34 +0000
Subject: [PATCH 13/23] fix: syn finds distances beyond 168 km, where the SAC
 header rounds more than the tolerance

---
 pygrt/C_extension/src/dynamic/grt_syn.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index ca9d4e0..9bd2bca 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -584,10 +584,17 @@ static char *find_sac_in_dir(const char *dirpath)
 }
 
 
+/** 比较深度或震中距，SAC 头段以单精度存储，故数值较大时其舍入误差可能超过 tolerance */
+static bool real_value_match(real_t a, real_t b, const real_t tolerance)
+{
+    return fabs(a - b) <= tolerance || (float)a == (float)b;
+}
+
+
 static bool real_value_exists(const real_t *values, size_t nvalues, real_t value, const real_t tolerance)
 {
     for(size_t i = 0; i < nvalues; ++i){
-        if(fabs(values[i] - value) <= tolerance) return true;
+        if(real_value_match(values[i], value, tolerance)) return true;
     }
     return false;
 }
@@ -726,9 +733,9 @@ static void resolve_syn_grn_path(GRT_MODULE_CTRL *Ctrl)
         }
 
         SACTRACE *sac = grt_read_SACTRACE(sample, true);
-        bool depth_match = fabs(sac->hd.evdp - Ctrl->Depth.depsrc) <= match_tolerance
-            && fabs((-sac->hd.stel * 1e-3) - Ctrl->Depth.deprcv) <= match_tolerance;
-        bool dist_match = fabs(sac->hd.dist - Ctrl->R.dist) <= match_tolerance;
+        bool depth_match = real_value_match(sac->hd.evdp, Ctrl->Depth.depsrc, match_tolerance)
+            && real_value_match(-sac->hd.stel * 1e-3, Ctrl->Depth.deprcv, match_tolerance);
+        bool dist_match = real_value_match(sac->hd.dist, Ctrl->R.dist, match_tolerance);
         grt_free_SACTRACE(sac);
         GRT_SAFE_FREE_PTR(sample);
 
-- 
2.43.0


From 0a625a80b1eb3c70667e423f4ac88fda3f2bfa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:23 +0000
Subject: [PATCH 14/23] fix: record each command line with a single write so
 that simultaneous commands do not mix theirs

---
 pygrt/C_extension/include/grt/common/util.h | 10 ++++++++++
 pygrt/C_extension/src/common/util.c         | 21 +++++++++++++++++++++
 pygrt/C_extension/src/dynamic/grt_greenfn.c |  8 +-------
 pygrt/C_extension/src/dynamic/grt_kernel.c  |  8 +-------
 pygrt/C_extension/src/modal/grt_modsum.c    |  8 +-------
 5 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/util.h b/pygrt/C_extension/include/grt/common/util.h
index de00da1..c63ad0a 100644
--- a/pygrt/C_extension/include/grt/common/util.h
+++ b/pygrt/C_extension/include/grt/common/util.h
@@ -131,6 +131,16 @@ void grt_check_output_not_input(const char *output, const char *input);
  */
 void grt_copy_file(const char *src, const char *dst);
 
+/**
+ * 将当前命令以一行文本追加到文件，整行通过单次写入完成，
+ * 以免同时运行的多个命令的记录相互交错
+ *
+ * @param[in]    filepath    文件路径
+ * @param[in]    argc        参数个数
+ * @param[in]    argv        参数列表（不含主程序名）
+ */
+void grt_append_command(const char *filepath, int argc, char **argv);
+
 /**
  * 由于 Windows MSYS2 环境没有 getline 函数（即使定义了 _GNU_SOURCE）
  * 所以这里需要使用自定义的 getline 函数，参数与 POSIX 定义相同
diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index e38a3d3..9785773 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -398,6 +398,27 @@ void grt_copy_file(const char *src, const char *dst)
 }
 
 
+void grt_append_command(const char *filepath, int argc, char **argv)
+{
+    size_t length = strlen(GRT_MAIN_COMMAND " ") + 1;
+    for(int i = 0; i < argc; ++i)  length += strlen(argv[i]) + 1;
+
+    char *line = (char *)calloc(length + 1, sizeof(char));
+    if(line == NULL){
+        GRTRaiseError("Failed to allocate the command record.\n");
+    }
+    char *ptr = line + sprintf(line, GRT_MAIN_COMMAND " ");  // 主程序名
+    for(int i = 0; i < argc; ++i)  ptr += sprintf(ptr, "%s ", argv[i]);
+    *ptr = '\n';
+
+    FILE *fp = GRTCheckOpenFile(filepath, "a");
+    setvbuf(fp, NULL, _IONBF, 0);
+    fwrite(line, 1, length, fp);
+    GRTCheckCloseWrittenFile(fp, filepath);
+    GRT_SAFE_FREE_PTR(line);
+}
+
+
 ssize_t grt_getline(char **lineptr, size_t *n, FILE *stream){
     if (!lineptr || !n || !stream) {
         return -1;
diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index b3d4fb9..2397814 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -817,13 +817,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
     // 在目录中保留命令
     char *dummy = NULL;
     GRT_SAFE_ASPRINTF(&dummy, "%s/command", Ctrl->O.s_output_dir);
-    FILE *fp = GRTCheckOpenFile(dummy, "a");
-    fprintf(fp, GRT_MAIN_COMMAND " ");  // 主程序名
-    for(int i=0; i<argc; ++i){
-        fprintf(fp, "%s ", argv[i]);
-    }
-    fprintf(fp, "\n");
-    GRTCheckCloseWrittenFile(fp, dummy);
+    grt_append_command(dummy, argc, argv);
     GRT_SAFE_FREE_PTR(dummy);
 
 }
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 9e84e30..8f6d12f 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -359,13 +359,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
     // 在目录中保留命令
     char *dummy = NULL;
     GRT_SAFE_ASPRINTF(&dummy, "%s/command", Ctrl->O.s_output_dir);
-    FILE *fp = GRTCheckOpenFile(dummy, "a");
-    fprintf(fp, GRT_MAIN_COMMAND " ");  // 主程序名
-    for(int i=0; i<argc; ++i){
-        fprintf(fp, "%s ", argv[i]);
-    }
-    fprintf(fp, "\n");
-    GRTCheckCloseWrittenFile(fp, dummy);
+    grt_append_command(dummy, argc, argv);
     GRT_SAFE_FREE_PTR(dummy);
 }
 
diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index ad1ffb7..1ac103a 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -642,13 +642,7 @@ int modsum_main(int argc, char **argv){
     // 在目录中保留命令
     char *dummy = NULL;
     GRT_SAFE_ASPRINTF(&dummy, "%s/command", Ctrl->O.s_output_dir);
-    FILE *fp = GRTCheckOpenFile(dummy, "a");
-    fprintf(fp, GRT_MAIN_COMMAND " ");  // 主程序名
-    for(int i=0; i<argc; ++i){
-        fprintf(fp, "%s ", argv[i]);
-    }
-    fprintf(fp, "\n");
-    GRTCheckCloseWrittenFile(fp, dummy);
+    grt_append_command(dummy, argc, argv);
     GRT_SAFE_FREE_PTR(dummy);
 
     bool doEX = Ctrl->G.doEX;
-- 
2.43.0


From 3f3368648c7baf940500f35fb070dd359bbee7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:57 +0000
Subject: [PATCH 15/23] fix: a killed command no longer empties the model copy
 that another command of the same model completed

---
 pygrt/C_extension/src/common/util.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index 9785773..5aced69 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -376,7 +376,21 @@ void grt_copy_file(const char *src, const char *dst)
     if(grt_is_same_file(src, dst))  return;
 
     FILE *fin = GRTCheckOpenFile(src, "rb");
-    FILE *fout = GRTCheckOpenFile(dst, "wb");
+    // 目标已有不超过源文件大小的内容时原地改写，不先截断，
+    // 这样同一模型的另一个命令在此处中断不会毁坏已完成的副本
+    struct stat st_src, st_dst;
+    if(stat(src, &st_src) != 0){
+        GRTRaiseError("Cannot access \"%s\". Error code: %d\n", src, errno);
+    }
+    FILE *fout = NULL;
+    if(stat(dst, &st_dst) != 0 || st_dst.st_size <= st_src.st_size){
+        // 以 "ab" 创建（不截断）后再以 "r+b" 改写
+        fout = GRTCheckOpenFile(dst, "ab");
+        fclose(fout);
+        fout = GRTCheckOpenFile(dst, "r+b");
+    } else {
+        fout = GRTCheckOpenFile(dst, "wb");
+    }
 
     char buf[8192];
     size_t n;
-- 
2.43.0


From b70c91541bad7c4af55c4cb9f737bf9a3e5a40e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:24 +0000
Subject: [PATCH 16/23] fix: syn no longer fails on an entry that another
 command has just begun to write

---
 pygrt/C_extension/src/dynamic/grt_syn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index 9bd2bca..8f893a5 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -554,7 +554,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 }
 
 
-/** 返回目录中的任意一个 SAC 文件路径，没有则返回 NULL */
+/** 返回目录中的任意一个 SAC 文件路径，没有则返回 NULL，忽略头段尚不完整的文件（其它命令可能正在写入） */
 static char *find_sac_in_dir(const char *dirpath)
 {
     DIR *dir = opendir(dirpath);
@@ -572,7 +572,7 @@ static char *find_sac_in_dir(const char *dirpath)
         struct stat st;
         if(stat(filepath, &st) != 0){
             if(errno != ENOENT)  GRTRaiseError("Cannot inspect \"%s\". Error code: %d\n", filepath, errno);
-        } else if(S_ISREG(st.st_mode)){
+        } else if(S_ISREG(st.st_mode) && st.st_size >= (off_t)(SAC_HEADER_NUMBERS_SIZE + SAC_HEADER_STRINGS_SIZE)){
             closedir(dir);
             return filepath;
         }
-- 
2.43.0


From 655525235cf859863fff106b744350d50a93527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:54 +0000
Subject: [PATCH 17/23] fix: compute_syn returns only the files of this
 synthesis, not older ones in the same directory

---
 pygrt/pymod.py | 15 +++++++++++++--
 pygrt/utils.py |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pygrt/pymod.py b/pygrt/pymod.py
index ff6d37e..6d3a2ee 100755
--- a/pygrt/pymod.py
+++ b/pygrt/pymod.py
@@ -9,6 +9,7 @@
 
 from __future__ import annotations
 
+import glob
 import os
 import warnings
 from ctypes import c_size_t, cast, c_void_p
@@ -17,7 +18,7 @@ from typing import Dict, Iterable, Optional, Sequence, Union
 
 import numpy as np
 import numpy.ctypeslib as npct
-from obspy import read
+from obspy import Stream, read
 
 from .cli import format_float, format_range, run_grt
 from .c_interfaces import C_grt_compute_travt1d_from_file, C_grt_free, PREAL
@@ -718,7 +719,17 @@ class PyModel1D:
 
         run_grt(list(command.values()))
         if return_result:
-            return read(str(output / "*.sac"))
+            # 只读取本次合成写出的文件，同一目录下可能还有之前其它计算的结果
+            chs = "ZNE" if zne else "ZRT"
+            names = list(chs)
+            if calc_upar:
+                names += [pfx.lower() + ch for pfx in chs for ch in chs]
+            if time_function is not None:
+                names.append("sig")
+            stream = Stream()
+            for name in sorted(names):
+                stream += read(glob.escape(str(output / f"{name}.sac")))
+            return stream
         return None
 
     def compute_static_syn(
diff --git a/pygrt/utils.py b/pygrt/utils.py
index 8eb5943..0ff6777 100755
--- a/pygrt/utils.py
+++ b/pygrt/utils.py
@@ -290,7 +290,7 @@ def _postprocess(path: PathLike, module: str, return_result: bool):
     if path.is_dir():
         run_grt([module, path])
         # 动态结果只能靠文件名前缀区分 strain/rotation/stress
-        return read(str(path / f"{module}_*.sac")) if return_result else None
+        return read(f"{glob.escape(str(path))}/{module}_*.sac") if return_result else None
     if path.is_file():
         run_grt(["static", module, path])
         return read_static_nc(path) if return_result else None
-- 
2.43.0


From 10b04012880b4518db96b16be8a3e6544c1d3bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:18 +0000
Subject: [PATCH 18/23] fix: components with different sampling in one
 directory are refused instead of read out of bounds

A re-run of greenfn or syn with another -N that was interrupted leaves a directory
whose components differ in length or time step; syn, strain, stress and rotation
took the first one's length for all of them and ended successfully with values
read beyond the shorter ones.
---
 pygrt/C_extension/include/grt/common/sacio.h | 11 +++++++++++
 pygrt/C_extension/src/common/sacio.c         | 10 ++++++++++
 pygrt/C_extension/src/dynamic/grt_rotation.c |  4 ++--
 pygrt/C_extension/src/dynamic/grt_strain.c   |  4 ++--
 pygrt/C_extension/src/dynamic/grt_stress.c   |  4 ++--
 pygrt/C_extension/src/dynamic/grt_syn.c      | 12 ++++++------
 6 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/sacio.h b/pygrt/C_extension/include/grt/common/sacio.h
index 0e8253c..579a26f 100644
--- a/pygrt/C_extension/include/grt/common/sacio.h
+++ b/pygrt/C_extension/include/grt/common/sacio.h
@@ -28,6 +28,17 @@ typedef struct {
  */
 SACTRACE * grt_read_SACTRACE(const char *path, const bool headonly);
 
+/**
+ * 读取SAC文件，其采样点数和采样间隔须与已读取的道一致，否则报错退出。
+ * 同一目录下各分量的采样不一致，说明目录只被更新了一部分（例如重新计算被中断）
+ * 
+ * @param[in]       path          SAC文件路径
+ * @param[in]       ref           参考头段变量，NULL 则不检查
+ * 
+ * @return     SACTRACE 指针
+ */
+SACTRACE * grt_read_SACTRACE_like(const char *path, const SACHEAD *ref);
+
 /**
  * 复制 SACTRACE
  * 
diff --git a/pygrt/C_extension/src/common/sacio.c b/pygrt/C_extension/src/common/sacio.c
index 3aa15e4..e540ba6 100644
--- a/pygrt/C_extension/src/common/sacio.c
+++ b/pygrt/C_extension/src/common/sacio.c
@@ -35,6 +35,16 @@ SACTRACE * grt_read_SACTRACE(const char *path, const bool headonly)
     return sac;
 }
 
+SACTRACE * grt_read_SACTRACE_like(const char *path, const SACHEAD *ref)
+{
+    SACTRACE *sac = grt_read_SACTRACE(path, false);
+    if(ref != NULL && (sac->hd.npts != ref->npts || sac->hd.delta != ref->delta)){
+        GRTRaiseError("The sampling of %s (npts=%d, delta=%g) differs from that of the other components (npts=%d, delta=%g).\n",
+            path, sac->hd.npts, sac->hd.delta, ref->npts, ref->delta);
+    }
+    return sac;
+}
+
 SACTRACE * grt_copy_SACTRACE(SACTRACE *sac, bool zero_value)
 {
     SACTRACE *sac2 = (SACTRACE *)calloc(1, sizeof(SACTRACE));
diff --git a/pygrt/C_extension/src/dynamic/grt_rotation.c b/pygrt/C_extension/src/dynamic/grt_rotation.c
index 9dc4154..81a4000 100644
--- a/pygrt/C_extension/src/dynamic/grt_rotation.c
+++ b/pygrt/C_extension/src/dynamic/grt_rotation.c
@@ -121,13 +121,13 @@ int rotation_main(int argc, char **argv){
     float *res[GRT_CHANNEL_NUM][GRT_CHANNEL_NUM];
     for(int c=0; c<GRT_CHANNEL_NUM; ++c){
         GRT_SAFE_ASPRINTF(&s_filepath, "%s/%c.sac", Ctrl->s_synpath, chs[c]);
-        insac = grt_read_SACTRACE(s_filepath, false);
+        insac = grt_read_SACTRACE_like(s_filepath, &outsac->hd);
         u[c] = insac->data;
         insac->data = NULL;
         grt_free_SACTRACE(insac);
         for(int c2=0; c2<GRT_CHANNEL_NUM; ++c2){
             GRT_SAFE_ASPRINTF(&s_filepath, "%s/%c%c.sac", Ctrl->s_synpath, tolower(chs[c2]), chs[c]);
-            insac = grt_read_SACTRACE(s_filepath, false);
+            insac = grt_read_SACTRACE_like(s_filepath, &outsac->hd);
             upar[c2][c] = insac->data;
             insac->data = NULL;
             grt_free_SACTRACE(insac);
diff --git a/pygrt/C_extension/src/dynamic/grt_strain.c b/pygrt/C_extension/src/dynamic/grt_strain.c
index dc499bd..1828693 100644
--- a/pygrt/C_extension/src/dynamic/grt_strain.c
+++ b/pygrt/C_extension/src/dynamic/grt_strain.c
@@ -123,13 +123,13 @@ int strain_main(int argc, char **argv){
     float *res[GRT_CHANNEL_NUM][GRT_CHANNEL_NUM];
     for(int c=0; c<GRT_CHANNEL_NUM; ++c){
         GRT_SAFE_ASPRINTF(&s_filepath, "%s/%c.sac", Ctrl->s_synpath, chs[c]);
-        insac = grt_read_SACTRACE(s_filepath, false);
+        insac = grt_read_SACTRACE_like(s_filepath, &outsac->hd);
         u[c] = insac->data;
         insac->data = NULL;
         grt_free_SACTRACE(insac);
         for(int c2=0; c2<GRT_CHANNEL_NUM; ++c2){
             GRT_SAFE_ASPRINTF(&s_filepath, "%s/%c%c.sac", Ctrl->s_synpath, tolower(chs[c2]), chs[c]);
-            insac = grt_read_SACTRACE(s_filepath, false);
+            insac = grt_read_SACTRACE_like(s_filepath, &outsac->hd);
             upar[c2][c] = insac->data;
             insac->data = NULL;
             grt_free_SACTRACE(insac);
diff --git a/pygrt/C_extension/src/dynamic/grt_stress.c b/pygrt/C_extension/src/dynamic/grt_stress.c
index 398a933..7668008 100644
--- a/pygrt/C_extension/src/dynamic/grt_stress.c
+++ b/pygrt/C_extension/src/dynamic/grt_stress.c
@@ -191,13 +191,13 @@ int stress_main(int argc, char **argv){
     float *res[GRT_CHANNEL_NUM][GRT_CHANNEL_NUM];
     for(int c=0; c<GRT_CHANNEL_NUM; ++c){
         GRT_SAFE_ASPRINTF(&s_filepath, "%s/%c.sac", Ctrl->s_synpath, chs[c]);
-        insac = grt_read_SACTRACE(s_filepath, false);
+        insac = grt_read_SACTRACE_like(s_filepath, &outsac->hd);
         u[c] = insac->data;
         insac->data = NULL;
         grt_free_SACTRACE(insac);
         for(int c2=0; c2<GRT_CHANNEL_NUM; ++c2){
             GRT_SAFE_ASPRINTF(&s_filepath, "%s/%c%c.sac", Ctrl->s_synpath, tolower(chs[c2]), chs[c]);
-            insac = grt_read_SACTRACE(s_filepath, false);
+            insac = grt_read_SACTRACE_like(s_filepath, &outsac->hd);
             upar[c2][c] = insac->data;
             insac->data = NULL;
             grt_free_SACTRACE(insac);
diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index 8f893a5..8731516 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -931,8 +931,8 @@ static void syn_from_gf(
 }
 
 
-/** 读取一道格林函数 SAC；不存在则返回 NULL（允许 m=0 的 T） */
-static SACTRACE *syn_load_one_gf(const char *dirpath, const char *prefix, int im, int c)
+/** 读取一道格林函数 SAC；不存在则返回 NULL（允许 m=0 的 T）。采样须与 tmpl（如果有）一致 */
+static SACTRACE *syn_load_one_gf(const char *dirpath, const char *prefix, int im, int c, const SACTRACE *tmpl)
 {
     int modr = GRT_SRC_M_ORDERS[im];
     if(modr == 0 && GRT_ZRT_CODES[c] == 'T') return NULL;
@@ -943,7 +943,7 @@ static SACTRACE *syn_load_one_gf(const char *dirpath, const char *prefix, int im
         GRT_SAFE_FREE_PTR(grnpath);
         return NULL;
     }
-    SACTRACE *sac = grt_read_SACTRACE(grnpath, false);
+    SACTRACE *sac = grt_read_SACTRACE_like(grnpath, (tmpl != NULL)? &tmpl->hd : NULL);
     GRT_SAFE_FREE_PTR(grnpath);
     return sac;
 }
@@ -1011,7 +1011,7 @@ int syn_main(int argc, char **argv)
         int modr = GRT_SRC_M_ORDERS[im];
         if(modr == 0 && GRT_ZRT_CODES[c] == 'T') continue;
 
-        gf_sac[im][c] = syn_load_one_gf(Ctrl->G.s_grnpath, "", im, c);
+        gf_sac[im][c] = syn_load_one_gf(Ctrl->G.s_grnpath, "", im, c, tmpl);
         if(gf_sac[im][c] == NULL){
             GRTRaiseError("Failed to read Green function %s%s%c.sac\n",
                 "", GRT_SRC_M_NAME_ABBR[im], GRT_ZRT_CODES[c]);
@@ -1020,8 +1020,8 @@ int syn_main(int argc, char **argv)
         if(tmpl == NULL) tmpl = gf_sac[im][c];
 
         if(calc_upar){
-            gf_uiz_sac[im][c] = syn_load_one_gf(Ctrl->G.s_grnpath, "z", im, c);
-            gf_uir_sac[im][c] = syn_load_one_gf(Ctrl->G.s_grnpath, "r", im, c);
+            gf_uiz_sac[im][c] = syn_load_one_gf(Ctrl->G.s_grnpath, "z", im, c, tmpl);
+            gf_uir_sac[im][c] = syn_load_one_gf(Ctrl->G.s_grnpath, "r", im, c, tmpl);
             if(gf_uiz_sac[im][c] == NULL || gf_uir_sac[im][c] == NULL){
                 GRTRaiseError("Failed to read Green function derivatives for %s%c\n",
                     GRT_SRC_M_NAME_ABBR[im], GRT_ZRT_CODES[c]);
-- 
2.43.0


From d5c2836bdbee43b7614a1489f5ef655b35d89529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 19/23] fix: the Python statistics readers report a file that
 ends within a record instead of dropping it

---
 pygrt/utils.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pygrt/utils.py b/pygrt/utils.py
index 0ff6777..25e235d 100755
--- a/pygrt/utils.py
+++ b/pygrt/utils.py
@@ -472,6 +472,16 @@ def stream_write_sac(st: Stream, directory: PathLike) -> None:
 #=================================================================================================================
 
 
+def _read_stats_records(path:str, dtype:list):
+    """Read the fixed-size records of a statsfile; a file ending within a record is an error."""
+    itemsize = np.dtype(dtype).itemsize
+    nbytes = os.path.getsize(path)
+    if nbytes % itemsize != 0:
+        raise OSError(f"{path} is incomplete: its size ({nbytes} bytes) is not a multiple of the record size ({itemsize} bytes).")
+
+    return np.fromfile(path, dtype=dtype)
+
+
 def read_statsfile(statsfile:str):
     '''
         read a statsfile  
@@ -500,9 +510,7 @@ def read_statsfile(statsfile:str):
             dtype.append((f"{SRC_M_NAME_ABBR[im]}_{qwvchs[c]}", NPCT_CMPLX_TYPE))
 
 
-    data = np.fromfile(statsfile, dtype=dtype)
-
-    return data
+    return _read_stats_records(statsfile, dtype)
 
 
 def read_kernels_freqs(statsdir:str, vels:Union[np.ndarray,None]=None, ktypes:Union[List[str],None]=None):
@@ -645,7 +653,7 @@ def read_statsfile_ptam(statsfile:str):
             dtype.append((f"sum_{SRC_M_NAME_ABBR[im]}_{v}", NPCT_CMPLX_TYPE))
 
 
-    ptam_data = np.fromfile(statsfile, dtype=dtype)
+    ptam_data = _read_stats_records(statsfile, dtype)
 
     return data1, data2, ptam_data, dist
 
-- 
2.43.0


From e42bc38483837c59e6fe30a86f5409081c1fd1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 20/23] fix: NetCDF products are written to a temporary file
 and renamed when complete, so an interrupted run neither leaves a file that
 looks whole nor destroys the one it extends

---
 .../C_extension/include/grt/common/mynetcdf.h | 31 ++++++--
 pygrt/C_extension/src/common/mynetcdf.c       | 70 ++++++++++++++++++-
 pygrt/C_extension/src/modal/modal_util.c      | 20 +++---
 pygrt/C_extension/src/okada/grt_okada.c       |  4 +-
 .../src/static/grt_static_rotation.c          |  4 +-
 .../src/static/grt_static_strain.c            |  4 +-
 .../src/static/grt_static_stress.c            |  4 +-
 pygrt/C_extension/src/static/grt_static_syn.c |  4 +-
 pygrt/C_extension/src/static/stgrnlib.c       |  4 +-
 9 files changed, 116 insertions(+), 29 deletions(-)

diff --git a/pygrt/C_extension/include/grt/common/mynetcdf.h b/pygrt/C_extension/include/grt/common/mynetcdf.h
index ecdc947..c9efed5 100644
--- a/pygrt/C_extension/include/grt/common/mynetcdf.h
+++ b/pygrt/C_extension/include/grt/common/mynetcdf.h
@@ -20,12 +20,6 @@
     } \
 })
 
-// 关闭写入的文件。nc_close 不返回最后一次刷新缓存的错误，因此先用 nc_sync 检查
-#define NC_CLOSE_WRITTEN(ncid) ({\
-    NC_CHECK(nc_sync(ncid)); \
-    NC_CHECK(nc_close(ncid)); \
-})
-
 /**
  * 检查经典格式的 NetCDF 文件是否完整，文件被截断则报错退出
  * 
@@ -38,3 +32,28 @@ void grt_nc_check_complete(const char *path);
     grt_nc_check_complete(path); \
     NC_CHECK(nc_open(path, mode, ncidp)); \
 })
+
+/**
+ * 创建 NetCDF 文件，内容先写入临时文件 "<path>.part"，
+ * 这样写入中断时不会留下看似完整的文件，也不会毁坏已有的文件
+ * 
+ * @param[in]     path      文件路径
+ * @param[out]    ncid      文件 ID
+ */
+void grt_nc_create_part(const char *path, int *ncid);
+
+/**
+ * 打开已有的 NetCDF 文件以添加内容，修改的是其临时副本 "<path>.part"
+ * 
+ * @param[in]     path      文件路径
+ * @param[out]    ncid      文件 ID
+ */
+void grt_nc_open_part(const char *path, int *ncid);
+
+/**
+ * 关闭由 grt_nc_create_part 或 grt_nc_open_part 打开的文件，并将临时文件重命名为 path
+ * 
+ * @param[in]     path      文件路径
+ * @param[in]     ncid      文件 ID
+ */
+void grt_nc_commit_part(const char *path, int ncid);
diff --git a/pygrt/C_extension/src/common/mynetcdf.c b/pygrt/C_extension/src/common/mynetcdf.c
index 785aa2b..5967d6b 100644
--- a/pygrt/C_extension/src/common/mynetcdf.c
+++ b/pygrt/C_extension/src/common/mynetcdf.c
@@ -4,16 +4,19 @@
  * @date   2025-08
  * 
  * netcdf 库在读取被截断的经典格式文件时，会将缺失的部分当作 0 且不报错，
- * 因此打开文件前先检查文件长度
+ * 因此打开文件前先检查文件长度；而长度完整的文件无法看出数据是否写完，
+ * 因此先写入临时文件，完成后再重命名
  * 
  */
 
 #include <stdint.h>
+#include <stdlib.h>
 #include <string.h>
 #include <sys/stat.h>
 
 #include "grt/common/mynetcdf.h"
 #include "grt/common/checkerror.h"
+#include "grt/common/util.h"
 
 /** 读取 n 字节的大端序整数 */
 static uint64_t read_uint(FILE *fp, const char *path, int n)
@@ -109,3 +112,68 @@ void grt_nc_check_complete(const char *path)
     }
     fclose(fp);
 }
+
+/**
+ * 实际写入的文件（符号链接则为其指向的文件）及其临时文件。
+ * 已存在但不是普通文件（如设备）则直接写入，此时两者相同
+ */
+static void get_part_path(const char *path, char **target, char **part)
+{
+    struct stat st;
+#if _TEST_WHETHER_WIN32_
+    char *real = _fullpath(NULL, path, 0);
+#else
+    char *real = realpath(path, NULL);
+#endif
+    *target = GRT_SAFE_STRDUP((real != NULL) ? real : path);
+    free(real);
+    *part = NULL;
+    if(stat(path, &st) == 0 && !S_ISREG(st.st_mode)){
+        *part = GRT_SAFE_STRDUP(*target);
+    } else {
+        GRT_SAFE_ASPRINTF(part, "%s.part", *target);
+    }
+}
+
+void grt_nc_create_part(const char *path, int *ncid)
+{
+    char *target, *part;
+    get_part_path(path, &target, &part);
+    NC_CHECK(nc_create(part, NC_CLOBBER, ncid));
+    GRT_SAFE_FREE_PTR(target);
+    GRT_SAFE_FREE_PTR(part);
+}
+
+void grt_nc_open_part(const char *path, int *ncid)
+{
+    char *target, *part;
+    get_part_path(path, &target, &part);
+    grt_nc_check_complete(target);
+    grt_copy_file(target, part);
+    NC_CHECK(nc_open(part, NC_WRITE, ncid));
+    GRT_SAFE_FREE_PTR(target);
+    GRT_SAFE_FREE_PTR(part);
+}
+
+void grt_nc_commit_part(const char *path, int ncid)
+{
+    // nc_close 不返回最后一次刷新缓存的错误，因此先用 nc_sync 检查
+    NC_CHECK(nc_sync(ncid));
+    NC_CHECK(nc_close(ncid));
+
+    char *target, *part;
+    get_part_path(path, &target, &part);
+    if(strcmp(part, target) != 0){
+        // 保留原文件的权限
+        struct stat st;
+        if(stat(target, &st) == 0)  chmod(part, st.st_mode & 07777);
+#if _TEST_WHETHER_WIN32_
+        remove(target);  // Windows 下 rename 不覆盖已有文件
+#endif
+        if(rename(part, target) != 0){
+            GRTRaiseError("Failed to rename \"%s\" to \"%s\". Error code: %d\n", part, target, errno);
+        }
+    }
+    GRT_SAFE_FREE_PTR(target);
+    GRT_SAFE_FREE_PTR(part);
+}
diff --git a/pygrt/C_extension/src/modal/modal_util.c b/pygrt/C_extension/src/modal/modal_util.c
index 22778b4..0a3485e 100644
--- a/pygrt/C_extension/src/modal/modal_util.c
+++ b/pygrt/C_extension/src/modal/modal_util.c
@@ -31,7 +31,7 @@ void grt_output_cdisp(const char *filepath, const char *full_command, const char
     int c_varid, ciref_varid, cnum_varid;
 
     // 创建 NC 文件
-    NC_CHECK(nc_create(filepath, NC_CLOBBER, &ncid));
+    grt_nc_create_part(filepath, &ncid);
 
     // 写入生成频散的命令
     NC_CHECK(nc_put_att_text(ncid, NC_GLOBAL, "command", strlen(full_command), full_command));
@@ -123,7 +123,7 @@ void grt_output_cdisp(const char *filepath, const char *full_command, const char
     }
     
     // 关闭文件
-    NC_CLOSE_WRITTEN(ncid);
+    grt_nc_commit_part(filepath, ncid);
 
 }
 
@@ -172,7 +172,7 @@ void grt_output_udisp(const char *filepath, EIGENFN_INFO *eigfnmet)
     int c_varid, u_varid, cnum_varid;
 
     // 创建 NC 文件
-    NC_CHECK(nc_create(filepath, NC_CLOBBER, &ncid));
+    grt_nc_create_part(filepath, &ncid);
 
     // 定义维度
     NC_CHECK(nc_def_dim(ncid, "freq", eigfnmet->nf, &f_dimid));
@@ -237,7 +237,7 @@ void grt_output_udisp(const char *filepath, EIGENFN_INFO *eigfnmet)
     }
     
     // 关闭文件
-    NC_CLOSE_WRITTEN(ncid);
+    grt_nc_commit_part(filepath, ncid);
 
 }
 
@@ -255,7 +255,7 @@ void grt_output_eigenfns(const char *filepath, const int ncols, EIGENFN_INFO *ei
     const int nw = 2 * ncols; // 分实部和虚部
 
     // 创建 NC 文件
-    NC_CHECK(nc_create(filepath, NC_CLOBBER, &ncid));
+    grt_nc_create_part(filepath, &ncid);
 
     // 定义维度
     NC_CHECK(nc_def_dim(ncid, "freq", eigfnmet->nf, &f_dimid));
@@ -353,7 +353,7 @@ void grt_output_eigenfns(const char *filepath, const int ncols, EIGENFN_INFO *ei
     }
     
     // 关闭文件
-    NC_CLOSE_WRITTEN(ncid);
+    grt_nc_commit_part(filepath, ncid);
 
     GRT_SAFE_FREE_PTR(realimag_part);
 }
@@ -370,7 +370,7 @@ void grt_output_energy_integrals(const char *filepath, EIGENFN_INFO *eigfnmet)
     int ne = 2 * (GRT_EGYINTS_MAX + 1);  // + 1 为了验证项
 
     // 创建 NC 文件
-    NC_CHECK(nc_create(filepath, NC_CLOBBER, &ncid));
+    grt_nc_create_part(filepath, &ncid);
 
     // 定义维度
     NC_CHECK(nc_def_dim(ncid, "freq", eigfnmet->nf, &f_dimid));
@@ -466,7 +466,7 @@ void grt_output_energy_integrals(const char *filepath, EIGENFN_INFO *eigfnmet)
     }
 
     // 关闭文件
-    NC_CLOSE_WRITTEN(ncid);
+    grt_nc_commit_part(filepath, ncid);
 
     GRT_SAFE_FREE_PTR(realimag_part);
 
@@ -483,7 +483,7 @@ void grt_output_sensitivity(const char *filepath, const char *char_uc, EIGENFN_I
     int nk = GRT_SNSTVTY_MAX;  // 敏感核仅取实部
 
     // 创建 NC 文件
-    NC_CHECK(nc_create(filepath, NC_CLOBBER, &ncid));
+    grt_nc_create_part(filepath, &ncid);
 
     // 定义维度
     NC_CHECK(nc_def_dim(ncid, "freq", eigfnmet->nf, &f_dimid));
@@ -604,7 +604,7 @@ void grt_output_sensitivity(const char *filepath, const char *char_uc, EIGENFN_I
     }
 
     // 关闭文件
-    NC_CLOSE_WRITTEN(ncid);
+    grt_nc_commit_part(filepath, ncid);
 
     GRT_SAFE_FREE_PTR(real_part);
 }
diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index d190b36..c485164 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -628,7 +628,7 @@ static void save_nc(const GRT_MODULE_CTRL *ctrl, const OKADA_MEDIUM_PARAMS *medi
     const char *compute_type = ctrl->C.active ? "FF" : (ctrl->M.active ? (ctrl->M.has_rake ? "DC" : "TS") : "EX");
     const char *coordinate = "Okada X=strike,Y=up-dip horizontal,Z=up";
     int ncid, vars[3], dvars[3][3];
-    NC_CHECK(nc_create(ctrl->O.path, NC_CLOBBER, &ncid));
+    grt_nc_create_part(ctrl->O.path, &ncid);
     NC_CHECK(nc_put_att_text(ncid, NC_GLOBAL, "layout", strlen(layout), layout));
     NC_CHECK(nc_put_att_text(ncid, NC_GLOBAL, "computeType", strlen(compute_type), compute_type));
     NC_CHECK(nc_put_att_text(ncid, NC_GLOBAL, "coordinate", strlen(coordinate), coordinate));
@@ -716,7 +716,7 @@ static void save_nc(const GRT_MODULE_CTRL *ctrl, const OKADA_MEDIUM_PARAMS *medi
         }
     }
     GRT_SAFE_FREE_PTR(buffer);
-    NC_CLOSE_WRITTEN(ncid);
+    grt_nc_commit_part(ctrl->O.path, ncid);
 }
 
 /** Okada 子模块主函数 */
diff --git a/pygrt/C_extension/src/static/grt_static_rotation.c b/pygrt/C_extension/src/static/grt_static_rotation.c
index 13e25ee..0d4dc8c 100644
--- a/pygrt/C_extension/src/static/grt_static_rotation.c
+++ b/pygrt/C_extension/src/static/grt_static_rotation.c
@@ -102,7 +102,7 @@ int static_rotation_main(int argc, char **argv){
 
     // 打开 nc 文件
     GRTCheckFileExist(s_ingrid);
-    NC_OPEN_CHECKED(s_ingrid, NC_WRITE, &in_ncid);
+    grt_nc_open_part(s_ingrid, &in_ncid);
 
     // 输出分量格式，即是否需要旋转到ZNE
     bool rot2ZNE = false;
@@ -231,7 +231,7 @@ int static_rotation_main(int argc, char **argv){
     }
 
     // 关闭文件
-    NC_CLOSE_WRITTEN(in_ncid);
+    grt_nc_commit_part(s_ingrid, in_ncid);
 
     GRT_SAFE_FREE_PTR(norths_flat);
     GRT_SAFE_FREE_PTR(easts_flat);
diff --git a/pygrt/C_extension/src/static/grt_static_strain.c b/pygrt/C_extension/src/static/grt_static_strain.c
index b821864..1fd5bbc 100644
--- a/pygrt/C_extension/src/static/grt_static_strain.c
+++ b/pygrt/C_extension/src/static/grt_static_strain.c
@@ -103,7 +103,7 @@ int static_strain_main(int argc, char **argv){
 
     // 打开 nc 文件
     GRTCheckFileExist(s_ingrid);
-    NC_OPEN_CHECKED(s_ingrid, NC_WRITE, &in_ncid);
+    grt_nc_open_part(s_ingrid, &in_ncid);
 
     // 输出分量格式，即是否需要旋转到ZNE
     bool rot2ZNE = false;
@@ -232,7 +232,7 @@ int static_strain_main(int argc, char **argv){
     }
 
     // 关闭文件
-    NC_CLOSE_WRITTEN(in_ncid);
+    grt_nc_commit_part(s_ingrid, in_ncid);
 
     GRT_SAFE_FREE_PTR(norths_flat);
     GRT_SAFE_FREE_PTR(easts_flat);
diff --git a/pygrt/C_extension/src/static/grt_static_stress.c b/pygrt/C_extension/src/static/grt_static_stress.c
index bc3ada2..3767c7b 100644
--- a/pygrt/C_extension/src/static/grt_static_stress.c
+++ b/pygrt/C_extension/src/static/grt_static_stress.c
@@ -130,7 +130,7 @@ int static_stress_main(int argc, char **argv){
 
     // 打开 nc 文件
     GRTCheckFileExist(s_ingrid);
-    NC_OPEN_CHECKED(s_ingrid, NC_WRITE, &in_ncid);
+    grt_nc_open_part(s_ingrid, &in_ncid);
 
     // 输出分量格式，即是否需要旋转到ZNE
     bool rot2ZNE = false;
@@ -289,7 +289,7 @@ int static_stress_main(int argc, char **argv){
     }
 
     // 关闭文件
-    NC_CLOSE_WRITTEN(in_ncid);
+    grt_nc_commit_part(s_ingrid, in_ncid);
 
     GRT_SAFE_FREE_PTR(norths_flat);
     GRT_SAFE_FREE_PTR(easts_flat);
diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index 71f4f6c..969187a 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -1379,7 +1379,7 @@ static void save_syn_nc(
     int syn_varids[GRT_CHANNEL_NUM];
     int syn_upar_varids[GRT_CHANNEL_NUM][GRT_CHANNEL_NUM];
 
-    NC_CHECK(nc_create(path, NC_CLOBBER, &ncid));
+    grt_nc_create_part(path, &ncid);
     NC_CHECK(nc_put_att_text(ncid, NC_GLOBAL, "layout", strlen(layout_str), layout_str));
 
     // 点源才记录单一 depsrc；有限断层各子源深度不同，不写此属性
@@ -1405,7 +1405,7 @@ static void save_syn_nc(
     }
 
     put_syn_fields(ncid, recv->npts, calc_upar, syn, syn_upar, syn_varids, syn_upar_varids);
-    NC_CLOSE_WRITTEN(ncid);
+    grt_nc_commit_part(path, ncid);
 }
 
 
diff --git a/pygrt/C_extension/src/static/stgrnlib.c b/pygrt/C_extension/src/static/stgrnlib.c
index 8327daf..1b13c23 100644
--- a/pygrt/C_extension/src/static/stgrnlib.c
+++ b/pygrt/C_extension/src/static/stgrnlib.c
@@ -411,7 +411,7 @@ void grt_stgrnlib_save_nc(const STGRNLIB *lib, const char *path)
     intChnlGrid uiz_varids;
     intChnlGrid uir_varids;
 
-    NC_CHECK(nc_create(path, NC_CLOBBER, &ncid));
+    grt_nc_create_part(path, &ncid);
 
     {
         int tmp = lib->calc_upar ? 1 : 0;
@@ -506,5 +506,5 @@ void grt_stgrnlib_save_nc(const STGRNLIB *lib, const char *path)
         }
     }
     GRT_SAFE_FREE_PTR(tmpdata);
-    NC_CLOSE_WRITTEN(ncid);
+    grt_nc_commit_part(path, ncid);
 }
-- 
2.43.0


From 20cbd80eceda1bedbe8df4d754562b2927230ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:11 +0000
Subject: [PATCH 21/23] fix: eigenfn and modsum refuse a dispersion file that
 refers to layers the model does not have

---
 pygrt/C_extension/include/grt/modal/modal_util.h | 10 ++++++++++
 pygrt/C_extension/src/modal/grt_eigenfn.c        |  1 +
 pygrt/C_extension/src/modal/grt_modsum.c         |  1 +
 pygrt/C_extension/src/modal/modal_util.c         | 13 +++++++++++++
 4 files changed, 25 insertions(+)

diff --git a/pygrt/C_extension/include/grt/modal/modal_util.h b/pygrt/C_extension/include/grt/modal/modal_util.h
index 1a928f6..21aab25 100644
--- a/pygrt/C_extension/include/grt/modal/modal_util.h
+++ b/pygrt/C_extension/include/grt/modal/modal_util.h
@@ -82,3 +82,13 @@ void grt_group_sensitivity(EIGENFN_INFO *eigfnmet);
  * @param[out]   pt_modelpath     模型路径
  */
 void grt_read_dispersion(const char *filepath, EIGENV_INFO *eigmet, char **pt_modelpath);
+
+/** 
+ * 检查频散结果是否属于该模型，即每个本征值记录的层位都在模型的层数以内，否则报错退出
+ * 
+ * @param[in]    filepath         频散文件路径
+ * @param[in]    eigmet           频散数据结构体指针
+ * @param[in]    modelpath        模型路径
+ * @param[in]    nlay             模型层数
+ */
+void grt_check_dispersion_model(const char *filepath, const EIGENV_INFO *eigmet, const char *modelpath, const size_t nlay);
diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index 986c239..06466a3 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -528,6 +528,7 @@ int eigenfn_main(int argc, char **argv){
     if((mod1d = grt_read_mod1d_from_file(modelpath, -1.0, -1.0, true)) ==NULL){
         exit(EXIT_FAILURE);
     }
+    grt_check_dispersion_model(Ctrl->C.s_filepath, eigmet, modelpath, mod1d->n);
 
     // 输出文件不能覆盖频散文件和模型文件
     const char *outputs[] = {
diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index 1ac103a..aac44b4 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -626,6 +626,7 @@ int modsum_main(int argc, char **argv){
     if((mod1d = grt_read_mod1d_from_file(modelpath, -1.0, -1.0, true)) == NULL){
         exit(EXIT_FAILURE);
     }
+    grt_check_dispersion_model(Ctrl->C.s_filepath, eigmet, modelpath, mod1d->n);
 
     // 建立保存目录并检查已有内容
     GRTCheckMakeDir(Ctrl->O.s_output_dir);
diff --git a/pygrt/C_extension/src/modal/modal_util.c b/pygrt/C_extension/src/modal/modal_util.c
index 0a3485e..13ae6f2 100644
--- a/pygrt/C_extension/src/modal/modal_util.c
+++ b/pygrt/C_extension/src/modal/modal_util.c
@@ -721,3 +721,16 @@ void grt_read_dispersion(const char *filepath, EIGENV_INFO *eigmet, char **pt_mo
 
     GRT_SAFE_FREE_PTR(cnum);
 }
+
+
+void grt_check_dispersion_model(const char *filepath, const EIGENV_INFO *eigmet, const char *modelpath, const size_t nlay)
+{
+    for(size_t iw = 0; iw < eigmet->nf; ++iw){
+        for(size_t ic = 0; ic < eigmet->eigv[iw].n; ++ic){
+            if(eigmet->eigv[iw].c_roots_iref[ic] >= nlay){
+                GRTRaiseError("Dispersion file \"%s\" refers to a layer that does not exist in the model \"%s\" (has the model been changed?).\n",
+                    filepath, modelpath);
+            }
+        }
+    }
+}
-- 
2.43.0


From 6faca9fc006d570163ea30b6c0355962920e3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:11 +0000
Subject: [PATCH 22/23] fix: static strain, stress and rotation running at the
 same time on one file wait for each other instead of losing results

---
 pygrt/C_extension/src/common/mynetcdf.c | 54 +++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/pygrt/C_extension/src/common/mynetcdf.c b/pygrt/C_extension/src/common/mynetcdf.c
index 5967d6b..383624e 100644
--- a/pygrt/C_extension/src/common/mynetcdf.c
+++ b/pygrt/C_extension/src/common/mynetcdf.c
@@ -9,15 +9,22 @@
  * 
  */
 
+#include <errno.h>
+#include <fcntl.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
+#include <unistd.h>
 #include <sys/stat.h>
 
 #include "grt/common/mynetcdf.h"
 #include "grt/common/checkerror.h"
 #include "grt/common/util.h"
 
+#if !_TEST_WHETHER_WIN32_
+#include <sys/file.h>
+#endif
+
 /** 读取 n 字节的大端序整数 */
 static uint64_t read_uint(FILE *fp, const char *path, int n)
 {
@@ -135,6 +142,51 @@ static void get_part_path(const char *path, char **target, char **part)
     }
 }
 
+#if !_TEST_WHETHER_WIN32_
+// 正在修改的文件的描述符，持有其锁
+static int target_lock = -1;
+#endif
+
+/**
+ * 等待其它正在修改该文件的命令结束，直到提交（或进程结束）前其它命令不能修改该文件
+ */
+static void lock_target(const char *target)
+{
+#if _TEST_WHETHER_WIN32_
+    (void)target;
+#else
+    while(true){
+        int fd = open(target, O_RDONLY);
+        if(fd < 0)  GRTRaiseError("Failed to open file \"%s\". Error code: %d\n", target, errno);
+
+        int status;
+        do {
+            status = flock(fd, LOCK_EX);
+        } while(status != 0 && errno == EINTR);
+
+        // 等待期间文件可能已被重命名后的新文件替换
+        struct stat locked, current;
+        if(fstat(fd, &locked) != 0 || stat(target, &current) != 0){
+            GRTRaiseError("Cannot inspect \"%s\". Error code: %d\n", target, errno);
+        }
+        // 不支持文件锁的文件系统（status != 0）上不等待
+        if(status != 0 || (locked.st_dev == current.st_dev && locked.st_ino == current.st_ino)){
+            target_lock = fd;
+            return;
+        }
+        close(fd);
+    }
+#endif
+}
+
+static void unlock_target(void)
+{
+#if !_TEST_WHETHER_WIN32_
+    if(target_lock >= 0)  close(target_lock);
+    target_lock = -1;
+#endif
+}
+
 void grt_nc_create_part(const char *path, int *ncid)
 {
     char *target, *part;
@@ -148,6 +200,7 @@ void grt_nc_open_part(const char *path, int *ncid)
 {
     char *target, *part;
     get_part_path(path, &target, &part);
+    lock_target(target);
     grt_nc_check_complete(target);
     grt_copy_file(target, part);
     NC_CHECK(nc_open(part, NC_WRITE, ncid));
@@ -174,6 +227,7 @@ void grt_nc_commit_part(const char *path, int ncid)
             GRTRaiseError("Failed to rename \"%s\" to \"%s\". Error code: %d\n", part, target, errno);
         }
     }
+    unlock_target();
     GRT_SAFE_FREE_PTR(target);
     GRT_SAFE_FREE_PTR(part);
 }
-- 
2.43.0


From 72a1079b7fd4232055982e22f890ea588d635e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:59 +0000
Subject: [PATCH 23/23] fix: eigenv -X prints no sample from an empty search
 range (it printed an uninitialised one)

---
 pygrt/C_extension/src/modal/root.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/modal/root.c b/pygrt/C_extension/src/modal/root.c
index 1b31c72..b328280 100644
--- a/pygrt/C_extension/src/modal/root.c
+++ b/pygrt/C_extension/src/modal/root.c
@@ -286,7 +286,10 @@ static void grt_adaptive_step_secular_roots(
     // 记录第一个值
     if(eigmet->print_sec){
         fprintf(stdout, "# iref=%zu, f=%f, tol=%e, c1=%f, c2=%f\n", iref, creal(mstat->omega)/PI2, eigmet->satol, cmin, cmax);
-        fprintf(stdout, "%.16e %.16e %.16e \n", Citv.x3[0], GRT_CMPLX_SPLIT(Citv.F3[0]));
+        // 搜索范围为空时没有可供输出的值
+        if(stack.size > 0) {
+            fprintf(stdout, "%.16e %.16e %.16e \n", Citv.x3[0], GRT_CMPLX_SPLIT(Citv.F3[0]));
+        }
     }
 
     cplx_t secCheck[6];
-- 
2.43.0

