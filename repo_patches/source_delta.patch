From f4e5fabca1a3b7d84b4d957e3675ce1ff75fc9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:43 +0000
Subject: [PATCH 01/43] fix: reject out-of-range PVS offsets when computing the
 PHS

---
 vis/soundpvs.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vis/soundpvs.cc b/vis/soundpvs.cc
index 225ca62..5b66bb0 100644
--- a/vis/soundpvs.cc
+++ b/vis/soundpvs.cc
@@ -153,6 +153,15 @@ void CalcAmbientSounds(mbsp_t *bsp)
     });
 }
 
+// start of the compressed PVS row of a cluster; the offset comes from the file when running with -phsonly
+static const uint8_t *ClusterPVS(const mbsp_t *bsp, int32_t cluster)
+{
+    const int32_t offset = bsp->dvis.get_bit_offset(VIS_PVS, cluster);
+    if (offset < 0 || offset >= bsp->dvis.bits.size())
+        FError("invalid visofs for cluster {}", cluster);
+    return bsp->dvis.bits.data() + offset;
+}
+
 /*
 ================
 CalcPHS
@@ -178,7 +187,7 @@ void CalcPHS(mbsp_t *bsp)
 
     int32_t count = 0;
     for (int32_t i = 0; i < portalleafs; i++) {
-        const uint8_t *scan = bsp->dvis.bits.data() + bsp->dvis.get_bit_offset(VIS_PVS, i);
+        const uint8_t *scan = ClusterPVS(bsp, i);
 
         DecompressVis(scan, bsp->dvis.bits.data() + bsp->dvis.bits.size(), uncompressed.data(),
             uncompressed.data() + uncompressed.size());
@@ -197,7 +206,7 @@ void CalcPHS(mbsp_t *bsp)
                 int32_t index = ((j << 3) + k);
                 if (index >= portalleafs)
                     FError("Bad bit in PVS"); // pad bits should be 0
-                const uint8_t *src_compressed = bsp->dvis.bits.data() + bsp->dvis.get_bit_offset(VIS_PVS, index);
+                const uint8_t *src_compressed = ClusterPVS(bsp, index);
                 DecompressVis(src_compressed, bsp->dvis.bits.data() + bsp->dvis.bits.size(), uncompressed_2.data(),
                     uncompressed_2.data() + uncompressed_2.size());
                 const long *src = reinterpret_cast<long *>(uncompressed_2.data());
-- 
2.43.0


From f18225b6d6662be97444709f8b248f5c913d027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:14 +0000
Subject: [PATCH 02/43] fix: combine whole PVS rows when computing the PHS

---
 vis/soundpvs.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/vis/soundpvs.cc b/vis/soundpvs.cc
index 5b66bb0..a676fc3 100644
--- a/vis/soundpvs.cc
+++ b/vis/soundpvs.cc
@@ -175,7 +175,6 @@ void CalcPHS(mbsp_t *bsp)
     logging::funcheader();
 
     const int32_t leafbytes = (portalleafs + 7) >> 3;
-    const int32_t leaflongs = leafbytes / sizeof(long);
 
     // increase the bits size with approximately how much space we'll need
     bsp->dvis.bits.reserve(bsp->dvis.bits.size() * 2);
@@ -209,10 +208,9 @@ void CalcPHS(mbsp_t *bsp)
                 const uint8_t *src_compressed = ClusterPVS(bsp, index);
                 DecompressVis(src_compressed, bsp->dvis.bits.data() + bsp->dvis.bits.size(), uncompressed_2.data(),
                     uncompressed_2.data() + uncompressed_2.size());
-                const long *src = reinterpret_cast<long *>(uncompressed_2.data());
-                long *dest = reinterpret_cast<long *>(uncompressed.data());
-                for (int32_t l = 0; l < leaflongs; l++)
-                    dest[l] |= src[l];
+                // byte by byte: a row is not padded to a multiple of sizeof(long)
+                for (int32_t l = 0; l < leafbytes; l++)
+                    uncompressed[l] |= uncompressed_2[l];
             }
         }
         for (int32_t j = 0; j < portalleafs; j++)
-- 
2.43.0


From 7033ad46f4006300bfba33b83911727581be8829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:37 +0000
Subject: [PATCH 03/43] fix: round Quake II leaf maxs outward like every other
 bounds field

---
 common/bspfile_q2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspfile_q2.cc b/common/bspfile_q2.cc
index a49816b..06dadfc 100644
--- a/common/bspfile_q2.cc
+++ b/common/bspfile_q2.cc
@@ -180,7 +180,7 @@ q2_dleaf_t::q2_dleaf_t(const mleaf_t &model)
       cluster(numeric_cast<int16_t>(model.cluster, "dleaf_t::cluster")),
       area(numeric_cast<int16_t>(model.area, "dleaf_t::area")),
       mins(aabb_mins_cast<int16_t>(model.mins, "dleaf_t::mins")),
-      maxs(aabb_mins_cast<int16_t>(model.maxs, "dleaf_t::maxs")),
+      maxs(aabb_maxs_cast<int16_t>(model.maxs, "dleaf_t::maxs")),
       firstleafface(numeric_cast<uint16_t>(model.firstmarksurface, "dleaf_t::firstmarksurface")),
       numleaffaces(numeric_cast<uint16_t>(model.nummarksurfaces, "dleaf_t::nummarksurfaces")),
       firstleafbrush(numeric_cast<uint16_t>(model.firstleafbrush, "dleaf_t::firstleafbrush")),
-- 
2.43.0


From 13ccf981accae68c3c7250bd35b8799cc1c36540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:37 +0000
Subject: [PATCH 04/43] fix: don't truncate the output before refusing to write
 an unconverted BSP

---
 common/bspfile.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index f79d0ec..76cb5cf 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -2524,6 +2524,10 @@ public:
  */
 void WriteBSPFile(const fs::path &filename, bspdata_t *bspdata)
 {
+    // refuse before truncating an existing file (e.g. converting to the output format failed)
+    if (std::holds_alternative<mbsp_t>(bspdata->bsp))
+        FError("can't write generic BSP to {}", filename);
+
     bspfile_t bspfile{};
 
     bspfile.version = bspdata->version;
-- 
2.43.0


From 21fc2f5167f7ad71068025d693c43542e7a4e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:55 +0000
Subject: [PATCH 05/43] fix: release the portal lock when saving the vis state
 fails

---
 vis/vis.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/vis/vis.cc b/vis/vis.cc
index e657558..e7524c0 100644
--- a/vis/vis.cc
+++ b/vis/vis.cc
@@ -356,14 +356,16 @@ static duration stateinterval;
 */
 static visstats_t LeafThread()
 {
-    portal_mutex.lock();
-    /* Save state if sufficient time has elapsed */
-    auto now = I_FloatTime();
-    if (now > statetime + stateinterval) {
-        statetime = now;
-        SaveVisState();
+    {
+        // SaveVisState may throw, so the lock must be scoped
+        std::lock_guard lock(portal_mutex);
+        /* Save state if sufficient time has elapsed */
+        auto now = I_FloatTime();
+        if (now > statetime + stateinterval) {
+            statetime = now;
+            SaveVisState();
+        }
     }
-    portal_mutex.unlock();
 
     visportal_t *p = GetNextPortal();
     if (!p)
-- 
2.43.0


From 2f517d9a3151dd69ce90682d56eb351a8ebcec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:55 +0000
Subject: [PATCH 06/43] fix: keep the previous vis state when writing the new
 one fails

---
 vis/state.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vis/state.cc b/vis/state.cc
index 6059c64..ef792d1 100644
--- a/vis/state.cc
+++ b/vis/state.cc
@@ -175,6 +175,8 @@ void SaveVisState()
     }
 
     out.close();
+    if (!out)
+        FError("error writing state file {}", statetmpfile);
 
     std::error_code ec;
 
-- 
2.43.0


From ce4e0087b646abfe8195383194b53ef4ae1a33a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 07/43] fix: reject truncated and damaged vis state files

---
 vis/state.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/vis/state.cc b/vis/state.cc
index ef792d1..4b20df2 100644
--- a/vis/state.cc
+++ b/vis/state.cc
@@ -94,21 +94,27 @@ static int CompressBits(uint8_t *out, const leafbits_t &in)
     return numbytes;
 }
 
-static void DecompressBits(leafbits_t &dst, const uint8_t *src)
+static void DecompressBits(leafbits_t &dst, const uint8_t *src, const uint8_t *srcend)
 {
     const size_t numbytes = (portalleafs + 7) >> 3;
 
     dst.resize(portalleafs);
 
     for (size_t i = 0; i < numbytes; i++) {
+        if (src == srcend)
+            FError("underflow");
+
         uint8_t val = *src++;
         uint32_t shift = (i << 3) & leafbits_t::mask;
         dst.data()[i >> (leafbits_t::shift - 3)] |= (uint32_t)val << shift;
         if (val != 0 && val != 0xff)
             continue;
 
+        if (src == srcend)
+            FError("underflow");
+
         int32_t rep = *src++;
-        if (i + rep > numbytes)
+        if (rep < 1 || i + rep > numbytes)
             FError("overflow");
 
         /* Already wrote the first byte, add (rep - 1) copies */
@@ -251,15 +257,20 @@ bool LoadVisState()
     for (auto &p : portals) {
         in >= pstate;
 
+        if (!in || pstate.might > numbytes || pstate.vis > numbytes || pstate.status > pstat_done)
+            FError("state file {} is damaged", statefile);
+
         p.status = static_cast<pstatus_t>(pstate.status);
         p.nummightsee = pstate.nummightsee;
         p.numcansee = pstate.numcansee;
 
         in.read((char *)compressed.data(), pstate.might);
+        if (!in)
+            FError("state file {} is truncated", statefile);
         p.mightsee.resize(portalleafs);
 
         if (pstate.might < numbytes) {
-            DecompressBits(p.mightsee, compressed.data());
+            DecompressBits(p.mightsee, compressed.data(), compressed.data() + pstate.might);
         } else {
             CopyLeafBits(p.mightsee, compressed.data(), portalleafs);
         }
@@ -268,8 +279,10 @@ bool LoadVisState()
 
         if (pstate.vis) {
             in.read((char *)compressed.data(), pstate.vis);
+            if (!in)
+                FError("state file {} is truncated", statefile);
             if (pstate.vis < numbytes) {
-                DecompressBits(p.visbits, compressed.data());
+                DecompressBits(p.visbits, compressed.data(), compressed.data() + pstate.vis);
             } else {
                 CopyLeafBits(p.visbits, compressed.data(), portalleafs);
             }
-- 
2.43.0


From 7e20764065cae976658cb036965518aaa7caec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 08/43] fix: don't resume a vis state that was made with
 another visdist

---
 vis/state.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vis/state.cc b/vis/state.cc
index 4b20df2..092dcda 100644
--- a/vis/state.cc
+++ b/vis/state.cc
@@ -247,6 +247,11 @@ bool LoadVisState()
         FError("state file {} does not match portal file {}", statefile, portalfile);
     }
 
+    if (state.testlevel != static_cast<uint32_t>(vis_options.visdist.value())) {
+        logging::print("State file was made with a different visdist, will be overwritten\n");
+        return false;
+    }
+
     /* Move back the start time to simulate already elapsed time */
     starttime -= duration(state.time_elapsed);
 
-- 
2.43.0


From 383e9be75ce01fe13332c76c31869a7ba5794cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:16 +0000
Subject: [PATCH 09/43] fix: report output files that could not be written
 completely

---
 bsputil/bsputil.cc | 19 ++++++++++++++++---
 common/bspfile.cc  |  4 ++++
 common/bspinfo.cc  |  6 +++++-
 light/write.cc     |  8 ++++++++
 maputil/maputil.cc |  3 +++
 qbsp/map.cc        |  4 ++++
 qbsp/prtfile.cc    |  8 ++++++++
 qbsp/writebsp.cc   |  6 +++++-
 8 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 973266b..4f96379 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -935,6 +935,10 @@ int bsputil_main(int argc, char **argv)
 
             f << R"(</svg>)" << std::endl;
 
+            f.close();
+            if (!f)
+                Error("error writing {}", svg);
+
         } else if (!strcmp(argv[i], "--scale")) {
 
             i++;
@@ -1266,6 +1270,10 @@ int bsputil_main(int argc, char **argv)
                     }
                     strm << "}\n";
                 }
+
+                strm.close();
+                if (!strm)
+                    Error("error writing {}", output);
             }
         } else if (!strcmp(argv[i], "--compare")) {
             // TODO: remove, this was an early attempt at a testing framework before our current one
@@ -1326,11 +1334,11 @@ int bsputil_main(int argc, char **argv)
 
             f << bsp.dentdata;
 
+            f.close();
+
             if (!f)
                 Error("{}", strerror(errno));
 
-            f.close();
-
             printf("done.\n");
         } else if (!strcmp(argv[i], "--extract-textures")) {
 
@@ -1346,6 +1354,11 @@ int bsputil_main(int argc, char **argv)
 
             ExportWad(f, &bsp);
 
+            f.close();
+
+            if (!f)
+                Error("error writing {}\n", source);
+
             printf("done.\n");
         } else if (!strcmp(argv[i], "--replace-textures")) {
             if (i + 1 >= argc) {
@@ -1496,9 +1509,9 @@ int bsputil_main(int argc, char **argv)
 
             f.write(reinterpret_cast<const char *>(entry.data()), entry.size());
 
+            f.close();
             if (!f)
                 FError("{}", strerror(errno));
-            f.close();
 
             fmt::print("done.\n");
             return 0;
diff --git a/common/bspfile.cc b/common/bspfile.cc
index 76cb5cf..055f785 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -2567,6 +2567,10 @@ void WriteBSPFile(const fs::path &filename, bspdata_t *bspdata)
     } else {
         bspfile.stream <= bspfile.q1header;
     }
+
+    bspfile.stream.close();
+    if (!bspfile.stream)
+        FError("error writing {}", filename);
 }
 
 /* ========================================================================= */
diff --git a/common/bspinfo.cc b/common/bspinfo.cc
index 932441a..2e688d4 100644
--- a/common/bspinfo.cc
+++ b/common/bspinfo.cc
@@ -825,7 +825,11 @@ void serialize_bsp(const bspdata_t &bspdata, const mbsp_t &bsp, const fs::path &
     export_obj_and_lightmaps(bsp, bspdata.bspx.entries, false, true, fs::path(name).replace_extension(".geometry.obj"),
         fs::path(name).replace_extension(".lm.png"));
 
-    std::ofstream(name, std::fstream::out | std::fstream::trunc) << std::setw(4) << j;
+    std::ofstream stream(name, std::fstream::out | std::fstream::trunc);
+    stream << std::setw(4) << j;
+    stream.close();
+    if (!stream)
+        FError("error writing {}", name);
 
     logging::print("wrote {}\n", name);
 }
diff --git a/light/write.cc b/light/write.cc
index 6d5c83e..6ac322a 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -82,6 +82,10 @@ void WriteLitFile(const mbsp_t *bsp, const std::vector<facesup_t> &facesup, cons
         litfile.write((const char *)lux_filebase.data(), bsp->dlightdata.size() * 3);
     } else
         litfile.write((const char *)lit_filebase.data(), bsp->dlightdata.size() * 3);
+
+    litfile.close();
+    if (!litfile)
+        FError("error writing {}", litname);
 }
 
 void WriteLuxFile(const mbsp_t *bsp, const fs::path &filename, int version, const std::vector<uint8_t> &lux_filebase)
@@ -96,6 +100,10 @@ void WriteLuxFile(const mbsp_t *bsp, const fs::path &filename, int version, cons
     std::ofstream luxfile(luxname, std::ios_base::out | std::ios_base::binary);
     luxfile <= header.v1;
     luxfile.write((const char *)lux_filebase.data(), bsp->dlightdata.size() * 3);
+
+    luxfile.close();
+    if (!luxfile)
+        FError("error writing {}", luxname);
 }
 
 
diff --git a/maputil/maputil.cc b/maputil/maputil.cc
index fb5ed6c..c386fc5 100644
--- a/maputil/maputil.cc
+++ b/maputil/maputil.cc
@@ -986,6 +986,9 @@ int maputil_main(int argc, char **argv)
 
             std::ofstream stream(dest);
             map_file.write(stream);
+            stream.close();
+            if (!stream)
+                FError("error writing {}", dest);
         } else if (!strcmp(cmd, "--strip_extended_info")) {
 
             for (auto &entity : map_file.entities) {
diff --git a/qbsp/map.cc b/qbsp/map.cc
index 44e5e11..5db40b9 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -3657,6 +3657,10 @@ void ConvertMapFile()
         ConvertEntity(f, entity, qbsp_options.convertmapformat.value());
     }
 
+    f.close();
+    if (!f)
+        FError("error writing {}", filename);
+
     logging::print("Conversion saved to {}\n", filename);
 }
 
diff --git a/qbsp/prtfile.cc b/qbsp/prtfile.cc
index 4371959..92b93e0 100644
--- a/qbsp/prtfile.cc
+++ b/qbsp/prtfile.cc
@@ -223,6 +223,10 @@ static void WritePortalfile(node_t *headnode, portal_state_t &state)
         ewt::print(portalFile, "{}\n", state.num_visclusters.count.load());
         ewt::print(portalFile, "{}\n", state.num_visportals.count.load());
         WritePortals_r(headnode, portalFile, true);
+
+        portalFile.close();
+        if (!portalFile)
+            FError("error writing {}", name);
         return;
     }
 
@@ -251,6 +255,10 @@ static void WritePortalfile(node_t *headnode, portal_state_t &state)
         }
         ewt::print(portalFile, "-1\n");
     }
+
+    portalFile.close();
+    if (!portalFile)
+        FError("error writing {}", name);
 }
 
 /*
diff --git a/qbsp/writebsp.cc b/qbsp/writebsp.cc
index 845be04..b7dc978 100644
--- a/qbsp/writebsp.cc
+++ b/qbsp/writebsp.cc
@@ -454,7 +454,11 @@ static void WriteExtendedTexinfoFlags()
         texinfofile[std::to_string(*tx.outputnum)].swap(t);
     }
 
-    std::ofstream(file, std::ios_base::out | std::ios_base::binary) << texinfofile;
+    std::ofstream stream(file, std::ios_base::out | std::ios_base::binary);
+    stream << texinfofile;
+    stream.close();
+    if (!stream)
+        FError("error writing {}", file);
 }
 
 static bool Is16BitMarkfsurfaceFormat(const bspversion_t *version)
-- 
2.43.0


From 661e9e728f02dd5abeca0b837c549bdb9ed37efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:06 +0000
Subject: [PATCH 10/43] fix: detect truncated and garbled portal files

---
 common/prtfile.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/common/prtfile.cc b/common/prtfile.cc
index 0720231..4e65f6e 100644
--- a/common/prtfile.cc
+++ b/common/prtfile.cc
@@ -51,7 +51,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
     if (magic == PORTALFILE) {
         f >> result.portalleafs >> numportals;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
 
         if (loadversion->game->id == GAME_QUAKE_II) {
@@ -66,7 +66,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         }
         f >> result.portalleafs_real >> result.portalleafs >> numportals;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
     } else if (magic == PORTALFILEAM) {
         if (loadversion->game->id == GAME_QUAKE_II) {
@@ -74,7 +74,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         }
         f >> result.portalleafs >> numportals >> result.portalleafs_real;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
     } else {
         FError("unknown header: {}\n", magic);
@@ -85,7 +85,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         int numpoints;
 
         f >> numpoints >> p.leafnums[0] >> p.leafnums[1];
-        if (f.bad())
+        if (!f)
             FError("reading portal {}", i);
         if (numpoints > PRT_MAX_WINDING)
             FError("portal {} has too many points", i);
@@ -97,15 +97,15 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         w.resize(numpoints);
 
         for (int j = 0; j < numpoints; j++) {
-            while (!f.bad() && f.get() != '(')
+            while (f && f.get() != '(')
                 ;
 
             f >> w[j][0] >> w[j][1] >> w[j][2];
 
-            while (!f.bad() && f.get() != ')')
+            while (f && f.get() != ')')
                 ;
 
-            if (f.bad())
+            if (!f)
                 FError("reading portal {}", i);
         }
 
@@ -138,7 +138,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
             while (1) {
                 int leafnum;
                 f >> leafnum;
-                if (f.bad() || f.eof())
+                if (!f)
                     break;
                 if (leafnum < 0)
                     break;
@@ -146,7 +146,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
                     FError("Invalid leaf number in cluster map ({} >= {})", leafnum, result.portalleafs_real);
                 result.dleafinfos[leafnum + 1].cluster = i;
             }
-            if (f.bad() || f.eof())
+            if (!f)
                 break;
         }
         if (i < result.portalleafs)
@@ -157,7 +157,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         for (int i = 0; i < result.portalleafs_real; i++) {
             int clusternum;
             f >> clusternum;
-            if (f.bad() || f.eof()) {
+            if (!f) {
                 Error("Unexpected end of cluster map\n");
             }
             if (clusternum < 0 || clusternum >= result.portalleafs) {
-- 
2.43.0


From 022826fc41cd5e8d9fb736bf4041374f77dd87a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:06 +0000
Subject: [PATCH 11/43] fix: reject portal files with out-of-range leaf numbers
 or more leafs than the map

---
 common/prtfile.cc | 9 ++++++---
 vis/vis.cc        | 4 ++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/common/prtfile.cc b/common/prtfile.cc
index 4e65f6e..6eb739b 100644
--- a/common/prtfile.cc
+++ b/common/prtfile.cc
@@ -80,6 +80,9 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         FError("unknown header: {}\n", magic);
     }
 
+    if (numportals < 0 || result.portalleafs < 0 || result.portalleafs_real < 0)
+        FError("invalid counts in portal file {}", name);
+
     for (int i = 0; i < numportals; i++) {
         prtfile_portal_t p;
         int numpoints;
@@ -89,8 +92,8 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
             FError("reading portal {}", i);
         if (numpoints > PRT_MAX_WINDING)
             FError("portal {} has too many points", i);
-        if ((unsigned)p.leafnums[0] > (unsigned)result.portalleafs ||
-            (unsigned)p.leafnums[1] > (unsigned)result.portalleafs)
+        if ((unsigned)p.leafnums[0] >= (unsigned)result.portalleafs ||
+            (unsigned)p.leafnums[1] >= (unsigned)result.portalleafs)
             FError("out of bounds leaf in portal {}", i);
 
         auto &w = p.winding;
@@ -152,7 +155,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         if (i < result.portalleafs)
             FError("Couldn't read cluster map ({} / {})\n", i, result.portalleafs);
     } else if (magic == PORTALFILEAM) {
-        result.dleafinfos.resize(result.portalleafs + 1);
+        result.dleafinfos.resize(result.portalleafs_real + 1);
 
         for (int i = 0; i < result.portalleafs_real; i++) {
             int clusternum;
diff --git a/vis/vis.cc b/vis/vis.cc
index e7524c0..25e8941 100644
--- a/vis/vis.cc
+++ b/vis/vis.cc
@@ -671,6 +671,10 @@ static void LoadPortals(const fs::path &name, mbsp_t *bsp)
         return;
     }
 
+    if (prtfile.dleafinfos.size() > bsp->dleafs.size())
+        FError("portal file {} does not match the bsp ({} leafs, the bsp has {})", name, prtfile.dleafinfos.size(),
+            bsp->dleafs.size());
+
     // Copy cluster mapping from .prt file
     for (int i = 1; i < prtfile.dleafinfos.size(); ++i) {
         bsp->dleafs[i].cluster = prtfile.dleafinfos[i].cluster;
-- 
2.43.0


From 6ea8b006b307598814cfb8685f3c5a1115c0daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:37 +0000
Subject: [PATCH 12/43] fix: don't lose a bounce light found by another thread

---
 light/bounce.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/light/bounce.cc b/light/bounce.cc
index 124c31d..e7411ff 100644
--- a/light/bounce.cc
+++ b/light/bounce.cc
@@ -227,7 +227,11 @@ bool MakeBounceLights(const settings::worldspawn_keys &cfg, const mbsp_t *bsp, s
 
     std::atomic_bool any_to_bounce = false;
 
-    logging::parallel_for_each(bsp->dfaces, [&](const mface_t &face) { any_to_bounce = MakeBounceLightsThread(cfg, bsp, face, depth) || any_to_bounce; });
+    logging::parallel_for_each(bsp->dfaces, [&](const mface_t &face) {
+        if (MakeBounceLightsThread(cfg, bsp, face, depth)) {
+            any_to_bounce = true;
+        }
+    });
 
     return any_to_bounce.load();
 }
-- 
2.43.0


From 642088d561066dc71a8134d26d7984828328eebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:49 +0000
Subject: [PATCH 13/43] fix: assign light styles to surface light targetnames
 under a lock

---
 light/entities.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/light/entities.cc b/light/entities.cc
index 66201da..63b2ab6 100644
--- a/light/entities.cc
+++ b/light/entities.cc
@@ -22,6 +22,7 @@
 #include <algorithm>
 #include <cstring>
 #include <fstream>
+#include <mutex>
 #include <common/imglib.hh> // for img::find
 #include <common/log.hh>
 #include <common/cmdlib.hh>
@@ -167,6 +168,10 @@ entdict_t &WorldEnt()
  */
 int LightStyleForTargetname(const settings::worldspawn_keys &cfg, const std::string &targetname)
 {
+    // surface lights are created in parallel
+    static std::mutex mutex;
+    std::lock_guard lock(mutex);
+
     // check if already assigned
     for (const auto &pr : lightstyleForTargetname) {
         if (pr.first == targetname && targetname.size() > 0) {
-- 
2.43.0


From 225592f6788207dd8b8e8b8dca29ae3f74f1e4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:42 +0000
Subject: [PATCH 14/43] fix: wait for the progress lock instead of entering it
 twice

compare_exchange_weak stores the current value in 'expected' when it
fails, so the second attempt of the waiting loop compared with true and
succeeded while another thread still held the lock.
---
 common/log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/log.cc b/common/log.cc
index 2fbc927..abce2dc 100644
--- a/common/log.cc
+++ b/common/log.cc
@@ -196,7 +196,7 @@ void percent(uint64_t count, uint64_t max, bool displayElapsed)
 
     if (count == max) {
         while (!locked.compare_exchange_weak(expected, true))
-            ; // wait until everybody else is done
+            expected = false; // wait until everybody else is done
     } else {
         if (!locked.compare_exchange_weak(expected, true)) {
             return; // somebody else is doing this already
-- 
2.43.0


From 333c2033aaac826d9dcaa87fe96fd7134376d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:27 +0000
Subject: [PATCH 15/43] fix: don't count down an unused variable from several
 threads

---
 common/decompile.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index 2d3bdb2..c3be6a8 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -1244,11 +1244,9 @@ static void DecompileEntity(
                 brushes.begin(), brushes.end(), std::back_inserter(brushesVector), [](auto &v) { return v.second; });
 
             compiledBrushes.resize(brushes.size());
-            size_t t = brushes.size();
 
             tbb::parallel_for(static_cast<size_t>(0), brushes.size(), [&](const size_t &i) {
                 compiledBrushes[i] = DecompileBrushTask(bsp, options, brushesVector[i], brush_offset);
-                t--;
             });
         } else {
             // recursively visit the nodes to gather up a list of leafs to decompile
-- 
2.43.0


From dfe85b2236cc5d6699bdf66ac4a3c447c35b1bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 16/43] fix: read the no_phong extended flag into no_phong

---
 light/light.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/light/light.cc b/light/light.cc
index a971fcf..5598093 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -993,7 +993,7 @@ static void LoadExtendedTexinfoFlags(const fs::path &sourcefilename, const mbsp_
             flags.no_expand = val.at("no_expand").get<bool>();
         }
         if (val.contains("no_phong")) {
-            flags.no_expand = val.at("no_phong").get<bool>();
+            flags.no_phong = val.at("no_phong").get<bool>();
         }
         if (val.contains("light_ignore")) {
             flags.light_ignore = val.at("light_ignore").get<bool>();
-- 
2.43.0


From 6cfbb75f11e9254d708fa440c4f48cba2d79e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 17/43] fix: discard mismatched extended texinfo flags without
 overwriting their strings

---
 light/light.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/light/light.cc b/light/light.cc
index 5598093..6312e17 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -961,7 +961,7 @@ static void LoadExtendedTexinfoFlags(const fs::path &sourcefilename, const mbsp_
 
         if (index >= bsp->texinfo.size()) {
             logging::print("WARNING: Extended texinfo flags in {} does not match bsp, ignoring\n", filename);
-            memset(extended_texinfo_flags.data(), 0, bsp->texinfo.size() * sizeof(surfflags_t));
+            extended_texinfo_flags.assign(bsp->texinfo.size(), surfflags_t{});
             return;
         }
 
-- 
2.43.0


From 9da6f995f55553bbeb8ad124df7149196938356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 18/43] fix: list PHS offsets under their own key in the map
 description

---
 common/bspinfo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspinfo.cc b/common/bspinfo.cc
index 2e688d4..757aef7 100644
--- a/common/bspinfo.cc
+++ b/common/bspinfo.cc
@@ -572,7 +572,7 @@ void serialize_bsp(const bspdata_t &bspdata, const mbsp_t &bsp, const fs::path &
             json &visdata = (j.emplace("visdata", json::object())).first.value();
 
             json &pvs = (visdata.emplace("pvs", json::array())).first.value();
-            json &phs = (visdata.emplace("pvs", json::array())).first.value();
+            json &phs = (visdata.emplace("phs", json::array())).first.value();
 
             for (auto &offset : bsp.dvis.bit_offsets) {
                 pvs.push_back(offset[VIS_PVS]);
-- 
2.43.0


From acb0698f1564185c46328606c53cddacc5a96664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:14 +0000
Subject: [PATCH 19/43] fix: write two hex digits per byte in the map
 description

---
 common/bspinfo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspinfo.cc b/common/bspinfo.cc
index 757aef7..1fd1677 100644
--- a/common/bspinfo.cc
+++ b/common/bspinfo.cc
@@ -40,7 +40,7 @@ static std::string hex_string(const uint8_t *bytes, const size_t count)
     std::string str;
 
     for (size_t i = 0; i < count; ++i) {
-        fmt::format_to(std::back_inserter(str), "{:x}", bytes[i]);
+        fmt::format_to(std::back_inserter(str), "{:02x}", bytes[i]);
     }
 
     return str;
-- 
2.43.0


From f77611fbeceb7a69ee610fa54cab30d913e38cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:31 +0000
Subject: [PATCH 20/43] fix: describe maps whose strings are not valid UTF-8

---
 common/bspinfo.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/bspinfo.cc b/common/bspinfo.cc
index 1fd1677..eaeea85 100644
--- a/common/bspinfo.cc
+++ b/common/bspinfo.cc
@@ -826,7 +826,8 @@ void serialize_bsp(const bspdata_t &bspdata, const mbsp_t &bsp, const fs::path &
         fs::path(name).replace_extension(".lm.png"));
 
     std::ofstream stream(name, std::fstream::out | std::fstream::trunc);
-    stream << std::setw(4) << j;
+    // entity strings and names are in the game's own charset, not necessarily valid UTF-8
+    stream << j.dump(4, ' ', false, json::error_handler_t::replace);
     stream.close();
     if (!stream)
         FError("error writing {}", name);
-- 
2.43.0


From 436b5e0dd1f35459bab0c89b9e08dee76e74dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:59 +0000
Subject: [PATCH 21/43] fix: copy every luxel to its own place when the size is
 unchanged

---
 light/write.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 6ac322a..f3a2c4c 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -416,8 +416,8 @@ static void WriteSingleLightmap(const mbsp_t *bsp, const mface_t *face, const li
 
     for (int t = 0; t < output_height; t++) {
         for (int s = 0; s < output_width; s++) {
-            const int input_sample_s = (s / (float)output_width) * actual_width;
-            const int input_sample_t = (t / (float)output_height) * actual_height;
+            const int input_sample_s = (s * actual_width) / output_width;
+            const int input_sample_t = (t * actual_height) / output_height;
             const int sampleindex = (input_sample_t * actual_width) + input_sample_s;
 
             if (lit || out) {
-- 
2.43.0


From 08428af7e92a803b4e682b18864b5ba8c285880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:59 +0000
Subject: [PATCH 22/43] fix: interpolate, not extrapolate, at negative
 decoupled luxel coordinates

---
 light/write.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index f3a2c4c..3ceba2b 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -502,8 +502,8 @@ static void WriteSingleLightmap_FromDecoupled(const mbsp_t *bsp, const mface_t *
             decoupled_lm_coord = decoupled_lm_coord * light_options.extra.value();
 
             // split into integer/fractional part for bilinear interpolation
-            const int coord_floor_x = (int)decoupled_lm_coord[0];
-            const int coord_floor_y = (int)decoupled_lm_coord[1];
+            const int coord_floor_x = (int)floor(decoupled_lm_coord[0]);
+            const int coord_floor_y = (int)floor(decoupled_lm_coord[1]);
 
             const float coord_frac_x = decoupled_lm_coord[0] - coord_floor_x;
             const float coord_frac_y = decoupled_lm_coord[1] - coord_floor_y;
-- 
2.43.0


From ef7d83d7b4b653697b05f47a258fc0dfd95aecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:59 +0000
Subject: [PATCH 23/43] fix: colour scaling above 1 no longer stores negative
 light

---
 light/write.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/light/write.cc b/light/write.cc
index 3ceba2b..4922707 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -564,7 +564,8 @@ inline void LightFace_ScaleAndClamp(lightsurf_t *lightsurf)
             // color scaling
             if (lightsurf->lightcolorscale != 1.0f) {
                 qvec3f grayscale{qv::max(color)};
-                color = mix(grayscale, color, lightsurf->lightcolorscale);
+                // scaling by more than 1 can make the darker components negative
+                color = qv::max(mix(grayscale, color, lightsurf->lightcolorscale), {0});
             }
 
             /* Scale and handle gamma adjustment */
-- 
2.43.0


From 5db2de26e2784c40bb6069013a00b80c3cb1338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:59 +0000
Subject: [PATCH 24/43] fix: give a face the offset its lightmap was saved at

---
 light/write.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/light/write.cc b/light/write.cc
index 4922707..a21024c 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -1066,12 +1066,12 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
             } else if (faces_sup.empty()) {
                 SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
             } else if (light_options.novanilla.value() || faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
+                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
                 if (faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
                     f->lightofs = faces_sup[i].lightofs;
                 } else {
                     f->lightofs = -1;
                 }
-                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
                 for (int j = 0; j < MAXLIGHTMAPS; j++) {
                     f->styles[j] =
                         faces_sup[i].styles[j] == INVALID_LIGHTSTYLE ? INVALID_LIGHTSTYLE_OLD : faces_sup[i].styles[j];
-- 
2.43.0


From fc4c344d4bc196bc102454d8af9b8111e09054e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:59 +0000
Subject: [PATCH 25/43] fix: save the unscaled lightmap in the space reserved
 for it

---
 light/write.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/light/write.cc b/light/write.cc
index a21024c..6361307 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -1077,7 +1077,9 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
                         faces_sup[i].styles[j] == INVALID_LIGHTSTYLE ? INVALID_LIGHTSTYLE_OLD : faces_sup[i].styles[j];
                 }
             } else {
-                SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.vanilla_extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
+                lightmap_intermediate_data_t vanilla_data = intermediate_data[i];
+                vanilla_data.lightofs = vanilla_data.vanilla_lightofs;
+                SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.vanilla_extents, filebase, lit_filebase, lux_filebase, vanilla_data);
                 SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
             }
         });
-- 
2.43.0


From cb4bbfd36154b8e5487e9b2434a8a2a0bf9a68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:59 +0000
Subject: [PATCH 26/43] fix: forget a face's old light offset when it has a
 scaled lightmap too

---
 light/light.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/light/light.cc b/light/light.cc
index 6312e17..ce2b2b7 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -621,15 +621,15 @@ static void CreateLightmapSurfaces(mbsp_t *bsp)
                 for (size_t i = 0; i < MAXLIGHTMAPSSUP; i++) {
                     facesup->styles[i] = INVALID_LIGHTSTYLE;
                 }
-            } else {
-                face->lightofs = -1;
-                for (size_t i = 0; i < MAXLIGHTMAPS; i++) {
-                    face->styles[i] = INVALID_LIGHTSTYLE_OLD;
-                }
+            }
 
-                if (facesup_decoupled) {
-                    facesup_decoupled->offset = -1;
-                }
+            face->lightofs = -1;
+            for (size_t i = 0; i < MAXLIGHTMAPS; i++) {
+                face->styles[i] = INVALID_LIGHTSTYLE_OLD;
+            }
+
+            if (facesup_decoupled) {
+                facesup_decoupled->offset = -1;
             }
         }
 
-- 
2.43.0


From 5ab5ef98ef50684d8ac384c391dd35f2541611ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:20 +0000
Subject: [PATCH 27/43] fix: write the colours and directions just calculated
 to a lit2 file

---
 light/write.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 6361307..35a9bda 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -57,7 +57,7 @@ void WriteLitFile(const mbsp_t *bsp, const std::vector<facesup_t> &facesup, cons
 
     header.v1.version = version;
     header.v2.numsurfs = bsp->dfaces.size();
-    header.v2.lmsamples = bsp->dlightdata.size();
+    header.v2.lmsamples = lit_filebase.size() / 3;
 
     logging::print("Writing {}\n", litname);
     std::ofstream litfile(litname, std::ios_base::out | std::ios_base::binary);
@@ -78,10 +78,10 @@ void WriteLitFile(const mbsp_t *bsp, const std::vector<facesup_t> &facesup, cons
                 j++;
             litfile <= (uint8_t)j;
         }
-        litfile.write((const char *)lit_filebase.data(), bsp->dlightdata.size() * 3);
-        litfile.write((const char *)lux_filebase.data(), bsp->dlightdata.size() * 3);
+        litfile.write((const char *)lit_filebase.data(), lit_filebase.size());
+        litfile.write((const char *)lux_filebase.data(), lux_filebase.size());
     } else
-        litfile.write((const char *)lit_filebase.data(), bsp->dlightdata.size() * 3);
+        litfile.write((const char *)lit_filebase.data(), lit_filebase.size());
 
     litfile.close();
     if (!litfile)
@@ -977,7 +977,7 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
             lit_filebase.resize(filebase.size() * 3);
         }
 
-        if (light_options.write_luxfile) {
+        if (light_options.write_luxfile || light_options.write_litfile == lightfile::lit2) {
             lux_filebase.resize(filebase.size() * 3);
         }
         
@@ -1044,7 +1044,7 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
             lit_filebase.resize(lightmap_size * 3);
         }
 
-        if (light_options.write_luxfile) {
+        if (light_options.write_luxfile || light_options.write_litfile == lightfile::lit2) {
             lux_filebase.resize(lightmap_size * 3);
         }
 
-- 
2.43.0


From a2041e706a4945ad3b001a3ac068240d99367671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:59 +0000
Subject: [PATCH 28/43] fix: refuse to light a map whose faces' light lies
 outside its light data

---
 light/write.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/light/write.cc b/light/write.cc
index 35a9bda..eaf0956 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -638,6 +638,15 @@ static void SaveLitOnlyLightmapSurface(const mbsp_t *bsp, mface_t *face,
 
     Q_assert(face->lightofs >= 0);
 
+    size_t numstyles = 0;
+    while (numstyles < MAXLIGHTMAPS && face->styles[numstyles] != INVALID_LIGHTSTYLE_OLD) {
+        numstyles++;
+    }
+
+    if (face->lightofs + (size * numstyles) > filebase.size()) {
+        FError("lightmap at offset {} doesn't fit in the existing light data", face->lightofs);
+    }
+
     if (!filebase.empty()) {
         out = filebase.data() + face->lightofs;
     }
-- 
2.43.0


From c976baf6f528d858a9ea2396f3b7d21e5adeb04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:08 +0000
Subject: [PATCH 29/43] fix: don't save style 255, which marks the end of a
 face's styles

---
 light/write.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/light/write.cc b/light/write.cc
index eaf0956..5c4cf5e 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -718,7 +718,7 @@ int CalculateLightmapStyles(const mbsp_t *bsp, mface_t *face, facesup_t *facesup
         // skip un-saved lightmaps
         if (lightmap.style == INVALID_LIGHTSTYLE)
             continue;
-        if (lightmap.style > maxstyle || (facesup && lightmap.style > INVALID_LIGHTSTYLE_OLD)) {
+        if (lightmap.style >= maxstyle || (facesup && lightmap.style > INVALID_LIGHTSTYLE_OLD)) {
             if (!warned_about_light_style_overflow) {
                 if (IsOutputtingSupplementaryData()) {
                     logging::print(
-- 
2.43.0


From f61eb9bd582dc803c3b41435401132b4fc39dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:30 +0000
Subject: [PATCH 30/43] fix: don't look at a map entity after it was removed by
 a region brush

---
 qbsp/map.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qbsp/map.cc b/qbsp/map.cc
index 5db40b9..5311118 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -3348,14 +3348,14 @@ void ProcessMapBrushes()
                 if (map.region && !map.region->bounds.containsPoint(entity.origin)) {
                     it = map.entities.erase(it);
                     removed = true;
-                }
-
-                for (auto &region : map.antiregions) {
-                    if (region.bounds.containsPoint(entity.origin)) {
-                        logging::print("removed {}\n", entity.epairs.get("classname"));
-                        it = map.entities.erase(it);
-                        removed = true;
-                        break;
+                } else {
+                    for (auto &region : map.antiregions) {
+                        if (region.bounds.containsPoint(entity.origin)) {
+                            logging::print("removed {}\n", entity.epairs.get("classname"));
+                            it = map.entities.erase(it);
+                            removed = true;
+                            break;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 3ad67ec231f17928de0834b293839a1cd56a62ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:45 +0000
Subject: [PATCH 31/43] fix: keep a misspelt lightmap scale's value when its
 key is replaced

---
 light/entities.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/light/entities.cc b/light/entities.cc
index 63b2ab6..7ce1651 100644
--- a/light/entities.cc
+++ b/light/entities.cc
@@ -929,7 +929,7 @@ void LoadEntities(const settings::worldspawn_keys &cfg, const mbsp_t *bsp)
     for (auto &entdict : entdicts) {
 
         // fix "lightmap_scale"
-        const std::string &lmscale = entdict.get("lightmap_scale");
+        const std::string lmscale = entdict.get("lightmap_scale"); // a copy: the pair is removed below
         if (!lmscale.empty()) {
             // FIXME: line number
             logging::print("WARNING: lightmap_scale should be _lightmap_scale\n");
-- 
2.43.0


From c1b0953025eee1e438bd8e6d9233d901ecc7e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:20 +0000
Subject: [PATCH 32/43] fix: keep reads, writes and seeks on memory streams
 inside the buffer

---
 common/cmdlib.cc | 63 ++++++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 37 deletions(-)

diff --git a/common/cmdlib.cc b/common/cmdlib.cc
index f90d9b2..2020a99 100644
--- a/common/cmdlib.cc
+++ b/common/cmdlib.cc
@@ -152,39 +152,28 @@ void membuf::setpptrs(char *first, char *next, char *end)
 
 membuf::pos_type membuf::seekpos(pos_type off, std::ios_base::openmode which)
 {
-    if (which & std::ios_base::in) {
-        setg(eback(), eback() + off, egptr());
-    }
-
-    if (which & std::ios_base::out) {
-        setpptrs(pbase(), pbase() + off, epptr());
-    }
-
-    if (which & std::ios_base::in) {
-        return gptr() - eback();
-    } else {
-        return pptr() - pbase();
-    }
+    return seekoff(off, std::ios_base::beg, which);
 }
 
 membuf::pos_type membuf::seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which)
 {
+    // seeking outside of the buffer fails, and leaves the position alone
     if (which & std::ios_base::in) {
-        if (dir == std::ios_base::cur)
-            gbump(off);
-        else if (dir == std::ios_base::end)
-            setg(eback(), egptr() + off, egptr());
-        else if (dir == std::ios_base::beg)
-            setg(eback(), eback() + off, egptr());
+        char *from = dir == std::ios_base::cur ? gptr() : dir == std::ios_base::end ? egptr() : eback();
+
+        if (off < eback() - from || off > egptr() - from)
+            return pos_type(off_type(-1));
+
+        setg(eback(), from + off, egptr());
     }
 
     if (which & std::ios_base::out) {
-        if (dir == std::ios_base::cur)
-            pbump(off);
-        else if (dir == std::ios_base::end)
-            setpptrs(pbase(), epptr() + off, epptr());
-        else if (dir == std::ios_base::beg)
-            setpptrs(pbase(), pbase() + off, epptr());
+        char *from = dir == std::ios_base::cur ? pptr() : dir == std::ios_base::end ? epptr() : pbase();
+
+        if (off < pbase() - from || off > epptr() - from)
+            return pos_type(off_type(-1));
+
+        setpptrs(pbase(), from + off, epptr());
     }
 
     if (which & std::ios_base::in) {
@@ -196,15 +185,15 @@ membuf::pos_type membuf::seekoff(off_type off, std::ios_base::seekdir dir, std::
 
 std::streamsize membuf::xsputn(const char_type *s, std::streamsize n)
 {
-    if (pptr() == epptr()) {
-        return traits_type::eof();
-    }
-
     std::streamsize free_space = epptr() - pptr();
     std::streamsize num_write = std::min(free_space, n);
 
-    memcpy(pptr(), s, n);
-    setpptrs(pbase(), pptr() + n, epptr());
+    if (num_write <= 0) {
+        return 0;
+    }
+
+    memcpy(pptr(), s, num_write);
+    setpptrs(pbase(), pptr() + num_write, epptr());
 
     return num_write;
 }
@@ -216,15 +205,15 @@ membuf::int_type membuf::overflow(int_type ch)
 
 std::streamsize membuf::xsgetn(char_type *s, std::streamsize n)
 {
-    if (gptr() == egptr()) {
-        return traits_type::eof();
-    }
-
     std::streamsize free_space = egptr() - gptr();
     std::streamsize num_read = std::min(free_space, n);
 
-    memcpy(s, gptr(), n);
-    setg(eback(), gptr() + n, egptr());
+    if (num_read <= 0) {
+        return 0;
+    }
+
+    memcpy(s, gptr(), num_read);
+    setg(eback(), gptr() + num_read, egptr());
 
     return num_read;
 }
-- 
2.43.0


From 49bb56b417b50d4904a684c5d88bfffd6443e5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:17 +0000
Subject: [PATCH 33/43] fix: don't read text past its end when it stops without
 a newline

---
 common/parser.cc         | 41 +++++++++++++++++++++++-----------------
 include/common/parser.hh |  3 +++
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/common/parser.cc b/common/parser.cc
index c3df3e4..a273307 100644
--- a/common/parser.cc
+++ b/common/parser.cc
@@ -68,7 +68,7 @@ parser_t::parser_t(const void *start, size_t length, parser_source_location base
 }
 
 parser_t::parser_t(const std::string_view &view, parser_source_location base_location)
-    : parser_t(&view.front(), view.size(), base_location)
+    : parser_t(view.data(), view.size(), base_location)
 {
 }
 
@@ -98,15 +98,15 @@ bool parser_t::parse_token(parseflags flags)
 
 skipspace:
     /* skip space */
-    while (at_end() || *pos <= 32) {
-        if (at_end() || !*pos) {
+    while (peek() <= 32) {
+        if (!peek()) {
             if (flags & PARSE_OPTIONAL)
                 return false;
             if (flags & PARSE_SAMELINE)
                 FError("{}: Line is incomplete", location);
             return false;
         }
-        if (*pos == '\n') {
+        if (peek() == '\n') {
             if (flags & PARSE_OPTIONAL)
                 return false;
             if (flags & PARSE_SAMELINE)
@@ -117,9 +117,9 @@ skipspace:
     }
 
     /* comment field */
-    if ((pos[0] == '/' && pos[1] == '/') || pos[0] == ';') { // quark writes ; comments in q2 maps
+    if ((peek() == '/' && peek(1) == '/') || peek() == ';') { // quark writes ; comments in q2 maps
         if (flags & PARSE_COMMENT) {
-            while (*pos && *pos != '\n') {
+            while (peek() && peek() != '\n') {
                 *token_p++ = *pos++;
             }
             goto out;
@@ -128,14 +128,16 @@ skipspace:
             return false;
         if (flags & PARSE_SAMELINE)
             FError("{}: Line is incomplete", location);
-        while (*pos++ != '\n') {
-            if (!*pos) {
+        while (peek() != '\n') {
+            if (!peek()) {
                 if (flags & PARSE_SAMELINE)
                     FError("{}: Line is incomplete", location);
                 return false;
             }
+            pos++;
         }
-        location.line_number.value()++; // count the \n the preceding while() loop just consumed
+        pos++;
+        location.line_number.value()++; // count the \n just consumed
         goto skipspace;
     }
     if (flags & PARSE_COMMENT)
@@ -143,18 +145,18 @@ skipspace:
 
     /* copy token */
 
-    if (*pos == '"') {
+    if (peek() == '"') {
         was_quoted = true;
         pos++;
-        while (*pos != '"') {
-            if (!*pos)
+        while (peek() != '"') {
+            if (!peek())
                 FError("{}: EOF inside quoted token", location);
-            if (*pos == '\\') {
+            if (peek() == '\\') {
                 // small note. the vanilla quake engine just parses the "foo" stuff then goes and looks for \n
                 // explicitly within strings. this means ONLY \n works, and double-quotes cannot be used either in maps
                 // _NOR SAVED GAMES_. certain editors can write "wad" "c:\foo\" which is completely fucked. so lets try
                 // to prevent more brokenness and encourage map editors to switch to using sane wad keys.
-                switch (pos[1]) {
+                switch (peek(1)) {
                     case 'n':
                     case '\'':
                     case 'r':
@@ -177,14 +179,14 @@ skipspace:
                     case '9': // too lazy to validate these. doesn't break stuff.
                         break;
                     case '\"':
-                        if (pos[2] == '\r' || pos[2] == '\n') {
+                        if (peek(2) == '\r' || peek(2) == '\n') {
                             logging::print("WARNING: {}: escaped double-quote at end of string\n", location);
                         } else {
                             *token_p++ = *pos++;
                         }
                         break;
                     default:
-                        logging::print("WARNING: {}: Unrecognised string escape - \\{}\n", location, pos[1]);
+                        logging::print("WARNING: {}: Unrecognised string escape - \\{}\n", location, peek(1));
                         break;
                 }
             }
@@ -192,7 +194,7 @@ skipspace:
         }
         pos++;
     } else {
-        while (*pos > 32) {
+        while (peek() > 32) {
             *token_p++ = *pos++;
         }
     }
@@ -211,6 +213,11 @@ bool parser_t::at_end() const
     return pos >= end;
 }
 
+char parser_t::peek(size_t ahead) const
+{
+    return ahead < static_cast<size_t>(end - pos) ? pos[ahead] : '\0';
+}
+
 void parser_t::push_state()
 {
     _states.push_back(state());
diff --git a/include/common/parser.hh b/include/common/parser.hh
index e882ae8..ec81d0f 100644
--- a/include/common/parser.hh
+++ b/include/common/parser.hh
@@ -166,6 +166,9 @@ struct parser_t : parser_base_t
 
     bool at_end() const override;
 
+    // the character at this distance from the current position, or NUL at the end of the text
+    char peek(size_t ahead = 0) const;
+
 private:
     std::vector<untied_t<state_type>> _states;
 
-- 
2.43.0


From 5217bc47deaa353161ef5b94bde2e5d29682559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 34/43] fix: trim blanks from the end of an entity's key, and
 allow an empty key

---
 bsputil/bsputil.cc | 4 ++--
 common/entdata.cc  | 6 +++---
 common/mapfile.cc  | 4 ++--
 qbsp/map.cc        | 4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 4f96379..58bc351 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -516,10 +516,10 @@ static void ParseEpair(parser_t &parser, map_entity_t &entity)
     std::string key = parser.token;
 
     // trim whitespace from start/end
-    while (std::isspace(key.front())) {
+    while (!key.empty() && std::isspace(key.front())) {
         key.erase(key.begin());
     }
-    while (std::isspace(key.back())) {
+    while (!key.empty() && std::isspace(key.back())) {
         key.erase(key.end() - 1);
     }
 
diff --git a/common/entdata.cc b/common/entdata.cc
index cbc72e5..767a90d 100644
--- a/common/entdata.cc
+++ b/common/entdata.cc
@@ -169,11 +169,11 @@ void entdict_t::parse(parser_base_t &parser)
             FError("closing brace without data");
 
         // trim whitespace from start/end
-        while (std::isspace(keystr.front())) {
+        while (!keystr.empty() && std::isspace(keystr.front())) {
             keystr.erase(keystr.begin());
         }
-        while (std::isspace(keystr.back())) {
-            keystr.erase(keystr.cbegin());
+        while (!keystr.empty() && std::isspace(keystr.back())) {
+            keystr.erase(keystr.end() - 1);
         }
 
         set(keystr, parser.token);
diff --git a/common/mapfile.cc b/common/mapfile.cc
index 777c789..8acee6c 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -1051,10 +1051,10 @@ void map_entity_t::parse_entity_dict(parser_t &parser)
     std::string key = std::move(parser.token);
 
     // trim whitespace from start/end
-    while (std::isspace(key.front())) {
+    while (!key.empty() && std::isspace(key.front())) {
         key.erase(key.begin());
     }
-    while (std::isspace(key.back())) {
+    while (!key.empty() && std::isspace(key.back())) {
         key.erase(key.end() - 1);
     }
 
diff --git a/qbsp/map.cc b/qbsp/map.cc
index 5311118..4738715 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -845,10 +845,10 @@ static void ParseEpair(parser_t &parser, mapentity_t &entity)
     std::string key = parser.token;
 
     // trim whitespace from start/end
-    while (std::isspace(key.front())) {
+    while (!key.empty() && std::isspace(key.front())) {
         key.erase(key.begin());
     }
-    while (std::isspace(key.back())) {
+    while (!key.empty() && std::isspace(key.back())) {
         key.erase(key.end() - 1);
     }
 
-- 
2.43.0


From b9b83461a39328071a84651be1cc9075492697ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 35/43] fix: don't look at the first character of an option
 made of hyphens only

---
 common/settings.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/settings.cc b/common/settings.cc
index c08fe4d..ee11809 100644
--- a/common/settings.cc
+++ b/common/settings.cc
@@ -671,7 +671,7 @@ std::vector<std::string> setting_container::parse(parser_base_t &parser)
         parser.parse_token();
 
         // remove leading hyphens. we support any number of them.
-        while (parser.token.front() == '-') {
+        while (!parser.token.empty() && parser.token.front() == '-') {
             parser.token.erase(parser.token.begin());
         }
 
-- 
2.43.0


From b072e5dfc0830126bd6221cd7098f2734c7a09f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:09 +0000
Subject: [PATCH 36/43] fix: don't look for Hexen II models outside of the file

---
 common/bspfile.cc | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index 055f785..45894b7 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -1979,13 +1979,13 @@ bool ConvertBSPFormat(bspdata_t *bspdata, const bspversion_t *to_version)
     return false;
 }
 
-static bool isHexen2(const dheader_t *header, const bspversion_t *bspversion)
+static bool isHexen2(std::istream &stream, const std::vector<lump_t> &lumps, const bspversion_t *bspversion)
 {
-    if (0 != (header->lumps[LUMP_MODELS].filelen % sizeof(dmodelh2_t))) {
+    if (0 != (lumps[LUMP_MODELS].filelen % sizeof(dmodelh2_t))) {
         // definitely not H2
         return false;
     }
-    if (0 != (header->lumps[LUMP_MODELS].filelen % sizeof(dmodelq1_t))) {
+    if (0 != (lumps[LUMP_MODELS].filelen % sizeof(dmodelq1_t))) {
         // definitely not Q1
         return true;
     }
@@ -1997,39 +1997,43 @@ static bool isHexen2(const dheader_t *header, const bspversion_t *bspversion)
     const int bytes_per_leaf = bspversion->lumps.begin()[LUMP_LEAFS].size;
     const int bytes_per_clipnode = bspversion->lumps.begin()[LUMP_CLIPNODES].size;
 
-    const int faces_count = header->lumps[LUMP_FACES].filelen / bytes_per_face;
-    const int nodes_count = header->lumps[LUMP_NODES].filelen / bytes_per_node;
-    const int leafs_count = header->lumps[LUMP_LEAFS].filelen / bytes_per_leaf;
-    const int clipnodes_count = header->lumps[LUMP_CLIPNODES].filelen / bytes_per_clipnode;
+    const int faces_count = lumps[LUMP_FACES].filelen / bytes_per_face;
+    const int nodes_count = lumps[LUMP_NODES].filelen / bytes_per_node;
+    const int leafs_count = lumps[LUMP_LEAFS].filelen / bytes_per_leaf;
+    const int clipnodes_count = lumps[LUMP_CLIPNODES].filelen / bytes_per_clipnode;
 
     // assume H2, and do some basic validation
-    // FIXME: this potentially does unaligned reads, convert to using streams like the rest of the loading code
+    stream.seekg(lumps[LUMP_MODELS].fileofs);
 
-    const dmodelh2_t *models_h2 = (const dmodelh2_t *)((const uint8_t *)header + header->lumps[LUMP_MODELS].fileofs);
-    const int models_h2_count = header->lumps[LUMP_MODELS].filelen / sizeof(dmodelh2_t);
+    const int models_h2_count = lumps[LUMP_MODELS].filelen / sizeof(dmodelh2_t);
 
     for (int i = 0; i < models_h2_count; ++i) {
-        const dmodelh2_t *model = &models_h2[i];
+        dmodelh2_t model;
+        stream >= model;
+
+        // the models aren't in the file
+        if (!stream)
+            return false;
 
         // visleafs
-        if (model->visleafs < 0 || model->visleafs > leafs_count)
+        if (model.visleafs < 0 || model.visleafs > leafs_count)
             return false;
 
         // numfaces, firstface
-        if (model->numfaces < 0)
+        if (model.numfaces < 0)
             return false;
-        if (model->firstface < 0)
+        if (model.firstface < 0)
             return false;
-        if (model->firstface + model->numfaces > faces_count)
+        if (model.firstface + model.numfaces > faces_count)
             return false;
 
         // headnode[0]
-        if (model->headnode[0] >= nodes_count)
+        if (model.headnode[0] >= nodes_count)
             return false;
 
         // clipnode headnodes
         for (int j = 1; j < 8; ++j) {
-            if (model->headnode[j] >= clipnodes_count)
+            if (model.headnode[j] >= clipnodes_count)
                 return false;
         }
     }
@@ -2245,7 +2249,7 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
         Error("Sorry, this bsp version is not supported.");
     } else {
         // special case handling for Hexen II
-        if (bspdata->version->game->id == GAME_QUAKE && isHexen2((dheader_t *)file_data->data(), bspdata->version)) {
+        if (bspdata->version->game->id == GAME_QUAKE && isHexen2(stream, lumps, bspdata->version)) {
             if (bspdata->version == &bspver_q1) {
                 bspdata->version = &bspver_h2;
             } else if (bspdata->version == &bspver_bsp2) {
-- 
2.43.0


From 4b39578245d07cbb2a61b94ecd2c8d67969a5cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:46 +0000
Subject: [PATCH 37/43] fix: don't take sizes or headers from a visibility or
 texture lump that ended early

---
 common/bspfile_generic.cc | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/common/bspfile_generic.cc b/common/bspfile_generic.cc
index 879f7e5..053a0f6 100644
--- a/common/bspfile_generic.cc
+++ b/common/bspfile_generic.cc
@@ -60,6 +60,11 @@ void mvis_t::stream_read(std::istream &stream, const lump_t &lump)
 
     stream >= numclusters;
 
+    if (!stream || numclusters < 0 || numclusters > lump.filelen / static_cast<int32_t>(sizeof(bit_offsets[0]))) {
+        stream.setstate(std::ios_base::failbit);
+        return;
+    }
+
     resize(numclusters);
 
     // read cluster -> offset tables
@@ -68,6 +73,12 @@ void mvis_t::stream_read(std::istream &stream, const lump_t &lump)
 
     // pull in final bit set
     auto remaining = lump.filelen - (static_cast<int32_t>(stream.tellg()) - lump.fileofs);
+
+    if (!stream || remaining < 0) {
+        stream.setstate(std::ios_base::failbit);
+        return;
+    }
+
     bits.resize(remaining);
     stream.read(reinterpret_cast<char *>(bits.data()), remaining);
 }
@@ -118,7 +129,12 @@ void miptex_t::stream_read(std::istream &stream, size_t len)
     dmiptex_t dtex;
     miptex_stream >= dtex;
 
-    name = dtex.name.data();
+    if (!miptex_stream) {
+        stream.setstate(std::ios_base::failbit);
+        return;
+    }
+
+    name.assign(dtex.name.begin(), std::find(dtex.name.begin(), dtex.name.end(), '\0'));
     width = dtex.width;
     height = dtex.height;
     offsets = dtex.offsets;
@@ -136,6 +152,11 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
     int32_t nummiptex;
     stream >= nummiptex;
 
+    if (!stream || nummiptex < 0 || nummiptex > lump.filelen / static_cast<int32_t>(sizeof(int32_t))) {
+        stream.setstate(std::ios_base::failbit);
+        return;
+    }
+
     // load in all of the offsets, we need them
     // to calculate individual data sizes
     std::vector<int32_t> offsets(nummiptex);
@@ -144,6 +165,10 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
         stream >= offsets[i];
     }
 
+    if (!stream) {
+        return;
+    }
+
     for (size_t i = 0; i < nummiptex; i++) {
         miptex_t &tex = textures.emplace_back();
 
-- 
2.43.0


From 556bfcdfa368605fa2c248d627c9e00036e3c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:09 +0000
Subject: [PATCH 38/43] fix: don't list or load files of a pak or wad that ends
 early

---
 common/fs.cc | 51 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/common/fs.cc b/common/fs.cc
index 2f98216..75744e5 100644
--- a/common/fs.cc
+++ b/common/fs.cc
@@ -22,6 +22,7 @@
 #include "common/cmdlib.hh"
 #include "common/fs.hh"
 #include "common/log.hh"
+#include <algorithm>
 #include <fstream>
 #include <memory>
 #include <array>
@@ -53,6 +54,12 @@ struct directory_archive : archive_like
             std::ifstream stream(p, std::ios_base::in | std::ios_base::binary);
             std::vector<uint8_t> data(size);
             stream.read(reinterpret_cast<char *>(data.data()), size);
+
+            if (!stream) {
+                logging::funcprint("WARNING: couldn't read {}\n", p);
+                return std::nullopt;
+            }
+
             return data;
         } catch (const filesystem_error &e) {
             logging::funcprint("WARNING: {}\n", e.what());
@@ -96,14 +103,16 @@ struct pak_archive : archive_like
 
         pakstream >= header;
 
+        if (!pakstream) {
+            throw std::runtime_error("Header incomplete");
+        }
+
         if (header.magic != std::array<char, 4>{'P', 'A', 'C', 'K'}) {
             throw std::runtime_error("Bad magic");
         }
 
         size_t totalFiles = header.size / sizeof(pak_file);
 
-        files.reserve(totalFiles);
-
         pakstream.seekg(header.offset);
 
         for (size_t i = 0; i < totalFiles; i++) {
@@ -111,7 +120,14 @@ struct pak_archive : archive_like
 
             pakstream >= file;
 
-            files[file.name.data()] = std::make_tuple(file.offset, file.size);
+            if (!pakstream) {
+                throw std::runtime_error("Directory incomplete");
+            }
+
+            // a name of the full length has no terminating NUL
+            std::string name(file.name.begin(), std::find(file.name.begin(), file.name.end(), '\0'));
+
+            files[name] = std::make_tuple(file.offset, file.size);
         }
     }
 
@@ -125,10 +141,17 @@ struct pak_archive : archive_like
             return std::nullopt;
         }
 
+        pakstream.clear();
         pakstream.seekg(std::get<0>(it->second));
         uintmax_t size = std::get<1>(it->second);
         std::vector<uint8_t> data(size);
         pakstream.read(reinterpret_cast<char *>(data.data()), size);
+
+        if (!pakstream) {
+            logging::funcprint("WARNING: {} ends inside of {}\n", pathname, filename);
+            return std::nullopt;
+        }
+
         return data;
     }
 };
@@ -176,12 +199,14 @@ struct wad_archive : archive_like
 
         wadstream >= header;
 
+        if (!wadstream) {
+            throw std::runtime_error("Header incomplete");
+        }
+
         if (header.identification != wad2_ident && header.identification != wad3_ident) {
             throw std::runtime_error("Bad magic");
         }
 
-        files.reserve(header.numlumps);
-
         wadstream.seekg(header.infotableofs);
 
         for (size_t i = 0; i < header.numlumps; i++) {
@@ -189,7 +214,14 @@ struct wad_archive : archive_like
 
             wadstream >= file;
 
-            files[file.name.data()] = std::make_tuple(file.filepos, file.disksize);
+            if (!wadstream) {
+                throw std::runtime_error("Directory incomplete");
+            }
+
+            // a name of the full length has no terminating NUL
+            std::string name(file.name.begin(), std::find(file.name.begin(), file.name.end(), '\0'));
+
+            files[name] = std::make_tuple(file.filepos, file.disksize);
         }
     }
 
@@ -203,10 +235,17 @@ struct wad_archive : archive_like
             return std::nullopt;
         }
 
+        wadstream.clear();
         wadstream.seekg(std::get<0>(it->second));
         uintmax_t size = std::get<1>(it->second);
         std::vector<uint8_t> data(size);
         wadstream.read(reinterpret_cast<char *>(data.data()), size);
+
+        if (!wadstream) {
+            logging::funcprint("WARNING: {} ends inside of {}\n", pathname, filename);
+            return std::nullopt;
+        }
+
         return data;
     }
 };
-- 
2.43.0


From f7c4c9f4d30f9d73d9d2cfd080ffe24cd1b681df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:40 +0000
Subject: [PATCH 39/43] fix: don't use the sizes or pixels of a texture file
 that ends early

---
 common/imglib.cc | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/common/imglib.cc b/common/imglib.cc
index 4b4079b..4bd3d75 100644
--- a/common/imglib.cc
+++ b/common/imglib.cc
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <vector>
 #include <common/fs.hh>
 #include <common/imglib.hh>
@@ -63,6 +64,11 @@ static bool LoadPCXPalette(const fs::path &filename, std::vector<qvec3b> &palett
     pcx_t pcx;
     stream >= pcx;
 
+    if (!stream || file->size() < 768) {
+        logging::funcprint("Failed to load '{}'. Header incomplete.\n", filename);
+        return false;
+    }
+
     if (pcx.manufacturer != 0x0a || pcx.version != 5 || pcx.encoding != 1 || pcx.bits_per_pixel != 8) {
         logging::funcprint("Failed to load '{}'. Unsupported PCX file.\n", filename);
         return false;
@@ -135,6 +141,11 @@ std::optional<texture> load_wal(
     q2_miptex_t mt;
     stream >= mt;
 
+    if (!stream) {
+        logging::funcprint("Failed to fully load wal {}. Header incomplete.\n", name);
+        return std::nullopt;
+    }
+
     texture tex;
 
     tex.meta.extension = ext::WAL;
@@ -148,11 +159,19 @@ std::optional<texture> load_wal(
     tex.meta.contents_native = mt.contents;
     tex.meta.flags = {mt.flags};
     tex.meta.value = mt.value;
-    tex.meta.animation = mt.animname.data();
+    // a name of the full length has no terminating NUL
+    tex.meta.animation.assign(mt.animname.begin(), std::find(mt.animname.begin(), mt.animname.end(), '\0'));
 
     if (!meta_only) {
+        const uint64_t num_pixels = static_cast<uint64_t>(mt.width) * mt.height;
+
+        if (mt.offsets[0] > file->size() || num_pixels > file->size() - mt.offsets[0]) {
+            logging::funcprint("Failed to fully load wal {}. Pixels incomplete.\n", name);
+            return std::nullopt;
+        }
+
         stream.seekg(mt.offsets[0]);
-        std::vector<uint8_t> pixels(mt.width * mt.height);
+        std::vector<uint8_t> pixels(num_pixels);
         stream.read(reinterpret_cast<char *>(pixels.data()), pixels.size());
         convert_paletted_to_32_bit(pixels, tex.pixels, palette);
     }
@@ -201,14 +220,16 @@ std::optional<texture> load_mip(
 
         // convert the data into RGBA.
         // sanity check
-        if (header.offsets[0] + (header.width * header.height) > file->size()) {
+        const uint64_t num_pixels = static_cast<uint64_t>(header.width) * header.height;
+
+        if (header.offsets[0] > file->size() || num_pixels > file->size() - header.offsets[0]) {
             logging::funcprint("mip offset0 overrun for {}\n", name);
             return tex;
         }
 
         // fetch the full data for the first mip
         stream.seekg(header.offsets[0]);
-        std::vector<uint8_t> pixels(header.width * header.height);
+        std::vector<uint8_t> pixels(num_pixels);
         stream.read(reinterpret_cast<char *>(pixels.data()), pixels.size());
 
         // Half Life will have a palette of 256 colors in a specific spot
@@ -220,7 +241,7 @@ std::optional<texture> load_mip(
         if (game->id == GAME_HALF_LIFE) {
             bool valid_mip_palette = true;
 
-            int32_t mip3_size = (header.width >> 3) * (header.height >> 3);
+            uint64_t mip3_size = static_cast<uint64_t>(header.width >> 3) * (header.height >> 3);
             size_t palette_size = sizeof(uint16_t) + (sizeof(qvec3b) * 256);
 
             if (header.offsets[3] <= 0) {
-- 
2.43.0


From 787a1bdc8987236c98c6ac37f8d979dc5066f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:39 +0000
Subject: [PATCH 40/43] fix: don't use values of a BSPX lump or lit file that
 ends early

---
 bsputil/bsputil.cc  | 13 +++++++++++++
 common/bspinfo.cc   |  8 ++++++++
 common/bsputils.cc  | 13 ++++++++-----
 common/bspxfile.cc  | 22 ++++++++++++++++++++++
 common/decompile.cc |  8 ++++++--
 5 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 58bc351..21d70b7 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -1127,6 +1127,10 @@ int bsputil_main(int argc, char **argv)
                 for ([[maybe_unused]] auto &face : bsp.dfaces) {
                     istream >= result;
 
+                    if (!istream) {
+                        Error("DECOUPLED_LM lump is incomplete");
+                    }
+
                     const qmat3x3d inversescaleM{// column-major...
                         1 / scalar[0], 0.0, 0.0, 0.0, 1 / scalar[1], 0.0, 0.0, 0.0, 1 / scalar[2]};
 
@@ -1160,6 +1164,11 @@ int bsputil_main(int argc, char **argv)
 
                 qvec3f original_grid_dist;
                 istream >= original_grid_dist;
+
+                if (!istream) {
+                    Error("LIGHTGRID_OCTREE lump is incomplete");
+                }
+
                 ostream <= qvec3f(original_grid_dist * scalar);
 
                 qvec3i grid_size;
@@ -1170,6 +1179,10 @@ int bsputil_main(int argc, char **argv)
                     qvec3f grid_mins;
                     istream >= grid_mins;
 
+                    if (!istream) {
+                        Error("LIGHTGRID_OCTREE lump is incomplete");
+                    }
+
                     qvec3f scaled_mins = grid_mins * scalar;
                     qvec3f scaled_maxs = (grid_mins + original_grid_dist * (grid_size - qvec3i{1, 1, 1})) * scalar;
 
diff --git a/common/bspinfo.cc b/common/bspinfo.cc
index eaeea85..d008de3 100644
--- a/common/bspinfo.cc
+++ b/common/bspinfo.cc
@@ -283,6 +283,10 @@ full_atlas_t build_lightmap_atlas(const mbsp_t &bsp, const bspxentries_t &bspx,
         for (size_t i = 0; i < bsp.dfaces.size(); ++i) {
             stream >= bspx_decoupled[i];
         }
+
+        if (!stream) {
+            FError("DECOUPLED_LM lump is incomplete");
+        }
     } else {
         use_decoupled = false;
     }
@@ -299,6 +303,10 @@ full_atlas_t build_lightmap_atlas(const mbsp_t &bsp, const bspxentries_t &bspx,
         } else {
             bspx_lmoffset.seekg(face_idx * sizeof(int32_t));
             bspx_lmoffset >= faceofs;
+
+            if (!bspx_lmoffset) {
+                FError("LMOFFSET lump is incomplete");
+            }
         }
 
         rectangles.emplace_back(
diff --git a/common/bsputils.cc b/common/bsputils.cc
index 2b04800..f97847e 100644
--- a/common/bsputils.cc
+++ b/common/bsputils.cc
@@ -787,6 +787,8 @@ bspx_decoupled_lm_perface BSPX_DecoupledLM(const bspxentries_t &entries, int fac
 
     bspx_decoupled_lm_perface result;
     stream >= result;
+    if (!stream)
+        FError("DECOUPLED_LM lump has no face {}", face_num);
     return result;
 }
 
@@ -802,6 +804,8 @@ std::optional<bspxfacenormals> BSPX_FaceNormals(const mbsp_t &bsp, const bspxent
 
     bspxfacenormals result;
     result.stream_read(stream, bsp);
+    if (!stream)
+        FError("FACENORMALS lump is incomplete");
     return result;
 }
 
@@ -1128,20 +1132,19 @@ std::vector<uint8_t> LoadLitFile(const fs::path &path)
 
     std::array<char, 4> ident;
     stream >= ident;
-    if (ident != std::array<char, 4>{'Q', 'L', 'I', 'T'}) {
+    if (!stream || ident != std::array<char, 4>{'Q', 'L', 'I', 'T'}) {
         throw std::runtime_error("invalid lit ident");
     }
 
     int version;
     stream >= version;
-    if (version != 1) {
+    if (!stream || version != 1) {
         throw std::runtime_error("invalid lit version");
     }
 
     std::vector<uint8_t> litdata;
-    while (stream.good()) {
-        uint8_t b;
-        stream >= b;
+    uint8_t b;
+    while (stream >= b) {
         litdata.push_back(b);
     }
 
diff --git a/common/bspxfile.cc b/common/bspxfile.cc
index c80c771..5736e9d 100644
--- a/common/bspxfile.cc
+++ b/common/bspxfile.cc
@@ -70,6 +70,10 @@ void bspxbrushes_perbrush::stream_read(std::istream &s)
     uint16_t numfaces = 0;
     s >= numfaces;
 
+    if (!s) {
+        return;
+    }
+
     faces.resize(numfaces);
 
     for (auto &face : faces) {
@@ -112,9 +116,18 @@ void bspxbrushes_permodel::stream_read(std::istream &s)
     s >= numbrushes;
     s >= numfaces;
 
+    // don't believe the counts of a lump that ended early
+    if (!s) {
+        return;
+    }
+
     brushes.resize(numbrushes);
     for (auto &brush : brushes) {
         s >= brush;
+
+        if (!s) {
+            return;
+        }
     }
 }
 
@@ -199,9 +212,18 @@ void bspxfacenormals::stream_read(std::istream &s, const mbsp_t &bsp)
     uint32_t size;
     s >= size;
 
+    if (!s) {
+        return;
+    }
+
     for (uint32_t i = 0; i < size; ++i) {
         qvec3f v;
         s >= v;
+
+        if (!s) {
+            return;
+        }
+
         normals.push_back(v);
     }
 
diff --git a/common/decompile.cc b/common/decompile.cc
index c3be6a8..d9f81d0 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -203,8 +203,12 @@ struct compiled_brush_t
                         stream >> endianness<std::endian::little>;
                         stream.seekg(88);
 
-                        meta = &wals.emplace(side.texture_name, wal_metadata_t{}).first->second;
-                        stream >= *meta;
+                        wal_metadata_t wal_meta;
+
+                        // a texture that ends early has no metadata
+                        if (stream >= wal_meta) {
+                            meta = &wals.emplace(side.texture_name, wal_meta).first->second;
+                        }
                     }
                 }
 
-- 
2.43.0


From cf220be9b9b7be9018ba52c5895f6afb3cf54271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:10 +0000
Subject: [PATCH 41/43] fix: refuse a BSP file that ends inside its header

---
 common/bspfile.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index 45894b7..469f171 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -2229,16 +2229,28 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
     stream >= temp_version.ident;
     stream.seekg(0);
 
+    if (!stream) {
+        FError("\"{}\" is too short to be a BSP file\n", filename);
+    }
+
     if (temp_version.ident == Q2_BSPIDENT || temp_version.ident == Q2_QBISMIDENT) {
         q2_dheader_t q2header;
         stream >= q2header;
 
+        if (!stream) {
+            FError("\"{}\" is too short to be a BSP file\n", filename);
+        }
+
         temp_version.version = q2header.version;
         std::copy(q2header.lumps.begin(), q2header.lumps.end(), std::back_inserter(lumps));
     } else {
         dheader_t q1header;
         stream >= q1header;
 
+        if (!stream) {
+            FError("\"{}\" is too short to be a BSP file\n", filename);
+        }
+
         temp_version.version = std::nullopt;
         std::copy(q1header.lumps.begin(), q1header.lumps.end(), std::back_inserter(lumps));
     }
-- 
2.43.0


From 0d5699216370e760360d38392439366c6a718a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:10 +0000
Subject: [PATCH 42/43] fix: check a BSPX lump's range without overflow, and
 its name's length

---
 common/bspfile.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index 469f171..457787f 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -2106,6 +2106,8 @@ struct lump_reader
 
         s.read(reinterpret_cast<char *>(buffer.data()), lump.filelen);
 
+        Q_assert((bool)s);
+
         // the last byte is required to be '\0' which was added when the .bsp was
         // written. chop it off now, since we want the std::string to
         // be the logical string (we'll add the null terminator again when saving the .bsp)
@@ -2113,8 +2115,6 @@ struct lump_reader
             buffer.resize(lump.filelen - 1);
         }
         // TODO: warn about bad .bsp if missing \0?
-
-        Q_assert((bool)s);
     }
 
     // read structured lump data from stream into struct
@@ -2321,13 +2321,18 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
                 return;
             }
 
-            if (xlump.fileofs > file_data->size() || (xlump.fileofs + xlump.filelen) > file_data->size()) {
+            if (xlump.fileofs > file_data->size() || xlump.filelen > file_data->size() - xlump.fileofs) {
                 logging::print("WARNING: invalid BSPX lump at index {}\n", i);
                 return;
             }
 
-            bspdata->bspx.transfer(xlump.lumpname.data(), std::vector<uint8_t>(file_data->begin() + xlump.fileofs,
-                                                              file_data->begin() + xlump.fileofs + xlump.filelen));
+            // a name of the full length has no terminating NUL
+            std::string xlump_name(
+                xlump.lumpname.begin(), std::find(xlump.lumpname.begin(), xlump.lumpname.end(), '\0'));
+
+            bspdata->bspx.transfer(
+                xlump_name.c_str(), std::vector<uint8_t>(file_data->begin() + xlump.fileofs,
+                                        file_data->begin() + xlump.fileofs + xlump.filelen));
         }
     }
 }
-- 
2.43.0


From ee3b1cd58a96d954e3b1746f6a7c1eda1738a297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:10 +0000
Subject: [PATCH 43/43] fix: don't use the header of a state file that ends
 inside it

---
 vis/state.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vis/state.cc b/vis/state.cc
index 092dcda..c09d8fb 100644
--- a/vis/state.cc
+++ b/vis/state.cc
@@ -239,6 +239,9 @@ bool LoadVisState()
 
     in >= state;
 
+    if (!in)
+        FError("state file {} is truncated", statefile);
+
     /* Sanity check the headers */
     if (state.version != VIS_STATE_VERSION) {
         FError("state file version does not match");
-- 
2.43.0

