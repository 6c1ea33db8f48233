From 3438c5123e0f72a46e6c5379a1ad8e0d9f731ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 01/43] fix: read sub_layer_level_idc under
 sub_layer_level_present_flag

---
 src/h265_profile_tier_level_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_profile_tier_level_parser.cc b/src/h265_profile_tier_level_parser.cc
index 1333480..9b9e6ea 100644
--- a/src/h265_profile_tier_level_parser.cc
+++ b/src/h265_profile_tier_level_parser.cc
@@ -92,7 +92,7 @@ H265ProfileTierLevelParser::ParseProfileTierLevel(
       }
     }
 
-    if (profile_tier_level->sub_layer_profile_present_flag[i]) {
+    if (profile_tier_level->sub_layer_level_present_flag[i]) {
       // sub_layer_level_idc  u(8)
       if (!bit_buffer->ReadBits(8, bits_tmp)) {
         return nullptr;
-- 
2.43.0


From 38e81821226fe53c1a0b459525ef576b69f66464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 02/43] fix: read VPS cprms_present_flag as one bit

---
 src/h265_vps_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index b1700a6..b26abce 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -225,10 +225,10 @@ std::shared_ptr<H265VpsParser::VpsState> H265VpsParser::ParseVps(
 
       if (i > 0) {
         // cprms_present_flag[i]  u(1)
-        if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
+        if (!bit_buffer->ReadBits(1, bits_tmp)) {
           return nullptr;
         }
-        vps->cprms_present_flag.push_back(golomb_tmp);
+        vps->cprms_present_flag.push_back(bits_tmp);
       } else {
         vps->cprms_present_flag.push_back(0);
       }
-- 
2.43.0


From fed47f3c9108362c0244aeb33c03aa34053be1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 03/43] fix: infer fixed_pic_rate_within_cvs_flag as 1 when the
 general flag is set

---
 src/h265_hrd_parameters_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 53c9bc5..9c0e9a1 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -144,7 +144,8 @@ H265HrdParametersParser::ParseHrdParameters(
       }
       hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(bits_tmp);
     } else {
-      hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(0);
+      // inferred to be 1 when fixed_pic_rate_general_flag[i] is 1
+      hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(1);
     }
 
     if (hrd_parameters->fixed_pic_rate_within_cvs_flag[i]) {
-- 
2.43.0


From 3f5e260494444a881a78c240170ba671916e668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 04/43] fix: decode large signed Exp-Golomb codes without
 overflow

---
 src/rtc_common.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 970852c..f2e8add 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -273,7 +273,8 @@ bool BitBuffer::ReadSignedExponentialGolomb(int32_t& val) {
   if ((unsigned_val & 1) == 0) {
     val = -static_cast<int32_t>(unsigned_val / 2);
   } else {
-    val = (static_cast<int32_t>(unsigned_val) + 1) / 2;
+    // avoids overflow: same as (unsigned_val + 1) / 2 for odd values
+    val = static_cast<int32_t>(unsigned_val / 2 + (unsigned_val & 1));
   }
   return true;
 }
-- 
2.43.0


From 1f6fd5974a69287bda284e934fd49a96ef61d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 05/43] fix: read the PPS chroma palette bit depth for
 non-monochrome palettes

---
 src/h265_pps_scc_extension_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_pps_scc_extension_parser.cc b/src/h265_pps_scc_extension_parser.cc
index 9fcb347..e5819ac 100644
--- a/src/h265_pps_scc_extension_parser.cc
+++ b/src/h265_pps_scc_extension_parser.cc
@@ -104,7 +104,7 @@ H265PpsSccExtensionParser::ParsePpsSccExtension(
         return nullptr;
       }
 
-      if (pps_scc_extension->monochrome_palette_flag) {
+      if (!pps_scc_extension->monochrome_palette_flag) {
         // chroma_bit_depth_entry_minus8  ue(v)
         if (!bit_buffer->ReadExponentialGolomb(
                 pps_scc_extension->chroma_bit_depth_entry_minus8)) {
-- 
2.43.0


From 406d0e18788bd3f95b584bebad9380c4439c9d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 06/43] fix: reject a PPS whose multilayer extension does not
 parse

---
 src/h265_pps_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index d33eb84..6ab8815 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -303,6 +303,9 @@ std::shared_ptr<H265PpsParser::PpsState> H265PpsParser::ParsePps(
     pps->pps_multilayer_extension =
         H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
             bit_buffer);
+    if (pps->pps_multilayer_extension == nullptr) {
+      return nullptr;
+    }
   }
 
   if (pps->pps_3d_extension_flag) {
-- 
2.43.0


From 8984d2068640ce1ec879b058358af4ec35381436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 07/43] fix: read the PPS multilayer resampling phases as ue(v)

---
 .../h265_pps_multilayer_extension_parser.h    |  8 ++---
 src/h265_pps_multilayer_extension_parser.cc   | 33 ++++++++++---------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/include/h265_pps_multilayer_extension_parser.h b/include/h265_pps_multilayer_extension_parser.h
index db58c53..267403d 100644
--- a/include/h265_pps_multilayer_extension_parser.h
+++ b/include/h265_pps_multilayer_extension_parser.h
@@ -51,10 +51,10 @@ class H265PpsMultilayerExtensionParser {
     std::vector<int32_t> ref_region_right_offset;
     std::vector<int32_t> ref_region_bottom_offset;
     std::vector<uint32_t> resample_phase_set_present_flag;
-    std::vector<int32_t> phase_hor_luma;
-    std::vector<int32_t> phase_ver_luma;
-    std::vector<int32_t> phase_hor_chroma_plus8;
-    std::vector<int32_t> phase_ver_chroma_plus8;
+    std::vector<uint32_t> phase_hor_luma;
+    std::vector<uint32_t> phase_ver_luma;
+    std::vector<uint32_t> phase_hor_chroma_plus8;
+    std::vector<uint32_t> phase_ver_chroma_plus8;
     uint32_t colour_mapping_enabled_flag;
     // colour_mapping_table(()
   };
diff --git a/src/h265_pps_multilayer_extension_parser.cc b/src/h265_pps_multilayer_extension_parser.cc
index 5449234..fc15377 100644
--- a/src/h265_pps_multilayer_extension_parser.cc
+++ b/src/h265_pps_multilayer_extension_parser.cc
@@ -33,6 +33,7 @@ std::unique_ptr<H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState>
 H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
     BitBuffer* bit_buffer) noexcept {
   uint32_t bits_tmp;
+  uint32_t golomb_tmp;
   int32_t sgolomb_tmp;
 
   // H265 pps_multilayer_extension() NAL Unit.
@@ -153,29 +154,29 @@ H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
         bits_tmp);
 
     if (pps_multilayer_extension->resample_phase_set_present_flag.back()) {
-      // phase_hor_luma[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_hor_luma[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_hor_luma.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_hor_luma.push_back(golomb_tmp);
 
-      // phase_ver_luma[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_ver_luma[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_ver_luma.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_ver_luma.push_back(golomb_tmp);
 
-      // phase_hor_chroma_plus8[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_hor_chroma_plus8[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_hor_chroma_plus8.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_hor_chroma_plus8.push_back(golomb_tmp);
 
-      // phase_ver_chroma_plus8[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_ver_chroma_plus8[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_ver_chroma_plus8.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_ver_chroma_plus8.push_back(golomb_tmp);
     }
   }
 
@@ -309,28 +310,28 @@ void H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState::fdump(
 
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "phase_hor_luma {");
-    for (const int32_t& v : phase_hor_luma) {
+    for (const uint32_t& v : phase_hor_luma) {
       fprintf(outfp, " %i", v);
     }
     fprintf(outfp, " }");
 
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "phase_ver_luma {");
-    for (const int32_t& v : phase_ver_luma) {
+    for (const uint32_t& v : phase_ver_luma) {
       fprintf(outfp, " %i", v);
     }
     fprintf(outfp, " }");
 
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "phase_hor_chroma_plus8 {");
-    for (const int32_t& v : phase_hor_chroma_plus8) {
+    for (const uint32_t& v : phase_hor_chroma_plus8) {
       fprintf(outfp, " %i", v);
     }
     fprintf(outfp, " }");
 
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "phase_ver_chroma_plus8 {");
-    for (const int32_t& v : phase_ver_chroma_plus8) {
+    for (const uint32_t& v : phase_ver_chroma_plus8) {
       fprintf(outfp, " %i", v);
     }
     fprintf(outfp, " }");
-- 
2.43.0


From f8eae3363461dbc044f123f5e40409594c43a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 08/43] fix: reject out-of-range scaling list coefficients
 instead of overflowing

---
 src/h265_scaling_list_data_parser.cc | 37 ++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/h265_scaling_list_data_parser.cc b/src/h265_scaling_list_data_parser.cc
index e03a3ec..61d5e00 100644
--- a/src/h265_scaling_list_data_parser.cc
+++ b/src/h265_scaling_list_data_parser.cc
@@ -16,6 +16,14 @@
 
 namespace h265nal {
 
+namespace {
+// Section 7.4.5
+constexpr int32_t kScalingListDcCoefMinus8Min = -7;
+constexpr int32_t kScalingListDcCoefMinus8Max = 247;
+constexpr int32_t kScalingListDeltaCoefMin = -128;
+constexpr int32_t kScalingListDeltaCoefMax = 127;
+}  // namespace
+
 // General note: this is based off the 2018/02 version of the H.265 standard.
 // You can find it on this page:
 // http://www.itu.int/rec/T-REC-H.265
@@ -82,6 +90,23 @@ H265ScalingListDataParser::ParseScalingListData(
                       ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId])) {
             return nullptr;
           }
+          // Section 7.4.5: in the range of -7 to 247, inclusive
+          if (scaling_list_data
+                      ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] <
+                  kScalingListDcCoefMinus8Min ||
+              scaling_list_data
+                      ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] >
+                  kScalingListDcCoefMinus8Max) {
+#ifdef FPRINT_ERRORS
+            fprintf(stderr,
+                    "invalid scaling_list_dc_coef_minus8: %" PRIi32
+                    " not in range [%" PRIi32 ", %" PRIi32 "]\n",
+                    scaling_list_data
+                        ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId],
+                    kScalingListDcCoefMinus8Min, kScalingListDcCoefMinus8Max);
+#endif  // FPRINT_ERRORS
+            return nullptr;
+          }
           nextCoef = static_cast<uint32_t>(
               scaling_list_data
                   ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] +
@@ -94,6 +119,18 @@ H265ScalingListDataParser::ParseScalingListData(
                   scaling_list_delta_coef)) {
             return nullptr;
           }
+          // Section 7.4.5: in the range of -128 to 127, inclusive
+          if (scaling_list_delta_coef < kScalingListDeltaCoefMin ||
+              scaling_list_delta_coef > kScalingListDeltaCoefMax) {
+#ifdef FPRINT_ERRORS
+            fprintf(stderr,
+                    "invalid scaling_list_delta_coef: %" PRIi32
+                    " not in range [%" PRIi32 ", %" PRIi32 "]\n",
+                    scaling_list_delta_coef, kScalingListDeltaCoefMin,
+                    kScalingListDeltaCoefMax);
+#endif  // FPRINT_ERRORS
+            return nullptr;
+          }
           nextCoef = static_cast<uint32_t>(static_cast<int32_t>(nextCoef) +
                                            scaling_list_delta_coef + 256) %
                      256;
-- 
2.43.0


From b7cff7e6c6b617bcc02cdef9f4b74a0728cc8e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 09/43] fix: reject out-of-range delta_poc_s0/s1_minus1 instead
 of overflowing

---
 include/h265_st_ref_pic_set_parser.h |  1 +
 src/h265_st_ref_pic_set_parser.cc    | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/h265_st_ref_pic_set_parser.h b/include/h265_st_ref_pic_set_parser.h
index 9622390..db17dd0 100644
--- a/include/h265_st_ref_pic_set_parser.h
+++ b/include/h265_st_ref_pic_set_parser.h
@@ -25,6 +25,7 @@ class H265StRefPicSetParser {
   // of 0 to 2^15 - 1, inclusive."
   const static uint32_t kAbsDeltaRpsMinus1Min = 0;
   const static uint32_t kAbsDeltaRpsMinus1Max = 32767;
+  const static uint32_t kDeltaPocMinus1Max = 32767;
   // Section 7.4.8: "When nuh_layer_id of the current picture is equal to 0,
   // the value of num_negative_pics shall be in the range of 0 to
   // sps_max_dec_pic_buffering_minus1[sps_max_sub_layers_minus1],
diff --git a/src/h265_st_ref_pic_set_parser.cc b/src/h265_st_ref_pic_set_parser.cc
index f530776..fe33b99 100644
--- a/src/h265_st_ref_pic_set_parser.cc
+++ b/src/h265_st_ref_pic_set_parser.cc
@@ -317,6 +317,16 @@ H265StRefPicSetParser::ParseStRefPicSet(
       if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
+      if (golomb_tmp > kDeltaPocMinus1Max) {
+#ifdef FPRINT_ERRORS
+        fprintf(stderr,
+                "invalid delta_poc_s0_minus1: %" PRIu32
+                " not in range "
+                "[0, %" PRIu32 "]\n",
+                golomb_tmp, kDeltaPocMinus1Max);
+#endif  // FPRINT_ERRORS
+        return nullptr;
+      }
       st_ref_pic_set->delta_poc_s0_minus1.push_back(golomb_tmp);
 
       // used_by_curr_pic_s0_flag[i] u(1)
@@ -331,6 +341,16 @@ H265StRefPicSetParser::ParseStRefPicSet(
       if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
+      if (golomb_tmp > kDeltaPocMinus1Max) {
+#ifdef FPRINT_ERRORS
+        fprintf(stderr,
+                "invalid delta_poc_s1_minus1: %" PRIu32
+                " not in range "
+                "[0, %" PRIu32 "]\n",
+                golomb_tmp, kDeltaPocMinus1Max);
+#endif  // FPRINT_ERRORS
+        return nullptr;
+      }
       st_ref_pic_set->delta_poc_s1_minus1.push_back(golomb_tmp);
 
       // used_by_curr_pic_s1_flag[i] u(1)
-- 
2.43.0


From 8279888fa6f0ab362a1876eee004e9049938d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 10/43] fix: derive ChromaArrayType for slices without SAO

---
 src/h265_slice_parser.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 2d28f89..b5e4405 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -353,6 +353,19 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
       }
     }
 
+    // Depending on the value of separate_colour_plane_flag, the value of
+    // the variable ChromaArrayType is assigned as follows:
+    // - If separate_colour_plane_flag is equal to 0, ChromaArrayType is
+    //   set equal to chroma_format_idc.
+    // - Otherwise (separate_colour_plane_flag is equal to 1),
+    //   ChromaArrayType is set equal to 0.
+    uint32_t chroma_format_idc = sps->chroma_format_idc;
+    if (slice_segment_header->separate_colour_plane_flag == 0) {
+      slice_segment_header->ChromaArrayType = chroma_format_idc;
+    } else {
+      slice_segment_header->ChromaArrayType = 0;
+    }
+
     slice_segment_header->sample_adaptive_offset_enabled_flag =
         sps->sample_adaptive_offset_enabled_flag;
     if (slice_segment_header->sample_adaptive_offset_enabled_flag) {
@@ -361,19 +374,6 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         return nullptr;
       }
 
-      // Depending on the value of separate_colour_plane_flag, the value of
-      // the variable ChromaArrayType is assigned as follows:
-      // - If separate_colour_plane_flag is equal to 0, ChromaArrayType is
-      //   set equal to chroma_format_idc.
-      // - Otherwise (separate_colour_plane_flag is equal to 1),
-      //   ChromaArrayType is set equal to 0.
-      uint32_t chroma_format_idc = sps->chroma_format_idc;
-      if (slice_segment_header->separate_colour_plane_flag == 0) {
-        slice_segment_header->ChromaArrayType = chroma_format_idc;
-      } else {
-        slice_segment_header->ChromaArrayType = 0;
-      }
-
       if (slice_segment_header->ChromaArrayType != 0) {
         // slice_sao_chroma_flag  u(1)
         if (!bit_buffer->ReadBits(
-- 
2.43.0


From 380eceadd1a9aaf563b164d75df5d97e2f6dad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 11/43] fix: infer the number of active references from the PPS

---
 src/h265_slice_parser.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index b5e4405..01bf818 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -405,6 +405,14 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
             return nullptr;
           }
         }
+      } else {
+        // inferred from the PPS when not present
+        slice_segment_header->num_ref_idx_l0_active_minus1 =
+            pps->num_ref_idx_l0_default_active_minus1;
+        if (slice_segment_header->slice_type == SliceType_B) {
+          slice_segment_header->num_ref_idx_l1_active_minus1 =
+              pps->num_ref_idx_l1_default_active_minus1;
+        }
       }
 
       slice_segment_header->lists_modification_present_flag =
-- 
2.43.0


From b3da5456c0cb17a3e50bfdf5a8e9a92d30592af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 12/43] fix: infer slice_deblocking_filter_disabled_flag from
 the PPS

---
 src/h265_slice_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 01bf818..df67658 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -572,6 +572,9 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
       }
     }
 
+    // inferred from the PPS when not present
+    slice_segment_header->slice_deblocking_filter_disabled_flag =
+        pps->pps_deblocking_filter_disabled_flag;
     if (slice_segment_header->deblocking_filter_override_flag) {
       // slice_deblocking_filter_disabled_flag  u(1)
       if (!bit_buffer->ReadBits(
-- 
2.43.0


From 963d4426e7a9bbdeeaa80ced4ba6f94016569c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 13/43] fix: allow the maximum number of entry points with
 tiles and WPP

---
 src/h265_slice_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index df67658..a33ecf6 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -713,7 +713,7 @@ bool H265SliceSegmentHeaderParser::SliceSegmentHeaderState::
   // ( num_tile_columns_minus1 + 1 ) * PicHeightInCtbsY - 1, inclusive.
   if (tiles_enabled_flag == 1 && entropy_coding_sync_enabled_flag == 1) {
     uint32_t max_num_entry_point_offsets =
-        ((pps->num_tile_columns_minus1 + 1) * (sps->getPicHeightInCtbsY() - 1));
+        ((pps->num_tile_columns_minus1 + 1) * sps->getPicHeightInCtbsY() - 1);
     return (num_entry_point_offsets_value <= max_num_entry_point_offsets);
   }
 
-- 
2.43.0


From 5a80ec9a6ede3376753d0ba8477361b39fe40bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 14/43] fix: parse the list 1 prediction weights of B slices

---
 include/h265_pred_weight_table_parser.h |   8 +-
 src/h265_pred_weight_table_parser.cc    | 131 +++++++++++++++++++++++-
 src/h265_slice_parser.cc                |   4 +-
 3 files changed, 137 insertions(+), 6 deletions(-)

diff --git a/include/h265_pred_weight_table_parser.h b/include/h265_pred_weight_table_parser.h
index 0a455d0..55ac5c9 100644
--- a/include/h265_pred_weight_table_parser.h
+++ b/include/h265_pred_weight_table_parser.h
@@ -35,6 +35,8 @@ class H265PredWeightTableParser {
     // input parameters
     uint32_t ChromaArrayType = 0;
     uint32_t num_ref_idx_l0_active_minus1 = 0;
+    bool b_slice = false;
+    uint32_t num_ref_idx_l1_active_minus1 = 0;
 
     // contents
     uint32_t luma_log2_weight_denom = 0;
@@ -57,10 +59,12 @@ class H265PredWeightTableParser {
   // Unpack RBSP and parse PredWeightTable state from the supplied buffer.
   static std::unique_ptr<PredWeightTableState> ParsePredWeightTable(
       const uint8_t* data, size_t length, uint32_t ChromaArrayType,
-      uint32_t num_ref_idx_l0_active_minus1) noexcept;
+      uint32_t num_ref_idx_l0_active_minus1, bool b_slice = false,
+      uint32_t num_ref_idx_l1_active_minus1 = 0) noexcept;
   static std::unique_ptr<PredWeightTableState> ParsePredWeightTable(
       BitBuffer* bit_buffer, uint32_t ChromaArrayType,
-      uint32_t num_ref_idx_l0_active_minus1) noexcept;
+      uint32_t num_ref_idx_l0_active_minus1, bool b_slice = false,
+      uint32_t num_ref_idx_l1_active_minus1 = 0) noexcept;
 };
 
 }  // namespace h265nal
diff --git a/src/h265_pred_weight_table_parser.cc b/src/h265_pred_weight_table_parser.cc
index bff9207..ef4f3d9 100644
--- a/src/h265_pred_weight_table_parser.cc
+++ b/src/h265_pred_weight_table_parser.cc
@@ -23,17 +23,20 @@ namespace h265nal {
 std::unique_ptr<H265PredWeightTableParser::PredWeightTableState>
 H265PredWeightTableParser::ParsePredWeightTable(
     const uint8_t* data, size_t length, uint32_t ChromaArrayType,
-    uint32_t num_ref_idx_l0_active_minus1) noexcept {
+    uint32_t num_ref_idx_l0_active_minus1, bool b_slice,
+    uint32_t num_ref_idx_l1_active_minus1) noexcept {
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParsePredWeightTable(&bit_buffer, ChromaArrayType,
-                              num_ref_idx_l0_active_minus1);
+                              num_ref_idx_l0_active_minus1, b_slice,
+                              num_ref_idx_l1_active_minus1);
 }
 
 std::unique_ptr<H265PredWeightTableParser::PredWeightTableState>
 H265PredWeightTableParser::ParsePredWeightTable(
     BitBuffer* bit_buffer, uint32_t ChromaArrayType,
-    uint32_t num_ref_idx_l0_active_minus1) noexcept {
+    uint32_t num_ref_idx_l0_active_minus1, bool b_slice,
+    uint32_t num_ref_idx_l1_active_minus1) noexcept {
   uint32_t bits_tmp;
   int32_t sgolomb_tmp;
 
@@ -45,6 +48,9 @@ H265PredWeightTableParser::ParsePredWeightTable(
   pred_weight_table->ChromaArrayType = ChromaArrayType;
   pred_weight_table->num_ref_idx_l0_active_minus1 =
       num_ref_idx_l0_active_minus1;
+  pred_weight_table->b_slice = b_slice;
+  pred_weight_table->num_ref_idx_l1_active_minus1 =
+      num_ref_idx_l1_active_minus1;
 
   // luma_log2_weight_denom  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(
@@ -121,6 +127,69 @@ H265PredWeightTableParser::ParsePredWeightTable(
     }
   }
 
+  if (pred_weight_table->b_slice) {
+    for (uint32_t i = 0; i <= pred_weight_table->num_ref_idx_l1_active_minus1;
+         ++i) {
+      // from ffmpeg/libavcodec/cbs_h265_syntax_template.c
+      // "1 (is not same POC and same layer_id)"
+      // luma_weight_l1_flag[i]  u(1)
+      if (!bit_buffer->ReadBits(1, bits_tmp)) {
+        return nullptr;
+      }
+      pred_weight_table->luma_weight_l1_flag.push_back(bits_tmp);
+    }
+
+    if (pred_weight_table->ChromaArrayType != 0) {
+      for (uint32_t i = 0; i <= pred_weight_table->num_ref_idx_l1_active_minus1;
+           ++i) {
+        // from ffmpeg/libavcodec/cbs_h265_syntax_template.c
+        // "1 (is not same POC and same layer_id)"
+        // chroma_weight_l1_flag[i]  u(1)
+        if (!bit_buffer->ReadBits(1, bits_tmp)) {
+          return nullptr;
+        }
+        pred_weight_table->chroma_weight_l1_flag.push_back(bits_tmp);
+      }
+    }
+
+    for (uint32_t i = 0; i <= pred_weight_table->num_ref_idx_l1_active_minus1;
+         ++i) {
+      if (pred_weight_table->luma_weight_l1_flag[i]) {
+        // delta_luma_weight_l1[i]  se(v)
+        if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+          return nullptr;
+        }
+        pred_weight_table->delta_luma_weight_l1.push_back(sgolomb_tmp);
+        // luma_offset_l1[i]  se(v)
+        if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+          return nullptr;
+        }
+        pred_weight_table->luma_offset_l1.push_back(sgolomb_tmp);
+      }
+      if (pred_weight_table->ChromaArrayType != 0) {
+        if (pred_weight_table->chroma_weight_l1_flag[i]) {
+          pred_weight_table->delta_chroma_weight_l1.emplace_back();
+          pred_weight_table->delta_chroma_offset_l1.emplace_back();
+          for (int j = 0; j < 2; ++j) {
+            // delta_chroma_weight_l1[i][j]  se(v)
+            if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+              return nullptr;
+            }
+            pred_weight_table->delta_chroma_weight_l1.back().push_back(
+                sgolomb_tmp);
+
+            // delta_chroma_offset_l1[i][j]  se(v)
+            if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+              return nullptr;
+            }
+            pred_weight_table->delta_chroma_offset_l1.back().push_back(
+                sgolomb_tmp);
+          }
+        }
+      }
+    }
+  }
+
   return pred_weight_table;
 }
 
@@ -193,6 +262,62 @@ void H265PredWeightTableParser::PredWeightTableState::fdump(
     fprintf(outfp, " }");
   }
 
+  if (b_slice) {
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "luma_weight_l1_flag {");
+    for (const uint32_t& v : luma_weight_l1_flag) {
+      fprintf(outfp, " %u", v);
+    }
+    fprintf(outfp, " }");
+
+    if (ChromaArrayType != 0) {
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "chroma_weight_l1_flag {");
+      for (const uint32_t& v : chroma_weight_l1_flag) {
+        fprintf(outfp, " %u", v);
+      }
+      fprintf(outfp, " }");
+    }
+
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "delta_luma_weight_l1 {");
+    for (const int32_t& v : delta_luma_weight_l1) {
+      fprintf(outfp, " %i", v);
+    }
+    fprintf(outfp, " }");
+
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "luma_offset_l1 {");
+    for (const int32_t& v : luma_offset_l1) {
+      fprintf(outfp, " %i", v);
+    }
+    fprintf(outfp, " }");
+
+    if (ChromaArrayType != 0) {
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "delta_chroma_weight_l1 {");
+      for (const std::vector<int32_t>& vv : delta_chroma_weight_l1) {
+        fprintf(outfp, " {");
+        for (const int32_t& v : vv) {
+          fprintf(outfp, " %i", v);
+        }
+        fprintf(outfp, " }");
+      }
+      fprintf(outfp, " }");
+
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "delta_chroma_offset_l1 {");
+      for (const std::vector<int32_t>& vv : delta_chroma_offset_l1) {
+        fprintf(outfp, " {");
+        for (const int32_t& v : vv) {
+          fprintf(outfp, " %i", v);
+        }
+        fprintf(outfp, " }");
+      }
+      fprintf(outfp, " }");
+    }
+  }
+
   indent_level = indent_level_decr(indent_level);
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "}");
diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index a33ecf6..d1f6ec6 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -476,7 +476,9 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         slice_segment_header->pred_weight_table =
             H265PredWeightTableParser::ParsePredWeightTable(
                 bit_buffer, slice_segment_header->ChromaArrayType,
-                slice_segment_header->num_ref_idx_l0_active_minus1);
+                slice_segment_header->num_ref_idx_l0_active_minus1,
+                slice_segment_header->slice_type == SliceType_B,
+                slice_segment_header->num_ref_idx_l1_active_minus1);
         if (slice_segment_header->pred_weight_table == nullptr) {
           return nullptr;
         }
-- 
2.43.0


From efa0893a476f80737371ca24945b73021445120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 15/43] fix: keep the parsing options of bitstreams parsed with
 an external state

---
 src/h265_bitstream_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 7cea4b2..6dbc2bc 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -130,6 +130,7 @@ H265BitstreamParser::ParseBitstream(
     H265BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   // (1) split the input string into a vector of NAL units
   std::vector<NaluIndex> nalu_indices = FindNaluIndices(data, length);
@@ -195,6 +196,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
     H265BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   size_t i = 0;
 
-- 
2.43.0


From ee753b2f92a9e1da53d279eb98a576f6d4c92767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 16/43] fix: report the NAL unit length in length-prefixed
 bitstreams

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 6dbc2bc..bbf923e 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -239,7 +239,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
     }
     // store the offset
     nal_unit->offset = i;
-    nal_unit->length = nalu_length_bytes;
+    nal_unit->length = nalu_length;
 
     bitstream->nal_units.push_back(std::move(nal_unit));
 
-- 
2.43.0


From add9419044f28fff05e287e255c492a3163f978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 17/43] fix: do not overflow when checking a NAL unit length
 prefix

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index bbf923e..e6a004c 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -218,7 +218,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
         break;
       }
       i += nalu_length_bytes;
-      if (nalu_length == 0 || i + nalu_length > length) {
+      if (nalu_length == 0 || nalu_length > length - i) {
         break;
       }
     } else {
-- 
2.43.0


From 46d4ee8234baf57f431c7dfd6fae3daf1880ee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 18/43] fix: parse each NAL unit of an RTP aggregation packet
 within its size

---
 include/h265_rtp_ap_parser.h |  3 ++-
 src/h265_rtp_ap_parser.cc    | 18 ++++++++++++------
 src/h265_rtp_parser.cc       |  5 +++++
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/h265_rtp_ap_parser.h b/include/h265_rtp_ap_parser.h
index b49fdc0..a96f8c5 100644
--- a/include/h265_rtp_ap_parser.h
+++ b/include/h265_rtp_ap_parser.h
@@ -46,7 +46,8 @@ class H265RtpApParser {
         nal_unit_payloads;
   };
 
-  // Unpack RBSP and parse RTP AP state from the supplied buffer.
+  // Parse RTP AP state from the supplied (packed) buffer: the RBSP is unpacked
+  // for each of the NALUs.
   static std::unique_ptr<RtpApState> ParseRtpAp(
       const uint8_t* data, size_t length,
       struct H265BitstreamParserState* bitstream_parser_state) noexcept;
diff --git a/src/h265_rtp_ap_parser.cc b/src/h265_rtp_ap_parser.cc
index b16af27..20c4e9d 100644
--- a/src/h265_rtp_ap_parser.cc
+++ b/src/h265_rtp_ap_parser.cc
@@ -21,12 +21,12 @@ namespace h265nal {
 // You can find it on this page:
 // https://tools.ietf.org/html/rfc7798#section-4.4.2
 
-// Unpack RBSP and parse RTP AP state from the supplied buffer.
+// Parse RTP AP state from the supplied (packed) buffer. The NALU sizes in the
+// packet count packed bytes, so the RBSP is unpacked for each NALU.
 std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     const uint8_t* data, size_t length,
     struct H265BitstreamParserState* bitstream_parser_state) noexcept {
-  std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
-  BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
+  BitBuffer bit_buffer(data, length);
   return ParseRtpAp(&bit_buffer, bitstream_parser_state);
 }
 
@@ -52,14 +52,20 @@ std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
       return nullptr;
     }
     // Validate nalu_size fits in remaining buffer
-    if (nalu_size * 8 > bit_buffer->RemainingBitCount()) {
+    std::vector<uint8_t> packed_nalu(nalu_size);
+    if (!bit_buffer->ReadBytes(nalu_size, packed_nalu.data())) {
       return nullptr;
     }
     rtp_ap->nal_unit_sizes.push_back(nalu_size);
 
+    // Unpack RBSP of this NALU only
+    std::vector<uint8_t> nalu =
+        UnescapeRbsp(packed_nalu.data(), packed_nalu.size());
+    BitBuffer nalu_bit_buffer(nalu.data(), nalu.size());
+
     // NALU header
     rtp_ap->nal_unit_headers.push_back(
-        H265NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer));
+        H265NalUnitHeaderParser::ParseNalUnitHeader(&nalu_bit_buffer));
     if (rtp_ap->nal_unit_headers.back() == nullptr) {
 #ifdef FPRINT_ERRORS
       fprintf(stderr, "error: cannot ParseNalUnitHeader in rtp ap\n");
@@ -70,7 +76,7 @@ std::unique_ptr<H265RtpApParser::RtpApState> H265RtpApParser::ParseRtpAp(
     // NALU payload
     rtp_ap->nal_unit_payloads.push_back(
         H265NalUnitPayloadParser::ParseNalUnitPayload(
-            bit_buffer, rtp_ap->nal_unit_headers.back()->nal_unit_type,
+            &nalu_bit_buffer, rtp_ap->nal_unit_headers.back()->nal_unit_type,
             bitstream_parser_state));
     if (rtp_ap->nal_unit_payloads.back() == nullptr) {
       return nullptr;
diff --git a/src/h265_rtp_parser.cc b/src/h265_rtp_parser.cc
index 4f923af..623cad5 100644
--- a/src/h265_rtp_parser.cc
+++ b/src/h265_rtp_parser.cc
@@ -23,6 +23,11 @@ namespace h265nal {
 std::unique_ptr<H265RtpParser::RtpState> H265RtpParser::ParseRtp(
     const uint8_t* data, size_t length,
     struct H265BitstreamParserState* bitstream_parser_state) noexcept {
+  if (length > 0 && ((data[0] >> 1) & 0x3f) == AP) {
+    // the AP parser unpacks the RBSP of each of the NALUs
+    BitBuffer packed_bit_buffer(data, length);
+    return ParseRtp(&packed_bit_buffer, bitstream_parser_state);
+  }
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParseRtp(&bit_buffer, bitstream_parser_state);
-- 
2.43.0


From 0664f878eb231d7329324c51339cf5cb23783681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 19/43] fix: do not dump an access unit delimiter that was not
 parsed

---
 src/h265_nal_unit_payload_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_nal_unit_payload_parser.cc b/src/h265_nal_unit_payload_parser.cc
index ff5189f..e1b7a73 100644
--- a/src/h265_nal_unit_payload_parser.cc
+++ b/src/h265_nal_unit_payload_parser.cc
@@ -232,7 +232,9 @@ void H265NalUnitPayloadParser::NalUnitPayloadState::fdump(
       }
       break;
     case AUD_NUT:
-      aud->fdump(outfp, indent_level);
+      if (aud) {
+        aud->fdump(outfp, indent_level);
+      }
       break;
     case EOS_NUT:
       // end_of_seq_rbsp()
-- 
2.43.0


From 793c107f50c7743905ab58845d36520aa50b2f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 20/43] fix: use the PPS in force at each slice for its QP

---
 src/h265_utils.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index cf67820..f68c7fb 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -15,6 +15,7 @@
 #include "h265_bitstream_parser.h"
 #include "h265_bitstream_parser_state.h"
 #include "h265_common.h"
+#include "h265_nal_unit_parser.h"
 #ifdef RTP_DEFINE
 #include "h265_rtp_parser.h"
 #endif  // RTP_DEFINE
@@ -114,13 +115,19 @@ std::vector<int32_t> H265Utils::GetSliceQpY(
     H265BitstreamParserState* bitstream_parser_state) noexcept {
   std::vector<int32_t> slice_qp_y_vector;
 
-  // parse the incoming bitstream
+  // parse the incoming bitstream, one NAL unit at a time (a later PPS may
+  // replace the PPS used by a slice)
   ParsingOptions parsing_options;
   parsing_options.add_checksum = false;
-  auto bitstream_state = h265nal::H265BitstreamParser::ParseBitstream(
-      data, length, bitstream_parser_state, parsing_options);
   // get all possible QP values
-  for (auto& nal_unit : bitstream_state->nal_units) {
+  for (const auto& nalu_index :
+       H265BitstreamParser::FindNaluIndices(data, length)) {
+    auto nal_unit = H265NalUnitParser::ParseNalUnit(
+        &data[nalu_index.payload_start_offset], nalu_index.payload_size,
+        bitstream_parser_state, parsing_options);
+    if (nal_unit == nullptr) {
+      continue;
+    }
     uint32_t nal_unit_type = nal_unit->nal_unit_header->nal_unit_type;
     auto& payload = nal_unit->nal_unit_payload;
     // get the slice QP_Y value
-- 
2.43.0


From 8d6b56f371c2b66bca8cf86ed4a56cc92190873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 21/43] fix: do not overflow when adding up a slice QP

---
 src/h265_utils.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index f68c7fb..ebbea40 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -9,6 +9,7 @@
 #include <cstdint>
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -70,9 +71,15 @@ std::unique_ptr<int32_t> GetSliceQpYInternal(
   const auto init_qp_minus26 = pps->init_qp_minus26;
 
   // Equation 7-54, Section 7.4.7.1
-  int32_t slice_qpy = 26 + init_qp_minus26 + slice_qp_delta;
+  int64_t slice_qpy =
+      static_cast<int64_t>(26) + init_qp_minus26 + slice_qp_delta;
+  if (slice_qpy < std::numeric_limits<int32_t>::min() ||
+      slice_qpy > std::numeric_limits<int32_t>::max()) {
+    // invalid value
+    return nullptr;
+  }
 
-  return std::make_unique<int32_t>(slice_qpy);
+  return std::make_unique<int32_t>(static_cast<int32_t>(slice_qpy));
 }
 }  // namespace
 
-- 
2.43.0


From e436230be14191ac7faf72ddd3aaa53e8ff010a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 22/43] fix: report no slice QP for empty RTP aggregation
 packets

---
 src/h265_utils.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index ebbea40..a35ab72 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -96,6 +96,9 @@ std::unique_ptr<int32_t> H265Utils::GetSliceQpY(
     nal_unit_type = header->nal_unit_type;
     payload = &rtp->rtp_single->nal_unit_payload;
   } else if (rtp->nal_unit_header->nal_unit_type == AP) {
+    if (rtp->rtp_ap->nal_unit_headers.empty()) {
+      return nullptr;
+    }
     // use the latest NAL unit in the AP
     size_t index = rtp->rtp_ap->nal_unit_headers.size() - 1;
     auto& header = rtp->rtp_ap->nal_unit_headers[index];
-- 
2.43.0


From 774752ff37c36d6217a9071deca149e28d0a8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 23/43] fix: do not dump configuration box NAL units that were
 not parsed

---
 src/h265_configuration_box_parser.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/h265_configuration_box_parser.cc b/src/h265_configuration_box_parser.cc
index 2031427..fec142c 100644
--- a/src/h265_configuration_box_parser.cc
+++ b/src/h265_configuration_box_parser.cc
@@ -359,8 +359,10 @@ void H265ConfigurationBoxParser::ConfigurationBoxState::fdump(
       fdump_indent_level(outfp, indent_level);
       fprintf(outfp, "nalUnitLength[%i][%i]: %i", j, i, nalUnitLength[j][i]);
 
-      fdump_indent_level(outfp, indent_level);
-      nalUnit[j][i]->fdump(outfp, indent_level, parsing_options);
+      if (nalUnit[j][i] != nullptr) {
+        fdump_indent_level(outfp, indent_level);
+        nalUnit[j][i]->fdump(outfp, indent_level, parsing_options);
+      }
     }
   }
 
-- 
2.43.0


From 5185d578092973faa35c1c62b0eaece1fb589e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 24/43] fix: size pre_lut_target_value from the output bit
 depth

---
 src/h265_sei_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_sei_parser.cc b/src/h265_sei_parser.cc
index 96e36c4..f54d21d 100644
--- a/src/h265_sei_parser.cc
+++ b/src/h265_sei_parser.cc
@@ -539,8 +539,10 @@ H265SeiColourRemappingInfoParser::parse_payload(BitBuffer* bit_buffer,
           // pre_lut_target_value[c][i]  u(v)
           // The number of bits used to represent pre_lut_target_value[c][i]
           // is ((colour_remap_output_bit_depth + 7) >> 3) << 3
+          uint32_t target_bit_depth_used = static_cast<uint32_t>(
+              ((payload_state->colour_remap_output_bit_depth + 7) >> 3) << 3);
           uint32_t target_value;
-          if (!bit_buffer->ReadBits(bit_depth_used, target_value)) {
+          if (!bit_buffer->ReadBits(target_bit_depth_used, target_value)) {
             return nullptr;
           }
           payload_state->pre_lut_target_value[c].push_back(target_value);
-- 
2.43.0


From 101b216f19958e9d167f439aaf00768fc5cf07c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 25/43] fix: do not allocate or parse an SEI payload larger
 than the remaining data

---
 src/h265_sei_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h265_sei_parser.cc b/src/h265_sei_parser.cc
index f54d21d..ae42057 100644
--- a/src/h265_sei_parser.cc
+++ b/src/h265_sei_parser.cc
@@ -63,6 +63,10 @@ H265SeiMessageParser::ParseSei(BitBuffer* bit_buffer) noexcept {
     payload_size += ff_byte;
   }
   sei_message_state->payload_size = payload_size;
+  if (payload_size > bit_buffer->RemainingBitCount() / 8) {
+    // the payload is not complete
+    return sei_message_state;
+  }
 
   // Section D.2.1: General SEI message syntax
   // TODO(chema): move dispatcher to a separate function
-- 
2.43.0


From bf7ce3b62b4563802765a260ee1bc2d66a5cde09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 26/43] fix: report no SEI payload when it needs more than its
 payload size

---
 src/h265_sei_parser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/h265_sei_parser.cc b/src/h265_sei_parser.cc
index ae42057..97e07e4 100644
--- a/src/h265_sei_parser.cc
+++ b/src/h265_sei_parser.cc
@@ -113,8 +113,14 @@ H265SeiMessageParser::ParseSei(BitBuffer* bit_buffer) noexcept {
       break;
   }
 
+  uint64_t payload_bit_count = bit_buffer->RemainingBitCount();
   sei_message_state->payload_state =
       payload_parser->parse_payload(bit_buffer, payload_size);
+  payload_bit_count -= bit_buffer->RemainingBitCount();
+  if (payload_bit_count > static_cast<uint64_t>(payload_size) * 8) {
+    // the payload reaches beyond its size
+    sei_message_state->payload_state = nullptr;
+  }
   return sei_message_state;
 }
 
-- 
2.43.0


From 8643d1c668755d3e6c931e11bc3b962148557b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 27/43] fix: restore the position after a failed Exp-Golomb
 read in NDEBUG builds

---
 src/rtc_common.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index f2e8add..34da4ee 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -258,7 +258,10 @@ bool BitBuffer::ReadExponentialGolomb(uint32_t& val) {
   // read the value.
   size_t value_bit_count = zero_bit_count + 1;
   if (value_bit_count > 32 || !ReadBits(value_bit_count, val)) {
-    RTC_CHECK(Seek(original_byte_offset, original_bit_offset));
+    // do not seek inside RTC_CHECK(), which is compiled out in NDEBUG builds
+    const bool restored = Seek(original_byte_offset, original_bit_offset);
+    RTC_CHECK(restored);
+    (void)restored;
     return false;
   }
   val -= 1;
-- 
2.43.0


From 57fc054d8611698b65898809bc567eaf789a2d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 28/43] fix: report the length of streams with slices that do
 not parse

---
 tools/h265nal.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index d88a4ab..39aa513 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -505,7 +505,11 @@ int main(int argc, char** argv) {
         uint32_t slice_segment_address = 0;
         uint32_t slice_pic_order_cnt_lsb = 0;
         bool is_slice_segment = h265nal::IsSliceSegment(nal_unit_type);
-        if (is_slice_segment) {
+        // the slice header may not be available (e.g. missing PPS)
+        bool has_slice_header =
+            is_slice_segment &&
+            nal_unit->nal_unit_payload->slice_segment_layer != nullptr;
+        if (has_slice_header) {
           first_slice_segment_in_pic_flag =
               nal_unit->nal_unit_payload->slice_segment_layer
                   ->slice_segment_header->first_slice_segment_in_pic_flag;
@@ -515,6 +519,8 @@ int main(int argc, char** argv) {
           slice_pic_order_cnt_lsb =
               nal_unit->nal_unit_payload->slice_segment_layer
                   ->slice_segment_header->slice_pic_order_cnt_lsb;
+        }
+        if (is_slice_segment) {
           if (first_slice_segment_in_pic_flag == 1 && total_bytes > 0) {
             // dump last frame info
             bitrate_bps = total_bytes * 8 *
@@ -531,12 +537,12 @@ int main(int argc, char** argv) {
             outfp, "%zu,%zu,%u,%s,%zu,,%s,%s,%s\n", nal_num, frame_num,
             nal_unit_type, nal_unit_type_str.c_str(), nal_length_bytes,
             opt_value(static_cast<int>(first_slice_segment_in_pic_flag),
-                      is_slice_segment)
+                      has_slice_header)
                 .c_str(),
-            opt_value(static_cast<int>(slice_segment_address), is_slice_segment)
+            opt_value(static_cast<int>(slice_segment_address), has_slice_header)
                 .c_str(),
             opt_value(static_cast<int>(slice_pic_order_cnt_lsb),
-                      is_slice_segment)
+                      has_slice_header)
                 .c_str());
         nal_num += 1;
       }
-- 
2.43.0


From 057a78f8194f32b4e6fa8c8486dec2e6234f48fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 29/43] fix: accept --nalu-length-bytes -1 and reject empty
 numbers

---
 tools/h265nal.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index 39aa513..c89e77a 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -299,7 +299,8 @@ int parse_args(int argc, char** argv, arg_options* options) {
         char* end;
         errno = 0;
         long val = strtol(optarg, &end, 10);
-        if (errno != 0 || *end != '\0' || val < 0 || val > INT_MAX) {
+        if (errno != 0 || end == optarg || *end != '\0' || val < -1 ||
+            val > INT_MAX) {
           fprintf(stderr, "error: invalid nalu_length_bytes: %s\n", optarg);
           return -1;
         }
@@ -310,7 +311,8 @@ int parse_args(int argc, char** argv, arg_options* options) {
         char* end;
         errno = 0;
         long val = strtol(optarg, &end, 10);
-        if (errno != 0 || *end != '\0' || val < 0 || val > INT_MAX) {
+        if (errno != 0 || end == optarg || *end != '\0' || val < 0 ||
+            val > INT_MAX) {
           fprintf(stderr, "error: invalid frames_per_second: %s\n", optarg);
           return -1;
         }
-- 
2.43.0


From ffbefd324c3aa64a4f34e754c4ce8a3bef8014cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 30/43] fix: accept the documented -q option

---
 tools/h265nal.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index c89e77a..5537344 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -197,7 +197,7 @@ int parse_args(int argc, char** argv, arg_options* options) {
       {NULL, 0, NULL, 0}};
 
   // parse arguments
-  while ((c = getopt_long(argc, argv, "di:o:h", longopts, &optindex)) != -1) {
+  while ((c = getopt_long(argc, argv, "dqi:o:h", longopts, &optindex)) != -1) {
     switch (c) {
       case 0:
         // long options that define flag
@@ -215,6 +215,7 @@ int parse_args(int argc, char** argv, arg_options* options) {
         options->debug += 1;
         break;
 
+      case 'q':
       case QUIET_OPTION:
         options->debug = 0;
         break;
-- 
2.43.0


From 485307dd9fbb6e344d8bff9ed151bad4f3b4bd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 31/43] fix: build the tool without FDUMP_DEFINE

---
 tools/h265nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h265nal.cc b/tools/h265nal.cc
index 5537344..395e161 100644
--- a/tools/h265nal.cc
+++ b/tools/h265nal.cc
@@ -560,12 +560,12 @@ int main(int argc, char** argv) {
       }
     }
   }
-#endif  // FDUMP_DEFINE
 
   // clean-up FD
   if (must_close_fp) {
     fclose(outfp);
   }
+#endif  // FDUMP_DEFINE
 
   return 0;
 }
-- 
2.43.0


From df9a7b14b1a8a7ccd5690514853a1ddce3d93f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 32/43] fix: dump the sub-layer HRD parameters once

---
 src/h265_hrd_parameters_parser.cc | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 9c0e9a1..278cac9 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -308,22 +308,8 @@ void H265HrdParametersParser::HrdParametersState::fdump(
   }
   fprintf(outfp, " }");
 
-  if (nal_hrd_parameters_present_flag) {
-    // sublayer_hrd_parameters()
-    fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "sub_layer_hrd_parameters_vector {");
-    indent_level = indent_level_incr(indent_level);
-    for (auto& v : sub_layer_hrd_parameters_vector) {
-      fdump_indent_level(outfp, indent_level);
-      v->fdump(outfp, indent_level);
-    }
-    indent_level = indent_level_decr(indent_level);
-    fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "}");
-  }
-
-  if (vcl_hrd_parameters_present_flag) {
-    // sublayer_hrd_parameters()
+  if (nal_hrd_parameters_present_flag || vcl_hrd_parameters_present_flag) {
+    // sublayer_hrd_parameters(), both NAL and VCL
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "sub_layer_hrd_parameters_vector {");
     indent_level = indent_level_incr(indent_level);
-- 
2.43.0


From 27240c1bf2d5ad240386d78fcfa6020f47dcde07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 33/43] fix: dump 32-bit unsigned timing and HRD values as
 unsigned

---
 src/h265_slice_parser.cc                    | 2 +-
 src/h265_sub_layer_hrd_parameters_parser.cc | 8 ++++----
 src/h265_vps_parser.cc                      | 6 +++---
 src/h265_vui_parameters_parser.cc           | 6 +++---
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index d1f6ec6..1bd6c9d 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -984,7 +984,7 @@ void H265SliceSegmentHeaderParser::SliceSegmentHeaderState::fdump(
       fdump_indent_level(outfp, indent_level);
       fprintf(outfp, "entry_point_offset_minus1 {");
       for (const uint32_t& v : entry_point_offset_minus1) {
-        fprintf(outfp, " %i", v);
+        fprintf(outfp, " %u", v);
       }
       fprintf(outfp, " }");
     }
diff --git a/src/h265_sub_layer_hrd_parameters_parser.cc b/src/h265_sub_layer_hrd_parameters_parser.cc
index bd87f85..c004a7b 100644
--- a/src/h265_sub_layer_hrd_parameters_parser.cc
+++ b/src/h265_sub_layer_hrd_parameters_parser.cc
@@ -98,28 +98,28 @@ void H265SubLayerHrdParametersParser::SubLayerHrdParametersState::fdump(
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_value_minus1 {");
   for (const uint32_t& v : bit_rate_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "cpb_size_value_minus1 {");
   for (const uint32_t& v : cpb_size_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "cpb_size_du_value_minus1 {");
   for (const uint32_t& v : cpb_size_du_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_du_value_minus1 {");
   for (const uint32_t& v : bit_rate_du_value_minus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index b26abce..2ed4fbc 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -341,17 +341,17 @@ void H265VpsParser::VpsState::fdump(FILE* outfp, int indent_level) const {
           vps_timing_info_present_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_num_units_in_tick: %i", vps_num_units_in_tick);
+  fprintf(outfp, "vps_num_units_in_tick: %u", vps_num_units_in_tick);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_time_scale: %i", vps_time_scale);
+  fprintf(outfp, "vps_time_scale: %u", vps_time_scale);
 
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "vps_poc_proportional_to_timing_flag: %i",
           vps_poc_proportional_to_timing_flag);
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "vps_num_ticks_poc_diff_one_minus1: %i",
+  fprintf(outfp, "vps_num_ticks_poc_diff_one_minus1: %u",
           vps_num_ticks_poc_diff_one_minus1);
 
   fdump_indent_level(outfp, indent_level);
diff --git a/src/h265_vui_parameters_parser.cc b/src/h265_vui_parameters_parser.cc
index 031bf46..9070d04 100644
--- a/src/h265_vui_parameters_parser.cc
+++ b/src/h265_vui_parameters_parser.cc
@@ -517,10 +517,10 @@ void H265VuiParametersParser::VuiParametersState::fdump(
 
   if (vui_timing_info_present_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "vui_num_units_in_tick: %i", vui_num_units_in_tick);
+    fprintf(outfp, "vui_num_units_in_tick: %u", vui_num_units_in_tick);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "vui_time_scale: %i", vui_time_scale);
+    fprintf(outfp, "vui_time_scale: %u", vui_time_scale);
 
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "vui_poc_proportional_to_timing_flag: %i",
@@ -528,7 +528,7 @@ void H265VuiParametersParser::VuiParametersState::fdump(
 
     if (vui_poc_proportional_to_timing_flag) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "vui_num_ticks_poc_diff_one_minus1: %i",
+      fprintf(outfp, "vui_num_ticks_poc_diff_one_minus1: %u",
               vui_num_ticks_poc_diff_one_minus1);
     }
 
-- 
2.43.0


From f24a7d12c6fce8bc5850d9387e6f9edf417ee9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 34/43] fix: infer VPS cprms_present_flag[0] as 1

---
 src/h265_vps_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index 2ed4fbc..7eb7d23 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -230,7 +230,8 @@ std::shared_ptr<H265VpsParser::VpsState> H265VpsParser::ParseVps(
         }
         vps->cprms_present_flag.push_back(bits_tmp);
       } else {
-        vps->cprms_present_flag.push_back(0);
+        // cprms_present_flag[0] is inferred to be equal to 1
+        vps->cprms_present_flag.push_back(1);
       }
 
       // hrd_parameters(cprms_present_flag[i], vps_max_sub_layers_minus1)
-- 
2.43.0


From 73f7989ec8f3f6f9d59b160aed7835000c0d8564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 35/43] fix: derive absent common HRD parameters of a VPS from
 the previous ones

---
 include/h265_hrd_parameters_parser.h |  3 ++-
 src/h265_hrd_parameters_parser.cc    | 30 +++++++++++++++++++++++++++-
 src/h265_vps_parser.cc               |  2 +-
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/include/h265_hrd_parameters_parser.h b/include/h265_hrd_parameters_parser.h
index 13f61e5..11ce793 100644
--- a/include/h265_hrd_parameters_parser.h
+++ b/include/h265_hrd_parameters_parser.h
@@ -66,7 +66,8 @@ class H265HrdParametersParser {
       uint32_t maxNumSubLayersMinus1) noexcept;
   static std::unique_ptr<HrdParametersState> ParseHrdParameters(
       BitBuffer* bit_buffer, uint32_t commonInfPresentFlag,
-      uint32_t maxNumSubLayersMinus1) noexcept;
+      uint32_t maxNumSubLayersMinus1,
+      const HrdParametersState* previous_hrd_parameters = nullptr) noexcept;
 };
 
 }  // namespace h265nal
diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 278cac9..a88aec2 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -33,7 +33,8 @@ H265HrdParametersParser::ParseHrdParameters(
 std::unique_ptr<H265HrdParametersParser::HrdParametersState>
 H265HrdParametersParser::ParseHrdParameters(
     BitBuffer* bit_buffer, uint32_t commonInfPresentFlag,
-    uint32_t maxNumSubLayersMinus1) noexcept {
+    uint32_t maxNumSubLayersMinus1,
+    const HrdParametersState* previous_hrd_parameters) noexcept {
   uint32_t bits_tmp;
   uint32_t golomb_tmp;
 
@@ -128,6 +129,33 @@ H265HrdParametersParser::ParseHrdParameters(
         return nullptr;
       }
     }
+  } else if (previous_hrd_parameters != nullptr) {
+    // Section 7.4.3.1: the common parameters are derived to be the same as
+    // those of the previous hrd_parameters() structure
+    hrd_parameters->nal_hrd_parameters_present_flag =
+        previous_hrd_parameters->nal_hrd_parameters_present_flag;
+    hrd_parameters->vcl_hrd_parameters_present_flag =
+        previous_hrd_parameters->vcl_hrd_parameters_present_flag;
+    hrd_parameters->sub_pic_hrd_params_present_flag =
+        previous_hrd_parameters->sub_pic_hrd_params_present_flag;
+    hrd_parameters->tick_divisor_minus2 =
+        previous_hrd_parameters->tick_divisor_minus2;
+    hrd_parameters->du_cpb_removal_delay_increment_length_minus1 =
+        previous_hrd_parameters->du_cpb_removal_delay_increment_length_minus1;
+    hrd_parameters->sub_pic_cpb_params_in_pic_timing_sei_flag =
+        previous_hrd_parameters->sub_pic_cpb_params_in_pic_timing_sei_flag;
+    hrd_parameters->dpb_output_delay_du_length_minus1 =
+        previous_hrd_parameters->dpb_output_delay_du_length_minus1;
+    hrd_parameters->bit_rate_scale = previous_hrd_parameters->bit_rate_scale;
+    hrd_parameters->cpb_size_scale = previous_hrd_parameters->cpb_size_scale;
+    hrd_parameters->cpb_size_du_scale =
+        previous_hrd_parameters->cpb_size_du_scale;
+    hrd_parameters->initial_cpb_removal_delay_length_minus1 =
+        previous_hrd_parameters->initial_cpb_removal_delay_length_minus1;
+    hrd_parameters->au_cpb_removal_delay_length_minus1 =
+        previous_hrd_parameters->au_cpb_removal_delay_length_minus1;
+    hrd_parameters->dpb_output_delay_length_minus1 =
+        previous_hrd_parameters->dpb_output_delay_length_minus1;
   }
 
   for (uint32_t i = 0; i <= maxNumSubLayersMinus1; i++) {
diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index 7eb7d23..09c9bf1 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -237,7 +237,7 @@ std::shared_ptr<H265VpsParser::VpsState> H265VpsParser::ParseVps(
       // hrd_parameters(cprms_present_flag[i], vps_max_sub_layers_minus1)
       vps->hrd_parameters = H265HrdParametersParser::ParseHrdParameters(
           bit_buffer, vps->cprms_present_flag[i],
-          vps->vps_max_sub_layers_minus1);
+          vps->vps_max_sub_layers_minus1, vps->hrd_parameters.get());
       if (vps->hrd_parameters == nullptr) {
         return nullptr;
       }
-- 
2.43.0


From 77e00834c9fb3eefcedd78bab732dd904b071fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 36/43] fix: name the high throughput profile

---
 src/h265_common.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h265_common.cc b/src/h265_common.cc
index 2a2a3e4..3301d57 100644
--- a/src/h265_common.cc
+++ b/src/h265_common.cc
@@ -311,6 +311,10 @@ void profileTypeToString(enum ProfileType profile, std::string& str) {
       str = "FRExt";
       break;
 
+    case HIGH_THROUGHPUT:
+      str = "High Throughput";
+      break;
+
     case MULTIVIEW_MAIN:
       str = "Multiview Main";
       break;
-- 
2.43.0


From 044e825831867f5fdf52f196a5c4c053feae8704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 37/43] fix: name of the 4:4:4 10-bit still picture profile

---
 src/h265_common.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_common.cc b/src/h265_common.cc
index 3301d57..09199b3 100644
--- a/src/h265_common.cc
+++ b/src/h265_common.cc
@@ -503,7 +503,7 @@ void profileTypeToString(enum ProfileType profile, std::string& str) {
       break;
 
     case MAIN_444_10_STILL_PICTURE:
-      str = "Main (8-bit) 4:4:4 Still Picture";
+      str = "Main 4:4:4 10 Still Picture";
       break;
 
     default:
-- 
2.43.0


From f951751f74a15118817be433c294d3ab1b931373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 38/43] fix: non-symmetric codes of 2^31 values shifted by 32
 bits

---
 src/rtc_common.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 34da4ee..588a9ef 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -217,7 +217,9 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
   RTC_DCHECK_GT(num_values, 0);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  // 64 bits: count_bits is 32 when num_values is 2^31
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   if (!ReadBits(count_bits - 1, val)) {
     return false;
@@ -364,7 +366,9 @@ bool BitBufferWriter::WriteNonSymmetric(uint32_t val, uint32_t num_values) {
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  // 64 bits: count_bits is 32 when num_values is 2^31
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values
              ? WriteBits(val, count_bits - 1)
@@ -376,7 +380,9 @@ size_t BitBufferWriter::SizeNonSymmetricBits(uint32_t val,
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  // 64 bits: count_bits is 32 when num_values is 2^31
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values ? (count_bits - 1) : count_bits;
 }
-- 
2.43.0


From 04f5258694e2be91a6c0d1bd687e8da4ea86d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 39/43] fix: dumping the checksum of a NAL unit parsed without
 one

---
 src/h265_nal_unit_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h265_nal_unit_parser.cc b/src/h265_nal_unit_parser.cc
index c6f35bf..7a3a805 100644
--- a/src/h265_nal_unit_parser.cc
+++ b/src/h265_nal_unit_parser.cc
@@ -107,8 +107,8 @@ void H265NalUnitParser::NalUnitState::fdump(
     fprintf(outfp, "parsed_length: %zu", parsed_length);
   }
 
-  // nal unit checksum
-  if (parsing_options.add_checksum) {
+  // nal unit checksum (only there if the NAL unit was parsed with it)
+  if (parsing_options.add_checksum && checksum != nullptr) {
     fdump_indent_level(outfp, indent_level);
     char checksum_printable[64] = {};
     checksum->fdump(checksum_printable, 64);
-- 
2.43.0


From af9d202e11628fcf92e71cbe49be24063388a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 40/43] fix: missing separator between the header and the
 payload in RTP dumps

---
 src/h265_rtp_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_rtp_parser.cc b/src/h265_rtp_parser.cc
index 623cad5..47ea6cf 100644
--- a/src/h265_rtp_parser.cc
+++ b/src/h265_rtp_parser.cc
@@ -89,12 +89,15 @@ void H265RtpParser::RtpState::fdump(FILE* outfp, int indent_level,
 
   if (nal_unit_header->nal_unit_type <= 47) {
     // rtp_single()
+    fdump_indent_level(outfp, indent_level);
     rtp_single->fdump(outfp, indent_level, parsing_options);
   } else if (nal_unit_header->nal_unit_type == AP) {
     // rtp_ap()
+    fdump_indent_level(outfp, indent_level);
     rtp_ap->fdump(outfp, indent_level, parsing_options);
   } else if (nal_unit_header->nal_unit_type == FU) {
     // rtp_fu()
+    fdump_indent_level(outfp, indent_level);
     rtp_fu->fdump(outfp, indent_level, parsing_options);
   }
 
-- 
2.43.0


From 9a71c922148d792196b7a3caf6b9d7dfe92357b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 41/43] fix: dump max_latency_increase_plus1 as the unsigned
 value it is

---
 src/h265_sps_parser.cc | 2 +-
 src/h265_vps_parser.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index abe707d..d9f7bed 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -674,7 +674,7 @@ void H265SpsParser::SpsState::fdump(FILE* outfp, int indent_level,
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "sps_max_latency_increase_plus1 {");
   for (const uint32_t& v : sps_max_latency_increase_plus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index 09c9bf1..f16c67a 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -316,7 +316,7 @@ void H265VpsParser::VpsState::fdump(FILE* outfp, int indent_level) const {
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "vps_max_latency_increase_plus1 {");
   for (const uint32_t& v : vps_max_latency_increase_plus1) {
-    fprintf(outfp, " %i", v);
+    fprintf(outfp, " %u", v);
   }
   fprintf(outfp, " }");
 
-- 
2.43.0


From 928caf57bc62639f53181dd44612d2574fdef0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 42/43] fix: PPS dump repeated cu_qp_delta_enabled_flag instead
 of diff_cu_qp_delta_depth

---
 src/h265_pps_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index 6ab8815..e5c534f 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -393,7 +393,7 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
 
   if (cu_qp_delta_enabled_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "cu_qp_delta_enabled_flag: %i", cu_qp_delta_enabled_flag);
+    fprintf(outfp, "diff_cu_qp_delta_depth: %i", diff_cu_qp_delta_depth);
   }
 
   fdump_indent_level(outfp, indent_level);
-- 
2.43.0


From d8e9110f2defeb3a46c4cabcbf20a44223db6e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 43/43] fix: refuse a directory as input instead of aborting

---
 src/h265_utils.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index a35ab72..9fe3080 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -173,6 +173,13 @@ int H265Utils::ReadFile(const char* filename, std::vector<uint8_t>& buffer) {
     return -1;
   }
   fseek(infp, 0, SEEK_SET);
+  // a directory can be opened, but not read, and has no usable size
+  if (fgetc(infp) == EOF) {
+    fprintf(stderr, "Could not read input file: \"%s\"\n", filename);
+    fclose(infp);
+    return -1;
+  }
+  fseek(infp, 0, SEEK_SET);
   // read file into buffer
   buffer.resize(static_cast<size_t>(size));
   size_t bytes_read = fread(reinterpret_cast<char*>(buffer.data()), 1,
-- 
2.43.0

