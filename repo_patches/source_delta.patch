From 78613d02e8e58db758bd806ad2eeeb60e97359e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 01/97] fix: report one consumed byte when side-information or
 binaural set-up fails

ia_mpegh_dec_init returned an error with i_bytes_consumed 0, so a caller that
advances by the consumed bytes presented the same input forever.
---
 decoder/impeghd_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 6414ca8..f0fa046 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -628,6 +628,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
                                        &pstr_audio_specific_config->str_mae_asi);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
+      pstr_output_config->i_bytes_consumed = 1;
       return err_code;
     }
   }
@@ -828,6 +829,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
                                               &pstr_dec_data->binaural_handle);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
+      pstr_output_config->i_bytes_consumed = 1;
       return err_code;
     }
 
-- 
2.43.0


From 9016de95e659568749ad358ec70e5caf26d86679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 02/97] fix: never report more consumed bytes than were
 presented

Error paths derive i_bytes_consumed from a packet length field or from the bit
buffer of an earlier call; both can exceed the bytes of the current call, and
callers advance their read position by it.
---
 decoder/impeghd_api.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index f0fa046..e3769a9 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -842,6 +842,10 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   {
     pstr_output_config->i_bytes_consumed = 1;
   }
+  if (pstr_output_config->i_bytes_consumed > (WORD32)pstr_input_config->num_inp_bytes)
+  {
+    pstr_output_config->i_bytes_consumed = pstr_input_config->num_inp_bytes;
+  }
 
   pstr_output_config->ui_init_done =
       (p_obj_mpegh_dec->p_state_mpeghd->ui_init_done == 1) && (err_code == 0) ? 1 : 0;
@@ -1057,6 +1061,10 @@ IA_ERRORCODE ia_mpegh_dec_execute(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOI
     pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
   }
   pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
+  if (pstr_output_config->i_bytes_consumed > (WORD32)pstr_input_config->num_inp_bytes)
+  {
+    pstr_output_config->i_bytes_consumed = pstr_input_config->num_inp_bytes;
+  }
 
   ptr_audio_specific_config = ((ia_audio_specific_config_struct *)
                                    p_obj_mpegh_dec->p_state_mpeghd->ia_audio_specific_config);
-- 
2.43.0


From b59a5e189bdd098522b2d488696f2df6c12ac078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 03/97] fix: keep the resampler's delay-line index inside the
 delay line

The index ran to the frame length; the element was not read once the history
is used up, but the address itself was outside the array.
---
 decoder/impeghd_resampler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_resampler.c b/decoder/impeghd_resampler.c
index a024d67..2aaebaf 100644
--- a/decoder/impeghd_resampler.c
+++ b/decoder/impeghd_resampler.c
@@ -116,7 +116,7 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
   for (idx1 = 0; idx1 < (pstr_resampler->input_length); idx1++)
   {
     const FLOAT32 *ptr_filt_coef = ptr_resamp_filt_tbl;
-    ptr_delay = &pstr_resampler->delay_samples_upsamp[idx1];
+    ptr_delay = &pstr_resampler->delay_samples_upsamp[ia_min_int(idx1, RESAMPLE_DELAY - 1)];
     ia_core_coder_memset(poly_filt_outputs, RESAMPLE_MAX_RATIO);
 
     for (idx2 = 0; (idx1 + idx2) < (RESAMPLE_DELAY / fac_up); idx2++)
@@ -175,7 +175,7 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
       const FLOAT32 *ptr_filt_coef = &impeghd_resampler_filter[0];
 
       mac = 0;
-      ptr_delay = &pstr_resampler->delay_samples[idx1];
+      ptr_delay = &pstr_resampler->delay_samples[ia_min_int(idx1, RESAMPLE_DELAY - 1)];
       for (idx2 = 0; idx1 + idx2 < RESAMPLE_DELAY; idx2++)
       {
         mac += ia_mul_flt(*ptr_delay, *ptr_filt_coef);
-- 
2.43.0


From 9b494d938e30a29ca99a97ddc22481aad5d1b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 04/97] fix: bound the loudspeaker count of the local set-up
 information

The 16-bit count indexed arrays of MAX_NUM_CHANNELS entries.
---
 decoder/impeghd_ele_interaction_intrfc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index d376745..bd6072f 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -106,6 +106,10 @@ static IA_ERRORCODE impeghd_loud_spk_ren(ia_bit_buf_struct *ptr_bit_buf,
   UWORD32 ld_spk;
   UWORD32 num_loudspk = 0, has_loud_spk_dist = 0, has_loud_spk_calibration_gain = 0;
   num_loudspk = ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
+  if (num_loudspk > MAX_NUM_CHANNELS)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED;
+  }
   impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
   has_loud_spk_dist = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   has_loud_spk_calibration_gain = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
@@ -566,7 +570,11 @@ IA_ERRORCODE impeghd_3da_local_setup_information(ia_bit_buf_struct *ptr_bit_buf,
     }
     break;
   case 0:
-    impeghd_loud_spk_ren(ptr_bit_buf, pstr_local_setup_data);
+    err_code = impeghd_loud_spk_ren(ptr_bit_buf, pstr_local_setup_data);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      return err_code;
+    }
     impeghd_loud_spk_inv_quant(pstr_local_setup_data);
     break;
   }
-- 
2.43.0


From 21cb73699f299a74ecbaeb374f1776e0faa66e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 05/97] fix: look for the requested preset among the scene's
 presets

The search ran over the number of groups, beyond the preset table, and missed
presets when there are fewer groups than presets.
---
 decoder/impeghd_ele_interaction_intrfc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index bd6072f..583c271 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -420,7 +420,7 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
     ptr_ele_intrctn->ei_group_preset_id = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 5);
     if (str_mae_asi->asi_present)
     {
-      for (WORD32 grp = 0; grp < str_mae_asi->num_groups; grp++)
+      for (WORD32 grp = 0; grp < str_mae_asi->num_group_presets; grp++)
       {
         if (str_mae_asi->group_presets_definition[grp].group_id ==
             ptr_ele_intrctn->ei_group_preset_id)
-- 
2.43.0


From 552b0d4188ed043c20c3a191d4df2e91bd52099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 06/97] fix: check every group of an element interaction
 request

The group-id check passed for all groups after the first valid one, and its
result was dropped by the caller.
---
 decoder/impeghd_ele_interaction_intrfc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index 583c271..a522d29 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -311,6 +311,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
   WORD32 num_grps = ptr_ele_intrctn->ei_num_groups;
   for (WORD32 grp = 0; grp < num_grps; grp++)
   {
+    valid_id = 0;
     ptr_ele_intrctn->ei_grp_id[grp] = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 7);
     if (str_mae_asi->asi_present)
     {
@@ -437,7 +438,12 @@ static IA_ERRORCODE impeghd_ele_interaction_data(ia_bit_buf_struct *ptr_bit_buf,
     }
   }
 
-  impeghd_ei_grp_intrctvty_status(ptr_bit_buf, ptr_ele_intrctn, str_mae_asi);
+  IA_ERRORCODE err_code =
+      impeghd_ei_grp_intrctvty_status(ptr_bit_buf, ptr_ele_intrctn, str_mae_asi);
+  if (err_code != IA_MPEGH_DEC_NO_ERROR)
+  {
+    return err_code;
+  }
   ptr_ele_intrctn->ei_data_present = 1;
   return IA_MPEGH_DEC_NO_ERROR;
 }
-- 
2.43.0


From ac8cc64662ba8de433df30d662f75c99d12c433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 07/97] fix: do not keep a rejected element count

The count stayed in the configuration after the error and later indexed the
element tables.
---
 decoder/ia_core_coder_init_config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index c32dbc1..3cb157b 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -574,6 +574,7 @@ static IA_ERRORCODE ia_core_coder_decoder_config(ia_bit_buf_struct *it_bit_buff,
 
   if (pstr_usac_decoder_config->num_elements > MAX_ELEMENTS_USAC)
   {
+    pstr_usac_decoder_config->num_elements = 0;
     return IA_MPEGH_DEC_EXE_FATAL_DECODE_FRAME_ERROR;
   }
 
-- 
2.43.0


From 3c3ab41278bb2e051571b20fc2e5bf4a1a35e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 08/97] fix: stop at the declared number of flexible
 loudspeakers

A symmetric pair announced for the last loudspeaker was written behind the
table.
---
 decoder/ia_core_coder_init_config.c | 30 ++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 3cb157b..c5b4c47 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1206,6 +1206,10 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
       if (pstr_flex_spk_data->also_add_symetric_pair)
       {
         i++;
+        if (i >= num_spk)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED;
+        }
         pstr_flex_spk_data->str_flex_spk_descr[i] = pstr_flex_spk_data->str_flex_spk_descr[i - 1];
         pstr_flex_spk_data->str_flex_spk_descr[i].az_direction =
             1 - pstr_flex_spk_data->str_flex_spk_descr[i].az_direction;
@@ -1309,9 +1313,13 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
     }
     if (pstr_audio_specific_config->ref_spk_layout.spk_layout_type == 2)
     {
-      impeghd_flexispk_config(it_bit_buff,
-                              &pstr_audio_specific_config->ref_spk_layout.str_flex_spk,
-                              pstr_audio_specific_config->ref_spk_layout.num_speakers);
+      err = impeghd_flexispk_config(it_bit_buff,
+                                    &pstr_audio_specific_config->ref_spk_layout.str_flex_spk,
+                                    pstr_audio_specific_config->ref_spk_layout.num_speakers);
+      if (err != IA_MPEGH_DEC_NO_ERROR)
+      {
+        return err;
+      }
       pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx =
           pstr_audio_specific_config->ref_spk_layout.num_speakers;
       if (pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx <= 0 ||
@@ -1439,8 +1447,12 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
           {
           case 2:
           {
-            impeghd_flexispk_config(it_bit_buff, &(speaker_config_3d->str_flex_spk),
-                                    speaker_config_3d->num_speakers);
+            err = impeghd_flexispk_config(it_bit_buff, &(speaker_config_3d->str_flex_spk),
+                                          speaker_config_3d->num_speakers);
+            if (err != IA_MPEGH_DEC_NO_ERROR)
+            {
+              return err;
+            }
             break;
           }
           case 1:
@@ -1752,8 +1764,12 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
     {
     case 2:
     {
-      impeghd_flexispk_config(buf_handle, &(spk_config_3d->str_flex_spk_data),
-                              spk_config_3d->num_speakers);
+      IA_ERRORCODE err = impeghd_flexispk_config(
+          buf_handle, &(spk_config_3d->str_flex_spk_data), spk_config_3d->num_speakers);
+      if (err != IA_MPEGH_DEC_NO_ERROR)
+      {
+        return err;
+      }
       break;
     }
     case 1:
-- 
2.43.0


From ad9c6cec7a3308eead38fa02b253c99d395f18ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 09/97] fix: refuse too many signals before parsing the decoder
 configuration

Only single groups were bounded; the sums over several groups index per-signal
tables while the extensions are parsed.
---
 decoder/ia_core_coder_init_config.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index c5b4c47..d4e1979 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1535,6 +1535,10 @@ IA_ERRORCODE ia_core_coder_mpegh_3da_config(ia_bit_buf_struct *it_bit_buff,
 
   dec_proc_core_chans = ia_signals_3da->num_hoa_transport_ch + ia_signals_3da->num_audio_obj +
                         ia_signals_3da->num_ch;
+  if (dec_proc_core_chans < 0 || dec_proc_core_chans > MAX_NUM_CHANNELS)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_STREAM_CHAN_GT_MAX;
+  }
   if (pstr_audio_specific_config->ref_spk_layout.spk_layout_type == 0)
   {
     ref_layout_chans =
-- 
2.43.0


From b88aa749332cb128f2b34069586ce484bf0f2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 10/97] fix: refuse configuration packets longer than the
 stored copy

prev_cfg_data holds MAX_CFG_DATA_LENGTH bytes; the packet length is not
bounded by it.
---
 decoder/ia_core_coder_decode_main.c  | 4 ++++
 decoder/ia_core_coder_headerdecode.c | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 137f834..c35f621 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2505,6 +2505,10 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
       {
         WORD32 bytes_consumed;
         WORD32 flush = 0;
+        if (pac_info.packet_length > MAX_CFG_DATA_LENGTH)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
+        }
         if (mpegh_dec_handle->prev_cfg_len)
         {
           WORD32 i = 0;
diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index c34b318..0539224 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -184,6 +184,11 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
         return IA_MPEGH_DEC_INIT_FATAL_3DACONFIG_DATA_NOT_FOUND;
       }
     }
+    if (info.packet_length > MAX_CFG_DATA_LENGTH)
+    {
+      p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
+      return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
+    }
     {
       bit_offset = handle_bit_buff->cnt_bits;
       if (mpeghd_state_struct->prev_cfg_len == 0)
-- 
2.43.0


From 16b1d4dc5d4b2fb78998d86ee9bf4f92bb402483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 11/97] fix: pass the whole input length to the header bit
 buffer

The length was cut to 16 bits, so the end of the buffer was wrong for inputs of
32 KiB and more.
---
 decoder/ia_core_coder_headerdecode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index 0539224..7066295 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -162,7 +162,7 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
   header_len = mpeghd_state_struct->ui_in_bytes;
 
   handle_bit_buff =
-      ia_core_coder_create_bit_buf(&it_bit_buff, (UWORD8 *)buffer, (WORD16)header_len);
+      ia_core_coder_create_bit_buf(&it_bit_buff, (UWORD8 *)buffer, header_len);
   handle_bit_buff->cnt_bits += (header_len << 3);
   handle_bit_buff->xmpeghd_jmp_buf = mpeghd_state_struct->xmpeghd_jmp_buf;
   if (1 == is_ga_header)
-- 
2.43.0


From 4c7e41521c208aa00c8ecd373c191b5efff23756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 12/97] fix: ignore a TCX noise-shaping filter whose start band
 was rejected

read_tns_tcx() leaves the rejected start band in the persistent filter, and
concealment then indexed sfb_idx_tbl[] with a negative number.
---
 decoder/ia_core_coder_tcx_fwd_alcnx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_tcx_fwd_alcnx.c b/decoder/ia_core_coder_tcx_fwd_alcnx.c
index 8865073..a107160 100644
--- a/decoder/ia_core_coder_tcx_fwd_alcnx.c
+++ b/decoder/ia_core_coder_tcx_fwd_alcnx.c
@@ -472,7 +472,8 @@ static VOID ia_core_coder_tns_dec_lpd(ia_sfb_info_struct *sfb_info,
   WORD32 filter_stop;
   WORD32 filter_size;
 
-  if (!tns->n_filt || (tns_filter->stop_band > 15) || (tns_filter->order <= 0))
+  if (!tns->n_filt || (tns_filter->stop_band > 15) || (tns_filter->start_band <= 0) ||
+      (tns_filter->order <= 0))
   {
     return;
   }
-- 
2.43.0


From 84a562fcaae691500a3612f9825e08a5e27a189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 13/97] fix: bound the binaural filter length and diffuse block
 count

Both are read from the filter data and index fixed-size tap arrays.
---
 decoder/impeghd_binaural.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/impeghd_binaural.c b/decoder/impeghd_binaural.c
index 17b4d5a..a7ddf30 100644
--- a/decoder/impeghd_binaural.c
+++ b/decoder/impeghd_binaural.c
@@ -179,6 +179,11 @@ impeghd_binaural_read_td_data(ia_bit_buf_struct *ptr_bit_buf,
   {
     return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_CHANNELS;
   }
+  if ((pstr_binaural_td_data->len_direct > MAX_LENGTH_DIRECT_FILTER) ||
+      (pstr_binaural_td_data->num_diffuse_block > MAX_NUM_DIFFUSE_BLOCKS))
+  {
+    return IA_MPEGH_BINAURAL_EXE_FATAL_UNSUPPORTED_FILTER_LENGTH;
+  }
 
   for (pair = 0; pair < pstr_binaural_rep->brir_pairs; pair++)
   {
-- 
2.43.0


From 9cd8e42c4aa64f80da151db35455513499dd3a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 14/97] fix: make room for the current block in the binaural
 history

write_idx runs from 0 to diffuse_blocks inclusive.
---
 decoder/impeghd_binaural_renderer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_binaural_renderer.h b/decoder/impeghd_binaural_renderer.h
index affddd1..39b5aba 100644
--- a/decoder/impeghd_binaural_renderer.h
+++ b/decoder/impeghd_binaural_renderer.h
@@ -71,7 +71,7 @@ typedef struct
   FLOAT32 input_mem_buf[MAX_NUM_BRIR_CHANNELS][BINAURAL_FFT_MAXLEN];
   FLOAT32 output_mem_buf[BINAURAL_NB_OUTPUT][BINAURAL_FFT_MAXLEN];
   FLOAT32 taps_diffuse[MAX_NUM_DIFFUSE_BLOCKS][BINAURAL_NB_OUTPUT][BINAURAL_FFT_MAXLEN];
-  FLOAT32 prev_in_buf[MAX_NUM_DIFFUSE_BLOCKS][BINAURAL_FFT_MAXLEN];
+  FLOAT32 prev_in_buf[MAX_NUM_DIFFUSE_BLOCKS + 1][BINAURAL_FFT_MAXLEN];
   FLOAT32 diffuse_weight[MAX_NUM_BRIR_CHANNELS];
 } ia_binaural_ren_pers_mem_str;
 
-- 
2.43.0


From 15bcfeced5221370f21b3b9ae8fc40671ad574d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 15/97] fix: look single loudspeakers up in the loudspeaker
 table

The set-up parsers passed a loudspeaker index where a layout index is wanted,
which wrote a whole layout past the end of a local array.
---
 decoder/ia_core_coder_init_config.c | 56 +++++++++++++++--------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index d4e1979..2b7052c 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1786,8 +1786,14 @@ IA_ERRORCODE impeghd_speaker_config_3d(VOID *buf_handle,
     }
     }
   }
-  impeghd_get_geom_frm_spk_cfg(spk_config_3d, &spk_config_3d->geometry[0],
-                               &(spk_config_3d->num_ch), &(spk_config_3d->num_lfes));
+  IA_ERRORCODE err_geom =
+      impeghd_get_geom_frm_spk_cfg(spk_config_3d, &spk_config_3d->geometry[0],
+                                   &(spk_config_3d->num_ch), &(spk_config_3d->num_lfes));
+  if (err_geom != IA_MPEGH_DEC_NO_ERROR)
+  {
+    spk_config_3d->num_speakers = 0;
+    return err_geom;
+  }
 
   spk_config_3d->num_speakers = spk_config_3d->num_ch + spk_config_3d->num_lfes;
 
@@ -1922,8 +1928,7 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
                                           WORD32 *num_lfes)
 {
   UWORD32 i;
-  ia_cicp_ls_geo_str *ptr_cicp_ls_geometry[CICP_MAX_NUM_LS];
-  WORD32 in_num_channels, in_num_lfes;
+  const ia_cicp_ls_geo_str *ptr_cicp_ls_geometry;
   if (speaker_config_3d->spk_layout_type == 0)
   {
     impeghd_fill_ls_geom_frm_cicp_spk_idx(speaker_config_3d->cicp_spk_layout_idx, ptr_geometry,
@@ -1950,18 +1955,18 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
         }
         else
         {
-          const WORD32 **in_channel_names;
-          impeghd_cicpidx_2_ls_geometry(
-              speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx,
-              (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[i], &in_num_channels,
-              &in_num_lfes, (const WORD32 **)&in_channel_names);
-          ptr_geometry[i].cicp_loudspeaker_idx =
-              speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
-          ptr_geometry[i].lfe = ptr_cicp_ls_geometry[i]->lfe_flag;
-          ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry[i]->screen_rel_flag;
+          WORD32 spk_idx = speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
+          if (spk_idx >= CICP_MAX_CH)
+          {
+            return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_SPK_INDEX;
+          }
+          ptr_cicp_ls_geometry = &ia_cicp_ls_geo_tbls[spk_idx];
+          ptr_geometry[i].cicp_loudspeaker_idx = spk_idx;
+          ptr_geometry[i].lfe = ptr_cicp_ls_geometry->lfe_flag;
+          ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry->screen_rel_flag;
           ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
-          ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry[i]->ls_elevation;
-          ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry[i]->ls_azimuth;
+          ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
+          ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
         }
         if (speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].is_lfe != 0)
         {
@@ -1977,18 +1982,17 @@ IA_ERRORCODE impeghd_get_geom_frm_spk_cfg(ia_interface_speaker_config_3d *speake
       *num_channels = speaker_config_3d->num_speakers;
       for (i = 0; i < speaker_config_3d->num_speakers; i++)
       {
-        const WORD32 **in_channel_names;
-        impeghd_cicpidx_2_ls_geometry(speaker_config_3d->cicp_spk_idx[i],
-                                      (const ia_cicp_ls_geo_str **)&ptr_cicp_ls_geometry[i],
-                                      &in_num_channels, &in_num_lfes,
-                                      (const WORD32 **)&in_channel_names);
-        ptr_geometry[i].cicp_loudspeaker_idx =
-            speaker_config_3d->str_flex_spk_data.str_flex_spk_descr[i].cicp_spk_idx;
-        ptr_geometry[i].lfe = ptr_cicp_ls_geometry[i]->lfe_flag;
-        ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry[i]->screen_rel_flag;
+        if (speaker_config_3d->cicp_spk_idx[i] >= CICP_MAX_CH)
+        {
+          return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_SPK_INDEX;
+        }
+        ptr_cicp_ls_geometry = &ia_cicp_ls_geo_tbls[speaker_config_3d->cicp_spk_idx[i]];
+        ptr_geometry[i].cicp_loudspeaker_idx = speaker_config_3d->cicp_spk_idx[i];
+        ptr_geometry[i].lfe = ptr_cicp_ls_geometry->lfe_flag;
+        ptr_geometry[i].screen_relative = ptr_cicp_ls_geometry->screen_rel_flag;
         ptr_geometry[i].loudspeaker_type = CICP2GEOMETRY_LOUDSPEAKER_KNOWN;
-        ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry[i]->ls_elevation;
-        ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry[i]->ls_azimuth;
+        ptr_geometry[i].el = (WORD32)ptr_cicp_ls_geometry->ls_elevation;
+        ptr_geometry[i].az = (WORD32)ptr_cicp_ls_geometry->ls_azimuth;
         if ((speaker_config_3d->cicp_spk_idx[i] == 3) ||
             (speaker_config_3d->cicp_spk_idx[i] == 26))
         {
-- 
2.43.0


From 261e4dc832fbc38caa8f90e0d4f3a46127d7be6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 16/97] fix: refuse binaural filters that lack a filter for a
 rendered channel

The channel map was filled past its end and could name filters, and so signal
buffers, that were never set up.
---
 decoder/impeghd_binaural_renderer.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/decoder/impeghd_binaural_renderer.c b/decoder/impeghd_binaural_renderer.c
index ba54120..967053d 100644
--- a/decoder/impeghd_binaural_renderer.c
+++ b/decoder/impeghd_binaural_renderer.c
@@ -376,9 +376,12 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
         for (j = 0; j < wav_param->num_speaker_expected; j++)
         {
           ind = -1;
-          impeghd_br_find_geometry_in_speaker_config_3d(
-              &geometry_expected[j], &(ptr_binaural_rep->setup_spk_config_3d), &ind);
-          if (ind != -1)
+          if (j < MAX_NUM_BRIR_PAIRS)
+          {
+            impeghd_br_find_geometry_in_speaker_config_3d(
+                &geometry_expected[j], &(ptr_binaural_rep->setup_spk_config_3d), &ind);
+          }
+          if ((ind != -1) && (ind < ptr_binaural_rep->td_binaural_ren_param.num_channel))
           {
             ptr_td_binaural_renderer_param = &ptr_binaural_rep->td_binaural_ren_param;
             binaural_handle->channel_map[j] = ind;
@@ -394,7 +397,8 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
           break;
         }
       }
-      else
+      else if (wav_param->num_speaker_expected <=
+               ptr_binaural_rep->td_binaural_ren_param.num_channel)
       {
         ptr_td_binaural_renderer_param = &ptr_binaural_rep->td_binaural_ren_param;
         for (j = 0; j < wav_param->num_speaker_expected; j++)
-- 
2.43.0


From 6b15184a63045ff2d5f11f376d465f9f70dcd8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 17/97] fix: report a refused local set-up layout

The parse went on with a layout that had been rejected.
---
 decoder/impeghd_ele_interaction_intrfc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index a522d29..ca55675 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -110,7 +110,11 @@ static IA_ERRORCODE impeghd_loud_spk_ren(ia_bit_buf_struct *ptr_bit_buf,
   {
     return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED;
   }
-  impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config);
+  if (impeghd_speaker_config_3d(ptr_bit_buf, &pstr_local_setup_data->spk_config) !=
+      IA_MPEGH_DEC_NO_ERROR)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED;
+  }
   has_loud_spk_dist = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   has_loud_spk_calibration_gain = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   pstr_local_setup_data->use_tracking_mode = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
-- 
2.43.0


From 1fb80bb14a4b4d178b116f3d6a37bfb85fb6dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 18/97] fix: read common TNS data with the element's own window
 layout

---
 decoder/ia_core_coder_ext_ch_ele.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_ext_ch_ele.c b/decoder/ia_core_coder_ext_ch_ele.c
index 5eec955..3d709e8 100644
--- a/decoder/ia_core_coder_ext_ch_ele.c
+++ b/decoder/ia_core_coder_ext_ch_ele.c
@@ -1358,8 +1358,8 @@ ia_core_coder_data(WORD32 id, ia_usac_data_struct *usac_data, WORD32 elem_idx, W
       }
       else
       {
-        err = ia_core_coder_read_tns_u(usac_data->pstr_sfb_info[0], &usac_data->pstr_tns[left][0],
-                                       it_bit_buff);
+        err = ia_core_coder_read_tns_u(usac_data->pstr_sfb_info[left],
+                                       &usac_data->pstr_tns[left][0], it_bit_buff);
         if (err != IA_MPEGH_DEC_NO_ERROR)
         {
           return err;
-- 
2.43.0


From ebe292f79c017c7fb88fe6f3f7f0d12b6986bda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 19/97] fix: check the gap-filling noise flag of the element
 being decoded

---
 decoder/ia_core_coder_ext_ch_ele.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_ext_ch_ele.c b/decoder/ia_core_coder_ext_ch_ele.c
index 3d709e8..6788836 100644
--- a/decoder/ia_core_coder_ext_ch_ele.c
+++ b/decoder/ia_core_coder_ext_ch_ele.c
@@ -1279,7 +1279,7 @@ ia_core_coder_data(WORD32 id, ia_usac_data_struct *usac_data, WORD32 elem_idx, W
       restricted	to	real-only	prediction,	i.e.	complex_coef	shall	be
       0*/
 
-      if (((pstr_usac_dec_config->str_usac_element_config->str_usac_ele_igf_init_config
+      if (((pstr_usac_dec_config->str_usac_element_config[elem_idx].str_usac_ele_igf_init_config
                 .igf_use_enf == 1) ||
            (usac_data->igf_config[elem_idx].igf_stereo_filling == 1)) &&
           (pstr_core_coder->complex_coef != 0))
-- 
2.43.0


From 28e3ed8668471d12a0e4fec95472cd1cdea0fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 20/97] fix: use the even left symmetry of kernel type 2 in
 stop windows too

---
 decoder/ia_core_coder_basic_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_basic_ops.c b/decoder/ia_core_coder_basic_ops.c
index d9e3bd4..f49ada5 100644
--- a/decoder/ia_core_coder_basic_ops.c
+++ b/decoder/ia_core_coder_basic_ops.c
@@ -243,7 +243,7 @@ VOID ia_core_coder_windowing_long3(FLOAT32 *ptr_src1, const FLOAT32 *ptr_win_fwd
       ptr_win_fwd++;
       ptr_win_rev--;
     }
-    if (transform_kernel_type != 3)
+    if (transform_kernel_type < 2)
     {
       for (i = pstr_drc_offset->n_long / 2;
            i < pstr_drc_offset->n_flat_ls + pstr_drc_offset->n_trans_ls; i++)
-- 
2.43.0


From 8728ce7e66bfe4cbafadaee21902900e34f6a9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:21 +0000
Subject: [PATCH 21/97] fix: convert formats at every rate that has equaliser
 tables

The search stopped before the entries of 16, 14.7 and 29.4 kHz, so layout
conversion of streams at these rates was refused.
---
 decoder/impeghd_format_conv_init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_format_conv_init.c b/decoder/impeghd_format_conv_init.c
index 64ad1be..d73aed7 100644
--- a/decoder/impeghd_format_conv_init.c
+++ b/decoder/impeghd_format_conv_init.c
@@ -262,7 +262,7 @@ static IA_ERRORCODE impeghd_fc_eq_compute(const WORD32 samp_rate,
   const FLOAT32 *ptr_filter_param;
   FLOAT32 *ptr_eq;
   const FLOAT32 *ptr_frequency, *ptr_ft;
-  for (i = 0; i < 8; i++)
+  for (i = 0; i < 11; i++)
   {
     if (ia_sampling_rate_tbl[i] == fs)
     {
-- 
2.43.0


From de6bdb77d7c5cb92095a11cd89e36361a5e569db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 22/97] fix: make the scale-factor code book constant

Every decoder initialisation rewrote the shared table, so two instances set up
in parallel threads raced on it.
---
 decoder/ia_core_coder_create.c     |  4 ---
 decoder/ia_core_coder_ext_ch_ele.c |  2 +-
 decoder/ia_core_coder_huff_tools.c | 57 ------------------------------
 decoder/ia_core_coder_igf_dec.c    |  2 +-
 decoder/ia_core_coder_info.h       |  8 +----
 decoder/ia_core_coder_rom.c        | 13 ++++++-
 6 files changed, 15 insertions(+), 71 deletions(-)

diff --git a/decoder/ia_core_coder_create.c b/decoder/ia_core_coder_create.c
index 6c80235..d5e7c77 100644
--- a/decoder/ia_core_coder_create.c
+++ b/decoder/ia_core_coder_create.c
@@ -268,10 +268,6 @@ static IA_ERRORCODE ia_core_coder_decode_init(VOID *handle, ia_usac_data_struct
   memset(usac_data->window_shape, 0, MAX_NUM_CHANNELS * sizeof(WORD32));
   memset(usac_data->window_shape_prev, 0, MAX_NUM_CHANNELS * sizeof(WORD32));
 
-  ia_core_coder_hufftab(&ia_core_coder_book, ia_core_coder_book_scl_huff_code_word,
-                        ia_core_coder_book_scl_code_book, ia_core_coder_book_scl_index, 1, 60, 60,
-                        1, 19);
-
   usac_data->pstr_usac_winmap[4] = &usac_data->str_only_long_info;
   usac_data->pstr_usac_winmap[3] = &usac_data->str_only_long_info;
   usac_data->pstr_usac_winmap[2] = &usac_data->str_eight_short_info;
diff --git a/decoder/ia_core_coder_ext_ch_ele.c b/decoder/ia_core_coder_ext_ch_ele.c
index 6788836..702b2b6 100644
--- a/decoder/ia_core_coder_ext_ch_ele.c
+++ b/decoder/ia_core_coder_ext_ch_ele.c
@@ -129,7 +129,7 @@ static VOID ia_core_coder_cplx_pred_data(ia_usac_data_struct *usac_data,
                                          WORD32 num_win_groups, ia_bit_buf_struct *it_bit_buff,
                                          WORD32 chn)
 {
-  ia_huff_code_book_struct *ptr_huff_code_book = &ia_core_coder_book;
+  const ia_huff_code_book_struct *ptr_huff_code_book = &ia_core_coder_book;
   const ia_huff_code_word_struct *ptr_huff_code_word = ptr_huff_code_book->pstr_huff_code_word;
   WORD32 cplx_pred_all;
   WORD32 delta_code_time;
diff --git a/decoder/ia_core_coder_huff_tools.c b/decoder/ia_core_coder_huff_tools.c
index 7e61840..f234d06 100644
--- a/decoder/ia_core_coder_huff_tools.c
+++ b/decoder/ia_core_coder_huff_tools.c
@@ -45,63 +45,6 @@
  * @{
  */
 
-/**
- *  ia_core_coder_hufftab
- *
- *  \brief Initialize huffman code book and sort codewords by length
- *
- *  \param [in,out]    ptr_huff_code_book      Huffman code book
- * structure
- *  \param [in]      ptr_huff_code_word      Huffman code word
- * structure
- *  \param [in]      code_book_tbl        code book table pointer
- *  \param [in]      index            code book index
- *  \param [in]      dim              dimension
- *  \param [in]      lav              Largest
- * Absolute
- * Value
- *  \param [in]      lav_incr_esc        LAV escape
- *  \param [in]      sign_code_book        specify code books as signed
- * or
- * unsigned
- *  \param [in]      max_code_word_len      maximum code word length
- *
- *
- *
- */
-VOID ia_core_coder_hufftab(ia_huff_code_book_struct *ptr_huff_code_book,
-                           const ia_huff_code_word_struct *ptr_huff_code_word,
-                           const WORD16 *code_book_tbl, const WORD32 *index, WORD32 dim,
-                           WORD32 lav, WORD32 lav_incr_esc, WORD32 sign_code_book,
-                           UWORD8 max_code_word_len)
-{
-  WORD32 i, num;
-
-  if (sign_code_book)
-  {
-    ptr_huff_code_book->huff_mode = (lav << 1) + 1;
-    ptr_huff_code_book->off = lav;
-  }
-  else
-  {
-    ptr_huff_code_book->huff_mode = lav + 1;
-    ptr_huff_code_book->off = 0;
-  }
-  num = 1;
-  for (i = 0; i < dim; i++)
-    num = num * ptr_huff_code_book->huff_mode;
-
-  ptr_huff_code_book->code_book_tbl = code_book_tbl;
-  ptr_huff_code_book->dim = dim;
-  ptr_huff_code_book->idx_tbl = index;
-  ptr_huff_code_book->lav = lav;
-  ptr_huff_code_book->lav_incr_esc = lav_incr_esc;
-  ptr_huff_code_book->max_code_word_len = max_code_word_len;
-  ptr_huff_code_book->num = num;
-  ptr_huff_code_book->pstr_huff_code_word = ptr_huff_code_word;
-  ptr_huff_code_book->sign_code_book = sign_code_book;
-}
-
 /**
  *  ia_core_coder_huff_codeword
  *
diff --git a/decoder/ia_core_coder_igf_dec.c b/decoder/ia_core_coder_igf_dec.c
index 97c2071..a4fafc1 100644
--- a/decoder/ia_core_coder_igf_dec.c
+++ b/decoder/ia_core_coder_igf_dec.c
@@ -1772,7 +1772,7 @@ VOID ia_core_coder_igf_stereo_pred_data(ia_usac_data_struct *usac_data, WORD32 n
                                         WORD32 igf_win_type, ia_bit_buf_struct *it_bit_buff,
                                         WORD32 chn, WORD32 elem_idx)
 {
-  ia_huff_code_book_struct *ptr_huff_code_book = &ia_core_coder_book;
+  const ia_huff_code_book_struct *ptr_huff_code_book = &ia_core_coder_book;
   const ia_huff_code_word_struct *ptr_huff_code_word = ptr_huff_code_book->pstr_huff_code_word;
   WORD32 igf_stereo_pred_all;
   WORD32 delta_code_time;
diff --git a/decoder/ia_core_coder_info.h b/decoder/ia_core_coder_info.h
index 11891a2..9a8721d 100644
--- a/decoder/ia_core_coder_info.h
+++ b/decoder/ia_core_coder_info.h
@@ -106,13 +106,7 @@ typedef struct
   WORD32 buffer_fullness;
 } ia_prog_config_struct;
 
-extern ia_huff_code_book_struct ia_core_coder_book;
-
-VOID ia_core_coder_hufftab(ia_huff_code_book_struct *ptr_huff_code_book,
-                           const ia_huff_code_word_struct *ptr_huff_code_word,
-                           const WORD16 *code_book_tbl, const WORD32 *index, WORD32 dim,
-                           WORD32 lav, WORD32 lav_incr_esc, WORD32 sign_code_book,
-                           UWORD8 max_code_word_len);
+extern const ia_huff_code_book_struct ia_core_coder_book;
 
 WORD32 ia_core_coder_huff_codeword(const ia_huff_code_word_struct *h,
                                    ia_bit_buf_struct *it_bit_buff);
diff --git a/decoder/ia_core_coder_rom.c b/decoder/ia_core_coder_rom.c
index 53fae36..968eac8 100644
--- a/decoder/ia_core_coder_rom.c
+++ b/decoder/ia_core_coder_rom.c
@@ -1322,7 +1322,18 @@ const FLOAT32 ia_core_coder_pow_neg_igf_whitening[64] = {
     796131445440512.0000000f,  1125899906842624.0000000f, 1592262890881024.0000000f,
     2251799813685248.0000000f, 3184525781762048.0000000f, 4503599627370496.0000000f,
     6369051563524096.0000000f};
-ia_huff_code_book_struct ia_core_coder_book;
+const ia_huff_code_book_struct ia_core_coder_book = {
+    121, /* num */
+    1,   /* dim */
+    60,  /* lav */
+    60,  /* lav_incr_esc */
+    121, /* huff_mode */
+    60,  /* off */
+    1,   /* sign_code_book */
+    19,  /* max_code_word_len */
+    ia_core_coder_book_scl_huff_code_word,
+    ia_core_coder_book_scl_code_book,
+    ia_core_coder_book_scl_index};
 
 const WORD16 ia_core_coder_sfb_96_1024[] = {4,   8,   12,  16,  20,  24,  28,  32,  36,  40,  44,
                                             48,  52,  56,  64,  72,  80,  88,  96,  108, 120, 132,
-- 
2.43.0


From a12b8b27bf794e08285ae29e931375db6100f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 23/97] fix: saturate 32-bit output to a value that fits 32
 bits

2147483647.0f is 2^31, whose conversion to a 32-bit integer overflows, so
positive overload came out as the most negative code. Use the largest float
below 2^31.
---
 decoder/ia_core_coder_cnst.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_cnst.h b/decoder/ia_core_coder_cnst.h
index 5a9af68..28eac5c 100644
--- a/decoder/ia_core_coder_cnst.h
+++ b/decoder/ia_core_coder_cnst.h
@@ -48,8 +48,8 @@
 #define MAX_FLT_VAL_16 (32767.0f)
 /* Below values will be used for writing */
 /* 32-bit PCM data                       */
-#define MIN_FLT_VAL_32 (-2147483647.0f)
-#define MAX_FLT_VAL_32 (2147483647.0f)
+#define MIN_FLT_VAL_32 (-2147483648.0f)
+#define MAX_FLT_VAL_32 (2147483520.0f)
 #define MUL_FAC_PCM_32 (65536)
 
 #define ESC_VAL_BITS_2 3      // 0000 0011
-- 
2.43.0


From 8917af6d482c6248ce2680e719f47097c6c88287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 24/97] fix: normalise the loudness of resampled output

The gain was applied to the decoder's own buffers after they had been
resampled, so it never reached the output, and over the length of the
resampled frame, which runs past the end of those buffers. Apply it first.
---
 decoder/ia_core_coder_decode_main.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index c35f621..74233a3 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1513,6 +1513,18 @@ IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *pstr_dec_data,
   {
     ptr_audio_buff[i] = &pstr_dec_data->str_usac_data.time_sample_vector[i][0];
   }
+  if (gain_db_loudness_normalization != 0.0f)
+  {
+
+    gain = (FLOAT32)pow(10.0, gain_db_loudness_normalization / 20.0);
+    for (i = 0; i < *ptr_num_out_chnl; i++)
+    {
+      for (j = 0; j < frame_length; j++)
+      {
+        ptr_audio_buff[i][j] = ia_mul_flt(ptr_audio_buff[i][j], gain);
+      }
+    }
+  }
   if (ptr_config->resample_output)
   {
     FLOAT32 *ptr_resamp_scratch =
@@ -1530,18 +1542,6 @@ IA_ERRORCODE impegh_dec_ln_pl_process(ia_dec_data_struct *pstr_dec_data,
     pstr_mpegh_dec->ui_out_bytes =
         frame_length * (*ptr_num_out_chnl) * (ptr_config->ui_pcm_wdsz >> 3);
   }
-  if (gain_db_loudness_normalization != 0.0f)
-  {
-
-    gain = (FLOAT32)pow(10.0, gain_db_loudness_normalization / 20.0);
-    for (i = 0; i < *ptr_num_out_chnl; i++)
-    {
-      for (j = 0; j < frame_length; j++)
-      {
-        ptr_audio_buff[i][j] = ia_mul_flt(ptr_audio_buff[i][j], gain);
-      }
-    }
-  }
   if (peak_lim_flag)
   {
     impegh_dec_peak_limiter(ptr_config, pstr_dec_data, ptr_num_out_chnl, ptr_out_buf,
-- 
2.43.0


From decd009f0d2b9a5b31daacb0bac4481ebf22afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:12 +0000
Subject: [PATCH 25/97] fix: forget the output rate of a refused resampling
 request

The stream then plays at its own rate, but the limiter was set up for the
refused one: a 48 kHz stream lost its first samples and was not limited.
---
 decoder/impeghd_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index e3769a9..582b59a 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -796,6 +796,8 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
       if (err_code)
       {
         pstr_input_config->enable_resamp = 0;
+        p_obj_mpegh_dec->mpeghd_config.out_samp_freq =
+            p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
       }
     }
   }
-- 
2.43.0


From 0645e98c4a3d764d80900de45892bd294e1267ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:31 +0000
Subject: [PATCH 26/97] fix: use the resampler's filter phases in time order

The samples in the window run forward in time while the partial sums that
follow expect the phases of a convolution, so the phases were swapped: a tone
above half the band came out weaker than its own image.
---
 decoder/impeghd_resampler.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_resampler.c b/decoder/impeghd_resampler.c
index 2aaebaf..0812a18 100644
--- a/decoder/impeghd_resampler.c
+++ b/decoder/impeghd_resampler.c
@@ -123,7 +123,8 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
     {
       for (idx3 = 0; idx3 < fac_up; idx3++)
       {
-        poly_filt_outputs[idx3] += ia_mul_flt(*ptr_delay, *ptr_filt_coef);
+        poly_filt_outputs[fac_up - 1 - idx3] +=
+            ia_mul_flt(*ptr_delay, *ptr_filt_coef);
         ptr_filt_coef++;
       }
       ptr_delay++;
@@ -134,7 +135,8 @@ VOID impeghd_resample(ia_resampler_struct *pstr_resampler, FLOAT32 *ptr_input,
     {
       for (idx3 = 0; idx3 < fac_up; idx3++)
       {
-        poly_filt_outputs[idx3] += ia_mul_flt(*ptr_temp, *ptr_filt_coef);
+        poly_filt_outputs[fac_up - 1 - idx3] +=
+            ia_mul_flt(*ptr_temp, *ptr_filt_coef);
         ptr_filt_coef++;
       }
       ptr_temp++;
-- 
2.43.0


From 5bef72f0480d6afb6846eb9f2dd6bc08eb8691db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:15 +0000
Subject: [PATCH 27/97] fix: decide whether the output is resampled before
 setting up the limiter

---
 decoder/ia_core_coder_decode_main.c | 10 ++++++++++
 decoder/impeghd_api.c               |  1 +
 2 files changed, 11 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 74233a3..a9e9b2a 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -121,6 +121,7 @@
 #include "impeghd_ext_rend_intrfc.h"
 #include "impeghd_ext_rend_intrfc_util.h"
 
+IA_ERRORCODE impeghd_resampler_get_sampling_ratio(ia_mpegh_dec_config_struct *ptr_config);
 IA_ERRORCODE impeghd_peak_limiter_init(ia_peak_limiter_struct *peak_limiter, UWORD32 num_channels,
                                        UWORD32 sample_rate, FLOAT32 *buffer);
 VOID impeghd_peak_limiter_process(ia_peak_limiter_struct *peak_limiter, FLOAT32 *samples,
@@ -1886,6 +1887,15 @@ IA_ERRORCODE ia_core_coder_dec_process_frame_zero(VOID *temp_handle, WORD32 *num
 
   {
     WORD32 samp_freq = pstr_asc->str_usac_config.usac_sampling_frequency;
+    if (handle->p_state_mpeghd->p_config->resample_output)
+    {
+      handle->p_state_mpeghd->p_config->stream_samp_freq = samp_freq;
+      if (impeghd_resampler_get_sampling_ratio(handle->p_state_mpeghd->p_config))
+      {
+        handle->p_state_mpeghd->p_config->resample_output = 0;
+        handle->p_state_mpeghd->p_config->out_samp_freq = samp_freq;
+      }
+    }
     if ((pstr_asc->str_usac_config.usac_sampling_frequency !=
          handle->p_state_mpeghd->p_config->out_samp_freq) &&
         handle->p_state_mpeghd->p_config->resample_output)
diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 582b59a..4d36b69 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -796,6 +796,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
       if (err_code)
       {
         pstr_input_config->enable_resamp = 0;
+        p_obj_mpegh_dec->mpeghd_config.resample_output = 0;
         p_obj_mpegh_dec->mpeghd_config.out_samp_freq =
             p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
       }
-- 
2.43.0


From 076701be63be92f566db91ba238f782331e35fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 28/97] fix: refuse flexible loudspeakers whose angle index is
 out of range

---
 decoder/ia_core_coder_init_config.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 2b7052c..18e3e6a 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -1171,8 +1171,13 @@ static IA_ERRORCODE impeghd_flexispk_config(VOID *buf_handle,
   while (i < num_spk)
   {
     azimuth = 0;
-    impeghd_spk_description(buf_handle, &(pstr_flex_spk_data->str_flex_spk_descr[i]),
-                            pstr_flex_spk_data->angular_precision);
+    IA_ERRORCODE err_code =
+        impeghd_spk_description(buf_handle, &(pstr_flex_spk_data->str_flex_spk_descr[i]),
+                                pstr_flex_spk_data->angular_precision);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      return err_code;
+    }
 
     if (!(pstr_flex_spk_data->str_flex_spk_descr[i].is_cicp_spk_idx))
     {
-- 
2.43.0


From 14375f13529edee29d202c98f8f26eb4a100e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:23 +0000
Subject: [PATCH 29/97] fix: search presets, not groups, for the selected
 preset while decoding

The search ran over the number of groups, past the preset table, and the
membership of a switched-on group was looked up by condition index.
---
 decoder/ia_core_coder_decode_main.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index a9e9b2a..8afdbb1 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -962,7 +962,7 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
   {
     WORD32 pr_grp_idx = -1;
     WORD32 grp_idx = -1;
-    for (grp = 0; grp < num_decoded_groups; grp++)
+    for (grp = 0; grp < ptr_mae_asi->num_group_presets; grp++)
     {
       if (ptr_mae_asi->group_presets_definition[grp].group_id == preset_id)
       {
@@ -995,14 +995,7 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
         /* Invalid Group Id */
         return IA_MPEGH_DEC_EXE_FATAL_INVALID_GRP_ID;
       }
-      if (0 == ptr_mae_asi->group_presets_definition[pr_grp_idx].cond_on_off[grp_idx])
-      {
-        has_conjuct_mbrs = ptr_mae_asi->group_definition[grp].has_conjunct_members;
-      }
-      else
-      {
-        has_conjuct_mbrs = ptr_mae_asi->group_definition[cond].has_conjunct_members;
-      }
+      has_conjuct_mbrs = ptr_mae_asi->group_definition[grp].has_conjunct_members;
 
       for (mbr = 0; mbr < num_members; mbr++)
       {
@@ -3002,7 +2995,7 @@ IA_ERRORCODE impeghd_uni_drc_dec_asi_init(ia_audio_specific_config_struct *pstr_
       return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUPS_PRESETS;
     }
 
-    for (grp = 0; grp < pstr_mae_asi->num_groups; grp++)
+    for (grp = 0; grp < pstr_mae_asi->num_group_presets; grp++)
     {
       if (pstr_mae_asi->group_presets_definition[grp].group_id == preset_id)
       {
-- 
2.43.0


From 155aec262002f8ed75d5528a8f487ec97465cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:38 +0000
Subject: [PATCH 30/97] fix: bound the earcon and PCM packet contents

The earcon count, the number of PCM signals and the PCM frame size were used to
index fixed tables without a (correct) limit.
---
 decoder/impeghd_mhas_parse.c | 38 +++++++++++++++++++++++++++---------
 decoder/impeghd_mhas_parse.h |  1 +
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index 3a26f06..e742de5 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -747,7 +747,7 @@ IA_ERRORCODE impeghd_pcm_data_payload(ia_pcm_data_config *pstr_pcm_data_config,
                                       ia_bit_buf_struct *pstr_bit_buf)
 {
 
-  WORD32 cnt, idx, pcm_fix_frame_size;
+  WORD32 cnt, idx, pcm_fix_frame_size, frame_size_idx;
   pstr_pcm_data_config->bsnum_pcm_signals_in_frame = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
 
   if (pstr_pcm_data_config->bsnum_pcm_signals_in_frame > (MAX_NUM_CHANNELS - 1))
@@ -777,17 +777,23 @@ IA_ERRORCODE impeghd_pcm_data_payload(ia_pcm_data_config *pstr_pcm_data_config,
     return IA_MPEGH_DEC_NO_ERROR;
     break;
   case 5:
-    pstr_pcm_data_config->pcm_frame_size_idx = pstr_pcm_data_config->pcm_fix_frame_size;
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+    frame_size_idx = pstr_pcm_data_config->pcm_fix_frame_size;
     break;
   case 6:
-    pstr_pcm_data_config->pcm_frame_size_idx = pstr_pcm_data_config->pcm_var_frame_size;
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+    frame_size_idx = pstr_pcm_data_config->pcm_var_frame_size;
     break;
   default:
-    pcm_fix_frame_size = ia_pcm_frame_size_tbl[pstr_pcm_data_config->pcm_frame_size_idx];
+    frame_size_idx = pstr_pcm_data_config->pcm_frame_size_idx;
     break;
   }
+  if (frame_size_idx > MAX_PCM_FRAME_SIZE_IDX)
+  {
+    /* the samples of one signal do not fit in pcm_sample */
+    pstr_pcm_data_config->pcm_frame_size_idx = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_FRAME_LENGTH;
+  }
+  pstr_pcm_data_config->pcm_frame_size_idx = frame_size_idx;
+  pcm_fix_frame_size = ia_pcm_frame_size_tbl[frame_size_idx];
 
   WORD32 pcm_sample, temp, temp_num;
   for (cnt = 0; cnt < pcm_fix_frame_size; cnt++)
@@ -846,6 +852,11 @@ IA_ERRORCODE impeghd_pcm_data_config(ia_pcm_data_config *pstr_pcm_data_config,
                                      ia_bit_buf_struct *pstr_bit_buf)
 {
   pstr_pcm_data_config->bs_num_pcm_signals = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
+  if (pstr_pcm_data_config->bs_num_pcm_signals > (MAX_NUM_CHANNELS - 1))
+  {
+    pstr_pcm_data_config->bs_num_pcm_signals = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_PCM_SIG;
+  }
   pstr_pcm_data_config->pcm_align_audio_flag = ia_core_coder_read_bits_buf(pstr_bit_buf, 1);
   pstr_pcm_data_config->pcm_sampling_rate_idx = ia_core_coder_read_bits_buf(pstr_bit_buf, 5);
   pstr_pcm_data_config->pcm_sampling_rate =
@@ -897,7 +908,7 @@ IA_ERRORCODE impeghd_econ_config_info(ia_earcon_info *pstr_earcon_info,
                                       ia_bit_buf_struct *pstr_bit_buf)
 {
   WORD32 num_earcons = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
-  if (num_earcons > MAX_NUM_EARCONS)
+  if (num_earcons >= MAX_NUM_EARCONS)
   {
     return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_EARCONS;
   }
@@ -935,6 +946,7 @@ IA_ERRORCODE impeghd_econ_config_info(ia_earcon_info *pstr_earcon_info,
       pstr_earcon_info->earcon_gain[cnt] = ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
     }
 
+    pstr_earcon_info->earcon_num_languages[cnt] = 0;
     if ((pstr_earcon_info->earcon_has_text_label = ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
     {
       pstr_earcon_info->earcon_num_languages[cnt] = ia_core_coder_read_bits_buf(pstr_bit_buf, 4);
@@ -1336,7 +1348,11 @@ IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *pstr_pac_info,
       WORD32 cnt_bits = pstr_bit_buf->cnt_bits;
 
       pstr_mae_asi->pcm_data_config.pcm_packet_type_present = 1;
-      impeghd_pcm_data_config(&pstr_mae_asi->pcm_data_config, pstr_bit_buf);
+      err_code = impeghd_pcm_data_config(&pstr_mae_asi->pcm_data_config, pstr_bit_buf);
+      if (err_code)
+      {
+        return err_code;
+      }
       cnt_bits = cnt_bits - pstr_bit_buf->cnt_bits;
       if (cnt_bits < (pkt_len << 3))
       {
@@ -1350,8 +1366,12 @@ IA_ERRORCODE impeghd_mhas_parse(ia_mhas_pac_info *pstr_pac_info,
       WORD32 cnt_bits = pstr_bit_buf->cnt_bits;
       pstr_mae_asi->pcm_data_config.pcm_packet_type_present = 1;
       pstr_mae_asi->pcm_data_config.pcm_packet_data_present = 1;
+      err_code = impeghd_pcm_data_payload(&pstr_mae_asi->pcm_data_config, pstr_bit_buf);
+      if (err_code)
+      {
+        return err_code;
+      }
       pstr_mae_asi->pcm_data_config.pcm_config_present = 1;
-      impeghd_pcm_data_payload(&pstr_mae_asi->pcm_data_config, pstr_bit_buf);
       cnt_bits = cnt_bits - pstr_bit_buf->cnt_bits;
       if (cnt_bits < (pkt_len << 3))
       {
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index e3e4006..0fd72ea 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -75,6 +75,7 @@
 #define MAX_NUM_EARCON_LANGUAGES (16)
 #define MAX_NUM_EARCON_TXT_DATA_LENTGH (256)
 #define MAX_NUM_PCM_SAMPLES (1024)
+#define MAX_PCM_FRAME_SIZE_IDX (2)
 #define MHAS_PAC_TYP_UNDEF (518)
 #define MHAS_SYNC_BYTE (0xA5)
 
-- 
2.43.0


From cd2e79232c488a02221af231a19d85c7868be1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:47 +0000
Subject: [PATCH 31/97] fix: bound the group, preset and description counts
 read from MP4 metadata boxes

---
 decoder/impeghd_api.c            | 28 ++++++++++++---
 decoder/impeghd_mae_mp4_intrfc.c | 59 ++++++++++++++++++++++++--------
 decoder/impeghd_mae_mp4_intrfc.h | 16 ++++-----
 3 files changed, 76 insertions(+), 27 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 4d36b69..273224e 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -724,7 +724,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ia_core_coder_create_init_bit_buf(&bit_buf_str, pstr_input_config->ptr_maeg_buf,
                                       pstr_input_config->maeg_len);
     bit_buf_str.xmpeghd_jmp_buf = &mae_jmp_buf;
-    impeghd_mp4_get_maeg(&bit_buf_str, ptr_mae_audio_scene_info);
+    err_code = impeghd_mp4_get_maeg(&bit_buf_str, ptr_mae_audio_scene_info);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      pstr_output_config->i_bytes_consumed = 1;
+      return err_code;
+    }
     ptr_mae_audio_scene_info->asi_present = 1;
   }
   if (pstr_input_config->maes_flag == 1 && pstr_input_config->ptr_maes_buf != NULL)
@@ -742,7 +747,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ia_core_coder_create_init_bit_buf(&bit_buf_str, pstr_input_config->ptr_maes_buf,
                                       pstr_input_config->maes_len);
     bit_buf_str.xmpeghd_jmp_buf = &mae_jmp_buf;
-    impeghd_mp4_get_maes(&bit_buf_str, ptr_mae_audio_scene_info);
+    err_code = impeghd_mp4_get_maes(&bit_buf_str, ptr_mae_audio_scene_info);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      pstr_output_config->i_bytes_consumed = 1;
+      return err_code;
+    }
     ptr_mae_audio_scene_info->asi_present = 1;
   }
   if (pstr_input_config->maep_flag == 1 && pstr_input_config->ptr_maep_buf != NULL)
@@ -760,7 +770,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ia_core_coder_create_init_bit_buf(&bit_buf_str, pstr_input_config->ptr_maep_buf,
                                       pstr_input_config->maep_len);
     bit_buf_str.xmpeghd_jmp_buf = &mae_jmp_buf;
-    impeghd_mp4_get_maep(&bit_buf_str, ptr_mae_audio_scene_info);
+    err_code = impeghd_mp4_get_maep(&bit_buf_str, ptr_mae_audio_scene_info);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      pstr_output_config->i_bytes_consumed = 1;
+      return err_code;
+    }
     ptr_mae_audio_scene_info->asi_present = 1;
   }
 
@@ -779,7 +794,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     ia_core_coder_create_init_bit_buf(&bit_buf_str, pstr_input_config->ptr_maei_buf,
                                       pstr_input_config->maei_len);
     bit_buf_str.xmpeghd_jmp_buf = &mae_jmp_buf;
-    impeghd_mp4_get_mael(&bit_buf_str, ptr_mae_audio_scene_info);
+    err_code = impeghd_mp4_get_mael(&bit_buf_str, ptr_mae_audio_scene_info);
+    if (err_code != IA_MPEGH_DEC_NO_ERROR)
+    {
+      pstr_output_config->i_bytes_consumed = 1;
+      return err_code;
+    }
     ptr_mae_audio_scene_info->asi_present = 1;
   }
 
diff --git a/decoder/impeghd_mae_mp4_intrfc.c b/decoder/impeghd_mae_mp4_intrfc.c
index 8876eae..99de139 100644
--- a/decoder/impeghd_mae_mp4_intrfc.c
+++ b/decoder/impeghd_mae_mp4_intrfc.c
@@ -35,6 +35,7 @@
 #include <impeghd_type_def.h>
 #include "ia_core_coder_bitbuffer.h"
 #include "ia_core_coder_cnst.h"
+#include "impeghd_error_codes.h"
 #include "impeghd_memory_standards.h"
 #include "impeghd_mhas_parse.h"
 
@@ -46,11 +47,11 @@
  *  \param [in]  ptr_read_buff              pointer to bit buffer
  *  \param [out] ptr_mae_audio_scene_info   pointer to asi struct
  *
- *
+ *  \return IA_ERRORCODE                    Error code
  *
  */
-VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
+IA_ERRORCODE impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
 {
   WORD32 k, j;
 
@@ -66,6 +67,11 @@ VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
   ia_core_coder_read_bits_buf(ptr_read_buff, 1); // reserved bits
   ptr_mae_audio_scene_info->group_desc_data.num_descr_blks =
       ia_core_coder_read_bits_buf(ptr_read_buff, 7) + 1; // reserved bits
+  if (ptr_mae_audio_scene_info->group_desc_data.num_descr_blks >= MAX_NUM_DESCRIPTOIN_BLOCKS)
+  {
+    ptr_mae_audio_scene_info->group_desc_data.num_descr_blks = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_DESCRIPTION_BLOCKS;
+  }
   for (j = 0; j < ptr_mae_audio_scene_info->group_desc_data.num_descr_blks; j++)
   {
 
@@ -153,6 +159,7 @@ VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
   {
     ptr_mae_audio_scene_info->preset_desc_data.descr_data[j][0][k] = 0;
   }
+  return IA_MPEGH_DEC_NO_ERROR;
 }
 /**
  *  impeghd_mp4_get_maep
@@ -162,17 +169,22 @@ VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
  *  \param [in]  ptr_read_buff              pointer to bit buffer
  *  \param [out] ptr_mae_audio_scene_info   pointer to asi struct
  *
- *
+ *  \return IA_ERRORCODE                    Error code
  *
  */
-VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
+IA_ERRORCODE impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
 {
   WORD32 i, j, num_conditions, num_group_presets;
   ia_core_coder_read_bits_buf(ptr_read_buff, 1); // reserved bits
   ptr_mae_audio_scene_info->num_group_presets =
       ia_core_coder_read_bits_buf(ptr_read_buff, 7); // no:of groups
   num_group_presets = ptr_mae_audio_scene_info->num_group_presets;
+  if (num_group_presets > MAX_NUM_GROUPS_PRESETS)
+  {
+    ptr_mae_audio_scene_info->num_group_presets = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUPS_PRESETS;
+  }
   for (i = 0; i < num_group_presets; i++)
   {
     ia_core_coder_read_bits_buf(ptr_read_buff, 3); // reserved bits
@@ -182,9 +194,13 @@ VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
     ia_core_coder_read_bits_buf(ptr_read_buff, 3); // reserved bits
     ptr_mae_audio_scene_info->group_presets_definition[i].preset_kind =
         ia_core_coder_read_bits_buf(ptr_read_buff, 5);
-    ptr_mae_audio_scene_info->group_presets_definition[i].num_conditions =
-        ia_core_coder_read_bits_buf(ptr_read_buff, 8);
-    num_conditions = ptr_mae_audio_scene_info->group_presets_definition[i].num_conditions;
+    num_conditions = ia_core_coder_read_bits_buf(ptr_read_buff, 8);
+    if (num_conditions > MAX_GROUP_PRESET_NUM_CONDITIONS)
+    {
+      ptr_mae_audio_scene_info->num_group_presets = 0;
+      return IA_MPEGH_DEC_INIT_FATAL_INVALID_PR_GRP_NUM_COND;
+    }
+    ptr_mae_audio_scene_info->group_presets_definition[i].num_conditions = num_conditions;
     for (j = 0; j < num_conditions; j++)
     {
       ptr_mae_audio_scene_info->group_presets_definition[i].reference_id[j] =
@@ -225,6 +241,7 @@ VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
       }
     }
   }
+  return IA_MPEGH_DEC_NO_ERROR;
 }
 /**
  *  impeghd_mp4_get_maes
@@ -234,11 +251,11 @@ VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
  *  \param [in]  ptr_read_buff              pointer to bit buffer
  *  \param [out] ptr_mae_audio_scene_info   pointer to asi struct
  *
- *
+ *  \return IA_ERRORCODE                    Error code
  *
  */
-VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
+IA_ERRORCODE impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
 {
   WORD32 num_switch_groups, i, j;
 
@@ -246,6 +263,11 @@ VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
   ptr_mae_audio_scene_info->num_switch_groups =
       ia_core_coder_read_bits_buf(ptr_read_buff, 7); // no:of groups
   num_switch_groups = ptr_mae_audio_scene_info->num_switch_groups;
+  if (num_switch_groups > MAX_NUM_SWITCH_GROUPS)
+  {
+    ptr_mae_audio_scene_info->num_switch_groups = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_SWITCH_GROUPS;
+  }
   for (i = 0; i < num_switch_groups; i++)
   {
     ptr_mae_audio_scene_info->switch_group_definition[i].allow_on_off = 0;
@@ -269,6 +291,7 @@ VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
     ptr_mae_audio_scene_info->switch_group_definition[i].default_group_id =
         ia_core_coder_read_bits_buf(ptr_read_buff, 7); // default id
   }
+  return IA_MPEGH_DEC_NO_ERROR;
 }
 /**
  *  impeghd_mp4_get_maeg
@@ -278,11 +301,11 @@ VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
  *  \param [in]  ptr_read_buff              pointer to bit buffer
  *  \param [out] ptr_mae_audio_scene_info   pointer to asi struct
  *
- *
+ *  \return IA_ERRORCODE                    Error code
  *
  */
-VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
+IA_ERRORCODE impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info)
 {
   WORD32 num_grps;
   ptr_mae_audio_scene_info->main_stream_flag = 1;
@@ -293,6 +316,11 @@ VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
   ptr_mae_audio_scene_info->num_groups =
       ia_core_coder_read_bits_buf(ptr_read_buff, 7); // no:of groups
   num_grps = ptr_mae_audio_scene_info->num_groups;
+  if (num_grps > MAX_NUM_GROUPS)
+  {
+    ptr_mae_audio_scene_info->num_groups = 0;
+    return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUP;
+  }
   for (WORD32 grp = 0; grp < num_grps; grp++)
   {
     ia_core_coder_read_bits_buf(ptr_read_buff, 1); // reserved bits
@@ -348,4 +376,5 @@ VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
   }
   ptr_mae_audio_scene_info->group_definition[0].start_id = 0;
   ptr_mae_audio_scene_info->group_definition[1].start_id = 2;
+  return IA_MPEGH_DEC_NO_ERROR;
 }
diff --git a/decoder/impeghd_mae_mp4_intrfc.h b/decoder/impeghd_mae_mp4_intrfc.h
index a7f774e..c845df9 100644
--- a/decoder/impeghd_mae_mp4_intrfc.h
+++ b/decoder/impeghd_mae_mp4_intrfc.h
@@ -35,13 +35,13 @@
 #ifndef IMPEGHD_MAE_INTRFC_H
 #define IMPEGHD_MAE_INTRFC_H
 
-VOID impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
-VOID impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
-VOID impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
-VOID impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
-                          ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
+IA_ERRORCODE impeghd_mp4_get_mael(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
+IA_ERRORCODE impeghd_mp4_get_maep(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
+IA_ERRORCODE impeghd_mp4_get_maes(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
+IA_ERRORCODE impeghd_mp4_get_maeg(ia_bit_buf_struct *ptr_read_buff,
+                                  ia_mae_audio_scene_info *ptr_mae_audio_scene_info);
 
 #endif /* IMPEGHD_MAE_INTRFC_H */
\ No newline at end of file
-- 
2.43.0


From 88b9536d954e3175d1ef4f25f5ff9485e60cad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:47 +0000
Subject: [PATCH 32/97] fix: bound the multichannel tool's channel range and
 instance count

---
 decoder/ia_core_coder_decode_main.c | 4 ++++
 decoder/ia_core_coder_process.c     | 2 +-
 decoder/impeghd_multichannel.c      | 5 +++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 8afdbb1..2a69aba 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1707,6 +1707,10 @@ IA_ERRORCODE ia_core_coder_dec_process_frame_zero(VOID *temp_handle, WORD32 *num
       const WORD32 n_ch = ia_signals_3da->num_sig[sig_grp];
       WORD32 start_chn = 0;
       jmp_buf *xmpeghd_jmp_buf = mpegh_dec_handle->xmpeghd_jmp_buf;
+      if (mct_cnt >= MAX_NUM_SIGNALGROUPS)
+      {
+        return IA_MPEGH_DEC_INIT_FATAL_INVALID_MCT_ENTRIES;
+      }
       for (grp = 0; grp < sig_grp; grp++)
       {
         start_chn += ia_signals_3da->num_sig[grp];
diff --git a/decoder/ia_core_coder_process.c b/decoder/ia_core_coder_process.c
index 567b074..b090bec 100644
--- a/decoder/ia_core_coder_process.c
+++ b/decoder/ia_core_coder_process.c
@@ -923,12 +923,12 @@ IA_ERRORCODE ia_core_coder_usac_process(ia_dec_data_struct *pstr_dec_data, VOID
       {
         return err;
       }
-      mct_cnt++;
       for (i = 0; i < MAX_NUM_CHANNELS; i++)
       {
         pstr_usac_dec_config->ia_mcdata[mct_cnt].prev_out_spec[i] =
             &pstr_usac_data->mct_prev_out_spec[i][0];
       }
+      mct_cnt++;
     }
   }
   for (sig_group = 0; sig_group < mct_cnt; sig_group++)
diff --git a/decoder/impeghd_multichannel.c b/decoder/impeghd_multichannel.c
index 0735761..f906016 100644
--- a/decoder/impeghd_multichannel.c
+++ b/decoder/impeghd_multichannel.c
@@ -280,7 +280,12 @@ IA_ERRORCODE impeghd_mc_init(ia_usac_decoder_config_struct *pstr_usac_dec_config
   ia_core_coder_create_init_bit_buf(&it_bit_buff, ptr_bitbuf, bitbuf_len);
 
   it_bit_buff.xmpeghd_jmp_buf = xmpeghd_jmp_buf;
+  if (start_ch < 0 || num_ch < 0 || start_ch + num_ch > MAX_NUM_CHANNELS)
+  {
+    return IA_MPEGH_DEC_INIT_FATAL_INVALID_MCT_ENTRIES;
+  }
   ptr_mc_data->use_tool = 1;
+  ptr_mc_data->num_ch_to_apply = 0;
   ptr_mc_data->start_channel = start_ch;
   ptr_mc_data->start_element = start_element;
 
-- 
2.43.0


From 220ca8b5a7a90bc099779cf6f4e7d173f439a87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:36 +0000
Subject: [PATCH 33/97] fix: read dynamic object metadata as its fixed-value
 flags say

---
 decoder/impeghd_oam_dec_ld.c | 48 ++++++------------------------------
 1 file changed, 8 insertions(+), 40 deletions(-)

diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 29e074b..9cc6263 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -379,13 +379,8 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
         }
       }
     }
-    else
-    {
-      ptr_oam_dec_state->spread_width[obj_idx] = 0;
-      ptr_oam_dec_state->spread_height[obj_idx] = 0;
-      ptr_oam_dec_state->spread_depth[obj_idx] = 0;
-    }
-    if (ptr_oam_dec_state->p_obj_md_cfg->dyn_obj_priority_present)
+    if (ptr_oam_dec_state->p_obj_md_cfg->dyn_obj_priority_present &&
+        !ptr_oam_dec_state->dynamic_obj_priority_fixed)
     {
       if (ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS))
       {
@@ -397,48 +392,26 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
   }
   else
   {
-    if (ptr_oam_dec_state->azimuth_fixed)
-    {
-      ptr_oam_dec_state->azimuth[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->azimuth_fixed)
     {
       ptr_oam_dec_state->azimuth[obj_idx] =
           impeghd_oam_read_sign_param(ptr_bit_buf, OAM_AZIMUTH_BITS);
     }
-    if (ptr_oam_dec_state->elevation_fixed)
-    {
-      ptr_oam_dec_state->elevation[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->elevation_fixed)
     {
       ptr_oam_dec_state->elevation[obj_idx] =
           impeghd_oam_read_sign_param(ptr_bit_buf, OAM_ELEVATION_BITS);
     }
-    if (ptr_oam_dec_state->radius_fixed)
-    {
-      ptr_oam_dec_state->radius[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->radius_fixed)
     {
       ptr_oam_dec_state->radius[obj_idx] =
           ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_RADIUS_BITS);
     }
-    if (ptr_oam_dec_state->gain_fixed)
-    {
-      ptr_oam_dec_state->gain[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->gain_fixed)
     {
       ptr_oam_dec_state->gain[obj_idx] = impeghd_oam_read_sign_param(ptr_bit_buf, OAM_GAIN_BITS);
     }
-    if (ptr_oam_dec_state->spread_fixed)
-    {
-      ptr_oam_dec_state->spread_width[obj_idx] = 0;
-      ptr_oam_dec_state->spread_height[obj_idx] = 0;
-      ptr_oam_dec_state->spread_depth[obj_idx] = 0;
-    }
-    else
+    if (!ptr_oam_dec_state->spread_fixed)
     {
       if (!ptr_oam_dec_state->p_obj_md_cfg->uniform_spread_present)
       {
@@ -447,7 +420,7 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
         ptr_oam_dec_state->spread_height[obj_idx] =
             ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_HEIGHT_BITS);
         ptr_oam_dec_state->spread_depth[obj_idx] =
-            ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_HEIGHT_BITS);
+            ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_DEPTH_BITS);
       }
       else
       {
@@ -459,11 +432,6 @@ static IA_ERRORCODE impeghd_single_dyn_obj_md(ia_oam_dec_state_struct *ptr_oam_d
     {
       if (!ptr_oam_dec_state->dynamic_obj_priority_fixed)
       {
-        ptr_oam_dec_state->dyn_obj_priority[obj_idx] = 0;
-      }
-      else
-      {
-        ptr_oam_dec_state->dyn_obj_priority[obj_idx] = 0;
         ptr_oam_dec_state->dyn_obj_priority[obj_idx] =
             ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_DYN_OBJ_PRI_BITS);
       }
-- 
2.43.0


From 3b25aeec6d731b84a709f247feeb65868659f977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:51 +0000
Subject: [PATCH 34/97] fix: keep object metadata of each sub-frame in its own
 slot

---
 decoder/ia_core_coder_decode_main.c | 20 ++-----------
 decoder/impeghd_oam_dec.h           |  2 ++
 decoder/impeghd_oam_dec_ld.c        | 45 ++++++++++++++++++++++++++++-
 3 files changed, 49 insertions(+), 18 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 2a69aba..e5c4b7d 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1381,23 +1381,9 @@ impeghd_obj_md_dec_ren_process(ia_dec_data_struct *pstr_dec_data, FLOAT32 *ptr_o
   else
   {
     WORD32 num_iter = (ccfl / p_obj_md_cfg->frame_length);
-    pstr_obj_md_dec_state->sub_frame_number = 0;
     for (i = 0; i < num_iter; i++)
     {
-      if (pstr_obj_md_dec_state->sub_frame_obj_md_present[i])
-      {
-        pstr_obj_md_dec_state->sub_frame_number++;
-        if (pstr_obj_md_dec_state->sub_frame_number > num_iter)
-        {
-          pstr_obj_md_dec_state->sub_frame_number =
-              pstr_obj_md_dec_state->sub_frame_number % num_iter;
-        }
-      }
-      else if (i == 0)
-      {
-        pstr_obj_md_dec_state->sub_frame_number = num_iter;
-      }
-
+      pstr_obj_md_dec_state->sub_frame_number = i + 1;
       impeghd_obj_renderer_dec(pstr_obj_ren_dec_state,
                                ptr_in_buf + i * (p_obj_md_cfg->frame_length),
                                ptr_out_buf + i * (p_obj_md_cfg->frame_length), ccfl);
@@ -2036,14 +2022,14 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
           {
             WORD32 sub_frm;
             WORD32 num_sub_frms = (ccfl / p_obj_md_cfg->frame_length);
-            pstr_obj_md_dec_state->sub_frame_number = 0;
             for (sub_frm = 0; sub_frm < num_sub_frms; sub_frm++)
             {
+              pstr_obj_md_dec_state->sub_frame_number = sub_frm + 1;
+              impeghd_obj_md_hold(pstr_obj_md_dec_state, num_sub_frms);
               pstr_obj_md_dec_state->sub_frame_obj_md_present[sub_frm] =
                   ia_core_coder_read_bits_buf(&bit_buf_str, OAM_FLAG_BITS);
               if (pstr_obj_md_dec_state->sub_frame_obj_md_present[sub_frm])
               {
-                pstr_obj_md_dec_state->sub_frame_number++;
                 err_code = impeghd_obj_md_dec(pstr_obj_md_dec_state, &bit_buf_str);
                 if (err_code != IA_MPEGH_DEC_NO_ERROR)
                 {
diff --git a/decoder/impeghd_oam_dec.h b/decoder/impeghd_oam_dec.h
index 3b5490f..6b2bda3 100644
--- a/decoder/impeghd_oam_dec.h
+++ b/decoder/impeghd_oam_dec.h
@@ -45,6 +45,8 @@ IA_ERRORCODE impeghd_obj_md_cfg(ia_oam_dec_config_struct *p_obj_md_cfg,
 IA_ERRORCODE impeghd_obj_md_dec(ia_oam_dec_state_struct *ptr_oam_dec_state,
                                 ia_bit_buf_struct *ptr_bit_buf);
 
+VOID impeghd_obj_md_hold(ia_oam_dec_state_struct *ptr_oam_dec_state, WORD32 num_sub_frms);
+
 VOID impeghd_descale_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_state);
 
 IA_ERRORCODE impeghd_enh_obj_md_config(ia_enh_oam_config_struct *p_enh_obj_md_cfg,
diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 9cc6263..5cac718 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -683,6 +683,49 @@ VOID impeghd_descale_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_state)
   return;
 }
 
+/**
+ *  impeghd_obj_md_hold
+ *
+ *  \brief Carries the object metadata of the preceding sub-frame over to the current one
+ *
+ *  \param [in,out] ptr_oam_dec_state Object metadata decoder state structure.
+ *  \param [in]  num_sub_frms      Number of object metadata sub-frames in a frame.
+ *
+ *
+ *
+ */
+VOID impeghd_obj_md_hold(ia_oam_dec_state_struct *ptr_oam_dec_state, WORD32 num_sub_frms)
+{
+  WORD32 o;
+  WORD32 num_objects = ptr_oam_dec_state->num_objects;
+  WORD32 cur = (ptr_oam_dec_state->sub_frame_number - 1) * num_objects;
+  WORD32 prev = ((ptr_oam_dec_state->sub_frame_number + num_sub_frms - 2) % num_sub_frms) *
+                num_objects;
+  for (o = 0; o < num_objects; o++, cur++, prev++)
+  {
+    ptr_oam_dec_state->azimuth[cur] = ptr_oam_dec_state->azimuth[prev];
+    ptr_oam_dec_state->elevation[cur] = ptr_oam_dec_state->elevation[prev];
+    ptr_oam_dec_state->radius[cur] = ptr_oam_dec_state->radius[prev];
+    ptr_oam_dec_state->gain[cur] = ptr_oam_dec_state->gain[prev];
+    ptr_oam_dec_state->spread_width[cur] = ptr_oam_dec_state->spread_width[prev];
+    ptr_oam_dec_state->spread_height[cur] = ptr_oam_dec_state->spread_height[prev];
+    ptr_oam_dec_state->spread_depth[cur] = ptr_oam_dec_state->spread_depth[prev];
+    ptr_oam_dec_state->dyn_obj_priority[cur] = ptr_oam_dec_state->dyn_obj_priority[prev];
+    ptr_oam_dec_state->azimuth_descaled[cur] = ptr_oam_dec_state->azimuth_descaled[prev];
+    ptr_oam_dec_state->elevation_descaled[cur] = ptr_oam_dec_state->elevation_descaled[prev];
+    ptr_oam_dec_state->radius_descaled[cur] = ptr_oam_dec_state->radius_descaled[prev];
+    ptr_oam_dec_state->gain_descaled[cur] = ptr_oam_dec_state->gain_descaled[prev];
+    ptr_oam_dec_state->spread_width_descaled[cur] =
+        ptr_oam_dec_state->spread_width_descaled[prev];
+    ptr_oam_dec_state->spread_height_descaled[cur] =
+        ptr_oam_dec_state->spread_height_descaled[prev];
+    ptr_oam_dec_state->spread_depth_descaled[cur] =
+        ptr_oam_dec_state->spread_depth_descaled[prev];
+    ptr_oam_dec_state->dyn_obj_priority_descaled[cur] =
+        ptr_oam_dec_state->dyn_obj_priority_descaled[prev];
+  }
+}
+
 /**
  *  impeghd_obj_md_low_delay_dec
  *
@@ -710,7 +753,7 @@ IA_ERRORCODE impeghd_obj_md_low_delay_dec(ia_oam_dec_state_struct *ptr_oam_dec_s
     for (i = obj_start_idx; i < obj_end_idx; i++)
     {
       WORD32 obj_md_present = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_FLAG_BITS);
-      ptr_oam_dec_state->has_obj_md[obj_start_idx] = obj_md_present;
+      ptr_oam_dec_state->has_obj_md[i] = obj_md_present;
       if (obj_md_present)
       {
         err_code = impeghd_single_dyn_obj_md(ptr_oam_dec_state, ptr_bit_buf, flag_absolute, i);
-- 
2.43.0


From 6f6599a4854ac355d5531483a25655898cdc044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:55 +0000
Subject: [PATCH 35/97] fix: limit and hold object metadata in every sub-frame

---
 decoder/ia_core_coder_decode_main.c | 27 ++++++++++++++++++---------
 decoder/impeghd_oam_dec_ld.c        | 23 ++++++++++++-----------
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index e5c4b7d..9b33317 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2001,17 +2001,16 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
         ia_bit_buf_struct bit_buf_str;
         ia_core_coder_create_init_bit_buf(&bit_buf_str, ptr_bit_buf_base, bit_buf_size);
         bit_buf_str.xmpeghd_jmp_buf = pstr_dec_data->dec_bit_buf.xmpeghd_jmp_buf;
+        ia_audio_specific_config_struct *pstr_audio_specific_cfg =
+            &pstr_dec_data->str_frame_data.str_audio_specific_config;
+        ia_oam_dec_config_struct *p_obj_md_cfg =
+            &pstr_audio_specific_cfg->str_usac_config.obj_md_cfg;
+        ia_obj_ren_dec_state_struct *pstr_obj_ren_dec_state =
+            &pstr_dec_data->str_obj_ren_dec_state;
+        ia_oam_dec_state_struct *pstr_obj_md_dec_state =
+            &pstr_obj_ren_dec_state->str_obj_md_dec_state;
         if (bit_buf_size > 0)
         {
-          ia_audio_specific_config_struct *pstr_audio_specific_cfg =
-              &pstr_dec_data->str_frame_data.str_audio_specific_config;
-          ia_oam_dec_config_struct *p_obj_md_cfg =
-              &pstr_audio_specific_cfg->str_usac_config.obj_md_cfg;
-          ia_obj_ren_dec_state_struct *pstr_obj_ren_dec_state =
-              &pstr_dec_data->str_obj_ren_dec_state;
-          ia_oam_dec_state_struct *pstr_obj_md_dec_state =
-              &pstr_obj_ren_dec_state->str_obj_md_dec_state;
-
           if ((p_obj_md_cfg->frame_length != 256) && (p_obj_md_cfg->frame_length != 512) &&
               (p_obj_md_cfg->frame_length != 1024))
           {
@@ -2048,6 +2047,16 @@ IA_ERRORCODE ia_core_coder_dec_ext_ele_proc(VOID *temp_handle, WORD32 *num_chann
             }
           }
         }
+        else if (p_obj_md_cfg->frame_length > 0)
+        {
+          WORD32 sub_frm;
+          WORD32 num_sub_frms = (ccfl / p_obj_md_cfg->frame_length);
+          for (sub_frm = 0; sub_frm < num_sub_frms; sub_frm++)
+          {
+            pstr_obj_md_dec_state->sub_frame_number = sub_frm + 1;
+            impeghd_obj_md_hold(pstr_obj_md_dec_state, num_sub_frms);
+          }
+        }
         break;
       }
       }
diff --git a/decoder/impeghd_oam_dec_ld.c b/decoder/impeghd_oam_dec_ld.c
index 5cac718..4577b9a 100644
--- a/decoder/impeghd_oam_dec_ld.c
+++ b/decoder/impeghd_oam_dec_ld.c
@@ -70,13 +70,14 @@
  */
 static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_state)
 {
-  WORD32 n, num_elements;
+  WORD32 n, start, end;
   FLOAT32 minval, maxval;
-  num_elements = ptr_oam_dec_state->num_objects;
+  start = (ptr_oam_dec_state->sub_frame_number - 1) * ptr_oam_dec_state->num_objects;
+  end = start + ptr_oam_dec_state->num_objects;
   /* radius */
   maxval = 16.f;
   minval = 0.5f;
-  for (n = 0; n < num_elements; n++)
+  for (n = start; n < end; n++)
   {
     ptr_oam_dec_state->radius_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->radius_descaled[n], minval), maxval);
@@ -84,7 +85,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* elevation */
   maxval = 90;
   minval = -90;
-  for (n = 0; n < num_elements; n++)
+  for (n = start; n < end; n++)
   {
     ptr_oam_dec_state->elevation_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->elevation_descaled[n], minval), maxval);
@@ -92,7 +93,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* azimuth */
   maxval = 180;
   minval = -180;
-  for (n = 0; n < num_elements; n++)
+  for (n = start; n < end; n++)
   {
     ptr_oam_dec_state->azimuth_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->azimuth_descaled[n], minval), maxval);
@@ -100,7 +101,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* gain */
   maxval = 5.957f;
   minval = 0.004f;
-  for (n = 0; n < num_elements; n++)
+  for (n = start; n < end; n++)
   {
     ptr_oam_dec_state->gain_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->gain_descaled[n], minval), maxval);
@@ -108,7 +109,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* spread */
   maxval = 180;
   minval = 0;
-  for (n = 0; n < num_elements; n++)
+  for (n = start; n < end; n++)
   {
     ptr_oam_dec_state->spread_width_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->spread_width_descaled[n], minval), maxval);
@@ -118,7 +119,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
     /* spread depth */
     maxval = 15.5f;
     minval = 0.0f;
-    for (n = 0; n < num_elements; n++)
+    for (n = start; n < end; n++)
     {
       ptr_oam_dec_state->spread_depth_descaled[n] =
           ia_min_int(ia_max_int(ptr_oam_dec_state->spread_depth_descaled[n], minval), maxval);
@@ -126,7 +127,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
     /* spread height */
     maxval = 90;
     minval = 0;
-    for (n = 0; n < num_elements; n++)
+    for (n = start; n < end; n++)
     {
       ptr_oam_dec_state->spread_height_descaled[n] =
           ia_min_int(ia_max_int(ptr_oam_dec_state->spread_height_descaled[n], minval), maxval);
@@ -135,7 +136,7 @@ static VOID impeghd_limit_range_ld_obj_md(ia_oam_dec_state_struct *ptr_oam_dec_s
   /* dynamic object priority */
   maxval = 7.0f;
   minval = 0.0f;
-  for (n = 0; n < num_elements; n++)
+  for (n = start; n < end; n++)
   {
     ptr_oam_dec_state->dyn_obj_priority_descaled[n] =
         ia_min_int(ia_max_int(ptr_oam_dec_state->dyn_obj_priority_descaled[n], minval), maxval);
@@ -598,7 +599,7 @@ static IA_ERRORCODE impeghd_ic_obj_md_ld_dec(ia_oam_dec_state_struct *ptr_oam_de
       if (ptr_oam_dec_state->p_obj_md_cfg->uniform_spread_present)
       {
         param_val = ia_core_coder_read_bits_buf(ptr_bit_buf, OAM_SPREAD_WIDTH_BITS);
-        for (i = 0; i < num_objects; i++)
+        for (i = obj_idx_start; i < obj_idx_end; i++)
         {
           ptr_oam_dec_state->spread_width[i] = param_val;
         }
-- 
2.43.0


From c65382a06a5318ef544a682a5ee0e9b34c256103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 36/97] fix: choose limiter and output rate anew when the
 configuration changes the sampling rate

---
 decoder/ia_core_coder_decode_main.c | 23 +++++++++++++----------
 decoder/ia_core_coder_struct_def.h  |  2 ++
 decoder/impeghd_api.c               |  5 ++++-
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 9b33317..ff7978d 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1870,24 +1870,27 @@ IA_ERRORCODE ia_core_coder_dec_process_frame_zero(VOID *temp_handle, WORD32 *num
 
   {
     WORD32 samp_freq = pstr_asc->str_usac_config.usac_sampling_frequency;
-    if (handle->p_state_mpeghd->p_config->resample_output)
+    ia_mpegh_dec_config_struct *p_config = handle->p_state_mpeghd->p_config;
+    /* each configuration decides anew whether its rate can be converted to the requested one */
+    p_config->stream_samp_freq = samp_freq;
+    p_config->out_samp_freq = samp_freq;
+    p_config->resample_output = 0;
+    if (p_config->enable_resamp && (UWORD32)samp_freq != p_config->req_out_samp_freq)
     {
-      handle->p_state_mpeghd->p_config->stream_samp_freq = samp_freq;
-      if (impeghd_resampler_get_sampling_ratio(handle->p_state_mpeghd->p_config))
+      p_config->out_samp_freq = p_config->req_out_samp_freq;
+      if (impeghd_resampler_get_sampling_ratio(p_config))
       {
-        handle->p_state_mpeghd->p_config->resample_output = 0;
-        handle->p_state_mpeghd->p_config->out_samp_freq = samp_freq;
+        p_config->resample_output = 0;
+        p_config->out_samp_freq = samp_freq;
       }
     }
-    if ((pstr_asc->str_usac_config.usac_sampling_frequency !=
-         handle->p_state_mpeghd->p_config->out_samp_freq) &&
-        handle->p_state_mpeghd->p_config->resample_output)
+    if (p_config->resample_output)
     {
-      samp_freq = handle->p_state_mpeghd->p_config->out_samp_freq;
+      samp_freq = p_config->out_samp_freq;
     }
     else
     {
-      handle->p_state_mpeghd->p_config->resample_output = 0;
+      p_config->output_framelength = AUDIO_CODEC_FRAME_SIZE_MAX;
     }
     err_code = impeghd_peak_limiter_init(&pstr_dec_data->str_peak_limiter, *num_channel_out,
                                          samp_freq, &pstr_dec_data->str_peak_limiter.buffer[0]);
diff --git a/decoder/ia_core_coder_struct_def.h b/decoder/ia_core_coder_struct_def.h
index cca5e5f..717dba0 100644
--- a/decoder/ia_core_coder_struct_def.h
+++ b/decoder/ia_core_coder_struct_def.h
@@ -87,6 +87,8 @@ typedef struct
   WORD32 ui_binaural_flag;
   WORD32 stream_samp_freq;
   UWORD32 out_samp_freq;
+  WORD32 enable_resamp;
+  UWORD32 req_out_samp_freq;
   WORD32 resample_output;
   WORD32 output_framelength;
   WORD32 fac_up;
diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 273224e..4369924 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -226,6 +226,7 @@ static VOID impeghd_set_default_config(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   p_obj_mpegh_dec->mpeghd_config.ui_loud_norm_flag = IMPEGHD_CONFIG_PARAM_LOUD_NORM_FLG_DFLT_VAL;
   p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx = IMPEGHD_CONFIG_PARAM_CICP_IDX_DFLT_VAL;
   p_obj_mpegh_dec->mpeghd_config.i_preset_id = IMPEGHD_CONFIG_PARAM_PRESET_ID_DFLT_VAL;
+  p_obj_mpegh_dec->mpeghd_config.enable_resamp = 0;
   p_obj_mpegh_dec->mpeghd_config.resample_output = 0;
   p_obj_mpegh_dec->mpeghd_config.output_framelength = AUDIO_CODEC_FRAME_SIZE_MAX;
   p_obj_mpegh_dec->mpeghd_config.fac_down = 1;
@@ -287,6 +288,8 @@ static IA_ERRORCODE impeghd_set_config_params(ia_mpegh_dec_api_struct *p_obj_mpe
   if (ptr_input_config->enable_resamp)
   {
     p_obj_mpegh_dec->mpeghd_config.resample_output = 1;
+    p_obj_mpegh_dec->mpeghd_config.enable_resamp = 1;
+    p_obj_mpegh_dec->mpeghd_config.req_out_samp_freq = ptr_input_config->out_samp_freq;
     p_obj_mpegh_dec->mpeghd_config.out_samp_freq = ptr_input_config->out_samp_freq;
   }
   if (ptr_input_config->ui_effect != IMPEGHD_CONFIG_PARAM_EFFECT_TYPE_DFLT_VAL)
@@ -1124,7 +1127,7 @@ IA_ERRORCODE ia_mpegh_dec_execute(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOI
   {
     pstr_output_config->num_out_bytes = p_obj_mpegh_dec->p_state_mpeghd->ui_out_bytes;
   }
-  if (pstr_input_config->enable_resamp)
+  if (p_obj_mpegh_dec->mpeghd_config.resample_output)
   {
     pstr_output_config->i_samp_freq = p_obj_mpegh_dec->mpeghd_config.out_samp_freq;
   }
-- 
2.43.0


From d66bbc1e695329cc5104cc6c5c3f04bf00b2d6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 37/97] fix: do not report a requested rate the resampler has
 no ratio for

---
 decoder/impeghd_api.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 4369924..4a8b343 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -201,6 +201,8 @@ IA_ERRORCODE impeghd_resampler_get_sampling_ratio(ia_mpegh_dec_config_struct *pt
     ptr_config->fac_down = 1;
     ptr_config->fac_up = 3;
     break;
+  default:
+    return IA_MPEGH_DEC_INIT_NONFATAL_INVALID_RESAMPLE_RATIO;
   }
   ptr_config->output_framelength =
       (AUDIO_CODEC_FRAME_SIZE_MAX * ptr_config->fac_up) / ptr_config->fac_down;
@@ -807,7 +809,7 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   }
 
   err_code = ia_core_coder_dec_init(p_obj_mpegh_dec);
-  if (pstr_input_config->enable_resamp == 1)
+  if (pstr_input_config->enable_resamp == 1 && p_obj_mpegh_dec->mpeghd_config.ui_samp_freq != 0)
   {
     IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
     if (p_obj_mpegh_dec->mpeghd_config.ui_samp_freq != pstr_input_config->out_samp_freq)
-- 
2.43.0


From 6558296d2333961dd790dae144d4fe35503334b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 38/97] fix: continue behind the packet of a damaged frame
 instead of dropping or misreading what follows

---
 decoder/ia_core_coder_decode_main.c |  8 ++++++++
 decoder/ia_core_coder_struct_def.h  |  1 +
 decoder/impeghd_api.c               | 21 +++++++++++++++++----
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index ff7978d..0e4976e 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2443,6 +2443,14 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
         return err_code;
       }
     }
+    if (MHAS_PAC_TYP_MPEGH3DAFRAME == pac_info.packet_type &&
+        pac_info.packet_length <= (pstr_dec_data->dec_bit_buf.cnt_bits >> 3))
+    {
+      /* the whole frame is here: the next packet starts behind it, however its decoding ends */
+      mpegh_dec_handle->frame_end_bytes =
+          ((pstr_dec_data->dec_bit_buf.size - pstr_dec_data->dec_bit_buf.cnt_bits) >> 3) +
+          pac_info.packet_length;
+    }
     if (pstr_asc->str_mae_asi.earcon_info.earcon_present &&
         pstr_asc->str_mae_asi.earcon_info.earcon_cicp_spk_idx[0] > 0)
     {
diff --git a/decoder/ia_core_coder_struct_def.h b/decoder/ia_core_coder_struct_def.h
index 717dba0..deeda35 100644
--- a/decoder/ia_core_coder_struct_def.h
+++ b/decoder/ia_core_coder_struct_def.h
@@ -162,6 +162,7 @@ typedef struct ia_mpegh_dec_state_struct
   jmp_buf *xmpeghd_jmp_buf;
   WORD8 prev_cfg_data[MAX_CFG_DATA_LENGTH];
   WORD32 prev_cfg_len;
+  WORD32 frame_end_bytes;
   WORD32 flush;
 } ia_mpegh_dec_state_struct;
 
diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 4a8b343..dd5f75d 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -1402,8 +1402,12 @@ ia_core_coder_dec_execute(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   {
     if (input_file_read != IA_MPEGH_DEC_NO_ERROR)
     {
-      p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed =
-          p_obj_mpegh_dec->p_state_mpeghd->ui_in_bytes;
+      if (p_obj_mpegh_dec->p_state_mpeghd->frame_end_bytes > 0)
+        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed =
+            p_obj_mpegh_dec->p_state_mpeghd->frame_end_bytes;
+      else
+        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed =
+            p_obj_mpegh_dec->p_state_mpeghd->ui_in_bytes;
       p_obj_mpegh_dec->p_state_mpeghd->ui_out_bytes = 0;
       return IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_INPUT_BYTES;
     }
@@ -1412,6 +1416,7 @@ ia_core_coder_dec_execute(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   p_state_mpegh_dec->mpeghd_scratch_mem_v = p_obj_mpegh_dec->pp_mem_mpeghd[SCRATCH_IDX];
 
   p_state_mpegh_dec->i_bytes_consumed = 0;
+  p_state_mpegh_dec->frame_end_bytes = 0;
   p_state_mpegh_dec->xmpeghd_jmp_buf = &ifile_init_jmp_buf;
 
   WORD32 pcm_size = p_obj_mpegh_dec->mpeghd_config.ui_pcm_wdsz;
@@ -1454,7 +1459,11 @@ ia_core_coder_dec_execute(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
 
     if (error_code != IA_MPEGH_DEC_NO_ERROR)
     {
-      if (pstr_dec_data->dec_bit_buf.size != 0 && pstr_dec_data->dec_bit_buf.cnt_bits >= 0)
+      if (p_state_mpegh_dec->frame_end_bytes > 0)
+      {
+        p_state_mpegh_dec->i_bytes_consumed = p_state_mpegh_dec->frame_end_bytes;
+      }
+      else if (pstr_dec_data->dec_bit_buf.size != 0 && pstr_dec_data->dec_bit_buf.cnt_bits >= 0)
       {
         p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed =
             (pstr_dec_data->dec_bit_buf.size - pstr_dec_data->dec_bit_buf.cnt_bits + 7) >> 3;
@@ -1470,7 +1479,11 @@ ia_core_coder_dec_execute(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   if (p_obj_mpegh_dec->p_state_mpeghd->flush == 0)
   {
     p_obj_mpegh_dec->p_state_mpeghd->frame_counter++;
-    if (pstr_dec_data->dec_bit_buf.size != 0 && pstr_dec_data->dec_bit_buf.cnt_bits >= 0)
+    if (p_state_mpegh_dec->frame_end_bytes > 0)
+    {
+      p_state_mpegh_dec->i_bytes_consumed = p_state_mpegh_dec->frame_end_bytes;
+    }
+    else if (pstr_dec_data->dec_bit_buf.size != 0 && pstr_dec_data->dec_bit_buf.cnt_bits >= 0)
     {
       p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed =
           (pstr_dec_data->dec_bit_buf.size - pstr_dec_data->dec_bit_buf.cnt_bits + 7) >> 3;
-- 
2.43.0


From 00c060dbf728b5f97b4389e80df40cd9526ed740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 39/97] fix: find the configuration that follows unusable
 packets or a refused configuration

---
 decoder/ia_core_coder_decode_main.c  |  5 +++--
 decoder/ia_core_coder_headerdecode.c | 11 ++++++++---
 decoder/impeghd_api.c                |  7 +++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 0e4976e..aacf1bb 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2443,10 +2443,11 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
         return err_code;
       }
     }
-    if (MHAS_PAC_TYP_MPEGH3DAFRAME == pac_info.packet_type &&
+    if ((MHAS_PAC_TYP_MPEGH3DAFRAME == pac_info.packet_type ||
+         MHAS_PAC_TYP_MPEGH3DACFG == pac_info.packet_type) &&
         pac_info.packet_length <= (pstr_dec_data->dec_bit_buf.cnt_bits >> 3))
     {
-      /* the whole frame is here: the next packet starts behind it, however its decoding ends */
+      /* the whole packet is here: the next one starts behind it, however its decoding ends */
       mpegh_dec_handle->frame_end_bytes =
           ((pstr_dec_data->dec_bit_buf.size - pstr_dec_data->dec_bit_buf.cnt_bits) >> 3) +
           pac_info.packet_length;
diff --git a/decoder/ia_core_coder_headerdecode.c b/decoder/ia_core_coder_headerdecode.c
index 7066295..e77e06c 100644
--- a/decoder/ia_core_coder_headerdecode.c
+++ b/decoder/ia_core_coder_headerdecode.c
@@ -148,6 +148,7 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
   WORD32 header_len;
   WORD32 bit_offset;
   WORD32 is_ga_header = 0;
+  WORD32 packet_end = 0;
   WORD32 ui_raw_flag;
 
   ia_mpegh_dec_state_struct *mpeghd_state_struct = p_obj_mpegh_dec->pp_mem_mpeghd[PERSIST_IDX];
@@ -178,15 +179,18 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
     if (0 == ui_raw_flag)
     {
       impeghd_mhas_parse(&info, &pstr_asc->str_mae_asi, handle_bit_buff);
+      /* a packet that cannot be used is left behind as a whole */
+      packet_end = ((header_len << 3) - handle_bit_buff->cnt_bits) >> 3;
+      packet_end += info.packet_length;
       if (MHAS_PAC_TYP_MPEGH3DACFG != info.packet_type)
       {
-        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
+        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = packet_end;
         return IA_MPEGH_DEC_INIT_FATAL_3DACONFIG_DATA_NOT_FOUND;
       }
     }
     if (info.packet_length > MAX_CFG_DATA_LENGTH)
     {
-      p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
+      p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = packet_end;
       return IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED;
     }
     {
@@ -209,7 +213,7 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
       err = impegh_3daudio_config_dec(mpeghd_state_struct, bytes_consumed, handle_bit_buff);
       if (err != IA_MPEGH_DEC_NO_ERROR)
       {
-        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = info.packet_length;
+        p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed = packet_end;
         return err;
       }
       if (0 == ui_raw_flag)
@@ -220,6 +224,7 @@ IA_ERRORCODE ia_core_coder_headerdecode(ia_mpegh_dec_api_struct *p_obj_mpegh_dec
         {
           return IA_MPEGH_DEC_EXE_FATAL_DECODE_FRAME_ERROR;
         }
+        *bytes_consumed = packet_end;
       }
     }
     return err;
diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index dd5f75d..3df7d2a 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -1304,6 +1304,9 @@ ia_core_coder_dec_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
                                               &header_bytes_consumed);
       if (return_val < 0)
       {
+        /* look for a configuration again in what follows */
+        p_obj_mpegh_dec->mpeghd_config.ui_samp_freq = 0;
+        p_state_mpegh_dec->prev_cfg_len = 0;
         if (return_val == (WORD32)IA_MPEGH_DEC_INIT_FATAL_STREAM_CHAN_GT_MAX)
         {
           p_state_mpegh_dec->i_bytes_consumed = header_bytes_consumed;
@@ -1335,7 +1338,11 @@ ia_core_coder_dec_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
                                               frames_done, pcm_size,
                                               &p_obj_mpegh_dec->p_state_mpeghd->num_of_output_ch);
           if (error_code)
+          {
+            p_obj_mpegh_dec->mpeghd_config.ui_samp_freq = 0;
+            p_state_mpegh_dec->prev_cfg_len = 0;
             return error_code;
+          }
           p_obj_mpegh_dec->p_state_mpeghd->frame_counter++;
 
           p_obj_mpegh_dec->mpeghd_config.ui_n_channels =
-- 
2.43.0


From b6f3788756bc3a44319b1d57bba6eb43e03872d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 40/97] fix: look for the next configuration after one was
 refused mid-stream

---
 decoder/impeghd_api.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 3df7d2a..a9f4263 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -809,6 +809,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   }
 
   err_code = ia_core_coder_dec_init(p_obj_mpegh_dec);
+  if (err_code != IA_MPEGH_DEC_NO_ERROR)
+  {
+    /* the next call looks for a configuration in what follows */
+    p_obj_mpegh_dec->mpeghd_config.ui_samp_freq = 0;
+    p_obj_mpegh_dec->p_state_mpeghd->prev_cfg_len = 0;
+  }
   if (pstr_input_config->enable_resamp == 1 && p_obj_mpegh_dec->mpeghd_config.ui_samp_freq != 0)
   {
     IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
@@ -1219,6 +1225,13 @@ ia_core_coder_decoder_flush_api(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   p_obj_mpegh_dec->p_state_mpeghd->decode_create_done = 0;
 
   err = ia_core_coder_dec_init(p_obj_mpegh_dec);
+  if (err != IA_MPEGH_DEC_NO_ERROR)
+  {
+    /* nothing can be decoded until another configuration is accepted */
+    p_obj_mpegh_dec->mpeghd_config.ui_samp_freq = 0;
+    p_obj_mpegh_dec->p_state_mpeghd->frame_counter = 0;
+    p_obj_mpegh_dec->p_state_mpeghd->prev_cfg_len = 0;
+  }
   p_obj_mpegh_dec->p_state_mpeghd->flush = 1;
   return err;
 }
@@ -1304,9 +1317,6 @@ ia_core_coder_dec_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
                                               &header_bytes_consumed);
       if (return_val < 0)
       {
-        /* look for a configuration again in what follows */
-        p_obj_mpegh_dec->mpeghd_config.ui_samp_freq = 0;
-        p_state_mpegh_dec->prev_cfg_len = 0;
         if (return_val == (WORD32)IA_MPEGH_DEC_INIT_FATAL_STREAM_CHAN_GT_MAX)
         {
           p_state_mpegh_dec->i_bytes_consumed = header_bytes_consumed;
@@ -1338,11 +1348,7 @@ ia_core_coder_dec_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
                                               frames_done, pcm_size,
                                               &p_obj_mpegh_dec->p_state_mpeghd->num_of_output_ch);
           if (error_code)
-          {
-            p_obj_mpegh_dec->mpeghd_config.ui_samp_freq = 0;
-            p_state_mpegh_dec->prev_cfg_len = 0;
             return error_code;
-          }
           p_obj_mpegh_dec->p_state_mpeghd->frame_counter++;
 
           p_obj_mpegh_dec->mpeghd_config.ui_n_channels =
@@ -1458,6 +1464,12 @@ ia_core_coder_dec_execute(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
         ->str_frame_data.str_audio_specific_config.str_usac_config.str_usac_dec_config
         .preroll_counter = 0;
 
+    if (frames_done == 0)
+    {
+      /* the last configuration was refused: look for another one */
+      p_state_mpegh_dec->ui_out_bytes = 0;
+      return ia_core_coder_decoder_flush_api(p_obj_mpegh_dec);
+    }
     if (p_obj_mpegh_dec->p_state_mpeghd->num_of_output_ch > MAX_NUM_CHANNELS)
       return IA_MPEGH_DEC_INIT_FATAL_STREAM_CHAN_GT_MAX;
     error_code =
-- 
2.43.0


From 6e5754d73cbbfb49a36ed426a7a9fbd028675955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 41/97] fix: clear the renderer state used to derive a downmix
 instead of relying on old scratch content

---
 decoder/ia_core_coder_decode_main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index aacf1bb..07ff718 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -663,8 +663,10 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
       ia_obj_ren_dec_state_struct *pstr_obj_renderer = (ia_obj_ren_dec_state_struct *)ptr_scratch;
       ptr_scratch += sizeof(*pstr_obj_renderer);
       ia_oam_dec_config_struct *p_obj_md_cfg = (ia_oam_dec_config_struct *)ptr_scratch;
+      ptr_scratch += sizeof(*p_obj_md_cfg);
 
-      memset(&pstr_obj_renderer->str_obj_md_dec_state, 0, sizeof(*p_obj_md_cfg));
+      memset(pstr_obj_renderer, 0, sizeof(*pstr_obj_renderer));
+      memset(p_obj_md_cfg, 0, sizeof(*p_obj_md_cfg));
 
       pstr_obj_renderer->str_obj_md_dec_state.p_obj_md_cfg = p_obj_md_cfg;
       pstr_obj_renderer->str_obj_md_dec_state.num_objects = num_out_chn;
-- 
2.43.0


From 8bbe020bc52ffd209d34290f5c20a354d7d2a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 42/97] fix: do not route derived downmix gains to the LFE and
 shift the channels behind it

---
 decoder/ia_core_coder_decode_main.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 07ff718..9a2b710 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -718,9 +718,19 @@ IA_ERRORCODE impeghd_format_conv_init(ia_mpegh_dec_api_struct *p_obj_mpegh_dec,
         {
           return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INIT_FAIL;
         }
+        WORD32 num_lfe = 0;
         for (out_chn = 0; out_chn < num_out_chn; out_chn++)
         {
-          pstr_fc_params->downmix_mat[chn][out_chn] = pstr_obj_renderer->final_gains[out_chn];
+          if (ptr_cicp_out_geometry[out_chn]->lfe_flag)
+          {
+            pstr_fc_params->downmix_mat[chn][out_chn] = 0;
+            num_lfe++;
+          }
+          else
+          {
+            pstr_fc_params->downmix_mat[chn][out_chn] =
+                pstr_obj_renderer->final_gains[out_chn - num_lfe];
+          }
         }
       }
 
-- 
2.43.0


From 585531b487e6e236515a0c6a580257a94bb0f5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 43/97] fix: do not look for packets inside a frame whose end
 is missing

---
 decoder/ia_core_coder_decode_main.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 9a2b710..aab3bbc 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2455,14 +2455,17 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
         return err_code;
       }
     }
-    if ((MHAS_PAC_TYP_MPEGH3DAFRAME == pac_info.packet_type ||
-         MHAS_PAC_TYP_MPEGH3DACFG == pac_info.packet_type) &&
-        pac_info.packet_length <= (pstr_dec_data->dec_bit_buf.cnt_bits >> 3))
-    {
-      /* the whole packet is here: the next one starts behind it, however its decoding ends */
-      mpegh_dec_handle->frame_end_bytes =
-          ((pstr_dec_data->dec_bit_buf.size - pstr_dec_data->dec_bit_buf.cnt_bits) >> 3) +
-          pac_info.packet_length;
+    if (MHAS_PAC_TYP_MPEGH3DAFRAME == pac_info.packet_type ||
+        MHAS_PAC_TYP_MPEGH3DACFG == pac_info.packet_type)
+    {
+      /* the next packet starts behind this one, however its decoding ends; if the input ends
+         before that, no part of it can be taken for another packet */
+      if (pac_info.packet_length <= (pstr_dec_data->dec_bit_buf.cnt_bits >> 3))
+        mpegh_dec_handle->frame_end_bytes =
+            ((pstr_dec_data->dec_bit_buf.size - pstr_dec_data->dec_bit_buf.cnt_bits) >> 3) +
+            pac_info.packet_length;
+      else
+        mpegh_dec_handle->frame_end_bytes = mpegh_dec_handle->ui_in_bytes;
     }
     if (pstr_asc->str_mae_asi.earcon_info.earcon_present &&
         pstr_asc->str_mae_asi.earcon_info.earcon_cicp_spk_idx[0] > 0)
-- 
2.43.0


From 46856a8dbef96a14bfc4b439129282c4dba851a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 44/97] fix: use all three peak filters of the top channel
 equaliser in every band

---
 decoder/impeghd_format_conv_init.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/decoder/impeghd_format_conv_init.c b/decoder/impeghd_format_conv_init.c
index d73aed7..1aec4ab 100644
--- a/decoder/impeghd_format_conv_init.c
+++ b/decoder/impeghd_format_conv_init.c
@@ -282,16 +282,21 @@ static IA_ERRORCODE impeghd_fc_eq_compute(const WORD32 samp_rate,
     for (i = 0; i < FC_ERB_BANDS; i++)
     {
       ptr_eq[i] = 1.0f;
-      if ((RULE_EQ4 == rules) || (RULE_EQ3 == rules))
+      if (RULE_EQ4 == rules)
       {
         ptr_eq[i] *= impeghd_fc_filter_peak(&ptr_filter_param[0], *ptr_frequency);
         ptr_eq[i] *= impeghd_fc_filter_peak(&ptr_filter_param[4], *ptr_frequency);
       }
-      if (RULE_EQ3 == rules)
-        ptr_filter_param = &ia_peak_filter_params_fc[2][4];
-      if (RULE_EQ4 != rules)
+      else
+      {
         ptr_eq[i] *=
             impeghd_format_conv_peak_filter_neg_gain(ptr_filter_param, *ptr_frequency, 1, 1);
+      }
+      if (RULE_EQ3 == rules)
+      {
+        ptr_eq[i] *= impeghd_fc_filter_peak(&ptr_filter_param[4], *ptr_frequency);
+        ptr_eq[i] *= impeghd_fc_filter_peak(&ptr_filter_param[8], *ptr_frequency);
+      }
       ptr_frequency++;
     }
   }
-- 
2.43.0


From 4e7d25ef2cf8f79ede754bcbe574bc2428bc2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 45/97] fix: mix the top channel to the loudspeakers of a
 layer, not to a range of loudspeaker numbers that holds the LFE

---
 decoder/impeghd_format_conv_init.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/decoder/impeghd_format_conv_init.c b/decoder/impeghd_format_conv_init.c
index 1aec4ab..1bea528 100644
--- a/decoder/impeghd_format_conv_init.c
+++ b/decoder/impeghd_format_conv_init.c
@@ -112,7 +112,7 @@ IA_ERRORCODE impeghd_format_conv_dmx_init(ia_format_conv_dmx_state *active_dmx,
  */
 static WORD8 impeghd_m_channel(const WORD32 channel)
 {
-  if ((channel >= CH_M_000) && (channel <= CH_M_180))
+  if (!ia_cicp_ls_geo_tbls[channel].lfe_flag && (ia_cicp_ls_geo_tbls[channel].ls_elevation == 0))
   {
     return 1;
   }
@@ -132,7 +132,8 @@ static WORD8 impeghd_m_channel(const WORD32 channel)
  */
 static WORD8 impeghd_u_channel(const WORD32 channel)
 {
-  if ((channel >= CH_U_000) && (channel <= CH_U_180))
+  if (!ia_cicp_ls_geo_tbls[channel].lfe_flag && (ia_cicp_ls_geo_tbls[channel].ls_elevation > 0) &&
+      (channel != CH_T_000))
   {
     return 1;
   }
@@ -694,19 +695,18 @@ IA_ERRORCODE impeghd_format_conv_init_data(FLOAT32 *ptr_scratch,
           if (ia_dmx_rules_fc[k][4] == RULE_TOP2ALLM) // Not Entering IF statement
           {
             num_chanl = 0;
-            for (chnl_u = CH_M_000; chnl_u <= CH_M_180; chnl_u++)
+            for (chnl_u = 0; chnl_u < (WORD32)out_chn_num; chnl_u++)
             {
-              if (impeghd_fc_find_channel(chnl_u, out_chn_num, ptr_out_ch_format) != -1)
+              if (impeghd_m_channel(ptr_out_ch_format[chnl_u]))
                 num_chanl++;
             }
             if (num_chanl > 0) // Max value can be 9
             {
               gain = 1.0f / (FLOAT32)ia_sqrt_flt(num_chanl);
-              for (chnl_u = CH_M_000; chnl_u <= CH_M_180; chnl_u++)
+              for (chnl_u = 0; chnl_u < (WORD32)out_chn_num; chnl_u++)
               {
                 ptr_io_src[channel] = i;
-                ptr_io_dst[channel] =
-                    impeghd_fc_find_channel(chnl_u, out_chn_num, ptr_out_ch_format);
+                ptr_io_dst[channel] = impeghd_m_channel(ptr_out_ch_format[chnl_u]) ? chnl_u : -1;
                 ptr_io_gain[channel] =
                     ia_mul_flt(ia_mul_flt(0.01f, (FLOAT32)ia_dmx_rules_fc[k][3]), gain);
                 ptr_io_proc[channel] = ia_dmx_rules_fc[k][7];
@@ -721,19 +721,18 @@ IA_ERRORCODE impeghd_format_conv_init_data(FLOAT32 *ptr_scratch,
           if (ia_dmx_rules_fc[k][4] == RULE_TOP2ALLU) // Not entering the IF statement
           {
             num_chanl = 0;
-            for (chnl_u = CH_U_000; chnl_u <= CH_U_180; chnl_u++)
+            for (chnl_u = 0; chnl_u < (WORD32)out_chn_num; chnl_u++)
             {
-              if (impeghd_fc_find_channel(chnl_u, out_chn_num, ptr_out_ch_format) != -1)
+              if (impeghd_u_channel(ptr_out_ch_format[chnl_u]))
                 num_chanl++;
             }
             if (num_chanl > 0) // Max value can be 9
             {
               gain = 1.0f / (FLOAT32)ia_sqrt_flt(num_chanl);
-              for (chnl_u = CH_U_000; chnl_u <= CH_U_180; chnl_u++)
+              for (chnl_u = 0; chnl_u < (WORD32)out_chn_num; chnl_u++)
               {
                 ptr_io_src[channel] = i;
-                ptr_io_dst[channel] =
-                    impeghd_fc_find_channel(chnl_u, out_chn_num, ptr_out_ch_format);
+                ptr_io_dst[channel] = impeghd_u_channel(ptr_out_ch_format[chnl_u]) ? chnl_u : -1;
                 ptr_io_gain[channel] =
                     ia_mul_flt(ia_mul_flt(0.01f, (FLOAT32)ia_dmx_rules_fc[k][3]), gain);
                 ptr_io_proc[channel] = ia_dmx_rules_fc[k][7];
-- 
2.43.0


From e36865f4329450496b35100383a3f38c140e217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 46/97] fix: return the downmix matrix template that was found

---
 decoder/impeghd_dmx_mtx.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index a6472e2..c51e69f 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -158,10 +158,11 @@ static FLOAT32 impeghd_decode_gain(ia_bit_buf_struct *ptr_bit_buf, ia_dmx_mtx_ga
  *  \return Error if any
  *
  */
-static IA_ERRORCODE impeghd_find_comp_tmplt(WORD32 cicp_in, WORD32 cicp_out, WORD32 *tmplt)
+static IA_ERRORCODE impeghd_find_comp_tmplt(WORD32 cicp_in, WORD32 cicp_out,
+                                            const WORD32 **tmplt)
 {
   WORD32 idx;
-  tmplt = NULL;
+  *tmplt = NULL;
 
   if (cicp_in == -1 || cicp_out == -1)
   {
@@ -178,7 +179,7 @@ static IA_ERRORCODE impeghd_find_comp_tmplt(WORD32 cicp_in, WORD32 cicp_out, WOR
     {
       continue;
     }
-    tmplt = (WORD32 *)ia_comp_tmplt_data[idx];
+    *tmplt = ia_comp_tmplt_data[idx];
     return IA_MPEGH_DEC_NO_ERROR;
   }
 
@@ -600,7 +601,7 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
   WORD32 num_in_ch = params->num_in_ch;
   WORD32 num_out_ch = params->num_out_ch;
 
-  WORD32 *comp_tmplt = NULL;
+  const WORD32 *comp_tmplt = NULL;
 
   ia_dmx_mtx_scr_t *pscr = (ia_dmx_mtx_scr_t *)ptr_scratch;
   ptr_scratch += sizeof(*pscr);
@@ -764,7 +765,7 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
       {
         return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INVALID_CICP_IDX;
       }
-      impeghd_find_comp_tmplt(params->cicp_in_idx, params->cicp_out_idx, comp_tmplt);
+      impeghd_find_comp_tmplt(params->cicp_in_idx, params->cicp_out_idx, &comp_tmplt);
       if (comp_tmplt == NULL)
       {
         return IA_MPEGH_FORMAT_CONV_INIT_FATAL_NO_COMP_TMPLT;
-- 
2.43.0


From f068ff08c374373cdea844913a0f09548d164e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 47/97] fix: check the equaliser numbers of the input channels,
 not memory behind them

---
 decoder/impeghd_dmx_mtx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index c51e69f..916feed 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -963,7 +963,7 @@ IA_ERRORCODE impeghd_decode_downmix_matrix(ia_format_conv_param *fc_params,
       return IA_MPEGH_FORMAT_CONV_INIT_FATAL_INVALID_NUM_EQS;
     }
 
-    for (eq = 0; eq < (WORD32)pscr->eq_conf.num_eq; eq++)
+    for (eq = 0; eq < num_in_ch; eq++)
     {
       if (pscr->eq_conf.eq_map[eq] > (WORD32)pscr->eq_conf.num_eq)
       {
-- 
2.43.0


From 8561f01d28ffcb7087c9d99ed7ef9ac41e10d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 48/97] fix: make room for the longest downmix gain table that
 can be signalled

---
 decoder/impeghd_dmx_mtx_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_dmx_mtx_data.h b/decoder/impeghd_dmx_mtx_data.h
index bad56df..21568d5 100644
--- a/decoder/impeghd_dmx_mtx_data.h
+++ b/decoder/impeghd_dmx_mtx_data.h
@@ -36,7 +36,7 @@
 #define _FORMAT_DMXT_MAT_DATA_H_
 
 #define IA_DMX_MTX_HISTORY_CNT_MAX (512)
-#define IA_DMX_MTX_GAIN_TABLE_SIZE_MAX (274)
+#define IA_DMX_MTX_GAIN_TABLE_SIZE_MAX (278)
 #define IA_DMX_MTX_GAIN_ZERO (-256.0f)
 #define IA_DMX_MAX_NUM_BANDS (100)
 #define IA_MAX_NUM_EQ (12)
-- 
2.43.0


From c7834b06d0cf5c41f08d244c249df762b7f7bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 49/97] fix: do not read past the end of the downmix gain table

---
 decoder/impeghd_dmx_mtx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index 916feed..83bd532 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -136,7 +136,7 @@ static FLOAT32 impeghd_decode_gain(ia_bit_buf_struct *ptr_bit_buf, ia_dmx_mtx_ga
 
     gain_idx = (head << coder->gain_lg_param) +
                ia_core_coder_read_bits_buf(ptr_bit_buf, coder->gain_lg_param);
-    gain = coder->gain_tab[gain_idx];
+    gain = (gain_idx < coder->gain_tab_size) ? coder->gain_tab[gain_idx] : IA_DMX_MTX_GAIN_ZERO;
   }
 
   if (gain < coder->min_gain)
-- 
2.43.0


From 2baea3c5c24e32bc1ede22779b788d33aee0a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 50/97] fix: limit the run length of the compact downmix matrix
 to its size

---
 decoder/impeghd_dmx_mtx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/impeghd_dmx_mtx.c b/decoder/impeghd_dmx_mtx.c
index 83bd532..7919f42 100644
--- a/decoder/impeghd_dmx_mtx.c
+++ b/decoder/impeghd_dmx_mtx.c
@@ -312,6 +312,7 @@ static VOID impeghd_decode_flat_compact_mtx(ia_bit_buf_struct *ptr_bit_buf, WORD
       head++;
     }
     val = (head << lpg_param) + ia_core_coder_read_bits_buf(ptr_bit_buf, lpg_param);
+    val = ia_min_int(val, cnt - mtx_idx);
     memset(&mtx[mtx_idx], 0, val * sizeof(mtx[0]));
     mtx_idx += val;
 
-- 
2.43.0


From 6b920a745220378b965e58ffcf58d1ad6ef74cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 51/97] fix: refuse downmix matrices that do not fit the buffer

---
 decoder/ia_core_coder_init_config.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index 18e3e6a..c5d1c53 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -789,6 +789,10 @@ static IA_ERRORCODE impeghd_parse_dmx_ext_config(ia_bit_buf_struct *it_bit_buff,
                 ia_core_coder_read_bits_buf(it_bit_buff, 5);
           }
           ia_core_coder_read_escape_value(it_bit_buff, &temp, 8, 8, 12);
+          if (temp > (ASCPARSER_MAX_DMX_MATRIX_SIZE << 3))
+          {
+            return IA_MPEGH_DEC_EXE_FATAL_MAX_DMX_MATRIX_ELEMENTS_EXCEEDED;
+          }
           ptr_dmx_cfg->dmx_matrix[i].dmx_matrix_len_bits[l] = temp;
 
           byte_count = 0;
-- 
2.43.0


From eb7a2e9990402cb2211eb95a8fcdaad5b63c26e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:26 +0000
Subject: [PATCH 52/97] fix: apply the loudness gain of the selected DRC set,
 not that of the last one considered

---
 decoder/impd_drc_selection_process.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/impd_drc_selection_process.c b/decoder/impd_drc_selection_process.c
index e9bef38..c9a5477 100644
--- a/decoder/impd_drc_selection_process.c
+++ b/decoder/impd_drc_selection_process.c
@@ -343,6 +343,7 @@ static IA_ERRORCODE impd_select_drc_set(ia_drc_sel_pro_struct *pstr_drc_uni_sel_
   {
     pstr_drc_uni_sel_proc->uni_drc_sel_proc_output.loud_norm_gain_db =
         selection_candidate_info[0].loud_norm_db_gain_adjust;
+    pstr_drc_config->loudness_gain_db = selection_candidate_info[0].loud_norm_db_gain_adjust;
     pstr_drc_uni_sel_proc->uni_drc_sel_proc_output.output_peak_level_db =
         selection_candidate_info[0].output_peak_level;
     pstr_drc_uni_sel_proc->uni_drc_sel_proc_output.output_loudness =
-- 
2.43.0


From 7b0a0c8d205906925da0d730970c395a5835f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:26 +0000
Subject: [PATCH 53/97] fix: keep to the DRC sets that passed the previous
 selection step

---
 ...d_drc_selection_process_drcset_selection.c | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/decoder/impd_drc_selection_process_drcset_selection.c b/decoder/impd_drc_selection_process_drcset_selection.c
index 6a12922..a54dcfb 100644
--- a/decoder/impd_drc_selection_process_drcset_selection.c
+++ b/decoder/impd_drc_selection_process_drcset_selection.c
@@ -1208,7 +1208,7 @@ IA_ERRORCODE impd_drc_set_pre_selection(
       {
         for (k = 0; k < *selection_candidate_count; k++)
         {
-          if (selection_candidate_info_step_2[k].output_peak_level <
+          if (selection_candidate_info[k].output_peak_level <
               (FLOAT32)output_peak_level_min + 1.0f)
           {
             memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
@@ -1231,8 +1231,9 @@ IA_ERRORCODE impd_drc_set_pre_selection(
     omit_preselection_based_on_requested_group_id = 0;
     for (k = 0; k < selection_candidate_step_2_count; k++)
     {
-      str_drc_instruction_str = &(
-          pstr_drc_config->str_drc_instruction_str[selection_candidate_info[k].drc_instrns_idx]);
+      str_drc_instruction_str =
+          &(pstr_drc_config
+                ->str_drc_instruction_str[selection_candidate_info_step_2[k].drc_instrns_idx]);
       if (str_drc_instruction_str->drc_instructions_type == 3)
       {
 
@@ -1241,18 +1242,17 @@ IA_ERRORCODE impd_drc_set_pre_selection(
           if (str_drc_instruction_str->mae_group_preset_id ==
               pstr_drc_sel_proc_params_struct->group_preset_id_requested[i])
           {
-            memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
-                   sizeof(ia_drc_selection_candidate_info_struct));
+            selection_candidate_info_step_2[n] = selection_candidate_info_step_2[k];
             omit_preselection_based_on_requested_group_id = 1;
             n++;
+            break;
           }
         }
       }
       else if (str_drc_instruction_str->drc_instructions_type == 0 ||
                str_drc_instruction_str->drc_instructions_type == 2)
       {
-        memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
-               sizeof(ia_drc_selection_candidate_info_struct));
+        selection_candidate_info_step_2[n] = selection_candidate_info_step_2[k];
         n++;
       }
     }
@@ -1264,11 +1264,10 @@ IA_ERRORCODE impd_drc_set_pre_selection(
       {
         str_drc_instruction_str =
             &(pstr_drc_config
-                  ->str_drc_instruction_str[selection_candidate_info[k].drc_instrns_idx]);
+                  ->str_drc_instruction_str[selection_candidate_info_step_2[k].drc_instrns_idx]);
         if (str_drc_instruction_str->drc_instructions_type == 0)
         {
-          memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
-                 sizeof(ia_drc_selection_candidate_info_struct));
+          selection_candidate_info_step_2[n] = selection_candidate_info_step_2[k];
           n++;
         }
         else if (str_drc_instruction_str->drc_instructions_type == 2)
@@ -1278,9 +1277,9 @@ IA_ERRORCODE impd_drc_set_pre_selection(
             if (str_drc_instruction_str->mae_group_id ==
                 pstr_drc_sel_proc_params_struct->group_id_requested[i])
             {
-              memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
-                     sizeof(ia_drc_selection_candidate_info_struct));
+              selection_candidate_info_step_2[n] = selection_candidate_info_step_2[k];
               n++;
+              break;
             }
           }
         }
@@ -1294,12 +1293,11 @@ IA_ERRORCODE impd_drc_set_pre_selection(
       {
         str_drc_instruction_str =
             &(pstr_drc_config
-                  ->str_drc_instruction_str[selection_candidate_info[k].drc_instrns_idx]);
+                  ->str_drc_instruction_str[selection_candidate_info_step_2[k].drc_instrns_idx]);
         if (str_drc_instruction_str->drc_instructions_type == 0 ||
             str_drc_instruction_str->drc_instructions_type == 3)
         {
-          memcpy(&selection_candidate_info_step_2[n], &selection_candidate_info[k],
-                 sizeof(ia_drc_selection_candidate_info_struct));
+          selection_candidate_info_step_2[n] = selection_candidate_info_step_2[k];
           n++;
         }
       }
-- 
2.43.0


From efec249d2477dfdf7df2f86549cc2c41965b5075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 54/97] fix: do not read another configuration extension as
 loudness information

---
 decoder/ia_core_coder_decode_main.c | 6 ++++--
 decoder/ia_core_coder_init_config.c | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index aab3bbc..7e6cf5c 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -3366,7 +3366,8 @@ IA_ERRORCODE impeghd_uni_drc_dec_init(ia_audio_specific_config_struct *pstr_audi
     }
   }
 
-  if (pstr_usac_dec_cfg->usac_cfg_ext_info_len[pstr_usac_dec_cfg->loudness_ext_config_idx] > 0)
+  if (pstr_usac_dec_cfg->loudness_ext_config_present &&
+      pstr_usac_dec_cfg->usac_cfg_ext_info_len[pstr_usac_dec_cfg->loudness_ext_config_idx] > 0)
   {
     ia_core_coder_create_init_bit_buf(
         &it_bit_buff,
@@ -3383,7 +3384,8 @@ IA_ERRORCODE impeghd_uni_drc_dec_init(ia_audio_specific_config_struct *pstr_audi
   }
 
   if ((pstr_usac_dec_cfg->usac_ext_ele_payload_len[index] > 0) ||
-      (pstr_usac_dec_cfg->usac_cfg_ext_info_len[pstr_usac_dec_cfg->loudness_ext_config_idx] > 0))
+      (pstr_usac_dec_cfg->loudness_ext_config_present &&
+       pstr_usac_dec_cfg->usac_cfg_ext_info_len[pstr_usac_dec_cfg->loudness_ext_config_idx] > 0))
   {
     err_code = impd_drc_uni_sel_proc_process(
         &pstr_drc_payload->str_select_proc, pstr_drc_payload->pstr_drc_config,
diff --git a/decoder/ia_core_coder_init_config.c b/decoder/ia_core_coder_init_config.c
index c5d1c53..5c96a23 100644
--- a/decoder/ia_core_coder_init_config.c
+++ b/decoder/ia_core_coder_init_config.c
@@ -916,6 +916,7 @@ static IA_ERRORCODE ia_core_coder_config_extension(
   }
 
   pstr_usac_decoder_config->downmix_ext_config_present = 0;
+  pstr_usac_decoder_config->loudness_ext_config_present = 0;
   memset(pstr_usac_decoder_config->usac_cfg_ext_info_present, 0,
          MAX_CONFIG_EXTENSIONS * sizeof(WORD32));
   memset(pstr_usac_decoder_config->usac_cfg_ext_info_len, 0,
-- 
2.43.0


From 6aa2f52e10dc340cf5ec7797d9a5f3ac39ae3f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 55/97] fix: refuse more loudness records than there is room
 for

---
 decoder/impd_drc_static_payload.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index c5cbce5..585ce00 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -483,6 +483,11 @@ impd_drc_mpegh3da_parse_loudness_info_set(ia_drc_loudness_info_set_struct *pstr_
   WORD32 cnt;
 
   pstr_loudness_info_set->loudness_info_count = ia_core_coder_read_bits_buf(pstr_it_bit_buff, 6);
+  if (LOUDNESS_INFO_COUNT_MAX < pstr_loudness_info_set->loudness_info_count)
+  {
+    pstr_loudness_info_set->loudness_info_count = 0;
+    return (IA_MPEGD_DRC_INIT_NONFATAL_UNEXPECTED_ERROR);
+  }
 
   for (cnt = 0; cnt < pstr_loudness_info_set->loudness_info_count; cnt++)
   {
@@ -519,6 +524,11 @@ impd_drc_mpegh3da_parse_loudness_info_set(ia_drc_loudness_info_set_struct *pstr_
   {
     pstr_loudness_info_set->loudness_info_album_count =
         ia_core_coder_read_bits_buf(pstr_it_bit_buff, 6);
+    if (LOUDNESS_INFO_COUNT_MAX < pstr_loudness_info_set->loudness_info_album_count)
+    {
+      pstr_loudness_info_set->loudness_info_album_count = 0;
+      return (IA_MPEGD_DRC_INIT_NONFATAL_UNEXPECTED_ERROR);
+    }
 
     for (cnt = 0; cnt < pstr_loudness_info_set->loudness_info_album_count; cnt++)
     {
-- 
2.43.0


From ab2e2b4a8eeaa5a21662615ba4680c8f36f53915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 56/97] fix: album loudness records do not turn group loudness
 into that of the scene

---
 decoder/impd_drc_static_payload.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index 585ce00..8682078 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -532,7 +532,7 @@ impd_drc_mpegh3da_parse_loudness_info_set(ia_drc_loudness_info_set_struct *pstr_
 
     for (cnt = 0; cnt < pstr_loudness_info_set->loudness_info_album_count; cnt++)
     {
-      pstr_loudness_info_set->loudness_info[cnt].loudness_info_type = 0;
+      pstr_loudness_info_set->str_loudness_info_album[cnt].loudness_info_type = 0;
       err_code = impd_drc_parse_loudness_info(
           &(pstr_loudness_info_set->str_loudness_info_album[cnt]), pstr_it_bit_buff);
       if (err_code)
-- 
2.43.0


From fa48509e3a562cc5a612aa7b05221af063ad8129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 57/97] fix: room for every loudness record that applies to a
 DRC set

---
 decoder/impd_drc_loudness_control.c                   | 8 +++++++-
 decoder/impd_drc_selection_process_drcset_selection.c | 6 +++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/decoder/impd_drc_loudness_control.c b/decoder/impd_drc_loudness_control.c
index fdfb09d..f0f9ac0 100644
--- a/decoder/impd_drc_loudness_control.c
+++ b/decoder/impd_drc_loudness_control.c
@@ -707,6 +707,7 @@ IA_ERRORCODE impd_drc_check_loudness_info(
           {
             loud_info_type2_match[l] = cnt;
             l++;
+            break;
           }
         }
         break;
@@ -721,6 +722,7 @@ IA_ERRORCODE impd_drc_check_loudness_info(
             loud_info_type3_match_num_members[cnt2] =
                 pstr_drc_sel_proc_params_struct->num_members_group_preset_ids_requested[cnt1];
             cnt2++;
+            break;
           }
         }
         break;
@@ -1180,12 +1182,16 @@ IA_ERRORCODE impd_drc_init_loudness_control(
   if (1 == pstr_drc_sel_proc_params_struct->loudness_normalization_on)
   {
     WORD32 cnt1;
-    ia_drc_loudness_info_struct *pstr_ia_loudness_info[16];
+    ia_drc_loudness_info_struct *pstr_ia_loudness_info[LOUDNESS_INFO_COUNT_MAX];
     err_code = impd_drc_find_overall_loudness_info(
         pstr_ia_loudness_info, &info_cnt, &overall_loudness_info_flag,
         pstr_drc_sel_proc_params_struct, pstr_loudness_info, req_dwnmix_id, pstr_drc_instruction);
     if (err_code)
       return (err_code);
+    if (MAX_LOUDNESS_INFO_COUNT < info_cnt)
+    {
+      return (IA_MPEGD_DRC_INIT_NONFATAL_UNEXPECTED_ERROR);
+    }
 
     if (1 == overall_loudness_info_flag)
     {
diff --git a/decoder/impd_drc_selection_process_drcset_selection.c b/decoder/impd_drc_selection_process_drcset_selection.c
index a54dcfb..5f0a353 100644
--- a/decoder/impd_drc_selection_process_drcset_selection.c
+++ b/decoder/impd_drc_selection_process_drcset_selection.c
@@ -816,8 +816,8 @@ IA_ERRORCODE impd_drc_set_pre_selection(
   WORD32 peak_info_count;
   WORD32 loudness_drc_set_id_requested;
   WORD32 eq_set_id_loudness[16];
-  WORD32 eq_set_id_Peak[16];
-  WORD32 explicit_peak_information_present[16];
+  WORD32 eq_set_id_Peak[LOUDNESS_INFO_COUNT_MAX];
+  WORD32 explicit_peak_information_present[LOUDNESS_INFO_COUNT_MAX];
   WORD32 num_compression_eq_id[16];
   WORD32 downmix_id_match = 0;
   WORD32 num_compression_eq_count = 0;
@@ -827,7 +827,7 @@ IA_ERRORCODE impd_drc_set_pre_selection(
   FLOAT32 adjustment;
   FLOAT32 loud_norm_gain_db[16];
   FLOAT32 loudness[16];
-  FLOAT32 signal_peak_level[16];
+  FLOAT32 signal_peak_level[LOUDNESS_INFO_COUNT_MAX];
   FLOAT32 output_peak_level_min = 1000.0f;
   FLOAT32 output_peak_level_max = pstr_drc_sel_proc_params_struct->output_peak_level_max;
   ia_drc_uni_drc_coeffs_struct *str_p_loc_drc_coefficients_uni_drc = NULL;
-- 
2.43.0


From a5a77e1a294ed09e7697a7fdc7e7aab247bf0b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 58/97] fix: the peak of a group or preset is not that of the
 whole scene

---
 decoder/impd_drc_loudness_control.c | 68 ++++++++++-------------------
 1 file changed, 24 insertions(+), 44 deletions(-)

diff --git a/decoder/impd_drc_loudness_control.c b/decoder/impd_drc_loudness_control.c
index f0f9ac0..165ed0c 100644
--- a/decoder/impd_drc_loudness_control.c
+++ b/decoder/impd_drc_loudness_control.c
@@ -174,7 +174,8 @@ VOID impd_drc_signal_peak_level_info(WORD32 *peak_info_count, WORD32 eq_set_id[]
     }
 
     if (req_dwnmix_id == pstr_ia_loudness_info->downmix_id &&
-        loudness_drc_set_id_req == pstr_ia_loudness_info->drc_set_id)
+        loudness_drc_set_id_req == pstr_ia_loudness_info->drc_set_id &&
+        impd_drc_check_if_match(pstr_drc_instruction, pstr_ia_loudness_info))
     {
       if (pstr_ia_loudness_info->true_peak_level_present)
       {
@@ -182,11 +183,8 @@ VOID impd_drc_signal_peak_level_info(WORD32 *peak_info_count, WORD32 eq_set_id[]
         sig_pk_level[peak_cnt] = pstr_ia_loudness_info->true_peak_level;
         explicit_peak_info_present[peak_cnt] = 1;
 
-        if (impd_drc_check_if_match(pstr_drc_instruction, pstr_ia_loudness_info))
-        {
-          found_match = 1;
-          peak_cnt++;
-        }
+        found_match = 1;
+        peak_cnt++;
       }
       if (0 == found_match)
       {
@@ -198,11 +196,8 @@ VOID impd_drc_signal_peak_level_info(WORD32 *peak_info_count, WORD32 eq_set_id[]
 
           explicit_peak_info_present[peak_cnt] = 1;
 
-          if (impd_drc_check_if_match(pstr_drc_instruction, pstr_ia_loudness_info))
-          {
-            found_match = 1;
-            peak_cnt++;
-          }
+          found_match = 1;
+          peak_cnt++;
         }
       }
     }
@@ -221,7 +216,8 @@ VOID impd_drc_signal_peak_level_info(WORD32 *peak_info_count, WORD32 eq_set_id[]
       }
 
       if (ID_FOR_ANY_DRC == pstr_ia_loudness_info->drc_set_id &&
-          req_dwnmix_id == pstr_ia_loudness_info->downmix_id)
+          req_dwnmix_id == pstr_ia_loudness_info->downmix_id &&
+          impd_drc_check_if_match(pstr_drc_instruction, pstr_ia_loudness_info))
       {
         if (pstr_ia_loudness_info->true_peak_level_present)
         {
@@ -231,11 +227,8 @@ VOID impd_drc_signal_peak_level_info(WORD32 *peak_info_count, WORD32 eq_set_id[]
 
           explicit_peak_info_present[peak_cnt] = 1;
 
-          if (impd_drc_check_if_match(pstr_drc_instruction, pstr_ia_loudness_info))
-          {
-            found_match = 1;
-            peak_cnt++;
-          }
+          found_match = 1;
+          peak_cnt++;
         }
         if (0 == found_match)
         {
@@ -246,11 +239,8 @@ VOID impd_drc_signal_peak_level_info(WORD32 *peak_info_count, WORD32 eq_set_id[]
             sig_pk_level[peak_cnt] = pstr_ia_loudness_info->sample_peak_level;
 
             explicit_peak_info_present[peak_cnt] = 1;
-            if (impd_drc_check_if_match(pstr_drc_instruction, pstr_ia_loudness_info))
-            {
-              found_match = 1;
-              peak_cnt++;
-            }
+            found_match = 1;
+            peak_cnt++;
           }
         }
       }
@@ -306,7 +296,8 @@ VOID impd_drc_signal_peak_level_info(WORD32 *peak_info_count, WORD32 eq_set_id[]
         }
 
         if (loudness_drc_set_id_req == pstr_ia_loudness_info->drc_set_id &&
-            ID_FOR_BASE_LAYOUT == pstr_ia_loudness_info->downmix_id)
+            ID_FOR_BASE_LAYOUT == pstr_ia_loudness_info->downmix_id &&
+            impd_drc_check_if_match(pstr_drc_instruction, pstr_ia_loudness_info))
         {
           if (pstr_ia_loudness_info->true_peak_level_present)
           {
@@ -315,11 +306,8 @@ VOID impd_drc_signal_peak_level_info(WORD32 *peak_info_count, WORD32 eq_set_id[]
                 pstr_ia_loudness_info->true_peak_level + signal_peak_level_temp;
             explicit_peak_info_present[peak_cnt] = 0;
 
-            if (impd_drc_check_if_match(pstr_drc_instruction, pstr_ia_loudness_info))
-            {
-              found_match = 1;
-              peak_cnt++;
-            }
+            found_match = 1;
+            peak_cnt++;
           }
           if (0 == found_match)
           {
@@ -330,11 +318,8 @@ VOID impd_drc_signal_peak_level_info(WORD32 *peak_info_count, WORD32 eq_set_id[]
                   pstr_ia_loudness_info->sample_peak_level + signal_peak_level_temp;
               explicit_peak_info_present[peak_cnt] = 0;
 
-              if (impd_drc_check_if_match(pstr_drc_instruction, pstr_ia_loudness_info))
-              {
-                found_match = 1;
-                peak_cnt++;
-              }
+              found_match = 1;
+              peak_cnt++;
             }
           }
         }
@@ -353,7 +338,8 @@ VOID impd_drc_signal_peak_level_info(WORD32 *peak_info_count, WORD32 eq_set_id[]
           }
 
           if (ID_FOR_ANY_DRC == pstr_ia_loudness_info->drc_set_id &&
-              ID_FOR_BASE_LAYOUT == pstr_ia_loudness_info->downmix_id)
+              ID_FOR_BASE_LAYOUT == pstr_ia_loudness_info->downmix_id &&
+              impd_drc_check_if_match(pstr_drc_instruction, pstr_ia_loudness_info))
           {
             if (pstr_ia_loudness_info->true_peak_level_present)
             {
@@ -362,11 +348,8 @@ VOID impd_drc_signal_peak_level_info(WORD32 *peak_info_count, WORD32 eq_set_id[]
                   pstr_ia_loudness_info->true_peak_level + signal_peak_level_temp;
               explicit_peak_info_present[peak_cnt] = 0;
 
-              if (impd_drc_check_if_match(pstr_drc_instruction, pstr_ia_loudness_info))
-              {
-                found_match = 1;
-                peak_cnt++;
-              }
+              found_match = 1;
+              peak_cnt++;
             }
             if ((0 == found_match) && (pstr_ia_loudness_info->sample_peak_level_present))
             {
@@ -377,11 +360,8 @@ VOID impd_drc_signal_peak_level_info(WORD32 *peak_info_count, WORD32 eq_set_id[]
 
               explicit_peak_info_present[peak_cnt] = 0;
 
-              if (impd_drc_check_if_match(pstr_drc_instruction, pstr_ia_loudness_info))
-              {
-                found_match = 1;
-                peak_cnt++;
-              }
+              found_match = 1;
+              peak_cnt++;
             }
           }
         }
-- 
2.43.0


From 7739ee3e853f3c6cc68ec4edb6e7883b18752e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 59/97] fix: leave room for the instructions that stand for no
 DRC

---
 decoder/impd_drc_static_payload.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impd_drc_static_payload.c b/decoder/impd_drc_static_payload.c
index 8682078..87d8821 100644
--- a/decoder/impd_drc_static_payload.c
+++ b/decoder/impd_drc_static_payload.c
@@ -1656,8 +1656,8 @@ impd_drc_parse_config(ia_drc_config *pstr_drc_config,
       return (err_code);
   }
 
-  if (DRC_INSTRUCTIONS_COUNT_MAX <= (pstr_drc_config->drc_instructions_uni_drc_count +
-                                     pstr_drc_config->drc_dwnmix_instructions_count))
+  /*two more instructions are added for DRC off*/
+  if (DRC_INSTRUCTIONS_COUNT_MAX < (pstr_drc_config->drc_instructions_uni_drc_count + 2))
   {
     return (IA_MPEGD_DRC_INIT_NONFATAL_DRC_INSTR_MAX_EXCEEDED);
   }
-- 
2.43.0


From 328c8edc4d00a86b8f24526c346227cc2ccd70a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 60/97] fix: the overlap of a previous LPD frame was read from
 scratch memory

---
 decoder/ia_core_coder_lpc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder/ia_core_coder_lpc.c b/decoder/ia_core_coder_lpc.c
index 8958041..73618ff 100644
--- a/decoder/ia_core_coder_lpc.c
+++ b/decoder/ia_core_coder_lpc.c
@@ -1063,6 +1063,12 @@ IA_ERRORCODE ia_core_coder_lpd_dec(ia_usac_data_struct *usac_data, ia_usac_lpd_d
                                       short_fac_flag, tmp_scratch, synth_fb, synth);
   }
 
+  if (td_config->full_band_lpd)
+  {
+    /* points to the scratch of the frame that set it */
+    st->overlap_buf = NULL;
+  }
+
   if (first_lpd_flag && pmode[0] > 0 && td_config->full_band_lpd && st != NULL)
   {
     ia_core_coder_mem_cpy(st->overlap_buf_fb, synth_fb - 2 * len_subfrm, 2 * len_subfrm);
-- 
2.43.0


From 3f268e44679072f05f978594fffc5c73adf5a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 61/97] fix: the gap filling levels were examined though none
 were decoded

---
 decoder/ia_core_coder_igf_dec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_igf_dec.c b/decoder/ia_core_coder_igf_dec.c
index a4fafc1..ec54300 100644
--- a/decoder/ia_core_coder_igf_dec.c
+++ b/decoder/ia_core_coder_igf_dec.c
@@ -2002,7 +2002,7 @@ WORD32 ia_core_coder_get_igf_levels(ia_bit_buf_struct *it_bit_buff,
   igf_dec_data->igf_memory.prev_win_type = igf_win_type;
 
   /*Checking all values in igf_curr[ ][ ][ ] == 0*/
-  for (win = 0; win < num_window_groups; win++)
+  for (win = 0; win < num_window_groups && !igf_all_zero; win++)
   {
     for (sfb = igf_start_sfb; sfb < igf_stop_sfb; sfb++)
     {
-- 
2.43.0


From f9f896e8292133670876c0100430e24751fd3eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 62/97] fix: HOA: keep the data of vector-coded signals per
 transport channel

---
 decoder/impeghd_hoa_dec_struct.h      |  2 +-
 decoder/impeghd_hoa_frame.c           | 38 +++++++++++++--------------
 decoder/impeghd_hoa_spatial_decoder.c |  6 ++---
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/decoder/impeghd_hoa_dec_struct.h b/decoder/impeghd_hoa_dec_struct.h
index b7a206e..fc69214 100644
--- a/decoder/impeghd_hoa_dec_struct.h
+++ b/decoder/impeghd_hoa_dec_struct.h
@@ -49,7 +49,7 @@ typedef struct
   UWORD32 element_bitmask[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
   UWORD16 decoded_huffmann_word[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
 
-  UWORD32 vvec_idx[128];
+  UWORD32 vvec_idx[MAX_HOA_CHANNELS][128];
   UWORD8 sgn_val[MAX_HOA_CHANNELS][128];
   WORD32 sgn_val_size[128];
   WORD32 prev_sgn_val_size[128];
diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 96b117d..e3bdcf1 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -477,7 +477,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
     for (j = ptr_frame_data->sgn_val_size[idx];
          j < (WORD32)ptr_frame_data->num_vvec_indices[sig_ch_idx]; j++)
     {
-      ptr_frame_data->sgn_val[idx][j] = 0;
+      ptr_frame_data->sgn_val[sig_ch_idx][j] = 0;
     }
     ptr_frame_data->sgn_val_size[idx] = ptr_frame_data->num_vvec_indices[sig_ch_idx];
     switch (ptr_frame_data->codebk_idx[sig_ch_idx])
@@ -506,36 +506,36 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
       for (j = 0; j < (WORD32)ptr_frame_data->num_vvec_indices[sig_ch_idx]; j++)
       {
         bs_vvec_idx = ia_core_coder_read_bits_buf(ptr_bit_buf, n_bit_idx);
-        ptr_frame_data->sgn_val[idx][j] = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
-        ptr_frame_data->vvec_idx[j] = bs_vvec_idx + 1;
+        ptr_frame_data->sgn_val[sig_ch_idx][j] = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
+        ptr_frame_data->vvec_idx[sig_ch_idx][j] = bs_vvec_idx + 1;
       }
     }
     else
     {
       bs_vvec_idx = ia_core_coder_read_bits_buf(ptr_bit_buf, n_bit_idx);
-      ptr_frame_data->sgn_val[idx][0] = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
-      ptr_frame_data->vvec_idx[0] = (UWORD32)bs_vvec_idx + 1;
+      ptr_frame_data->sgn_val[sig_ch_idx][0] = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
+      ptr_frame_data->vvec_idx[sig_ch_idx][0] = (UWORD32)bs_vvec_idx + 1;
     }
     for (j = 0; j < (WORD32)ptr_frame_data->num_vvec_indices[sig_ch_idx]; j++)
     {
       /*ISO/IEC 23008-9 section 5.19.6*/
-      switch (ptr_frame_data->codebk_idx[j])
+      switch (ptr_frame_data->codebk_idx[sig_ch_idx])
       {
       case 0:
-        if (ptr_frame_data->vvec_idx[j] > 900)
+        if (ptr_frame_data->vvec_idx[sig_ch_idx][j] > 900)
         {
           return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
         }
         break;
       case 1:
       case 2:
-        if (ptr_frame_data->vvec_idx[j] > 34)
+        if (ptr_frame_data->vvec_idx[sig_ch_idx][j] > 34)
         {
           return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
         }
         break;
       case 3:
-        if (ptr_frame_data->vvec_idx[j] > 64)
+        if (ptr_frame_data->vvec_idx[sig_ch_idx][j] > 64)
         {
           return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
         }
@@ -543,7 +543,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
       case 7:
         if (ptr_frame_data->ptr_config_data->order == 4)
         {
-          if (ptr_frame_data->vvec_idx[j] > 32)
+          if (ptr_frame_data->vvec_idx[sig_ch_idx][j] > 32)
           {
             return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
           }
@@ -554,7 +554,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
           max = ((ptr_frame_data->ptr_config_data->order + 1) *
                  (ptr_frame_data->ptr_config_data->order + 1)) -
                 1;
-          if (ptr_frame_data->vvec_idx[j] > (max + 1))
+          if (ptr_frame_data->vvec_idx[sig_ch_idx][j] > (max + 1))
           {
             return IA_MPEGH_HOA_INIT_FATAL_INVALID_VVEC_IDX;
           }
@@ -568,14 +568,14 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
     for (vec_len = 0; vec_len < ptr_frame_data->v_vec_length_used; vec_len++, hoa_coeff_idx++)
     {
       if (!(ptr_frame_data->non_transitional_add_hoa_channels[hoa_coeff_idx] == 0) ||
-          ((ptr_frame_data->new_vec_channels[idx] == 1) &&
+          ((ptr_frame_data->new_vec_channels[sig_ch_idx] == 1) &&
            (ptr_frame_data->fade_in_add_hoa_channels[hoa_coeff_idx] == 1)))
       {
-        ptr_frame_data->additional_info[idx][vec_len] = 0;
+        ptr_frame_data->additional_info[sig_ch_idx][vec_len] = 0;
       }
       else
       {
-        ptr_frame_data->additional_info[idx][vec_len] = 1;
+        ptr_frame_data->additional_info[sig_ch_idx][vec_len] = 1;
       }
     }
   }
@@ -585,7 +585,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
     for (vec_len = 0; vec_len < ptr_frame_data->v_vec_length_used; vec_len++, hoa_coeff_idx++)
     {
       if (!(ptr_frame_data->non_transitional_add_hoa_channels[hoa_coeff_idx] == 0) ||
-          ((ptr_frame_data->new_vec_channels[idx] == 1) &&
+          ((ptr_frame_data->new_vec_channels[sig_ch_idx] == 1) &&
            (ptr_frame_data->fade_in_add_hoa_channels[hoa_coeff_idx] == 1)))
       {
         vec_val = 128;
@@ -594,7 +594,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
       {
         vec_val = ia_core_coder_read_bits_buf(ptr_bit_buf, 8);
       }
-      ptr_frame_data->c_8bit_quantizer_word[idx][vec_len] = vec_val;
+      ptr_frame_data->c_8bit_quantizer_word[sig_ch_idx][vec_len] = vec_val;
     }
   }
   else if (ptr_frame_data->n_bits_q[sig_ch_idx] >= 6)
@@ -605,13 +605,13 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
     for (vec_len = ptr_frame_data->sgn_val_size[idx]; vec_len < ptr_frame_data->v_vec_length_used;
          vec_len++)
     {
-      ptr_frame_data->sgn_val[idx][vec_len] = 1;
+      ptr_frame_data->sgn_val[sig_ch_idx][vec_len] = 1;
     }
 
     for (vec_len = 0; vec_len < ptr_frame_data->v_vec_length_used; vec_len++, hoa_coeff_idx++)
     {
       if (!(ptr_frame_data->non_transitional_add_hoa_channels[hoa_coeff_idx] == 0) ||
-          ((ptr_frame_data->new_vec_channels[idx] == 1) &&
+          ((ptr_frame_data->new_vec_channels[sig_ch_idx] == 1) &&
            (ptr_frame_data->fade_in_add_hoa_channels[hoa_coeff_idx] == 1)))
       {
         ptr_frame_data->element_bitmask[sig_ch_idx][vec_len] = 0;
@@ -635,7 +635,7 @@ IA_ERRORCODE impeghd_hoa_frame_v_vector_data(ia_bit_buf_struct *ptr_bit_buf,
         if (cid > 0)
         {
           ptr_frame_data->additional_value[sig_ch_idx][vec_len] = 0;
-          ptr_frame_data->sgn_val[idx][vec_len] =
+          ptr_frame_data->sgn_val[sig_ch_idx][vec_len] =
               (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
           if (cid > 1)
           {
diff --git a/decoder/impeghd_hoa_spatial_decoder.c b/decoder/impeghd_hoa_spatial_decoder.c
index 5219e69..4309671 100644
--- a/decoder/impeghd_hoa_spatial_decoder.c
+++ b/decoder/impeghd_hoa_spatial_decoder.c
@@ -363,7 +363,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
       {
         return IA_MPEGH_HOA_INIT_NONFATAL_INVALID_BIT_SIZE;
       }
-      new_nominators_ptr[vec_ch].index = ch + 1;
+      new_nominators_ptr[ch].index = ch + 1;
       FLOAT32 tmp_vec_long[MAXIMUM_NUM_HOA_COEFF];
       ia_core_coder_memset(tmp_vec_long, MAXIMUM_NUM_HOA_COEFF);
       pFLOAT32 tmp_vec = frame_param->vectors[vec_ch].sig_id;
@@ -378,7 +378,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
         curr_vq_vec_ptr_size = sizeof(pstr_spatial_dec->transpose_mod_mtx_grid_pts);
         FLOAT32 inv_norm_coeff = impeghd_hoa_pow_2(14) / (FLOAT32)(pstr_hoa_config->order + 1);
         FLOAT32 weight_value;
-        WORD32 v_idx = ((WORD32)ia_hoa_frame_t->vvec_idx[0] - (WORD32)1);
+        WORD32 v_idx = ((WORD32)ia_hoa_frame_t->vvec_idx[ch][0] - (WORD32)1);
 
         switch (ia_hoa_frame_t->codebk_idx[ch])
         {
@@ -432,7 +432,7 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
           FLOAT32 norm_value = 1.0f;
           for (UWORD32 vec_idx = 0; vec_idx < ia_hoa_frame_t->num_vvec_indices[ch]; ++vec_idx)
           {
-            v_idx = ((WORD32)ia_hoa_frame_t->vvec_idx[vec_idx] - 1) * (WORD32)mat_offset;
+            v_idx = ((WORD32)ia_hoa_frame_t->vvec_idx[ch][vec_idx] - 1) * (WORD32)mat_offset;
 
             if (vec_idx >= 8)
             {
-- 
2.43.0


From a34b7907ca7f1893dced0d553c17cd251083cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 63/97] fix: HOA: limit the coded gain of the ambient channels
 as well

---
 decoder/impeghd_hoa_frame.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index e3bdcf1..9031b0f 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -344,6 +344,10 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
     {
       coded_gain++;
     } while (!(ia_core_coder_read_bits_buf(ptr_bit_buf, 1)));
+    if (coded_gain > HOA_MAX_CODED_GAIN)
+    {
+      return IA_MPEGH_HOA_EXE_FATAL_INVALID_HOA_CODED_GAIN;
+    }
     ptr_frame_data->coded_gain_correction_exp[i] = coded_gain;
     ptr_frame_data->gain_correction_exception[i] = ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
   }
-- 
2.43.0


From efa62bec1f1c33f1f1f84be32ccf43f8fc1ec695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 64/97] fix: HOA: refuse predicted directions outside the grid

---
 decoder/impeghd_hoa_frame.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 9031b0f..56b80ae 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -405,6 +405,10 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
           {
             WORD32 pred_id =
                 ia_core_coder_read_bits_buf(ptr_bit_buf, pstr_hoa_config->active_pred_ids_bits);
+            if (pred_id >= (WORD32)pstr_hoa_config->num_coeffs)
+            {
+              return IA_MPEGH_HOA_INIT_FATAL_INVALID_ACTIVE_DIRS_IDS;
+            }
             ptr_frame_data->active_pred[pred_id] = 1;
             i++;
           }
-- 
2.43.0


From fa2e1ba524cdaae4fb2be51975e5d27c89af16bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 65/97] fix: HOA: refuse ambient coefficients beyond the order
 of the scene

---
 decoder/impeghd_hoa_config.c     | 4 ++++
 decoder/impeghd_hoa_dec_struct.h | 2 +-
 decoder/impeghd_hoa_frame.c      | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_config.c b/decoder/impeghd_hoa_config.c
index d4fb296..247b8df 100644
--- a/decoder/impeghd_hoa_config.c
+++ b/decoder/impeghd_hoa_config.c
@@ -209,6 +209,10 @@ IA_ERRORCODE impeghd_fill_config(ia_bit_buf_struct *ptr_bit_buf,
 
     ptr_config_data->max_order_to_be_transmitted =
         ptr_config_data->diff_order + ptr_config_data->min_amb_order;
+    if (ptr_config_data->max_order_to_be_transmitted > ptr_config_data->order)
+    {
+      return IA_MPEGH_HOA_INIT_FATAL_INVALID_DIFF_ORDER;
+    }
   }
 
   ptr_config_data->max_num_of_coeffs_to_be_transmitted =
diff --git a/decoder/impeghd_hoa_dec_struct.h b/decoder/impeghd_hoa_dec_struct.h
index fc69214..daef7d9 100644
--- a/decoder/impeghd_hoa_dec_struct.h
+++ b/decoder/impeghd_hoa_dec_struct.h
@@ -42,7 +42,7 @@ typedef struct
   UWORD8 additional_info[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
 
   UWORD32 non_transitional_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS + 1];
-  UWORD32 fade_in_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS];
+  UWORD32 fade_in_add_hoa_channels[HOA_MAX_ADDITIONAL_CODERS + 1];
   UWORD32 new_vec_channels[HOA_MAX_ADDITIONAL_CODERS];
 
   UWORD32 additional_value[MAX_HOA_CHANNELS][HOA_MAX_ADDITIONAL_CODERS];
diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 56b80ae..9acd74f 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -177,6 +177,10 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
           ptr_frame_data->amb_coeff_transition_state[i] = 1;
           WORD32 coded_amb_coeff_idx =
               ia_core_coder_read_bits_buf(ptr_bit_buf, pstr_hoa_config->amb_asign_m_bits);
+          if (coded_amb_coeff_idx >= pstr_hoa_config->max_num_add_active_amb_coeffs)
+          {
+            return IA_MPEGH_HOA_INIT_FATAL_INVALID_AMB_COEF_IDX;
+          }
           ptr_frame_data->amb_coeff_idx[i] =
               coded_amb_coeff_idx + 1 + pstr_hoa_config->min_coeffs_for_amb;
         }
-- 
2.43.0


From ee24e4a2d4775d84a440008b7110be8666bc2406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 66/97] fix: HOA: no prediction from directional signals in
 frames that carry none

---
 decoder/impeghd_hoa_frame.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/impeghd_hoa_frame.c b/decoder/impeghd_hoa_frame.c
index 9acd74f..d1dc3a4 100644
--- a/decoder/impeghd_hoa_frame.c
+++ b/decoder/impeghd_hoa_frame.c
@@ -375,6 +375,7 @@ IA_ERRORCODE impeghd_hoa_frame(ia_bit_buf_struct *ptr_bit_buf,
   {
     ptr_frame_data->prev_sgn_val_size[i] = ptr_frame_data->sgn_val_size[i];
   }
+  ptr_frame_data->ps_prediction_active = 0;
   if (pstr_hoa_config->is_single_layer == 1)
   {
     if (ptr_frame_data->num_of_dir_sigs > 0)
-- 
2.43.0


From 3e14cb6718b62de6092b01d4ce36724de8a2673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 67/97] fix: HOA: gain changes of more than 6 steps attenuated
 instead of amplifying

---
 decoder/impeghd_hoa_inverse_dyn_correction.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_inverse_dyn_correction.c b/decoder/impeghd_hoa_inverse_dyn_correction.c
index 2b03691..aa87019 100644
--- a/decoder/impeghd_hoa_inverse_dyn_correction.c
+++ b/decoder/impeghd_hoa_inverse_dyn_correction.c
@@ -117,7 +117,7 @@ IA_ERRORCODE impeghd_hoa_inv_dyn_correction_process(FLOAT32 *ptr_inp,
           for (i = 0; i < frame_sz; i++)
           {
             tmp = ia_mul_flt(reci_last_gain, ptr_inp[i]);
-            ptr_out[i] = ia_mul_flt((FLOAT32)(pow(d_win_func[i], exp)), tmp);
+            ptr_out[i] = ia_mul_flt((FLOAT32)(pow(d_win_func[i], -exp)), tmp);
           }
           last_gain = ia_mul_flt(last_gain, (FLOAT32)(pow(d_win_func[frame_sz - 1], exp)));
         }
-- 
2.43.0


From 5acfdd9bb77b13086248915d5f1e6ab0045e451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 68/97] fix: HOA rendering: a singular value below the
 threshold was kept

---
 decoder/impeghd_hoa_render_mtrx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_render_mtrx.c b/decoder/impeghd_hoa_render_mtrx.c
index aa0bfe5..71adb0e 100644
--- a/decoder/impeghd_hoa_render_mtrx.c
+++ b/decoder/impeghd_hoa_render_mtrx.c
@@ -228,9 +228,9 @@ static IA_ERRORCODE impeghd_hoa_ren_mtrx_init(pVOID handle, pVOID speaker_pos, W
   thresh = 1e-3f * (svd->w_s[0]);
   for (cnt = 1; cnt < num_s; cnt++)
   {
-    is_col[cnt] = 1.0;
     if (svd->w_s[cnt] < thresh)
       break;
+    is_col[cnt] = 1.0;
   }
   impeghd_hoa_ren_simple_mtrx_diag_mult(&(svd->v), is_col, num_s);
   impeghd_hoa_ren_simple_mtrx_transpose(&(svd->u), (buf + scratch_idx));
-- 
2.43.0


From 1018619c77b2a8a6bdf23eb5cffb7b8358efe99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 69/97] fix: HOA: signals that change between directional and
 vector coding lost their cross-fade

The set of active signals listed the vector signals on top of the
directional ones instead of after them, and the previous directional
signals were looked up beyond the number of entries in use.
---
 decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c | 15 ++++++++-------
 decoder/impeghd_hoa_pre_dom_sound_syn.c           |  2 +-
 .../impeghd_hoa_vector_based_predom_sound_syn.c   |  4 ++--
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c b/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
index a1f0a68..fdf087d 100644
--- a/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
+++ b/decoder/impeghd_hoa_dir_based_pre_dom_sound_syn.c
@@ -159,6 +159,7 @@ IA_ERRORCODE impeghd_hoa_compute_hoa_repr_of_dir_sigs(ia_spatial_dec_str *dec_ha
   const pFLOAT32 fade_out_win_for_dir_sigs = sound_syn_handle->fade_out_win_for_dir_sigs;
   const pFLOAT32 fade_out_win_for_vec_sigs = sound_syn_handle->fade_out_win_for_vec_sigs;
   UWORD32 num_dir, curr_dir_idx, curr_grid_dir_idx;
+  const UWORD32 num_sigs = frame_param->num_dir_predom_sounds + frame_param->num_vec_predom_sounds;
   ia_hoa_config_struct *pstr_hoa_config = dec_handle->ia_hoa_config;
   ia_core_coder_memset(out_smth_dir_sigs,
                        pstr_hoa_config->frame_length * pstr_hoa_config->num_coeffs);
@@ -182,15 +183,15 @@ IA_ERRORCODE impeghd_hoa_compute_hoa_repr_of_dir_sigs(ia_spatial_dec_str *dec_ha
       }
       ptr_curr_fade_out_win = &(dec_handle->ones_long_vec[0]);
 
-      if (HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED == dir_idx)
+      if (frame_param->num_dir_predom_sounds == dir_idx)
       {
-        for (dir_idx = 0; dir_idx < HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED; dir_idx++)
+        for (dir_idx = 0; dir_idx < num_sigs; dir_idx++)
         {
           if (ptr_set_of_sig_indices[dir_idx] == curr_dir_idx)
             break;
         }
 
-        if (dir_idx != HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED)
+        if (dir_idx != num_sigs)
         {
           ptr_curr_fade_out_win = &(fade_out_win_for_vec_sigs[0]);
         }
@@ -241,14 +242,14 @@ IA_ERRORCODE impeghd_hoa_compute_hoa_repr_of_dir_sigs(ia_spatial_dec_str *dec_ha
           break;
       }
 
-      if (HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED == dir_idx)
+      if (syn_handle->num_prev_dir_predom_sounds == dir_idx)
       {
         for (dir_idx = 0; dir_idx < syn_handle->num_prev_ps_indices; dir_idx++)
         {
           if (curr_dir_idx == syn_handle->set_of_old_ps_sig_indices[dir_idx])
             break;
         }
-        if (dir_idx != HOA_MAXIMUM_NUM_DIR_SIG_FOR_PRED)
+        if (dir_idx != syn_handle->num_prev_ps_indices)
         {
           curr_fade_in_win = &(fade_in_win_for_dir_sigs[0]);
         }
@@ -278,9 +279,9 @@ IA_ERRORCODE impeghd_hoa_compute_hoa_repr_of_dir_sigs(ia_spatial_dec_str *dec_ha
     }
   }
 
-  syn_handle->num_prev_ps_indices = frame_param->num_vec_predom_sounds;
+  syn_handle->num_prev_ps_indices = num_sigs;
   memcpy(&syn_handle->set_of_old_ps_sig_indices[0], ptr_set_of_sig_indices,
-         sizeof(*ptr_set_of_sig_indices) * frame_param->num_vec_predom_sounds);
+         sizeof(*ptr_set_of_sig_indices) * num_sigs);
 
   syn_handle->num_prev_dir_predom_sounds = frame_param->num_dir_predom_sounds;
   memcpy(&syn_handle->last_active_dir_and_grid_dir_indices[0], ptr_active_dir_and_grid_indices,
diff --git a/decoder/impeghd_hoa_pre_dom_sound_syn.c b/decoder/impeghd_hoa_pre_dom_sound_syn.c
index 6bdcc03..737be8c 100644
--- a/decoder/impeghd_hoa_pre_dom_sound_syn.c
+++ b/decoder/impeghd_hoa_pre_dom_sound_syn.c
@@ -88,7 +88,7 @@ IA_ERRORCODE impeghd_hoa_pre_dom_sound_syn_process(ia_spatial_dec_str *dec_handl
 
   for (num_sounds = 0; num_sounds < frame_param->num_vec_predom_sounds; num_sounds++)
   {
-    sig_indices_set[num_sounds] = vectors[num_sounds].index;
+    sig_indices_set[frame_param->num_dir_predom_sounds + num_sounds] = vectors[num_sounds].index;
   }
 
   err_code = impeghd_hoa_vector_based_predom_sound_syn_process(dec_handle, sig_indices_set,
diff --git a/decoder/impeghd_hoa_vector_based_predom_sound_syn.c b/decoder/impeghd_hoa_vector_based_predom_sound_syn.c
index 020d24c..b8a204f 100644
--- a/decoder/impeghd_hoa_vector_based_predom_sound_syn.c
+++ b/decoder/impeghd_hoa_vector_based_predom_sound_syn.c
@@ -111,12 +111,12 @@ impeghd_hoa_vector_based_predom_sound_syn_process(ia_spatial_dec_str *dec_handle
     {
       intrpl_samples = pstr_hoa_config->frame_length;
       curr_interp_win = &(sound_syn_handle->fade_out_win_for_dir_sigs[0]);
-      for (map_it = 0; map_it < HOA_MAXIMUM_VECTOR_SIG_INDICES; map_it++)
+      for (map_it = 0; map_it < frame_param->num_vec_predom_sounds; map_it++)
       {
         if (vectors[map_it].index == vec_sig_idx)
           break;
       }
-      if (map_it != HOA_MAXIMUM_VECTOR_SIG_INDICES)
+      if (map_it != frame_param->num_vec_predom_sounds)
       {
         intrpl_samples = pstr_hoa_config->spat_interpolation_time;
         curr_interp_win = &(sound_syn_handle->fade_out_win_for_vec_sigs[0]);
-- 
2.43.0


From 0ee38c16fce3f313f92f96e7af95c0cb126c46d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 70/97] fix: HOA: a combination of vectors that cancel must not
 become not-a-number

---
 decoder/impeghd_hoa_spatial_decoder.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_spatial_decoder.c b/decoder/impeghd_hoa_spatial_decoder.c
index 4309671..222f970 100644
--- a/decoder/impeghd_hoa_spatial_decoder.c
+++ b/decoder/impeghd_hoa_spatial_decoder.c
@@ -465,7 +465,10 @@ impeghd_hoa_spatial_decode_frame_side_info(pVOID handle, ia_hoa_frame_struct *ia
             {
               norm_value = ia_mac_flt(norm_value, tmp_vec_long[elem_idx], tmp_vec_long[elem_idx]);
             }
-            norm_value = (FLOAT32)((pstr_hoa_config->order + 1) / ia_sqrt_flt(norm_value));
+            if (norm_value > 0.0f)
+            {
+              norm_value = (FLOAT32)((pstr_hoa_config->order + 1) / ia_sqrt_flt(norm_value));
+            }
           }
           for (UWORD32 elem_idx = 0; elem_idx < pstr_spatial_dec->num_vec_elems; ++elem_idx)
           {
-- 
2.43.0


From 72a8400bdaee6f77fafe4f7013c7b2b01ae55b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 71/97] fix: HOA: near-field compensation filters every
 coefficient by its own order

All coefficients, even the omnidirectional one, were filtered with the
filter for the order of the scene.
---
 decoder/impeghd_hoa_renderer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_hoa_renderer.c b/decoder/impeghd_hoa_renderer.c
index e3c4e47..81ab809 100644
--- a/decoder/impeghd_hoa_renderer.c
+++ b/decoder/impeghd_hoa_renderer.c
@@ -109,7 +109,7 @@ IA_ERRORCODE impeghd_hoa_ren_nfc_init(pVOID handle, UWORD32 order, FLOAT32 nfc_r
     for (j = 0; j < max_comp; j++)
     {
       nfc_handle = &(rh_handle->nfc_filter[curr_comp]);
-      nfc_handle->order = order;
+      nfc_handle->order = order_idx;
       nfc_handle->num_iir_1_filts = nfc_handle->order % 2;
       nfc_handle->num_iir_2_filts = (nfc_handle->order - nfc_handle->num_iir_1_filts) / 2;
       impeghd_hoa_ren_nfc_set_filter_params(nfc_handle, tnfc, tnfs);
-- 
2.43.0


From 80075d2a68f95c1d01920f017b1f4c3b398fb3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 72/97] fix: binaural: set the renderer up again after a
 configuration change

---
 decoder/impeghd_api.c | 72 +++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index a9f4263..0e144ab 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -585,6 +585,50 @@ IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output)
   return err_code;
 }
 
+/**
+ *  impeghd_init_binaural_renderer
+ *
+ *  \brief Set up the binaural renderer for the current configuration
+ *
+ *  \param [in,out] p_obj_mpegh_dec Pointer to decoder handle structure
+ *
+ *  \return IA_ERRORCODE            Processing error if any
+ *
+ */
+static IA_ERRORCODE impeghd_init_binaural_renderer(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
+{
+  IA_ERRORCODE err_code;
+  ia_binaural_in_stream_cfg_str wav_info;
+  ia_audio_specific_config_struct *pstr_audio_specific_config =
+      p_obj_mpegh_dec->p_state_mpeghd->ia_audio_specific_config;
+  ia_dec_data_struct *pstr_dec_data =
+      (ia_dec_data_struct *)p_obj_mpegh_dec->p_state_mpeghd->pstr_dec_data;
+  ia_binaural_renderer *pstr_binaural_rendering = &pstr_dec_data->str_binaural_rendering;
+  wav_info.fs_input = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
+  wav_info.num_speaker_expected = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
+  wav_info.num_channel_is_input = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
+  if (p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx == 0)
+  {
+    wav_info.cicp_spk_idx = pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx;
+  }
+  else
+  {
+    wav_info.cicp_spk_idx = p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx;
+  }
+
+  pstr_binaural_rendering->ptr_scratch = p_obj_mpegh_dec->p_state_mpeghd->mpeghd_scratch_mem_v;
+  err_code = impeghd_binaural_renderer_init(pstr_binaural_rendering, &wav_info,
+                                            &pstr_dec_data->binaural_handle);
+  if (err_code != IA_MPEGH_DEC_NO_ERROR)
+  {
+    return err_code;
+  }
+
+  pstr_dec_data->binaural_handle.str_binaural.memory_index +=
+      2048; // TODO: Replace 2048, with variable
+  return IA_MPEGH_DEC_NO_ERROR;
+}
+
 /**
  *  ia_mpegh_dec_init
  *
@@ -841,34 +885,12 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
   }
   if (p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
   {
-    ia_binaural_in_stream_cfg_str wav_info;
-    ia_dec_data_struct *pstr_dec_data =
-        (ia_dec_data_struct *)p_obj_mpegh_dec->p_state_mpeghd->pstr_dec_data;
-    ia_binaural_renderer *pstr_binaural_rendering = &pstr_dec_data->str_binaural_rendering;
-    wav_info.fs_input = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
-    wav_info.num_speaker_expected = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
-    wav_info.num_channel_is_input = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
-    if (p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx == 0)
-    {
-      wav_info.cicp_spk_idx = pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx;
-    }
-    else
-    {
-      wav_info.cicp_spk_idx = p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx;
-    }
-
-    pstr_binaural_rendering->ptr_scratch =
-        p_obj_mpegh_dec->p_state_mpeghd->mpeghd_scratch_mem_v;
-    err_code = impeghd_binaural_renderer_init(pstr_binaural_rendering, &wav_info,
-                                              &pstr_dec_data->binaural_handle);
+    err_code = impeghd_init_binaural_renderer(p_obj_mpegh_dec);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
       pstr_output_config->i_bytes_consumed = 1;
       return err_code;
     }
-
-    pstr_dec_data->binaural_handle.str_binaural.memory_index +=
-        2048; // TODO: Replace 2048, with variable
   }
 
   pstr_output_config->i_bytes_consumed = p_obj_mpegh_dec->p_state_mpeghd->i_bytes_consumed;
@@ -1225,6 +1247,10 @@ ia_core_coder_decoder_flush_api(ia_mpegh_dec_api_struct *p_obj_mpegh_dec)
   p_obj_mpegh_dec->p_state_mpeghd->decode_create_done = 0;
 
   err = ia_core_coder_dec_init(p_obj_mpegh_dec);
+  if (err == IA_MPEGH_DEC_NO_ERROR && p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
+  {
+    err = impeghd_init_binaural_renderer(p_obj_mpegh_dec);
+  }
   if (err != IA_MPEGH_DEC_NO_ERROR)
   {
     /* nothing can be decoded until another configuration is accepted */
-- 
2.43.0


From aefa1040947b4cec20890b5e5f03e719458aff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 73/97] fix: binaural: short impulse responses made the block
 length negative

---
 decoder/impeghd_api.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 0e144ab..6612249 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -624,8 +624,10 @@ static IA_ERRORCODE impeghd_init_binaural_renderer(ia_mpegh_dec_api_struct *p_ob
     return err_code;
   }
 
-  pstr_dec_data->binaural_handle.str_binaural.memory_index +=
-      2048; // TODO: Replace 2048, with variable
+  /* the block that is being filled cannot hold more than its length */
+  pstr_dec_data->binaural_handle.str_binaural.memory_index += ia_min_int(
+      2048, pstr_dec_data->binaural_handle.str_binaural
+                .processed_samples); // TODO: Replace 2048, with variable
   return IA_MPEGH_DEC_NO_ERROR;
 }
 
-- 
2.43.0


From 9d429f2d1019c7ec5c852286313716bd593ed52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 74/97] fix: binaural: loudness normalisation was not applied
 to binaural output

---
 decoder/ia_core_coder_decode_main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 7e6cf5c..2524952 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2879,9 +2879,15 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
           {
             FLOAT32 *ptr_samples =
                 pstr_dec_data->binaural_handle.ptr_binaural_signal_out_renderer[grp];
+            FLOAT32 scale = 32768.0f;
+            if (preroll_units <= 0 || !mpegh_dec_handle->p_config->discard_au_preroll)
+            {
+              scale *= (FLOAT32)pow(
+                  10.0, pstr_asc->str_usac_config.uni_drc_cfg.loudness_gain_db / 20.0);
+            }
             for (s = 0; s < num_samples_processed; s++)
             {
-              ptr_samples[s] = ia_mul_flt(ptr_samples[s], 32768.0f);
+              ptr_samples[s] = ia_mul_flt(ptr_samples[s], scale);
             }
             pstr_dec_data->ptr_binaural_output[grp] = ptr_samples;
           }
-- 
2.43.0


From c8625ea9721dcbb736e3ecf90ff0e936629f64a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 75/97] fix: binaural: output is not resampled, so it must not
 be announced at the requested rate

---
 decoder/ia_core_coder_decode_main.c | 3 ++-
 decoder/impeghd_api.c               | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 2524952..217d1b1 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -1887,7 +1887,8 @@ IA_ERRORCODE ia_core_coder_dec_process_frame_zero(VOID *temp_handle, WORD32 *num
     p_config->stream_samp_freq = samp_freq;
     p_config->out_samp_freq = samp_freq;
     p_config->resample_output = 0;
-    if (p_config->enable_resamp && (UWORD32)samp_freq != p_config->req_out_samp_freq)
+    if (p_config->enable_resamp && !p_config->ui_binaural_flag &&
+        (UWORD32)samp_freq != p_config->req_out_samp_freq)
     {
       p_config->out_samp_freq = p_config->req_out_samp_freq;
       if (impeghd_resampler_get_sampling_ratio(p_config))
diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 6612249..1ef3072 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -861,7 +861,9 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     p_obj_mpegh_dec->mpeghd_config.ui_samp_freq = 0;
     p_obj_mpegh_dec->p_state_mpeghd->prev_cfg_len = 0;
   }
-  if (pstr_input_config->enable_resamp == 1 && p_obj_mpegh_dec->mpeghd_config.ui_samp_freq != 0)
+  if (pstr_input_config->enable_resamp == 1 &&
+      p_obj_mpegh_dec->mpeghd_config.ui_samp_freq != 0 &&
+      !p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
   {
     IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
     if (p_obj_mpegh_dec->mpeghd_config.ui_samp_freq != pstr_input_config->out_samp_freq)
-- 
2.43.0


From fd390bf8c1c5c571db78617ba54bf919179ab7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:26 +0000
Subject: [PATCH 76/97] fix: binaural: spectra of 4096 and more points were
 computed wrongly

---
 decoder/impeghd_ifft.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/decoder/impeghd_ifft.c b/decoder/impeghd_ifft.c
index 0ab3723..a051769 100644
--- a/decoder/impeghd_ifft.c
+++ b/decoder/impeghd_ifft.c
@@ -1182,16 +1182,16 @@ VOID impeghd_cplx_ifft_8(FLOAT32 *x_r, FLOAT32 *x_i)
   x_i[0] = ia_add_flt(n01, x_1);
   x_r[1] = ia_add_flt(n10, x_2);
   x_i[1] = ia_add_flt(n11, x_3);
-  x_r[2] = ia_sub_flt(n21, x_4);
-  x_i[2] = ia_add_flt(n20, x_5);
+  x_r[2] = ia_sub_flt(n20, x_5);
+  x_i[2] = ia_add_flt(n21, x_4);
   x_r[3] = ia_add_flt(n30, x_6);
   x_i[3] = ia_add_flt(n31, x_7);
   x_r[4] = ia_sub_flt(n00, x_0);
   x_i[4] = ia_sub_flt(n01, x_1);
   x_r[5] = ia_sub_flt(n10, x_2);
   x_i[5] = ia_sub_flt(n11, x_3);
-  x_r[6] = ia_add_flt(n21, x_4);
-  x_i[6] = ia_sub_flt(n20, x_5);
+  x_r[6] = ia_add_flt(n20, x_5);
+  x_i[6] = ia_sub_flt(n21, x_4);
   x_r[7] = ia_sub_flt(n30, x_6);
   x_i[7] = ia_sub_flt(n31, x_7);
 
@@ -1220,12 +1220,12 @@ VOID impeghd_cplx_ifft_4(FLOAT32 *x_r, FLOAT32 *x_i)
   // 4 Point FFT
   x_0 = x_r[0];
   x_1 = x_i[0];
-  x_2 = x_r[2];
-  x_3 = x_i[2];
-  x_4 = x_r[4];
-  x_5 = x_i[4];
-  x_6 = x_r[6];
-  x_7 = x_i[6];
+  x_2 = x_r[1];
+  x_3 = x_i[1];
+  x_4 = x_r[2];
+  x_5 = x_i[2];
+  x_6 = x_r[3];
+  x_7 = x_i[3];
 
   xh0_0 = ia_add_flt(x_0, x_4);
   xh1_0 = ia_add_flt(x_1, x_5);
@@ -1251,7 +1251,7 @@ VOID impeghd_cplx_ifft_4(FLOAT32 *x_r, FLOAT32 *x_i)
 /**
  *  impeghd_cplx_ifft_8k
  *
- *  \brief Generic radix-2 complex IFFT for sizes greater than 1024 upto 8192
+ *  \brief Generic radix-2 complex IFFT for sizes greater than 1024 upto 16384
  *
  *  \param [in,out] ptr_in_buf_real Pointer to real part data buffer
  *  \param [in,out] ptr_in_buf_imag Pointer to imaginary part data buffer
@@ -1322,7 +1322,16 @@ VOID impeghd_cplx_ifft_8k(FLOAT32 *ptr_in_buf_real, FLOAT32 *ptr_in_buf_imag,
         ptr_fft_interim_buf[(2 * i + 1) * dim2 + j] = temp_imag;
       }
     }
-    if (fft_len == 8192)
+    if (fft_len == 16384)
+    {
+      for (i = 0; i < dim1; i++)
+      {
+        ptr_data_r = &ptr_fft_interim_buf[(2 * i + 0) * dim2];
+        ptr_data_i = &ptr_fft_interim_buf[(2 * i + 1) * dim2];
+        impeghd_rad2_cplx_ifft(ptr_data_r, ptr_data_i, dim2, ptr_scratch_buf);
+      }
+    }
+    else if (fft_len == 8192)
     {
       for (i = 0; i < dim1; i++)
       {
-- 
2.43.0


From 65670a15fc46c2adc81454b2373c5540112c3d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:26 +0000
Subject: [PATCH 77/97] fix: binaural: a single-sample response asked for a
 transform length that is not supported

---
 decoder/impeghd_binaural_renderer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_binaural_renderer.c b/decoder/impeghd_binaural_renderer.c
index 967053d..8afa2f1 100644
--- a/decoder/impeghd_binaural_renderer.c
+++ b/decoder/impeghd_binaural_renderer.c
@@ -193,7 +193,7 @@ static IA_ERRORCODE impeghd_binaural_struct_init(WORD32 direct_len, WORD32 diffu
 {
   WORD32 len, n;
   WORD32 fft_min_size;
-  n = 1;
+  n = 2; /* the transforms need at least four points */
   if (diffuse_len > BINAURAL_DIF_MAXLEN || direct_len > BINAURAL_DIR_MAXLEN)
   {
     return IA_MPEGH_BINAURAL_INIT_FATAL_UNSUPPORTED_BLOCK_LENGTH;
-- 
2.43.0


From dd6b8a4c867e02ba3334b9a960f52a9b9b32f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 78/97] fix: binaural: only the first two channels were
 rendered after the first frame

---
 decoder/ia_core_coder_decode_main.c | 7 +++++++
 decoder/impeghd_binaural_renderer.c | 1 +
 decoder/impeghd_binaural_renderer.h | 1 +
 3 files changed, 9 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 217d1b1..ea528af 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2776,6 +2776,12 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
 
       num_samples_out = pstr_dec_data->str_usac_data.output_samples;
 
+      if (handle->mpeghd_config.ui_binaural_flag && pstr_dec_data->binaural_handle.num_feeds)
+      {
+        /* the previous frame left the two ears, not the channels they are made of */
+        *num_channel_out = pstr_dec_data->binaural_handle.num_feeds;
+      }
+
       err_code = ia_core_coder_dec_ext_ele_proc(temp_handle, num_channel_out);
       if (err_code != IA_MPEGH_DEC_NO_ERROR)
       {
@@ -2893,6 +2899,7 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
             pstr_dec_data->ptr_binaural_output[grp] = ptr_samples;
           }
         }
+        pstr_dec_data->binaural_handle.num_feeds = *num_channel_out;
         *num_channel_out = BINAURAL_NB_OUTPUT;
         num_samples_out = num_samples_processed;
       }
diff --git a/decoder/impeghd_binaural_renderer.c b/decoder/impeghd_binaural_renderer.c
index 8afa2f1..6cde3b7 100644
--- a/decoder/impeghd_binaural_renderer.c
+++ b/decoder/impeghd_binaural_renderer.c
@@ -440,6 +440,7 @@ IA_ERRORCODE impeghd_binaural_renderer_init(ia_binaural_renderer *binaural_info_
   impeghd_binaural_struct_set(&(binaural_handle->str_binaural), ptr_scratch,
                               ptr_td_binaural_renderer_param);
 
+  binaural_handle->num_feeds = 0;
   binaural_handle->ptr_work = pstr_scratch->work_buffer;
   ia_core_coder_memset(binaural_handle->ptr_work, binaural_handle->str_binaural.filter_size);
 
diff --git a/decoder/impeghd_binaural_renderer.h b/decoder/impeghd_binaural_renderer.h
index 39b5aba..8daf65e 100644
--- a/decoder/impeghd_binaural_renderer.h
+++ b/decoder/impeghd_binaural_renderer.h
@@ -79,6 +79,7 @@ typedef struct
 {
   ia_binaural_ren_pers_mem_str str_binaural;
   WORD32 channel_map[MAX_NUM_BRIR_PAIRS];
+  WORD32 num_feeds;
   FLOAT32 binaural_signal_in_renderer[MAX_NUM_BRIR_CHANNELS][BINAURAL_TEST_LGR_SIGNAL];
   FLOAT32 binaural_signal_out_renderer[BINAURAL_NB_OUTPUT][BINAURAL_DIR_MAXLEN];
   FLOAT32 *ptr_binaural_signal_in_renderer[MAX_NUM_BRIR_CHANNELS];
-- 
2.43.0


From 64d21a8b08acd72182373a0405386274c5326023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 79/97] fix: binaural: channels of a converted scene were
 mapped by the number of channels before conversion

---
 decoder/impeghd_api.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 1ef3072..47f7477 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -606,7 +606,14 @@ static IA_ERRORCODE impeghd_init_binaural_renderer(ia_mpegh_dec_api_struct *p_ob
   ia_binaural_renderer *pstr_binaural_rendering = &pstr_dec_data->str_binaural_rendering;
   wav_info.fs_input = p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
   wav_info.num_speaker_expected = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
-  wav_info.num_channel_is_input = (p_obj_mpegh_dec->mpeghd_config.ui_n_channels);
+  if (pstr_audio_specific_config->str_usac_config.signals_3d.format_converter_enable == 1 &&
+      p_obj_mpegh_dec->p_state_mpeghd->state_format_conv.fc_params != NULL)
+  {
+    /* the channels that are rendered are those the converter puts out */
+    wav_info.num_speaker_expected =
+        p_obj_mpegh_dec->p_state_mpeghd->state_format_conv.fc_params->num_out_ch;
+  }
+  wav_info.num_channel_is_input = wav_info.num_speaker_expected;
   if (p_obj_mpegh_dec->mpeghd_config.ui_cicp_layout_idx == 0)
   {
     wav_info.cicp_spk_idx = pstr_audio_specific_config->ref_spk_layout.cicp_spk_layout_idx;
-- 
2.43.0


From b8aea7844ce845dd4bf08a49b8e11ee9ca4ee257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 80/97] fix: accept stereo filling of rotated channel pairs
 when the number of bands is even

---
 decoder/impeghd_multichannel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_multichannel.c b/decoder/impeghd_multichannel.c
index f906016..a64897e 100644
--- a/decoder/impeghd_multichannel.c
+++ b/decoder/impeghd_multichannel.c
@@ -761,7 +761,7 @@ IA_ERRORCODE impeghd_mc_get_prev_dmx(ia_multichannel_data *ptr_mc_data, FLOAT32
                                         &ptr_prev_dmx[start_line], rot_angle,
                                         stop_line - start_line);
       sfb += 2;
-      if (sfb >= total_sfb)
+      if (sfb >= total_sfb - 1)
       {
         break;
       }
-- 
2.43.0


From 7a8aff8de849f2597eabbe6fa55916c2728a8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 81/97] fix: fill multichannel pairs along the window groups of
 their own channel

---
 decoder/ia_core_coder_process.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/decoder/ia_core_coder_process.c b/decoder/ia_core_coder_process.c
index b090bec..776fcf9 100644
--- a/decoder/ia_core_coder_process.c
+++ b/decoder/ia_core_coder_process.c
@@ -974,6 +974,11 @@ IA_ERRORCODE ia_core_coder_usac_process(ia_dec_data_struct *pstr_dec_data, VOID
         FLOAT32 *prevSpec2 = mct->prev_out_spec[mct->code_pairs[i][1] + mct->start_channel];
         WORD32 sfb;
 
+        if (!pstr_usac_dec_config->ia_sfb_info[ch2]->islong)
+        {
+          ia_core_coder_calc_grp_offset(pstr_usac_data->pstr_sfb_info[ch2],
+                                        &pstr_usac_data->group_dis[ch2][0]);
+        }
         for (win = 0, group = 0; group < pstr_usac_dec_config->ia_sfb_info[ch2]->num_groups;
              group++)
         {
-- 
2.43.0


From 0d6308c0fa4ce8c477a1482096eb270243862208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 82/97] fix: audio scene information: preset conditions were
 checked against the group at the preset's own position

---
 decoder/impeghd_mhas_parse.c | 54 +++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index e742de5..a82d83a 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -459,6 +459,31 @@ impeghd_mae_asi_switch_group_def(ia_mae_switch_group_def *pstr_switch_group_defi
   return IA_MPEGH_DEC_NO_ERROR;
 }
 
+/**
+ *  impeghd_mae_asi_ref_group
+ *
+ *  \brief Find the definition of the group with a given id
+ *
+ *  \param [in] pstr_group_definition Pointer to group definition
+ *  \param [in] num_grps              Number of groups
+ *  \param [in] group_id              Group id
+ *
+ *  \return Pointer to the definition, NULL if there is no such group
+ *
+ */
+static ia_mae_group_def *impeghd_mae_asi_ref_group(ia_mae_group_def *pstr_group_definition,
+                                                   WORD32 num_grps, WORD32 group_id)
+{
+  for (WORD32 grp = 0; grp < num_grps; grp++)
+  {
+    if (pstr_group_definition[grp].group_id == group_id)
+    {
+      return &pstr_group_definition[grp];
+    }
+  }
+  return NULL;
+}
+
 /**
  *  impeghd_mae_asi_group_presets_def
  *
@@ -475,7 +500,8 @@ impeghd_mae_asi_switch_group_def(ia_mae_switch_group_def *pstr_switch_group_defi
 static IA_ERRORCODE
 impeghd_mae_asi_group_presets_def(ia_mae_group_presets_def *pstr_group_presets_definition,
                                   ia_mae_group_def *pstr_group_definition,
-                                  ia_bit_buf_struct *pstr_bit_buf, WORD32 num_grp_presets)
+                                  WORD32 num_grps, ia_bit_buf_struct *pstr_bit_buf,
+                                  WORD32 num_grp_presets)
 {
   for (WORD32 grp = 0; grp < num_grp_presets; grp++)
   {
@@ -505,6 +531,9 @@ impeghd_mae_asi_group_presets_def(ia_mae_group_presets_def *pstr_group_presets_d
     {
       pstr_group_presets_definition[grp].reference_id[cnt] =
           (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
+      ia_mae_group_def *pstr_ref_group =
+          impeghd_mae_asi_ref_group(pstr_group_definition, num_grps,
+                                    pstr_group_presets_definition[grp].reference_id[cnt]);
 
       if ((pstr_group_presets_definition[grp].cond_on_off[cnt] =
                (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
@@ -521,7 +550,7 @@ impeghd_mae_asi_group_presets_def(ia_mae_group_presets_def *pstr_group_presets_d
 
         /*mae_groupPresetGainFlag shall be 0 if mae_allowGainInteractivity of the referenced group
          * is 0*/
-        if ((pstr_group_definition[grp].allow_gain_interact == 0) &&
+        if ((pstr_ref_group != NULL) && (pstr_ref_group->allow_gain_interact == 0) &&
             (pstr_group_presets_definition[grp].gain_flag[cnt] != 0))
         {
           return IA_MPEGH_DEC_INIT_FATAL_ASI_PRESET_GRP_DEF_CONFIG_FAIL;
@@ -545,7 +574,7 @@ impeghd_mae_asi_group_presets_def(ia_mae_group_presets_def *pstr_group_presets_d
 
         /*mae_groupPresetPositionFlag shall be 0 if mae_allowPositionInteractivity of the
         referenced group is 0*/
-        if ((pstr_group_definition[grp].allow_pos_interact == 0) &&
+        if ((pstr_ref_group != NULL) && (pstr_ref_group->allow_pos_interact == 0) &&
             (pstr_group_presets_definition[grp].position_interact[cnt] != 0))
         {
           return IA_MPEGH_DEC_INIT_FATAL_ASI_PRESET_GRP_DEF_CONFIG_FAIL;
@@ -570,7 +599,7 @@ impeghd_mae_asi_group_presets_def(ia_mae_group_presets_def *pstr_group_presets_d
  */
 static IA_ERRORCODE impeghd_mae_asi_group_presets_def_ext(
     ia_mae_group_presets_ext_def *pstr_grp_presets_ext_definition,
-    ia_mae_group_def *pstr_group_definition, ia_bit_buf_struct *pstr_bit_buf,
+    ia_mae_group_def *pstr_group_definition, WORD32 num_grps, ia_bit_buf_struct *pstr_bit_buf,
     WORD32 num_grp_presets, WORD32 num_conditions)
 {
   WORD32 grp, cnt, idx;
@@ -608,6 +637,7 @@ static IA_ERRORCODE impeghd_mae_asi_group_presets_def_ext(
         for (idx = 0;
              idx < pstr_grp_presets_ext_definition->group_preset_num_conditions[grp][cnt]; idx++)
         {
+          ia_mae_group_def *pstr_ref_group = NULL;
           if ((pstr_grp_presets_ext_definition
                    ->downmix_id_is_switch_group_condition[grp][cnt][idx] =
                    ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
@@ -619,6 +649,9 @@ static IA_ERRORCODE impeghd_mae_asi_group_presets_def_ext(
           {
             pstr_grp_presets_ext_definition->group_preset_group_id[grp][cnt][idx] =
                 ia_core_coder_read_bits_buf(pstr_bit_buf, 7);
+            pstr_ref_group = impeghd_mae_asi_ref_group(
+                pstr_group_definition, num_grps,
+                pstr_grp_presets_ext_definition->group_preset_group_id[grp][cnt][idx]);
           }
           if ((pstr_grp_presets_ext_definition->group_preset_condition_on_off[grp][cnt][idx] =
                    ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
@@ -630,7 +663,7 @@ static IA_ERRORCODE impeghd_mae_asi_group_presets_def_ext(
             /*mae_groupPresetDisableGainInteractivity shall be 1 if mae_allowGainInteractivity of
             the
             referenced group is 0*/
-            if ((pstr_group_definition[grp].allow_gain_interact == 0) &&
+            if ((pstr_ref_group != NULL) && (pstr_ref_group->allow_gain_interact == 0) &&
                 (pstr_grp_presets_ext_definition
                      ->group_preset_disable_gain_interactivity[grp][cnt][idx] != 1))
             {
@@ -646,7 +679,7 @@ static IA_ERRORCODE impeghd_mae_asi_group_presets_def_ext(
 
             /*mae_groupPresetGainFlag shall be 0 if mae_allowGainInteractivity of the
             referenced group is 0*/
-            if ((pstr_group_definition[grp].allow_gain_interact == 0) &&
+            if ((pstr_ref_group != NULL) && (pstr_ref_group->allow_gain_interact == 0) &&
                 (pstr_grp_presets_ext_definition->group_preset_gain_flag[grp][cnt][idx] != 0))
             {
               return IA_MPEGH_DEC_INIT_FATAL_ASI_PRESET_GRP_DEF_EXT_CONFIG_FAIL;
@@ -658,7 +691,7 @@ static IA_ERRORCODE impeghd_mae_asi_group_presets_def_ext(
             /*mae_groupPresetDisablePositionInteractivity shall be 1 if
             mae_allowPositionInteractivity of the
             referenced group is 0*/
-            if ((pstr_group_definition[grp].allow_pos_interact == 0) &&
+            if ((pstr_ref_group != NULL) && (pstr_ref_group->allow_pos_interact == 0) &&
                 (pstr_grp_presets_ext_definition
                      ->group_preset_disable_pos_interactiviy[grp][cnt][idx] != 1))
             {
@@ -678,7 +711,7 @@ static IA_ERRORCODE impeghd_mae_asi_group_presets_def_ext(
 
             /*mae_groupPresetPositionFlag shall be 0 if mae_allowPositionInteractivity of the
             referenced group is 0*/
-            if ((pstr_group_definition[grp].allow_pos_interact == 0) &&
+            if ((pstr_ref_group != NULL) && (pstr_ref_group->allow_pos_interact == 0) &&
                 (pstr_grp_presets_ext_definition->group_preset_position_flag[grp][cnt][idx] != 0))
             {
               return IA_MPEGH_DEC_INIT_FATAL_ASI_PRESET_GRP_DEF_EXT_CONFIG_FAIL;
@@ -1016,7 +1049,7 @@ static IA_ERRORCODE impeghd_mae_asi_data_parse(ia_mae_audio_scene_info *pstr_mae
       }
       err_code = impeghd_mae_asi_group_presets_def_ext(
           &pstr_mae_asi->group_presets_ext_definition, &pstr_mae_asi->group_definition[0],
-          pstr_bit_buf, pstr_mae_asi->num_group_presets,
+          pstr_mae_asi->num_groups, pstr_bit_buf, pstr_mae_asi->num_group_presets,
           pstr_mae_asi->group_presets_definition[0].num_conditions);
       if (err_code != IA_MPEGH_DEC_NO_ERROR)
       {
@@ -1180,7 +1213,8 @@ IA_ERRORCODE impeghd_mae_asi_parse(ia_mae_audio_scene_info *pstr_mae_asi,
       return IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUPS_PRESETS;
     }
     err_code = impeghd_mae_asi_group_presets_def(&pstr_mae_asi->group_presets_definition[0],
-                                                 &pstr_mae_asi->group_definition[0], pstr_bit_buf,
+                                                 &pstr_mae_asi->group_definition[0],
+                                                 pstr_mae_asi->num_groups, pstr_bit_buf,
                                                  pstr_mae_asi->num_group_presets);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
     {
-- 
2.43.0


From b35866a7bb1f36c5278b16144ed1be5a96370376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 83/97] fix: local set-up: a layout index or number of
 loudspeakers beyond the layout was used to index the loudspeaker tables

---
 decoder/impeghd_obj_ren_dec.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_obj_ren_dec.c b/decoder/impeghd_obj_ren_dec.c
index 3e9d85d..a80c38c 100644
--- a/decoder/impeghd_obj_ren_dec.c
+++ b/decoder/impeghd_obj_ren_dec.c
@@ -120,6 +120,8 @@ static IA_ERRORCODE impeghd_flex_spk_2_ls_geometry(ia_cicp_ls_geo_str *array_cic
   WORD32 num_speakers;
   ia_flex_spk_data_str *ptr_flex_spk = &ptr_ref_spk_layout->str_flex_spk;
   num_speakers = ptr_ref_spk_layout->num_speakers;
+  *num_channels = num_speakers;
+  *num_lfe = 0;
 
   if (ptr_ref_spk_layout->spk_layout_type == 2)
   {
@@ -1088,12 +1090,10 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
     if (pstr_local_setup->enable_ele_int == 0)
     {
       cicp_idx = ptr_obj_ren_dec_state->cicp_out_idx;
-      ptr_obj_ren_dec_state->num_cicp_speakers = impgehd_cicp_get_num_ls[cicp_idx];
     }
     else
     {
       cicp_idx = pstr_local_setup->spk_config.cicp_spk_layout_idx;
-      ptr_obj_ren_dec_state->num_cicp_speakers = impgehd_cicp_get_num_ls[cicp_idx];
     }
     if (cicp_idx <= 0 || cicp_idx == 8 || cicp_idx > NUM_LS_CFGS)
     {
@@ -1101,6 +1101,7 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
     }
     else
     {
+      ptr_obj_ren_dec_state->num_cicp_speakers = impgehd_cicp_get_num_ls[cicp_idx];
       in_channel_names = ia_cicp_idx_ls_set_map_tbl[cicp_idx];
       in_num_channels = impgehd_cicp_get_num_ls[cicp_idx];
       in_num_lfes = 0;
@@ -1115,6 +1116,10 @@ IA_ERRORCODE impeghd_obj_renderer_dec_init(ia_obj_ren_dec_state_struct *ptr_obj_
   }
   if (pstr_local_setup->enable_ele_int == 1)
   {
+    if (pstr_local_setup->num_spk > (UWORD32)in_num_channels)
+    {
+      return IA_MPEGH_DEC_INIT_FATAL_INVALID_CICP_SPKR_INDEX;
+    }
     for (UWORD32 k = 0; k < pstr_local_setup->num_spk; k++)
     {
       pstr_local_setup->ptr_cicp_ls_geo[k].ls_elevation =
-- 
2.43.0


From 321312719bc14f915bbc62f137b55681b3159351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 84/97] fix: metadata preprocessing: switch groups naming
 unknown groups wrote outside the on/off list

---
 decoder/impeghd_metadata_preprocessor.c | 34 ++++++++++++++++++-------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 040aa1e..24eb208 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -2687,6 +2687,10 @@ static IA_ERRORCODE impehgd_apply_switch_group_off(ia_audio_specific_config_stru
       }
     }
 
+    if (grp_index == -1)
+    {
+      continue;
+    }
     if (group_id2 != group_id)
     {
       if (on_off_status_modified[grp_index] == 1)
@@ -2742,7 +2746,7 @@ impeghd_md_proc_apply_switch_grp_logic(ia_interaction_data_struct *pstr_interact
     {
       idx = impeghd_md_proc_grp_idx(pstr_asc,
                                     pstr_mae_asi->switch_group_definition[i].member_id[k]);
-      if (pstr_interact_cfg->on_off_status_modified[idx] == 1)
+      if ((idx > -1) && (pstr_interact_cfg->on_off_status_modified[idx] == 1))
       {
         num_non_zero++;
       }
@@ -2759,7 +2763,10 @@ impeghd_md_proc_apply_switch_grp_logic(ia_interaction_data_struct *pstr_interact
       if (sw_grp_allow_on_off != 1)
       {
         idx = impeghd_md_proc_grp_idx(pstr_asc, default_id);
-        pstr_interact_cfg->on_off_status_modified[idx] = 1;
+        if (idx > -1)
+        {
+          pstr_interact_cfg->on_off_status_modified[idx] = 1;
+        }
       }
       else
       {
@@ -2774,12 +2781,18 @@ impeghd_md_proc_apply_switch_grp_logic(ia_interaction_data_struct *pstr_interact
         if (default_id != member_id)
         {
           idx = impeghd_md_proc_grp_idx(pstr_asc, member_id);
-          pstr_interact_cfg->on_off_status_modified[idx] = 0;
+          if (idx > -1)
+          {
+            pstr_interact_cfg->on_off_status_modified[idx] = 0;
+          }
         }
         else
         {
           idx = impeghd_md_proc_grp_idx(pstr_asc, default_id);
-          pstr_interact_cfg->on_off_status_modified[idx] = 1;
+          if (idx > -1)
+          {
+            pstr_interact_cfg->on_off_status_modified[idx] = 1;
+          }
         }
       }
     }
@@ -3098,8 +3111,8 @@ static IA_ERRORCODE impeghd_apply_on_off_intrct(ia_interaction_data_struct *pstr
               for (j = 0; j < pstr_mae_asi->switch_group_definition[k].group_num_members; j++)
               {
                 idx = impeghd_md_proc_grp_idx(
-                    pstr_asc, pstr_mae_asi->switch_group_definition[i].member_id[k]);
-                if (pstr_interact_cfg->on_off_status_modified[idx] == 1)
+                    pstr_asc, pstr_mae_asi->switch_group_definition[k].member_id[j]);
+                if ((idx > -1) && (pstr_interact_cfg->on_off_status_modified[idx] == 1))
                 {
                   pstr_interact_cfg->on_off_status_modified[idx] = 0;
                 }
@@ -3130,8 +3143,8 @@ static IA_ERRORCODE impeghd_apply_on_off_intrct(ia_interaction_data_struct *pstr
             for (j = 0; j < pstr_mae_asi->switch_group_definition[k].group_num_members; j++)
             {
               idx = impeghd_md_proc_grp_idx(
-                  pstr_asc, pstr_mae_asi->switch_group_definition[i].member_id[k]);
-              if (pstr_interact_cfg->on_off_status_modified[idx] == 1)
+                  pstr_asc, pstr_mae_asi->switch_group_definition[k].member_id[j]);
+              if ((idx > -1) && (pstr_interact_cfg->on_off_status_modified[idx] == 1))
               {
                 num_non_zero++;
               }
@@ -3139,7 +3152,10 @@ static IA_ERRORCODE impeghd_apply_on_off_intrct(ia_interaction_data_struct *pstr
             if (num_non_zero == 0)
             {
               idx = impeghd_md_proc_grp_idx(pstr_asc, default_id);
-              pstr_interact_cfg->on_off_status_modified[idx] = 1;
+              if (idx > -1)
+              {
+                pstr_interact_cfg->on_off_status_modified[idx] = 1;
+              }
             }
             else if (num_non_zero > 1)
             {
-- 
2.43.0


From 686baa49b0cfc2a303f7cf952c612d19e529282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 85/97] fix: metadata preprocessing: group members beyond the
 decoded signals were used as signal indices

---
 decoder/impeghd_metadata_preprocessor.c | 59 +++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 24eb208..45d5256 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -584,6 +584,59 @@ WORD32 impeghd_md_proc_signal_group_type(ia_audio_specific_config_struct *pstr_a
   return group_type;
 }
 
+/**
+ *  impeghd_md_proc_check_members
+ *
+ *  \brief Checks that the members of all groups are signals the decoder holds.
+ *
+ *  \param [in]  pstr_asc        Pointer to audio scene config structure.
+ *  \param [in]  pstr_signals_3d Pointer to 3d signals depiction structure.
+ *
+ *  \return IA_ERRORCODE Processing error if any.
+ *
+ */
+static IA_ERRORCODE impeghd_md_proc_check_members(ia_audio_specific_config_struct *pstr_asc,
+                                                  ia_signals_3d *pstr_signals_3d)
+{
+  WORD32 i, j;
+  WORD32 member_id;
+  WORD32 num_objects = 0;
+  ia_mae_audio_scene_info *pstr_mae_asi = &pstr_asc->str_mae_asi;
+
+  for (i = 0; i < pstr_mae_asi->num_groups; i++)
+  {
+    ia_mae_group_def *pstr_group = &pstr_mae_asi->group_definition[i];
+    for (j = 0; j < pstr_group->group_num_members; j++)
+    {
+      if (!(pstr_group->has_conjunct_members))
+      {
+        member_id = pstr_group->metadata_ele_id[j];
+      }
+      else
+      {
+        member_id = pstr_group->start_id + j;
+      }
+      if ((member_id < 0) || (member_id >= MAX_NUM_CHANNELS))
+      {
+        return IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS;
+      }
+    }
+    if (pstr_group->group_num_members > MAX_NUM_CHANNELS)
+    {
+      return IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS;
+    }
+    if (impeghd_md_proc_signal_group_type(pstr_asc, pstr_signals_3d, i) == 1)
+    {
+      num_objects += pstr_group->group_num_members;
+    }
+  }
+  if (num_objects > MAX_NUM_OAM_OBJS)
+  {
+    return IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS;
+  }
+  return IA_MPEGH_DEC_NO_ERROR;
+}
+
 /**
  *  impeghd_md_proc_grp_idx
  *
@@ -4520,6 +4573,12 @@ static IA_ERRORCODE impeghd_mp_process_frame(ia_audio_specific_config_struct *ps
     }
   }
 
+  error = impeghd_md_proc_check_members(pstr_asc, pstr_signals_3d);
+  if (error)
+  {
+    return error;
+  }
+
   for (i = 0; i < pstr_mae_asi->num_groups; i++)
   {
     pstr_interact_cfg->on_off_status_modified[i] = 0;
-- 
2.43.0


From 512028b5d834816312541f2752b2e47cf053f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 86/97] fix: audio scene information: groups of 128 members and
 descriptions of 128 or more characters had negative lengths

---
 decoder/impeghd_mhas_parse.c | 4 ++--
 decoder/impeghd_mhas_parse.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoder/impeghd_mhas_parse.c b/decoder/impeghd_mhas_parse.c
index a82d83a..9681582 100644
--- a/decoder/impeghd_mhas_parse.c
+++ b/decoder/impeghd_mhas_parse.c
@@ -93,7 +93,7 @@ static IA_ERRORCODE impeghd_mae_parse_description_data(ia_description_data *pstr
       pstr_description_data->descr_language[blk][cnt] =
           ia_core_coder_read_bits_buf(pstr_bit_buf, 24);
       pstr_description_data->descr_data_length[blk][cnt] =
-          (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 8) + 1;
+          ia_core_coder_read_bits_buf(pstr_bit_buf, 8) + 1;
 
       for (WORD32 idx = 0; idx < pstr_description_data->descr_data_length[blk][cnt]; idx++)
       {
@@ -387,7 +387,7 @@ static IA_ERRORCODE impeghd_mae_asi_group_def(ia_mae_group_def *pstr_group_defin
     }
 
     pstr_group_definition[grp].group_num_members =
-        (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 7) + 1;
+        ia_core_coder_read_bits_buf(pstr_bit_buf, 7) + 1;
 
     if ((pstr_group_definition[grp].has_conjunct_members =
              (WORD8)ia_core_coder_read_bits_buf(pstr_bit_buf, 1)))
diff --git a/decoder/impeghd_mhas_parse.h b/decoder/impeghd_mhas_parse.h
index 0fd72ea..4af5932 100644
--- a/decoder/impeghd_mhas_parse.h
+++ b/decoder/impeghd_mhas_parse.h
@@ -115,7 +115,7 @@ typedef struct
   WORD8 allow_pos_interact;
   WORD8 default_on_off;
   WORD8 group_id;
-  WORD8 group_num_members;
+  WORD32 group_num_members;
   WORD8 has_conjunct_members;
   WORD8 has_content_language;
   WORD8 max_az_offset;
@@ -136,7 +136,7 @@ typedef struct
   WORD8 allow_on_off;
   WORD8 default_on_off;
   WORD8 group_id;
-  WORD8 group_num_members;
+  WORD32 group_num_members;
   WORD8 member_id[MAX_SWITCH_GROUP_NUM_MEMBERS];
   WORD32 default_group_id;
 } ia_mae_switch_group_def;
@@ -222,7 +222,7 @@ typedef struct
 typedef struct
 {
   UWORD8 num_descr_blks;
-  WORD8 descr_data_length[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
+  WORD32 descr_data_length[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
   WORD8 descr_data[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES][MAX_DESCRIPTON_DATA_LEN];
   WORD32 descr_language[MAX_NUM_DESCRIPTOIN_BLOCKS][MAX_NUM_DESCR_LANGUAGES];
   WORD8 grp_id[MAX_NUM_DESCRIPTOIN_BLOCKS];
-- 
2.43.0


From 0b13214de556830a3b34958c9184a69689101534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 87/97] fix: metadata preprocessing: every scene with objects
 and presets failed with a divergence error

---
 decoder/impeghd_metadata_preprocessor.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 45d5256..bdae89c 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -4184,8 +4184,8 @@ static IA_ERRORCODE impeghd_md_proc_apply_div_proc(ia_interaction_data_struct *p
                    sizeof(pstr_dec_data->str_usac_data.time_sample_vector[source_el][0]) *
                        pstr_dec_data->str_usac_data.ccfl);
             count += 2;
-            ct++;
           }
+          ct++;
         }
         /* update size information of OAM multidata */
         new_oam_size += count;
@@ -4558,6 +4558,7 @@ static IA_ERRORCODE impeghd_mp_process_frame(ia_audio_specific_config_struct *ps
   pstr_interact_cfg->num_ele_in = 0;
   if (pstr_oam_dec_state->num_objects > 0)
   {
+    pstr_interact_cfg->num_objs_in = pstr_oam_dec_state->num_objects;
     pstr_interact_cfg->num_objs_out = pstr_oam_dec_state->num_objects + add_objects;
   }
 
-- 
2.43.0


From d9804ef338cc6f5defc121b809c5f84ada701cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 88/97] fix: metadata preprocessing: objects added for
 divergence were written beyond the object lists

---
 decoder/impeghd_metadata_preprocessor.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index bdae89c..53e274b 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -4039,6 +4039,15 @@ static IA_ERRORCODE impeghd_md_proc_apply_div_proc(ia_interaction_data_struct *p
 
           if (has_divergence)
           {
+            if ((pstr_interact_cfg->num_objs_in + count + 1 >= MAX_NUM_OAM_OBJS) ||
+                (pstr_interact_cfg->oam_count + *overall_num_div_objs_added + 2 >
+                 MAX_NUM_OAM_OBJS) ||
+                (pstr_interact_cfg->num_ele_in + *overall_num_div_objs_added + 2 >
+                 MAX_NUM_CHANNELS) ||
+                (pstr_mae_asi->group_definition[i].group_num_members + 2 > MAX_GROUP_NUM_MEMBERS))
+            {
+              return IA_MPEGH_MAE_EXE_FATAL_DIVERGENCE_ERROR;
+            }
             for (m = 0; m < pstr_interact_cfg->oam_count; m++)
             {
               if (pstr_interact_cfg->list_oam[m] == mae_id)
-- 
2.43.0


From bd80bb21147d14581165a684ed8bb8f8a96ebaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 89/97] fix: presets: a group without a condition took the
 condition of the group before it

---
 decoder/ia_core_coder_decode_main.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index ea528af..8aee839 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -993,6 +993,8 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
       WORD32 member_id = 0;
       WORD32 num_members = ptr_mae_asi->group_definition[grp].group_num_members;
       WORD32 has_conjuct_mbrs;
+      WORD32 grp_on_off;
+      grp_idx = -1;
       for (cond = 0; cond < ptr_mae_asi->group_presets_definition[pr_grp_idx].num_conditions;
            cond++)
       {
@@ -1002,11 +1004,10 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
           break;
         }
       }
-      if (grp_idx == -1)
-      {
-        /* Invalid Group Id */
-        return IA_MPEGH_DEC_EXE_FATAL_INVALID_GRP_ID;
-      }
+      /* groups the preset sets no condition for keep their default state */
+      grp_on_off = (grp_idx == -1)
+                       ? ptr_mae_asi->group_definition[grp].default_on_off
+                       : ptr_mae_asi->group_presets_definition[pr_grp_idx].cond_on_off[grp_idx];
       has_conjuct_mbrs = ptr_mae_asi->group_definition[grp].has_conjunct_members;
 
       for (mbr = 0; mbr < num_members; mbr++)
@@ -1024,7 +1025,7 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
         {
           return IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS;
         }
-        if (0 != ptr_mae_asi->group_presets_definition[pr_grp_idx].cond_on_off[grp_idx])
+        if (0 != grp_on_off)
         {
           ia_core_coder_mem_cpy(audio_in_buff[member_id], audio_out_buff[member_id], ccfl);
         }
-- 
2.43.0


From 5dcafeb61dc17dfbd63f36ec8f91ec285cd00d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 90/97] fix: element interaction: requests were applied to the
 groups by position instead of by group ID

---
 decoder/impeghd_ele_interaction_intrfc.c |  7 ++-
 decoder/impeghd_metadata_preprocessor.c  | 62 ++++++++++++++++++++++++
 2 files changed, 67 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_ele_interaction_intrfc.c b/decoder/impeghd_ele_interaction_intrfc.c
index ca55675..d67a6ed 100644
--- a/decoder/impeghd_ele_interaction_intrfc.c
+++ b/decoder/impeghd_ele_interaction_intrfc.c
@@ -312,6 +312,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
                                                     ia_mae_audio_scene_info *str_mae_asi)
 {
   WORD32 valid_id = 0;
+  WORD32 def_idx = 0;
   WORD32 num_grps = ptr_ele_intrctn->ei_num_groups;
   for (WORD32 grp = 0; grp < num_grps; grp++)
   {
@@ -324,6 +325,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
         if (str_mae_asi->group_definition[grp1].group_id == ptr_ele_intrctn->ei_grp_id[grp])
         {
           valid_id++;
+          def_idx = grp1;
         }
       }
       /*ei_groupID shall contain a valid groupID (ID of a group defined in the bitstream)*/
@@ -343,6 +345,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
       ptr_ele_intrctn->route_to_wire_id[grp] =
           (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 16);
     }
+    ptr_ele_intrctn->ei_gain[grp] = 64; /* 0 dB unless a change is requested */
     if (ptr_ele_intrctn->ei_on_off[grp] == 1)
     {
       ptr_ele_intrctn->ei_change_pos[grp] = (UWORD8)ia_core_coder_read_bits_buf(ptr_bit_buf, 1);
@@ -351,7 +354,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
       corresponding
       group equals 1*/
       if (str_mae_asi->asi_present &&
-          ((str_mae_asi->group_definition[grp].allow_pos_interact == 1) &&
+          ((str_mae_asi->group_definition[def_idx].allow_pos_interact == 1) &&
            (!ptr_ele_intrctn->ei_change_pos[grp])))
       {
         return IA_MPEGH_EI_INIT_FATAL_INVALID_CHANGE_POSITION;
@@ -370,7 +373,7 @@ static IA_ERRORCODE impeghd_ei_grp_intrctvty_status(ia_bit_buf_struct *ptr_bit_b
       group equals 1*/
 
       if (str_mae_asi->asi_present &&
-          ((str_mae_asi->group_definition[grp].allow_gain_interact == 1) &&
+          ((str_mae_asi->group_definition[def_idx].allow_gain_interact == 1) &&
            (!ptr_ele_intrctn->ei_change_gain[grp])))
       {
         return IA_MPEGH_EI_INIT_FATAL_INVALID_CHANGE_GAIN;
diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 53e274b..167da13 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -121,6 +121,13 @@
  * @{
  */
 
+#define ia_swap_ei(list, type)                                                                   \
+  {                                                                                              \
+    type temp = (list)[i];                                                                       \
+    (list)[i] = (list)[j];                                                                       \
+    (list)[j] = temp;                                                                            \
+  }
+
 /**
  *  impeghd_mp_ls_indivi_setups
  *
@@ -637,6 +644,52 @@ static IA_ERRORCODE impeghd_md_proc_check_members(ia_audio_specific_config_struc
   return IA_MPEGH_DEC_NO_ERROR;
 }
 
+/**
+ *  impeghd_md_proc_order_ei_groups
+ *
+ *  \brief Brings the element interaction groups into the order of the scene's groups.
+ *
+ *  \param [in]     pstr_asc     Pointer to audio scene config structure.
+ *  \param [in,out] pstr_ei_data Pointer to element interaction data structure.
+ *
+ *  \return IA_ERRORCODE Processing error if any.
+ *
+ */
+static IA_ERRORCODE impeghd_md_proc_order_ei_groups(ia_audio_specific_config_struct *pstr_asc,
+                                                    ia_ele_intrctn *pstr_ei_data)
+{
+  WORD32 i, j;
+  ia_mae_audio_scene_info *pstr_mae_asi = &pstr_asc->str_mae_asi;
+
+  for (i = 0; i < pstr_mae_asi->num_groups; i++)
+  {
+    j = i;
+    while ((j < pstr_mae_asi->num_groups) &&
+           (pstr_ei_data->ei_grp_id[j] != pstr_mae_asi->group_definition[i].group_id))
+    {
+      j++;
+    }
+    if (j == pstr_mae_asi->num_groups)
+    {
+      return IA_MPEGH_MAE_EXE_FATAL_ASI_NUM_GROUP_DIFFER;
+    }
+    if (j != i)
+    {
+      ia_swap_ei(pstr_ei_data->ei_grp_id, UWORD8);
+      ia_swap_ei(pstr_ei_data->ei_on_off, UWORD8);
+      ia_swap_ei(pstr_ei_data->ei_route_to_wire, UWORD8);
+      ia_swap_ei(pstr_ei_data->route_to_wire_id, WORD32);
+      ia_swap_ei(pstr_ei_data->ei_change_pos, UWORD8);
+      ia_swap_ei(pstr_ei_data->ei_az_offset, UWORD8);
+      ia_swap_ei(pstr_ei_data->ei_el_offset, UWORD8);
+      ia_swap_ei(pstr_ei_data->ei_dist_fact, UWORD8);
+      ia_swap_ei(pstr_ei_data->ei_change_gain, UWORD8);
+      ia_swap_ei(pstr_ei_data->ei_gain, UWORD8);
+    }
+  }
+  return IA_MPEGH_DEC_NO_ERROR;
+}
+
 /**
  *  impeghd_md_proc_grp_idx
  *
@@ -4561,6 +4614,15 @@ static IA_ERRORCODE impeghd_mp_process_frame(ia_audio_specific_config_struct *ps
     return IA_MPEGH_MAE_EXE_FATAL_ASI_NUM_GROUP_DIFFER;
   }
 
+  if (pstr_interact_cfg->apply_intrct_data == 1)
+  {
+    error = impeghd_md_proc_order_ei_groups(pstr_asc, pstr_ei_data);
+    if (error)
+    {
+      return error;
+    }
+  }
+
   /*************** init of processing ********************/
   pstr_interact_cfg->num_decoded_groups = pstr_mae_asi->num_groups;
   pstr_interact_cfg->num_switch_groups = pstr_mae_asi->num_switch_groups;
-- 
2.43.0


From aae89e112c75761d0bd3c99247e67cc0d515bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 91/97] fix: element interaction: groups that permit no gain
 changes were raised by 1 dB

---
 decoder/impeghd_metadata_preprocessor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 167da13..f55c1d5 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -2116,7 +2116,7 @@ static IA_ERRORCODE impeghd_md_proc_modified_gains(ia_interaction_data_struct *p
         }
         else
         {
-          pstr_interact_cfg->gain_modified_grp[i] = 1.0f;
+          pstr_interact_cfg->gain_modified_grp[i] = 0.0f;
         }
       }
     }
-- 
2.43.0


From ae7e92ead9e71de8634088b9bfe978a9ac6cc7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 92/97] fix: element interaction: a gain of -1 dB was not
 applied

---
 decoder/impeghd_metadata_preprocessor.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index f55c1d5..4702241 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -3933,7 +3933,6 @@ static IA_ERRORCODE impeghd_md_apply_gain_interactivity(
         {
           FLOAT32 current_gain_db = pstr_intrct_data->gain_modified_grp[i];
 
-          if (current_gain_db != -1.0f)
           {
             FLOAT32 prev_gain_db = pstr_intrct_data->gain_modified_prev_frm[i];
             for (k = 0; k < num_members; k++)
-- 
2.43.0


From eec1d880085579db3b83b2ac6ab5bd1ca9c52c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 93/97] fix: element interaction: the loudness compensation
 gain multiplied a gain given in dB

---
 decoder/impeghd_metadata_preprocessor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 4702241..7025c2f 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -2126,8 +2126,8 @@ static IA_ERRORCODE impeghd_md_proc_modified_gains(ia_interaction_data_struct *p
         1) /* object-based group */
     {
       pstr_interact_cfg->gain_modified_grp[i] =
-          ia_mul_flt(pstr_interact_cfg->gain_modified_grp[i],
-                     (FLOAT32)pow(10.0f, pstr_interact_cfg->loudness_comp_gain / 20.0f));
+          ia_add_flt(pstr_interact_cfg->gain_modified_grp[i],
+                     pstr_interact_cfg->loudness_comp_gain);
     }
     else
     {
-- 
2.43.0


From 46e890565ebf77a41bea41e6c5876363209e7f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 94/97] fix: element interaction: only the first object of a
 scene was found, all others ended in an error

---
 decoder/impeghd_metadata_preprocessor.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/decoder/impeghd_metadata_preprocessor.c b/decoder/impeghd_metadata_preprocessor.c
index 7025c2f..a27c937 100644
--- a/decoder/impeghd_metadata_preprocessor.c
+++ b/decoder/impeghd_metadata_preprocessor.c
@@ -1792,18 +1792,19 @@ static IA_ERRORCODE impeghd_md_proc_modified_gains(ia_interaction_data_struct *p
           }
 
           /* get OAM data for the current group member */
-          j = 0;
+          for (j = 0; j < pstr_interact_cfg->oam_count; j++)
           {
             if (pstr_interact_cfg->list_oam[j] == member_id)
             {
               oam_index = j;
+              break;
             }
-            if (oam_index == -1)
-            {
-              return IA_MPEGH_MAE_EXE_FATAL_INVALID_OAM_INDEX;
-            }
-            pstr_oam_dec_state->gain_descaled[oam_index] = 0;
           }
+          if (oam_index == -1)
+          {
+            return IA_MPEGH_MAE_EXE_FATAL_INVALID_OAM_INDEX;
+          }
+          pstr_oam_dec_state->gain_descaled[oam_index] = 0;
         }
       }
     }
@@ -2144,12 +2145,13 @@ static IA_ERRORCODE impeghd_md_proc_modified_gains(ia_interaction_data_struct *p
         {
           member_id = pstr_mae_asi->group_definition[i].metadata_ele_id[k];
         }
-      }
-      j = 0;
-      {
-        if (pstr_interact_cfg->list_oam[j] == member_id)
+        for (j = 0; j < pstr_interact_cfg->oam_count; j++)
         {
-          oam_index = j;
+          if (pstr_interact_cfg->list_oam[j] == member_id)
+          {
+            oam_index = j;
+            break;
+          }
         }
         if (oam_index == -1)
         {
-- 
2.43.0


From 9f60a6a1ec2ce800557909cbbba028a809fc403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 95/97] fix: element interaction: a group switched on by
 request stayed silent when its default was off

---
 decoder/ia_core_coder_decode_main.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 8aee839..9673863 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -935,6 +935,7 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
                                      FLOAT32 *scratch_mem, WORD32 preset_id)
 {
   WORD32 channel, grp, mbr, cond, ccfl, num_decoded_groups, num_elements = 0;
+  WORD32 on_off_decided = 0;
   IA_ERRORCODE err_code = IA_MPEGH_DEC_NO_ERROR;
 
   FLOAT32 *audio_in_buff[MAX_NUM_CHANNELS], *audio_out_buff[MAX_NUM_CHANNELS];
@@ -960,6 +961,7 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
   if (ptr_mae_asi->ei_present || pstr_dec_data->str_element_interaction.ei_data_present ||
       pstr_dec_data->str_scene_displacement.scene_dspl_data_present)
   {
+    on_off_decided = (ptr_mae_asi->num_group_presets > 0);
     /* Element interaction related processing has to happen here*/
     err_code = impeghd_mdp_dec_ei_process(pstr_asc, pstr_dec_data, num_out_channels,
                                           (WORD8 *)scratch_mem, &preset_id);
@@ -1004,10 +1006,19 @@ IA_ERRORCODE impeghd_mdp_dec_process(ia_audio_specific_config_struct *pstr_asc,
           break;
         }
       }
-      /* groups the preset sets no condition for keep their default state */
-      grp_on_off = (grp_idx == -1)
-                       ? ptr_mae_asi->group_definition[grp].default_on_off
-                       : ptr_mae_asi->group_presets_definition[pr_grp_idx].cond_on_off[grp_idx];
+      if (on_off_decided)
+      {
+        grp_on_off = pstr_dec_data->str_interaction_config.on_off_status_modified[grp];
+      }
+      else if (grp_idx != -1)
+      {
+        grp_on_off = ptr_mae_asi->group_presets_definition[pr_grp_idx].cond_on_off[grp_idx];
+      }
+      else
+      {
+        /* groups the preset sets no condition for keep their default state */
+        grp_on_off = ptr_mae_asi->group_definition[grp].default_on_off;
+      }
       has_conjuct_mbrs = ptr_mae_asi->group_definition[grp].has_conjunct_members;
 
       for (mbr = 0; mbr < num_members; mbr++)
-- 
2.43.0


From fff4d739a00928f7e581ffb592a62fdbea6491f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:26 +0000
Subject: [PATCH 96/97] fix: keep the multichannel coding set-up when the
 configuration in force is repeated

---
 decoder/ia_core_coder_decode_main.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decoder/ia_core_coder_decode_main.c b/decoder/ia_core_coder_decode_main.c
index 9673863..3f26f6f 100644
--- a/decoder/ia_core_coder_decode_main.c
+++ b/decoder/ia_core_coder_decode_main.c
@@ -2570,6 +2570,14 @@ IA_ERRORCODE ia_core_coder_dec_main(VOID *temp_handle, WORD8 *inbuffer, WORD8 *o
                    pac_info.packet_length);
             mpegh_dec_handle->prev_cfg_len = pac_info.packet_length;
           }
+          if (!flush && handle->p_state_mpeghd->frame_counter > 0 &&
+              handle->p_state_mpeghd->ui_init_done == 1 &&
+              !pstr_asc->str_usac_config.str_usac_dec_config.preroll_flag)
+          {
+            /* the configuration in force: the tools keep the state set up for it */
+            mpegh_dec_handle->flush = flush;
+            return IA_MPEGH_DEC_NO_ERROR;
+          }
           pstr_dec_data->dec_bit_buf.bit_pos = bit_pos;
           pstr_dec_data->dec_bit_buf.cnt_bits = cnt_bits;
           pstr_dec_data->dec_bit_buf.ptr_read_next = ptr_read_next;
-- 
2.43.0


From c20ff10288371d8621a5a909843832140c2e2945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:26 +0000
Subject: [PATCH 97/97] fix: set up the binaural renderer only once a
 configuration has been decoded

---
 decoder/impeghd_api.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/impeghd_api.c b/decoder/impeghd_api.c
index 47f7477..53f3461 100644
--- a/decoder/impeghd_api.c
+++ b/decoder/impeghd_api.c
@@ -894,7 +894,8 @@ IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID p
     p_obj_mpegh_dec->mpeghd_config.stream_samp_freq =
         p_obj_mpegh_dec->mpeghd_config.ui_samp_freq;
   }
-  if (p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag)
+  if (p_obj_mpegh_dec->mpeghd_config.ui_binaural_flag &&
+      err_code == IA_MPEGH_DEC_NO_ERROR && p_obj_mpegh_dec->p_state_mpeghd->ui_init_done == 1)
   {
     err_code = impeghd_init_binaural_renderer(p_obj_mpegh_dec);
     if (err_code != IA_MPEGH_DEC_NO_ERROR)
-- 
2.43.0

