/* Hostile-input harness: one "case" file = option bytes + side information + stream.
 * Built with -fsanitize=fuzzer it is a libFuzzer target, with -DREPLAY a plain program that
 * replays case files given as arguments (one instance each).  Sanitizers are the oracle for memory
 * safety; progress and byte accounting are checked here.
 *
 * layout: b0 flags (1 EI 2 LSI 4 SDI 8 BRIR 16 extren 32 resamp 64 MAE 128 target loudness)
 *         b1 target layout  b2 effect  b3 target loudness  b4 preset  b5 pcm word (0:16 1:24 2:32)
 *         b6 feed (0 whole buffer, n: 16*n byte windows)  b7 bit0 no-MHAS bit1 raw; bits2-4 out rate
 *         then for EI,LSI,SDI,BRIR (each if flagged) u16 length + bytes; MAE: 4 x (u16 + bytes); then stream
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#define intptr_t mpegh_intptr_t
#include "impeghd_type_def.h"
#undef intptr_t
#include "impeghd_memory_standards.h"
IA_ERRORCODE ia_mpegh_dec_get_lib_id_strings(pVOID);
IA_ERRORCODE ia_mpegh_dec_create(pVOID, pVOID);
IA_ERRORCODE ia_mpegh_dec_init(pVOID, pVOID, pVOID);
IA_ERRORCODE ia_mpegh_dec_execute(pVOID, pVOID, pVOID);
IA_ERRORCODE ia_mpegh_dec_delete(pVOID);

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
void __msan_poison(const volatile void *, size_t);
void __msan_check_mem_is_initialized(const volatile void *, size_t);
#define POISON(p, n) __msan_poison(p, n)
#define CHECK_INIT(p, n) __msan_check_mem_is_initialized(p, n)
#endif
#endif
#ifndef POISON
#define POISON(p, n) (void)0
#define CHECK_INIT(p, n) (void)0
#endif
#ifndef MAXFRAMES
#define MAXFRAMES 64
#endif
static int g_maxframes = MAXFRAMES;
static int g_verbose;
static unsigned long s_calls, s_frames, s_errs, s_init;
static void bad(const char *w)
{
  fprintf(stderr, "HARNESS-ALARM %s\n", w);
  fflush(stderr);
  abort();
}
static struct { void *p; size_t n; int used; } blk[16];
static pVOID my_malloc(UWORD32 size, UWORD32 align)
{
  size_t n = (size_t)size + align;
  for (int i = 0; i < 16; i++)
    if (!blk[i].used && blk[i].p && blk[i].n == n) { blk[i].used = 1; POISON(blk[i].p, n); return blk[i].p; }
  for (int i = 0; i < 16; i++)
    if (!blk[i].used) { free(blk[i].p); blk[i].p = malloc(n); blk[i].n = n; blk[i].used = 1; return blk[i].p; }
  bad("too-many-allocations");
  return 0;
}
static VOID my_free(pVOID p)
{
  if (!p) return;
  for (int i = 0; i < 16; i++)
    if (blk[i].used && blk[i].p == p) { blk[i].used = 0; return; }
  bad("free-of-unallocated-pointer");
}
static const uint8_t *D; static size_t N;
static int u8(void) { if (!N) return 0; N--; return *D++; }
static uint8_t *sec(UWORD32 *len)
{
  size_t n = u8() << 8; n |= u8();
  if (n > N) n = N;
  uint8_t *p = malloc(n ? n : 1);
  memcpy(p, D, n); D += n; N -= n; *len = n;
  return p;
}
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
  if (size < 9) return 0;
  D = data; N = size;
  ia_mpeghd_api_struct *api = calloc(1, sizeof *api);
  ia_input_config *c = &api->input_config;
  ia_output_config *o = &api->output_config;
  int fl = u8();
  c->ui_mhas_flag = 1;
  c->ui_cicp_layout_idx = u8() % 21;
  c->ui_effect = u8() % 9;
  int tl = u8();
  if (fl & 128) { c->ui_target_loudness[0] = 1; c->ui_target_loudness[1] = -(tl << 2) ; }
  c->i_preset_id = (WORD8)(u8() % 33 - 1);
  c->ui_pcm_wd_sz = 16 + 8 * (u8() % 3);
  int feed = u8();
  int m = u8();
  if (m & 1) c->ui_mhas_flag = 0;
  if (m & 2) c->ui_raw_flag = 1;
  if (fl & 32) { static const int fs[8] = {48000, 44100, 32000, 24000, 22050, 16000, 96000, 8000}; c->enable_resamp = 1; c->out_samp_freq = fs[(m >> 2) & 7]; }
  UWORD32 L;
  if (fl & 1) { c->ptr_ei_buf = sec(&L); c->ei_info_size = L; c->ei_info_flag = 1; }
  if (fl & 2) { c->ptr_ls_buf = sec(&L); c->lsi_info_size = L; c->lsi_info_flag = 1; }
  if (fl & 4) { c->ptr_sd_buf = sec(&L); c->sd_info_size = L; c->sd_info_flag = 1; }
  if (fl & 8) { c->ptr_brir_buf = sec(&L); c->binaural_data_len = L; c->binaural_flag = 1; }
  if (fl & 64)
  {
    c->ptr_maeg_buf = sec(&L); c->maeg_len = L; c->maeg_flag = L > 0;
    c->ptr_maes_buf = sec(&L); c->maes_len = L; c->maes_flag = L > 0;
    c->ptr_maep_buf = sec(&L); c->maep_len = L; c->maep_flag = L > 0;
    c->ptr_maei_buf = sec(&L); c->maei_len = L; c->maei_flag = L > 0;
  }
  if (fl & 16)
  {
    c->extrn_rend_flag = 1;
    c->ptr_ext_ren_ch_data_buf = calloc(768, 1);
    c->ptr_ext_ren_oam_data_buf = calloc(768, 1);
    c->ptr_ext_ren_hoa_data_buf = calloc(768, 1);
    c->ptr_ext_ren_pcm_buf = calloc(1024 * 32, 4);
  }
  o->malloc_mpegh = my_malloc; o->free_mpegh = my_free;
  ia_mpegh_dec_get_lib_id_strings(o);
  if (ia_mpegh_dec_create(c, o) == 0)
  {
    uint8_t *ib = o->mem_info_table[IA_MEMTYPE_INPUT].mem_ptr;
    size_t cap = o->ui_inp_buf_size;
    size_t pos = 0;
    int done = 0, frames = 0, stall = 0, errs = 0;
    size_t win = feed ? 16 * (size_t)feed : cap;
    while (pos < N && frames < g_maxframes && errs < 300)
    {
      size_t w = N - pos; if (w > cap) w = cap; if (w > win) w = win;
      if (stall) { w = N - pos; if (w > cap) w = cap; }
      memset(ib, 0, cap);
      POISON(ib, cap);
      for (int i = 0; i < 4; i++)
        if (o->mem_info_table[i].ui_type == 1 || o->mem_info_table[i].ui_type == IA_MEMTYPE_OUTPUT)
          POISON(o->mem_info_table[i].mem_ptr, o->mem_info_table[i].ui_size);
      memcpy(ib, D + pos, w);
      c->num_inp_bytes = (WORD32)w;
      o->num_out_bytes = 0;
      IA_ERRORCODE e;
      if (!done)
      {
        e = ia_mpegh_dec_init(o->pv_ia_process_api_obj, c, o);
        if (o->ui_init_done) { done = 1; s_init++; }
        errs++;
      }
      else
      {
        e = ia_mpegh_dec_execute(o->pv_ia_process_api_obj, c, o);
        if (e) errs++;
      }
      if (g_verbose) fprintf(stderr, "%s err=%x used=%d of %zu out=%d\n", done ? "exec" : "init", (unsigned)e, o->i_bytes_consumed, w, o->num_out_bytes);
      s_calls++; if (e) s_errs++;
      if (o->num_out_bytes < 0 || (UWORD32)o->num_out_bytes > o->mem_info_table[IA_MEMTYPE_OUTPUT].ui_size)
        bad("num_out_bytes-exceeds-output-buffer");
      if (o->num_out_bytes > 0)
      {
        frames++; s_frames++;
        CHECK_INIT(o->mem_info_table[IA_MEMTYPE_OUTPUT].mem_ptr, o->num_out_bytes);
        volatile uint8_t t = ((uint8_t *)o->mem_info_table[IA_MEMTYPE_OUTPUT].mem_ptr)[o->num_out_bytes - 1]; (void)t;
      }
      int used = o->i_bytes_consumed;
      if (used < 0) bad("negative-bytes-consumed");
      if ((size_t)used > w) bad("consumed-more-than-presented");
      if (used == 0 && o->num_out_bytes <= 0) { if (++stall > 8) bad("no-progress"); }
      else stall = 0;
      pos += used;
    }
    ia_mpegh_dec_delete(o);
  }
  for (int i = 0; i < 16; i++) blk[i].used = 0;
  free(c->ptr_ei_buf); free(c->ptr_ls_buf); free(c->ptr_sd_buf); free(c->ptr_brir_buf);
  free(c->ptr_maeg_buf); free(c->ptr_maes_buf); free(c->ptr_maep_buf); free(c->ptr_maei_buf);
  free(c->ptr_ext_ren_ch_data_buf); free(c->ptr_ext_ren_oam_data_buf); free(c->ptr_ext_ren_hoa_data_buf); free(c->ptr_ext_ren_pcm_buf);
  free(api);
  return 0;
}

#ifdef REPLAY
/* replay [-v] files...          run case files
 * replay -pack PACK CUR LO HI   run cases LO..HI-1 of a pack (u32 count, then u32 length + bytes each)
 * replay -mut PACK CUR SEED N   run N cases derived from the pack by a seeded mutator
 * The case being run is in CUR (memory mapped, so that it survives any kind of crash); STATS at the end. */
#include <sys/mman.h>
#include <fcntl.h>
static uint64_t rs;
static uint32_t rnd(uint32_t n)
{
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
  return n ? (uint32_t)((rs >> 11) % n) : 0;
}
static uint8_t *PK; static uint32_t NC; static uint32_t *off_, *len_;
static uint8_t *cur;
#define CURMAX (1 << 20)
static void pack_open(const char *f, const char *c)
{
  FILE *h = fopen(f, "rb");
  if (!h) { fprintf(stderr, "cannot open %s\n", f); exit(97); }
  fseek(h, 0, SEEK_END); long n = ftell(h); rewind(h);
  PK = malloc(n); n = fread(PK, 1, n, h); fclose(h);
  memcpy(&NC, PK, 4);
  off_ = malloc(4 * NC); len_ = malloc(4 * NC);
  size_t p = 4;
  for (uint32_t i = 0; i < NC; i++) { memcpy(&len_[i], PK + p, 4); off_[i] = p + 4; p += 4 + len_[i]; }
  int fd = open(c, O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, CURMAX + 8)) { fprintf(stderr, "cannot open %s\n", c); exit(97); }
  cur = mmap(0, CURMAX + 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
}
static void go(const uint8_t *d, uint32_t n, uint32_t idx)
{
  if (n > CURMAX) n = CURMAX;
  memcpy(cur + 8, d, n); memcpy(cur, &n, 4); memcpy(cur + 4, &idx, 4);
  uint8_t *b = malloc(n ? n : 1);
  memcpy(b, d, n);
  LLVMFuzzerTestOneInput(b, n);
  free(b);
}
static uint32_t mutate(uint8_t *b, uint32_t cap)
{
  uint32_t i = rnd(NC), n = len_[i];
  if (n > cap) n = cap;
  memcpy(b, PK + off_[i], n);
  int k = 1 + rnd(4);
  if (rnd(8) == 0) k += rnd(30);
  while (k--)
  {
    uint32_t p = n ? rnd(n) : 0, l;
    if (n && rnd(3)) p = rnd(rnd(2) ? (n < 64 ? n : 64) : (n < 400 ? n : 400)); /* headers matter most */
    switch (rnd(9))
    {
    case 0: case 1: case 2: if (n) b[p] ^= 1 << rnd(8); break;
    case 3: if (n) b[p] = rnd(256); break;
    case 4: if (n) { static const uint8_t v[6] = {0, 255, 127, 128, 1, 254}; b[p] = v[rnd(6)]; } break;
    case 5: /* overwrite with a piece of another case */
    {
      uint32_t j = rnd(NC);
      if (!len_[j]) break;
      uint32_t q = rnd(len_[j]); l = 1 + rnd(64);
      if (l > len_[j] - q) l = len_[j] - q;
      if (l > n - p) l = n - p;
      memcpy(b + p, PK + off_[j] + q, l);
      break;
    }
    case 6: /* insert */
    {
      uint32_t j = rnd(NC);
      if (!len_[j]) break;
      uint32_t q = rnd(len_[j]); l = 1 + rnd(200);
      if (l > len_[j] - q) l = len_[j] - q;
      if (l > cap - n) break;
      memmove(b + p + l, b + p, n - p); memcpy(b + p, PK + off_[j] + q, l); n += l;
      break;
    }
    case 7: l = 1 + rnd(24); if (p + l < n) { memmove(b + p, b + p + l, n - p - l); n -= l; } break;
    case 8: if (rnd(4) == 0) n = p; else if (n > 8) b[rnd(8)] = rnd(256); break;
    }
  }
  return n;
}
int main(int argc, char **argv)
{
  int i = 1;
  if (argc > 5 && !strcmp(argv[1], "-pack"))
  {
    pack_open(argv[2], argv[3]);
    uint32_t lo = atoi(argv[4]), hi = atoi(argv[5]), c;
    for (c = lo; c < hi && c < NC; c++) go(PK + off_[c], len_[c], c);
    fprintf(stderr, "STATS cases=%u calls=%lu frames=%lu errors=%lu inited=%lu\n", c - lo, s_calls, s_frames, s_errs, s_init);
    return 0;
  }
  if (argc > 5 && !strcmp(argv[1], "-mut"))
  {
    pack_open(argv[2], argv[3]);
    uint64_t seed = strtoull(argv[4], 0, 10); uint32_t n = atoi(argv[5]), from = argc > 6 ? atoi(argv[6]) : 0;
    uint8_t *b = malloc(8192);
    for (uint32_t c = from; c < n; c++)
    {
      rs = (seed + 1) * 0x9E3779B97F4A7C15ull ^ (uint64_t)(c + 1) * 0xD1B54A32D192ED03ull;
      rnd(2); rnd(2); rnd(2);
      uint32_t l = mutate(b, 8192);
      go(b, l, c);
    }
    fprintf(stderr, "STATS cases=%u calls=%lu frames=%lu errors=%lu inited=%lu\n", n - from, s_calls, s_frames, s_errs, s_init);
    return 0;
  }
  if (argc > 1 && !strcmp(argv[1], "-v")) { g_verbose = 1; i++; }
  for (; i < argc; i++)
  {
    FILE *f = fopen(argv[i], "rb");
    if (!f) { fprintf(stderr, "cannot open %s\n", argv[i]); return 97; }
    fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f);
    uint8_t *b = malloc(n ? n : 1); n = fread(b, 1, n, f); fclose(f);
    LLVMFuzzerTestOneInput(b, n);
    free(b);
    fprintf(stderr, "CASE-DONE %s\n", argv[i]);
  }
  return 0;
}
#endif
