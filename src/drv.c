/* Monitored driver for the MPEG-H decoder API.
 *
 *   drv [global opts] inst [inst opts] [inst [inst opts] ...]
 *
 * Each "inst" starts one decoder instance.  Every API call is logged with its
 * result; monitors that can be decided online (buffer canaries, API accounting,
 * allocator balance) are decided here and reported as "ALARM <what>" lines.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <stdint.h>
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <alloca.h>
#include <sys/resource.h>

#define intptr_t mpegh_intptr_t /* the library header redefines it */
#include "impeghd_type_def.h"
#undef intptr_t
#include "impeghd_memory_standards.h"

IA_ERRORCODE ia_mpegh_dec_get_lib_id_strings(pVOID pv_output);
IA_ERRORCODE ia_mpegh_dec_create(pVOID pv_input, pVOID pv_output);
IA_ERRORCODE ia_mpegh_dec_init(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID pv_output);
IA_ERRORCODE ia_mpegh_dec_execute(pVOID p_ia_mpegh_dec_obj, pVOID pv_input, pVOID pv_output);
IA_ERRORCODE ia_mpegh_dec_delete(pVOID pv_output);

#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif

#define MAXI 16
#define GUARD 64

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
void __msan_poison(const volatile void *, size_t);
void __msan_check_mem_is_initialized(const volatile void *, size_t);
#define POISON(p, n) __msan_poison(p, n)
#define CHECK_INIT(p, n) __msan_check_mem_is_initialized(p, n)
#endif
#endif
#ifndef POISON
#define POISON(p, n) (void)0
#define CHECK_INIT(p, n) (void)0
#endif
typedef struct
{
  uint8_t *p;
  size_t n;
} buf_t;

typedef struct inst
{
  int id;
  ia_mpeghd_api_struct *api;
  buf_t in;
  size_t pos;      /* first byte of stream in the input buffer          */
  size_t avail;    /* bytes currently presented (valid) in input buffer  */
  /* options */
  const char *path_in, *path_pcm, *path_log, *path_ext;
  const char *feed; /* "full" "pkt:K" "rnd:SEED" "win:N" */
  int mcalls;      /* limit on API calls */
  int failalloc;   /* fail n-th allocation (1-based), 0 none */
  int heapfill;    /* pattern */
  int stackfill;   /* pattern, -1 off */
  int nodel, raw, noinit, reinit, intail, scrfill;
  uint64_t rng;
  size_t *bnd; int nbnd; /* packet boundaries (end offsets) */
  size_t winend;
  FILE *pcm, *log, *ext;
  /* state */
  int phase; /* 0 create, 1 init, 2 exec, 3 delete, 4 done */
  int ncall, ninit, nexec, stalls;
  int nalloc, nlive, nfree, nbadfree;
  void *live[128]; size_t lsize[128]; void *lbase[128];
  size_t total_out;
  int alarms;
  size_t stop_at;
  char last_err[16];
} inst_t;

static __thread inst_t *cur;
static int g_quiet;

static void alarm_(inst_t *s, const char *what)
{
  s->alarms++;
  fprintf(s->log, "ALARM %s\n", what);
  fflush(s->log);
}

static pVOID my_malloc(UWORD32 size, UWORD32 align)
{
  inst_t *s = cur;
  s->nalloc++;
  if (s->failalloc && s->nalloc == s->failalloc)
  {
    fprintf(s->log, "alloc %d size=%u align=%u FAIL\n", s->nalloc, size, align);
    return NULL;
  }
  fprintf(s->log, "alloc %d size=%u align=%u\n", s->nalloc, size, align);
  size_t n = (size_t)size + align;
  uint8_t *b, *p;
#ifdef HAVE_ASAN
  b = malloc(n ? n : 1);
  p = b;
#else
  b = malloc(n + 2 * GUARD);
  p = b + GUARD;
  memset(b, 0xA7, GUARD);
  memset(p + n, 0xA7, GUARD);
#endif
  if (s->heapfill >= 0)
    memset(p, s->heapfill, n);
  int i;
  for (i = 0; i < 128; i++)
    if (!s->live[i])
    {
      s->live[i] = p; s->lsize[i] = n; s->lbase[i] = b;
      break;
    }
  s->nlive++;
  return p;
}

static void check_guards(inst_t *s)
{
#ifndef HAVE_ASAN
  int i, k;
  for (i = 0; i < 128; i++)
    if (s->live[i])
    {
      uint8_t *p = s->live[i];
      for (k = 0; k < GUARD; k++)
        if (p[-1 - k] != 0xA7 || p[s->lsize[i] + k] != 0xA7)
        {
          alarm_(s, "canary-overwritten");
          memset(p - GUARD, 0xA7, GUARD);
          memset(p + s->lsize[i], 0xA7, GUARD);
          break;
        }
    }
#endif
}

static VOID my_free(pVOID ptr)
{
  inst_t *s = cur;
  int i;
  s->nfree++;
  if (!ptr)
    return;
  for (i = 0; i < 128; i++)
    if (s->live[i] == ptr)
    {
#ifndef HAVE_ASAN
      int k; uint8_t *p = ptr;
      for (k = 0; k < GUARD; k++)
        if (p[-1 - k] != 0xA7 || p[s->lsize[i] + k] != 0xA7)
        {
          alarm_(s, "canary-overwritten");
          break;
        }
#endif
      free(s->lbase[i]);
      s->live[i] = NULL;
      s->nlive--;
      return;
    }
  s->nbadfree++;
  alarm_(s, "free-of-unallocated-pointer");
}

static buf_t slurp(const char *f)
{
  buf_t b = {0, 0};
  FILE *fp = fopen(f, "rb");
  if (!fp) { fprintf(stderr, "drv: cannot open %s\n", f); _exit(97); }
  fseek(fp, 0, SEEK_END);
  long n = ftell(fp);
  rewind(fp);
  b.p = malloc(n ? n : 1); /* exact size so that ASan sees over-reads */
  b.n = fread(b.p, 1, n, fp);
  fclose(fp);
  return b;
}

__attribute__((noinline)) static void scribble(int pat)
{
  volatile uint8_t *a = alloca(768 * 1024);
  memset((void *)a, pat, 768 * 1024);
  __asm__ volatile("" ::"r"(a) : "memory");
}

static uint32_t rnd(inst_t *s)
{
  s->rng ^= s->rng << 13; s->rng ^= s->rng >> 7; s->rng ^= s->rng << 17;
  return (uint32_t)(s->rng >> 16);
}

/* MHAS packet boundaries (only used to decide how much to present per call) */
static uint64_t gb(const uint8_t *p, size_t n, size_t *bit, int k, int *ok)
{
  uint64_t v = 0;
  while (k--)
  {
    if ((*bit >> 3) >= n) { *ok = 0; return 0; }
    v = (v << 1) | ((p[*bit >> 3] >> (7 - (*bit & 7))) & 1);
    (*bit)++;
  }
  return v;
}
static uint64_t esc(const uint8_t *p, size_t n, size_t *bit, int a, int b, int c, int *ok)
{
  uint64_t v = gb(p, n, bit, a, ok);
  if (v == (1ull << a) - 1)
  {
    uint64_t w = gb(p, n, bit, b, ok);
    v += w;
    if (w == (1ull << b) - 1)
      v += gb(p, n, bit, c, ok);
  }
  return v;
}
static void bounds(inst_t *s)
{
  size_t off = 0, cap = 64;
  s->bnd = malloc(cap * sizeof(size_t));
  while (off < s->in.n)
  {
    int ok = 1;
    size_t bit = off * 8;
    esc(s->in.p, s->in.n, &bit, 3, 8, 8, &ok);
    esc(s->in.p, s->in.n, &bit, 2, 8, 32, &ok);
    uint64_t len = esc(s->in.p, s->in.n, &bit, 11, 24, 24, &ok);
    off = ((bit + 7) >> 3) + len;
    if (!ok || off > s->in.n)
      off = s->in.n;
    if ((size_t)s->nbnd == cap)
      s->bnd = realloc(s->bnd, (cap *= 2) * sizeof(size_t));
    s->bnd[s->nbnd++] = off;
  }
}

static size_t window_end(inst_t *s, size_t cap)
{
  size_t lim = s->pos + cap;
  size_t end = s->in.n < lim ? s->in.n : lim;
  if (!s->feed || !strcmp(s->feed, "full"))
    return end;
  if (!strncmp(s->feed, "win:", 4))
  {
    size_t w = s->pos + atoi(s->feed + 4);
    return w < end ? w : end;
  }
  int i, k = 1;
  if (!strncmp(s->feed, "pkt:", 4)) k = atoi(s->feed + 4);
  if (!strncmp(s->feed, "rnd:", 4)) k = 1 + rnd(s) % 7;
  for (i = 0; i < s->nbnd; i++)
    if (s->bnd[i] > s->pos && --k <= 0)
      break;
  size_t w = i < s->nbnd ? s->bnd[i] : s->in.n;
  return w < end ? w : end;
}

static void present(inst_t *s)
{
  ia_output_config *o = &s->api->output_config;
  size_t cap = o->ui_inp_buf_size;
  uint8_t *ib = o->mem_info_table[IA_MEMTYPE_INPUT].mem_ptr;
  size_t e = window_end(s, cap);
  if (s->winend > e) e = s->winend < s->in.n ? s->winend : s->in.n; /* never un-present bytes */
  if (e - s->pos > cap) e = s->pos + cap;
  s->winend = e;
  s->avail = e - s->pos;
  if (s->intail >= 0) memset(ib, s->intail, cap);
  POISON(ib, cap);
  memcpy(ib, s->in.p + s->pos, s->avail);
  s->api->input_config.num_inp_bytes = (WORD32)s->avail;
}

/* scratch and output memory carry nothing from one call to the next: overwrite them */
static void dirty(inst_t *s)
{
  ia_output_config *o = &s->api->output_config;
  for (int i = 0; i < 4; i++)
    if (o->mem_info_table[i].ui_type == MEMTYPE_SCRATCH || o->mem_info_table[i].ui_type == IA_MEMTYPE_OUTPUT)
    {
      if (s->scrfill >= 0) memset(o->mem_info_table[i].mem_ptr, s->scrfill, o->mem_info_table[i].ui_size);
      POISON(o->mem_info_table[i].mem_ptr, o->mem_info_table[i].ui_size);
    }
}

static void log_cfg(inst_t *s)
{
  ia_output_config *o = &s->api->output_config;
  int i;
  fprintf(s->log, "cfg fs=%d ch=%d pcm=%d nspk=%d layout=%d cicp=%d bin=%d", o->i_samp_freq,
          o->i_num_chan, o->i_pcm_wd_sz, o->num_speakers, o->spk_layout, o->cicp_index,
          o->is_binaural_rendering);
  if (o->num_speakers >= 0 && o->num_speakers <= 24)
    for (i = 0; i < o->num_speakers; i++)
      fprintf(s->log, " %d/%d/%d", o->azimuth[i], o->elevation[i], o->is_lfe[i]);
  fprintf(s->log, "\n");
}

static uint32_t crc(uint32_t h, const uint8_t *p, size_t n)
{
  while (n--) h = (h ^ *p++) * 16777619u;
  return h;
}

static void do_ext(inst_t *s)
{
  ia_input_config *in = &s->api->input_config;
  ia_output_config *o = &s->api->output_config;
  if (!in->extrn_rend_flag) return;
  fprintf(s->log, "ext oam=%d:%d hoa=%d:%d ch=%d:%d pcm=%d bits=%d hoff=%d ooff=%d", o->oam_data_present,
          o->oam_md_payload_length, o->hoa_data_present, o->hoa_md_payload_length, o->ch_data_present,
          o->ch_md_payload_length, o->pcm_payload_length, o->pcm_bit_depth, o->hoa_sample_offset,
          o->oam_sample_offset);
  if (o->oam_md_payload_length < 0 || o->oam_md_payload_length > 768 || o->hoa_md_payload_length < 0 ||
      o->hoa_md_payload_length > 768 || o->ch_md_payload_length < 0 || o->ch_md_payload_length > 768 ||
      o->pcm_payload_length < 0 || o->pcm_payload_length > 1024 * 32 * 4)
  {
    fprintf(s->log, "\n");
    alarm_(s, "extren-length-exceeds-buffer");
    return;
  }
  if (o->oam_data_present) { int i; fprintf(s->log, " oam:"); for (i = 0; i < o->oam_md_payload_length; i++) fprintf(s->log, "%02x", in->ptr_ext_ren_oam_data_buf[i]); }
  if (o->hoa_data_present) { int i; fprintf(s->log, " hoa:"); for (i = 0; i < o->hoa_md_payload_length; i++) fprintf(s->log, "%02x", in->ptr_ext_ren_hoa_data_buf[i]); }
  if (o->ch_data_present) { int i; fprintf(s->log, " ch:"); for (i = 0; i < o->ch_md_payload_length; i++) fprintf(s->log, "%02x", in->ptr_ext_ren_ch_data_buf[i]); }
  fprintf(s->log, " pcmcrc=%08x\n", crc(2166136261u, in->ptr_ext_ren_pcm_buf, o->pcm_payload_length));
  if (s->ext) fwrite(in->ptr_ext_ren_pcm_buf, 1, o->pcm_payload_length, s->ext);
}

static void fin(inst_t *s)
{
  ia_output_config *o = &s->api->output_config;
  check_guards(s);
  int nlive = s->nlive, nf = s->nfree;
  cur = s;
  IA_ERRORCODE e = 0;
  if (!s->nodel)
    e = ia_mpegh_dec_delete(o);
  fprintf(s->log, "delete err=%x live_before=%d live_after=%d frees=%d mallocs=%d\n", (unsigned)e, nlive, s->nlive,
          s->nfree - nf, s->nalloc);
  if (!s->nodel && s->nlive) alarm_(s, "leak-after-delete");
  fprintf(s->log, "end calls=%d init=%d exec=%d out=%zu pos=%zu size=%zu\n", s->ncall, s->ninit, s->nexec,
          s->total_out, s->pos, s->in.n);
  fflush(s->log);
  if (s->pcm) fclose(s->pcm);
  if (s->ext) fclose(s->ext);
  s->phase = 4;
}

/* one API call; returns 0 when finished */
static int step(inst_t *s)
{
  ia_input_config *in = &s->api->input_config;
  ia_output_config *o = &s->api->output_config;
  IA_ERRORCODE e;
  cur = s;
  if (s->phase == 4) return 0;
  if (s->stackfill >= 0) scribble(s->stackfill);
  if (s->phase == 0)
  {
    o->malloc_mpegh = my_malloc;
    o->free_mpegh = my_free;
    e = ia_mpegh_dec_get_lib_id_strings(o);
    e = ia_mpegh_dec_create(in, o);
    fprintf(s->log, "create err=%x mallocs=%d count=%u inbuf=%u outbuf=%u name=%s ver=%s\n", (unsigned)e, s->nalloc,
            o->malloc_count, o->ui_inp_buf_size, o->mem_info_table[IA_MEMTYPE_OUTPUT].ui_size,
            o->p_lib_name ? (char *)o->p_lib_name : "(null)", o->p_version_num ? (char *)o->p_version_num : "(null)");
    if (e) { fin(s); return 0; }
    s->phase = s->noinit ? 2 : 1;
    return 1;
  }
  if (s->pos >= s->in.n || s->ncall >= s->mcalls || s->pos >= s->stop_at)
  {
    fin(s);
    return 0;
  }
  present(s);
  dirty(s);
  int outcap = (int)o->mem_info_table[IA_MEMTYPE_OUTPUT].ui_size;
  size_t before = s->pos;
  s->ncall++;
  if (s->phase == 1)
  {
    o->num_out_bytes = 0;
    e = ia_mpegh_dec_init(o->pv_ia_process_api_obj, in, o);
    fprintf(s->log, "init err=%x in=%zu used=%d done=%d out=%d\n", (unsigned)e, s->avail, o->i_bytes_consumed,
            o->ui_init_done, o->num_out_bytes);
    s->ninit++;
    if (e == (IA_ERRORCODE)0) {}
    if (o->ui_init_done) { s->phase = 2; log_cfg(s); }
  }
  else
  {
    o->num_out_bytes = 0;
    e = ia_mpegh_dec_execute(o->pv_ia_process_api_obj, in, o);
    fprintf(s->log, "exec err=%x in=%zu used=%d done=%d out=%d ch=%d fs=%d pcm=%d\n", (unsigned)e, s->avail,
            o->i_bytes_consumed, o->ui_init_done, o->num_out_bytes, o->i_num_chan, o->i_samp_freq, o->i_pcm_wd_sz);
    s->nexec++;
    if (o->num_out_bytes < 0 || o->num_out_bytes > outcap)
      alarm_(s, "num_out_bytes-exceeds-output-buffer");
    else if (o->num_out_bytes > 0)
    {
      CHECK_INIT(o->mem_info_table[IA_MEMTYPE_OUTPUT].mem_ptr, o->num_out_bytes);
      if (s->pcm) fwrite(o->mem_info_table[IA_MEMTYPE_OUTPUT].mem_ptr, 1, o->num_out_bytes, s->pcm);
      s->total_out += o->num_out_bytes;
    }
    do_ext(s);
    if (s->noinit && s->nexec >= s->noinit) s->phase = 1;
  }
  check_guards(s);
  int used = o->i_bytes_consumed;
  if (used < 0) { alarm_(s, "negative-bytes-consumed"); used = 0; }
  if ((size_t)used > s->avail) { alarm_(s, "consumed-more-than-presented"); used = (int)s->avail; }
  s->pos += used;
  if (s->pos > s->winend) s->winend = s->pos;
  if (s->pos == before && o->num_out_bytes <= 0)
  {
    /* no input consumed and nothing produced: present more, then give up */
    s->stalls++;
    s->winend = s->pos + o->ui_inp_buf_size;
    if (s->stalls > 64) { alarm_(s, "no-progress"); fin(s); return 0; }
  }
  else
    s->stalls = 0;
  if (getenv("DRV_FLUSH")) fflush(s->log);
  return 1;
}

static void *thr(void *a)
{
  while (step((inst_t *)a)) ;
  return NULL;
}

static const char *opt(const char *a, const char *k)
{
  size_t n = strlen(k);
  return (!strncmp(a, k, n) && a[n] == '=') ? a + n + 1 : NULL;
}

#define IOPT(k, lhs) else if ((v = opt(argv[i], k))) lhs = atoi(v)

int main(int argc, char **argv)
{
  static inst_t I[MAXI];
  int n = 0, i, threads = 0, tlimit = 0;
  uint64_t ilseed = 0;
  const char *v;
  for (i = 1; i < argc; i++)
  {
    if (!strcmp(argv[i], "inst"))
    {
      inst_t *s = &I[n];
      memset(s, 0, sizeof *s);
      s->id = n++;
      s->api = calloc(1, sizeof *s->api);
      s->mcalls = 2000000; s->heapfill = -1; s->stackfill = -1; s->intail = -1; s->scrfill = -1; s->rng = 88172645463325252ull + s->id;
      s->stop_at = (size_t)-1;
      ia_input_config *c = &s->api->input_config;
      c->ui_mhas_flag = 1;
      c->ui_pcm_wd_sz = 16;
      c->ui_cicp_layout_idx = 0;
      c->ui_effect = 0;
      c->i_preset_id = -1;
      s->log = stdout;
      continue;
    }
    if ((v = opt(argv[i], "threads"))) { threads = atoi(v); continue; }
    if ((v = opt(argv[i], "cpulimit"))) { struct rlimit rl = {atoi(v), atoi(v) + 10}; setrlimit(RLIMIT_CPU, &rl); continue; }
    if ((v = opt(argv[i], "tlimit"))) { tlimit = atoi(v); continue; }
    if ((v = opt(argv[i], "ilseed"))) { ilseed = strtoull(v, 0, 0); continue; }
    if (!n) { fprintf(stderr, "drv: bad arg %s\n", argv[i]); return 96; }
    inst_t *s = &I[n - 1];
    ia_input_config *c = &s->api->input_config;
    buf_t b;
    if ((v = opt(argv[i], "in"))) s->path_in = v;
    else if ((v = opt(argv[i], "pcm"))) s->pcm = fopen(v, "wb");
    else if ((v = opt(argv[i], "ext"))) s->ext = fopen(v, "wb");
    else if ((v = opt(argv[i], "log"))) s->log = fopen(v, "w");
    else if ((v = opt(argv[i], "feed"))) { s->feed = v; if (!strncmp(v, "rnd:", 4)) s->rng ^= (strtoull(v + 4, 0, 0) + 1) * 0x9E3779B97F4A7C15ull; }
    IOPT("pcmsz", c->ui_pcm_wd_sz);
    IOPT("effect", c->ui_effect);
    else if ((v = opt(argv[i], "tl"))) { c->ui_target_loudness[0] = 1; c->ui_target_loudness[1] = -(atoi(v) << 2); }
    else if ((v = opt(argv[i], "tlraw"))) { c->ui_target_loudness[0] = 1; c->ui_target_loudness[1] = atoi(v); }
    IOPT("cicp", c->ui_cicp_layout_idx);
    else if ((v = opt(argv[i], "preset"))) c->i_preset_id = (WORD8)atoi(v);
    else if ((v = opt(argv[i], "ei"))) { b = slurp(v); c->ptr_ei_buf = b.p; c->ei_info_size = b.n; c->ei_info_flag = 1; }
    else if ((v = opt(argv[i], "lsi"))) { b = slurp(v); c->ptr_ls_buf = b.p; c->lsi_info_size = b.n; c->lsi_info_flag = 1; }
    else if ((v = opt(argv[i], "sdi"))) { b = slurp(v); c->ptr_sd_buf = b.p; c->sd_info_size = b.n; c->sd_info_flag = 1; }
    else if ((v = opt(argv[i], "brir"))) { b = slurp(v); c->ptr_brir_buf = b.p; c->binaural_data_len = b.n; c->binaural_flag = 1; }
    else if ((v = opt(argv[i], "maeg"))) { b = slurp(v); c->ptr_maeg_buf = b.p; c->maeg_len = b.n; c->maeg_flag = 1; }
    else if ((v = opt(argv[i], "maes"))) { b = slurp(v); c->ptr_maes_buf = b.p; c->maes_len = b.n; c->maes_flag = 1; }
    else if ((v = opt(argv[i], "maep"))) { b = slurp(v); c->ptr_maep_buf = b.p; c->maep_len = b.n; c->maep_flag = 1; }
    else if ((v = opt(argv[i], "maei"))) { b = slurp(v); c->ptr_maei_buf = b.p; c->maei_len = b.n; c->maei_flag = 1; }
    else if ((v = opt(argv[i], "outfs"))) { c->enable_resamp = 1; c->out_samp_freq = atoi(v); }
    else if ((v = opt(argv[i], "extren")))
    {
      c->extrn_rend_flag = atoi(v);
      c->ptr_ext_ren_ch_data_buf = calloc(768, 1);
      c->ptr_ext_ren_oam_data_buf = calloc(768, 1);
      c->ptr_ext_ren_hoa_data_buf = calloc(768, 1);
      c->ptr_ext_ren_pcm_buf = calloc(1024 * 32, 4);
    }
    IOPT("raw", c->ui_raw_flag);
    IOPT("mhas", c->ui_mhas_flag);
    IOPT("mcalls", s->mcalls);
    IOPT("failalloc", s->failalloc);
    IOPT("heapfill", s->heapfill);
    IOPT("stackfill", s->stackfill);
    IOPT("intail", s->intail);
    IOPT("scrfill", s->scrfill);
    IOPT("nodel", s->nodel);
    IOPT("noinit", s->noinit);
    else if ((v = opt(argv[i], "stopat"))) s->stop_at = strtoull(v, 0, 0);
    else { fprintf(stderr, "drv: bad arg %s\n", argv[i]); return 96; }
  }
  if (tlimit) alarm(tlimit);
  for (i = 0; i < n; i++)
  {
    if (I[i].path_in) I[i].in = slurp(I[i].path_in);
    bounds(&I[i]);
  }
  if (threads)
  {
    pthread_t t[MAXI];
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 16 << 20);
    for (i = 0; i < n; i++) pthread_create(&t[i], &at, thr, &I[i]);
    for (i = 0; i < n; i++) pthread_join(t[i], NULL);
  }
  else if (n == 1)
    thr(&I[0]);
  else
  {
    uint64_t r = ilseed * 2654435761u + 12345;
    int live = n;
    while (live > 0)
    {
      r ^= r << 13; r ^= r >> 7; r ^= r << 17;
      int k = (int)((r >> 20) % n), burst = 1 + (int)((r >> 40) % 3);
      while (burst--)
        if (I[k].phase != 4) step(&I[k]);
      for (live = 0, i = 0; i < n; i++) live += I[i].phase != 4;
    }
  }
  int al = 0;
  for (i = 0; i < n; i++) { al += I[i].alarms; fflush(I[i].log); }
  /* release caller-owned memory so that LeakSanitizer judges only the library */
  for (i = 0; i < n; i++)
  {
    ia_input_config *c = &I[i].api->input_config;
    free(c->ptr_ei_buf); free(c->ptr_ls_buf); free(c->ptr_sd_buf); free(c->ptr_brir_buf);
    free(c->ptr_maeg_buf); free(c->ptr_maes_buf); free(c->ptr_maep_buf); free(c->ptr_maei_buf);
    free(c->ptr_ext_ren_ch_data_buf); free(c->ptr_ext_ren_oam_data_buf); free(c->ptr_ext_ren_hoa_data_buf); free(c->ptr_ext_ren_pcm_buf);
    free(I[i].in.p); free(I[i].bnd); free(I[i].api);
    if (I[i].log != stdout) fclose(I[i].log);
  }
  return al ? 3 : 0;
}
