/* Script interpreter: executes API calls of libmdbx given one per line and
 * logs every call with arguments and results as one JSON object per line.
 * Uses the public API only.   usage: drv SCRIPT TRACE DBDIR */
#define _GNU_SOURCE 1
#include "mdbx.h"
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifdef IOSIM
#include "iosim.h"
#include "pages.h"
static int watching;
#endif
#define NT 24
#define ND 24
#define NC 48
#define NW 12
static MDBX_env *env;
static MDBX_txn *T[NT];
static pthread_t To[NT]; /* thread that made the handle */
static int Tp[NT]; /* parent slot of a nested transaction, -1 */
static void kids_gone(int t) { for (int i = 0; i < NT; i++) if (i != t && T[i] && Tp[i] == t) { kids_gone(i); T[i] = 0; } }
static struct dbh { MDBX_dbi dbi; unsigned flags; int ks, vs, open; } D[ND];
static MDBX_cursor *C[NC];
static unsigned Cs[NC], Cmod; /* when the position of a cursor was last confirmed, count of changes */
static unsigned Lost[NC], Wmod; /* when navigation of a cursor has failed, count of writes */
static int Cd[NC]; /* handle slot of a cursor, to know its encoding */
static MDBX_cache_entry_t CE[64];
static char dbdir[512], dbpath[600];
static unsigned ps = 4096;
static FILE *trace;
static int trace_fd = -1;
static unsigned op_timeout = 30;

/* ------------------------------------------------------------------ encoding */
static unsigned hsh(unsigned x) { x ^= x >> 7; x *= 0x9E3779B1u; x ^= x >> 13; x *= 0x85EBCA6Bu; return x ^ (x >> 16); }
#define M8 UINT64_C(0x0003000500070009)
#define M4 UINT32_C(0x00A10305)
#define BUFSZ (1 << 20)
static __thread unsigned char *kb, *vb, *xb;
static void bufs(void) { if (!kb) { kb = malloc(BUFSZ) ; vb = malloc(BUFSZ); xb = malloc(BUFSZ); } }

static size_t keymax(unsigned flags) { int r = mdbx_env_get_maxkeysize_ex(env, (MDBX_db_flags_t)flags); return r > 0 ? (size_t)r : 64; }
static void rev(unsigned char *p, size_t n) { for (size_t i = 0; i < n / 2; i++) { unsigned char t = p[i]; p[i] = p[n - 1 - i]; p[n - 1 - i] = t; } }

/* order preserving encoding of rank r by style */
static size_t enc_str(unsigned char *b, int style, unsigned r, size_t cap) {
  size_t n;
  switch (style) {
  default:
  case 0: return (size_t)sprintf((char *)b, "%04u", r);
  case 1:
    n = (size_t)sprintf((char *)b, "%04u", r);
    { size_t t = hsh(r) % 25; if (n + t > cap) t = cap - n; memset(b + n, 'a' + r % 26, t); n += t; }
    return n;
  case 2:
    n = cap < 40 ? cap / 2 : 20; if (n + 4 > cap) n = cap - 4;
    memset(b, 'P', n); n += (size_t)sprintf((char *)b + n, "%04u", r);
    { size_t t = hsh(r * 3 + 1) % 9; if (n + t > cap) t = cap - n; memset(b + n, 'z' - r % 26, t); n += t; }
    return n;
  case 3:
    if (r == 1) return 0;
    { unsigned q = (r - 1) / 4, m = (r - 1) % 4; n = (size_t)sprintf((char *)b, "%03u", q);
      if (m == 1) b[n++] = 0; else if (m == 2) { b[n++] = 0; b[n++] = 0; } else if (m == 3) b[n++] = 0xFF; }
    return n;
  case 4: /* as long as possible */
    n = (size_t)sprintf((char *)b, "%04u", r);
    { size_t t = cap - n - hsh(r) % 3; memset(b + n, 'A' + r % 26, t); n += t; }
    return n;
  case 5: /* binary, high bytes matter (unsigned compare) */
    b[0] = (unsigned char)(r >> 3 << 1); b[1] = (unsigned char)(r << 5); if ((r >> 3 << 1) > 255) { b[0] = 255; b[1] = 255; b[2] = (unsigned char)(r >> 8); b[3] = (unsigned char)r; return 4; }
    b[2] = 0x80; return 2 + (r & 1);
  case 6: case 7: case 8: case 9: /* binary around the sign bit, at various alignments */
    n = style == 6 ? 0 : style == 7 ? 2 : style == 8 ? 4 : 7;
    memset(b, 0xC3, n); b[n++] = (unsigned char)(0x7E + (r >> 2)); b[n++] = (unsigned char)((r & 3) << 6);
    { size_t t = hsh(r * 5 + 2) % 4; if (n + t > cap) t = cap - n; memset(b + n, 0x9A, t); n += t; }
    return n;
  }
}
/* integers crossing the sign bit */
#define B8 (UINT64_C(0x8000000000000000) - 4 * M8)
#define B4 (UINT32_C(0x80000000) - M4)
static uint64_t int8(int style, unsigned r) { return (style & 2 ? B8 : 0) + r * M8; }
static uint32_t int4(int style, unsigned r) { return (style & 2 ? B4 : 0) + r * (style & 2 ? M4 / 4 : M4); }
static size_t enc_key(unsigned char *b, const struct dbh *h, unsigned r) {
  if (h->flags & MDBX_INTEGERKEY) {
    if (h->ks & 1) { uint32_t x = int4(h->ks, r); memcpy(b, &x, 4); return 4; }
    uint64_t x = int8(h->ks, r); memcpy(b, &x, 8); return 8;
  }
  size_t n = enc_str(b, h->ks, r, keymax(h->flags));
  if (h->flags & MDBX_REVERSEKEY) rev(b, n);
  return n;
}
static size_t dup_cap(const struct dbh *h) { int r = mdbx_env_get_maxvalsize_ex(env, (MDBX_db_flags_t)h->flags); return r > 0 ? (size_t)r : 64; }
static size_t enc_val(unsigned char *b, const struct dbh *h, unsigned v) {
  if (h->flags & MDBX_DUPSORT) {
    if (h->flags & MDBX_INTEGERDUP) {
      if (h->vs & 1) { uint32_t x = int4(h->vs, v); memcpy(b, &x, 4); return 4; }
      uint64_t x = int8(h->vs, v); memcpy(b, &x, 8); return 8;
    }
    size_t n;
    if (h->flags & MDBX_DUPFIXED) {
      if (h->vs & 4) { n = (size_t)(h->vs % 4) * 3 + 5; memset(b, 0xC3, n); b[n - 4] = (unsigned char)(0x7E + (v >> 2)); b[n - 3] = (unsigned char)((v & 3) << 6); if (h->flags & MDBX_REVERSEDUP) rev(b, n); return n; }
      n = (size_t)sprintf((char *)b, "%04u", v);
      size_t want = 4 + (size_t)(h->vs % 4) * 7; memset(b + n, 'f', want - n); n = want;
    } else { size_t cap = dup_cap(h); n = enc_str(b, h->vs, v, cap > 60 ? 60 : cap); }
    if (h->flags & MDBX_REVERSEDUP) rev(b, n);
    return n;
  }
  size_t n = 0, len;
  unsigned x = hsh(v * 7 + 5);
  switch (h->vs) {
  default:
  case 0: len = 4 + x % 24; break;
  case 1: len = (x % 8 == 0) ? 4 + (x >> 4) % (3 * ps) : 4 + (x >> 4) % 30; break;
  case 2: len = ps / 3 + (x >> 4) % ps; break;
  case 3: len = 4; break;
  case 4: len = (x & 1) ? ps / 2 + (x >> 4) % (6 * ps) : ps * (1 + (x >> 4) % 5) - 20 - (x >> 9) % 3; break;
  case 5: len = ps / 8 + (x >> 4) % (ps / 8); break;
  case 6: /* a few lengths differing by one byte: sizes that exactly fit or just miss */
    len = 20 + (x >> 4) % 4; break;
  }
  if (v == 1 && h->vs != 3) return 0;
  n = (size_t)sprintf((char *)b, "%04u", v);
  for (size_t i = n; i < len; i++) b[i] = (unsigned char)(v * 31 + i * 7 + (i >> 8));
  return len;
}
#define GARBAGE 999999
static int parse4(const unsigned char *p, size_t n, unsigned digits, unsigned *out) {
  if (n < digits) return 0;
  unsigned r = 0;
  for (unsigned i = 0; i < digits; i++) { if (p[i] < '0' || p[i] > '9') return 0; r = r * 10 + p[i] - '0'; }
  *out = r; return 1;
}
static int try_key(const struct dbh *h, unsigned r, const MDBX_val *k) { bufs(); size_t n = enc_key(xb, h, r); return n == k->iov_len && !memcmp(xb, k->iov_base, n); }
static int try_val(const struct dbh *h, unsigned r, const MDBX_val *k) { bufs(); size_t n = enc_val(xb, h, r); return n == k->iov_len && !memcmp(xb, k->iov_base, n); }
static int dec_style(const struct dbh *h, int style, int integer, int odd, int reverse, const MDBX_val *k, int (*t)(const struct dbh *, unsigned, const MDBX_val *)) {
  if (integer) {
    unsigned r = 0;
    if (odd && k->iov_len == 4) { uint32_t x; memcpy(&x, k->iov_base, 4); r = (style & 2) ? (x - B4) / (M4 / 4) : x / M4; }
    else if (!odd && k->iov_len == 8) { uint64_t x; memcpy(&x, k->iov_base, 8); r = (unsigned)((style & 2 ? x - B8 : x) / M8); }
    return r && t(h, r, k) ? (int)r : GARBAGE;
  }
  unsigned char tmp[8192]; size_t n = k->iov_len; if (n > sizeof(tmp)) return GARBAGE;
  memcpy(tmp, k->iov_base, n); if (reverse) rev(tmp, n);
  unsigned r = 0;
  switch (style) {
  case 2: { size_t i = 0; while (i < n && tmp[i] == 'P') i++; if (!parse4(tmp + i, n - i, 4, &r)) return GARBAGE; return t(h, r, k) ? (int)r : GARBAGE; }
  case 3: { if (n == 0) return t(h, 1, k) ? 1 : GARBAGE; if (!parse4(tmp, n, 3, &r)) return GARBAGE; for (unsigned m = 0; m < 4; m++) if (t(h, r * 4 + m + 1, k)) return (int)(r * 4 + m + 1); return GARBAGE; }
  case 6: case 7: case 8: case 9: case 100: { size_t i = 0; while (i < n && tmp[i] == 0xC3 && i < 20) i++; if (style == 100) i = n - 4; else i = style == 6 ? 0 : style == 7 ? 2 : style == 8 ? 4 : 7; if (i + 2 > n) return GARBAGE; r = (unsigned)(tmp[i] - 0x7E) * 4 + (tmp[i + 1] >> 6); return t(h, r, k) ? (int)r : GARBAGE; }
  case 5: { for (unsigned i = 1; i < 1200; i++) if (t(h, i, k)) return (int)i; return GARBAGE; }
  default: if (!parse4(tmp, n, 4, &r)) return GARBAGE; return t(h, r, k) ? (int)r : GARBAGE;
  }
}
static int dec_key(const struct dbh *h, const MDBX_val *k) { return dec_style(h, h->ks, h->flags & MDBX_INTEGERKEY, h->ks & 1, h->flags & MDBX_REVERSEKEY, k, try_key); }
static int dec_val(const struct dbh *h, const MDBX_val *k) {
  if (h->flags & MDBX_DUPSORT) return dec_style(h, (h->flags & MDBX_INTEGERDUP) ? h->vs : (h->flags & MDBX_DUPFIXED) ? (h->vs & 4 ? 100 : 0) : h->vs, h->flags & MDBX_INTEGERDUP, h->vs & 1, h->flags & MDBX_REVERSEDUP, k, try_val);
  if (k->iov_len == 0) return 1;
  unsigned r; if (!parse4(k->iov_base, k->iov_len, 4, &r)) return GARBAGE;
  return try_val(h, r, k) ? (int)r : GARBAGE;
}

/* ------------------------------------------------------------------ output */
struct out { char *p; size_t n, cap; };
static void o(struct out *b, const char *f, ...) {
  if (b->cap - b->n < 512) { b->cap = b->cap * 2 + 4096; b->p = realloc(b->p, b->cap); }
  va_list ap; va_start(ap, f); int k = vsnprintf(b->p + b->n, b->cap - b->n, f, ap); va_end(ap);
  b->n += (size_t)k;
}
/* ------------------------------------------------------------------ workers */
struct worker { int kind; /* 0 none 1 thread 2 process */ pid_t pid; int to, from; pthread_t th; pthread_mutex_t mx; pthread_cond_t cv; char *line; struct out res; int state; int self; };
static struct worker W[NW];

static char *nx(char **p) { while (**p == ' ') ++*p; char *s = *p; while (**p && **p != ' ') ++*p; if (**p) *(*p)++ = 0; return s; }
static long nxi(char **p) { char *s = nx(p); return *s ? strtol(s, 0, 0) : 0; }

static void tname(int idx, char *buf) {
  if (idx == 9) sprintf(buf, "z"); /* short, sorts last */
  else if (idx >= 5) sprintf(buf, "table-with-a-rather-long-name-%d", idx);
  else sprintf(buf, "t%d", idx);
}
static int name_idx(const MDBX_val *v) {
  char b[64];
  for (int i = 1; i < 10; i++) { tname(i, b); if (strlen(b) == v->iov_len && !memcmp(b, v->iov_base, v->iov_len)) return i; }
  return GARBAGE;
}
static int enum_cb(void *ctx, const MDBX_txn *txn, const MDBX_val *name, MDBX_db_flags_t flags, const struct MDBX_stat *stat, MDBX_dbi dbi) {
  struct out *b = ctx; (void)txn; (void)dbi;
  o(b, "%s[%d,%u,%llu]", b->p[b->n - 1] == '[' ? "" : ",", name_idx(name), flags, (unsigned long long)stat->ms_entries);
  return 0;
}
static void hand(struct out *b, const struct dbh *h, int rc, const MDBX_val *k, const MDBX_val *v) {
  o(b, ",\"r\":%d,\"rk\":%d,\"rv\":%d", rc, (rc == 0 || rc == -1) && k ? dec_key(h, k) : 0, (rc == 0 || rc == -1) && v ? dec_val(h, v) : 0);
}
static int is_multi(unsigned op) { return op == MDBX_GET_MULTIPLE || op == MDBX_NEXT_MULTIPLE || op == MDBX_PREV_MULTIPLE || op == MDBX_SEEK_AND_GET_MULTIPLE; }
static void multi(struct out *b, const struct dbh *h, const MDBX_val *v) {
  bufs(); size_t one = enc_val(xb, h, 1);
  o(b, ",\"m\":[");
  if (v->iov_len % one) o(b, "%d", GARBAGE);
  else for (size_t i = 0; i * one < v->iov_len; i++) { MDBX_val x = {(char *)v->iov_base + i * one, one}; o(b, "%s%d", i ? "," : "", dec_val(h, &x)); }
  o(b, "]");
}
static int pred_cb(void *context, MDBX_val *key, MDBX_val *value, void *arg) {
  int *a = context; const struct dbh *h = arg;
  a[2]++;
  return dec_key(h, key) >= a[0] && dec_val(h, value) >= a[1] ? MDBX_RESULT_TRUE : MDBX_RESULT_FALSE;
}
static void content(struct out *b, const struct dbh *h, MDBX_txn *txn, int *err) {
  MDBX_cursor *c = 0; MDBX_val k, v; int rc = mdbx_cursor_open(txn, h->dbi, &c), last = -1, first = 1;
  o(b, "[");
  size_t n = 0, back = 0;
  if (!rc) {
    for (rc = mdbx_cursor_get(c, &k, &v, MDBX_FIRST); rc == 0; rc = mdbx_cursor_get(c, &k, &v, MDBX_NEXT)) {
      int kk = dec_key(h, &k), vv = dec_val(h, &v);
      if (kk == last) o(b, ",%d", vv); else { o(b, "%s[%d,[%d", first ? "" : "]],", kk, vv); last = kk; first = 0; }
      n++;
      if (n > 200000) { rc = -77777; break; }
    }
    if (!first) o(b, "]]");
    if (rc == MDBX_NOTFOUND) { rc = 0;
      for (rc = mdbx_cursor_get(c, &k, &v, MDBX_LAST); rc == 0; rc = mdbx_cursor_get(c, &k, &v, MDBX_PREV)) if (++back > n) break;
      if (rc == MDBX_NOTFOUND && back == n) rc = 0; else if (rc == 0 || rc == MDBX_NOTFOUND) rc = -77778;
    }
    mdbx_cursor_close(c);
  }
  o(b, "]");
  if (!rc) { MDBX_stat st; rc = mdbx_dbi_stat(txn, h->dbi, &st, sizeof(st)); if (!rc && st.ms_entries != n) rc = -77779; }
  *err = rc;
}
static int chk_problems; static int chk_result(MDBX_chk_context_t *ctx, const char *fmt, va_list args) { (void)ctx; (void)fmt; (void)args; return 0; }
static void chk_issue(MDBX_chk_context_t *ctx, const char *object, uint64_t entry_number, const char *issue, const char *extra_fmt, va_list extra_args) {
  (void)ctx; (void)object; (void)entry_number; (void)issue; (void)extra_fmt; (void)extra_args; chk_problems++;
  if (getenv("DRV_VERBOSE")) { fprintf(stderr, "chk: %s #%llu %s ", object, (unsigned long long)entry_number, issue); if (extra_fmt) vfprintf(stderr, extra_fmt, extra_args); fprintf(stderr, "\n"); }
}
static int run_chk(const char *path, MDBX_env *e, int *problems, size_t out[4]) {
  MDBX_env *ee = e; int rc = 0;
  if (!ee) { rc = mdbx_env_create(&ee); if (!rc) rc = mdbx_env_set_maxdbs(ee, 64); if (!rc) rc = mdbx_env_open(ee, path, MDBX_NOSUBDIR | MDBX_RDONLY, 0664); }
  MDBX_chk_callbacks_t cb; memset(&cb, 0, sizeof(cb)); cb.issue = chk_issue;
  MDBX_chk_context_t ctx; memset(&ctx, 0, sizeof(ctx));
  chk_problems = 0;
  if (!rc) rc = mdbx_env_chk(ee, &cb, &ctx, MDBX_CHK_DEFAULTS, MDBX_chk_warning, 0);
  *problems = (int)ctx.result.total_problems + chk_problems;
  out[0] = ctx.result.total_payload_bytes; out[1] = ctx.result.table_total; out[2] = ctx.result.unused_pages; out[3] = ctx.result.gc_pages;
  if (!e && ee) { int r2 = mdbx_env_close(ee); if (!rc) rc = r2; }
  (void)chk_result;
  return rc;
}
/* opens a database copy and logs everything in it: [[name,flags,seq,content]...] by probing the handles known to the script */
/* the copy is a working database: an update of every table and of the counters */
static int use_copy(MDBX_env *e2, const MDBX_canary *ca) {
  MDBX_txn *t = 0; int rc = mdbx_txn_begin(e2, 0, 0, &t);
  for (int d = 0; !rc && d < ND; d++) if (D[d].open > 1) {
    char nm[64]; MDBX_dbi dbi; MDBX_cursor *c = 0; MDBX_val k, v; tname(D[d].open - 1, nm);
    rc = mdbx_dbi_open(t, nm, MDBX_DB_ACCEDE, &dbi);
    if (rc == MDBX_NOTFOUND) { rc = 0; continue; }
    if (!rc) rc = mdbx_cursor_open(t, dbi, &c);
    for (int n = 0; !rc && n < 2; n++) {
      rc = mdbx_cursor_get(c, &k, &v, n ? MDBX_LAST : MDBX_FIRST);
      unsigned char kk[4096], vv[70000];
      if (!rc && k.iov_len <= sizeof(kk) && v.iov_len <= sizeof(vv)) {
        memcpy(kk, k.iov_base, k.iov_len); memcpy(vv, v.iov_base, v.iov_len); k.iov_base = kk; v.iov_base = vv;
        rc = mdbx_cursor_del(c, 0); if (!rc) rc = mdbx_put(t, dbi, &k, &v, 0);
      } else if (rc == MDBX_NOTFOUND) { rc = 0; break; }
    }
    if (c) mdbx_cursor_close(c);
  }
  if (!rc) rc = mdbx_canary_put(t, ca);
  if (t) { if (rc) mdbx_txn_abort(t); else rc = mdbx_txn_commit(t); }
  return rc;
}
static void dump_copy(struct out *b, const char *path, int *err) {
  int wr = 0, prob2 = 0;
  MDBX_env *e2 = 0, *save = env; MDBX_txn *t2 = 0; int rc = mdbx_env_create(&e2), x = 0;
  if (!rc) rc = mdbx_env_set_maxdbs(e2, 64);
  if (!rc) rc = mdbx_env_open(e2, path, MDBX_NOSUBDIR, 0664);
  if (!rc) rc = mdbx_txn_begin(e2, 0, MDBX_TXN_RDONLY, &t2);
  o(b, ",\"cp\":[");
  int first = 1, prob = -1; size_t ig[4]; unsigned long long idt = 0;
  MDBX_canary ca = {0, 0, 0, 0};
  if (!rc) {
    env = e2;
    idt = mdbx_txn_id(t2);
    mdbx_canary_get(t2, &ca);
    for (int d = 0; d < ND; d++) if (D[d].open) {
      struct dbh h = D[d]; char nm[64]; int ni = D[d].open - 1; tname(ni, nm);
      int r2 = mdbx_dbi_open(t2, ni ? nm : 0, MDBX_DB_ACCEDE, &h.dbi);
      uint64_t sq = 0; unsigned fl = 0, st = 0;
      if (r2 == 0) { r2 = mdbx_dbi_flags_ex(t2, h.dbi, &fl, &st); mdbx_dbi_sequence(t2, h.dbi, &sq, 0); h.flags = fl; }
      o(b, "%s[%d,%d,%d,%d,", first ? "" : ",", ni, r2, r2 ? 0 : (int)(fl & 0x7e), (int)sq); first = 0;
      if (r2 == 0) { content(b, &h, t2, &r2); if (r2) x = r2; } else o(b, "[]");
      o(b, "]");
    }
    env = save;
  }
  o(b, "],\"ctid\":%llu,\"can\":[%d,%d,%d,%d]", idt, (int)ca.x, (int)ca.y, (int)ca.z, (int)ca.v);
  if (t2) mdbx_txn_abort(t2);
  if (!rc) rc = x;
  if (!rc) rc = run_chk(path, e2, &prob, ig);
  if (!rc) { size_t ig2[4]; wr = use_copy(e2, &ca); int r2 = run_chk(path, e2, &prob2, ig2); if (!wr) wr = r2; }
  if (e2) { int r2 = mdbx_env_close(e2); if (!rc) rc = r2; }
  o(b, ",\"wr\":%d,\"prob2\":%d", wr, prob2);
  o(b, ",\"prob\":%d,\"tables\":%d,\"gcp\":%d,\"unused\":%d", prob, prob < 0 ? 0 : (int)ig[1], prob < 0 ? 0 : (int)ig[3], prob < 0 ? 0 : (int)ig[2]);
  *err = rc;
}
/* the system calls for copying may be absent or do less than asked */
static int cpio; static volatile int copying;
#ifdef DRV_WRAP
ssize_t __real_sendfile64(int, int, off_t *, size_t); ssize_t __real_copy_file_range(int, off_t *, int, off_t *, size_t, unsigned); ssize_t __real_write(int, const void *, size_t);
static size_t less(size_t n) { static unsigned seed = 7; if (!(cpio & 2) || n < 2) return n; seed = seed * 1103515245u + 12345u; size_t m = (size_t)1 << (9 + (seed >> 16) % 6); return m < n ? m : n; }
ssize_t __wrap_sendfile64(int o_, int i_, off_t *off, size_t n) { if (cpio & 1) { errno = ENOSYS; return -1; } return __real_sendfile64(o_, i_, off, less(n)); }
ssize_t __wrap_copy_file_range(int i_, off_t *io, int o_, off_t *oo, size_t n, unsigned f) { if (cpio & 1) { errno = ENOSYS; return -1; } if (cpio & 4) { errno = EXDEV; return -1; } return __real_copy_file_range(i_, io, o_, oo, less(n), f); }
ssize_t __wrap_write(int fd, const void *p, size_t n) { return __real_write(fd, p, copying ? less(n) : n); }
#endif
static void wr_all(int fd, const void *p, size_t n) { while (n) { ssize_t x = write(fd, p, n); if (x <= 0) abort(); p = (const char *)p + x; n -= (size_t)x; } }
/* copying to a pipe by a thread, drained step by step */
static struct { pthread_t th; int t, fd[2], rc; volatile int done; long f; unsigned char *buf; size_t n, cap; int on; } cpy;
static void *copy_thread(void *a) { (void)a; copying = 1;
  cpy.rc = cpy.t >= 0 ? mdbx_txn_copy2fd(T[cpy.t], cpy.fd[1], (MDBX_copy_flags_t)cpy.f) : mdbx_env_copy2fd(env, cpy.fd[1], (MDBX_copy_flags_t)cpy.f);
  __sync_synchronize(); copying = 0; cpy.done = 1; close(cpy.fd[1]); return 0; }
static void copy_begin(int t, long f) {
  if (cpy.on) abort();
  cpy.t = t; cpy.f = f; cpy.n = 0; cpy.done = 0; cpy.on = 1;
  if (pipe(cpy.fd)) abort();
  fcntl(cpy.fd[1], F_SETPIPE_SZ, 4096);
  fcntl(cpy.fd[0], F_SETFL, O_NONBLOCK);
  pthread_create(&cpy.th, 0, copy_thread, 0);
}
/* n < 0: all, 0: until something was written, else n bytes */
static long copy_drain(long n) {
  long got = 0; int idle = 0;
  for (;;) {
    struct stat st; (void)st;
    if (cpy.n + 65536 > cpy.cap) cpy.buf = realloc(cpy.buf, cpy.cap += 1 << 20);
    size_t want = n > 0 ? (size_t)(n - got) : n < 0 ? 65536 : 1;
    if (want > 65536) want = 65536;
    int was = cpy.done;
    ssize_t x = read(cpy.fd[0], cpy.buf + cpy.n, want);
    if (x > 0) { cpy.n += (size_t)x; got += x; idle = 0; if (n >= 0 && got >= (n ? n : 1)) return got; continue; }
    if (x == 0 || was) return got;
    usleep(100);
    if (n > 0 && ++idle > 300) return got;   /* 30 ms of silence */
  }
}
static int copy_join(const char *to) {
  pthread_join(cpy.th, 0); close(cpy.fd[0]); cpy.on = 0;
  int fd = open(to, O_RDWR | O_CREAT | O_TRUNC, 0644); wr_all(fd, cpy.buf, cpy.n); close(fd);
  return cpy.rc;
}
static void copy_result(struct out *b, const char *to, int rc) {
  char tl[720]; int r2 = 0; struct stat st; int ex = stat(to, &st) == 0; sprintf(tl, "%s-lck", to);
  o(b, ",\"r\":%d,\"left\":%d", rc, ex);
  if (rc == 0) { unsigned sps = ps; dump_copy(b, to, &r2); ps = sps; } else o(b, ",\"cp\":[],\"ctid\":0,\"can\":[0,0,0,0],\"prob\":0,\"tables\":0,\"gcp\":0,\"unused\":0,\"wr\":0,\"prob2\":0");
  o(b, ",\"r2\":%d", r2); unlink(to); unlink(tl);
}
static long dfg_mode, dfg_n, dfg_calls;   /* progress callback: 1 go on, 2 stop after n calls, 3 abort after n calls */
static int dfg_cb(void *ctx, const MDBX_defrag_result_t *r) { (void)r; if (ctx != (void *)&dfg_mode) abort(); dfg_calls++; return dfg_mode == 1 || dfg_calls <= dfg_n ? 0 : dfg_mode == 2 ? 1 : -1; }
static int hsr_mode, hsr_calls, hsr_last; /* 0 none 1 give up 2 kick slot owner (treat as dead) */
static struct { long stop; int t, calls, sum, sumr, bad; uint64_t mxr; size_t last; unsigned char *map; size_t cap; uint64_t id; } gci;
static int gci_cb(void *ctx, const MDBX_txn *txn, uint64_t id, size_t pg, size_t n, bool rec) {
  if (ctx != &gci || txn != T[gci.t] || !n || pg < 3 || id < gci.id) gci.bad++;
  gci.id = id;
  if (gci.stop && gci.calls >= gci.stop) gci.bad++;            /* not stopped */
  if (pg + n > gci.cap) { gci.map = realloc(gci.map, pg + n); memset(gci.map + gci.cap, 0, pg + n - gci.cap); gci.cap = pg + n; }
  for (size_t i = 0; i < n; i++) { if (gci.map[pg + i]) gci.bad++; gci.map[pg + i] = 1; }
  gci.calls++; gci.sum += (int)n; if (rec) { gci.sumr += (int)n; gci.mxr = id; }
  return gci.stop && gci.calls >= gci.stop ? 77 : 0;
}
static int hsr_cb(const MDBX_env *e, const MDBX_txn *txn, mdbx_pid_t pid, mdbx_tid_t tid, uint64_t laggard, unsigned gap, size_t space, int retry) {
  (void)e; (void)txn; (void)pid; (void)tid; (void)gap; (void)space;
  if (retry < 0) return 0;
  hsr_calls++; hsr_last = (int)laggard;
  return hsr_mode == 1 ? -1 : hsr_mode == 3 ? (retry < 2 ? 0 : -1) : hsr_mode;
}
static int rl_cb(void *ctx, int num, int slot, mdbx_pid_t pid, mdbx_tid_t thread, uint64_t txnid, uint64_t lag, size_t used, size_t retained) {
  struct out *b = ctx; (void)num; (void)slot; (void)thread; (void)used; (void)retained;
  o(b, "%s[%d,%d,%d]", b->p[b->n - 1] == '[' ? "" : ",", (int)pid, (int)txnid, (int)lag);
  return 0;
}
static int self_w;
/* many read transactions at once */
static MDBX_txn *Fill[512]; static int Nfill;
/* what racing workers share */
static struct shared { volatile uint64_t last, started; volatile int inside, clash; } *Sh;
static uint64_t rnd(uint64_t *x) { *x ^= *x << 13; *x ^= *x >> 7; *x ^= *x << 17; return *x; }
/* n write transactions, each counting up the sequence of the table and giving
   keys 1..m the value that belongs to it: [id, value before, aborted] */
static void racew(struct out *b, int d, long n, uint64_t seed, int m, int V) {
  int bad = 0, first = 1, full = 0; o(b, ",\"d\":%d,\"l\":[", d);
  for (long i = 0; i < n; i++) {
    MDBX_txn *t = 0; int rc = mdbx_txn_begin_ex(env, 0, rnd(&seed) % 4 ? 0 : MDBX_TXN_TRY, &t, 0);
    if (rc == MDBX_BUSY) { if (rnd(&seed) % 2) sched_yield(); continue; }
    if (rc) { bad = rc; break; }
    if (__sync_fetch_and_add(&Sh->inside, 1) != 0) Sh->clash++;
    uint64_t id = mdbx_txn_id(t), q = 0; rc = mdbx_dbi_sequence(t, D[d].dbi, &q, 1);
    for (int kk = 1; kk <= m && !rc; kk++) { MDBX_val k = {kb, enc_key(kb, &D[d], (unsigned)kk)}, v = {vb, enc_val(vb, &D[d], 1 + (unsigned)((q + 1) % (unsigned)V))}; rc = mdbx_put(t, D[d].dbi, &k, &v, 0); }
    if (rnd(&seed) % 3 == 0) usleep(rnd(&seed) % 200);
    int ab = rc || rnd(&seed) % 6 == 0;
    if (__sync_sub_and_fetch(&Sh->inside, 1) != 0) Sh->clash++;
    int rc2 = ab ? mdbx_txn_abort(t) : mdbx_txn_commit(t);
    if (rc == MDBX_MAP_FULL || rc2 == MDBX_MAP_FULL) { full++; continue; }
    if (rc || rc2) { bad = rc ? rc : rc2; break; }
    if (!ab) { uint64_t was; while ((was = Sh->last) < id && !__sync_bool_compare_and_swap(&Sh->last, was, id)); }
    o(b, "%s[%d,%d,%d]", first ? "" : ",", (int)id, (int)q, ab); first = 0;
  }
  o(b, "],\"m\":%d,\"v\":%d,\"full\":%d,\"r\":%d", m, V, full, bad);
}
/* n snapshots: [last commit known to have returned before, id, sequence, common
   value of keys 1..m or -1, how: 0 new, 1 resumed after parking, 2 restarted, 3 ousted (no snapshot)] */
static void racerd(struct out *b, int d, long n, uint64_t seed, int mk) {
  int bad = 0, m = 0, first = 1, pu = 0, nous = 0; uint64_t pl = 0, pi = 0, pq = 0; MDBX_txn *t = 0; o(b, ",\"d\":%d,\"l\":[", d);
  for (long i = 0; i < n && m < 80; i++) {
    uint64_t last = Sh->last; __sync_synchronize(); int rc, how = 0, a;
    if (!t) rc = mdbx_txn_begin_ex(env, 0, MDBX_TXN_RDONLY, &t, 0);
    else switch (rnd(&seed) % 6) {
      case 0: rc = mdbx_txn_reset(t); last = Sh->last; __sync_synchronize(); if (!rc) rc = mdbx_txn_renew(t); break;
      case 1: rc = mdbx_txn_refresh(t); if (rc == MDBX_RESULT_TRUE) rc = 0; break;
      case 2: rc = mdbx_txn_abort(t); t = 0; last = Sh->last; __sync_synchronize(); if (!rc) rc = mdbx_txn_begin_ex(env, 0, MDBX_TXN_RDONLY, &t, 0); break;
      case 3: how = 1; rc = 0; break;
      default: a = (int)(rnd(&seed) % 3); rc = mdbx_txn_park(t, a == 2); how = 1; last = 0; if (rc) break;
        if (rnd(&seed) % 2) usleep(rnd(&seed) % 300);
        if (a == 2) { MDBX_val k = {kb, enc_key(kb, &D[d], 1)}, v; rc = mdbx_get(t, D[d].dbi, &k, &v); if (rc == MDBX_NOTFOUND) rc = 0; }
        else { last = Sh->last; __sync_synchronize(); rc = mdbx_txn_unpark(t, a); if (rc == MDBX_RESULT_TRUE && a) rc = 0, how = 2; else last = 0; }
        if (rc == MDBX_OUSTED) { nous++; rc = mdbx_txn_abort(t); t = 0; if (!rc) continue; }
    }
    if (how == 1) last = 0;
    if (rc) { bad = rc; break; }
    uint64_t id = mdbx_txn_id(t), q = 0; rc = mdbx_dbi_sequence(t, D[d].dbi, &q, 0);
    int u = 0;
    for (int kk = 1; kk <= mk && !rc; kk++) { MDBX_val k = {kb, enc_key(kb, &D[d], (unsigned)kk)}, v; rc = mdbx_get(t, D[d].dbi, &k, &v); if (rc == MDBX_NOTFOUND) { u = -1; rc = 0; break; } int x = rc ? 0 : dec_val(&D[d], &v); if (kk == 1) u = x; else if (u != x) u = -1; }
    if (rc) { bad = rc; break; }
    if (how == 2 || id != pi || q != pq || u != pu || (last != pl && last > id)) { o(b, "%s[%d,%d,%d,%d,%d]", first ? "" : ",", (int)last, (int)id, (int)q, u, how); first = 0; m++; }
    pl = last; pi = id; pq = q; pu = u;
    if (rnd(&seed) % 8 == 0) usleep(rnd(&seed) % 100);
  }
  if (t) { int rc = mdbx_txn_abort(t); if (!bad) bad = rc; }
  o(b, "],\"m\":%d,\"ous\":%d,\"r\":%d", mk, nous, bad);
}
/* reads the current pair of a cursor before an update at it, unless the last call on it succeeded and nothing changed since */
static int probe(struct out *b, int c, int no) {
  MDBX_val k = {0, 0}, v = {0, 0};
  if (no && Cs[c] == Cmod + 1) { o(b, ",\"pr\":-7777,\"pk\":0,\"pv\":0"); return 0; }
  int rc = mdbx_cursor_get(C[c], &k, &v, MDBX_GET_CURRENT);
  o(b, ",\"pr\":%d,\"pk\":%d,\"pv\":%d", rc, rc ? 0 : dec_key(&D[Cd[c]], &k), rc ? 0 : dec_val(&D[Cd[c]], &v));
  return rc;
}

static const struct { const char *n; MDBX_option_t v; } opts[] = {
  {"max_db", MDBX_opt_max_db}, {"max_readers", MDBX_opt_max_readers}, {"sync_bytes", MDBX_opt_sync_bytes}, {"sync_period", MDBX_opt_sync_period},
  {"rp_augment_limit", MDBX_opt_rp_augment_limit}, {"loose_limit", MDBX_opt_loose_limit}, {"dp_reserve_limit", MDBX_opt_dp_reserve_limit},
  {"txn_dp_limit", MDBX_opt_txn_dp_limit}, {"txn_dp_initial", MDBX_opt_txn_dp_initial}, {"spill_max_denominator", MDBX_opt_spill_max_denominator},
  {"spill_min_denominator", MDBX_opt_spill_min_denominator}, {"spill_parent4child_denominator", MDBX_opt_spill_parent4child_denominator},
  {"merge_threshold_16dot16_percent", MDBX_opt_merge_threshold}, {"writethrough_threshold", MDBX_opt_writethrough_threshold},
  {"prefault_write_enable", MDBX_opt_prefault_write_enable}, {"gc_time_limit", MDBX_opt_gc_time_limit},
  {"prefer_waf", MDBX_opt_prefer_waf_insteadof_balance}, {"subpage_limit", MDBX_opt_subpage_limit}, {"subpage_room_threshold", MDBX_opt_subpage_room_threshold},
  {"subpage_reserve_prereq", MDBX_opt_subpage_reserve_prereq}, {"subpage_reserve_limit", MDBX_opt_subpage_reserve_limit},{"split_reserve", MDBX_opt_split_reserve}};

static void put_names(struct out *b, const char *op, char *args) { (void)args; o(b, "\"e\":\"%s\"", op); }

static MDBX_env *env_make(int *rc) { MDBX_env *e = 0; *rc = mdbx_env_create(&e); return e; }

/* What a cursor does is not specified after a failed navigation followed by a
 * change, until it is positioned anew: such calls are left out. */
static int lost_cursor(const char *op, const char *args) {
  static const char *writes[] = {"put", "putm", "del", "replace", "cput", "cdel", "drop", "cdelr", "cbunch", "rollback", "abort", "commit", "checkpoint", "defrag", 0};
  static const char *moves[] = {"cget", "cdel", "cput", "ccount", "cscan", "batch", "cscroll", "cdist", "cdelr", "cbunch", "cdistr", 0};
  int lost = 0, mv = 0;
  for (int i = 0; moves[i]; i++) mv |= !strcmp(op, moves[i]);
  if (mv) {
    char tmp[200]; strncpy(tmp, args, sizeof(tmp) - 1); tmp[sizeof(tmp) - 1] = 0;
    char *q = tmp; int c = (int)nxi(&q), two = !strcmp(op, "cdist") || !strcmp(op, "cdelr") || !strcmp(op, "cdistr");
    if (c >= 0 && c < NC) {
      lost = Lost[c] && Lost[c] != Wmod + 1;
      if (!strcmp(op, "cget")) { int o1 = (int)nxi(&q); if (o1 == 0 || o1 == 6 || o1 == 2 || o1 == 3 || (o1 >= 15 && o1 != 18)) lost = 0; }
      if (!strcmp(op, "cput")) { nxi(&q); nxi(&q); long f = nxi(&q); if (!(f & MDBX_CURRENT)) lost = 0; }
      if (two) { int c2 = (int)nxi(&q); if (c2 >= 0 && c2 < NC) lost |= Lost[c2] && Lost[c2] != Wmod + 1; }
    }
  }
  for (int i = 0; writes[i] && !lost; i++) if (!strcmp(op, writes[i])) ++Wmod;
  return lost;
}
/* Calls on ranges are made with cursors just positioned, not past the end; other uses are not specified. */
static int vague(const char *op, const char *args) {
  static const char *ops[] = {"cdist", "cdelr", "cdistr", "ccmp", "estm", "cscroll", "cbunch", "cscan", 0};
  int i = 0;
  while (ops[i] && strcmp(op, ops[i])) i++;
  if (!ops[i]) return 0;
  char tmp[200]; strncpy(tmp, args, sizeof(tmp) - 1); tmp[sizeof(tmp) - 1] = 0;
  char *q = tmp; int c = (int)nxi(&q), c2 = i < 5 ? (int)nxi(&q) : -1;
  if (c >= 0 && (!C[c] || Cs[c] != Cmod + 1 || mdbx_cursor_eof(C[c]))) return 1;
  if (c2 >= 0 && (!C[c2] || Cs[c2] != Cmod + 1 || mdbx_cursor_eof(C[c2]))) return 1;
  if (c >= 0 && c2 >= 0 && mdbx_cursor_txn(C[c]) != mdbx_cursor_txn(C[c2])) return 1;
  if (!strcmp(op, "cdistr")) {
    int ref = c >= 0 ? c : c2, base = (int)nxi(&q), n = (int)nxi(&q);
    for (int j = base; j < base + n; j++) if (j == c || j == c2 || !C[j] || mdbx_cursor_txn(C[j]) != mdbx_cursor_txn(C[ref]) || Cd[j] != Cd[ref]) return 1;
  }
  return 0;
}
static int writer_here(void) { for (int i = 0; i < NT; i++) if (T[i] && Tp[i] < 0 && !(mdbx_txn_flags(T[i]) & MDBX_TXN_RDONLY)) return 1; return 0; }
/* Calls the caller must not make: they would leak a handle, or wait for ever. */
static int misuse(const char *op, const char *args) {
  char tmp[200]; strncpy(tmp, args, sizeof(tmp) - 1); tmp[sizeof(tmp) - 1] = 0;
  char *q = tmp;
  unsigned ef = 0;
  if (env && mdbx_env_get_flags(env, &ef) == 0 && !(ef & MDBX_NOSTICKYTHREADS) && (!strcmp(op, "begin") || !strcmp(op, "clone") || !strcmp(op, "embark") || !strcmp(op, "amend"))) {
    /* a thread may have just one transaction: not a new one besides a reset one */
    int t = (int)nxi(&q), n = 0, other = 0, par = strcmp(op, "begin") ? -1 : (int)nxi(&q);
    for (int i = 0; i < NT; i++) if (T[i] && i != t && pthread_equal(To[i], pthread_self())) { int tf = mdbx_txn_flags(T[i]); n += (tf & MDBX_TXN_FINISHED) || (Tp[i] < 0 && (tf & MDBX_TXN_RDONLY) && !strcmp(op, "embark")); other++; }
    if (par < 0 && (n || (other && (!strcmp(op, "amend") || !strcmp(op, "clone"))))) return 1;
    q = tmp; strncpy(tmp, args, sizeof(tmp) - 1);
  }
  if (!strcmp(op, "begin")) { int t = (int)nxi(&q), par = (int)nxi(&q); return T[t] != 0 || par == t || (par >= 0 && !T[par]); }
  if (!strcmp(op, "copen")) return C[nxi(&q)] != 0;
  if (!strcmp(op, "amend")) { int t = (int)nxi(&q), t2 = (int)nxi(&q); return T[t2] != 0 || t == t2; }
  if (!strcmp(op, "clone")) { int t = (int)nxi(&q), t2 = (int)nxi(&q); return t == t2; }
  return 0;
}
struct racer { pthread_t th; pthread_barrier_t *ba; int t, d, n, nres; MDBX_val k; MDBX_cache_entry_t *e; struct { int r, v, s; } res[16]; };
static void *racer(void *a) {
  struct racer *x = a; bufs();
  pthread_barrier_wait(x->ba);
  for (int pass = 0; pass < 2; pass++)
    for (int i = 0; i < x->n; i++) {
      MDBX_val v = {0, 0}; MDBX_cache_result_t r = mdbx_cache_get(T[x->t], D[x->d].dbi, &x->k, &v, &x->e[i]);
      int rv = r.errcode == 0 ? dec_val(&D[x->d], &v) : 0, j = 0;
      while (j < x->nres && (x->res[j].r != r.errcode || x->res[j].v != rv || x->res[j].s != (int)r.status)) j++;
      if (j == x->nres && j < 16) { x->res[j].r = r.errcode; x->res[j].v = rv; x->res[j].s = (int)r.status; x->nres++; }
    }
  return 0;
}
static void execop1(char *line, struct out *b);
static int gwatch;
/* the geometry of the committed state, the size of the file and what the innermost write transaction sees */
static void geo_look(struct out *b) {
  MDBX_envinfo i; memset(&i, 0, sizeof(i)); struct stat sb;
  if (!env || mdbx_env_info_ex(env, 0, &i, sizeof(i)) || !i.mi_recent_txnid || stat(dbpath, &sb)) return;
  long st = 0; for (int k = 0; k < 3; k++) if (i.mi_meta_sign[k] > 1 && (long)i.mi_meta_txnid[k] > st) st = (long)i.mi_meta_txnid[k];
  o(b, ",\"g\":{\"lo\":%ld,\"now\":%ld,\"up\":%ld,\"gr\":%ld,\"sh\":%ld,\"nx\":%ld,\"id\":%ld,\"st\":%ld},\"sf\":%ld", (long)(i.mi_geo.lower / ps), (long)(i.mi_geo.current / ps), (long)(i.mi_geo.upper / ps), (long)(i.mi_geo.grow / ps), (long)(i.mi_geo.shrink / ps), (long)i.mi_last_pgno + 1, (long)i.mi_recent_txnid, st, (long)sb.st_size);
  for (int t = 0; t < NT; t++) if (T[t] && pthread_equal(To[t], pthread_self())) {
    int f = mdbx_txn_flags(T[t]); if (f == MDBX_TXN_INVALID || (f & (MDBX_TXN_RDONLY | MDBX_TXN_FINISHED | MDBX_TXN_HAS_CHILD | MDBX_TXN_PARKED))) continue;
    memset(&i, 0, sizeof(i)); if (mdbx_env_info_ex(env, T[t], &i, sizeof(i)) == 0) { o(b, ",\"gt\":[%ld,%ld]", (long)(i.mi_geo.current / ps), (long)i.mi_last_pgno + 1); break; } }
}
static void execop(char *line, struct out *b) {
  int h = hsr_calls; execop1(line, b); if (hsr_calls > h) o(b, ",\"hn\":%d,\"hl\":%d", hsr_calls - h, hsr_last);
}
static void execop1(char *line, struct out *b) {
  bufs();
  char *p = line, *op = nx(&p);
  if (vague(op, p)) { o(b, "\"e\":\"note\",\"s\":\"vague\",\"r\":0"); return; }
  if (strcmp(op, "cget") && strcmp(op, "cput") && strcmp(op, "cdel") && strcmp(op, "ceof") && strcmp(op, "cdist") && strcmp(op, "ccmp") && strcmp(op, "estm") && strcmp(op, "cscroll") && strcmp(op, "ccount")) ++Cmod;
  if (lost_cursor(op, p)) { o(b, "\"e\":\"note\",\"s\":\"lost cursor\",\"r\":0"); return; }
  if (misuse(op, p)) { o(b, "\"e\":\"note\",\"s\":\"left out\",\"r\":0"); return; }
  put_names(b, op, p);
  MDBX_val k = {0, 0}, v = {0, 0};
  int rc;
#define IS(s) (strcmp(op, s) == 0)
  if (IS("ecreate")) { env = env_make(&rc); for (int x = 0; x < ND; x++) { D[x].dbi = 9999; D[x].open = 0; } hsr_calls = 0; o(b, ",\"r\":%d", rc); }
  else if (IS("egeo")) { long a[6]; for (int i = 0; i < 6; i++) a[i] = nxi(&p); rc = mdbx_env_set_geometry(env, a[0], a[1], a[2], a[3], a[4], a[5]); if (rc == 0 && a[5] > 0) ps = (unsigned)a[5];
    o(b, ",\"lo\":%ld,\"now\":%ld,\"up\":%ld,\"gr\":%ld,\"sh\":%ld,\"ps\":%ld,\"r\":%d", a[0], a[1], a[2], a[3], a[4], a[5], rc); }
  else if (IS("eopt")) { char *n = nx(&p); long x = nxi(&p); rc = -99; for (size_t i = 0; i < sizeof(opts) / sizeof(*opts); i++) if (!strcmp(opts[i].n, n)) rc = mdbx_env_set_option(env, opts[i].v, (uint64_t)x); o(b, ",\"n\":\"%s\",\"x\":%ld,\"r\":%d", n, x, rc); }
  else if (IS("eopen")) { long f = nxi(&p); rc = mdbx_env_open(env, dbpath, (MDBX_env_flags_t)f | MDBX_NOSUBDIR, 0664); if (rc == 0 || rc == -1) { MDBX_stat st; if (mdbx_env_stat_ex(env, 0, &st, sizeof(st)) == 0) ps = st.ms_psize; } int mr = 0; if (rc == 0) mdbx_env_get_maxreaders(env, (unsigned *)&mr); o(b, ",\"f\":%ld,\"r\":%d,\"ps\":%u,\"mr\":%d", f, rc, ps, mr); }
  else if (IS("eclose")) { long ds = nxi(&p); rc = mdbx_env_close_ex(env, ds != 0); if (rc != MDBX_BUSY) { env = 0; for (int x = 0; x < ND; x++) { D[x].dbi = 9999; D[x].open = 0; } } o(b, ",\"ds\":%ld,\"r\":%d", ds, rc); }
  else if (IS("eflags")) { long f = nxi(&p), on = nxi(&p); rc = mdbx_env_set_flags(env, (MDBX_env_flags_t)f, on != 0); o(b, ",\"f\":%ld,\"on\":%ld,\"r\":%d", f, on, rc); }
  else if (IS("esync")) { long f = nxi(&p), nb = nxi(&p); rc = mdbx_env_sync_ex(env, f != 0, nb != 0); o(b, ",\"f\":%ld,\"r\":%d", f, rc); }
  else if (IS("einfo")) { int t = (int)nxi(&p); MDBX_envinfo i; memset(&i, 0, sizeof(i)); rc = mdbx_env_info_ex(env, t >= 0 ? T[t] : 0, &i, sizeof(i)); struct stat sb; long fs = stat(dbpath, &sb) == 0 ? (long)sb.st_size : -1;
    o(b, ",\"t\":%d,\"r\":%d,\"ilo\":%ld,\"icur\":%ld,\"iup\":%ld,\"ish\":%ld,\"igr\":%ld,\"fs\":%ld,\"rec\":%d,\"lr\":%d,\"lastpg\":%d,\"nr\":%d,\"ps\":%u", t, rc, (long)i.mi_geo.lower, (long)i.mi_geo.current, (long)i.mi_geo.upper, (long)i.mi_geo.shrink, (long)i.mi_geo.grow, fs, (int)i.mi_recent_txnid, (int)i.mi_latter_reader_txnid, (int)i.mi_last_pgno, (int)i.mi_numreaders, ps); }
  else if (IS("begin")) { int t = (int)nxi(&p), par = (int)nxi(&p); long f = nxi(&p); if (par < 0 && !(f & MDBX_TXN_RDONLY) && writer_here()) f |= MDBX_TXN_TRY; rc = mdbx_txn_begin_ex(env, par >= 0 ? T[par] : 0, (MDBX_txn_flags_t)f, &T[t], 0); Tp[t] = par; To[t] = pthread_self();
    o(b, ",\"t\":%d,\"p\":%d,\"f\":%ld,\"r\":%d,\"id\":%d", t, par, f, rc, rc == 0 && (f & (MDBX_TXN_RDONLY_PREPARE)) != MDBX_TXN_RDONLY_PREPARE ? (int)mdbx_txn_id(T[t]) : 0); if (rc) T[t] = 0; }
  else if (IS("commit")) { int t = (int)nxi(&p); MDBX_commit_latency lat; rc = mdbx_txn_commit_ex(T[t], &lat); if (rc != MDBX_THREAD_MISMATCH && rc != MDBX_EBADSIGN && rc != MDBX_EINVAL) { kids_gone(t); T[t] = 0; } o(b, ",\"t\":%d,\"r\":%d", t, rc); }
  else if (IS("abort")) { int t = (int)nxi(&p); rc = mdbx_txn_abort(T[t]); if (rc != MDBX_THREAD_MISMATCH && rc != MDBX_EBADSIGN && rc != MDBX_EINVAL) { kids_gone(t); T[t] = 0; } o(b, ",\"t\":%d,\"r\":%d", t, rc); }
  else if (IS("break")) { int t = (int)nxi(&p); rc = mdbx_txn_break(T[t]); o(b, ",\"t\":%d,\"r\":%d", t, rc); }
  else if (IS("reset")) { int t = (int)nxi(&p); rc = mdbx_txn_reset(T[t]); o(b, ",\"t\":%d,\"r\":%d", t, rc); }
  else if (IS("renew")) { int t = (int)nxi(&p); rc = mdbx_txn_renew(T[t]); o(b, ",\"t\":%d,\"r\":%d,\"id\":%d", t, rc, rc == 0 ? (int)mdbx_txn_id(T[t]) : 0); }
  else if (IS("refresh")) { int t = (int)nxi(&p); rc = mdbx_txn_refresh(T[t]); o(b, ",\"t\":%d,\"r\":%d,\"id\":%d", t, rc, rc == 0 || rc == -1 ? (int)mdbx_txn_id(T[t]) : 0); }
  else if (IS("clone")) { int t = (int)nxi(&p), t2 = (int)nxi(&p); rc = mdbx_txn_clone(T[t], &T[t2], 0); if (rc == 0) Tp[t2] = -1, To[t2] = pthread_self(); o(b, ",\"t\":%d,\"t2\":%d,\"r\":%d,\"id\":%d", t, t2, rc, rc == 0 ? (int)mdbx_txn_id(T[t2]) : 0); }
  else if (IS("park")) { int t = (int)nxi(&p); long a = nxi(&p); rc = mdbx_txn_park(T[t], a != 0); o(b, ",\"t\":%d,\"a\":%ld,\"r\":%d", t, a, rc); }
  else if (IS("unpark")) { int t = (int)nxi(&p); long a = nxi(&p); rc = mdbx_txn_unpark(T[t], a != 0); o(b, ",\"t\":%d,\"a\":%ld,\"r\":%d,\"id\":%d", t, a, rc, rc == 0 || rc == -1 ? (int)mdbx_txn_id(T[t]) : 0); }
  else if (IS("checkpoint")) { int t = (int)nxi(&p); long f = nxi(&p); rc = mdbx_txn_checkpoint(T[t], (MDBX_txn_flags_t)f, 0); if ((rc > 0 ? rc != MDBX_EINVAL : rc == MDBX_MAP_FULL || rc == MDBX_TXN_FULL) && T[t] && Tp[t] < 0 && (mdbx_txn_flags(T[t]) & MDBX_TXN_FINISHED)) { kids_gone(t); T[t] = 0; } o(b, ",\"t\":%d,\"f\":%ld,\"r\":%d,\"id\":%d", t, f, rc, rc == 0 || rc == -1 ? (int)mdbx_txn_id(T[t]) : 0); }
  else if (IS("embark")) { int t = (int)nxi(&p); rc = mdbx_txn_commit_embark_read(&T[t], 0); o(b, ",\"t\":%d,\"r\":%d,\"id\":%d", t, rc, rc == 0 || rc == -1 ? (int)mdbx_txn_id(T[t]) : 0); }
  else if (IS("amend")) { int t = (int)nxi(&p), t2 = (int)nxi(&p); long f = nxi(&p); if (writer_here()) f |= MDBX_TXN_TRY; rc = mdbx_txn_amend(T[t], &T[t2], (MDBX_txn_flags_t)f, 0); if (rc == 0 && (f & MDBX_TXN_RDONLY_PREPARE) != MDBX_TXN_RDONLY_PREPARE) T[t] = 0; if (rc) T[t2] = 0; else Tp[t2] = -1, To[t2] = pthread_self(); o(b, ",\"t\":%d,\"t2\":%d,\"f\":%ld,\"r\":%d,\"id\":%d,\"pk\":%d", t, t2, f, rc, rc == 0 ? (int)mdbx_txn_id(T[t2]) : 0, rc && T[t] ? (mdbx_txn_flags(T[t]) & MDBX_TXN_PARKED) != 0 : 0); }
  else if (IS("rollback")) { int t = (int)nxi(&p); rc = mdbx_txn_rollback(T[t]); o(b, ",\"t\":%d,\"r\":%d,\"id\":%d", t, rc, rc == 0 || rc == -1 ? (int)mdbx_txn_id(T[t]) : 0); }
  else if (IS("tflags")) { int t = (int)nxi(&p); unsigned f = T[t] ? (unsigned)mdbx_txn_flags(T[t]) : 0xffffffu; o(b, ",\"t\":%d,\"r\":0,\"f\":%d,\"id\":%d", t, (int)(f & 0x0fffffff), T[t] && f != (unsigned)MDBX_TXN_INVALID ? (int)mdbx_txn_id(T[t]) : 0); }
  else if (IS("tinfo")) { int t = (int)nxi(&p), s = (int)nxi(&p); MDBX_txn_info i; memset(&i, 0, sizeof(i)); rc = mdbx_txn_info(T[t], &i, s != 0); o(b, ",\"t\":%d,\"r\":%d,\"id\":%d,\"lag\":%d,\"retired\":%d", t, rc, (int)i.txn_id, (int)i.txn_reader_lag, (int)i.txn_space_retired); }
  else if (IS("dopen")) { int t = (int)nxi(&p), d = (int)nxi(&p), n = (int)nxi(&p); long f = nxi(&p); int ks = (int)nxi(&p), vs = (int)nxi(&p); char nm[64]; tname(n, nm); MDBX_dbi di = 0; rc = mdbx_dbi_open(T[t], n ? nm : 0, (MDBX_db_flags_t)f, &di); unsigned fl = 0, st = 0;
    if (rc == 0) { for (int x = 0; x < ND; x++) if (D[x].dbi == di && D[x].open != n + 1) { D[x].dbi = 9999; D[x].open = 0; } /* a number used again: the old handle is gone */
      D[d].dbi = di; D[d].ks = ks; D[d].vs = vs; D[d].open = n + 1; mdbx_dbi_flags_ex(T[t], di, &fl, &st); D[d].flags = fl & 0x7e; for (int x = 0; x < ND; x++) if (D[x].dbi == di) D[x].flags = fl & 0x7e; }
    o(b, ",\"t\":%d,\"d\":%d,\"n\":%d,\"f\":%ld,\"r\":%d,\"dbi\":%d,\"fl\":%d,\"st\":%d", t, d, n, f & 0x7fffffff, rc, (int)di, (int)(fl & 0x7e), (int)st); }
  else if (IS("dclose")) { int d = (int)nxi(&p); rc = mdbx_dbi_close(env, D[d].dbi); if (rc == 0) D[d].open = 0; o(b, ",\"d\":%d,\"r\":%d", d, rc); }
  else if (IS("drename")) { int t = (int)nxi(&p), d = (int)nxi(&p), n = (int)nxi(&p); char nm[64]; tname(n, nm); MDBX_dbi di = D[d].dbi; rc = mdbx_dbi_rename(T[t], di, nm); if (rc == 0) for (int x = 0; x < ND; x++) if (D[x].dbi == di) D[x].open = n + 1; o(b, ",\"t\":%d,\"d\":%d,\"n\":%d,\"r\":%d", t, d, n, rc); }
  else if (IS("drop")) { int t = (int)nxi(&p), d = (int)nxi(&p); long del = nxi(&p); rc = mdbx_drop(T[t], D[d].dbi, del != 0); o(b, ",\"t\":%d,\"d\":%d,\"del\":%ld,\"r\":%d", t, d, del, rc); }
  else if (IS("estat")) { int t = (int)nxi(&p); MDBX_stat st; memset(&st, 0, sizeof(st)); rc = t >= 0 && !T[t] ? MDBX_EINVAL : mdbx_env_stat_ex(env, t < 0 ? NULL : T[t], &st, sizeof(st)); o(b, ",\"t\":%d,\"r\":%d,\"n\":%d,\"dep\":%d,\"bp\":%d,\"lp\":%d,\"op\":%d", t, rc, (int)st.ms_entries, (int)st.ms_depth, (int)st.ms_branch_pages, (int)st.ms_leaf_pages, (int)st.ms_overflow_pages); }
  else if (IS("dstat")) { int t = (int)nxi(&p), d = (int)nxi(&p); MDBX_stat st; memset(&st, 0, sizeof(st)); rc = mdbx_dbi_stat(T[t], D[d].dbi, &st, sizeof(st)); o(b, ",\"t\":%d,\"d\":%d,\"r\":%d,\"n\":%d,\"dep\":%d,\"bp\":%d,\"lp\":%d,\"op\":%d,\"mod\":%d", t, d, rc, (int)st.ms_entries, (int)st.ms_depth, (int)st.ms_branch_pages, (int)st.ms_leaf_pages, (int)st.ms_overflow_pages, (int)st.ms_mod_txnid); }
  else if (IS("dflags")) { int t = (int)nxi(&p), d = (int)nxi(&p); unsigned f = 0, s = 0; rc = mdbx_dbi_flags_ex(T[t], D[d].dbi, &f, &s); o(b, ",\"t\":%d,\"d\":%d,\"r\":%d,\"f\":%u,\"s\":%u", t, d, rc, f & 0x7e, s); }
  else if (IS("seq")) { int t = (int)nxi(&p), d = (int)nxi(&p); long inc = nxi(&p); uint64_t x = 0; rc = mdbx_dbi_sequence(T[t], D[d].dbi, &x, (uint64_t)inc); o(b, ",\"t\":%d,\"d\":%d,\"inc\":%ld,\"r\":%d,\"x\":%d", t, d, inc, rc, rc == 0 || rc == -1 ? (int)x : 0); }
  else if (IS("enum")) { int t = (int)nxi(&p); o(b, ",\"t\":%d,\"l\":[", t); rc = mdbx_enumerate_tables(T[t], enum_cb, b); o(b, "],\"r\":%d", rc); }
  else if (IS("canput")) { int t = (int)nxi(&p); long nul = nxi(&p); MDBX_canary ca = {0, 0, 0, 0}; ca.x = (uint64_t)nxi(&p); ca.y = (uint64_t)nxi(&p); ca.z = (uint64_t)nxi(&p); ca.v = 77; rc = mdbx_canary_put(T[t], nul ? 0 : &ca); o(b, ",\"t\":%d,\"nul\":%ld,\"x\":%d,\"y\":%d,\"z\":%d,\"r\":%d", t, nul, (int)ca.x, (int)ca.y, (int)ca.z, rc); }
  else if (IS("canget")) { int t = (int)nxi(&p); MDBX_canary ca; memset(&ca, 0, sizeof(ca)); rc = mdbx_canary_get(T[t], &ca); o(b, ",\"t\":%d,\"r\":%d,\"x\":%d,\"y\":%d,\"z\":%d,\"v\":%d", t, rc, (int)ca.x, (int)ca.y, (int)ca.z, (int)ca.v); }
  else if (IS("get") || IS("getge") || IS("getex")) {
    int t = (int)nxi(&p), d = (int)nxi(&p), kk = (int)nxi(&p), vv = (int)nxi(&p); size_t n = 0; k.iov_base = kb; k.iov_len = enc_key(kb, &D[d], (unsigned)kk); if (vv) { v.iov_base = vb; v.iov_len = enc_val(vb, &D[d], (unsigned)vv); }
    rc = IS("get") ? mdbx_get(T[t], D[d].dbi, &k, &v) : IS("getge") ? mdbx_get_equal_or_great(T[t], D[d].dbi, &k, &v) : mdbx_get_ex(T[t], D[d].dbi, &k, &v, &n);
    o(b, ",\"t\":%d,\"d\":%d,\"k\":%d,\"v\":%d", t, d, kk, vv); hand(b, &D[d], rc, &k, &v); o(b, ",\"n\":%d", (int)n); }
  else if (IS("put")) { int t = (int)nxi(&p), d = (int)nxi(&p), kk = (int)nxi(&p), vv = (int)nxi(&p); long f = nxi(&p); k.iov_base = kb; k.iov_len = enc_key(kb, &D[d], (unsigned)kk); v.iov_len = enc_val(vb, &D[d], (unsigned)vv); v.iov_base = (f & MDBX_RESERVE) ? 0 : vb;
    rc = mdbx_put(T[t], D[d].dbi, &k, &v, (MDBX_put_flags_t)f); if (rc == 0 && (f & MDBX_RESERVE)) memcpy(v.iov_base, vb, enc_val(vb, &D[d], (unsigned)vv));
    o(b, ",\"t\":%d,\"d\":%d,\"k\":%d,\"v\":%d,\"f\":%ld,\"r\":%d,\"ov\":%d", t, d, kk, vv, f, rc, rc == MDBX_KEYEXIST && (f & (MDBX_NOOVERWRITE)) && !(f & MDBX_RESERVE) ? dec_val(&D[d], &v) : 0); }
  else if (IS("putm")) { /* cursor put multiple: C k f v1 v2 .. */
    int c = (int)nxi(&p), kk = (int)nxi(&p); long f = nxi(&p); struct dbh *h = &D[Cd[c]]; int n = 0; size_t one = 0; MDBX_val a[2]; o(b, ",\"c\":%d,\"k\":%d,\"f\":%ld,\"vs\":[", c, kk, f);
    while (1) { while (*p == ' ') p++; if (!*p) break; int vv = (int)nxi(&p); one = enc_val(xb, h, (unsigned)vv); memcpy(vb + (size_t)n * one, xb, one); o(b, "%s%d", n ? "," : "", vv); n++; }
    k.iov_base = kb; k.iov_len = enc_key(kb, h, (unsigned)kk); a[0].iov_base = vb; a[0].iov_len = one; a[1].iov_base = 0; a[1].iov_len = (size_t)n;
    rc = mdbx_cursor_put(C[c], &k, a, (MDBX_put_flags_t)f | MDBX_MULTIPLE); o(b, "],\"r\":%d,\"n\":%d", rc, (int)a[1].iov_len); }
  else if (IS("del")) { int t = (int)nxi(&p), d = (int)nxi(&p), kk = (int)nxi(&p), vv = (int)nxi(&p); k.iov_base = kb; k.iov_len = enc_key(kb, &D[d], (unsigned)kk); if (vv) { v.iov_base = vb; v.iov_len = enc_val(vb, &D[d], (unsigned)vv); }
    rc = mdbx_del(T[t], D[d].dbi, &k, vv ? &v : 0); o(b, ",\"t\":%d,\"d\":%d,\"k\":%d,\"v\":%d,\"r\":%d", t, d, kk, vv, rc); }
  else if (IS("replace")) { int t = (int)nxi(&p), d = (int)nxi(&p), kk = (int)nxi(&p), vv = (int)nxi(&p), ov = (int)nxi(&p); long f = nxi(&p); k.iov_base = kb; k.iov_len = enc_key(kb, &D[d], (unsigned)kk); if (vv) { v.iov_base = vb; v.iov_len = enc_val(vb, &D[d], (unsigned)vv); }
    static __thread unsigned char *ob; if (!ob) ob = malloc(BUFSZ);
    MDBX_val old = {ob, BUFSZ}; if (ov) old.iov_len = enc_val(ob, &D[d], (unsigned)ov);
    rc = mdbx_replace(T[t], D[d].dbi, &k, vv ? &v : 0, &old, (MDBX_put_flags_t)f);
    o(b, ",\"t\":%d,\"d\":%d,\"k\":%d,\"v\":%d,\"ov\":%d,\"f\":%ld,\"r\":%d,\"old\":%d", t, d, kk, vv, ov, f, rc, rc == 0 && !ov && old.iov_base ? dec_val(&D[d], &old) : 0); }
  else if (IS("copen")) { int c = (int)nxi(&p), t = (int)nxi(&p), d = (int)nxi(&p); rc = mdbx_cursor_open(T[t], D[d].dbi, &C[c]); if (rc) C[c] = 0; Cd[c] = d; o(b, ",\"c\":%d,\"t\":%d,\"d\":%d,\"r\":%d", c, t, d, rc); }
  else if (IS("cclose")) { int c = (int)nxi(&p); rc = mdbx_cursor_close2(C[c]); C[c] = 0; o(b, ",\"c\":%d,\"r\":%d", c, rc); }
  else if (IS("cbind")) { int c = (int)nxi(&p), t = (int)nxi(&p), d = (int)nxi(&p); int made = !C[c]; if (made) C[c] = mdbx_cursor_create(0); rc = mdbx_cursor_bind(T[t], C[c], D[d].dbi); if (!rc) Cd[c] = d; else if (made) { mdbx_cursor_close(C[c]); C[c] = 0; } o(b, ",\"c\":%d,\"t\":%d,\"d\":%d,\"r\":%d", c, t, d, rc); }
  else if (IS("crenew")) { int c = (int)nxi(&p), t = (int)nxi(&p); rc = mdbx_cursor_renew(T[t], C[c]); o(b, ",\"c\":%d,\"t\":%d,\"d\":%d,\"r\":%d", c, t, Cd[c], rc); }
  else if (IS("cunbind")) { int c = (int)nxi(&p); rc = mdbx_cursor_unbind(C[c]); o(b, ",\"c\":%d,\"r\":%d", c, rc); }
  else if (IS("creset")) { int c = (int)nxi(&p); rc = mdbx_cursor_reset(C[c]); o(b, ",\"c\":%d,\"r\":%d", c, rc); }
  else if (IS("ccopy")) { int c = (int)nxi(&p), c2 = (int)nxi(&p); rc = mdbx_cursor_copy(C[c], C[c2]); if (!rc) Cd[c2] = Cd[c]; o(b, ",\"c\":%d,\"c2\":%d,\"r\":%d", c, c2, rc); }
  else if (IS("ccmp")) { int c = (int)nxi(&p), c2 = (int)nxi(&p); long ig = nxi(&p); rc = mdbx_cursor_compare(C[c], C[c2], ig != 0); o(b, ",\"c\":%d,\"c2\":%d,\"ig\":%ld,\"r\":%d", c, c2, ig, rc); }
  else if (IS("cget")) { int c = (int)nxi(&p); unsigned cop = (unsigned)nxi(&p); int kk = (int)nxi(&p), vv = (int)nxi(&p); struct dbh *h = &D[Cd[c]]; if (kk) { k.iov_base = kb; k.iov_len = enc_key(kb, h, (unsigned)kk); } if (vv) { v.iov_base = vb; v.iov_len = enc_val(vb, h, (unsigned)vv); }
    rc = mdbx_cursor_get(C[c], &k, &v, (MDBX_cursor_op)cop); Cs[c] = rc == 0 && !is_multi(cop) ? Cmod + 1 : 0; if (rc == 0 || rc == -1) Lost[c] = 0; else if (!Lost[c]) Lost[c] = Wmod + 1; o(b, ",\"c\":%d,\"op\":%u,\"k\":%d,\"v\":%d", c, cop, kk, vv);
    if (is_multi(cop)) { hand(b, h, rc, &k, 0); if (rc == 0 && v.iov_base && v.iov_len) multi(b, h, &v); else o(b, ",\"m\":[]"); } else hand(b, h, rc, &k, &v); }
  else if (IS("cput")) { int c = (int)nxi(&p), kk = (int)nxi(&p), vv = (int)nxi(&p); long f = nxi(&p), np = nxi(&p); if (f & MDBX_CURRENT) probe(b, c, np != 0); struct dbh *h = &D[Cd[c]]; k.iov_base = kb; k.iov_len = enc_key(kb, h, (unsigned)kk); v.iov_len = enc_val(vb, h, (unsigned)vv); v.iov_base = (f & MDBX_RESERVE) ? 0 : vb;
    rc = mdbx_cursor_put(C[c], &k, &v, (MDBX_put_flags_t)f); if (rc == 0 && (f & MDBX_RESERVE)) memcpy(v.iov_base, vb, enc_val(vb, h, (unsigned)vv)); if (rc == 0) Cs[c] = ++Cmod + 1, Lost[c] = 0; o(b, ",\"c\":%d,\"k\":%d,\"v\":%d,\"f\":%ld,\"r\":%d", c, kk, vv, f, rc); }
  else if (IS("cdel")) { int c = (int)nxi(&p); long f = nxi(&p), np = nxi(&p); int pr = probe(b, c, np != 0); rc = pr ? pr /* nothing to delete: not specified further */ : mdbx_cursor_del(C[c], (MDBX_put_flags_t)f); if (rc == 0) Cs[c] = ++Cmod + 1; o(b, ",\"c\":%d,\"f\":%ld,\"r\":%d", c, f, rc); }
  else if (IS("ccount")) { int c = (int)nxi(&p); size_t n = 0; rc = mdbx_cursor_count(C[c], &n); o(b, ",\"c\":%d,\"r\":%d,\"n\":%d", c, rc, rc == 0 ? (int)n : 0); }
  else if (IS("ceof")) { int c = (int)nxi(&p); o(b, ",\"c\":%d,\"r\":%d,\"of\":%d,\"ol\":%d,\"ofd\":%d,\"old\":%d", c, mdbx_cursor_eof(C[c]), mdbx_cursor_on_first(C[c]), mdbx_cursor_on_last(C[c]), mdbx_cursor_on_first_dup(C[c]), mdbx_cursor_on_last_dup(C[c])); }
  else if (IS("cscan")) { int c = (int)nxi(&p); unsigned s = (unsigned)nxi(&p), tn = (unsigned)nxi(&p); int a[3]; a[0] = (int)nxi(&p); a[1] = (int)nxi(&p); a[2] = 0; struct dbh *h = &D[Cd[c]]; rc = mdbx_cursor_scan(C[c], pred_cb, a, (MDBX_cursor_op)s, (MDBX_cursor_op)tn, h); o(b, ",\"c\":%d,\"s\":%u,\"tn\":%u,\"pk\":%d,\"pv\":%d,\"r\":%d,\"n\":%d", c, s, tn, a[0], a[1], rc, a[2]); }
  else if (IS("cscanf")) { int c = (int)nxi(&p); unsigned s = (unsigned)nxi(&p), tn = (unsigned)nxi(&p); int kk = (int)nxi(&p), vv = (int)nxi(&p), a[3]; a[0] = (int)nxi(&p); a[1] = (int)nxi(&p); a[2] = 0; struct dbh *h = &D[Cd[c]]; k.iov_base = kb; k.iov_len = enc_key(kb, h, (unsigned)kk); if (vv) { v.iov_base = vb; v.iov_len = enc_val(vb, h, (unsigned)vv); }
    rc = mdbx_cursor_scan_from(C[c], pred_cb, a, (MDBX_cursor_op)s, &k, vv || s == 19 || s == 20 ? &v : 0, (MDBX_cursor_op)tn, h); o(b, ",\"c\":%d,\"s\":%u,\"tn\":%u,\"k\":%d,\"v\":%d,\"pk\":%d,\"pv\":%d,\"r\":%d,\"n\":%d", c, s, tn, kk, vv, a[0], a[1], rc, a[2]); }
  else if (IS("batch")) { int c = (int)nxi(&p); unsigned cop = (unsigned)nxi(&p); int lim = (int)nxi(&p); MDBX_val pr[600]; size_t n = 0; struct dbh *h = &D[Cd[c]]; rc = mdbx_cursor_get_batch(C[c], &n, pr, (size_t)lim, (MDBX_cursor_op)cop); o(b, ",\"c\":%d,\"op\":%u,\"lim\":%d,\"r\":%d,\"b\":[", c, cop, lim, rc); for (size_t i = 0; i + 1 < n; i += 2) o(b, "%s[%d,%d]", i ? "," : "", dec_key(h, &pr[i]), dec_val(h, &pr[i + 1])); o(b, "]"); }
  else if (IS("cdist")) { int c = (int)nxi(&p), c2 = (int)nxi(&p); unsigned deep = (unsigned)nxi(&p); intptr_t n = 0; rc = mdbx_cursor_distance(c >= 0 ? C[c] : 0, c2 >= 0 ? C[c2] : 0, &n, deep); o(b, ",\"c\":%d,\"c2\":%d,\"deep\":%u,\"r\":%d,\"n\":%d", c, c2, deep, rc, rc == 0 || rc == -1 ? (int)n : 0); }
  else if (IS("cscroll")) { int c = (int)nxi(&p); long n = nxi(&p); unsigned deep = (unsigned)nxi(&p); rc = mdbx_cursor_scroll(C[c], n, deep); if (rc) Cs[c] = 0; if (rc && !Lost[c]) Lost[c] = Wmod + 1; o(b, ",\"c\":%d,\"n\":%ld,\"deep\":%u,\"r\":%d", c, n, deep, rc); }
  else if (IS("cdistr")) { int c = (int)nxi(&p), c2 = (int)nxi(&p); int base = (int)nxi(&p), n = (int)nxi(&p); unsigned deep = (unsigned)nxi(&p); MDBX_cursor *a[NC]; for (int i = 0; i < n; i++) a[i] = C[base + i]; rc = mdbx_cursor_distribute(c >= 0 ? C[c] : 0, c2 >= 0 ? C[c2] : 0, a, n, deep); struct dbh *h = &D[Cd[base]];
    o(b, ",\"c\":%d,\"c2\":%d,\"base\":%d,\"n\":%d,\"deep\":%u,\"r\":%d,\"a\":[", c, c2, base, n, deep, rc); for (int i = 0; i < n; i++) { MDBX_val kx = {0, 0}, vx = {0, 0}; int eof = mdbx_cursor_eof(a[i]); int r2 = eof ? -1 : mdbx_cursor_get(a[i], &kx, &vx, MDBX_GET_CURRENT); o(b, "%s[%d,%d,%d]", i ? "," : "", r2, r2 ? 0 : dec_key(h, &kx), r2 ? 0 : dec_val(h, &vx)); } o(b, "]"); }
  else if (IS("cdelr")) { int c = (int)nxi(&p), c2 = (int)nxi(&p); long inc = nxi(&p); uint64_t n = 0; rc = mdbx_cursor_delete_range(c >= 0 ? C[c] : 0, c2 >= 0 ? C[c2] : 0, inc != 0, &n); o(b, ",\"c\":%d,\"c2\":%d,\"inc\":%ld,\"r\":%d,\"n\":%d", c, c2, inc, rc, (int)n); }
  else if (IS("cbunch")) { int c = (int)nxi(&p); unsigned a = (unsigned)nxi(&p); uint64_t n = 0; rc = mdbx_cursor_bunch_delete(C[c], (MDBX_bunch_action_t)a, &n); o(b, ",\"c\":%d,\"a\":%u,\"r\":%d,\"n\":%d", c, a, rc, (int)n); }
  else if (IS("cinfo")) { /* dbi/txn of a cursor */ int c = (int)nxi(&p); int tt = -1; MDBX_txn *tx = mdbx_cursor_txn(C[c]); for (int i = 0; i < NT; i++) if (T[i] && T[i] == tx) tt = i; o(b, ",\"c\":%d,\"r\":0,\"t\":%d", c, tt); }
  else if (IS("crelease")) { int t = (int)nxi(&p); long ub = nxi(&p); size_t n = 0; rc = mdbx_txn_release_all_cursors_ex(T[t], ub != 0, &n); o(b, ",\"t\":%d,\"ub\":%ld,\"r\":%d,\"n\":%d", t, ub, rc, (int)n); if (!ub) { while (1) { while (*p == ' ') p++; if (!*p) break; C[nxi(&p)] = 0; } } }
  else if (IS("estm")) { int c = (int)nxi(&p), c2 = (int)nxi(&p); ptrdiff_t n = 0; rc = mdbx_estimate_distance(C[c], C[c2], &n); o(b, ",\"c\":%d,\"c2\":%d,\"r\":%d,\"n\":%d", c, c2, rc, (int)n); }
  else if (IS("cache")) { int t = (int)nxi(&p), d = (int)nxi(&p), kk = (int)nxi(&p), ce = (int)nxi(&p); long st = nxi(&p); k.iov_base = kb; k.iov_len = enc_key(kb, &D[d], (unsigned)kk); MDBX_cache_result_t r = st ? mdbx_cache_get_SingleThreaded(T[t], D[d].dbi, &k, &v, &CE[ce]) : mdbx_cache_get(T[t], D[d].dbi, &k, &v, &CE[ce]);
    int rv = r.errcode == 0 ? dec_val(&D[d], &v) : 0;
    MDBX_val v2; int r2 = mdbx_get(T[t], D[d].dbi, &k, &v2);
    o(b, ",\"t\":%d,\"d\":%d,\"k\":%d,\"ce\":%d,\"st1\":%ld,\"r\":%d,\"rv\":%d,\"s\":%d,\"r2\":%d", t, d, kk, ce, st, r.errcode, rv, (int)r.status, r2); }
  else if (IS("cachex")) { /* threads race for fresh entries */
    int d = (int)nxi(&p), kk = (int)nxi(&p), n = (int)nxi(&p); struct racer R[8]; int m = 0; static MDBX_cache_entry_t E[4096];
    if (n > 4096) n = 4096;
    k.iov_base = kb; k.iov_len = enc_key(kb, &D[d], (unsigned)kk); memset(E, 0, sizeof E);
    while (*p && m < 8) { long t = nxi(&p); memset(&R[m], 0, sizeof R[m]); R[m].t = (int)t; R[m].d = d; R[m].n = n; R[m].e = E; R[m].k = k; m++; }
    pthread_barrier_t ba; pthread_barrier_init(&ba, 0, (unsigned)m);
    for (int i = 0; i < m; i++) R[i].ba = &ba, pthread_create(&R[i].th, 0, racer, &R[i]);
    for (int i = 0; i < m; i++) pthread_join(R[i].th, 0);
    pthread_barrier_destroy(&ba);
    o(b, ",\"d\":%d,\"k\":%d,\"r\":0,\"l\":[", d, kk); int c0 = 0;
    for (int i = 0; i < m; i++) for (int j = 0; j < R[i].nres; j++) o(b, "%s[%d,%d,%d,%d]", c0++ ? "," : "", R[i].t, R[i].res[j].r, R[i].res[j].v, R[i].res[j].s);
    o(b, "]"); }
  else if (IS("cacheinit")) { int ce = (int)nxi(&p); mdbx_cache_init(&CE[ce]); o(b, ",\"ce\":%d,\"r\":0", ce); }
  else if (IS("dump")) { int t = (int)nxi(&p), d = (int)nxi(&p); o(b, ",\"t\":%d,\"d\":%d,\"x\":", t, d); content(b, &D[d], T[t], &rc); o(b, ",\"r\":%d", rc); }
  else if (IS("chk")) { int pr; size_t ig[4]; rc = run_chk(dbpath, env, &pr, ig); o(b, ",\"r\":%d,\"prob\":%d,\"tables\":%d", rc, pr, (int)ig[1]); }
  else if (IS("chkro")) { int pr; size_t ig[4]; rc = run_chk(dbpath, 0, &pr, ig); o(b, ",\"r\":%d,\"prob\":%d,\"tables\":%d", rc, pr, (int)ig[1]); }
  else if (IS("copy")) { int t = (int)nxi(&p); long f = nxi(&p), mode = nxi(&p); char to[700]; sprintf(to, "%s/copy.db", dbdir); unlink(to); char tl[720]; sprintf(tl, "%s-lck", to); unlink(tl);
    if (mode == 3) { int fd = open(to, O_RDWR | O_CREAT | O_TRUNC, 0644); for (int n = 0; n < (int)(f >> 8); n++) { char g[4096]; memset(g, 0xee, sizeof(g)); wr_all(fd, g, sizeof g); } close(fd); f &= 255; }
    if (mode != 2) copying = 1;
    if (mode == 0 || mode == 3) rc = t >= 0 ? mdbx_txn_copy2pathname(T[t], to, (MDBX_copy_flags_t)f) : mdbx_env_copy(env, to, (MDBX_copy_flags_t)f);
    else if (mode == 1) { int fd = open(to, O_RDWR | O_CREAT | O_TRUNC, 0644); rc = t >= 0 ? mdbx_txn_copy2fd(T[t], fd, (MDBX_copy_flags_t)f) : mdbx_env_copy2fd(env, fd, (MDBX_copy_flags_t)f); close(fd); }
    else { copy_begin(t, f); copy_drain(-1); rc = copy_join(to); }
    if (mode != 2) copying = 0;
    if ((f & MDBX_CP_DISPOSE_TXN) && t >= 0) T[t] = 0;
    o(b, ",\"t\":%d,\"f\":%ld,\"mode\":%ld", t, f, mode); copy_result(b, to, rc); }
  else if (IS("cpio")) { cpio = (int)nxi(&p); o(b, ",\"r\":0"); }
  else if (IS("copybeg")) { int t = (int)nxi(&p); long f = nxi(&p); copy_begin(t, f); copy_drain(0); o(b, ",\"t\":%d,\"f\":%ld,\"r\":0", t, f); }
  else if (IS("copystep")) { long n = nxi(&p); o(b, ",\"n\":%ld,\"r\":0,\"got\":%ld,\"fin\":%d", n, copy_drain(n), cpy.done); }
  else if (IS("copyend")) { char to[700]; sprintf(to, "%s/copy.db", dbdir); unlink(to); char tl[720]; sprintf(tl, "%s-lck", to); unlink(tl); copy_drain(-1); rc = copy_join(to); int t = cpy.t;
    if ((cpy.f & MDBX_CP_DISPOSE_TXN) && t >= 0) T[t] = 0;
    o(b, ",\"t\":%d,\"f\":%ld", t, cpy.f); copy_result(b, to, rc); }
  else if (IS("defrag")) { int t = (int)nxi(&p); long a[6]; for (int i = 0; i < 6; i++) a[i] = nxi(&p); long cbm = nxi(&p), cbn = nxi(&p);
    MDBX_envinfo i0, i1; memset(&i0, 0, sizeof(i0)); memset(&i1, 0, sizeof(i1)); mdbx_env_info_ex(env, 0, &i0, sizeof(i0));
    dfg_mode = cbm; dfg_n = cbn; dfg_calls = 0;
    MDBX_defrag_result_t res; memset(&res, 0, sizeof(res)); rc = mdbx_env_defrag(env, (size_t)a[0], (size_t)a[1], (size_t)a[2], (size_t)a[3], a[4], a[5], cbm ? dfg_cb : 0, cbm ? &dfg_mode : 0, &res);
    mdbx_env_info_ex(env, 0, &i1, sizeof(i1));
    int fl = t >= 0 && T[t] ? mdbx_txn_flags(T[t]) : 0, end = t >= 0 && (fl == MDBX_TXN_INVALID || (fl & MDBX_TXN_FINISHED)); long id = t >= 0 && !end && T[t] ? (long)mdbx_txn_id(T[t]) : 0; if (end) { kids_gone(t); T[t] = 0; }
    o(b, ",\"t\":%d,\"bad\":%d,\"r\":%d,\"cyc\":%d,\"moved\":%d,\"why\":%u,\"shr\":%ld,\"rec\":%d,\"pg0\":%d,\"pg1\":%d,\"id\":%ld,\"end\":%d,\"err\":%d,\"io\":%d", t, (a[2] && a[2] < a[0]) || (a[3] && a[3] < a[1]), rc, (int)res.cycles, (int)res.pages_moved, res.stopping_reasons, (long)res.pages_shrinked, (int)i1.mi_recent_txnid, (int)i0.mi_last_pgno, (int)i1.mi_last_pgno, id, end, !end && (fl & MDBX_TXN_ERROR) ? 1 : 0, cpio); }
  else if (IS("gcinfo")) { int t = (int)nxi(&p); long stop = nxi(&p); MDBX_gc_info_t i; memset(&i, 0, sizeof(i)); MDBX_stat st; memset(&st, 0, sizeof(st));
    memset(&gci, 0, sizeof(gci)); gci.stop = stop; gci.t = t; int rs = T[t] ? mdbx_env_stat_ex(env, T[t], &st, sizeof(st)) : 22;
    rc = mdbx_gc_info(T[t], &i, sizeof(i), stop < 0 ? 0 : gci_cb, stop < 0 ? 0 : &gci); free(gci.map);
    o(b, ",\"t\":%d,\"stop\":%ld,\"r\":%d,\"rs\":%d,\"total\":%d,\"backed\":%d,\"alloc\":%d,\"gcp\":%d,\"gcr\":%d,\"pay\":%d,\"calls\":%d,\"sum\":%d,\"sumr\":%d,\"badspan\":%d,\"mxr\":%d", t, stop, rc, rs, (int)i.pages_total, (int)i.pages_backed, (int)i.pages_allocated, (int)i.pages_gc, (int)i.gc_reclaimable.pages, (int)(st.ms_branch_pages + st.ms_leaf_pages + st.ms_overflow_pages), gci.calls, gci.sum, gci.sumr, gci.bad, (int)gci.mxr); }
  else if (IS("hsr")) { hsr_mode = (int)nxi(&p); hsr_calls = 0; rc = mdbx_env_set_hsr(env, hsr_mode ? hsr_cb : 0); o(b, ",\"m\":%d,\"r\":%d", hsr_mode, rc); }
  else if (IS("hsrq")) { o(b, ",\"r\":0,\"n\":%d,\"lag\":%d", hsr_calls, hsr_last); hsr_calls = 0; }
  else if (IS("rlist")) { o(b, ",\"l\":["); rc = mdbx_reader_list(env, rl_cb, b); o(b, "],\"r\":%d", rc); }
  else if (IS("rfill")) { long n = nxi(&p); rc = 0; int k = 0; uint64_t id = 0; while (k < n && Nfill < 512) { rc = mdbx_txn_begin_ex(env, 0, MDBX_TXN_RDONLY, &Fill[Nfill], 0); if (rc) break; uint64_t i = mdbx_txn_id(Fill[Nfill]); if (k && i != id) rc = -99; id = i; Nfill++; k++; } o(b, ",\"r\":%d,\"n\":%d,\"id\":%d", rc, k, (int)id); }
  else if (IS("rdrain")) { int k = 0; rc = 0; while (Nfill > 0) { int x = mdbx_txn_abort(Fill[--Nfill]); if (x) rc = x; k++; } o(b, ",\"r\":%d,\"n\":%d", rc, k); }
  else if (IS("racew")) { int d = (int)nxi(&p); long n = nxi(&p), sd = nxi(&p), m = nxi(&p), V = nxi(&p); racew(b, d, n, (uint64_t)sd * 2654435761u + 88172645463325252ull, (int)m, V ? (int)V : 1); }
  else if (IS("racer")) { int d = (int)nxi(&p); long n = nxi(&p), sd = nxi(&p), m = nxi(&p); racerd(b, d, n, (uint64_t)sd * 2654435761u + 88172645463325252ull, (int)m); }
  else if (IS("rcheck")) { int dead = 0; rc = mdbx_reader_check(env, &dead); o(b, ",\"r\":%d,\"dead\":%d", rc, dead); }
  else if (IS("treg")) { rc = mdbx_thread_register(env); o(b, ",\"r\":%d", rc); }
  else if (IS("tunreg")) { rc = mdbx_thread_unregister(env); o(b, ",\"r\":%d", rc); }
  else if (IS("lock")) { long dw = nxi(&p); rc = mdbx_txn_lock(env, dw != 0); o(b, ",\"r\":%d", rc); }
  else if (IS("unlock")) { rc = mdbx_txn_unlock(env); o(b, ",\"r\":%d", rc); }
  else if (IS("dirty")) { int t = (int)nxi(&p), d = (int)nxi(&p), kk = (int)nxi(&p); k.iov_base = kb; k.iov_len = enc_key(kb, &D[d], (unsigned)kk); rc = mdbx_get(T[t], D[d].dbi, &k, &v); int dr = rc ? 0 : mdbx_is_dirty(T[t], v.iov_base); o(b, ",\"t\":%d,\"d\":%d,\"k\":%d,\"r\":%d,\"dr\":%d", t, d, kk, rc, dr); }
  else if (IS("usleep")) { usleep((useconds_t)nxi(&p)); o(b, ",\"r\":0"); }
  else if (IS("unlinkdb")) { unlink(dbpath); char tl[720]; sprintf(tl, "%s-lck", dbpath); unlink(tl); o(b, ",\"r\":0"); }
  else if (IS("gwatch")) { gwatch = (int)nxi(&p); o(b, ",\"r\":0"); }
  else if (IS("filehash")) { int fd = open(dbpath, O_RDONLY); unsigned long long h = 1469598103934665603ull; char bb[65536]; ssize_t n; while ((n = read(fd, bb, sizeof bb)) > 0) for (ssize_t i = 0; i < n; i++) h = (h ^ (unsigned char)bb[i]) * 1099511628211ull; close(fd); o(b, ",\"r\":0,\"h\":%d", (int)(h >> 33)); }
#ifdef IOSIM
  else if (IS("sim")) { iosim_start(dbpath, dbdir); o(b, ",\"r\":0"); }
  else if (IS("images")) { long rate = nxi(&p), max = nxi(&p), seed = nxi(&p); iosim_metas = 3 * ps; iosim_images((unsigned)rate, (unsigned)max, (uint64_t)seed); o(b, ",\"r\":0"); }
  else if (IS("watch")) { watching = (int)nxi(&p); pages_forget(); o(b, ",\"r\":0"); }
  else if (IS("imgkill")) { iosim_kill_image(); o(b, ",\"r\":0"); }
  else if (IS("fault")) { long m = nxi(&p), after = nxi(&p), er = nxi(&p), cnt = nxi(&p); iosim_metas = 3 * ps; iosim_fault((int)m, after, (int)er, cnt); o(b, ",\"m\":%ld,\"after\":%ld,\"err\":%ld,\"cnt\":%ld,\"r\":0", m, after, er, cnt); }
  else if (IS("faultq")) { int what; unsigned meta; long h = iosim_hits(&what, &meta); o(b, ",\"h\":%ld,\"what\":%d,\"meta\":%u,\"r\":0", h, what, meta); }
#endif
  else if (IS("usedb")) { char *nm = nx(&p); snprintf(dbpath, sizeof dbpath, "%s/%s", dbdir, nm); o(b, ",\"r\":0,\"s\":\"%s\"", nm); }
  else if (IS("note")) { o(b, ",\"s\":\"%s\",\"r\":0", p); }
  else o(b, ",\"bad\":1,\"r\":0");
}

static void on_sig(int s) {
  static const char *const nm = "{\"e\":\"crash\",\"sig\":";
  char buf[128]; int n = snprintf(buf, sizeof buf, "%s%d,\"r\":0}\n", nm, s);
  if (trace_fd >= 0) { if (write(trace_fd, buf, (size_t)n) < 0) {} }
  _exit(s == SIGALRM ? 8 : 7);
}
static void proc_loop(int in, int out) {
  FILE *f = fdopen(in, "r"); char *line = 0; size_t cap = 0; ssize_t n; struct out b = {0, 0, 0};
  while ((n = getline(&line, &cap, f)) > 0) {
    if (line[n - 1] == '\n') line[n - 1] = 0;
    b.n = 0; execop(line, &b); o(&b, "\n");
    size_t w = 0; while (w < b.n) { ssize_t k = write(out, b.p + w, b.n - w); if (k <= 0) _exit(3); w += (size_t)k; }
  }
  _exit(0);
}
static void *thread_loop(void *arg) {
  struct worker *w = arg; pthread_mutex_lock(&w->mx);
  while (1) {
    while (w->state != 1) pthread_cond_wait(&w->cv, &w->mx);
    if (!w->line) break;
    w->res.n = 0; execop(w->line, &w->res); o(&w->res, "%s", ""); w->state = 2; pthread_cond_broadcast(&w->cv);
  }
  w->state = 3; pthread_cond_broadcast(&w->cv); pthread_mutex_unlock(&w->mx);
  return 0;
}
static FILE *Wf[NW];
#ifdef IOSIM
static void pg_num(void *x, const char *f, long a, long c) { o(x, f, a, c); }
static void pg_str(void *x, const char *s) { o(x, "%s", s); }
static unsigned long cur_ln; static char *cur_line;
void iosim_image(int no, const char *strategy, int mid, unsigned pending) {
  char op[24] = ""; int t = -1; const char *p = cur_line ? cur_line : ""; while (*p && *p != ' ') p++; while (*p == ' ') p++;
  sscanf(p, "%23s %d", op, &t);
  fprintf(trace, "{\"i\":%lu,\"w\":0,\"e\":\"image\",\"img\":%d,\"st\":\"%s\",\"mid\":%d,\"op\":\"%s\",\"t\":%d,\"np\":%u,\"r\":0}\n", cur_ln, no, strategy, mid, op, t, pending); fflush(trace);
}
#endif
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  FILE *in = fopen(argv[1], "r"); if (!in) return 2;
  trace_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); if (trace_fd < 0) return 2;
  trace = fdopen(trace_fd, "a"); setvbuf(trace, 0, _IOLBF, 1 << 16);
  snprintf(dbdir, sizeof dbdir, "%s", argv[3]); snprintf(dbpath, sizeof dbpath, "%s/db", dbdir);
  if (getenv("DRV_TIMEOUT")) op_timeout = (unsigned)atoi(getenv("DRV_TIMEOUT"));
  if (getenv("DRV_VERBOSE")) mdbx_setup_debug(MDBX_LOG_NOTICE, MDBX_DBG_DONTCHANGE, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig;
  if (!getenv("DRV_NOSIG")) { sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); }
  sigaction(SIGALRM, &sa, 0); signal(SIGPIPE, SIG_IGN);
  Sh = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  char *line = 0; size_t cap = 0; ssize_t n; struct out b = {0, 0, 0}; unsigned long ln = 0;
  while ((n = getline(&line, &cap, in)) > 0) {
    ++ln; if (line[n - 1] == '\n') line[--n] = 0;
    if (!n || *line == '#') continue;
    char *p = line; int w = (int)nxi(&p); while (*p == ' ') p++;
    b.n = 0; o(&b, "{\"i\":%lu,\"w\":%d,", ln, w);
    alarm(op_timeout);
#ifdef IOSIM
    char curbuf[64]; snprintf(curbuf, sizeof curbuf, "%d %.50s", w, p); cur_line = curbuf; cur_ln = ln; iosim_opno++; iosim_op_begin();
#endif
    if (w > 0 && !strncmp(p, "spawn ", 6)) {
      int kind = p[6] == 't' ? 1 : 2; W[w].kind = kind; W[w].self = w;
      if (kind == 1) { pthread_mutex_init(&W[w].mx, 0); pthread_cond_init(&W[w].cv, 0); W[w].state = 0; pthread_create(&W[w].th, 0, thread_loop, &W[w]); }
      else { int a[2], c[2]; if (pipe(a) || pipe(c)) abort(); fflush(trace); pid_t pid = fork();
        if (!pid) { self_w = w; prctl(PR_SET_PDEATHSIG, SIGKILL); close(a[1]); close(c[0]); for (int i = 0; i < NW; i++) if (i != w && W[i].kind == 2) { close(W[i].to); close(W[i].from); } fclose(in); alarm(0); proc_loop(a[0], c[1]); }
        close(a[0]); close(c[1]); W[w].pid = pid; W[w].to = a[1]; W[w].from = c[0]; Wf[w] = fdopen(c[0], "r"); }
      o(&b, "\"e\":\"spawn\",\"kind\":%d,\"pid\":%d,\"r\":0", kind, kind == 2 ? (int)W[w].pid : (int)getpid());
    } else if (!strcmp(p, "join") && W[w].kind == 1) { pthread_mutex_lock(&W[w].mx); W[w].line = 0; W[w].state = 1; pthread_cond_broadcast(&W[w].cv); pthread_mutex_unlock(&W[w].mx); pthread_join(W[w].th, 0); W[w].kind = 0; o(&b, "\"e\":\"join\",\"r\":0"); }
    else if (!strcmp(p, "kill") && W[w].kind == 2 && W[w].pid > 0) { kill(W[w].pid, SIGKILL); int st; waitpid(W[w].pid, &st, 0); W[w].kind = 0; close(W[w].to); fclose(Wf[w]); o(&b, "\"e\":\"kill\",\"r\":0"); }
    else if (!strcmp(p, "exit") && W[w].kind == 2) { close(W[w].to); int st; waitpid(W[w].pid, &st, 0); W[w].kind = 0; fclose(Wf[w]); o(&b, "\"e\":\"exit\",\"r\":0"); }
    else if (!strncmp(p, "killin ", 7) && W[w].kind == 2) {       /* the process dies while it executes a call */
      char *q = p + 7; long us = nxi(&q); while (*q == ' ') q++; char nm[24]; int t = -1; sscanf(q, "%23s %d", nm, &t);
      if (write(W[w].to, q, strlen(q)) < 0 || write(W[w].to, "\n", 1) < 0) {}
      struct timespec a, z; clock_gettime(CLOCK_MONOTONIC, &a); do clock_gettime(CLOCK_MONOTONIC, &z); while ((z.tv_sec - a.tv_sec) * 1000000L + (z.tv_nsec - a.tv_nsec) / 1000 < us);
      kill(W[w].pid, SIGKILL); int st; waitpid(W[w].pid, &st, 0); W[w].kind = 0; close(W[w].to);
      char *l2 = 0; size_t c2 = 0; ssize_t k = getline(&l2, &c2, Wf[w]); int dn = k > 0 && strstr(l2, "\"r\":0") != 0; free(l2); fclose(Wf[w]);
      o(&b, "\"e\":\"killin\",\"op\":\"%s\",\"t\":%d,\"done\":%d,\"r\":0", nm, t, dn && WIFSIGNALED(st)); }
    else if (!strncmp(p, "race ", 5)) {                            /* calls of several workers at once: 0 race w op ... ; w op ... */
      int ws[NW], n2 = 0; char *q = p + 5; Sh->last = Sh->started = 0; Sh->inside = Sh->clash = 0; char *part[NW];
      while (*q && n2 < NW) { ws[n2] = (int)nxi(&q); while (*q == ' ') q++; part[n2] = q; char *z = strchr(q, ';'); n2++; if (!z) break; *z = 0; q = z + 1; while (*q == ' ') q++; }
      for (int i = 0; i < n2; i++) { int x = ws[i];
        if (W[x].kind == 2) { if (write(W[x].to, part[i], strlen(part[i])) < 0 || write(W[x].to, "\n", 1) < 0) {} }
        else if (W[x].kind == 1) { pthread_mutex_lock(&W[x].mx); W[x].line = part[i]; W[x].state = 1; pthread_cond_broadcast(&W[x].cv); pthread_mutex_unlock(&W[x].mx); } }
      o(&b, "\"e\":\"race\",\"x\":[");
      for (int i = 0; i < n2; i++) { int x = ws[i]; o(&b, "%s{\"w\":%d,", i ? "," : "", x);
        if (W[x].kind == 2) { char *l2 = 0; size_t c2 = 0; ssize_t k = getline(&l2, &c2, Wf[x]); if (k <= 0) { o(&b, "\"e\":\"crash\",\"r\":-1,\"l\":[]"); } else { if (l2[k - 1] == '\n') l2[--k] = 0; for (ssize_t y = 0; y < k; y += 400) o(&b, "%.*s", (int)(k - y > 400 ? 400 : k - y), l2 + y); } free(l2); }
        else if (W[x].kind == 1) { pthread_mutex_lock(&W[x].mx); while (W[x].state != 2) pthread_cond_wait(&W[x].cv, &W[x].mx); W[x].state = 0; pthread_mutex_unlock(&W[x].mx);
          for (size_t y = 0; y < W[x].res.n; y += 400) o(&b, "%.*s", (int)(W[x].res.n - y > 400 ? 400 : W[x].res.n - y), W[x].res.p + y); }
        o(&b, "}"); }
      o(&b, "],\"clash\":%d,\"r\":0", Sh->clash); }
    else if (W[w].kind == 0) execop(p, &b);
    else if (W[w].kind == 1) { pthread_mutex_lock(&W[w].mx); W[w].line = p; W[w].state = 1; pthread_cond_broadcast(&W[w].cv); while (W[w].state != 2) pthread_cond_wait(&W[w].cv, &W[w].mx); W[w].state = 0; pthread_mutex_unlock(&W[w].mx);
      for (size_t q = 0; q < W[w].res.n; q += 400) o(&b, "%.*s", (int)(W[w].res.n - q > 400 ? 400 : W[w].res.n - q), W[w].res.p + q); }
    else { if (write(W[w].to, p, strlen(p)) < 0 || write(W[w].to, "\n", 1) < 0) {} char *l2 = 0; size_t c2 = 0; ssize_t k = getline(&l2, &c2, Wf[w]);
      if (k <= 0) { int st; waitpid(W[w].pid, &st, 0); o(&b, "\"e\":\"crash\",\"sig\":%d,\"r\":0", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); o(&b, "}\n"); fwrite(b.p, 1, b.n, trace); fflush(trace); _exit(7); }
      if (l2[k - 1] == '\n') l2[--k] = 0;
      for (ssize_t q = 0; q < k; q += 400) o(&b, "%.*s", (int)(k - q > 400 ? 400 : k - q), l2 + q); free(l2); }
#ifdef IOSIM
    { long soft, hard; int mt; iosim_op_end(&soft, &hard, &mt); if (soft || hard) o(&b, ",\"fh\":%ld,\"fs\":%ld,\"fm\":%d", soft + hard, hard, mt); }
#endif
#ifdef IOSIM
    if (watching) pages_look(dbpath, ps, pg_num, pg_str, &b);
#endif
    if (gwatch) geo_look(&b);
    o(&b, "}\n"); fwrite(b.p, 1, b.n, trace); fflush(trace);
#ifdef IOSIM
    iosim_point(0);
#endif
  }
  for (int i = 0; i < NW; i++) if (W[i].kind == 2) kill(W[i].pid, SIGKILL);
  fflush(trace); _exit(0);
}
