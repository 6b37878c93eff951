/* Simulated storage under the real library: every call by which libmdbx
 * changes or flushes its data file goes through here (ld --wrap).  The page
 * cache is the real file; what would survive a power loss is tracked apart, per
 * 512-byte sector: the durable content plus all versions written since the last
 * flush that covers the sector.  An image of the file after a power loss takes,
 * for each sector, either the durable content or one of the pending versions.
 * Also makes chosen calls fail. */
#define _GNU_SOURCE 1
#include "iosim.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/vfs.h>
#include <unistd.h>

#define SEC 512u
#define NFD 1024
struct ver { struct ver *next; unsigned seq; unsigned char data[SEC]; };
struct sector { unsigned char *dur; struct ver *head, *tail; };
static struct sector *S; static size_t NS;
static size_t dur_size, cur_size; static int size_pending;
static unsigned wseq, npend;
static char path[700], dir[600];
static unsigned char kind[NFD]; /* 1 data file, 2 its dsync handle, 3 boot id */
static int anyfd = -1, on;
static struct { char *a; size_t n; } maps[8];
static uint64_t rs = 88172645463325252ull;
static unsigned rnd(unsigned n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return n ? (unsigned)((rs >> 11) % n) : 0; }
/* images */
static unsigned im_rate, im_max, im_no; static uint64_t last_hash; static unsigned last_op;
unsigned iosim_opno, iosim_metas = 3 * 4096;
/* faults */
static int f_mask, f_errno; static long f_after, f_count; static long f_hits, f_ops[2]; static int f_last, f_metaw; static unsigned f_lastmeta;
/* observers */
void (*iosim_on_write)(size_t off, size_t len, int mapped);
void (*iosim_before_sync)(void);

static const unsigned char zero[SEC];
static int real_fd(void) { return anyfd; }
static void need(size_t n) {
  if (n > NS) { size_t m = n + 1024; S = realloc(S, m * sizeof *S); memset(S + NS, 0, (m - NS) * sizeof *S); NS = m; }
}
static const unsigned char *latest(size_t i) { return S[i].tail ? S[i].tail->data : S[i].dur ? S[i].dur : zero; }
static void settle(size_t i) {
  if (!S[i].tail) return;
  if (!S[i].dur) S[i].dur = malloc(SEC);
  memcpy(S[i].dur, S[i].tail->data, SEC);
  for (struct ver *v = S[i].head, *n; v; v = n) { n = v->next; free(v); npend--; }
  S[i].head = S[i].tail = 0;
}
static int update(size_t i, const unsigned char *d) {
  if (!memcmp(latest(i), d, SEC)) return 0;
  struct ver *v = malloc(sizeof *v); v->next = 0; v->seq = wseq; memcpy(v->data, d, SEC);
  if (S[i].tail) S[i].tail->next = v; else S[i].head = v;
  S[i].tail = v; npend++;
  if (i * SEC < iosim_metas) f_metaw = 1;
  return 1;
}
extern ssize_t __real_pwrite64(int, const void *, size_t, off_t);
extern ssize_t __real_pwritev64(int, const struct iovec *, int, off_t);
extern ssize_t __real_write(int, const void *, size_t);
extern int __real_ftruncate64(int, off_t);
extern int __real_fdatasync(int), __real_fsync(int), __real_msync(void *, size_t, int);
extern int __real_open64(const char *, int, ...), __real_open(const char *, int, ...), __real_close(int);
extern void *__real_mmap64(void *, size_t, int, int, int, off_t), *__real_mremap(void *, size_t, size_t, int, ...);
extern int __real_munmap(void *, size_t), __real_fstatfs64(int, struct statfs64 *), __real_posix_fallocate64(int, off_t, off_t);
extern ssize_t __real_read(int, void *, size_t);

static void refresh(size_t off, size_t len, int mapped) {
  size_t a = off / SEC, b = (off + len + SEC - 1) / SEC, chunk = 256; unsigned char buf[256 * SEC];
  size_t run = (size_t)-1;
  need(b);
  for (; a < b; a += chunk) {
    size_t n = b - a < chunk ? b - a : chunk;
    memset(buf, 0, n * SEC);
    ssize_t k = pread(real_fd(), buf, n * SEC, (off_t)(a * SEC)); (void)k;
    for (size_t i = 0; i < n; i++) {
      int ch = update(a + i, buf + i * SEC);
      if (mapped && iosim_on_write) {
        if (ch && run == (size_t)-1) run = a + i;
        if (!ch && run != (size_t)-1) { iosim_on_write(run * SEC, (a + i - run) * SEC, 1); run = (size_t)-1; }
      }
    }
  }
  if (mapped && iosim_on_write && run != (size_t)-1) iosim_on_write(run * SEC, (b - run) * SEC, 1);
}
static int mapped_rw(void) { for (int i = 0; i < 8; i++) if (maps[i].a) return 1; return 0; }
static void scan(void) {
  if (on && anyfd >= 0 && mapped_rw()) { ++wseq; refresh(0, cur_size, 1); }
}
static void set_cur(size_t n) {
  if (n == cur_size) return;
  if (n < cur_size) { ++wseq; need((cur_size + SEC - 1) / SEC); for (size_t i = (n + SEC - 1) / SEC; i < (cur_size + SEC - 1) / SEC; i++) update(i, zero); }
  cur_size = n; size_pending = 1;
}
static void grown(void) { struct stat st; if (!fstat(real_fd(), &st) && (size_t)st.st_size != cur_size) set_cur((size_t)st.st_size); }
void iosim_durable(void *to, size_t n) { /* what surely is on the disk */
  unsigned char *d = to; for (size_t i = 0; i * SEC < n; i++) memcpy(d + i * SEC, i < NS && S[i].dur ? S[i].dur : zero, n - i * SEC < SEC ? n - i * SEC : SEC);
}
static void sync_range(size_t off, size_t len) {
  if (iosim_before_sync) iosim_before_sync();
  size_t a = off / SEC, b = (off + len + SEC - 1) / SEC;
  for (; a < b && a < NS; a++) settle(a);
  dur_size = cur_size; size_pending = 0;
}
static void sync_all(void) { sync_range(0, NS * SEC); }

/* ------------------------------------------------------------------ images */
static const char *const st_name[] = {"none", "all", "metas", "nometas", "random", "dropone", "pickone", "prefix", "metarnd", "suffix", "torn"};
static int build(int st, const char *name) {
  size_t size = st == 0 ? dur_size : st == 1 ? cur_size : rnd(2) ? dur_size : cur_size;
  unsigned cut = 0, lo = 0, hi = 0, k = 0, n = 0; size_t sec_lo = 0, sec_hi = 0;
  /* sequence numbers of pending versions */
  for (size_t i = 0; i < NS; i++) for (struct ver *v = S[i].head; v; v = v->next) { if (!n || v->seq < lo) lo = v->seq; if (!n || v->seq > hi) hi = v->seq; n++; }
  if (n) { cut = lo + rnd(hi - lo + 1); k = rnd(n); unsigned c = 0; for (size_t i = 0; i < NS; i++) for (struct ver *v = S[i].head; v; v = v->next) { if (c == k) { sec_lo = i; sec_hi = i + 1 + rnd(2) * rnd(8); } c++; } }
  static unsigned char *img; static size_t cap; size_t total = NS * SEC;
  if (cap < total) { img = realloc(img, total); cap = total; }
  size_t end = size, top = 0;
  for (size_t i = 0; i < NS; i++) {
    int meta = i * SEC < iosim_metas, use = 0; const struct ver *pick = S[i].tail;
    if (pick) switch (st) {
      case 0: break;
      case 1: use = 1; break;
      case 2: use = meta; break;
      case 3: use = !meta; break;
      case 4: use = rnd(2); break;
      case 5: use = !(i >= sec_lo && i < sec_hi); break;
      case 6: use = i >= sec_lo && i < sec_hi; break;
      case 7: for (pick = 0; ;) { for (struct ver *v = S[i].head; v && v->seq <= cut; v = v->next) pick = v; break; } use = pick != 0; break;
      case 8: use = meta || rnd(2); break;
      case 9: use = S[i].tail->seq >= cut; break;
      case 10: use = rnd(8) != 0; if (use && rnd(3) == 0) { pick = S[i].head; for (unsigned c = rnd(4); c && pick->next; c--) pick = pick->next; } break;
    }
    const unsigned char *d = use ? pick->data : S[i].dur ? S[i].dur : zero;
    memcpy(img + i * SEC, d, SEC);
    if (use && memcmp(d, zero, SEC)) top = (i + 1) * SEC;
  }
  if (top > end) end = top > cur_size ? (cur_size > size ? cur_size : size) : top;
  if (end > total) end = total;
  uint64_t h = 1469598103934665603ull ^ end; for (size_t i = 0; i + 8 <= end; i += 8) { uint64_t x; memcpy(&x, img + i, 8); h = (h ^ x) * 1099511628211ull; h ^= h >> 29; }
  if (h == last_hash && iosim_opno == last_op) return 0;
  last_hash = h; last_op = iosim_opno;
  int fd = __real_open(name, O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0) return 0;
  for (size_t i = 0; i < end; i += 4096) { size_t m = end - i < 4096 ? end - i : 4096; int nz = 0; for (size_t j = 0; j < m && !nz; j++) nz = img[i + j]; if (nz && __real_pwrite64(fd, img + i, m, (off_t)i) < 0) {} }
  if (__real_ftruncate64(fd, (off_t)(size > end ? size : end)) < 0) {}
  __real_close(fd);
  return 1;
}
void iosim_point(int mid) {
  if (!on || !im_rate || im_no >= im_max || anyfd < 0) return;
  if (rnd(1000) >= (mid ? im_rate * 6 : im_rate)) return;
  scan();
  unsigned n = 1 + rnd(2);
  while (n-- && im_no < im_max) {
    int st = (int)rnd(11); if (!npend && !size_pending) st = 1;
    char name[760]; snprintf(name, sizeof name, "%s/img-%u", dir, im_no);
    if (build(st, name)) iosim_image((int)im_no++, st_name[st], mid, npend);
    if (!npend) break;
  }
}
void iosim_images(unsigned rate, unsigned max, uint64_t seed) { im_rate = rate; im_max = max; rs = seed * 0x9E3779B97F4A7C15ull + 1; for (int i = 0; i < 8; i++) rnd(2); }
void iosim_kill_image(void) { /* the process alone dies: everything written is there */
  if (!on || anyfd < 0) return;
  scan(); char name[760]; snprintf(name, sizeof name, "%s/img-%u", dir, im_no); last_hash = 0;
  if (build(1, name)) iosim_image((int)im_no++, "kill", 0, npend);
}
void iosim_start(const char *db, const char *d) { snprintf(path, sizeof path, "%s", db); snprintf(dir, sizeof dir, "%s", d); on = 1; }
void iosim_stop(void) { on = 0; }
void iosim_flush(void) { scan(); sync_all(); }

/* ------------------------------------------------------------------- faults */
void iosim_fault(int mask, long after, int err, long count) { f_mask = mask; f_after = after; f_errno = err; f_count = count; f_hits = 0; f_last = 0; }
long iosim_hits(int *what, unsigned *meta) { *what = f_last; *meta = f_lastmeta; return f_hits; }
void iosim_op_begin(void) { if (f_mask) scan(); f_ops[0] = f_ops[1] = 0; f_metaw = 0; }
void iosim_op_end(long *soft, long *hard, int *meta) { if (f_ops[0] || f_ops[1]) scan(); *soft = f_ops[0]; *hard = f_ops[1]; *meta = f_metaw; }
static int faulty(int what, unsigned meta) {
  if (!(f_mask & what)) return 0;
  if (f_after > 0) { --f_after; return 0; }
  if (f_count == 0) return 0;
  if (f_count > 0) --f_count;
  f_hits++; f_ops[what == IOF_WRITE || what == IOF_SYNC ? 1 : 0]++; f_last = what; f_lastmeta = meta; errno = f_errno == -1 ? ENOSPC : f_errno;
  return 1;
}
/* -------------------------------------------------------------------- wraps */
static void opened(int fd, const char *p, int flags) {
  if (fd < 0 || fd >= NFD) return;
  kind[fd] = 0;
  if (!strcmp(p, "/proc/sys/kernel/random/boot_id")) { if (getenv("IOSIM_BOOT")) kind[fd] = 3; return; }
  if (!on || strcmp(p, path)) return;
  kind[fd] = (flags & (O_DSYNC | O_SYNC)) ? 2 : 1;
  struct stat st; if (fstat(fd, &st)) return;
  if (anyfd < 0 && (flags & O_ACCMODE) != O_WRONLY) {
    anyfd = fd; need(((size_t)st.st_size + SEC - 1) / SEC);
    if ((size_t)st.st_size > cur_size) cur_size = (size_t)st.st_size;
    refresh(0, cur_size, 0);
  }
}
int __wrap_open64(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); int fd = __real_open64(p, flags, mode); opened(fd, p, flags); return fd; }
int __wrap_open(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); int fd = __real_open(p, flags, mode); opened(fd, p, flags); return fd; }
int __wrap_close(int fd) {
  if (fd >= 0 && fd < NFD && kind[fd]) {
    if (fd == anyfd) { scan(); anyfd = -1; }
    kind[fd] = 0;
    if (anyfd < 0) for (int i = 0; i < NFD; i++) if (kind[i] == 1) anyfd = i;
  }
  return __real_close(fd);
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
  ssize_t k = __real_read(fd, b, n);
  if (fd >= 0 && fd < NFD && kind[fd] == 3 && k > 8) { char *c = b; const char *e = getenv("IOSIM_BOOT"); c[0] = c[0] == 'a' ? 'b' : 'a'; c[1] = e[0]; c[2] = e[1] ? e[1] : '7'; }
  return k;
}
#define DXB(fd) ((fd) >= 0 && (fd) < NFD && (kind[fd] == 1 || kind[fd] == 2))
static void wrote(int fd, size_t off, size_t len) {
  if (iosim_on_write) iosim_on_write(off, len, 0);
  grown(); ++wseq; refresh(off, len, 0);
  iosim_point(1);
  if (kind[fd] == 2) { sync_range(off, len); iosim_point(1); }
}
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t off) {
  if (!on || !DXB(fd)) return __real_pwrite64(fd, b, n, off);
  if (faulty(IOF_WRITE, (size_t)off < iosim_metas)) {
    if (f_errno == -1) { /* a part is written, then no space */ size_t h = n / 2; if (h) { ssize_t k = __real_pwrite64(fd, b, h, off); if (k > 0) { wrote(fd, (size_t)off, (size_t)k); f_ops[1]--; f_ops[0]++; return k; } } errno = ENOSPC; }
    return -1;
  }
  ssize_t r = __real_pwrite64(fd, b, n, off);
  if (r > 0) { int e = errno; wrote(fd, (size_t)off, (size_t)r); errno = e; }
  return r;
}
ssize_t __wrap_pwritev64(int fd, const struct iovec *v, int c, off_t off) {
  if (!on || !DXB(fd)) return __real_pwritev64(fd, v, c, off);
  if (faulty(IOF_WRITE, (size_t)off < iosim_metas)) {
    if (f_errno == -1) { ssize_t k = __real_pwrite64(fd, v[0].iov_base, v[0].iov_len, off); if (k > 0) { wrote(fd, (size_t)off, (size_t)k); f_ops[1]--; f_ops[0]++; return k; } errno = ENOSPC; }
    return -1;
  }
  ssize_t r = __real_pwritev64(fd, v, c, off);
  if (r > 0) { int e = errno; wrote(fd, (size_t)off, (size_t)r); errno = e; }
  return r;
}
int __wrap_ftruncate64(int fd, off_t n) {
  if (!on || !DXB(fd)) return __real_ftruncate64(fd, n);
  if (faulty(IOF_SIZE, 0)) return -1;
  scan();
  int r = __real_ftruncate64(fd, n);
  if (!r) { set_cur((size_t)n); iosim_point(1); }
  return r;
}
int __wrap_posix_fallocate64(int fd, off_t off, off_t n) {
  if (!on || !DXB(fd)) return __real_posix_fallocate64(fd, off, n);
  if (faulty(IOF_SIZE, 0)) return errno;
  int r = __real_posix_fallocate64(fd, off, n); if (!r) grown();
  return r;
}
static int do_sync(int fd) {
  scan(); iosim_point(1);
  if (faulty(IOF_SYNC, 0)) return -1;
  (void)fd; sync_all(); iosim_point(1);
  return 0;
}
int __wrap_fdatasync(int fd) { return on && DXB(fd) ? do_sync(fd) : __real_fdatasync(fd); }
int __wrap_fsync(int fd) { return on && DXB(fd) ? do_sync(fd) : __real_fsync(fd); }
int __wrap_msync(void *a, size_t n, int flags) {
  if (on) for (int i = 0; i < 8; i++) if (maps[i].a && (char *)a >= maps[i].a && (char *)a < maps[i].a + maps[i].n) {
    scan(); iosim_point(1);
    if (faulty(IOF_SYNC, 0)) return -1;
    if (flags & MS_SYNC) { sync_range((size_t)((char *)a - maps[i].a), n); iosim_point(1); }
    return 0;
  }
  return __real_msync(a, n, flags);
}
static void map_note(void *a, size_t n, int prot, int flags, int fd) {
  if (!on || a == MAP_FAILED || fd < 0 || fd >= NFD || !DXB(fd) || !(prot & PROT_WRITE) || !(flags & MAP_SHARED)) return;
  for (int i = 0; i < 8; i++) if (!maps[i].a || maps[i].a == (char *)a) { maps[i].a = a; maps[i].n = n; return; }
}
void *__wrap_mmap64(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  if (on && DXB(fd) && faulty(IOF_MAP, 0)) return MAP_FAILED;
  void *r = __real_mmap64(a, n, prot, flags, fd, off); map_note(r, n, prot, flags, fd); return r;
}
void *__wrap_mremap(void *a, size_t on_, size_t nn, int flags, ...) {
  va_list ap; va_start(ap, flags); void *na = (flags & MREMAP_FIXED) ? va_arg(ap, void *) : 0; va_end(ap);
  int ix = -1; for (int i = 0; i < 8; i++) if (maps[i].a == (char *)a && a) ix = i;
  if (ix >= 0) { scan(); if (faulty(IOF_MAP, 0)) return MAP_FAILED; }
  void *r = __real_mremap(a, on_, nn, flags, na);
  if (ix >= 0 && r != MAP_FAILED) { maps[ix].a = r; maps[ix].n = nn; }
  return r;
}
int __wrap_munmap(void *a, size_t n) {
  for (int i = 0; i < 8; i++) if (maps[i].a == (char *)a && a) { scan(); if (n >= maps[i].n) maps[i].a = 0; else { maps[i].a += n; maps[i].n -= n; } }
  else if (maps[i].a && (char *)a > maps[i].a && (char *)a < maps[i].a + maps[i].n) { scan(); maps[i].n = (size_t)((char *)a - maps[i].a); }
  return __real_munmap(a, n);
}
int __wrap_fstatfs64(int fd, struct statfs64 *s) {
  int r = __real_fstatfs64(fd, s);
  if (!r && on && DXB(fd) && s->f_type == 0x01021994) s->f_type = 0xEF53; /* not a memory disk */
  return r;
}
