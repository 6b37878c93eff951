/* An independent reader of the file format: which pages belong to which
 * committed state, what its free list holds, whether the counters are true, and
 * which pages of the file have changed since the last look. */
#define _GNU_SOURCE 1
#include "pages.h"
#include "iosim.h"
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#pragma pack(push, 1)
struct tree { uint16_t flags, height; uint32_t dfs, root, br, lf, lg; uint64_t seq, items, mod; };
struct geo { uint16_t gp, sp; uint32_t lo, up, now, fu; };
struct meta { uint64_t magic, ida; uint16_t r16; uint8_t vid; int8_t ex; struct geo g; struct tree gc, mn; uint64_t can[4]; uint64_t sign, idb; };
struct page { uint64_t id; uint16_t ks, flags; union { uint32_t pages; struct { uint16_t lower, upper; }; }; uint32_t no; uint8_t d[]; };
struct node { union { uint32_t ds, child; }; uint8_t fl, ex; uint16_t ks; uint8_t d[]; };
#pragma pack(pop)
enum { H = 20, BR = 1, LF = 2, LG = 4, DF = 0x20, BIG = 1, TREE = 2, DUP = 4 };

static unsigned char *cur, *prev, *owner;
static size_t ncur, nprev, capc, capp, capo;
static unsigned ps, seen_ps;
static uint64_t walked[8]; static unsigned nwalked;
static int bad; static char why[96];
static struct meta *M; static uint64_t Mid;
static void fault(const char *w, unsigned p) { if (!bad++) snprintf(why, sizeof why, "%s %u", w, p); }

static struct page *at(uint32_t p, uint32_t fu) { if (p < 3 || p >= fu || (size_t)(p + 1) * ps > ncur) { fault("page out of range", p); return 0; } return (struct page *)(cur + (size_t)p * ps); }
static int take(uint32_t p, uint32_t n, int how) { int ok = 1; for (uint32_t i = 0; i < n; i++) { if (p + i >= M->g.fu || p + i < 3) { fault("page out of range", p + i); return 0; } if (owner[p + i]) { fault(owner[p + i] == 1 ? how == 1 ? "page used twice" : "page used and free" : "page free twice", p + i); ok = 0; } owner[p + i] = (unsigned char)how; } return ok; }

struct cnt { uint64_t br, lf, lg, items; };
typedef void (*leafcb)(const void *k, unsigned nk, const void *v, size_t nv);
static void tree(const struct tree *t, int kind, leafcb cb);
/* kind: 0 plain or multi-value table, 1 list of tables, 2 nested tree of values, 3 free list */
static void walk(uint32_t no, int depth, const struct tree *t, int kind, struct cnt *c, leafcb cb) {
  struct page *p = at(no, M->g.fu);
  if (!p) return;
  if (!take(no, 1, 1)) return;
  if (p->no != no) fault("number of page", no);
  if (p->id > Mid) fault("page of the future", no);
  unsigned n = p->lower >> 1;
  if (depth + 1 < t->height) {
    if ((p->flags & 0xFF) != BR) { fault("kind of page", no); return; }
    c->br++;
    if (n < 2) fault("branch with less than two nodes", no);
    for (unsigned i = 0; i < n; i++) { uint16_t off; memcpy(&off, p->d + 2 * i, 2); struct node *x = (struct node *)((unsigned char *)p + H + off); walk(x->child, depth + 1, t, kind, c, cb); }
    return;
  }
  c->lf++;
  if (kind == 2 && (t->flags & 0x10)) { if ((p->flags & 0xFF) != (LF | DF)) fault("kind of page", no); if (p->ks != t->dfs) fault("width of values", no); c->items += n; if (!n) fault("empty leaf", no); return; }
  if ((p->flags & 0xFF) != LF) { fault("kind of page", no); return; }
  if (!n) fault("empty leaf", no);
  for (unsigned i = 0; i < n; i++) {
    uint16_t off; memcpy(&off, p->d + 2 * i, 2); struct node *x = (struct node *)((unsigned char *)p + H + off);
    if ((unsigned char *)x + 8 > (unsigned char *)p + ps) { fault("node outside of page", no); return; }
    const unsigned char *v = x->d + x->ks; size_t nv = x->ds;
    if (x->fl & BIG) {
      uint32_t q; memcpy(&q, v, 4); struct page *g = at(q, M->g.fu); if (!g) continue;
      uint32_t k = g->pages; if ((g->flags & 0xFF) != LG || k < 1 || k != (nv + H + ps - 1) / ps) { fault("large page", q); continue; }
      if (g->no != q) fault("number of page", q); if (g->id > Mid) fault("page of the future", q);
      take(q, k, 1); c->lg += k; c->items++;
      if ((size_t)(q + k) * ps <= ncur && cb) cb(x->d, x->ks, (unsigned char *)g + H, nv);
    } else if ((x->fl & (TREE | DUP)) == (TREE | DUP)) { struct tree s; memcpy(&s, v, sizeof s); tree(&s, 2, 0); c->items += s.items; c->br += s.br; c->lf += s.lf; /* the table counts them, too */ }
    else if (x->fl & TREE) { struct tree s; memcpy(&s, v, sizeof s); c->items++; if (kind != 1) fault("table inside of a table", no); tree(&s, 0, 0); }
    else if (x->fl & DUP) { const struct page *s = (const struct page *)v; unsigned m = s->lower >> 1; c->items += m; if (m < 1) fault("empty sub-page", no); }
    else { c->items++; if (cb) cb(x->d, x->ks, v, nv); }
  }
}
static void tree(const struct tree *t, int kind, leafcb cb) {
  struct cnt c = {0, 0, 0, 0};
  if (t->root == UINT32_MAX) { if (t->items || t->br || t->lf || t->lg || t->height) fault("counters of an empty tree", 0); return; }
  if (!t->height) { fault("height", t->root); return; }
  walk(t->root, 0, t, kind, &c, cb);
  char w[80];
#define CNT(x, what) if (c.x != t->x) { snprintf(w, sizeof w, "%s of the %s %u is told %u, counted %u;", what, kind == 3 ? "free list" : kind == 2 ? "values at" : kind == 1 ? "tables" : "table", t->root, (unsigned)t->x, (unsigned)c.x); fault(w, 0); }
  CNT(br, "branch pages") CNT(lf, "leaf pages") CNT(lg, "large pages") CNT(items, "items")
  if (t->mod > Mid) fault("tree of the future", t->root);
}
static uint64_t ids[1 << 16]; static unsigned nids;
static void gcrec(const void *k, unsigned nk, const void *v, size_t nv) {
  uint64_t id; if (nk != 8) { fault("key of the free list", nk); return; }
  memcpy(&id, k, 8); if (id < 1 || id > Mid) fault("id of the free list", (unsigned)id);
  const unsigned char *q = v; uint32_t n; memcpy(&n, q, 4); if (nv < 4u * (n + 1)) { fault("record of the free list", n); return; }
  uint32_t last = UINT32_MAX;
  for (uint32_t i = 1; i <= n; i++) { uint32_t p; memcpy(&p, q + 4 * i, 4); if (p >= last) fault("order of the free list", p); last = p; take(p, 1, 2); }
  if (nids < 1 << 16) ids[nids++] = id;
}
static void spans(void (*o)(void *, const char *, long, long), void *ctx, int how, uint32_t fu) {
  int first = 1; for (uint32_t i = 3; i < fu; i++) if (owner[i] == how) { uint32_t j = i; while (j + 1 < fu && owner[j + 1] == how) j++; o(ctx, first ? "%ld,%ld" : ",%ld,%ld", i, j); first = 0; i = j; }
}
/* reports: sz pages in the file, chg changed ones, ml the commit records, and for every state not looked at before: w */
static int fd_of(const char *path) { static int fd = -1; static char was[600]; static ino_t ino; struct stat st; extern int __real_open64(const char *, int, ...); if (fd >= 0 && !strcmp(was, path) && !stat(path, &st) && st.st_ino == ino) return fd; /* never closed: closing may drop locks of the process */ fd = __real_open64(path, O_RDONLY); if (fd >= 0 && !fstat(fd, &st)) ino = st.st_ino; snprintf(was, sizeof was, "%s", path); return fd; }
static struct { uint64_t id; uint32_t a, b; } chg[1 << 14]; static unsigned nchg;
static int sane(const struct meta *m) { return m->ida == m->idb && m->ida && (m->magic >> 8) == UINT64_C(0x59659DBDEF4C11); }
static uint64_t surely(void) { /* the newest state that would be found after losing power now, with nothing else reaching the disk */
  static unsigned char *d; static unsigned dps; uint64_t best = 0;
  if (dps != ps) d = realloc(d, 3u * (dps = ps));
  iosim_durable(d, 3u * ps);
  for (int i = 0; i < 3; i++) { struct meta *m = (struct meta *)(d + (size_t)i * ps + H); if (sane(m) && m->sign > 1 && m->ida > best) best = m->ida; }
  return best;
}
static int look_fd(const char *path) {
  int fd = fd_of(path); struct stat st;
  if (fd < 0 || fstat(fd, &st)) return -1;
  if (capc < (size_t)st.st_size) { capc = (size_t)st.st_size + (1 << 20); cur = realloc(cur, capc); }
  ncur = 0; ssize_t k; while (ncur < capc && (k = pread(fd, cur + ncur, capc - ncur, (off_t)ncur)) > 0) ncur += (size_t)k;
  size_t np = ncur / ps, op = nprev / ps; uint64_t id = surely();
  for (size_t i = 0; i < np && i < op; i++) if (memcmp(cur + i * ps, prev + i * ps, ps)) { size_t j = i; while (j + 1 < np && j + 1 < op && memcmp(cur + (j + 1) * ps, prev + (j + 1) * ps, ps)) j++; if (nchg < 1 << 14) { chg[nchg].id = id; chg[nchg].a = (uint32_t)i; chg[nchg++].b = (uint32_t)j; } i = j; }
  if (capp < ncur) { capp = ncur + (1 << 20); prev = realloc(prev, capp); }
  memcpy(prev, cur, ncur); nprev = ncur;
  return 0;
}
static char watched[600];
static void before_sync(void) { if (nprev) look_fd(watched); }
void pages_look(const char *path, unsigned pagesize, void (*o)(void *, const char *, long, long), void (*os)(void *, const char *), void *ctx) {
  ps = pagesize;
  if (look_fd(path)) return;
  snprintf(watched, sizeof watched, "%s", path); iosim_before_sync = before_sync;
  size_t np = ncur / ps; int first;
  o(ctx, ",\"sz\":%ld,\"sd\":%ld", (long)np, (long)surely());
  os(ctx, ",\"chg\":[");
  for (unsigned i = 0; i < nchg; i++) { o(ctx, i == 0 ? "[%ld" : chg[i].id != chg[i - 1].id ? "],[%ld" : "", (long)chg[i].id, 0); o(ctx, ",%ld,%ld", chg[i].a, chg[i].b); }
  if (nchg) os(ctx, "]");
  nchg = 0;
  os(ctx, "],\"ml\":["); first = 1;
  struct meta *ms[3]; int nm = 0;
  for (int i = 0; i < 3 && np >= 3; i++) { struct meta *m = (struct meta *)(cur + (size_t)i * ps + H); if (!sane(m)) continue;
    o(ctx, first ? "[%ld,%ld]" : ",[%ld,%ld]", (long)m->ida, m->sign > 1); first = 0; ms[nm++] = m; }
  os(ctx, "],\"wk\":["); first = 1;
  uint64_t now[8]; unsigned nn = 0; uint64_t newest = 0; for (int i = 0; i < nm; i++) if (ms[i]->ida > newest) newest = ms[i]->ida;
  for (int i = 0; i < nm; i++) {
    struct meta *m = ms[i]; int known = 0; for (unsigned j = 0; j < nwalked; j++) known |= walked[j] == m->ida; now[nn++] = m->ida;
    if (known || m->ida != newest) continue; /* only the pages of the newest are sure to be there */
    M = m; Mid = m->ida; bad = 0; why[0] = 0; nids = 0;
    if (m->g.fu > capo) { capo = m->g.fu + 4096; owner = realloc(owner, capo); } memset(owner, 0, capo);
    if (m->g.fu > m->g.now || (size_t)m->g.now > np) fault("beyond the end of the file", m->g.fu);
    if (m->g.now > m->g.up || m->g.now < m->g.lo) fault("size out of the limits", m->g.now);
    tree(&m->gc, 3, gcrec); tree(&m->mn, 1, 0);
    o(ctx, first ? "{\"id\":%ld,\"fu\":%ld," : ",{\"id\":%ld,\"fu\":%ld,", (long)m->ida, m->g.fu); first = 0;
    o(ctx, "\"now\":%ld,\"up\":%ld,", m->g.now, m->g.up); o(ctx, "\"lo\":%ld,\"bad\":%ld,\"why\":\"", m->g.lo, bad); os(ctx, why);
    os(ctx, "\",\"own\":["); spans(o, ctx, 1, m->g.fu); os(ctx, "],\"free\":["); spans(o, ctx, 2, m->g.fu); os(ctx, "]}");
  }
  os(ctx, "]"); memcpy(walked, now, sizeof now); nwalked = nn;
}
void pages_forget(void) { nprev = 0; nwalked = 0; nchg = 0; iosim_before_sync = 0; }
