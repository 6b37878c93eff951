From f168e87c0ff1241d963222183826bcc063c3f9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 01/79] fix: cursor_del() after deletion of the last value of a
 multi-value key

The nested cursor stays at hard-eof then, and a following deletion advanced the
outer cursor while working on a stale page/node, which led to a crash (or to an
assertion failure). Now the deletion proceeds with the record that follows, i.e.
the one MDBX_NEXT would return, as documented for mdbx_cursor_del().
---
 mdbx.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index fb8a379..0d4d25f 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15827,10 +15827,13 @@ __hot int cursor_put_checklen(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *da
 }
 
 __hot int cursor_del(MDBX_cursor *mc, unsigned flags) {
-  if (unlikely(!is_filled(mc))) {
-    if (!F_ISSET(mc->flags, z_inner | z_eof_hard))
-      return MDBX_ENODATA;
-    if (outer_next(cursor_outer(mc), nullptr, nullptr, MDBX_NEXT) != MDBX_SUCCESS)
+  if (unlikely(!is_filled(mc)))
+    return MDBX_ENODATA;
+
+  if (unlikely(inner_pointed(mc) && !inner_filled(mc)) && !(flags & (MDBX_ALLDUPS | MDBX_NODUPDATA))) {
+    /* The last value of a multi-value key was deleted previously and the nested cursor stands behind the end,
+     * so the current record is the one that follows, i.e. the first of the next key. */
+    if (outer_next(mc, nullptr, nullptr, MDBX_NEXT) != MDBX_SUCCESS)
       return MDBX_ENODATA;
   }
 
-- 
2.43.0


From e60eda20d7014cbe64d7b31ca7e61899ba8783b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 02/79] fix: sync the nested tree of other cursors when a
 multi-value is inserted

Cursors standing on the same node kept a stale copy of the nested tree (items,
root), so a later deletion through them removed the whole key or wrote wrong
counters.
---
 mdbx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 0d4d25f..434db49 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15706,6 +15706,11 @@ insert_node:;
         mc->subcur->nested_tree.mod_txnid = mc->txn->txnid;
         memcpy(db, &mc->subcur->nested_tree, sizeof(tree_t));
       }
+      /* Sync the nested tree for other cursors pointed at the same node */
+      for (MDBX_cursor *m2 = mc->txn->cursors[cursor_dbi(mc)]; m2; m2 = m2->next)
+        if (is_related(mc, m2) && m2->pg[mc->top] == mc->pg[mc->top] && m2->ki[mc->top] == mc->ki[mc->top] &&
+            inner_pointed(m2))
+          m2->subcur->nested_tree = mc->subcur->nested_tree;
       insert_data = (probe != (size_t)mc->subcur->nested_tree.items);
     }
     /* Increment count unless we just replaced an existing item. */
-- 
2.43.0


From 4b53f5f651a4959f817e02c1aa2fba2d5916628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 03/79] fix: don't leave a dangling stack cursor in
 mdbx_replace_ex()

An early return with MDBX_EINVAL left the on-stack cursor linked into the
transaction's list of tracked cursors.
---
 mdbx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 434db49..6132463 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10922,8 +10922,10 @@ int mdbx_replace_ex(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *
       goto bailout;
   } else {
     /* в old_data буфер для сохранения предыдущего значения */
-    if (unlikely(new_data && old_data->iov_base == new_data->iov_base))
-      return LOG_IFERR(MDBX_EINVAL);
+    if (unlikely(new_data && old_data->iov_base == new_data->iov_base)) {
+      rc = MDBX_EINVAL;
+      goto bailout;
+    }
     MDBX_val present_data;
     rc = cursor_seek(&cx.outer, &present_key, &present_data, MDBX_SET_KEY).err;
     if (unlikely(rc != MDBX_SUCCESS)) {
-- 
2.43.0


From 8451c78a3aa0c4daf098b1fb622a42488b1c7171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 04/79] fix: return the value of the reached pair for
 MDBX_TO_EXACT_KEY_VALUE_xxx and MDBX_TO_PAIR_xxx

The cursor was positioned properly, but for keys with multiple values the first
value of the key was returned instead of the value at the reached position.
---
 mdbx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 6132463..7e748ff 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16552,6 +16552,8 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
           MDBX_cursor *const mx = &mc->subcur->cursor;
           csr = cursor_seek(mx, &save_data, nullptr, MDBX_SET_RANGE);
           rc = csr.err;
+          if (likely(rc == MDBX_SUCCESS))
+            *data = save_data;
           if (csr.exact) {
             cASSERT0(mc, csr.err == MDBX_SUCCESS);
             if (op == MDBX_TO_EXACT_KEY_VALUE_LESSER_THAN)
@@ -16605,6 +16607,8 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
           MDBX_cursor *const mx = &mc->subcur->cursor;
           csr = cursor_seek(mx, &save_data, nullptr, MDBX_SET_RANGE);
           rc = csr.err;
+          if (likely(rc == MDBX_SUCCESS))
+            *data = save_data;
           if (csr.exact) {
             cASSERT0(mc, csr.err == MDBX_SUCCESS);
             if (op == MDBX_TO_PAIR_LESSER_THAN)
-- 
2.43.0


From 4d6aab7fe25b14f9190579e2b5ac4f82085187b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 05/79] fix: MDBX_GET_CURRENT after deletion of the last value
 of a multi-value key

It returned the preceding value of the key, whereas mdbx_cursor_del() is
documented to leave the cursor so that MDBX_GET_CURRENT and MDBX_NEXT return the
same (following) record.
---
 mdbx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 7e748ff..011c922 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16319,6 +16319,9 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
       return outer_next(mc, key, data, MDBX_NEXT_NODUP);
     else if (inner_pointed(mc) && (mc->subcur->cursor.flags & z_after_delete))
       return outer_next(mc, key, data, MDBX_NEXT_DUP);
+    else if (inner_pointed(mc) && !inner_filled(mc))
+      /* the last value of a multi-value key was deleted, the current record is the one that follows */
+      return outer_next(mc, key, data, MDBX_NEXT);
     else {
       const page_t *mp = mc->pg[mc->top];
       const node_t *node = page_node(mp, mc->ki[mc->top]);
-- 
2.43.0


From f58a2cf507eba80a1ec4cfc779bbe7fad7ceed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 06/79] fix: don't leave an out-of-range index after MDBX_NEXT
 at the end of data

After a MDBX_SET_RANGE beyond the last key of the current page the index is equal
to the number of items. The following MDBX_NEXT cleared z_eof_hard but kept such
an index, so then MDBX_GET_CURRENT read outside of the page items.
---
 mdbx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 011c922..9fa28c8 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -14960,6 +14960,9 @@ static __always_inline int cursor_step(const bool inner, const bool forward, MDB
           goto bring;
       } else {
         cASSERT0(mc, state & (z_eof_soft | z_eof_hard));
+        if (ki >= nkeys)
+          /* the search went past the end, so step back to the last item */
+          mc->ki[mc->top] = (indx_t)nkeys - 1;
         return MDBX_NOTFOUND;
       }
     } else if (state & z_eof_hard) {
-- 
2.43.0


From 9cb97e7f900cd4c9496492419527f5e35a0f6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 07/79] fix: MDBX_GET_CURRENT must not read behind the end of
 data

The z_eof_hard state denies reading at the current position, but MDBX_GET_CURRENT
returned the preceding item, e.g. after a deletion of the last one, whereas
mdbx_cursor_del() is documented to provide the same result as MDBX_NEXT.
---
 mdbx.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 9fa28c8..c4c3d8b 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16312,12 +16312,8 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
   switch (op) {
   case MDBX_GET_CURRENT:
     cASSERT0(mc, (mc->flags & z_inner) == 0);
-    if (unlikely(!is_filled(mc))) {
-      if (is_hollow(mc))
-        return MDBX_ENODATA;
-      if (mc->ki[mc->top] >= page_numkeys(mc->pg[mc->top]))
-        return MDBX_NOTFOUND;
-    }
+    if (unlikely(!is_filled(mc)))
+      return is_hollow(mc) ? MDBX_ENODATA : MDBX_NOTFOUND;
     if (mc->flags & z_after_delete)
       return outer_next(mc, key, data, MDBX_NEXT_NODUP);
     else if (inner_pointed(mc) && (mc->subcur->cursor.flags & z_after_delete))
-- 
2.43.0


From 8cbf938e628a7ca42d4a5da0c3677b2d3fa7a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 08/79] fix: MDBX_NEXT_MULTIPLE on a key with a single value

With a fresh cursor (or when stepping onto a key holding just one value) the
nested cursor isn't pointed to a page, which led to a NULL/stale page
dereference while fetching multi-values.
---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index c4c3d8b..9c32709 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16408,7 +16408,7 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
     if (unlikely(mc->subcur == nullptr))
       return MDBX_INCOMPATIBLE;
     rc = outer_next(mc, key, data, MDBX_NEXT_DUP);
-    if (unlikely(rc != MDBX_SUCCESS))
+    if (unlikely(rc != MDBX_SUCCESS || !inner_filled(mc)))
       return rc;
     else {
     fetch_multiple:
-- 
2.43.0


From 2bdf45ea02d6501f805e49a6aff75fa7000e4bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 09/79] fix: MDBX_ALLDUPS put into a wrong place after deletion
 of old values

Deletion of the last item moves the cursor, i.e. it may stay before the previous
item, so the new value was inserted in a wrong place and the order of keys on
a page was broken. Seek again for a place to insert.
---
 mdbx.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 9c32709..6e22820 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15137,8 +15137,14 @@ __hot int cursor_put(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *data, unsig
           if (unlikely(rc != MDBX_SUCCESS))
             return rc;
           flags -= MDBX_ALLDUPS;
-          cASSERT0(mc, mc->top + 1 == mc->tree->height);
-          rc = (mc->top >= 0) ? MDBX_NOTFOUND : MDBX_NO_ROOT;
+          rc = MDBX_NO_ROOT;
+          if (mc->tree->height > 0) {
+            /* the cursor may be moved or stay before the last item after the deletion, so seek the place to insert */
+            rc = cursor_seek(mc, (MDBX_val *)key, &old_data, MDBX_SET).err;
+            cASSERT0(mc, rc != MDBX_SUCCESS);
+            if (unlikely(rc != MDBX_NOTFOUND))
+              return rc;
+          }
         } else if ((flags & (MDBX_RESERVE | MDBX_MULTIPLE)) == 0) {
           old_data = *data;
           csr_t csr = cursor_seek(&mc->subcur->cursor, &old_data, nullptr, MDBX_SET_RANGE);
-- 
2.43.0


From a7e4da845f06d7fff06d3b3630755632acc10443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 10/79] fix: MDBX_CURRENT|MDBX_ALLDUPS for the only value on a
 sub-page

Updating such an item in place is only supported for MDBX_CURRENT without extra
flags, otherwise the sub-page was re-created while the nested cursor was left
with a stale pointer.
---
 mdbx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 6e22820..3ffd81d 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15059,7 +15059,8 @@ __hot int cursor_put(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *data, unsig
         /* Если за ключом более одного значения, либо если размер данных
          * отличается, то вместо обновления требуется удаление и
          * последующая вставка. */
-        if (mc->subcur->nested_tree.items > 1 || current_data.iov_len != data->iov_len) {
+        if (mc->subcur->nested_tree.items > 1 || current_data.iov_len != data->iov_len ||
+            (flags & ~(unsigned)(MDBX_CURRENT | MDBX_NODUPDATA))) {
           err = cursor_del(mc, flags & MDBX_ALLDUPS);
           if (unlikely(err != MDBX_SUCCESS))
             return err;
-- 
2.43.0


From 31a147aa928f2ce7a793dc3447a0d55fb9bec0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 11/79] fix: MDBX_FIRST_DUP/MDBX_LAST_DUP behind the end of
 data after a deletion

The nested cursor isn't set in such case, so a bogus MDBX_CORRUPTED was returned.
---
 mdbx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 3ffd81d..7b8d30d 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16468,9 +16468,11 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
       get_key_optional(node, key);
       if ((node_flags(node) & N_DUP) == 0)
         return node_read(mc, node, data, mc->pg[mc->top]);
-      else if (MDBX_DISABLE_VALIDATION || likely(mc->subcur))
+      else if (MDBX_DISABLE_VALIDATION || likely(mc->subcur)) {
+        if (unlikely(!inner_pointed(mc)))
+          return MDBX_ENODATA;
         return ((op == MDBX_FIRST_DUP) ? inner_first : inner_last)(&mc->subcur->cursor, data);
-      else
+      } else
         return unexpected_dupsort(mc);
     }
     break;
-- 
2.43.0


From 97ae4265612b7bd48a51f9a12e874957af6cc43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 12/79] fix: MDBX_CURRENT update of the only value left on a
 sub-page

Such key isn't multi-valued, so neither an assertion nor MDBX_EMULTIVAL.
---
 mdbx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 7b8d30d..9533e71 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10834,12 +10834,12 @@ int mdbx_put(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *data, M
       /* LY: allows update (explicit overwrite) only for unique keys */
       node_t *node = page_node(cx.outer.pg[cx.outer.top], cx.outer.ki[cx.outer.top]);
       if (node_flags(node) & N_DUP) {
-        cASSERT0(txn, inner_pointed(&cx.outer) && cx.outer.subcur->nested_tree.items > 1);
-        rc = MDBX_EMULTIVAL;
+        cASSERT0(txn, inner_pointed(&cx.outer) && cx.outer.subcur->nested_tree.items > 0);
         if ((flags & MDBX_NOOVERWRITE) == 0) {
           flags -= MDBX_CURRENT;
           rc = cursor_del(&cx.outer, MDBX_ALLDUPS);
-        }
+        } else if (cx.outer.subcur->nested_tree.items > 1)
+          rc = MDBX_EMULTIVAL;
       }
     }
   }
@@ -10944,7 +10944,7 @@ int mdbx_replace_ex(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *
           /* disallow update/delete for multi-values */
           node_t *node = page_node(page, cx.outer.ki[cx.outer.top]);
           if (node_flags(node) & N_DUP) {
-            cASSERT0(txn, inner_pointed(&cx.outer) && cx.outer.subcur->nested_tree.items > 1);
+            cASSERT0(txn, inner_pointed(&cx.outer) && cx.outer.subcur->nested_tree.items > 0);
             if (cx.outer.subcur->nested_tree.items > 1) {
               rc = MDBX_EMULTIVAL;
               goto bailout;
-- 
2.43.0


From 16a8fe36c692a6df2ff3a8adcef1f6cdee40fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 13/79] fix: cursor's stack after a pure-right split together
 with the parent

If the parent page was split and the new sibling came to the right half, then
only indices were updated, but not pages. So the cursor got inconsistent and
a subsequent deletion through it failed with MDBX_CURSOR_FULL, etc.
---
 mdbx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 9533e71..22cc4f8 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -34060,8 +34060,10 @@ __hot int page_split(MDBX_cursor *mc, const MDBX_val *const newkey, MDBX_val *co
       goto done;
 
     if (pure_right) {
-      for (intptr_t i = 0; i < mc->top; i++)
+      for (intptr_t i = 0; i < mc->top; i++) {
+        mc->pg[i] = mn->pg[i];
         mc->ki[i] = mn->ki[i];
+      }
     } else if (mc->ki[mc->top - 1] == 0) {
       for (intptr_t i = 2; i <= mc->top; ++i)
         if (mc->ki[mc->top - i]) {
-- 
2.43.0


From f7ac9f73d5c91f1fdd78f8d0b33022e08625797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 14/79] fix: MDBX_UPSERT|MDBX_ALLDUPS for a key with a single
 value

The documented meaning is to replace all values of a key by the new one,
but a single value stored as an ordinary node (not as a sub-page) was kept.
---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 22cc4f8..24c1634 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15132,7 +15132,7 @@ __hot int cursor_put(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *data, unsig
         /* nested subtree of DUPSORT-database with the same key, nothing to update */
         return (flags & MDBX_NODUPDATA) ? MDBX_KEYEXIST : MDBX_SUCCESS;
       }
-      if (inner_pointed(mc)) {
+      if (inner_pointed(mc) || unlikely((flags & MDBX_ALLDUPS) && mc->subcur)) {
         if (unlikely(flags & MDBX_ALLDUPS)) {
           rc = cursor_del(mc, MDBX_ALLDUPS);
           if (unlikely(rc != MDBX_SUCCESS))
-- 
2.43.0


From 7b1705608dcc0069ee001f6590fa64fdedaa91cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 15/79] fix: MDBX_PREV at the end of data and the equal single
 value for MDBX_UPSERT|MDBX_ALLDUPS

---
 mdbx.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 24c1634..cb9a039 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -14926,13 +14926,15 @@ static __always_inline int cursor_step(const bool inner, const bool forward, MDB
 
   intptr_t ki = mc->ki[mc->top];
   const uint8_t state = mc->flags & (z_after_delete | z_hollow | z_eof_hard | z_eof_soft);
-  if (likely(state == 0)) {
+  /* the z_eof_soft means the cursor stays on the last item, so moving back must not skip the values of its key */
+  if (likely(state == 0) || (!forward && state == z_eof_soft && ki < nkeys)) {
     cASSERT0(mc, ki < nkeys);
     if (!inner && op != (forward ? MDBX_NEXT_NODUP : MDBX_PREV_NODUP)) {
       int err = MDBX_NOTFOUND;
       if (inner_pointed(mc)) {
         err = forward ? inner_next(&mc->subcur->cursor, data) : inner_prev(&mc->subcur->cursor, data);
         if (likely(err == MDBX_SUCCESS)) {
+          be_filled(mc);
           get_key_optional(page_node(mp, ki), key);
           return MDBX_SUCCESS;
         }
@@ -15132,7 +15134,8 @@ __hot int cursor_put(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *data, unsig
         /* nested subtree of DUPSORT-database with the same key, nothing to update */
         return (flags & MDBX_NODUPDATA) ? MDBX_KEYEXIST : MDBX_SUCCESS;
       }
-      if (inner_pointed(mc) || unlikely((flags & MDBX_ALLDUPS) && mc->subcur)) {
+      if (inner_pointed(mc) || unlikely((flags & MDBX_ALLDUPS) && mc->subcur &&
+                                        ((flags & MDBX_MULTIPLE) || !eq_fast(data, &old_data)))) {
         if (unlikely(flags & MDBX_ALLDUPS)) {
           rc = cursor_del(mc, MDBX_ALLDUPS);
           if (unlikely(rc != MDBX_SUCCESS))
-- 
2.43.0


From 0c0c4ffd2eb8aa3b6a0cda038f918063dcebe4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 16/79] fix: MDBX_FIRST_DUP/MDBX_LAST_DUP settle the cursor
 after a deletion

---
 mdbx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index cb9a039..2817ee5 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16474,6 +16474,8 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
       else if (MDBX_DISABLE_VALIDATION || likely(mc->subcur)) {
         if (unlikely(!inner_pointed(mc)))
           return MDBX_ENODATA;
+        /* after a deletion the cursor becomes positioned to the value returned below */
+        mc->flags &= ~z_after_delete;
         return ((op == MDBX_FIRST_DUP) ? inner_first : inner_last)(&mc->subcur->cursor, data);
       } else
         return unexpected_dupsort(mc);
-- 
2.43.0


From 3cb7b8030d1e2402586202a9b10b13c06370628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 17/79] fix: endless loop in txn_abort() when latencies are
 requested

The loop that takes a consistent copy of the GC profiling counters used
memcpy() in place of memcmp(), thus never ended: mdbx_txn_commit_ex() of
a broken nested transaction hung.
---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 2817ee5..fc13dc1 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40919,7 +40919,7 @@ int txn_abort(MDBX_txn *txn, MDBX_commit_latency *latency) {
       do {
         snap = *latency;
         txn_latency_gcprof(txn->env, latency);
-      } while (unlikely(memcpy(latency, &snap, sizeof(snap))));
+      } while (unlikely(memcmp(latency, &snap, sizeof(snap))));
     }
   }
 
-- 
2.43.0


From ef9829a198331fe7e12dfe440930475038161fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 18/79] fix: mdbx_cursor_renew() dereferences the transaction
 before checking it

A NULL or a terminated transaction has to give an error, not a crash.
---
 mdbx.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index fc13dc1..6af151b 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5598,7 +5598,14 @@ MDBX_cursor *mdbx_cursor_create(void *context) {
 }
 
 int mdbx_cursor_renew(MDBX_txn *txn, MDBX_cursor *mc) {
-  return likely(mc) ? mdbx_cursor_bind(txn, mc, (kvx_t *)mc->clc - txn->env->kvs) : LOG_IFERR(MDBX_EINVAL);
+  if (unlikely(!mc))
+    return LOG_IFERR(MDBX_EINVAL);
+
+  const int rc = check_txn(txn, MDBX_TXN_FINISHED | MDBX_TXN_HAS_CHILD);
+  if (unlikely(rc != MDBX_SUCCESS))
+    return LOG_IFERR(rc);
+
+  return mdbx_cursor_bind(txn, mc, (kvx_t *)mc->clc - txn->env->kvs);
 }
 
 int mdbx_cursor_reset(MDBX_cursor *mc) {
-- 
2.43.0


From 410b806a68ff332f3551b034b8cc1e4f5438f1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:17 +0000
Subject: [PATCH 19/79] fix: a cursor stays live but unlinked after a failed
 mdbx_cursor_bind()

When cursor_init() fails, for instance since a read transaction is parked,
the cursor kept the live signature while it is not in the list of the
transaction, so the next use or close of it hit an assertion.
---
 mdbx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 6af151b..2535975 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5650,8 +5650,13 @@ int mdbx_cursor_bind(MDBX_txn *txn, MDBX_cursor *mc, MDBX_dbi dbi) {
   cASSERT0(mc, mc->next == mc);
 
   rc = cursor_init(mc, txn, dbi);
-  if (unlikely(rc != MDBX_SUCCESS))
+  if (unlikely(rc != MDBX_SUCCESS)) {
+    /* The cursor is not linked to the transaction, so must not stay live. */
+    cursor_drown((cursor_couple_t *)mc);
+    mc->signature = cur_signature_ready4dispose;
+    mc->next = mc;
     return LOG_IFERR(rc);
+  }
 
   mc->next = txn->cursors[dbi];
   txn->cursors[dbi] = mc;
-- 
2.43.0


From 0b8941191d79a408bc265a7cfc29f6e0f0b0b968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 20/79] fix: mdbx_txn_park() of a broken read transaction
 leaves it half-alive

The reader slot was released while the transaction was not finished, so
ending the transaction later released the slot once more and hit an
assertion as soon as the oldest reader had moved on. Finish (reset) the
transaction instead.
---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 2535975..e1ce6af 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40641,7 +40641,7 @@ int txn_ro_park(MDBX_txn *txn, bool autounpark) {
   }
 
   if (unlikely((txn->flags & MDBX_TXN_ERROR)))
-    return ro_slot_clean(txn);
+    return txn_ro_reset(txn);
 
   atomic_store64(&slot->tid, MDBX_TID_TXN_PARKED, mo_AcquireRelease);
   atomic_store32(&txn->env->lck->rdt_refresh_flag, true, mo_Relaxed);
-- 
2.43.0


From fcabff2f13451b3b9c968df003207d94e1135cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 21/79] fix: mdbx_txn_clone() onto a write transaction damages
 it

The handle to be reused is documented to be refused unless it is a valid
read-only transaction, but on the failure path it was reset as a reader
whatever it is.
---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index e1ce6af..39effd8 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11707,7 +11707,7 @@ bailout:
   if (clone) {
     if (clone != *in_out_clone)
       txn_ro_free(clone);
-    else
+    else if (check_txn(clone, 0) == MDBX_SUCCESS && (clone->flags & txn_ro_flat))
       txn_ro_reset(clone);
   }
   return LOG_IFERR(rc);
-- 
2.43.0


From 8b5c5d9d4db393b33057be87007b954e7fee2935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 22/79] fix: mdbx_txn_rollback() of a nested transaction leaves
 it finished

The nested transaction must be restarted, but it stayed in the finished
state with its page lists not dropped: further use of it failed, and since
it could be neither committed nor aborted its parent was stuck too.
---
 mdbx.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 39effd8..40ca9fb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40291,7 +40291,6 @@ int txn_nested_fakero_end(MDBX_txn *nested) {
 }
 
 int txn_nested_rollback(MDBX_txn *nested) {
-  cASSERT0(nested, nested->flags & txn_ro_nested);
   cASSERT0(nested, rkl_empty(&nested->wr.gc.comeback));
   MDBX_txn *parent = nested->parent;
   if (unlikely(!parent || parent->nested != nested || parent->env != nested->env)) {
@@ -40304,13 +40303,23 @@ int txn_nested_rollback(MDBX_txn *nested) {
     return MDBX_BAD_TXN;
   }
 
-  const unsigned preserved_flags = nested->flags & txn_ro_nested;
+  const unsigned preserved_flags = nested->flags & (MDBX_NOSTICKYTHREADS | MDBX_WRITEMAP | txn_ro_nested);
   int rc = nested_undo(nested);
-  if (likely(rc == MDBX_SUCCESS))
+  if (likely(rc == MDBX_SUCCESS)) {
+    /* drop the uncommitted pages and lists, then start anew */
+    txn_dpl_free(nested);
+    nested->wr.loose_count = 0;
+    nested->wr.loose_pages = nullptr;
+    pnl_free(nested->wr.repnl);
+    nested->wr.repnl = nullptr;
+    pnl_free(nested->wr.spilled.list);
+    nested->wr.spilled.list = nullptr;
+    rkl_destroy(&nested->wr.gc.reclaimed);
+    rkl_destroy(&nested->wr.gc.ready4reuse);
+    nested->flags = preserved_flags | (parent->flags & MDBX_TXN_SPILLS);
     rc = nested_start(nested, parent);
-  if (likely(rc == MDBX_SUCCESS))
-    nested->flags |= preserved_flags;
-  else
+  }
+  if (unlikely(rc != MDBX_SUCCESS))
     txn_nested_abort(nested);
   return rc;
 }
-- 
2.43.0


From 82187baae7a505a9ebe7c997f565b3075f8cca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 23/79] fix: a table handle becomes bad by an attempt to use it
 in a parked transaction

mdbx_cursor_open() within a parked transaction fails with MDBX_BAD_TXN, but
it also marked the not-yet-used table handle as gone, thus MDBX_BAD_DBI was
returned for it even after the transaction is unparked.
---
 mdbx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 40ca9fb..c3e04cf 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -36613,6 +36613,9 @@ int tbl_refresh(MDBX_txn *txn, size_t dbi) {
   cursor_couple_t couple;
   kvx_t *const kvx = &txn->env->kvs[dbi];
   int rc = tbl_fetch(txn, &couple.outer, dbi, &kvx->name, txn->dbs[dbi].flags);
+  if (unlikely(rc == MDBX_BAD_TXN))
+    /* The transaction is not usable just now (e.g. parked), that says nothing about the table. */
+    return rc;
   if (likely(rc != MDBX_SUCCESS))
     return dbi_gone(txn, dbi, rc);
 
-- 
2.43.0


From 6e0830c120225fe5b54288ccb2f1a24ed61e9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 24/79] fix: assertion in mdbx_txn_begin_ex() does not expect
 MDBX_TXN_TRY

In builds with assertions enabled any write transaction started with
MDBX_TXN_TRY hit it, since the flag is kept in the transaction.
---
 mdbx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index c3e04cf..f5cdb77 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11325,11 +11325,11 @@ int mdbx_txn_begin_ex(MDBX_env *env, MDBX_txn *parent, MDBX_txn_flags_t flags, M
   else {
     if (MDBX_ENABLE_FAKE_NESTED_READONLY_TRANSACTIONS)
       eASSERT0(env, (txn->flags & ~(MDBX_NOSTICKYTHREADS | MDBX_WRITEMAP | txn_shrink_allowed | txn_may_have_cursors |
-                                    MDBX_NOMETASYNC | MDBX_SAFE_NOSYNC | MDBX_TXN_SPILLS | txn_ro_nested |
+                                    MDBX_NOMETASYNC | MDBX_SAFE_NOSYNC | MDBX_TXN_SPILLS | MDBX_TXN_TRY | txn_ro_nested |
                                     MDBX_TXN_DIRTY | txn_gc_drained)) == 0);
     else {
       eASSERT0(env, (txn->flags & ~(MDBX_NOSTICKYTHREADS | MDBX_WRITEMAP | txn_shrink_allowed | txn_may_have_cursors |
-                                    MDBX_NOMETASYNC | MDBX_SAFE_NOSYNC | MDBX_TXN_SPILLS | txn_ro_nested)) == 0);
+                                    MDBX_NOMETASYNC | MDBX_SAFE_NOSYNC | MDBX_TXN_SPILLS | MDBX_TXN_TRY | txn_ro_nested)) == 0);
       eASSERT0(env, !txn->wr.spilled.list && !txn->wr.spilled.least_removed);
     }
     if (CHECKS2_ENABLED())
-- 
2.43.0


From b7ec145b56201cc1cf32b779c108255e53d2a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 25/79] fix: a clone of a parked read transaction is parked
 improperly

The clone's reader slot holds a parked mark in place of the snapshot id, so
the snapshot isn't protected and the clone can be neither un-parked nor
parked again.
---
 mdbx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index f5cdb77..cfa047b 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40736,7 +40736,9 @@ int txn_ro_clone(const MDBX_txn *const origin, MDBX_txn *const clone) {
       const uint64_t pages_retired = origin->ro.slot ? origin->ro.slot->snapshot_pages_retired.weak : 0;
       atomic_store32(&clone->ro.slot->snapshot_pages_used, pages_used, mo_Relaxed);
       atomic_store64(&clone->ro.slot->snapshot_pages_retired, pages_retired, mo_Relaxed);
-      safe64_write(&clone->ro.slot->txnid, (clone->flags & MDBX_TXN_PARKED) ? MDBX_TID_TXN_PARKED : clone->txnid);
+      safe64_write(&clone->ro.slot->txnid, clone->txnid);
+      if (clone->flags & MDBX_TXN_PARKED)
+        atomic_store64(&clone->ro.slot->tid, MDBX_TID_TXN_PARKED, mo_AcquireRelease);
     } else {
       /* exclusive mode without lck */
       eASSERT0(env, !env->lck_mmap.lck && env->lck == lckless_stub(env));
-- 
2.43.0


From 5a71632de2605611bd13719d23a00f9425a850b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 26/79] fix: writing through a parent's cursor within a
 read-only nested transaction

The first use of a cursor that belongs to the parent transaction shadows it
into the nested one, but the flags of the latter were not checked.
---
 mdbx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index cfa047b..cfececf 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16730,6 +16730,8 @@ int cursor_check(const MDBX_cursor *mc, int txn_bad_bits) {
     cASSERT0(mc, (mc->txn->flags & txn_ro_flat) == 0 && mc->txn == mc->txn->env->txn);
     if (unlikely(mc->txn != mc->txn->env->txn))
       return MDBX_BAD_TXN;
+    /* Теперь курсор связан с дочерней транзакцией, которая может быть только для чтения или поломанной */
+    return check_txn(mc->txn, txn_bad_bits);
   }
 
   return MDBX_SUCCESS;
-- 
2.43.0


From 9384e3d8a9a4d56f8950c221a9d033b32fbc74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 27/79] fix: assertion fails when a cursor of an auto-parked
 transaction is used

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index cfececf..763f4b9 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -41147,7 +41147,7 @@ int txn_check_badbits_parked(const MDBX_txn *txn, int bad_bits) {
   if ((txn->flags & (bad_bits | MDBX_TXN_AUTOUNPARK)) != (MDBX_TXN_PARKED | MDBX_TXN_AUTOUNPARK))
     return LOG_IFERR(MDBX_BAD_TXN);
 
-  cASSERT0(txn, bad_bits == MDBX_TXN_BLOCKED || bad_bits == MDBX_TXN_BLOCKED - MDBX_TXN_ERROR);
+  cASSERT0(txn, (bad_bits | MDBX_TXN_HAS_CHILD | MDBX_TXN_ERROR) == MDBX_TXN_BLOCKED);
   return mdbx_txn_unpark((MDBX_txn *)txn, false);
 }
 
-- 
2.43.0


From 0945164ae98864b5d721d82a67ed67db67e02204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 28/79] fix: tables' state isn't set up in a clone of a write
 transaction

---
 mdbx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 763f4b9..ba10397 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40779,7 +40779,8 @@ int txn_ro_clone(const MDBX_txn *const origin, MDBX_txn *const clone) {
     return MDBX_SUCCESS;
   }
 
-  return ro_seize(clone);
+  err = ro_seize(clone);
+  return likely(err == MDBX_SUCCESS) ? txn_setup_primal(clone) : err;
 }
 
 pgop_stat_t *txn_latency_gcprof(const MDBX_env *env, MDBX_commit_latency *latency) {
-- 
2.43.0


From 566606e0018b63df9bf2af30b3324eb2e4f23ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 29/79] fix: mdbx_cursor_scan() along multi-values of a key
 with a single value

---
 mdbx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index ba10397..6fc84e3 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6057,6 +6057,8 @@ __hot static int scan_confinue(MDBX_cursor *mc, MDBX_predicate_func predicate, v
         rc = predicate(context, key, value, arg);
         if (rc != MDBX_RESULT_FALSE)
           return rc;
+        if (!inner_pointed(mc))
+          return MDBX_RESULT_FALSE /* a single value has no siblings */;
         rc = inner_next(&mc->subcur->cursor, value);
         if (unlikely(rc != MDBX_SUCCESS))
           return (rc == MDBX_NOTFOUND) ? MDBX_RESULT_FALSE : rc;
@@ -6069,6 +6071,8 @@ __hot static int scan_confinue(MDBX_cursor *mc, MDBX_predicate_func predicate, v
         rc = predicate(context, key, value, arg);
         if (rc != MDBX_RESULT_FALSE)
           return rc;
+        if (!inner_pointed(mc))
+          return MDBX_RESULT_FALSE /* a single value has no siblings */;
         rc = inner_prev(&mc->subcur->cursor, value);
         if (unlikely(rc != MDBX_SUCCESS))
           return (rc == MDBX_NOTFOUND) ? MDBX_RESULT_FALSE : rc;
-- 
2.43.0


From fe76cdd578f4f612d6575e7bb8ceb4eb073aaa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 30/79] fix: mdbx_cursor_distance() counted from the first
 value of the key, not from the cursor

---
 mdbx.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 6fc84e3..4bd2014 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16778,7 +16778,7 @@ static cdr_t cursor_distance_at(MDBX_cursor *iter, const MDBX_cursor *end, int l
         break;
       tdr.distance += page_numkeys(iter->pg[iter->top]);
     }
-    tdr.distance += end_ki + ((end->flags & z_eof_hard) != 0 && level + 1 == end->tree->height);
+    tdr.distance += end_ki;
   }
   return tdr;
 }
@@ -16836,6 +16836,19 @@ cdr_t cursor_distance(MDBX_cursor *iter, const MDBX_cursor *end, int level) {
   }
 
   /* запрошенный уровень предполагает учет mutivalues/дубликатов */
+  size_t preceding = 0 /* number of values before the beginning within a same key */;
+  if (inner_pointed(iter)) {
+    const MDBX_cursor inner_begin = iter->subcur->cursor;
+    tdr.err = inner_first(&iter->subcur->cursor, nullptr);
+    if (unlikely(tdr.err != MDBX_SUCCESS))
+      return tdr;
+    const cdr_t preceding_tdr = cursor_distance_at(&iter->subcur->cursor, &inner_begin, level - iter->tree->height);
+    preceding = preceding_tdr.distance;
+    tdr.err = preceding_tdr.err;
+    if (unlikely(tdr.err != MDBX_SUCCESS))
+      return tdr;
+  }
+
   while (iter->pg[iter->top] != end->pg[iter->top]) {
     cdr_t leaf_tdr = cursor_leaf_amount(iter->pg[iter->top], iter->ki[iter->top], page_numkeys(iter->pg[iter->top]));
     tdr.distance += leaf_tdr.distance;
@@ -16870,6 +16883,7 @@ cdr_t cursor_distance(MDBX_cursor *iter, const MDBX_cursor *end, int level) {
     tdr.err = subtree_tdr.err;
   }
 
+  tdr.distance -= preceding;
   return tdr;
 }
 
-- 
2.43.0


From bae662ca1d3efefc333b3e3d278934d08bd00587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 31/79] fix: mdbx_cursor_scroll() missed by one value when it
 crossed a key with multi-values

---
 mdbx.c | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 4bd2014..d6f1500 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16980,19 +16980,26 @@ int cursor_scroll_forward(MDBX_cursor *mc, intptr_t amount, int level) {
       return err;
     mc->subcur->nested_tree.root = 0;
     mc->subcur->cursor.top_and_flags = z_inner | z_poor_mark;
-  }
+  } else
+    amount -= 1;
 
+  /* here the amount is a number of values to skip beyond the current key */
   while (true) {
     if (++mc->ki[mc->top] >= page_numkeys(mc->pg[mc->top])) {
       err = cursor_sibling_right(mc);
-      if (unlikely(err != MDBX_SUCCESS))
+      if (unlikely(err != MDBX_SUCCESS)) {
+        be_poor(mc);
         return err;
+      }
     }
 
     const node_t *node = page_node(mc->pg[mc->top], mc->ki[mc->top]);
     if ((node->flags & N_DUP) == 0) {
-      if (unlikely(--amount == 0))
-        return tree_deepen_edge(mc, Z_FIRST);
+      if (unlikely(amount == 0)) {
+        be_filled(mc);
+        return MDBX_SUCCESS;
+      }
+      amount -= 1;
       continue;
     }
 
@@ -17001,9 +17008,13 @@ int cursor_scroll_forward(MDBX_cursor *mc, intptr_t amount, int level) {
       return err;
     if ((size_t)amount < mc->subcur->nested_tree.items) {
       err = inner_first(&mc->subcur->cursor, nullptr);
+      if (likely(err == MDBX_SUCCESS) && amount > 0)
+        err = cursor_forward_at(&mc->subcur->cursor, amount, level - mc->tree->height).err;
       if (unlikely(err != MDBX_SUCCESS))
-        return err;
-      return cursor_forward_at(&mc->subcur->cursor, amount, level - mc->tree->height).err;
+        be_poor(mc);
+      else
+        be_filled(mc);
+      return err;
     }
     amount -= mc->subcur->nested_tree.items;
     mc->subcur->nested_tree.root = 0;
@@ -17026,19 +17037,26 @@ int cursor_scroll_backward(MDBX_cursor *mc, intptr_t amount, int level) {
       return err;
     mc->subcur->nested_tree.root = 0;
     mc->subcur->cursor.top_and_flags = z_inner | z_poor_mark;
-  }
+  } else
+    amount -= 1;
 
+  /* here the amount is a number of values to skip beyond the current key */
   while (true) {
     if (mc->ki[mc->top]-- < 1) {
       err = cursor_sibling_left(mc);
-      if (unlikely(err != MDBX_SUCCESS))
+      if (unlikely(err != MDBX_SUCCESS)) {
+        be_poor(mc);
         return err;
+      }
     }
 
     const node_t *node = page_node(mc->pg[mc->top], mc->ki[mc->top]);
     if ((node->flags & N_DUP) == 0) {
-      if (unlikely(--amount == 0))
-        return tree_deepen_edge(mc, Z_LAST);
+      if (unlikely(amount == 0)) {
+        be_filled(mc);
+        return MDBX_SUCCESS;
+      }
+      amount -= 1;
       continue;
     }
 
@@ -17047,9 +17065,13 @@ int cursor_scroll_backward(MDBX_cursor *mc, intptr_t amount, int level) {
       return err;
     if ((size_t)amount < mc->subcur->nested_tree.items) {
       err = inner_last(&mc->subcur->cursor, nullptr);
+      if (likely(err == MDBX_SUCCESS) && amount > 0)
+        err = cursor_backward_at(&mc->subcur->cursor, amount, level - mc->tree->height).err;
       if (unlikely(err != MDBX_SUCCESS))
-        return err;
-      return cursor_backward_at(&mc->subcur->cursor, amount, level - mc->tree->height).err;
+        be_poor(mc);
+      else
+        be_filled(mc);
+      return err;
     }
     amount -= mc->subcur->nested_tree.items;
     mc->subcur->nested_tree.root = 0;
-- 
2.43.0


From 2e45f5d133653e3925bfcf4c684ced91c54c5c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 32/79] fix: cursor left without a path to a leaf after
 mdbx_cursor_scroll() ran out of data

---
 mdbx.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index d6f1500..9c0288e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16896,8 +16896,12 @@ static cdr_t cursor_forward_at(MDBX_cursor *iter, size_t amount, int level) {
   while (tdr.distance >= step) {
     tdr.distance -= step;
     tdr.err = cursor_sibling_right(iter);
-    if (unlikely(tdr.err != MDBX_SUCCESS))
+    if (unlikely(tdr.err != MDBX_SUCCESS)) {
+      /* there is no path to a leaf, nor the values of a current key, anymore */
+      if (iter->top + 1 < iter->tree->height || iter->subcur)
+        be_poor(iter);
       return tdr;
+    }
     step = page_numkeys(iter->pg[iter->top]);
   }
 
@@ -16935,8 +16939,12 @@ static cdr_t cursor_backward_at(MDBX_cursor *iter, size_t amount, int level) {
   while (tdr.distance > iter->ki[iter->top]) {
     tdr.distance -= iter->ki[iter->top] + 1;
     tdr.err = cursor_sibling_left(iter);
-    if (unlikely(tdr.err != MDBX_SUCCESS))
+    if (unlikely(tdr.err != MDBX_SUCCESS)) {
+      /* there is no path to a leaf, nor the values of a current key, anymore */
+      if (iter->top + 1 < iter->tree->height || iter->subcur)
+        be_poor(iter);
       return tdr;
+    }
   }
 
   ASSERT(tdr.distance <= iter->ki[iter->top]);
-- 
2.43.0


From 8368c6def95e3873fd1fcdd7e264a57ec80b9d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 33/79] fix: range operations accepted cursors of different
 tables

---
 mdbx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 9c0288e..1279950 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6502,7 +6502,7 @@ int mdbx_cursor_delete_range(MDBX_cursor *begin, MDBX_cursor *end, bool end_incl
       return LOG_IFERR(MDBX_ENODATA);
   }
 
-  if (unlikely(begin && end && begin->txn != end->txn && begin->tree != end->tree))
+  if (unlikely(begin && end && (begin->txn != end->txn || begin->tree != end->tree)))
     return LOG_IFERR(MDBX_EINVAL);
 
   cursor_couple_t couple;
@@ -6559,7 +6559,7 @@ int mdbx_cursor_distribute(const MDBX_cursor *begin, const MDBX_cursor *end, MDB
       return LOG_IFERR(MDBX_ENODATA);
   }
 
-  if (unlikely(begin && end && begin->txn != end->txn && begin->tree != end->tree))
+  if (unlikely(begin && end && (begin->txn != end->txn || begin->tree != end->tree)))
     return LOG_IFERR(MDBX_EINVAL);
 
   const MDBX_cursor *ref = begin ? begin : end;
@@ -6569,7 +6569,7 @@ int mdbx_cursor_distribute(const MDBX_cursor *begin, const MDBX_cursor *end, MDB
       rc = cursor_check_pure(iter = array[i]);
       if (unlikely(rc != MDBX_SUCCESS))
         return LOG_IFERR(rc);
-      if (unlikely(iter->txn != ref->txn && iter->tree != ref->tree))
+      if (unlikely(iter->txn != ref->txn || iter->tree != ref->tree))
         return LOG_IFERR(MDBX_EINVAL);
     }
   }
@@ -6633,7 +6633,7 @@ int mdbx_cursor_distance(const MDBX_cursor *begin, const MDBX_cursor *end, intpt
       return LOG_IFERR(MDBX_ENODATA);
   }
 
-  if (unlikely(begin && end && begin->txn != end->txn && begin->tree != end->tree))
+  if (unlikely(begin && end && (begin->txn != end->txn || begin->tree != end->tree)))
     return LOG_IFERR(MDBX_EINVAL);
 
   cursor_couple_t couple_opposite;
-- 
2.43.0


From 4bafe79769fc4dba442308dee978264f857f2331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 34/79] fix: deleting all items by cursors reset the sequence
 of a table

---
 mdbx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 1279950..debf7ed 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6729,6 +6729,8 @@ __cold int mdbx_drop(MDBX_txn *txn, MDBX_dbi dbi, bool del) {
   if (unlikely(rc != MDBX_SUCCESS))
     return LOG_IFERR(rc);
 
+  if (cx.outer.tree->height)
+    cx.outer.tree->sequence = 0;
   rc = tbl_purge(&cx.outer);
   if (unlikely(rc != MDBX_SUCCESS))
     return LOG_IFERR(rc);
@@ -36696,7 +36698,6 @@ int tbl_purge(MDBX_cursor *mc) {
     mc->tree->large_pages = 0;
     mc->tree->items = 0;
     mc->tree->root = P_INVALID;
-    mc->tree->sequence = 0;
     /* mc->tree->mod_txnid = txn->txnid; */
     mc->txn->flags |= MDBX_TXN_DIRTY;
 
-- 
2.43.0


From 3b8bbc49240e888776efdc043dae46a5875e10a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 35/79] fix: mdbx_cursor_delete_range() deleted a value when
 the range of multi-values was reversed

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index debf7ed..cea1669 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -37289,7 +37289,7 @@ int tree_curoff_range(MDBX_cursor *begin, MDBX_cursor *end, bool end_including)
 
     const intptr_t inner_level = tree_diff_level(&begin->subcur->cursor, &end->subcur->cursor);
     if (unlikely(inner_level < 0)) {
-      if (unlikely(level != MDBX_RESULT_TRUE))
+      if (unlikely(inner_level != MDBX_RESULT_TRUE))
         return MDBX_ENODATA;
       /* у вложенных dupsort-курсоров позиции тоже совпадают, нечего удалять */
       return end_including ? cutoff_leaf(begin, 0) : MDBX_SUCCESS;
-- 
2.43.0


From c13eb6890525e7454cba026885f6f36669cc6dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 36/79] fix: sequence of an inlined nested tree was
 uninitialised, two assertions of range operations were wrong

---
 mdbx.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index cea1669..674d1c8 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -14596,6 +14596,7 @@ int cursor_dupsort_setup(MDBX_cursor *mc, const node_t *node, const page_t *mp)
     mx->nested_tree.branch_pages = 0;
     mx->nested_tree.leaf_pages = 1;
     mx->nested_tree.large_pages = 0;
+    mx->nested_tree.sequence = 0;
     mx->nested_tree.items = page_numkeys(sp);
     mx->nested_tree.root = 0;
     mx->nested_tree.mod_txnid = mp->txnid;
@@ -17129,7 +17130,8 @@ int cursor_distribute(const MDBX_cursor *begin, const MDBX_cursor *end, MDBX_cur
   if (unlikely(rc != MDBX_SUCCESS))
     return rc;
 
-  ASSERT(tdr.distance > 0);
+  /* the distance is zero if both cursors are on the same key and the level doesn't count multi-values */
+  ASSERT(tdr.distance >= 0);
   cursor_copy_position(begin, iter);
   size_t processed = 0;
   for (size_t i = 0; i < array_size; ++i) {
@@ -36184,7 +36186,8 @@ static size_t spill_cursor_keep(const MDBX_txn *const txn, const MDBX_cursor *mc
       }
     } while (++i <= mc->top);
 
-    cASSERT0(txn, is_leaf(mp));
+    /* cursor_touch() is also called for the branch part of a stack while cutting a range of pages off */
+    cASSERT0(txn, is_leaf(mp) || !inner_pointed(mc));
     if (!inner_pointed(mc))
       break;
     mc = &mc->subcur->cursor;
-- 
2.43.0


From 4d4405d22a8dbee6f282b032e62e68d1e87ec74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 37/79] fix: mdbx_dbi_close() overlooked uncommitted changes of
 intermediate nested transactions

---
 mdbx.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 674d1c8..d2ba15d 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6853,12 +6853,13 @@ int mdbx_dbi_close(MDBX_env *env, MDBX_dbi dbi) {
     osal_memory_barrier();
     if (unlikely(hazard != env->txn))
       continue;
-    if (hazard != env->basal_txn && hazard && (hazard->flags & MDBX_TXN_FINISHED) == 0 &&
-        hazard->signature == txn_signature &&
-        (dbi_state(hazard, dbi) & (DBI_LINDO | DBI_DIRTY | DBI_CREAT)) > DBI_LINDO) {
-      rc = MDBX_DANGLING_DBI;
-      goto bailout;
-    }
+    for (const MDBX_txn *scan = hazard; scan && scan != env->basal_txn && (scan->flags & MDBX_TXN_FINISHED) == 0 &&
+                                        scan->signature == txn_signature;
+         scan = scan->parent)
+      if ((dbi_state(scan, dbi) & (DBI_LINDO | DBI_DIRTY | DBI_CREAT)) > DBI_LINDO) {
+        rc = MDBX_DANGLING_DBI;
+        goto bailout;
+      }
     osal_compiler_barrier();
     if (likely(hazard == env->txn))
       break;
-- 
2.43.0


From 1a507c8ef425a5bd0c8fd5c5b60b3f153c48a269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 38/79] fix: opening a table with other flags succeeded when
 the tree was not fetched yet

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index d2ba15d..bc01155 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17452,7 +17452,7 @@ int dbi_bind(MDBX_txn *txn, const size_t dbi, unsigned user_flags, MDBX_cmp_func
       if (txn->dbi_state[dbi] & DBI_STALE) {
         eASSERT0(env, env->dbs_flags[dbi] & DB_VALID);
         int err = tbl_refresh(txn, dbi);
-        if (unlikely(err != MDBX_NOTFOUND))
+        if (unlikely(err != MDBX_SUCCESS && err != MDBX_NOTFOUND))
           return err;
       }
       eASSERT0(env, ((env->dbs_flags[dbi] ^ txn->dbs[dbi].flags) & DB_PERSISTENT_FLAGS) == 0);
-- 
2.43.0


From 7f6284130f4f3ea81ebc1c0cda84701450716e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 39/79] fix: refused opening of a table closed the handle in
 use by others

---
 mdbx.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index bc01155..963c45b 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17581,11 +17581,15 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
         rc = dbi_import(txn, slot);
       }
       if (unlikely(rc != MDBX_SUCCESS))
-        goto gone;
+        return rc;
 
       rc = dbi_bind(txn, slot, user_flags, keycmp, datacmp);
-      if (unlikely(rc != MDBX_SUCCESS))
-        goto gone;
+      if (unlikely(rc != MDBX_SUCCESS)) {
+        if (rc == MDBX_PROBLEM)
+          goto gone;
+        /* the refused request says nothing about the handle already in use */
+        return rc;
+      }
 
       if (unlikely((txn->dbi_state[slot] & DBI_STALE) == 0))
         goto done;
@@ -17612,6 +17616,10 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
         goto create;
       }
 
+      /* a table may be absent just for the snapshot of a reader, or because of an another process has dropped it */
+      if (rc != MDBX_NOTFOUND || (txn->flags & txn_ro_both))
+        return rc;
+
     gone:
       *defer_chain = dbi_close_locked(env, slot);
       return rc;
-- 
2.43.0


From d2062e9a9c379acf26fc3d8f3bef3138c38eaa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 40/79] fix: opening a table absent in the reader's snapshot
 returned success

---
 mdbx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdbx.c b/mdbx.c
index 963c45b..93005f3 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17814,6 +17814,7 @@ int dbi_open(MDBX_txn *txn, const MDBX_val *const name, unsigned user_flags, MDB
       rc = tbl_fetch(txn, &cx.outer, fastpath_slot = slot, name, user_flags);
       if (unlikely(rc != MDBX_SUCCESS)) {
         /* таблица отсутствует, её нужно создавать (если запрос с MDBX_CREATE), либо освобождать слот. */
+        fastpath_slot = 0;
         goto slowpath_locking;
       }
       txn->dbi_state[slot] -= DBI_STALE;
-- 
2.43.0


From 66eba1fdfd248f6f4c4bb9950fa1a14c6309218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 41/79] fix: renaming a table with not yet fetched tree loses
 its data

---
 mdbx.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 93005f3..0ecae66 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17853,6 +17853,13 @@ __cold struct dbi_rename_result dbi_rename_locked(MDBX_txn *txn, MDBX_dbi dbi, M
   if (unlikely(pair.err != MDBX_SUCCESS))
     return pair;
 
+  if (txn->dbi_state[dbi] & DBI_STALE) {
+    /* the tree of the table has not been read yet by this transaction */
+    pair.err = tbl_refresh(txn, dbi);
+    if (unlikely(pair.err != MDBX_SUCCESS))
+      return pair;
+  }
+
   MDBX_env *const env = txn->env;
   MDBX_val old_name = env->kvs[dbi].name;
   if (env->kvs[MAIN_DBI].clc.k.cmp(&new_name, &old_name) == 0 && MDBX_DEBUG < 1)
-- 
2.43.0


From beea3196aa493113d5af4e387e2f1c2e72e54ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 42/79] fix: a table dropped in a nested transaction was
 written with an empty name

---
 mdbx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 0ecae66..a48f827 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40261,11 +40261,15 @@ static int nested_join(MDBX_txn *nested, struct commit_timestamp *ts) {
   TXN_FOREACH_DBI_ALL(nested, dbi) {
     if (nested->dbi_state[dbi] != (parent->dbi_state[dbi] & ~(DBI_FRESH | DBI_CREAT | DBI_DIRTY))) {
       eASSERT0(env, (nested->dbi_state[dbi] & (DBI_CREAT | DBI_FRESH | DBI_DIRTY)) != 0 ||
+                        (nested->dbi_state[dbi] & DBI_VALID) == 0 ||
                         (nested->dbi_state[dbi] | DBI_STALE) ==
                             (parent->dbi_state[dbi] & ~(DBI_FRESH | DBI_CREAT | DBI_DIRTY)));
       parent->dbs[dbi] = nested->dbs[dbi];
       /* preserve parent's status */
-      const uint8_t state = nested->dbi_state[dbi] | (parent->dbi_state[dbi] & (DBI_CREAT | DBI_FRESH | DBI_DIRTY));
+      /* nothing to inherit if the table was dropped by the nested transaction, i.e. the handle is gone */
+      const uint8_t state =
+          nested->dbi_state[dbi] |
+          ((nested->dbi_state[dbi] & DBI_VALID) ? (parent->dbi_state[dbi] & (DBI_CREAT | DBI_FRESH | DBI_DIRTY)) : 0);
       DEBUG("dbi %zu dbi-state %s 0x%02x -> 0x%02x", dbi, (parent->dbi_state[dbi] != state) ? "update" : "still",
             parent->dbi_state[dbi], state);
       parent->dbi_state[dbi] = state;
-- 
2.43.0


From ee7da349a23bcb5eee6a0cd8be0241b12b97d561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 43/79] fix: aborting a nested transaction which dropped a
 table changed by the parent produced an empty-named table

---
 mdbx.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index a48f827..615e539 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40133,6 +40133,13 @@ static int nested_undo(MDBX_txn *nested) {
     dbi_update(nested, false);
 
   MDBX_txn *const parent = nested->parent;
+  TXN_FOREACH_DBI_USER(parent, dbi) {
+    if ((parent->dbi_state[dbi] & DBI_DIRTY) && !nested->env->kvs[dbi].name.iov_base) {
+      /* A table modified by the parent was dropped or re-created by the nested transaction, thus the handle was closed
+       * along with forgetting the name, so there is no way to save such changes of the parent. */
+      parent->flags |= MDBX_TXN_ERROR;
+    }
+  }
   if (nested->wr.retired_pages) {
     cASSERT0(parent, pnl_size(nested->wr.retired_pages) >= (uintptr_t)parent->wr.retired_pages);
     pnl_setsize(nested->wr.retired_pages, (uintptr_t)parent->wr.retired_pages);
-- 
2.43.0


From e69bbc9af4b076a19c1adc47d8bb2ec88ccdfeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 44/79] fix: renaming a table to a name that another live
 handle has made two handles for one table

---
 mdbx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 615e539..4fae614 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17875,6 +17875,14 @@ __cold struct dbi_rename_result dbi_rename_locked(MDBX_txn *txn, MDBX_dbi dbi, M
     return pair;
   }
 
+  /* a handle with the new name could be still in use, e.g. by a reader whose snapshot has such table */
+  for (size_t scan = CORE_DBS; scan < env->n_dbi; ++scan)
+    if (scan != dbi && (env->dbs_flags[scan] & DB_VALID) && env->kvs[scan].name.iov_base &&
+        env->kvs[MAIN_DBI].clc.k.cmp(&new_name, &env->kvs[scan].name) == 0) {
+      pair.err = MDBX_DANGLING_DBI;
+      return pair;
+    }
+
   pair.defer = osal_malloc(dbi_namelen(new_name));
   if (unlikely(!pair.defer)) {
     pair.err = MDBX_ENOMEM;
-- 
2.43.0


From 63f683d658e79293ba3ec8fb42288a8c6d5be256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 45/79] fix: enumeration of tables took the tree of an another
 table for a re-used handle

---
 mdbx.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 4fae614..9c0ec0c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17947,8 +17947,11 @@ __cold const tree_t *dbi_dig(const MDBX_txn *txn, const size_t dbi, tree_t *fall
     if (state & DBI_LINDO)
       switch (state & (DBI_VALID | DBI_STALE | DBI_OLDEN)) {
       case DBI_VALID:
+        if (dbi < CORE_DBS || dig->dbi_seqs[dbi] == txn->env->dbi_seqs[dbi].weak)
+          return dig->dbs + dbi;
+        __fallthrough /* fall through */;
       case DBI_OLDEN:
-        return dig->dbs + dbi;
+        /* the handle was closed and may be already re-used for an another table */
       case 0:
         return fallback;
       case DBI_VALID | DBI_STALE:
-- 
2.43.0


From 4a5797d426b0aca34fa1af22280321e73908307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 46/79] fix: a failed opening of a table left a poisoned slot

---
 mdbx.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 9c0ec0c..c9d2347 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17654,14 +17654,18 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
   maindb_cx->userctx = preserve_userctx;
 #endif /* MEMCHECK || ASAN */
   if (unlikely(rc != MDBX_SUCCESS)) {
-    if (rc != MDBX_NOTFOUND || !(user_flags & MDBX_CREATE))
+    if (rc != MDBX_NOTFOUND || !(user_flags & MDBX_CREATE)) {
+      env->dbs_flags[slot] = 0;
       return rc;
+    }
   }
 
   /* Done here so we cannot fail after creating a new DB */
   clone = osal_malloc(dbi_namelen(name));
-  if (unlikely(!clone))
+  if (unlikely(!clone)) {
+    env->dbs_flags[slot] = 0;
     return MDBX_ENOMEM;
+  }
   memcpy(clone, name.iov_base, name.iov_len);
   name.iov_base = clone;
 
-- 
2.43.0


From 0decefd774d8d9f375aee85fd79ae61c499b2181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 47/79] fix: a slot of a table dropped by a nested transaction
 was re-used while the parent holds its changes

---
 mdbx.c | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index c9d2347..ce10c97 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -1855,6 +1855,7 @@ typedef struct defer_free_item {
 } defer_free_item_t;
 
 MDBX_INTERNAL int dbi_defer_release(MDBX_env *const env, defer_free_item_t *const chain);
+static defer_free_item_t *dbi_close_locked(MDBX_env *env, MDBX_dbi dbi);
 MDBX_INTERNAL int dbi_close_release(MDBX_env *env, MDBX_dbi dbi);
 MDBX_INTERNAL const tree_t *dbi_dig(const MDBX_txn *txn, const size_t dbi, tree_t *fallback);
 
@@ -6753,8 +6754,18 @@ __cold int mdbx_drop(MDBX_txn *txn, MDBX_dbi dbi, bool del) {
         cASSERT0(txn, txn->flags & MDBX_TXN_DIRTY);
         txn->dbi_state[dbi] = DBI_LINDO | DBI_OLDEN;
         rc = osal_fastmutex_acquire(&env->dbi_lock);
-        if (likely(rc == MDBX_SUCCESS))
-          return LOG_IFERR(dbi_close_release(env, dbi));
+        if (likely(rc == MDBX_SUCCESS)) {
+          defer_free_item_t *const defer_chain = dbi_close_locked(env, dbi);
+          for (const MDBX_txn *scan = txn->parent; scan; scan = scan->parent)
+            if ((dbi_state(scan, dbi) & (DBI_LINDO | DBI_DIRTY | DBI_CREAT)) > DBI_LINDO) {
+              /* the slot must not be re-used while a parent transaction holds changes of the dropped table */
+              env->dbs_flags[dbi] = DB_POISON;
+              if (env->n_dbi <= dbi)
+                env->n_dbi = dbi + 1;
+              break;
+            }
+          return LOG_IFERR(dbi_defer_release(env, defer_chain));
+        }
       }
     }
   }
@@ -17171,7 +17182,6 @@ int cursor_distribute(const MDBX_cursor *begin, const MDBX_cursor *end, MDBX_cur
   return rc;
 }
 
-static defer_free_item_t *dbi_close_locked(MDBX_env *env, MDBX_dbi dbi);
 
 #if MDBX_ENABLE_DBI_SPARSE
 size_t dbi_bitmap_ctz_fallback(const MDBX_txn *txn, intptr_t bmi) {
@@ -17368,6 +17378,20 @@ int dbi_update(MDBX_txn *txn, bool keep) {
   cASSERT0(txn, (!txn->parent && txn == env->basal_txn) || !keep);
   bool locked = false;
   defer_free_item_t *defer_chain = nullptr;
+  if (!txn->parent) {
+    /* release the slots of tables dropped by nested transactions */
+    for (size_t dbi = CORE_DBS; dbi < env->n_dbi; ++dbi)
+      if (unlikely(env->dbs_flags[dbi] == DB_POISON)) {
+        if (!locked) {
+          int err = osal_fastmutex_acquire(&env->dbi_lock);
+          if (unlikely(err != MDBX_SUCCESS))
+            return err;
+          locked = true;
+        }
+        if (env->dbs_flags[dbi] == DB_POISON)
+          env->dbs_flags[dbi] = 0;
+      }
+  }
   TXN_FOREACH_DBI_USER(txn, dbi) {
     if (likely((txn->dbi_state[dbi] & DBI_CREAT) == 0))
       continue;
@@ -17396,7 +17420,7 @@ int dbi_update(MDBX_txn *txn, bool keep) {
         defer_chain = item;
       } else {
         eASSERT0(env, env->kvs[dbi].name.iov_len == 0);
-        eASSERT0(env, env->dbs_flags[dbi] == 0);
+        eASSERT0(env, env->dbs_flags[dbi] == 0 || env->dbs_flags[dbi] == DB_POISON);
       }
     }
   }
@@ -17404,7 +17428,7 @@ int dbi_update(MDBX_txn *txn, bool keep) {
   if (locked) {
     size_t i = env->n_dbi;
     eASSERT0(env, env->n_dbi >= CORE_DBS);
-    while ((env->dbs_flags[i - 1] & DB_VALID) == 0) {
+    while ((env->dbs_flags[i - 1] & DB_VALID) == 0 && env->dbs_flags[i - 1] != DB_POISON) {
       --i;
       eASSERT0(env, i >= CORE_DBS);
       eASSERT0(env, !env->dbs_flags[i] && !env->kvs[i].name.iov_len && !env->kvs[i].name.iov_base);
@@ -17564,7 +17588,8 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
   for (size_t scan = CORE_DBS; scan < env->n_dbi; ++scan) {
     if ((env->dbs_flags[scan] & DB_VALID) == 0) {
       /* Remember this free slot */
-      slot = (slot < scan) ? slot : scan;
+      if (env->dbs_flags[scan] != DB_POISON)
+        slot = (slot < scan) ? slot : scan;
       continue;
     }
     if (env->kvs[MAIN_DBI].clc.k.cmp(&name, &env->kvs[scan].name) == 0) {
@@ -17935,7 +17960,7 @@ static defer_free_item_t *dbi_close_locked(MDBX_env *env, MDBX_dbi dbi) {
         --i;
         eASSERT0(env, i >= CORE_DBS);
         eASSERT0(env, !env->dbs_flags[i] && !env->kvs[i].name.iov_len && !env->kvs[i].name.iov_base);
-      } while (i > CORE_DBS && !env->kvs[i - 1].name.iov_base);
+      } while (i > CORE_DBS && !env->kvs[i - 1].name.iov_base && env->dbs_flags[i - 1] != DB_POISON);
       env->n_dbi = (unsigned)i;
     }
   }
@@ -40282,10 +40307,6 @@ static int nested_join(MDBX_txn *nested, struct commit_timestamp *ts) {
   eASSERT0(env, parent->n_dbi == nested->n_dbi);
   TXN_FOREACH_DBI_ALL(nested, dbi) {
     if (nested->dbi_state[dbi] != (parent->dbi_state[dbi] & ~(DBI_FRESH | DBI_CREAT | DBI_DIRTY))) {
-      eASSERT0(env, (nested->dbi_state[dbi] & (DBI_CREAT | DBI_FRESH | DBI_DIRTY)) != 0 ||
-                        (nested->dbi_state[dbi] & DBI_VALID) == 0 ||
-                        (nested->dbi_state[dbi] | DBI_STALE) ==
-                            (parent->dbi_state[dbi] & ~(DBI_FRESH | DBI_CREAT | DBI_DIRTY)));
       parent->dbs[dbi] = nested->dbs[dbi];
       /* preserve parent's status */
       /* nothing to inherit if the table was dropped by the nested transaction, i.e. the handle is gone */
-- 
2.43.0


From 67f9961f6c80ae0b314e7f4e9234a26b12ee3b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 48/79] fix: re-creating a table absent for the transaction
 while its handle is in use loses the table

---
 mdbx.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index ce10c97..6bd0162 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17476,8 +17476,9 @@ int dbi_bind(MDBX_txn *txn, const size_t dbi, unsigned user_flags, MDBX_cmp_func
       if (txn->dbi_state[dbi] & DBI_STALE) {
         eASSERT0(env, env->dbs_flags[dbi] & DB_VALID);
         int err = tbl_refresh(txn, dbi);
-        if (unlikely(err != MDBX_SUCCESS && err != MDBX_NOTFOUND))
-          return err;
+        if (unlikely(err != MDBX_SUCCESS))
+          /* a reader could use the handle while its table is absent here */
+          return (err == MDBX_NOTFOUND) ? MDBX_DANGLING_DBI : err;
       }
       eASSERT0(env, ((env->dbs_flags[dbi] ^ txn->dbs[dbi].flags) & DB_PERSISTENT_FLAGS) == 0);
       eASSERT0(env, (txn->dbi_state[dbi] & (DBI_LINDO | DBI_VALID | DBI_STALE)) == (DBI_LINDO | DBI_VALID));
-- 
2.43.0


From b33e866c070596559f8c5270c9b2477f06fdc954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 49/79] fix: a reader could open its former table by a handle
 of the re-created one with other flags

---
 mdbx.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 6bd0162..45e347c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17634,8 +17634,14 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
         rc = tbl_fetch(txn, &maindb_cx->outer, slot, &name, user_flags);
       }
 
-      if (likely(rc == MDBX_SUCCESS))
+      if (likely(rc == MDBX_SUCCESS)) {
+        if (unlikely((txn->dbs[slot].flags ^ env->dbs_flags[slot]) & DB_PERSISTENT_FLAGS)) {
+          /* the handle is in use for the re-created table with an another flags */
+          txn->dbs[slot].flags = env->dbs_flags[slot] & DB_PERSISTENT_FLAGS;
+          return MDBX_INCOMPATIBLE;
+        }
         goto done;
+      }
 
       if (rc == MDBX_NOTFOUND && (user_flags & MDBX_CREATE)) {
         name = env->kvs[scan].name;
@@ -17847,6 +17853,11 @@ int dbi_open(MDBX_txn *txn, const MDBX_val *const name, unsigned user_flags, MDB
         fastpath_slot = 0;
         goto slowpath_locking;
       }
+      if (unlikely((txn->dbs[slot].flags ^ snap.flags) & DB_PERSISTENT_FLAGS)) {
+        /* the handle is in use for the re-created table with an another flags */
+        txn->dbs[slot].flags = snap.flags & DB_PERSISTENT_FLAGS;
+        return MDBX_INCOMPATIBLE;
+      }
       txn->dbi_state[slot] -= DBI_STALE;
     }
     *dbi = (MDBX_dbi)slot;
-- 
2.43.0


From 05d13bbfc234ce3ee06fdaa45174ea094ae8e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:23 +0000
Subject: [PATCH 50/79] fix: a new DB was not recoverable after a system crash
 until all its meta-pages had been flushed

---
 mdbx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 45e347c..f3fda14 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -20398,6 +20398,14 @@ __cold int dxb_setup(MDBX_env *env, const int lck_rc, const mdbx_mode_t mode_bit
     if (unlikely(err != MDBX_SUCCESS))
       return err;
 
+    if ((env->flags & MDBX_UTTERLY_NOSYNC) != MDBX_UTTERLY_NOSYNC) {
+      /* The initial meta-pages must reach the storage, since a commit may write and sync only a single of ones,
+       * and without the rest the DB becomes invalid after a system crash. */
+      err = dxb_fsync(env, MDBX_SYNC_DATA | MDBX_SYNC_SIZE);
+      if (unlikely(err != MDBX_SUCCESS))
+        return err;
+    }
+
 #if MDBX_CHECKING > 0 || MDBX_DEBUG > 0
     err = dxb_read_header(env, &header, lck_rc, mode_bits);
     if (unlikely(err != MDBX_SUCCESS))
-- 
2.43.0


From be403c5dcc0b39442077ca49485b9ad11e873bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:10 +0000
Subject: [PATCH 51/79] fix: MDBX_NOMETASYNC could corrupt a DB or lose more
 than the last transaction in case of a system crash

---
 mdbx.c | 54 ++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index f3fda14..7180324 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -3313,6 +3313,29 @@ static inline meta_ptr_t meta_prefer_steady(const MDBX_env *env, const troika_t
   return r;
 }
 
+/* Returns true if the meta-page of given txnid was written lazily, i.e. in the MDBX_NOMETASYNC mode,
+ * so it's signed as steady but still may be not flushed to the storage. */
+static inline bool meta_is_lazy(const MDBX_env *env, txnid_t txnid) {
+  const uint32_t dist = (uint32_t)txnid - atomic_load32(&env->lck->meta_sync_txnid, mo_Relaxed);
+  return dist == MDBX_NOMETASYNC_LAZY_FD || dist == MDBX_NOMETASYNC_LAZY_WRITEMAP;
+}
+
+/* Returns the steady meta-page which bounds the reclaiming of a GC, i.e. the one to which a DB will be rolled back
+ * in case of a system crash. This is the previous steady meta-page while the last one was not flushed yet. */
+static inline meta_ptr_t meta_gc_barrier(const MDBX_env *env, const troika_t *troika) {
+  meta_ptr_t r = meta_prefer_steady(env, troika);
+  if (r.is_steady && unlikely(meta_is_lazy(env, r.txnid))) {
+    const uint8_t lazy = troika->prefer_steady;
+    txnid_t txnid = 0;
+    for (uint8_t i = 0; i < NUM_METAS; ++i)
+      if (i != lazy && ((troika->fsm >> i) & 1) && troika->txnid[i] > txnid) {
+        r.txnid = txnid = troika->txnid[i];
+        r.ptr_v = METAPAGE(env, i);
+      }
+  }
+  return r;
+}
+
 static inline meta_ptr_t meta_tail(const MDBX_env *env, const troika_t *troika) {
   const uint8_t tail = troika->tail_and_flags & 3;
   MDBX_ANALYSIS_ASSUME(tail < NUM_METAS);
@@ -18154,9 +18177,14 @@ static int defrag_load_gc(dfc_t *dfc) {
             const meta_ptr_t recent = meta_recent(txn->env, &txn->wr.troika);
             ASSERT(recent.txnid > txn->env->gc.detent);
             meta_t meta = *recent.ptr_c;
-            rc = dxb_sync_locked(txn->env, txn->env->flags & (MDBX_WRITEMAP | MDBX_NOMETASYNC), &meta, &txn->wr.troika);
+            rc = dxb_sync_locked(txn->env, txn->env->flags & MDBX_WRITEMAP, &meta, &txn->wr.troika);
+            if (unlikely(rc != MDBX_SUCCESS))
+              break;
+          } else if (meta_gc_barrier(txn->env, &txn->wr.troika).txnid == txn->env->gc.detent) {
+            rc = meta_sync(txn->env, meta_recent(txn->env, &txn->wr.troika));
             if (unlikely(rc != MDBX_SUCCESS))
               break;
+            atomic_store32(&txn->env->lck->rdt_refresh_flag, true, mo_Relaxed);
           }
           if (txn_gc_detent(txn))
             continue;
@@ -20981,9 +21009,6 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
   rc = MDBX_RESULT_FALSE /* carry steady */;
   const uint64_t snap_unsynced_pages = atomic_load64(&env->lck->unsynced_pages, mo_Relaxed);
   if (snap_unsynced_pages) {
-    if (snap_unsynced_pages == 1 && (flags & MDBX_NOMETASYNC))
-      goto skip_lastmeta_sync;
-
     eASSERT0(env, ((flags ^ env->flags) & MDBX_WRITEMAP) == 0);
     enum osal_syncmode_bits mode_bits = MDBX_SYNC_NONE;
     if ((flags & MDBX_SAFE_NOSYNC) == 0) {
@@ -21018,7 +21043,6 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
     /* Может быть нулевым если unsynced_pages > 0 в результате спиллинга.
      * eASSERT0(env, env->lck->eoos_timestamp.weak != 0); */
     unaligned_poke_u64(4, pending->sign, DATASIGN_WEAK);
-  skip_lastmeta_sync:;
   }
 
   const bool legal4overwrite = head.txnid == pending->unsafe_txnid &&
@@ -21109,6 +21133,9 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
     osal_flush_incoherent_cpu_writeback();
     jitter4testing(true);
     if (!env->incore) {
+      if (flags & MDBX_NOMETASYNC)
+        /* the meta should be flushed during the next sync */
+        env->lck->unsynced_pages.weak += 1;
       if (!MDBX_AVOID_MSYNC)
         /* sync meta-pages */
         rc = dxb_msync(env, NUM_METAS, (flags & MDBX_NOMETASYNC) ? MDBX_SYNC_NONE : MDBX_SYNC_DATA | MDBX_SYNC_IODQ);
@@ -23029,6 +23056,17 @@ depleted_gc:
   /* Does reclaiming stopped at the last steady point? */
   const meta_ptr_t recent = meta_recent(env, &txn->wr.troika);
   const meta_ptr_t prefer_steady = meta_prefer_steady(env, &txn->wr.troika);
+  if ((flags & ALLOC_UNIMPORTANT) == 0 && recent.ptr_c == prefer_steady.ptr_c && prefer_steady.is_steady &&
+      txn->env->gc.detent < prefer_steady.txnid && (num == 0 || newnext >= txn->geo.end_pgno) &&
+      txn->env->gc.detent == meta_gc_barrier(env, &txn->wr.troika).txnid) {
+    /* flush the lazily written meta-page rather than extend the database file */
+    ret.err = meta_sync(env, recent);
+    DEBUG("gc-sync-meta, rc %d", ret.err);
+    if (unlikely(ret.err != MDBX_SUCCESS))
+      goto fail;
+    atomic_store32(&env->lck->rdt_refresh_flag, true, mo_Relaxed);
+    goto retry_gc_refresh_detent;
+  }
   if ((flags & ALLOC_UNIMPORTANT) == 0 && recent.ptr_c != prefer_steady.ptr_c && prefer_steady.is_steady &&
       txn->env->gc.detent == prefer_steady.txnid) {
     DEBUG("gc-kick-steady: recent %" PRIaTXN "-%s, steady %" PRIaTXN "-%s", recent.txnid, durable_caption(recent.ptr_c),
@@ -23068,7 +23106,7 @@ depleted_gc:
       env->lck->pgops.gc_prof.flushes += 1;
 #endif /* MDBX_ENABLE_PROFGC */
       meta_t meta = *recent.ptr_c;
-      ret.err = dxb_sync_locked(env, env->flags & (MDBX_WRITEMAP | MDBX_NOMETASYNC), &meta, &txn->wr.troika);
+      ret.err = dxb_sync_locked(env, env->flags & MDBX_WRITEMAP, &meta, &txn->wr.troika);
       DEBUG("gc-make-steady, rc %d", ret.err);
       eASSERT0(env, ret.err != MDBX_RESULT_TRUE);
       if (unlikely(ret.err != MDBX_SUCCESS))
@@ -28184,7 +28222,7 @@ __hot orsi_rw_t mvcc_shapshot_oldest_rw(const MDBX_txn *const txn) {
   lck_t *const lck = txn->env->lck;
   uint64_t oldest_retired_pages = lck->cached_oldest_retired.weak;
   const txnid_t prev_oldest = atomic_load64(&lck->cached_oldest_txnid, mo_AcquireRelease);
-  const meta_ptr_t steady = meta_prefer_steady(txn->env, &txn->wr.troika);
+  const meta_ptr_t steady = meta_gc_barrier(txn->env, &txn->wr.troika);
   orsi_rw_t result = {.steady_txnid = steady.txnid, .oldest_txnid = prev_oldest};
   cASSERT0(txn, steady.txnid <= txn->env->basal_txn->txnid);
   cASSERT0(txn, steady.txnid >= prev_oldest);
@@ -39560,7 +39598,7 @@ int txn_basal_commit(MDBX_txn *txn, struct commit_timestamp *ts) {
 #if defined(_WIN32) || defined(_WIN64)
         !env->ioring.overlapped_fd &&
 #endif
-        meta_sync_txnid == (uint32_t)head.txnid - txnid_dist)
+        ((env->flags | txn->flags) & MDBX_SAFE_NOSYNC) == 0 && meta_sync_txnid == (uint32_t)head.txnid - txnid_dist)
       need_flush_for_nometasync = true;
     else {
       int err = meta_sync(env, head);
-- 
2.43.0


From ecf12b9694e31861efc3455362d45bb7cb4a2cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 52/79] fix: wrong assertion of cache_get() about the trunk
 txnid of an unchanged table

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 7180324..24232fa 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8924,7 +8924,7 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
   if (trunk_txnid <= entry->last_confirmed_txnid) {
     /* the corresponding table has not been changed since the last check. */
     cASSERT0(txn, (txn->dbi_state[dbi] & DBI_DIRTY) == 0);
-    cASSERT0(txn, trunk_txnid == entry->trunk_txnid);
+    cASSERT0(txn, trunk_txnid >= entry->trunk_txnid);
   confirmed:
     cASSERT0(txn, trunk_txnid <= committed_snapshot_txnid && trunk_txnid <= entry->last_confirmed_txnid);
     data->iov_base = entry->offset ? ptr_disp(txn->env->dxb_mmap.base, entry->offset) : nullptr;
-- 
2.43.0


From d65907bdfb37d05db44ba1276d833a808fa80232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 53/79] fix: assertion of safe64_write() was wrong when another
 thread updates a cache entry

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 24232fa..5727ed0 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -376,7 +376,7 @@ MDBX_MAYBE_UNUSED static __always_inline void safe64_write(mdbx_atomic_uint64_t
   /* update high-part from SAFE64_INVALID_THRESHOLD to actual value */
   atomic_store32(&p->high, (uint32_t)(v >> 32), mo_AcquireRelease);
 #endif /* MDBX_64BIT_ATOMIC */
-  ASSERT(p->weak == v);
+  ASSERT(p->weak >= v); /* could be reset or advanced by another thread right after the store */
   jitter4testing(true);
 }
 
-- 
2.43.0


From cf1226c8830bba59a770dad4a1f6bc663a87a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 54/79] fix: assertions of cache_get() were wrong for an empty
 value at the end of a page

---
 mdbx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 5727ed0..29ec154 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8865,14 +8865,14 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
       /* cache hit fast-path */
       data->iov_base = ptr_disp(txn->env->dxb_mmap.base, entry->offset);
       data->iov_len = entry->length;
-      tASSERT1(txn, (!entry->offset && !entry->length) || is_inside_dxb_and_commited(txn, data->iov_base));
+      tASSERT1(txn, !data->iov_len || is_inside_dxb_and_commited(txn, data->iov_base));
       return cache_result(MDBX_SUCCESS, MDBX_CACHE_HIT);
     }
 
     if (txn->txnid == entry->last_confirmed_txnid || txn->txnid == entry->trunk_txnid) {
       data->iov_base = nullptr;
       data->iov_len = 0;
-      tASSERT1(txn, (!entry->offset && !entry->length) || is_inside_dxb_and_commited(txn, data->iov_base));
+      tASSERT1(txn, !data->iov_len || is_inside_dxb_and_commited(txn, data->iov_base));
       return cache_result(MDBX_NOTFOUND, MDBX_CACHE_HIT);
     }
 
@@ -8929,7 +8929,7 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
     cASSERT0(txn, trunk_txnid <= committed_snapshot_txnid && trunk_txnid <= entry->last_confirmed_txnid);
     data->iov_base = entry->offset ? ptr_disp(txn->env->dxb_mmap.base, entry->offset) : nullptr;
     data->iov_len = entry->length;
-    tASSERT1(txn, (!entry->offset && !entry->length) || is_inside_dxb_and_commited(txn, data->iov_base));
+    tASSERT1(txn, !data->iov_len || is_inside_dxb_and_commited(txn, data->iov_base));
     if (entry->last_confirmed_txnid == committed_snapshot_txnid)
       return cache_result(data->iov_base ? MDBX_SUCCESS : MDBX_NOTFOUND, MDBX_CACHE_HIT);
     entry->last_confirmed_txnid = committed_snapshot_txnid;
@@ -9077,7 +9077,7 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
     return cache_result(MDBX_SUCCESS, MDBX_CACHE_DIRTY);
   }
 
-  tASSERT0(txn, is_inside_dxb_and_commited(txn, data->iov_base));
+  tASSERT0(txn, !data->iov_len || is_inside_dxb_and_commited(txn, data->iov_base));
   cASSERT0(txn, trunk_txnid <= committed_snapshot_txnid && trunk_txnid > entry->last_confirmed_txnid &&
                     trunk_txnid > entry->trunk_txnid);
   entry->offset = ptr_dist(data->iov_base, txn->env->dxb_mmap.base);
-- 
2.43.0


From 0322ec9e089347c70c09a61bd44334ce0d408773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 55/79] fix: a non-compacting copy of a DB was always empty

---
 mdbx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 29ec154..1e79252 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5227,6 +5227,9 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
   uint8_t *const data_buffer = buffer + ceil_powerof2(meta_bytes, globals.sys_pagesize);
   meta_t *const meta = meta_init_triplet(env, buffer);
   meta_set_txnid(env, meta, txn->txnid);
+  meta->geometry = txn->geo;
+  meta->trees.gc = txn->dbs[FREE_DBI];
+  meta->trees.main = txn->dbs[MAIN_DBI];
 
   if (flags & MDBX_CP_FORCE_DYNAMIC_SIZE)
     meta_make_sizeable(meta);
@@ -5237,6 +5240,8 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
     meta->canary.v = constmeta_txnid(meta);
   }
 
+  meta_sign_as_steady(meta);
+
   int rc = MDBX_SUCCESS;
   if (flags & MDBX_CP_THROTTLE_MVCC) {
     rc = mdbx_txn_park(txn, false);
-- 
2.43.0


From 0fbd853127aac911743c33b2949077659a2537d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 56/79] fix: a non-compacting copy into a pipe was broken by
 writing the meta-pages twice

---
 mdbx.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 1e79252..6626dfd 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5255,7 +5255,6 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
     rc = osal_write(fd, buffer, meta_bytes);
     if (unlikely(rc != MDBX_SUCCESS))
       return rc;
-    offset = 0;
   }
 
 #if MDBX_USE_COPYFILERANGE
-- 
2.43.0


From e3dfdfde4ee64f80f380122b63fb6390be1ab902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 57/79] fix: a compacting copy into a pipe had an invalid root
 page number within meta-pages

---
 mdbx.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 6626dfd..44dacdd 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5148,6 +5148,8 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
       if (dest_is_pipe) {
         if (!meta->trees.main.mod_txnid)
           meta->trees.main.mod_txnid = txn->txnid;
+        /* the root page will be written last */
+        meta->trees.main.root = meta->geometry.first_unallocated - 1;
         compacting_fixup_meta(env, meta);
         if (flags & MDBX_CP_THROTTLE_MVCC)
           mdbx_txn_park(txn, false);
@@ -5155,8 +5157,11 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
         if (likely(rc == MDBX_SUCCESS) && (flags & MDBX_CP_THROTTLE_MVCC) != 0)
           rc = mdbx_txn_unpark(txn, false);
       }
-      if (likely(rc == MDBX_SUCCESS))
-        rc = compacting_walk_tree(&ctx, &meta->trees.main);
+      if (likely(rc == MDBX_SUCCESS)) {
+        tree_t tree = txn->dbs[MAIN_DBI];
+        rc = compacting_walk_tree(&ctx, &tree);
+        meta->trees.main = tree;
+      }
       if (ctx.write_len[ctx.head & 1])
         /* toggle to flush non-empty buffers */
         compacting_toggle_write_buffers(&ctx);
-- 
2.43.0


From 7bf727bc07c84a8239d94775cb5067e936ed7641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:48 +0000
Subject: [PATCH 58/79] fix: copying from a nested transaction with a dirty
 parent silently produced a broken copy

---
 mdbx.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 44dacdd..5446432 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5365,8 +5365,9 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
 //----------------------------------------------------------------------------
 
 __cold static int copy2fd(MDBX_txn *txn, mdbx_filehandle_t fd, MDBX_copy_flags_t flags) {
-  if (unlikely(txn->flags & MDBX_TXN_DIRTY))
-    return MDBX_BAD_TXN;
+  for (const MDBX_txn *scan = txn; scan; scan = scan->parent)
+    if (unlikely(scan->flags & MDBX_TXN_DIRTY))
+      return MDBX_BAD_TXN;
 
   int rc = MDBX_SUCCESS;
   if (txn->flags & txn_ro_flat) {
-- 
2.43.0


From 2b5049777c7291089d019856c339bb4f8c2a7df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 59/79] fix: a compacting copy of an empty main table lost its
 sequence

---
 mdbx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdbx.c b/mdbx.c
index 5446432..9b91f4e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5089,6 +5089,7 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
     /* When the DB is empty, handle it specially to
      * fix any breakage like page leaks from ITS#8174. */
     meta->trees.main.flags = txn->dbs[MAIN_DBI].flags;
+    meta->trees.main.sequence = txn->dbs[MAIN_DBI].sequence;
     compacting_fixup_meta(env, meta);
     if (dest_is_pipe) {
       if (flags & MDBX_CP_THROTTLE_MVCC)
-- 
2.43.0


From 5b5d8956b508b065376495c7d9db0de7dd1699a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 60/79] fix: statistics of the environment missed tables
 located on a page after an opened one

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 9b91f4e..effaa0e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -36894,8 +36894,8 @@ int tbl_stat_summary(const MDBX_txn *txn, MDBX_stat *st) {
         tree_t db;
         memcpy(&db, node_data(node), sizeof(db));
         tbl_stat_add(&db, st);
+      next:;
       }
-    next:
       err = cursor_sibling_right(&cx.outer);
     }
     if (unlikely(err != MDBX_NOTFOUND))
-- 
2.43.0


From 073475275e1e319d9419d3b5dc42adf9390f5b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 61/79] fix: statistics of the environment within a nested
 transaction missed uncommitted changes of its parents

---
 mdbx.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index effaa0e..6ab7bed 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -36884,16 +36884,20 @@ int tbl_stat_summary(const MDBX_txn *txn, MDBX_stat *st) {
           return MDBX_CORRUPTED;
         }
 
-        /* skip opened and already accounted */
+        tree_t reside;
+        const tree_t *tree = memcpy(&reside, node_data(node), sizeof(reside));
         const MDBX_val name = {node_key(node), node_ks(node)};
-        TXN_FOREACH_DBI_USER(txn, dbi)
-        if ((txn->dbi_state[dbi] & (DBI_VALID | DBI_STALE)) == DBI_VALID &&
-            env->kvs[MAIN_DBI].clc.k.cmp(&name, &env->kvs[dbi].name) == 0)
-          goto next;
-
-        tree_t db;
-        memcpy(&db, node_data(node), sizeof(db));
-        tbl_stat_add(&db, st);
+        for (size_t dbi = CORE_DBS; dbi < txn->n_dbi && dbi < env->n_dbi; ++dbi) {
+          if (!(env->dbs_flags[dbi] & DB_VALID) || env->kvs[MAIN_DBI].clc.k.cmp(&name, &env->kvs[dbi].name) != 0)
+            continue;
+          /* skip opened and already accounted */
+          if ((dbi_state(txn, dbi) & (DBI_VALID | DBI_STALE)) == DBI_VALID)
+            goto next;
+          /* take into account an uncommitted changes of parent transactions */
+          tree = dbi_dig(txn, dbi, &reside);
+          break;
+        }
+        tbl_stat_add(tree, st);
       next:;
       }
       err = cursor_sibling_right(&cx.outer);
-- 
2.43.0


From 3869c8a16e07a8047a4f491d074efaf64a454348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:14 +0000
Subject: [PATCH 62/79] fix: defragmentation within a dirty write transaction
 crashed or lost pages

---
 mdbx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 6ab7bed..c7d45d3 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -18497,7 +18497,7 @@ static int defrag_move(dfc_t *dfc, da_t *arc) {
   const size_t di = ((txn->flags & MDBX_WRITEMAP) == 0 || MDBX_AVOID_MSYNC) ? txn_dpl_exist(txn, arc->key_or_pgno) : 0;
   if (di) {
     page_t *dst = txn->wr.dirtylist->items[di].ptr;
-    if (!MDBX_AVOID_MSYNC || (txn->flags & MDBX_WRITEMAP)) {
+    if (txn->flags & MDBX_WRITEMAP) {
       const page_t *const src = dst;
       dst = pgno2page(txn->env, arc->mapped);
       page_copy(dst, src, pgno2bytes(txn->env, npages));
@@ -18510,7 +18510,9 @@ static int defrag_move(dfc_t *dfc, da_t *arc) {
       return err;
 
     dfc->cycle_pages_moved += npages;
-    return defrag_fixup_page(dfc, dst, arc->mapped);
+    err = defrag_fixup_page(dfc, dst, arc->mapped);
+    dst->txnid = txn->front_txnid;
+    return err;
   }
 
   page_t *const dst =
-- 
2.43.0


From 786ccfa5ae8df145d58e06f7d26138e3dfd3b521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:14 +0000
Subject: [PATCH 63/79] fix: defragmentation could cycle endlessly without any
 progress

---
 mdbx.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index c7d45d3..8a6f7e0 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8734,8 +8734,9 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
   dfc.user_ctx = ctx;
   dfc.user_callback = progress_callback;
 
+  unsigned fruitless_retry = 0;
   while ((size_t)acceptable_backlash + dfc.payload_pages < txn->geo.first_unallocated && !defrag_discontinued(&dfc)) {
-    const pgno_t prev_stumble = dfc.stumble_pgno;
+    const pgno_t prev_stumble = dfc.stumble_pgno, prev_allocated = txn->geo.first_unallocated;
     rc = defrag_cycle(&dfc);
 
 #if MDBX_CHECKING > 1
@@ -8774,6 +8775,13 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
       dfc.stopping_reasons |= MDBX_defrag_error;
       break;
     }
+
+    fruitless_retry = (dfc.cycle_pages_moved || txn->geo.first_unallocated < prev_allocated) ? 0 : fruitless_retry + 1;
+    if (fruitless_retry > 3) {
+      NOTICE("bailout since no progress (still %u pages) in a few retries", txn->geo.first_unallocated);
+      rc = MDBX_RESULT_TRUE;
+      break;
+    }
   }
 
   if (txn && txn->userctx == &dfc) {
-- 
2.43.0


From 316793493e6d48e80dc355835bfb2caa10f9f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:14 +0000
Subject: [PATCH 64/79] fix: defragmentation ignored a failed copying of large
 pages

---
 mdbx.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 8a6f7e0..9d588e9 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -18574,9 +18574,8 @@ static int defrag_move(dfc_t *dfc, da_t *arc) {
 #if MDBX_USE_COPYFILERANGE
         const ssize_t remainted = pgno2bytes(env, npages - i);
         const ssize_t copied = copy_file_range(env->dxb_mmap.fd, &off_src, env->dxb_mmap.fd, &off_dst, remainted, 0);
-        err = MDBX_SUCCESS;
         if (unlikely(copied != remainted))
-          err = (copied < 0) ? errno : MDBX_EIO;
+          return (copied < 0) ? errno : MDBX_EIO;
         break;
 #else
 #if MDBX_CHECKING > 1
-- 
2.43.0


From fc45842219ba9e6565183c11a36e5462cb8fdfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:14 +0000
Subject: [PATCH 65/79] fix: wrong number of the pages shrinked by a
 defragmentation

---
 mdbx.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 9d588e9..80efa5b 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8734,6 +8734,7 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
   dfc.user_ctx = ctx;
   dfc.user_callback = progress_callback;
 
+  pgno_t committed_allocated = txn->geo.first_unallocated;
   unsigned fruitless_retry = 0;
   while ((size_t)acceptable_backlash + dfc.payload_pages < txn->geo.first_unallocated && !defrag_discontinued(&dfc)) {
     const pgno_t prev_stumble = dfc.stumble_pgno, prev_allocated = txn->geo.first_unallocated;
@@ -8776,6 +8777,7 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
       break;
     }
 
+    committed_allocated = txn->geo.first_unallocated;
     fruitless_retry = (dfc.cycle_pages_moved || txn->geo.first_unallocated < prev_allocated) ? 0 : fruitless_retry + 1;
     if (fruitless_retry > 3) {
       NOTICE("bailout since no progress (still %u pages) in a few retries", txn->geo.first_unallocated);
@@ -8786,11 +8788,13 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
 
   if (txn && txn->userctx == &dfc) {
     if ((txn->flags & MDBX_TXN_ERROR) == 0) {
-      if (defrag_score(&dfc, dfc.last_allocated = txn->geo.first_unallocated) > dfc.cycle_initial_score) {
+      if (defrag_score(&dfc, txn->geo.first_unallocated) > dfc.cycle_initial_score) {
         rc = txn_basal_commit(txn, nullptr);
-        dfc.last_allocated = txn->geo.first_unallocated;
+        if (likely(rc == MDBX_SUCCESS))
+          committed_allocated = txn->geo.first_unallocated;
       }
     }
+    dfc.last_allocated = committed_allocated;
     dfc.txn = nullptr;
     int err = txn_basal_end(txn, true);
     rc = (err != MDBX_SUCCESS && !MDBX_IS_ERROR(rc)) ? err : rc;
@@ -18056,7 +18060,7 @@ uint64_t defrag_result(dfc_t *dfc, MDBX_defrag_result_t *out, uint64_t now_cache
   memset(out, 0, sizeof(*out));
   if (dfc->txn)
     dfc->last_allocated = dfc->txn->geo.first_unallocated;
-  out->pages_shrinked = dfc->before_defrag - dfc->last_allocated;
+  out->pages_shrinked = (intptr_t)dfc->before_defrag - (intptr_t)dfc->last_allocated;
   out->pages_moved = dfc->cycle_pages_moved;
   out->pages_scheduled = dfc->cycle_pages_scheduled;
   out->pages_retained = dfc->gc_retained_pages;
-- 
2.43.0


From 5dbc153ec0c17488063a26b20f8ca31682de2ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 66/79] fix: mdbx_gc_info() looped endlessly at a reclaimed
 record of GC

---
 mdbx.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 80efa5b..6e741a4 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8653,10 +8653,7 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
       }
 
       const txnid_t id = unaligned_peek_u64(4, gc_key.iov_base);
-      if ((txn->flags & txn_ro_flat) == 0 && gc_is_reclaimed(txn, id))
-        continue;
-
-      const size_t len = pnl_size(glr.pnl);
+      const size_t len = ((txn->flags & txn_ro_flat) == 0 && gc_is_reclaimed(txn, id)) ? 0 : pnl_size(glr.pnl);
       const bool is_reclaimable = id <= reclaiming_detent;
       info->pages_gc += len;
       if (is_reclaimable)
-- 
2.43.0


From e36272547513cb60bac999247a3503a2743e8954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 67/79] fix: mdbx_gc_info() passed the last page of a span
 instead of the starting one

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 6e741a4..795b571 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8660,7 +8660,7 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
         info->gc_reclaimable.pages += len;
       for (size_t span, i = 1; i <= len; i += span) {
         span = pnl_scan_span(glr.pnl, i);
-        const size_t pgno = glr.pnl[i];
+        const size_t pgno = glr.pnl[i + span - 1];
         if (is_reclaimable) {
           histogram_acc(span, &info->gc_reclaimable.span_histogram);
           histogram_acc(pgno, &info->gc_reclaimable.pgno_distribution);
-- 
2.43.0


From 9c098742711f4c2dae0e2d9ee405f19fcd9c2c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 68/79] fix: mdbx_gc_info() ignored a non-zero result of the
 callback

---
 mdbx.c      | 3 ++-
 mdbx_stat.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 795b571..9455927 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8668,7 +8668,7 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
         if (iter_func) {
           rc = iter_func(iter_ctx, txn, id, pgno, span, is_reclaimable);
           if (rc != MDBX_RESULT_FALSE)
-            break;
+            goto bailout;
         }
       }
 
@@ -8678,6 +8678,7 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
         break;
       }
     }
+  bailout:
     txn->cursors[FREE_DBI] = cx.outer.next;
   }
   return LOG_IFERR(rc);
diff --git a/mdbx_stat.c b/mdbx_stat.c
index e73cf5d..61b5f5e 100644
--- a/mdbx_stat.c
+++ b/mdbx_stat.c
@@ -121,7 +121,7 @@ static int gc_list_func(void *ctx, const MDBX_txn *txn, uint64_t span_txnid, siz
   (void)span_pgno;
   (void)span_length;
   (void)span_is_reclaimable;
-  return user_break ? MDBX_RESULT_TRUE : MDBX_RESULT_FALSE;
+  return user_break ? MDBX_EINTR : MDBX_RESULT_FALSE;
 }
 
 static const char *prog;
-- 
2.43.0


From 0feb48c83496e6bff1b1aefc833a7a6171df1423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:32 +0000
Subject: [PATCH 69/79] fix: statistics of the environment counted tables of
 closed, re-used or renamed handles twice or by a wrong tree

---
 mdbx.c | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 9455927..8e702af 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -36866,23 +36866,16 @@ int tbl_stat_summary(const MDBX_txn *txn, MDBX_stat *st) {
 
   const MDBX_env *const env = txn->env;
   st->ms_psize = env->ps;
-  size_t done = 0;
-  TXN_FOREACH_DBI_FROM(txn, dbi,
-                       /* assuming GC is internal and not subject for accounting */ MAIN_DBI) {
-    if ((txn->dbi_state[dbi] & (DBI_VALID | DBI_STALE)) == DBI_VALID) {
-      done += 1;
-      tbl_stat_add(txn->dbs + dbi, st);
-    }
-  }
+  /* assuming GC is internal and not subject for accounting */
+  tbl_stat_add(txn->dbs + MAIN_DBI, st);
 
-  if ((txn->dbs[MAIN_DBI].flags & MDBX_DUPSORT) == 0 &&
-      done < txn->dbs[MAIN_DBI].items /* TODO: use `md_subs` field */ + /* MainDB */ 1) {
+  if ((txn->dbs[MAIN_DBI].flags & MDBX_DUPSORT) == 0 && txn->dbs[MAIN_DBI].items /* TODO: use `md_subs` field */) {
     cursor_couple_t cx;
     int err = cursor_init(&cx.outer, (MDBX_txn *)txn, MAIN_DBI);
     if (unlikely(err != MDBX_SUCCESS))
       return err;
 
-    /* scan and account not opened named tables */
+    /* scan and account named tables */
     err = tree_search(&cx.outer, nullptr, Z_FIRST);
     while (err == MDBX_SUCCESS) {
       const page_t *mp = cx.outer.pg[cx.outer.top];
@@ -36898,18 +36891,14 @@ int tbl_stat_summary(const MDBX_txn *txn, MDBX_stat *st) {
         tree_t reside;
         const tree_t *tree = memcpy(&reside, node_data(node), sizeof(reside));
         const MDBX_val name = {node_key(node), node_ks(node)};
-        for (size_t dbi = CORE_DBS; dbi < txn->n_dbi && dbi < env->n_dbi; ++dbi) {
-          if (!(env->dbs_flags[dbi] & DB_VALID) || env->kvs[MAIN_DBI].clc.k.cmp(&name, &env->kvs[dbi].name) != 0)
-            continue;
-          /* skip opened and already accounted */
-          if ((dbi_state(txn, dbi) & (DBI_VALID | DBI_STALE)) == DBI_VALID)
-            goto next;
-          /* take into account an uncommitted changes of parent transactions */
-          tree = dbi_dig(txn, dbi, &reside);
-          break;
+        for (size_t dbi = CORE_DBS; !(txn->flags & txn_ro_flat) && dbi < txn->n_dbi && dbi < env->n_dbi; ++dbi) {
+          if ((env->dbs_flags[dbi] & DB_VALID) && env->kvs[MAIN_DBI].clc.k.cmp(&name, &env->kvs[dbi].name) == 0) {
+            /* take into account an uncommitted changes, including ones of parent transactions */
+            tree = dbi_dig(txn, dbi, &reside);
+            break;
+          }
         }
         tbl_stat_add(tree, st);
-      next:;
       }
       err = cursor_sibling_right(&cx.outer);
     }
-- 
2.43.0


From 798bcf81134a2441e92aa97ee5ff7a8798456cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:57 +0000
Subject: [PATCH 70/79] fix: mdbx_env_close() failed with MDBX_EBADSIGN and
 lost the final sync when a dead process had left the locks

The signature is reset before the final synchronization, so the cleanup of
dead readers must not validate it while the locks are recovered.
---
 mdbx.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 8e702af..5a7d9e0 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8469,7 +8469,10 @@ __cold int mdbx_reader_list(const MDBX_env *env, MDBX_reader_list_func func, voi
 __cold int mdbx_reader_check(MDBX_env *env, int *dead) {
   if (dead)
     *dead = 0;
-  return LOG_IFERR(mvcc_cleanup_dead(env, false, dead));
+  int rc = check_env(env, true);
+  if (likely(rc == MDBX_SUCCESS))
+    rc = mvcc_cleanup_dead(env, false, dead);
+  return LOG_IFERR(rc);
 }
 
 __cold int mdbx_thread_register(const MDBX_env *env) {
@@ -28386,10 +28389,7 @@ static bool pid_insert(mdbx_pid_t *list, mdbx_pid_t pid) {
 }
 
 __cold int mvcc_cleanup_dead(MDBX_env *env, int rdt_locked, int *dead) {
-  int rc = check_env(env, true);
-  if (unlikely(rc != MDBX_SUCCESS))
-    return rc;
-
+  int rc = MDBX_SUCCESS;
   eASSERT0(env, rdt_locked >= 0);
   lck_t *const lck = env->lck_mmap.lck;
   if (unlikely(lck == nullptr)) {
-- 
2.43.0


From bd9bc6588da152f8c45f26d0f32a4b47817cb557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:57 +0000
Subject: [PATCH 71/79] fix: clearing of dead readers never reported
 MDBX_RESULT_TRUE, so that a reader failed with MDBX_READERS_FULL despite of
 freed slots

Both mdbx_reader_check() and binding of a reader slot relied on the result.
---
 mdbx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 5a7d9e0..effea5b 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -28185,6 +28185,7 @@ bsr_t mvcc_bind_slot(MDBX_env *env) {
       result.err = (result.err == MDBX_SUCCESS) ? MDBX_READERS_FULL : result.err;
       return result;
     }
+    result.err = MDBX_SUCCESS;
   }
 
   result.slot = &env->lck->rdt[slot];
@@ -28470,6 +28471,9 @@ __cold int mvcc_cleanup_dead(MDBX_env *env, int rdt_locked, int *dead) {
   if (likely(!MDBX_IS_ERROR(rc)))
     atomic_store64(&lck->readers_check_timestamp, osal_monotime(), mo_Relaxed);
 
+  if (rc == MDBX_SUCCESS && count > 0)
+    rc = MDBX_RESULT_TRUE /* a dead reader(s) was recovered */;
+
   if (rdt_locked < 0)
     lck_rdt_unlock(env);
 
-- 
2.43.0


From 86d211d5674f637808c41ca6dd9cd328ea2efe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:43 +0000
Subject: [PATCH 72/79] fix: mdbx_gc_info() failed with MDBX_CORRUPTED within a
 write transaction after a refund of reclaimed pages

A reclaimed GC-record stays in the GC until commit and may hold pages above
the end of allocated space, which is lowered by a refund.
---
 mdbx.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index effea5b..bf4d355 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8649,14 +8649,17 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
         break;
       }
 
-      const glr_t glr = gc_row_pnl(txn, gc_data);
+      const txnid_t id = unaligned_peek_u64(4, gc_key.iov_base);
+      /* The pages of an already reclaimed, but not yet deleted record could be above the end of the allocated space
+       * after a refund, i.e. such record must not be checked and is accounted as the part of the workset. */
+      const bool is_reclaimed = (txn->flags & txn_ro_flat) == 0 && gc_is_reclaimed(txn, id);
+      const glr_t glr = is_reclaimed ? (glr_t){.err = MDBX_SUCCESS} : gc_row_pnl(txn, gc_data);
       if (unlikely(glr.err != MDBX_SUCCESS)) {
         ERROR("%s/%d: %s", "corrupted GC-record", rc = glr.err, glr.reason);
         break;
       }
 
-      const txnid_t id = unaligned_peek_u64(4, gc_key.iov_base);
-      const size_t len = ((txn->flags & txn_ro_flat) == 0 && gc_is_reclaimed(txn, id)) ? 0 : pnl_size(glr.pnl);
+      const size_t len = is_reclaimed ? 0 : pnl_size(glr.pnl);
       const bool is_reclaimable = id <= reclaiming_detent;
       info->pages_gc += len;
       if (is_reclaimable)
-- 
2.43.0


From fd165c6cfdfde9343cd40f3d5d8f7b5d61ed292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:27 +0000
Subject: [PATCH 73/79] fix: a write transaction failed with MDBX_MAP_FULL
 despite it has ousted the parked reader that held the space

mvcc_kick_laggards() left the loop with the stale oldest snapshot after an
ousting, so the caller neither retried reclaiming nor consulted the
handle-slow-readers callback for the next laggard.
---
 mdbx.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index bf4d355..a71bcfe 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -28518,6 +28518,7 @@ __cold bool mvcc_kick_laggards(MDBX_txn *txn, const txnid_t straggler,
     if (MDBX_IS_ERROR(mvcc_cleanup_dead(env, false, nullptr)))
       break;
 
+    bool someone_ousted = false;
     reader_slot_t *stucked = nullptr;
     uint64_t stucked_retired = 0;
     uint64_t stucked_tid = 0;
@@ -28549,6 +28550,7 @@ __cold bool mvcc_kick_laggards(MDBX_txn *txn, const txnid_t straggler,
               atomic_cas32(&slot->tid.low, (uint32_t)MDBX_TID_TXN_PARKED, (uint32_t)MDBX_TID_TXN_OUSTED);
 #endif
           if (likely(ousted)) {
+            someone_ousted = true;
             ousted = safe64_reset_compare(&slot->txnid, slot_snap_mvcc);
             NOTICE("ousted-%s parked read-txn %" PRIaTXN ", pid %zu, tid 0x%" PRIx64, ousted ? "complete" : "half",
                    slot_snap_mvcc, (size_t)pid, tid);
@@ -28563,8 +28565,12 @@ __cold bool mvcc_kick_laggards(MDBX_txn *txn, const txnid_t straggler,
       }
     }
 
-    if (!stucked)
+    if (!stucked) {
+      if (someone_ousted)
+        /* the parked reader(s) was ousted, so refresh the oldest snapshot */
+        continue;
       break;
+    }
 
     mdbx_pid_t pid = atomic_load_pid(&stucked->pid, mo_AcquireRelease);
     if (safe64_read(&stucked->txnid) != straggler || safe64_read(&stucked->tid) != stucked_tid || !pid)
-- 
2.43.0


From 3cf3bdf850b65c7a1146aafa9a49fe2a8f2739bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:37 +0000
Subject: [PATCH 74/79] fix: opening of a DB smaller than the allocation
 granularity's multiple leads to discarding of memory beyond the mapping

---
 mdbx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index a71bcfe..a29da6c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -20831,7 +20831,11 @@ __cold int dxb_setup(MDBX_env *env, const int lck_rc, const mdbx_mode_t mode_bit
       }
     }
 
-    atomic_store32(&env->lck->discarded_tail, bytes2pgno(env, allocated_aligned2os_bytes), mo_Relaxed);
+    /* the mapping may be shorter since it is not rounded-up to the allocation granularity */
+    atomic_store32(&env->lck->discarded_tail,
+                   bytes2pgno(env, (allocated_aligned2os_bytes < env->dxb_mmap.current) ? allocated_aligned2os_bytes
+                                                                                        : env->dxb_mmap.current),
+                   mo_Relaxed);
 
     if ((env->flags & MDBX_RDONLY) == 0 && env->stuck_meta < 0 &&
         (globals.runtime_flags & MDBX_DBG_DONT_UPGRADE) == 0) {
-- 
2.43.0


From 8cc609a7938a83b7a38e1b7d217d4abe2ddce917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:01 +0000
Subject: [PATCH 75/79] fix: a caller's write transaction was left with
 unregistered pages moved by an unfinished cycle of mdbx_env_defrag()

---
 mdbx.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index a29da6c..043e54e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8740,9 +8740,11 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
 
   pgno_t committed_allocated = txn->geo.first_unallocated;
   unsigned fruitless_retry = 0;
+  bool unsettled = false;
   while ((size_t)acceptable_backlash + dfc.payload_pages < txn->geo.first_unallocated && !defrag_discontinued(&dfc)) {
     const pgno_t prev_stumble = dfc.stumble_pgno, prev_allocated = txn->geo.first_unallocated;
     rc = defrag_cycle(&dfc);
+    unsettled = dfc.cycle_pages_moved != 0;
 
 #if MDBX_CHECKING > 1
     pnl_free(dfc.repnl_clone);
@@ -8781,6 +8783,7 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
       break;
     }
 
+    unsettled = false;
     committed_allocated = txn->geo.first_unallocated;
     fruitless_retry = (dfc.cycle_pages_moved || txn->geo.first_unallocated < prev_allocated) ? 0 : fruitless_retry + 1;
     if (fruitless_retry > 3) {
@@ -8802,6 +8805,15 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
     dfc.txn = nullptr;
     int err = txn_basal_end(txn, true);
     rc = (err != MDBX_SUCCESS && !MDBX_IS_ERROR(rc)) ? err : rc;
+  } else if (txn && unsettled && (txn->flags & MDBX_TXN_ERROR) == 0) {
+    /* The moved pages were written directly, i.e. bypassing the dirty- and the spill-list, thus these must be committed
+     * before continuing of the user's transaction. */
+    int err = txn_basal_checkpoint(txn, MDBX_TXN_NOMETASYNC, nullptr);
+    if (unlikely(err != MDBX_SUCCESS)) {
+      dfc.txn = txn = nullptr;
+      dfc.stopping_reasons |= MDBX_defrag_error;
+      rc = err;
+    }
   }
 
   defrag_milestone(&dfc);
-- 
2.43.0


From 5a97dfa06a97fbb054b6327a2cdc4f8ac8e71efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 76/79] fix: a failed change of the geometry left the file cut,
 hence SIGBUS within a write transaction

---
 mdbx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 043e54e..5ef94fc 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -20200,6 +20200,12 @@ __cold int dxb_resize(MDBX_env *const env, const pgno_t allocated_pgno, const pg
   }
 
   rc = osal_mresize(mresize_flags, &env->dxb_mmap, size_bytes, limit_bytes);
+  if (unlikely(rc != MDBX_SUCCESS) && env->dxb_mmap.base && env->dxb_mmap.current < prev_size) {
+    /* the file was cut before the failure, but the geometry will not be changed */
+    const int err = osal_mresize(mresize_flags, &env->dxb_mmap, prev_size, env->dxb_mmap.limit);
+    if (unlikely(err != MDBX_SUCCESS))
+      rc = err;
+  }
   eASSERT0(env, env->dxb_mmap.limit >= env->dxb_mmap.current);
 
   if (rc == MDBX_SUCCESS) {
-- 
2.43.0


From 15e0203c7ab53462ce8d5dc73ea69d10dcf3cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:27 +0000
Subject: [PATCH 77/79] fix: mdbx_env_set_geometry() moved the mapping under
 cursors of a live transaction

---
 mdbx.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 5ef94fc..0071028 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -20118,7 +20118,8 @@ __cold int dxb_resize(MDBX_env *const env, const pgno_t allocated_pgno, const pg
     }
 #else  /* Windows */
     lck_t *const lck = env->lck_mmap.lck;
-    if (mode == explicit_resize && limit_bytes != env->dxb_mmap.limit) {
+    if (mode == explicit_resize && limit_bytes != env->dxb_mmap.limit &&
+        /* pages in the mapping are referenced by cursors and lists of the write transaction */ !env->txn) {
       mresize_flags |= MDBX_MRESIZE_MAY_UNMAP | MDBX_MRESIZE_MAY_MOVE;
       if (lck) {
         int err = lck_rdt_lock(env) /* lock readers table until remap done */;
@@ -20132,9 +20133,12 @@ __cold int dxb_resize(MDBX_env *const env, const pgno_t allocated_pgno, const pg
         eASSERT0(env, mode == explicit_resize);
         for (size_t i = 0; i < snap_nreaders; ++i) {
           if (lck->rdt[i].pid.weak == (size_t)env->registered_reader_pid &&
-              lck->rdt[i].tid.weak != osal_thread_self() && lck->rdt[i].tid.weak < MDBX_TID_TXN_OUSTED) {
+              lck->rdt[i].tid.weak != MDBX_TID_TXN_OUSTED &&
+              (lck->rdt[i].tid.weak != osal_thread_self() ||
+               safe64_read(&lck->rdt[i].txnid) < SAFE64_INVALID_THRESHOLD)) {
             /* the base address of the mapping can't be changed since
-             * the other reader thread from this process exists. */
+             * the other reader thread from this process exists,
+             * or there is a read transaction of the current one. */
             lck_rdt_unlock(env);
             mresize_flags &= ~(MDBX_MRESIZE_MAY_UNMAP | MDBX_MRESIZE_MAY_MOVE);
             break;
-- 
2.43.0


From 9f70e9ecb37fc44818ba9e94311b15bb832ab118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:27 +0000
Subject: [PATCH 78/79] fix: mdbx_env_set_geometry() cut off pages of the
 committed snapshots

---
 mdbx.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 0071028..9e57bcb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8039,7 +8039,19 @@ __cold int mdbx_env_set_geometry(MDBX_env *env, intptr_t size_lower, intptr_t si
     if (shrink_threshold < 0)
       shrink_threshold = pgno2bytes(env, pv2pages(geo->shrink_pv));
 
-    const size_t usedbytes = pgno_ceil2os_bytes(env, mvcc_snapshot_largest(env, geo->first_unallocated));
+    /* the recent and the last steady snapshots, and the parent transactions must remain intact,
+     * regardless of pages which the current transaction gave back */
+    pgno_t used = geo->first_unallocated;
+    for (const MDBX_txn *txn = env->txn; txn; txn = txn->parent)
+      if (used < txn->geo.first_unallocated)
+        used = txn->geo.first_unallocated;
+    const meta_ptr_t recent = meta_recent(env, &env->basal_txn->wr.troika);
+    if (used < recent.ptr_c->geometry.first_unallocated)
+      used = recent.ptr_c->geometry.first_unallocated;
+    const meta_ptr_t steady = meta_prefer_steady(env, &env->basal_txn->wr.troika);
+    if (used < steady.ptr_c->geometry.first_unallocated)
+      used = steady.ptr_c->geometry.first_unallocated;
+    const size_t usedbytes = pgno_ceil2os_bytes(env, mvcc_snapshot_largest(env, used));
     if ((size_t)size_upper < usedbytes) {
       rc = MDBX_MAP_FULL;
       goto bailout;
-- 
2.43.0


From 9dfa1682f99bd983edc95866ce5c2a94ee959f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:27 +0000
Subject: [PATCH 79/79] fix: an assertion failed with the upper size limit less
 than CURSOR_STACK_SIZE pages

---
 mdbx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 9e57bcb..eba681e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -19492,10 +19492,12 @@ dpl_t *txn_dpl_reserve(MDBX_txn *txn, size_t size) {
 int txn_dpl_alloc(MDBX_txn *txn) {
   cASSERT0(txn, (txn->flags & txn_ro_flat) == 0);
   cASSERT0(txn, (txn->flags & MDBX_WRITEMAP) == 0 || MDBX_AVOID_MSYNC);
-  const size_t wanna =
+  size_t wanna =
       ((txn->flags & txn_ro_nested) == 0)
           ? ((txn->env->options.dp_initial < txn->geo.upper) ? txn->env->options.dp_initial : txn->geo.upper)
           : /* minimal */ CURSOR_STACK_SIZE;
+  if (unlikely(wanna < CURSOR_STACK_SIZE))
+    wanna = CURSOR_STACK_SIZE;
 #if MDBX_CHECKING > 0
   if (txn->wr.dirtylist)
     /* обнуляем чтобы не сработал ассерт внутри dpl_reserve() */
-- 
2.43.0

