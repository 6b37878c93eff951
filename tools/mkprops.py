#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the list stays valid JSON).
import json,sys
P=[]
import re,os
_src={}
def where(name,files):
    w=name.split("::")[-1]
    for f in files:
        if f not in _src: _src[f]=open("/repo/"+f,errors="replace").read() if os.path.exists("/repo/"+f) else ""
        if re.search(r"\b"+re.escape(w)+r"\b",_src[f]): return f
    return files[0]
def prop(i,title,st,over,q,why,files,mech,state=(),obs=(),hook=False):
    assert len(title)<=80,title
    P.append(dict(id=i,title=title,statement=st,
      quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b) for a,b in state],mechanism=[dict(name=m,where=where(m,files)) for m in mech],observe_at=list(obs),hook_needed=None)))
M=["mdbx.c","mdbx.h"]
prop("C01","Transactions are atomic: commit publishes everything, abort nothing",
 "The complete set of changes of a write transaction, across all tables, sequences and the canary, becomes visible at its successful commit and not earlier, and nothing of an aborted, broken or failed transaction ever becomes visible. The database content is at every moment exactly the result of applying the successfully committed transactions in commit order.",
 ["histories","inputs"],"every history of write transactions with any mix of operations, table kinds, page sizes, write modes, ended by commit or abort",
 "The examples commit single inserts only; no test aborts a transaction that deleted, split, merged or freed pages, nor compares the whole content afterwards.",
 M,["txn_basal_start","txn_basal_commit","txn_basal_end","gc_update"],
 [("MDBX_txn.dbs","per-table root/metadata owned by the transaction"),("meta pages","three alternating commit records")],["mdbx_txn_commit_ex","mdbx_txn_abort_ex","full content dump through a new read transaction"])
prop("C02","A read transaction sees one immutable committed snapshot for its lifetime",
 "Every read made through a read transaction returns data of exactly one committed state, the one identified by its transaction id, no matter how many write transactions commit, reuse space, grow, shrink or sync meanwhile in any thread or process. Resetting and renewing, or refreshing, moves it to a committed state again and never to a mix.",
 ["schedules","histories"],"every interleaving of readers with writers in the same or other processes, for any lifetime of the reader",
 "The test programs never keep a reader open across a writing transaction; isolation depends on page-reuse decisions far apart in time.",
 M,["txn_ro_start","mvcc_shapshot_oldest_rw","txn_gc_detent","gc_alloc_ex","coherency_fetch_head"],
 [("reader table slot","snapshot id published by a reader"),("gc.detent","bound below which freed pages may be reused")],["mdbx_txn_begin_ex","mdbx_get","mdbx_cursor_get","mdbx_txn_renew","mdbx_txn_refresh"])
prop("C03","New snapshots are current: a transaction sees every commit that precedes it",
 "A transaction started after a commit has returned, in any thread or process, works on that commit's state or a later one, and a write transaction always starts from the very latest committed state. Transaction ids identify committed states uniquely and never go backwards.",
 ["schedules","histories"],"every interleaving of begins, renewals and commits in several threads and processes",
 "Tests use a single thread and never compare ids or content between concurrently started transactions.",
 M,["txn_ro_start","txn_basal_start","meta_tap","meta_recent","dxb_sync_locked"],
 [("troika","ordering of the three meta pages")],["mdbx_txn_begin_ex","mdbx_txn_id","mdbx_txn_info"])
prop("C04","At most one write transaction exists, and a dead writer leaves no trace",
 "At any moment at most one write transaction is active per database over all threads and processes; a try-begin reports busy instead of waiting. When a process dies inside a write transaction, the next writer anywhere can start, and everything of the unfinished transaction is gone while everything committed before is kept.",
 ["schedules","crash_points"],"every interleaving of writers in several threads and processes, and a kill of the writer at any point of its transaction or commit",
 "Tests run one process with one writer; no test kills a process.",
 M,["lck_txn_lock","lck_txn_unlock","lck_ipclock_failed","txn_basal_start"],
 [("writer lock","robust inter-process lock held by the writer")],["mdbx_txn_begin_ex","mdbx_txn_lock","MDBX_BUSY"])
prop("C05","Durable commits survive a system crash at any moment, without corruption",
 "In the fully durable mode, after a power loss at any moment the database opens without manual repair and contains exactly the state of the last transaction whose commit had returned success, or of the one whose commit was in progress. This holds whichever of the writes not yet flushed to disk survived.",
 ["crash_points","histories"],"every crash point between storage operations of any commit, with any subset of unflushed writes surviving",
 "No test simulates a crash; the order of data write, flush and commit-record write is invisible without one.",
 M,["dxb_sync_locked","txn_write","meta_override","dxb_setup","meta_sign_as_steady"],
 [("meta sign","marks a commit record as steady or weak")],["pwrite/msync/fdatasync/ftruncate system calls","mdbx_env_open after the crash"])
prop("C06","Lazy-sync modes lose only a suffix of commits on a crash, never consistency",
 "In the modes that relax syncing while keeping integrity (no-meta-sync and safe-no-sync, with or without writable mapping), after a power loss at any moment the database opens and contains exactly one committed state, not older than the last one made durable by an explicit or automatic sync. A crash of the process alone loses no committed transaction.",
 ["crash_points","histories","configurations"],"every crash point, surviving subset of unflushed writes, and sync-mode configuration, with explicit syncs interleaved",
 "The sync-mode runs in the tests are never interrupted and never reopened under another boot id.",
 M,["dxb_sync_locked","env_sync","dxb_setup","meta_bootid_match","txn_gc_detent","gc_alloc_ex"],
 [("steady meta","last durable commit record"),("unsynced_pages","volume not yet flushed")],["mdbx_env_sync_ex","mdbx_env_open after the crash"])
prop("C07","Storage errors never corrupt the database or fake a successful commit",
 "When a write, flush, allocation of file space or resize fails at any point, the operation in progress reports an error, and the database afterwards opens and holds exactly the previous committed state or, only if the failure hit the very last step, the new one. No success is reported for a commit that did not happen.",
 ["fault_sequences","histories"],"every single failing storage system call in any operation",
 "No test injects an I/O error.",
 M,["dxb_sync_locked","txn_write","iov_write","osal_pwrite","dxb_resize"],
 [("ENV_FATAL_ERROR","environment refuses further work after a failed sync")],["return codes of commit, sync, open","content after reopen"])
prop("C08","Pages reachable from a live snapshot are never overwritten or discarded",
 "While a committed state is the latest one, is the last durable one, or is read by a live transaction of any process, no storage page that belongs to it is modified, freed for reuse, or cut off from the file.",
 ["schedules","histories"],"every interleaving of writers with readers of any age, all write and sync modes",
 "Tests have no long-lived readers; a too-early reuse shows up only when the right old page is overwritten while somebody still reads it.",
 M,["txn_gc_detent","mvcc_shapshot_oldest_rw","gc_alloc_ex","page_touch","mvcc_kick_laggards","dxb_resize"],
 [("oldest reader","smallest snapshot id in the reader table")],["page images before and after each commit","page sets reachable from each retained commit record"])
prop("C09","Every page is accounted for exactly once: no leaks, no double allocation",
 "In every committed state each page below the allocation boundary either belongs to exactly one structure (commit record, table tree, large value) or is listed exactly once as free, and the per-table page and entry counters equal the real ones. Space freed by a transaction becomes reusable once no reader needs it, so repeating a fixed workload does not grow the database without bound.",
 ["histories","inputs"],"every history of inserts, updates, deletes, table drops, nested and large transactions, with and without readers",
 "The tests never examine page accounting; a leak or double use stays invisible to small inserts.",
 M,["gc_update","gc_alloc_ex","txn_refund","page_retire_ex","mdbx_env_chk"],
 [("GC table","lists of freed pages keyed by transaction id"),("retired/loose/reclaimed lists","page lists of the write transaction")],["mdbx_env_chk","mdbx_gc_info","mdbx_dbi_stat","independent parse of the file"])
prop("C10","Each single-value table behaves as an ordered map",
 "For every sequence of reads and updates, with any keys and values of allowed size (including empty ones and values spanning many pages), lookups, lower-bound lookups, inserts, overwrites, conditional inserts, replaces, appends, reservations and deletes return exactly what an ordered map would return and leave exactly the content that map would hold. Requests an ordered map must refuse (existing key, absent key, out-of-order append, wrong size) are refused with the documented error and change nothing.",
 ["inputs","histories"],"every operation sequence over any key set, value sizes and page size",
 "Tests insert ordinals only; splits, merges, overflow pages and update-in-place have no oracle.",
 M,["cursor_put","cursor_del","tree_search","page_split","tree_rebalance","node_add_leaf","mdbx_put","mdbx_del","mdbx_replace_ex"],
 [("table tree","B+tree of keys and values")],["mdbx_get","mdbx_get_ex","mdbx_get_equal_or_great","mdbx_put","mdbx_replace","mdbx_del"])
prop("C11","Each multi-value table behaves as an ordered multimap of distinct values",
 "In a table allowing several values per key, every key holds a set of distinct values kept in the table's value order, whatever its size and however it is stored, for both variable and fixed-size values. Inserts, conditional inserts, multi-value inserts, replacements, deletions of one value or of all, and per-key counts return and leave exactly what such a multimap would.",
 ["inputs","histories"],"every operation sequence over any number of keys and values per key, value kind and page size",
 "No test uses multi-value tables in depth; the switch between inline sub-page and nested tree needs many values.",
 M,["cursor_put","cursor_del","cursor_dupsort_setup","page_subleaf","mdbx_cursor_count_ex"],
 [("nested tree / sub-page","storage of the values of one key")],["mdbx_put","mdbx_del","mdbx_get_ex","mdbx_cursor_count","mdbx_cursor_get"])
prop("C12","Cursor navigation visits exactly the ordered content",
 "Each cursor movement or search (first, last, next, previous, next or previous key, value or multi-value block, exact, lower-bound, upper-bound and comparison searches on keys and pairs, batch reads, scans) returns exactly the entry determined by the table's order and the cursor's position, reports the absence of one with the documented result, and leaves the cursor where documented.",
 ["inputs","histories"],"every sequence of cursor operations on tables of any kind, size and depth",
 "The examples only iterate forward once over a few entries.",
 M,["cursor_ops","outer_next","outer_prev","inner_next","cursor_seek","cursor_first","cursor_last","mdbx_cursor_get_batch","mdbx_cursor_scan"],
 [("cursor stack","page/index path of a cursor")],["mdbx_cursor_get","mdbx_cursor_get_batch","mdbx_cursor_scan_from","mdbx_cursor_eof"])
prop("C13","Cursors stay correctly positioned when the table changes under them",
 "When data is inserted, replaced or deleted through one cursor or handle, every other open cursor of the same transaction remains on its own entry if that entry still exists, and otherwise continues with the entry that followed it; the acting cursor ends up on the written entry, or on the successor of the deleted one.",
 ["histories","inputs"],"every interleaving of modifications through one cursor with navigation by others, through splits, merges and sub-tree conversions",
 "No test has two cursors; tracking is only needed when pages split or merge under another cursor.",
 M,["cursor_put","cursor_del","page_split","page_merge","node_move","tree_rebalance","cursors_fixup"],
 [("tracked cursors","list of live cursors per table")],["mdbx_cursor_get","mdbx_cursor_put","mdbx_cursor_del","mdbx_cursor_compare"])
prop("C14","Keys and values are ordered by the comparator of the table's kind",
 "Entries are ordered and matched by byte order, reversed byte order or native integer order exactly as the table's flags prescribe for keys and for values, and the public comparison, ordered lookup, append checks and persisted trees all agree on that order. Number-to-key conversions preserve numeric order and are reversible.",
 ["inputs"],"all pairs of keys and values of allowed lengths in all table kinds",
 "Tests use one integer table; comparators have many length and alignment specific branches.",
 M,["cmp_lexical","cmp_reverse","cmp_int_unaligned","cmp_lenfast","mdbx_key_from_double","mdbx_cmp","mdbx_dcmp"],
 [],["mdbx_cmp","mdbx_dcmp","mdbx_cursor_get","mdbx_key_from_double","mdbx_double_from_key"])
prop("C15","Bulk deletions remove exactly the requested range",
 "Deleting a range between two cursors, or a contiguous group of entries or values (current, before, after, whole key), removes exactly the entries of that range, reports their exact number, leaves all others intact, and keeps cursors usable as documented.",
 ["inputs","histories"],"every range in tables of any depth and kind, with other cursors open",
 "Bulk deletion is not called by any test; it cuts whole subtrees at once.",
 M,["mdbx_cursor_delete_range","mdbx_cursor_bunch_delete","tree_drop"],
 [],["mdbx_cursor_delete_range","mdbx_cursor_bunch_delete","full content dump"])
prop("C16","Cursor distance, scrolling and distribution are exact",
 "The distance between two cursors equals the number of entries (or keys) between them, scrolling by an offset lands on exactly that entry, and distributing cursors over a range spreads them at the documented equal portions; all agree with step-by-step iteration.",
 ["inputs","histories"],"every pair of positions and every offset in tables of any kind and depth",
 "Not called by any test.",
 M,["mdbx_cursor_distance","mdbx_cursor_scroll","mdbx_cursor_distribute"],
 [],["mdbx_cursor_distance","mdbx_cursor_scroll","mdbx_cursor_distribute"])
prop("C17","Nested transactions merge into the parent on commit and vanish on abort",
 "A nested transaction starts from its parent's current content; committing it makes all its changes part of the parent, aborting it restores the parent's content, tables, sequences and cursors exactly, at any nesting depth. Nothing is visible to others until the outermost commit.",
 ["histories","inputs"],"every nesting of transactions and every operation sequence within them",
 "One test aborts one empty nested transaction.",
 M,["txn_nested_start","txn_nested_abort","txn_nested_join","cursor_shadow","dpl"],
 [("shadowed cursors and page lists","state saved for the parent")],["mdbx_txn_begin_ex with parent","mdbx_txn_commit_ex","mdbx_txn_abort_ex"])
prop("C18","Transaction lifecycle operations obey their state machine",
 "Checkpoint, amend, rollback, commit-and-keep-reading, refresh, reset, renew, clone, break and abort move a transaction between its states as documented, keep or change its snapshot exactly as documented, and every operation illegal in the current state is refused with the documented error and without side effects.",
 ["histories"],"every sequence of lifecycle operations and data operations on several transaction handles",
 "Tests walk a few fixed sequences.",
 M,["mdbx_txn_checkpoint","mdbx_txn_amend","mdbx_txn_rollback","mdbx_txn_commit_embark_read","mdbx_txn_refresh","mdbx_txn_renew","mdbx_txn_clone","mdbx_txn_break","check_txn"],
 [("txn flags","state of a transaction handle")],["return codes","mdbx_txn_id","mdbx_txn_flags","content read after each step"])
prop("C19","A parked reader is resumed on its snapshot or told it was ousted",
 "A parked read transaction either resumes on exactly the snapshot it had, with its pages intact, or reports that it was ousted (and, on request, restarts on the latest state); it never resumes on a state whose pages may have been reused. Reading through a parked transaction without automatic unparking is refused.",
 ["schedules","histories"],"every interleaving of park, unpark and read with writers that need space",
 "Not called by any test; the race between the owner and the writer lasts a few instructions.",
 M,["mdbx_txn_park","mdbx_txn_unpark","txn_ro_unpark","mvcc_kick_laggards"],
 [("reader slot tid","parked/ousted marks")],["mdbx_txn_park","mdbx_txn_unpark","mdbx_txn_flags"])
prop("C20","Table creation, renaming, emptying and dropping are transactional and isolated",
 "Named tables are created, opened, renamed, emptied and dropped as part of the transaction doing it: the catalogue and content seen by it, by its nested transactions and, after commit, by others, is exactly as requested and reverts completely on abort. Operations on one table or through one handle never affect another table, and a handle whose table is gone is refused.",
 ["histories"],"every history of catalogue operations and data operations on several tables and handles, with commits and aborts",
 "Tests open a table once and never rename, drop or abort a creation.",
 M,["dbi_open_locked","dbi_rename_locked","dbi_close_release","mdbx_drop","dbi_update","tbl_create"],
 [("dbi state","per-transaction state of each handle")],["mdbx_dbi_open","mdbx_dbi_rename","mdbx_drop","mdbx_dbi_close","mdbx_enumerate_tables","mdbx_dbi_stat"])
prop("C21","Persistent sequences and the canary are transactional counters",
 "A table's sequence returns its previous value and advances by exactly the requested increment, never repeats or wraps, and the canary values and the transaction id stamped on them are stored and returned exactly; both follow commit, abort and nesting like data.",
 ["histories"],"every history of sequence and canary updates interleaved with commits, aborts, nesting and reopening",
 "Not covered by tests.",
 M,["dbi_sequence","mdbx_canary_put"],
 [("tree_t.sequence","per-table counter"),("canary","four integers in the commit record")],["mdbx_dbi_sequence","mdbx_canary_put","mdbx_canary_get"])
prop("C22","The database grows and shrinks within its limits without losing data",
 "The file grows in the configured steps up to, and never beyond, the configured upper limit, shrinks only beyond live data, and readers of any process keep working through resizes. When the limit or the transaction size limit is reached the operation fails with the documented error, nothing committed is lost, and after abort the database remains fully usable.",
 ["configurations","histories","inputs"],"every geometry configuration and workload, including exhaustion at any operation",
 "Tests never reach a limit, never shrink and never change geometry on the fly.",
 M,["dxb_resize","mdbx_env_set_geometry","gc_alloc_ex","dxb_sync_locked"],
 [("geometry","lower/now/upper/step in the commit record")],["mdbx_env_info_ex","file size","MDBX_MAP_FULL","MDBX_TXN_FULL"])
prop("C23","Copies and backups equal one committed snapshot",
 "A copy made by any of the copying functions, plain or compacting, to a file or a stream, while writers commit, opens as a consistent database whose complete content equals exactly the copied transaction's snapshot.",
 ["schedules","histories","configurations"],"every database content, copy mode and concurrent writing",
 "Copying is not called by any test.",
 M,["mdbx_env_copy2fd","mdbx_txn_copy2pathname","copy_asis","copy_with_compacting"],
 [],["content and integrity check of the copy"])
prop("C24","Defragmentation preserves the content and the integrity",
 "Defragmenting changes only the placement of data: the content of all tables, the sequences and the canary stay equal, the database stays consistent and reports clean, and readers of earlier snapshots are not disturbed.",
 ["histories","inputs"],"every database content and fragmentation, with and without concurrent readers, with any limits",
 "Defragmentation is not called by any test.",
 M,["mdbx_env_defrag","mdbx_defrag.c"],
 [],["mdbx_env_defrag","full content dump","mdbx_env_chk"])
prop("C25","Dump and load tools round-trip the complete content",
 "Dumping a database or table with the dump tool and loading the text with the load tool, in any of their formats, reproduces the same tables with the same kinds, entries, sequences and canary; the other tools (check, copy, stat, drop, defrag) report and change exactly what they state.",
 ["inputs","configurations"],"every content including arbitrary bytes, empty values and multi-value tables, and every format option",
 "The tools are never run by the tests.",
 ["mdbx_dump.c","mdbx_load.c","mdbx_chk.c","mdbx_copy.c","mdbx_stat.c","mdbx_drop.c","mdbx_defrag.c"],["dump_tbl","readline","readhdr","main"],
 [],["content of the loaded database","exit codes and counts of the tools"])
prop("C26","The integrity check is clean on every sound database and flags real damage",
 "The built-in integrity check reports no problem on any state reachable through the API and counts its tables, entries and pages correctly. When pages are damaged in a way that loses, duplicates or misorders entries or breaks page accounting, it reports at least one problem and does not crash.",
 ["histories","fault_sequences"],"every reachable database state, and damage of any structural field on any page",
 "The check is never run by tests.",
 M,["mdbx_env_chk","chk_tree","chk_handle_kv","env_pgwalk","page_check"],
 [],["mdbx_env_chk result and counters"])
prop("C27","The reader registry is exact: slots, limits, dead readers and laggards",
 "Each live read transaction of any thread and process is listed with its snapshot and lag while it is active and not after it ended; a full table refuses further readers without harm; slots of dead processes, and only those, are reclaimed on check or when needed, so that they stop retaining space. A slow-reader handler is consulted before the space limit is reported.",
 ["schedules","crash_points"],"every interleaving of registering, ending and dying readers in several processes",
 "Tests have one process with at most one reader.",
 M,["mvcc_bind_slot","mvcc_cleanup_dead","mvcc_kick_laggards","mdbx_reader_list","mdbx_reader_check","thread_register"],
 [("reader table","pid/tid/txnid of each reader")],["mdbx_reader_list","mdbx_reader_check","MDBX_READERS_FULL","mdbx_env_set_hsr callback"])
prop("C28","Opening honours access modes, compatibility and non-modification",
 "A read-only environment never changes the database and refuses writes; exclusive opening excludes other processes and vice versa; incompatible modes or table kinds are refused with the documented error; and closing and reopening in any order by several processes loses nothing that was committed and keeps the configured geometry and page size.",
 ["configurations","schedules"],"all combinations of opening modes in several processes, in any order",
 "Tests open one environment at a time in one process.",
 M,["mdbx_env_open","dxb_setup","lck_setup","lck_seize","mdbx_env_close_ex"],
 [],["return codes of open, begin and put","file bytes before and after a read-only session"])
prop("C29","Large transactions spill transparently",
 "The effect of a write transaction does not depend on how many dirty pages are kept in memory: with any dirty-page limit, initial size, spilling and reserve options, all operations return the same results and commit or abort leaves the same content and consistency as without spilling.",
 ["inputs","configurations","histories"],"every operation sequence with every dirty-page limit and spilling option, including nesting and several cursors",
 "Test transactions are far smaller than the default limit, so nothing ever spills.",
 M,["spill_slowpath","page_unspill","dpl","txn_spill","iov_write"],
 [("spilled pages list","pages written before commit")],["operation results","content after commit","mdbx_env_chk"])
prop("C30","Cached lookups always equal uncached lookups",
 "A lookup through the caching interface returns exactly what an ordinary lookup in the same transaction returns, and its status tells truthfully whether the entry was taken from the cache, confirmed, or refreshed, for any history of changes and for readers of older and newer snapshots sharing a cache entry.",
 ["histories","schedules"],"every history of updates, table drops, space reuse and lookups by transactions of different ages through shared cache entries",
 "Not called by any test.",
 M,["mdbx_cache_get","mdbx_cache_get_SingleThreaded"],
 [("cache entry","offset, confirmed and last-changed ids")],["mdbx_cache_get","mdbx_cache_get_SingleThreaded","mdbx_get"])
prop("C31","The C++ API does exactly what the C API does",
 "Every operation made through the C++ classes (environments, transactions, maps, cursors, slices, buffers) has the same effect and result as the documented underlying operation; errors surface as exceptions of the documented class, and values and encodings pass through unchanged.",
 ["inputs","histories"],"every sequence of operations through the C++ classes",
 "The C++ example exercises a fixed sequence of inserts.",
 ["mdbx.h++","mdbx.c++"],["mdbx::txn_managed","mdbx::cursor","mdbx::env","mdbx::buffer"],
 [],["results of C++ calls compared to the specification"])
if __name__=="__main__":
    with open("/verif/properties.jsonl","w") as f:
        for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
