#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
J, M, N = "dhara/journal.c", "dhara/map.c", "dhara/nand.h"

prop("C01", "A sector always reads back its most recent data",
 "After any sequence of successful map operations (write, trim, copy of a sector or page, clear, sync, garbage collection), reading a sector returns exactly the data most recently given to that sector, and a blank (all-0xff) page if it was never written or was trimmed or cleared since. An operation on one sector never changes what any other sector reads.",
 ["histories", "inputs"], "every operation sequence and every 32-bit sector number other than the reserved one",
 "tests/map.c writes sectors 0..199 once each and trims half of them, in 1000 random orders on one geometry; sparse 32-bit sector numbers, copies, clear and interleaved sync/gc are never run.",
 [M, J], [("radix path construction and lookup", "dhara/map.c:trace_path"), ("cousin rewrite on delete", "dhara/map.c:try_delete"), ("tail repacking", "dhara/map.c:raw_gc, dhara_map_sync")],
 [("journal.root", "newest record, root of the tree", "dhara/journal.h"), ("alt pointers", "per-record path", "dhara/map.c meta_set_alt")], ["dhara_map_read", "dhara_map_find"])

prop("C02", "Synchronised state survives a restart unchanged",
 "Once a sync has returned success (on a map written to at least once), restarting from the flash contents alone (a fresh instance and a resume) restores exactly the map that was synchronised: the same data for every sector and the same sector count. This stays true after further restarts and for work done after the restart.",
 ["histories", "configurations"], "every history of operations before the sync, every head/tail position on the chip, every pattern of factory-bad blocks",
 "tests/map.c resumes twice per seed, always at one fill level and after at most one pass over the chip.",
 [M, J], [("checkpoint programming", "dhara/journal.c:push_meta"), ("checkpoint search", "dhara/journal.c:dhara_journal_resume, find_last_checkblock, find_last_group, find_root, find_head")],
 [("checkpoint header", "epoch, tail, bad-block counts", "dhara/journal.c hdr_*")], ["dhara_map_resume", "dhara_map_read", "dhara_map_size"])

prop("C03", "Power loss rolls back to a consistent point, never a mixture",
 "If power is lost at any instant, including in the middle of a page program or a block erase, the next resume presents the map exactly as it stood after some prefix of the operations issued, and that prefix includes everything covered by the last successful sync. The recovered map is fully usable, and the same holds for a further power loss while using it.",
 ["crash_points", "histories"], "every flash operation at which power can fail (before, during, after it), in every operation history within the bounds",
 "No test cuts power in the middle of an operation; epoch_roll.c resumes without sync at one hand-picked position only.",
 [J, M], [("tail_sync held back until a checkpoint", "dhara/journal.c:dhara_journal_dequeue, push_meta"), ("head never enters the block of the synced tail", "dhara/journal.c:prepare_head, skip_block"), ("resume scan", "dhara/journal.c:find_root, find_head")],
 [("tail_sync", "oldest page the last checkpoint needs", "dhara/journal.h")], ["dhara_map_resume", "dhara_map_read"])

prop("C04", "Failing blocks lose no data",
 "When the flash reports that a program or an erase failed, at any operations and in any combination up to the retry limits, operations still succeed with their documented effect and every sector keeps reading its most recent data, before and after a sync and restart. A block that goes bad during recovery from another is handled in the same way.",
 ["fault_sequences", "histories"], "every schedule of up to a stated number of failing blocks, placed at every program/erase of the history, in every history within bounds",
 "tests/map.c uses 30 random timebombs and never checks contents between operations; tests/recovery.c runs nine fixed scenarios at one starting position, at the journal level only.",
 [J, M], [("assisted recovery", "dhara/journal.c:recover_from, restart_recovery, dump_meta, finish_recovery; dhara/map.c:try_recover"), ("recovery enumeration", "dhara/journal.c:dhara_journal_next_recoverable")],
 [("recover_next/recover_root/recover_meta", "recovery cursor, last good page, dumped metadata", "dhara/journal.h")], ["dhara_map_read", "dhara_nand_mark_bad"])

prop("C05", "The flash chip is only driven the way NAND requires",
 "In every history, including failures, power loss and restart, only existing pages and blocks are addressed, a block known bad is never erased or programmed, a page is programmed only in a block erased beforehand, in increasing order within the block and at most once per erase, and partial reads stay within the page.",
 ["histories", "fault_sequences", "crash_points"], "every flash call of every history within bounds, with failures and power loss at every point",
 "The simulator aborts on some violations but only on the sampled histories; nothing checks erase-before-program, copy sources, or behaviour after power loss.",
 [J, M, N], [("head preparation", "dhara/journal.c:prepare_head, skip_block"), ("head search at resume", "dhara/journal.c:find_head, cp_free")],
 [("head", "next raw page to program", "dhara/journal.h")], ["dhara_nand_erase", "dhara_nand_prog", "dhara_nand_copy", "dhara_nand_read", "dhara_nand_is_free"])

prop("C06", "Wear levelling: erase counts of good blocks differ by at most 1",
 "In every history without power loss and without failed operations, at every moment, the number of erases performed on any two blocks that are still good differs by at most one, whatever sectors are written, rewritten, trimmed, collected or synchronised, and across clean restarts.",
 ["histories", "fault_sequences"], "every operation history within bounds, with any factory-bad blocks and failing blocks",
 "No test counts erases per block.",
 [J], [("strict round-robin head", "dhara/journal.c:next_upage, skip_block, prepare_head")], [("head", "round-robin write position", "dhara/journal.h")], ["dhara_nand_erase"])

prop("C07", "Space guarantee: within capacity, writes never run out of room",
 "As long as the number of mapped sectors is below the reported capacity (as it stands after any bad blocks the call itself discovers) a write of a new sector succeeds, and overwriting, trimming, syncing and collecting always succeed, no matter how long the history; a write of a new sector at or above capacity fails with the map-full error and nothing else. The journal itself never reports full while the map stays within its capacity.",
 ["histories", "configurations"], "every history within bounds at every fill level from empty to full, for all garbage-collection ratios and geometries in the stated set",
 "The tests stay at one fill level well below capacity and never reach map-full.",
 [M, J], [("capacity formula", "dhara/map.c:dhara_map_capacity, dhara/journal.c:dhara_journal_capacity"), ("automatic collection", "dhara/map.c:auto_gc, prepare_write")],
 [("count", "mapped sectors", "dhara/map.h"), ("gc_ratio", "collections per write", "dhara/map.h")], ["dhara_map_write", "dhara_map_capacity"])

prop("C08", "The reported size is exactly the number of mapped sectors",
 "At every moment, after any mix of successful and failed operations, block failures, recoveries and restarts, the reported map size equals the number of sectors that can be found, and after a restart it equals the number mapped in the state restored.",
 ["histories", "fault_sequences", "crash_points"], "every history within bounds, with failures and restarts",
 "tests/map.c checks the count only during the fill and the trim phase without restart in between.",
 [M], [("count update and rollback", "dhara/map.c:prepare_write, dhara_map_write, try_delete"), ("count in the checkpoint cookie", "dhara/map.c:ck_set_count, dhara_map_resume")],
 [("count", "mapped sectors", "dhara/map.h"), ("cookie", "persisted count", "dhara/journal.h")], ["dhara_map_size", "dhara_map_find"])

prop("C09", "An operation that fails has no effect",
 "When a map operation returns failure (map full, not found, unreadable page, too many bad blocks), every sector still reads what it read before or, if the page it needs is unreadable, an error, and the size is unchanged; the error code is one of the documented ones and is stored through the error pointer, which may be null.",
 ["histories", "fault_sequences"], "every failing call in every history within bounds, with read, program and erase failures at every point",
 "No test makes a map operation fail and then looks at the map.",
 [M, J], [("count rollback", "dhara/map.c:dhara_map_write, dhara_map_copy_page"), ("error propagation", "dhara/map.c:try_recover, dhara/error.h:dhara_set_error")],
 [], ["dhara_map_write", "dhara_map_trim", "dhara_map_read"])

prop("C10", "An uncorrectable read never turns into wrong or blank data",
 "If the flash reports an uncorrectable error on any page read, a map read either returns failure with that error or the correct data; it never reports success with other data, and a lookup never reports a mapped sector as missing because a page was unreadable. (About a running instance; a checkpoint page that is unreadable at start-up is as good as never written.)",
 ["fault_sequences", "histories"], "every subset of up to a stated number of failing reads, in every history within bounds",
 "The simulator never fails a read.",
 [M, J], [("error propagation on lookup", "dhara/map.c:trace_path, dhara_map_read, raw_gc, prepare_write"), ("metadata fetch", "dhara/journal.c:dhara_journal_read_meta")],
 [], ["dhara_map_read", "dhara_map_find", "dhara_map_copy_sector"])

prop("C11", "Find and copy agree with read",
 "Finding a sector succeeds exactly when it is mapped and then names a physical page holding its current data, otherwise it fails with the not-found error. Copying a sector or a raw page gives the destination that data and leaves the source alone; copying an unmapped sector trims the destination.",
 ["histories", "inputs"], "every pair of 32-bit sectors and every history within bounds, with block failures during the copy",
 "copy_sector and copy_page are not called by any test; find is called only to check absence.",
 [M], [("lookup", "dhara/map.c:dhara_map_find"), ("copies", "dhara/map.c:dhara_map_copy_page, dhara_map_copy_sector")],
 [], ["dhara_map_find", "dhara_map_copy_sector", "dhara_map_copy_page"])

prop("C12", "Blocks are marked bad exactly when they failed",
 "A block is marked bad only if a program or an erase on it reported failure; every block that reported failure is marked bad by the time the operation that hit it returns success, and not before all current data on it has been stored elsewhere in a durable checkpoint.",
 ["fault_sequences", "crash_points"], "every placement of up to a stated number of failures in every history within bounds",
 "Tests count markings but never relate them to which block failed or to where live data is.",
 [J], [("marking", "dhara/journal.c:finish_recovery, restart_recovery, recover_from, dump_meta")],
 [("F_BAD_META", "deferred marking of the block that holds dumped metadata", "dhara/journal.h")], ["dhara_nand_mark_bad"])

prop("C13", "Start-up and operations do a bounded amount of flash work",
 "Resume performs a number of page reads and free checks bounded by a small multiple of log2(number of blocks) plus a constant that depends only on pages per block, whatever the flash holds; a lookup reads at most one metadata slice per sector-number bit plus one, and every other call programs and erases a number of pages bounded independently of chip size; it reads a number of pages bounded likewise, except for sync, which may have to look through the obsolete pages at the tail of the log.",
 ["inputs", "histories", "configurations"], "every possible flash content as seen by resume, for the stated geometries; every operation of every history within bounds",
 "Operation counts are printed by tests but never checked, and resume is run on a handful of contents.",
 [J, M], [("binary searches", "dhara/journal.c:find_last_checkblock, find_last_group"), ("retry limits", "dhara/journal.h:DHARA_MAX_RETRIES"), ("fixed depth lookup", "dhara/map.c:trace_path")],
 [], ["dhara_nand_read", "dhara_nand_is_free", "dhara_nand_prog"])

prop("C14", "Resume copes with any flash contents and never modifies the chip",
 "Whatever the chip holds (blank, foreign data, unreadable pages, any set of bad blocks, remnants of interrupted operations), resume terminates, stays within memory and chip bounds, and performs no program, erase or bad-block marking. If it finds no valid state it returns failure with an error code and leaves an empty, usable map.",
 ["inputs", "configurations"], "every assignment of page contents, free/unreadable status and bad marks for the stated geometries",
 "Tests resume only on chips the library itself wrote, or on one constant pattern.",
 [J, M], [("checkpoint validation", "dhara/journal.c:hdr_has_magic, find_checkblock, find_root"), ("fallback", "dhara/journal.c:reset_journal")],
 [], ["dhara_map_resume", "dhara_journal_resume"])

prop("C15", "The newest state is found after any number of passes over the chip",
 "However many times the log has wrapped around the chip, including when the pass counter itself rolls over, resume restores the newest durable state and continues writing after it, with or without power loss around the wrap.",
 ["histories", "crash_points"], "every head position around the wrap, every value of the pass counter, restart and power loss at every step there",
 "epoch_roll.c covers one head position at one pass number; the 8-bit counter never rolls over in a test.",
 [J], [("epoch advance", "dhara/journal.c:roll_stats and its call sites"), ("epoch comparison", "dhara/journal.c:find_last_checkblock, find_root")],
 [("epoch", "pass counter", "dhara/journal.h")], ["dhara_map_resume"])

prop("C16", "Only the caller's memory is touched, and only within its size",
 "No call reads or writes outside the instance, the single page buffer of exactly one page, and the buffers passed to it, nor uses uninitialised memory to decide anything; the library keeps no other state, so two instances on two chips never influence each other. This holds for every supported geometry and input.",
 ["inputs", "configurations", "histories"], "every operation of every history within bounds; every page size and block size in the supported range",
 "Tests are not run with bounds checking, use one page size, and never two instances.",
 [J, M, "ecc/bch.c", "ecc/hamming.c", "ecc/crc32.c"], [("metadata slice addressing", "dhara/journal.c:hdr_user_offset, choose_ppc"), ("buffer clearing", "dhara/journal.c:hdr_clear_user")],
 [("page_buf", "checkpoint under construction", "dhara/journal.h")], ["all public functions"])

prop("C17", "Checkpoint groups fit the page for every geometry",
 "For every page size and block size in range the checkpoint group is a power of two of at least two pages, never larger than an erase block, its header, cookie and all its metadata slices fit in one page, and it is the largest such group.",
 ["configurations"], "every log2 page size from the smallest that fits one slice up to 2^15 bytes and every log2 pages-per-block from 1 to 12",
 "One geometry (512-byte pages, 8 pages per block) is compiled into the tests.",
 [J], [("group size choice", "dhara/journal.c:choose_ppc")], [("log2_ppc", "log2 pages per checkpoint", "dhara/journal.h")], ["dhara_journal_init"])

prop("C18", "The on-flash checkpoint format is the documented one",
 "Every checkpoint page programmed carries, little-endian and at the documented offsets, the magic 'Dha', the pass counter, the tail page, the two bad-block counters, the sector count and one metadata slice (sector number and 32 alternate pointers) per user page of its group; its values are those of the map at that moment, so an independent reader following map_internals.txt decodes the same map.",
 ["histories", "inputs"], "every checkpoint page programmed in every history within bounds",
 "No test decodes a programmed page; a change of layout would pass all of them because reader and writer change together.",
 [J, M, "dhara/bytes.h", "map_internals.txt"], [("header accessors", "dhara/journal.c:hdr_*"), ("slice layout", "dhara/map.c:meta_*, dhara/bytes.h")],
 [], ["dhara_nand_prog"])

prop("C19", "Garbage collection is transparent and makes progress",
 "Triggering collection at any time changes no sector's data and not the size, and collecting repeatedly removes all garbage: after as many steps as the log holds pages, the log occupies no more user pages than the mapped sectors plus the padding of a bounded number of checkpoints and skipped bad blocks.",
 ["histories"], "every history within bounds followed by any number of collection steps",
 "dhara_map_gc is never called by a test except through automatic collection.",
 [M, J], [("tail repacking", "dhara/map.c:raw_gc, dhara_map_gc"), ("dequeue", "dhara/journal.c:dhara_journal_dequeue, dhara_journal_peek")],
 [("tail", "oldest page in the log", "dhara/journal.h")], ["dhara_map_gc", "dhara_journal_size"])

prop("C20", "All-0xff data pages are safe with a content-based free check",
 "All guarantees on reading back, synchronising, restarting and power loss hold when the driver's free check cannot tell an erased page from one programmed with all-0xff bytes, whatever mixture of all-0xff and other data is written.",
 ["histories", "crash_points", "configurations"], "every history within bounds where each written page is or is not all-0xff, with restart or power loss at every point",
 "The simulator's free check is precise, so the case is never exercised.",
 [J], [("whole-group free test", "dhara/journal.c:cp_free"), ("trailing free page count", "dhara/journal.c:find_head")],
 [], ["dhara_nand_is_free", "dhara_map_resume"])

prop("C21", "The journal is a FIFO queue of page and metadata pairs",
 "Pages leave the journal in the order they were enqueued, each with exactly the data and metadata it was given, at every position on the chip; the newest enqueued page is reported as the root; metadata is readable immediately after enqueue, before and after the checkpoint. Only filler pages the journal itself added may appear in between, fewer than one checkpoint group in a row for each failed block or restart.",
 ["histories", "fault_sequences"], "every interleaving of enqueue, copy, dequeue and clear within bounds, with bad blocks and block failures",
 "tests/journal.c and jfill.c run long fixed sequences of enqueue-all then dequeue-all.",
 [J], [("append", "dhara/journal.c:dhara_journal_enqueue, dhara_journal_copy, push_meta"), ("remove", "dhara/journal.c:dhara_journal_peek, dhara_journal_dequeue"), ("metadata routing", "dhara/journal.c:dhara_journal_read_meta")],
 [("head/tail/root", "queue ends", "dhara/journal.h")], ["dhara_journal_peek", "dhara_journal_read_meta", "dhara_journal_root"])

prop("C22", "Journal size and capacity are true upper bounds",
 "For every chip geometry and every queue position, the reported journal size is exactly the number of user-page slots from the last synchronised tail to the head, never less than the pages actually enqueued and not yet released, and the reported capacity equals the user-page slots of all blocks but one and the known bad ones; neither wraps around for any valid state, and the bad-block counts they use never exceed the number of blocks really bad (apart from the initial allowance of one block in 64 a new journal starts with).",
 ["configurations", "histories"], "every geometry in the stated range and every valid head/tail pair and bad-block count",
 "Tests print these values and check one inequality on one geometry.",
 [J], [("formulas", "dhara/journal.c:dhara_journal_size, dhara_journal_capacity")], [("bb_current/bb_last", "bad-block estimates", "dhara/journal.h")], ["dhara_journal_size", "dhara_journal_capacity"])

prop("C23", "Data not yet durably released is never overwritten",
 "The journal never erases a block holding, or programs over, pages that the last durable checkpoint still needs; when the head would reach such a block, enqueue and copy refuse with the journal-full error and the queue, its data and the stored checkpoint stay intact.",
 ["histories", "crash_points", "fault_sequences"], "every interleaving of enqueue, dequeue, clear and restart within bounds, from empty to completely full, with bad blocks in any position",
 "jfill.c fills the journal in one pattern, moves the synchronised tail by hand, and never restarts from a full journal.",
 [J], [("full test", "dhara/journal.c:prepare_head, skip_block"), ("tail release", "dhara/journal.c:dhara_journal_dequeue, push_meta, find_head")],
 [("tail_sync", "oldest page needed by the last checkpoint", "dhara/journal.h")], ["dhara_journal_enqueue", "dhara_nand_erase", "dhara_journal_resume"])

prop("C24", "Assisted recovery enumerates every page of the failed block",
 "When enqueue or copy asks for recovery, the pages offered are exactly the user pages already accepted on the failed block (pages released meanwhile may be left in or out), in order, each with its original data and metadata readable, and the enumeration restarts from the beginning if a further block fails; once they have been rewritten up to the next checkpoint, recovery ends by itself and the block is marked bad.",
 ["fault_sequences", "histories"], "a first failure at every page of a block at every position, followed by further failures at every program or erase of the recovery",
 "recovery.c runs nine scenarios on blocks 0-4 only, with no wrap-around and no restart.",
 [J], [("enumeration", "dhara/journal.c:dhara_journal_next_recoverable, restart_recovery"), ("dumped metadata", "dhara/journal.c:dump_meta, dhara_journal_read_meta")],
 [("recover_*", "recovery state", "dhara/journal.h")], ["dhara_journal_next_recoverable", "dhara_journal_in_recovery"])

prop("C25", "A clean journal is a durable journal",
 "Whenever the journal reports clean, restarting from the flash contents restores the same root, the same queue contents from tail to head with all data and metadata, and the same cookie (pages dequeued since that checkpoint may reappear at the tail end); while it is not clean, a restart restores the last clean state or a later one.",
 ["histories", "crash_points"], "every interleaving of enqueue, copy, dequeue, clear and restart within bounds",
 "tests/journal.c restarts 20 times at multiples of about 100 pages.",
 [J], [("dirty flag", "dhara/journal.c:prepare_head, push_meta, dhara_journal_clear"), ("resume", "dhara/journal.c:dhara_journal_resume")],
 [("F_DIRTY", "unsaved pages exist", "dhara/journal.h"), ("cookie", "upper-layer data in the checkpoint", "dhara/journal.h")], ["dhara_journal_is_clean", "dhara_journal_resume", "dhara_journal_cookie"])

prop("C26", "Queries change nothing and work already done is not done again",
 "At every moment, finding a sector, reading a sector and asking for size, capacity or root change nothing in the instance, the page buffer or the flash, so asking twice gives the same answer; synchronising a map that is already synchronised, and clearing or collecting an empty one, succeed without touching the flash or the instance.",
 ["histories", "fault_sequences"], "every sector number in every reachable state within bounds, before and after failures, power loss and unreadable pages",
 "Tests read back what they wrote and never look at what a read leaves behind.",
 [M, J], [("lookup", "dhara/map.c:trace_path, dhara_map_find, dhara_map_read"), ("nothing to do", "dhara/map.c:dhara_map_sync, dhara_map_gc, dhara_map_clear"), ("metadata", "dhara/journal.c:dhara_journal_read_meta")],
 [("dirty flag", "set while there is something to synchronise", "dhara/journal.h")], ["dhara_map_read", "dhara_map_find", "dhara_map_sync"])

prop("C27", "Reported capacity is stable and leaves the promised reserve",
 "The map's reported capacity is the capacity of the journal less one part in gc_ratio + 1 (a ratio of 0 counts as 1) and less eight blocks' worth of pages, or 0 if nothing is left, for every geometry, collection ratio and bad-block count; it stays the same across every operation which meets no bad block and does not start a new pass over the chip, and across a clean restart.",
 ["configurations", "histories"], "every geometry in the stated range, all 256 ratios, every bad-block count; every operation within bounds",
 "Tests print the capacity of one geometry and compare it with nothing.",
 [M, J], [("formula", "dhara/map.c:dhara_map_capacity, dhara_map_init"), ("journal part", "dhara/journal.c:dhara_journal_capacity")], [("gc_ratio", "share of the log kept spare", "dhara/map.h")], ["dhara_map_capacity"])

prop("C30", "Hamming code corrects any single-bit error",
 "For every chunk of up to 512 bytes, the syndrome of the chunk with its own code is zero, and after any single bit of chunk or code is flipped the syndrome is non-zero and repair succeeds and leaves exactly the original chunk. A fully erased chunk with erased code bytes passes.",
 ["inputs"], "every chunk content, every chunk length in the stated set up to 512 and every bit position",
 "tests/hamming.c tries 220 random flips on 11 chunks of 512 bytes.",
 ["ecc/hamming.c"], [("parity", "ecc/hamming.c:parity_scan"), ("repair", "ecc/hamming.c:hamming_repair")], [], ["hamming_generate", "hamming_syndrome", "hamming_repair"])

prop("C31", "Hamming code detects any double-bit error",
 "For every chunk of up to 512 bytes, when any two distinct bits among chunk and code are flipped, the syndrome is non-zero, the damaged chunk is never silently altered into a third value, and repair reports failure unless the chunk data itself is undamaged; repair never writes outside the chunk for any syndrome.",
 ["inputs"], "every pair of bit positions, every chunk content and every syndrome value",
 "No test flips two bits or calls repair with an arbitrary syndrome.",
 ["ecc/hamming.c"], [("pair check", "ecc/hamming.c:hamming_repair")], [], ["hamming_syndrome", "hamming_repair"])

prop("C32", "BCH codes accept their own output and detect up to 2t flipped bits",
 "For each of the four BCH codes and every chunk, verification of the chunk with the generated code succeeds, a fully erased chunk with erased code bytes succeeds, and verification fails whenever between 1 and 2t bits of the chunk and code are flipped; unused bits of the last code byte are ignored.",
 ["inputs"], "every chunk content and every error pattern within the stated chunk lengths",
 "tests/bch.c verifies 11 chunks per code and flips at most t random bits.",
 ["ecc/bch.c"], [("remainder", "ecc/bch.c:chunk_remainder, pack_poly, unpack_poly"), ("generators", "ecc/bch.c:bch_1bit..bch_4bit")], [], ["bch_generate", "bch_verify"])

prop("C33", "BCH codes repair up to t flipped bits",
 "For each BCH code of strength t and every chunk, after any at most t bits of the chunk and its code are flipped, repair restores exactly the original chunk and code and verification succeeds. With more errors or arbitrary contents repair stays within the buffers and terminates.",
 ["inputs"], "every chunk content and every pattern of at most t flips within the stated chunk lengths",
 "tests/bch.c tries 220 random patterns per code at one chunk length.",
 ["ecc/bch.c", "ecc/gf13.h"], [("decoder", "ecc/bch.c:syndrome, berlekamp_massey, poly_eval, bch_repair")], [], ["bch_repair"])

prop("C34", "GF(2^13) arithmetic is a field and both builds agree",
 "The table-driven and the table-free builds give the same product, quotient, and multiplication and division by x for all non-zero elements, equal to polynomial arithmetic modulo x^13+x^4+x^3+x+1; the exponent and logarithm tables are inverse to each other (up to the order of the field for the logarithm of one).",
 ["inputs", "configurations"], "all pairs of 13-bit field elements",
 "No test exercises the table-free build or the arithmetic directly.",
 ["ecc/gf13.c", "ecc/gf13.h"], [("tables", "ecc/gf13.c:gf13_exp, gf13_log"), ("wrap", "ecc/gf13.h:gf13_wrap")], [], ["gf13_mul", "gf13_div", "gf13_mulx", "gf13_divx"])

prop("C35", "CRC-32 matches its definition, chains, and detects small errors",
 "For every block and carry, the checksum equals the bitwise definition (reflected 0xedb88320 over inverted data), checksumming a block in pieces through the carry equals checksumming it whole, an erased block gives an erased checksum, and blocks of equal length differing in 1 to 3 bits, or within one 32-bit burst, never share a checksum.",
 ["inputs"], "every block content, length, split point and carry within the stated lengths",
 "tests/crc32.c tries 200 random 4-bit patterns and never passes a carry.",
 ["ecc/crc32.c"], [("table step", "ecc/crc32.c:crc32_nand")], [], ["crc32_nand"])

prop("C36", "Every error code has a message",
 "The message function returns a non-null, non-empty, NUL-terminated string for every value, a distinct one for every defined code, and a generic one for any other value.",
 ["inputs"], "every value of the error type",
 "tests/error.c covers defined codes only and only checks non-null.",
 ["dhara/error.c", "dhara/error.h"], [("table lookup", "dhara/error.c:dhara_strerror")], [], ["dhara_strerror"])

prop("C37", "The table generators reproduce the shipped tables and polynomials",
 "For any polynomial of supported degree, the CRC table generator computes the reflected byte-wise reduction table, the Galois-field tool computes the exponential and logarithm tables and BCH generators of that field, and for the shipped polynomials these equal the tables and generators compiled into the library.",
 ["inputs"], "every 32-bit CRC polynomial and table index; every entry of the shipped field tables",
 "The tools are built but never run by a test.",
 ["tools/gentab.c", "tools/gftool.c", "ecc/crc32.c", "ecc/gf13.c", "ecc/bch.c"], [("CRC table", "tools/gentab.c:fill_table"), ("field tables", "tools/gftool.c:gf_init, bch_generator")], [], ["gentab output", "gftool output"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
