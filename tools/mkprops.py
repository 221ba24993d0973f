#!/usr/bin/env python3
"""Writes properties.jsonl (run after editing the list below)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Two files are called identical only if all their bytes are equal",
     "When the byte-for-byte comparison of two files succeeds, it says 'identical' exactly when both files have the same length and the same bytes, whichever way the files are read (mapped, or in chunks) and however many bytes each read returns. An I/O error is reported as an error, never as 'identical'; without any I/O error the comparison succeeds.",
     ["inputs", "fault_sequences"], "every pair of file contents and lengths (including files that changed length since they were listed), every size threshold, every pattern of short reads and failing open/map/read/close calls",
     "Tests compare a few fixed files with full reads; the wrong answers appear only for particular combinations of length, chunk boundary, short read and error.",
     ["src/ft_file.c"], [("filecmp", "src/ft_file.c")], observe="status and result of the comparison")
prop("C02", "Text report lists exactly the sets of identical files",
     "For any scanned files, the text report prints each set of identical files once, with members separated by the chosen separator and sets by a blank line, prioritised files before the others, every file in at most one set, and no set of fewer than two files. A pair that cannot be compared is skipped without stopping, crashing or dropping the other files' sets.",
     ["inputs", "fault_sequences", "configurations"], "every number of files up to the bound, every assignment of sizes, hashes, contents and priorities, every pattern of failing comparisons, every separator and option mask",
     "The grouping depends on the order, hash, content and failure pattern of all files of one size; a test samples a handful of combinations, with no failing comparison between successes.",
     ["src/ft_report.c"], [("ft_report_duplicates", "src/ft_report.c"), ("ft_chksum_cmp", "src/ft_report.c"), ("get_comparison_paths", "src/ft_report.c")], observe="standard output")
prop("C03", "JSON report carries exactly the same duplicate sets as the files",
     "For any scanned files, the JSON report contains one object per set of identical files, with the true size, the files' content hash in hexadecimal (128 bits, zero padded), and for each member its path, UTC modification time and priority flag; every file is in at most one set, and no set has fewer than two members. A pair that cannot be compared is skipped without crashing or dropping other files' sets.",
     ["inputs", "fault_sequences", "configurations"], "every number of files up to the bound, every assignment of sizes, hashes, contents, times and priorities, every pattern of failing comparisons",
     "As for the text report, plus field values that must be right for every hash and time.",
     ["src/ft_report_json.c"], [("ft_report_json", "src/ft_report_json.c")], observe="the JSON document handed to the writer")
prop("C04", "The content hash covers every byte of the file, in order, once",
     "The checksum of a file is the hash of exactly the file's bytes in order, the same whether the file is mapped or read in chunks and however many bytes each read returns. A file that cannot be opened or read to its end yields an error and not a checksum.",
     ["inputs", "fault_sequences"], "every content and length up to the bound, every threshold, every pattern of short reads and failing calls",
     "A dropped or repeated chunk shows only for particular read patterns and lengths around chunk boundaries.",
     ["src/ft_file.c"], [("checksum_file", "src/ft_file.c")], observe="hash and status returned")
prop("C05", "A scan collects exactly the files the filters allow",
     "A regular file found by the scan is considered if and only if: its size lies within the minimum and maximum size, the user may read it according to its mode, it is not hidden (unless hidden files are requested), its name is not in the ignore list, its path does not match the ignore expression, matches the accept expression when one is given, and is not excluded by an ignore file. Considered files keep their path, size and modification time, each exactly once, and are marked prioritised exactly when their path starts with the priority prefix (whatever its case when case is ignored). A file given as an argument is subject only to the size limits, its mode and the ignore files of the program.",
     ["inputs", "configurations"], "every directory tree up to the bound, every combination of filters and of what each filter says about each entry",
     "The filters interact; tests exercise them one at a time on fixed trees.",
     ["src/ft_traverse.c"], [("ft_traverse_path", "src/ft_traverse.c")], observe="the heap of candidate files and the table of sizes")
prop("C06", "Scans descend into the right directories and survive bad entries",
     "The scan enters a sub-directory if and only if recursion is on and the directory is not hidden, ignored by name, by expression or by an ignore file; the accept expression does not stop descent. It never follows a symbolic link unless asked to, always terminates, and an entry that cannot be examined or opened does not prevent the remaining entries from being scanned. A path given as an argument that cannot be examined or opened makes the scan fail.",
     ["inputs", "configurations", "fault_sequences"], "every directory tree up to the bound including links back to an ancestor, every failing stat/open/read call, every option mask",
     "Termination and fault isolation need link cycles and failing system calls at every position, which tests do not produce.",
     ["src/ft_traverse.c"], [("ft_traverse_path", "src/ft_traverse.c")], observe="directories opened and files collected")
prop("C07", "Every candidate file that could have a twin reaches the report with its hash",
     "After the hashing stage, for every size shared by at least two candidate files the table holds each readable candidate once with its own content hash (or all with the same placeholder hash when the report compares them directly), and unreadable files are left out without losing the others. The outcome does not depend on the number of worker threads or on the order in which they run.",
     ["inputs", "schedules", "fault_sequences", "configurations"], "every multiset of files and sizes up to the bound, every order of task execution, every subset of files whose hashing fails",
     "Lost or misplaced entries depend on schedule and on which file fails.",
     ["src/ft_process.c"], [("ft_process_files", "src/ft_process.c")], observe="table of sizes after the stage")
prop("C08", "The thread pool runs every task exactly once before wait returns",
     "Every task added to the pool is executed exactly once, by one worker at a time, and waiting on the pool returns only after all tasks added before it have finished executing. Shutting down lets running tasks finish, joins all workers and never deadlocks or loses a wake-up.",
     ["schedules"], "every interleaving of adders, workers, waiter and shutdown, including spurious wake-ups, up to the bound",
     "A lost wake-up or an early return shows only in rare interleavings.",
     ["src/napr_threadpool.c"], [("napr_threadpool_add/wait/shutdown/loop", "src/napr_threadpool.c")], observe="task executions and return of wait/shutdown")
prop("C09", "The heap yields every inserted element once, largest first",
     "Whatever sequence of inserts and extracts is made, every index below the size names a different element that is inside, and extraction returns a largest element among those inserted and not yet extracted, each exactly once, and reports emptiness exactly when none is left.",
     ["inputs", "histories"], "every sequence of insert/extract/index operations and every key value up to the bound, including growth of the storage",
     "Order violations need particular shapes of the heap.",
     ["src/napr_heap.c"], [("napr_heap_insert/extract", "src/napr_heap.c")], observe="elements returned")
prop("C10", "The hash table is a faithful map whatever keys collide",
     "After any sequence of insertions and removals, a lookup finds a key's element if and only if it was inserted and not removed since, iteration visits every present element exactly once, and growing the table loses nothing and terminates, as long as fewer keys than the bucket limit share one full hash value.",
     ["inputs", "histories"], "every sequence of operations up to the bound, with every pattern of hash values, including all keys colliding",
     "Collisions and growth at every position cannot be sampled by fixed keys.",
     ["src/napr_hash.c"], [("napr_hash_search/set/remove/first/next", "src/napr_hash.c")], observe="results of searches and iteration")
prop("C11", "Ignore rules: the last matching rule decides, nearer files override",
     "For a path, among the rules of the nearest ignore file that has a matching rule the last matching one decides: a plain rule ignores, a rule starting with '!' re-includes. Rules ending in '/' concern directories only, a path matching no rule anywhere is not ignored, and rules are matched against the path relative to the directory of the ignore file.",
     ["inputs", "configurations"], "every chain of ignore files up to the bound, every set of rules, every outcome of the individual pattern matches, file or directory",
     "Precedence mistakes show only when rules at several levels match the same path.",
     ["src/ft_ignore.c"], [("ft_ignore_match", "src/ft_ignore.c"), ("ft_ignore_add_pattern_str", "src/ft_ignore.c")], observe="decision for the path")
prop("C12", "Ignore patterns match the paths that gitignore globs denote",
     "A pattern matches a path exactly as a gitignore glob does: '*' and '?' never cross '/', '**/' spans directories, character classes and '!' negation inside them work, all other characters are literal, a pattern with a leading or inner '/' is anchored to the ignore file's directory and one without matches at any depth, and a rule ending in '/' also covers the directories below a matched one. Any pattern text, of any length, is handled without memory errors.",
     ["inputs"], "every pattern up to the bound over the special characters and literals, every path up to the bound",
     "The translation is a context-dependent state machine; tests sample a few patterns.",
     ["src/ft_ignore.c"], [("ft_glob_to_pcre", "src/ft_ignore.c"), ("ft_ignore_add_pattern_str", "src/ft_ignore.c")], observe="match result of the compiled pattern")
prop("C13", "Reading an ignore file yields one rule per effective line",
     "Loading an ignore file adds one rule for every line that is not empty and not a comment, in file order, with trailing white space and line ends removed, whatever the file contains. Lines that are too long or no valid pattern, blank lines and read errors never crash the program or change the other rules.",
     ["inputs", "fault_sequences"], "every file content up to the bound",
     "Line handling depends on lengths and on bytes at the ends of lines.",
     ["src/ft_ignore.c"], [("ft_ignore_load_file", "src/ft_ignore.c")], observe="rules of the context")
prop("C14", "Options set exactly the behaviour they document",
     "Each command-line option changes exactly the setting it documents, in any order and combination; unknown options, invalid numbers, sizes and thread counts (outside 1 to 256) are rejected. JSON output forces non-verbose output and real hashes whatever the order of the options, and names given to the ignore list are all ignored, without limit or repetition problems.",
     ["inputs", "configurations"], "every sequence of options up to the bound with every argument text up to the bound",
     "Combinations and orders of options grow exponentially.",
     ["src/ft_config.c"], [("ft_config_parse_args", "src/ft_config.c")], observe="resulting configuration")
prop("C15", "Human-readable sizes are parsed and printed correctly",
     "A size argument made of digits and an optional unit letter means that number times the unit's power of 1024, malformed or negative text is rejected, and no accepted text yields a wrapped-around value. A size in bytes is printed with the largest unit that keeps it at least one, within rounding of the true value.",
     ["inputs"], "every argument text up to the bound; every 64-bit size",
     "Boundary values between units and overflow are rarely sampled.",
     ["src/human_size.c"], [("parse_human_size/format_human_size", "src/human_size.c")], observe="value or text returned")
prop("C16", "Ordering and hashing of records are consistent",
     "The order used to sort candidate files by checksum is a total preorder that groups equal hashes together and puts prioritised files first within a group; the comparison and hash functions of the program's tables agree, so that equal keys have equal hashes and compare equal, for all values.",
     ["inputs"], "all values of the compared fields",
     "Antisymmetry and transitivity failures involve extreme values (sign, overflow).",
     ["src/ft_report.c", "src/key_hash.c", "src/ft_config.c"], [("ft_chksum_cmp", "src/ft_report.c"), ("apr_off_t_key_cmp/hash, gid_key_*, ft_file_cmp", "src/ft_config.c, src/key_hash.c")], observe="return values")
prop("C17", "Database pages stay sorted, intact and in bounds under every update",
     "Inserting into, deleting from or splitting a page keeps exactly the expected entries in key order with their values intact, never writes outside the page, and refuses an entry that does not fit, leaving the page unchanged. Search finds a key's position, or its insertion point, for every page and key.",
     ["inputs", "histories"], "every well-formed page up to the bound (arbitrary slot layout), every key and value length including those larger than a page",
     "Overlap and bounds errors depend on exact sizes and layouts.",
     ["src/napr_db_tree.c"], [("db_page_search/insert/delete, db_split_leaf/branch", "src/napr_db_tree.c")], observe="page contents")
prop("C18", "The database behaves as a map over any history of puts and deletes",
     "Within and across transactions, a get returns the value of the last put of that key if it was not deleted since, and 'not found' otherwise, however the keys' order makes pages split or empty out. A put of a key stored before replaces its value, except that a put of a key which the same transaction added may be refused as already present. Every entry of up to half a page can be stored; a refused operation leaves every key unchanged, and a value obtained stays valid until the next update.",
     ["histories", "inputs"], "every sequence of puts, deletes, commits and aborts up to the bound with every choice of keys",
     "Misplaced keys after splits depend on the relative order of all keys.",
     ["src/napr_db.c", "src/napr_db_tree.c"], [("napr_db_put/get/del", "src/napr_db.c")], observe="results of get")
prop("C19", "A crash leaves the database in its last committed state",
     "If the machine stops at any point during a commit, reopening the file finds either all of that transaction's changes or none of them, and all earlier commits; a write or sync error makes the commit fail and leaves the earlier state readable. A transaction that was aborted or failed leaves nothing behind.",
     ["crash_points", "fault_sequences", "histories"], "every crash point among the writes and syncs of a commit, with any subset of unsynced page writes persisted, every failing call",
     "Crash points between writes cannot be hit by in-process tests.",
     ["src/napr_db.c"], [("napr_db_txn_commit, env_open meta selection", "src/napr_db.c")], observe="contents after reopening")
prop("C20", "Readers see a fixed snapshot and live pages are never reused",
     "A read transaction keeps returning the contents of the database as of its start, whatever is committed meanwhile. A page is handed out for reuse only when no committed state that is current, or that an open reader holds, still contains it.",
     ["histories", "schedules"], "every history of overlapping readers and committing writers up to the bound",
     "Premature reuse needs several transactions with readers held open at particular points.",
     ["src/napr_db.c", "src/napr_db_tree.c"], [("db_page_get_writable, db_reclaim_page_from_free_db, reader table", "src/napr_db.c, src/napr_db_tree.c")], observe="results of reads in open readers; page numbers allocated")
prop("C21", "Cursors visit every key once, in order",
     "A cursor moved from the first entry forward (or from the last one backward) visits every key of the database exactly once in key order, whatever pages have become empty; positioning at a key finds it, and positioning at or after a key finds the smallest key not less than it.",
     ["histories", "inputs"], "every database content up to the bound, including trees with emptied pages, and every starting key",
     "Skipped keys need emptied or boundary pages.",
     ["src/napr_db_cursor.c"], [("napr_db_cursor_get", "src/napr_db_cursor.c")], observe="keys returned")
prop("C22", "Transactions release their locks and reader slots on every path",
     "Every write transaction that began is matched by exactly one release of the writer lock when it commits, aborts or fails, and a begin that fails holds nothing. A reader occupies exactly one slot from begin to end; ended readers never block later ones.",
     ["fault_sequences", "histories"], "every failing call during begin, commit and abort, every order of begin/end of readers up to the bound",
     "Needs failures injected at each call.",
     ["src/napr_db.c"], [("napr_db_txn_begin/commit/abort", "src/napr_db.c")], observe="lock and slot table state")
prop("C23", "The file cache returns the last stored entry and sweeps only unseen ones",
     "A lookup returns exactly the last entry stored for that path; after marking the visited paths, the sweep removes exactly the entries that were not visited and keeps all others. Storing the same path again replaces its entry.",
     ["histories", "inputs"], "every history of store, lookup, mark and sweep up to the bound",
     "Depends on the order of operations within one transaction.",
     ["src/napr_cache.c"], [("napr_cache_lookup/upsert/mark_visited/sweep", "src/napr_cache.c")], observe="lookup results")
prop("C24", "Only one process opens a cache, and a failed open releases everything",
     "A cache that another process has open cannot be opened until it is closed there, and the database is only touched while this lock is held. An open that fails at any step releases the lock, the files and the database so that a later open can succeed; closing releases them on every path, with or without a transaction under way.",
     ["fault_sequences", "histories"], "every failing call during open and close",
     "Needs failures injected at each call.",
     ["src/napr_cache.c"], [("napr_cache_open/close", "src/napr_cache.c")], observe="lock and handle state")
prop("C25", "Image mode reports every pair of similar images once",
     "In image mode every image file whose signature could be computed is compared once with every other one, pairs at a distance below the threshold are reported (first path, separator, second path) and no others, and images that cannot be decoded are skipped without affecting the rest.",
     ["inputs", "fault_sequences"], "every number of images up to the bound, every distance, every subset of undecodable files",
     "Tests use a handful of fixed images.",
     ["src/ft_image.c"], [("ft_image_twin_report", "src/ft_image.c")], observe="standard output")
prop("C26", "Extracting an archive member yields exactly that member or nothing",
     "Extracting a member from an archive yields the path of a fresh temporary file, readable and writable by the user only, holding exactly the blocks at their offsets of the first regular member with that name, or a failure with no file left behind; members that are links or special files are refused, nothing else on disk is written, and the archive is closed on every path.",
     ["inputs", "fault_sequences"], "every sequence of archive entries and blocks up to the bound, every failing library call",
     "Needs failures of the archive library at each step.",
     ["src/ft_archive.c"], [("ft_archive_untar_file", "src/ft_archive.c")], observe="temporary file contents and returned path")
prop("C27", "A run scans all arguments, reports once, and its status tells of failures",
     "After a valid command line every path argument is scanned once, in order (by its absolute path for JSON output), before anything is hashed or reported. If files were found exactly one report is made: the image report in image mode, else, after the hashing stage succeeded, the JSON report if requested and the text report otherwise. The exit status is 0 if and only if files were found and every step succeeded, nothing is scanned after a rejected command line, and no report follows a failed scan or hashing stage.",
     ["inputs", "fault_sequences"], "every option mask, number of arguments and outcome of every step",
     "A swallowed failure or skipped argument shows only when a particular step fails or finds nothing.",
     ["src/ftwin.c"], [("ftwin_main, run_ftwin_processing", "src/ftwin.c")], observe="calls of the stages and the exit status")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
