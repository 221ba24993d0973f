from engine import Unit
FILE_LIBS = ("vp.c", "apr_core.c", "out_null.c", "apr_file.c")
CHECKS = {}
BIG = "{65535,65536,65537,131072,131073,200000,1048576}"
CHECKS["C01"] = dict(units=[
    Unit("filecmp", "filecmp.c", ["ft_file.c"], FILE_LIBS, defs={"VP_FMAX": 3, "VP_RESIZED": None}, srcdefs={"FTWIN_VERIF": None, "FTWIN_VERIF_CHUNK": 2}, unwind=6, bounds="3 bytes"),
    Unit("filecmp_big", "bigfile.c", ["ft_file.c"], ("vp.c", "apr_core.c", "out_null.c"), defs={"VP_CMP": None, "VP_SIZES": BIG}, symx=True, jobs=4, cover=["identical", "different"],
         bounds="files of %s bytes, one byte in one of 8 places arbitrary, lengths equal or off by one" % BIG),
])
LOCK_LIBS = ("vp.c", "apr_core.c", "out_null.c", "apr_lock.c")
HEAP_DEFS = {"FTWIN_VERIF": None, "FTWIN_VERIF_HEAP_MAX": 2}
CHECKS["C09"] = dict(units=[
    Unit("heap_%s" % n, "heap.c", ["napr_heap.c"], LOCK_LIBS, defs={"VP_OPS": len(n), "VP_SCRIPT": int(n[::-1].replace("I", "1").replace("X", "0"), 2)},
         srcdefs=HEAP_DEFS, unwind=8, bounds="script %s (I insert, X extract), then drained" % n)
    for n in ("IIIIII", "IIIXIX", "IXIIXI", "IIIIXX", "IIXXII", "XIIXXXI")
] + [Unit("heap_locked", "heap.c", ["napr_heap.c"], LOCK_LIBS, defs={"VP_OPS": 5, "VP_SCRIPT": 0b11011, "VP_R": None}, srcdefs=HEAP_DEFS, unwind=8, bounds="script IIXII on a heap with a lock, then drained")] +
  [Unit("heap_large%d_%s" % (km, n), "heap.c", ["napr_heap.c"], LOCK_LIBS, defs={"VP_OPS": len(n), "VP_SCRIPT": int(n[::-1].replace("I", "1").replace("X", "0"), 2), "VP_KEYMAX": km}, srcdefs=HEAP_DEFS, symx=True, jobs=2, cover=["end"],
        bounds="script %s (I insert, X extract), then drained, keys 0..%d" % (n, km)) for n, km in (("I" * 8, 1), ("IIIIIIIXXI", 1), ("IIIII", 2))])
def hash_unit(script, ff, nel, hmax, keys=4, **k):
    return Unit("hash_%s_ff%d" % (script, ff), "hash.c", ["napr_hash.c"], defs={"VP_SCRIPT": '"%s"' % script, "VP_FF": ff, "VP_NEL": nel, "VP_HMAX": hmax, "VP_KEYS": keys},
                unwind=20, object_bits=12, bounds="script %s (digit insert, letter remove), hash values 0..%d, bucket limit %d" % (script, hmax, ff), replay_hang=True, flags=("--paths", "lifo"), **k)
CHECKS["C10"] = dict(units=[hash_unit("012", 2, 1, 3, 3), hash_unit("0123", 3, 2, 3), hash_unit("01a2b3", 3, 2, 3)])

REPORT_LIBS = ("vp.c", "apr_core.c", "apr_lock.c", "out_emit.c", "fmt.c")
def report_unit(name, sizes, mask="0", bounds="", harness="report.c", src="ft_report.c", libs=(), more=None, **k):
    d = {"VP_SIZES": "{%s}" % ",".join(map(str, sizes)), "VP_MASK": mask, "VP_STRMAX": 2, "VP_FITS_WIDTH": None}
    d.update(more or {})
    bounds = bounds or "files of sizes %s%s, options %s; every equality, hash order%s and failing comparison" % (tuple(sizes), " (some archive members)" if "VP_SUBPATHS" in d else "", mask, "" if "VP_NOPRIO" in d else ", priority")
    return Unit(name, harness, [src, "napr_heap.c", "napr_hash.c"] + list(k.pop("srcs", [])), REPORT_LIBS + tuple(libs), defs=d, srcdefs={"FTWIN_VERIF": None, "FTWIN_VERIF_HEAP_MAX": 8}, bounds=bounds, **k)
CHECKS["C02"] = dict(units=[
    report_unit("report_3", (5, 5, 5), unwind=20),
    report_unit("report_newline", (5, 5, 5), unwind=20, more={"VP_SEP": "10"}),
    report_unit("report_2_2", (5, 7, 5, 7), "OPTION_SIZED", unwind=20, more={"VP_NOPRIO": None}),
    report_unit("report_untar", (5, 5, 5), "OPTION_UNTAR", unwind=20, more={"VP_NOPRIO": None, "VP_SUBPATHS": 6, "VP_FIXED_HASH": 0, "VP_SEP": "':'"}),
    report_unit("report_tty", (5, 5), unwind=20, more={"VP_TTY": 1, "VP_STRMAX": 12, "VP_TWO": None}),
])
JS = dict(harness="report_json.c", src="ft_report_json.c", srcs=["ft_report.c"], libs=("jansson.c",), unwind=40)
CHECKS["C03"] = dict(units=[
    report_unit("json_3", (5, 5, 5), **JS),
    report_unit("json_2_2", (5, 7, 5, 7), more={"VP_NOPRIO": None}, **JS),
    report_unit("json_untar", (5, 5, 5), "OPTION_UNTAR", more={"VP_NOPRIO": None, "VP_SUBPATHS": 6, "VP_FIXED_HASH": 0}, **JS),
    report_unit("json_formats", (5, 5), more={"VP_TWO": None, "VP_FORMATS": None, "VP_NOPRIO": None, "VP_FIXED_HASH": 0, "VP_STRMAX": 20, "VP_NOFAULT": None}, **JS),
])
def checksum_unit(n, chunk, **k):
    return Unit("checksum_%d_%d" % (n, chunk), "checksum.c", ["ft_file.c"], FILE_LIBS + ("xxh.c",), defs={"VP_FMAX": n}, srcdefs={"FTWIN_VERIF": None, "FTWIN_VERIF_CHUNK": chunk},
                unwind=n + 2, bounds="files of up to %d bytes, chunks of %d bytes" % (n, chunk), **k)
CHECKS["C04"] = dict(units=[checksum_unit(5, 2), checksum_unit(3, 3), checksum_unit(4, 1),
    Unit("checksum_big", "bigfile.c", ["ft_file.c"], ("vp.c", "apr_core.c", "out_null.c"), defs={"VP_SIZES": BIG}, symx=True, jobs=4, cover=["hashed"],
         bounds="files of %s bytes, one byte in one of 8 places arbitrary, the first read whole or short" % BIG)])
CHECKS["C15"] = dict(units=[
    Unit("size_text", "size_parse.c", ["human_size.c"], defs={"VP_TEXT": 4}, unwind=7, bounds="texts of up to 4 ASCII characters, decimal notation"),
    Unit("size_any_number", "size_parse.c", ["human_size.c"], defs={"VP_ANY_NUMBER": None}, unwind=7, bounds="every double strtod() can return, one following character"),
] + [Unit("size_format_%d" % n, "size_format.c", ["human_size.c"], ("vp.c", "apr_core.c", "out_emit.c", "fmt.c"), defs={"VP_UNIT": n, "VP_DOUBLES": None}, unwind=24, bounds="sizes printed in unit %d" % n) for n in range(7)])
CHECKS["C16"] = dict(units=[
    Unit("order", "order.c", ["ft_report.c", "key_hash.c", "ft_config.c", "ftwin.c"], unwind=18, bounds="three records with arbitrary fields"),
])
CONFIG_LIBS = ("vp.c", "apr_core.c", "out_null.c", "num.c")
def config_unit(name, steps, by_long, **k):
    return Unit(name, "config.c", ["ft_config.c"], CONFIG_LIBS, defs={"VP_STEPS": steps, "VP_BY_LONG": by_long, "VP_OWN_EXIT": None, "VP_OWN_STRDUP": None, "VP_NUMMAX": 4}, unwind=27, unwindset={"strlen.0": 6, "strchr.0": 6},
                bounds="every sequence of %d options, %s" % (steps, "long names" if by_long else "letters"), **k)
CHECKS["C14"] = dict(units=[config_unit("options_2", 2, 0), config_unit("options_3", 3, 0), config_unit("options_long", 1, 1),
    Unit("ignore_list", "config_list.c", ["ft_config.c"], CONFIG_LIBS, defs={"VP_LEN": 5, "VP_NLISTS": 1, "VP_OWN_STRDUP": None}, unwind=27, unwindset={"strlen.0": 8, "strchr.0": 8}, bounds="every list of 5 characters with names of at most 2"),
    Unit("ignore_list_twice", "config_list.c", ["ft_config.c"], CONFIG_LIBS, defs={"VP_LEN": 3, "VP_NLISTS": 2, "VP_OWN_STRDUP": None}, unwind=27, unwindset={"strlen.0": 8, "strchr.0": 8}, bounds="every pair of lists of 3 characters"),
    Unit("ignore_list_repeat", "config_list.c", ["ft_config.c"], CONFIG_LIBS, defs={"VP_LEN": 19, "VP_NLISTS": 1, "VP_OWN_STRDUP": None, "VP_COMMAS": None}, unwind=27, bounds="lists of ten names out of two"),
])
PROCESS_LIBS = ("vp.c", "apr_core.c", "apr_lock.c", "out_null.c")
def process_unit(name, sizes, mask="0", hashed=1, **more):
    d = {"VP_SIZES": "{%s}" % ",".join(map(str, sizes)), "VP_MASK": mask, "VP_HASHED": hashed}
    d.update(more)
    return Unit(name, "process.c", ["ft_process.c", "napr_hash.c"], PROCESS_LIBS, defs=d, srcdefs={"FTWIN_VERIF": None, "FTWIN_VERIF_HEAP_MAX": 8}, unwind=24,
                bounds="files of sizes %s, options %s" % (sizes, mask))
CHECKS["C07"] = dict(units=[
    process_unit("process_3_2_1", (5, 5, 7, 5, 9, 7)),
    process_unit("process_empty", (0, 0, 0, 3, 3), hashed=0),
    process_unit("process_json", (5, 5, 0, 0, 8), "OPTION_JSON"),
    process_unit("process_untar", (5, 5, 5, 5), "OPTION_UNTAR", VP_SUBPATHS=6),
    process_unit("process_no_more_tasks", (5, 5, 5), VP_ADDFAIL=2),
    process_unit("process_untar_json", (5, 5, 5), "OPTION_UNTAR|OPTION_JSON|OPTION_VERBO", VP_SUBPATHS=3),
])
def traverse_unit(name, **d):
    return Unit(name, "traverse.c", ["ft_traverse.c"], PROCESS_LIBS, defs=d, unwind=14, bounds="one argument%s; every filter setting, attribute, kind and failure" % (", a directory with up to two levels" if "VP_TREE" in d or d.get("VP_ROOT") == "APR_DIR" else ", a file"))
CHECKS["C05"] = dict(units=[traverse_unit("scan_files", VP_ROOT="APR_DIR"), traverse_unit("scan_argument", VP_ROOT="APR_REG")])
CHECKS["C06"] = dict(units=[traverse_unit("scan_dir", VP_TREE=1), traverse_unit("scan_link", VP_TREE=2), traverse_unit("scan_special", VP_TREE=3), traverse_unit("scan_sublink", VP_TREE=4)])
IGNORE_LIBS = ("vp.c", "apr_core.c", "apr_array.c", "out_null.c")
def match_unit(name, bases, rules, path):
    return Unit(name, "ignore_match.c", ["ft_ignore.c"], IGNORE_LIBS, defs={"VP_BASES": "{%s}" % ",".join('"%s"' % b for b in bases), "VP_RULES": "{%s}" % ",".join('"%s"' % b for b in rules), "VP_PATH": '"%s"' % path},
                unwind=40, bounds="ignore files in %s with %s rules, path %s" % (bases, rules, path))
CHECKS["C11"] = dict(units=[
    match_unit("chain", ("/", "/a", "/a/b"), ("PNDM", "NPMD", "PDNMP"), "/a/b/c"),
    match_unit("sibling", ("/", "/a", "/a/b"), ("P", "PNDM", "PNDM"), "/a/bc"),
    match_unit("relative", ("/", "d", "d/e/"), ("P", "PNDM", "DMNP"), "d/e//f"),
    match_unit("one", ("d",), ("PNDMPNDMPNDM",), "d/f"),
])
GLOB_LIBS = ("vp.c", "apr_core.c", "apr_array.c", "out_null.c", "minipcre.c")
def glob_unit(name, d, unwind, bounds, subj=5, **k):
    return Unit(name, "ignore_glob.c", ["ft_ignore.c"], GLOB_LIBS, defs=dict(d, VP_SUBJ=subj), unwind=unwind, unwindset={"strlen.0": 28}, flags=("--max-field-sensitivity-array-size", "200"), checks=False, native_skip=("minipcre.c",), native_libs=("-lpcre",), bounds=bounds + "; every relative path of up to %d bytes" % subj, **k)
ALPHA = '"ab/*?[]!^-.\\\\"'
CORE = '"a/*?[]!\\\\"'
def glob_split(name, alpha, n, length, parts, bounds, **k):
    total = n ** length
    cut = [total * i // parts for i in range(parts + 1)]
    return [glob_unit("%s_%d" % (name, i), {"VP_ALPHA": alpha, "VP_LEN": length, "VP_FROM": cut[i], "VP_TO": cut[i + 1]}, 80,
                      "%s, patterns %d to %d of %d" % (bounds, cut[i], cut[i + 1] - 1, total), cover=False, **k) for i in range(parts)]
def glob_list(name, pats, **k):
    return glob_unit(name, {"VP_LIST": "{%s}" % ",".join('"%s"' % p.replace("\\", "\\\\") for p in pats)}, 80, "the patterns " + " ".join(pats), **k)
CHECKS["C12"] = dict(units=glob_split("globs_1", ALPHA, 12, 1, 1, "every pattern of one of the characters ab/*?[]!^-.\\") +
    glob_split("globs_2", ALPHA, 12, 2, 3, "every pattern of two of the characters ab/*?[]!^-.\\") +
    glob_split("globs_3", CORE, 8, 3, 8, "every pattern of three of the characters a/*?[]!\\", subj=4) +
    [glob_unit("bytes_%d" % f, {"VP_BYTES": None, "VP_FROM": f, "VP_TO": to}, 80, "the patterns aXb for X = %d to %d" % (f, to - 1), subj=4, cover=False) for f, to in ((1, 43), (43, 85), (85, 128), (128, 134), (250, 256))] +
    [glob_list("globs_stars", ("**/a", "**/a/b", "a/**", "a/**/b", "/**/a", "**", "**/", "a**b", "*/a", "a/*", "!**/a", "!a/", "/a/", "a/b/", "**/a/", "*a*b", "/*", "!/a")),
     glob_list("globs_classes", ("[ab]", "[a-c]x", "[!a]b", "[^a]b", "[]a]b", "[!]a]b", "a[-b]", "[a-]", "[[:alpha:]]b", "[![:digit:]]", "[\\]]b", "[\\a]", "[.^$]a", "[a/]b", "x[!/]y", "[[]a", "[+(]*")),
     glob_list("globs_literals", ("a.b", "a+b", "(a)", "a|b", "{a}", "$a", "^a", "\\*a", "\\?", "\\[a]", "\\!a", "\\#a", "a\\ ", "a\\\\b", "\\a\\d", "a#", "a b", "*.c", "?.c")),
])
def load_unit(name, alpha, k, maxl, more={}, **kw):
    return Unit(name, "ignore_load.c", ["ft_ignore.c"], ("vp.c", "apr_core.c", "apr_array.c", "out_null.c"),
                defs={"VP_ALPHA": '"%s"' % alpha, "VP_K": k, "FTWIN_VERIF_PATTERN_LEN": maxl, **more}, srcdefs={"FTWIN_VERIF": None}, unwind=40, flags=("--paths", "lifo"),
                bounds="every file of up to %d of the bytes %s, ending or failing anywhere, line buffer of %d bytes" % (k, alpha, maxl), **kw)
def mem_unit(name, alpha, k, maxl=12, **kw):
    return Unit(name, "ignore_mem.c", ["ft_ignore.c"], ("vp.c", "apr_core.c", "apr_array.c", "out_null.c"),
                defs={"VP_ALPHA": '"%s"' % alpha, "VP_K": k, "FTWIN_VERIF_PATTERN_LEN": maxl}, srcdefs={"FTWIN_VERIF": None}, unwind=60, flags=("--paths", "lifo", "--max-field-sensitivity-array-size", "200"),
                bounds="every pattern of %d of the bytes %s, with a limit of %d bytes on a line" % (k, alpha, maxl), **kw)
CHECKS["C12"]["units"] += [mem_unit("memory_expand", "?*[", 4, cover=False), mem_unit("memory_slash", "*/!", 4, cover=False), mem_unit("memory_escape", "\\\\[]", 4, cover=False), mem_unit("memory_short", "a/!*? \\\\[].\\xff", 2)]
CHECKS["C13"] = dict(units=[load_unit("lines", "a\\n", 6, 4), load_unit("faults", "a\\n", 3, 5, more={"VP_FAIL": None}), load_unit("blanks", "a\\n #", 4, 6, cover=False),
    load_unit("ends", "a\\n\\r ", 4, 6, cover=False), load_unit("quoted", "\\n\\r \\\\", 4, 6, cover=False), load_unit("overlong", "a\\n#", 5, 3, cover=False), load_unit("refused", "az\\n", 4, 5, more={"VP_REFUSE": "'z'"})])
def pool_unit(name, script, nw, steps, spurious=1, **k):
    d = {"VP_NW": nw, "VP_STEPS": steps, "VP_SPURIOUS": spurious, "VP_NTASK": max(1, script.count("A"))}
    d.update(k.pop("more", {}))
    return Unit(name, "pool.c", ["napr_threadpool.c"], ("vp.c", "apr_core.c", "out_null.c"), goto_skip=("apr_core.c", "out_null.c"), defs=d, script=script, unwind=4, max_unwind=4, unwindset={"schedule.0": steps + 1}, checks=False,
                bounds="%d workers, calls %s (A add, W wait, S shut down), every schedule of up to %d steps with up to %d spurious wake-ups" % (nw, script, steps, spurious), **k)
ENDS = {"VP_ENDS": None}
CHECKS["C08"] = dict(units=[
    pool_unit("one_worker", "AWS", 1, 21, 1, more=ENDS),
    pool_unit("two_tasks", "AAWS", 1, 22, 1, cost=5, cover=False),
    pool_unit("two_workers", "AWS", 2, 20, 1, cost=6, cover=False, timeout=600),
    pool_unit("no_task", "WS", 2, 18, 1, cost=2, cover=False),
    pool_unit("no_wait", "AS", 2, 18, 1, cost=3, cover=False),
    pool_unit("two_tasks_no_wait", "AAS", 1, 18, 1, cover=False),
    pool_unit("fine_no_task", "S", 1, 14, 0, more=dict(ENDS, VP_FINE=None), cover=False),
    pool_unit("fine_no_wait", "AS", 1, 18, 0, more=dict(VP_FINE=None), cover=False),
    pool_unit("fine_wait", "AWS", 1, 24, 0, more=dict(VP_FINE=None), cover=False),
    pool_unit("two_rounds", "AWAWS", 1, 24, 0, cover=False, tier="thorough", timeout=7200),
    pool_unit("two_tasks_two_workers", "AAWS", 2, 22, 0, cover=False, tier="thorough", timeout=7200),
])
REAL = {"KMAX": 320, "VMAX": 2048}                 # room for the entries of pages of the real size
DB_LIBS = ("vp.c", "apr_core.c", "apr_array.c", "out_null.c", "db_env.c")
def db_unit(name, harness, more=None, page=96, pages=24, **k):
    d = {"VP_POOL_FREE": None, "FTWIN_VERIF": None, "FTWIN_VERIF_PAGE_SIZE": page, "VPD_PAGES": pages}
    d.update(more or {})
    k.setdefault("cover", ["end"])
    k["bounds"] = "%s; pages of %d bytes, file of at most %d pages" % (k.get("bounds", ""), page, pages)
    return Unit(name, harness, k.pop("srcs", ["napr_db.c", "napr_db_tree.c", "napr_db_cursor.c"]), DB_LIBS + tuple(k.pop("libs", ())), defs=d, symx=True, **k)
def map_unit(ops, klens, vlens, name=None, more=None, **k):
    d = {"VP_OPS": '"%s"' % ops, "VP_KLENS": "{%s}" % ",".join(map(str, klens)), "VP_VLENS": "{%s}" % ",".join(map(str, vlens))}
    d.update(more or {})
    return db_unit(name or "map_" + ops, "db_map.c", d, bounds="steps %s (p put, d delete, c commit, a abort, r reopen, ! any of p d c a) with every choice of keys, key lengths %s, value lengths %s" % (ops, klens, vlens), **k)
CHECKS["C18"] = dict(units=[
    map_unit("pppp", (1,), (30,)),
    map_unit("ppppp", (27,), (6,), more={"VP_NOPROBE": None}, jobs=4),
    map_unit("ppcp!!", (1,), (30,), more={"VP_NOPROBE": None}, jobs=4),
    map_unit("pp!!!", (1, 2, 1), (30, 0, 31), more={"VP_NOPROBE": None, "VP_KEYBYTES": 2}, jobs=4),
    map_unit("ppp!!", (1, 2, 27, 1, 2), (60, 20, 6, 10), more={"VP_NOPROBE": None, "VP_KEYBYTES": 2}, jobs=4),
    map_unit("0123456789p!", (1,), (30,), more={"VP_NOPROBE": None, "VP_WALK": None}, jobs=4, pages=64),
    map_unit("9876543210d!", (1,), (30,), more={"VP_NOPROBE": None, "VP_WALK": None}, jobs=4, pages=64),
    map_unit("pppd", (10, 256, 266, 300), (30,), page=4096, more=dict(REAL, VP_NOPROBE=None), name="map_long_keys", jobs=2),
    map_unit("pppp", (300,), (1200,), page=4096, more=dict(REAL, VP_NOPROBE=None), name="map_real_pages", jobs=2),
])

def crash_unit(setup, ops, klens=(1,), vlens=(30,), name=None, more=None, **k):
    d = {"VP_SETUP": '"%s"' % setup, "VP_OPS": '"%s"' % ops, "VP_KLENS": "{%s}" % ",".join(map(str, klens)), "VP_VLENS": "{%s}" % ",".join(map(str, vlens))}
    d.update(more or {})
    k.setdefault("cover", ["committed", "before the change", "after the change"] if "VP_CRASH" in d else ["committed", "refused"] if d.get("VP_FAULTS") else True)
    what = "a crash at every point of the commit with every subset of unsynced half pages written" if "VP_CRASH" in d else "up to %d failing calls anywhere" % d.get("VP_FAULTS", 0)
    return db_unit(name or "crash_%s_%s" % (setup, ops), "db_crash.c", d, bounds="history '%s' (p put, d delete of any key, digits put and letters delete a fixed key, c commit), then transaction '%s': %s" % (setup, ops, what), **k)
CR = {"VP_CRASH": None}
CHECKS["C19"] = dict(units=[
    crash_unit("", "pp", more=dict(CR, VP_CREATION=None), name="crash_creation"),
    crash_unit("pp", "p", more=CR, jobs=2),
    crash_unit("0pc2", "d", more=CR, jobs=2),
    crash_unit("0c0c0c0c0", "p", more=CR, jobs=2),
    crash_unit("01c1c1c1c01", "d", more=CR, jobs=2),
    crash_unit("02c5c0c2c5c0", "p", more=CR, jobs=2, pages=48),
    crash_unit("0c0c0c0", "0", more={"VP_FAULTS": 1, "VP_NO_GO_ON": None}, name="fault_reuse", jobs=2),
    crash_unit("p", "p", more={"VP_FAULTS": 1, "VP_NO_GO_ON": None}, name="fault_p_p", jobs=2),
    crash_unit("ppc", "d", more={"VP_FAULTS": 1, "VP_NO_GO_ON": None}, name="fault_pp_d", jobs=2),
    crash_unit("p", "p", more={"VP_FAULTS": 2, "VP_NO_GO_ON": None}, name="fault2_p_p", jobs=2, cover=["committed", "refused", "no more writing"]),
])

def readers_unit(ops, vlens=(30,), name=None, more=None, **k):
    d = {"VP_OPS": '"%s"' % ops, "VP_VLENS": "{%s}" % ",".join(map(str, vlens))}
    d.update(more or {})
    return db_unit(name or "readers_" + ops.replace("?", "q"), "db_readers.c", d, bounds="history '%s' (see harness/db_readers.c), with every choice at p, d and ?" % ops, **k)
CHECKS["C20"] = dict(units=[
    readers_unit("0c?0c?0c?0c0c", jobs=2, pages=48),
    readers_unit("02c?2c?0c?B2c?0c", jobs=2, pages=48),
    readers_unit("0crpcrpcpc", jobs=2, pages=48),
    readers_unit("0c0c0cm0c0cx0c0c", more={"VP_MEET": 1}, jobs=2, pages=48, cover=["end", "a commit while a reader begins"]),
    readers_unit("02crBc0c0c2c", more={"VP_MEET": 1}, jobs=2, pages=48, cover=["end", "a reader during a commit"]),
    readers_unit("02468crACEc0c0cx246c8c0c", jobs=2, pages=64),
    readers_unit("02468c0cM0c24c68c0c2c", jobs=2, pages=64, name="readers_crowd"),
])

def cursor_unit(setup, klens=(1,), vlens=(30,), probe=1, moves=2, name=None, more=None, **k):
    d = {"VP_SETUP": '"%s"' % setup, "VP_KLENS": "{%s}" % ",".join(map(str, klens)), "VP_VLENS": "{%s}" % ",".join(map(str, vlens)), "VP_PROBE": probe, "VP_MOVES": moves}
    d.update(more or {})
    k.setdefault("cover", ["end", "moved"])
    return db_unit(name or "cursor_" + setup.replace("?", "q"), "db_cursor.c", d, bounds="database made by '%s', both walks, any probe key of %d bytes, then any %d moves" % (setup, probe, moves), **k)
CHECKS["C21"] = dict(units=[
    cursor_unit("", cover=["end"]),
    cursor_unit("ppp", jobs=2),
    cursor_unit("0246?", jobs=2),
    cursor_unit("02468cCE?", jobs=2, more={"VP_READER": None}),
    cursor_unit("0246ACEG", cover=["end"]),
    cursor_unit("246ddp", jobs=2, moves=1),
    cursor_unit("02468", (27,), (6,), 27, jobs=2),
    cursor_unit("02468cEI", (27,), (6,), 1, jobs=2, more={"VP_READER": None}),
    cursor_unit("0246dd", (27,), (6,), 27, jobs=2),
    cursor_unit("0123456789", jobs=2),
    cursor_unit("9876543210", jobs=2),
    cursor_unit("0123456789cD?", jobs=2, moves=1, more={"VP_READER": None}),
    cursor_unit("pp", (10, 266), (30,), 266, jobs=2, page=4096, more=REAL, name="cursor_long_keys"),
])
def locks_unit(ops, faults=1, proc=0, name=None, more=None, **k):
    d = {"VP_OPS": '"%s"' % ops, "VP_FAULTS": faults, "VP_PROC": proc}
    d.update(more or {})
    return db_unit(name or "locks_%s%s" % (ops.replace("?", "q"), "_proc" if proc else ""), "db_locks.c", d, bounds="calls '%s' (see harness/db_locks.c), up to %d failing calls anywhere" % (ops, faults), **k)
CHECKS["C22"] = dict(units=[
    locks_unit("wpcwpc", jobs=2),
    locks_unit("wpawpc", proc=1, jobs=2),
    locks_unit("rwpcrwpx", jobs=2),
    locks_unit("rrwcxry", faults=2, jobs=2),
    locks_unit("????", faults=0, name="locks_crowd", more={"VP_CROWD": 1, "VP_REFILL": None}, jobs=2, cover=["end", "reader", "full"]),
])

def page_unit(op, n, leaf, klens, vlens, cover, **k):
    return db_unit("page_%s_%s_%d" % (("", "search", "insert", "delete", "split")[op], "leaf" if leaf else "branch", n), "db_page.c",
                   {"VP_OP": op, "VP_N": n, "VP_LEAF": leaf, "VP_KLENS": "{%s}" % ",".join(map(str, klens)), "VP_VLENS": "{%s}" % ",".join(map(str, vlens))}, page=96, cover=cover,
                   bounds="every page of %d entries with key lengths %s and value lengths %s in every layout, every key" % (n, klens[:n], vlens[:n]), **k)
KL, VL = (1, 2, 3, 1, 2, 1), (3, 0, 2, 4, 1, 2)
CHECKS["C17"] = dict(units=
    [page_unit(1, n, l, KL, VL, ["not there"], jobs=2) for n in (1, 2, 4) for l in (1, 0)] +
    [page_unit(2, n, l, KL, VL, ["inserted", "refused"], jobs=2) for n in (0, 1, 2, 3) for l in (1, 0)] +
    [page_unit(3, n, l, KL, VL, ["deleted"], jobs=2) for n in (1, 2, 4) for l in (1, 0)] +
    [page_unit(4, n, l, KL, VL, ["split"], jobs=2) for n in (2, 3, 4) for l in (1, 0)])

def cache_unit(ops, plens=(1,), faults=0, start=0, name=None, more=None, **k):
    d = {"VP_OPS": '"%s"' % ops, "VP_PLENS": "{%s}" % ",".join(map(str, plens)), "VP_FAULTS": faults, "VP_FROM": start, "VPD_ANYSIZE": None}
    d.update(more or {})
    k.setdefault("cover", ["end"])
    k.setdefault("page", 128)
    return db_unit(name or "cache_%s%s" % (ops.replace("?", "Q").replace("!", "X").replace("%", "P"), "_fault%d" % faults if faults else ""), "cache.c", d,
                   srcs=["napr_cache.c", "napr_db.c", "napr_db_tree.c", "napr_db_cursor.c"], libs=("fmt.c", "num.c"),
                   bounds="calls '%s' (see harness/cache.c) with every choice of paths of lengths %s, up to %d failing calls anywhere" % (ops, plens, faults), **k)
CHECKS["C23"] = dict(units=[
    cache_unit("wuuuu", cover=["stored", "end"], jobs=2),
    cache_unit("wuul!u", cover=["found", "end"], jobs=2),
    cache_unit("wuuucrmemsr", cover=["swept", "end"], jobs=2),
    cache_unit("wu%%%c%%s", cover=["swept", "end"], jobs=2),
    cache_unit("wuuc%m%wul", plens=(1, 2), cover=["swept", "end"], jobs=2),
    cache_unit("wuuucms", faults=1, start=6, cover=["swept", "end"], jobs=2),
    cache_unit("wucwuucms", plens=(1, 1, 2), faults=1, start=3, jobs=4),
    cache_unit("wuuuucms", plens=(30,), page=192, cover=["swept", "end"], jobs=4),
])
def open_unit(name, faults, txn, more=None, **k):
    d = {"VP_FAULTS": faults, "VP_TXN": txn, "VPD_ANYSIZE": None}
    d.update(more or {})
    k.setdefault("cover", ["taken", "failed", "closed", "end"])
    return db_unit(name, "cache_open.c", d, page=128, srcs=["napr_cache.c", "napr_db.c", "napr_db_tree.c", "napr_db_cursor.c"], libs=("fmt.c", "num.c"),
                   bounds="open, %s, close; up to %d failing calls anywhere, the lock free, taken or failing" % (("nothing", "a read transaction", "a write transaction")[txn], faults), **k)
CHECKS["C24"] = dict(units=[
    open_unit("open_new", 1, 0, jobs=2),
    open_unit("open_old", 1, 0, {"VP_OLD": None}, jobs=2),
    open_unit("open_new_write", 1, 2, jobs=2),
    open_unit("open_old_write", 1, 2, {"VP_OLD": None}, jobs=2),
    open_unit("open_old_2", 2, 0, {"VP_OLD": None}, jobs=2),
    open_unit("open_old_read", 2, 1, {"VP_OLD": None}, jobs=2),
])

def archive_unit(members, blocks, faults, plain=0, **k):
    return Unit("archive_%d_%d_%d%s" % (members, blocks, faults, "_plain" if plain else ""), "archive.c", ["ft_archive.c"], ("vp.c", "apr_core.c", "out_null.c"),
                defs={"VP_MEMBERS": members, "VP_BLOCKS": blocks, "VP_FAULTS": faults, "VP_POOL_FREE": None, **({"VP_PLAIN": None} if plain else {})}, symx=True, cover=["extracted", "refused"],
                bounds="archives of %d members of up to %d blocks, %s, up to %d failing calls anywhere" % (members, blocks, "regular members" if plain else "members of every kind, with and without name", faults), **k)
CHECKS["C26"] = dict(units=[
    archive_unit(1, 1, 1, jobs=2),
    archive_unit(2, 2, 0, 1, jobs=2),
    archive_unit(2, 1, 1, jobs=2),
    archive_unit(1, 2, 2, 1, jobs=2),
])

def image_unit(n, rot=0, mask="0", fail=0, sep="','", **k):
    d = {"VP_N": n, "VP_ROT": rot, "VP_MASK": mask, "VP_SEP": sep, "VP_STRMAX": 2, "VP_FAIL": fail}
    if n > 3: d["VP_EASY"] = None
    return Unit("image_%d%s%s%s" % (n, "_rot%d" % rot if rot else "", "_verbose" if mask != "0" else "", "_fail%d" % fail if fail else ""), "image.c", ["ft_image.c"], REPORT_LIBS, defs=d, unwind=24,
                cover=n >= 2 and not fail, bounds="%d images, every distance and threshold, every set of undecodable images%s" % (n, ", a failing thread pool" if fail else ""), **k)
CHECKS["C25"] = dict(units=[
    image_unit(0), image_unit(1), image_unit(2, mask="OPTION_VERBO"), image_unit(3, 1), image_unit(4, 2, sep="' '"), image_unit(2, fail=1), image_unit(2, fail=2), image_unit(2, fail=3),
])

CHECKS["C27"] = dict(units=[
    Unit("run", "run.c", ["ftwin.c", "napr_heap.c"], LOCK_LIBS, defs={"VP_ARGS": 3, "VP_OWN_INIT": None}, srcdefs={"FTWIN_VERIF": None, "FTWIN_VERIF_HEAP_MAX": 2}, symx=True, jobs=2, cover=["reported", "no files", "failed"], bounds="up to 3 arguments, every option mask, every outcome of every step"),
])

NOT_APPLICABLE = {}
