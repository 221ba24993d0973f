PRE = '''#!/bin/bash
# Exit 0 when the behaviour is right, 1 when it is not.  Runs in the repository after the build.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
ftwin=$repo/_build/ftwin
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
'''
def CC(srcs, extra=""):
    return 'gcc -w -D_GNU_SOURCE -DLINUX -D_REENTRANT -DHAVE_CONFIG_H -I_build/src -I_build -Isrc -Isrc/vendor/xxhash $(pkg-config --cflags apr-1 apr-util-1 2>/dev/null || echo -I/usr/include/apr-1.0) -o "$S/demo" "$here/demo.c" %s %s -lapr-1 -lpcre -lm -lpthread || exit 0\n' % (srcs, extra)
SEEDS = []
def seed(id, property, needs, breaks, edits, demo, **files):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, files={k.replace("_c", ".c"): v for k, v in files.items()}))

seed("multiple-of-64k", "C01", "two different files whose size is a multiple of 65536, only two of them so that no hash is computed",
     "different files whose size is a multiple of 64 KiB are called identical",
     [("src/ft_file.c", "    memset(errbuf, 0, sizeof(errbuf));\n    apr_status_t status = APR_SUCCESS;\n\n    if (0 == size) {", "    memset(errbuf, 0, sizeof(errbuf));\n    apr_status_t status = APR_SUCCESS;\n\n    if (0 == (size & 0xffff)) {")],
     'mkdir "$S/d"; head -c 131072 /dev/zero > "$S/d/x"; (head -c 131071 /dev/zero; printf x) > "$S/d/y"\nout=$("$ftwin" "$S/d")\n[ -z "$out" ]\n')
seed("second-map-length", "C01", "the second file shrank to nothing between listing and comparison is not needed: any error when the second file is opened, after the first was mapped",
     "a comparison that could not open the second file succeeds and leaves the result untouched",
     [("src/ft_file.c", "        apr_mmap_delete(mm1);\n        (void) apr_file_close(fd1);\n        return status;", "        status = apr_mmap_delete(mm1);\n        (void) apr_file_close(fd1);\n        return status;")],
     'printf abc > "$S/a"\n' + CC("src/ft_file.c", 'src/vendor/xxhash/xxhash.c') + '"$S/demo" "$S/a" "$S/missing"\n',
     demo_c='#include <apr_general.h>\n#include "ft_file.h"\nint main(int c, char **v)\n{\n    apr_pool_t *p;\n    int r = 0;\n    apr_initialize();\n    apr_pool_create(&p, NULL);\n    return filecmp(p, v[1], v[2], 3, 100, &r) == APR_SUCCESS && r == 0;\n}\n')
seed("last-pair-of-size", "C02", "four files of one size forming two different sets",
     "the second set of files of one size is not reported",
     [("src/ft_report.c", "for (index = 0; index < fsize->nb_files; index++) {", "for (index = 0; index + 2 < fsize->nb_files || index == 0; index++) {")],
     'mkdir "$S/d"; printf aaa > "$S/d/1"; printf aaa > "$S/d/2"; printf bbb > "$S/d/3"; printf bbb > "$S/d/4"\n"$ftwin" "$S/d" > "$S/out"\n[ $(grep -c /d/ "$S/out") = 4 ]\n')
seed("hash-leading-zero", "C03", "a file whose 128-bit hash has a low half starting with a zero digit",
     "the hexadecimal hash in the JSON report loses digits",
     [("src/ft_report_json.c", '"%016" APR_UINT64_T_HEX_FMT "%016" APR_UINT64_T_HEX_FMT', '"%016" APR_UINT64_T_HEX_FMT "%" APR_UINT64_T_HEX_FMT')],
     'mkdir "$S/d"\nfor i in $(seq 100 200); do echo $i > "$S/d/a$i"; echo $i > "$S/d/b$i"; done\n"$ftwin" -J "$S/d" > "$S/out"\n[ $(grep -c hash_xxh128 "$S/out") = 101 ] || exit 1\n! grep hash_xxh128 "$S/out" | grep -vqE \'"[0-9a-f]{32}"\'\n')
seed("max-size-boundary", "C05", "a file of exactly the maximum size", "files of exactly the maximum size are left out",
     [("src/ft_traverse.c", "finfo->size <= conf->maxsize", "finfo->size < conf->maxsize")],
     'mkdir "$S/d"; printf 0123456789 > "$S/d/1"; cp "$S/d/1" "$S/d/2"\n"$ftwin" -M 10 "$S/d" > "$S/out"\n[ $(grep -c /d/ "$S/out") = 2 ]\n')
seed("prefix-no-case", "C05", "a priority path longer than a file's path, which is equal to the beginning of it",
     "a file whose path is a mere beginning of the priority path is prioritised",
     [("src/ft_traverse.c", "(strlen(filename) >= conf->p_path_len) &&", "(strlen(filename) + 1 >= conf->p_path_len) &&"),
      ("src/ft_traverse.c", "!memcmp(filename, conf->p_path, conf->p_path_len))", "!strncmp(filename, conf->p_path, strlen(filename) < conf->p_path_len ? strlen(filename) : conf->p_path_len))")],
     'mkdir "$S/d"; echo 1 > "$S/d/ab"; echo 1 > "$S/d/x"\n"$ftwin" -J -p "$S/d/abc" "$S/d" > "$S/out"\n[ $(grep -c \'"prioritized": false\' "$S/out") = 2 ]\n')
seed("world-readable-dir", "C06", "an ordinary user scanning a directory that others may search but not read, or read but not search",
     "directories that only others may enter are judged by the wrong bit and skipped",
     [("src/ft_traverse.c", "apr_int32_t world_read_perm = (finfo->filetype == APR_DIR) ? APR_WEXECUTE : APR_WREAD;", "apr_int32_t world_read_perm = (finfo->filetype == APR_DIR) ? APR_WWRITE : APR_WREAD;")],
     'chmod 755 "$S"; mkdir "$S/d" "$S/d/sub"; echo 1 > "$S/d/sub/a"; echo 1 > "$S/d/sub/b"; chmod -R a+rX "$S"; cp "$ftwin" "$S/ftwin"; chmod 755 "$S/ftwin"\nsetpriv --reuid 65534 --regid 65534 --clear-groups true || exit 0\nsetpriv --reuid 65534 --regid 65534 --clear-groups "$S/ftwin" "$S/d" > "$S/out"\n[ $(grep -c /sub/ "$S/out") = 2 ]\n')
seed("two-empty-and-json", "C07", "JSON output with exactly two files of one size",
     "pairs are not hashed in JSON mode, so the reported hash is not the content's",
     [("src/ft_process.c", "        if (is_option_set(conf->mask, OPTION_JSON)) {\n            should_hash = (fsize->nb_files >= 2);", "        if (is_option_set(conf->mask, OPTION_JSON) && fsize->val != 0) {\n            should_hash = (fsize->nb_files >= 2);")],
     'mkdir "$S/d"; : > "$S/d/1"; : > "$S/d/2"; : > "$S/d/3"\n"$ftwin" -J "$S/d" > "$S/out"\n[ "$(grep -o \'"[0-9a-f]\\{32\\}"\' "$S/out")" = \'"99aa06d3014798d86001c324468d497f"\' ]\n')
seed("remove-middle", "C10", "three keys in one bucket, the middle one removed", "removing an element that is neither first nor last of its bucket drops the wrong one",
     [("src/napr_hash.c", "if (index != nel - 1) {", "if (index + 2 != nel) {"), ("src/napr_hash.c", "hash->table[bucket][index] = hash->table[bucket][nel - 1];\n                        hash->table[bucket][nel - 1] = NULL;", "hash->table[bucket][index] = hash->table[bucket][nel - 1];\n                        hash->table[bucket][nel - 1] = NULL;")],
     CC("src/napr_hash.c", "src/vendor/xxhash/xxhash.c") + '"$S/demo"\n',
     demo_c='#include <apr_general.h>\n#include <string.h>\n#include "napr_hash.h"\nstatic const void *k(const void *o) { return o; }\nstatic apr_size_t kl(const void *o) { return strlen(o); }\nstatic int kc(const void *a, const void *b, apr_size_t n) { return memcmp(a, b, n); }\nstatic apr_uint32_t h(const void *a, apr_size_t n) { return 0; }\nint main(void)\n{\n    static char *v[] = { "a", "b", "c" };\n    apr_pool_t *p;\n    int r, i, bad = 0;\n    apr_initialize();\n    apr_pool_create(&p, NULL);\n    for (r = 0; r < 3; r++) {\n        apr_uint32_t hv;\n        napr_hash_t *t = napr_hash_make(p, 4, 8, k, kl, kc, h);\n        for (i = 0; i < 3; i++) { napr_hash_search(t, v[i], 1, &hv); napr_hash_set(t, v[i], hv); }\n        napr_hash_remove(t, v[r], 0);\n        for (i = 0; i < 3; i++) if ((napr_hash_search(t, v[i], 1, &hv) != NULL) != (i != r)) bad = 1;\n    }\n    return bad;\n}\n')
seed("threads-trailing", "C14", "a thread count of 0 with a sign or 257 and more", "257 threads are accepted",
     [("src/ft_config.c", "threads > MAX_THREADS)", "threads > MAX_THREADS + 1)")],
     'mkdir "$S/d"; echo 1 > "$S/d/a"; echo 1 > "$S/d/b"\n! "$ftwin" -j 257 "$S/d" > /dev/null 2>&1\n')
seed("verbose-after-json", "C14", "-v given after -J, written as long options", "verbose output is switched on again in JSON mode",
     [("src/ft_config.c", "if (!is_option_set(conf->mask, OPTION_JSON)) {", "if (!is_option_set(conf->mask, OPTION_JSON) || is_option_set(conf->mask, OPTION_SIZED)) {")],
     'mkdir "$S/d"; echo 1 > "$S/d/a"; echo 1 > "$S/d/b"\n"$ftwin" -d -J -v "$S/d" > /dev/null 2> "$S/err"\n! grep -q Referencing "$S/err"\n')
seed("half-hash-order", "C16", "two hashes that differ only in their second half", "hashes are ordered by their first half only, so equal hashes may end up apart",
     [("src/ft_report.c", "result = memcmp(&chk1->hash_value, &chk2->hash_value, sizeof(ft_hash_t));", "result = memcmp(&chk1->hash_value, &chk2->hash_value, sizeof(chk1->hash_value.low64)) != 0 ? memcmp(&chk1->hash_value, &chk2->hash_value, sizeof(ft_hash_t)) : (int) (chk1->hash_value.high64 - chk2->hash_value.high64);")],
     'gcc -w -D_GNU_SOURCE -DHAVE_CONFIG_H -I_build/src -Isrc -Isrc/vendor/xxhash -I/usr/include/apr-1.0 -ffunction-sections -o "$S/demo" "$here/demo.c" src/ft_report.c -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -lapr-1 || exit 0\n"$S/demo"\n',
     demo_c='#include "ft_report.h"\n#include "ft_types.h"\nint main(void)\n{\n    ft_file_t f = { 0 };\n    ft_chksum_t a = { .file = &f }, b = { .file = &f };\n    a.hash_value.high64 = 0x100000000ULL; b.hash_value.high64 = 0x200000000ULL;\n    a.hash_value.low64 = b.hash_value.low64 = 5;\n    return !(ft_chksum_cmp(&a, &b) != 0 && (ft_chksum_cmp(&a, &b) < 0) != (ft_chksum_cmp(&b, &a) < 0));\n}\n')

seed("short-read-ends", "C04", "a read that returns fewer bytes than asked for before the end of the file", "a short read is taken for the end of the file and the rest is left out of the hash",
     [("src/ft_file.c", "    } while (APR_SUCCESS == status);\n\n    if (APR_EOF != status) {", "    } while (APR_SUCCESS == status && rbytes == HUGE_LEN);\n\n    if (APR_EOF != status && APR_SUCCESS != status) {")],
     'printf 0123456789 > "$S/a"\n' + CC("src/ft_file.c", "src/vendor/xxhash/xxhash.c -Wl,--wrap=apr_file_read") + '"$S/demo" "$S/a"\n',
     demo_c='#include <apr_general.h>\n#include <apr_file_io.h>\n#include <string.h>\n#include "ft_file.h"\nstatic int lim;\napr_status_t __real_apr_file_read(apr_file_t *, void *, apr_size_t *);\napr_status_t __wrap_apr_file_read(apr_file_t *f, void *b, apr_size_t *n) { if (lim && *n > lim) *n = lim; return __real_apr_file_read(f, b, n); }\nint main(int c, char **v)\n{\n    apr_pool_t *p;\n    ft_hash_t a, b;\n    apr_initialize();\n    apr_pool_create(&p, NULL);\n    if (checksum_file(v[1], 10, 5, &a, p) != APR_SUCCESS) return 1;\n    lim = 4;\n    if (checksum_file(v[1], 10, 5, &b, p) != APR_SUCCESS) return 1;\n    return memcmp(&a, &b, sizeof(a)) != 0;\n}\n')
seed("no-exbibytes", "C15", "a size of at least 2^60 bytes", "sizes of an exbibyte or more are printed in a smaller unit",
     [("src/human_size.c", "(sizeof(units) / sizeof(units[0]) - 1)", "(sizeof(units) / sizeof(units[0]) - 2)")],
     CC("src/human_size.c") + '"$S/demo"\n',
     demo_c='#include <apr_general.h>\n#include <string.h>\n#include "human_size.h"\nint main(void)\n{\n    apr_pool_t *p;\n    apr_initialize();\n    apr_pool_create(&p, NULL);\n    return strcmp(format_human_size(1LL << 61, p), "2.0 EiB") != 0;\n}\n')
DB = "src/napr_db.c src/napr_db_tree.c src/napr_db_cursor.c"
CACHE = DB + " src/napr_cache.c"
HD = '#include <apr_general.h>\n#include <apr_file_io.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include "napr_db.h"\n#include "napr_cache.h"\n#define CK(x) do { int s_ = (x); if (s_) { fprintf(stderr, "line %d: %d\\n", __LINE__, s_); exit(3); } } while (0)\n'
OPENDB = 'static napr_db_env_t *env(const char *path, unsigned f, apr_pool_t *p) { napr_db_env_t *e; CK(napr_db_env_create(&e, p)); CK(napr_db_env_set_mapsize(e, 8 << 20)); CK(napr_db_env_open(e, path, f)); return e; }\n' \
  'static napr_db_val_t val(const void *d, size_t n) { napr_db_val_t v; memset(&v, 0, sizeof(v)); v.data = (void *) d; v.size = n; return v; }\n'
seed("visited-borrowed", "C23", "the caller's path buffer is used again for the next path before the sweep", "entries whose visit was marked from a reused buffer are swept away",
     [("src/napr_cache.c", "apr_hash_set(cache->visited_set, duplicated_path, APR_HASH_KEY_STRING, duplicated_path);", "apr_hash_set(cache->visited_set, path, APR_HASH_KEY_STRING, duplicated_path);")],
     CC(CACHE) + '"$S/demo" "$S/cache"\n',
     demo_c=HD + 'int main(int c, char **v)\n{\n    apr_pool_t *p;\n    napr_cache_t *h;\n    napr_cache_entry_t e;\n    const napr_cache_entry_t *g;\n    char b[16];\n    int r;\n    apr_initialize();\n    apr_pool_create(&p, NULL);\n    memset(&e, 1, sizeof(e));\n    CK(napr_cache_open(&h, v[1], p));\n    CK(napr_cache_begin_write(h, p));\n    CK(napr_cache_upsert_in_txn(h, "/a", &e));\n    CK(napr_cache_commit_write(h));\n    strcpy(b, "/a");\n    CK(napr_cache_mark_visited(h, b));\n    strcpy(b, "/z");\n    CK(napr_cache_sweep(h));\n    CK(napr_cache_begin_read(h, p));\n    r = napr_cache_lookup_in_txn(h, "/a", &g);\n    napr_cache_end_read(h);\n    napr_cache_close(h);\n    return r != 0;\n}\n')
seed("marks-kept", "C23", "two sweeps of one open cache, a path visited before the first and not before the second", "marks survive a sweep that removed something, so the next one keeps entries nobody visited",
     [("src/napr_cache.c", "    apr_hash_clear(cache->visited_set);\n", "    if (apr_hash_count(cache->visited_set) > 1) {\n        apr_hash_clear(cache->visited_set);\n    }\n")],
     CC(CACHE) + '"$S/demo" "$S/cache"\n',
     demo_c=HD + 'int main(int c, char **v)\n{\n    apr_pool_t *p;\n    napr_cache_t *h;\n    napr_cache_entry_t e;\n    const napr_cache_entry_t *g;\n    int r;\n    apr_initialize();\n    apr_pool_create(&p, NULL);\n    memset(&e, 1, sizeof(e));\n    CK(napr_cache_open(&h, v[1], p));\n    CK(napr_cache_begin_write(h, p));\n    CK(napr_cache_upsert_in_txn(h, "/a", &e));\n    CK(napr_cache_commit_write(h));\n    CK(napr_cache_mark_visited(h, "/a"));\n    CK(napr_cache_sweep(h));\n    CK(napr_cache_sweep(h));\n    CK(napr_cache_begin_read(h, p));\n    r = napr_cache_lookup_in_txn(h, "/a", &g);\n    napr_cache_end_read(h);\n    napr_cache_close(h);\n    return r == 0;\n}\n')
seed("half-reader-table", "C20", "a reader in the upper half of the slot table that outlives all the others, and commits that reuse pages", "pages that such a reader still needs are reused",
     [("src/napr_db.c", "    for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {\n        txnid_t slot_txnid", "    for (slot_idx = 0; slot_idx < MAX_READERS / 2; slot_idx++) {\n        txnid_t slot_txnid")],
     CC(DB) + '"$S/demo" "$S/db"\n',
     demo_c=HD + OPENDB + '#define N 126\nstatic void put(napr_db_txn_t *t, int x)\n{\n    static char b[500];\n    int i;\n    memset(b, x, sizeof(b));\n    for (i = 0; i < 60; i++) {\n        char n = 33 + i;\n        napr_db_val_t k = val(&n, 1), d = val(b, sizeof(b));\n        CK(napr_db_put(t, &k, &d));\n    }\n}\nint main(int c, char **v)\n{\n    apr_pool_t *p;\n    napr_db_env_t *e;\n    napr_db_txn_t *t, *r[N];\n    napr_db_val_t k, d;\n    int i;\n    apr_initialize();\n    apr_pool_create(&p, NULL);\n    e = env(v[1], NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK, p);\n    CK(napr_db_txn_begin(e, 0, &t));\n    put(t, 1);\n    CK(napr_db_txn_commit(t));\n    for (i = 0; i < N; i++) CK(napr_db_txn_begin(e, NAPR_DB_RDONLY, &r[i]));\n    for (i = 0; i + 1 < N; i++) CK(napr_db_txn_commit(r[i]));\n    for (i = 0; i < 12; i++) {\n        CK(napr_db_txn_begin(e, 0, &t));\n        put(t, 2);\n        CK(napr_db_txn_commit(t));\n    }\n    for (i = 0; i < 60; i++) {\n        char n = 33 + i;\n        k = val(&n, 1);\n        if (napr_db_get(r[N - 1], &k, &d)) return 1;\n        if (((char *) d.data)[0] != 1) return 1;\n    }\n    return 0;\n}\n')
seed("long-key-tie", "C18", "two keys of which one is the beginning of the other, the longer one having 256 bytes or more", "the order of a long key and its beginning depends on the lengths modulo 256, so that keys are not found again",
     [("src/napr_db_tree.c", "    if (key1_size < key2_size) {\n        return -1;", "    if ((uint8_t) key1_size < (uint8_t) key2_size) {\n        return -1;"),
      ("src/napr_db_tree.c", "    if (key1_size > key2_size) {\n        return 1;", "    if ((uint8_t) key1_size > (uint8_t) key2_size) {\n        return 1;")],
     CC(DB) + '"$S/demo" "$S/db"\n',
     demo_c=HD + OPENDB + 'int main(int c, char **v)\n{\n    static char b[600];\n    apr_pool_t *p;\n    napr_db_env_t *e;\n    napr_db_txn_t *t;\n    napr_db_val_t k, d;\n    int i, bad = 0;\n    size_t n[] = { 10, 256, 266, 300 };\n    memset(b, 120, sizeof(b));\n    apr_initialize();\n    apr_pool_create(&p, NULL);\n    e = env(v[1], NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK, p);\n    CK(napr_db_txn_begin(e, 0, &t));\n    for (i = 0; i < 4; i++) { k = val(b, n[i]); d = val(&n[i], sizeof(n[i])); if (napr_db_put(t, &k, &d)) bad = 1; }\n    for (i = 0; i < 4; i++) { k = val(b, n[i]); if (napr_db_get(t, &k, &d) || memcmp(d.data, &n[i], sizeof(n[i]))) bad = 1; }\n    CK(napr_db_txn_commit(t));\n    return bad;\n}\n')
seed("deep-right-edge", "C21", "a tree of three levels walked backwards across a top level boundary", "walking backwards skips leaves below an inner page",
     [("src/napr_db_cursor.c", "        cursor_push(cursor, page, page->num_keys - 1);\n        pgno = db_page_branch_node(page, page->num_keys - 1)->pgno;", "        cursor_push(cursor, page, page->num_keys - 1);\n        pgno = db_page_branch_node(page, page->num_keys > 2 ? page->num_keys - 2 : page->num_keys - 1)->pgno;")],
     CC(DB) + '"$S/demo" "$S/db"\n',
     demo_c=HD + OPENDB + 'int main(int c, char **v)\n{\n    static char b[1000];\n    apr_pool_t *p;\n    napr_db_env_t *e;\n    napr_db_txn_t *t;\n    napr_db_cursor_t *u;\n    napr_db_val_t k, d;\n    char last[8] = "99999";\n    int i, n = 0, s;\n    apr_initialize();\n    apr_pool_create(&p, NULL);\n    memset(b, 97, sizeof(b));\n    e = env(v[1], NAPR_DB_CREATE | NAPR_DB_INTRAPROCESS_LOCK, p);\n    CK(napr_db_txn_begin(e, 0, &t));\n    for (i = 0; i < 150; i++) { sprintf(b, "%05d", i); b[5] = 97; k = val(b, 600); d = val("v", 1); CK(napr_db_put(t, &k, &d)); }\n    CK(napr_db_txn_commit(t));\n    CK(napr_db_txn_begin(e, NAPR_DB_RDONLY, &t));\n    CK(napr_db_cursor_open(t, &u));\n    for (s = napr_db_cursor_get(u, &k, &d, NAPR_DB_LAST); s == 0; s = napr_db_cursor_get(u, &k, &d, NAPR_DB_PREV)) { if (memcmp(k.data, last, 5) >= 0) return 1; memcpy(last, k.data, 5); n++; }\n    return n != 150;\n}\n')
seed("negated-directory", "C11", "a re-including rule that ends in '/' and a regular file of that name", "a re-including rule for directories also re-includes files",
     [("src/ft_ignore.c", "if ((pattern->flags & FT_IGNORE_DIR_ONLY) && !is_dir) {", "if (FT_IGNORE_DIR_ONLY == (pattern->flags & (FT_IGNORE_DIR_ONLY | FT_IGNORE_NEGATE)) && !is_dir) {")],
     'mkdir "$S/d"; printf "a*\\n!ab/\\n" > "$S/d/.gitignore"; echo 1 > "$S/d/ab"; echo 1 > "$S/d/x"\nout=$("$ftwin" "$S/d")\n[ -z "$out" ]\n')
seed("question-dot", "C12", "a '?' standing for a dot", "'?' does not match a dot",
     [("src/ft_ignore.c", '    append_pcre_sequence(result_cursor, "[^/]");', '    append_pcre_sequence(result_cursor, "[^/.]");')],
     'mkdir "$S/d"; printf "a?b\\n" > "$S/d/.gitignore"; echo 1 > "$S/d/a.b"; echo 1 > "$S/d/x"\nout=$("$ftwin" "$S/d")\n[ -z "$out" ]\n')
seed("bad-line-stops", "C13", "a line that is no valid pattern before other lines", "the rules after a line that cannot be compiled are lost",
     [("src/ft_ignore.c", "        ft_ignore_add_pattern_str(ctx, line);\n", "        if (APR_SUCCESS != ft_ignore_add_pattern_str(ctx, line)) {\n            break;\n        }\n")],
     'mkdir "$S/d"; printf "[z-a]\\nab\\n" > "$S/d/.gitignore"; echo 1 > "$S/d/ab"; echo 1 > "$S/d/x"\nout=$("$ftwin" "$S/d" 2>/dev/null)\n[ -z "$out" ]\n')
PUZ = '#include <stddef.h>\n#include <puzzle.h>\n#include <string.h>\n/* The puzzle library, reduced to what the demonstration needs: the signature of a file is its name. */\nvoid puzzle_init_context(PuzzleContext *c) {}\nvoid puzzle_free_context(PuzzleContext *c) {}\nint puzzle_set_max_width(PuzzleContext *c, unsigned int w) { return 0; }\nint puzzle_set_max_height(PuzzleContext *c, unsigned int h) { return 0; }\nint puzzle_set_lambdas(PuzzleContext *c, unsigned int l) { return 0; }\nvoid puzzle_init_cvec(PuzzleContext *c, PuzzleCvec *v) { v->vec = 0; v->sizeof_vec = 0; }\nvoid puzzle_free_cvec(PuzzleContext *c, PuzzleCvec *v) {}\n'
seed("bad-image-stops", "C25", "an image that cannot be decoded among others", "images that stand behind one that cannot be decoded are not compared",
     [("src/ft_image.c", "            if (!(file_cmp->cvec_ok & 0x1)) {\n                continue;\n            }", "            if (!(file_cmp->cvec_ok & 0x1)) {\n                break;\n            }")],
     CC("src/ft_image.c src/napr_heap.c src/napr_threadpool.c") + '"$S/demo" > "$S/out"\n[ $(grep -c a3 "$S/out") = 1 ]\n',
     demo_c=PUZ + '#include <apr_general.h>\n#include "ft_config.h"\n#include "ft_types.h"\n#include "ft_image.h"\nint puzzle_fill_cvec_from_file(PuzzleContext *c, PuzzleCvec *v, const char *f) { v->sizeof_vec = f[0]; return f[0] == 98 ? -1 : 0; }\ndouble puzzle_vector_normalized_distance(PuzzleContext *c, const PuzzleCvec *a, const PuzzleCvec *b, int f) { return 0.1; }\nstatic int cmp(const void *a, const void *b) { return ((ft_file_t *) b)->path[1] - ((ft_file_t *) a)->path[1]; }\nint main(void)\n{\n    static char *n[] = { "a1", "b2", "b4", "a3", "b5" };\n    static ft_file_t f[5];\n    static ft_conf_t conf;\n    int i, k;\n    apr_initialize();\n    apr_pool_create(&conf.pool, NULL);\n    conf.sep = 32; conf.threshold = 0.5;\n    conf.heap = napr_heap_make(conf.pool, cmp);\n    static const int order[] = { 0, 1, 3, 2, 4 };\n    for (k = 0; k < 5; k++) { i = order[k]; f[i].path = n[i]; napr_heap_insert(conf.heap, &f[i]); }\n    return ft_image_twin_report(&conf) != 0;\n}\n')
seed("member-beginning", "C26", "an archive with a member whose name begins with the name of another one and comes first", "the wrong member is extracted",
     [("src/ft_archive.c", "!strcmp(file->subpath, archive_entry_pathname(entry))", "!strncmp(file->subpath, archive_entry_pathname(entry), strlen(file->subpath))")],
     'mkdir "$S/t"; (cd "$S/t"; printf xxx > ab; printf yyy > a; tar cf "$S/1.tar" ab a)\n' + CC("src/ft_archive.c", "-larchive") + '"$S/demo" "$S/1.tar"\n',
     demo_c='#include <apr_general.h>\n#include <stdio.h>\n#include <string.h>\n#include <unistd.h>\n#include "ft_types.h"\n#include "ft_archive.h"\nint main(int c, char **v)\n{\n    apr_pool_t *p;\n    ft_file_t f;\n    char *n, b[8] = "";\n    FILE *h;\n    memset(&f, 0, sizeof(f));\n    apr_initialize();\n    apr_pool_create(&p, NULL);\n    f.path = v[1];\n    f.subpath = "a";\n    n = ft_archive_untar_file(&f, p);\n    if (!n || !(h = fopen(n, "r"))) return 1;\n    fgets(b, sizeof(b), h);\n    unlink(n);\n    return strcmp(b, "yyy") != 0;\n}\n')
seed("failed-argument-forgotten", "C27", "an argument that cannot be scanned followed by one that can", "the failure of one argument is forgotten and the run reports success",
     [("src/ftwin.c", '            DEBUG_ERR("error calling ft_traverse_path: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n            return status;', '            DEBUG_ERR("error calling ft_traverse_path: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n            if (napr_heap_size(conf->heap) == 0) {\n                return status;\n            }')],
     'mkdir "$S/d"; echo 1 > "$S/d/a"; echo 1 > "$S/d/b"\n! "$ftwin" "$S/d" "$S/missing" > /dev/null 2>&1\n')

seed("unlock-before-close", "C24", "a second process opening the cache while the first one is closing it", "the lock is released before the database is closed",
     [("src/napr_cache.c", "    /* Close napr_db environment */\n    if (cache->db_env) {\n        status_tmp = napr_db_env_close(cache->db_env);", "    if (cache->lock_file_handle) {\n        (void) apr_file_unlock(cache->lock_file_handle);\n    }\n\n    /* Close napr_db environment */\n    if (cache->db_env) {\n        status_tmp = napr_db_env_close(cache->db_env);")],
     CC(CACHE, "-Wl,--wrap=napr_db_env_close") + '"$S/demo" "$S/cache"\n',
     demo_c=HD + '#include <sys/wait.h>\n#include <unistd.h>\nstatic char *path;\nstatic int bad;\nint __real_napr_db_env_close(napr_db_env_t *);\nint __wrap_napr_db_env_close(napr_db_env_t *e)\n{\n    int st;\n    if (fork() == 0) {\n        apr_pool_t *q;\n        napr_cache_t *g;\n        apr_pool_create(&q, NULL);\n        _exit(napr_cache_open(&g, path, q) == APR_SUCCESS ? 1 : 0);\n    }\n    wait(&st);\n    bad |= st != 0;\n    return __real_napr_db_env_close(e);\n}\nint main(int c, char **v)\n{\n    apr_pool_t *p;\n    napr_cache_t *h;\n    apr_initialize();\n    apr_pool_create(&p, NULL);\n    path = v[1];\n    CK(napr_cache_open(&h, path, p));\n    napr_cache_close(h);\n    return bad;\n}\n')
seed("unlocked-shutdown", "C08", "a worker that has just found that there is no shutdown and is about to sleep while the shutdown is announced", "the announcement of the shutdown can be missed and the join never returns",
     [("src/napr_threadpool.c", "    /* Lock mutex to set shutdown flag */\n    status = apr_thread_mutex_lock(threadpool->threadpool_mutex);\n    if (APR_SUCCESS != status) {\n        DEBUG_ERR(\"error calling apr_thread_mutex_lock: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return status;\n    }\n\n", ""),
      ("src/napr_threadpool.c", "        apr_thread_mutex_unlock(threadpool->threadpool_mutex);\n        return status;\n    }\n\n    status = apr_thread_mutex_unlock(threadpool->threadpool_mutex);\n    if (APR_SUCCESS != status) {\n        DEBUG_ERR(\"error calling apr_thread_mutex_unlock: %s\", apr_strerror(status, errbuf, ERR_BUF_SIZE));\n        return status;\n    }\n\n    /* Join", "        return status;\n    }\n\n    /* Join")],
     CC("src/napr_threadpool.c", "-Wl,--wrap=apr_thread_cond_wait") + 'timeout 20 "$S/demo"\n',
     demo_c='#include <apr_general.h>\n#include <apr_thread_cond.h>\n#include <unistd.h>\n#include "napr_threadpool.h"\nstatic volatile int slow;\napr_status_t __real_apr_thread_cond_wait(apr_thread_cond_t *, apr_thread_mutex_t *);\n/* Take a while to fall asleep, still holding the lock as the real one does. */\napr_status_t __wrap_apr_thread_cond_wait(apr_thread_cond_t *c, apr_thread_mutex_t *m) { if (slow) { slow = 2; usleep(500000); } return __real_apr_thread_cond_wait(c, m); }\nstatic apr_status_t work(void *ctx, void *data) { usleep(200000); slow = 1; return APR_SUCCESS; }\nint main(void)\n{\n    apr_pool_t *p;\n    napr_threadpool_t *t;\n    int d;\n    apr_initialize();\n    apr_pool_create(&p, NULL);\n    if (napr_threadpool_init(&t, NULL, 1, work, p)) return 0;\n    napr_threadpool_add(t, &d);\n    /* shut down while the worker, its task done, is about to sleep; a lock is what keeps the two apart */\n    usleep(100000);\n    while (slow != 2) usleep(1000);\n    napr_threadpool_shutdown(t);\n    return 0;\n}\n')
