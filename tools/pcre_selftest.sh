#!/bin/bash
# Development aid: lib/minipcre.c agrees with the real libpcre on the expressions C12 compiles and all short subjects.
set -e
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
V=$(cd "$(dirname "$0")/.." && pwd)
cat > $D/t.c <<'E'
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <pcre.h>
#define pcre_compile my_compile
#define pcre_exec my_exec
#include "minipcre.c"
#undef pcre_compile
#undef pcre_exec
pcre *pcre_compile(const char *, int, const char **, int *, const unsigned char *);
int pcre_exec(const pcre *, const pcre_extra *, const char *, int, int, int, int *, int);
int t_main(void);
void vp_harness(void) { t_main(); }

int t_main(void)
{
    static char line[4096]; long n = 0, bad = 0, unsup = 0;
    const char a[] = "ab/.*?[]!^-\\\n+ 1A";
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        const char *e; int off;
        pcre *r = pcre_compile(line, PCRE_DOTALL | PCRE_DOLLAR_ENDONLY, &e, &off, NULL);
        pcre *m = my_compile(line, PCRE_DOTALL | PCRE_DOLLAR_ENDONLY, &e, &off, NULL);
        if (vp_pcre_unsupported) { unsup++; printf("unsupported %s\n", line); continue; }
        if (!r != !m) { printf("compile differs: %s\n", line); bad++; continue; }
        if (!r) continue;
        for (int len = 1; len <= 3; len++) {
            int tot = 1; for (int i = 0; i < len; i++) tot *= sizeof a - 1;
            for (int k = 0; k < tot; k++) {
                char s[8]; int q = k; for (int i = 0; i < len; i++) { s[i] = a[q % (sizeof a - 1)]; q /= sizeof a - 1; } s[len] = 0;
                int x = pcre_exec(r, NULL, s, len, 0, 0, NULL, 0) >= 0, y = my_exec(m, NULL, s, len, 0, 0, NULL, 0) >= 0;
                n++;
                if (x != y) { bad++; if (bad < 20) printf("differs: %s on %s: %d %d\n", line, s, x, y); }
            }
        }
    }
    printf("%ld matches compared, %ld differ, %ld unsupported\n", n, bad, unsup);
    return bad != 0;
}
E
cat > $D/g.c <<'E'
#include "ft_ignore.c"
#include <stdio.h>
#include <apr_general.h>
int main(void) { apr_initialize(); apr_pool_t *p; apr_pool_create(&p, NULL); char l[4096];
 while (fgets(l, sizeof l, stdin)) { l[strcspn(l, "\n")] = 0; unsigned f; char *r = ft_glob_to_pcre(l, p, &f); if (!strchr(r, '\n')) puts(r); } return 0; }
E
gcc -w -DHAVE_CONFIG_H -I$V/lib -I/repo/src -I/usr/include/apr-1.0 -D_GNU_SOURCE -DLINUX -D_REENTRANT $D/g.c -o $D/g -lapr-1 -lpcre
gcc -w -g -DVP_SUBJ=4 -I$V/lib -I/usr/include/apr-1.0 $D/t.c $V/lib/vp.c -o $D/t -lpcre -Wl,--unresolved-symbols=ignore-all
python3 - > $D/p <<'P'
import itertools
for n in (1, 2, 3):
    for t in itertools.product("ab/*?[]!^-.\\", repeat=n): print("".join(t))
for c in range(1, 128):
    if c != 10: print("a%cb" % c)
for p in ("**/a", "**/a/b", "a/**", "a/**/b", "[[:alpha:]]b", "[![:digit:]]", "[!]a]b", "[a-c]x", "[\\]]b"): print(p)
P
$D/g < $D/p | sort -u > $D/r; wc -l < $D/r
$D/t < $D/r
