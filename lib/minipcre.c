/* A small regular expression matcher behind pcre_compile()/pcre_exec(): expressions are concrete, subjects symbolic.
 * Anything outside the subset sets vp_pcre_unsupported; the harness then leaves that expression out. */
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <pcre.h>
#ifndef VP_SUBJ
#define VP_SUBJ 6
#endif
/* One expression at a time, in small flat arrays (which CBMC propagates constants through). */
#define MI 64
#define MS 16
#define MR 4
enum { SET, JMP, SPLIT, BOL, EOL, NLA, PLA, OK };
struct real_pcre { int serial; };
static struct { int n, ns, dollar_end, err; } Q, *const P = &Q;
static signed char i_op[MI], i_a[MI], i_b[MI], i_set[MI];
static signed char s_n[MS], s_neg[MS];
static unsigned char s_lo[MS * MR], s_hi[MS * MR];
static const char *rx;
static int opts, serial;
int vp_pcre_unsupported;
static void unsupported(void) { vp_pcre_unsupported = 1; P->err = 1; }
static int emit(int op, int a, int b, int set)
{
    if (P->n >= MI - 1) { unsupported(); return 0; }
    i_op[P->n] = op; i_a[P->n] = a; i_b[P->n] = b; i_set[P->n] = set;
    return P->n++;
}
static int newset(void)
{
    if (P->ns >= MS) { unsupported(); return 0; }
    s_n[P->ns] = 0; s_neg[P->ns] = 0;
    return P->ns++;
}
static void range(int s, int lo, int hi)
{
    if (s_n[s] >= MR) { unsupported(); return; }
    s_lo[s * MR + s_n[s]] = (unsigned char) lo; s_hi[s * MR + s_n[s]] = (unsigned char) hi;
    s_n[s]++;
    if (opts & PCRE_CASELESS) {
        if (lo == hi && lo >= 'a' && lo <= 'z') { opts &= ~PCRE_CASELESS; range(s, lo - 32, lo - 32); opts |= PCRE_CASELESS; }
        else if (lo == hi && lo >= 'A' && lo <= 'Z') { opts &= ~PCRE_CASELESS; range(s, lo + 32, lo + 32); opts |= PCRE_CASELESS; }
        else if (lo != hi) unsupported();
    }
}
static int alnum(int c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
static int starts(const char *name, int n)
{
    for (int k = 0; k < n; k++) if (rx[k] != name[k]) return 0;
    rx += n;
    return 1;
}
static int posix(int s)
{
    /* at "[:name:]" */
    if (starts("[:alpha:]", 9)) { range(s, 'A', 'Z'); range(s, 'a', 'z'); return 1; }
    if (starts("[:digit:]", 9)) { range(s, '0', '9'); return 1; }
    if (starts("[:alnum:]", 9)) { range(s, 'A', 'Z'); range(s, 'a', 'z'); range(s, '0', '9'); return 1; }
    if (starts("[:upper:]", 9)) { range(s, 'A', 'Z'); return 1; }
    if (starts("[:lower:]", 9)) { range(s, 'a', 'z'); return 1; }
    if (starts("[:space:]", 9)) { range(s, 9, 13); range(s, ' ', ' '); return 1; }
    if (starts("[:xdigit:]", 10)) { range(s, 'A', 'F'); range(s, 'a', 'f'); range(s, '0', '9'); return 1; }
    return 0;
}
static int klass(void)
{
    /* after '[' */
    int s = newset(), first = 1;
    if (*rx == '^') { s_neg[s] = 1; rx++; }
    while (*rx && (*rx != ']' || first)) {
        int lo;
        first = 0;
        if (rx[0] == '[' && rx[1] == ':' && posix(s)) continue;
        if (rx[0] == '[' && (rx[1] == ':' || rx[1] == '.' || rx[1] == '=')) unsupported();
        if (*rx == '\\') {
            rx++;
            if (!*rx || alnum((unsigned char) *rx)) unsupported();
        }
        lo = (unsigned char) *rx++;
        if (rx[0] == '-' && rx[1] && rx[1] != ']') {
            int hi;
            if (rx[1] == '[' && rx[2] == ':') unsupported();
            rx++;
            if (*rx == '\\') { rx++; if (!*rx || alnum((unsigned char) *rx)) unsupported(); }
            hi = (unsigned char) *rx++;
            if (hi < lo) { P->err = 1; return s; }
            range(s, lo, hi);
        }
        else range(s, lo, lo);
    }
    if (*rx != ']') { P->err = 1; return s; }
    rx++;
    return s;
}
static void alt(int depth);
/* returns whether a quantifier may follow */
static int atom(int depth)
{
    char c = *rx++;
    if (c == '(') {
        int la = 0;
        if (rx[0] == '?') {
            if (rx[1] == ':') rx += 2;
            else if (rx[1] == '!' || rx[1] == '=') { la = rx[1] == '!' ? 1 : 2; rx += 2; }
            else { unsupported(); return 0; }
        }
        if (la) {
            /* only a single character or class */
            int n0 = P->n;
            if (*rx == ')' || *rx == '(' ) { unsupported(); return 0; }
            atom(depth);
            if (P->n != n0 + 1 || i_op[n0] != SET || *rx != ')') { unsupported(); return 0; }
            i_op[n0] = la == 1 ? NLA : PLA;
            rx++;
            return 0;
        }
        if (depth <= 0) { unsupported(); return 0; }
        alt(depth - 1);
        if (*rx != ')') { P->err = 1; return 0; }
        rx++;
        return 1;
    }
    if (c == '[') { int s = klass(); emit(SET, 0, 0, s); return 1; }
    if (c == '.') {
        int s = newset();
        if (!(opts & PCRE_DOTALL)) { s_neg[s] = 1; range(s, '\n', '\n'); }
        else range(s, 0, 255);
        emit(SET, 0, 0, s);
        return 1;
    }
    if (c == '^') { emit(BOL, 0, 0, 0); return 0; }
    if (c == '$') { emit(EOL, P->dollar_end, 0, 0); return 0; }
    if (c == '*' || c == '+' || c == '?') { P->err = 1; return 0; }
    if (c == '{' && *rx >= '0' && *rx <= '9') { unsupported(); return 0; }
    if (c == '\\') {
        if (!*rx) { P->err = 1; return 0; }
        c = *rx++;
        if (c == 'z') { emit(EOL, 1, 0, 0); return 0; }
        if (c == 'A') { emit(BOL, 0, 0, 0); return 0; }
        if (alnum((unsigned char) c)) { unsupported(); return 0; }
    }
    int s = newset();
    range(s, (unsigned char) c, (unsigned char) c);
    emit(SET, 0, 0, s);
    return 1;
}
static void insert(int at, int op, int a, int b)
{
    if (P->n >= MI - 1) { unsupported(); return; }
    for (int k = P->n; k > at; k--) { i_op[k] = i_op[k - 1]; i_a[k] = i_a[k - 1]; i_b[k] = i_b[k - 1]; i_set[k] = i_set[k - 1]; }
    P->n++;
    i_op[at] = op; i_a[at] = a; i_b[at] = b;
}
static void seq(int depth)
{
    while (*rx && *rx != '|' && *rx != ')') {
        int n0 = P->n, q = atom(depth);
        if (P->err) return;
        if (*rx == '*' || *rx == '+' || *rx == '?') {
            if (!q) { unsupported(); return; }
            char c = *rx++;
            if (*rx == '?') rx++;                        /* lazy: the same language */
            else if (*rx == '+') { unsupported(); return; }
            int len = P->n - n0;
            if (c == '?') insert(n0, SPLIT, 1, len + 1);
            else if (c == '*') { insert(n0, SPLIT, 1, len + 2); emit(JMP, -(len + 1), 0, 0); }
            else emit(SPLIT, -len, 1, 0);
        }
        else if (*rx == '{') { if (rx[1] >= '0' && rx[1] <= '9') unsupported(); }
    }
}
static void alt(int depth)
{
    int n0 = P->n;
    seq(depth);
    if (P->err) return;
    while (*rx == '|') {
        int len = P->n - n0;
        rx++;
        insert(n0, SPLIT, 1, len + 2);
        int j = emit(JMP, 0, 0, 0);
        if (depth <= 0) { unsupported(); return; }
        alt(depth - 1);
        if (P->err) return;
        i_a[j] = P->n - j;
    }
}
pcre *pcre_compile(const char *text, int opt, const char **err, int *off, const unsigned char *tab)
{
    (void) tab;
    pcre *code = vp_zalloc(sizeof *code);
    code->serial = ++serial;
    Q.n = Q.ns = Q.err = 0;
    vp_pcre_unsupported = 0;
    P->dollar_end = !!(opt & PCRE_DOLLAR_ENDONLY);
    opts = opt;
    if (opt & ~(PCRE_DOTALL | PCRE_DOLLAR_ENDONLY | PCRE_CASELESS | PCRE_NO_AUTO_CAPTURE | PCRE_ANCHORED)) unsupported();
    rx = text;
    if (opt & PCRE_ANCHORED) emit(BOL, 0, 0, 0);
    alt(6);
    if (*rx) P->err = 1;
    emit(OK, 0, 0, 0);
    if (P->err) { *err = "bad expression"; *off = 0; return NULL; }
    return code;
}
static int inset(int s, unsigned char c)
{
    int r = 0;
    for (int k = 0; k < s_n[s]; k++) r |= c >= s_lo[s * MR + k] & c <= s_hi[s * MR + k];
    return s_neg[s] ? !r : r;
}
int pcre_exec(const pcre *code, const pcre_extra *x, const char *s, int n, int start, int opt, int *ov, int ovn)
{
    unsigned char cur[MI] = { 0 }, nxt[MI] = { 0 };
    unsigned char subj[VP_SUBJ + 1];
    int matched = 0, np = Q.n;
    (void) x; (void) ov; (void) ovn;
    if (code->serial != serial) unsupported();
    if (start || opt) unsupported();
    VP_ASSERT(n >= 0 && n <= VP_SUBJ, "the subject is the path");
    for (int j = 0; j <= VP_SUBJ; j++) { subj[j] = 0; if (j < n) subj[j] = (unsigned char) s[j]; }
    for (int j = 0; j <= VP_SUBJ; j++) {
        int in = j <= n, more = j < n;
        cur[0] |= in;
        for (int pass = 0; pass < 3; pass++)
            for (int k = 0; k < np; k++) {
                int a = i_a[k], b = i_b[k];
                switch (i_op[k]) {
                case JMP: cur[k + a] |= cur[k]; break;
                case SPLIT: cur[k + a] |= cur[k]; cur[k + b] |= cur[k]; break;
                case BOL: if (j == 0) cur[k + 1] |= cur[k]; break;
                case EOL: cur[k + 1] |= cur[k] & (j == n | (!a & j + 1 == n & subj[j] == '\n')); break;
                case NLA: cur[k + 1] |= cur[k] & !(more & inset(i_set[k], subj[j])); break;
                case PLA: cur[k + 1] |= cur[k] & (more & inset(i_set[k], subj[j])); break;
                default: break;
                }
            }
        for (int k = 0; k < np; k++) {
            nxt[k] = 0;
        }
        for (int k = 0; k < np; k++) {
            if (i_op[k] == SET) nxt[k + 1] |= cur[k] & more & inset(i_set[k], subj[j]);
            if (i_op[k] == OK) matched |= cur[k];
        }
        for (int k = 0; k < np; k++) cur[k] = nxt[k];
    }
    return matched ? 1 : PCRE_ERROR_NOMATCH;
}
