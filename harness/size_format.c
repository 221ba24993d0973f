/* format_human_size(): the text is the size, in the largest unit that keeps it at least one, within rounding. */
#include "vp.h"
#include "vp_apr.h"
#include "vp_fmt.h"
#include "human_size.h"
#include "vp_nocheck.h"
void vp_emit(int c) { (void) c; VP_ASSERT(0, "nothing is printed"); }
static void put1(struct vp_sink *s, int c) { if (s->n + 1 < s->cap) s->buf[s->n] = (char) c; s->n++; }
static int was_double; static double dval; static int dprec;
/* "%.Nf": the value is kept for the harness, the text gets a mark */
void vp_put_double(struct vp_sink *s, double d, int prec) { was_double++; dval = d; dprec = prec; put1(s, '@'); }
void vp_harness(void)
{
    uint64_t size = vp_u64();
#if VP_UNIT == 0
    VP_ASSUME(size < 1024);
#else
    VP_ASSUME(size >= (uint64_t) 1 << (10 * VP_UNIT) && size >> 1 < (uint64_t) 1 << (VP_UNIT < 6 ? 10 * VP_UNIT + 9 : 62));
#endif
    const char *t = format_human_size((apr_off_t) size, vp_pool());
    unsigned i = 0;
    const char *unit;
#if VP_UNIT == 0
    uint64_t v = 0;
    while (i < 5 && t[i] >= '0' && t[i] <= '9') { v = v * 10 + (uint64_t) (t[i] - '0'); i++; }
    if (was_double) { VP_ASSERT(dval == (double) size, "bytes are printed exactly"); VP_ASSERT(t[0] == '@', "the number comes first"); i = 1; }
    else VP_ASSERT(i > 0 && v == size, "bytes are printed exactly");
    unit = "B";
#else
    static const char *const units[] = { "B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB" };
    int up = VP_UNIT < 6 && (double) size >= (double) ((uint64_t) 1 << (VP_UNIT < 6 ? 10 * VP_UNIT + 10 : 0));      /* rounded up to the next unit */
    unit = up ? units[VP_UNIT < 6 ? VP_UNIT + 1 : 6] : units[VP_UNIT];
    VP_ASSERT(was_double == 1 && t[0] == '@' && dprec >= 1, "the number comes first, with a decimal");
    i = 1;
    double scaled = dval * (up ? (double) ((uint64_t) 1 << (VP_UNIT < 6 ? 10 * VP_UNIT + 10 : 0)) : (double) ((uint64_t) 1 << (10 * VP_UNIT)));      /* exact: a power of two */
    VP_ASSERT(scaled == (double) size, "the number is the size divided by its unit");
#endif
    VP_ASSERT(t[i] == ' ', "a space separates number and unit");
    for (unsigned k = 0; k < 4; k++) { VP_ASSERT(t[i + 1 + k] == unit[k], "the unit is the largest that fits"); if (!unit[k]) break; }
    VP_COVER("end");
}
