#include "report_common.h"
#ifndef VP_SEP
#define VP_SEP ' '
#endif
/* the lines of the report: blank, "Size: x", or member{sep member}; a blank line ends a set whose separator is a newline */
static enum { START, SIZE_LINE, MEMBER, SUB, SUBNAME, SEP, NEWMEMBER, ESC } st = START, esc_back;
static int size_line;           /* digit announced by the last size line, 0 if none */
static int pos;
static int cur;
#define COLON (VP_SEP == ':' ? '|' : ':')
void vp_emit(int c)
{
    static const char head[] = "Size: ";
    if (c == 27 && st != ESC) { esc_back = st; st = ESC; return; }
    if (st == ESC) { if (c == 'm') st = esc_back; return; }
    switch (st) {
    case START:
        if (c == '\n') break;
        if (c == 'S' && is_option_set(conf.mask, OPTION_SIZED)) { VP_ASSERT(!size_line, "one size line for each set"); st = SIZE_LINE; pos = 1; break; }
        /* fall through */
    case NEWMEMBER: {
        if (VP_SEP == '\n' && st == NEWMEMBER && c == '\n') { end_set(); size_line = 0; st = START; break; }   /* blank line */
        int hit = -1;
        for (int i = 0; i < N; i++) if (c == names[i][0]) hit = i;
        VP_ASSERT(hit >= 0, "a line holds paths");
        if (hit >= 0) {
            if (st == START && is_option_set(conf.mask, OPTION_SIZED)) VP_ASSERT(size_line == '0' + vp_sizes[hit], "the set's size comes before it");
            member(hit);
            cur = hit;
        }
        st = MEMBER;
        if (is_option_set(conf.mask, OPTION_UNTAR) && hit >= 0 && files[hit].subpath) st = SUB;
        break;
    }
    case SUB:
        VP_ASSERT(c == COLON, "archive and member are separated by a character that is not the separator");
        st = SUBNAME;
        break;
    case SUBNAME:
        VP_ASSERT(c == 's', "the member's name follows its archive");
        st = MEMBER;
        break;
    case SIZE_LINE:
        if (c == '\n') { st = START; VP_ASSERT(size_line, "the size is printed"); }
        else if (pos < 6) { VP_ASSERT(c == head[pos], "size line"); pos++; }
        else size_line = c;
        break;
    case MEMBER:
        if (c == '\n' && VP_SEP != '\n') { end_set(); size_line = 0; st = START; }
        else { VP_ASSERT(c == conf.sep, "members are separated by the separator"); st = NEWMEMBER; }
        break;
    default: break;
    }
}
void vp_harness(void)
{
    setup();
    conf.sep = VP_SEP;
    conf.mask = VP_MASK;
    if (vp_bool()) conf.mask |= OPTION_VERBO;
    if (vp_bool()) conf.mask |= OPTION_DRY_RUN;
    apr_status_t r = ft_report_duplicates(&conf);
    VP_ASSERT(r == APR_SUCCESS, "the report is completed");
    VP_ASSERT(st == START && !size_line, "every line is ended");
    check_sets();
}
