/* ftwin_main: which steps run, on what, in which order, and with what exit status, for every outcome of every step. */
#include "vp.h"
#include "vp_apr.h"
#include <string.h>
#include <apr_strings.h>
#include <apr_file_info.h>
#include <apr_general.h>
#include "ft_types.h"
#include "ft_config.h"
#include "ft_traverse.h"
#include "ft_process.h"
#include "ft_report.h"
#include "ft_report_json.h"
#include "ft_image.h"
#include "napr_heap.h"
int ftwin_main(int argc, const char **argv);
void ft_config_set_should_terminate_apr(int should_terminate);
static int managed;

static ft_conf_t conf;
static unsigned live, started, parsed, parse_failed, scanned, scan_failed, files, processed, process_failed, text, json, images, report_failed, resolved_failed, init_failed;
static int argn, first;
static ft_file_t file[VP_ARGS];
static const char *args[VP_ARGS + 2] = { "ftwin", "a", "b", "c" };
static const char *full[VP_ARGS + 2] = { "/w/ftwin", "/w/a", "/w/b", "/w/c" };

static int any_order(const void *a, const void *b) { (void) a; (void) b; return 0; }
apr_status_t apr_initialize(void)
{
    VP_ASSERT(managed && !started, "the library is initialised once, and not when the caller does it");
    started++;
    if (vp_bool()) { init_failed = 1; return APR_EGENERAL; }
    live++;
    return APR_SUCCESS;
}
void apr_terminate(void)
{
    VP_ASSERT(live == 1, "the library is terminated once, after it was initialised");
    live--;
}
ft_conf_t *ft_config_create(apr_pool_t *pool)
{
    conf.pool = pool;
    conf.heap = napr_heap_make(pool, any_order);
    conf.sep = '\n';
    return &conf;
}
apr_status_t ft_config_parse_args(ft_conf_t *c, int argc, const char **argv, int *first_arg_index)
{
    VP_ASSERT(c == &conf && argc == argn && argv == args, "the command line is parsed as given");
    VP_ASSERT(parsed == 0, "the command line is parsed once");
    parsed++;
    if (vp_bool()) { parse_failed = 1; return APR_EINVAL; }
    c->mask = vp_u16();
    *first_arg_index = first;
    return APR_SUCCESS;
}
apr_status_t apr_filepath_merge(char **newpath, const char *rootpath, const char *addpath, apr_int32_t flags, apr_pool_t *p)
{
    (void) rootpath; (void) flags; (void) p;
    if (vp_bool()) { resolved_failed = 1; return APR_EBADPATH; }
    for (int i = 0; i < argn; i++)
        if (addpath == args[i]) { *newpath = (char *) full[i]; return APR_SUCCESS; }
    VP_ASSERT(0, "only arguments are made absolute");
    return APR_EBADPATH;
}
apr_status_t ft_traverse_path(ft_conf_t *c, const char *path)
{
    unsigned i = (unsigned) first + scanned;
    VP_ASSERT(c == &conf && !scan_failed && !processed && !text && !json && !images, "arguments are scanned before anything else");
    VP_ASSERT(i < (unsigned) argn, "only arguments are scanned");
    if (i < (unsigned) argn) VP_ASSERT(!strcmp(path, is_option_set(c->mask, OPTION_JSON) ? full[i] : args[i]), "every argument is scanned, in order, by its absolute path for JSON");
    scanned++;
    if (vp_bool()) { scan_failed = 1; return APR_ENOENT; }
    if (vp_bool() && files < VP_ARGS) {
        VP_ASSERT(napr_heap_insert(c->heap, &file[files]) == 0, "insert");
        files++;
    }
    return APR_SUCCESS;
}
static void ready(ft_conf_t *c)
{
    VP_ASSERT(c == &conf && !scan_failed && !resolved_failed && scanned == (unsigned) (argn - first), "every argument was scanned");
    VP_ASSERT(napr_heap_size(c->heap) == files && files > 0, "there is a file to look at");
}
apr_status_t ft_process_files(ft_conf_t *c)
{
    ready(c);
    VP_ASSERT(processed == 0 && !images && !is_option_set(c->mask, OPTION_PUZZL), "files are hashed once, and not in image mode");
    processed++;
    if (vp_bool()) { process_failed = 1; return APR_EGENERAL; }
    return APR_SUCCESS;
}
static apr_status_t report(ft_conf_t *c, unsigned *kind, unsigned hashed)
{
    ready(c);
    VP_ASSERT(text + json + images == 0, "there is one report");
    VP_ASSERT(processed == hashed && !process_failed, "a report follows the hashing, if that succeeded");
    ++*kind;
    if (vp_bool()) { report_failed = 1; return APR_EGENERAL; }
    return APR_SUCCESS;
}
apr_status_t ft_report_duplicates(ft_conf_t *c) { return report(c, &text, 1); }
apr_status_t ft_report_json(ft_conf_t *c) { return report(c, &json, 1); }
apr_status_t ft_image_twin_report(ft_conf_t *c) { return report(c, &images, 0); }

void vp_harness(void)
{
    argn = (int) vp_range(1, VP_ARGS + 1);
    first = (int) vp_range(1, (unsigned) argn);
    managed = vp_bool();
    ft_config_set_should_terminate_apr(managed);
    int rc = ftwin_main(argn, args);
    VP_ASSERT(started == (unsigned) managed, "the library is initialised");
    VP_ASSERT(live == 0, "the library is terminated");
    VP_ASSERT(init_failed || parsed == 1, "the command line is parsed");
    int failed = init_failed || parse_failed || resolved_failed || scan_failed || process_failed || report_failed;
    if (init_failed || parse_failed) VP_ASSERT(!scanned && !text && !json && !images, "nothing is done after a wrong command line");
    if (!failed) {
        VP_ASSERT(scanned == (unsigned) (argn - first), "every argument is scanned");
        if (files) {
            int puz = is_option_set(conf.mask, OPTION_PUZZL), js = is_option_set(conf.mask, OPTION_JSON);
            VP_ASSERT(images == (unsigned) !!puz, "images are reported in image mode");
            VP_ASSERT(json == (unsigned) (!puz && js), "JSON is reported when requested");
            VP_ASSERT(text == (unsigned) (!puz && !js), "text is reported otherwise");
            VP_ASSERT(rc == 0, "a run without failure exits 0");
            VP_COVER("reported");
        }
        else {
            VP_ASSERT(!text && !json && !images && rc != 0, "a run without files reports nothing and fails");
            VP_COVER("no files");
        }
    }
    else {
        VP_ASSERT(rc != 0, "a run in which a step failed does not exit 0");
        VP_COVER("failed");
    }
}
