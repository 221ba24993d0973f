/* Harness vocabulary.  Under CBMC every vp_*() input is a free symbolic value, recorded in vp_log so that
 * the counterexample can be replayed natively; natively the values are read back from the replay file. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>

#ifdef VP_CBMC
#define VP_ASSUME(c) __CPROVER_assume(c)
#ifdef VP_TWIN
#define VP_ASSERT(c, msg) ((void)(c))
#define VP_COVER(msg) __CPROVER_assert(0, "VPCOVER " msg)
#else
#define VP_ASSERT(c, msg) __CPROVER_assert((c), "VP " msg)
#define VP_COVER(msg) ((void)0)
#endif
#else
void vp_native_assume(int c, const char *what);
void vp_native_assert(int c, const char *msg, const char *file, int line);
#define VP_ASSUME(c) vp_native_assume(!!(c), #c)
#define VP_ASSERT(c, msg) vp_native_assert(!!(c), msg, __FILE__, __LINE__)
#ifdef VP_SYMX
void vp_cover(const char *msg);
#define VP_COVER(msg) vp_cover(msg)
#else
#define VP_COVER(msg) ((void)0)
#endif
#endif

/* Symbolic inputs.  vp_range is inclusive. */
uint64_t vp_u64(void);
uint32_t vp_u32(void);
uint16_t vp_u16(void);
uint8_t vp_u8(void);
int64_t vp_i64(void);
int vp_int(void);
int vp_bool(void);
unsigned vp_range(unsigned lo, unsigned hi);

/* Plain allocation that never fails (allocation failure is out of scope). */
void *vp_alloc(size_t n);
void *vp_zalloc(size_t n);

#define VP_STOP() VP_ASSUME(0)
#endif
