/* The world under the database: one file that is also the memory map, its durable contents, locks. */
#ifndef VP_DB_ENV_H
#define VP_DB_ENV_H
#include "vp.h"
#ifndef VPD_PAGES
#define VPD_PAGES 24
#endif
#define VPD_BYTES (VPD_PAGES * FTWIN_VERIF_PAGE_SIZE)
#define VPD_SECTOR (FTWIN_VERIF_PAGE_SIZE / 2)
extern unsigned char *vpd_img;               /* what the processes see: file and memory map */
extern unsigned char vpd_dur[VPD_BYTES];     /* what is on disk for sure */
extern long vpd_size, vpd_dursize;           /* -1: no such file */
extern int vpd_faults;                       /* how many calls may still fail */
extern int vpd_failed;                       /* how many calls have failed */
extern int vpd_open, vpd_mapped;             /* open handles, live maps */
extern int vpd_lock_taken, vpd_need_lock;    /* the lock file of the cache */
extern int vpd_held(void);
extern void (*vpd_event)(void);              /* called before every write and sync */
extern void (*vpd_locked)(void);             /* called before a mutex is taken */
void vpd_crash(void);                        /* the file becomes what a crash now would leave */
void vpd_forget(void);                       /* the process is gone: handles, maps and locks with it */
#endif
