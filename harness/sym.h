/* Harness intrinsics: interpreted by the symbolic executor, implemented by rt.c for native replay. */
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <stdint.h>
#include <errno.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sym_u(int bits, uint64_t lo, uint64_t hi);        /* fresh symbolic value in [lo,hi] */
void sym_assume(int c);
void sym_assert(int c, const char *what);
void sym_reach(int code);                                   /* vacuity witness */
void sym_obs(int tag, uint64_t v);                          /* observable, compared with the native run */
uint64_t sym_pick(uint64_t v);                              /* fork on the feasible values */
int64_t sym_param(int i);
const char *sym_data(int i);
uint64_t sym_datalen(int i);
uint32_t sym_tab(int i, uint64_t off, uint64_t stride, uint64_t idx); /* table lookup in a data item */
void *sym_buf(uint64_t max, uint64_t size, int fill);       /* writable buffer of exactly size bytes */
void *sym_symbuf(uint64_t max, uint64_t size);              /* read-only symbolic input of exactly size bytes */
void sym_freeze(void *p);
int sym_live(void);                                         /* heap blocks alive */
int sym_gwrites(void);                                      /* writes to global data so far */
void sym_track_globals(int on);
void sym_fail_malloc(int on);                               /* allocations may fail from now on */
int sym_is_sym(void);
void sym_clear_errno(void);
void sym_heapsig(void *p);
#ifdef __cplusplus
}
#endif
#endif
