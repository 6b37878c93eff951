#ifndef IOSIM_H
#define IOSIM_H
#include <stddef.h>
#include <stdint.h>
enum { IOF_WRITE = 1, IOF_SYNC = 2, IOF_SIZE = 4, IOF_MAP = 8 };
extern unsigned iosim_opno, iosim_metas;
extern void (*iosim_on_write)(size_t off, size_t len, int mapped);
extern void (*iosim_before_sync)(void);
void iosim_durable(void *to, size_t n);
void iosim_start(const char *db, const char *dir);
void iosim_stop(void);
void iosim_flush(void);
void iosim_point(int mid);
void iosim_images(unsigned rate, unsigned max, uint64_t seed);
void iosim_kill_image(void);
void iosim_fault(int mask, long after, int err, long count);
void iosim_op_begin(void);
void iosim_op_end(long *soft, long *hard, int *meta);
long iosim_hits(int *what, unsigned *meta);
void iosim_image(int no, const char *strategy, int mid, unsigned pending); /* given by the driver */
#endif
