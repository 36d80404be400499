#pragma once
extern int os_errno, os_fill, os_inplace, os_align, os_order;          /* errno before each call, contents of the output before each call, input read where it is (read-only memory), offset of the buffers, last job first (the log then ends with the place of each job) */
const unsigned *os_jobs(void);                     /* the job file, read-only memory */
void os_write(const char *p, __SIZE_TYPE__ n);     /* append to the log */
void os_start(void), os_end(void), os_job(unsigned i), os_before(void), os_after(void);
#ifdef __cplusplus
extern "C"
#endif
int os_cpp(int from, int to, int flag, const char *in, __SIZE_TYPE__ n, unsigned char **out, __SIZE_TYPE__ *len);   /* errno of the C++ conversion, 0: *out malloc'ed */
