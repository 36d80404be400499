/* Hosted: jobs from the file argv[1], log to argv[2], surroundings given by the remaining arguments. */
#define _GNU_SOURCE
#include "os.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <locale.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
int os_errno = 0, os_fill = 0xC7, os_inplace = 0, os_align = 0, os_order = 0; static int logfd, filter; static const unsigned *jobs; extern char **environ;
static int any;
/* what the library asks the system about itself (the linker sends its calls here): with any=N every question has an unusual answer */
#include <langinfo.h>
#include <sys/time.h>
#include <time.h>
#include <wchar.h>
static int started; static const char *const answers[] = {"", "1", "C", "ja_JP.SJIS", "tr_TR.ISO-8859-9", "0"};
char *__real_getenv(const char *); char *__wrap_getenv(const char *n) { return any && started ? (char *)answers[any] : __real_getenv(n); }
char *__real_secure_getenv(const char *); char *__wrap_secure_getenv(const char *n) { return any && started ? (char *)answers[any] : __real_secure_getenv(n); }
time_t __real_time(time_t *); time_t __wrap_time(time_t *t) { if (!any) return __real_time(t); if (t) *t = any * 7919; return any * 7919; }
int __real_clock_gettime(clockid_t, struct timespec *); int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!any) return __real_clock_gettime(c, t); t->tv_sec = any * 7919; t->tv_nsec = any * 104729; return 0; }
int __real_gettimeofday(struct timeval *, void *); int __wrap_gettimeofday(struct timeval *t, void *z) { if (!any) return __real_gettimeofday(t, z); t->tv_sec = any * 7919; t->tv_usec = any * 10473; return 0; }
clock_t __real_clock(void); clock_t __wrap_clock(void) { return any ? any * 31337 : __real_clock(); }
int __real_rand(void); int __wrap_rand(void) { static unsigned s; return any ? (int)((s += any) * 2654435761u >> 1) : __real_rand(); }
long __real_random(void); long __wrap_random(void) { return any ? __wrap_rand() : __real_random(); }
pid_t __real_getpid(void); pid_t __wrap_getpid(void) { return any ? any : __real_getpid(); }
int __real_isatty(int); int __wrap_isatty(int f) { return any && started ? any & 1 : __real_isatty(f); }
char *__real_nl_langinfo(nl_item); char *__wrap_nl_langinfo(nl_item i) { return any && started ? (char *)answers[any] : __real_nl_langinfo(i); }
static volatile unsigned *state; static const char *statef;   /* shared: number of the job being run */
static char *logm; static size_t logoff, logmax;
const unsigned *os_jobs(void) { return jobs; }
void os_write(const char *p, size_t n) { if (logoff + n > logmax) { _exit(9); } memcpy(logm + logoff, p, n); logoff += n; ((volatile size_t *)state)[1] = logoff; }
static unsigned long h; static void hb(const void *p, size_t n) { const unsigned char *b = p; while (n--) h = (h ^ *b++) * 1099511628211ul; } static void hstr(const char *s) { hb(s ? s : "(null)", s ? strlen(s) + 1 : 7); }
static unsigned long world(void) {           /* everything of the process a conversion has no business with */
    h = 1469598103934665603ul; char **e; for (e = environ; *e; e++) { hb(e, sizeof *e); hstr(*e); } hb(&environ, sizeof environ);
    int c; for (c = 0; c < LC_ALL; c++) hstr(setlocale(c, NULL)); hb(&(int){fegetround()}, sizeof(int));
    if (!filter) { char b[4096]; hstr(getcwd(b, sizeof b)); int s; for (s = 1; s < 32; s++) { struct sigaction a; memset(&a, 0, sizeof a); if (!sigaction(s, NULL, &a)) hb(&a.sa_handler, sizeof a.sa_handler); } sigset_t m; sigemptyset(&m); sigprocmask(SIG_BLOCK, NULL, &m); hb(&m, 8); mode_t u = umask(0); umask(u); hb(&u, sizeof u);
        DIR *d = opendir("/proc/self/fd"); struct dirent *x; unsigned long sum = 0; if (d) { while ((x = readdir(d))) { unsigned long o = h; h = 7; hstr(x->d_name); sum += h; h = o; } closedir(d); } hb(&sum, sizeof sum);
        struct stat st; for (s = 0; s < 3; s++) { off_t o = lseek(s, 0, SEEK_CUR); hb(&o, sizeof o); if (!fstat(s, &st)) hb(&st.st_size, sizeof st.st_size); } }
    return h;
}
static unsigned long w0; static unsigned njob;
void os_start(void) {
    started = 1;
    w0 = world();
    if (filter) {       /* from here on only memory management and the end of the process are allowed */
        static const int ok[] = {SYS_mmap, SYS_munmap, SYS_mremap, SYS_brk, SYS_madvise, SYS_mprotect, SYS_futex, SYS_exit, SYS_exit_group, SYS_rt_sigreturn, SYS_getrandom, SYS_clock_gettime};
        struct sock_filter f[64]; int n = 0; f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)); size_t i, k = sizeof ok / sizeof *ok;
        for (i = 0; i < k; i++) f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, ok[i], (unsigned char)(k - i), 0);
        f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_KILL_PROCESS); f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
        struct sock_fprog p = {(unsigned short)n, f}; prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0); if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) _exit(40);
    }
}
static void changed(unsigned i) { ((volatile size_t *)state)[2] = i + 1; _exit(41); }
void os_job(unsigned i) { *state = i; njob = i; if (i % 256 == 0 && world() != w0) changed(i); }
void os_end(void) { if (world() != w0) changed(njob + 1); }
void os_before(void) {} void os_after(void) {}
int rec_main(void);
int main(int argc, char **argv) {
    int i, fd = open(argv[1], O_RDONLY); struct stat st; fstat(fd, &st); jobs = mmap(0, st.st_size, PROT_READ, MAP_SHARED, fd, 0); close(fd);
    logmax = (size_t)4 << 30; logfd = open(argv[2], O_RDWR | O_CREAT | O_TRUNC, 0644); if (ftruncate(logfd, logmax)) return 8; logm = mmap(0, logmax, PROT_READ | PROT_WRITE, MAP_SHARED, logfd, 0);
    fd = open(argv[3], O_RDWR | O_CREAT | O_TRUNC, 0644); if (ftruncate(fd, 4096)) return 8; state = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    for (i = 4; i < argc; i++) {
        char *a = argv[i], *v = strchr(a, '='); if (v) v++;
        if (!strncmp(a, "locale=", 7)) { if (!setlocale(LC_ALL, v)) return 42; } else if (!strncmp(a, "errno=", 6)) os_errno = atoi(v); else if (!strncmp(a, "fill=", 5)) os_fill = atoi(v); else if (!strcmp(a, "inplace")) os_inplace = 1;
        else if (!strncmp(a, "align=", 6)) os_align = atoi(v); else if (!strcmp(a, "backwards")) os_order = 1; else if (!strncmp(a, "any=", 4)) any = atoi(v); else if (!strcmp(a, "filter")) filter = 1; else if (!strncmp(a, "round=", 6)) fesetround(atoi(v) == 1 ? FE_UPWARD : atoi(v) == 2 ? FE_DOWNWARD : FE_TOWARDZERO); else if (!strcmp(a, "nofiles")) { /* nothing can be opened */ }
        else if (!strcmp(a, "stack")) { volatile char junk[200000]; unsigned k; for (k = 0; k < sizeof junk; k++) junk[k] = (char)(k * 37 + 11); }
        else if (!strncmp(a, "cwd=", 4)) { if (chdir(v)) return 8; } else if (!strncmp(a, "env=", 4)) { unsigned k, s = atoi(v); char n[40], *x; for (k = 0; k < 200; k++) { s = s * 1103515245 + 12345; snprintf(n, sizeof n, "%c%c_%u", 'A' + s / 65536 % 26, 'A' + s / 1000 % 26, k); setenv(n, "x", 1); } }
    }
    setvbuf(stdout, NULL, _IONBF, 0); int r = rec_main(); ((volatile size_t *)state)[1] = logoff; ((volatile size_t *)state)[3] = 0xd0e;
    munmap(logm, logmax); if (!filter) { if (ftruncate(logfd, logoff)) return 8; } _exit(r);
}
