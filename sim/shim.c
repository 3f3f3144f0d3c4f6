/* Guest side of the seam: linked into the library image with -Wl,--wrap=<fn> for each
   function below.  Nothing here decides anything: every call goes to the simulator. */
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/uio.h>
#include "simhooks.h"

struct sim_hooks *sim_guest_hooks;
#define H sim_guest_hooks

int __wrap_open(const char *p, int fl, ...) { int m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a);} return H->s_open(p, fl, m); }
int __wrap_open64(const char *p, int fl, ...) { int m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a);} return H->s_open(p, fl, m); }
int __wrap_openat(int d, const char *p, int fl, ...) { int m = 0; (void)d; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a);} return H->s_open(p, fl, m); }
int __wrap_creat(const char *p, mode_t m) { return H->s_open(p, O_CREAT|O_WRONLY|O_TRUNC, m); }
int __wrap_close(int fd) { return H->s_close(fd); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return H->s_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return H->s_write(fd, b, n); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { return H->s_pread(fd, b, n, o); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { return H->s_pwrite(fd, b, n, o); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return H->s_pread(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return H->s_pwrite(fd, b, n, o); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = H->s_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t __wrap_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = H->s_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
off_t __wrap_lseek(int fd, off_t o, int w) { return H->s_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return H->s_lseek(fd, o, w); }
int __wrap_fsync(int fd) { return H->s_fsync(fd); }
int __wrap_fdatasync(int fd) { return H->s_fsync(fd); }
int __wrap_sync_file_range(int fd, off_t a, off_t b, unsigned f) { (void)fd;(void)a;(void)b;(void)f; return 0; }
void __wrap_sync(void) { }
int __wrap_lockf(int fd, int c, off_t l) { return H->s_lockf(fd, c, l); }
int __wrap_lockf64(int fd, int c, off_t l) { return H->s_lockf(fd, c, l); }
int __wrap_fcntl(int fd, int c, ...) { va_list a; va_start(a, c); void *p = va_arg(a, void *); va_end(a); return H->s_fcntl(fd, c, p); }
int __wrap_fcntl64(int fd, int c, ...) { va_list a; va_start(a, c); void *p = va_arg(a, void *); va_end(a); return H->s_fcntl(fd, c, p); }
int __wrap_ftruncate(int fd, off_t l) { return H->s_ftruncate(fd, l); }
int __wrap_ftruncate64(int fd, off_t l) { return H->s_ftruncate(fd, l); }
int __wrap_truncate(const char *p, off_t l) { return H->s_truncate(p, l); }
int __wrap_stat(const char *p, struct stat *s) { return H->s_stat(p, s); }
int __wrap_stat64(const char *p, struct stat *s) { return H->s_stat(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { return H->s_stat(p, s); }
int __wrap_fstat(int fd, struct stat *s) { return H->s_fstat(fd, s); }
int __wrap_fstat64(int fd, struct stat *s) { return H->s_fstat(fd, s); }
int __wrap_access(const char *p, int m) { return H->s_access(p, m); }
char *__wrap_realpath(const char *p, char *r) { return H->s_realpath(p, r); }
int __wrap_unlink(const char *p) { return H->s_unlink(p); }
int __wrap_remove(const char *p) { return H->s_unlink(p); }
int __wrap_rename(const char *a, const char *b) { return H->s_rename(a, b); }
int __wrap_mkstemp(char *t) { return H->s_mkstemp(t); }
int __wrap_usleep(useconds_t us) { return H->s_usleep(us); }
unsigned __wrap_sleep(unsigned s) { H->s_usleep((unsigned long)s * 1000000UL); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)b; return H->s_usleep((unsigned long)a->tv_sec * 1000000UL + a->tv_nsec / 1000); }
int __wrap_clock_nanosleep(int c, int f, const struct timespec *a, struct timespec *b) { (void)c;(void)f;(void)b; return H->s_usleep((unsigned long)a->tv_sec * 1000000UL + a->tv_nsec / 1000); }
int __wrap_sched_yield(void) { return H->s_usleep(1); }
int __wrap_clock_gettime(int c, struct timespec *t) { return H->s_clock_gettime(c, t); }
time_t __wrap_time(time_t *t) { struct timespec s; H->s_clock_gettime(0, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
int __wrap_gettimeofday(struct timeval *t, void *z) { struct timespec s; (void)z; H->s_clock_gettime(0, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
clock_t __wrap_clock(void) { struct timespec s; H->s_clock_gettime(1, &s); return s.tv_sec * 1000000L + s.tv_nsec / 1000; }
int __wrap_getpid(void) { return H->s_getpid(); }
char *__wrap_getenv(const char *n) { return H->s_getenv(n); }
void *__wrap_malloc(size_t n) { return H->s_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return H->s_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return H->s_realloc(p, n); }
void __wrap_free(void *p) { H->s_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = H->s_malloc(n); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = H->s_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void __wrap_exit(int c) { (void)c; H->s_die("exit"); }
void __wrap__exit(int c) { (void)c; H->s_die("_exit"); }
void __wrap_abort(void) { H->s_die("abort"); }
void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *fn) { (void)f;(void)l;(void)fn; H->s_die(a); }
void __wrap___stack_chk_fail(void) { H->s_die("stack smashing detected"); }
int __wrap_rand(void) { return H->s_rand(); }
long __wrap_random(void) { return H->s_rand(); }
void __wrap_srand(unsigned s) { (void)s; }
int __wrap_system(const char *c) { (void)c; return -1; }

FILE *__wrap_fopen(const char *p, const char *m) { return (FILE *)H->s_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return (FILE *)H->s_fopen(p, m); }
FILE *__wrap_fdopen(int fd, const char *m) { return (FILE *)H->s_fdopen(fd, m); }
int __wrap_fclose(FILE *f) { return H->s_fclose(f); }
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) { return H->s_fread(p, s, n, f); }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { return H->s_fwrite(p, s, n, f); }
char *__wrap_fgets(char *b, int n, FILE *f) { return H->s_fgets(b, n, f); }
int __wrap_fgetc(FILE *f) { return H->s_fgetc(f); }
int __wrap_getc(FILE *f) { return H->s_fgetc(f); }
int __wrap_feof(FILE *f) { return H->s_feof(f); }
int __wrap_ferror(FILE *f) { return H->s_ferror(f); }
int __wrap_fflush(FILE *f) { return H->s_fflush(f); }
int __wrap_fseek(FILE *f, long o, int w) { return H->s_fseek(f, o, w); }
int __wrap_fseeko(FILE *f, off_t o, int w) { return H->s_fseek(f, (long)o, w); }
void __wrap_rewind(FILE *f) { H->s_fseek(f, 0, SEEK_SET); }
long __wrap_ftell(FILE *f) { return H->s_ftell(f); }
int __wrap_fileno(FILE *f) { return H->s_fileno(f); }
int __wrap_fputs(const char *s, FILE *f) { H->s_fwrite(s, 1, strlen(s), f); return 1; }
int __wrap_fputc(int c, FILE *f) { char b = (char)c; return H->s_fwrite(&b, 1, 1, f) == 1 ? (unsigned char)c : -1; }
int __wrap_putc(int c, FILE *f) { return __wrap_fputc(c, f); }
int __wrap_putchar(int c) { char b[2] = {(char)c, 0}; H->s_console(b); return c; }
int __wrap_puts(const char *s) { H->s_console(s); H->s_console("\n"); return 1; }
void __wrap_perror(const char *s) { H->s_console(s ? s : ""); }
int __wrap_vprintf(const char *f, va_list a) { char b[4096]; int n = vsnprintf(b, sizeof b, f, a); H->s_console(b); return n; }
int __wrap_printf(const char *f, ...) { va_list a; va_start(a, f); int n = __wrap_vprintf(f, a); va_end(a); return n; }
int __wrap_vfprintf(FILE *fp, const char *f, va_list a) { char b[4096]; int n = vsnprintf(b, sizeof b, f, a); if (n > 0) H->s_fwrite(b, 1, (size_t)n < sizeof b ? (size_t)n : sizeof b - 1, fp); return n; }
int __wrap_fprintf(FILE *fp, const char *f, ...) { va_list a; va_start(a, f); int n = __wrap_vfprintf(fp, f, a); va_end(a); return n; }
int __wrap_dprintf(int fd, const char *f, ...) { char b[4096]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); if (n > 0) H->s_write(fd, b, (size_t)n < sizeof b ? (size_t)n : sizeof b - 1); return n; }
