/* Interface between the guest library image (heclib + hecdss + zlib, linked with
   --wrap so that every libc call that touches the outside world lands in shim.c)
   and the host simulator.  Plain C, shared by both sides. */
#ifndef SIMHOOKS_H
#define SIMHOOKS_H
#include <stddef.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#endif
struct sim_hooks {
  int (*s_open)(const char *path, int flags, int mode);
  int (*s_close)(int fd);
  ssize_t (*s_read)(int fd, void *buf, size_t n);
  ssize_t (*s_write)(int fd, const void *buf, size_t n);
  ssize_t (*s_pread)(int fd, void *buf, size_t n, off_t off);
  ssize_t (*s_pwrite)(int fd, const void *buf, size_t n, off_t off);
  off_t (*s_lseek)(int fd, off_t off, int wh);
  int (*s_fsync)(int fd);
  int (*s_lockf)(int fd, int cmd, off_t len);
  int (*s_fcntl)(int fd, int cmd, void *arg);
  int (*s_ftruncate)(int fd, off_t len);
  int (*s_truncate)(const char *path, off_t len);
  int (*s_stat)(const char *path, struct stat *st);
  int (*s_fstat)(int fd, struct stat *st);
  int (*s_access)(const char *path, int mode);
  char *(*s_realpath)(const char *path, char *resolved);
  int (*s_unlink)(const char *path);
  int (*s_rename)(const char *a, const char *b);
  int (*s_mkstemp)(char *tmpl);
  int (*s_usleep)(unsigned long us);
  int (*s_clock_gettime)(int clk, struct timespec *ts);
  int (*s_getpid)(void);
  char *(*s_getenv)(const char *name);
  void *(*s_malloc)(size_t n);
  void *(*s_calloc)(size_t a, size_t b);
  void *(*s_realloc)(void *p, size_t n);
  void (*s_free)(void *p);
  void (*s_die)(const char *why);
  int (*s_rand)(void);
  void *(*s_fopen)(const char *path, const char *mode);
  void *(*s_fdopen)(int fd, const char *mode);
  int (*s_fclose)(void *f);
  size_t (*s_fread)(void *p, size_t s, size_t n, void *f);
  size_t (*s_fwrite)(const void *p, size_t s, size_t n, void *f);
  char *(*s_fgets)(char *b, int n, void *f);
  int (*s_fgetc)(void *f);
  int (*s_feof)(void *f);
  int (*s_ferror)(void *f);
  int (*s_fflush)(void *f);
  int (*s_fseek)(void *f, long off, int wh);
  long (*s_ftell)(void *f);
  int (*s_fileno)(void *f);
  void (*s_console)(const char *text);
};
#ifdef __cplusplus
}
#endif
#endif
