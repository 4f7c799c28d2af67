/* Preloaded into the experiment program: its request to drop the machine's page cache
   (a system-wide effect) goes to /dev/null, and sync() does nothing. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <spawn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
static const char *redirect(const char *p) {
  return p && strncmp(p, "/proc/sys/", 10) == 0 ? "/dev/null" : p;
}
#define OPEN(name) \
  int name(const char *p, int flags, ...) { \
    static int (*real)(const char *, int, ...); \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); \
    return real(redirect(p), flags, mode); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
  int name(int d, const char *p, int flags, ...) { \
    static int (*real)(int, const char *, int, ...); \
    if (!real) real = dlsym(RTLD_NEXT, #name); \
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); \
    return real(d, redirect(p), flags, mode); }
OPENAT(openat)
OPENAT(openat64)
void sync(void) {}
/* progress bars start tput on every update to learn the terminal's width */
int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *fa,
                 const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  static int (*real)(pid_t *, const char *, const posix_spawn_file_actions_t *,
                     const posix_spawnattr_t *, char *const[], char *const[]);
  if (file && strcmp(file, "tput") == 0) return ENOENT;
  if (!real) real = dlsym(RTLD_NEXT, "posix_spawnp");
  return real(pid, file, fa, at, argv, envp);
}
