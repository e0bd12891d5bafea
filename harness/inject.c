/* Preloaded: raises a signal before the n-th call of one of the wrapped library functions.
   INJECT_SIG, INJECT_AT (0 = never), INJECT_KIND: "io" counts only calls on files; the totals go to the file INJECT_COUNT,
   and the size of the standard output at the signal to the file INJECT_MARK.  Calls count once a handler for SIGINT is set. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>

static long n_io, n_all, at, again, more;
static int started, on;
static int sig, io_only;

static void init(void) {
  const char *s;
  if (started) return;
  started = 1;
  if ((s = getenv("INJECT_AT"))) at = atol(s);
  if ((s = getenv("INJECT_AGAIN"))) again = atol(s);
  if ((s = getenv("INJECT_MORE"))) more = atol(s);     /* at so many calls after that one, too */
  if ((s = getenv("INJECT_SIG"))) sig = atoi(s);
  if ((s = getenv("INJECT_KIND"))) io_only = !strcmp(s, "io");
}

static void put(const char *var, long a, long b) {
  const char *s = getenv(var);
  char t[64];
  int f, k;
  if (!s) return;
  k = snprintf(t, sizeof t, "%ld %ld\n", a, b);
  f = open(s, O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (f >= 0) { if (write(f, t, k) != k) {} close(f); }
}

static void tick(int io) {
  if (!on) return;
  n_all++;
  n_io += io;
  if (io_only && !io) return;
  long n = io_only ? n_io : n_all;
  if ((at && n == at) || (again && n >= again && n <= again + more)) {
    struct stat st;
    static int (*flush)(FILE *);
    flush = (int (*)(FILE *)) dlsym(RTLD_NEXT, "fflush");
    if (fstat(1, &st))
      st.st_size = 1L << 40;          /* closed: all was written */
    else {
      flush(stdout);
      fstat(1, &st);
    }
    put("INJECT_MARK", n_all, (long) st.st_size);
    kill(getpid(), sig);
  }
}

__attribute__((destructor)) static void done(void) { put("INJECT_COUNT", n_all, n_io); }

#define REAL(ret, name, args) static ret (*real) args; if (!real) real = (ret (*) args) dlsym(RTLD_NEXT, #name)

typedef void (*handler)(int);
handler signal(int k, handler h) {
  REAL(handler, signal, (int, handler));
  handler r = real(k, h);
  if (k == SIGINT) { init(); on = 1; }
  return r;
}
int sigaction(int k, const struct sigaction *a, struct sigaction *o) {
  REAL(int, sigaction, (int, const struct sigaction *, struct sigaction *));
  int r = real(k, a, o);
  if (k == SIGINT && a) { init(); on = 1; }
  return r;
}
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, (const char *, const char *)); tick(1); return real(p, m); }
int fclose(FILE *f) { REAL(int, fclose, (FILE *)); tick(1); return real(f); }
int fflush(FILE *f) { REAL(int, fflush, (FILE *)); tick(1); return real(f); }
int rename(const char *a, const char *b) { REAL(int, rename, (const char *, const char *)); tick(1); return real(a, b); }
int unlink(const char *a) { REAL(int, unlink, (const char *)); tick(1); return real(a); }
int remove(const char *a) { REAL(int, remove, (const char *)); tick(1); return real(a); }
int fprintf(FILE *f, const char *fmt, ...) {
  va_list ap; int r;
  tick(1);
  va_start(ap, fmt); r = vfprintf(f, fmt, ap); va_end(ap);
  return r;
}
int __fprintf_chk(FILE *f, int flag, const char *fmt, ...) {
  va_list ap; int r;
  tick(1);
  va_start(ap, fmt); r = vfprintf(f, fmt, ap); va_end(ap);
  return r;
}
extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
void *malloc(size_t n) { if (on) tick(0); return __libc_malloc(n); }
void free(void *p) { if (on) tick(0); __libc_free(p); }
