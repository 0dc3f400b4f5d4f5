/* LD_PRELOAD schedule perturbation: random delays around file opens and reads
 * and a shuffled readdir order, driven by PERTURB_SEED. Used to make the thread
 * pools of the program under test interleave differently from run to run. It
 * never changes the data a call returns. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static void log_open(const char *p);
static uint64_t base_seed;
static long max_us = 1500;
static atomic_ulong counter;
static int enabled;
static int log_fd = -1;

__attribute__((constructor)) static void init(void) {
  const char *s = getenv("PERTURB_SEED");
  if (s && *s) {
    enabled = 1;
    base_seed = strtoull(s, NULL, 10) * 0x9E3779B97F4A7C15ull + 1;
  }
  s = getenv("PERTURB_MAX_US");
  if (s && *s) max_us = atol(s);
  s = getenv("PERTURB_LOG");
  if (s && *s) log_fd = open(s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}
/* Records the order in which files were opened, for the evidence: a run's
 * interleaving is the sequence of these lines. */
static void log_open(const char *p) {
  if (log_fd < 0 || !p) return;
  size_t n = strlen(p);
  if (n < 5 || (strcmp(p + n - 5, ".yaml") && strcmp(p + n - 4, ".yml") && strcmp(p + n - 3, ".j2"))) return;
  char buf[600];
  if (n > 500) { p += n - 500; n = 500; }
  memcpy(buf, p, n); buf[n] = '\n';
  ssize_t r = write(log_fd, buf, n + 1); (void)r;
}

static uint64_t mix(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27; x *= 0x94d049bb133111ebull;
  x ^= x >> 31; return x;
}
static uint64_t nextr(void) {
  return mix(base_seed + atomic_fetch_add(&counter, 1) * 0x9E3779B97F4A7C15ull);
}
static void maybe_delay(void) {
  if (!enabled) return;
  uint64_t r = nextr();
  if ((r & 3) == 0) return;
  struct timespec ts = {0, (long)((r >> 8) % (uint64_t)(max_us * 1000 + 1))};
  nanosleep(&ts, NULL);
}

#define REAL(name, type) \
  static type real; \
  if (!real) real = (type)dlsym(RTLD_NEXT, name)

typedef int (*open_t)(const char *, int, ...);
int open64(const char *p, int f, ...) {
  REAL("open64", open_t);
  va_list ap; va_start(ap, f); mode_t m = va_arg(ap, int); va_end(ap);
  maybe_delay();
  log_open(p);
  return real(p, f, m);
}
int open(const char *p, int f, ...) {
  REAL("open", open_t);
  va_list ap; va_start(ap, f); mode_t m = va_arg(ap, int); va_end(ap);
  maybe_delay();
  log_open(p);
  return real(p, f, m);
}
typedef ssize_t (*read_t)(int, void *, size_t);
ssize_t read(int fd, void *b, size_t n) {
  REAL("read", read_t);
  if (n > 64) maybe_delay();
  return real(fd, b, n);
}

/* readdir shuffle */
#define MAXD 64
struct dirbuf { DIR *d; struct dirent64 **e; size_t n, i; };
static struct dirbuf bufs[MAXD];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
typedef struct dirent64 *(*readdir64_t)(DIR *);
typedef int (*closedir_t)(DIR *);

static struct dirent64 *shuffled(DIR *d, readdir64_t real) {
  pthread_mutex_lock(&mu);
  struct dirbuf *b = NULL, *fr = NULL;
  for (int i = 0; i < MAXD; i++) {
    if (bufs[i].d == d) { b = &bufs[i]; break; }
    if (!bufs[i].d && !fr) fr = &bufs[i];
  }
  if (!b) {
    if (!fr) { pthread_mutex_unlock(&mu); return real(d); }
    b = fr; b->d = d; b->e = NULL; b->n = b->i = 0;
    size_t cap = 0; struct dirent64 *x;
    while ((x = real(d))) {
      if (b->n == cap) { cap = cap ? cap * 2 : 32; b->e = realloc(b->e, cap * sizeof *b->e); }
      struct dirent64 *c = malloc(sizeof *c);
      memset(c, 0, sizeof *c);
      memcpy(c, x, x->d_reclen < sizeof *c ? x->d_reclen : sizeof *c);
      b->e[b->n++] = c;
    }
    for (size_t i = b->n; i > 1; i--) {
      size_t j = nextr() % i; struct dirent64 *t = b->e[i-1]; b->e[i-1] = b->e[j]; b->e[j] = t;
    }
  }
  struct dirent64 *r = b->i < b->n ? b->e[b->i++] : NULL;
  pthread_mutex_unlock(&mu);
  return r;
}
struct dirent64 *readdir64(DIR *d) {
  REAL("readdir64", readdir64_t);
  if (!enabled) return real(d);
  return shuffled(d, real);
}
int closedir(DIR *d) {
  REAL("closedir", closedir_t);
  pthread_mutex_lock(&mu);
  for (int i = 0; i < MAXD; i++) if (bufs[i].d == d) {
    for (size_t k = 0; k < bufs[i].n; k++) free(bufs[i].e[k]);
    free(bufs[i].e); bufs[i].d = NULL; bufs[i].e = NULL;
  }
  pthread_mutex_unlock(&mu);
  return real(d);
}
