// Native replayer: loads the harness library and runs one entry over recorded
// inputs, with the sym_* functions reading the recording.
//   replay [-v] LIB ENTRY CASE...      runs every case in a child of its own
// Prints one line per case: "<case>\t<verdict>\t<observations>".
// verdicts: OK, ASSUME (inputs do not satisfy an assumption), ASSERT <id>,
// SIGNAL <n>, TIMEOUT, SHORT (recording exhausted), MISMATCH
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

typedef struct { int kind; unsigned char *b; size_t n; unsigned c, of; } item;
static item *items;
static size_t n_items, pos;
static int out_fd = 1;
static int verbose;

static void finish(const char *v, unsigned id) {
  char buf[64];
  int k = snprintf(buf, sizeof buf, "\n%s %u\n", v, id);
  if (write(out_fd, buf, k) < 0) {}
  _exit(0);
}

static item *next(int kind) {
  if (pos >= n_items) finish("SHORT", 0);
  item *i = &items[pos++];
  if (i->kind != kind) finish("MISMATCH", pos);
  return i;
}

void sym_bytes(unsigned char *p, size_t n) {
  item *i = next('b');
  if (i->n != n) finish("MISMATCH", pos);
  memcpy(p, i->b, n);
}
uint32_t sym_choice(uint32_t n) {
  item *i = next('c');
  if (i->of != n || i->c >= n) finish("MISMATCH", pos);
  return i->c;
}
void sym_assume(_Bool c) { if (!c) finish("ASSUME", 0); }
void sym_assert(_Bool c, uint32_t id) { if (!c) finish("ASSERT", id); }
void sym_fail(uint32_t id) { finish("ASSERT", id); }
void sym_reach(uint32_t id) { (void)id; }
uint64_t sym_concretize(uint64_t x) { return x; }
void sym_observe(const unsigned char *p, size_t n) {
  static const char h[] = "0123456789abcdef";
  if (write(out_fd, " ", 1) < 0) {}
  for (size_t i = 0; i < n; i++) {
    char b[2] = {h[p[i] >> 4], h[p[i] & 15]};
    if (write(out_fd, b, 2) < 0) {}
  }
}

static int load(const char *path) {
  FILE *f = fopen(path, "r");
  if (!f) return -1;
  size_t cap = 0;
  items = 0; n_items = 0; pos = 0;
  char *line = 0; size_t lc = 0; ssize_t k;
  while ((k = getline(&line, &lc, f)) > 0) {
    if (line[0] != 'b' && line[0] != 'c') continue;
    if (n_items == cap) { cap = cap ? cap * 2 : 64; items = realloc(items, cap * sizeof *items); }
    item *i = &items[n_items++];
    memset(i, 0, sizeof *i);
    i->kind = line[0];
    if (line[0] == 'c') {
      if (sscanf(line + 1, "%u %u", &i->of, &i->c) != 2) return -1;
    } else {
      char *p = line + 1;
      while (*p == ' ') p++;
      size_t n = strspn(p, "0123456789abcdef") / 2;
      i->n = n; i->b = malloc(n + 1);
      for (size_t j = 0; j < n; j++) { unsigned x; sscanf(p + 2 * j, "%2x", &x); i->b[j] = x; }
    }
  }
  free(line);
  fclose(f);
  return 0;
}

int main(int argc, char **argv) {
  int a = 1, nofork = 0;
  while (a < argc && argv[a][0] == '-') {
    if (!strcmp(argv[a], "-v")) verbose = 1;
    if (!strcmp(argv[a], "-1")) nofork = 1;
    a++;
  }
  if (argc - a < 3) { fprintf(stderr, "usage: replay [-v] [-1] LIB ENTRY CASE...\n"); return 2; }
  void *h = dlopen(argv[a], RTLD_NOW);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  void (*entry)(void) = (void (*)(void))dlsym(h, argv[a + 1]);
  if (!entry) { fprintf(stderr, "no entry %s\n", argv[a + 1]); return 2; }
  struct rlimit no_core = {0, 0};
  setrlimit(RLIMIT_CORE, &no_core);
  for (int i = a + 2; i < argc; i++) {
    if (load(argv[i]) < 0) { printf("%s\tUNREADABLE\t\n", argv[i]); continue; }
    if (nofork) { entry(); printf("%s\tOK\t\n", argv[i]); continue; }
    int pp[2];
    if (pipe(pp)) return 2;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(pp[0]);
      out_fd = pp[1];
      if (!verbose && !freopen("/dev/null", "w", stderr)) {}
      alarm(20);
      entry();
      finish("OK", 0);
    }
    close(pp[1]);
    char *obs = 0; size_t n = 0, cap = 0; ssize_t k; char buf[4096];
    while ((k = read(pp[0], buf, sizeof buf)) > 0) {
      if (n + k + 1 > cap) { cap = (n + k + 1) * 2; obs = realloc(obs, cap); }
      memcpy(obs + n, buf, k); n += k;
    }
    close(pp[0]);
    if (!obs) obs = calloc(1, 1);
    obs[n] = 0;
    int st;
    waitpid(pid, &st, 0);
    char *v = strchr(obs, '\n');
    if (WIFSIGNALED(st)) {
      if (v) *v = 0;
      if (WTERMSIG(st) == SIGALRM) printf("%s\tTIMEOUT\t%s\n", argv[i], obs);
      else printf("%s\tSIGNAL %d\t%s\n", argv[i], WTERMSIG(st), obs);
    } else if (v) {
      *v++ = 0;
      v[strcspn(v, "\n")] = 0;
      printf("%s\t%s\t%s\n", argv[i], v, obs);
    } else printf("%s\tEXIT %d\t%s\n", argv[i], WEXITSTATUS(st), obs);
    free(obs);
  }
  return 0;
}
