/* Uses the C interface: cmds OUT < commands, one per line, fields separated by tabs.
     run thread outdir distance factor ptweight algorithm radius min_pt search max_cell_size infile...
     err thread buflen
     print thread
     log thread variable
   Commands of each thread are executed by a thread of their own, one after the other.
   Writes one line in JSON format for each of them. Distances: none, id, inv, px. */
#define _GNU_SOURCE
#include "cres.h"
#include <math.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define MAXSEEN 4096
#define PAD 64
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static uintptr_t ids[MAXSEEN];
static char *seen[MAXSEEN];
static int nseen;
static const char *mode;
static FILE *out;

static char *show(const EventView *e) {
  char *s = NULL;
  size_t n;
  FILE *f = open_memstream(&s, &n);
  fprintf(f, "{\"id\": %zu, \"w\": [", (size_t)e->id);
  for (uintptr_t i = 0; i < e->n_weights; ++i) fprintf(f, "%s\"%.17g\"", i ? ", " : "", e->weights[i]);
  fprintf(f, "], \"out\": [");
  int k = 0;
  for (uintptr_t t = 0; t < e->n_type_sets; ++t)
    for (uintptr_t i = 0; i < e->type_sets[t].n_momenta; ++i) {
      const double *p = e->type_sets[t].momenta[i];
      fprintf(f, "%s[\"%d\", \"%.17g\", \"%.17g\", \"%.17g\", \"%.17g\"]", k++ ? ", " : "", e->type_sets[t].pid, p[0], p[1], p[2], p[3]);
    }
  fprintf(f, "]}");
  fclose(f);
  return s;
}

static double px(const EventView *e) {
  double s = 0;
  for (uintptr_t t = 0; t < e->n_type_sets; ++t)
    for (uintptr_t i = 0; i < e->type_sets[t].n_momenta; ++i) s += e->type_sets[t].momenta[i][1];
  return s;
}

static double distance(void *data, const EventView *a, const EventView *b) {
  const EventView *both[] = {a, b};
  pthread_mutex_lock(&mx);
  for (int i = 0; i < 2; ++i) {
    int k = 0;
    while (k < nseen && ids[k] != both[i]->id) ++k;
    if (k == nseen && nseen < MAXSEEN) {
      ids[nseen] = both[i]->id;
      seen[nseen++] = show(both[i]);
    }
  }
  pthread_mutex_unlock(&mx);
  double f = *(const double *)data, i = a->id, j = b->id, d = fabs(i * (i + 1) - j * (j + 1));
  if (!strcmp(mode, "id")) return f * d;
  if (!strcmp(mode, "inv")) return d == 0 ? 0 : f * (2000 - d);
  return f * fabs(px(a) - px(b));
}

static void run(char **f, int n) {
  Opt o;
  double factor = atof(f[4]);
  DistanceFn d = {.fun = distance, .data = &factor};
  mode = f[3];
  nseen = 0;
  o.outdir = f[2];
  o.distance = strcmp(mode, "none") ? &d : NULL;
  o.ptweight = atof(f[5]);
  o.jet_def.algorithm = !strcmp(f[6], "antikt") ? AntiKt : !strcmp(f[6], "kt") ? Kt : CambridgeAachen;
  o.jet_def.radius = atof(f[7]);
  o.jet_def.min_pt = atof(f[8]);
  o.neighbour_search = !strcmp(f[9], "naive") ? Naive : Tree;
  o.max_cell_size = !strcmp(f[10], "inf") ? INFINITY : atof(f[10]);
  o.infiles = f + 11;
  o.n_infiles = n - 11;
  int r = cres_run(&o);
  fprintf(out, "{\"op\": \"run\", \"ret\": %d, \"seen\": [", r);
  for (int i = 0; i < nseen; ++i) {
    fprintf(out, "%s%s", i ? ", " : "", seen[i]);
    free(seen[i]);
  }
  fprintf(out, "]}\n");
}

static void err(size_t n) {
  unsigned char *b = malloc(n + 2 * PAD);
  memset(b, 0x55, n + 2 * PAD);
  int r = cres_get_last_err(n ? (char *)b + PAD : NULL, n);
  size_t clean = 1, touched = 0;
  for (size_t i = 0; i < PAD; ++i) clean &= b[i] == 0x55 && b[PAD + n + i] == 0x55;
  for (size_t i = 0; i < n; ++i) touched |= b[PAD + i] != 0x55;
  long nul = -1;
  for (size_t i = 0; i < n && nul < 0; ++i)
    if (!b[PAD + i]) nul = i;
  fprintf(out, "{\"op\": \"err\", \"n\": %zu, \"ret\": %d, \"nul\": %ld, \"clean\": %s, \"touched\": %s, \"msg\": [", n, r, nul,
          clean ? "true" : "false", touched ? "true" : "false");
  for (long i = 0; i < nul; ++i) fprintf(out, "%s%d", i ? "," : "", b[PAD + i]);
  fprintf(out, "]}\n");
  free(b);
}

static void print(void) {
  fflush(stderr);
  int save = dup(2), ch, k = 0;
  FILE *t = tmpfile();
  dup2(fileno(t), 2);
  cres_print_last_err();
  dup2(save, 2);
  close(save);
  rewind(t);
  fprintf(out, "{\"op\": \"print\", \"msg\": [");
  while ((ch = fgetc(t)) != EOF) fprintf(out, "%s%d", k++ ? "," : "", ch);
  fprintf(out, "]}\n");
  fclose(t);
}

struct worker {
  pthread_t t;
  pthread_mutex_t m;
  pthread_cond_t c;
  char **f;
  int n, todo, quit, started;
} ws[8];

static void *work(void *p) {
  struct worker *w = p;
  pthread_mutex_lock(&w->m);
  for (;;) {
    while (!w->todo) pthread_cond_wait(&w->c, &w->m);
    if (w->quit) break;
    if (!strcmp(w->f[0], "run")) run(w->f, w->n);
    else if (!strcmp(w->f[0], "err")) err(strtoul(w->f[2], NULL, 10));
    else if (!strcmp(w->f[0], "log")) fprintf(out, "{\"op\": \"log\", \"ret\": %d}\n", cres_logger_from_env(w->f[2]));
    else print();
    fflush(out);
    w->todo = 0;
    pthread_cond_signal(&w->c);
  }
  pthread_mutex_unlock(&w->m);
  return NULL;
}

int main(int argc, char **argv) {
  if (argc < 2 || !(out = fopen(argv[1], "w"))) return 64;
  char *line = NULL;
  size_t cap = 0;
  ssize_t len;
  while ((len = getline(&line, &cap, stdin)) > 0) {
    if (line[len - 1] == '\n') line[len - 1] = 0;
    char *f[256];
    int n = 0;
    for (char *p = strtok(line, "\t"); p && n < 255; p = strtok(NULL, "\t")) f[n++] = p;
    f[n] = NULL;
    struct worker *w = ws + atoi(f[1]);
    if (!w->started) {
      w->started = 1;
      pthread_mutex_init(&w->m, NULL);
      pthread_cond_init(&w->c, NULL);
      pthread_create(&w->t, NULL, work, w);
    }
    pthread_mutex_lock(&w->m);
    w->f = f;
    w->n = n;
    w->todo = 1;
    pthread_cond_signal(&w->c);
    while (w->todo) pthread_cond_wait(&w->c, &w->m);
    pthread_mutex_unlock(&w->m);
  }
  fclose(out);
  _Exit(0);
}
