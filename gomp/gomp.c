/* Replacement for the part of libgomp's ABI that compiled OpenMP code uses, so that ThreadSanitizer sees every
 * synchronisation (the system libgomp is not instrumented and would cause false reports and hide real ones).
 * A team is a set of fresh pthreads: fork and join are pthread_create/pthread_join, critical sections are mutexes,
 * barriers are built from mutex + condition variable. Random delays and yields (seeded by vh_gomp_seed) perturb the order in which threads
 * start, enter critical sections and fetch loop chunks; the observed orders are hashed for the evidence. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

struct ws { int kind, arrived, left; long next, end, incr, chunk; unsigned long long unext, uend, uincr, uchunk; bool up; void* copy; bool copied; struct ws* nx; int id; };
struct team { void (*fn)(void*); void* data; unsigned n; pthread_mutex_t m; pthread_cond_t c; unsigned waiting, gen; struct ws* list; uint64_t order; };
struct me { struct team* t; unsigned id; int wsn; uint64_t rng; };
static __thread struct me self;
static unsigned default_threads = 4;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, namem = PTHREAD_MUTEX_INITIALIZER, stat = PTHREAD_MUTEX_INITIALIZER, seedm = PTHREAD_MUTEX_INITIALIZER;
static uint64_t seed = 1; static int level = 1;
/* statistics use relaxed atomics: a lock here would order the threads and hide races from ThreadSanitizer */
static uint64_t regions, threads_run, criticals, delays;
#define NORD 65536
static uint64_t orders[NORD]; static unsigned norders;

static uint64_t nx(uint64_t* s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
void vh_gomp_seed(uint64_t s, int lv) { pthread_mutex_lock(&seedm); seed = s; level = lv; pthread_mutex_unlock(&seedm); }
void vh_gomp_stats(uint64_t* out) { pthread_mutex_lock(&stat); out[0] = regions; out[1] = threads_run; out[2] = __atomic_load_n(&criticals, __ATOMIC_RELAXED); out[3] = __atomic_load_n(&delays, __ATOMIC_RELAXED); out[4] = norders; pthread_mutex_unlock(&stat); }
static void wobble(int p) {   /* p: percent chance of a longer delay */
    if (!self.t || self.t->n < 2) return;
    uint64_t r = nx(&self.rng); unsigned k = r % 100;
    if (k < (unsigned)(p * level)) { struct timespec ts = {0, (long)((r >> 20) % (level > 1 ? 400000 : 60000))}; nanosleep(&ts, 0); __atomic_fetch_add(&delays, 1, __ATOMIC_RELAXED); }
    else if (k < 50) sched_yield();
}
static void note_order(unsigned id) { self.t->order = (self.t->order ^ (id + 1)) * 1099511628211ull; }
static void* body(void* a) { self = *(struct me*)a; wobble(20); self.t->fn(self.t->data); wobble(5); return 0; }

static void run_team(void (*fn)(void*), void* data, unsigned n) {
    struct me save = self;
    if (n == 0) n = default_threads;
    if (n > 64) n = 64;
    if (save.t && save.t->n > 1) n = 1;
    struct team t; memset(&t, 0, sizeof t); t.fn = fn; t.data = data; t.n = n; pthread_mutex_init(&t.m, 0); pthread_cond_init(&t.c, 0); t.order = 1469598103934665603ull;
    struct me m[64]; pthread_t th[64];
    uint64_t s; pthread_mutex_lock(&seedm); s = nx(&seed); pthread_mutex_unlock(&seedm);
    for (unsigned i = 0; i < n; i++) { memset(&m[i], 0, sizeof m[i]); m[i].t = &t; m[i].id = i; m[i].rng = s ^ (i * 0x1234567u + 99); }
    bool rev = nx(&s) & 1;
    for (unsigned j = 1; j < n; j++) { unsigned i = rev ? n - j : j; while (pthread_create(&th[i], 0, body, &m[i])) sched_yield(); }
    self = m[0]; wobble(20); fn(data); wobble(5);
    for (unsigned i = 1; i < n; i++) pthread_join(th[i], 0);
    self = save;
    while (t.list) { struct ws* w = t.list; t.list = w->nx; free(w); }
    pthread_mutex_destroy(&t.m); pthread_cond_destroy(&t.c);
    pthread_mutex_lock(&stat); regions++; threads_run += n;
    if (n > 1) { uint64_t h = t.order * 31 + n; unsigned k; for (k = 0; k < norders && orders[k] != h; k++) {} if (k == norders && norders < NORD && norders < 4000) orders[norders++] = h; }
    pthread_mutex_unlock(&stat);
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned flags) { (void)flags; run_team(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned flags) { (void)flags; run_team(fn, data, n); return n; }

static void barrier(void) {
    struct team* t = self.t; if (!t || t->n < 2) return; wobble(10);
    pthread_mutex_lock(&t->m); unsigned g = t->gen; if (++t->waiting == t->n) { t->waiting = 0; t->gen++; pthread_cond_broadcast(&t->c); } else while (t->gen == g) pthread_cond_wait(&t->c, &t->m); pthread_mutex_unlock(&t->m);
}
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
void GOMP_critical_start(void) { wobble(30); pthread_mutex_lock(&crit); if (self.t) { note_order(self.id); } __atomic_fetch_add(&criticals, 1, __ATOMIC_RELAXED); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); wobble(10); }
void GOMP_critical_name_start(void** p) { wobble(30); pthread_mutex_lock(&namem); if (!*p) { pthread_mutex_t* m = malloc(sizeof *m); pthread_mutex_init(m, 0); *p = m; } pthread_mutex_t* m = *p; pthread_mutex_unlock(&namem); pthread_mutex_lock(m); __atomic_fetch_add(&criticals, 1, __ATOMIC_RELAXED); }
void GOMP_critical_name_end(void** p) { pthread_mutex_lock(&namem); pthread_mutex_t* m = *p; pthread_mutex_unlock(&namem); pthread_mutex_unlock(m); wobble(10); }
void GOMP_atomic_start(void) { wobble(3); pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }

/* work sharing */
static struct team solo; static pthread_once_t solo_once = PTHREAD_ONCE_INIT;
static void solo_init(void) { pthread_mutex_init(&solo.m, 0); pthread_cond_init(&solo.c, 0); solo.n = 1; }
static struct team* team(void) { if (!self.t) { pthread_once(&solo_once, solo_init); self.t = &solo; self.id = 0; self.wsn = 0; } return self.t; }
static struct ws* get_ws(bool* first) {      /* team mutex held */
    struct team* t = self.t; int id = self.wsn++; struct ws* w; for (w = t->list; w; w = w->nx) if (w->id == id) { *first = false; return w; }
    w = calloc(1, sizeof *w); w->id = id; w->nx = t->list; t->list = w; *first = true; return w;
}
static __thread struct ws* cur;
static bool take(long* a, long* b) {
    struct team* t = team(); struct ws* w = cur; wobble(10); pthread_mutex_lock(&t->m); bool ok = w->incr > 0 ? w->next < w->end : w->next > w->end;
    if (ok) { long e = w->next + w->chunk * w->incr; if (w->incr > 0 ? (e > w->end || e < w->next) : (e < w->end || e > w->next)) e = w->end; *a = w->next; *b = e; w->next = e; }
    pthread_mutex_unlock(&t->m); return ok;
}
static bool loop_start(long s, long e, long inc, long chunk, long* a, long* b) {
    struct team* t = team(); bool f; pthread_mutex_lock(&t->m); struct ws* w = get_ws(&f); if (f) { w->next = s; w->end = e; w->incr = inc; w->chunk = chunk < 1 ? 1 : chunk; } cur = w; pthread_mutex_unlock(&t->m); return take(a, b);
}
static bool utake(unsigned long long* a, unsigned long long* b) {
    struct team* t = team(); struct ws* w = cur; wobble(10); pthread_mutex_lock(&t->m); bool ok = w->up ? w->unext < w->uend : w->unext > w->uend;
    if (ok) { unsigned long long e = w->unext + w->uchunk * w->uincr; if (w->up ? (e > w->uend || e < w->unext) : (e < w->uend || e > w->unext)) e = w->uend; *a = w->unext; *b = e; w->unext = e; }
    pthread_mutex_unlock(&t->m); return ok;
}
static bool uloop_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long chunk, unsigned long long* a, unsigned long long* b) {
    struct team* t = team(); bool f; pthread_mutex_lock(&t->m); struct ws* w = get_ws(&f); if (f) { w->up = up; w->unext = s; w->uend = e; w->uincr = inc; w->uchunk = chunk < 1 ? 1 : chunk; } cur = w; pthread_mutex_unlock(&t->m); return utake(a, b);
}
#define LOOP(k) \
 bool GOMP_loop_##k##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b); } \
 bool GOMP_loop_##k##_next(long* a, long* b) { return take(a, b); } \
 bool GOMP_loop_ull_##k##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { return uloop_start(up, s, e, i, c, a, b); } \
 bool GOMP_loop_ull_##k##_next(unsigned long long* a, unsigned long long* b) { return utake(a, b); }
#define LOOPR(k) \
 bool GOMP_loop_##k##_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b); } \
 bool GOMP_loop_##k##_next(long* a, long* b) { return take(a, b); } \
 bool GOMP_loop_ull_##k##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) { return uloop_start(up, s, e, i, 1, a, b); } \
 bool GOMP_loop_ull_##k##_next(unsigned long long* a, unsigned long long* b) { return utake(a, b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { barrier(); return false; }
struct pl { void (*fn)(void*); void* data; long s, e, i, c; };
static void pl_body(void* v) { struct pl* p = v; struct team* t = team(); bool f; pthread_mutex_lock(&t->m); struct ws* w = get_ws(&f); if (f) { w->next = p->s; w->end = p->e; w->incr = p->i; w->chunk = p->c < 1 ? 1 : p->c; } cur = w; pthread_mutex_unlock(&t->m); p->fn(p->data); }
#define PLOOP(k) void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned fl) { (void)fl; struct pl p = {fn, d, s, e, i, c}; run_team(pl_body, &p, n); }
#define PLOOPR(k) void GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned fl) { (void)fl; struct pl p = {fn, d, s, e, i, 1}; run_team(pl_body, &p, n); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void) { long a, b; return take(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned fl) { (void)fl; struct pl p = {fn, d, 1, (long)cnt + 1, 1, 1}; run_team(pl_body, &p, n); }
bool GOMP_single_start(void) { struct team* t = team(); bool f; pthread_mutex_lock(&t->m); get_ws(&f); pthread_mutex_unlock(&t->m); return f; }
void* GOMP_single_copy_start(void) { struct team* t = team(); bool f; pthread_mutex_lock(&t->m); struct ws* w = get_ws(&f); cur = w; if (!f) { while (!w->copied) pthread_cond_wait(&t->c, &t->m); } void* r = f ? 0 : w->copy; pthread_mutex_unlock(&t->m); return r; }
void GOMP_single_copy_end(void* d) { struct team* t = team(); pthread_mutex_lock(&t->m); cur->copy = d; cur->copied = true; pthread_cond_broadcast(&t->c); pthread_mutex_unlock(&t->m); barrier(); }
static pthread_mutex_t ordm = PTHREAD_MUTEX_INITIALIZER;
void GOMP_ordered_start(void) { pthread_mutex_lock(&ordm); }
void GOMP_ordered_end(void) { pthread_mutex_unlock(&ordm); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool ifc, unsigned fl, void** dep, int pr, void* det) { (void)ifc; (void)fl; (void)dep; (void)pr; (void)det; if (cpy) { char* b = malloc(sz + al); char* p = (char*)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(p, data); fn(p); free(b); } else fn(data); }
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
bool GOMP_cancel(int w, bool d) { (void)w; (void)d; return false; }
bool GOMP_cancellation_point(int w) { (void)w; return false; }

int omp_get_num_threads(void) { return self.t ? (int)self.t->n : 1; }
int omp_get_thread_num(void) { return self.t ? (int)self.id : 0; }
int omp_get_max_threads(void) { return (int)default_threads; }
void omp_set_num_threads(int n) { if (n > 0) default_threads = n; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return self.t && self.t->n > 1; }
int omp_get_level(void) { return self.t && self.t != &solo; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int d) { (void)d; }
void omp_set_nested(int d) { (void)d; }
int omp_get_nested(void) { return 0; }
int omp_get_thread_limit(void) { return 64; }
void omp_set_max_active_levels(int l) { (void)l; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick(void) { return 1e-9; }
/* omp_lock_t is only four bytes: keep an index into a table */
static pthread_mutex_t locks[4096]; static int nlocks = 1;
void omp_init_lock(int* l) { pthread_mutex_lock(&namem); int k = nlocks < 4095 ? nlocks++ : 4095; pthread_mutex_init(&locks[k], 0); pthread_mutex_unlock(&namem); *l = k; }
void omp_destroy_lock(int* l) { (void)l; }
void omp_set_lock(int* l) { wobble(20); pthread_mutex_lock(&locks[*l]); }
void omp_unset_lock(int* l) { pthread_mutex_unlock(&locks[*l]); }
int omp_test_lock(int* l) { return pthread_mutex_trylock(&locks[*l]) == 0; }
