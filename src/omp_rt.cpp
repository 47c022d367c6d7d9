// A small OpenMP runtime for code compiled by clang (the __kmpc entry points),
// built on pthreads only, so that ThreadSanitizer understands every
// synchronisation and reports exactly the data races of the library.  Team
// size and the split of loop iterations over threads are chosen by the test
// case (any contiguous split is a legal static schedule).
#include <pthread.h>
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <sched.h>
#include "omp_rt.hpp"

int rt_threads = 1; uint64_t rt_seed = 0; long rt_regions = 0;
struct ident;
typedef void (*Micro)(int32_t *, int32_t *, ...);
struct Team
{
    int n; uint64_t seed; pthread_barrier_t bar;
    pthread_mutex_t mu; long phase_done = 0;
    // dynamic loops and single constructs, by order of encounter
    struct Loop { int64_t next, ub, st, chunk; int left; bool up; }; Loop loops[64]; bool loop_init[64]; int singles[256]; int rstate[64]; 
};
static thread_local Team *t_team = nullptr; static thread_local int t_id = 0, t_loop = 0, t_single = 0, t_cur = 0;
static int t_push = 0;
static pthread_mutex_t g_crit = PTHREAD_MUTEX_INITIALIZER;
static uint64_t mx(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
struct Arg { Team *t; int id; Micro f; int argc; void **a; };
static void call(Micro f, int id, int argc, void **av)
{
    int32_t g = id, b = id; void *a[60]; memset(a, 0, sizeof a); memcpy(a, av, sizeof(void *) * argc);
    typedef void (*W)(int32_t *, int32_t *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *,
        void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *);
    if (argc > 40) abort();
    ((W) f)(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23],
        a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31], a[32], a[33], a[34], a[35], a[36], a[37], a[38], a[39]);
}
static void *worker(void *p)
{
    Arg *g = (Arg *) p; Team *ot = t_team; int oi = t_id, ol = t_loop, os = t_single; t_team = g->t; t_id = g->id; t_loop = t_single = 0;
    uint64_t r = mx(g->t->seed + g->id); for (int k = r % 4; k > 0; k--) sched_yield();
    call(g->f, g->id, g->argc, g->a);
    t_team = ot; t_id = oi; t_loop = ol; t_single = os; return nullptr;
}
extern "C" {
void __kmpc_fork_call(ident *, int32_t argc, Micro f, ...)
{
    void *av[60]; va_list ap; va_start(ap, f); for (int i = 0; i < argc; i++) av[i] = va_arg(ap, void *); va_end(ap);
    int n = t_team ? 1 : t_push ? t_push : rt_threads; t_push = 0; if (n < 1) n = 1;
    Team *t = (Team *) calloc(1, sizeof(Team)); t->n = n; t->seed = mx(rt_seed + rt_regions++); pthread_barrier_init(&t->bar, 0, n); pthread_mutex_init(&t->mu, 0);
    Arg *g = (Arg *) calloc(n, sizeof(Arg)); pthread_t *th = (pthread_t *) calloc(n, sizeof(pthread_t));
    for (int i = 0; i < n; i++) g[i] = { t, i, f, argc, av };
    for (int i = 1; i < n; i++) if (pthread_create(&th[i], 0, worker, &g[i])) abort();
    worker(&g[0]);
    for (int i = 1; i < n; i++) pthread_join(th[i], 0);
    pthread_barrier_destroy(&t->bar); pthread_mutex_destroy(&t->mu); free(g); free(th); free(t);
}
int32_t __kmpc_global_thread_num(ident *) { return t_id; }
int32_t __kmpc_global_num_threads(ident *) { return t_team ? t_team->n : 1; }
int32_t __kmpc_bound_thread_num(ident *) { return t_id; }
int32_t __kmpc_bound_num_threads(ident *) { return t_team ? t_team->n : 1; }
int32_t __kmpc_in_parallel(ident *) { return t_team && t_team->n > 1; }
int32_t __kmpc_ok_to_fork(ident *) { return 1; }
void __kmpc_push_num_threads(ident *, int32_t, int32_t n) { t_push = n; }
void __kmpc_push_proc_bind(ident *, int32_t, int32_t) {}
void __kmpc_serialized_parallel(ident *, int32_t) {}
void __kmpc_end_serialized_parallel(ident *, int32_t) {}
void __kmpc_begin(ident *, int32_t) {}
void __kmpc_end(ident *) {}
void __kmpc_flush(ident *) { __sync_synchronize(); }
void __kmpc_barrier(ident *, int32_t) { if (t_team && t_team->n > 1) pthread_barrier_wait(&t_team->bar); }
int32_t __kmpc_cancel_barrier(ident *l, int32_t g) { __kmpc_barrier(l, g); return 0; }
void __kmpc_critical(ident *, int32_t, void *) { pthread_mutex_lock(&g_crit); }
void __kmpc_critical_with_hint(ident *, int32_t, void *, uint32_t) { pthread_mutex_lock(&g_crit); }
void __kmpc_end_critical(ident *, int32_t, void *) { pthread_mutex_unlock(&g_crit); }
void __kmpc_atomic_start() { pthread_mutex_lock(&g_crit); }
void __kmpc_atomic_end() { pthread_mutex_unlock(&g_crit); }
int32_t __kmpc_master(ident *, int32_t) { return t_id == 0; }
void __kmpc_end_master(ident *, int32_t) {}
int32_t __kmpc_masked(ident *, int32_t, int32_t f) { return t_id == f; }
void __kmpc_end_masked(ident *, int32_t) {}
int32_t __kmpc_single(ident *, int32_t)
{
    if (!t_team || t_team->n == 1) return 1;
    int k = t_single++ % 256; pthread_mutex_lock(&t_team->mu); int first = t_team->singles[k]++ == 0; pthread_mutex_unlock(&t_team->mu); return first;
}
void __kmpc_end_single(ident *, int32_t) {}
void __kmpc_ordered(ident *, int32_t) { pthread_mutex_lock(&g_crit); }
void __kmpc_end_ordered(ident *, int32_t) { pthread_mutex_unlock(&g_crit); }
// reductions: one thread at a time adds to the shared variable
int32_t __kmpc_reduce(ident *, int32_t, int32_t, size_t, void *, void (*)(void *, void *), void *) { pthread_mutex_lock(&g_crit); return 1; }
void __kmpc_end_reduce(ident *l, int32_t g, void *) { pthread_mutex_unlock(&g_crit); __kmpc_barrier(l, g); }
int32_t __kmpc_reduce_nowait(ident *, int32_t, int32_t, size_t, void *, void (*)(void *, void *), void *) { pthread_mutex_lock(&g_crit); return 1; }
void __kmpc_end_reduce_nowait(ident *, int32_t, void *) { pthread_mutex_unlock(&g_crit); }
}
// the split: n-1 cut points in 0..trip, the same for all threads of the team
static void cuts(Team *t, int loop, uint64_t trip, int id, uint64_t &lo, uint64_t &hi)
{
    uint64_t s = mx(t->seed * 31 + loop); int n = t->n;
    if (s % 3) { uint64_t q = trip / n, r = trip % n; lo = id * q + (id < (int) r ? id : r); hi = lo + q + (id < (int) r); return; }    // even
    uint64_t c[66]; c[0] = 0; c[n] = trip; for (int k = 1; k < n; k++) c[k] = mx(s + k) % (trip + 1);
    for (int a = 1; a < n; a++) for (int b = a + 1; b < n; b++) if (c[b] < c[a]) { uint64_t x = c[a]; c[a] = c[b]; c[b] = x; }
    lo = c[id]; hi = c[id + 1];
}
template <class T, class U> static void sinit(int32_t sched, int32_t *last, T *lb, T *ub, U *st, U inc, U chunk)
{
    // kmp_sch_static_chunked 33, kmp_sch_static 34 (ordered: 65, 66)
    if (last) *last = 0;
    sched &= 0xffff;
    bool any = inc > 0 ? *lb <= *ub : *lb >= *ub; int n = t_team ? t_team->n : 1, id = t_team ? t_id : 0;
    if (!any) { *st = inc; return; }
    uint64_t trip = inc > 0 ? (uint64_t) (*ub - *lb) / (uint64_t) inc + 1 : (uint64_t) (*lb - *ub) / (uint64_t) (-inc) + 1; int loop = t_loop++;
    T l = *lb, u = *ub;
    if (n == 1) { if (last) *last = 1; *st = inc * (U) trip; return; }
    if (sched == 33 || sched == 65)
    {
        if (chunk < 1) chunk = 1; *st = (U) (chunk * inc * n); *lb = l + (T) (chunk * inc * id); *ub = *lb + (T) (chunk * inc - inc);
        if (last) *last = (int) (((trip - 1) / (uint64_t) chunk) % n) == id; return;
    }
    uint64_t a, b; cuts(t_team, loop, trip, id, a, b); *st = (U) (inc * (U) trip);
    if (a == b) { *lb = u + inc; *ub = u; if (inc < 0) { *lb = u + inc; *ub = u; } return; }
    *lb = l + (T) (a * inc); *ub = l + (T) ((b - 1) * inc); if (last) *last = b == trip;
}
static Team g_one;
static Team *team() { g_one.n = 1; return t_team ? t_team : &g_one; }
template <class T, class U> static void dinit(T lb, T ub, U st, U chunk)
{
    Team *t = team(); int k = t_loop++ % 64; t_cur = k;
    pthread_mutex_lock(&g_crit);
    if (!t->loop_init[k]) { t->loop_init[k] = true; t->loops[k] = { (int64_t) lb, (int64_t) ub, (int64_t) st, (int64_t) (chunk < 1 ? 1 : chunk), t->n, st > 0 }; }
    pthread_mutex_unlock(&g_crit);
}
template <class T, class U> static int dnext(int32_t *last, T *lb, T *ub, U *st)
{
    Team *t = team();
    int r = 0; pthread_mutex_lock(&g_crit); auto &L = t->loops[t_cur];
    bool any = L.up ? L.next <= L.ub : L.next >= L.ub;
    if (any)
    {
        int64_t e = L.next + (L.chunk - 1) * L.st; bool end = L.up ? e >= L.ub : e <= L.ub; if (end) e = L.ub;
        *lb = (T) L.next; *ub = (T) e; *st = (U) L.st; if (last) *last = end; L.next = end ? L.ub + L.st : e + L.st; r = 1;
    }
    else if (--L.left == 0) t->loop_init[t_cur] = false;
    pthread_mutex_unlock(&g_crit); return r;
}
extern "C" {
void __kmpc_for_static_init_4(ident *, int32_t, int32_t s, int32_t *la, int32_t *lb, int32_t *ub, int32_t *st, int32_t inc, int32_t ch) { sinit<int32_t, int32_t>(s, la, lb, ub, st, inc, ch); }
void __kmpc_for_static_init_4u(ident *, int32_t, int32_t s, int32_t *la, uint32_t *lb, uint32_t *ub, int32_t *st, int32_t inc, int32_t ch) { sinit<uint32_t, int32_t>(s, la, lb, ub, st, inc, ch); }
void __kmpc_for_static_init_8(ident *, int32_t, int32_t s, int32_t *la, int64_t *lb, int64_t *ub, int64_t *st, int64_t inc, int64_t ch) { sinit<int64_t, int64_t>(s, la, lb, ub, st, inc, ch); }
void __kmpc_for_static_init_8u(ident *, int32_t, int32_t s, int32_t *la, uint64_t *lb, uint64_t *ub, int64_t *st, int64_t inc, int64_t ch) { sinit<uint64_t, int64_t>(s, la, lb, ub, st, inc, ch); }
void __kmpc_for_static_fini(ident *, int32_t) {}
void __kmpc_dispatch_init_4(ident *, int32_t, int32_t, int32_t lb, int32_t ub, int32_t st, int32_t ch) { dinit<int32_t, int32_t>(lb, ub, st, ch); }
void __kmpc_dispatch_init_4u(ident *, int32_t, int32_t, uint32_t lb, uint32_t ub, int32_t st, int32_t ch) { dinit<uint32_t, int32_t>(lb, ub, st, ch); }
void __kmpc_dispatch_init_8(ident *, int32_t, int32_t, int64_t lb, int64_t ub, int64_t st, int64_t ch) { dinit<int64_t, int64_t>(lb, ub, st, ch); }
void __kmpc_dispatch_init_8u(ident *, int32_t, int32_t, uint64_t lb, uint64_t ub, int64_t st, int64_t ch) { dinit<uint64_t, int64_t>(lb, ub, st, ch); }
int32_t __kmpc_dispatch_next_4(ident *, int32_t, int32_t *la, int32_t *lb, int32_t *ub, int32_t *st) { return dnext(la, lb, ub, st); }
int32_t __kmpc_dispatch_next_4u(ident *, int32_t, int32_t *la, uint32_t *lb, uint32_t *ub, int32_t *st) { return dnext(la, lb, ub, st); }
int32_t __kmpc_dispatch_next_8(ident *, int32_t, int32_t *la, int64_t *lb, int64_t *ub, int64_t *st) { return dnext(la, lb, ub, st); }
int32_t __kmpc_dispatch_next_8u(ident *, int32_t, int32_t *la, uint64_t *lb, uint64_t *ub, int64_t *st) { return dnext(la, lb, ub, st); }
void __kmpc_dispatch_fini_4(ident *, int32_t) {}
void __kmpc_dispatch_fini_4u(ident *, int32_t) {}
void __kmpc_dispatch_fini_8(ident *, int32_t) {}
void __kmpc_dispatch_fini_8u(ident *, int32_t) {}
void __kmpc_dispatch_deinit(ident *, int32_t) {}
// the omp_ library routines
int omp_get_thread_num(void) { return t_id; }
int omp_get_num_threads(void) { return t_team ? t_team->n : 1; }
int omp_get_max_threads(void) { return rt_threads; }
void omp_set_num_threads(int n) { rt_threads = n; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return t_team && t_team->n > 1; }
int omp_get_level(void) { return t_team ? 1 : 0; }
int omp_get_num_devices(void) { return 0; }
int omp_get_default_device(void) { return 0; }
int omp_get_initial_device(void) { return 0; }
int omp_is_initial_device(void) { return 1; }
double omp_get_wtime(void) { return 0; }
// gcc's omp_lock_t is 4 bytes: an index into a table
static pthread_mutex_t g_lk = PTHREAD_MUTEX_INITIALIZER; static pthread_mutex_t *g_lt[65536]; static int g_ln = 0;
void omp_init_lock(int *l) { pthread_mutex_lock(&g_lk); int k = 0; while (k < g_ln && g_lt[k]) k++; if (k >= 65535) abort(); if (k == g_ln) g_ln++; g_lt[k] = (pthread_mutex_t *) malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(g_lt[k], 0); *l = k; pthread_mutex_unlock(&g_lk); }
void omp_destroy_lock(int *l) { pthread_mutex_lock(&g_lk); int k = *l; pthread_mutex_destroy(g_lt[k]); free(g_lt[k]); g_lt[k] = 0; pthread_mutex_unlock(&g_lk); }
void omp_set_lock(int *l) { pthread_mutex_lock(g_lt[*l]); }
void omp_unset_lock(int *l) { pthread_mutex_unlock(g_lt[*l]); }
int omp_test_lock(int *l) { return pthread_mutex_trylock(g_lt[*l]) == 0; }
}
// atomics on objects too wide for the processor (complex reductions)
extern "C" {
void at_load(size_t n, void *s, void *d, int) __asm__("__atomic_load");
void at_load(size_t n, void *s, void *d, int) { pthread_mutex_lock(&g_crit); memcpy(d, s, n); pthread_mutex_unlock(&g_crit); }
void at_store(size_t n, void *d, void *s, int) __asm__("__atomic_store");
void at_store(size_t n, void *d, void *s, int) { pthread_mutex_lock(&g_crit); memcpy(d, s, n); pthread_mutex_unlock(&g_crit); }
bool at_cas(size_t n, void *p, void *e, void *d, int, int) __asm__("__atomic_compare_exchange");
bool at_cas(size_t n, void *p, void *e, void *d, int, int) { pthread_mutex_lock(&g_crit); bool same = !memcmp(p, e, n); if (same) memcpy(p, d, n); else memcpy(e, p, n); pthread_mutex_unlock(&g_crit); return same; }
}
