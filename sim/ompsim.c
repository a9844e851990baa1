/* A simulated OpenMP runtime.

   Provides the entry points of libgomp and of the thread sanitizer's instrumentation. The modules under test are compiled
   with -fopenmp -fsanitize=thread and linked with neither library. The workers of a team are coroutines in one operating
   system thread; before every instrumented memory access a seeded scheduler may pass control to another worker. Every
   switch is recorded and can be replayed. */

#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

#define MAXT 64
#define STACK (1L << 20)

typedef struct { ucontext_t ctx; int state; long nfor; int single; } worker;    /* state: 0 done, 1 ready, 2 at barrier, 3 lock */

/* settings, written by the harness */
int sim_max_threads = 1;        /* omp_get_max_threads() */
int sim_granted = 1;            /* the largest team the machine grants */
int sim_policy = 0;             /* 0 whole workers in random order, 1 random, 2 priorities, 3 at conflicts, 4 explicit */
int sim_stall = -1;             /* a worker that runs only when nobody else can */
uint64_t sim_seed = 1;
long sim_gap = 100;             /* mean number of accesses between switches (policies 1 and 3) */
int sim_changes = 3;            /* priority changes (policy 2) */
long sim_est = 20000;           /* accesses a region is estimated to have (policy 2) */

/* what happened */
long sim_regions, sim_accesses, sim_switches, sim_conflicts, sim_lost, sim_team, sim_barriers, sim_shared_words;
int sim_error;

/* recorded and explicit schedules: (accesses since the last switch, worker) */
#define MAXREC (1L << 20)
long *sim_rec;
long sim_nrec;
long *sim_list;
long sim_nlist, sim_pos;

static worker W[MAXT];
static ucontext_t main_ctx;
static char *stacks;
static int team, cur, in_region, quiet_depth, lock_owner = -1, requested;
static void (*region_fn)(void *);
static void *region_data;
static long since, next_in;
static int prio[MAXT];
static int preset;
static void loops_reset(void);
static long change_at[64];
static long region_access;
static uint64_t rng;

/* -- random numbers ------------------------------------------------------------------------------------------- */

static uint64_t rnd(void)
{
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng*0x2545F4914F6CDD1DULL;
}

static long below(long n)
{
    return n <= 0 ? 0 : (long)((rnd() >> 11) % (uint64_t)n);
}

void sim_reseed(uint64_t s)
{
    int i;
    rng = s*0x9E3779B97F4A7C15ULL+0x1234567ULL;
    if (!rng)
        rng = 88172645463325252ULL;
    for (i = 0; i < 8; i++)
        rnd();
    since = 0;
    sim_pos = 0;
    sim_nrec = 0;
    next_in = 1;
}

/* -- who touched which word ----------------------------------------------------------------------------------- */

typedef struct { uintptr_t key; uint64_t readers, writers; uint32_t epoch; uint32_t hot; } word;
#define NSH (1UL << 18)
static word *shadow;
static uint32_t epoch;
static long filled;

static word *look(uintptr_t a)
{
    uintptr_t k = a >> 3;
    uint64_t h = (k*0x9E3779B97F4A7C15ULL) >> 46;
    long n;
    for (n = 0; n < 64; n++) {
        word *w = &shadow[(h+n) & (NSH-1)];
        if (w->key == k)
            return w;
        if (!w->key) {
            if (filled > (long)(NSH*3/4))
                return NULL;
            filled++;
            w->key = k;
            return w;
        }
    }
    return NULL;
}

void sim_forget(void)
{
    if (shadow)
        memset(shadow, 0, NSH*sizeof(word));
    filled = 0;
    epoch = 0;
}

/* True if this word has been written by one worker and touched by another in some region. */
static int conflict(uintptr_t a, int write)
{
    word *w;
    if (!a)
        return 1;
    if (a >= (uintptr_t)stacks && a < (uintptr_t)stacks+MAXT*STACK)
        return 0;
    w = look(a);
    if (!w)
        return 0;
    if (w->epoch != epoch) {
        w->epoch = epoch;
        w->readers = w->writers = 0;
    }
    if (write)
        w->writers |= 1ULL << cur;
    else
        w->readers |= 1ULL << cur;
    if (w->writers && ((w->readers | w->writers) & ~(1ULL << cur)) &&
        ((w->writers & ~(1ULL << cur)) || (w->writers & (1ULL << cur)))) {
        if (!w->hot)
            sim_shared_words++;
        w->hot = 1;
        sim_conflicts++;
    }
    return w->hot;
}

/* -- switching ------------------------------------------------------------------------------------------------ */

static int ready(int i)
{
    return W[i].state == 1 || (W[i].state == 3 && lock_owner < 0);
}

static int nready(void)
{
    int i, n = 0;
    for (i = 0; i < team; i++)
        n += ready(i);
    return n;
}

/* A switch at an access has its number of accesses, one because a worker could not go on a negative number. */
static void record(int to, int forced)
{
    if (sim_rec && sim_nrec < MAXREC) {
        sim_rec[2*sim_nrec] = forced ? -1 : since;
        sim_rec[2*sim_nrec+1] = to;
        sim_nrec++;
    }
    else
        sim_lost++;
    since = 0;
}

/* A ready worker other than `not_` if there is one. */
static int pick(int not_)
{
    int i, n = 0, c[MAXT], best = -1;
    if (sim_policy == 4 && sim_list) {
        if (sim_pos < sim_nlist && sim_list[2*sim_pos] < 0) {
            i = (int)sim_list[2*sim_pos+1];
            sim_pos++;
            if (i >= 0 && i < team && ready(i))
                return i;
        }
        for (i = 0; i < team; i++)
            if (ready(i) && (i != not_ || nready() == 1))
                return i;
        return -1;
    }
    for (i = 0; i < team; i++)
        if (ready(i) && i != not_ && i != sim_stall)
            c[n++] = i;
    if (!n) {
        for (i = 0; i < team; i++)
            if (ready(i) && (i != not_))
                c[n++] = i;
        if (!n)
            return not_ >= 0 && ready(not_) ? not_ : -1;
    }
    if (sim_policy == 2) {
        for (i = 0; i < n; i++)
            if (best < 0 || prio[c[i]] > prio[best])
                best = c[i];
        return best;
    }
    return c[below(n)];
}

static void go(int to)
{
    int from = cur;
    if (to == from)
        return;
    cur = to;
    sim_switches++;
    swapcontext(&W[from].ctx, &W[to].ctx);
}

static void fail(const char *why)
{
    fprintf(stderr, "ompsim: %s\n", why);
    _exit(97);
}

/* The current worker cannot go on: somebody else has to. */
static void block(void)
{
    int to = pick(W[cur].state == 3 ? -1 : cur);
    if (to < 0)
        fail("no worker can run (deadlock)");
    record(to, 1);
    go(to);
}

static void access_(uintptr_t a, int write)
{
    int to, hot, i;
    if (!in_region || quiet_depth || team < 2)
        return;
    sim_accesses++;
    since++;
    region_access++;
    if (sim_policy == 0)
        return;
    if (sim_policy == 4) {
        if (sim_pos >= sim_nlist || sim_list[2*sim_pos] < 0 || since < sim_list[2*sim_pos])
            return;
        to = (int)sim_list[2*sim_pos+1];
        sim_pos++;
        since = 0;
        if (to >= 0 && to < team && to != cur && ready(to)) {
            go(to);
        }
        return;
    }
    hot = conflict(a, write);
    if (sim_policy == 2) {
        for (i = 0; i < sim_changes && i < 64; i++)
            if (change_at[i] == region_access)
                prio[cur] = -1-i;
        to = cur;
        for (i = 0; i < team; i++)
            if (ready(i) && i != sim_stall && prio[i] > prio[to])
                to = i;
        if (to != cur) {
            record(to, 0);
            go(to);
        }
        return;
    }
    if (sim_policy == 3 && hot && (rnd() & 3) != 0)
        next_in = 0;
    if (next_in > 0) {
        next_in--;
        return;
    }
    next_in = sim_gap <= 1 ? 0 : below(2*sim_gap);
    to = pick(cur);
    if (to >= 0 && to != cur) {
        record(to, 0);
        go(to);
    }
}

/* -- regions -------------------------------------------------------------------------------------------------- */

static void body(void)
{
    int me = cur, to;
    region_fn(region_data);
    W[me].state = 0;
    to = pick(me);
    if (to >= 0 && to != me) {
        record(to, 1);
        cur = to;
        sim_switches++;
        setcontext(&W[to].ctx);
    }
    for (to = 0; to < team; to++)
        if (W[to].state != 0)
            fail("a worker is left behind at a barrier or lock");
    setcontext(&main_ctx);
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags)
{
    int i, n = num_threads ? (int)num_threads : sim_max_threads, to, j;
    (void)flags;
    if (n > sim_granted)
        n = sim_granted;
    if (n > MAXT)
        n = MAXT;
    if (n < 1)
        n = 1;
    if (in_region) {            /* nested regions are executed by one worker */
        fn(data);
        return;
    }
    sim_regions++;
    sim_team = n;
    team = n;
    cur = 0;
    in_region = 1;
    if (!preset)
        loops_reset();
    if (n == 1) {
        W[0].nfor = preset;
        fn(data);
        in_region = 0;
        return;
    }
    if (!stacks) {
        stacks = mmap(NULL, MAXT*STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        shadow = calloc(NSH, sizeof(word));
        sim_rec = malloc(2*MAXREC*sizeof(long));
        if (stacks == MAP_FAILED || !shadow || !sim_rec)
            fail("out of memory");
    }
    if (!rng)
        sim_reseed(sim_seed);
    epoch++;
    region_fn = fn;
    region_data = data;
    region_access = 0;
    lock_owner = -1;
    quiet_depth = 0;
    for (i = 0; i < n; i++) {
        getcontext(&W[i].ctx);
        W[i].ctx.uc_stack.ss_sp = stacks+i*STACK;
        W[i].ctx.uc_stack.ss_size = STACK;
        W[i].ctx.uc_link = NULL;
        makecontext(&W[i].ctx, body, 0);
        W[i].state = 1;
        W[i].nfor = preset;
        W[i].single = 0;
        prio[i] = i+1;
    }
    if (sim_policy == 2) {
        for (i = n-1; i > 0; i--) {
            j = (int)below(i+1);
            to = prio[i];
            prio[i] = prio[j];
            prio[j] = to;
        }
        for (i = 0; i < sim_changes && i < 64; i++)
            change_at[i] = 1+below(sim_est);
    }
    to = pick(-1);
    record(to, 1);
    cur = to;
    swapcontext(&main_ctx, &W[to].ctx);
    sim_est = region_access > 10 ? region_access : 10;
    in_region = 0;
    cur = 0;
    team = 1;
}


void GOMP_barrier(void)
{
    int i, waiting = 0, alive = 0;
    if (!in_region || team < 2)
        return;
    sim_barriers++;
    W[cur].state = 2;
    for (i = 0; i < team; i++) {
        alive += W[i].state != 0;
        waiting += W[i].state == 2;
    }
    if (waiting == alive) {
        if (alive != team)
            fail("a barrier that some workers never reach");
        for (i = 0; i < team; i++)
            W[i].state = 1;
        loops_reset();
        return;
    }
    block();
}

int GOMP_cancellation_point(int which) { (void)which; return 0; }

static void lock(void)
{
    if (!in_region || team < 2)
        return;
    while (lock_owner >= 0 && lock_owner != cur) {
        W[cur].state = 3;
        block();
    }
    W[cur].state = 1;
    lock_owner = cur;
}

static void unlock(void)
{
    lock_owner = -1;
}

void GOMP_critical_start(void) { lock(); }
void GOMP_critical_end(void) { unlock(); }
void GOMP_critical_name_start(void **p) { (void)p; lock(); }
void GOMP_critical_name_end(void **p) { (void)p; unlock(); }
void GOMP_atomic_start(void) { lock(); }
void GOMP_atomic_end(void) { unlock(); }

/* worksharing loops with dynamic or guided schedules: one counter per loop, numbered by every worker */
#define NLOOP 1024
static struct { int used; long next, end, incr, chunk; } loops[NLOOP];
static int single_done;

static void loops_reset(void)
{
    int i;
    memset(loops, 0, sizeof loops);
    for (i = 0; i < team; i++)
        W[i].nfor = 0, W[i].single = 0;
    single_done = 0;
}

static int loop_next(long *istart, long *iend)
{
    long k = W[cur].nfor, s, e;
    access_(0, 1);
    if (k >= NLOOP)
        fail("too many loops");
    s = loops[k].next;
    e = loops[k].end;
    if (loops[k].incr > 0 ? s >= e : s <= e)
        return 0;
    *istart = s;
    s += loops[k].incr*loops[k].chunk;
    if (loops[k].incr > 0 ? s > e : s < e)
        s = e;
    *iend = loops[k].next = s;
    return 1;
}

static int loop_start(long start, long end, long incr, long chunk, long *istart, long *iend)
{
    long k;
    k = ++W[cur].nfor;
    if (k >= NLOOP)
        fail("too many loops");
    if (!loops[k].used) {
        loops[k].used = 1;
        loops[k].next = start;
        loops[k].end = end;
        loops[k].incr = incr;
        loops[k].chunk = chunk > 0 ? chunk : 1;
    }
    return loop_next(istart, iend);
}

#define LOOP(x) \
    int GOMP_loop_##x##_start(long a, long b, long c, long d, long *e, long *f) { return loop_start(a, b, c, d, e, f); } \
    int GOMP_loop_##x##_next(long *e, long *f) { return loop_next(e, f); }
LOOP(dynamic)
LOOP(guided)
LOOP(static)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
int GOMP_loop_runtime_start(long a, long b, long c, long *e, long *f) { return loop_start(a, b, c, 1, e, f); }
int GOMP_loop_runtime_next(long *e, long *f) { return loop_next(e, f); }
int GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long c, long *e, long *f) { return loop_start(a, b, c, 1, e, f); }
int GOMP_loop_maybe_nonmonotonic_runtime_next(long *e, long *f) { return loop_next(e, f); }
void GOMP_loop_end(void)
{
    if (in_region && team > 1)
        GOMP_barrier();
    else
        loops_reset();
}
void GOMP_loop_end_nowait(void) { if (!in_region || team < 2) loops_reset(); }

#define PLOOP(x) \
    void GOMP_parallel_loop_##x(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, long d, unsigned fl) \
    { long e, f; (void)e; (void)f; preset = 1; loops_reset(); loops[1].used = 1; loops[1].next = a; loops[1].end = b; \
      loops[1].incr = c; loops[1].chunk = d > 0 ? d : 1; GOMP_parallel(fn, data, n, fl); preset = 0; loops_reset(); }
PLOOP(dynamic)
PLOOP(guided)
PLOOP(static)
PLOOP(nonmonotonic_dynamic)
PLOOP(nonmonotonic_guided)

int GOMP_single_start(void)
{
    if (!in_region || team < 2)
        return 1;
    W[cur].single++;
    access_(0, 1);
    if (W[cur].single > single_done) {
        single_done = W[cur].single;
        return 1;
    }
    return 0;
}

/* -- omp.h ---------------------------------------------------------------------------------------------------- */

int omp_get_max_threads(void) { return sim_max_threads; }
int omp_get_num_threads(void) { return in_region ? team : 1; }
int omp_get_thread_num(void) { return in_region ? cur : 0; }
int omp_in_parallel(void) { return in_region && team > 1; }
int omp_get_num_procs(void) { return sim_granted; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
int omp_get_level(void) { return in_region; }
int omp_get_max_active_levels(void) { return 1; }
void omp_set_num_threads(int n) { sim_max_threads = n; }
void omp_set_dynamic(int n) { (void)n; }
void omp_set_nested(int n) { (void)n; }
double omp_get_wtime(void) { return 1e-9*(double)sim_accesses; }
double omp_get_wtick(void) { return 1e-9; }
typedef struct { int x; } simlock;
void omp_init_lock(simlock *l) { l->x = 0; }
void omp_destroy_lock(simlock *l) { (void)l; }
void omp_set_lock(simlock *l) { (void)l; lock(); }
void omp_unset_lock(simlock *l) { (void)l; unlock(); }
int omp_test_lock(simlock *l) { (void)l; if (lock_owner >= 0 && lock_owner != cur) return 0; lock(); return 1; }

/* -- the interpreter lock: no switch while a worker holds it ---------------------------------------------------- */

typedef int gstate;
extern gstate PyGILState_Ensure(void);
extern void PyGILState_Release(gstate);
extern void *PyEval_SaveThread(void);
extern void PyEval_RestoreThread(void *);
gstate sim_PyGILState_Ensure(void) { if (in_region) quiet_depth++; return PyGILState_Ensure(); }
void sim_PyGILState_Release(gstate g) { PyGILState_Release(g); if (in_region && quiet_depth) quiet_depth--; }
void *sim_PyEval_SaveThread(void) { if (in_region && quiet_depth) quiet_depth--; return PyEval_SaveThread(); }
void sim_PyEval_RestoreThread(void *t) { if (in_region) quiet_depth++; PyEval_RestoreThread(t); }

/* -- instrumentation ------------------------------------------------------------------------------------------- */

void __tsan_init(void) { }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) { }
#define ACC(n) \
    void __tsan_read##n(void *p) { access_((uintptr_t)p, 0); } \
    void __tsan_write##n(void *p) { access_((uintptr_t)p, 1); } \
    void __tsan_unaligned_read##n(void *p) { access_((uintptr_t)p, 0); } \
    void __tsan_unaligned_write##n(void *p) { access_((uintptr_t)p, 1); } \
    void __tsan_volatile_read##n(void *p) { access_((uintptr_t)p, 0); } \
    void __tsan_volatile_write##n(void *p) { access_((uintptr_t)p, 1); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_read_range(void *p, long n) { (void)n; access_((uintptr_t)p, 0); }
void __tsan_write_range(void *p, long n) { (void)n; access_((uintptr_t)p, 1); }
void __tsan_vptr_update(void **p, void *v) { (void)v; access_((uintptr_t)p, 1); }
void __tsan_vptr_read(void **p) { access_((uintptr_t)p, 0); }
void __tsan_atomic_thread_fence(int o) { (void)o; }
void __tsan_atomic_signal_fence(int o) { (void)o; }
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T *p, int o) { (void)o; access_(0, 1); return *p; } \
    void __tsan_atomic##n##_store(volatile T *p, T v, int o) { (void)o; access_(0, 1); *p = v; } \
    T __tsan_atomic##n##_exchange(volatile T *p, T v, int o) { (void)o; access_(0, 1); return __sync_lock_test_and_set(p, v); } \
    T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int o) { (void)o; access_(0, 1); return __sync_fetch_and_add(p, v); } \
    T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int o) { (void)o; access_(0, 1); return __sync_fetch_and_sub(p, v); } \
    T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int o) { (void)o; access_(0, 1); return __sync_fetch_and_and(p, v); } \
    T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int o) { (void)o; access_(0, 1); return __sync_fetch_and_or(p, v); } \
    T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int o) { (void)o; access_(0, 1); return __sync_fetch_and_xor(p, v); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int o, int f) \
    { T was; (void)o; (void)f; access_(0, 1); was = __sync_val_compare_and_swap(p, *c, v); \
      if (was != *c) { *c = was; return 0; } return 1; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int o, int f) \
    { return __tsan_atomic##n##_compare_exchange_strong(p, c, v, o, f); }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
