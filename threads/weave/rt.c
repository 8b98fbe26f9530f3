/* Weave: a run-time for code compiled with -Zsanitizer=thread that runs its
 * threads one at a time, in an order a seed decides, and checks every access.
 *
 * The compiler calls __tsan_* at each memory access and in place of each
 * atomic operation; here an atomic operation is a point where the scheduler
 * may go on with another thread. Threads are real ones that hand a baton on.
 *
 *  - happens-before by vector clocks, after C++11: relaxed operations order
 *    nothing, release sequences and fences are understood;
 *  - plain accesses are checked byte by byte (FastTrack);
 *  - a load that is not sequentially consistent may be given an older value,
 *    if coherence and happens-before allow it;
 *  - memory comes from an arena at a fixed address; using it outside of what
 *    is allocated, freeing it twice and keeping it are noticed. To free is to
 *    write: whoever used the block has to have happened before.
 *
 * Between atomic operations, switching threads would make no difference
 * to a program without data races, and those are found wherever the switches are.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef uintptr_t uptr;

enum { MAXT = 16, HIST = 6, MAXTRACE = 1 << 16, MAXSITE = 512 };
#define BASE ((uptr)0x100000000000)
#define HEAP ((uptr)128 << 20)
#define STACK ((uptr)1 << 20)
#define STACKS (STACK * MAXT)
#define ARENA (HEAP + STACKS)
#define FREED 0xffffffffu

/* ---- what the harness sees ---------------------------------------------------- */

struct entry {
    u32 step;
    u8 kind, arg, pad[2];
};
struct site {
    u64 pc;
    u32 n;
    u32 threads;
};
struct cfg {
    u64 seed;
    u32 strategy; /* 0: never, 1: at random, 2: priorities, 3: some sites, 4: as the trace says, 5: static words */
    u32 rate;     /* of 1 << 16, per point */
    u32 changes;  /* priorities */
    u32 steps;    /* about how many points there are */
    u32 stale;    /* of 1 << 16, per load that may be */
    u32 spurious; /* of 1 << 16, per point with a waiting thread */
    u32 reuse;    /* of 1 << 16, per allocation */
    u32 limit;    /* points */
    u32 nsites;
    u32 log; /* tell what happens */
    u64 sites[8];
    u64 watch;
};
struct shared {
    u32 status; /* 0: ended, else see below */
    u32 ntrace;
    u32 lost; /* entries that did not fit */
    u32 nsites;
    u64 result;
    u64 points, accesses, switches, stale, spurious, reused, leaked, leaked_bytes, allocs, threads, atomics;
    u64 order; /* which thread when */
    u64 bad;   /* the address in question */
    char what[512];
    struct entry trace[MAXTRACE];
    struct site sites[MAXSITE];
};
enum { OK, RACE, RELEASED, OUTSIDE, DOUBLE, DEADLOCK, ENDLESS, TOOMANY };

static struct shared *out;
static struct cfg cfg;

/* ---- threads ------------------------------------------------------------------- */

enum { UNUSED, RUNNABLE, FUTEX, JOIN, FINISHED };
struct thread {
    u32 go;
    u32 state;
    int id;
    int joins;
    u32 *word;
    int woken, timed;
    u32 vc[MAXT], pending[MAXT], fence[MAXT];
    u32 prio;
    pthread_t real;
    void *(*fn)(void *);
    void *arg;
    u64 (*body)(void *);
};
static struct thread *th;
static struct thread *cur; /* whose turn it is; nobody's outside of a run */
static int nth;
static u32 over;
static pthread_key_t last_words;
static u32 sc[MAXT];

extern char __data_start, _end, __executable_start;
static uptr img, imgsize; /* what is static and can be written */
#define AT(pc) ((u64)((uptr)(pc) - (uptr)&__executable_start))
static u32 *W, *R, *L; /* per byte, per byte, per 8 bytes */

/* ---- random numbers ------------------------------------------------------------- */

static u64 rng[2]; /* the schedule's; the allocator's */
static u64 next(u64 *s)
{
    u64 z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static u32 below(u32 n) { return (u32)(((next(&rng[0]) >> 32) * n) >> 32); }
static int chance(u32 of65536) { return of65536 && below(65536) < of65536; }

/* ---- failing ----------------------------------------------------------------------- */

static const char *names[] = { "ok", "data race", "memory used after its release", "access outside of any allocation", "memory released twice", "deadlock", "no end", "too many threads" };

__attribute__((noreturn)) static void fail(int status, void *pc, uptr at, const char *fmt, ...)
{
    cur = NULL;
    out->status = status;
    out->bad = at;
    va_list v;
    va_start(v, fmt);
    int n = snprintf(out->what, sizeof out->what, "%s: ", names[status]);
    n += vsnprintf(out->what + n, sizeof out->what - n, fmt, v);
    va_end(v);
    snprintf(out->what + n, sizeof out->what - n, " @%llx", (unsigned long long)(pc ? AT(pc) - 1 : 0));
    _exit(3);
}

__attribute__((noinline)) static void tell(const char *what, void *pc, uptr a, u64 was, u64 is, int mo)
{
    static const char *order[] = { "relaxed", "consume", "acquire", "release", "acq-rel", "seq-cst" };
    fprintf(stderr, "%llu thread %d %s %llx: %lld -> %lld %s @%llx\n", (unsigned long long)out->points, cur->id, what, (unsigned long long)a, (long long)was, (long long)is, mo >= 0 && mo < 6 ? order[mo] : "", (unsigned long long)(pc ? AT(pc) - 1 : 0));
}
#define TELL(...) do { if (__builtin_expect(cfg.log, 0)) tell(__VA_ARGS__); } while (0)

/* ---- the scheduler --------------------------------------------------------------------- */

long __real_syscall(long n, ...);
static void wake(u32 *w) { __real_syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }
static void wait_for(u32 *w)
{
    while (!__atomic_load_n(w, __ATOMIC_ACQUIRE))
        __real_syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}

static u32 at_entry, upto; /* of the trace to follow */
static struct entry *follow;
static u32 pct[16];
static u32 last_place = 1u << 24;

static void note(u8 kind, u8 arg)
{
    if (cfg.strategy == 4)
        return;
    if (out->ntrace < MAXTRACE)
        out->trace[out->ntrace++] = (struct entry){ (u32)out->points, kind, arg, { 0, 0 } };
    else
        out->lost++;
}
/* what the trace says about this point */
static int told(u8 kind)
{
    while (at_entry < upto && follow[at_entry].step < out->points)
        at_entry++;
    for (u32 i = at_entry; i < upto && follow[i].step == out->points; i++)
        if (follow[i].kind == kind)
            return follow[i].arg;
    return -1;
}

static void go_on_with(int id)
{
    struct thread *self = cur;
    if (self && self->id == id)
        return;
    out->switches++;
    out->order = (out->order ^ (out->points * 64 + id)) * 0x100000001b3ull;
    cur = &th[id];
    __atomic_store_n(&cur->go, 1, __ATOMIC_RELEASE);
    wake(&cur->go);
}

static int highest(int except)
{
    int best = 0;
    for (int i = 1; i <= nth; i++)
        if (th[i].state == RUNNABLE && i != except && (!best || th[i].prio > th[best].prio))
            best = i;
    return best;
}
static int other(int self)
{
    int n = 0;
    for (int i = 1; i <= nth; i++)
        n += i != self && th[i].state == RUNNABLE;
    if (!n)
        return 0;
    n = below(n);
    for (int i = 1; i <= nth; i++)
        if (i != self && th[i].state == RUNNABLE && n-- == 0)
            return i;
    return 0;
}

/* the current thread cannot go on, or does not want to: who does? 0 if nobody can */
static int choose(int may_stay)
{
    int self = cur->id, def = 0;
    for (int k = 1; k <= nth; k++) {
        int i = (self - 1 + k) % nth + 1;
        if (i != self && th[i].state == RUNNABLE) {
            def = i;
            break;
        }
    }
    if (!def)
        return may_stay ? self : 0;
    int id = def;
    if (cfg.strategy == 4) {
        int t = told('f');
        if (t > 0 && t <= nth && t != self && th[t].state == RUNNABLE)
            id = t;
        return id;
    }
    if (cfg.strategy == 2) {
        if (may_stay) /* spins: behind all others */
            cur->prio = --last_place;
        id = highest(self);
    } else if (cfg.strategy)
        id = other(self);
    if (id != def)
        note('f', id);
    return id;
}

__attribute__((noreturn)) static void deadlock(void)
{
    char s[256];
    int n = 0;
    for (int i = 1; i <= nth && n < 200; i++)
        if (th[i].state == FUTEX)
            n += snprintf(s + n, sizeof s - n, " thread %d for a word that is %u;", i, *th[i].word);
        else if (th[i].state == JOIN)
            n += snprintf(s + n, sizeof s - n, " thread %d for thread %d;", i, th[i].joins);
    fail(DEADLOCK, NULL, 0, "every thread waits:%s", s);
}

static void stop_here(void)
{
    struct thread *self = cur;
    int id = choose(0);
    if (!id) {
        for (int i = 1; i <= nth; i++)
            if (th[i].state == FUTEX && th[i].timed) { /* nothing else happens: time passes */
                th[i].state = RUNNABLE;
                th[i].woken = 2;
                id = i;
                break;
            }
    }
    if (!id)
        deadlock();
    if (id == self->id)
        return;
    go_on_with(id);
    wait_for(&self->go);
}

static void seen_site(void *pc)
{
    u64 p = AT(pc);
    u32 h = (u32)((p * 0x9e3779b97f4a7c15ull) >> 40) % MAXSITE;
    for (u32 k = 0; k < 64; k++) {
        struct site *s = &out->sites[(h + k) % MAXSITE];
        if (!s->pc)
            s->pc = p, out->nsites++;
        if (s->pc == p) {
            s->n++;
            s->threads |= 1u << cur->id;
            return;
        }
    }
}

static void point(void *pc, uptr addr)
{
    struct thread *self = cur;
    out->points++;
    if (out->points > cfg.limit)
        fail(ENDLESS, pc, addr, "%u synchronising operations", cfg.limit);
    if (cfg.strategy != 4)
        seen_site(pc);
    /* wake-ups nobody asked for */
    if (cfg.strategy == 4) {
        int t = told('w');
        if (t > 0 && t <= nth && th[t].state == FUTEX)
            th[t].state = RUNNABLE, out->spurious++;
    } else if (cfg.spurious)
        for (int i = 1; i <= nth; i++)
            if (th[i].state == FUTEX && chance(cfg.spurious)) {
                th[i].state = RUNNABLE;
                out->spurious++;
                note('w', i);
                break;
            }
    int id = self->id;
    switch (cfg.strategy) {
    case 0:
        break;
    case 1:
        if (chance(cfg.rate))
            id = other(id);
        break;
    case 2:
        for (u32 i = 0; i < cfg.changes; i++)
            if (pct[i] == out->points)
                self->prio = (1u << 24) + i;
        id = highest(0);
        break;
    case 3: {
        u64 p = AT(pc);
        int hot = 0;
        for (u32 i = 0; i < cfg.nsites; i++)
            hot |= cfg.sites[i] == p;
        if (hot ? below(2) : chance(cfg.rate))
            id = other(id);
        break;
    }
    case 5:
        if (addr - img < imgsize ? below(4) : chance(cfg.rate))
            id = other(id);
        break;
    case 4: {
        int t = told('s');
        if (t > 0 && t <= nth && th[t].state == RUNNABLE)
            id = t;
        break;
    }
    }
    if (!id)
        id = self->id;
    if (id != self->id) {
        note('s', id);
        go_on_with(id);
        wait_for(&self->go);
    }
}

/* ---- clocks ------------------------------------------------------------------------------ */

static inline u32 epoch(void) { return (u32)cur->id << 26 | cur->vc[cur->id]; }
static inline u32 clock_of(u32 e) { return e & 0x3ffffff; }
static inline u32 thread_of(u32 e) { return e >> 26 & 15; }
static inline int before(u32 e) { return clock_of(e) <= cur->vc[thread_of(e)]; }
static void join(u32 *a, const u32 *b)
{
    for (int i = 0; i < MAXT; i++)
        if (a[i] < b[i])
            a[i] = b[i];
}
static void tick(void) { cur->vc[cur->id]++; }

/* atomic words */
struct store {
    u64 v;
    u32 by, when; /* thread and its clock */
    u32 clock[MAXT];
    u32 read[MAXT]; /* when first, by whom */
};
struct loc {
    uptr addr;
    u32 size, dirty;
    u32 more; /* others in the same 8 bytes */
    u32 n;    /* stores known; the newest is last */
    struct store h[HIST];
    u32 aw[MAXT], ar[MAXT];
};
static struct loc *locs;
static u32 nlocs;
enum { MAXLOC = 1 << 16 };

/* vectors of reads */
static u32 (*rv)[MAXT];
static u32 nrv;
enum { MAXRV = 1 << 20 };
#define MANY 0x80000000u

static u64 watch_who[MAXT];

static inline ptrdiff_t offset(uptr a)
{
    if (a - BASE < ARENA)
        return a - BASE;
    if (a - img < imgsize)
        return ARENA + (a - img);
    return -1;
}

__attribute__((noinline, noreturn)) static void race(void *pc, uptr a, const char *mine, const char *theirs, int who)
{
    u64 w = watch_who[who];
    if (w)
        fail(RACE, pc, a, "%s by thread %d after %s by thread %d (@%llx) with nothing between them in order", mine, cur->id, theirs, who, (unsigned long long)w - 1);
    fail(RACE, pc, a, "%s by thread %d after %s by thread %d with nothing between them in order", mine, cur->id, theirs, who);
}

__attribute__((noinline, noreturn)) static void no_memory(void *pc, uptr a, u32 w, int write)
{
    fail(w == FREED ? RELEASED : OUTSIDE, pc, a, "%s by thread %d", write ? "write" : "read", cur->id);
}

__attribute__((noinline)) static void against_atomics(void *pc, uptr a, size_t n, int write, u32 li, const char *how)
{
    for (; li; li = locs[li].more) {
        struct loc *l = &locs[li];
        if (l->addr + l->size <= a || a + n <= l->addr)
            continue;
        for (int i = 0; i < MAXT; i++) {
            if (l->aw[i] > cur->vc[i])
                race(pc, a, how, "atomic write", i);
            if (write && l->ar[i] > cur->vc[i])
                race(pc, a, how, "atomic read", i);
        }
        if (write)
            l->dirty = 1;
    }
}

__attribute__((noinline)) static void check_bytes(void *pc, uptr a, ptrdiff_t off, size_t n, int write, const char *how)
{
    u32 e = epoch();
    for (size_t i = 0; i < n; i++) {
        u32 w = W[off + i], r = R[off + i];
        if (w == FREED || (w == 0 && (uptr)off < HEAP))
            no_memory(pc, a + i, w, write);
        if (w && !before(w))
            race(pc, a + i, how, "write", thread_of(w));
        if (write) {
            if (r & MANY) {
                for (int t = 0; t < MAXT; t++)
                    if (rv[r & ~MANY][t] > cur->vc[t])
                        race(pc, a + i, how, "read", t);
            } else if (r && !before(r))
                race(pc, a + i, how, "read", thread_of(r));
            W[off + i] = e;
            if (r)
                R[off + i] = 0;
        } else if (r != e) {
            if (r & MANY)
                rv[r & ~MANY][cur->id] = clock_of(e);
            else if (!r || before(r))
                R[off + i] = e;
            else if (nrv < MAXRV) {
                u32 x = nrv++;
                rv[x][thread_of(r)] = clock_of(r);
                rv[x][cur->id] = clock_of(e);
                R[off + i] = MANY | x;
            }
        }
    }
}

static inline void mem(uptr a, size_t n, int write, void *pc)
{
    if (!cur || !n)
        return;
    ptrdiff_t off = offset(a);
    if (off < 0)
        return;
    out->accesses++;
    if (cfg.watch && cfg.watch - a < n)
        watch_who[cur->id] = AT(pc);
    u32 e = epoch();
    if (write) {
        int same = 1;
        for (size_t i = 0; i < n; i++)
            same &= (W[off + i] == e) & (R[off + i] == 0);
        if (!same)
            check_bytes(pc, a, off, n, 1, "write");
    } else {
        int same = 1;
        for (size_t i = 0; i < n; i++)
            same &= (W[off + i] == e) | ((R[off + i] == e) & (W[off + i] != FREED));
        if (!same)
            check_bytes(pc, a, off, n, 0, "read");
    }
    for (size_t g = off >> 3; g <= (off + n - 1) >> 3; g++)
        if (L[g])
            against_atomics(pc, a, n, write, L[g], write ? "write" : "read");
}

#define RA __builtin_return_address(0)
#define ACC(N)                                                              \
    void __tsan_read##N(void *a) { mem((uptr)a, N, 0, RA); }                \
    void __tsan_write##N(void *a) { mem((uptr)a, N, 1, RA); }               \
    void __tsan_unaligned_read##N(void *a) { mem((uptr)a, N, 0, RA); }      \
    void __tsan_unaligned_write##N(void *a) { mem((uptr)a, N, 1, RA); }     \
    void __tsan_read_write##N(void *a) { mem((uptr)a, N, 0, RA); mem((uptr)a, N, 1, RA); }           \
    void __tsan_unaligned_read_write##N(void *a) { mem((uptr)a, N, 0, RA); mem((uptr)a, N, 1, RA); } \
    void __tsan_volatile_read##N(void *a) { mem((uptr)a, N, 0, RA); }       \
    void __tsan_volatile_write##N(void *a) { mem((uptr)a, N, 1, RA); }      \
    void __tsan_unaligned_volatile_read##N(void *a) { mem((uptr)a, N, 0, RA); }  \
    void __tsan_unaligned_volatile_write##N(void *a) { mem((uptr)a, N, 1, RA); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *a, long n) { mem((uptr)a, n, 0, RA); }
void __tsan_write_range(void *a, long n) { mem((uptr)a, n, 1, RA); }
void __tsan_vptr_update(void **a, void *v) { (void)v; mem((uptr)a, 8, 1, RA); }
void __tsan_vptr_read(void **a) { mem((uptr)a, 8, 0, RA); }
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_init(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
    mem((uptr)s, n, 0, RA);
    mem((uptr)d, n, 1, RA);
    return memmove(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
    mem((uptr)s, n, 0, RA);
    mem((uptr)d, n, 1, RA);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n)
{
    mem((uptr)d, n, 1, RA);
    return memset(d, c, n);
}
int __real_memcmp(const void *a, const void *b, size_t n);
int __wrap_memcmp(const void *a, const void *b, size_t n)
{
    mem((uptr)a, n, 0, RA);
    mem((uptr)b, n, 0, RA);
    return __real_memcmp(a, b, n);
}
int __wrap_bcmp(const void *a, const void *b, size_t n)
{
    mem((uptr)a, n, 0, RA);
    mem((uptr)b, n, 0, RA);
    return __real_memcmp(a, b, n);
}

/* ---- atomic operations ---------------------------------------------------------------------- */

static u64 load_raw(uptr a, u32 n)
{
    switch (n) {
    case 1: return __atomic_load_n((u8 *)a, __ATOMIC_SEQ_CST);
    case 2: return __atomic_load_n((uint16_t *)a, __ATOMIC_SEQ_CST);
    case 4: return __atomic_load_n((u32 *)a, __ATOMIC_SEQ_CST);
    default: return __atomic_load_n((u64 *)a, __ATOMIC_SEQ_CST);
    }
}
static void store_raw(uptr a, u32 n, u64 v)
{
    switch (n) {
    case 1: __atomic_store_n((u8 *)a, v, __ATOMIC_SEQ_CST); break;
    case 2: __atomic_store_n((uint16_t *)a, v, __ATOMIC_SEQ_CST); break;
    case 4: __atomic_store_n((u32 *)a, v, __ATOMIC_SEQ_CST); break;
    default: __atomic_store_n((u64 *)a, v, __ATOMIC_SEQ_CST); break;
    }
}

static void forget(struct loc *l, u64 v)
{
    memset(l->h, 0, sizeof l->h);
    l->n = 1;
    l->h[0].v = v;
    l->dirty = 0;
}

/* words elsewhere, such as what std allocates past the program's allocator: they order, but nothing old is read */
static u32 elsewhere[1 << 12];
static struct loc *loc_of_other(uptr a, u32 n)
{
    u32 *head = &elsewhere[((a >> 2) * 0x9e3779b1u >> 8) & 0xfff];
    u64 v = load_raw(a, n);
    for (u32 i = *head; i; i = locs[i].more)
        if (locs[i].addr == a && locs[i].size == n) {
            struct loc *l = &locs[i];
            if (l->h[l->n - 1].v != v)
                forget(l, v);
            l->h[0] = l->h[l->n - 1];
            l->n = 1;
            return l;
        }
    if (nlocs + 1 >= MAXLOC)
        return NULL;
    struct loc *l = &locs[++nlocs];
    memset(l, 0, sizeof *l);
    l->addr = a;
    l->size = n;
    l->more = *head;
    *head = nlocs;
    forget(l, v);
    return l;
}

static struct loc *loc_of(uptr a, u32 n)
{
    ptrdiff_t off = offset(a);
    if (off < 0)
        return loc_of_other(a, n);
    for (u32 i = L[off >> 3]; i; i = locs[i].more) {
        struct loc *l = &locs[i];
        if (l->addr == a && l->size == n) {
            u64 v = load_raw(a, n);
            if (l->dirty || l->h[l->n - 1].v != v)
                forget(l, v);
            return l;
        }
    }
    /* words of another size that overlap: what was stored there is the newest there is */
    for (u32 i = L[off >> 3]; i; i = locs[i].more)
        if (locs[i].addr < a + n && a < locs[i].addr + locs[i].size)
            locs[i].dirty = 1;
    if (nlocs + 1 >= MAXLOC)
        return NULL;
    struct loc *l = &locs[++nlocs];
    memset(l, 0, sizeof *l);
    l->addr = a;
    l->size = n;
    l->more = L[off >> 3];
    L[off >> 3] = nlocs;
    forget(l, load_raw(a, n));
    return l;
}

/* an atomic operation against the plain ones; no two atomic operations race */
static void against_plain(void *pc, uptr a, u32 n, int write)
{
    ptrdiff_t off = offset(a);
    if (off < 0)
        return;
    if (cfg.watch && cfg.watch - a < n)
        watch_who[cur->id] = AT(pc);
    for (u32 i = 0; i < n; i++) {
        u32 w = W[off + i], r = R[off + i];
        if (w == FREED || (w == 0 && (uptr)off < HEAP))
            no_memory(pc, a + i, w, write);
        if (w && !before(w))
            race(pc, a + i, write ? "atomic write" : "atomic read", "write", thread_of(w));
        if (write && r) {
            if (r & MANY) {
                for (int t = 0; t < MAXT; t++)
                    if (rv[r & ~MANY][t] > cur->vc[t])
                        race(pc, a + i, "atomic write", "read", t);
            } else if (!before(r))
                race(pc, a + i, "atomic write", "read", thread_of(r));
        }
    }
}

/* __ATOMIC_*: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 both, 5 sequentially consistent */
static inline int acquires(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline int releases(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void took(const struct store *s, int mo)
{
    join(acquires(mo) ? cur->vc : cur->pending, s->clock);
}

static void push(struct loc *l, u64 v, int mo, const u32 *chain)
{
    if (l->n == HIST) {
        memmove(&l->h[0], &l->h[1], sizeof l->h[0] * (HIST - 1));
        l->n--;
    }
    struct store *s = &l->h[l->n++];
    memset(s, 0, sizeof *s);
    s->v = v;
    s->by = cur->id;
    s->when = cur->vc[cur->id];
    memcpy(s->clock, releases(mo) ? cur->vc : cur->fence, sizeof s->clock);
    if (chain)
        join(s->clock, chain);
    l->aw[cur->id] = cur->vc[cur->id];
    if (releases(mo))
        tick();
}

static u64 aload(uptr a, u32 n, int mo, void *pc)
{
    if (!cur)
        return load_raw(a, n);
    out->atomics++;
    point(pc, a);
    against_plain(pc, a, n, 0);
    struct loc *l = loc_of(a, n);
    if (!l)
        return load_raw(a, n);
    u32 k = l->n - 1, oldest = 0;
    if (mo != 5 && k) {
        for (u32 i = l->n - 1; i > 0 && !oldest; i--) {
            struct store *s = &l->h[i];
            if (s->when <= cur->vc[s->by])
                oldest = i;
            for (int t = 0; t < MAXT; t++)
                if (s->read[t] && s->read[t] <= cur->vc[t])
                    oldest = i;
        }
        if (oldest < k) {
            if (cfg.strategy == 4) {
                int back = told('o');
                if (back > 0)
                    k = (u32)back <= k - oldest ? k - back : oldest, out->stale++;
            } else if (chance(cfg.stale)) {
                u32 back = 1 + below(k - oldest);
                k -= back;
                out->stale++;
                note('o', back);
            }
        }
    }
    struct store *s = &l->h[k];
    if (!s->read[cur->id])
        s->read[cur->id] = cur->vc[cur->id];
    took(s, mo);
    l->ar[cur->id] = cur->vc[cur->id];
    TELL(k == l->n - 1 ? "loads" : "loads (old)", pc, a, l->h[l->n - 1].v, s->v, mo);
    return s->v;
}

static void astore(uptr a, u32 n, u64 v, int mo, void *pc)
{
    if (!cur) {
        store_raw(a, n, v);
        return;
    }
    out->atomics++;
    point(pc, a);
    against_plain(pc, a, n, 1);
    struct loc *l = loc_of(a, n);
    TELL("stores", pc, a, load_raw(a, n), v, mo);
    store_raw(a, n, v);
    if (l) {
        push(l, v, mo, NULL);
        /* parts of other words */
        ptrdiff_t off = offset(a);
        for (u32 i = off < 0 ? 0 : L[off >> 3]; i; i = locs[i].more)
            if (&locs[i] != l && locs[i].addr < a + n && a < locs[i].addr + locs[i].size)
                locs[i].dirty = 1;
    }
}

enum { XCHG, ADD, SUB, AND, OR, XOR, NAND };
static u64 compute(int op, u64 x, u64 v)
{
    switch (op) {
    case XCHG: return v;
    case ADD: return x + v;
    case SUB: return x - v;
    case AND: return x & v;
    case OR: return x | v;
    case XOR: return x ^ v;
    default: return ~(x & v);
    }
}
static u64 armw(uptr a, u32 n, int op, u64 v, int mo, void *pc)
{
    u64 mask = n == 8 ? ~0ull : (1ull << (8 * n)) - 1;
    if (cur) {
        out->atomics++;
        point(pc, a);
        against_plain(pc, a, n, 1);
    } else {
        for (;;) {
            u64 x = load_raw(a, n), y = compute(op, x, v) & mask;
            int ok = n == 1 ? __atomic_compare_exchange_n((u8 *)a, (u8 *)&x, y, 0, 5, 5)
                : n == 2 ? __atomic_compare_exchange_n((uint16_t *)a, (uint16_t *)&x, y, 0, 5, 5)
                : n == 4 ? __atomic_compare_exchange_n((u32 *)a, (u32 *)&x, y, 0, 5, 5)
                         : __atomic_compare_exchange_n((u64 *)a, &x, y, 0, 5, 5);
            if (ok)
                return x;
        }
    }
    struct loc *l = loc_of(a, n);
    u64 x = load_raw(a, n), y = compute(op, x, v) & mask;
    store_raw(a, n, y);
    TELL("updates", pc, a, x, y, mo);
    if (l) {
        struct store old = l->h[l->n - 1];
        if (!l->h[l->n - 1].read[cur->id])
            l->h[l->n - 1].read[cur->id] = cur->vc[cur->id];
        took(&old, mo);
        l->ar[cur->id] = cur->vc[cur->id];
        push(l, y, mo, old.clock);
    }
    return x;
}
static u64 acas(uptr a, u32 n, u64 want, u64 v, int mo, int fmo, void *pc)
{
    u64 mask = n == 8 ? ~0ull : (1ull << (8 * n)) - 1;
    want &= mask;
    v &= mask;
    if (!cur) {
        u64 x = want;
        switch (n) {
        case 1: { u8 t = x; __atomic_compare_exchange_n((u8 *)a, &t, v, 0, 5, 5); return t; }
        case 2: { uint16_t t = x; __atomic_compare_exchange_n((uint16_t *)a, &t, v, 0, 5, 5); return t; }
        case 4: { u32 t = x; __atomic_compare_exchange_n((u32 *)a, &t, v, 0, 5, 5); return t; }
        default: __atomic_compare_exchange_n((u64 *)a, &x, v, 0, 5, 5); return x;
        }
    }
    out->atomics++;
    point(pc, a);
    u64 x = load_raw(a, n);
    against_plain(pc, a, n, x == want);
    struct loc *l = loc_of(a, n);
    if (x == want)
        store_raw(a, n, v);
    TELL(x == want ? "exchanges" : "does not exchange", pc, a, x, v, mo);
    if (l) {
        struct store *s = &l->h[l->n - 1];
        if (!s->read[cur->id])
            s->read[cur->id] = cur->vc[cur->id];
        struct store old = *s;
        took(&old, x == want ? mo : fmo);
        l->ar[cur->id] = cur->vc[cur->id];
        if (x == want)
            push(l, v, mo, old.clock);
    }
    return x;
}

#define ATOMIC(N, T)                                                                                              \
    T __tsan_atomic##N##_load(const volatile T *a, int mo) { return (T)aload((uptr)a, sizeof(T), mo, RA); }       \
    void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { astore((uptr)a, sizeof(T), (u64)v, mo, RA); }     \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { return (T)armw((uptr)a, sizeof(T), XCHG, (u64)v, mo, RA); } \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { return (T)armw((uptr)a, sizeof(T), ADD, (u64)v, mo, RA); } \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { return (T)armw((uptr)a, sizeof(T), SUB, (u64)v, mo, RA); } \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { return (T)armw((uptr)a, sizeof(T), AND, (u64)v, mo, RA); } \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { return (T)armw((uptr)a, sizeof(T), OR, (u64)v, mo, RA); }   \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { return (T)armw((uptr)a, sizeof(T), XOR, (u64)v, mo, RA); } \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { return (T)armw((uptr)a, sizeof(T), NAND, (u64)v, mo, RA); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { return (T)acas((uptr)a, sizeof(T), (u64)c, (u64)v, mo, fmo, RA); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { u64 w = *c, x = acas((uptr)a, sizeof(T), w, (u64)v, mo, fmo, RA); *c = (T)x; return (T)x == (T)w; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { u64 w = *c, x = acas((uptr)a, sizeof(T), w, (u64)v, mo, fmo, RA); *c = (T)x; return (T)x == (T)w; }
ATOMIC(8, u8) ATOMIC(16, uint16_t) ATOMIC(32, u32) ATOMIC(64, u64)

void __tsan_atomic_thread_fence(int mo)
{
    if (!cur)
        return;
    out->atomics++;
    point(RA, 0);
    if (acquires(mo))
        join(cur->vc, cur->pending);
    if (mo == 5) {
        join(cur->vc, sc);
        memcpy(sc, cur->vc, sizeof sc);
    }
    if (releases(mo)) {
        memcpy(cur->fence, cur->vc, sizeof cur->fence);
        tick();
    }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---- memory -------------------------------------------------------------------------------- */

struct block {
    u64 size; /* as asked for */
    u32 room; /* rounded */
    u32 live; /* 1: in use; 2: so, and something static leads to it */
};
static uptr brk_ = BASE + 16;
enum { MAXBLOCKS = 1 << 18 };
static uptr *blocks; /* of the run */
static u32 nblocks;
enum { CLASSES = 64, KEEP = 64 };
static uptr spare[CLASSES][KEEP];
static u32 nspare[CLASSES];

void *weave_alloc(size_t size, size_t align)
{
    if (!cur) { /* outside of a run */
        void *p = NULL;
        return posix_memalign(&p, align < 16 ? 16 : align, size ? size : 1) ? NULL : p;
    }
    size_t room = (size + 15) & ~(size_t)15;
    if (!room)
        room = 16;
    if (align < 16)
        align = 16;
    uptr p = 0;
    out->allocs++;
    u32 c = room / 16;
    if (align == 16 && c < CLASSES && nspare[c] && (u32)(next(&rng[1]) >> 48) < cfg.reuse) {
        p = spare[c][--nspare[c]];
        out->reused++;
    }
    if (!p) {
        p = (brk_ + sizeof(struct block) + align - 1) & ~(uptr)(align - 1);
        if (p + room + 16 > BASE + HEAP)
            return NULL;
        brk_ = p + room;
    }
    struct block *b = (struct block *)(p - sizeof *b);
    b->size = size;
    b->room = (u32)room;
    b->live = 1;
    u32 e = epoch();
    ptrdiff_t off = p - BASE;
    for (size_t i = 0; i < size; i++)
        W[off + i] = e;
    memset(R + off, 0, size * 4);
    if (nblocks < MAXBLOCKS)
        blocks[nblocks++] = p;
    return (void *)p;
}

void weave_free(void *x)
{
    void *pc = RA;
    uptr p = (uptr)x;
    if (p - BASE >= HEAP) {
        free(x);
        return;
    }
    if (!cur) /* left over from a run */
        return;
    struct block *b = (struct block *)(p - sizeof *b);
    if (!b->live)
        fail(DOUBLE, pc, p, "released by thread %d", cur->id);
    ptrdiff_t off = p - BASE;
    size_t n = b->size;
    if (cfg.watch && cfg.watch - p < n)
        watch_who[cur->id] = AT(pc);
    if (n) {
        check_bytes(pc, p, off, n, 1, "release");
        for (size_t g = off >> 3; g <= (off + n - 1) >> 3; g++)
            if (L[g]) {
                against_atomics(pc, off + BASE, n, 1, L[g], "release");
                L[g] = 0;
            }
    }
    for (size_t i = 0; i < n; i++)
        W[off + i] = FREED;
    b->live = 0;
    u32 c = b->room / 16;
    if (cfg.reuse && c < CLASSES && nspare[c] < KEEP && p % 16 == 0)
        spare[c][nspare[c]++] = p;
}

/* ---- threads of the program ------------------------------------------------------------------- */

int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_sched_yield(void);

static void finished(void *v)
{
    /* after the destructors of everything else that is local to the thread */
    static __thread int rounds;
    if (++rounds < 4) {
        pthread_setspecific(last_words, v);
        return;
    }
    struct thread *self = v;
    self->state = FINISHED;
    for (int i = 1; i <= nth; i++)
        if (th[i].state == JOIN && th[i].joins == self->id)
            th[i].state = RUNNABLE;
    int any = 0, left = 0;
    for (int i = 1; i <= nth; i++) {
        any |= th[i].state == RUNNABLE;
        left |= th[i].state != FINISHED;
    }
    if (!left) {
        cur = NULL;
        __atomic_store_n(&over, 1, __ATOMIC_RELEASE);
        wake(&over);
        return;
    }
    int id = choose(0);
    if (!id)
        for (int i = 1; i <= nth; i++)
            if (th[i].state == FUTEX && th[i].timed) {
                th[i].state = RUNNABLE;
                th[i].woken = 2;
                id = i;
                break;
            }
    if (!id)
        deadlock();
    go_on_with(id);
}

static void *main_of(void *v)
{
    struct thread *self = v;
    pthread_setspecific(last_words, self);
    wait_for(&self->go);
    if (self->body) {
        u64 x = self->body(self->arg);
        out->result = x;
        return NULL;
    }
    return self->fn(self->arg);
}

static struct thread *new_thread(void)
{
    if (nth + 1 >= MAXT)
        return NULL;
    struct thread *t = &th[++nth];
    t->id = nth;
    t->state = RUNNABLE;
    t->prio = (1u << 25) + below(1 << 20);
    out->threads++;
    return t;
}

static int begin(struct thread *t)
{
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstack(&attr, (void *)(BASE + HEAP + STACK * t->id), STACK);
    return __real_pthread_create(&t->real, &attr, main_of, t);
}

int __wrap_pthread_create(pthread_t *id, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    if (!cur)
        return __real_pthread_create(id, attr, fn, arg);
    point(RA, 0);
    struct thread *t = new_thread();
    if (!t)
        fail(TOOMANY, RA, 0, "more than %d", MAXT - 1);
    memcpy(t->vc, cur->vc, sizeof t->vc);
    t->vc[t->id] = 1;
    tick();
    t->fn = fn;
    t->arg = arg;
    int r = begin(t);
    *id = t->real;
    return r;
}

int __wrap_pthread_join(pthread_t id, void **ret)
{
    if (cur) {
        struct thread *t = NULL;
        for (int i = 1; i <= nth; i++)
            if (pthread_equal(th[i].real, id))
                t = &th[i];
        if (t) {
            point(RA, 0);
            if (t->state != FINISHED) {
                cur->state = JOIN;
                cur->joins = t->id;
                stop_here();
            }
            join(cur->vc, t->vc);
        }
    }
    return __real_pthread_join(id, ret);
}

int __wrap_sched_yield(void)
{
    if (!cur)
        return __real_sched_yield();
    struct thread *self = cur;
    out->points++;
    if (out->points > cfg.limit)
        fail(ENDLESS, RA, 0, "%u synchronising operations", cfg.limit);
    int id = choose(1);
    if (id != self->id) {
        go_on_with(id);
        wait_for(&self->go);
    }
    return 0;
}

long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    if (!cur || n != SYS_futex)
        return __real_syscall(n, a, b, c, d, e, f);
    int op = (int)b & FUTEX_CMD_MASK;
    u32 *word = (u32 *)a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        struct thread *self = cur;
        point(RA, 0);
        if (__atomic_load_n(word, __ATOMIC_SEQ_CST) != (u32)c) {
            errno = EAGAIN;
            return -1;
        }
        /* or not at all */
        if (cfg.strategy == 4 ? told('n') == self->id : chance(cfg.spurious * 4)) {
            out->spurious++;
            note('n', self->id);
            return 0;
        }
        self->state = FUTEX;
        self->word = word;
        self->timed = d != 0;
        self->woken = 0;
        TELL("waits", RA, (uptr)word, c, c, -1);
        stop_here();
        if (self->woken == 2) {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        long done = 0;
        for (int i = 1; i <= nth && done < c; i++)
            if (th[i].state == FUTEX && th[i].word == word) {
                th[i].state = RUNNABLE;
                th[i].woken = 1;
                done++;
            }
        TELL("wakes", RA, (uptr)word, done, done, -1);
        return done;
    }
    return __real_syscall(n, a, b, c, d, e, f);
}

/* ---- a run ------------------------------------------------------------------------------------- */

static void *need(size_t n)
{
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(9);
    }
    return p;
}

__attribute__((constructor(101))) static void set_up(void)
{
    img = (uptr)&__data_start & ~(uptr)15;
    imgsize = (uptr)&_end - img;
    if (mmap((void *)BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) {
        perror("mmap");
        _exit(9);
    }
    W = need((ARENA + imgsize) * 4);
    R = need((ARENA + imgsize) * 4);
    L = need((ARENA + imgsize) / 2 + 64);
    locs = need(sizeof *locs * MAXLOC);
    rv = need(sizeof *rv * MAXRV);
    th = need(sizeof *th * MAXT);
    blocks = need(sizeof *blocks * MAXBLOCKS);
    out = mmap(NULL, sizeof *out, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pthread_key_create(&last_words, finished);
}

struct shared *weave_shared(void) { return out; }

static int by_address(const void *a, const void *b)
{
    uptr x = *(const uptr *)a, y = *(const uptr *)b;
    return x < y ? -1 : x > y;
}
/* what is kept on purpose: whatever words in these bytes lead to */
static void reach(uptr from, size_t n)
{
    static int sorted;
    if (!sorted++)
        qsort(blocks, nblocks, sizeof *blocks, by_address);
    for (uptr a = (from + 7) & ~(uptr)7; a + 8 <= from + n; a += 8) {
        uptr p = *(uptr *)a;
        if (p - BASE >= HEAP)
            continue;
        u32 lo = 0, hi = nblocks;
        while (lo < hi) {
            u32 mid = (lo + hi) / 2;
            if (blocks[mid] <= p)
                lo = mid + 1;
            else
                hi = mid;
        }
        if (!lo)
            continue;
        struct block *b = (struct block *)(blocks[lo - 1] - sizeof *b);
        if (b->live == 1 && p < blocks[lo - 1] + b->room) {
            b->live = 2;
            reach(blocks[lo - 1], b->size);
        }
    }
}

static void simulate(u64 (*body)(void *), void *arg, int count_leaks)
{
    rng[0] = cfg.seed;
    rng[1] = cfg.seed ^ 0x5bd1e995u;
    for (u32 i = 0; i < cfg.changes && i < 16; i++)
        pct[i] = 1 + below(cfg.steps + 1);
    struct thread *t = new_thread();
    t->vc[0] = 1;
    t->vc[t->id] = 1;
    t->body = body;
    t->arg = arg;
    if (begin(t))
        _exit(9);
    cur = t;
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    wake(&t->go);
    wait_for(&over);
    if (!count_leaks)
        return;
    reach(img, imgsize);
    for (u32 i = 0; i < nblocks; i++) {
        struct block *b = (struct block *)(blocks[i] - sizeof *b);
        if (b->live == 1) {
            out->leaked++;
            out->leaked_bytes += b->size;
            b->live = 0;
        }
    }
}

/* One run in a process of its own. Its exit status, or the signal that ended it, negative. */
int weave_run(const struct cfg *c, const struct entry *trace, u32 n, u64 (*body)(void *), void *arg, int plain)
{
    memset(out, 0, offsetof(struct shared, trace));
    memset(out->sites, 0, sizeof out->sites);
    pid_t pid = fork();
    if (pid < 0)
        return 99;
    if (pid == 0) {
        struct rlimit r = { 20, 25 };
        setrlimit(RLIMIT_CPU, &r);
        r.rlim_cur = r.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &r);
        cfg = *c;
        follow = (struct entry *)trace;
        upto = n;
        if (plain)
            out->result = body(arg);
        else
            simulate(body, arg, 1);
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0)
        if (errno != EINTR)
            return 99;
    return WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st);
}

u64 weave_now(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (u64)t.tv_sec * 1000 + t.tv_nsec / 1000000;
}

/* std insists on a guard page; the stacks given out here have none */
int __real_pthread_attr_getguardsize(const pthread_attr_t *a, size_t *n);
int __wrap_pthread_attr_getguardsize(const pthread_attr_t *a, size_t *n)
{
    int r = __real_pthread_attr_getguardsize(a, n);
    if (!r && !*n)
        *n = 4096;
    return r;
}

/* One processor is enough for threads that take turns, and handing over is cheaper there. */
void weave_pin(u32 k)
{
    cpu_set_t have, one;
    if (sched_getaffinity(0, sizeof have, &have))
        return;
    u32 n = CPU_COUNT(&have);
    if (!n)
        return;
    k %= n;
    CPU_ZERO(&one);
    for (int i = 0; i < CPU_SETSIZE; i++)
        if (CPU_ISSET(i, &have) && k-- == 0) {
            CPU_SET(i, &one);
            break;
        }
    sched_setaffinity(0, sizeof one, &one);
}
