/* Cooperative scheduler: the threads of a scenario (and the threads the library creates) run one at a time; at every
 * scheduling point - each lock operation, system call and allocation made inside the library, and in some modes each
 * memory access - the next thread is chosen by a seeded strategy. Blocking calls become "not runnable until"; when nobody
 * can run, virtual time advances to the next deadline or timer expiry; if there is none, that is a deadlock. */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "shim.h"

#define MAXTH 40
enum { T_FREE, T_READY, T_BLOCKED, T_IDLE, T_DONE };
struct th {
    int id, st, prio;
    bool lib;                   /* created by the library */
    sem_t go;
    long tried;                 /* epoch at which it last found itself blocked */
    pthread_mutex_t *mtx;       /* blocked on this mutex */
    vtime deadline;             /* blocked until (-1: no deadline); only for waits on events */
    bool evwait;
    pthread_t pt;
    bool cancelled, nocancel;   /* a cancellation request, and whether it is held back */
};
static struct th ths[MAXTH];
static int nth;
static __thread struct th *me;
bool sched_on;                  /* the scenario runs under the scheduler */
static bool par;                /* several threads may run; otherwise only the first unless it blocks */
static long epoch;
static uint64_t rs;
static char mode;               /* r: random walk, p: priorities with change points, m: like p, at memory accesses too,
                                   k: threads are often stopped for long at a few kinds of point,
                                   s: no preemption except where a plan says so */
static struct plan { long n; int t; } plan[8]; static int nplan;
static uint32_t kseed; static int kdiv;
static long npoint, chg[8]; static int nchg, lowprio;
static int ticks, first, last;
void (*sched_on_tick)(void);
void (*sched_on_deadlock)(void);
bool sched_spurious;

static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static long rndn(long n) { return (long)(rnd() % (uint64_t)n); }

int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);

static void baton(struct th *t)
{
    if (t == me) return;
    sem_post(&t->go);
    while (sem_wait(&me->go) < 0) ;
}
static bool cand(struct th *t)
{
    switch (t->st) {
    case T_READY: return true;
    case T_BLOCKED:
        return t->tried < epoch;
    default: return false;
    }
}
static struct th *choose(bool not_me)
{
    struct th *c[MAXTH]; int n = 0;
    for (int i = 0; i < nth; i++) if (cand(&ths[i]) && !(not_me && &ths[i] == me)) c[n++] = &ths[i];
    if (!n) return NULL;
    if (!par) {
        /* the first thread goes first; the others only where it cannot go on */
        for (int i = 0; i < n; i++) if (c[i]->id == 0) return c[i];
        return c[rndn(n)];
    }
    if (mode == 'r') return c[rndn(n)];
    if (mode == 's') {          /* the scenario's threads in order, then the library's */
        for (int i = 0; i < n; i++) if (!c[i]->lib) return c[i];
        return c[0];
    }
    struct th *b = c[0];
    for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i];
    return b;
}
/* nobody can run */
static void idle(void)
{
    for (int i = 0; i < nth; i++) if (ths[i].st == T_IDLE) { ths[i].st = T_READY; return; }
    vtime nx = shim_next_expiry(), to = -1;
    bool waiter = false;
    for (int i = 0; i < nth; i++) if (ths[i].st == T_BLOCKED && ths[i].evwait) {
        waiter = true;
        if (ths[i].deadline >= 0 && (to < 0 || ths[i].deadline < to)) to = ths[i].deadline;
    }
    if (waiter && nx >= 0 && (to < 0 || nx < to)) to = nx;
    if (!waiter || to < 0 || to >= (vtime)1500000000000000000LL) { sched_on_deadlock(); _exit(0); }
    if (++ticks > 300) _exit(90);
    if (to > shim_now) {
        shim_advance_to(to);
        if (sched_on_tick) sched_on_tick();
    }
    epoch++;
}
/* give up the processor; the caller has set its own state */
static void yield_blocked(void)
{
    struct th *t;
    while (!(t = choose(false))) idle();
    baton(t);
}
static void point(const char *kind)
{
    epoch++;
    npoint++;
    struct th *t = NULL;
    if (!par) return;
    if (mode == 'r') { if (rndn(3)) return; t = choose(true); }
    else if (mode == 's') {
        for (int i = 0; i < nplan; i++) if (plan[i].n == npoint)
            for (int j = 0; j < nth; j++) if ((plan[i].t ? j == first + plan[i].t - 1 : ths[j].lib) && &ths[j] != me && cand(&ths[j])) t = &ths[j];
    }
    else if (mode == 'k') {
        uint32_t h = kseed;
        for (const char *c = kind; *c; c++) h = (h ^ (unsigned char)*c) * 16777619u;
        if ((h >> 7) % kdiv == 0 && rndn(2)) me->prio = --lowprio;
        t = choose(false);
    }
    else {
        for (int i = 0; i < nchg; i++) if (chg[i] == npoint) me->prio = --lowprio;
        t = choose(false);
    }
    if (t) baton(t);
}
static bool inlib(void) { return sched_on && me && (shim_in_lib > 0 || me->lib); }
void sched_point(const char *kind)
{
    if (!inlib()) return;
    int e = errno;
    point(kind);
    errno = e;
}
void sched_user_point(void) { if (sched_on && me) point("user"); }
bool sched_active(void) { return inlib(); }

/* block until ready() says so (or, with a deadline, until it has passed); true: ready */
bool sched_wait(int (*ready)(void *), void *arg, vtime deadline, bool evwait, int *res)
{
    for (;;) {
        int r = ready(arg);
        if (r != 0) { *res = r; me->st = T_READY; epoch++; return true; }
        if (deadline >= 0 && shim_now >= deadline) { *res = 0; me->st = T_READY; epoch++; return false; }
        me->st = T_BLOCKED; me->tried = epoch; me->deadline = deadline; me->evwait = evwait;
        yield_blocked();
    }
}
static int try_lock(void *a)
{
    int r = __real_pthread_mutex_trylock(a);
    return r == EBUSY ? 0 : r == 0 ? 1 : r + 1;
}
int sched_lock(pthread_mutex_t *m)
{
    int r;
    sched_wait(try_lock, m, -1, false, &r);
    return r - 1;
}

struct boot { struct th *t; void *(*f)(void *); void *x; };
static void finish(void *a)
{
    struct th *t = a, *n;
    t->st = T_DONE;
    epoch++;
    me = NULL;
    while (!(n = choose(false))) idle();
    sem_post(&n->go);
}
static void *boot(void *a)
{
    struct boot b = *(struct boot *)a;
    free(a);
    me = b.t;
    while (sem_wait(&me->go) < 0) ;
    void *r;
    pthread_cleanup_push(finish, me);
    r = b.f(b.x);
    pthread_cleanup_pop(1);
    return r;
}
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int sched_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *x, bool lib)
{
    if (nth >= MAXTH) _exit(87);
    struct th *n = &ths[nth];
    memset(n, 0, sizeof *n);
    n->id = nth; n->lib = lib; n->tried = -1; n->deadline = -1; n->st = T_READY;
    n->prio = 100 + (int)rndn(1000);
    sem_init(&n->go, 0, 0);
    struct boot *b = malloc(sizeof *b);
    *b = (struct boot){ n, f, x };
    nth++;
    int r = __real_pthread_create(t, at, boot, b);
    if (r) { nth--; return r; }
    n->pt = *t;
    return 0;
}
void sched_start(void)
{
    nth = 1; me = &ths[0];
    memset(me, 0, sizeof *me);
    me->st = T_READY; me->tried = -1; me->deadline = -1; me->prio = 0;
    sem_init(&me->go, 0, 0);
    sched_on = true; par = false; epoch = 0; rs = 88172645463325252ULL;
}
/* let the others run until none of them can; the time does not advance */
void sched_quiesce(void)
{
    if (!sched_on || !me) return;
    epoch++;
    me->st = T_IDLE;
    yield_blocked();
    me->st = T_READY;
}
/* run the other threads in parallel until all threads first..last are finished */
static int all_done(void *a) { (void)a; for (int i = first; i <= last; i++) if (ths[i].st != T_DONE) return 0; return 1; }
bool sched_registered(void) { return sched_on && me; }
int sched_nthreads(void) { return nth; }
int sched_me(void) { return me ? me->id : -1; }
void sched_plan(const char *p)
{
    for (nplan = 0; p && nplan < 8; nplan++) {
        char *e;
        plan[nplan].n = strtol(p, &e, 10);
        plan[nplan].t = *e == ':' ? (int)strtol(e + 1, &e, 10) : 0;
        p = *e == ',' ? e + 1 : NULL;
    }
}
void sched_run(long seed, char m, int f, int l, int depth, long span)
{
    int r;
    rs = (uint64_t)seed * 2654435761u + 88172645463325252ULL;
    for (int i = 0; i < 10; i++) rnd();
    mode = m; npoint = 0; kseed = (uint32_t)rnd(); kdiv = depth > 1 ? depth : 4; lowprio = 0; ticks = 0;
    for (int i = 1; i < nth; i++) ths[i].prio = 100 + (int)rndn(1000);
    nchg = depth > 8 ? 8 : depth;
    for (int i = 0; i < nchg; i++) chg[i] = 1 + rndn(span);
    first = f; last = l;
    me->prio = -1000000;
    par = true;
    sched_wait(all_done, NULL, -1, false, &r);
    par = false;
}

/* ------------------------------------------------------------------ blocking calls of the library's own threads */
struct sw_ { const sigset_t *s; siginfo_t *i; };
static void cancel_point(void) { if (me->cancelled && !me->nocancel) { me->nocancel = true; pthread_exit(PTHREAD_CANCELED); } }
static int sig_ready(void *a)
{
    struct sw_ *w = a; struct timespec z = { 0, 0 };
    if (me->cancelled && !me->nocancel) return -1;
    int r = sigtimedwait(w->s, w->i, &z);
    return r > 0 ? r : 0;
}
int __real_sigwaitinfo(const sigset_t *, siginfo_t *);
int __wrap_sigwaitinfo(const sigset_t *s, siginfo_t *i)
{
    if (!inlib()) return __real_sigwaitinfo(s, i);
    int r;
    sched_point("sigwait");
    sched_wait(sig_ready, &(struct sw_){ s, i }, -1, false, &r);
    cancel_point();
    return r;
}
static struct th *th_of(pthread_t t)
{
    for (int i = 0; i < nth; i++) if (ths[i].st != T_DONE && ths[i].id && pthread_equal(ths[i].pt, t)) return &ths[i];
    return NULL;
}
int __real_pthread_cancel(pthread_t);
int __wrap_pthread_cancel(pthread_t t)
{
    struct th *h;
    if (!inlib() || !(h = th_of(t))) return __real_pthread_cancel(t);
    h->cancelled = true; epoch++;
    sched_point("cancel");
    return 0;
}
static int th_done(void *a) { return ((struct th *)a)->st == T_DONE; }
int __real_pthread_join(pthread_t, void **);
int __wrap_pthread_join(pthread_t t, void **v)
{
    struct th *h;
    int r;
    if (inlib() && (h = th_of(t))) sched_wait(th_done, h, -1, false, &r);
    return __real_pthread_join(t, v);
}
void __real_pthread_testcancel(void);
void __wrap_pthread_testcancel(void)
{
    if (inlib()) { sched_point("testcancel"); cancel_point(); }
    else __real_pthread_testcancel();
}
int __real_pthread_setcancelstate(int, int *);
int __wrap_pthread_setcancelstate(int s, int *o)
{
    if (sched_on && me) {
        if (s == PTHREAD_CANCEL_DISABLE) me->nocancel = true;
        else if (s == PTHREAD_CANCEL_ENABLE) me->nocancel = false;
        epoch++;
    }
    return __real_pthread_setcancelstate(s, o);
}
/* condition variables: a generation count per variable, looked up by address */
static struct cv { pthread_cond_t *c; long gen; } cvs[64];
static struct cv *cv_of(pthread_cond_t *c)
{
    for (int i = 0; i < 64; i++) { if (cvs[i].c == c) return &cvs[i]; if (!cvs[i].c) { cvs[i].c = c; return &cvs[i]; } }
    _exit(88);
}
struct cw { struct cv *v; long gen; };
static int cv_ready(void *a) { struct cw *w = a; return w->v->gen != w->gen; }
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!inlib()) return __real_pthread_cond_wait(c, m);
    int r;
    struct cw w = { cv_of(c), cv_of(c)->gen };
    __real_pthread_mutex_unlock(m);
    epoch++;
    sched_wait(cv_ready, &w, -1, false, &r);
    return sched_lock(m);
}
int __real_pthread_cond_signal(pthread_cond_t *);
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
    if (!sched_on) return __real_pthread_cond_signal(c);
    cv_of(c)->gen++; epoch++;       /* waking more than one is permitted */
    sched_point("signal");
    return 0;
}
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!sched_on) return __real_pthread_cond_broadcast(c);
    cv_of(c)->gen++; epoch++;
    sched_point("signal");
    return 0;
}

/* ------------------------------------------------------------------ memory accesses (clang -fsanitize-coverage=trace-loads,trace-stores) */
static inline void mem(void) { if (sched_on && mode == 'm' && par) sched_point("mem"); }
#define NOINST __attribute__((no_sanitize("coverage", "address")))
NOINST void __sanitizer_cov_load1(uint8_t *a) { (void)a; mem(); }
NOINST void __sanitizer_cov_load2(uint16_t *a) { (void)a; mem(); }
NOINST void __sanitizer_cov_load4(uint32_t *a) { (void)a; mem(); }
NOINST void __sanitizer_cov_load8(uint64_t *a) { (void)a; mem(); }
NOINST void __sanitizer_cov_load16(__uint128_t *a) { (void)a; mem(); }
NOINST void __sanitizer_cov_store1(uint8_t *a) { (void)a; mem(); }
NOINST void __sanitizer_cov_store2(uint16_t *a) { (void)a; mem(); }
NOINST void __sanitizer_cov_store4(uint32_t *a) { (void)a; mem(); }
NOINST void __sanitizer_cov_store8(uint64_t *a) { (void)a; mem(); }
NOINST void __sanitizer_cov_store16(__uint128_t *a) { (void)a; mem(); }
