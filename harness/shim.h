/* Link-time interposition layer (ld --wrap) between libkqueue and libc/kernel.
 *
 * - virtual clock: timerfd_* become eventfds driven by a virtual clock, blocking waits advance
 *   that clock instead of sleeping
 * - fault injection: the n-th call of a chosen function made inside the library fails with a
 *   chosen errno
 * - cooperative scheduler (sched.c): every wrapped call is a scheduling point
 */
#ifndef SHIM_H
#define SHIM_H
#include <stdint.h>
#include <stdbool.h>
#include <time.h>

typedef int64_t vtime;                 /* virtual nanoseconds */
extern bool shim_virtual;              /* virtual time on? */
extern vtime shim_now;                 /* virtual CLOCK_MONOTONIC */
extern __thread int shim_in_lib;       /* >0 while the current thread is inside kqueue()/kevent() */
extern bool shim_gaveup;               /* more virtual clock steps than worth simulating */
extern bool shim_blocked_forever;      /* a wait with no deadline had nothing to wait for */
extern int shim_nofile;                /* RLIMIT_NOFILE as the library sees it (0: as it is) */
extern int shim_mem;                   /* allocations the library holds */
extern int shim_waits;                 /* number of wait syscalls made since reset */

void shim_advance_to(vtime t);
void shim_reset_timers(void);

/* fault injection */
extern char shim_fault_fn[32];
extern int  shim_fault_nth, shim_fault_errno, shim_fault_hit;
void shim_fault_arm(const char *fn, int nth, int err);
void shim_fault_clear(void);
bool shim_fault(const char *fn);

/* deterministic "something happens while we are blocked" callback: called once when a wait would
   block, before time is advanced; may make something ready */
extern void (*shim_block_cb)(void);

/* at the n-th wrapped call made by the library, call shim_point_fn (once) */
extern int shim_point_at;
extern void (*shim_point_fn)(void);
void shim_disown_timers(void);         /* after fork(): the timers belong to the parent */

vtime shim_next_expiry(void);

/* cooperative scheduler (sched.c) */
#include <pthread.h>
extern bool sched_on;
extern void (*sched_on_tick)(void), (*sched_on_deadlock)(void);
void sched_start(void);
void sched_quiesce(void);
void sched_plan(const char *p);
void sched_run(long seed, char mode, int first, int last, int depth, long span);
void sched_point(const char *kind);
void sched_user_point(void);
bool sched_active(void);
bool sched_wait(int (*ready)(void *), void *arg, vtime deadline, bool evwait, int *res);
int  sched_lock(pthread_mutex_t *m);
void sched_unlocked(void);
int  sched_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *x, bool lib);
bool sched_registered(void);
int  sched_nthreads(void);
int  sched_me(void);

int real_close(int fd);
int real_fcntl(int fd, int cmd, long arg);
#ifndef SHIM_C      /* only what the library allocates is counted */
void *__real_malloc(size_t); void __real_free(void *); char *__real_strdup(const char *);
#define malloc __real_malloc
#define free __real_free
#define strdup __real_strdup
#endif
#endif
