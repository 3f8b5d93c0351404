#define SHIM_C
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/wait.h>
#include <pthread.h>
#include <unistd.h>
#include "shim.h"

bool shim_virtual = true;
vtime shim_now;
__thread int shim_in_lib;
bool shim_blocked_forever, shim_gaveup;
int shim_waits;
void (*shim_block_cb)(void);

char shim_fault_fn[32];
int shim_fault_nth, shim_fault_errno, shim_fault_hit;

void shim_fault_arm(const char *fn, int nth, int err)
{
    snprintf(shim_fault_fn, sizeof shim_fault_fn, "%s", fn);
    shim_fault_nth = nth; shim_fault_errno = err; shim_fault_hit = 0;
}
void shim_fault_clear(void) { shim_fault_fn[0] = 0; shim_fault_nth = 0; shim_fault_hit = 0; }
int shim_point_at;
void (*shim_point_fn)(void);
static void shim_point(const char *kind)
{
    sched_point(kind);
    if (shim_in_lib && shim_point_at > 0 && --shim_point_at == 0) shim_point_fn();
}
bool shim_fault(const char *fn)
{
    shim_point(fn);
    /* failures are injected while changes are applied, not while events are delivered */
    if (shim_in_lib && !strcmp(fn, "wait") && strcmp(shim_fault_fn, "wait")) shim_fault_nth = 0;
    if (!shim_in_lib || shim_fault_nth <= 0 || strcmp(fn, shim_fault_fn)) return false;
    if (--shim_fault_nth == 0) { shim_fault_hit = 1; errno = shim_fault_errno; return true; }
    return false;
}
#define FAULT(name) do { if (shim_fault(name)) return -1; } while (0)

/* ------------------------------------------------------------------ virtual timers */
#define MAXFD 65536
static struct vt { bool used, armed; int clk; vtime next, per; } vts[MAXFD];
static int vt_max = -1;
static pthread_mutex_t vt_mtx = PTHREAD_MUTEX_INITIALIZER;
#define REALTIME_OFF 1700000000000000000LL

int __real_timerfd_create(int, int);
int __real_timerfd_settime(int, int, const struct itimerspec *, struct itimerspec *);
int __real_timerfd_gettime(int, struct itimerspec *);
int __real_close(int);
int __real_fcntl(int, int, ...);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int real_close(int fd) { return __real_close(fd); }
int real_fcntl(int fd, int cmd, long arg) { return __real_fcntl(fd, cmd, arg); }

static void vlock(void) { __real_pthread_mutex_lock(&vt_mtx); }
static void vunlock(void) { __real_pthread_mutex_unlock(&vt_mtx); }

int __wrap_timerfd_create(int clk, int flags)
{
    FAULT("timerfd_create");
    if (!shim_virtual) return __real_timerfd_create(clk, flags);
    if (clk != CLOCK_MONOTONIC && clk != CLOCK_REALTIME && clk != CLOCK_BOOTTIME) { errno = EINVAL; return -1; }
    int ef = ((flags & TFD_CLOEXEC) ? EFD_CLOEXEC : 0) | ((flags & TFD_NONBLOCK) ? EFD_NONBLOCK : 0);
    int fd = syscall(SYS_eventfd2, 0, ef);
    if (fd < 0) return -1;
    vlock();
    vts[fd] = (struct vt){ .used = true, .clk = clk };
    if (fd > vt_max) vt_max = fd;
    vunlock();
    return fd;
}
static bool ts_ok(const struct timespec *t) { return t->tv_sec >= 0 && t->tv_nsec >= 0 && t->tv_nsec < 1000000000L; }
static vtime ts_ns(const struct timespec *t)
{
    if (t->tv_sec > 9000000000LL) return INT64_MAX / 2;     /* saturate like the kernel does (KTIME_MAX) */
    return (vtime)t->tv_sec * 1000000000LL + t->tv_nsec;
}
static void vt_fire(int fd)
{
    struct vt *v = &vts[fd];
    if (!v->armed || v->next > shim_now) return;
    uint64_t n = 1;
    if (v->per > 0) { n = (shim_now - v->next) / v->per + 1; v->next += (vtime)n * v->per; }
    else v->armed = false;
    if (__real_write(fd, &n, 8) != 8) abort();
}
int __wrap_timerfd_settime(int fd, int flags, const struct itimerspec *nv, struct itimerspec *ov)
{
    FAULT("timerfd_settime");
    if (!shim_virtual) return __real_timerfd_settime(fd, flags, nv, ov);
    if (!nv) { errno = EFAULT; return -1; }
    if (fd < 0 || fd >= MAXFD || fcntl(fd, F_GETFD) < 0) { errno = EBADF; return -1; }
    if (!vts[fd].used) { errno = EINVAL; return -1; }
    if (!ts_ok(&nv->it_value) || !ts_ok(&nv->it_interval)) { errno = EINVAL; return -1; }
    if (ov) memset(ov, 0, sizeof *ov);
    vlock();
    struct pollfd p = { .fd = fd, .events = POLLIN };
    uint64_t junk;
    if (syscall(SYS_poll, &p, 1, 0) == 1 && __real_read(fd, &junk, 8) != 8) abort();
    struct vt *v = &vts[fd];
    vtime val = ts_ns(&nv->it_value);
    v->per = ts_ns(&nv->it_interval);
    v->armed = val != 0;
    if (flags & TFD_TIMER_ABSTIME) {
        if (v->clk == CLOCK_REALTIME) val -= REALTIME_OFF;
        v->next = val;
    } else v->next = (val > INT64_MAX / 2 - shim_now) ? INT64_MAX / 2 : shim_now + val;
    vt_fire(fd);
    vunlock();
    return 0;
}
int __wrap_timerfd_gettime(int fd, struct itimerspec *cur)
{
    if (!shim_virtual) return __real_timerfd_gettime(fd, cur);
    memset(cur, 0, sizeof *cur);
    if (fd < 0 || fd >= MAXFD || !vts[fd].used) { errno = EBADF; return -1; }
    if (vts[fd].armed) {
        vtime r = vts[fd].next - shim_now;
        cur->it_value.tv_sec = r / 1000000000LL; cur->it_value.tv_nsec = r % 1000000000LL;
    }
    cur->it_interval.tv_sec = vts[fd].per / 1000000000LL; cur->it_interval.tv_nsec = vts[fd].per % 1000000000LL;
    return 0;
}
void shim_advance_to(vtime t)
{
    vlock();
    if (t > shim_now) shim_now = t;
    for (int i = 0; i <= vt_max; i++) if (vts[i].used) vt_fire(i);
    vunlock();
}
void shim_disown_timers(void) { for (int i = 0; i <= vt_max; i++) vts[i].armed = false; }
void shim_reset_timers(void) { memset(vts, 0, sizeof vts); vt_max = -1; }
vtime shim_next_expiry(void)
{
    vtime best = -1;
    for (int i = 0; i <= vt_max; i++)
        if (vts[i].used && vts[i].armed && (best < 0 || vts[i].next < best)) best = vts[i].next;
    return best;
}
int __wrap_close(int fd)
{
    if (shim_fault("close")) { int e = errno; if (fd >= 0) __real_close(fd); errno = e; return -1; }
    if (fd < 0 || fd >= MAXFD || !vts[fd].used) return __real_close(fd);
    vlock();
    vts[fd].used = false;
    int r = __real_close(fd);
    vunlock();
    return r;
}

/* ------------------------------------------------------------------ waiting */
typedef int (*pollfn)(void *);
static int vwait(pollfn poll_once, void *arg, vtime deadline /* <0: none */)
{
    shim_waits++;
    if (sched_active()) {
        int r;
        sched_wait(poll_once, arg, deadline, true, &r);
        int e = errno;
        sched_point("woken");
        errno = e;
        return r;
    }
    bool cb_done = false;
    for (int steps = 0;; steps++) {
        if (steps > 20000) { shim_gaveup = true; errno = EINTR; return -1; }
        int n = poll_once(arg);
        if (n != 0) return n;
        if (deadline >= 0 && shim_now >= deadline) return 0;
        if (!cb_done && shim_block_cb) { cb_done = true; shim_block_cb(); continue; }
        vtime nx = shim_next_expiry();
        vtime to;
        if (nx < 0 && deadline < 0) { shim_blocked_forever = true; errno = EINTR; return -1; }
        if (nx < 0) to = deadline; else if (deadline < 0) to = nx; else to = nx < deadline ? nx : deadline;
        if (to >= (vtime)1500000000000000000LL) {   /* FarAway in spec/Kq.tla: never */ shim_blocked_forever = true; errno = EINTR; return -1; }
        shim_advance_to(to);
    }
}
static vtime dl_ms(int ms) { return ms < 0 ? -1 : shim_now + (vtime)ms * 1000000LL; }
static vtime dl_ts(const struct timespec *t)
{
    if (!t) return -1;
    vtime d = ts_ns(t);
    return d > INT64_MAX / 2 - shim_now ? INT64_MAX / 2 : shim_now + d;
}

int __real_epoll_wait(int, struct epoll_event *, int, int);
struct ew { int fd; struct epoll_event *ev; int max; };
static int ew_poll(void *a) { struct ew *e = a; return __real_epoll_wait(e->fd, e->ev, e->max, 0); }
int __wrap_epoll_wait(int epfd, struct epoll_event *ev, int max, int timeout)
{
    FAULT("wait");
    if (!shim_virtual || !shim_in_lib) return __real_epoll_wait(epfd, ev, max, timeout);
    return vwait(ew_poll, &(struct ew){ epfd, ev, max }, dl_ms(timeout));
}
int __real_epoll_pwait(int, struct epoll_event *, int, int, const sigset_t *);
int __wrap_epoll_pwait(int epfd, struct epoll_event *ev, int max, int timeout, const sigset_t *ss)
{
    FAULT("wait");
    if (!shim_virtual || !shim_in_lib) return __real_epoll_pwait(epfd, ev, max, timeout, ss);
    return vwait(ew_poll, &(struct ew){ epfd, ev, max }, dl_ms(timeout));
}
int __real_epoll_pwait2(int, struct epoll_event *, int, const struct timespec *, const sigset_t *);
int __wrap_epoll_pwait2(int epfd, struct epoll_event *ev, int max, const struct timespec *ts, const sigset_t *ss)
{
    FAULT("wait");
    if (!shim_virtual || !shim_in_lib) return __real_epoll_pwait2(epfd, ev, max, ts, ss);
    if (ts && !ts_ok(ts)) { errno = EINVAL; return -1; }
    return vwait(ew_poll, &(struct ew){ epfd, ev, max }, dl_ts(ts));
}
int __real_ppoll(struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
int __real_poll(struct pollfd *, nfds_t, int);
struct pw { struct pollfd *p; nfds_t n; };
static int pw_poll(void *a) { struct pw *p = a; return __real_poll(p->p, p->n, 0); }
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *ss)
{
    FAULT("wait");
    if (!shim_virtual || !shim_in_lib) return __real_ppoll(p, n, ts, ss);
    if (ts && !ts_ok(ts)) { errno = EINVAL; return -1; }
    return vwait(pw_poll, &(struct pw){ p, n }, dl_ts(ts));
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms)
{
    FAULT("wait");
    if (!shim_virtual || !shim_in_lib) return __real_poll(p, n, ms);
    return vwait(pw_poll, &(struct pw){ p, n }, dl_ms(ms));
}
int __real_pselect(int, fd_set *, fd_set *, fd_set *, const struct timespec *, const sigset_t *);
struct sw { int n; fd_set *r, *w, *e, ir, iw, ie; };
static int sw_poll(void *a)
{
    struct sw *s = a; struct timespec z = { 0, 0 };
    if (s->r) *s->r = s->ir;
    if (s->w) *s->w = s->iw;
    if (s->e) *s->e = s->ie;
    return __real_pselect(s->n, s->r, s->w, s->e, &z, NULL);
}
int __wrap_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *ss)
{
    FAULT("wait");
    if (!shim_virtual || !shim_in_lib) return __real_pselect(n, r, w, e, ts, ss);
    if (ts && !ts_ok(ts)) { errno = EINVAL; return -1; }
    struct sw s = { .n = n, .r = r, .w = w, .e = e };
    if (r) s.ir = *r;
    if (w) s.iw = *w;
    if (e) s.ie = *e;
    return vwait(sw_poll, &s, dl_ts(ts));
}
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    FAULT("wait");
    if (!shim_virtual || !shim_in_lib) return __real_select(n, r, w, e, tv);
    struct timespec ts, *tp = NULL;
    if (tv) { ts.tv_sec = tv->tv_sec; ts.tv_nsec = tv->tv_usec * 1000; tp = &ts; }
    return __wrap_pselect(n, r, w, e, tp, NULL);
}
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!shim_virtual || !shim_in_lib) return __real_clock_gettime(c, ts);
    vtime t = shim_now + (c == CLOCK_REALTIME ? REALTIME_OFF : 0);
    ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL;
    return 0;
}

/* ------------------------------------------------------------------ plain fault points */
int __real_epoll_create1(int);
int __wrap_epoll_create1(int f) { FAULT("epoll_create1"); return __real_epoll_create1(f); }
int __real_epoll_ctl(int, int, int, struct epoll_event *);
int __wrap_epoll_ctl(int e, int op, int fd, struct epoll_event *ev) 
{
    if (shim_fault("epoll_ctl")) {
        /* these would mean that the descriptor is not registered (any more) */
        if (op != EPOLL_CTL_ADD && (errno == EPERM || errno == ENOENT || errno == EBADF)) errno = ENOMEM;
        return -1;
    }
    return __real_epoll_ctl(e, op, fd, ev);
}
int __real_eventfd(unsigned, int);
int __wrap_eventfd(unsigned i, int f) { FAULT("eventfd"); return __real_eventfd(i, f); }
int __real_eventfd_write(int, eventfd_t);
int __wrap_eventfd_write(int fd, eventfd_t v) { FAULT("eventfd_write"); return __real_eventfd_write(fd, v); }
int __real_pipe2(int *, int);
int __wrap_pipe2(int *p, int f) { FAULT("pipe2"); return __real_pipe2(p, f); }
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    FAULT("fcntl");
    return __real_fcntl(fd, cmd, a);
}
int __real_signalfd(int, const sigset_t *, int);
int __wrap_signalfd(int fd, const sigset_t *s, int f) { FAULT("signalfd"); return __real_signalfd(fd, s, f); }
int __real_sigprocmask(int, const sigset_t *, sigset_t *);
int __wrap_sigprocmask(int h, const sigset_t *s, sigset_t *o) { FAULT("sigprocmask"); return __real_sigprocmask(h, s, o); }
int __real_inotify_init1(int);
int __wrap_inotify_init1(int f) { FAULT("inotify_init1"); return __real_inotify_init1(f); }
int __real_inotify_add_watch(int, const char *, uint32_t);
int __wrap_inotify_add_watch(int fd, const char *p, uint32_t m) { FAULT("inotify_add_watch"); return __real_inotify_add_watch(fd, p, m); }
int __real_fstat(int, struct stat *);
int __wrap_fstat(int fd, struct stat *st) { FAULT("fstat"); return __real_fstat(fd, st); }
int __real_getsockopt(int, int, int, void *, socklen_t *);
int __wrap_getsockopt(int fd, int l, int o, void *v, socklen_t *n) { FAULT("getsockopt"); return __real_getsockopt(fd, l, o, v, n); }
ssize_t __real_readlink(const char *, char *, size_t);
ssize_t __wrap_readlink(const char *p, char *b, size_t n) { FAULT("readlink"); return __real_readlink(p, b, n); }
long __real_syscall(long, ...);
long __wrap_syscall(long nr, ...)
{
    va_list ap; va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_pidfd_open) FAULT("pidfd_open");
    return __real_syscall(nr, a, b, c, d, e, f);
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    FAULT("read");
    return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) { FAULT("write"); return __real_write(fd, b, n); }
void *__real_calloc(size_t, size_t);
int shim_nofile;
int __real_getrlimit(int, struct rlimit *);
int __wrap_getrlimit(int what, struct rlimit *rl)
{
    int r = __real_getrlimit(what, rl);
    if (r == 0 && what == RLIMIT_NOFILE && shim_nofile) rl->rlim_cur = rl->rlim_max = shim_nofile;
    return r;
}
int shim_mem;                           /* allocations the library holds */
static void *got(void *p) { if (p) __atomic_add_fetch(&shim_mem, 1, __ATOMIC_SEQ_CST); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (shim_fault("calloc")) return NULL; return got(__real_calloc(a, b)); }
void *__real_malloc(size_t);
void *__wrap_malloc(size_t a) { if (shim_fault("malloc")) return NULL; return got(__real_malloc(a)); }
void *__real_realloc(void *, size_t);
void *__wrap_realloc(void *p, size_t a) { if (shim_fault("realloc")) return NULL; void *q = __real_realloc(p, a); return p ? q : got(q); }
char *__real_strdup(const char *);
char *__wrap_strdup(const char *p) { if (shim_fault("strdup")) return NULL; return got(__real_strdup(p)); }
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
    if (shim_fault("pthread_create")) return shim_fault_errno;
    if (sched_registered()) return sched_create(t, a, f, x, true);
    return __real_pthread_create(t, a, f, x);
}
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    shim_point("lock");
    return sched_active() ? sched_lock(m) : __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { shim_point("lock"); return __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!sched_active()) { shim_point("unlock"); return __real_pthread_mutex_unlock(m); }
    int r = __real_pthread_mutex_unlock(m);
    shim_point("unlock");
    return r;
}
void __real_free(void *);
void __wrap_free(void *p) { if (p) { sched_point("free"); __atomic_sub_fetch(&shim_mem, 1, __ATOMIC_SEQ_CST); } __real_free(p); }
