/* Scenario interpreter: replays operation scripts on the real libkqueue and records one ndjson event
 * per operation (arguments and results) for trace validation against spec/KqTrace.tla.
 *
 * usage: kqh SCRIPT TRACE SCRATCHDIR
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/event.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <linux/filter.h>
#include <linux/sockios.h>
#include <unistd.h>
#include "shim.h"

#define MAXENDS 1200
#define MAXTOK 4096
#define MAXKQ 512
#define MAXCH 64

static __thread FILE *tr;
static FILE *trmain;
static const char *scratch;
static char sdir[512];

struct end { char name[24]; int fd; bool open; int kind; char path[300]; int nren; bool linked; };
enum { K_PIPE, K_SOCK, K_LISTEN, K_FILE, K_EVFD, K_OTHER };
static struct end ends[MAXENDS];
static int nends, owned, base_exec;
static bool inpar;
#define MAXKFD 6
static int kqfds[MAXKQ][MAXKFD], nkqfds[MAXKQ];        /* the descriptors kqueue() opened */
static int kqfd[MAXKQ]; static bool kqopen[MAXKQ], kqstale[MAXKQ];
static int nkqopen, cost = -1;
static struct child { char name[16]; pid_t pid; int ctl; } ch[MAXCH];
static int nch;
static volatile int handler_hits;
static int base_fds;
static bool limfail;
static int nostd;               /* descriptors 0 (1) and 1 (2) are not open, as in some daemons */
static char pname[16];          /* "" in the first process, "NAME/" in a forked one */
static int *trouble;            /* shared with the driver: scenarios that ran into a time limit */
static int nreg[256];          /* registrations per slot, at most */
static int fdwait = 1500;       /* ms the fds operation waits for asynchronous releases */

/* ---- debug messages (scenarios that use the dbg* operations) */
static bool dbg_used, dbg_full;
static __thread int dbg_msgs;           /* messages this thread handed to the debug function */
static int dbg_wrong;                   /* messages that did not start with the prefix that is set */
static char dbg_prefix[24] = "KQ";
static void dbg_cb(const char *fmt, ...)
{
    char b[300], want[32];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    snprintf(want, sizeof want, "%s ", dbg_prefix);
    if (strncmp(b, want, strlen(want))) __atomic_add_fetch(&dbg_wrong, 1, __ATOMIC_SEQ_CST);
    dbg_msgs++;
    errno = 77 + dbg_msgs % 5;          /* a debug function owes nobody its errno */
}
static long dbg_err_size(void) { struct stat st; return dbg_used && !fstat(2, &st) ? (long)st.st_size : 0; }
/* se: did anything arrive on standard error (-1: it cannot be told) */
static void pr_dbg(int m0, long s0)
{
    if (dbg_used) fprintf(tr, ",\"dm\":%d,\"dx\":%d,\"se\":%d", dbg_msgs > m0, __atomic_load_n(&dbg_wrong, __ATOMIC_SEQ_CST), dbg_full ? -1 : dbg_err_size() > s0);
}

static void onsig(int s) { (void)s; handler_hits++; }

static int count_fds(void)
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n - 3;
}
/* the descriptors that are open now */
static void fd_set_now(unsigned char *m, int n)
{
    memset(m, 0, n);
    DIR *d = opendir("/proc/self/fd");
    for (struct dirent *e; (e = readdir(d));) { int f = atoi(e->d_name); if (*e->d_name != '.' && f < n && f != dirfd(d)) m[f] = 1; }
    closedir(d);
}
/* the descriptors a program started now would inherit */
static int exec_fds(void)
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    for (struct dirent *e; (e = readdir(d));) {
        int f = *e->d_name == '.' ? -1 : atoi(e->d_name), fl = f < 0 ? -1 : real_fcntl(f, F_GETFD, 0);
        if (fl >= 0 && !(fl & FD_CLOEXEC)) n++;
    }
    closedir(d);
    return n;
}
static int lib_fds(void) { return count_fds() - base_fds - owned; }

static struct end *find_end(const char *n)
{
    for (int i = nends - 1; i >= 0; i--) if (!strcmp(ends[i].name, n)) return &ends[i];
    fprintf(stderr, "kqh: unknown end %s\n", n); _exit(70);
}
static int next_fd = 60, force_fd = -1;
static struct end *add_end(const char *n, int fd, int kind)
{
    struct end *e = NULL;
    for (int i = 0; i < nends; i++) if (!strcmp(ends[i].name, n) && !ends[i].open) e = &ends[i];
    if (!e) { if (nends >= MAXENDS) _exit(71); e = &ends[nends++]; }
    memset(e, 0, sizeof *e);
    snprintf(e->name, sizeof e->name, "%s", n);
    /* descriptor numbers of objects are not reused, except on purpose (re) */
    if (force_fd >= 0) { if (dup2(fd, force_fd) < 0) _exit(77); real_close(fd); fd = force_fd; force_fd = -1; }
    else { int nf = real_fcntl(fd, F_DUPFD, next_fd); if (nf < 0) _exit(77); real_close(fd); fd = nf; next_fd = nf + 1; }
    e->fd = fd; e->open = true; e->kind = kind; owned++;
    return e;
}
static struct child *find_child(const char *n)
{
    for (int i = nch - 1; i >= 0; i--) if (!strcmp(ch[i].name, n)) return &ch[i];
    fprintf(stderr, "kqh: unknown child %s\n", n); _exit(70);
}
static void nb(int fd) { real_fcntl(fd, F_SETFL, real_fcntl(fd, F_GETFL, 0) | O_NONBLOCK); }
static int sndbuf(int fd) { int v = 65536; return setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }

static void pr_data(const char *key, intptr_t d)
{
    long hi = d / 1000000000L, lo = d % 1000000000L;
    if (lo < 0) { lo += 1000000000L; hi--; }
    if (hi > 2000000000L) hi = 2000000000L;
    if (hi < -2000000000L) hi = -2000000000L;
    fprintf(tr, "\"%s\":[%ld,%ld]", key, hi, lo);
}
static void pr_time(const char *key, vtime t) { fprintf(tr, "\"%s\":[%ld,%ld]", key, (long)(t / 1000000000L), (long)(t % 1000000000L)); }

static const char *ident_out(short filter, uintptr_t id, char *buf)
{
    if (filter == EVFILT_READ || filter == EVFILT_WRITE || filter == EVFILT_VNODE)
        for (int i = nends - 1; i >= 0; i--) if ((uintptr_t)ends[i].fd == id) { sprintf(buf, "@%s", ends[i].name); return buf; }
    if (filter == EVFILT_PROC)
        for (int i = nch - 1; i >= 0; i--) if ((uintptr_t)ch[i].pid == id) { sprintf(buf, "%%%s", ch[i].name); return buf; }
    sprintf(buf, "#%lx", (unsigned long)id);
    return buf;
}
static void pr_kev(const struct kevent *k, const char *idtok)
{
    char b[64];
    fprintf(tr, "{\"f\":%d,\"i\":\"%s\",\"fl\":%u,\"h\":%u,\"l\":%u,", k->filter, idtok ? idtok : ident_out(k->filter, k->ident, b),
            k->flags, k->fflags >> 24, k->fflags & 0xffffffu);
    pr_data("d", k->data);
    fprintf(tr, ",\"u\":\"%lx\"", (unsigned long)(uintptr_t)k->udata);
}

static uintptr_t parse_ident(const char *t, char *norm)
{
    if (*t == '@') {
        strcpy(norm, t);
        return (uintptr_t)find_end(t + 1)->fd;
    }
    if (*t == '%') { strcpy(norm, t); return (uintptr_t)find_child(t + 1)->pid; }
    unsigned long v = strtoul(t, NULL, 0);
    sprintf(norm, "#%lx", v);
    return v;
}

struct kcall { int fd; struct kevent *cl; int ncl; struct kevent *el; int n; struct timespec *ts; int r, e, cs, at; bool dis, done; };
static void docall(struct kcall *c, int want)
{
    int now;
    shim_in_lib++;
    errno = 0;
    c->r = kevent(c->fd, c->cl, c->ncl, c->el, c->n, c->ts);
    c->e = errno;
    shim_in_lib--;
    pthread_setcancelstate(want, &now);
    c->cs = now != want;
}
static void self_cancel(void) { pthread_cancel(pthread_self()); }
static void *cthread(void *a)
{
    struct kcall *c = a;
    int want = c->dis ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
    pthread_setcancelstate(want, NULL);
    if (c->at < 0) shim_block_cb = self_cancel;
    else if (c->at == 0) self_cancel();
    else shim_point_at = c->at, shim_point_fn = self_cancel;
    docall(c, want);
    pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
    c->done = true;
    return NULL;
}

/* ckev MODE N: the call is made by a thread that gets a cancellation request; MODE e|d: its cancelability; N: 0 before the call,
 * n > 0 at the n-th system call, allocation or lock operation made inside, -1 when it starts to wait */
static void do_kev(char **tok, int nt)
{
    int cmode = 0, cat = 0;
    if (*tok[0] == 'c') { cmode = *tok[1]; cat = atoi(tok[2]); tok += 2; nt -= 2; }
    static __thread struct kevent cl[1100], el[1700], cl_copy[1100];
    static __thread char norm[1100][32];
    int fd, n, nch_ = 0;
    bool alias = false, nullel = false;
    struct timespec ts, *tsp = &ts;
    const char *ks = tok[1];
    if (!strncmp(ks, "fd:", 3)) fd = atoi(ks + 3);
    else if (!strncmp(ks, "obj:", 4)) fd = find_end(ks + 4)->fd;
    else {
        fd = kqfd[atoi(ks)];
        /* a number the child inherited and that now belongs to something else */
        if (kqstale[atoi(ks)] && !kqopen[atoi(ks)] && real_fcntl(fd, F_GETFD, 0) >= 0) { fprintf(tr, "{\"op\":\"skip\"}\n"); return; }
    }
    if (*tok[2] == 'm') n = -atoi(tok[2] + 1);
    else if (*tok[2] == '-') { nullel = true; n = 0; }
    else { n = atoi(tok[2]); alias = strchr(tok[2], 'a') != NULL; }
    bool bt = *tok[3] == 'b';     /* a malformed timeout */
    if (bt) tok[3]++;
    if (*tok[3] == 'n') tsp = NULL;
    else if (*tok[3] == 'z') ts.tv_sec = ts.tv_nsec = 0;
    else { ts.tv_sec = strtol(tok[3], NULL, 0); ts.tv_nsec = strtol(strchr(tok[3], ':') + 1, NULL, 0); }
    for (int i = 4; i < nt; i++) {
        char *s = tok[i], *p[6];
        for (int j = 0; j < 6; j++) { p[j] = s; s = strchr(s, ','); if (s) *s++ = 0; else if (j < 5) { fprintf(stderr, "kqh: bad change\n"); _exit(72); } }
        struct kevent *k = &cl[nch_];
        memset(k, 0, sizeof *k);
        k->ident = parse_ident(p[1], norm[nch_]);
        k->filter = atoi(p[0]);
        k->flags = strtoul(p[2], NULL, 0);
        k->fflags = strtoul(p[3], NULL, 0);
        k->data = strtol(p[4], NULL, 0);
        k->udata = (void *)strtoul(p[5], NULL, 0);
        nch_++;
        if ((k->flags & EV_ADD) && *ks >= '0' && *ks <= '9') nreg[atoi(ks)]++;
    }
    memset(el, 0xA5, sizeof el);
    memcpy(cl_copy, cl, sizeof(struct kevent) * nch_);
    struct kevent *clp = cl, *elp = el;
    if (alias) { memcpy(el, cl, sizeof(struct kevent) * nch_); clp = el; }
    int cap = alias ? (nch_ > n ? nch_ : n) : n < 0 ? 0 : n;
    shim_blocked_forever = false;
    vtime t0 = shim_now;
    int dm0 = dbg_msgs; long se0 = dbg_err_size();
    /* log the intent first so that a crash or hang inside the call is attributable */
    char kname[32];
    if (sched_on && *ks >= '0' && *ks <= '9') sprintf(kname, "%d", fd); else snprintf(kname, sizeof kname, "%s%s", pname, ks);
    fprintf(tr, "{\"op\":\"kev\",\"k\":\"%s\",\"ch\":[", kname);
    for (int i = 0; i < nch_; i++) { if (i) fputc(',', tr); pr_kev(&cl_copy[i], norm[i]); fputc('}', tr); }
    fprintf(tr, "],\"n\":%d,\"nul\":%d,\"bt\":%d,", n, nullel, bt);
    if (!tsp || bt) fprintf(tr, "\"to\":[-1,0],"); else fprintf(tr, "\"to\":[%ld,%ld],", ts.tv_sec > 2000000000L ? 2000000000L : (long)ts.tv_sec, (long)ts.tv_nsec);
    bool negc = !nch_ && *tok[2] != '-' && strpbrk(tok[2], "cC");     /* a negative number of changes: none */
    if (negc) EV_SET(&cl[0], 1, EVFILT_USER, EV_ADD | EV_DISABLE, 0, 0, NULL);
    struct kcall c = { .fd = fd, .cl = nch_ || negc ? clp : NULL, .ncl = negc ? (strchr(tok[2], 'c') ? -1 : INT_MIN) : nch_, .el = nullel ? NULL : elp, .n = n, .ts = tsp, .dis = cmode == 'd', .at = cat };
    int cx = 0;
    if (cmode) {
        pthread_t t; void *res;
        fflush(tr);
        pthread_create(&t, NULL, cthread, &c);
        pthread_join(t, &res);
        shim_block_cb = NULL; shim_point_at = 0;
        cx = !c.done;
        if (cx) {       /* the entries it managed to write */
            c.e = 0; c.cs = 0;
            for (c.r = 0; c.r < cap; c.r++) {
                bool touched = false;
                for (unsigned char *q = (unsigned char *)&el[c.r]; q < (unsigned char *)&el[c.r + 1]; q++) if (*q != 0xA5) touched = true;
                if (!touched || !el[c.r].filter || (el[c.r].filter == EVFILT_VNODE && !el[c.r].fflags && !(el[c.r].flags & EV_ERROR))) break;      /* untouched, or discarded again */
            }
        }
    } else docall(&c, PTHREAD_CANCEL_ENABLE);
    int r = c.r, e = c.e;
    if (shim_gaveup) _exit(90);
    bool over = false, chg = false;
    for (unsigned char *p = (unsigned char *)&el[cap]; p < (unsigned char *)&el[cap + 32]; p++) if (*p != 0xA5) over = true;
    if (!alias && memcmp(cl, cl_copy, sizeof(struct kevent) * nch_)) chg = true;
    fprintf(tr, "\"r\":%d,\"e\":%d,\"ev\":[", r, r < 0 ? e : 0);
    for (int i = 0; i < r && i < 1600; i++) {
        struct kevent *k = &el[i];
        if (i) fputc(',', tr);
        pr_kev(k, NULL);
        int q = 0;
        if (k->filter == EVFILT_WRITE && !(k->flags & EV_ERROR)) { if (ioctl((int)k->ident, SIOCOUTQ, &q) < 0) q = 0; }
        fprintf(tr, ",\"p\":%d}", q);
    }
    fprintf(tr, "],");
    pr_time("t0", t0); fputc(',', tr); pr_time("t1", shim_now);
    fprintf(tr, ",\"blk\":%d,\"over\":%d,\"chg\":%d,\"flt\":\"%s\",\"hit\":%d,\"cx\":%d,\"cs\":%d", shim_blocked_forever, over, chg,
            shim_fault_fn, shim_fault_hit, cx, c.cs);
    if (!cmode) pr_dbg(dm0, se0);
    fprintf(tr, "}\n");
    shim_fault_clear();
}

static void mkchild(const char *name)
{
    int p[2], rdy[2];
    if (pipe(p) || pipe(rdy)) _exit(73);
    fflush(tr);
    pid_t pid = syscall(SYS_fork);      /* raw: the library's atfork handlers must not run for helper children */
    if (pid == 0) {
        int cmd[2];
        int a = real_fcntl(p[0], F_DUPFD, 4000), b = real_fcntl(rdy[1], F_DUPFD, 4000);
        dup2(a, 3); dup2(b, 4); p[0] = 3;
        if (nostd) syscall(SYS_close_range, 0, 1, 0);
        syscall(SYS_close_range, 5, ~0U, 0);
        sigset_t s; sigfillset(&s); sigprocmask(SIG_UNBLOCK, &s, NULL);
        for (int i = 1; i < 65; i++) signal(i, SIG_DFL);
        struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (write(4, "x", 1) != 1) _exit(1);
        if (read(p[0], cmd, sizeof cmd) != sizeof cmd) _exit(0);
        if (cmd[0]) { kill(syscall(SYS_getpid), cmd[1]); for (;;) pause(); }
        _exit(cmd[1]);
    }
    real_close(p[0]); real_close(rdy[1]);
    /* wait until the child has let go of every inherited descriptor */
    char x; if (read(rdy[0], &x, 1) != 1) _exit(73);
    real_close(rdy[0]);
    struct child *c = &ch[nch++];
    snprintf(c->name, sizeof c->name, "%s", name);
    c->pid = pid; c->ctl = p[1]; owned++;
}
static void endchild(struct child *c, int sig, int val)
{
    int cmd[2] = { sig, val };
    if (write(c->ctl, cmd, sizeof cmd) != sizeof cmd) _exit(74);
    siginfo_t si;
    while (waitid(P_PID, c->pid, &si, WEXITED | WNOWAIT) < 0 && errno == EINTR) ;
    int pf = syscall(SYS_pidfd_open, c->pid, 0);
    struct pollfd p = { .fd = pf, .events = POLLIN };
    poll(&p, 1, 5000);
    real_close(pf);
}

/* ---- forked processes that use the library themselves; the first process hands out the operations one at a time */
#define MAXPR 6
static struct proc { char name[16]; int dn[2], up[2], pf; pid_t pid; bool live, killed; } pr[MAXPR];
static int *prcnt;              /* shared: processes forked so far */
struct msg { char kind; vtime now; pid_t pid; char line[4000]; };
static void op(char **tok, int nt);
static int split(char *line, char **tok)
{
    int nt = 0; char *s2 = NULL;
    for (char *t = strtok_r(line, " ", &s2); t && nt < MAXTOK; t = strtok_r(NULL, " ", &s2)) tok[nt++] = t;
    return nt;
}
static int hifd(int fd) { int f = real_fcntl(fd, F_DUPFD, 3900); real_close(fd); return f; }
static void pr_setup(void)
{
    for (int i = 0; i < MAXPR; i++) {
        if (pipe(pr[i].dn) || pipe(pr[i].up)) _exit(81);
        for (int j = 0; j < 2; j++) { pr[i].dn[j] = hifd(pr[i].dn[j]); pr[i].up[j] = hifd(pr[i].up[j]); }
        pr[i].live = false;
    }
}
static void xread(int fd, void *b, size_t n) { for (char *p = b; n;) { ssize_t r = read(fd, p, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; _exit(82); } p += r; n -= r; } }
static void xwrite(int fd, const void *b, size_t n) { for (const char *p = b; n;) { ssize_t r = write(fd, p, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; _exit(82); } p += r; n -= r; } }
static void child_loop(struct proc *me)
{
    static char *tok[MAXTOK];
    struct msg m;
    for (;;) {
        xread(me->dn[0], &m, sizeof m);
        shim_advance_to(m.now);
        if (m.kind == 'x') exit(0);
        if (m.kind == 'X') _exit(0);
        int nt = split(m.line, tok);
        op(tok, nt);
        fflush(tr);
        m.kind = 'a'; m.now = shim_now;
        xwrite(me->up[1], &m, sizeof m);
    }
}
static pid_t last_pid;
static void do_pfork(const char *name)
{
    int i = (*prcnt)++, nk = 0;
    if (i >= MAXPR) _exit(83);
    for (int k = 0; k < MAXKQ; k++) if (kqopen[k]) nk += nkqfds[k];
    fflush(tr);
    pid_t pid = fork();         /* with the library's handlers */
    if (pid < 0) _exit(83);
    struct proc *me = &pr[i];
    if (pid == 0) {
        int open = 0;
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        for (int k = 0; k < MAXKQ; k++) if (kqopen[k]) { for (int i = 0; i < nkqfds[k]; i++) open += real_fcntl(kqfds[k][i], F_GETFD, 0) >= 0; kqstale[k] = true; kqopen[k] = false; }
        fprintf(tr, "{\"op\":\"pfork\",\"p\":\"%s\",\"c\":\"%s/\",\"open\":%d,\"kqs\":%d}\n", pname, name, open, nk);
        snprintf(pname, sizeof pname, "%s/", name);
        nkqopen = 0; cost = -1; base_fds = count_fds() - owned;
        shim_disown_timers();
        fflush(tr);
        struct msg m = { .kind = 'r', .now = shim_now, .pid = getpid() };
        xwrite(me->up[1], &m, sizeof m);
        child_loop(me);
    }
    last_pid = pid;
    if (!*pname) {
        /* the child is there before we go on */
        struct msg m;
        xread(me->up[0], &m, sizeof m);
    }
}
static void pr_adopt(const char *name, pid_t pid)      /* first process only */
{
    struct proc *q = &pr[*prcnt - 1];
    snprintf(q->name, sizeof q->name, "%s", name);
    q->pid = pid; q->live = true;
    q->pf = hifd(syscall(SYS_pidfd_open, pid, 0)); owned++;
}
static struct proc *pr_find(const char *name)
{
    for (int i = 0; i < MAXPR; i++) if (pr[i].live && !strcmp(pr[i].name, name)) return &pr[i];
    fprintf(stderr, "kqh: unknown process %s\n", name); _exit(70);
}
static bool pr_wait(struct proc *q, struct msg *m)
{
    struct pollfd p[2] = { { .fd = q->up[0], .events = POLLIN }, { .fd = q->pf, .events = POLLIN } };
    while (poll(p, 2, -1) < 0 && errno == EINTR) ;
    if (p[0].revents & POLLIN) { xread(q->up[0], m, sizeof *m); return true; }
    return false;
}
static void pr_send(const char *name, char *line)
{
    struct proc *q = pr_find(name);
    struct msg m = { .kind = 'o', .now = shim_now };
    bool pf = !strncmp(line, "pf ", 3);
    snprintf(m.line, sizeof m.line, "%s", line);
    fflush(tr);
    int before = *prcnt;
    xwrite(q->dn[1], &m, sizeof m);
    if (!pr_wait(q, &m)) _exit(91);     /* it died: crash */
    shim_advance_to(m.now);
    if (pf && *prcnt > before) {
        struct msg r;
        xread(pr[*prcnt - 1].up[0], &r, sizeof r);
        pr_adopt(line + 3, r.pid);
    }
    fseek(tr, 0, SEEK_END);
}
/* a thread forks while others are in the library; what the child finds: 0 or the number of the first thing wrong.
 * Nobody else runs until the child is gone. */
static int epolls(void)
{
    char p[64], l[256]; int n = 0;
    for (int i = 0; i < 600; i++) {
        snprintf(p, sizeof p, "/proc/self/fd/%d", i);
        ssize_t m = readlink(p, l, sizeof l - 1);
        if (m > 0 && (l[m] = 0, strstr(l, "eventpoll"))) n++;
    }
    return n;
}
static int forked(int *stale, int n)
{
    struct kevent kv, ev[2];
    struct timespec z = { 0, 0 };
    int p[2];
    for (int i = 0; i < n; i++) {
        EV_SET(&kv, 1, EVFILT_USER, EV_ADD, 0, 0, 0);
        if (kevent(stale[i], &kv, 1, ev, 1, &z) != -1 || errno != ENOENT) return 1;
    }
    if (epolls()) return 2;
    for (int j = 0; j < 2; j++) {
        int q = kqueue();
        if (q < 0) return 3;
        EV_SET(&kv, 1, EVFILT_USER, EV_ADD | EV_ONESHOT, 0, 0, 0);
        if (kevent(q, &kv, 1, NULL, 0, &z)) return 4;
        EV_SET(&kv, 1, EVFILT_USER, 0, NOTE_TRIGGER, 0, 0);
        if (kevent(q, &kv, 1, ev, 2, &z) != 1 || ev[0].filter != EVFILT_USER) return 5;
        if (kevent(q, NULL, 0, ev, 2, &z)) return 6;
        if (pipe(p)) return 7;
        EV_SET(&kv, p[0], EVFILT_READ, EV_ADD, 0, 0, 0);
        if (kevent(q, &kv, 1, ev, 2, &z)) return 8;
        if (write(p[1], "x", 1) != 1 || kevent(q, NULL, 0, ev, 2, &z) != 1 || ev[0].ident != (uintptr_t)p[0] || ev[0].data != 1) return 9;
        real_close(q);
        real_close(p[0]); real_close(p[1]);
    }
    for (int i = 0; epolls(); i++) { if (i > 3000) return 10; usleep(1000); }
    return 0;
}
static void no_sched(void) { sched_on = false; }        /* in the child, before the library's handler */
static int do_cfork(char how)
{
    int stale[MAXKQ], n = 0, st = 0;
    for (int k = 0; k < MAXKQ; k++) if (kqopen[k]) stale[n++] = kqfd[k];
    fflush(trmain);
    shim_in_lib++;
    pid_t pid = fork();
    shim_in_lib--;
    if (pid < 0) _exit(83);
    if (pid == 0) {
        sigset_t s; sigemptyset(&s); sigaddset(&s, SIGALRM); sigprocmask(SIG_UNBLOCK, &s, NULL);
        signal(SIGALRM, SIG_DFL);
        alarm(10);
        int v = how == 'n' ? 0 : forked(stale, n);
        if (how == 'x' && !v) exit(v);
        _exit(v);
    }
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    return st;
}
static void do_pexit(const char *name)
{
    struct proc *q = pr_find(name);
    struct msg m = { .kind = 'x', .now = shim_now };
    int st = 0;
    fflush(tr);
    xwrite(q->dn[1], &m, sizeof m);
    struct pollfd p = { .fd = q->pf, .events = POLLIN };
    while (poll(&p, 1, -1) < 0 && errno == EINTR) ;
    while (waitpid(q->pid, &st, 0) < 0 && errno == EINTR) ;
    real_close(q->pf); owned--;
    q->live = false;
    fseek(tr, 0, SEEK_END);
    fprintf(tr, "{\"op\":\"pexit\",\"c\":\"%s/\",\"r\":%d}\n", name, WIFEXITED(st) ? WEXITSTATUS(st) : -1);
}

static void do_quit(int v);
/* a thread of its own waits on a kqueue, for real */
static volatile pid_t bg_tid;
static void *bg_main(void *a)
{
    struct kevent ev[4];
    bg_tid = syscall(SYS_gettid);
    int k = (int)(intptr_t)a;
    kevent(kqfd[k], NULL, 0, ev, 4, NULL);
    return NULL;
}
static void op(char **tok, int nt)
{
    const char *o = tok[0];
    if (!strcmp(o, "kev") || !strcmp(o, "ckev")) { do_kev(tok, nt); return; }
    if (!strcmp(o, "quit")) do_quit(atoi(tok[1]));
    if (!strcmp(o, "bg")) {
        pthread_t t;
        bg_tid = 0;
        sigset_t all, old;      /* signals are for the main thread, which is the one that blocks those it watches */
        sigfillset(&all);
        pthread_sigmask(SIG_BLOCK, &all, &old);
        if (pthread_create(&t, NULL, bg_main, (void *)(intptr_t)atoi(tok[1]))) _exit(89);
        pthread_sigmask(SIG_SETMASK, &old, NULL);
        if (nt > 2) usleep(atoi(tok[2]));
#if defined(__SANITIZE_ADDRESS__) || defined(__clang__)
        /* the allocator of the address sanitizer does not survive a fork() while another thread uses it: let it go to sleep first */
        for (int i = 0, quiet = 0; i < 20000 && quiet < 5; i++) {
            char path[64], b[512] = "";
            snprintf(path, sizeof path, "/proc/self/task/%d/stat", (int)bg_tid);
            int f = bg_tid ? open(path, O_RDONLY) : -1;
            if (f >= 0) { if (read(f, b, sizeof b - 1) < 0) b[0] = 0; real_close(f); }
            char *p = strrchr(b, ')');
            quiet = (p && p[2] == 'S') || (bg_tid && f < 0) ? quiet + 1 : 0;
            usleep(300);
        }
#endif
        fprintf(tr, "{\"op\":\"bg\",\"k\":\"%s\"}\n", tok[1]);
        return;
    }
    if (!strcmp(o, "pf")) { do_pfork(tok[1]); return; }
    if (!strcmp(o, "pexit")) { do_pexit(tok[1]); return; }
    if (!strcmp(o, "clk") && shim_nofile && !kqopen[atoi(tok[1])]) { fprintf(tr, "{\"op\":\"skip\"}\n"); return; }
    if (!strcmp(o, "kq") && nt > 2 && *tok[2] == 'r' && kqopen[atoi(tok[1])]) { fprintf(tr, "{\"op\":\"skip\"}\n"); return; }    /* retry: not needed */
    fprintf(tr, "{\"op\":\"%s\"", o);
    if (!strcmp(o, "cfk")) {
        int st = do_cfork(nt > 1 ? *tok[1] : '_');
        fprintf(tr, ",\"r\":%d", st);
    } else if (!strcmp(o, "kq")) {
        int k = atoi(tok[1]);
        int cs, want = PTHREAD_CANCEL_ENABLE;
        static unsigned char fdb[4096], fda[4096];
        if (!inpar) fd_set_now(fdb, sizeof fdb);
        int dm0 = dbg_msgs; long se0 = dbg_err_size();
        if (nt > 2 && *tok[2] == 'd') pthread_setcancelstate(want = PTHREAD_CANCEL_DISABLE, NULL);
        shim_in_lib++;
        int r = kqueue(), e = errno;
        shim_in_lib--;
        pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &cs);
        if (r < 0) kqfd[k] = -1;
        limfail = r < 0 && shim_nofile;      /* the monitoring thread may wait for a kqueue that does not fail */
        if (r < 0 && shim_nofile) {     /* beyond the limit at the time of the first kqueue(): may be refused */
            int t[8];
            for (int i = 0; i < 8; i++) t[i] = open("/dev/null", O_RDONLY);
            if (t[7] < 0 || t[7] >= shim_nofile) shim_fault_hit = 1;
            for (int i = 0; i < 8; i++) if (t[i] >= 0) real_close(t[i]);
        }
        bool dup = false;
        for (int i = 0; i < MAXKQ; i++) if (kqopen[i] && kqfd[i] == r) dup = true;
        for (int i = 0; i < nends; i++) if (ends[i].open && ends[i].fd == r) dup = true;
        if (r >= 0) {
            kqfd[k] = r; kqopen[k] = true; kqstale[k] = false; nkqopen++; nreg[k] = 0;
            if (cost < 0) cost = lib_fds();
            nkqfds[k] = 0;
            if (!inpar) {
                fd_set_now(fda, sizeof fda);
                for (int i = 0; i < (int)sizeof fda; i++) if (fda[i] && !fdb[i] && nkqfds[k] < MAXKFD) kqfds[k][nkqfds[k]++] = i;
            }
        }
        fprintf(tr, ",\"k\":\"%s%d\",\"r\":%d,\"e\":%d,\"dup\":%d,\"flt\":\"%s\",\"hit\":%d,\"cs\":%d", pname, sched_on ? r : k, r < 0 ? -1 : 0, r < 0 ? e : 0, dup, shim_fault_fn, shim_fault_hit, cs != want);
        pr_dbg(dm0, se0);
        shim_fault_clear();
    } else if (!strcmp(o, "clk")) {
        int k = atoi(tok[1]);
        real_close(kqfd[k]); kqopen[k] = false; nkqopen--;
        fprintf(tr, ",\"k\":\"%s%d\"", pname, sched_on ? kqfd[k] : k);
        fprintf(tr, ",\"par\":%d", inpar);
        if (sched_me() == 0) sched_quiesce();       /* outside par: let the monitoring thread clean up */
    } else if (!strcmp(o, "mk")) {
        const char *n = tok[1], *kind = tok[2];
        char nm[64];
        int p[2], v = nt > 3 ? atoi(tok[3]) : 0;
        if (!strcmp(kind, "pipe")) {
            if (pipe(p)) _exit(75);
            nb(p[0]); nb(p[1]);
            real_fcntl(p[1], F_SETPIPE_SZ, 4096 * 4);
            sprintf(nm, "%sr", n); add_end(nm, p[0], K_PIPE);
            sprintf(nm, "%sw", n); add_end(nm, p[1], K_PIPE);
        } else if (!strcmp(kind, "fifo")) {      /* a pipe with a name */
            char path[600];
            snprintf(path, sizeof path, "%s/%s", sdir, n);
            if (mkfifo(path, 0600)) _exit(75);
            p[0] = open(path, O_RDONLY | O_NONBLOCK);
            p[1] = open(path, O_WRONLY | O_NONBLOCK);
            if (p[0] < 0 || p[1] < 0) _exit(75);
            real_fcntl(p[1], F_SETPIPE_SZ, 4096 * 4);
            sprintf(nm, "%sr", n); add_end(nm, p[0], K_PIPE);
            sprintf(nm, "%sw", n); add_end(nm, p[1], K_PIPE);
            kind = "pipe";
        } else if (!strcmp(kind, "dgramf")) {    /* datagram sockets with a packet filter (that lets everything through) */
            struct sock_filter code = BPF_STMT(BPF_RET | BPF_K, 0xffffffff);
            struct sock_fprog prog = { 1, &code };
            if (socketpair(AF_UNIX, SOCK_DGRAM, 0, p)) _exit(75);
            for (int i = 0; i < 2; i++) { nb(p[i]); sndbuf(p[i]); if (setsockopt(p[i], SOL_SOCKET, SO_ATTACH_FILTER, &prog, sizeof prog)) _exit(75); }
            sprintf(nm, "%sa", n); add_end(nm, p[0], K_SOCK);
            sprintf(nm, "%sb", n); add_end(nm, p[1], K_SOCK);
        } else if (!strcmp(kind, "stream") || !strcmp(kind, "dgram") || !strcmp(kind, "seqp")) {
            int t = !strcmp(kind, "stream") ? SOCK_STREAM : !strcmp(kind, "dgram") ? SOCK_DGRAM : SOCK_SEQPACKET;
            if (socketpair(AF_UNIX, t, 0, p)) _exit(75);
            nb(p[0]); nb(p[1]); sndbuf(p[0]); sndbuf(p[1]);
            sprintf(nm, "%sa", n); add_end(nm, p[0], K_SOCK);
            sprintf(nm, "%sb", n); add_end(nm, p[1], K_SOCK);
        } else if (!strcmp(kind, "listen")) {
            struct sockaddr_un sa = { .sun_family = AF_UNIX };
            int s = socket(AF_UNIX, SOCK_STREAM, 0);
            struct end *e = add_end(n, s, K_LISTEN);
            s = e->fd;
            snprintf(e->path, sizeof e->path, "%s/%s.sock", sdir, n);
            snprintf(sa.sun_path, sizeof sa.sun_path, "%s", e->path);
            unlink(e->path);
            if (bind(s, (void *)&sa, sizeof sa) || listen(s, 64)) { perror("listen"); _exit(75); }
            nb(s);
        } else if (!strcmp(kind, "evfd")) {
            add_end(n, syscall(SYS_eventfd2, 0, EFD_NONBLOCK), K_EVFD);
        } else if (!strcmp(kind, "null")) {
            add_end(n, open("/dev/null", O_RDWR), K_OTHER);
        } else if (!strcmp(kind, "dir")) {
            add_end(n, open(sdir, O_RDONLY | O_DIRECTORY), K_OTHER);
        } else if (!strcmp(kind, "file")) {
            char path[600];
            snprintf(path, sizeof path, "%s/%s", sdir, n);
            int f = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
            if (f < 0 || ftruncate(f, v)) { perror(path); _exit(75); }
            struct end *e = add_end(n, f, K_FILE);
            snprintf(e->path, sizeof e->path, "%s", path);
        } else _exit(76);
        fprintf(tr, ",\"o\":\"%s\",\"kind\":\"%s\",\"v\":%d", n, kind, v);
    } else if (!strcmp(o, "re")) {
        /* re END KIND PEER: a new object takes the descriptor number (and name) of a closed end */
        struct end *e = find_end(tok[1]); const char *kind = tok[2]; int p[2], fd = e->fd;
        char name[64], peer[64]; snprintf(name, sizeof name, "%s", tok[1]); snprintf(peer, sizeof peer, "%s", tok[3]);
        if (e->open) _exit(78);
        if (!strcmp(kind, "stream") || !strcmp(kind, "seqp") || !strcmp(kind, "dgram")) {
            if (socketpair(AF_UNIX, !strcmp(kind, "stream") ? SOCK_STREAM : !strcmp(kind, "dgram") ? SOCK_DGRAM : SOCK_SEQPACKET, 0, p)) _exit(75);
            nb(p[0]); nb(p[1]); sndbuf(p[0]); sndbuf(p[1]);
            force_fd = fd; add_end(name, p[0], K_SOCK); add_end(peer, p[1], K_SOCK);
        } else if (!strcmp(kind, "pr") || !strcmp(kind, "pw")) {
            if (pipe(p)) _exit(75);
            nb(p[0]); nb(p[1]); real_fcntl(p[1], F_SETPIPE_SZ, 4096 * 4);
            int w = kind[1] == 'w';
            force_fd = fd; add_end(name, p[w], K_PIPE); add_end(peer, p[!w], K_PIPE);
        } else if (!strcmp(kind, "evfd")) {
            force_fd = fd; add_end(name, syscall(SYS_eventfd2, 0, EFD_NONBLOCK), K_EVFD);
        } else _exit(76);
        fprintf(tr, ",\"o\":\"@%s\",\"kind\":\"%s\",\"p\":\"@%s\"", name, kind, peer);
    } else if (!strcmp(o, "lim")) {         /* the descriptor limit when the library is first used */
        shim_nofile = atoi(tok[1]);
    } else if (!strcmp(o, "hifd")) {        /* a program with many descriptors of its own */
        int n = atoi(tok[1]), d = open("/dev/null", O_RDONLY);
        if (d < 0) _exit(77);
        for (owned++; d < n - 1; owned++) if ((d = dup(d)) < 0) _exit(77);
        if (next_fd < n + 100) next_fd = n + 100;
    } else if (!strcmp(o, "hi")) {
        /* move an end to a high descriptor number */
        struct end *e = find_end(tok[1]);
        int nf = real_fcntl(e->fd, F_DUPFD, atoi(tok[2]));
        if (nf < 0) _exit(77);
        real_close(e->fd); e->fd = nf;
        fprintf(tr, ",\"o\":\"%s\"", tok[1]);
    } else if (!strcmp(o, "wr")) {
        struct end *e = find_end(tok[1]); int n = atoi(tok[2]); char b[70000] = { 0 };
        ssize_t w;
        if (e->kind == K_EVFD) { uint64_t x = n; w = write(e->fd, &x, 8) == 8 ? n : -1; }
        else if (e->kind == K_SOCK) w = send(e->fd, b, n, MSG_NOSIGNAL);
        else w = write(e->fd, b, n);
        fprintf(tr, ",\"o\":\"@%s\",\"n\":%d,\"r\":%zd", tok[1], n, w);
    } else if (!strcmp(o, "rd")) {
        struct end *e = find_end(tok[1]); int n = atoi(tok[2]); char b[70000];
        ssize_t r;
        if (e->kind == K_EVFD) { uint64_t x = 0; r = read(e->fd, &x, 8) == 8 ? (ssize_t)x : -1; }
        else r = read(e->fd, b, n);
        fprintf(tr, ",\"o\":\"@%s\",\"n\":%d,\"r\":%zd", tok[1], n, r);
    } else if (!strcmp(o, "fill")) {
        struct end *e = find_end(tok[1]); char b[4096] = { 0 }; long tot = 0; ssize_t w;
        for (;;) {
            w = e->kind == K_SOCK ? send(e->fd, b, sizeof b, MSG_NOSIGNAL) : write(e->fd, b, sizeof b);
            if (w > 0) tot += w; else break;
        }
        if (e->kind == K_PIPE) { while ((w = write(e->fd, b, 64)) > 0) tot += w; }
        fprintf(tr, ",\"o\":\"@%s\",\"r\":%ld", tok[1], tot);
    } else if (!strcmp(o, "drain")) {
        struct end *e = find_end(tok[1]); char b[65536]; long tot = 0; ssize_t r;
        while ((r = read(e->fd, b, sizeof b)) > 0) tot += r;
        fprintf(tr, ",\"o\":\"@%s\",\"r\":%ld", tok[1], tot);
    } else if (!strcmp(o, "shut")) {
        struct end *e = find_end(tok[1]);
        fprintf(tr, ",\"o\":\"@%s\",\"r\":%d", tok[1], shutdown(e->fd, SHUT_WR));
    } else if (!strcmp(o, "cl")) {
        struct end *e = find_end(tok[1]);
        fprintf(tr, ",\"o\":\"@%s\",\"r\":%d", tok[1], real_close(e->fd));
        e->open = false; owned--;
    } else if (!strcmp(o, "conn")) {
        struct end *e = find_end(tok[1]);
        struct sockaddr_un sa = { .sun_family = AF_UNIX };
        snprintf(sa.sun_path, sizeof sa.sun_path, "%s", e->path);
        int s = socket(AF_UNIX, SOCK_STREAM, 0);
        int r = connect(s, (void *)&sa, sizeof sa);
        if (r == 0) add_end(tok[2], s, K_SOCK);
        fprintf(tr, ",\"o\":\"@%s\",\"r\":%d", tok[1], r);
    } else if (!strcmp(o, "acc")) {
        struct end *e = find_end(tok[1]);
        int s = accept4(e->fd, NULL, NULL, SOCK_NONBLOCK);
        if (s >= 0) real_close(s);
        fprintf(tr, ",\"o\":\"@%s\",\"r\":%d", tok[1], s >= 0 ? 0 : -1);
    } else if (!strcmp(o, "adv")) {
        shim_advance_to(shim_now + strtoll(tok[1], NULL, 0) * 1000000000LL + strtoll(tok[2], NULL, 0));
        fputc(',', tr); pr_time("t", shim_now);
    } else if (!strcmp(o, "sig")) {
        int s = atoi(tok[1]); handler_hits = 0;
        kill(getpid(), s);
        fprintf(tr, ",\"i\":\"#%x\",\"s\":%d,\"h\":%d", s, s, handler_hits);
    } else if (!strcmp(o, "fork")) {
        mkchild(tok[1]);
        fprintf(tr, ",\"c\":\"%%%s\"", tok[1]);
    } else if (!strcmp(o, "exit") || !strcmp(o, "killc")) {
        struct child *c = find_child(tok[1]); int v = atoi(tok[2]);
        endchild(c, !strcmp(o, "killc"), v);
        fprintf(tr, ",\"c\":\"%%%s\",\"v\":%d", tok[1], v);
    } else if (!strcmp(o, "reap")) {
        struct child *c = find_child(tok[1]); int st = -1;
        int r = waitpid(c->pid, &st, WNOHANG);
        fprintf(tr, ",\"c\":\"%%%s\",\"r\":%d,\"st\":%d", tok[1], r == c->pid ? 1 : r, r == c->pid ? (st & ~0x80) : -1);
    } else if (!strcmp(o, "fw") || !strcmp(o, "fp")) {
        struct end *e = find_end(tok[1]); int n = atoi(tok[2]); char b[8192] = { 0 }; struct stat st;
        fstat(e->fd, &st);
        ssize_t w = pwrite(e->fd, b, n, *(o + 1) == 'w' ? st.st_size : 0);
        fstat(e->fd, &st);
        fprintf(tr, ",\"o\":\"@%s\",\"n\":%d,\"r\":%zd,", tok[1], n, w);
        pr_data("sz", st.st_size);
    } else if (!strcmp(o, "fseek")) {
        struct end *e = find_end(tok[1]);
        off_t w = lseek(e->fd, atol(tok[2]), SEEK_SET);
        fprintf(tr, ",\"o\":\"@%s\",\"r\":%d,", tok[1], w < 0 ? -1 : 0);
        pr_data("v", atol(tok[2]));
    } else if (!strcmp(o, "ftrunc")) {
        struct end *e = find_end(tok[1]);
        int w = ftruncate(e->fd, atol(tok[2]));
        fprintf(tr, ",\"o\":\"@%s\",\"r\":%d,", tok[1], w);
        pr_data("v", atol(tok[2]));
    } else if (!strcmp(o, "chmod")) {
        struct end *e = find_end(tok[1]);
        fprintf(tr, ",\"o\":\"@%s\",\"r\":%d", tok[1], fchmod(e->fd, 0600));
    } else if (!strcmp(o, "link") || !strcmp(o, "ulink")) {
        struct end *e = find_end(tok[1]); char b[400];
        snprintf(b, sizeof b, "%s.ln", e->path);
        int r = *o == 'l' ? linkat(AT_FDCWD, e->path, AT_FDCWD, b, 0) : unlink(b);
        fprintf(tr, ",\"o\":\"@%s\",\"r\":%d", tok[1], r);
    } else if (!strcmp(o, "ren")) {
        struct end *e = find_end(tok[1]); char b[400], c[400];
        snprintf(b, sizeof b, "%s.r%d", e->path, e->nren);
        if (e->nren == 0) snprintf(c, sizeof c, "%s.r0", e->path); else snprintf(c, sizeof c, "%s.r%d", e->path, e->nren);
        char src[400]; if (e->nren == 0) snprintf(src, sizeof src, "%s", e->path); else snprintf(src, sizeof src, "%.*s.r%d", 380, e->path, e->nren - 1);
        int r = rename(src, b); e->nren++;
        fprintf(tr, ",\"o\":\"@%s\",\"r\":%d", tok[1], r);
    } else if (!strcmp(o, "unlink")) {
        struct end *e = find_end(tok[1]); char src[400];
        if (e->nren == 0) snprintf(src, sizeof src, "%s", e->path); else snprintf(src, sizeof src, "%.*s.r%d", 380, e->path, e->nren - 1);
        fprintf(tr, ",\"o\":\"@%s\",\"r\":%d", tok[1], unlink(src));
    } else if (!strcmp(o, "touch") || !strcmp(o, "touchw")) {
        struct end *e = find_end(tok[1]); char src[400];
        if (e->nren == 0) snprintf(src, sizeof src, "%s", e->path); else snprintf(src, sizeof src, "%.*s.r%d", 380, e->path, e->nren - 1);
        int f = open(src, o[5] ? O_WRONLY : O_RDONLY);
        if (f < 0) _exit(79);
        real_close(f);
        fprintf(tr, ",\"o\":\"@%s\"", tok[1]);
    } else if (!strcmp(o, "fault")) {
        shim_fault_arm(tok[1], atoi(tok[2]), atoi(tok[3]));
        fprintf(tr, ",\"fn\":\"%s\",\"nth\":%d,\"err\":%d", tok[1], atoi(tok[2]), atoi(tok[3]));
    } else if (!strcmp(o, "dbge")) {
        /* dbge V [full]: the environment the library starts in; full: nothing can be written to standard error */
        if (!strcmp(tok[1], "-")) unsetenv("KQUEUE_DEBUG"); else setenv("KQUEUE_DEBUG", !strcmp(tok[1], "empty") ? "" : tok[1], 1);
        if (nt > 2) { dbg_full = true; int f = open("/dev/full", O_WRONLY); if (f < 0 || dup2(f, 2) < 0) _exit(84); real_close(f); }
        fprintf(tr, ",\"v\":\"%s\",\"on\":%d", tok[1], strcmp(tok[1], "-") && strcmp(tok[1], "empty") && *tok[1] != '0');
    } else if (!strcmp(o, "dbgp") || !strcmp(o, "dbgf")) {
        /* dbgp K N R: prefix number N (-1: back to the default); dbgf K F R: own function (1) or the default one (0); R: ask for a receipt */
        int k = atoi(tok[1]), v = atoi(tok[2]), rc = atoi(tok[3]);
        bool pre = o[3] == 'p';
        char *heap = NULL;
        struct kevent kv, ev[4];
        struct timespec z = { 0, 0 };
        if (pre) {
            if (v >= 0) { heap = malloc(24); snprintf(heap, 24, v ? "pre%d" : "", v); snprintf(dbg_prefix, sizeof dbg_prefix, "%s", heap); }
            else strcpy(dbg_prefix, "KQ");
        }
        EV_SET(&kv, 0, EVFILT_LIBKQUEUE, EV_ADD | (rc ? EV_RECEIPT : 0), pre ? NOTE_DEBUG_PREFIX : NOTE_DEBUG_FUNC, pre ? (intptr_t)heap : v ? (intptr_t)dbg_cb : 0, (void *)0x5);
        /* the messages of this very call may still use the old prefix */
        int wrong = dbg_wrong;
        int r = kevent(kqfd[k], &kv, 1, ev, rc, &z);
        __atomic_store_n(&dbg_wrong, wrong, __ATOMIC_SEQ_CST);
        if (heap) { memset(heap, '!', 23); free(heap); }      /* the library keeps a copy */
        fprintf(tr, ",\"k\":\"%d\",\"v\":%d,\"rc\":%d,\"r\":%d", k, v, rc, r);
    } else if (!strcmp(o, "exec")) {        /* how many of them are the library's? */
        fprintf(tr, ",\"n\":%d", exec_fds() - base_exec - owned);
    } else if (!strcmp(o, "fds")) {
        int want = (cost < 0 ? 0 : cost * nkqopen) + (nt > 1 ? atoi(tok[1]) : 0), got, most = want, mem = 0;
        for (int i = 0; i < MAXKQ; i++) if (kqopen[i]) most += nreg[i];
        sched_quiesce();
        for (int i = 0; i < 50000; i++) {
            got = lib_fds();
            mem = want || nkqopen || limfail || *pname || dbg_used || trouble[200] < 0 ? 0 : __atomic_load_n(&shim_mem, __ATOMIC_SEQ_CST) - trouble[200];
            if ((got == want || (*pname && got < want)) && mem <= 0) break;
            usleep(i < 200 ? 20 : 1000);
            if (got > want && got <= most && i > 200 + fdwait / 50) break;      /* registrations explain it */
            if (i > 200 + fdwait) { ++*trouble; break; }
        }
        fprintf(tr, ",\"p\":\"%s\",\"n\":%d,\"kqs\":%d,\"cost\":%d,\"mem\":%d", pname, got, nkqopen, cost < 0 ? 0 : cost, got == want && mem > 0 ? mem : 0);
    } else { fprintf(stderr, "kqh: unknown op %s\n", o); _exit(80); }
    fprintf(tr, "}\n");
}

/* ---- threads: par SEED MODE [DEPTH SPAN] / :N op ... / join */
#define MAXHIST 6000
static struct hist { char kind; int t; char *txt; size_t len; FILE *ms; vtime now; } hist[MAXHIST];
static int nhist;

static struct hist *h_new(char kind, int t)
{
    if (nhist >= MAXHIST) _exit(90);
    hist[nhist] = (struct hist){ .kind = kind, .t = t, .now = shim_now };
    return &hist[nhist++];
}

static bool quitting;
static void h_tick(void) { if (quitting) _exit(91); /* exit() had to wait for something */ if (inpar) h_new('t', 0); }
static void h_flush(void)
{
    for (int i = 0; i < nhist; i++) {
        struct hist *h = &hist[i];
        if (h->ms) fflush(h->ms);
        switch (h->kind) {
        case 't': fprintf(trmain, "{\"op\":\"tick\",\"t\":[%ld,%ld]}\n", (long)(h->now / 1000000000L), (long)(h->now % 1000000000L)); break;
        case 'd': fprintf(trmain, "{\"op\":\"dead\"}\n"); break;
        case 'r': fprintf(trmain, "{\"op\":\"ret\",\"th\":%d}\n", h->t); break;
        case 'e': fputs(h->txt, trmain); break;
        case 'i':
            fprintf(trmain, "{\"op\":\"inv\",\"th\":%d,\"o\":", h->t);
            if (h->len && h->txt[h->len - 1] == '\n') fprintf(trmain, "%.*s}\n", (int)h->len - 1, h->txt);
            else {      /* it never returned */
                if (!strncmp(h->txt, "{\"op\":\"cfk", 10)) fprintf(trmain, "%s,\"r\":-9}}\n", h->txt);
                else if (!strncmp(h->txt, "{\"op\":\"kq\"", 10)) fprintf(trmain, "%s,\"k\":\"?\",\"r\":-9,\"cs\":0}}\n", h->txt);
                else fprintf(trmain, "%s\"r\":-9,\"e\":0,\"ev\":[],\"t0\":[0,0],\"t1\":[0,0],\"blk\":0,\"over\":0,\"chg\":0,\"flt\":\"\",\"hit\":0,\"cx\":0,\"cs\":0}}\n", h->txt);
            }
        }
    }
    fflush(trmain);
}
static void h_dead(void)
{
    if (quitting) _exit(91);
    if (inpar) { h_new('d', 0); h_flush(); }
    else { fflush(trmain); fprintf(trmain, "{\"op\":\"dead\"}\n"); fflush(trmain); }
    for (int i = 0; i < nch; i++) kill(ch[i].pid, SIGKILL);
    _exit(0);
}
/* exit(), with the library's handlers; the driver records how it ended */
static void do_quit(int v)
{
    if (inpar) h_flush();
    fflush(trmain);
    for (int i = 0; i < nch; i++) kill(ch[i].pid, SIGKILL);
    for (int i = 0; i < MAXPR; i++) if (pr[i].live) kill(pr[i].pid, SIGKILL);
    quitting = true;
    trouble[100] = v + 1;
    if (sched_on) shim_in_lib++;
    exit(v);
}
struct worker { int id; char *line[64]; int n; pthread_t pt; };
static void *worker(void *a)
{
    struct worker *w = a;
    char *tok[256];
    for (int i = 0; i < w->n; i++) {
        int nt = split(w->line[i], tok);
        if (!nt) continue;
        sched_user_point();
        bool env = strcmp(tok[0], "kev") && strcmp(tok[0], "kq") && strcmp(tok[0], "cfk");
        struct hist *h = h_new(env ? 'e' : 'i', w->id);
        h->ms = tr = open_memstream(&h->txt, &h->len);
        op(tok, nt);
        fflush(tr);
        if (!env) h_new('r', w->id);
    }
    return NULL;
}
static void do_par(char **tok, int nt, struct worker *w, int nw)
{
    if (nt < 3 || !nw) return;
    if (*tok[2] == 's') sched_plan(nt > 3 ? tok[3] : NULL), nt = 3;
    int first = sched_nthreads();
    nhist = 0; inpar = true;
    fflush(tr);
    for (int i = 0; i < nw; i++) if (sched_create(&w[i].pt, NULL, worker, &w[i], false)) _exit(89);
    sched_run(atol(tok[1]), *tok[2], first, sched_nthreads() - 1, nt > 3 ? atoi(tok[3]) : 3, nt > 4 ? atol(tok[4]) : 150);
    inpar = false;
    h_flush();
    sched_quiesce();
}

static void run_scenario(char *text)
{
    static char *tok[MAXTOK];
    nends = nch = owned = 0; nkqopen = 0; cost = -1; shim_now = 1000000000000LL;
    memset(kqopen, 0, sizeof kqopen);
    prcnt = trouble + 1; *prcnt = 0;
    struct sigaction sa = { .sa_handler = onsig };
    for (int i = 1; i <= 64; i++)       /* all that can be caught, except those of crashes, job control, children and our own alarms */
        if (!strchr("\4\5\6\7\10\11\13\15\16\21\22\23\24\25\26\40\41", i)) sigaction(i, &sa, NULL);
    if (!strncmp(text, "pf ", 3) || strstr(text, "\npf ")) pr_setup();
    trmain = tr;
    if (!strncmp(text, "dbg", 3) || strstr(text, "\ndbg")) {       /* messages go to a file of the scenario */
        char path[600];
        snprintf(path, sizeof path, "%s/stderr", sdir);
        int f = open(path, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
        if (f < 0 || dup2(f, 2) < 0) _exit(84);
        close(f);
        dbg_used = true;
    }
    nostd = 0;
    if (!strncmp(text, "nostd ", 6)) {
        nostd = atoi(text + 6);
        if (nostd & 1) real_close(0);
        if (nostd & 2) real_close(1);
        text = strchr(text, '\n') + 1;
    }
    if (!strncmp(text, "par ", 4) || strstr(text, "\npar ")) { pthread_atfork(NULL, NULL, no_sched); sched_on_tick = h_tick; sched_on_deadlock = h_dead; sched_start(); }
    base_fds = count_fds();
    base_exec = exec_fds();
    char *save = NULL;
    static struct worker w[16]; int nw = 0; char *ptok[8]; int pnt = 0;
    for (char *line = strtok_r(text, "\n", &save); line; line = strtok_r(NULL, "\n", &save)) {
        if (*line == '!') {     /* !NAME op ...: done by process NAME */
            char *sp = strchr(line, ' '); *sp = 0;
            pr_send(line + 1, sp + 1);
            continue;
        }
        if (!strncmp(line, "par ", 4)) {
            memset(w, 0, sizeof w); nw = 0;
            pnt = split(line, ptok);
            continue;
        }
        if (*line == ':') {     /* :N op ...: done by thread N */
            int t = atoi(line + 1);
            if (t < 1 || t > 16) _exit(86);
            if (t > nw) nw = t;
            w[t - 1].id = t;
            if (w[t - 1].n < 64) w[t - 1].line[w[t - 1].n++] = strchr(line, ' ') + 1;
            continue;
        }
        if (!strcmp(line, "join")) { do_par(ptok, pnt, w, nw); pnt = nw = 0; continue; }
        char nm[16] = "";
        if (!strncmp(line, "pf ", 3)) snprintf(nm, sizeof nm, "%s", line + 3);
        int nt = split(line, tok);
        if (!nt || *tok[0] == '#') continue;
        op(tok, nt);
        fflush(tr);
        if (*nm) { pr_adopt(nm, last_pid); fseek(tr, 0, SEEK_END); }
    }
    fflush(tr);
    /* leave without running the library's atexit handler: the children are killed explicitly */
    for (int i = 0; i < nch; i++) kill(ch[i].pid, SIGKILL);
    for (int i = 0; i < MAXPR; i++) if (pr[i].live) kill(pr[i].pid, SIGKILL);
    _exit(0);
}

/* what the library keeps allocated once it has been used and all kqueues are gone (-1: it cannot be told) */
static int mem_base(void)
{
    int p[2], v = -1;
    if (pipe(p)) return -1;
    pid_t pid = fork();
    if (pid == 0) {
        base_fds = count_fds();
    base_exec = exec_fds();
        int kq = kqueue(), same = 0, last = -1;
        if (kq < 0) _exit(0);
        close(kq);
        for (int i = 0; i < 3000 && same < 40; i++) {
            int m = __atomic_load_n(&shim_mem, __ATOMIC_SEQ_CST);
            same = m == last && !lib_fds() ? same + 1 : 0;
            last = m;
            usleep(1000);
        }
        if (same < 40 || write(p[1], &last, sizeof last) < 0) _exit(0);
        _exit(0);
    }
    close(p[1]);
    if (pid < 0 || read(p[0], &v, sizeof v) != sizeof v) v = -1;
    close(p[0]);
    while (pid > 0 && waitpid(pid, NULL, 0) < 0 && errno == EINTR) ;
    return v;
}

int main(int argc, char **argv)
{
    if (argc < 4) return 64;
    scratch = argv[3];
    int tlim = argc > 4 ? atoi(argv[4]) : 20;
    struct rlimit rl = { 4096, 4096 }; setrlimit(RLIMIT_NOFILE, &rl);
    struct rlimit rc = { 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
    signal(SIGPIPE, SIG_IGN);
    unsetenv("KQUEUE_DEBUG");
    trouble = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (trouble == MAP_FAILED) return 66;
    trouble[200] = mem_base();
    if (getenv("KQH_FDWAIT")) fdwait = atoi(getenv("KQH_FDWAIT"));
    int sf = open(argv[1], O_RDONLY);
    struct stat st;
    if (sf < 0 || fstat(sf, &st)) { perror(argv[1]); return 66; }
    char *buf = malloc(st.st_size + 1);
    size_t off = 0; ssize_t r;
    while ((r = read(sf, buf + off, st.st_size - off)) > 0) off += r;
    buf[off] = 0;
    close(sf);
    tr = fopen(argv[2], "w");
    if (!tr) { perror(argv[2]); return 66; }
    static char tbuf[1 << 20];
    setvbuf(tr, tbuf, _IOFBF, sizeof tbuf);
    mkdir(scratch, 0700);
    char *p = buf;
    int idx = 0;
    while (p && *p) {
        if (strncmp(p, "S ", 2)) { fprintf(stderr, "kqh: script syntax at %.20s\n", p); return 65; }
        char *eol = strchr(p, '\n');
        *eol = 0;
        char *id = p + 2, *body = eol + 1;
        char *nx = strncmp(body, "S ", 2) ? strstr(body, "\nS ") : NULL;
        char *next = NULL;
        if (!strncmp(body, "S ", 2)) { next = body; body = ""; }
        else if (nx) { *nx = 0; next = nx + 1; }
        snprintf(sdir, sizeof sdir, "%s/s%d", scratch, idx++);
        mkdir(sdir, 0700);
        fprintf(tr, "{\"op\":\"reset\",\"id\":\"%s\"}\n", id);
        fflush(tr);
        trouble[100] = 0;
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            run_scenario(*body ? strdup(body) : body);
        }
        int stt = 0; bool hang = false;
        int pf = syscall(SYS_pidfd_open, pid, 0);
        struct pollfd pp = { .fd = pf, .events = POLLIN };
        if (poll(&pp, 1, tlim * 1000) == 0) { hang = true; *trouble += 2; kill(pid, SIGKILL); }
        close(pf);
        while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) ;
        /* the child shares our file offset; resync */
        fseek(tr, 0, SEEK_END);
        bool gaveup = !hang && WIFEXITED(stt) && WEXITSTATUS(stt) == 90;   /* too many virtual clock steps: the scenario just ends */
        if (trouble[100]) {
            if (!gaveup) fprintf(tr, "{\"op\":\"quit\",\"v\":%d,\"r\":%d}\n", trouble[100] - 1, hang ? -2 : WIFEXITED(stt) ? WEXITSTATUS(stt) : -1);
            fflush(tr);
        } else if (hang || !WIFEXITED(stt) || WEXITSTATUS(stt)) {
            long pos = ftell(tr);
            int fd2 = open(argv[2], O_RDONLY); char c = '\n';
            if (pos > 0 && pread(fd2, &c, 1, pos - 1) == 1 && c != '\n') {
                /* cut the half written record */
                while (pos > 0 && pread(fd2, &c, 1, pos - 1) == 1 && c != '\n') pos--;
                if (ftruncate(fileno(tr), pos)) return 66;
                fseek(tr, 0, SEEK_END);
            }
            close(fd2);
            if (!gaveup) fprintf(tr, "{\"op\":\"%s\",\"v\":%d}\n", hang ? "hang" : "crash", hang ? 0 : stt);
            fflush(tr);
        }
        char cmd[700];
        DIR *d = opendir(sdir);
        if (d) {
            struct dirent *de;
            while ((de = readdir(d))) { if (*de->d_name == '.' && (!de->d_name[1] || de->d_name[1] == '.')) continue; snprintf(cmd, sizeof cmd, "%s/%s", sdir, de->d_name); unlink(cmd); }
            closedir(d);
        }
        rmdir(sdir);
        p = next;
        if (*trouble >= 4) break;       /* enough to report; do not spend hours on a broken library */
    }
    fclose(tr);
    return 0;
}
