From 5fb978cd6012dca407f56df7f044bb1125f9862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:55 +0000
Subject: [PATCH 01/37] fix: kevent: return receipts and errors without waiting
 for events

Changelist results were dropped when the wait that follows timed out
(kevent() returned 0), were held back until an event arrived, and the
wait was given the size of the whole eventlist instead of the space
left after the receipts.
---
 src/common/kevent.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 51f347b..d07bdfa 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -434,6 +434,16 @@ kevent(int kqfd,
      * the changelist, copy events out.
      */
     if ((el_end - el_p) > 0) {
+        static const struct timespec no_wait;
+
+        /*
+         * The changelist already produced entries, pick
+         * up any events which are pending, but don't make
+         * the caller wait for its receipts and errors.
+         */
+        if (el_p > eventlist)
+            timeout = &no_wait;
+
         /*
          * Allow cancellation in kevent_wait as we
          * may be waiting a long time for the thread
@@ -446,7 +456,7 @@ kevent(int kqfd,
             pthread_testcancel();
         }
 #endif
-        rv = kqops.kevent_wait(kq, nevents, timeout);
+        rv = kqops.kevent_wait(kq, el_end - el_p, timeout);
 #ifndef _WIN32
         (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
 #endif
@@ -461,9 +471,12 @@ kevent(int kqfd,
         } else if (rv == 0) {
             /* Timeout reached */
             dbg_printf("(%u) kevent_wait timedout", myid);
+            rv = el_p - eventlist;      /* There may still be entries from copyin */
         } else {
             dbg_printf("(%u) kevent_wait failed", myid);
-            goto out;
+            if (el_p == eventlist)
+                goto out;
+            rv = el_p - eventlist;
         }
     /*
      * If we have no space, return how many kevents
-- 
2.43.0


From 3c226b68b59b481584052598711e449af34b8e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:55 +0000
Subject: [PATCH 02/37] fix: kevent: EV_ADD|EV_DISABLE must not leave the knote
 armed

The knote was marked as disabled before it was created.  EVFILT_USER then
failed to disable it (it was never registered) and reported ENOENT, the
descriptor filters saw no enabled knote to remove and left it armed.
---
 src/common/kevent.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index d07bdfa..345e059 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -196,7 +196,7 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
                 return (-1);
             }
             memcpy(&kn->kev, src, sizeof(kn->kev));
-            kn->kev.flags &= ~EV_ENABLE;
+            kn->kev.flags &= ~(EV_ENABLE | EV_DISABLE); /* created enabled, see below for EV_DISABLE */
             kn->kn_kq = kq;
             assert(filt->kn_create);
             rv = filt->kn_create(filt, kn);
@@ -215,10 +215,8 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
             *out = kn;
 
 /* XXX- FIXME Needs to be handled in kn_create() to prevent races */
-            if (src->flags & EV_DISABLE) {
-                kn->kev.flags |= EV_DISABLE;
-                return filt->kn_disable(filt, kn);
-            }
+            if (src->flags & EV_DISABLE)
+                return knote_disable(filt, kn);
             //........................................
             return (rv);
         } else {
-- 
2.43.0


From 3e8d9c4bcbcaa1f62e94ace2c40e9e3bbe1c4030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:14 +0000
Subject: [PATCH 03/37] fix: kevent: re-adding an existing knote updates and
 enables it

EV_ADD left a disabled knote disabled (it only re-armed behind the disabled
flag) and EV_ADD|EV_ENABLE ignored the new parameters.  kqueue(2): "Re-adding
an existing event will modify the parameters of the original event [...].
Adding an event automatically enables it, unless overridden by EV_DISABLE".
---
 src/common/kevent.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 345e059..34588d2 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -233,21 +233,27 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
         rv = knote_delete(filt, kn);
     } else if (src->flags & EV_DISABLE) {
         rv = knote_disable(filt, kn);
-    } else if (src->flags & EV_ENABLE) {
-        rv = knote_enable(filt, kn);
-    } else if (src->flags & EV_ADD || src->flags == 0 || src->flags & EV_RECEIPT) {
-        rv = filt->kn_modify(filt, kn, src);
-        /*
-         * Implement changes common to all filters
-         */
-        if (rv == 0) {
-            /* update udata */
-            kn->kev.udata = src->udata;
+    } else {
+        /* Re-adding a knote also enables it */
+        if (src->flags & (EV_ENABLE | EV_ADD))
+            rv = knote_enable(filt, kn);
+
+        if ((rv == 0) &&
+            (src->flags & EV_ADD || src->flags == 0 ||
+             ((src->flags & (EV_RECEIPT | EV_ENABLE)) == EV_RECEIPT))) {
+            rv = filt->kn_modify(filt, kn, src);
+            /*
+             * Implement changes common to all filters
+             */
+            if (rv == 0) {
+                /* update udata */
+                kn->kev.udata = src->udata;
 
-            /* sync up the dispatch bit */
-            COPY_FLAGS_BIT(kn->kev, (*src), EV_DISPATCH);
+                /* sync up the dispatch bit */
+                COPY_FLAGS_BIT(kn->kev, (*src), EV_DISPATCH);
+            }
+            dbg_printf("kn=%p - kn_modify rv=%d", kn, rv);
         }
-        dbg_printf("kn=%p - kn_modify rv=%d", kn, rv);
     }
     *out = kn;
 
-- 
2.43.0


From 37e42466d7ae386ad0c778976cae3e6d4873bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:12 +0000
Subject: [PATCH 04/37] fix: timer: a oneshot timer modified to be periodic
 must keep firing

EPOLLONESHOT was set when the timer was created and never revisited, so the
modified timer fired once and then went silent.
---
 src/linux/timer.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/linux/timer.c b/src/linux/timer.c
index 2e2082d..74fe74e 100644
--- a/src/linux/timer.c
+++ b/src/linux/timer.c
@@ -158,7 +158,6 @@ evfilt_timer_knote_create(struct filter *filt, struct knote *kn)
     struct itimerspec ts;
     int tfd;
     int flags;
-    int events;
 
     kn->kev.flags |= EV_CLEAR;
 
@@ -182,12 +181,13 @@ evfilt_timer_knote_create(struct filter *filt, struct knote *kn)
         return (-1);
     }
 
-    events = EPOLLIN | EPOLLET;
-    if (kn->kev.flags & (EV_ONESHOT | EV_DISPATCH))
-        events |= EPOLLONESHOT;
-
+    /*
+     * EV_ONESHOT and EV_DISPATCH are left to the common code, which
+     * removes the timer once it's fired.  The flags can change when
+     * the timer is modified so they can't be baked in here.
+     */
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
-    if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_ADD, tfd, EPOLL_EV_KN(events, kn)) < 0) {
+    if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_ADD, tfd, EPOLL_EV_KN(EPOLLIN | EPOLLET, kn)) < 0) {
         dbg_printf("epoll_ctl(2): %d", errno);
         close(tfd);
         return (-1);
-- 
2.43.0


From d6165863a4fda5c24ee443c1a412b679431dc31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:35 +0000
Subject: [PATCH 05/37] fix: timer: modifying a disabled timer must not fail or
 enable it

There's no timerfd whilst the timer is disabled so timerfd_settime() failed
with EBADF.  The new parameters are now recorded and used once the timer is
enabled.
---
 src/linux/timer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/linux/timer.c b/src/linux/timer.c
index 74fe74e..8d4ca0d 100644
--- a/src/linux/timer.c
+++ b/src/linux/timer.c
@@ -209,12 +209,13 @@ evfilt_timer_knote_modify(struct filter *filt, struct knote *kn,
     convert_timedata_to_itimerspec(&ts, kev->data, kev->fflags,
                                    kev->flags & EV_ONESHOT);
     flags = (kev->fflags & NOTE_ABSOLUTE) ? TFD_TIMER_ABSTIME : 0;
-    if (timerfd_settime(kn->kn_timerfd, flags, &ts, NULL) < 0) {
+    /* There's no timer whilst the knote is disabled, just record the new parameters */
+    if (KNOTE_ENABLED(kn) && timerfd_settime(kn->kn_timerfd, flags, &ts, NULL) < 0) {
         dbg_printf("timerfd_settime(2): %s", strerror(errno));
         return (-1);
     }
 
-    kn->kev.flags = kev->flags | EV_CLEAR;
+    kn->kev.flags = (kev->flags & ~EV_ENABLE) | EV_CLEAR | (kn->kev.flags & EV_DISABLE);
     kn->kev.fflags = kev->fflags;
     kn->kev.data = kev->data;
 
-- 
2.43.0


From 72957eda78507a2cd1708ab399dcc621b214492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 06/37] fix: proc: report exit of processes that can't be
 waited for

waitid() fails with ECHILD if the process was reaped before kevent() was
called or isn't a child of the caller.  kevent() then failed (aborting in
debug builds) instead of reporting NOTE_EXIT.
---
 src/linux/proc.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index ba7d2a2..440a15d 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -30,7 +30,7 @@ int
 evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
     struct knote *src, UNUSED_NDEBUG void *ptr)
 {
-    siginfo_t info;
+    siginfo_t info = { 0 };
     unsigned int status = 0;
 #ifndef NDEBUG
     struct epoll_event * const ev = (struct epoll_event *) ptr;
@@ -42,7 +42,14 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
     /* Get the exit status _without_ reaping the process, waitpid() should still work in the caller */
     if (waitid(P_PID, (id_t)src->kev.ident, &info, WEXITED | WNOHANG | WNOWAIT) < 0) {
         dbg_printf("waitid(2): %s", strerror(errno));
-        return (-1);
+        if (errno != ECHILD) return (-1);
+
+        /*
+         *  Either the process was already reaped, or it's not one of
+         *  our children.  The pidfd says it exited, so still notify
+         *  the caller, we just don't know what the exit status was.
+         */
+        goto done;
     }
 
     /*
@@ -72,6 +79,7 @@ evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
         return (0);
     }
 
+done:
     dst->data = status;
     dst->flags |= EV_EOF; /* Set in macOS and FreeBSD kqueue implementations */
 
-- 
2.43.0


From 0d554d8da934f5f0a170f6947c39a2133ca5003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:26 +0000
Subject: [PATCH 07/37] fix: proc: modifying a knote keeps it consistent with
 what is monitored

EV_ADD of an existing EVFILT_PROC knote dropped the implied EV_ONESHOT and
the disabled state, leaked the pidfd or failed to (un)register it when
NOTE_EXIT was removed or added, and disabling or deleting a knote without a
pidfd failed.
---
 src/linux/proc.c | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/linux/proc.c b/src/linux/proc.c
index 440a15d..e9018fc 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -26,6 +26,8 @@
 #include <sys/syscall.h>
 #include <sys/wait.h>
 
+int evfilt_proc_knote_delete(struct filter *filt, struct knote *kn);
+
 int
 evfilt_proc_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
     struct knote *src, UNUSED_NDEBUG void *ptr)
@@ -91,6 +93,8 @@ done:
 int
 evfilt_proc_knote_enable(struct filter *filt, struct knote *kn)
 {
+    if (kn->kn_procfd < 0) return (0); /* Not monitoring anything */
+
     if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_ADD, kn->kn_procfd, EPOLL_EV_KN(EPOLLIN, kn)) < 0) {
         dbg_printf("epoll_ctl(2): %s", strerror(errno));
         return -1;
@@ -101,6 +105,8 @@ evfilt_proc_knote_enable(struct filter *filt, struct knote *kn)
 int
 evfilt_proc_knote_disable(struct filter *filt, struct knote *kn)
 {
+    if (kn->kn_procfd < 0) return (0); /* Not monitoring anything */
+
     if (epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_DEL, kn->kn_procfd, NULL) < 0) {
         dbg_printf("epoll_ctl(2): %s", strerror(errno));
         return (-1);
@@ -128,6 +134,7 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
     }
     if (fcntl(pfd, F_SETFD, FD_CLOEXEC) < 0) {
         dbg_perror("fcntl(2)");
+        close(pfd);
         return (-1);
     }
     dbg_printf("created pidfd=%i monitoring pid=%u", pfd, (unsigned int)kn->kev.ident);
@@ -144,17 +151,38 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
 
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
 
-    return evfilt_proc_knote_enable(filt, kn);
+    if (KNOTE_ENABLED(kn) && (evfilt_proc_knote_enable(filt, kn) < 0)) {
+        close(kn->kn_procfd);
+        kn->kn_procfd = -1;
+        return (-1);
+    }
+
+    return (0);
 }
 
 int
 evfilt_proc_knote_modify(struct filter *filt, struct knote *kn, const struct kevent *kev)
 {
-    /* We don't need to make any changes to the pidfd, just record the new flags */
-    kn->kev.flags = kev->flags;
+    struct kevent old = kn->kev;
+
+    kn->kev.flags = (kev->flags & ~(EV_ENABLE | EV_DISABLE)) | (old.flags & EV_DISABLE);
     kn->kev.fflags = kev->fflags;
 
-    if (kn->kn_procfd < 0) return evfilt_proc_knote_create(filt, kn);
+    /* No longer interested in the process exiting */
+    if (!(kev->fflags & NOTE_EXIT))
+        return (kn->kn_procfd < 0) ? 0 : evfilt_proc_knote_delete(filt, kn);
+
+    /* Newly interested in the process exiting */
+    if (kn->kn_procfd < 0) {
+        if (evfilt_proc_knote_create(filt, kn) < 0) {
+            kn->kev = old;
+            return (-1);
+        }
+        return (0);
+    }
+
+    /* We don't need to make any changes to the pidfd, just record the new flags */
+    kn->kev.flags |= EV_ONESHOT | EV_CLEAR;
 
     return (0);
 }
@@ -164,6 +192,8 @@ evfilt_proc_knote_delete(struct filter *filt, struct knote *kn)
 {
     int rv = 0;
 
+    if (kn->kn_procfd < 0) return (0); /* Not monitoring anything */
+
     /* If it's enabled, we need to remove the pidfd from epoll */
     if (KNOTE_ENABLED(kn) && (evfilt_proc_knote_disable(filt, kn) < 0)) rv = -1;
 
-- 
2.43.0


From d309d6027a0c3289a6059eb9250bd3f27444951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:45 +0000
Subject: [PATCH 08/37] fix: vnode: only report events the caller registered
 for

An unrelated open/close of the watched file turned the knote into a oneshot
one, kevents with no fflags set were returned, NOTE_EXTEND was never reported
unless NOTE_WRITE was registered too, IN_ONESHOT made the kernel drop the
watch on the first event of any kind, and the event was built from an
uninitialised stat buffer once the descriptor had been closed.
---
 src/linux/vnode.c | 106 +++++++++++++++++++++++-----------------------
 1 file changed, 53 insertions(+), 53 deletions(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index 3c28575..a316642 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -95,6 +95,9 @@ get_one_event(struct inotify_event *dst, size_t len, int inofd)
 
             case EINTR:
                 continue;
+
+            case EAGAIN:
+                return (1); /* No more events */
             }
 
             dbg_perror("read");
@@ -113,35 +116,41 @@ get_one_event(struct inotify_event *dst, size_t len, int inofd)
     return (0);
 }
 
-static int
-add_watch(struct filter *filt, struct knote *kn)
+static uint32_t
+watch_mask(unsigned int fflags)
 {
-    int ifd;
-    char path[PATH_MAX];
     uint32_t mask;
 
-    /* Convert the fd to a pathname */
-    if (linux_fd_to_path(path, sizeof(path), kn->kev.ident) < 0)
-        return (-1);
-
     /* Convert the fflags to the inotify mask */
     mask = IN_CLOSE;
-    if (kn->kev.fflags & NOTE_DELETE)
+    if (fflags & NOTE_DELETE)
         mask |= IN_ATTRIB | IN_DELETE_SELF;
-    if (kn->kev.fflags & NOTE_WRITE)
+    if (fflags & NOTE_WRITE)
         mask |= IN_MODIFY | IN_ATTRIB;
-    if (kn->kev.fflags & NOTE_EXTEND)
+    if (fflags & NOTE_EXTEND)
         mask |= IN_MODIFY | IN_ATTRIB;
-    if ((kn->kev.fflags & NOTE_ATTRIB) ||
-            (kn->kev.fflags & NOTE_LINK))
+    if ((fflags & NOTE_ATTRIB) ||
+            (fflags & NOTE_LINK))
         mask |= IN_ATTRIB;
-    if (kn->kev.fflags & NOTE_RENAME)
+    if (fflags & NOTE_RENAME)
         mask |= IN_MOVE_SELF;
-    if (kn->kev.flags & EV_ONESHOT)
-        mask |= IN_ONESHOT;
+
+    return (mask);
+}
+
+static int
+add_watch(struct filter *filt, struct knote *kn)
+{
+    int ifd;
+    char path[PATH_MAX];
+    uint32_t mask = watch_mask(kn->kev.fflags);
+
+    /* Convert the fd to a pathname */
+    if (linux_fd_to_path(path, sizeof(path), kn->kev.ident) < 0)
+        return (-1);
 
     /* Create an inotify descriptor */
-    ifd = inotify_init1(IN_CLOEXEC);
+    ifd = inotify_init1(IN_CLOEXEC | IN_NONBLOCK);
     if (ifd < 0) {
         if ((errno == EMFILE) || (errno == ENFILE)) {
             dbg_perror("inotify_init(2) fd_used=%u fd_max=%u", get_fd_used(), get_fd_limit());
@@ -204,36 +213,27 @@ evfilt_vnode_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
     struct stat sb;
 
     evt = (struct inotify_event *)buf;
-    if (get_one_event(evt, sizeof(buf), src->kn_vnode.inotifyfd) < 0)
-        return (-1);
-
-    dbg_printf("inotify event: %s", inotify_event_dump(evt));
-    if (evt->mask & IN_IGNORED) {
-        /* TODO: possibly return error when fs is unmounted */
-        dst->filter = 0;
-        return (0);
-    }
-
-    /* Check if the watched file has been closed, and
-       XXX-this may not exactly match the kevent() behavior if multiple file de
-scriptors reference the same file.
-    */
-    if (evt->mask & IN_CLOSE_WRITE || evt->mask & IN_CLOSE_NOWRITE) {
-        src->kev.flags |= EV_ONESHOT; /* KLUDGE: causes the knote to be deleted */
-        dst->filter = 0; /* KLUDGE: causes the event to be discarded */
-        return (0);
-    }
-
     memcpy(dst, &src->kev, sizeof(*dst));
     dst->data = 0;
     dst->fflags = 0;
 
-    /* No error checking because fstat(2) should rarely fail */
-    //FIXME: EINTR
-    if (fstat(src->kev.ident, &sb) < 0 && errno == ENOENT) {
-        if (src->kev.fflags & NOTE_DELETE)
-            dst->fflags |= NOTE_DELETE;
-    } else {
+    /* Skip over events the caller has no interest in */
+    while (dst->fflags == 0) {
+        int rv = get_one_event(evt, sizeof(buf), src->kn_vnode.inotifyfd);
+        if (rv < 0) return (-1);
+        if (rv > 0) return (0);
+
+        dbg_printf("inotify event: %s", inotify_event_dump(evt));
+
+        if (fstat(src->kev.ident, &sb) < 0) {
+            /*
+             * The watched file descriptor has been closed,
+             * which removes the knote.
+             */
+            dbg_printf("fstat(2): %s", strerror(errno));
+            return (knote_delete(filt, src) < 0) ? -1 : 0;
+        }
+
         if ((evt->mask & IN_ATTRIB || evt->mask & IN_MODIFY)) {
             if (sb.st_nlink == 0 && src->kev.fflags & NOTE_DELETE)
                 dst->fflags |= NOTE_DELETE;
@@ -245,21 +245,21 @@ scriptors reference the same file.
                 dst->fflags |= NOTE_TRUNCATE;
 #endif
             if (sb.st_size > src->kn_vnode.size &&
-                src->kev.fflags & NOTE_WRITE)
+                src->kev.fflags & (NOTE_WRITE | NOTE_EXTEND))
                 dst->fflags |= NOTE_EXTEND;
             src->kn_vnode.nlink = sb.st_nlink;
             src->kn_vnode.size = sb.st_size;
         }
-    }
 
-    if (evt->mask & IN_MODIFY && src->kev.fflags & NOTE_WRITE)
-        dst->fflags |= NOTE_WRITE;
-    if (evt->mask & IN_ATTRIB && src->kev.fflags & NOTE_ATTRIB)
-        dst->fflags |= NOTE_ATTRIB;
-    if (evt->mask & IN_MOVE_SELF && src->kev.fflags & NOTE_RENAME)
-        dst->fflags |= NOTE_RENAME;
-    if (evt->mask & IN_DELETE_SELF && src->kev.fflags & NOTE_DELETE)
-        dst->fflags |= NOTE_DELETE;
+        if (evt->mask & IN_MODIFY && src->kev.fflags & NOTE_WRITE)
+            dst->fflags |= NOTE_WRITE;
+        if (evt->mask & IN_ATTRIB && src->kev.fflags & NOTE_ATTRIB)
+            dst->fflags |= NOTE_ATTRIB;
+        if (evt->mask & IN_MOVE_SELF && src->kev.fflags & NOTE_RENAME)
+            dst->fflags |= NOTE_RENAME;
+        if (evt->mask & IN_DELETE_SELF && src->kev.fflags & NOTE_DELETE)
+            dst->fflags |= NOTE_DELETE;
+    }
 
     if (knote_copyout_flag_actions(filt, src) < 0) return -1;
 
-- 
2.43.0


From dab5505531631e524ae28029dc44edeef972988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:36 +0000
Subject: [PATCH 09/37] fix: vnode: implement modification of an existing knote

Re-adding an EVFILT_VNODE knote, as documented for EV_ADD, always failed.
---
 src/linux/vnode.c | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index a316642..0946d94 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -286,10 +286,40 @@ int
 evfilt_vnode_knote_modify(struct filter *filt, struct knote *kn,
         const struct kevent *kev)
 {
+    char path[PATH_MAX];
+    struct stat sb;
+    int wd;
+
     (void)filt;
-    (void)kn;
-    (void)kev;
-    return (-1); /* FIXME - STUB */
+
+    /* If it's disabled, the watch is added when it's next enabled */
+    if (KNOTE_ENABLED(kn)) {
+        if (fstat(kn->kev.ident, &sb) < 0) {
+            dbg_perror("fstat(2)");
+            return (-1);
+        }
+
+        if (linux_fd_to_path(path, sizeof(path), kn->kev.ident) < 0)
+            return (-1);
+
+        /* Updates the mask of the existing watch */
+        wd = inotify_add_watch(kn->kn_vnode.inotifyfd, path, watch_mask(kev->fflags));
+        if (wd < 0) {
+            dbg_perror("inotify_add_watch(2)");
+            return (-1);
+        }
+
+        /* The fd was closed, and now refers to a different file */
+        if (wd != kn->kev.data) {
+            (void) inotify_rm_watch(kn->kn_vnode.inotifyfd, kn->kev.data);
+            kn->kev.data = wd;
+            kn->kn_vnode.nlink = sb.st_nlink;
+            kn->kn_vnode.size = sb.st_size;
+        }
+    }
+    kn->kev.fflags = kev->fflags;
+
+    return (0);
 }
 
 int
-- 
2.43.0


From 48f71dfac378b34f522c6000ef3d95829cf9a88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:48 +0000
Subject: [PATCH 10/37] fix: kevent: don't return early if every event was
 discarded

A wakeup for which no filter had anything to report made kevent() return 0
before the timeout had elapsed (or at all, if there was no timeout).
---
 src/common/kevent.c | 55 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 34588d2..6ebff42 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -341,6 +341,32 @@ kevent_release_kq_mutex(void *arg)
     dbg_printf("Unlocking kq=%p due to cancellation", kq);
     kqueue_unlock(kq);
 }
+
+/** Determine how much of a timeout remains
+ *
+ * @param[out] left     Where to write the remaining time.  Zero if there's none.
+ * @param[in] timeout   The original timeout.
+ * @param[in] start     When we started waiting.
+ */
+static void
+kevent_timeout_left(struct timespec *left, const struct timespec *timeout, const struct timespec *start)
+{
+    struct timespec now;
+
+    clock_gettime(CLOCK_MONOTONIC, &now);
+
+    left->tv_sec = timeout->tv_sec - (now.tv_sec - start->tv_sec);
+    left->tv_nsec = timeout->tv_nsec - (now.tv_nsec - start->tv_nsec);
+    if (left->tv_nsec < 0) {
+        left->tv_nsec += 1000000000;
+        left->tv_sec--;
+    } else if (left->tv_nsec >= 1000000000) {
+        left->tv_nsec -= 1000000000;
+        left->tv_sec++;
+    }
+    if (left->tv_sec < 0)
+        left->tv_sec = left->tv_nsec = 0;
+}
 #endif
 
 int VISIBLE
@@ -354,6 +380,8 @@ kevent(int kqfd,
     int rv = 0;
 #ifndef _WIN32
     int prev_cancel_state;
+    struct timespec start = { 0 }, left;
+    bool timed;
 #endif
 #ifndef NDEBUG
     static atomic_uint _kevent_counter = 0;
@@ -448,6 +476,15 @@ kevent(int kqfd,
         if (el_p > eventlist)
             timeout = &no_wait;
 
+#ifndef _WIN32
+        timed = timeout && (timeout->tv_sec || timeout->tv_nsec);
+        if (timed) {
+            clock_gettime(CLOCK_MONOTONIC, &start);
+            left = *timeout;
+        }
+
+    again:
+#endif
         /*
          * Allow cancellation in kevent_wait as we
          * may be waiting a long time for the thread
@@ -459,15 +496,27 @@ kevent(int kqfd,
             dbg_printf("Checking for deferred cancellations");
             pthread_testcancel();
         }
-#endif
-        rv = kqops.kevent_wait(kq, el_end - el_p, timeout);
-#ifndef _WIN32
+        rv = kqops.kevent_wait(kq, el_end - el_p, timed ? &left : timeout);
         (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
+#else
+        rv = kqops.kevent_wait(kq, el_end - el_p, timeout);
 #endif
         dbg_printf("kqops.kevent_wait rv=%i", rv);
         if (likely(rv > 0)) {
             rv = kqops.kevent_copyout(kq, rv, el_p, el_end - el_p);
             dbg_printf("(%u) kevent_copyout rv=%i", myid, rv);
+#ifndef _WIN32
+            /*
+             * Every event was discarded, go back to
+             * waiting if there's time left.
+             */
+            if (rv == 0 && el_p == eventlist) {
+                if (timed)
+                    kevent_timeout_left(&left, timeout, &start);
+                if (!timeout || (timed && (left.tv_sec || left.tv_nsec)))
+                    goto again;
+            }
+#endif
             if (rv >= 0) {
                 el_p += rv;             /* Add events from copyin */
                 rv = el_p - eventlist;  /* recalculate rv to be the total events in the eventlist */
-- 
2.43.0


From 886be209954d0e0b4bfacda83f6b90d92f07a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:50 +0000
Subject: [PATCH 11/37] fix: read/write: honour EV_ONESHOT, EV_DISPATCH and
 EV_DISABLE on regular files

EVFILT_READ on a regular file never deleted a oneshot or disabled a dispatch
knote, and failed to disable one which had reached EOF.
---
 src/linux/read.c  | 18 ++++--------------
 src/linux/write.c |  9 +--------
 2 files changed, 5 insertions(+), 22 deletions(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index a769f65..7319dae 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -99,8 +99,11 @@ evfilt_read_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
             }
             /* FIXME: race here, should we check the EOF status again ? */
 #endif
+            return (0);
         }
 
+        if (knote_copyout_flag_actions(filt, src) < 0) return -1;
+
         return (1);
     }
 
@@ -172,19 +175,6 @@ evfilt_read_knote_create(struct filter *filt, struct knote *kn)
     if (kn->kn_flags & KNFL_FILE) {
         int evfd;
 
-        /*
-         * We only set oneshot for cases where we're not going to
-         * be using EPOLL_CTL_MOD.
-         *
-         * We rely on the common code disabling the event after
-         * it's fired once.
-         *
-         * See this SO post for details:
-         * https://stackoverflow.com/questions/59517961/how-should-i-use-epoll-to-read-and-write-from-the-same-fd
-         */
-        if (kn->kev.flags & EV_ONESHOT || kn->kev.flags & EV_DISPATCH)
-            kn->epoll_events |= EPOLLONESHOT;
-
         kn->kn_epollfd = filter_epoll_fd(filt);
         evfd = eventfd(0, 0);
         if (evfd < 0) {
@@ -270,7 +260,7 @@ int
 evfilt_read_knote_disable(struct filter *filt, struct knote *kn)
 {
     if (kn->kn_flags & KNFL_FILE) {
-        if (epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
+        if (kn->kn_registered && epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
             dbg_perror("epoll_ctl(2)");
             return (-1);
         }
diff --git a/src/linux/write.c b/src/linux/write.c
index d253604..02c3b13 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -97,13 +97,6 @@ evfilt_write_knote_create(struct filter *filt, struct knote *kn)
         if (kn->kev.flags & EV_CLEAR)
             kn->epoll_events |= EPOLLET;
 
-        /*
-         * We only set oneshot for cases where we're not going to
-         * be using EPOLL_CTL_MOD.
-         */
-        if (kn->kev.flags & EV_ONESHOT || kn->kev.flags & EV_DISPATCH)
-            kn->epoll_events |= EPOLLONESHOT;
-
         kn->kn_epollfd = filter_epoll_fd(filt);
         evfd = eventfd(0, 0);
         if (evfd < 0) {
@@ -205,7 +198,7 @@ int
 evfilt_write_knote_disable(struct filter *filt, struct knote *kn)
 {
     if (kn->kn_flags & KNFL_FILE) {
-        if (epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
+        if (kn->kn_registered && epoll_ctl(kn->kn_epollfd, EPOLL_CTL_DEL, kn->kn_eventfd, NULL) < 0) {
             dbg_perror("epoll_ctl(2)");
             return (-1);
         }
-- 
2.43.0


From 628ef34cf615153fac74e17b5fd24fc145c7e7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:41 +0000
Subject: [PATCH 12/37] fix: read/write: re-adding a knote, and deleting one
 whose fd was reused

EV_ADD of an existing EVFILT_READ or EVFILT_WRITE knote failed unless
EV_CLEAR was set.  If the descriptor had been closed and reused it was never
registered again, and deleting the stale knote failed, leaving a pointer to
the freed knote in the fd state.
---
 src/linux/platform.c | 13 ++++++++++---
 src/linux/read.c     | 36 ++++++++++++++++--------------------
 src/linux/write.c    | 36 ++++++++++++++++--------------------
 3 files changed, 42 insertions(+), 43 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index ac69799..41163fa 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1417,6 +1417,7 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
     int have_ev, want, want_ev;
     int opn;
     int fd;
+    int rv;
 
     fd = kn->kev.ident;
 
@@ -1502,7 +1503,12 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
                opn, epoll_op_dump(opn),
                epoll_event_dump(EPOLL_EV_FDS(want, fds)));
 
-    if (epoll_ctl(filter_epoll_fd(filt), opn, fd, EPOLL_EV_FDS(want, fds)) < 0) {
+    rv = epoll_ctl(filter_epoll_fd(filt), opn, fd, EPOLL_EV_FDS(want, fds));
+    if ((rv < 0) && (op == EPOLL_CTL_ADD) && (opn == EPOLL_CTL_MOD) && (errno == ENOENT)) {
+        /* The file descriptor was closed and reused, it's no longer registered */
+        rv = epoll_ctl(filter_epoll_fd(filt), EPOLL_CTL_ADD, fd, EPOLL_EV_FDS(want, fds));
+    }
+    if (rv < 0) {
         dbg_printf("epoll_ctl(2): %s", strerror(errno));
 
         switch (opn) {
@@ -1514,9 +1520,10 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
         case EPOLL_CTL_MOD:
             /*
              * File descriptor went away and we weren't notified
-             * not necessarily an error.
+             * not necessarily an error.  It may also have been
+             * reused since.
              */
-            if (errno == EBADF) {
+            if (errno == EBADF || errno == ENOENT || errno == EPERM) {
                 int kn_ev = 0;
 
                 if (kn == fds->fds_read) {
diff --git a/src/linux/read.c b/src/linux/read.c
index 7319dae..902e914 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -204,26 +204,6 @@ evfilt_read_knote_create(struct filter *filt, struct knote *kn)
     return epoll_update(EPOLL_CTL_ADD, filt, kn, kn->epoll_events, false);
 }
 
-int
-evfilt_read_knote_modify(UNUSED struct filter *filt, struct knote *kn,
-        const struct kevent *kev)
-{
-    if (!(kn->kn_flags & KNFL_FILE)) {
-        /*
-         * This should reset the EOF sate of the socket.
-         * but it's not even clear what that really means.
-         *
-         * With the native kqueue implementations it
-         * basically does nothing.
-         */
-        if ((kev->flags & EV_CLEAR))
-            return (0);
-        return (-1);
-    }
-
-    return (-1);
-}
-
 int
 evfilt_read_knote_delete(struct filter *filt, struct knote *kn)
 {
@@ -241,6 +221,22 @@ evfilt_read_knote_delete(struct filter *filt, struct knote *kn)
     return epoll_update(EPOLL_CTL_DEL, filt, kn, EPOLLIN, true);
 }
 
+int
+evfilt_read_knote_modify(struct filter *filt, struct knote *kn,
+        UNUSED const struct kevent *kev)
+{
+    if (KNOTE_DISABLED(kn)) return (0);
+
+    /*
+     * The file descriptor may have been closed and now refer
+     * to something else, so register it from scratch.
+     */
+    if (evfilt_read_knote_delete(filt, kn) < 0) return (-1);
+    kn->kn_flags &= KNFL_KNOTE_DELETED;
+
+    return evfilt_read_knote_create(filt, kn);
+}
+
 int
 evfilt_read_knote_enable(struct filter *filt, struct knote *kn)
 {
diff --git a/src/linux/write.c b/src/linux/write.c
index 02c3b13..a8a363e 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -142,26 +142,6 @@ evfilt_write_knote_create(struct filter *filt, struct knote *kn)
     return epoll_update(EPOLL_CTL_ADD, filt, kn, kn->epoll_events, false);
 }
 
-int
-evfilt_write_knote_modify(UNUSED struct filter *filt, struct knote *kn,
-        const struct kevent *kev)
-{
-    if (!(kn->kn_flags & KNFL_FILE)) {
-        /*
-         * This should reset the EOF sate of the socket.
-         * but it's not even clear what that really means.
-         *
-         * With the native kqueue implementations it
-         * basically does nothing.
-         */
-        if ((kev->flags & EV_CLEAR))
-            return (0);
-        return (-1);
-    }
-
-    return (-1);
-}
-
 int
 evfilt_write_knote_delete(struct filter *filt, struct knote *kn)
 {
@@ -179,6 +159,22 @@ evfilt_write_knote_delete(struct filter *filt, struct knote *kn)
     return epoll_update(EPOLL_CTL_DEL, filt, kn, EPOLLOUT, true);
 }
 
+int
+evfilt_write_knote_modify(struct filter *filt, struct knote *kn,
+        UNUSED const struct kevent *kev)
+{
+    if (KNOTE_DISABLED(kn)) return (0);
+
+    /*
+     * The file descriptor may have been closed and now refer
+     * to something else, so register it from scratch.
+     */
+    if (evfilt_write_knote_delete(filt, kn) < 0) return (-1);
+    kn->kn_flags &= KNFL_KNOTE_DELETED;
+
+    return evfilt_write_knote_create(filt, kn);
+}
+
 int
 evfilt_write_knote_enable(struct filter *filt, struct knote *kn)
 {
-- 
2.43.0


From 857bc10b207cbcb05cd1dfd1efff2d97c565afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:22 +0000
Subject: [PATCH 13/37] fix: read/write: keep the epoll flags of both filters
 of a descriptor

Registering, disabling or deleting one of EVFILT_READ and EVFILT_WRITE
dropped EPOLLRDHUP and EPOLLET from the registration of the other, or made a
level triggered knote edge triggered.
---
 src/linux/platform.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 41163fa..38f54f4 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1410,6 +1410,38 @@ epoll_fd_registered(struct filter *filt, struct knote *kn)
 
     return true;
 }
+
+/** Determine the epoll flags for a file descriptor
+ *
+ * A file descriptor can only be registered once, so the flags have to suit
+ * every knote.  It's only edge triggered if all the knotes are.
+ *
+ * @param[in] fds      Holding the knotes.
+ * @param[in] kn       being updated.  May not be associated with the fds yet.
+ * @param[in] ev       EPOLLIN or EPOLLOUT depending on the filter kn belongs to.
+ * @param[in] want_ev  The events (EPOLLIN, EPOLLOUT) to register.
+ * @return Flags to pass to epoll_ctl.
+ */
+static int
+epoll_fd_events(struct fd_state *fds, struct knote *kn, int ev, int want_ev)
+{
+    struct knote *read = (ev & EPOLLIN) ? kn : fds->fds_read;
+    struct knote *write = (ev & EPOLLOUT) ? kn : fds->fds_write;
+    int events = 0, level = 0;
+
+    if (want_ev & EPOLLIN) {
+        events |= read->epoll_events;
+        level |= !(read->epoll_events & EPOLLET);
+    }
+    if (want_ev & EPOLLOUT) {
+        events |= write->epoll_events;
+        level |= !(write->epoll_events & EPOLLET);
+    }
+    if (level) events &= ~EPOLLET;
+
+    return (events);
+}
+
 int
 epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
 {
@@ -1497,6 +1529,8 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
     else
         return (0);
 
+    if (want_ev) want = epoll_fd_events(fds, kn, ev, want_ev);
+
     dbg_printf("fd=%i op=0x%04x (%s) opn=0x%04x (%s) %s",
                fd,
                op, epoll_op_dump(op),
-- 
2.43.0


From e35ec60a83796c43c8a8674c67de40a88e9c61a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:19 +0000
Subject: [PATCH 14/37] fix: read/write: don't lose events of a descriptor with
 both filters

Such a descriptor is one epoll event, but may need two entries in the
eventlist.  If there wasn't room, whatever epoll_wait() had returned beyond
it was lost if it was edge triggered, and with room for one entry only the
write event was never reported while the descriptor was readable.
---
 src/linux/platform.c | 138 +++++++++++++++++++++++++++----------------
 src/linux/platform.h |   2 +
 2 files changed, 89 insertions(+), 51 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 38f54f4..d12693d 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -679,6 +679,12 @@ linux_kevent_wait(struct kqueue *kq, int nevents, const struct timespec *ts)
             timeout = (1000 * ts->tv_sec) + (ts->tv_nsec / 1000000);
     }
 
+    /*
+     * A descriptor with both read and write knotes is one
+     * epoll event, but may need two entries in the eventlist.
+     */
+    nevents -= (kq->kq_nb_dual_fds < nevents / 2) ? kq->kq_nb_dual_fds : nevents / 2;
+
     dbg_puts("waiting for events");
     nret = epoll_wait(kqueue_epoll_fd(kq), epoll_events, nevents, timeout);
     if (nret < 0) {
@@ -818,6 +824,53 @@ epoll_event_dump(const struct epoll_event *ev)
     return ((const char *) buf);
 }
 
+/** Determine the epoll flags for a file descriptor
+ *
+ * A file descriptor can only be registered once, so the flags have to suit
+ * every knote.  It's only edge triggered if all the knotes are.
+ *
+ * @param[in] fds      Holding the knotes.
+ * @param[in] kn       being updated.  May not be associated with the fds yet.
+ * @param[in] ev       EPOLLIN or EPOLLOUT depending on the filter kn belongs to.
+ * @param[in] want_ev  The events (EPOLLIN, EPOLLOUT) to register.
+ * @return Flags to pass to epoll_ctl.
+ */
+static int
+epoll_fd_events(struct fd_state *fds, struct knote *kn, int ev, int want_ev)
+{
+    struct knote *read = (ev & EPOLLIN) ? kn : fds->fds_read;
+    struct knote *write = (ev & EPOLLOUT) ? kn : fds->fds_write;
+    int events = 0, level = 0;
+
+    if (want_ev & EPOLLIN) {
+        events |= read->epoll_events;
+        level |= !(read->epoll_events & EPOLLET);
+    }
+    if (want_ev & EPOLLOUT) {
+        events |= write->epoll_events;
+        level |= !(write->epoll_events & EPOLLET);
+    }
+    if (level) events &= ~EPOLLET;
+
+    return (events);
+}
+
+/** Have epoll report the state of a file descriptor again
+ *
+ * @param[in] kq       the file descriptor is registered with.
+ * @param[in] fds      of the file descriptor.
+ * @param[in] kn       one of the knotes associated with the fds.
+ */
+static void
+epoll_fd_rearm(struct kqueue *kq, struct fd_state *fds, struct knote *kn)
+{
+    int have_ev = epoll_fd_state(&fds, kn, false);
+
+    if (have_ev && (epoll_ctl(kqueue_epoll_fd(kq), EPOLL_CTL_MOD, fds->fds_fd,
+                              EPOLL_EV_FDS(epoll_fd_events(fds, NULL, 0, have_ev), fds)) < 0))
+        dbg_perror("epoll_ctl(2)");
+}
+
 int
 linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int nevents)
 {
@@ -871,33 +924,43 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
         case EPOLL_UDATA_FD_STATE:
         {
             struct fd_state   *fds = epoll_udata->ud_fds;
-            struct knote      *kn, *write;
+            struct knote      *kn[2];
+            bool              write_first;
+            int               j;
             assert(fds);
 
             /*
              * fds can be freed after the first linux_kevent_copyout_ev
-             * so cache the pointer value here.
+             * so cache the pointer values here.
              */
-            write = fds->fds_write;
+            kn[0] = fds->fds_read;
+            kn[1] = fds->fds_write;
+            write_first = fds->fds_write_first;
+            fds->fds_write_first = false;
 
-            /*
-             *    FD, or errored, or other side shutdown
-             */
-            if ((kn = fds->fds_read) && (ev->events & (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR))) {
-                if (el_p >= el_end) goto oos;
+            for (j = 0; j < 2; j++) {
+                int const idx = j ^ write_first;
 
-                rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
-                if (rv < 0) goto done;
-                el_p += rv;
-            }
-
-            /*
-             *    FD is writable, or errored, or other side shutdown
-             */
-            if ((kn = write) && (ev->events & (EPOLLOUT | POLLHUP | EPOLLERR))) {
-                if (el_p >= el_end) goto oos;
+                /*
+                 *    FD is readable/writable, or errored, or other side shutdown
+                 */
+                if (!kn[idx]) continue;
+                if (!(ev->events & ((idx == 0) ? (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR) : (EPOLLOUT | EPOLLHUP | EPOLLERR))))
+                    continue;
+
+                if (el_p >= el_end) {
+                    /*
+                     * No room for the second event, make sure
+                     * it's reported by the next call.
+                     */
+                    if (j == 1) {
+                        fds->fds_write_first = (idx == 1);
+                        epoll_fd_rearm(kq, fds, kn[idx]);
+                    }
+                    goto oos;
+                }
 
-                rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn), kn);
+                rv = linux_kevent_copyout_ev(el_p, (el_end - el_p), ev, knote_get_filter(kn[idx]), kn[idx]);
                 if (rv < 0) goto done;
                 el_p += rv;
             }
@@ -1330,6 +1393,7 @@ int epoll_fd_state_mod(struct fd_state **fds_p, struct knote *kn, int ev)
     /*
      * Place the knote in the correct slot.
      */
+    kq->kq_nb_dual_fds -= (fds->fds_read && fds->fds_write);
     if (ev & EPOLLIN) {
         assert(!fds->fds_read || (fds->fds_read == kn));
         fds->fds_read = kn;
@@ -1338,6 +1402,7 @@ int epoll_fd_state_mod(struct fd_state **fds_p, struct knote *kn, int ev)
         assert(!fds->fds_write || (fds->fds_write == kn));
         fds->fds_write = kn;
     }
+    kq->kq_nb_dual_fds += (fds->fds_read && fds->fds_write);
 
     kn->kn_fds = fds;
     *fds_p = fds;
@@ -1364,6 +1429,7 @@ void epoll_fd_state_del(struct fd_state **fds_p, struct knote *kn, int ev)
      * copyin/copyout lock means we don't need
      * to protect operations here.
      */
+    kq->kq_nb_dual_fds -= (fds->fds_read && fds->fds_write);
     if (ev & EPOLLIN) {
         assert(fds->fds_read);
         fds->fds_read = NULL;
@@ -1374,6 +1440,8 @@ void epoll_fd_state_del(struct fd_state **fds_p, struct knote *kn, int ev)
         fds->fds_write = NULL;
     }
 
+    kq->kq_nb_dual_fds += (fds->fds_read && fds->fds_write);
+
     if (!fds->fds_read && !fds->fds_write) {
         dbg_printf("fd_state: rm fd=%i", fds->fds_fd);
         RB_REMOVE(fd_st, &kq->kq_fd_st, fds);
@@ -1410,38 +1478,6 @@ epoll_fd_registered(struct filter *filt, struct knote *kn)
 
     return true;
 }
-
-/** Determine the epoll flags for a file descriptor
- *
- * A file descriptor can only be registered once, so the flags have to suit
- * every knote.  It's only edge triggered if all the knotes are.
- *
- * @param[in] fds      Holding the knotes.
- * @param[in] kn       being updated.  May not be associated with the fds yet.
- * @param[in] ev       EPOLLIN or EPOLLOUT depending on the filter kn belongs to.
- * @param[in] want_ev  The events (EPOLLIN, EPOLLOUT) to register.
- * @return Flags to pass to epoll_ctl.
- */
-static int
-epoll_fd_events(struct fd_state *fds, struct knote *kn, int ev, int want_ev)
-{
-    struct knote *read = (ev & EPOLLIN) ? kn : fds->fds_read;
-    struct knote *write = (ev & EPOLLOUT) ? kn : fds->fds_write;
-    int events = 0, level = 0;
-
-    if (want_ev & EPOLLIN) {
-        events |= read->epoll_events;
-        level |= !(read->epoll_events & EPOLLET);
-    }
-    if (want_ev & EPOLLOUT) {
-        events |= write->epoll_events;
-        level |= !(write->epoll_events & EPOLLET);
-    }
-    if (level) events &= ~EPOLLET;
-
-    return (events);
-}
-
 int
 epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
 {
diff --git a/src/linux/platform.h b/src/linux/platform.h
index bf8d7d6..43eeda1 100644
--- a/src/linux/platform.h
+++ b/src/linux/platform.h
@@ -215,6 +215,7 @@ struct fd_state {
     int                   fds_fd;         //!< File descriptor this entry relates to.
     struct knote          *fds_read;      //!< Knote that should be informed of read events.
     struct knote          *fds_write;     //!< Knote that should be informed of write events.
+    bool                  fds_write_first; //!< There was no room for the write event last time.
     struct epoll_udata    fds_udata;      //!< Common struct passed to epoll
 };
 
@@ -258,6 +259,7 @@ struct fd_state {
     int epollfd;                          /* Main epoll FD */ \
     int pipefd[2];                        /* FD for pipe that catches close */ \
     RB_HEAD(fd_st, fd_state) kq_fd_st;    /* EVFILT_READ/EVFILT_WRITE fd state */ \
+    int kq_nb_dual_fds;                   /* Number of fds with read and write knotes */ \
     struct epoll_event kq_plist[MAX_KEVENT]; \
     size_t kq_nplist
 
-- 
2.43.0


From 94e5124fc43bc002b229ff8616f4374fdceee646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:19 +0000
Subject: [PATCH 15/37] fix: read/write: don't report errors or hangups for
 disabled knotes

EPOLLERR and EPOLLHUP are always reported by epoll, so a disabled knote got
events if the other filter was enabled for the same descriptor.
---
 src/linux/platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index d12693d..2775122 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -944,7 +944,7 @@ linux_kevent_copyout(struct kqueue *kq, int nready, struct kevent *el, int neven
                 /*
                  *    FD is readable/writable, or errored, or other side shutdown
                  */
-                if (!kn[idx]) continue;
+                if (!kn[idx] || KNOTE_DISABLED(kn[idx])) continue;
                 if (!(ev->events & ((idx == 0) ? (EPOLLIN | EPOLLHUP | EPOLLRDHUP | EPOLLERR) : (EPOLLOUT | EPOLLHUP | EPOLLERR))))
                     continue;
 
-- 
2.43.0


From b213d9b88b4be8920f910efed5811942818f7432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:19 +0000
Subject: [PATCH 16/37] fix: write: SIOCOUTQ returns an int

Only half of data was written, leaving the other half as it was when the
knote was registered.
---
 src/linux/write.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/linux/write.c b/src/linux/write.c
index a8a363e..7affda4 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -61,10 +61,15 @@ evfilt_write_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt
     }
 
     /* On return, data contains the the amount of space remaining in the write buffer */
-    if (!(dst->flags & EV_EOF) && (ioctl(dst->ident, SIOCOUTQ, &dst->data) < 0)) {
+    if (!(dst->flags & EV_EOF)) {
+        int i;
+
+        if (ioctl(dst->ident, SIOCOUTQ, &i) < 0) {
             /* race condition with socket close, so ignore this error */
             dbg_puts("ioctl(2) of socket failed");
             dst->data = 0;
+        } else
+            dst->data = i;
     }
 
 done:
-- 
2.43.0


From 641b237bda7e00a210dc5a9498717508663e0a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:29 +0000
Subject: [PATCH 17/37] fix: wait for the whole timeout when it exceeds INT_MAX
 milliseconds

---
 src/linux/platform.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 2775122..86688c5 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -23,6 +23,7 @@
 #include <sys/resource.h>
 
 #include "../common/private.h"
+#include <limits.h>
 
 #define MONITORING_THREAD_SIGNAL  (SIGRTMIN + 1)
 
@@ -663,8 +664,9 @@ linux_kevent_wait(struct kqueue *kq, int nevents, const struct timespec *ts)
     int timeout, nret;
 
     /* Use a high-resolution syscall if the timeout value's tv_nsec value has a resolution
-     * finer than a millisecond. */
-    if (ts != NULL && (ts->tv_nsec % 1000000 != 0)) {
+     * finer than a millisecond, or if the timeout is too long to be expressed as an
+     * int number of milliseconds. */
+    if (ts != NULL && ((ts->tv_nsec % 1000000 != 0) || (ts->tv_sec >= INT_MAX / 1000))) {
         nret = linux_kevent_wait_hires(kq, ts);
         if (nret <= 0)
             return (nret);
-- 
2.43.0


From b00f040d3456d6926337a94ac646c0cf71e61b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:19 +0000
Subject: [PATCH 18/37] fix: refuse identifiers that do not fit the descriptor,
 process or signal number

---
 src/linux/platform.c | 5 +++++
 src/linux/proc.c     | 7 +++++++
 src/linux/signal.c   | 7 +++++++
 src/linux/vnode.c    | 4 +++-
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 86688c5..6cceb85 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1148,6 +1148,11 @@ linux_get_descriptor_type(struct knote *kn)
     /*
      * Determine the actual descriptor type.
      */
+    if (kn->kev.ident > INT_MAX) {
+        errno = EBADF;
+        dbg_perror("ident is not a file descriptor");
+        return (-1);
+    }
     if (fstat(fd, &sb) < 0) {
         dbg_perror("fstat(2)");
         return (-1);
diff --git a/src/linux/proc.c b/src/linux/proc.c
index e9018fc..632acf1 100644
--- a/src/linux/proc.c
+++ b/src/linux/proc.c
@@ -23,6 +23,7 @@
  * If the build system detects SYS_pidfd_open is not available it will fall back
  * to using posix/proc.c and won't build this source file.
  */
+#include <limits.h>
 #include <sys/syscall.h>
 #include <sys/wait.h>
 
@@ -126,6 +127,12 @@ evfilt_proc_knote_create(struct filter *filt, struct knote *kn)
         return 0;
     }
 
+    if (kn->kev.ident > INT_MAX) {
+        errno = ESRCH;
+        dbg_perror("ident is not a process ID");
+        return (-1);
+    }
+
     /* Returns an FD, which, when readable, indicates the process has exited */
     pfd = syscall(SYS_pidfd_open, (pid_t)kn->kev.ident, 0);
     if (pfd < 0) {
diff --git a/src/linux/signal.c b/src/linux/signal.c
index dccb03f..f75c1e8 100644
--- a/src/linux/signal.c
+++ b/src/linux/signal.c
@@ -15,6 +15,7 @@
  */
 #include "private.h"
 
+#include <limits.h>
 #include <signal.h>
 
 #if HAVE_SYS_SIGNALFD_H
@@ -148,6 +149,12 @@ evfilt_signal_knote_create(struct filter *filt, struct knote *kn)
 {
     int fd;
 
+    if (kn->kev.ident > INT_MAX) {
+        dbg_puts("ident is not a signal number");
+        kn->kn_signalfd = -1;
+        return (-1);
+    }
+
     fd = signalfd_create(filter_epoll_fd(filt), kn, kn->kev.ident);
     if (fd > 0) {
         kn->kev.flags |= EV_CLEAR;
diff --git a/src/linux/vnode.c b/src/linux/vnode.c
index 0946d94..aa63771 100644
--- a/src/linux/vnode.c
+++ b/src/linux/vnode.c
@@ -15,6 +15,8 @@
  */
 #include "private.h"
 
+#include <limits.h>
+
 #ifndef NDEBUG
 static char *
 inotify_mask_dump(uint32_t mask)
@@ -271,7 +273,7 @@ evfilt_vnode_knote_create(struct filter *filt, struct knote *kn)
 {
     struct stat sb;
 
-    if (fstat(kn->kev.ident, &sb) < 0) {
+    if (kn->kev.ident > INT_MAX || fstat(kn->kev.ident, &sb) < 0) {
         dbg_puts("fstat failed");
         return (-1);
     }
-- 
2.43.0


From 1426545ecacfc3fbcae525d4e7d00a5efbc3434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:29 +0000
Subject: [PATCH 19/37] fix: stale close notifications must not free a live
 kqueue

---
 src/linux/platform.c | 111 +++++++++++++------------------------------
 1 file changed, 33 insertions(+), 78 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 6cceb85..6745d22 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -57,23 +57,30 @@ static enum thread_exit_state monitoring_thread_state;
  * Map for kqueue pipes where index is the read side (for which signals are received)
  * and value is the write side that gets closed and corresponds to the kqueue id.
  *
- * @note Values in the fd_map are never cleared, as we still need to decrement
- * fd_use_cnt when signals for a particular FD are received.
+ * @note Values in the fd_map are never cleared.  A signal may still be pending for
+ * a read side that has been closed, and whose number has since been reused, so
+ * the state of the pipe must be checked when the signal is received.
  */
 static int *fd_map;
 
-/*
- * Map kqueue id to counter for kq cleanups.
- * When use counter is at 0, cleanup can be performed by signal handler.
- * Otherwise, it means cleanup was already performed for this FD in linux_kqueue_reused.
- */
-static unsigned int *fd_use_cnt;
-
 static int nb_max_fd;
 
 static void
 linux_kqueue_free(struct kqueue *kq);
 
+/** Check if the user has closed the file descriptor of a kqueue
+ *
+ * The number of the file descriptor may already have been reused,
+ * so we check if the write side of the pipe is gone instead.
+ */
+static bool
+linux_kqueue_closed(struct kqueue *kq)
+{
+    struct pollfd pfd = { .fd = kq->pipefd[0], .events = POLLIN };
+
+    return (poll(&pfd, 1, 0) > 0) && (pfd.revents & POLLHUP);
+}
+
 static void
 monitoring_thread_cleanup(UNUSED void *arg)
 {
@@ -121,26 +128,11 @@ monitoring_thread_cleanup(UNUSED void *arg)
              * been freed by the user application before it exited.
              */
             dbg_printf("kq=%p - fd=%i explicitly checking for closeure", kq, kq->kq_id);
-            if (fcntl(kq->kq_id, F_GETFD) < 0) {
-                dbg_printf("kq=%p - fd=%i forcefully cleaning up, current use_count=%u: %s",
-                           kq,
-                           kq->kq_id, fd_use_cnt[kq->kq_id],
-                           errno == EBADF ? "File descriptor already closed" : strerror(errno));
-                fd_use_cnt[kq->kq_id] = 0;
-            } else {
-                /*
-                 * If there's no use cnt for the kqueue then something
-                 * has gone very wrong.
-                 */
-                assert(fd_use_cnt[kq->kq_id] > 0);
-            }
-
-            if (fd_use_cnt[kq->kq_id] == 0) {
-                dbg_printf("kq=%p - fd=%i use_count=%u cleaning up...", kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
+            if (linux_kqueue_closed(kq)) {
+                dbg_printf("kq=%p - fd=%i cleaning up...", kq, kq->kq_id);
                 kqueue_free(kq);
             } else {
-                dbg_printf("kq=%p - fd=%i is alive use_count=%u.  Skipping, this is likely a leak...",
-                           kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
+                dbg_printf("kq=%p - fd=%i is alive.  Skipping, this is likely a leak...", kq, kq->kq_id);
             }
         }
 
@@ -154,8 +146,6 @@ monitoring_thread_cleanup(UNUSED void *arg)
     /* Free thread resources */
     free(fd_map);
     fd_map = NULL;
-    free(fd_use_cnt);
-    fd_use_cnt = NULL;
 
     /* Reset so that thread can be restarted */
     monitoring_tid = 0;
@@ -186,45 +176,23 @@ monitoring_thread_kqueue_cleanup(int signal_fd)
         return;
     }
 
-    kq = kqueue_lookup(fd);
-    if (!kq) {
-        /* Should not happen */
-        dbg_printf("fd=%i - no kqueue associated", fd);
-        assert(0);
-        return;
-    }
-
     /*
-     * We should never have more pending signals than we have
-     * allocated kqueues against a given ID.
-     */
-    assert(fd_use_cnt[kq->kq_id] > 0);
-
-    /*
-     * Decrement use counter as signal handler has been run for
-     * this FD.  We rely on using an RT signal so that multiple
-     * signals are queued.
-     *
-     * Use count is tracked with the kq_id.
-     */
-    fd_use_cnt[kq->kq_id]--;
-
-    /*
-     * If kqueue instance for this FD hasn't been cleaned up yet
-     *
-     * When the main kqueue code frees a kq, the file descriptor
-     * of the kq often gets reused.
+     * When a kqueue is created with the ID of one that was
+     * closed, the old kqueue is freed immediately, and when its
+     * signal is received, the ID and the read side of the pipe
+     * may both belong to other, open, kqueues.
      *
-     * We maintain a count of how many allocations have been
-     * performed against a given file descriptor ID, and only
-     * free the kqueue here if that count is zero.
+     * Only act on the signal if it's for the kqueue we found,
+     * and that kqueue really has been closed.
      */
-    if (fd_use_cnt[kq->kq_id] == 0) {
-        dbg_printf("kq=%p - fd=%i use_count=%u cleaning up...", kq, fd, fd_use_cnt[kq->kq_id]);
-        kqueue_free(kq);
-    } else {
-        dbg_printf("kq=%p - fd=%i use_count=%u skipping...", kq, fd, fd_use_cnt[kq->kq_id]);
+    kq = kqueue_lookup(fd);
+    if (!kq || (kq->pipefd[0] != signal_fd) || !linux_kqueue_closed(kq)) {
+        dbg_printf("fd=%i - kqueue already freed, ignoring signal", fd);
+        return;
     }
+
+    dbg_printf("kq=%p - fd=%i cleaning up...", kq, fd);
+    kqueue_free(kq);
 }
 
 /*
@@ -260,19 +228,11 @@ monitoring_thread_loop(UNUSED void *arg)
     dbg_printf("tid=%u - monitoring thread started", monitoring_tid);
 
     fd_map = calloc(nb_max_fd, sizeof(int));
-    if (fd_map == NULL) {
-    error:
+    if (fd_map == NULL)
         return NULL;
-    }
     for (i = 0; i < nb_max_fd; i++)
         fd_map[i] = -1;
 
-    fd_use_cnt = calloc(nb_max_fd, sizeof(unsigned int));
-    if (fd_use_cnt == NULL){
-        free(fd_map);
-        goto error;
-    }
-
     /*
      * Now that thread is initialized, let kqueue init resume
      */
@@ -538,11 +498,6 @@ linux_kqueue_init(struct kqueue *kq)
     /* Update pipe FD map */
     fd_map[kq->pipefd[0]] = kq->kq_id;
 
-    /* Mark this id as in use */
-    fd_use_cnt[kq->kq_id]++;
-
-    dbg_printf("kq=%p - fd=%i use_count=%u", kq, kq->kq_id, fd_use_cnt[kq->kq_id]);
-
     assert(monitoring_tid != 0);
 
     /*
-- 
2.43.0


From bee0838e83ba91f46bd224b645fd7c8acf6d7426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:39 +0000
Subject: [PATCH 20/37] fix: kevent() on an invalid number before the first
 kqueue(), and map bounds

---
 src/common/kqueue.c |  4 ++++
 src/common/map.c    | 10 +++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index c532258..443fc67 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -335,6 +335,10 @@ kqueue_free_by_id(int id)
 struct kqueue *
 kqueue_lookup(int kq)
 {
+    /* The map doesn't exist until the first kqueue is created */
+    if (kqmap == NULL)
+        return (NULL);
+
     return ((struct kqueue *) map_lookup(kqmap, kq));
 }
 
diff --git a/src/common/map.c b/src/common/map.c
index 991cda5..d3a106c 100644
--- a/src/common/map.c
+++ b/src/common/map.c
@@ -58,7 +58,7 @@ map_new(size_t len)
 int
 map_insert(struct map *m, int idx, void *ptr)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), NULL, ptr)) {
@@ -74,7 +74,7 @@ map_insert(struct map *m, int idx, void *ptr)
 int
 map_remove(struct map *m, int idx, void *ptr)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), ptr, NULL)) {
@@ -89,7 +89,7 @@ map_remove(struct map *m, int idx, void *ptr)
 int
 map_replace(struct map *m, int idx, void *oldp, void *newp)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return (-1);
 
     if (atomic_ptr_cas(&(m->data[idx]), oldp, newp)) {
@@ -105,7 +105,7 @@ map_replace(struct map *m, int idx, void *oldp, void *newp)
 void *
 map_lookup(struct map *m, int idx)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
         return (NULL);
 
     return (void *)atomic_ptr_load(&m->data[idx]);
@@ -114,7 +114,7 @@ map_lookup(struct map *m, int idx)
 void *
 map_delete(struct map *m, int idx)
 {
-    if (unlikely(idx < 0 || idx > (int)m->len))
+    if (unlikely(idx < 0 || idx >= (int)m->len))
            return ((void *)-1);
 
     return (void *)atomic_ptr_swap(&(m->data[idx]), NULL);
-- 
2.43.0


From 007f31be987b7aaf3c3f3215706645650ac5ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:39 +0000
Subject: [PATCH 21/37] fix: refuse a negative eventlist length and malformed
 timeouts

---
 src/common/kevent.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 6ebff42..de38bb2 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -388,6 +388,12 @@ kevent(int kqfd,
     unsigned int myid = 0;
     (void) myid;
 #endif
+    if (nevents < 0 ||
+        (timeout && (timeout->tv_sec < 0 || timeout->tv_nsec < 0 || timeout->tv_nsec >= 1000000000))) {
+        errno = EINVAL;
+        return (-1);
+    }
+
     /* deal with ubsan "runtime error: applying zero offset to null pointer" */
     if (eventlist) {
         if (nevents > MAX_KEVENT)
-- 
2.43.0


From 29008dbccfb5deb25d05d4192d8b9ba59db73e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:21 +0000
Subject: [PATCH 22/37] fix: kqueue() error paths release everything and
 restore the cancel state

---
 src/common/kqueue.c  |  7 ++++++-
 src/linux/platform.c | 36 ++++++++++++++++++++----------------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index 443fc67..a3596d8 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -368,8 +368,12 @@ kqueue(void)
     pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &prev_cancel_state);
 #endif
     kq = calloc(1, sizeof(*kq));
-    if (kq == NULL)
+    if (kq == NULL) {
+#ifndef _WIN32
+        pthread_setcancelstate(prev_cancel_state, NULL);
+#endif
         return (-1);
+    }
 
     tracing_mutex_init(&kq->kq_mtx, NULL);
 
@@ -401,6 +405,7 @@ kqueue(void)
     if (map_insert(kqmap, kq->kq_id, kq) < 0) {
         dbg_printf("kq=%p - map insertion failed, freeing", kq);
         filter_unregister_all(kq);
+        kqops.kqueue_free(kq);
         tracing_mutex_unlock(&kq_mtx);
         goto error;
     }
diff --git a/src/linux/platform.c b/src/linux/platform.c
index 6745d22..9fead2f 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -204,8 +204,6 @@ monitoring_thread_loop(UNUSED void *arg)
     int res = 0;
     siginfo_t info;
 
-    int i;
-
     sigset_t monitoring_sig_set;
 
     /* Set the thread's name to something descriptive so it shows up in gdb,
@@ -213,8 +211,6 @@ monitoring_thread_loop(UNUSED void *arg)
      * to do it for backwards compatibility. Max name length is 16 bytes. */
     prctl(PR_SET_NAME, "libkqueue_mon", 0, 0, 0);
 
-    nb_max_fd = get_fd_limit();
-
     sigemptyset(&monitoring_sig_set);
     sigfillset(&monitoring_sig_set);
 
@@ -223,20 +219,12 @@ monitoring_thread_loop(UNUSED void *arg)
     sigemptyset(&monitoring_sig_set);
     sigaddset(&monitoring_sig_set, MONITORING_THREAD_SIGNAL);
 
-    monitoring_tid = syscall(SYS_gettid);
-
-    dbg_printf("tid=%u - monitoring thread started", monitoring_tid);
-
-    fd_map = calloc(nb_max_fd, sizeof(int));
-    if (fd_map == NULL)
-        return NULL;
-    for (i = 0; i < nb_max_fd; i++)
-        fd_map[i] = -1;
-
     /*
      * Now that thread is initialized, let kqueue init resume
      */
     pthread_mutex_lock(&monitoring_thread_mtx);    /* Must try to lock to ensure parent is waiting on signal */
+    monitoring_tid = syscall(SYS_gettid);
+    dbg_printf("tid=%u - monitoring thread started", monitoring_tid);
     pthread_cond_signal(&monitoring_thread_cond);
     pthread_mutex_unlock(&monitoring_thread_mtx);
 
@@ -296,6 +284,16 @@ monitoring_thread_loop(UNUSED void *arg)
 static int
 linux_kqueue_start_thread(void)
 {
+    int i;
+
+    nb_max_fd = get_fd_limit();
+    free(fd_map);    /* A forked child still has the map of its parent */
+    fd_map = calloc(nb_max_fd, sizeof(int));
+    if (fd_map == NULL)
+        return (-1);
+    for (i = 0; i < nb_max_fd; i++)
+        fd_map[i] = -1;
+
     pthread_mutex_lock(&monitoring_thread_mtx);
     if (pthread_create(&monitoring_thread, NULL, monitoring_thread_loop, NULL)) {
          dbg_perror("linux_kqueue_start_thread failure");
@@ -304,7 +302,8 @@ linux_kqueue_start_thread(void)
          return (-1);
     }
     /* Wait for thread creating to be done as we need monitoring_tid to be available */
-    pthread_cond_wait(&monitoring_thread_cond, &monitoring_thread_mtx); /* unlocks mt_mtx allowing child to lock it */
+    while (monitoring_tid == 0)
+        pthread_cond_wait(&monitoring_thread_cond, &monitoring_thread_mtx); /* unlocks mt_mtx allowing child to lock it */
     pthread_mutex_unlock(&monitoring_thread_mtx);
 
     return (0);
@@ -495,6 +494,12 @@ linux_kqueue_init(struct kqueue *kq)
             goto error;
     }
 
+    if (kq->pipefd[0] >= nb_max_fd) {
+        dbg_printf("fd=%i - exceeds the descriptor limit when monitoring started", kq->pipefd[0]);
+        errno = EMFILE;
+        goto error;
+    }
+
     /* Update pipe FD map */
     fd_map[kq->pipefd[0]] = kq->kq_id;
 
@@ -509,7 +514,6 @@ linux_kqueue_init(struct kqueue *kq)
     sig_owner.pid = monitoring_tid;
     if (fcntl(kq->pipefd[0], F_SETOWN_EX, &sig_owner) < 0) {
         dbg_printf("fd=%i - failed setting F_SETOWN to tid=%u: %s", monitoring_tid, kq->kq_id, strerror(errno));
-        tracing_mutex_unlock(&kq_mtx);
         goto error;
     }
     dbg_printf("kq=%p - monitoring fd=%i for closure", kq, kq->pipefd[0]);
-- 
2.43.0


From 5266b8a4bd186ab467641c7d7c2b0c53a1e56f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:13 +0000
Subject: [PATCH 23/37] fix: kevent() in a forked child succeeded on kqueues
 closed by the fork

The descriptors were closed but their numbers still resolved, so calls
which don't wait (deletions, EVFILT_LIBKQUEUE) succeeded.
---
 src/common/kqueue.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index a3596d8..f6fc3d1 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -198,12 +198,22 @@ libkqueue_parent_fork(void)
 void
 libkqueue_child_fork(void)
 {
+    struct kqueue *kq;
+
     libkqueue_in_child = true;
 
     if (!libkqueue_fork_cleanup_active)
         return;
 
     dbg_puts("cleaning up forked resources");
+
+    /*
+     * The kqueues don't exist in the child, so their
+     * descriptors must no longer resolve to anything.
+     */
+    LIST_FOREACH(kq, &kq_list, kq_entry)
+        map_remove(kqmap, kq->kq_id, kq);
+
     filter_fork_all();
 
     if (kqops.libkqueue_fork)
-- 
2.43.0


From 8353b442015003e9bdcec9b4dd7a0ae797a38427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:24 +0000
Subject: [PATCH 24/37] fix: kevent() crashed when memory for a descriptor's
 state could not be allocated

---
 src/linux/platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 9fead2f..b6b6ef7 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -1522,7 +1522,7 @@ epoll_update(int op, struct filter *filt, struct knote *kn, int ev, bool delete)
     want_ev = EV_EPOLLINOUT(want);
      if (!have_ev && want_ev) {        /* There's no events registered and we want some */
         opn = EPOLL_CTL_ADD;
-        epoll_fd_state_mod(&fds, kn, want_ev & ~have_ev);
+        if (epoll_fd_state_mod(&fds, kn, want_ev & ~have_ev) < 0) return (-1);
     }
     else if (have_ev && !want_ev)       /* We have events registered but don't want any */
         opn = EPOLL_CTL_DEL;
-- 
2.43.0


From 0f420929072624199d7ace3d37e9d0c5e9c4baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:13 +0000
Subject: [PATCH 25/37] fix: EVFILT_USER leaked its eventfd when it could not
 be registered

---
 src/linux/user.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linux/user.c b/src/linux/user.c
index a24d0e9..6e8679f 100644
--- a/src/linux/user.c
+++ b/src/linux/user.c
@@ -129,8 +129,11 @@ linux_evfilt_user_knote_create(struct filter *filt, struct knote *kn)
     kn->kn_eventfd = evfd;
     KN_UDATA(kn);   /* populate this knote's kn_udata field */
 
-    if (KNOTE_ENABLED(kn))
-        return linux_evfilt_user_knote_enable(filt, kn);
+    if (KNOTE_ENABLED(kn) && (linux_evfilt_user_knote_enable(filt, kn) < 0)) {
+        close(kn->kn_eventfd);
+        kn->kn_eventfd = -1;
+        return (-1);
+    }
 
     return (0);
 }
-- 
2.43.0


From 7bef16a9825decc588283ad4ed1c199a13710639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:24 +0000
Subject: [PATCH 26/37] fix: a signal stayed blocked when its EVFILT_SIGNAL
 could not be registered

---
 src/linux/signal.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linux/signal.c b/src/linux/signal.c
index f75c1e8..57e9b7e 100644
--- a/src/linux/signal.c
+++ b/src/linux/signal.c
@@ -105,15 +105,15 @@ signalfd_create(int epoll_fd, struct knote *kn, int signum)
         goto errout;
     }
 
+    if (signalfd_add(epoll_fd, sigfd, kn) < 0)
+        goto errout;
+
     /* Block the signal handler from being invoked */
     if (sigprocmask(SIG_BLOCK, &sigmask, NULL) < 0) {
         dbg_perror("sigprocmask(2)");
         goto errout;
     }
 
-    if (signalfd_add(epoll_fd, sigfd, kn) < 0)
-        goto errout;
-
     dbg_printf("sig_fd=%d - sigfd added to epoll_fd=%d (signum=%d)", sigfd, epoll_fd, signum);
 
     return (sigfd);
-- 
2.43.0


From 7a1b3c537f671ba846ca8ef622086d87fff33973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:21 +0000
Subject: [PATCH 27/37] fix: EV_ADD|EV_DISABLE left an enabled registration
 behind when it could not be disabled

---
 src/common/kevent.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index de38bb2..1d9a9d5 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -215,8 +215,14 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
             *out = kn;
 
 /* XXX- FIXME Needs to be handled in kn_create() to prevent races */
-            if (src->flags & EV_DISABLE)
-                return knote_disable(filt, kn);
+            if ((src->flags & EV_DISABLE) && (knote_disable(filt, kn) < 0)) {
+                int err = errno;
+
+                (void) knote_delete(filt, kn);
+                errno = err;
+                *out = NULL;
+                return (-1);
+            }
             //........................................
             return (rv);
         } else {
-- 
2.43.0


From b4b720e6c8a793b329fb510cff0cf583b61f9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:53 +0000
Subject: [PATCH 28/37] fix: kevent: don't time out early when another thread
 took the event

---
 src/common/kevent.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index 1d9a9d5..d747aba 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -534,6 +534,17 @@ kevent(int kqfd,
                 rv = el_p - eventlist;  /* recalculate rv to be the total events in the eventlist */
             }
         } else if (rv == 0) {
+#ifndef _WIN32
+            /*
+             * Another thread took the event that ended
+             * the wait, there may still be time left.
+             */
+            if (timed && el_p == eventlist) {
+                kevent_timeout_left(&left, timeout, &start);
+                if (left.tv_sec || left.tv_nsec)
+                    goto again;
+            }
+#endif
             /* Timeout reached */
             dbg_printf("(%u) kevent_wait timedout", myid);
             rv = el_p - eventlist;      /* There may still be entries from copyin */
-- 
2.43.0


From 456cbb05c3a73654cc5359ad85367adf9f92896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 29/37] fix: read: a stream whose data another thread has read
 is not at its end

---
 src/linux/read.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linux/read.c b/src/linux/read.c
index 902e914..a62266d 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -146,8 +146,11 @@ evfilt_read_copyout(struct kevent *dst, UNUSED int nevents, struct filter *filt,
             dst->data = 0;
         } else {
             dst->data = i;
+#if !defined(HAVE_EPOLLRDHUP)
+            /* no data may also mean another thread has read it */
             if (dst->data == 0 && src->kn_flags & KNFL_SOCKET_STREAM)
                 dst->flags |= EV_EOF;
+#endif
         }
     }
 
-- 
2.43.0


From 1ae6cfb1cd5bb9c993472bc680c156236d7844c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:20 +0000
Subject: [PATCH 30/37] fix: ignore EV_EOF and EV_ERROR in the flags of a
 change

An entry returned by kevent() can be passed back as a change.  EV_EOF was stored in the
knote, which epoll_fd_state() then took for a disabled one, so deleting it freed the
fd_state while it was still registered with epoll, and it was reported as being at EOF
for ever.
---
 src/common/kevent.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common/kevent.c b/src/common/kevent.c
index d747aba..f4d8bb5 100644
--- a/src/common/kevent.c
+++ b/src/common/kevent.c
@@ -174,8 +174,16 @@ kevent_copyin_one(const struct knote **out, struct kqueue *kq, const struct keve
 {
     struct knote  *kn = NULL;
     struct filter *filt;
+    struct kevent change = *src;
     int rv = 0;
 
+    /*
+     * These are only meaningful in the eventlist, but we
+     * may be passed an entry we previously returned.
+     */
+    change.flags &= ~(EV_EOF | EV_ERROR);
+    src = &change;
+
     if (src->flags & EV_DISPATCH && src->flags & EV_ONESHOT) {
         dbg_puts("Error: EV_DISPATCH and EV_ONESHOT are mutually exclusive");
         errno = EINVAL;
-- 
2.43.0


From db706cf30fb19bdb3db80ffdbc01434b9d8c6b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:03 +0000
Subject: [PATCH 31/37] fix: exit() must join the monitoring thread it
 cancelled

---
 src/linux/platform.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index b6b6ef7..896d1c5 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -380,15 +380,17 @@ static void
 linux_libkqueue_free(void)
 {
     pid_t tid;
+    pthread_t thread;
 
     tracing_mutex_lock(&kq_mtx);
     tid = monitoring_tid; /* Gets trashed when the thread exits */
+    thread = monitoring_thread; /* Another thread may start a new one */
     if (tid) {
         void *retval;
         int ret;
 
         dbg_printf("tid=%u - cancelling", tid);
-        ret = pthread_cancel(monitoring_thread);
+        ret = pthread_cancel(thread);
         if (ret != 0)
            dbg_printf("tid=%u - cancel failed: %s", tid, strerror(ret));
         /*
@@ -397,7 +399,7 @@ linux_libkqueue_free(void)
          */
         tracing_mutex_unlock(&kq_mtx);
 
-        ret = pthread_join(monitoring_thread, &retval);
+        ret = pthread_join(thread, &retval);
         if (ret == 0) {
             if (retval == PTHREAD_CANCELED) {
                 dbg_printf("tid=%u - joined with exit_status=PTHREAD_CANCELED", tid);
-- 
2.43.0


From dbfc2b6a58b6654c013b34c4d6d2375b5cfa068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 32/37] fix: debug messages must not change errno

The debug function is free to change errno (writing to stderr can fail),
so a call's errno depended on debugging being on.
---
 src/common/debug.h | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/common/debug.h b/src/common/debug.h
index 52ba970..767ec06 100644
--- a/src/common/debug.h
+++ b/src/common/debug.h
@@ -18,6 +18,7 @@
 #define  _DEBUG_H
 
 #include <assert.h>
+#include <errno.h>
 #include <stdio.h>
 #include <stdbool.h>
 #ifdef _WIN32
@@ -40,24 +41,27 @@
 #endif
 
 #ifndef NDEBUG
-#define dbg_puts(str) do {                                                                              \
-    if (libkqueue_debug)                                                                                \
-        libkqueue_debug_func("%s [%d]: %s(): %s\n",                                                     \
-                             libkqueue_debug_ident, THREAD_ID, __func__, str);                          \
+/*
+ * The debug function may change errno (writing to stderr
+ * can fail), the code producing the messages must not.
+ */
+#define dbg_call(...) do {                                                                              \
+    if (libkqueue_debug) {                                                                              \
+        int dbg_errno = errno;                                                                          \
+        libkqueue_debug_func(__VA_ARGS__);                                                              \
+        errno = dbg_errno;                                                                              \
+    }                                                                                                   \
 } while (0)
 
-#define dbg_printf(fmt,...) do {                                                                        \
-    if (libkqueue_debug)                                                                                \
-        libkqueue_debug_func("%s [%d]: %s(): "fmt"\n",                                                  \
-                             libkqueue_debug_ident, THREAD_ID, __func__, ##__VA_ARGS__);                \
-} while (0)
+#define dbg_puts(str)                                                                                   \
+    dbg_call("%s [%d]: %s(): %s\n", libkqueue_debug_ident, THREAD_ID, __func__, str)
 
-#define dbg_perror(fmt,...) do {                                                                        \
-    if (libkqueue_debug)                                                                                \
-        libkqueue_debug_func("%s [%d]: %s(): "fmt": %s (errno=%d)\n",                                    \
-                             libkqueue_debug_ident, THREAD_ID, __func__, ##__VA_ARGS__,                  \
-                             strerror(errno), errno);                                                    \
-} while (0)
+#define dbg_printf(fmt,...)                                                                             \
+    dbg_call("%s [%d]: %s(): "fmt"\n", libkqueue_debug_ident, THREAD_ID, __func__, ##__VA_ARGS__)
+
+#define dbg_perror(fmt,...)                                                                             \
+    dbg_call("%s [%d]: %s(): "fmt": %s (errno=%d)\n",                                                   \
+             libkqueue_debug_ident, THREAD_ID, __func__, ##__VA_ARGS__, strerror(errno), errno)
 
 # define reset_errno() do { errno = 0; } while (0)
 
-- 
2.43.0


From 71f0650dda2979793362524d900efc0926019068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 33/37] fix: a NULL debug prefix must restore the default one

strdup(NULL) crashed, and a failing strdup() left no prefix.
---
 src/common/debug.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/common/debug.c b/src/common/debug.c
index 52d2459..6f1981a 100644
--- a/src/common/debug.c
+++ b/src/common/debug.c
@@ -23,9 +23,11 @@
 
 bool libkqueue_debug = false;
 
+#define LIBKQUEUE_DEBUG_IDENT_DEFAULT "KQ"
+
 /** Prefix for libkqueue debug messages
  */
-char const *libkqueue_debug_ident = "KQ";
+char const *libkqueue_debug_ident = LIBKQUEUE_DEBUG_IDENT_DEFAULT;
 
 /** Copy of the externally provided identity string
  */
@@ -59,14 +61,14 @@ libkqueue_debug_func_set(dbg_func_t func)
     }
 }
 
-/** Set a new debug identity
+/** Set a new debug identity, NULL restores the default one
  */
 void
 libkqueue_debug_ident_set(char const *str)
 {
     free(libkqueue_debug_ident_copy);
-    libkqueue_debug_ident_copy = strdup(str);
-    libkqueue_debug_ident = libkqueue_debug_ident_copy;
+    libkqueue_debug_ident_copy = str ? strdup(str) : NULL;
+    libkqueue_debug_ident = libkqueue_debug_ident_copy ? libkqueue_debug_ident_copy : LIBKQUEUE_DEBUG_IDENT_DEFAULT;
 }
 
 /** Clear any previously allocated identities
-- 
2.43.0


From 08fa7cc256e9a7ca9c9e9ff749801c92084bc6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 34/37] fix: descriptor 0 is a descriptor like any other

With standard input closed the library's own descriptors can get the number
0; such a kqueue leaked its epoll or pipe descriptor and a signalfd(2) with
that number made EV_ADD fail.
---
 src/linux/platform.c | 8 ++++----
 src/linux/signal.c   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/linux/platform.c b/src/linux/platform.c
index 896d1c5..385ba3b 100644
--- a/src/linux/platform.c
+++ b/src/linux/platform.c
@@ -360,11 +360,11 @@ linux_libkqueue_fork(void)
         close(kq->epollfd);
         kq->epollfd = -1;
 
-        if ((kq->pipefd[0] > 0) && (close(kq->pipefd[0]) < 0))
+        if ((kq->pipefd[0] >= 0) && (close(kq->pipefd[0]) < 0))
             dbg_perror("close(2)");
         kq->pipefd[0] = -1;
 
-        if ((kq->pipefd[1] > 0) && (close(kq->pipefd[1]) < 0))
+        if ((kq->pipefd[1] >= 0) && (close(kq->pipefd[1]) < 0))
             dbg_perror("close(2)");
         kq->pipefd[1] = -1;
     }
@@ -537,7 +537,7 @@ linux_kqueue_free(struct kqueue *kq)
     ssize_t ret;
     int pipefd;
 
-    if (kq->epollfd > 0) {
+    if (kq->epollfd >= 0) {
         dbg_printf("epoll_fd=%i - closed", kq->epollfd);
 
         if (close(kq->epollfd) < 0)
@@ -570,7 +570,7 @@ linux_kqueue_free(struct kqueue *kq)
     }
 
     pipefd = kq->pipefd[0];
-    if (pipefd > 0) {
+    if (pipefd >= 0) {
         if (close(pipefd) < 0) {
             dbg_perror("close(2) - kq_fd=%i", kq->pipefd[0]);
         } else {
diff --git a/src/linux/signal.c b/src/linux/signal.c
index 57e9b7e..7cc21dd 100644
--- a/src/linux/signal.c
+++ b/src/linux/signal.c
@@ -156,7 +156,7 @@ evfilt_signal_knote_create(struct filter *filt, struct knote *kn)
     }
 
     fd = signalfd_create(filter_epoll_fd(filt), kn, kn->kev.ident);
-    if (fd > 0) {
+    if (fd >= 0) {
         kn->kev.flags |= EV_CLEAR;
         kn->kn_signalfd = fd;
         return (0);
-- 
2.43.0


From 7b2383f785644f222fdef19ba7f40d819b8fac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:51 +0000
Subject: [PATCH 35/37] fix: threads that fork at the same time must not share
 the state of the fork

The value of NOTE_FORK_CLEANUP was copied into one global variable by the
prepare handler. If another thread turned the clean-up off and a third one
forked in between, the first thread's parent handler left kq_mtx locked for
ever.
---
 src/common/kqueue.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index f6fc3d1..9bfb002 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -25,9 +25,14 @@ bool libkqueue_thread_safe = true;
  */
 bool libkqueue_fork_cleanup = true;
 
+#ifndef _WIN32
 /** Value is updated on fork to ensure all fork handlers are synchronised
+ *
+ * Each thread has its own copy as several threads may fork at the same time.
+ * The parent and child handlers run in the thread which called fork.
  */
-bool libkqueue_fork_cleanup_active;
+static __thread bool libkqueue_fork_cleanup_active;
+#endif
 
 /** Whether this is a child of the original process
  */
-- 
2.43.0


From e8b901aed79724436e133f9e143d58349c750f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:51 +0000
Subject: [PATCH 36/37] fix: the surrogate eventfds of regular files must be
 closed on exec

All other descriptors of the library are.
---
 src/linux/read.c  | 2 +-
 src/linux/write.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linux/read.c b/src/linux/read.c
index a62266d..6e2d5dd 100644
--- a/src/linux/read.c
+++ b/src/linux/read.c
@@ -179,7 +179,7 @@ evfilt_read_knote_create(struct filter *filt, struct knote *kn)
         int evfd;
 
         kn->kn_epollfd = filter_epoll_fd(filt);
-        evfd = eventfd(0, 0);
+        evfd = eventfd(0, EFD_CLOEXEC);
         if (evfd < 0) {
             dbg_perror("eventfd(2)");
             return (-1);
diff --git a/src/linux/write.c b/src/linux/write.c
index 7affda4..1a3fbdf 100644
--- a/src/linux/write.c
+++ b/src/linux/write.c
@@ -103,7 +103,7 @@ evfilt_write_knote_create(struct filter *filt, struct knote *kn)
             kn->epoll_events |= EPOLLET;
 
         kn->kn_epollfd = filter_epoll_fd(filt);
-        evfd = eventfd(0, 0);
+        evfd = eventfd(0, EFD_CLOEXEC);
         if (evfd < 0) {
             dbg_perror("eventfd(2)");
             return (-1);
-- 
2.43.0


From 4c6986e769ca40a4135cfcbb32c637bd7275a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:12 +0000
Subject: [PATCH 37/37] fix: a kqueue whose descriptor is beyond the map must
 be refused, not crash

---
 src/common/kqueue.c | 3 +++
 src/common/map.c    | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/kqueue.c b/src/common/kqueue.c
index 9bfb002..7cc2477 100644
--- a/src/common/kqueue.c
+++ b/src/common/kqueue.c
@@ -419,9 +419,12 @@ kqueue(void)
 
     if (map_insert(kqmap, kq->kq_id, kq) < 0) {
         dbg_printf("kq=%p - map insertion failed, freeing", kq);
+        kqueue_lock(kq);
         filter_unregister_all(kq);
         kqops.kqueue_free(kq);
+        kqueue_unlock(kq);
         tracing_mutex_unlock(&kq_mtx);
+        errno = EMFILE;
         goto error;
     }
     LIST_INSERT_HEAD(&kq_list, kq, kq_entry);
diff --git a/src/common/map.c b/src/common/map.c
index d3a106c..05c38ef 100644
--- a/src/common/map.c
+++ b/src/common/map.c
@@ -115,7 +115,7 @@ void *
 map_delete(struct map *m, int idx)
 {
     if (unlikely(idx < 0 || idx >= (int)m->len))
-           return ((void *)-1);
+           return (NULL);
 
     return (void *)atomic_ptr_swap(&(m->data[idx]), NULL);
 }
-- 
2.43.0

