#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=("kevent(2) return value and event list",)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files.split(), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


prop("C01", "The change list is applied in order, each failure or receipt reported once",
     "kevent() applies the changes of its change list in order, each exactly once; a change that fails yields one event-list entry that repeats the change with EV_ERROR and the error number in data, a successful change with EV_RECEIPT yields one such entry with data 0, and every later change is still applied. "
     "Those entries come first, in change order; if one does not fit, the call returns -1 with errno set, and if there is any the call picks up already pending events but does not wait. "
     "The call never returns more than nevents entries, never writes outside the nevents entries it was given, and works when both lists are the same array.",
     "inputs histories", "for every change list (any mix of valid, failing, duplicate and receipt changes), every nevents and every prior state of the kqueue",
     "The tests apply one or two changes at a time with enough room; they never combine failing, receipt and valid changes with every amount of room.",
     "src/common/kevent.c src/common/knote.c src/common/filter.c", [("kevent_copyin", "src/common/kevent.c"), ("kevent_copyin_one", "src/common/kevent.c"), ("kevent", "src/common/kevent.c")])

prop("C02", "At most one registration per (ident, filter), fully independent of all others",
     "A kqueue holds at most one registration per pair of identifier and filter, compared over the full width of the identifier: adding it again modifies it, changing or deleting a pair that is not registered fails with ENOENT, and a deleted registration is gone and never reported again. "
     "No operation on one registration changes, removes, delays or reports another one - same identifier under another filter, another identifier that agrees in some bits, or the same pair in another kqueue.",
     "inputs histories", "for every sequence of additions, modifications, deletions and deliveries over any set of identifiers, filters and kqueues",
     "The tests use one identifier per filter and one kqueue at a time; collisions and cross talk need particular combinations and orders.",
     "src/common/knote.c src/common/kevent.c src/common/filter.c", [("knote_lookup / knote_insert / knote_delete (red-black tree per filter)", "src/common/knote.c"), ("filter_lookup", "src/common/filter.c")],
     [("kf_knote", "tree of registrations of one filter in one kqueue", "src/common/private.h")])

prop("C03", "A disabled registration never reports; enabling it restores it",
     "From the moment a change with EV_DISABLE (alone, or in the EV_ADD that creates the registration) takes effect until it is enabled again, a registration of any filter is never reported. "
     "EV_ENABLE, or adding it again, makes it report as if newly armed with its current parameters: a condition that still holds is reported at once, user triggers made while disabled and timer expirations of the disabled time are not. "
     "Disabling a disabled and enabling an enabled registration succeed and have no other effect.",
     "histories inputs", "for every filter, every combination of registration flags and every interleaving of enables, disables, deliveries and external activity",
     "The tests disable and enable an idle registration once per filter; pending activity, repeated changes and combined flags are not covered.",
     "src/common/knote.c src/common/kevent.c src/linux/read.c src/linux/write.c src/linux/timer.c src/linux/user.c src/linux/signal.c src/linux/proc.c src/linux/vnode.c",
     [("knote_enable / knote_disable", "src/common/knote.c"), ("kn_enable / kn_disable of each filter", "src/linux/*.c")])

prop("C04", "EV_ONESHOT reports at most once and then removes the registration",
     "A registration made with EV_ONESHOT is returned at most once, however often and wherever its condition becomes true, and it is reported if the condition holds and there is room. "
     "By the time the call that returned it returns, the registration no longer exists: operations on it fail with ENOENT, adding it again starts afresh, and the resources it held are released.",
     "histories schedules", "for every filter, flag combination, amount of room and history of activity before and after the event is taken",
     "The tests take one event and check that no second one follows for a few filters; they do not check removal, re-adding, resources or combinations with the other flags.",
     "src/common/knote.c src/linux/platform.c src/linux/read.c src/linux/timer.c src/linux/user.c src/linux/proc.c", [("knote_copyout_flag_actions", "src/common/knote.c")])

prop("C05", "EV_DISPATCH disables the registration when it is reported, and keeps it",
     "When a registration with EV_DISPATCH is returned it becomes disabled before the call returns and is not returned again until it is enabled or added again; it still exists, keeps its parameters, and can be modified, deleted or re-enabled. "
     "After it is enabled it reports a condition that (still or again) holds.",
     "histories schedules", "for every filter, flag combination, and history of activity between the delivery and the enable",
     "The tests dispatch once and enable once; activity in between, several deliveries in one call and flag combinations are not covered.",
     "src/common/knote.c src/linux/platform.c src/linux/read.c src/linux/write.c src/linux/timer.c src/linux/user.c", [("knote_copyout_flag_actions", "src/common/knote.c"), ("COPY_FLAGS_BIT(EV_DISPATCH)", "src/common/kevent.c")])

prop("C06", "EV_CLEAR reports each change once; without it a condition is reported repeatedly",
     "A read, write or user registration without EV_CLEAR is reported by every call for as long as its condition holds (there is room and it is enabled), and by none once the condition is gone. "
     "With EV_CLEAR it is reported once per new activity: the activity after the last report leads to another report if the condition then holds, and without new activity, re-registration or enabling it is not reported again.",
     "histories", "for every history of activity (data arriving, being read in part or whole, space appearing, end of file, triggers) interleaved with calls of any size",
     "The tests check a single repeat on one socket and one user event; partial reads, activity between calls, and sequences of both are not covered.",
     "src/linux/read.c src/linux/write.c src/linux/user.c src/linux/platform.c", [("EPOLLET registration", "src/linux/platform.c epoll_fd_events"), ("knote event fd lower", "src/linux/user.c")])

prop("C07", "EVFILT_READ reports readable descriptors with the right data and EV_EOF",
     "A read registration on a pipe, stream, datagram or packet socket, listening socket, event descriptor or regular file is reported when, and only when, reading (or accepting) would not block - data is queued, a connection is waiting, the other side has closed or shut down, or the file offset is not at the end. "
     "data is the number of bytes readable (bytes queued, the size of the next datagram, 1 for a listening socket or a socket with a packet filter, the distance to the end for a file); EV_EOF is set when the writing side is gone, also while data remains, and a pending socket error is given in fflags.",
     "histories inputs", "for every object kind and every history of writes, partial reads, shutdowns, closes, seeks and truncations, interleaved with calls",
     "The tests cover one write and one read on a socket, one close and one file; they do not cover partial reads, shutdown with queued data, packet sockets or several connections.",
     "src/linux/read.c src/linux/platform.c src/common/knote.c", [("evfilt_read_copyout", "src/linux/read.c"), ("evfilt_read_knote_create", "src/linux/read.c")])

prop("C08", "EVFILT_WRITE reports writable descriptors and broken peers",
     "A write registration on a pipe, stream, datagram or packet socket, event descriptor or regular file is reported when, and only when, writing would not block: there is space, space has appeared again after the reader drained a full object, or the reader is gone. "
     "When the reader is gone EV_EOF is set; otherwise data is the amount still queued for output on a socket.",
     "histories inputs", "for every object kind and every history of filling, draining, shutdown and close of either side, interleaved with calls",
     "The tests register one writable socket; full buffers, space appearing, and peers closing are not covered.",
     "src/linux/write.c src/linux/platform.c", [("evfilt_socket_copyout", "src/linux/write.c"), ("evfilt_socket_knote_create", "src/linux/write.c")])

prop("C09", "EVFILT_TIMER fires on time, with the number of expirations",
     "A timer registered with period T (milliseconds by default, or seconds, micro- or nanoseconds; or an absolute time) first becomes ready exactly when T has elapsed or the absolute time is reached, never earlier, and then every T (one-shot timers: once). "
     "An event's data is the number of expirations since the previous report (or arming); they are neither lost nor counted twice, and no event is given without an expiration. "
     "Adding an existing timer again replaces its period, unit and flags and restarts it; a negative period is refused.",
     "inputs histories", "for every period, unit, flag combination and history of waiting, modifying, disabling and deleting, on a virtual clock",
     "The tests wait for a few real intervals with generous tolerance; expiration counts, unit conversions near the limits and modifications at every phase are not covered.",
     "src/linux/timer.c", [("convert_timedata_to_itimerspec", "src/linux/timer.c"), ("evfilt_timer_copyout / knote_modify", "src/linux/timer.c")])

prop("C10", "EVFILT_SIGNAL reports each delivered signal and nothing else",
     "While a signal registration is enabled, a signal of that number sent to the process is reported through it (once per signal for real-time signals, at least once per burst for standard signals that merge while pending) and does not run the application's handler; signals of other numbers are neither reported by it nor diverted. "
     "Signals are consumed by being reported once, are not lost while they wait for a call with room, and disabling, enabling or deleting one registration does not disturb those of other signals.",
     "histories", "for every sequence of registrations of several signals and signals sent before, between and during them",
     "The tests send one signal to one registration; several signals, bursts, and changes while signals are pending are not covered.",
     "src/linux/signal.c", [("signalfd_create / signalfd_reset", "src/linux/signal.c"), ("evfilt_signal_copyout", "src/linux/signal.c")], observe=("kevent(2)", "signal handlers of the application"))

prop("C11", "EVFILT_PROC NOTE_EXIT reports a child's exit once, with its status",
     "A registration with NOTE_EXIT for a child process is reported exactly once after the child has terminated, also when it had already terminated at registration, with EV_EOF and its wait status in data (0 if it has been reaped), and never before. "
     "It is then removed, the status stays available to the application's own wait, and other children's registrations are unaffected; without NOTE_EXIT nothing is reported.",
     "histories schedules", "for every exit status or killing signal, and every order of fork, exit, reap, add, disable, enable, delete and call",
     "The tests cover one exit with one status; signal deaths, zombies, reaped children and several children are not covered.",
     "src/linux/proc.c", [("evfilt_proc_knote_create (pidfd)", "src/linux/proc.c"), ("evfilt_proc_knote_copyout (waitid WNOWAIT)", "src/linux/proc.c")], observe=("kevent(2)", "waitpid(2) of the application"))

prop("C12", "EVFILT_VNODE reports exactly the file changes asked for",
     "A vnode registration on an open file reports content changes, growth, attribute changes, link-count changes, renames and deletion if, and only if, the corresponding NOTE_WRITE, NOTE_EXTEND (also given along with a requested NOTE_WRITE), NOTE_ATTRIB, NOTE_LINK, NOTE_RENAME or NOTE_DELETE was requested; fflags of the event names what happened. "
     "A change is reported once; reading, opening or closing the file reports nothing, and modifying the registration makes the new notes count from then on.",
     "histories inputs", "for every subset of notes and every history of file operations interleaved with calls, modifications, disables and enables",
     "The tests make one change per note with that note registered; unrequested changes, several queued changes and subsets are not covered.",
     "src/linux/vnode.c", [("get_one_event / evfilt_vnode_copyout", "src/linux/vnode.c"), ("add_watch", "src/linux/vnode.c")])

prop("C13", "EVFILT_USER reports triggers and combines flags as asked",
     "A user registration is reported if, and only if, it was triggered with NOTE_TRIGGER while enabled since it was added, last cleared or dispatched; with EV_CLEAR, EV_DISPATCH or EV_ONESHOT one report consumes all triggers so far, otherwise it stays reported until deleted. "
     "fflags of the event are the low 24 bits as left by the NOTE_FFNOP, NOTE_FFAND, NOTE_FFOR and NOTE_FFCOPY operations applied in order, and control bits never show; a trigger never affects another registration or kqueue.",
     "histories inputs", "for every sequence of triggers and flag operations with every operand, interleaved with calls, disables, enables and re-adds",
     "The tests trigger once and apply one operation; sequences of operations, repeated triggers and disabled triggers are not covered.",
     "src/linux/user.c src/common/knote.c", [("linux_evfilt_user_knote_modify", "src/linux/user.c"), ("linux_evfilt_user_copyout", "src/linux/user.c")])

prop("C14", "Events carry the caller's ident, filter and udata verbatim",
     "Every returned event names the registration it belongs to: the identifier and filter as registered, over their full width, and all 64 bits of the udata of the last successful add or modification, never an older value, another registration's, or a value of a failed change. "
     "Error and receipt entries carry the fields of the change they answer.",
     "inputs histories", "for every identifier and udata value, every filter, and every history of re-adds, modifications, enables, disables and failures",
     "The tests compare udata once after one add; updates, failed updates and wide values are not covered.",
     "src/common/kevent.c src/linux/*.c", [("kevent_copyin_one udata update", "src/common/kevent.c"), ("memcpy of kn->kev in each copyout", "src/linux/*.c")])

prop("C15", "Closing a kqueue releases everything it held and leaves the others alone",
     "After a kqueue's descriptor is closed, every descriptor and all memory the library obtained for it and its registrations is released without any further call, later calls on the number fail with ENOENT, and other kqueues keep their registrations and pending events. "
     "A new kqueue - also one that gets the number of a closed one, before or after the clean-up has happened - is empty, independent and fully working and is never torn down by the clean-up of its predecessor; registrations that are deleted, fired once or replaced hold no descriptor and no memory, so no history of operations leaks any, whatever numbers the library's own descriptors happen to have (0 and 1 in a program that runs without standard input and output, or beyond 1024). A kqueue() whose descriptors are beyond the limit the process had when it first used the library either works or is refused with -1, and then nothing is left behind.",
     "histories schedules", "for every interleaving of creating, using and closing kqueues with the background clean-up, and every history of registrations",
     "The tests open and close a kqueue; the clean-up runs asynchronously, so its races with new kqueues and descriptor reuse need chosen schedules.",
     "src/linux/platform.c src/common/kqueue.c src/common/map.c", [("monitoring_thread_loop / monitoring_thread_kqueue_cleanup", "src/linux/platform.c"), ("kqueue_free", "src/common/kqueue.c")],
     [("fd_use_cnt", "kqueues per descriptor number that still await their close notification", "src/linux/platform.c")], observe=("kqueue(2)", "kevent(2)", "/proc/self/fd"))

prop("C16", "fork(): the child has no kqueues, the parent's are untouched",
     "After fork() with fork clean-up on (the default) the kqueues of the parent are closed in the child: calls on their numbers fail, their descriptors are not open in the child, and the child can create and use kqueues of its own and fork again. "
     "Nothing the child does afterwards - failing calls, new kqueues, closing, exiting - changes what the parent's kqueues hold or report; with clean-up turned off the library closes nothing in the child.",
     "histories schedules", "for every set of kqueues and registrations at the time of the fork and every sequence of operations in both processes",
     "The test forks once with one idle kqueue; registrations, child activity and repeated forks are not covered.",
     "src/common/kqueue.c src/linux/platform.c src/common/filter.c", [("libkqueue_pre_fork / parent_fork / child_fork", "src/common/kqueue.c"), ("linux_libkqueue_fork", "src/linux/platform.c")], observe=("kevent(2) in parent and child", "/proc/self/fd in the child"))

prop("C17", "Concurrent use of kqueues behaves like some sequential order",
     "Whatever several threads do at once with the same or different kqueues - changes, waits, triggers, creating and closing kqueues - each call returns what it would return if the calls had happened one after another in some order consistent with real time; in particular an event of a one-shot, dispatched or consumed trigger goes to exactly one thread and none is lost. "
     "No interleaving - closing a kqueue while others make calls on it included - crashes, corrupts memory or deadlocks.",
     "schedules histories", "for every interleaving of calls by several threads",
     "Tests run one thread, or several under the schedule the machine happens to choose; the outcome must hold for all schedules.",
     "src/common/kevent.c src/common/kqueue.c src/linux/platform.c src/linux/user.c", [("kq_mtx and per-kqueue lock", "src/common/kevent.c, src/common/kqueue.c")])

prop("C18", "kevent() honours its timeout",
     "A call with room for events returns at once if an event (or a receipt or error) is available; otherwise it waits until one becomes available or the timeout has fully elapsed, whichever is first: never returning empty before the timeout, never later than about a millisecond after it, with a null timeout only when there is an event, with a zero timeout immediately. "
     "Without room for events it never waits. This holds for every timeout representable, also when wake-ups in between yield no event.",
     "inputs schedules", "for every timeout value from nanoseconds to the largest representable, and every time at which events arrive, on a virtual clock",
     "The tests use a handful of short timeouts against the real clock with wide tolerance.",
     "src/common/kevent.c src/linux/platform.c", [("linux_kevent_wait / linux_kevent_wait_hires", "src/linux/platform.c"), ("kevent_timeout_left", "src/common/kevent.c")], observe=("kevent(2) result and elapsed (virtual) time",))

prop("C19", "A failing system call fails the operation cleanly",
     "If any system call or allocation the library makes while creating a kqueue or adding a registration fails, the call reports an error (or still succeeds fully): a failed kqueue() returns -1, a failed addition yields the error entry and the registration does not exist (a signal stays with its handler). "
     "No descriptor or memory is leaked, nothing else in any kqueue changes, no lock stays held, and retrying the operation afterwards works.",
     "fault_sequences inputs", "for every system call and allocation made in each operation, failing at each occurrence, for every filter",
     "Tests cannot make a chosen system call fail at a chosen point.",
     "src/linux/*.c src/common/kqueue.c src/common/kevent.c", [("error paths of kn_create and kqueue_init", "src/linux/*.c, src/common/kqueue.c")], observe=("kqueue(2), kevent(2)", "/proc/self/fd"))

prop("C20", "Invalid arguments are refused without side effects",
     "A call on a number that is not an open kqueue returns -1 with ENOENT; a change with an unknown filter, an unsupported filter, EV_DISPATCH together with EV_ONESHOT, a descriptor that is not open or cannot be watched, or a negative timer is refused with EINVAL, ENOSYS or EFAULT as documented by its error entry. "
     "A refused change alters no registration, takes no resource, and never crashes the process, whatever the argument values.",
     "inputs histories", "for every filter number, flag combination, identifier and descriptor value, on every prior state",
     "The tests try two or three invalid values; the input space is all field values.",
     "src/common/filter.c src/common/kevent.c src/common/map.c src/linux/*.c", [("filter_lookup", "src/common/filter.c"), ("kqueue_lookup / map_lookup bounds", "src/common/map.c")])

prop("C21", "EVFILT_LIBKQUEUE answers queries and settings in place",
     "Adding an EVFILT_LIBKQUEUE entry with NOTE_VERSION or NOTE_VERSION_STR returns, in the same call and at that entry's place among the change list's entries, the library's version in data or udata; NOTE_THREAD_SAFE and NOTE_FORK_CLEANUP set the option from data and with EV_RECEIPT return its previous value. "
     "Unknown notes are refused; settings affect nothing else and persist until set again.",
     "inputs histories", "for every sequence of queries and settings mixed with other changes",
     "The tests query each note once.",
     "src/common/libkqueue.c src/common/kevent.c", [("common_libkqueue_knote_create / knote_modify", "src/common/libkqueue.c")])

prop("C22", "Cancelling a waiting thread leaves the kqueue usable",
     "A thread cancelled while waiting in kevent(), or about to enter or leave it, leaves no lock held: other threads can use, create and close kqueues afterwards. The changes of the cancelled call are applied either all or not at all, and every other registration is as it was. "
     "A pending event is not lost by it unless the call had already taken all of its events, and the thread's cancellation state is the same after every kqueue() or kevent() call, successful or not, as before.",
     "schedules", "for every point at which the cancellation request arrives",
     "The test cancels one waiting thread; every other point and error path is not covered.",
     "src/common/kevent.c src/common/kqueue.c", [("pthread_cleanup_push(kevent_release_kq_mutex)", "src/common/kevent.c"), ("pthread_setcancelstate pairs", "src/common/kevent.c, src/common/kqueue.c")], observe=("kevent(2) by other threads", "pthread_setcancelstate"))

prop("C23", "When more is ready than fits, nothing is lost or starved",
     "When more registrations are ready than the event list has room for, the call returns at least one and at most nevents of them, and those left out are returned by later calls without new activity - including edge-triggered ones, one-shot ones and both filters of one descriptor. "
     "Repeated calls of any size, even one entry, return every continuously ready registration within a bounded number of calls.",
     "inputs histories", "for every number of ready registrations of every mix of filters and flags and every sequence of event-list sizes",
     "The tests take events with ample room.",
     "src/linux/platform.c src/common/kevent.c", [("linux_kevent_copyout", "src/linux/platform.c"), ("kq_nb_dual_fds, epoll_fd_rearm", "src/linux/platform.c")])

prop("C24", "Read and write registrations on one descriptor do not disturb each other",
     "With EVFILT_READ and EVFILT_WRITE both registered on the same descriptor, each is reported exactly when it would be on its own, with its own udata, data and flags. "
     "Adding, deleting, disabling, enabling, one-shot or dispatched delivery of one neither suppresses nor fabricates reports of the other.",
     "histories", "for every combination of flags of the two registrations and every history of changes, deliveries and traffic",
     "The tests register both filters once and check one event each.",
     "src/linux/platform.c src/linux/read.c src/linux/write.c", [("epoll_fd_state / epoll_fd_registered / epoll_update", "src/linux/platform.c")],
     [("fd_state", "which filters share the epoll registration of a descriptor", "src/linux/platform.h")])

prop("C25", "Closing a watched descriptor is harmless, its number can be reused",
     "Closing a descriptor that has read, write or vnode registrations (and no duplicate elsewhere) makes them silent: they are never reported again on behalf of the closed object, deleting them does not crash, and no other registration is affected. "
     "When the number is reused for a new object, registering it again works and reports the new object only.",
     "histories", "for every object kind and every order of close, reuse, delete, re-add and calls",
     "The tests delete registrations before closing.",
     "src/linux/platform.c src/linux/read.c src/linux/write.c src/linux/vnode.c", [("epoll_update MOD/ADD fallback", "src/linux/platform.c"), ("fd_state tree", "src/linux/platform.c")])

prop("C26", "exit() ends the process whatever the kqueues are doing",
     "A process that has used kqueues ends promptly when it calls exit() or returns from main, with the exit status it gave, whatever state its kqueues are in: open, closed with the clean-up still pending, never used, or being used, waited on, created and closed by other threads at that moment - also in a forked child. "
     "The library's exit handler neither blocks for ever, nor crashes, nor changes the exit status.",
     "histories schedules", "for every history of kqueues and every interleaving of exit() with the library's own thread and with other threads that each use kqueues of their own",
     "The tests close their kqueues and exit once at the end; the hand-over between the exit handler, the monitoring thread and other threads has narrow windows.",
     "src/linux/platform.c src/common/kqueue.c src/common/filter.c", [("linux_libkqueue_free", "src/linux/platform.c"), ("monitoring_thread_loop / monitoring_thread_cleanup", "src/linux/platform.c"), ("libkqueue_free", "src/common/kqueue.c")],
     [("monitoring_tid / monitoring_thread_state", "is there a monitoring thread, and how may it be cancelled", "src/linux/platform.c")], observe=("exit status of the process",))

prop("C27", "Debug messages only observe",
     "Debug messages (a debug build's NOTE_DEBUG, NOTE_DEBUG_PREFIX, NOTE_DEBUG_FUNC and the KQUEUE_DEBUG environment variable) change nothing but themselves: with them on, whatever the debug function does to errno and whether or not standard error can be written, every call returns the same results, events and error numbers as with them off. "
     "No message is produced while they are off, and while they are on calls on a kqueue produce messages; every message starts with the prefix last set (of which the library keeps a copy; KQ by default, or when none is given) and goes to the function last set, or to standard error when that is none. "
     "EV_RECEIPT with NOTE_DEBUG reports the previous setting.",
     "inputs histories", "for every history of calls with debug messages turned on, off and redirected at any point in it",
     "The tests never set a prefix or a function, and run either with or without messages.",
     "src/common/debug.h src/common/debug.c src/common/libkqueue.c src/common/kqueue.c", [("dbg_puts / dbg_printf / dbg_perror", "src/common/debug.h"), ("libkqueue_debug_ident_set / libkqueue_debug_func_set", "src/common/debug.c"), ("common_libkqueue_knote_create", "src/common/libkqueue.c"), ("libkqueue_init: KQUEUE_DEBUG", "src/common/kqueue.c")],
     [("libkqueue_debug / libkqueue_debug_ident / libkqueue_debug_func", "are messages produced, their prefix and their destination", "src/common/debug.c")], observe=("return value, errno and events of kevent() and kqueue()", "messages handed to the debug function, growth of standard error"))

prop("C28", "Programs started with exec() get none of the library's descriptors",
     "Every descriptor the library opens, for a kqueue or for a registration of any filter on any kind of object, is closed on exec() from the moment it exists: a program that is started with exec() (also through vfork() or posix_spawn(), by any thread, whatever other threads are doing) inherits none of them, whatever has been registered, modified, disabled, enabled, delivered or deleted before.",
     "histories schedules", "for every history of kqueues and registrations and every moment at which another thread starts a program",
     "No test starts a program; the descriptors of each filter and object kind are opened at different places.",
     "src/linux/*.c", [("eventfd / timerfd / signalfd / inotify / pidfd creation in kn_create", "src/linux/*.c"), ("linux_kqueue_init", "src/linux/platform.c")], observe=("descriptor flags (FD_CLOEXEC)", "descriptors of a started program"))

TECH = "TLA+ specification model-checked with TLC; traces of the real library validated against it"
NOTE = "TLC checks the property on the specification for small constants; specification-generated and seeded random operation sequences are executed on the library built from /repo and every recorded step is validated against the specification. Assurance on the code is bounded by the sequences explored. Trusted: TLC, the harness, the Linux kernel, the virtual clock."
EXTRA = {
    "C16": "Fork scenarios run in real child processes.",
    "C17": "Histories of real threads under a controlled scheduler are checked for linearizability against the same specification.",
    "C19": "Every explored addition is repeated with each system call or allocation it can make failing at each occurrence.",
    "C22": "Explored calls are repeated with the cancellation request arriving at every system call, allocation and lock operation.",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    import sys
    sys.path.insert(0, os.path.join(HERE, "lib"))
    import checks
    man = dict(version=1, setup_cmd="bash bin/setup", checks=[], not_applicable=[],
               notes="python3 bin/check ID [--thorough]; see DESIGN.md. No hooks in /repo: interposition is done at link time (ld --wrap).")
    for p in P:
        i = p["id"]
        if i in checks.CHECKS:
            man["checks"].append(dict(property=i, quick_cmd="python3 bin/check %s" % i, thorough_cmd="python3 bin/check %s --thorough" % i,
                                      evidence_file="evidence/%s.json" % i, technique=TECH, level="model_checking", level_note=NOTE + (" " + EXTRA[i] if i in EXTRA else "")))
        else:
            man["not_applicable"].append(dict(property=i, reason="no check built yet"))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
