"""Which parts decide which property.  A part is (kind, arguments, quick size, thorough size)."""
# kinds: trace = seeded random scenarios of a profile (lib/gen.py), validated step by step against spec/Kq.tla
#        mc    = exhaustive TLC run of spec/KqMC.tla on a model: property invariants on the specification, and every
#                explored transition replayed on the library (sampled in quick, all in thorough) and validated
#        mcx   = explored behaviours of a model, each replayed with the last call cancelled at every point (cancel), with every
#                fault in the last addition (fault), the process forking at every step (fork), or its last operations
#               done by different threads under schedules with one or two preemptions (conc)
def T(profile, q, t, **kw): return dict(kind="trace", profile=profile, q=q, t=t, **kw)
def M(model, dq, dt, replay=600, **kw): return dict(kind="mc", model=model, dq=dq, dt=dt, replay=replay, **kw)

def X(var, model, dq, dt, replay=600, **kw): return dict(kind="mcx", var=var, model=model, dq=dq, dt=dt, replay=replay, **kw)


CHECKS = {
    "C01": [T("changelist", 2000, 20000), T("big", 150, 3000), M("change", 3, 5), M("libkq", 2, 3, 300)],
    "C02": [T("identity", 2000, 20000), T("generic", 1000, 10000), M("ident", 4, 5)],
    "C03": [T("disable", 2000, 25000), M("user", 6, 8), M("pipe", 5, 7), M("timer", 5, 6), M("signal", 5, 6, 300)],
    "C04": [T("oneshot", 2000, 25000), M("user", 6, 8), M("pipe", 5, 7), M("rw", 5, 6, 900), M("timer", 5, 6)],
    "C05": [T("dispatch", 2000, 25000), M("user", 6, 8), M("pipe", 5, 7), M("rw", 5, 6, 900), M("timer", 5, 6)],
    "C06": [T("clear", 2000, 25000), M("pipe", 5, 7, 900), M("pipew", 5, 7, 900), M("sock", 6, 8, 900), M("user", 6, 8)],
    "C07": [T("read", 2000, 25000), M("pipe", 5, 7), M("sock", 6, 8), M("pkt", 5, 6), M("listen", 5, 6), M("file", 5, 6)],
    "C08": [T("write", 2000, 25000), M("pipew", 5, 7, 900), M("rw", 5, 6, 900), M("file", 5, 6)],
    "C09": [T("timer", 3000, 40000), M("timer", 6, 7, 1500), M("wait", 5, 6)],
    "C10": [T("signal", 3000, 40000), M("signal", 5, 6, 1500)],
    "C11": [T("proc", 2000, 25000), M("proc", 6, 8, 1500)],
    "C12": [T("vnode", 800, 12000), M("vnode", 4, 5, 1500)],
    "C13": [T("user", 3000, 40000), M("user", 7, 9, 1500), M("ident", 4, 5)],
    "C14": [T("udata", 2500, 30000), M("ident", 4, 5), M("user", 6, 8)],
    "C15": [T("life", 1500, 20000), T("clife", 1500, 20000), T("clife", 800, 20000, variant="sched"), T("cclose", 800, 20000), M("life", 6, 8, 1500)],
    "C16": [T("fork", 1500, 20000), T("cfork", 1200, 20000, variant="plain"), T("cfork", 500, 15000, variant="sched"), X("fork", "user", 4, 6), X("fork", "pipe", 4, 6), X("fork", "timer", 4, 5), X("fork", "life", 5, 6), X("fork", "file", 4, 5), X("fork", "vnode", 3, 4)],
    "C17": [T("conc", 2500, 40000), T("conc", 1500, 30000, variant="sched"), T("cown", 2500, 40000), T("cclose", 500, 10000), T("cfork", 300, 5000, variant="plain"), T("cclose", 500, 20000, variant="sched")] + [X("conc", m, dq, dt, 900) for m, dq, dt in (("user", 5, 6), ("pipe", 4, 5), ("rw", 4, 5), ("timer", 4, 5), ("wait", 4, 5), ("proc", 4, 5), ("life", 5, 6))],
    "C18": [T("wait", 3000, 40000), M("wait", 6, 7, 1500)],
    "C19": [T("faults", 1500, 20000)] + [X("fault", m, 3, 4, 400) for m in ("user", "pipe", "pipew", "rw", "sock", "file", "timer", "signal", "proc", "vnode")],
    "C20": [T("invalid", 2500, 30000), M("change", 3, 4)],
    "C21": [T("libkq", 1500, 20000), M("libkq", 3, 4, 1500)],
    "C22": [T("cancel", 2500, 30000)] + [X("cancel", m, 4, 5, 800) for m in ("user", "pipe", "rw", "timer", "wait", "change", "life")],
    "C23": [T("cap", 2000, 20000), T("big", 350, 5000), M("cap", 6, 7, 1500)],
    "C24": [T("rw", 2500, 30000), M("rw", 6, 7, 1500), M("rwclear", 6, 7, 1500)],
    "C25": [T("reuse", 2000, 25000), M("close", 6, 8, 1500)],
    "C26": [T("quit", 2000, 25000), T("cquit", 4000, 60000), T("cquit", 2500, 50000, variant="sched"), T("fork", 600, 8000), X("quit", "life", 6, 8, 1500), X("quit", "user", 4, 5, 300)],
    "C27": [T("debug", 2500, 30000)] + [X("debug", m, dq, dt, 500) for m, dq, dt in (("change", 3, 4), ("rw", 4, 5), ("timer", 4, 5), ("libkq", 2, 3), ("life", 5, 6))],
    "C28": [T("exec", 2500, 30000), T("cexec", 800, 15000), T("cexec", 300, 10000, variant="sched")] + [X("exec", m, dq, dt, 500) for m, dq, dt in (("file", 4, 5), ("vnode", 3, 4), ("rw", 4, 5), ("signal", 4, 5), ("proc", 4, 5), ("timer", 4, 5), ("life", 5, 6))],
}
