"""The machinery behind bin/check."""
import json
import os
import random
import re
import shutil
import tempfile
import time

import core
import gen
from checks import CHECKS

VERIF = core.VERIF


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="kqv-%s-" % prop)
        self.bins = {}
        self.bad = []           # confirmed violations
        self.flaky = []
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples = []
        self.parts = []
        self.t0 = time.time()

    def binary(self, variant="plain", name="kqh"):
        if variant not in self.bins:
            self.bins[variant] = core.build(self.work, variant)
        return os.path.join(self.bins[variant], name)

    def sub(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def left(self, limit):
        return limit - (time.time() - self.t0)


def confirm(ctx, b, binary, module="KqTrace", env=None):
    """run the offending scenario again, alone; a violation must come back"""
    n = 0
    for j in range(4):
        r = core.run(binary, [b.script], ctx.sub("conf%d" % j), shards=1, tlim=60, module=module, env=dict(env or {}, KQH_FDWAIT="6000"))
        if r["bad"]:
            n += 1
            if n >= 1:
                return r["bad"][0]
    return None


def shrink(ctx, b, binary, module="KqTrace", budget=25.0):
    """remove lines of the script while it is still rejected for the same reason"""
    t0 = time.time()
    lines = b.script.rstrip("\n").split("\n")
    head, body = lines[0], lines[1:b.line + 1]
    best = b

    def still(cands):
        scr = ["S c%d\n%s\n" % (j, "\n".join(c)) for j, c in enumerate(cands)]
        try:
            r = core.run(binary, scr, ctx.sub("shr"), shards=4, tlim=20, module=module)
        except core.Inconclusive:
            return {}
        # leaving lines out can make a script that the harness refuses (exit codes 70-86); that's not the same failure
        bad = lambda x: (x.rec or {}).get("op") == "crash" and ((x.rec.get("v", 0) >> 8) & 0xff) in range(70, 87)
        return {int(x.sid[1:]): x for x in r["bad"] if x.why == b.why and (not bad(x) or x.rec == b.rec)}
    step = max(1, len(body) // 2)
    while time.time() - t0 < budget:
        cands = [body[:i] + body[i + step:] for i in range(0, len(body), step)]
        ok = still(cands) if cands else {}
        if ok:
            i = min(ok, key=lambda j: len(cands[j]))
            body = cands[i]
            best = ok[i]
            body = body[:best.line]
        elif step == 1:
            break
        else:
            step = max(1, step // 2)
    best.script = head + "\n" + "\n".join(body) + "\n"
    return best


def account(ctx, name, r, scripts, binary, module="KqTrace"):
    ctx.states += r["states"]
    ctx.steps += r["steps"]
    ctx.traces += r["segs"]
    if scripts and len(ctx.samples) < 4:
        ctx.samples.append(dict(part=name, script=scripts[len(scripts) // 2].split("\n")[:14]))
    for b in r["bad"][:6]:
        c = confirm(ctx, b, binary, module)
        if c is None:
            ctx.flaky.append("%s: %s" % (name, b))
            continue
        c.script = b.script
        ctx.bad.append((name, c, binary))
        return      # one is enough


def part_trace(ctx, p):
    n = p["t"] if ctx.tier == "thorough" else p["q"]
    # unless the profile needs a build of its own, two fifths of the scenarios run with the address sanitizer
    share = [(p["variant"], n)] if "variant" in p else [("plain", n - n * 2 // 5), ("asan", n * 2 // 5)]
    for variant, n in share:
        b = ctx.binary(variant)
        done = 0
        while done < n and not ctx.bad:
            m = min(n - done, 6000)
            scripts = gen.batch(p["profile"], "%s.%s%d" % (ctx.seed, "" if variant == "plain" else variant[0], done), m)
            r = core.run(b, scripts, ctx.sub("t-%s-%s" % (p["profile"], variant)))
            account(ctx, "trace/" + p["profile"], r, scripts, b)
            done += m
        ctx.parts.append(dict(part="trace/" + p["profile"], scenarios=done, variant=variant))


def mc_run(ctx, model, depth, dump):
    cfg = os.path.join(ctx.work, "mc-%s.cfg" % model)
    with open(cfg, "w") as f:
        f.write('SPECIFICATION Spec\nCONSTANTS Model = "%s" MaxLen = %d Dump = %s\nVIEW View\nINVARIANT Holds\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
                % (model, depth, "TRUE" if dump else "FALSE"))
    rc, out = core.tlc("KqMC", cfg=cfg, workdir=ctx.work, heap="3g", timeout=700)
    if "Model checking completed. No error has been found." not in out:
        raise core.Inconclusive("TLC on KqMC/%s: %s" % (model, out[-3000:]))
    setup = re.search(r'"SETUP ([^"]*)"', out).group(1)
    scripts = re.findall(r'"SCRIPT ([^"]*)"', out)
    return core.stats(out), setup, scripts


def mc_scripts(ctx, p):
    """explore the model; every transition is a script, and one that is a prefix of another is covered by it"""
    depth = p["dt"] if ctx.tier == "thorough" else p["dq"]
    (g, d), setup, scripts = mc_run(ctx, p["model"], depth, True)
    ctx.states += d
    ctx.transitions += g
    return depth, g, d, setup, sorted(set(scripts))


def mc_body(text):
    body = text.rstrip(";").split(";")
    # connection names must be fresh
    return [x + str(n) if x.startswith("conn ") else x for n, x in enumerate(body)]


def mc_close(body):
    openk = []
    for x in body:
        t = x.split()
        if t[0] == "kq" and t[1] not in openk:
            openk.append(t[1])
        if t[0] == "clk":
            openk.remove(t[1])
    return ["clk " + k for k in openk] + ["fds 0"]


def part_mc(ctx, p):
    depth, g, d, setup, scripts = mc_scripts(ctx, p)
    keep = [s for i, s in enumerate(scripts) if i + 1 == len(scripts) or not scripts[i + 1].startswith(s)]
    total = len(keep)
    limit = p["replay"] if ctx.tier == "quick" else p["replay"] * 20
    if total > limit:
        keep = random.Random("%s/%s" % (ctx.seed, p["model"])).sample(keep, limit)
    scr = []
    for j, s in enumerate(keep):
        body = mc_body(setup + s)
        scr.append("S mc-%s-%d\n%s\n" % (p["model"], j, "\n".join(body + mc_close(body))))
    b = ctx.binary(p.get("variant", "plain"))
    r = core.run(b, scr, ctx.sub("m-" + p["model"]))
    account(ctx, "mc/" + p["model"], r, scr, b)
    ctx.parts.append(dict(part="mc/" + p["model"], depth=depth, states=d, transitions=g, scripts=total, replayed=len(scr)))


# ---------------------------------------------------------------- variants of explored behaviours
def var_cancel(r, body):
    """the last call is made by a thread that is being cancelled, at every point of the call"""
    t = body[-1].split(" ")
    if t[0] != "kev":
        return []
    after = ["kev %s 16 z" % t[1]]
    return [body[:-1] + ["ckev e %d %s" % (n, " ".join(t[1:]))] + after for n in [-1] + list(range(0, 22))] + \
           [body[:-1] + ["ckev d %d %s" % (n, " ".join(t[1:]))] + after for n in (-1, 0, 5)]


def var_fault(r, body):
    """a system call or allocation fails while the last change adds a registration; then it is tried again"""
    t = body[-1].split(" ")
    if t[0] != "kev" or len(t) != 5:
        return []
    c = t[4].split(",")
    if not int(c[2]) & 1 or int(c[2]) & 144 == 144 or int(c[0]) not in gen.ADD_FAULTS:
        return []
    if any((" " + c[0] + "," + c[1] + ",") in x for x in body[:-1]):
        return []           # it may exist already
    out = []
    for fn in sorted(set(gen.ADD_FAULTS[int(c[0])])):
        for nth in (1, 2, 3):
            for room in (0, 8):
                call = "kev %s %d z %s" % (t[1], room, t[4])
                out.append(body[:-1] + ["fault %s %d %d" % (fn, nth, r.choice(gen.ERRNOS)), call, "fds 0", "kev %s 16 z" % t[1],
                                        "kev %s 16 z %s" % (t[1], t[4]), "kev %s 16 z" % t[1]])
    return out


def var_fork(r, body):
    """the process forks somewhere on the way, and the child does things"""
    first = next((i for i, x in enumerate(body) if x.startswith("kev ")), len(body))
    calls = [x for x in body if x.startswith("kev ")]
    out = []
    for at in range(first, len(body) + 1):
        stale = []
        for x in r.sample(calls, min(2, len(calls))) if calls else []:
            t = x.split(" ")
            stale += ["!c0 kev %s %d z%s" % (t[1], m, "".join(" " + y for y in t[4:])) for m in (0, 8)]
        kid = stale + r.choice([[], ["!c0 kq 11"], ["!c0 kq 11", "!c0 kev 11 8 z -11,1,1,16777216,0,0x5", "!c0 clk 11", "!c0 fds 0"], ["!c0 kq 11", "!c0 pf c1", "!c1 kev 11 8 z", "!c1 kq 21", "pexit c1"]])
        rest = body[at:]
        if any(x.startswith("cl ") or x.startswith("killc") for x in rest) or r.random() < 0.5:
            out.append(body[:at] + ["pf c0"] + kid + ["pexit c0"] + rest)
        else:
            out.append(body[:at] + ["pf c0"] + kid + rest + ["pexit c0"])
    return out


def var_conc(r, body):
    """the last operations are done by different threads, under schedules with one or two preemptions"""
    first = next((i for i, x in enumerate(body) if x.startswith("kev ")), len(body))
    out = []
    for m in (2, 3, 4):
        ops = body[-m:]
        if len(body) - m < first or sum(x.startswith("kev ") for x in ops) < 2:
            continue
        if any(x.split(" ")[0] in ("adv", "sig", "fork", "reap", "mk", "hi", "re", "fault") for x in ops):
            continue
        if any(x.startswith("cl ") and any("@%s," % x.split(" ")[1] in y for y in body) for x in ops):
            continue
        if any(x.startswith("clk ") and any(y.split(" ")[:2] in (["kev", x.split(" ")[1]], ["kq", x.split(" ")[1]]) for y in ops) for x in ops):
            continue
        ks = sorted({x.split(" ")[1] for x in body if x.startswith("kq ")} - {x.split(" ")[1] for x in body if x.startswith("clk ")})
        nt = r.choice([2, 2, 3]) if m > 2 else 2
        own = [j % nt + 1 for j in range(m)]
        r.shuffle(own)
        lines = [":%d %s" % (t, x) for t, x in zip(own, ops)]
        for j in range(12):
            plan = ",".join("%d:%d" % (r.randrange(1, 14 * m), r.randrange(0, nt + 1)) for _ in range(1 if j < 8 else 2))
            out.append(body[:-m] + ["par %d s %s" % (j, plan)] + lines + ["join"] + ["kev %s 16 z" % k for k in ks])
    return out


def var_quit(r, body):
    """the process exits after the last operations, under schedules that let the library's thread in at some points"""
    first = next((i for i, x in enumerate(body) if x.startswith("kq ")), 0)
    out = [body + ["quit %d" % r.choice([0, 5])]]
    for m in (1, 2, 4, 6):
        if len(body) - m < 0 or any(x.split(" ")[0] not in ("kq", "kev", "clk", "wr", "rd") for x in body[-m:]):
            continue
        for j in range(4 if m < 6 else 8):
            plan = ",".join("%d:%d" % (r.randrange(1, 10 + 12 * m), r.choice([0, 0, 1])) for _ in range(r.choice([1, 2, 3])))
            out.append(body[:-m] + ["par %d s %s" % (j, plan)] + [":1 " + x for x in body[-m:]] + [":1 quit 9", "join"])
    return out


def var_debug(r, body):
    """debug messages turned on, off and redirected on the way"""
    g = gen.DebugGen("", dict(base=["user"]))
    g.r = r
    return [g.mix("\n".join(["S x"] + body)).rstrip("\n").split("\n")[1:] for _ in range(2)]


def var_exec(r, body):
    """at every step: what would a program started now inherit?"""
    first = next((i for i, x in enumerate(body) if x.startswith("kq ")), 0)
    return [body[:first + 1] + [y for x in body[first + 1:] for y in (x, "exec")]]


VARIANTS = dict(exec=var_exec, debug=var_debug, quit=var_quit, conc=var_conc, cancel=var_cancel, fault=var_fault, fork=var_fork)


def part_mcx(ctx, p):
    depth, g, d, setup, scripts = mc_scripts(ctx, p)
    r = random.Random("%s/%s/%s" % (ctx.seed, p["model"], p["var"]))
    r.shuffle(scripts)
    limit = p["replay"] if ctx.tier == "quick" else p["replay"] * 15
    scr, used = [], 0
    for s in scripts:
        v = VARIANTS[p["var"]](r, mc_body(setup + s))
        used += bool(v)
        for body in v:
            scr.append("S mcx-%s-%s-%d\n%s\n" % (p["var"], p["model"], len(scr), "\n".join(body + mc_close(body))))
        if len(scr) >= limit:
            break
    b = ctx.binary(p.get("variant", "plain"))
    rr = core.run(b, scr, ctx.sub("x-" + p["model"]))
    name = "mcx/%s/%s" % (p["var"], p["model"])
    account(ctx, name, rr, scr, b)
    ctx.parts.append(dict(part=name, depth=depth, states=d, transitions=g, scripts=used, replayed=len(scr)))


KINDS = dict(trace=part_trace, mc=part_mc, mcx=part_mcx)


def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(line.strip())
    return out


def run_check(prop, tier, seed):
    ctx = Ctx(prop, tier, seed)
    try:
        for p in CHECKS[prop]:
            KINDS[p["kind"]](ctx, p)
            if ctx.bad:
                break
        rc = 0
        if ctx.bad:
            rc = 1
            name, b, binary = ctx.bad[0]
            if hasattr(b, "shrinkable") and not b.shrinkable:
                pass
            else:
                try:
                    b = shrink(ctx, b, binary)
                except core.Inconclusive:
                    pass
            rd = os.path.join(VERIF, "build", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s.txt" % prop)
            with open(path, "w") as f:
                f.write("# property %s, part %s: %s\n# replay: python3 bin/replay %s\n" % (prop, name, b.why, path))
                f.write("# offending record: %s\n" % json.dumps(b.rec))
                f.write(b.script)
            print("%s: %s" % (name, b))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        else:
            for k in known(prop):
                print(k)
            print("%s: held on %d traces, %d steps" % (prop, ctx.traces, ctx.steps))
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces, steps_validated=ctx.steps,
                                parts=ctx.parts, samples=ctx.samples, unconfirmed=ctx.flaky[:5]),
                  assumptions=["Linux kernel objects behave as on this machine", "virtual clock stands for timerfd and blocking waits",
                               "operation sequences outside those explored are not covered"],
                  wall_s=round(time.time() - ctx.t0, 2), violations=len(ctx.bad))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return rc
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
