"""Running the real library on scripts and validating the recorded traces with TLC."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 6


class Inconclusive(Exception):
    pass


def build(workdir, variant="plain", target="all", extra=()):
    out = os.path.join(workdir, "b-" + variant)
    p = subprocess.run(["make", "-s", "-j8", "-C", os.path.join(VERIF, "harness"), "OUT=" + out, "VARIANT=" + variant, "REPO=" + REPO, target] + list(extra),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Inconclusive("the harness does not build against %s:\n%s" % (REPO, p.stdout[-4000:]))
    return out


def tlc(module, cfg=None, env=None, args=(), workdir=None, heap="1500m", workers="1", timeout=800, props=()):
    """run TLC on spec/<module>; returns its output"""
    md = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2", "-Xss16m", "-Xmx" + heap, "-Djava.io.tmpdir=" + md] + ["-D" + x for x in props] + \
          ["-cp", JAR, "tlc2.TLC", "-workers", workers, "-metadir", md, "-noGenerateSpecTE", "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive("TLC ran out of time on %s" % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


class Bad:
    """a recorded segment that is not a behaviour of the specification"""

    def __init__(self, sid, script, line, why, rec, trace):
        self.sid, self.script, self.line, self.why, self.rec, self.trace = sid, script, line, why, rec, trace

    def __str__(self):
        return "scenario %s, step %d: %s\n    %s" % (self.sid, self.line, self.why, json.dumps(self.rec)[:1500])


def run_shard(binary, scripts, workdir, tag, tlim=20, module="KqTrace", env=None):
    d = os.path.join(workdir, tag)
    os.makedirs(d, exist_ok=True)
    sp, tp = os.path.join(d, "script"), os.path.join(d, "trace")
    with open(sp, "w") as f:
        f.write("".join(scripts))
    e = dict(os.environ)
    e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99")
    e.update(env or {})
    p = subprocess.run([binary, sp, tp, os.path.join(d, "scr"), str(tlim)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)
    if p.returncode:
        raise Inconclusive("harness failed (%d): %s" % (p.returncode, p.stderr[-1500:]))
    rc, out = tlc(module, env={"TRACE": tp}, workdir=d)
    if "Model checking completed. No error has been found." not in out:
        raise Inconclusive("TLC could not evaluate the trace:\n" + out[-3000:])
    gen, _ = stats(out)
    recs = [json.loads(x) for x in open(tp)]
    bad = []
    byid = {s.split("\n", 1)[0][2:].strip(): s for s in scripts}
    found = re.findall(r'<<\s*"BAD",\s*(\d+),\s*"([^"]*)"\s*>>', out)
    if len(found) != out.count('"BAD"'):
        raise Inconclusive("TLC output not understood:\n" + out[-3000:])
    for m in found:
        pos = int(m[0]) - 1
        j = pos
        while recs[j]["op"] != "reset":
            j -= 1
        sid = recs[j]["id"]
        bad.append(Bad(sid, byid.get(sid, ""), pos - j, m[1], recs[pos], recs[j:pos + 1]))
    shutil.rmtree(os.path.join(d, "scr"), ignore_errors=True)
    return dict(bad=bad, steps=len(recs), states=gen, segs=sum(1 for x in recs if x["op"] == "reset"), stderr=p.stderr)


def run(binary, scripts, workdir, shards=SHARDS, tlim=20, module="KqTrace", env=None):
    n = max(1, min(shards, len(scripts)))
    parts = [scripts[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda a: run_shard(binary, a[1], workdir, "sh%d" % a[0], tlim, module, env), enumerate(parts)))
    return dict(bad=[b for r in res for b in r["bad"]], steps=sum(r["steps"] for r in res), states=sum(r["states"] for r in res), segs=sum(r["segs"] for r in res))
