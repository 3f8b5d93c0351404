"""Scenario generator: writes operation scripts for the harness (harness/kqh.c).

The generator decides nothing: it only produces operation sequences (seeded, plus exhaustive short ones).  The
verdict on what the library did with them comes from the TLA+ specification (spec/Kq.tla through spec/KqTrace.tla).
"""
import itertools
import random

ADD, DELETE, ENABLE, DISABLE, ONESHOT, CLEAR, RECEIPT, DISPATCH = 1, 2, 4, 8, 16, 32, 64, 128
READ, WRITE, VNODE, PROC, SIGNAL, TIMER, USER, LIBKQ = -1, -2, -4, -5, -6, -7, -11, -12
TRIGGER = 0x01000000
FFAND, FFOR, FFCOPY = 0x40000000, 0x80000000, 0xc0000000
NOTE_EXIT = 0x80000000
SIGS = [10, 12, 28, 1, 37, 38]
ALLSIGS = SIGS + [2, 3, 15, 16, 23, 24, 25, 26, 27, 29, 30, 31, 34, 36, 47, 48, 50, 60, 62, 63, 64]

ADDS = [ADD] * 6 + [ADD | CLEAR] * 4 + [ADD | ONESHOT] * 3 + [ADD | DISPATCH] * 3 + [ADD | DISABLE] * 2 + \
       [ADD | ENABLE, ADD | CLEAR | ONESHOT, ADD | CLEAR | DISPATCH, ADD | DISABLE | ONESHOT, ADD | DISABLE | DISPATCH]
CTLS = [DELETE] * 3 + [DISABLE] * 4 + [ENABLE] * 5 + [0] * 2 + [ADD] * 3 + [ADD | CLEAR]
WEIRD = [DISPATCH | ONESHOT | ADD, DELETE | ADD, ENABLE | DISABLE, DELETE | DISABLE, RECEIPT, CLEAR, ONESHOT, DISPATCH, ADD | DELETE | RECEIPT]


class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = prof
        self.out = []

    # ---------------------------------------------------------------- scenario
    def scenario(self, sid):
        r, p = self.r, self.p
        self.L = ["S %s" % sid]
        self.nk = r.choice(p.get("nk", [1, 1, 1, 2]))
        self.ends = {}          # name -> kind; open ones only
        self.peer = {}
        self.sigs = SIGS[:self.p.get("nsig", 4)] if self.p.get("nsig", 4) <= 4 or self.r.random() < 0.5 else self.r.sample(ALLSIGS, 5)
        self.files = {}         # name -> linked
        self.kids = {}          # name -> state
        self.nobj = self.nconn = self.nkid = 0
        self.listen = []
        self.known = []         # (k, filter, ident) registered at some point
        self.kqs = []
        self.uid = 0
        self.unlinked = set()
        self.closed = {}        # closed ends that could be reused: name -> kind
        self.reg = set()        # reuse profile: (k, filter, ident, flags) as registered
        self.nre = 0
        self.added = set()      # (k, filter, ident) that may be registered
        self.nostd = nostd = r.random() < p.get("nostd", 0.06)       # the program runs without descriptors 0 and 1
        if nostd:
            self.L.append("nostd %d" % r.choice([1, 1, 2, 3]))
        elif r.random() < p.get("lim", 0):       # more descriptors than the limit allowed when the library was first used
            n = r.choice([100, 300, 1024, 1030])
            self.L += ["lim %d" % n] + ["hifd %d" % (n - r.choice([2, 3, 4, 5, 6, 7, 8, 10, 12]))] * (r.random() < 0.8)
        elif r.random() < p.get("hifd", 0.03):   # a program with many descriptors
            self.L.append("hifd %d" % r.choice([300, 1015, 1020, 1022, 1023, 1024, 1100]))
        if r.random() < p.get("early", 0):       # before the library has been used at all
            self.L.append("kev %s %s z" % (r.choice(["fd:-1", "fd:100000"] + ["fd:3", "fd:0"] * (not nostd)), r.choice(["4", "-", "0"])))
        for k in range(1, self.nk + 1):
            self.L.append("kq %d" % k)
            self.kqs.append(k)
        for _ in range(r.choice(p.get("nobj", [1, 2, 2, 3]))):
            self.mkobj()
        n = r.choice(p.get("len", [12, 20, 30, 40]))
        for _ in range(n):
            self.step()
        if p.get("endclose", True):
            for k in list(self.kqs):
                self.L.append("clk %d" % k)
            self.kqs = []
            self.L.append("fds 0")
        return "\n".join(self.L) + "\n"

    def mkobj(self):
        r = self.r
        kinds = self.p.get("kinds", ["pipe", "stream", "stream", "dgram", "seqp", "listen", "evfd", "file", "file"])
        if not kinds or self.nobj >= self.p.get("maxobj", 8):
            return
        k = r.choice(kinds)
        n = "o%d" % self.nobj
        self.nobj += 1
        if k == "file":
            self.L.append("mk %s file %d" % (n, r.choice([0, 1, 10, 100])))
            self.ends[n] = "file"
            self.files[n] = True
        else:
            self.L.append("mk %s %s" % (n, r.choice(["pipe", "pipe", "fifo"]) if k == "pipe" else "dgramf" if k == "dgram" and r.random() < 0.25 else k))
            if k == "pipe":
                self.ends[n + "r"], self.ends[n + "w"] = "pr", "pw"
                self.peer[n + "r"], self.peer[n + "w"] = n + "w", n + "r"
            elif k in ("stream", "dgram", "seqp"):
                self.ends[n + "a"] = self.ends[n + "b"] = k
                self.peer[n + "a"], self.peer[n + "b"] = n + "b", n + "a"
            else:
                self.ends[n] = k
                if k == "listen":
                    self.listen.append(n)
        if r.random() < self.p.get("hi", 0.03) and k not in ("file",):
            e = [x for x in self.ends if x.startswith(n)]
            self.L.append("hi %s %d" % (r.choice(e), r.choice([100, 600, 1023, 1024, 1500])))

    def pick_filter(self):
        fw = self.p["filters"]
        return self.r.choices(list(fw), weights=list(fw.values()))[0]

    def ident(self, f):
        """an identifier for filter f, or None"""
        r = self.r
        if f == READ:
            c = [e for e, k in self.ends.items() if k != "pw"]
        elif f == WRITE:
            c = [e for e, k in self.ends.items() if k not in ("pr", "listen")]
        elif f == VNODE:
            c = [e for e in self.files if e in self.ends and e not in self.unlinked]
        elif f == PROC:
            c = [x for x, st in self.kids.items() if st != "gone"]
            if not c or r.random() < 0.2:
                if self.nkid < 6:
                    n = "c%d" % self.nkid
                    self.nkid += 1
                    self.L.append("fork %s" % n)
                    self.kids[n] = "run"
                    c.append(n)
            return "%" + r.choice(c) if c else None
        elif f == SIGNAL:
            s = r.choice(self.sigs)
            return str(s if r.random() > 0.02 else s + (1 << 32))
        elif f == TIMER or f == USER:
            return r.choice(self.p.get("idents", ["1", "2", "3", "0", "0xffffffffffffffff", "0x100000001", "0x7fffffff"]))
        elif f == LIBKQ:
            return "0"
        else:
            return str(r.choice([0, 1, 5]))
        return "@" + r.choice(c) if c else None

    def udata(self):
        self.uid += 1
        return self.r.choice(["0x%x" % self.uid, "0x%x" % self.uid, "0", "0xffffffff%08x" % self.uid, "0x%x" % (self.uid << 33)])

    def timer_params(self, fl):
        r = self.r
        one = fl & ONESHOT
        c = [(0, 1), (0, 5), (0, 10), (0, 50), (0, 100), (0, 250), (1, 1), (1, 2), (2, 1500), (2, 10000), (2, 500000),
             (4, 1500000), (4, 20000000), (4, 1500000000), (0, 1000), (0, 1500), (1, 3600), (2, 3000000)]
        if one:
            c += [(4, 1), (4, 999), (2, 1), (4, 999999999)]
        c += [(0, 0)] if r.random() < 0.1 else []
        if r.random() < 0.05:
            c = [(0, -1), (1, -5), (4, -1000), (2, -1000001)]
        l, d = r.choice(c)
        if r.random() < self.p.get("long", 0.02):       # beyond 32 bits in one unit or another
            l, d = r.choice([(0, 2 ** 32 + 50), (0, 2 ** 31 + r.randrange(5000)), (0, r.randrange(2 ** 31, 2 ** 33)), (1, 2 ** 31 + 5), (1, 2 ** 32 + 3), (1, 99999), (2, 3000999000), (2, 2 ** 32 + r.randrange(10 ** 7)),
                             (2, r.randrange(2 ** 31, 2 ** 40)), (4, 2 ** 32 + 7), (4, r.randrange(2 ** 31, 2 ** 45)), (0, 10 ** 18), (2, 2 * 10 ** 18), (1, 10 ** 17), (4, 2 * 10 ** 18), (8 | 4, 2 * 10 ** 18), (8, 2 ** 32 + 1)])
        elif r.random() < self.p.get("abs", 0.15) and d > 0:
            # absolute: around the current virtual time (which starts at 1000 s)
            base = 1000 + r.choice([-500, 0, 0, 1, 2, 10])
            l, d = r.choice([(8 | 1, base), (8, base * 1000 + r.choice([0, 1, 500])), (8 | 2, base * 1000000 + 7), (8 | 4, base * 1000000000 + 13)])
        return l, d

    def change(self, f=None):
        r = self.r
        k = None
        if f is None and self.known and r.random() < self.p.get("reuse", 0.55):
            k, f, i = r.choice(self.known)
            if f in (READ, WRITE, VNODE) and i[1:] not in self.ends:
                if r.random() < 0.5:
                    return "%d,%s,%d,0,0,%s" % (f, i, 2, self.udata()) if False else None
                return None
            if f == VNODE and i[1:] in self.unlinked:
                fl = r.choice([DELETE, DISABLE])
                return "%d,%s,%d,0x3f,0,%s" % (f, i, fl, self.udata())
            if f == PROC and self.kids.get(i[1:]) == "gone":
                fl = r.choice([DELETE, DISABLE, ENABLE])
                return "%d,%s,%d,%d,0,%s" % (f, i, fl, NOTE_EXIT, self.udata())
            fl = r.choice(self.p.get("ctls", CTLS))
            if f == USER and r.random() < self.p.get("trig", 0.6):
                fl = r.choice([0, 0, 0, 0, ADD, RECEIPT, ENABLE, DISABLE])
        else:
            if f is None:
                f = self.pick_filter()
            i = self.ident(f)
            if r.random() < self.p.get("badid", 0):
                i = r.choice(BADID)
            if i is None:
                return None
            fl = r.choice(self.p.get("adds", ADDS))
            self.known.append((None, f, i))
        if r.random() < self.p.get("weird", 0.03):
            fl = r.choice(WEIRD)
        if r.random() < self.p.get("receipt", 0.08):
            fl |= RECEIPT
        if r.random() < self.p.get("sysfl", 0.04):      # an entry that was returned earlier, passed back as it is
            fl |= r.choice([0x8000, 0x8000, 0x4000, 0xc000])
        ff, d = 0, 0
        if f == TIMER:
            ff, d = self.timer_params(fl)
        elif f == USER:
            ff = r.choice([0, 0, FFAND, FFOR, FFCOPY]) | r.choice([0, 1, 3, 0x42, 0xffffff, 0x800000, 0x00f00f])
            if not (fl & ADD) or r.random() < 0.2:
                if r.random() < 0.8:
                    ff |= TRIGGER
            d = r.choice([0, 7, -3, 1 << 33])
        elif f == VNODE:
            ff = r.choice([0x3f, 0x2, 0x4, 0x6, 0x8, 0x10, 0x1, 0x20, 0x3f, r.randrange(1, 0x40), r.randrange(1, 0x40)])
        elif f == PROC:
            ff = NOTE_EXIT if r.random() < 0.9 else 0
        elif f == LIBKQ:
            ff = r.choice([1, 2, 3, 4, 3, 4, 9] + ([5, 5, 5] if self.p.get("dbg") else []))
            if ff == 9 and fl != ADD:
                ff = 1
            fl = r.choice([ADD, ADD | RECEIPT, ADD, 0 if False else ADD])
            d = r.choice([0, 1, 1, 5, -1]) if ff in (3, 4, 5) else 0
            if ff == 3:
                d = 1
        elif f in (READ, WRITE):
            d = r.choice([0, 0, 0, 5, 1 << 34])
        return "%d,%s,%d,%d,%d,%s" % (f, i, fl, ff, d, self.udata())

    def kev(self, nch=None, to=None, n=None):
        r = self.r
        if self.p.get("rr"):
            return self.kev_rr()
        k = r.choice(self.kqs)
        if nch is None:
            nch = r.choice(self.p.get("nch", [0, 0, 0, 1, 1, 1, 1, 2, 3, 5]))
        ch = []
        for _ in range(nch):
            c = self.change()
            if c:
                ch.append(c)
                x = c.split(",")
                if int(x[2]) & ADD:
                    self.added.add((k, int(x[0]), x[1]))
        if n is None:
            n = r.choice(self.p.get("n", ["-", 0, 1, 1, 2, 3, 4, 8, 8, 16, 16, 32]))
        if len(ch) and isinstance(n, int) and r.random() < 0.05:
            n = "%da" % max(n, len(ch))
        if not ch and isinstance(n, int) and r.random() < self.p.get("negch", 0.01):
            n = "%d%s" % (n, r.choice("cC"))
        if to is None:
            to = r.choice(self.p.get("to", ["z"] * 12 + ["0:1", "0:500000", "0:1500000", "0:10000000", "1:0", "0:999999999", "2:500000001", "n"]))
        if r.random() < self.p.get("badkq", 0.004):
            k = r.choice(["fd:-1", "fd:9999", "fd:100000"] + ["fd:0"] * (not self.nostd) + ["obj:" + e for e in self.ends])
        if r.random() < self.p.get("badarg", 0.002):
            if r.random() < 0.5:
                n = r.choice(["m1", "m2", "m512", "m2147483647"])
            else:
                to = r.choice(["b-1:0", "b0:-1", "b0:1000000000", "b1:2000000000", "b-5:-5", "b-1:999999999", "b0:9223372036854775807"])
        self.L.append(("kev %s %s %s " % (k, n, to) + " ".join(ch)).rstrip())

    # ---------------------------------------------------------------- environment steps
    def env(self):
        r = self.r
        acts = self.p.get("env", {"io": 8, "adv": 2, "sig": 2, "file": 3, "kid": 1, "user": 0})
        a = r.choices(list(acts), weights=list(acts.values()))[0]
        getattr(self, "env_" + a)()

    def env_user(self):
        u = [x for x in self.known if x[1] == USER]
        if u:
            k = r = self.r.choice(u)
            self.L.append("kev %d 0 z %d,%s,0,%d,0,%s" % (self.r.choice(self.kqs), USER, k[2], TRIGGER, self.udata()))

    def env_io(self):
        r = self.r
        c = [e for e, k in self.ends.items() if k not in ("file", "dir", "null")]
        if not c:
            return self.env_file()
        e = r.choice(c)
        k = self.ends[e]
        if k == "listen":
            self.L.append("acc %s" % e if r.random() < 0.4 else self.conn(e))
            return
        if k == "evfd" and self.p.get("rr") and r.random() < 0.1:
            del self.ends[e]
            self.closed[e] = k
            self.L.append("cl %s" % e)
            return
        if k == "evfd":
            self.L.append(r.choice(["wr %s 1", "wr %s 3", "rd %s 8"]) % e)
            return
        x = r.random()
        peer = self.peer.get(e)
        if k == "pr":
            op = "rd %s %d" % (e, r.choice([1, 3, 10, 100])) if x < 0.6 else "drain %s" % e
        elif k == "pw":
            op = "wr %s %d" % (e, r.choice([1, 5, 10, 100])) if x < 0.85 else "fill %s" % e
        else:
            op = ("wr %s %d" % (e, r.choice([1, 5, 10, 100])) if x < 0.45 else
                  "rd %s %d" % (e, r.choice([1, 3, 10, 200]) if k == "stream" else 65536) if x < 0.75 else
                  "drain %s" % e if x < 0.9 else "fill %s" % e if r.random() < 0.6 else None)
            if op is None:
                op = "shut %s" % e if k in ("stream", "seqp") else "wr %s 7" % e
        if r.random() < self.p.get("close", 0.04) and k != "dgram":
            op = "cl %s" % e
            del self.ends[e]
            self.closed[e] = k
        if op.split()[0] in ("wr", "fill") and peer not in self.ends:
            if op.split()[0] == "fill" or k == "pw" or True:
                if e in self.ends:
                    return
        self.L.append(op)

    def conn(self, e):
        self.nconn += 1
        if self.nconn > 20:
            return "acc %s" % e
        return "conn %s x%d" % (e, self.nconn)

    def env_adv(self):
        r = self.r
        if r.random() < self.p.get("long", 0) / 2:
            return self.L.append("adv %d %d" % (r.choice([3000, 3001, 4294967, r.randrange(5000), r.randrange(5000000)]), r.choice([0, 999000000, 294000000, 346000000, r.randrange(10 ** 9)])))
        self.L.append("adv %s" % r.choice(["0 1", "0 500000", "0 1000000", "0 10000000", "0 49000000", "1 0", "0 250000000", "3 1", "10 0"]))

    def env_sig(self):
        self.L.append("sig %d" % self.r.choice(self.sigs))

    def env_file(self):
        r = self.r
        c = [f for f in self.files if f in self.ends]
        if not c:
            return
        f = r.choice(c)
        x = r.choice(["fw", "fw", "fp", "fseek", "fseek", "ftrunc", "chmod", "link", "ulink", "ren", "touch", "touchw"] + (["unlink"] if r.random() < 0.3 else []))
        if x in ("link", "ren", "touch", "touchw", "unlink", "ulink") and f in self.unlinked:
            x = "fw"
        if x == "unlink":
            self.unlinked.add(f)
        if x == "link" and getattr(self, "ren_" + f, False):
            x = "chmod"
        if x == "ren":
            setattr(self, "ren_" + f, True)
        if x in ("fw", "fp"):
            self.L.append("%s %s %d" % (x, f, r.choice([1, 5, 200])))
        elif x in ("fseek", "ftrunc"):
            big = r.random() < 0.15
            self.L.append("%s %s %d" % (x, f, r.choice([2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 5, 5000000000, 6000000000001]) if big else r.choice([0, 1, 10, 100, 300])))
        else:
            self.L.append("%s %s" % (x, f))

    def env_kid(self):
        r = self.r
        run = [c for c, s in self.kids.items() if s == "run"]
        z = [c for c, s in self.kids.items() if s == "zomb"]
        if run and (not z or r.random() < 0.7):
            c = r.choice(run)
            self.kids[c] = "zomb"
            if r.random() < 0.7:
                self.L.append("exit %s %d" % (c, r.choice([0, 1, 2, 9, 64, 127, 128, 129, 254, 255])))
            else:
                self.L.append("killc %s %d" % (c, r.choice([1, 6, 9, 10, 11, 15, 31, 34, 40, 63, 64])))
        elif z:
            c = r.choice(z)
            self.kids[c] = "gone"
            self.L.append("reap %s" % c)

    def env_re(self):
        """a new object takes the number of a closed one; what was registered on the old one is added again, or deleted"""
        if not self.closed:
            return
        r = self.r
        e = r.choice(list(self.closed))
        old = self.closed.pop(e)
        if r.random() < 0.3:
            for (k, f, i, fl) in list(self.reg):
                if i[1:] == e and r.random() < 0.7:
                    self.L.append("kev %d 4 z %d,@%s,%d,0,0,0x1" % (k, f, e, DELETE))
                    self.reg.discard((k, f, i, fl))
        kind = r.choice(["stream", "seqp", "dgram", "pr", "pw", "evfd"])
        self.nre += 1
        p = "p%d" % self.nre
        self.L.append("re %s %s %s" % (e, kind, p))
        self.ends[e] = kind
        if kind != "evfd":
            self.ends[p] = {"pr": "pw", "pw": "pr"}.get(kind, kind)
            self.peer[e], self.peer[p] = p, e
        # everything that was registered under the number is registered again (or deleted)
        todo = [x for x in self.reg if x[2][1:] == e]
        for (k, f, i, fl) in sorted(todo):
            self.reg.discard((k, f, i, fl))
            ok = not (f == READ and kind == "pw") and not (f == WRITE and kind == "pr") and f != VNODE
            if ok and r.random() < 0.75:
                self.L.append("kev %d %s z %d,%s,%d,0,0,%s" % (k, r.choice([0, 8]), f, i, fl, self.udata()))
                self.reg.add((k, f, i, fl))
            else:
                self.L.append("kev %d 4 z %d,%s,%d,0,0,0x1" % (k, f, i, DELETE))

    def empty(self):
        """delete everything that may be registered: the library must then hold nothing but its kqueues"""
        for k in self.kqs:
            d = ["%d,%s,%d,0,0,%s" % (f, i, DELETE, self.udata()) for (k2, f, i) in sorted(self.added) if k2 == k]
            if d:
                self.L.append("kev %d %d z %s" % (k, len(d) + 2, " ".join(d)))
        self.added = set()
        self.L.append("fds 0")

    def kev_rr(self):
        """reuse profile: a registration keeps its flags for as long as it exists"""
        r = self.r
        k = r.choice(self.kqs)
        ch = []
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            f = self.pick_filter()
            i = self.ident(f)
            if i is None:
                continue
            cur = [x for x in self.reg if x[:3] == (k, f, i)]
            ff = 0x3f if f == VNODE else TRIGGER if f == USER else 0
            if cur:
                fl = r.choice([DELETE, DISABLE, ENABLE, cur[0][3]])
                if fl == DELETE:
                    self.reg.discard(cur[0])
            else:
                fl = r.choice([ADD, ADD, ADD | CLEAR, ADD | DISPATCH])
                self.reg.add((k, f, i, fl))
            ch.append("%d,%s,%d,%d,0,%s" % (f, i, fl, ff, self.udata()))
        self.L.append(("kev %s %s %s " % (k, r.choice([0, 1, 4, 16, 16]), r.choice(["z"] * 6 + ["0:1000000"])) + " ".join(ch)).rstrip())

    def env_delre(self):
        r = self.r
        gone = [x for x in sorted(self.reg) if x[2][1:] not in self.ends]
        if gone:
            k, f, i, fl = r.choice(gone)
            self.L.append("kev %d 4 z %d,%s,%d,0,0,0x1" % (k, f, i, DELETE))
            self.reg.discard((k, f, i, fl))

    def env_kq(self):
        r = self.r
        if len(self.kqs) < 4 and (len(self.kqs) < 2 or r.random() < 0.5):
            k = 1
            while k in self.kqs:
                k += 1
            self.L.append("kq %d" % k)
            self.kqs.append(k)
        elif len(self.kqs) > 1:
            k = r.choice(self.kqs)
            self.kqs.remove(k)
            self.L.append("clk %d" % k)

    # ---------------------------------------------------------------- cancellation, failures, forks
    def cancelled(self):
        """turn the call just written into one made by a thread that is being cancelled"""
        r = self.r
        w = self.L[-1].split(" ")
        w[2] = w[2].rstrip("a")
        self.L[-1] = "c" + " ".join(w).replace("kev", "kev %s %d" % (r.choice("eeeed"), r.choice([-1, -1, 0, r.randrange(1, 8), r.randrange(1, 25)])), 1)

    def kqfail(self):
        """kqueue() with a system call failing inside; then again without"""
        r = self.r
        free = [k for k in range(1, 6) if k not in self.kqs]
        if free:
            self.L.append("fault %s %d %d" % (r.choice(KQ_FAULTS), r.choice([1, 1, 1, 2, 3, 4]), r.choice(ERRNOS)))
            self.L += ["kq %d%s" % (free[0], r.choice(["", "", " d"])), "fds 0", "kq %d r" % free[0]]
            self.kqs.append(free[0])
        return free

    def faulty(self):
        """additions of pairs that do not exist yet, with a system call failing inside; then the same again without"""
        r = self.r
        if r.random() < 0.15 and self.kqfail():
            return
        k = r.choice(self.kqs)
        ch, keys = [], set()
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            c = None
            for _ in range(12):
                f = self.pick_filter()
                c = self.change(f)
                if not c:
                    continue
                x = c.split(",")
                key = (k, int(x[0]), x[1])
                if key in self.added or key in keys or not int(x[2]) & ADD or int(x[2]) & (DISPATCH | ONESHOT) == DISPATCH | ONESHOT:
                    c = None
                    continue
                break
            if c:
                keys.add(key)
                ch.append(c)
        if not ch:
            return
        if r.random() < 0.85:
            self.L.append("fault %s %d %d" % (r.choice(ADD_FAULTS[key[1]]), r.choice([1, 1, 1, 2, 2, 3, 4]), r.choice(ERRNOS)))
        self.L.append("kev %d %s z %s" % (k, r.choice([0, 1, 8, 8, 8, 16]), " ".join(ch)))
        if r.random() < 0.7:        # again, one at a time: what exists is only modified
            for c in ch:
                self.L.append("kev %d 16 z %s" % (k, c))
            self.added |= keys
        else:                       # whatever came of it, take it away
            self.L.append("kev %d 16 z %s" % (k, " ".join("%d,%s,%d,0,0,0x1" % (a, b, DELETE) for _, a, b in sorted(keys))))
            self.L.append("kev %d 16 z" % k)

    def step(self):
        r = self.r
        x = r.random()
        if self.p.get("exec") and r.random() < self.p["exec"]:
            self.L.append("exec")
        if self.p.get("faults") and x < self.p["faults"]:
            return self.faulty()
        if self.p.get("kqfail") and r.random() < self.p["kqfail"]:
            return self.kqfail()
        if x < self.p.get("pkev", 0.6):
            self.kev()
            if self.p.get("cancel") and r.random() < self.p["cancel"]:
                self.cancelled()
            if self.p.get("intr") and r.random() < self.p["intr"]:
                self.L.insert(len(self.L) - 1, "fault wait %d %d" % (r.choice([1, 1, 2]), 4))
        elif x < 0.97:
            self.env()
            if self.p.get("fdsmid") and r.random() < self.p["fdsmid"]:
                self.empty()
        else:
            self.mkobj()


ERRNOS = [12, 24, 23, 1, 22, 5, 28, 4]
KQ_FAULTS = ["epoll_create1", "pipe2", "fcntl", "fcntl", "fcntl", "pthread_create", "calloc", "calloc", "malloc", "eventfd", "epoll_ctl", "inotify_init1", "signalfd"]
ADD_FAULTS = {READ: ["epoll_ctl", "epoll_ctl", "fstat", "getsockopt", "eventfd", "eventfd_write", "calloc", "malloc", "write"],
              WRITE: ["epoll_ctl", "epoll_ctl", "fstat", "getsockopt", "eventfd", "eventfd_write", "calloc", "malloc", "write"],
              VNODE: ["inotify_init1", "inotify_add_watch", "readlink", "fstat", "epoll_ctl", "calloc", "malloc"],
              PROC: ["pidfd_open", "epoll_ctl", "calloc", "malloc", "eventfd"],
              SIGNAL: ["signalfd", "sigprocmask", "epoll_ctl", "calloc", "malloc"],
              TIMER: ["timerfd_create", "timerfd_settime", "epoll_ctl", "calloc", "malloc"],
              USER: ["eventfd", "epoll_ctl", "fcntl", "calloc", "malloc", "eventfd_write", "write"]}


class BigGen(Gen):
    """many registrations, change lists and event lists of up to and beyond what one call can carry"""

    def scenario(self, sid):
        r = self.r
        self.uid = 0
        L = self.L = ["S %s" % sid, "kq 1"]
        n = r.choice([20, 33, 65, 70, 130, 260, 300])
        f = r.choice([USER, USER, TIMER, "mix"])
        if r.random() < 0.12:
            n = r.choice([511, 513, 600])
            f = USER
        fl = [r.choice([ADD, ADD | CLEAR, ADD | ONESHOT, ADD | DISPATCH])] if r.random() < 0.5 else [ADD, ADD | CLEAR, ADD | ONESHOT, ADD | DISPATCH]
        ends, keys = [], []
        if f == "mix":
            n = min(n, 130)
            for j in range(r.choice([10, 25])):
                kind = r.choice(["pipe", "stream", "evfd"])
                L.append("mk o%d %s" % (j, kind))
                e, w = {"pipe": ("r", "w"), "stream": ("a", "b"), "evfd": ("", "")}[kind]
                ends.append(("o%d%s" % (j, w)))
                keys.append((READ, "@o%d%s" % (j, e)))
                if kind == "stream":
                    keys.append((WRITE, "@o%d%s" % (j, e)))
        for j in range(n - len(keys)):
            keys.append((f if f != "mix" else r.choice([USER, USER, TIMER]), str(j)))
        r.shuffle(keys)

        def flush(ch, bad):
            while ch:
                m = r.choice([1, 7, 40, 64, 100, 200, 600, 1000])
                part, ch = ch[:m], ch[m:]
                room = r.choice([0, 0, len(part), len(part) + 1, 600, 512, 64]) if bad else 0
                L.append("kev 1 %d z %s" % (room, " ".join(part)))
        rc = r.random() < 0.2
        flush(["%d,%s,%d,%d,%d,%s" % (a, b, r.choice(fl) | (RECEIPT if rc and r.random() < 0.5 else 0), 0, r.choice([5, 50, 250]) if a == TIMER else 0, self.udata()) for a, b in keys], rc)
        sizes = [1, 3, 7, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400, 511, 512, 513, 600, 1000]
        for _ in range(r.choice([1, 2, 3])):
            some = [x for x in keys if r.random() < 0.8]
            x = r.random()
            if x < 0.7:
                flush(["%d,%s,0,%d,0,%s" % (a, b, TRIGGER, self.udata()) for a, b in some if a == USER], False)
            for e in ends:
                if r.random() < 0.7:
                    L.append("wr %s %d" % (e, r.choice([1, 5])))
            if r.random() < 0.3:
                flush(["%d,%s,%d,0,5,%s" % (a, b, r.choice([DISABLE, ENABLE, DELETE]), self.udata()) for a, b in keys if r.random() < 0.2], r.random() < 0.5)
            L.append("adv %s" % r.choice(["0 5000000", "0 60000000", "1 0"]))
            s = r.choice(sizes)
            for _ in range(min(r.choice([2, 4, 8]), 2 + 2 * n // s)):
                L.append("kev 1 %d %s" % (s if r.random() < 0.7 else r.choice(sizes), r.choice(["z", "z", "0:1000000"])))
        if r.random() < 0.5:
            L += ["clk 1", "fds 0"]
        return "\n".join(L) + "\n"


class ForkGen(Gen):
    """scenarios in which processes forked from the first one use the library too"""

    def scenario(self, sid):
        r = self.r
        self.procs = {}         # live processes: name -> dict(own: open slots, stale: slots of the parent)
        self.npr = 0
        self.fk = True
        self.p = dict(self.p, endclose=False)
        n = self.p["len"]
        self.p["len"] = [r.choice([4, 8, 12])]
        super().scenario(sid)
        if r.random() < 0.15:
            self.fk = False
            self.L.append("kev 1 4 z %d,0,%d,4,0,0" % (LIBKQ, ADD | RECEIPT))
        # a kqueue that another thread is waiting on when the process forks; nobody else uses it (C17 finding)
        if r.random() < 0.25:
            k = 1 + max(self.kqs)
            self.L.append("kq %d" % k)
            for _ in range(r.choice([0, 1, 2])):
                f = r.choice([READ, USER])
                i = self.ident(f)
                if i:
                    self.L.append("kev %d 0 z %d,%s,%d,0,0,0x7" % (k, f, i, ADD))
            self.L.append("bg %d %d" % (k, r.choice([0, 50, 300])))
            self.waited = k
        else:
            self.waited = None
        for _ in range(r.choice(n)):
            self.pstep()
        for c in list(self.procs):
            self.L.append("pexit %s" % c)
        self.procs = {}
        for _ in range(r.choice([2, 4, 8])):
            self.step()
        for k in list(self.kqs):
            self.L.append("clk %d" % k)
        self.L.append("fds 0")
        return "\n".join(self.L) + "\n"

    def pstep(self):
        r = self.r
        x = r.random()
        if x < 0.12 or not self.procs:
            if self.npr < 5:
                return self.fork()
        if x < 0.45 or not self.procs:
            return self.step()
        if x < 0.52 and len(self.kqs) > 1 and self.fk:
            k = r.choice(self.kqs)
            self.kqs.remove(k)
            self.added = {a for a in self.added if a[0] != k}
            self.L += ["clk %d" % k, "fds 0"]
            return
        if x < 0.56:
            k = 1 + max(self.kqs + [self.waited or 0])
            if k < 6 and k not in self.kqs:
                self.L.append("kq %d" % k)
                self.kqs.append(k)
            return
        c = r.choice(list(self.procs))
        if x < 0.64:
            if self.procs[c]["kids"] & set(self.procs):
                return
            self.L.append("pexit %s" % c)
            del self.procs[c]
            return
        self.cstep(c)

    def fork(self):
        r = self.r
        n = "c%d" % self.npr
        by = r.choice(list(self.procs)) if self.procs and r.random() < 0.3 else None
        if by and not self.fk:
            by = None
        self.npr += 1
        if by:
            self.L.append("!%s pf %s" % (by, n))
            self.procs[by]["kids"].add(n)
            self.procs[n] = dict(own=[], stale=list(self.procs[by]["own"]) + list(self.procs[by]["stale"]), reg={}, kids=set(), base=self.procs[by]["base"] + 10, ends=dict(self.procs[by]["ends"]))
        else:
            self.L.append("pf %s" % n)
            self.procs[n] = dict(own=[], stale=list(self.kqs) + ([self.waited] if self.waited and self.fk else []), reg={}, kids=set(), base=10, ends=dict(self.ends))

    def cstep(self, c):
        """the child only knows the objects that were there when it was forked"""
        keep, self.ends = self.ends, {e: k for e, k in self.procs[c]["ends"].items() if e in self.ends}
        try:
            self.cstep1(c)
        finally:
            self.ends = keep

    def cstep1(self, c):
        r, q = self.r, self.procs[c]
        say = lambda s: self.L.append("!%s %s" % (c, s))
        x = r.random()
        if x < 0.2 and self.ends:
            m = len(self.L)
            if any(k not in ("file", "dir", "null") for k in self.ends.values()):
                self.env_io()
            self.L[m:] = ["!%s %s" % (c, l) if l.split()[0] in ("wr", "rd", "drain", "fill") else l for l in self.L[m:]]
            return
        if x < 0.4 and q["stale"]:
            k = r.choice(q["stale"])
            ch = []
            for _ in range(r.choice([0, 1, 1, 2])):
                f = r.choice([READ, TIMER, USER, USER])
                i = self.ident(f)
                if i:
                    ch.append("%d,%s,%d,%d,%d,0x5" % (f, i, r.choice([ADD, DELETE, ENABLE, DISABLE, ADD | ONESHOT, 0, RECEIPT]), TRIGGER if f == USER else 0, 10))
            say(("kev %d %s z %s" % (k, r.choice(["-", 0, 1, 8]), " ".join(ch))).rstrip())
            return
        if not self.fk:
            return
        if x < 0.55 or not q["own"]:
            k = q["base"] + len(q["reg"])
            if len(q["reg"]) < 8:
                say("kq %d" % k)
                q["own"].append(k)
                q["reg"][k] = []
            return
        k = r.choice(q["own"])
        if x < 0.65:
            q["own"].remove(k)
            say("clk %d" % k)
            say("fds 0")
            return
        ch = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            f = r.choice([READ, TIMER, USER, USER])
            if q["reg"][k] and r.random() < 0.5:
                f, i = r.choice(q["reg"][k])
                if f == READ and i[1:] not in self.ends:
                    continue
                fl = r.choice(CTLS)
            else:
                i = self.ident(f)
                if not i:
                    continue
                fl = r.choice(ADDS)
                q["reg"][k].append((f, i))
            ff, d = self.timer_params(fl) if f == TIMER else (0, 0)
            ch.append("%d,%s,%d,%d,%d,%s" % (f, i, fl, TRIGGER if f == USER and r.random() < 0.5 else ff, d, self.udata()))
        say(("kev %d %d %s %s" % (k, r.choice([0, 1, 8, 16, 16]), r.choice(["z", "z", "z", "0:20000000"]), " ".join(ch))).rstrip())


class QuitGen(Gen):
    """scenarios that end with exit(): kqueues open, closed a moment ago, or waited on by another thread"""

    def scenario(self, sid):
        r = self.r
        self.p = dict(self.p, endclose=False)
        super().scenario(sid)
        L = self.L
        for k in list(self.kqs):
            x = r.random()
            if x < 0.35:
                L.append("clk %d" % k)
                if r.random() < 0.3:
                    L.append("kq %d" % k)
            elif x < 0.55:
                L.append("bg %d %d" % (k, r.choice([0, 0, 50, 300])))
        if r.random() < 0.15:
            L.append("fds")
        L.append("quit %d" % r.choice([0, 0, 1, 7, 60]))
        return "\n".join(L) + "\n"


class ConcGen:
    """several threads at once, under the scheduler of the harness"""

    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = prof

    def udata(self):
        self.uid += 1
        return "0x%x" % (0x1000 * self.r.randrange(1, 9) + self.uid)

    def change(self, k, add=None):
        r = self.r
        known = [x for x in self.known if x[0] == k]
        add = r.random() < 0.5 if add is None else add
        if add or not known:
            f = r.choice(self.p["filters"])
            if f in (READ, WRITE):
                c = [e for e in self.ends if (f == READ and self.ends[e] != "pw") or (f == WRITE and self.ends[e] in ("pw", "a"))]
                if not c:
                    f = USER
                else:
                    i = "@" + r.choice(c)
            if f == PROC:
                if not self.kids:
                    f = USER
                else:
                    i = "%" + r.choice(self.kids)
            if f in (USER, TIMER):
                i = str(r.choice([1, 2, 3]))
            fl = r.choice(ADDS + [ADD] * 6)
            self.known.append((k, f, i))
        else:
            _, f, i = r.choice(known)
            fl = r.choice([ADD, ADD, ENABLE, ENABLE, DISABLE, DELETE, 0, 0, 0])
        if r.random() < 0.06:
            fl |= RECEIPT
        ff = d = 0
        if f == TIMER:
            ff, d = r.choice([(0, 1), (0, 5), (0, 20), (2, 1500), (4, 700000)])
        elif f == USER:
            ff = TRIGGER if r.random() < 0.6 else r.choice([0, FFOR | 3, FFAND | 1, FFCOPY | 5])
        elif f == PROC:
            ff = NOTE_EXIT
        t = "%d,%s,%d,%d,%d,%s" % (f, i, fl, ff, d, self.udata())
        if f == USER and fl & ADD and r.random() < 0.6:
            t += " %d,%s,0,%d,0,%s" % (f, i, TRIGGER, self.udata())
        return t

    def kev(self, k, wait=None, add=None, nch=None):
        r = self.r
        ch = [self.change(k, add) for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if nch is None else nch)]
        to = r.choice(["z", "z", "z", "0:1000000", "0:2500000", "0:30000000"]) if wait is None else wait
        return ("kev %d %s %s %s" % (k, r.choice([0, 1, 2, 8, 8, 8, 16]), to, " ".join(ch))).rstrip()

    def vchange(self, t, add):
        r = self.r
        fl = r.choice([ADD, ADD, ADD | CLEAR, ADD | DISPATCH, ADD | ONESHOT] if add else [ADD, DISABLE, ENABLE, DELETE, ADD | CLEAR])
        return "%d,@f%d,%d,%d,0,%s" % (VNODE, t, fl, r.choice([2, 4, 8, 16, 8 | 2, 0x3f, 1 | 2 | 4 | 8 | 16]), self.udata())

    def io(self):
        r = self.r
        if self.kids and r.random() < 0.15:
            return "exit %s %d" % (self.kids.pop(), r.randrange(5))
        c = list(self.peer)
        if not c:
            return None
        e = r.choice(c)
        x = r.random()
        kind = self.peer[e]
        if x < 0.6:
            return "wr %s %d" % (e, r.choice([1, 3, 100]))
        if x < 0.8:
            t = self.watched[e]
            if self.ends[t] == "pw":
                return None
            return r.choice(["rd %s %d" % (t, r.choice([1, 50])), "drain %s" % t]) if kind != "evfd" else "rd %s 8" % t
        if x < 0.88 and kind == "b":
            del self.peer[e]
            return "shut %s" % e
        if x < 0.93 and kind in ("pw", "pr"):
            del self.peer[e]
            return "cl %s" % e
        return None

    def scenario(self, sid):
        r, p = self.r, self.p
        self.uid = 0
        self.L = L = ["S %s" % sid]
        self.known, self.ends, self.peer, self.watched, self.kids = [], {}, {}, {}, []
        nk = r.choice(p["nk"])
        for k in range(1, nk + 1):
            L.append("kq %d" % k)
        for j in range(r.choice(p.get("nobj", [0, 1, 2]))):
            kind = r.choice(["pipe", "pipe", "stream", "evfd"])
            n = "o%d" % j
            L.append("mk %s %s" % (n, kind))
            if kind == "pipe":
                self.ends[n + "r"] = "pr"
                self.peer[n + "w"] = "pw"
                self.watched[n + "w"] = n + "r"
            elif kind == "stream":
                self.ends[n + "a"] = "a"
                self.peer[n + "b"] = "b"
                self.watched[n + "b"] = n + "a"
            else:
                self.ends[n] = "evfd"
                self.peer[n] = "evfd"
                self.watched[n] = n
        if PROC in p["filters"] and r.random() < 0.4:
            self.kids.append("k0")
            L.append("fork k0")
        for k in range(1, nk + 1):
            for _ in range(r.choice([0, 1, 1, 2])):
                L.append("kev %d 0 z %s" % (k, self.change(k, True)))
        for e in list(self.peer):
            if r.random() < 0.6:
                L.append("wr %s %d" % (e, r.choice([1, 3, 100])))
        own, fk = 20, []
        tog = r.random() < p.get("toggle", 0)       # fork clean-up is switched on and off meanwhile
        for _ in range(r.choice([1, 1, 2])):
            mode = r.choice("rrpmkkk")
            span = {"r": 1, "k": 1, "p": r.choice([40, 100, 200]), "m": r.choice([200, 1000, 4000])}[mode]
            steal = [w for w in self.watched if self.ends[self.watched[w]] != "pw" and w in self.peer]
            if steal and r.random() < p.get("steal", 0.12):
                # one thread waits for a descriptor, another one makes it readable and takes the data away again
                w = r.choice(steal)
                t = self.watched[w]
                k = r.randrange(1, nk + 1)
                L.append("kev %d 8 z %d,@%s,%d,0,0,%s" % (k, READ, t, r.choice([ADD, ADD, ADD | CLEAR, ADD | DISPATCH]), self.udata()))
                take = "rd %s 8" % t if self.peer[w] == "evfd" else "drain %s" % t
                L.append(take)
                L.append("par %d %s %d 1" % (r.randrange(1 << 30), r.choice("rrk"), r.choice([2, 3, 5])))
                for _ in range(r.choice([1, 2])):
                    L.append(":1 kev %d 8 %s" % (k, r.choice(["0:2500000", "0:2500000", "0:3000000", "0:1"])))
                for _ in range(r.choice([1, 2, 3])):
                    L.append(":2 wr %s %d" % (w, r.choice([1, 3])))
                    L.append(":2 " + take)
                if r.random() < 0.3:
                    L.append(":3 kev %d 8 z %s" % (r.randrange(1, nk + 1), self.change(r.randrange(1, nk + 1), True)))
                L.append("join")
                L.append("kev %d 16 z" % k)
                continue
            nt = r.choice([2, 2, 3, 3, 4])
            roles = [r.choice(p["roles"]) for _ in range(nt)]
            if tog:
                roles = ["toggle"] + [r.choice(["fork", "fork", "life", "poll"]) for _ in range(3)]
                nt = 4
            if r.random() < p.get("pfile", 0):
                # threads that each watch a file of their own with a kqueue of their own
                roles = ["file" if r.random() < 0.7 else x for x in roles]
                for t in range(1, nt + 1):
                    if roles[t - 1] == "file" and t not in fk:
                        fk.append(t)
                        L += ["kq %d" % (10 + t), "mk f%d file %d" % (t, r.choice([0, 5])), "kev %d 0 z %s" % (10 + t, self.vchange(t, True))]
            L.append("par %d %s %d %d" % (r.randrange(1 << 30), mode, r.choice([2, 3, 5]) if mode == "k" else r.choice([1, 2, 3, 4, 6]), span))
            for t in range(1, nt + 1):
                role = roles[t - 1]
                home = r.randrange(1, nk + 1)
                if role == "poll":
                    for _ in range(r.choice([1, 2, 3])):
                        L.append(":%d %s" % (t, self.kev(home, nch=r.choice([0, 0, 1]), wait="n" if r.random() < 0.02 else None)))
                elif role == "change":
                    for _ in range(r.choice([1, 2, 3, 4])):
                        L.append(":%d %s" % (t, self.kev(r.choice([home, r.randrange(1, nk + 1)]), wait=r.choice(["z", "z", "z", "0:1000000"]))))
                elif role == "io":
                    for _ in range(r.choice([1, 2, 4])):
                        x = self.io()
                        if x:
                            L.append(":%d %s" % (t, x))
                elif role == "fork":
                    for _ in range(r.choice([1, 1, 2])):
                        L.append(":%d cfk %s" % (t, "n" if tog else r.choice("__x")))
                elif role == "exec":
                    L += [":%d exec" % t] * r.choice([1, 2, 4])
                elif role == "toggle":
                    for _ in range(r.choice([2, 3, 4])):
                        L.append(":%d kev %d 8 z %d,0,%d,4,%d,%s" % (t, home, LIBKQ, r.choice([ADD, ADD | RECEIPT]), r.choice([0, 1]), self.udata()))
                elif role == "file":
                    for _ in range(r.choice([2, 3, 4, 6])):
                        if r.random() < 0.5:
                            L.append(":%d %s" % (t, r.choice(["fw f%d 1", "fw f%d 5", "ftrunc f%d 1", "chmod f%d", "chmod f%d", "link f%d", "ulink f%d", "touch f%d"]) % t))
                        else:
                            ch = [self.vchange(t, False)] if r.random() < 0.2 else []
                            L.append((":%d kev %d %s %s %s" % (t, 10 + t, r.choice([1, 8]), r.choice(["z", "z", "0:1000000"]), " ".join(ch))).rstrip())
                elif role == "life":
                    for _ in range(r.choice([1, 1, 2, 3])):
                        k = own
                        own += 1
                        L.append(":%d kq %d" % (t, k))
                        for _ in range(r.choice([0, 1, 2])):
                            L.append(":%d %s" % (t, self.kev(k)))
                        if r.random() < 0.9:
                            L.append(":%d clk %d" % (t, k))
                        else:
                            self.left.append(k) if hasattr(self, "left") else None
            L.append("join")
            for k in list(range(1, nk + 1)) + [10 + t for t in fk]:
                L.append("kev %d 16 z" % k)
            if r.random() < 0.5:
                L.append("fds")
        for k in range(1, nk + 1):
            L.append("kev %d 16 0:50000000" % k)
        L.append("fds")
        for k in list(range(1, nk + 1)) + [10 + t for t in fk]:
            L.append("clk %d" % k)
        L.append("fds")
        return "\n".join(L) + "\n"


class CCloseGen(ConcGen):
    """a thread closes kqueues while others make calls on them"""

    def scenario(self, sid):
        r = self.r
        self.uid = 0
        self.L = L = ["S %s" % sid]
        self.known, self.ends, self.peer, self.watched, self.kids = [], {}, {}, {}, []
        nk = r.choice([1, 2, 2, 3])
        for k in range(1, nk + 1):
            L.append("kq %d" % k)
        if r.random() < 0.6:
            L.append("mk o pipe")
            self.ends["or"], self.peer["ow"], self.watched["ow"] = "pr", "pw", "or"
        for k in range(1, nk + 1):
            for _ in range(r.choice([0, 1, 2, 3])):
                L.append("kev %d 0 z %s" % (k, self.change(k, True)))
        mode = r.choice("rrpkkkm")
        span = {"r": 1, "k": 1, "p": r.choice([20, 60, 150]), "m": r.choice([200, 1000, 4000])}[mode]
        L.append("par %d %s %d %d" % (r.randrange(1 << 30), mode, r.choice([2, 3, 5]) if mode == "k" else r.choice([1, 2, 3, 4, 6]), span))
        dead = r.sample(range(1, nk + 1), r.randrange(1, nk + 1))
        nt = r.choice([1, 2, 2, 3])
        for t in range(1, nt + 1):
            for _ in range(r.choice([1, 2, 3])):
                k = r.choice(dead) if r.random() < 0.75 else r.randrange(1, nk + 1)
                L.append(":%d %s" % (t, self.kev(k, wait="z")))
            if self.peer and r.random() < 0.3:
                L.append(":%d wr ow 3" % t)
        for j, k in enumerate(dead):
            if r.random() < 0.3:
                L.append(":%d %s" % (nt + 1, self.kev(r.randrange(1, nk + 1), wait="z")) if j == 0 else ":%d wr ow 1" % (nt + 1) if self.peer else "#")
            L.append(":%d clk %d" % (nt + 1, k))
        L += ["join", "fds"]
        for k in range(1, nk + 1):
            L.append("kev %d 16 z" % k)
        L.append("fds")
        if r.random() < 0.5:
            L += ["kq %d" % dead[0], "kev %d 8 z %s" % (dead[0], self.change(dead[0], True)), "clk %d" % dead[0]]
        for k in range(1, nk + 1):
            if k not in dead:
                L.append("clk %d" % k)
        L.append("fds")
        return "\n".join(x for x in L if x != "#") + "\n"


class OwnGen(ConcGen):
    """threads that have nothing to do with each other: each has a kqueue and objects of its own"""

    def step(self, t, kind, first):
        r, k = self.r, 10 + t
        if kind == "file":
            if first:
                return ["mk f%d file %d" % (t, r.choice([0, 5])), "kev %d 0 z %s" % (k, self.vchange(t, True))]
            return [r.choice(["fw f%d 1", "fw f%d 5", "ftrunc f%d 1", "chmod f%d", "chmod f%d", "link f%d", "ulink f%d", "touch f%d"]) % t for _ in range(r.choice([0, 1, 1, 2]))] + \
                   ["kev %d %d %s%s" % (k, r.choice([1, 8]), r.choice(["z", "z", "0:1000000"]), " " + self.vchange(t, False) if r.random() < 0.15 else "")]
        if kind == "timer":
            c = " ".join("%d,%d,%d,%d,%d,%s" % (TIMER, r.choice([1, 2, 3]), r.choice([ADD, ADD, ADD | ONESHOT, ADD | DISPATCH, DELETE, DISABLE, ENABLE]),
                                                *r.choice([(0, 1), (0, 5), (0, 100 * t), (1, t), (2, 1500), (4, 700000), (4, t * 1000)]), self.udata()) for _ in range(r.choice([0, 1, 1, 2])))
            return [("kev %d %d %s %s" % (k, r.choice([1, 8]), r.choice(["z", "z", "0:1000000", "0:2500000"]), c)).rstrip()]
        if kind == "pipe":
            if first:
                return ["mk p%d pipe" % t, "kev %d 0 z %d,@p%dr,%d,0,0,%s %d,@p%dw,%d,0,0,%s" % (k, READ, t, r.choice(ADDS), self.udata(), WRITE, t, r.choice(ADDS), self.udata())]
            return [r.choice(["wr p%dw %d" % (t, r.choice([1, 7, 100])), "drain p%dr" % t, "rd p%dr 5" % t]) for _ in range(r.choice([0, 1, 1]))] + \
                   ["kev %d %d %s" % (k, r.choice([1, 8]), r.choice(["z", "z", "0:1000000"]))]
        c = " ".join("%d,%d,%d,%d,0,%s" % (USER, r.choice([1, 2]), r.choice([ADD, ADD | CLEAR, 0, 0, DELETE, DISABLE, ENABLE]), r.choice([TRIGGER, TRIGGER | FFOR | t, FFCOPY | t, TRIGGER | FFCOPY | 16 * t]), self.udata())
                     for _ in range(r.choice([0, 1, 2, 3])))
        return [("kev %d %d z %s" % (k, r.choice([1, 8, 16]), c)).rstrip()]

    def scenario(self, sid):
        r = self.r
        self.uid = 0
        L = ["S %s" % sid]
        nt = r.choice([2, 2, 3, 4])
        one = r.choice(["file", "file", "timer", "timer", "pipe", "user"])
        kinds = [one if r.random() < 0.7 else r.choice(["file", "timer", "pipe", "user"]) for _ in range(nt)]
        for t in range(1, nt + 1):
            L.append("kq %d" % (10 + t))
            if kinds[t - 1] in ("file", "pipe"):
                L += self.step(t, kinds[t - 1], True)
        for _ in range(r.choice([1, 2])):
            mode = r.choice("rrrkkp")
            L.append("par %d %s %d %d" % (r.randrange(1 << 30), mode, r.choice([2, 3, 5]) if mode == "k" else r.choice([1, 1, 2, 3, 4]), r.choice([40, 100, 200]) if mode == "p" else 1))
            for t in range(1, nt + 1):
                if r.random() < 0.1:
                    L += [":%d kq %d" % (t, 20 + t), ":%d kev %d 8 z %d,1,1,0,%d,%s" % (t, 20 + t, TIMER, 50 * t, self.udata()), ":%d clk %d" % (t, 20 + t)]
                for _ in range(r.choice([1, 2, 3, 4])):
                    L += [":%d %s" % (t, x) for x in self.step(t, kinds[t - 1], False)]
            L.append("join")
            L += ["kev %d 16 z" % (10 + t) for t in range(1, nt + 1)]
        L.append("fds")
        L += ["kev %d 16 0:400000000" % (10 + t) for t in range(1, nt + 1)]
        L += ["clk %d" % (10 + t) for t in range(1, nt + 1)] + ["fds"]
        return "\n".join(L) + "\n"


class CQuitGen(ConcGen):
    """a thread calls exit() while others are at work, each on kqueues of its own"""

    def scenario(self, sid):
        r = self.r
        self.uid = 0
        self.L = L = ["S %s" % sid]
        self.known, self.ends, self.peer, self.watched, self.kids = [], {}, {}, {}, []
        nk = r.choice([0, 1, 2, 3])
        for k in range(1, nk + 1):
            L.append("kq %d" % k)
        if r.random() < 0.6:
            L.append("mk o pipe")
            self.ends["or"], self.peer["ow"], self.watched["ow"] = "pr", "pw", "or"
        for k in range(1, nk + 1):
            for _ in range(r.choice([0, 1, 2])):
                L.append("kev %d 0 z %s" % (k, self.change(k, True)))
        mode = r.choice("rrpkkkm")
        span = {"r": 1, "k": 1, "p": r.choice([20, 60, 150]), "m": r.choice([200, 1000, 4000])}[mode]
        L.append("par %d %s %d %d" % (r.randrange(1 << 30), mode, r.choice([2, 3, 5]) if mode == "k" else r.choice([1, 2, 3, 4, 6]), span))
        nt = r.choice([1, 2, 2, 3])
        own = 20
        free = list(range(1, nk + 1))
        r.shuffle(free)
        q = r.randrange(1, nt + 1)
        for t in range(1, nt + 1):
            mine = [free.pop()] if free and r.random() < 0.8 else []
            for _ in range(r.choice([0, 1, 2, 3, 4])):
                x = r.random()
                if x < 0.3 or not mine:
                    L.append(":%d kq %d" % (t, own))
                    mine.append(own)
                    own += 1
                elif x < 0.65:
                    L.append(":%d clk %d" % (t, mine.pop(r.randrange(len(mine)))))
                elif x < 0.9 or not self.peer:
                    L.append(":%d %s" % (t, self.kev(r.choice(mine))))
                else:
                    L.append(":%d wr ow 3" % t)
            if t == q:
                L.append(":%d quit %d" % (t, r.choice([0, 0, 3, 42])))
            elif mine and r.random() < 0.6:
                L.append(":%d %s" % (t, self.kev(r.choice(mine), wait="n")))
        L.append("join")
        return "\n".join(L) + "\n"


DBG_BASE = ["generic", "generic", "changelist", "invalid", "libkq", "udata", "user", "cap", "life", "faults", "cancel", "fork", "quit", "wait"]


class DebugGen:
    """scenarios of other profiles with debug messages turned on, off and redirected on the way"""

    def __init__(self, seed, prof):
        self.r = random.Random("d" + seed)
        self.base = self.r.choice(prof.get("base", DBG_BASE))
        p = profile(self.base)
        p = dict(p, lim=0)
        if self.base == "libkq":
            p = dict(p, dbg=True)
        self.g = p.get("gen", Gen)(seed, p)

    def scenario(self, sid):
        return self.mix(self.g.scenario(sid))

    def mix(self, text):
        r = self.r
        L = text.rstrip("\n").split("\n")
        out = L[:1 + L[1].startswith("nostd")] + ["dbge " + r.choice(["-", "-", "-", "1", "1", "1", "yes", "0", "0x1", "empty", "1 full", "1 full", "- full"])]
        seen, bg, forked, closing, n = set(), False, False, False, 0
        for j, x in list(enumerate(L))[len(out) - 1:]:
            out.append(x)
            t = x.lstrip("c").split(" ")
            if t[0] == "kq" and not x.startswith("!") and not L[j - 1].startswith("fault"):
                seen.add(t[1])
            if x.startswith("clk "):
                seen.discard(t[1])
                closing = True
            if t[0] == "bg":
                bg = True
                seen.discard(t[1])
            forked = forked or x.startswith("pf ")
            if not seen or forked or x.startswith("fault") or (j + 1 < len(L) and L[j + 1].startswith("kq ") and n == 0):
                continue
            while r.random() < (0.55 if n == 0 else 0.12):
                n += 1
                k = r.choice(sorted(seen))
                c = r.random()
                if c < 0.45:
                    out.append("kev %s %d z %d,0,%d,5,%d,0x7" % (k, r.choice([1, 1, 4]), LIBKQ, r.choice([ADD, ADD | RECEIPT, ADD | RECEIPT]), r.choice([1, 1, 1, 0, 0, 2, -1])))
                elif c < 0.8 or bg or closing:
                    out.append("dbgf %s %d %d" % (k, r.choice([0, 1, 1]), r.choice([0, 0, 1])))
                else:
                    out.append("dbgp %s %d %d" % (k, r.choice([-1, 0, 1, 2, 3]), r.choice([0, 0, 1])))
        return "\n".join(out) + "\n"


ALLF = {READ: 5, WRITE: 4, VNODE: 3, PROC: 2, SIGNAL: 3, TIMER: 4, USER: 5, LIBKQ: 0.3, -3: 0.05, -9: 0.05, -13: 0.05, 0: 0.05, 5: 0.05}


BADID = ["0x7fffffff", "0xffffffffffffffff", "0x100000000", "0x80000000", "4000", "0xffffffff00000000", "0x10000003c", "0x10000003d"]
BASEF = {READ: 4, WRITE: 3, VNODE: 2, PROC: 2, SIGNAL: 3, TIMER: 4, USER: 5}
TMO = ["0:1", "0:999", "0:1000", "0:500000", "0:999999", "0:1000000", "0:1000001", "0:1500000", "0:10000000", "0:999999999", "1:0", "1:1", "2:500000001", "5:0", "60:0", "3600:5", "100000:0",
       "2147483:0", "2147484:0", "2147483:647000001", "4294967:300000000", "4294968:0", "10000000:0", "900000000:7", "2147483648:0", "9000000000:0", "n"]


def profile(name):
    P = {
        "generic": dict(filters=ALLF),
        "user": dict(filters={USER: 1}, kinds=[], nobj=[0], idents=["1", "2", "3"], env={"adv": 1, "user": 6}, pkev=0.8),
        "timer": dict(long=0.08, filters={TIMER: 1}, kinds=[], nobj=[0], idents=["1", "2", "3"], env={"adv": 5},
                      to=["z"] * 5 + ["0:1", "0:500000", "0:1500000", "0:10000000", "1:0", "0:999999999", "2:500000001", "n", "5:0"]),
        "read": dict(filters={READ: 1}, env={"io": 8, "file": 2}),
        "write": dict(filters={WRITE: 5, READ: 2}, kinds=["pipe", "stream", "stream", "dgram", "seqp", "evfd", "file"], env={"io": 8, "file": 1}),
        "rw": dict(filters={WRITE: 1, READ: 1}, kinds=["stream", "stream", "dgram", "seqp", "file"], env={"io": 8, "file": 1}, nobj=[1]),
        "signal": dict(filters={SIGNAL: 1}, kinds=[], nobj=[0], nsig=6, env={"sig": 1}),
        "proc": dict(filters={PROC: 1}, kinds=[], nobj=[0], env={"kid": 1}),
        "vnode": dict(filters={VNODE: 1}, kinds=["file"], nobj=[1, 2], env={"file": 1}, pkev=0.45),
        "changelist": dict(filters={**ALLF, -3: 0.5, -13: 0.5, 0: 0.5, LIBKQ: 1}, nch=[0, 1, 2, 3, 5, 8, 12], receipt=0.3, weird=0.12,
                           n=["-", 0, 1, 2, 3, 4, 6, 8, 16, 32], len=[8, 14], nk=[1]),
        "identity": dict(filters={READ: 4, WRITE: 4, VNODE: 1, SIGNAL: 3, TIMER: 4, USER: 6, PROC: 1}, nk=[1, 2, 2], nobj=[2, 4], hi=0.3,
                         idents=["1", "10", "12", "28", "0x10000000a", "0x100000001", "0x8000000000000001", "0x7fffffffffffffff", "0", "0xffffffffffffffff", "0xffffffff"],
                         n=["-", 0, 4, 16, 32, 32], reuse=0.6),
        "disable": dict(filters=dict(BASEF), reuse=0.7, ctls=[DISABLE] * 6 + [ENABLE] * 6 + [ADD, ADD | DISABLE, ADD | CLEAR, 0, DELETE],
                        adds=[ADD] * 4 + [ADD | CLEAR] * 2 + [ADD | DISABLE] * 4 + [ADD | DISABLE | ONESHOT, ADD | DISABLE | DISPATCH, ADD | DISPATCH, ADD | ONESHOT, ADD | DISABLE | CLEAR, ADD | ENABLE]),
        "oneshot": dict(filters=dict(BASEF), reuse=0.45, ctls=[DELETE, DISABLE, ENABLE, 0, ADD, ADD | ONESHOT, ADD | ONESHOT],
                        adds=[ADD | ONESHOT] * 5 + [ADD, ADD | CLEAR | ONESHOT, ADD | CLEAR | ONESHOT, ADD | DISABLE | ONESHOT, ADD | CLEAR], fdsmid=0.03),
        "dispatch": dict(filters=dict(BASEF), reuse=0.6, ctls=[DELETE, DISABLE, ENABLE, ENABLE, ENABLE, ENABLE, ADD | DISPATCH, ADD | DISPATCH, 0, ADD],
                         adds=[ADD | DISPATCH] * 5 + [ADD, ADD | CLEAR | DISPATCH, ADD | CLEAR | DISPATCH, ADD | DISABLE | DISPATCH, ADD | CLEAR]),
        "clear": dict(filters={READ: 5, WRITE: 5, USER: 2}, reuse=0.3, ctls=[DISABLE, ENABLE, ADD | CLEAR, ADD, DELETE], adds=[ADD | CLEAR] * 5 + [ADD] * 2 + [ADD | CLEAR | DISPATCH],
                      env={"io": 8, "file": 1, "user": 1}, kinds=["pipe", "stream", "stream", "dgram", "seqp", "evfd", "listen"], nobj=[1, 2], nch=[0, 0, 0, 0, 1, 1], n=[1, 4, 16, 32]),
        "udata": dict(filters=dict(ALLF), reuse=0.6, ctls=[ADD] * 4 + [ENABLE, DISABLE, 0, 0, RECEIPT, RECEIPT | ADD, ADD | DISPATCH, ADD | CLEAR, ADD | DISABLE, DISPATCH | ONESHOT | ADD], n=[0, 4, 8, 16, 32]),
        "life": dict(lim=0.08, hifd=0.05, nostd=0.2, filters={READ: 3, WRITE: 2, VNODE: 1, SIGNAL: 1, TIMER: 3, USER: 4, PROC: 1}, nk=[1, 2, 3], env={"io": 3, "adv": 1, "file": 1, "kid": 0.5, "kq": 5}, pkev=0.55, fdsmid=0.05,
                     ctls=[DELETE, DELETE, DELETE, DISABLE, ENABLE, ADD], reuse=0.4, len=[15, 25, 40]),
        "wait": dict(hifd=0.08, filters={TIMER: 6, USER: 2, READ: 1, VNODE: 0.7}, kinds=["pipe", "file"], nobj=[1], idents=["1", "2", "3", "4"], env={"adv": 3, "io": 1, "file": 1}, nch=[0, 0, 0, 1, 1, 2],
                     to=["z"] * 2 + TMO, n=[0, 1, 2, 8, 8, 8, "-"], receipt=0.05, intr=0.08),
        "invalid": dict(negch=0.15, filters={**ALLF, -3: 1, -8: 1, -9: 1, -10: 1, -13: 1, -14: 0.5, -100: 0.5, -32768: 0.5, 32767: 0.5, 0: 1, 1: 1}, weird=0.3, receipt=0.15, badkq=0.06, badid=0.15, badarg=0.06, early=0.1,
                        kinds=["pipe", "stream", "file", "dir", "null", "listen", "evfd"], n=[0, 1, 4, 8, 16, "-"], nch=[0, 1, 1, 2, 3, 5]),
        "libkq": dict(filters={LIBKQ: 6, USER: 2, TIMER: 1}, nk=[1, 2], nch=[0, 1, 1, 2, 3, 5], n=[0, 1, 2, 4, 8, 8, 16], nobj=[0], kinds=[], env={"adv": 1, "user": 2}, pkev=0.85, len=[10, 20]),
        "cap": dict(filters={READ: 5, WRITE: 5, USER: 3, TIMER: 2, SIGNAL: 1, VNODE: 1, PROC: 0.5}, nobj=[3, 5, 8], maxobj=20, nch=[0, 0, 0, 0, 0, 2, 6], n=[1, 1, 1, 2, 2, 3, 4, 5], reuse=0.15, nk=[1],
                    env={"io": 8, "adv": 1, "sig": 2, "file": 1, "user": 2, "kid": 0.5}, adds=[ADD] * 3 + [ADD | CLEAR] * 4 + [ADD | ONESHOT, ADD | DISPATCH], len=[30, 60], pkev=0.7, close=0.01),
        "reuse": dict(filters={READ: 5, WRITE: 4, VNODE: 1, USER: 1}, kinds=["pipe", "pipe", "stream", "stream", "seqp", "evfd", "file", "listen"], close=0.2, env={"io": 6, "file": 1, "re": 3, "delre": 2}, nobj=[2, 3], rr=True,
                      len=[20, 35], reuse=0.3),
        "cancel": dict(filters={READ: 3, WRITE: 2, VNODE: 1, TIMER: 4, USER: 4, PROC: 1}, cancel=0.5, kqfail=0.02, env={"io": 5, "adv": 1, "file": 1, "user": 3, "kid": 0.5}, nk=[1, 2], nobj=[1, 2], badkq=0.03,
                       to=["z"] * 4 + ["0:1", "0:500000", "0:10000000", "1:0", "n", "n", "n"], n=[0, 1, 1, 2, 8, 8, 16, "-"], kinds=["pipe", "stream", "dgram", "evfd", "file", "listen"]),
        "faults": dict(filters={READ: 3, WRITE: 3, VNODE: 2, TIMER: 3, USER: 3, PROC: 1, SIGNAL: 2}, faults=0.45, env={"io": 5, "adv": 1, "file": 1, "user": 2, "sig": 1}, nk=[1, 2], nobj=[2, 3],
                       len=[12, 20, 30], close=0, weird=0, adds=[ADD] * 4 + [ADD | CLEAR] * 2 + [ADD | ONESHOT, ADD | DISPATCH, ADD | DISABLE, ADD | RECEIPT]),
        "conc": dict(gen=ConcGen, pfile=0.15, filters=[READ] * 4 + [WRITE] * 2 + [TIMER] * 2 + [USER] * 4 + [PROC], nk=[1, 1, 2, 2, 3], roles=["poll"] * 4 + ["change"] * 3 + ["io"] * 3 + ["life"]),
        "exec": dict(filters={READ: 3, WRITE: 3, VNODE: 2, SIGNAL: 1, TIMER: 3, USER: 3, PROC: 2}, exec=0.4, kqfail=0.03, nk=[1, 2], nobj=[2, 3], env={"io": 4, "adv": 2, "sig": 1, "file": 2, "kid": 1, "user": 2, "kq": 2}, len=[12, 20, 30],
                     kinds=["pipe", "stream", "dgram", "seqp", "listen", "evfd", "file", "file", "file"]),
        "cexec": dict(gen=ConcGen, filters=[READ] * 3 + [WRITE] + [TIMER] * 2 + [USER] * 3 + [PROC], nk=[1, 1, 2], roles=["exec"] * 3 + ["life"] * 4 + ["poll", "change", "change"]),
        "cfork": dict(gen=ConcGen, toggle=0.15, filters=[READ] * 3 + [WRITE] + [TIMER] * 2 + [USER] * 4, nk=[1, 1, 2], roles=["fork"] * 3 + ["life"] * 4 + ["poll", "change"]),
        "clife": dict(gen=ConcGen, filters=[READ] * 3 + [WRITE] + [TIMER] * 3 + [USER] * 4, nk=[1, 1, 2], roles=["life"] * 4 + ["poll"] + ["io"]),
        "quit": dict(filters={READ: 3, WRITE: 2, VNODE: 1, SIGNAL: 1, TIMER: 3, USER: 4, PROC: 1}, nk=[1, 2, 3], env={"io": 3, "adv": 1, "file": 1, "kid": 0.5, "kq": 5}, len=[2, 6, 12], reuse=0.4, gen=QuitGen),
        "cown": dict(gen=OwnGen, filters=[USER]),
        "cclose": dict(gen=CCloseGen, filters=[READ] * 3 + [TIMER] * 3 + [USER] * 4),
        "cquit": dict(gen=CQuitGen, filters=[READ] * 3 + [TIMER] * 3 + [USER] * 4),
        "big": dict(gen=BigGen),
        "debug": dict(gen=DebugGen),
        "fork": dict(filters={READ: 3, WRITE: 1, VNODE: 1, TIMER: 4, USER: 4, SIGNAL: 1, PROC: 0.5}, env={"io": 5, "adv": 1, "user": 2, "sig": 0.5, "kid": 0.5}, nk=[1, 1, 2, 3], nobj=[1, 2],
                     kinds=["pipe", "stream", "evfd", "file"], close=0, hi=0, len=[8, 14, 20], gen=ForkGen, badkq=0, weird=0.01),
    }
    return P[name]


def batch(name, seed, count, prefix=""):
    out = []
    for j in range(count):
        g = profile(name).get("gen", Gen)("%s/%s/%d" % (name, seed, j), profile(name))
        out.append(g.scenario("%s%s-%s-%d" % (prefix, name, seed, j)))
    return out
