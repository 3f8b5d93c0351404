------------------------------- MODULE KqMC -------------------------------
(* Exhaustive model checking of Kq on small configurations, and test generation.                                   *)
(*                                                                                                                *)
(* A configuration (Model) is a set-up script and a finite set of operation templates. The state is Kq's S plus a   *)
(* history H kept independently of Kq's own bookkeeping: what was registered, when, with what, what has happened    *)
(* to the watched objects since, what has been reported. The properties C01.. are stated over H and the last step;  *)
(* a step that breaks one puts its id into H.viol. `path` is the script that led to the state (hidden by the VIEW):  *)
(* every explored transition is printed as a script that the harness replays on the real library.                   *)
EXTENDS Kq, FiniteSetsExt, IOUtils

CONSTANTS Model, MaxLen, Dump
VARIABLES S, H, path

\* ------------------------------------------------------------------ text of operations
Dig == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Hex(_, _)
Hex(n, w) == IF w = 0 THEN "" ELSE Hex(n \div 16, w - 1) \o Dig[(n % 16) + 1]
TxId(i) == IF SubSeq(i, 1, 1) = "#" THEN "0x" \o SubSeq(i, 2, Len(i)) ELSE i
C(f, i, fl, h, l, d, u) == [f |-> f, i |-> i, fl |-> fl, h |-> h, l |-> l, d |-> W(d), u |-> u,
      tx |-> ToString(f) \o "," \o TxId(i) \o "," \o ToString(fl) \o ",0x" \o Hex(h, 2) \o Hex(l, 6) \o "," \o ToString(d) \o ",0x" \o u]
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE " " \o Head(q) \o Join(Tail(q))
TxTo(to) == IF to[1] < 0 THEN "n" ELSE IF to = Zero THEN "z" ELSE ToString(to[1]) \o ":" \o ToString(to[2])
Kev(k, ch, n, to) == [op |-> "kev", k |-> k, ch |-> ch, n |-> n, nul |-> 0, to |-> to, bt |-> 0,
      tx |-> "kev " \o k \o " " \o ToString(n) \o " " \o TxTo(to) \o Join([j \in 1..Len(ch) |-> ch[j].tx])]
Z == Zero
Ch(k, c) == Kev(k, <<c>>, 0, Z)          \* one change, no room for events
Get(k, n) == Kev(k, <<>>, n, Z)          \* take what is pending
Wr(o, n) == [op |-> "wr", o |-> "@" \o o, n |-> n, tx |-> "wr " \o o \o " " \o ToString(n)]
Rd(o, n) == [op |-> "rd", o |-> "@" \o o, n |-> n, tx |-> "rd " \o o \o " " \o ToString(n)]
Drain(o) == [op |-> "drain", o |-> "@" \o o, tx |-> "drain " \o o]
Fill(o) == [op |-> "fill", o |-> "@" \o o, tx |-> "fill " \o o]
Cl(o) == [op |-> "cl", o |-> "@" \o o, tx |-> "cl " \o o]
Shut(o) == [op |-> "shut", o |-> "@" \o o, tx |-> "shut " \o o]
Adv(s, n) == [op |-> "adv", d |-> <<s, n>>, tx |-> "adv " \o ToString(s) \o " " \o ToString(n)]
Sig(s, h) == [op |-> "sig", i |-> "#" \o h, s |-> s, tx |-> "sig " \o ToString(s)]
Mkk(n, kind, v) == [op |-> "mk", o |-> n, kind |-> kind, v |-> v, tx |-> "mk " \o n \o " " \o kind \o " " \o ToString(v)]
Kq_(k) == [op |-> "kq", k |-> k, r |-> 0, e |-> 0, dup |-> 0, hit |-> 0, cs |-> 0, tx |-> "kq " \o k]
Clk(k) == [op |-> "clk", k |-> k, par |-> 0, tx |-> "clk " \o k]
Forkc(c) == [op |-> "fork", c |-> "%" \o c, tx |-> "fork " \o c]
Exitc(c, v) == [op |-> "exit", c |-> "%" \o c, v |-> v, tx |-> "exit " \o c \o " " \o ToString(v)]
Killc(c, v) == [op |-> "killc", c |-> "%" \o c, v |-> v, tx |-> "killc " \o c \o " " \o ToString(v)]
Reap(c) == [op |-> "reap", c |-> "%" \o c, tx |-> "reap " \o c]
Fop(op, o) == [op |-> op, o |-> "@" \o o, tx |-> op \o " " \o o]
Fn(op, o, n) == [op |-> op, o |-> "@" \o o, n |-> n, tx |-> op \o " " \o o \o " " \o ToString(n)]
Conn(o) == [op |-> "conn", o |-> "@" \o o, tx |-> "conn " \o o \o " x"]
Acc(o) == [op |-> "acc", o |-> "@" \o o, tx |-> "acc " \o o]

\* the outcome of an environment operation, as the harness would log it; <<>> if not useful now
Predict(s, t) ==
  CASE t.op = "wr" -> LET e == s.en[t.o] IN
         IF ~e.open \/ e.shut \/ e.wr = "no" THEN <<>>
         ELSE IF e.t = "evfd" THEN (IF e.q > 2 THEN <<>> ELSE t @@ [r |-> t.n])
         ELSE IF ~s.en[e.peer].open \/ s.en[e.peer].q > 3 THEN <<>> ELSE t @@ [r |-> t.n]
    [] t.op = "rd" -> LET e == s.en[t.o] IN IF ~e.open \/ e.q = 0 \/ e.err /= 0 THEN <<>>
         ELSE t @@ [r |-> IF e.t \in {"dgram", "seqp"} THEN Head(e.ms) ELSE IF e.t = "evfd" \/ t.n > e.q THEN e.q ELSE t.n]
    [] t.op = "drain" -> LET e == s.en[t.o] IN IF ~e.open \/ e.q = 0 \/ e.err /= 0 THEN <<>> ELSE t @@ [r |-> e.q]
    [] t.op = "fill" -> LET e == s.en[t.o] IN IF ~e.open \/ e.shut \/ e.wr = "no" \/ ~s.en[e.peer].open THEN <<>> ELSE t @@ [r |-> 8192]
    [] t.op = "shut" -> LET e == s.en[t.o] IN IF ~e.open \/ e.shut \/ ~s.en[e.peer].open THEN <<>> ELSE t @@ [r |-> 0]
    [] t.op = "cl" -> IF ~s.en[t.o].open THEN <<>> ELSE t @@ [r |-> 0]
    [] t.op = "conn" -> IF s.en[t.o].q > 1 THEN <<>> ELSE t @@ [r |-> 0]
    [] t.op = "acc" -> IF s.en[t.o].q = 0 THEN <<>> ELSE t @@ [r |-> 0]
    [] t.op = "adv" -> t @@ [t |-> Plus(s.now, t.d)]
    [] t.op = "sig" -> IF t.i \in s.blk THEN (IF SigPend(s, t.i) > 1 THEN <<>> ELSE t @@ [h |-> 0]) ELSE t @@ [h |-> 1]
    [] t.op = "fork" -> IF t.c \in DOMAIN s.ch THEN <<>> ELSE t
    [] t.op \in {"exit", "killc"} -> IF t.c \notin DOMAIN s.ch \/ s.ch[t.c].st /= "run" THEN <<>> ELSE t
    [] t.op = "reap" -> IF t.c \notin DOMAIN s.ch \/ s.ch[t.c].st /= "zomb" THEN <<>> ELSE t @@ [r |-> 1, st |-> s.ch[t.c].code]
    [] t.op \in {"fw", "fp"} -> LET e == s.en[t.o] IN IF ~e.open THEN <<>>
         ELSE t @@ [r |-> t.n, sz |-> IF t.op = "fw" THEN Plus(e.sz, W(t.n)) ELSE MaxT(e.sz, W(t.n))]
    [] t.op \in {"fseek", "ftrunc"} -> IF ~s.en[t.o].open THEN <<>> ELSE t @@ [r |-> 0, v |-> W(t.n)]
    [] t.op \in {"chmod", "ren"} -> IF ~s.en[t.o].open \/ (t.op = "ren" /\ s.en[t.o].nl = 0) THEN <<>> ELSE t @@ [r |-> 0]
    [] t.op = "link" -> IF s.en[t.o].nl /= 1 THEN <<>> ELSE t @@ [r |-> 0]
    [] t.op = "ulink" -> IF s.en[t.o].nl /= 2 THEN <<>> ELSE t @@ [r |-> 0]
    [] t.op = "kq" -> IF t.k \in DOMAIN s.kq /\ s.kq[t.k].open THEN <<>> ELSE t
    [] t.op = "clk" -> IF BadKq(s, t.k) THEN <<>> ELSE t
    [] OTHER -> t

\* all outcomes of a kevent() call that the specification permits
KevOut(s, t) ==
  IF BadKq(s, t.k) THEN {}
  ELSE LET room == Lo2(t.n, MAXKEV)
           ci == CopyIn(s, t.k, room, t.ch)
           ne == Len(ci.out)
           left == room - ne
           base == t @@ [t0 |-> s.now, over |-> 0, chg |-> 0, hit |-> 0, cx |-> 0, cs |-> 0]
           ent == [j \in 1..ne |-> LET x == ci.out[j] IN
                     [f |-> x.f, i |-> x.i, fl |-> x.fl, h |-> x.h, l |-> x.l,
                      d |-> IF x.es = {} THEN x.d ELSE W(CHOOSE y \in x.es : TRUE), u |-> x.u, p |-> 0]]
           deadline == IF t.to[1] < 0 THEN <<FarAway, 0>> ELSE Plus(s.now, t.to)
           later == MinT(NextExp(ci.S, t.k), deadline)
           times == IF left = 0 \/ ne > 0 \/ MustSet(ci.S, t.k) /= {} \/ Leq(later, s.now) THEN {s.now}
                    ELSE IF later[1] >= FarAway THEN (IF MaySet(ci.S, t.k) /= {} THEN {s.now} ELSE {}) ELSE {s.now, later}
           Ps(S2, key) == IF key[1] = VNODE THEN {x[1] : x \in VOut(Kn(S2, t.k)[key], S2.en[key[2]])} \ {0} ELSE {0}
           Out(t1) ==
             LET S2 == [ci.S EXCEPT !.now = t1]
                 may == MaySet(S2, t.k)
                 pick == {D \in SUBSET may : Cardinality(D) <= left}
             IN UNION {LET q == SetToSeq(D) IN
                       {base @@ [t1 |-> t1, blk |-> 0, r |-> ne + Len(q), e |-> 0,
                                 ev |-> ent \o [j \in 1..Len(q) |-> EventOf(S2, t.k, q[j], pf[q[j]]) @@ [p |-> pf[q[j]]]]]
                        : pf \in [D -> UNION {Ps(S2, key) : key \in D} \union {0}]} : D \in pick}
           err == base @@ [t1 |-> s.now, blk |-> 0, r |-> -1, e |-> CHOOSE y \in ci.e : TRUE, ev |-> <<>>]
       IN IF ci.st = "noroom" THEN {err} ELSE UNION {Out(t1) : t1 \in times}

\* ------------------------------------------------------------------ the history, and the properties over it
\* Reg: what the caller knows about a registration from the calls it made and the events it received
\*   fl: flags it asked for, u: its udata, dis: it was disabled (by a change or a dispatch), cnt: reports so far,
\*   act: something happened to the object since the last report (or arming), trg: triggered while enabled,
\*   t0/per/cn: timer armed when, with what period, expirations reported since
Reg0 == [fl |-> 0, u |-> "0", dis |-> FALSE, cnt |-> 0, act |-> FALSE, trg |-> FALSE, t0 |-> Zero, per |-> Zero, cn |-> 0, abs |-> FALSE, l |-> 0, h |-> 0]
H0 == [reg |-> <<>>, viol |-> {}, owed |-> <<>>]
RKey(k, c) == <<k, c.f, c.i>>
Per(c) == Dur(c.d, c.l)
TouchObj(h, i) == [h EXCEPT !.reg = [x \in DOMAIN @ |-> IF x[3] = i THEN [@[x] EXCEPT !.act = TRUE] ELSE @[x]]]
\* one accepted change
HChange(h, k, c, now) ==
  LET x == RKey(k, c)
      old == x \in DOMAIN h.reg
      upd == Has(c.fl, ADD) \/ c.fl = 0 \/ (Has(c.fl, RECEIPT) /\ ~Has(c.fl, ENABLE))
      neu == [Reg0 EXCEPT !.fl = c.fl, !.u = c.u, !.dis = Has(c.fl, DISABLE), !.act = TRUE, !.t0 = now, !.per = Per(c), !.abs = Has(c.l, 8), !.l = c.l, !.h = c.h]
      r == h.reg[x]
      en == Has(c.fl, ENABLE) \/ Has(c.fl, ADD)
      ro == IF r.dis /\ en THEN [r EXCEPT !.dis = FALSE, !.act = TRUE, !.t0 = now, !.cn = 0] ELSE r
      rm == CASE c.f = USER -> [ro EXCEPT !.u = c.u, !.trg = @ \/ (Has(c.h, 1) /\ ~ro.dis), !.fl = IF Has(c.fl, DISPATCH) THEN Set(@, DISPATCH) ELSE Clr(@, DISPATCH)]
              [] c.f = TIMER -> [ro EXCEPT !.u = c.u, !.fl = c.fl, !.per = Per(c), !.t0 = now, !.cn = 0, !.cnt = 0, !.l = c.l, !.abs = Has(c.l, 8)]
              [] c.f = PROC -> [ro EXCEPT !.u = c.u, !.fl = c.fl, !.h = c.h]
              [] OTHER -> [ro EXCEPT !.u = c.u, !.act = TRUE, !.l = c.l, !.fl = IF Has(c.fl, DISPATCH) THEN Set(@, DISPATCH) ELSE Clr(@, DISPATCH)]
      h1 == IF ~old THEN [h EXCEPT !.reg = Put(@, x, neu)]
            ELSE IF Has(c.fl, DELETE) THEN [h EXCEPT !.reg = Rem(@, x)]
            ELSE IF Has(c.fl, DISABLE) THEN [h EXCEPT !.reg[x].dis = TRUE]
            ELSE [h EXCEPT !.reg[x] = IF upd THEN rm ELSE ro]
  \* the two filters of a descriptor share a kernel registration: a change to one may re-report the other
  IN IF IsFd(c.f) THEN TouchObj(h1, c.i) ELSE h1
\* one reported event: which properties does it break?
Due(r, now) == IF r.per = Zero THEN 0                      \* expirations that should have been reported by now
               ELSE LET first == IF r.abs THEN r.per ELSE Plus(r.t0, r.per) IN
                    IF Lt(now, first) THEN 0 ELSE IF Has(r.fl, ONESHOT) THEN 1
                    ELSE DivT(Minus(now, first), r.per)[1][2] + 1
HEvent(h, s0, k, ev, now) ==
  LET x == RKey(k, ev) IN
  IF x \notin DOMAIN h.reg THEN [h EXCEPT !.viol = @ \union {"C02", "C04"}]
  ELSE LET r == h.reg[x]
           owed == IF ev.i \in DOMAIN h.owed THEN h.owed[ev.i] ELSE 0
           v == (IF r.dis THEN {"C03", "C05"} ELSE {})
                \union (IF ev.u /= r.u THEN {"C14"} ELSE {})
                \union (IF Has(r.fl, ONESHOT) /\ r.cnt > 0 THEN {"C04"} ELSE {})
                \union (IF IsFd(ev.f) /\ Has(r.fl, CLEAR) /\ ~r.act THEN {"C06"} ELSE {})
                \union (IF ev.f = USER /\ ~r.trg THEN {"C13", "C06"} ELSE {})
                \union (IF ev.f = TIMER /\ r.cn + ev.d[2] /= Due(r, now) THEN {"C09"} ELSE {})
                \union (IF ev.f = SIGNAL /\ owed = 0 THEN {"C10"} ELSE {})
                \union (IF ev.f = PROC /\ (s0.ch[ev.i].st = "run" \/ r.cnt > 0 \/ ~Has(r.h, 128)) THEN {"C11"} ELSE {})
                \union (IF ev.f = VNODE /\ (ev.l & (r.l | (IF Has(r.l, 2) THEN 4 ELSE 0))) /= ev.l THEN {"C12"} ELSE {})
                \union (IF ev.f = VNODE /\ ~r.act THEN {"C12"} ELSE {})
                \union (IF ev.f = READ /\ ~RCond(s0, s0.en[ev.i]) THEN {"C07"} ELSE {})
                \union (IF ev.f = WRITE /\ WCond(s0, s0.en[ev.i]) = "no" THEN {"C08"} ELSE {})
           one == Has(r.fl, ONESHOT) \/ (ev.f = PROC)
           r1 == [r EXCEPT !.cnt = 1, !.dis = @ \/ Has(r.fl, DISPATCH), !.act = IF ev.f = VNODE THEN @ ELSE FALSE,
                           !.trg = IF Has(r.fl, CLEAR) \/ Has(r.fl, DISPATCH) \/ Has(r.fl, ONESHOT) THEN FALSE ELSE @,
                           !.cn = IF ev.f = TIMER THEN @ + ev.d[2] ELSE @]
           h1 == [h EXCEPT !.viol = @ \union v, !.reg = IF one THEN Rem(@, x) ELSE Put(@, x, r1),
                           !.owed = IF ev.f = SIGNAL THEN Put(@, ev.i, owed - 1) ELSE @]
       IN h1

\* what must be true of a whole call
HCall(h, s, o, s1) ==
  LET ne == Len(CopyIn(s, o.k, o.n, o.ch).out)
      h1 == FoldLeft(LAMBDA a, j : LET c == o.ch[j] IN
                       LET pre == CopyIn(s, o.k, o.n, SubSeq(o.ch, 1, j - 1)) IN
                       IF pre.st /= "run" \/ Apply(pre.S, o.k, c).rv = "err" THEN a ELSE HChange(a, o.k, c, s.now), h, [j \in 1..Len(o.ch) |-> j])
      evs == SubSeq(o.ev, ne + 1, Len(o.ev))
      s0 == [CopyIn(s, o.k, o.n, o.ch).S EXCEPT !.now = o.t1]
      h2 == FoldLeft(LAMBDA a, ev : HEvent(a, s0, o.k, ev, o.t1), h1, evs)
      keys == {<<ev.f, ev.i>> : ev \in {evs[j] : j \in 1..Len(evs)}}
      \* when one filter of a descriptor did not fit, the other may be repeated along with it
      \* and so may the other one when a one-shot or dispatched report changes the shared registration
      cut == {key \in keys : IsFd(key[1]) /\ LET sb == <<o.k, IF key[1] = READ THEN WRITE ELSE READ, key[2]>> IN
                             sb \in DOMAIN h2.reg /\ (\/ (o.r = o.n /\ <<sb[2], sb[3]>> \notin keys)
                                                      \/ <<o.k, key[1], key[2]>> \notin DOMAIN h2.reg
                                                      \/ h2.reg[<<o.k, key[1], key[2]>>].dis)}
      h3 == FoldLeft(LAMBDA a, key : TouchObj(a, key[2]), h2, SetToSeq(cut))
      \* registrations the caller believes it has = registrations that exist
      regs == {<<x[2], x[3]>> : x \in {y \in DOMAIN h2.reg : y[1] = o.k}}
      vc == (IF o.r >= 0 /\ o.r > o.n THEN {"C01"} ELSE {})
            \union (IF o.r >= 0 /\ Cardinality({j \in 1..Len(o.ev) : Has(o.ev[j].fl, ERROR)}) /= ne /\ \A j \in 1..Len(o.ch) : o.ch[j].f /= LIBKQ THEN {"C01"} ELSE {})
            \union (IF regs /= DOMAIN Kn(s1, o.k) THEN {"C02", "C04"} ELSE {})
            \union (IF Cardinality(keys) /= Len(evs) THEN {"C02"} ELSE {})
            \union (IF o.r = 0 /\ o.n > 0 /\ Lt(o.t1, IF o.to[1] < 0 THEN <<FarAway, 0>> ELSE Plus(o.t0, o.to)) THEN {"C18"} ELSE {})
            \* level triggered conditions are reported as long as they hold and there is room
            \union (IF o.r >= 0 /\ o.n - ne > Cardinality(regs) + Cardinality(keys) /\ \E x \in DOMAIN h2.reg :
                       LET kk == <<x[2], x[3]>> IN
                       x[1] = o.k /\ kk \notin keys /\ ~h2.reg[x].dis /\ ~Has(h2.reg[x].fl, CLEAR)
                       /\ ((x[2] = READ /\ ~IsFile(s0, x[3]) /\ s0.en[x[3]].open /\ RCond(s0, s0.en[x[3]]))
                           \/ (x[2] = WRITE /\ s0.en[x[3]].open /\ WCond(s0, s0.en[x[3]]) = "yes")
                           \/ (x[2] = USER /\ h2.reg[x].trg)
                           \/ (x[2] = SIGNAL /\ SigPend(s0, x[3]) > 0)
                           \/ (x[2] = PROC /\ Has(h2.reg[x].h, 128) /\ s0.ch[x[3]].st /= "run")
                           \/ (x[2] = TIMER /\ Due(h2.reg[x], o.t1) > h2.reg[x].cn))
                       /\ ~Kn(s, o.k)[IF kk \in DOMAIN Kn(s, o.k) THEN kk ELSE CHOOSE z \in DOMAIN Kn(s1, o.k) : TRUE].dead
                    THEN {"C06", "C07", "C08", "C09", "C10", "C11", "C13", "C23", "C24"} ELSE {})
            \* other kqueues are untouched
            \union (IF \E k2 \in DOMAIN s.kq \ {o.k} : s.kq[k2] /= s1.kq[k2] THEN {"C02", "C15"} ELSE {})
            \* starvation: ready in every one of many full returns
            \union (IF \E key \in DOMAIN Kn(s1, o.k) : Kn(s1, o.k)[key].sv > StarveBound(s1, o.k) THEN {"C23"} ELSE {})
  IN [h3 EXCEPT !.viol = @ \union vc]

HEnv(h, s, o) ==
  CASE o.op = "sig" -> IF o.i \in s.blk THEN [h EXCEPT !.owed = Put(@, o.i, Lo2(3, (IF o.i \in DOMAIN @ THEN @[o.i] ELSE 0) + 1))] ELSE h
    [] o.op = "clk" -> [h EXCEPT !.reg = [x \in {y \in DOMAIN @ : y[1] /= o.k} |-> @[x]]]
    [] o.op \in {"kq", "mk", "adv", "fork", "exit", "killc", "reap"} -> h
    [] OTHER -> LET e == s.en[o.o] IN IF e.peer = "" THEN TouchObj(h, o.o) ELSE TouchObj(TouchObj(h, o.o), e.peer)

\* ------------------------------------------------------------------ configurations
T(a, b) == [s |-> a, o |-> b]
TRG == 1
Cfg ==
  CASE Model = "user" -> T(<<Kq_("1")>>,
         {Ch("1", C(USER, "#1", ADD, 0, 0, 0, "1")), Ch("1", C(USER, "#1", ADD | CLEAR, 0, 0, 0, "2")), Ch("1", C(USER, "#1", ADD | ONESHOT, 0, 3, 0, "3")),
          Ch("1", C(USER, "#1", ADD | DISPATCH, 0, 0, 0, "4")), Ch("1", C(USER, "#1", 0, TRG, 0, 0, "5")), Ch("1", C(USER, "#1", 0, 128 + TRG, 5, 0, "6")),
          Ch("1", C(USER, "#1", DISABLE, 0, 0, 0, "7")), Ch("1", C(USER, "#1", ENABLE, 0, 0, 0, "8")), Ch("1", C(USER, "#1", DELETE, 0, 0, 0, "9")),
          Get("1", 4)})
    [] Model = "ident" -> T(<<Kq_("1"), Kq_("2")>>,
         {Ch(k, C(USER, i, f, h, 0, 0, u)) : k \in {"1", "2"}, i \in {"#1", "#100000001"}, f \in {ADD | CLEAR, 0, DELETE}, h \in {0, 1}, u \in {"1"}}
         \union {Get("1", 4), Get("2", 4), Get("1", 1)})
    [] Model = "timer" -> T(<<Kq_("1")>>,
         {Ch("1", C(TIMER, "#1", ADD, 0, 0, 10, "1")), Ch("1", C(TIMER, "#1", ADD | ONESHOT, 0, 4, 15000000, "2")), Ch("1", C(TIMER, "#1", ADD | DISPATCH, 0, 2, 10000, "3")),
          Ch("1", C(TIMER, "#1", DISABLE, 0, 0, 10, "4")), Ch("1", C(TIMER, "#1", ENABLE, 0, 0, 10, "5")), Ch("1", C(TIMER, "#1", DELETE, 0, 0, 0, "6")),
          Adv(0, 5000000), Adv(0, 25000000), Get("1", 2), Kev("1", <<>>, 2, <<0, 12000000>>), Kev("1", <<>>, 2, <<0, 1500000>>)})
    [] Model = "pipe" -> T(<<Kq_("1"), Mkk("p", "pipe", 0)>>,
         {Ch("1", C(READ, "@pr", ADD, 0, 0, 0, "1")), Ch("1", C(READ, "@pr", ADD | CLEAR, 0, 0, 0, "2")), Ch("1", C(READ, "@pr", ADD | ONESHOT, 0, 0, 0, "3")),
          Ch("1", C(READ, "@pr", ADD | DISPATCH, 0, 0, 0, "4")), Ch("1", C(READ, "@pr", DISABLE, 0, 0, 0, "5")), Ch("1", C(READ, "@pr", ENABLE, 0, 0, 0, "6")),
          Ch("1", C(READ, "@pr", DELETE, 0, 0, 0, "7")), Get("1", 2), Wr("pw", 2), Rd("pr", 1), Drain("pr"), Cl("pw")})
    [] Model = "pipew" -> T(<<Kq_("1"), Mkk("p", "pipe", 0)>>,
         {Ch("1", C(WRITE, "@pw", ADD, 0, 0, 0, "1")), Ch("1", C(WRITE, "@pw", ADD | CLEAR, 0, 0, 0, "2")), Ch("1", C(WRITE, "@pw", ADD | ONESHOT, 0, 0, 0, "3")),
          Ch("1", C(WRITE, "@pw", ADD | DISPATCH, 0, 0, 0, "4")), Ch("1", C(WRITE, "@pw", DISABLE, 0, 0, 0, "5")), Ch("1", C(WRITE, "@pw", ENABLE, 0, 0, 0, "6")),
          Ch("1", C(WRITE, "@pw", DELETE, 0, 0, 0, "7")), Get("1", 2), Fill("pw"), Wr("pw", 1), Drain("pr"), Cl("pr")})
    [] Model = "rw" -> T(<<Kq_("1"), Mkk("s", "stream", 0)>>,
         {Ch("1", C(f, "@sa", fl, 0, 0, 0, u)) : f \in {READ, WRITE}, fl \in {ADD, ADD | ONESHOT, ADD | DISPATCH, DISABLE, ENABLE, DELETE}, u \in {"1"}}
         \union {Get("1", 1), Get("1", 4), Wr("sb", 1), Drain("sa"), Fill("sa"), Drain("sb"), Shut("sb"), Cl("sb")})
    [] Model = "rwclear" -> T(<<Kq_("1"), Mkk("s", "stream", 0)>>,
         {Ch("1", C(f, "@sa", fl, 0, 0, 0, u)) : f \in {READ, WRITE}, fl \in {ADD | CLEAR, ADD | CLEAR | DISPATCH, DISABLE, ENABLE, DELETE}, u \in {"2"}}
         \union {Get("1", 1), Get("1", 4), Wr("sb", 1), Drain("sa"), Fill("sa"), Drain("sb"), Cl("sb")})
    [] Model = "sock" -> T(<<Kq_("1"), Mkk("s", "stream", 0)>>,
         {Ch("1", C(READ, "@sa", fl, 0, 0, 0, "1")) : fl \in {ADD, ADD | CLEAR, DELETE}}
         \union {Get("1", 2), Wr("sb", 2), Wr("sa", 1), Rd("sa", 1), Drain("sa"), Shut("sb"), Shut("sa"), Cl("sb")})
    [] Model = "pkt" -> T(<<Kq_("1"), Mkk("d", "dgram", 0), Mkk("q", "seqp", 0)>>,
         {Ch("1", C(READ, i, fl, 0, 0, 0, "1")) : i \in {"@da", "@qa"}, fl \in {ADD, ADD | CLEAR, DELETE}}
         \union {Get("1", 3), Wr("db", 1), Wr("db", 2), Wr("qb", 1), Wr("qb", 2), Rd("da", 9), Rd("qa", 9), Shut("qb"), Cl("qb")})
    [] Model = "listen" -> T(<<Kq_("1"), Mkk("l", "listen", 0), Mkk("e", "evfd", 0)>>,
         {Ch("1", C(READ, i, fl, 0, 0, 0, "1")) : i \in {"@l", "@e"}, fl \in {ADD, ADD | CLEAR, ADD | DISPATCH, ENABLE, DELETE}}
         \union {Get("1", 3), Conn("l"), Acc("l"), Wr("e", 1), Rd("e", 8)})
    [] Model = "file" -> T(<<Kq_("1"), Mkk("f", "file", 3)>>,
         {Ch("1", C(READ, "@f", fl, 0, 0, 0, "1")) : fl \in {ADD, ADD | ONESHOT, ADD | DISPATCH, DISABLE, ENABLE, DELETE}}
         \union {Ch("1", C(WRITE, "@f", fl, 0, 0, 0, "2")) : fl \in {ADD, ADD | ONESHOT, DISABLE, ENABLE, DELETE}}
         \union {Get("1", 3), Fn("fseek", "f", 0), Fn("fseek", "f", 3), Fn("fw", "f", 1)})
    [] Model = "signal" -> T(<<Kq_("1"), Kq_("2")>>,
         {Ch("1", C(SIGNAL, i, fl, 0, 0, 0, "1")) : i \in {"#a", "#c", "#25"}, fl \in {ADD, DISABLE, ENABLE, DELETE}}
         \union {Ch("1", C(SIGNAL, "#a", ADD | ONESHOT, 0, 0, 0, "2")), Ch("1", C(SIGNAL, "#25", ADD | DISPATCH, 0, 0, 0, "3")),
                 Get("1", 1), Get("1", 4), Sig(10, "a"), Sig(12, "c"), Sig(37, "25")})
    [] Model = "proc" -> T(<<Kq_("1"), Forkc("c"), Forkc("d")>>,
         {Ch("1", C(PROC, i, fl, 128, 0, 0, "1")) : i \in {"%c", "%d"}, fl \in {ADD, ADD | DISABLE, DISABLE, ENABLE, DELETE}}
         \union {Ch("1", C(PROC, "%c", ADD, 0, 0, 0, "2")), Get("1", 1), Get("1", 4), Exitc("c", 3), Killc("d", 9), Reap("c"), Reap("d")})
    [] Model = "vnode" -> T(<<Kq_("1"), Mkk("f", "file", 3)>>,
         {Ch("1", C(VNODE, "@f", ADD, 0, l, 0, "1")) : l \in {2, 4, 8, 16, 32, 63}}
         \union {Ch("1", C(VNODE, "@f", ADD | CLEAR, 0, 10, 0, "2")), Ch("1", C(VNODE, "@f", ADD | ONESHOT, 0, 63, 0, "3")), Ch("1", C(VNODE, "@f", DISABLE, 0, 0, 0, "4")),
                 Ch("1", C(VNODE, "@f", ENABLE, 0, 0, 0, "5")), Ch("1", C(VNODE, "@f", DELETE, 0, 0, 0, "6")),
                 Get("1", 2), Fn("fw", "f", 2), Fn("fp", "f", 1), Fop("chmod", "f"), Fop("link", "f"), Fop("ulink", "f"), Fop("ren", "f"), Fop("touch", "f")})
    [] Model = "change" -> T(<<Kq_("1"), Mkk("p", "pipe", 0)>>,
         {Kev("1", ch, n, Z) : n \in 0..3,
             ch \in {<<a, b>> : a, b \in {C(USER, "#1", ADD, 0, 0, 0, "1"), C(USER, "#1", ADD | RECEIPT, TRG, 0, 0, "2"), C(USER, "#1", DELETE, 0, 0, 0, "3"),
                                          C(READ, "@pw", DELETE | RECEIPT, 0, 0, 0, "4"), C(WRITE, "@pw", ADD, 0, 0, 0, "5"), C(-3, "#1", ADD, 0, 0, 0, "6")}}}
         \union {Ch("1", C(USER, "#1", 0, TRG, 0, 0, "7"))})
    [] Model = "cap" -> T(<<Kq_("1"), Mkk("s", "stream", 0), Mkk("p", "pipe", 0)>>,
         {Ch("1", C(READ, "@sa", ADD | CLEAR, 0, 0, 0, "1")), Ch("1", C(WRITE, "@sa", ADD | CLEAR, 0, 0, 0, "2")), Ch("1", C(READ, "@pr", ADD, 0, 0, 0, "3")),
          Ch("1", C(WRITE, "@pw", ADD | ONESHOT, 0, 0, 0, "4")), Ch("1", C(USER, "#1", ADD | CLEAR, TRG, 0, 0, "5")), Ch("1", C(USER, "#1", 0, TRG, 0, 0, "5")),
          Get("1", 1), Get("1", 2), Get("1", 3), Wr("sb", 1), Wr("pw", 1)})
    [] Model = "life" -> T(<<Kq_("1")>>,
         {Kq_("1"), Kq_("2"), Clk("1"), Clk("2")} \union {Ch(k, C(USER, "#1", ADD, 0, 0, 0, "1")) : k \in {"1", "2"}}
         \union {Ch(k, C(USER, "#1", 0, TRG, 0, 0, "2")) : k \in {"1", "2"}} \union {Ch(k, C(TIMER, "#1", ADD, 0, 0, 10, "3")) : k \in {"1", "2"}}
         \union {Get(k, 3) : k \in {"1", "2"}} \union {Adv(0, 10000000)})
    [] Model = "close" -> T(<<Kq_("1"), Mkk("p", "pipe", 0), Mkk("s", "stream", 0)>>,
         {Ch("1", C(READ, "@pr", fl, 0, 0, 0, "1")) : fl \in {ADD, ADD | CLEAR, DELETE}} \union {Ch("1", C(READ, "@sa", fl, 0, 0, 0, "2")) : fl \in {ADD, DELETE}}
         \union {Ch("1", C(WRITE, "@sa", ADD, 0, 0, 0, "3")), Get("1", 4), Wr("pw", 1), Wr("sb", 1), Cl("pr"), Cl("sa")})
    [] Model = "wait" -> T(<<Kq_("1")>>,
         {Ch("1", C(TIMER, "#1", ADD, 0, 0, 7, "1")), Ch("1", C(TIMER, "#2", ADD | ONESHOT, 0, 4, 10000001, "2")), Ch("1", C(USER, "#1", ADD | CLEAR, TRG, 0, 0, "3")),
          Ch("1", C(USER, "#1", 0, TRG, 0, 0, "3")), Kev("1", <<>>, 2, <<0, 3000000>>), Kev("1", <<>>, 2, <<0, 10500001>>), Kev("1", <<>>, 1, <<3, 0>>), Kev("1", <<>>, 2, <<-1, 0>>),
          Kev("1", <<C(USER, "#9", DELETE, 0, 0, 0, "4")>>, 2, <<5, 0>>), Kev("1", <<>>, 0, <<5, 0>>)})
    [] Model = "libkq" -> T(<<Kq_("1")>>,
         {Kev("1", <<C(LIBKQ, "#0", fl, 0, l, d, "1")>>, 2, Z) : fl \in {ADD, ADD | RECEIPT}, l \in {1, 3, 4, 9}, d \in {0, 1}}
         \union {Kev("1", <<C(USER, "#1", ADD, TRG, 0, 0, "2"), C(LIBKQ, "#0", ADD, 0, 1, 0, "3")>>, 3, Z), Get("1", 2)})

Setup == FoldLeft(LAMBDA a, o : Step(a, o).S, Init0, Cfg.s)
Ops == Cfg.o

Init == S = Setup /\ H = H0 /\ path = <<>>
Do(t, o) ==
  LET r == Step(S, o) IN
  /\ r.ok
  /\ S' = r.S
  /\ H' = IF o.op = "kev" THEN HCall(H, S, o, r.S) ELSE HEnv(H, S, o)
  /\ path' = Append(path, t.tx)
Next ==
  /\ Len(path) < MaxLen
  /\ \E t \in Ops :
       IF t.op = "kev" THEN \E o \in KevOut(S, t) : Do(t, o)
       ELSE LET o == Predict(S, t) IN o /= <<>> /\ Do(t, o)
Spec == Init /\ [][Next]_<<S, H, path>>
\* times only matter relative to each other; the history counts reports, which is bounded by the path
View == <<[S EXCEPT !.now = IF Model \in {"timer", "wait", "life"} THEN @ ELSE Zero], H>>
Holds == H.viol = {}
\* print every explored transition as a script
RECURSIVE Glue(_)
Glue(q) == IF q = <<>> THEN "" ELSE Head(q) \o ";" \o Glue(Tail(q))
Emit == ~Dump \/ PrintT("SCRIPT " \o Glue(path'))
SetupTx == PrintT("SETUP " \o Glue([j \in 1..Len(Cfg.s) |-> Cfg.s[j].tx]))
ASSUME SetupTx
=============================================================================
