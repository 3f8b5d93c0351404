------------------------------- MODULE KqConc -------------------------------
(* Concurrent use of kqueues. A configuration is [S, P]: the state of Kq and, per thread with a call in progress, how *)
(* far that call has got. A call takes effect in one step, or, if it has to wait, in two: its changes are applied,     *)
(* and later its events are taken; in between only it may use its kqueue, but the environment and other kqueues move  *)
(* on. Time may pass only while every call in progress is waiting for something that has not happened.                *)
(*   P[t] = [o: the recorded call and its result (o.r = -9: it never returned),                                         *)
(*           ph: "inv" | "in" (waiting) | "har" (effect complete),                                                      *)
(*           ne: entries produced by the changes, dl: deadline of the wait,                                             *)
(*           todo: indices of returned events whose data has not been seen to be right at any moment yet]              *)
EXTENDS Kq

NoP == <<>>
C0 == [S |-> Init0, P |-> NoP]
Room(o) == IF o.nul = 1 THEN 0 ELSE Lo2(o.n, MAXKEV)

\* the data of an event is read after it was taken out of the kernel, so it may describe a later moment
DataOk(S, k, o, j) == LET ev == o.ev[j] IN
  /\ ev.i \in DOMAIN S.en
  /\ ev.f = READ => RData(S.en[ev.i]) = ev.d
Settle(c) == [c EXCEPT !.P = [t \in DOMAIN @ |-> IF @[t].ph /= "har" THEN @[t]
                                ELSE [@[t] EXCEPT !.todo = {j \in @ : ~DataOk(c.S, c.P[t].o.k, c.P[t].o, j)}]]]
SetP(c, t, p) == [c EXCEPT !.P = Put(@, t, p)]

Invoke(c, t, o) == SetP(c, t, [o |-> o, ph |-> "inv", ne |-> 0, dl |-> Zero, todo |-> {}])

\* does another thread's waiting call hold the kqueue?
Held(c, t, k) == \E u \in DOMAIN c.P : u /= t /\ c.P[u].ph = "in" /\ c.P[u].o.k = k

Done(c, t, S) == Settle([SetP(c, t, [c.P[t] EXCEPT !.ph = "har", !.todo = {}]) EXCEPT !.S = S])

\* a kqueue somebody closes while others use it: until it is torn down their calls may still find it; what they say
\* about it no longer matters, but they return
Dying(c, t) == LET o == c.P[t].o IN
  IF (o.r = -1 /\ o.e = ENOENT) \/ (o.r >= 0 /\ o.r <= Room(o) /\ o.over = 0 /\ o.cs = 0) \/ (o.r = -1 /\ o.ch /= <<>>) THEN {Done(c, t, c.S)} ELSE {}

\* --- first step: check the arguments, apply the changes
Start(c, t) ==
  LET o == c.P[t].o  S == c.S  k == o.k  room == Room(o)
      ci == CopyIn(S, k, room, o.ch)
      ne == Len(ci.out)
      match == Len(o.ev) >= ne /\ \A j \in 1..ne : EntryMatch(ci.out[j], o.ev[j])
      never == o.r = -9
      dl == IF ne > 0 THEN S.now ELSE IF o.to[1] < 0 \/ o.to[1] >= FarAway THEN <<FarAway, 0>> ELSE Plus(S.now, o.to)
  IN IF o.op = "cfk" THEN (IF o.r = 0 THEN {Done(c, t, S)} ELSE {})
     ELSE IF o.op = "kq" THEN
       IF o.r = 0 /\ (o.k \notin DOMAIN S.kq \/ ~S.kq[o.k].open) /\ o.cs = 0
       THEN {Done(c, t, [S EXCEPT !.kq = Put(@, o.k, [open |-> TRUE, notes |-> <<>>]), !.dy = @ \ {o.k}])} ELSE {}
     ELSE IF k \in S.dy THEN Dying(c, t)
     ELSE IF o.cs = 1 \/ o.over = 1 \/ o.chg = 1 THEN {}
     ELSE IF o.n < 0 \/ o.bt = 1 THEN
            (IF o.r = -1 /\ o.e \in ({EINVAL} \union (IF BadKq(S, k) THEN {ENOENT} ELSE {})) THEN {Done(c, t, S)} ELSE {})
     ELSE IF BadKq(S, k) THEN (IF o.r = -1 /\ o.e = ENOENT THEN {Done(c, t, S)} ELSE {})
     ELSE IF Held(c, t, k) THEN {}
     ELSE IF ci.st = "noroom" THEN (IF o.r = -1 /\ o.e \in ci.e THEN {Done(c, t, ci.S)} ELSE {})
     ELSE IF room = ne THEN (IF o.r = ne /\ match THEN {Done(c, t, ci.S)} ELSE {})
     ELSE IF ~never /\ (o.r < ne \/ o.r > room \/ ~match) THEN {}
     ELSE {[SetP(c, t, [c.P[t] EXCEPT !.ph = "in", !.ne = ne, !.dl = dl]) EXCEPT !.S = ci.S]}

\* --- second step: take the events
EvMatchC(x, ev) == /\ x.f = ev.f /\ x.i = ev.i /\ x.fl = ev.fl /\ x.h = ev.h /\ x.l = ev.l /\ x.u = ev.u
                   /\ ev.f \notin {READ, WRITE} => x.d = ev.d
TakeOne(a, k, ev) ==
  IF ~a.ok THEN a
  ELSE LET key == <<ev.f, ev.i>> IN
       IF key \in a.seen \/ key \notin DOMAIN Kn(a.S, k) THEN [a EXCEPT !.ok = FALSE]
       ELSE IF Ready(a.S, k, key) = "no" THEN [a EXCEPT !.ok = FALSE]
       ELSE LET p == IF ev.f = VNODE THEN ev.l ELSE ev.p IN
            IF ~EvMatchC(EventOf(a.S, k, key, p), ev) THEN [a EXCEPT !.ok = FALSE]
            ELSE [ok |-> TRUE, S |-> Deliver(a.S, k, key, p), seen |-> a.seen \union {key}]
Harvest(c, t) ==
  LET o == c.P[t].o  S == c.S  k == o.k  ne == c.P[t].ne  left == Room(o) - ne
      evs == SubSeq(o.ev, ne + 1, Len(o.ev))
      d == FoldLeft(LAMBDA a, ev : TakeOne(a, k, ev), [ok |-> TRUE, S |-> S, seen |-> {}], evs)
      full == Len(evs) + Hollow(S, k, d.seen) >= Need(S, k, left)
      rearm == {key \in d.seen : IsFd(key[1]) /\ (Has(Kn(S, k)[key].fl, ONESHOT) \/ Has(Kn(S, k)[key].fl, DISPATCH))}
      cut == {key \in d.seen : o.r = Room(o) /\ HasSib(S, k, key) /\ Sibling(S, k, key) \notin d.seen /\ Ready(S, k, Sibling(S, k, key)) /= "no"}
      d3 == FoldLeft(LAMBDA a, key : SibMay(a, k, key), d.S, SetToSeq(rearm) \o SetToSeq({Sibling(S, k, key) : key \in cut}))
      S3 == Scanned(d3, k, d.seen, full)
      reads == {j \in (ne + 1)..Len(o.ev) : o.ev[j].f = READ}
  IN IF k \in S.dy THEN Dying(c, t)
     ELSE IF o.r = -9 \/ o.t1 /= S.now \/ BadKq(S, k) THEN {}
     ELSE IF evs = <<>> /\ ~Leq(c.P[t].dl, S.now) THEN {}
     ELSE IF ~d.ok \/ (~full /\ ~(MustSet(S, k) \subseteq d.seen)) THEN {}
     ELSE {Settle([SetP(c, t, [c.P[t] EXCEPT !.ph = "har", !.todo = reads]) EXCEPT !.S = S3])}

Lin(c, t) == CASE c.P[t].ph = "inv" -> Start(c, t) [] c.P[t].ph = "in" -> Harvest(c, t) [] OTHER -> {}
RECURSIVE Close(_, _)
Close(front, all) ==
  LET new == (UNION {UNION {Lin(c, t) : t \in DOMAIN c.P} : c \in front}) \ all
  IN IF new = {} THEN all ELSE Close(new, all \union new)
Closure(C) == Close(C, C)

\* --- time passes: everybody is waiting for something that has not happened yet
\* KNOWN FINDING: a call on a kqueue somebody waits on is stuck behind that wait, and everything else behind it
SomeStuck(c) == \E t, u \in DOMAIN c.P : t /= u /\ c.P[t].ph = "inv" /\ c.P[t].o.op = "kev" /\ c.P[u].ph = "in" /\ c.P[u].o.k = c.P[t].o.k
Waiting(c, t) == c.P[t].ph = "in" /\ c.P[t].ne = 0 /\ MustSet(c.S, c.P[t].o.k) = {}
CanPass(c, t, now) ==
  \/ /\ Waiting(c, t)
     /\ Leq(now, Plus(MinT(NextExp(c.S, c.P[t].o.k), c.P[t].dl), Tol))
     /\ Lt(c.S.now, c.P[t].dl)
  \/ c.P[t].ph = "inv" /\ SomeStuck(c)
Pass(c, now) == IF \A t \in DOMAIN c.P : CanPass(c, t, now) THEN {[c EXCEPT !.S.now = now]} ELSE {}
\* nobody will ever go on
DeadOk(c) ==
  \A t \in DOMAIN c.P :
     \/ Waiting(c, t) /\ c.P[t].dl[1] >= FarAway /\ NextExp(c.S, c.P[t].o.k)[1] >= FarAway
     \/ c.P[t].ph = "inv" /\ SomeStuck(c)

Returned(c, t) == IF c.P[t].ph = "har" /\ c.P[t].todo = {} THEN {[c EXCEPT !.P = Rem(@, t)]} ELSE {}

\* all configurations after a record, from configuration c
RawNext(c, o) ==
  CASE o.op = "inv" -> {Invoke(c, o.th, o.o)}
    [] o.op = "ret" -> Returned(c, o.th)
    [] o.op = "fds" -> {[c EXCEPT !.S = [r.S EXCEPT !.dy = {}]] : r \in {x \in Steps(c.S, o) : x.ok}}
    [] o.op = "tick" -> Pass(c, o.t)
    [] o.op = "dead" -> IF DOMAIN c.P /= {} /\ DeadOk(c) THEN {[c EXCEPT !.P = NoP]} ELSE {}
    [] OTHER -> {Settle([c EXCEPT !.S = r.S]) : r \in {x \in Steps(c.S, o) : x.ok}}
ConfNext(C, o) ==
  LET R == UNION {RawNext(c, o) : c \in C} IN
  IF \A c \in R : DOMAIN c.P = {} THEN R ELSE Closure(R)
Why(C, o) ==
  CASE o.op = "ret" -> "the result of a concurrent call fits no order of the calls"
    [] o.op = "tick" -> "time passed although a call could have gone on"
    [] o.op = "dead" -> "the threads wait for each other, or for something that has already happened"
    [] o.op = "inv" -> "invoke"
    [] OTHER -> LET c == CHOOSE x \in C : TRUE IN (CHOOSE r \in Steps(c.S, o) : TRUE).why
=============================================================================
