-------------------------------- MODULE Kq --------------------------------
(* Sequential specification of the libkqueue API: the kqueues of one process, the objects (pipes, sockets, files, *)
(* timers, signals, children) they watch, and the effect and the permitted outcome of every operation.            *)
(*                                                                                                                *)
(* All operators are pure functions of a state record S, so that the same text is used                            *)
(*   - by KqMC.tla  : exhaustive model checking of the properties on small configurations,                        *)
(*   - by KqGen.tla : generation of behaviours that are replayed on the real library,                             *)
(*   - by KqTrace.tla : validation of traces recorded from the real library.                                      *)
(*                                                                                                                *)
(* Times are <<sec, nsec>>; kevent.data is <<hi, lo>> = hi*10^9+lo (TLC integers are 32 bit); 64-bit identifiers   *)
(* and udata are strings; fflags is split into h (top 8 bits) and l (low 24 bits).                                *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, SequencesExt, TLC

\* ------------------------------------------------------------------ constants of <sys/event.h>
ADD == 1      DELETE == 2    ENABLE == 4     DISABLE == 8
ONESHOT == 16 CLEAR == 32    RECEIPT == 64   DISPATCH == 128
ERROR == 16384               EOF == 32768
READ == -1    WRITE == -2    VNODE == -4     PROC == -5
SIGNAL == -6  TIMER == -7    USER == -11     LIBKQ == -12
MAXKEV == 512
ENOENT == 2   EFAULT == 14   EINVAL == 22    ENOSYS == 38   EINTR == 4  EIO == 5

Has(x, b) == (x & b) /= 0
Clr(x, b) == IF Has(x, b) THEN x - b ELSE x      \* b: a single bit
Set(x, b) == x | b

\* ------------------------------------------------------------------ time and wide integers: <<hi, lo>>, 0 <= lo < 10^9
G == 1000000000
Zero == <<0, 0>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Sat == 2000000000                                \* TLC's integers have 32 bits
Plus(a, b) == IF a[1] >= Sat - b[1] - 1 THEN <<Sat, 0>> ELSE IF a[2] >= G - b[2] THEN <<a[1] + b[1] + 1, a[2] - (G - b[2])>> ELSE <<a[1] + b[1], a[2] + b[2]>>
Minus(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + (G - b[2])>>
Neg(a) == a[1] < 0
MinT(a, b) == IF Leq(a, b) THEN a ELSE b
MaxT(a, b) == IF Leq(a, b) THEN b ELSE a
Tol == <<0, 1000000>>                            \* a wait may return up to one millisecond late, never early
FarAway == 1500000000                            \* seconds; anything later counts as "never"
W(n) == IF n >= 0 THEN <<n \div G, n % G>> ELSE <<-1, G + n>>
\* quotient and remainder of two times by binary long division
RECURSIVE DivT(_, _)
DivT(a, p) == IF Lt(a, p) THEN <<Zero, a>>
              ELSE LET q == DivT(a, Plus(p, p))  t == Plus(q[1], q[1]) IN
                   IF Lt(q[2], p) THEN <<t, q[2]>> ELSE <<Plus(t, <<0, 1>>), Minus(q[2], p)>>

\* duration of a timer: data in units selected by fflags
Never == <<1600000000, 0>>                       \* anything beyond FarAway (TLC's integers have 32 bits)
Dur(d, l) ==
  CASE (l & 7) = 1 -> IF d[1] >= 1 THEN Never ELSE <<d[2], 0>>
    [] (l & 7) = 2 -> IF d[1] >= 1500000 THEN Never ELSE <<d[1] * 1000 + d[2] \div 1000000, (d[2] % 1000000) * 1000>>
    [] (l & 7) = 4 -> IF d[1] >= FarAway THEN Never ELSE d
    [] OTHER       -> IF d[1] >= 1500 THEN Never ELSE <<d[1] * 1000000 + d[2] \div 1000, (d[2] % 1000) * 1000000>>

\* ------------------------------------------------------------------ state
Init0 == [ kq |-> <<>>,                \* slot -> [open, notes]; notes: <<filter, ident>> -> knote
           en |-> <<>>,                \* object end -> record
           now |-> <<1000, 0>>,
           sig |-> <<>>,               \* pending signals: ident -> number queued
           blk |-> {},                 \* signals diverted from their handlers
           ch |-> <<>>,                \* children: [st: run|zomb|gone, code]
           ts |-> 1, fk |-> 1,         \* EVFILT_LIBKQUEUE settings
           dbg |-> 0,                  \* are debug messages produced,
           df |-> 0,                   \* by the debug function of the caller (1) or the default one (0),
           dd |-> FALSE,               \* and may the default one have written anything so far
           dy |-> {},                  \* kqueues closed while other threads may be using them: not torn down yet, perhaps
           cost |-> -1 ]

Put(f, k, v) == (k :> v) @@ f
Rem(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Kn(S, k) == S.kq[k].notes
SetKn(S, k, key, kn) == [S EXCEPT !.kq[k].notes = Put(@, key, kn)]
DelKn(S, k, key) == [S EXCEPT !.kq[k].notes = Rem(@, key)]

NoTm == [on |-> FALSE, next |-> Zero, per |-> Zero]
Blank == [fl |-> 0, h |-> 0, l |-> 0, d |-> Zero, u |-> "0",
          ed |-> "none",       \* fd knotes: is there activity not yet reported (none | may | must)
          trg |-> FALSE,       \* user knotes: triggered
          tm |-> NoTm,         \* timers
          live |-> "yes",      \* regular files: is the knote still armed (yes | may | no)
          vs |-> {},           \* vnode: possible [q: queued notifications, sz, nl: last known size and links]
          dead |-> FALSE,      \* the descriptor was closed behind the knote
          sv |-> 0]            \* full returns this knote was ready for and left out of
En(kn) == ~Has(kn.fl, DISABLE)
IsFd(f) == f \in {READ, WRITE}

\* ------------------------------------------------------------------ watched objects
Kind(S, i) == IF i \in DOMAIN S.en THEN S.en[i].t ELSE "none"
IsFile(S, i) == Kind(S, i) = "file"

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

\* readability condition of an end (EVFILT_READ), and the data and flags reported
PeerGone(S, e) == e.peer /= "" /\ ~S.en[e.peer].open
PeerShut(S, e) == e.peer /= "" /\ (S.en[e.peer].shut \/ ~S.en[e.peer].open)
Hup(S, e) == IF e.t \in {"stream", "seqp"} THEN PeerGone(S, e) \/ (e.shut /\ PeerShut(S, e)) ELSE FALSE
RCond(S, e) ==
  CASE e.t = "pr" -> e.q > 0 \/ PeerGone(S, e)
    [] e.t \in {"stream", "seqp"} -> e.q > 0 \/ PeerShut(S, e) \/ e.err /= 0
    [] e.t = "dgram" -> e.q > 0
    [] e.t = "listen" -> e.q > 0
    [] e.t = "evfd" -> e.q > 0
    [] e.t = "file" -> e.sz /= e.pos
    [] OTHER -> FALSE
REof(S, e) ==
  CASE e.t = "pr" -> PeerGone(S, e)
    [] e.t \in {"stream", "seqp"} -> PeerShut(S, e)
    [] OTHER -> FALSE
RData(e) ==
  CASE e.t \in {"listen", "evfd"} -> W(1)
    [] e.bpf -> W(1)                 \* a socket with a packet filter counts as passive
    [] e.t = "dgram" -> W(IF e.ms = <<>> THEN 0 ELSE Head(e.ms))
    [] e.t = "file" -> Minus(e.sz, e.pos)
    [] OTHER -> W(e.q)
\* writability: yes | no | may
WCond(S, e) ==
  CASE e.t = "pw" -> IF PeerGone(S, e) THEN "yes" ELSE e.wr
    [] e.t \in {"stream", "seqp"} -> IF Hup(S, e) \/ PeerGone(S, e) THEN "yes" ELSE e.wr
    [] e.t = "dgram" -> e.wr
    [] e.t \in {"evfd", "file"} -> "yes"
    [] OTHER -> "no"
WEof(S, e) ==
  CASE e.t = "pw" -> PeerGone(S, e)
    [] e.t \in {"stream", "seqp"} -> Hup(S, e)
    [] OTHER -> FALSE

\* can a descriptor filter be attached to this object at all?
CanWatch(S, f, i) == Kind(S, i) \notin {"none", "dir", "null"} /\ S.en[i].open

\* ------------------------------------------------------------------ is a knote ready?  no | may | must
Level(c) == IF c = "may" THEN "may" ELSE IF c = "yes" THEN "must" ELSE "no"
Sibling(S, k, key) == <<(IF key[1] = READ THEN WRITE ELSE READ), key[2]>>
HasSib(S, k, key) == IsFd(key[1]) /\ Sibling(S, k, key) \in DOMAIN Kn(S, k)
\* EV_CLEAR on one filter of a descriptor and not on the other: known finding, reported as level triggered
Mixed(S, k, key) == HasSib(S, k, key) /\ ~IsFile(S, key[2])
                    /\ Has(Kn(S, k)[key].fl, CLEAR) /= Has(Kn(S, k)[Sibling(S, k, key)].fl, CLEAR)

TmCount(tm, now) == IF ~tm.on \/ Lt(now, tm.next) THEN Zero
                    ELSE IF tm.per = Zero THEN <<0, 1>> ELSE Plus(DivT(Minus(now, tm.next), tm.per)[1], <<0, 1>>)

\* vnode: which notes does one queued notification produce, given the registered interest and the current metadata?
\* notes: 1 DELETE 2 WRITE 4 EXTEND 8 ATTRIB 16 LINK 32 RENAME
VNotes(l, c, e, q) ==
  LET meta == q \in {"attr", "mod"} IN
    (IF meta /\ e.nl = 0 /\ Has(l, 1) THEN 1 ELSE 0)
  + (IF q = "mod" /\ Has(l, 2) THEN 2 ELSE 0)
  + (IF meta /\ Lt(c.sz, e.sz) /\ (Has(l, 2) \/ Has(l, 4)) THEN 4 ELSE 0)
  + (IF q = "attr" /\ Has(l, 8) THEN 8 ELSE 0)
  + (IF meta /\ e.nl /= c.nl /\ Has(l, 16) THEN 16 ELSE 0)
  + (IF q = "ren" /\ Has(l, 32) THEN 32 ELSE 0)
RECURSIVE VStep(_, _, _)     \* consume queued notifications up to the first that produces notes: <<notes, rest>>
VStep(l, c, e) ==
  IF c.q = <<>> THEN <<0, c>>
  ELSE LET q == Head(c.q)
           n == VNotes(l, c, e, q)
           c2 == [c EXCEPT !.q = Tail(@), !.sz = IF q \in {"attr", "mod"} THEN e.sz ELSE @,
                           !.nl = IF q \in {"attr", "mod"} THEN e.nl ELSE @]
       IN IF n /= 0 THEN <<n, c2>> ELSE VStep(l, c2, e)
VOut(kn, e) == {VStep(kn.l, c, e) : c \in kn.vs}
VReady(kn, e) == LET o == VOut(kn, e) IN
                 IF \A x \in o : x[1] /= 0 THEN "must" ELSE IF \E x \in o : x[1] /= 0 THEN "may" ELSE "no"
VMask(l, q) == CASE q = "mod" -> Has(l, 2) \/ Has(l, 4)
                 [] q = "attr" -> Has(l, 1) \/ Has(l, 2) \/ Has(l, 4) \/ Has(l, 8) \/ Has(l, 16)
                 [] q = "ren" -> Has(l, 32)
                 [] OTHER -> TRUE          \* somebody else closed the file: watched, but never reported

SigPend(S, i) == IF i \in DOMAIN S.sig THEN S.sig[i] ELSE 0

FdReady(S, k, key, kn) ==
  LET e == S.en[key[2]]
      c == IF key[1] = READ THEN (IF RCond(S, e) THEN "yes" ELSE "no") ELSE WCond(S, e)
      lv == Level(c)
      c2 == IF e.t = "file" /\ key[1] = READ /\ kn.live /= "yes" /\ lv = "must" THEN "may" ELSE lv
  IN IF ~e.open THEN "no"
     ELSE IF ~Has(kn.fl, CLEAR) THEN c2
     ELSE IF Mixed(S, k, key) THEN (IF c2 = "must" /\ kn.ed /= "must" THEN "may" ELSE c2)
     ELSE CASE kn.ed = "none" -> "no" [] kn.ed = "may" -> (IF c2 = "no" THEN "no" ELSE "may") [] OTHER -> c2

Ready(S, k, key) ==
  LET kn == Kn(S, k)[key] IN
  IF ~En(kn) \/ kn.dead THEN "no"
  ELSE CASE IsFd(key[1]) -> FdReady(S, k, key, kn)
         [] key[1] = TIMER -> IF TmCount(kn.tm, S.now) /= Zero THEN "must" ELSE "no"
         [] key[1] = USER -> IF kn.trg THEN "must" ELSE "no"
         [] key[1] = SIGNAL -> IF SigPend(S, key[2]) > 0 THEN "must" ELSE "no"
         [] key[1] = PROC -> IF Has(kn.h, 128) /\ S.ch[key[2]].st /= "run" THEN "must" ELSE "no"
         [] key[1] = VNODE -> VReady(kn, S.en[key[2]])
         [] OTHER -> "no"

\* ------------------------------------------------------------------ the event a ready knote produces
Ev(key, fl, h, l, d, u) == [f |-> key[1], i |-> key[2], fl |-> fl, h |-> h, l |-> l, d |-> d, u |-> u]
EventOf(S, k, key, p) ==      \* p: what the environment decides: bytes queued for output (write), notes (vnode)
  LET kn == Kn(S, k)[key] IN
  CASE key[1] = READ ->
         LET e == S.en[key[2]] IN
         Ev(key, IF REof(S, e) \/ e.err /= 0 THEN Set(kn.fl, EOF) ELSE kn.fl, IF e.err /= 0 THEN 0 ELSE kn.h,
            IF e.err /= 0 THEN e.err ELSE kn.l, RData(e), kn.u)
    [] key[1] = WRITE ->
         LET e == S.en[key[2]]
             brk == e.t = "pw" /\ PeerGone(S, e)
         IN Ev(key, IF WEof(S, e) \/ e.err /= 0 THEN Set(kn.fl, EOF) ELSE kn.fl, IF e.err /= 0 \/ brk THEN 0 ELSE kn.h,
               IF e.err /= 0 THEN e.err ELSE IF brk THEN EIO ELSE kn.l,
               IF e.t = "file" \/ WEof(S, e) \/ e.err /= 0 THEN kn.d ELSE W(p), kn.u)
    [] key[1] = TIMER -> Ev(key, kn.fl, kn.h, kn.l, TmCount(kn.tm, S.now), kn.u)
    [] key[1] = USER -> Ev(key, kn.fl, kn.h & 62, kn.l, kn.d, kn.u)
    [] key[1] = SIGNAL -> Ev(key, kn.fl, kn.h, kn.l, W(1), kn.u)
    [] key[1] = PROC -> Ev(key, Set(kn.fl, EOF), kn.h, kn.l, W(IF S.ch[key[2]].st = "zomb" THEN S.ch[key[2]].code ELSE 0), kn.u)
    [] key[1] = VNODE -> LET n == {x[1] : x \in VOut(kn, S.en[key[2]])} \ {0} IN
                         Ev(key, kn.fl, 0, IF p \in n THEN p ELSE CHOOSE x \in n : TRUE, Zero, kn.u)

\* ------------------------------------------------------------------ effect of delivering it
TmAfter(tm, now) == IF tm.per = Zero THEN [tm EXCEPT !.on = FALSE]
                    ELSE [tm EXCEPT !.next = Minus(Plus(now, tm.per), DivT(Minus(now, tm.next), tm.per)[2])]
Disarm(key, kn) == [kn EXCEPT !.fl = Set(@, DISABLE), !.tm = NoTm, !.vs = {[x EXCEPT !.q = <<>>] : x \in @}, !.sv = 0]
SibMay(S, k, key) == IF HasSib(S, k, key) /\ ~IsFile(S, key[2])
                     THEN [S EXCEPT !.kq[k].notes[Sibling(S, k, key)].ed = IF @ = "none" THEN "may" ELSE @] ELSE S
Deliver(S, k, key, p) ==
  LET kn == Kn(S, k)[key]
      kn1 == CASE IsFd(key[1]) -> [kn EXCEPT !.ed = "none"]
               [] key[1] = TIMER -> [kn EXCEPT !.tm = TmAfter(@, S.now)]
               [] key[1] = USER -> [kn EXCEPT !.trg = ~(Has(kn.fl, CLEAR) \/ Has(kn.fl, DISPATCH) \/ Has(kn.fl, ONESHOT)),
                                              !.h = IF Has(kn.fl, CLEAR) \/ Has(kn.fl, DISPATCH) THEN Clr(@, 1) ELSE @]
               [] key[1] = VNODE -> [kn EXCEPT !.vs = {x[2] : x \in {y \in VOut(kn, S.en[key[2]]) : y[1] = p}}]
               [] OTHER -> kn
      S1 == CASE key[1] = SIGNAL -> [S EXCEPT !.sig = Put(@, key[2], SigPend(S, key[2]) - 1)]
              [] IsFd(key[1]) /\ S.en[key[2]].err /= 0 -> [S EXCEPT !.en[key[2]].err = 0]
              [] OTHER -> S
  IN IF Has(kn.fl, ONESHOT) THEN DelKn(SibMay(S1, k, key), k, key)
     ELSE IF Has(kn.fl, DISPATCH) THEN SetKn(SibMay(S1, k, key), k, key, Disarm(key, kn1))
     ELSE SetKn(S1, k, key, [kn1 EXCEPT !.sv = 0])

\* ------------------------------------------------------------------ changes
\* arming a knote (creation and enabling)
Arm(S, key, kn) ==
  CASE IsFd(key[1]) -> [kn EXCEPT !.ed = "must", !.live = "yes"]
    [] key[1] = TIMER ->
         LET t == Dur(kn.d, kn.l) IN
         [kn EXCEPT !.tm = [on |-> t /= Zero, next |-> IF Has(kn.l, 8) THEN t ELSE Plus(S.now, t),
                            per |-> IF Has(kn.fl, ONESHOT) THEN Zero ELSE t]]
    [] key[1] = VNODE -> [kn EXCEPT !.vs = {[x EXCEPT !.q = <<>>] : x \in @}]
    [] OTHER -> kn

\* outcome of one change: [S, rv, e, kev]; rv: ok | err | kev; e: set of permitted errno values
Ok(S) == [S |-> S, rv |-> "ok", e |-> {}, kev |-> <<>>]
Err(S, e) == [S |-> S, rv |-> "err", e |-> e, kev |-> <<>>]

\* identifiers that do not fit an int name no descriptor, process or signal
Wide(i) == SubSeq(i, 1, 1) = "#" /\ (Len(i) > 9 \/ (Len(i) = 9 /\ SubSeq(i, 2, 2) \notin {"0", "1", "2", "3", "4", "5", "6", "7"}))
CanCreate(S, c) ==
  CASE IsFd(c.f) -> CanWatch(S, c.f, c.i)
    [] c.f = VNODE -> c.i \in DOMAIN S.en /\ S.en[c.i].open /\ S.en[c.i].t \in {"file", "dir"} /\ S.en[c.i].nl > 0
    [] c.f = TIMER -> ~Neg(c.d)
    [] c.f = SIGNAL -> ~Wide(c.i)
    [] c.f = PROC -> ~Has(c.h, 128) \/ (c.i \in DOMAIN S.ch /\ S.ch[c.i].st /= "gone")
    [] OTHER -> TRUE

Create(S, k, c) ==
  LET key == <<c.f, c.i>>
      base == [Blank EXCEPT !.fl = Clr(c.fl, ENABLE), !.h = c.h, !.l = c.l, !.d = c.d, !.u = c.u]
      kn == CASE c.f = TIMER -> [base EXCEPT !.fl = Set(@, CLEAR)]
              [] c.f = SIGNAL -> [base EXCEPT !.fl = Set(@, CLEAR)]
              [] c.f = PROC -> IF Has(c.h, 128) THEN [base EXCEPT !.fl = Set(Set(@, CLEAR), ONESHOT)] ELSE base
              [] c.f = VNODE -> [base EXCEPT !.vs = {[q |-> <<>>, sz |-> S.en[c.i].sz, nl |-> S.en[c.i].nl]}]
              [] OTHER -> base
      kn2 == IF En(kn) THEN Arm(S, key, kn) ELSE kn
      S1 == SetKn(S, k, key, kn2)
      \* registering the other filter of a descriptor re-arms the shared kernel registration
      S2 == IF HasSib(S1, k, key) /\ ~IsFile(S, c.i)
            THEN [S1 EXCEPT !.kq[k].notes[Sibling(S1, k, key)].ed = IF @ = "none" THEN "may" ELSE @] ELSE S1
  IN IF c.f = SIGNAL THEN [S2 EXCEPT !.blk = @ \union {c.i}] ELSE S2

UserMod(kn, c) ==
  LET op == c.h & 192
      fh == c.h & 62                   \* NOTE_FFLAGSMASK keeps the low 24 bits only; NOTE_TRIGGER is handled apart
      k1 == CASE op = 64  -> [kn EXCEPT !.h = 0, !.l = @ & c.l]
              [] op = 128 -> [kn EXCEPT !.l = @ | c.l]
              [] op = 192 -> [kn EXCEPT !.h = 0, !.l = c.l]
              [] OTHER -> kn
  IN IF Has(c.h, 1) /\ En(kn) THEN [k1 EXCEPT !.trg = TRUE, !.h = Set(@, 1)] ELSE k1

Common(kn, c) == [kn EXCEPT !.u = c.u, !.fl = IF Has(c.fl, DISPATCH) THEN Set(@, DISPATCH) ELSE Clr(@, DISPATCH)]

CanEnable(S, key, kn) == ~(key[1] = TIMER /\ Neg(kn.d)) /\ ~(key[1] = VNODE /\ S.en[key[2]].nl = 0)
Enable1(S, k, key) ==
  LET kn == Kn(S, k)[key] IN
  IF En(kn) \/ ~CanEnable(S, key, kn) THEN S
  ELSE SibMay(SetKn(S, k, key, Arm(S, key, [kn EXCEPT !.fl = Clr(@, DISABLE)])), k, key)

\* EVFILT_LIBKQUEUE answers in place: the entry returned is the change with the answer in data (or udata)
\* fflags: 1 version, 2 version string, 3 thread safety, 4 fork cleanup, 5 debug messages
LibKq(S, k, c) ==
  LET key == <<c.f, c.i>>
      old == key \in DOMAIN Kn(S, k)
      fl == IF old THEN c.fl ELSE Clr(c.fl, ENABLE)
      ans == CASE c.l = 1 -> <<0, 33947904>> [] c.l = 3 -> <<0, S.ts>> [] c.l = 4 -> <<0, S.fk>> [] c.l = 5 -> <<0, S.dbg>> [] OTHER -> c.d
      on == IF ~Neg(c.d) /\ c.d /= Zero THEN 1 ELSE 0
      u == IF c.l = 2 THEN "*" ELSE c.u
      rc == Has(c.fl, RECEIPT) \/ c.l \in {1, 2}
      S1 == SetKn(S, k, key, [Blank EXCEPT !.fl = IF rc THEN Set(fl, RECEIPT) ELSE fl, !.h = c.h, !.l = c.l, !.d = ans, !.u = u])
      S2 == CASE c.l = 3 -> [S1 EXCEPT !.ts = on] [] c.l = 4 -> [S1 EXCEPT !.fk = on]
              [] c.l = 5 -> [S1 EXCEPT !.dbg = on, !.dd = @ \/ (on = 1 /\ S.df = 0)] [] OTHER -> S1
  IN IF c.h /= 0 \/ c.l \notin 1..5 THEN Err(S, IF old THEN 0..133 ELSE {EFAULT})
     ELSE IF rc THEN [S |-> S2, rv |-> "kev", e |-> {},
                      kev |-> Ev(key, Set(fl, RECEIPT), c.h, c.l, ans, u)]
     ELSE Ok(S2)

Modify(S, k, key, c) ==
  LET kn == Kn(S, k)[key] IN
  CASE key[1] = LIBKQ -> LibKq(S, k, c)
    [] key[1] = USER -> Ok(SetKn(S, k, key, Common(UserMod(kn, c), c)))
    [] key[1] = TIMER ->
         IF Neg(c.d) /\ En(kn) THEN Err(S, {EINVAL})
         ELSE LET k1 == [kn EXCEPT !.fl = Set(Clr(c.fl, ENABLE), CLEAR) | (kn.fl & DISABLE), !.h = c.h, !.l = c.l, !.d = c.d, !.tm = NoTm]
              IN Ok(SetKn(S, k, key, Common(IF En(kn) THEN Arm(S, key, k1) ELSE k1, c)))
    [] key[1] = PROC ->
         LET k1 == [kn EXCEPT !.h = c.h, !.l = c.l,
                    !.fl = (IF Has(c.h, 128) THEN Set(Set(Clr(c.fl, ENABLE), CLEAR), ONESHOT) ELSE Clr(c.fl, ENABLE)) | (@ & DISABLE)]
         IN IF Has(c.h, 128) /\ ~Has(kn.h, 128) /\ ~(key[2] \in DOMAIN S.ch /\ S.ch[key[2]].st /= "gone")
            THEN Err(S, 1..133)
            ELSE Ok(SetKn(S, k, key, Common(k1, c)))
    [] key[1] = VNODE -> IF S.en[key[2]].nl = 0 THEN Err(S, 1..133)
                         ELSE Ok(SetKn(S, k, key, Common([kn EXCEPT !.h = c.h, !.l = c.l], c)))
    [] IsFd(key[1]) /\ ~(CanWatch(S, key[1], key[2])) -> Err(S, 1..133)
    [] IsFd(key[1]) /\ kn.dead -> Ok(SibMay(SetKn(S, k, key, Arm(S, key, [Common(kn, c) EXCEPT !.dead = FALSE])), k, key))
    [] IsFd(key[1]) -> Ok(SibMay(SetKn(S, k, key, [Common(kn, c) EXCEPT !.ed = IF @ = "none" THEN "may" ELSE @,
                                                      !.live = IF @ = "no" /\ En(kn) THEN "may" ELSE @]), k, key))
    [] OTHER -> Ok(SetKn(S, k, key, Common(kn, c)))

\* EV_EOF and EV_ERROR only mean something in what kevent() returns; callers may pass such entries back
Apply(S, k, c0) ==
  LET c == [c0 EXCEPT !.fl = Clr(Clr(@, EOF), ERROR)]
      key == <<c.f, c.i>>
  IN
  IF Has(c.fl, DISPATCH) /\ Has(c.fl, ONESHOT) THEN Err(S, {EINVAL})
  ELSE IF c.f >= 0 \/ c.f < -12 THEN Err(S, {EINVAL})
  ELSE IF c.f \in {-3, -8, -9, -10} THEN Err(S, {ENOSYS})
  ELSE IF key \notin DOMAIN Kn(S, k) THEN
         IF ~Has(c.fl, ADD) THEN Err(S, {ENOENT})
         ELSE IF c.f = LIBKQ THEN LibKq(S, k, c)
         ELSE IF ~CanCreate(S, c) THEN Err(S, {EFAULT})
         ELSE Ok(Create(S, k, c))
  ELSE IF Has(c.fl, DELETE) THEN Ok(SibMay(DelKn(S, k, key), k, key))
  ELSE IF Has(c.fl, DISABLE) THEN
         Ok(SibMay(IF En(Kn(S, k)[key]) THEN SetKn(S, k, key, Disarm(key, Kn(S, k)[key])) ELSE S, k, key))
  ELSE IF (Has(c.fl, ENABLE) \/ Has(c.fl, ADD)) /\ ~En(Kn(S, k)[key]) /\ ~CanEnable(S, key, Kn(S, k)[key]) THEN Err(S, 1..133)
  ELSE LET S1 == IF Has(c.fl, ENABLE) \/ Has(c.fl, ADD) THEN Enable1(S, k, key) ELSE S
       IN IF Has(c.fl, ADD) \/ (~Has(c.fl, ENABLE) /\ (c.fl = 0 \/ Has(c.fl, RECEIPT))) THEN Modify(S1, k, key, c) ELSE Ok(S1)

\* ------------------------------------------------------------------ kevent(): changelist
\* fold state: [S, out: entries produced, st: run | noroom, e: errno set]
Entry(c, fl, d) == [f |-> c.f, i |-> c.i, fl |-> fl, h |-> c.h, l |-> c.l, d |-> d, u |-> c.u, es |-> {}]
ApplyOne(a, k, room, c) ==
  IF a.st /= "run" THEN a
  ELSE LET r == Apply(a.S, k, c)
           full == Len(a.out) >= room
       IN CASE r.rv = "err" ->
                 IF full THEN [a EXCEPT !.S = r.S, !.st = "noroom", !.e = r.e]
                 ELSE [a EXCEPT !.S = r.S, !.out = Append(@, [Entry(c, Set(c.fl, ERROR), Zero) EXCEPT !.es = r.e])]
            [] r.rv = "kev" ->
                 IF full THEN [a EXCEPT !.S = r.S, !.st = "noroom", !.e = {EFAULT}]
                 ELSE [a EXCEPT !.S = r.S, !.out = Append(@, r.kev @@ [es |-> {}])]
            [] Has(c.fl, RECEIPT) ->
                 IF full THEN [a EXCEPT !.S = r.S, !.st = "noroom", !.e = {EFAULT}]
                 ELSE [a EXCEPT !.S = r.S, !.out = Append(@, Entry(c, Set(c.fl, ERROR), Zero))]
            [] OTHER -> [a EXCEPT !.S = r.S]
CopyIn(S, k, room, cl) == FoldLeft(LAMBDA a, c : ApplyOne(a, k, room, c), [S |-> S, out |-> <<>>, st |-> "run", e |-> {}], cl)
\* change number fj failed inside the library: it is reported with some error number and has no effect (but the attempt may
\* re-arm the kernel registration shared with the other filter of the descriptor)
FailOne(a, k, room, c) ==
  IF a.st /= "run" THEN a
  ELSE IF Len(a.out) >= room THEN [a EXCEPT !.S = SibMay(@, k, <<c.f, c.i>>), !.st = "noroom", !.e = 1..133]
  ELSE [a EXCEPT !.S = SibMay(@, k, <<c.f, c.i>>), !.out = Append(@, [Entry(c, Set(c.fl, ERROR), Zero) EXCEPT !.es = 1..133])]
CopyInF(S, k, room, cl, fj) ==
  FoldLeft(LAMBDA a, j : IF j = fj THEN FailOne(a, k, room, cl[j]) ELSE ApplyOne(a, k, room, cl[j]),
           [S |-> S, out |-> <<>>, st |-> "run", e |-> {}], [j \in 1..Len(cl) |-> j])

SameU(x, y) == x = "*" \/ x = y
EntryMatch(x, ev) ==      \* x: expected entry, ev: returned kevent
  /\ x.f = ev.f /\ x.i = ev.i /\ x.fl = ev.fl /\ x.h = ev.h /\ x.l = ev.l /\ SameU(x.u, ev.u)
  /\ IF x.es = {} THEN ev.d = x.d ELSE ev.d[1] = 0 /\ ev.d[2] \in x.es
EvMatch(x, ev) == x.f = ev.f /\ x.i = ev.i /\ x.fl = ev.fl /\ x.h = ev.h /\ x.l = ev.l /\ x.d = ev.d /\ x.u = ev.u

\* ------------------------------------------------------------------ kevent(): delivery
\* a descriptor watched by both filters may take two slots, so the library asks the kernel for fewer descriptors
Lo2(a, b) == IF a < b THEN a ELSE b
Hi2(a, b) == IF a > b THEN a ELSE b
Dual(S, k) == Cardinality({key \in DOMAIN Kn(S, k) : key[1] = READ /\ HasSib(S, k, key) /\ ~IsFile(S, key[2])})
\* knotes whose kernel object is signalled but which have nothing to report
Hollow(S, k, seen) == Cardinality({key \in DOMAIN Kn(S, k) \ seen :
                   LET kn == Kn(S, k)[key] IN
                   En(kn) /\ ~kn.dead /\ ((key[1] = READ /\ IsFile(S, key[2]) /\ kn.live /= "no" /\ Ready(S, k, key) = "no")
                            \/ (key[1] = VNODE /\ Ready(S, k, key) /= "must"))})
Need(S, k, room) == Hi2(1, room - Lo2(Dual(S, k), room \div 2))
MustSet(S, k) == {key \in DOMAIN Kn(S, k) : Ready(S, k, key) = "must"}
MaySet(S, k) == {key \in DOMAIN Kn(S, k) : Ready(S, k, key) /= "no"}
StarveBound(S, k) == 2 * Cardinality(DOMAIN Kn(S, k)) + 2

\* one returned event: must be producible now, by a knote not yet reported in this call
DeliverOne(a, k, ev) ==
  IF ~a.ok THEN a
  ELSE LET key == <<ev.f, ev.i>> IN
       IF key \in a.seen \/ key \notin DOMAIN Kn(a.S, k) THEN [a EXCEPT !.ok = FALSE]
       ELSE IF Ready(a.S, k, key) = "no" THEN [a EXCEPT !.ok = FALSE]
       ELSE LET p == IF ev.f = VNODE THEN ev.l ELSE ev.p IN
            IF ~EvMatch(EventOf(a.S, k, key, p), ev) THEN [a EXCEPT !.ok = FALSE]
            ELSE [ok |-> TRUE, S |-> Deliver(a.S, k, key, p), seen |-> a.seen \union {key}]

\* the knotes that were looked at and had nothing to report lose their stale edges
Scanned(S, k, seen, full) ==
  [S EXCEPT !.kq[k].notes = [key \in DOMAIN @ |->
     LET kn == @[key] IN
     IF key \in seen \/ ~En(kn) THEN kn
     ELSE IF key[1] = VNODE /\ ~kn.dead /\ Ready(S, k, key) /= "must"
          THEN LET e == S.en[key[2]]
                   drop == {VStep(kn.l, c, e)[2] : c \in {x \in kn.vs : VStep(kn.l, x, e)[1] = 0}}
               IN [kn EXCEPT !.vs = IF full THEN @ \union drop ELSE drop, !.sv = 0]
     ELSE IF ~IsFd(key[1]) THEN (IF full /\ Ready(S, k, key) = "must" THEN [kn EXCEPT !.sv = @ + 1] ELSE [kn EXCEPT !.sv = 0])
     ELSE LET r == Ready(S, k, key)
              k1 == IF r = "no" /\ Has(kn.fl, CLEAR)
                    THEN [kn EXCEPT !.ed = IF full /\ @ /= "none" THEN "may" ELSE "none"] ELSE kn
              k2 == IF key[1] = READ /\ IsFile(S, key[2]) /\ r = "no"
                    THEN [k1 EXCEPT !.live = IF @ = "yes" THEN (IF full THEN "may" ELSE "no") ELSE @] ELSE k1
          IN IF full /\ r = "must" THEN [k2 EXCEPT !.sv = @ + 1] ELSE [k2 EXCEPT !.sv = 0]]]

NextExp(S, k) ==       \* earliest future expiry of an enabled timer of this kqueue (far away if none)
  LET T == {key \in DOMAIN Kn(S, k) : key[1] = TIMER /\ En(Kn(S, k)[key]) /\ Kn(S, k)[key].tm.on}
  IN IF T = {} THEN <<FarAway + 1, 0>>
     ELSE LET m == CHOOSE key \in T : \A o \in T : Leq(Kn(S, k)[key].tm.next, Kn(S, k)[o].tm.next) IN Kn(S, k)[m].tm.next

\* kevent() as one relation between the state, the call and its result. r.ok: is the result permitted; r.S: state after.
BadKq(S, k) == k \notin DOMAIN S.kq \/ ~S.kq[k].open
Reject(S) == [ok |-> FALSE, S |-> S, why |-> "reject"]
RejectW(S, w) == [ok |-> FALSE, S |-> S, why |-> w]
Accept(S) == [ok |-> TRUE, S |-> S, why |-> ""]

\* fj: the change hit by an injected failure (0: none)
KevStepF(S, o, fj) ==
  LET room == IF o.nul = 1 THEN 0 ELSE Lo2(o.n, MAXKEV)
      k == o.k
      ci == CopyInF(S, k, room, o.ch, fj)
      ne == Len(ci.out)
      S1 == ci.S
      left == room - ne
      deadline == IF o.to[1] < 0 \/ o.to[1] >= FarAway THEN <<FarAway, 0>> ELSE Plus(S.now, o.to)
      ready0 == MustSet(S1, k) /= {}
      S2 == [S1 EXCEPT !.now = o.t1]
      evs == SubSeq(o.ev, ne + 1, Len(o.ev))
      d == FoldLeft(LAMBDA a, ev : DeliverOne(a, k, ev), [ok |-> TRUE, S |-> S2, seen |-> {}], evs)
      need == Need(S2, k, left)
      full == Len(evs) + Hollow(S2, k, d.seen) >= need
      \* a one-shot or dispatched descriptor knote re-arms the kernel registration it shares with its sibling
      rearm == {key \in d.seen : IsFd(key[1]) /\ (Has(Kn(S2, k)[key].fl, ONESHOT) \/ Has(Kn(S2, k)[key].fl, DISPATCH))}
      \* ... and so does one whose sibling did not fit into the event list
      cut == {key \in d.seen : o.r = room /\ HasSib(S2, k, key) /\ Sibling(S2, k, key) \notin d.seen /\ Ready(S2, k, Sibling(S2, k, key)) /= "no"}
      d3 == FoldLeft(LAMBDA a, key : SibMay(a, k, key), d.S, SetToSeq(rearm) \o SetToSeq({Sibling(S2, k, key) : key \in cut}))
      S3 == Scanned(d3, k, d.seen, full)
      nx == NextExp(S1, k)
  IN IF o.cs = 1 THEN RejectW(S, "cancellation state of the thread changed")
     ELSE IF o.over = 1 \/ o.chg = 1 THEN RejectW(S, "memory outside the event list or the change list was written")
     ELSE IF o.t0 /= S.now THEN RejectW(S, "harness clock")
     ELSE IF o.n < 0 \/ o.bt = 1 THEN
            (IF o.r = -1 /\ o.e \in ({EINVAL} \union (IF BadKq(S, k) THEN {ENOENT} ELSE {})) /\ o.t1 = o.t0 THEN Accept(S)
             ELSE RejectW(S, "malformed argument not refused"))
     ELSE IF BadKq(S, k) THEN (IF o.r = -1 /\ o.e = ENOENT /\ o.t1 = o.t0 THEN Accept(S) ELSE RejectW(S, "call on something that is not a kqueue"))
     ELSE IF ci.st = "noroom" THEN
            (IF o.r = -1 /\ o.e \in ci.e /\ o.t1 = o.t0 THEN Accept(S1) ELSE RejectW(S, "no room to report a failed change"))
     ELSE IF o.r >= ne /\ o.r = Len(o.ev) /\ \E j \in 1..ne : ~EntryMatch(ci.out[j], o.ev[j]) THEN RejectW(S, "changelist entry")
     \* a failing wait: reported, and nothing is lost
     ELSE IF o.hit = 1 /\ fj = 0 /\ o.r = -1 /\ left > 0 THEN
            (IF o.e \in 1..133 /\ Leq(o.t0, o.t1) THEN Accept(S2) ELSE RejectW(S, "failure reported without errno"))
     ELSE IF o.hit = 1 /\ fj = 0 /\ ne > 0 /\ o.r = ne /\ left > 0 THEN Accept(S2)
     ELSE IF o.blk = 1 THEN
            (IF left > 0 /\ ne = 0 /\ ~ready0 /\ deadline[1] >= FarAway /\ nx[1] >= FarAway THEN Accept(Scanned(S2, k, {}, FALSE))
             ELSE RejectW(S, "blocked forever although something was ready or due"))
     ELSE IF o.r < ne \/ o.r > room \/ o.r /= Len(o.ev) THEN RejectW(S, "number of entries")
     ELSE IF left = 0 THEN (IF o.r = ne /\ o.t1 = o.t0 THEN Accept(S1) ELSE RejectW(S, "no room for events but waited or returned some"))
     ELSE IF ~Leq(o.t0, o.t1) THEN RejectW(S, "time")
     ELSE IF (ready0 \/ ne > 0) /\ o.t1 /= o.t0 THEN RejectW(S, "waited although there was something to return")
     ELSE IF o.t1 /= o.t0 /\ ~Leq(o.t1, Plus(MinT(nx, deadline), Tol)) THEN RejectW(S, "returned late")
     ELSE IF o.r = 0 /\ ~Leq(deadline, o.t1) THEN RejectW(S, "returned nothing before the timeout")
     ELSE IF ~d.ok THEN RejectW(S, "event that should not have been delivered, or with wrong contents")
     ELSE IF ~full /\ ~(MustSet(S2, k) \subseteq d.seen \union {key \in MustSet(S2, k) : key[1] = SIGNAL /\ key \notin MustSet(d.S, k)})
          THEN RejectW(S, "ready event not delivered")
     ELSE IF \E key \in DOMAIN Kn(S3, k) : Kn(S3, k)[key].sv > StarveBound(S3, k) THEN RejectW(S, "ready event starved")
     ELSE Accept(S3)

KevStep(S, o) == KevStepF(S, o, 0)

\* the calling thread was cancelled: in or around the wait, with the changes applied and nothing taken, or after everything
CancelWait(S, o) ==
  LET room == IF o.nul = 1 THEN 0 ELSE Lo2(o.n, MAXKEV)
      ci == CopyIn(S, o.k, room, o.ch)
      ne == Len(ci.out)
  IN IF BadKq(S, o.k) \/ o.n < 0 \/ o.bt = 1 THEN (IF o.r = 0 THEN Accept(S) ELSE Reject(S))
     ELSE IF o.over = 1 \/ o.chg = 1 \/ o.t0 /= S.now \/ ~Leq(o.t0, o.t1) THEN RejectW(S, "memory or clock")
     ELSE IF o.r /= ne \/ \E j \in 1..ne : ~EntryMatch(ci.out[j], o.ev[j]) THEN RejectW(S, "changelist entry of a cancelled call")
     ELSE Accept([ci.S EXCEPT !.now = o.t1])
\* ... having looked at what there is, without finding anything to report
Looked(o, x) ==
  IF ~x.ok \/ BadKq(x.S, o.k) \/ o.r >= (IF o.nul = 1 THEN 0 ELSE o.n) \/ MustSet(x.S, o.k) /= {} THEN x ELSE Accept(Scanned(x.S, o.k, {}, FALSE))
Cancelled(S, o) ==
  {CancelWait(S, o), Looked(o, CancelWait(S, o)), KevStep(S, o)} \union (IF o.ch /= <<>> /\ o.r = 0 THEN {Accept([S EXCEPT !.now = o.t1])} ELSE {})

\* ------------------------------------------------------------------ the environment
\* activity on an end makes edges: dir r (readable side), w (writable side); how: must | may
Edge(S, i, f, how) ==
  [S EXCEPT !.kq = [k \in DOMAIN @ |-> [@[k] EXCEPT !.notes = [key \in DOMAIN @ |->
      IF key[2] /= i \/ ~IsFd(key[1]) THEN @[key]
      ELSE IF key[1] = f THEN [@[key] EXCEPT !.ed = IF @ = "must" \/ how = "must" THEN "must" ELSE "may"]
      \* a wakeup of a registration shared by both filters may report the other one again
      ELSE IF <<f, i>> \in DOMAIN @ THEN [@[key] EXCEPT !.ed = IF @ = "none" THEN "may" ELSE @]
      ELSE @[key]]]]]
EdgeMay(S, i, f) == Edge(S, i, f, "may")

E0 == [t |-> "none", open |-> TRUE, peer |-> "", q |-> 0, ms |-> <<>>, shut |-> FALSE, wr |-> "yes", err |-> 0,
       sz |-> Zero, pos |-> Zero, nl |-> 1, out |-> 0, nm |-> 0, bpf |-> FALSE]
MkPair(S, a, b, ta, tb) == [S EXCEPT !.en = Put(Put(@, a, [E0 EXCEPT !.t = ta, !.peer = b]), b, [E0 EXCEPT !.t = tb, !.peer = a])]
Mk(S, o) ==
  LET n == "@" \o o.o IN
  CASE o.kind = "pipe" -> MkPair(S, n \o "r", n \o "w", "pr", "pw")
    [] o.kind \in {"stream", "dgram", "seqp"} -> MkPair(S, n \o "a", n \o "b", o.kind, o.kind)
    [] o.kind = "dgramf" -> LET S1 == MkPair(S, n \o "a", n \o "b", "dgram", "dgram") IN
                            [S1 EXCEPT !.en[n \o "a"].bpf = TRUE, !.en[n \o "b"].bpf = TRUE]
    [] o.kind = "file" -> [S EXCEPT !.en = Put(@, n, [E0 EXCEPT !.t = "file", !.sz = W(o.v)])]
    [] OTHER -> [S EXCEPT !.en = Put(@, n, [E0 EXCEPT !.t = o.kind])]

IsPkt(e) == e.t \in {"dgram", "seqp"}
SmallQ == 4096
\* data moved from end i to its peer; n bytes; full: the writer was filled up
Send(S, i, n, full) ==
  LET e == S.en[i]  p == e.peer IN
  IF e.t = "evfd" THEN Edge([S EXCEPT !.en[i].q = @ + n], i, READ, "must")
  ELSE LET nq == S.en[p].q + n
           nm == S.en[p].nm + 1
           S1 == [S EXCEPT !.en[p].q = nq, !.en[p].ms = IF ~IsPkt(e) THEN @ ELSE IF full THEN @ \o [j \in 1..(n \div 4096) |-> 4096] ELSE Append(@, n),
                           !.en[p].nm = nm,
                           !.en[i].wr = IF full THEN "no" ELSE IF @ = "yes" /\ nq <= SmallQ /\ nm <= 8 THEN "yes" ELSE "may"]
       IN IF n = 0 THEN S1 ELSE EdgeMay(EdgeMay(Edge(S1, p, READ, "must"), p, WRITE), i, WRITE)
\* data taken out of end i
Take(S, i, n, msgs, all) ==
  LET e == S.en[i]  p == e.peer IN
  IF e.t = "evfd" THEN EdgeMay([S EXCEPT !.en[i].q = 0], i, WRITE)
  ELSE LET S1 == [S EXCEPT !.en[i].q = @ - n, !.en[i].ms = IF all THEN <<>> ELSE SubSeq(@, msgs + 1, Len(@)),
                           !.en[i].nm = IF all THEN 0 ELSE @,
                           !.en[p].wr = IF all THEN "yes" ELSE IF @ = "no" THEN "may" ELSE @]
           S2 == IF all /\ S.en[p].wr = "no" THEN Edge(S1, p, WRITE, "must") ELSE EdgeMay(S1, p, WRITE)
       IN S2
Dead(S, i) == [S EXCEPT !.kq = [k \in DOMAIN @ |-> [@[k] EXCEPT !.notes = [key \in DOMAIN @ |->
      IF key[2] = i /\ (IsFd(key[1]) \/ key[1] = VNODE) THEN [@[key] EXCEPT !.dead = TRUE] ELSE @[key]]]]]
CloseEnd(S, i) ==
  LET e == S.en[i]  p == e.peer
      S1 == Dead([S EXCEPT !.en[i].open = FALSE], i)
  IN IF p = "" THEN S1
     ELSE LET S2 == IF e.t \in {"stream", "seqp"} /\ e.q > 0 /\ S.en[p].open THEN [S1 EXCEPT !.en[p].err = 104] ELSE S1
          IN Edge(Edge(S2, p, READ, "must"), p, WRITE, "must")
\* the name of a closed end is about to be given to a new object
Orphan(S, i) == [S EXCEPT !.en = Put([x \in DOMAIN @ |-> IF @[x].peer = i THEN [@[x] EXCEPT !.peer = "@gone"] ELSE @[x]], "@gone", [E0 EXCEPT !.open = FALSE])]
VNotify(S, i, q) ==
  [S EXCEPT !.kq = [k \in DOMAIN @ |-> [@[k] EXCEPT !.notes = [key \in DOMAIN @ |->
      IF key[1] = VNODE /\ key[2] = i /\ En(@[key]) /\ VMask(@[key].l, q)
      THEN [@[key] EXCEPT !.vs = {IF c.q /= <<>> /\ c.q[Len(c.q)] = q THEN c ELSE [c EXCEPT !.q = Append(@, q)] : c \in @}]
      ELSE @[key]]]]]
FAct(S, i) == EdgeMay(EdgeMay(S, i, READ), i, WRITE)

\* ------------------------------------------------------------------ operations other than kevent()
NotifyMod(S, i) == VNotify(FAct(S, i), i, "mod")
RtSig(n) == n >= 32
Closed(S, k) == [S EXCEPT !.kq[k].open = FALSE, !.kq[k].notes = <<>>]

\* descriptors the library may hold: a fixed number per open kqueue plus at most one per registration
NKn(S, k) == IF S.kq[k].open THEN Cardinality(DOMAIN Kn(S, k)) ELSE 0
OwnKqs(S, p) == {k \in DOMAIN S.kq : IF p = "" THEN \A j \in 1..Len(k) : SubSeq(k, j, j) /= "/"
                                      ELSE Len(k) > Len(p) /\ SubSeq(k, 1, Len(p)) = p}
FdMin(S, p, cost) == cost * Cardinality({k \in OwnKqs(S, p) : S.kq[k].open})
FdMax(S, p, cost) == LET ks == SetToSeq(OwnKqs(S, p)) IN FdMin(S, p, cost) + SumSeq([j \in 1..Len(ks) |-> NKn(S, ks[j])])

EnvStep(S, o) ==
  CASE o.op = "kq" ->
         IF o.cs = 1 THEN RejectW(S, "cancellation state of the thread changed")
         ELSE IF o.r = 0 THEN (IF o.dup = 1 THEN RejectW(S, "kqueue() returned a descriptor that is in use")
                          ELSE Accept([S EXCEPT !.kq = Put(@, o.k, [open |-> TRUE, notes |-> <<>>]), !.dy = @ \ {o.k}]))
         ELSE IF o.hit = 1 THEN Accept(S) ELSE RejectW(S, "kqueue() failed")
    [] o.op = "clk" -> LET S1 == Closed(S, o.k) IN Accept(IF o.par = 1 THEN [S1 EXCEPT !.dy = @ \union {o.k}] ELSE S1)
    [] o.op = "mk" -> Accept(Mk(S, o))
    \* a thread forked while others were at work: what the child saw (kqh.c, forked())
    [] o.op = "cfk" -> IF o.r = 0 THEN Accept(S) ELSE RejectW(S, "a child forked while other threads were in the library: its parent's kqueues, or its own, do not behave")
    [] o.op \in {"hi", "hifd", "lim"} -> Accept(S)
    [] o.op = "wr" -> IF o.r < 0 THEN Accept(IF S.en[o.o].t = "evfd" THEN S
                                             ELSE EdgeMay([S EXCEPT !.en[o.o].wr = IF @ = "yes" THEN "may" ELSE @,
                                                            !.en[o.o].err = IF S.en[o.o].t = "seqp" THEN 0 ELSE @], S.en[o.o].peer, READ))
                      ELSE Accept(Send(S, o.o, o.r, FALSE))
    [] o.op = "fill" -> Accept(IF S.en[o.o].shut THEN S ELSE EdgeMay(Send(S, o.o, o.r, TRUE), S.en[o.o].peer, READ))
    [] o.op = "rd" -> IF o.r <= 0 THEN Accept([S EXCEPT !.en[o.o].err = IF o.r < 0 THEN 0 ELSE @]) ELSE Accept(Take(S, o.o, o.r, 1, o.r = S.en[o.o].q))
    [] o.op = "drain" -> LET S1 == [S EXCEPT !.en[o.o].err = 0] IN     \* the first read of a reset socket fails
                         Accept(IF o.r = S.en[o.o].q THEN Take(S1, o.o, o.r, 0, TRUE) ELSE S1)
    [] o.op = "re" -> LET S0 == Orphan(S, o.o) IN
                      Accept(IF o.kind = "evfd" THEN [S0 EXCEPT !.en = Put(@, o.o, [E0 EXCEPT !.t = "evfd"])]
                             ELSE MkPair(S0, o.o, o.p, o.kind, CASE o.kind = "pr" -> "pw" [] o.kind = "pw" -> "pr" [] OTHER -> o.kind))
    [] o.op = "shut" -> LET S1 == [S EXCEPT !.en[o.o].shut = TRUE]  p == S.en[o.o].peer IN
                        Accept(EdgeMay(EdgeMay(EdgeMay(Edge(S1, p, READ, "must"), p, WRITE), o.o, WRITE), o.o, READ))
    [] o.op = "cl" -> Accept(CloseEnd(S, o.o))
    [] o.op = "conn" -> Accept(IF o.r = 0 THEN Edge([S EXCEPT !.en[o.o].q = @ + 1], o.o, READ, "must") ELSE S)
    [] o.op = "acc" -> Accept(IF o.r = 0 THEN [S EXCEPT !.en[o.o].q = @ - 1] ELSE S)
    [] o.op = "adv" -> Accept([S EXCEPT !.now = o.t])
    [] o.op = "sig" ->
         IF o.h /= (IF o.i \in S.blk THEN 0 ELSE 1) THEN RejectW(S, "signal diverted from (or leaked to) its handler")
         ELSE IF o.i \notin S.blk THEN Accept(S)
         ELSE Accept([S EXCEPT !.sig = Put(@, o.i, IF RtSig(o.s) THEN SigPend(S, o.i) + 1 ELSE 1)])
    [] o.op = "fork" -> Accept([S EXCEPT !.ch = Put(@, o.c, [st |-> "run", code |-> 0])])
    [] o.op = "exit" -> Accept([S EXCEPT !.ch[o.c] = [st |-> "zomb", code |-> o.v * 256]])
    [] o.op = "killc" -> Accept([S EXCEPT !.ch[o.c] = [st |-> "zomb", code |-> o.v]])
    [] o.op = "reap" -> LET c == S.ch[o.c] IN
         IF c.st = "zomb" THEN (IF o.r = 1 /\ o.st = c.code THEN Accept([S EXCEPT !.ch[o.c].st = "gone"])
                                ELSE RejectW(S, "exit status of a watched child was taken from its parent"))
         ELSE Accept(S)
    [] o.op \in {"fw", "fp"} -> Accept(NotifyMod([S EXCEPT !.en[o.o].sz = o.sz], o.o))
    [] o.op = "fseek" -> IF o.r /= 0 THEN Accept(S) ELSE Accept(FAct([S EXCEPT !.en[o.o].pos = o.v], o.o))
    [] o.op = "ftrunc" -> IF o.r /= 0 THEN Accept(S) ELSE Accept(NotifyMod([S EXCEPT !.en[o.o].sz = o.v], o.o))
    [] o.op = "chmod" -> Accept(VNotify(S, o.o, "attr"))
    [] o.op = "link" -> Accept(IF o.r = 0 THEN VNotify([S EXCEPT !.en[o.o].nl = @ + 1], o.o, "attr") ELSE S)
    [] o.op \in {"ulink", "unlink"} -> Accept(IF o.r = 0 THEN VNotify([S EXCEPT !.en[o.o].nl = @ - 1], o.o, "attr") ELSE S)
    [] o.op = "ren" -> Accept(VNotify(S, o.o, "ren"))
    [] o.op \in {"touch", "touchw"} -> Accept(VNotify(S, o.o, o.op))
    [] o.op \in {"fault", "skip"} -> Accept(S)
    [] o.op = "pexit" -> IF o.r = 0 THEN Accept(S) ELSE RejectW(S, "a forked child did not end as it should have")
    \* fork(): with clean-up on, the child has none of the descriptors; with clean-up off all of them
    [] o.op = "pfork" -> IF o.open = (IF S.fk = 1 THEN 0 ELSE o.kqs) THEN Accept(S) ELSE RejectW(S, "kqueue descriptors open in a forked child")
    \* a program started with exec() gets none of the library's descriptors
    [] o.op = "exec" -> IF o.n <= 0 THEN Accept(S) ELSE RejectW(S, "descriptors of the library would be passed to a program started with exec()")
    [] o.op = "fds" -> IF (o.p = "" /\ o.n < FdMin(S, o.p, o.cost)) \/ o.n > FdMax(S, o.p, o.cost) THEN RejectW(S, "descriptors held by the library")
                       ELSE IF o.mem # 0 THEN RejectW(S, "memory held by the library") ELSE Accept(S)
    \* debug messages: the environment the library starts in, the prefix, and the function they are handed to
    [] o.op = "dbge" -> Accept([S EXCEPT !.dbg = o.on, !.dd = o.on = 1])
    [] o.op \in {"dbgp", "dbgf"} ->
         IF o.r /= o.rc THEN RejectW(S, "setting of the debug messages refused")
         ELSE LET S1 == SetKn(S, o.k, <<LIBKQ, "#0">>, Blank) IN
              Accept(IF o.op = "dbgp" THEN S1 ELSE [S1 EXCEPT !.df = o.v, !.dd = @ \/ (o.v = 0 /\ S.dbg = 1)])
    \* exit(): nothing the library does may keep the process from ending with its own status
    [] o.op = "bg" -> Accept(S)
    [] o.op = "quit" -> IF o.r = o.v THEN Accept(S) ELSE RejectW(S, "the process did not end as it should have")
    [] o.op = "crash" -> RejectW(S, "the process crashed")
    [] o.op = "hang" -> RejectW(S, "the call never returned")
    [] OTHER -> RejectW(S, "unknown operation")

Step(S, o) == IF o.op = "kev" THEN KevStep(S, o) ELSE EnvStep(S, o)
\* Debug messages: none while they are off; while they are on, every call on a kqueue produces some, with the prefix that is
\* set and through the function that is set. They change nothing else, whatever that function does.
DbgOk(S, S2, o) ==
  /\ o.dx = 0
  /\ (S.dbg = 0 /\ S2.dbg = 0 /\ ~(o.op = "kev" /\ \E j \in 1..Len(o.ch) : o.ch[j].f = LIBKQ /\ o.ch[j].l = 5)) => o.dm = 0
  /\ ~S2.dd => o.se <= 0
  /\ (S.dbg = 1 /\ S2.dbg = 1 /\ o.op = "kev" /\ o.r >= 0) => IF S.df = 1 THEN o.dm = 1 ELSE o.dm = 0 /\ o.se /= 0
WithDbg(S, o, R) == IF "dx" \notin DOMAIN o THEN R
                    ELSE {IF x.ok /\ ~DbgOk(S, x.S, o) THEN RejectW(S, "debug messages that should (not) be there, or with a wrong prefix") ELSE x : x \in R}
\* all ways in which the recorded operation can be understood
Steps0(S, o) ==
  IF o.op = "kev" /\ o.cx = 1 THEN Cancelled(S, o)
  ELSE IF o.op = "kev" /\ o.hit = 1 THEN
         LET R == {<<j, KevStepF(S, o, j)>> : j \in 0..Len(o.ch)} IN
         {x[2] : x \in R} \union (IF o.r = -1 /\ o.n > 0 THEN {Looked(o, x[2]) : x \in R} ELSE {})
         \* a signal filter that is added disabled and fails half-way: the signal may stay diverted, as after a deletion
         \union {[x[2] EXCEPT !.S.blk = @ \union {o.ch[x[1]].i}] : x \in {y \in R : y[1] > 0 /\ o.ch[y[1]].f = SIGNAL /\ Has(o.ch[y[1]].fl, DISABLE)}}
  ELSE {Step(S, o)}
Steps(S, o) == WithDbg(S, o, Steps0(S, o))
=============================================================================
