------------------------------ MODULE KqTrace ------------------------------
(* Trace validation: every recorded operation must be a step that Kq (KqConc while several threads are at work)      *)
(* permits. A trace file holds many segments, each starting with a "reset" record; a segment that is not a behaviour *)
(* of the specification is noted in bad and the rest of it skipped, so one run reports every offending segment.      *)
EXTENDS KqConc, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
\* SS: the configurations the specification may be in after the operations seen so far (more than one only where a record
\* does not tell everything: after a cancelled call, a failed one, or while calls of several threads overlap)
VARIABLES pos, SS, bad
vars == <<pos, SS, bad>>
Init == pos = 1 /\ SS = {C0} /\ bad = <<>>
RECURSIVE SkipTo(_)
SkipTo(q) == IF q > Len(Log) \/ Log[q].op = "reset" THEN q ELSE SkipTo(q + 1)
Next ==
  /\ pos <= Len(Log)
  /\ LET o == Log[pos] IN
     IF o.op = "reset" THEN pos' = pos + 1 /\ SS' = {C0} /\ UNCHANGED bad
     ELSE LET good == ConfNext(SS, o)
          IN IF good /= {} THEN pos' = pos + 1 /\ SS' = good /\ UNCHANGED bad
             ELSE /\ pos' = SkipTo(pos + 1) /\ SS' = {C0}
                  /\ PrintT(<<"BAD", pos, Why(SS, o)>>)
                  /\ bad' = Append(bad, pos)
Spec == Init /\ [][Next]_vars
=============================================================================
