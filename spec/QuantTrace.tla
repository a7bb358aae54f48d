----------------------------- MODULE QuantTrace -----------------------------
(* Recorded calls of the frame constructors, checked against Quant.            *)
EXTENDS Quant, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES cid, l, st
tvars == <<cid, l, st>>

Case == Traces[cid]

Init == cid \in 1..Len(Traces) /\ l = 1 /\ st = "run"

Call ==
  /\ st = "run" /\ l <= Len(Case.ev)
  /\ IF ConstructorOk(Case.ev[l])
     THEN l' = l + 1 /\ UNCHANGED <<cid, st>>
     ELSE PrintT(<<"REJ", Case.id, l, Case.ev[l].c>>) /\ st' = "stuck" /\ UNCHANGED <<cid, l>>

Accept ==
  /\ st = "run" /\ l = Len(Case.ev) + 1
  /\ PrintT(<<"ACC", Case.id>>)
  /\ st' = "accepted" /\ UNCHANGED <<cid, l>>

Next == Call \/ Accept
Spec == Init /\ [][Next]_tvars
=============================================================================
