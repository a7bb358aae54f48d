---------------------------- MODULE FrameDecTrace ----------------------------
(* Recorded calls of FrameDecoder; see FrameDec.tla. *)
EXTENDS FrameDec, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES cid, l, st,
          gp    \* global palette
tvars == <<cid, l, st, gp>>

Case == Traces[cid]
Opt == Case.opt
Sentinel == 170

SameMeta(f, g) ==
  /\ f.l = g.l /\ f.t = g.t /\ f.w = g.w /\ f.h = g.h
  /\ f.dl = g.dl /\ f.di = g.di /\ f.tr = g.tr /\ f.ui = g.ui
  /\ f.hp = g.hp /\ f.pal = g.pal

EventOk(e) ==
  \E L \in {FdLzw(e.data)} :
  /\ e.r \in FdResults(Opt, e.f, e.data, e.n, L)
  /\ e.bs = FdSize(Opt, e.f)
  /\ SameMeta(e.f, e.g)
  /\ Opt.mem < 0 \/ e.n >= 0 \/ (e.pk - 200000) \div 6 <= Opt.mem
  /\ IF e.n < 0
     THEN IF e.r = "ok" THEN ~e.g.il /\ Len(e.buf) = FdSize(Opt, e.f) /\ FdBufOk(Opt, e.f, gp, L, e.buf, 0)
          ELSE e.g.il = e.f.il /\ e.buf = e.data     \* unchanged
     ELSE /\ e.g.il = e.f.il
          /\ e.r = "ok" =>
               /\ FdBufOk(Opt, e.f, gp, L, e.buf, -1)
               /\ \A i \in (FdSize(Opt, e.f) + 1)..Len(e.buf) : e.buf[i] = Sentinel

Init == cid \in 1..Len(Traces) /\ l = 1 /\ st = "run" /\ gp = <<>>

(* set_global_palette *)
SetPalette ==
  /\ st = "run" /\ l <= Len(Case.ev) /\ "set" \in DOMAIN Case.ev[l]
  /\ gp' = Case.ev[l].set /\ l' = l + 1 /\ UNCHANGED <<cid, st>>

Call ==
  /\ st = "run" /\ l <= Len(Case.ev) /\ "set" \notin DOMAIN Case.ev[l]
  /\ IF Case.ev[l].r # "panic" /\ EventOk(Case.ev[l])
     THEN l' = l + 1 /\ UNCHANGED <<cid, st, gp>>
     ELSE PrintT(<<"REJ", Case.id, l, "call">>) /\ st' = "stuck" /\ UNCHANGED <<cid, l, gp>>

Accept ==
  /\ st = "run" /\ l = Len(Case.ev) + 1
  /\ PrintT(<<"ACC", Case.id>>)
  /\ st' = "accepted" /\ UNCHANGED <<cid, l, gp>>

Next == SetPalette \/ Call \/ Accept
Spec == Init /\ [][Next]_tvars
=============================================================================
