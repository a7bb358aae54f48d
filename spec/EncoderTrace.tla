---------------------------- MODULE EncoderTrace ----------------------------
(* Recorded histories of encoder calls, checked against GifWriter:            *)
(*   ev    the calls with a writer which never fails, their results and the    *)
(*         bytes written by each,                                              *)
(*   dec   what the real decoder makes of the output,                          *)
(*   runs  the same calls with a writer which fails or writes short.           *)
EXTENDS GifWriter, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES cid, run, l, st
tvars == <<wvars, cid, run, l, st>>

Case == Traces[cid]
Ref == Case.ev
Evs == IF run = 0 THEN Ref ELSE Case.runs[run].ev
Faults == IF run = 0 THEN <<>> ELSE Case.runs[run].faults

TraceInit ==
  /\ cid \in 1..Len(Traces) /\ run = 0 /\ l = 1 /\ st = "run" /\ WriterInit(<<>>)

Reject(what) ==
  /\ PrintT(<<"REJ", Case.id, run, l, what>>)
  /\ st' = "stuck" /\ UNCHANGED <<wvars, cid, run, l>>

Same == UNCHANGED <<cid, run, l, st>>

Running == st = "run" /\ l <= Len(Evs)

(* The call, as in the reference run *)
A == Ref[l]
Compress == A.c = "make"

(* Frame::make_lzw_pre_encoded *)
Made ==
  /\ Running /\ Compress /\ wpc = "idle"
  /\ IF run > 0 \/ (A.r = "ok" /\ Len(A.res) >= 1 /\ WellCoded(A.res[1], Tail(A.res), A.buf) /\ A.g = A.f)
     THEN l' = l + 1 /\ UNCHANGED <<wvars, cid, run, st>>
     ELSE Reject("make")

(* Dropping an encoder which couldn't be created or finished may add a trailer. *)
Extra(e) == IF (e.c = "new" /\ e.r # "ok") \/ (e.c = "fin" /\ e.r # "ok") THEN {<<>>, <<Trailer>>} ELSE {<<>>}

TraceCall ==
  /\ Running /\ ~Compress /\ wpc = "idle"
  /\ IF run > 0 \/ Writes(A, A.out)
     THEN BeginWrite(A, A.out) /\ Same
     ELSE Reject("bytes of the call")

TraceWrite == Running /\ (AcceptAll \/ WriterFault) /\ Same

(* Bytes accepted up to this call in this run *)
OutUpTo(k) == Concat([i \in 1..k |-> Evs[i].out])

TraceReturn ==
  /\ Running /\ wpc = "ret"
  /\ LET e == Evs[l] IN
     IF /\ e.r # "panic"
        /\ e.r = wret
        /\ \E x \in Extra([c |-> A.c, r |-> e.r]) : OutUpTo(l) = wout \o x
     THEN WriterReturn /\ l' = l + 1 /\ UNCHANGED <<cid, run, st>>
     ELSE FALSE

(* Anything but a panic; what was written is noted. *)
TraceAny ==
  /\ Running /\ wpc = "any"
  /\ AfterFailure(Evs[l].out, Evs[l].r)
  /\ Same

Explained == ENABLED TraceReturn \/ ENABLED TraceWrite \/ ENABLED TraceAny

Unexplained == Running /\ wpc # "idle" /\ ~Explained /\ Reject("result")

-----------------------------------------------------------------------------
(* What the decoder makes of it *)

DecFrameOk(x, e) ==
  LET f == x.f  g == e.f
      n == Area(f) IN
  /\ g.l = f.l /\ g.t = f.t /\ g.w = f.w /\ g.h = f.h
  /\ g.dl = f.dl /\ g.di = f.di /\ g.tr = f.tr /\ g.ui = f.ui
  /\ g.hp = f.hp /\ (f.hp => TableFor(g.pal, f.pal))
  /\ IF Len(x.pix) < n THEN e.r # "ok"
     ELSE \/ e.r = "ok" /\ e.buf = Display(x.pix, f.w, f.h, f.il)
          \* all the pixels are there, but what follows them is malformed
          \/ e.r = "InvalidData" /\ x.bad

DecodedOk(d) ==
  /\ d.r = "ok" /\ d.w = wdoc.w /\ d.h = wdoc.h /\ d.rep = wdoc.rep
  /\ wdoc.gct => TableFor(d.gp, wdoc.gp)
  /\ Len(d.frames) = Len(wdoc.frames)
  /\ \A i \in 1..Len(d.frames) : DecFrameOk(wdoc.frames[i], d.frames[i])
  /\ d.end = "none"

(* The output of calls which ended by closing is a complete file. *)
FileOk ==
  \E x \in {File89a(wout)} :
  /\ x.ok
  /\ Len(FramesOf(x.v.blocks, NoControl)) = Len(wdoc.frames)
  /\ LoopBefore(x.v.blocks, 0) = wdoc.rep

RefEnd ==
  /\ st = "run" /\ run = 0 /\ l = Len(Evs) + 1 /\ wpc = "idle"
  /\ IF \/ Ref[Len(Ref)].c \notin {"fin", "drop"}
        \/ FileOk /\ (Case.hasdec => DecodedOk(Case.dec))
     THEN /\ st' = "next" /\ UNCHANGED <<wvars, cid, run, l>>
     ELSE Reject("decoded")

RunEnd ==
  /\ st = "run" /\ run > 0 /\ l = Len(Evs) + 1 /\ wpc = "idle"
  /\ st' = "next" /\ UNCHANGED <<wvars, cid, run, l>>

NextRun ==
  /\ st = "next" /\ run < Len(Case.runs)
  /\ run' = run + 1 /\ l' = 1 /\ st' = "run"
  /\ wpc' = "idle" /\ wcall' = [c |-> "-"] /\ wpend' = <<>> /\ wthen' = "ok"
  /\ wout' = <<>> /\ wfaults' = Case.runs[run + 1].faults /\ wphase' = "unborn"
  /\ wdoc' = NoDoc /\ wret' = "-" /\ UNCHANGED cid

Accept ==
  /\ st = "next" /\ run = Len(Case.runs)
  /\ PrintT(<<"ACC", Case.id>>)
  /\ st' = "accepted" /\ UNCHANGED <<wvars, cid, run, l>>

TraceNext ==
  \/ Made \/ TraceCall \/ TraceWrite \/ TraceReturn \/ TraceAny \/ Unexplained
  \/ RefEnd \/ RunEnd \/ NextRun \/ Accept

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
