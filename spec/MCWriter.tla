----------------------------- MODULE MCWriter -----------------------------
(***************************************************************************)
(* Exhaustive exploration of GifWriter for small documents: calls in all    *)
(* orders, under writer faults.  What a call writes is given by a simple    *)
(* serializer (Bytes0), one of those which GifWriter allows -- that it is   *)
(* one of them is checked, too.                                             *)
(*                                                                          *)
(* The invariants say what the output means, in terms of Grammar.tla and of *)
(* the calls which were accepted.  Every complete behaviour's calls are     *)
(* printed, to be carried out by the real encoder; EncoderTrace.tla then    *)
(* judges what it did.                                                      *)
(***************************************************************************)
EXTENDS GifWriter, Samples, Json

CONSTANT Cases   \* sequence of [plan: sequence of sets of calls, faults: sequence]
ASSUME TLCSet(1, TLCEval(Cases))

VARIABLES
  cid,
  h   \* history: calls, acc: accepted ones, full: all bytes of all calls before
      \* an error of the writer, ok: neither a writer's error nor a failed closing
hvars == <<wvars, cid, h>>
Case == TLCGet(1)[cid]

-----------------------------------------------------------------------------
(* One way to write it *)

Log2Colors(pal) == The({k \in 0..7 : 2 ^ (k + 1) >= Colors(pal) /\ (k = 0 \/ 2 ^ k < Colors(pal))})
Padded(pal) == pal \o [i \in 1..(3 * (2 ^ (Log2Colors(pal) + 1) - Colors(pal))) |-> 0]

GceOf(f) == Gce(f.di, f.ui, f.dl, f.tr)

RECURSIVE Cut(_)
Cut(data) == IF data = <<>> THEN <<>>
             ELSE IF Len(data[1]) > 255 THEN <<SubSeq(data[1], 1, 255)>> \o Cut(<<SubSeq(data[1], 256, Len(data[1]))>> \o Tail(data))
             ELSE IF data[1] = <<>> THEN Cut(Tail(data))
             ELSE <<data[1]>> \o Cut(Tail(data))

Descriptor(f) ==
  <<44>> \o Le(f.l) \o Le(f.t) \o Le(f.w) \o Le(f.h)
    \o <<(IF f.il THEN 64 ELSE 0) + (IF f.hp THEN 128 + Log2Colors(f.pal) ELSE 0)>>
    \o (IF f.hp THEN Padded(f.pal) ELSE <<>>)

Bytes0(a) ==
  CASE a.c = "new" -> GIF89a \o Le(a.w) \o Le(a.h) \o <<128 + Log2Colors(a.gp), 0, 0>> \o Padded(a.gp)
    [] a.c = "rep" -> IF a.v = 0 THEN <<>> ELSE Looping(IF a.v = -1 THEN 0 ELSE a.v)
    [] a.c = "ctl" -> GceOf(a.f)
    [] a.c = "ctlraw" -> Ext(249, <<a.data>>)
    [] a.c = "raw" -> Ext(a.lb, Cut(a.data))
    [] a.c = "frame" -> GceOf(a.f) \o Descriptor(a.f) \o <<2>> \o Chop(Codes3(<<4>> \o Whole3(a.buf)), 3)
    [] a.c = "pre" -> GceOf(a.f) \o Descriptor(a.f)
                        \o (IF a.buf = <<>> THEN <<2, 0>> ELSE <<a.buf[1]>> \o Chop(Tail(a.buf), 255))
    [] a.c \in {"fin", "drop"} -> <<Trailer>>

Leftovers(a) == {<<>>} \union (IF a.c \in {"frame", "pre"} /\ a.f.di <= 3 THEN {GceOf(a.f)} ELSE {})

-----------------------------------------------------------------------------
MCInit ==
  /\ cid \in 1..Len(TLCGet(1)) /\ WriterInit(Case.faults)
  /\ h = [calls |-> <<>>, acc |-> <<>>, full |-> <<>>, ok |-> TRUE]

Open == wphase # "closed"

MCBegin ==
  /\ wpc = "idle" /\ Open /\ Len(h.calls) < Len(Case.plan)
  /\ \E a \in Case.plan[Len(h.calls) + 1] :
     \E b \in IF wphase = "broken" THEN {<<>>} ELSE IF Rejections(wdoc, a) = {} THEN {Bytes0(a)} ELSE Leftovers(a) :
       /\ BeginWrite(a, b)
       /\ h' = [h EXCEPT !.calls = Append(@, a), !.full = IF wphase = "broken" THEN @ ELSE @ \o b]
  /\ UNCHANGED cid

MCWrite ==
  /\ AcceptAll \/ WriterFault \/ (wpc = "any" /\ \E x \in (IF Closes(wcall) THEN {<<<<Trailer>>, "ok">>, <<<<>>, "Other">>} ELSE {<<<<>>, "ok">>}) : AfterFailure(x[1], x[2]))
  /\ UNCHANGED <<cid, h>>

MCReturn ==
  /\ WriterReturn
  /\ h' = [h EXCEPT !.acc = IF wret = "ok" /\ wphase # "broken" THEN Append(@, wcall) ELSE @,
                    !.ok = @ /\ (wphase # "broken") /\ (Closes(wcall) => wret = "ok" /\ Len(wout) = Len(h.full))]
  /\ UNCHANGED cid

MCDone ==
  /\ wpc = "idle" /\ h.calls # <<>>
  /\ ~Open \/ Len(h.calls) = Len(Case.plan)
  /\ PrintT("SCRIPT enc " \o ToJson([faults |-> Case.faults, calls |-> h.calls]))
  /\ wpc' = "end"
  /\ UNCHANGED <<wcall, wpend, wthen, wout, wfaults, wphase, wdoc, wret, cid, h>>

MCNext == MCBegin \/ MCWrite \/ MCReturn \/ MCDone
MCSpec == MCInit /\ [][MCNext]_hvars

-----------------------------------------------------------------------------
(* The properties *)

(* What this serializer writes is what GifWriter asks for. *)
SerializerAllowed == (wpc = "write" /\ h.ok) => h.full = wout \o wpend
BeginAllowed == [][wpc = "idle" /\ wpc' = "write" => Writes(wcall', wpend')]_hvars

(* C19: what was accepted is always a beginning of what the calls mean without faults. *)
PrefixRight == wphase # "broken" /\ h.ok => IsPrefix(wout, h.full)

(* C19: success means that everything was accepted, and in order. *)
OkRight == (wpc = "ret" /\ wret = "ok" /\ wphase # "broken" /\ h.ok /\ wcall.c # "drop") => wout = h.full

(* C18, C19: errors are the writer's or name what is wrong with the call. *)
AccDoc == FoldLeft(Documented, NoDoc, h.acc)
ErrorRight == (wpc = "ret" /\ wret # "ok" /\ h.ok) =>
  \/ \E i \in 1..Len(Case.faults) : Case.faults[i].k = wret /\ wret # "Interrupted"
  \/ wret \in Rejections(AccDoc, wcall)

(* C18: only the accepted calls count. *)
OnlyAccepted == (wpc = "idle" /\ h.ok) => wdoc = AccDoc

(* C16, C17, C18, C20, C22: the closed output is a file with exactly what was accepted. *)
Framing == SelectSeq(h.acc, LAMBDA a : a.c \in {"frame", "pre"})
(* loop counts given before the first frame *)
RECURSIVE Early(_, _)
Early(calls, n) == IF calls = <<>> \/ calls[1].c \in {"frame", "pre"} THEN n
                   ELSE Early(Tail(calls), IF calls[1].c = "rep" /\ calls[1].v # 0 THEN calls[1].v ELSE n)

DenotesFrame(x, a) ==
  LET f == a.f IN
  /\ x.l = f.l /\ x.t = f.t /\ x.w = f.w /\ x.h = f.h /\ x.il = f.il
  /\ x.hp = f.hp /\ TableFor(x.pal, IF f.hp THEN f.pal ELSE <<>>)
  /\ x.di = f.di /\ x.ui = f.ui /\ x.dl = f.dl /\ x.tr = f.tr
  /\ IF a.c = "frame" THEN LzwRun(x.m, x.data).pix = a.buf
     ELSE a.buf # <<>> => x.m = a.buf[1] /\ x.data = Tail(a.buf)

FileRight == (wpc = "idle" /\ wphase = "closed" /\ h.ok /\ h.acc # <<>>) =>
  \E x \in {File89a(wout)} :
  /\ x.ok
  /\ x.v.screen.w = h.acc[1].w /\ x.v.screen.h = h.acc[1].h
  /\ TableFor(x.v.screen.pal, h.acc[1].gp)
  /\ LoopBefore(x.v.blocks, 0) = Early(h.acc, 0) /\ wdoc.rep = Early(h.acc, 0)
  /\ \A i \in 1..Len(Framing) : Framing[i].f.hp \/ h.acc[1].gp # <<>>
  /\ \E fs \in {FramesOf(x.v.blocks, NoControl)} :
     /\ Len(fs) = Len(Framing)
     /\ \A i \in 1..Len(fs) : DenotesFrame(fs[i], Framing[i])

(* Every call returns. *)
Progress == wpc \in {"write", "any", "ret"} => ENABLED (MCWrite \/ MCReturn)

=============================================================================
