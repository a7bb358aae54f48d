----------------------------- MODULE MCDecoder -----------------------------
(***************************************************************************)
(* Exhaustive exploration of GifDecoder for small files: all calls in all   *)
(* orders (as far as the case's plan allows), under the case's read faults. *)
(* The invariants are the decoder's properties, stated in terms of the      *)
(* file's structure as given by Grammar.tla -- of the complete file, if the *)
(* case's file is a part of one.                                            *)
(*                                                                          *)
(* Every complete behaviour's calls are printed, to be carried out by the   *)
(* real decoder; DecoderTrace.tla then judges what it did.                  *)
(***************************************************************************)
EXTENDS GifDecoder, FrameDec, Samples, Json

G == INSTANCE Grammar

CONSTANT Cases
\* evaluated just once
ASSUME TLCSet(1, TLCEval(Cases))
MCCase(i) == TLCGet(1)[i]

VARIABLE h   \* history: n frames reached, calls made, k: number of pixels handed out of
             \* the current frame, none: the end was reported, fail: an error was
hvars == <<vars, h>>

NoOpt == [mem |-> -1, rgba |-> FALSE, skip |-> FALSE, endc |-> FALSE, unk |-> FALSE, cons |-> FALSE]

(* What the complete file denotes; unknown if the strict grammar doesn't describe it. *)
(* (Sets of one element: TLC evaluates each expression once.)                         *)
DocOf(whole) ==
  The({IF ~x.ok \/ \E i \in 1..Len(x.v.blocks) : G!OddControl(x.v.blocks[i]) THEN [known |-> FALSE]
       ELSE [known |-> TRUE, clean |-> \A i \in 1..Len(x.v.blocks) : x.v.blocks[i].k = "ext" => x.v.blocks[i].id \in KnownLabels, screen |-> x.v.screen, frames |-> G!FramesOf(x.v.blocks, G!NoControl),
             odd |-> \E i \in 1..Len(x.v.blocks) : G!OddLoop(x.v.blocks[i]),
             loop |-> G!LoopBefore(x.v.blocks, 0)] : x \in {G!File89a(whole)}})

MkCase(file, whole, opt, faults, plan) ==
  The(UNION {{[file |-> f, opt |-> opt, faults |-> faults, plan |-> plan, whole |-> f = w, doc |-> d]
              : d \in {DocOf(w)}} : f \in {file}, w \in {whole}})

Doc == Case.doc

(* The call with the actual size of the buffer: rib's d is relative to the frame's *)
Sized(c) == IF c.c = "rib" THEN [c |-> "rib", n |-> Max2(0, BufSize(dec.frame) + c.d)]
            ELSE IF c.c = "fill" THEN [c |-> "fill", n |-> c.d * Bpp]
            ELSE IF c.c = "raw" THEN [c |-> "fill", n |-> c.d]
            ELSE [c |-> c.c]

C(c) == [c |-> c, d |-> 0]
N(c, d) == [c |-> c, d |-> d]

MCInit ==
  /\ cid \in 1..Len(TLCGet(1)) /\ DecoderInit
  /\ h = [n |-> 0, calls |-> <<>>, k |-> 0, none |-> FALSE, fail |-> FALSE]

MCBegin ==
  /\ Len(h.calls) <= Len(Case.plan)
  /\ \E c \in IF h.calls = <<>> THEN {C("new")} ELSE Case.plan[Len(h.calls)] :
       /\ Begin(Sized(c))
       /\ h' = [h EXCEPT !.calls = Append(@, c)]

MCRun ==
  /\ Run
  /\ h' = IF ev.e = "meta" /\ ev'.e = "none"
          THEN [h EXCEPT !.n = @ + 1, !.k = 0] ELSE h

MCFinish ==
  /\ Finish
  /\ h' = [h EXCEPT !.none = @ \/ ret.r = "none",
                    !.fail = @ \/ ret.r \notin {"ok", "none"},
                    !.k = IF ret.r = "ok" /\ "pix" \in DOMAIN ret THEN @ + Len(ret.pix) ELSE @]

(* Calls after an unrecoverable error: anything but a panic *)
MCDead ==
  /\ pc = "dead" /\ Len(h.calls) > 0 /\ Len(h.calls) <= Len(Case.plan)
  /\ \E c \in Case.plan[Len(h.calls)] :
       /\ c.c \notin {"it", "iter"}
       /\ h' = [h EXCEPT !.calls = Append(@, c)]
       /\ pc' = IF c.c = "fin" THEN "gone" ELSE "dead"
  /\ UNCHANGED <<pvars, call, dec, ret>>

CanBegin == /\ Len(h.calls) <= Len(Case.plan) /\ h.calls # <<>>
            /\ \E c \in Case.plan[Len(h.calls)] :
                 (dec.iter => c.c \in {"it", "fin"}) /\ (c.c = "it" => dec.iter)

MCDone ==
  /\ pc \in {"idle", "dead", "gone"} /\ h.calls # <<>>
  /\ pc = "gone" \/ ~CanBegin
  /\ PrintT("SCRIPT dec " \o ToJson([file |-> Case.file, opt |-> Case.opt, faults |-> Case.faults, calls |-> Tail(h.calls)]))
  /\ pc' = "end"
  /\ UNCHANGED <<pvars, call, dec, ret, h>>

MCNext == MCBegin \/ MCRun \/ MCFinish \/ MCDead \/ MCDone
MCSpec == MCInit /\ [][MCNext]_hvars

-----------------------------------------------------------------------------
(* The properties *)

Frame0 == Doc.frames[h.n]

SameMeta(f, x) ==
  /\ f.l = x.l /\ f.t = x.t /\ f.w = x.w /\ f.h = x.h
  /\ f.hp = x.hp /\ f.pal = x.pal
  /\ f.dl = x.dl /\ f.tr = x.tr /\ f.ui = x.ui
  /\ f.di = IF x.di > 3 THEN 0 ELSE x.di

StoredPix(x) == LzwRun(x.m, x.data).pix

Returned(c) == pc = "ret" /\ call.c = c /\ ret.r = "ok"

(* C06, C09: the n-th frame reached is the n-th image, with the last control data before *)
(* it, no matter which calls were made and how reading failed in between.                *)
MetaRight ==
  (pc = "ret" /\ ret.r = "ok" /\ "f" \in DOMAIN ret /\ h.n > 0 /\ Doc.known) =>
    /\ h.n <= Len(Doc.frames) /\ SameMeta(ret.f, Frame0)

(* C03, C04, C08, C11: whole frames are the image's pixels in display order. *)
WholeRight ==
  (pc = "ret" /\ ret.r = "ok" /\ call.c \in {"rnf", "it", "rib"} /\ "pix" \in DOMAIN ret
    /\ Doc.known /\ h.n > 0 /\ h.k = 0) =>
    IF ret.pix = <<>> THEN Frame0.w * Frame0.h = 0
    ELSE ret.pix = Display(StoredPix(Frame0), Frame0.w, Frame0.h, Frame0.il)

(* C08, C11: pieces continue each other. *)
PiecesRight ==
  (Returned("fill") /\ Doc.known /\ h.n > 0) => ret.pix = SubSeq(StoredPix(Frame0), h.k + 1, h.k + Len(ret.pix))

(* C10, C15: the end is reported if and only if the trailer is reached (or the iterator failed), *)
(* and for good.                                                                                *)
EndRight ==
  pc = "ret" =>
    /\ ret.r = "none" => \/ Doc.known /\ h.n = Len(Doc.frames) /\ Len(Case.file) > 0 /\ dec.eof
                         \/ dec.iter /\ (h.fail \/ h.none)
                         \/ ~Doc.known
    /\ (h.none /\ call.c \in {"nfi", "rnf", "it"}) => ret.r = "none"
    /\ (~Case.whole /\ Doc.known /\ ~dec.iter /\ call.c \in {"nfi", "rnf"}) => ret.r # "none"

(* C07 *)
HeaderRight ==
  (Returned("new") /\ Doc.known) =>
    /\ hdr.w = Doc.screen.w /\ hdr.h = Doc.screen.h /\ dec.gp = Doc.screen.pal /\ (Doc.odd \/ dec.rep = Doc.loop)
    /\ dec.bg = IF Doc.screen.hp /\ 3 * Doc.screen.bg >= Len(Doc.screen.pal) THEN -1 ELSE Doc.screen.bg

(* C12 *)
MemoryRight ==
  /\ (pc = "ret" /\ ret.r = "ok" /\ call.c \in {"rnf", "it"} /\ Opt.mem >= 0) =>
       IF Opt.skip THEN Len(ret.lzw) <= Opt.mem ELSE BufSize(ret.f) <= Opt.mem
  /\ Opt.mem >= 0 => Len(ext.data) <= Max2(1, Opt.mem)

(* C12: only frames which are too large are refused for it. *)
MemoryExact ==
  (pc = "ret" /\ ret.r = "OutOfMemory") =>
    /\ Opt.mem >= 0 /\ ~Opt.skip /\ call.c \in {"rnf", "it"}
    /\ BufSize(dec.frame) < 0 \/ BufSize(dec.frame) > Opt.mem

(* C10, C13: nothing fails without a reason. *)
Inside(x) == x.l + x.w <= Doc.screen.w /\ x.t + x.h <= Doc.screen.h
Healthy(x) ==
  /\ x.m \in 1..11 /\ (x.hp \/ Doc.screen.pal # <<>>)
  /\ Opt.cons => Inside(x)
  /\ \E L \in {LzwRun(x.m, x.data)} : L.st # "bad" /\ Len(L.pix) >= x.w * x.h /\ (Opt.endc => L.st = "end")
ErrorsRight ==
  (pc = "ret" /\ ret.r \notin {"ok", "none", "any"} /\ Case.whole /\ Case.faults = <<>>
    /\ Doc.known /\ Doc.clean /\ call.c \in {"new", "nfi", "rnf", "it"} /\ Opt.mem < 0) =>
    \E i \in 1..Len(Doc.frames) : i <= h.n + 1 /\ ~Healthy(Doc.frames[i])

(* C13: what the options refuse doesn't pass. *)
OptionsRight ==
  (pc = "ret" /\ ret.r \in {"ok", "none"} /\ Doc.known /\ call.c \in {"nfi", "rnf"}) =>
    /\ Opt.cons => \A i \in 1..h.n : Inside(Doc.frames[i])
    /\ (Opt.endc /\ ~Opt.skip) =>
         \A i \in 1..(IF ret.r = "none" THEN h.n ELSE h.n - 1) :
           \E L \in {LzwRun(Doc.frames[i].m, Doc.frames[i].data)} : L.st = "end"

(* C20, C22: a frame read at once gives what the decoder of compressed frames makes of its data. *)
SameAsCompressed ==
  (pc = "ret" /\ Case.whole /\ Case.faults = <<>> /\ Doc.known /\ ~Opt.skip
    /\ call.c \in {"rnf", "it"} /\ "data" \in DOMAIN call /\ h.n > 0) =>
    \E data \in {<<Frame0.m>> \o Frame0.data} : ret.r \in FdResults(Opt, dec.frame, data, -1, FdLzw(data))

(* C11: a reader's error is reported as it is, an early end as UnexpectedEof. *)
FaultKinds ==
  (pc = "ret" /\ ret.r \notin {"ok", "none", "any", "fmt", "InvalidData", "OutOfMemory"}) =>
    \/ ret.r = "UnexpectedEof"
    \/ \E i \in 1..Len(Case.faults) : Case.faults[i].k = ret.r

(* Every call returns: the specification never gets stuck within one. *)
Progress == pc = "run" => ENABLED Run

=============================================================================
