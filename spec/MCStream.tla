------------------------------ MODULE MCStream ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the event machine (GifParser) for small files  *)
(* which arrive in pieces: a case's faults are the places where one piece   *)
(* ends and the next one isn't there yet.                                   *)
(*                                                                          *)
(* The properties are about the sequence of events: it's the one which the  *)
(* strict grammar (Grammar.tla, independent of GifParser) gives for the     *)
(* complete file; and after every piece exactly those events were reported  *)
(* whose bytes were received -- so the pieces don't matter.                 *)
(*                                                                          *)
(* Every complete behaviour is printed, to be carried out by the real       *)
(* StreamingDecoder and (with the pieces given by its reader) by Decoder;   *)
(* StreamTrace.tla and DecoderTrace.tla judge what they did.                *)
(***************************************************************************)
EXTENDS GifParser, Samples, Json

G == INSTANCE Grammar

CONSTANT Cases
ASSUME TLCSet(1, TLCEval(Cases))
MCCase(i) == TLCGet(1)[i]

VARIABLES evs,  \* events so far
          st    \* "run", "fail" (an error was reported) or "done"

mcvars == <<pvars, evs, st>>

NoOpt == [mem |-> -1, rgba |-> FALSE, skip |-> FALSE, endc |-> FALSE, unk |-> FALSE, cons |-> FALSE]

Piece(o) == [o |-> o, k |-> "Interrupted", p |-> FALSE]

-----------------------------------------------------------------------------
(* What the grammar says: a sequence of <<number of bytes needed, event>> *)

Told(n, e) == <<n, e>>

Accumulated(subs, i) == <<IF subs = <<>> THEN 0 ELSE Len(subs[1])>> \o Concat(SubSeq(subs, 1, i))

\* number of bytes before the length of the i-th sub-block, of those starting at byte p
SubAt(subs, i, p) == p - 1 + FoldLeft(LAMBDA a, s : a + 1 + Len(s), 0, SubSeq(subs, 1, i - 1))

ToldExt(x, p) ==
  <<Told(p + 1, [e |-> "block", v |-> Extension])>>
  \o [i \in 1..Max2(0, Len(x.subs) - 1) |->
        Told(SubAt(x.subs, i + 1, p + 2) + 1, [e |-> "sub", id |-> x.id, data |-> Accumulated(x.subs, i)])]
  \o <<Told(SubAt(x.subs, Len(x.subs) + 1, p + 2) + 1, [e |-> "fin", id |-> x.id, data |-> Accumulated(x.subs, Len(x.subs))])>>
  \o (IF G!LoopOf(x) = -2 THEN <<>>
      ELSE <<Told(SubAt(x.subs, Len(x.subs) + 1, p + 2) + 1, [e |-> "rep", v |-> G!LoopOf(x)])>>)

FrameOf(x, c) ==
  [l |-> x.l, t |-> x.t, w |-> x.w, h |-> x.h, il |-> x.il, hp |-> x.hp, pal |-> x.pal,
   dl |-> c.dl, di |-> IF c.di > 3 THEN 0 ELSE c.di, tr |-> c.tr, ui |-> c.ui]

\* offset after the i-th data byte of the sub-blocks at p (both from 1)
RECURSIVE DataAt(_, _, _)
DataAt(b, p, i) == IF i <= b[p] THEN p + i ELSE DataAt(b, p + b[p] + 1, i - b[p])

\* end: number of bytes of the file up to the image's terminator
ToldImage(b, x, p, end, c) ==
  LET sz == p + 10 + Len(x.pal)   \* index of the code size
      meta == <<Told(p + 1, [e |-> "block", v |-> Image]), Told(sz + 1, [e |-> "meta", f |-> FrameOf(x, c)])>> IN
  IF x.m \notin 1..11 THEN <<meta[1], Told(sz + 1, [e |-> "error", kind |-> "fmt"])>>
  ELSE The({meta \o (IF L.st = "bad" THEN <<Told(DataAt(b, sz + 1, L.at), [e |-> "error", kind |-> "InvalidData"])>>
                     ELSE <<Told(end, [e |-> "dend", pix |-> L.pix])>>) : L \in {LzwRun(x.m, x.data)}})

\* from block at p on; begun: an image was there already; c: control data
RECURSIVE ToldFrom(_, _, _, _, _)
ToldFrom(b, p, begun, c, acc) ==
  LET hend == IF begun THEN <<>> ELSE <<Told(IF b[p] = Trailer THEN p ELSE p + 1, [e |-> "hend"])>> IN
  IF b[p] = Trailer THEN acc \o hend \o <<Told(p, [e |-> "block", v |-> Trailer])>>
  ELSE IF b[p] = Extension THEN
    The({ToldFrom(b, x.p, begun, IF G!IsControl(x.v) THEN G!Control(x.v) ELSE c, acc \o ToldExt(x.v, p)) : x \in {G!ExtBlock(b, p)}})
  ELSE
    The({ToldFrom(b, x.p, TRUE, G!NoControl, acc \o hend \o ToldImage(b, x.v, p, x.p - 1, c)) : x \in {G!ImageBlock(b, p)}})

IsError(t) == t[2].e = "error"

\* nothing follows an error
UpToError(ts) ==
  IF \E i \in 1..Len(ts) : IsError(ts[i])
  THEN SubSeq(ts, 1, CHOOSE i \in 1..Len(ts) : IsError(ts[i]) /\ \A j \in 1..(i - 1) : ~IsError(ts[j]))
  ELSE ts

Story(b) ==
  The({UpToError(<<Told(13, [e |-> "bg", v |-> s.v.bg]), Told(s.p, [e |-> "gpal", pal |-> s.v.pal])>>
                 \o ToldFrom(b, s.p, FALSE, G!NoControl, <<>>)) : s \in {G!Screen(b)}})

\* Is it about files like this?
Clear(b) ==
  \E x \in {G!File89a(b)} :
    /\ x.ok
    /\ \A i \in 1..Len(x.v.blocks) :
         /\ ~G!OddControl(x.v.blocks[i]) /\ ~G!OddLoop(x.v.blocks[i])
         /\ x.v.blocks[i].k = "ext" => x.v.blocks[i].id \in KnownLabels

\* A file and what it tells
Known(f) == The({[f |-> f, clear |-> c, story |-> IF c THEN Story(f) ELSE <<>>] : c \in {Clear(f)}})

\* The first n bytes of such a file, in pieces ending at cuts
MkCase(x, n, cuts) ==
  [file |-> SubSeq(x.f, 1, n), opt |-> NoOpt, faults |-> [i \in 1..Len(cuts) |-> Piece(cuts[i])],
   clear |-> x.clear, story |-> x.story]

-----------------------------------------------------------------------------
MCInit == cid \in 1..Len(TLCGet(1)) /\ ParserInit /\ evs = <<>> /\ st = "run"

Step == st = "run" /\ ev.e = "none" /\ ParserStep /\ UNCHANGED <<evs, st>>

Plain(e) == IF e.e = "meta" THEN [e |-> "meta", f |-> e.f] ELSE e

Tell ==
  /\ st = "run" /\ ev.e \notin {"none", "dend"}
  /\ evs' = Append(evs, Plain(ev)) /\ ev' = NoEvent
  /\ st' = IF ev.e = "error" THEN "fail" ELSE "run"
  /\ UNCHANGED <<cid, fi, pos, hi, ctl, arg, hdr, ext, cur, img>>

Drop == st = "run" /\ ev.e = "dend" /\ ev' = NoEvent
        /\ UNCHANGED <<cid, fi, pos, hi, ctl, arg, hdr, ext, cur, img, evs, st>>

InImage == st = "run" /\ ev.e = "none" /\ ctl = "ImgData"
Corrupt == img.L.st = "bad" /\ Reached(img.L.at)

Pixels ==
  /\ InImage /\ ~Corrupt /\ TermReached /\ ImgEnd
  /\ evs' = Append(evs, [e |-> "dend", pix |-> img.L.pix]) /\ UNCHANGED st

BadCode ==
  /\ InImage /\ Corrupt
  /\ evs' = Append(evs, [e |-> "error", kind |-> "InvalidData"]) /\ st' = "fail"
  /\ UNCHANGED pvars

Waiting == st = "run" /\ ev.e = "none" /\ IF ctl = "ImgData" THEN ~Corrupt /\ ~TermReached ELSE ctl = "Done" \/ Starved

More ==
  /\ Waiting /\ ctl # "Done" /\ fi <= Len(Faults)
  /\ fi' = fi + 1
  /\ UNCHANGED <<cid, pos, hi, ctl, arg, hdr, ext, cur, img, ev, evs, st>>

Done ==
  /\ (Waiting /\ (ctl = "Done" \/ fi > Len(Faults))) \/ st = "fail"
  /\ PrintT("SCRIPT strm " \o ToJson([file |-> File, cuts |-> [i \in 1..Len(Faults) |-> Faults[i].o]]))
  /\ st' = "done" /\ UNCHANGED <<pvars, evs>>

MCNext == Step \/ Tell \/ Drop \/ Pixels \/ BadCode \/ More \/ Done
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
\* number of the events which n bytes tell
ToldBy(n) == Len(SelectSeq(Case.story, LAMBDA t : t[1] <= n))

(* C14, C02: after every piece, exactly what the bytes so far tell, was reported. *)
PiecesTell ==
  (Case.clear /\ Waiting) =>
    evs = [i \in 1..ToldBy(IF ctl = "Done" THEN Len(File) ELSE Limit) |-> Case.story[i][2]]

(* Never anything else *)
StoryRight ==
  Case.clear =>
    /\ Len(evs) <= Len(Case.story)
    /\ evs # <<>> => evs[Len(evs)] = Case.story[Len(evs)][2]

(* C05: a corrupt file fails where it's corrupt *)
FailRight ==
  (Case.clear /\ st = "fail") => IsError(Case.story[Len(evs)]) /\ Case.story[Len(evs)][1] <= Limit

(* C02: nothing is lost, nothing is read ahead. *)
Bounds == pos <= Limit /\ hi <= Limit /\ hi >= pos

EveryCallReturns == (st = "run" /\ ev.e = "none") => (Waiting \/ ENABLED ParserStep \/ TermReached \/ Corrupt)
=============================================================================
