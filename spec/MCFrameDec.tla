----------------------------- MODULE MCFrameDec -----------------------------
(***************************************************************************)
(* All sequences of calls of a FrameDecoder over a few frames and palettes, *)
(* printed to be carried out by the real one, under all options.            *)
(* The invariants say what FrameDec's sets of results amount to.            *)
(***************************************************************************)
EXTENDS FrameDec, Samples, FiniteSets, Json

CONSTANTS Depth, Alphabet(_)

VARIABLES o,     \* options
          calls, \* so far
          st
vars == <<o, calls, st>>

Meta(w, hh, il, tr, pal) ==
  [l |-> 3, t |-> 300, w |-> w, h |-> hh, il |-> il, dl |-> 0, di |-> 1, ui |-> FALSE, tr |-> tr, hp |-> pal # <<>>, pal |-> pal]
F(w, hh, il, tr, pal, data) == [f |-> Meta(w, hh, il, tr, pal), data |-> data]

(* m + 1 bits wide codes *)
Wide(m, cs) == <<m>> \o Pack([i \in 1..Len(cs) |-> <<cs[i], m + 1>>], 0, 0)

Frames == <<
  F(2, 1, FALSE, 1, <<>>, Wide(2, <<4, 1, 2, 5>>)),                      \* good
  F(1, 3, TRUE, -1, <<>>, Wide(2, <<1, 4, 2, 4, 3, 5>>)),                \* interlaced, no clear code at first
  F(2, 1, FALSE, 0, Palette(0, 9), Wide(1, <<2, 0, 2, 1, 3>>)),          \* palette of its own
  F(2, 2, TRUE, 3, Palette(0, 9), Wide(2, <<4, 1, 6, 3, 5>>)),           \* repeated pixel, index beyond the palette
  F(2, 2, TRUE, -1, <<>>, Wide(2, <<4, 1, 2, 3, 5>>)),                   \* a pixel short
  F(2, 1, FALSE, -1, <<>>, Wide(2, <<4, 1, 4, 7>>)),                     \* bad before the last pixel
  F(1, 1, FALSE, -1, <<>>, Wide(2, <<4, 1, 4, 7>>)),                     \* bad after it
  F(2, 1, FALSE, -1, <<>>, Wide(2, <<4, 1, 4, 2>>)),                     \* no end
  F(1, 2, FALSE, -1, <<>>, Wide(2, <<4, 1>>)),                           \* no end, short
  F(1, 1, FALSE, -1, <<>>, <<>>), F(0, 2, TRUE, -1, <<>>, <<>>), F(1, 1, FALSE, -1, <<>>, <<2>>),
  F(1, 1, FALSE, -1, <<>>, <<0, 1, 2>>), F(1, 1, TRUE, -1, <<>>, <<12, 1, 2>>), F(0, 0, FALSE, -1, <<>>, <<0>>),
  F(2, 1, FALSE, 255, <<>>, Wide(8, <<256, 255, 1, 257>>)),
  F(3, 1, FALSE, -1, <<>>, Wide(11, <<2048, 300, 1, 2050, 2049>>)),
  F(1, 1, FALSE, -1, <<>>, Wide(2, <<4, 1, 4, 2, 5>>)) >>                \* more than enough

ASSUME TLCSet(1, TLCEval(Frames))
NFrames == 18
Frame(i) == TLCGet(1)[i]

Set(p) == [c |-> "set", pal |-> p]
InPlace(i) == [c |-> "in", i |-> i]
Into(i, d) == [c |-> "into", i |-> i, d |-> d]

Everything(k) ==
  IF k = 1 THEN {Set(<<>>), Set(Palette(1, 30))}
  ELSE IF k % 2 = 1 THEN {Set(<<>>), Set(Palette(0, 77)), Into(1, -1)}
  ELSE {InPlace(i) : i \in 1..NFrames} \union {Into(i, 0) : i \in 1..NFrames} \union {Into(i, d) : i \in {1, 2, 4, 8, 11}, d \in {-1, 1}}

Init ==
  /\ o \in {[mem |-> m, rgba |-> r, skip |-> FALSE, endc |-> e, unk |-> FALSE, cons |-> FALSE] : m \in {-1, 4}, r \in BOOLEAN, e \in BOOLEAN}
  /\ calls = <<>> /\ st = "run"

Call ==
  /\ st = "run" /\ Len(calls) < Depth
  /\ \E c \in Alphabet(Len(calls) + 1) : calls' = Append(calls, c)
  /\ UNCHANGED <<o, st>>

Spelled(c) ==
  IF c.c = "set" THEN c ELSE [c |-> c.c, f |-> Frame(c.i).f, data |-> Frame(c.i).data, d |-> IF c.c = "into" THEN c.d ELSE 0]

Done ==
  /\ st = "run" /\ Len(calls) = Depth
  /\ PrintT("SCRIPT fdec " \o ToJson([opt |-> o, calls |-> [i \in 1..Depth |-> Spelled(calls[i])]]))
  /\ st' = "done" /\ UNCHANGED <<o, calls>>

Next == Call \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Latest == calls[Len(calls)]
Results == LET x == Frame(Latest.i)  c == Latest IN
           FdResults(o, x.f, x.data, IF c.c = "in" THEN -1 ELSE Max2(0, FdSize(o, x.f) + c.d), FdLzw(x.data))

IsDecode == calls # <<>> /\ Latest.c # "set"

(* There is a result, and only corrupt data after the pixels leaves a choice. *)
ResultsRight ==
  IsDecode =>
    /\ Results # {}
    /\ Cardinality(Results) > 1 => "InvalidData" \in Results

(* C20, C22: a good frame is always decoded, and what is decoded is good. *)
GoodRight ==
  IsDecode =>
    \E L \in {FdLzw(Frame(Latest.i).data)}, f \in {Frame(Latest.i).f} :
      LET enough == FdMinCode(Frame(Latest.i).data) \in 1..11 /\ Len(L.pix) >= f.w * f.h
          room == IF Latest.c = "in" THEN o.mem < 0 \/ f.w * f.h * (IF o.rgba THEN 4 ELSE 1) <= o.mem ELSE Latest.d >= 0 \/ f.w * f.h = 0 IN
      /\ "ok" \in Results => enough /\ room
      /\ (enough /\ room /\ L.st # "bad") => Results = {"ok"}

(* C12 *)
LimitRight == (IsDecode /\ "OutOfMemory" \in Results) => Latest.c = "in" /\ o.mem >= 0
=============================================================================
