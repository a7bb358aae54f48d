-------------------------------- MODULE Lzw --------------------------------
(***************************************************************************)
(* Variable-width LZW as used by GIF (GIF89a, appendix F): the meaning of a *)
(* sequence of data bytes, for a given minimum code size.                   *)
(*                                                                          *)
(* The decoder is a state machine over data bytes.  The dictionary is not   *)
(* stored as strings: entry k is the output of the k-th code since the last *)
(* clear plus the pixel following it, i.e. an interval of the output.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Pow2 == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096>>

MaxCodes == 4096

ClearCode(m) == Pow2[m]
EndCode(m)   == Pow2[m] + 1

LzwInit(m) ==
  [ m     |-> m,
    acc   |-> 0,        \* bits read but not used yet
    nb    |-> 0,        \* number of those bits
    w     |-> m + 1,    \* current code width
    next  |-> Pow2[m] + 2, \* next dictionary code to be defined
    prev  |-> 0,        \* 1-based position in pix of the previous code's output, 0: none
    starts |-> <<>>,    \* intervals of pix which are dictionary entries
    lens  |-> <<>>,
    pix   |-> <<>>,     \* all output so far
    marks |-> <<>>,     \* per code with output: <<number of pixels, data byte index>>
    n     |-> 0,        \* data bytes read
    st    |-> "open",   \* "open", "end" (end code seen) or "bad" (impossible code)
    at    |-> 0 ]       \* data byte index at which st left "open"

(* Definition of one more dictionary entry after the code which follows it. *)
Define(s) ==
  IF s.prev = 0 \/ s.next >= MaxCodes THEN s
  ELSE [s EXCEPT
         !.starts = Append(@, s.prev),
         !.lens   = Append(@, Len(s.pix) - s.prev + 2),
         !.w      = IF s.next >= Pow2[s.w] - 1 /\ s.w < 12 THEN @ + 1 ELSE @,
         !.next   = @ + 1]

Emit(s0, str) ==
  LET s == Define(s0) IN
  [s EXCEPT !.prev = Len(s.pix) + 1,
            !.pix  = @ \o str,
            !.marks = Append(@, <<Len(s.pix) + Len(str), s.n>>)]

OneCode(s, c) ==
  IF c < Pow2[s.m] THEN Emit(s, <<c % 256>>)
  ELSE IF c = Pow2[s.m] THEN
    [s EXCEPT !.w = s.m + 1, !.next = Pow2[s.m] + 2, !.prev = 0,
              !.starts = <<>>, !.lens = <<>>]
  ELSE IF c = Pow2[s.m] + 1 THEN [s EXCEPT !.st = "end", !.at = s.n]
  ELSE LET k == c - Pow2[s.m] - 1 IN
    IF k <= Len(s.starts) THEN
      Emit(s, SubSeq(s.pix, s.starts[k], s.starts[k] + s.lens[k] - 1))
    ELSE IF s.prev # 0 /\ c = s.next THEN
      Emit(s, Append(SubSeq(s.pix, s.prev, Len(s.pix)), s.pix[s.prev]))
    ELSE [s EXCEPT !.st = "bad", !.at = s.n]

RECURSIVE Codes(_)
Codes(s) ==
  IF s.st # "open" \/ s.nb < s.w THEN s
  ELSE Codes(OneCode([s EXCEPT !.acc = @ \div Pow2[s.w], !.nb = @ - s.w],
                     s.acc % Pow2[s.w]))

LzwByte(s, b) ==
  IF s.st # "open" THEN s
  ELSE Codes([s EXCEPT !.acc = @ + b * (IF s.nb = 0 THEN 1 ELSE Pow2[s.nb]),
                       !.nb = @ + 8, !.n = @ + 1])

(* Everything the data bytes denote. *)
LzwRun(m, data) == FoldLeft(LzwByte, LzwInit(m), data)

=============================================================================
