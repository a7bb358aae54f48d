------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The GIF89a grammar, strictly, as a function from bytes to a structure.   *)
(* It is independent of the event machine in GifParser.tla.                 *)
(*                                                                          *)
(*   File   == Screen Block* Trailer                                        *)
(*   Block  == "!" label Sub* 0  |  "," descriptor [table] size Sub* 0      *)
(*   Sub    == n byte^n,  1 <= n <= 255                                     *)
(***************************************************************************)
EXTENDS Bytes, Lzw, TLC

(* A parse result: ok, next position and a value. *)
Bad == [ok |-> FALSE, p |-> 0, v |-> <<>>]
Good(p, v) == [ok |-> TRUE, p |-> p, v |-> v]

RECURSIVE Subs(_, _, _)
Subs(b, p, acc) ==
  IF p > Len(b) THEN Bad
  ELSE IF b[p] = 0 THEN Good(p + 1, acc)
  ELSE IF p + b[p] > Len(b) THEN Bad
  ELSE Subs(b, TLCEval(p + b[p] + 1), TLCEval(Append(acc, SubSeq(b, p + 1, p + b[p]))))

TableSize(flags) == 3 * 2 ^ ((flags % 8) + 1)

(* A colour table of this packed field at p, if it has one. *)
Table(b, p, flags) ==
  IF ~Bit(flags, 7) THEN Good(p, <<>>)
  ELSE IF p + TableSize(flags) - 1 > Len(b) THEN Bad
  ELSE Good(p + TableSize(flags), SubSeq(b, p, p + TableSize(flags) - 1))

Screen(b) ==
  IF Len(b) < 13 \/ SubSeq(b, 1, 6) # GIF89a THEN Bad
  ELSE LET t == Table(b, 14, b[11]) IN
       IF ~t.ok THEN Bad
       ELSE Good(t.p, [w |-> LE16(b[7], b[8]), h |-> LE16(b[9], b[10]),
                       hp |-> Bit(b[11], 7), pal |-> t.v, bg |-> b[12]])

ExtBlock(b, p) ==
  IF p + 1 > Len(b) THEN Bad
  ELSE LET s == Subs(b, p + 2, <<>>) IN
       IF ~s.ok THEN Bad ELSE Good(s.p, [k |-> "ext", id |-> b[p + 1], subs |-> s.v])

ImageBlock(b, p) ==
  IF p + 9 > Len(b) THEN Bad
  ELSE LET fl == b[p + 9]
           t == Table(b, p + 10, fl) IN
       IF ~t.ok \/ t.p > Len(b) THEN Bad
       ELSE LET s == Subs(b, t.p + 1, <<>>) IN
            IF ~s.ok THEN Bad
            ELSE Good(s.p, [k |-> "img", l |-> LE16(b[p + 1], b[p + 2]), t |-> LE16(b[p + 3], b[p + 4]),
                            w |-> LE16(b[p + 5], b[p + 6]), h |-> LE16(b[p + 7], b[p + 8]),
                            il |-> Bit(fl, 6), hp |-> Bit(fl, 7), pal |-> t.v,
                            m |-> b[t.p], data |-> Concat(s.v)])

(* All blocks from p on, up to the trailer or the end of b. *)
RECURSIVE BlocksFrom(_, _, _)
BlocksFrom(b, p, acc) ==
  IF p > Len(b) \/ b[p] = Trailer THEN Good(p, acc)
  ELSE LET x == IF b[p] = Extension THEN ExtBlock(b, p)
                ELSE IF b[p] = Image THEN ImageBlock(b, p) ELSE Bad IN
       IF ~x.ok THEN Bad ELSE BlocksFrom(b, TLCEval(x.p), TLCEval(Append(acc, x.v)))

(* b is a number of complete blocks. *)
Blocks(b) ==
  LET x == BlocksFrom(b, 1, <<>>) IN IF x.ok /\ x.p = Len(b) + 1 THEN x ELSE Bad

(* b is a complete file; its trailer is its last byte. *)
File89a(b) ==
  LET s == Screen(b) IN
  IF ~s.ok THEN Bad
  ELSE LET x == BlocksFrom(b, s.p, <<>>) IN
       IF x.ok /\ x.p = Len(b) /\ b[Len(b)] = Trailer
       THEN Good(x.p, [screen |-> s.v, blocks |-> x.v]) ELSE Bad

-----------------------------------------------------------------------------
(* The meaning of blocks *)

IsControl(x) == x.k = "ext" /\ x.id = ControlLabel /\ Len(x.subs) = 1 /\ Len(x.subs[1]) = 4

(* Control data of another form is not defined by the format. *)
OddControl(x) == x.k = "ext" /\ x.id = ControlLabel /\ ~IsControl(x)

Control(x) ==
  LET d == x.subs[1] IN
  [di |-> Bits(d[1], 2, 3), ui |-> Bit(d[1], 1), dl |-> LE16(d[2], d[3]),
   tr |-> IF Bit(d[1], 0) THEN d[4] ELSE -1]

NoControl == [di |-> 1, ui |-> FALSE, dl |-> 0, tr |-> -1]

(* The loop count of the block, or -2 *)
LoopOf(x) ==
  IF /\ x.k = "ext" /\ x.id = AppLabel /\ Len(x.subs) >= 2 /\ x.subs[1] = Netscape
     /\ Len(x.subs[2]) = 3 /\ x.subs[2][1] = 1
  THEN LET n == LE16(x.subs[2][2], x.subs[2][3]) IN IF n = 0 THEN -1 ELSE n
  ELSE -2

(* Something like it, with other sub-blocks: not defined by the format *)
OddLoop(x) ==
  /\ x.k = "ext" /\ x.id = AppLabel /\ LoopOf(x) = -2
  /\ \E d \in {Concat(x.subs)} : Len(d) >= 14 /\ SubSeq(d, 1, 12) = Append(Netscape, 1)

(* LZW data of a complete image in canonical form: clear code first, end code last. *)
StartsWithClear(m, data) ==
  /\ Len(data) >= 1
  /\ LET v == data[1] + (IF Len(data) >= 2 THEN 256 * data[2] ELSE 0) IN
     v % Pow2[m + 1] = ClearCode(m)

WellCoded(m, data, pix) ==
  /\ m \in 2..8
  /\ StartsWithClear(m, data)
  /\ \E L \in {LzwRun(m, data)} : L.st = "end" /\ L.at = Len(data) /\ L.pix = pix

(* The frames of a file: every image with the last control data before it. *)
RECURSIVE FramesOf(_, _)
FramesOf(blocks, ctl) ==
  IF blocks = <<>> THEN <<>>
  ELSE LET x == blocks[1] IN
       IF x.k = "img"
       THEN <<[l |-> x.l, t |-> x.t, w |-> x.w, h |-> x.h, il |-> x.il, hp |-> x.hp, pal |-> x.pal,
               di |-> ctl.di, ui |-> ctl.ui, dl |-> ctl.dl, tr |-> ctl.tr,
               m |-> x.m, data |-> x.data]>> \o FramesOf(Tail(blocks), NoControl)
       ELSE FramesOf(Tail(blocks), IF IsControl(x) THEN Control(x) ELSE ctl)

(* The loop count which applies before the first image: 0 if none *)
RECURSIVE LoopBefore(_, _)
LoopBefore(blocks, n) ==
  IF blocks = <<>> \/ blocks[1].k = "img" THEN n
  ELSE LoopBefore(Tail(blocks), IF LoopOf(blocks[1]) = -2 THEN n ELSE LoopOf(blocks[1]))

=============================================================================
