------------------------------- MODULE MCLzw -------------------------------
(***************************************************************************)
(* Lzw.tla against the textbook: a table of strings.  All code sequences of *)
(* Depth codes, after a prefix (m, p): a clear code and p literals, which   *)
(* brings the table close to a change of the code width or to being full.   *)
(* Each sequence is printed as the image of a file.                         *)
(***************************************************************************)
EXTENDS Samples, Lzw, Json

CONSTANTS Starts, Depth, CodeChoice(_)

VARIABLES
  m,      \* minimum code size
  start,  \* which prefix
  d,      \* codes so far, packed: bytes, remaining bits and their number, state of Lzw.tla fed with the bytes
  n,      \* number of codes after the prefix
  s,      \* state of Lzw.tla
  t       \* textbook: table of strings (codes from clear + 2 on), prev, out, st
vars == <<m, start, d, n, s, t>>

-----------------------------------------------------------------------------
(* The textbook *)
TextInit == [table |-> <<>>, prev |-> <<>>, out |-> <<>>, st |-> "open", w |-> m + 1]

Known(x, c) == c < 2 ^ m \/ (c >= 2 ^ m + 2 /\ c - 2 ^ m - 1 <= Len(x.table))
String(x, c) == IF c < 2 ^ m THEN <<c % 256>> ELSE x.table[c - 2 ^ m - 1]

Text(x, c) ==
  IF c = 2 ^ m THEN [x EXCEPT !.table = <<>>, !.prev = <<>>, !.w = m + 1]
  ELSE IF c = 2 ^ m + 1 THEN [x EXCEPT !.st = "end"]
  ELSE LET next == 2 ^ m + 2 + Len(x.table)
           full == next >= 4096
           new == Append(x.prev, IF Known(x, c) THEN String(x, c)[1] ELSE x.prev[1]) IN
    IF ~Known(x, c) /\ (x.prev = <<>> \/ c # next) THEN [x EXCEPT !.st = "bad"]
    ELSE IF x.prev = <<>> THEN [x EXCEPT !.prev = String(x, c), !.out = @ \o String(x, c)]
    ELSE IF full /\ ~Known(x, c) THEN [x EXCEPT !.st = "bad"]
    ELSE IF full THEN [x EXCEPT !.prev = String(x, c), !.out = @ \o String(x, c)]
    ELSE [x EXCEPT !.table = Append(@, new),
                   !.prev = IF Known(x, c) THEN String(x, c) ELSE new,
                   !.out = @ \o (IF Known(x, c) THEN String(x, c) ELSE new),
                   \* the width grows when the next code to be defined doesn't fit
                   !.w = IF next + 1 >= 2 ^ @ /\ @ < 12 THEN @ + 1 ELSE @]

-----------------------------------------------------------------------------
Lit(i) == (i * 5) % Min2(2 ^ m, 4)

RECURSIVE Spill(_)
Spill(x) == IF x.nb < 8 THEN x
            ELSE Spill(TLCEval([x EXCEPT !.bytes = Append(@, x.acc % 256), !.acc = @ \div 256, !.nb = @ - 8,
                                         !.s = LzwByte(@, x.acc % 256)]))
Packed(x, c, w) == Spill(TLCEval([x EXCEPT !.acc = @ + c * 2 ^ x.nb, !.nb = @ + w]))
Closed(x) == IF x.nb = 0 THEN x ELSE Spill([x EXCEPT !.nb = 8])

One(x, c) == TLCEval(<<Packed(x[1], c, x[3].w), OneCode(x[2], c), Text(x[3], c)>>)

(* Codes of the prefix *)
Fed(x, p) == FoldLeft(One, x, [i \in 1..Max2(0, p) |-> Lit(i)])

Fresh == <<[bytes |-> <<>>, acc |-> 0, nb |-> 0, s |-> LzwInit(m)], LzwInit(m), TextInit>>

Init ==
  /\ start \in 1..Len(Starts) /\ m = Starts[start].m /\ n = 0
  /\ \E x \in {Fed(IF Starts[start].p >= 0 THEN One(Fresh, 2 ^ m) ELSE Fresh, Starts[start].p)} :
       d = x[1] /\ s = x[2] /\ t = x[3]

Next1(c) ==
  /\ c < 2 ^ t.w /\ n' = n + 1
  /\ \E x \in {One(<<d, s, t>>, c)} : d' = x[1] /\ s' = x[2] /\ t' = x[3]
  /\ UNCHANGED <<m, start>>

Step == t.st = "open" /\ n < Depth /\ \E c \in CodeChoice(t) : Next1(c)

(* The data as the image of a file with room for all of its pixels *)
FileOf(data, k) ==
  GIF89a \o <<1, 0, 1, 0, 128, 0, 0, 1, 2, 3, 4, 5, 6, 44, 0, 0, 0, 0>> \o Le(Max2(1, k)) \o Le(1) \o <<0, m>> \o Chop(data, 255) \o <<59>>

Show ==
  /\ t.st # "open" \/ n = Depth
  /\ \E x \in {Closed(d)} :
       /\ PrintT("SCRIPT dec " \o ToJson([file |-> FileOf(x.bytes, Len(t.out)),
            opt |-> [mem |-> -1, rgba |-> FALSE, skip |-> FALSE, endc |-> Len(x.bytes) % 2 = 0, unk |-> FALSE, cons |-> FALSE],
            faults |-> <<>>, calls |-> <<[c |-> "rnf", d |-> 0], [c |-> "rnf", d |-> 0]>>]))
       \* reading the packed bytes gives the same, up to codes in the padding
       /\ t' = [t EXCEPT !.st = IF IsPrefix(t.out, x.s.pix) /\ (t.st # "open" => x.s.st = t.st /\ x.s.pix = t.out)
                                THEN "printed" ELSE "wrong"]
  /\ n' = Depth + 1 /\ UNCHANGED <<m, start, d, s>>

Done == n = Depth + 1 /\ UNCHANGED vars
Next == Step \/ (n <= Depth /\ Show)
Spec == Init /\ [][Next]_vars

(* Both agree. *)
Agree ==
  t.st \in {"open", "end", "bad"} =>
    /\ s.pix = t.out /\ s.st = t.st
    /\ t.st = "open" => s.w = t.w /\ s.next = 2 ^ m + 2 + Len(t.table)
    \* (in a long table only the last few)
    /\ \A k \in Max2(1, Len(t.table) - 40)..Len(t.table) : SubSeq(s.pix, s.starts[k], s.starts[k] + s.lens[k] - 1) = t.table[k]
PackedRight == t.st # "wrong"

-----------------------------------------------------------------------------
(* Instances *)
S(mm, pp) == [m |-> mm, p |-> pp]

(* every code, from the beginning (p = -1: without a clear code first) *)
SmallStarts == <<S(1, 0), S(2, 0), S(2, -1), S(1, -1), S(1, 1), S(2, 1)>>
AllCodes(x) == 0..(2 ^ x.w - 1)

(* a few kinds of codes, around changes of the width *)
KindsOf(x) == LET next == 2 ^ m + 2 + Len(x.table) IN
  {0, 2 ^ m, 2 ^ m + 1, 2 ^ m + 2, next - 1, next, next + 1} \cap 0..4095
EdgeStarts == <<S(2, 1), S(2, 2), S(2, 8), S(2, 9), S(2, 10), S(3, 4), S(3, 5), S(3, 6), S(4, 12), S(4, 13), S(5, 29), S(8, 252), S(8, 253), S(8, 254), S(1, 3), S(1, 4)>>
FullStarts == <<S(8, 3836), S(8, 3838), S(8, 3839)>>

=============================================================================
